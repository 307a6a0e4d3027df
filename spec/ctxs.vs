//% raw
// ================================================================ utility contexts
pub mod ctxs {
use super::*;
use super::recv::*;
use super::send::*;
use super::rflav::*;
use super::sflav::*;
use super::handle::*;
use super::frame::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
/// an iterator: `yields(k)` is what its k-th call of `next` returns, `pos` how many were made; its steps have no effect
/// on channels or clocks
pub trait VxIter<T>: Sized {
    spec fn yields(&self, k: int) -> Option<T>;
    spec fn pos(&self) -> nat;
    fn vx_next(&mut self, vw: &mut World) -> (r: Option<T>)
        ensures final(vw)@ == old(vw)@, r == old(self).yields(old(self).pos() as int), final(self).pos() == old(self).pos() + 1 < usize::MAX,
            forall|k: int| #[trigger] final(self).yields(k) == old(self).yields(k);
}
pub open spec fn same_iter<T, I: VxIter<T>>(a: I, b: I) -> bool { forall|k: int| #[trigger] b.yields(k) == a.yields(k) }
//% effects vx_next
//% file src/utility_contexts/mod.rs
//% enum UtilityError noderive
//% enum CheckerError noderive
//% raw
pub enum AnyErr { Util(UtilityError), Check(CheckerError), Enq(EnqueueError), Deq(DequeueError) }
/// anyhow's conversion of an error
pub trait VxErr: Sized { spec fn any(self) -> AnyErr; fn conv(self) -> (r: AnyErr) ensures r == self.any(); }
impl VxErr for UtilityError { open spec fn any(self) -> AnyErr { AnyErr::Util(self) } fn conv(self) -> AnyErr { AnyErr::Util(self) } }
impl VxErr for CheckerError { open spec fn any(self) -> AnyErr { AnyErr::Check(self) } fn conv(self) -> AnyErr { AnyErr::Check(self) } }
impl VxErr for EnqueueError { open spec fn any(self) -> AnyErr { AnyErr::Enq(self) } fn conv(self) -> AnyErr { AnyErr::Enq(self) } }
impl VxErr for DequeueError { open spec fn any(self) -> AnyErr { AnyErr::Deq(self) } fn conv(self) -> AnyErr { AnyErr::Deq(self) } }
pub fn vx_from<E: VxErr>(e: E) -> (r: AnyErr) ensures r == e.any() { e.conv() }
//% typemap anyhow::Result<()> => Result<(), AnyErr>
//% shims take vx_next
//% file src/datastructures/mod.rs
//% struct ContextInfo noderive
//% file src/utility_contexts/generator_context.rs
//% struct GeneratorContext noderive generics=T,FType bound=T:DAMType
//% raw
/// the receiving side is gone: no room will be freed for the next item, or nobody takes it
pub open spec fn gone(s: SS, v: WV) -> bool { s.live && (gate_never(s, v) || total(s.ch) <= v.sent[s.ch]) }
/// never waits
pub open spec fn roomy(s: SS) -> bool { !s.live || s.cap is None }
/// n elements of `it` went out on s in order, one per cycle
pub open spec fn emitted<T, I: VxIter<T>>(it: I, s: SS, w: WV, v: WV, n: int) -> bool {
    &&& n >= 0 && io_step(w, v, s.ch, s.resp)
    &&& clock(w) + n <= clock(v) < INF && (roomy(s) ==> clock(v) == clock(w) + n)
    &&& if s.live { v.sent[s.ch] == w.sent[s.ch] + n } else { v.sent == w.sent }
    &&& s.live ==> forall|j: int| 0 <= j < n ==> #[trigger] gen_item(it, s, w, j)
    &&& s.live ==> forall|j: int| 0 <= j < n ==> #[trigger] hstamp(s.ch, w.sent[s.ch] + j) < clock(v) + s.lat
}
pub open spec fn gen_item<T, I: VxIter<T>>(it: I, s: SS, w: WV, j: int) -> bool {
    let k = w.sent[s.ch] + j;
    &&& k < total(s.ch) && it.yields(it.pos() + j) == Some(hist::<ChannelElement<T>>(s.ch, k).data)
    &&& hstamp(s.ch, k) >= clock(w) + j + s.lat && (roomy(s) ==> hstamp(s.ch, k) == clock(w) + j + s.lat)
    &&& j > 0 ==> hstamp(s.ch, k) > hstamp(s.ch, k - 1)
}
/// the outcome of a generator, a being the state after the last item it got rid of
pub open spec fn gen_post<T, I: VxIter<T>>(it: I, s: SS, w: WV, a: WV, v: WV, n: int, r: Result<(), AnyErr>) -> bool {
    &&& emitted::<T, I>(it, s, w, a, n) && io_step(a, v, s.ch, s.resp) && v.sent == a.sent
    &&& r is Ok ==> v == a && it.yields(it.pos() + n) is None
    &&& r is Err ==> s.live && gone(s, v) && it.yields(it.pos() + n) is Some
}
//% raw
/// x went out (asked for at the earliest time), and one cycle passed
pub open spec fn emit1<T>(s: SS, u: WV, a: WV, b: WV, v: WV, x: ChannelElement<T>, r: Result<(), EnqueueError>) -> bool {
    sync(u, a) && r is Ok && enq_ok(s, a, b, x, r) && step(b, v) && clock(v) == clock(b) + 1 && tk(x.time) == clock(a) + 1
}
pub proof fn lemma_emit<T: DAMType, I: VxIter<T>>(it: I, s: SS, w: WV, u: WV, v: WV, n: int)
    requires emitted::<T, I>(it, s, w, u, n), it.yields(it.pos() + n) is Some, s.live ==> s.lat >= 1, clock(v) < INF,
        exists|a: WV, b: WV, x: ChannelElement<T>, r: Result<(), EnqueueError>| #[trigger] enq_ok(s, a, b, x, r) && emit1(s, u, a, b, v, x, r) && it.yields(it.pos() + n) == Some(x.data)
    ensures emitted::<T, I>(it, s, w, v, n + 1)
{
    let (a, b, x, r) = choose|a: WV, b: WV, x: ChannelElement<T>, r: Result<(), EnqueueError>| #[trigger] enq_ok(s, a, b, x, r) && emit1(s, u, a, b, v, x, r) && it.yields(it.pos() + n) == Some(x.data);
    if s.live {
        let k = w.sent[s.ch] + n;
        assert(hstamp(s.ch, k) == clock(b) + s.lat);
        assert(gen_item::<T, I>(it, s, w, n)) by { if n > 0 { assert(gen_item::<T, I>(it, s, w, n - 1)); assert(hstamp(s.ch, w.sent[s.ch] + (n - 1)) < clock(a) + s.lat); } }
    }
}
//% impl Context for GeneratorContext [ctx] => impl<T: DAMType, FType> GeneratorContext<T, FType>
//% fn run_falliable as=gen_run world
//% sig
    pub fn gen_run<IType: VxIter<T>>(&mut self, vw: &mut World) -> (r: Result<(), AnyErr>) where FType: FnOnce() -> IType
    requires old(self).output.inv(old(vw)@), old(self).context_info.time.mine(old(vw)@), clock(old(vw)@) < INF,
        old(self).iterator matches Some(f) ==> f.requires(()),
    ensures final(self).iterator is None, final(self).output.st() == old(self).output.st(), final(self).context_info == old(self).context_info,
        old(self).iterator is None ==> r == Err::<(), AnyErr>(AnyErr::Util(UtilityError::DuplicateExec)) && final(vw)@ == old(vw)@,
        old(self).iterator matches Some(f) ==> exists|it: IType, a: WV, n: int| f.ensures((), it) && #[trigger] emitted::<T, IType>(it, old(self).output.st(), old(vw)@, a, n) && gen_post::<T, IType>(it, old(self).output.st(), old(vw)@, a, final(vw)@, n, r),
//% proof start
    let ghost s = self.output.st();
    let ghost ci = self.context_info;
    let ghost w0 = vw@;
//% proof loop 0 before
    let ghost it = vx_b0;
    let ghost mut n: int = 0;
//% loop 0
    invariant_except_break vx_b0.pos() == it.pos() + n,
    invariant
        self.iterator is None, self.output.st() == s, self.output.inv(vw@), self.context_info == ci, ci.time.mine(vw@),
        emitted::<T, IType>(it, s, w0, vw@, n), same_iter::<T, IType>(it, vx_b0), w0 == old(vw)@,
        old(self).iterator is Some, old(self).iterator->Some_0.ensures((), it), old(self).output.st() == s, old(self).context_info == ci,
        0 <= n,
    ensures it.yields(it.pos() + n) is None, emitted::<T, IType>(it, s, w0, vw@, n),
//% proof loop 0 start
    let ghost wa = vw@;
    proof { if s.live { lemma_lat(&self.output, vw@); } }
//% proof loop 0 end
    proof { lemma_emit::<T, IType>(it, s, w0, wa, vw@, n); n = n + 1; }
//% end
//% typemap SyncSendMarker<(IType,TimeType)> => ()
//% file src/utility_contexts/trace_context.rs
//% struct TraceContext noderive generics=T,FType bound=T:DAMType
//% raw
/// the clock a trace asks for at its n-th item
pub open spec fn tr_clk<T, TT: VxInto<Time>, I: VxIter<(T, TT)>>(it: I, c: int, n: int) -> int
    decreases n
{ if n <= 0 { c } else { imax(tr_clk::<T, TT, I>(it, c, n - 1), tk(it.yields(it.pos() + n - 1)->Some_0.1.into_spec()) - 1) } }
pub open spec fn tr_item<T, TT: VxInto<Time>, I: VxIter<(T, TT)>>(it: I, s: SS, w: WV, j: int) -> bool {
    let k = w.sent[s.ch] + j;
    &&& k < total(s.ch) && it.yields(it.pos() + j) is Some && it.yields(it.pos() + j)->Some_0.0 == hist::<ChannelElement<T>>(s.ch, k).data
    &&& hstamp(s.ch, k) >= tr_clk::<T, TT, I>(it, clock(w), j + 1) + s.lat && (roomy(s) ==> hstamp(s.ch, k) == tr_clk::<T, TT, I>(it, clock(w), j + 1) + s.lat)
    &&& j > 0 ==> hstamp(s.ch, k) >= hstamp(s.ch, k - 1)
}
/// n elements of `it` went out on s in order, none before its time
pub open spec fn traced<T, TT: VxInto<Time>, I: VxIter<(T, TT)>>(it: I, s: SS, w: WV, v: WV, n: int) -> bool {
    &&& n >= 0 && io_step(w, v, s.ch, s.resp)
    &&& tr_clk::<T, TT, I>(it, clock(w), n) <= clock(v) < INF && (roomy(s) ==> clock(v) == tr_clk::<T, TT, I>(it, clock(w), n))
    &&& if s.live { v.sent[s.ch] == w.sent[s.ch] + n } else { v.sent == w.sent }
    &&& s.live ==> forall|j: int| 0 <= j < n ==> #[trigger] tr_item::<T, TT, I>(it, s, w, j)
    &&& s.live ==> forall|j: int| 0 <= j < n ==> #[trigger] hstamp(s.ch, w.sent[s.ch] + j) <= clock(v) + s.lat
}
pub open spec fn tr_post<T, TT: VxInto<Time>, I: VxIter<(T, TT)>>(it: I, s: SS, w: WV, a: WV, v: WV, n: int, r: Result<(), AnyErr>) -> bool {
    &&& traced::<T, TT, I>(it, s, w, a, n) && io_step(a, v, s.ch, s.resp) && v.sent == a.sent
    &&& r is Ok ==> v == a && it.yields(it.pos() + n) is None
    &&& r is Err ==> s.live && gone(s, v) && it.yields(it.pos() + n) is Some
}
/// x went out when its time t had come
pub open spec fn trace1<T>(s: SS, t: Time, u: WV, a: WV, b: WV, x: ChannelElement<T>, r: Result<(), EnqueueError>) -> bool {
    step(u, a) && clock(a) == imax(clock(u), tk(t) - 1) && r is Ok && enq_ok(s, a, b, x, r) && tk(x.time) == clock(a) + 1
}
pub proof fn lemma_trace<T: DAMType, TT: VxInto<Time>, I: VxIter<(T, TT)>>(it: I, s: SS, w: WV, u: WV, v: WV, n: int)
    requires traced::<T, TT, I>(it, s, w, u, n), it.yields(it.pos() + n) is Some, s.live ==> s.lat >= 1, clock(v) < INF,
        exists|a: WV, x: ChannelElement<T>, r: Result<(), EnqueueError>| #[trigger] enq_ok(s, a, v, x, r) && trace1(s, it.yields(it.pos() + n)->Some_0.1.into_spec(), u, a, v, x, r) && it.yields(it.pos() + n)->Some_0.0 == x.data
    ensures traced::<T, TT, I>(it, s, w, v, n + 1)
{
    let (a, x, r) = choose|a: WV, x: ChannelElement<T>, r: Result<(), EnqueueError>| #[trigger] enq_ok(s, a, v, x, r) && trace1(s, it.yields(it.pos() + n)->Some_0.1.into_spec(), u, a, v, x, r) && it.yields(it.pos() + n)->Some_0.0 == x.data;
    assert(tr_clk::<T, TT, I>(it, clock(w), n + 1) == imax(tr_clk::<T, TT, I>(it, clock(w), n), tk(it.yields(it.pos() + n)->Some_0.1.into_spec()) - 1));
    if s.live {
        let k = w.sent[s.ch] + n;
        assert(hstamp(s.ch, k) == clock(v) + s.lat);
        assert(tr_item::<T, TT, I>(it, s, w, n)) by { if n > 0 { assert(tr_item::<T, TT, I>(it, s, w, n - 1)); assert(hstamp(s.ch, w.sent[s.ch] + (n - 1)) <= clock(u) + s.lat); } }
    }
}
/// every time of the trace is finite
pub open spec fn tr_fin<T, TT: VxInto<Time>, I: VxIter<(T, TT)>>(it: I) -> bool {
    forall|k: int| (#[trigger] it.yields(k)) matches Some(x) ==> tfin(x.1.into_spec())
}
//% impl Context for TraceContext [ctx] => impl<T: DAMType, FType> TraceContext<T, FType>
//% fn run_falliable as=trace_run world
//% sig
    pub fn trace_run<TT: VxInto<Time>, IType: VxIter<(T, TT)>>(&mut self, vw: &mut World) -> (r: Result<(), AnyErr>) where FType: FnOnce() -> IType
    requires old(self).output.inv(old(vw)@), old(self).context_info.time.mine(old(vw)@), clock(old(vw)@) < INF,
        old(self).iterator matches Some(f) ==> f.requires(()) && forall|it: IType| f.ensures((), it) ==> #[trigger] tr_fin::<T, TT, IType>(it),
    ensures final(self).iterator is None, final(self).output.st() == old(self).output.st(), final(self).context_info == old(self).context_info,
        old(self).iterator is None ==> r == Err::<(), AnyErr>(AnyErr::Util(UtilityError::DuplicateExec)) && final(vw)@ == old(vw)@,
        old(self).iterator matches Some(f) ==> exists|it: IType, a: WV, n: int| f.ensures((), it) && #[trigger] traced::<T, TT, IType>(it, old(self).output.st(), old(vw)@, a, n) && tr_post::<T, TT, IType>(it, old(self).output.st(), old(vw)@, a, final(vw)@, n, r),
//% proof start
    let ghost s = self.output.st();
    let ghost ci = self.context_info;
    let ghost w0 = vw@;
//% proof loop 0 before
    let ghost it = vx_b0;
    let ghost mut n: int = 0;
    proof { assert(tr_fin::<T, TT, IType>(it)); }
//% loop 0
    invariant_except_break vx_b0.pos() == it.pos() + n,
    invariant
        self.iterator is None, self.output.st() == s, self.output.inv(vw@), self.context_info == ci, ci.time.mine(vw@),
        traced::<T, TT, IType>(it, s, w0, vw@, n), same_iter::<(T, TT), IType>(it, vx_b0), w0 == old(vw)@, tr_fin::<T, TT, IType>(it),
        old(self).iterator is Some, old(self).iterator->Some_0.ensures((), it), old(self).output.st() == s, old(self).context_info == ci,
        0 <= n,
    ensures it.yields(it.pos() + n) is None, traced::<T, TT, IType>(it, s, w0, vw@, n),
//% proof loop 0 start
    let ghost wa = vw@;
    proof { if s.live { lemma_lat(&self.output, vw@); } }
//% proof loop 0 end
    proof { lemma_trace::<T, TT, IType>(it, s, w0, wa, vw@, n); n = n + 1; }
//% end
//% file src/utility_contexts/checker_context.rs
//% struct CheckerContext noderive generics=T,FType bound=T:DAMType
//% raw
/// what the channel delivers next, n elements after d0
pub open spec fn nth<T>(ch: int, d0: int, n: int) -> T { hist::<ChannelElement<T>>(ch, d0 + n).data }
/// n elements were taken
pub open spec fn drained(s: RS, w: WV, v: WV, d0: int, d1: int, n: int) -> bool {
    &&& n >= 0 && d1 == d0 + n && io_step(w, v, s.ack, s.ch) && clock(w) <= clock(v) < INF
    &&& forall|j: int| 0 <= j < n ==> hstamp(s.ch, #[trigger] (d0 + j)) <= clock(v)
}
/// n elements matched their expected values
pub open spec fn matched<T: PartialEq, I: VxIter<T>>(it: I, ch: int, d0: int, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> #[trigger] agrees::<T, I>(it, ch, d0, j)
}
pub open spec fn agrees<T: PartialEq, I: VxIter<T>>(it: I, ch: int, d0: int, j: int) -> bool {
    it.yields(it.pos() + j) is Some && d0 + j < total(ch) && nth::<T>(ch, d0, j).eq_spec(&it.yields(it.pos() + j)->Some_0)
}
pub open spec fn early(r: Result<(), AnyErr>, n: int, id: ChannelID) -> bool {
    r matches Err(AnyErr::Util(UtilityError::Receiver { iteration, channel })) && iteration == n && channel == id
}
pub open spec fn chk_post<T: PartialEq, I: VxIter<T>>(it: I, s: RS, w: WV, v: WV, d0: int, d1: int, id: ChannelID, n: int, r: Result<(), AnyErr>) -> bool {
    &&& matched::<T, I>(it, s.ch, d0, n)
    &&& r is Ok ==> it.yields(it.pos() + n) is None && drained(s, w, v, d0, d1, n)
    &&& r is Err ==> it.yields(it.pos() + n) is Some && (early(r, n, id) && total(s.ch) == d0 + n && d1 == d0 + n
        || (r matches Err(AnyErr::Check(CheckerError::Mismatch { ind, msg })) && ind == n)
            && d0 + n < total(s.ch) && !nth::<T>(s.ch, d0, n).eq_spec(&it.yields(it.pos() + n)->Some_0) && drained(s, w, v, d0, d1, n + 1))
}
//% impl Context for CheckerContext [ctx] => impl<T: DAMType + PartialEq, FType> CheckerContext<T, FType>
//% fn run_falliable as=check_run world
//% sig
    pub fn check_run<IType: VxIter<T>>(&mut self, vw: &mut World) -> (r: Result<(), AnyErr>) where FType: FnOnce() -> IType
    requires old(self).input.inv(old(vw)@), old(self).context_info.time.mine(old(vw)@), clock(old(vw)@) < INF, T::obeys_eq_spec(),
        old(self).iterator matches Some(f) ==> f.requires(()),
    ensures final(self).iterator is None, final(self).context_info == old(self).context_info, final(self).input.st() == old(self).input.st(),
        old(self).iterator is None ==> r == Err::<(), AnyErr>(AnyErr::Util(UtilityError::DuplicateExec)) && final(vw)@ == old(vw)@,
        old(self).iterator matches Some(f) ==> exists|it: IType, n: int| f.ensures((), it) && #[trigger] matched::<T, IType>(it, old(self).input.st().ch, old(self).input.deq(old(vw)@), n)
            && chk_post::<T, IType>(it, old(self).input.st(), old(vw)@, final(vw)@, old(self).input.deq(old(vw)@), final(self).input.deq(final(vw)@), old(self).input.underlying.channel_spec.channel_id, n, r),
//% proof start
    let ghost s = self.input.st();
    let ghost ci = self.context_info;
    let ghost w0 = vw@;
    let ghost d0 = self.input.deq(vw@);
    let ghost cs = self.input.underlying.channel_spec;
//% proof loop 0 before
    let ghost it = vx_b0;
    let ghost mut n: int = 0;
//% loop 0
    invariant_except_break vx_b0.pos() == it.pos() + n,
    invariant
        self.iterator is None, self.input.st() == s, self.input.inv(vw@), self.context_info == ci, ci.time.mine(vw@),
        self.input.underlying.channel_spec == cs, old(self).input.underlying.channel_spec == cs,
        drained(s, w0, vw@, d0, self.input.deq(vw@), n), matched::<T, IType>(it, s.ch, d0, n),
        same_iter::<T, IType>(it, vx_b0), w0 == old(vw)@, d0 == old(self).input.deq(w0), old(self).input.st() == s, old(self).context_info == ci,
        old(self).iterator is Some, old(self).iterator->Some_0.ensures((), it),
        0 <= n == vx_i0 <= vx_b0.pos(), T::obeys_eq_spec(),
    ensures it.yields(it.pos() + n) is None, drained(s, w0, vw@, d0, self.input.deq(vw@), n), matched::<T, IType>(it, s.ch, d0, n),
//% proof loop 0 end
    proof { assert(agrees::<T, IType>(it, s.ch, d0, n)); n = n + 1; }
//% end
//% file src/utility_contexts/approx_checker_context.rs
//% struct ApproxCheckerContext noderive generics=T,FType,CheckType bound=T:DAMType
//% raw
pub open spec fn sim<T, C: Fn(&T, &T) -> bool>(c: C, e: T, d: T, b: bool) -> bool { c.ensures((&e, &d), b) }
pub open spec fn agrees_apx<T, C: Fn(&T, &T) -> bool, I: VxIter<T>>(c: C, it: I, ch: int, d0: int, j: int) -> bool {
    it.yields(it.pos() + j) is Some && d0 + j < total(ch) && sim(c, it.yields(it.pos() + j)->Some_0, nth::<T>(ch, d0, j), true)
}
pub open spec fn matched_apx<T, C: Fn(&T, &T) -> bool, I: VxIter<T>>(c: C, it: I, ch: int, d0: int, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> #[trigger] agrees_apx::<T, C, I>(c, it, ch, d0, j)
}
pub open spec fn apx_post<T, C: Fn(&T, &T) -> bool, I: VxIter<T>>(c: C, it: I, s: RS, w: WV, v: WV, d0: int, d1: int, id: ChannelID, n: int, r: Result<(), AnyErr>) -> bool {
    &&& matched_apx::<T, C, I>(c, it, s.ch, d0, n) && d1 == d0 + n
    &&& r is Ok ==> it.yields(it.pos() + n) is None && drained(s, w, v, d0, d1, n)
    &&& r is Err ==> it.yields(it.pos() + n) is Some && early(r, n, id) && total(s.ch) == d0 + n
}
//% impl Context for ApproxCheckerContext [ctx] => impl<T: DAMType, FType, CheckType: Fn(&T, &T) -> bool> ApproxCheckerContext<T, FType, CheckType>
//% fn run_falliable as=apx_run world maypanic
//% sig
    pub fn apx_run<IType: VxIter<T>>(&mut self, vw: &mut World) -> (r: Result<(), AnyErr>) where FType: FnOnce() -> IType
    requires old(self).input.inv(old(vw)@), old(self).context_info.time.mine(old(vw)@), clock(old(vw)@) < INF,
        old(self).iterator matches Some(f) ==> f.requires(()), forall|e: T, d: T| old(self).checker.requires((&e, &d)),
    ensures final(self).iterator is None, final(self).context_info == old(self).context_info, final(self).input.st() == old(self).input.st(),
        old(self).iterator is None ==> r == Err::<(), AnyErr>(AnyErr::Util(UtilityError::DuplicateExec)) && final(vw)@ == old(vw)@,
        old(self).iterator matches Some(f) ==> exists|it: IType, n: int| f.ensures((), it) && #[trigger] matched_apx::<T, CheckType, IType>(old(self).checker, it, old(self).input.st().ch, old(self).input.deq(old(vw)@), n)
            && apx_post::<T, CheckType, IType>(old(self).checker, it, old(self).input.st(), old(vw)@, final(vw)@, old(self).input.deq(old(vw)@), final(self).input.deq(final(vw)@), old(self).input.underlying.channel_spec.channel_id, n, r),
//% proof start
    let ghost s = self.input.st();
    let ghost ci = self.context_info;
    let ghost w0 = vw@;
    let ghost d0 = self.input.deq(vw@);
    let ghost cs = self.input.underlying.channel_spec;
    let ghost chk = self.checker;
//% proof loop 0 before
    let ghost it = vx_b0;
    let ghost mut n: int = 0;
//% loop 0
    invariant_except_break vx_b0.pos() == it.pos() + n,
    invariant
        self.iterator is None, self.input.st() == s, self.input.inv(vw@), self.context_info == ci, ci.time.mine(vw@),
        self.input.underlying.channel_spec == cs, old(self).input.underlying.channel_spec == cs, self.checker == chk, old(self).checker == chk,
        drained(s, w0, vw@, d0, self.input.deq(vw@), n), matched_apx::<T, CheckType, IType>(chk, it, s.ch, d0, n),
        same_iter::<T, IType>(it, vx_b0), w0 == old(vw)@, d0 == old(self).input.deq(w0), old(self).input.st() == s, old(self).context_info == ci,
        old(self).iterator is Some, old(self).iterator->Some_0.ensures((), it),
        0 <= n == vx_i0 <= vx_b0.pos(), forall|e: T, d: T| chk.requires((&e, &d)),
    ensures it.yields(it.pos() + n) is None, drained(s, w0, vw@, d0, self.input.deq(vw@), n), matched_apx::<T, CheckType, IType>(chk, it, s.ch, d0, n),
//% proof loop 0 end
    proof { assert(agrees_apx::<T, CheckType, IType>(chk, it, s.ch, d0, n)); n = n + 1; }
//% proof panic
    proof { assert(d0 + n < total(s.ch) && it.yields(it.pos() + n) is Some && sim(chk, it.yields(it.pos() + n)->Some_0, nth::<T>(s.ch, d0, n), false)); }
//% end
//% file src/utility_contexts/consumer_context.rs
//% struct ConsumerContext noderive bound=DAMType
//% struct PrinterContext noderive bound=DAMType
//% raw
/// the clock when the n-th item has been taken and its cycle has passed
pub open spec fn con_clk(ch: int, d0: int, c: int, n: int) -> int
    decreases n
{ if n <= 0 { c } else { imax(con_clk(ch, d0, c, n - 1), hstamp(ch, d0 + n - 1)) + 1 } }
/// n items taken, one per cycle
pub open spec fn consumed(s: RS, w: WV, v: WV, d0: int, d1: int, n: int) -> bool {
    &&& n >= 0 && d1 == d0 + n && io_step(w, v, s.ack, s.ch) && clock(v) < INF && clock(v) == con_clk(s.ch, d0, clock(w), n)
    &&& forall|j: int| 0 <= j < n ==> #[trigger] acked(s, d0 + j, con_clk(s.ch, d0, clock(w), j + 1) - 1)
}
/// everything was taken
pub open spec fn con_post(s: RS, w: WV, a: WV, v: WV, d0: int, d1: int, n: int) -> bool {
    consumed(s, w, a, d0, d1, n) && total(s.ch) == d1 && io_step(a, v, s.ack, s.ch) && clock(v) < INF
}
//% impl Context for ConsumerContext [ctx] => impl<T: DAMType> ConsumerContext<T>
//% fn run as=con_run world mutself
//% attr
#[verifier::exec_allows_no_decreases_clause]
//% sig
    pub fn con_run(&mut self, vw: &mut World)
    requires old(self).chan.inv(old(vw)@), old(self).context_info.time.mine(old(vw)@), clock(old(vw)@) < INF,
    ensures final(self).context_info == old(self).context_info, final(self).chan.st() == old(self).chan.st(),
        exists|a: WV, n: int| #[trigger] consumed(old(self).chan.st(), old(vw)@, a, old(self).chan.deq(old(vw)@), final(self).chan.deq(final(vw)@), n)
            && con_post(old(self).chan.st(), old(vw)@, a, final(vw)@, old(self).chan.deq(old(vw)@), final(self).chan.deq(final(vw)@), n),
//% proof start
    let ghost s = self.chan.st();
    let ghost ci = self.context_info;
    let ghost w0 = vw@;
    let ghost d0 = self.chan.deq(vw@);
//% loop 0
    invariant
        self.chan.st() == s, self.chan.inv(vw@), self.context_info == ci, ci.time.mine(vw@),
        consumed(s, w0, vw@, d0, self.chan.deq(vw@), self.chan.deq(vw@) - d0),
        w0 == old(vw)@, d0 == old(self).chan.deq(w0), old(self).chan.st() == s, old(self).context_info == ci,
//% proof loop 0 start
    let ghost n = self.chan.deq(vw@) - d0;
    proof { assert(con_clk(s.ch, d0, clock(w0), n + 1) == imax(con_clk(s.ch, d0, clock(w0), n), hstamp(s.ch, d0 + n)) + 1); }
//% end
//% impl Context for PrinterContext [ctx] => impl<T: DAMType> PrinterContext<T>
//% fn run as=prt_run world mutself
//% attr
#[verifier::exec_allows_no_decreases_clause]
//% sig
    pub fn prt_run(&mut self, vw: &mut World)
    requires old(self).chan.inv(old(vw)@), old(self).context_info.time.mine(old(vw)@), clock(old(vw)@) < INF,
    ensures final(self).context_info == old(self).context_info, final(self).chan.st() == old(self).chan.st(),
        exists|a: WV, n: int| #[trigger] consumed(old(self).chan.st(), old(vw)@, a, old(self).chan.deq(old(vw)@), final(self).chan.deq(final(vw)@), n)
            && con_post(old(self).chan.st(), old(vw)@, a, final(vw)@, old(self).chan.deq(old(vw)@), final(self).chan.deq(final(vw)@), n),
//% proof start
    let ghost s = self.chan.st();
    let ghost ci = self.context_info;
    let ghost w0 = vw@;
    let ghost d0 = self.chan.deq(vw@);
//% loop 0
    invariant
        self.chan.st() == s, self.chan.inv(vw@), self.context_info == ci, ci.time.mine(vw@),
        consumed(s, w0, vw@, d0, self.chan.deq(vw@), self.chan.deq(vw@) - d0),
        w0 == old(vw)@, d0 == old(self).chan.deq(w0), old(self).chan.st() == s, old(self).context_info == ci,
//% proof loop 0 start
    let ghost n = self.chan.deq(vw@) - d0;
    proof { assert(con_clk(s.ch, d0, clock(w0), n + 1) == imax(con_clk(s.ch, d0, clock(w0), n), hstamp(s.ch, d0 + n)) + 1); }
//% end
//% file src/utility_contexts/function_context.rs
//% struct FunctionContext noderive
//% impl Context for FunctionContext [ctx] => impl<RT: FnOnce(&mut TimeManager)> FunctionContext<RT>
//% fn run_falliable as=fun_run ret=r
//% sig
    pub fn fun_run(&mut self) -> (r: Result<(), AnyErr>)
    requires old(self).run_fn matches Some(f) ==> forall|t: &mut TimeManager| f.requires((t,))
    ensures final(self).run_fn is None,
        old(self).run_fn is None ==> r == Err::<(), AnyErr>(AnyErr::Util(UtilityError::DuplicateExec)) && *final(self) == *old(self),
        old(self).run_fn matches Some(f) ==> r is Ok && final(self).context_info.id == old(self).context_info.id
            && exists|t: &mut TimeManager| #[trigger] f.ensures((t,), ()) && *t == old(self).context_info.time && *final(t) == final(self).context_info.time,
//% end
//% impl FunctionContext => impl<RT> FunctionContext<RT>
//% fn set_run
    ensures final(self).run_fn == Some(run_fn), final(self).context_info == old(self).context_info,
//% end
//% file src/utility_contexts/broadcast_context.rs
//% struct BroadcastContext noderive bound=T:DAMType
//% raw
/// when the n-th element (from 0) has been received, and when its copies leave
pub open spec fn bc_got(ss: Seq<SS>, r: RS, d0: int, w: WV, n: int) -> int { imax(bc_clk(ss, r, d0, w, n), hstamp(r.ch, d0 + n)) }
pub open spec fn bc_clk(ss: Seq<SS>, r: RS, d0: int, w: WV, n: int) -> int
    decreases n
{ if n <= 0 { clock(w) } else { gates(ss, w.sent, n - 1, imax(bc_clk(ss, r, d0, w, n - 1), hstamp(r.ch, d0 + n - 1)), ss.len() as int) } }
/// the copy of element j on target s: same data, leaving at the common time
pub open spec fn copy_ok<T>(ss: Seq<SS>, r: RS, d0: int, w: WV, i: int, j: int) -> bool {
    let s = ss[i];
    let k = w.sent[s.ch] + j;
    s.live ==> k < total(s.ch) && hist::<ChannelElement<T>>(s.ch, k).data == hist::<ChannelElement<T>>(r.ch, d0 + j).data
        && hstamp(s.ch, k) == bc_clk(ss, r, d0, w, j + 1) + s.lat
}
/// the first n elements went to all targets
pub open spec fn bc_done<T>(ss: Seq<SS>, r: RS, d0: int, w: WV, n: int) -> bool {
    &&& 0 <= n && (n > 0 ==> d0 + n <= total(r.ch))
    &&& forall|i: int, j: int| 0 <= i < ss.len() && 0 <= j < n ==> #[trigger] copy_ok::<T>(ss, r, d0, w, i, j)
    &&& forall|j: int| 0 <= j < n ==> #[trigger] acked(r, d0 + j, bc_got(ss, r, d0, w, j))
}
pub open spec fn sent_n(s: SS, w: WV, v: WV, n: int) -> bool { s.live ==> v.sent[s.ch] == w.sent[s.ch] + n }
/// the targets are in order, the first m of them having sent n + 1 elements, the others n
pub open spec fn t_ok<T: DAMType>(ts: Seq<Sender<T>>, ss: Seq<SS>, w: WV, v: WV, n: int, m: int) -> bool {
    &&& ts.len() == ss.len()
    &&& forall|i: int| 0 <= i < ss.len() ==> (#[trigger] ts[i]).st() == ss[i] && ts[i].inv(v)
    &&& forall|i: int| 0 <= i < ss.len() ==> sent_n(#[trigger] ss[i], w, v, if i < m { n + 1 } else { n })
}
/// there is room now
pub open spec fn ready_now(s: SS, v: WV) -> bool { s.live ==> !gate_never(s, v) && gate_t(s, v) == clock(v) }
pub open spec fn bc_err(ss: Seq<SS>, w: WV, v: WV, n: int) -> bool {
    &&& exists|i: int| 0 <= i < ss.len() && ss[i].live && gone(#[trigger] ss[i], v)
    &&& forall|i: int| 0 <= i < ss.len() ==> sent_n(#[trigger] ss[i], w, v, n) || sent_n(ss[i], w, v, n + 1)
}
/// an operation on target i leaves the other targets and the receiver alone
pub proof fn lemma_target<T: DAMType>(t0: Seq<Sender<T>>, t1: Seq<Sender<T>>, ss: Seq<SS>, r: &Receiver<T>, w0: WV, w: WV, v: WV, i: int, n: int, m: int, sending: bool)
    requires t_ok(t0, ss, w0, w, n, m), distinct(ss, r.st()), r.inv(w), 0 <= i < ss.len(), t1.len() == t0.len(), sending ==> m == i,
        forall|j: int| 0 <= j < t0.len() && j != i ==> #[trigger] t1[j] == t0[j], t1[i].st() == ss[i], t1[i].inv(v),
        !ss[i].live ==> v == w,
        io_step(w, v, if sending { ss[i].ch } else { -1 }, ss[i].resp), free(v), sent_n(ss[i], w0, v, if sending || i < m { n + 1 } else { n }),
        r.st().ready, ss[i].live && ss[i].cap is None ==> ss[i].resp == -1, r.st().ch >= 0,
    ensures t_ok(t1, ss, w0, v, n, if sending { m + 1 } else { m }), r.inv(v), r.deq(v) == r.deq(w),
{
    if !ss[i].live {
        assert forall|j: int| 0 <= j < ss.len() implies (#[trigger] t1[j]).st() == ss[j] && t1[j].inv(v) by { if j != i { assert(t1[j] == t0[j]); } }
        assert forall|j: int| 0 <= j < ss.len() implies sent_n(#[trigger] ss[j], w0, v, if j < (if sending { m + 1 } else { m }) { n + 1 } else { n }) by {
            assert(sent_n(ss[j], w0, w, if j < m { n + 1 } else { n }));
        }
    } else {
        assert(sound(ss[i]) && apart_r(ss[i], r.st()));
        assert forall|j: int| 0 <= j < ss.len() implies (#[trigger] t1[j]).st() == ss[j] && t1[j].inv(v) by {
            if j != i { assert(t1[j] == t0[j]); assert(apart(ss[j], ss[i])); assert(sound(ss[j])); assert(t0[j].st() == ss[j]);
                assert(v.rcvd[ss[j].resp] == w.rcvd[ss[j].resp] || ss[j].resp == ss[i].resp);
                lemma_sframe(&t0[j], w, v); }
        }
        assert forall|j: int| 0 <= j < ss.len() implies sent_n(#[trigger] ss[j], w0, v, if j < (if sending { m + 1 } else { m }) { n + 1 } else { n }) by {
            assert(sent_n(ss[j], w0, w, if j < m { n + 1 } else { n }));
            if j != i { assert(apart(ss[j], ss[i])); assert(sound(ss[j])); }
        }
        lemma_rframe(r, w, v);
    }
}
/// nothing on the targets' channels happened
pub proof fn lemma_targets<T: DAMType>(ts: Seq<Sender<T>>, ss: Seq<SS>, r: RS, w0: WV, w: WV, v: WV, n: int, m: int)
    requires t_ok(ts, ss, w0, w, n, m), distinct(ss, r), io_step(w, v, r.ack, r.ch), free(v)
    ensures t_ok(ts, ss, w0, v, n, m)
{
    assert forall|j: int| 0 <= j < ss.len() implies (#[trigger] ts[j]).st() == ss[j] && ts[j].inv(v) by { assert(sound(ss[j]) && apart_r(ss[j], r)); lemma_sframe(&ts[j], w, v); }
    assert forall|j: int| 0 <= j < ss.len() implies sent_n(#[trigger] ss[j], w0, v, if j < m { n + 1 } else { n }) by {
        assert(sent_n(ss[j], w0, w, if j < m { n + 1 } else { n })); assert(sound(ss[j]) && apart_r(ss[j], r));
    }
}
//% raw
pub open spec fn bc_post<T>(ss: Seq<SS>, r: RS, d0: int, w: WV, v: WV, d1: int, n: int, res: Result<(), AnyErr>) -> bool {
    &&& res is Ok ==> d1 == d0 + n && total(r.ch) == d1 && forall|i: int| 0 <= i < ss.len() ==> sent_n(#[trigger] ss[i], w, v, n)
    &&& res is Err ==> d1 == d0 + n + 1 && bc_err(ss, w, v, n)
}
/// reading the clock changes nothing
pub proof fn lemma_ticked<T: DAMType>(ts: Seq<Sender<T>>, ss: Seq<SS>, r: &Receiver<T>, w0: WV, v: WV, n: int)
    requires exists|u: WV| #[trigger] sync(u, v) && t_ok(ts, ss, w0, u, n, 0) && r.inv(u) && free(v)
    ensures t_ok(ts, ss, w0, v, n, 0), r.inv(v)
{
    let u = choose|u: WV| #[trigger] sync(u, v) && t_ok(ts, ss, w0, u, n, 0) && r.inv(u) && free(v);
    assert forall|j: int| 0 <= j < ss.len() implies (#[trigger] ts[j]).st() == ss[j] && ts[j].inv(v) by { lemma_sframe(&ts[j], u, v); }
    assert forall|j: int| 0 <= j < ss.len() implies sent_n(#[trigger] ss[j], w0, v, if j < 0 { n + 1 } else { n }) by { assert(sent_n(ss[j], w0, u, if j < 0 { n + 1 } else { n })); }
    lemma_rframe(r, u, v);
}
//% impl Context for BroadcastContext [ctx] => impl<T: DAMType> BroadcastContext<T>
//% fn run_falliable as=bc_run world mutiter
//% attr
#[verifier::exec_allows_no_decreases_clause]
//% sig
    pub fn bc_run(&mut self, vw: &mut World) -> (r: Result<(), AnyErr>)
    requires old(self).receiver.inv(old(vw)@), old(self).context_info.time.mine(old(vw)@), clock(old(vw)@) < INF,
        distinct(sts(old(self).targets@), old(self).receiver.st()), old(self).receiver.st().ch >= 0,
        forall|i: int| 0 <= i < old(self).targets.len() ==> (#[trigger] old(self).targets[i]).inv(old(vw)@),
    ensures final(self).context_info == old(self).context_info, final(self).receiver.st() == old(self).receiver.st(), sts(final(self).targets@) == sts(old(self).targets@),
        exists|n: int| #[trigger] bc_done::<T>(sts(old(self).targets@), old(self).receiver.st(), old(self).receiver.deq(old(vw)@), old(vw)@, n)
            && bc_post::<T>(sts(old(self).targets@), old(self).receiver.st(), old(self).receiver.deq(old(vw)@), old(vw)@, final(vw)@, final(self).receiver.deq(final(vw)@), n, r),
//% proof start
    let ghost rs = self.receiver.st();
    let ghost ci = self.context_info;
    let ghost w0 = vw@;
    let ghost d0 = self.receiver.deq(vw@);
    let ghost ss = sts(self.targets@);
    proof { assert(t_ok(self.targets@, ss, w0, vw@, 0, 0)) by { assert forall|i: int| 0 <= i < ss.len() implies sent_n(#[trigger] ss[i], w0, vw@, 0) by {} } }
//% loop 0
    invariant
        self.receiver.st() == rs, self.receiver.inv(vw@), self.context_info == ci, ci.time.mine(vw@), vw@.me == w0.me, clock(vw@) < INF,
        distinct(ss, rs), rs.ch >= 0, ss == sts(old(self).targets@), sts(self.targets@) == ss,
        w0 == old(vw)@, d0 == old(self).receiver.deq(w0), old(self).receiver.st() == rs, old(self).context_info == ci,
        t_ok(self.targets@, ss, w0, vw@, self.receiver.deq(vw@) - d0, 0),
        bc_done::<T>(ss, rs, d0, w0, self.receiver.deq(vw@) - d0),
        clock(vw@) == bc_clk(ss, rs, d0, w0, self.receiver.deq(vw@) - d0),
//% proof loop 0 start
    let ghost wa = vw@;
    let ghost n = self.receiver.deq(vw@) - d0;
    let ghost ta = self.targets@;
//% proof loop 1 before
    proof { lemma_targets(ta, ss, rs, w0, wa, vw@, n, 0); assert(gates(ss, w0.sent, n, bc_got(ss, rs, d0, w0, n), 0) == clock(vw@)); }
//% loop 1
    invariant
        rs.ready, self.receiver.st() == rs, self.receiver.inv(vw@), self.context_info == ci, ci.time.mine(vw@), vw@.me == w0.me, clock(vw@) < INF,
        distinct(ss, rs), rs.ch >= 0, ss == sts(old(self).targets@), sts(self.targets@) == ss,
        w0 == old(vw)@, d0 == old(self).receiver.deq(w0), old(self).receiver.st() == rs, old(self).context_info == ci,
        self.receiver.deq(vw@) == d0 + n + 1, d0 + n < total(rs.ch), bc_done::<T>(ss, rs, d0, w0, n), acked(rs, d0 + n, bc_got(ss, rs, d0, w0, n)),
        item_post(data, rs.ch, d0 + n),
        t_ok(self.targets@, ss, w0, vw@, n, 0), vx_i1 <= self.targets.len(),
        clock(vw@) == gates(ss, w0.sent, n, bc_got(ss, rs, d0, w0, n), vx_i1 as int),
        forall|i: int| 0 <= i < vx_i1 ==> ready_now(#[trigger] ss[i], vw@),
//% proof loop 1 start
    let ghost wb = vw@;
    let ghost tb = self.targets@;
    let ghost m = vx_i1 as int;
    proof { assert(tb[m].st() == ss[m]); assert(sent_n(ss[m], w0, wb, n)); }
//% proof loop 1 end
    proof {
        lemma_target(tb, self.targets@, ss, &self.receiver, w0, wb, vw@, m, n, 0, false);
        assert forall|i: int| 0 <= i < vx_i1 implies ready_now(#[trigger] ss[i], vw@) by { assert(sent_n(ss[i], w0, wb, n)); assert(sent_n(ss[i], w0, vw@, n)); }
        assert(sts(self.targets@) =~= ss);
    }
//% proof loop 2 before
    proof { lemma_ticked(self.targets@, ss, &self.receiver, w0, vw@, n); }
//% loop 2
    invariant
        rs.ready, self.receiver.st() == rs, self.receiver.inv(vw@), self.context_info == ci, ci.time.mine(vw@), vw@.me == w0.me, clock(vw@) < INF,
        distinct(ss, rs), rs.ch >= 0, ss == sts(old(self).targets@), sts(self.targets@) == ss,
        w0 == old(vw)@, d0 == old(self).receiver.deq(w0), old(self).receiver.st() == rs, old(self).context_info == ci,
        self.receiver.deq(vw@) == d0 + n + 1, d0 + n < total(rs.ch), bc_done::<T>(ss, rs, d0, w0, n), acked(rs, d0 + n, bc_got(ss, rs, d0, w0, n)),
        data.data == hist::<ChannelElement<T>>(rs.ch, d0 + n).data, tk(data.time) == clock(vw@) + 1,
        t_ok(self.targets@, ss, w0, vw@, n, vx_i2 as int), vx_i2 <= self.targets.len(),
        clock(vw@) == bc_clk(ss, rs, d0, w0, n + 1),
        forall|i: int| vx_i2 <= i < ss.len() ==> ready_now(#[trigger] ss[i], vw@),
        forall|i: int| 0 <= i < vx_i2 ==> #[trigger] copy_ok::<T>(ss, rs, d0, w0, i, n),
//% proof loop 2 start
    let ghost wb = vw@;
    let ghost tb = self.targets@;
    let ghost m = vx_i2 as int;
    proof { assert(tb[m].st() == ss[m]); assert(sent_n(ss[m], w0, wb, n)); if ss[m].live { lemma_lat(&tb[m], wb); } }
//% proof loop 2 end
    proof {
        lemma_target(tb, self.targets@, ss, &self.receiver, w0, wb, vw@, m, n, m, true);
        assert forall|i: int| vx_i2 <= i < ss.len() implies ready_now(#[trigger] ss[i], vw@) by { assert(sent_n(ss[i], w0, wb, n)); assert(sent_n(ss[i], w0, vw@, n)); }
        assert(sts(self.targets@) =~= ss);
    }
//% end
//% raw
} // mod ctxs
