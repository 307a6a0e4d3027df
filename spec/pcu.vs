//% raw
// ================================================================ pipeline compute units
pub mod pcu {
use super::*;
use super::recv::*;
use super::send::*;
use super::rflav::*;
use super::sflav::*;
use super::handle::*;
use super::frame::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
/// the operation of a stage: a function of the two register lists
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct AluFn<T> { x: Vec<T> }
impl<T> AluFn<T> {
    pub uninterp spec fn res(&self, prev: Seq<PipelineRegister<T>>, next: Seq<PipelineRegister<T>>) -> Seq<PipelineRegister<T>>;
    #[verifier::external_body]
    pub fn vx_call(&self, prev: &Vec<PipelineRegister<T>>, next: &Vec<PipelineRegister<T>>) -> (r: Vec<PipelineRegister<T>>)
        ensures r@ == self.res(prev@, next@)
    { unimplemented!() }
}
//% typemap fn(&[PipelineRegister<T>],&[PipelineRegister<T>])->Vec<PipelineRegister<T>> => AluFn<T>
//% typemap IngressOpType => IngressFn<ElementType>
//% typemap EgressOpType => EgressFn<ElementType>
//% typemap InputChannelsType => Vec<Receiver<ElementType>>
//% typemap OutputChannelsType => Vec<Sender<ElementType>>
//% file src/datastructures/mod.rs
//% struct ContextInfo noderive
//% file src/templates/ops.rs
//% struct PipelineRegister noderive
//% struct ALUOp noderive
//% raw
// derive(Clone)
impl<T: DAMType> Clone for PipelineRegister<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { PipelineRegister { data: self.data.clone() } }
}
pub type Regs<T> = Vec<PipelineRegister<T>>;
pub trait VxToVec: Sized { fn to_vec(&self) -> (r: Self) ensures r == *self; }
impl<T: DAMType> VxToVec for Vec<PipelineRegister<T>> { #[verifier::external_body] fn to_vec(&self) -> (r: Self) { unimplemented!() } }
/// Vec::clone, std::mem::take
pub trait VxVec: Sized { fn vx_copy(&self) -> (r: Self) ensures r == *self; }
#[verifier::external_body]
pub fn vx_take_vec<X>(x: &mut Vec<X>) -> (r: Vec<X>) ensures r == *old(x), final(x)@ == Seq::<X>::empty() { unimplemented!() }
//% pathmap std::mem::take => vx_take_vec
//% effects vx_call
//% shims vx_call to_vec vx_take_vec
//% file src/templates/pcu.rs
//% struct PCUConfig
//% struct PipelineStage noderive
//% raw
/// the registers named by ids
pub open spec fn gather<T>(ids: Seq<usize>, regs: Seq<T>) -> Seq<T> { Seq::new(ids.len(), |i: int| regs[ids[i] as int]) }
/// the first k results in their registers
pub open spec fn placed<T>(outs: Seq<usize>, res: Seq<T>, next: Seq<T>, k: int) -> Seq<T>
    decreases k
{ if k <= 0 { next } else { placed(outs, res, next, k - 1).update(outs[k - 1] as int, res[k - 1]) } }
/// the first k forwarded registers
pub open spec fn forwarded<T>(fw: Seq<(usize, usize)>, prev: Seq<T>, base: Seq<T>, k: int) -> Seq<T>
    decreases k
{ if k <= 0 { base } else { forwarded(fw, prev, base, k - 1).update(fw[k - 1].1 as int, prev[fw[k - 1].0 as int]) } }
/// what a stage makes of the registers before it and its own
pub open spec fn stage_out<T>(s: PipelineStage<T>, prev: Seq<PipelineRegister<T>>, next: Seq<PipelineRegister<T>>) -> Seq<PipelineRegister<T>> {
    let res = s.op.func.res(gather(s.prev_register_ids@, prev), gather(s.next_register_ids@, next));
    forwarded(s.forward@, prev, placed(s.output_register_ids@, res, next, s.output_register_ids@.len() as int), s.forward@.len() as int)
}
pub open spec fn below(ids: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]) < n }
/// the stage names existing registers, and its operation has a result for every output register
pub open spec fn stage_wf<T>(s: PipelineStage<T>, np: int, nn: int) -> bool {
    &&& below(s.prev_register_ids@, np) && below(s.next_register_ids@, nn) && below(s.output_register_ids@, nn)
    &&& forall|i: int| 0 <= i < s.forward@.len() ==> (#[trigger] s.forward@[i]).0 < np && s.forward@[i].1 < nn
    &&& forall|p: Seq<PipelineRegister<T>>, n: Seq<PipelineRegister<T>>| p.len() == s.prev_register_ids@.len() && n.len() == s.next_register_ids@.len()
            ==> (#[trigger] s.op.func.res(p, n)).len() >= s.output_register_ids@.len()
}
pub proof fn lemma_lens<T>(outs: Seq<usize>, fw: Seq<(usize, usize)>, prev: Seq<T>, res: Seq<T>, next: Seq<T>, k: int)
    ensures placed(outs, res, next, k).len() == next.len(), forwarded(fw, prev, next, k).len() == next.len()
    decreases k
{ if k > 0 { lemma_lens(outs, fw, prev, res, next, k - 1); } }
//% impl PipelineStage => impl<ET: DAMType> PipelineStage<ET>
//% fn run noworld=vx_call local=mapped_inputs:0 local=mapped_outputs:1 local=func_outputs:2 local=outputs:3
//% sig
    pub fn run(&self, prev_registers: &Regs<ET>, next_registers: &Regs<ET>) -> (r: Regs<ET>)
    requires stage_wf(*self, prev_registers.len() as int, next_registers.len() as int)
    ensures r@ == stage_out(*self, prev_registers@, next_registers@), r.len() == next_registers.len(),
//% loop 0
    invariant vx_i0 <= self.prev_register_ids.len(), stage_wf(*self, prev_registers.len() as int, next_registers.len() as int),
        vx_v0@ =~= gather(self.prev_register_ids@, prev_registers@).take(vx_i0 as int),
//% loop 1
    invariant vx_i1 <= self.next_register_ids.len(), stage_wf(*self, prev_registers.len() as int, next_registers.len() as int),
        vx_v1@ =~= gather(self.next_register_ids@, next_registers@).take(vx_i1 as int),
//% proof loop 2 before
    let ghost res = func_outputs@;
    proof { assert(mapped_inputs@ =~= gather(self.prev_register_ids@, prev_registers@)); assert(mapped_outputs@ =~= gather(self.next_register_ids@, next_registers@)); }
//% loop 2
    invariant vx_i2 <= self.output_register_ids.len(), stage_wf(*self, prev_registers.len() as int, next_registers.len() as int),
        func_outputs@ == res, res.len() >= self.output_register_ids.len(), outputs.len() == next_registers.len(),
        outputs@ == placed(self.output_register_ids@, res, next_registers@, vx_i2 as int),
//% proof loop 3 before
    let ghost base = outputs@;
//% loop 3
    invariant vx_i3 <= self.forward.len(), stage_wf(*self, prev_registers.len() as int, next_registers.len() as int), outputs.len() == next_registers.len(),
        outputs@ == forwarded(self.forward@, prev_registers@, base, vx_i3 as int),
//% end
//% struct PCU noderive bound=ElementType:DAMType
//% raw
/// User-supplied ingress: reads the input channels into registers.  It is given those channels, the registers and the
/// clock, so it can affect nothing else.  `post` is what it does; READ_ALL_INPUTS below is shown to be an instance.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IngressFn<T> { x: Vec<T> }
impl<T: DAMType> IngressFn<T> {
    /// it copes with so many channels and registers
    pub uninterp spec fn fits(&self, channels: int, registers: int) -> bool;
    pub uninterp spec fn post(&self, ds: Seq<int>, regs: Seq<PipelineRegister<T>>, w: WV, ds1: Seq<int>, regs1: Seq<PipelineRegister<T>>, v: WV, r: bool) -> bool;
    #[verifier::external_body]
    pub fn vx_call(&self, ics: &mut Vec<Receiver<T>>, regs: &mut Vec<PipelineRegister<T>>, time: &TimeManager, vw: &mut World) -> (r: bool)
        requires r_ok(old(ics)@, rts(old(ics)@), old(vw)@), alone(rts(old(ics)@), Seq::empty()), free(old(vw)@), time.mine(old(vw)@), clock(old(vw)@) < INF,
            self.fits(old(ics).len() as int, old(regs).len() as int),
        ensures r_ok(final(ics)@, rts(old(ics)@), final(vw)@), rts(final(ics)@) == rts(old(ics)@), ms(old(vw)@, final(vw)@, rts(old(ics)@), Seq::empty()), clock(final(vw)@) < INF, final(regs).len() == old(regs).len(),
            self.post(deqs(old(ics)@, old(vw)@), old(regs)@, old(vw)@, deqs(final(ics)@, final(vw)@), final(regs)@, final(vw)@, r),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct EgressFn<T> { x: Vec<T> }
impl<T: DAMType> EgressFn<T> {
    pub uninterp spec fn fits(&self, channels: int, registers: int) -> bool;
    pub uninterp spec fn post(&self, ss: Seq<SS>, regs: Seq<PipelineRegister<T>>, t: int, w: WV, v: WV) -> bool;
    #[verifier::external_body]
    pub fn vx_call(&self, ocs: &mut Vec<Sender<T>>, regs: &Vec<PipelineRegister<T>>, out: Time, time: &TimeManager, vw: &mut World)
        requires s_ok(old(ocs)@, sts(old(ocs)@), old(vw)@), alone(Seq::empty(), sts(old(ocs)@)), free(old(vw)@), time.mine(old(vw)@), clock(old(vw)@) < INF,
            self.fits(old(ocs).len() as int, regs.len() as int), tfin(out),
        ensures s_ok(final(ocs)@, sts(old(ocs)@), final(vw)@), sts(final(ocs)@) == sts(old(ocs)@), ms(old(vw)@, final(vw)@, Seq::empty(), sts(old(ocs)@)), clock(final(vw)@) < INF,
            self.post(sts(old(ocs)@), regs@, tk(out), old(vw)@, final(vw)@),
    { unimplemented!() }
}
/// when every one of the first m inputs that has another element shows it
pub open spec fn ready_at(rs: Seq<RS>, ds: Seq<int>, c: int, m: int) -> int
    decreases m
{ if m <= 0 { c } else { imax(ready_at(rs, ds, c, m - 1), hstamp(rs[m - 1].ch, ds[m - 1])) } }
pub open spec fn more(rs: Seq<RS>, ds: Seq<int>, i: int) -> bool { ds[i] < total(rs[i].ch) }
pub open spec fn all_more(rs: Seq<RS>, ds: Seq<int>, m: int) -> bool { forall|i: int| 0 <= i < m ==> #[trigger] more(rs, ds, i) }
/// input i gave its next element
pub open spec fn gave<T>(rs: Seq<RS>, ds: Seq<int>, ds1: Seq<int>, c: int, i: int) -> bool {
    more(rs, ds, i) && ds1[i] == ds[i] + 1 && acked(rs[i], ds[i], c)
}
pub open spec fn rd_ok<T>(rs: Seq<RS>, ds: Seq<int>, rd: Seq<Result<ChannelElement<T>, DequeueError>>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] rd1::<T>(rs, ds, rd, i)
}
pub open spec fn rd1<T>(rs: Seq<RS>, ds: Seq<int>, rd: Seq<Result<ChannelElement<T>, DequeueError>>, i: int) -> bool {
    match rd[i] { Ok(x) => more(rs, ds, i) && x.data == hist::<ChannelElement<T>>(rs[i].ch, ds[i]).data, Err(_) => !more(rs, ds, i) }
}
/// READ_ALL_INPUTS: the next element of every input, all taken when the last of them is there
pub open spec fn read_all<T>(rs: Seq<RS>, ds: Seq<int>, regs: Seq<PipelineRegister<T>>, w: WV, ds1: Seq<int>, regs1: Seq<PipelineRegister<T>>, v: WV, r: bool) -> bool {
    &&& r == all_more(rs, ds, rs.len() as int)
    &&& r ==> clock(v) == ready_at(rs, ds, clock(w), rs.len() as int) && regs1.len() == regs.len()
        && (forall|i: int| 0 <= i < rs.len() ==> #[trigger] gave::<T>(rs, ds, ds1, clock(v), i))
        && (forall|i: int| 0 <= i < regs.len() ==> (#[trigger] regs1[i]).data == (if i < rs.len() { hist::<ChannelElement<T>>(rs[i].ch, ds[i]).data } else { regs[i].data }))
}
/// output i got its register
pub open spec fn put<T>(ss: Seq<SS>, regs: Seq<PipelineRegister<T>>, t: int, w: WV, v: WV, i: int) -> bool {
    let s = ss[i];
    let k = w.sent[s.ch];
    s.live ==> v.sent[s.ch] == k + 1 && k < total(s.ch) && hist::<ChannelElement<T>>(s.ch, k).data == regs[i].data
        && hstamp(s.ch, k) == imax(t, gates(ss, w.sent, 0, clock(w), i + 1) + s.lat)
}
/// WRITE_ALL_RESULTS: one element per output, ready at t, as soon as there is room
pub open spec fn write_all<T>(ss: Seq<SS>, regs: Seq<PipelineRegister<T>>, t: int, w: WV, v: WV) -> bool {
    &&& clock(v) == gates(ss, w.sent, 0, clock(w), ss.len() as int)
    &&& forall|i: int| 0 <= i < ss.len() ==> #[trigger] put::<T>(ss, regs, t, w, v, i)
}
/// the registers after the first n of the stages
pub open spec fn passed<T>(stages: Seq<PipelineStage<T>>, regs: Seq<Seq<PipelineRegister<T>>>, n: int) -> Seq<Seq<PipelineRegister<T>>>
    decreases n
{ if n <= 0 { regs } else {
    let p = passed(stages, regs, n - 1);
    p.update(n, if n <= stages.len() { stage_out(stages[n - 1], p[n - 1], p[n]) } else { p[n - 1] })
} }
pub open spec fn flat<T>(r: Seq<Vec<T>>) -> Seq<Seq<T>> { Seq::new(r.len(), |i: int| r[i]@) }
/// the state between two sets of inputs
pub struct PSt<T> { pub regs: Seq<Seq<PipelineRegister<T>>>, pub ds: Seq<int>, pub w: WV }
/// one set of inputs: read at clock(u), passed through the stages, written out depth later, and a cycle passes
pub open spec fn one_set<T: DAMType>(p: PCU<T>, a: PSt<T>, b: PSt<T>, r0: Seq<PipelineRegister<T>>, u: WV, x: WV, y: WV) -> bool {
    let d = p.configuration.pipeline_depth as int;
    &&& p.ingress_op.post(a.ds, a.regs[0], a.w, b.ds, r0, u, true)
    &&& b.regs == passed(p.stages@, a.regs.update(0, r0), d)
    &&& sync(u, x) && p.egress_op.post(sts(p.output_channels@), b.regs[d], clock(u) + d, x, y)
    &&& step(y, b.w) && clock(b.w) == clock(y) + 1
}
pub open spec fn set_done<T: DAMType>(p: PCU<T>, a: PSt<T>, b: PSt<T>) -> bool {
    exists|r0: Seq<PipelineRegister<T>>, u: WV, x: WV, y: WV| #[trigger] one_set(p, a, b, r0, u, x, y)
}
pub open spec fn sets_done<T: DAMType>(p: PCU<T>, tr: Seq<PSt<T>>) -> bool {
    tr.len() >= 1 && forall|k: int| 0 <= k < tr.len() - 1 ==> set_done(p, #[trigger] tr[k], tr[k + 1])
}
/// the run: sets are processed one after the other until the ingress finds an input ended
pub open spec fn pcu_post<T: DAMType>(p: PCU<T>, tr: Seq<PSt<T>>, w: WV, v: WV, ds1: Seq<int>) -> bool {
    &&& tr[0] == (PSt::<T> { regs: flat(p.registers@), ds: deqs(p.input_channels@, w), w })
    &&& exists|r0: Seq<PipelineRegister<T>>| #[trigger] p.ingress_op.post(tr.last().ds, tr.last().regs[0], tr.last().w, ds1, r0, v, false)
}
/// the unit is well formed
pub open spec fn pcu_wf<T: DAMType>(p: PCU<T>, w: WV) -> bool {
    let d = p.configuration.pipeline_depth as int;
    &&& p.registers.len() == d + 1 && p.stages.len() <= d
    &&& forall|i: int| 0 <= i < p.stages.len() ==> stage_wf(#[trigger] p.stages[i], p.registers[i].len() as int, p.registers[i + 1].len() as int)
    &&& forall|i: int| 0 <= i <= d ==> (#[trigger] p.registers[i]).len() == p.configuration.num_registers
    &&& p.ingress_op.fits(p.input_channels.len() as int, p.configuration.num_registers as int) && p.egress_op.fits(p.output_channels.len() as int, p.configuration.num_registers as int)
    &&& r_ok(p.input_channels@, rts(p.input_channels@), w) && s_ok(p.output_channels@, sts(p.output_channels@), w) && alone(rts(p.input_channels@), sts(p.output_channels@))
    &&& p.context_info.time.mine(w) && free(w) && clock(w) < INF
}
//% impl PCU => impl<ElementType: DAMType> PCU<ElementType>
//% fn READ_ALL_INPUTS world mutiter maypanic
//% sig
    pub fn read_all_inputs(ics: &mut Vec<Receiver<ElementType>>, regs: &mut Vec<PipelineRegister<ElementType>>, time: &TimeManager, vw: &mut World) -> (r: bool)
        requires r_ok(old(ics)@, rts(old(ics)@), old(vw)@), alone(rts(old(ics)@), Seq::empty()), free(old(vw)@), time.mine(old(vw)@), clock(old(vw)@) < INF,
            old(ics).len() <= old(regs).len(),
        ensures r_ok(final(ics)@, rts(old(ics)@), final(vw)@), rts(final(ics)@) == rts(old(ics)@), ms(old(vw)@, final(vw)@, rts(old(ics)@), Seq::empty()), clock(final(vw)@) < INF, final(regs).len() == old(regs).len(),
            read_all::<ElementType>(rts(old(ics)@), deqs(old(ics)@, old(vw)@), old(regs)@, old(vw)@, deqs(final(ics)@, final(vw)@), final(regs)@, final(vw)@, r),
//% proof start
    let ghost rs = rts(ics@);
    let ghost w0 = vw@;
    let ghost ds = deqs(ics@, vw@);
    let ghost regs0 = regs@;
//% loop 0
    invariant vx_i0 <= ics.len(), rs == rts(old(ics)@), r_ok(ics@, rs, vw@), alone(rs, Seq::empty()), ms(w0, vw@, rs, Seq::empty()), time.mine(vw@), clock(vw@) < INF, w0 == old(vw)@,
        ds == deqs(old(ics)@, w0), deqs(ics@, vw@) =~= ds, regs@ == regs0,
        all_more(rs, ds, vx_i0 as int) ==> clock(vw@) == ready_at(rs, ds, clock(w0), vx_i0 as int),
        forall|i: int| 0 <= i < vx_i0 && #[trigger] more(rs, ds, i) ==> hstamp(rs[i].ch, ds[i]) <= clock(vw@),
//% proof loop 0 start
    let ghost wb = vw@;
    let ghost ib = ics@;
    let ghost m = vx_i0 as int;
    proof { assert(ib[m].st() == rs[m]); assert(deqs(ib, wb)[m] == ds[m]); }
//% proof loop 0 end
    proof {
        lemma_rop(ib, ics@, rs, Seq::empty(), w0, wb, vw@, m, -1);
        assert(all_more(rs, ds, m + 1) ==> more(rs, ds, m));
    }
//% loop 1
    invariant vx_i1 <= ics.len(), rs == rts(old(ics)@), r_ok(ics@, rs, vw@), alone(rs, Seq::empty()), ms(w0, vw@, rs, Seq::empty()), time.mine(vw@), clock(vw@) < INF, w0 == old(vw)@,
        ds == deqs(old(ics)@, w0), regs@ == regs0, vx_v1.len() == vx_i1,
        all_more(rs, ds, rs.len() as int) ==> clock(vw@) == ready_at(rs, ds, clock(w0), rs.len() as int),
        forall|i: int| 0 <= i < rs.len() && #[trigger] more(rs, ds, i) ==> hstamp(rs[i].ch, ds[i]) <= clock(vw@),
        forall|i: int| vx_i1 <= i < rs.len() ==> (#[trigger] ics[i]).deq(vw@) == ds[i],
        rd_ok::<ElementType>(rs, ds, vx_v1@, vx_i1 as int),
        all_more(rs, ds, rs.len() as int) ==> forall|i: int| 0 <= i < vx_i1 ==> #[trigger] gave::<ElementType>(rs, ds, deqs(ics@, vw@), clock(vw@), i),
//% proof loop 1 start
    let ghost wb = vw@;
    let ghost ib = ics@;
    let ghost m = vx_i1 as int;
    let ghost vb = vx_v1@;
    proof { assert(ib[m].st() == rs[m]); assert(ib[m].deq(wb) == ds[m]); }
//% proof loop 1 end
    proof {
        lemma_rop(ib, ics@, rs, Seq::empty(), w0, wb, vw@, m, rs[m].ack);
        assert forall|i: int| 0 <= i < m + 1 implies #[trigger] rd1::<ElementType>(rs, ds, vx_v1@, i) by { if i < m { assert(rd1::<ElementType>(rs, ds, vb, i)); } }
        if all_more(rs, ds, rs.len() as int) {
            assert(more(rs, ds, m));
            assert forall|i: int| 0 <= i < m + 1 implies #[trigger] gave::<ElementType>(rs, ds, deqs(ics@, vw@), clock(vw@), i) by {
                if i < m { assert(gave::<ElementType>(rs, ds, deqs(ib, wb), clock(wb), i)); assert(ics[i].deq(vw@) == ib[i].deq(wb)); }
            }
        }
    }
//% proof loop 2 before
    let ghost rd = vx_b2@;
//% loop 2
    invariant vx_i2 <= rs.len(), rs.len() <= regs.len(), regs.len() == regs0.len(), vx_b2@ == rd.skip(vx_i2 as int), rd.len() == rs.len(),
        r_ok(ics@, rs, vw@), rs == rts(old(ics)@), ms(w0, vw@, rs, Seq::empty()), clock(vw@) < INF, w0 == old(vw)@, ds == deqs(old(ics)@, w0), regs0 == old(regs)@,
        rd_ok::<ElementType>(rs, ds, rd, rs.len() as int),
        forall|i: int| 0 <= i < vx_i2 ==> #[trigger] more(rs, ds, i),
        forall|i: int| 0 <= i < regs.len() ==> (#[trigger] regs[i]).data == (if i < vx_i2 { hist::<ChannelElement<ElementType>>(rs[i].ch, ds[i]).data } else { regs0[i].data }),
//% proof loop 2 start
    proof { assert(vx_b2[0] == rd[vx_i2 as int]); assert(rd1::<ElementType>(rs, ds, rd, vx_i2 as int)); }
//% fn WRITE_ALL_RESULTS world mutiter maypanic
//% sig
    pub fn write_all_results(ocs: &mut Vec<Sender<ElementType>>, regs: &Vec<PipelineRegister<ElementType>>, out_time: Time, manager: &TimeManager, vw: &mut World)
        requires s_ok(old(ocs)@, sts(old(ocs)@), old(vw)@), alone(Seq::empty(), sts(old(ocs)@)), free(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF,
            old(ocs).len() <= regs.len(), tfin(out_time),
        ensures s_ok(final(ocs)@, sts(old(ocs)@), final(vw)@), sts(final(ocs)@) == sts(old(ocs)@), ms(old(vw)@, final(vw)@, Seq::empty(), sts(old(ocs)@)), clock(final(vw)@) < INF,
            write_all::<ElementType>(sts(old(ocs)@), regs@, tk(out_time), old(vw)@, final(vw)@),
//% proof start
    let ghost ss = sts(ocs@);
    let ghost w0 = vw@;
//% loop 0
    invariant vx_i0 <= ocs.len(), ss == sts(old(ocs)@), s_ok(ocs@, ss, vw@), alone(Seq::empty(), ss), ms(w0, vw@, Seq::empty(), ss), manager.mine(vw@), clock(vw@) < INF, w0 == old(vw)@,
        ocs.len() <= regs.len(), tfin(out_time), clock(vw@) == gates(ss, w0.sent, 0, clock(w0), vx_i0 as int),
        forall|i: int| 0 <= i < vx_i0 ==> #[trigger] put::<ElementType>(ss, regs@, tk(out_time), w0, vw@, i),
        forall|i: int| vx_i0 <= i < ss.len() && (#[trigger] ss[i]).live ==> vw@.sent[ss[i].ch] == w0.sent[ss[i].ch],
//% proof loop 0 start
    let ghost wb = vw@;
    let ghost ob = ocs@;
    let ghost m = vx_i0 as int;
    proof { assert(ob[m].st() == ss[m]); }
//% proof loop 0 end
    proof {
        lemma_sop(ob, ocs@, Seq::empty(), ss, w0, wb, vw@, m);
        assert forall|i: int| 0 <= i < m + 1 implies #[trigger] put::<ElementType>(ss, regs@, tk(out_time), w0, vw@, i) by { if i < m { assert(put::<ElementType>(ss, regs@, tk(out_time), w0, wb, i)); } }
    }
//% fn push_stage maypanic
    ensures final(self).stages@ == old(self).stages@.push(stage), final(self).stages.len() <= final(self).configuration.pipeline_depth,
        final(self).configuration == old(self).configuration,
//% end
//% raw
pub open spec fn dims<T>(r: Seq<Seq<T>>, a: Seq<Seq<T>>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() == a[i].len() }
pub proof fn lemma_kept<T: DAMType>(p: PCU<T>, ics: Seq<Receiver<T>>, ocs: Seq<Sender<T>>, w: WV, v: WV)
    requires r_ok(ics, rts(ics), w), s_ok(ocs, sts(ocs), w), step(w, v), free(v)
    ensures r_ok(ics, rts(ics), v), s_ok(ocs, sts(ocs), v), deqs(ics, v) =~= deqs(ics, w)
{
    assert forall|j: int| 0 <= j < ics.len() implies (#[trigger] ics[j]).inv(v) && ics[j].deq(v) == ics[j].deq(w) by { lemma_rframe(&ics[j], w, v); }
    assert forall|j: int| 0 <= j < ocs.len() implies (#[trigger] ocs[j]).inv(v) by { lemma_sframe(&ocs[j], w, v); }
}
pub proof fn lemma_alone(rs: Seq<RS>, ss: Seq<SS>)
    requires alone(rs, ss)
    ensures alone(rs, Seq::empty()), alone(Seq::empty(), ss)
{}
/// written out at x..y
pub open spec fn out_set<T: DAMType>(p: PCU<T>, u: WV, x: WV, y: WV, v: WV, t: int) -> bool {
    sync(u, x) && t == clock(u) + p.configuration.pipeline_depth && step(y, v) && clock(v) == clock(y) + 1 && ms(x, y, Seq::empty(), sts(p.output_channels@)) && free(x)
}
pub proof fn lemma_set<T: DAMType>(p: PCU<T>, ics: Seq<Receiver<T>>, ocs: Seq<Sender<T>>, a: PSt<T>, b: PSt<T>, r0: Seq<PipelineRegister<T>>, u: WV, v: WV, regs: Seq<PipelineRegister<T>>)
    requires r_ok(ics, rts(p.input_channels@), u), alone(rts(p.input_channels@), sts(p.output_channels@)), free(v),
        p.ingress_op.post(a.ds, a.regs[0], a.w, deqs(ics, u), r0, u, true), b.ds == deqs(ics, v), b.w == v,
        b.regs == passed(p.stages@, a.regs.update(0, r0), p.configuration.pipeline_depth as int), regs == b.regs[p.configuration.pipeline_depth as int],
        exists|x: WV, y: WV, t: int| #[trigger] p.egress_op.post(sts(p.output_channels@), regs, t, x, y) && out_set(p, u, x, y, v, t) && s_ok(ocs, sts(p.output_channels@), y),
    ensures set_done(p, a, b), r_ok(ics, rts(p.input_channels@), v), s_ok(ocs, sts(p.output_channels@), v),
{
    let (x, y, t) = choose|x: WV, y: WV, t: int| #[trigger] p.egress_op.post(sts(p.output_channels@), regs, t, x, y) && out_set(p, u, x, y, v, t) && s_ok(ocs, sts(p.output_channels@), y);
    let rs = rts(p.input_channels@); let ss = sts(p.output_channels@);
    assert(rts(ics) =~= rs); assert(sts(ocs) =~= ss);
    assert forall|j: int| 0 <= j < ics.len() implies (#[trigger] ics[j]).inv(x) && ics[j].deq(x) == ics[j].deq(u) by { lemma_rframe(&ics[j], u, x); }
    lemma_sends(ics, rs, ss, x, y);
    lemma_kept(p, ics, ocs, y, v);
    assert(deqs(ics, x) =~= deqs(ics, u));
    assert(one_set(p, a, b, r0, u, x, y));
}
pub proof fn lemma_passed_dims<T: DAMType>(p: Seq<PipelineStage<T>>, regs: Seq<Seq<PipelineRegister<T>>>, n: int)
    ensures passed(p, regs, n).len() == regs.len()
    decreases n
{ if n > 0 { lemma_passed_dims(p, regs, n - 1); } }
pub open spec fn same_parts<T: DAMType>(p: PCU<T>, q: PCU<T>) -> bool {
    p.configuration == q.configuration && p.stages == q.stages && p.ingress_op == q.ingress_op && p.egress_op == q.egress_op && p.context_info == q.context_info
        && rts(p.input_channels@) == rts(q.input_channels@) && sts(p.output_channels@) == sts(q.output_channels@)
}
//% impl Context for PCU [ctx] => impl<ElementType: DAMType> PCU<ElementType>
//% fn run as=pcu_run world mutref=input_channels,output_channels
//% attr
#[verifier::exec_allows_no_decreases_clause]
//% sig
    pub fn pcu_run(&mut self, vw: &mut World)
    requires pcu_wf(*old(self), old(vw)@), old(self).configuration.pipeline_depth < u32::MAX
    ensures same_parts(*old(self), *final(self)),
        exists|tr: Seq<PSt<ElementType>>| #[trigger] sets_done(*old(self), tr) && pcu_post(*old(self), tr, old(vw)@, final(vw)@, deqs(final(self).input_channels@, final(vw)@)),
//% proof start
    let ghost p = *self;
    let ghost w0 = vw@;
    let ghost rs = rts(self.input_channels@);
    let ghost ss = sts(self.output_channels@);
    let ghost d = self.configuration.pipeline_depth as int;
    let ghost mut tr: Seq<PSt<ElementType>> = seq![PSt::<ElementType> { regs: flat(self.registers@), ds: deqs(self.input_channels@, vw@), w: vw@ }];
//% loop 0
    invariant pcu_wf(*self, vw@), same_parts(p, *self), p == *old(self), w0 == old(vw)@, vw@.me == w0.me, rs == rts(p.input_channels@), ss == sts(p.output_channels@), d == p.configuration.pipeline_depth < u32::MAX,
        sets_done(p, tr), tr[0] == (PSt::<ElementType> { regs: flat(p.registers@), ds: deqs(p.input_channels@, w0), w: w0 }),
        tr.last() == (PSt::<ElementType> { regs: flat(self.registers@), ds: deqs(self.input_channels@, vw@), w: vw@ }),
//% proof loop 0 start
    let ghost a = tr.last();
    let ghost mut u = vw@;
    let ghost mut ds1 = a.ds;
    let ghost mut r0: Seq<PipelineRegister<ElementType>> = Seq::empty();
    let ghost mut regs1 = a.regs;
    proof { lemma_alone(rs, ss); assert(a.regs[0] == self.registers[0]@); assert(tr.last().regs[0] == a.regs[0]); }
//% proof loop 1 before
    proof { u = vw@; ds1 = deqs(self.input_channels@, vw@); r0 = self.registers[0]@; regs1 = flat(self.registers@);
        lemma_recvs(self.output_channels@, rs, ss, a.w, u); assert(regs1 =~= a.regs.update(0, r0)); }
//% loop 1
    invariant vx_i1 <= d, d == p.configuration.pipeline_depth, d == vx_e1,
        same_parts(p, *self), pcu_wf(*self, vw@), vw@ == u, deqs(self.input_channels@, vw@) == ds1,
        flat(self.registers@) == passed(p.stages@, regs1, vx_i1 as int),
//% proof loop 1 start
    let ghost rb = flat(self.registers@);
//% proof loop 1 end
    proof { assert(flat(self.registers@) =~= passed(p.stages@, regs1, vx_i1 as int)); }
//% proof loop 0 end
    proof {
        let b = PSt::<ElementType> { regs: flat(self.registers@), ds: deqs(self.input_channels@, vw@), w: vw@ };
        lemma_set(p, self.input_channels@, self.output_channels@, a, b, r0, u, vw@, self.registers[d]@);
        assert(set_done(p, a, b));
        tr = tr.push(b);
    }
//% end
//% raw
} // mod pcu
