//% raw
// ---------------------------------------------------------------- trusted primitives: std atomics
#[verifier::external_body]
pub struct AtomicU64 { x: u8 }
#[verifier::external_body]
pub struct AtomicBool { x: u8 }
/// A load: exact for the owner; for others some value at least as new as everything already synchronised with or
/// read before; an acquiring load synchronises with the store it reads from.
pub open spec fn load_post(w: WV, v: WV, c: int, j: int, o: AtomicOrdering) -> bool {
    &&& sync(w, v) && v.lk == w.lk && v.unparked == w.unparked
    &&& c == w.me ==> v.seen[c] == j
    &&& c != w.me ==> j >= w.seen[c] && (acq(o) ==> v.seen[c] >= j)
}
impl AtomicU64 {
    pub uninterp spec fn ctx(&self) -> int;
    #[verifier::external_body]
    pub fn load(&self, o: AtomicOrdering, vw: &mut World) -> (r: u64)
        requires o is Relaxed || o is Acquire || o is SeqCst
        ensures load_post(old(vw)@, final(vw)@, self.ctx(), final(vw)@.coht[self.ctx()], o), final(vw)@.cohd == old(vw)@.cohd,
            r == tm(self.ctx(), final(vw)@.coht[self.ctx()]), r < HORIZON,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, x: u64, o: AtomicOrdering, vw: &mut World)
        requires self.ctx() == old(vw)@.me, rel(o), !(o is AcqRel), x >= tm(old(vw)@.me, old(vw)@.seen[old(vw)@.me])
        ensures ({ let w = old(vw)@; let v = final(vw)@; let m = w.me;
            &&& v == WV { seen: w.seen.insert(m, v.seen[m]), coht: v.coht, cohd: v.cohd, dirty: true, ..w }
            &&& grow(w, v)
            &&& tm(m, v.seen[m]) == x && dn(m, v.seen[m]) == dn(m, w.seen[m]) && x < HORIZON }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, x: u64, o: AtomicOrdering, vw: &mut World) -> (r: u64)
        requires self.ctx() == old(vw)@.me, rel(o)
        ensures ({ let w = old(vw)@; let v = final(vw)@; let m = w.me;
            &&& v == WV { seen: w.seen.insert(m, v.seen[m]), coht: v.coht, cohd: v.cohd, dirty: true, ..w }
            &&& grow(w, v)
            &&& r == tm(m, w.seen[m])
            &&& tm(m, v.seen[m]) == r + x && dn(m, v.seen[m]) == dn(m, w.seen[m]) && r + x < HORIZON }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, x: u64, o: AtomicOrdering, vw: &mut World) -> (r: u64)
        requires self.ctx() == old(vw)@.me, rel(o)
        ensures ({ let w = old(vw)@; let v = final(vw)@; let m = w.me;
            &&& v == WV { seen: w.seen.insert(m, v.seen[m]), coht: v.coht, cohd: v.cohd, dirty: true, ..w }
            &&& grow(w, v)
            &&& r == tm(m, w.seen[m])
            &&& tm(m, v.seen[m]) == imax(r as int, x as int) && dn(m, v.seen[m]) == dn(m, w.seen[m]) && x < HORIZON }),
    { unimplemented!() }
}
impl AtomicBool {
    pub uninterp spec fn ctx(&self) -> int;
    #[verifier::external_body]
    pub fn load(&self, o: AtomicOrdering, vw: &mut World) -> (r: bool)
        requires o is Relaxed || o is Acquire || o is SeqCst
        ensures load_post(old(vw)@, final(vw)@, self.ctx(), final(vw)@.cohd[self.ctx()], o), final(vw)@.coht == old(vw)@.coht,
            r == dn(self.ctx(), final(vw)@.cohd[self.ctx()]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, x: bool, o: AtomicOrdering, vw: &mut World)
        requires self.ctx() == old(vw)@.me, rel(o), !(o is AcqRel), dn(old(vw)@.me, old(vw)@.seen[old(vw)@.me]) ==> x
        ensures ({ let w = old(vw)@; let v = final(vw)@; let m = w.me;
            &&& v == WV { seen: w.seen.insert(m, v.seen[m]), coht: v.coht, cohd: v.cohd, dirty: true, ..w }
            &&& grow(w, v)
            &&& tm(m, v.seen[m]) == tm(m, w.seen[m]) && dn(m, v.seen[m]) == x }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, x: bool, o: AtomicOrdering, vw: &mut World) -> (r: bool)
        requires self.ctx() == old(vw)@.me, rel(o)
        ensures ({ let w = old(vw)@; let v = final(vw)@; let m = w.me;
            &&& v == WV { seen: w.seen.insert(m, v.seen[m]), coht: v.coht, cohd: v.cohd, dirty: true, ..w }
            &&& grow(w, v)
            &&& r == dn(m, w.seen[m])
            &&& tm(m, v.seen[m]) == tm(m, w.seen[m]) && dn(m, v.seen[m]) == (r || x) }),
    { unimplemented!() }
}
// ---------------------------------------------------------------- trusted primitives: threads and the signal lock
#[verifier::external_body]
pub struct Thread { x: u8 }
impl Thread {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn unpark(&self, vw: &mut World)
        ensures final(vw)@ == (WV { unparked: old(vw)@.unparked.insert(self.id()), ..old(vw)@ })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn current(vw: &mut World) -> (r: Thread) ensures r.id() == old(vw)@.thr, final(vw)@ == old(vw)@ { unimplemented!() }
/// Parking is only reasonable with a registration in place and the buffer's lock released.
#[verifier::external_body]
pub fn park(vw: &mut World)
    requires old(vw)@.lk.held is None, exists|c: int, k: int| old(vw)@.lk.reg.contains((c, k))
    ensures sync(old(vw)@, final(vw)@), final(vw)@.lk == old(vw)@.lk, final(vw)@.unparked == old(vw)@.unparked
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { x: Vec<T> }
impl Mutex<Vec<SignalElement>> {
    pub uninterp spec fn ctx(&self) -> int;
    /// Acquires; `u` is the owner's instant at its last scan before this acquisition.
    #[verifier::external_body]
    pub fn lock(&self, vw: &mut World) -> (r: Vec<SignalElement>)
        requires old(vw)@.lk.held is None
        ensures sync(old(vw)@, final(vw)@), final(vw)@.unparked == old(vw)@.unparked,
            final(vw)@.lk == (Lk { held: Some(self.ctx()), buf: r@, u: final(vw)@.lk.u, ..old(vw)@.lk }),
            final(vw)@.seen[self.ctx()] >= final(vw)@.lk.u,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_lock(&self, vw: &mut World) -> (r: Option<Vec<SignalElement>>)
        requires old(vw)@.lk.held is None
        ensures sync(old(vw)@, final(vw)@), final(vw)@.unparked == old(vw)@.unparked,
            r matches Some(g) ==> final(vw)@.lk == (Lk { held: Some(self.ctx()), buf: g@, u: final(vw)@.lk.u, ..old(vw)@.lk })
                && final(vw)@.seen[self.ctx()] >= final(vw)@.lk.u,
            r is None ==> final(vw)@.lk == old(vw)@.lk,
    { unimplemented!() }
    /// says nothing about the past or the future
    #[verifier::external_body]
    pub fn is_locked(&self) -> bool { unimplemented!() }
}
/// Releasing the buffer `v`.  No registration may vanish unless its thread has been woken and its time has come;
/// a new one must be for the own thread and for a time the owner had not reached at its last scan.
pub open spec fn fresh_reg(w: WV, e: SignalElement) -> bool {
    e.thread.id() == w.thr && clk(w.lk.held->Some_0, w.lk.u) < tk(e.when)
}
pub open spec fn unlock_gen(w: WV, v: Seq<SignalElement>) -> bool {
    &&& forall|i: int| 0 <= i < w.lk.buf.len() ==> v.contains(#[trigger] w.lk.buf[i])
            || (tk(w.lk.buf[i].when) <= clk_at(w, w.lk.held->Some_0) && w.unparked.contains(w.lk.buf[i].thread.id()))
    &&& forall|i: int| 0 <= i < v.len() ==> w.lk.buf.contains(#[trigger] v[i]) || fresh_reg(w, v[i])
}
pub open spec fn unlock_ok(w: WV, v: Seq<SignalElement>) -> bool {
    &&& w.lk.held is Some
    &&& v =~= w.lk.buf || unlock_gen(w, v) || (v.len() > 0 && v =~= w.lk.buf.push(v.last()) && fresh_reg(w, v.last()))
}
pub open spec fn unlock_post(w: WV, x: WV, v: Seq<SignalElement>) -> bool {
    &&& x == WV { dirty: x.dirty, lk: Lk { held: None, reg: x.lk.reg, ..w.lk }, ..w }
    &&& x.dirty ==> w.dirty
    &&& w.lk.held == Some(w.me) && (forall|i: int| 0 <= i < v.len() ==> tk(#[trigger] v[i].when) > clock(w)) ==> !x.dirty
    &&& forall|i: int| 0 <= i < v.len() && #[trigger] v[i].thread.id() == w.thr ==> x.lk.reg.contains((w.lk.held->Some_0, tk(v[i].when)))
}
#[verifier::external_body]
pub fn prim_unlock(v: Vec<SignalElement>, vw: &mut World)
    requires old(vw)@.lk.held is Some, unlock_gen(old(vw)@, v@)
    ensures unlock_post(old(vw)@, final(vw)@, v@)
{ unimplemented!() }
pub fn vx_unlock(v: Vec<SignalElement>, vw: &mut World)
    requires unlock_ok(old(vw)@, v@)
    ensures unlock_post(old(vw)@, final(vw)@, v@),
        v@.len() > 0 && v@.last().thread.id() == old(vw)@.thr ==> final(vw)@.lk.reg.contains((old(vw)@.lk.held->Some_0, tk(v@.last().when)))
{
    proof {
        let b = vw@.lk.buf;
        if !unlock_gen(vw@, v@) {
            assert forall|i: int| 0 <= i < b.len() implies v@.contains(#[trigger] b[i]) by { assert(v@[i] == b[i]); }
            assert forall|i: int| 0 <= i < v@.len() implies b.contains(#[trigger] v@[i]) || fresh_reg(vw@, v@[i]) by {
                if i < b.len() { assert(v@[i] == b[i]); }
            }
        }
    }
    prim_unlock(v, vw)
}
pub fn vx_unlock_opt(o: Option<Vec<SignalElement>>, vw: &mut World)
    requires o matches Some(v) ==> (old(vw)@.lk.held is Some && v@ == old(vw)@.lk.buf)
    ensures ({ let w = old(vw)@; let x = final(vw)@;
        &&& o is None ==> x == w
        &&& o is Some ==> x == WV { dirty: x.dirty, lk: Lk { held: None, reg: x.lk.reg, ..w.lk }, ..w } && (x.dirty ==> w.dirty) }),
{ match o { Some(v) => vx_unlock(v, vw), None => {} } }

// ---------------------------------------------------------------- AtomicTime
//% file src/datastructures/time.rs
//% struct AtomicTime
//% raw
impl AtomicTime {
    pub open spec fn ctx(&self) -> int { self.time.ctx() }
    pub open spec fn wf(&self) -> bool { self.done.ctx() == self.time.ctx() }
}
//% impl AtomicTime => impl AtomicTime
//% fn load world ret=r
    requires self.wf()
    ensures sync(old(vw)@, final(vw)@), final(vw)@.lk == old(vw)@.lk, final(vw)@.unparked == old(vw)@.unparked, tsmall(r),
        self.ctx() == old(vw)@.me ==> tk(r) == clock(old(vw)@),
        tk(r) >= clk_at(old(vw)@, self.ctx()),
        tk(r) <= clk_at(final(vw)@, self.ctx()),
        tk(r) >= coh_at(old(vw)@, self.ctx()),
//% fn load_relaxed world ret=r
    requires self.wf()
    ensures sync(old(vw)@, final(vw)@), final(vw)@.lk == old(vw)@.lk, final(vw)@.unparked == old(vw)@.unparked, tsmall(r),
        self.ctx() == old(vw)@.me ==> tk(r) == clock(old(vw)@),
        tk(r) == coh_at(final(vw)@, self.ctx()),
//% fn set_infinite world
    requires self.wf(), self.ctx() == old(vw)@.me
    ensures stepd(old(vw)@, final(vw)@), final(vw)@.lk == old(vw)@.lk,
        final(vw)@.unparked == old(vw)@.unparked,
        clock(final(vw)@) == INF,
//% fn try_advance world ret=r params=rhs
    requires self.wf(), self.ctx() == old(vw)@.me
    ensures stepd(old(vw)@, final(vw)@), final(vw)@.lk == old(vw)@.lk,
        final(vw)@.unparked == old(vw)@.unparked,
        clock(final(vw)@) == imax(clock(old(vw)@), tk(rhs)),
        r || (final(vw)@.dirty ==> old(vw)@.dirty),
//% fn incr_cycles world params=rhs
    requires self.wf(), self.ctx() == old(vw)@.me
    ensures stepd(old(vw)@, final(vw)@), final(vw)@.lk == old(vw)@.lk,
        final(vw)@.unparked == old(vw)@.unparked,
        clock(old(vw)@) == INF ==> clock(final(vw)@) == INF,
        clock(old(vw)@) != INF ==> clock(final(vw)@) == clock(old(vw)@) + rhs,
//% end
//% file src/view/basic.rs
//% struct SignalElement noderive
//% struct TimeInfo noderive
//% struct TimeManager noderive
//% struct BasicContextView noderive
//% raw
impl TimeInfo {
    pub open spec fn ctx(&self) -> int { self.time.ctx() }
    pub open spec fn wf(&self) -> bool { self.time.wf() && self.signal_buffer.ctx() == self.time.ctx() }
    /// Arc::clone
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl TimeManager {
    pub open spec fn ctx(&self) -> int { self.underlying.ctx() }
    pub open spec fn wf(&self) -> bool { self.underlying.wf() }
    /// this is the running context's own time
    pub open spec fn mine(&self, w: WV) -> bool { self.wf() && self.ctx() == w.me && w.lk.held is None }
}
impl BasicContextView {
    pub open spec fn ctx(&self) -> int { self.under.ctx() }
    pub open spec fn wf(&self) -> bool { self.under.wf() }
}
//% impl TimeManager => impl TimeManager
//% fn view ret=r
    requires self.wf()
    ensures r.ctx() == self.ctx(), r.wf(),
//% fn incr_cycles world params=incr
    requires self.mine(old(vw)@)
    ensures step(old(vw)@, final(vw)@), final(vw)@.lk.held is None, !final(vw)@.dirty,
        clock(old(vw)@) == INF ==> clock(final(vw)@) == INF,
        clock(old(vw)@) != INF ==> clock(final(vw)@) == clock(old(vw)@) + incr,
//% fn advance world params=new
    requires self.mine(old(vw)@)
    ensures step(old(vw)@, final(vw)@), final(vw)@.lk.held is None,
        clock(final(vw)@) == imax(clock(old(vw)@), tk(new)),
//% fn scan_and_write_signals world guards local=signal_buffer:0 local=tlb:1
    requires self.mine(old(vw)@)
    ensures step(old(vw)@, final(vw)@), final(vw)@.seen[final(vw)@.me] == old(vw)@.seen[final(vw)@.me], final(vw)@.lk.held is None, !final(vw)@.dirty,
//% loop 0
    invariant
        self.mine(WV { lk: Lk { held: None, ..vw@.lk }, ..vw@ }),
        sync(old(vw)@, vw@), vw@.lk.held == Some(self.ctx()), vw@.me == old(vw)@.me,
        tk(tlb) == clock(vw@),
        vx_i0 <= signal_buffer.len(),
        forall|i: int| 0 <= i < vx_i0 ==> tk(#[trigger] signal_buffer@[i].when) > tk(tlb),
        forall|i: int| 0 <= i < signal_buffer.len() ==> vw@.lk.buf.contains(#[trigger] signal_buffer@[i]),
        forall|i: int| 0 <= i < vw@.lk.buf.len() ==> signal_buffer@.contains(#[trigger] vw@.lk.buf[i])
            || (tk(vw@.lk.buf[i].when) <= tk(tlb) && vw@.unparked.contains(vw@.lk.buf[i].thread.id())),
    decreases signal_buffer.len() - vx_i0
//% proof loop 0 start
    let ghost sb0 = signal_buffer@;
//% proof loop 0 end
    proof {
        assert forall|i: int| 0 <= i < vw@.lk.buf.len() implies signal_buffer@.contains(#[trigger] vw@.lk.buf[i])
            || (tk(vw@.lk.buf[i].when) <= tk(tlb) && vw@.unparked.contains(vw@.lk.buf[i].thread.id())) by {
            if sb0.contains(vw@.lk.buf[i]) {
                let k = choose|k: int| 0 <= k < sb0.len() && sb0[k] == vw@.lk.buf[i];
                lemma_removed(sb0, signal_buffer@, k);
            }
        }
    }
//% fn tick world ret=r
    requires self.mine(old(vw)@)
    ensures sync(old(vw)@, final(vw)@), final(vw)@.lk == old(vw)@.lk, tsmall(r), tk(r) == clock(old(vw)@), tk(r) == clock(final(vw)@),
//% fn cleanup world
    requires old(self).mine(old(vw)@)
    ensures step(old(vw)@, final(vw)@), final(vw)@.lk.held is None, !final(vw)@.dirty, *final(self) == *old(self),
        clock(final(vw)@) == INF,
//% end
//% raw
/// an element of a is in b if b is a or a with one element removed, unless it is the removed one
pub proof fn lemma_removed(a: Seq<SignalElement>, b: Seq<SignalElement>, k: int)
    requires 0 <= k < a.len()
    ensures forall|i: int| 0 <= i < a.len() && b == a.remove(i) && k != i ==> b.contains(a[k]),
        b == a ==> b.contains(a[k]),
{
    assert forall|i: int| 0 <= i < a.len() && b == a.remove(i) && k != i implies b.contains(a[k]) by {
        if k < i { assert(b[k] == a[k]); } else { assert(b[k - 1] == a[k]); }
    }
    if b == a { assert(b[k] == a[k]); }
}

// ---------------------------------------------------------------- viewing another context
//% file src/view/mod.rs
//% enum TimeView noderive
//% file src/view/parent.rs
//% struct ParentView noderive
//% raw
// derive(Clone)
impl Clone for TimeView {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// context c is one of the leaves of the view
pub open spec fn covers(v: TimeView, c: int) -> bool
    decreases v
{
    match v {
        TimeView::BasicContextView(b) => b.ctx() == c,
        TimeView::ParentView(p) => exists|i: int| 0 <= i < p.child_views@.len() && covers(#[trigger] p.child_views@[i], c),
    }
}
pub open spec fn view_wf(v: TimeView) -> bool
    decreases v
{
    match v {
        TimeView::BasicContextView(b) => b.wf(),
        TimeView::ParentView(p) => forall|i: int| 0 <= i < p.child_views@.len() ==> view_wf(#[trigger] p.child_views@[i]),
    }
}
/// every leaf's clock is known to have reached b
pub open spec fn reached(v: TimeView, w: WV, b: int) -> bool {
    forall|c: int| covers(v, c) ==> #[trigger] clk_at(w, c) >= b
}
/// r is no later than any leaf's clock
pub open spec fn below(v: TimeView, w: WV, r: int) -> bool {
    forall|c: int| #![trigger clk_at(w, c)] #![trigger covers(v, c)] covers(v, c) ==> r <= clk_at(w, c)
}
pub proof fn lemma_clk_grow(w: WV, v: WV, c: int)
    requires grow(w, v)
    ensures clk_at(w, c) <= clk_at(v, c)
{ assert(v.seen[c] >= w.seen[c]); }
pub proof fn lemma_below_grow(t: TimeView, w: WV, v: WV, r: int)
    requires grow(w, v), below(t, w, r)
    ensures below(t, v, r)
{
    assert forall|c: int| covers(t, c) implies r <= #[trigger] clk_at(v, c) by { lemma_clk_grow(w, v, c); assert(r <= clk_at(w, c)); }
}
pub proof fn lemma_reached_grow(t: TimeView, w: WV, v: WV, b: int)
    requires grow(w, v), reached(t, w, b)
    ensures reached(t, v, b)
{
    assert forall|c: int| covers(t, c) implies #[trigger] clk_at(v, c) >= b by { lemma_clk_grow(w, v, c); assert(clk_at(w, c) >= b); }
}
/// what wait_until promises
pub open spec fn wait_post(t: TimeView, when: int, w: WV, v: WV, r: Time) -> bool {
    &&& sync(w, v)
    &&& v.lk.held is None
    &&& tk(r) >= when
    &&& below(t, v, tk(r)) || tk(r) == when && (forall|c: int| !covers(t, c))
}
/// what tick_lower_bound promises
pub open spec fn tlb_post(t: TimeView, w: WV, v: WV, r: Time) -> bool {
    &&& sync(w, v)
    &&& v.lk.held is None
    &&& below(t, v, tk(r))
    &&& forall|b: int| b <= INF && #[trigger] reached(t, w, b) ==> tk(r) >= b
}
//% file src/view/basic.rs
//% impl ContextView for BasicContextView => impl BasicContextView
//% fn wait_until world ret=r params=when guards
    requires self.wf(), old(vw)@.lk.held is None
    ensures sync(old(vw)@, final(vw)@), final(vw)@.lk.held is None,
        tk(r) >= tk(when), tk(r) <= clk_at(final(vw)@, self.ctx()), tsmall(r),
//% loop 0
    invariant self.wf(), vw@.lk.held is None, sync(old(vw)@, vw@),
//% proof loop 0 start
    let ghost w0 = vw@;
//% loop 1
    invariant self.wf(), vw@.lk.held is None, sync(old(vw)@, vw@),
        vw@.lk.reg.contains((self.ctx(), tk(when))),
        tk(cur_time) >= tk(when) ==> self.ctx() == vw@.me && clock(vw@) == tk(cur_time) || coh_at(vw@, self.ctx()) >= tk(when),
    ensures tk(cur_time) >= tk(when)
//% fn tick_lower_bound world ret=r
    requires self.wf(), old(vw)@.lk.held is None
    ensures sync(old(vw)@, final(vw)@), final(vw)@.lk.held is None, tsmall(r),
        tk(r) >= clk_at(old(vw)@, self.ctx()), tk(r) <= clk_at(final(vw)@, self.ctx()),
//% end

//% raw
pub open spec fn kids_wf(p: ParentView) -> bool { forall|i: int| 0 <= i < p.child_views@.len() ==> view_wf(#[trigger] p.child_views@[i]) }
pub proof fn lemma_parent(p: ParentView, w: WV)
    ensures
        view_wf(TimeView::ParentView(p)) == kids_wf(p),
        forall|c: int| #[trigger] covers(TimeView::ParentView(p), c) <==> (exists|i: int| 0 <= i < p.child_views@.len() && covers(#[trigger] p.child_views@[i], c)),
        forall|b: int, i: int| #![trigger reached(TimeView::ParentView(p), w, b), p.child_views@[i]]
            reached(TimeView::ParentView(p), w, b) && 0 <= i < p.child_views@.len() ==> reached(p.child_views@[i], w, b),
{
    reveal_with_fuel(view_wf, 2);
    reveal_with_fuel(covers, 2);
    assert forall|c: int| #[trigger] covers(TimeView::ParentView(p), c) <==> (exists|i: int| 0 <= i < p.child_views@.len() && covers(#[trigger] p.child_views@[i], c)) by {}
    assert forall|b: int, i: int| #![trigger reached(TimeView::ParentView(p), w, b), p.child_views@[i]]
            reached(TimeView::ParentView(p), w, b) && 0 <= i < p.child_views@.len() implies reached(p.child_views@[i], w, b) by {
        assert forall|c: int| covers(p.child_views@[i], c) implies #[trigger] clk_at(w, c) >= b by { assert(covers(TimeView::ParentView(p), c)); }
    }
}
//% file src/view/mod.rs
//% impl ContextView for TimeView => impl TimeView
//% fn wait_until world ret=r params=when
    requires view_wf(*self), old(vw)@.lk.held is None
    ensures wait_post(*self, tk(when), old(vw)@, final(vw)@, r), tsmall(when) ==> tsmall(r),
//% fn tick_lower_bound world ret=r
    requires view_wf(*self), old(vw)@.lk.held is None
    ensures tlb_post(*self, old(vw)@, final(vw)@, r), tsmall(r),
//% end
//% file src/view/parent.rs
//% impl ContextView for ParentView => impl ParentView
//% fn wait_until world ret=r params=when
    requires view_wf(TimeView::ParentView(*self)), old(vw)@.lk.held is None
    ensures wait_post(TimeView::ParentView(*self), tk(when), old(vw)@, final(vw)@, r), tsmall(when) ==> tsmall(r),
//% proof start
    proof { lemma_parent(*self, vw@); }
//% loop 0
    invariant
        kids_wf(*self), vw@.lk.held is None, sync(old(vw)@, vw@),
        vx_i0 <= self.child_views.len(), vx_v0.len() == vx_i0,
        forall|j: int| 0 <= j < vx_i0 ==> tk(#[trigger] vx_v0@[j]) >= tk(when) && (tsmall(when) ==> tsmall(vx_v0@[j])),
        forall|j: int| #![trigger vx_v0@[j]] #![trigger self.child_views@[j]] 0 <= j < vx_i0 ==> below(self.child_views@[j], vw@, tk(vx_v0@[j]))
            || tk(vx_v0@[j]) == tk(when) && (forall|c: int| !covers(self.child_views@[j], c)),
//% proof loop 0 start
    let ghost w0 = vw@; let ghost v0 = vx_v0@;
//% proof loop 0 end
    proof {
        assert forall|j: int| #![trigger vx_v0@[j]] #![trigger self.child_views@[j]] 0 <= j < vx_i0 implies below(self.child_views@[j], vw@, tk(vx_v0@[j]))
            || tk(vx_v0@[j]) == tk(when) && (forall|c: int| !covers(self.child_views@[j], c)) by {
            if j < vx_i0 - 1 { assert(vx_v0@[j] == v0[j]); if below(self.child_views@[j], w0, tk(v0[j])) { lemma_below_grow(self.child_views@[j], w0, vw@, tk(v0[j])); } }
        }
    }
//% fn tick_lower_bound world ret=r
    requires view_wf(TimeView::ParentView(*self)), old(vw)@.lk.held is None
    ensures tlb_post(TimeView::ParentView(*self), old(vw)@, final(vw)@, r), tsmall(r),
//% proof start
    proof { lemma_parent(*self, vw@); }
//% loop 0
    invariant
        kids_wf(*self), vw@.lk.held is None, sync(old(vw)@, vw@),
        vx_i0 <= self.child_views.len(), vx_v0.len() == vx_i0,
        forall|j: int| 0 <= j < vx_i0 ==> tsmall(#[trigger] vx_v0@[j]),
        forall|j: int| #![trigger vx_v0@[j]] #![trigger self.child_views@[j]] 0 <= j < vx_i0 ==> below(self.child_views@[j], vw@, tk(vx_v0@[j])),
        forall|j: int, b: int| 0 <= j < vx_i0 && b <= INF && #[trigger] reached(self.child_views@[j], old(vw)@, b) ==> tk(#[trigger] vx_v0@[j]) >= b,
//% proof loop 0 start
    let ghost w0 = vw@; let ghost v0 = vx_v0@;
//% proof loop 0 end
    proof {
        assert forall|j: int| #![trigger vx_v0@[j]] #![trigger self.child_views@[j]] 0 <= j < vx_i0 implies below(self.child_views@[j], vw@, tk(vx_v0@[j])) by {
            if j < vx_i0 - 1 { assert(vx_v0@[j] == v0[j]); lemma_below_grow(self.child_views@[j], w0, vw@, tk(v0[j])); }
        }
        assert forall|j: int, b: int| 0 <= j < vx_i0 && b <= INF && #[trigger] reached(self.child_views@[j], old(vw)@, b) implies tk(#[trigger] vx_v0@[j]) >= b by {
            if j < vx_i0 - 1 { assert(vx_v0@[j] == v0[j]); } else { lemma_reached_grow(self.child_views@[j], old(vw)@, w0, b); }
        }
    }
//% end
