//% raw
// ================================================================ the ghost world
// tm(c,i), dn(c,i): what context c's two time cells hold after c's i-th step, in the execution under
// consideration.  clk is the resulting clock.  All of it is uninterpreted: the proofs hold for every execution.
/// The cells only ever grow: every store in the code is checked against this (`store`/`fetch_*` below).
pub mod ax {
use super::base::*;
use vstd::prelude::*;
pub uninterp spec fn tm(c: int, i: int) -> int;
pub uninterp spec fn dn(c: int, i: int) -> bool;
pub open spec fn clk(c: int, i: int) -> int { if dn(c, i) { INF } else { tm(c, i) } }
#[verifier::external_body]
pub broadcast proof fn ax_tm_mono(c: int, i: int, j: int)
    requires i <= j
    ensures #![trigger tm(c, i), tm(c, j)] 0 <= tm(c, i) <= tm(c, j) < CLKMAX
{}
#[verifier::external_body]
pub broadcast proof fn ax_dn_mono(c: int, i: int, j: int)
    requires i <= j
    ensures #![trigger dn(c, i), dn(c, j)] dn(c, i) ==> dn(c, j)
{}
}
pub use ax::*;
// The history of a channel in the execution under consideration: hist(ch,k) is the k-th item ever sent, hstamp its
// time, total(ch) how many are sent, nsent(ch,i) how many of them before the sender's i-th step, src(ch) the sending
// context, lat(ch) the latency every item must carry.  `peer`/`slack` describe credit: the item after the n-th may
// be sent when n < (items taken from peer) + slack.  All uninterpreted.
pub mod axc {
use super::base::*;
use super::ax::*;
use vstd::prelude::*;
pub uninterp spec fn hist<M>(ch: int, k: int) -> M;
pub uninterp spec fn hstamp(ch: int, k: int) -> int;
pub uninterp spec fn total(ch: int) -> int;
pub uninterp spec fn nsent(ch: int, i: int) -> int;
pub uninterp spec fn src(ch: int) -> int;
pub uninterp spec fn lat(ch: int) -> int;
pub uninterp spec fn peer(ch: int) -> int;
pub uninterp spec fn slack(ch: int) -> Option<int>;
/// What every `send` is checked to establish (stamp at least clock + latency, clock finite), read by the receiver.
#[verifier::external_body]
pub broadcast proof fn ax_late(ch: int, i: int, k: int)
    requires nsent(ch, i) <= k < total(ch)
    ensures #![trigger nsent(ch, i), hstamp(ch, k)] hstamp(ch, k) >= clk(src(ch), i) + lat(ch), clk(src(ch), i) < INF
{}
#[verifier::external_body]
pub broadcast proof fn ax_stamp(ch: int, k: int)
    requires 0 <= k < total(ch)
    ensures 0 <= #[trigger] hstamp(ch, k) < HORIZON
{}
/// an infinite clock sends nothing more
#[verifier::external_body]
pub proof fn ax_done(ch: int, i: int)
    requires clk(src(ch), i) >= INF
    ensures nsent(ch, i) >= total(ch)
{}
}
pub use axc::*;

broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
/// state of the wake-up registration buffer as seen by the running context
pub struct Lk {
    pub held: Option<int>,
    pub buf: Seq<SignalElement>,
    pub u: int,
    pub reg: Set<(int, int)>,
}
/// What the running context `me` knows: how far it has synchronised with every context (`seen`; for itself: its
/// current instant), what relaxed reads returned last (`coht`/`cohd`), and how many items it sent/received per
/// channel.
pub struct WV {
    pub me: int,
    pub thr: int,
    pub seen: Map<int, int>,
    pub coht: Map<int, int>,
    pub cohd: Map<int, int>,
    pub dirty: bool,
    pub lk: Lk,
    pub unparked: Set<int>,
    pub sent: Map<int, int>,
    pub rcvd: Map<int, int>,
}
#[verifier::external_body]
pub struct World { x: u8 }
impl World { pub uninterp spec fn view(&self) -> WV; }

pub open spec fn clk_at(w: WV, c: int) -> int { clk(c, w.seen[c]) }
pub open spec fn clock(w: WV) -> int { clk_at(w, w.me) }
/// the newest value relaxed reads have produced
pub open spec fn coh_at(w: WV, c: int) -> int { if dn(c, w.cohd[c]) { INF } else { tm(c, w.coht[c]) } }
pub open spec fn same_io(w: WV, v: WV) -> bool {
    v.me == w.me && v.thr == w.thr && v.sent == w.sent && v.rcvd == w.rcvd
}
pub open spec fn grow(w: WV, v: WV) -> bool {
    &&& forall|c: int| #[trigger] v.seen[c] >= w.seen[c]
    &&& forall|c: int| #[trigger] v.coht[c] >= w.coht[c]
    &&& forall|c: int| #[trigger] v.cohd[c] >= w.cohd[c]
}
/// nothing but knowledge and the own clock changes
pub open spec fn stepd(w: WV, v: WV) -> bool { same_io(w, v) && grow(w, v) }
/// the same, and every registration due by the own clock has been woken if that was so before
pub open spec fn step(w: WV, v: WV) -> bool { stepd(w, v) && (v.dirty ==> w.dirty) }
/// nothing but knowledge about others changes
pub open spec fn sync(w: WV, v: WV) -> bool { step(w, v) && v.seen[w.me] == w.seen[w.me] }

#[derive(Clone, Copy)]
pub enum AtomicOrdering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub open spec fn acq(o: AtomicOrdering) -> bool { o is Acquire || o is AcqRel || o is SeqCst }
pub open spec fn rel(o: AtomicOrdering) -> bool { o is Release || o is AcqRel || o is SeqCst }
//% pathmap std::sync::atomic::Ordering::* => AtomicOrdering::*
//% pathmap atomic::Ordering::* => AtomicOrdering::*
//% effects load store fetch_add fetch_max fetch_or swap lock try_lock park unpark current vx_unlock vx_unlock_opt
//% shims is_locked load store fetch_add fetch_max fetch_or swap lock try_lock park unpark current vx_unlock vx_unlock_opt
//% erase Arc CachePadded Box SyncUnsafeCell
//% dispatch ContextView TimeView
