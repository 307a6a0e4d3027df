//% raw
// ================================================================ contexts with bundles of channels
pub mod ports {
use super::*;
use super::recv::*;
use super::send::*;
use super::rflav::*;
use super::sflav::*;
use super::handle::*;
use super::events::*;
use super::frame::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
pub broadcast group stays { lemma_pick, lemma_asked, s_step, r_step, s_deq, r_deq, r_ask, s_put, b_step }
/// an end of a channel
pub enum Port { In(RS), Out(SS), No }
/// the items it sends / takes (acknowledgements included)
pub open spec fn skey(p: Port) -> int { match p { Port::In(a) => a.ack, Port::Out(a) => if a.live { a.ch } else { -1 }, Port::No => -1 } }
pub open spec fn rkey(p: Port) -> int { match p { Port::In(a) => a.ch, Port::Out(a) => if a.live && a.cap is Some { a.resp } else { -1 }, Port::No => -1 } }
pub open spec fn r_port<T: DAMType>(r: Receiver<T>, w: WV) -> bool {
    r.inv(w) && r.st().ready && r.st().ch >= 0 && (if r.st().bounded { r.st().ack >= 0 } else { r.st().ack == -1 })
}
pub open spec fn s_port<T: DAMType>(s: Sender<T>, w: WV) -> bool {
    s.inv(w) && s.st().ready && (s.st().live ==> s.st().ch >= 0 && w.sent[s.st().ch] >= 0 && s.st().lat >= 1 && (if s.st().cap is Some { s.st().resp >= 0 } else { s.st().resp == -1 }))
}
pub open spec fn s_n<T: DAMType>(s: Sender<T>, w: WV) -> int { if s.st().live { w.sent[s.st().ch] } else { 0 } }
pub open spec fn unused(p: Port, w: WV, v: WV) -> bool {
    others(w, v) && (skey(p) >= 0 ==> v.sent[skey(p)] == w.sent[skey(p)]) && (rkey(p) >= 0 ==> v.rcvd[rkey(p)] == w.rcvd[rkey(p)])
}
pub proof fn lemma_rport<T: DAMType>(r: &Receiver<T>, w: WV, v: WV)
    requires r_port(*r, w), unused(Port::In(r.st()), w, v)
    ensures r_port(*r, v), r.deq(v) == r.deq(w)
{ lemma_rframe(r, w, v); }
pub proof fn lemma_sport<T: DAMType>(s: &Sender<T>, w: WV, v: WV)
    requires s_port(*s, w), unused(Port::Out(s.st()), w, v)
    ensures s_port(*s, v), s_n(*s, v) == s_n(*s, w)
{ lemma_sframe(s, w, v); }
/// a bundle of up to four channel ends
pub trait Ports: Sized {
    spec fn port(&self, k: int) -> Port;
    /// in order
    spec fn ok(&self, k: int, w: WV) -> bool;
    /// items taken or sent so far
    spec fn n(&self, k: int, w: WV) -> int;
    proof fn kept(&self, k: int, w: WV, v: WV)
        requires 0 <= k < 4, self.ok(k, w), unused(self.port(k), w, v)
        ensures self.ok(k, v), self.n(k, v) == self.n(k, w);
}
pub open spec fn clear(a: Port, b: Port) -> bool { (skey(a) < 0 || skey(a) != skey(b)) && (rkey(a) < 0 || rkey(a) != rkey(b)) }
/// all ends belong to different channels, none of which is x
pub open spec fn separate<B: Ports>(bs: Seq<B>, x: int) -> bool {
    &&& forall|i: int, k: int, j: int, l: int| 0 <= i < bs.len() && 0 <= j < bs.len() && 0 <= k < 4 && 0 <= l < 4 && (i != j || k != l) ==> #[trigger] clear(bs[i].port(k), bs[j].port(l))
    &&& forall|i: int, k: int| 0 <= i < bs.len() && 0 <= k < 4 ==> skey(#[trigger] bs[i].port(k)) != x || x < 0
}
/// the ends of the bundles b are those of b0, and in order
pub open spec fn b_ok<B: Ports>(b0: Seq<B>, b: Seq<B>, w: WV) -> bool {
    &&& b.len() == b0.len()
    &&& forall|i: int, k: int| 0 <= i < b.len() && 0 <= k < 4 ==> (#[trigger] b[i].port(k)) == b0[i].port(k)
    &&& forall|i: int, k: int| 0 <= i < b.len() && 0 <= k < 4 ==> #[trigger] b[i].ok(k, w)
}
/// only end k of bundle i was used
pub open spec fn used<B: Ports>(a: Seq<B>, b: Seq<B>, i: int, k: int) -> bool {
    &&& b.len() == a.len() && 0 <= i < a.len() && 0 <= k < 4
    &&& forall|j: int| 0 <= j < a.len() && j != i ==> #[trigger] b[j] == a[j]
    &&& forall|l: int| 0 <= l < 4 ==> (#[trigger] b[i].port(l)) == a[i].port(l)
    &&& forall|l: int, u: WV| 0 <= l < 4 && l != k ==> (#[trigger] b[i].ok(l, u)) == a[i].ok(l, u)
    &&& forall|l: int, u: WV| 0 <= l < 4 && l != k ==> (#[trigger] b[i].n(l, u)) == a[i].n(l, u)
}
pub proof fn lemma_use<B: Ports>(b0: Seq<B>, a: Seq<B>, b: Seq<B>, x: int, i: int, k: int, w: WV, v: WV, s: int, r: int)
    requires b_ok(b0, a, w), separate(b0, x), used(a, b, i, k), io_step(w, v, s, r), free(v),
        s == -1 || s == skey(b0[i].port(k)), r == -1 || r == rkey(b0[i].port(k)), b[i].ok(k, v)
    ensures b_ok(b0, b, v),
        forall|j: int, l: int| 0 <= j < b.len() && 0 <= l < 4 && (j != i || l != k) ==> (#[trigger] b[j].n(l, v)) == a[j].n(l, w),
{
    assert forall|j: int, l: int| 0 <= j < b.len() && 0 <= l < 4 implies (#[trigger] b[j].port(l)) == b0[j].port(l) by { assert(a[j].port(l) == b0[j].port(l)); }
    assert forall|j: int, l: int| 0 <= j < b.len() && 0 <= l < 4 && (j != i || l != k) implies #[trigger] b[j].ok(l, v) && b[j].n(l, v) == a[j].n(l, w) by {
        assert(clear(b0[j].port(l), b0[i].port(k)));
        assert(a[j].port(l) == b0[j].port(l));
        assert(a[j].ok(l, w));
        assert(unused(a[j].port(l), w, v));
        a[j].kept(l, w, v);
        if j == i { assert(b[i].ok(l, v) == a[i].ok(l, v)); assert(b[i].n(l, v) == a[i].n(l, v)); } else { assert(b[j] == a[j]); }
    }
    assert forall|j: int, l: int| 0 <= j < b.len() && 0 <= l < 4 && (j != i || l != k) implies (#[trigger] b[j].n(l, v)) == a[j].n(l, w) by { assert(b[j].ok(l, v)); }
}
/// nothing of the bundles was used
pub proof fn lemma_still<B: Ports>(b0: Seq<B>, b: Seq<B>, x: int, w: WV, v: WV, s: int)
    requires b_ok(b0, b, w), separate(b0, x), io_step(w, v, s, -1), free(v), s < 0 || s == x
    ensures b_ok(b0, b, v), forall|j: int, l: int| 0 <= j < b.len() && 0 <= l < 4 ==> (#[trigger] b[j].n(l, v)) == b[j].n(l, w),
{
    assert forall|j: int, l: int| 0 <= j < b.len() && 0 <= l < 4 implies #[trigger] b[j].ok(l, v) && b[j].n(l, v) == b[j].n(l, w) by {
        assert(b[j].port(l) == b0[j].port(l));
        assert(b[j].ok(l, w));
        b[j].kept(l, w, v);
    }
    assert forall|j: int, l: int| 0 <= j < b.len() && 0 <= l < 4 implies (#[trigger] b[j].n(l, v)) == b[j].n(l, w) by { assert(b[j].ok(l, v)); }
}
/// what was done so far: at which time, items per channel end, writes to the store
pub struct St { pub clk: int, pub n: spec_fn(int, int) -> int, pub k: int }
pub open spec fn agree<B: Ports>(b: Seq<B>, s: St, w: WV) -> bool {
    forall|i: int, k: int| 0 <= i < b.len() && 0 <= k < 4 ==> (#[trigger] b[i].n(k, w)) == (s.n)(i, k)
}
/// the time of item d of a channel, INF if there is none
pub open spec fn due(ch: int, d: int) -> int { if d < total(ch) { hstamp(ch, d) } else { INF } }
/// the earliest, and the first of those
pub open spec fn first_min(f: spec_fn(int) -> int, len: int, i: int) -> bool {
    0 <= i < len && f(i) < INF && (forall|j: int| 0 <= j < i ==> #[trigger] f(j) > f(i)) && (forall|j: int| i <= j < len ==> #[trigger] f(j) >= f(i))
}
/// the answer to "when is the next request" bounds it from below, and is exact when it is ready
pub open spec fn tells(e: EventTime, due: int) -> bool { ev_sane(e) && ekey(e) <= due && (e is Ready ==> ekey(e) == due) && (e is Closed ==> due == INF) }
pub proof fn lemma_tells(e: EventTime, ch: int, d: int, now: int)
    requires next_of(e, ch, d, now), ev_sane(e), 0 <= d
    ensures tells(e, due(ch, d))
{ if d < total(ch) { assert(hstamp(ch, d) < HORIZON); } }
/// both requests
pub proof fn lemma_tells_all(ts: Seq<EventTime>, ds: Seq<int>, r: EventTime)
    requires all_post(ts, r), ev_sane(r), ts.len() == ds.len(), ts.len() > 0, forall|i: int| 0 <= i < ts.len() ==> tells(#[trigger] ts[i], ds[i]), forall|i: int| 0 <= i < ds.len() ==> #[trigger] ds[i] <= INF,
    ensures tells(r, smax(ds))
    decreases ts.len()
{
    lemma_smax(ds);
    if exists|i: int| 0 <= i < ts.len() && #[trigger] ts[i] is Closed {
        let i = choose|i: int| 0 <= i < ts.len() && #[trigger] ts[i] is Closed;
        assert(tells(ts[i], ds[i]));
        assert(ds[i] <= smax(ds));
        assert(r is Closed);
    }
    let m = choose|i: int| 0 <= i < ts.len() && ekey(r) == ekey(#[trigger] ts[i]);
    assert(tells(ts[m], ds[m]) && ds[m] <= smax(ds));
    if r is Ready {
        let j = choose|j: int| 0 <= j < ds.len() && #[trigger] ds[j] == smax(ds);
        assert(ts[j] is Ready && tells(ts[j], ds[j]));
        assert(ekey(r) >= ekey(ts[j]));
    }
}
impl Peekable for EventTime {
    open spec fn may(self, w: WV) -> bool { ev_sane(self) }
    open spec fn ev(self, w: WV, v: WV, r: EventTime) -> bool { v == w && r == self }
    fn next_event(self, vw: &mut World) -> (r: EventTime) { EventTime::next_event(self) }
}
/// asking events changes nothing
pub broadcast proof fn lemma_asked(ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>)
    requires #[trigger] asked(ts, ws, rs), rs.len() == ts.len()
    ensures ws.last() == ws[0], rs == ts
{
    assert forall|i: int| 0 <= i < ws.len() implies #[trigger] ws[i] == ws[0] by { asked_to(ts, ws, rs, i); }
    assert forall|i: int| 0 <= i < rs.len() implies rs[i] == ts[i] by { let w = ws[i + 1]; assert(ts[i].ev(ws[i], ws[i + 1], rs[i])); }
    assert(rs =~= ts);
}
proof fn asked_to(ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>, i: int)
    requires asked(ts, ws, rs), 0 <= i < ws.len()
    ensures ws[i] == ws[0]
    decreases i
{ if i > 0 { asked_to(ts, ws, rs, i - 1); let k = i - 1; assert(ts[k].ev(ws[k], ws[k + 1], rs[k])); } }
pub open spec fn smax(ds: Seq<int>) -> int decreases ds.len() { if ds.len() == 0 { 0 } else if ds.len() == 1 { ds[0] } else { imax(smax(ds.drop_last()), ds.last()) } }
pub proof fn lemma_smax(ds: Seq<int>)
    requires ds.len() > 0
    ensures forall|i: int| 0 <= i < ds.len() ==> #[trigger] ds[i] <= smax(ds), exists|i: int| 0 <= i < ds.len() && #[trigger] ds[i] == smax(ds)
    decreases ds.len()
{
    if ds.len() == 1 { assert(ds[0] == smax(ds)); } else {
        lemma_smax(ds.drop_last());
        let p = ds.drop_last();
        assert forall|i: int| 0 <= i < ds.len() implies #[trigger] ds[i] <= smax(ds) by { if i < p.len() { assert(p[i] == ds[i]); } }
        if smax(p) >= ds.last() { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == smax(p); assert(ds[i] == smax(ds)); } else { assert(ds[ds.len() - 1] == smax(ds)); }
    }
}
/// where the first of the least elements is
pub open spec fn argmin(v: Seq<EventTime>, m: int) -> bool {
    0 <= m < v.len() && (forall|i: int| 0 <= i < m ==> e_cmp(#[trigger] v[i], v[m]) == Ordering::Greater)
        && forall|i: int| m <= i < v.len() ==> e_cmp(#[trigger] v[i], v[m]) != Ordering::Less
}
/// Iterator::min_by_key (std, in terms of `Ord::cmp`)
#[verifier::external_body]
pub fn lib_argmin(v: &Vec<EventTime>) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < v.len() ==> ev_ok(#[trigger] v@[i])
    ensures
        r is None <==> v.len() == 0,
        r matches Some(m) ==> m < v.len() && argmin(v@, m as int),
{ unimplemented!() }
/// what is known about the requests to be served: the answers of n of them
pub open spec fn knows(ts: Seq<EventTime>, f: spec_fn(int) -> int, n: int) -> bool {
    ts.len() == n && forall|i: int| 0 <= i < n ==> tells(#[trigger] ts[i], f(i))
}
pub proof fn lemma_knows(ts: Seq<EventTime>, e: EventTime, f: spec_fn(int) -> int, n: int)
    requires knows(ts, f, n), n >= 0, tells(e, f(n))
    ensures knows(ts.push(e), f, n + 1)
{}
/// the least answer, when it says ready, is that of the earliest request
pub broadcast proof fn lemma_pick(ts: Seq<EventTime>, f: spec_fn(int) -> int, n: int, m: int)
    requires #[trigger] knows(ts, f, n), #[trigger] argmin(ts, m)
    ensures
        tells(ts[m], f(m)),
        ts[m] is Ready ==> first_min(f, n, m) && tk(ts[m]->Ready_0) == f(m),
        ts[m] is Nothing ==> forall|i: int| 0 <= i < n ==> #[trigger] f(i) >= tk(ts[m]->Nothing_0) + 1,
        ts[m] is Closed ==> forall|i: int| 0 <= i < n ==> #[trigger] f(i) >= INF,
{
    assert(tells(ts[m], f(m)));
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] f(i) >= ekey(ts[m]) && (i < m ==> f(i) > ekey(ts[m])) by { assert(tells(ts[i], f(i))); }
}
/// two of the earliest are the same
pub proof fn lemma_one(f: spec_fn(int) -> int, n: int, i: int, j: int)
    requires first_min(f, n, i), first_min(f, n, j)
    ensures i == j
{ if i < j { assert(f(i) > f(j)); } else if j < i { assert(f(j) > f(i)); } }
// ---------------------------------------------------------------- the ends of a bundle stay in order
pub broadcast proof fn s_step<T: DAMType>(s: Sender<T>, w: WV, v: WV)
    requires #[trigger] s_port(s, w), #[trigger] step(w, v), free(v)
    ensures s_port(s, v), s_n(s, v) == s_n(s, w)
{ lemma_sport(&s, w, v); }
pub broadcast proof fn r_step<T: DAMType>(r: Receiver<T>, w: WV, v: WV)
    requires #[trigger] r_port(r, w), #[trigger] step(w, v), free(v)
    ensures r_port(r, v), r.deq(v) == r.deq(w)
{ lemma_rport(&r, w, v); }
pub broadcast proof fn s_deq<T: DAMType, U>(s: Sender<T>, w: WV, v: WV, p: RS, d0: int, d1: int, x: Result<ChannelElement<U>, DequeueError>)
    requires #[trigger] s_port(s, w), #[trigger] deq_ok(p, w, v, d0, d1, x), free(v), clear(Port::In(p), Port::Out(s.st()))
    ensures s_port(s, v), s_n(s, v) == s_n(s, w)
{ lemma_sport(&s, w, v); }
pub broadcast proof fn r_deq<T: DAMType, U>(r: Receiver<T>, w: WV, v: WV, p: RS, d0: int, d1: int, x: Result<ChannelElement<U>, DequeueError>)
    requires #[trigger] r_port(r, w), #[trigger] deq_ok(p, w, v, d0, d1, x), free(v), clear(Port::In(p), Port::In(r.st()))
    ensures r_port(r, v), r.deq(v) == r.deq(w)
{ lemma_rport(&r, w, v); }
pub broadcast proof fn r_ask<T: DAMType>(r: Receiver<T>, w: WV, v: WV, s: int, c: int)
    requires #[trigger] r_port(r, w), #[trigger] io_sync(w, v, s, c), free(v), s == -1, c != r.st().ch
    ensures r_port(r, v), r.deq(v) == r.deq(w)
{ lemma_rport(&r, w, v); }
pub broadcast proof fn s_put<T: DAMType>(s: Sender<T>, w: WV, x: int)
    requires #[trigger] s_port(s, w), free(w), skey(Port::Out(s.st())) != x || !s.st().live
    ensures s_port(s, #[trigger] sent1(w, x)), s_n(s, sent1(w, x)) == s_n(s, w)
{ lemma_sport(&s, w, sent1(w, x)); }
/// the bundles stay in order
pub broadcast proof fn b_step<B: Ports>(b0: Seq<B>, b: Seq<B>, x: int, w: WV, v: WV)
    requires #[trigger] b_ok(b0, b, w), #[trigger] separate(b0, x), #[trigger] step(w, v), free(v)
    ensures b_ok(b0, b, v), forall|j: int, l: int| 0 <= j < b.len() && 0 <= l < 4 ==> (#[trigger] b[j].n(l, v)) == b[j].n(l, w),
{ lemma_still(b0, b, x, w, v, -1); }
/// events of an array
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ArrIter<T> { x: Vec<T> }
impl<T> VxIter<T> for ArrIter<T> {
    uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    fn vx_next(&mut self, vw: &mut World) -> (r: Option<T>) { unimplemented!() }
}
pub trait VxAll<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn all_events(self) -> (r: EventAll<ArrIter<T>>) ensures r.under.rest() == self.items();
}
impl<const N: usize> VxAll<EventTime> for [EventTime; N] {
    open spec fn items(&self) -> Seq<EventTime> { self@ }
    #[verifier::external_body]
    fn all_events(self) -> EventAll<ArrIter<EventTime>> { unimplemented!() }
}
/// when item n may be sent, at t or later
pub open spec fn gate(q: SS, n: int, t: int) -> int {
    if q.live && q.cap is Some && n >= q.cap->Some_0 { imax(t, hstamp(q.resp, n - q.cap->Some_0)) } else { t }
}
} // mod ports
