//% raw
// ================================================================ next events of channels and of collections
pub mod events {
use super::*;
use super::recv::*;
use super::rflav::*;
use super::handle::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
//% file src/channel/utils.rs
//% enum EventTime noderive
//% raw
impl Clone for EventTime { fn clone(&self) -> (r: Self) ensures r == *self { match self { EventTime::Ready(t) => EventTime::Ready(*t), EventTime::Nothing(t) => EventTime::Nothing(*t), EventTime::Closed => EventTime::Closed } } }
impl Copy for EventTime {}
/// when the event can first happen
pub open spec fn ekey(e: EventTime) -> int {
    match e { EventTime::Ready(t) => tk(t), EventTime::Nothing(t) => if t.done { INF } else { tk(t) + 1 }, EventTime::Closed => INF }
}
/// events whose times are within the horizon; an infinite time needs no `Nothing`
pub open spec fn ev_ok(e: EventTime) -> bool {
    match e { EventTime::Ready(t) => t.time <= HORIZON, EventTime::Nothing(t) => t.time < HORIZON && !t.done, EventTime::Closed => true }
}
pub open spec fn e_cmp(a: EventTime, b: EventTime) -> Ordering {
    if ekey(a) < ekey(b) { Ordering::Less } else if ekey(a) > ekey(b) { Ordering::Greater } else { Ordering::Equal }
}
/// the event of both having happened
pub open spec fn both_post(a: EventTime, b: EventTime, r: EventTime) -> bool {
    match (a, b) {
        (EventTime::Ready(_), EventTime::Ready(_)) => r is Ready && ekey(r) == imax(ekey(a), ekey(b)),
        (EventTime::Closed, _) => r is Closed,
        (_, EventTime::Closed) => r is Closed,
        _ => r is Nothing && ekey(r) == imax(ekey(a), ekey(b)),
    }
}
//% impl EventTime => impl EventTime
//% fn key ret=r
    requires ev_ok(*self)
    ensures tk(r) == ekey(*self), !r.done ==> r.time <= HORIZON,
//% fn both ret=r params=other
    requires ev_ok(self), ev_ok(other), self is Ready ==> tk(self->Ready_0) < INF, other is Ready ==> tk(other->Ready_0) < INF
    ensures both_post(self, other, r), ev_ok(r), r is Ready ==> tk(r->Ready_0) < INF
//% end
//% impl Ord for EventTime => impl EventTime
//% fn cmp ret=r params=other
    requires ev_ok(*self), ev_ok(*other)
    ensures r == e_cmp(*self, *other),
//% end
//% impl PartialOrd for EventTime => impl EventTime
//% fn partial_cmp ret=r params=other
    requires ev_ok(*self), ev_ok(*other)
    ensures r == Some(e_cmp(*self, *other)),
//% end
//% raw
/// never is last, infinity included; before it the keys decide
pub proof fn event_order(a: EventTime, b: EventTime, c: EventTime)
    ensures
        e_cmp(a, a) == Ordering::Equal,
        (e_cmp(a, b) == Ordering::Less) == (e_cmp(b, a) == Ordering::Greater),
        e_cmp(a, b) == Ordering::Less && e_cmp(b, c) == Ordering::Less ==> e_cmp(a, c) == Ordering::Less,
        e_cmp(a, b) == Ordering::Equal && e_cmp(b, c) == Ordering::Equal ==> e_cmp(a, c) == Ordering::Equal,
        e_cmp(EventTime::Closed, a) != Ordering::Less,
        a is Ready && b is Nothing && !b->Nothing_0.done && tk(a->Ready_0) <= tk(b->Nothing_0) ==> e_cmp(a, b) == Ordering::Less,
{}
/// Iterator::min (std, in terms of `Ord::cmp`): the first of the least elements
#[verifier::external_body]
pub fn lib_min(v: &Vec<EventTime>) -> (r: Option<EventTime>)
    requires forall|i: int| 0 <= i < v.len() ==> ev_ok(#[trigger] v@[i])
    ensures
        r is None <==> v.len() == 0,
        r matches Some(m) ==> v@.contains(m) && forall|i: int| 0 <= i < v.len() ==> e_cmp(m, #[trigger] v@[i]) != Ordering::Greater,
{ unimplemented!() }
/// an iterator whose own steps have no effect on channels or clocks
pub trait VxIter<T>: Sized {
    spec fn rest(&self) -> Seq<T>;
    fn vx_next(&mut self, vw: &mut World) -> (r: Option<T>)
        ensures final(vw)@ == old(vw)@,
            r is None ==> old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            r matches Some(x) ==> old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int);
}
//% effects vx_next next_event
//% trait Peekable => pub trait Peekable: Sized
//% raw
    /// may be asked in world w
    spec fn may(self, w: WV) -> bool;
    /// answers r, moving the world from w to v
    spec fn ev(self, w: WV, v: WV, r: EventTime) -> bool;
//% fn next_event world ret=r
    requires self.may(old(vw)@)
    ensures self.ev(old(vw)@, final(vw)@, r), ev_sane(r),
//% end
//% raw
pub open spec fn ev_sane(r: EventTime) -> bool { ev_ok(r) && (r is Ready ==> tk(r->Ready_0) < INF) }
//% impl Peekable for EventTime => impl EventTime
//% fn next_event noworld=next_event ret=r
    ensures r == self,
//% end
//% impl Peekable for &Receiver<T> => impl<T: DAMType> Receiver<T>
//% fn next_event ret=r
//% sig
    pub fn next_event(&mut self, vw: &mut World) -> (r: EventTime)
    requires old(self).inv(old(vw)@)
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).deq(final(vw)@) == old(self).deq(old(vw)@),
        io_sync(old(vw)@, final(vw)@, -1, old(self).st().ch), final(vw)@.sent == old(vw)@.sent, ev_sane(r),
        next_of(r, old(self).st().ch, old(self).deq(old(vw)@), clock(old(vw)@)),
//% end
//% raw
/// what an event says about channel ch after d dequeues: the time of the next element, a bound below which none comes,
/// or that there is none
pub open spec fn next_of(r: EventTime, ch: int, d: int, now: int) -> bool {
    match r {
        EventTime::Ready(t) => d < total(ch) && tk(t) == hstamp(ch, d),
        EventTime::Nothing(t) => tk(t) >= now && later(ch, d, tk(t)),
        EventTime::Closed => total(ch) == d,
    }
}
/// the members were asked one after the other, ws being the worlds in between, rs their answers
pub open spec fn asked<T: Peekable>(ts: Seq<T>, ws: Seq<WV>, rs: Seq<EventTime>) -> bool {
    &&& ws.len() == rs.len() + 1 && rs.len() <= ts.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> #[trigger] ts[i].ev(ws[i], ws[i + 1], rs[i])
    &&& forall|i: int| 0 <= i < rs.len() ==> ev_sane(#[trigger] rs[i])
}
pub open spec fn mays<T: Peekable>(ts: Seq<T>) -> bool {
    forall|i: int, w: WV| 0 <= i < ts.len() ==> #[trigger] ts[i].may(w)
}
/// ready exactly when all are, then at the latest time; never if one is never (or there is none); else no earlier than
/// the latest of the bounds
pub open spec fn all_post(rs: Seq<EventTime>, r: EventTime) -> bool {
    &&& (r is Ready) == (rs.len() > 0 && forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs[i] is Ready)
    &&& (r is Closed) == (rs.len() == 0 || exists|i: int| 0 <= i < rs.len() && #[trigger] rs[i] is Closed)
    &&& forall|i: int| 0 <= i < rs.len() ==> ekey(r) >= ekey(#[trigger] rs[i])
    &&& rs.len() > 0 ==> exists|i: int| 0 <= i < rs.len() && ekey(r) == ekey(#[trigger] rs[i])
}
/// the earliest
pub open spec fn any_post(rs: Seq<EventTime>, r: EventTime) -> bool {
    if rs.len() == 0 { r is Closed } else { rs.contains(r) && forall|i: int| 0 <= i < rs.len() ==> e_cmp(r, #[trigger] rs[i]) != Ordering::Greater }
}
//% raw
pub proof fn lemma_all_push(rs: Seq<EventTime>, a: EventTime, x: EventTime, r: EventTime)
    requires all_post(rs, a), rs.len() > 0, both_post(a, x, r)
    ensures all_post(rs.push(x), r)
{
    let n = rs.push(x);
    assert(n[rs.len() as int] == x);
    assert forall|i: int| 0 <= i < rs.len() implies n[i] == rs[i] by {}
    if exists|i: int| 0 <= i < rs.len() && #[trigger] rs[i] is Closed {
        let i = choose|i: int| 0 <= i < rs.len() && #[trigger] rs[i] is Closed;
        assert(n[i] is Closed);
    }
    let j = choose|i: int| 0 <= i < rs.len() && ekey(a) == ekey(#[trigger] rs[i]);
    assert(ekey(n[j]) == ekey(a));
    assert forall|i: int| 0 <= i < n.len() implies ekey(r) >= ekey(#[trigger] n[i]) by { if i < rs.len() { assert(ekey(a) >= ekey(rs[i])); } }
}
//% struct EventAll noderive
//% impl Peekable for EventAll => impl<It> EventAll<It>
//% fn next_event world
//% sig
    pub fn next_event<T: Peekable>(self, vw: &mut World) -> (r: EventTime) where It: VxIter<T>
    requires mays(self.under.rest())
    ensures exists|ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(self.under.rest(), ws, rs) && rs.len() == self.under.rest().len()
        && ws[0] == old(vw)@ && ws.last() == final(vw)@ && all_post(rs, r),
        ev_sane(r),
//% proof start
    let ghost mut ws = seq![vw@];
    let ghost mut rs: Seq<EventTime> = Seq::empty();
    let ghost ts = self.under.rest();
    let ghost w0 = vw@;
//% loop 0
    invariant_except_break
        vx_b0.rest() =~= ts.subrange(rs.len() as int, ts.len() as int),
    invariant
        mays(ts), asked(ts, ws, rs), ws[0] == w0, ws.last() == vw@, ts == self.under.rest(), w0 == old(vw)@,
        vx_v0 is None <==> rs.len() == 0, vx_v0 matches Some(e) ==> all_post(rs, e) && ev_sane(e),
    ensures rs.len() == ts.len()
    decreases vx_b0.rest().len()
//% proof loop 0 start
    let ghost acc = vx_v0;
//% proof loop 0 end
    proof {
        if acc is Some { lemma_all_push(rs, acc->Some_0, vx_r0, vx_v0->Some_0); } else { assert(seq![vx_r0][0] == vx_r0); assert(rs.push(vx_r0) =~= seq![vx_r0]); }
        rs = rs.push(vx_r0); ws = ws.push(vw@);
    }
//% end
//% struct EventAny noderive
//% impl Peekable for EventAny => impl<It> EventAny<It>
//% fn next_event world
//% sig
    pub fn next_event<T: Peekable>(self, vw: &mut World) -> (r: EventTime) where It: VxIter<T>
    requires mays(self.under.rest())
    ensures exists|ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(self.under.rest(), ws, rs) && rs.len() == self.under.rest().len()
        && ws[0] == old(vw)@ && ws.last() == final(vw)@ && any_post(rs, r),
        ev_sane(r),
//% proof start
    let ghost mut ws = seq![vw@];
    let ghost ts = self.under.rest();
    let ghost w0 = vw@;
//% loop 0
    invariant_except_break
        vx_b0.rest() =~= ts.subrange(vx_v0@.len() as int, ts.len() as int),
    invariant
        mays(ts), asked(ts, ws, vx_v0@), ws[0] == w0, ws.last() == vw@, ts == self.under.rest(), w0 == old(vw)@,
    ensures vx_v0@.len() == ts.len()
    decreases vx_b0.rest().len()
//% proof loop 0 end
    proof { ws = ws.push(vw@); }
//% end
//% raw
} // mod events
