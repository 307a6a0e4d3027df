//% raw
// ================================================================ DRAM banks
global size_of usize == 8;
pub mod dram {
use super::*;
use super::recv::*;
use super::send::*;
use super::rflav::*;
use super::sflav::*;
use super::handle::*;
use super::events::*;
use super::frame::*;
use super::ports::*;
use super::store::{StoreElement, Behavior, Datastore, gives, is_last, none_yet, may_refuse, hist as log, place, lawful, later as fresh, wf as store_wf};
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp, ends};
pub broadcast group ends { ports::lemma_pick, ports::lemma_asked, ports::s_step, ports::r_step, ports::s_deq, ports::r_deq, ports::r_ask, ports::s_put }
impl PartialEqSpecImpl for EventTime {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool {
        match (*self, *o) { (EventTime::Ready(a), EventTime::Ready(b)) => tk(a) == tk(b), (EventTime::Nothing(a), EventTime::Nothing(b)) => tk(a) == tk(b), (EventTime::Closed, EventTime::Closed) => true, _ => false }
    }
}
/// the derived comparison
impl PartialEq for EventTime {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) { (EventTime::Ready(a), EventTime::Ready(b)) => *a == *b, (EventTime::Nothing(a), EventTime::Nothing(b)) => *a == *b, (EventTime::Closed, EventTime::Closed) => true, _ => false }
    }
}
/// std::collections::VecDeque
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { x: Vec<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@,
            r matches Some(x) ==> old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@,
            r matches Some(x) ==> old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures r is None ==> self@.len() == 0, r matches Some(x) ==> self@.len() > 0 && *x == self@[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>) ensures r is None ==> self@.len() == 0, r matches Some(x) ==> self@.len() > 0 && *x == self@.last() { unimplemented!() }
}
/// Option::copied
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
/// the derived default of a time
impl Default for Time { fn default() -> (r: Self) ensures tk(r) == 0, r == (Time { time: 0, done: false }) { Time { time: 0, done: false } } }
pub open spec fn total_of(v: Seq<usize>) -> int decreases v.len() { if v.len() == 0 { 0 } else { total_of(v.drop_last()) + v.last() } }
/// Iterator::sum
#[verifier::external_body]
pub fn lib_sum(v: &Vec<usize>) -> (r: usize) requires total_of(v@) <= usize::MAX ensures r == total_of(v@) { unimplemented!() }
/// u64::try_from
#[verifier::external_body]
pub fn vx_u64(x: usize) -> (r: Result<u64, ()>) ensures r == Ok::<u64, ()>(x as u64) { unimplemented!() }
//% pathmap AT::default => AT::vx_default
//% pathmap u64::try_from => vx_u64
//% shims dam_size to_usize push_back pop_front pop_back push_front is_empty clear front back copied unwrap_or_default with_capacity vx_default write read all_events vx_u64
//% file src/datastructures/mod.rs
//% struct ContextInfo noderive
//% file src/templates/dram.rs
//% struct DRAMConfig noderive
//% struct DRAMReadBundle noderive bound=DAMType
//% struct DRAMWriteBundle noderive bound=DAMType
//% enum AccessBundle noderive bound=DAMType
//% struct DRAM noderive bound=DAMType
//% raw
impl<IT: DAMType, DT: DAMType> Ports for DRAMReadBundle<IT, DT> {
    open spec fn port(&self, k: int) -> Port { if k == 0 { Port::In(self.addr.st()) } else if k == 1 { Port::In(self.req_size.st()) } else if k == 2 { Port::Out(self.data.st()) } else { Port::No } }
    open spec fn ok(&self, k: int, w: WV) -> bool { if k == 0 { r_port(self.addr, w) } else if k == 1 { r_port(self.req_size, w) } else if k == 2 { s_port(self.data, w) } else { true } }
    open spec fn n(&self, k: int, w: WV) -> int { if k == 0 { self.addr.deq(w) } else if k == 1 { self.req_size.deq(w) } else if k == 2 { s_n(self.data, w) } else { 0 } }
    proof fn kept(&self, k: int, w: WV, v: WV) { if k == 0 { lemma_rport(&self.addr, w, v); } else if k == 1 { lemma_rport(&self.req_size, w, v); } else if k == 2 { lemma_sport(&self.data, w, v); } }
}
impl<IT: DAMType, DT: DAMType, AT: DAMType> Ports for DRAMWriteBundle<IT, DT, AT> {
    open spec fn port(&self, k: int) -> Port { if k == 0 { Port::In(self.addr.st()) } else if k == 1 { Port::In(self.request_size.st()) } else if k == 2 { Port::In(self.data.st()) } else if k == 3 { Port::Out(self.ack.st()) } else { Port::No } }
    open spec fn ok(&self, k: int, w: WV) -> bool { if k == 0 { r_port(self.addr, w) } else if k == 1 { r_port(self.request_size, w) } else if k == 2 { r_port(self.data, w) } else if k == 3 { s_port(self.ack, w) } else { true } }
    open spec fn n(&self, k: int, w: WV) -> int { if k == 0 { self.addr.deq(w) } else if k == 1 { self.request_size.deq(w) } else if k == 2 { self.data.deq(w) } else if k == 3 { s_n(self.ack, w) } else { 0 } }
    proof fn kept(&self, k: int, w: WV, v: WV) { if k == 0 { lemma_rport(&self.addr, w, v); } else if k == 1 { lemma_rport(&self.request_size, w, v); } else if k == 2 { lemma_rport(&self.data, w, v); } else if k == 3 { lemma_sport(&self.ack, w, v); } }
}
impl<IT: DAMType, DT: DAMType, AT: DAMType> Ports for AccessBundle<IT, DT, AT> {
    open spec fn port(&self, k: int) -> Port { match self { AccessBundle::Write(p) => p.port(k), AccessBundle::Read(p) => p.port(k) } }
    open spec fn ok(&self, k: int, w: WV) -> bool { match self { AccessBundle::Write(p) => p.ok(k, w), AccessBundle::Read(p) => p.ok(k, w) } }
    open spec fn n(&self, k: int, w: WV) -> int { match self { AccessBundle::Write(p) => p.n(k, w), AccessBundle::Read(p) => p.n(k, w) } }
    proof fn kept(&self, k: int, w: WV, v: WV) { match self { AccessBundle::Write(p) => p.kept(k, w, v), AccessBundle::Read(p) => p.kept(k, w, v) } }
}
/// a bundle in order
pub open spec fn sound<B: Ports>(b: B, w: WV) -> bool {
    &&& forall|k: int| 0 <= k < 4 ==> #[trigger] b.ok(k, w)
    &&& forall|k: int, l: int| 0 <= k < 4 && 0 <= l < 4 && k != l ==> #[trigger] clear(b.port(k), b.port(l))
}
pub open spec fn r_sound<IT: DAMType, DT: DAMType>(b: DRAMReadBundle<IT, DT>, w: WV) -> bool {
    &&& r_port(b.addr, w) && r_port(b.req_size, w) && s_port(b.data, w)
    &&& clear(Port::In(b.addr.st()), Port::In(b.req_size.st())) && clear(Port::In(b.addr.st()), Port::Out(b.data.st())) && clear(Port::In(b.req_size.st()), Port::Out(b.data.st()))
}
pub open spec fn w_sound<IT: DAMType, DT: DAMType, AT: DAMType>(b: DRAMWriteBundle<IT, DT, AT>, w: WV) -> bool {
    &&& r_port(b.addr, w) && r_port(b.request_size, w) && r_port(b.data, w) && s_port(b.ack, w)
    &&& clear(Port::In(b.addr.st()), Port::In(b.request_size.st())) && clear(Port::In(b.addr.st()), Port::In(b.data.st())) && clear(Port::In(b.addr.st()), Port::Out(b.ack.st()))
    &&& clear(Port::In(b.request_size.st()), Port::In(b.data.st())) && clear(Port::In(b.request_size.st()), Port::Out(b.ack.st())) && clear(Port::In(b.data.st()), Port::Out(b.ack.st()))
}
pub open spec fn b_sound<IT: DAMType, DT: DAMType, AT: DAMType>(b: AccessBundle<IT, DT, AT>, w: WV) -> bool {
    match b { AccessBundle::Write(p) => w_sound(p, w), AccessBundle::Read(p) => r_sound(p, w) }
}
/// a receiver was asked
pub open spec fn q_in<T: DAMType>(a: Receiver<T>, b: Receiver<T>, w: WV, v: WV) -> bool { b.st() == a.st() && r_port(b, v) && b.deq(v) == a.deq(w) }
pub open spec fn q_world(w: WV, v: WV, x: int, y: int, z: int) -> bool {
    &&& v.me == w.me && v.thr == w.thr && v.sent == w.sent && grow(w, v) && (v.dirty ==> w.dirty) && free(v) && v.seen[w.me] == w.seen[w.me]
    &&& forall|c: int| #[trigger] v.rcvd[c] == w.rcvd[c] || c == x || c == y || c == z
}
pub open spec fn r_queried<IT: DAMType, DT: DAMType>(a: DRAMReadBundle<IT, DT>, b: DRAMReadBundle<IT, DT>, w: WV, v: WV, r: EventTime) -> bool {
    &&& r_sound(b, v) && q_in(a.addr, b.addr, w, v) && q_in(a.req_size, b.req_size, w, v) && b.data == a.data && s_n(b.data, v) == s_n(a.data, w)
    &&& q_world(w, v, a.addr.st().ch, a.req_size.st().ch, a.addr.st().ch) && ev_sane(r)
    &&& exists|ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(ts, ws, rs) && rs.len() == ts.len() && all_post(rs, r)
        && of2(ts, a.addr.st().ch, a.addr.deq(w), a.req_size.st().ch, a.req_size.deq(w), clock(w))
}
pub open spec fn w_queried<IT: DAMType, DT: DAMType, AT: DAMType>(a: DRAMWriteBundle<IT, DT, AT>, b: DRAMWriteBundle<IT, DT, AT>, w: WV, v: WV, r: EventTime) -> bool {
    &&& w_sound(b, v) && q_in(a.addr, b.addr, w, v) && q_in(a.request_size, b.request_size, w, v) && q_in(a.data, b.data, w, v) && b.ack == a.ack && s_n(b.ack, v) == s_n(a.ack, w)
    &&& q_world(w, v, a.addr.st().ch, a.request_size.st().ch, a.data.st().ch) && ev_sane(r)
    &&& exists|ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(ts, ws, rs) && rs.len() == ts.len() && all_post(rs, r)
        && of3(ts, a.addr.st().ch, a.addr.deq(w), a.request_size.st().ch, a.request_size.deq(w), a.data.st().ch, a.data.deq(w), clock(w))
}
pub open spec fn b_queried<IT: DAMType, DT: DAMType, AT: DAMType>(a: AccessBundle<IT, DT, AT>, b: AccessBundle<IT, DT, AT>, w: WV, v: WV, r: EventTime) -> bool {
    match (a, b) { (AccessBundle::Write(p), AccessBundle::Write(q)) => w_queried(p, q, w, v, r), (AccessBundle::Read(p), AccessBundle::Read(q)) => r_queried(p, q, w, v, r), _ => false }
}
pub open spec fn about(e: EventTime, ch: int, d: int, now: int) -> bool { next_of(e, ch, d, now) && ev_sane(e) }
/// the answers, in either order
pub open spec fn of2(ts: Seq<EventTime>, c0: int, d0: int, c1: int, d1: int, now: int) -> bool { ts.len() == 2 && about(ts[0], c0, d0, now) && about(ts[1], c1, d1, now) }
pub open spec fn of3(ts: Seq<EventTime>, c0: int, d0: int, c1: int, d1: int, c2: int, d2: int, now: int) -> bool {
    ts.len() == 3 && about(ts[0], c0, d0, now) && about(ts[1], c2, d2, now) && about(ts[2], c1, d1, now)
}
pub proof fn lemma_of2(r: EventTime, c0: int, d0: int, c1: int, d1: int, now: int)
    requires ev_sane(r), 0 <= d0, 0 <= d1,
        exists|ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(ts, ws, rs) && rs.len() == ts.len() && all_post(rs, r) && of2(ts, c0, d0, c1, d1, now)
    ensures tells(r, imax(due(c0, d0), due(c1, d1)))
{
    let (ts, ws, rs) = choose|ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(ts, ws, rs) && rs.len() == ts.len() && all_post(rs, r) && of2(ts, c0, d0, c1, d1, now);
    let ds = seq![due(c0, d0), due(c1, d1)];
    lemma_tells(ts[0], c0, d0, now);
    lemma_tells(ts[1], c1, d1, now);
    assert(ds.drop_last() =~= seq![due(c0, d0)]);
    assert(smax(ds) == imax(smax(ds.drop_last()), ds.last()));
    lemma_tells_all(rs, ds, r);
}
pub proof fn lemma_of3(r: EventTime, c0: int, d0: int, c1: int, d1: int, c2: int, d2: int, now: int)
    requires ev_sane(r), 0 <= d0, 0 <= d1, 0 <= d2,
        exists|ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(ts, ws, rs) && rs.len() == ts.len() && all_post(rs, r) && of3(ts, c0, d0, c1, d1, c2, d2, now)
    ensures tells(r, imax(due(c0, d0), imax(due(c1, d1), due(c2, d2))))
{
    let (ts, ws, rs) = choose|ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(ts, ws, rs) && rs.len() == ts.len() && all_post(rs, r) && of3(ts, c0, d0, c1, d1, c2, d2, now);
    let ds = seq![due(c0, d0), due(c2, d2), due(c1, d1)];
    lemma_tells(ts[0], c0, d0, now);
    lemma_tells(ts[1], c2, d2, now);
    lemma_tells(ts[2], c1, d1, now);
    let e = ds.drop_last();
    assert(e =~= seq![due(c0, d0), due(c2, d2)]);
    assert(e.drop_last() =~= seq![due(c0, d0)]);
    assert(smax(ds) == imax(smax(e), ds.last()));
    assert(smax(e) == imax(smax(e.drop_last()), e.last()));
    lemma_tells_all(rs, ds, r);
}
pub open spec fn rdue3<IT: DAMType, DT: DAMType>(b: DRAMReadBundle<IT, DT>, x: int, y: int) -> int { imax(due(b.addr.st().ch, x), due(b.req_size.st().ch, y)) }
pub open spec fn wdue3<IT: DAMType, DT: DAMType, AT: DAMType>(b: DRAMWriteBundle<IT, DT, AT>, x: int, y: int, z: int) -> int {
    imax(due(b.addr.st().ch, x), imax(due(b.request_size.st().ch, y), due(b.data.st().ch, z)))
}
/// when all parts of the next request are there
pub open spec fn bdue<IT: DAMType, DT: DAMType, AT: DAMType>(b: AccessBundle<IT, DT, AT>, x: int, y: int, z: int) -> int {
    match b { AccessBundle::Write(p) => wdue3(p, x, y, z), AccessBundle::Read(p) => rdue3(p, x, y) }
}
//% impl DRAM => impl<IT: DAMType, T: DAMType, AT: DAMType> DRAM<IT, T, AT>
//% fn last_transfer_end_time ret=r
    ensures tk(r) == last_of(self.request_windows@),
//% end
//% raw
pub open spec fn last_of(w: Seq<Time>) -> int { if w.len() == 0 { 0 } else { tk(w.last()) } }
//% impl Peekable for &DRAMReadBundle<IT, DT> => impl<IT: DAMType, DT: DAMType> DRAMReadBundle<IT, DT>
//% fn next_event world mutself ret=r
//% sig
    pub fn next_event(&mut self, vw: &mut World) -> (r: EventTime)
    requires r_sound(*old(self), old(vw)@)
    ensures r_queried(*old(self), *final(self), old(vw)@, final(vw)@, r),
//% end
//% impl Peekable for &DRAMWriteBundle<IT, DT, AT> => impl<IT: DAMType, DT: DAMType, AT: DAMType> DRAMWriteBundle<IT, DT, AT>
//% fn next_event world mutself ret=r
//% sig
    pub fn next_event(&mut self, vw: &mut World) -> (r: EventTime)
    requires w_sound(*old(self), old(vw)@)
    ensures w_queried(*old(self), *final(self), old(vw)@, final(vw)@, r),
//% end
//% impl Peekable for &AccessBundle<IT, DT, AT> => impl<IT: DAMType, DT: DAMType, AT: DAMType> AccessBundle<IT, DT, AT>
//% fn next_event world mutself ret=r
//% sig
    pub fn next_event(&mut self, vw: &mut World) -> (r: EventTime)
    requires b_sound(*old(self), old(vw)@)
    ensures b_queried(*old(self), *final(self), old(vw)@, final(vw)@, r),
//% end
//% raw
// ---------------------------------------------------------------- what a bank does
/// the state between two requests: the time, items per channel end, when request windows open again, what is stored
pub struct DS<T: DAMType> { pub clk: int, pub n: spec_fn(int, int) -> int, pub win: Seq<Time>, pub mem: Datastore<T> }
/// all windows are taken: the next request waits for the oldest
pub open spec fn is_full<T: DAMType>(c: DRAMConfig, s: DS<T>) -> bool { s.win.len() > 0 && s.win.len() == c.num_simultaneous_requests }
pub open spec fn open_at<T: DAMType>(c: DRAMConfig, s: DS<T>) -> int { if is_full(c, s) { imax(s.clk, tk(s.win[0])) } else { s.clk } }
pub open spec fn open_win<T: DAMType>(c: DRAMConfig, s: DS<T>) -> Seq<Time> { if is_full(c, s) { s.win.drop_first() } else { s.win } }
pub open spec fn ddue<IT: DAMType, T: DAMType, AT: DAMType>(bs: Seq<AccessBundle<IT, T, AT>>, s: DS<T>) -> spec_fn(int) -> int {
    |i: int| bdue(bs[i], (s.n)(i, 0), (s.n)(i, 1), (s.n)(i, 2))
}
/// the index item k of a channel carries
pub open spec fn idx_at<IT: IndexLike>(ch: int, k: int) -> int { hist::<ChannelElement<IT>>(ch, k).data.idx() as int }
pub open spec fn dat_at<T>(ch: int, k: int) -> T { hist::<ChannelElement<T>>(ch, k).data }
/// n items from number d on
pub open spec fn items<T>(ch: int, d: int, n: int) -> Seq<T> { Seq::new(n as nat, |j: int| dat_at::<T>(ch, d + j)) }
/// when n items, from number d on, have been taken, starting at t
pub open spec fn taken_at(ch: int, d: int, t: int, n: int) -> int decreases n { if n <= 0 { t } else { imax(taken_at(ch, d, t, n - 1), hstamp(ch, d + n - 1)) } }
pub open spec fn bits<T: DAMType>(v: Seq<T>) -> int decreases v.len() { if v.len() == 0 { 0 } else { bits(v.drop_last()) + v.last().width() } }
/// the time of the k-th answer, and when it has been sent
pub open spec fn res_at(q: SS, y: int, t: int, rt: int, k: int) -> int decreases k { if k <= 0 { rt } else { imax(sent_at(q, y, t, k - 1), res_at(q, y, t, rt, k - 1)) + 1 } }
pub open spec fn sent_at(q: SS, y: int, t: int, k: int) -> int decreases k { if k <= 0 { t } else { gate(q, y + k - 1, sent_at(q, y, t, k - 1)) } }
pub open spec fn spot<T: DAMType>(m: Datastore<T>, start: int, j: int) -> int { place(m, start + j) }
/// the first n of the items were stored from start on, at time wt, each after everything stored there before
pub open spec fn stored<T: DAMType>(a: Datastore<T>, b: Datastore<T>, start: int, vs: Seq<T>, wt: int, n: int) -> bool {
    &&& b.capacity == a.capacity && b.behavior == a.behavior && store_wf(b)
    &&& forall|j: int| 0 <= j < n ==> lawful(a, start + j) && stored1(log(a, #[trigger] spot(a, start, j)), log(b, spot(a, start, j)), vs[j], wt)
    &&& forall|p: int| 0 <= p < a.capacity && (forall|j: int| 0 <= j < n ==> #[trigger] spot(a, start, j) != p) ==> #[trigger] log(b, p) == log(a, p)
}
pub open spec fn stored1<T>(a: Seq<StoreElement<T>>, b: Seq<StoreElement<T>>, v: T, wt: int) -> bool {
    &&& b.len() == a.len() + 1 && b.drop_last() == a && b.last().data == v && tk(b.last().time) == wt && (a.len() > 0 ==> tk(a.last().time) < wt)
}
/// what is stored from start on, at time t
pub open spec fn loaded<T: DAMType>(m: Datastore<T>, start: int, vs: Seq<T>, t: Time) -> bool {
    forall|j: int| 0 <= j < vs.len() ==> lawful(m, start + j) && gives(log(m, #[trigger] spot(m, start, j)), m.behavior.use_default_value, t, vs[j])
}
pub open spec fn all_acked(p: RS, d: int, t: int, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] acked(p, d + j, taken_at(p.ch, d, t, j + 1)) }
/// the first n answers
pub open spec fn answered<T>(q: SS, y: int, t: int, rt: int, vs: Seq<T>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> #[trigger] answer_is(q, y, t, rt, vs, j)
}
pub open spec fn answer_is<T>(q: SS, y: int, t: int, rt: int, vs: Seq<T>, j: int) -> bool {
    &&& y + j < total(q.ch) && dat_at::<T>(q.ch, y + j) == vs[j]
    &&& hstamp(q.ch, y + j) == imax(res_at(q, y, t, rt, j + 1), sent_at(q, y, t, j + 1) + q.lat)
}
pub open spec fn more<T: DAMType>(a: DS<T>, b: DS<T>, i: int, f: spec_fn(int) -> int) -> bool {
    forall|j: int, k: int| 0 <= k < 4 ==> #[trigger] (b.n)(j, k) == (a.n)(j, k) + (if j == i { f(k) } else { 0 })
}
pub open spec fn window<T: DAMType>(c: DRAMConfig, a: DS<T>, b: DS<T>, t: int) -> bool { b.win.len() > 0 && b.win.drop_last() == open_win(c, a) && tk(b.win.last()) == t }
/// a write request is served: takes all its data, then waits for latency and the previous transfer, transfers, and
/// acknowledges one cycle later
pub open spec fn write_one<IT: IndexLike, T: DAMType, AT: DAMType>(p: DRAMWriteBundle<IT, T, AT>, c: DRAMConfig, a: DS<T>, b: DS<T>, i: int, t: int) -> bool {
    let (pa, ps, pd, q) = (p.addr.st(), p.request_size.st(), p.data.st(), p.ack.st());
    let (xa, xs, xd, y) = ((a.n)(i, 0), (a.n)(i, 1), (a.n)(i, 2), (a.n)(i, 3));
    let start = idx_at::<IT>(pa.ch, xa);
    let size = idx_at::<IT>(ps.ch, xs);
    let vs = items::<T>(pd.ch, xd, size);
    let tm = taken_at(pd.ch, xd, t, size);
    let wt = imax(tm + tk(c.latency), last_of(open_win(c, a))) + bits(vs) / (c.bandwidth_in_bits as int);
    &&& xd + size <= total(pd.ch)
    &&& stored(a.mem, b.mem, start, vs, wt, size)
    &&& q.live ==> y < total(q.ch) && hstamp(q.ch, y) == imax(wt + 1, gate(q, y, tm) + q.lat) && dat_at::<AT>(q.ch, y) == AT::dflt()
    &&& acked(pa, xa, t) && acked(ps, xs, t) && all_acked(pd, xd, t, size)
    &&& b.clk == gate(q, y, tm)
    &&& window(c, a, b, imax(b.clk, wt) + 1)
    &&& more(a, b, i, |k: int| if k == 0 || k == 1 { 1int } else if k == 2 { size } else if q.live { 1int } else { 0 })
}
/// a read request is served: waits for latency and the previous transfer, finds what is stored then, transfers, and
/// answers, one value a cycle
pub open spec fn read_one<IT: IndexLike, T: DAMType>(p: DRAMReadBundle<IT, T>, c: DRAMConfig, a: DS<T>, b: DS<T>, i: int, t: int, at: Time, vs: Seq<T>) -> bool {
    let (pa, ps, q) = (p.addr.st(), p.req_size.st(), p.data.st());
    let (xa, xs, y) = ((a.n)(i, 0), (a.n)(i, 1), (a.n)(i, 2));
    let start = idx_at::<IT>(pa.ch, xa);
    let size = idx_at::<IT>(ps.ch, xs);
    let rt = tk(at) + bits(vs) / (c.bandwidth_in_bits as int);
    &&& tk(at) == imax(t + tk(c.latency), last_of(open_win(c, a)))
    &&& vs.len() == size && loaded(a.mem, start, vs, at) && b.mem == a.mem
    &&& q.live ==> answered(q, y, t, rt, vs, size)
    &&& acked(pa, xa, t) && acked(ps, xs, t)
    &&& b.clk == sent_at(q, y, t, size)
    &&& window(c, a, b, res_at(q, y, t, rt, size))
    &&& more(a, b, i, |k: int| if k == 0 || k == 1 { 1int } else if k == 2 && q.live { size } else { 0 })
}
/// the request of bundle i is served
pub open spec fn serves<IT: IndexLike, T: DAMType, AT: DAMType>(bs: Seq<AccessBundle<IT, T, AT>>, c: DRAMConfig, a: DS<T>, b: DS<T>, i: int) -> bool {
    let t = imax(open_at(c, a), ddue(bs, a)(i));
    &&& first_min(ddue(bs, a), bs.len() as int, i)
    &&& match bs[i] {
        AccessBundle::Write(p) => write_one(p, c, a, b, i, t),
        AccessBundle::Read(p) => exists|at: Time, vs: Seq<T>| #[trigger] read_one(p, c, a, b, i, t, at, vs),
    }
}
pub open spec fn served<IT: IndexLike, T: DAMType, AT: DAMType>(bs: Seq<AccessBundle<IT, T, AT>>, c: DRAMConfig, a: DS<T>, b: DS<T>) -> bool { exists|i: int| #[trigger] serves(bs, c, a, b, i) }
/// one request after the other
pub open spec fn accesses<IT: IndexLike, T: DAMType, AT: DAMType>(bs: Seq<AccessBundle<IT, T, AT>>, c: DRAMConfig, tr: Seq<DS<T>>) -> bool {
    tr.len() > 0 && forall|m: int, n: int| 0 <= m && n == m + 1 && n < tr.len() ==> #[trigger] served(bs, c, tr[m], tr[n])
}
pub proof fn lemma_accesses<IT: IndexLike, T: DAMType, AT: DAMType>(bs: Seq<AccessBundle<IT, T, AT>>, c: DRAMConfig, tr: Seq<DS<T>>, b: DS<T>)
    requires accesses(bs, c, tr), served(bs, c, tr.last(), b)
    ensures accesses(bs, c, tr.push(b))
{
    let t = tr.push(b);
    assert forall|m: int, n: int| 0 <= m && n == m + 1 && n < t.len() implies #[trigger] served(bs, c, t[m], t[n]) by {
        assert(t[m] == tr[m]);
        if n < tr.len() { assert(t[n] == tr[n]); assert(served(bs, c, tr[m], tr[n])); }
    }
}
pub open spec fn agree_n<B: Ports>(b: Seq<B>, n: spec_fn(int, int) -> int, w: WV) -> bool {
    forall|i: int, k: int| 0 <= i < b.len() && 0 <= k < 4 ==> (#[trigger] b[i].n(k, w)) == n(i, k)
}
pub open spec fn begins<IT: IndexLike, T: DAMType, AT: DAMType>(d: DRAM<IT, T, AT>, s: DS<T>, w: WV) -> bool {
    s.clk == clock(w) && agree_n(d.bundles@, s.n, w) && s.win == d.request_windows@ && s.mem == d.datastore
}
// ---------------------------------------------------------------- what is assumed of a bank and its inputs
pub spec const WMAX: int = 0x10_0000;
pub spec const SMAX: int = 0x1_0000_0000;
pub spec const AMAX: int = 0x4000_0000_0000_0000;
pub spec const LMAX: int = 0x1000_0000_0000_0000;
pub open spec fn mild(win: Seq<Time>) -> bool { forall|j: int| 0 <= j < win.len() ==> tk(#[trigger] win[j]) < CLKMAX }
/// no request window opens later than any clock gets
pub open spec fn calm<IT: IndexLike, T: DAMType, AT: DAMType>(bs: Seq<AccessBundle<IT, T, AT>>, c: DRAMConfig, s: DS<T>) -> bool {
    forall|tr: Seq<DS<T>>| #[trigger] accesses(bs, c, tr) && tr[0] == s ==> mild(tr.last().win)
}
pub open spec fn small_in<IT: IndexLike>(ch: int, b: int) -> bool { forall|k: int| 0 <= k < total(ch) ==> #[trigger] idx_at::<IT>(ch, k) <= b }
/// addresses and sizes fit the machine
pub open spec fn b_small<IT: IndexLike, T: DAMType, AT: DAMType>(b: AccessBundle<IT, T, AT>) -> bool {
    match b {
        AccessBundle::Write(p) => small_in::<IT>(p.addr.st().ch, AMAX) && small_in::<IT>(p.request_size.st().ch, SMAX),
        AccessBundle::Read(p) => small_in::<IT>(p.addr.st().ch, AMAX) && small_in::<IT>(p.req_size.st().ch, SMAX),
    }
}
pub open spec fn dram_wf<IT: IndexLike, T: DAMType, AT: DAMType>(d: DRAM<IT, T, AT>, w: WV) -> bool {
    &&& b_ok(d.bundles@, d.bundles@, w) && separate(d.bundles@, -1) && d.bundles.len() > 0
    &&& d.context_info.time.mine(w) && free(w) && clock(w) < INF
    &&& store_wf(d.datastore) && may_refuse()
    &&& d.config.bandwidth_in_bits > 0 && !d.config.latency.done && d.config.latency.time <= LMAX
    &&& forall|x: T| 0 <= #[trigger] x.width() <= WMAX
    &&& forall|i: int| 0 <= i < d.bundles.len() ==> b_small(#[trigger] d.bundles@[i])
    &&& forall|s: DS<T>| #[trigger] begins(d, s, w) ==> calm(d.bundles@, d.config, s)
}
/// the bundles, one by one
pub open spec fn flat1<IT: DAMType, T: DAMType, AT: DAMType>(b0: AccessBundle<IT, T, AT>, b: AccessBundle<IT, T, AT>, f: spec_fn(int, int) -> int, w: WV, i: int) -> bool {
    match (b0, b) {
        (AccessBundle::Write(p0), AccessBundle::Write(p)) => {
            &&& p.addr.st() == p0.addr.st() && p.request_size.st() == p0.request_size.st() && p.data.st() == p0.data.st() && p.ack.st() == p0.ack.st()
            &&& w_sound(p, w) && p.addr.deq(w) == f(i, 0) && p.request_size.deq(w) == f(i, 1) && p.data.deq(w) == f(i, 2) && s_n(p.ack, w) == f(i, 3)
        },
        (AccessBundle::Read(p0), AccessBundle::Read(p)) => {
            &&& p.addr.st() == p0.addr.st() && p.req_size.st() == p0.req_size.st() && p.data.st() == p0.data.st()
            &&& r_sound(p, w) && p.addr.deq(w) == f(i, 0) && p.req_size.deq(w) == f(i, 1) && s_n(p.data, w) == f(i, 2)
        },
        _ => false,
    }
}
pub open spec fn kinds<IT: DAMType, T: DAMType, AT: DAMType>(b0: Seq<AccessBundle<IT, T, AT>>, b: Seq<AccessBundle<IT, T, AT>>) -> bool {
    b.len() == b0.len() && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i] is Write) == (b0[i] is Write)
}
pub open spec fn flat<IT: DAMType, T: DAMType, AT: DAMType>(b0: Seq<AccessBundle<IT, T, AT>>, b: Seq<AccessBundle<IT, T, AT>>, f: spec_fn(int, int) -> int, w: WV) -> bool {
    b.len() == b0.len() && forall|i: int| 0 <= i < b.len() ==> flat1(b0[i], #[trigger] b[i], f, w, i)
}
pub proof fn lemma_flat<IT: DAMType, T: DAMType, AT: DAMType>(b0: Seq<AccessBundle<IT, T, AT>>, b: Seq<AccessBundle<IT, T, AT>>, f: spec_fn(int, int) -> int, w: WV)
    requires b_ok(b0, b, w), separate(b0, -1), agree_n(b, f, w)
    ensures flat(b0, b, f, w)
{
    assert forall|i: int| 0 <= i < b.len() implies flat1(b0[i], #[trigger] b[i], f, w, i) by {
        assert(b[i].port(0) == b0[i].port(0) && b[i].port(1) == b0[i].port(1) && b[i].port(2) == b0[i].port(2) && b[i].port(3) == b0[i].port(3));
        assert(b[i].ok(0, w) && b[i].ok(1, w) && b[i].ok(2, w) && b[i].ok(3, w));
        assert(b[i].n(0, w) == f(i, 0) && b[i].n(1, w) == f(i, 1) && b[i].n(2, w) == f(i, 2) && b[i].n(3, w) == f(i, 3));
        assert(clear(b0[i].port(0), b0[i].port(1)) && clear(b0[i].port(0), b0[i].port(2)) && clear(b0[i].port(1), b0[i].port(2)));
        assert(clear(b0[i].port(0), b0[i].port(3)) && clear(b0[i].port(1), b0[i].port(3)) && clear(b0[i].port(2), b0[i].port(3)));
    }
}
/// asking bundle i leaves everything in order and tells when its next request is there
pub proof fn lemma_ask<IT: DAMType, T: DAMType, AT: DAMType>(b0: Seq<AccessBundle<IT, T, AT>>, rb: Seq<AccessBundle<IT, T, AT>>, b: Seq<AccessBundle<IT, T, AT>>, f: spec_fn(int, int) -> int, w: WV, v: WV, i: int, r: EventTime)
    requires b_ok(b0, rb, w), separate(b0, -1), agree_n(rb, f, w), flat(b0, rb, f, w), 0 <= i < b.len(), b == rb.update(i, b[i]), b_queried(rb[i], b[i], w, v, r),
    ensures b_ok(b0, b, v), agree_n(b, f, v), flat(b0, b, f, v), tells(r, bdue(b0[i], f(i, 0), f(i, 1), f(i, 2)))
{
    assert(flat1(b0[i], rb[i], f, w, i));
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < 4 implies #[trigger] b[j].ok(k, v) && b[j].n(k, v) == f(j, k) && b[j].port(k) == b0[j].port(k) by {
        assert(rb[j].port(k) == b0[j].port(k) && rb[j].ok(k, w) && rb[j].n(k, w) == f(j, k));
        if j != i {
            assert(clear(b0[j].port(k), b0[i].port(0)) && clear(b0[j].port(k), b0[i].port(1)) && clear(b0[j].port(k), b0[i].port(2)));
            assert(unused(rb[j].port(k), w, v));
            rb[j].kept(k, w, v);
        }
    }
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < 4 implies (#[trigger] b[j].port(k)) == b0[j].port(k) by { assert(b[j].ok(k, v)); }
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < 4 implies (#[trigger] b[j].n(k, v)) == f(j, k) by { assert(b[j].ok(k, v)); }
    lemma_flat(b0, b, f, v);
    match (rb[i], b[i]) {
        (AccessBundle::Write(p), AccessBundle::Write(q)) => lemma_of3(r, p.addr.st().ch, p.addr.deq(w), p.request_size.st().ch, p.request_size.deq(w), p.data.st().ch, p.data.deq(w), clock(w)),
        (AccessBundle::Read(p), AccessBundle::Read(q)) => lemma_of2(r, p.addr.st().ch, p.addr.deq(w), p.req_size.st().ch, p.req_size.deq(w), clock(w)),
        _ => {},
    }
}
//% raw
/// address and size were taken at time t
pub open spec fn took<IT: DAMType>(a0: Receiver<IT>, a1: Receiver<IT>, s0: Receiver<IT>, s1: Receiver<IT>, w: WV, v: WV, t: int) -> bool {
    exists|w1: WV, d0: int, r0: Result<ChannelElement<IT>, DequeueError>, w2: WV, d1: int, r1: Result<ChannelElement<IT>, DequeueError>|
        #[trigger] deq_ok(a0.st(), w, w1, a0.deq(w), d0, r0) && #[trigger] deq_ok(s0.st(), w1, w2, s0.deq(w1), d1, r1) && r0 is Ok && r1 is Ok
        && free(w1) && free(w2) && step(w2, v) && free(v) && clock(w1) == t && clock(w2) == t && clock(v) == t
        && a1.inv(w1) && a1.st() == a0.st() && a1.deq(w1) == d0 && s1.inv(w2) && s1.st() == s0.st() && s1.deq(w2) == d1
}
pub open spec fn gave<AT: DAMType>(q0: Sender<AT>, q1: Sender<AT>, w: WV, v: WV, t: int) -> bool {
    exists|w1: WV, w2: WV, x: ChannelElement<AT>, r: Result<(), EnqueueError>| #[trigger] enq_ok(q0.st(), w1, w2, x, r) && r is Ok
        && step(w, w1) && free(w1) && clock(w1) == clock(w) && free(w2) && step(w2, v) && free(v) && clock(v) == clock(w2) && q1.inv(w2) && q1.st() == q0.st() && tk(x.time) == t && x.data == AT::dflt()
}
pub open spec fn plus(f: spec_fn(int, int) -> int, i: int, g: spec_fn(int) -> int) -> spec_fn(int, int) -> int { |j: int, k: int| f(j, k) + (if j == i { g(k) } else { 0 }) }
pub proof fn lemma_wrote<IT: DAMType, T: DAMType, AT: DAMType>(b0: Seq<AccessBundle<IT, T, AT>>, rb: Seq<AccessBundle<IT, T, AT>>, b: Seq<AccessBundle<IT, T, AT>>, f: spec_fn(int, int) -> int, i: int, p0: DRAMWriteBundle<IT, T, AT>, p1: DRAMWriteBundle<IT, T, AT>,
    wc: WV, wb: WV, w3: WV, w4: WV, v: WV, t: int, size: int, at: int)
    requires b_ok(b0, rb, wc), separate(b0, -1), flat(b0, rb, f, wc), agree_n(rb, f, wc), 0 <= i < rb.len(), rb[i] == AccessBundle::<IT, T, AT>::Write(p0), b == rb.update(i, AccessBundle::<IT, T, AT>::Write(p1)),
        step(wc, wb), free(wb), took(p0.addr, p1.addr, p0.request_size, p1.request_size, wb, w3, t),
        io_step(w3, w4, p0.data.st().ack, p0.data.st().ch), free(w4), r_port(p1.data, w4), p1.data.st() == p0.data.st(), p1.data.deq(w4) == p0.data.deq(w3) + size,
        gave(p0.ack, p1.ack, w4, v, at),
    ensures b_ok(b0, b, v), agree_n(b, plus(f, i, |k: int| if k == 0 || k == 1 { 1int } else if k == 2 { size } else if p0.ack.st().live { 1int } else { 0 }), v),
        acked(p0.addr.st(), f(i, 0), t), acked(p0.request_size.st(), f(i, 1), t), p0.data.deq(w3) == f(i, 2),
        p0.ack.st().live ==> ({ let q = p0.ack.st(); let y = f(i, 3); y < total(q.ch) && hstamp(q.ch, y) == imax(at, gate(q, y, clock(w4)) + q.lat) && dat_at::<AT>(q.ch, y) == AT::dflt() }),
        clock(v) == gate(p0.ack.st(), f(i, 3), clock(w4)),
{
    let (w1, d0, r0, w2, d1, r1) = choose|w1: WV, d0: int, r0: Result<ChannelElement<IT>, DequeueError>, w2: WV, d1: int, r1: Result<ChannelElement<IT>, DequeueError>|
        #[trigger] deq_ok(p0.addr.st(), wb, w1, p0.addr.deq(wb), d0, r0) && #[trigger] deq_ok(p0.request_size.st(), w1, w2, p0.request_size.deq(w1), d1, r1) && r0 is Ok && r1 is Ok
        && free(w1) && free(w2) && step(w2, w3) && free(w3) && clock(w1) == t && clock(w2) == t && clock(w3) == t
        && p1.addr.inv(w1) && p1.addr.st() == p0.addr.st() && p1.addr.deq(w1) == d0 && p1.request_size.inv(w2) && p1.request_size.st() == p0.request_size.st() && p1.request_size.deq(w2) == d1;
    let (w5, w6, x, r) = choose|w5: WV, w6: WV, x: ChannelElement<AT>, r: Result<(), EnqueueError>| #[trigger] enq_ok(p0.ack.st(), w5, w6, x, r) && r is Ok
        && step(w4, w5) && free(w5) && clock(w5) == clock(w4) && free(w6) && step(w6, v) && free(v) && clock(v) == clock(w6) && p1.ack.inv(w6) && p1.ack.st() == p0.ack.st() && tk(x.time) == at && x.data == AT::dflt();
    assert(flat1(b0[i], rb[i], f, wc, i));
    let q = p0.ack.st();
    let c1 = rb.update(i, AccessBundle::<IT, T, AT>::Write(DRAMWriteBundle { addr: p1.addr, ..p0 }));
    let c2 = rb.update(i, AccessBundle::<IT, T, AT>::Write(DRAMWriteBundle { addr: p1.addr, request_size: p1.request_size, ..p0 }));
    let c3 = rb.update(i, AccessBundle::<IT, T, AT>::Write(DRAMWriteBundle { ack: p0.ack, ..p1 }));
    assert(rb[i].port(0) == b0[i].port(0) && rb[i].port(1) == b0[i].port(1) && rb[i].port(2) == b0[i].port(2) && rb[i].port(3) == b0[i].port(3));
    b_step(b0, rb, -1, wc, wb);
    assert(used(rb, c1, i, 0));
    lemma_use(b0, rb, c1, -1, i, 0, wb, w1, p0.addr.st().ack, p0.addr.st().ch);
    assert(used(c1, c2, i, 1));
    lemma_use(b0, c1, c2, -1, i, 1, w1, w2, p0.request_size.st().ack, p0.request_size.st().ch);
    b_step(b0, c2, -1, w2, w3);
    assert(used(c2, c3, i, 2));
    lemma_use(b0, c2, c3, -1, i, 2, w3, w4, p0.data.st().ack, p0.data.st().ch);
    b_step(b0, c3, -1, w4, w5);
    assert(used(c3, b, i, 3));
    lemma_use(b0, c3, b, -1, i, 3, w5, w6, if q.live { q.ch } else { -1 }, if q.live && q.cap is Some { q.resp } else { -1 });
    b_step(b0, b, -1, w6, v);
    let g = |k: int| if k == 0 || k == 1 { 1int } else if k == 2 { size } else if p0.ack.st().live { 1int } else { 0 };
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < 4 implies (#[trigger] b[j].n(k, v)) == plus(f, i, g)(j, k) by {
        assert(b[j].n(k, v) == b[j].n(k, w6));
        assert(rb[j].n(k, wc) == f(j, k) && rb[j].n(k, wb) == rb[j].n(k, wc));
        assert(c2[j].n(k, w3) == c2[j].n(k, w2));
        assert(c3[j].n(k, w5) == c3[j].n(k, w4));
        if j != i || k != 0 { assert(c1[j].n(k, w1) == rb[j].n(k, wb)); }
        if j != i || k != 1 { assert(c2[j].n(k, w2) == c1[j].n(k, w1)); }
        if j != i || k != 2 { assert(c3[j].n(k, w4) == c2[j].n(k, w3)); }
        if j != i || k != 3 { assert(b[j].n(k, w6) == c3[j].n(k, w5)); }
    }
    assert(rb[i].n(2, wb) == f(i, 2)) by { assert(rb[i].n(2, wb) == rb[i].n(2, wc)); }
    assert(rb[i].n(3, wb) == f(i, 3)) by { assert(rb[i].n(3, wb) == rb[i].n(3, wc)); }
    assert(rb[i].n(1, wb) == f(i, 1)) by { assert(rb[i].n(1, wb) == rb[i].n(1, wc)); }
    assert(rb[i].n(0, wb) == f(i, 0)) by { assert(rb[i].n(0, wb) == rb[i].n(0, wc)); }
    assert(c1[i].n(1, w1) == rb[i].n(1, wb) && c1[i].n(2, w1) == rb[i].n(2, wb) && c1[i].n(3, w1) == rb[i].n(3, wb));
    assert(c2[i].n(2, w2) == c1[i].n(2, w1) && c2[i].n(3, w2) == c1[i].n(3, w1));
    assert(c2[i].n(2, w3) == c2[i].n(2, w2) && c2[i].n(3, w3) == c2[i].n(3, w2));
    assert(c3[i].n(3, w4) == c2[i].n(3, w3));
    assert(c3[i].n(3, w5) == c3[i].n(3, w4));
}
pub open spec fn out_key(q: SS) -> int { if q.live { q.ch } else { -1 } }
pub open spec fn in_ack(q: SS) -> int { if q.live && q.cap is Some { q.resp } else { -1 } }
pub proof fn lemma_did_read<IT: DAMType, T: DAMType, AT: DAMType>(b0: Seq<AccessBundle<IT, T, AT>>, rb: Seq<AccessBundle<IT, T, AT>>, b: Seq<AccessBundle<IT, T, AT>>, f: spec_fn(int, int) -> int, i: int, p0: DRAMReadBundle<IT, T>, p1: DRAMReadBundle<IT, T>,
    wc: WV, wb: WV, w3: WV, v: WV, t: int, size: int)
    requires b_ok(b0, rb, wc), separate(b0, -1), flat(b0, rb, f, wc), agree_n(rb, f, wc), 0 <= i < rb.len(), rb[i] == AccessBundle::<IT, T, AT>::Read(p0), b == rb.update(i, AccessBundle::<IT, T, AT>::Read(p1)),
        step(wc, wb), free(wb), took(p0.addr, p1.addr, p0.req_size, p1.req_size, wb, w3, t), free(v),
        io_step(w3, v, out_key(p0.data.st()), in_ack(p0.data.st())), s_port(p1.data, v), p1.data.st() == p0.data.st(), p0.data.st().live ==> s_n(p1.data, v) == s_n(p0.data, w3) + size,
    ensures b_ok(b0, b, v), agree_n(b, plus(f, i, |k: int| if k == 0 || k == 1 { 1int } else if k == 2 && p0.data.st().live { size } else { 0 }), v),
        acked(p0.addr.st(), f(i, 0), t), acked(p0.req_size.st(), f(i, 1), t), s_n(p0.data, w3) == f(i, 2),
{
    let (w1, d0, r0, w2, d1, r1) = choose|w1: WV, d0: int, r0: Result<ChannelElement<IT>, DequeueError>, w2: WV, d1: int, r1: Result<ChannelElement<IT>, DequeueError>|
        #[trigger] deq_ok(p0.addr.st(), wb, w1, p0.addr.deq(wb), d0, r0) && #[trigger] deq_ok(p0.req_size.st(), w1, w2, p0.req_size.deq(w1), d1, r1) && r0 is Ok && r1 is Ok
        && free(w1) && free(w2) && step(w2, w3) && free(w3) && clock(w1) == t && clock(w2) == t && clock(w3) == t
        && p1.addr.inv(w1) && p1.addr.st() == p0.addr.st() && p1.addr.deq(w1) == d0 && p1.req_size.inv(w2) && p1.req_size.st() == p0.req_size.st() && p1.req_size.deq(w2) == d1;
    assert(flat1(b0[i], rb[i], f, wc, i));
    let q = p0.data.st();
    let c1 = rb.update(i, AccessBundle::<IT, T, AT>::Read(DRAMReadBundle { addr: p1.addr, ..p0 }));
    let c2 = rb.update(i, AccessBundle::<IT, T, AT>::Read(DRAMReadBundle { addr: p1.addr, req_size: p1.req_size, ..p0 }));
    assert(rb[i].port(0) == b0[i].port(0) && rb[i].port(1) == b0[i].port(1) && rb[i].port(2) == b0[i].port(2) && rb[i].port(3) == b0[i].port(3));
    b_step(b0, rb, -1, wc, wb);
    assert(used(rb, c1, i, 0));
    lemma_use(b0, rb, c1, -1, i, 0, wb, w1, p0.addr.st().ack, p0.addr.st().ch);
    assert(used(c1, c2, i, 1));
    lemma_use(b0, c1, c2, -1, i, 1, w1, w2, p0.req_size.st().ack, p0.req_size.st().ch);
    b_step(b0, c2, -1, w2, w3);
    assert(used(c2, b, i, 2));
    lemma_use(b0, c2, b, -1, i, 2, w3, v, out_key(q), in_ack(q));
    let g = |k: int| if k == 0 || k == 1 { 1int } else if k == 2 && p0.data.st().live { size } else { 0 };
    assert(rb[i].n(2, wb) == f(i, 2)) by { assert(rb[i].n(2, wb) == rb[i].n(2, wc)); }
    assert(rb[i].n(1, wb) == f(i, 1)) by { assert(rb[i].n(1, wb) == rb[i].n(1, wc)); }
    assert(rb[i].n(0, wb) == f(i, 0)) by { assert(rb[i].n(0, wb) == rb[i].n(0, wc)); }
    assert(c1[i].n(1, w1) == rb[i].n(1, wb) && c1[i].n(2, w1) == rb[i].n(2, wb));
    assert(c2[i].n(2, w2) == c1[i].n(2, w1));
    assert(c2[i].n(2, w3) == c2[i].n(2, w2));
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < 4 implies (#[trigger] b[j].n(k, v)) == plus(f, i, g)(j, k) by {
        assert(rb[j].n(k, wc) == f(j, k) && rb[j].n(k, wb) == rb[j].n(k, wc));
        assert(c2[j].n(k, w3) == c2[j].n(k, w2));
        if j != i || k != 0 { assert(c1[j].n(k, w1) == rb[j].n(k, wb)); }
        if j != i || k != 1 { assert(c2[j].n(k, w2) == c1[j].n(k, w1)); }
        if j != i || k != 2 { assert(b[j].n(k, v) == c2[j].n(k, w3)); }
    }
}
/// one more of the items was stored
pub proof fn lemma_store<T: DAMType>(a: Datastore<T>, b: Datastore<T>, c: Datastore<T>, start: int, vs: Seq<T>, wt: int, n: int, e: StoreElement<T>)
    requires store_wf(a), stored(a, b, start, vs, wt, n), 0 <= n < vs.len(), start >= 0, e.data == vs[n], tk(e.time) == wt,
        store_wf(c), c.capacity == b.capacity, c.behavior == b.behavior, lawful(b, start + n), fresh(log(b, place(b, start + n)), e.time),
        log(c, place(b, start + n)) == log(b, place(b, start + n)).push(e),
        forall|p: int| 0 <= p < b.capacity && p != place(b, start + n) ==> (#[trigger] c.underlying@[p])@ == log(b, p),
    ensures stored(a, c, start, vs, wt, n + 1)
{
    let p = place(b, start + n);
    assert(place(a, start + n) == p);
    assert(0 <= p < b.capacity) by { if start + n >= b.capacity { assert(0 <= (start + n) % (b.capacity as int) < b.capacity) by (nonlinear_arith) requires b.capacity > 0; } }
    assert forall|j: int| 0 <= j < n implies #[trigger] spot(a, start, j) != p by {
        assert(stored1(log(a, spot(a, start, j)), log(b, spot(a, start, j)), vs[j], wt));
    }
    assert(log(b, p) == log(a, p));
    assert forall|j: int| 0 <= j < n + 1 implies lawful(a, start + j) && stored1(log(a, #[trigger] spot(a, start, j)), log(c, spot(a, start, j)), vs[j], wt) by {
        if j < n {
            let r = spot(a, start, j);
            assert(stored1(log(a, r), log(b, r), vs[j], wt));
            assert(r != p);
            assert(0 <= r < b.capacity) by { if start + j >= b.capacity { assert(0 <= (start + j) % (b.capacity as int) < b.capacity) by (nonlinear_arith) requires b.capacity > 0; } }
            assert(log(c, r) == c.underlying@[r]@);
        } else {
            assert(log(b, p).push(e).drop_last() =~= log(b, p));
        }
    }
    assert forall|r: int| 0 <= r < a.capacity && (forall|j: int| 0 <= j < n + 1 ==> #[trigger] spot(a, start, j) != r) implies #[trigger] log(c, r) == log(a, r) by {
        assert(spot(a, start, n) != r);
        assert(log(c, r) == c.underlying@[r]@);
        assert(log(b, r) == log(a, r));
    }
}
pub proof fn lemma_bits<T: DAMType>(v: Seq<T>, k: int)
    requires 0 <= k < v.len(), forall|x: T| 0 <= #[trigger] x.width() <= WMAX
    ensures bits(v.take(k + 1)) == bits(v.take(k)) + v[k].width()
{
    assert(v.take(k + 1).drop_last() =~= v.take(k));
    assert(v.take(k + 1).last() == v[k]);
}
pub proof fn lemma_res(q: SS, y: int, t: int, rt: int, k: int)
    requires 0 <= k, t < INF
    ensures res_at(q, y, t, rt, k + 1) == imax(sent_at(q, y, t, k), res_at(q, y, t, rt, k)) + 1, sent_at(q, y, t, k + 1) == gate(q, y + k, sent_at(q, y, t, k))
{}
//% raw
/// time passes
pub proof fn lemma_keep<IT: DAMType, T: DAMType, AT: DAMType>(b0: Seq<AccessBundle<IT, T, AT>>, b: Seq<AccessBundle<IT, T, AT>>, f: spec_fn(int, int) -> int, w: WV, v: WV)
    requires b_ok(b0, b, w), separate(b0, -1), agree_n(b, f, w), step(w, v), free(v)
    ensures b_ok(b0, b, v), agree_n(b, f, v), flat(b0, b, f, v)
{
    b_step(b0, b, -1, w, v);
    lemma_flat(b0, b, f, v);
}
pub proof fn lemma_flat_at<IT: DAMType, T: DAMType, AT: DAMType>(b0: Seq<AccessBundle<IT, T, AT>>, b: Seq<AccessBundle<IT, T, AT>>, f: spec_fn(int, int) -> int, w: WV, i: int)
    requires flat(b0, b, f, w), 0 <= i < b.len()
    ensures flat1(b0[i], b[i], f, w, i), b.len() == b0.len()
{}
pub proof fn lemma_none<T>(p: RS, d: int, t: int)
    ensures items::<T>(p.ch, d, 0) == Seq::<T>::empty(), all_acked(p, d, t, 0)
{ assert(items::<T>(p.ch, d, 0) =~= Seq::<T>::empty()); }
/// one more item was taken
pub proof fn lemma_item<T>(p: RS, d: int, t: int, n: int, v: Seq<T>)
    requires 0 <= n, v == items::<T>(p.ch, d, n), all_acked(p, d, t, n), acked(p, d + n, taken_at(p.ch, d, t, n + 1))
    ensures v.push(dat_at::<T>(p.ch, d + n)) == items::<T>(p.ch, d, n + 1), all_acked(p, d, t, n + 1)
{ assert(v.push(dat_at::<T>(p.ch, d + n)) =~= items::<T>(p.ch, d, n + 1)); }
pub proof fn lemma_load<T: DAMType>(m: Datastore<T>, start: int, v: Seq<T>, t: Time, x: T)
    requires loaded(m, start, v, t), lawful(m, start + v.len()), gives(log(m, spot(m, start, v.len() as int)), m.behavior.use_default_value, t, x)
    ensures loaded(m, start, v.push(x), t)
{
    let w = v.push(x);
    assert forall|j: int| 0 <= j < w.len() implies lawful(m, start + j) && gives(log(m, #[trigger] spot(m, start, j)), m.behavior.use_default_value, t, w[j]) by {
        if j < v.len() { assert(w[j] == v[j]); }
    }
}
pub proof fn lemma_answer<T>(q: SS, y: int, t: int, rt: int, vs: Seq<T>, k: int)
    requires 0 <= k, answered(q, y, t, rt, vs, k), y + k < total(q.ch), dat_at::<T>(q.ch, y + k) == vs[k],
        hstamp(q.ch, y + k) == imax(res_at(q, y, t, rt, k + 1), sent_at(q, y, t, k + 1) + q.lat)
    ensures answered(q, y, t, rt, vs, k + 1)
{
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] answer_is(q, y, t, rt, vs, j) by {}
}
/// the least answer
pub proof fn lemma_least<IT: DAMType, T: DAMType, AT: DAMType>(b0: Seq<AccessBundle<IT, T, AT>>, a: DS<T>, ts: Seq<EventTime>, m: int)
    requires knows(ts, ddue(b0, a), b0.len() as int), argmin(ts, m)
    ensures tells(ts[m], ddue(b0, a)(m)), 0 <= m < b0.len(),
        ts[m] is Ready ==> first_min(ddue(b0, a), b0.len() as int, m) && tk(ts[m]->Ready_0) == ddue(b0, a)(m),
        ts[m] is Nothing ==> forall|i: int| 0 <= i < b0.len() ==> #[trigger] ddue(b0, a)(i) >= tk(ts[m]->Nothing_0) + 1,
        ts[m] is Closed ==> (forall|i: int| 0 <= i < b0.len() ==> #[trigger] ddue(b0, a)(i) >= INF) && (forall|i: int| 0 <= i < b0.len() ==> #[trigger] ts[i] is Closed),
{
    lemma_pick(ts, ddue(b0, a), b0.len() as int, m);
    if ts[m] is Closed {
        assert forall|i: int| 0 <= i < b0.len() implies #[trigger] ts[i] is Closed by {
            assert(tells(ts[i], ddue(b0, a)(i)));
            if i < m { assert(e_cmp(ts[i], ts[m]) == Ordering::Greater); } else { assert(e_cmp(ts[i], ts[m]) != Ordering::Less); }
        }
    }
}
/// the oldest window has been waited for, or not yet
pub open spec fn popped<T: DAMType>(c: DRAMConfig, a: DS<T>, q: Seq<Time>, clk: int) -> bool {
    is_full(c, a) && q == a.win && clk == a.clk || q == open_win(c, a) && clk >= open_at(c, a)
}
/// no later than the next request can be served
pub open spec fn not_past<IT: DAMType, T: DAMType, AT: DAMType>(bs: Seq<AccessBundle<IT, T, AT>>, c: DRAMConfig, a: DS<T>, clk: int) -> bool {
    forall|i: int| 0 <= i < bs.len() ==> clk <= imax(open_at(c, a), #[trigger] ddue(bs, a)(i))
}
pub open spec fn ready_in<T: DAMType>(p: Receiver<T>, d: int, t: int) -> bool { 0 <= d < total(p.st().ch) && hstamp(p.st().ch, d) <= t }
//% impl Context for DRAM [ctx] => impl<IT: IndexLike, T: DAMType, AT: DAMType> DRAM<IT, T, AT>
//% fn run as=dram_run world mutself rwlock=bundles mayfail=enqueue,dequeue split=bundles local=bundle_timings:0 local=next_event:1 local=start:4 local=size:5 local=write_buffer:6 local=write_time:10 local=read_time:12 local=read_vals:13 local=read_finish_time:16 local=result_time:17
//% attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::rlimit(150)]
#[verifier::spinoff_prover]
//% sig
    pub fn dram_run(&mut self, vw: &mut World)
    requires dram_wf(*old(self), old(vw)@)
    ensures
        exists|tr: Seq<DS<T>>| #[trigger] accesses(old(self).bundles@, old(self).config, tr) && begins(*old(self), tr[0], old(vw)@)
            // all requests have been served
            && (forall|i: int| 0 <= i < old(self).bundles.len() ==> #[trigger] ddue(old(self).bundles@, tr.last())(i) >= INF)
            && agree_n(final(self).bundles@, tr.last().n, final(vw)@) && final(self).datastore == tr.last().mem,
//% loopattr 1
#[verifier::loop_isolation(true)]
//% loopattr 2
#[verifier::loop_isolation(true)]
//% loopattr 3
#[verifier::loop_isolation(true)]
//% loopattr 4
#[verifier::loop_isolation(true)]
//% loopattr 6
#[verifier::loop_isolation(true)]
//% loopattr 9
#[verifier::loop_isolation(true)]
//% loopattr 5
#[verifier::loop_isolation(true)]
//% loopattr 7
#[verifier::loop_isolation(true)]
//% loopattr 8
#[verifier::loop_isolation(true)]
//% proof start
    hide(b_ok); hide(agree_n); hide(separate); hide(flat); hide(accesses); hide(calm); hide(knows); hide(argmin); hide(stored); hide(loaded); hide(answered); hide(all_acked); hide(items);
    let ghost b0 = self.bundles@;
    let ghost p0 = *self;
    let ghost w0 = vw@;
    let ghost cf = self.config;
    let ghost s0 = DS { clk: clock(vw@), n: |i: int, k: int| b0[i].n(k, w0), win: self.request_windows@, mem: self.datastore };
    let ghost mut tr: Seq<DS<T>> = seq![s0];
    let ghost mut a = s0;
    proof { assert(begins(p0, s0, w0)) by { reveal(agree_n); } assert(agree_n(b0, s0.n, w0)) by { reveal(agree_n); } assert(accesses(b0, cf, tr)) by { reveal(accesses); } assert(calm(b0, cf, s0)); }
//% loop 0
    invariant
        b_ok(b0, self.bundles@, vw@), separate(b0, -1), self.config == cf, self.context_info == p0.context_info,
        self.context_info.time.mine(vw@), free(vw@), clock(vw@) < INF, vw@.me == w0.me,
        accesses(b0, cf, tr), calm(b0, cf, s0), tr.len() > 0, tr[0] == s0, a == tr.last(), self.bundles.len() == b0.len(), agree_n(self.bundles@, a.n, vw@),
        self.datastore == a.mem, store_wf(a.mem), popped(cf, a, self.request_windows@, clock(vw@)), not_past(b0, cf, a, clock(vw@)), a.clk <= clock(vw@),
//% proof loop 0 start
    let ghost mut rb = self.bundles@;
    let ghost mut wc = vw@;
    let ghost mut wb = vw@;
    let ghost mut clk1 = clock(vw@);
    let ghost mut w3 = vw@;
    let ghost mut w4 = vw@;
    let ghost mut gi: int = 0;
    let ghost mut t: int = 0;
    let ghost mut vs: Seq<T> = Seq::empty();
    let ghost mut gsize: int = 0;
    let ghost mut rt: int = 0;
    let ghost mut y: int = 0;
    let ghost mut at: Time = Time { time: 0, done: false };
    proof { assert(mild(a.win)) by { reveal(calm); } }
//% proof after advance 0
    proof { lemma_keep(b0, self.bundles@, a.n, wc, vw@); }
//% proof loop 1 before
    proof {
        rb = self.bundles@;
        wc = vw@;
        clk1 = clock(vw@);
        lemma_flat(b0, rb, a.n, wc);
        assert(knows(Seq::empty(), ddue(b0, a), 0)) by { reveal(knows); }
    }
//% loop 1
    invariant
        separate(b0, -1), vx_i1 <= self.bundles.len(), self.bundles.len() == b0.len(), knows(vx_v1@, ddue(b0, a), vx_i1 as int),
        rb == self.bundles@, wc == vw@, b_ok(b0, rb, wc), flat(b0, rb, a.n, wc), agree_n(rb, a.n, wc),
        self.config == cf, self.context_info == p0.context_info, self.datastore == a.mem, self.request_windows@ == open_win(cf, a),
        self.context_info.time.mine(vw@), free(vw@), vw@.me == w0.me, clock(vw@) == clk1,
    decreases self.bundles.len() - vx_i1
//% proof loop 1 start
    let ghost v1 = vx_v1@;
    proof { lemma_flat_at(b0, rb, a.n, wc, vx_i1 as int); }
//% proof loop 1 end
    proof {
        let m = vx_i1 - 1;
        assert(self.bundles@ =~= rb.update(m, self.bundles@[m]));
        lemma_ask(b0, rb, self.bundles@, a.n, wc, vw@, m, vx_v1@.last());
        assert(vx_v1@.drop_last() =~= v1);
        lemma_knows(vx_v1@.drop_last(), vx_v1@.last(), ddue(b0, a), m);
        assert(vx_v1@ =~= vx_v1@.drop_last().push(vx_v1@.last()));
        rb = self.bundles@;
        wc = vw@;
    }
//% proof loop 2 before
    proof {
        assert(forall|i: int| 0 <= i < bundle_timings.len() ==> ev_ok(#[trigger] bundle_timings@[i])) by { reveal(knows); }
        assert(bundle_timings.len() == b0.len()) by { reveal(knows); }
    }
//% loop 2
    invariant
        vx_i2 <= bundle_timings.len(), vx_v2.len() == vx_i2, forall|i: int| 0 <= i < vx_i2 ==> #[trigger] vx_v2@[i] == bundle_timings@[i],
        vx_i2 == bundle_timings.len() ==> vx_v2@ == bundle_timings@, bundle_timings.len() > 0,
    decreases bundle_timings.len() - vx_i2
//% proof loop 2 end
    proof { assert(vx_i2 == bundle_timings.len() ==> vx_v2@ =~= bundle_timings@); }
//% loop 3
    invariant
        vx_i3 <= bundle_timings.len(), vx_v3, forall|i: int| 0 <= i < bundle_timings.len() ==> #[trigger] bundle_timings@[i] is Closed,
    decreases bundle_timings.len() - vx_i3
//% proof loop 3 before
    proof { lemma_least(b0, a, bundle_timings@, next_event->Some_0.0 as int); }
//% proof after advance 1
    proof { lemma_keep(b0, self.bundles@, a.n, wc, vw@); }
//% proof after advance 2
    proof {
        gi = next_event->Some_0.0 as int;
        wb = vw@;
        t = clock(vw@);
        lemma_least(b0, a, bundle_timings@, gi);
        assert(t == imax(open_at(cf, a), ddue(b0, a)(gi)));
        lemma_keep(b0, rb, a.n, wc, wb);
        lemma_flat_at(b0, rb, a.n, wb, gi);
        assert(rb == self.bundles@);
        assert(b_small(b0[gi]));
        if b0[gi] is Write {
            let g = rb[gi]->Write_0;
            assert(ready_in(g.addr, (a.n)(gi, 0), t) && ready_in(g.request_size, (a.n)(gi, 1), t) && ready_in(g.data, (a.n)(gi, 2), t));
            assert(idx_at::<IT>(g.addr.st().ch, (a.n)(gi, 0)) <= AMAX && idx_at::<IT>(g.request_size.st().ch, (a.n)(gi, 1)) <= SMAX);
        } else {
            let g = rb[gi]->Read_0;
            assert(ready_in(g.addr, (a.n)(gi, 0), t) && ready_in(g.req_size, (a.n)(gi, 1), t));
            assert(idx_at::<IT>(g.addr.st().ch, (a.n)(gi, 0)) <= AMAX && idx_at::<IT>(g.req_size.st().ch, (a.n)(gi, 1)) <= SMAX);
        }
    }
//% proof loop 4 before
    proof {
        w3 = vw@;
        let g = rb[gi]->Write_0;
        assert(took(g.addr, *addr, g.request_size, *request_size, wb, w3, t));
        lemma_none::<T>(data.st(), (a.n)(gi, 2), t);
        assert(write_buffer@ =~= Seq::<T>::empty());
        assert(start == idx_at::<IT>(g.addr.st().ch, (a.n)(gi, 0)) && size == idx_at::<IT>(g.request_size.st().ch, (a.n)(gi, 1)));
    }
//% loop 4
    invariant
        clear(Port::In(data.st()), Port::Out(ack.st())), vx_e4 == size, vx_i4 <= size, data.st() == rb[gi]->Write_0.data.st(), r_port(*data, vw@), data.deq(vw@) == (a.n)(gi, 2) + vx_i4,
        clock(vw@) == taken_at(data.st().ch, (a.n)(gi, 2), t, vx_i4 as int), clock(vw@) < INF, (a.n)(gi, 2) + vx_i4 <= total(data.st().ch),
        write_buffer@ == items::<T>(data.st().ch, (a.n)(gi, 2), vx_i4 as int), all_acked(data.st(), (a.n)(gi, 2), t, vx_i4 as int),
        io_step(w3, vw@, data.st().ack, data.st().ch), free(vw@), vw@.me == w0.me, self.context_info.time.mine(vw@),
        ack.st() == rb[gi]->Write_0.ack.st(), s_port(*ack, vw@), s_n(*ack, vw@) == (a.n)(gi, 3),
    decreases size - vx_i4
//% proof loop 4 start
    let ghost wb4 = write_buffer@;
//% proof loop 4 end
    proof { lemma_item::<T>(data.st(), (a.n)(gi, 2), t, vx_i4 - 1, wb4); assert(write_buffer@ =~= wb4.push(write_buffer@.last())); }
//% proof loop 5 before
    proof {
        w4 = vw@;
        vs = write_buffer@;
        assert(vs.len() == size) by { reveal(items); }
        assert(write_buffer@.take(0) =~= Seq::<T>::empty());
    }
//% loop 5
    invariant
        vx_i5 <= write_buffer.len(), total_of(vx_v5@) == bits(write_buffer@.take(vx_i5 as int)), 0 <= total_of(vx_v5@) <= vx_i5 * WMAX,
        forall|x: T| 0 <= #[trigger] x.width() <= WMAX,
    decreases write_buffer.len() - vx_i5
//% proof loop 5 start
    let ghost v5 = vx_v5@;
//% proof loop 5 end
    proof {
        lemma_bits(write_buffer@, vx_i5 - 1);
        assert(vx_v5@.drop_last() =~= v5);
        if vx_i5 == write_buffer.len() { assert(write_buffer@.take(vx_i5 as int) =~= write_buffer@); }
    }
//% proof loop 6 before
    proof {
        assert(vs.take(vs.len() as int) =~= vs);
        assert(vx_b6@ =~= vs.subrange(0, vs.len() as int));
        assert(stored(a.mem, self.datastore, start as int, vs, tk(write_time), 0)) by { reveal(stored); }
    }
//% loop 6
    invariant
        vx_i6 + vx_b6.len() == vs.len(), vx_b6@ == vs.subrange(vx_i6 as int, vs.len() as int), store_wf(self.datastore),
        stored(a.mem, self.datastore, start as int, vs, tk(write_time), vx_i6 as int), store_wf(a.mem), may_refuse(), start <= AMAX, vs.len() <= SMAX,
        self.config == cf, self.context_info == p0.context_info, self.request_windows@ == open_win(cf, a),
    decreases vx_b6.len()
//% proof loop 6 start
    let ghost ds = self.datastore;
//% proof loop 6 end
    proof {
        lemma_store(a.mem, ds, self.datastore, start as int, vs, tk(write_time), vx_i6 - 1, StoreElement { data: vs[vx_i6 - 1], time: write_time });
        assert(vx_b6@ =~= vs.subrange(vx_i6 as int, vs.len() as int));
    }
//% proof after push_back 0
    proof {
        at = write_time;
        gsize = size as int;
        assert(gave(rb[gi]->Write_0.ack, *ack, w4, vw@, tk(write_time) + 1));
        let b1 = self.bundles@;
            let (g, g1) = (rb[gi]->Write_0, b1[gi]->Write_0);
            assert(b1 =~= rb.update(gi, b1[gi]));
            lemma_wrote(b0, rb, b1, a.n, gi, g, g1, wb, wb, w3, w4, vw@, t, gsize, tk(at) + 1);
            let z = DS { clk: clock(vw@), n: plus(a.n, gi, |k: int| if k == 0 || k == 1 { 1int } else if k == 2 { gsize } else if g.ack.st().live { 1int } else { 0 }), win: self.request_windows@, mem: self.datastore };
            assert(self.request_windows@.drop_last() =~= open_win(cf, a));
            assert(write_one(b0[gi]->Write_0, cf, a, z, gi, t));
            assert(serves(b0, cf, a, z, gi));
            lemma_accesses(b0, cf, tr, z);
            tr = tr.push(z);
            a = z;
    }
//% proof loop 7 before
    proof {
        w3 = vw@;
        let g = rb[gi]->Read_0;
        assert(took(g.addr, *addr, g.req_size, *req_size, wb, w3, t));
        gsize = idx_at::<IT>(g.req_size.st().ch, (a.n)(gi, 1));
        assert(loaded(a.mem, address.idx() as int, Seq::<T>::empty(), read_time)) by { reveal(loaded); }
        assert(address.idx() == idx_at::<IT>(g.addr.st().ch, (a.n)(gi, 0)) && size.idx() == gsize);
        assert(s_port(*data, w3));
    }
//% loop 7
    invariant
        self.datastore == a.mem, store_wf(a.mem), may_refuse(), address.idx() <= vx_i7 <= vx_e7, vx_e7 == address.idx() + gsize, vx_v7.len() == vx_i7 - address.idx(), loaded(a.mem, address.idx() as int, vx_v7@, read_time),
    decreases vx_e7 - vx_i7
//% proof loop 7 start
    let ghost v7 = vx_v7@;
//% proof loop 7 end
    proof {
        lemma_load(a.mem, address.idx() as int, v7, read_time, vx_v7@.last());
        assert(vx_v7@ =~= v7.push(vx_v7@.last()));
    }
//% proof loop 8 before
    proof {
        vs = read_vals@;
        assert(vs.len() == gsize);
        assert(read_vals@.take(0) =~= Seq::<T>::empty());
    }
//% loop 8
    invariant
        vx_i8 <= read_vals.len(), total_of(vx_v8@) == bits(read_vals@.take(vx_i8 as int)), 0 <= total_of(vx_v8@) <= vx_i8 * WMAX,
        forall|x: T| 0 <= #[trigger] x.width() <= WMAX,
    decreases read_vals.len() - vx_i8
//% proof loop 8 start
    let ghost v8 = vx_v8@;
//% proof loop 8 end
    proof {
        lemma_bits(read_vals@, vx_i8 - 1);
        assert(vx_v8@.drop_last() =~= v8);
        if vx_i8 == read_vals.len() { assert(read_vals@.take(vx_i8 as int) =~= read_vals@); }
    }
//% proof loop 9 before
    proof {
        assert(vs.take(vs.len() as int) =~= vs);
        assert(vx_b9@ =~= vs.subrange(0, vs.len() as int));
        rt = tk(read_finish_time);
        y = (a.n)(gi, 2);
        assert(answered(data.st(), y, t, rt, vs, 0)) by { reveal(answered); }
    }
//% loop 9
    invariant
        vx_i9 + vx_b9.len() == vs.len(), vx_b9@ == vs.subrange(vx_i9 as int, vs.len() as int),
        rt <= 0x3800_0000_0000_0000, vs.len() <= SMAX, t < INF, !result_time.done, tk(result_time) == res_at(data.st(), y, t, rt, vx_i9 as int), tk(result_time) <= imax(CLKMAX, rt) + vx_i9,
        clock(vw@) == sent_at(data.st(), y, t, vx_i9 as int), clock(vw@) < INF, data.st() == rb[gi]->Read_0.data.st(), s_port(*data, vw@),
        data.st().live ==> s_n(*data, vw@) == y + vx_i9 && answered(data.st(), y, t, rt, vs, vx_i9 as int),
        io_step(w3, vw@, out_key(data.st()), in_ack(data.st())), free(vw@), vw@.me == w0.me, self.context_info.time.mine(vw@),
    decreases vx_b9.len()
//% proof loop 9 start
    proof { lemma_res(data.st(), y, t, rt, vx_i9 as int); }
//% proof loop 9 end
    proof {
        assert(vx_b9@ =~= vs.subrange(vx_i9 as int, vs.len() as int));
        if data.st().live {
            let k = vx_i9 - 1;
            assert(dat_at::<T>(data.st().ch, y + k) == vs[k]);
            assert(sent_at(data.st(), y, t, k + 1) == clock(vw@));
            assert(y + k < total(data.st().ch) && hstamp(data.st().ch, y + k) == imax(res_at(data.st(), y, t, rt, k + 1), sent_at(data.st(), y, t, k + 1) + data.st().lat));
            lemma_answer(data.st(), y, t, rt, vs, k);
        }
    }
//% proof after push_back 1
    proof {
        at = read_time;
        let b1 = self.bundles@;
            let (g, g1) = (rb[gi]->Read_0, b1[gi]->Read_0);
            assert(b1 =~= rb.update(gi, b1[gi]));
            lemma_did_read(b0, rb, b1, a.n, gi, g, g1, wb, wb, w3, vw@, t, gsize);
            let z = DS { clk: clock(vw@), n: plus(a.n, gi, |k: int| if k == 0 || k == 1 { 1int } else if k == 2 && g.data.st().live { gsize } else { 0 }), win: self.request_windows@, mem: self.datastore };
            assert(self.request_windows@.drop_last() =~= open_win(cf, a));
            assert(read_one(b0[gi]->Read_0, cf, a, z, gi, t, at, vs));
            assert(serves(b0, cf, a, z, gi));
            lemma_accesses(b0, cf, tr, z);
            tr = tr.push(z);
            a = z;
    }
//% end
//% raw
} // mod dram
