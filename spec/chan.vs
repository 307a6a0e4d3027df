//% raw
// ================================================================ channels
pub trait Msg: Sized {
    spec fn stamp(self) -> int;
    spec fn msmall(self) -> bool;
}
impl Msg for Time {
    open spec fn stamp(self) -> int { tk(self) }
    open spec fn msmall(self) -> bool { tsmall(self) }
}
impl<T> Msg for ChannelElement<T> {
    open spec fn stamp(self) -> int { tk(self.time) }
    open spec fn msmall(self) -> bool { tsmall(self.time) }
}
/// one more item sent / taken
pub open spec fn sent1(w: WV, ch: int) -> WV { WV { sent: w.sent.insert(ch, w.sent[ch] + 1), ..w } }
/// like `step`, but items may have been sent on `s` and taken from `r`
pub open spec fn io_step(w: WV, v: WV, s: int, r: int) -> bool {
    &&& v.me == w.me && v.thr == w.thr
    &&& forall|c: int| #[trigger] v.sent[c] == w.sent[c] || (c == s && v.sent[c] >= w.sent[c])
    &&& forall|c: int| #[trigger] v.rcvd[c] == w.rcvd[c] || (c == r && v.rcvd[c] >= w.rcvd[c])
    &&& grow(w, v)
    &&& v.dirty ==> w.dirty
}
/// the same without moving the own clock
pub open spec fn io_sync(w: WV, v: WV, s: int, r: int) -> bool { io_step(w, v, s, r) && v.seen[w.me] == w.seen[w.me] }
pub open spec fn free(w: WV) -> bool { w.lk.held is None }

pub mod xb {
use super::*;
pub enum TryRecvError { Empty, Disconnected }
pub struct RecvError {}
pub struct SendError<M> { pub m: M }
#[verifier::external_body]
#[verifier::accept_recursive_types(M)]
pub struct Sender<M> { x: Vec<M> }
#[verifier::external_body]
#[verifier::accept_recursive_types(M)]
pub struct Receiver<M> { x: Vec<M> }
impl<M: Msg> Sender<M> {
    pub uninterp spec fn ch(&self) -> int;
    #[verifier::external_body]
    pub fn send(&self, x: M, vw: &mut World) -> (r: Result<(), SendError<M>>)
        requires ({ let w = old(vw)@; let ch = self.ch();
            &&& w.me == src(ch) && free(w)
            &&& clock(w) < INF && clock(w) + lat(ch) <= x.stamp() && x.stamp() < INF
            &&& slack(ch) is Some ==> w.sent[ch] < w.rcvd[peer(ch)] + slack(ch)->Some_0 }),
        ensures ({ let w = old(vw)@; let v = final(vw)@; let ch = self.ch(); let n = w.sent[ch];
            &&& r is Ok ==> v == sent1(w, ch) && n < total(ch) && hist::<M>(ch, n) == x && hstamp(ch, n) == x.stamp() && x.msmall()
            &&& r is Err ==> v == w && total(ch) <= n }),
    { unimplemented!() }
}
/// item k has been taken
pub open spec fn took<M: Msg>(w: WV, v: WV, ch: int, x: M) -> bool {
    let k = w.rcvd[ch];
    &&& v.rcvd == w.rcvd.insert(ch, k + 1)
    &&& 0 <= k < total(ch) && x == hist::<M>(ch, k) && hstamp(ch, k) == x.stamp() && x.msmall() && x.stamp() < INF
    // the sender's credit at the time: it had been given by this context
    &&& slack(ch) is Some ==> k < w.sent[peer(ch)] + slack(ch)->Some_0
}
pub open spec fn recv_frame(w: WV, v: WV) -> bool {
    &&& v.me == w.me && v.thr == w.thr && v.sent == w.sent && grow(w, v) && v.dirty == w.dirty && v.lk == w.lk && v.unparked == w.unparked
    &&& v.seen[w.me] == w.seen[w.me]
}
impl<M: Msg> Receiver<M> {
    pub uninterp spec fn ch(&self) -> int;
    #[verifier::external_body]
    pub fn recv(&self, vw: &mut World) -> (r: Result<M, RecvError>)
        requires free(old(vw)@)
        ensures recv_frame(old(vw)@, final(vw)@),
            r matches Ok(x) ==> took(old(vw)@, final(vw)@, self.ch(), x),
            r is Err ==> final(vw)@.rcvd == old(vw)@.rcvd && total(self.ch()) == old(vw)@.rcvd[self.ch()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_recv(&self, vw: &mut World) -> (r: Result<M, TryRecvError>)
        requires free(old(vw)@)
        ensures recv_frame(old(vw)@, final(vw)@),
            r matches Ok(x) ==> took(old(vw)@, final(vw)@, self.ch(), x),
            r matches Err(TryRecvError::Disconnected) ==> final(vw)@.rcvd == old(vw)@.rcvd && total(self.ch()) == old(vw)@.rcvd[self.ch()],
            // everything sent before the newest known instant of the sender would have been visible
            r matches Err(TryRecvError::Empty) ==> final(vw)@.rcvd == old(vw)@.rcvd
                && nsent(self.ch(), final(vw)@.seen[src(self.ch())]) <= old(vw)@.rcvd[self.ch()] <= total(self.ch()),
    { unimplemented!() }
}
}
//% pathmap crate::shim::channel::* => xb::*
//% pathmap channel::Receiver => xb::Receiver
//% pathmap channel::Sender => xb::Sender
//% pathmap channel::TryRecvError::* => xb::TryRecvError::*
//% pathmap TryRecvError::* => xb::TryRecvError::*
//% typemap ResponseChannel => xb::Sender<Time>
//% typemap ViewType => Option<TimeView>
//% effects send recv try_recv
//% shims send recv try_recv
//% file src/channel/mod.rs
//% struct ChannelElement noderive
//% enum PeekResult noderive
//% enum DequeueError
//% enum EnqueueError
//% raw
// derive(Clone)
impl<T: DAMType> Clone for ChannelElement<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { ChannelElement { time: self.time, data: self.data.clone() } }
}
impl<T: DAMType> Clone for PeekResult<T> {
    fn clone(&self) -> (r: Self) ensures r == *self {
        match self { PeekResult::Something(x) => PeekResult::Something(x.clone()), PeekResult::Nothing(t) => PeekResult::Nothing(*t), PeekResult::Closed => PeekResult::Closed }
    }
}
//% impl ChannelElement => impl<T> ChannelElement<T>
//% fn new ret=r params=time,data
    ensures r.time == time, r.data == data,
//% fn update_time params=new_time
    ensures tk(final(self).time) == imax(tk(old(self).time), tk(new_time)), final(self).data == old(self).data,
        final(self).time == old(self).time || final(self).time == new_time,
//% end
//% impl TryInto<Result<ChannelElement<T>,DequeueError>> for PeekResult => impl<T> PeekResult<T>
//% fn try_into as=vx_try_into ret=r
//% sig
    pub fn vx_try_into(self) -> (r: Result<Result<ChannelElement<T>, DequeueError>, ()>)
    ensures
        r == (match self { PeekResult::Something(x) => Ok::<Result<ChannelElement<T>, DequeueError>, ()>(Ok(x)),
            PeekResult::Nothing(_) => Err(()), PeekResult::Closed => Ok(Err(DequeueError::Closed)) }),
//% end
//% raw
/// the view shows context c and nothing else
pub open spec fn only(t: TimeView, c: int) -> bool { covers(t, c) && forall|d: int| #[trigger] covers(t, d) ==> d == c }
//% file src/channel/channel_spec.rs
//% struct InlineSpec noderive
//% raw
impl InlineSpec {
    pub open spec fn sv(&self) -> TimeView { self.sender_view->Some_0 }
    pub open spec fn rv(&self) -> TimeView { self.receiver_view->Some_0 }
    pub open spec fn wf(&self) -> bool {
        &&& self.sender_view is Some && view_wf(self.sv())
        &&& self.receiver_view is Some && view_wf(self.rv())
        &&& 1 <= self.send_latency < HORIZON && 1 <= self.response_latency < HORIZON
        &&& self.capacity matches Some(c) ==> c >= 1
    }
}
//% impl InlineSpec => impl InlineSpec
//% fn wait_until_sender world ret=r params=time
    requires self.wf(), free(old(vw)@)
    ensures wait_post(self.sv(), tk(time), old(vw)@, final(vw)@, r), tsmall(time) ==> tsmall(r),
//% fn sender_tlb world ret=r
    requires self.wf(), free(old(vw)@)
    ensures tlb_post(self.sv(), old(vw)@, final(vw)@, r), tsmall(r),
        only(self.sv(), old(vw)@.me) ==> tk(r) == clock(old(vw)@),
//% proof start
    proof { if only(self.sv(), vw@.me) { assert(reached(self.sv(), vw@, clock(vw@))); } }
//% fn wait_until_receiver world ret=r params=time
    requires self.wf(), free(old(vw)@)
    ensures wait_post(self.rv(), tk(time), old(vw)@, final(vw)@, r), tsmall(time) ==> tsmall(r),
//% fn receiver_tlb world ret=r
    requires self.wf(), free(old(vw)@)
    ensures tlb_post(self.rv(), old(vw)@, final(vw)@, r), tsmall(r),
        only(self.rv(), old(vw)@.me) ==> tk(r) == clock(old(vw)@),
//% proof start
    proof { if only(self.rv(), vw@.me) { assert(reached(self.rv(), vw@, clock(vw@))); } }
//% end
//% dispatch SenderFlavor SenderImpl ufcs
//% dispatch ReceiverFlavor ReceiverImpl ufcs
