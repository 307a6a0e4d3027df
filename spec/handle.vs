//% raw
// ================================================================ channel handles, creation and wiring
pub mod handle {
use super::*;
use super::send::*;
use super::recv::*;
use super::sflav::*;
use super::rflav::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
/// a context as its channels see it: its view and its identifier
#[verifier::external_body]
pub struct DynContext { x: u8 }
impl DynContext {
    pub uninterp spec fn v(&self) -> TimeView;
    pub uninterp spec fn i(&self) -> Identifier;
    #[verifier::external_body]
    pub fn view(&self) -> (r: TimeView) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn id(&self) -> (r: Identifier) ensures r == self.i() { unimplemented!() }
}
/// process-wide counters behind identifiers
pub uninterp spec fn counter(which: int, i: int) -> int;
#[verifier::external_body]
pub struct AtomicUsize { x: u8 }
impl AtomicUsize {
    /// number of values handed out before
    #[verifier::external_body]
    pub const fn new(x: usize) -> (r: Self) { unimplemented!() }
}
//% typemap Mutex<ViewType> => Option<TimeView>
//% typemap Mutex<Option<Identifier>> => Option<Identifier>
//% pathmap channel::bounded => xbc::bounded
//% pathmap channel::unbounded => xbc::unbounded
//% file src/datastructures/identifier.rs
//% struct Identifier
//% file src/channel/channel_id.rs
//% struct ChannelID
//% impl ChannelID => impl ChannelID
//% fn new contract_only
//% end
//% file src/channel/channel_spec.rs
//% struct ChannelSpec noderive
//% raw
impl ChannelSpec {
    /// Arc::clone
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn or1(x: Option<u64>) -> u64 { match x { Some(v) => v, None => 1 } }
//% impl ChannelSpec => impl ChannelSpec
//% fn new maypanic nolock ret=r params=capacity,send_latency,resp_latency
    ensures r.capacity == capacity, r.send_latency == or1(send_latency), r.response_latency == or1(resp_latency),
        r.send_latency >= 1, r.response_latency >= 1,
        r.sender_view is None, r.receiver_view is None, r.sender_id is None, r.receiver_id is None,
//% fn sender_id nolock ret=r
    ensures r == self.sender_id,
//% fn receiver_id nolock ret=r
    ensures r == self.receiver_id,
//% fn latency ret=r
    ensures r == self.send_latency,
//% fn resp_latency ret=r
    ensures r == self.response_latency,
//% fn capacity ret=r
    ensures r == self.capacity,
//% fn id ret=r
    ensures r == self.channel_id,
//% fn attach_sender mutself nolock params=sender
    ensures *final(self) == (ChannelSpec { sender_view: Some(sender.v()), sender_id: Some(sender.i()), ..*old(self) }),
//% fn attach_receiver mutself nolock params=receiver
    ensures *final(self) == (ChannelSpec { receiver_view: Some(receiver.v()), receiver_id: Some(receiver.i()), ..*old(self) }),
//% fn make_inline nolock ret=r
    ensures spec_copy(r, *self),
//% end
//% raw
pub open spec fn spec_copy(r: InlineSpec, s: ChannelSpec) -> bool {
    r == InlineSpec { capacity: s.capacity, send_latency: s.send_latency, response_latency: s.response_latency,
        sender_view: s.sender_view, receiver_view: s.receiver_view }
}
pub mod xbc {
use super::*;
/// how many undelivered items the queue holds before `send` blocks
pub uninterp spec fn depth(ch: int) -> Option<int>;
#[verifier::external_body]
pub fn bounded<M: Msg>(n: usize) -> (r: (xb::Sender<M>, xb::Receiver<M>)) ensures r.0.ch() == r.1.ch(), depth(r.0.ch()) == Some(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn unbounded<M: Msg>() -> (r: (xb::Sender<M>, xb::Receiver<M>)) ensures r.0.ch() == r.1.ch(), depth(r.0.ch()) is None { unimplemented!() }
/// queues that never block a sender which respects the capacity
pub open spec fn holds(ch: int, cap: int) -> bool { depth(ch) matches Some(n) ==> n >= cap }
}
use xbc::*;
pub trait VxInto<T>: Sized {
    spec fn into_spec(self) -> T;
    fn vx_into(self) -> (r: T) ensures r == self.into_spec();
}
//% file src/channel/sender/uninitialized.rs
//% struct UninitializedSender noderive
//% impl UninitializedSender => impl<T> UninitializedSender<T>
//% fn new ret=r params=spec
    ensures r.spec == spec,
//% fn attach_sender mutself params=sender
    ensures *final(self) == (UninitializedSender::<T> { spec: final(self).spec, ..*old(self) }),
        final(self).spec == (ChannelSpec { sender_view: Some(sender.v()), sender_id: Some(sender.i()), ..old(self).spec }),
//% end
//% impl SenderFlavor for UninitializedSender [trait] => impl<T> SenderFlavor<T> for UninitializedSender<T>
//% raw
    open spec fn st(&self) -> SS { SS { ready: false, live: false, ch: -1, lat: 0, resp: -1, cap: None, cyclic: false } }
    open spec fn inv(&self, w: WV) -> bool { free(w) }
//% fn wait_until_available world ret=r params=_manager maypanic
//% fn enqueue world ret=r params=_manager,_data maypanic
//% end
//% file src/channel/sender/void.rs
//% impl Default for VoidSender => impl<T> VoidSender<T>
//% fn default ret=r
//% end
//% file src/channel/sender/terminated.rs
//% impl Default for TerminatedSender => impl<T> TerminatedSender<T>
//% fn default ret=r
//% end
//% file src/channel/receiver/uninitialized.rs
//% struct UninitializedReceiver noderive
//% impl UninitializedReceiver => impl UninitializedReceiver
//% fn new ret=r params=spec
    ensures r.spec == spec,
//% fn attach_receiver mutself params=receiver
    ensures final(self).spec == (ChannelSpec { receiver_view: Some(receiver.v()), receiver_id: Some(receiver.i()), ..old(self).spec }),
//% end
//% file src/channel/receiver/terminated.rs
//% struct TerminatedReceiver noderive
//% raw
impl TerminatedReceiver { pub fn default() -> (r: Self) { TerminatedReceiver {} } }
//% file src/channel/receiver/uninitialized.rs
//% impl ReceiverFlavor for UninitializedReceiver [trait] => impl<T: DAMType> ReceiverFlavor<T> for UninitializedReceiver
//% raw
    open spec fn st(&self) -> RS { RS { ready: false, ch: -1, ack: -1, alat: 0, bounded: false, cyclic: false } }
    open spec fn inv(&self, w: WV) -> bool { free(w) }
    open spec fn deq(&self, w: WV) -> int { 0 }
//% fn peek world ret=r maypanic
//% fn peek_next world ret=r params=_manager maypanic
//% fn dequeue world ret=r params=_manager maypanic
//% end
//% file src/channel/receiver/terminated.rs
//% impl ReceiverFlavor for TerminatedReceiver [trait] => impl<T: DAMType> ReceiverFlavor<T> for TerminatedReceiver
//% raw
    open spec fn st(&self) -> RS { RS { ready: false, ch: -1, ack: -1, alat: 0, bounded: false, cyclic: false } }
    open spec fn inv(&self, w: WV) -> bool { free(w) }
    open spec fn deq(&self, w: WV) -> int { 0 }
//% fn peek world ret=r maypanic
//% fn peek_next world ret=r params=_manager maypanic
//% fn dequeue world ret=r params=_manager maypanic
//% end
//% file src/channel/sender/mod.rs
//% enum SenderImpl noderive
//% raw
impl<T> VxInto<SenderImpl<T>> for UninitializedSender<T> { open spec fn into_spec(self) -> SenderImpl<T> { SenderImpl::Uninitialized(self) } fn vx_into(self) -> SenderImpl<T> { SenderImpl::Uninitialized(self) } }
impl<T> VxInto<SenderImpl<T>> for TerminatedSender<T> { open spec fn into_spec(self) -> SenderImpl<T> { SenderImpl::Terminated(self) } fn vx_into(self) -> SenderImpl<T> { SenderImpl::Terminated(self) } }
impl<T> VxInto<SenderImpl<T>> for VoidSender<T> { open spec fn into_spec(self) -> SenderImpl<T> { SenderImpl::Void(self) } fn vx_into(self) -> SenderImpl<T> { SenderImpl::Void(self) } }
impl<T> VxInto<SenderImpl<T>> for BoundedCyclicSender<T> { open spec fn into_spec(self) -> SenderImpl<T> { SenderImpl::Cyclic(self) } fn vx_into(self) -> SenderImpl<T> { SenderImpl::Cyclic(self) } }
impl<T> VxInto<SenderImpl<T>> for BoundedAcyclicSender<T> { open spec fn into_spec(self) -> SenderImpl<T> { SenderImpl::Acyclic(self) } fn vx_into(self) -> SenderImpl<T> { SenderImpl::Acyclic(self) } }
impl<T> VxInto<SenderImpl<T>> for UnboundedSender<T> { open spec fn into_spec(self) -> SenderImpl<T> { SenderImpl::Infinite(self) } fn vx_into(self) -> SenderImpl<T> { SenderImpl::Infinite(self) } }
//% impl SenderFlavor for SenderImpl [trait] => impl<T> SenderFlavor<T> for SenderImpl<T>
//% raw
    open spec fn st(&self) -> SS { match self { SenderImpl::Uninitialized(x) => SenderFlavor::<T>::st(x), SenderImpl::Terminated(x) => SenderFlavor::<T>::st(x), SenderImpl::Void(x) => SenderFlavor::<T>::st(x), SenderImpl::Cyclic(x) => SenderFlavor::<T>::st(x), SenderImpl::Acyclic(x) => SenderFlavor::<T>::st(x), SenderImpl::Infinite(x) => SenderFlavor::<T>::st(x) } }
    open spec fn inv(&self, w: WV) -> bool { match self { SenderImpl::Uninitialized(x) => SenderFlavor::<T>::inv(x, w), SenderImpl::Terminated(x) => SenderFlavor::<T>::inv(x, w), SenderImpl::Void(x) => SenderFlavor::<T>::inv(x, w), SenderImpl::Cyclic(x) => SenderFlavor::<T>::inv(x, w), SenderImpl::Acyclic(x) => SenderFlavor::<T>::inv(x, w), SenderImpl::Infinite(x) => SenderFlavor::<T>::inv(x, w) } }
//% fn wait_until_available world ret=r params=manager
//% fn enqueue world ret=r params=manager,data
//% end
//% file src/channel/receiver/mod.rs
//% enum ReceiverImpl noderive bound=DAMType
//% raw
impl<T: DAMType> VxInto<ReceiverImpl<T>> for UninitializedReceiver { open spec fn into_spec(self) -> ReceiverImpl<T> { ReceiverImpl::Uninitialized(self) } fn vx_into(self) -> ReceiverImpl<T> { ReceiverImpl::Uninitialized(self) } }
impl<T: DAMType> VxInto<ReceiverImpl<T>> for TerminatedReceiver { open spec fn into_spec(self) -> ReceiverImpl<T> { ReceiverImpl::Terminated(self) } fn vx_into(self) -> ReceiverImpl<T> { ReceiverImpl::Terminated(self) } }
impl<T: DAMType> VxInto<ReceiverImpl<T>> for BoundedCyclicReceiver<T> { open spec fn into_spec(self) -> ReceiverImpl<T> { ReceiverImpl::Cyclic(self) } fn vx_into(self) -> ReceiverImpl<T> { ReceiverImpl::Cyclic(self) } }
impl<T: DAMType> VxInto<ReceiverImpl<T>> for BoundedAcyclicReceiver<T> { open spec fn into_spec(self) -> ReceiverImpl<T> { ReceiverImpl::Acyclic(self) } fn vx_into(self) -> ReceiverImpl<T> { ReceiverImpl::Acyclic(self) } }
impl<T: DAMType> VxInto<ReceiverImpl<T>> for InfiniteAcyclicReceiver<T> { open spec fn into_spec(self) -> ReceiverImpl<T> { ReceiverImpl::AcyclicInfinite(self) } fn vx_into(self) -> ReceiverImpl<T> { ReceiverImpl::AcyclicInfinite(self) } }
impl<T: DAMType> VxInto<ReceiverImpl<T>> for InfiniteCyclicReceiver<T> { open spec fn into_spec(self) -> ReceiverImpl<T> { ReceiverImpl::CyclicInfinite(self) } fn vx_into(self) -> ReceiverImpl<T> { ReceiverImpl::CyclicInfinite(self) } }
//% impl ReceiverFlavor for ReceiverImpl [trait] => impl<T: DAMType> ReceiverFlavor<T> for ReceiverImpl<T>
//% raw
    open spec fn st(&self) -> RS { match self { ReceiverImpl::Uninitialized(x) => ReceiverFlavor::<T>::st(x), ReceiverImpl::Terminated(x) => ReceiverFlavor::<T>::st(x), ReceiverImpl::Cyclic(x) => ReceiverFlavor::<T>::st(x), ReceiverImpl::Acyclic(x) => ReceiverFlavor::<T>::st(x), ReceiverImpl::AcyclicInfinite(x) => ReceiverFlavor::<T>::st(x), ReceiverImpl::CyclicInfinite(x) => ReceiverFlavor::<T>::st(x) } }
    open spec fn inv(&self, w: WV) -> bool { match self { ReceiverImpl::Uninitialized(x) => ReceiverFlavor::<T>::inv(x, w), ReceiverImpl::Terminated(x) => ReceiverFlavor::<T>::inv(x, w), ReceiverImpl::Cyclic(x) => ReceiverFlavor::<T>::inv(x, w), ReceiverImpl::Acyclic(x) => ReceiverFlavor::<T>::inv(x, w), ReceiverImpl::AcyclicInfinite(x) => ReceiverFlavor::<T>::inv(x, w), ReceiverImpl::CyclicInfinite(x) => ReceiverFlavor::<T>::inv(x, w) } }
    open spec fn deq(&self, w: WV) -> int { match self { ReceiverImpl::Uninitialized(x) => ReceiverFlavor::<T>::deq(x, w), ReceiverImpl::Terminated(x) => ReceiverFlavor::<T>::deq(x, w), ReceiverImpl::Cyclic(x) => ReceiverFlavor::<T>::deq(x, w), ReceiverImpl::Acyclic(x) => ReceiverFlavor::<T>::deq(x, w), ReceiverImpl::AcyclicInfinite(x) => ReceiverFlavor::<T>::deq(x, w), ReceiverImpl::CyclicInfinite(x) => ReceiverFlavor::<T>::deq(x, w) } }
//% fn peek world ret=r
//% fn peek_next world ret=r params=manager
//% fn dequeue world ret=r params=manager
//% end
//% file src/channel/flavors.rs
//% enum ChannelFlavor
//% file src/channel/handle.rs
//% struct ChannelData noderive bound=DAMType
//% impl ChannelData => impl<T: DAMType> ChannelData<T>
//% fn new ret=r params=spec
    ensures r.sender matches SenderImpl::Uninitialized(s) && s.spec == spec,
        r.receiver matches ReceiverImpl::Uninitialized(s) && s.spec == spec,
        r.channel_spec == spec,
//% fn sender mutself contract_only ret=r
    ensures *r == old(self).sender, *final(self) == (ChannelData::<T> { sender: *final(r), ..*old(self) }),
//% fn receiver mutself contract_only ret=r
    ensures *r == old(self).receiver, *final(self) == (ChannelData::<T> { receiver: *final(r), ..*old(self) }),
//% end
//% raw
pub open spec fn sdata<T>(d: SenderData<T>, s: ChannelSpec) -> bool { spec_copy(d.spec, s) }
pub open spec fn rdata<T>(d: ReceiverData<T>, s: ChannelSpec) -> bool { spec_copy(d.spec, s) && d.head is None }
/// both ends agree on flavour and queues, start empty, and the queues never block
pub open spec fn wired_up<T: DAMType>(c: ChannelData<T>, f: ChannelFlavor) -> bool {
    let s = c.channel_spec;
    match (f, s.capacity) {
        (ChannelFlavor::Void, _) => c.sender is Void,
        (ChannelFlavor::Acyclic, Some(cap)) => c.sender matches SenderImpl::Acyclic(x) && (c.receiver matches ReceiverImpl::Acyclic(y)
            && sdata(x.data, s) && rdata(y.data, s) && x.data.ch() == y.data.ch() && x.bound.resp.ch() == y.resp.ch()
            && x.bound.send_receive_delta == 0 && holds(x.data.ch(), cap as int) && holds(y.resp.ch(), cap as int)),
        (ChannelFlavor::Cyclic, Some(cap)) => c.sender matches SenderImpl::Cyclic(x) && (c.receiver matches ReceiverImpl::Cyclic(y)
            && sdata(x.data, s) && rdata(y.data, s) && x.data.ch() == y.data.ch() && x.bound.resp.ch() == y.resp.ch()
            && x.bound.send_receive_delta == 0 && x.next_available is None && holds(x.data.ch(), cap as int) && holds(y.resp.ch(), cap as int)),
        (ChannelFlavor::Acyclic, None) => c.sender matches SenderImpl::Infinite(x) && (c.receiver matches ReceiverImpl::AcyclicInfinite(y)
            && sdata(x.data, s) && rdata(y.data, s) && x.data.ch() == y.data.ch() && depth(x.data.ch()) is None),
        (ChannelFlavor::Cyclic, None) => c.sender matches SenderImpl::Infinite(x) && (c.receiver matches ReceiverImpl::CyclicInfinite(y)
            && sdata(x.data, s) && rdata(y.data, s) && x.data.ch() == y.data.ch() && depth(x.data.ch()) is None),
    }
}
//% impl ChannelHandle for ChannelData => impl<T: DAMType> ChannelData<T>
//% fn set_flavor mutself params=flavor
    ensures final(self).channel_spec == old(self).channel_spec, wired_up(*final(self), flavor),
        flavor is Void ==> final(self).receiver == old(self).receiver,
//% fn sender as=handle_sender ret=r
    ensures r == self.channel_spec.sender_id,
//% fn receiver as=handle_receiver ret=r
    ensures r == self.channel_spec.receiver_id,
//% fn id ret=r
    ensures r == self.channel_spec.channel_id,
//% fn spec ret=r
    ensures r == self.channel_spec,
//% end
//% file src/channel/mod.rs
//% struct Sender noderive bound=DAMType
//% struct Receiver noderive bound=DAMType
//% raw
impl<T: DAMType> Sender<T> {
    pub open spec fn st(&self) -> SS { self.underlying.sender.st() }
    pub open spec fn inv(&self, w: WV) -> bool { self.underlying.sender.inv(w) }
}
impl<T: DAMType> Receiver<T> {
    pub open spec fn st(&self) -> RS { self.underlying.receiver.st() }
    pub open spec fn inv(&self, w: WV) -> bool { self.underlying.receiver.inv(w) }
    pub open spec fn deq(&self, w: WV) -> int { self.underlying.receiver.deq(w) }
}
//% impl Sender => impl<T: DAMType> Sender<T>
//% fn under mutself ret=r
    ensures *r == old(self).underlying.sender, final(self).underlying == (ChannelData::<T> { sender: *final(r), ..old(self).underlying }),
//% fn id ret=r
    ensures r == self.underlying.channel_spec.channel_id,
//% fn attach_sender mutself maypanic params=sender
    ensures final(self).underlying.channel_spec == old(self).underlying.channel_spec, final(self).underlying.receiver == old(self).underlying.receiver,
        old(self).underlying.sender is Uninitialized, final(self).underlying.sender is Uninitialized,
        final(self).underlying.sender->Uninitialized_0.spec == (ChannelSpec { sender_view: Some(sender.v()), sender_id: Some(sender.i()), ..old(self).underlying.sender->Uninitialized_0.spec }),
//% fn enqueue mutself world ret=r params=manager,data
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF, tfin(data.time)
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec, enq_ok(old(self).st(), old(vw)@, final(vw)@, data, r),
//% fn wait_until_available mutself world ret=r params=manager
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec, wait_ok(old(self).st(), old(vw)@, final(vw)@, r),
//% end
//% impl Drop for Sender => impl<T: DAMType> Sender<T>
//% fn drop
    ensures final(self).underlying.sender is Terminated, final(self).underlying.receiver == old(self).underlying.receiver,
        final(self).underlying.channel_spec == old(self).underlying.channel_spec,
//% end
//% impl Receiver => impl<T: DAMType> Receiver<T>
//% fn under mutself ret=r
    ensures *r == old(self).underlying.receiver, final(self).underlying == (ChannelData::<T> { receiver: *final(r), ..old(self).underlying }),
//% fn id ret=r
    ensures r == self.underlying.channel_spec.channel_id,
//% fn attach_receiver mutself maypanic params=receiver
    ensures final(self).underlying.channel_spec == old(self).underlying.channel_spec, final(self).underlying.sender == old(self).underlying.sender,
        old(self).underlying.receiver is Uninitialized, final(self).underlying.receiver is Uninitialized,
        final(self).underlying.receiver->Uninitialized_0.spec == (ChannelSpec { receiver_view: Some(receiver.v()), receiver_id: Some(receiver.i()), ..old(self).underlying.receiver->Uninitialized_0.spec }),
//% fn peek mutself world ret=r
    requires old(self).inv(old(vw)@)
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec,
        peek_ok(old(self).st(), old(vw)@, final(vw)@, old(self).deq(old(vw)@), final(self).deq(final(vw)@), r),
//% fn peek_next mutself world ret=r params=manager
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec,
        next_ok(old(self).st(), old(vw)@, final(vw)@, old(self).deq(old(vw)@), final(self).deq(final(vw)@), r),
//% fn dequeue mutself world ret=r params=manager
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec,
        deq_ok(old(self).st(), old(vw)@, final(vw)@, old(self).deq(old(vw)@), final(self).deq(final(vw)@), r),
//% end
//% impl Drop for Receiver => impl<T: DAMType> Receiver<T>
//% fn drop
    ensures final(self).underlying.receiver is Terminated, final(self).underlying.sender == old(self).underlying.sender,
        final(self).underlying.channel_spec == old(self).underlying.channel_spec,
//% end
//% shims view clone bounded unbounded
//% raw
} // mod handle
