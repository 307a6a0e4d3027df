//% raw
// ================================================================ converting channel adapters
pub mod adapt {
use super::*;
use super::send::*;
use super::recv::*;
use super::handle::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
/// TryInto (a conversion is deterministic: it is a function of the value)
pub trait VxTryInto<U>: Sized {
    type Error;
    spec fn try_spec(self) -> Result<U, Self::Error>;
    fn vx_try_into(self) -> (r: Result<U, Self::Error>) ensures r == self.try_spec();
}
/// the element with its value converted
pub open spec fn conv<T: VxTryInto<U>, U>(a: ChannelElement<T>, b: ChannelElement<U>) -> bool {
    a.time == b.time && a.data.try_spec() == Ok::<U, T::Error>(b.data)
}
pub open spec fn conv_peek<T: VxTryInto<U>, U>(a: PeekResult<T>, b: PeekResult<U>) -> bool {
    match (a, b) {
        (PeekResult::Something(x), PeekResult::Something(y)) => conv::<T, U>(x, y),
        (PeekResult::Nothing(x), PeekResult::Nothing(y)) => x == y,
        (PeekResult::Closed, PeekResult::Closed) => true,
        _ => false,
    }
}
pub open spec fn conv_deq<T: VxTryInto<U>, U>(a: Result<ChannelElement<T>, DequeueError>, b: Result<ChannelElement<U>, DequeueError>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => conv::<T, U>(x, y),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}
//% typemap TryInto<U> => VxTryInto<U>
//% typemap Into<U> => VxInto<U>
//% typemap <T as TryInto<U>>::Error => T::Error
//% file src/channel/mod.rs
//% impl ChannelElement => impl<T> ChannelElement<T>
//% fn new contract_only ret=r params=time,data as=new_element
    ensures r == (ChannelElement::<T> { time, data }),
//% fn convert ret=r
//% sig
    pub fn convert<U>(self) -> (r: ChannelElement<U>) where T: VxInto<U>
    ensures r.time == self.time, r.data == VxInto::<U>::into_spec(self.data),
//% fn try_convert ret=r
//% sig
    pub fn try_convert<U>(self) -> (r: Result<ChannelElement<U>, <T as VxTryInto<U>>::Error>) where T: VxTryInto<U>
    ensures self.data.try_spec() is Ok <==> r is Ok, r matches Ok(x) ==> conv::<T, U>(self, x),
//% end
//% file src/channel/adapters.rs
//% impl RecvAdapter for Receiver => impl<T: DAMType> Receiver<T>
//% fn attach_receiver mutself maypanic params=ctx as=adapter_attach_receiver
    ensures final(self).underlying.channel_spec == old(self).underlying.channel_spec, final(self).underlying.sender == old(self).underlying.sender,
        old(self).underlying.receiver is Uninitialized, final(self).underlying.receiver is Uninitialized,
        final(self).underlying.receiver->Uninitialized_0.spec == (ChannelSpec { receiver_view: Some(ctx.v()), receiver_id: Some(ctx.i()), ..old(self).underlying.receiver->Uninitialized_0.spec }),
//% fn peek mutself world ret=r maypanic
//% sig
    pub fn adapter_peek<U>(&mut self, vw: &mut World) -> (r: PeekResult<U>) where T: VxTryInto<U>
    requires old(self).inv(old(vw)@)
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec,
        exists|r0: PeekResult<T>| #[trigger] peek_ok(old(self).st(), old(vw)@, final(vw)@, old(self).deq(old(vw)@), final(self).deq(final(vw)@), r0) && conv_peek::<T, U>(r0, r),
//% fn peek_next mutself world ret=r params=manager maypanic
//% sig
    pub fn adapter_peek_next<U>(&mut self, manager: &TimeManager, vw: &mut World) -> (r: Result<ChannelElement<U>, DequeueError>) where T: VxTryInto<U>
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec,
        exists|r0: Result<ChannelElement<T>, DequeueError>| #[trigger] next_ok(old(self).st(), old(vw)@, final(vw)@, old(self).deq(old(vw)@), final(self).deq(final(vw)@), r0) && conv_deq::<T, U>(r0, r),
//% fn dequeue mutself world ret=r params=manager maypanic
//% sig
    pub fn adapter_dequeue<U>(&mut self, manager: &TimeManager, vw: &mut World) -> (r: Result<ChannelElement<U>, DequeueError>) where T: VxTryInto<U>
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec,
        exists|r0: Result<ChannelElement<T>, DequeueError>| #[trigger] deq_ok(old(self).st(), old(vw)@, final(vw)@, old(self).deq(old(vw)@), final(self).deq(final(vw)@), r0) && conv_deq::<T, U>(r0, r),
//% end
//% impl SendAdapter for Sender => impl<T: DAMType> Sender<T>
//% fn enqueue mutself world ret=r params=manager,data maypanic
//% sig
    pub fn adapter_enqueue<U>(&mut self, manager: &TimeManager, data: ChannelElement<U>, vw: &mut World) -> (r: Result<(), EnqueueError>) where U: VxTryInto<T>
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF, tfin(data.time)
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec,
        exists|x: ChannelElement<T>| #[trigger] enq_ok(old(self).st(), old(vw)@, final(vw)@, x, r) && conv::<U, T>(data, x),
//% fn wait_until_available mutself world ret=r params=manager as=adapter_wait_until_available
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), final(self).underlying.channel_spec == old(self).underlying.channel_spec, wait_ok(old(self).st(), old(vw)@, final(vw)@, r),
//% fn attach_sender mutself maypanic params=sender as=adapter_attach_sender
    ensures final(self).underlying.channel_spec == old(self).underlying.channel_spec, final(self).underlying.receiver == old(self).underlying.receiver,
        old(self).underlying.sender is Uninitialized, final(self).underlying.sender is Uninitialized,
        final(self).underlying.sender->Uninitialized_0.spec == (ChannelSpec { sender_view: Some(sender.v()), sender_id: Some(sender.i()), ..old(self).underlying.sender->Uninitialized_0.spec }),
//% end
//% shims convert try_convert
//% raw
} // mod adapt
