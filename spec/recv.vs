//% raw
// ================================================================ the receiving side
pub mod recv {
use super::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
//% file src/channel/receiver/mod.rs
//% struct ReceiverData noderive
//% raw
/// everything still to come on ch (from item k on) is later than t
pub open spec fn later(ch: int, k: int, t: int) -> bool {
    forall|j: int| k <= j < total(ch) ==> #[trigger] hstamp(ch, j) > t
}
pub open spec fn is_item<T>(h: Option<PeekResult<T>>) -> bool { h matches Some(PeekResult::Something(_)) }
/// the cached head, when `k` items have been taken from the underlying queue
pub open spec fn head_ok<T>(h: Option<PeekResult<T>>, ch: int, k: int) -> bool {
    match h {
        None => true,
        Some(PeekResult::Something(x)) => 1 <= k <= total(ch) && x == hist::<ChannelElement<T>>(ch, k - 1) && tk(x.time) == hstamp(ch, k - 1) && tsmall(x.time),
        Some(PeekResult::Nothing(t)) => tfin(t) && later(ch, k, tk(t)),
        Some(PeekResult::Closed) => total(ch) == k,
    }
}
impl<T> ReceiverData<T> {
    pub open spec fn ch(&self) -> int { self.underlying.ch() }
    /// items handed out by dequeue so far
    pub open spec fn deq(&self, w: WV) -> int { if is_item(self.head) { w.rcvd[self.ch()] - 1 } else { w.rcvd[self.ch()] } }
    pub open spec fn inv(&self, w: WV) -> bool {
        &&& self.spec.wf() && free(w)
        &&& covers(self.spec.sv(), src(self.ch()))
        &&& only(self.spec.rv(), w.me)
        &&& lat(self.ch()) >= 1
        &&& 0 <= w.rcvd[self.ch()] <= total(self.ch())
        &&& head_ok(self.head, self.ch(), w.rcvd[self.ch()])
    }
}
/// what peek promises: the next item, or a time up to which nothing will arrive
pub open spec fn peek_post<T>(r: PeekResult<T>, ch: int, d: int, now: int) -> bool {
    match r {
        PeekResult::Something(x) => d < total(ch) && x == hist::<ChannelElement<T>>(ch, d) && tk(x.time) == hstamp(ch, d) && tsmall(x.time),
        PeekResult::Nothing(t) => tfin(t) && tk(t) >= now && later(ch, d, tk(t)),
        PeekResult::Closed => total(ch) == d,
    }
}
pub open spec fn item_post<T>(x: ChannelElement<T>, ch: int, d: int) -> bool {
    &&& 0 <= d < total(ch)
    &&& x == hist::<ChannelElement<T>>(ch, d) && tk(x.time) == hstamp(ch, d) && tsmall(x.time)
}
/// reached(view) of a view covering c
pub proof fn lemma_below(t: TimeView, w: WV, r: int, c: int)
    requires below(t, w, r), covers(t, c)
    ensures r <= clk_at(w, c)
{}
/// What identifies a receiver: whether it is initialised (and not terminated), its channel, the channel and latency
/// of its acknowledgements, whether it acknowledges, and its flavour.
pub struct RS { pub ready: bool, pub ch: int, pub ack: int, pub alat: int, pub bounded: bool, pub cyclic: bool }
/// the acknowledgement of item k carries t + latency (or the sender is gone)
pub open spec fn acked(s: RS, k: int, t: int) -> bool {
    s.bounded ==> total(s.ack) <= k || hstamp(s.ack, k) == t + s.alat
}
pub open spec fn peek_ok<T>(s: RS, w: WV, v: WV, d0: int, d1: int, r: PeekResult<T>) -> bool {
    &&& s.ready && io_sync(w, v, -1, s.ch) && v.sent == w.sent
    &&& d1 == d0 && peek_post(r, s.ch, d0, clock(w))
}
pub open spec fn err_ok(s: RS, w: WV, v: WV, d0: int) -> bool {
    &&& total(s.ch) == d0
    &&& clock(w) <= clock(v) < INF
    &&& !s.cyclic ==> clock(v) == clock(w)
}
pub open spec fn next_ok<T>(s: RS, w: WV, v: WV, d0: int, d1: int, r: Result<ChannelElement<T>, DequeueError>) -> bool {
    &&& s.ready && io_step(w, v, -1, s.ch) && v.sent == w.sent && d1 == d0
    &&& r matches Ok(x) ==> item_post(x, s.ch, d0) && clock(v) == imax(clock(w), tk(x.time))
    &&& r is Err ==> err_ok(s, w, v, d0)
}
pub open spec fn deq_ok<T>(s: RS, w: WV, v: WV, d0: int, d1: int, r: Result<ChannelElement<T>, DequeueError>) -> bool {
    &&& s.ready && io_step(w, v, s.ack, s.ch)
    &&& r matches Ok(x) ==> d1 == d0 + 1 && item_post(x, s.ch, d0) && clock(v) == imax(clock(w), tk(x.time)) && acked(s, d0, clock(v))
    &&& r is Err ==> d1 == d0 && v.sent == w.sent && err_ok(s, w, v, d0)
}
//% trait DataProvider => pub trait DataProvider<T>: Sized
//% raw
    spec fn d(&self) -> ReceiverData<T>;
    spec fn with(self, d: ReceiverData<T>) -> Self;
//% fn data ret=r
    ensures *r == old(self).d(), *final(self) == old(self).with(*final(r)), *final(r) == *r ==> *final(self) == *old(self),
        final(self).d() == *final(r),
//% end
//% trait Responsive => pub trait Responsive: Sized
//% raw
    /// acknowledgement channel (-1: none), its latency, whether there is one
    spec fn rch(&self) -> int;
    spec fn rlat(&self) -> int;
    spec fn bounded(&self) -> bool;
    spec fn wired(&self, w: WV) -> bool;
    /// every dequeue among the first k has been acknowledged, or the sender is gone
    spec fn answered(&self, w: WV, k: int) -> bool;
    /// another acknowledgement may go out: there is an item that was taken but not acknowledged (or the sender is gone)
    spec fn may_ack(&self, w: WV) -> bool;
    /// it goes out with time t + latency
    spec fn ack_step(&self, w: WV, v: WV, t: int) -> bool;
//% fn register_recv world params=time decl
    requires free(old(vw)@), tfin(time), tk(time) >= clock(old(vw)@), clock(old(vw)@) < INF, self.wired(old(vw)@), self.may_ack(old(vw)@)
    ensures self.ack_step(old(vw)@, final(vw)@, tk(time)),
//% end
//% raw
pub open spec fn st_of<T, X: DataProvider<T> + Responsive>(x: X, cyclic: bool) -> RS {
    RS { ready: true, ch: x.d().ch(), ack: x.rch(), alat: x.rlat(), bounded: x.bounded(), cyclic }
}
pub open spec fn rc_inv<T, X: DataProvider<T> + Responsive>(x: X, w: WV) -> bool {
    x.d().inv(w) && x.answered(w, x.d().deq(w)) && x.wired(w)
}
//% trait ReceiverCommon => pub trait ReceiverCommon<T: DAMType>: Responsive + DataProvider<T>
//% fn try_update_head world params=nothing_time decl
    requires rc_inv::<T, Self>(*old(self), old(vw)@), !is_item(old(self).d().head),
        tk(nothing_time) == 0 || tk(nothing_time) <= clk_at(old(vw)@, src(old(self).d().ch())), tsmall(nothing_time),
    ensures rc_inv::<T, Self>(*final(self), final(vw)@), io_sync(old(vw)@, final(vw)@, -1, old(self).d().ch()), final(vw)@.sent == old(vw)@.sent,
        st_of::<T, Self>(*old(self), false) == st_of::<T, Self>(*final(self), false),
        final(self).d().spec == old(self).d().spec,
        final(self).d().head is Some, final(self).d().head matches Some(PeekResult::Nothing(t)) ==> t == nothing_time,
        final(self).d().deq(final(vw)@) == old(self).d().deq(old(vw)@),
//% fn peek world ret=r decl
    requires rc_inv::<T, Self>(*old(self), old(vw)@)
    ensures rc_inv::<T, Self>(*final(self), final(vw)@),
        st_of::<T, Self>(*old(self), false) == st_of::<T, Self>(*final(self), false),
        peek_ok(st_of::<T, Self>(*old(self), false), old(vw)@, final(vw)@, old(self).d().deq(old(vw)@), final(self).d().deq(final(vw)@), r),
        is_item(final(self).d().head) == r is Something,
//% end
//% file src/channel/receiver/acyclic.rs
//% trait AcyclicReceiver => pub trait AcyclicReceiver<T: DAMType>: ReceiverCommon<T>
//% fn peek_next world ret=r params=manager decl
    requires rc_inv::<T, Self>(*old(self), old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures rc_inv::<T, Self>(*final(self), final(vw)@),
        st_of::<T, Self>(*old(self), false) == st_of::<T, Self>(*final(self), false),
        next_ok(st_of::<T, Self>(*old(self), false), old(vw)@, final(vw)@, old(self).d().deq(old(vw)@), final(self).d().deq(final(vw)@), r),
        r is Ok ==> is_item(final(self).d().head),
//% fn dequeue world ret=r params=manager decl
    requires rc_inv::<T, Self>(*old(self), old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures rc_inv::<T, Self>(*final(self), final(vw)@),
        st_of::<T, Self>(*old(self), false) == st_of::<T, Self>(*final(self), false),
        deq_ok(st_of::<T, Self>(*old(self), false), old(vw)@, final(vw)@, old(self).d().deq(old(vw)@), final(self).d().deq(final(vw)@), r),
//% end
//% file src/channel/receiver/cyclic.rs
//% trait CyclicReceiver => pub trait CyclicReceiver<T: DAMType>: ReceiverCommon<T>
//% fn peek_next world ret=r params=manager decl
    requires rc_inv::<T, Self>(*old(self), old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures rc_inv::<T, Self>(*final(self), final(vw)@),
        st_of::<T, Self>(*old(self), true) == st_of::<T, Self>(*final(self), true),
        next_ok(st_of::<T, Self>(*old(self), true), old(vw)@, final(vw)@, old(self).d().deq(old(vw)@), final(self).d().deq(final(vw)@), r),
        r is Ok ==> is_item(final(self).d().head),
//% fn dequeue world ret=r params=manager decl
    requires rc_inv::<T, Self>(*old(self), old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures rc_inv::<T, Self>(*final(self), final(vw)@),
        st_of::<T, Self>(*old(self), true) == st_of::<T, Self>(*final(self), true),
        deq_ok(st_of::<T, Self>(*old(self), true), old(vw)@, final(vw)@, old(self).d().deq(old(vw)@), final(self).d().deq(final(vw)@), r),
//% end
//% file src/channel/receiver/mod.rs
//% struct InfiniteAcyclicReceiver noderive
//% impl DataProvider for InfiniteAcyclicReceiver [trait] => impl<T> DataProvider<T> for InfiniteAcyclicReceiver<T>
//% raw
    open spec fn d(&self) -> ReceiverData<T> { self.data }
    open spec fn with(self, d: ReceiverData<T>) -> Self { InfiniteAcyclicReceiver { data: d, ..self } }
//% fn data
//% end
//% impl default Responsive for InfiniteAcyclicReceiver [trait] => impl<T> Responsive for InfiniteAcyclicReceiver<T>
//% raw
    open spec fn rch(&self) -> int { -1 }
    open spec fn rlat(&self) -> int { 0 }
    open spec fn bounded(&self) -> bool { false }
    open spec fn wired(&self, w: WV) -> bool { true }
    open spec fn answered(&self, w: WV, k: int) -> bool { true }
    open spec fn may_ack(&self, w: WV) -> bool { true }
    open spec fn ack_step(&self, w: WV, v: WV, t: int) -> bool { v == w }
//% fn register_recv world params=time
//% end
//% impl default ReceiverCommon for InfiniteAcyclicReceiver [trait] => impl<T: DAMType> ReceiverCommon<T> for InfiniteAcyclicReceiver<T>
//% fn try_update_head world params=nothing_time
//% proof start
    proof { vx_done(self.data.ch()); }
//% fn peek world ret=r
//% end
//% impl default AcyclicReceiver for InfiniteAcyclicReceiver [trait] => impl<T: DAMType> AcyclicReceiver<T> for InfiniteAcyclicReceiver<T>
//% fn peek_next world ret=r params=manager
//% fn dequeue world ret=r params=manager
//% end
//% struct InfiniteCyclicReceiver noderive
//% impl DataProvider for InfiniteCyclicReceiver [trait] => impl<T> DataProvider<T> for InfiniteCyclicReceiver<T>
//% raw
    open spec fn d(&self) -> ReceiverData<T> { self.data }
    open spec fn with(self, d: ReceiverData<T>) -> Self { InfiniteCyclicReceiver { data: d, ..self } }
//% fn data
//% end
//% impl default Responsive for InfiniteCyclicReceiver [trait] => impl<T> Responsive for InfiniteCyclicReceiver<T>
//% raw
    open spec fn rch(&self) -> int { -1 }
    open spec fn rlat(&self) -> int { 0 }
    open spec fn bounded(&self) -> bool { false }
    open spec fn wired(&self, w: WV) -> bool { true }
    open spec fn answered(&self, w: WV, k: int) -> bool { true }
    open spec fn may_ack(&self, w: WV) -> bool { true }
    open spec fn ack_step(&self, w: WV, v: WV, t: int) -> bool { v == w }
//% fn register_recv world params=time
//% end
//% impl default ReceiverCommon for InfiniteCyclicReceiver [trait] => impl<T: DAMType> ReceiverCommon<T> for InfiniteCyclicReceiver<T>
//% fn try_update_head world params=nothing_time
//% proof start
    proof { vx_done(self.data.ch()); }
//% fn peek world ret=r
//% end
//% impl default CyclicReceiver for InfiniteCyclicReceiver [trait] => impl<T: DAMType> CyclicReceiver<T> for InfiniteCyclicReceiver<T>
//% fn peek_next world ret=r params=manager
//% loop 0
    invariant
        rc_inv::<T, Self>(*self, vw@), manager.mine(vw@), clock(old(vw)@) <= clock(vw@) < INF,
        st_of::<T, Self>(*old(self), true) == st_of::<T, Self>(*self, true),
        io_step(old(vw)@, vw@, -1, old(self).d().ch()), vw@.sent == old(vw)@.sent,
        self.d().deq(vw@) == old(self).d().deq(old(vw)@),
        clock(vw@) == clock(old(vw)@) || self.d().deq(vw@) >= total(self.d().ch()) || clock(vw@) <= hstamp(self.d().ch(), self.d().deq(vw@)),
//% fn dequeue world ret=r params=manager
//% end
//% struct BoundedAcyclicReceiver noderive
//% impl DataProvider for BoundedAcyclicReceiver [trait] => impl<T> DataProvider<T> for BoundedAcyclicReceiver<T>
//% raw
    open spec fn d(&self) -> ReceiverData<T> { self.data }
    open spec fn with(self, d: ReceiverData<T>) -> Self { BoundedAcyclicReceiver { data: d, ..self } }
//% fn data
//% end
//% impl Responsive for BoundedAcyclicReceiver [trait] => impl<T> Responsive for BoundedAcyclicReceiver<T>
//% raw
    open spec fn rch(&self) -> int { self.resp.ch() }
    open spec fn rlat(&self) -> int { self.data.spec.response_latency as int }
    open spec fn bounded(&self) -> bool { true }
    open spec fn wired(&self, w: WV) -> bool {
        &&& src(self.resp.ch()) == w.me && lat(self.resp.ch()) == self.data.spec.response_latency < HORIZON
        &&& peer(self.resp.ch()) == self.data.ch() && slack(self.resp.ch()) == Some(0int)
        &&& self.resp.ch() != self.data.ch()
    }
    open spec fn answered(&self, w: WV, k: int) -> bool {
        w.sent[self.resp.ch()] == k || (w.sent[self.resp.ch()] <= k && total(self.resp.ch()) <= w.sent[self.resp.ch()])
    }
    open spec fn may_ack(&self, w: WV) -> bool { w.sent[self.resp.ch()] < w.rcvd[self.data.ch()] }
    open spec fn ack_step(&self, w: WV, v: WV, t: int) -> bool {
        let (c, n) = (self.resp.ch(), w.sent[self.resp.ch()]);
        (v == sent1(w, c) && n < total(c) && hstamp(c, n) == t + self.rlat()) || (v == w && total(c) <= n)
    }
//% fn register_recv world params=time
//% end
//% impl default ReceiverCommon for BoundedAcyclicReceiver [trait] => impl<T: DAMType> ReceiverCommon<T> for BoundedAcyclicReceiver<T>
//% fn try_update_head world params=nothing_time
//% proof start
    proof { vx_done(self.data.ch()); }
//% fn peek world ret=r
//% end
//% impl default AcyclicReceiver for BoundedAcyclicReceiver [trait] => impl<T: DAMType> AcyclicReceiver<T> for BoundedAcyclicReceiver<T>
//% fn peek_next world ret=r params=manager
//% fn dequeue world ret=r params=manager
//% end
//% struct BoundedCyclicReceiver noderive
//% impl DataProvider for BoundedCyclicReceiver [trait] => impl<T> DataProvider<T> for BoundedCyclicReceiver<T>
//% raw
    open spec fn d(&self) -> ReceiverData<T> { self.data }
    open spec fn with(self, d: ReceiverData<T>) -> Self { BoundedCyclicReceiver { data: d, ..self } }
//% fn data
//% end
//% impl Responsive for BoundedCyclicReceiver [trait] => impl<T> Responsive for BoundedCyclicReceiver<T>
//% raw
    open spec fn rch(&self) -> int { self.resp.ch() }
    open spec fn rlat(&self) -> int { self.data.spec.response_latency as int }
    open spec fn bounded(&self) -> bool { true }
    open spec fn wired(&self, w: WV) -> bool {
        &&& src(self.resp.ch()) == w.me && lat(self.resp.ch()) == self.data.spec.response_latency < HORIZON
        &&& peer(self.resp.ch()) == self.data.ch() && slack(self.resp.ch()) == Some(0int)
        &&& self.resp.ch() != self.data.ch()
    }
    open spec fn answered(&self, w: WV, k: int) -> bool {
        w.sent[self.resp.ch()] == k || (w.sent[self.resp.ch()] <= k && total(self.resp.ch()) <= w.sent[self.resp.ch()])
    }
    open spec fn may_ack(&self, w: WV) -> bool { w.sent[self.resp.ch()] < w.rcvd[self.data.ch()] }
    open spec fn ack_step(&self, w: WV, v: WV, t: int) -> bool {
        let (c, n) = (self.resp.ch(), w.sent[self.resp.ch()]);
        (v == sent1(w, c) && n < total(c) && hstamp(c, n) == t + self.rlat()) || (v == w && total(c) <= n)
    }
//% fn register_recv world params=time
//% end
//% impl default ReceiverCommon for BoundedCyclicReceiver [trait] => impl<T: DAMType> ReceiverCommon<T> for BoundedCyclicReceiver<T>
//% fn try_update_head world params=nothing_time
//% proof start
    proof { vx_done(self.data.ch()); }
//% fn peek world ret=r
//% end
//% impl default CyclicReceiver for BoundedCyclicReceiver [trait] => impl<T: DAMType> CyclicReceiver<T> for BoundedCyclicReceiver<T>
//% fn peek_next world ret=r params=manager
//% loop 0
    invariant
        rc_inv::<T, Self>(*self, vw@), manager.mine(vw@), clock(old(vw)@) <= clock(vw@) < INF,
        st_of::<T, Self>(*old(self), true) == st_of::<T, Self>(*self, true),
        io_step(old(vw)@, vw@, -1, old(self).d().ch()), vw@.sent == old(vw)@.sent,
        self.d().deq(vw@) == old(self).d().deq(old(vw)@),
        clock(vw@) == clock(old(vw)@) || self.d().deq(vw@) >= total(self.d().ch()) || clock(vw@) <= hstamp(self.d().ch(), self.d().deq(vw@)),
//% fn dequeue world ret=r params=manager
//% end
//% raw
pub proof fn vx_done(ch: int)
    ensures forall|i: int| clk(src(ch), i) >= INF ==> #[trigger] nsent(ch, i) >= total(ch)
{ assert forall|i: int| clk(src(ch), i) >= INF implies #[trigger] nsent(ch, i) >= total(ch) by { ax_done(ch, i); } }
} // mod recv
pub mod rflav {
use super::*;
use super::recv::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
//% file src/channel/receiver/mod.rs
//% trait ReceiverFlavor => pub trait ReceiverFlavor<T: DAMType>: Sized
//% raw
    spec fn st(&self) -> RS;
    spec fn inv(&self, w: WV) -> bool;
    /// items handed out so far
    spec fn deq(&self, w: WV) -> int;
//% fn peek world ret=r
    requires old(self).inv(old(vw)@)
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(),
        peek_ok(old(self).st(), old(vw)@, final(vw)@, old(self).deq(old(vw)@), final(self).deq(final(vw)@), r),
//% fn peek_next world ret=r params=manager
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(),
        next_ok(old(self).st(), old(vw)@, final(vw)@, old(self).deq(old(vw)@), final(self).deq(final(vw)@), r),
//% fn dequeue world ret=r params=manager
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(),
        deq_ok(old(self).st(), old(vw)@, final(vw)@, old(self).deq(old(vw)@), final(self).deq(final(vw)@), r),
//% end
//% impl ReceiverFlavor for InfiniteAcyclicReceiver [trait] => impl<T: DAMType> ReceiverFlavor<T> for InfiniteAcyclicReceiver<T>
//% raw
    open spec fn st(&self) -> RS { st_of::<T, Self>(*self, false) }
    open spec fn inv(&self, w: WV) -> bool { rc_inv::<T, Self>(*self, w) }
    open spec fn deq(&self, w: WV) -> int { self.data.deq(w) }
//% fn peek world ret=r
//% fn peek_next world ret=r params=manager
//% fn dequeue world ret=r params=manager
//% end
//% impl ReceiverFlavor for InfiniteCyclicReceiver [trait] => impl<T: DAMType> ReceiverFlavor<T> for InfiniteCyclicReceiver<T>
//% raw
    open spec fn st(&self) -> RS { st_of::<T, Self>(*self, true) }
    open spec fn inv(&self, w: WV) -> bool { rc_inv::<T, Self>(*self, w) }
    open spec fn deq(&self, w: WV) -> int { self.data.deq(w) }
//% fn peek world ret=r
//% fn peek_next world ret=r params=manager
//% fn dequeue world ret=r params=manager
//% end
//% impl ReceiverFlavor for BoundedAcyclicReceiver [trait] => impl<T: DAMType> ReceiverFlavor<T> for BoundedAcyclicReceiver<T>
//% raw
    open spec fn st(&self) -> RS { st_of::<T, Self>(*self, false) }
    open spec fn inv(&self, w: WV) -> bool { rc_inv::<T, Self>(*self, w) }
    open spec fn deq(&self, w: WV) -> int { self.data.deq(w) }
//% fn peek world ret=r
//% fn peek_next world ret=r params=manager
//% fn dequeue world ret=r params=manager
//% end
//% impl ReceiverFlavor for BoundedCyclicReceiver [trait] => impl<T: DAMType> ReceiverFlavor<T> for BoundedCyclicReceiver<T>
//% raw
    open spec fn st(&self) -> RS { st_of::<T, Self>(*self, true) }
    open spec fn inv(&self, w: WV) -> bool { rc_inv::<T, Self>(*self, w) }
    open spec fn deq(&self, w: WV) -> int { self.data.deq(w) }
//% fn peek world ret=r
//% fn peek_next world ret=r params=manager
//% fn dequeue world ret=r params=manager
//% end
//% raw
} // mod rflav
