//% raw
// ================================================================ the sending side
pub mod send {
use super::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
/// What identifies a sender: initialised (and not terminated), connected to a channel (not void), its channel and the
/// latency of its items, the channel of acknowledgements and the capacity when it is bounded, and its flavour.
pub struct SS { pub ready: bool, pub live: bool, pub ch: int, pub lat: int, pub resp: int, pub cap: Option<int>, pub cyclic: bool }
/// the next item waits for an acknowledgement
pub open spec fn gated(s: SS, w: WV) -> bool { s.cap is Some && w.sent[s.ch] >= s.cap->Some_0 }
/// the acknowledgement it waits for
pub open spec fn gate_k(s: SS, w: WV) -> int { w.sent[s.ch] - s.cap->Some_0 }
pub open spec fn gate_never(s: SS, w: WV) -> bool { gated(s, w) && total(s.resp) <= gate_k(s, w) }
/// the earliest time at which the next item may be sent
pub open spec fn gate_t(s: SS, w: WV) -> int { if gated(s, w) { imax(clock(w), hstamp(s.resp, gate_k(s, w))) } else { clock(w) } }
/// there is room for another item
pub open spec fn room(s: SS, w: WV) -> bool { s.cap matches Some(c) ==> w.sent[s.ch] < w.rcvd[s.resp] + c }
pub open spec fn wait_ok(s: SS, w: WV, v: WV, r: Result<(), EnqueueError>) -> bool {
    &&& s.ready && io_step(w, v, -1, s.resp) && v.sent == w.sent
    &&& !s.live ==> r is Ok && v == w
    &&& s.live && r is Ok ==> !gate_never(s, w) && clock(v) == gate_t(s, w) && room(s, v)
    &&& s.live && r is Err ==> gate_never(s, w) && clock(w) <= clock(v) < INF && (!s.cyclic ==> clock(v) == clock(w))
}
/// item n is x, stamped with the later of the time asked for and now + latency
pub open spec fn item_sent<T>(s: SS, n: int, now: int, x: ChannelElement<T>) -> bool {
    let y = hist::<ChannelElement<T>>(s.ch, n);
    &&& n < total(s.ch) && y.data == x.data && tk(y.time) == hstamp(s.ch, n) == imax(tk(x.time), now + s.lat)
}
pub open spec fn enq_ok<T>(s: SS, w: WV, v: WV, x: ChannelElement<T>, r: Result<(), EnqueueError>) -> bool {
    &&& s.ready && io_step(w, v, s.ch, s.resp)
    &&& !s.live ==> r is Ok && v == w
    &&& s.live && r is Ok ==> v.sent[s.ch] == w.sent[s.ch] + 1 && !gate_never(s, w) && clock(v) == gate_t(s, w)
            && item_sent(s, w.sent[s.ch], clock(v), x)
    &&& s.live && r is Err ==> v.sent == w.sent && clock(w) <= clock(v) < INF
            && (gate_never(s, w) && (!s.cyclic ==> clock(v) == clock(w)) || total(s.ch) <= w.sent[s.ch] && clock(v) == gate_t(s, w))
}
//% file src/channel/sender/mod.rs
//% struct SenderData noderive
//% raw
impl<T> SenderData<T> {
    pub open spec fn ch(&self) -> int { self.underlying.ch() }
    pub open spec fn inv(&self, w: WV) -> bool {
        &&& self.spec.wf() && free(w)
        &&& only(self.spec.sv(), w.me)
        &&& src(self.ch()) == w.me && lat(self.ch()) == self.spec.send_latency
        &&& 0 <= w.sent[self.ch()]
    }
}
//% trait DataProvider => pub trait DataProvider<T>: Sized
//% raw
    spec fn d(&self) -> SenderData<T>;
    spec fn with(self, d: SenderData<T>) -> Self;
//% fn data ret=r
    ensures *r == old(self).d(), *final(self) == old(self).with(*final(r)), *final(r) == *r ==> *final(self) == *old(self),
        final(self).d() == *final(r),
//% end
//% trait BoundedProvider => pub trait BoundedProvider: Sized
//% raw
    spec fn ss(&self) -> SS;
    /// the capacity bookkeeping agrees with what was sent and acknowledged, `extra` sends not being registered yet
    spec fn acct(&self, w: WV, extra: int) -> bool;
    spec fn open(&self) -> bool;
    /// nothing but the bookkeeping differs
    spec fn same_ends(&self, o: Self) -> bool;
//% fn register_send decl
    requires old(self).open()
    ensures final(self).same_ends(*old(self)), final(self).ss() == old(self).ss(),
        forall|w: WV| old(self).acct(w, 1) ==> #[trigger] final(self).acct(w, 0),
//% fn wait_until_available world ret=r params=manager decl
    requires old(self).acct(old(vw)@, 0), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).same_ends(*old(self)), final(self).ss() == old(self).ss(), final(self).acct(final(vw)@, 0), manager.mine(final(vw)@),
        wait_ok(old(self).ss(), old(vw)@, final(vw)@, r), r is Ok ==> final(self).open(),
//% end
//% raw
pub open spec fn sc_inv<T, X: DataProvider<T> + BoundedProvider>(x: X, w: WV) -> bool {
    x.d().inv(w) && x.acct(w, 0) && x.ss().ready && x.ss().live && x.ss().ch == x.d().ch() && x.ss().lat == x.d().spec.send_latency
}
//% trait SenderCommon => pub trait SenderCommon<T>: DataProvider<T> + BoundedProvider
//% fn enqueue world ret=r params=manager,data decl
    requires sc_inv::<T, Self>(*old(self), old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF, tfin(data.time)
    ensures sc_inv::<T, Self>(*final(self), final(vw)@), final(self).ss() == old(self).ss(),
        enq_ok(old(self).ss(), old(vw)@, final(vw)@, data, r),
//% end
//% file src/channel/sender/unbounded.rs
//% struct UnboundedSender noderive
//% impl DataProvider for UnboundedSender [trait] => impl<T> DataProvider<T> for UnboundedSender<T>
//% raw
    open spec fn d(&self) -> SenderData<T> { self.data }
    open spec fn with(self, d: SenderData<T>) -> Self { UnboundedSender { data: d, ..self } }
//% fn data
//% end
//% impl BoundedProvider for UnboundedSender [trait] => impl<T> BoundedProvider for UnboundedSender<T>
//% raw
    open spec fn ss(&self) -> SS { SS { ready: true, live: true, ch: self.data.ch(), lat: self.data.spec.send_latency as int, resp: -1, cap: None, cyclic: false } }
    open spec fn acct(&self, w: WV, extra: int) -> bool { self.data.inv(w) && slack(self.data.ch()) is None }
    open spec fn open(&self) -> bool { true }
    open spec fn same_ends(&self, o: Self) -> bool { *self == o }
//% fn register_send
//% fn wait_until_available world ret=r params=manager
//% end
//% impl default SenderCommon for UnboundedSender [trait] => impl<T> SenderCommon<T> for UnboundedSender<T>
//% fn enqueue world ret=r params=manager,data
//% end
//% file src/channel/sender/bounded.rs
//% struct BoundedData noderive
//% enum SendOptions
//% raw
impl BoundedData {
    /// responses applied to the bookkeeping: the first `n - delta`
    pub open spec fn applied(&self, n: int) -> int { n - self.send_receive_delta }
    pub open spec fn wired(&self, ch: int, spec: InlineSpec, w: WV) -> bool {
        let r = self.resp.ch();
        &&& spec.capacity is Some
        &&& peer(ch) == r && slack(ch) == Some(spec.capacity->Some_0 as int) && peer(r) == ch && slack(r) == Some(0int)
        &&& covers(spec.rv(), src(r)) && lat(r) == spec.response_latency && r != ch && src(r) != w.me
        &&& 0 <= w.rcvd[r] <= total(r)
    }
    /// `extra` sends have not been registered yet
    pub open spec fn acct(&self, ch: int, spec: InlineSpec, w: WV, extra: int) -> bool {
        let a = self.applied(w.sent[ch] - extra);
        &&& self.wired(ch, spec, w)
        &&& 0 <= self.send_receive_delta + extra <= spec.capacity->Some_0
        &&& 0 <= a <= w.rcvd[self.resp.ch()]
        &&& forall|j: int| 0 <= j < a ==> #[trigger] hstamp(self.resp.ch(), j) <= clock(w)
    }
}
//% struct BoundedAcyclicSender noderive
//% impl DataProvider for BoundedAcyclicSender [trait] => impl<T> DataProvider<T> for BoundedAcyclicSender<T>
//% raw
    open spec fn d(&self) -> SenderData<T> { self.data }
    open spec fn with(self, d: SenderData<T>) -> Self { BoundedAcyclicSender { data: d, ..self } }
//% fn data
//% end
//% impl BoundedProvider for BoundedAcyclicSender [trait] => impl<T> BoundedProvider for BoundedAcyclicSender<T>
//% raw
    open spec fn ss(&self) -> SS { SS { ready: true, live: true, ch: self.data.ch(), lat: self.data.spec.send_latency as int, resp: self.bound.resp.ch(),
        cap: Some(self.data.spec.capacity->Some_0 as int), cyclic: false } }
    open spec fn acct(&self, w: WV, extra: int) -> bool {
        &&& self.data.inv(w) && self.bound.acct(self.data.ch(), self.data.spec, w, extra)
        &&& self.bound.applied(w.sent[self.data.ch()] - extra) == w.rcvd[self.bound.resp.ch()]
    }
    open spec fn open(&self) -> bool { self.bound.send_receive_delta < self.data.spec.capacity->Some_0 }
    open spec fn same_ends(&self, o: Self) -> bool { self.data == o.data && self.bound.resp == o.bound.resp }
//% fn register_send
//% fn wait_until_available world ret=r params=manager
//% end
//% impl default SenderCommon for BoundedAcyclicSender [trait] => impl<T> SenderCommon<T> for BoundedAcyclicSender<T>
//% fn enqueue world ret=r params=manager,data
//% end
//% struct BoundedCyclicSender noderive
//% raw
/// what is remembered about the next response, when `a` responses are applied and `p` taken
pub open spec fn opt_ok(o: Option<SendOptions>, resp: int, a: int, p: int) -> bool {
    match o {
        None => a == p,
        Some(SendOptions::AvailableAt(t)) => p == a + 1 && tk(t) == hstamp(resp, a) && tsmall(t),
        Some(SendOptions::CheckBackAt(t)) => p == a && !t.done && forall|j: int| p <= j < total(resp) ==> #[trigger] hstamp(resp, j) >= tk(t),
        Some(SendOptions::Never) => p == a && total(resp) <= p,
    }
}
pub open spec fn quiet(resp: int, w: WV) -> bool { nsent(resp, w.seen[src(resp)]) <= w.rcvd[resp] }
//% impl DataProvider for BoundedCyclicSender [trait] => impl<T> DataProvider<T> for BoundedCyclicSender<T>
//% raw
    open spec fn d(&self) -> SenderData<T> { self.data }
    open spec fn with(self, d: SenderData<T>) -> Self { BoundedCyclicSender { data: d, ..self } }
//% fn data
//% end
//% impl BoundedProvider for BoundedCyclicSender [trait] => impl<T> BoundedProvider for BoundedCyclicSender<T>
//% raw
    open spec fn ss(&self) -> SS { SS { ready: true, live: true, ch: self.data.ch(), lat: self.data.spec.send_latency as int, resp: self.bound.resp.ch(),
        cap: Some(self.data.spec.capacity->Some_0 as int), cyclic: true } }
    open spec fn acct(&self, w: WV, extra: int) -> bool {
        &&& self.data.inv(w) && self.bound.acct(self.data.ch(), self.data.spec, w, extra)
        &&& opt_ok(self.next_available, self.bound.resp.ch(), self.bound.applied(w.sent[self.data.ch()] - extra), w.rcvd[self.bound.resp.ch()])
    }
    open spec fn open(&self) -> bool { self.bound.send_receive_delta < self.data.spec.capacity->Some_0 }
    open spec fn same_ends(&self, o: Self) -> bool { self.data == o.data && self.bound.resp == o.bound.resp }
//% fn register_send
//% fn wait_until_available world ret=r params=manager
//% proof start
    proof { recv::vx_done(self.bound.resp.ch()); }
//% loop 0
    invariant
        self.acct(vw@, 0), manager.mine(vw@), clock(old(vw)@) <= clock(vw@) < INF,
        self.same_ends(*old(self)), self.ss() == old(self).ss(),
        io_step(old(vw)@, vw@, -1, self.bound.resp.ch()), vw@.sent == old(vw)@.sent,
        !gated(self.ss(), old(vw)@) ==> clock(vw@) == clock(old(vw)@),
        !gate_never(self.ss(), old(vw)@) ==> clock(vw@) <= gate_t(self.ss(), old(vw)@),
        forall|i: int| clk(src(self.bound.resp.ch()), i) >= INF ==> #[trigger] nsent(self.bound.resp.ch(), i) >= total(self.bound.resp.ch()),
//% end
//% impl BoundedCyclicSender => impl<T> BoundedCyclicSender<T>
//% fn update_srd world ret=r local=send_time:0 local=retval:1
    requires old(self).acct(old(vw)@, 0), old(self).next_available is None
    ensures final(self).same_ends(*old(self)), final(self).ss() == old(self).ss(), final(self).acct(final(vw)@, 0),
        io_sync(old(vw)@, final(vw)@, -1, old(self).bound.resp.ch()), final(vw)@.sent == old(vw)@.sent, free(final(vw)@),
        !r ==> final(self).next_available is None && quiet(old(self).bound.resp.ch(), final(vw)@)
            && final(vw)@.rcvd == old(vw)@.rcvd,
//% loop 0
    invariant
        self.acct(vw@, 0), self.next_available is None, free(vw@),
        tk(send_time) == clock(vw@),
        self.same_ends(*old(self)), self.ss() == old(self).ss(),
        io_sync(old(vw)@, vw@, -1, old(self).bound.resp.ch()), vw@.sent == old(vw)@.sent,
        !retval ==> vw@.rcvd == old(vw)@.rcvd,
//% end
//% impl default SenderCommon for BoundedCyclicSender [trait] => impl<T> SenderCommon<T> for BoundedCyclicSender<T>
//% fn enqueue world ret=r params=manager,data
//% end
//% raw
} // mod send
pub mod sflav {
use super::*;
use super::send::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
//% file src/channel/sender/mod.rs
//% trait SenderFlavor => pub trait SenderFlavor<T>: Sized
//% raw
    spec fn st(&self) -> SS;
    spec fn inv(&self, w: WV) -> bool;
//% fn wait_until_available world ret=r params=manager
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), wait_ok(old(self).st(), old(vw)@, final(vw)@, r),
//% fn enqueue world ret=r params=manager,data
    requires old(self).inv(old(vw)@), manager.mine(old(vw)@), clock(old(vw)@) < INF, tfin(data.time)
    ensures final(self).inv(final(vw)@), final(self).st() == old(self).st(), enq_ok(old(self).st(), old(vw)@, final(vw)@, data, r),
//% end
//% file src/channel/sender/unbounded.rs
//% impl SenderFlavor for UnboundedSender [trait] => impl<T> SenderFlavor<T> for UnboundedSender<T>
//% raw
    open spec fn st(&self) -> SS { self.ss() }
    open spec fn inv(&self, w: WV) -> bool { sc_inv::<T, Self>(*self, w) }
//% fn wait_until_available world ret=r params=manager
//% fn enqueue world ret=r params=manager,data
//% end
//% file src/channel/sender/bounded.rs
//% impl SenderFlavor for BoundedAcyclicSender [trait] => impl<T> SenderFlavor<T> for BoundedAcyclicSender<T>
//% raw
    open spec fn st(&self) -> SS { self.ss() }
    open spec fn inv(&self, w: WV) -> bool { sc_inv::<T, Self>(*self, w) }
//% fn wait_until_available world ret=r params=manager
//% fn enqueue world ret=r params=manager,data
//% end
//% file src/channel/sender/bounded.rs
//% impl SenderFlavor for BoundedCyclicSender [trait] => impl<T> SenderFlavor<T> for BoundedCyclicSender<T>
//% raw
    open spec fn st(&self) -> SS { self.ss() }
    open spec fn inv(&self, w: WV) -> bool { sc_inv::<T, Self>(*self, w) }
//% fn wait_until_available world ret=r params=manager
//% fn enqueue world ret=r params=manager,data
//% end
//% file src/channel/sender/void.rs
//% struct VoidSender noderive
//% impl SenderFlavor for VoidSender [trait] => impl<T> SenderFlavor<T> for VoidSender<T>
//% raw
    open spec fn st(&self) -> SS { SS { ready: true, live: false, ch: -1, lat: 0, resp: -1, cap: None, cyclic: false } }
    open spec fn inv(&self, w: WV) -> bool { free(w) }
//% fn wait_until_available world ret=r params=_manager
//% fn enqueue world ret=r params=_manager,_data
//% end
//% file src/channel/sender/terminated.rs
//% struct TerminatedSender noderive
//% impl SenderFlavor for TerminatedSender [trait] => impl<T> SenderFlavor<T> for TerminatedSender<T>
//% raw
    open spec fn st(&self) -> SS { SS { ready: false, live: false, ch: -1, lat: 0, resp: -1, cap: None, cyclic: false } }
    open spec fn inv(&self, w: WV) -> bool { free(w) }
//% fn wait_until_available world ret=r params=_manager maypanic
//% fn enqueue world ret=r params=_manager,_data maypanic
//% end
//% raw
} // mod sflav
