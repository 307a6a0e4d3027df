//% raw
// ================================================================ memory units
pub mod pmu {
use super::*;
use super::recv::*;
use super::send::*;
use super::rflav::*;
use super::sflav::*;
use super::handle::*;
use super::events::*;
use super::frame::*;
use super::ports::*;
use super::store::{StoreElement, Behavior, gives, is_last, none_yet};
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp, ports::stays};
// A datastore shared by the one context that writes it and those that read it.  Its complete history is that of a
// channel of writes: hist::<Put<T>>(ch, k) is the k-th write, at time hstamp(ch, k).  That a place holds the writes to
// it in this order, and what a read finds among those it sees, is what spec/store.vs proves of the code.
pub struct Put<T> { pub place: int, pub e: StoreElement<T> }
pub uninterp spec fn is_store(ch: int) -> bool;
/// what every write is checked to establish: it is later than all before, and stamped with its time
#[verifier::external_body]
pub proof fn ax_put<T>(ch: int, k: int)
    requires is_store(ch), 0 <= k < total(ch)
    ensures tk(hist::<Put<T>>(ch, k).e.time) == hstamp(ch, k)
{}
/// the first n writes that went to place p
pub open spec fn elems<T>(ch: int, n: int, p: int) -> Seq<StoreElement<T>>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let x = hist::<Put<T>>(ch, n - 1);
        if x.place == p { elems(ch, n - 1, p).push(x.e) } else { elems(ch, n - 1, p) }
    }
}
pub open spec fn place_at(cap: int, addr: int) -> int { if addr < cap { addr } else { addr % cap } }
pub open spec fn lawful_at(cap: int, wrap: bool, addr: int) -> bool { addr < cap || wrap && cap > 0 }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SharedStore<T> { x: Vec<T> }
impl<T: DAMType> SharedStore<T> {
    pub uninterp spec fn ch(&self) -> int;
    pub uninterp spec fn cap(&self) -> int;
    pub uninterp spec fn beh(&self) -> Behavior;
    #[verifier::external_body]
    pub fn write(&self, addr: usize, data: T, time: Time, vw: &mut World)
        requires ({ let w = old(vw)@; let ch = self.ch();
            &&& is_store(ch) && w.me == src(ch) && free(w) && lat(ch) == 0
            &&& clock(w) < INF && clock(w) <= tk(time) < INF
            // not refused
            &&& 0 <= w.sent[ch] && forall|k: int| 0 <= k < w.sent[ch] ==> #[trigger] hstamp(ch, k) < tk(time) })
        ensures ({ let w = old(vw)@; let ch = self.ch(); let n = w.sent[ch]; let x = hist::<Put<T>>(ch, n);
            &&& lawful_at(self.cap(), self.beh().mod_address, addr as int)
            &&& final(vw)@ == sent1(w, ch) && n < total(ch) && hstamp(ch, n) == tk(time)
            &&& x == (Put::<T> { place: place_at(self.cap(), addr as int), e: StoreElement { data, time } }) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self, addr: usize, time: Time, vw: &mut World) -> (r: T)
        requires free(old(vw)@)
        ensures final(vw)@ == old(vw)@,
            lawful_at(self.cap(), self.beh().mod_address, addr as int),
            found(self.ch(), self.cap(), self.beh(), addr as int, time, old(vw)@, r),
    { unimplemented!() }
}
/// every write that happened before the newest known instant of the writer is seen
pub open spec fn sees(ch: int, w: WV, n: int) -> bool { 0 <= n <= total(ch) && (nsent(ch, w.seen[src(ch)]) <= n || n == total(ch)) }
pub open spec fn found<T: DAMType>(ch: int, cap: int, beh: Behavior, addr: int, t: Time, w: WV, r: T) -> bool {
    exists|n: int| #[trigger] sees(ch, w, n) && gives(elems::<T>(ch, n, place_at(cap, addr)), beh.use_default_value, t, r)
}
pub open spec fn put_at<T>(ch: int, k: int, p: int) -> bool { hist::<Put<T>>(ch, k).place == p }
/// v was written last among the first n writes to p that are not after t
pub open spec fn upto<T: DAMType>(ch: int, n: int, p: int, dflt: bool, t: int, v: T) -> bool {
    (exists|k: int| 0 <= k < n && #[trigger] put_at::<T>(ch, k, p) && hstamp(ch, k) <= t && v == hist::<Put<T>>(ch, k).e.data
        && (forall|m: int| k < m < n && #[trigger] put_at::<T>(ch, m, p) ==> hstamp(ch, m) > t))
    || (forall|m: int| 0 <= m < n && #[trigger] put_at::<T>(ch, m, p) ==> hstamp(ch, m) > t) && dflt && v == T::dflt()
}
/// v is the last value written to p before t (the default if there is none), or one written at t
pub open spec fn val_at<T: DAMType>(ch: int, p: int, dflt: bool, t: int, v: T) -> bool {
    (exists|k: int| 0 <= k < total(ch) && #[trigger] put_at::<T>(ch, k, p) && hstamp(ch, k) == t && v == hist::<Put<T>>(ch, k).e.data)
    || (exists|k: int| 0 <= k < total(ch) && #[trigger] put_at::<T>(ch, k, p) && hstamp(ch, k) < t && v == hist::<Put<T>>(ch, k).e.data
        && (forall|m: int| k < m < total(ch) && #[trigger] put_at::<T>(ch, m, p) ==> hstamp(ch, m) >= t))
    || (forall|m: int| 0 <= m < total(ch) && #[trigger] put_at::<T>(ch, m, p) ==> hstamp(ch, m) >= t) && dflt && v == T::dflt()
}
pub proof fn lemma_upto<T: DAMType>(ch: int, n: int, p: int, dflt: bool, t: Time, v: T)
    requires is_store(ch), 0 <= n <= total(ch), gives(elems::<T>(ch, n, p), dflt, t, v)
    ensures upto(ch, n, p, dflt, tk(t), v)
    decreases n
{
    if n > 0 {
        let x = hist::<Put<T>>(ch, n - 1);
        let h = elems::<T>(ch, n - 1, p);
        let g = elems::<T>(ch, n, p);
        ax_put::<T>(ch, n - 1);
        if x.place == p && tk(x.e.time) <= tk(t) {
            assert(g == h.push(x.e) && g.last() == x.e);
            assert(tk(g[h.len() as int].time) <= tk(t));
            assert(put_at::<T>(ch, n - 1, p));
        } else {
            if x.place == p {
                assert(g == h.push(x.e));
                if exists|i: int| #[trigger] is_last(g, t, i) && v == g[i].data {
                    let i = choose|i: int| #[trigger] is_last(g, t, i) && v == g[i].data;
                    assert(g[h.len() as int] == x.e);
                    assert forall|j: int| i < j < h.len() implies tk((#[trigger] h[j]).time) > tk(t) by { assert(g[j] == h[j]); }
                    assert(is_last(h, t, i) && v == h[i].data);
                } else {
                    assert forall|j: int| 0 <= j < h.len() implies tk((#[trigger] h[j]).time) > tk(t) by { assert(g[j] == h[j]); }
                }
            }
            lemma_upto(ch, n - 1, p, dflt, t, v);
        }
    }
}
/// a reader that knows the writer to have reached its time finds the right value
pub proof fn lemma_found<T: DAMType>(ch: int, cap: int, beh: Behavior, addr: int, t: Time, w: WV, v: T)
    requires is_store(ch), lat(ch) == 0, found(ch, cap, beh, addr, t, w, v), clk_at(w, src(ch)) >= tk(t), total(ch) >= 0
    ensures val_at(ch, place_at(cap, addr), beh.use_default_value, tk(t), v)
{
    let p = place_at(cap, addr);
    let n = choose|n: int| #[trigger] sees(ch, w, n) && gives(elems::<T>(ch, n, p), beh.use_default_value, t, v);
    lemma_upto(ch, n, p, beh.use_default_value, t, v);
    assert forall|k: int| n <= k < total(ch) implies #[trigger] hstamp(ch, k) >= tk(t) by {
        let i = w.seen[src(ch)];
        assert(nsent(ch, i) <= k);
    }
    if exists|k: int| 0 <= k < n && #[trigger] put_at::<T>(ch, k, p) && hstamp(ch, k) <= tk(t) && v == hist::<Put<T>>(ch, k).e.data
        && (forall|m: int| k < m < n && #[trigger] put_at::<T>(ch, m, p) ==> hstamp(ch, m) > tk(t)) {
        let k = choose|k: int| 0 <= k < n && #[trigger] put_at::<T>(ch, k, p) && hstamp(ch, k) <= tk(t) && v == hist::<Put<T>>(ch, k).e.data
            && (forall|m: int| k < m < n && #[trigger] put_at::<T>(ch, m, p) ==> hstamp(ch, m) > tk(t));
        assert(put_at::<T>(ch, k, p));
        assert forall|m: int| k < m < total(ch) && #[trigger] put_at::<T>(ch, m, p) implies hstamp(ch, m) >= tk(t) by {}
    } else {
        assert forall|m: int| 0 <= m < total(ch) && #[trigger] put_at::<T>(ch, m, p) implies hstamp(ch, m) >= tk(t) by {}
    }
}
//% typemap Arc<datastore::Datastore<T>> => SharedStore<T>
//% typemap Arc<Datastore<T>> => SharedStore<T>
//% pathmap AT::default => AT::vx_default
//% effects read write
//% shims read write to_usize vx_default all_events
//% file src/datastructures/mod.rs
//% struct ContextInfo noderive
//% file src/templates/pmu.rs
//% struct PMUReadBundle noderive bound=DAMType
//% struct PMUWriteBundle noderive bound=DAMType
//% struct ReadPipeline noderive bound=DAMType
//% struct WritePipeline noderive bound=DAMType
//% raw
impl<T: DAMType, IT: DAMType> Ports for PMUReadBundle<T, IT> {
    open spec fn port(&self, k: int) -> Port { if k == 0 { Port::In(self.addr.st()) } else if k == 1 { Port::Out(self.resp.st()) } else { Port::No } }
    open spec fn ok(&self, k: int, w: WV) -> bool { if k == 0 { r_port(self.addr, w) } else if k == 1 { s_port(self.resp, w) } else { true } }
    open spec fn n(&self, k: int, w: WV) -> int { if k == 0 { self.addr.deq(w) } else if k == 1 { s_n(self.resp, w) } else { 0 } }
    proof fn kept(&self, k: int, w: WV, v: WV) { if k == 0 { lemma_rport(&self.addr, w, v); } else if k == 1 { lemma_sport(&self.resp, w, v); } }
}
impl<T: DAMType, IT: DAMType, AT: DAMType> Ports for PMUWriteBundle<T, IT, AT> {
    open spec fn port(&self, k: int) -> Port { if k == 0 { Port::In(self.addr.st()) } else if k == 1 { Port::In(self.data.st()) } else if k == 2 { Port::Out(self.ack.st()) } else { Port::No } }
    open spec fn ok(&self, k: int, w: WV) -> bool { if k == 0 { r_port(self.addr, w) } else if k == 1 { r_port(self.data, w) } else if k == 2 { s_port(self.ack, w) } else { true } }
    open spec fn n(&self, k: int, w: WV) -> int { if k == 0 { self.addr.deq(w) } else if k == 1 { self.data.deq(w) } else if k == 2 { s_n(self.ack, w) } else { 0 } }
    proof fn kept(&self, k: int, w: WV, v: WV) { if k == 0 { lemma_rport(&self.addr, w, v); } else if k == 1 { lemma_rport(&self.data, w, v); } else if k == 2 { lemma_sport(&self.ack, w, v); } }
}
// ---------------------------------------------------------------- reads
/// when the next request of reader i is there
pub open spec fn rdue<T: DAMType, IT: DAMType>(bs: Seq<PMUReadBundle<T, IT>>, s: St) -> spec_fn(int) -> int { |i: int| due(bs[i].addr.st().ch, (s.n)(i, 0)) }
/// request i is served: at the later of its arrival and the end of the previous one, with the value of that time, in one
/// cycle more than it takes to get rid of the answer
pub open spec fn read_one<T: DAMType, IT: IndexLike>(bs: Seq<PMUReadBundle<T, IT>>, d: SharedStore<T>, a: St, b: St, i: int) -> bool {
    let p = bs[i].addr.st();
    let q = bs[i].resp.st();
    let (x, y) = ((a.n)(i, 0), (a.n)(i, 1));
    let t = imax(a.clk, rdue(bs, a)(i));
    let addr = hist::<ChannelElement<IT>>(p.ch, x).data.idx() as int;
    &&& first_min(rdue(bs, a), bs.len() as int, i)
    &&& lawful_at(d.cap(), d.beh().mod_address, addr)
    &&& q.live ==> y < total(q.ch) && hstamp(q.ch, y) == imax(t, gate(q, y, t) + q.lat)
        && val_at(d.ch(), place_at(d.cap(), addr), d.beh().use_default_value, t, hist::<ChannelElement<T>>(q.ch, y).data)
    &&& acked(p, x, t)
    &&& b.clk == gate(q, y, t) + 1
    &&& forall|j: int, k: int| #[trigger] (b.n)(j, k) == (a.n)(j, k) + (if j == i && (k == 0 || k == 1 && q.live) { 1int } else { 0 })
}
pub open spec fn served<T: DAMType, IT: IndexLike>(bs: Seq<PMUReadBundle<T, IT>>, d: SharedStore<T>, a: St, b: St) -> bool { exists|i: int| #[trigger] read_one(bs, d, a, b, i) }
/// one request after the other
pub open spec fn reads<T: DAMType, IT: IndexLike>(bs: Seq<PMUReadBundle<T, IT>>, d: SharedStore<T>, tr: Seq<St>) -> bool {
    tr.len() > 0 && forall|m: int, n: int| 0 <= m && n == m + 1 && n < tr.len() ==> #[trigger] served(bs, d, tr[m], tr[n])
}
pub proof fn lemma_reads<T: DAMType, IT: IndexLike>(bs: Seq<PMUReadBundle<T, IT>>, d: SharedStore<T>, tr: Seq<St>, b: St)
    requires reads(bs, d, tr), served(bs, d, tr.last(), b)
    ensures reads(bs, d, tr.push(b))
{
    let t = tr.push(b);
    assert forall|m: int, n: int| 0 <= m && n == m + 1 && n < t.len() implies #[trigger] served(bs, d, t[m], t[n]) by {
        assert(t[m] == tr[m]);
        if n < tr.len() { assert(t[n] == tr[n]); assert(served(bs, d, tr[m], tr[n])); }
    }
}
pub open spec fn read_start<T: DAMType, IT: IndexLike>(p: ReadPipeline<T, IT>, s: St, w: WV) -> bool { s.clk == clock(w) && agree(p.readers@, s, w) }
pub open spec fn same_store<T: DAMType>(a: SharedStore<T>, b: SharedStore<T>) -> bool { a == b }
pub open spec fn read_wf<T: DAMType, IT: IndexLike>(p: ReadPipeline<T, IT>, w: WV) -> bool {
    let ch = p.datastore.ch();
    &&& b_ok(p.readers@, p.readers@, w) && separate(p.readers@, -1)
    &&& p.context_info.time.mine(w) && free(w) && clock(w) < INF
    &&& is_store(ch) && lat(ch) == 0 && total(ch) >= 0 && src(ch) != w.me
    // the reader follows the writer
    &&& p.writer_view matches Some(v) && view_wf(v) && only(v, src(ch))
}
/// the bundles, one by one
pub open spec fn r_flat<T: DAMType, IT: DAMType>(b0: Seq<PMUReadBundle<T, IT>>, b: Seq<PMUReadBundle<T, IT>>, a: St, w: WV) -> bool {
    b.len() == b0.len() && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).addr.st() == b0[i].addr.st() && b[i].resp.st() == b0[i].resp.st()
        && r_port(b[i].addr, w) && s_port(b[i].resp, w) && b[i].addr.deq(w) == (a.n)(i, 0) && clear(Port::In(b[i].addr.st()), Port::Out(b[i].resp.st()))
}
pub proof fn lemma_rflat<T: DAMType, IT: DAMType>(b0: Seq<PMUReadBundle<T, IT>>, b: Seq<PMUReadBundle<T, IT>>, a: St, w: WV)
    requires b_ok(b0, b, w), separate(b0, -1), agree(b, a, w)
    ensures r_flat(b0, b, a, w)
{
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).addr.st() == b0[i].addr.st() && b[i].resp.st() == b0[i].resp.st()
        && r_port(b[i].addr, w) && s_port(b[i].resp, w) && b[i].addr.deq(w) == (a.n)(i, 0) && clear(Port::In(b[i].addr.st()), Port::Out(b[i].resp.st())) by {
        assert(b[i].port(0) == b0[i].port(0) && b[i].port(1) == b0[i].port(1));
        assert(b[i].ok(0, w) && b[i].ok(1, w) && b[i].n(0, w) == (a.n)(i, 0));
        assert(clear(b0[i].port(0), b0[i].port(1)));
    }
}
/// what the code did to serve one request: knows the time, takes the address, looks it up, answers
pub open spec fn read1<T: DAMType, IT: IndexLike>(d: SharedStore<T>, wc: WV, wb: WV, wd: WV, r: Result<ChannelElement<IT>, DequeueError>, we: WV, wf: WV, x: ChannelElement<T>, v: WV, t: int) -> bool {
    &&& step(wc, wb) && free(wb) && clock(wb) == t && clk_at(wb, src(d.ch())) >= t
    &&& r is Ok && free(wd) && step(wd, we) && free(we) && clock(we) == clock(wd) && tk(x.time) == clock(wd)
    &&& free(wf) && step(wf, v) && free(v) && clock(v) == clock(wf) + 1
    &&& lawful_at(d.cap(), d.beh().mod_address, r->Ok_0.data.idx() as int) && found(d.ch(), d.cap(), d.beh(), r->Ok_0.data.idx() as int, x.time, we, x.data)
}
pub open spec fn next_n(a: St, clk: int, i: int, s: SS) -> St {
    St { clk, n: |j: int, k: int| (a.n)(j, k) + (if j == i && (k == 0 || k == 1 && s.live) { 1int } else { 0 }), k: a.k }
}
pub proof fn lemma_read<T: DAMType, IT: IndexLike>(b0: Seq<PMUReadBundle<T, IT>>, rb: Seq<PMUReadBundle<T, IT>>, b: Seq<PMUReadBundle<T, IT>>, d: SharedStore<T>, a: St, wc: WV, v: WV, i: int) -> (z: St)
    requires b_ok(b0, rb, wc), separate(b0, -1), r_flat(b0, rb, a, wc), agree(rb, a, wc), first_min(rdue(b0, a), b0.len() as int, i),
        is_store(d.ch()), lat(d.ch()) == 0, total(d.ch()) >= 0,
        b == rb.update(i, b[i]), clock(v) < INF,
        exists|wb: WV, wd: WV, d1: int, r: Result<ChannelElement<IT>, DequeueError>, we: WV, wf: WV, x: ChannelElement<T>, r2: Result<(), EnqueueError>|
            #[trigger] deq_ok(rb[i].addr.st(), wb, wd, rb[i].addr.deq(wb), d1, r) && #[trigger] enq_ok(rb[i].resp.st(), we, wf, x, r2) && r2 is Ok
            && read1(d, wc, wb, wd, r, we, wf, x, v, imax(a.clk, rdue(b0, a)(i)))
            && b[i].addr.inv(wd) && b[i].addr.st() == rb[i].addr.st() && b[i].addr.deq(wd) == d1 && b[i].resp.inv(wf) && b[i].resp.st() == rb[i].resp.st()
    ensures read_one(b0, d, a, z, i), b_ok(b0, b, v), agree(b, z, v), z.clk == clock(v)
{
    let (wb, wd, d1, r, we, wf, x, r2) = choose|wb: WV, wd: WV, d1: int, r: Result<ChannelElement<IT>, DequeueError>, we: WV, wf: WV, x: ChannelElement<T>, r2: Result<(), EnqueueError>|
            #[trigger] deq_ok(rb[i].addr.st(), wb, wd, rb[i].addr.deq(wb), d1, r) && #[trigger] enq_ok(rb[i].resp.st(), we, wf, x, r2) && r2 is Ok
            && read1(d, wc, wb, wd, r, we, wf, x, v, imax(a.clk, rdue(b0, a)(i)))
            && b[i].addr.inv(wd) && b[i].addr.st() == rb[i].addr.st() && b[i].addr.deq(wd) == d1 && b[i].resp.inv(wf) && b[i].resp.st() == rb[i].resp.st();
    let p = rb[i].addr.st();
    let q = rb[i].resp.st();
    let c = rb.update(i, PMUReadBundle { addr: b[i].addr, resp: rb[i].resp });
    assert(b_ok(b0, rb, wb));
    assert(rb[i].port(0) == b0[i].port(0) && rb[i].port(1) == b0[i].port(1));
    assert(rb[i].n(0, wb) == rb[i].n(0, wc) && rb[i].n(0, wc) == (a.n)(i, 0));
    assert(used(rb, c, i, 0));
    lemma_use(b0, rb, c, -1, i, 0, wb, wd, p.ack, p.ch);
    assert(b_ok(b0, c, we));
    assert(used(c, b, i, 1));
    assert(b[i].port(1) == c[i].port(1));
    if q.live { lemma_use(b0, c, b, -1, i, 1, we, wf, q.ch, if q.cap is Some { q.resp } else { -1 }); } else { lemma_use(b0, c, b, -1, i, 1, we, wf, -1, -1); }
    assert(b_ok(b0, b, v));
    let z = next_n(a, clock(v), i, q);
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < 4 implies (#[trigger] b[j].n(k, v)) == (z.n)(j, k) by {
        assert(b[j].n(k, v) == b[j].n(k, wf));
        assert(rb[j].n(k, wc) == (a.n)(j, k));
        assert(rb[j].n(k, wb) == rb[j].n(k, wc));
        assert(c[j].n(k, we) == c[j].n(k, wd));
        if j != i || k != 0 { assert(c[j].n(k, wd) == rb[j].n(k, wb)); }
        if j != i || k != 1 { assert(b[j].n(k, wf) == c[j].n(k, we)); } else { assert(c[i].n(1, wd) == rb[i].n(1, wb)); }
    }
    assert(c[i].n(1, we) == (a.n)(i, 1)) by { assert(c[i].n(1, we) == c[i].n(1, wd)); assert(c[i].n(1, wd) == rb[i].n(1, wb)); assert(rb[i].n(1, wb) == rb[i].n(1, wc)); assert(rb[i].n(1, wc) == (a.n)(i, 1)); }
    lemma_found(d.ch(), d.cap(), d.beh(), r->Ok_0.data.idx() as int, x.time, we, x.data);
    z
}
//% impl ReadPipeline [ctx] => impl<T: DAMType, IT: IndexLike> ReadPipeline<T, IT>
//% fn await_writer world ret=r
    requires old(self).writer_view is Some, view_wf(old(self).writer_view->Some_0), old(self).context_info.time.mine(old(vw)@)
    ensures *final(self) == *old(self), sync(old(vw)@, final(vw)@), free(final(vw)@),
        forall|c: int| only(old(self).writer_view->Some_0, c) ==> #[trigger] clk_at(final(vw)@, c) >= clock(old(vw)@),
//% end
//% impl Context for ReadPipeline [ctx] => impl<T: DAMType, IT: IndexLike> ReadPipeline<T, IT>
//% fn run as=read_run world mutself rwlock=readers mayfail=enqueue local=next_events:0
//% attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//% sig
    pub fn read_run(&mut self, vw: &mut World)
    requires read_wf(*old(self), old(vw)@)
    ensures
        exists|tr: Seq<St>| #[trigger] reads(old(self).readers@, old(self).datastore, tr) && read_start(*old(self), tr[0], old(vw)@)
            // all requests have been served
            && (forall|i: int| 0 <= i < old(self).readers.len() ==> #[trigger] rdue(old(self).readers@, tr.last())(i) >= INF)
            && agree(final(self).readers@, tr.last(), final(vw)@),
//% proof start
    let ghost b0 = self.readers@;
    let ghost p0 = *self;
    let ghost w0 = vw@;
    let ghost st = self.datastore;
    let ghost s0 = St { clk: clock(vw@), n: |i: int, k: int| b0[i].n(k, w0), k: 0 };
    let ghost mut tr: Seq<St> = seq![s0];
    let ghost mut a = s0;
//% loop 0
    invariant
        b_ok(b0, self.readers@, vw@), separate(b0, -1), self.datastore == st, self.writer_view == p0.writer_view, self.context_info == p0.context_info,
        self.context_info.time.mine(vw@), free(vw@), clock(vw@) < INF, vw@.me == w0.me,
        reads(b0, st, tr), tr[0] == s0, a == tr.last(), agree(self.readers@, a, vw@), a.clk <= clock(vw@),
        forall|i: int| 0 <= i < b0.len() ==> clock(vw@) <= imax(a.clk, #[trigger] rdue(b0, a)(i)),
//% proof loop 0 start
    let ghost clk0 = clock(vw@);
    let ghost mut rb = self.readers@;
    let ghost mut wc = vw@;
    proof { lemma_rflat(b0, rb, a, wc); }
//% loop 1
    invariant
        vx_i1 <= self.readers.len(), self.readers.len() == b0.len(), knows(vx_v1@, rdue(b0, a), vx_i1 as int),
        rb == self.readers@, wc == vw@, b_ok(b0, rb, wc), r_flat(b0, rb, a, wc), agree(rb, a, wc),
        self.datastore == st, self.writer_view == p0.writer_view, self.context_info == p0.context_info,
        self.context_info.time.mine(vw@), free(vw@), vw@.me == w0.me, clock(vw@) == clk0,
    decreases self.readers.len() - vx_i1
//% proof loop 1 end
    proof {
        let m = vx_i1 - 1;
        assert(rb[m].port(0) == b0[m].port(0) && rb[m].n(0, wc) == (a.n)(m, 0));
        assert(self.readers@ =~= rb.update(m, self.readers@[m]));
        assert(used(rb, self.readers@, m, 0));
        lemma_use(b0, rb, self.readers@, -1, m, 0, wc, vw@, -1, rkey(b0[m].port(0)));
        lemma_tells(vx_v1@.last(), b0[m].addr.st().ch, (a.n)(m, 0), clk0);
        lemma_knows(vx_v1@.drop_last(), vx_v1@.last(), rdue(b0, a), m);
        assert(vx_v1@ =~= vx_v1@.drop_last().push(vx_v1@.last()));
        rb = self.readers@;
        wc = vw@;
        lemma_rflat(b0, rb, a, wc);
    }
//% loop 2
    invariant
        vx_i2 <= next_events.len(), knows(vx_v2@, rdue(b0, a), vx_i2 as int), forall|i: int| 0 <= i < vx_i2 ==> #[trigger] vx_v2@[i] == next_events@[i],
    decreases next_events.len() - vx_i2
//% proof loop 2 end
    proof { assert(vx_v2@ =~= vx_v2@.drop_last().push(vx_v2@.last())); }
//% proof loop 0 end
    proof {
        let i = choose|i: int| first_min(rdue(b0, a), b0.len() as int, i);
        let z = lemma_read(b0, rb, self.readers@, st, a, wc, vw@, i);
        lemma_reads(b0, st, tr, z);
        tr = tr.push(z);
        a = z;
    }
//% end
//% raw
// ---------------------------------------------------------------- writes
/// when both the address and the data of the next request of writer i are there
pub open spec fn wdue<T: DAMType, IT: DAMType, AT: DAMType>(bs: Seq<PMUWriteBundle<T, IT, AT>>, s: St) -> spec_fn(int) -> int {
    |i: int| imax(due(bs[i].addr.st().ch, (s.n)(i, 0)), due(bs[i].data.st().ch, (s.n)(i, 1)))
}
/// the k-th write to store d
pub open spec fn put_is<T: DAMType>(d: SharedStore<T>, k: int, addr: int, x: T, t: int) -> bool {
    let p = hist::<Put<T>>(d.ch(), k);
    &&& 0 <= k < total(d.ch()) && hstamp(d.ch(), k) == t && tk(p.e.time) == t
    &&& lawful_at(d.cap(), d.beh().mod_address, addr) && p.place == place_at(d.cap(), addr) && p.e.data == x
}
/// request i is served: at the later of its arrival and the end of the previous one the data goes to the place addressed,
/// and is acknowledged
pub open spec fn write_one<T: DAMType, IT: IndexLike, AT: DAMType>(bs: Seq<PMUWriteBundle<T, IT, AT>>, d: SharedStore<T>, a: St, b: St, i: int) -> bool {
    let p = bs[i].addr.st();
    let r = bs[i].data.st();
    let q = bs[i].ack.st();
    let (x, z, y) = ((a.n)(i, 0), (a.n)(i, 1), (a.n)(i, 2));
    let t = imax(a.clk, wdue(bs, a)(i));
    &&& first_min(wdue(bs, a), bs.len() as int, i)
    &&& put_is(d, a.k, hist::<ChannelElement<IT>>(p.ch, x).data.idx() as int, hist::<ChannelElement<T>>(r.ch, z).data, t) && b.k == a.k + 1
    &&& q.live ==> y < total(q.ch) && hstamp(q.ch, y) == imax(t, gate(q, y, t) + q.lat) && hist::<ChannelElement<AT>>(q.ch, y).data == AT::dflt()
    &&& acked(p, x, t) && acked(r, z, t)
    &&& b.clk == gate(q, y, t) + 1
    &&& forall|j: int, k: int| #[trigger] (b.n)(j, k) == (a.n)(j, k) + (if j == i && (k == 0 || k == 1 || k == 2 && q.live) { 1int } else { 0 })
}
pub open spec fn stored<T: DAMType, IT: IndexLike, AT: DAMType>(bs: Seq<PMUWriteBundle<T, IT, AT>>, d: SharedStore<T>, a: St, b: St) -> bool { exists|i: int| #[trigger] write_one(bs, d, a, b, i) }
/// one request after the other
pub open spec fn writes<T: DAMType, IT: IndexLike, AT: DAMType>(bs: Seq<PMUWriteBundle<T, IT, AT>>, d: SharedStore<T>, tr: Seq<St>) -> bool {
    tr.len() > 0 && forall|m: int, n: int| 0 <= m && n == m + 1 && n < tr.len() ==> #[trigger] stored(bs, d, tr[m], tr[n])
}
pub proof fn lemma_writes<T: DAMType, IT: IndexLike, AT: DAMType>(bs: Seq<PMUWriteBundle<T, IT, AT>>, d: SharedStore<T>, tr: Seq<St>, b: St)
    requires writes(bs, d, tr), stored(bs, d, tr.last(), b)
    ensures writes(bs, d, tr.push(b))
{
    let t = tr.push(b);
    assert forall|m: int, n: int| 0 <= m && n == m + 1 && n < t.len() implies #[trigger] stored(bs, d, t[m], t[n]) by {
        assert(t[m] == tr[m]);
        if n < tr.len() { assert(t[n] == tr[n]); assert(stored(bs, d, tr[m], tr[n])); }
    }
}
pub open spec fn write_start<T: DAMType, IT: IndexLike, AT: DAMType>(p: WritePipeline<T, IT, AT>, s: St, w: WV) -> bool {
    s.clk == clock(w) && agree(p.writers@, s, w) && s.k == w.sent[p.datastore.ch()]
}
/// nothing written at or after t
pub open spec fn before(ch: int, n: int, t: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] hstamp(ch, k) < t }
pub open spec fn write_wf<T: DAMType, IT: IndexLike, AT: DAMType>(p: WritePipeline<T, IT, AT>, w: WV) -> bool {
    let ch = p.datastore.ch();
    &&& b_ok(p.writers@, p.writers@, w) && separate(p.writers@, ch)
    &&& p.context_info.time.mine(w) && free(w) && clock(w) < INF
    // it is the one that writes
    &&& ch >= 0 && is_store(ch) && lat(ch) == 0 && src(ch) == w.me && w.sent[ch] >= 0 && before(ch, w.sent[ch], clock(w))
}
/// the bundles, one by one
pub open spec fn w_flat1<T: DAMType, IT: DAMType, AT: DAMType>(p0: PMUWriteBundle<T, IT, AT>, p: PMUWriteBundle<T, IT, AT>, a: St, w: WV, i: int, x: int) -> bool {
    &&& p.addr.st() == p0.addr.st() && p.data.st() == p0.data.st() && p.ack.st() == p0.ack.st()
    &&& r_port(p.addr, w) && r_port(p.data, w) && s_port(p.ack, w) && p.addr.deq(w) == (a.n)(i, 0) && p.data.deq(w) == (a.n)(i, 1)
    &&& clear(Port::In(p.addr.st()), Port::In(p.data.st())) && clear(Port::In(p.addr.st()), Port::Out(p.ack.st())) && clear(Port::In(p.data.st()), Port::Out(p.ack.st()))
    &&& p.addr.st().ack != x && p.data.st().ack != x && (p.ack.st().live ==> p.ack.st().ch != x)
}
pub open spec fn w_flat<T: DAMType, IT: DAMType, AT: DAMType>(b0: Seq<PMUWriteBundle<T, IT, AT>>, b: Seq<PMUWriteBundle<T, IT, AT>>, a: St, w: WV, x: int) -> bool {
    b.len() == b0.len() && forall|i: int| 0 <= i < b.len() ==> w_flat1(b0[i], #[trigger] b[i], a, w, i, x)
}
pub proof fn lemma_wflat<T: DAMType, IT: DAMType, AT: DAMType>(b0: Seq<PMUWriteBundle<T, IT, AT>>, b: Seq<PMUWriteBundle<T, IT, AT>>, a: St, w: WV, x: int)
    requires b_ok(b0, b, w), separate(b0, x), agree(b, a, w), x >= 0
    ensures w_flat(b0, b, a, w, x)
{
    assert forall|i: int| 0 <= i < b.len() implies w_flat1(b0[i], #[trigger] b[i], a, w, i, x) by {
        assert(b[i].port(0) == b0[i].port(0) && b[i].port(1) == b0[i].port(1) && b[i].port(2) == b0[i].port(2));
        assert(b[i].ok(0, w) && b[i].ok(1, w) && b[i].ok(2, w) && b[i].n(0, w) == (a.n)(i, 0) && b[i].n(1, w) == (a.n)(i, 1));
        assert(clear(b0[i].port(0), b0[i].port(1)) && clear(b0[i].port(0), b0[i].port(2)) && clear(b0[i].port(1), b0[i].port(2)));
        assert(skey(b0[i].port(0)) != x && skey(b0[i].port(1)) != x && skey(b0[i].port(2)) != x);
    }
}
/// the answer about both channels
pub open spec fn wask1(ts: Seq<EventTime>, ch0: int, d0: int, ch1: int, d1: int, now: int) -> bool {
    ts.len() == 2 && next_of(ts[0], ch0, d0, now) && next_of(ts[1], ch1, d1, now) && ev_sane(ts[0]) && ev_sane(ts[1])
}
pub proof fn lemma_wask(r: EventTime, ch0: int, d0: int, ch1: int, d1: int, now: int)
    requires ev_sane(r), 0 <= d0, 0 <= d1,
        exists|ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(ts, ws, rs) && rs.len() == ts.len() && all_post(rs, r) && wask1(ts, ch0, d0, ch1, d1, now)
    ensures tells(r, imax(due(ch0, d0), due(ch1, d1)))
{
    let (ts, ws, rs) = choose|ts: Seq<EventTime>, ws: Seq<WV>, rs: Seq<EventTime>| #[trigger] asked(ts, ws, rs) && rs.len() == ts.len() && all_post(rs, r) && wask1(ts, ch0, d0, ch1, d1, now);
    let ds = seq![due(ch0, d0), due(ch1, d1)];
    lemma_tells(ts[0], ch0, d0, now);
    lemma_tells(ts[1], ch1, d1, now);
    assert(ds.drop_last() =~= seq![due(ch0, d0)]);
    assert(smax(ds) == imax(smax(ds.drop_last()), ds.last()));
    lemma_tells_all(rs, ds, r);
}
/// asking bundle i leaves everything in order
pub proof fn lemma_wbundle<T: DAMType, IT: DAMType, AT: DAMType>(b0: Seq<PMUWriteBundle<T, IT, AT>>, rb: Seq<PMUWriteBundle<T, IT, AT>>, b: Seq<PMUWriteBundle<T, IT, AT>>, x: int, a: St, w: WV, v: WV, i: int)
    requires b_ok(b0, rb, w), separate(b0, x), agree(rb, a, w), 0 <= i < b.len(), b == rb.update(i, b[i]), x >= 0, w_flat(b0, rb, a, w, x), free(v),
        b[i].ack == rb[i].ack, b[i].addr.st() == rb[i].addr.st(), b[i].data.st() == rb[i].data.st(), b[i].data.inv(v), b[i].data.deq(v) == rb[i].data.deq(w),
        exists|u: WV| #[trigger] io_sync(w, u, -1, rb[i].addr.st().ch) && #[trigger] io_sync(u, v, -1, rb[i].data.st().ch) && free(u) && b[i].addr.inv(u) && b[i].addr.deq(u) == rb[i].addr.deq(w),
    ensures b_ok(b0, b, v), agree(b, a, v), w_flat(b0, b, a, v, x)
{
    let u = choose|u: WV| #[trigger] io_sync(w, u, -1, rb[i].addr.st().ch) && #[trigger] io_sync(u, v, -1, rb[i].data.st().ch) && free(u) && b[i].addr.inv(u) && b[i].addr.deq(u) == rb[i].addr.deq(w);
    let c = rb.update(i, PMUWriteBundle { addr: b[i].addr, data: rb[i].data, ack: rb[i].ack });
    assert(rb[i].port(0) == b0[i].port(0) && rb[i].port(1) == b0[i].port(1));
    assert(used(rb, c, i, 0));
    lemma_use(b0, rb, c, x, i, 0, w, u, -1, rkey(b0[i].port(0)));
    assert(used(c, b, i, 1));
    lemma_use(b0, c, b, x, i, 1, u, v, -1, rkey(b0[i].port(1)));
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < 4 implies (#[trigger] b[j].n(k, v)) == (a.n)(j, k) by {
        assert(rb[j].n(k, w) == (a.n)(j, k));
        if j != i || k != 0 { assert(c[j].n(k, u) == rb[j].n(k, w)); }
        if j != i || k != 1 { assert(b[j].n(k, v) == c[j].n(k, u)); } else { assert(c[i].n(1, u) == rb[i].n(1, w)); }
    }
    lemma_wflat(b0, b, a, v, x);
}
/// what the code did to serve one request: takes address and data, stores, acknowledges
pub open spec fn write1<T: DAMType, IT: IndexLike, AT: DAMType>(d: SharedStore<T>, k: int, wc: WV, wb: WV, r0: Result<ChannelElement<IT>, DequeueError>, wd: WV, r1: Result<ChannelElement<T>, DequeueError>, we: WV, wp: WV, wf: WV, x: ChannelElement<AT>, v: WV, t: int) -> bool {
    &&& step(wc, wb) && free(wb) && clock(wb) == t && r0 is Ok && r1 is Ok && free(wd) && free(we)
    &&& io_step(we, wp, d.ch(), -1) && free(wp) && clock(wp) == clock(we) && wp.sent[d.ch()] == we.sent[d.ch()] + 1
    &&& tk(x.time) == clock(we) && x.data == AT::dflt()
    &&& put_is(d, k, r0->Ok_0.data.idx() as int, r1->Ok_0.data, clock(we))
    &&& free(wf) && step(wf, v) && free(v) && clock(v) == clock(wf) + 1
}
pub open spec fn next_w(a: St, clk: int, i: int, s: SS) -> St {
    St { clk, n: |j: int, k: int| (a.n)(j, k) + (if j == i && (k == 0 || k == 1 || k == 2 && s.live) { 1int } else { 0 }), k: a.k + 1 }
}
pub proof fn lemma_write<T: DAMType, IT: IndexLike, AT: DAMType>(b0: Seq<PMUWriteBundle<T, IT, AT>>, rb: Seq<PMUWriteBundle<T, IT, AT>>, b: Seq<PMUWriteBundle<T, IT, AT>>, d: SharedStore<T>, a: St, wc: WV, v: WV, i: int) -> (z: St)
    requires b_ok(b0, rb, wc), separate(b0, d.ch()), w_flat(b0, rb, a, wc, d.ch()), agree(rb, a, wc), first_min(wdue(b0, a), b0.len() as int, i),
        d.ch() >= 0, wc.sent[d.ch()] == a.k, before(d.ch(), a.k, a.clk),
        b == rb.update(i, b[i]), clock(v) < INF, clock(wc) >= a.clk,
        exists|wb: WV, da: int, r0: Result<ChannelElement<IT>, DequeueError>, wd: WV, db: int, r1: Result<ChannelElement<T>, DequeueError>, we: WV, wp: WV, wf: WV, x: ChannelElement<AT>, r2: Result<(), EnqueueError>|
            #[trigger] deq_ok(rb[i].addr.st(), wb, wd, rb[i].addr.deq(wb), da, r0) && #[trigger] deq_ok(rb[i].data.st(), wd, we, rb[i].data.deq(wd), db, r1)
            && #[trigger] enq_ok(rb[i].ack.st(), wp, wf, x, r2) && r2 is Ok
            && write1::<T, IT, AT>(d, a.k, wc, wb, r0, wd, r1, we, wp, wf, x, v, imax(a.clk, wdue(b0, a)(i)))
            && b[i].addr.inv(wd) && b[i].addr.st() == rb[i].addr.st() && b[i].addr.deq(wd) == da && b[i].data.inv(we) && b[i].data.st() == rb[i].data.st() && b[i].data.deq(we) == db
            && b[i].ack.inv(wf) && b[i].ack.st() == rb[i].ack.st()
    ensures write_one(b0, d, a, z, i), b_ok(b0, b, v), agree(b, z, v), z.clk == clock(v), v.sent[d.ch()] == z.k, before(d.ch(), z.k, z.clk), z.k >= 1
{
    let (wb, da, r0, wd, db, r1, we, wp, wf, x, r2) = choose|wb: WV, da: int, r0: Result<ChannelElement<IT>, DequeueError>, wd: WV, db: int, r1: Result<ChannelElement<T>, DequeueError>, we: WV, wp: WV, wf: WV, x: ChannelElement<AT>, r2: Result<(), EnqueueError>|
            #[trigger] deq_ok(rb[i].addr.st(), wb, wd, rb[i].addr.deq(wb), da, r0) && #[trigger] deq_ok(rb[i].data.st(), wd, we, rb[i].data.deq(wd), db, r1)
            && #[trigger] enq_ok(rb[i].ack.st(), wp, wf, x, r2) && r2 is Ok
            && write1::<T, IT, AT>(d, a.k, wc, wb, r0, wd, r1, we, wp, wf, x, v, imax(a.clk, wdue(b0, a)(i)))
            && b[i].addr.inv(wd) && b[i].addr.st() == rb[i].addr.st() && b[i].addr.deq(wd) == da && b[i].data.inv(we) && b[i].data.st() == rb[i].data.st() && b[i].data.deq(we) == db
            && b[i].ack.inv(wf) && b[i].ack.st() == rb[i].ack.st();
    let sch = d.ch();
    let p = rb[i].addr.st();
    let r = rb[i].data.st();
    let q = rb[i].ack.st();
    let t = imax(a.clk, wdue(b0, a)(i));
    assert(w_flat1(b0[i], rb[i], a, wc, i, sch));
    let c = rb.update(i, PMUWriteBundle { addr: b[i].addr, data: rb[i].data, ack: rb[i].ack });
    let e = rb.update(i, PMUWriteBundle { addr: b[i].addr, data: b[i].data, ack: rb[i].ack });
    assert(b_ok(b0, rb, wb));
    assert(rb[i].port(0) == b0[i].port(0) && rb[i].port(1) == b0[i].port(1) && rb[i].port(2) == b0[i].port(2));
    assert(rb[i].n(0, wb) == rb[i].n(0, wc) && rb[i].n(1, wb) == rb[i].n(1, wc) && rb[i].n(2, wb) == rb[i].n(2, wc));
    assert(used(rb, c, i, 0));
    lemma_use(b0, rb, c, sch, i, 0, wb, wd, p.ack, p.ch);
    assert(used(c, e, i, 1));
    assert(c[i].port(1) == rb[i].port(1));
    lemma_use(b0, c, e, sch, i, 1, wd, we, r.ack, r.ch);
    lemma_still(b0, e, sch, we, wp, sch);
    assert(used(e, b, i, 2));
    assert(b[i].port(2) == e[i].port(2));
    if q.live { lemma_use(b0, e, b, sch, i, 2, wp, wf, q.ch, if q.cap is Some { q.resp } else { -1 }); } else { lemma_use(b0, e, b, sch, i, 2, wp, wf, -1, -1); }
    assert(b_ok(b0, b, v));
    let z = next_w(a, clock(v), i, q);
    assert(c[i].n(1, wd) == rb[i].n(1, wb) && c[i].n(2, wd) == rb[i].n(2, wb));
    assert(e[i].n(2, we) == c[i].n(2, wd) && e[i].n(0, we) == c[i].n(0, wd));
    assert(e[i].n(2, wp) == e[i].n(2, we) && e[i].n(0, wp) == e[i].n(0, we) && e[i].n(1, wp) == e[i].n(1, we));
    assert(rb[i].n(0, wc) == (a.n)(i, 0) && rb[i].n(1, wc) == (a.n)(i, 1) && rb[i].n(2, wc) == (a.n)(i, 2));
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < 4 implies (#[trigger] b[j].n(k, v)) == (z.n)(j, k) by {
        assert(b[j].n(k, v) == b[j].n(k, wf));
        assert(rb[j].n(k, wc) == (a.n)(j, k));
        assert(rb[j].n(k, wb) == rb[j].n(k, wc));
        assert(e[j].n(k, wp) == e[j].n(k, we));
        if j != i || k != 0 { assert(c[j].n(k, wd) == rb[j].n(k, wb)); }
        if j != i || k != 1 { assert(e[j].n(k, we) == c[j].n(k, wd)); }
        if j != i || k != 2 { assert(b[j].n(k, wf) == e[j].n(k, wp)); }
    }
    assert(clock(v) > t);
    assert forall|k: int| 0 <= k < z.k implies #[trigger] hstamp(sch, k) < z.clk by {}
    z
}
//% impl Context for WritePipeline [ctx] => impl<T: DAMType, IT: IndexLike, AT: DAMType> WritePipeline<T, IT, AT>
//% fn run as=write_run world mutself rwlock=writers mayfail=enqueue local=next_events:0
//% attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//% sig
    pub fn write_run(&mut self, vw: &mut World)
    requires write_wf(*old(self), old(vw)@)
    ensures
        exists|tr: Seq<St>| #[trigger] writes(old(self).writers@, old(self).datastore, tr) && write_start(*old(self), tr[0], old(vw)@)
            // all requests have been served
            && (forall|i: int| 0 <= i < old(self).writers.len() ==> #[trigger] wdue(old(self).writers@, tr.last())(i) >= INF)
            && agree(final(self).writers@, tr.last(), final(vw)@) && final(vw)@.sent[old(self).datastore.ch()] == tr.last().k,
//% proof start
    let ghost b0 = self.writers@;
    let ghost p0 = *self;
    let ghost w0 = vw@;
    let ghost st = self.datastore;
    let ghost ch = st.ch();
    let ghost s0 = St { clk: clock(vw@), n: |i: int, k: int| b0[i].n(k, w0), k: vw@.sent[ch] };
    let ghost mut tr: Seq<St> = seq![s0];
    let ghost mut a = s0;
//% loop 0
    invariant
        b_ok(b0, self.writers@, vw@), separate(b0, ch), self.datastore == st, self.context_info == p0.context_info,
        self.context_info.time.mine(vw@), free(vw@), clock(vw@) < INF, vw@.me == w0.me,
        writes(b0, st, tr), tr[0] == s0, a == tr.last(), agree(self.writers@, a, vw@), a.clk <= clock(vw@),
        vw@.sent[ch] == a.k, a.k >= 0, before(ch, a.k, a.clk),
        forall|i: int| 0 <= i < b0.len() ==> clock(vw@) <= imax(a.clk, #[trigger] wdue(b0, a)(i)),
//% proof loop 0 start
    let ghost clk0 = clock(vw@);
    let ghost mut rb = self.writers@;
    let ghost mut wc = vw@;
    proof { lemma_wflat(b0, rb, a, wc, ch); }
//% loop 1
    invariant
        vx_i1 <= self.writers.len(), self.writers.len() == b0.len(), knows(vx_v1@, wdue(b0, a), vx_i1 as int),
        rb == self.writers@, wc == vw@, b_ok(b0, rb, wc), w_flat(b0, rb, a, wc, ch), agree(rb, a, wc),
        self.datastore == st, self.context_info == p0.context_info, vw@.sent[ch] == a.k,
        self.context_info.time.mine(vw@), free(vw@), vw@.me == w0.me, clock(vw@) == clk0,
    decreases self.writers.len() - vx_i1
//% proof loop 1 end
    proof {
        let m = vx_i1 - 1;
        assert(w_flat1(b0[m], rb[m], a, wc, m, ch));
        assert(self.writers@ =~= rb.update(m, self.writers@[m]));
        lemma_wask(vx_v1@.last(), b0[m].addr.st().ch, (a.n)(m, 0), b0[m].data.st().ch, (a.n)(m, 1), clk0);
        lemma_wbundle(b0, rb, self.writers@, ch, a, wc, vw@, m);
        lemma_knows(vx_v1@.drop_last(), vx_v1@.last(), wdue(b0, a), m);
        assert(vx_v1@ =~= vx_v1@.drop_last().push(vx_v1@.last()));
        rb = self.writers@;
        wc = vw@;
    }
//% loop 2
    invariant
        vx_i2 <= next_events.len(), knows(vx_v2@, wdue(b0, a), vx_i2 as int), forall|i: int| 0 <= i < vx_i2 ==> #[trigger] vx_v2@[i] == next_events@[i],
    decreases next_events.len() - vx_i2
//% proof loop 2 end
    proof { assert(vx_v2@ =~= vx_v2@.drop_last().push(vx_v2@.last())); }
//% proof loop 0 end
    proof {
        let i = choose|i: int| first_min(wdue(b0, a), b0.len() as int, i);
        let z = lemma_write(b0, rb, self.writers@, st, a, wc, vw@, i);
        lemma_writes(b0, st, tr, z);
        tr = tr.push(z);
        a = z;
    }
//% end
//% raw
} // mod pmu
