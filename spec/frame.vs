//% raw
// ================================================================ several channels of one context
pub mod frame {
use super::*;
use super::recv::*;
use super::send::*;
use super::rflav::*;
use super::sflav::*;
use super::handle::*;
broadcast use {ax::ax_tm_mono, ax::ax_dn_mono, axc::ax_late, axc::ax_stamp};
/// what an operation on another channel may change
pub open spec fn others(w: WV, v: WV) -> bool { v.me == w.me && free(v) && grow(w, v) }
pub open spec fn s_same(s: SS, w: WV, v: WV) -> bool { s.live ==> v.sent[s.ch] == w.sent[s.ch] && (s.cap is Some ==> v.rcvd[s.resp] == w.rcvd[s.resp]) }
pub open spec fn r_same(s: RS, w: WV, v: WV) -> bool { v.rcvd[s.ch] == w.rcvd[s.ch] && (s.bounded ==> v.sent[s.ack] == w.sent[s.ack]) }
/// a sender is not affected by what happens on other channels
pub proof fn lemma_sframe<T: DAMType>(s: &Sender<T>, w: WV, v: WV)
    requires s.inv(w), others(w, v), s_same(s.st(), w, v)
    ensures s.inv(v)
{
    assert(clk_at(w, w.me) <= clk_at(v, w.me)) by { assert(v.seen[w.me] >= w.seen[w.me]); assert(tm(w.me, w.seen[w.me]) <= tm(w.me, v.seen[w.me])); assert(dn(w.me, w.seen[w.me]) ==> dn(w.me, v.seen[w.me])); }
    match s.underlying.sender { SenderImpl::Cyclic(x) => {}, SenderImpl::Acyclic(x) => {}, SenderImpl::Infinite(x) => {}, _ => {} }
}
/// nor is a receiver
pub proof fn lemma_rframe<T: DAMType>(r: &Receiver<T>, w: WV, v: WV)
    requires r.inv(w), others(w, v), r_same(r.st(), w, v)
    ensures r.inv(v), r.deq(v) == r.deq(w)
{ match r.underlying.receiver { ReceiverImpl::Cyclic(x) => {}, ReceiverImpl::Acyclic(x) => {}, ReceiverImpl::CyclicInfinite(x) => {}, ReceiverImpl::AcyclicInfinite(x) => {}, _ => {} } }
/// every channel has one sender and one receiver
pub open spec fn apart(a: SS, b: SS) -> bool {
    a.live && b.live ==> a.ch != b.ch && (a.cap is Some && b.cap is Some ==> a.resp != b.resp)
}
pub open spec fn sound(a: SS) -> bool { a.live ==> a.ch >= 0 && (a.cap is Some ==> a.resp >= 0) }
pub open spec fn apart_r(a: SS, r: RS) -> bool { a.live ==> a.ch != r.ack && (a.cap is Some ==> a.resp != r.ch) }
pub open spec fn sts<T: DAMType>(ts: Seq<Sender<T>>) -> Seq<SS> { Seq::new(ts.len(), |i: int| ts[i].st()) }
pub open spec fn distinct(ss: Seq<SS>, r: RS) -> bool {
    &&& forall|i: int, j: int| 0 <= i < ss.len() && 0 <= j < ss.len() && i != j ==> #[trigger] apart(ss[i], ss[j])
    &&& forall|i: int| 0 <= i < ss.len() ==> sound(#[trigger] ss[i]) && apart_r(ss[i], r)
    &&& r.bounded ==> r.ack >= 0
}
/// when every one of the first m targets has room for its j-th item, having got at it at c
pub open spec fn gates(ss: Seq<SS>, sent: Map<int, int>, j: int, c: int, m: int) -> int
    decreases m
{
    if m <= 0 { c } else {
        let p = gates(ss, sent, j, c, m - 1);
        let s = ss[m - 1];
        if s.live && s.cap is Some && sent[s.ch] + j >= s.cap->Some_0 { imax(p, hstamp(s.resp, sent[s.ch] + j - s.cap->Some_0)) } else { p }
    }
}
/// a connected sender has a latency of at least one cycle
pub proof fn lemma_lat<T: DAMType>(s: &Sender<T>, w: WV)
    requires s.inv(w), s.st().live
    ensures s.st().lat >= 1, 0 <= w.sent[s.st().ch]
{ match s.underlying.sender { SenderImpl::Cyclic(x) => {}, SenderImpl::Acyclic(x) => {}, SenderImpl::Infinite(x) => {}, _ => {} } }
pub open spec fn rts<T: DAMType>(rs: Seq<Receiver<T>>) -> Seq<RS> { Seq::new(rs.len(), |i: int| rs[i].st()) }
pub open spec fn sound_r(a: RS) -> bool { a.ch >= 0 && (a.bounded ==> a.ack >= 0) }
/// two receivers of different channels
pub open spec fn apart_rr(a: RS, b: RS) -> bool { a.ch != b.ch && (a.bounded || b.bounded ==> a.ack != b.ack) }
/// all receivers and senders belong to different channels
pub open spec fn alone(rs: Seq<RS>, ss: Seq<SS>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < rs.len() && 0 <= j < rs.len() && i != j ==> #[trigger] apart_rr(rs[i], rs[j])
    &&& forall|i: int, j: int| 0 <= i < ss.len() && 0 <= j < ss.len() && i != j ==> #[trigger] apart(ss[i], ss[j])
    &&& forall|i: int, j: int| 0 <= i < ss.len() && 0 <= j < rs.len() ==> #[trigger] apart_r(ss[i], rs[j])
    &&& forall|i: int| 0 <= i < rs.len() ==> sound_r(#[trigger] rs[i])
    &&& forall|i: int| 0 <= i < ss.len() ==> sound(#[trigger] ss[i])
}
/// items may have been sent on c / taken from c
pub open spec fn may_send(rs: Seq<RS>, ss: Seq<SS>, c: int) -> bool {
    (exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).ack == c) || (exists|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).live && ss[i].ch == c)
}
pub open spec fn may_take(rs: Seq<RS>, ss: Seq<SS>, c: int) -> bool {
    (exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).ch == c) || (exists|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).live && ss[i].cap is Some && ss[i].resp == c)
}
/// like io_step, for several channels
pub open spec fn ms(w: WV, v: WV, rs: Seq<RS>, ss: Seq<SS>) -> bool {
    &&& v.me == w.me && v.thr == w.thr && grow(w, v) && (v.dirty ==> w.dirty) && free(v)
    &&& forall|c: int| #[trigger] v.sent[c] == w.sent[c] || ((c < 0 || may_send(rs, ss, c)) && v.sent[c] >= w.sent[c])
    &&& forall|c: int| #[trigger] v.rcvd[c] == w.rcvd[c] || ((c < 0 || may_take(rs, ss, c)) && v.rcvd[c] >= w.rcvd[c])
}
pub open spec fn r_ok<T: DAMType>(ics: Seq<Receiver<T>>, rs: Seq<RS>, w: WV) -> bool {
    ics.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> (#[trigger] ics[i]).st() == rs[i] && ics[i].inv(w)
}
pub open spec fn s_ok<T: DAMType>(ocs: Seq<Sender<T>>, ss: Seq<SS>, w: WV) -> bool {
    ocs.len() == ss.len() && forall|i: int| 0 <= i < ss.len() ==> (#[trigger] ocs[i]).st() == ss[i] && ocs[i].inv(w)
}
pub open spec fn deqs<T: DAMType>(ics: Seq<Receiver<T>>, w: WV) -> Seq<int> { Seq::new(ics.len(), |i: int| ics[i].deq(w)) }
/// what happens on some receivers leaves the senders alone
pub proof fn lemma_recvs<T: DAMType>(ocs: Seq<Sender<T>>, rs: Seq<RS>, ss: Seq<SS>, w: WV, v: WV)
    requires s_ok(ocs, ss, w), alone(rs, ss), ms(w, v, rs, Seq::empty())
    ensures s_ok(ocs, ss, v)
{
    assert forall|j: int| 0 <= j < ss.len() implies (#[trigger] ocs[j]).st() == ss[j] && ocs[j].inv(v) by {
        assert(ocs[j].st() == ss[j] && sound(ss[j]));
        assert forall|i: int| 0 <= i < rs.len() implies apart_r(ss[j], #[trigger] rs[i]) by {}
        if ss[j].live { assert(v.sent[ss[j].ch] == w.sent[ss[j].ch]); if ss[j].cap is Some { assert(v.rcvd[ss[j].resp] == w.rcvd[ss[j].resp]); } }
        lemma_sframe(&ocs[j], w, v);
    }
}
/// what happens on some senders leaves the receivers alone
pub proof fn lemma_sends<T: DAMType>(ics: Seq<Receiver<T>>, rs: Seq<RS>, ss: Seq<SS>, w: WV, v: WV)
    requires r_ok(ics, rs, w), alone(rs, ss), ms(w, v, Seq::empty(), ss)
    ensures r_ok(ics, rs, v), deqs(ics, v) =~= deqs(ics, w)
{
    assert forall|j: int| 0 <= j < rs.len() implies (#[trigger] ics[j]).st() == rs[j] && ics[j].inv(v) && ics[j].deq(v) == ics[j].deq(w) by {
        assert(ics[j].st() == rs[j] && sound_r(rs[j]));
        assert forall|i: int| 0 <= i < ss.len() implies apart_r(#[trigger] ss[i], rs[j]) by {}
        assert forall|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).live && ss[i].cap is Some && ss[i].resp == rs[j].ch implies false by { assert(apart_r(ss[i], rs[j])); }
        assert(v.rcvd[rs[j].ch] == w.rcvd[rs[j].ch]);
        if rs[j].bounded { assert(v.sent[rs[j].ack] == w.sent[rs[j].ack]); }
        lemma_rframe(&ics[j], w, v);
    }
}
/// an operation on receiver i leaves the other receivers alone
pub proof fn lemma_rop<T: DAMType>(a: Seq<Receiver<T>>, b: Seq<Receiver<T>>, rs: Seq<RS>, ss: Seq<SS>, w0: WV, w: WV, v: WV, i: int, s: int)
    requires r_ok(a, rs, w), alone(rs, ss), 0 <= i < rs.len(), b.len() == a.len(), s == -1 || s == rs[i].ack, io_step(w, v, s, rs[i].ch),
        forall|j: int| 0 <= j < a.len() && j != i ==> #[trigger] b[j] == a[j], b[i].st() == rs[i], b[i].inv(v),
        ms(w0, w, rs, Seq::empty()),
    ensures r_ok(b, rs, v), forall|j: int| 0 <= j < a.len() && j != i ==> (#[trigger] b[j]).deq(v) == a[j].deq(w), ms(w0, v, rs, Seq::empty())
{
    assert(free(v)) by { match b[i].underlying.receiver { ReceiverImpl::Cyclic(x) => {}, ReceiverImpl::Acyclic(x) => {}, ReceiverImpl::CyclicInfinite(x) => {}, ReceiverImpl::AcyclicInfinite(x) => {}, _ => {} } }
    assert(sound_r(rs[i]));
    assert forall|j: int| 0 <= j < rs.len() implies (#[trigger] b[j]).st() == rs[j] && b[j].inv(v) && (j != i ==> b[j].deq(v) == a[j].deq(w)) by {
        if j != i {
            assert(b[j] == a[j] && apart_rr(rs[j], rs[i]) && sound_r(rs[j]) && a[j].st() == rs[j]);
            lemma_rframe(&a[j], w, v);
        }
    }
    assert(rs[i].ack == rs[i].ack && rs[i].ch == rs[i].ch);
}
/// an operation on sender i leaves the other senders alone
pub proof fn lemma_sop<T: DAMType>(a: Seq<Sender<T>>, b: Seq<Sender<T>>, rs: Seq<RS>, ss: Seq<SS>, w0: WV, w: WV, v: WV, i: int)
    requires s_ok(a, ss, w), alone(rs, ss), 0 <= i < ss.len(), b.len() == a.len(), !ss[i].live ==> v == w, io_step(w, v, ss[i].ch, ss[i].resp),
        forall|j: int| 0 <= j < a.len() && j != i ==> #[trigger] b[j] == a[j], b[i].st() == ss[i], b[i].inv(v),
        ms(w0, w, Seq::empty(), ss),
    ensures s_ok(b, ss, v), ms(w0, v, Seq::empty(), ss),
        forall|j: int| 0 <= j < ss.len() && j != i && (#[trigger] ss[j]).live ==> v.sent[ss[j].ch] == w.sent[ss[j].ch],
{
    if !ss[i].live {
        assert forall|j: int| 0 <= j < ss.len() implies (#[trigger] b[j]).st() == ss[j] && b[j].inv(v) by { if j != i { assert(b[j] == a[j]); } }
    } else {
        assert(a[i].st() == ss[i] && b[i].st() == ss[i]);
        assert(ss[i].cap is None ==> ss[i].resp == -1) by { match b[i].underlying.sender { SenderImpl::Cyclic(x) => {}, SenderImpl::Acyclic(x) => {}, SenderImpl::Infinite(x) => {}, _ => {} } }
        assert(sound(ss[i]));
        assert(free(v)) by { match b[i].underlying.sender { SenderImpl::Cyclic(x) => {}, SenderImpl::Acyclic(x) => {}, SenderImpl::Infinite(x) => {}, _ => {} } }
        assert forall|j: int| 0 <= j < ss.len() implies (#[trigger] b[j]).st() == ss[j] && b[j].inv(v) by {
            if j != i { assert(b[j] == a[j]); assert(apart(ss[j], ss[i])); assert(sound(ss[j])); assert(a[j].st() == ss[j]); lemma_sframe(&a[j], w, v); }
        }
        assert forall|j: int| 0 <= j < ss.len() && j != i && (#[trigger] ss[j]).live implies v.sent[ss[j].ch] == w.sent[ss[j].ch] by { assert(apart(ss[j], ss[i])); assert(sound(ss[j])); }
    }
}
} // mod frame
