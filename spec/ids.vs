//% raw
// ================================================================ identifiers
/// Which call of which thread obtained value v from counter c: every `fetch_add` hands out a value no other one gets.
pub uninterp spec fn holder(c: int, v: int) -> (int, int);
pub struct IW { pub thr: int, pub calls: int }
#[verifier::external_body]
pub struct World { x: u8 }
impl World { pub uninterp spec fn view(&self) -> IW; }
#[verifier::external_body]
pub struct AtomicUsize { x: u8 }
pub enum AtomicOrdering { Relaxed, Release, Acquire, AcqRel, SeqCst }
impl AtomicUsize {
    pub uninterp spec fn which(&self) -> int;
    #[verifier::external_body]
    pub const fn new(x: usize) -> (r: Self) { AtomicUsize { x: 0 } }
    /// atomic; the counter does not wrap around (2^64 identifiers)
    #[verifier::external_body]
    pub fn fetch_add(&self, x: usize, o: AtomicOrdering, vw: &mut World) -> (r: usize)
        requires x >= 1
        ensures final(vw)@ == (IW { calls: old(vw)@.calls + 1, ..old(vw)@ }), holder(self.which(), r as int) == (old(vw)@.thr, old(vw)@.calls)
    { unimplemented!() }
    /// the counters are only ever counted up
    #[verifier::external_body]
    pub fn store(&self, x: usize, o: AtomicOrdering, vw: &mut World) requires false { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: AtomicOrdering, vw: &mut World) -> (r: usize) ensures final(vw)@ == old(vw)@ { unimplemented!() }
}
/// v was obtained by a call of this thread between w and x, and by no other call anywhere
pub open spec fn fresh_id(c: int, v: int, w: IW, x: IW) -> bool {
    x.thr == w.thr && holder(c, v).0 == w.thr && w.calls <= holder(c, v).1 < x.calls
}
/// identifiers obtained by different calls differ: by different threads, or by one thread one after the other
pub proof fn ids_unique(c: int, v1: int, v2: int, w1: IW, x1: IW, w2: IW, x2: IW)
    requires fresh_id(c, v1, w1, x1), fresh_id(c, v2, w2, x2), w1.thr != w2.thr || x1.calls <= w2.calls
    ensures v1 != v2
{}
//% pathmap std::sync::atomic::Ordering::* => AtomicOrdering::*
//% effects fetch_add store load
//% shims fetch_add store load
//% file src/datastructures/identifier.rs
//% struct Identifier
//% static COUNTER COUNTER.which() == 0
//% impl Identifier => impl Identifier
//% fn new world ret=r
    ensures fresh_id(0, r.id as int, old(vw)@, final(vw)@),
//% end
//% impl Default for Identifier => impl Identifier
//% fn default world ret=r
    ensures fresh_id(0, r.id as int, old(vw)@, final(vw)@),
//% end
//% file src/channel/channel_id.rs
//% struct ChannelID
//% static ID_COUNTER ID_COUNTER.which() == 1
//% impl ChannelID => impl ChannelID
//% fn next_id world ret=r
    ensures fresh_id(1, r as int, old(vw)@, final(vw)@),
//% fn new world ret=r
    ensures fresh_id(1, r.id as int, old(vw)@, final(vw)@),
//% end
//% impl Default for ChannelID => impl ChannelID
//% fn default world ret=r
    ensures fresh_id(1, r.id as int, old(vw)@, final(vw)@),
//% end
//% raw
pub struct TimeView {}
//% typemap ViewType => Option<TimeView>
//% typemap Mutex<ViewType> => Option<TimeView>
//% typemap Mutex<Option<Identifier>> => Option<Identifier>
//% file src/channel/channel_spec.rs
//% struct ChannelSpec noderive
//% impl ChannelSpec => impl ChannelSpec
//% fn new world maypanic nolock ret=r params=capacity,send_latency,resp_latency
    ensures fresh_id(1, r.channel_id.id as int, old(vw)@, final(vw)@),
//% fn id ret=r
    ensures r == self.channel_id,
//% end
