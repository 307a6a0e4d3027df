//% raw
// ================================================================ outcome of a run
pub mod outcome {
use super::*;
/// a context's clock after the run: its cells no longer change
#[verifier::external_body]
pub struct TimeView { x: u8 }
impl TimeView {
    /// the last tick (kept also when the clock is infinite)
    pub uninterp spec fn last(&self) -> Time;
    #[verifier::external_body]
    pub fn tick_lower_bound(&self) -> (r: Time) ensures r == self.last() { unimplemented!() }
}
#[verifier::external_body]
pub struct VerboseIdentifier { x: u8 }
//% file src/context/summary.rs
//% struct ContextSummary noderive
//% raw
/// the latest finishing tick in a context and its parts
pub open spec fn latest(s: ContextSummary) -> int
    decreases s
{
    imax(s.time.last().time as int, latest_of(s.children, s.children.len() as int))
}
pub open spec fn latest_of(v: Vec<ContextSummary>, n: int) -> int
    decreases v, n
{
    if n <= 0 || n > v.len() { 0 } else { imax(latest_of(v, n - 1), latest(v[n - 1])) }
}
pub proof fn lemma_latest_of(v: Vec<ContextSummary>, n: int)
    requires 0 <= n <= v.len()
    ensures latest_of(v, n) >= 0, forall|j: int| 0 <= j < n ==> latest_of(v, n) >= latest(#[trigger] v[j]),
        latest_of(v, n) == 0 || exists|j: int| 0 <= j < n && latest_of(v, n) == latest(#[trigger] v[j]),
    decreases n
{
    if n > 0 { lemma_latest_of(v, n - 1); assert(latest_of(v, n) == imax(latest_of(v, n - 1), latest(v[n - 1]))); }
}
/// the latest tick is that of the context or of one of its parts, and none is later
pub broadcast proof fn lemma_latest(s: ContextSummary)
    ensures #[trigger] latest(s) >= s.time.last().time, forall|j: int| 0 <= j < s.children.len() ==> latest(s) >= latest(#[trigger] s.children[j]),
        latest(s) == s.time.last().time || exists|j: int| 0 <= j < s.children.len() && latest(s) == latest(#[trigger] s.children[j]),
{
    lemma_latest_of(s.children, s.children.len() as int);
}
pub fn lib_max(v: &Vec<u64>) -> (r: Option<u64>)
    ensures r is None <==> v.len() == 0,
        r matches Some(m) ==> v@.contains(m) && forall|i: int| 0 <= i < v.len() ==> m >= #[trigger] v@[i],
{
    if v.len() == 0 { return None; }
    let mut m = v[0];
    let mut i = 1;
    while i < v.len()
        invariant 1 <= i <= v.len(), v@.contains(m), forall|j: int| 0 <= j < i ==> m >= #[trigger] v@[j],
        decreases v.len() - i
    {
        if v[i] > m { m = v[i]; }
        i += 1;
    }
    Some(m)
}
//% impl ContextSummary => impl ContextSummary
//% fn max_time ret=r
    ensures r == latest(*self),
//% proof start
    broadcast use lemma_latest;
//% loop 0
    invariant vx_i0 <= self.children.len(), vx_v0.len() == 1 + vx_i0, vx_v0[0] == self.time.last().time,
        forall|k: int| 1 <= k <= vx_i0 ==> #[trigger] vx_v0@[k] == latest(self.children[k - 1]),
        forall|j: int| 0 <= j < vx_i0 ==> latest(#[trigger] self.children[j]) == vx_v0@[j + 1],
//% end
//% raw
#[verifier::external_body]
pub struct AnyError { x: u8 }
//% file src/datastructures/identifier.rs
//% struct Identifier
//% typemap anyhow::Error => AnyError
//% pathmap anyhow::Error => AnyError
//% file src/simulation/mod.rs
//% struct SimulationError noderive
//% raw
/// a context as the run sees it.  What its body ends with is a fact about the execution under consideration.
#[verifier::external_body]
pub struct DynContext { x: u8 }
impl DynContext {
    pub uninterp spec fn i(&self) -> Identifier;
    pub uninterp spec fn outcome(&self) -> Result<ContextSummary, AnyError>;
    pub uninterp spec fn ran(&self) -> bool;
    #[verifier::external_body]
    pub fn id(&self) -> (r: Identifier) ensures r == self.i() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> String { unimplemented!() }
    #[verifier::external_body]
    pub fn run_falliable(&mut self) -> (r: Result<(), AnyError>)
        requires !old(self).ran()
        ensures final(self).ran(), final(self).i() == old(self).i(), final(self).outcome() == old(self).outcome(),
            r is Ok <==> old(self).outcome() is Ok, r matches Err(e) ==> old(self).outcome() == Err::<ContextSummary, AnyError>(e),
    { unimplemented!() }
    /// the summary of a context that has run
    #[verifier::external_body]
    pub fn summarize(&self) -> (r: ContextSummary)
        ensures self.ran() ==> (self.outcome() matches Ok(s) ==> r == s),
    { unimplemented!() }
}
/// the two queues the contexts report to
pub struct QV { pub sums: Map<int, Seq<ContextSummary>>, pub errs: Map<int, Seq<SimulationError>>, pub next: int }
#[verifier::external_body]
pub struct World { x: u8 }
impl World { pub uninterp spec fn view(&self) -> QV; }
pub trait QItem: Sized {
    spec fn at(w: QV, id: int) -> Seq<Self>;
    spec fn put(w: QV, id: int, s: Seq<Self>) -> QV;
}
impl QItem for ContextSummary {
    open spec fn at(w: QV, id: int) -> Seq<Self> { w.sums[id] }
    open spec fn put(w: QV, id: int, s: Seq<Self>) -> QV { QV { sums: w.sums.insert(id, s), ..w } }
}
impl QItem for SimulationError {
    open spec fn at(w: QV, id: int) -> Seq<Self> { w.errs[id] }
    open spec fn put(w: QV, id: int, s: Seq<Self>) -> QV { QV { errs: w.errs.insert(id, s), ..w } }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SegQueue<T> { x: Vec<T> }
#[verifier::external_body]
pub fn vx_queue<T: QItem>(vw: &mut World) -> (r: SegQueue<T>)
    ensures r.id() == old(vw)@.next, final(vw)@ == (QV { next: old(vw)@.next + 1, ..T::put(old(vw)@, r.id(), Seq::empty()) })
{ unimplemented!() }
impl<T: QItem> SegQueue<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&self, x: T, vw: &mut World) ensures final(vw)@ == T::put(old(vw)@, self.id(), T::at(old(vw)@, self.id()).push(x)) { unimplemented!() }
}
/// Arc::into_inner of a queue all of whose users are gone: its content, in order
#[verifier::external_body]
pub fn vx_into_inner<T: QItem>(q: SegQueue<T>, vw: &mut World) -> (r: Option<Vec<T>>)
    ensures final(vw)@ == old(vw)@, r matches Some(v) ==> v@ == T::at(old(vw)@, q.id())
{ unimplemented!() }
/// what the first n contexts report
pub open spec fn sums(c: Seq<DynContext>, n: int) -> Seq<ContextSummary>
    decreases n
{
    if n <= 0 { Seq::empty() } else { match c[n - 1].outcome() { Ok(s) => sums(c, n - 1).push(s), Err(_) => sums(c, n - 1) } }
}
pub open spec fn errs(c: Seq<DynContext>, n: int) -> Seq<SimulationError>
    decreases n
{
    if n <= 0 { Seq::empty() } else { match c[n - 1].outcome() { Ok(_) => errs(c, n - 1), Err(e) => errs(c, n - 1).push(SimulationError { id: c[n - 1].i().id, underlying: e }) } }
}
#[verifier::external_body]
pub struct DynEdge { x: u8 }
// logging and thread set-up play no role in the outcome
#[verifier::external_body]
pub struct LogSender { x: u8 }
impl Clone for LogSender { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct LogReceiver { x: u8 }
#[verifier::external_body]
pub struct DynLogProcessor { x: u8 }
#[verifier::external_body]
pub struct JoinHandle { x: u8 }
impl JoinHandle { #[verifier::external_body] pub fn join(self) -> Result<(), ()> { unimplemented!() } }
#[verifier::external_body]
pub fn vx_thread() -> JoinHandle { unimplemented!() }
#[verifier::external_body]
pub fn vx_spawned() -> Result<(), ()> { unimplemented!() }
#[verifier::external_body]
pub fn vx_log_queue(n: usize) -> (LogSender, LogReceiver) { unimplemented!() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { x: u8 }
#[verifier::external_body]
pub fn vx_now() -> Instant { unimplemented!() }
#[verifier::external_body]
pub struct LogFilter { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct LogFn { x: u8 }
pub enum LogFilterKind { Blanket(LogFilter), PerChild(LogFn) }
impl LogFn { #[verifier::external_body] pub fn vx_call(&self, i: Identifier) -> LogFilter { unimplemented!() } }
impl LogFilterKind { #[verifier::external_body] pub fn clone(&self) -> Self { unimplemented!() } }
pub struct LogInterface {}
impl LogInterface { #[verifier::external_body] pub fn new(i: Identifier, s: LogSender, t: Instant, f: LogFilter, z: Time) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn initialize_log(l: LogInterface) { unimplemented!() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct RunMode { x: u8 }
pub struct Builder {}
impl Builder { #[verifier::external_body] pub fn name(self, s: String) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_builder(m: RunMode) -> Builder { unimplemented!() }
pub fn vx_drop<T>(x: T) {}
pub enum LoggingOptions { None }
impl LoggingOptions { #[verifier::external_body] pub fn clone(&self) -> Self { unimplemented!() } }
//% erase Arc Box
//% pathmap drop => vx_drop
//% typemap ProgramData<'a> => ProgramData
//% typemap Executed<'a> => Executed
//% typemap crossbeam::channel::Receiver<LogEntry> => LogReceiver
//% typemap dyn Context + 'a => DynContext
//% typemap Vec<Box<dyn Context + 'a>> => Vec<DynContext>
//% typemap Vec<Arc<dyn ChannelHandle + 'a>> => Vec<DynEdge>
//% typemap crate::shim::RunMode => RunMode
//% pathmap crossbeam::channel::bounded => vx_log_queue
//% pathmap crossbeam::queue::SegQueue::new => vx_queue
//% pathmap std::sync::Arc::into_inner => vx_into_inner
//% pathmap std::time::Instant::now => vx_now
//% pathmap crate::shim::make_builder => vx_builder
//% pathmap super::LogFilterKind::* => LogFilterKind::*
//% pathmap super::SimulationError => SimulationError
//% struct RunOptions noderive
//% file src/simulation/programdata.rs
//% struct ProgramData noderive generics=
//% file src/simulation/initialized.rs
//% struct Initialized noderive generics=
//% file src/simulation/executed.rs
//% struct Executed noderive generics=
//% impl Executed => impl Executed
//% fn elapsed_cycles ret=r
    ensures r is None <==> self.nodes.len() == 0,
        r matches Some(m) ==> (exists|i: int| 0 <= i < self.nodes.len() && latest(#[trigger] self.nodes[i]) == m)
            && forall|i: int| 0 <= i < self.nodes.len() ==> latest(#[trigger] self.nodes[i]) <= m,
//% loop 0
    invariant vx_i0 <= self.nodes.len(), vx_v0.len() == vx_i0,
        forall|k: int| 0 <= k < vx_i0 ==> #[trigger] vx_v0@[k] == latest(self.nodes[k]),
        forall|j: int| 0 <= j < vx_i0 ==> latest(#[trigger] self.nodes[j]) == vx_v0@[j],
//% fn passed ret=r
    ensures r == (self.failures.len() == 0),
//% fn run_failures ret=r
    requires forall|v: &Vec<SimulationError>| *v == self.failures ==> #[trigger] f.requires((v,))
    ensures exists|v: &Vec<SimulationError>| #[trigger] f.ensures((v,), r) && *v == self.failures,
//% end
//% shims id name verbose tick_lower_bound initialize_log bounded drop make_builder
//% effects vx_queue vx_into_inner push
//% file src/simulation/initialized.rs
//% impl Initialized => impl Initialized
//% fn run ret=r world seqscope optmap maypanic params=options local=summaries:1 local=failures:2
    requires forall|i: int| 0 <= i < self.data.nodes.len() ==> !(#[trigger] self.data.nodes[i]).ran()
    ensures r.nodes@ == sums(self.data.nodes@, self.data.nodes.len() as int), r.failures@ == errs(self.data.nodes@, self.data.nodes.len() as int),
//% proof start
    let ghost c = self.data.nodes@;
    proof { assert(self.data.nodes.len() <= usize::MAX); }
//% loop 0
    invariant vx_i0 + vx_b0.len() == c.len(), vx_b0@ == c.subrange(vx_i0 as int, c.len() as int),
        forall|i: int| 0 <= i < c.len() ==> !(#[trigger] c[i]).ran(), c.len() <= usize::MAX,
        vw@.sums[summaries.id()] == sums(c, vx_i0 as int), vw@.errs[failures.id()] == errs(c, vx_i0 as int),
//% proof loop 0 start
    proof { assert(vx_b0@[0] == c[vx_i0 as int]); }
//% proof loop 0 end
    proof { assert(vx_b0@ =~= c.subrange(vx_i0 as int, c.len() as int)); }
//% loop 1
    invariant vx_i1 + vx_b1.len() == sums(c, c.len() as int).len(), vx_v1@ + vx_b1@ == sums(c, c.len() as int),
        vx_v1.len() == vx_i1, sums(c, c.len() as int).len() <= usize::MAX,
        vw@.errs[failures.id()] == errs(c, c.len() as int),
//% proof loop 1 before
    proof { assert(vx_v1@ + vx_b1@ =~= vx_b1@); assert(vx_b1.len() <= usize::MAX); }
//% proof loop 1 start
    let ghost v1 = vx_v1@; let ghost b1 = vx_b1@;
//% proof loop 1 end
    proof { assert(vx_v1@ + vx_b1@ =~= v1 + b1); }
//% loop 2
    invariant vx_i2 + vx_b2.len() == errs(c, c.len() as int).len(), vx_v2@ + vx_b2@ == errs(c, c.len() as int),
        vx_v2.len() == vx_i2, errs(c, c.len() as int).len() <= usize::MAX,
//% proof loop 2 before
    proof { assert(vx_v2@ + vx_b2@ =~= vx_b2@); assert(vx_b2.len() <= usize::MAX); }
//% proof loop 2 start
    let ghost v2 = vx_v2@; let ghost b2 = vx_b2@;
//% proof loop 2 end
    proof { assert(vx_v2@ + vx_b2@ =~= v2 + b2); }
//% fn make_logger contract_only ret=r
//% end
//% raw
/// whether the body of the context under consideration panics: a fact about the execution
pub uninterp spec fn panics() -> bool;
#[verifier::external_body]
pub fn vx_panics() -> (r: bool) ensures r == panics() { unimplemented!() }
pub struct PanicPayload {}
pub fn vx_panic_payload() -> PanicPayload { PanicPayload {} }
pub enum RuntimeError { ContextError, WrapError }
/// a context with the trait's default methods
#[verifier::external_body]
pub struct Leaf { x: u8 }
#[verifier::external_body]
pub fn vx_from_mut(x: &mut Leaf) -> (r: &mut Leaf) ensures *r == *old(x), *final(r) == *final(x) { x }
impl Leaf {
    pub uninterp spec fn vid(&self) -> VerboseIdentifier;
    pub uninterp spec fn tv(&self) -> TimeView;
    pub uninterp spec fn done(&self) -> bool;
    #[verifier::external_body]
    pub fn verbose(&self) -> (r: VerboseIdentifier) ensures r == self.vid() { unimplemented!() }
    #[verifier::external_body]
    pub fn view(&self) -> (r: TimeView) ensures r == self.tv() { unimplemented!() }
    /// the body returns only when it does not panic
    #[verifier::external_body]
    pub fn run(&mut self) ensures !panics(), final(self).done() { unimplemented!() }
    /// a pointer made from a reference is not null
    #[verifier::external_body]
    pub fn as_mut(&mut self) -> (r: Option<&mut Self>) ensures r matches Some(x) && *x == *old(self) && *final(x) == *final(self) { Some(self) }
}
//% pathmap std::ptr::from_mut => vx_from_mut
//% pathmap std::panic::catch_unwind => catch_unwind
//% typemap anyhow::Result<()> => Result<(), RuntimeError>
//% file src/context/mod.rs
//% trait Context => impl Leaf
//% fn run_falliable seqscope ret=r noworld=run
    ensures r is Ok <==> !panics(), r is Ok ==> final(self).done(),
//% fn summarize ret=r
    ensures r.id == self.vid(), r.time == self.tv(), r.children.len() == 0,
//% end
//% shims verbose view as_mut
//% raw
} // mod outcome
