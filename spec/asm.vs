//% raw
// ================================================================ building contexts out of their parts
pub mod asm {
use super::*;
use std::collections::VecDeque;
//% file src/datastructures/identifier.rs
//% struct Identifier
//% file src/channel/channel_id.rs
//% struct ChannelID
//% file src/datastructures/time.rs
//% struct Time derive=Copy,Clone
//% impl Time => impl Time
//% fn new ret=result
    ensures result == (Time { time: time, done: false }),
//% end
//% raw
/// which contexts were attached to which ends of channels, and what was handed out: identifiers, clocks, stores
pub struct AW { pub snd: Map<ChannelID, Identifier>, pub rcv: Map<ChannelID, Identifier>, pub sclk: Map<ChannelID, int>, pub rclk: Map<ChannelID, int>, pub ids: ISet<Identifier>, pub clks: ISet<int>, pub shared: ISet<int>, pub log: Seq<Ev> }
/// what was done to parts of a context, and to stores (a value by its encoding)
pub enum Ev { Init(Identifier), Run(Identifier), Log(Identifier), Store(int, usize, int, Time) }
pub uninterp spec fn enc<T>(x: T) -> int;
#[verifier::external_body]
pub struct World { x: u8 }
impl World { pub uninterp spec fn view(&self) -> AW; }
#[verifier::external_body]
pub struct TimeManager { x: u8 }
impl TimeManager { pub uninterp spec fn clk(&self) -> int; }
/// Default::default
pub trait VxDef: Sized {
    spec fn dflt_ok(w: AW, v: AW, r: Self) -> bool;
    fn vx_def(vw: &mut World) -> (r: Self) ensures Self::dflt_ok(old(vw)@, final(vw)@, r);
}
pub fn vx_default_of<T: VxDef>(vw: &mut World) -> (r: T) ensures T::dflt_ok(old(vw)@, final(vw)@, r) { T::vx_def(vw) }
impl<T> VxDef for Vec<T> { open spec fn dflt_ok(w: AW, v: AW, r: Self) -> bool { v == w && r@ == Seq::<T>::empty() } fn vx_def(vw: &mut World) -> Self { Vec::new() } }
impl VxDef for () { open spec fn dflt_ok(w: AW, v: AW, r: Self) -> bool { v == w } fn vx_def(vw: &mut World) -> Self { () } }
impl<T> VxDef for Option<T> { open spec fn dflt_ok(w: AW, v: AW, r: Self) -> bool { v == w && r is None } fn vx_def(vw: &mut World) -> Self { None } }
impl<T> VxDef for PhantomData<T> { open spec fn dflt_ok(w: AW, v: AW, r: Self) -> bool { v == w } fn vx_def(vw: &mut World) -> Self { PhantomData } }
//% file src/datastructures/mod.rs
//% struct ContextInfo noderive
//% raw
/// an identifier and a clock no other context has
pub open spec fn fresh(w: AW, v: AW, c: ContextInfo) -> bool {
    !w.ids.contains(c.id) && !w.clks.contains(c.time.clk()) && v == (AW { ids: w.ids.insert(c.id), clks: w.clks.insert(c.time.clk()), ..w })
}
// derive(Default): identifiers are unique (unit ids), a new time manager has a clock of its own
impl VxDef for ContextInfo { open spec fn dflt_ok(w: AW, v: AW, r: Self) -> bool { fresh(w, v, r) } #[verifier::external_body] fn vx_def(vw: &mut World) -> Self { unimplemented!() } }
/// what the macro `context_internal` adds to a context
pub trait Owner: Sized {
    spec fn oid(&self) -> Identifier;
    spec fn oclk(&self) -> int;
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { x: Vec<T> }
/// the effect of attaching (unit handle): the channel's end belongs to the context and follows its clock
pub open spec fn s_attached(w: AW, c: ChannelID, i: Identifier, k: int) -> AW { AW { snd: w.snd.insert(c, i), sclk: w.sclk.insert(c, k), ..w } }
pub open spec fn r_attached(w: AW, c: ChannelID, i: Identifier, k: int) -> AW { AW { rcv: w.rcv.insert(c, i), rclk: w.rclk.insert(c, k), ..w } }
impl<T> Sender<T> {
    pub uninterp spec fn cid(&self) -> ChannelID;
    #[verifier::external_body]
    pub fn id(&self) -> (r: ChannelID) ensures r == self.cid() { unimplemented!() }
    #[verifier::external_body]
    pub fn attach_sender<C: Owner>(&self, c: &C, vw: &mut World) ensures final(vw)@ == s_attached(old(vw)@, self.cid(), c.oid(), c.oclk()) { unimplemented!() }
}
impl<T> Receiver<T> {
    pub uninterp spec fn cid(&self) -> ChannelID;
    #[verifier::external_body]
    pub fn id(&self) -> (r: ChannelID) ensures r == self.cid() { unimplemented!() }
    #[verifier::external_body]
    pub fn attach_receiver<C: Owner>(&self, c: &C, vw: &mut World) ensures final(vw)@ == r_attached(old(vw)@, self.cid(), c.oid(), c.oclk()) { unimplemented!() }
}
/// exactly the senders in `ss` and the receivers in `rs` were attached, all to context `i` with clock `k`
pub open spec fn joined(w: AW, v: AW, ss: spec_fn(ChannelID) -> bool, rs: spec_fn(ChannelID) -> bool, i: Identifier, k: int) -> bool {
    &&& forall|c: ChannelID| #[trigger] v.snd.contains_key(c) <==> (w.snd.contains_key(c) || ss(c))
    &&& forall|c: ChannelID| #[trigger] v.rcv.contains_key(c) <==> (w.rcv.contains_key(c) || rs(c))
    &&& forall|c: ChannelID| #[trigger] v.sclk.contains_key(c) <==> (w.sclk.contains_key(c) || ss(c))
    &&& forall|c: ChannelID| #[trigger] v.rclk.contains_key(c) <==> (w.rclk.contains_key(c) || rs(c))
    &&& forall|c: ChannelID| v.snd.contains_key(c) ==> #[trigger] v.snd[c] == if ss(c) { i } else { w.snd[c] }
    &&& forall|c: ChannelID| v.rcv.contains_key(c) ==> #[trigger] v.rcv[c] == if rs(c) { i } else { w.rcv[c] }
    &&& forall|c: ChannelID| v.sclk.contains_key(c) ==> #[trigger] v.sclk[c] == if ss(c) { k } else { w.sclk[c] }
    &&& forall|c: ChannelID| v.rclk.contains_key(c) ==> #[trigger] v.rclk[c] == if rs(c) { k } else { w.rclk[c] }
    &&& v.ids == w.ids && v.clks == w.clks && v.shared == w.shared && v.log == w.log
}
//% pathmap Default::default => vx_default_of
//% effects attach_sender attach_receiver vx_default_of vx_def
//% shims attach_sender attach_receiver vx_default_of id with_capacity
//% pathmap ContextInfo::default => ContextInfo::vx_def
//% typemap SyncSendMarker<(IType,TimeType)> => ()
//% typemap SyncSendMarker<IType> => ()
//% file src/utility_contexts/generator_context.rs
//% struct GeneratorContext noderive generics=T,FType
//% raw
impl<T, FType> Owner for GeneratorContext<T, FType> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
//% impl GeneratorContext => impl<T, FType> GeneratorContext<T, FType>
//% fn new world params=iterator,output
//% sig
    pub fn new(iterator: FType, output: Sender<T>, vw: &mut World) -> (r: Self)
    ensures r.iterator == Some(iterator), r.output == output,
        exists|w: AW| #[trigger] fresh(old(vw)@, w, r.context_info) && final(vw)@ == s_attached(w, output.cid(), r.oid(), r.oclk()),
//% end
//% file src/utility_contexts/trace_context.rs
//% struct TraceContext noderive generics=T,FType
//% raw
impl<T, FType> Owner for TraceContext<T, FType> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
//% impl TraceContext => impl<T, FType> TraceContext<T, FType>
//% fn new world params=iterator,output
//% sig
    pub fn new(iterator: FType, output: Sender<T>, vw: &mut World) -> (r: Self)
    ensures r.iterator == Some(iterator), r.output == output,
        exists|w: AW| #[trigger] fresh(old(vw)@, w, r.context_info) && final(vw)@ == s_attached(w, output.cid(), r.oid(), r.oclk()),
//% end
//% file src/utility_contexts/checker_context.rs
//% struct CheckerContext noderive generics=T,FType
//% raw
impl<T, FType> Owner for CheckerContext<T, FType> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
//% impl CheckerContext => impl<T, FType> CheckerContext<T, FType>
//% fn new world params=iterator,input
//% sig
    pub fn new(iterator: FType, input: Receiver<T>, vw: &mut World) -> (r: Self)
    ensures r.iterator == Some(iterator), r.input == input,
        exists|w: AW| #[trigger] fresh(old(vw)@, w, r.context_info) && final(vw)@ == r_attached(w, input.cid(), r.oid(), r.oclk()),
//% end
//% file src/utility_contexts/approx_checker_context.rs
//% struct ApproxCheckerContext noderive generics=T,FType,CheckType
//% raw
impl<T, FType, CheckType> Owner for ApproxCheckerContext<T, FType, CheckType> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
//% impl ApproxCheckerContext => impl<T, FType, CheckType> ApproxCheckerContext<T, FType, CheckType>
//% fn new world params=iterator,input,checker
//% sig
    pub fn new(iterator: FType, input: Receiver<T>, checker: CheckType, vw: &mut World) -> (r: Self)
    ensures r.iterator == Some(iterator), r.input == input, r.checker == checker,
        exists|w: AW| #[trigger] fresh(old(vw)@, w, r.context_info) && final(vw)@ == r_attached(w, input.cid(), r.oid(), r.oclk()),
//% end
//% file src/utility_contexts/consumer_context.rs
//% struct ConsumerContext noderive
//% struct PrinterContext noderive
//% raw
impl<T> Owner for ConsumerContext<T> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
impl<T> Owner for PrinterContext<T> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
//% impl ConsumerContext => impl<T> ConsumerContext<T>
//% fn new world params=chan
//% sig
    pub fn new(chan: Receiver<T>, vw: &mut World) -> (r: Self)
    ensures r.chan == chan, exists|w: AW| #[trigger] fresh(old(vw)@, w, r.context_info) && final(vw)@ == r_attached(w, chan.cid(), r.oid(), r.oclk()),
//% end
//% impl PrinterContext => impl<T> PrinterContext<T>
//% fn new world params=chan
//% sig
    pub fn new(chan: Receiver<T>, vw: &mut World) -> (r: Self)
    ensures r.chan == chan, exists|w: AW| #[trigger] fresh(old(vw)@, w, r.context_info) && final(vw)@ == r_attached(w, chan.cid(), r.oid(), r.oclk()),
//% end
//% file src/utility_contexts/function_context.rs
//% struct FunctionContext noderive
//% impl FunctionContext => impl<RT> FunctionContext<RT>
//% fn new world
//% sig
    pub fn new(vw: &mut World) -> (r: Self)
    ensures r.run_fn is None, fresh(old(vw)@, final(vw)@, r.context_info),
//% end
//% impl Default for FunctionContext => impl<RT> FunctionContext<RT>
//% fn default as=fun_default world
//% sig
    pub fn fun_default(vw: &mut World) -> (r: Self)
    ensures r.run_fn is None, fresh(old(vw)@, final(vw)@, r.context_info),
//% end
//% file src/utility_contexts/broadcast_context.rs
//% struct BroadcastContext noderive
//% raw
impl<T> Owner for BroadcastContext<T> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
//% impl BroadcastContext => impl<T> BroadcastContext<T>
//% fn new world params=receiver
//% sig
    pub fn new(receiver: Receiver<T>, vw: &mut World) -> (r: Self)
    ensures r.receiver == receiver, r.targets@ == Seq::<Sender<T>>::empty(),
        exists|w: AW| #[trigger] fresh(old(vw)@, w, r.context_info) && final(vw)@ == r_attached(w, receiver.cid(), r.oid(), r.oclk()),
//% fn add_target world params=target
    ensures final(self).targets@ == old(self).targets@.push(target), final(self).receiver == old(self).receiver, final(self).context_info == old(self).context_info,
        final(vw)@ == s_attached(old(vw)@, target.cid(), old(self).oid(), old(self).oclk()),
//% end
//% raw
// ---------------------------------------------------------------- the pipeline
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct PipelineStage<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IngressFn<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct EgressFn<T> { x: Vec<T> }
//% typemap IngressOpType => IngressFn<ElementType>
//% typemap EgressOpType => EgressFn<ElementType>
//% typemap InputChannelsType => Vec<Receiver<ElementType>>
//% typemap OutputChannelsType => Vec<Sender<ElementType>>
//% file src/templates/ops.rs
//% struct PipelineRegister noderive
//% raw
pub trait Blank: Sized { spec fn blank(self) -> bool; fn vx_blank() -> (r: Self) ensures r.blank(); }
impl<T: Blank> VxDef for PipelineRegister<T> { open spec fn dflt_ok(w: AW, v: AW, r: Self) -> bool { v == w && r.data.blank() } fn vx_def(vw: &mut World) -> Self { PipelineRegister { data: T::vx_blank() } } }
//% file src/templates/pcu.rs
//% struct PCUConfig
//% struct PCU noderive
//% raw
impl<ElementType> Owner for PCU<ElementType> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
//% impl PCU => impl<ElementType: Blank> PCU<ElementType>
//% fn new world ret=result params=configuration,ingress_op,egress_op
    requires configuration.pipeline_depth < usize::MAX,
    ensures fresh(old(vw)@, final(vw)@, result.context_info), result.configuration == configuration, result.ingress_op == ingress_op, result.egress_op == egress_op,
        result.input_channels@.len() == 0, result.output_channels@.len() == 0, result.stages@.len() == 0,
        result.registers@.len() == configuration.pipeline_depth + 1,
        forall|i: int| 0 <= i < result.registers@.len() ==> (#[trigger] result.registers@[i])@.len() == configuration.num_registers,
        forall|i: int, j: int| 0 <= i < result.registers@.len() && 0 <= j < configuration.num_registers ==> (#[trigger] result.registers@[i]@[j]).data.blank(),
//% loop 0
    invariant vw@ == old(vw)@, vx_n0 == configuration.pipeline_depth + 1, registers@.len() <= vx_n0,
        forall|i: int| 0 <= i < registers@.len() ==> (#[trigger] registers@[i])@.len() == configuration.num_registers,
        forall|i: int, j: int| 0 <= i < registers@.len() && 0 <= j < configuration.num_registers ==> (#[trigger] registers@[i]@[j]).data.blank(),
    decreases vx_n0 - registers@.len()
//% loop 1
    invariant vw@ == old(vw)@, vx_n1 == configuration.num_registers, pipe_regs@.len() <= vx_n1,
        forall|j: int| 0 <= j < pipe_regs@.len() ==> (#[trigger] pipe_regs@[j]).data.blank(),
    decreases vx_n1 - pipe_regs@.len()
//% fn add_input_channel world params=recv
    ensures joined(old(vw)@, final(vw)@, |c: ChannelID| false, |c: ChannelID| c == recv.cid(), old(self).oid(), old(self).oclk()),
        final(self).input_channels@ == old(self).input_channels@.push(recv), final(self).output_channels == old(self).output_channels, final(self).context_info == old(self).context_info,
        final(self).ingress_op == old(self).ingress_op, final(self).egress_op == old(self).egress_op, final(self).stages == old(self).stages, final(self).registers == old(self).registers, final(self).configuration == old(self).configuration,
//% fn add_output_channel world params=send
    ensures joined(old(vw)@, final(vw)@, |c: ChannelID| c == send.cid(), |c: ChannelID| false, old(self).oid(), old(self).oclk()),
        final(self).output_channels@ == old(self).output_channels@.push(send), final(self).input_channels == old(self).input_channels, final(self).context_info == old(self).context_info,
        final(self).ingress_op == old(self).ingress_op, final(self).egress_op == old(self).egress_op, final(self).stages == old(self).stages, final(self).registers == old(self).registers, final(self).configuration == old(self).configuration,
//% end
//% raw
// ---------------------------------------------------------------- the stores
//% file src/templates/datastore.rs
//% struct Behavior
//% raw
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Datastore<T> { x: Vec<T> }
impl<T> Datastore<T> {
    pub uninterp spec fn sid(&self) -> int;
    pub uninterp spec fn cap(&self) -> usize;
    pub uninterp spec fn beh(&self) -> Behavior;
    // unit store; a store no one else has
    #[verifier::external_body]
    pub fn new(capacity: usize, behavior: Behavior, vw: &mut World) -> (r: Self)
        ensures !old(vw)@.shared.contains(r.sid()), final(vw)@ == (AW { shared: old(vw)@.shared.insert(r.sid()), ..old(vw)@ }), r.cap() == capacity, r.beh() == behavior
    { unimplemented!() }
    // of the Arc: the same store
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    // unit store
    #[verifier::external_body]
    pub fn write(&self, addr: usize, data: T, time: Time, vw: &mut World) ensures final(vw)@ == (AW { log: old(vw)@.log.push(Ev::Store(self.sid(), addr, enc(data), time)), ..old(vw)@ }) { unimplemented!() }
}
//% erase Arc
//% effects write
//% shims write clone
//% file src/templates/dram.rs
//% struct DRAMConfig
//% struct DRAMReadBundle noderive
//% struct DRAMWriteBundle noderive
//% enum AccessBundle noderive
//% struct DRAM noderive
//% raw
impl<IType, T, AT> Owner for DRAM<IType, T, AT> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
pub open spec fn dram_same<IType, T, AT>(p: DRAM<IType, T, AT>, q: DRAM<IType, T, AT>) -> bool { q.config == p.config && q.datastore == p.datastore && q.request_windows == p.request_windows && q.context_info == p.context_info }
//% impl DRAM => impl<IType, T, AT> DRAM<IType, T, AT>
//% fn new world ret=result params=config,datastore_behavior
    ensures !old(vw)@.shared.contains(result.datastore.sid()), !old(vw)@.ids.contains(result.context_info.id), !old(vw)@.clks.contains(result.context_info.time.clk()),
        final(vw)@ == (AW { shared: old(vw)@.shared.insert(result.datastore.sid()), ids: old(vw)@.ids.insert(result.context_info.id), clks: old(vw)@.clks.insert(result.context_info.time.clk()), ..old(vw)@ }),
        result.config == config, result.datastore.cap() == config.capacity, result.datastore.beh() == datastore_behavior, result.request_windows@.len() == 0, result.bundles@.len() == 0,
//% fn fill world
//% sig
    pub fn fill<F: Fn(usize) -> T>(&mut self, fill_func: F, vw: &mut World)
    requires forall|i: usize| i < old(self).config.capacity ==> #[trigger] call_requires(fill_func, (i,)),
    ensures *final(self) == *old(self),
        // every cell, with what the function gives for it, at time 0
        final(vw)@.log.len() == old(vw)@.log.len() + old(self).config.capacity, final(vw)@ == (AW { log: final(vw)@.log, ..old(vw)@ }),
        forall|i: int| 0 <= i < old(vw)@.log.len() ==> #[trigger] final(vw)@.log[i] == old(vw)@.log[i],
        forall|i: usize| i < old(self).config.capacity ==> filled(old(self).datastore.sid(), fill_func, i, #[trigger] final(vw)@.log[old(vw)@.log.len() + i]),
//% loop 0
    invariant *self == *old(self), vx_e0 == self.config.capacity, vx_i0 <= vx_e0, forall|i: usize| i < vx_e0 ==> #[trigger] call_requires(fill_func, (i,)),
        vw@.log.len() == old(vw)@.log.len() + vx_i0, vw@ == (AW { log: vw@.log, ..old(vw)@ }),
        forall|i: int| 0 <= i < old(vw)@.log.len() ==> #[trigger] vw@.log[i] == old(vw)@.log[i],
        forall|i: usize| i < vx_i0 ==> filled(self.datastore.sid(), fill_func, i, #[trigger] vw@.log[old(vw)@.log.len() + i]),
//% end
//% impl DRAM => impl<I, T, A> DRAM<I, T, A>
//% fn add_writer world params=drw
    ensures joined(old(vw)@, final(vw)@, |c: ChannelID| c == drw.ack.cid(), |c: ChannelID| c == drw.addr.cid() || c == drw.data.cid() || c == drw.request_size.cid(), old(self).oid(), old(self).oclk()),
        final(self).bundles@ == old(self).bundles@.push(AccessBundle::Write(drw)), dram_same(*old(self), *final(self)),
//% fn add_reader world params=drr
    ensures joined(old(vw)@, final(vw)@, |c: ChannelID| c == drr.data.cid(), |c: ChannelID| c == drr.addr.cid() || c == drr.req_size.cid(), old(self).oid(), old(self).oclk()),
        final(self).bundles@ == old(self).bundles@.push(AccessBundle::Read(drr)), dram_same(*old(self), *final(self)),
//% end
//% impl Context for DRAM => impl<IType, T, AT> DRAM<IType, T, AT>
//% fn init refuses as=dram_init
    ensures *final(self) == *old(self), old(self).bundles@.len() > 0,
//% end
//% raw
// ---------------------------------------------------------------- contexts made of contexts
pub enum VS { Clock(int), Min(Seq<TimeView>) }
#[verifier::external_body]
pub struct TimeView { x: u8 }
impl TimeView {
    /// what it shows (unit view): a clock, or the least of some views
    pub uninterp spec fn src(&self) -> VS;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait VxInto<T>: Sized {
    spec fn into_spec(self, r: T) -> bool;
    fn vx_into(self) -> (r: T) ensures self.into_spec(r);
}
//% file src/datastructures/identifier.rs
//% struct VerboseIdentifier noderive
//% file src/view/parent.rs
//% struct ParentView noderive
//% raw
impl VxInto<TimeView> for ParentView {
    open spec fn into_spec(self, r: TimeView) -> bool { r.src() == VS::Min(self.child_views@) }
    #[verifier::external_body] fn vx_into(self) -> TimeView { unimplemented!() }
}
//% file src/context/summary.rs
//% struct ContextSummary noderive
//% raw
impl ContextSummary {
    // derived
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// a set, as the list of what was put into it
pub open spec fn same_elems<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> bool { forall|x: A| #[trigger] s.contains(x) <==> f(x) }
pub trait VxList<E>: Sized { spec fn listed(v: Seq<E>, r: Self) -> bool; fn vx_lst(v: Vec<E>) -> (r: Self) ensures Self::listed(v@, r); }
impl<E> VxList<E> for Vec<E> { open spec fn listed(v: Seq<E>, r: Self) -> bool { r@ == v } fn vx_lst(v: Vec<E>) -> Self { v } }
impl<K, V> VxList<(K, V)> for HMap<K, V> { open spec fn listed(v: Seq<(K, V)>, r: Self) -> bool { v.len() == 1 ==> r.m() == ISet::empty().insert(v[0].0) && r.at(v[0].0) == v[0].1 } #[verifier::external_body] fn vx_lst(v: Vec<(K, V)>) -> Self { unimplemented!() } }
pub fn vx_list<C: VxList<E>, E>(v: Vec<E>) -> (r: C) ensures C::listed(v@, r) { C::vx_lst(v) }
/// a hash map
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HMap<K, V> { x: Vec<(K, V)> }
impl<K, V> HMap<K, V> {
    pub uninterp spec fn m(&self) -> ISet<K>;
    pub uninterp spec fn at(&self, k: K) -> V;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == ISet::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self).m() == old(self).m().insert(k), final(self).at(k) == v, forall|x: K| x != k ==> #[trigger] final(self).at(x) == old(self).at(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend(&mut self, o: HMap<K, V>)
        ensures final(self).m() == old(self).m().union(o.m()), forall|x: K| #[trigger] final(self).at(x) == if o.m().contains(x) { o.at(x) } else { old(self).at(x) }
    { unimplemented!() }
}
/// a context as others see it
pub trait Context: Owner {
    spec fn summary(&self) -> ContextSummary;
    spec fn nm(&self) -> String;
    spec fn parts(&self) -> HMap<VerboseIdentifier, Vec<VerboseIdentifier>>;
    fn id(&self) -> (r: Identifier) ensures r == self.oid();
    fn verbose(&self) -> (r: VerboseIdentifier) ensures r.id == self.oid(), r.name == self.nm();
    fn view(&self) -> (r: TimeView) ensures r.src() == VS::Clock(self.oclk());
    /// unit outcome
    fn summarize(&self) -> (r: ContextSummary) ensures r == self.summary(), r.id.id == self.oid(), r.time.src() == VS::Clock(self.oclk());
    /// neither pipeline says otherwise: itself, without parts (the default, below)
    fn ids(&self) -> (r: HMap<VerboseIdentifier, Vec<VerboseIdentifier>>) ensures r == self.parts(), r.m() == ISet::empty().insert(VerboseIdentifier { id: self.oid(), name: self.nm() });
    fn init(&mut self, vw: &mut World) ensures final(self).oid() == old(self).oid(), final(self).oclk() == old(self).oclk(), final(vw)@ == (AW { log: old(vw)@.log.push(Ev::Init(old(self).oid())), ..old(vw)@ });
    fn run(&mut self, vw: &mut World) ensures final(self).oid() == old(self).oid(), final(self).oclk() == old(self).oclk(), final(self).nm() == old(self).nm(), final(vw)@ == (AW { log: old(vw)@.log.push(Ev::Run(old(self).oid())), ..old(vw)@ });
}
//% effects run init
//% shims id verbose view summarize ids init run vx_list vx_extend insert
//% typemap HashSet<_> => Vec<_>
//% typemap HashSet<VerboseIdentifier> => Vec<VerboseIdentifier>
//% typemap HashMap<_,_> => HMap<_, _>
//% typemap HashMap<VerboseIdentifier,HashSet<VerboseIdentifier>> => HMap<VerboseIdentifier, Vec<VerboseIdentifier>>
//% typemap ExplicitConnections => HMap<Identifier, Vec<(Vec<ChannelID>, Vec<ChannelID>)>>
//% pathmap ExplicitConnections::new => HMap::new
//% proxy reader,writer cleanup,view,summarize init,run,add_reader,add_writer
//% typemap context::ContextSummary => ContextSummary
//% typemap datastore::Datastore<T> => Datastore<T>
//% file src/context/proxy.rs
//% enum ProxyContext noderive
//% impl Deref for ProxyContext => impl<T: Context> ProxyContext<T>
//% fn deref ret=r
//% sig
    pub fn deref(&self) -> (r: &T)
    requires *self is Running,
    ensures *r == self->Running_0,
//% end
//% impl DerefMut for ProxyContext => impl<T: Context> ProxyContext<T>
//% fn deref_mut ret=r
//% sig
    pub fn deref_mut(&mut self) -> (r: &mut T)
    requires *old(self) is Running,
    ensures *r == (*old(self))->Running_0, *final(self) is Running, (*final(self))->Running_0 == *final(r),
//% end
//% impl From for ProxyContext => impl<T: Context> ProxyContext<T>
//% fn from as=proxy_from ret=r
    ensures r == ProxyContext::Running(value),
//% end
//% raw
impl<T: Context> VxInto<ProxyContext<T>> for T {
    open spec fn into_spec(self, r: ProxyContext<T>) -> bool { r == ProxyContext::Running(self) }
    fn vx_into(self) -> ProxyContext<T> { ProxyContext::proxy_from(self) }
}
//% impl Cleanable for ProxyContext => impl<T: Context> ProxyContext<T>
//% fn cleanup
    // what is left is the summary of what was there
    ensures *final(self) == match *old(self) { ProxyContext::Running(c) => ProxyContext::<T>::Cleaned(c.summary()), x => x },
        *old(self) matches ProxyContext::Running(c) ==> (*final(self) matches ProxyContext::Cleaned(s) && s.id.id == c.oid() && s.time.src() == VS::Clock(c.oclk())),
//% end
//% impl TimeViewable for ProxyContext => impl<T: Context> ProxyContext<T>
//% fn view ret=r
    ensures match *self { ProxyContext::Running(c) => r.src() == VS::Clock(c.oclk()), ProxyContext::Cleaned(s) => r == s.time },
//% end
//% impl ProxyContext => impl<T: Context> ProxyContext<T>
//% fn summarize ret=r
    requires *self is Cleaned,
    ensures r == self->Cleaned_0,
//% end
//% file src/templates/pmu.rs
//% struct PMUReadBundle noderive
//% struct PMUWriteBundle noderive
//% struct ReadPipeline noderive
//% struct WritePipeline noderive
//% struct PMU noderive
//% raw
impl<T, IT> Owner for ReadPipeline<T, IT> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
impl<T, IT, AT> Owner for WritePipeline<T, IT, AT> { open spec fn oid(&self) -> Identifier { self.context_info.id } open spec fn oclk(&self) -> int { self.context_info.time.clk() } }
//% impl ReadPipeline => impl<T, IT> ReadPipeline<T, IT>
//% fn add_reader world params=reader
    ensures joined(old(vw)@, final(vw)@, |c: ChannelID| c == reader.resp.cid(), |c: ChannelID| c == reader.addr.cid(), old(self).oid(), old(self).oclk()),
        final(self).readers@ == old(self).readers@.push(reader), final(self).datastore == old(self).datastore, final(self).writer_view == old(self).writer_view, final(self).context_info == old(self).context_info,
//% end
//% impl WritePipeline => impl<T, IT, AT> WritePipeline<T, IT, AT>
//% fn add_writer world params=writer
    ensures joined(old(vw)@, final(vw)@, |c: ChannelID| c == writer.ack.cid(), |c: ChannelID| c == writer.addr.cid() || c == writer.data.cid(), old(self).oid(), old(self).oclk()),
        final(self).writers@ == old(self).writers@.push(writer), final(self).datastore == old(self).datastore, final(self).context_info == old(self).context_info,
//% end
//% raw
impl<T, IT> Context for ReadPipeline<T, IT> {
    uninterp spec fn summary(&self) -> ContextSummary;
    uninterp spec fn nm(&self) -> String;
    uninterp spec fn parts(&self) -> HMap<VerboseIdentifier, Vec<VerboseIdentifier>>;
    #[verifier::external_body] fn id(&self) -> Identifier { unimplemented!() }
    #[verifier::external_body] fn verbose(&self) -> VerboseIdentifier { unimplemented!() }
    #[verifier::external_body] fn view(&self) -> TimeView { unimplemented!() }
    #[verifier::external_body] fn summarize(&self) -> ContextSummary { unimplemented!() }
    #[verifier::external_body] fn ids(&self) -> HMap<VerboseIdentifier, Vec<VerboseIdentifier>> { unimplemented!() }
    #[verifier::external_body] fn init(&mut self, vw: &mut World) { unimplemented!() }
    #[verifier::external_body] fn run(&mut self, vw: &mut World) { unimplemented!() }
}
impl<T, IT, AT> Context for WritePipeline<T, IT, AT> {
    uninterp spec fn summary(&self) -> ContextSummary;
    uninterp spec fn nm(&self) -> String;
    uninterp spec fn parts(&self) -> HMap<VerboseIdentifier, Vec<VerboseIdentifier>>;
    #[verifier::external_body] fn id(&self) -> Identifier { unimplemented!() }
    #[verifier::external_body] fn verbose(&self) -> VerboseIdentifier { unimplemented!() }
    #[verifier::external_body] fn view(&self) -> TimeView { unimplemented!() }
    #[verifier::external_body] fn summarize(&self) -> ContextSummary { unimplemented!() }
    #[verifier::external_body] fn ids(&self) -> HMap<VerboseIdentifier, Vec<VerboseIdentifier>> { unimplemented!() }
    #[verifier::external_body] fn init(&mut self, vw: &mut World) { unimplemented!() }
    #[verifier::external_body] fn run(&mut self, vw: &mut World) { unimplemented!() }
}
pub open spec fn live<T, IT, AT>(p: PMU<T, IT, AT>) -> bool { p.reader is Running && p.writer is Running }
pub open spec fn rd<T, IT, AT>(p: PMU<T, IT, AT>) -> ReadPipeline<T, IT> { p.reader->Running_0 }
pub open spec fn wr<T, IT, AT>(p: PMU<T, IT, AT>) -> WritePipeline<T, IT, AT> { p.writer->Running_0 }
/// the two of them, in whichever order
pub open spec fn both<A>(s: Seq<A>, x: A, y: A) -> bool { s =~= seq![x, y] || s =~= seq![y, x] }
pub open spec fn clocks(s: Seq<TimeView>, x: int, y: int) -> bool { s.len() == 2 && (s[0].src() == VS::Clock(x) && s[1].src() == VS::Clock(y) || s[0].src() == VS::Clock(y) && s[1].src() == VS::Clock(x)) }
pub open spec fn grown(w: AW, v: AW, x: Ev, y: Ev) -> bool { v == (AW { log: v.log, ..w }) && (v.log == w.log.push(x).push(y) || v.log == w.log.push(y).push(x)) }
#[verifier::external_body]
pub fn vx_spawned() -> (r: Result<(), ()>) ensures r is Ok { Ok(()) }
pub struct LogInterface { pub id: Identifier }
#[verifier::external_body]
pub fn copy_log() -> Option<LogInterface> { None }
#[verifier::external_body]
pub fn initialize_log(l: LogInterface) { }
//% shims copy_log initialize_log
//% raw
pub open spec fn leads(g: Seq<(Vec<ChannelID>, Vec<ChannelID>)>, a: ChannelID, b: ChannelID) -> bool { exists|k: int| 0 <= k < g.len() && (#[trigger] g[k]).0@.contains(a) && g[k].1@.contains(b) }
pub open spec fn raddr<T, IT>(s: Seq<PMUReadBundle<T, IT>>, n: int, a: ChannelID) -> bool
    decreases n
{ n > 0 && (s[n - 1].addr.cid() == a || raddr(s, n - 1, a)) }
pub open spec fn rresp<T, IT>(s: Seq<PMUReadBundle<T, IT>>, n: int, a: ChannelID) -> bool
    decreases n
{ n > 0 && (s[n - 1].resp.cid() == a || rresp(s, n - 1, a)) }
pub open spec fn waddr<T, IT, AT>(s: Seq<PMUWriteBundle<T, IT, AT>>, n: int, a: ChannelID) -> bool
    decreases n
{ n > 0 && (s[n - 1].addr.cid() == a || s[n - 1].data.cid() == a || waddr(s, n - 1, a)) }
pub open spec fn wack<T, IT, AT>(s: Seq<PMUWriteBundle<T, IT, AT>>, n: int, a: ChannelID) -> bool
    decreases n
{ n > 0 && (s[n - 1].ack.cid() == a || wack(s, n - 1, a)) }
pub open spec fn in_rd<T, IT, AT>(p: PMU<T, IT, AT>, a: ChannelID) -> bool { raddr(rd(p).readers@, rd(p).readers@.len() as int, a) }
pub open spec fn out_rd<T, IT, AT>(p: PMU<T, IT, AT>, a: ChannelID) -> bool { rresp(rd(p).readers@, rd(p).readers@.len() as int, a) }
pub open spec fn in_wr<T, IT, AT>(p: PMU<T, IT, AT>, a: ChannelID) -> bool { waddr(wr(p).writers@, wr(p).writers@.len() as int, a) }
pub open spec fn out_wr<T, IT, AT>(p: PMU<T, IT, AT>, a: ChannelID) -> bool { wack(wr(p).writers@, wr(p).writers@.len() as int, a) }
pub broadcast proof fn lemma_lead1(g: Seq<(Vec<ChannelID>, Vec<ChannelID>)>, a: ChannelID, b: ChannelID)
    ensures g.len() == 1 ==> (#[trigger] leads(g, a, b) <==> g[0].0@.contains(a) && g[0].1@.contains(b)), g.len() == 2 ==> (leads(g, a, b) <==> g[0].0@.contains(a) && g[0].1@.contains(b) || g[1].0@.contains(a) && g[1].1@.contains(b))
{ }
pub broadcast proof fn lemma_pushed(s: Seq<ChannelID>, x: ChannelID, a: ChannelID)
    ensures #[trigger] s.push(x).contains(a) <==> s.contains(a) || a == x
{
    if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(s.push(x)[i] == a); }
    if a == x { assert(s.push(x)[s.len() as int] == a); }
    if s.push(x).contains(a) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == a; if i < s.len() { assert(s[i] == a); } }
}
//% impl PMU => impl<T, IT, AT> PMU<T, IT, AT>
//% fn new world ret=result params=capacity,behavior
    ensures live(result), rd(result).readers@.len() == 0, wr(result).writers@.len() == 0,
        // one store between the two, as asked for
        rd(result).datastore == wr(result).datastore, rd(result).datastore.cap() == capacity, rd(result).datastore.beh() == behavior, !old(vw)@.shared.contains(rd(result).datastore.sid()),
        // the reader follows the writer's clock
        rd(result).writer_view matches Some(v) && v.src() == VS::Clock(wr(result).oclk()),
        // three identifiers and two clocks no one else has
        !old(vw)@.ids.contains(rd(result).oid()), !old(vw)@.ids.contains(wr(result).oid()), !old(vw)@.ids.contains(result.identifier),
        rd(result).oid() != wr(result).oid(), rd(result).oid() != result.identifier, wr(result).oid() != result.identifier,
        !old(vw)@.clks.contains(rd(result).oclk()), !old(vw)@.clks.contains(wr(result).oclk()), rd(result).oclk() != wr(result).oclk(),
        final(vw)@.snd == old(vw)@.snd, final(vw)@.rcv == old(vw)@.rcv, final(vw)@.log == old(vw)@.log,
//% fn add_reader world params=reader
    requires live(*old(self)),
    ensures live(*final(self)), wr(*final(self)) == wr(*old(self)), final(self).identifier == old(self).identifier,
        joined(old(vw)@, final(vw)@, |c: ChannelID| c == reader.resp.cid(), |c: ChannelID| c == reader.addr.cid(), rd(*old(self)).oid(), rd(*old(self)).oclk()),
        rd(*final(self)).readers@ == rd(*old(self)).readers@.push(reader), rd(*final(self)).datastore == rd(*old(self)).datastore, rd(*final(self)).writer_view == rd(*old(self)).writer_view, rd(*final(self)).context_info == rd(*old(self)).context_info,
//% fn add_writer world params=writer
    requires live(*old(self)),
    ensures live(*final(self)), rd(*final(self)) == rd(*old(self)), final(self).identifier == old(self).identifier,
        joined(old(vw)@, final(vw)@, |c: ChannelID| c == writer.ack.cid(), |c: ChannelID| c == writer.addr.cid() || c == writer.data.cid(), wr(*old(self)).oid(), wr(*old(self)).oclk()),
        wr(*final(self)).writers@ == wr(*old(self)).writers@.push(writer), wr(*final(self)).datastore == wr(*old(self)).datastore, wr(*final(self)).context_info == wr(*old(self)).context_info,
//% end
//% impl Identifiable for PMU => impl<T, IT, AT> PMU<T, IT, AT>
//% fn id ret=r
    ensures r == self.identifier,
//% end
//% impl TimeViewable for PMU => impl<T, IT, AT> PMU<T, IT, AT>
//% fn view ret=r
    ensures live(*self) ==> (r.src() matches VS::Min(s) && clocks(s, rd(*self).oclk(), wr(*self).oclk())),
        // once they are gone, their last times
        self.reader is Cleaned && self.writer is Cleaned ==> (r.src() matches VS::Min(s) && both(s, self.reader->Cleaned_0.time, self.writer->Cleaned_0.time)),
//% end
//% impl Context for PMU => impl<T, IT, AT> PMU<T, IT, AT>
//% fn init world as=pmu_init
    requires live(*old(self)),
    ensures live(*final(self)), final(self).identifier == old(self).identifier, grown(old(vw)@, final(vw)@, Ev::Init(rd(*old(self)).oid()), Ev::Init(wr(*old(self)).oid())),
//% fn run world seqscope as=pmu_run
    requires live(*old(self)),
    ensures final(self).identifier == old(self).identifier,
        // both parts run, once each, and leave their summaries
        grown(old(vw)@, final(vw)@, Ev::Run(rd(*old(self)).oid()), Ev::Run(wr(*old(self)).oid())),
        final(self).reader matches ProxyContext::Cleaned(s) && s.id.id == rd(*old(self)).oid() && s.time.src() == VS::Clock(rd(*old(self)).oclk()),
        final(self).writer matches ProxyContext::Cleaned(s) && s.id.id == wr(*old(self)).oid() && s.time.src() == VS::Clock(wr(*old(self)).oclk()),
//% fn summarize ret=r
    requires self.reader is Cleaned, self.writer is Cleaned,
    ensures r.id.id == self.identifier, both(r.children@, self.reader->Cleaned_0, self.writer->Cleaned_0),
        r.time.src() matches VS::Min(s) && both(s, self.reader->Cleaned_0.time, self.writer->Cleaned_0.time),
//% fn edge_connections ret=r noworld=new
    requires live(*self), rd(*self).oid() != wr(*self).oid(),
    ensures r matches Some(m) && m.m() == ISet::<Identifier>::empty().insert(rd(*self).oid()).insert(wr(*self).oid())
            && (forall|a: ChannelID, b: ChannelID| #[trigger] leads(m.at(rd(*self).oid())@, a, b) <==> (in_rd(*self, a) || in_wr(*self, a)) && out_rd(*self, b))
            && (forall|a: ChannelID, b: ChannelID| #[trigger] leads(m.at(wr(*self).oid())@, a, b) <==> in_wr(*self, a) && out_wr(*self, b)),
//% proof start
    broadcast use {lemma_pushed, lemma_lead1};
//% loop 0
    invariant writers == wr(*self).writers, vx_i0 <= writers@.len(), forall|a: ChannelID| #[trigger] vx_v0@.contains(a) <==> waddr(writers@, vx_i0 as int, a),
    decreases writers@.len() - vx_i0
//% proof loop 0 start
    broadcast use lemma_pushed;
//% loop 1
    invariant writers == wr(*self).writers, vx_i1 <= writers@.len(), forall|a: ChannelID| #[trigger] vx_v1@.contains(a) <==> wack(writers@, vx_i1 as int, a),
    decreases writers@.len() - vx_i1
//% proof loop 1 start
    broadcast use lemma_pushed;
//% loop 2
    invariant readers == rd(*self).readers, vx_i2 <= readers@.len(), forall|a: ChannelID| #[trigger] read_srcs@.contains(a) <==> in_wr(*self, a) || raddr(readers@, vx_i2 as int, a),
    decreases readers@.len() - vx_i2
//% proof loop 2 start
    broadcast use lemma_pushed;
//% loop 3
    invariant readers == rd(*self).readers, vx_i3 <= readers@.len(), forall|a: ChannelID| #[trigger] vx_v3@.contains(a) <==> rresp(readers@, vx_i3 as int, a),
    decreases readers@.len() - vx_i3
//% proof loop 3 start
    broadcast use lemma_pushed;
//% fn ids as=pmu_ids ret=r
    requires live(*self),
    ensures ({
        let own = VerboseIdentifier { id: self.identifier, name: self.nm() };
        let a = VerboseIdentifier { id: rd(*self).oid(), name: rd(*self).nm() };
        let b = VerboseIdentifier { id: wr(*self).oid(), name: wr(*self).nm() };
        // itself, its two parts, and nothing else
        &&& r.m() =~= ISet::empty().insert(own).insert(a).insert(b)
        &&& own != a && own != b ==> both(r.at(own)@, a, b)
    }),
//% end
//% file src/datastructures/identifier.rs
//% trait Identifiable => impl<T, IT, AT> PMU<T, IT, AT>
//% fn verbose ret=r
    ensures r.id == self.identifier, r.name == self.nm(),
//% end
//% raw
impl<T, IT, AT> PMU<T, IT, AT> { pub uninterp spec fn nm(&self) -> String; #[verifier::external_body] pub fn name(&self) -> (r: String) ensures r == self.nm() { unimplemented!() } }
impl Identifier {
    // unit ids
    #[verifier::external_body]
    pub fn new(vw: &mut World) -> (r: Identifier) ensures !old(vw)@.ids.contains(r), final(vw)@ == (AW { ids: old(vw)@.ids.insert(r), ..old(vw)@ }) { unimplemented!() }
}
//% shims name
//% raw
impl<RT> FunctionContext<RT> { pub uninterp spec fn vb(&self) -> VerboseIdentifier; #[verifier::external_body] pub fn verbose(&self) -> (r: VerboseIdentifier) ensures r == self.vb() { unimplemented!() } }
//% file src/context/mod.rs
//% pathmap HashSet::new => Vec::new
//% trait Context => impl<RT> FunctionContext<RT>
//% fn ids as=plain_ids ret=r noworld=new
    ensures r.m() == ISet::empty().insert(self.vb()), r.at(self.vb())@.len() == 0,
//% fn edge_connections as=plain_edge_connections ret=r
    // nothing special: every input feeds every output
    ensures r is None,
//% end
//% raw
pub open spec fn filled<T, F: Fn(usize) -> T>(sid: int, f: F, i: usize, e: Ev) -> bool { exists|x: T| #[trigger] call_ensures(f, (i,), x) && e == Ev::Store(sid, i, enc(x), Time { time: 0, done: false }) }
}
