//% raw
// ================================================================ creating channels
pub mod wires {
use super::*;
use super::send::*;
use super::recv::*;
use super::handle::*;
impl<T: DAMType> ChannelData<T> {
    /// Arc::clone
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// a channel as the program keeps it
#[verifier::external_body]
pub struct DynEdge { x: u8 }
/// the handle of a channel, seen without its element type
pub uninterp spec fn handle_of<T: DAMType>(c: ChannelData<T>) -> DynEdge;
/// a context, seen without its type
#[verifier::external_body]
pub struct DynNode { x: u8 }
pub uninterp spec fn node_of<C>(c: C) -> DynNode;
/// lists of these: putting in an element forgets its type
#[verifier::external_body]
pub struct EdgeVec { x: Vec<DynEdge> }
impl EdgeVec {
    pub uninterp spec fn view(&self) -> Seq<DynEdge>;
    #[verifier::external_body]
    pub fn push<T: DAMType>(&mut self, e: ChannelData<T>) ensures final(self)@ == old(self)@.push(handle_of(e)) { unimplemented!() }
}
#[verifier::external_body]
pub struct NodeVec { x: Vec<DynNode> }
impl NodeVec {
    pub uninterp spec fn view(&self) -> Seq<DynNode>;
    #[verifier::external_body]
    pub fn push<C>(&mut self, c: C) ensures final(self)@ == old(self)@.push(node_of(c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
//% erase Box
//% typemap Vec<Box<dyn Context + 'a>> => NodeVec
//% typemap Vec<Arc<dyn ChannelHandle + 'a>> => EdgeVec
//% typemap ProgramData<'a> => ProgramData
//% file src/simulation/programdata.rs
//% struct ProgramData noderive generics=
//% file src/simulation/building.rs
//% struct ProgramBuilder noderive generics=
//% raw
pub open spec fn same_spec(a: ChannelSpec, cap: Option<usize>, lat: u64, resp: u64) -> bool {
    a.capacity == cap && a.send_latency == lat && a.response_latency == resp && a.sender_id is None && a.receiver_id is None
}
/// both ends of a new channel refer to the same, unconnected channel
pub open spec fn new_channel<T: DAMType>(s: Sender<T>, r: Receiver<T>, cap: Option<usize>, lat: u64, resp: u64) -> bool {
    s.underlying == r.underlying && new_data(s.underlying, cap, lat, resp)
}
pub open spec fn new_data<T: DAMType>(c: ChannelData<T>, cap: Option<usize>, lat: u64, resp: u64) -> bool {
    same_spec(c.channel_spec, cap, lat, resp) && c.sender is Uninitialized && c.receiver is Uninitialized
        && c.sender->Uninitialized_0.spec == c.channel_spec && c.receiver->Uninitialized_0.spec == c.channel_spec
}
pub open spec fn gains(a: ProgramBuilder, b: ProgramBuilder, e: DynEdge) -> bool {
    b.data.edges@ == a.data.edges@.push(e) && b.data.void_edges == a.data.void_edges && b.data.nodes == a.data.nodes
}
//% impl ProgramBuilder => impl ProgramBuilder
//% fn add_edge params=edge
//% sig
    pub fn add_edge<T: DAMType>(&mut self, edge: ChannelData<T>)
    ensures gains(*old(self), *final(self), handle_of(edge)),
//% fn add_void_edge params=edge
//% sig
    pub fn add_void_edge<T: DAMType>(&mut self, edge: ChannelData<T>)
    ensures final(self).data.void_edges@ == old(self).data.void_edges@.push(handle_of(edge)), final(self).data.edges == old(self).data.edges, final(self).data.nodes == old(self).data.nodes,
//% fn add_node params=node
//% sig
    pub fn add_node<C>(&mut self, node: C)
    ensures final(self).data.nodes@ == old(self).data.nodes@.push(node_of(node)), final(self).data.edges == old(self).data.edges, final(self).data.void_edges == old(self).data.void_edges,
//% fn add_child params=child
//% sig
    pub fn add_child<T>(&mut self, child: T)
    ensures final(self).data.nodes@ == old(self).data.nodes@.push(node_of(child)), final(self).data.edges == old(self).data.edges, final(self).data.void_edges == old(self).data.void_edges,
//% fn num_children ret=r
    ensures r == self.data.nodes@.len(),
//% fn make_channel_with_latency maypanic ret=r params=capacity,latency,resp_latency
//% sig
    pub fn make_channel_with_latency<T: DAMType>(&mut self, capacity: Option<usize>, latency: Option<u64>, resp_latency: Option<u64>) -> (r: (Sender<T>, Receiver<T>))
    ensures new_channel(r.0, r.1, capacity, or1(latency), or1(resp_latency)), gains(*old(self), *final(self), handle_of(r.0.underlying)),
//% fn bounded maypanic ret=r params=capacity
//% sig
    pub fn bounded<T: DAMType>(&mut self, capacity: usize) -> (r: (Sender<T>, Receiver<T>))
    ensures new_channel(r.0, r.1, Some(capacity), 1, 1), gains(*old(self), *final(self), handle_of(r.0.underlying)),
//% fn bounded_with_latency maypanic ret=r params=capacity,latency,resp_latency
//% sig
    pub fn bounded_with_latency<T: DAMType>(&mut self, capacity: usize, latency: u64, resp_latency: u64) -> (r: (Sender<T>, Receiver<T>))
    ensures new_channel(r.0, r.1, Some(capacity), latency, resp_latency), gains(*old(self), *final(self), handle_of(r.0.underlying)),
//% fn unbounded maypanic ret=r
//% sig
    pub fn unbounded<T: DAMType>(&mut self) -> (r: (Sender<T>, Receiver<T>))
    ensures new_channel(r.0, r.1, None, 1, 1), gains(*old(self), *final(self), handle_of(r.0.underlying)),
//% fn unbounded_with_latency maypanic ret=r params=latency,resp_latency
//% sig
    pub fn unbounded_with_latency<T: DAMType>(&mut self, latency: u64, resp_latency: u64) -> (r: (Sender<T>, Receiver<T>))
    ensures new_channel(r.0, r.1, None, latency, resp_latency), gains(*old(self), *final(self), handle_of(r.0.underlying)),
//% fn void maypanic ret=r
//% sig
    pub fn void<T: DAMType>(&mut self) -> (r: Sender<T>)
    ensures new_data(r.underlying, None, 1, 1),
        final(self).data.void_edges@ == old(self).data.void_edges@.push(handle_of(r.underlying)), final(self).data.edges == old(self).data.edges, final(self).data.nodes == old(self).data.nodes,
//% end
//% raw
}
