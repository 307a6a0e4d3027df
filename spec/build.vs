//% raw
// ================================================================ building and initialising a program
pub mod building {
use super::*;
/// a collection or option that can be iterated
pub trait VxSeq: Sized {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
}
impl<T> VxSeq for Vec<T> {
    type Item = T;
    open spec fn items(&self) -> Seq<T> { self@ }
}
impl<T> VxSeq for Option<T> {
    type Item = T;
    open spec fn items(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } }
}
#[verifier::external_body]
pub fn vx_len<S: VxSeq>(s: &S) -> (r: usize) ensures r == s.items().len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_at<S: VxSeq>(s: &S, i: usize) -> (r: &S::Item) requires i < s.items().len() ensures *r == s.items()[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vx_take<S: VxSeq>(s: &mut S) -> (r: S::Item)
    requires old(s).items().len() > 0
    ensures r == old(s).items()[0], final(s).items() == old(s).items().subrange(1, old(s).items().len() as int)
{ unimplemented!() }
/// a map given by its entries
pub trait VxMap<K> { spec fn has(&self, k: K) -> bool; fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.has(*k); }
impl<K, V> VxMap<K> for Vec<(K, V)> {
    open spec fn has(&self, k: K) -> bool { exists|i: int| 0 <= i < self.len() && (#[trigger] self[i]).0 == k }
    #[verifier::external_body]
    fn contains_key(&self, k: &K) -> bool { unimplemented!() }
}
pub enum ChannelFlavor { Acyclic, Cyclic, Void }
//% file src/datastructures/identifier.rs
//% struct Identifier
//% struct VerboseIdentifier noderive
//% file src/channel/channel_id.rs
//% struct ChannelID
//% file src/simulation/mod.rs
//% enum InitializationError noderive
//% raw
/// what initialisation decided so far: the implementation of each channel (several flavours mean the last)
pub struct BW { pub flavor: Map<ChannelID, ChannelFlavor> }
#[verifier::external_body]
pub struct World { x: u8 }
impl World { pub uninterp spec fn view(&self) -> BW; }
/// a channel, as the program holds it
#[verifier::external_body]
pub struct DynEdge { x: u8 }
impl DynEdge {
    pub uninterp spec fn cid(&self) -> ChannelID;
    pub uninterp spec fn snd(&self) -> Option<Identifier>;
    pub uninterp spec fn rcv(&self) -> Option<Identifier>;
    #[verifier::external_body]
    pub fn sender(&self) -> (r: Option<Identifier>) ensures r == self.snd() { unimplemented!() }
    #[verifier::external_body]
    pub fn receiver(&self) -> (r: Option<Identifier>) ensures r == self.rcv() { unimplemented!() }
    #[verifier::external_body]
    pub fn id(&self) -> (r: ChannelID) ensures r == self.cid() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_flavor(&self, f: ChannelFlavor, vw: &mut World) ensures final(vw)@ == (BW { flavor: old(vw)@.flavor.insert(self.cid(), f), ..old(vw)@ }) { unimplemented!() }
}
/// a context, as the program holds it
#[verifier::external_body]
pub struct DynNode { x: u8 }
impl DynNode {
    /// the identifiers of the context and of its parts
    pub uninterp spec fn all(&self) -> Seq<(VerboseIdentifier, ())>;
    /// which context it is, and how often it was initialised
    pub uninterp spec fn nid(&self) -> int;
    pub uninterp spec fn inits(&self) -> int;
    #[verifier::external_body]
    pub fn init(&mut self) ensures final(self).nid() == old(self).nid(), final(self).inits() == old(self).inits() + 1 { unimplemented!() }
    /// the connections from its inputs to its outputs that a context reports
    pub uninterp spec fn conns(&self) -> Option<Vec<(Identifier, Vec<(Vec<ChannelID>, Vec<ChannelID>)>)>>;
    #[verifier::external_body]
    pub fn edge_connections(&self) -> (r: Option<Vec<(Identifier, Vec<(Vec<ChannelID>, Vec<ChannelID>)>)>>) ensures r == self.conns() { unimplemented!() }
    #[verifier::external_body]
    pub fn ids(&self) -> (r: Vec<(VerboseIdentifier, ())>) ensures r@ == self.all() { unimplemented!() }
}
//% erase Arc Box
//% typemap Vec<Box<dyn Context + 'a>> => Vec<DynNode>
//% typemap Vec<Arc<dyn ChannelHandle + 'a>> => Vec<DynEdge>
//% typemap FxHashMap<Identifier, String> => Vec<(Identifier, String)>
//% file src/simulation/programdata.rs
//% struct ProgramData noderive generics=
//% raw
/// one of the first k identifiers is x
pub open spec fn among(s: Seq<(VerboseIdentifier, ())>, k: int, x: Identifier) -> bool { exists|j: int| 0 <= j < k && (#[trigger] s[j]).0.id == x }
/// the context, or one of its parts, is called x
pub open spec fn is_part(n: DynNode, x: Identifier) -> bool { among(n.all(), n.all().len() as int, x) }
pub open spec fn reg_upto(s: Seq<DynNode>, k: int, x: Identifier) -> bool { exists|i: int| 0 <= i < k && is_part(#[trigger] s[i], x) }
pub open spec fn registered(p: ProgramData, x: Identifier) -> bool { reg_upto(p.nodes@, p.nodes.len() as int, x) }
pub proof fn lemma_among(s: Seq<(VerboseIdentifier, ())>, k: int, x: Identifier)
    requires 0 <= k < s.len()
    ensures among(s, k + 1, x) <==> among(s, k, x) || s[k].0.id == x
{ if s[k].0.id == x { assert(s[k].0.id == x); } }
pub proof fn lemma_reg(s: Seq<DynNode>, k: int, x: Identifier)
    requires 0 <= k < s.len()
    ensures reg_upto(s, k + 1, x) <==> reg_upto(s, k, x) || is_part(s[k], x)
{ if is_part(s[k], x) { assert(is_part(s[k], x)); } }
pub proof fn lemma_has<V>(v: Vec<(Identifier, V)>, w: Vec<(Identifier, V)>, e: (Identifier, V), x: Identifier)
    requires w@ == v@.push(e)
    ensures w.has(x) <==> v.has(x) || e.0 == x
{
    assert(w[v.len() as int].0 == e.0);
    if v.has(x) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x; assert(w[i].0 == x); }
    if w.has(x) && e.0 != x { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == x; assert(v[i].0 == x); }
}
pub open spec fn end_ok(p: ProgramData, e: Option<Identifier>) -> bool { e matches Some(x) ==> registered(p, x) }
pub open spec fn edge_ok(p: ProgramData, e: DynEdge) -> bool { e.snd() is Some && e.rcv() is Some && end_ok(p, e.snd()) && end_ok(p, e.rcv()) }
pub open spec fn void_ok(p: ProgramData, e: DynEdge) -> bool { e.snd() is Some && e.rcv() is None && end_ok(p, e.snd()) }
/// every channel has a sending and a receiving context, channels to nowhere a sender, and all of them are in the program
pub open spec fn well_connected(p: ProgramData) -> bool {
    &&& forall|i: int| 0 <= i < p.edges.len() ==> edge_ok(p, #[trigger] p.edges[i])
    &&& forall|i: int| 0 <= i < p.void_edges.len() ==> void_ok(p, #[trigger] p.void_edges[i])
}
pub open spec fn is_edge(p: ProgramData, e: DynEdge) -> bool {
    (exists|i: int| 0 <= i < p.edges.len() && #[trigger] p.edges[i] == e) || (exists|i: int| 0 <= i < p.void_edges.len() && #[trigger] p.void_edges[i] == e)
}
/// what an error says is so
pub open spec fn justified(p: ProgramData, x: InitializationError) -> bool {
    match x {
        InitializationError::DisconnectedSender(c) => exists|e: DynEdge| #[trigger] is_edge(p, e) && e.cid() == c && e.snd() is None,
        InitializationError::DisconnectedReceiver(c) => exists|i: int| 0 <= i < p.edges.len() && (#[trigger] p.edges[i]).cid() == c && p.edges[i].rcv() is None,
        InitializationError::UnregisteredNode(x) => !registered(p, x) && exists|e: DynEdge| #[trigger] is_edge(p, e) && (e.snd() == Some(x) || e.rcv() == Some(x)),
    }
}
//% impl ProgramData => impl ProgramData
//% fn node_identifiers optiter ret=r
    ensures forall|x: Identifier| r.has(x) <==> #[trigger] registered(*self, x),
//% loop 0
    invariant vx_i0 <= self.nodes.len(),
        forall|x: Identifier| #[trigger] vx_v0.has(x) <==> reg_upto(self.nodes@, vx_i0 as int, x),
//% proof loop 0 end
    assert forall|x: Identifier| #[trigger] vx_v0.has(x) <==> reg_upto(self.nodes@, vx_i0 as int, x) by { lemma_reg(self.nodes@, vx_i0 - 1, x); }
//% loop 1
    invariant 1 <= vx_i0 <= self.nodes.len(),
        vx_i1 + vx_b1.len() == self.nodes[vx_i0 - 1].all().len(), vx_i1 + vx_b1.len() <= usize::MAX,
        forall|k: int| 0 <= k < vx_b1.len() ==> #[trigger] vx_b1[k] == self.nodes[vx_i0 - 1].all()[vx_i1 + k],
        forall|x: Identifier| #[trigger] vx_v0.has(x) <==> reg_upto(self.nodes@, vx_i0 - 1, x) || among(self.nodes[vx_i0 - 1].all(), vx_i1 as int, x),
//% proof loop 1 start
    let ghost v0 = vx_v0;
//% proof loop 1 end
    assert forall|x: Identifier| #[trigger] vx_v0.has(x) <==> reg_upto(self.nodes@, vx_i0 - 1, x) || among(self.nodes[vx_i0 - 1].all(), vx_i1 as int, x) by {
        lemma_among(self.nodes[vx_i0 - 1].all(), vx_i1 - 1, x);
        lemma_has(v0, vx_v0, vx_v0@.last(), x);
        assert(v0.has(x) <==> reg_upto(self.nodes@, vx_i0 - 1, x) || among(self.nodes[vx_i0 - 1].all(), vx_i1 - 1, x));
    }
//% fn check maypanic optiter ret=r local=all_node_ids:0
    ensures r is Ok ==> well_connected(*self), r matches Err(e) ==> justified(*self, e),
//% proof start
    assert(forall|i: int| 0 <= i < self.edges.len() ==> is_edge(*self, #[trigger] self.edges[i]));
    assert(forall|i: int| 0 <= i < self.void_edges.len() ==> is_edge(*self, #[trigger] self.void_edges[i]));
//% loop 0
    invariant vx_i0 <= self.edges.len(), forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] self.edges[i]).snd() is Some && self.edges[i].rcv() is Some,
        forall|i: int| 0 <= i < self.edges.len() ==> is_edge(*self, #[trigger] self.edges[i]),
//% loop 1
    invariant vx_i1 <= self.void_edges.len(), forall|i: int| 0 <= i < self.edges.len() ==> (#[trigger] self.edges[i]).snd() is Some && self.edges[i].rcv() is Some,
        forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] self.void_edges[i]).snd() is Some && self.void_edges[i].rcv() is None,
        forall|i: int| 0 <= i < self.void_edges.len() ==> is_edge(*self, #[trigger] self.void_edges[i]),
//% loop 2
    invariant vx_i2 <= self.edges.len(), forall|i: int| 0 <= i < self.edges.len() ==> (#[trigger] self.edges[i]).snd() is Some && self.edges[i].rcv() is Some,
        forall|i: int| 0 <= i < self.edges.len() ==> is_edge(*self, #[trigger] self.edges[i]),
        forall|x: Identifier| all_node_ids.has(x) <==> #[trigger] registered(*self, x),
        forall|i: int| 0 <= i < vx_i2 ==> edge_ok(*self, #[trigger] self.edges[i]),
//% loop 3
    invariant 1 <= vx_i2 <= self.edges.len(), *edge == self.edges[vx_i2 - 1], is_edge(*self, *edge), vx_b3 == edge.snd(), vx_i3 <= vx_b3.items().len(),
        forall|x: Identifier| all_node_ids.has(x) <==> #[trigger] registered(*self, x),
        vx_i3 > 0 ==> end_ok(*self, vx_b3),
//% loop 4
    invariant 1 <= vx_i2 <= self.edges.len(), *edge == self.edges[vx_i2 - 1], is_edge(*self, *edge), vx_b4 == edge.rcv(), vx_i4 <= vx_b4.items().len(),
        forall|x: Identifier| all_node_ids.has(x) <==> #[trigger] registered(*self, x),
        vx_i4 > 0 ==> end_ok(*self, vx_b4),
//% loop 5
    invariant vx_i5 <= self.void_edges.len(),
        forall|i: int| 0 <= i < self.void_edges.len() ==> (#[trigger] self.void_edges[i]).snd() is Some && self.void_edges[i].rcv() is None,
        forall|i: int| 0 <= i < self.void_edges.len() ==> is_edge(*self, #[trigger] self.void_edges[i]),
        forall|x: Identifier| all_node_ids.has(x) <==> #[trigger] registered(*self, x),
        forall|i: int| 0 <= i < vx_i5 ==> void_ok(*self, #[trigger] self.void_edges[i]),
//% loop 6
    invariant 1 <= vx_i5 <= self.void_edges.len(), *edge == self.void_edges[vx_i5 - 1], is_edge(*self, *edge), vx_b6 == edge.snd(), vx_i6 <= vx_b6.items().len(),
        forall|x: Identifier| all_node_ids.has(x) <==> #[trigger] registered(*self, x),
        vx_i6 > 0 ==> end_ok(*self, vx_b6),
//% loop 7
    invariant 1 <= vx_i5 <= self.void_edges.len(), *edge == self.void_edges[vx_i5 - 1], is_edge(*self, *edge), vx_b7 == edge.rcv(), vx_i7 <= vx_b7.items().len(),
        forall|x: Identifier| all_node_ids.has(x) <==> #[trigger] registered(*self, x),
        vx_i7 > 0 ==> end_ok(*self, vx_b7),
//% end
//% raw
}
//% shims ids id receiver sender contains_key
//% shims add_edge add_node edge_connections init set_flavor
