//% raw
// ================================================================ flavour inference
pub mod inference {
use super::*;
use super::building::*;
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct FxHashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> FxHashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(*k), r matches Some(v) ==> *v == self@[*k] { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct FxHashSet<K> { k: Vec<K> }
impl<K> FxHashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct NodeIndex { pub i: usize }
/// petgraph: a directed graph; its vertices are numbered from 0
pub struct GV<N> { pub nodes: Seq<N>, pub edges: Set<(int, int)> }
#[verifier::external_body]
#[verifier::accept_recursive_types(N)]
#[verifier::accept_recursive_types(E)]
pub struct DiGraph<N, E> { n: Vec<N>, e: Vec<E> }
impl<N, E> DiGraph<N, E> {
    pub uninterp spec fn view(&self) -> GV<N>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == (GV::<N> { nodes: Seq::empty(), edges: Set::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node(&mut self, n: N) -> (r: NodeIndex)
        ensures r.i == old(self)@.nodes.len(), final(self)@ == (GV::<N> { nodes: old(self)@.nodes.push(n), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, e: E)
        requires a.i < old(self)@.nodes.len(), b.i < old(self)@.nodes.len()
        ensures final(self)@ == (GV::<N> { edges: old(self)@.edges.insert((a.i as int, b.i as int)), ..old(self)@ })
    { unimplemented!() }
}
pub open spec fn gpath<N>(g: GV<N>, s: Seq<int>) -> bool { s.len() >= 1 && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] g.edges.contains((s[i], s[i + 1])) }
/// a path (possibly of no steps) leads from u to v
pub open spec fn conn<N>(g: GV<N>, u: int, v: int) -> bool { exists|s: Seq<int>| #[trigger] gpath(g, s) && s[0] == u && s.last() == v }
pub open spec fn vert<N>(g: GV<N>, u: int) -> bool { 0 <= u < g.nodes.len() }
/// petgraph: the strongly connected components.  No component lists a vertex twice.
#[verifier::external_body]
pub fn tarjan_scc<N, E>(g: &DiGraph<N, E>) -> (r: Vec<Vec<NodeIndex>>)
    ensures g@.nodes.len() <= usize::MAX,
        forall|c: int, i: int, j: int| 0 <= c < r.len() && 0 <= i < j < r[c].len() ==> #[trigger] r[c][i] != #[trigger] r[c][j],
        forall|c: int, i: int, j: int| 0 <= c < r.len() && 0 <= i < r[c].len() && 0 <= j < r[c].len() ==> conn(g@, (#[trigger] r[c][i]).i as int, (#[trigger] r[c][j]).i as int),
        forall|u: NodeIndex, v: NodeIndex| u != v && vert(g@, u.i as int) && vert(g@, v.i as int) && #[trigger] conn(g@, u.i as int, v.i as int) && conn(g@, v.i as int, u.i as int)
            ==> exists|c: int, i: int, j: int| 0 <= c < r.len() && 0 <= i < r[c].len() && 0 <= j < r[c].len() && #[trigger] r[c][i] == u && #[trigger] r[c][j] == v,
{ unimplemented!() }
pub proof fn lemma_conn_edge<N>(g: GV<N>, u: int, v: int)
    requires g.edges.contains((u, v))
    ensures conn(g, u, v)
{ let s = seq![u, v]; assert(gpath(g, s)); }
pub proof fn lemma_path_cat<N>(g: GV<N>, s: Seq<int>, t: Seq<int>) -> (r: Seq<int>)
    requires gpath(g, s), gpath(g, t), s.last() == t[0]
    ensures gpath(g, r), r[0] == s[0], r.last() == t.last(), r.len() == s.len() + t.len() - 1
{
    let r = s + t.subrange(1, t.len() as int);
    assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] g.edges.contains((r[i], r[i + 1])) by {
        if i < s.len() - 1 { assert(g.edges.contains((s[i], s[i + 1]))); }
        else { let k = i - (s.len() - 1); assert(g.edges.contains((t[k], t[k + 1]))); }
    }
    r
}
pub proof fn lemma_conn_trans<N>(g: GV<N>, u: int, v: int, w: int)
    requires conn(g, u, v), conn(g, v, w)
    ensures conn(g, u, w)
{
    let s = choose|s: Seq<int>| #[trigger] gpath(g, s) && s[0] == u && s.last() == v;
    let t = choose|t: Seq<int>| #[trigger] gpath(g, t) && t[0] == v && t.last() == w;
    let r = lemma_path_cat(g, s, t);
}
//% pathmap petgraph::algo::tarjan_scc => tarjan_scc
//% pathmap crate::channel::ChannelFlavor::* => ChannelFlavor::*
//% effects set_flavor
//% file src/simulation/mod.rs
//% struct InitializationOptions noderive
//% typemap Initialized<'a> => Initialized
//% typemap ProgramData<'a> => ProgramData
//% typemap FxHashSet<_> => Vec<_>
//% file src/simulation/initialized.rs
//% struct Initialized noderive generics=
//% file src/simulation/building.rs
//% enum ChannelOrContext
//% struct ProgramBuilder noderive generics=
//% raw
// ---------------------------------------------------------------- what feeds what
pub open spec fn has_ent(p: ProgramData, i: int, j: int) -> bool { 0 <= i < p.nodes.len() && p.nodes[i].conns() is Some && 0 <= j < p.nodes[i].conns()->Some_0.len() }
pub open spec fn ent(p: ProgramData, i: int, j: int) -> (Identifier, Vec<(Vec<ChannelID>, Vec<ChannelID>)>) { p.nodes[i].conns()->Some_0[j] }
pub open spec fn has_grp(p: ProgramData, i: int, j: int, k: int) -> bool { has_ent(p, i, j) && 0 <= k < ent(p, i, j).1.len() }
pub open spec fn grp(p: ProgramData, i: int, j: int, k: int) -> (Vec<ChannelID>, Vec<ChannelID>) { ent(p, i, j).1[k] }
/// x reports its own connections
pub open spec fn managed(p: ProgramData, x: Identifier) -> bool { exists|i: int, j: int| #[trigger] has_ent(p, i, j) && ent(p, i, j).0 == x }
pub open spec fn into(p: ProgramData, a: ChannelID, c: Identifier) -> bool { exists|i: int| 0 <= i < p.edges.len() && (#[trigger] p.edges[i]).cid() == a && p.edges[i].rcv() == Some(c) }
pub open spec fn outof(p: ProgramData, b: ChannelID, c: Identifier) -> bool { exists|i: int| 0 <= i < p.edges.len() && (#[trigger] p.edges[i]).cid() == b && p.edges[i].snd() == Some(c) }
/// a context receives from channel a and sends to channel b, and reports nothing else; or reports that a leads to b
pub open spec fn feeds(p: ProgramData, a: ChannelID, b: ChannelID) -> bool {
    ||| exists|c: Identifier| !managed(p, c) && #[trigger] into(p, a, c) && #[trigger] outof(p, b, c)
    ||| exists|i: int, j: int, k: int| #[trigger] has_grp(p, i, j, k) && grp(p, i, j, k).0@.contains(a) && grp(p, i, j, k).1@.contains(b)
}
pub open spec fn fed(p: ProgramData, s: Seq<ChannelID>, i: int) -> bool { feeds(p, s[i], s[i + 1]) }
pub open spec fn walk(p: ProgramData, s: Seq<ChannelID>) -> bool { s.len() >= 1 && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] fed(p, s, i) }
/// a path of channels and contexts leads from channel a back to it
pub open spec fn on_cycle(p: ProgramData, a: ChannelID) -> bool { exists|s: Seq<ChannelID>| #[trigger] walk(p, s) && s.len() >= 2 && s[0] == a && s.last() == a }

// ---------------------------------------------------------------- the graph
pub type G = GV<ChannelOrContext>;
pub type M = Map<ChannelOrContext, NodeIndex>;
/// what the edges of a context vertex may come from and lead to
pub type R = Map<int, (ISet<ChannelID>, ISet<ChannelID>)>;
pub open spec fn chan(a: ChannelID) -> ChannelOrContext { ChannelOrContext::ChannelID(a) }
pub open spec fn hasc(m: M, a: ChannelID) -> bool { m.dom().contains(chan(a)) }
pub open spec fn at(m: M, a: ChannelID) -> int { m[chan(a)].i as int }
pub open spec fn canon(g: G, m: M, x: int) -> bool { vert(g, x) && g.nodes[x] is ChannelID && hasc(m, g.nodes[x]->ChannelID_0) && at(m, g.nodes[x]->ChannelID_0) == x }
pub open spec fn allfeed(p: ProgramData, r: (ISet<ChannelID>, ISet<ChannelID>)) -> bool { forall|a: ChannelID, b: ChannelID| #[trigger] r.0.contains(a) && #[trigger] r.1.contains(b) ==> feeds(p, a, b) }
pub open spec fn edge_sound(g: G, m: M, role: R, x: int, y: int) -> bool {
    ||| canon(g, m, x) && role.dom().contains(y) && role[y].0.contains(g.nodes[x]->ChannelID_0)
    ||| canon(g, m, y) && role.dom().contains(x) && role[x].1.contains(g.nodes[y]->ChannelID_0)
}
/// every edge of the graph stands for a connection of the program
pub open spec fn sound(p: ProgramData, g: G, m: M, role: R) -> bool {
    &&& forall|h: ChannelOrContext| #[trigger] m.dom().contains(h) ==> vert(g, m[h].i as int) && g.nodes[m[h].i as int] == h
    &&& forall|y: int| #[trigger] role.dom().contains(y) ==> vert(g, y) && g.nodes[y] is Context && allfeed(p, role[y])
    &&& forall|x: int, y: int| #[trigger] g.edges.contains((x, y)) ==> edge_sound(g, m, role, x, y)
}
/// vertex t has all these edges
pub open spec fn full(g: G, m: M, t: int, ins: Seq<ChannelID>, outs: Seq<ChannelID>) -> bool {
    &&& vert(g, t) && g.nodes[t] is Context
    &&& forall|a: ChannelID| #[trigger] ins.contains(a) ==> hasc(m, a) && g.edges.contains((at(m, a), t))
    &&& forall|b: ChannelID| #[trigger] outs.contains(b) ==> hasc(m, b) && g.edges.contains((t, at(m, b)))
}
pub open spec fn grp_done(p: ProgramData, g: G, m: M, i: int, j: int, k: int) -> bool { exists|t: int| #[trigger] full(g, m, t, grp(p, i, j, k).0@, grp(p, i, j, k).1@) }
/// the reported connections before (i, j, k) have their edges
pub open spec fn grps_done(p: ProgramData, g: G, m: M, i: int, j: int, k: int) -> bool {
    forall|a: int, b: int, c: int| #[trigger] has_grp(p, a, b, c) && (a < i || a == i && (b < j || b == j && c < k)) ==> grp_done(p, g, m, a, b, c)
}
pub open spec fn ctxv(m: M, c: Identifier) -> int { m[ChannelOrContext::Context(c)].i as int }
pub open spec fn hasx(m: M, c: Identifier) -> bool { m.dom().contains(ChannelOrContext::Context(c)) }
pub open spec fn chan_done(p: ProgramData, g: G, m: M, e: DynEdge) -> bool {
    &&& e.snd() is Some && e.rcv() is Some && hasc(m, e.cid())
    &&& !managed(p, e.snd()->Some_0) ==> hasx(m, e.snd()->Some_0) && g.edges.contains((ctxv(m, e.snd()->Some_0), at(m, e.cid())))
    &&& !managed(p, e.rcv()->Some_0) ==> hasx(m, e.rcv()->Some_0) && g.edges.contains((at(m, e.cid()), ctxv(m, e.rcv()->Some_0)))
}
pub open spec fn mid(g: G, m: M, a: ChannelID, v: int, b: ChannelID) -> bool {
    hasc(m, a) && hasc(m, b) && vert(g, v) && g.nodes[v] is Context && g.edges.contains((at(m, a), v)) && g.edges.contains((v, at(m, b)))
}
/// every connection of the program has its edges
pub open spec fn complete(p: ProgramData, g: G, m: M) -> bool { forall|a: ChannelID, b: ChannelID| #[trigger] feeds(p, a, b) ==> exists|v: int| #[trigger] mid(g, m, a, v, b) }
pub proof fn lemma_complete(p: ProgramData, g: G, m: M, role: R)
    requires sound(p, g, m, role), grps_done(p, g, m, p.nodes.len() as int, 0, 0), forall|i: int| 0 <= i < p.edges.len() ==> chan_done(p, g, m, #[trigger] p.edges[i])
    ensures complete(p, g, m)
{
    assert forall|a: ChannelID, b: ChannelID| #[trigger] feeds(p, a, b) implies exists|v: int| #[trigger] mid(g, m, a, v, b) by {
        if exists|i: int, j: int, k: int| #[trigger] has_grp(p, i, j, k) && grp(p, i, j, k).0@.contains(a) && grp(p, i, j, k).1@.contains(b) {
            let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] has_grp(p, i, j, k) && grp(p, i, j, k).0@.contains(a) && grp(p, i, j, k).1@.contains(b);
            assert(grp_done(p, g, m, i, j, k));
            let t = choose|t: int| #[trigger] full(g, m, t, grp(p, i, j, k).0@, grp(p, i, j, k).1@);
            assert(mid(g, m, a, t, b));
        } else {
            let c = choose|c: Identifier| !managed(p, c) && #[trigger] into(p, a, c) && #[trigger] outof(p, b, c);
            let i = choose|i: int| 0 <= i < p.edges.len() && (#[trigger] p.edges[i]).cid() == a && p.edges[i].rcv() == Some(c);
            let j = choose|i: int| 0 <= i < p.edges.len() && (#[trigger] p.edges[i]).cid() == b && p.edges[i].snd() == Some(c);
            assert(chan_done(p, g, m, p.edges[i]) && chan_done(p, g, m, p.edges[j]));
            assert(mid(g, m, a, ctxv(m, c), b));
        }
    }
}
pub proof fn lemma_walk_path(p: ProgramData, g: G, m: M, s: Seq<ChannelID>)
    requires complete(p, g, m), walk(p, s), hasc(m, s[0])
    ensures hasc(m, s.last()), conn(g, at(m, s[0]), at(m, s.last()))
    decreases s.len()
{
    if s.len() == 1 { assert(gpath(g, seq![at(m, s[0])])); }
    else {
        assert(fed(p, s, 0));
        let v = choose|v: int| #[trigger] mid(g, m, s[0], v, s[1]);
        lemma_conn_edge(g, at(m, s[0]), v);
        lemma_conn_edge(g, v, at(m, s[1]));
        lemma_conn_trans(g, at(m, s[0]), v, at(m, s[1]));
        let t = s.subrange(1, s.len() as int);
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] fed(p, t, i) by { assert(fed(p, s, i + 1)); }
        lemma_walk_path(p, g, m, t);
        lemma_conn_trans(g, at(m, s[0]), at(m, s[1]), at(m, s.last()));
    }
}
/// a channel on a cycle and some other vertex lead to each other
pub proof fn lemma_cycle_scc(p: ProgramData, g: G, m: M, role: R, a: ChannelID) -> (v: int)
    requires complete(p, g, m), sound(p, g, m, role), on_cycle(p, a), hasc(m, a)
    ensures vert(g, v), v != at(m, a), conn(g, at(m, a), v), conn(g, v, at(m, a))
{
    let s = choose|s: Seq<ChannelID>| #[trigger] walk(p, s) && s.len() >= 2 && s[0] == a && s.last() == a;
    assert(fed(p, s, 0));
    let v = choose|v: int| #[trigger] mid(g, m, s[0], v, s[1]);
    lemma_conn_edge(g, at(m, a), v);
    lemma_conn_edge(g, v, at(m, s[1]));
    let t = s.subrange(1, s.len() as int);
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] fed(p, t, i) by { assert(fed(p, s, i + 1)); }
    lemma_walk_path(p, g, m, t);
    lemma_conn_trans(g, v, at(m, s[1]), at(m, a));
    v
}
pub proof fn lemma_path_walk(p: ProgramData, g: G, m: M, role: R, s: Seq<int>) -> (w: Seq<ChannelID>)
    requires sound(p, g, m, role), gpath(g, s), canon(g, m, s[0]), canon(g, m, s.last())
    ensures walk(p, w), w[0] == g.nodes[s[0]]->ChannelID_0, w.last() == g.nodes[s.last()]->ChannelID_0, s.len() >= 2 ==> w.len() >= 2
    decreases s.len()
{
    if s.len() == 1 { seq![g.nodes[s[0]]->ChannelID_0] }
    else {
        let z = 0int; assert(g.edges.contains((s[z], s[z + 1])));
        assert(edge_sound(g, m, role, s[0], s[1]));
        assert(role.dom().contains(s[1]));
        assert(s.len() >= 3);
        let o = 1int; assert(g.edges.contains((s[o], s[o + 1])));
        assert(edge_sound(g, m, role, s[1], s[2]));
        let t = s.subrange(2, s.len() as int);
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] g.edges.contains((t[i], t[i + 1])) by { assert(g.edges.contains((s[i + 2], s[i + 2 + 1]))); }
        let x = lemma_path_walk(p, g, m, role, t);
        let a = g.nodes[s[0]]->ChannelID_0;
        let w = seq![a] + x;
        assert(allfeed(p, role[s[1]]));
        assert(feeds(p, a, x[0]));
        assert forall|i: int| 0 <= i < w.len() - 1 implies #[trigger] fed(p, w, i) by { if i > 0 { assert(fed(p, x, i - 1)); } }
        w
    }
}
/// a channel that another vertex leads to, and which leads to it, is on a cycle
pub proof fn lemma_scc_cycle(p: ProgramData, g: G, m: M, role: R, a: ChannelID, v: int)
    requires sound(p, g, m, role), hasc(m, a), v != at(m, a), conn(g, at(m, a), v), conn(g, v, at(m, a))
    ensures on_cycle(p, a)
{
    let u = at(m, a);
    let s = choose|s: Seq<int>| #[trigger] gpath(g, s) && s[0] == u && s.last() == v;
    let t = choose|t: Seq<int>| #[trigger] gpath(g, t) && t[0] == v && t.last() == u;
    let r = lemma_path_cat(g, s, t);
    let w = lemma_path_walk(p, g, m, role, r);
}
pub open spec fn man_upto(p: ProgramData, i: int, j: int, x: Identifier) -> bool {
    exists|a: int, b: int| #[trigger] has_ent(p, a, b) && (a < i || a == i && b < j) && ent(p, a, b).0 == x
}
pub open spec fn nent(p: ProgramData, i: int) -> int { if p.nodes[i].conns() is Some { p.nodes[i].conns()->Some_0.len() as int } else { 0 } }
pub open spec fn ctxrole(p: ProgramData, c: Identifier) -> (ISet<ChannelID>, ISet<ChannelID>) { (ISet::new(|a: ChannelID| into(p, a, c)), ISet::new(|b: ChannelID| outof(p, b, c))) }
pub open spec fn grprole(p: ProgramData, i: int, j: int, k: int) -> (ISet<ChannelID>, ISet<ChannelID>) { (ISet::new(|a: ChannelID| grp(p, i, j, k).0@.contains(a)), ISet::new(|b: ChannelID| grp(p, i, j, k).1@.contains(b))) }
pub open spec fn bigger(g: G, m: M, h: G, n: M) -> bool {
    &&& g.nodes.len() <= h.nodes.len() && forall|x: int| 0 <= x < g.nodes.len() ==> #[trigger] h.nodes[x] == g.nodes[x]
    &&& forall|x: int, y: int| g.edges.contains((x, y)) ==> #[trigger] h.edges.contains((x, y))
    &&& forall|a: ChannelID| hasc(m, a) ==> #[trigger] hasc(n, a) && at(n, a) == at(m, a)
}
/// what is there stays
pub proof fn lemma_bigger(p: ProgramData, g: G, m: M, h: G, n: M, i: int, j: int, k: int)
    requires grps_done(p, g, m, i, j, k), bigger(g, m, h, n)
    ensures grps_done(p, h, n, i, j, k)
{
    assert forall|a: int, b: int, c: int| #[trigger] has_grp(p, a, b, c) && (a < i || a == i && (b < j || b == j && c < k)) implies grp_done(p, h, n, a, b, c) by {
        assert(grp_done(p, g, m, a, b, c));
        let t = choose|t: int| #[trigger] full(g, m, t, grp(p, a, b, c).0@, grp(p, a, b, c).1@);
        assert(full(h, n, t, grp(p, a, b, c).0@, grp(p, a, b, c).1@));
    }
}
pub open spec fn inbig(sc: Seq<Vec<NodeIndex>>, n: int, v: NodeIndex) -> bool { exists|c: int| 0 <= c < n && (#[trigger] sc[c]).len() > 1 && sc[c]@.contains(v) }
pub trait VxHas<T> { fn contains(&self, x: &T) -> bool; }
impl VxHas<NodeIndex> for Vec<NodeIndex> {
    #[verifier::external_body]
    fn contains(&self, x: &NodeIndex) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
}
/// the components with several members are the cycles
pub proof fn lemma_final(p: ProgramData, g: G, m: M, role: R, sc: Seq<Vec<NodeIndex>>)
    requires sound(p, g, m, role), complete(p, g, m),
        forall|c: int, i: int, j: int| 0 <= c < sc.len() && 0 <= i < j < sc[c].len() ==> #[trigger] sc[c][i] != #[trigger] sc[c][j],
        forall|c: int, i: int, j: int| 0 <= c < sc.len() && 0 <= i < sc[c].len() && 0 <= j < sc[c].len() ==> conn(g, (#[trigger] sc[c][i]).i as int, (#[trigger] sc[c][j]).i as int),
        forall|u: NodeIndex, v: NodeIndex| u != v && vert(g, u.i as int) && vert(g, v.i as int) && #[trigger] conn(g, u.i as int, v.i as int) && conn(g, v.i as int, u.i as int)
            ==> exists|c: int, i: int, j: int| 0 <= c < sc.len() && 0 <= i < sc[c].len() && 0 <= j < sc[c].len() && #[trigger] sc[c][i] == u && #[trigger] sc[c][j] == v,
        forall|x: int| #[trigger] vert(g, x) ==> x <= usize::MAX,
    ensures forall|a: ChannelID| hasc(m, a) ==> (inbig(sc, sc.len() as int, m[chan(a)]) <==> #[trigger] on_cycle(p, a))
{
    assert forall|a: ChannelID| hasc(m, a) implies (inbig(sc, sc.len() as int, m[chan(a)]) <==> #[trigger] on_cycle(p, a)) by {
        let u = m[chan(a)];
        assert(m.dom().contains(chan(a)));
        if on_cycle(p, a) {
            let x = lemma_cycle_scc(p, g, m, role, a);
            let v = NodeIndex { i: x as usize };
            assert(conn(g, u.i as int, v.i as int));
            let (c, i, j) = choose|c: int, i: int, j: int| 0 <= c < sc.len() && 0 <= i < sc[c].len() && 0 <= j < sc[c].len() && #[trigger] sc[c][i] == u && #[trigger] sc[c][j] == v;
            assert(i != j);
            assert(sc[c]@.contains(u));
        }
        if inbig(sc, sc.len() as int, u) {
            let c = choose|c: int| 0 <= c < sc.len() && (#[trigger] sc[c]).len() > 1 && sc[c]@.contains(u);
            let i = choose|i: int| 0 <= i < sc[c].len() && sc[c]@[i] == u;
            let j = if i == 0 { 1int } else { 0int };
            let v = sc[c][j];
            assert(sc[c][i] != sc[c][j]);
            assert(conn(g, sc[c][i].i as int, sc[c][j].i as int));
            assert(conn(g, sc[c][j].i as int, sc[c][i].i as int));
            lemma_scc_cycle(p, g, m, role, a, v.i as int);
        }
    }
}
pub open spec fn once(a: DynNode, b: DynNode) -> bool { b.nid() == a.nid() && b.inits() == a.inits() + 1 }
pub open spec fn flavor_of(p: ProgramData, infer: bool, a: ChannelID) -> ChannelFlavor { if infer && !on_cycle(p, a) { ChannelFlavor::Acyclic } else { ChannelFlavor::Cyclic } }
//% impl ProgramBuilder => impl ProgramBuilder
//% fn initialize world optiter maypanic ret=r local=all_channel_ids:0 local=edge_graph:1 local=graph_node_map:2 local=manually_managed_nodes:5 local=sccs:11
    requires forall|i: int, j: int| 0 <= i < self.data.edges.len() && 0 <= j < self.data.void_edges.len() ==> (#[trigger] self.data.edges[i]).cid() != (#[trigger] self.data.void_edges[j]).cid(),
    ensures
        r is Ok ==> well_connected(self.data), r matches Err(e) ==> justified(self.data, e),
        r matches Ok(x) ==> x.data.edges == self.data.edges && x.data.void_edges == self.data.void_edges && x.data.nodes.len() == self.data.nodes.len(),
        r is Ok ==> forall|i: int| 0 <= i < self.data.edges.len() ==> final(vw)@.flavor[(#[trigger] self.data.edges[i]).cid()] == flavor_of(self.data, options.run_flavor_inference, self.data.edges[i].cid()),
        r is Ok ==> forall|i: int| 0 <= i < self.data.void_edges.len() ==> final(vw)@.flavor[(#[trigger] self.data.void_edges[i]).cid()] == ChannelFlavor::Void,
        // every context is initialised, once
        r matches Ok(x) ==> forall|i: int| 0 <= i < x.data.nodes.len() ==> once(self.data.nodes[i], #[trigger] x.data.nodes[i]),
//% attr
#[verifier::loop_isolation(false)]
//% proof start
    let ghost p = self.data;
    let ghost mut role: R = Map::empty();
//% loop 0
    invariant vx_i0 <= p.void_edges.len(), forall|i: int| 0 <= i < vx_i0 ==> vw@.flavor[(#[trigger] p.void_edges[i]).cid()] == ChannelFlavor::Void,
//% loop 1
    invariant vx_i1 <= p.edges.len(), vx_v1.len() == vx_i1, forall|k: int| 0 <= k < vx_i1 ==> vx_v1[k] == (#[trigger] p.edges[k]).cid(),
//% loop 2
    invariant vx_i2 <= p.void_edges.len(), vx_v1.len() == p.edges.len() + vx_i2, forall|k: int| 0 <= k < p.edges.len() ==> vx_v1[k] == (#[trigger] p.edges[k]).cid(),
//% loop 3
    invariant vx_i3 <= all_channel_ids.len(), sound(p, edge_graph@, graph_node_map@, role), role == Map::<int, (ISet<ChannelID>, ISet<ChannelID>)>::empty(), edge_graph@.edges == Set::<(int, int)>::empty(),
        forall|k: int| 0 <= k < vx_i3 ==> hasc(graph_node_map@, #[trigger] all_channel_ids[k]),
        forall|h: ChannelOrContext| #[trigger] graph_node_map@.dom().contains(h) ==> h is ChannelID,
//% proof loop 4 before
    assert forall|k: int| 0 <= k < p.edges.len() implies hasc(graph_node_map@, (#[trigger] p.edges[k]).cid()) by { assert(hasc(graph_node_map@, all_channel_ids[k])); }
//% loop 4
    invariant vx_i4 <= p.nodes.len(), sound(p, edge_graph@, graph_node_map@, role), grps_done(p, edge_graph@, graph_node_map@, vx_i4 as int, 0, 0),
        forall|x: Identifier| #[trigger] manually_managed_nodes@.contains(x) <==> man_upto(p, vx_i4 as int, 0, x),
//% loop 5
    invariant 1 <= vx_i4 <= p.nodes.len(), vx_i5 <= 1, vx_i5 == 0 ==> vx_b5 == p.nodes[vx_i4 - 1].conns(), vx_i5 == 1 ==> vx_b5 is None,
        sound(p, edge_graph@, graph_node_map@, role), grps_done(p, edge_graph@, graph_node_map@, vx_i4 - 1, if vx_i5 == 0 { 0 } else { nent(p, vx_i4 - 1) }, 0),
        forall|x: Identifier| #[trigger] manually_managed_nodes@.contains(x) <==> man_upto(p, vx_i4 - 1, if vx_i5 == 0 { 0 } else { nent(p, vx_i4 - 1) }, x),
//% proof loop 5 end
    assert(vx_b5.items().len() == 0);
//% loop 6
    invariant 1 <= vx_i4 <= p.nodes.len(), p.nodes[vx_i4 - 1].conns() is Some, vx_i6 + vx_b6.len() == nent(p, vx_i4 - 1),
        forall|k: int| 0 <= k < vx_b6.len() ==> #[trigger] vx_b6[k] == ent(p, vx_i4 - 1, vx_i6 + k),
        sound(p, edge_graph@, graph_node_map@, role), grps_done(p, edge_graph@, graph_node_map@, vx_i4 - 1, vx_i6 as int, 0),
        forall|x: Identifier| #[trigger] manually_managed_nodes@.contains(x) <==> man_upto(p, vx_i4 - 1, vx_i6 as int, x),
//% proof loop 6 start
    assert(has_ent(p, vx_i4 - 1, vx_i6 as int));
//% loop 7
    invariant has_ent(p, vx_i4 - 1, vx_i6 - 1), vx_i7 + vx_b7.len() == ent(p, vx_i4 - 1, vx_i6 - 1).1.len(),
        forall|k: int| 0 <= k < vx_b7.len() ==> #[trigger] vx_b7[k] == grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 + k),
        sound(p, edge_graph@, graph_node_map@, role), grps_done(p, edge_graph@, graph_node_map@, vx_i4 - 1, vx_i6 - 1, vx_i7 as int),
//% proof loop 7 start
    let ghost g7 = edge_graph@; let ghost t7 = edge_graph@.nodes.len() as int;
    proof {
        let t = edge_graph@.nodes.len() as int;
        assert(!role.dom().contains(t));
        assert(has_grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 as int));
        assert(allfeed(p, grprole(p, vx_i4 - 1, vx_i6 - 1, vx_i7 as int)));
        role = role.insert(t, grprole(p, vx_i4 - 1, vx_i6 - 1, vx_i7 as int));
    }
//% proof loop 7 end
    proof {
        assert(full(edge_graph@, graph_node_map@, t7, grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).0@, grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).1@));
        assert(grp_done(p, edge_graph@, graph_node_map@, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1));
        lemma_bigger(p, g7, graph_node_map@, edge_graph@, graph_node_map@, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1);
    }
//% loop 8
    invariant has_grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1), vx_i8 + vx_b8.len() == grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).0.len(),
        forall|k: int| 0 <= k < vx_b8.len() ==> #[trigger] vx_b8[k] == grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).0[vx_i8 + k],
        sound(p, edge_graph@, graph_node_map@, role), bigger(g7, graph_node_map@, edge_graph@, graph_node_map@), vert(edge_graph@, t7), edge_graph@.nodes[t7] is Context,
        role.dom().contains(t7), role[t7] == grprole(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1),
        forall|k: int| 0 <= k < vx_i8 ==> hasc(graph_node_map@, #[trigger] grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).0@[k]) && edge_graph@.edges.contains((at(graph_node_map@, grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).0@[k]), t7)),
//% loop 9
    invariant has_grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1), vx_i9 + vx_b9.len() == grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).1.len(),
        forall|k: int| 0 <= k < vx_b9.len() ==> #[trigger] vx_b9[k] == grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).1[vx_i9 + k],
        sound(p, edge_graph@, graph_node_map@, role), bigger(g7, graph_node_map@, edge_graph@, graph_node_map@), vert(edge_graph@, t7), edge_graph@.nodes[t7] is Context,
        role.dom().contains(t7), role[t7] == grprole(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1),
        forall|k: int| 0 <= k < grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).0.len() ==> hasc(graph_node_map@, #[trigger] grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).0@[k]) && edge_graph@.edges.contains((at(graph_node_map@, grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).0@[k]), t7)),
        forall|k: int| 0 <= k < vx_i9 ==> hasc(graph_node_map@, #[trigger] grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).1@[k]) && edge_graph@.edges.contains((t7, at(graph_node_map@, grp(p, vx_i4 - 1, vx_i6 - 1, vx_i7 - 1).1@[k]))),
//% proof loop 10 before
    assert(forall|x: Identifier| #[trigger] manually_managed_nodes@.contains(x) <==> managed(p, x)) by {
        assert forall|x: Identifier| #[trigger] man_upto(p, p.nodes.len() as int, 0, x) <==> managed(p, x) by {}
    }
//% loop 10
    invariant vx_i10 + vx_b10.len() <= usize::MAX,
        sound(p, edge_graph@, graph_node_map@, role), grps_done(p, edge_graph@, graph_node_map@, p.nodes.len() as int, 0, 0),
        forall|c: Identifier| #[trigger] hasx(graph_node_map@, c) ==> !managed(p, c) && role.dom().contains(ctxv(graph_node_map@, c)) && role[ctxv(graph_node_map@, c)] == ctxrole(p, c),
//% proof loop 10 start
    let ghost g10 = edge_graph@; let ghost m10 = graph_node_map@; let ghost x10 = vx_b10[0].0;
    proof {
        let x = vx_b10[0].0;
        if !managed(p, x) {
            assert(!role.dom().contains(edge_graph@.nodes.len() as int));
            assert(allfeed(p, ctxrole(p, x)));
            role = role.insert(edge_graph@.nodes.len() as int, ctxrole(p, x));
        }
    }
//% proof loop 10 end
    proof {
        assert forall|c: Identifier| #[trigger] hasx(graph_node_map@, c) implies !managed(p, c) && role.dom().contains(ctxv(graph_node_map@, c)) && role[ctxv(graph_node_map@, c)] == ctxrole(p, c) by {
            if c != x10 || managed(p, x10) { assert(hasx(m10, c)); assert(m10.dom().contains(ChannelOrContext::Context(c))); }
        }
        lemma_bigger(p, g10, m10, edge_graph@, graph_node_map@, p.nodes.len() as int, 0, 0); }
//% loop 11
    invariant vx_i11 <= p.edges.len(), sound(p, edge_graph@, graph_node_map@, role), grps_done(p, edge_graph@, graph_node_map@, p.nodes.len() as int, 0, 0),
        forall|i: int| 0 <= i < vx_i11 ==> chan_done(p, edge_graph@, graph_node_map@, #[trigger] p.edges[i]),
//% proof loop 11 start
    let ghost g11 = edge_graph@;
//% proof loop 11 end
    proof {
        lemma_bigger(p, g11, graph_node_map@, edge_graph@, graph_node_map@, p.nodes.len() as int, 0, 0);
        assert(chan_done(p, edge_graph@, graph_node_map@, p.edges[vx_i11 - 1]));
        assert forall|i: int| 0 <= i < vx_i11 implies chan_done(p, edge_graph@, graph_node_map@, #[trigger] p.edges[i]) by { if i < vx_i11 - 1 { assert(chan_done(p, g11, graph_node_map@, p.edges[i])); } }
    }
//% proof loop 12 before
    let ghost sc = sccs@;
    proof { lemma_complete(p, edge_graph@, graph_node_map@, role); lemma_final(p, edge_graph@, graph_node_map@, role, sc); }
//% loop 12
    invariant vx_i12 + vx_b12.len() == sc.len(), forall|k: int| 0 <= k < vx_b12.len() ==> #[trigger] vx_b12[k] == sc[vx_i12 + k],
        forall|v: NodeIndex| #[trigger] vx_v12@.contains(v) <==> inbig(sc, vx_i12 as int, v),
//% proof loop 12 start
    assert forall|v: NodeIndex| #[trigger] inbig(sc, vx_i12 + 1, v) <==> inbig(sc, vx_i12 as int, v) || sc[vx_i12 as int].len() > 1 && sc[vx_i12 as int]@.contains(v) by {
        if sc[vx_i12 as int].len() > 1 && sc[vx_i12 as int]@.contains(v) { assert(sc[vx_i12 as int].len() > 1); }
    }
//% loop 13
    invariant 1 <= vx_i12 <= sc.len(), sc[vx_i12 - 1].len() > 1, vx_i13 + vx_b13.len() == sc[vx_i12 - 1].len(),
        forall|k: int| 0 <= k < vx_b13.len() ==> #[trigger] vx_b13[k] == sc[vx_i12 - 1][vx_i13 + k],
        forall|v: NodeIndex| #[trigger] vx_v12@.contains(v) <==> inbig(sc, vx_i12 - 1, v) || exists|i: int| 0 <= i < vx_i13 && #[trigger] sc[vx_i12 - 1]@[i] == v,
//% proof loop 13 start
    let ghost v13 = vx_v12@;
//% proof loop 13 end
    assert forall|v: NodeIndex| #[trigger] vx_v12@.contains(v) <==> inbig(sc, vx_i12 - 1, v) || exists|i: int| 0 <= i < vx_i13 && #[trigger] sc[vx_i12 - 1]@[i] == v by {
        assert(vx_v12@ == v13.push(sc[vx_i12 - 1]@[vx_i13 - 1]));
        assert(vx_v12@[v13.len() as int] == sc[vx_i12 - 1]@[vx_i13 - 1]);
        if v13.contains(v) { let k = v13.index_of(v); assert(vx_v12@[k] == v); }
    }
//% loop 14
    invariant vx_i14 <= p.edges.len(), forall|i: int| 0 <= i < vx_i14 ==> vw@.flavor[(#[trigger] p.edges[i]).cid()] == flavor_of(p, true, p.edges[i].cid()),
        forall|i: int| 0 <= i < p.void_edges.len() ==> vw@.flavor[(#[trigger] p.void_edges[i]).cid()] == ChannelFlavor::Void,
//% loop 15
    invariant vx_i15 <= p.edges.len(), forall|i: int| 0 <= i < vx_i15 ==> vw@.flavor[(#[trigger] p.edges[i]).cid()] == flavor_of(p, false, p.edges[i].cid()),
        forall|i: int| 0 <= i < p.void_edges.len() ==> vw@.flavor[(#[trigger] p.void_edges[i]).cid()] == ChannelFlavor::Void,
//% loop 16
    invariant vx_i16 <= vx_self.data.nodes.len(), vx_self.data.nodes.len() == p.nodes.len(), vx_self.data.edges == p.edges, vx_self.data.void_edges == p.void_edges,
        forall|i: int| 0 <= i < vx_i16 ==> once(p.nodes[i], #[trigger] vx_self.data.nodes[i]), forall|i: int| vx_i16 <= i < p.nodes.len() ==> #[trigger] vx_self.data.nodes[i] == p.nodes[i],
//% end
//% raw
}
