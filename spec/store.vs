//% raw
// ================================================================ datastores
pub mod store {
use super::*;
/// an operation may be refused (arbitrary: every function is checked with and without)
pub uninterp spec fn may_refuse() -> bool;
#[verifier::external_body]
pub fn vx_abort() -> ! requires may_refuse() { panic!() }
#[verifier::external_body]
pub fn vx_check(c: bool) requires c || may_refuse() ensures c { assert!(c); }
//% erase RwLock
//% pathmap T::default => T::vx_default
//% shims vx_default last truncate is_empty
//% file src/templates/datastore.rs
//% struct StoreElement noderive
//% struct Behavior noderive
//% struct Datastore noderive bound=DAMType
//% raw
#[verifier::external_body]
pub fn vx_last<X>(v: &Vec<X>) -> (r: Option<&X>)
    ensures r is None <==> v.len() == 0, r matches Some(x) ==> *x == v@.last()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_get<X>(v: &Vec<X>, i: usize) -> (r: Option<&X>)
    ensures r is None <==> i >= v.len(), r matches Some(x) ==> *x == v@[i as int]
{ unimplemented!() }
/// the slice methods of a vector
pub trait VxSlice<X> {
    spec fn sq(&self) -> Seq<X>;
    fn last(&self) -> (r: Option<&X>) ensures r is None <==> self.sq().len() == 0, r matches Some(x) ==> *x == self.sq().last();
    fn get(&self, i: usize) -> (r: Option<&X>) ensures r is None <==> i >= self.sq().len(), r matches Some(x) ==> *x == self.sq()[i as int];
    fn is_empty(&self) -> (r: bool) ensures r == (self.sq().len() == 0);
}
impl<X> VxSlice<X> for Vec<X> {
    open spec fn sq(&self) -> Seq<X> { self@ }
    fn last(&self) -> Option<&X> { vx_last(self) }
    fn get(&self, i: usize) -> Option<&X> { vx_get(self, i) }
    fn is_empty(&self) -> bool { self.len() == 0 }
}
pub open spec fn increasing<T>(h: Seq<StoreElement<T>>) -> bool { forall|i: int, j: int| 0 <= i < j < h.len() ==> tk((#[trigger] h[i]).time) < tk((#[trigger] h[j]).time) }
/// the writes to an address, in order
pub open spec fn hist<T: DAMType>(s: Datastore<T>, a: int) -> Seq<StoreElement<T>> { s.underlying@[a]@ }
pub open spec fn wf<T: DAMType>(s: Datastore<T>) -> bool {
    s.underlying.len() == s.capacity && (s.behavior.mod_address ==> s.capacity > 0) && forall|a: int| 0 <= a < s.capacity ==> increasing((#[trigger] s.underlying@[a])@)
}
/// the place of an address
pub open spec fn place<T: DAMType>(s: Datastore<T>, addr: int) -> int { if addr < s.capacity { addr } else { addr % (s.capacity as int) } }
/// the address has a place
pub open spec fn lawful<T: DAMType>(s: Datastore<T>, addr: int) -> bool { addr < s.capacity || s.behavior.mod_address && s.capacity > 0 }
/// a write at this time is later than the last one
pub open spec fn later<T>(h: Seq<StoreElement<T>>, t: Time) -> bool { h.len() == 0 || tk(h.last().time) < tk(t) }
/// write i is the last one up to t
pub open spec fn is_last<T>(h: Seq<StoreElement<T>>, t: Time, i: int) -> bool {
    0 <= i < h.len() && tk(h[i].time) <= tk(t) && forall|j: int| i < j < h.len() ==> tk((#[trigger] h[j]).time) > tk(t)
}
pub open spec fn none_yet<T>(h: Seq<StoreElement<T>>, t: Time) -> bool { forall|j: int| 0 <= j < h.len() ==> tk((#[trigger] h[j]).time) > tk(t) }
/// v is what a read of these writes at t gives
pub open spec fn gives<T: DAMType>(h: Seq<StoreElement<T>>, dflt: bool, t: Time, v: T) -> bool {
    (exists|i: int| #[trigger] is_last(h, t, i) && v == h[i].data) || none_yet(h, t) && dflt && v == T::dflt()
}
pub proof fn lemma_gives_one<T: DAMType>(h: Seq<StoreElement<T>>, dflt: bool, t: Time, v: T, w: T)
    requires gives(h, dflt, t, v), gives(h, dflt, t, w)
    ensures v == w
{
    if exists|i: int| #[trigger] is_last(h, t, i) && v == h[i].data {
        let i = choose|i: int| #[trigger] is_last(h, t, i) && v == h[i].data;
        if exists|j: int| #[trigger] is_last(h, t, j) && w == h[j].data {
            let j = choose|j: int| #[trigger] is_last(h, t, j) && w == h[j].data;
            assert(i == j);
        }
    }
}
/// a later write changes no earlier read
pub proof fn lemma_past<T: DAMType>(h: Seq<StoreElement<T>>, dflt: bool, t: Time, v: T, e: StoreElement<T>)
    requires gives(h, dflt, t, v), tk(e.time) > tk(t)
    ensures gives(h.push(e), dflt, t, v)
{
    let g = h.push(e);
    if exists|i: int| #[trigger] is_last(h, t, i) && v == h[i].data {
        let i = choose|i: int| #[trigger] is_last(h, t, i) && v == h[i].data;
        assert(is_last(g, t, i));
    }
}
/// a write is read from its time on, until the next
pub proof fn lemma_read_back<T: DAMType>(h: Seq<StoreElement<T>>, dflt: bool, t: Time, e: StoreElement<T>)
    requires tk(e.time) <= tk(t)
    ensures gives(h.push(e), dflt, t, e.data)
{
    assert(is_last(h.push(e), t, h.len() as int));
}
/// what a read found: the writes up to some position are due, later ones are not
pub proof fn lemma_split<T: DAMType>(h: Seq<StoreElement<T>>, dflt: bool, t: Time, k: int)
    requires increasing(h), 0 <= k <= h.len(), forall|j: int| 0 <= j < k ==> tk((#[trigger] h[j]).time) <= tk(t), k < h.len() ==> tk(h[k].time) > tk(t)
    ensures k > 0 ==> is_last(h, t, k - 1), k == 0 ==> none_yet(h, t)
{}
//% impl Datastore => impl<T: DAMType> Datastore<T>
//% fn new rwlock=underlying ret=r params=capacity,behavior local=ds:0
    requires behavior.mod_address ==> capacity > 0
    ensures
        wf(r), r.capacity == capacity, r.behavior == behavior,
        // nothing was written
        forall|a: int| 0 <= a < capacity ==> (#[trigger] r.underlying@[a])@ == Seq::<StoreElement<T>>::empty(),
//% loop 0
    invariant
        vx_n0 == capacity, ds.capacity == capacity, ds.behavior == behavior, ds.underlying.len() <= capacity,
        forall|a: int| 0 <= a < ds.underlying.len() ==> (#[trigger] ds.underlying@[a])@ == Seq::<StoreElement<T>>::empty(),
    decreases capacity - ds.underlying.len()
//% fn safe_addr refuses ret=r params=addr
    requires wf(*self), may_refuse() || lawful(*self, addr as int)
    ensures lawful(*self, addr as int), r == place(*self, addr as int), r < self.capacity,
//% fn write refuses mutself rwlock=underlying params=addr,data,time
    requires wf(*old(self)), may_refuse() || lawful(*old(self), addr as int) && later(hist(*old(self), place(*old(self), addr as int)), time)
    ensures
        wf(*final(self)), final(self).capacity == old(self).capacity, final(self).behavior == old(self).behavior,
        // what is done was allowed
        lawful(*old(self), addr as int), later(hist(*old(self), place(*old(self), addr as int)), time),
        // one more write at that place, nothing else
        hist(*final(self), place(*old(self), addr as int)) == hist(*old(self), place(*old(self), addr as int)).push(StoreElement { data, time }),
        forall|a: int| 0 <= a < old(self).capacity && a != place(*old(self), addr as int) ==> (#[trigger] final(self).underlying@[a])@ == hist(*old(self), a),
//% fn read refuses rwlock=underlying ret=r params=addr,time local=reader:1
    requires
        wf(*self),
        may_refuse() || lawful(*self, addr as int) && (self.behavior.use_default_value || !none_yet(hist(*self, place(*self, addr as int)), time))
    ensures
        lawful(*self, addr as int),
        gives(hist(*self, place(*self, addr as int)), self.behavior.use_default_value, time, r),
//% loop 0
    invariant_except_break
        vx_v0 is None
    invariant
        wf(*self), lawful(*self, addr as int), 0 <= place(*self, addr as int) < self.capacity, increasing(reader@), vx_i0 <= reader.len(),
        reader@ == hist(*self, place(*self, addr as int)),
        vx_v0 is None ==> forall|j: int| 0 <= j < vx_i0 ==> tk((#[trigger] reader@[j]).time) <= tk(time),
        vx_v0 matches Some(x) ==> x < reader.len() && tk(reader@[x as int].time) > tk(time) && (x > 0 ==> is_last(reader@, time, x - 1)) && (x == 0 ==> none_yet(reader@, time)),
    ensures
        vx_v0 is None ==> (reader.len() > 0 ==> is_last(reader@, time, reader.len() - 1)) && (reader.len() == 0 ==> none_yet(reader@, time)),
    decreases reader.len() - vx_i0
//% end
//% raw
}
