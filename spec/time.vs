//% file src/datastructures/time.rs
//% struct Time
//% raw
pub open spec fn tk(t: Time) -> int { if t.done { INF } else { t.time as int } }
pub open spec fn t_cmp(a: Time, b: Time) -> Ordering {
    if tk(a) < tk(b) { Ordering::Less } else if tk(a) > tk(b) { Ordering::Greater } else { Ordering::Equal }
}
pub open spec fn tmax(a: Time, b: Time) -> Time { if tk(b) >= tk(a) { b } else { a } }
/// below the horizon (payload included)
pub open spec fn tsmall(t: Time) -> bool { t.time < HORIZON }
/// finite and below twice the horizon: what arithmetic on small times produces
pub open spec fn tfin(t: Time) -> bool { !t.done && t.time < HORIZON }

/// `std::cmp::max` / `Ord::max` and `min` on times (the std default methods in terms of `cmp`)
pub fn vx_max(a: Time, b: Time) -> (r: Time) ensures r == tmax(a, b) { if b < a { a } else { b } }
pub fn vx_min(a: Time, b: Time) -> (r: Time) ensures tk(r) == imin(tk(a), tk(b)), r == a || r == b { if b < a { b } else { a } }

impl Time {
    pub fn max(self, o: Time) -> (r: Time) ensures r == tmax(self, o) { vx_max(self, o) }
    pub fn min(self, o: Time) -> (r: Time) ensures tk(r) == imin(tk(self), tk(o)), r == self || r == o { vx_min(self, o) }
}

impl PartialEqSpecImpl for Time {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { tk(*self) == tk(*o) }
}
impl PartialOrdSpecImpl for Time {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(t_cmp(*self, *o)) }
}
impl OrdSpecImpl for Time {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { t_cmp(*self, *o) }
}
impl AddSpecImpl<u64> for Time {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: u64) -> bool { self.time + rhs <= u64::MAX }
    open spec fn add_spec(self, rhs: u64) -> Time { Time { time: (self.time + rhs) as u64, done: self.done } }
}
impl AddSpecImpl<Time> for Time {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Time) -> bool { self.time + rhs.time <= u64::MAX }
    open spec fn add_spec(self, rhs: Time) -> Time { Time { time: (self.time + rhs.time) as u64, done: self.done || rhs.done } }
}
impl SubSpecImpl<u64> for Time {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: u64) -> bool { self.time >= rhs }
    open spec fn sub_spec(self, rhs: u64) -> Time { Time { time: (self.time - rhs) as u64, done: self.done } }
}
impl FromSpecImpl<u64> for Time {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u64) -> Time { Time { time: v, done: false } }
}
impl FromSpecImpl<(bool, u64)> for Time {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: (bool, u64)) -> Time { Time { time: v.1, done: v.0 } }
}
//% impl Time => impl Time
//% fn new ret=r params=time
    ensures tk(r) == time, !r.done, r.time == time,
//% fn infinite ret=r
    ensures tk(r) == INF, r.done, tsmall(r),
//% fn is_infinite ret=r
    ensures r == (tk(*self) == INF), r == self.done,
//% fn set_infinite
    ensures tk(*final(self)) == INF, final(self).time == old(self).time,
//% fn time ret=r
    ensures r == self.time,
//% fn cmp ret=r params=other
    ensures r == t_cmp(*self, *other),
//% end
//% impl From<u64> for Time [trait] => impl From<u64> for Time
//% fn from params=value
//% end
//% impl From<(bool,u64)> for Time [trait] => impl From<(bool, u64)> for Time
//% fn from params=value
//% end
//% impl PartialEq for Time [trait] => impl PartialEq for Time
//% fn eq params=other
//% end
//% raw
impl Eq for Time {}
//% impl PartialOrd for Time [trait] => impl PartialOrd for Time
//% fn partial_cmp params=other
//% end
//% impl Ord for Time [trait] => impl Ord for Time
//% fn cmp params=other
//% end
//% impl Add<u64> for Time [trait] => impl std::ops::Add<u64> for Time
//% raw
type Output = Time;
//% fn add params=rhs
//% end
//% impl Add<Time> for Time [trait] => impl std::ops::Add<Time> for Time
//% raw
type Output = Time;
//% fn add params=rhs
//% end
//% impl Sub<u64> for Time [trait] => impl std::ops::Sub<u64> for Time
//% raw
type Output = Time;
//% fn sub params=rhs
//% end
//% impl Sub<u64> for Time => impl Time
//% fn sub as=sub_any maypanic ret=r params=rhs
    ensures self.time >= rhs, r.time == self.time - rhs, r.done == self.done,
//% end
//% impl AddAssign<u64> for Time => impl Time
//% fn add_assign boolops as=add_assign_u64 params=rhs
    requires old(self).time + rhs <= u64::MAX
    ensures final(self).time == old(self).time + rhs, final(self).done == old(self).done,
//% end
//% impl AddAssign<Time> for Time => impl Time
//% fn add_assign boolops as=add_assign_time params=rhs
    requires old(self).time + rhs.time <= u64::MAX
    ensures final(self).time == old(self).time + rhs.time, final(self).done == (old(self).done || rhs.done),
//% end
//% raw
// Time is totally ordered by tk, infinity is the greatest element: lemmas over the contracts above.
pub proof fn time_total_order(a: Time, b: Time, c: Time)
    ensures
        t_cmp(a, a) == Ordering::Equal,
        (t_cmp(a, b) == Ordering::Less) == (t_cmp(b, a) == Ordering::Greater),
        t_cmp(a, b) == Ordering::Less && t_cmp(b, c) == Ordering::Less ==> t_cmp(a, c) == Ordering::Less,
        t_cmp(a, b) == Ordering::Equal && t_cmp(b, c) == Ordering::Equal ==> t_cmp(a, c) == Ordering::Equal,
        a.done && !b.done ==> t_cmp(a, b) == Ordering::Greater,
        a.done && b.done ==> t_cmp(a, b) == Ordering::Equal,
        !a.done && !b.done ==> (t_cmp(a, b) == Ordering::Less <==> a.time < b.time),
{}

/// Iterator::min / Iterator::max over times
#[verifier::external_body]
pub fn lib_min(v: &Vec<Time>) -> (r: Option<Time>)
    ensures
        r is None <==> v.len() == 0,
        r matches Some(m) ==> v@.contains(m) && forall|i: int| 0 <= i < v.len() ==> tk(m) <= tk(#[trigger] v@[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn lib_max(v: &Vec<Time>) -> (r: Option<Time>)
    ensures
        r is None <==> v.len() == 0,
        r matches Some(m) ==> v@.contains(m) && forall|i: int| 0 <= i < v.len() ==> tk(m) >= tk(#[trigger] v@[i]),
{ unimplemented!() }
