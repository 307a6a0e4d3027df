//% raw
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use std::cmp::Ordering;
use std::marker::PhantomData;

// ---------------------------------------------------------------- helpers every function may use
/// assert!: the condition must be provable.
pub fn vx_assert(c: bool) requires c {}
/// assert! of a function that is allowed to panic: execution continues only when the condition holds.
#[verifier::external_body]
pub fn vx_check(c: bool) ensures c { assert!(c); }
/// panic!/unreachable!: must be unreachable.
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
/// panic! of a function that is allowed to panic.
#[verifier::external_body]
pub fn vx_abort() -> ! { panic!() }
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }

pub trait VxUnwrap<T>: Sized {
    spec fn vx_has(self) -> bool;
    spec fn vx_val(self) -> T;
    fn vx_unwrap(self) -> (r: T) requires self.vx_has() ensures r == self.vx_val();
    fn vx_unwrap_p(self) -> (r: T) ensures self.vx_has(), r == self.vx_val();
}
// Option::unwrap and Result::unwrap (std)
impl<T> VxUnwrap<T> for Option<T> {
    open spec fn vx_has(self) -> bool { self is Some }
    open spec fn vx_val(self) -> T { self->Some_0 }
    #[verifier::external_body]
    fn vx_unwrap(self) -> T { self.unwrap() }
    #[verifier::external_body]
    fn vx_unwrap_p(self) -> T { self.unwrap() }
}
impl<T, E> VxUnwrap<T> for Result<T, E> {
    open spec fn vx_has(self) -> bool { self is Ok }
    open spec fn vx_val(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vx_unwrap(self) -> T { self.ok().unwrap() }
    #[verifier::external_body]
    fn vx_unwrap_p(self) -> T { self.ok().unwrap() }
}

/// the data of channels and stores: cloned faithfully, with a default value and a width in bits
pub trait DAMType: Sized {
    fn clone(&self) -> (r: Self) ensures r == *self;
    spec fn dflt() -> Self;
    fn vx_default() -> (r: Self) ensures r == Self::dflt();
    spec fn width(&self) -> int;
    fn dam_size(&self) -> (r: usize) ensures r == self.width();
}
pub trait IndexLike: DAMType {
    spec fn idx(&self) -> usize;
    fn to_usize(&self) -> (r: usize) ensures r == self.idx();
}

pub fn vx_as_ref<T>(o: &Option<T>) -> (r: Option<&T>)
    ensures (r matches Some(x) ==> o == Some(*x)), (r is None ==> o is None)
{ match o { Some(x) => Some(x), None => None } }
// std, as documented
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p })
    opens_invariants none
    no_unwind;
pub assume_specification<T>[ std::mem::replace ](a: &mut T, v: T) -> (r: T)
    ensures r == *old(a), *final(a) == v;
pub assume_specification<T>[ bool::then_some ](b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, v: T) -> (r: T)
    ensures r == (if o is Ok { o->Ok_0 } else { v });
/// the error conversion of `?` between equal types
pub fn vx_from<T>(e: T) -> (r: T) ensures r == e { e }
//% shims vx_assert vx_check vx_panic vx_abort vx_unwrap vx_as_ref vx_into vx_try_into push len remove insert get clone Ok Err Some None new is_some is_none is_ok is_err contains pop replace or then_some
//% shims wrapping_add saturating_add checked_add abs unwrap_or default from load store fetch_add fetch_or lock try_lock send recv try_recv

//% raw
// ---------------------------------------------------------------- time as a number
/// Infinite time is larger than every finite time; finite times that occur are below the horizon.
pub mod base {
use vstd::prelude::*;
pub spec const INF: int = 0x1_0000_0000_0000_0000;
pub spec const HORIZON: int = 0x4000_0000_0000_0000;
/// no finite clock gets this far
pub spec const CLKMAX: int = 0x2000_0000_0000_0000;
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
}
pub use base::*;
