//% raw
// ================================================================ sizes of data types
//% constfn SIZE
//% raw
pub mod types {
use super::*;
/// width in bits
pub trait StaticallySized: Sized {
    spec fn bits() -> int;
    /// the associated constant SIZE
    fn size() -> (r: usize) requires 0 <= Self::bits() <= usize::MAX ensures r == Self::bits();
}
pub trait DAMType: Sized {
    spec fn width(&self) -> int;
    fn dam_size(&self) -> (r: usize) requires 0 <= self.width() <= usize::MAX ensures r == self.width();
}
//% file src/types/scalar.rs
//% impl StaticallySized for bool [trait] => impl StaticallySized for bool
//% raw
    open spec fn bits() -> int { 1 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for u8 [trait] => impl StaticallySized for u8
//% raw
    open spec fn bits() -> int { 8 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for i8 [trait] => impl StaticallySized for i8
//% raw
    open spec fn bits() -> int { 8 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for u16 [trait] => impl StaticallySized for u16
//% raw
    open spec fn bits() -> int { 16 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for i16 [trait] => impl StaticallySized for i16
//% raw
    open spec fn bits() -> int { 16 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for u32 [trait] => impl StaticallySized for u32
//% raw
    open spec fn bits() -> int { 32 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for i32 [trait] => impl StaticallySized for i32
//% raw
    open spec fn bits() -> int { 32 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for u64 [trait] => impl StaticallySized for u64
//% raw
    open spec fn bits() -> int { 64 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for i64 [trait] => impl StaticallySized for i64
//% raw
    open spec fn bits() -> int { 64 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for f32 [trait] => impl StaticallySized for f32
//% raw
    open spec fn bits() -> int { 32 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for f64 [trait] => impl StaticallySized for f64
//% raw
    open spec fn bits() -> int { 64 }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for usize [trait] => impl StaticallySized for usize
//% raw
    open spec fn bits() -> int { usize::BITS as int }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for (A,B) [trait] => impl<A: StaticallySized, B: StaticallySized> StaticallySized for (A, B)
//% raw
    open spec fn bits() -> int { if A::bits() >= 0 && B::bits() >= 0 { A::bits() + B::bits() } else { -1 } }
//% fn SIZE ret=r
//% end
//% impl StaticallySized for () [trait] => impl StaticallySized for ()
//% raw
    open spec fn bits() -> int { 0 }
//% fn SIZE ret=r
//% end
//% file src/types/unevaluated.rs
//% struct Unevaluated noderive
//% impl StaticallySized for Unevaluated [trait] => impl<T: StaticallySized> StaticallySized for Unevaluated<T>
//% raw
    open spec fn bits() -> int { T::bits() }
//% fn SIZE ret=r
//% end
//% file src/types/mod.rs
//% impl DAMType for T [trait] => impl<T: StaticallySized> DAMType for T
//% raw
    open spec fn width(&self) -> int { T::bits() }
//% fn dam_size ret=r
//% end
//% raw
pub mod ndarray {
use super::*;
/// the dimension of an array, and the number of elements in it (the ndarray crate)
#[verifier::external_body]
#[verifier::accept_recursive_types(D)]
pub struct Pattern<D> { x: Vec<D> }
impl<D: Dimension> Pattern<D> {
    pub uninterp spec fn d(&self) -> D;
    #[verifier::external_body]
    pub fn into_dimension(self) -> (r: D) ensures r == self.d() { unimplemented!() }
}
pub trait Dimension: Sized {
    spec fn elements(&self) -> int;
    fn size(&self) -> (r: usize) requires 0 <= self.elements() <= usize::MAX ensures r == self.elements();
}
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
#[verifier::accept_recursive_types(D)]
pub struct Array<A, D> { x: Vec<A>, y: Vec<D> }
impl<A, D: Dimension> Array<A, D> {
    pub uninterp spec fn shape(&self) -> D;
    #[verifier::external_body]
    pub fn dim(&self) -> (r: Pattern<D>) ensures r.d() == self.shape() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) requires self.shape().elements() >= 0 ensures r == self.shape().elements() { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_dim(&self) -> (r: D) ensures r == self.shape() { unimplemented!() }
}
}
use ndarray::*;
// emitted outside of the blanket implementation, with which it would overlap here
//% file src/types/tensor.rs
//% impl DAMType for Array => impl<A: StaticallySized, D: Dimension> Array<A, D>
//% fn dam_size ret=r
    requires self.shape().elements() >= 0, A::bits() >= 0, self.shape().elements() <= usize::MAX, A::bits() <= usize::MAX,
        self.shape().elements() * A::bits() <= usize::MAX,
    ensures r == self.shape().elements() * A::bits(),
//% end
//% shims size dim into_dimension raw_dim
//% raw
} // mod types
