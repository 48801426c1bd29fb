@prelude
use vstd::std_specs::cmp::{PartialEqSpec, PartialEqSpecImpl, PartialOrdSpec, PartialOrdSpecImpl};
pub mod vpax {
use super::*;
/// trusted: == on byte slices, vectors and arrays compares contents
pub broadcast axiom fn ax_slice_eq(a: &[u8], b: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_vec_eq(a: &Vec<u8>, b: &Vec<u8>) ensures #[trigger] <Vec<u8> as PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_vec_slice_eq(a: &Vec<u8>, b: &[u8]) ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_arr_eq<const N: usize>(a: &[u8], b: &[u8; N]) ensures <[u8] as PartialEqSpec<[u8; N]>>::obeys_eq_spec(), #[trigger] <[u8] as PartialEqSpec<[u8; N]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_o1() ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_o2() ensures #[trigger] <Vec<u8> as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub broadcast axiom fn ax_o3() ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_o4<const N: usize>() ensures #[trigger] <[u8] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast group g_eq { ax_slice_eq, ax_vec_eq, ax_vec_slice_eq, ax_arr_eq, ax_o1, ax_o2, ax_o3, ax_o4 }
}
broadcast use vpax::g_eq;
use vstd::utf8::{encode_utf8, valid_utf8, is_continuation_byte};
/// bytes of the UTF-8 form of a string
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
pub trait VpVecFrom { spec fn fv(&self) -> Seq<u8>; fn vp_from(self) -> (r: Vec<u8>) where Self: Sized ensures r@ == self.fv(); }
impl<'a> VpVecFrom for &'a [u8] { open spec fn fv(&self) -> Seq<u8> { (*self)@ } #[verifier::external_body] fn vp_from(self) -> (r: Vec<u8>) { Vec::from(self) } }
impl<'a> VpVecFrom for &'a str { open spec fn fv(&self) -> Seq<u8> { utf8((*self)@) } #[verifier::external_body] fn vp_from(self) -> (r: Vec<u8>) { Vec::from(self) } }
impl VpVecFrom for String { open spec fn fv(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn vp_from(self) -> (r: Vec<u8>) { Vec::from(self) } }
pub fn vp_vec_from<T: VpVecFrom>(t: T) -> (r: Vec<u8>) ensures r@ == t.fv() { t.vp_from() }
// ---------- trusted shims (listed in evidence) ----------
pub trait VpSlice<T> {
    spec fn vs(&self) -> Seq<T>;
    fn vp_as(&self) -> (r: &[T]) ensures r@ == self.vs();
}
impl<T> VpSlice<T> for Vec<T> { open spec fn vs(&self) -> Seq<T> { self@ } fn vp_as(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> VpSlice<T> for &Vec<T> { open spec fn vs(&self) -> Seq<T> { (*self)@ } fn vp_as(&self) -> (r: &[T]) { (*self).as_slice() } }
impl<'a, T> VpSlice<T> for &'a [T] { open spec fn vs(&self) -> Seq<T> { (*self)@ } fn vp_as(&self) -> (r: &[T]) { *self } }
impl<T, const N: usize> VpSlice<T> for [T; N] { open spec fn vs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_as(&self) -> (r: &[T]) { self } }
pub fn vp_slice<T, S: VpSlice<T>>(s: &S) -> (r: &[T]) ensures r@ == s.vs() { s.vp_as() }
/// isize::try_from(usize)
pub fn vp_isize_try_from(x: usize) -> (r: Result<isize, ()>) ensures x <= isize::MAX ==> r == Ok::<isize, ()>(x as isize), x > isize::MAX ==> r is Err { if x <= isize::MAX as usize { Ok(x as isize) } else { Err(()) } }
#[verifier::external_body]
pub fn vp_panic() -> (r: !) requires false, { panic!() }
pub fn vp_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn vp_format() -> (r: String) { String::new() }
#[verifier::external_body]
pub fn vp_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub trait VpOrd: Sized { spec fn ov(&self) -> int; fn vp_le(&self, o: &Self) -> (r: bool) ensures r == (self.ov() <= o.ov()); }
impl VpOrd for usize { open spec fn ov(&self) -> int { *self as int } fn vp_le(&self, o: &Self) -> (r: bool) { *self <= *o } }
impl VpOrd for i32 { open spec fn ov(&self) -> int { *self as int } fn vp_le(&self, o: &Self) -> (r: bool) { *self <= *o } }
pub fn vp_min<T: VpOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ov() <= b.ov() { a } else { b }) { if a.vp_le(&b) { a } else { b } }
pub fn vp_max<T: VpOrd>(a: T, b: T) -> (r: T) ensures r == (if b.ov() >= a.ov() { b } else { a }) { if a.vp_le(&b) { b } else { a } }
pub assume_specification<'a, T> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    where T: std::marker::Copy
    ensures o is None ==> r is None, o is Some ==> r == Some(*o->Some_0);
#[verifier::external_body]
pub fn vp_string_from(a: &str) -> (r: String) ensures r@ == a@ { String::from(a) }
pub trait VpDefault: Sized { spec fn is_default(&self) -> bool; fn vp_default() -> (r: Self) ensures r.is_default(); }
impl<T> VpDefault for Option<T> { open spec fn is_default(&self) -> bool { *self is None } fn vp_default() -> (r: Self) { None } }
impl<T> VpDefault for Vec<T> { open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() } fn vp_default() -> (r: Self) { Vec::new() } }
/// std::mem::take
#[verifier::external_body]
pub fn vp_take<T: VpDefault>(d: &mut T) -> (r: T) ensures r == *old(d), final(d).is_default() { let n = T::vp_default(); std::mem::replace(d, n) }
@end
