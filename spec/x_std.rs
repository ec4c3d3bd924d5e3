// Contracts assumed for functions of the standard library that vstd does not specify.
pub mod x_std {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::sp::*;
use core::hash::{Hash, Hasher};
use vstd::std_specs::convert::*;
verus! {
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<T>;
    spec fn as_ref_rel(&self, r: &T) -> bool;
    fn as_ref(&self) -> (r: &T) ensures self.as_ref_rel(r);
}
impl<T> AsRefSpecImpl<[T]> for [T] { open spec fn as_ref_rel(&self, r: &[T]) -> bool { r@ == self@ } }
impl AsRefSpecImpl<[u8]> for str { open spec fn as_ref_rel(&self, r: &[u8]) -> bool { r@ == self.spec_bytes() } }
impl<T, A: core::alloc::Allocator> AsRefSpecImpl<[T]> for Vec<T, A> { open spec fn as_ref_rel(&self, r: &[T]) -> bool { r@ == self@ } }
impl AsRefSpecImpl<[u8]> for String { open spec fn as_ref_rel(&self, r: &[u8]) -> bool { r@ == encode_utf8(self@) } }
impl<T: core::marker::PointeeSized, U: core::marker::PointeeSized> AsRefSpecImpl<U> for &T where T: AsRef<U> { open spec fn as_ref_rel(&self, r: &U) -> bool { (**self).as_ref_rel(r) } }

#[verifier::external_trait_specification]
pub trait ExHasher {
    type ExternalTraitSpecificationFor: core::hash::Hasher;
    // core: `impl Hash for u8` feeds its value with write_u8
    fn write_u8(&mut self, i: u8) ensures wr_u8(old(self), i, final(self));
}
/// hash_u8 as a relation, for the trait's declaration (Self is unsized there)
pub uninterp spec fn wr_u8<H: ?Sized>(o: &H, b: u8, n: &H) -> bool;
pub broadcast axiom fn ax_wr_u8<H>(o: &H, b: u8, n: &H) requires #[trigger] wr_u8(o, b, n) ensures *n == hash_u8(*o, b);
pub assume_specification<H: Hasher> [<u8 as Hash>::hash] (b: &u8, h: &mut H) ensures *final(h) == hash_u8(*old(h), *b);
pub assume_specification [u8::is_ascii_alphanumeric] (b: &u8) -> (r: bool) ensures r == (0x30 <= *b <= 0x39 || 0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a);
pub assume_specification [u8::is_ascii_alphabetic] (b: &u8) -> (r: bool) ensures r == (0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a);
pub assume_specification [u8::is_ascii_digit] (b: &u8) -> (r: bool) ensures r == (0x30 <= *b <= 0x39);
pub assume_specification [u8::is_ascii_uppercase] (b: &u8) -> (r: bool) ensures r == (0x41 <= *b <= 0x5a);

pub assume_specification<'a> [core::fmt::Formatter::<'a>::write_str] (f: &mut core::fmt::Formatter<'a>, s: &str) -> (r: core::fmt::Result)
    ensures r is Ok ==> fmt_out(*final(f)) == fmt_out(*old(f)) + s.spec_bytes();
#[verifier::external_trait_specification]
pub trait ExBorrow<Borrowed: ?Sized> { type ExternalTraitSpecificationFor: core::borrow::Borrow<Borrowed>; fn borrow(&self) -> &Borrowed; }

/// no Rust object is larger than isize::MAX bytes
pub axiom fn ax_slice_len(s: &[u8]) ensures s@.len() <= isize::MAX;
/// indexing a str is what its SliceIndex does, with the same precondition (bounds and char boundaries)
pub broadcast axiom fn ax_str_index<I: core::slice::SliceIndex<str>>(s: &str, i: &I)
    ensures #[trigger] <str as vstd::std_specs::core::IndexSpec<I>>::index_req(s, i) == call_requires(<I as core::slice::SliceIndex<str>>::index, (*i, s));
pub assume_specification<I: core::slice::SliceIndex<str>> [<str as core::ops::Index<I>>::index] (s: &str, i: I) -> (out: &I::Output)
    ensures call_ensures(<I as core::slice::SliceIndex<str>>::index, (i, s), out);
pub assume_specification [core::str::from_utf8_unchecked] (b: &[u8]) -> (r: &str)
    requires valid_utf8(b@),
    ensures r.spec_bytes() == b@;
/// the formatter asks for no padding or truncation
pub uninterp spec fn plain(f: core::fmt::Formatter<'_>) -> bool;
/// formatting text never panics
pub broadcast axiom fn ax_str_fmt(s: &str, f: &core::fmt::Formatter<'_>) ensures #[trigger] <str as vstd::std_specs::fmt::DisplaySpec>::fmt_req(s, f);
pub assume_specification [<str as core::fmt::Display>::fmt] (s: &str, f: &mut core::fmt::Formatter<'_>) -> (r: core::fmt::Result)
    ensures r is Ok && plain(*old(f)) ==> fmt_out(*final(f)) == fmt_out(*old(f)) + s.spec_bytes();
pub assume_specification [<char as core::fmt::Display>::fmt] (c: &char, f: &mut core::fmt::Formatter<'_>) -> (r: core::fmt::Result)
    ensures r is Ok && plain(*old(f)) ==> fmt_out(*final(f)) == fmt_out(*old(f)) + encode_utf8(seq![*c]);
/// values of an enum without fields, as the built-in derives see them
pub trait HasDiscr { spec fn discr(&self) -> isize; }
#[verifier::external_body] pub fn discriminant_value<T: HasDiscr>(v: &T) -> (r: isize) ensures r == v.discr() { unimplemented!() }
pub open spec fn icmp(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub uninterp spec fn hash_isize<H>(h: H, x: isize) -> H;
pub assume_specification<H: Hasher> [<isize as Hash>::hash] (b: &isize, h: &mut H) ensures *final(h) == hash_isize(*old(h), *b);
pub assume_specification [<char as core::fmt::Debug>::fmt] (c: &char, f: &mut core::fmt::Formatter<'_>) -> (r: core::fmt::Result);
/// std's methods of str that are generic over the unstable trait Pattern, for a char and for a str literal
pub open spec fn find_c(s: Seq<u8>, c: u8, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { s.len() as int } else if s[i] == c { i } else { find_c(s, c, i + 1) } }
pub open spec fn rfind_c(s: Seq<u8>, c: u8, e: int) -> int decreases e { if e <= 0 || e > s.len() { -1 } else if s[e - 1] == c { e - 1 } else { rfind_c(s, c, e - 1) } }
pub trait StrX {
    spec fn sx(&self) -> Seq<u8>;
    fn split_once_x(&self, p: char) -> (r: Option<(&str, &str)>)
        ensures p < '\u{80}' ==> ({ let i = find_c(self.sx(), p as u8, 0); match r { Some(t) => i < self.sx().len() && t.0.spec_bytes() == self.sx().take(i) && t.1.spec_bytes() == self.sx().skip(i + 1), None => i >= self.sx().len() } });
    fn rsplit_once_x(&self, p: char) -> (r: Option<(&str, &str)>)
        ensures p < '\u{80}' ==> ({ let i = rfind_c(self.sx(), p as u8, self.sx().len() as int); match r { Some(t) => i >= 0 && t.0.spec_bytes() == self.sx().take(i) && t.1.spec_bytes() == self.sx().skip(i + 1), None => i < 0 } });
    fn find_x(&self, p: char) -> (r: Option<usize>)
        ensures p < '\u{80}' ==> ({ let i = find_c(self.sx(), p as u8, 0); match r { Some(t) => t == i && i < self.sx().len(), None => i >= self.sx().len() } });
    fn rfind_x(&self, p: char) -> (r: Option<usize>)
        ensures p < '\u{80}' ==> ({ let i = rfind_c(self.sx(), p as u8, self.sx().len() as int); match r { Some(t) => t == i && i >= 0, None => i < 0 } });
    fn contains_x(&self, p: char) -> (r: bool)
        ensures p < '\u{80}' ==> r == (find_c(self.sx(), p as u8, 0) < self.sx().len());
    fn starts_with_x(&self, p: char) -> (r: bool)
        ensures p < '\u{80}' ==> r == (self.sx().len() > 0 && self.sx()[0] == p as u8);
    fn ends_with_x(&self, p: char) -> (r: bool)
        ensures p < '\u{80}' ==> r == (self.sx().len() > 0 && self.sx().last() == p as u8);
    fn strip_prefix_x(&self, p: char) -> (r: Option<&str>)
        ensures p < '\u{80}' ==> match r { Some(t) => self.sx().len() > 0 && self.sx()[0] == p as u8 && t.spec_bytes() == self.sx().skip(1), None => !(self.sx().len() > 0 && self.sx()[0] == p as u8) };
    fn strip_suffix_x(&self, p: char) -> (r: Option<&str>)
        ensures p < '\u{80}' ==> match r { Some(t) => self.sx().len() > 0 && self.sx().last() == p as u8 && t.spec_bytes() == self.sx().drop_last(), None => !(self.sx().len() > 0 && self.sx().last() == p as u8) };
    fn contains_s(&self, p: &str) -> (r: bool)
        ensures r == (exists|i: int| #[trigger] occurs(self.sx(), p.spec_bytes(), i));
    fn find_s(&self, p: &str) -> (r: Option<usize>)
        ensures match r { Some(i) => occurs(self.sx(), p.spec_bytes(), i as int) && (forall|j: int| j < i ==> !#[trigger] occurs(self.sx(), p.spec_bytes(), j)), None => forall|j: int| !#[trigger] occurs(self.sx(), p.spec_bytes(), j) };
    fn starts_with_s(&self, p: &str) -> (r: bool) ensures r == occurs(self.sx(), p.spec_bytes(), 0);
    fn ends_with_s(&self, p: &str) -> (r: bool) ensures r == occurs(self.sx(), p.spec_bytes(), self.sx().len() - p.spec_bytes().len());
    fn strip_prefix_s(&self, p: &str) -> (r: Option<&str>)
        ensures match r { Some(t) => occurs(self.sx(), p.spec_bytes(), 0) && t.spec_bytes() == self.sx().skip(p.spec_bytes().len() as int), None => !occurs(self.sx(), p.spec_bytes(), 0) };
}
pub open spec fn occurs(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
impl StrX for str {
    open spec fn sx(&self) -> Seq<u8> { self.spec_bytes() }
    #[verifier::external_body] fn split_once_x(&self, p: char) -> (r: Option<(&str, &str)>) { self.split_once(p) }
    #[verifier::external_body] fn rsplit_once_x(&self, p: char) -> (r: Option<(&str, &str)>) { self.rsplit_once(p) }
    #[verifier::external_body] fn find_x(&self, p: char) -> (r: Option<usize>) { self.find(p) }
    #[verifier::external_body] fn rfind_x(&self, p: char) -> (r: Option<usize>) { self.rfind(p) }
    #[verifier::external_body] fn contains_x(&self, p: char) -> (r: bool) { self.contains(p) }
    #[verifier::external_body] fn starts_with_x(&self, p: char) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body] fn ends_with_x(&self, p: char) -> (r: bool) { self.ends_with(p) }
    #[verifier::external_body] fn strip_prefix_x(&self, p: char) -> (r: Option<&str>) { self.strip_prefix(p) }
    #[verifier::external_body] fn strip_suffix_x(&self, p: char) -> (r: Option<&str>) { self.strip_suffix(p) }
    #[verifier::external_body] fn contains_s(&self, p: &str) -> (r: bool) { self.contains(p) }
    #[verifier::external_body] fn find_s(&self, p: &str) -> (r: Option<usize>) { self.find(p) }
    #[verifier::external_body] fn starts_with_s(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body] fn ends_with_s(&self, p: &str) -> (r: bool) { self.ends_with(p) }
    #[verifier::external_body] fn strip_prefix_s(&self, p: &str) -> (r: Option<&str>) { self.strip_prefix(p) }
}
pub proof fn l_find_dash(s: Seq<u8>, i: int) requires 0 <= i ensures find_c(s, 0x2d, i) == crate::seg::seg_end(s, i) decreases s.len() - i
{ if i < s.len() && s[i] != 0x2d { l_find_dash(s, i + 1); } }
/// every index of an ASCII string is a char boundary
pub proof fn l_ascii_bds(s: Seq<u8>) requires ascii(s) ensures forall|i: int| 0 <= i <= s.len() ==> #[trigger] is_char_boundary(s, i)
{ assert forall|i: int| 0 <= i <= s.len() implies #[trigger] is_char_boundary(s, i) by { l_ascii_bd(s, i); } }
pub axiom fn ax_str_len(s: &str) ensures s.spec_bytes().len() <= isize::MAX;
pub assume_specification [char::from_u32_unchecked] (i: u32) -> (c: char)
    requires i <= 0x10ffff, !(0xd800 <= i <= 0xdfff),
    ensures c as u32 == i;
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
pub assume_specification [String::into_bytes] (s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@);

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: core::str::FromStr; type Err; fn from_str(s: &str) -> Result<Self, Self::Err>; }
pub assume_specification [String::from_utf8_unchecked] (v: Vec<u8>) -> (r: String)
    requires valid_utf8(v@),
    ensures encode_utf8(r@) == v@;
/// the bytes x.into() yields
pub open spec fn into_ok<T: Into<Vec<u8>>>(x: T) -> bool { <T as IntoSpec<Vec<u8>>>::obeys_into_spec() }
pub open spec fn into_bytes_of<T: Into<Vec<u8>>>(x: T) -> Seq<u8> { <T as IntoSpec<Vec<u8>>>::into_spec(x)@ }
/// std: the reflexive `impl From<T> for T` is the identity
pub axiom fn l_into_vec() ensures forall|x: Vec<u8>| #[trigger] into_ok(x), forall|x: Vec<u8>| #[trigger] into_bytes_of(x) == x@;
}
}
