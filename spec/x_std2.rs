// Contracts assumed for further functions of the standard library.  The present tree calls none of
// them: they are the vocabulary a rewritten function may use without leaving the verifier's reach.
pub mod x_std2 {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::sp::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
verus! {
/// the derived equality of Ordering compares the variants
pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool) ensures r == (*a == *b);
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(t) ==> call_requires(f, (t,)),
    ensures match o { Some(t) => call_ensures(f, (t,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    requires o matches Some(t) ==> call_requires(f, (t,)), o is None ==> call_requires(d, ()),
    ensures match o { Some(t) => call_ensures(f, (t,), r), None => call_ensures(d, (), r) };
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(t) ==> call_requires(f, (t,)),
    ensures match o { Some(t) => call_ensures(f, (t,), r), None => !r };
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(t) ==> call_requires(f, (t,)),
    ensures match o { Some(t) => call_ensures(f, (t,), r), None => r };
pub assume_specification<T, F: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o matches Some(t) ==> call_requires(f, (&t,)),
    ensures match o { Some(t) => (r == Some(t) && call_ensures(f, (&t,), true)) || (r is None && call_ensures(f, (&t,), false)), None => r is None };
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> call_requires(f, ()),
    ensures match o { Some(t) => r == Some(t), None => call_ensures(f, (), r) };
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None });
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(t) => Some(*t), None => None });
pub assume_specification<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U> [Result::<T, E>::map_or_else] (o: Result<T, E>, d: D, f: F) -> (r: U)
    requires o matches Ok(t) ==> call_requires(f, (t,)), o matches Err(e) ==> call_requires(d, (e,)),
    ensures match o { Ok(t) => call_ensures(f, (t,), r), Err(e) => call_ensures(d, (e,), r) };
pub assume_specification<T, E, U, F: FnOnce(T) -> U> [Result::<T, E>::map_or] (o: Result<T, E>, d: U, f: F) -> (r: U)
    requires o matches Ok(t) ==> call_requires(f, (t,)),
    ensures match o { Ok(t) => call_ensures(f, (t,), r), Err(e) => r == d };
pub assume_specification<T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (o: Result<T, E>, f: F) -> (r: bool)
    requires o matches Ok(t) ==> call_requires(f, (t,)),
    ensures match o { Ok(t) => call_ensures(f, (t,), r), Err(e) => !r };
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(t) => t, Err(_) => d });
pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else] (o: Result<T, E>, f: F) -> (r: T)
    requires o matches Err(e) ==> call_requires(f, (e,)),
    ensures match o { Ok(t) => r == t, Err(e) => call_ensures(f, (e,), r) };
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o matches Ok(t) ==> call_requires(f, (t,)),
    ensures match o { Ok(t) => call_ensures(f, (t,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>> [Result::<T, E>::or_else] (o: Result<T, E>, f: F) -> (r: Result<T, G>)
    requires o matches Err(e) ==> call_requires(f, (e,)),
    ensures match o { Ok(t) => r == Ok::<T, G>(t), Err(e) => call_ensures(f, (e,), r) };
pub assume_specification<T> [bool::then_some] (b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
pub assume_specification [u8::to_ascii_lowercase] (c: &u8) -> (r: u8) ensures r == lower(*c);
pub assume_specification [u8::to_ascii_uppercase] (c: &u8) -> (r: u8) ensures r == (if 0x61 <= *c <= 0x7a { (*c - 0x20) as u8 } else { *c });
pub assume_specification [u8::eq_ignore_ascii_case] (c: &u8, d: &u8) -> (r: bool) ensures r == (lower(*c) == lower(*d));
pub assume_specification [u8::is_ascii_lowercase] (c: &u8) -> (r: bool) ensures r == (0x61 <= *c <= 0x7a);
pub assume_specification [u8::is_ascii] (c: &u8) -> (r: bool) ensures r == (*c < 0x80);
pub assume_specification [<[u8]>::eq_ignore_ascii_case] (a: &[u8], b: &[u8]) -> (r: bool) ensures r == (lowers(a@) == lowers(b@));
pub assume_specification [str::eq_ignore_ascii_case] (a: &str, b: &str) -> (r: bool) ensures r == (lowers(a.spec_bytes()) == lowers(b.spec_bytes()));
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == (*c < '\u{80}');
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == ('0' <= *c <= '9' || 'A' <= *c <= 'Z' || 'a' <= *c <= 'z');
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == ('A' <= *c <= 'Z' || 'a' <= *c <= 'z');
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c <= '9');
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering) ensures r == (if a == Ordering::Equal { b } else { a });
pub assume_specification<F: FnOnce() -> Ordering> [Ordering::then_with] (a: Ordering, f: F) -> (r: Ordering)
    requires a == Ordering::Equal ==> call_requires(f, ()),
    ensures if a == Ordering::Equal { call_ensures(f, (), r) } else { r == a };
pub assume_specification [Ordering::reverse] (a: Ordering) -> (r: Ordering) ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
pub assume_specification [Ordering::is_eq] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Equal);
pub assume_specification [Ordering::is_ne] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Equal);
pub assume_specification<T> [core::mem::replace::<T>] (d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
pub assume_specification [u8::is_ascii_hexdigit] (c: &u8) -> (r: bool) ensures r == (0x30 <= *c <= 0x39 || 0x41 <= *c <= 0x46 || 0x61 <= *c <= 0x66);
pub assume_specification [u8::is_ascii_graphic] (c: &u8) -> (r: bool) ensures r == (0x21 <= *c <= 0x7e);
pub assume_specification [u8::is_ascii_control] (c: &u8) -> (r: bool) ensures r == (*c < 0x20 || *c == 0x7f);
pub assume_specification [u8::is_ascii_punctuation] (c: &u8) -> (r: bool) ensures r == (0x21 <= *c <= 0x2f || 0x3a <= *c <= 0x40 || 0x5b <= *c <= 0x60 || 0x7b <= *c <= 0x7e);
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char) ensures r == (if 'A' <= *c <= 'Z' { ((*c as u32 + 0x20) as u8) as char } else { *c });
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char) ensures r == (if 'a' <= *c <= 'z' { ((*c as u32 - 0x20) as u8) as char } else { *c });
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == ('A' <= *c <= 'Z');
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == ('a' <= *c <= 'z');
pub assume_specification [char::from_u32] (i: u32) -> (r: Option<char>) ensures r is Some <==> i <= 0x10ffff && !(0xd800 <= i <= 0xdfff), r matches Some(c) ==> c as u32 == i;
pub assume_specification [<char as From<u8>>::from] (c: u8) -> (r: char) ensures r == c as char;
pub assume_specification [<usize as From<bool>>::from] (c: bool) -> (r: usize) ensures r == (if c { 1usize } else { 0usize });
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification<T: Ord> [core::cmp::min::<T>] (a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { b } else { a });
pub assume_specification<T: Ord> [core::cmp::max::<T>] (a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { a } else { b });
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) ensures T::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x));
pub assume_specification<T: Clone> [<[T]>::to_vec] (a: &[T]) -> (r: Vec<T>) ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> vstd::pervasive::cloned(#[trigger] a@[i], r@[i]);
pub assume_specification [<[u8]>::to_ascii_lowercase] (a: &[u8]) -> (r: Vec<u8>) ensures r@ == lowers(a@);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTryFromCharError(core::char::TryFromCharError);
pub assume_specification [<u8 as TryFrom<char>>::try_from] (c: char) -> (r: Result<u8, <u8 as TryFrom<char>>::Error>) ensures r is Ok <==> c as u32 <= 0xff, r matches Ok(b) ==> b as u32 == c as u32;
pub open spec fn upper(c: u8) -> u8 { if 0x61 <= c <= 0x7a { (c - 0x20) as u8 } else { c } }
pub assume_specification [str::to_ascii_uppercase] (a: &str) -> (r: String) ensures encode_utf8(r@) == a.spec_bytes().map_values(|c: u8| upper(c));
pub assume_specification [<[u8]>::to_ascii_uppercase] (a: &[u8]) -> (r: Vec<u8>) ensures r@ == a@.map_values(|c: u8| upper(c));
pub assume_specification [str::to_ascii_lowercase] (a: &str) -> (r: String) ensures encode_utf8(r@) == lowers(a.spec_bytes());
pub assume_specification<I: core::slice::SliceIndex<str>> [str::get::<I>] (s: &str, i: I) -> (r: Option<&I::Output>)
    ensures r is Some <==> call_requires(<I as core::slice::SliceIndex<str>>::index, (i, s)), r matches Some(o) ==> call_ensures(<I as core::slice::SliceIndex<str>>::index, (i, s), o);
pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (match (a, b) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None });
pub assume_specification [Ordering::is_lt] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Less);
pub assume_specification [Ordering::is_le] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Greater);
pub assume_specification [Ordering::is_gt] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Greater);
pub assume_specification [Ordering::is_ge] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Less);
/// state of a hasher after a whole str or slice, of which only that it is a function is known
pub uninterp spec fn hash_str<H>(h: H, s: Seq<u8>) -> H;
pub uninterp spec fn hash_slice<H, T>(h: H, s: Seq<T>) -> H;
pub assume_specification<H: core::hash::Hasher> [<str as core::hash::Hash>::hash] (s: &str, h: &mut H) ensures *final(h) == hash_str(*old(h), s.spec_bytes());
pub assume_specification<T: core::hash::Hash, H: core::hash::Hasher> [<[T] as core::hash::Hash>::hash] (s: &[T], h: &mut H) ensures *final(h) == hash_slice(*old(h), s@);
/// bit operations on letters
pub proof fn l_case_bits(c: u8) ensures 0x41 <= c <= 0x5a ==> c | 0x20 == c + 0x20 && c ^ 0x20 == c + 0x20, 0x61 <= c <= 0x7a ==> c & 0xdf == c - 0x20 && c ^ 0x20 == c - 0x20
{
    assert(0x41 <= c <= 0x5a ==> c | 0x20 == c + 0x20 && c ^ 0x20 == c + 0x20) by (bit_vector);
    assert(0x61 <= c <= 0x7a ==> c & 0xdf == c - 0x20 && c ^ 0x20 == c - 0x20) by (bit_vector);
}
}
}
