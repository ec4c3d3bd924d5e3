//! One executable reading of every property, on concrete inputs.
use crate::generate::*;
use crate::oracle as o;
use langtag::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

pub type R = Result<(), String>;
pub type Case = Vec<Vec<u8>>;
pub fn show(b: &[u8]) -> String { b.escape_ascii().to_string() }
macro_rules! ck { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } } }

/// records the exact sequence of calls a value makes on a hasher
#[derive(Default, PartialEq, Debug)]
pub struct Rec(Vec<(u8, Vec<u8>)>);
impl Hasher for Rec {
	fn finish(&self) -> u64 { 0 }
	fn write(&mut self, b: &[u8]) { self.0.push((0, b.to_vec())) }
	fn write_u8(&mut self, i: u8) { self.0.push((1, vec![i])) }
	fn write_u16(&mut self, i: u16) { self.0.push((2, i.to_le_bytes().to_vec())) }
	fn write_u32(&mut self, i: u32) { self.0.push((3, i.to_le_bytes().to_vec())) }
	fn write_u64(&mut self, i: u64) { self.0.push((4, i.to_le_bytes().to_vec())) }
	fn write_usize(&mut self, i: usize) { self.0.push((5, i.to_le_bytes().to_vec())) }
}
pub fn rec<T: Hash + ?Sized>(x: &T) -> Rec { let mut h = Rec::default(); x.hash(&mut h); h }

#[derive(Debug)]
pub struct SErr(String);
impl std::fmt::Display for SErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl std::error::Error for SErr {}
impl serde::ser::Error for SErr { fn custom<T: std::fmt::Display>(m: T) -> Self { SErr(m.to_string()) } }
/// accepts only plain strings
pub struct Ser(pub bool);
macro_rules! no { ($($f:ident($($t:ty),*);)*) => { $(fn $f(self $(, _: $t)*) -> Result<String, SErr> { Err(SErr(stringify!($f).into())) })* } }
impl serde::Serializer for Ser {
	type Ok = String; type Error = SErr;
	type SerializeSeq = serde::ser::Impossible<String, SErr>; type SerializeTuple = serde::ser::Impossible<String, SErr>;
	type SerializeTupleStruct = serde::ser::Impossible<String, SErr>; type SerializeTupleVariant = serde::ser::Impossible<String, SErr>;
	type SerializeMap = serde::ser::Impossible<String, SErr>; type SerializeStruct = serde::ser::Impossible<String, SErr>;
	type SerializeStructVariant = serde::ser::Impossible<String, SErr>;
	fn is_human_readable(&self) -> bool { self.0 }
	fn serialize_str(self, v: &str) -> Result<String, SErr> { Ok(v.to_string()) }
	no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
		serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
	fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<String, SErr> { Err(SErr("some".into())) }
	fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<String, SErr> { Err(SErr("newtype_struct".into())) }
	fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, SErr> { Err(SErr("newtype_variant".into())) }
	fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SErr> { Err(SErr("seq".into())) }
	fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, SErr> { Err(SErr("tuple".into())) }
	fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, SErr> { Err(SErr("tuple".into())) }
	fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SErr> { Err(SErr("tuple".into())) }
	fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SErr> { Err(SErr("map".into())) }
	fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SErr> { Err(SErr("struct".into())) }
	fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SErr> { Err(SErr("struct".into())) }
}

/// hands out one string, as text or binary format
pub struct De<'a>(pub &'a str, pub bool, pub bool);
impl<'de> serde::Deserializer<'de> for De<'de> {
	type Error = serde::de::value::Error;
	fn is_human_readable(&self) -> bool { self.1 }
	fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> { if self.2 { v.visit_borrowed_str(self.0) } else { v.visit_str(self.0) } }
	serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
pub struct TypeOps {
	pub name: &'static str, pub valid: fn(&[u8]) -> bool,
	pub accept: fn(&[u8]) -> R, pub content: fn(&[u8]) -> R, pub pair_eq: fn(&[u8], &[u8]) -> R, pub pair_ord: fn(&[u8], &[u8]) -> R,
	pub pair_hash: fn(&[u8], &[u8]) -> R, pub coherent: fn(&[u8], &[u8]) -> R, pub serde: fn(&[u8]) -> R,
}
macro_rules! types { ($($X:ident $B:ident $as:ident $E:ident $ok:path;)*) => { pub const TYPES: &[TypeOps] = &[$({
	fn val(b: &[u8]) -> Option<(&$X, $B)> { if !$ok(b) { return None; } let s = std::str::from_utf8(b).ok()?; Some(($X::new(s).ok()?, $B::new(s.to_string()).ok()?)) }
	fn accept(b: &[u8]) -> R {
		let v = $ok(b); let n = stringify!($X);
		let w = if v { "well-formed" } else { "not well-formed" };
		ck!($X::new(b).is_ok() == v, "{n}::new(bytes \"{}\") is {:?} but the text is {w}", show(b), $X::new(b).is_ok());
		ck!($X::from_bytes(b).is_ok() == v, "{n}::from_bytes(\"{}\"), {w}", show(b));
		ck!($X::new(b.to_vec().as_slice()).is_ok() == v, "{n}::new(slice \"{}\"), {w}", show(b));
		ck!(<&$X>::try_from(b).is_ok() == v, "TryFrom<&[u8]> for &{n} of \"{}\", {w}", show(b));
		ck!($X::validate_bytes(b) == v, "{n}::validate_bytes(\"{}\"), {w}", show(b));
		ck!($B::new(b.to_vec()).is_ok() == v, "{n}Buf::new(Vec \"{}\"), {w}", show(b));
		ck!($B::from_bytes(b.to_vec()).is_ok() == v, "{n}Buf::from_bytes(\"{}\"), {w}", show(b));
		ck!($B::try_from(b.to_vec()).is_ok() == v, "TryFrom<Vec<u8>> for {n}Buf of \"{}\", {w}", show(b));
		if let Ok(s) = std::str::from_utf8(b) {
			ck!($X::new(s).is_ok() == v, "{n}::new(\"{s}\"), {w}");
			ck!($X::new(&s.to_string()).is_ok() == v, "{n}::new(&String \"{s}\"), {w}");
			ck!($X::from_str(s).is_ok() == v, "{n}::from_str(\"{s}\"), {w}");
			ck!(<&$X>::try_from(s).is_ok() == v, "TryFrom<&str> for &{n} of \"{s}\", {w}");
			ck!($X::validate_str(s) == v, "{n}::validate_str(\"{s}\"), {w}");
			ck!($B::new(s.to_string()).is_ok() == v, "{n}Buf::new(String \"{s}\"), {w}");
			ck!($B::from_string(s.to_string()).is_ok() == v, "{n}Buf::from_string(\"{s}\"), {w}");
			ck!($B::try_from(s.to_string()).is_ok() == v, "TryFrom<String> for {n}Buf of \"{s}\", {w}");
			ck!(s.parse::<$B>().is_ok() == v, "FromStr for {n}Buf of \"{s}\", {w}");
		}
		Ok(())
	}
	fn same(n: &str, x: &$X, b: &[u8]) -> R {
		ck!(x.as_bytes() == b, "{n}: as_bytes of \"{}\" is \"{}\"", show(b), show(x.as_bytes()));
		ck!(x.as_str().as_bytes() == b, "{n}: as_str of \"{}\"", show(b));
		ck!(AsRef::<[u8]>::as_ref(x) == b, "{n}: AsRef<[u8]> of \"{}\"", show(b));
		ck!(AsRef::<str>::as_ref(x).as_bytes() == b, "{n}: AsRef<str> of \"{}\"", show(b));
		ck!(AsRef::<$X>::as_ref(x).as_bytes() == b, "{n}: AsRef<Self> of \"{}\"", show(b));
		ck!(Borrow::<str>::borrow(x).as_bytes() == b, "{n}: Borrow<str> of \"{}\"", show(b));
		ck!(<&str>::from(x).as_bytes() == b, "{n}: From for &str of \"{}\"", show(b));
		ck!(<&[u8]>::from(x) == b, "{n}: From for &[u8] of \"{}\"", show(b));
		ck!(x.to_string().as_bytes() == b, "{n}: Display of \"{}\" is {:?}", show(b), x.to_string());
		ck!(format!("{x:?}").as_bytes() == b, "{n}: Debug of \"{}\" is {:?}", show(b), format!("{x:?}"));
		ck!(format!("{x:-^30}|{x:?}").as_bytes().ends_with(b), "{n}: formatting \"{}\" with options", show(b));
		ck!(x.to_owned().as_bytes() == b, "{n}: to_owned of \"{}\"", show(b));
		ck!(b.is_ascii(), "{n}: \"{}\" is not ASCII", show(b));
		Ok(())
	}
	fn owned(n: &str, x: $B, b: &[u8]) -> R {
		ck!(x.as_bytes() == b, "{n}Buf: as_bytes of \"{}\" is \"{}\"", show(b), show(x.as_bytes()));
		ck!(x.as_str().as_bytes() == b, "{n}Buf: as_str of \"{}\"", show(b));
		ck!(AsRef::<[u8]>::as_ref(&x) == b && AsRef::<str>::as_ref(&x).as_bytes() == b && AsRef::<$X>::as_ref(&x).as_bytes() == b, "{n}Buf: AsRef of \"{}\"", show(b));
		ck!(x.to_string().as_bytes() == b, "{n}Buf: Display of \"{}\" is {:?}", show(b), x.to_string());
		ck!(format!("{x:?}").as_bytes() == b, "{n}Buf: Debug of \"{}\" is {:?}", show(b), format!("{x:?}"));
		ck!(x.clone().as_bytes() == b, "{n}Buf: clone of \"{}\"", show(b));
		ck!(x.clone().into_string().as_bytes() == b, "{n}Buf: into_string of \"{}\"", show(b));
		ck!(x.clone().into_bytes() == b, "{n}Buf: into_bytes of \"{}\"", show(b));
		ck!(String::from(x.clone()).as_bytes() == b, "{n}Buf: Into<String> of \"{}\"", show(b));
		ck!(Vec::<u8>::from(x.clone()) == b, "{n}Buf: Into<Vec<u8>> of \"{}\"", show(b));
		ck!(x.$as().as_bytes() == b, "{n}Buf: as_ of \"{}\"", show(b));
		let q: &$X = x.borrow(); ck!(q.as_bytes() == b, "{n}Buf: Borrow of \"{}\"", show(b));
		let q: &$X = &x; same(n, q, b)
	}
	fn content(b: &[u8]) -> R {
		let n = stringify!($X);
		macro_rules! bor { ($e:expr, $i:expr) => { match $e { Ok(x) => same(n, x, b)?, Err($E(p)) => { let p: &[u8] = p.as_ref(); ck!(p == b && p.as_ptr() == b.as_ptr(), "{n}: {} of \"{}\" returns \"{}\" in its error", $i, show(b), show(p)) } } } }
		macro_rules! own { ($e:expr, $i:expr) => { match $e { Ok(x) => owned(n, x, b)?, Err($E(p)) => { let p: Vec<u8> = p.into(); ck!(p == b, "{n}Buf: {} of \"{}\" returns \"{}\" in its error", $i, show(b), show(&p)) } } } }
		if !$ok(b) {
			// everything wrongly accepted here is P01's or P02's concern
			if $X::new(b).is_ok() { return Ok(()); }
		}
		bor!($X::new(b), "new"); bor!($X::from_bytes(b), "from_bytes"); bor!(<&$X>::try_from(b), "try_from");
		own!($B::new(b.to_vec()), "new"); own!($B::from_bytes(b.to_vec()), "from_bytes"); own!($B::try_from(b.to_vec()), "try_from");
		if let Ok(s) = std::str::from_utf8(b) {
			bor!($X::new(s), "new"); bor!($X::from_str(s), "from_str"); bor!(<&$X>::try_from(s), "try_from");
			own!($B::new(s.to_string()), "new"); own!($B::from_string(s.to_string()), "from_string"); own!($B::try_from(s.to_string()), "try_from"); own!(s.parse::<$B>(), "parse");
			if $ok(b) { unsafe { same(n, $X::new_unchecked(s), b)?; same(n, $X::new_unchecked_from_bytes(b), b)?; owned(n, $B::new_unchecked(b.to_vec()), b)?; } }
		}
		Ok(())
	}
	fn pair_eq(a: &[u8], b: &[u8]) -> R {
		let n = stringify!($X);
		let Some((x, xb)) = val(a) else { return Ok(()) };
		let e = a.to_ascii_lowercase() == b.to_ascii_lowercase();
		let d = || format!("\"{}\" and \"{}\"", show(a), show(b));
		if let Some((y, yb)) = val(b) {
			ck!((x == y) == e && (x != y) != e, "{n}: equality of {} should be {e}", d());
			ck!((xb == yb) == e && (xb != yb) != e, "{n}Buf: equality of {} should be {e}", d());
			ck!((xb == *y) == e && (xb == y) == e && (*y == xb) == e && (y == xb) == e && (xb != *y) != e && (xb != y) != e, "{n}Buf against {n}: equality of {} should be {e}", d());
		}
		ck!((*x == *b) == e && (*x == b) == e && (*b == *x) == e && (b == *x) == e && (*x == b.to_vec()) == e && (b.to_vec() == *x) == e && (*x != *b) != e, "{n} against bytes: equality of {} should be {e}", d());
		ck!((xb == *b) == e && (xb == b) == e && (*b == xb) == e && (b == xb) == e && (xb == b.to_vec()) == e && (b.to_vec() == xb) == e, "{n}Buf against bytes: equality of {} should be {e}", d());
		if let Ok(s) = std::str::from_utf8(b) {
			ck!((*x == *s) == e && (*x == s) == e && (*s == *x) == e && (s == *x) == e && (*x == s.to_string()) == e && (s.to_string() == *x) == e, "{n} against text: equality of {} should be {e}", d());
			ck!((xb == *s) == e && (xb == s) == e && (*s == xb) == e && (s == xb) == e && (xb == s.to_string()) == e && (s.to_string() == xb) == e, "{n}Buf against text: equality of {} should be {e}", d());
		}
		Ok(())
	}
	fn pair_ord(a: &[u8], b: &[u8]) -> R {
		let n = stringify!($X);
		let Some((x, xb)) = val(a) else { return Ok(()) };
		let c = o::cmp(a, b);
		let d = || format!("\"{}\" and \"{}\"", show(a), show(b));
		if let Some((y, yb)) = val(b) {
			ck!(x.cmp(y) == c, "{n}: cmp of {} is {:?}, should be {c:?}", d(), x.cmp(y));
			ck!(y.cmp(x) == c.reverse(), "{n}: cmp of {} is not antisymmetric", d());
			ck!(x.partial_cmp(y) == Some(c), "{n}: partial_cmp of {} is {:?}, should be {c:?}", d(), x.partial_cmp(y));
			ck!((x < y) == (c == Ordering::Less) && (x <= y) == (c != Ordering::Greater) && (x > y) == (c == Ordering::Greater) && (x >= y) == (c != Ordering::Less), "{n}: comparison operators on {}", d());
			ck!((x == y) == (c == Ordering::Equal), "{n}: {} equality and order disagree", d());
			ck!(xb.cmp(&yb) == c && xb.partial_cmp(&yb) == Some(c), "{n}Buf: comparison of {} should be {c:?}", d());
			ck!((xb < yb) == (c == Ordering::Less) && (xb <= yb) == (c != Ordering::Greater) && (xb > yb) == (c == Ordering::Greater) && (xb >= yb) == (c != Ordering::Less) && (xb < *y) == (c == Ordering::Less) && (*x < yb) == (c == Ordering::Less), "{n}Buf: comparison operators on {}", d());
			let (lo, hi) = if c == Ordering::Greater { (b, a) } else { (a, b) };
			ck!(xb.clone().max(yb.clone()).as_bytes() == hi && xb.clone().min(yb.clone()).as_bytes() == lo && std::cmp::max(x, y).as_bytes() == hi && std::cmp::min(x, y).as_bytes() == lo, "{n}: max or min of {}", d());
			if c != Ordering::Greater { ck!(xb.clone().clamp(xb.clone(), yb.clone()) == xb && yb.clone().clamp(xb.clone(), yb.clone()) == yb, "{n}Buf: clamp of {}", d()); }
			ck!(xb.partial_cmp(y) == Some(c) && xb.partial_cmp(&y) == Some(c), "{n}Buf against {n}: comparison of {} should be {c:?}", d());
			ck!((*y).partial_cmp(&xb) == Some(c.reverse()) && y.partial_cmp(&xb) == Some(c.reverse()), "{n} against {n}Buf: comparison of {}", d());
		}
		let p = $ok(b).then_some(c); let q = p.map(Ordering::reverse);
		ck!((*x).partial_cmp(b) == p && (*x).partial_cmp(&b) == p && (*x).partial_cmp(&b.to_vec()) == p, "{n} against bytes: comparison of {} should be {p:?}", d());
		ck!((*b).partial_cmp(x) == q && b.partial_cmp(x) == q && b.to_vec().partial_cmp(x) == q, "bytes against {n}: comparison of {} should be the reverse of {p:?}", d());
		ck!(xb.partial_cmp(b) == p && xb.partial_cmp(&b) == p && xb.partial_cmp(&b.to_vec()) == p, "{n}Buf against bytes: comparison of {} should be {p:?}", d());
		ck!((*b).partial_cmp(&xb) == q && b.partial_cmp(&xb) == q && b.to_vec().partial_cmp(&xb) == q, "bytes against {n}Buf: comparison of {}", d());
		if let Ok(s) = std::str::from_utf8(b) {
			ck!((*x).partial_cmp(s) == p && (*x).partial_cmp(&s) == p && (*x).partial_cmp(&s.to_string()) == p, "{n} against text: comparison of {} should be {p:?}", d());
			ck!((*s).partial_cmp(x) == q && s.partial_cmp(x) == q && s.to_string().partial_cmp(x) == q, "text against {n}: comparison of {}", d());
			ck!(xb.partial_cmp(s) == p && xb.partial_cmp(&s) == p && xb.partial_cmp(&s.to_string()) == p, "{n}Buf against text: comparison of {} should be {p:?}", d());
			ck!((*s).partial_cmp(&xb) == q && s.partial_cmp(&xb) == q && s.to_string().partial_cmp(&xb) == q, "text against {n}Buf: comparison of {}", d());
		}
		Ok(())
	}
	fn pair_hash(a: &[u8], b: &[u8]) -> R {
		let n = stringify!($X);
		let (Some((x, xb)), Some((y, yb))) = (val(a), val(b)) else { return Ok(()) };
		ck!(rec(x) == rec(&xb) && rec(&&*x) == rec(x), "{n}: borrowed and owned \"{}\" hash differently", show(a));
		let mut m = std::collections::HashMap::new(); m.insert(xb.clone(), 1);
		let e = a.to_ascii_lowercase() == b.to_ascii_lowercase();
		ck!(m.contains_key(y) == e, "{n}: looking \"{}\" up in a map holding \"{}\" gives {}", show(b), show(a), !e);
		if x == y || xb == yb || e { ck!(rec(x) == rec(y) && rec(&xb) == rec(&yb) && rec(x) == rec(&yb), "{n}: \"{}\" and \"{}\" are equal but hash differently", show(a), show(b)); }
		Ok(())
	}
	fn coherent(b: &[u8], d: &[u8]) -> R {
		one_form(b)?;
		let (n, Some((x, xb)), Some((y, yb))) = (stringify!($X), val(b), val(d)) else { return Ok(()) };
		let c = x.cmp(y); let e = x == y;
		ck!(xb.cmp(&yb) == c && xb.partial_cmp(&yb) == x.partial_cmp(y), "{n}: \"{}\" and \"{}\" are ordered {c:?} when borrowed and {:?} when owned", show(b), show(d), xb.cmp(&yb));
		ck!(PartialOrd::partial_cmp(&xb, y) == x.partial_cmp(y) && PartialOrd::partial_cmp(x, &yb) == x.partial_cmp(y), "{n}: \"{}\" and \"{}\" are ordered differently when one of them is owned", show(b), show(d));
		ck!((xb == yb) == e && (xb == *y) == e && (*x == yb) == e, "{n}: \"{}\" and \"{}\" are equal in one form and not in another", show(b), show(d));
		ck!((rec(&xb) == rec(&yb)) == (rec(x) == rec(y)), "{n}: \"{}\" and \"{}\" hash equally in one form and not in the other", show(b), show(d));
		Ok(())
	}
	fn one_form(b: &[u8]) -> R {
		let n = stringify!($X);
		let Some((x, xb)) = val(b) else { return Ok(()) };
		let vs: [$B; 4] = [x.to_owned(), xb.clone(), ToOwned::to_owned(xb.$as()), $B::from_string(xb.clone().into_string()).map_err(|_| format!("{n}Buf: into_string then from_string of \"{}\"", show(b)))?];
		for v in &vs {
			let d: &$X = v; let w: &$X = v.borrow(); let z: &$X = v.as_ref();
			for y in [d, w, z, v.$as()] {
				ck!(y.as_bytes() == b && y == x && *v == *y && *v == y && y.cmp(x) == Ordering::Equal && rec(y) == rec(x) && rec(v) == rec(x), "{n}: a view of the owned \"{}\" differs (\"{}\")", show(b), show(y.as_bytes()));
				ck!($X::validate_bytes(y.as_bytes()), "{n}: a view of the owned \"{}\" is not well-formed", show(b));
			}
			ck!(v.as_bytes() == b && v.as_str().as_bytes() == b && String::from(v.clone()).as_bytes() == b && Vec::<u8>::from(v.clone()) == b && v.clone().into_bytes() == b, "{n}Buf: \"{}\" changed", show(b));
			ck!(v.to_string() == x.to_string() && format!("{v:?}") == format!("{x:?}"), "{n}: owned and borrowed \"{}\" format differently", show(b));
			let mut cf = v.clone(); cf.clone_from(&xb); let mut co = v.clone(); x.clone_into(&mut co);
			ck!(cf.as_bytes() == b && co.as_bytes() == b, "{n}Buf: clone_from or clone_into of \"{}\"", show(b));
			ck!(v.cmp(&xb) == Ordering::Equal && *v == xb, "{n}Buf: a copy of \"{}\" is not equal to it", show(b));
		}
		Ok(())
	}
	fn serde(b: &[u8]) -> R {
		use serde::de::{value::*, Deserialize, IntoDeserializer}; use serde::Serialize;
		let n = stringify!($X); let v = $ok(b);
		if let Some((x, xb)) = val(b) {
			for hr in [true, false] {
				ck!(x.serialize(Ser(hr)).is_ok_and(|s| s.as_bytes() == b), "{n}: \"{}\" serializes as {:?}", show(b), x.serialize(Ser(hr)));
				ck!(xb.serialize(Ser(hr)).is_ok_and(|s| s.as_bytes() == b), "{n}Buf: \"{}\" serializes as {:?}", show(b), xb.serialize(Ser(hr)));
			}
		}
		if let Ok(s) = std::str::from_utf8(b) {
			type E = serde::de::value::Error;
			let r: Result<&$X, E> = Deserialize::deserialize(BorrowedStrDeserializer::new(s));
			ck!(r.as_ref().map(|x| x.as_str()).ok() == v.then_some(s), "{n}: deserializing \"{s}\" gives {:?}", r.map(|x| x.as_str().to_string()));
			let d: StringDeserializer<E> = s.to_string().into_deserializer(); let r = $B::deserialize(d);
			ck!(r.as_ref().map(|x| x.as_str()).ok() == v.then_some(s), "{n}Buf: deserializing \"{s}\" gives {:?}", r.map(|x| x.into_string()));
			let d: StrDeserializer<E> = s.into_deserializer(); let r = $B::deserialize(d);
			ck!(r.as_ref().map(|x| x.as_str()).ok() == v.then_some(s), "{n}Buf: deserializing \"{s}\" gives {:?}", r.map(|x| x.into_string()));
			for hr in [true, false] {
				let r = <&$X>::deserialize(De(s, hr, true));
				ck!(r.as_ref().map(|x| x.as_str()).ok() == v.then_some(s), "{n}: deserializing \"{s}\" (human readable: {hr}) gives {:?}", r.map(|x| x.as_str().to_string()));
				for bo in [true, false] {
					let r = $B::deserialize(De(s, hr, bo));
					ck!(r.as_ref().map(|x| x.as_str()).ok() == v.then_some(s), "{n}Buf: deserializing \"{s}\" (human readable: {hr}) gives {:?}", r.map(|x| x.into_string()));
				}
			}
			let r: Result<$B, E> = Deserialize::deserialize(BorrowedStrDeserializer::new(s));
			ck!(r.as_ref().map(|x| x.as_str()).ok() == v.then_some(s), "{n}Buf: deserializing \"{s}\" gives {:?}", r.map(|x| x.into_string()));
		}
		Ok(())
	}
	TypeOps { name: stringify!($X), valid: $ok, accept, content, pair_eq, pair_ord, pair_hash, coherent, serde }
}),*]; } }
types! {
	LangTag LangTagBuf as_lang_tag InvalidLangTag o::language_tag;
	NormalLangTag NormalLangTagBuf as_normal_lang_tag InvalidNormalLangTag o::langtag;
	Extension ExtensionBuf as_extension InvalidExtension o::extension;
	Extensions ExtensionsBuf as_extensions InvalidExtensions o::extensions;
	ExtensionSubtag ExtensionSubtagBuf as_extension_subtag InvalidExtensionSubtag o::ext_subtag;
	Language LanguageBuf as_language InvalidLanguage o::language;
	LanguageExtension LanguageExtensionBuf as_language_extension InvalidLanguageExtension o::extlang;
	ExtendedLangTag ExtendedLangTagBuf as_extended_lang_tag InvalidExtendedLangTag o::extlang_tag;
	PrimaryLanguage PrimaryLanguageBuf as_primary_language InvalidPrimaryLanguage o::primary;
	PrivateUse PrivateUseBuf as_private_use InvalidPrivateUse o::privateuse;
	PrivateUseSubtag PrivateUseSubtagBuf as_private_use_subtag InvalidPrivateUseSubtag o::pu_subtag;
	Region RegionBuf as_region InvalidRegion o::region;
	Script ScriptBuf as_script InvalidScript o::script;
	Variant VariantBuf as_variant InvalidVariant o::variant;
	Variants VariantsBuf as_variants InvalidVariants o::variants;
}

fn opt(n: &str, of: &[u8], got: Option<&[u8]>, want: Option<&[u8]>) -> R {
	ck!(got == want, "{n} of \"{}\" is {:?}, should be {:?}", show(of), got.map(show), want.map(show)); Ok(())
}
/// steps an iterator to its end and beyond, with a bound
fn drain<'a, T: ?Sized + 'a>(n: &str, of: &[u8], mut it: impl Iterator<Item = &'a T>, f: impl Fn(&'a T) -> &'a [u8], want: &[Vec<u8>], ok: fn(&[u8]) -> bool) -> R {
	let mut got = vec![];
	for _ in 0..want.len() + 3 { if let Some(x) = it.next() { got.push(f(x)) } }
	ck!(got.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == want, "{n} of \"{}\" yields {:?}, should yield {:?}", show(of), got.iter().map(|x| show(x)).collect::<Vec<_>>(), want.iter().map(|x| show(x)).collect::<Vec<_>>());
	for g in &got { ck!(ok(g), "{n} of \"{}\" yields the ill-formed \"{}\"", show(of), show(g)); }
	ck!(it.next().is_none() && it.next().is_none(), "{n} of \"{}\" yields more after its end", show(of));
	Ok(())
}
/// what every consuming adaptor must agree on, from the start and from any later point
fn adaptors<'a, T: ?Sized + 'a, I: Iterator<Item = &'a T>>(n: &str, of: &[u8], mk: impl Fn() -> I, f: impl Fn(&'a T) -> &'a [u8] + Copy, want: &[Vec<u8>], ok: fn(&[u8]) -> bool) -> R {
	consume(n, of, &mk, f, want, ok)?;
	for k in 1..=want.len() + 1 {
		if k > 4 && k < want.len() { continue }
		consume(&format!("{n}, {k} steps on,"), of, &|| { let mut i = mk(); for _ in 0..k { i.next(); } i }, f, &want[k.min(want.len())..], ok)?;
	}
	Ok(())
}
/// the same for an iterator with two ends, advanced from both
fn both_ends<'a, T: ?Sized + 'a, I: DoubleEndedIterator<Item = &'a T>>(n: &str, of: &[u8], mk: impl Fn() -> I, f: impl Fn(&'a T) -> &'a [u8] + Copy, want: &[Vec<u8>], ok: fn(&[u8]) -> bool) -> R {
	for j in 0..=want.len().min(4) + 1 { for k in 0..=want.len().min(4) + 1 {
		if j + k > want.len() + 1 { continue }
		let adv = || { let mut i = mk(); for _ in 0..j { i.next(); } for _ in 0..k { i.next_back(); } i };
		let (lo, hi) = (j.min(want.len()), want.len().saturating_sub(k)); let w = if lo < hi { &want[lo..hi] } else { &[][..] };
		let n = format!("{n}, {j} front and {k} back steps on,");
		consume(&n, of, &adv, f, w, ok)?;
		let r: Vec<Vec<u8>> = w.iter().rev().cloned().collect();
		consume(&format!("{n} reversed,"), of, &|| adv().rev(), f, &r, ok)?;
		for m in 0..w.len() + 2 { if m > 4 { break } let mut i = adv(); ck!(i.nth_back(m).map(f).map(|x| x.to_vec()) == r.get(m).cloned() && i.next_back().map(f).map(|x| x.to_vec()) == r.get(m + 1).cloned(), "{n} of \"{}\": nth_back({m})", show(of)); }
		ck!(adv().rfold(vec![], |mut l, x| { l.push(f(x).to_vec()); l }) == r, "{n} of \"{}\": rfold", show(of));
		for x in &r { ck!(adv().rfind(|y| f(y) == &x[..]).map(f) == Some(&x[..]), "{n} of \"{}\": rfind", show(of)); }
	} }
	Ok(())
}
fn consume<'a, T: ?Sized + 'a, I: Iterator<Item = &'a T>>(n: &str, of: &[u8], mk: &dyn Fn() -> I, f: impl Fn(&'a T) -> &'a [u8] + Copy, want: &[Vec<u8>], ok: fn(&[u8]) -> bool) -> R {
	drain(n, of, mk(), f, want, ok)?;
	let lim = want.len() + 3;
	ck!(mk().take(lim).count() == want.len() && mk().count() == want.len(), "{n} of \"{}\": count", show(of));
	ck!(mk().last().map(f).map(|x| x.to_vec()) == want.last().cloned(), "{n} of \"{}\": last", show(of));
	for k in 0..want.len() + 2 { ck!(mk().nth(k).map(f).map(|x| x.to_vec()) == want.get(k).cloned(), "{n} of \"{}\": nth({k})", show(of)); if k > 6 { break } }
	let mut it = mk();
	for k in 0..=want.len() + 2 { let (lo, hi) = it.size_hint(); let left = want.len().saturating_sub(k); ck!(lo <= left && hi.is_none_or(|h| h >= left), "{n} of \"{}\": size_hint {:?} after {k} steps", show(of), (lo, hi)); it.next(); }
	for k in 0..want.len().min(6) {
		let mut i = mk(); i.nth(k); ck!(i.next().map(f).map(|x| x.to_vec()) == want.get(k + 1).cloned(), "{n} of \"{}\": next after nth({k})", show(of));
		let mut i = mk(); let w = &want[k]; ck!(i.position(|x| f(x) == &w[..]) == want.iter().position(|x| x == w) && mk().find(|x| f(x) == &w[..]).map(f).map(|x| x.to_vec()).as_ref() == Some(w), "{n} of \"{}\": position or find", show(of));
		let mut l = mk().skip(k); ck!(l.next().map(f).map(|x| x.to_vec()).as_ref() == Some(w), "{n} of \"{}\": skip({k})", show(of));
	}
	ck!(mk().fold(vec![], |mut v, x| { v.push(f(x).to_vec()); v }) == want && mk().map(|x| f(x).to_vec()).collect::<Vec<_>>() == want, "{n} of \"{}\": fold or collect", show(of));
	let mut all = vec![]; mk().for_each(|x| all.push(f(x).to_vec()));
	ck!(all == want, "{n} of \"{}\": for_each", show(of));
	Ok(())
}
fn pieces(b: &[u8]) -> Vec<Vec<u8>> { if b.is_empty() { vec![] } else { o::segs(b).iter().map(|s| s.to_vec()).collect() } }
fn pu_pieces(b: &[u8]) -> Vec<Vec<u8>> { pieces(b)[1..].to_vec() }

fn p04(b: &[u8]) -> R {
	let Some(p) = o::decomp(b) else { return Ok(()) };
	let Ok(t) = NormalLangTag::new(b) else { return Ok(()) };
	opt("language", b, Some(t.language().as_bytes()), Some(&p.language))?;
	opt("script", b, t.script().map(|x| x.as_bytes()), p.script.as_deref())?;
	opt("region", b, t.region().map(|x| x.as_bytes()), p.region.as_deref())?;
	opt("variants", b, Some(t.variants().as_bytes()), Some(&p.variants))?;
	opt("extensions", b, Some(t.extensions().as_bytes()), Some(&p.extensions))?;
	opt("private use", b, t.private_use().map(|x| x.as_bytes()), p.private_use.as_deref())?;
	drain("private use subtags", b, t.private_use_subtags(), |x| x.as_bytes(), &p.private_use.as_deref().map(pu_pieces).unwrap_or_default(), o::pu_subtag)?;
	ck!(o::language(t.language().as_bytes()) && t.script().is_none_or(|x| o::script(x.as_bytes())) && t.region().is_none_or(|x| o::region(x.as_bytes())) && o::variants(t.variants().as_bytes()) && o::extensions(t.extensions().as_bytes()) && t.private_use().is_none_or(|x| o::privateuse(x.as_bytes())), "a component of \"{}\" is ill-formed", show(b));
	let mut parts = vec![t.language().as_bytes()]; parts.extend(t.script().map(|x| x.as_bytes())); parts.extend(t.region().map(|x| x.as_bytes()));
	if !t.variants().as_bytes().is_empty() { parts.push(t.variants().as_bytes()) } if !t.extensions().as_bytes().is_empty() { parts.push(t.extensions().as_bytes()) } parts.extend(t.private_use().map(|x| x.as_bytes()));
	ck!(parts.join(&b'-') == b, "the components of \"{}\" do not join to it", show(b));
	Ok(())
}
fn grand_language(b: &[u8]) -> Option<Vec<u8>> { let i = o::grandfathered(b)?; o::GRANDFATHERED[i].1.then(|| o::segs(o::GRANDFATHERED[i].0.as_bytes())[0].to_vec()) }
fn p05(b: &[u8]) -> R {
	if !o::language_tag(b) { return Ok(()); }
	let Ok(t) = LangTag::new(b) else { return Ok(()) };
	let tb = t.to_owned();
	for t in [t, &*tb] {
		let ty = t.as_typed();
		if o::langtag(b) {
			let Ok(n) = NormalLangTag::new(b) else { return Ok(()) };
			opt("LangTag::language", b, t.language().map(|x| x.as_bytes()), Some(n.language().as_bytes()))?;
			opt("TypedLangTag::language", b, ty.language().map(|x| x.as_bytes()), Some(n.language().as_bytes()))?;
			opt("LangTag::script", b, t.script().map(|x| x.as_bytes()), n.script().map(|x| x.as_bytes()))?;
			opt("LangTag::region", b, t.region().map(|x| x.as_bytes()), n.region().map(|x| x.as_bytes()))?;
			opt("LangTag::variants", b, Some(t.variants().as_bytes()), Some(n.variants().as_bytes()))?;
			opt("LangTag::extensions", b, Some(t.extensions().as_bytes()), Some(n.extensions().as_bytes()))?;
			opt("LangTag::private_use", b, t.private_use().map(|x| x.as_bytes()), n.private_use().map(|x| x.as_bytes()))?;
			let w: Vec<Vec<u8>> = n.private_use_subtags().take(b.len() + 1).map(|x| x.as_bytes().to_vec()).collect();
			drain("LangTag::private_use_subtags", b, t.private_use_subtags(), |x| x.as_bytes(), &w, o::pu_subtag)?;
		} else {
			let l = grand_language(b);
			opt("LangTag::language", b, t.language().map(|x| x.as_bytes()), l.as_deref())?;
			opt("TypedLangTag::language", b, ty.language().map(|x| x.as_bytes()), l.as_deref())?;
			opt("LangTag::script", b, t.script().map(|x| x.as_bytes()), None)?;
			opt("LangTag::region", b, t.region().map(|x| x.as_bytes()), None)?;
			opt("LangTag::variants", b, Some(t.variants().as_bytes()), Some(b""))?;
			opt("LangTag::extensions", b, Some(t.extensions().as_bytes()), Some(b""))?;
			opt("LangTag::private_use", b, t.private_use().map(|x| x.as_bytes()), None)?;
			drain("LangTag::private_use_subtags", b, t.private_use_subtags(), |x| x.as_bytes(), &[], o::pu_subtag)?;
		}
	}
	Ok(())
}
fn p06(b: &[u8]) -> R {
	static F: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
	once(&F, || plain_order("Kind", &[Kind::Normal, Kind::PrivateUse, Kind::Grandfathered]))?;
	if !o::language_tag(b) { return Ok(()); }
	let Ok(t) = LangTag::new(b) else { return Ok(()) };
	let want = if o::langtag(b) { Kind::Normal } else if o::privateuse(b) { Kind::PrivateUse } else { Kind::Grandfathered };
	let d = |x: &str, g: String| format!("{x} of \"{}\" is {g}, but the tag is {want:?}", show(b));
	ck!(t.kind() == want, "{}", d("kind", format!("{:?}", t.kind())));
	let f = [want == Kind::Normal, want == Kind::PrivateUse];
	ck!(t.is_normal() == f[0] && t.is_private_use() == f[1] && t.as_normal().is_some() == f[0] && t.as_private_use().is_some() == f[1], "{}", d("an is_/as_ method", "wrong".into()));
	// a regular grandfathered tag that is also normal is recognised as both
	let g = o::grandfathered(b).is_some();
	ck!(t.is_grandfathered() == g && t.as_grandfathered().is_some() == g, "{}", d("is_grandfathered", t.is_grandfathered().to_string()));
	let y = t.as_typed();
	ck!(y.kind() == want && y.is_normal() == f[0] && y.is_private_use() == f[1] && y.is_grandfathered() == (want == Kind::Grandfathered), "{}", d("the typed view", format!("{:?}", y.kind())));
	ck!(y.as_normal().is_some() == f[0] && y.as_private_use().is_some() == f[1] && y.as_grandfathered().is_some() == (want == Kind::Grandfathered), "{}", d("a typed as_ view", "wrong".into()));
	ck!(want.is_normal() == f[0] && want.is_private_use() == f[1] && want.is_grandfathered() == (want == Kind::Grandfathered), "Kind::is_ of {want:?}");
	for v in [t.as_normal(), y.as_normal()].into_iter().flatten() { ck!(v.as_bytes() == b, "the normal view of \"{}\" is \"{}\"", show(b), show(v.as_bytes())); }
	for v in [t.as_private_use(), y.as_private_use()].into_iter().flatten() { ck!(v.as_bytes() == b, "the private use view of \"{}\" is \"{}\"", show(b), show(v.as_bytes())); }
	for v in [t.as_grandfathered(), y.as_grandfathered()].into_iter().flatten() { ck!(v.as_bytes().eq_ignore_ascii_case(b), "the grandfathered view of \"{}\" is \"{}\"", show(b), show(v.as_bytes())); }
	match t.as_typed() {
		TypedLangTag::Normal(x) => ck!(f[0] && x.as_bytes() == b, "{}", d("the typed view", "Normal".into())),
		TypedLangTag::PrivateUse(x) => ck!(f[1] && x.as_bytes() == b, "{}", d("the typed view", "PrivateUse".into())),
		TypedLangTag::Grandfathered(x) => ck!(!f[0] && !f[1] && x.as_bytes().eq_ignore_ascii_case(b), "{}", d("the typed view", "Grandfathered".into())),
	}
	Ok(())
}
/// equality, ordering and hashing of values that are told apart by their index
fn plain_order<T: Ord + std::hash::Hash + Copy>(what: &str, all: &[T]) -> R {
	let h = |x: &T| { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() };
	for (i, a) in all.iter().enumerate() {
		for (j, b) in all.iter().enumerate() {
			ck!((a == b) == (i == j) && (a != b) == (i != j), "{what}: values {i} and {j} compare {}", a == b);
			ck!((a.cmp(b) == std::cmp::Ordering::Equal) == (i == j) && a.cmp(b) == b.cmp(a).reverse() && a.partial_cmp(b) == Some(a.cmp(b)) && (a < b) == (a.cmp(b) == std::cmp::Ordering::Less), "{what}: values {i} and {j} are ordered {:?} and {:?}", a.cmp(b), b.cmp(a));
			if i == j { ck!(h(a) == h(b), "{what}: value {i} hashes in two ways"); }
			for (k, c) in all.iter().enumerate() { ck!(!(a < b && b < c) || a < c, "{what}: values {i}, {j}, {k} are not ordered transitively"); }
		}
		ck!(*a == a.clone(), "{what}: value {i} differs from its clone");
	}
	Ok(())
}
fn once(flag: &'static std::sync::atomic::AtomicUsize, f: impl FnOnce() -> R) -> R { if flag.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 0 { f() } else { Ok(()) } }
fn p07(b: &[u8]) -> R {
	static F: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
	once(&F, || plain_order("GrandfatheredLangTag", &GRANDFATHERED))?;
	let want = o::grandfathered(b);
	let d = |x: &str| format!("GrandfatheredLangTag: {x} of \"{}\"", show(b));
	for (i, t) in GRANDFATHERED.iter().enumerate() {
		let (w, reg) = o::GRANDFATHERED[i];
		ck!(t.as_bytes() == w.as_bytes() && t.as_str() == w && t.to_string() == w, "text of the grandfathered tag {w}: \"{}\" \"{}\" \"{}\"", show(t.as_bytes()), t.as_str(), t);
		ck!(GrandfatheredLangTag::new(w).is_ok_and(|u| u == *t), "{w} does not parse back to itself");
		opt("language", w.as_bytes(), t.language().map(|l| l.as_bytes()), reg.then(|| o::segs(w.as_bytes())[0]))?;
	}
	match GrandfatheredLangTag::new(b) {
		Ok(t) => { ck!(want.is_some_and(|i| GRANDFATHERED[i] == t && o::GRANDFATHERED[i].0.as_bytes() == t.as_bytes()), "{} is {}", d("new"), t.as_str()); }
		Err(p) => { ck!(want.is_none(), "{} is rejected", d("new")); ck!(p == b && p.as_ptr() == b.as_ptr(), "{} returns something else in its error", d("new")); }
	}
	match GrandfatheredLangTag::try_from(b) {
		Ok(t) => { ck!(want.is_some_and(|i| GRANDFATHERED[i] == t), "{} is {}", d("try_from"), t.as_str()); }
		Err(e) => { ck!(want.is_none(), "{} is rejected", d("try_from")); ck!(e.0 == b && e.0.as_ptr() == b.as_ptr(), "{} returns something else in its error", d("try_from")); }
	}
	if let Ok(s) = std::str::from_utf8(b) { match GrandfatheredLangTag::new(s) { Ok(t) => ck!(want.is_some_and(|i| GRANDFATHERED[i] == t), "{} is {}", d("new(str)"), t.as_str()), Err(p) => ck!(want.is_none() && p == s, "{} is rejected", d("new(str)")) } }
	Ok(())
}
fn p08(b: &[u8]) -> R {
	if o::extlang(b) && let Ok(e) = LanguageExtension::new(b) { adaptors("LanguageExtension::iter", b, || e.iter(), |x| x.as_bytes(), &pieces(b), o::extlang_tag)?; }
	ck!(LanguageExtensionIter::empty().next().is_none(), "LanguageExtensionIter::empty yields something");
	if !o::language(b) { return Ok(()); }
	let Ok(l) = Language::new(b) else { return Ok(()) };
	let i = b.iter().position(|c| *c == b'-');
	opt("Language::primary", b, Some(l.primary().as_bytes()), Some(&b[..i.unwrap_or(b.len())]))?;
	opt("Language::extension", b, l.extension().map(|x| x.as_bytes()), i.map(|i| &b[i + 1..]))?;
	ck!(o::primary(l.primary().as_bytes()) && PrimaryLanguage::new(l.primary().as_bytes()).is_ok(), "Language::primary of \"{}\" is ill-formed", show(b));
	ck!(l.extension().is_none_or(|e| o::extlang(e.as_bytes()) && LanguageExtension::new(e.as_bytes()).is_ok()), "Language::extension of \"{}\" is ill-formed", show(b));
	adaptors("Language::extension_subtags", b, || l.extension_subtags(), |x| x.as_bytes(), &i.map(|i| pieces(&b[i + 1..])).unwrap_or_default(), o::extlang_tag)
}
fn p09(b: &[u8]) -> R {
	if o::extension(b) && let Ok(e) = Extension::new(b) {
		ck!(e.singleton().unwrap() == b[0], "Extension::singleton of \"{}\" is {}", show(b), e.singleton());
		adaptors("Extension::iter", b, || e.iter(), |x| x.as_bytes(), &pu_pieces(b), o::ext_subtag)?;
	}
	ck!(ExtensionIter::empty().next().is_none(), "ExtensionIter::empty yields something");
	ck!(Extensions::EMPTY.as_bytes().is_empty() && Extensions::EMPTY.iter().next().is_none(), "Extensions::EMPTY is not empty");
	let Some(l) = o::ext_list(b) else { return Ok(()) };
	let Ok(x) = Extensions::new(b) else { return Ok(()) };
	adaptors("Extensions::iter", b, || x.iter(), |x| x.as_bytes(), &l, o::extension)?;
	for c in (b'0'..=b'9').chain(b'a'..=b'z').chain(b'A'..=b'Z') {
		if c == b'x' || c == b'X' { continue; }
		let Ok(s) = Singleton::new(c) else { continue };
		let want = l.iter().find(|e| e[0].eq_ignore_ascii_case(&c));
		opt(&format!("Extensions::get('{}')", c as char), b, x.get(s).map(|x| x.as_bytes()), want.map(|w| &w[..]))?;
		drain(&format!("Extensions::iter_extension('{}')", c as char), b, x.iter_extension(s), |x| x.as_bytes(), &want.map(|w| pu_pieces(w)).unwrap_or_default(), o::ext_subtag)?;
	}
	Ok(())
}
fn p10(b: &[u8]) -> R {
	ck!(VariantsIter::empty().next().is_none() && VariantsIter::empty().next_back().is_none() && VariantsIter::default().next().is_none(), "VariantsIter::empty yields something");
	ck!(Variants::EMPTY.as_bytes().is_empty() && Variants::EMPTY.iter().next().is_none() && Variants::EMPTY.iter().next_back().is_none(), "Variants::EMPTY is not empty");
	if !o::variants(b) { return Ok(()); }
	let Ok(v) = Variants::new(b) else { return Ok(()) };
	let w = pieces(b);
	adaptors("Variants::iter", b, || v.iter(), |x| x.as_bytes(), &w, o::variant)?;
	let mut rv = w.clone(); rv.reverse();
	adaptors("Variants::iter reversed", b, || v.iter().rev(), |x| x.as_bytes(), &rv, o::variant)?;
	if w.len() <= 8 { both_ends("Variants::iter", b, || v.iter(), |x| x.as_bytes(), &w, o::variant)?; }
	opt("Variants::first", b, v.first().map(|x| x.as_bytes()), w.first().map(|x| &x[..]))?;
	opt("Variants::last", b, v.last().map(|x| x.as_bytes()), w.last().map(|x| &x[..]))?;
	for k in 0..w.len().min(6) + 1 {
		let mut i = v.iter(); ck!(i.nth_back(k).map(|x| x.as_bytes()) == rv.get(k).map(|x| &x[..]) && i.next_back().map(|x| x.as_bytes()) == rv.get(k + 1).map(|x| &x[..]), "Variants::iter of \"{}\": nth_back({k})", show(b));
	}
	ck!(v.iter().rfold(vec![], |mut l, x| { l.push(x.as_bytes().to_vec()); l }) == rv && v.iter().rfind(|_| true).map(|x| x.as_bytes()) == w.last().map(|x| &x[..]), "Variants::iter of \"{}\": rfold or rfind", show(b));
	let n = w.len();
	let mut r = Rng(b.iter().fold(7u64, |h, c| h.wrapping_mul(1099511628211) ^ *c as u64));
	let runs = if n <= 6 { 1 << (n + 1) } else { 24 };
	for k in 0..runs {
		let (mut i, mut j, mut it) = (0, n, v.iter());
		let mut trace = String::new();
		for q in 0..n + 4 {
			let front = if n <= 6 && q <= n { k >> q & 1 == 1 } else if runs == 24 && k < 2 { k == 1 } else { r.p(2) };
			trace.push(if front { 'f' } else { 'b' });
			let (got, want) = if front { let g = it.next(); let w = (i < j).then(|| { i += 1; &w[i - 1][..] }); (g, w) } else { let g = it.next_back(); let w = (i < j).then(|| { j -= 1; &w[j][..] }); (g, w) };
			ck!(got.map(|x| x.as_bytes()) == want, "Variants::iter of \"{}\" after the steps {trace} (f: next, b: next_back) yields {:?}, should yield {:?}", show(b), got.map(|x| show(x.as_bytes())), want.map(show));
			ck!(got.is_none_or(|x| o::variant(x.as_bytes())), "an ill-formed variant of \"{}\"", show(b));
		}
	}
	Ok(())
}
fn p11(b: &[u8]) -> R {
	ck!(PrivateUseIter::empty().next().is_none() && PrivateUseIter::default().next().is_none(), "PrivateUseIter::empty yields something");
	if o::privateuse(b) && let Ok(p) = PrivateUse::new(b) { adaptors("PrivateUse::iter", b, || p.iter(), |x| x.as_bytes(), &pu_pieces(b), o::pu_subtag)?; }
	if let Some(d) = o::decomp(b) {
		let w = d.private_use.as_deref().map(pu_pieces).unwrap_or_default();
		if let Ok(n) = NormalLangTag::new(b) { adaptors("NormalLangTag::private_use_subtags", b, || n.private_use_subtags(), |x| x.as_bytes(), &w, o::pu_subtag)?; }
		if let Ok(n) = LangTag::new(b) { adaptors("LangTag::private_use_subtags", b, || n.private_use_subtags(), |x| x.as_bytes(), &w, o::pu_subtag)?; }
	}
	Ok(())
}
fn sing(c: u8) -> bool { c.is_ascii_alphanumeric() && c != b'x' && c != b'X' }
fn p17_value(s: Singleton, c: u8, how: &str) -> R {
	ck!(s.unwrap() == c, "Singleton {how} {c}: unwrap is {}", s.unwrap());
	ck!(s.to_string() == (c as char).to_string() && format!("{s:?}").contains(c as char), "Singleton {how} {}: displays as {s}, debug {s:?}", c as char);
	for d in 0..=255u8 { ck!((s == d) == (c == d) && (s == d as char) == (c == d), "Singleton {how} {}: compared with byte {d}", c as char); }
	for d in ['\u{161}', '\u{16a}', '\u{130}', '\u{1f600}', '\u{10061}', char::from_u32(0x100 + c as u32).unwrap(), char::from_u32(0x10000 + c as u32).unwrap()] { ck!(s != d, "Singleton {how} {} equals {d:?}", c as char); }
	Ok(())
}
fn p17(b: &[u8]) -> R {
	static F: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
	once(&F, || {
		let all: Vec<Singleton> = (0..=255u8).filter_map(|c| Singleton::new(c).ok()).collect();
		plain_order("Singleton", &all)?;
		for a in &all { for b in &all { ck!(a.cmp(b) == a.unwrap().cmp(&b.unwrap()), "Singleton {a} and {b} are ordered {:?}", a.cmp(b)); } }
		Ok(())
	})?;
	for c in 0..=255u8 {
		match Singleton::new(c) { Ok(s) => { ck!(sing(c), "Singleton::new({c}) is accepted"); p17_value(s, c, "new")? } Err(e) => ck!(!sing(c) && e.0 == c, "Singleton::new({c}) is rejected with {}", e.0) }
		match Singleton::try_from(c) { Ok(s) => { ck!(sing(c), "Singleton::try_from({c}u8) is accepted"); p17_value(s, c, "try_from u8")? } Err(e) => ck!(!sing(c) && e.0 == c, "Singleton::try_from({c}u8) is rejected with {}", e.0) }
	}
	if let Ok(s) = std::str::from_utf8(b) { p17_str(s)?; for c in s.chars() { p17_char(c)? } }
	Ok(())
}
fn p17_str(t: &str) -> R {
	let v = t.len() == 1 && sing(t.as_bytes()[0]);
	match Singleton::from_string(t) { Ok(s) => { ck!(v, "Singleton::from_string({t:?}) is accepted"); p17_value(s, t.as_bytes()[0], "from_string")? } Err(e) => ck!(!v && e.0 == t, "Singleton::from_string({t:?}) is rejected with {:?}", e.0) }
	match t.parse::<Singleton>() { Ok(s) => { ck!(v, "parsing the singleton {t:?} is accepted"); p17_value(s, t.as_bytes()[0], "parse")? } Err(e) => ck!(!v && e.0 == t, "parsing the singleton {t:?} is rejected with {:?}", e.0) }
	Ok(())
}
fn p17_char(c: char) -> R {
	let v = c.is_ascii() && sing(c as u8);
	match Singleton::try_from(c) { Ok(s) => { ck!(v, "Singleton::try_from({c:?}) is accepted"); p17_value(s, c as u8, "try_from char") } Err(e) => { ck!(!v && e.0 == c, "Singleton::try_from({c:?}) is rejected with {:?}", e.0); Ok(()) } }
}
fn all_types(f: impl Fn(&TypeOps) -> R) -> R { TYPES.iter().try_for_each(f) }
/// every safe operation, for panics only
fn p18(c: &Case) -> R {
	let mut bad = vec![];
	let b = &c[0]; let d = c.get(1).unwrap_or(b);
	let mut go = |r: std::thread::Result<R>| if r.is_err() { bad.push(last_panic()) };
	use std::panic::{catch_unwind, AssertUnwindSafe as A};
	for f in [p04 as fn(&[u8]) -> R, p05, p06, p07, p08, p09, p10, p11, p17] { go(catch_unwind(A(|| f(b)))) }
	for t in TYPES { for f in [t.accept, t.content, t.serde] { go(catch_unwind(A(|| f(b)))) } for f in [t.pair_eq, t.pair_ord, t.pair_hash, t.coherent] { go(catch_unwind(A(|| f(b, d)))) } }
	// accessors even when a value is (wrongly) accepted, and errors formatted
	go(catch_unwind(A(|| {
		if let Ok(s) = std::str::from_utf8(b) {
			match LangTag::new(s) { Ok(t) => { let _ = (t.kind(), t.language().map(|l| (l.primary().as_str().len(), l.extension().map(|e| e.as_str().len()), l.extension_subtags().take(9999).count())), t.script().map(|x| x.as_str().len()), t.region().map(|x| x.as_str().len()), t.variants().iter().take(9999).count(), t.variants().iter().rev().take(9999).count(), t.variants().first().map(|x| x.as_str().len()), t.variants().last().map(|x| x.as_str().len()), t.extensions().iter().take(9999).map(|e| e.iter().take(9999).count()).sum::<usize>(), t.private_use_subtags().take(9999).count(), t.as_typed().language().map(|x| x.as_str().len()));
				for c in 0..=255u8 { if let Ok(s) = Singleton::new(c) { let _ = (t.extensions().get(s).map(|e| e.singleton()), t.extensions().iter_extension(s).take(9999).count()); } } } Err(e) => { let _ = (e.to_string(), format!("{e:?}")); } }
			if let Err(e) = Singleton::from_string(s) { let _ = (e.to_string(), format!("{e:?}")); }
		}
		if let Err(e) = GrandfatheredLangTag::try_from(&b[..]) { let _ = (e.to_string(), format!("{e:?}")); }
		Ok(())
	})));
	if let Some(m) = bad.into_iter().next() { return Err(format!("panic on \"{}\" / \"{}\": {m}", show(b), show(d))); }
	Ok(())
}
thread_local!(pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }

pub fn check(prop: &str, c: &Case) -> R {
	let b = &c[0][..]; let d = c.get(1).map(|x| &x[..]).unwrap_or(b);
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match prop {
		"P01" => (TYPES[0].accept)(b),
		"P02" => TYPES[1..].iter().try_for_each(|t| (t.accept)(b)),
		"P03" => all_types(|t| (t.content)(b)),
		"P04" => p04(b), "P05" => p05(b), "P06" => p06(b), "P07" => p07(b), "P08" => p08(b), "P09" => p09(b), "P10" => p10(b), "P11" => p11(b),
		"P12" => all_types(|t| (t.pair_eq)(b, d)),
		"P13" => all_types(|t| (t.pair_ord)(b, d)),
		"P14" => all_types(|t| (t.pair_hash)(b, d)),
		"P15" => all_types(|t| (t.coherent)(b, d)),
		"P16" => all_types(|t| (t.serde)(b)),
		"P17" => p17(b),
		"P18" => p18(c),
		_ => Err("unknown property".into()),
	}));
	r.unwrap_or_else(|_| Err(format!("panic on {}: {}", c.iter().map(|x| format!("\"{}\"", show(x))).collect::<Vec<_>>().join(" / "), last_panic())))
}
/// types whose values matter to a property, weighted
pub fn kinds(prop: &str) -> &'static [usize] {
	match prop {
		"P01" | "P05" | "P06" => &[0, 0, 0, 1], "P02" => &[1, 1, 1, 2, 3, 3, 4, 5, 5, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14],
		"P04" => &[1], "P07" => &[0], "P08" => &[5, 5, 6], "P09" => &[3, 3, 3, 2], "P10" => &[14], "P11" => &[9, 9, 1], "P17" => &[2, 10, 4],
		"P18" => &[0, 1, 3, 5, 9, 14], _ => &[0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14],
	}
}
pub fn pairs(prop: &str) -> bool { matches!(prop, "P12" | "P13" | "P14" | "P15" | "P18") }
/// does the case exercise the property beyond its trivial side
pub fn nontrivial(prop: &str, c: &Case) -> bool {
	let b = &c[0][..];
	match prop {
		"P01" | "P02" | "P03" | "P16" | "P17" | "P18" | "P07" => b.len() >= 1 && (o::grandfathered(b).is_some() || TYPES.iter().any(|t| (t.valid)(b)) || b.contains(&b'-')),
		"P04" => o::decomp(b).is_some() && b.contains(&b'-'),
		"P05" | "P06" => o::language_tag(b),
		"P08" => (o::language(b) || o::extlang(b)) && b.contains(&b'-'),
		"P09" => !b.is_empty() && o::extensions(b), "P10" => o::variants(b) && b.contains(&b'-'),
		"P11" => o::privateuse(b) || o::decomp(b).is_some_and(|d| d.private_use.is_some()),
		"P12" | "P13" | "P14" => c.len() == 2 && c[0] != c[1] && TYPES.iter().any(|t| (t.valid)(b)),
		_ => TYPES.iter().any(|t| (t.valid)(b)),
	}
}
