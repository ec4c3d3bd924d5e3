// Interfaces of dependencies.
// serde: the traits as their implementations in /repo use them; what a format does is a relation.
pub mod x_serde {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::sp::*;
verus! {
/// r is what the format makes of the string s
pub uninterp spec fn ser_str<S, O, E>(z: S, s: Seq<u8>, r: Result<O, E>) -> bool;
/// r is what the format makes of the byte string s
pub uninterp spec fn ser_bytes<S, O, E>(z: S, s: Seq<u8>, r: Result<O, E>) -> bool;
/// r is what the format yields when asked for a T
pub uninterp spec fn de_rel<'de, T, D: de::Deserializer<'de>>(d: D, r: Result<T, D::Error>) -> bool;
pub mod ser {
use vstd::prelude::*;
use vstd::string::*;
pub use super::{Serialize, ser_str, ser_bytes};
pub trait Error: Sized { fn custom<T>(msg: T) -> Self; }
pub trait Serializer: Sized {
    type Ok; type Error: Error;
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) ensures ser_str(self, v.spec_bytes(), r);
    fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>) ensures ser_bytes(self, v@, r);
    // what a format makes of these says nothing about what it makes of a string
    fn serialize_none(self) -> Result<Self::Ok, Self::Error>;
    fn serialize_unit(self) -> Result<Self::Ok, Self::Error>;
    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error>;
    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error>;
    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error>;
    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error>;
    fn serialize_unit_struct(self, name: &'static str) -> Result<Self::Ok, Self::Error>;
    fn serialize_some<T: ?Sized>(self, value: &T) -> Result<Self::Ok, Self::Error>;
    fn serialize_newtype_struct<T: ?Sized>(self, name: &'static str, value: &T) -> Result<Self::Ok, Self::Error>;
    fn is_human_readable(&self) -> bool;
}
}
pub mod de {
use vstd::prelude::*;
pub trait Error: Sized { fn custom<T>(msg: T) -> Self; }
pub use super::Deserialize;
pub trait Deserializer<'de>: Sized { type Error: Error; fn is_human_readable(&self) -> bool; }
}
pub use ser::Serializer;
pub use de::Deserializer;
pub trait Serialize { fn serialize<S: ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error>; }
impl Serialize for str {
    #[verifier::external_body]
    fn serialize<S: ser::Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) ensures ser_str(serializer, sb(self), r) { unimplemented!() }
}
impl Serialize for String {
    #[verifier::external_body]
    fn serialize<S: ser::Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) ensures ser_str(serializer, encode_utf8(self@), r) { unimplemented!() }
}
pub trait Deserialize<'de>: Sized { fn deserialize<D: de::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error>; }
impl<'de: 'a, 'a> Deserialize<'de> for &'a str {
    #[verifier::external_body]
    fn deserialize<D: de::Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>) ensures de_rel(deserializer, r) { unimplemented!() }
}
impl<'de> Deserialize<'de> for String {
    #[verifier::external_body]
    fn deserialize<D: de::Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>) ensures de_rel(deserializer, r) { unimplemented!() }
}
}
}
