//! The smallest serde data format: hands values through unchanged, in a human readable and a binary flavour.
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::Impossible;
use serde::{de, forward_to_deserialize_any, ser, Deserializer, Serialize, Serializer};
use std::fmt;

pub struct E;
impl fmt::Debug for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }
impl de::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }

/// a serialized value
pub enum V { Str(String), I32(i32), I64(i64), Rec([&'static str; 3], [i64; 3]) }

pub struct W { pub human: bool }
pub struct S { keys: [&'static str; 3], vals: [i64; 3], n: usize, cap: usize }
type No = Impossible<V, E>;

macro_rules! no { ($($f:ident($($a:ty),*) -> $r:ty;)*) => { $(fn $f(self $(, _: $a)*) -> Result<$r, E> { Err(E) })* } }

impl Serializer for W {
    type Ok = V; type Error = E;
    type SerializeSeq = No; type SerializeTuple = No; type SerializeTupleStruct = No; type SerializeTupleVariant = No;
    type SerializeMap = No; type SerializeStruct = S; type SerializeStructVariant = No;
    fn is_human_readable(&self) -> bool { self.human }
    fn serialize_i32(self, v: i32) -> Result<V, E> { Ok(V::I32(v)) }
    fn serialize_i64(self, v: i64) -> Result<V, E> { Ok(V::I64(v)) }
    fn serialize_str(self, v: &str) -> Result<V, E> { Ok(V::Str(String::from(v))) }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<S, E> { Ok(S { keys: ["", "", ""], vals: [0; 3], n: 0, cap: len }) }
    no! {
        serialize_bool(bool) -> V; serialize_i8(i8) -> V; serialize_i16(i16) -> V; serialize_u8(u8) -> V; serialize_u16(u16) -> V;
        serialize_u32(u32) -> V; serialize_u64(u64) -> V; serialize_f32(f32) -> V; serialize_f64(f64) -> V; serialize_char(char) -> V;
        serialize_bytes(&[u8]) -> V; serialize_none() -> V; serialize_unit() -> V; serialize_unit_struct(&'static str) -> V;
        serialize_unit_variant(&'static str, u32, &'static str) -> V;
        serialize_seq(Option<usize>) -> No; serialize_tuple(usize) -> No; serialize_tuple_struct(&'static str, usize) -> No;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> No; serialize_map(Option<usize>) -> No;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> No;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<V, E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<V, E> { Err(E) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<V, E> { Err(E) }
}
impl ser::SerializeStruct for S {
    type Ok = V; type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> Result<(), E> {
        if self.n >= 3 { return Err(E); }
        self.vals[self.n] = match v.serialize(W { human: false })? { V::I32(x) => x as i64, V::I64(x) => x, _ => return Err(E) };
        self.keys[self.n] = key;
        self.n += 1;
        Ok(())
    }
    fn end(self) -> Result<V, E> { if self.n == 3 && self.cap == 3 { Ok(V::Rec(self.keys, self.vals)) } else { Err(E) } }
}

/// reads a value back; records come as a sequence, or as a map whose entries are taken in the order `ord`
pub struct R<'a> { pub human: bool, pub wide: bool, pub v: &'a V, pub map: bool, pub ord: [usize; 4], pub n: usize }
impl<'de, 'a> Deserializer<'de> for R<'a> {
    type Error = E;
    fn is_human_readable(&self) -> bool { self.human }
    fn deserialize_any<X: Visitor<'de>>(self, _: X) -> Result<X::Value, E> { Err(E) }
    fn deserialize_str<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> { match self.v { V::Str(s) => x.visit_str(s), _ => Err(E) } }
    fn deserialize_i32<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> { match self.v { V::I32(i) => int(x, *i as i64, self.wide, true), _ => Err(E) } }
    fn deserialize_i64<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> { match self.v { V::I64(i) => int(x, *i, self.wide, false), _ => Err(E) } }
    fn deserialize_struct<X: Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], x: X) -> Result<X::Value, E> {
        match self.v {
            V::Rec(k, v) if fields.len() == 3 => {
                let it = It { k, v, ord: self.ord, i: 0, n: self.n };
                if self.map { x.visit_map(it) } else { x.visit_seq(it) }
            }
            _ => Err(E),
        }
    }
    forward_to_deserialize_any! { bool i8 i16 u8 u16 u32 u64 f32 f64 char string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map enum identifier ignored_any }
}
/// hands an integer over in its own type, or as a self-describing format does, in 64 bits (unsigned when it can be)
fn int<'de, X: Visitor<'de>>(x: X, i: i64, wide: bool, small: bool) -> Result<X::Value, E> {
    if !wide { if small { x.visit_i32(i as i32) } else { x.visit_i64(i) } } else if i >= 0 { x.visit_u64(i as u64) } else { x.visit_i64(i) }
}
struct It<'a> { k: &'a [&'static str; 3], v: &'a [i64; 3], ord: [usize; 4], i: usize, n: usize }
impl<'de, 'a> SeqAccess<'de> for It<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.i >= self.n { return Ok(None); }
        let x = self.v[self.ord[self.i]];
        self.i += 1;
        s.deserialize(Int(x)).map(Some)
    }
}
impl<'de, 'a> MapAccess<'de> for It<'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.i >= self.n { return Ok(None); }
        s.deserialize(Key(self.k[self.ord[self.i]])).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        let x = self.v[self.ord[self.i]];
        self.i += 1;
        s.deserialize(Int(x))
    }
}
struct Int(i64);
impl<'de> Deserializer<'de> for Int {
    type Error = E;
    fn deserialize_any<X: Visitor<'de>>(self, _: X) -> Result<X::Value, E> { Err(E) }
    fn deserialize_i32<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> {
        if self.0 < i32::MIN as i64 || self.0 > i32::MAX as i64 { return Err(E); }
        x.visit_i32(self.0 as i32)
    }
    fn deserialize_i64<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> { x.visit_i64(self.0) }
    forward_to_deserialize_any! { bool i8 i16 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Key(&'static str);
impl<'de> Deserializer<'de> for Key {
    type Error = E;
    fn deserialize_any<X: Visitor<'de>>(self, _: X) -> Result<X::Value, E> { Err(E) }
    fn deserialize_identifier<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> { x.visit_str(self.0) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum ignored_any }
}

pub fn through<T: Serialize + de::DeserializeOwned>(x: T, human: bool, wide: bool) -> Result<T, E> {
    let v = x.serialize(W { human })?;
    T::deserialize(R { human, wide, v: &v, map: false, ord: [0, 1, 2, 0], n: 3 })
}
pub fn text<T: Serialize>(x: T) -> Result<String, E> {
    match x.serialize(W { human: true })? { V::Str(s) => Ok(s), _ => Err(E) }
}
struct Wide(i64);
impl<'de> Deserializer<'de> for Wide {
    type Error = E;
    fn is_human_readable(&self) -> bool { false }
    fn deserialize_any<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> { int(x, self.0, true, false) }
    forward_to_deserialize_any! { i32 i64 bool i8 i16 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
pub fn from_int<T: de::DeserializeOwned>(i: i64) -> Result<T, E> { T::deserialize(Wide(i)) }

// an unsigned number of 64 bits
struct Wider(u64);
impl<'de> Deserializer<'de> for Wider {
    type Error = E;
    fn is_human_readable(&self) -> bool { false }
    fn deserialize_any<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> { x.visit_u64(self.0) }
    forward_to_deserialize_any! { i32 i64 bool i8 i16 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
pub fn from_uint<T: de::DeserializeOwned>(i: u64) -> Result<T, E> { T::deserialize(Wider(i)) }
