//! A strict serializer and deserializer: formats that are not self-describing.
use serde::de::value::Error;
use serde::de::{DeserializeSeed, Deserializer, IntoDeserializer, SeqAccess, Visitor};
use serde::ser::{Impossible, Serializer};
use serde::{forward_to_deserialize_any, Serialize};

/* ------------------------------------------------------------ serializer -- */

/// Accepts exactly one kind of data: text, or bytes.
pub struct Sink {
    pub text: bool,
    pub human: bool,
}
fn no<T>() -> Result<T, Error> {
    Err(serde::ser::Error::custom("unexpected data"))
}
macro_rules! refuse { ($($f:ident: $t:ty),*) => {$(
    fn $f(self, _: $t) -> Result<Vec<u8>, Error> { no() }
)*} }
impl Serializer for Sink {
    type Ok = Vec<u8>;
    type Error = Error;
    type SerializeSeq = Impossible<Vec<u8>, Error>;
    type SerializeTuple = Impossible<Vec<u8>, Error>;
    type SerializeTupleStruct = Impossible<Vec<u8>, Error>;
    type SerializeTupleVariant = Impossible<Vec<u8>, Error>;
    type SerializeMap = Impossible<Vec<u8>, Error>;
    type SerializeStruct = Impossible<Vec<u8>, Error>;
    type SerializeStructVariant = Impossible<Vec<u8>, Error>;
    refuse! {
        serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32,
        serialize_i64: i64, serialize_i128: i128, serialize_u8: u8, serialize_u16: u16,
        serialize_u32: u32, serialize_u64: u64, serialize_u128: u128, serialize_f32: f32,
        serialize_f64: f64, serialize_char: char, serialize_unit_struct: &'static str
    }
    fn serialize_str(self, v: &str) -> Result<Vec<u8>, Error> {
        if self.text { Ok(v.as_bytes().to_vec()) } else { no() }
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, Error> {
        if self.text { no() } else { Ok(v.to_vec()) }
    }
    fn serialize_none(self) -> Result<Vec<u8>, Error> { no() }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Vec<u8>, Error> { no() }
    fn serialize_unit(self) -> Result<Vec<u8>, Error> { no() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Vec<u8>, Error> { no() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Vec<u8>, Error> { no() }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Vec<u8>, Error> { no() }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> { no() }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> { no() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> { no() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> { no() }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> { no() }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> { no() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> { no() }
    fn is_human_readable(&self) -> bool { self.human }
}

/* ---------------------------------------------------------- deserializer -- */

/// A format that is not self-describing: it provides the data only when asked
/// for the kind it holds.
pub enum Strict<'a> {
    Text(&'a str),
    Bytes(&'a [u8]),
}
impl<'de> Deserializer<'de> for Strict<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(serde::de::Error::custom("not self-describing"))
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self {
            Strict::Text(t) => v.visit_str(t),
            _ => self.deserialize_any(v),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self {
            Strict::Bytes(b) => v.visit_bytes(b),
            _ => self.deserialize_any(v),
        }
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_bytes(v)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}


/// A format that holds byte strings as sequences, announcing the given length,
/// and leaves it to the visitor to notice elements it did not ask for.
pub struct Open<'a> {
    pub elements: &'a [u16],
    pub hint: Option<usize>,
}
impl<'de> SeqAccess<'de> for Open<'_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        match self.elements.split_first() {
            None => Ok(None),
            Some((&x, rest)) => {
                self.elements = rest;
                self.hint = self.hint.map(|h| h.saturating_sub(1));
                seed.deserialize(x.into_deserializer()).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> Deserializer<'de> for Open<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_seq(self)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier
        ignored_any
    }
}
