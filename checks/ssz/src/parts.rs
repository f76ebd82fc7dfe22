//! Makes a `Multiproof` from its parts, whatever they are. Its fields are private: it is deserialized
//! from a map of field names, so that the order of the fields does not matter; if the fields have
//! other names, from a sequence in the order of the encoding.

use crate::model::Parts;
use bitvec::prelude::*;
use serde::de::value::{BorrowedBytesDeserializer, Error, MapDeserializer, SeqDeserializer};
use serde::de::{Deserialize, Deserializer, IntoDeserializer, Visitor};
use serde::forward_to_deserialize_any;
use ssz_multiproofs::Multiproof;

struct Fields<'a>(&'a Parts);

impl<'a> Fields<'a> {
    fn entries(&self) -> Vec<(&'static str, Value<'a>)> {
        let p = self.0;
        vec![
            ("data", Value::Bytes(&p.data)),
            ("value_mask", bits(&p.mask)),
            ("descriptor", bits(&p.desc)),
            ("max_stack_depth", Value::Json(p.hint.into())),
        ]
    }
}

enum Value<'a> {
    Bytes(&'a [u8]),
    Json(serde_json::Value),
}

fn bits(b: &[bool]) -> Value<'static> {
    let v: BitVec<u32, Lsb0> = b.iter().copied().collect();
    Value::Json(serde_json::to_value(&v).unwrap())
}

impl<'de> Deserializer<'de> for Fields<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        visitor.visit_map(MapDeserializer::new(self.entries().into_iter()))
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _name: &'static str,
        fields: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value, Error> {
        let entries = self.entries();
        if entries.iter().all(|(name, _)| fields.contains(name)) {
            visitor.visit_map(MapDeserializer::new(entries.into_iter()))
        } else {
            visitor.visit_seq(SeqDeserializer::new(entries.into_iter().map(|(_, v)| v)))
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map enum identifier ignored_any
    }
}

impl<'de> IntoDeserializer<'de, Error> for Value<'de> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

impl<'de> Deserializer<'de> for Value<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self {
            Value::Bytes(b) => BorrowedBytesDeserializer::new(b).deserialize_any(visitor),
            Value::Json(v) => v.deserialize_any(visitor).map_err(serde::de::Error::custom),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub fn multiproof(p: &Parts) -> Multiproof<'_> {
    Multiproof::deserialize(Fields(p)).expect("a multiproof can be deserialized from its parts")
}
