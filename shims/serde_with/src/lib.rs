//! Stand-in for serde_with: the `As` machinery for the adapters that are used here.
use serde::de::{Error, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::marker::PhantomData;

pub use serde_with_macros::serde_as;

pub trait SerializeAs<T: ?Sized> {
    fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error>;
}

pub trait DeserializeAs<'de, T>: Sized {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<T, D::Error>;
}

pub struct As<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> As<T> {
    pub fn serialize<S: Serializer, I: ?Sized>(value: &I, serializer: S) -> Result<S::Ok, S::Error>
    where
        T: SerializeAs<I>,
    {
        T::serialize_as(value, serializer)
    }
    pub fn deserialize<'de, D: Deserializer<'de>, I>(deserializer: D) -> Result<I, D::Error>
    where
        T: DeserializeAs<'de, I>,
    {
        T::deserialize_as(deserializer)
    }
}

pub struct Same;
impl<T: Serialize + ?Sized> SerializeAs<T> for Same {
    fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error> {
        source.serialize(serializer)
    }
}
impl<'de, T: Deserialize<'de>> DeserializeAs<'de, T> for Same {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<T, D::Error> {
        T::deserialize(deserializer)
    }
}

pub struct SerializeAsWrap<'a, T: ?Sized, U: ?Sized>(&'a T, PhantomData<U>);
impl<'a, T: ?Sized, U: ?Sized> SerializeAsWrap<'a, T, U> {
    pub fn new(value: &'a T) -> Self {
        Self(value, PhantomData)
    }
}
impl<T: ?Sized, U: SerializeAs<T> + ?Sized> Serialize for SerializeAsWrap<'_, T, U> {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        U::serialize_as(self.0, serializer)
    }
}

pub struct DeserializeAsWrap<T, U>(T, PhantomData<U>);
impl<T, U> DeserializeAsWrap<T, U> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> Deserialize<'de> for DeserializeAsWrap<T, U> {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        U::deserialize_as(deserializer).map(|v| Self(v, PhantomData))
    }
}

impl<T, U: SerializeAs<T>> SerializeAs<Vec<T>> for Vec<U> {
    fn serialize_as<S: Serializer>(source: &Vec<T>, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.collect_seq(source.iter().map(SerializeAsWrap::<T, U>::new))
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Vec<T>> for Vec<U> {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<Vec<T>, D::Error> {
        struct V<T, U>(PhantomData<(T, U)>);
        impl<'de, T, U: DeserializeAs<'de, T>> Visitor<'de> for V<T, U> {
            type Value = Vec<T>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a sequence")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Vec<T>, A::Error> {
                let mut out = Vec::new();
                while let Some(v) = seq.next_element::<DeserializeAsWrap<T, U>>()? {
                    out.push(v.into_inner());
                }
                Ok(out)
            }
        }
        deserializer.deserialize_seq(V::<T, U>(PhantomData))
    }
}

impl<T: Ord, U: SerializeAs<T>> SerializeAs<BTreeSet<T>> for BTreeSet<U> {
    fn serialize_as<S: Serializer>(source: &BTreeSet<T>, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.collect_seq(source.iter().map(SerializeAsWrap::<T, U>::new))
    }
}
impl<'de, T: Ord, U: DeserializeAs<'de, T>> DeserializeAs<'de, BTreeSet<T>> for BTreeSet<U> {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<BTreeSet<T>, D::Error> {
        <Vec<U> as DeserializeAs<'de, Vec<T>>>::deserialize_as(deserializer).map(|v| v.into_iter().collect())
    }
}

impl<T, U: SerializeAs<T>> SerializeAs<Option<T>> for Option<U> {
    fn serialize_as<S: Serializer>(source: &Option<T>, serializer: S) -> Result<S::Ok, S::Error> {
        source.as_ref().map(SerializeAsWrap::<T, U>::new).serialize(serializer)
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Option<T>> for Option<U> {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<Option<T>, D::Error> {
        Ok(Option::<DeserializeAsWrap<T, U>>::deserialize(deserializer)?.map(|w| w.into_inner()))
    }
}

impl<K, V, KU: SerializeAs<K>, VU: SerializeAs<V>> SerializeAs<BTreeMap<K, V>> for BTreeMap<KU, VU> {
    fn serialize_as<S: Serializer>(source: &BTreeMap<K, V>, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.collect_map(
            source
                .iter()
                .map(|(k, v)| (SerializeAsWrap::<K, KU>::new(k), SerializeAsWrap::<V, VU>::new(v))),
        )
    }
}
impl<'de, K: Ord, V, KU: DeserializeAs<'de, K>, VU: DeserializeAs<'de, V>> DeserializeAs<'de, BTreeMap<K, V>>
    for BTreeMap<KU, VU>
{
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<BTreeMap<K, V>, D::Error> {
        struct Vis<K, V, KU, VU>(PhantomData<(K, V, KU, VU)>);
        impl<'de, K: Ord, V, KU: DeserializeAs<'de, K>, VU: DeserializeAs<'de, V>> Visitor<'de> for Vis<K, V, KU, VU> {
            type Value = BTreeMap<K, V>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<BTreeMap<K, V>, A::Error> {
                let mut out = BTreeMap::new();
                while let Some((k, v)) =
                    map.next_entry::<DeserializeAsWrap<K, KU>, DeserializeAsWrap<V, VU>>()?
                {
                    out.insert(k.into_inner(), v.into_inner());
                }
                Ok(out)
            }
        }
        deserializer.deserialize_map(Vis::<K, V, KU, VU>(PhantomData))
    }
}

pub struct Bytes;
impl<T: AsRef<[u8]> + ?Sized> SerializeAs<T> for Bytes {
    fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_bytes(source.as_ref())
    }
}
impl<'de> DeserializeAs<'de, &'de [u8]> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<&'de [u8], D::Error> {
        <&'de [u8]>::deserialize(deserializer)
    }
}
impl<'de> DeserializeAs<'de, Vec<u8>> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<Vec<u8>, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a byte array")
            }
            fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Vec<u8>, E> {
                Ok(v.to_vec())
            }
            fn visit_byte_buf<E: Error>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
                Ok(v)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Vec<u8>, A::Error> {
                let mut out = Vec::new();
                while let Some(b) = seq.next_element()? {
                    out.push(b);
                }
                Ok(out)
            }
        }
        deserializer.deserialize_byte_buf(V)
    }
}
