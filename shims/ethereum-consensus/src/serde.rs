use serde::{Deserialize, Deserializer, Serializer};
use std::fmt::Display;
use std::str::FromStr;

pub mod as_hex {
    use super::*;
    pub fn serialize<S: Serializer, T: AsRef<[u8]>>(data: T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(data.as_ref())))
    }
    pub fn deserialize<'de, D: Deserializer<'de>, T: TryFrom<Vec<u8>>>(d: D) -> Result<T, D::Error> {
        let s = String::deserialize(d)?;
        let s = s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("missing prefix"))?;
        let b = hex::decode(s).map_err(serde::de::Error::custom)?;
        T::try_from(b).map_err(|_| serde::de::Error::custom("wrong length"))
    }
}
pub mod as_str {
    use super::*;
    pub fn serialize<S: Serializer, T: Display>(data: T, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&data)
    }
    pub fn deserialize<'de, D: Deserializer<'de>, T: FromStr<Err: Display>>(d: D) -> Result<T, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
pub mod seq_of_str {
    use super::*;
    use ssz_rs::Sequence;
    pub fn serialize<S: Serializer, T: Sequence<Item: Display>>(data: &T, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(data.elements().iter().map(|e| e.to_string()))
    }
    pub fn deserialize<'de, D: Deserializer<'de>, T: Sequence<Item: FromStr<Err: Display>>>(d: D) -> Result<T, D::Error> {
        let v: Vec<String> = Vec::deserialize(d)?;
        let v = v.iter().map(|s| s.parse()).collect::<Result<Vec<_>, _>>().map_err(serde::de::Error::custom)?;
        T::from_elements(v).map_err(serde::de::Error::custom)
    }
}
