use crate::*;
use std::ops::{Deref, DerefMut};

fn pack(bits: &[bool], bytes: usize) -> Vec<u8> {
    let mut out = vec![0; bytes];
    for (i, b) in bits.iter().enumerate() {
        out[i / 8] |= u8::from(*b) << (i % 8);
    }
    out
}
fn hex_of(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}
fn unhex<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s: String = serde::Deserialize::deserialize(d)?;
    let s = s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("missing prefix"))?;
    hex::decode(s).map_err(serde::de::Error::custom)
}
fn bit_index(path: Path, parent: GeneralizedIndex, n: usize) -> Result<GeneralizedIndex, MerkleizationError> {
    match path {
        [] => Ok(parent),
        [PathElement::Index(i)] if *i < n => Ok(parent * n.div_ceil(256).next_power_of_two() + i / 256),
        [e, ..] => Err(MerkleizationError::InvalidPathElement(e.clone())),
    }
}

macro_rules! common {
    ($name:ident) => {
        impl<const N: usize> Deref for $name<N> {
            type Target = Vec<bool>;
            fn deref(&self) -> &Vec<bool> {
                &self.0
            }
        }
        impl<const N: usize> HashTreeRoot for $name<N> {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                Ok(self.compute_tree()?.root())
            }
        }
        impl<const N: usize> SimpleSerialize for $name<N> {}
        impl<const N: usize> serde::Serialize for $name<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&hex_of(&serialize(self).map_err(serde::ser::Error::custom)?))
            }
        }
        impl<'de, const N: usize> serde::Deserialize<'de> for $name<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                deserialize(&unhex(d)?).map_err(serde::de::Error::custom)
            }
        }
    };
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Bitvector<const N: usize>(Vec<bool>);
common!(Bitvector);
impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Self(vec![false; N])
    }
}
impl<const N: usize> Bitvector<N> {
    pub fn set(&mut self, i: usize, value: bool) {
        self.0[i] = value;
    }
}
impl<const N: usize> Serializable for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N.div_ceil(8)
    }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend(pack(&self.0, N.div_ceil(8)));
        Ok(N.div_ceil(8))
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError> {
        let expected = N.div_ceil(8);
        if encoding.len() < expected {
            return Err(DeserializeError::ExpectedFurtherInput { provided: encoding.len(), expected });
        }
        if encoding.len() > expected {
            return Err(DeserializeError::AdditionalInput { provided: encoding.len(), expected });
        }
        if (N..expected * 8).any(|i| encoding[i / 8] >> (i % 8) & 1 == 1) {
            return Err(DeserializeError::InvalidByte(*encoding.last().unwrap()));
        }
        Ok(Self((0..N).map(|i| encoding[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitvector<N> {
    fn chunk_count() -> usize {
        N.div_ceil(256)
    }
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError> {
        bit_index(path, parent, N)
    }
}
impl<const N: usize> Prove for Bitvector<N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        Tree::new(collections::chunks(&pack(&self.0, N.div_ceil(8))), N.div_ceil(256))
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Bitlist<const N: usize>(Vec<bool>);
common!(Bitlist);
impl<const N: usize> DerefMut for Bitlist<N> {
    fn deref_mut(&mut self) -> &mut Vec<bool> {
        &mut self.0
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitlist<N> {
    type Error = DeserializeError;
    fn try_from(bits: &[bool]) -> Result<Self, DeserializeError> {
        if bits.len() > N {
            return Err(DeserializeError::LengthExceeded { len: bits.len(), bound: N });
        }
        Ok(Self(bits.to_vec()))
    }
}
impl<const N: usize> Serializable for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let mut bits = self.0.clone();
        bits.push(true);
        buffer.extend(pack(&bits, bits.len().div_ceil(8)));
        Ok(bits.len().div_ceil(8))
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError> {
        let last = *encoding
            .last()
            .ok_or(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 })?;
        let top = last.checked_ilog2().ok_or(DeserializeError::InvalidByte(0))? as usize;
        let len = (encoding.len() - 1) * 8 + top;
        if len > N {
            return Err(DeserializeError::LengthExceeded { len, bound: N });
        }
        Ok(Self((0..len).map(|i| encoding[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitlist<N> {
    fn chunk_count() -> usize {
        N.div_ceil(256)
    }
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError> {
        match path {
            [PathElement::Length] => Ok(parent * 2 + 1),
            [] => Ok(parent),
            _ => bit_index(path, parent * 2, N),
        }
    }
}
impl<const N: usize> Prove for Bitlist<N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        let bytes = pack(&self.0, self.0.len().div_ceil(8));
        Ok(Tree::new(collections::chunks(&bytes), N.div_ceil(256))?.with_mixin(self.0.len()))
    }
}
