//! Byte sequences.
use ssz_rs::proofs::Proof;
use ssz_rs::*;
use std::fmt;
use std::ops::{Deref, DerefMut};

pub mod prelude {
    pub use super::{ByteList, ByteVector};
    pub use ssz_rs;
    pub use ssz_rs::prelude::*;
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ByteVector<const N: usize>([u8; N]);
impl<const N: usize> ByteVector<N> {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> Default for ByteVector<N> {
    fn default() -> Self {
        Self([0; N])
    }
}
impl<const N: usize> Deref for ByteVector<N> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> DerefMut for ByteVector<N> {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl<const N: usize> AsRef<[u8]> for ByteVector<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> From<[u8; N]> for ByteVector<N> {
    fn from(b: [u8; N]) -> Self {
        Self(b)
    }
}
impl<const N: usize> TryFrom<&[u8]> for ByteVector<N> {
    type Error = DeserializeError;
    fn try_from(b: &[u8]) -> Result<Self, DeserializeError> {
        <[u8; N]>::deserialize(b).map(Self)
    }
}
impl<const N: usize> TryFrom<Vec<u8>> for ByteVector<N> {
    type Error = DeserializeError;
    fn try_from(b: Vec<u8>) -> Result<Self, DeserializeError> {
        Self::try_from(b.as_slice())
    }
}
impl<const N: usize> Serializable for ByteVector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N
    }
}
impl<const N: usize> Serialize for ByteVector<N> {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        self.0.serialize(buffer)
    }
}
impl<const N: usize> Deserialize for ByteVector<N> {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError> {
        <[u8; N]>::deserialize(encoding).map(Self)
    }
}
impl<const N: usize> HashTreeRoot for ByteVector<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        self.0.hash_tree_root()
    }
}
impl<const N: usize> GeneralizedIndexable for ByteVector<N> {
    fn chunk_count() -> usize {
        <[u8; N]>::chunk_count()
    }
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError> {
        <[u8; N]>::compute_generalized_index(path, parent)
    }
}
impl<const N: usize> Prove for ByteVector<N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        self.0.compute_tree()
    }
}
impl<const N: usize> SimpleSerialize for ByteVector<N> {}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct ByteList<const N: usize>(List<u8, N>);
impl<const N: usize> Deref for ByteList<N> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> AsRef<[u8]> for ByteList<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> TryFrom<Vec<u8>> for ByteList<N> {
    type Error = DeserializeError;
    fn try_from(b: Vec<u8>) -> Result<Self, DeserializeError> {
        List::try_from(b).map(Self).map_err(|e| e.1)
    }
}
impl<const N: usize> TryFrom<&[u8]> for ByteList<N> {
    type Error = DeserializeError;
    fn try_from(b: &[u8]) -> Result<Self, DeserializeError> {
        Self::try_from(b.to_vec())
    }
}
impl<const N: usize> Serializable for ByteList<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serialize for ByteList<N> {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        self.0.serialize(buffer)
    }
}
impl<const N: usize> Deserialize for ByteList<N> {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError> {
        List::deserialize(encoding).map(Self)
    }
}
impl<const N: usize> HashTreeRoot for ByteList<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        self.0.hash_tree_root()
    }
}
impl<const N: usize> GeneralizedIndexable for ByteList<N> {
    fn chunk_count() -> usize {
        List::<u8, N>::chunk_count()
    }
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError> {
        List::<u8, N>::compute_generalized_index(path, parent)
    }
}
impl<const N: usize> Prove for ByteList<N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        self.0.compute_tree()
    }
    fn prove_below(&self, chunk: usize, index: GeneralizedIndex) -> Result<Proof, MerkleizationError> {
        self.0.prove_below(chunk, index)
    }
}
impl<const N: usize> SimpleSerialize for ByteList<N> {}

macro_rules! text {
    ($t:ident) => {
        impl<const N: usize> fmt::Debug for $t<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "0x{}", hex::encode(self.as_ref()))
            }
        }
        impl<const N: usize> fmt::Display for $t<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "0x{}", hex::encode(self.as_ref()))
            }
        }
        impl<const N: usize> serde::Serialize for $t<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                crate::serde::as_hex::serialize(self, s)
            }
        }
        impl<'de, const N: usize> serde::Deserialize<'de> for $t<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                crate::serde::as_hex::deserialize(d)
            }
        }
    };
}
text!(ByteVector);
text!(ByteList);
