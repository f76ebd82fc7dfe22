//! Stand-in for ssz_rs (cannot be fetched here), written from the SSZ specification: encoding,
//! Merkleization, generalized indices and single proofs, with the names that the code under test uses.
pub use alloy_primitives::U256;
pub use ssz_rs_derive::{GeneralizedIndexable, HashTreeRoot, Prove, Serializable, SimpleSerialize};
use std::fmt;

mod basic;
mod bits;
mod collections;
mod merkle;
pub mod proofs;

pub use bits::{Bitlist, Bitvector};
pub use collections::{List, Sequence, Vector};
pub use merkle::Tree;

pub type Node = alloy_primitives::B256;
pub type GeneralizedIndex = usize;
pub type Path<'a> = &'a [PathElement];

pub const BYTES_PER_CHUNK: usize = 32;

pub mod prelude {
    pub use crate as ssz_rs;
    pub use crate::proofs::Prover;
    pub use crate::{
        Bitlist, Bitvector, Deserialize, DeserializeError, GeneralizedIndex, GeneralizedIndexable, HashTreeRoot,
        List, MerkleizationError, Node, Path, PathElement, Prove, Serializable, Serialize, SerializeError,
        SimpleSerialize, SimpleSerializeError, U256, Vector, deserialize, serialize,
    };
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SerializeError {
    MaximumEncodedLengthExceeded(usize),
    InvalidType(String),
}
impl fmt::Display for SerializeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for SerializeError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DeserializeError {
    ExpectedFurtherInput { provided: usize, expected: usize },
    AdditionalInput { provided: usize, expected: usize },
    InvalidByte(u8),
    InvalidInput,
    OffsetNotIncreasing { start: usize, end: usize },
    InvalidOffset(usize),
    LengthExceeded { len: usize, bound: usize },
}
impl fmt::Display for DeserializeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DeserializeError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleizationError {
    SerializationError(SerializeError),
    CannotMerkleize,
    InputExceedsLimit(usize),
    InvalidGeneralizedIndex,
    InvalidDepth,
    InvalidInnerIndex,
    InvalidPathElement(PathElement),
    InvalidPath(Vec<PathElement>),
    NoInnerElement,
    NotChunked,
    InvalidProof,
}
impl fmt::Display for MerkleizationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MerkleizationError {}
impl From<SerializeError> for MerkleizationError {
    fn from(e: SerializeError) -> Self {
        Self::SerializationError(e)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SimpleSerializeError {
    Serialize(SerializeError),
    Deserialize(DeserializeError),
    Merkleization(MerkleizationError),
}
impl fmt::Display for SimpleSerializeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for SimpleSerializeError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Length,
    Selector,
    Index(usize),
    Field(String),
}
impl From<usize> for PathElement {
    fn from(i: usize) -> Self {
        Self::Index(i)
    }
}
impl From<&str> for PathElement {
    fn from(s: &str) -> Self {
        Self::Field(s.to_string())
    }
}

pub trait Serializable {
    fn is_variable_size() -> bool;
    /// The encoded size of a fixed-size type.
    fn size_hint() -> usize;
}
pub trait Serialize: Serializable {
    /// Appends the encoding and returns its length.
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize: Serializable {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>
    where
        Self: Sized;
}
pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
    /// Basic types are packed into chunks.
    fn is_composite_type() -> bool {
        true
    }
}
pub trait GeneralizedIndexable {
    fn chunk_count() -> usize {
        1
    }
    fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        Self::compute_generalized_index(path, 1)
    }
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex)
    -> Result<GeneralizedIndex, MerkleizationError>;
}
pub trait Prove: GeneralizedIndexable {
    /// The tree over the chunks of this value.
    fn compute_tree(&self) -> Result<Tree, MerkleizationError>;
    /// The proof of the node at `index` of the element at leaf `chunk` of this value's tree.
    fn prove_below(&self, _chunk: usize, _index: GeneralizedIndex) -> Result<proofs::Proof, MerkleizationError> {
        Err(MerkleizationError::NoInnerElement)
    }
    fn prove(&self, path: Path) -> Result<(proofs::Proof, Node), MerkleizationError>
    where
        Self: Sized,
    {
        let index = Self::generalized_index(path)?;
        let tree = self.compute_tree()?;
        Ok((proofs::prove(self, &tree, index)?, tree.root()))
    }
}
pub trait SimpleSerialize: Serialize + Deserialize + HashTreeRoot + GeneralizedIndexable + Prove + Sized {}

pub fn serialize<T: Serialize + ?Sized>(value: &T) -> Result<Vec<u8>, SerializeError> {
    let mut out = Vec::new();
    value.serialize(&mut out)?;
    Ok(out)
}
pub fn deserialize<T: Deserialize>(encoding: &[u8]) -> Result<T, DeserializeError> {
    T::deserialize(encoding)
}

/// What the derive macros use.
#[doc(hidden)]
pub mod __internal {
    use super::*;
    use std::collections::VecDeque;

    pub fn below<T: Prove>(value: &T, index: GeneralizedIndex) -> Result<proofs::Proof, MerkleizationError> {
        let tree = value.compute_tree()?;
        proofs::prove(value, &tree, index)
    }

    #[derive(Default)]
    pub struct Writer {
        parts: Vec<(Vec<u8>, bool)>,
    }
    impl Writer {
        pub fn field<T: Serialize>(&mut self, value: &T) -> Result<(), SerializeError> {
            self.parts.push((serialize(value)?, T::is_variable_size()));
            Ok(())
        }
        pub fn finish(self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
            let fixed: usize = self.parts.iter().map(|(b, variable)| if *variable { 4 } else { b.len() }).sum();
            let mut offset = fixed;
            for (b, variable) in &self.parts {
                if *variable {
                    let o = u32::try_from(offset).map_err(|_| SerializeError::MaximumEncodedLengthExceeded(offset))?;
                    out.extend(o.to_le_bytes());
                    offset += b.len();
                } else {
                    out.extend(b);
                }
            }
            for (b, _) in self.parts.iter().filter(|p| p.1) {
                out.extend(b);
            }
            Ok(offset)
        }
    }

    pub struct Reader<'a> {
        input: &'a [u8],
        at: usize,
        /// where the fixed part of each declared field is, and whether it is an offset
        fields: Vec<(usize, usize, bool)>,
        parts: VecDeque<&'a [u8]>,
    }
    impl<'a> Reader<'a> {
        pub fn new(input: &'a [u8]) -> Self {
            Self { input, at: 0, fields: Vec::new(), parts: VecDeque::new() }
        }
        pub fn declare<T: Serializable>(&mut self) -> Result<(), DeserializeError> {
            let variable = T::is_variable_size();
            let n = if variable { 4 } else { T::size_hint() };
            self.fields.push((self.at, n, variable));
            self.at += n;
            Ok(())
        }
        pub fn begin(&mut self) -> Result<(), DeserializeError> {
            let (len, fixed) = (self.input.len(), self.at);
            if len < fixed {
                return Err(DeserializeError::ExpectedFurtherInput { provided: len, expected: fixed });
            }
            let offsets: Vec<usize> = self
                .fields
                .iter()
                .filter(|f| f.2)
                .map(|f| u32::from_le_bytes(self.input[f.0..f.0 + 4].try_into().unwrap()) as usize)
                .collect();
            match offsets.first() {
                None if len > fixed => {
                    return Err(DeserializeError::AdditionalInput { provided: len, expected: fixed });
                }
                Some(o) if *o != fixed => return Err(DeserializeError::InvalidOffset(*o)),
                _ => {}
            }
            let mut v = 0;
            for f in &self.fields {
                if f.2 {
                    let (start, end) = (offsets[v], offsets.get(v + 1).copied().unwrap_or(len));
                    v += 1;
                    if start > end || end > len {
                        return Err(DeserializeError::OffsetNotIncreasing { start, end });
                    }
                    self.parts.push_back(&self.input[start..end]);
                } else {
                    self.parts.push_back(&self.input[f.0..f.0 + f.1]);
                }
            }
            Ok(())
        }
        pub fn field<T: Deserialize>(&mut self) -> Result<T, DeserializeError> {
            T::deserialize(self.parts.pop_front().expect("declared"))
        }
    }
}
