use crate::*;
use std::ops::{Deref, DerefMut};

/// Packs bytes into chunks.
pub(crate) fn chunks(bytes: &[u8]) -> Vec<Node> {
    bytes
        .chunks(32)
        .map(|c| {
            let mut n = Node::ZERO;
            n.0[..c.len()].copy_from_slice(c);
            n
        })
        .collect()
}

fn chunk_count<T: HashTreeRoot + Serializable>(n: usize) -> usize {
    if T::is_composite_type() { n } else { (n * T::size_hint()).div_ceil(32) }
}

fn element_tree<T: SimpleSerialize>(data: &[T], n: usize) -> Result<Tree, MerkleizationError> {
    let leaves = if T::is_composite_type() {
        data.iter().map(|e| e.hash_tree_root()).collect::<Result<Vec<_>, _>>()?
    } else {
        let mut bytes = Vec::new();
        for e in data {
            e.serialize(&mut bytes)?;
        }
        chunks(&bytes)
    };
    Tree::new(leaves, chunk_count::<T>(n))
}

fn element_index<T: SimpleSerialize>(
    path: Path,
    parent: GeneralizedIndex,
    i: usize,
    n: usize,
) -> Result<GeneralizedIndex, MerkleizationError> {
    if i >= n {
        return Err(MerkleizationError::InvalidPathElement(PathElement::Index(i)));
    }
    let chunk = if T::is_composite_type() { i } else { i * T::size_hint() / 32 };
    T::compute_generalized_index(path, parent * chunk_count::<T>(n).next_power_of_two() + chunk)
}

fn element_below<T: SimpleSerialize>(
    data: &[T],
    chunk: usize,
    index: GeneralizedIndex,
) -> Result<proofs::Proof, MerkleizationError> {
    if !T::is_composite_type() {
        return Err(MerkleizationError::NoInnerElement);
    }
    __internal::below(data.get(chunk).ok_or(MerkleizationError::InvalidInnerIndex)?, index)
}

fn serialize_elements<T: SimpleSerialize>(data: &[T], buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
    if T::is_variable_size() {
        let mut w = __internal::Writer::default();
        for e in data {
            w.field(e)?;
        }
        w.finish(buffer)
    } else {
        let before = buffer.len();
        for e in data {
            e.serialize(buffer)?;
        }
        Ok(buffer.len() - before)
    }
}

fn deserialize_elements<T: SimpleSerialize>(encoding: &[u8]) -> Result<Vec<T>, DeserializeError> {
    if encoding.is_empty() {
        return Ok(Vec::new());
    }
    if T::is_variable_size() {
        if encoding.len() < 4 {
            return Err(DeserializeError::ExpectedFurtherInput { provided: encoding.len(), expected: 4 });
        }
        let first = u32::from_le_bytes(encoding[..4].try_into().unwrap()) as usize;
        if first == 0 || first % 4 != 0 || first > encoding.len() {
            return Err(DeserializeError::InvalidOffset(first));
        }
        let mut r = __internal::Reader::new(encoding);
        for _ in 0..first / 4 {
            r.declare::<T>()?;
        }
        r.begin()?;
        (0..first / 4).map(|_| r.field()).collect()
    } else {
        let n = T::size_hint();
        if encoding.len() % n != 0 {
            return Err(DeserializeError::AdditionalInput {
                provided: encoding.len(),
                expected: encoding.len() / n * n,
            });
        }
        encoding.chunks(n).map(T::deserialize).collect()
    }
}

macro_rules! common {
    ($name:ident) => {
        impl<T, const N: usize> Deref for $name<T, N> {
            type Target = Vec<T>;
            fn deref(&self) -> &Vec<T> {
                &self.0
            }
        }
        impl<T, const N: usize> AsRef<[T]> for $name<T, N> {
            fn as_ref(&self) -> &[T] {
                &self.0
            }
        }
        impl<T, const N: usize> From<$name<T, N>> for Vec<T> {
            fn from(v: $name<T, N>) -> Vec<T> {
                v.0
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a $name<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.iter()
            }
        }
        impl<T, const N: usize> IntoIterator for $name<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.into_iter()
            }
        }
        impl<T: SimpleSerialize, const N: usize> SimpleSerialize for $name<T, N> {}
        impl<T: SimpleSerialize, const N: usize> Serialize for $name<T, N> {
            fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
                serialize_elements(&self.0, buffer)
            }
        }
        impl<T: SimpleSerialize, const N: usize> HashTreeRoot for $name<T, N> {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                Ok(self.compute_tree()?.root())
            }
        }
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $name<T, N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_seq(&self.0)
            }
        }
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for $name<T, N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let v: Vec<T> = serde::Deserialize::deserialize(d)?;
                Self::try_from(v).map_err(|(_, e)| serde::de::Error::custom(e))
            }
        }
        impl<T, const N: usize> Sequence for $name<T, N> {
            type Item = T;
            fn elements(&self) -> &[T] {
                &self.0
            }
            fn from_elements(v: Vec<T>) -> Result<Self, DeserializeError> {
                Self::try_from(v).map_err(|(_, e)| e)
            }
        }
    };
}

/// The sequences, for generic serde adapters.
pub trait Sequence: Sized {
    type Item;
    fn elements(&self) -> &[Self::Item];
    fn from_elements(v: Vec<Self::Item>) -> Result<Self, DeserializeError>;
}

/// At most N elements.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct List<T, const N: usize>(Vec<T>);
common!(List);
impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        Self(Vec::new())
    }
}
impl<T, const N: usize> DerefMut for List<T, N> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.0
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = (Vec<T>, DeserializeError);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        let len = v.len();
        if len > N { Err((v, DeserializeError::LengthExceeded { len, bound: N })) } else { Ok(Self(v)) }
    }
}
impl<T: SimpleSerialize, const N: usize> Serializable for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<T: SimpleSerialize, const N: usize> Deserialize for List<T, N> {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError> {
        Self::try_from(deserialize_elements(encoding)?).map_err(|(_, e)| e)
    }
}
impl<T: SimpleSerialize, const N: usize> GeneralizedIndexable for List<T, N> {
    fn chunk_count() -> usize {
        chunk_count::<T>(N)
    }
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError> {
        match path.split_first() {
            None => Ok(parent),
            Some((PathElement::Length, [])) => Ok(parent * 2 + 1),
            Some((PathElement::Index(i), rest)) => element_index::<T>(rest, parent * 2, *i, N),
            Some((e, _)) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> Prove for List<T, N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        Ok(element_tree(&self.0, N)?.with_mixin(self.0.len()))
    }
    fn prove_below(&self, chunk: usize, index: GeneralizedIndex) -> Result<proofs::Proof, MerkleizationError> {
        element_below(&self.0, chunk, index)
    }
}

/// Exactly N elements.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Vector<T, const N: usize>(Vec<T>);
common!(Vector);
impl<T: Default + Clone, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        Self(vec![T::default(); N])
    }
}
impl<T, const N: usize> std::ops::IndexMut<usize> for Vector<T, N> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.0[i]
    }
}
impl<T, const N: usize> std::ops::Index<usize> for Vector<T, N> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.0[i]
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = (Vec<T>, DeserializeError);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        let len = v.len();
        if len != N { Err((v, DeserializeError::LengthExceeded { len, bound: N })) } else { Ok(Self(v)) }
    }
}
impl<T: SimpleSerialize, const N: usize> Serializable for Vector<T, N> {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint() * N
    }
}
impl<T: SimpleSerialize, const N: usize> Deserialize for Vector<T, N> {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError> {
        Self::try_from(deserialize_elements(encoding)?).map_err(|(_, e)| e)
    }
}
impl<T: SimpleSerialize, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn chunk_count() -> usize {
        chunk_count::<T>(N)
    }
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError> {
        match path.split_first() {
            None => Ok(parent),
            Some((PathElement::Index(i), rest)) => element_index::<T>(rest, parent, *i, N),
            Some((e, _)) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> Prove for Vector<T, N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        element_tree(&self.0, N)
    }
    fn prove_below(&self, chunk: usize, index: GeneralizedIndex) -> Result<proofs::Proof, MerkleizationError> {
        element_below(&self.0, chunk, index)
    }
}
