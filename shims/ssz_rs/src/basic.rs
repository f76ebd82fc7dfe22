use crate::*;

macro_rules! basic {
    ($t:ty, $n:expr, $ser:expr, $de:expr) => {
        impl Serializable for $t {
            fn is_variable_size() -> bool {
                false
            }
            fn size_hint() -> usize {
                $n
            }
        }
        impl Serialize for $t {
            fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
                let b: [u8; $n] = $ser(self);
                buffer.extend(b);
                Ok($n)
            }
        }
        impl Deserialize for $t {
            fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError> {
                if encoding.len() < $n {
                    return Err(DeserializeError::ExpectedFurtherInput { provided: encoding.len(), expected: $n });
                }
                let b: [u8; $n] = encoding.try_into().map_err(|_| DeserializeError::AdditionalInput {
                    provided: encoding.len(),
                    expected: $n,
                })?;
                $de(b)
            }
        }
        impl HashTreeRoot for $t {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                let b: [u8; $n] = $ser(self);
                let mut out = Node::ZERO;
                out.0[..$n].copy_from_slice(&b);
                Ok(out)
            }
            fn is_composite_type() -> bool {
                false
            }
        }
        leaf!($t);
        impl SimpleSerialize for $t {}
    };
}
macro_rules! leaf {
    ($t:ty) => {
        impl GeneralizedIndexable for $t {
            fn compute_generalized_index(
                path: Path,
                parent: GeneralizedIndex,
            ) -> Result<GeneralizedIndex, MerkleizationError> {
                match path.first() {
                    None => Ok(parent),
                    Some(_) => Err(MerkleizationError::InvalidPath(path.to_vec())),
                }
            }
        }
        impl Prove for $t {
            fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
                Tree::new(vec![self.hash_tree_root()?], 1)
            }
        }
    };
}
macro_rules! uints {
    ($($t:ty, $n:expr;)*) => { $( basic!($t, $n, |x: &$t| x.to_le_bytes(), |b| Ok(<$t>::from_le_bytes(b))); )* };
}
uints! { u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; }
basic!(usize, 8, |x: &usize| (*x as u64).to_le_bytes(), |b| Ok(u64::from_le_bytes(b) as usize));
basic!(bool, 1, |x: &bool| [u8::from(*x)], |b: [u8; 1]| match b[0] {
    0 => Ok(false),
    1 => Ok(true),
    x => Err(DeserializeError::InvalidByte(x)),
});
basic!(U256, 32, |x: &U256| x.to_le_bytes::<32>(), |b| Ok(U256::from_le_bytes::<32>(b)));

// A B256 is a vector of 32 bytes: one chunk.
impl Serializable for Node {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for Node {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend(self.0);
        Ok(32)
    }
}
impl Deserialize for Node {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError> {
        <[u8; 32]>::deserialize(encoding).map(Node::from)
    }
}
impl HashTreeRoot for Node {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(*self)
    }
}
impl GeneralizedIndexable for Node {
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError> {
        <[u8; 32]>::compute_generalized_index(path, parent)
    }
}
impl Prove for Node {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        Tree::new(vec![*self], 1)
    }
}
impl SimpleSerialize for Node {}

// Arrays of bytes are vectors.
impl<const N: usize> Serializable for [u8; N] {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N
    }
}
impl<const N: usize> Serialize for [u8; N] {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend(self);
        Ok(N)
    }
}
impl<const N: usize> Deserialize for [u8; N] {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError> {
        if encoding.len() < N {
            return Err(DeserializeError::ExpectedFurtherInput { provided: encoding.len(), expected: N });
        }
        encoding
            .try_into()
            .map_err(|_| DeserializeError::AdditionalInput { provided: encoding.len(), expected: N })
    }
}
impl<const N: usize> HashTreeRoot for [u8; N] {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(self.compute_tree()?.root())
    }
}
impl<const N: usize> GeneralizedIndexable for [u8; N] {
    fn chunk_count() -> usize {
        N.div_ceil(32)
    }
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError> {
        Vector::<u8, N>::compute_generalized_index(path, parent)
    }
}
impl<const N: usize> Prove for [u8; N] {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        Tree::new(collections::chunks(self), N.div_ceil(32))
    }
}
impl<const N: usize> SimpleSerialize for [u8; N] {}
