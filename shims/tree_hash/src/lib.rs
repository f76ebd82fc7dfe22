//! Stand-in for the tree_hash crate: the trait, and what the other stand-ins implement.
pub use alloy_primitives::B256 as Hash256;

pub type PackedEncoding = Vec<u8>;

pub const BYTES_PER_CHUNK: usize = 32;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}

pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType;
    fn tree_hash_packed_encoding(&self) -> PackedEncoding;
    fn tree_hash_packing_factor() -> usize;
    fn tree_hash_root(&self) -> Hash256;
}

impl TreeHash for u64 {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Basic
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        self.to_le_bytes().to_vec()
    }
    fn tree_hash_packing_factor() -> usize {
        4
    }
    fn tree_hash_root(&self) -> Hash256 {
        let mut r = Hash256::ZERO;
        r[..8].copy_from_slice(&self.to_le_bytes());
        r
    }
}

impl TreeHash for Hash256 {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        self.to_vec()
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        *self
    }
}
