use crate::{GeneralizedIndex, MerkleizationError, Node};
use sha2::{Digest, Sha256};
use std::sync::OnceLock;

pub fn hash(a: &Node, b: &Node) -> Node {
    let mut h = Sha256::new();
    h.update(a.0);
    h.update(b.0);
    let out: [u8; 32] = h.finalize().into();
    out.into()
}

/// The root of the zero tree of each depth.
pub fn zeros() -> &'static [Node; 65] {
    static ZEROS: OnceLock<[Node; 65]> = OnceLock::new();
    ZEROS.get_or_init(|| {
        let mut z = [Node::ZERO; 65];
        for i in 1..65 {
            z[i] = hash(&z[i - 1], &z[i - 1]);
        }
        z
    })
}

/// The Merkle tree over some chunks, virtually padded with zero chunks to `chunk_count` rounded up to
/// a power of two, and optionally with a length (or selector) mixed in at the top.
#[derive(Debug, Clone)]
pub struct Tree {
    /// the nodes of each level from the leaves up, without the trailing padding
    levels: Vec<Vec<Node>>,
    mixin: Option<(Node, Node)>,
}

impl Tree {
    pub fn new(leaves: Vec<Node>, chunk_count: usize) -> Result<Self, MerkleizationError> {
        if leaves.len() > chunk_count {
            return Err(MerkleizationError::InputExceedsLimit(chunk_count));
        }
        let depth = chunk_count.max(1).next_power_of_two().trailing_zeros() as usize;
        let z = zeros();
        let mut levels = vec![leaves];
        for d in 0..depth {
            let below = &levels[d];
            let level = below
                .chunks(2)
                .map(|p| {
                    let b = p.get(1).unwrap_or(&z[d]);
                    if p[0] == z[d] && *b == z[d] { z[d + 1] } else { hash(&p[0], b) }
                })
                .collect();
            levels.push(level);
        }
        Ok(Self { levels, mixin: None })
    }

    pub fn with_mixin(mut self, value: usize) -> Self {
        let mut length = Node::ZERO;
        length.0[..8].copy_from_slice(&(value as u64).to_le_bytes());
        let root = hash(&self.root(), &length);
        self.mixin = Some((length, root));
        self
    }

    fn inner_depth(&self) -> usize {
        self.levels.len() - 1
    }
    /// The depth of the leaves, including the mixin layer.
    pub fn depth(&self) -> usize {
        self.inner_depth() + usize::from(self.mixin.is_some())
    }
    pub fn root(&self) -> Node {
        match self.mixin {
            Some((_, root)) => root,
            None => self.at(self.inner_depth(), 0),
        }
    }
    fn at(&self, level: usize, i: usize) -> Node {
        self.levels[level].get(i).copied().unwrap_or(zeros()[level])
    }
    /// The node at a generalized index that is not below the leaves of this tree.
    pub fn node(&self, index: GeneralizedIndex) -> Option<Node> {
        let depth = index.checked_ilog2()? as usize;
        if depth > self.depth() {
            return None;
        }
        if depth == 0 {
            return Some(self.root());
        }
        let (depth, i) = match self.mixin {
            None => (depth, index - (1 << depth)),
            Some((length, _)) => {
                if index == 3 {
                    return Some(length);
                }
                let i = index - (1 << depth);
                if i >> (depth - 1) != 0 {
                    return None;
                }
                (depth - 1, i)
            }
        };
        Some(self.at(self.inner_depth() - depth, i))
    }
    /// Splits an index below the leaves: the leaf and the index below it.
    pub fn split(&self, index: GeneralizedIndex) -> Option<(usize, GeneralizedIndex)> {
        let depth = index.checked_ilog2()? as usize;
        let below = depth.checked_sub(self.depth())?;
        let leaf = (index >> below) - (1 << self.depth());
        if self.mixin.is_some() && leaf >> (self.depth() - 1) != 0 {
            return None;
        }
        Some((leaf, (1 << below) | (index & ((1 << below) - 1))))
    }
}
