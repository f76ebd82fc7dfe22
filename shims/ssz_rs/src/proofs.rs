use crate::merkle::hash;
use crate::{GeneralizedIndex, MerkleizationError, Node, Prove, Tree};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Proof {
    pub leaf: Node,
    /// the siblings from the leaf up
    pub branch: Vec<Node>,
    pub index: GeneralizedIndex,
}
impl Proof {
    pub fn verify(&self, root: Node) -> Result<(), MerkleizationError> {
        let mut node = self.leaf;
        let mut index = self.index;
        for s in &self.branch {
            node = if index & 1 == 1 { hash(s, &node) } else { hash(&node, s) };
            index >>= 1;
        }
        if index == 1 && node == root { Ok(()) } else { Err(MerkleizationError::InvalidProof) }
    }
}
pub type ProofAndWitness = (Proof, Node);

/// The proof of the node at `index`; fails if the value has no such node.
pub fn prove<T: Prove + ?Sized>(value: &T, tree: &Tree, index: GeneralizedIndex) -> Result<Proof, MerkleizationError> {
    let depth = index.checked_ilog2().ok_or(MerkleizationError::InvalidGeneralizedIndex)? as usize;
    let (leaf, mut branch, top) = if depth <= tree.depth() {
        (tree.node(index).ok_or(MerkleizationError::NoInnerElement)?, Vec::new(), index)
    } else {
        let (chunk, below) = tree.split(index).ok_or(MerkleizationError::NoInnerElement)?;
        let p = value.prove_below(chunk, below)?;
        (p.leaf, p.branch, index >> (depth - tree.depth()))
    };
    let mut i = top;
    while i > 1 {
        branch.push(tree.node(i ^ 1).ok_or(MerkleizationError::NoInnerElement)?);
        i >>= 1;
    }
    Ok(Proof { leaf, branch, index })
}

#[derive(Debug)]
pub struct Prover {
    index: GeneralizedIndex,
    proof: Option<Proof>,
}
impl From<GeneralizedIndex> for Prover {
    fn from(index: GeneralizedIndex) -> Self {
        Self { index, proof: None }
    }
}
impl Prover {
    pub fn compute_proof<T: Prove + ?Sized>(&mut self, data: &T) -> Result<(), MerkleizationError> {
        let tree = data.compute_tree()?;
        self.compute_proof_cached_tree(data, &tree)
    }
    pub fn compute_proof_cached_tree<T: Prove + ?Sized>(
        &mut self,
        data: &T,
        tree: &Tree,
    ) -> Result<(), MerkleizationError> {
        self.proof = Some(prove(data, tree, self.index)?);
        Ok(())
    }
    pub fn into_proof(self) -> Proof {
        self.proof.unwrap_or(Proof { leaf: Node::ZERO, branch: Vec::new(), index: self.index })
    }
}
impl From<Prover> for Proof {
    fn from(p: Prover) -> Self {
        p.into_proof()
    }
}

pub fn is_valid_merkle_branch_for_generalized_index(
    leaf: Node,
    branch: &[Node],
    index: GeneralizedIndex,
    root: Node,
) -> Result<(), MerkleizationError> {
    Proof { leaf, branch: branch.to_vec(), index }.verify(root)
}
