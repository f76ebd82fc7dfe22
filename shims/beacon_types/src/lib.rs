//! Stand-in for lighthouse's `types` (cannot be fetched here), written from the consensus
//! specification: the types, constants and computations that the code under test uses.
use safe_arith::ArithError;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use ssz::{Decode, DecodeError, Encode};
use std::fmt;
use std::ops::Range;
use std::str::FromStr;

mod attest;
mod slot_epoch;
mod spec;

pub use alloy_primitives as primitives;
pub use attest::*;
pub use bls::{
    AggregateSignature, Keypair, PublicKey, PublicKeyBytes, SecretKey, Signature,
};
pub use slot_epoch::{Epoch, Slot};
pub use spec::{ChainSpec, Config, Domain, EthSpec, EthSpecId, MainnetEthSpec, MinimalEthSpec, U, Unsigned};
pub use tree_hash::TreeHash;

pub type Hash256 = alloy_primitives::B256;
pub type CommitteeIndex = u64;

pub trait FixedBytesExtended {
    fn from_low_u64_be(value: u64) -> Self;
    fn from_low_u64_le(value: u64) -> Self;
    fn zero() -> Self;
}
impl FixedBytesExtended for Hash256 {
    fn from_low_u64_be(value: u64) -> Self {
        let mut b = [0; 32];
        b[24..].copy_from_slice(&value.to_be_bytes());
        b.into()
    }
    fn from_low_u64_le(value: u64) -> Self {
        let mut b = [0; 32];
        b[..8].copy_from_slice(&value.to_le_bytes());
        b.into()
    }
    fn zero() -> Self {
        Self::ZERO
    }
}

/// What host's test harness reads of lighthouse's state.
#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(bound = "")]
pub struct BeaconState<E: EthSpec> {
    pub slot: Slot,
    pub fork: Fork,
    pub genesis_validators_root: Hash256,
    pub current_justified_checkpoint: Checkpoint,
    pub finalized_checkpoint: Checkpoint,
    #[serde(skip)]
    pub fork_name: ForkName,
    #[serde(skip)]
    pub _p: std::marker::PhantomData<E>,
}
impl<E: EthSpec> BeaconState<E> {
    pub fn slot(&self) -> Slot {
        self.slot
    }
    pub fn fork(&self) -> Fork {
        self.fork
    }
    pub fn genesis_validators_root(&self) -> Hash256 {
        self.genesis_validators_root
    }
    pub fn current_justified_checkpoint(&self) -> Checkpoint {
        self.current_justified_checkpoint
    }
    pub fn finalized_checkpoint(&self) -> Checkpoint {
        self.finalized_checkpoint
    }
    pub fn fork_name_unchecked(&self) -> ForkName {
        self.fork_name
    }
}

pub mod attestation {
    pub use crate::attest::*;
}
pub mod test_utils {
    pub fn generate_deterministic_keypair(i: usize) -> bls::Keypair {
        let mut b = [7u8; 32];
        b[..8].copy_from_slice(&(i as u64).to_le_bytes());
        let sk = bls::SecretKey::deserialize(&b).unwrap();
        bls::Keypair { pk: sk.public_key(), sk }
    }
    pub fn generate_deterministic_keypairs(n: usize) -> Vec<bls::Keypair> {
        (0..n).map(generate_deterministic_keypair).collect()
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum Error {
    ArithError(ArithError),
    IncorrectStateVariant,
    InsufficientValidators,
    InvalidBitfield,
    OutOfBounds,
}
impl From<ArithError> for Error {
    fn from(e: ArithError) -> Self {
        Error::ArithError(e)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(try_from = "String", into = "String")]
pub enum ForkName {
    Base,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
    Fulu,
    Gloas,
}
impl ForkName {
    pub fn list_all() -> Vec<ForkName> {
        use ForkName::*;
        vec![Base, Altair, Bellatrix, Capella, Deneb, Electra, Fulu, Gloas]
    }
    pub fn latest() -> ForkName {
        ForkName::Gloas
    }
    pub fn latest_stable() -> ForkName {
        ForkName::Electra
    }
    pub fn previous_fork(self) -> Option<ForkName> {
        let all = Self::list_all();
        all.iter().position(|f| *f == self).and_then(|i| i.checked_sub(1)).map(|i| all[i])
    }
    pub fn next_fork(self) -> Option<ForkName> {
        let all = Self::list_all();
        all.iter().position(|f| *f == self).and_then(|i| all.get(i + 1).copied())
    }
    pub fn altair_enabled(self) -> bool {
        self >= ForkName::Altair
    }
    pub fn bellatrix_enabled(self) -> bool {
        self >= ForkName::Bellatrix
    }
    pub fn capella_enabled(self) -> bool {
        self >= ForkName::Capella
    }
    pub fn deneb_enabled(self) -> bool {
        self >= ForkName::Deneb
    }
    pub fn gloas_enabled(self) -> bool {
        self >= ForkName::Gloas
    }
    pub fn electra_enabled(self) -> bool {
        self >= ForkName::Electra
    }
    pub fn fulu_enabled(self) -> bool {
        self >= ForkName::Fulu
    }
}
impl fmt::Display for ForkName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            ForkName::Base => "phase0",
            ForkName::Altair => "altair",
            ForkName::Bellatrix => "bellatrix",
            ForkName::Capella => "capella",
            ForkName::Deneb => "deneb",
            ForkName::Electra => "electra",
            ForkName::Fulu => "fulu",
            ForkName::Gloas => "gloas",
        })
    }
}
impl FromStr for ForkName {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Self::list_all()
            .into_iter()
            .find(|f| f.to_string() == s.to_lowercase())
            .ok_or_else(|| format!("unknown fork name: {s}"))
    }
}
impl From<ForkName> for String {
    fn from(f: ForkName) -> String {
        f.to_string()
    }
}
impl TryFrom<String> for ForkName {
    type Error = String;
    fn try_from(s: String) -> Result<Self, String> {
        s.parse()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Default, Eq, Hash, Serialize, Deserialize)]
pub struct Fork {
    pub previous_version: [u8; 4],
    pub current_version: [u8; 4],
    pub epoch: Epoch,
}
impl Fork {
    pub fn get_fork_version(&self, epoch: Epoch) -> [u8; 4] {
        if epoch < self.epoch { self.previous_version } else { self.current_version }
    }
    pub fn genesis(v: [u8; 4]) -> Self {
        Self { previous_version: v, current_version: v, epoch: Epoch::new(0) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash, Serialize, Deserialize)]
pub struct Checkpoint {
    pub epoch: Epoch,
    pub root: Hash256,
}
impl TreeHash for Checkpoint {
    fn tree_hash_type() -> tree_hash::TreeHashType {
        tree_hash::TreeHashType::Container
    }
    fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding {
        unreachable!("a container is never packed")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("a container is never packed")
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle(&[self.epoch.tree_hash_root(), self.root])
    }
}

#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
pub struct SigningData {
    pub object_root: Hash256,
    pub domain: Hash256,
}
impl SigningData {
    fn root(&self) -> Hash256 {
        merkle(&[self.object_root, self.domain])
    }
}

impl TreeHash for SigningData {
    fn tree_hash_type() -> tree_hash::TreeHashType {
        tree_hash::TreeHashType::Container
    }
    fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding {
        unreachable!("a container is never packed")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("a container is never packed")
    }
    fn tree_hash_root(&self) -> Hash256 {
        self.root()
    }
}

pub trait SignedRoot: TreeHash {
    fn signing_root(&self, domain: Hash256) -> Hash256 {
        SigningData { object_root: self.tree_hash_root(), domain }.root()
    }
}

/// The Merkle root of `leaves`, padded with zero chunks to a power of two.
pub fn merkle(leaves: &[Hash256]) -> Hash256 {
    let mut level = leaves.to_vec();
    level.resize(leaves.len().next_power_of_two(), Hash256::ZERO);
    while level.len() > 1 {
        level = level
            .chunks(2)
            .map(|p| {
                let h: [u8; 32] = Sha256::new().chain_update(p[0]).chain_update(p[1]).finalize().into();
                h.into()
            })
            .collect();
    }
    level[0]
}

pub fn compute_committee_index_in_epoch(
    slot: Slot,
    slots_per_epoch: usize,
    committees_per_slot: usize,
    committee_index: usize,
) -> usize {
    (slot.as_usize() % slots_per_epoch) * committees_per_slot + committee_index
}

pub fn compute_committee_range_in_epoch(
    epoch_committee_count: usize,
    index_in_epoch: usize,
    shuffling_len: usize,
) -> Option<Range<usize>> {
    if epoch_committee_count == 0 || index_in_epoch >= epoch_committee_count {
        return None;
    }
    let start = (shuffling_len * index_in_epoch) / epoch_committee_count;
    let end = (shuffling_len * (index_in_epoch + 1)) / epoch_committee_count;
    Some(start..end)
}

pub fn epoch_committee_count(committees_per_slot: usize, slots_per_epoch: usize) -> usize {
    committees_per_slot * slots_per_epoch
}

/// A reader of the fixed part of an SSZ container.
pub(crate) struct Reader<'a>(&'a [u8]);
impl<'a> Reader<'a> {
    pub(crate) fn new(bytes: &'a [u8], fixed: usize) -> Result<Self, DecodeError> {
        if bytes.len() < fixed {
            return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: fixed });
        }
        Ok(Self(bytes))
    }
    pub(crate) fn next<T: Decode>(&mut self) -> Result<T, DecodeError> {
        let (head, tail) = self.0.split_at(T::ssz_fixed_len());
        self.0 = tail;
        T::from_ssz_bytes(head)
    }
    pub(crate) fn raw(&mut self, n: usize) -> &'a [u8] {
        let (head, tail) = self.0.split_at(n);
        self.0 = tail;
        head
    }
}

impl Encode for Checkpoint {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        40
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.epoch.ssz_append(buf);
        self.root.ssz_append(buf);
    }
}
impl Decode for Checkpoint {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        40
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        if bytes.len() != 40 {
            return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: 40 });
        }
        let mut r = Reader::new(bytes, 40)?;
        Ok(Self { epoch: r.next()?, root: r.next()? })
    }
}
