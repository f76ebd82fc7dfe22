//! Stand-in for ethereum-consensus (cannot be fetched here), written from the consensus specification:
//! the containers, presets and serde adapters that the code under test uses.
use std::fmt;
use std::str::FromStr;

pub mod serde;
pub mod ssz;

pub mod primitives {
    pub use crate::ssz::{ByteList, ByteVector};
    pub type Root = ssz_rs::Node;
    pub type Slot = u64;
    pub type Epoch = u64;
    pub type CommitteeIndex = usize;
    pub type ValidatorIndex = usize;
    pub type WithdrawalIndex = usize;
    pub type BlobIndex = usize;
    pub type Gwei = u64;
    pub type Bytes32 = ByteVector<32>;
    pub type Hash32 = Bytes32;
    pub type Version = [u8; 4];
    pub type ForkDigest = [u8; 4];
    pub type Domain = [u8; 32];
    pub type BlsPublicKey = ByteVector<48>;
    pub type BlsSignature = ByteVector<96>;
    pub type KzgCommitment = ByteVector<48>;
    pub type ExecutionAddress = ByteVector<20>;
    pub type ParticipationFlags = u8;
    pub type ChainId = usize;
    pub type NetworkId = usize;
    pub const FAR_FUTURE_EPOCH: Epoch = Epoch::MAX;
}
pub mod crypto {
    pub type PublicKey = crate::primitives::BlsPublicKey;
    pub type Signature = crate::primitives::BlsSignature;
}

pub mod altair;
pub mod bellatrix;
pub mod capella;
pub mod deneb;
pub mod electra;
pub mod phase0;
pub mod types;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Fork {
    Phase0,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
    Fulu,
}
const FORKS: [(Fork, &str); 7] = [
    (Fork::Phase0, "phase0"),
    (Fork::Altair, "altair"),
    (Fork::Bellatrix, "bellatrix"),
    (Fork::Capella, "capella"),
    (Fork::Deneb, "deneb"),
    (Fork::Electra, "electra"),
    (Fork::Fulu, "fulu"),
];
impl fmt::Display for Fork {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(FORKS.iter().find(|x| x.0 == *self).unwrap().1)
    }
}
impl FromStr for Fork {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        FORKS.iter().find(|x| x.1 == s).map(|x| x.0).ok_or_else(|| format!("unknown fork {s}"))
    }
}
impl ::serde::Serialize for Fork {
    fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> ::serde::Deserialize<'de> for Fork {
    fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as ::serde::Deserialize>::deserialize(d)?;
        s.parse().map_err(::serde::de::Error::custom)
    }
}
