//! Blocks of any fork (Deneb and Electra suffice for the checks).
use crate::primitives::*;
use crate::{Fork, deneb, electra};
use ssz_rs::prelude::*;

pub mod mainnet {
    pub type BeaconBlock = super::BeaconBlock;
}

#[derive(Debug, Clone, PartialEq, Eq, HashTreeRoot, ::serde::Serialize)]
#[ssz(transparent)]
#[serde(untagged)]
pub enum BeaconBlock {
    Deneb(deneb::BeaconBlock),
    Electra(electra::BeaconBlock),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BeaconBlockBodyRef<'a> {
    Deneb(&'a deneb::BeaconBlockBody),
    Electra(&'a electra::BeaconBlockBody),
}
impl BeaconBlock {
    pub fn version(&self) -> Fork {
        match self {
            Self::Deneb(_) => Fork::Deneb,
            Self::Electra(_) => Fork::Electra,
        }
    }
    pub fn slot(&self) -> Slot {
        match self {
            Self::Deneb(b) => b.slot,
            Self::Electra(b) => b.slot,
        }
    }
    pub fn proposer_index(&self) -> ValidatorIndex {
        match self {
            Self::Deneb(b) => b.proposer_index,
            Self::Electra(b) => b.proposer_index,
        }
    }
    pub fn parent_root(&self) -> Root {
        match self {
            Self::Deneb(b) => b.parent_root,
            Self::Electra(b) => b.parent_root,
        }
    }
    pub fn state_root(&self) -> Root {
        match self {
            Self::Deneb(b) => b.state_root,
            Self::Electra(b) => b.state_root,
        }
    }
    pub fn body(&self) -> BeaconBlockBodyRef<'_> {
        match self {
            Self::Deneb(b) => BeaconBlockBodyRef::Deneb(&b.body),
            Self::Electra(b) => BeaconBlockBodyRef::Electra(&b.body),
        }
    }
    pub fn electra(&self) -> Option<&electra::BeaconBlock> {
        match self {
            Self::Electra(b) => Some(b),
            _ => None,
        }
    }
}
impl<'de> ::serde::Deserialize<'de> for BeaconBlock {
    fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let value = <serde_json::Value as ::serde::Deserialize>::deserialize(d)?;
        if let Ok(b) = <_ as ::serde::Deserialize>::deserialize(&value) {
            return Ok(Self::Electra(b));
        }
        if let Ok(b) = <_ as ::serde::Deserialize>::deserialize(&value) {
            return Ok(Self::Deneb(b));
        }
        Err(::serde::de::Error::custom("no variant could be deserialized from input"))
    }
}
