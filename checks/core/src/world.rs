//! The reference chain: forks, domains, seeds, shuffling, committees and signing roots, written from
//! the consensus specification. Nothing here calls the code under test.

use crate::model::{Chunk, hash2};
use beacon_types::{AttestationData, ChainSpec, EthSpec, Unsigned};
use bls::{AggregateSignature, PublicKey, SecretKey};
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::BTreeMap;
use z_core::Epoch;

pub const FAR: u64 = u64::MAX;
pub const GWEI: u64 = 1_000_000_000;

pub fn sha(parts: &[&[u8]]) -> Chunk {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
/// A pseudo-random chunk that depends on all of `v`.
pub fn rnd(v: &[u64]) -> Chunk {
    let mut h = Sha256::new();
    for x in v {
        h.update(x.to_le_bytes());
    }
    h.finalize().into()
}
pub fn rnd64(v: &[u64]) -> u64 {
    u64::from_le_bytes(rnd(v)[..8].try_into().unwrap())
}
pub fn u64_chunk(n: u64) -> Chunk {
    let mut c = [0; 32];
    c[..8].copy_from_slice(&n.to_le_bytes());
    c
}

thread_local! {
    static KEYS: RefCell<BTreeMap<u16, (SecretKey, PublicKey)>> = const { RefCell::new(BTreeMap::new()) };
}
pub fn key(i: u16) -> (SecretKey, PublicKey) {
    KEYS.with(|k| {
        k.borrow_mut()
            .entry(i)
            .or_insert_with(|| {
                let sk = SecretKey::deserialize(&rnd(&[7, i as u64])).unwrap();
                let pk = sk.public_key();
                (sk, pk)
            })
            .clone()
    })
}

/// When the forks happen. Deneb is active from the start.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Net {
    pub electra: u64,
    pub fulu: Option<u64>,
    pub gloas: Option<u64>,
}
pub const DENEB: usize = 4;
pub const ELECTRA: usize = 5;
pub const FULU: usize = 6;

impl Net {
    pub const MAINNET: Net = Net { electra: 364_032, fulu: Some(411_392), gloas: None };
    pub const SEPOLIA: Net = Net { electra: 222_464, fulu: Some(272_640), gloas: None };
    pub fn spec<E: EthSpec>(&self) -> ChainSpec {
        let mut s = E::default_spec();
        let zero = Some(Epoch::new(0));
        (s.altair_fork_epoch, s.bellatrix_fork_epoch, s.capella_fork_epoch, s.deneb_fork_epoch) = (zero, zero, zero, zero);
        s.electra_fork_epoch = Some(Epoch::new(self.electra));
        s.fulu_fork_epoch = self.fulu.map(Epoch::new);
        s.gloas_fork_epoch = self.gloas.map(Epoch::new);
        if ![Self::MAINNET, Self::SEPOLIA].contains(self) {
            s.target_committee_size = 4;
        }
        s.config_name = Some("test".into());
        s
    }
    /// The fork at `epoch`: 0 is phase 0, 4 Deneb, 5 Electra, ...
    pub fn fork(&self, epoch: u64) -> usize {
        let mut at = DENEB;
        for (i, e) in [(5, Some(self.electra)), (6, self.fulu), (7, self.gloas)] {
            if e.is_some_and(|e| e <= epoch) {
                at = i;
            }
        }
        at
    }
    pub fn fork_epoch(&self, fork: usize) -> u64 {
        match fork {
            5 => self.electra,
            6 => self.fulu.unwrap(),
            7 => self.gloas.unwrap(),
            _ if *self == Self::MAINNET => 269_568,
            _ if *self == Self::SEPOLIA => 132_608,
            _ => 0,
        }
    }
    pub fn version<E: EthSpec>(&self, fork: usize) -> [u8; 4] {
        if *self == Self::SEPOLIA {
            return [0x90, 0, 0, 0x6f + fork as u8];
        }
        let minimal = E::slots_per_epoch() == 8;
        [fork as u8, 0, 0, u8::from(minimal)]
    }
}

/// `compute_shuffled_index` for all indices at once.
pub fn shuffled(n: usize, seed: &Chunk, rounds: u8) -> Vec<usize> {
    let mut at: Vec<usize> = (0..n).collect();
    for r in 0..rounds {
        let pivot = u64::from_le_bytes(sha(&[seed, &[r]])[..8].try_into().unwrap()) as usize % n;
        let mut sources: BTreeMap<u32, Chunk> = BTreeMap::new();
        for i in at.iter_mut() {
            let flip = (pivot + n - *i) % n;
            let position = (*i).max(flip);
            let block = (position / 256) as u32;
            let source = sources.entry(block).or_insert_with(|| sha(&[seed, &[r], &block.to_le_bytes()]));
            if source[position % 256 / 8] >> (position % 8) & 1 == 1 {
                *i = flip;
            }
        }
    }
    at
}

/// The committees of `epoch`: `committees[slot in epoch][index]`.
pub fn committees<E: EthSpec>(spec: &ChainSpec, active: &[usize], seed: &Chunk) -> Vec<Vec<Vec<usize>>> {
    let spe = E::slots_per_epoch() as usize;
    let n = active.len();
    let per_slot = (n / spe / spec.target_committee_size).min(spec.max_committees_per_slot).max(1);
    let count = per_slot * spe;
    let perm = shuffled(n, seed, spec.shuffle_round_count);
    (0..spe)
        .map(|slot| {
            (0..per_slot)
                .map(|index| {
                    let k = slot * per_slot + index;
                    (n * k / count..n * (k + 1) / count).map(|i| active[perm[i]]).collect()
                })
                .collect()
        })
        .collect()
}

/// The index in the vector of RANDAO mixes from which the seed of `epoch` is made.
pub fn seed_mix_index<E: EthSpec>(spec: &ChainSpec, epoch: u64) -> u64 {
    let v = E::EpochsPerHistoricalVector::to_u64() as u128;
    ((epoch as u128 + v - spec.min_seed_lookahead.as_u64() as u128 - 1) % v) as u64
}
pub fn seed(domain: [u8; 4], epoch: u64, mix: &Chunk) -> Chunk {
    sha(&[&domain, &epoch.to_le_bytes(), mix])
}
pub const ATTESTER: [u8; 4] = [1, 0, 0, 0];

fn checkpoint_root(c: &beacon_types::Checkpoint) -> Chunk {
    hash2(&u64_chunk(c.epoch.as_u64()), &c.root.0)
}
pub fn data_root(d: &AttestationData) -> Chunk {
    let z = [0; 32];
    hash2(
        &hash2(
            &hash2(&u64_chunk(d.slot.as_u64()), &u64_chunk(d.index)),
            &hash2(&d.beacon_block_root.0, &checkpoint_root(&d.source)),
        ),
        &hash2(&hash2(&checkpoint_root(&d.target), &z), &hash2(&z, &z)),
    )
}
pub fn signing_root(d: &AttestationData, domain: [u8; 4], version: [u8; 4], gvr: &Chunk) -> Chunk {
    let mut v = [0; 32];
    v[..4].copy_from_slice(&version);
    let mut dom = [0; 32];
    dom[..4].copy_from_slice(&domain);
    dom[4..].copy_from_slice(&hash2(&v, gvr)[..28]);
    hash2(&data_root(d), &dom)
}
/// The only valid aggregate signature of `signers` over `root`.
pub fn aggregate(signers: impl IntoIterator<Item = u16>, root: &Chunk) -> AggregateSignature {
    let mut s = AggregateSignature::infinity();
    for i in signers {
        s.add_assign(&key(i).0.sign((*root).into()));
    }
    s
}
