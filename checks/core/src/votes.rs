//! Scenarios for `verify`: a validator set, a trusted consensus state and attestations, right and
//! wrong, with an independent model that decides which of them must be accepted. C13-C16, C23.

use crate::ffg::{Ffg, apply};
use crate::model::Chunk;
use crate::world::*;
use beacon_types::{
    Attestation, AttestationData, AttestationElectra, BitList, BitVector, ChainSpec, EthSpec, Fork, ForkName,
    MainnetEthSpec, MinimalEthSpec, attestation::AttestationBase,
};
use proptest::collection::vec;
use proptest::prelude::*;
use safe_arith::ArithError;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vharness::{Case, Verdict, catch, check, check_eq};
use z_core::{
    Checkpoint, Config, ConsensusState, DEFAULT_CONFIG, Epoch, InputReader, RandaoMixIndex, Root, SEPOLIA_CONFIG,
    ValidatorIndex, ValidatorInfo, verify,
};

pub type RealCp = (u64, Chunk);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Val {
    pub bal: u64,
    pub slashed: bool,
    /// active from F + from, until before F + until (0: for ever)
    pub from: i8,
    pub until: i8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Conf {
    Default,
    Sepolia,
    Custom { min: u8, max: u8, lookahead: u64, factor: u64, quotient: u64 },
}
impl Conf {
    pub fn real(&self) -> Config {
        match self {
            Conf::Default => DEFAULT_CONFIG.clone(),
            Conf::Sepolia => SEPOLIA_CONFIG.clone(),
            Conf::Custom { min, max, lookahead, factor, quotient } => Config {
                min_version: fork_name(*min as usize),
                max_version: fork_name(*max as usize),
                epoch_lookahead_limit: Epoch::new(*lookahead),
                justification_threshold_factor: *factor,
                justification_threshold_quotient: *quotient,
            },
        }
    }
    /// (first and last supported fork, lookahead, factor, quotient), as documented
    pub fn rules(&self) -> (usize, usize, u64, u64, u64) {
        match self {
            Conf::Default => (ELECTRA, FULU, 4, 85, 100),
            Conf::Sepolia => (ELECTRA, FULU, 4, 70, 100),
            Conf::Custom { min, max, lookahead, factor, quotient } => {
                (*min as usize, *max as usize, *lookahead, *factor, *quotient)
            }
        }
    }
}
fn fork_name(i: usize) -> ForkName {
    ForkName::list_all()[i]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    /// 0: the finalized checkpoint, 1: the justified one with another root, 2: one epoch before, else: the justified one
    pub source: u8,
    pub gap: u64,
    pub root: u8,
    /// this share (of 255) of the validators votes
    pub share: u8,
    pub salt: u32,
}

/// A change of one attestation.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    /// one signature is missing although the bit is set
    SignerMissing(u8),
    /// one more signature than bits
    SignerExtra(u8),
    /// somebody signs in place of somebody else
    SignerOther(u8, u8),
    /// the bit of a non-voter is set
    BitExtra(u8),
    /// 0: another domain type, 1: another fork version, 2: another genesis root, 3: no signature at all
    Domain(u8),
    /// a field of the data is changed after signing: 0 block root, 1 slot, 2 index, 3 source root, 4 target root
    AfterSigning(u8),
    /// another vote, duly signed: 0 target root, 1 source root, 2 source epoch, 3 block root
    Signed(u8),
    /// the slot is this many epochs off, and all of it is signed
    SlotEpoch(i8),
    Index(u8),
    /// one more committee is claimed: the one with this index
    Committee(u8, bool),
    /// the bit list is longer or shorter
    BitsLen(i8),
    OldFormat,
    Nobody,
    /// committee `a` is declared as `b`
    Rename(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scen {
    pub mainnet: bool,
    pub conf: Conf,
    pub net: Net,
    pub f: RealCpId,
    pub j: RealCpId,
    pub vals: Vec<Val>,
    pub salt: u32,
    pub steps: Vec<Step>,
    /// the balance of one voter of step 0 is chosen such that the threshold is missed (< 0) or just met
    pub knife: Option<i64>,
    /// the link whose threshold this is
    #[serde(default)]
    pub knife_at: u8,
    /// (which attestation, change)
    pub muts: Vec<(u16, Mutation)>,
    /// changes of the list of attestations: (what, position, position)
    pub list: Vec<(u8, u16, u16)>,
    /// 0: slots of all checkpoints are known, 1: that of the finalized one is not, 2: none is
    pub slots: u8,
    /// signers and bits are changed at the end of the lists rather than at the start
    #[serde(default)]
    pub far: bool,
    #[serde(skip)]
    pub over: Option<Over>,
}
/// What comes from elsewhere: the roots of real blocks, and the active validators of each epoch.
#[derive(Clone, Debug)]
pub struct Over {
    pub f_root: Chunk,
    pub j_root: Chunk,
    pub active: BTreeMap<u64, Vec<usize>>,
    /// the roots behind the root ids of steps
    pub roots: BTreeMap<u8, Chunk>,
    /// the epochs whose seed can be made
    pub seeds: BTreeSet<u64>,
}
pub type RealCpId = (u64, u8);

fn cp(c: RealCpId) -> RealCp {
    (c.0, crate::ffg::root(c.1))
}
pub fn bcp(c: RealCp) -> beacon_types::Checkpoint {
    beacon_types::Checkpoint { epoch: Epoch::new(c.0), root: c.1.into() }
}
pub fn ccp(c: RealCp) -> Checkpoint {
    Checkpoint::new(Epoch::new(c.0), c.1.into())
}

impl Scen {
    pub fn fcp(&self) -> RealCp {
        self.over.as_ref().map_or(cp(self.f), |o| (self.f.0, o.f_root))
    }
    pub fn jcp(&self) -> RealCp {
        self.over.as_ref().map_or(cp(self.j), |o| (self.j.0, o.j_root))
    }
    fn active(&self, epoch: u64) -> Vec<usize> {
        if let Some(o) = &self.over {
            return o.active.get(&epoch).cloned().unwrap_or_default();
        }
        let at = |d: i8| self.f.0.saturating_add_signed(d as i64);
        (0..self.vals.len())
            .filter(|i| {
                let v = &self.vals[*i];
                at(v.from) <= epoch && (v.until == 0 || epoch < at(v.until))
            })
            .collect()
    }
    pub fn gvr(&self) -> Chunk {
        rnd(&[self.salt as u64, 1])
    }
    pub fn mix(&self, epoch: u64, idx: u64) -> Chunk {
        rnd(&[self.salt as u64, 2, epoch, idx])
    }
    fn committees<E: EthSpec>(&self, spec: &ChainSpec, epoch: u64) -> (Vec<usize>, Vec<Vec<Vec<usize>>>) {
        let active = self.active(epoch);
        if active.is_empty() {
            return (active, vec![]);
        }
        let seed = seed(ATTESTER, epoch, &self.mix(epoch, seed_mix_index::<E>(spec, epoch)));
        let c = committees::<E>(spec, &active, &seed);
        (active, c)
    }
}

/// The chain as `verify` sees it.
pub struct Mock<'a, E: EthSpec> {
    pub scen: &'a Scen,
    pub spec: ChainSpec,
    pub vals: BTreeMap<usize, ValidatorInfo>,
    pub atts: Vec<Attestation<E>>,
    pub slots: BTreeMap<Chunk, u64>,
}
#[derive(thiserror::Error, Debug)]
#[error("mock")]
pub struct MockError;
impl From<ArithError> for MockError {
    fn from(_: ArithError) -> Self {
        Self
    }
}
impl<E: EthSpec> InputReader for Mock<'_, E> {
    type Error = MockError;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec {
        &self.spec
    }
    fn genesis_validators_root(&self) -> Result<Root, MockError> {
        Ok(self.scen.gvr().into())
    }
    fn fork(&self, epoch: Epoch) -> Result<Fork, MockError> {
        let f = self.scen.net.fork(epoch.as_u64());
        Ok(Fork {
            previous_version: self.scen.net.version::<E>(f - 1),
            current_version: self.scen.net.version::<E>(f),
            epoch: Epoch::new(self.scen.net.fork_epoch(f)),
        })
    }
    fn active_validators(&self, epoch: Epoch) -> Result<impl Iterator<Item = (ValidatorIndex, &ValidatorInfo)>, MockError> {
        Ok(self.scen.active(epoch.as_u64()).into_iter().map(|i| (i, &self.vals[&i])))
    }
    fn randao_mix(&self, epoch: Epoch, idx: RandaoMixIndex) -> Result<Option<alloy_primitives::B256>, MockError> {
        Ok(Some(self.scen.mix(epoch.as_u64(), idx as u64).into()))
    }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, MockError> {
        Ok(self.atts.iter())
    }
    fn consensus_state(&self) -> Result<ConsensusState, MockError> {
        Ok(ConsensusState::new(ccp(self.scen.jcp()), ccp(self.scen.fcp())))
    }
    fn slot_for_block(&self, root: &Root) -> Result<u64, MockError> {
        self.slots.get(&root.0).copied().ok_or(MockError)
    }
}

/// An attestation in the making.
struct Draft {
    data: AttestationData,
    committees: Vec<usize>,
    bits: Vec<bool>,
    signers: Vec<u16>,
    domain: [u8; 4],
    fork: usize,
    gvr: Chunk,
    old: bool,
    after: Vec<u8>,
    unsigned: bool,
}

impl Draft {
    fn build<E: EthSpec>(mut self, net: &Net) -> Attestation<E> {
        let root = signing_root(&self.data, self.domain, net.version::<E>(self.fork), &self.gvr);
        let signature =
            if self.unsigned { aggregate([], &root) } else { aggregate(self.signers.iter().copied(), &root) };
        for a in &self.after {
            let d = &mut self.data;
            let at = d.slot.as_u64().wrapping_mul(13) as usize % 32;
            match a {
                0 => d.beacon_block_root.0[at] ^= 1,
                1 => d.slot = (d.slot.as_u64() ^ 1).into(),
                2 => d.index ^= 1,
                3 => d.source.root.0[31 - at] ^= 1,
                _ => d.target.root.0[at] ^= 1,
            }
        }
        if self.old {
            let len = self.bits.len().min(2048);
            let mut bits = BitList::with_capacity(len).unwrap();
            for i in 0..len {
                bits.set(i, self.bits[i]).unwrap();
            }
            return Attestation::Base(AttestationBase { aggregation_bits: bits, data: self.data, signature });
        }
        let mut bits = BitList::with_capacity(self.bits.len()).unwrap();
        for (i, b) in self.bits.iter().enumerate() {
            bits.set(i, *b).unwrap();
        }
        let mut committee_bits = BitVector::new();
        for c in &self.committees {
            committee_bits.set(*c, true).ok();
        }
        Attestation::Electra(AttestationElectra { aggregation_bits: bits, data: self.data, signature, committee_bits })
    }

    fn mutate<E: EthSpec>(&mut self, m: &Mutation, scen: &Scen, slot: &[Vec<usize>]) {
        let n = scen.vals.len().max(1);
        let at = |i: u8, len: usize| if scen.far { len - 1 - i as usize % len } else { i as usize % len };
        match *m {
            Mutation::SignerMissing(i) => {
                let i = at(i, self.signers.len());
                self.signers.remove(i);
            }
            Mutation::SignerExtra(i) => self.signers.push(at(i, n) as u16),
            Mutation::SignerOther(i, j) => {
                let i = at(i, self.signers.len());
                self.signers[i] = (j as usize % (n + 3)) as u16;
            }
            Mutation::BitExtra(i) => {
                let zeros: Vec<usize> = (0..self.bits.len()).filter(|i| !self.bits[*i]).collect();
                if !zeros.is_empty() {
                    self.bits[zeros[at(i, zeros.len())]] = true;
                }
            }
            Mutation::Domain(0) => self.domain = [2, 0, 0, 0],
            Mutation::Domain(1) => self.fork = if self.fork == DENEB { ELECTRA } else { self.fork - 1 },
            Mutation::Domain(2) => self.gvr[31] ^= 1,
            Mutation::Domain(4) => self.fork += 1,
            Mutation::Domain(_) => self.unsigned = true,
            Mutation::AfterSigning(k) => self.after.push(k),
            Mutation::Signed(k) => {
                let d = &mut self.data;
                let at = d.slot.as_u64().wrapping_mul(13) as usize % 32;
                match k {
                    0 => d.target.root.0[at] ^= 1,
                    1 => d.source.root.0[at] ^= 1,
                    2 => d.source.epoch = Epoch::new(d.source.epoch.as_u64().saturating_sub(1)),
                    _ => d.beacon_block_root.0[at] ^= 1,
                }
            }
            Mutation::SlotEpoch(d) => {
                let s = self.data.slot.as_u64().saturating_add_signed(d as i64 * E::slots_per_epoch() as i64);
                self.data.slot = s.into();
            }
            Mutation::Index(k) => self.data.index = k as u64,
            Mutation::Committee(c, fill) => {
                let c = c as usize % E::max_committees_per_slot();
                if !self.committees.contains(&c) {
                    // empty bits for it, in the right place
                    let before: usize = self.committees.iter().filter(|x| **x < c).map(|x| slot.get(*x).map_or(2, |c| c.len())).sum();
                    let len = slot.get(c).map_or(2, |c| c.len());
                    for k in 0..len {
                        self.bits.insert((before + k).min(self.bits.len()), fill && k == 0);
                    }
                    self.committees.push(c);
                    self.committees.sort();
                }
            }
            Mutation::BitsLen(d) if d >= 0 => self.bits.extend(vec![false; d as usize + 1]),
            Mutation::BitsLen(d) => {
                let len = self.bits.len().saturating_sub(d.unsigned_abs() as usize);
                self.bits.truncate(len);
            }
            Mutation::OldFormat => self.old = true,
            Mutation::Nobody => {
                self.committees.clear();
                self.bits.clear();
                self.signers.clear();
            }
            Mutation::Rename(a, b) => {
                let i = a as usize % self.committees.len().max(1);
                if let Some(c) = self.committees.get_mut(i) {
                    *c = b as usize % E::max_committees_per_slot();
                }
                self.committees.sort();
                self.committees.dedup();
            }
        }
    }
}

/// All attestations of the scenario, and the validators (one balance may be adjusted).
pub fn build<E: EthSpec>(scen: &Scen, spec: &ChainSpec) -> (Vec<Val>, Vec<Attestation<E>>) {
    let mut vals = scen.vals.clone();
    let mut st = Ffg { j: scen.jcp(), f: scen.fcp() };
    let spe = E::slots_per_epoch();
    let mut out = vec![];
    let mut drafts: Vec<(Draft, Vec<Vec<usize>>)> = vec![];
    for (k, step) in scen.steps.iter().enumerate() {
        let mut source = match step.source {
            0 => st.f,
            1 => (st.j.0, rnd(&[9])),
            2 => (st.j.0.saturating_sub(1), st.j.1),
            3 => {
                let mut root = st.j.1;
                root[step.salt as usize % 32] ^= 1 << (step.salt >> 29);
                (st.j.0, root)
            }
            _ => st.j,
        };
        if source.0 > 1 << 60 {
            source.0 = 1 << 60;
        }
        let root = scen.over.as_ref().and_then(|o| o.roots.get(&step.root).copied()).unwrap_or(crate::ffg::root(step.root));
        let target = (source.0.saturating_add(step.gap), root);
        if let Some(n) = apply(&st, (source, target)) {
            st = n;
        }
        let t = target.0;
        let (active, committees) = scen.committees::<E>(spec, t);
        let votes = |i: &usize| step.share == 255 || rnd(&[step.salt as u64, *i as u64])[0] < step.share;
        if k == scen.knife_at as usize && scen.knife.is_some() {
            adjust(scen, &mut vals, &active, votes);
        }
        for (s, slot) in committees.iter().enumerate() {
            let data = AttestationData {
                slot: (t * spe + s as u64).into(),
                index: 0,
                beacon_block_root: rnd(&[scen.salt as u64, 3, t, s as u64]).into(),
                source: bcp(source),
                target: bcp(target),
            };
            let mut emit = |who: &dyn Fn(usize, usize) -> bool| {
                let mut d = Draft {
                    data,
                    committees: vec![],
                    bits: vec![],
                    signers: vec![],
                    domain: ATTESTER,
                    fork: scen.net.fork(t),
                    gvr: scen.gvr(),
                    old: false,
                    after: vec![],
                    unsigned: false,
                };
                for (c, members) in slot.iter().enumerate() {
                    let bits: Vec<bool> = members.iter().enumerate().map(|(p, i)| votes(i) && who(c, p)).collect();
                    if bits.contains(&true) {
                        d.committees.push(c);
                        d.signers.extend(members.iter().zip(&bits).filter(|(_, b)| **b).map(|(i, _)| *i as u16));
                        d.bits.extend(bits);
                    }
                }
                if !d.bits.is_empty() {
                    drafts.push((d, slot.clone()));
                }
            };
            match rnd(&[step.salt as u64, 5, s as u64])[0] % 6 {
                0 => (0..slot.len()).for_each(|c| emit(&|x, _| x == c)),
                1 => {
                    emit(&|_, p| p % 2 == 0);
                    emit(&|_, p| p % 2 == 1);
                }
                2 => {
                    // overlapping aggregates
                    emit(&|_, p| p != 0);
                    emit(&|_, _| true);
                }
                3 => {
                    emit(&|_, p| p < 2);
                    emit(&|c, p| p >= 1 || c == 0);
                }
                _ => emit(&|_, _| true),
            }
        }
    }
    for (sel, m) in &scen.muts {
        if drafts.is_empty() {
            break;
        }
        let i = *sel as usize % drafts.len();
        let (d, slot) = &mut drafts[i];
        let slot = slot.clone();
        if !d.signers.is_empty() {
            d.mutate::<E>(m, scen, &slot);
        }
    }
    out.extend(drafts.into_iter().map(|(d, _)| d.build::<E>(&scen.net)));
    for &(what, a, b) in &scen.list {
        if out.is_empty() {
            break;
        }
        let (a, b) = (a as usize % out.len(), b as usize % out.len());
        match what {
            0 => out.swap(a, b),
            1 => drop(out.remove(a)),
            2 => out.insert(b, out[a].clone()),
            3 => out.truncate(a + 1),
            4 => out.rotate_left(a),
            _ => out.reverse(),
        }
    }
    (vals, out)
}

/// Sets the balance of one unslashed voter to the smallest one that meets the threshold, plus the delta.
fn adjust(scen: &Scen, vals: &mut [Val], active: &[usize], votes: impl Fn(&usize) -> bool) {
    let (_, _, _, factor, quotient) = scen.conf.rules();
    let Some(pivot) = active.iter().copied().find(|i| votes(i) && !vals[*i].slashed) else { return };
    if factor >= quotient {
        return;
    }
    vals[pivot].bal = 0;
    let sum = |f: &dyn Fn(&usize) -> bool| -> i128 { active.iter().filter(|i| f(i)).map(|i| vals[*i].bal as i128).sum() };
    let t = sum(&|i| votes(i) && !vals[*i].slashed);
    let total = sum(&|_| true);
    let (f, q) = (factor as i128, quotient as i128);
    let x = (f * total - q * t + (q - f) - 1).div_euclid(q - f) + scen.knife.unwrap() as i128;
    vals[pivot].bal = x.clamp(0, 1 << 60) as u64;
}

/// Which validators an attestation speaks for, if all of it is in order.
fn attesters<E: EthSpec>(
    scen: &Scen,
    att: &Attestation<E>,
    committees: &[Vec<Vec<usize>>],
) -> Result<Vec<usize>, &'static str> {
    let Attestation::Electra(a) = att else { return Err("old format") };
    let spe = E::slots_per_epoch();
    let target = a.data.target.epoch.as_u64();
    if a.data.slot.as_u64() / spe != target {
        return Err("slot is not in the target epoch");
    }
    if a.data.index != 0 {
        return Err("index is not zero");
    }
    let slot = &committees[(a.data.slot.as_u64() % spe) as usize];
    let bits: Vec<bool> = a.aggregation_bits.iter().collect();
    let mut who = vec![];
    let mut offset = 0;
    for (c, claimed) in a.committee_bits.iter().enumerate() {
        if !claimed {
            continue;
        }
        let members = slot.get(c).ok_or("no such committee")?;
        let mine = bits.get(offset..offset + members.len()).ok_or("too few bits")?;
        if !mine.contains(&true) {
            return Err("nobody of a committee");
        }
        who.extend(members.iter().zip(mine).filter(|(_, b)| **b).map(|(i, _)| *i));
        offset += members.len();
    }
    if bits.len() != offset {
        return Err("too many bits");
    }
    if who.is_empty() {
        return Err("nobody");
    }
    let version = scen.net.version::<E>(scen.net.fork(target));
    let root = signing_root(&a.data, ATTESTER, version, &scen.gvr());
    let want = aggregate(who.iter().map(|i| *i as u16), &root);
    if a.signature.serialize()[..] != want.serialize()[..] {
        return Err("signature");
    }
    Ok(who)
}

pub type Outcome = Result<(Ffg<RealCp>, u64), &'static str>;

/// What `verify` has to make of it.
pub fn model<E: EthSpec>(
    scen: &Scen,
    spec: &ChainSpec,
    vals: &[Val],
    atts: &[Attestation<E>],
    slots: &BTreeMap<Chunk, u64>,
) -> Outcome {
    let (min, max, lookahead, factor, quotient) = scen.conf.rules();
    let mut st = Ffg { j: scen.jcp(), f: scen.fcp() };
    let trusted = st.f;
    let link_of = |a: &Attestation<E>| {
        let d = a.data();
        let c = |c: &beacon_types::Checkpoint| (c.epoch.as_u64(), c.root.0);
        (c(&d.source), c(&d.target))
    };
    let mut i = 0;
    while i < atts.len() {
        let link = link_of(&atts[i]);
        let end = (i..atts.len()).find(|k| link_of(&atts[*k]) != link).unwrap_or(atts.len());
        if st.f != trusted {
            return Err("already finalized");
        }
        let t = link.1.0;
        if !(min..=max).contains(&scen.net.fork(t)) {
            return Err("unsupported fork");
        }
        if t > trusted.0 && t - trusted.0 > lookahead {
            return Err("lookahead");
        }
        let (active, committees) = scen.committees::<E>(spec, t);
        if active.is_empty() {
            return Err("no validators");
        }
        if scen.over.as_ref().is_some_and(|o| !o.seeds.contains(&t)) {
            return Err("no mix");
        }
        let mut who = BTreeSet::new();
        for a in &atts[i..end] {
            who.extend(attesters(scen, a, &committees)?);
        }
        let sum = |it: &mut dyn Iterator<Item = &usize>| it.map(|i| vals[*i].bal as u128).sum::<u128>().max(GWEI as u128);
        let target = sum(&mut who.iter().filter(|i| !vals[**i].slashed));
        let total = sum(&mut active.iter());
        if target * (quotient as u128) < total * factor as u128 {
            return Err("threshold");
        }
        if target * 3 < total * 2 {
            return Err("less than two thirds");
        }
        st = apply(&st, link).ok_or("link does not apply")?;
        i = end;
    }
    if st.f == trusted {
        return Err("nothing finalized");
    }
    let slot = slots.get(&st.f.1).ok_or("slot unknown")?;
    Ok((st, *slot))
}

pub struct Run {
    pub want: Outcome,
    pub atts: usize,
    pub committees_per_slot: usize,
    /// the outcome if nothing is changed
    pub unchanged: Option<Outcome>,
}

fn slots_of<E: EthSpec>(scen: &Scen, atts: &[Attestation<E>]) -> BTreeMap<Chunk, u64> {
    let mut m = BTreeMap::new();
    let mut put = |r: Chunk| drop(m.insert(r, rnd64(&[scen.salt as u64, 4, r[0] as u64])));
    put(scen.jcp().1);
    for a in atts {
        put(a.data().source.root.0);
        put(a.data().target.root.0);
    }
    match scen.slots {
        1 => drop(m.remove(&scen.jcp().1)),
        2 => m.clear(),
        _ => {}
    }
    m
}

fn infos(vals: &[Val]) -> BTreeMap<usize, ValidatorInfo> {
    vals.iter()
        .enumerate()
        .map(|(i, v)| {
            let info = ValidatorInfo {
                pubkey: key(i as u16).1,
                effective_balance: v.bal,
                slashed: v.slashed,
                activation_eligibility_epoch: Epoch::new(0),
                activation_epoch: Epoch::new(0),
                exit_epoch: Epoch::new(FAR),
            };
            (i, info)
        })
        .collect()
}

/// Runs `verify` and the model on the scenario and compares the results.
fn run_in<E: EthSpec>(scen: &Scen, c: &mut Case) -> Result<Run, String> {
    let spec = scen.net.spec::<E>();
    let (vals, atts) = build::<E>(scen, &spec);
    let slots = slots_of(scen, &atts);
    let want = model(scen, &spec, &vals, &atts, &slots);
    let unchanged = (!scen.muts.is_empty() || !scen.list.is_empty()).then(|| {
        let plain = Scen { muts: vec![], list: vec![], ..scen.clone() };
        let (vals, atts) = build::<E>(&plain, &spec);
        let slots = slots_of(&plain, &atts);
        model(&plain, &spec, &vals, &atts, &slots)
    });
    let committees_per_slot = scen.committees::<E>(&spec, scen.j.0.saturating_add(1).min(1 << 60)).1.first().map_or(0, Vec::len);
    let n = atts.len();
    let mock = Mock { scen, spec, vals: infos(&vals), atts, slots };
    // refusals are errors or panics: the guest ends in both cases
    let got = catch(|| verify(&scen.conf.real(), &mock));
    match (&want, &got) {
        (Ok((st, slot)), Ok(Ok((s, got_slot)))) => {
            c.label("accepted");
            check_eq!((s.current_justified_checkpoint(), s.finalized_checkpoint()), (ccp(st.j), ccp(st.f)), "(justified, finalized) afterwards");
            check_eq!(got_slot, slot, "slot of the finalized block");
        }
        (Err(why), Ok(Ok((s, _)))) => {
            return Err(format!("accepted, finalizing {}, but must be refused: {why}", s.finalized_checkpoint()));
        }
        (Ok(_), Ok(Err(e))) => return Err(format!("refused, but all is in order: {e}")),
        (Ok(_), Err(p)) => return Err(format!("crash, but all is in order: {p}")),
        (Err(why), _) => c.label(why),
    }
    check!(mock.consensus_state().is_ok(), "unreachable");
    Ok(Run { want, atts: n, committees_per_slot, unchanged })
}
pub fn run(scen: &Scen, c: &mut Case) -> Result<Run, String> {
    if scen.mainnet { run_in::<MainnetEthSpec>(scen, c) } else { run_in::<MinimalEthSpec>(scen, c) }
}

// ---- generators ----

fn val(balance: BoxedStrategy<u64>) -> BoxedStrategy<Val> {
    (balance, prop::bool::weighted(0.1), prop_oneof![8 => Just(-9i8), 1 => -1i8..6], prop_oneof![8 => Just(0i8), 1 => -1i8..6])
        .prop_map(|(bal, slashed, from, until)| Val { bal, slashed, from, until })
        .boxed()
}
fn balance() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => Just(32 * GWEI),
        2 => (1u64..2048).prop_map(|e| e * GWEI),
        2 => 1u64..100 * GWEI,
        1 => 0u64..4,
    ]
    .boxed()
}
/// Epochs around the fork boundaries; most of the time Electra or Fulu is active.
fn net(f: u64) -> BoxedStrategy<Net> {
    let near = move || (-3i64..6).prop_map(move |d| f.saturating_add_signed(d));
    prop_oneof![
        6 => Just(Net { electra: 0, fulu: None, gloas: None }),
        3 => near().prop_map(|x| Net { electra: 0, fulu: Some(x), gloas: None }),
        1 => (near(), 0u64..5).prop_map(|(x, d)| Net { electra: 0, fulu: Some(x), gloas: Some(x + d) }),
        1 => (near(), prop::option::of(0u64..4)).prop_map(|(x, d)| Net { electra: x, fulu: d.map(|d| x + d), gloas: None }),
    ]
    .boxed()
}
fn quiet_net(f: u64) -> BoxedStrategy<Net> {
    prop_oneof![
        3 => Just(Net { electra: 0, fulu: None, gloas: None }),
        1 => (-3i64..6).prop_map(move |d| Net { electra: 0, fulu: Some(f.saturating_add_signed(d)), gloas: None }),
    ]
    .boxed()
}
fn base_epoch() -> BoxedStrategy<u64> {
    prop_oneof![4 => 10u64..500, 1 => 0u64..4, 1 => 364_000u64..400_000, 1 => 65_530u64..65_545].boxed()
}
pub fn conf() -> BoxedStrategy<Conf> {
    prop_oneof![
        3 => Just(Conf::Default),
        2 => Just(Conf::Sepolia),
        2 => (5u8..8, 5u8..8, 0u64..8, 0u64..120, 1u64..120).prop_map(|(min, max, lookahead, factor, quotient)| Conf::Custom { min, max, lookahead, factor, quotient }),
        2 => (50u64..100).prop_map(|factor| Conf::Custom { min: 5, max: 6, lookahead: 4, factor, quotient: 100 }),
    ]
    .boxed()
}
fn one_step() -> BoxedStrategy<Vec<Step>> {
    (prop_oneof![5 => Just(1u64), 1 => 2u64..3], any::<u32>())
        .prop_map(|(gap, salt)| {
            let mut v = vec![Step { source: 9, gap, root: 4, share: 255, salt }];
            if gap > 1 {
                v.push(Step { source: 9, gap: 1, root: 5, share: 255, salt });
            }
            v
        })
        .boxed()
}

#[derive(Clone, Copy)]
struct Shape {
    vals: (usize, usize),
    mainnet: f64,
}
fn scen(
    shape: Shape,
    balance: fn() -> BoxedStrategy<u64>,
    conf: BoxedStrategy<Conf>,
    net: fn(u64) -> BoxedStrategy<Net>,
    steps: BoxedStrategy<Vec<Step>>,
    gap: BoxedStrategy<u64>,
) -> BoxedStrategy<Scen> {
    base_epoch()
        .prop_flat_map(move |f| {
            (
                (Just(f), gap.clone(), net(f), prop::bool::weighted(shape.mainnet)),
                conf.clone(),
                vec(val(balance()), shape.vals.0..shape.vals.1),
                any::<u32>(),
                steps.clone(),
            )
        })
        .prop_map(|((f, gap, net, mainnet), conf, vals, salt, steps)| Scen {
            mainnet,
            conf,
            net,
            f: (f, 2),
            j: (f + gap, 3),
            vals,
            salt,
            steps,
            knife: None,
            knife_at: 0,
            muts: vec![],
            list: vec![],
            slots: 0,
            far: false,
            over: None,
        })
        .boxed()
}

/// C13: one link whose support is next to the threshold.
pub fn threshold() -> BoxedStrategy<Scen> {
    thresholds(Shape { vals: (1, 40), mainnet: 0.05 }, || prop_oneof![3 => balance(), 1 => (1u64 << 40)..(1 << 54)].boxed())
}
pub fn threshold_large() -> BoxedStrategy<Scen> {
    thresholds(Shape { vals: (300, 30_000), mainnet: 0.05 }, || prop_oneof![3 => balance(), 1 => (1u64 << 40)..(1 << 46)].boxed())
}
fn thresholds(shape: Shape, huge: fn() -> BoxedStrategy<u64>) -> BoxedStrategy<Scen> {
    let steps = (0u8..=255, prop_oneof![3 => 120u8..255, 2 => 200u8..255, 1 => Just(255u8)], any::<u32>())
        .prop_map(|(_, share, salt)| vec![Step { source: 9, gap: 1, root: 4, share, salt }])
        .boxed();
    // votes of some for another target, from another source or for another block
    let other = (any::<u16>(), prop_oneof![4 => Just(0u8), 2 => 1u8..3, 1 => Just(3)]).prop_map(|(i, k)| (i, Mutation::Signed(k)));
    (
        scen(shape, huge, conf(), quiet_net, steps, Just(1u64).boxed()),
        prop_oneof![1 => Just(None), 6 => (-3i64..4).prop_map(Some), 1 => (-2_000_000_000i64..2_000_000_000).prop_map(Some)],
        prop::bool::weighted(0.3),
        prop_oneof![4 => Just(1u64), 2 => 2u64..4],
        prop_oneof![6 => Just(vec![]), 1 => vec(other, 1..4)],
        (0u8..2, prop_oneof![2 => Just(255u8), 2 => 150u8..255], any::<u32>()),
    )
        .prop_map(|(mut s, knife, equal, gap, muts, (knife_at, share, salt))| {
            (s.knife, s.muts) = (knife, muts);
            if gap > 1 {
                // the link skips an epoch, and another one finalizes it
                s.steps[0].gap = gap;
                s.steps.push(Step { source: 9, gap: 1, root: 5, share, salt });
                s.knife_at = knife_at;
                if knife_at == 1 {
                    // a mere majority of the others, but the first link must hold
                    s.steps[0].share = s.steps[0].share.max(230);
                }
            }
            if equal {
                // equal balances: the threshold is met exactly, if at all
                s.knife = None;
                for v in &mut s.vals {
                    (v.bal, v.from, v.until) = (32 * GWEI, -9, 0);
                }
            }
            s
        })
        .boxed()
}
pub fn check_threshold(s: &Scen, c: &mut Case) -> Verdict {
    let r = run(s, c)?;
    c.nontrivial(s.vals.len() >= 3 && matches!(r.want, Ok(_) | Err("threshold" | "less than two thirds")));
    Ok(())
}

/// C14: sequences of links.
pub fn links() -> BoxedStrategy<Scen> {
    let step = (
        prop_oneof![1 => 0u8..4, 12 => Just(9u8)],
        prop_oneof![6 => Just(1u64), 5 => 2u64..4, 1 => 0u64..8],
        3u8..7,
        prop_oneof![12 => Just(255u8), 1 => any::<u8>()],
        any::<u32>(),
    )
        .prop_map(|(source, gap, root, share, salt)| Step { source, gap, root, share, salt });
    // the last link finalizes, mostly, and nothing follows it
    let steps = (vec(step, 0..3), any::<u32>(), prop::bool::weighted(0.85), prop::bool::weighted(0.1)).prop_map(|(mut v, salt, end, more)| {
        if end {
            for s in &mut v {
                s.gap = s.gap.max(2);
            }
            v.push(Step { source: 9, gap: 1, root: 5, share: 255, salt });
        }
        if more {
            v.push(Step { source: 9, gap: 1, root: 6, share: 255, salt });
        }
        v
    });
    let conf = prop_oneof![
        6 => Just(Conf::Default),
        1 => Just(Conf::Sepolia),
        2 => (5u8..8, 5u8..8, 0u64..9).prop_map(|(min, max, lookahead)| Conf::Custom { min, max, lookahead, factor: 85, quotient: 100 })
    ];
    (
        scen(Shape { vals: (1, 12), mainnet: 0.0 }, || Just(32 * GWEI).boxed(), conf.boxed(), net, steps.boxed(), prop_oneof![4 => Just(1u64), 1 => 1u64..5].boxed()),
        prop_oneof![3 => Just(vec![]), 1 => vec((0u8..6, any::<u16>(), any::<u16>()), 1..3)],
        prop_oneof![9 => Just(0u8), 1 => 1u8..3],
        0u8..100,
    )
        .prop_map(|(mut s, list, slots, same)| {
            (s.list, s.slots) = (list, slots);
            for v in &mut s.vals {
                v.slashed = false;
            }
            if same < 3 {
                // equal roots at different epochs
                s.f.1 = 3;
            }
            s
        })
        .boxed()
}
pub fn check_links(s: &Scen, c: &mut Case) -> Verdict {
    let r = run(s, c)?;
    c.nontrivial(r.atts > 0 && (r.want.is_ok() || s.steps.len() > 1));
    Ok(())
}

pub fn mutation() -> BoxedStrategy<Mutation> {
    prop_oneof![
        2 => any::<u8>().prop_map(Mutation::SignerMissing),
        2 => any::<u8>().prop_map(Mutation::SignerExtra),
        2 => any::<(u8, u8)>().prop_map(|(a, b)| Mutation::SignerOther(a, b)),
        2 => any::<u8>().prop_map(Mutation::BitExtra),
        4 => (0u8..5).prop_map(Mutation::Domain),
        2 => (0u8..5).prop_map(Mutation::AfterSigning),
        2 => (0u8..4).prop_map(Mutation::Signed),
        2 => prop_oneof![Just(1i8), Just(-1), -3i8..4].prop_map(Mutation::SlotEpoch),
        2 => prop_oneof![Just(1u8), any::<u8>()].prop_map(Mutation::Index),
        3 => any::<(u8, bool)>().prop_map(|(a, b)| Mutation::Committee(a, b)),
        2 => (-9i8..9).prop_map(Mutation::BitsLen),
        1 => Just(Mutation::OldFormat),
        1 => Just(Mutation::Nobody),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| Mutation::Rename(a, b)),
    ]
    .boxed()
}
/// C15: everything is fine, except for one or two attestations.
pub fn forged() -> BoxedStrategy<Scen> {
    forgeries(Shape { vals: (1, 80), mainnet: 0.03 })
}
pub fn forged_large() -> BoxedStrategy<Scen> {
    forgeries(Shape { vals: (3_000, 24_000), mainnet: 0.0 })
}
fn forgeries(shape: Shape) -> BoxedStrategy<Scen> {
    // positions are bytes: in larger lists, also those at the end
    let far = shape.vals.0 > 255;
    (
        scen(shape, || Just(32 * GWEI).boxed(), prop_oneof![Just(Conf::Default), Just(Conf::Sepolia)].boxed(), quiet_net, one_step(), Just(1u64).boxed()),
        vec((any::<u16>(), mutation()), 1..3),
        prop::bool::weighted(0.7),
        prop_oneof![4 => Just(255u8), 1 => 235u8..255],
    )
        .prop_map(move |(mut s, muts, unslashed, share)| {
            s.muts = muts;
            s.far = far && share % 2 == 1;
            if unslashed {
                s.vals.iter_mut().for_each(|v| v.slashed = false);
            }
            s.steps.iter_mut().for_each(|s| s.share = share);
            s
        })
        .boxed()
}
pub fn check_forged(s: &Scen, c: &mut Case) -> Verdict {
    let r = run(s, c)?;
    c.nontrivial(r.want.is_err() && matches!(r.unchanged, Some(Ok(_))));
    Ok(())
}

/// C16: honest votes of validator sets of all sizes.
fn honest(vals: (usize, usize), mainnet: f64) -> BoxedStrategy<Scen> {
    (
        scen(Shape { vals, mainnet }, || Just(32 * GWEI).boxed(), prop_oneof![Just(Conf::Default), Just(Conf::Sepolia)].boxed(), quiet_net, one_step(), prop_oneof![4 => Just(1u64), 1 => 2u64..3].boxed()),
        prop_oneof![2 => Just(255u8), 3 => 215u8..255],
    )
        .prop_map(|(mut s, share)| {
            s.vals.iter_mut().for_each(|v| v.slashed = false);
            s.steps.iter_mut().for_each(|s| s.share = share);
            s
        })
        .boxed()
}
pub fn small_committees() -> BoxedStrategy<Scen> {
    honest((1, 220), 0.0)
}
pub fn mainnet_committees() -> BoxedStrategy<Scen> {
    honest((20, 900), 1.0)
}
pub fn many_committees() -> BoxedStrategy<Scen> {
    honest((8_000, 20_000), 1.0)
}
pub fn large_committees() -> BoxedStrategy<Scen> {
    honest((1_000, 40_000), 0.0)
}
pub fn check_committees(s: &Scen, c: &mut Case) -> Verdict {
    let r = run(s, c)?;
    c.label_if(r.committees_per_slot > 1, "several committees per slot");
    c.label_if(s.steps[0].share < 255, "partial participation");
    c.nontrivial(r.want.is_ok() && s.vals.len() >= 8);
    Ok(())
}

/// C23: which slot is reported.
pub fn finalized_slot() -> BoxedStrategy<Scen> {
    (links(), prop_oneof![3 => Just(0u8), 1 => 1u8..3])
        .prop_map(|(mut s, slots)| {
            s.slots = slots;
            s
        })
        .boxed()
}

pub fn check_slots(s: &Scen, c: &mut Case) -> Verdict {
    let r = run(s, c)?;
    c.nontrivial(matches!(r.want, Ok(_) | Err("slot unknown")));
    Ok(())
}

// ---- seeds and balances ----

/// C17: a reader that knows one mix per (epoch, index).
pub fn check_seed(&(mainnet, epoch, domain, salt, state_epoch): &(bool, u64, u32, u32, u64), c: &mut Case) -> Verdict {
    fn go<E: EthSpec>(epoch: u64, domain: u32, salt: u32, state_epoch: u64, c: &mut Case) -> Verdict {
        let net = Net { electra: 0, fulu: None, gloas: None };
        let scen = Scen {
            mainnet: false,
            conf: Conf::Default,
            net: net.clone(),
            f: (1, 1),
            j: (2, 2),
            vals: vec![],
            salt,
            steps: vec![],
            knife: None,
            knife_at: 0,
            muts: vec![],
            list: vec![],
            slots: 0,
            far: false,
            over: None,
        };
        let spec = net.spec::<E>();
        let mock: Mock<E> = Mock { scen: &scen, spec: spec.clone(), vals: BTreeMap::new(), atts: vec![], slots: BTreeMap::new() };
        let v = E::epochs_per_historical_vector() as u64;
        c.nontrivial(epoch >= 2);
        c.label_if(epoch < 2, "first epochs");
        c.label_if(epoch % v < 2, "wraps around");
        let d = domain.to_le_bytes();
        // the specification has no seed where its arithmetic overflows
        let overflow = epoch.checked_add(v).is_none();
        c.label_if(overflow, "end of time");
        let want = seed(d, epoch, &scen.mix(epoch, seed_mix_index::<E>(&spec, epoch)));
        match catch(|| mock.get_seed(Epoch::new(epoch), d.into())) {
            Ok(Ok(got)) => check_eq!(got.0, want, "seed of epoch {epoch}"),
            Ok(Err(e)) => check!(overflow, "no seed of epoch {epoch}: {e}"),
            Err(p) => check!(overflow, "asking for the seed of epoch {epoch} panics: {p}"),
        }
        let got = mock.get_randao_mix(Epoch::new(state_epoch), Epoch::new(epoch)).map_err(|e| format!("no mix: {e}"))?;
        check_eq!(got.0, scen.mix(state_epoch, epoch % v), "mix of epoch {epoch}");
        Ok(())
    }
    if mainnet {
        go::<MainnetEthSpec>(epoch, domain, salt, state_epoch, c)
    } else {
        go::<MinimalEthSpec>(epoch, domain, salt, state_epoch, c)
    }
}
pub fn seeds() -> BoxedStrategy<(bool, u64, u32, u32, u64)> {
    let epoch = prop_oneof![
        2 => 0u64..200,
        2 => (0u64..100, 0u64..4, any::<bool>()).prop_map(|(k, d, big)| (k * if big { 65536 } else { 64 } + d).saturating_sub(2)),
        2 => 300_000u64..500_000,
        1 => 0..1u64 << 60,
        1 => (0u64..3, 0u64..200_000).prop_map(|(k, d)| u64::MAX - [d, d % 70, d % 4][k as usize]),
    ];
    (any::<bool>(), epoch, prop_oneof![3 => Just(1u32), 1 => any::<u32>()], any::<u32>(), 0u64..1 << 40).boxed()
}

/// C18: `get_total_balance`.
pub fn check_total(bals: &Vec<u64>, c: &mut Case) -> Verdict {
    let spec = MainnetEthSpec::default_spec();
    let vals: Vec<ValidatorInfo> = infos(
        &bals.iter().enumerate().map(|(i, b)| Val { bal: *b, slashed: i % 3 == 0, from: 0, until: 0 }).collect::<Vec<_>>(),
    )
    .into_values()
    .collect();
    let sum: u128 = bals.iter().map(|b| *b as u128).sum();
    let want = u64::try_from(sum).ok().map(|s| s.max(GWEI));
    c.nontrivial(bals.len() >= 2);
    c.label_if(want.is_none(), "overflow");
    c.label_if(sum < GWEI as u128, "less than an increment");
    let got = catch(|| z_core::get_total_balance(&spec, vals.iter())).map_err(|p| format!("crash: {p}"))?;
    check_eq!(got.ok(), want, "total balance");
    Ok(())
}
pub fn balances() -> BoxedStrategy<Vec<u64>> {
    prop_oneof![
        400 => vec(balance(), 0..30),
        1 => vec(balance(), 30..2_000),
        1 => vec(any::<u64>().prop_map(|b| b >> 10), 30..2_000),
        100 => vec(any::<u64>(), 0..4),
        100 => vec(0u64..GWEI / 2, 0..6),
        100 => vec((u64::MAX / 4 - 2)..(u64::MAX / 4 + 2), 3..5),
    ]
    .boxed()
}
