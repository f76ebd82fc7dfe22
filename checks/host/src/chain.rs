//! A chain: blocks with attestations, and the state after each slot, simulated slot by slot from the
//! consensus specification (registry updates, exit and consolidation queues, justification and
//! finalization, skipped slots). It only uses the code under test as a container: the states are
//! handed over as the host's `BeaconState`.

use crate::ffg::{Ffg, apply};
use crate::model::{Chunk, hash2};
use crate::votes::{Conf, RealCp};
use crate::world::*;
use alloy_primitives::B256;
use beacon_types::{AttestationData, ChainSpec, MainnetEthSpec};
use ethereum_consensus::electra::mainnet::{Attestation, SignedBeaconBlockHeader};
use ethereum_consensus::types::mainnet::BeaconBlock;
use ethereum_consensus::{deneb, electra, phase0};
use host::mainnet::{BeaconState, ElectraBeaconState, FuluBeaconState};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use ssz_rs::HashTreeRoot;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;
use z_core::Epoch;

pub type E = MainnetEthSpec;
pub const SPE: u64 = 32;
const HIST: u64 = 65536;
const ETH: u64 = GWEI;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Active(u64),
    Slashed,
    /// exits at base + x
    Exiting(u8),
    Exited,
    /// eligible from base - 1 + x, not yet activated
    Pending(u8),
    /// to be activated at base + x
    Queued(u8),
    /// deposited, below the activation balance
    Poor,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Exit(u8),
    Consolidate(u8),
    Slash(u8),
    Deposit(u8),
    /// the balance drops such that the validator is ejected
    Drain(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EpochPlan {
    /// the slots without a block
    pub skip: u32,
    /// shares (of 255) of the attesters: timely votes, votes included in the next epoch only, votes for another target
    pub share: u8,
    pub late: u8,
    pub wrong: u8,
    /// share of the attestations that are included twice
    pub dup: u8,
    /// share of the slots from which there is also an attestation with another source, in a block all the same
    #[serde(default)]
    pub stray: u8,
    /// votes of a slot come in two overlapping aggregates
    pub split: bool,
    pub ops: Vec<(u8, Op)>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum NetKind {
    /// test network: fork epochs relative to base: Electra, Fulu
    Test { electra: u8, fulu: Option<i8>, gloas: Option<i8> },
    Sepolia,
    Mainnet,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub salt: u32,
    pub base: u64,
    pub net: NetKind,
    pub sepolia_conf: bool,
    pub small_committees: bool,
    pub n: u8,
    pub kinds: Vec<(u8, Kind)>,
    /// how far the exit and the consolidation queue reach beyond base at the start
    pub exit_q: u8,
    pub cons_q: u8,
    pub epochs: Vec<EpochPlan>,
    /// picks the trusted checkpoint
    pub trusted: u8,
    /// who has lost most of the balance no longer votes
    #[serde(default)]
    pub absent: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct V {
    pub key: u16,
    pub eb: u64,
    pub slashed: bool,
    pub elig: u64,
    pub act: u64,
    pub exit: u64,
}
impl V {
    pub fn active(&self, e: u64) -> bool {
        self.act <= e && e < self.exit
    }
}
#[derive(Clone, Debug)]
#[derive(PartialEq)]
pub struct Hdr {
    pub slot: u64,
    pub proposer: u64,
    pub parent: Chunk,
    pub state: Chunk,
    pub body: Chunk,
}
impl Hdr {
    pub fn root(&self) -> Chunk {
        let z = [0; 32];
        let a = hash2(&hash2(&u64_chunk(self.slot), &u64_chunk(self.proposer)), &hash2(&self.parent, &self.state));
        hash2(&a, &hash2(&hash2(&self.body, &z), &hash2(&z, &z)))
    }
    pub fn real(&self) -> phase0::BeaconBlockHeader {
        phase0::BeaconBlockHeader {
            slot: self.slot,
            proposer_index: self.proposer as usize,
            parent_root: B256::from(self.parent),
            state_root: B256::from(self.state),
            body_root: B256::from(self.body),
        }
    }
}
/// The state after a slot.
#[derive(Clone, Debug)]
pub struct St {
    pub slot: u64,
    pub header: Hdr,
    pub vals: Rc<Vec<V>>,
    pub mixes: Rc<BTreeMap<u64, Chunk>>,
    pub pj: RealCp,
    pub j: RealCp,
    pub f: RealCp,
    pub bits: [bool; 4],
    /// epoch and what is left of its churn
    pub exit_q: (u64, u64),
    pub cons_q: (u64, u64),
}
impl St {
    pub fn epoch(&self) -> u64 {
        self.slot / SPE
    }
    pub fn ffg(&self) -> Ffg<RealCp> {
        Ffg { j: self.j, f: self.f }
    }
    pub fn active(&self, e: u64) -> Vec<usize> {
        (0..self.vals.len()).filter(|i| self.vals[*i].active(e)).collect()
    }
    pub fn total(&self, of: impl IntoIterator<Item = usize>) -> u64 {
        of.into_iter().map(|i| self.vals[i].eb).sum::<u64>().max(ETH)
    }
}
/// An attestation, and the slots of the blocks that include it.
#[derive(Clone, Debug)]
pub struct Att {
    pub slot: u64,
    pub source: RealCp,
    pub target: RealCp,
    pub voters: Vec<usize>,
    pub real: Attestation,
    pub included: Vec<u64>,
    pub stray: bool,
    ready: u64,
    again: Option<u64>,
}
impl Att {
    pub fn link(&self) -> (RealCp, RealCp) {
        (self.source, self.target)
    }
}
#[derive(Clone)]
pub struct Blk {
    pub hdr: Hdr,
    pub root: Chunk,
    pub real: BeaconBlock,
    /// the attestations, by their position in `Chain::atts`
    pub atts: Vec<usize>,
}
pub struct Chain {
    pub plan: Plan,
    pub net: Net,
    pub spec: ChainSpec,
    pub first: u64,
    pub states: Vec<St>,
    pub blocks: BTreeMap<u64, Blk>,
    pub atts: Vec<Att>,
    pub gvr: Chunk,
    made: RefCell<BTreeMap<u64, Arc<BeaconState>>>,
}

impl Plan {
    pub fn network(&self) -> (Net, ChainSpec) {
        let net = match self.net {
            NetKind::Sepolia => Net::SEPOLIA,
            NetKind::Mainnet => Net::MAINNET,
            NetKind::Test { electra, fulu, gloas } => {
                let at = |d: i8| self.base.saturating_add_signed(d as i64);
                Net { electra: self.base - electra as u64, fulu: fulu.map(at), gloas: gloas.map(at) }
            }
        };
        let spec = match self.net {
            NetKind::Sepolia => chainspec::sepolia_spec(),
            NetKind::Mainnet => chainspec::mainnet_spec(),
            NetKind::Test { .. } => {
                let mut s = net.spec::<E>();
                s.target_committee_size = if self.small_committees { 1 } else { 4 };
                s.min_per_epoch_churn_limit_electra = 64 * ETH;
                s.max_per_epoch_activation_exit_churn_limit = 64 * ETH;
                s.churn_limit_quotient = 16;
                s
            }
        };
        (net, spec)
    }
    pub fn conf(&self) -> Conf {
        if self.sepolia_conf { Conf::Sepolia } else { Conf::Default }
    }
    fn skipped(&self, slot: u64) -> bool {
        let at = slot - self.base * SPE;
        at != 0 && self.epochs[(at / SPE) as usize].skip >> (at % SPE) & 1 == 1
    }
    fn end(&self) -> u64 {
        (self.base + self.epochs.len() as u64) * SPE
    }
    /// Is the block at `slot` the last one up to the start of an epoch? Then its state root matters.
    fn boundary(&self, slot: u64) -> bool {
        let next = slot.next_multiple_of(SPE);
        next == slot || (slot + 1..next.min(self.end() - 1) + 1).all(|s| s < self.end() && self.skipped(s))
    }
}
fn churns(spec: &ChainSpec, st: &St) -> (u64, u64) {
    let inc = ETH;
    let total = st.total(st.active(st.epoch()));
    let all = spec.min_per_epoch_churn_limit_electra.max(total / spec.churn_limit_quotient) / inc * inc;
    let exit = all.min(spec.max_per_epoch_activation_exit_churn_limit);
    (exit, all - exit)
}
fn enqueue(q: &mut (u64, u64), earliest: u64, per_epoch: u64, balance: u64) -> u64 {
    let mut to_consume = if q.0 < earliest { per_epoch } else { q.1 };
    let mut e = q.0.max(earliest);
    if balance > to_consume {
        let more = (balance - to_consume - 1) / per_epoch + 1;
        e += more;
        to_consume += more * per_epoch;
    }
    *q = (e, to_consume - balance);
    e
}
fn exit(spec: &ChainSpec, st: &mut St, i: usize) {
    let v = &st.vals[i];
    if v.exit == FAR {
        let (per_epoch, _) = churns(spec, st);
        let (eb, earliest) = (v.eb, st.epoch() + 5);
        let e = enqueue(&mut st.exit_q, earliest, per_epoch, eb);
        Rc::make_mut(&mut st.vals)[i].exit = e;
    }
}
fn registry_updates(spec: &ChainSpec, st: &mut St) {
    let e = st.epoch();
    for i in 0..st.vals.len() {
        let v = st.vals[i].clone();
        if v.elig == FAR && v.eb >= 32 * ETH {
            Rc::make_mut(&mut st.vals)[i].elig = e + 1;
        } else if v.active(e) && v.eb <= spec.ejection_balance {
            exit(spec, st, i);
        } else if v.elig <= st.f.0 && v.act == FAR {
            Rc::make_mut(&mut st.vals)[i].act = e + 5;
        }
    }
}

impl Chain {
    pub fn new(plan: &Plan) -> Self {
        let (net, spec) = plan.network();
        let first = plan.base * SPE;
        let mut c = Chain {
            plan: plan.clone(),
            net,
            spec,
            first,
            states: vec![],
            blocks: BTreeMap::new(),
            atts: vec![],
            gvr: rnd(&[plan.salt as u64, 77]),
            made: Default::default(),
        };
        c.simulate();
        c
    }
    fn rnd(&self, what: u64, a: u64, b: u64) -> u64 {
        rnd64(&[self.plan.salt as u64, what, a, b])
    }
    pub fn last(&self) -> u64 {
        self.plan.end() - 1
    }
    pub fn has(&self, slot: u64) -> bool {
        (self.first..=self.last()).contains(&slot)
    }
    pub fn st(&self, slot: u64) -> &St {
        &self.states[(slot - self.first) as usize]
    }
    /// The last block up to `slot`.
    pub fn head(&self, slot: u64) -> &Blk {
        self.blocks.range(..=slot).next_back().unwrap().1
    }
    /// The checkpoint of `epoch` on this chain.
    pub fn cp(&self, epoch: u64) -> RealCp {
        (epoch, self.head(epoch * SPE).root)
    }

    fn genesis(&self) -> St {
        let p = &self.plan;
        let base = p.base;
        let mut vals: Vec<V> = (0..p.n.max(1) as u16)
            .map(|key| V { key, eb: 32 * ETH, slashed: false, elig: 0, act: 0, exit: FAR })
            .collect();
        let mut exit_q = if p.exit_q == 0 { 0 } else { base + p.exit_q as u64 };
        for (i, k) in &p.kinds {
            let i = *i as usize % vals.len();
            let v = &mut vals[i];
            *v = V { key: v.key, eb: 32 * ETH, slashed: false, elig: 0, act: 0, exit: FAR };
            match *k {
                Kind::Active(b) => v.eb = b,
                Kind::Slashed => (v.slashed, v.exit) = (true, base + 2),
                Kind::Exiting(x) => v.exit = base + x as u64,
                Kind::Exited => v.exit = base - 3,
                Kind::Pending(x) => (v.elig, v.act) = (base - 1 + x as u64, FAR),
                Kind::Queued(x) => (v.elig, v.act) = (base - 10, base + x as u64),
                Kind::Poor => (v.eb, v.elig, v.act) = (20 * ETH, FAR, FAR),
            }
        }
        // somebody stays
        if !vals.iter().any(|v| v.active(base) && v.exit == FAR && !v.slashed) {
            vals[0] = V { key: 0, eb: 32 * ETH, slashed: false, elig: 0, act: 0, exit: FAR };
        }
        for v in &vals {
            if v.exit != FAR {
                exit_q = exit_q.max(v.exit);
            }
        }
        let cp = |e: u64| (e, rnd(&[p.salt as u64, 5, e]));
        let mixes = (base.saturating_sub(12)..=base).map(|e| (e % HIST, rnd(&[p.salt as u64, 6, e]))).collect();
        St {
            slot: self.first,
            header: Hdr { slot: self.first - 1, proposer: 0, parent: rnd(&[1]), state: rnd(&[2]), body: rnd(&[3]) },
            vals: Rc::new(vals),
            mixes: Rc::new(mixes),
            pj: cp(base - 2),
            j: cp(base - 1),
            f: cp(base - 2),
            bits: [true, true, true, false],
            exit_q: (exit_q, 0),
            cons_q: (if p.cons_q == 0 { 0 } else { base + p.cons_q as u64 }, 0),
        }
    }

    fn simulate(&mut self) {
        let mut st = self.genesis();
        let mut pool: Vec<usize> = vec![];
        // who voted for the right target, per epoch, as far as included
        let mut part: BTreeMap<u64, BTreeSet<usize>> = BTreeMap::new();
        for slot in self.first..self.plan.end() {
            let e = slot / SPE;
            if slot > self.first {
                if st.header.state == [0; 32] {
                    st.header.state = self.blocks[&st.header.slot].hdr.state;
                }
                if slot % SPE == 0 {
                    self.end_of_epoch(&mut st, &part);
                }
                st.slot = slot;
            }
            if !self.plan.skipped(slot) {
                self.block(&mut st, &mut pool, &mut part);
            }
            self.states.push(st.clone());
            self.attest(&st, e, &mut pool);
            pool.retain(|a| self.atts[*a].slot / SPE + 1 >= e);
        }
    }

    fn end_of_epoch(&self, st: &mut St, part: &BTreeMap<u64, BTreeSet<usize>>) {
        let e = st.epoch();
        let (old_pj, old_j) = (st.pj, st.j);
        let total = st.total(st.active(e));
        let voted = |st: &St, x: u64| {
            let who = part.get(&x).cloned().unwrap_or_default();
            st.total(who.into_iter().filter(|i| st.vals[*i].active(x) && !st.vals[*i].slashed))
        };
        let (prev, cur) = (voted(st, e - 1), voted(st, e));
        st.pj = st.j;
        st.bits = [false, st.bits[0], st.bits[1], st.bits[2]];
        if e > self.plan.base && prev * 3 >= total * 2 {
            st.j = self.cp(e - 1);
            st.bits[1] = true;
        }
        if cur * 3 >= total * 2 {
            st.j = self.cp(e);
            st.bits[0] = true;
        }
        let b = st.bits;
        if b[1] && b[2] && b[3] && old_pj.0 + 3 == e {
            st.f = old_pj;
        }
        if b[1] && b[2] && old_pj.0 + 2 == e {
            st.f = old_pj;
        }
        if b[0] && b[1] && b[2] && old_j.0 + 2 == e {
            st.f = old_j;
        }
        if b[0] && b[1] && old_j.0 + 1 == e {
            st.f = old_j;
        }
        registry_updates(&self.spec, st);
        for (_, op) in &self.plan.epochs[(e - self.plan.base) as usize].ops {
            let n = st.vals.len();
            match op {
                Op::Deposit(k) => {
                    for _ in 0..=k % 3 {
                        if st.vals.len() < 250 {
                            let key = st.vals.len() as u16;
                            let v = V { key, eb: 32 * ETH, slashed: false, elig: FAR, act: FAR, exit: FAR };
                            Rc::make_mut(&mut st.vals).push(v);
                        }
                    }
                }
                Op::Drain(i) => {
                    let i = *i as usize % n;
                    let v = &mut Rc::make_mut(&mut st.vals)[i];
                    // larger balances do not fall that much in an epoch
                    if v.eb <= 33 * ETH {
                        v.eb = v.eb.min(16 * ETH);
                    }
                }
                _ => {}
            }
        }
        let mix = st.mixes[&(e % HIST)];
        Rc::make_mut(&mut st.mixes).insert((e + 1) % HIST, mix);
    }

    fn block(&mut self, st: &mut St, pool: &mut Vec<usize>, part: &mut BTreeMap<u64, BTreeSet<usize>>) {
        let (slot, e) = (st.slot, st.epoch());
        let mut atts = vec![];
        pool.retain(|a| {
            let take = atts.len() < 8 && self.atts[*a].ready <= slot;
            if take {
                atts.push(*a);
            }
            !take
        });
        for a in &atts {
            let a = &mut self.atts[*a];
            a.included.push(slot);
            if let Some(later) = a.again.take() {
                a.ready = slot + later;
            }
        }
        for i in &atts {
            let a = &self.atts[*i];
            // those who vote for another target get no credit
            let te = a.target.0;
            if a.stray {
                // no vote for a link of this chain
            } else if self.blocks.is_empty() || (te * SPE <= slot && a.target.1 == self.head((te * SPE).min(slot)).root) {
                part.entry(te).or_default().extend(a.voters.iter().copied());
            }
            if a.ready > slot {
                pool.push(*i);
            }
        }
        let mut mix = st.mixes[&(e % HIST)];
        let reveal = rnd(&[self.plan.salt as u64, 8, slot]);
        mix.iter_mut().zip(reveal).for_each(|(m, r)| *m ^= r);
        Rc::make_mut(&mut st.mixes).insert(e % HIST, mix);

        let n = st.vals.len();
        let ops = self.plan.epochs[(e - self.plan.base) as usize].ops.clone();
        for (at, op) in ops {
            if at as u64 % SPE != slot % SPE {
                continue;
            }
            let i = match op {
                Op::Exit(i) | Op::Consolidate(i) | Op::Slash(i) => i as usize % n,
                _ => continue,
            };
            // the last ones stay
            let free = st.vals.iter().filter(|v| v.active(e) && v.exit == FAR && !v.slashed).count();
            if !st.vals[i].active(e) || free < 2 {
                continue;
            }
            match op {
                Op::Exit(_) => exit(&self.spec, st, i),
                Op::Slash(_) => {
                    exit(&self.spec, st, i);
                    Rc::make_mut(&mut st.vals)[i].slashed = true;
                }
                _ => {
                    let (_, per_epoch) = churns(&self.spec, st);
                    if st.vals[i].exit == FAR && per_epoch > 32 * ETH {
                        let x = enqueue(&mut st.cons_q, e + 5, per_epoch, st.vals[i].eb);
                        Rc::make_mut(&mut st.vals)[i].exit = x;
                    }
                }
            }
        }

        let body = electra::BeaconBlockBody {
            randao_reveal: ethereum_consensus::primitives::BlsSignature::from([reveal[0]; 96]),
            graffiti: rnd(&[self.plan.salt as u64, 9, slot]).into(),
            attestations: atts.iter().map(|a| self.atts[*a].real.clone()).collect::<Vec<_>>().try_into().unwrap(),
            ..Default::default()
        };
        let proposer = self.rnd(10, slot, 0) % n as u64;
        let parent = self.blocks.last_key_value().map_or(rnd(&[11]), |b| b.1.root);
        let body_root = body.hash_tree_root().unwrap().0;
        st.header = Hdr { slot, proposer, parent, state: [0; 32], body: body_root };
        let state = if self.plan.boundary(slot) {
            self.make(st).hash_tree_root().unwrap().0
        } else {
            rnd(&[self.plan.salt as u64, 12, slot])
        };
        let hdr = Hdr { state, ..st.header.clone() };
        let real = BeaconBlock::Electra(electra::BeaconBlock {
            slot,
            proposer_index: proposer as usize,
            parent_root: parent.into(),
            state_root: state.into(),
            body,
        });
        let root = hdr.root();
        self.blocks.insert(slot, Blk { hdr, root, real, atts });
    }

    fn attest(&mut self, st: &St, e: u64, pool: &mut Vec<usize>) {
        let slot = st.slot;
        let ep = self.plan.epochs[(e - self.plan.base) as usize].clone();
        let members = self.committees(st, e)[(slot % SPE) as usize].clone();
        let target = self.cp(e);
        let pick = |what: u64, i: usize| (self.rnd(what, slot, i as u64) % 255) as u8;
        // 0: does not vote, 1: in time, 2: in two aggregates, 3: late, 4: for another target
        let class = |i: usize| {
            if self.plan.absent && st.vals[i].eb <= 16 * ETH {
                return 0;
            }
            let x = pick(13, i);
            let (a, b, c) = (ep.share, ep.share.saturating_add(ep.late), ep.share.saturating_add(ep.late).saturating_add(ep.wrong));
            if x < a {
                if ep.split && pick(14, i) < 128 { 2 } else { 1 }
            } else if x < b {
                3
            } else if x < c {
                4
            } else {
                0
            }
        };
        let of = |want: &[u8]| -> Vec<Vec<usize>> {
            members.iter().map(|c| c.iter().copied().filter(|i| want.contains(&class(*i))).collect()).collect()
        };
        let other = (e, rnd(&[self.plan.salt as u64, 15, e]));
        let kinds: [(&[u8], RealCp, u64); 4] = [
            (&[1, 2], target, slot + 1 + self.rnd(16, slot, 0) % 2),
            (if ep.split { &[2] } else { &[] }, target, slot + 1),
            (&[3], target, (e + 1) * SPE + self.rnd(17, slot, 1) % SPE),
            (&[4], other, slot + 1),
        ];
        let mut new = vec![];
        for (k, (want, target, ready)) in kinds.into_iter().enumerate() {
            let voters = of(want);
            if voters.iter().all(|c| c.is_empty()) {
                continue;
            }
            let again = (pick(18, k) < ep.dup).then(|| 1 + self.rnd(19, slot, k as u64) % 40);
            new.push(self.attestation(st, &members, &voters, st.j, target, ready, again));
        }
        if pick(22, 0) < ep.stray {
            let voters: Vec<Vec<usize>> = members.iter().map(|c| c.iter().copied().filter(|i| pick(23, *i) < 128).collect()).collect();
            let source = [st.pj, (st.j.0, rnd(&[self.plan.salt as u64, 24])), (st.j.0 - 1, st.j.1)][pick(24, 0) as usize % 3];
            if source != st.j && voters.iter().any(|v| !v.is_empty()) {
                let a = self.attestation(st, &members, &voters, source, target, slot + 1, None);
                new.push(Att { stray: true, ..a });
            }
        }
        for a in new {
            pool.push(self.atts.len());
            self.atts.push(a);
        }
    }
    fn attestation(&self, st: &St, members: &[Vec<usize>], voters: &[Vec<usize>], source: RealCp, target: RealCp, ready: u64, again: Option<u64>) -> Att {
        let slot = st.slot;
        let head = self.head(slot).root;
        let cp = |c: RealCp| beacon_types::Checkpoint { epoch: Epoch::new(c.0), root: c.1.into() };
        let data = AttestationData {
            slot: z_core::Slot::new(slot),
            index: 0,
            beacon_block_root: head.into(),
            source: cp(source),
            target: cp(target),
        };
        let fork = self.net.fork(target.0);
        let root = signing_root(&data, ATTESTER, self.net.version::<E>(fork), &self.gvr);
        let mut bits = vec![];
        let mut committee_bits = ssz_rs::Bitvector::<64>::default();
        for (k, (m, v)) in members.iter().zip(voters).enumerate() {
            if !v.is_empty() {
                committee_bits.set(k, true);
                bits.extend(m.iter().map(|i| v.contains(i)));
            }
        }
        let all: Vec<usize> = voters.iter().flatten().copied().collect();
        let sig = aggregate(all.iter().map(|i| st.vals[*i].key), &root);
        let rcp = |c: RealCp| phase0::Checkpoint { epoch: c.0, root: c.1.into() };
        let real = Attestation {
            aggregation_bits: bits.as_slice().try_into().unwrap(),
            data: phase0::AttestationData {
                slot,
                index: 0,
                beacon_block_root: head.into(),
                source: rcp(source),
                target: rcp(target),
            },
            signature: sig.serialize().into(),
            committee_bits,
        };
        Att { slot, source, target, voters: all, real, included: vec![], stray: false, ready, again }
    }
    pub fn committees(&self, st: &St, e: u64) -> Vec<Vec<Vec<usize>>> {
        thread_local! {
            #[allow(clippy::type_complexity)]
            static LAST: RefCell<Option<((Chunk, Vec<usize>, usize), Vec<Vec<Vec<usize>>>)>> = const { RefCell::new(None) };
        }
        let mix = st.mixes.get(&seed_mix_index::<E>(&self.spec, e)).copied().unwrap_or_default();
        let key = (seed(ATTESTER, e, &mix), st.active(e), self.spec.target_committee_size);
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            if l.as_ref().is_none_or(|l| l.0 != key) {
                let c = committees::<E>(&self.spec, &key.1, &key.0);
                *l = Some((key, c));
            }
            l.as_ref().unwrap().1.clone()
        })
    }

    fn make(&self, st: &St) -> BeaconState {
        let cp = |c: RealCp| phase0::Checkpoint { epoch: c.0, root: c.1.into() };
        let e = st.epoch();
        let fork = self.net.fork(e);
        let version = |f: usize| self.net.version::<E>(f);
        let salt = self.plan.salt as u64;
        macro_rules! fill {
            ($s:expr) => {{
                let mut s = $s;
                s.genesis_time = salt;
                s.genesis_validators_root = self.gvr.into();
                s.slot = st.slot;
                s.fork = phase0::Fork {
                    previous_version: version(fork - 1),
                    current_version: version(fork),
                    epoch: self.net.fork_epoch(fork),
                };
                s.latest_block_header = st.header.real();
                for i in 0..4 {
                    s.block_roots[(st.slot as usize + i) % 8192] = rnd(&[salt, 20, st.slot, i as u64]).into();
                }
                s.validators = st
                    .vals
                    .iter()
                    .enumerate()
                    .map(|(i, v)| phase0::Validator {
                        public_key: key(v.key).1.serialize().into(),
                        withdrawal_credentials: rnd(&[21, i as u64]).into(),
                        effective_balance: v.eb,
                        slashed: v.slashed,
                        activation_eligibility_epoch: v.elig,
                        activation_epoch: v.act,
                        exit_epoch: v.exit,
                        withdrawable_epoch: v.exit.saturating_add(256),
                    })
                    .collect::<Vec<_>>()
                    .try_into()
                    .unwrap();
                s.balances = st.vals.iter().map(|v| v.eb + 7).collect::<Vec<_>>().try_into().unwrap();
                for (i, m) in st.mixes.iter() {
                    s.randao_mixes[*i as usize] = (*m).into();
                }
                for (i, b) in st.bits.iter().enumerate() {
                    s.justification_bits.set(i, *b);
                }
                s.previous_justified_checkpoint = cp(st.pj);
                s.current_justified_checkpoint = cp(st.j);
                s.finalized_checkpoint = cp(st.f);
                (s.earliest_exit_epoch, s.exit_balance_to_consume) = st.exit_q;
                (s.earliest_consolidation_epoch, s.consolidation_balance_to_consume) = st.cons_q;
                s
            }};
        }
        if fork >= FULU {
            BeaconState::Fulu(fill!(FuluBeaconState::default()))
        } else {
            BeaconState::Electra(fill!(ElectraBeaconState::default()))
        }
    }
    pub fn state(&self, slot: u64) -> Option<Arc<BeaconState>> {
        self.has(slot)
            .then(|| self.made.borrow_mut().entry(slot).or_insert_with(|| Arc::new(self.make(self.st(slot)))).clone())
    }
    pub fn signed_header(&self, b: &Blk) -> SignedBeaconBlockHeader {
        SignedBeaconBlockHeader { message: b.hdr.real(), signature: [b.root[0]; 96].into() }
    }
    pub fn by_root(&self, root: &Chunk) -> Option<&Blk> {
        self.blocks.values().find(|b| b.root == *root)
    }
    /// A block of an earlier fork in the place of `b`.
    pub fn old_block(&self, b: &Blk) -> BeaconBlock {
        BeaconBlock::Deneb(deneb::BeaconBlock { slot: b.hdr.slot, ..Default::default() })
    }

    /// The finalized checkpoints for which there is a state at the start of an epoch.
    pub fn finalized(&self) -> Vec<RealCp> {
        let mut v: Vec<RealCp> = self.boundaries().map(|(_, s)| s.f).filter(|f| f.0 >= self.plan.base).collect();
        v.dedup();
        v
    }
    pub fn boundaries(&self) -> impl Iterator<Item = (u64, &St)> {
        let b = self.plan.base;
        (b..b + self.plan.epochs.len() as u64).map(|e| (e, self.st(e * SPE)))
    }
    pub fn expect(&self, trusted: RealCp) -> Expect {
        let Some((fe, first)) = self.boundaries().find(|(e, s)| *e > trusted.0 && s.f == trusted) else {
            return Expect { why: Some("not finalized on this chain"), ..Default::default() };
        };
        let mut x = Expect { epoch: fe, pre: Some(first.ffg()), ..Default::default() };
        let mut s = first.ffg();
        for (e, next) in self.boundaries().filter(|(e, _)| *e > fe) {
            let n = next.ffg();
            if n != s {
                let link = (s.j, n.j);
                if apply(&s, link) != Some(n) {
                    x.why = Some("finality by links over two epochs");
                    return x;
                }
                x.links.push((link, e));
            }
            if n.f != trusted {
                x.post = Some(n);
                return x;
            }
            s = n;
        }
        x.why = Some("no new finality yet");
        x
    }
    /// The share of the votes for `link` that `known` attestations carry: balance and total balance,
    /// with the validators as in `st`.
    pub fn votes<'a>(&self, st: &St, e: u64, atts: impl IntoIterator<Item = &'a Att>) -> (u64, u64) {
        let who: BTreeSet<usize> = atts.into_iter().flat_map(|a| a.voters.iter().copied()).collect();
        let active = st.active(e);
        (st.total(who.into_iter().filter(|i| active.contains(i) && !st.vals[*i].slashed)), st.total(active.iter().copied()))
    }
}
/// What the host should find for a trusted checkpoint.
#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub why: Option<&'static str>,
    /// the first epoch whose state has finalized the checkpoint
    pub epoch: u64,
    pub pre: Option<Ffg<RealCp>>,
    /// each link with the epoch at whose start it shows
    pub links: Vec<((RealCp, RealCp), u64)>,
    pub post: Option<Ffg<RealCp>>,
}

// ---- generators ----

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        4 => prop_oneof![Just(33u64), Just(64), Just(256), Just(2048), 17u64..32].prop_map(|b| Kind::Active(b * ETH)),
        2 => Just(Kind::Active(16 * ETH)),
        2 => Just(Kind::Slashed),
        3 => (1u8..7).prop_map(Kind::Exiting),
        2 => Just(Kind::Exited),
        4 => (0u8..4).prop_map(Kind::Pending),
        3 => (0u8..6).prop_map(Kind::Queued),
        1 => Just(Kind::Poor),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<(u8, Op)> {
    let op = prop_oneof![
        4 => any::<u8>().prop_map(Op::Exit),
        4 => any::<u8>().prop_map(Op::Consolidate),
        2 => any::<u8>().prop_map(Op::Slash),
        1 => any::<u8>().prop_map(Op::Deposit),
        2 => any::<u8>().prop_map(Op::Drain),
    ];
    (prop_oneof![3 => 0u8..32, 1 => Just(0u8), 1 => Just(31u8)], op).boxed()
}
fn skips() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => Just(0u32),
        3 => any::<u32>().prop_map(|a| a & a.rotate_left(7) & a.rotate_left(13)),
        3 => (1u32..9).prop_map(|n| (1 << n) - 1),
        3 => (1u32..9, any::<bool>()).prop_map(|(n, first)| (u32::MAX << (32 - n)) | u32::from(first)),
        1 => Just(1u32),
        1 => any::<u32>(),
        1 => Just(u32::MAX),
    ]
    .boxed()
}
fn epoch_plan(busy: bool) -> BoxedStrategy<EpochPlan> {
    let share = prop_oneof![
        10 => 235u8..=255,
        3 => 170u8..235,
        3 => 0u8..180,
        1 => Just(0u8),
    ];
    let ops = if busy { vec(op(), 0..5).boxed() } else { prop_oneof![3 => Just(vec![]), 1 => vec(op(), 0..2)].boxed() };
    (
        skips(),
        share,
        prop_oneof![2 => Just(0u8), 1 => 0u8..60, 1 => 60u8..=255],
        prop_oneof![3 => Just(0u8), 1 => 0u8..80],
        prop_oneof![2 => Just(0u8), 1 => 0u8..120],
        prop_oneof![2 => Just(0u8), 1 => 0u8..60],
        any::<bool>(),
        ops,
    )
        .prop_map(|(skip, share, late, wrong, dup, stray, split, ops)| EpochPlan { skip, share, late, wrong, dup, stray, split, ops })
        .boxed()
}
pub fn plan(busy: bool) -> BoxedStrategy<Plan> {
    plan_with(busy, 0.1)
}
pub fn plan_with(busy: bool, loss: f64) -> BoxedStrategy<Plan> {
    let net = prop_oneof![
        6 => (0u8..20, proptest::option::of(-3i8..8), prop_oneof![8 => Just(None), 1 => (2i8..9).prop_map(Some)])
            .prop_map(|(electra, fulu, gloas)| {
                let fulu = fulu.map(|f| f.max(-(electra as i8) + 1));
                NetKind::Test { electra: electra.max(1), fulu, gloas: gloas.filter(|g| fulu.is_some_and(|f| f < *g)) }
            }),
        1 => Just(NetKind::Sepolia),
        1 => Just(NetKind::Mainnet)
    ];
    let base = prop_oneof![3 => 300u64..400, 1 => (65536 - 12u64)..(65536 + 3), 1 => 60_000u64..600_000];
    (
        (any::<u32>(), base, net, any::<bool>(), any::<bool>(), 33u8..140),
        vec((any::<u8>(), kind()), if busy { 0..20 } else { 0..6 }),
        (prop_oneof![2 => Just(0u8), 1 => 1u8..12, 1 => 20u8..80], prop_oneof![2 => Just(0u8), 1 => 1u8..12, 1 => 20u8..80]),
        vec(epoch_plan(busy), 4..9),
        any::<u8>(),
        proptest::option::weighted(loss, (any::<u8>(), 70u8..140)),
    )
        .prop_map(|((salt, base, net, sepolia_conf, small_committees, n), kinds, (exit_q, cons_q), epochs, trusted, loss)| {
            let mut p = Plan { salt, base, net, sepolia_conf, small_committees, n, kinds, exit_q, cons_q, epochs, trusted, absent: false };
            // in one epoch many lose most of their balance, so that those left are enough only if that is known
            if let Some((at, share)) = loss {
                let k = 1 + at as usize % (p.epochs.len() - 2);
                p.epochs[k].ops.extend((0..n).filter(|i| rnd64(&[salt as u64, 61, *i as u64]) % 255 < share as u64).map(|i| (31, Op::Drain(i))));
                p.absent = true;
                for e in &mut p.epochs {
                    (e.share, e.late, e.wrong) = (250 + e.share % 6, 0, 0);
                }
            }
            p.settle();
            p
        })
        .boxed()
}
impl Plan {
    /// On the deployed networks the chain is around their forks or after them.
    pub fn settle(&mut self) {
        let at = |n: &Net, salt: u32| {
            let forks = [n.electra + 1, n.fulu.unwrap(), n.fulu.unwrap() + 1000];
            let f = forks[salt as usize % 3];
            (f + (salt as u64 / 3) % 6).saturating_sub(if salt % 3 == 1 { 6 } else { 0 })
        };
        match self.net {
            NetKind::Sepolia => (self.base, self.sepolia_conf) = (at(&Net::SEPOLIA, self.salt), true),
            NetKind::Mainnet => (self.base, self.sepolia_conf) = (at(&Net::MAINNET, self.salt), false),
            NetKind::Test { .. } => {}
        }
    }
}
