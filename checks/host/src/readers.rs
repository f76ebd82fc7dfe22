//! From a chain to the input of the guest: C30, C32, C33, C34.

use crate::chain::*;
use crate::ffg::Ffg;
use crate::model::Chunk;
use crate::votes::{RealCp, ccp};
use crate::world::*;
use anyhow::anyhow;
use beacon_types::Attestation;
use ethereum_consensus::electra::mainnet::SignedBeaconBlockHeader;
use ethereum_consensus::types::mainnet::BeaconBlock;
use host::mainnet::BeaconState;
use host::{
    CacheStateProvider, ChainReader, HostInputReader, HostReaderError, PreflightInputReader, StatePatchBuilder,
    StateProvider, StateProviderError, StateRef,
};
use proptest::collection::vec;
use proptest::prelude::*;
use risc0_zkvm::sim;
use serde::{Deserialize, Serialize};
use ssz_rs::HashTreeRoot;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;
use std::sync::Arc;
use vharness::{Case, Verdict, catch, check, check_eq};
use z_core::{ConsensusState, Epoch, InputReader, Slot, verify};

/// What goes wrong at the node.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    #[default]
    None,
    /// the block of this slot (after base) is of an earlier fork
    OldBlock(u16),
    /// asking for the block of this slot fails
    NoAnswer(u16),
    /// asking for the checkpoints in this epoch (after base) fails
    NoState(u8),
    /// the header of the finalized block is not there
    NoHeader,
}
#[derive(Clone)]
pub struct Node<'a> {
    pub chain: &'a Chain,
    pub fault: Fault,
}
impl<'a> Node<'a> {
    pub fn new(chain: &'a Chain) -> Self {
        Node { chain, fault: Fault::None }
    }
    pub fn block_at(&self, id: &str) -> Option<&'a Blk> {
        match id.strip_prefix("0x") {
            Some(h) => self.chain.by_root(&Chunk::try_from(unhex(h)).ok()?),
            None if id == "head" => Some(self.chain.head(self.chain.last())),
            None => self.chain.blocks.get(&id.parse().ok()?),
        }
    }
}
pub fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or_default()).collect()
}
impl StateProvider for Node<'_> {
    type Spec = E;
    fn state_at_slot(&self, slot: Slot) -> Result<StateRef, StateProviderError> {
        if slot.as_u64() == 0 {
            let mut s = host::mainnet::ElectraBeaconState::default();
            s.genesis_validators_root = self.chain.gvr.into();
            return Ok(Arc::new(BeaconState::Electra(s)));
        }
        self.chain.state(slot.as_u64()).ok_or(StateProviderError::NotFound(slot))
    }
}
impl ChainReader for Node<'_> {
    async fn get_block_header(&self, id: impl Display) -> anyhow::Result<Option<SignedBeaconBlockHeader>> {
        if self.fault == Fault::NoHeader {
            return Ok(None);
        }
        Ok(self.block_at(&id.to_string()).map(|b| self.chain.signed_header(b)))
    }
    async fn get_block(&self, id: impl Display) -> anyhow::Result<Option<BeaconBlock>> {
        let b = self.block_at(&id.to_string());
        match (&self.fault, b) {
            (Fault::OldBlock(s), Some(b)) if b.hdr.slot == self.chain.first + *s as u64 => Ok(Some(self.chain.old_block(b))),
            (Fault::NoAnswer(s), _) if id.to_string() == (self.chain.first + *s as u64).to_string() => Err(anyhow!("no answer")),
            (_, b) => Ok(b.map(|b| b.real.clone())),
        }
    }
    async fn get_consensus_state(&self, id: impl Display) -> anyhow::Result<ConsensusState> {
        let slot: u64 = id.to_string().parse()?;
        if let Fault::NoState(e) = self.fault
            && slot / SPE == self.chain.plan.base + e as u64
        {
            return Err(anyhow!("no answer"));
        }
        if !self.chain.has(slot) {
            return Err(anyhow!("404"));
        }
        let s = self.chain.st(slot);
        Ok(ConsensusState::new(ccp(s.j), ccp(s.f)))
    }
}

// ---- C30 ----

pub fn plain() -> BoxedStrategy<Plan> {
    plan(false)
}
pub fn check_boundaries(p: &Plan, c: &mut Case) -> Verdict {
    let chain = Chain::new(p);
    let node = Node::new(&chain);
    let base = p.base;
    let n = p.epochs.len() as u64;
    let mut moved = false;
    for e in base..base + n {
        let epoch = Epoch::new(e);
        let at = node.state_at_epoch(epoch).map_err(|x| format!("state at epoch {e}: {x}"))?;
        check_eq!(at.slot(), e * SPE, "slot of the state at the start of epoch {e}");
        let boundary = chain.head(e * SPE);
        let b = node.state_at_epoch_boundary(epoch).map_err(|x| format!("state at the boundary of epoch {e}: {x}"))?;
        check_eq!((b.slot(), b.latest_block_header().slot), (boundary.hdr.slot, boundary.hdr.slot), "state at the boundary of epoch {e}");
        moved |= boundary.hdr.slot != e * SPE;
        c.label_if(boundary.hdr.slot / SPE + 1 < e, "boundary block more than an epoch before");
    }
    // checkpoints, right and wrong
    for k in 0..6u64 {
        let e = base + (p.trusted as u64 + k) % n;
        let epoch = Epoch::new(e);
        let root = match k {
            0..=2 => chain.head(e * SPE).root,
            3 => chain.head(chain.last()).root,
            4 => chain.cp(base + p.trusted as u64 * 7 % n).1,
            _ => rnd(&[p.salt as u64, e]),
        };
        let right = root == chain.head(e * SPE).root;
        match catch(|| node.state_at_checkpoint(z_core::Checkpoint::new(epoch, root.into()))).map_err(|x| format!("state_at_checkpoint panics: {x}"))? {
            Ok(s) => {
                check!(right, "a state is given for a checkpoint of epoch {e} with the root of another block");
                check_eq!(s.slot(), chain.head(e * SPE).hdr.slot, "slot of the state of the checkpoint of epoch {e}");
            }
            Err(x) => {
                check!(!right, "there is no state for the checkpoint of epoch {e}: {x}");
                check!(matches!(x, StateProviderError::InvalidCheckpoint), "a wrong checkpoint is reported as {x:?}");
                c.label("wrong checkpoint");
            }
        }
    }
    // beyond the head
    let beyond = Epoch::new(base + n);
    check!(matches!(node.state_at_epoch_boundary(beyond), Err(StateProviderError::NotFound(_))), "boundary beyond the head");
    c.nontrivial(moved);
    Ok(())
}

/// A chain without anything but slots, which can begin at genesis.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bare {
    pub base: u64,
    pub fulu: bool,
    pub salt: u32,
    /// the slots without a block, per epoch
    pub skip: Vec<u32>,
    /// the state of this slot cannot be had
    pub lost: Option<u16>,
    /// (epoch, what the root is)
    pub asks: Vec<(u8, u8)>,
}
pub fn bare() -> BoxedStrategy<Bare> {
    let base = prop_oneof![3 => Just(0u64), 1 => 1u64..3, 1 => 1u64..1 << 40];
    let skip = prop_oneof![2 => Just(0u32), 3 => Just(1u32), 1 => any::<u32>(), 1 => Just(u32::MAX)];
    (base, any::<bool>(), any::<u32>(), vec(skip, 2..5), prop::option::weighted(0.2, 0u16..160), vec((0u8..6, 0u8..6), 1..5))
        .prop_map(|(base, fulu, salt, skip, lost, asks)| Bare { base, fulu, salt, skip, lost, asks })
        .boxed()
}
impl Bare {
    fn end(&self) -> u64 {
        (self.base + self.skip.len() as u64) * SPE
    }
    /// The slot of the last block up to `slot`.
    fn head(&self, slot: u64) -> u64 {
        let first = self.base * SPE;
        (first..=slot).rev().find(|s| *s == first || self.skip[((s - first) / SPE) as usize] >> (s % SPE) & 1 == 0).unwrap()
    }
    fn state(&self, slot: u64) -> BeaconState {
        let at = self.head(slot);
        let header = Hdr { slot: at, proposer: at % 7, parent: rnd(&[self.salt as u64, 1, at]), state: if at == slot { [0; 32] } else { rnd(&[3]) }, body: rnd(&[2, at]) };
        macro_rules! fill {
            ($t:ident, $v:ident) => {{
                let mut s = host::mainnet::$t::default();
                (s.slot, s.genesis_time, s.latest_block_header) = (slot, self.salt as u64, header.real());
                BeaconState::$v(s)
            }};
        }
        if self.fulu { fill!(FuluBeaconState, Fulu) } else { fill!(ElectraBeaconState, Electra) }
    }
}
struct BareNode<'a>(&'a Bare);
impl StateProvider for BareNode<'_> {
    type Spec = E;
    fn state_at_slot(&self, slot: Slot) -> Result<StateRef, StateProviderError> {
        let (b, s) = (self.0, slot.as_u64());
        if s < b.base * SPE || s >= b.end() || b.lost.is_some_and(|l| b.base * SPE + l as u64 == s) {
            return Err(StateProviderError::NotFound(slot));
        }
        Ok(Arc::new(b.state(s)))
    }
}
pub fn check_bare(b: &Bare, c: &mut Case) -> Verdict {
    let node = BareNode(b);
    let known = |s: u64| s < b.end() && b.lost.is_none_or(|l| b.base * SPE + l as u64 != s);
    for (e, what) in &b.asks {
        let e = b.base + *e as u64;
        let start = e * SPE;
        let at = if start < b.end() { b.head(start) } else { start };
        let there = known(start) && known(at);
        let root = |s: u64| -> Chunk {
            let st = b.state(s);
            let h = st.latest_block_header();
            let (parent, body) = (h.parent_root.0, h.body_root.0);
            Hdr { slot: s, proposer: s % 7, parent, state: st.hash_tree_root().unwrap().0, body }.root()
        };
        let some = start.min(b.end() - 1);
        let root = match what {
            0..=2 => root(b.head(some)),
            3 => [0; 32],
            4 => root(b.head((some + SPE - 1).min(b.end() - 1))),
            _ => rnd(&[b.salt as u64, e]),
        };
        let right = *what <= 2 || (*what == 4 && start < b.end() && b.head((start + SPE - 1).min(b.end() - 1)) == at);
        let got = catch(|| node.state_at_checkpoint(z_core::Checkpoint::new(Epoch::new(e), root.into()))).map_err(|p| format!("state_at_checkpoint panics: {p}"))?;
        c.label_if(e == 0, "epoch 0");
        c.label_if(!there, "no such state");
        match got {
            Ok(s) => {
                check!(there, "a state for epoch {e}, which there is not");
                check!(right, "a state is given for the checkpoint of epoch {e} with the root of something else ({what})");
                check_eq!((s.slot(), s.latest_block_header().slot), (at, at), "state of the checkpoint of epoch {e}");
                c.label_if(at != start, "boundary block before the epoch");
            }
            Err(StateProviderError::NotFound(_)) => check!(!there, "the state for epoch {e} is there"),
            Err(x) => {
                check!(there && !right, "there is no state for the checkpoint of epoch {e}: {x}");
                check!(matches!(x, StateProviderError::InvalidCheckpoint), "a wrong checkpoint is reported as {x:?}");
                c.label("wrong checkpoint");
            }
        }
        c.nontrivial(there && (!right || at != start));
        if there {
            let s = node.state_at_epoch_boundary(Epoch::new(e)).map_err(|x| format!("state at the boundary of epoch {e}: {x}"))?;
            check_eq!((s.slot(), s.latest_block_header().slot), (at, at), "state at the boundary of epoch {e}");
        }
    }
    Ok(())
}

// ---- C32 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PatchCase {
    /// exit epochs of the state and of the list it is compared with
    pub state: Vec<u8>,
    pub other: Vec<u8>,
    pub mixes: Vec<u32>,
    pub fulu: bool,
    pub salt: u32,
}
pub fn patch_case() -> BoxedStrategy<PatchCase> {
    let idx = prop_oneof![4 => 0u32..65536, 1 => 65534u32..65540, 1 => any::<u32>()];
    (vec(0u8..4, 0..30), vec(0u8..4, 0..30), vec(idx, 0..4), any::<bool>(), any::<u32>())
        .prop_map(|(state, mut other, mixes, fulu, salt)| {
            // mostly the same registry
            if salt % 3 != 0 {
                for (i, x) in state.iter().enumerate() {
                    if i < other.len() && rnd64(&[salt as u64, i as u64]) % 4 != 0 {
                        other[i] = *x;
                    }
                }
            }
            PatchCase { state, other, mixes, fulu, salt }
        })
        .boxed()
}
pub fn check_patch(p: &PatchCase, c: &mut Case) -> Verdict {
    let exit = |x: u8| [FAR, 7, 1000, u64::MAX - 1][x as usize];
    let validators = |v: &[u8], salt: u64| -> Vec<ethereum_consensus::phase0::Validator> {
        v.iter()
            .enumerate()
            .map(|(i, x)| ethereum_consensus::phase0::Validator {
                effective_balance: rnd64(&[salt, i as u64]) % 4,
                slashed: rnd64(&[salt, i as u64, 1]) % 2 == 0,
                exit_epoch: exit(*x),
                ..Default::default()
            })
            .collect()
    };
    let mix = |i: u64| rnd(&[p.salt as u64, 3, i]);
    macro_rules! state {
        ($t:ident, $v:ident) => {{
            let mut s = host::mainnet::$t::default();
            s.validators = validators(&p.state, 1).try_into().unwrap();
            for i in &p.mixes {
                if *i < 65536 {
                    s.randao_mixes[*i as usize] = mix(*i as u64).into();
                }
            }
            BeaconState::$v(s)
        }};
    }
    let state = if p.fulu { state!(FuluBeaconState, Fulu) } else { state!(ElectraBeaconState, Electra) };
    let mut b = StatePatchBuilder::new(Arc::new(state));
    let mut mixes = BTreeMap::new();
    for i in &p.mixes {
        let got = catch(|| b.randao_mix(*i as z_core::RandaoMixIndex)).map_err(|x| format!("randao_mix panics: {x}"))?;
        check_eq!(got.is_ok(), *i < 65536, "recording the mix {i}");
        if *i < 65536 {
            mixes.insert(*i as u64, mix(*i as u64));
        }
    }
    let other = validators(&p.other, 2);
    b.validator_diff(other.iter());
    let patch = b.build::<E>();
    let want: BTreeMap<usize, u64> = p
        .state
        .iter()
        .zip(&p.other)
        .enumerate()
        .filter(|(_, (a, b))| a != b)
        .map(|(i, (a, _))| (i, exit(*a)))
        .collect();
    let got: BTreeMap<usize, u64> = patch.validator_exits.iter().map(|(i, e)| (*i, e.as_u64())).collect();
    c.nontrivial(!want.is_empty());
    check_eq!(got, want, "exits in the patch");
    let got: BTreeMap<u64, Chunk> = patch.randao_mixes.iter().map(|(i, m)| (*i as u64, m.0)).collect();
    check_eq!(got, mixes, "mixes in the patch");
    Ok(())
}

// ---- C33, C34 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    pub plan: Plan,
    pub fault: Fault,
}
pub fn run() -> BoxedStrategy<Run> {
    let fault = prop_oneof![
        8 => Just(Fault::None),
        1 => (0u16..256).prop_map(Fault::OldBlock),
        1 => (0u16..256).prop_map(Fault::NoAnswer),
        1 => (0u8..8).prop_map(Fault::NoState),
        1 => Just(Fault::NoHeader),
    ];
    (prop_oneof![1 => plan(false), 2 => plan(true)], fault, 0..5)
        .prop_map(|(mut plan, fault, any)| {
            if any > 0 {
                plan.trusted %= 160;
            }
            Run { plan, fault }
        })
        .boxed()
}
pub fn recorded() -> BoxedStrategy<Run> {
    Just(serde_json::from_str(include_str!("recorded.json")).unwrap()).boxed()
}
pub fn honest() -> BoxedStrategy<Run> {
    (prop_oneof![1 => plan(false), 2 => plan(true)], prop_oneof![2 => Just(None), 1 => (2usize..6, 0u8..120).prop_map(Some)])
        .prop_map(|(mut plan, skipped)| {
            // a checkpoint that is final
            plan.trusted %= 160;
            if let Some((i, share)) = skipped {
                // all justify their epoch but for one, so that a link over two epochs is needed
                while plan.epochs.len() < i + 4 {
                    plan.epochs.push(plan.epochs[plan.epochs.len() % 3].clone());
                }
                for (k, e) in plan.epochs.iter_mut().enumerate() {
                    (e.wrong, e.share) = if k == i { (e.wrong, share) } else { (0, e.share | 240) };
                    if e.skip.count_ones() > 16 {
                        e.skip &= 0xff00_00ff;
                    }
                }
                return Run { plan, fault: Fault::None };
            }
            for e in &mut plan.epochs {
                if e.share < 128 {
                    e.share += 127;
                }
            }
            Run { plan, fault: Fault::None }
        })
        .boxed()
}

pub fn trusted(chain: &Chain) -> RealCp {
    let p = &chain.plan;
    let all = chain.finalized();
    let n = p.epochs.len() as u64;
    match p.trusted {
        // mostly one that is followed by another
        0..=159 if !all.is_empty() => {
            let k = if p.trusted % 8 == 0 { all.len() } else { (all.len() - 1).max(1) };
            all[(p.trusted as usize / 8) % k]
        }
        // right epoch, wrong root
        160..=199 => (p.base + p.trusted as u64 % n, rnd(&[p.trusted as u64])),
        // maybe justified, or in the past
        200..=239 => chain.cp(p.base + p.trusted as u64 % n),
        _ => (p.base + n + p.trusted as u64 % 3, rnd(&[1])),
    }
}
/// Why verification must fail, or what it must give.
#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    Fail(&'static str),
    Done(Ffg<RealCp>, u64),
    Either,
}
/// The links, given that at least the attestations `must` and at most those in `may` are known.
pub fn judge(chain: &Chain, f: RealCp, links: &[(RealCp, RealCp)], post: Ffg<RealCp>, ctx: &dyn Fn(u64) -> St, must: &[Vec<&Att>], may: &[Vec<&Att>]) -> Want {
    let (min, max, lookahead, factor, quotient) = chain.plan.conf().rules();
    let mut open = false;
    for (k, (_, target)) in links.iter().enumerate() {
        let fork = chain.net.fork(target.0);
        if fork < min || fork > max {
            return Want::Fail("fork not supported");
        }
        if target.0 - f.0 > lookahead {
            return Want::Fail("too far ahead");
        }
        let st = ctx(target.0);
        let enough = |a: &[&Att]| {
            let (sum, total) = chain.votes(&st, target.0, a.iter().copied());
            sum as u128 * quotient as u128 >= total as u128 * factor as u128
        };
        if !enough(&may[k]) {
            return Want::Fail("too few votes");
        }
        open |= !enough(&must[k]);
    }
    if open {
        return Want::Either;
    }
    match chain.by_root(&post.f.1) {
        Some(b) => Want::Done(post, b.hdr.slot),
        None => Want::Fail("no header of the finalized block"),
    }
}
fn real(s: &Ffg<RealCp>) -> ConsensusState {
    ConsensusState::new(ccp(s.j), ccp(s.f))
}
/// (slot, target root, signature) tells attestations apart.
fn id(a: &Attestation<E>) -> (u64, Chunk, Vec<u8>) {
    (a.data().slot.as_u64(), a.data().target.root.0, a.as_electra().unwrap().signature.serialize().to_vec())
}
fn same(a: &Attestation<E>, b: &Att) -> bool {
    let d = a.data();
    let x = &b.real;
    let r = a.as_electra().unwrap();
    (d.slot.as_u64(), d.index, d.beacon_block_root.0) == (x.data.slot, x.data.index as u64, x.data.beacon_block_root.0)
        && (d.source.epoch.as_u64(), d.source.root.0) == b.source
        && (d.target.epoch.as_u64(), d.target.root.0) == b.target
        && r.signature.serialize()[..] == x.signature[..]
        && r.aggregation_bits.iter().collect::<Vec<bool>>() == **x.aggregation_bits
        && r.committee_bits.iter().collect::<Vec<bool>>() == **x.committee_bits
}
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    futures::executor::block_on(f)
}

pub fn check_host(r: &Run, c: &mut Case) -> Verdict {
    let chain = Chain::new(&r.plan);
    let node = Node { chain: &chain, fault: r.fault.clone() };
    let f = trusted(&chain);
    let x = chain.expect(f);
    let provider = CacheStateProvider::new(node.clone());
    let reader = catch(|| block_on(HostInputReader::<E, _, _>::new(chain.spec.clone(), provider, node.clone(), ccp(f))))
        .map_err(|p| format!("the reader panics: {p}"))?;
    // what the node must be asked for: checkpoints up to the new finality, and blocks from the first target on
    let shown = x.links.last().map_or(0, |l| l.1);
    let lo = x.links.iter().map(|l| l.0.1.0).min().unwrap_or(0) * SPE;
    let faulty = match &r.fault {
        Fault::OldBlock(s) | Fault::NoAnswer(s) if x.why.is_none() => {
            let s = chain.first + *s as u64;
            let there = chain.blocks.contains_key(&s) || matches!(r.fault, Fault::NoAnswer(_));
            if (lo..shown * SPE).contains(&s) {
                there
            } else {
                // whether the reader looks at more blocks is up to it
                if reader.is_err() {
                    return Ok(());
                }
                false
            }
        }
        Fault::NoState(e) => {
            let e = r.plan.base + *e as u64;
            // finality shows in the state right after this epoch
            (f.0 + 1..=x.epoch.max(shown)).contains(&e)
        }
        _ => false,
    };
    let reader = match (&x.why, reader) {
        (None, Ok(reader)) => {
            check!(!faulty, "the reader ignores that the node fails: {:?}", r.fault);
            reader
        }
        (Some(why), Err(_)) => {
            c.label(why);
            return Ok(());
        }
        (Some(why), Ok(_)) => return Err(format!("a reader is made, but must not be: {why}")),
        (None, Err(e)) => {
            check!(faulty, "no reader for the finalized checkpoint {f:?}: {e}");
            check!(
                !matches!(r.fault, Fault::OldBlock(_)) || matches!(e, HostReaderError::UnsupportedBlockVersion),
                "an old block is reported as {e}"
            );
            c.label("faulty node");
            return Ok(());
        }
    };
    let pre = x.pre.unwrap();
    check_eq!(reader.consensus_state().map_err(|e| e.to_string())?, real(&pre), "consensus state");
    check_eq!(*reader.chain_spec(), chain.spec, "chain spec");
    c.label_if(x.links.len() > 1, "several links");

    // attestations: for each link, in the order of the links, all that are in blocks up to its justification
    let got: Vec<&Attestation<E>> = reader.attestations().map_err(|e| e.to_string())?.collect();
    let known: BTreeMap<_, &Att> = chain
        .atts
        .iter()
        .filter(|a| !a.included.is_empty())
        .map(|a| ((a.slot, a.target.1, a.real.signature.to_vec()), a))
        .collect();
    let mut groups: Vec<Vec<&Att>> = vec![vec![]; x.links.len()];
    let mut at = 0;
    for a in &got {
        let b = known.get(&id(a)).ok_or("an attestation that is in no block")?;
        check!(same(a, b), "an attestation is changed: {a:?}, on chain {:?}", b.real);
        while at < x.links.len() && x.links[at].0 != b.link() {
            at += 1;
        }
        check!(at < x.links.len(), "an attestation for the link {:?} is not needed or out of order", b.link());
        groups[at].push(b);
    }
    let mut late = false;
    for (k, (link, shown)) in x.links.iter().enumerate() {
        for a in chain.atts.iter().filter(|a| a.link() == *link && a.included.iter().any(|s| *s < shown * SPE)) {
            check!(
                groups[k].iter().any(|b| b.real == a.real),
                "an attestation of slot {} for the link {link:?}, which is in the blocks of the slots {:?}, is missing; the link is justified at slot {}",
                a.slot,
                a.included,
                shown * SPE
            );
            late |= a.included[0] > (link.1.0 + 1) * SPE;
        }
    }
    c.label_if(late, "votes from late in the next epoch");

    // views of the state
    let last = (f.0 + 5).min(r.plan.base + r.plan.epochs.len() as u64 - 1);
    // also earlier epochs, and one of them again
    for e in (f.0.saturating_sub(2).max(r.plan.base)..=last).chain([f.0]) {
        let st = chain.st(e * SPE);
        let epoch = Epoch::new(e);
        let active: Vec<_> = reader.active_validators(epoch).map_err(|e| e.to_string())?.map(|(i, v)| (i, v.clone())).collect();
        check_eq!(active.iter().map(|a| a.0).collect::<Vec<_>>(), st.active(e), "active validators of epoch {e}");
        for (i, v) in &active {
            let w = &st.vals[*i];
            check_eq!(
                (v.effective_balance, v.slashed, v.activation_eligibility_epoch.as_u64(), v.activation_epoch.as_u64(), v.exit_epoch.as_u64()),
                (w.eb, w.slashed, w.elig, w.act, w.exit),
                "validator {i} in epoch {e}"
            );
            check_eq!(v.pubkey.serialize(), key(w.key).1.serialize(), "key of validator {i}");
        }
        let fork = reader.fork(epoch).map_err(|e| e.to_string())?;
        let k = chain.net.fork(e);
        check_eq!(
            (fork.previous_version, fork.current_version, fork.epoch.as_u64()),
            (chain.net.version::<E>(k - 1), chain.net.version::<E>(k), chain.net.fork_epoch(k)),
            "fork of epoch {e}"
        );
        for m in e - 3..=e + 1 {
            let got = reader.randao_mix(epoch, (m % 65536) as u32).map_err(|e| e.to_string())?;
            check_eq!(got.map(|g| g.0), Some(st.mixes.get(&(m % 65536)).copied().unwrap_or_default()), "mix of epoch {m} in epoch {e}");
        }
        check_eq!(reader.randao_mix(epoch, 65536).map_err(|e| e.to_string())?, None, "a mix that does not exist");
    }
    check_eq!(InputReader::genesis_validators_root(&reader).map_err(|e| e.to_string())?.0, chain.gvr, "genesis validators root");
    for e in f.0..f.0 + 3 {
        if chain.has(e * SPE) {
            let b = chain.head(e * SPE);
            let got = reader.slot_for_block(&b.root.into());
            if r.fault == Fault::NoHeader {
                check!(matches!(got, Err(HostReaderError::BlockMissing)), "slot of a missing block: {got:?}");
            } else {
                check_eq!(got.map_err(|e| e.to_string())?, b.hdr.slot, "slot of a block");
            }
        }
    }
    if r.fault == Fault::None {
        check!(matches!(reader.slot_for_block(&rnd(&[4]).into()), Err(HostReaderError::BlockMissing)), "slot of an unknown block");
    }

    // verification on the host
    let links: Vec<_> = x.links.iter().map(|l| l.0).collect();
    let ctx = |e: u64| chain.st(e * SPE).clone();
    let post = x.post.unwrap();
    let must: Vec<Vec<&Att>> = x
        .links
        .iter()
        .map(|(l, shown)| chain.atts.iter().filter(|a| a.link() == *l && a.included.iter().any(|s| *s < shown * SPE)).collect())
        .collect();
    let may: Vec<Vec<&Att>> =
        links.iter().map(|l| chain.atts.iter().filter(|a| a.link() == *l && !a.included.is_empty()).collect()).collect();
    let mut want = judge(&chain, f, &links, post, &ctx, &must, &may);
    if r.fault == Fault::NoHeader && want != Want::Either && !matches!(want, Want::Fail(_)) {
        want = Want::Fail("no header of the finalized block");
    }
    let got = catch(|| verify(&r.plan.conf().real(), &reader)).map_err(|p| format!("verification on the host panics: {p}"))?;
    match (&want, got) {
        (Want::Fail(why), Err(_)) => c.label(why),
        (Want::Fail(why), Ok(s)) => return Err(format!("verification succeeds with {s:?}, but must not: {why}")),
        (Want::Done(s, slot), Ok(got)) => {
            c.label("verified");
            c.nontrivial(true);
            check_eq!(got, (real(s), *slot), "result of the verification");
        }
        (Want::Done(..), Err(e)) => return Err(format!("the chain has finalized {:?}, but verification fails: {e}", post.f)),
        (Want::Either, _) => c.label("open"),
    }
    Ok(())
}

/// A validator is activated while the trusted state is behind the trusted epoch: the guest does not know
/// that finality has advanced in between, and takes it for active later than it is.
pub const BEHIND: &str = "the guest panics on an honest input if there is no block in the first slot of the trusted epoch F and a validator, \
eligible since an epoch that the trusted state does not see as final, becomes active up to F+4, where a link ends";
pub fn behind(chain: &Chain, f: RealCp, j: u64, links: &[(RealCp, RealCp)]) -> bool {
    let old = chain.st(chain.head(f.0 * SPE).hdr.slot);
    let mut vals = (*old.vals).clone();
    for e in old.epoch()..=j {
        for v in &mut vals {
            if v.elig == FAR && v.eb >= 32 * GWEI {
                v.elig = e + 1;
            }
            if v.elig <= (if e < j { old.f.0 } else { f.0 }) && v.act == FAR {
                v.act = e + 5;
            }
        }
    }
    old.epoch() < f.0
        && links.iter().any(|(_, t)| {
            let now = chain.st(t.0 * SPE);
            vals.iter().zip(now.vals.iter()).any(|(a, b)| now.f.0 > old.f.0 && b.act < a.act && b.active(t.0))
        })
}

/// The state `now` with what the guest knows from the state `old` only.
pub fn trusted_view(now: &St, old: &St) -> St {
    let mut vals: Vec<V> = now.vals.iter().take(old.vals.len()).cloned().collect();
    for (v, o) in vals.iter_mut().zip(old.vals.iter()) {
        (v.eb, v.slashed) = (o.eb, o.slashed);
    }
    St { vals: vals.into(), ..now.clone() }
}

fn word(n: u64) -> Chunk {
    let mut w = [0; 32];
    w[24..].copy_from_slice(&n.to_be_bytes());
    w
}
pub fn journal(pre: &Ffg<RealCp>, post: &Ffg<RealCp>, slot: u64) -> Vec<u8> {
    let cp = |c: &RealCp| [word(c.0), c.1].concat();
    [cp(&pre.j), cp(&pre.f), cp(&post.j), cp(&post.f), word(slot).to_vec()].concat()
}
/// Preflight on the host, and the guest with the input that comes out of it.
/// Whatever else was asked of the preflight reader is in the input that it makes then.
fn asked<'a>(
    chain: &Chain,
    f: RealCp,
    pre: &PreflightInputReader<'_, HostInputReader<E, CacheStateProvider<Node<'a>>, Node<'a>>, Node<'a>>,
    salt: u64,
    c: &mut Case,
) -> Verdict {
    let pick = |k: u64, n: u64| rnd64(&[salt, 42, k]) % n.max(1);
    let (mut mixes, mut slots) = (vec![], vec![]);
    for k in 0..pick(0, 5) {
        let e = (f.0 + pick(3 * k + 1, 4)).min(chain.last() / SPE);
        let idx = [e + 65536 - 2, e + 65536 - 1, e, pick(3 * k + 3, 65536)][pick(3 * k + 2, 4) as usize] % 65536;
        if let Ok(Ok(Some(mix))) = catch(|| pre.randao_mix(Epoch::new(e), idx as u32)) {
            mixes.push((e, idx, mix));
        }
    }
    let blocks: Vec<_> = chain.blocks.values().collect();
    for k in 0..pick(20, 4) {
        let b = blocks[pick(21 + k, blocks.len() as u64) as usize];
        let got = pre.slot_for_block(&b.root.into()).map_err(|e| format!("no slot of block {:02x?}: {e}", b.root))?;
        check_eq!(got, b.hdr.slot, "slot of a block");
        slots.push(b);
    }
    if mixes.is_empty() && slots.is_empty() {
        return Ok(());
    }
    c.label("asked for more");
    let input = catch(|| pre.to_input())
        .map_err(|p| format!("making the input once more panics: {p}"))?
        .map_err(|e| format!("no input once more: {e:#}"))?;
    let guest = catch(|| input.into_reader(chain.spec.clone()))
        .map_err(|p| format!("the guest's reader panics when more was asked of the preflight: {p}"))?
        .map_err(|e| format!("the guest's reader refuses the input when more was asked of the preflight: {e}"))?;
    for (e, idx, mix) in mixes {
        let got = guest.randao_mix(Epoch::new(e), idx as u32).map_err(|e| e.to_string())?;
        check_eq!(got, Some(mix), "mix {idx} of epoch F + {}, asked of the preflight before", e - f.0);
    }
    for b in slots {
        let got = guest.slot_for_block(&b.root.into()).map_err(|e| format!("the slot of a block, asked of the preflight before, is not known: {e}"))?;
        check_eq!(got, b.hdr.slot, "slot of a block, asked of the preflight before");
    }
    Ok(())
}

pub fn check_preflight(r: &Run, c: &mut Case) -> Verdict {
    let chain = Chain::new(&r.plan);
    let node = Node::new(&chain);
    let f = trusted(&chain);
    let x = chain.expect(f);
    let conf = r.plan.conf().real();
    let provider = CacheStateProvider::new(node.clone());
    let reader = catch(|| block_on(HostInputReader::<E, _, _>::new(chain.spec.clone(), provider, node.clone(), ccp(f))));
    let Ok(Ok(reader)) = reader else {
        c.label("no reader");
        return Ok(());
    };
    let pre = PreflightInputReader::new(&reader, node.clone(), ccp(f));
    let done = catch(|| verify(&conf, &pre)).map_err(|p| format!("preflight panics: {p}"))?;
    let direct = catch(|| verify(&conf, &reader)).map_err(|p| format!("verification panics: {p}"))?;
    check_eq!(done, direct, "verification by way of the preflight reader");
    let Ok((post, slot)) = done else {
        c.label("preflight fails");
        return Ok(());
    };
    let input = catch(|| pre.to_input())
        .map_err(|p| format!("making the input panics: {p}"))?
        .map_err(|e| format!("no input, although preflight succeeded: {e:#}"))?;
    let again = pre.to_input().map_err(|e| format!("no second input: {e:#}"))?;
    let frame = bincode::serialize(&input).map_err(|e| e.to_string())?;
    check!(bincode::serialize(&again).ok().as_ref() == Some(&frame), "asking for the input again gives another one");
    check_eq!(input.consensus_state, real(&x.pre.unwrap()), "consensus state of the input");

    // by the balances and flags of the trusted state, which the guest has to use, are the votes enough?
    let used: BTreeSet<_> = input.attestations.iter().map(id).collect();
    let links: Vec<_> = x.links.iter().map(|l| l.0).collect();
    let groups: Vec<Vec<&Att>> = links
        .iter()
        .map(|l| chain.atts.iter().filter(|a| a.link() == *l && used.contains(&(a.slot, a.target.1, a.real.signature.to_vec()))).collect())
        .collect();
    let boundary = chain.head(f.0 * SPE);
    let old = chain.st(boundary.hdr.slot);
    let ctx = |e: u64| trusted_view(chain.st(e * SPE), old);
    let want = judge(&chain, f, &links, x.post.unwrap(), &ctx, &groups, &groups);
    let mut why = String::new();
    let (got, end) = sim::run(vec![frame], || {
        if let Err(e) = catch(|| beacon_guest::entry::<E>(chain.spec.clone(), &conf)) {
            why = e;
            panic!("the guest fails");
        }
    });
    c.label_if(boundary.hdr.slot != f.0 * SPE, "boundary block before the epoch");
    c.label_if(links.len() > 1, "several links");
    c.label_if(input.patches.values().any(|p| !p.validator_exits.is_empty()), "with exits");
    if end.is_err() && matches!(want, Want::Done(..)) && behind(&chain, f, x.pre.unwrap().j.0, &links) {
        return c.finding(BEHIND);
    }
    match want {
        Want::Done(s, n) => {
            c.label("proven");
            c.nontrivial(true);
            check_eq!((real(&s), n), (post, slot), "result of the preflight");
            check!(end.is_ok(), "the guest refuses the input of a successful preflight: {why}");
            check_eq!(got, journal(&x.pre.unwrap(), &s, n), "journal");
            asked(&chain, f, &pre, rnd64(&[r.plan.salt as u64, 41]), c)?;
        }
        Want::Fail(why) => {
            c.label(why);
            check!(end.is_err() && got.is_empty(), "the guest accepts, but by the trusted balances must not: {why}");
        }
        Want::Either => unreachable!(),
    }
    Ok(())
}

// ---- the readers in a task that has been busy ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Busy {
    pub plan: Plan,
    /// what the task has done since it last gave way, and what it takes to fetch a header
    pub used: u8,
    pub needs: u8,
}
pub fn busy() -> BoxedStrategy<Busy> {
    (plan(false), prop_oneof![1 => 0u8..128, 2 => 118u8..=128], 1u8..12)
        .prop_map(|(mut plan, used, needs)| {
            plan.trusted %= 160;
            for e in &mut plan.epochs {
                (e.share, e.late) = (255, 0);
            }
            Busy { plan, used, needs }
        })
        .boxed()
}
/// A node whose answers pass through tokio's channels and sockets.
#[derive(Clone)]
struct Remote<'a>(Node<'a>, u8);
async fn cooperate() {
    let mut held = 0;
    let mut f = Box::pin(tokio::task::consume_budget());
    std::future::poll_fn(|cx| {
        let p = f.as_mut().poll(cx);
        held += 1;
        assert!(held < 20_000, "the request is held up forever");
        p
    })
    .await
}
impl ChainReader for Remote<'_> {
    async fn get_block_header(&self, id: impl Display) -> anyhow::Result<Option<SignedBeaconBlockHeader>> {
        for _ in 0..self.1 {
            cooperate().await;
        }
        self.0.get_block_header(id).await
    }
    async fn get_block(&self, id: impl Display) -> anyhow::Result<Option<BeaconBlock>> {
        cooperate().await;
        self.0.get_block(id).await
    }
    async fn get_consensus_state(&self, id: impl Display) -> anyhow::Result<ConsensusState> {
        cooperate().await;
        self.0.get_consensus_state(id).await
    }
}
pub fn check_busy(b: &Busy, c: &mut Case) -> Verdict {
    let chain = Chain::new(&b.plan);
    let node = Remote(Node::new(&chain), b.needs);
    let f = trusted(&chain);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().map_err(|e| e.to_string())?;
    rt.block_on(async {
        let provider = CacheStateProvider::new(node.0.clone());
        let Ok(reader) = HostInputReader::<E, _, _>::new(chain.spec.clone(), provider, node.clone(), ccp(f)).await else {
            c.label("no reader");
            return Ok(());
        };
        let pre = PreflightInputReader::new(&reader, node.clone(), ccp(f));
        tokio::task::yield_now().await;
        for _ in 0..b.used {
            cooperate().await;
        }
        let done = catch(|| verify(&b.plan.conf().real(), &pre)).map_err(|e| format!("preflight: {e}"))?;
        if done.is_err() {
            c.label("preflight fails");
            return Ok(());
        }
        c.nontrivial(b.used as u32 + b.needs as u32 > 128);
        let input = catch(|| pre.to_input()).map_err(|e| format!("making the input: {e}"))?.map_err(|e| format!("no input: {e:#}"))?;
        check!(!input.attestations.is_empty(), "an input without attestations");
        Ok(())
    })
}
