//! The guest input: from the trusted block root to validators, patches and block slots. C20-C22, C24.

use crate::model::{Chunk, Parts};
use crate::parts::multiproof;
use crate::tree::*;
use crate::votes::{RealCp, ccp};
use crate::world::*;
use beacon_types::{Attestation, EthSpec, MinimalEthSpec, PublicKey};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vharness::{Case, Verdict, catch, check, check_eq};
use z_core::{ConsensusState, Epoch, GuestInput, GuestInputReader, InputReader, StatePatch};

type Minimal = MinimalEthSpec;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ep {
    /// relative to the trusted epoch
    Rel(i8),
    Far,
}
impl Ep {
    fn at(self, f: u64) -> u64 {
        match self {
            Ep::Rel(d) => f.saturating_add_signed(d as i64),
            Ep::Far => FAR,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RVal {
    pub bal: u64,
    pub slashed: bool,
    pub elig: Ep,
    pub act: Ep,
    pub exit: Ep,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Patch {
    pub epoch: i8,
    pub mixes: Vec<u32>,
    /// (validator, exit epoch)
    pub exits: Vec<(u32, Ep)>,
    /// keeps the exits of the patch of the previous epoch
    pub keep: bool,
}

/// A change of the input; positions are taken modulo what there is.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    /// a bit of the data of proof k (0 block, 1 state, 2 validators) is flipped
    Bit(u8, u32),
    /// a marked node of proof k is not marked, another one is, in addition or instead
    Marks(u8, u32, Option<u32>),
    /// in proof k the mark moves from one node to another one without changing the shape
    Mask(u8, u32, bool),
    /// the value of the mark is another tree's: the proof is that of another block / state / registry
    Other(u8),
    /// an active validator is presented as exited, or an exited one in full
    Exited(u32),
    /// the last validators are left out
    Omit(u8),
    /// the public key is that of another validator
    Key(u32, u16),
    KeysSwap(u32, u32),
    KeyMissing,
    KeyExtra,
    /// in the registry itself, a byte of the two chunks of a validator's key is another one
    ProvenKey(u32, u8, u8),
    /// in the registry itself, the chunk with the slashed flag has this in some byte
    ProvenFlag(u32, u8, u8),
    /// in the state itself, the fork is off: 0 previous version, 1 current version, 2.. epoch
    ProvenFork(u8, u8),
    TrustedRoot,
    /// a block slot proof shows another field (or more of them)
    Slot(u8, Vec<u8>),
    SlotBit(u8, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inp {
    pub net: Net,
    pub salt: u32,
    pub f: u64,
    pub gap: u64,
    /// the state is of this many slots before the first slot of the trusted epoch
    pub early: u64,
    /// the fork in the state is off by this
    pub fork_off: i8,
    /// (finalized epoch in the state) = f - fin
    pub fin: u64,
    pub earliest: (Ep, Ep),
    pub vals: Vec<RVal>,
    pub patches: Vec<Patch>,
    pub blocks: Vec<u64>,
    pub tamper: Vec<Tamper>,
}

/// The owned pieces of a guest input.
pub struct Built {
    pub block: Parts,
    pub state: Parts,
    pub validators: Parts,
    pub keys: Vec<PublicKey>,
    pub patches: BTreeMap<u64, (BTreeMap<u32, Chunk>, BTreeMap<usize, u64>)>,
    pub f: RealCp,
    pub j: RealCp,
    pub slots: Vec<Parts>,
}

const BLOCK: [u64; 1] = [11];
const STATE: [u64; 9] = [65, 66, 268, 269, 270, 75, 168, 95, 97];
fn val_base(i: usize) -> u64 {
    ((1u64 << 41) + i as u64) * 8
}
fn full_marks(i: usize) -> [u64; 7] {
    let b = val_base(i);
    [b * 2, b * 2 + 1, b + 2, b + 3, b + 4, b + 5, b + 6]
}

fn validator_tree(v: &RVal, f: u64, k: u16, salt: u64, i: usize, tamper: &[Tamper], n: usize) -> T {
    let pk = key(k).1.serialize();
    let (mut a, mut b) = ([0; 32], [0; 32]);
    a.copy_from_slice(&pk[..32]);
    b[..16].copy_from_slice(&pk[32..]);
    let mut flag = u64_chunk(v.slashed.into());
    for t in tamper {
        match t {
            Tamper::ProvenKey(j, at, x) if *j as usize % n == i => {
                let at = *at as usize % 64;
                if at < 32 { a[at] ^= x } else { b[at - 32] ^= x }
            }
            Tamper::ProvenFlag(j, at, x) if *j as usize % n == i => flag[*at as usize % 32] = *x,
            _ => {}
        }
    }
    let exit = v.exit.at(f);
    container(vec![
        pair(leaf(a), leaf(b)),
        leaf(rnd(&[salt, 11, k as u64])),
        num(v.bal),
        leaf(flag),
        num(v.elig.at(f)),
        num(v.act.at(f)),
        num(exit),
        num(exit.saturating_add(256)),
    ])
}

fn block_tree(slot: u64, state_root: Chunk, salt: u64) -> T {
    container(vec![num(slot), num(salt % 1000), leaf(rnd(&[salt, 12])), leaf(state_root), leaf(rnd(&[salt, 13]))])
}
/// Another block of the chain: (slot, tree).
pub fn other_block(slot: u64, salt: u32) -> T {
    block_tree(slot, rnd(&[salt as u64, 14, slot]), rnd64(&[salt as u64, slot]))
}

impl Inp {
    fn fork<E: EthSpec>(&self, k: usize) -> T {
        let v = |f: usize| {
            let mut c = [0; 32];
            c[..4].copy_from_slice(&self.net.version::<E>(f));
            leaf(c)
        };
        let mut fork = vec![v(k - 1), v(k), num(self.net.fork_epoch(k))];
        for t in &self.tamper {
            if let Tamper::ProvenFork(what, x) = t {
                match what {
                    0 | 1 => {
                        let i = *what as usize;
                        let mut c = fork[i].h;
                        c[*x as usize % 4] ^= 1 << (*x / 4 % 8);
                        fork[i] = leaf(c);
                    }
                    2 => fork[2] = num(self.net.fork_epoch(k).wrapping_add(1)),
                    _ => fork[2] = num(self.net.fork_epoch(k) ^ (1 << (x % 64))),
                }
            }
        }
        container(fork)
    }
    fn slot<E: EthSpec>(&self) -> u64 {
        (self.f * E::slots_per_epoch()).saturating_sub(self.early)
    }
    pub fn gvr(&self) -> Chunk {
        rnd(&[self.salt as u64, 1])
    }
    pub fn mix(&self, epoch: u64, idx: u64) -> Chunk {
        rnd(&[self.salt as u64, 2, epoch, idx])
    }
    pub fn j_root(&self) -> Chunk {
        self.blocks.first().map_or(rnd(&[8]), |s| other_block(*s, self.salt).h)
    }

    pub fn build<E: EthSpec>(&self) -> Built {
        let salt = self.salt as u64;
        let registry = |off: u16| {
            let n = self.vals.len();
            list(self.vals.iter().enumerate().map(|(i, v)| validator_tree(v, self.f, i as u16 + off, salt, i, &self.tamper, n)).collect(), 40)
        };
        let state_tree = |validators: Chunk, gvr: Chunk| {
            let mut fields: Vec<T> = (0..37).map(|i| leaf(rnd(&[salt, 20, i]))).collect();
            fields[1] = leaf(gvr);
            fields[2] = num(self.slot::<E>());
            let k = (self.net.fork(self.slot::<E>() / E::slots_per_epoch()) as i64 + self.fork_off as i64).clamp(4, 7) as usize;
            let k = if k == 7 && self.net.gloas.is_none() { 6 } else { k };
            let k = if k == 6 && self.net.fulu.is_none() { 5 } else { k };
            fields[3] = self.fork::<E>(k);
            fields[11] = leaf(validators);
            fields[20] = pair(num(self.f.saturating_sub(self.fin)), leaf(rnd(&[salt, 21])));
            fields[31] = num(self.earliest.0.at(self.f));
            fields[33] = num(self.earliest.1.at(self.f));
            container(fields)
        };
        let vt = registry(0);
        let st = state_tree(vt.h, self.gvr());
        let bt = block_tree(self.slot::<E>(), st.h, salt);

        let mut full: Vec<bool> = self.vals.iter().map(|v| v.exit.at(self.f) > self.f).collect();
        for t in &self.tamper {
            match t {
                Tamper::Exited(i) if !full.is_empty() => {
                    let i = *i as usize % full.len();
                    full[i] = !full[i];
                }
                _ => {}
            }
        }
        let mut omit = 0;
        for t in &self.tamper {
            if let Tamper::Omit(k) = t {
                omit = (*k as usize + 1).min(self.vals.len());
            }
        }
        let mut vmarks: Vec<u64> = vec![3];
        let mut keys = vec![];
        for (i, full) in full.iter().enumerate().take(self.vals.len() - omit) {
            if *full {
                vmarks.extend(full_marks(i));
                keys.push(key(i as u16).1);
            } else {
                vmarks.push(val_base(i) + 6);
            }
        }
        let mut marks = [BLOCK.to_vec(), STATE.to_vec(), vmarks];
        let mut trees = [bt.clone(), st, vt];
        for t in &self.tamper {
            match t {
                Tamper::Marks(k, i, instead) => {
                    let m = &mut marks[*k as usize % 3];
                    if m.is_empty() {
                        continue;
                    }
                    let i = *i as usize % m.len();
                    let old = m[i];
                    match instead {
                        None => drop(m.remove(i)),
                        // a node near the marked one
                        Some(x) => {
                            let near = [old ^ 1, old ^ 2, old + 2, old / 2, (old / 2) ^ 1, old.saturating_sub(1), 2, 4][*x as usize % 8].max(2);
                            if x % 3 == 0 {
                                m.remove(i);
                            }
                            m.push(near);
                        }
                    }
                }
                Tamper::Other(0) => trees[0] = block_tree(self.slot::<E>(), rnd(&[salt, 77]), salt),
                Tamper::Other(1) => {
                    trees[1] = state_tree(trees[2].h, rnd(&[salt, 78]));
                }
                Tamper::Other(_) => trees[2] = registry(1),
                _ => {}
            }
        }
        let mut proofs: Vec<Parts> = trees.iter().zip(&marks).map(|(t, m)| prove(t, m)).collect();
        let mut slots: Vec<Parts> = self.blocks.iter().map(|s| prove(&other_block(*s, self.salt), &[8])).collect();
        let mut f = (self.f, bt.h);
        for t in &self.tamper {
            match t {
                Tamper::Bit(k, bit) => {
                    let d = &mut proofs[*k as usize % 3].data;
                    if d.is_empty() {
                        continue;
                    }
                    let bit = *bit as usize % (d.len() * 8);
                    d[bit / 8] ^= 1 << (bit % 8);
                }
                Tamper::Mask(k, i, swap) => {
                    let m = &mut proofs[*k as usize % 3].mask;
                    if m.is_empty() {
                        continue;
                    }
                    let i = *i as usize % m.len();
                    m[i] = !m[i];
                    if *swap && i + 1 < m.len() {
                        m[i + 1] = !m[i + 1];
                    }
                }
                Tamper::Key(i, k) if !keys.is_empty() => {
                    let i = *i as usize % keys.len();
                    keys[i] = key(*k % 64).1;
                }
                Tamper::KeysSwap(a, b) if !keys.is_empty() => {
                    let n = keys.len();
                    keys.swap(*a as usize % n, *b as usize % n);
                }
                Tamper::KeyMissing => drop(keys.pop()),
                Tamper::KeyExtra => keys.push(key(3).1),
                Tamper::TrustedRoot => {
                    let at = f.1[0] as usize % 32;
                    f.1[at] ^= 1
                },
                Tamper::Slot(i, fields) if !slots.is_empty() => {
                    let i = *i as usize % slots.len();
                    let marks: Vec<u64> = fields.iter().map(|x| [8u64, 9, 10, 11, 12, 4, 5, 2][*x as usize % 8]).collect();
                    slots[i] = prove(&other_block(self.blocks[i], self.salt), &marks);
                }
                Tamper::SlotBit(i, bit) if !slots.is_empty() => {
                    let i = *i as usize % slots.len();
                    let d = &mut slots[i].data;
                    if d.is_empty() {
                        continue;
                    }
                    let bit = *bit as usize % (d.len() * 8);
                    d[bit / 8] ^= 1 << (bit % 8);
                }
                _ => {}
            }
        }
        let mut patches: BTreeMap<u64, (BTreeMap<u32, Chunk>, BTreeMap<usize, u64>)> = BTreeMap::new();
        for p in &self.patches {
            let e = self.f.saturating_add_signed(p.epoch as i64);
            let mut exits =
                if p.keep { e.checked_sub(1).and_then(|e| patches.get(&e)).map(|p| p.1.clone()).unwrap_or_default() } else { BTreeMap::new() };
            for (i, x) in &p.exits {
                exits.insert(*i as usize, x.at(self.f));
            }
            let mixes = p.mixes.iter().map(|i| (*i, self.mix(e, *i as u64))).collect();
            patches.insert(e, (mixes, exits));
        }
        let [validators, state, block] = [proofs.pop().unwrap(), proofs.pop().unwrap(), proofs.pop().unwrap()];
        Built { block, state, validators, keys, patches, f, j: (self.f + self.gap, self.j_root()), slots }
    }
}

pub fn guest_input<'a, E: EthSpec>(b: &'a Built, atts: Vec<Attestation<E>>) -> GuestInput<'a, E> {
    GuestInput {
        beacon_block: multiproof(&b.block),
        beacon_state: multiproof(&b.state),
        active_validators: multiproof(&b.validators),
        public_keys: b.keys.clone(),
        patches: b
            .patches
            .iter()
            .map(|(e, (mixes, exits))| {
                let patch = StatePatch {
                    randao_mixes: mixes.iter().map(|(i, m)| (*i, (*m).into())).collect(),
                    validator_exits: exits.iter().map(|(i, e)| (*i, Epoch::new(*e))).collect(),
                };
                (Epoch::new(*e), patch)
            })
            .collect(),
        consensus_state: ConsensusState::new(ccp(b.j), ccp(b.f)),
        attestations: atts,
        block_slot_proofs: b.slots.iter().map(multiproof).collect(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MVal {
    pub key: Vec<u8>,
    pub bal: u64,
    pub slashed: bool,
    pub elig: u64,
    pub act: u64,
    pub exit: u64,
}
/// What a reader has to report.
pub struct MReader {
    pub gvr: Chunk,
    pub vals: BTreeMap<usize, MVal>,
    pub patches: BTreeMap<u64, (BTreeMap<u32, Chunk>, BTreeMap<usize, u64>)>,
    pub slots: BTreeMap<Chunk, u64>,
    pub exits: usize,
    pub activated: usize,
}
impl MReader {
    pub fn active(&self, epoch: u64) -> Vec<usize> {
        let patched = self.patches.get(&epoch).map(|p| &p.1);
        self.vals
            .iter()
            .filter(|(i, v)| {
                v.act <= epoch && epoch < v.exit && patched.and_then(|p| p.get(i)).is_none_or(|exit| epoch < *exit)
            })
            .map(|(i, _)| *i)
            .collect()
    }
}

fn number(c: &Chunk) -> u64 {
    u64::from_le_bytes(c[..8].try_into().unwrap())
}

/// The reference: which inputs are accepted, and what they say.
pub fn model<E: EthSpec>(net: &Net, b: &Built) -> Result<MReader, &'static str> {
    let (root, v) = values(&b.block).ok_or("malformed block proof")?;
    if root != b.f.1 {
        return Err("not the trusted block");
    }
    let [(11, state_root)] = v[..] else { return Err("block values") };
    let (root, v) = values(&b.state).ok_or("malformed state proof")?;
    if root != state_root {
        return Err("not the state of the block");
    }
    if v.iter().map(|v| v.0).ne(STATE) {
        return Err("state values");
    }
    let gvr = v[0].1;
    let slot = number(&v[1].1);
    let fork: ([u8; 4], [u8; 4], u64) = (v[2].1[..4].try_into().unwrap(), v[3].1[..4].try_into().unwrap(), number(&v[4].1));
    let (validators_root, fin, ee, ec) = (v[5].1, number(&v[6].1), number(&v[7].1), number(&v[8].1));
    let (root, v) = values(&b.validators).ok_or("malformed validators proof")?;
    if root != validators_root {
        return Err("not the validators of the state");
    }
    let f = b.f.0;
    let mut vals: BTreeMap<usize, MVal> = BTreeMap::new();
    let (mut at, mut i, mut k) = (0, 0, 0);
    loop {
        let next = v.get(at).ok_or("no length")?;
        if next.0 == 3 {
            if number(&next.1) != i as u64 || at + 1 != v.len() {
                return Err("number of validators");
            }
            break;
        }
        if next.0 == val_base(i) + 6 {
            if number(&next.1) > f {
                return Err("an active validator without its data");
            }
            at += 1;
        } else {
            let rest = v.get(at..at + 7).ok_or("validator values")?;
            if rest.iter().map(|v| v.0).ne(full_marks(i)) {
                return Err("validator values");
            }
            let c: Vec<Chunk> = rest.iter().map(|v| v.1).collect();
            let pk = b.keys.get(k).ok_or("a public key is missing")?.serialize();
            if pk[..32] != c[0] || pk[32..] != c[1][..16] || c[1][16..] != [0; 16] {
                return Err("public key");
            }
            if c[3] != u64_chunk(0) && c[3] != u64_chunk(1) {
                return Err("slashed");
            }
            let v = MVal {
                key: pk.to_vec(),
                bal: number(&c[2]),
                slashed: c[3][0] == 1,
                elig: number(&c[4]),
                act: number(&c[5]),
                exit: number(&c[6]),
            };
            vals.insert(i, v);
            at += 7;
            k += 1;
        }
        i += 1;
    }
    let epoch = slot / E::slots_per_epoch();
    let now = net.fork(epoch);
    if fork != (net.version::<E>(now - 1), net.version::<E>(now), net.fork_epoch(now)) {
        return Err("fork");
    }
    // registry updates of the epochs that follow
    let far_before = vals.values().filter(|v| v.act == FAR).count();
    for e in epoch..=b.j.0 {
        let fin = if e < b.j.0 { fin } else { f };
        for v in vals.values_mut() {
            if v.elig == FAR && v.bal >= 32 * GWEI {
                v.elig = e + 1;
            }
            if v.elig <= fin && v.act == FAR {
                v.act = e + 1 + 4;
            }
        }
    }
    let activated = far_before - vals.values().filter(|v| v.act == FAR).count();
    // plausibility of the patches
    let total: u128 = vals.values().filter(|v| v.act <= f && f < v.exit).map(|v| v.bal as u128).sum();
    let (quotient, least) = if E::slots_per_epoch() == 8 { (32, 64 * GWEI) } else { (65_536, 128 * GWEI) };
    let limit = ((total.max(GWEI as u128) / quotient) as u64).max(least) / GWEI * GWEI;
    let churn = 2 * limit as u128;
    let mut earliest = ee.min(ec).max(epoch + 1 + 4);
    let mut new = vec![];
    for (e, (_, patch)) in &b.patches {
        if *e < f {
            return Err("a patch of the past");
        }
        for (i, &exit) in patch {
            let v = vals.get(i).ok_or("patch of an unknown validator")?;
            let before = e.checked_sub(1).and_then(|e| b.patches.get(&e)).and_then(|p| p.1.get(i)).copied().unwrap_or(v.exit);
            if before == exit {
                continue;
            }
            if before != FAR {
                return Err("an exit epoch changes twice");
            }
            new.push((exit, v.bal as u128));
        }
    }
    // the exits fit into the churn from the earliest exit epoch on
    let exits = new.len();
    new.sort();
    let mut quota = churn;
    for (exit, bal) in new {
        if exit < earliest {
            return Err("an exit is too early");
        }
        quota += (exit - earliest) as u128 * churn;
        earliest = exit;
        quota = quota.checked_sub(bal).ok_or("too many exits")?;
    }
    let mut slots = BTreeMap::new();
    for p in &b.slots {
        let (root, v) = values(p).ok_or("malformed slot proof")?;
        let Some((8, slot)) = v.first() else { return Err("slot values") };
        slots.insert(root, number(slot));
    }
    Ok(MReader { gvr, vals, patches: b.patches.clone(), slots, exits, activated })
}

fn real<E: EthSpec>(inp: &Inp, b: &Built) -> Result<GuestInputReader<E>, String> {
    let spec = inp.net.spec::<E>();
    match catch(|| guest_input(b, vec![]).into_reader(spec)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

pub fn check_reader(inp: &Inp, c: &mut Case) -> Verdict {
    let b = inp.build::<Minimal>();
    let want = model::<Minimal>(&inp.net, &b);
    let got = real::<Minimal>(inp, &b);
    match &want {
        Err(why) => c.label(why),
        Ok(m) => {
            c.label("accepted");
            c.label_if(m.exits > 0, "accepted with patched exits");
            c.label_if(m.activated > 0, "accepted with activations");
        }
    }
    c.nontrivial(inp.tamper.is_empty() == want.is_ok());
    compare(inp, &b, want, got)
}
fn compare<E: EthSpec>(inp: &Inp, b: &Built, want: Result<MReader, &'static str>, got: Result<GuestInputReader<E>, String>) -> Verdict {
    let (m, r) = match (want, got) {
        (Err(_), Err(_)) => return Ok(()),
        (Err(why), Ok(_)) => return Err(format!("the input is accepted, but must be refused: {why}")),
        (Ok(_), Err(e)) => return Err(format!("the input is refused, but all is in order: {e}")),
        (Ok(m), Ok(r)) => (m, r),
    };
    let err = |e: z_core::GuestReaderError| e.to_string();
    check_eq!(r.genesis_validators_root().map_err(err)?.0, m.gvr, "genesis validators root");
    let st = r.consensus_state().map_err(err)?;
    check_eq!((st.current_justified_checkpoint(), st.finalized_checkpoint()), (ccp(b.j), ccp(b.f)), "consensus state");
    check_eq!(r.attestations().map_err(err)?.count(), 0, "attestations");
    for e in inp.f.saturating_sub(3)..inp.f + 14 {
        let got: Vec<(usize, MVal)> = r
            .active_validators(Epoch::new(e))
            .map_err(err)?
            .map(|(i, v)| {
                let v = MVal {
                    key: v.pubkey.serialize().to_vec(),
                    bal: v.effective_balance,
                    slashed: v.slashed,
                    elig: v.activation_eligibility_epoch.as_u64(),
                    act: v.activation_epoch.as_u64(),
                    exit: v.exit_epoch.as_u64(),
                };
                (i, v)
            })
            .collect();
        let want: Vec<(usize, MVal)> = m.active(e).into_iter().map(|i| (i, m.vals[&i].clone())).collect();
        check_eq!(
            got.iter().map(|v| v.0).collect::<Vec<_>>(),
            want.iter().map(|v| v.0).collect::<Vec<_>>(),
            "active validators in epoch F + {}", e as i64 - inp.f as i64
        );
        check!(got == want, "validators in epoch {e}: got {got:?}, expected {want:?}");
        let fork = r.fork(Epoch::new(e)).map_err(err)?;
        let k = inp.net.fork(e);
        check_eq!(
            (fork.previous_version, fork.current_version, fork.epoch.as_u64()),
            (inp.net.version::<E>(k - 1), inp.net.version::<E>(k), inp.net.fork_epoch(k)),
            "fork of epoch {e}"
        );
        for i in 0..64u32 {
            let got = r.randao_mix(Epoch::new(e), i).map_err(err)?.map(|m| m.0);
            let want = m.patches.get(&e).and_then(|p| p.0.get(&i)).copied();
            check_eq!(got, want, "mix {i} of epoch {e}");
        }
    }
    for (root, slot) in &m.slots {
        // what is said of a block of the chain is its slot
        if let Some(s) = inp.blocks.iter().find(|s| other_block(**s, inp.salt).h == *root) {
            check_eq!(*slot, *s, "slot of a block of the chain, as proven");
        }
        check_eq!(r.slot_for_block(&(*root).into()).map_err(err)?, *slot, "slot of a block");
    }
    let mut missing = vec![b.f.1, rnd(&[1, 2, 3])];
    missing.extend(inp.blocks.iter().map(|s| other_block(*s, inp.salt).h));
    for r0 in missing {
        if !m.slots.contains_key(&r0) {
            check!(r.slot_for_block(&r0.into()).is_err(), "the slot of an unproven block is known");
        }
    }
    Ok(())
}

/// C22, stated without the algorithm: the unverified part of an accepted input cannot move an exit of
/// a validator, cannot exit anybody before the earliest possible epoch, and cannot exit more balance
/// per epoch than the churn limits allow.
pub fn check_patches(inp: &Inp, c: &mut Case) -> Verdict {
    let b = inp.build::<Minimal>();
    let want = model::<Minimal>(&inp.net, &b);
    let got = real::<Minimal>(inp, &b);
    c.label(match &want {
        Ok(m) if m.exits > 0 => "accepted with exits",
        Ok(_) => "accepted",
        Err(why) => why,
    });
    c.nontrivial(matches!(&want, Ok(m) if m.exits > 0) || matches!(&want, Err(w) if w.contains("exit") || w.contains("patch")));
    if let (Ok(r), Ok(m)) = (&got, &want) {
        let plain = Inp { patches: vec![], ..inp.clone() };
        let pb = plain.build::<Minimal>();
        let base = model::<Minimal>(&plain.net, &pb)?;
        // the state is at the start of its epoch or later
        let earliest = (inp.f * 8).saturating_sub(inp.early) / 8 + 5;
        for e in inp.f..inp.f + 12 {
            let now: Vec<usize> = r.active_validators(Epoch::new(e)).map_err(|e| e.to_string())?.map(|v| v.0).collect();
            let without = base.active(e);
            check!(now.iter().all(|i| without.contains(i)), "a patch adds validators to epoch {e}");
            let gone: u128 = without.iter().filter(|i| !now.contains(i)).map(|i| base.vals[i].bal as u128).sum();
            check!(e >= earliest || gone == 0, "a patch removes validators from epoch {e}, the state is of epoch {}", earliest - 5);
            let total: u128 = base.active(inp.f).iter().map(|i| base.vals[i].bal as u128).sum();
            let churn = 2 * (total / 32).max(64 * GWEI as u128);
            let epochs = (e + 1).saturating_sub(earliest) as u128;
            check!(gone <= churn * epochs, "patches exit {gone} Gwei until epoch F + {}", e - inp.f);
        }
        drop(m);
    }
    compare(inp, &b, want, got)
}

// ---- generators ----

fn near() -> BoxedStrategy<Ep> {
    prop_oneof![1 => (-8i8..9).prop_map(Ep::Rel), 1 => Just(Ep::Far)].boxed()
}
fn rval() -> BoxedStrategy<RVal> {
    let bal = prop_oneof![
        8 => Just(32 * GWEI),
        2 => (1u64..2048).prop_map(|e| e * GWEI),
        1 => (31 * GWEI)..(33 * GWEI)
    ];
    let life = prop_oneof![
        8 => Just((Ep::Rel(-20), Ep::Rel(-10), Ep::Far)),
        2 => (-9i8..9).prop_map(|x| (Ep::Rel(-20), Ep::Rel(-10), Ep::Rel(x))),
        // pending activation
        2 => (-8i8..4).prop_map(|e| (Ep::Rel(e), Ep::Far, Ep::Far)),
        1 => Just((Ep::Far, Ep::Far, Ep::Far)),
        1 => (-8i8..3, -6i8..8).prop_map(|(e, a)| (Ep::Rel(e), Ep::Rel(a), Ep::Far)),
        1 => (near(), near(), near()),
    ];
    (bal, prop::bool::weighted(0.1), life)
        .prop_map(|(bal, slashed, (elig, act, exit))| RVal { bal, slashed, elig, act, exit })
        .boxed()
}
fn rnet(f: u64) -> BoxedStrategy<Net> {
    let near = move || (-4i64..6).prop_map(move |d| f.saturating_add_signed(d));
    prop_oneof![
        3 => Just(Net { electra: 0, fulu: None, gloas: None }),
        2 => near().prop_map(|x| Net { electra: 0, fulu: Some(x), gloas: None }),
        1 => near().prop_map(|x| Net { electra: x, fulu: None, gloas: None }),
        1 => (near(), 0u64..5).prop_map(|(x, d)| Net { electra: 0, fulu: Some(x), gloas: Some(x + d) }),
    ]
    .boxed()
}
fn patch_list(n: usize, most: usize) -> BoxedStrategy<Vec<Patch>> {
    let exit = prop_oneof![10 => (5i8..9).prop_map(Ep::Rel), 1 => (0i8..5).prop_map(Ep::Rel), 1 => Just(Ep::Far)];
    let idx = prop_oneof![30 => 0..n.max(1) as u32, 1 => any::<u32>()];
    let patch = (prop_oneof![12 => Just(1i8), 1 => 0i8..4], vec(0u32..64, 0..3), vec((idx, exit), 0..most), prop::bool::weighted(0.9));
    (vec(patch, 0..4), prop_oneof![6 => Just(0i8), 1 => -2i8..3])
        .prop_map(|(v, start)| {
            let mut e = start - 1;
            v.into_iter()
                .map(|(d, mixes, exits, keep)| {
                    e += d;
                    Patch { epoch: e, mixes, exits, keep }
                })
                .collect()
        })
        .boxed()
}
pub fn inp(max: usize, patched: bool) -> BoxedStrategy<Inp> {
    prop_oneof![6 => 10u64..500, 1 => 0u64..4]
        .prop_flat_map(move |f| {
            (
                (Just(f), rnet(f), any::<u32>(), prop_oneof![6 => Just(1u64), 1 => 1u64..5]),
                (prop_oneof![3 => Just(0u64), 2 => 1u64..20], prop_oneof![12 => Just(0i8), 1 => -1i8..2], prop_oneof![4 => 1u64..4, 1 => 0u64..9]),
                (
                    prop_oneof![1 => (-3i8..9).prop_map(Ep::Rel), 8 => (-9i8..1).prop_map(Ep::Rel), 1 => near()],
                    prop_oneof![1 => (-3i8..9).prop_map(Ep::Rel), 8 => (-9i8..1).prop_map(Ep::Rel), 1 => near()],
                ),
                vec(rval(), 0..max).prop_flat_map(move |v| {
                    let n = v.len();
                    (Just(v), if patched { patch_list(n, if max > 100 { 12 } else { 4 }) } else { Just(vec![]).boxed() })
                }),
                vec(prop_oneof![3 => 0u64..10_000, 1 => any::<u64>()], 0..3),
            )
        })
        .prop_map(|((f, net, salt, gap), (early, fork_off, fin), earliest, (vals, patches), blocks)| Inp {
            net,
            salt,
            f,
            gap,
            early,
            fork_off,
            fin,
            earliest,
            vals,
            patches,
            blocks,
            tamper: vec![],
        })
        .boxed()
}
pub fn tamper() -> BoxedStrategy<Tamper> {
    prop_oneof![
        2 => (0u8..3, any::<u32>()).prop_map(|(k, b)| Tamper::Bit(k, b)),
        4 => (0u8..3, any::<u32>(), prop::option::weighted(0.7, any::<u32>())).prop_map(|(k, i, x)| Tamper::Marks(k, i, x)),
        3 => (0u8..3, any::<u32>(), any::<bool>()).prop_map(|(k, i, x)| Tamper::Mask(k, i, x)),
        2 => (0u8..3).prop_map(Tamper::Other),
        2 => any::<u32>().prop_map(Tamper::Exited),
        1 => (0u8..3).prop_map(Tamper::Omit),
        1 => any::<(u32, u16)>().prop_map(|(a, b)| Tamper::Key(a, b)),
        1 => any::<(u32, u32)>().prop_map(|(a, b)| Tamper::KeysSwap(a, b)),
        1 => Just(Tamper::KeyMissing),
        3 => (any::<u32>(), any::<u8>(), 0u8..8).prop_map(|(i, at, x)| Tamper::ProvenKey(i, at, 1 << x)),
        1 => (any::<u32>(), 45u8..50, 0u8..8).prop_map(|(i, at, x)| Tamper::ProvenKey(i, at, 1 << x)),
        2 => (any::<u32>(), any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, at, x, first)| Tamper::ProvenFlag(i, if first { 0 } else { at }, x % 4)),
        1 => Just(Tamper::KeyExtra),
        2 => (0u8..4, any::<u8>()).prop_map(|(what, x)| Tamper::ProvenFork(what, x)),
        1 => Just(Tamper::TrustedRoot),
        2 => (any::<u8>(), vec(any::<u8>(), 0..3)).prop_map(|(i, f)| Tamper::Slot(i, f)),
        1 => (any::<u8>(), any::<u32>()).prop_map(|(i, b)| Tamper::SlotBit(i, b)),
    ]
    .boxed()
}
pub fn tampered() -> BoxedStrategy<Inp> {
    tampered_up_to(12)
}
pub fn tampered_large() -> BoxedStrategy<Inp> {
    tampered_up_to(700)
}
fn tampered_up_to(max: usize) -> BoxedStrategy<Inp> {
    (inp(max, false), vec(tamper(), 1..3))
        .prop_map(|(mut i, t)| {
            i.fork_off = 0;
            i.tamper = t;
            i
        })
        .boxed()
}
pub fn honest() -> BoxedStrategy<Inp> {
    inp(40, false)
}
pub fn honest_large() -> BoxedStrategy<Inp> {
    inp(700, false)
}
pub fn patched() -> BoxedStrategy<Inp> {
    patched_up_to(20)
}
pub fn patched_large() -> BoxedStrategy<Inp> {
    patched_up_to(700)
}
fn patched_up_to(max: usize) -> BoxedStrategy<Inp> {
    (inp(max, true), any::<bool>())
        .prop_map(|(mut i, plain)| {
            i.fork_off = 0;
            if plain {
                // most validators can exit
                for v in &mut i.vals {
                    if v.exit != Ep::Far && v.bal == 32 * GWEI {
                        (v.elig, v.act, v.exit) = (Ep::Rel(-20), Ep::Rel(-10), Ep::Far);
                    }
                }
            }
            i
        })
        .boxed()
}

/// C23: inputs that are honest but for the proofs of the slots.
pub fn slot_proofs() -> BoxedStrategy<Inp> {
    let t = prop_oneof![
        4 => (any::<u8>(), vec(any::<u8>(), 0..3)).prop_map(|(i, f)| Tamper::Slot(i, f)),
        2 => (any::<u8>(), any::<u32>()).prop_map(|(i, b)| Tamper::SlotBit(i, b)),
    ];
    (inp(4, false), vec(prop_oneof![3 => 0u64..10_000, 1 => any::<u64>()], 1..4), vec(t, 0..3))
        .prop_map(|(mut i, blocks, t)| {
            (i.fork_off, i.blocks, i.tamper) = (0, blocks, t);
            i
        })
        .boxed()
}
pub fn check_slot_proofs(inp: &Inp, c: &mut Case) -> Verdict {
    let b = inp.build::<Minimal>();
    let plain = Inp { tamper: vec![], ..inp.clone() }.build::<Minimal>();
    let want = model::<Minimal>(&inp.net, &b);
    let got = real::<Minimal>(inp, &b);
    let changed = (0..b.slots.len()).any(|k| (&b.slots[k].data, &b.slots[k].mask) != (&plain.slots[k].data, &plain.slots[k].mask));
    c.label(want.as_ref().map_or_else(|why| *why, |_| if changed { "accepted, with changes" } else { "accepted" }));
    c.nontrivial(changed);
    compare(inp, &b, want, got)
}

/// C17: seeds and mixes as the guest's own reader gives them. The patches have the mixes that some
/// epochs need, those of their neighbours, or others.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seeds {
    pub mainnet: bool,
    pub inp: Inp,
    /// (epoch of the patch, epoch whose mix it is)
    pub mixes: Vec<(i8, i8)>,
    pub domain: u32,
}
pub fn reader_seeds() -> BoxedStrategy<Seeds> {
    let f = prop_oneof![3 => 10u64..500, 1 => 0u64..4, 2 => 60u64..70, 2 => 65_530u64..65_545, 1 => 300_000u64..400_000];
    let near = prop_oneof![4 => Just(-2i8), 2 => -4i8..2, 1 => any::<i8>()];
    (any::<bool>(), inp(3, false), f, vec((0i8..6, near), 0..8), prop_oneof![2 => Just(1u32), 1 => any::<u32>()])
        .prop_map(|(mainnet, mut inp, f, mixes, domain)| {
            inp.f = f;
            (inp.fork_off, inp.early) = (0, 0);
            inp.net = Net { electra: 0, fulu: None, gloas: None };
            let mixes = mixes.into_iter().map(|(e, d)| (e, e.saturating_add(d))).collect();
            Seeds { mainnet, inp, mixes, domain }
        })
        .boxed()
}
pub fn check_reader_seeds(s: &Seeds, c: &mut Case) -> Verdict {
    if s.mainnet { reader_seeds_in::<beacon_types::MainnetEthSpec>(s, c) } else { reader_seeds_in::<Minimal>(s, c) }
}
fn reader_seeds_in<E: EthSpec>(s: &Seeds, c: &mut Case) -> Verdict {
    let (inp, v) = (&s.inp, E::epochs_per_historical_vector() as u64);
    let mut b = inp.build::<E>();
    for (p, m) in &s.mixes {
        let e = inp.f.saturating_add_signed(*p as i64);
        let i = inp.f.saturating_add_signed(*m as i64) % v;
        b.patches.entry(e).or_default().0.insert(i as u32, inp.mix(e, i));
    }
    if model::<E>(&inp.net, &b).is_err() {
        return Ok(());
    }
    let r = real::<E>(inp, &b).map_err(|e| format!("the input is refused: {e}"))?;
    let (spec, d) = (inp.net.spec::<E>(), s.domain.to_le_bytes());
    let known = |e: u64, i: u64| b.patches.get(&e).and_then(|p| p.0.get(&(i as u32))).copied();
    let mut made = 0;
    for e in inp.f.saturating_sub(3)..inp.f + 9 {
        let i = seed_mix_index::<E>(&spec, e);
        match (known(e, i), catch(|| r.get_seed(Epoch::new(e), d.into()))) {
            (Some(m), Ok(Ok(got))) => {
                made += 1;
                check_eq!(got.0, seed(d, e, &m), "seed of epoch F + {}", e as i64 - inp.f as i64);
            }
            (None, Ok(Ok(got))) => return Err(format!("the seed of epoch {e} is {got}, but mix {i} of its state is not given")),
            (Some(_), got) => return Err(format!("no seed of epoch {e}, although mix {i} of its state is given: {got:?}")),
            (None, _) => {}
        }
        for m in inp.f.saturating_sub(4)..inp.f + 9 {
            let got = catch(|| r.get_randao_mix(Epoch::new(e), Epoch::new(m)));
            match (known(e, m % v), got) {
                (Some(want), Ok(Ok(got))) => check_eq!(got.0, want, "mix of epoch {m} in the state of epoch {e}"),
                (None, Ok(Ok(got))) => return Err(format!("the mix of epoch {m} in the state of epoch {e} is {got}, but is not given")),
                (Some(_), got) => return Err(format!("no mix of epoch {m} in the state of epoch {e}: {got:?}")),
                (None, _) => {}
            }
        }
    }
    c.label_if(made > 0, "seeds");
    c.nontrivial(!b.patches.is_empty());
    Ok(())
}

/// C21 with patches: what is reported once a patched input is accepted.
pub fn check_accepted(inp: &Inp, c: &mut Case) -> Verdict {
    let b = inp.build::<Minimal>();
    let (want, got) = (model::<Minimal>(&inp.net, &b), real::<Minimal>(inp, &b));
    c.label_if(matches!(&want, Ok(m) if m.exits > 0), "with exits");
    c.nontrivial(matches!(&want, Ok(m) if !m.patches.is_empty()));
    // which patches are plausible is the matter of C22
    if want.is_ok() && got.is_ok() { compare(inp, &b, want, got) } else { Ok(()) }
}

/// C24: encoding and decoding of the whole input.
pub fn check_roundtrip((inp, att): &(Inp, crate::votes::Scen), c: &mut Case) -> Verdict {
    let spec = att.net.spec::<Minimal>();
    let (_, atts) = crate::votes::build::<Minimal>(att, &spec);
    let b = inp.build::<Minimal>();
    c.nontrivial(!atts.is_empty() && !b.keys.is_empty());
    c.label_if(b.patches.values().any(|p| !p.1.is_empty()), "exits");
    let input = guest_input(&b, atts);
    let bytes = bincode::serialize(&input).map_err(|e| e.to_string())?;
    let back: GuestInput<Minimal> =
        catch(|| bincode::deserialize(&bytes)).map_err(|p| format!("crash: {p}"))?.map_err(|e| format!("cannot be decoded: {e}"))?;
    check!(back == input, "the decoded input differs");
    check_eq!(back.consensus_state, input.consensus_state, "consensus state");
    check_eq!(back.attestations, input.attestations, "attestations");
    check_eq!(back.patches, input.patches, "patches");
    check_eq!(back.public_keys, input.public_keys, "public keys");
    check!(bincode::serialize(&back).map_err(|e| e.to_string())? == bytes, "encoding again gives other bytes");
    // parts that are also written on their own
    for p in input.patches.values() {
        let j = serde_json::to_string(p).map_err(|e| e.to_string())?;
        check_eq!(&serde_json::from_str::<StatePatch>(&j).map_err(|e| e.to_string())?, p, "patch in JSON");
    }
    let j = serde_json::to_string(&input.consensus_state).map_err(|e| e.to_string())?;
    check_eq!(serde_json::from_str::<ConsensusState>(&j).map_err(|e| e.to_string())?, input.consensus_state, "state in JSON");
    let cfg = att.conf.real();
    let j = serde_json::to_string(&cfg).map_err(|e| e.to_string())?;
    check_eq!(serde_json::from_str::<z_core::Config>(&j).map_err(|e| e.to_string())?, cfg, "configuration in JSON");
    let j = bincode::serialize(&cfg).map_err(|e| e.to_string())?;
    check_eq!(bincode::deserialize::<z_core::Config>(&j).map_err(|e| e.to_string())?, cfg, "configuration");
    // an incomplete input is refused
    let mut cut = bytes.clone();
    cut.truncate(rnd64(&[inp.salt as u64, 50]) as usize % bytes.len());
    let refused = catch(|| bincode::deserialize::<GuestInput<Minimal>>(&cut).is_err());
    check!(refused.map_err(|p| format!("decoding a truncated input crashes: {p}"))?, "a truncated input is decoded");
    Ok(())
}
pub fn roundtrip() -> BoxedStrategy<(Inp, crate::votes::Scen)> {
    (prop_oneof![3 => inp(12, true), 1 => tampered()], crate::votes::forged())
        .prop_map(|(i, mut s)| {
            s.mainnet = false;
            (i, s)
        })
        .boxed()
}
