//! The reader that compares two others. C35.

use crate::chain::E;
use crate::votes::{bcp, ccp};
use crate::world::{key, rnd, rnd64};
use beacon_types::{Attestation, AttestationData, AttestationElectra, ChainSpec, EthSpec, Fork};
use host::AssertInputReader;
use proptest::collection::vec;
use proptest::prelude::*;
use safe_arith::ArithError;
use serde::{Deserialize, Serialize};
use vharness::{Case, Verdict, catch, check, check_eq};
use z_core::{ConsensusState, Epoch, InputReader, RandaoMixIndex, Root, ValidatorIndex, ValidatorInfo};

/// What a reader can be asked.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Query {
    Spec,
    Gvr,
    Fork(u8),
    Validators(u8),
    Mix(u8, u8),
    Attestations,
    State,
    Slot(u8),
}
/// What the second reader has otherwise.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Diff {
    None,
    Spec,
    Gvr,
    Fork(u8, u8),
    /// epoch, validator, which field: 0 key, 1 slashed, 2 eligibility, 3 activation, 4 index, 5 gone; then those that do not count
    Validator(u8, u8, u8),
    /// one more
    Extra(u8),
    Mix(u8, u8, bool),
    /// attestation, which part
    Attestation(u8, u8),
    State(bool),
    Slot(u8),
    /// one of them fails when asked
    Fail(Query, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BothCase {
    pub validators: Vec<u8>,
    pub attestations: u8,
    pub diffs: Vec<Diff>,
    pub queries: Vec<Query>,
    pub salt: u32,
    /// the one that is changed comes first
    #[serde(default)]
    pub swapped: bool,
}
fn query() -> BoxedStrategy<Query> {
    prop_oneof![
        Just(Query::Spec),
        Just(Query::Gvr),
        (0u8..3).prop_map(Query::Fork),
        (0u8..3).prop_map(Query::Validators),
        (0u8..3, 0u8..3).prop_map(|(e, i)| Query::Mix(e, i)),
        Just(Query::Attestations),
        Just(Query::State),
        (0u8..3).prop_map(Query::Slot),
    ]
    .boxed()
}
pub fn both_case() -> BoxedStrategy<BothCase> {
    let diff = prop_oneof![
        1 => Just(Diff::None),
        1 => Just(Diff::Spec),
        1 => Just(Diff::Gvr),
        1 => (0u8..3, 0u8..3).prop_map(|(e, k)| Diff::Fork(e, k)),
        6 => (0u8..3, any::<u8>(), 0u8..8).prop_map(|(e, v, k)| Diff::Validator(e, v, k)),
        1 => (0u8..3).prop_map(Diff::Extra),
        2 => (0u8..3, 0u8..3, any::<bool>()).prop_map(|(e, i, g)| Diff::Mix(e, i, g)),
        4 => (any::<u8>(), 0u8..14).prop_map(|(a, k)| Diff::Attestation(a, k)),
        1 => any::<bool>().prop_map(Diff::State),
        1 => (0u8..3).prop_map(Diff::Slot),
        3 => (query(), any::<bool>()).prop_map(|(q, b)| Diff::Fail(q, b)),
    ];
    (vec(0u8..8, 0..12), 0u8..5, vec(diff, 0..3), vec(query(), 1..8), any::<u32>())
        .prop_map(|(validators, attestations, diffs, mut queries, salt)| {
            // ask for what differs, mostly
            for (k, d) in diffs.iter().enumerate() {
                if (salt >> k) & 3 != 0 {
                    let at = (salt >> 8) as usize % (queries.len() + 1);
                    if let Some(q) = about(*d) {
                        queries.insert(at, q);
                    }
                }
            }
            BothCase { validators, attestations, diffs, queries, salt, swapped: salt >> 31 == 1 }
        })
        .boxed()
}
fn about(d: Diff) -> Option<Query> {
    Some(match d {
        Diff::None => return None,
        Diff::Spec => Query::Spec,
        Diff::Gvr => Query::Gvr,
        Diff::Fork(e, _) => Query::Fork(e),
        Diff::Validator(e, ..) | Diff::Extra(e) => Query::Validators(e),
        Diff::Mix(e, i, _) => Query::Mix(e, i),
        Diff::Attestation(..) => Query::Attestations,
        Diff::State(_) => Query::State,
        Diff::Slot(k) => Query::Slot(k),
        Diff::Fail(q, _) => q,
    })
}

#[derive(Clone)]
struct Snap {
    spec: ChainSpec,
    gvr: Root,
    forks: [Fork; 3],
    validators: [Vec<(ValidatorIndex, ValidatorInfo)>; 3],
    mixes: [[Option<Root>; 3]; 3],
    attestations: Vec<Attestation<E>>,
    state: ConsensusState,
    slots: [u64; 3],
    fail: Option<Query>,
}
#[derive(Debug, thiserror::Error, PartialEq)]
#[error("{0}")]
pub struct SnapError(&'static str);
impl From<ArithError> for SnapError {
    fn from(_: ArithError) -> Self {
        SnapError("arithmetic")
    }
}
impl Snap {
    fn may(&self, q: Query) -> Result<(), SnapError> {
        if self.fail == Some(q) { Err(SnapError("this reader fails")) } else { Ok(()) }
    }
}
fn block(k: u8) -> Root {
    rnd(&[k as u64, 9]).into()
}
impl InputReader for Snap {
    type Error = SnapError;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec {
        &self.spec
    }
    fn genesis_validators_root(&self) -> Result<Root, SnapError> {
        self.may(Query::Gvr)?;
        Ok(self.gvr)
    }
    fn fork(&self, epoch: Epoch) -> Result<Fork, SnapError> {
        self.may(Query::Fork(epoch.as_u64() as u8))?;
        Ok(self.forks[epoch.as_usize()])
    }
    fn active_validators(&self, epoch: Epoch) -> Result<impl Iterator<Item = (ValidatorIndex, &ValidatorInfo)>, SnapError> {
        self.may(Query::Validators(epoch.as_u64() as u8))?;
        Ok(self.validators[epoch.as_usize()].iter().map(|(i, v)| (*i, v)))
    }
    fn randao_mix(&self, epoch: Epoch, idx: RandaoMixIndex) -> Result<Option<Root>, SnapError> {
        self.may(Query::Mix(epoch.as_u64() as u8, idx as u8))?;
        Ok(self.mixes[epoch.as_usize()][idx as usize])
    }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, SnapError> {
        self.may(Query::Attestations)?;
        Ok(self.attestations.iter())
    }
    fn consensus_state(&self) -> Result<ConsensusState, SnapError> {
        self.may(Query::State)?;
        Ok(self.state.clone())
    }
    fn slot_for_block(&self, root: &Root) -> Result<u64, SnapError> {
        let k = (0..3).find(|k| block(*k) == *root).ok_or(SnapError("unknown block"))?;
        self.may(Query::Slot(k))?;
        Ok(self.slots[k as usize])
    }
}
fn make(p: &BothCase) -> Snap {
    let n = |k: &[u64]| rnd64(&[&[p.salt as u64], k].concat());
    let r = |k: &[u64]| rnd(&[&[p.salt as u64], k].concat());
    Snap {
        spec: E::default_spec(),
        gvr: r(&[1]).into(),
        forks: [0, 1, 2].map(|e| Fork { previous_version: [5, 0, 0, e], current_version: [6, 0, 0, e], epoch: Epoch::new(n(&[2, e as u64])) }),
        validators: [0, 1, 2].map(|e| {
            let mut i = 0;
            p.validators
                .iter()
                .filter(|k| (**k >> e) & 1 == 0)
                .map(|k| {
                    i += 1 + *k as usize;
                    let e = e as u64;
                    let v = ValidatorInfo {
                        pubkey: key(*k as u16 + i as u16).1,
                        effective_balance: n(&[3, e, i as u64]) % 100,
                        slashed: n(&[4, e, i as u64]) % 2 == 0,
                        activation_eligibility_epoch: Epoch::new(n(&[5, e, i as u64]) % 100),
                        activation_epoch: Epoch::new(n(&[6, e, i as u64]) % 100),
                        exit_epoch: Epoch::new(n(&[7, e, i as u64]) % 100),
                    };
                    (i, v)
                })
                .collect()
        }),
        mixes: [0, 1, 2].map(|e| [0, 1, 2].map(|i| (n(&[8, e, i]) % 4 > 0).then(|| r(&[8, e, i]).into()))),
        attestations: (0..p.attestations as u64)
            .map(|k| {
                let mut a = AttestationElectra::<E> {
                    aggregation_bits: beacon_types::BitList::with_capacity(4 + k as usize).unwrap(),
                    data: AttestationData {
                        slot: beacon_types::Slot::new(n(&[10, k]) % 1000),
                        index: 0,
                        beacon_block_root: r(&[11, k]).into(),
                        source: bcp((n(&[12, k]) % 9, r(&[12, k]))),
                        target: bcp((n(&[13, k]) % 9, r(&[13, k]))),
                    },
                    signature: (&key(k as u16 % 20).0.sign(r(&[14, k]).into())).into(),
                    committee_bits: Default::default(),
                };
                a.aggregation_bits.set(k as usize % 4, true).unwrap();
                a.committee_bits.set(k as usize % 7, true).unwrap();
                Attestation::Electra(a)
            })
            .collect(),
        state: ConsensusState::new(ccp((9, r(&[15]))), ccp((8, r(&[16])))),
        slots: [0, 1, 2].map(|k| n(&[17, k])),
        fail: None,
    }
}
/// Whether the change counts, and for which queries.
fn differ(a: &mut Snap, b: &mut Snap, d: Diff) {
    let other: Root = rnd(&[77]).into();
    match d {
        Diff::None => {}
        Diff::Spec => b.spec.min_seed_lookahead = Epoch::new(7),
        Diff::Gvr => b.gvr = other,
        Diff::Fork(e, 0) => b.forks[e as usize].previous_version[e as usize % 4] ^= 1,
        Diff::Fork(e, 1) => b.forks[e as usize].current_version[e as usize % 4] ^= 1,
        Diff::Fork(e, _) => b.forks[e as usize].epoch = Epoch::new(b.forks[e as usize].epoch.as_u64() ^ 1),
        Diff::Validator(e, i, k) => {
            let l = &mut b.validators[e as usize];
            if l.is_empty() {
                return;
            }
            let i = i as usize % l.len();
            let flip = |e: &mut Epoch| *e = Epoch::new(e.as_u64() + 1);
            let v = &mut l[i];
            match k {
                0 => v.1.pubkey = key(300).1,
                1 => v.1.slashed ^= true,
                2 => flip(&mut v.1.activation_eligibility_epoch),
                3 => flip(&mut v.1.activation_epoch),
                4 => v.0 += 1_000_000,
                5 => drop(l.remove(i)),
                6 => v.1.effective_balance += 1,
                _ => flip(&mut v.1.exit_epoch),
            }
        }
        Diff::Extra(e) => {
            let l = &mut b.validators[e as usize];
            if let Some((i, v)) = l.last().cloned() {
                l.push((i + 1, v));
            }
        }
        Diff::Mix(e, i, gone) => {
            let m = &mut b.mixes[e as usize][i as usize];
            *m = if gone { None } else { Some(other) };
        }
        Diff::Attestation(i, k) => {
            let l = &mut b.attestations;
            if l.is_empty() {
                return;
            }
            let i = i as usize % l.len();
            let n = l.len();
            let Attestation::Electra(x) = &mut l[i] else { unreachable!() };
            match k {
                0 => x.data.slot = beacon_types::Slot::new(5000),
                1 => x.data.beacon_block_root = other,
                2 => x.data.source.epoch = Epoch::new(77),
                3 => x.data.target.root = other,
                4 => x.signature = (&key(40).0.sign(other)).into(),
                5 => x.aggregation_bits.set(3, !x.aggregation_bits.get(3).unwrap()).unwrap(),
                6 => drop(l.remove(i)),
                7 => l.swap(i, n - 1),
                8 => drop(x.committee_bits.set(i, !x.committee_bits.get(i).unwrap())),
                9 => x.data.index ^= 1,
                10 => x.data.source.root = other,
                11 => x.data.target.epoch = Epoch::new(77),
                12 => l.insert(i, l[i].clone()),
                _ => l.push(l[i].clone()),
            }
        }
        Diff::State(j) => {
            let s = &b.state;
            b.state = if j {
                ConsensusState::new(ccp((9, other.0)), s.finalized_checkpoint())
            } else {
                ConsensusState::new(s.current_justified_checkpoint(), ccp((8, other.0)))
            };
        }
        Diff::Slot(k) => b.slots[k as usize] ^= 1,
        // the specification is always there
        Diff::Fail(Query::Spec, _) => {}
        Diff::Fail(q, first) => {
            if first {
                a.fail = Some(q)
            } else {
                b.fail = Some(q)
            }
        }
    }
}

/// The answer to a query in a comparable form; lists up to where they break off.
#[derive(Debug, PartialEq)]
enum Ans {
    Text(String),
    List(Vec<String>),
    Fail(SnapError),
}
fn ask<R: InputReader<Spec = E, Error = SnapError>>(r: &R, q: Query, seen: &mut Vec<String>) -> Ans {
    fn text<T: std::fmt::Debug>(x: Result<T, SnapError>) -> Ans {
        match x {
            Ok(x) => Ans::Text(format!("{x:?}")),
            Err(e) => Ans::Fail(e),
        }
    }
    match q {
        Query::Spec => text(Ok(r.chain_spec())),
        Query::Gvr => text(r.genesis_validators_root()),
        Query::Fork(e) => text(r.fork(Epoch::new(e as u64))),
        Query::Validators(e) => match r.active_validators(Epoch::new(e as u64)) {
            Ok(l) => {
                for (i, v) in l {
                    seen.push(format!("{i} {v:?}"));
                }
                Ans::List(seen.clone())
            }
            Err(e) => Ans::Fail(e),
        },
        Query::Mix(e, i) => text(r.randao_mix(Epoch::new(e as u64), i as RandaoMixIndex)),
        Query::Attestations => match r.attestations() {
            Ok(l) => {
                for a in l {
                    seen.push(format!("{a:?}"));
                }
                Ans::List(seen.clone())
            }
            Err(e) => Ans::Fail(e),
        },
        Query::State => text(r.consensus_state()),
        Query::Slot(k) => text(r.slot_for_block(&block(k))),
    }
}
/// Up to where the lists agree, if they do not.
fn split(a: &Snap, b: &Snap, q: Query) -> Option<usize> {
    let part = |same: Vec<bool>, n: usize, m: usize| match same.iter().position(|s| !s) {
        Some(i) => Some(i),
        None if n != m => Some(n.min(m)),
        None => None,
    };
    let one = |same: bool| (!same).then_some(0);
    match q {
        Query::Spec => one(a.spec == b.spec),
        Query::Gvr => one(a.gvr == b.gvr),
        Query::Fork(e) => one(a.forks[e as usize] == b.forks[e as usize]),
        Query::Validators(e) => {
            let (x, y) = (&a.validators[e as usize], &b.validators[e as usize]);
            // balances and exits may be out of date
            let f = |v: &ValidatorInfo| (v.pubkey.serialize(), v.slashed, v.activation_eligibility_epoch, v.activation_epoch);
            part(x.iter().zip(y).map(|(x, y)| x.0 == y.0 && f(&x.1) == f(&y.1)).collect(), x.len(), y.len())
        }
        Query::Mix(e, i) => one(a.mixes[e as usize][i as usize] == b.mixes[e as usize][i as usize]),
        Query::Attestations => {
            part(a.attestations.iter().zip(&b.attestations).map(|(x, y)| x == y).collect(), a.attestations.len(), b.attestations.len())
        }
        Query::State => one(a.state == b.state),
        Query::Slot(k) => one(a.slots[k as usize] == b.slots[k as usize]),
    }
}
pub fn check_both(p: &BothCase, c: &mut Case) -> Verdict {
    let mut a = make(p);
    let mut b = a.clone();
    for d in &p.diffs {
        differ(&mut a, &mut b, *d);
    }
    if p.swapped {
        std::mem::swap(&mut a, &mut b);
    }
    let reader = AssertInputReader::new(&a, &b);
    for q in &p.queries {
        let mut seen = vec![];
        let got = catch(|| ask(&reader, *q, &mut seen));
        if a.fail == Some(*q) {
            if b.fail == Some(*q) {
                continue;
            }
            c.label("the first fails");
            check!(matches!(got, Ok(Ans::Fail(_))), "{q:?}: the first reader fails, but the answer is {got:?}");
            continue;
        }
        let mut all = vec![];
        let want = ask(&a, *q, &mut all);
        if b.fail == Some(*q) {
            c.label("the second fails");
            check!(got.is_err(), "{q:?}: the second reader fails, but the answer is {got:?}");
            continue;
        }
        match split(&a, &b, *q) {
            None => {
                check_eq!(got, Ok(want), "{q:?}: the answer of equal readers");
                c.label_if(!p.diffs.is_empty(), "equal in spite of a difference");
            }
            Some(n) => {
                c.nontrivial(true);
                check!(got.is_err(), "{q:?}: the readers differ, but the answer is {got:?}");
                check!(all[..n.min(all.len())].starts_with(&seen), "{q:?}: something was seen beyond the difference: {seen:?}");
            }
        }
    }
    Ok(())
}
