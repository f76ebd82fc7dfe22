//! The Casper FFG state machine and its encodings: C10, C11, C12.

use crate::model::Chunk;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::{Case, Verdict, catch, check, check_eq};
use z_core::{Checkpoint, ConsensusError, ConsensusState, Epoch, Link, abi};

/// (epoch, root id): small numbers collide, so that checkpoints are often equal in one part only.
pub type Cp = (u64, u8);

/// The root of an id: the last two bits choose one of four; the others, if not zero, a bit of it that is flipped.
pub fn root(id: u8) -> Chunk {
    let mut r = if id & 3 == 0 { [0; 32] } else { crate::model::chunk((id & 3).into()) };
    match id >> 2 {
        0 => {}
        v => r[v as usize % 32] ^= if v < 32 { 1 } else { 0x80 },
    }
    r
}
/// Another checkpoint that differs in one bit.
pub fn similar((e, r): Cp) -> BoxedStrategy<Cp> {
    prop_oneof![
        2 => (1u8..64).prop_map(move |v| (e, r ^ v << 2)),
        1 => (0u32..64).prop_map(move |k| (e ^ 1 << k, r)),
    ]
    .boxed()
}
fn rid() -> BoxedStrategy<u8> {
    prop_oneof![6 => 0u8..3, 1 => any::<u8>()].boxed()
}
pub fn cp((e, r): Cp) -> Checkpoint {
    Checkpoint::new(Epoch::new(e), root(r).into())
}

/// The model: the current justified and the finalized checkpoint.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Ffg<C = Cp> {
    pub j: C,
    pub f: C,
}
pub fn valid(s: &Ffg) -> bool {
    s.f.0 < s.j.0 || (s.j == (0, 0) && s.f == (0, 0))
}
fn real(s: &Ffg) -> ConsensusState {
    ConsensusState::new(cp(s.j), cp(s.f))
}
/// The state as serde makes it, which asks no questions.
fn decoded(s: &Ffg) -> Result<ConsensusState, String> {
    serde_json::from_value(serde_json::json!({
        "current_justified_checkpoint": serde_json::to_value(cp(s.j)).unwrap(),
        "finalized_checkpoint": serde_json::to_value(cp(s.f)).unwrap(),
    }))
    .map_err(|e| e.to_string())
}
/// Casper FFG, one link at a time: the source must be the justified checkpoint. A link to the next
/// epoch finalizes its source, a longer one only justifies its target.
pub fn apply<R: Copy + PartialEq>(s: &Ffg<(u64, R)>, (src, tgt): ((u64, R), (u64, R))) -> Option<Ffg<(u64, R)>> {
    let gap = (tgt.0 as i128) - (src.0 as i128);
    if src != s.j || gap < 1 {
        None
    } else if gap == 1 {
        Some(Ffg { j: tgt, f: src })
    } else {
        Some(Ffg { j: tgt, f: s.f })
    }
}

pub fn epoch() -> BoxedStrategy<u64> {
    prop_oneof![
        12 => 0u64..8,
        2 => 300_000u64..300_008,
        1 => (u64::MAX - 4)..=u64::MAX,
        1 => any::<u64>()
    ]
    .boxed()
}
pub fn any_cp() -> BoxedStrategy<Cp> {
    (epoch(), rid()).boxed()
}
pub fn valid_state() -> BoxedStrategy<Ffg> {
    prop_oneof![
        1 => Just(Ffg { j: (0, 0), f: (0, 0) }),
        20 => (epoch(), prop_oneof![4 => Just(1u64), 4 => 1u64..5, 1 => any::<u64>()], rid(), rid()).prop_map(|(e, gap, a, b)| {
            let f = if e == u64::MAX { e - 1 } else { e };
            Ffg { j: (f.saturating_add(gap.max(1)), a), f: (f, b) }
        })
    ]
    .boxed()
}
/// A link from (mostly) the justified checkpoint to a target near the source.
pub fn link_for(s: Ffg) -> BoxedStrategy<(Cp, Cp)> {
    let src = prop_oneof![
        6 => Just(s.j),
        1 => Just(s.f),
        1 => Just((s.j.0, s.j.1 ^ 1)),
        1 => similar(s.j),
        1 => Just((s.j.0.saturating_sub(1), s.j.1)),
        1 => any_cp()
    ];
    src.prop_flat_map(|src| {
        let tgt = prop_oneof![
            6 => (Just(1u64), rid()).prop_map(move |(d, r)| (src.0.saturating_add(d), r)),
            4 => (0u64..5, rid()).prop_map(move |(d, r)| (src.0.saturating_add(d), r)),
            1 => (0u64..4, 0u8..3).prop_map(move |(d, r)| (src.0.saturating_sub(d), r)),
            1 => any_cp()
        ];
        (Just(src), tgt)
    })
    .boxed()
}
pub fn transition() -> BoxedStrategy<(Ffg, Cp, Cp)> {
    valid_state()
        .prop_flat_map(|s| link_for(s).prop_map(move |(a, b)| (s, a, b)))
        .boxed()
}

pub fn check_transition(&(s, src, tgt): &(Ffg, Cp, Cp), c: &mut Case) -> Verdict {
    let want = apply(&s, (src, tgt));
    let got = catch(|| real(&s).state_transition(&Link { source: cp(src), target: cp(tgt) }))
        .map_err(|p| format!("state_transition panics: {p}"))?;
    c.nontrivial(want.is_some());
    c.label(match &want {
        None => "refused",
        Some(n) if n.f == s.f => "justifies only",
        Some(_) => "finalizes",
    });
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            check_eq!(*g, real(w), "state after the link");
            check!(g.is_valid(), "the new state is not valid");
            check_eq!((g.current_justified_checkpoint(), g.finalized_checkpoint()), (cp(w.j), cp(w.f)), "accessors");
        }
        (None, Err(_)) => {}
        _ => return Err(format!("the link must {}: got {got:?}", if want.is_some() { "be applied" } else { "be refused" })),
    }
    Ok(())
}

/// Which states there can be, however they are made, and that nothing leads on from the others.
pub fn consistency() -> BoxedStrategy<(Ffg, Cp)> {
    let free = (any_cp(), any_cp()).prop_map(|(j, f)| Ffg { j, f });
    let near = (epoch(), -2i8..3, 0u8..3, 0u8..3).prop_map(|(e, d, a, b)| Ffg { j: (e.saturating_add_signed(d as i64), a), f: (e, b) });
    let zero = (0u64..2, 0u8..2, 0u64..2, 0u8..2).prop_map(|(a, b, c, d)| Ffg { j: (a, b), f: (c, d) });
    (prop_oneof![2 => free, 4 => near, 1 => zero, 1 => valid_state()], any_cp()).boxed()
}
pub fn check_consistency(&(s, next): &(Ffg, Cp), c: &mut Case) -> Verdict {
    let want = valid(&s);
    c.nontrivial(s.j.0 == s.f.0 || s.j.0.abs_diff(s.f.0) == 1);
    c.label(if want { "consistent" } else { "not consistent" });
    let made = catch(|| ConsensusState::new(cp(s.j), cp(s.f)));
    check_eq!(made.is_ok(), want, "`new` makes {s:?}");
    let tried = catch(|| ConsensusState::try_new(cp(s.j), cp(s.f))).map_err(|p| format!("try_new panics: {p}"))?;
    check_eq!(tried.is_ok(), want, "`try_new` makes {s:?}");
    if let (Ok(a), Ok(b)) = (&made, &tried) {
        check_eq!(a, b, "the two constructors");
        check_eq!((a.current_justified_checkpoint(), a.finalized_checkpoint()), (cp(s.j), cp(s.f)), "checkpoints of a new state");
    }
    let decoded = decoded(&s)?;
    check_eq!(decoded.is_valid(), want, "validity of {s:?}");
    if !want {
        let link = Link { source: cp(s.j), target: cp((s.j.0.saturating_add(1), next.1)) };
        for link in [link, Link { source: cp(s.j), target: cp(next) }] {
            if let Ok(Ok(n)) = catch(|| decoded.state_transition(&link)) {
                return Err(format!("{link} leads from the inconsistent {s:?} to {n:?}"));
            }
        }
        check!(!matches!(catch(|| decoded.abi_encode()), Ok(_)), "the inconsistent {s:?} can be encoded");
    }
    Ok(())
}

/// A chain of links, some of them wrong, each taken relative to the state reached so far.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Walk {
    pub start: Ffg,
    pub steps: Vec<(u8, u8, u8, u8)>,
}
pub fn walk() -> BoxedStrategy<Walk> {
    (valid_state(), proptest::collection::vec((0u8..8, 0u8..5, 0u8..3, any::<u8>()), 1..25))
        .prop_map(|(start, steps)| Walk { start, steps })
        .boxed()
}
pub fn check_walk(w: &Walk, c: &mut Case) -> Verdict {
    let mut s = w.start;
    let mut r = real(&s);
    let mut seen = vec![s.f, s.j];
    let (mut applied, mut finalized) = (0, 0);
    for &(sel, gap, id, old) in &w.steps {
        let src = match sel {
            0 => s.f,
            1 => seen[old as usize % seen.len()],
            2 => (s.j.0, s.j.1 ^ if old > 3 { old & !3 } else { 1 }),
            _ => s.j,
        };
        let tgt = (src.0.saturating_add(gap as u64), id);
        let link = Link { source: cp(src), target: cp(tgt) };
        match (apply(&s, (src, tgt)), r.state_transition(&link)) {
            (None, Err(_)) => {}
            (Some(n), Ok(g)) => {
                check_eq!(g, real(&n), "state after {link}");
                // what users rely on: finality never goes back, and only justified checkpoints get finalized
                let (f0, f1) = (r.finalized_checkpoint(), g.finalized_checkpoint());
                check!(f0 == f1 || f1.epoch() >= f0.epoch(), "finality goes back from {f0} to {f1}");
                check!(f0 == f1 || f1 == r.current_justified_checkpoint(), "{f1} is finalized without being justified");
                check!(g.current_justified_checkpoint().epoch() > r.current_justified_checkpoint().epoch(), "justification does not advance");
                applied += 1;
                finalized += u32::from(n.f != s.f);
                seen.push(n.j);
                (s, r) = (n, g);
            }
            (want, got) => return Err(format!("in state {s:?}, {link}: got {got:?}, expected {want:?}")),
        }
    }
    c.nontrivial(applied >= 3 && finalized >= 1);
    Ok(())
}

/// Pairs of states: most of them one link apart.
pub fn pair() -> BoxedStrategy<(Ffg, Ffg)> {
    prop_oneof![
        4 => transition().prop_map(|(s, a, b)| (s, apply(&s, (a, b)).unwrap_or(s))),
        3 => (valid_state(), 0u8..4, 0u64..4, 0u64..4, 0u8..3, 0u8..3).prop_map(|(s, keep, dj, df, rj, rf)| {
            let mut o = s;
            if keep & 1 == 0 { o.j = (s.j.0.saturating_add(dj), rj) }
            if keep & 2 == 0 { o.f = (s.f.0.saturating_add(df), rf) } else if rf == 0 { o.f = s.j }
            (s, o)
        }),
        // one link apart, but for a bit
        1 => transition().prop_flat_map(|(s, a, b)| {
            let o = apply(&s, (a, b)).unwrap_or(s);
            prop_oneof![
                similar(o.f).prop_map(move |f| (s, Ffg { j: o.j, f })),
                similar(o.j).prop_map(move |j| (s, Ffg { j, f: o.f })),
            ]
        }),
        1 => (valid_state(), any_cp(), any_cp()).prop_map(|(s, j, f)| (s, Ffg { j, f }))
    ]
    .boxed()
}
/// `transition_link` finds the link between two states exactly if there is one.
pub fn check_link(&(a, b): &(Ffg, Ffg), c: &mut Case) -> Verdict {
    let ra = real(&a);
    // not every `b` is valid: such a state can only be made by decoding
    let rb = decoded(&b)?;
    // In the all-zero state the link 0 -> 1 finalizes what is final already. The result cannot be told
    // from a justification, so that no inverse exists for it (DESIGN.md).
    if a == (Ffg { j: (0, 0), f: (0, 0) }) && b.f == (0, 0) && b.j.0 == 1 {
        c.label("genesis edge");
        return Ok(());
    }
    let got = catch(|| ra.transition_link(&rb)).map_err(|p| format!("transition_link panics: {p}"))?;
    // the only link that can lead from a to b
    let link = (a.j, b.j);
    let one_step = valid(&b) && apply(&a, link) == Some(b);
    c.nontrivial(a != b && valid(&b));
    match &got {
        Ok(Some(l)) => {
            c.label("link");
            check!(one_step, "there is no link from {a:?} to {b:?}, but got {l}");
            check_eq!(*l, Link { source: cp(link.0), target: cp(link.1) }, "link");
            check_eq!(ra.state_transition(l), Ok(rb.clone()), "applying the link");
        }
        Ok(None) => {
            c.label("no change");
            check_eq!(a, b, "a transition without a link");
        }
        Err(e) => {
            c.label("refused");
            check!(!one_step, "the link {link:?} from {a:?} to {b:?} is not found: {e}");
            check!(a != b, "a state cannot reach itself: {e}");
            if *e == ConsensusError::TwoFinality {
                c.label("2-finality");
                check!(b.j.0.wrapping_sub(b.f.0) == 2 && a.f != b.f, "this is not a 2-finality: {a:?} {b:?}");
            }
            // a 2-finality is what one more supermajority link over two epochs would finalize
            if valid(&b) && b.f.0 > a.f.0 && (b.j.0 > a.j.0) && b.j.0 - b.f.0 == 2 {
                check_eq!(*e, ConsensusError::TwoFinality, "kind of refusal");
            }
        }
    }
    Ok(())
}

fn word(n: u64) -> Chunk {
    let mut w = [0; 32];
    w[24..].copy_from_slice(&n.to_be_bytes());
    w
}
pub fn abi_state(s: &Ffg) -> Vec<u8> {
    [word(s.j.0), root(s.j.1), word(s.f.0), root(s.f.1)].concat()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AbiCase {
    pub pre: Ffg,
    pub post: Ffg,
    pub slot: u64,
    /// (byte, xor) edits of the encoded state
    pub edits: Vec<(u8, u8)>,
    pub cut: u8,
}
pub fn abi_case() -> BoxedStrategy<AbiCase> {
    let free = (any_cp(), any_cp()).prop_map(|(j, f)| Ffg { j, f });
    (prop_oneof![3 => valid_state(), 1 => free], valid_state(), epoch(), proptest::collection::vec((0u8..130, any::<u8>()), 0..3), 0u8..40)
        .prop_map(|(pre, post, slot, edits, cut)| AbiCase { pre, post, slot, edits, cut })
        .boxed()
}
pub fn check_abi(a: &AbiCase, c: &mut Case) -> Verdict {
    check_eq!(ConsensusState::abi_encoded_size(), 128, "size of an encoded state");
    if valid(&a.pre) {
        let s = real(&a.pre);
        let enc = s.abi_encode();
        check_eq!(enc, abi_state(&a.pre), "encoded state");
        check_eq!(ConsensusState::abi_decode(&enc).map_err(|e| e.to_string()), Ok(s.clone()), "decoded state");
        let post = real(&a.post);
        let j = abi::Journal::new(&s, &post, a.slot);
        let want = [abi_state(&a.pre), abi_state(&a.post), word(a.slot).to_vec()].concat();
        check_eq!(j.encode(), want, "journal");
        check_eq!(j.encoded_size(), want.len(), "size of the journal");
    }
    // decoding arbitrary bytes: exactly the valid states are accepted, and nothing crashes
    let mut bytes = abi_state(&a.pre);
    for (i, x) in &a.edits {
        if let Some(b) = bytes.get_mut(*i as usize) {
            *b ^= x;
        }
    }
    if a.cut > 36 {
        bytes.truncate(bytes.len() - (a.cut as usize - 36) * 16);
    }
    // the padding of numbers may or may not be looked at
    let dirty = bytes.len() == 128 && bytes[..24].iter().chain(&bytes[64..88]).any(|b| *b != 0);
    let want = (|| {
        if bytes.len() != 128 || dirty {
            return None;
        }
        let e = |at: usize| u64::from_be_bytes(bytes[at + 24..at + 32].try_into().unwrap());
        let (j, f) = (e(0), e(64));
        let zero = bytes.iter().all(|b| *b == 0);
        (f < j || zero).then(|| {
            let r = |at: usize| -> [u8; 32] { bytes[at..at + 32].try_into().unwrap() };
            (Checkpoint::new(Epoch::new(j), r(32).into()), Checkpoint::new(Epoch::new(f), r(96).into()))
        })
    })();
    c.nontrivial(want.is_some() || bytes.len() == 128);
    c.label(if want.is_some() { "valid state" } else { "invalid bytes" });
    let got = catch(|| ConsensusState::abi_decode(&bytes)).map_err(|p| format!("decoding a state panics: {p}"))?;
    match (want, got) {
        (Some((j, f)), Ok(s)) => {
            check_eq!((s.current_justified_checkpoint(), s.finalized_checkpoint()), (j, f), "decoded checkpoints")
        }
        (None, Err(_)) => {}
        (None, Ok(s)) if dirty => check!(s.is_valid(), "decoded an invalid state"),
        (w, g) => return Err(format!("decoding {bytes:02x?}: got {g:?}, expected {w:?}")),
    }
    // trailing bytes are not part of the encoding of a static type: no crash is all that is asked
    bytes.extend([1, 2, 3]);
    catch(|| ConsensusState::abi_decode(&bytes)).map_err(|p| format!("decoding a state panics: {p}"))?.ok();
    Ok(())
}
