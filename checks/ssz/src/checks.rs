use crate::model::*;
use crate::parts::multiproof;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use ssz_multiproofs::{Error, Multiproof};
use vharness::{Case, Check, Verdict, catch, check, check_eq, facet};

const TRUSTED: &[&str] = &[
    "SHA-256 (crate sha2) is collision resistant and is computed correctly",
    "serde, bincode, postcard and bitvec are correct",
    "the code is compiled for the host with the deployed arithmetic settings (no overflow checks), not for the zkVM",
];

pub static ALL: [Check; 5] = [
    Check {
        property: "C01",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet(
                    "bushy",
                    "random binary trees of up to 60 nodes with random value marks, as a proof of their own root; non-trivial: at least 4 leaves, of which some are values and some are not",
                    (600_000, 9_000_000),
                    || (bushy(), hint()),
                    |(t, h), c| honest(t, *h, c),
                ),
                facet(
                    "wide",
                    "random trees of up to 2000 nodes; non-trivial as above",
                    (5_000, 75_000),
                    || (wide(), hint()),
                    |(t, h), c| honest(t, *h, c),
                ),
                facet(
                    "deep",
                    "trees with a path of 8 to 60 nodes (beacon state and validator registry proofs are 6 to 45 deep); non-trivial as above",
                    (200_000, 3_000_000),
                    || (spine(8, 60), hint()),
                    |(t, h), c| honest(t, *h, c),
                ),
                facet(
                    "large",
                    "trees of 60 to 140000 leaves, among them such that have a power of two of nodes, or one less or more, and such with repetitive contents; non-trivial as above",
                    (240, 4_000),
                    || (large(), hint()),
                    |(l, h), c| honest(&l.tree(), *h, c),
                ),
            ]
        },
    },
    Check {
        property: "C02",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet(
                    "recut",
                    "a committed tree and an adversarial proof: the tree cut off at arbitrary nodes with arbitrary value marks, changed by up to 4 mutations of shape, marks, data and hint, checked against the committed root; non-trivial: the proof is accepted and reports at least 2 values, or a changed one is rejected",
                    (600_000, 9_000_000),
                    || (bushy(), vec(any::<u8>(), 0..12), vec(mutation(), 0..5)),
                    |(w, cuts, ms), c| adversarial(w, cuts, ms, c),
                ),
                facet(
                    "recut_deep",
                    "as recut, over committed trees with a path of 30 to 150 nodes",
                    (200_000, 3_000_000),
                    || (spine(30, 150), vec(any::<u8>(), 0..12), vec(mutation(), 0..2)),
                    |(w, cuts, ms), c| adversarial(w, cuts, ms, c),
                ),
                facet(
                    "alias",
                    "a committed tree in which someone else's leaf hangs so deep (64 to 104 levels) that its position, taken modulo 2^64, is that of another node; non-trivial: always",
                    (50_000, 750_000),
                    || alias(),
                    |a, c| {
                        c.nontrivial(true);
                        adversarial(&a.world, &a.cuts, &[], c)
                    },
                ),
                facet(
                    "tamper",
                    "an honest proof with one bit of a node or of the root flipped, two different nodes swapped, the same bits of two bytes of the root flipped, words of the root swapped, the root turned, or a bit flipped in several equal nodes; non-trivial: always",
                    (300_000, 4_500_000),
                    || (prop_oneof![bushy(), spine(8, 60).boxed().prop_map(|t| t)], any::<u16>(), any::<u16>(), any::<u8>(), prop_oneof![4 => 0..8u8, 1 => Just(8u8)]),
                    |(t, i, j, b, kind), c| tamper(t, *i, *j, *b, *kind, c),
                ),
                facet(
                    "large",
                    "as tamper, with a proof of 60 to 140000 nodes, some of which have repetitive contents; non-trivial: always",
                    (240, 3_600),
                    || (large(), any::<u16>(), any::<u16>(), any::<u8>(), prop_oneof![3 => 0..3u8, 1 => Just(8u8)]),
                    |(l, i, j, b, kind), c| tamper(&l.tree(), *i, *j, *b, *kind, c),
                ),
            ]
        },
    },
    Check {
        property: "C03",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet(
                    "arbitrary",
                    "shape descriptions of up to 24 arbitrary bits, or of a small tree, data of arbitrary length, arbitrary marks and hint; non-trivial: at least 3 shape bits",
                    (1_000_000, 15_000_000),
                    || arbitrary_parts(),
                    |p, c| total(p, c),
                ),
                facet(
                    "damaged",
                    "honest proofs with 1 to 4 mutations of shape, marks, data and hint; non-trivial: the shape or the data is changed",
                    (600_000, 9_000_000),
                    || (prop_oneof![3 => bushy().boxed(), 1 => spine(30, 90).boxed()], vec(mutation(), 1..5)),
                    |(t, ms), c| {
                        let mut p = Parts::of(t);
                        ms.iter().for_each(|m| mutate(&mut p, m));
                        total(&p, c)
                    },
                ),
                facet(
                    "long",
                    "shape descriptions that consist of up to 6 runs of up to 30000 equal bits, with as many nodes as they ask for or fewer; non-trivial: at least 3 shape bits",
                    (1_000, 15_000),
                    || (prop_oneof![
                        3 => vec((any::<bool>(), prop_oneof![1u32..130, 1u32..30_000]), 1..7),
                        1 => (1u32..70).prop_map(|n| vec![(false, n), (true, n + 1)]),
                    ], prop_oneof![3 => Just(0u8), 1 => any::<u8>()], hint()),
                    |(runs, missing, hint), c| {
                        let desc: Vec<bool> = runs.iter().flat_map(|(b, n)| std::iter::repeat_n(*b, *n as usize)).collect();
                        let nodes = desc.iter().filter(|b| **b).count().saturating_sub(*missing as usize);
                        let data = (0..nodes).flat_map(|i| chunk(i as u16)).collect();
                        total(&Parts { data, mask: vec![true; nodes], desc, hint: *hint }, c)
                    },
                ),
                facet(
                    "bytes",
                    "the encoding of an honest proof with up to 6 bytes overwritten, removed or inserted, or arbitrary bytes, decoded (bincode and postcard), verified and read; non-trivial: it decodes",
                    (600_000, 9_000_000),
                    || (bushy(), vec((any::<u16>(), any::<u8>(), 0..4u8), 0..7), prop::option::weighted(0.15, vec(any::<u8>(), 0..80)), any::<bool>()),
                    |(t, edits, raw, post), c| byte_fuzz(t, edits, raw, *post, c),
                ),
            ]
        },
    },
    Check {
        property: "C04",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet(
                    "reads",
                    "an honest proof and a sequence of up to 40 reads (plain, and with an expected position that is right, off by one, another node's, or arbitrary), then lookups of every position in the proof and of absent ones, against the list of values; non-trivial: at least 2 values and 3 reads",
                    (750_000, 11_250_000),
                    || (prop_oneof![3 => bushy().boxed(), 1 => spine(8, 60).boxed()], vec(read_op(), 0..40), vec(any::<u64>(), 0..6)),
                    |(t, ops, gs), c| reads(t, ops, gs, c),
                ),
                facet(
                    "large",
                    "all values of a proof of 60 to 140000 nodes read by their positions, one after the other, and lookups of some; non-trivial: at least 2 values",
                    (120, 2_000),
                    || (large(), vec(any::<u32>(), 1..6)),
                    |(l, at), c| reads_all(l, at, c),
                ),
            ]
        },
    },
    Check {
        property: "C05",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet(
                    "roundtrip",
                    "arbitrary proofs (honest and damaged), alone and several in one message after a prefix, through bincode and postcard; non-trivial: at least 3 nodes",
                    (600_000, 9_000_000),
                    || (vec((prop_oneof![3 => bushy().boxed(), 1 => spine(8, 60).boxed()], vec(mutation(), 0..3)), 1..4), vec(any::<u8>(), 0..5)),
                    |(ts, prefix), c| roundtrip(ts, prefix, c),
                ),
                facet(
                    "large",
                    "as roundtrip, with a proof of 60 to 140000 nodes; non-trivial: always",
                    (80, 1_200),
                    || (large(), vec(mutation(), 0..2), vec(any::<u8>(), 0..5)),
                    |(l, ms, prefix), c| roundtrip(&[(l.tree(), ms.clone())], prefix, c),
                ),
            ]
        },
    },
];

/// The (position, chunk) pairs of the nodes of a reading; none may be too deep.
fn positions(r: &Reading) -> Vec<(u64, Chunk)> {
    r.nodes.iter().map(|(path, c)| (gindex(path).unwrap(), *c)).collect()
}

fn honest(t: &Tree, hint: u64, c: &mut Case) -> Verdict {
    if t.depth() > 63 {
        return Ok(());
    }
    let mut p = Parts::of(t);
    p.hint = hint;
    let want = read(&p).expect("model");
    let values: usize = p.mask.iter().filter(|m| **m).count();
    c.nontrivial(p.mask.len() >= 4 && values > 0 && values < p.mask.len());
    c.label_if(want.depth() > 32, "deeper than 32");
    c.label_if(p.mask.len() > 200, "over 200 nodes");
    c.label_if(p.hint < 8, "hint below 8");
    c.label_if(p.hint > 1 << 50, "absurd hint");
    c.label_if(values == 0, "no values");

    let m = multiproof(&p);
    for _ in 0..2 {
        check_eq!(m.calculate_root().map_err(|e| e.to_string()), Ok(want.root), "calculate_root");
        check!(m.verify(&want.root).is_ok(), "an honest proof is rejected: {:?}", m.verify(&want.root));
    }
    let nodes = positions(&want);
    let got: Vec<_> = m.nodes().map(|(g, c)| (g, *c)).collect();
    check_eq!(got, nodes, "nodes");
    let want_values: Vec<_> =
        nodes.iter().zip(&p.mask).filter(|(_, v)| **v).map(|(n, _)| *n).collect();
    for _ in 0..2 {
        let got: Vec<_> = m.values().map(|(g, c)| (g, *c)).collect();
        check_eq!(got, want_values, "values");
    }
    Ok(())
}

fn adversarial(world: &Tree, cuts: &[u8], ms: &[Mutation], c: &mut Case) -> Verdict {
    let root = world.root();
    let mut p = Parts::cut(world, cuts);
    let original = p.clone();
    ms.iter().for_each(|m| mutate(&mut p, m));
    let changed = (&original.desc, &original.data) != (&p.desc, &p.data);
    let m = multiproof(&p);
    // In the zkVM a panic ends the proof: it is a rejection too. (C03 asks for errors.)
    match catch(|| m.verify(&root).is_ok()) {
        Ok(true) => {
            c.label("accepted");
            c.label_if(changed, "accepted although changed");
            let deep = read(&p).is_some_and(|r| r.depth() > 63);
            c.label_if(deep, "accepted and deeper than 63");
            let mut values = 0;
            let got = catch(|| {
                let v: Vec<_> = m.values().map(|(g, c)| (g, *c)).collect();
                let n: Vec<_> = m.nodes().map(|(g, c)| (g, *c)).collect();
                (v, n)
            });
            // reading may stop, but not lie
            if let Ok((v, n)) = got {
                values = v.len();
                for (what, list) in [("value", v), ("node", n)] {
                    for (g, chunk) in list {
                        check!(
                            node_at(world, g) == Some(chunk),
                            "the proof is accepted, but the {what} it reports at {g} is not the committed one"
                        );
                        if what == "value" {
                            check!(
                                catch(|| m.get(g).copied()) == Ok(Some(chunk)),
                                "lookup at {g} differs from iteration"
                            );
                        }
                    }
                }
            }
            c.nontrivial(values >= 2);
        }
        Ok(false) | Err(_) => {
            c.label("rejected");
            c.nontrivial(changed);
        }
    }
    Ok(())
}

fn tamper(t: &Tree, i: u16, j: u16, b: u8, kind: u8, c: &mut Case) -> Verdict {
    if t.depth() > 63 {
        return Ok(());
    }
    c.nontrivial(true);
    let p = Parts::of(t);
    let honest = read(&p).expect("model").root;
    let mut root = honest;
    let mut q = p.clone();
    match kind {
        0 => mutate(&mut q, &Mutation::FlipBit(i, b)),
        1 => mutate(&mut q, &Mutation::SwapChunks(i, j)),
        2 => root[i as usize % 32] ^= 1 << (b % 8),
        3 | 4 => {
            let (i, j) = (i as usize % 32, j as usize % 32);
            let j = if kind == 3 { j } else { i ^ [1, 2, 4, 8, 16, 31][j % 6] };
            let b = b.max(1);
            root[i] ^= b;
            root[j] ^= if i == j { 0 } else { b };
        }
        5 => {
            let w = [1, 2, 4, 8, 16][b as usize % 5];
            let (i, j) = (i as usize % (32 / w) * w, j as usize % (32 / w) * w);
            (0..w).for_each(|k| root.swap(i + k, j + k));
        }
        6 => root.rotate_left(1 + i as usize % 31),
        8 => {
            let chunk = |n: usize| n * 32..n * 32 + 32;
            let n = i as usize % (p.data.len() / 32);
            let equal: Vec<usize> = (0..p.data.len() / 32).filter(|m| p.data[chunk(*m)] == p.data[chunk(n)]).collect();
            // all of them, the last two, or any
            let some = match j % 4 {
                0 => &equal[..],
                1 | 2 => &equal[equal.len().saturating_sub(2)..],
                _ => &equal[j as usize / 4 % equal.len()..],
            };
            some.iter().for_each(|m| q.data[m * 32 + b as usize / 8] ^= 1 << (b % 8));
        }
        _ => root.reverse(),
    }
    if q.data == p.data && root == honest {
        return Ok(());
    }
    let m = multiproof(&q);
    match catch(|| m.verify(&root)) {
        Ok(Err(Error::RootMismatch)) => Ok(()),
        other => Err(format!("a tampered proof is not reported as a root mismatch: {other:?}")),
    }
}

fn arbitrary_parts() -> impl Strategy<Value = Parts> {
    let desc = prop_oneof![
        4 => vec(any::<bool>(), 0..24),
        1 => vec(any::<bool>(), 0..8),
        2 => small().prop_map(|t| Parts::of(&t).desc),
    ];
    (desc, 0..12usize, 0..34usize, any::<u16>(), vec(any::<bool>(), 0..14), hint())
        .prop_map(|(desc, chunks, rest, seed, mut mask, hint)| {
            // half of the time as many chunks and marks as the shape asks for
            let fit = desc.iter().filter(|b| **b).count();
            let chunks = if seed & 1 == 0 { fit } else { chunks };
            let rest = if seed & 6 == 6 { rest } else { 0 };
            if seed & 8 == 0 {
                mask.resize(fit, true);
            }
            let mut data: Vec<u8> = (0..chunks).flat_map(|i| chunk(seed ^ i as u16)).collect();
            data.extend(std::iter::repeat_n(0xa5, rest));
            Parts { data, mask, desc, hint }
        })
}

/// A well-formed proof has exactly the root the model computes; anything else is an error.
fn total(p: &Parts, c: &mut Case) -> Verdict {
    c.nontrivial(p.desc.len() >= 3);
    let m = multiproof(p);
    let reading = read(p).filter(|r| r.depth() <= 63);
    let got = catch(|| m.calculate_root())
        .map_err(|e| format!("calculate_root panics on a malformed proof: {e}"))?;
    match &reading {
        Some(r) => {
            c.label("well-formed");
            let leftover = p.data.len() != 32 * r.nodes.len() || p.mask.len() != r.nodes.len();
            if leftover {
                c.label("well-formed with leftover data or marks");
                // it may be refused or the rest ignored
                check!(
                    got.as_ref().map(|g| *g == r.root).unwrap_or(true),
                    "wrong root for a proof with leftover data"
                );
            } else {
                check_eq!(got.as_ref().ok(), Some(&r.root), "root of a well-formed proof");
                check!(m.verify(&r.root).is_ok(), "a well-formed proof is rejected");
            }
            let mut other = r.root;
            other[31] ^= 0x80;
            check!(m.verify(&other).is_err(), "accepted for another root");
        }
        None => {
            c.label("malformed");
            check!(got.is_err(), "a malformed proof has a root");
            for root in [[0u8; 32], chunk(1)] {
                check!(
                    matches!(catch(|| m.verify(&root).is_err()), Ok(true)),
                    "verify accepts a malformed proof or panics"
                );
            }
        }
    }
    read_everything(&m)
}

/// Reading any proof ends, without a panic, and reports at most as many nodes as there are.
fn read_everything(m: &Multiproof<'_>) -> Verdict {
    catch(|| {
        let nodes = m.nodes().count();
        let mut values = m.values();
        let mut n = 0;
        while values.next().is_some() {
            n += 1;
            assert!(n <= nodes, "more values than nodes");
        }
        let _ = m.values().next_assert_gindex(3);
        let _ = m.get(3);
        let _ = m.get(0);
        let _ = m.get(u64::MAX);
    })
    .map_err(|e| format!("reading a proof panics: {e}"))
}

fn byte_fuzz(
    t: &Tree,
    edits: &[(u16, u8, u8)],
    raw: &Option<Vec<u8>>,
    post: bool,
    c: &mut Case,
) -> Verdict {
    let p = Parts::of(t);
    let m = multiproof(&p);
    let mut bytes = match raw {
        Some(r) => r.clone(),
        None if post => postcard::to_stdvec(&m).unwrap(),
        None => bincode::serialize(&m).unwrap(),
    };
    for (i, b, kind) in edits {
        let n = bytes.len().max(1);
        // mostly around the ends, where lengths and the shape are
        let i = match kind {
            0 => *i as usize % n.min(12),
            _ => n - 1 - (*i as usize % n.min(60)),
        };
        match kind {
            0 | 1 if i < bytes.len() => bytes[i] = *b,
            2 if i < bytes.len() => drop(bytes.remove(i)),
            _ => bytes.insert(i.min(bytes.len()), *b),
        }
    }
    // (the bitvec crate panics on some bit vectors that claim an impossible length)
    let decoded: Result<Option<Multiproof<'_>>, _> = catch(|| {
        if post { postcard::from_bytes(&bytes).ok() } else { bincode::deserialize(&bytes).ok() }
    });
    let Ok(Some(d)) = decoded else {
        c.label(if decoded.is_err() { "panics in the decoder" } else { "does not decode" });
        return Ok(());
    };
    c.nontrivial(true);
    c.label("decodes");
    let root = catch(|| d.calculate_root()).map_err(|e| format!("calculate_root panics: {e}"))?;
    c.label_if(root.is_ok(), "has a root");
    let ours = t.root();
    if t.depth() <= 63 {
        let accepted = catch(|| d.verify(&ours).is_ok()).map_err(|e| format!("verify panics: {e}"))?;
        check!(accepted == (root.as_ref().ok() == Some(&ours)), "verify disagrees with calculate_root");
        if accepted {
            c.label("accepted");
            for (g, chunk) in d.values() {
                check!(node_at(t, g) == Some(*chunk), "accepted, but reports a wrong value at {g}");
            }
        }
    }
    read_everything(&d)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ReadOp {
    Next,
    /// the position of the next value
    Right,
    /// a wrong position: the next one plus this
    Off(u8),
    /// the position of some node of the proof
    Other(u16),
    Any(u64),
}

fn read_op() -> impl Strategy<Value = ReadOp> {
    prop_oneof![
        6 => Just(ReadOp::Next),
        12 => Just(ReadOp::Right),
        1 => (1..4u8).prop_map(ReadOp::Off),
        1 => any::<u16>().prop_map(ReadOp::Other),
        1 => any::<u64>().prop_map(ReadOp::Any),
    ]
}

fn reads(t: &Tree, ops: &[ReadOp], gs: &[u64], c: &mut Case) -> Verdict {
    if t.depth() > 63 {
        return Ok(());
    }
    let p = Parts::of(t);
    let m = multiproof(&p);
    let nodes = positions(&read(&p).expect("model"));
    let values: Vec<_> = nodes.iter().zip(&p.mask).filter(|(_, v)| **v).map(|(n, _)| *n).collect();
    c.nontrivial(values.len() >= 2 && ops.len() >= 3);

    let mut it = m.values();
    let mut at = 0;
    for op in ops {
        let next = values.get(at).copied();
        let ask = match op {
            ReadOp::Next => {
                check_eq!(it.next().map(|(g, c)| (g, *c)), next, "read {at}");
                at += 1;
                continue;
            }
            ReadOp::Right => next.map_or(1, |n| n.0),
            ReadOp::Off(d) => next.map_or(1, |n| n.0).wrapping_add(u64::from(*d)),
            ReadOp::Other(i) => nodes[*i as usize % nodes.len()].0,
            ReadOp::Any(g) => *g,
        };
        match (it.next_assert_gindex(ask), next) {
            (Err(Error::MissingValue), None) => c.label("read past the end"),
            (Ok(got), Some((g, want))) if g == ask => {
                check_eq!(*got, want, "value at {g}");
                c.label("expected position met");
            }
            (Err(Error::GIndexMismatch { expected, actual }), Some((g, _))) if g != ask => {
                check_eq!((expected, actual), (ask, g), "mismatch report");
                c.label("mismatch");
                // whether the value is consumed is not specified
                break;
            }
            (got, next) => {
                return Err(format!("asked for {ask}, the next value is {next:?}, got {got:?}"));
            }
        }
        at += 1;
    }
    let all = nodes.iter().map(|n| n.0).chain([0, 1, 2, 3, u64::MAX]).chain(gs.iter().copied());
    for g in all.flat_map(|g| [g, g ^ 1, g / 2, g.wrapping_mul(2)]) {
        let want = values.iter().find(|v| v.0 == g).map(|v| v.1);
        check_eq!(m.get(g).copied(), want, "lookup of {g}");
    }
    Ok(())
}

fn reads_all(l: &Large, at: &[u32], c: &mut Case) -> Verdict {
    let p = Parts::of(&l.tree());
    let m = multiproof(&p);
    let nodes = positions(&read(&p).expect("model"));
    let values: Vec<_> = nodes.iter().zip(&p.mask).filter(|(_, v)| **v).map(|(n, _)| *n).collect();
    c.nontrivial(values.len() >= 2);
    let mut it = m.values();
    for (k, (g, want)) in values.iter().enumerate() {
        check_eq!(it.next_assert_gindex(*g).ok(), Some(want), "value {k} of {}", values.len());
    }
    check!(matches!(it.next_assert_gindex(1), Err(Error::MissingValue)), "a value after the last");
    for i in at {
        let k = *i as usize % nodes.len();
        let (g, chunk) = nodes[k];
        check_eq!(m.get(g).copied(), p.mask[k].then_some(chunk), "lookup of {g}");
        for none in [g / 2, g * 2] {
            check_eq!(m.get(none), None, "lookup of {none}");
        }
    }
    Ok(())
}

#[derive(Serialize, Deserialize, PartialEq)]
struct Message<'a> {
    prefix: Vec<u8>,
    #[serde(borrow)]
    first: Multiproof<'a>,
    number: u64,
    #[serde(borrow)]
    rest: Vec<Multiproof<'a>>,
}

fn same(a: &Multiproof<'_>, b: &Multiproof<'_>) -> Verdict {
    check!(a == b, "the decoded proof differs");
    check_eq!(
        catch(|| b.calculate_root().ok()),
        catch(|| a.calculate_root().ok()),
        "root after decoding"
    );
    let read = |m: &Multiproof<'_>| {
        catch(|| {
            let v: Vec<_> = m.values().map(|(g, c)| (g, *c)).collect();
            let n: Vec<_> = m.nodes().map(|(g, c)| (g, *c)).collect();
            (v, n)
        })
    };
    check_eq!(read(b), read(a), "values and nodes after decoding");
    Ok(())
}

fn roundtrip(ts: &[(Tree, Vec<Mutation>)], prefix: &[u8], c: &mut Case) -> Verdict {
    let parts: Vec<_> = ts
        .iter()
        .map(|(t, ms)| {
            let mut p = Parts::of(t);
            ms.iter().for_each(|m| mutate(&mut p, m));
            p
        })
        .collect();
    c.nontrivial(parts[0].mask.len() >= 3);
    c.label_if(parts.len() > 1, "several proofs in one message");
    let proofs: Vec<_> = parts.iter().map(multiproof).collect();

    for (m, p) in proofs.iter().zip(&parts) {
        let bytes = bincode::serialize(m).map_err(|e| format!("bincode: {e}"))?;
        let d: Multiproof<'_> = bincode::deserialize(&bytes).map_err(|e| format!("bincode: {e}"))?;
        same(m, &d)?;
        check_eq!(bincode::serialize(&d).ok(), Some(bytes.clone()), "re-encoding with bincode");
        // documented: decoding does not copy the nodes
        let range = bytes.as_ptr_range();
        for (_, v) in d.nodes() {
            check!(range.contains(&v.as_ptr()), "the decoded nodes were copied");
        }
        let owned: Multiproof<'_> = d.clone();
        same(m, &owned)?;

        let bytes = postcard::to_stdvec(m).map_err(|e| format!("postcard: {e}"))?;
        let d: Multiproof<'_> = postcard::from_bytes(&bytes).map_err(|e| format!("postcard: {e}"))?;
        same(m, &d)?;
        check_eq!(postcard::to_stdvec(&d).ok(), Some(bytes.clone()), "re-encoding with postcard");

        // different proofs have different encodings
        let mut q = p.clone();
        mutate(&mut q, &Mutation::FlipMask(0));
        if q != *p {
            check!(multiproof(&q) != *m, "proofs with different marks are equal");
        }
    }
    let msg = Message {
        prefix: prefix.to_vec(),
        first: proofs[0].clone(),
        number: 0x0102030405060708,
        rest: proofs.clone(),
    };
    let bytes = bincode::serialize(&msg).map_err(|e| format!("bincode: {e}"))?;
    let d: Message<'_> = bincode::deserialize(&bytes).map_err(|e| format!("bincode: {e}"))?;
    check!(d == msg, "the decoded message differs (bincode)");
    let bytes = postcard::to_stdvec(&msg).map_err(|e| format!("postcard: {e}"))?;
    let d: Message<'_> = postcard::from_bytes(&bytes).map_err(|e| format!("postcard: {e}"))?;
    check!(d == msg, "the decoded message differs (postcard)");
    Ok(())
}
