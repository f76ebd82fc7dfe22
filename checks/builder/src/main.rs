//! Checks of the multiproof builder: C06 (what it builds), C07 (minimal and canonical), C08 (refusals).
#[path = "../../ssz/src/model.rs"]
#[allow(dead_code)]
mod model;

use ethereum_consensus::phase0::{BeaconBlockHeader, Validator};
use model::{Chunk, Tree, hash2};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use ssz_multiproofs::{Error, Multiproof, MultiproofBuilder};
use ssz_rs::prelude::*;
use ssz_rs::proofs::Proof;
use std::collections::{BTreeSet, HashMap};
use vharness::{Case, Check, Verdict, catch, check, check_eq, facet};

const TRUSTED: &[&str] = &[
    "SHA-256 (crate sha2) is collision resistant and is computed correctly",
    "the stand-in for ssz_rs (shims/ssz_rs) answers single proofs as the real one does: the node at the index, or an error if there is none",
    "the code is compiled for the host, with the deployed arithmetic settings (no overflow checks)",
];

fn main() {
    vharness::main_with(&[
        Check {
            property: "C06",
            level: "exploration",
            assumptions: TRUSTED,
            facets: || {
                vec![
                    facet(
                        "bushy",
                        "a random tree of up to 60 nodes and a set of pairwise non-nested positions in it, registered in random order, repeatedly and through different methods; non-trivial: at least 2 positions",
                        (180_000, 2_700_000),
                        || (model::bushy(), requests(12), style()),
                        |(w, r, s), c| truthful(w, r, *s, c),
                    ),
                    facet(
                        "deep",
                        "as bushy, in trees with a path of 20 to 60 nodes (with the tree at its end, up to the maximal depth of 63)",
                        (90_000, 1_350_000),
                        || (deep(), requests(8), style()),
                        |(w, r, s), c| truthful(w, r, *s, c),
                    ),
                    facet(
                        "wide",
                        "as bushy, in trees of up to 2000 nodes with up to 300 positions",
                        (3_600, 54_000),
                        || (model::wide(), requests(300), style()),
                        |(w, r, s), c| truthful(w, r, *s, c),
                    ),
                    facet(
                        "many",
                        "up to 50000 positions in a complete tree of 2^16 or 2^18 leaves (the larger requests are processed by several workers), registered in any way; non-trivial: always",
                        (72, 1_080),
                        || (any::<u64>(), number(), 0..4u8, style()),
                        |(seed, n, mix, s), c| many(*seed, *n, *mix, *s, c),
                    ),
                    facet(
                        "validators",
                        "a list of up to 40 validators, of which some fields are proven by path as the host does it, next to the length; the values are the fields of these validators; non-trivial: at least 2 validators are proven",
                        (18_000, 270_000),
                        || (vec(validator(), 0..40), vec((any::<u16>(), 0..8u8), 1..40), any::<bool>()),
                        |(v, r, l), c| typed(v, r, *l, c),
                    ),
                    facet(
                        "headers",
                        "a block header and some of its fields proven by path; non-trivial: at least 2 fields",
                        (60_000, 900_000),
                        || (vec(any::<u64>(), 8..9), 1..32u8),
                        |(w, which), c| header(w, *which, c),
                    ),
                ]
            },
        },
        Check {
            property: "C07",
            level: "exploration",
            assumptions: TRUSTED,
            facets: || {
                vec![
                    facet(
                        "minimal",
                        "a random tree and pairwise non-nested positions in it: the nodes of the proof are exactly the positions and the siblings that cannot be recomputed from them; non-trivial: at least 2 positions",
                        (180_000, 2_700_000),
                        || (prop_oneof![3 => model::bushy().boxed(), 1 => deep().boxed()], requests(12), style()),
                        |(w, r, s), c| minimal(w, r, *s, c),
                    ),
                    facet(
                        "canonical",
                        "the same set of positions registered in two different ways gives equal proofs with equal encodings; non-trivial: at least 2 positions",
                        (90_000, 1_350_000),
                        || (model::bushy(), requests(12), style(), style()),
                        |(w, r, a, b), c| canonical(w, r, *a, *b, c),
                    ),
                    facet(
                        "wide",
                        "as minimal and canonical, in trees of up to 2000 nodes with up to 300 positions",
                        (2_400, 36_000),
                        || (model::wide(), requests(300), style(), style()),
                        |(w, r, a, b), c| {
                            canonical(w, r, *a, *b, c)?;
                            minimal(w, r, *a, c)
                        },
                    ),
                    facet(
                        "many",
                        "as minimal and canonical, up to 50000 positions in a complete tree of 2^16 or 2^18 leaves, registered in two different ways; non-trivial: always",
                        (48, 720),
                        || (any::<u64>(), number(), 0..4u8, style(), style()),
                        |(seed, n, mix, a, b), c| many_twice(*seed, *n, *mix, *a, *b, c),
                    ),
                ]
            },
        },
        Check {
            property: "C08",
            level: "exploration",
            assumptions: TRUSTED,
            facets: || {
                vec![
                    facet(
                        "odd",
                        "a random tree and a set of arbitrary positions: none, zero, the root, nested ones, ones that do not exist in the tree, possibly among provable ones; non-trivial: the set cannot be proven",
                        (240_000, 3_600_000),
                        || (prop_oneof![3 => model::bushy().boxed(), 1 => deep().boxed()], vec(odd(), 0..5), style()),
                        |(w, o, s), c| refuse(w, o, *s, c),
                    ),
                    facet(
                        "crowd",
                        "up to 300 provable positions in trees of up to 2000 nodes, and up to two positions that lie above, at or below some of them, or do not exist, or are zero or one; non-trivial: the set cannot be proven",
                        (3_600, 54_000),
                        || (model::wide(), requests(300), vec(spoiler(), 0..3), style()),
                        |(w, r, o, s), c| {
                            let mut set = positions(w, r);
                            spoil(&mut set, o);
                            refused(&Container::new(w), set, *s, c)
                        },
                    ),
                    facet(
                        "many",
                        "as crowd, with up to 50000 positions in a complete tree of 2^16 or 2^18 leaves; non-trivial: the set cannot be proven",
                        (60, 900),
                        || (any::<u64>(), number(), 0..4u8, vec(spoiler(), 0..3), style()),
                        |(seed, n, mix, o, s), c| {
                            let (mut set, container) = complete(*seed, *n, *mix);
                            spoil(&mut set, o);
                            refused(&container, set, *s, c)
                        },
                    ),
                ]
            },
        },
    ])
}

fn deep() -> impl Strategy<Value = Tree> {
    prop_oneof![3 => model::spine(20, 60), 1 => model::spine(57, 60)]
}

/// Positions of nodes: random walks from the root (a bit per step; the end of the walk is where the
/// tree or the walk ends). Every other walk keeps away from leaves until its last step.
fn requests(n: usize) -> impl Strategy<Value = Vec<(u64, u8)>> {
    vec((any::<u64>(), prop_oneof![1 => 1..6u8, 2 => 1..64u8, 2 => Just(63u8)]), 1..=n)
}

/// How a set of positions is registered.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Style {
    shuffle: u64,
    kind: u8,
    repeat: bool,
}
fn style() -> impl Strategy<Value = Style> {
    (any::<u64>(), 0..3u8, any::<bool>()).prop_map(|(shuffle, kind, repeat)| Style { shuffle, kind, repeat })
}

fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// Registers the positions in some order, one by one or in batches, some of them more than once.
fn register(set: &[u64], s: Style) -> MultiproofBuilder {
    let mut order: Vec<usize> = set.iter().map(|g| *g as usize).collect();
    if s.repeat {
        let again: Vec<usize> = order.iter().copied().filter(|g| mix(*g as u64 ^ s.shuffle) & 1 == 0).collect();
        order.extend(again);
    }
    let mut keyed: Vec<(u64, usize)> =
        order.into_iter().enumerate().map(|(i, g)| (mix(s.shuffle.wrapping_add(i as u64)), g)).collect();
    keyed.sort();
    let order: Vec<usize> = keyed.into_iter().map(|k| k.1).collect();
    let mut b = if s.shuffle & 1 == 0 { MultiproofBuilder::new() } else { MultiproofBuilder::default() };
    match s.kind {
        0 => b = b.with_gindices(order),
        1 => {
            for g in order {
                b = b.with_gindex(g);
            }
        }
        _ => {
            for (i, batch) in order.chunks(3).enumerate() {
                b = if i % 2 == 0 {
                    b.with_gindices(batch.to_vec())
                } else {
                    batch.iter().fold(b, |b, g| b.with_gindex(*g))
                };
            }
        }
    }
    b
}

/// A container given by its tree: what it contains is looked up by position.
struct Container {
    nodes: HashMap<u64, Chunk>,
}

impl Container {
    fn new(t: &Tree) -> Self {
        fn rec(t: &Tree, g: u64, nodes: &mut HashMap<u64, Chunk>) -> Chunk {
            let c = match t {
                Tree::L(id, _) => model::chunk(*id),
                Tree::N(l, r) => {
                    let (l, r) = (rec(l, g * 2, nodes), rec(r, g * 2 + 1, nodes));
                    hash2(&l, &r)
                }
            };
            nodes.insert(g, c);
            c
        }
        let mut nodes = HashMap::new();
        rec(t, 1, &mut nodes);
        Self { nodes }
    }
    fn root(&self) -> Chunk {
        self.nodes[&1]
    }
    fn exists(&self, g: u64) -> bool {
        self.nodes.contains_key(&g)
    }
    fn get(&self, g: u64) -> Result<Node, MerkleizationError> {
        self.nodes.get(&g).map(|c| Node::from(*c)).ok_or(MerkleizationError::NoInnerElement)
    }
}
impl GeneralizedIndexable for Container {
    fn compute_generalized_index(path: Path, parent: GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError> {
        path.iter().try_fold(parent, |g, e| match e {
            PathElement::Index(i @ 0..=1) => Ok(g * 2 + i),
            e => Err(MerkleizationError::InvalidPathElement(e.clone())),
        })
    }
}
impl Prove for Container {
    fn compute_tree(&self) -> Result<ssz_rs::Tree, MerkleizationError> {
        ssz_rs::Tree::new(vec![self.get(2)?, self.get(3)?], 2)
    }
    fn prove_below(&self, chunk: usize, index: GeneralizedIndex) -> Result<Proof, MerkleizationError> {
        let d = index.ilog2();
        let top = (2 + chunk as u64) << d;
        let g = top | (index as u64 - (1 << d));
        let leaf = self.get(g)?;
        let branch = (0..d).map(|i| self.get((g >> i) ^ 1)).collect::<Result<_, _>>()?;
        Ok(Proof { leaf, branch, index })
    }
}

/// The positions the walks end at, without the ones below others.
fn positions(w: &Tree, walks: &[(u64, u8)]) -> Vec<u64> {
    let mut out: Vec<u64> = Vec::new();
    for (bits, len) in walks {
        let (mut t, mut g) = (w, 1);
        for i in 0..*len {
            match t {
                Tree::L(..) => break,
                Tree::N(l, r) => {
                    let inner = |t: &Tree| matches!(t, Tree::N(..));
                    let right = match bits.count_ones() % 2 == 0 && i + 1 < *len && inner(l) != inner(r) {
                        true => inner(r),
                        false => bits >> (i % 64) & 1 == 1,
                    };
                    g = g * 2 + u64::from(right);
                    t = if right { r } else { l };
                }
            }
        }
        if g > 1 && !out.iter().any(|o| nested(*o, g)) {
            out.push(g);
        }
    }
    out
}
/// One of the two is the other or below it.
fn nested(a: u64, b: u64) -> bool {
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    a != 0 && b >> (a.leading_zeros() - b.leading_zeros()) == a
}
/// Depth-first order of pairwise non-nested positions.
fn dfs(g: &u64) -> u64 {
    g << g.leading_zeros()
}

fn build(set: &[u64], c: &Container, s: Style) -> Result<Multiproof<'static>, String> {
    match catch(|| register(set, s).build(c)) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(format!("the proof of {:?} (of {}) is refused: {e:?}", &set[..set.len().min(40)], set.len())),
        Err(p) => Err(format!("building the proof of {:?} (of {}) panics: {p}", &set[..set.len().min(40)], set.len())),
    }
}

fn holds(p: &Multiproof, set: &[u64], root: &Chunk, chunk: impl Fn(u64) -> Chunk) -> Verdict {
    if let Err(e) = p.verify(root) {
        return Err(format!("the proof is not accepted against the root of the container: {e:?}"));
    }
    let mut sorted = set.to_vec();
    sorted.sort_by_key(dfs);
    let values: Vec<(u64, Chunk)> = p.values().map(|(g, v)| (g, *v)).collect();
    let positions: Vec<u64> = values.iter().map(|v| v.0).collect();
    check_eq!(positions, sorted, "positions of the values");
    for (g, v) in values {
        check!(v == chunk(g), "the value at {g} is {v:?}");
    }
    // (a lookup takes time in proportion to the number of values)
    for g in sorted.iter().step_by(1 + sorted.len() / 1000) {
        check!(p.get(*g) == Some(&chunk(*g)), "lookup of {g} gives {:?}", p.get(*g));
    }
    Ok(())
}

fn truthful(w: &Tree, walks: &[(u64, u8)], s: Style, c: &mut Case) -> Verdict {
    let set = positions(w, walks);
    if set.is_empty() {
        return Ok(());
    }
    let container = Container::new(w);
    c.nontrivial(set.len() >= 2);
    c.label_if(set.iter().any(|g| *g >> 32 != 0), "positions beyond 32 bits");
    c.label_if(set.iter().any(|g| *g >> 62 != 0), "positions of 63 or 64 bits");
    let p = build(&set, &container, s)?;
    holds(&p, &set, &container.root(), |g| container.nodes[&g])?;
    // what is sent to the guest is the encoding
    let bytes = bincode::serialize(&p).map_err(|e| e.to_string())?;
    let q: Multiproof = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
    holds(&q, &set, &container.root(), |g| container.nodes[&g])
}

/// How many positions a large request has.
fn number() -> impl Strategy<Value = usize> {
    prop_oneof![1 => 1_000..10_000usize, 3 => 10_000..50_000usize]
}

/// About n positions in a complete tree of 2^16 or 2^18 leaves.
fn complete(seed: u64, n: usize, kind: u8) -> (Vec<u64>, Container) {
    let leaves = 1usize << if seed % 3 == 0 { 18 } else { 16 };
    let mut nodes = vec![[0u8; 32]; 2 * leaves];
    for (i, l) in nodes[leaves..].iter_mut().enumerate() {
        l[..8].copy_from_slice(&mix(seed ^ i as u64).to_le_bytes());
    }
    for i in (1..leaves).rev() {
        nodes[i] = hash2(&nodes[2 * i], &nodes[2 * i + 1]);
    }
    // leaves, or parents of leaves (then not the leaves below)
    let mut set = BTreeSet::new();
    let mut i = 0u64;
    while set.len() < n && i < 400_000 {
        let r = mix(seed.wrapping_mul(31).wrapping_add(i));
        i += 1;
        let leaf = match kind {
            0 => (leaves as u64) + i % leaves as u64,
            _ => (leaves as u64) + r % leaves as u64,
        };
        let g = if kind == 2 && r >> 60 == 0 { leaf / 2 } else { leaf };
        if set.contains(&(g / 2)) || set.contains(&(2 * g)) || set.contains(&(2 * g + 1)) {
            continue;
        }
        set.insert(g);
    }
    let container = Container { nodes: nodes.iter().enumerate().skip(1).map(|(i, c)| (i as u64, *c)).collect() };
    (set.into_iter().collect(), container)
}

fn many(seed: u64, n: usize, kind: u8, s: Style, c: &mut Case) -> Verdict {
    c.nontrivial(true);
    let (set, container) = complete(seed, n, kind);
    c.label_if(set.len() > 20_000, "more than 20000 positions");
    let p = build(&set, &container, s)?;
    let mut sorted = set.clone();
    sorted.sort_by_key(dfs);
    let root = container.root();
    check!(p.verify(&root).is_ok(), "the proof of {} positions is not accepted: {:?}", set.len(), p.verify(&root));
    let values: Vec<u64> = p.values().map(|v| v.0).collect();
    check!(values == sorted, "the proof of {} positions has {} values", set.len(), values.len());
    for (g, v) in p.values() {
        check!(*v == container.nodes[&g], "the value at {g} is {v:?}");
    }
    Ok(())
}

fn many_twice(seed: u64, n: usize, kind: u8, a: Style, b: Style, c: &mut Case) -> Verdict {
    c.nontrivial(true);
    let (set, container) = complete(seed, n, kind);
    c.label_if(set.len() > 20_000, "more than 20000 positions");
    let (p, q) = (build(&set, &container, a)?, build(&set, &container, b)?);
    let nodes: Vec<u64> = p.nodes().map(|n| n.0).collect();
    let expected = expected_nodes(&set);
    check!(nodes == expected, "the proof of {} positions has {} nodes, not {}, or others", set.len(), nodes.len(), expected.len());
    check!(p == q, "two proofs of {} positions differ", set.len());
    check!(bincode::serialize(&p).unwrap() == bincode::serialize(&q).unwrap(), "two encodings differ");
    Ok(())
}

fn validator() -> impl Strategy<Value = Vec<u64>> {
    vec(prop_oneof![1 => Just(u64::MAX), 1 => 0..10u64, 3 => any::<u64>()], 8..9)
}

fn pad(b: &[u8]) -> Chunk {
    let mut c = [0; 32];
    c[..b.len()].copy_from_slice(b);
    c
}

fn typed(vs: &[Vec<u64>], picks: &[(u16, u8)], length: bool, c: &mut Case) -> Verdict {
    type Validators = List<Validator, 1_099_511_627_776>;
    let mut list = Validators::default();
    for w in vs {
        let mut v = Validator::default();
        for i in 0..6 {
            v.public_key[i * 8..i * 8 + 8].copy_from_slice(&mix(w[0].wrapping_add(i as u64)).to_le_bytes());
        }
        v.withdrawal_credentials[..8].copy_from_slice(&w[1].to_le_bytes());
        v.effective_balance = w[2];
        v.slashed = w[3] & 1 == 1;
        v.activation_eligibility_epoch = w[4];
        v.activation_epoch = w[5];
        v.exit_epoch = w[6];
        v.withdrawable_epoch = w[7];
        list.push(v);
    }
    let mut b = MultiproofBuilder::new();
    let mut expected: BTreeSet<(u64, u64, Chunk)> = BTreeSet::new();
    let base = 1u64 << 41;
    if length || list.is_empty() {
        b = b.with_path::<Validators>(&[PathElement::Length]);
        expected.insert((dfs(&3), 3, pad(&(list.len() as u64).to_le_bytes())));
    }
    let mut proven = BTreeSet::new();
    for (i, f) in picks {
        if list.is_empty() {
            break;
        }
        let i = *i as usize % list.len();
        proven.insert(i);
        let v = &list[i];
        let at = (base + i as u64) * 8;
        let (path, g, chunk): (Vec<PathElement>, u64, Chunk) = match f {
            0 => (vec!["public_key".into(), 0.into()], at * 2, pad(&v.public_key[..32])),
            1 => (vec!["public_key".into(), 47.into()], at * 2 + 1, pad(&v.public_key[32..])),
            2 => (vec!["withdrawal_credentials".into()], at + 1, pad(&v.withdrawal_credentials)),
            3 => (vec!["effective_balance".into()], at + 2, pad(&v.effective_balance.to_le_bytes())),
            4 => (vec!["slashed".into()], at + 3, pad(&[u8::from(v.slashed)])),
            5 => (vec!["activation_eligibility_epoch".into()], at + 4, pad(&v.activation_eligibility_epoch.to_le_bytes())),
            6 => (vec!["activation_epoch".into()], at + 5, pad(&v.activation_epoch.to_le_bytes())),
            _ => (vec!["exit_epoch".into()], at + 6, pad(&v.exit_epoch.to_le_bytes())),
        };
        let path: Vec<PathElement> = std::iter::once(PathElement::Index(i)).chain(path).collect();
        b = b.with_path::<Validators>(&path);
        expected.insert((dfs(&g), g, chunk));
    }
    c.nontrivial(proven.len() >= 2);
    let p = b.build(&list).map_err(|e| format!("refused: {e:?}"))?;
    let root = list.hash_tree_root().unwrap();
    check!(p.verify(&root).is_ok(), "not accepted: {:?}", p.verify(&root));
    let values: Vec<(u64, Chunk)> = p.values().map(|(g, v)| (g, *v)).collect();
    let expected: Vec<(u64, Chunk)> = expected.into_iter().map(|e| (e.1, e.2)).collect();
    check_eq!(values, expected, "values");
    Ok(())
}

fn header(w: &[u64], which: u8, c: &mut Case) -> Verdict {
    let root = |x: u64| Node::from(model::chunk(x as u16));
    let h = BeaconBlockHeader {
        slot: w[0],
        proposer_index: w[1] as usize,
        parent_root: root(w[2]),
        state_root: root(w[3]),
        body_root: root(w[4]),
    };
    let fields = [
        ("slot", pad(&h.slot.to_le_bytes())),
        ("proposer_index", pad(&(h.proposer_index as u64).to_le_bytes())),
        ("parent_root", h.parent_root.0),
        ("state_root", h.state_root.0),
        ("body_root", h.body_root.0),
    ];
    let mut b = MultiproofBuilder::new();
    let mut expected = Vec::new();
    for (i, (name, chunk)) in fields.iter().enumerate() {
        if which >> i & 1 == 1 {
            b = b.with_path::<BeaconBlockHeader>(&[(*name).into()]);
            expected.push((8 + i as u64, *chunk));
        }
    }
    c.nontrivial(expected.len() >= 2);
    let p = b.build(&h).map_err(|e| format!("refused: {e:?}"))?;
    check!(p.verify(&h.hash_tree_root().unwrap()).is_ok(), "not accepted");
    let values: Vec<(u64, Chunk)> = p.values().map(|(g, v)| (g, *v)).collect();
    check_eq!(values, expected, "values");
    Ok(())
}

/// The positions and the siblings that cannot be recomputed from them.
fn expected_nodes(set: &[u64]) -> Vec<u64> {
    let mut ancestors = BTreeSet::new();
    for g in set {
        let mut g = *g;
        while g > 1 && ancestors.insert(g) {
            g /= 2;
        }
    }
    let mut nodes: BTreeSet<u64> = set.iter().copied().collect();
    nodes.extend(ancestors.iter().map(|g| g ^ 1).filter(|g| !ancestors.contains(g)));
    let mut nodes: Vec<u64> = nodes.into_iter().collect();
    nodes.sort_by_key(dfs);
    nodes
}

fn minimal(w: &Tree, walks: &[(u64, u8)], s: Style, c: &mut Case) -> Verdict {
    let set = positions(w, walks);
    if set.is_empty() {
        return Ok(());
    }
    c.nontrivial(set.len() >= 2);
    let container = Container::new(w);
    let p = build(&set, &container, s)?;
    let nodes: Vec<u64> = p.nodes().map(|n| n.0).collect();
    check_eq!(nodes, expected_nodes(&set), "positions of the nodes of the proof of {set:?}");
    for (g, v) in p.nodes() {
        check!(*v == container.nodes[&g], "the node at {g} is {v:?}");
    }
    // each node is there once: the encoding is no longer than the nodes and the shape need
    let bytes = bincode::serialize(&p).map_err(|e| e.to_string())?;
    let shape = 2 * nodes.len();
    check!(
        bytes.len() <= nodes.len() * 32 + shape + 128,
        "the encoding of {} nodes takes {} bytes",
        nodes.len(),
        bytes.len()
    );
    Ok(())
}

fn canonical(w: &Tree, walks: &[(u64, u8)], a: Style, b: Style, c: &mut Case) -> Verdict {
    let set = positions(w, walks);
    if set.is_empty() {
        return Ok(());
    }
    c.nontrivial(set.len() >= 2);
    let container = Container::new(w);
    let (p, q) = (build(&set, &container, a)?, build(&set, &container, b)?);
    check!(p == q, "two proofs of {set:?} differ");
    check!(bincode::serialize(&p).unwrap() == bincode::serialize(&q).unwrap(), "two encodings differ");
    let mut reversed = set.clone();
    reversed.reverse();
    check!(build(&reversed, &container, a)? == p, "registered in reverse order, the proof of {set:?} differs");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Odd {
    Walk(u64, u8),
    Above(u64, u8, u8),
    Beyond(u64, u8, u8),
    Any(u64),
    Zero,
    Root,
}
fn odd() -> impl Strategy<Value = Odd> {
    let len = || prop_oneof![2 => 1..6u8, 1 => 1..64u8, 2 => Just(63u8)];
    prop_oneof![
        6 => (any::<u64>(), len()).prop_map(|(b, l)| Odd::Walk(b, l)),
        3 => (any::<u64>(), len(), prop_oneof![3 => 1..6u8, 1 => 1..63u8]).prop_map(|(b, l, u)| Odd::Above(b, l, u)),
        2 => (any::<u64>(), len(), 1..8u8).prop_map(|(b, l, u)| Odd::Beyond(b, l, u)),
        1 => any::<u64>().prop_map(Odd::Any),
        1 => Just(Odd::Zero),
        1 => Just(Odd::Root),
    ]
}

fn refuse(w: &Tree, odds: &[Odd], s: Style, c: &mut Case) -> Verdict {
    let container = Container::new(w);
    let walk = |b: u64, l: u8| positions(w, &[(b, l)]).first().copied().unwrap_or(1);
    let set: BTreeSet<u64> = odds
        .iter()
        .map(|o| match o {
            Odd::Walk(b, l) => walk(*b, *l),
            Odd::Above(b, l, u) => (walk(*b, *l) >> u).max(1),
            Odd::Beyond(b, l, u) => {
                let g = walk(*b, 63.max(*l));
                let u = u32::from(*u).min(g.leading_zeros());
                g << u | (b & ((1 << u) - 1))
            }
            Odd::Any(g) => *g,
            Odd::Zero => 0,
            Odd::Root => 1,
        })
        .collect();
    refused(&container, set.into_iter().collect(), s, c)
}

/// What makes a provable set unprovable.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Spoiler {
    /// An ancestor of the position of this rank.
    Above(u16, u8),
    /// Something below it.
    Below(u16, u8, u64),
    /// Something next to it (mostly, that is provable).
    Beside(u16),
    Zero,
    Root,
    Any(u64),
}
fn spoiler() -> impl Strategy<Value = Spoiler> {
    prop_oneof![
        6 => (any::<u16>(), prop_oneof![2 => 1..3u8, 1 => 1..16u8]).prop_map(|(i, u)| Spoiler::Above(i, u)),
        4 => (any::<u16>(), prop_oneof![2 => 1..3u8, 1 => 1..40u8], any::<u64>()).prop_map(|(i, u, b)| Spoiler::Below(i, u, b)),
        3 => any::<u16>().prop_map(Spoiler::Beside),
        1 => Just(Spoiler::Zero),
        1 => Just(Spoiler::Root),
        1 => any::<u64>().prop_map(Spoiler::Any),
    ]
}
fn spoil(set: &mut Vec<u64>, spoilers: &[Spoiler]) {
    let pick = |i: u16| set[usize::from(i) * set.len() >> 16];
    let more: Vec<u64> = match set.is_empty() {
        true => vec![],
        false => spoilers
            .iter()
            .map(|s| match *s {
                Spoiler::Above(i, u) => (pick(i) >> u).max(1),
                Spoiler::Below(i, u, b) => {
                    let u = u32::from(u).min(pick(i).leading_zeros());
                    pick(i) << u | (b & ((1 << u) - 1))
                }
                Spoiler::Beside(i) => pick(i) ^ 1,
                Spoiler::Zero => 0,
                Spoiler::Root => 1,
                Spoiler::Any(g) => g,
            })
            .collect(),
    };
    set.extend(more);
    set.sort();
    set.dedup();
}

fn refused(container: &Container, set: Vec<u64>, s: Style, c: &mut Case) -> Verdict {
    let missing = set.iter().any(|g| !container.exists(*g));
    let trivial = set.iter().any(|g| *g <= 1);
    let all: std::collections::HashSet<u64> = set.iter().copied().collect();
    let overlapping = set.iter().any(|g| (1..64).any(|u| g >> u != 0 && all.contains(&(g >> u))));
    let some = &set[..set.len().min(40)];
    let provable = !set.is_empty() && !missing && !trivial && !overlapping;
    c.nontrivial(!provable);
    c.label_if(set.is_empty(), "nothing requested");
    c.label_if(set.contains(&0), "zero requested");
    c.label_if(set.contains(&1), "root requested");
    c.label_if(missing && !set.contains(&0), "a missing node requested");
    c.label_if(overlapping, "nested nodes requested");
    match catch(|| register(&set, s).build(container)) {
        Err(p) => Err(format!("building the proof of {some:?} (of {}) panics: {p}", set.len())),
        Ok(Ok(p)) => {
            check!(provable, "the proof of {some:?} is built, but cannot be right: verification says {:?}", p.verify(&container.root()));
            holds(&p, &set, &container.root(), |g| container.nodes[&g])
        }
        Ok(Err(e)) => {
            check!(!provable, "the proof of {some:?} is refused: {e:?}");
            if set.is_empty() {
                check!(matches!(e, Error::EmptyProof), "an empty request is refused as {e:?}");
            }
            Ok(())
        }
    }
}
