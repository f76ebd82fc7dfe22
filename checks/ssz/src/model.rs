//! The reference model: binary Merkle trees as plain recursive values, and proofs as trees cut off at
//! arbitrary nodes. Nothing here is shared with the code under test.

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};

pub type Chunk = [u8; 32];

pub fn hash2(l: &Chunk, r: &Chunk) -> Chunk {
    let mut h = Sha256::new();
    h.update(l);
    h.update(r);
    h.finalize().into()
}

/// The chunk of a leaf: 0 is the zero chunk, equal ids are equal chunks. From 0x8000 on, ids that have
/// the last 9 bits in common are the same but for one bit.
pub fn chunk(id: u16) -> Chunk {
    if id == 0 {
        return [0; 32];
    }
    if id < 0x8000 {
        return Sha256::digest(id.to_le_bytes()).into();
    }
    let mut c: Chunk = Sha256::digest((id & 0x81ff).to_le_bytes()).into();
    let alt = (id >> 9) & 0x3f;
    if alt > 0 {
        c[alt as usize % 32] ^= if alt < 32 { 1 } else { 0x80 };
    }
    c
}

/// A binary tree. A leaf carries the id of its chunk and whether it is a value (or a helper node).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tree {
    L(u16, bool),
    N(Box<Tree>, Box<Tree>),
}

pub fn node(l: Tree, r: Tree) -> Tree {
    Tree::N(Box::new(l), Box::new(r))
}

impl Tree {
    pub fn root(&self) -> Chunk {
        match self {
            Tree::L(id, _) => chunk(*id),
            Tree::N(l, r) => hash2(&l.root(), &r.root()),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::L(..) => 0,
            Tree::N(l, r) => 1 + l.depth().max(r.depth()),
        }
    }
}

/// The externally visible parts of a proof.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Parts {
    pub data: Vec<u8>,
    pub mask: Vec<bool>,
    pub desc: Vec<bool>,
    pub hint: u64,
}

impl Parts {
    pub fn empty() -> Self {
        Parts { data: vec![], mask: vec![], desc: vec![], hint: 0 }
    }
    fn push(&mut self, c: &Chunk, value: bool) {
        self.data.extend_from_slice(c);
        self.mask.push(value);
        self.desc.push(true);
    }
    /// The complete proof of all leaves of `t`, in depth-first left-to-right order.
    pub fn of(t: &Tree) -> Self {
        fn rec(t: &Tree, p: &mut Parts) {
            match t {
                Tree::L(id, value) => p.push(&chunk(*id), *value),
                Tree::N(l, r) => {
                    p.desc.push(false);
                    rec(l, p);
                    rec(r, p);
                }
            }
        }
        let mut p = Parts::empty();
        rec(t, &mut p);
        p.hint = p.desc.len() as u64;
        p
    }
    /// A proof of `world` that is cut off where `cuts` says.
    pub fn cut(world: &Tree, cuts: &[u8]) -> Self {
        fn rec(t: &Tree, cuts: &[u8], k: &mut usize, top: bool, p: &mut Parts) {
            let c = if cuts.is_empty() { 1 } else { cuts[*k % cuts.len()] };
            *k += 1;
            match t {
                Tree::N(l, r) if top || !c.is_multiple_of(16) => {
                    p.desc.push(false);
                    rec(l, cuts, k, false, p);
                    rec(r, cuts, k, false, p);
                }
                _ => p.push(&t.root(), c & 0x10 != 0),
            }
        }
        let mut p = Parts::empty();
        rec(world, cuts, &mut 0, true, &mut p);
        p.hint = p.desc.len() as u64;
        p
    }
}

/// What a proof says, read by recursive descent over the shape description.
pub struct Reading {
    pub root: Chunk,
    /// (depth-first) all nodes: path from the root, chunk, is a value
    pub nodes: Vec<(Vec<bool>, Chunk)>,
}

/// `None`: not the description of exactly one tree with at least two nodes, or data is missing.
pub fn read(p: &Parts) -> Option<Reading> {
    fn rec(
        p: &Parts,
        bit: &mut usize,
        path: &mut Vec<bool>,
        nodes: &mut Vec<(Vec<bool>, Chunk)>,
    ) -> Option<Chunk> {
        let b = *p.desc.get(*bit)?;
        *bit += 1;
        if b {
            let i = nodes.len() * 32;
            let c: Chunk = p.data.get(i..i + 32)?.try_into().unwrap();
            nodes.push((path.clone(), c));
            Some(c)
        } else {
            path.push(false);
            let l = rec(p, bit, path, nodes)?;
            *path.last_mut().unwrap() = true;
            let r = rec(p, bit, path, nodes)?;
            path.pop();
            Some(hash2(&l, &r))
        }
    }
    let (mut bit, mut nodes) = (0, vec![]);
    let root = rec(p, &mut bit, &mut vec![], &mut nodes)?;
    (bit == p.desc.len() && nodes.len() > 1).then_some(Reading { root, nodes })
}

impl Reading {
    pub fn depth(&self) -> usize {
        self.nodes.iter().map(|n| n.0.len()).max().unwrap()
    }
}

/// The generalized index of a path, if it fits.
pub fn gindex(path: &[bool]) -> Option<u64> {
    (path.len() < 64).then(|| path.iter().fold(1u64, |g, b| (g << 1) | u64::from(*b)))
}

/// The root of the subtree at the generalized index `g`.
pub fn node_at(world: &Tree, g: u64) -> Option<Chunk> {
    if g == 0 {
        return None;
    }
    let mut t = world;
    for i in (0..63 - g.leading_zeros()).rev() {
        match t {
            Tree::L(..) => return None,
            Tree::N(l, r) => t = if (g >> i) & 1 == 0 { l } else { r },
        }
    }
    Some(t.root())
}

fn leaf() -> impl Strategy<Value = Tree> {
    (prop_oneof![1 => Just(0u16), 3 => 1..4u16, 6 => any::<u16>()], any::<bool>())
        .prop_map(|(id, v)| Tree::L(id, v))
}

/// `t`, and a copy of it whose `k`-th leaves differ slightly.
fn twins(mut t: Tree, k: u8, alt: u8, swap: bool) -> Tree {
    fn leaves<'a>(t: &'a mut Tree, out: &mut Vec<&'a mut u16>) {
        match t {
            Tree::L(id, _) => out.push(id),
            Tree::N(l, r) => {
                leaves(l, out);
                leaves(r, out);
            }
        }
    }
    let mut u = t.clone();
    for (t, alt) in [(&mut t, 0), (&mut u, 1 + alt as u16 % 63)] {
        let mut all = vec![];
        leaves(t, &mut all);
        let k = k as usize % all.len();
        let old = *all[k];
        let new = 0x8000 | old & 0x1ff | alt << 9;
        // equal leaves stay equal
        all.into_iter().filter(|id| **id == old).for_each(|id| *id = new);
    }
    if swap { node(u, t) } else { node(t, u) }
}

/// Random trees with at least one inner node.
pub fn bushy() -> impl Strategy<Value = Tree> {
    let t = leaf().prop_recursive(10, 60, 2, |inner| {
        let pair = (inner.clone(), inner.clone()).prop_map(|(l, r)| node(l, r));
        let twins = (inner, any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(t, k, alt, swap)| twins(t, k, alt, swap));
        prop_oneof![12 => pair, 1 => twins].boxed()
    });
    (t.clone(), t).prop_map(|(l, r)| node(l, r))
}

/// Trees of up to many thousands of leaves, as a recipe.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large {
    pub leaves: u32,
    pub seed: u64,
    pub even: bool,
    /// the leaves repeat after 2^period
    pub period: Option<u8>,
    /// share (of 256) of the values
    pub values: u8,
}
pub fn large() -> impl Strategy<Value = Large> {
    let n = prop_oneof![
        3 => 60u32..2_000,
        3 => 2_000u32..70_000,
        1 => (11u32..18, 0..6u32).prop_map(|(k, d)| (1 << k) + d - 3),
        1 => 60_000u32..140_000,
    ];
    (n, any::<u64>(), any::<bool>(), prop::option::weighted(0.3, 1..17u8), prop_oneof![any::<u8>(), Just(1u8)]).prop_map(
        |(n, seed, even, period, values)| {
            // what repeats mostly is a complete tree
            let leaves = if period.is_some() && seed % 4 != 0 { n.next_power_of_two() } else { n };
            Large { leaves, seed, even: even || leaves != n, period, values }
        },
    )
}
impl Large {
    pub fn tree(&self) -> Tree {
        fn mix(x: u64) -> u32 {
            // splitmix64
            let z = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            let z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            (z ^ (z >> 31)) as u32
        }
        let mask = u32::MAX >> self.period.map_or(0, |p| 32 - u32::from(p.min(31)));
        let random = |i: u32| mix(self.seed.wrapping_add(u64::from(i).wrapping_mul(0x9e3779b97f4a7c15)));
        fn rec(l: &Large, i: u32, n: u32, mask: u32, random: &dyn Fn(u32) -> u32) -> Tree {
            let r = random(i.wrapping_add(n.wrapping_mul(77)));
            if n == 1 {
                return Tree::L(random(i & mask) as u16, (r >> 16) as u8 <= l.values);
            }
            let left = if l.even { n / 2 } else { (n / 4 + r % (n / 2).max(1)).clamp(1, n - 1) };
            node(rec(l, i, left, mask, random), rec(l, i + left, n - left, mask, random))
        }
        rec(self, 0, self.leaves.max(2), mask, &random)
    }
}

/// Large random trees.
pub fn wide() -> impl Strategy<Value = Tree> {
    let t = leaf().prop_recursive(16, 2000, 2, |inner| {
        prop_oneof![
            6 => (inner.clone(), inner.clone()).prop_map(|(l, r)| node(l, r)),
            1 => (leaf(), inner.clone()).prop_map(|(l, r)| node(l, r)),
            1 => (inner, leaf()).prop_map(|(l, r)| node(l, r)),
        ]
        .boxed()
    });
    (t.clone(), t).prop_map(|(l, r)| node(l, r))
}

/// `inner` at the end of a path, with leaves as siblings along the path.
fn hang(path: Vec<(bool, u16, bool)>, inner: Tree) -> Tree {
    path.into_iter().rev().fold(inner, |t, (right, id, v)| {
        let s = Tree::L(id, v);
        if right { node(s, t) } else { node(t, s) }
    })
}

/// Trees with one long path of `lo..=hi` nodes, with a small tree at its end.
pub fn spine(lo: usize, hi: usize) -> impl Strategy<Value = Tree> {
    let side = prop_oneof![3 => any::<bool>(), 1 => Just(false)];
    // along the edges all nodes of the path are hashed one after the other
    let edge = prop_oneof![4 => Just(None), 1 => any::<(bool, u8)>().prop_map(Some)];
    (vec((side, any::<u16>(), any::<bool>()), lo..=hi), edge, small()).prop_map(|(mut path, edge, inner)| {
        if let Some((right, turn)) = edge {
            let turn = turn as usize;
            path.iter_mut().enumerate().for_each(|(i, p)| p.0 = right ^ (i < turn && turn < 20));
        }
        hang(path, inner)
    })
}

/// At most three levels.
pub fn small() -> impl Strategy<Value = Tree> {
    leaf().prop_recursive(3, 6, 2, |inner| {
        (inner.clone(), inner).prop_map(|(l, r)| node(l, r)).boxed()
    })
}

/// A tree whose deepest path, cut to its last 64 bits, spells out the position of another node.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Alias {
    pub world: Tree,
    pub cuts: Vec<u8>,
    pub victim: u64,
}

pub fn alias() -> impl Strategy<Value = Alias> {
    // victim position, then the number of path bits above the 64 that remain
    (vec(any::<bool>(), 1..50), vec((any::<bool>(), any::<u16>(), any::<bool>()), 1..40), any::<u64>())
        .prop_flat_map(|(victim, extra, seed)| {
            let d = victim.len();
            let victim_g = gindex(&victim).unwrap();
            // the path: extra bits, zeros, the victim's index
            let mut path: Vec<bool> = extra.iter().map(|e| e.0).collect();
            // leave the victim's own path early
            path[0] = !victim[0];
            path.extend(std::iter::repeat_n(false, 63 - d));
            path.push(true);
            path.extend(&victim);
            let ids = vec(any::<u16>(), path.len());
            (Just(victim), Just(victim_g), Just(path), ids, Just(seed))
        })
        .prop_map(|(victim, victim_g, path, ids, seed)| {
            let long: Vec<_> = path.iter().zip(&ids).map(|(b, i)| (*b, *i, false)).collect();
            let forged = hang(long[1..].to_vec(), Tree::L((seed >> 16) as u16, true));
            let honest =
                hang(victim[1..].iter().map(|b| (*b, 7, false)).collect(), Tree::L(seed as u16, false));
            let world = if path[0] { node(honest, forged) } else { node(forged, honest) };
            Alias { world, cuts: vec![], victim: victim_g }
        })
}

/// A change to a proof.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    FlipDesc(u16),
    InsDesc(u16, bool),
    DelDesc(u16),
    PushDesc(Vec<bool>),
    PreDesc(Vec<bool>),
    FlipMask(u16),
    InsMask(u16, bool),
    DelMask(u16),
    FlipBit(u16, u8),
    SwapChunks(u16, u16),
    CopyChunk(u16, u16),
    DropChunk(u16),
    DupChunk(u16),
    /// two children in place of a node, or one node in place of two
    Split(u16, u8),
    Merge(u16, u8),
    Truncate(u8),
    Extend(Vec<u8>),
    Hint(u64),
}

pub fn hint() -> impl Strategy<Value = u64> {
    prop_oneof![
        4 => 0..64u64,
        1 => 64..100_000u64,
        1 => Just(u64::MAX),
        1 => (1u64 << 58)..u64::MAX,
    ]
}

pub fn mutation() -> impl Strategy<Value = Mutation> {
    use Mutation::*;
    let bits = || vec(any::<bool>(), 1..5);
    prop_oneof![
        1 => any::<u16>().prop_map(FlipDesc),
        1 => (any::<u16>(), any::<bool>()).prop_map(|(i, b)| InsDesc(i, b)),
        1 => any::<u16>().prop_map(DelDesc),
        1 => bits().prop_map(PushDesc),
        1 => bits().prop_map(PreDesc),
        3 => any::<u16>().prop_map(FlipMask),
        1 => (any::<u16>(), any::<bool>()).prop_map(|(i, b)| InsMask(i, b)),
        1 => any::<u16>().prop_map(DelMask),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(i, b)| FlipBit(i, b)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(i, j)| SwapChunks(i, j)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(i, j)| CopyChunk(i, j)),
        1 => any::<u16>().prop_map(DropChunk),
        1 => any::<u16>().prop_map(DupChunk),
        1 => (any::<u16>(), 0..4u8).prop_map(|(i, k)| Split(i, k)),
        1 => (any::<u16>(), 0..4u8).prop_map(|(i, k)| Merge(i, k)),
        1 => (1..70u8).prop_map(Truncate),
        2 => vec(any::<u8>(), 1..70).prop_map(Extend),
        2 => hint().prop_map(Hint),
    ]
}

pub fn mutate(p: &mut Parts, m: &Mutation) {
    use Mutation::*;
    let at = |i: u16, n: usize| (n > 0).then(|| i as usize * n / 65536);
    match m {
        FlipDesc(i) => {
            if let Some(i) = at(*i, p.desc.len()) {
                p.desc[i] ^= true;
            }
        }
        InsDesc(i, b) => p.desc.insert(at(*i, p.desc.len() + 1).unwrap(), *b),
        DelDesc(i) => {
            if let Some(i) = at(*i, p.desc.len()) {
                p.desc.remove(i);
            }
        }
        PushDesc(b) => p.desc.extend(b),
        PreDesc(b) => p.desc.splice(0..0, b.iter().copied()).for_each(drop),
        FlipMask(i) => {
            if let Some(i) = at(*i, p.mask.len()) {
                p.mask[i] ^= true;
            }
        }
        InsMask(i, b) => p.mask.insert(at(*i, p.mask.len() + 1).unwrap(), *b),
        DelMask(i) => {
            if let Some(i) = at(*i, p.mask.len()) {
                p.mask.remove(i);
            }
        }
        FlipBit(i, b) => {
            if let Some(i) = at(*i, p.data.len()) {
                p.data[i] ^= 1 << (b % 8);
            }
        }
        SwapChunks(i, j) => {
            if let (Some(i), Some(j)) = (at(*i, p.data.len() / 32), at(*j, p.data.len() / 32)) {
                for k in 0..32 {
                    p.data.swap(i * 32 + k, j * 32 + k);
                }
            }
        }
        CopyChunk(i, j) => {
            if let (Some(i), Some(j)) = (at(*i, p.data.len() / 32), at(*j, p.data.len() / 32)) {
                p.data.copy_within(i * 32..i * 32 + 32, j * 32);
            }
        }
        DropChunk(i) => {
            if let Some(i) = at(*i, p.data.len() / 32) {
                p.data.drain(i * 32..i * 32 + 32);
            }
        }
        DupChunk(i) => {
            if let Some(i) = at(*i, p.data.len() / 32) {
                let c = p.data[i * 32..i * 32 + 32].to_vec();
                p.data.splice(i * 32..i * 32, c).for_each(drop);
            }
        }
        Split(i, k) => {
            let nodes: Vec<usize> = (0..p.desc.len()).filter(|b| p.desc[*b]).collect();
            if let Some(i) = at(*i, nodes.len().min(p.data.len() / 32).min(p.mask.len())) {
                p.desc.splice(nodes[i]..nodes[i] + 1, [false, true, true]);
                let c: Chunk = p.data[i * 32..i * 32 + 32].try_into().unwrap();
                let two = [[c, c], [[0; 32]; 2], [c, [0; 32]], [[0; 32], c]][*k as usize % 4];
                p.data.splice(i * 32..i * 32 + 32, two.concat());
                p.mask.splice(i..i + 1, [true, true]);
            }
        }
        Merge(i, k) => {
            let n = p.data.len() / 32;
            let pairs: Vec<(usize, usize)> = (0..p.desc.len().saturating_sub(2))
                .filter(|b| p.desc[*b..*b + 3] == [false, true, true])
                .map(|b| (b, p.desc[..b].iter().filter(|b| **b).count()))
                .filter(|(_, i)| i + 1 < n.min(p.mask.len()))
                .collect();
            if let Some(k2) = at(*i, pairs.len()) {
                let (b, i) = pairs[k2];
                let (l, r): (Chunk, Chunk) = (p.data[i * 32..i * 32 + 32].try_into().unwrap(), p.data[i * 32 + 32..i * 32 + 64].try_into().unwrap());
                p.desc.splice(b..b + 3, [true]);
                p.data.splice(i * 32..i * 32 + 64, [l, r, [0; 32], hash2(&r, &l)][*k as usize % 4]);
                p.mask.splice(i..i + 2, [true]);
            }
        }
        Truncate(n) => p.data.truncate(p.data.len().saturating_sub(*n as usize)),
        Extend(b) => p.data.extend(b),
        Hint(h) => p.hint = *h,
    }
}
