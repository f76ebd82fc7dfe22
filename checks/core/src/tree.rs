//! SSZ Merkle trees with real containers, and proofs of any set of their nodes.

use crate::model::{Chunk, Parts, gindex, hash2, read};
use crate::world::u64_chunk;
use std::collections::BTreeSet;

#[derive(Clone)]
pub struct T {
    pub h: Chunk,
    kids: Option<Box<(T, T)>>,
}
pub fn leaf(h: Chunk) -> T {
    T { h, kids: None }
}
pub fn num(n: u64) -> T {
    leaf(u64_chunk(n))
}
pub fn pair(l: T, r: T) -> T {
    T { h: hash2(&l.h, &r.h), kids: Some(Box::new((l, r))) }
}
/// Merkleization with zero chunks as padding, up to `depth`.
pub fn merkleize(mut level: Vec<T>, depth: usize) -> T {
    let mut zero = [0; 32];
    for _ in 0..depth {
        let mut next = Vec::with_capacity(level.len().div_ceil(2));
        let mut it = level.into_iter();
        while let Some(l) = it.next() {
            let r = it.next().unwrap_or(leaf(zero));
            next.push(pair(l, r));
        }
        level = next;
        zero = hash2(&zero, &zero);
    }
    level.into_iter().next().unwrap_or(leaf(zero))
}
pub fn container(fields: Vec<T>) -> T {
    let depth = fields.len().next_power_of_two().trailing_zeros() as usize;
    merkleize(fields, depth)
}
pub fn list(elements: Vec<T>, depth: usize) -> T {
    let n = elements.len() as u64;
    pair(merkleize(elements, depth), num(n))
}

/// The proof of the nodes `marks`, which must exist.
pub fn prove(t: &T, marks: &[u64]) -> Parts {
    fn rec(t: &T, g: u64, marks: &BTreeSet<u64>, inner: &BTreeSet<u64>, p: &mut Parts) {
        let value = marks.contains(&g);
        match &t.kids {
            Some(k) if !value && (inner.contains(&g) || g == 1) => {
                p.desc.push(false);
                rec(&k.0, 2 * g, marks, inner, p);
                rec(&k.1, 2 * g + 1, marks, inner, p);
            }
            _ => {
                p.data.extend_from_slice(&t.h);
                p.mask.push(value);
                p.desc.push(true);
            }
        }
    }
    let marks: BTreeSet<u64> = marks.iter().copied().collect();
    let mut inner = BTreeSet::new();
    for m in &marks {
        let mut g = m / 2;
        while g > 0 && inner.insert(g) {
            g /= 2;
        }
    }
    let mut p = Parts::empty();
    rec(t, 1, &marks, &inner, &mut p);
    p.hint = 64;
    p
}

/// The root and the values (position, chunk) of a proof, if it is well-formed.
pub fn values(p: &Parts) -> Option<(Chunk, Vec<(u64, Chunk)>)> {
    let r = read(p)?;
    let v = r
        .nodes
        .iter()
        .enumerate()
        .filter(|(i, _)| p.mask.get(*i) == Some(&true))
        .map(|(_, (path, c))| (gindex(path).unwrap(), *c))
        .collect();
    Some((r.root, v))
}
