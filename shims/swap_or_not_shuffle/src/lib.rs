//! Stand-in for lighthouse's swap_or_not_shuffle, written from the consensus specification.
use sha2::{Digest, Sha256};

/// `compute_shuffled_index` of the consensus specification.
pub fn compute_shuffled_index(index: usize, list_size: usize, seed: &[u8], rounds: u8) -> Option<usize> {
    if list_size == 0 || index >= list_size || list_size > 1 << 24 || seed.len() != 32 {
        return None;
    }
    let mut index = index;
    for round in 0..rounds {
        let h = Sha256::new().chain_update(seed).chain_update([round]).finalize();
        let pivot = (u64::from_le_bytes(h[..8].try_into().unwrap()) % list_size as u64) as usize;
        let flip = (pivot + list_size - index) % list_size;
        let position = index.max(flip);
        let source = Sha256::new()
            .chain_update(seed)
            .chain_update([round])
            .chain_update(((position / 256) as u32).to_le_bytes())
            .finalize();
        if (source[(position % 256) / 8] >> (position % 8)) & 1 == 1 {
            index = flip;
        }
    }
    Some(index)
}

/// With `forwards == false` element `i` of the result is `input[compute_shuffled_index(i)]`; with
/// `forwards == true` the inverse permutation is applied.
pub fn shuffle_list(input: Vec<usize>, rounds: u8, seed: &[u8], forwards: bool) -> Option<Vec<usize>> {
    let n = input.len();
    if n == 0 || n > usize::MAX / 2 || n > 1 << 24 || rounds == 0 || seed.len() != 32 {
        return None;
    }
    let mut perm: Vec<usize> = (0..n).collect();
    for round in 0..rounds {
        let h = Sha256::new().chain_update(seed).chain_update([round]).finalize();
        let pivot = (u64::from_le_bytes(h[..8].try_into().unwrap()) % n as u64) as usize;
        let sources: Vec<[u8; 32]> = (0..n.div_ceil(256))
            .map(|p| {
                Sha256::new()
                    .chain_update(seed)
                    .chain_update([round])
                    .chain_update((p as u32).to_le_bytes())
                    .finalize()
                    .into()
            })
            .collect();
        for index in perm.iter_mut() {
            let flip = (pivot + n - *index) % n;
            let position = (*index).max(flip);
            let source = &sources[position / 256];
            if (source[(position % 256) / 8] >> (position % 8)) & 1 == 1 {
                *index = flip;
            }
        }
    }
    if forwards {
        let mut out = vec![0; n];
        for (i, p) in perm.into_iter().enumerate() {
            out[p] = input[i];
        }
        Some(out)
    } else {
        Some(perm.into_iter().map(|p| input[p]).collect())
    }
}
