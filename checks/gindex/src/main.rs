//! C25, C39: the hard-coded generalized indices, and those that the generator makes, against the container
//! layouts of the consensus specification.

#[allow(dead_code)]
#[path = "/repo/core/src/guest_gindices.rs"]
mod guest_gindices;
pub type ValidatorIndex = usize;

mod regen;

use guest_gindices as g;
use proptest::prelude::*;
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use vharness::{Case, Check, Verdict, check, check_eq, facet};

const BLOCK: &[&str] = &["slot", "proposer_index", "parent_root", "state_root", "body"];
/// The fields of the Electra state, in order; Fulu appends one.
const STATE: &[&str] = &[
    "genesis_time", "genesis_validators_root", "slot", "fork", "latest_block_header", "block_roots", "state_roots",
    "historical_roots", "eth1_data", "eth1_data_votes", "eth1_deposit_index", "validators", "balances", "randao_mixes",
    "slashings", "previous_epoch_participation", "current_epoch_participation", "justification_bits",
    "previous_justified_checkpoint", "current_justified_checkpoint", "finalized_checkpoint", "inactivity_scores",
    "current_sync_committee", "next_sync_committee", "latest_execution_payload_header", "next_withdrawal_index",
    "next_withdrawal_validator_index", "historical_summaries", "deposit_requests_start_index",
    "deposit_balance_to_consume", "exit_balance_to_consume", "earliest_exit_epoch", "consolidation_balance_to_consume",
    "earliest_consolidation_epoch", "pending_deposits", "pending_partial_withdrawals", "pending_consolidations",
];
const VALIDATOR: &[&str] = &[
    "pubkey", "withdrawal_credentials", "effective_balance", "slashed", "activation_eligibility_epoch", "activation_epoch",
    "exit_epoch", "withdrawable_epoch",
];

type Chunk = [u8; 32];
fn h(a: &Chunk, b: &Chunk) -> Chunk {
    Sha256::new().chain_update(a).chain_update(b).finalize().into()
}
fn num(n: u64) -> Chunk {
    let mut c = [0; 32];
    c[..8].copy_from_slice(&n.to_le_bytes());
    c
}
fn rnd(salt: u64, name: &str, i: u64) -> Chunk {
    Sha256::new().chain_update(salt.to_le_bytes()).chain_update(name).chain_update(i.to_le_bytes()).finalize().into()
}

/// All nodes of interest of a tree by position, made by hashing from the leaves up.
struct Tree(BTreeMap<u64, Chunk>);
impl Tree {
    /// Puts the chunks of a container with `n` fields below `at`, and returns its root.
    fn container(&mut self, at: u64, chunks: &[Chunk]) -> Chunk {
        let width = chunks.len().next_power_of_two() as u64;
        for i in 0..width {
            self.0.insert(at * width + i, chunks.get(i as usize).copied().unwrap_or([0; 32]));
        }
        let mut w = width;
        while w > 1 {
            w /= 2;
            for i in 0..w {
                let g = at * w + i;
                let x = h(&self.0[&(2 * g)], &self.0[&(2 * g + 1)]);
                self.0.insert(g, x);
            }
        }
        self.0[&at]
    }
}

/// A validator, its index (any), a neighbour's too; and a state around the registry's root.
fn check_layout(&(i, salt): &(u64, u64), c: &mut Case) -> Verdict {
    let idx = i as usize;
    c.nontrivial(i > 0);
    c.label_if(i >= 1 << 32, "index beyond 32 bits");
    let mut t = Tree(BTreeMap::new());
    // the list of validators has 2^40 places, mixed in with its length
    let base = (2u64 << 40) + i;
    let pk = [rnd(salt, "pk", 0), { let mut x = rnd(salt, "pk", 1); x[16..].fill(0); x }];
    let pk_at = base * 8;
    let pk_root = t.container(pk_at, &pk);
    let fields: Vec<Chunk> = VALIDATOR.iter().map(|f| if *f == "pubkey" { pk_root } else { rnd(salt, f, i) }).collect();
    let root = t.container(base, &fields);
    // from the validator's root to the root of the list
    let (mut at, mut x) = (base, root);
    while at > 2 {
        let sibling = rnd(salt, "sibling", at);
        let up = if at % 2 == 0 { h(&x, &sibling) } else { h(&sibling, &x) };
        (at, x) = (at / 2, up);
        t.0.insert(at, x);
    }
    check_eq!(at, 2, "position of the list's chunks");
    let list_root = h(&x, &num(i + 1));

    let field = |name: &str| {
        let k = VALIDATOR.iter().position(|f| *f == name).unwrap();
        fields[k]
    };
    let read = |g: u64, want: Chunk, what: &str| -> Verdict {
        match t.0.get(&g) {
            Some(x) if *x == want => Ok(()),
            _ => Err(format!("position {g} is not the {what} of validator {i}")),
        }
    };
    read(g::public_key_0_gindex(idx), pk[0], "first part of the key")?;
    read(g::public_key_1_gindex(idx), pk[1], "second part of the key")?;
    read(g::effective_balance_gindex(idx), field("effective_balance"), "effective balance")?;
    read(g::slashed_gindex(idx), field("slashed"), "slashed flag")?;
    read(g::activation_eligibility_epoch_gindex(idx), field("activation_eligibility_epoch"), "eligibility epoch")?;
    read(g::activation_epoch_gindex(idx), field("activation_epoch"), "activation epoch")?;
    read(g::exit_epoch_gindex(idx), field("exit_epoch"), "exit epoch")?;
    // no two fields share a position, and they come in the order in which the guest reads them
    let order = [
        g::public_key_0_gindex(idx),
        g::public_key_1_gindex(idx),
    ];
    check!(order[0] + 1 == order[1], "the parts of the key are not adjacent");

    for fulu in [false, true] {
        let mut s = Tree(BTreeMap::new());
        let parts = |n: &str, k: u64| rnd(salt, n, k);
        let mut chunks: Vec<Chunk> = STATE.iter().map(|f| rnd(salt, f, 0)).collect();
        if fulu {
            chunks.push(rnd(salt, "proposer_lookahead", 0));
        }
        let w = 64;
        let k = |name: &str| STATE.iter().position(|f| *f == name).unwrap();
        let fork = [parts("fork.prev", 1), parts("fork.cur", 1), parts("fork.epoch", 1)];
        let fin = [parts("fin.epoch", 1), parts("fin.root", 1)];
        chunks[k("fork")] = s.container(w + k("fork") as u64, &fork);
        chunks[k("finalized_checkpoint")] = s.container(w + k("finalized_checkpoint") as u64, &fin);
        chunks[k("validators")] = list_root;
        let state_root = s.container(1, &chunks);
        let read = |g: u64, want: Chunk, what: &str| check_at(&s, g, want, what);
        read(g::slot_gindex(), chunks[k("slot")], "slot")?;
        read(g::genesis_validators_root_gindex(), chunks[k("genesis_validators_root")], "genesis validators root")?;
        read(g::fork_previous_version_gindex(), fork[0], "previous version")?;
        read(g::fork_current_version_gindex(), fork[1], "current version")?;
        read(g::fork_epoch_gindex(), fork[2], "fork epoch")?;
        read(g::validators_gindex(), list_root, "validators")?;
        read(g::finalized_checkpoint_epoch_gindex(), fin[0], "finalized epoch")?;
        read(g::earliest_exit_epoch_gindex(), chunks[k("earliest_exit_epoch")], "earliest exit epoch")?;
        read(g::earliest_consolidation_epoch_gindex(), chunks[k("earliest_consolidation_epoch")], "earliest consolidation epoch")?;

        let mut b = Tree(BTreeMap::new());
        let mut chunks: Vec<Chunk> = BLOCK.iter().map(|f| rnd(salt, f, 7)).collect();
        chunks[3] = state_root;
        b.container(1, &chunks);
        check_at(&b, g::state_root_gindex(), state_root, "state root")?;
        check_at(&b, g::block_slot_gindex(), chunks[0], "slot of the block")?;
    }
    Ok(())
}
fn check_at(t: &Tree, g: u64, want: Chunk, what: &str) -> Verdict {
    check!(t.0.get(&g) == Some(&want), "position {g} is not the {what}");
    Ok(())
}
fn layouts() -> BoxedStrategy<(u64, u64)> {
    let limit = 1u64 << 40;
    let i = prop_oneof![
        2 => 0u64..100,
        2 => 1_000_000u64..2_000_000,
        2 => 0..limit,
        1 => (0u32..40, -2i64..3).prop_map(move |(k, d)| (1u64 << k).saturating_add_signed(d).min(limit - 1)),
        1 => (limit - 4)..limit,
        // round numbers
        1 => (0u32..12, 1u64..10).prop_map(move |(k, m)| (m * 10u64.pow(k)).min(limit - 1)),
    ];
    (i, any::<u64>()).boxed()
}

static ALL: [Check; 2] = [regen::CHECK, Check {
    property: "C25",
    level: "exploration",
    assumptions: &[
        "the layouts of the block, state and validator containers are those of the Electra and Fulu specifications as written down in this check",
        "SHA-256 (crate sha2) is collision resistant and is computed correctly",
    ],
    facets: || {
        vec![facet(
            "layouts",
            "a validator index below 2^40 (small, realistic, around powers of two and ten, the last ones) and arbitrary contents; trees of a validator, the registry path, an Electra and a Fulu state and a block are hashed from the leaves; non-trivial: not the first validator",
            (900_000, 13_500_000),
            layouts,
            check_layout,
        )]
    },
}];

fn main() {
    vharness::main_with(&ALL)
}
