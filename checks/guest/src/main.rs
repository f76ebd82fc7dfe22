mod e2e;
#[allow(dead_code)]
#[path = "../../core/src/ffg.rs"]
mod ffg;
#[allow(dead_code)]
#[path = "../../ssz/src/model.rs"]
mod model;
#[allow(dead_code)]
#[path = "../../ssz/src/parts.rs"]
mod parts;
#[allow(dead_code)]
#[path = "../../core/src/reader.rs"]
mod reader;
#[allow(dead_code)]
#[path = "../../core/src/tree.rs"]
mod tree;
#[allow(dead_code)]
#[path = "../../core/src/votes.rs"]
mod votes;
#[allow(dead_code)]
#[path = "../../core/src/world.rs"]
mod world;

use vharness::{Check, facet};

const TRUSTED: &[&str] = &[
    "the stand-ins in /verif/shims behave like the lighthouse, alloy and RISC Zero crates they replace",
    "a toy additive signature scheme stands in for BLS: it accepts exactly the aggregate of the given keys over the given message",
    "SHA-256 (crate sha2) is collision resistant and is computed correctly",
    "the guest is compiled for the host with the deployed arithmetic settings (no overflow checks), not for the zkVM",
];

static ALL: [Check; 2] = [
    Check {
        property: "C27",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "whole_guest",
                "a block, its state, a registry of up to 40 validators, patches, slot proofs and the attestations of up to 3 links, honest or with single changes anywhere, as input frame of the guest; non-trivial: accepted, or refused for the votes",
                (160_000, 2_400_000),
                e2e::test_network,
                e2e::check_run,
            )]
        },
    },
    Check {
        property: "C28",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "deployed_guests",
                "inputs as above with up to 120 validators for the mainnet and Sepolia guests, at epochs around the forks of these networks and far later, with participation between 65 and 100 percent; non-trivial as above",
                (24_000, 360_000),
                e2e::deployed,
                e2e::check_run,
            )]
        },
    },
];

fn main() {
    vharness::main_with(&ALL)
}
