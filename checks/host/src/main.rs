mod both;
mod chain;
mod cli;
mod client;
#[allow(dead_code)]
#[path = "../../core/src/ffg.rs"]
mod ffg;
#[allow(dead_code)]
#[path = "../../ssz/src/model.rs"]
mod model;
mod readers;
mod state;
mod store;
#[allow(dead_code)]
#[path = "../../core/src/votes.rs"]
mod votes;
#[allow(dead_code)]
#[path = "../../core/src/world.rs"]
mod world;

use vharness::{Check, facet};

const TRUSTED: &[&str] = &[
    "lighthouse's types, ethereum-consensus, reqwest and the zkVM are stand-ins (shims/) written from the consensus specification and the APIs that /repo uses",
    "BLS is a toy scheme that accepts exactly the aggregate of the named keys over the message",
    "chains come from a simulator of justification, finality and the registry (checks/host/src/chain.rs)",
];

static ALL: &[Check] = &[
    Check {
        property: "C30",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || vec![facet("boundaries", "the first slot of some epoch has no block, so that the boundary state is an earlier one", (1200, 20000), readers::plain, readers::check_boundaries),
            facet("checkpoints", "chains of empty states from genesis on or later, some without a state; a checkpoint whose boundary block is before its epoch, or with a wrong root", (2000, 20000), readers::bare, readers::check_bare)],
    },
    Check {
        property: "C31",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet("files", "three or more operations, after which there are states in the directory", (1200, 12000), store::ops, store::check_files),
                facet("api", "some state is fetched from the node, and some is read again without asking it", (150, 2000), store::api_ops, store::check_api),
            ]
        },
    },
    Check {
        property: "C32",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || vec![facet("patches", "some validator exits in the patch", (120000, 1500000), readers::patch_case, readers::check_patch)],
    },
    Check {
        property: "C33",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || vec![facet("host_reader", "a chain whose next finalization is verified on the host", (3000, 40000), readers::run, readers::check_host)],
    },
    Check {
        property: "C34",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet("preflight", "preflight succeeds and the guest proves the finalization", (2000, 25000), readers::honest, readers::check_preflight),
                facet("busy", "preflight succeeds, and the task has not enough budget left for one header", (300, 4000), readers::busy, readers::check_busy),
                facet("recorded", "always, the recorded finding", (1, 1), readers::recorded, readers::check_preflight),
            ]
        },
    },
    Check {
        property: "C35",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet("both", "a query on which the two readers differ", (600000, 8000000), both::both_case, both::check_both)]
        },
    },
    Check {
        property: "C36",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet("answers", "some request is answered, and another is not", (6000, 80000), client::api_case, client::check_api),
                facet("limit", "more requests than fit in a second", (40, 400), client::limit_case, client::check_limit),
            ]
        },
    },
    Check {
        property: "C37",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || vec![facet("states", "the state has contents", (400, 6000), state::state_case, state::check_state)],
    },
    Check {
        property: "C38",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet("cli", "the program makes or verifies an input, or logs a verified step", (1200, 12000), cli::cli_case, cli::check_cli)]
        },
    },
];

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a == "--save") {
        std::process::exit(store::child(&args[1..]));
    }
    vharness::main_with(ALL)
}
