mod ffg;
#[allow(dead_code)]
#[path = "../../ssz/src/model.rs"]
mod model;
#[path = "../../ssz/src/parts.rs"]
mod parts;
mod reader;
mod tree;
mod votes;
mod world;

use vharness::{Check, facet};

const TRUSTED: &[&str] = &[
    "the stand-ins in /verif/shims behave like the lighthouse and alloy crates they replace (written from the consensus specification and the Solidity ABI)",
    "a toy additive signature scheme stands in for BLS: it accepts exactly the aggregate of the given keys over the given message",
    "SHA-256 (crate sha2) is collision resistant and is computed correctly",
    "the code is compiled for the host with the deployed arithmetic settings (no overflow checks), not for the zkVM",
];

static ALL: [Check; 14] = [
    Check {
        property: "C10",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet(
                    "one_link",
                    "a valid state and a link, most of them from the justified checkpoint to one of the next epochs, epochs up to 2^64-1; non-trivial: the link must be applied",
                    (4_000_000, 40_000_000),
                    ffg::transition,
                    ffg::check_transition,
                ),
                facet(
                    "histories",
                    "chains of up to 25 links, right and wrong, each relative to the state reached so far; non-trivial: at least 3 are applied and one finalizes",
                    (800_000, 12_000_000),
                    ffg::walk,
                    ffg::check_walk,
                ),
                facet(
                    "consistency",
                    "pairs of checkpoints, consistent or not, made into a state with both constructors and by decoding; non-trivial: epochs that are equal or next to each other",
                    (600_000, 9_000_000),
                    ffg::consistency,
                    ffg::check_consistency,
                ),
            ]
        },
    },
    Check {
        property: "C11",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "pairs",
                "a valid state and another one, most of them one link apart or equal in all but one part; non-trivial: two different valid states",
                (2_000_000, 20_000_000),
                ffg::pair,
                ffg::check_link,
            )]
        },
    },
    Check {
        property: "C12",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "encodings",
                "states, journals and edited or truncated encodings of valid and invalid states; non-trivial: full length",
                (4_000_000, 8_000_000),
                ffg::abi_case,
                ffg::check_abi,
            )]
        },
    },
    Check {
        property: "C13",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "large",
                "as next_to_the_threshold, with 300 to 30000 validators; non-trivial as above",
                (160, 3_200),
                votes::threshold_large,
                votes::check_threshold,
            ), facet(
                "next_to_the_threshold",
                "up to 40 validators, some of them slashed, inactive or of huge balance, overlapping aggregates, one link or two with different voters; a voter's balance is chosen so that the threshold is just met, just missed or off by little; default, Sepolia and arbitrary thresholds; non-trivial: at least 3 validators and the threshold decides",
                (480_000, 7_200_000),
                votes::threshold,
                votes::check_threshold,
            )]
        },
    },
    Check {
        property: "C14",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "link_sequences",
                "up to 4 links with full support, around fork boundaries and the lookahead limit, with wrong sources, missing, swapped, repeated and trailing attestations; non-trivial: accepted or more than one link",
                (640_000, 9_600_000),
                votes::links,
                votes::check_links,
            )]
        },
    },
    Check {
        property: "C15",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "forged",
                "enough honest attestations for a finalization, of which one or two are forged: signatures, domains, signed data, slots, committees, bit lists, format; non-trivial: refused because of the forgery only",
                (240_000, 3_600_000),
                votes::forged,
                votes::check_forged,
            ), facet(
                "forged_large",
                "the same with 3000 to 24000 validators on the minimal preset, up to 3000 of them in one attestation; non-trivial as above",
                (400, 8_000),
                votes::forged_large,
                votes::check_forged,
            )]
        },
    },
    Check {
        property: "C16",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet(
                    "minimal",
                    "honest votes of up to 220 validators (up to 4 committees per slot, 8 slots), some of them inactive; non-trivial: at least 8 validators and accepted",
                    (96_000, 1_440_000),
                    votes::small_committees,
                    votes::check_committees,
                ),
                facet(
                    "mainnet",
                    "up to 900 validators (up to 7 committees per slot, 32 slots, 90 rounds); non-trivial as above",
                    (3_600, 54_000),
                    votes::mainnet_committees,
                    votes::check_committees,
                ),
                facet(
                    "minimal_large",
                    "1000 to 40000 validators on the minimal preset, up to 5000 of them in one attestation; non-trivial as above",
                    (200, 4_000),
                    votes::large_committees,
                    votes::check_committees,
                ),
                facet(
                    "mainnet_large",
                    "8000 to 20000 validators (62 to 64 committees per slot, up to 625 validators); non-trivial as above",
                    (48, 720),
                    votes::many_committees,
                    votes::check_committees,
                ),
            ]
        },
    },
    Check {
        property: "C17",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "seeds",
                "epochs around the wrap-around of the mix vector, the first ones, the last ones of 64 bits and arbitrary ones, with a reader in which every mix is different; non-trivial: not one of the first two epochs",
                (4_000_000, 8_000_000),
                votes::seeds,
                votes::check_seed,
            ), facet(
                    "reader_mixes",
                    "guest inputs, minimal and mainnet, around the wrap-around of the mix vector and elsewhere, with patches of several epochs that have the mixes those epochs need, or others; seeds and mixes of 12 epochs as the guest's reader gives them; non-trivial: with patches",
                    (80_000, 1_200_000),
                    reader::reader_seeds,
                    reader::check_reader_seeds,
            )]
        },
    },
    Check {
        property: "C18",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "sums",
                "lists of balances, also tiny ones and ones whose sum is around 2^64; non-trivial: at least 2",
                (4_000_000, 4_000_000),
                votes::balances,
                votes::check_total,
            )]
        },
    },
    Check {
        property: "C20",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "tampered",
                "a block, its state of 37 fields and a registry of up to 12 validators, as guest input with one or two changes: flipped bits, other marks, proofs of other trees, registries with keys and flags that are almost right, validators presented as exited, left out or with other keys, other slot proofs; non-trivial: refused",
                (576_000, 8_640_000),
                reader::tampered,
                reader::check_reader,
            ), facet(
                "tampered_large",
                "the same with up to 700 validators; non-trivial as above",
                (4_800, 72_000),
                reader::tampered_large,
                reader::check_reader,
            )]
        },
    },
    Check {
        property: "C21",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![
                facet(
                    "honest",
                    "registries of up to 40 validators in all phases of life, boundary states some slots early, around fork boundaries; non-trivial: accepted",
                    (144_000, 2_160_000),
                    reader::honest,
                    reader::check_reader,
                ),
                facet(
                    "large",
                    "up to 700 validators; non-trivial as above",
                    (4_800, 72_000),
                    reader::honest_large,
                    reader::check_reader,
                ),
                facet(
                    "with_patches",
                    "the inputs of C22, of which those are looked at that are accepted; non-trivial: with patches",
                    (120_000, 1_800_000),
                    reader::patched,
                    reader::check_accepted,
                ),
            ]
        },
    },
    Check {
        property: "C22",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "patched",
                "registries of up to 20 validators with up to 3 patches of consecutive epochs, plausible or not; non-trivial: accepted with exits, or refused because of a patch",
                (288_000, 4_320_000),
                reader::patched,
                reader::check_patches,
            ), facet(
                "patched_large",
                "the same with up to 700 validators and 11 exits in a patch; non-trivial as above",
                (4_800, 72_000),
                reader::patched_large,
                reader::check_patches,
            )]
        },
    },
    Check {
        property: "C23",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "reported_slots",
                "sequences of links as in C14 and a reader that knows the slots of all blocks, of none, or of all but the finalized one; non-trivial: accepted, or refused for the missing slot only",
                (480_000, 7_200_000),
                votes::finalized_slot,
                votes::check_slots,
            ), facet(
                "proven_slots",
                "honest guest inputs with 1 to 3 block slot proofs, which prove the slot, other fields or inner nodes instead or in addition, are damaged, or are those of other blocks; non-trivial: some proof is changed",
                (120_000, 1_800_000),
                reader::slot_proofs,
                reader::check_slot_proofs,
            )]
        },
    },
    Check {
        property: "C24",
        level: "exploration",
        assumptions: TRUSTED,
        facets: || {
            vec![facet(
                "round_trips",
                "whole guest inputs, honest and not, with attestations, patches and keys, encoded with bincode and decoded; patches, states and configurations also in JSON; damaged encodings; non-trivial: with attestations and keys",
                (192_000, 2_880_000),
                reader::roundtrip,
                reader::check_roundtrip,
            )]
        },
    },
];

fn main() {
    vharness::main_with(&ALL)
}
