ONE_TEST = "The only test that runs here checks the position iterator on one hand-written shape. "

prop("C01", "Honest multiproofs verify and report exactly the proven values",
     "Every multiproof that honestly describes part of a Merkle tree is accepted against that tree's root, its recomputed root is that root, and it reports exactly the marked chunks with their tree positions, in depth-first order. This holds for every tree shape up to the maximal expressible depth, for every choice of marked nodes, and whatever the preallocation hint says.",
     ["inputs"], "all tree shapes, marks, chunk contents and hints (generated up to 2000 nodes and depth 63)",
     ONE_TEST + "The guarantee is over all shapes and depths; a bug in the stack reduction or in position tracking shows only on particular ones.",
     [MP], [("root recomputation", MP + ": calculate_compact_multi_merkle_root"), ("position tracking", MP + ": GIndexIterator")],
     pkg="ssz-checks", oracle="a recursive reference Merkle tree",
     state=[("Multiproof", "nodes, value marks, shape description and stack hint of a proof", MP)])

prop("C02", "A multiproof accepted against a root reports only chunks of that tree",
     "If a multiproof, however it was made, is accepted against a trusted root, then every chunk it reports, under every position it reports it, is the chunk at that position of the tree with that root. Proofs whose nodes or root have been altered are refused as root mismatches.",
     ["inputs"], "all byte-level contents of a proof that an adversary without hash collisions can produce: re-cut, re-shaped, over-deep, re-marked, tampered",
     ONE_TEST + "Soundness is a statement over all adversarial proofs; no test here builds even one.",
     [MP], [("root comparison", MP + ": verify"), ("depth limit", MP + ": MAX_DEPTH"), ("position arithmetic", MP + ": GIndexIterator")],
     pkg="ssz-checks", oracle="the committed tree (accepted => truthful)")

prop("C03", "Malformed multiproofs are refused with an error and never crash the verifier",
     "For any bytes that decode to a multiproof, verification, root calculation and every way of reading it terminate without a crash. A root is calculated exactly for well-formed proofs (one complete tree with all its nodes present); everything else is an error.",
     ["inputs"], "arbitrary shape descriptions, data lengths, marks, hints, and encoded bytes with edits",
     ONE_TEST + "Totality quantifies over all malformed inputs, which no test samples.",
     [MP], [("checked accesses", MP + ": calculate_compact_multi_merkle_root"), ("errors", "ssz-multiproofs/src/error.rs")],
     pkg="ssz-checks", oracle="a recursive-descent reader of the shape description")

prop("C04", "Reading proven values by expected position is exact",
     "Sequential reads return the marked values in order; a read with an expected position succeeds exactly when that is the position of the next value and otherwise reports the expected and actual positions, or that no value remains. Lookup by position finds exactly the marked values and nothing else.",
     ["inputs", "histories"], "all proofs and all sequences of reads, right and wrong",
     ONE_TEST + "No test in the reliable set reads a value at all.",
     [MP], [("expected reads", MP + ": ValueIterator::next_assert_gindex"), ("lookup", MP + ": get")],
     pkg="ssz-checks", oracle="a list model of the reads")

prop("C05", "Multiproofs survive serialization unchanged and without copying",
     "Encoding any multiproof and decoding it gives an equal proof with the same root, values and positions, alone or embedded among other data, in both binary formats used. Decoding borrows the node data from the input instead of copying it.",
     ["inputs"], "all proofs, honest or damaged, alone and in larger messages",
     "The round-trip tests need the builder feature and are not part of the reliable set; they cover a handful of fixed proofs.",
     [MP], [("serde derive with borrow", MP + ": Multiproof")],
     pkg="ssz-checks", oracle="the encode/decode round trip")

BU_NOTE = "ssz_rs and ethereum-consensus are stand-ins (shims/) that answer single proofs by position like the real ones. "
NOT_BUILT = "The builder feature is not even compiled by the reliable tests, whose two builder tests use one position each. "
prop("C06", "Built multiproofs verify and carry exactly the requested values",
     "A multiproof built for any set of provable positions or paths of a container is accepted against the container's root, before and after encoding, and reports exactly the requested positions in depth-first order with the container's chunks at them. It does not matter how the positions are registered, in which order, how often, or how many they are.",
     ["inputs", "configurations"], "all containers and all sets of pairwise non-nested positions (generated up to depth 63 and 50000 positions)",
     NOT_BUILT + "Which nodes must be there and in what order depends on how the requested positions relate, in sets of any size, across worker threads.",
     [BU, MP], [("nodes and marks", BU + ": compute_proof_indices_and_value_mask"), ("shape", BU + ": compute_proof_descriptor"), ("order", BU + ": cmp_binary_lexicographically")],
     pkg="builder-checks", oracle="the committed tree and its typed fields", note=BU_NOTE)

prop("C07", "Built multiproofs are minimal and canonical",
     "A built multiproof contains exactly the requested nodes and the siblings that cannot be recomputed from them, each once. The same set of positions always gives the same proof and the same bytes, however it was registered.",
     ["inputs", "schedules"], "all containers, sets of positions, and ways of registering them",
     NOT_BUILT + "A redundant or unordered node still verifies in many shapes; minimality is a statement over all sets of positions.",
     [BU], [("helper nodes", BU + ": get_branch_indices"), ("path nodes", BU + ": get_path_indices")],
     pkg="builder-checks", oracle="a set-based reference of the needed nodes", note=BU_NOTE)

prop("C08", "Requests no multiproof can answer are refused without a crash",
     "Building a multiproof for no positions, for zero or the root, for positions nested below one another, or for positions the container does not have ends with an error, never with a crash and never with a proof that does not verify. All other requests are answered.",
     ["inputs"], "all sets of positions, provable or not",
     NOT_BUILT + "Whether a request can be answered depends on the combination of positions and the container.",
     [BU, "ssz-multiproofs/src/error.rs"], [("request validation", BU + ": build"), ("errors", "ssz-multiproofs/src/error.rs: EmptyProof")],
     pkg="builder-checks", oracle="a reference of provability, and verification of whatever is built", note=BU_NOTE)

CORE_NOTE = ("The consensus types come from stand-ins written from the consensus specification (shims/), and a toy additive signature scheme replaces BLS. ")
VE, CS, GR, CC = "core/src/verify.rs", "core/src/consensus_state.rs", "core/src/input_reader/guest_input_reader.rs", "core/src/committee_cache.rs"
AT, AB, IR, SP, LI, CO = "core/src/attestation.rs", "core/src/abi.rs", "core/src/input_reader.rs", "core/src/state_patch.rs", "core/src/lib.rs", "core/src/config.rs"
NOT_RUN = "None of the reliable tests touches this crate. "

prop("C10", "The consensus state follows the Casper FFG transition rule",
     "A supermajority link advances a consistent consensus state exactly when its source is the justified checkpoint and its target is later. The target becomes justified; the source becomes finalized exactly if the target is the next epoch. Every other link is refused, the result is always consistent (justified later than finalized, or both genesis), and neither checkpoint ever moves backwards along a history.",
     ["inputs", "histories"], "all consistent states, all links (epochs up to 2^64-1), and all sequences of links",
     NOT_RUN + "The unit tests of the transition enumerate small epochs; consistency and monotonicity are statements about every history.",
     [CS], [("transition", CS + ": ConsensusState::state_transition"), ("consistency", CS + ": is_valid")],
     pkg="core-checks", oracle="a four-line reference of the transition rule and history invariants", note=CORE_NOTE,
     state=[("ConsensusState", "current justified and finalized checkpoints", CS)])

prop("C11", "Links are recovered exactly from a pair of consensus states",
     "For a consensus state and any state that one link leads to, the link is recovered: applying the recovered link gives the second state. If no link leads from one state to the other, none is reported.",
     ["inputs"], "all pairs of consistent states",
     NOT_RUN + "The inverse must agree with the transition rule on every pair of states, of which tests sample a few.",
     [CS], [("inverse", CS + ": ConsensusState::transition_link")],
     pkg="core-checks", oracle="the transition rule itself (inverse relation)", note=CORE_NOTE,
     )

prop("C12", "The public journal and states keep their exact ABI encoding",
     "The journal a proof commits to is the standard ABI encoding of the trusted state, the new state and the finalized slot, so that an on-chain verifier reads exactly these values. Decoding gives them back unchanged, and bytes that do not describe consistent states are refused with an error, never with a crash.",
     ["inputs"], "all states and slots, and all byte strings near valid encodings",
     NOT_RUN + "The encoding is an interface to a contract and has to hold for every value.",
     [AB, CS], [("journal", AB + ": Journal"), ("checked decoding", CS + ": ConsensusState::try_new")],
     pkg="core-checks", oracle="an independent ABI encoder and the decode round trip", note=CORE_NOTE)

prop("C13", "A link counts only with the threshold share of unslashed active stake",
     "A link is applied exactly if the effective balances of the distinct, unslashed, active validators whose valid votes support it, compared exactly, reach the configured share of the total active balance at the target epoch. Votes repeated in several aggregates count once, slashed validators count in the total only, and a threshold below two thirds is never acted upon.",
     ["inputs"], "all validator sets, balances, overlapping aggregates and configured thresholds",
     NOT_RUN + "The comparison matters within one Gwei of the threshold; only a search aimed at the edge, over all participation patterns, can decide it.",
     [VE, LI], [("threshold", VE + ": verify"), ("balance sums", LI + ": get_total_balance")],
     pkg="core-checks", oracle="an independent model of attestation processing with exact arithmetic", note=CORE_NOTE)

prop("C14", "Verification takes exactly one finalization from valid consecutive links",
     "Verification succeeds exactly if the attestations, taken in order and grouped by link, are a chain of valid transitions that starts at the trusted state and ends with its first new finalization: nothing follows it, each target's fork is supported by the configuration, and no target is beyond the lookahead limit. The result is the state this chain leads to.",
     ["histories", "configurations"], "all sequences of links, forks schedules around them, limits and orders",
     NOT_RUN + "It is a property of whole histories of links; fork boundaries and limits matter only at particular distances.",
     [VE, CO], [("one finalization", VE + ": verify"), ("forks and lookahead", VE + ": validate_link")],
     pkg="core-checks", oracle="a reference model of the whole verification", note=CORE_NOTE)

prop("C15", "No forged attestation contributes to a link",
     "An attestation is accepted only if its aggregate signature is by exactly the validators it names, over exactly its data, under the attester domain of the fork at its target epoch and of this network. It is refused if its slot is outside the target epoch, its committee index is not zero, it names no or unknown committees, its bit list does not fit them, or nobody signed. A refused attestation makes the verification fail.",
     ["inputs"], "all single and double alterations of otherwise sufficient attestations",
     NOT_RUN + "Forgeries are adversarial inputs; each check must hold for every alteration, whatever else is valid.",
     [VE, AT, "core/src/bls.rs"], [("attestation checks", VE + ": process_attestation"), ("signature", VE + ": is_valid_indexed_attestation"), ("indices", AT + ": get_attesting_indices")],
     pkg="core-checks", oracle="a reference model, and refusal of every effective alteration", note=CORE_NOTE)

prop("C16", "Attester committees are those of the consensus specification",
     "The committees used to read attestations are exactly those that the consensus specification assigns for the epoch: the active validators, shuffled by the epoch's seed, cut into the specified number of committees per slot. So every honest attestation is read as the votes of its true signers, whatever the number of validators.",
     ["inputs"], "all numbers of validators (up to 12000 generated), seeds, slots, committees and participation patterns",
     NOT_RUN + "The list-shuffling differs from the specification's per-index function; equality must hold for every size, including those where committees differ in length.",
     [CC, VE, AT], [("shuffle and slices", CC + ": CommitteeCache"), ("participants", AT + ": get_attesting_indices")],
     pkg="core-checks", oracle="the specification's per-index shuffle; honest votes must be accepted, and all their signers counted", note=CORE_NOTE)

prop("C17", "Shuffling seeds use the specified RANDAO mix of the right epoch",
     "The seed of an epoch is the hash of the domain, the epoch and the RANDAO mix that the specification prescribes: that of the epoch before, less the seed lookahead, wrapping around the mix vector, taken from the state of the epoch asked for. It is never read from another epoch or index.",
     ["inputs"], "all epochs, in particular around the wrap-around and the first ones",
     NOT_RUN + "Off-by-one errors show only at the wrap-around or between particular epochs.",
     [IR], [("seed", IR + ": InputReader::get_seed"), ("mix index", IR + ": get_randao_mix")],
     pkg="core-checks", oracle="the specification's get_seed on a reader in which all mixes differ", note=CORE_NOTE)

prop("C18", "Balance totals are exact or refused",
     "The total balance of a list of validators is the exact sum of their effective balances, at least one effective-balance increment. A sum that does not fit is an error and never wraps around.",
     ["inputs"], "all lists of balances",
     NOT_RUN + "The deployed build does not check for overflow, so the arithmetic itself has to.",
     [LI], [("sum", LI + ": get_total_balance")],
     pkg="core-checks", oracle="exact 128-bit sums", note=CORE_NOTE)

prop("C20", "The guest trusts no input that is not proven from the trusted block",
     "A guest input becomes a reader only if its block proof is for the trusted finalized block, its state proof for that block's state, its registry proof for that state's registry, each at exactly the expected positions; the registry is complete, every public key matches its proven bytes, only validators that have exited by the trusted epoch are abbreviated, and the state's fork is that of the chain. Any departure is refused.",
     ["inputs", "configurations"], "all single and double alterations of the proofs, keys and roots of generated inputs",
     NOT_RUN + "Soundness against a malicious host is a statement over all inputs; the existing tests only run honest ones and need downloads.",
     [GR, "core/src/guest_gindices.rs"], [("extraction", GR + ": extract_validators_multiproof"), ("chain of roots", GR + ": into_reader"), ("slot proofs", GR + ": block_slots")],
     pkg="core-checks", oracle="an independent decoder of the proofs that decides acceptance", note=CORE_NOTE)

prop("C21", "The reader reports the registry as the chain will have it",
     "From an honest input, the reader reports for every epoch exactly the validators that are active then, with their proven keys, balances and flags, after the activations that the specification performs between the trusted state and the justified epoch. The fork of every epoch and the genesis root are those of the chain.",
     ["inputs", "histories"], "all registries in all phases of life, all gaps between state, trusted and justified epochs, fork schedules",
     NOT_RUN + "The replayed registry updates depend on several epochs at once; tests contain a few recorded states only.",
     [GR, LI], [("registry replay", GR + ": process_registry_updates"), ("activity", SP + ": is_active_validator")],
     pkg="core-checks", oracle="a reference registry replay", note=CORE_NOTE)

prop("C22", "Unverified state patches cannot bend the active set beyond the churn limits",
     "State patches, which nobody proves, are accepted only if they concern epochs from the trusted one on, and if every exit they add is of a known validator that was not exiting, is not before the earliest epoch at which an exit from the trusted state's epoch on can take effect, happens once, and fits, with those of all other patches, into twice the churn limit of each epoch. So no patch activates a validator, moves an exit, or removes more stake than the limits allow.",
     ["inputs", "histories"], "all sequences of patches over consecutive epochs, from genesis on",
     NOT_RUN + "It bounds what any adversarial patch can do; no test builds an implausible patch.",
     [GR, SP], [("plausibility", GR + ": validate_state_patches"), ("application", SP + ": is_active_validator")],
     pkg="core-checks", oracle="a reference of the plausibility rules, and bounds on the removed stake", note=CORE_NOTE)

prop("C23", "The reported slot is the proven slot of the newly finalized block",
     "A successful verification reports the slot of the block of the newly finalized checkpoint, as proven against that block's root. If this slot is not known the verification fails, whatever slots of other blocks are known.",
     ["inputs", "histories"], "all link sequences and sets of known slots",
     NOT_RUN + "The slot becomes public and must belong to the finalized block in every history, also when other checkpoints' slots are around.",
     [VE, GR], [("report", VE + ": verify"), ("known slots", GR + ": slot_for_block")],
     pkg="core-checks", oracle="a reference model of the whole verification", note=CORE_NOTE)

prop("C24", "Guest inputs and configurations survive serialization unchanged",
     "Encoding a guest input and decoding it gives an equal input: proofs, keys, patches, states, attestations with all their bits, in order; encoding again gives the same bytes. States, patches and configurations also survive the text format. Truncated inputs are refused.",
     ["inputs"], "all inputs, honest or not",
     NOT_RUN + "The host and the zkVM guest only agree if this holds for every value; the round-trip test has one hand-written input.",
     [GR, "core/src/serde_utils.rs", AT, CO, CS], [("field encodings", "core/src/serde_utils.rs"), ("attestation encoding", AT + ": DiskAttestation")],
     pkg="core-checks", oracle="the encode/decode round trip", note=CORE_NOTE)

GU = "methods/guest/src/lib.rs"
prop("C25", "Hard-coded tree positions match the layouts for every validator index",
     "The tree positions at which the guest reads block, state and validator fields are those of the consensus specification's containers (the same in Electra and Fulu), for every possible validator index, and no two fields share a position.",
     ["inputs"], "all validator indices below 2^40 and all field contents",
     NOT_RUN + "The positions are generated formulas over the index; tests with recorded states only reach small indices, and only the fields that differ.",
     ["core/src/guest_gindices.rs"], [("formulas", "core/src/guest_gindices.rs")],
     pkg="gindex-checks", oracle="trees hashed from the container layouts", note="The layouts are written down in the check, from the specification. ")

prop("C27", "The guest commits a journal exactly for justified finalizations",
     "From its input frame to its output, the guest commits the trusted state, the new state and the finalized slot, in this order and nothing else, exactly if the input is proven from the trusted block and its votes lead to that state. On every other input it ends with a failure and commits nothing.",
     ["inputs", "histories"], "all input frames: honest ones and ones with changes of proofs, registry, patches, votes and order, or cut short",
     NOT_RUN + "What the chain contract relies on is the composition of all parts, for adversarial inputs; the end-to-end tests need downloads and only run honest ones.",
     [GU, VE, GR, AB], [("entry point", GU + ": entry"), ("verification", VE + ": verify"), ("proofs", GR + ": into_reader")],
     pkg="guest-checks", oracle="a reference model of the whole guest", note=CORE_NOTE)

prop("C28", "The mainnet and Sepolia guests follow their own network's rules",
     "The two deployed guests accept exactly what is valid on their network: its fork versions and fork epochs, its committee sizes and shuffling, and its justification threshold (85 percent on mainnet, 70 percent on Sepolia). Votes signed for another network or fork are refused.",
     ["inputs", "configurations"], "all epochs (generated around the networks' forks and far beyond), participation around the thresholds",
     NOT_RUN + "Each deployed binary combines a chain specification with a configuration; a mix-up only shows for particular epochs or participations.",
     ["methods/guest/src/bin/mainnet.rs", "methods/guest/src/bin/sepolia.rs", "chainspec/src/lib.rs", CO],
     [("binaries", "methods/guest/src/bin"), ("network parameters", "chainspec/configs"), ("thresholds", CO)],
     pkg="guest-checks", oracle="a reference model of the whole guest with the networks' published parameters", note=CORE_NOTE)

HOST_NOTE = ("The consensus types, the HTTP client and the zkVM are stand-ins (shims/), a toy additive signature scheme replaces BLS, and the node is simulated. ")
SPV, HR, PF, BS = "host/src/state_provider.rs", "host/src/input_reader/host_input_reader.rs", "host/src/input_reader/preflight_input_reader.rs", "host/src/beacon_state.rs"
prop("C30", "States at epochs, boundaries and checkpoints are those of the chain",
     "The state at an epoch is the one at its first slot; the state at its boundary is the one after the last block at or before that slot, however many slots are empty. A checkpoint's state is given exactly if the checkpoint's root is that of the boundary block, and everything else is reported as an invalid checkpoint or a missing state.",
     ["inputs", "histories"], "all chains with any pattern of empty slots and forks, and all right or wrong checkpoints",
     NOT_RUN + "Whether boundary blocks are found depends on the pattern of empty slots, which recorded chains hardly vary.",
     [SPV], [("boundary", SPV + ": state_at_epoch_boundary"), ("checkpoint", SPV + ": state_at_checkpoint")],
     pkg="host-checks", oracle="a simulated chain", note=HOST_NOTE)

PAPI, FPR, CPR = "host/src/state_provider/persistant_api_provider.rs", "host/src/state_provider/file_provider.rs", "host/src/state_provider/cache_provider.rs"
prop("C31", "Stored states are returned unchanged, or not at all",
     "A state that was saved is returned unchanged for its slot, and for no other, until it is cleared, also by way of the cache and after reopening the directory. If saving is interrupted, or runs out of space, at any byte, then the old content stays readable or there is none, and saving works again. States the directory lacks are fetched from the node once and then kept.",
     ["crash_points", "histories", "fault_sequences"], "all histories of saves, reads, clears and reopening, with saves cut off at any byte, and node answers with faults",
     NOT_RUN + "A crash in the middle of a write leaves what no test looks at; each later read depends on it.",
     [FPR, PAPI, CPR], [("files", FPR), ("fetch and keep", PAPI), ("cache", CPR)],
     pkg="host-checks", oracle="a map model of the store; saves run in a child process that is killed at a byte limit", note=HOST_NOTE)

prop("C32", "State patches record exactly the changed exits and used mixes",
     "A state patch holds the exit epoch of exactly those validators whose exit epoch differs from the state it is compared with, and exactly the RANDAO mixes that were recorded, each with the value of its state. A mix that the state does not have is an error.",
     ["inputs"], "all pairs of registries, of equal or different length, and all mix indices, in Electra and Fulu states",
     NOT_RUN + "The guest trusts the patch to describe the difference; one missing or spurious validator changes committees.",
     ["host/src/state_patch_builder.rs", SP], [("differences", "host/src/state_patch_builder.rs: StatePatchBuilder")],
     pkg="host-checks", oracle="a map of the differences", note=HOST_NOTE)

prop("C33", "The host finds the links and attestations of the next finalization",
     "For a finalized checkpoint, the host reader gives the consensus state in which it was final, all attestations on chain for each link that justifies a checkpoint up to the next finalization, in order and none other, and validators, fork and mixes as in the states of the chain. Verification with it succeeds whenever the chain finalized by votes that the network's threshold admits. Other checkpoints, and faults of the node, are errors.",
     ["histories", "fault_sequences"], "all chains (forks, empty slots, skipped epochs, late inclusion, slashings, registry changes), trusted checkpoints and node faults",
     NOT_RUN + "Which blocks and epochs have to be searched depends on how finality came about, in all histories of the chain.",
     [HR, "host/src/chain_reader.rs", "host/src/conversions.rs"], [("search", HR + ": HostInputReader::new"), ("attestations", HR + ": collect_attestations_for_links"), ("views of the state", HR)],
     pkg="host-checks", oracle="a simulated chain with its own justification, finality and registry", note=HOST_NOTE)

prop("C34", "What preflight makes is accepted by the guest with the same result",
     "When preflight succeeds for a finalized checkpoint of an honest chain, and the votes suffice by the trusted state's balances, the input it makes (the same each time it is asked) is accepted by the guest, which commits the trusted state, the new state and the finalized slot that preflight announced. Preflight has the same result as verifying on the host's reader.",
     ["histories"], "all chains with exits, ejections, activations, slashings and balance changes, within twice the churn limit, forks, empty slots and links",
     NOT_RUN + "The guest's view of later registries is derived from the trusted state and patches; agreement is a statement over all histories in between.",
     [PF, "host/src/state_patch_builder.rs", GR], [("recording", PF), ("input", PF + ": to_input"), ("guest's view", GR)],
     pkg="host-checks", oracle="a simulated chain and the guest program itself", note=HOST_NOTE + "One open finding is recorded. ")

prop("C37", "Beacon states of every fork are decoded, hashed and read correctly",
     "The SSZ encoding of a state of any fork from Phase 0 to Fulu is decoded as that fork, gives the specification's hash tree root, encodes to the same bytes and JSON, and every accessor gives the field of its name, or nothing if the fork has no such field.",
     ["inputs"], "all forks and field contents",
     NOT_RUN + "The forks are told apart by trial and must never be taken for one another; accessors are written per fork.",
     [BS], [("decoding", BS + ": Deserialize"), ("accessors", BS)],
     pkg="host-checks", oracle="a model of SSZ, Merkleization and JSON on the specification's containers", note=HOST_NOTE)

AIR, BC, CR, CLI, GEN = "host/src/input_reader/assert_input_reader.rs", "host/src/beacon_client.rs", "host/src/chain_reader.rs", "host/src/bin/zkasper_cli.rs", "host/src/bin/gen_gindices.rs"
prop("C35", "A comparison of two readers never hides a difference between them",
     "A reader made from two others gives the answers of the first, as long as the second gives the same for all that matters: the chain, forks, mixes, attestations in order, states, slots, and of validators all but balances and exits. As soon as an answer differs, or only one of the two fails, the query does not succeed.",
     ["inputs", "histories"], "all pairs of readers, and sequences of queries",
     NOT_RUN + "It is the tool by which two views are held to be equal; each of its comparisons matters only on readers that differ there.",
     [AIR], [("comparison", AIR + ": AssertInputReader")],
     pkg="host-checks", oracle="a direct comparison of the two readers' contents", note=HOST_NOTE)

prop("C36", "The API client returns exactly what the node says about what was asked",
     "Every request goes to the endpoint of the Beacon API for the block or state asked for. What the client returns is what the node answered: 'not found' is reported as nothing, and every other failure, cut-off answer, or state whose named fork is not the encoded one is an error, never a wrong value. With a rate limit, no more requests than allowed are sent per second, and none is lost.",
     ["inputs", "histories", "fault_sequences"], "all calls, identifiers, answers and faults, also concurrently, with or without a cache and a limit",
     NOT_RUN + "The answers of a remote node are not under control; no test has one that fails.",
     [BC, CR], [("requests", BC + ": BeaconClient"), ("chain reader", CR + ": ChainReader for BeaconClient"), ("limit", BC + ": rate limiting")],
     pkg="host-checks", oracle="a node that knows what it answered to which request", note=HOST_NOTE + "HTTP caching itself is a stand-in. ")

prop("C38", "The command line program writes only inputs that prove the finalization",
     "Each input file that the program builds for a finalized checkpoint is accepted by the network's guest, which commits the chain's next finalization. Continuous building follows the chain from one to the next up to its tip. Verification and synchronization reach the consensus states of the chain, and report divergence where the chain diverges. If the node fails, the program fails and leaves no wrong file; run again, it completes.",
     ["histories", "fault_sequences", "configurations"], "all chains, networks, modes, starting points and node faults",
     NOT_RUN + "It is the composition that operators run; the tests that exercise parts of it need a node.",
     [CLI, PF, HR], [("commands", CLI)],
     pkg="host-checks", oracle="a simulated chain and the guest program itself; the program runs as a process against a node on the loopback interface", note=HOST_NOTE)

prop("C39", "Regenerating the tree positions reproduces those the guest uses",
     "Whatever the file of tree positions holds, the generator replaces it by functions that give the positions of the specification's containers for every validator index, the same that the guest is built with. If the file cannot be written completely, the generator fails.",
     ["inputs", "crash_points"], "all validator indices below 2^40; all former contents; limited space",
     NOT_RUN + "The formulas over the index come from generated code that nothing compiles but the guest.",
     [GEN, "core/src/guest_gindices.rs"], [("generator", GEN)],
     pkg="gindex-checks", oracle="the container layouts; the generated code is compiled and evaluated", note="The position of a path comes from a stand-in of ssz_rs. ")
