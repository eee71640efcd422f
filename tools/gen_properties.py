#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; run after editing."""
import json, os
EC = "ethereum-consensus/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
FORKS = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"]

prop("C01", "Slot clock arithmetic is exact at every instant",
 "For every genesis time, slot duration, epoch length and instant, the clock reports the slot and epoch containing that instant to the nanosecond, no slot before genesis, and the start time of a slot is the first second at which it is current. The durations reported until a slot or until the next slot lead exactly to that slot's first nanosecond, are zero for a slot already begun, and before genesis lead to genesis. The time left until a Unix timestamp is measured from the machine's own clock and is zero for one already past.",
 ["inputs", "configurations"], "all genesis times x slot durations x epoch lengths x instants, in particular around slot, epoch and genesis boundaries",
 "Three unit tests sample one slot duration and a handful of instants; boundaries, genesis offsets and nanosecond remainders are not covered.",
 [EC+"clock.rs"], [("Clock", EC+"clock.rs"), ("convert_timestamp_nanos_to_slot", EC+"clock.rs"), ("duration_until_next_slot", EC+"clock.rs")])
prop("C02", "The slot stream yields every slot once, in order, never early",
 "A stream of slots obtained from the clock yields first the slot current when it was created (or genesis slot 0 when created before genesis) and then, provided its consumer polls it at least once per slot, every following slot exactly once in increasing order, each no earlier than the slot's start. A late consumer may miss slots but never sees one twice or a slot that is not yet current, and the stream never ends.",
 ["schedules"], "all interleavings of time passing with the polls of the stream and with each reading of the clock inside one poll",
 "One unit test drives a mock clock that never moves while a poll is in progress; readings that straddle a slot boundary are not explored.",
 [EC+"clock.rs"], [("SlotStream::poll_next", EC+"clock.rs"), ("Clock::into_stream", EC+"clock.rs")])
prop("C03", "Hex encoding of bytes is lossless and rejects malformed text",
 "Every byte string is rendered as 0x followed by two lower-case hex digits per byte, and decoding that text returns the same bytes. Decoding accepts an optional 0x prefix and upper or lower case digits, and rejects odd lengths, any non-hex character and a length that does not fit the target type; the abbreviated form shows the first and last two bytes around an ellipsis exactly when there are at least four bytes.",
 ["inputs"], "all byte strings up to a bound, and all short texts over an alphabet with valid and invalid characters",
 "The unit test formats one three-byte value.",
 [EC+"serde.rs"], [("as_hex", EC+"serde.rs"), ("try_bytes_from_hex_str", EC+"serde.rs"), ("write_bytes_to_lower_hex_display", EC+"serde.rs")])
prop("C04", "Integers and integer lists travel losslessly as decimal strings",
 "A number, or each element of a list of numbers, is serialized as a quoted decimal string and deserializes to the same value, in the same order, whatever form the document is held in (text, reader or parsed tree). Text that is not the decimal form of a value in range is rejected rather than truncated or defaulted.",
 ["inputs"], "all values at width boundaries, all short lists of them, all short texts, and every way of presenting the document",
 "No test that runs here exercises these encodings.",
 [EC+"serde.rs"], [("as_str", EC+"serde.rs"), ("seq_of_str", EC+"serde.rs")])
prop("C05", "Signature domain types have the published, separated values",
 "Each kind of signed message has the four-byte domain type that the consensus specification assigns to it, in the specified byte order. Two different kinds of consensus message never share a domain type.",
 ["inputs"], "all kinds of signed message, and all pairs of them",
 "No test reads the domain bytes.",
 [EC+"domains.rs"], [("DomainType::as_bytes", EC+"domains.rs")])
prop("C06", "Fork names are canonical and round-trip",
 "Each protocol fork displays and serializes as its canonical lower-case name, every such name deserializes to that same fork, and no other name is accepted.",
 ["inputs"], "all forks, and all single-edit mutations of their names",
 "No test covers fork names.",
 [EC+"fork.rs"], [("Fork", EC+"fork.rs")])
prop("C07", "Mnemonics and seeds follow BIP-39",
 "A generated mnemonic has 24 words carrying 256 bits of fresh system entropy and recovers to itself from its phrase; a phrase is accepted exactly when its words and checksum are valid. The seed is the BIP-39 derivation of the phrase and the passphrase, an absent passphrase counts as the empty one, and different passphrases give different seeds.",
 ["inputs"], "all single-word substitutions, word orders and lengths of sample phrases, and all short passphrases",
 "No test covers this module.",
 [EC+"bin/ec/validator/mnemonic.rs"], [("recover_from_phrase", EC+"bin/ec/validator/mnemonic.rs"), ("to_seed", EC+"bin/ec/validator/mnemonic.rs")])
prop("C08", "The spec generator emits the inherited specification of each fork",
 "For every fork, the generated specification module offers each public type, constant, trait and function of that fork and of all its ancestors (except the functions that a fork retires) exactly once, from the most recent fork that changes it, directly or through a type in its signature, and never from a later fork. Generation is deterministic, and for the checked-in sources it offers the same items, with the same origins and signatures, as the checked-in generated modules.",
 ["programs"], "all assignments of definitions of an item (absent, defined, redefined) to the forks, over small source trees, and the real source tree",
 "The tests never run the generator.",
 ["spec-gen/src/generator.rs", "spec-gen/src/visitors.rs"], [("Spec / generate", "spec-gen/src/generator.rs"), ("visitors", "spec-gen/src/visitors.rs")])
prop("C09", "The type generator emits faithful fork-polymorphic types",
 "Every generated fork-spanning type (from Phase 0 to Deneb) has one variant per fork that defines it, tries the newest fork first when deserializing, and gives for each field an accessor that returns that field's value for exactly the forks that define it, optional exactly when some fork lacks it; fields accumulate from fork to fork, save for the two retired attestation lists of the beacon state. Generation is deterministic, and for the checked-in sources it yields the same variants and accessors as the checked-in types.",
 ["programs"], "all assignments of a field (absent, present, changed type) to the forks for small source trees, and the real source tree",
 "The only test compares the order of two fork names.",
 ["spec-gen/src/type_generator.rs"], [("type generator", "spec-gen/src/type_generator.rs")])
prop("C10", "Committees partition the active validators of every epoch",
 "For every seed and list size the shuffle is a permutation, and shuffling one index agrees with the shuffle of the whole list and with the specification. For every epoch, the committees of its slots assign each active validator to exactly one committee, the number of committees per slot follows the specified bounds, and their order is the specified one.",
 ["inputs", "configurations"], "all list sizes, round counts and seeds from a bounded set; all registries of active/inactive validators up to a bound",
 "Unit tests of the state transition do not run offline; upstream vectors sample a few seeds.",
 [EC+"phase0/helpers.rs", EC+"altair/spec/mod.rs", EC+"electra/spec/mod.rs"],
 [("compute_shuffled_index / compute_shuffled_indices", EC+"phase0/helpers.rs"), ("compute_committee, get_beacon_committee", EC+"phase0/helpers.rs"), ("get_committee_count_per_slot", EC+"phase0/helpers.rs")])
prop("C11", "Proposers and sync committees are chosen as specified",
 "The proposer of a slot, and the members of the next sync committee, are those that the specified effective-balance-weighted sampling of the active validators selects from the epoch's seed, for every registry, balance distribution and epoch. An empty active set is reported as an error and never loops or panics.",
 ["inputs", "histories"], "all balance and activity assignments to a small registry x seeds x slots x forks",
 "Not exercised by any test that runs; upstream vectors sample one registry.",
 [EC+"phase0/helpers.rs", EC+"altair/helpers.rs"], [("compute_proposer_index, sample_proposer_index", EC+"phase0/helpers.rs"), ("get_next_sync_committee_indices", EC+"altair/helpers.rs")])
prop("C12", "Validators move through their life cycle only as specified",
 "At every epoch boundary a validator becomes eligible, is activated, is ejected or exits exactly when the specification of the fork says so: activation only after finality and in eligibility order within the churn limit, exits queued within the churn limit, ejection at low effective balance, and withdrawability after the specified delay. Once set, an exit epoch never changes, and no other validator record changes.",
 ["histories"], "all sequences of epoch boundaries and exits from all small registries of life-cycle states x finality positions x churn limits x forks",
 "No running test; upstream vectors sample single epoch steps.",
 [EC+"phase0/epoch_processing.rs", EC+"phase0/helpers.rs", EC+"deneb/epoch_processing.rs", EC+"electra/epoch_processing.rs"],
 [("process_registry_updates", EC+"phase0/epoch_processing.rs"), ("initiate_validator_exit", EC+"phase0/helpers.rs"), ("get_validator_activation_churn_limit", EC+"deneb/helpers.rs")])
prop("C13", "Rewards, penalties and inactivity scores follow the specification",
 "At every epoch boundary each validator's balance, inactivity score and effective balance change by exactly the amounts the fork's specification gives for its participation, for the total stake and for the finality delay, saturating at zero. Validators that are not eligible are untouched, and effective balances move only past the hysteresis thresholds.",
 ["inputs", "histories"], "all participation, slashed and balance assignments to small registries x finality delays x forks",
 "No running test; upstream vectors sample a few participation patterns.",
 [EC+"phase0/epoch_processing.rs", EC+"altair/epoch_processing.rs", EC+"altair/helpers.rs", EC+"bellatrix/helpers.rs", EC+"electra/epoch_processing.rs"],
 [("process_rewards_and_penalties", EC+"altair/epoch_processing.rs"), ("get_attestation_deltas", EC+"phase0/epoch_processing.rs"), ("process_inactivity_updates", EC+"altair/epoch_processing.rs"), ("process_effective_balance_updates", EC+"phase0/epoch_processing.rs")])
prop("C14", "Justification and finality advance exactly by the two-thirds rule",
 "At every epoch boundary a checkpoint becomes justified exactly when at least two thirds of the active unslashed stake attested to it, and finalized exactly when one of the four specified patterns of justified epochs holds. Along every history the justified and finalized epochs never decrease, finality never passes justification, and nothing is justified in the first two epochs.",
 ["histories"], "all sequences of per-epoch target participation (below, at and above two thirds) over all small stakes and slashed sets, for every fork",
 "No running test; upstream vectors sample a few patterns and no long histories.",
 [EC+"phase0/epoch_processing.rs", EC+"altair/epoch_processing.rs"],
 [("weigh_justification_and_finalization", EC+"phase0/epoch_processing.rs"), ("process_justification_and_finalization", EC+"altair/epoch_processing.rs")])
prop("C15", "Slashing applies exactly to provable offenders, exactly once",
 "A proposer or attester slashing is accepted exactly when its evidence is a specified slashable offence with valid signatures by at least one still slashable validator, and then slashes exactly the offenders common to both messages. Each offender is marked, exited, penalized, recorded and scheduled for withdrawal, and the proposer and whistleblower rewarded, by the amounts the fork specifies, and the later proportional penalty is charged exactly once, at the specified epoch.",
 ["inputs", "histories"], "all pairs of messages over small ranges of slots, epochs, roots and signers, valid or mutated, applied in all orders to registries of all life-cycle states, for every fork",
 "No running test; upstream vectors sample single operations.",
 [EC+"phase0/block_processing.rs", EC+"phase0/helpers.rs", EC+"altair/helpers.rs", EC+"bellatrix/helpers.rs", EC+"electra/helpers.rs", EC+"altair/epoch_processing.rs"],
 [("process_proposer_slashing, process_attester_slashing", EC+"phase0/block_processing.rs"), ("slash_validator", EC+"phase0/helpers.rs"), ("process_slashings", EC+"phase0/epoch_processing.rs")])
prop("C16", "Attestations are accepted iff valid and credit the right validators",
 "An attestation is accepted exactly when its slot, target, source, committee and bit-length conditions hold and its signature is that of exactly the indicated attesters. It then records exactly those attesters' timely source, target and head participation, without clearing earlier credit, and pays the proposer exactly the specified reward for the new credit.",
 ["inputs", "histories"], "all attestation data over small ranges of slots, committees, roots and bit patterns, valid or with one field mutated, applied in all short sequences, for every fork",
 "No running test; upstream vectors sample single attestations.",
 [EC+"phase0/block_processing.rs", EC+"altair/block_processing.rs", EC+"deneb/block_processing.rs", EC+"electra/block_processing.rs"],
 [("process_attestation", EC+"altair/block_processing.rs"), ("get_attestation_participation_flag_indices", EC+"altair/helpers.rs"), ("is_valid_indexed_attestation, get_attesting_indices", EC+"phase0/helpers.rs"), ("get_attesting_indices", EC+"electra/helpers.rs")])
prop("C17", "Block headers, randomness and eth1 votes are checked and recorded",
 "A block is accepted only for the current slot, newer than the last block, from the slot's unslashed proposer and building on the last block's root, and its header is then recorded with an empty state root. The proposer's signed randomness reveal is verified and mixed into the current epoch only, and eth1 data is adopted exactly when more than half of the voting period's slots have voted for it.",
 ["inputs", "histories"], "all single-field mutations of a block's header fields and randomness reveal x slots x proposers; all sequences of eth1 votes in a short voting period; every fork",
 "No running test.",
 [EC+"phase0/block_processing.rs", EC+"phase0/epoch_processing.rs"],
 [("process_block_header, process_randao, process_eth1_data", EC+"phase0/block_processing.rs"), ("process_eth1_data_reset", EC+"phase0/epoch_processing.rs")])
prop("C18", "Deposits are proven, applied once and credited exactly",
 "A block must carry exactly the specified number of outstanding deposits, each proven against the adopted eth1 deposit root at its own position. A deposit for an unknown key with a valid proof of possession adds one validator with the specified record, one with an invalid proof of possession is consumed without effect, and one for a known key only raises that validator's balance (or, in the latest fork, its queued balance).",
 ["inputs", "histories"], "all sequences of deposits (new or known key, good or bad signature, proof, amount, credentials) x outstanding counts, for every fork",
 "No running test; upstream vectors sample single deposits.",
 [EC+"phase0/block_processing.rs", EC+"altair/block_processing.rs", EC+"electra/block_processing.rs"],
 [("process_deposit, apply_deposit", EC+"phase0/block_processing.rs"), ("add_validator_to_registry", EC+"altair/block_processing.rs"), ("apply_deposit", EC+"electra/block_processing.rs")])
prop("C19", "Voluntary exits and credential changes require the specified authority",
 "A voluntary exit is accepted exactly when the validator is active, not exiting, has been active for the specified period, the exit's epoch has come and the validator's own key signed it under the fork's specified domain; it then enters the exit queue. A withdrawal-credential change is accepted exactly when the key signing it hashes to the current BLS credential, and it then sets the specified address credential and nothing else.",
 ["inputs", "histories"], "all life-cycle states x activation ages x exit epochs x signers x signature domains; all credential kinds x keys x signers; every fork",
 "No running test; upstream vectors sample single operations.",
 [EC+"phase0/block_processing.rs", EC+"deneb/block_processing.rs", EC+"capella/block_processing.rs", EC+"electra/block_processing.rs"],
 [("process_voluntary_exit", EC+"phase0/block_processing.rs"), ("process_voluntary_exit", EC+"deneb/block_processing.rs"), ("process_bls_to_execution_change", EC+"capella/block_processing.rs")])
prop("C20", "Every slot's roots and every epoch's history are recorded in place",
 "Advancing to a slot records, for every slot passed, the state root and block root at that slot's position, fills the pending state root of the last header once, and runs epoch processing exactly at epoch boundaries; advancing to the same or an earlier slot is an error. A past block root or randomness mix can be looked up exactly while it is still in the recorded window, and accumulators of old history, slashing totals and votes are reset or rotated exactly when specified.",
 ["histories"], "all sequences of slot advances over several wrap-arounds of the history vectors, for every fork and all lookups at and around the window's edges",
 "No running test; upstream sanity vectors advance a few slots.",
 [EC+"phase0/slot_processing.rs", EC+"phase0/helpers.rs", EC+"phase0/epoch_processing.rs", EC+"capella/epoch_processing.rs"],
 [("process_slots, process_slot", EC+"phase0/slot_processing.rs"), ("get_block_root_at_slot", EC+"phase0/helpers.rs"), ("process_historical_roots_update", EC+"phase0/epoch_processing.rs"), ("process_historical_summaries_update", EC+"capella/epoch_processing.rs")])
prop("C21", "Signed blocks are applied iff valid, and deterministically",
 "With validation on, a signed block is accepted exactly when the proposer's signature, every operation and the claimed post-state root are all valid for the fork, and then yields exactly the specified post-state. With validation off the same block yields the same post-state without the signature and root checks, and applying the same block to the same state always gives the same result.",
 ["histories", "inputs"], "all sequences of empty and skipped slots and blocks with chosen operations up to a bounded depth, each with every single-field mutation, for every fork",
 "No running test; upstream sanity vectors sample a few chains.",
 [EC+"phase0/state_transition.rs", EC+"bellatrix/state_transition.rs", EC+"altair/spec/mod.rs", EC+"capella/spec/mod.rs", EC+"deneb/spec/mod.rs", EC+"electra/spec/mod.rs"],
 [("state_transition", EC+"phase0/state_transition.rs"), ("state_transition", EC+"bellatrix/state_transition.rs"), ("process_block", EC+"deneb/block_processing.rs")])
prop("C22", "Sync committee participation is verified and rewarded exactly",
 "A sync aggregate is accepted exactly when its signature is that of the indicated members of the current sync committee over the previous slot's block root (or the specified empty form when nobody participates). Each participating member and the proposer are then rewarded, and each absent member penalized, by exactly the specified amounts, and committees rotate exactly at period boundaries.",
 ["inputs", "histories"], "all participation patterns of a committee over few distinct validators x good and bad signatures x slots around a period boundary, for every fork that has sync committees",
 "No running test; upstream vectors sample a few patterns.",
 [EC+"altair/block_processing.rs", EC+"altair/epoch_processing.rs"],
 [("process_sync_aggregate", EC+"altair/block_processing.rs"), ("process_sync_committee_updates", EC+"altair/epoch_processing.rs")])
prop("C23", "Execution payloads must match the beacon chain and the engine's verdict",
 "A block's execution payload is accepted exactly when its parent, randomness and timestamp match the beacon state, its blob commitments are within the limit, and the execution engine accepts it together with the versioned hashes and parent root that the fork passes on; its header, the one the payload converts to, is then recorded field by field. Before the merge is complete an empty payload is allowed and leaves no header.",
 ["inputs"], "all single-field mutations of a payload x merge status x engine verdicts x numbers of blobs, for every fork with payloads",
 "No running test.",
 [EC+"bellatrix/block_processing.rs", EC+"capella/block_processing.rs", EC+"deneb/block_processing.rs", EC+"electra/block_processing.rs", EC+"bellatrix/helpers.rs"],
 [("process_execution_payload", EC+"deneb/block_processing.rs"), ("is_execution_enabled", EC+"bellatrix/helpers.rs"), ("kzg_commitment_to_versioned_hash", EC+"deneb/helpers.rs")])
prop("C24", "Withdrawals leave the chain exactly once and in order",
 "A payload must contain exactly the withdrawals the specification expects: the queued partial withdrawals that are due, then the sweep of fully and partially withdrawable validators from the cursor, bounded as specified and numbered consecutively. Accepted withdrawals reduce exactly the named balances, and the cursors advance so that no validator is skipped or served twice in one sweep.",
 ["histories", "inputs"], "all assignments of balances, credentials and withdrawability to small registries x cursor positions x queued partial withdrawals, and sequences of sweeps, for every fork with withdrawals",
 "No running test; upstream vectors sample single sweeps.",
 [EC+"capella/block_processing.rs", EC+"electra/block_processing.rs"],
 [("get_expected_withdrawals, process_withdrawals", EC+"capella/block_processing.rs"), ("get_expected_withdrawals, process_withdrawals", EC+"electra/block_processing.rs")])
prop("C25", "Balance churn queues never exceed their per-epoch limits",
 "In the latest fork, exits and consolidations are assigned the earliest epoch whose remaining balance churn can hold them, carrying the remainder over exactly, and queued deposits and consolidations are applied in order, no earlier than allowed, within the churn limit, each exactly once. The exit and consolidation budgets are those the specification derives from the active balance.",
 ["histories"], "all sequences of exits, consolidations, queued deposits and epoch boundaries over all small balances relative to the limits",
 "No running test covers this fork at all; the upstream vectors in use stop before it.",
 [EC+"electra/helpers.rs", EC+"electra/epoch_processing.rs"],
 [("compute_exit_epoch_and_update_churn, compute_consolidation_epoch_and_update_churn", EC+"electra/helpers.rs"), ("process_pending_balance_deposits, process_pending_consolidations", EC+"electra/epoch_processing.rs")])
prop("C26", "Execution-triggered requests act only with the right credentials",
 "In the latest fork a withdrawal request, deposit receipt or consolidation has exactly the specified effect when its source address, key, credentials, balances, ages and queue space satisfy the specified conditions. Otherwise a request from the execution layer is ignored without any effect, and an invalid consolidation makes the block invalid.",
 ["inputs", "histories"], "all combinations of address, credential kind, life-cycle state, balance, amount, queued withdrawals and signatures for one and two requests in a row",
 "No running test covers this fork at all.",
 [EC+"electra/block_processing.rs", EC+"electra/helpers.rs"],
 [("process_execution_layer_withdrawal_request, process_deposit_receipt, process_consolidation", EC+"electra/block_processing.rs"), ("switch_to_compounding_validator", EC+"electra/helpers.rs")])
prop("C27", "Fork upgrades preserve the state and initialise only what is new",
 "Upgrading a state to the next fork keeps every field the two forks share, sets the fork record to the previous and new version at the current epoch, and initialises each new field as specified, translating recorded attestations into participation where the fork requires it. No validator, balance, checkpoint, root or queue is lost or duplicated across any chain of upgrades.",
 ["histories", "inputs"], "all chains of upgrades from states with every field populated, with all small patterns of recorded attestations, activation states and credentials",
 "No running test; upstream vectors sample one state per fork.",
 [EC+f+"/fork.rs" for f in FORKS[1:]], [("upgrade_to_"+f, EC+f+"/fork.rs") for f in FORKS[1:]])
prop("C28", "Chains that span forks use each fork's rules from its activation epoch",
 "Applying a sequence of blocks across fork activations upgrades the state exactly once at each scheduled epoch boundary and applies every block under the rules of the fork its slot belongs to, giving the same state as doing each step by hand. A block of the wrong fork for its slot, or older than the state, is rejected.",
 ["histories", "configurations"], "all fork schedules over a few epochs x all sequences of blocks and skipped slots (of the right or wrong fork) crossing them",
 "No running test; upstream transition vectors cross one boundary.",
 [EC+"state_transition/executor.rs", EC+"state_transition/context.rs"],
 [("Executor::apply_block", EC+"state_transition/executor.rs"), ("Context::fork_for", EC+"state_transition/context.rs")])
prop("C29", "Signing roots bind message, domain, fork version and genesis",
 "The root that is signed is the specified combination of the message root and a domain made of the domain type and the fork data of the message's epoch (previous version before the fork epoch, current version from it on). Two messages that differ in content, domain type, fork version or genesis root never have the same signing root, and a signature made through this interface verifies exactly for the same message, domain and key. What is signed for builders is bound to the genesis fork version and to no genesis root.",
 ["inputs"], "all combinations of small sets of messages, domain types, fork versions, fork epochs, message epochs and genesis roots",
 "No running test.",
 [EC+"signing.rs", EC+"phase0/helpers.rs"],
 [("compute_signing_root, verify_signed_data", EC+"signing.rs"), ("get_domain, compute_domain, compute_fork_digest", EC+"phase0/helpers.rs")])
prop("C30", "BLS operations implement the specified signature scheme",
 "A signature verifies exactly when it was made by the given key (or, aggregated, by exactly the given set of keys) over exactly the given message(s). Keys and signatures that are malformed, off the curve, outside the subgroup or the identity are rejected as specified, the empty-participation form is accepted only with the identity signature, aggregates over no keys are errors, and the debug form of a secret key shows nothing of it.",
 ["inputs"], "all key sets, message assignments, aggregates and encodings over a small ideal group",
 "The existing tests need the real curve library, which is not available; they sample a few keys.",
 [EC+"crypto/bls.rs"], [("verify_signature, aggregate_verify, fast_aggregate_verify, eth_fast_aggregate_verify, aggregate", EC+"crypto/bls.rs")])
prop("C31", "Blob commitments and their inclusion proofs are verified soundly",
 "A blob sidecar is accepted exactly when the branch it carries proves its commitment at its index in the block body named by its header. Commitments and proofs for a blob verify against that blob and against no other blob, commitment or proof, alone and in batches whose three lists have equal length.",
 ["inputs"], "all commitment lists up to the block limit x all indices x all single-node mutations of the branch; all pairings of a small set of blobs, commitments and proofs",
 "The existing test checks one live sidecar with the real library, which is not available here.",
 [EC+"deneb/blob_sidecar.rs", EC+"crypto/kzg.rs"],
 [("verify_blob_sidecar_inclusion_proof", EC+"deneb/blob_sidecar.rs"), ("verify_blob_kzg_proof_batch", EC+"crypto/kzg.rs")])
prop("C32", "Consensus objects round-trip through SSZ and JSON unchanged",
 "Every consensus object of every fork decodes from its own SSZ encoding and from its own JSON form to an equal object with the same root, with the field order, names and number forms of the published interfaces. Encodings that are truncated, extended or exceed a limit are rejected.",
 ["inputs"], "all containers of all forks x shapes of their variable-size fields (empty, one, limit, over the limit) x single-field variations x truncations",
 "One test round-trips one default block and it does not run here.",
 [EC+"phase0/beacon_block.rs", EC+"altair/beacon_block.rs", EC+"deneb/beacon_block.rs", EC+"electra/beacon_block.rs", EC+"electra/beacon_state.rs", EC+"ssz/byte_list.rs", EC+"ssz/byte_vector.rs"],
 [("derive(SimpleSerialize, Serialize, Deserialize)", EC+"phase0/beacon_state.rs"), ("ByteVector, ByteList", EC+"ssz/byte_vector.rs")])
prop("C33", "Fork-spanning types expose exactly the wrapped object",
 "A fork-spanning block, body, payload, header or state reports the fork of the object it wraps, reads and writes through to that object's own fields, reports a field as absent exactly when the fork lacks it, and has the wrapped object's root and encodings. Deserializing a document that belongs to one fork never yields an object of another fork when the forks' forms differ.",
 ["inputs"], "all fork-spanning types x all variants x all accessors, shared and mutable",
 "No running test.",
 [EC+"types/"+f for f in ("beacon_state.rs", "beacon_block.rs", "beacon_block_body.rs", "signed_beacon_block.rs", "blinded_beacon_block.rs", "blinded_beacon_block_body.rs", "signed_blinded_beacon_block.rs", "execution_payload.rs", "execution_payload_header.rs")],
 [("accessors of the fork-spanning enums", EC+"types/beacon_state.rs")])
prop("C34", "Genesis is reproducible from the deposit log and triggers when specified",
 "For every fork, building genesis from an eth1 block and its deposits gives exactly the state the specification defines: time, fork, deposits applied against their incremental root, validators active at genesis exactly at the full effective balance, and the validators root. A state is a valid genesis exactly when its time and its number of active validators reach the configured minimums.",
 ["inputs", "histories"], "all short deposit sequences (amounts, repeated keys, bad signatures) x timestamps x thresholds, for every fork",
 "No running test; upstream vectors sample a few logs.",
 [EC+"phase0/genesis.rs", EC+"altair/genesis.rs", EC+"bellatrix/genesis.rs", EC+"capella/genesis.rs", EC+"deneb/genesis.rs", EC+"electra/genesis.rs"],
 [("initialize_beacon_state_from_eth1, is_valid_genesis_state", EC+"phase0/genesis.rs")])
prop("C35", "Peer identities parse exactly the valid encodings and round-trip",
 "A peer identity is accepted exactly when its bytes are a multihash of one of the two permitted kinds (SHA-256, or identity of at most the permitted length), and its text and byte forms each parse back to the same identity. Anything else is rejected without a panic.",
 ["inputs"], "all hash codes around the permitted ones x digest lengths x truncations and extensions x text alphabets",
 "No running test.",
 [EC+"networking.rs"], [("PeerId::from_multihash, from_bytes, to_base58", EC+"networking.rs")])
prop("C36", "Each named network resolves to its own complete published configuration",
 "Every supported network name resolves to a configuration whose constants, fork versions, fork schedule, genesis time and clock are those published for that network, and two networks never share a fork version. Fork lookups by slot are monotone and agree with the schedule at every boundary, and a network's text form parses back to that network. The constants the modules export (presets, weights, limits of the network layer, light-client indices) have their published values.",
 ["configurations", "inputs"], "all networks x all configuration fields x all slots at and around each fork boundary, for all small fork schedules",
 "No running test.",
 [EC+"state_transition/context.rs", EC+"networks.rs", EC+"clock.rs"] + [EC+"configs/"+n+".rs" for n in ("mainnet", "minimal", "goerli", "sepolia", "holesky", "hoodi")],
 [("Context::for_mainnet, for_hoodi, fork_for, genesis_time, clock", EC+"state_transition/context.rs"), ("Network", EC+"networks.rs")])
prop("C37", "A configuration file determines the context it describes",
 "Loading a configuration file sets every parameter it names to the value in the file, takes every preset parameter from the preset the file names, and combines the named network or custom location with it. A file that is missing, malformed, or names an unknown preset is reported as an error.",
 ["configurations"], "all single-parameter changes of a configuration file, omissions of each line, and presets",
 "No running test.",
 [EC+"state_transition/context.rs", EC+"configs/mod.rs"], [("Context::try_from_file, Context::from", EC+"state_transition/context.rs")])
prop("C38", "Validator keys are derived from the seed along the standard path",
 "For every seed and index, the signing and withdrawal keys are those EIP-2333 and EIP-2334 derive at m/12381/3600/i/0/0 and m/12381/3600/i/0, whatever range of indices is requested at once and in the order requested. Keys at different indices or paths differ.",
 ["inputs", "schedules"], "all (start, count) ranges up to a bound x seeds, whatever the parallel schedule of the derivation",
 "No test covers this module.",
 [EC+"bin/ec/validator/keys.rs"], [("generate", EC+"bin/ec/validator/keys.rs")])
prop("C39", "Keystores decrypt only with their passphrase and to the same key",
 "Each generated keystore is a well-formed EIP-2335 document for one signing key that any conforming implementation decrypts, with the generated passphrase, to exactly that key, and for which every other passphrase fails the checksum. Keystores are paired with the public key and path of their key, in order, and no two share a salt, initialisation vector or identifier.",
 ["inputs"], "all small lists of keys x patterns of the random source x every other passphrase within one edit x single-bit mutations of the stored fields",
 "No test covers this module.",
 [EC+"bin/ec/validator/keystores.rs"], [("generate", EC+"bin/ec/validator/keystores.rs")])
prop("C40", "Data packed into blobs unpacks to the same data",
 "Data of every length that fits, packed into blobs with size framing, unpacks to exactly the original data, and every packed field element is a canonical scalar. Data too large for its framing or malformed framing is reported as an error, never as truncated or invented data or a panic.",
 ["inputs"], "all lengths around every word, field-element and blob boundary x byte patterns x framings x all headers",
 "No test covers this module.",
 [EC+"bin/ec/blobs/encode.rs", EC+"bin/ec/blobs/decode.rs", EC+"bin/ec/blobs/framing.rs", EC+"bin/ec/blobs/bundler.rs"],
 [("pack_into_blobs", EC+"bin/ec/blobs/encode.rs"), ("unpack_from_blobs", EC+"bin/ec/blobs/decode.rs"), ("payload_from_sized", EC+"bin/ec/blobs/framing.rs")])
prop("C41", "Beacon API calls send the request the standard prescribes",
 "Each client call sends one request with the standard's method, path, query and body for its arguments, relative to the configured endpoint whatever base path that has, with identifiers in their standard text forms and multi-valued parameters as specified.",
 ["inputs", "configurations"], "all client calls x all forms of each argument (each identifier kind, empty and several elements, each option) x endpoint forms",
 "The repository has no test of the client.",
 ["beacon-api-client/src/api_client.rs", "beacon-api-client/src/types.rs"], [("Client methods", "beacon-api-client/src/api_client.rs")])
prop("C42", "Beacon API replies are returned faithfully and errors never pass as data",
 "For each client call, a well-formed success reply yields exactly the data it carries, and an error reply (any error status, with the standard error document, with per-item failures, or with an unexpected body) yields an error carrying the reported code and message. Replies that do not match the expected form are errors, and health and sync status follow the status code.",
 ["inputs", "fault_sequences"], "all client calls x all classes of status code x body forms (expected, error document, indexed errors, truncated, wrong shape, empty)",
 "The repository has no test of the client.",
 ["beacon-api-client/src/api_client.rs", "beacon-api-client/src/api_error.rs"], [("Client::get / post, api_error_or_ok", "beacon-api-client/src/api_client.rs")])
prop("C43", "Beacon API identifiers and documents keep their standard text forms",
 "Every state, block, validator, event-topic and status identifier renders in the standard's text form and parses back to an equal value, text that is no standard form is rejected, and every request or reply document serializes with the standard's field names and reads back equal.",
 ["inputs"], "all identifier kinds x boundary values x single-edit mutations of their text; all documents x field variations",
 "The repository has no test of these types.",
 ["beacon-api-client/src/types.rs", "beacon-api-client/src/serde.rs"], [("StateId, BlockId, PublicKeyOrIndex, ValidatorStatus, Value, VersionedValue", "beacon-api-client/src/types.rs")])
prop("C44", "Invalid blocks and operations are rejected, never crash the node",
 "Whatever the values in a block or operation received from the network, applying it to a valid state, or asking who attested by it or whether its signatures hold, either succeeds or returns an error; it never panics, overflows or indexes out of range, and neither does the chain in the epochs after one that was accepted. This holds for extreme integer values, out-of-range indices, lists empty, short or filled to their limits, and malformed keys and signatures in every field.",
 ["inputs"], "all operations of all forks x every field set to each extreme value, singly and in pairs",
 "No running test; upstream vectors rarely use extreme values.",
 [EC+"phase0/block_processing.rs", EC+"phase0/helpers.rs", EC+"altair/block_processing.rs", EC+"capella/block_processing.rs", EC+"deneb/block_processing.rs", EC+"electra/block_processing.rs"],
 [("process_operations", EC+"phase0/block_processing.rs"), ("process_operations", EC+"electra/block_processing.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
