//! The text forms of identifiers, and the documents built by hand against those read.
use crate::calls::*;
use crate::docs;
use crate::docs::*;
use beacon_api_client::*;
use ethereum_consensus::{
    altair, builder, capella, phase0,
    primitives::{BlsPublicKey, ExecutionAddress, Root},
};
use mc::{guard, Run};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value as J};
use std::{collections::BTreeMap, fmt::Debug};

/// Every text one edit away: a character left out, put in, exchanged, in the other case, or two in
/// turn.
fn edits(s: &str, alphabet: &[char]) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let text = |v: Vec<char>| v.into_iter().collect::<String>();
    let mut out = vec![s.to_uppercase(), s.repeat(2), String::new()];
    for i in 0..=c.len() {
        for a in alphabet {
            let mut v = c.clone();
            v.insert(i, *a);
            out.push(text(v));
            if i < c.len() {
                let mut v = c.clone();
                v[i] = *a;
                out.push(text(v));
            }
        }
        if i < c.len() {
            let mut v = c.clone();
            v.remove(i);
            out.push(text(v));
            let mut v = c.clone();
            v[i] = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
            out.push(text(v));
        }
        if i + 1 < c.len() {
            let mut v = c.clone();
            v.swap(i, i + 1);
            out.push(text(v));
        }
    }
    out.retain(|t| t != s);
    out.sort();
    out.dedup();
    out
}
const ALPHABET: [char; 22] = ['0', '1', '9', 'a', 'f', 'g', 'x', 'X', 'A', 'F', 'h', 'd', '-', '+', '_', '.', ' ', '\n', '\0', '"', 'é', '/'];

#[derive(Debug, PartialEq, Eq, Clone)]
enum Id {
    Name(&'static str),
    Slot(u64),
    Root(Vec<u8>),
}
/// What a text names by the standard; for texts of no form of it, what a lenient reader may take
/// it for.
fn standard(s: &str, names: &[&'static str]) -> (Option<Id>, Option<Id>) {
    if let Some(n) = names.iter().find(|n| **n == s) {
        return (Some(Id::Name(n)), None)
    }
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if digits(s) {
        if let Ok(n) = s.parse::<u128>() {
            if let Ok(n) = u64::try_from(n) {
                return (Some(Id::Slot(n)), None)
            }
        }
    }
    let bytes = |h: &str| {
        (h.len() == 64 && h.bytes().all(|b| b.is_ascii_hexdigit()))
            .then(|| (0..32).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>())
    };
    if let Some(b) = s.strip_prefix("0x").and_then(bytes) {
        return (Some(Id::Root(b)), None)
    }
    if let Some(d) = s.strip_prefix('+') {
        if digits(d) {
            return (None, d.parse().ok().map(Id::Slot))
        }
    }
    (None, bytes(s).map(Id::Root))
}
fn id_of(s: &StateId) -> Id {
    match s {
        StateId::Head => Id::Name("head"),
        StateId::Genesis => Id::Name("genesis"),
        StateId::Finalized => Id::Name("finalized"),
        StateId::Justified => Id::Name("justified"),
        StateId::Slot(n) => Id::Slot(*n),
        StateId::Root(r) => Id::Root(AsRef::<[u8]>::as_ref(r).to_vec()),
    }
}
fn block_id_of(s: &BlockId) -> Id {
    match s {
        BlockId::Head => Id::Name("head"),
        BlockId::Genesis => Id::Name("genesis"),
        BlockId::Finalized => Id::Name("finalized"),
        BlockId::Slot(n) => Id::Slot(*n),
        BlockId::Root(r) => Id::Root(AsRef::<[u8]>::as_ref(r).to_vec()),
    }
}
const STATE_NAMES: [&str; 4] = ["head", "genesis", "finalized", "justified"];

fn numbers_to_try() -> Vec<u64> {
    let mut v: Vec<u64> = (0..64).flat_map(|k| [1u64 << k, (1 << k) - 1, (1 << k) + 1]).collect();
    v.extend((0..20).flat_map(|k| [10u64.pow(k), 10u64.pow(k) - 1, 10u64.pow(k) + 1]));
    v.extend([u64::MAX, u64::MAX - 1]);
    v.sort();
    v.dedup();
    v
}
fn roots_to_try() -> Vec<Vec<u8>> {
    let mut v = vec![vec![0; 32], vec![0xff; 32], (0..32).collect(), (0..32u32).map(|i| (i * 7 + 0x81) as u8).collect()];
    for i in 0..32 {
        for b in [0x01, 0x10, 0xa0, 0x0a] {
            let mut r = vec![0; 32];
            r[i] = b;
            v.push(r);
        }
    }
    v
}
fn hexed(b: &[u8]) -> String {
    format!("0x{}", b.iter().map(|b| format!("{b:02x}")).collect::<String>())
}

fn identifiers(run: &Run) {
    let mut texts: Vec<(String, Id)> = STATE_NAMES.iter().map(|n| (n.to_string(), Id::Name(n))).collect();
    texts.extend(numbers_to_try().into_iter().map(|n| (n.to_string(), Id::Slot(n))));
    texts.extend(roots_to_try().into_iter().map(|r| (hexed(&r), Id::Root(r))));
    for (text, id) in &texts {
        run.state();
        let (state, block) = match id {
            Id::Name("head") => (StateId::Head, Some(BlockId::Head)),
            Id::Name("genesis") => (StateId::Genesis, Some(BlockId::Genesis)),
            Id::Name("finalized") => (StateId::Finalized, Some(BlockId::Finalized)),
            Id::Name(_) => (StateId::Justified, None),
            Id::Slot(n) => (StateId::Slot(*n), Some(BlockId::Slot(*n))),
            Id::Root(r) => (StateId::Root(Root::try_from(r.as_slice()).unwrap()), Some(BlockId::Root(Root::try_from(r.as_slice()).unwrap()))),
        };
        run.transitions(4);
        run.eq(|| format!("state {id:?} as text"), text, &state.to_string());
        run.eq(|| format!("state {id:?} as JSON and back"), &Some(id.clone()), &guard(|| serde_json::from_str::<StateId>(&serde_json::to_string(&state).unwrap()).map(|s| id_of(&s)).ok()).unwrap_or(None));
        if let Some(block) = block {
            run.eq(|| format!("block {id:?} as text"), text, &block.to_string());
            run.eq(|| format!("block {id:?} as JSON and back"), &Some(id.clone()), &guard(|| serde_json::from_str::<BlockId>(&serde_json::to_string(&block).unwrap()).map(|s| block_id_of(&s)).ok()).unwrap_or(None));
        }
        if let Id::Slot(n) = id {
            run.transition();
            run.eq(|| format!("validator {n} as text"), text, &PublicKeyOrIndex::from(*n as usize).to_string());
        }
    }
    for n in 0..64 {
        let text = pk(n);
        let key: BlsPublicKey = read(&json!(text));
        run.state();
        run.transition();
        run.eq(|| format!("validator {text} as text"), &text, &PublicKeyOrIndex::from(key).to_string());
    }
    // reading texts
    let mut all: Vec<String> = texts.iter().map(|t| t.0.clone()).collect();
    let bases: Vec<String> = texts.iter().map(|t| t.0.clone()).filter(|t| run.thorough || t.len() < 66 || texts.iter().filter(|u| u.0.len() == 66).position(|u| u.0 == *t).unwrap() < 6).collect();
    for b in &bases {
        all.extend(edits(b, &ALPHABET));
    }
    for t in ["earliest", "latest", "safe", "HEAD", "Head", "slot", "0x", "0x0", "18446744073709551616", "340282366920938463463374607431768211456", "0x00", "-0", "1e3", "0b1", "0o7", "1_000", "null"] {
        all.push(t.into());
    }
    let mut digits64 = String::from("1");
    digits64.push_str(&"0".repeat(63));
    all.push(digits64);
    all.sort();
    all.dedup();
    mc::parallel(&all, |t| {
        run.state();
        run.transition();
        let (want, lenient) = standard(t, &STATE_NAMES);
        let got = guard(|| t.parse::<StateId>().ok().map(|s| id_of(&s)));
        match got {
            Ok(got) => {
                if got != want && !(want.is_none() && got == lenient) {
                    run.fail(format!("state identifier {t:?}"), || format!("expected {want:?}\n  got {got:?}"));
                }
            }
            Err(e) => run.fail(format!("state identifier {t:?}"), || format!("expected {want:?}\n  crash {e}")),
        }
    });
    run.bound(format!("identifiers: {} values, each also as block and validator identifier; {} texts read: those and every text one edit away", texts.len(), all.len()));
    run.part("identifiers");
}

/// The names of an enumeration: how each value is shown, written in JSON and read.
fn names<T: Serialize + DeserializeOwned + Debug>(run: &Run, what: &str, values: &[(T, &str)], show: impl Fn(&T) -> Option<String>) {
    let all: Vec<&str> = values.iter().map(|v| v.1).collect();
    let read = |t: &str| guard(|| serde_json::from_value::<T>(json!(t)).ok().map(|v| format!("{v:?}"))).unwrap_or_else(|e| Some(format!("crash {e}")));
    for (v, name) in values {
        run.state();
        run.transitions(3);
        if let Some(shown) = show(v) {
            run.eq(|| format!("{what} {v:?} as text"), &name.to_string(), &shown);
        }
        run.eq(|| format!("{what} {v:?} as JSON"), &Some(json!(name)), &serde_json::to_value(v).ok());
        run.eq(|| format!("{what} {name} read"), &Some(format!("{v:?}")), &read(name));
        for t in edits(name, &ALPHABET) {
            if all.contains(&t.as_str()) {
                continue
            }
            run.state();
            run.transition();
            run.eq(|| format!("{what} {t:?} read"), &None, &read(&t));
        }
        for other in [json!(0), json!(null), json!([name]), json!({*name: null, "x": null})] {
            run.state();
            run.transition();
            run.eq(|| format!("{what} {other} read"), &false, &guard(|| serde_json::from_value::<T>(other.clone()).is_ok()).unwrap_or(true));
        }
    }
}

fn enumerations(run: &Run) {
    let statuses: Vec<_> = VALIDATOR_STATUSES.into_iter().zip(STATUSES).collect();
    names(run, "validator status", &statuses, |v| Some(v.to_string()));
    let broadcasts: Vec<_> = broadcasts().into_iter().map(|b| (b.1, b.0)).collect();
    names(run, "broadcast validation", &broadcasts, |v| Some(v.to_string()));
    names(run, "peer state", &peer_states().into_iter().zip(PEER_STATES).collect::<Vec<_>>(), |v| Some(v.to_string()));
    names(run, "connection orientation", &directions().into_iter().zip(DIRECTIONS).collect::<Vec<_>>(), |v| Some(v.to_string()));
    names(run, "fork", &FORKS.into_iter().zip(FORK_NAMES).collect::<Vec<_>>(), |v| Some(v.to_string()));
    run.state();
    run.eq(|| "topic".into(), &"payload_attributes", &PayloadAttributesTopic::NAME);
    run.eq(|| "header".into(), &"eth-consensus-version", &CONSENSUS_VERSION_HEADER.to_lowercase().as_str());
    run.eq(|| "other header".into(), &"eth-consensus-version", &ETH_CONSENSUS_VERSION_HEADER.to_lowercase().as_str());
    run.bound("enumerations: every value of validator statuses, broadcast validations, peer states, connection orientations and forks, and every text one edit away from a name");
    run.part("enumerations");
}

/// A document: what it is built from by hand, and read from its standard form.
fn document<T: Serialize + DeserializeOwned>(run: &Run, what: &str, doc: J, native: Option<T>) {
    run.state();
    run.transitions(3);
    if let Some(t) = native {
        run.eq(|| format!("{what} written"), &Ok(doc.clone()), &guard(|| serde_json::to_value(&t).unwrap()));
        // by name, in whatever order of the fields
        run.eq(|| format!("{what} written as text and read"), &Ok(doc.clone()), &guard(|| serde_json::to_value(serde_json::from_str::<T>(&serde_json::to_string(&t).unwrap()).unwrap()).unwrap()));
    }
    run.eq(|| format!("{what} read"), &Ok(doc.clone()), &guard(|| serde_json::to_value(serde_json::from_value::<T>(doc.clone()).map_err(|e| e.to_string()).unwrap()).unwrap()));
    // fields of later versions of the standard do not matter
    if let J::Object(o) = &doc {
        let mut more = o.clone();
        more.insert("a_field_to_come".into(), json!({"x": []}));
        run.transition();
        let r = guard(|| serde_json::from_value::<T>(J::Object(more)).is_ok());
        run.eq(|| format!("{what} with a field to come"), &Ok(true), &r);
    }
}
fn b<T: DeserializeOwned>(s: String) -> T {
    read(&json!(s))
}
fn r(n: u64) -> Root {
    b(root(n))
}
fn address(n: u64) -> ExecutionAddress {
    b(addr(n))
}
fn seq(v: V, i: u64) -> Vec<usize> {
    (0..v.len() as u64).map(|k| v.n(i + k * 100) as usize).collect()
}
fn each<T>(v: V, f: impl Fn(u64) -> T) -> Vec<T> {
    (0..v.len() as u64).map(|i| f(i * 100)).collect()
}
fn n_checkpoint(v: V, i: u64) -> phase0::Checkpoint {
    phase0::Checkpoint { epoch: v.n(i), root: r(i) }
}
fn n_header(v: V, i: u64) -> phase0::SignedBeaconBlockHeader {
    phase0::SignedBeaconBlockHeader {
        message: phase0::BeaconBlockHeader { slot: v.n(i), proposer_index: v.n(i + 1) as usize, parent_root: r(i), state_root: r(i + 1), body_root: r(i + 2) },
        signature: b(sig(i)),
    }
}
fn n_withdrawal(v: V, i: u64) -> capella::Withdrawal {
    capella::Withdrawal { index: v.n(i) as _, validator_index: v.n(i + 1) as usize, address: address(i), amount: v.n(i + 2) }
}

fn documents(run: &Run) {
    for v in VARIANTS {
        let d = |what: &str| format!("{what} {v:?}");
        document(run, &d("genesis"), genesis(v), Some(GenesisDetails { genesis_time: v.n(0), genesis_validators_root: r(1), genesis_fork_version: [hexbyte(2, 0), hexbyte(2, 1), hexbyte(2, 2), hexbyte(2, 3)] }));
        document(run, &d("root"), json!({"root": root(4)}), Some(RootData { root: r(4) }));
        document(run, &d("randao"), json!({"randao": root(4)}), Some(RandaoData { randao: b(root(4)) }));
        document(run, &d("version"), json!({"version": "a/1 \"q\""}), Some(VersionData { version: "a/1 \"q\"".into() }));
        document(run, &d("deposit contract"), contract(v), Some(DepositContract { chain_id: v.n(0) as _, address: address(0) }));
        document(
            run,
            &d("deposit snapshot"),
            snapshot(v),
            Some(DepositSnapshot { finalized: each(v, |i| b(root(i))), deposit_root: b(root(1)), deposit_count: v.n(1), execution_block_hash: b(root(2)), execution_block_height: v.n(2) }),
        );
        document(run, &d("finality checkpoints"), finality(v), Some(FinalityCheckpoints { previous_justified: n_checkpoint(v, 0), current_justified: n_checkpoint(v, 1), finalized: n_checkpoint(v, 2) }));
        document(
            run,
            &d("fork"),
            docs::fork(v, 0),
            Some(phase0::Fork { previous_version: [hexbyte(0, 0), hexbyte(0, 1), hexbyte(0, 2), hexbyte(0, 3)], current_version: [hexbyte(1, 0), hexbyte(1, 1), hexbyte(1, 2), hexbyte(1, 3)], epoch: v.n(0) }),
        );
        for k in 0..9u64 {
            let i = k * 100;
            document(
                run,
                &d(&format!("validator {k}")),
                docs::validator(v, i),
                Some(ValidatorSummary {
                    index: v.n(i) as usize,
                    balance: v.n(i + 1),
                    status: VALIDATOR_STATUSES[k as usize],
                    validator: phase0::Validator {
                        public_key: b(pk(i)),
                        withdrawal_credentials: b(root(i)),
                        effective_balance: v.n(i + 2),
                        slashed: v.flag(),
                        activation_eligibility_epoch: v.n(i + 3),
                        activation_epoch: v.n(i + 4),
                        exit_epoch: v.n(i + 5),
                        withdrawable_epoch: v.n(i + 6),
                    },
                }),
            );
        }
        document(run, &d("balance"), docs::balance(v, 0), Some(BalanceSummary { index: v.n(0) as usize, balance: v.n(1) }));
        document(run, &d("committee"), docs::committee(v, 0), Some(CommitteeSummary { index: v.n(0) as usize, slot: v.n(1), validators: Committee(seq(v, 2)) }));
        document(run, &d("sync committees"), docs::sync_committee(v), Some(SyncCommitteeSummary { validators: seq(v, 0), validator_aggregates: each(v, |i| Committee(seq(v, i + 1))) }));
        document(run, &d("header"), docs::header(v, 3), Some(BeaconHeaderSummary { root: r(3), canonical: v.flag(), header: n_header(v, 3) }));
        document(
            run,
            &d("identity"),
            identity(v),
            Some(NetworkIdentity {
                peer_id: b(PEERS[0].into()),
                enr: b("enr:-IS4QHCYrYZbAKWCBRlAy5zzaDZXJBGkcnh4MHcBFZntXNFrdvJjX04jRzjz".into()),
                p2p_addresses: each(v, |i| b(ADDRS[(i / 100) as usize % 2].into())),
                discovery_addresses: each(v, |i| b(ADDRS[(i / 100 + 1) as usize % 2].into())),
                metadata: altair::networking::MetaData { seq_number: v.n(0), attnets: b(META_ATTNETS.into()), syncnets: b("0x0f".into()) },
            }),
        );
        for k in 0..4u64 {
            document(
                run,
                &d(&format!("peer {k}")),
                docs::peer(v, k * 100),
                Some(PeerDescription {
                    peer_id: b(PEERS[k as usize % 2].into()),
                    enr: b("enr:-abc".into()),
                    last_seen_p2p_address: b(ADDRS[k as usize % 2].into()),
                    state: peer_states().into_iter().nth(k as usize).unwrap(),
                    direction: directions().into_iter().nth(k as usize % 2).unwrap(),
                }),
            );
        }
        document(run, &d("peer count"), docs::peer_count(v), Some(PeerSummary { disconnected: v.n(0) as usize, connecting: v.n(1) as usize, connected: v.n(2) as usize, disconnecting: v.n(3) as usize }));
        document(run, &d("sync status"), syncing(v), Some(SyncStatus { head_slot: v.n(0), sync_distance: v.n(1) as usize, is_syncing: v.flag() }));
        document(
            run,
            &d("attester duty"),
            attester_duty(v, 0),
            Some(AttestationDuty {
                public_key: b(pk(0)),
                validator_index: v.n(0) as usize,
                committee_index: v.n(1) as usize,
                committee_length: v.n(2) as usize,
                committees_at_slot: v.n(3) as usize,
                validator_committee_index: v.n(4) as usize,
                slot: v.n(5),
            }),
        );
        document(run, &d("proposer duty"), proposer_duty(v, 0), Some(ProposerDuty { public_key: b(pk(0)), validator_index: v.n(0) as usize, slot: v.n(1) }));
        document(run, &d("sync duty"), sync_duty(v, 0), Some(SyncCommitteeDuty { public_key: b(pk(0)), validator_index: v.n(0) as usize, validator_sync_committee_indices: seq(v, 1) }));
        document(
            run,
            &d("committee subscription"),
            committee_subscription(v, 0),
            Some(CommitteeDescriptor { validator_index: v.n(0) as usize, committee_index: v.n(1) as usize, committees_at_slot: v.n(2) as usize, slot: v.n(3), is_aggregator: v.flag() }),
        );
        document(run, &d("sync subscription"), sync_subscription(v, 0), Some(SyncCommitteeDescriptor { validator_index: v.n(0) as usize, sync_committee_indices: seq(v, 1), until_epoch: v.n(9) }));
        document(run, &d("preparation"), preparation(v, 0), Some(BeaconProposerRegistration { validator_index: v.n(0) as usize, fee_recipient: address(0) }));
        document::<ValidatorLiveness>(run, &d("liveness"), liveness(v, 0), None);
        document(
            run,
            &d("registration"),
            registration(v, 0),
            Some(builder::SignedValidatorRegistration {
                message: builder::ValidatorRegistration { fee_recipient: address(0), gas_limit: v.n(0), timestamp: v.n(1), public_key: b(pk(0)) },
                signature: b(sig(0)),
            }),
        );
        document(run, &d("withdrawal"), withdrawal(v, 0), Some(n_withdrawal(v, 0)));
        document(run, &d("exit"), exit(v, 0), Some(phase0::SignedVoluntaryExit { message: phase0::VoluntaryExit { epoch: v.n(0), validator_index: v.n(1) as usize }, signature: b(sig(0)) }));
        document(
            run,
            &d("key change"),
            change(v, 0),
            Some(capella::SignedBlsToExecutionChange {
                message: capella::BlsToExecutionChange { validator_index: v.n(0) as usize, from_bls_public_key: b(pk(0)), to_execution_address: address(0) },
                signature: b(sig(0)),
            }),
        );
        document(run, &d("sync message"), sync_message(v, 0), Some(altair::SyncCommitteeMessage { slot: v.n(0), beacon_block_root: r(0), validator_index: v.n(1) as usize, signature: b(sig(0)) }));
        document(
            run,
            &d("attestation data"),
            attestation_data(v, 0),
            Some(phase0::AttestationData { slot: v.n(0), index: v.n(1) as usize, beacon_block_root: r(0), source: n_checkpoint(v, 0), target: n_checkpoint(v, 1) }),
        );
        document(run, &d("proposer slashing"), proposer_slashing(v, 0), Some(phase0::ProposerSlashing { signed_header_1: n_header(v, 0), signed_header_2: n_header(v, 1) }));
        for f in 0..6 {
            let e = payload_attributes_event(v, f);
            document(
                run,
                &d(&format!("payload attributes {}", FORK_NAMES[f])),
                e,
                Some(PayloadAttributesEvent {
                    proposer_index: v.n(0) as usize,
                    proposal_slot: v.n(1),
                    parent_block_number: v.n(2),
                    parent_block_root: r(1),
                    parent_block_hash: b(root(2)),
                    payload_attributes: PayloadAttributes {
                        timestamp: v.n(3),
                        prev_randao: r(3),
                        suggested_fee_recipient: address(3),
                        withdrawals: (f >= 3).then(|| each(v, |i| n_withdrawal(v, i))),
                        parent_beacon_block_root: (f >= 4).then(|| r(4)),
                    },
                }),
            );
        }
        // a list keeps its length and order
        for k in 0..4u64 {
            let l: Vec<J> = (0..k).map(|i| docs::balance(v, i)).collect();
            document(run, &d(&format!("{k} balances")), json!(l), Some((0..k).map(|i| BalanceSummary { index: v.n(i) as usize, balance: v.n(i + 1) }).collect::<Vec<_>>()));
        }
        // what is beside the coordinates of a head, any
        for meta in metas() {
            let mut doc = json!({"slot": v.num(0), "root": root(0)});
            for (k, w) in &meta {
                doc[k] = w.clone();
            }
            run.state();
            run.transition();
            run.eq(|| d(&format!("head {doc}")), &Ok(doc.clone()), &guard(|| serde_json::to_value(read::<CoordinateWithMetadata>(&doc)).unwrap()));
        }
    }
    // the body of a submission
    for (pn, proofs) in [(None, None), (Some(0), Some(0)), (Some(1), Some(1)), (Some(3), Some(2))] as [(Option<u64>, Option<u64>); 4] {
        let p: Option<Vec<_>> = pn.map(|n| (0..n).map(|i| b(pk(i))).collect());
        let bl: Option<Vec<J>> = proofs.map(|n| (0..n).map(|i| json!({"blob": i})).collect());
        let block = json!({"message": 1});
        let s = SubmitSignedBeaconBlock { signed_block: &block, kzg_proofs: p.as_deref(), blobs: bl.as_deref() };
        let got = guard(|| serde_json::to_value(&s).unwrap());
        run.state();
        run.transition();
        if let Some(n) = pn {
            let want = json!({"signed_block": block, "kzg_proofs": (0..n).map(pk).collect::<Vec<_>>(), "blobs": bl});
            run.eq(|| format!("submission {pn:?}"), &Ok(want), &got);
        } else if got.is_err() {
            run.fail("submission without blobs", || format!("{got:?}"));
        }
    }
    run.bound(format!("documents: every request and reply document in {} variants of its numbers, flags and list lengths, built field by field and read", VARIANTS.len()));
    run.part("documents");
}
fn hexbyte(n: u64, i: usize) -> u8 {
    u8::from_str_radix(&hex(n, 4)[2 + 2 * i..4 + 2 * i], 16).unwrap()
}

/// Metadata beside the data of a reply.
fn metas() -> Vec<BTreeMap<&'static str, J>> {
    let entries: Vec<(&'static str, J)> = vec![
        ("execution_optimistic", json!(true)),
        ("finalized", json!(false)),
        ("dependent_root", json!(root(9))),
        ("null", json!(null)),
        ("number", json!(18446744073709551615u64)),
        ("nested", json!({"data": {"version": "x"}, "list": [1, "2", null]})),
    ];
    (0..1 << entries.len()).map(|m| entries.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, e)| e.clone()).collect()).collect()
}

fn wrappers(run: &Run) {
    let data = [json!("text"), json!(null), json!([]), json!({}), json!({"data": 1, "version": "deneb", "code": 404, "message": "x"}), json!([[1], {"x": "0x"}])];
    for meta in metas() {
        for d in &data {
            run.state();
            run.transitions(3);
            let m: std::collections::HashMap<String, J> = meta.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let mut doc = json!({"data": d});
            for (k, w) in &meta {
                doc[k] = w.clone();
            }
            run.eq(|| format!("reply {doc} written"), &doc, &serde_json::to_value(Value { data: d.clone(), meta: m.clone() }).unwrap());
            let got = serde_json::from_value::<Value<J>>(doc.clone()).map(|v| (v.data, v.meta)).ok();
            run.eq(|| format!("reply {doc} read"), &Some((d.clone(), m.clone())), &got);
            // as the result of a call
            let got = serde_json::from_value::<ApiResult<Value<J>>>(doc.clone()).ok().map(|v| match v {
                ApiResult::Ok(v) => Some((v.data, v.meta)),
                ApiResult::Err(_) => None,
            });
            run.eq(|| format!("result {doc} read"), &Some(Some((d.clone(), m.clone()))), &got);
            for (fork, name) in FORKS.into_iter().zip(FORK_NAMES) {
                run.state();
                run.transitions(2);
                let mut doc = doc.clone();
                doc["version"] = json!(name);
                run.eq(|| format!("versioned reply {doc} written"), &doc, &serde_json::to_value(VersionedValue { version: fork, data: d.clone(), meta: m.clone() }).unwrap());
                let got = serde_json::from_value::<VersionedValue<J>>(doc.clone()).map(|v| (v.version, v.data, v.meta)).ok();
                run.eq(|| format!("versioned reply {doc} read"), &Some((fork, d.clone(), m.clone())), &got);
            }
        }
    }
    for doc in [json!({}), json!({"version": "deneb"}), json!({"Data": 1, "version": "deneb"}), json!(null), json!("data"), json!(1)] {
        run.state();
        run.transitions(2);
        run.eq(|| format!("reply {doc} read"), &false, &serde_json::from_value::<Value<String>>(doc.clone()).is_ok());
        run.eq(|| format!("versioned reply {doc} read"), &false, &serde_json::from_value::<VersionedValue<String>>(doc.clone()).is_ok());
    }
    for version in [json!(null), json!(""), json!("frontier"), json!("Deneb"), json!(4), json!("deneb ")] {
        run.state();
        run.transition();
        let doc = json!({"data": "x", "version": version});
        run.eq(|| format!("versioned reply {doc} read"), &false, &serde_json::from_value::<VersionedValue<String>>(doc.clone()).is_ok());
    }
    // errors
    for code in 0..=1100u32 {
        run.state();
        run.transitions(4);
        let valid = (100..1000).contains(&code);
        let doc = json!({"code": code, "message": "why"});
        let read = serde_json::from_value::<ApiError>(doc.clone()).ok().map(|e| (e.to_string(), serde_json::to_value(&e).unwrap()));
        run.eq(|| format!("error {doc} read"), &valid.then(|| ("why".to_string(), doc.clone())), &read);
        let made = u16::try_from(code).ok().and_then(|c| ApiError::try_from((c, "why")).ok()).map(|e| serde_json::to_value(&e).unwrap());
        run.eq(|| format!("error {code} made"), &valid.then(|| doc.clone()), &made);
        let result: ApiResult<Value<J>> = match serde_json::from_value(doc.clone()) {
            Ok(r) => r,
            Err(_) => {
                run.eq(|| format!("result {doc} read"), &false, &valid);
                continue
            }
        };
        run.eq(|| format!("result {doc} read"), &(valid, false), &(matches!(&result, ApiResult::Err(ApiError::ErrorMessage { code: c, message }) if c.as_u16() as u32 == code && message == "why"), matches!(result, ApiResult::Ok(_))));
        run.eq(|| format!("result {doc} written"), &doc, &serde_json::to_value(&result).unwrap());
    }
    for k in 0..4u64 {
        let doc = json!({"code": 400, "message": "some failed", "failures": (0..k).map(|i| json!({"index": i * 3, "message": format!("m{i}")})).collect::<Vec<_>>()});
        run.state();
        run.transition();
        let e = serde_json::from_value::<ApiError>(doc.clone());
        let shown = e.as_ref().map(|e| e.to_string()).unwrap_or_default();
        let missing: Vec<String> = (0..k).map(|i| format!("m{i}")).chain(["some failed".into()]).filter(|w| !shown.contains(w)).collect();
        run.eq(|| format!("{k} failures: what the shown error leaves out"), &Vec::<String>::new(), &missing);
        run.eq(|| format!("{k} failures"), &Some((doc.clone(), true)), &e.ok().map(|e| (serde_json::to_value(&e).unwrap(), matches!(e, ApiError::IndexedError { .. }))));
    }
    run.bound("wrappers: 6 data x 64 sets of metadata x no version and 6 versions; error codes 0..1100");
    run.part("wrappers");
}

/// The types of the two presets read and write the documents of that preset, and not of the other
/// where sizes differ.
fn presets(run: &Run) {
    struct P {
        name: &'static str,
        committee: usize,
    }
    let bits = |n: usize| format!("0x{}", (0..n / 8).map(|i| format!("{:02x}", (i * 37 + 5) as u8)).collect::<String>());
    let docs_of = |p: &P| -> Vec<(&'static str, J, bool)> {
        let v = V::Small;
        let attestation = json!({"aggregation_bits": "0x0d", "data": attestation_data(v, 0), "signature": sig(0)});
        let indexed = json!({"attesting_indices": ["1", "18446744073709551615"], "data": attestation_data(v, 0), "signature": sig(0)});
        let contribution = json!({"slot": "5", "beacon_block_root": root(0), "subcommittee_index": "3", "aggregation_bits": bits(p.committee / 4), "signature": sig(1)});
        let committee = json!({"pubkeys": (0..p.committee as u64).map(pk).collect::<Vec<_>>(), "aggregate_pubkey": pk(9999)});
        let aggregate = json!({"sync_committee_bits": bits(p.committee), "sync_committee_signature": sig(2)});
        let header = json!({"beacon": block_header(v, 0)["message"]});
        let branch = |n: u64| (0..n).map(root).collect::<Vec<_>>();
        let blob = format!("0x{}", "5a".repeat(4096 * 32));
        vec![
            ("Attestation", attestation.clone(), false),
            ("AttesterSlashing", json!({"attestation_1": indexed, "attestation_2": indexed}), false),
            ("SyncCommitteeContribution", contribution, true),
            ("Blob", json!(blob), false),
            (
                "BlobSidecar",
                json!({"index": "3", "blob": blob, "kzg_commitment": pk(0), "kzg_proof": pk(1), "signed_block_header": block_header(v, 3), "kzg_commitment_inclusion_proof": branch(if p.name == "mainnet" { 17 } else { 9 })}),
                true,
            ),
            ("LightClientBootstrap", json!({"header": header, "current_sync_committee": committee, "current_sync_committee_branch": branch(5)}), true),
            (
                "LightClientUpdate",
                json!({"attested_header": header, "next_sync_committee": committee, "next_sync_committee_branch": branch(5), "finalized_header": header, "finality_branch": branch(6), "sync_aggregate": aggregate, "signature_slot": "77"}),
                true,
            ),
            ("LightClientFinalityUpdate", json!({"attested_header": header, "finalized_header": header, "finality_branch": branch(6), "sync_aggregate": aggregate, "signature_slot": "77"}), true),
            ("LightClientOptimisticUpdate", json!({"attested_header": header, "sync_aggregate": aggregate, "signature_slot": "77"}), true),
        ]
    };
    fn trip<T: Serialize + DeserializeOwned>(doc: &J) -> Option<J> {
        guard(|| serde_json::from_value::<T>(doc.clone()).ok().map(|v| serde_json::to_value(&v).unwrap())).unwrap_or(Some(json!("crash")))
    }
    fn of<C: ClientTypes>(name: &str, doc: &J) -> Option<J> {
        match name {
            "Attestation" => trip::<C::Attestation>(doc),
            "AttesterSlashing" => trip::<C::AttesterSlashing>(doc),
            "SyncCommitteeContribution" => trip::<C::SyncCommitteeContribution>(doc),
            "Blob" => trip::<C::Blob>(doc),
            "BlobSidecar" => trip::<C::BlobSidecar>(doc),
            "LightClientBootstrap" => trip::<C::LightClientBootstrap>(doc),
            "LightClientUpdate" => trip::<C::LightClientUpdate>(doc),
            "LightClientFinalityUpdate" => trip::<C::LightClientFinalityUpdate>(doc),
            "LightClientOptimisticUpdate" => trip::<C::LightClientOptimisticUpdate>(doc),
            _ => unreachable!(),
        }
    }
    type Main = presets_mainnet::MainnetClientTypes;
    type Mini = presets_minimal::MinimalClientTypes;
    let ps = [P { name: "mainnet", committee: 512 }, P { name: "minimal", committee: 32 }];
    for (i, p) in ps.iter().enumerate() {
        for (name, doc, apart) in docs_of(p) {
            let both = [of::<Main>(name, &doc), of::<Mini>(name, &doc)];
            run.state();
            run.transitions(2);
            run.eq(|| format!("{name} of {}", p.name), &Some(doc.clone()), &both[i]);
            if apart {
                run.eq(|| format!("{name} of {} read as the other preset", p.name), &None, &both[1 - i]);
            }
        }
    }
    run.bound("preset types: 9 documents of the mainnet and minimal presets, read by both");
    run.part("presets");
}
use beacon_api_client::presets::{mainnet as presets_mainnet, minimal as presets_minimal};

pub fn c43(run: &Run) {
    run.assume("the standard is that of the beacon-API of the deneb fork, from memory of its text; a leading '+' of a slot and an absent 0x of a root may be read or rejected");
    identifiers(run);
    enumerations(run);
    documents(run);
    wrappers(run);
    presets(run);
}
