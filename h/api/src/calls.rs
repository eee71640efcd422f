//! Every call of the client: what it has to send for its arguments, and what replies mean.
use crate::docs::*;
use beacon_api_client::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

/// Client types that let every fork's objects through unread.
#[derive(Clone)]
pub struct Any;
impl ClientTypes for Any {
    type SignedContributionAndProof = Value;
    type SyncCommitteeContribution = Value;
    type BlindedBeaconBlock = Value;
    type SignedBlindedBeaconBlock = Value;
    type Attestation = Value;
    type AttesterSlashing = Value;
    type BeaconBlock = Value;
    type BeaconState = Value;
    type SignedAggregateAndProof = Value;
    type SignedBeaconBlock = Value;
    type Blob = Value;
    type BlobSidecar = Value;
    type LightClientBootstrap = Value;
    type LightClientUpdate = Value;
    type LightClientFinalityUpdate = Value;
    type LightClientOptimisticUpdate = Value;
}
pub type C = Client<Any>;

pub struct Case {
    pub call: &'static str,
    pub args: String,
    pub method: &'static str,
    pub path: String,
    /// the values each parameter has, in order
    pub query: Vec<(String, Vec<String>)>,
    pub body: Option<Value>,
    pub version: Option<String>,
    /// a success reply, and what the call gives for it
    pub reply: Value,
    pub value: Value,
    /// where the reply holds what the call reads, for mutations of it
    pub read: Vec<String>,
    pub run: Box<dyn Fn(&C) -> Result<Value, Error> + Send + Sync>,
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}
fn out<T: Serialize>(r: Result<T, Error>) -> Result<Value, Error> {
    r.map(|v| serde_json::to_value(v).expect("results serialize"))
}
/// The value a document stands for.
pub fn read<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("the document {v} is not read: {e}"))
}
fn array(v: &Value) -> Vec<Value> {
    v.as_array().unwrap().clone()
}

const NUMS: [u64; 4] = [0, 1, 1 << 53 | 1, u64::MAX];

/// An identifier's text, and how to make it.
pub fn state_ids() -> Vec<(String, StateId)> {
    let mut v = vec![
        ("head".to_string(), StateId::Head),
        ("genesis".to_string(), StateId::Genesis),
        ("finalized".to_string(), StateId::Finalized),
        ("justified".to_string(), StateId::Justified),
    ];
    for n in NUMS {
        v.push((n.to_string(), StateId::Slot(n)));
    }
    for r in roots() {
        v.push((r.clone(), StateId::Root(read(&json!(r)))));
    }
    v
}
pub fn roots() -> Vec<String> {
    vec![root(3), format!("0x{}", "00".repeat(32)), format!("0x{}", "ff".repeat(32)), format!("0x{}", "10".repeat(32)), format!("0x00{}", "ab".repeat(31))]
}
pub fn block_ids() -> Vec<(String, BlockId)> {
    let mut v = vec![("head".to_string(), BlockId::Head), ("genesis".to_string(), BlockId::Genesis), ("finalized".to_string(), BlockId::Finalized)];
    for n in NUMS {
        v.push((n.to_string(), BlockId::Slot(n)));
    }
    for r in roots() {
        v.push((r.clone(), BlockId::Root(read(&json!(r)))));
    }
    v
}
pub const VALIDATOR_STATUSES: [ValidatorStatus; 13] = [
    ValidatorStatus::PendingInitialized,
    ValidatorStatus::PendingQueued,
    ValidatorStatus::ActiveOngoing,
    ValidatorStatus::ActiveExiting,
    ValidatorStatus::ActiveSlashed,
    ValidatorStatus::ExitedUnslashed,
    ValidatorStatus::ExitedSlashed,
    ValidatorStatus::WithdrawalPossible,
    ValidatorStatus::WithdrawalDone,
    ValidatorStatus::Active,
    ValidatorStatus::Pending,
    ValidatorStatus::Exited,
    ValidatorStatus::Withdrawal,
];
pub const FORKS: [ethereum_consensus::Fork; 6] = [
    ethereum_consensus::Fork::Phase0,
    ethereum_consensus::Fork::Altair,
    ethereum_consensus::Fork::Bellatrix,
    ethereum_consensus::Fork::Capella,
    ethereum_consensus::Fork::Deneb,
    ethereum_consensus::Fork::Electra,
];
pub const FORK_NAMES: [&str; 6] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
pub fn peer_states() -> [PeerState; 4] {
    [PeerState::Disconnected, PeerState::Connecting, PeerState::Connected, PeerState::Disconnecting]
}
pub fn directions() -> [ConnectionOrientation; 2] {
    [ConnectionOrientation::Inbound, ConnectionOrientation::Outbound]
}
pub fn broadcasts() -> [(&'static str, BroadcastValidation); 3] {
    [("gossip", BroadcastValidation::Gossip), ("consensus", BroadcastValidation::Consensus), ("consensus_and_equivocation", BroadcastValidation::ConsensusAndEquivocation)]
}
fn validator_ids() -> Vec<String> {
    vec!["0".into(), u64::MAX.to_string(), pk(1), pk(2), "7".into()]
}
fn validator_id(s: &str) -> PublicKeyOrIndex {
    match s.parse::<usize>() {
        Ok(i) => PublicKeyOrIndex::Index(i),
        Err(_) => PublicKeyOrIndex::PublicKey(read(&json!(s))),
    }
}
/// All lists of up to `max` of the items.
fn lists<T: Clone>(items: &[T], max: usize) -> Vec<Vec<T>> {
    (0..=max).flat_map(|n| mc::tuples(n, items.len()).collect::<Vec<_>>()).map(|t| t.iter().map(|i| items[*i].clone()).collect()).collect()
}
fn optional() -> Vec<Option<u64>> {
    vec![None, Some(0), Some(5), Some(u64::MAX)]
}

struct B {
    v: V,
    thorough: bool,
    cases: Vec<Case>,
}
impl B {
    fn get(
        &mut self,
        call: &'static str,
        args: impl std::fmt::Debug,
        path: String,
        query: Vec<(&str, Vec<String>)>,
        data: Value,
        run: impl Fn(&C) -> Result<Value, Error> + Send + Sync + 'static,
    ) {
        let meta = self.cases.len() % 3;
        let mut reply = json!({"data": data.clone()});
        if meta > 0 {
            reply["execution_optimistic"] = false.into();
        }
        if meta > 1 {
            reply["finalized"] = true.into();
        }
        self.cases.push(Case {
            call,
            args: format!("{args:?}"),
            method: "GET",
            path,
            query: query.into_iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.to_string(), v)).collect(),
            body: None,
            version: None,
            reply,
            value: data,
            read: vec!["/data".into()],
            run: Box::new(run),
        })
    }
    fn last(&mut self) -> &mut Case {
        self.cases.last_mut().unwrap()
    }
    fn post(&mut self, call: &'static str, args: impl std::fmt::Debug, path: &str, body: Value, run: impl Fn(&C) -> Result<Value, Error> + Send + Sync + 'static) {
        self.get(call, args, path.into(), vec![], Value::Null, run);
        let c = self.last();
        c.method = "POST";
        c.body = Some(body);
        c.reply = Value::Null;
        c.read = vec![];
    }
    /// the reply names the fork of the object it carries
    fn versioned(&mut self) {
        let v = FORK_NAMES[self.cases.len() % 6];
        let c = self.last();
        c.reply["version"] = v.into();
        c.read.push("/version".into());
    }
    /// the object is passed through unread
    fn opaque(&mut self) {
        let c = self.last();
        c.read.retain(|r| r != "/data");
    }
}

fn opt(o: Option<u64>) -> Vec<String> {
    o.iter().map(|n| n.to_string()).collect()
}

pub fn cases(v: V, thorough: bool) -> Vec<Case> {
    let mut b = B { v, thorough, cases: vec![] };
    beacon(&mut b);
    pool(&mut b);
    node(&mut b);
    duties(&mut b);
    b.cases
}

/// the call for a plain get without arguments
macro_rules! plain {
    ($b:ident, $call:ident, $path:expr, $data:expr) => {{
        let d = $data;
        $b.get(stringify!($call), (), $path.into(), vec![], d, |c| out(block_on(c.$call())));
    }};
}

fn beacon(b: &mut B) {
    let v = b.v;
    plain!(b, get_genesis_details, "eth/v1/beacon/genesis", genesis(v));
    for (s, id) in state_ids() {
        let i = id.clone();
        b.get("get_state_root", &s, format!("eth/v1/beacon/states/{s}/root"), vec![], json!(root(v.n(5) % 200)), move |c| out(block_on(c.get_state_root(i.clone()))));
        let c = b.last();
        c.reply["data"] = json!({"root": c.value});
        let i = id.clone();
        b.get("get_fork", &s, format!("eth/v1/beacon/states/{s}/fork"), vec![], fork(v, 0), move |c| out(block_on(c.get_fork(i.clone()))));
        let i = id.clone();
        b.get("get_finality_checkpoints", &s, format!("eth/v1/beacon/states/{s}/finality_checkpoints"), vec![], finality(v), move |c| {
            out(block_on(c.get_finality_checkpoints(i.clone())))
        });
        for vid in validator_ids() {
            let (i, x) = (id.clone(), vid.clone());
            b.get("get_validator", (&s, &vid), format!("eth/v1/beacon/states/{s}/validators/{vid}"), vec![], validator(v, 0), move |c| {
                out(block_on(c.get_validator(i.clone(), validator_id(&x))))
            });
        }
        let i = id.clone();
        b.get("get_all_committees", &s, format!("eth/v1/beacon/states/{s}/committees"), vec![], v.list(committee), move |c| {
            out(block_on(c.get_all_committees(i.clone())))
        });
        for e in optional() {
            let i = id.clone();
            b.get("get_sync_committees", (&s, e), format!("eth/v1/beacon/states/{s}/sync_committees"), vec![("epoch", opt(e))], sync_committee(v), move |c| {
                out(block_on(c.get_sync_committees(i.clone(), e)))
            });
            let i = id.clone();
            b.get("get_randao", (&s, e), format!("eth/v1/beacon/states/{s}/randao"), vec![("epoch", opt(e))], json!(root(9)), move |c| {
                out(block_on(c.get_randao(i.clone(), e)))
            });
            b.last().reply["data"] = json!({"randao": root(9)});
            let i = id.clone();
            b.get("get_expected_withdrawals", (&s, e), format!("eth/v1/builder/states/{s}/expected_withdrawals"), vec![("proposal_slot", opt(e))], v.list(withdrawal), move |c| {
                out(block_on(c.get_expected_withdrawals(i.clone(), e)))
            });
        }
        let i = id.clone();
        b.get("get_state", &s, format!("eth/v2/debug/beacon/states/{s}"), vec![], object(v, 1), move |c| out(block_on(c.get_state(i.clone()))));
        b.versioned();
        b.opaque();
    }
    let some: Vec<(String, StateId)> = state_ids().into_iter().filter(|(s, _)| s == "head" || s == "1" || *s == root(3)).collect();
    let statuses: Vec<usize> = (0..13).collect();
    for (s, id) in some {
        let idlists = lists(&validator_ids(), if b.thorough { 3 } else { 2 });
        let stlists = lists(&statuses, 2);
        let mut pairs: Vec<(Vec<String>, Vec<usize>)> = idlists.iter().map(|l| (l.clone(), vec![])).collect();
        if s == "head" {
            pairs.extend(stlists.iter().map(|l| (vec![], l.clone())));
        }
        pairs.extend(idlists.iter().step_by(5).flat_map(|l| stlists.iter().step_by(7).map(|k| (l.clone(), k.clone()))));
        for (ids, st) in pairs {
            let names: Vec<String> = st.iter().map(|i| STATUSES[*i].to_string()).collect();
            let (i, x, y) = (id.clone(), ids.clone(), st.clone());
            b.get("get_validators", (&s, &ids, &names), format!("eth/v1/beacon/states/{s}/validators"), vec![("id", ids.clone()), ("status", names.clone())], v.list(validator), move |c| {
                let ids: Vec<_> = x.iter().map(|s| validator_id(s)).collect();
                let st: Vec<_> = y.iter().map(|i| VALIDATOR_STATUSES[*i]).collect();
                out(block_on(c.get_validators(i.clone(), &ids, &st)))
            });
        }
        for ids in idlists {
            let (i, x) = (id.clone(), ids.clone());
            b.get("get_balances", (&s, &ids), format!("eth/v1/beacon/states/{s}/validator_balances"), vec![("id", ids.clone())], v.list(balance), move |c| {
                let ids: Vec<_> = x.iter().map(|s| validator_id(s)).collect();
                out(block_on(c.get_balances(i.clone(), &ids)))
            });
        }
        for e in optional() {
            for ix in optional() {
                for sl in optional() {
                    let i = id.clone();
                    b.get("get_committees", (&s, e, ix, sl), format!("eth/v1/beacon/states/{s}/committees"), vec![("epoch", opt(e)), ("index", opt(ix)), ("slot", opt(sl))], v.list(committee), move |c| {
                        let filter = CommitteeFilter { epoch: e, index: ix.map(|x| x as usize), slot: sl };
                        out(block_on(c.get_committees(i.clone(), filter)))
                    });
                }
            }
        }
    }
    plain!(b, get_beacon_header_at_head, "eth/v1/beacon/headers", v.list(header));
    for n in NUMS {
        b.get("get_beacon_header_for_slot", n, "eth/v1/beacon/headers".into(), vec![("slot", vec![n.to_string()])], v.list(header), move |c| {
            out(block_on(c.get_beacon_header_for_slot(n)))
        });
    }
    for r in roots() {
        let x = r.clone();
        b.get("get_beacon_header_for_parent_root", &r, "eth/v1/beacon/headers".into(), vec![("parent_root", vec![r.clone()])], v.list(header), move |c| {
            out(block_on(c.get_beacon_header_for_parent_root(read(&json!(x)))))
        });
        let x = r.clone();
        b.get("get_light_client_bootstrap", &r, format!("eth/v1/beacon/light_client/bootstrap/{r}"), vec![], object(v, 4), move |c| {
            out(block_on(c.get_light_client_bootstrap(read(&json!(x)))))
        });
        b.versioned();
        b.opaque();
        b.last().read.clear();
    }
    for (s, id) in block_ids() {
        let i = id.clone();
        b.get("get_beacon_header", &s, format!("eth/v1/beacon/headers/{s}"), vec![], header(v, 0), move |c| out(block_on(c.get_beacon_header(i.clone()))));
        let i = id.clone();
        b.get("get_beacon_block", &s, format!("eth/v2/beacon/blocks/{s}"), vec![], object(v, 2), move |c| out(block_on(c.get_beacon_block(i.clone()))));
        b.versioned();
        b.opaque();
        let i = id.clone();
        b.get("get_blinded_block", &s, format!("eth/v1/beacon/blinded_blocks/{s}"), vec![], object(v, 2), move |c| out(block_on(c.get_blinded_block(i.clone()))));
        b.versioned();
        b.opaque();
        let i = id.clone();
        b.get("get_beacon_block_root", &s, format!("eth/v1/beacon/blocks/{s}/root"), vec![], json!(root(7)), move |c| out(block_on(c.get_beacon_block_root(i.clone()))));
        b.last().reply["data"] = json!({"root": root(7)});
        let i = id.clone();
        b.get("get_attestations_from_beacon_block", &s, format!("eth/v1/beacon/blocks/{s}/attestations"), vec![], v.list(object), move |c| {
            out(block_on(c.get_attestations_from_beacon_block(i.clone())))
        });
        for ix in lists(&[0usize, 5, usize::MAX], 2) {
            let (i, x) = (id.clone(), ix.clone());
            b.get("get_blob_sidecars", (&s, &ix), format!("eth/v1/beacon/blob_sidecars/{s}"), vec![("indices", ix.iter().map(|i| i.to_string()).collect())], v.list(object), move |c| {
                out(block_on(c.get_blob_sidecars(i.clone(), &x)))
            });
        }
    }
    let block = object(v, 3);
    for (call, path) in [("post_signed_blinded_beacon_block", "eth/v1/beacon/blinded_blocks"), ("post_signed_beacon_block", "eth/v1/beacon/blocks")] {
        let x = block.clone();
        b.post(call, (), path, block.clone(), move |c| {
            out(if path.ends_with("blinded_blocks") { block_on(c.post_signed_blinded_beacon_block(&x)) } else { block_on(c.post_signed_beacon_block(&x)) })
        });
    }
    for (f, name) in FORKS.into_iter().zip(FORK_NAMES) {
        for how in [None, Some(0), Some(1), Some(2)] {
            let q: Vec<String> = how.iter().map(|i: &usize| broadcasts()[*i].0.to_string()).collect();
            let pick = move || how.map(|i| broadcasts().into_iter().nth(i).unwrap().1);
            let x = block.clone();
            b.post("post_signed_blinded_beacon_block_v2", (name, &q), "eth/v2/beacon/blinded_blocks", block.clone(), move |c| {
                out(block_on(c.post_signed_blinded_beacon_block_v2(&x, f, pick())))
            });
            b.last().version = Some(name.into());
            if !q.is_empty() {
                b.last().query = vec![("broadcast_validation".into(), q.clone())];
            }
            for n in 0..3usize {
                let proofs: Vec<String> = (0..n).map(|i| hex(i as u64, 48)).collect();
                let blobs: Vec<Value> = (0..n).map(|i| json!(hex(i as u64, 4))).collect();
                let x = block.clone();
                let (p, bl) = (proofs.clone(), blobs.clone());
                b.post("post_signed_beacon_block_v2", (name, &q, n), "eth/v2/beacon/blocks", json!({"signed_block": block, "kzg_proofs": proofs, "blobs": blobs}), move |c| {
                    let proofs: Vec<ethereum_consensus::crypto::KzgProof> = p.iter().map(|s| read(&json!(s))).collect();
                    let request = SubmitSignedBeaconBlock { signed_block: &x, kzg_proofs: Some(&proofs), blobs: Some(&bl[..]) };
                    out(block_on(c.post_signed_beacon_block_v2(request, f, pick())))
                });
                b.last().version = Some(name.into());
                if !q.is_empty() {
                    b.last().query = vec![("broadcast_validation".into(), q.clone())];
                }
            }
        }
    }
    plain!(b, get_deposit_snapshot, "eth/v1/beacon/deposit_snapshot", snapshot(v));
    for start in NUMS {
        for count in NUMS {
            b.get("get_light_client_updates", (start, count), "eth/v1/beacon/light_client/updates".into(), vec![("start_period", vec![start.to_string()]), ("count", vec![count.to_string()])], v.list(object), move |c| {
                out(block_on(c.get_light_client_updates(start, count)))
            });
            let c = b.last();
            c.reply = array(&c.value).into_iter().enumerate().map(|(i, d)| json!({"version": FORK_NAMES[1 + i % 5], "data": d})).collect();
            c.read.clear();
        }
    }
    plain!(b, get_light_client_finality_update, "eth/v1/beacon/light_client/finality_update", object(v, 5));
    b.versioned();
    b.last().read.clear();
    plain!(b, get_light_client_optimistic_update, "eth/v1/beacon/light_client/optimistic_update", object(v, 6));
    b.versioned();
    b.last().read.clear();
    plain!(b, get_fork_schedule, "eth/v1/config/fork_schedule", v.list(fork));
    let spec = match v {
        V::Empty => json!({}),
        _ => json!({"SLOTS_PER_EPOCH": "32", "DEPOSIT_CONTRACT_ADDRESS": addr(1), "N": v.num(0)}),
    };
    plain!(b, get_spec, "eth/v1/config/spec", spec);
    plain!(b, get_deposit_contract_address, "eth/v1/config/deposit_contract", contract(v));
    plain!(b, get_heads, "eth/v2/debug/beacon/heads", v.list(chain_head));
}

fn pool(b: &mut B) {
    let v = b.v;
    for s in optional() {
        for i in optional() {
            b.get("get_attestations_from_pool", (s, i), "eth/v1/beacon/pool/attestations".into(), vec![("slot", opt(s)), ("committee_index", opt(i))], v.list(object), move |c| {
                out(block_on(c.get_attestations_from_pool(s, i.map(|i| i as usize))))
            });
        }
    }
    plain!(b, get_attester_slashings_from_pool, "eth/v1/beacon/pool/attester_slashings", v.list(object));
    plain!(b, get_proposer_slashings_from_pool, "eth/v1/beacon/pool/proposer_slashings", v.list(proposer_slashing));
    plain!(b, get_voluntary_exits_from_pool, "eth/v1/beacon/pool/voluntary_exits", v.list(exit));
    plain!(b, get_bls_to_execution_changes, "eth/v1/beacon/pool/bls_to_execution_changes", v.list(change));
    macro_rules! send {
        ($call:ident, $path:expr, $doc:expr, list) => {{
            let d = v.list($doc);
            let x = d.clone();
            b.post(stringify!($call), (), $path, d, move |c| {
                let items: Vec<_> = array(&x).iter().map(read).collect();
                out(block_on(c.$call(&items)))
            });
        }};
        ($call:ident, $path:expr, $doc:expr, one) => {{
            let d = $doc(v, 0);
            let x = d.clone();
            b.post(stringify!($call), (), $path, d, move |c| out(block_on(c.$call(&read(&x)))));
        }};
    }
    send!(post_attestations, "eth/v1/beacon/pool/attestations", object, list);
    send!(post_attester_slashing, "eth/v1/beacon/pool/attester_slashings", object, one);
    send!(post_proposer_slashing, "eth/v1/beacon/pool/proposer_slashings", proposer_slashing, one);
    send!(post_sync_committee_messages, "eth/v1/beacon/pool/sync_committees", sync_message, list);
    send!(post_signed_voluntary_exit, "eth/v1/beacon/pool/voluntary_exits", exit, one);
    send!(post_bls_to_execution_changes, "eth/v1/beacon/pool/bls_to_execution_changes", change, list);
    send!(post_aggregates_with_proofs, "eth/v1/validator/aggregate_and_proofs", object, list);
    send!(subscribe_subnets_for_attestation_committees, "eth/v1/validator/beacon_committee_subscriptions", committee_subscription, list);
    send!(subscribe_subnets_for_sync_committees, "eth/v1/validator/sync_committee_subscriptions", sync_subscription, list);
    send!(post_sync_committee_contributions_with_proofs, "eth/v1/validator/contribution_and_proofs", object, list);
    send!(prepare_proposers, "eth/v1/validator/prepare_beacon_proposer", preparation, list);
    send!(register_validators_with_builders, "eth/v1/validator/register_validator", registration, list);
}

fn node(b: &mut B) {
    let v = b.v;
    plain!(b, get_node_identity, "eth/v1/node/identity", identity(v));
    for st in lists(&[0usize, 1, 2, 3], 4).into_iter().filter(|l| l.windows(2).all(|w| w[0] != w[1])) {
        for di in lists(&[0usize, 1], 2) {
            let names: Vec<String> = st.iter().map(|i| PEER_STATES[*i].to_string()).collect();
            let dirs: Vec<String> = di.iter().map(|i| DIRECTIONS[*i].to_string()).collect();
            let (x, y) = (st.clone(), di.clone());
            b.get("get_node_peers", (&names, &dirs), "eth/v1/node/peers".into(), vec![("state", names.clone()), ("direction", dirs.clone())], v.list(peer), move |c| {
                let s: Vec<PeerState> = x.iter().map(|i| peer_states().into_iter().nth(*i).unwrap()).collect();
                let d: Vec<ConnectionOrientation> = y.iter().map(|i| directions().into_iter().nth(*i).unwrap()).collect();
                out(block_on(c.get_node_peers(&s, &d)))
            });
            // peers are counted beside the list
            let n = v.len();
            b.last().reply["meta"] = json!({"count": n});
        }
    }
    for p in PEERS {
        b.get("get_peer", p, format!("eth/v1/node/peers/{p}"), vec![], peer(v, 100), move |c| out(block_on(c.get_peer(p.parse().expect("a peer id")))));
    }
    plain!(b, get_peer_summary, "eth/v1/node/peer_count", peer_count(v));
    for text in ["Lighthouse/v0.1.5 (Linux x86_64)", "", "\u{1f511}/\"quoted\""] {
        b.get("get_node_version", text, "eth/v1/node/version".into(), vec![], json!(text), |c| out(block_on(c.get_node_version())));
        b.last().reply["data"] = json!({"version": text});
    }
    plain!(b, get_sync_status, "eth/v1/node/syncing", syncing(v));
    b.last().reply["data"]["is_optimistic"] = false.into();
    b.get("get_health", (), "eth/v1/node/health".into(), vec![], json!("Ready"), |c| out(block_on(c.get_health())));
    b.last().reply = Value::Null;
    b.last().read.clear();
}

fn duties(b: &mut B) {
    let v = b.v;
    let indices = lists(&[0usize, 7, usize::MAX], 2);
    for e in NUMS {
        for ix in &indices {
            let strings = json!(ix.iter().map(|i| i.to_string()).collect::<Vec<_>>());
            let x = ix.clone();
            b.post("get_attester_duties", (e, ix), &format!("eth/v1/validator/duties/attester/{e}"), strings.clone(), move |c| out(block_on(c.get_attester_duties(e, &x))));
            let c = b.last();
            let d = v.list(attester_duty);
            c.reply = json!({"dependent_root": root(e % 100), "execution_optimistic": false, "data": d});
            c.value = json!([root(e % 100), d]);
            c.read = vec!["/data".into(), "/dependent_root".into()];
            let x = ix.clone();
            b.post("get_sync_committee_duties", (e, ix), &format!("eth/v1/validator/duties/sync/{e}"), strings.clone(), move |c| out(block_on(c.get_sync_committee_duties(e, &x))));
            let c = b.last();
            c.value = v.list(sync_duty);
            c.reply = json!({"execution_optimistic": true, "data": c.value});
            c.read = vec!["/data".into()];
            let x = ix.clone();
            b.post("post_liveness", (e, ix), &format!("eth/v1/validator/liveness/{e}"), strings.clone(), move |c| out(block_on(c.post_liveness(e, &x))));
            let c = b.last();
            c.value = v.list(liveness);
            c.reply = json!({"data": c.value});
            c.read = vec!["/data".into()];
        }
        b.get("get_proposer_duties", e, format!("eth/v1/validator/duties/proposer/{e}"), vec![], Value::Null, move |c| out(block_on(c.get_proposer_duties(e))));
        let c = b.last();
        let d = v.list(proposer_duty);
        c.reply = json!({"dependent_root": root(e % 100), "execution_optimistic": false, "data": d});
        c.value = json!([root(e % 100), d]);
        c.read = vec!["/data".into(), "/dependent_root".into()];
        for g in [None, Some(root(5)), Some(format!("0x{}", "00".repeat(32)))] {
            for blinded in [false, true] {
                let x = g.clone();
                let (call, path) = if blinded { ("get_blinded_block_proposal", "eth/v1/validator/blinded_blocks") } else { ("get_block_proposal", "eth/v2/validator/blocks") };
                b.get(call, (e, &g), format!("{path}/{e}"), vec![("randao_reveal", vec![sig(e % 50)]), ("graffiti", g.clone().into_iter().collect())], object(v, 8), move |c| {
                    let reveal = read(&json!(sig(e % 50)));
                    let g = x.as_ref().map(|x| read(&json!(x)));
                    out(if blinded { block_on(c.get_blinded_block_proposal(e, reveal, g)) } else { block_on(c.get_block_proposal(e, reveal, g)) })
                });
                b.versioned();
                b.opaque();
            }
        }
        for i in [0usize, 63, usize::MAX] {
            b.get("get_attestation_data", (e, i), "eth/v1/validator/attestation_data".into(), vec![("slot", vec![e.to_string()]), ("committee_index", vec![i.to_string()])], attestation_data(v, 0), move |c| {
                out(block_on(c.get_attestation_data(e, i)))
            });
            let r = root(i as u64 % 90);
            let x = r.clone();
            b.get("get_attestation_aggregate", (&r, e), "eth/v1/validator/aggregate_attestation".into(), vec![("attestation_data_root", vec![r.clone()]), ("slot", vec![e.to_string()])], object(v, 9), move |c| {
                out(block_on(c.get_attestation_aggregate(read(&json!(x)), e)))
            });
            b.opaque();
            let x = r.clone();
            b.get(
                "get_sync_committee_contribution",
                (e, i, &r),
                "eth/v1/validator/sync_committee_contribution".into(),
                vec![("slot", vec![e.to_string()]), ("subcommittee_index", vec![i.to_string()]), ("beacon_block_root", vec![r.clone()])],
                object(v, 9),
                move |c| out(block_on(c.get_sync_committee_contribution(e, i, read(&json!(x))))),
            );
            b.opaque();
        }
    }
}
