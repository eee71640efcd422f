//! The documents of the standard: JSON by its field names and forms.
use serde_json::{json, Value};

pub fn hex(n: u64, len: usize) -> String {
    let mut b = vec![0u8; len];
    for (i, x) in b.iter_mut().enumerate() {
        *x = (n as usize * 31 + i * 7 + 0x81) as u8;
    }
    format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
}
pub fn root(n: u64) -> String {
    hex(n, 32)
}
pub fn pk(n: u64) -> String {
    hex(n, 48)
}
pub fn sig(n: u64) -> String {
    hex(n, 96)
}
pub fn addr(n: u64) -> String {
    hex(n, 20)
}

/// A variant of a document: which numbers it holds and how long its lists are.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum V {
    Small,
    Large,
    Empty,
    Long,
}
pub const VARIANTS: [V; 4] = [V::Small, V::Large, V::Empty, V::Long];

impl V {
    /// The `n`th number of a document, in its text form.
    pub fn num(self, n: u64) -> String {
        self.n(n).to_string()
    }
    pub fn n(self, n: u64) -> u64 {
        match self {
            V::Small => n + 1,
            V::Large => u64::MAX - n,
            V::Empty => 0,
            V::Long => (1 << 53) + 1 + n,
        }
    }
    pub fn len(self) -> usize {
        match self {
            V::Small | V::Large => 1,
            V::Empty => 0,
            V::Long => 3,
        }
    }
    pub fn list(self, f: impl Fn(V, u64) -> Value) -> Value {
        Value::Array((0..self.len() as u64).map(|i| f(self, i * 100)).collect())
    }
    pub fn flag(self) -> bool {
        matches!(self, V::Small | V::Long)
    }
}

pub fn genesis(v: V) -> Value {
    json!({"genesis_time": v.num(0), "genesis_validators_root": root(1), "genesis_fork_version": hex(2, 4)})
}
pub fn fork(v: V, i: u64) -> Value {
    json!({"previous_version": hex(i, 4), "current_version": hex(i + 1, 4), "epoch": v.num(i)})
}
pub fn checkpoint(v: V, i: u64) -> Value {
    json!({"epoch": v.num(i), "root": root(i)})
}
pub fn finality(v: V) -> Value {
    json!({"previous_justified": checkpoint(v, 0), "current_justified": checkpoint(v, 1), "finalized": checkpoint(v, 2)})
}
pub const STATUSES: [&str; 13] = [
    "pending_initialized",
    "pending_queued",
    "active_ongoing",
    "active_exiting",
    "active_slashed",
    "exited_unslashed",
    "exited_slashed",
    "withdrawal_possible",
    "withdrawal_done",
    "active",
    "pending",
    "exited",
    "withdrawal",
];
pub fn validator(v: V, i: u64) -> Value {
    json!({"index": v.num(i), "balance": v.num(i + 1), "status": STATUSES[(i / 100) as usize % 9],
        "validator": {"pubkey": pk(i), "withdrawal_credentials": root(i), "effective_balance": v.num(i + 2), "slashed": v.flag(),
            "activation_eligibility_epoch": v.num(i + 3), "activation_epoch": v.num(i + 4), "exit_epoch": v.num(i + 5), "withdrawable_epoch": v.num(i + 6)}})
}
pub fn balance(v: V, i: u64) -> Value {
    json!({"index": v.num(i), "balance": v.num(i + 1)})
}
pub fn numbers(v: V, i: u64) -> Value {
    v.list(|v, k| v.num(i + k).into())
}
pub fn committee(v: V, i: u64) -> Value {
    json!({"index": v.num(i), "slot": v.num(i + 1), "validators": numbers(v, i + 2)})
}
pub fn sync_committee(v: V) -> Value {
    json!({"validators": numbers(v, 0), "validator_aggregates": v.list(|v, i| numbers(v, i + 1))})
}
pub fn block_header(v: V, i: u64) -> Value {
    json!({"message": {"slot": v.num(i), "proposer_index": v.num(i + 1), "parent_root": root(i), "state_root": root(i + 1), "body_root": root(i + 2)}, "signature": sig(i)})
}
pub fn header(v: V, i: u64) -> Value {
    json!({"root": root(i), "canonical": v.flag(), "header": block_header(v, i)})
}
pub fn snapshot(v: V) -> Value {
    json!({"finalized": v.list(|_, i| root(i).into()), "deposit_root": root(1), "deposit_count": v.num(1), "execution_block_hash": root(2), "execution_block_height": v.num(2)})
}
pub fn attestation_data(v: V, i: u64) -> Value {
    json!({"slot": v.num(i), "index": v.num(i + 1), "beacon_block_root": root(i), "source": checkpoint(v, i), "target": checkpoint(v, i + 1)})
}
pub fn proposer_slashing(v: V, i: u64) -> Value {
    json!({"signed_header_1": block_header(v, i), "signed_header_2": block_header(v, i + 1)})
}
pub fn exit(v: V, i: u64) -> Value {
    json!({"message": {"epoch": v.num(i), "validator_index": v.num(i + 1)}, "signature": sig(i)})
}
pub fn change(v: V, i: u64) -> Value {
    json!({"message": {"validator_index": v.num(i), "from_bls_pubkey": pk(i), "to_execution_address": addr(i)}, "signature": sig(i)})
}
pub fn sync_message(v: V, i: u64) -> Value {
    json!({"slot": v.num(i), "beacon_block_root": root(i), "validator_index": v.num(i + 1), "signature": sig(i)})
}
pub fn withdrawal(v: V, i: u64) -> Value {
    json!({"index": v.num(i), "validator_index": v.num(i + 1), "address": addr(i), "amount": v.num(i + 2)})
}
pub fn registration(v: V, i: u64) -> Value {
    json!({"message": {"fee_recipient": addr(i), "gas_limit": v.num(i), "timestamp": v.num(i + 1), "pubkey": pk(i)}, "signature": sig(i)})
}
pub fn contract(v: V) -> Value {
    json!({"chain_id": v.num(0), "address": addr(0)})
}
pub fn chain_head(v: V, i: u64) -> Value {
    json!({"slot": v.num(i), "root": root(i), "execution_optimistic": v.flag()})
}
pub const PEERS: [&str; 2] = ["QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N", "QmdSUVs7aVLGTDYvZqPmDKbEuGxcqDgGCqTmdT9jhBTFU4"];
pub const ADDRS: [&str; 2] = ["/ip4/7.7.7.7/tcp/4242", "/ip4/8.7.7.7/udp/9000"];
pub const META_ATTNETS: &str = "0x0100000000000080";
pub fn identity(v: V) -> Value {
    json!({"peer_id": PEERS[0], "enr": "enr:-IS4QHCYrYZbAKWCBRlAy5zzaDZXJBGkcnh4MHcBFZntXNFrdvJjX04jRzjz", "p2p_addresses": v.list(|_, i| ADDRS[(i / 100) as usize % 2].into()),
        "discovery_addresses": v.list(|_, i| ADDRS[(i / 100 + 1) as usize % 2].into()), "metadata": {"seq_number": v.num(0), "attnets": META_ATTNETS, "syncnets": "0x0f"}})
}
pub const PEER_STATES: [&str; 4] = ["disconnected", "connecting", "connected", "disconnecting"];
pub const DIRECTIONS: [&str; 2] = ["inbound", "outbound"];
pub fn peer(_: V, i: u64) -> Value {
    let k = (i / 100) as usize;
    json!({"peer_id": PEERS[k % 2], "enr": "enr:-abc", "last_seen_p2p_address": ADDRS[k % 2], "state": PEER_STATES[k % 4], "direction": DIRECTIONS[k % 2]})
}
pub fn peer_count(v: V) -> Value {
    json!({"disconnected": v.num(0), "connecting": v.num(1), "connected": v.num(2), "disconnecting": v.num(3)})
}
pub fn syncing(v: V) -> Value {
    json!({"head_slot": v.num(0), "sync_distance": v.num(1), "is_syncing": v.flag()})
}
pub fn attester_duty(v: V, i: u64) -> Value {
    json!({"pubkey": pk(i), "validator_index": v.num(i), "committee_index": v.num(i + 1), "committee_length": v.num(i + 2), "committees_at_slot": v.num(i + 3),
        "validator_committee_index": v.num(i + 4), "slot": v.num(i + 5)})
}
pub fn proposer_duty(v: V, i: u64) -> Value {
    json!({"pubkey": pk(i), "validator_index": v.num(i), "slot": v.num(i + 1)})
}
pub fn sync_duty(v: V, i: u64) -> Value {
    json!({"pubkey": pk(i), "validator_index": v.num(i), "validator_sync_committee_indices": numbers(v, i + 1)})
}
pub fn committee_subscription(v: V, i: u64) -> Value {
    json!({"validator_index": v.num(i), "committee_index": v.num(i + 1), "committees_at_slot": v.num(i + 2), "slot": v.num(i + 3), "is_aggregator": v.flag()})
}
pub fn sync_subscription(v: V, i: u64) -> Value {
    json!({"validator_index": v.num(i), "sync_committee_indices": numbers(v, i + 1), "until_epoch": v.num(i + 9)})
}
pub fn preparation(v: V, i: u64) -> Value {
    json!({"validator_index": v.num(i), "fee_recipient": addr(i)})
}
pub fn liveness(v: V, i: u64) -> Value {
    json!({"index": v.num(i), "is_live": v.flag()})
}
pub fn payload_attributes_event(v: V, fork: usize) -> Value {
    let mut a = json!({"timestamp": v.num(3), "prev_randao": root(3), "suggested_fee_recipient": addr(3)});
    if fork >= 3 {
        a["withdrawals"] = v.list(withdrawal);
    }
    if fork >= 4 {
        a["parent_beacon_block_root"] = root(4).into();
    }
    json!({"proposer_index": v.num(0), "proposal_slot": v.num(1), "parent_block_number": v.num(2), "parent_block_root": root(1), "parent_block_hash": root(2), "payload_attributes": a})
}
/// Something a call passes through unread.
pub fn object(v: V, i: u64) -> Value {
    json!({"kind": i, "what": [v.num(i)], "null": null})
}
