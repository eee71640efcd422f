//! The real functions of the library behind [`Op`] and [`Q`], over the model state.
use crate::{cfg::*, m::*};
use ethereum_consensus::{
    altair, bellatrix, capella, deneb, electra, phase0, domains::DomainType, state_transition::{Executor, Validation}, types,
};
use ssz_rs::prelude::{Bitlist, Bitvector};
use std::fmt::Debug;

pub fn seq<T: Clone, C: TryFrom<Vec<T>>>(v: &[T]) -> C {
    C::try_from(v.to_vec()).ok().expect("the model value does not fit the type")
}
pub fn bits<const N: usize>(v: &[bool]) -> Bitlist<N> {
    Bitlist::try_from(v).expect("the model bits do not fit the type")
}
pub fn bitv<const N: usize>(v: &[bool]) -> Bitvector<N> {
    let mut v = v.to_vec();
    v.resize(N, false);
    Bitvector::try_from(&v[..]).unwrap()
}
pub fn bl<const N: usize>(v: &[u8]) -> ByteList<N> {
    ByteList::try_from(v).expect("the model bytes do not fit the type")
}
pub fn bv<const N: usize>(v: &[u8]) -> ByteVector<N> {
    let mut v = v.to_vec();
    v.resize(N, 0);
    ByteVector::try_from(&v[..]).unwrap()
}
pub fn domain_type(n: u32) -> DomainType {
    use DomainType::*;
    [
        BeaconProposer,
        BeaconAttester,
        Randao,
        Deposit,
        VoluntaryExit,
        SelectionProof,
        AggregateAndProof,
        SyncCommittee,
        SyncCommitteeSelectionProof,
        ContributionAndProof,
        BlsToExecutionChange,
        Consolidation,
    ]
    .into_iter()
    .find(|d| d.as_bytes() == n.to_le_bytes())
    .expect("a domain type")
}

/// Answers are compared as text; unordered answers are sorted first.
fn t<T: Debug, E: Debug>(r: Result<T, E>) -> Result<String, String> {
    r.map(|x| format!("{x:?}")).map_err(|e| format!("{e:?}"))
}
fn ok<T: Debug>(x: T) -> Result<String, String> {
    Ok(format!("{x:?}"))
}
fn sorted<E: Debug>(
    r: Result<std::collections::HashSet<usize>, E>,
) -> Result<String, String> {
    t(r.map(|s| {
        let mut v: Vec<usize> = s.into_iter().collect();
        v.sort();
        v
    }))
}

macro_rules! plain_fields {
    ($put:ident, $a:ident, $b:ident; $($s:ident = $m:ident),* $(,)?) => {
        $(plain_fields!(@$put $a $b $s $m);)*
    };
    (@to $st:ident $md:ident $s:ident $m:ident) => { $st.$s = $md.$m.clone(); };
    (@from $st:ident $md:ident $s:ident $m:ident) => { $md.$m = $st.$s.clone(); };
    (@to_seq $st:ident $md:ident $s:ident $m:ident) => { $st.$s = seq(&$md.$m); };
    (@from_seq $st:ident $md:ident $s:ident $m:ident) => { $md.$m = $st.$s.to_vec(); };
}
macro_rules! base {
    ($p:ident, $q:ident, $s:ident, $m:ident) => {
        plain_fields!($p, $s, $m;
            genesis_time = genesis_time, genesis_validators_root = genesis_validators_root,
            slot = slot, fork = fork, latest_block_header = header, eth1_data = eth1_data,
            eth1_deposit_index = deposit_index, previous_justified_checkpoint = pj,
            current_justified_checkpoint = cj, finalized_checkpoint = fin);
        plain_fields!($q, $s, $m;
            block_roots = block_roots, state_roots = state_roots,
            historical_roots = historical_roots, eth1_data_votes = votes,
            validators = validators, balances = balances, randao_mixes = mixes,
            slashings = slashings);
    };
}
macro_rules! extra {
    (phase0, to, $s:ident, $m:ident) => {
        let p = |v: &[Pend]| {
            seq(&v
                .iter()
                .map(|a| phase0::PendingAttestation {
                    aggregation_bits: bits(&a.bits),
                    data: a.data.clone(),
                    inclusion_delay: a.delay,
                    proposer_index: a.proposer,
                })
                .collect::<Vec<_>>())
        };
        $s.previous_epoch_attestations = p(&$m.prev_att);
        $s.current_epoch_attestations = p(&$m.cur_att);
    };
    (phase0, from, $s:ident, $m:ident) => {
        let p = |v: &[phase0::PendingAttestation<MVPC>]| -> Vec<Pend> {
            v.iter()
                .map(|a| Pend {
                    bits: a.aggregation_bits.iter().map(|b| *b).collect(),
                    data: a.data.clone(),
                    delay: a.inclusion_delay,
                    proposer: a.proposer_index,
                })
                .collect()
        };
        $m.prev_att = p(&$s.previous_epoch_attestations);
        $m.cur_att = p(&$s.current_epoch_attestations);
    };
    (altair, to, $s:ident, $m:ident) => {
        plain_fields!(to_seq, $s, $m; previous_epoch_participation = prev_part,
            current_epoch_participation = cur_part, inactivity_scores = scores);
        let c = |x: &SyncC| SyncCommittee::<SYNC> {
            public_keys: seq(&x.keys),
            aggregate_public_key: x.agg.clone(),
        };
        $s.current_sync_committee = c(&$m.sync);
        $s.next_sync_committee = c(&$m.next_sync);
    };
    (altair, from, $s:ident, $m:ident) => {
        plain_fields!(from_seq, $s, $m; previous_epoch_participation = prev_part,
            current_epoch_participation = cur_part, inactivity_scores = scores);
        $m.sync = sync_from(&$s.current_sync_committee);
        $m.next_sync = sync_from(&$s.next_sync_committee);
    };
    (bellatrix, $d:ident, $s:ident, $m:ident) => { extra!(altair, $d, $s, $m); extra!(@pay bellatrix, $d, $s, $m); };
    (capella, $d:ident, $s:ident, $m:ident) => {
        extra!(altair, $d, $s, $m); extra!(@pay capella, $d, $s, $m); extra!(@cap $d, $s, $m);
    };
    (deneb, $d:ident, $s:ident, $m:ident) => {
        extra!(altair, $d, $s, $m); extra!(@pay deneb, $d, $s, $m); extra!(@cap $d, $s, $m);
    };
    (electra, $d:ident, $s:ident, $m:ident) => {
        extra!(altair, $d, $s, $m); extra!(@pay electra, $d, $s, $m); extra!(@cap $d, $s, $m);
        plain_fields!($d, $s, $m;
            deposit_receipts_start_index = receipts_start, deposit_balance_to_consume = dep_btc,
            exit_balance_to_consume = exit_btc, earliest_exit_epoch = earliest_exit,
            consolidation_balance_to_consume = cons_btc, earliest_consolidation_epoch = earliest_cons);
        extra!(@el $d, $s, $m);
    };
    (@el to, $s:ident, $m:ident) => {
        plain_fields!(to_seq, $s, $m; pending_balance_deposits = pend_dep,
            pending_partial_withdrawals = pend_wd, pending_consolidations = pend_cons);
    };
    (@el from, $s:ident, $m:ident) => {
        plain_fields!(from_seq, $s, $m; pending_balance_deposits = pend_dep,
            pending_partial_withdrawals = pend_wd, pending_consolidations = pend_cons);
    };
    (@cap to, $s:ident, $m:ident) => {
        plain_fields!(to, $s, $m; next_withdrawal_index = nwi, next_withdrawal_validator_index = nwvi);
        plain_fields!(to_seq, $s, $m; historical_summaries = summaries);
    };
    (@cap from, $s:ident, $m:ident) => {
        plain_fields!(from, $s, $m; next_withdrawal_index = nwi, next_withdrawal_validator_index = nwvi);
        plain_fields!(from_seq, $s, $m; historical_summaries = summaries);
    };
    (@pay $f:ident, to, $s:ident, $m:ident) => { $s.latest_execution_payload_header = header_to(&$m.payload); };
    (@pay $f:ident, from, $s:ident, $m:ident) => { $m.payload = header_from(&$s.latest_execution_payload_header); };
}
fn sync_from<const N: usize>(x: &SyncCommittee<N>) -> SyncC {
    SyncC { keys: x.public_keys.to_vec(), agg: x.aggregate_public_key.clone() }
}

// The payload and its header: common fields, then what each fork added.
macro_rules! pay_common {
    ($x:ident, $p:ident) => {
        $x.parent_hash = $p.parent_hash.clone();
        $x.fee_recipient = $p.fee_recipient.clone();
        $x.state_root = $p.state_root.clone();
        $x.receipts_root = $p.receipts_root.clone();
        $x.logs_bloom = bv(&$p.logs_bloom);
        $x.prev_randao = $p.prev_randao.clone();
        $x.block_number = $p.block_number;
        $x.gas_limit = $p.gas_limit;
        $x.gas_used = $p.gas_used;
        $x.timestamp = $p.timestamp;
        $x.extra_data = bl(&$p.extra_data);
        $x.base_fee_per_gas = $p.base_fee;
        $x.block_hash = $p.block_hash.clone();
    };
}
macro_rules! pay_from {
    ($x:ident, $p:ident) => {
        $p.parent_hash = $x.parent_hash.clone();
        $p.fee_recipient = $x.fee_recipient.clone();
        $p.state_root = $x.state_root.clone();
        $p.receipts_root = $x.receipts_root.clone();
        $p.logs_bloom = $x.logs_bloom.to_vec();
        $p.prev_randao = $x.prev_randao.clone();
        $p.block_number = $x.block_number;
        $p.gas_limit = $x.gas_limit;
        $p.gas_used = $x.gas_used;
        $p.timestamp = $x.timestamp;
        $p.extra_data = $x.extra_data.to_vec();
        $p.base_fee = $x.base_fee_per_gas;
        $p.block_hash = $x.block_hash.clone();
        $p.transactions_root = $x.transactions_root;
    };
}
macro_rules! pay_fields {
    (bellatrix, $dir:ident, $kind:ident, $x:ident, $p:ident) => {};
    (capella, to, payload, $x:ident, $p:ident) => { $x.withdrawals = seq(&$p.withdrawals); };
    (capella, to, header, $x:ident, $p:ident) => { $x.withdrawals_root = $p.withdrawals_root; };
    (capella, from, header, $x:ident, $p:ident) => { $p.withdrawals_root = $x.withdrawals_root; };
    (deneb, to, $kind:ident, $x:ident, $p:ident) => {
        pay_fields!(capella, to, $kind, $x, $p);
        $x.blob_gas_used = $p.blob_gas_used;
        $x.excess_blob_gas = $p.excess_blob_gas;
    };
    (deneb, from, $kind:ident, $x:ident, $p:ident) => {
        pay_fields!(capella, from, $kind, $x, $p);
        $p.blob_gas_used = $x.blob_gas_used;
        $p.excess_blob_gas = $x.excess_blob_gas;
    };
    (electra, to, payload, $x:ident, $p:ident) => {
        pay_fields!(deneb, to, payload, $x, $p);
        $x.deposit_receipts = seq(&$p.receipts);
        $x.withdrawal_requests = seq(&$p.requests);
    };
    (electra, to, header, $x:ident, $p:ident) => {
        pay_fields!(deneb, to, header, $x, $p);
        $x.deposit_receipts_root = $p.receipts_list_root;
        $x.withdrawal_requests_root = $p.requests_list_root;
    };
    (electra, from, header, $x:ident, $p:ident) => {
        pay_fields!(deneb, from, header, $x, $p);
        $p.receipts_list_root = $x.deposit_receipts_root;
        $p.requests_list_root = $x.withdrawal_requests_root;
    };
}
macro_rules! pay_mod {
    (phase0 $($g:ident)*) => {};
    (altair $($g:ident)*) => {};
    ($f:ident $($g:ident)*) => {
        pub type Payload = s::ExecutionPayload<$($g),*>;
        pub type Header = s::ExecutionPayloadHeader<BLOOM, EXTRA>;
        pub fn payload_to(p: &Pay) -> Payload {
            let mut x = Payload::default();
            pay_common!(x, p);
            x.transactions = seq(&p.transactions.iter().map(|t| bl(t)).collect::<Vec<_>>());
            pay_fields!($f, to, payload, x, p);
            x
        }
        pub fn header_to(p: &Pay) -> Header {
            let mut x = Header::default();
            pay_common!(x, p);
            x.transactions_root = p.transactions_root;
            pay_fields!($f, to, header, x, p);
            x
        }
        pub fn header_from(x: &Header) -> Pay {
            let mut p = Pay::default();
            pay_from!(x, p);
            pay_fields!($f, from, header, x, p);
            p
        }
    };
}

macro_rules! body_fields {
    (phase0, $b:ident, $k:ident) => {};
    (altair, $b:ident, $k:ident) => { $b.sync_aggregate = agg(&$k.agg); };
    (bellatrix, $b:ident, $k:ident) => {
        body_fields!(altair, $b, $k);
        $b.execution_payload = payload_to(&$k.payload);
    };
    (capella, $b:ident, $k:ident) => {
        body_fields!(bellatrix, $b, $k);
        $b.bls_to_execution_changes = seq(&$k.changes);
    };
    (deneb, $b:ident, $k:ident) => {
        body_fields!(capella, $b, $k);
        $b.blob_kzg_commitments = seq(&$k.commitments);
    };
    (electra, $b:ident, $k:ident) => {
        body_fields!(deneb, $b, $k);
        $b.consolidations = seq(&$k.consolidations);
    };
}
fn agg(a: &Agg) -> altair::SyncAggregate<SYNC> {
    altair::SyncAggregate {
        sync_committee_bits: bitv(&a.bits),
        sync_committee_signature: a.sig.clone(),
    }
}
macro_rules! att {
    (electra, $a:ident) => {
        electra::operations::Attestation::<MVPS, MCPS> {
            aggregation_bits: bits(&$a.bits),
            data: $a.data.clone(),
            committee_bits: bitv(&$a.cbits),
            signature: $a.sig.clone(),
        }
    };
    ($f:ident, $a:ident) => {
        phase0::Attestation::<MVPC> {
            aggregation_bits: bits(&$a.bits),
            data: $a.data.clone(),
            signature: $a.sig.clone(),
        }
    };
}
macro_rules! idx {
    (electra, $a:expr) => {
        electra::operations::IndexedAttestation::<MVPS> {
            attesting_indices: seq(&$a.indices),
            data: $a.data.clone(),
            signature: $a.sig.clone(),
        }
    };
    ($f:ident, $a:expr) => {
        phase0::IndexedAttestation::<MVPC> {
            attesting_indices: seq(&$a.indices),
            data: $a.data.clone(),
            signature: $a.sig.clone(),
        }
    };
}
macro_rules! aslash {
    (electra, $a:ident) => {
        electra::operations::AttesterSlashing::<MVPS> {
            attestation_1: idx!(electra, $a.a),
            attestation_2: idx!(electra, $a.b),
        }
    };
    ($f:ident, $a:ident) => {
        phase0::AttesterSlashing::<MVPC> {
            attestation_1: idx!($f, $a.a),
            attestation_2: idx!($f, $a.b),
        }
    };
}

type R = Result<(), String>;
fn e<E: Debug>(r: Result<(), E>) -> R {
    r.map_err(|e| format!("{e:?}"))
}
const NONE: R = Ok(());

macro_rules! ops_since {
    // what each fork offers beyond what all of them do
    (phase0, $st:ident, $op:ident, $c:ident) => {
        match $op {
            Op::PartRecord => { s::process_participation_record_updates(&mut $st); Some(NONE) }
            Op::HistRoots => Some(e(s::process_historical_roots_update(&mut $st, $c))),
            _ => None,
        }
    };
    (altair, $st:ident, $op:ident, $c:ident) => {
        match $op {
            Op::HistRoots => Some(e(s::process_historical_roots_update(&mut $st, $c))),
            _ => ops_since!(@altair $st, $op, $c),
        }
    };
    (bellatrix, $st:ident, $op:ident, $c:ident) => {
        match $op {
            Op::HistRoots => Some(e(s::process_historical_roots_update(&mut $st, $c))),
            Op::Payload(b) => Some(e(s::process_execution_payload(&mut $st, &body(b), $c))),
            _ => ops_since!(@altair $st, $op, $c),
        }
    };
    (capella, $st:ident, $op:ident, $c:ident) => { ops_since!(@capella $st, $op, $c) };
    (deneb, $st:ident, $op:ident, $c:ident) => { ops_since!(@capella $st, $op, $c) };
    (electra, $st:ident, $op:ident, $c:ident) => {
        match $op {
            Op::PendDeposits => Some(e(s::process_pending_balance_deposits(&mut $st, $c))),
            Op::PendConsolidations => Some(e(s::process_pending_consolidations(&mut $st, $c))),
            Op::Request(r) => Some(e(s::process_execution_layer_withdrawal_request(&mut $st, r, $c))),
            Op::Receipt(r) => Some(e(s::process_deposit_receipt(&mut $st, r, $c))),
            Op::Consolidate(r) => Some(e(s::process_consolidation(&mut $st, r, $c))),
            Op::ToCompounding(i) => Some(e(s::switch_to_compounding_validator(&mut $st, *i, $c))),
            _ => ops_since!(@capella $st, $op, $c),
        }
    };
    (@altair $st:ident, $op:ident, $c:ident) => {
        match $op {
            Op::Inactivity => Some(e(s::process_inactivity_updates(&mut $st, $c))),
            Op::PartFlags => Some(e(s::process_participation_flag_updates(&mut $st))),
            Op::SyncUpdate => Some(e(s::process_sync_committee_updates(&mut $st, $c))),
            Op::Sync(a) => Some(e(s::process_sync_aggregate(&mut $st, &agg(a), $c))),
            _ => None,
        }
    };
    (@capella $st:ident, $op:ident, $c:ident) => {
        match $op {
            Op::HistSummaries => Some(e(s::process_historical_summaries_update(&mut $st, $c))),
            Op::Payload(b) => Some(e(s::process_execution_payload(&mut $st, &body(b), $c))),
            Op::Withdrawals(b) => Some(e(s::process_withdrawals(&mut $st, &payload_to(&b.payload), $c))),
            Op::Change(x) => Some(e(s::process_bls_to_execution_change(&mut $st, x, $c))),
            _ => ops_since!(@altair $st, $op, $c),
        }
    };
}
macro_rules! queries_since {
    (@att electra, $st:ident, $q:ident, $a:ident, $c:ident) => {
        sorted(s::get_attesting_indices(&$st, &att!(electra, $a), $c))
    };
    (@att $f:ident, $st:ident, $q:ident, $a:ident, $c:ident) => {
        sorted(s::get_attesting_indices(&$st, &$a.data, &bits(&$a.bits), $c))
    };
    (phase0, $st:ident, $q:ident, $c:ident) => {
        match $q {
            Q::SourceDeltas => t(s::get_source_deltas(&$st, $c)),
            Q::TargetDeltas => t(s::get_target_deltas(&$st, $c)),
            Q::HeadDeltas => t(s::get_head_deltas(&$st, $c)),
            Q::DelayDeltas => t(s::get_inclusion_delay_deltas(&$st, $c)),
            Q::AttDeltas => t(s::get_attestation_deltas(&$st, $c)),
            _ => panic!("no such query"),
        }
    };
    (altair, $st:ident, $q:ident, $c:ident) => { queries_since!(@altair $st, $q, $c) };
    (bellatrix, $st:ident, $q:ident, $c:ident) => { queries_since!(@bellatrix $st, $q, $c) };
    (capella, $st:ident, $q:ident, $c:ident) => {
        match $q {
            Q::Expected => ok(s::get_expected_withdrawals(&$st, $c)),
            _ => queries_since!(@bellatrix $st, $q, $c),
        }
    };
    (deneb, $st:ident, $q:ident, $c:ident) => {
        match $q {
            Q::ActivationChurn => ok(s::get_validator_activation_churn_limit(&$st, $c)),
            Q::Expected => ok(s::get_expected_withdrawals(&$st, $c)),
            _ => queries_since!(@bellatrix $st, $q, $c),
        }
    };
    (electra, $st:ident, $q:ident, $c:ident) => {
        match $q {
            Q::Expected => ok(s::get_expected_withdrawals(&$st, $c)),
            Q::BalanceChurn => t(s::get_balance_churn_limit(&$st, $c)),
            Q::ExitChurn => t(s::get_activation_exit_churn_limit(&$st, $c)),
            Q::ConsChurn => t(s::get_consolidation_churn_limit(&$st, $c)),
            Q::ActiveBalance(i) => ok(s::get_active_balance(&$st, *i, $c)),
            Q::PendingWithdraw(i) => ok(s::get_pending_balance_to_withdraw(&$st, *i)),
            _ => queries_since!(@bellatrix $st, $q, $c),
        }
    };
    (@bellatrix $st:ident, $q:ident, $c:ident) => {
        match $q {
            Q::MergeComplete => ok(s::is_merge_transition_complete(&$st)),
            Q::MergeBlock(b) => ok(s::is_merge_transition_block(&$st, &body(b))),
            Q::ExecEnabled(b) => ok(s::is_execution_enabled(&$st, &body(b))),
            Q::HeaderOf(b) => t(s::ExecutionPayloadHeader::try_from(&payload_to(&b.payload)).map(|h| header_from(&h))),
            Q::Timestamp(x) => t(s::compute_timestamp_at_slot(&$st, *x, $c)),
            _ => queries_since!(@altair $st, $q, $c),
        }
    };
    (@altair $st:ident, $q:ident, $c:ident) => {
        match $q {
            Q::NextSync => t(s::get_next_sync_committee(&$st, $c).map(|x| sync_from(&x))),
            Q::NextSyncIndices => t(s::get_next_sync_committee_indices(&$st, $c)),
            Q::Flags(d, n) => t(s::get_attestation_participation_flag_indices(&$st, d, *n, $c)),
            Q::FlagDeltas(i) => t(s::get_flag_index_deltas(&$st, *i, $c)),
            Q::Participating(i, e) => sorted(s::get_unslashed_participating_indices(&$st, *i, *e, $c)),
            _ => panic!("no such query"),
        }
    };
}

macro_rules! genesis_call {
    (phase0, $h:ident, $t:ident, $d:ident, $p:ident, $c:ident) => {
        phase0::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVPC, PAB, PSLASH, ASLASH, ATTS, DEPOSITS, EXITS>($h, $t, $d, $c)
    };
    (altair, $h:ident, $t:ident, $d:ident, $p:ident, $c:ident) => {
        altair::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVPC, SYNC, PSLASH, ASLASH, ATTS, DEPOSITS, EXITS>($h, $t, $d, $c)
    };
    (bellatrix, $h:ident, $t:ident, $d:ident, $p:ident, $c:ident) => {
        bellatrix::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVPC, SYNC, PSLASH, ASLASH, ATTS, DEPOSITS, EXITS, BLOOM, EXTRA, TXB, TXS>($h, $t, $d, $p.map(header_to).as_ref(), $c)
    };
    (capella, $h:ident, $t:ident, $d:ident, $p:ident, $c:ident) => {
        capella::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVPC, SYNC, PSLASH, ASLASH, ATTS, DEPOSITS, EXITS, BLOOM, EXTRA, TXB, TXS, WDS, CHANGES>($h, $t, $d, $p.map(header_to).as_ref(), $c)
    };
    (deneb, $h:ident, $t:ident, $d:ident, $p:ident, $c:ident) => {
        deneb::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVPC, SYNC, PSLASH, ASLASH, ATTS, DEPOSITS, EXITS, BLOOM, EXTRA, TXB, TXS, WDS, CHANGES, BLOBS>($h, $t, $d, $p.map(header_to).as_ref(), $c)
    };
    (electra, $h:ident, $t:ident, $d:ident, $p:ident, $c:ident) => {
        electra::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVPC, SYNC, PBD, PPW, PC, PSLASH, MVPS, MCPS, ASLASH, ATTS, DEPOSITS, EXITS, BLOOM, EXTRA, TXB, TXS, WDS, RECEIPTS, REQUESTS, CHANGES, BLOBS, CONS>($h, $t, $d, $p.map(header_to).as_ref(), $c)
    };
}
macro_rules! fork {
    ($f:ident, $mn:ident, $F:ident, state[$($sg:ident)*], body[$($bg:ident)*], pay[$($pg:ident)*]) => {
        pub mod $mn {
            use super::*;
            use ::ethereum_consensus::$f as s;
            pub type State = s::BeaconState<$($sg),*>;
            pub type Body = s::BeaconBlockBody<$($bg),*>;
            pub type Block = s::BeaconBlock<$($bg),*>;
            pub type Signed = s::SignedBeaconBlock<$($bg),*>;
            pay_mod!($f $($pg)*);
            pub fn to(m: &M) -> State {
                assert_eq!(m.f, $F);
                let mut s = State::default();
                base!(to, to_seq, s, m);
                s.justification_bits = bitv(&m.jbits);
                extra!($f, to, s, m);
                s
            }
            pub fn from(s: &State) -> M {
                let mut m = M { f: $F, ..M::default() };
                base!(from, from_seq, s, m);
                m.jbits = s.justification_bits.iter().map(|b| *b).collect();
                extra!($f, from, s, m);
                m
            }
            pub fn body(b: &Blk) -> Body {
                let mut x = Body {
                    randao_reveal: b.randao.clone(),
                    eth1_data: b.eth1.clone(),
                    graffiti: b.graffiti.clone(),
                    proposer_slashings: seq(&b.pslash),
                    attester_slashings: seq(&b.aslash.iter().map(|a| aslash!($f, a)).collect::<Vec<_>>()),
                    attestations: seq(&b.atts.iter().map(|a| att!($f, a)).collect::<Vec<_>>()),
                    deposits: seq(&b.deposits),
                    voluntary_exits: seq(&b.exits),
                    ..Default::default()
                };
                let _ = &mut x;
                body_fields!($f, x, b);
                x
            }
            pub fn block(b: &Blk) -> Block {
                Block {
                    slot: b.slot,
                    proposer_index: b.proposer,
                    parent_root: b.parent_root,
                    state_root: b.state_root,
                    body: body(b),
                }
            }
            pub fn signed(b: &Blk) -> Signed {
                Signed { message: block(b), signature: b.sig.clone() }
            }
            pub fn genesis(h: Bytes32, t: u64, d: &[Deposit], p: Option<&Pay>, c: &Context) -> Result<(M, Block), String> {
                let _ = p;
                let st: State = genesis_call!($f, h, t, d, p, c).map_err(|e| format!("{e:?}"))?;
                let b: Block = s::get_genesis_block(&st).map_err(|e| format!("{e:?}"))?;
                Ok((from(&st), b))
            }
            pub fn apply(m: &M, op: &Op, c: &Context) -> Result<M, String> {
                let mut st = to(m);
                run(&mut st, op, c)?;
                Ok(from(&st))
            }
            pub fn run(stp: &mut State, op: &Op, c: &Context) -> R {
                let mut st = std::mem::take(stp);
                let v = |b: bool| if b { Validation::Enabled } else { Validation::Disabled };
                let r = match op {
                    Op::Slots(n) => e(s::process_slots(&mut st, *n, c)),
                    Op::Slot => e(s::process_slot(&mut st, c)),
                    Op::Epoch => e(s::process_epoch(&mut st, c)),
                    Op::Justification => e(s::process_justification_and_finalization(&mut st, c)),
                    Op::Rewards => e(s::process_rewards_and_penalties(&mut st, c)),
                    Op::Registry => e(s::process_registry_updates(&mut st, c)),
                    Op::Slashings => e(s::process_slashings(&mut st, c)),
                    Op::Eth1Reset => { s::process_eth1_data_reset(&mut st, c); NONE }
                    Op::EffBal => { s::process_effective_balance_updates(&mut st, c); NONE }
                    Op::SlashReset => { s::process_slashings_reset(&mut st, c); NONE }
                    Op::RandaoReset => { s::process_randao_mixes_reset(&mut st, c); NONE }
                    Op::Header(b) => e(s::process_block_header(&mut st, &block(b), c)),
                    Op::Randao(b) => e(s::process_randao(&mut st, &body(b), c)),
                    Op::Eth1(b) => { s::process_eth1_data(&mut st, &body(b), c); NONE }
                    Op::Operations(b) => e(s::process_operations(&mut st, &body(b), c)),
                    Op::Block(b) => e(s::process_block(&mut st, &block(b), c)),
                    Op::Transition(b, x) => e(s::state_transition(&mut st, &signed(b), v(*x), c)),
                    Op::InSlot(b, x) => e(s::state_transition_block_in_slot(&mut st, &signed(b), v(*x), c)),
                    Op::PSlash(x) => e(s::process_proposer_slashing(&mut st, x, c)),
                    Op::ASlash(a) => e(s::process_attester_slashing(&mut st, &aslash!($f, a), c)),
                    Op::Att(a) => e(s::process_attestation(&mut st, &att!($f, a), c)),
                    Op::Deposit(d) => e(s::process_deposit(&mut st, d, c)),
                    Op::Exit(x) => e(s::process_voluntary_exit(&mut st, x, c)),
                    Op::InitiateExit(i) => {
                        e(s::initiate_validator_exit(&mut st, *i, c))
                    }
                    Op::Slash(i, w) => e(s::slash_validator(&mut st, *i, *w, c)),
                    _ => ops_since!($f, st, op, c).unwrap_or_else(|| panic!("no such operation")),
                };
                *stp = st;
                r
            }
            pub fn ask(m: &M, q: &Q, c: &Context) -> Result<String, String> {
                let st = to(m);
                match q {
                    Q::Proposer => t(s::get_beacon_proposer_index(&st, c)),
                    Q::Committee(a, i) => t(s::get_beacon_committee(&st, *a, *i, c)),
                    Q::CommitteeCount(x) => ok(s::get_committee_count_per_slot(&st, *x, c)),
                    Q::Seed(x, d) => ok(s::get_seed(&st, *x, domain_type(*d), c)),
                    Q::Active(x) => ok(s::get_active_validator_indices(&st, *x)),
                    Q::ChurnLimit => ok(s::get_validator_churn_limit(&st, c)),
                    Q::BlockRoot(x) => t(s::get_block_root(&st, *x, c)),
                    Q::BlockRootAtSlot(x) => t(s::get_block_root_at_slot(&st, *x)),
                    Q::Mix(x) => ok(s::get_randao_mix(&st, *x)),
                    Q::TotalActive => t(s::get_total_active_balance(&st, c)),
                    Q::BaseReward(i) => t(s::get_base_reward(&st, *i, c)),
                    Q::FinalityDelay => ok(s::get_finality_delay(&st, c)),
                    Q::Leak => ok(s::is_in_inactivity_leak(&st, c)),
                    Q::InactivityDeltas => t(s::get_inactivity_penalty_deltas(&st, c)),
                    Q::Domain(d, x) => t(s::get_domain(&st, domain_type(*d), *x, c)),
                    Q::ValidIndexed(a) => t(s::is_valid_indexed_attestation(&st, &idx!($f, a), c)),
                    Q::BlockSig(b) => t(s::verify_block_signature(&st, &signed(b), c)),
                    Q::ValidGenesis => ok(s::is_valid_genesis_state(&st, c)),
                    Q::Attesting(a) => queries_since!(@att $f, st, q, a, c),
                    _ => queries_since!($f, st, q, c),
                }
            }
        }
    };
}

fork!(phase0, phase0_, Phase0, state[SPHR HRL VOTES VRL EPHV EPSV MVPC PAB],
    body[PSLASH MVPC ASLASH ATTS DEPOSITS EXITS], pay[]);
fork!(altair, altair_, Altair, state[SPHR HRL VOTES VRL EPHV EPSV MVPC SYNC],
    body[PSLASH MVPC ASLASH ATTS DEPOSITS EXITS SYNC], pay[]);
fork!(bellatrix, bellatrix_, Bellatrix, state[SPHR HRL VOTES VRL EPHV EPSV MVPC SYNC BLOOM EXTRA],
    body[PSLASH MVPC ASLASH ATTS DEPOSITS EXITS SYNC BLOOM EXTRA TXB TXS],
    pay[BLOOM EXTRA TXB TXS]);
fork!(capella, capella_, Capella, state[SPHR HRL VOTES VRL EPHV EPSV MVPC SYNC BLOOM EXTRA],
    body[PSLASH MVPC ASLASH ATTS DEPOSITS EXITS SYNC BLOOM EXTRA TXB TXS WDS CHANGES],
    pay[BLOOM EXTRA TXB TXS WDS]);
fork!(deneb, deneb_, Deneb, state[SPHR HRL VOTES VRL EPHV EPSV MVPC SYNC BLOOM EXTRA],
    body[PSLASH MVPC ASLASH ATTS DEPOSITS EXITS SYNC BLOOM EXTRA TXB TXS WDS CHANGES BLOBS],
    pay[BLOOM EXTRA TXB TXS WDS]);
fork!(electra, electra_, Electra, state[SPHR HRL VOTES VRL EPHV EPSV MVPC SYNC BLOOM EXTRA PBD PPW PC],
    body[PSLASH MVPS MCPS ASLASH ATTS DEPOSITS EXITS SYNC BLOOM EXTRA TXB TXS WDS RECEIPTS REQUESTS CHANGES BLOBS CONS],
    pay[BLOOM EXTRA TXB TXS WDS RECEIPTS REQUESTS]);

macro_rules! by_fork {
    ($f:expr, $m:ident => $x:expr) => {
        match $f {
            Phase0 => { use phase0_ as $m; $x }
            Altair => { use altair_ as $m; $x }
            Bellatrix => { use bellatrix_ as $m; $x }
            Capella => { use capella_ as $m; $x }
            Deneb => { use deneb_ as $m; $x }
            Electra => { use electra_ as $m; $x }
        }
    };
}

pub type AnyState = types::BeaconState<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVPC, PAB, SYNC, BLOOM, EXTRA>;
pub type AnyBlock = types::SignedBeaconBlock<
    PSLASH, MVPC, ASLASH, ATTS, DEPOSITS, EXITS, SYNC, BLOOM, EXTRA, TXB, TXS, WDS, CHANGES, BLOBS,
>;
pub type Exec = Executor<
    SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVPC, PAB, SYNC, BLOOM, EXTRA, TXB, TXS, PSLASH, ASLASH, ATTS,
    DEPOSITS, EXITS, WDS, CHANGES, BLOBS,
>;
pub fn any_to(m: &M) -> AnyState {
    match m.f {
        Phase0 => AnyState::Phase0(phase0_::to(m)),
        Altair => AnyState::Altair(altair_::to(m)),
        Bellatrix => AnyState::Bellatrix(bellatrix_::to(m)),
        Capella => AnyState::Capella(capella_::to(m)),
        Deneb => AnyState::Deneb(deneb_::to(m)),
        Electra => panic!("no such operation"),
    }
}
pub fn any_from(s: &AnyState) -> M {
    match s {
        AnyState::Phase0(s) => phase0_::from(s),
        AnyState::Altair(s) => altair_::from(s),
        AnyState::Bellatrix(s) => bellatrix_::from(s),
        AnyState::Capella(s) => capella_::from(s),
        AnyState::Deneb(s) => deneb_::from(s),
    }
}
pub fn any_block(f: F, b: &Blk) -> AnyBlock {
    match f {
        Phase0 => AnyBlock::Phase0(phase0_::signed(b)),
        Altair => AnyBlock::Altair(altair_::signed(b)),
        Bellatrix => AnyBlock::Bellatrix(bellatrix_::signed(b)),
        Capella => AnyBlock::Capella(capella_::signed(b)),
        Deneb => AnyBlock::Deneb(deneb_::signed(b)),
        Electra => panic!("no such operation"),
    }
}
fn upgrade(m: &M, c: &Context) -> Result<M, String> {
    let s = |e: ethereum_consensus::Error| format!("{e:?}");
    Ok(match m.f {
        Phase0 => {
            let x: altair_::State = altair::upgrade_to_altair(&phase0_::to(m), c).map_err(s)?;
            altair_::from(&x)
        }
        Altair => {
            let x: bellatrix_::State = bellatrix::upgrade_to_bellatrix(&altair_::to(m), c);
            bellatrix_::from(&x)
        }
        Bellatrix => {
            let x: capella_::State = capella::upgrade_to_capella(&bellatrix_::to(m), c);
            capella_::from(&x)
        }
        Capella => {
            let x: deneb_::State = deneb::upgrade_to_deneb(&capella_::to(m), c);
            deneb_::from(&x)
        }
        Deneb => {
            let x: electra_::State = electra::upgrade_to_electra(&deneb_::to(m), c).map_err(s)?;
            electra_::from(&x)
        }
        Electra => panic!("no such operation"),
    })
}
fn chain(m: &M, f: F, b: &Blk, on: bool, c: &Context) -> Result<M, String> {
    let mut x = Exec::new(any_to(m), c.clone());
    let block = any_block(f, b);
    // with validation on there are two ways to ask for the same thing
    let r = if on && b.slot % 2 == 0 {
        x.apply_block(&block)
    } else {
        x.apply_block_with_validation(&block, if on { Validation::Enabled } else { Validation::Disabled })
    };
    r.map_err(|e| format!("{e:?}"))?;
    Ok(any_from(&x.state))
}

/// Applies `op` to the state; a panic of the code under test is the error "panic: ...".
pub fn apply(m: &M, op: &Op, c: &Context) -> Result<M, String> {
    mc::guard(|| match op {
        Op::Upgrade => upgrade(m, c),
        Op::Chain(f, b, v) => chain(m, *f, b, *v, c),
        _ => by_fork!(m.f, k => k::apply(m, op, c)),
    })
    .and_then(|r| r)
}
pub fn ask(m: &M, q: &Q, c: &Context) -> Result<String, String> {
    mc::guard(|| by_fork!(m.f, k => k::ask(m, q, c))).and_then(|r| r)
}
/// The genesis state, and the root of the block that goes with it.
pub fn genesis(f: F, h: Bytes32, t: u64, d: &[Deposit], p: Option<&Pay>, c: &Context) -> Result<(M, Root), String> {
    mc::guard(|| {
        by_fork!(f, k => k::genesis(h, t, d, p, c).map(|(m, b)| {
            (m, b.hash_tree_root().unwrap())
        }))
    })
    .and_then(|r| r)
}
pub fn state_root(m: &M) -> Root {
    by_fork!(m.f, k => k::to(m).hash_tree_root().unwrap())
}
pub fn body_root(f: F, b: &Blk) -> Root {
    by_fork!(f, k => k::body(b).hash_tree_root().unwrap())
}
pub fn block_root(f: F, b: &Blk) -> Root {
    by_fork!(f, k => k::block(b).hash_tree_root().unwrap())
}
/// The roots a header carries in place of the lists of its payload.
pub fn fill_roots(f: F, p: &mut Pay) {
    let tx: List<ByteList<TXB>, TXS> = seq(&p.transactions.iter().map(|t| bl(t)).collect::<Vec<_>>());
    p.transactions_root = tx.hash_tree_root().unwrap();
    if f >= Capella {
        let w: List<Withdrawal, WDS> = seq(&p.withdrawals);
        p.withdrawals_root = w.hash_tree_root().unwrap();
    }
    if f >= Electra {
        let x: List<DepositReceipt, RECEIPTS> = seq(&p.receipts);
        p.receipts_list_root = x.hash_tree_root().unwrap();
        let x: List<ExecutionLayerWithdrawalRequest, REQUESTS> = seq(&p.requests);
        p.requests_list_root = x.hash_tree_root().unwrap();
    }
}
