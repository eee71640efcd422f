//! A preset small enough to enumerate states of.
use crate::m::*;

pub const SPE: u64 = 4;
pub const SPHR: usize = 8;
pub const HRL: usize = 16;
pub const VOTES: usize = 8;
pub const VRL: usize = 64;
pub const EPHV: usize = 8;
pub const EPSV: usize = 4;
pub const MVPC: usize = 8;
pub const PAB: usize = 16;
pub const SYNC: usize = 4;
pub const BLOOM: usize = 4;
pub const EXTRA: usize = 4;
pub const PSLASH: usize = 2;
pub const ASLASH: usize = 2;
pub const ATTS: usize = 4;
pub const DEPOSITS: usize = 2;
pub const EXITS: usize = 2;
pub const TXB: usize = 8;
pub const TXS: usize = 4;
pub const WDS: usize = 3;
pub const CHANGES: usize = 2;
pub const BLOBS: usize = 3;
pub const MVPS: usize = 16;
pub const MCPS: usize = 2;
pub const RECEIPTS: usize = 3;
pub const REQUESTS: usize = 3;
pub const CONS: usize = 2;
pub const PBD: usize = 4;
pub const PPW: usize = 3;
pub const PC: usize = 3;

/// The context of the small preset. Everything the transition reads is set here, so that the
/// values shipped with the library do not decide how deep an exploration is.
pub fn ctx() -> Context {
    let mut c = Context::for_minimal();
    c.max_committees_per_slot = MCPS as u64;
    c.target_committee_size = 2;
    c.max_validators_per_committee = MVPC;
    c.shuffle_round_count = 5;
    c.hysteresis_quotient = 4;
    c.hysteresis_downward_multiplier = 1;
    c.hysteresis_upward_multiplier = 5;
    c.min_deposit_amount = ETH;
    c.max_effective_balance = 32 * ETH;
    c.effective_balance_increment = ETH;
    c.min_attestation_inclusion_delay = 1;
    c.slots_per_epoch = SPE;
    c.min_seed_lookahead = 1;
    c.max_seed_lookahead = 2;
    c.min_epochs_to_inactivity_penalty = 2;
    c.epochs_per_eth1_voting_period = 2;
    c.slots_per_historical_root = SPHR as u64;
    c.epochs_per_historical_vector = EPHV as u64;
    c.epochs_per_slashings_vector = EPSV as u64;
    c.historical_roots_limit = HRL;
    c.validator_registry_limit = VRL;
    c.base_reward_factor = 64;
    c.whistleblower_reward_quotient = 512;
    c.proposer_reward_quotient = 8;
    c.inactivity_penalty_quotient = 1 << 20;
    c.min_slashing_penalty_quotient = 128;
    c.proportional_slashing_multiplier = 2;
    c.max_proposer_slashings = PSLASH;
    c.max_attester_slashings = ASLASH;
    c.max_attestations = ATTS;
    c.max_deposits = DEPOSITS;
    c.max_voluntary_exits = EXITS;
    c.inactivity_penalty_quotient_altair = 3 * (1 << 10);
    c.min_slashing_penalty_quotient_altair = 64;
    c.proportional_slashing_multiplier_altair = 4;
    c.sync_committee_size = SYNC;
    c.epochs_per_sync_committee_period = 2;
    c.min_sync_committee_participants = 1;
    c.inactivity_penalty_quotient_bellatrix = 1 << 10;
    c.min_slashing_penalty_quotient_bellatrix = 32;
    c.proportional_slashing_multiplier_bellatrix = 3;
    c.max_bytes_per_transaction = TXB;
    c.max_transactions_per_payload = TXS;
    c.bytes_per_logs_bloom = BLOOM;
    c.max_extra_data_bytes = EXTRA;
    c.max_bls_to_execution_changes = CHANGES;
    c.max_withdrawals_per_payload = WDS;
    c.max_validators_per_withdrawals_sweep = 4;
    c.max_blob_commitments_per_block = BLOBS;
    c.max_blobs_per_block = 2;
    c.min_activation_balance = 32 * ETH;
    c.max_effective_balance_electra = 128 * ETH;
    c.min_slashing_penalty_quotient_electra = 256;
    c.whistleblower_reward_quotient_electra = 1024;
    c.pending_balance_deposits_limit = PBD;
    c.pending_partial_withdrawals_limit = PPW;
    c.pending_consolidations_limit = PC;
    c.max_attester_slashings_electra = ASLASH;
    c.max_attestations_electra = ATTS;
    c.max_consolidations = CONS;
    c.max_deposit_receipts_per_payload = RECEIPTS;
    c.max_withdrawal_requests_per_payload = REQUESTS;
    c.max_pending_partials_per_withdrawals_sweep = 2;
    c.min_genesis_active_validator_count = 4;
    c.min_genesis_time = 1000;
    c.genesis_delay = 300;
    c.genesis_fork_version = [0, 0, 0, 9];
    c.altair_fork_version = [1, 0, 0, 9];
    c.bellatrix_fork_version = [2, 0, 0, 9];
    c.capella_fork_version = [3, 0, 0, 9];
    c.deneb_fork_version = [4, 0, 0, 9];
    c.electra_fork_version = [5, 0, 0, 9];
    c.altair_fork_epoch = 1;
    c.bellatrix_fork_epoch = 2;
    c.capella_fork_epoch = 3;
    c.deneb_fork_epoch = 4;
    c.electra_fork_epoch = 5;
    c.seconds_per_slot = 12;
    c.min_validator_withdrawability_delay = 3;
    c.shard_committee_period = 4;
    c.inactivity_score_bias = 4;
    c.inactivity_score_recovery_rate = 16;
    c.ejection_balance = 16 * ETH;
    c.min_per_epoch_churn_limit = 2;
    c.max_per_epoch_activation_churn_limit = 3;
    c.min_per_epoch_churn_limit_electra = 64 * ETH;
    c.max_per_epoch_activation_exit_churn_limit = 128 * ETH;
    c.churn_limit_quotient = 4;
    c.execution_engine = true;
    c
}

pub fn version(c: &Context, f: F) -> Version {
    match f {
        Phase0 => c.genesis_fork_version,
        Altair => c.altair_fork_version,
        Bellatrix => c.bellatrix_fork_version,
        Capella => c.capella_fork_version,
        Deneb => c.deneb_fork_version,
        Electra => c.electra_fork_version,
    }
}
