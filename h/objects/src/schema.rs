//! The containers of every fork, as the specification defines them.
use crate::form::*;

/// The sizes a preset fixes.
pub struct P {
    pub name: &'static str,
    pub sphr: usize,
    pub hrl: u64,
    pub votes: u64,
    pub vrl: u64,
    pub ephv: usize,
    pub epsv: usize,
    pub mvpc: u64,
    pub mcps: usize,
    pub pab: u64,
    pub proposer_slashings: u64,
    pub attester_slashings: u64,
    pub attester_slashings_electra: u64,
    pub attestations: u64,
    pub attestations_electra: u64,
    pub deposits: u64,
    pub exits: u64,
    pub sync: usize,
    pub subnet: usize,
    pub bloom: usize,
    pub extra: u64,
    pub tx_bytes: u64,
    pub txs: u64,
    pub withdrawals: u64,
    pub changes: u64,
    pub commitments: u64,
    pub depth: usize,
    pub blob: usize,
    pub receipts: u64,
    pub requests: u64,
    pub consolidations: u64,
    pub pbd: u64,
    pub ppw: u64,
    pub pc: u64,
}
pub const MAINNET: P = P {
    name: "mainnet",
    sphr: 8192,
    hrl: 1 << 24,
    votes: 64 * 32,
    vrl: 1 << 40,
    ephv: 65536,
    epsv: 8192,
    mvpc: 2048,
    mcps: 64,
    pab: 128 * 32,
    proposer_slashings: 16,
    attester_slashings: 2,
    attester_slashings_electra: 1,
    attestations: 128,
    attestations_electra: 8,
    deposits: 16,
    exits: 16,
    sync: 512,
    subnet: 128,
    bloom: 256,
    extra: 32,
    tx_bytes: 1 << 30,
    txs: 1 << 20,
    withdrawals: 16,
    changes: 16,
    commitments: 4096,
    depth: 17,
    blob: 131072,
    receipts: 8192,
    requests: 16,
    consolidations: 1,
    pbd: 1 << 27,
    ppw: 1 << 27,
    pc: 1 << 18,
};
pub const MINIMAL: P = P {
    name: "minimal",
    sphr: 64,
    votes: 4 * 8,
    ephv: 64,
    epsv: 64,
    mcps: 4,
    pab: 128 * 8,
    sync: 32,
    subnet: 8,
    withdrawals: 4,
    commitments: 16,
    depth: 9,
    receipts: 4,
    requests: 2,
    ppw: 64,
    pc: 64,
    ..MAINNET
};
pub const TINY: P = P {
    name: "tiny",
    sphr: 4,
    hrl: 5,
    votes: 3,
    vrl: 6,
    ephv: 2,
    epsv: 3,
    mvpc: 9,
    mcps: 3,
    pab: 4,
    proposer_slashings: 2,
    attester_slashings: 1,
    attester_slashings_electra: 1,
    attestations: 3,
    attestations_electra: 3,
    deposits: 5,
    exits: 4,
    sync: 6,
    subnet: 3,
    bloom: 7,
    extra: 5,
    tx_bytes: 11,
    txs: 3,
    withdrawals: 7,
    changes: 8,
    commitments: 10,
    depth: 3,
    blob: 40,
    receipts: 2,
    requests: 4,
    consolidations: 2,
    pbd: 5,
    ppw: 3,
    pc: 4,
};

const U8: T = U(1);
const U64: T = U(8);
const U256: T = U(32);
const ROOT: T = Bytes(32);
const B32: T = Bytes(32);
const KEY: T = Bytes(48);
const SIG: T = Bytes(96);
const KZG: T = Bytes(48);
const ADDR: T = Bytes(20);
const VERSION: T = Bytes(4);
type F = Vec<(&'static str, T)>;
fn c(name: &'static str, f: F) -> T {
    C(name, f)
}

pub const PHASE0: usize = 0;
pub const ALTAIR: usize = 1;
pub const BELLATRIX: usize = 2;
pub const CAPELLA: usize = 3;
pub const DENEB: usize = 4;
pub const ELECTRA: usize = 5;
pub const FORKS: [&str; 6] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];

impl P {
    /// The container of that name at that fork.
    pub fn of(&self, fork: usize, name: &str) -> T {
        let this = |n: &str| self.of(fork, n);
        let header = || this("ExecutionPayloadHeader");
        match name {
            "Checkpoint" => c("Checkpoint", vec![("epoch", U64), ("root", ROOT)]),
            "Fork" => c("Fork", vec![("previous_version", VERSION), ("current_version", VERSION), ("epoch", U64)]),
            "ForkData" => c("ForkData", vec![("current_version", VERSION), ("genesis_validators_root", ROOT)]),
            "Validator" => c("Validator", vec![
                ("pubkey", KEY),
                ("withdrawal_credentials", B32),
                ("effective_balance", U64),
                ("slashed", Bool),
                ("activation_eligibility_epoch", U64),
                ("activation_epoch", U64),
                ("exit_epoch", U64),
                ("withdrawable_epoch", U64),
            ]),
            "AttestationData" => c("AttestationData", vec![
                ("slot", U64),
                ("index", U64),
                ("beacon_block_root", ROOT),
                ("source", this("Checkpoint")),
                ("target", this("Checkpoint")),
            ]),
            "IndexedAttestation" => {
                let n = if fork >= ELECTRA { self.mvpc * self.mcps as u64 } else { self.mvpc };
                c("IndexedAttestation", vec![("attesting_indices", list(&U64, n)), ("data", this("AttestationData")), ("signature", SIG)])
            }
            "PendingAttestation" => c("PendingAttestation", vec![
                ("aggregation_bits", BitList(self.mvpc)),
                ("data", this("AttestationData")),
                ("inclusion_delay", U64),
                ("proposer_index", U64),
            ]),
            "Eth1Data" => c("Eth1Data", vec![("deposit_root", ROOT), ("deposit_count", U64), ("block_hash", B32)]),
            "HistoricalBatch" => c("HistoricalBatch", vec![("block_roots", vector(&ROOT, self.sphr)), ("state_roots", vector(&ROOT, self.sphr))]),
            "HistoricalSummary" => c("HistoricalSummary", vec![("block_summary_root", ROOT), ("state_summary_root", ROOT)]),
            "DepositMessage" => c("DepositMessage", vec![("pubkey", KEY), ("withdrawal_credentials", B32), ("amount", U64)]),
            "DepositData" => c("DepositData", vec![("pubkey", KEY), ("withdrawal_credentials", B32), ("amount", U64), ("signature", SIG)]),
            "Deposit" => c("Deposit", vec![("proof", vector(&ROOT, 33)), ("data", this("DepositData"))]),
            "BeaconBlockHeader" => c("BeaconBlockHeader", vec![
                ("slot", U64),
                ("proposer_index", U64),
                ("parent_root", ROOT),
                ("state_root", ROOT),
                ("body_root", ROOT),
            ]),
            "SigningData" => c("SigningData", vec![("object_root", ROOT), ("domain", B32)]),
            "ProposerSlashing" => c("ProposerSlashing", vec![
                ("signed_header_1", this("SignedBeaconBlockHeader")),
                ("signed_header_2", this("SignedBeaconBlockHeader")),
            ]),
            "AttesterSlashing" => c("AttesterSlashing", vec![("attestation_1", this("IndexedAttestation")), ("attestation_2", this("IndexedAttestation"))]),
            "Attestation" if fork >= ELECTRA => c("Attestation", vec![
                ("aggregation_bits", BitList(self.mvpc * self.mcps as u64)),
                ("data", this("AttestationData")),
                ("committee_bits", Bits(self.mcps)),
                ("signature", SIG),
            ]),
            "Attestation" => c("Attestation", vec![("aggregation_bits", BitList(self.mvpc)), ("data", this("AttestationData")), ("signature", SIG)]),
            "VoluntaryExit" => c("VoluntaryExit", vec![("epoch", U64), ("validator_index", U64)]),
            "AggregateAndProof" => c("AggregateAndProof", vec![("aggregator_index", U64), ("aggregate", this("Attestation")), ("selection_proof", SIG)]),
            "Eth1Block" => c("Eth1Block", vec![("timestamp", U64), ("deposit_root", ROOT), ("deposit_count", U64)]),
            "SyncAggregate" => c("SyncAggregate", vec![("sync_committee_bits", Bits(self.sync)), ("sync_committee_signature", SIG)]),
            "SyncCommittee" => c("SyncCommittee", vec![("pubkeys", vector(&KEY, self.sync)), ("aggregate_pubkey", KEY)]),
            "SyncCommitteeMessage" => c("SyncCommitteeMessage", vec![("slot", U64), ("beacon_block_root", ROOT), ("validator_index", U64), ("signature", SIG)]),
            "SyncCommitteeContribution" => c("SyncCommitteeContribution", vec![
                ("slot", U64),
                ("beacon_block_root", ROOT),
                ("subcommittee_index", U64),
                ("aggregation_bits", Bits(self.subnet)),
                ("signature", SIG),
            ]),
            "ContributionAndProof" => c("ContributionAndProof", vec![("aggregator_index", U64), ("contribution", this("SyncCommitteeContribution")), ("selection_proof", SIG)]),
            "SyncAggregatorSelectionData" => c("SyncAggregatorSelectionData", vec![("slot", U64), ("subcommittee_index", U64)]),
            "LightClientHeader" => {
                let mut f = vec![("beacon", this("BeaconBlockHeader"))];
                if fork >= CAPELLA {
                    f.extend([("execution", header()), ("execution_branch", vector(&ROOT, 4))]);
                }
                c("LightClientHeader", f)
            }
            "LightClientBootstrap" => c("LightClientBootstrap", vec![
                ("header", this("LightClientHeader")),
                ("current_sync_committee", this("SyncCommittee")),
                ("current_sync_committee_branch", vector(&ROOT, 5)),
            ]),
            "LightClientUpdate" => c("LightClientUpdate", vec![
                ("attested_header", this("LightClientHeader")),
                ("next_sync_committee", this("SyncCommittee")),
                ("next_sync_committee_branch", vector(&ROOT, 5)),
                ("finalized_header", this("LightClientHeader")),
                ("finality_branch", vector(&ROOT, 6)),
                ("sync_aggregate", this("SyncAggregate")),
                ("signature_slot", U64),
            ]),
            "LightClientFinalityUpdate" => c("LightClientFinalityUpdate", vec![
                ("attested_header", this("LightClientHeader")),
                ("finalized_header", this("LightClientHeader")),
                ("finality_branch", vector(&ROOT, 6)),
                ("sync_aggregate", this("SyncAggregate")),
                ("signature_slot", U64),
            ]),
            "LightClientOptimisticUpdate" => c("LightClientOptimisticUpdate", vec![
                ("attested_header", this("LightClientHeader")),
                ("sync_aggregate", this("SyncAggregate")),
                ("signature_slot", U64),
            ]),
            "PowBlock" => c("PowBlock", vec![("block_hash", B32), ("parent_hash", B32), ("total_difficulty", U256)]),
            "Withdrawal" => c("Withdrawal", vec![("index", U64), ("validator_index", U64), ("address", ADDR), ("amount", U64)]),
            "BlsToExecutionChange" => c("BlsToExecutionChange", vec![("validator_index", U64), ("from_bls_pubkey", KEY), ("to_execution_address", ADDR)]),
            "BlobIdentifier" => c("BlobIdentifier", vec![("block_root", ROOT), ("index", U64)]),
            "BlobSidecar" => c("BlobSidecar", vec![
                ("index", U64),
                ("blob", Bytes(self.blob)),
                ("kzg_commitment", KZG),
                ("kzg_proof", KZG),
                ("signed_block_header", this("SignedBeaconBlockHeader")),
                ("kzg_commitment_inclusion_proof", vector(&ROOT, self.depth)),
            ]),
            "BlobsBundle" => c("BlobsBundle", vec![
                ("commitments", list(&KZG, 1 << 20)),
                ("proofs", list(&KZG, 1 << 20)),
                ("blobs", list(&Bytes(self.blob), 1 << 20)),
            ]),
            "ValidatorRegistration" => c("ValidatorRegistration", vec![("fee_recipient", ADDR), ("gas_limit", U64), ("timestamp", U64), ("pubkey", KEY)]),
            "DepositReceipt" => c("DepositReceipt", vec![("pubkey", KEY), ("withdrawal_credentials", B32), ("amount", U64), ("signature", SIG), ("index", U64)]),
            "PendingBalanceDeposit" => c("PendingBalanceDeposit", vec![("index", U64), ("amount", U64)]),
            "PendingPartialWithdrawal" => c("PendingPartialWithdrawal", vec![("index", U64), ("amount", U64), ("withdrawable_epoch", U64)]),
            "ExecutionLayerWithdrawalRequest" => c("ExecutionLayerWithdrawalRequest", vec![("source_address", ADDR), ("validator_pubkey", KEY), ("amount", U64)]),
            "PendingConsolidation" => c("PendingConsolidation", vec![("source_index", U64), ("target_index", U64)]),
            "Consolidation" => c("Consolidation", vec![("source_index", U64), ("target_index", U64), ("epoch", U64)]),
            "Transaction" => Data(self.tx_bytes),
            "ExecutionPayload" => c("ExecutionPayload", self.payload(fork, false)),
            "ExecutionPayloadHeader" => c("ExecutionPayloadHeader", self.payload(fork, true)),
            "BeaconBlockBody" => c("BeaconBlockBody", self.body(fork, false)),
            "BlindedBeaconBlockBody" => c("BlindedBeaconBlockBody", self.body(fork, true)),
            "BeaconBlock" | "BlindedBeaconBlock" => {
                let name = if name == "BeaconBlock" { "BeaconBlock" } else { "BlindedBeaconBlock" };
                let body = this(&format!("{name}Body"));
                c(name, vec![("slot", U64), ("proposer_index", U64), ("parent_root", ROOT), ("state_root", ROOT), ("body", body)])
            }
            "BeaconState" => c("BeaconState", self.state(fork)),
            _ => match name.strip_prefix("Signed") {
                Some(n) => c("Signed", vec![("message", this(n)), ("signature", SIG)]),
                None => panic!("no container {name}"),
            },
        }
    }

    fn payload(&self, fork: usize, header: bool) -> F {
        let mut f = vec![
            ("parent_hash", B32),
            ("fee_recipient", ADDR),
            ("state_root", B32),
            ("receipts_root", B32),
            ("logs_bloom", Bytes(self.bloom)),
            ("prev_randao", B32),
            ("block_number", U64),
            ("gas_limit", U64),
            ("gas_used", U64),
            ("timestamp", U64),
            ("extra_data", Data(self.extra)),
            ("base_fee_per_gas", U256),
            ("block_hash", B32),
        ];
        let mut put = |root, name, t: &T, n| if header { f.push((root, ROOT)) } else { f.push((name, list(t, n))) };
        put("transactions_root", "transactions", &Data(self.tx_bytes), self.txs);
        if fork >= CAPELLA {
            put("withdrawals_root", "withdrawals", &self.of(fork, "Withdrawal"), self.withdrawals);
        }
        if fork >= DENEB {
            f.extend([("blob_gas_used", U64), ("excess_blob_gas", U64)]);
        }
        if fork >= ELECTRA {
            let mut put = |root, name, t: &T, n| if header { f.push((root, ROOT)) } else { f.push((name, list(t, n))) };
            put("deposit_receipts_root", "deposit_receipts", &self.of(fork, "DepositReceipt"), self.receipts);
            put("withdrawal_requests_root", "withdrawal_requests", &self.of(fork, "ExecutionLayerWithdrawalRequest"), self.requests);
        }
        f
    }

    fn body(&self, fork: usize, blinded: bool) -> F {
        let this = |n: &str| self.of(fork, n);
        let (slashings, attestations) =
            if fork >= ELECTRA { (self.attester_slashings_electra, self.attestations_electra) } else { (self.attester_slashings, self.attestations) };
        let mut f = vec![
            ("randao_reveal", SIG),
            ("eth1_data", this("Eth1Data")),
            ("graffiti", B32),
            ("proposer_slashings", list(&this("ProposerSlashing"), self.proposer_slashings)),
            ("attester_slashings", list(&this("AttesterSlashing"), slashings)),
            ("attestations", list(&this("Attestation"), attestations)),
            ("deposits", list(&this("Deposit"), self.deposits)),
            ("voluntary_exits", list(&this("SignedVoluntaryExit"), self.exits)),
        ];
        if fork >= ALTAIR {
            f.push(("sync_aggregate", this("SyncAggregate")));
        }
        if fork >= BELLATRIX {
            f.push(if blinded { ("execution_payload_header", this("ExecutionPayloadHeader")) } else { ("execution_payload", this("ExecutionPayload")) });
        }
        if fork >= CAPELLA {
            f.push(("bls_to_execution_changes", list(&this("SignedBlsToExecutionChange"), self.changes)));
        }
        if fork >= DENEB {
            f.push(("blob_kzg_commitments", list(&KZG, self.commitments)));
        }
        if fork >= ELECTRA {
            f.push(("consolidations", list(&this("SignedConsolidation"), self.consolidations)));
        }
        f
    }

    fn state(&self, fork: usize) -> F {
        let this = |n: &str| self.of(fork, n);
        let mut f = vec![
            ("genesis_time", U64),
            ("genesis_validators_root", ROOT),
            ("slot", U64),
            ("fork", this("Fork")),
            ("latest_block_header", this("BeaconBlockHeader")),
            ("block_roots", vector(&ROOT, self.sphr)),
            ("state_roots", vector(&ROOT, self.sphr)),
            ("historical_roots", list(&ROOT, self.hrl)),
            ("eth1_data", this("Eth1Data")),
            ("eth1_data_votes", list(&this("Eth1Data"), self.votes)),
            ("eth1_deposit_index", U64),
            ("validators", list(&this("Validator"), self.vrl)),
            ("balances", list(&U64, self.vrl)),
            ("randao_mixes", vector(&B32, self.ephv)),
            ("slashings", vector(&U64, self.epsv)),
        ];
        if fork == PHASE0 {
            let a = list(&this("PendingAttestation"), self.pab);
            f.extend([("previous_epoch_attestations", a.clone()), ("current_epoch_attestations", a)]);
        } else {
            let p = list(&U8, self.vrl);
            f.extend([("previous_epoch_participation", p.clone()), ("current_epoch_participation", p)]);
        }
        f.extend([
            ("justification_bits", Bits(4)),
            ("previous_justified_checkpoint", this("Checkpoint")),
            ("current_justified_checkpoint", this("Checkpoint")),
            ("finalized_checkpoint", this("Checkpoint")),
        ]);
        if fork >= ALTAIR {
            f.extend([
                ("inactivity_scores", list(&U64, self.vrl)),
                ("current_sync_committee", this("SyncCommittee")),
                ("next_sync_committee", this("SyncCommittee")),
            ]);
        }
        if fork >= BELLATRIX {
            f.push(("latest_execution_payload_header", this("ExecutionPayloadHeader")));
        }
        if fork >= CAPELLA {
            f.extend([
                ("next_withdrawal_index", U64),
                ("next_withdrawal_validator_index", U64),
                ("historical_summaries", list(&this("HistoricalSummary"), self.hrl)),
            ]);
        }
        if fork >= ELECTRA {
            f.extend([
                ("deposit_receipts_start_index", U64),
                ("deposit_balance_to_consume", U64),
                ("exit_balance_to_consume", U64),
                ("earliest_exit_epoch", U64),
                ("consolidation_balance_to_consume", U64),
                ("earliest_consolidation_epoch", U64),
                ("pending_balance_deposits", list(&this("PendingBalanceDeposit"), self.pbd)),
                ("pending_partial_withdrawals", list(&this("PendingPartialWithdrawal"), self.ppw)),
                ("pending_consolidations", list(&this("PendingConsolidation"), self.pc)),
            ]);
        }
        f
    }
}
