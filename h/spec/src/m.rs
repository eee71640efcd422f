//! The model state and the model block: the union of what the forks keep, over plain vectors.
pub use ethereum_consensus::{
    altair::SyncCommittee,
    bellatrix,
    capella::{BlsToExecutionChange, HistoricalSummary, SignedBlsToExecutionChange, Withdrawal},
    crypto::KzgCommitment,
    electra::beacon_state::{
        DepositReceipt, ExecutionLayerWithdrawalRequest, PendingBalanceDeposit,
        PendingConsolidation, PendingPartialWithdrawal,
    },
    electra::operations::{Consolidation, SignedConsolidation},
    phase0::{
        AttestationData, BeaconBlockHeader, Checkpoint, Deposit, DepositData, DepositMessage,
        Eth1Data, Fork, ForkData, ProposerSlashing, SignedBeaconBlockHeader, SignedVoluntaryExit,
        Validator, VoluntaryExit,
    },
    primitives::{
        BlsPublicKey, BlsSignature, Bytes32, ExecutionAddress, Root, Version, U256,
    },
    state_transition::Context,
};
pub use ethereum_consensus::ssz::prelude::{ByteList, ByteVector, HashTreeRoot, List, Vector};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub enum F {
    #[default]
    Phase0,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
}
pub use F::*;
pub const FORKS: [F; 6] = [Phase0, Altair, Bellatrix, Capella, Deneb, Electra];
pub const FAR: u64 = u64::MAX;
pub const ETH: u64 = 1_000_000_000;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Pend {
    pub bits: Vec<bool>,
    pub data: AttestationData,
    pub delay: u64,
    pub proposer: usize,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct SyncC {
    pub keys: Vec<BlsPublicKey>,
    pub agg: BlsPublicKey,
}

/// An execution payload, or (with the roots filled in) its header.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Pay {
    pub parent_hash: Bytes32,
    pub fee_recipient: ExecutionAddress,
    pub state_root: Bytes32,
    pub receipts_root: Bytes32,
    pub logs_bloom: Vec<u8>,
    pub prev_randao: Bytes32,
    pub block_number: u64,
    pub gas_limit: u64,
    pub gas_used: u64,
    pub timestamp: u64,
    pub extra_data: Vec<u8>,
    pub base_fee: U256,
    pub block_hash: Bytes32,
    pub transactions: Vec<Vec<u8>>,
    pub withdrawals: Vec<Withdrawal>,
    pub blob_gas_used: u64,
    pub excess_blob_gas: u64,
    pub receipts: Vec<DepositReceipt>,
    pub requests: Vec<ExecutionLayerWithdrawalRequest>,
    pub transactions_root: Root,
    pub withdrawals_root: Root,
    pub receipts_list_root: Root,
    pub requests_list_root: Root,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct M {
    pub f: F,
    pub genesis_time: u64,
    pub genesis_validators_root: Root,
    pub slot: u64,
    pub fork: Fork,
    pub header: BeaconBlockHeader,
    pub block_roots: Vec<Root>,
    pub state_roots: Vec<Root>,
    pub historical_roots: Vec<Root>,
    pub eth1_data: Eth1Data,
    pub votes: Vec<Eth1Data>,
    pub deposit_index: u64,
    pub validators: Vec<Validator>,
    pub balances: Vec<u64>,
    pub mixes: Vec<Bytes32>,
    pub slashings: Vec<u64>,
    pub prev_att: Vec<Pend>,
    pub cur_att: Vec<Pend>,
    pub prev_part: Vec<u8>,
    pub cur_part: Vec<u8>,
    pub jbits: Vec<bool>,
    pub pj: Checkpoint,
    pub cj: Checkpoint,
    pub fin: Checkpoint,
    pub scores: Vec<u64>,
    pub sync: SyncC,
    pub next_sync: SyncC,
    pub payload: Pay,
    pub nwi: usize,
    pub nwvi: usize,
    pub summaries: Vec<HistoricalSummary>,
    pub receipts_start: u64,
    pub dep_btc: u64,
    pub exit_btc: u64,
    pub earliest_exit: u64,
    pub cons_btc: u64,
    pub earliest_cons: u64,
    pub pend_dep: Vec<PendingBalanceDeposit>,
    pub pend_wd: Vec<PendingPartialWithdrawal>,
    pub pend_cons: Vec<PendingConsolidation>,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Att {
    pub bits: Vec<bool>,
    pub data: AttestationData,
    pub cbits: Vec<bool>,
    pub sig: BlsSignature,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Idx {
    pub indices: Vec<usize>,
    pub data: AttestationData,
    pub sig: BlsSignature,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct ASlash {
    pub a: Idx,
    pub b: Idx,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Agg {
    pub bits: Vec<bool>,
    pub sig: BlsSignature,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Blk {
    pub slot: u64,
    pub proposer: usize,
    pub parent_root: Root,
    pub state_root: Root,
    pub randao: BlsSignature,
    pub eth1: Eth1Data,
    pub graffiti: Bytes32,
    pub pslash: Vec<ProposerSlashing>,
    pub aslash: Vec<ASlash>,
    pub atts: Vec<Att>,
    pub deposits: Vec<Deposit>,
    pub exits: Vec<SignedVoluntaryExit>,
    pub agg: Agg,
    pub payload: Pay,
    pub changes: Vec<SignedBlsToExecutionChange>,
    pub commitments: Vec<KzgCommitment>,
    pub consolidations: Vec<SignedConsolidation>,
    pub sig: BlsSignature,
}

/// One call of the state transition.
#[derive(Clone, Debug)]
pub enum Op {
    Slots(u64),
    Slot,
    Epoch,
    Justification,
    Inactivity,
    Rewards,
    Registry,
    Slashings,
    Eth1Reset,
    EffBal,
    SlashReset,
    RandaoReset,
    HistRoots,
    HistSummaries,
    PartRecord,
    PartFlags,
    SyncUpdate,
    PendDeposits,
    PendConsolidations,
    Header(Blk),
    Randao(Blk),
    Eth1(Blk),
    Operations(Blk),
    Block(Blk),
    Transition(Blk, bool),
    InSlot(Blk, bool),
    PSlash(ProposerSlashing),
    ASlash(ASlash),
    Att(Att),
    Deposit(Deposit),
    Exit(SignedVoluntaryExit),
    Sync(Agg),
    Payload(Blk),
    Withdrawals(Blk),
    Change(SignedBlsToExecutionChange),
    Request(ExecutionLayerWithdrawalRequest),
    Receipt(DepositReceipt),
    Consolidate(SignedConsolidation),
    InitiateExit(usize),
    Slash(usize, Option<usize>),
    ToCompounding(usize),
    /// To the next fork.
    Upgrade,
    /// A block of some fork through the fork-spanning executor.
    Chain(F, Blk, bool),
}

/// One read of the state; both sides answer with the same text.
#[derive(Clone, Debug)]
pub enum Q {
    Proposer,
    Committee(u64, usize),
    CommitteeCount(u64),
    Seed(u64, u32),
    Active(u64),
    ChurnLimit,
    ActivationChurn,
    NextSync,
    NextSyncIndices,
    BlockRoot(u64),
    BlockRootAtSlot(u64),
    Mix(u64),
    TotalActive,
    Attesting(Att),
    Flags(AttestationData, u64),
    BaseReward(usize),
    FinalityDelay,
    Leak,
    FlagDeltas(usize),
    Participating(usize, u64),
    InactivityDeltas,
    SourceDeltas,
    TargetDeltas,
    HeadDeltas,
    DelayDeltas,
    AttDeltas,
    Expected,
    Domain(u32, Option<u64>),
    MergeComplete,
    MergeBlock(Blk),
    ExecEnabled(Blk),
    HeaderOf(Blk),
    Timestamp(u64),
    ValidIndexed(Idx),
    BalanceChurn,
    ExitChurn,
    ConsChurn,
    ActiveBalance(usize),
    PendingWithdraw(usize),
    BlockSig(Blk),
    ValidGenesis,
}
