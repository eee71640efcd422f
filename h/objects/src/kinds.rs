//! The library's types, each with the container it stands for.
use crate::{
    form::T,
    schema::{self, ALTAIR, BELLATRIX, CAPELLA, DENEB, ELECTRA, FORKS, P, PHASE0},
};
use ethereum_consensus as ec;
use ethereum_consensus::ssz::prelude::SimpleSerialize;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value as J;

/// What the library makes of an encoding.
#[derive(PartialEq, Eq, Debug, Default)]
pub struct Seen {
    pub ssz: Option<Vec<u8>>,
    pub root: Option<[u8; 32]>,
    pub json: Option<J>,
}
type Read<X> = fn(&X) -> Result<Seen, String>;
pub struct Kind {
    pub name: String,
    pub t: T,
    pub ssz: Option<Read<[u8]>>,
    pub json: Option<Read<J>>,
    /// whether the JSON form is one of the published interfaces
    pub published: bool,
    pub preset: &'static str,
    pub fork: usize,
}

fn err(e: impl std::fmt::Display) -> String {
    e.to_string()
}
fn both<X: SimpleSerialize + Serialize>(x: X) -> Result<Seen, String> {
    let ssz = ssz_rs::serialize(&x).map_err(err)?;
    let root = x.hash_tree_root().map_err(err)?;
    let json = serde_json::to_value(&x).map_err(err)?;
    Ok(Seen { ssz: Some(ssz), root: Some(root.as_ref().try_into().unwrap()), json: Some(json) })
}
fn both_ssz<X: SimpleSerialize + Serialize>(b: &[u8]) -> Result<Seen, String> {
    both(X::deserialize(b).map_err(err)?)
}
fn both_json<X: SimpleSerialize + Serialize + DeserializeOwned>(j: &J) -> Result<Seen, String> {
    both(serde_json::from_str::<X>(&j.to_string()).map_err(err)?)
}
fn bare_ssz<X: SimpleSerialize>(b: &[u8]) -> Result<Seen, String> {
    let x = X::deserialize(b).map_err(err)?;
    let ssz = ssz_rs::serialize(&x).map_err(err)?;
    let root = x.hash_tree_root().map_err(err)?;
    Ok(Seen { ssz: Some(ssz), root: Some(root.as_ref().try_into().unwrap()), json: None })
}
fn bare_json<X: Serialize + DeserializeOwned>(j: &J) -> Result<Seen, String> {
    let x = serde_json::from_str::<X>(&j.to_string()).map_err(err)?;
    Ok(Seen { json: Some(serde_json::to_value(&x).map_err(err)?), ..Default::default() })
}

fn kind<X: SimpleSerialize + Serialize + DeserializeOwned>(p: &P, fork: usize, name: &str) -> Kind {
    Kind {
        name: format!("{} {} {name}", p.name, FORKS[fork]),
        t: p.of(fork, name),
        ssz: Some(both_ssz::<X>),
        json: Some(both_json::<X>),
        published: true,
        preset: p.name,
        fork,
    }
}
fn bare<X: SimpleSerialize>(p: &P, fork: usize, name: &str) -> Kind {
    Kind { name: format!("{} {} {name}", p.name, FORKS[fork]), t: p.of(fork, name), ssz: Some(bare_ssz::<X>), json: None, published: false, preset: p.name, fork }
}
fn unpublished<X: SimpleSerialize + Serialize + DeserializeOwned>(p: &P, fork: usize, name: &str) -> Kind {
    Kind { published: false, ..kind::<X>(p, fork, name) }
}
fn text<X: Serialize + DeserializeOwned>(p: &P, fork: usize, name: &str) -> Kind {
    Kind { name: format!("{} {} {name}", p.name, FORKS[fork]), t: p.of(fork, name), ssz: None, json: Some(bare_json::<X>), published: true, preset: p.name, fork }
}

macro_rules! put {
    ($out:ident, $p:expr, $fork:ident, $m:path, $($name:ident $(<$($g:literal),*>)?),* $(,)?) => {{
        use $m as m;
        $($out.push(kind::<m::$name $(<$($g),*>)?>($p, $fork, stringify!($name)));)*
    }};
}

/// The containers of no preset.
fn plain(out: &mut Vec<Kind>) {
    let p = &schema::TINY;
    put!(out, p, PHASE0, ec::phase0, Checkpoint, AttestationData, Eth1Data, DepositMessage, DepositData, Deposit, ProposerSlashing, VoluntaryExit,
        SignedVoluntaryExit, Validator, Fork, ForkData, BeaconBlockHeader, SignedBeaconBlockHeader);
    out.push(unpublished::<ec::phase0::Eth1Block>(p, PHASE0, "Eth1Block"));
    out.push(bare::<ec::signing::SigningData>(p, PHASE0, "SigningData"));
    put!(out, p, ALTAIR, ec::altair, SyncCommitteeMessage);
    out.push(unpublished::<ec::altair::SyncAggregatorSelectionData>(p, ALTAIR, "SyncAggregatorSelectionData"));
    put!(out, p, ALTAIR, ec::altair::light_client, LightClientHeader);
    put!(out, p, BELLATRIX, ec::bellatrix::fork_choice, PowBlock);
    put!(out, p, CAPELLA, ec::capella, Withdrawal, BlsToExecutionChange, SignedBlsToExecutionChange);
    put!(out, p, CAPELLA, ec::phase0::beacon_state, HistoricalSummary);
    put!(out, p, DENEB, ec::deneb::blob_sidecar, BlobIdentifier);
    put!(out, p, DENEB, ec::builder, ValidatorRegistration, SignedValidatorRegistration);
    put!(out, p, ELECTRA, ec::electra::beacon_state, DepositReceipt, PendingBalanceDeposit, PendingPartialWithdrawal, PendingConsolidation, ExecutionLayerWithdrawalRequest);
    put!(out, p, ELECTRA, ec::electra::operations, Consolidation, SignedConsolidation);
}

macro_rules! preset {
    ($f:ident, $m:ident, $p:ident) => {
        fn $f(out: &mut Vec<Kind>) {
            let p = &schema::$p;
            put!(out, p, PHASE0, ec::phase0::$m, IndexedAttestation, PendingAttestation, AttesterSlashing, Attestation, HistoricalBatch, AggregateAndProof,
                SignedAggregateAndProof, BeaconBlockBody, BeaconBlock, SignedBeaconBlock, BeaconState);
            put!(out, p, ALTAIR, ec::altair::$m, SyncAggregate, SyncCommittee, SyncCommitteeContribution, ContributionAndProof, SignedContributionAndProof,
                LightClientBootstrap, LightClientUpdate, LightClientFinalityUpdate, LightClientOptimisticUpdate, BeaconBlockBody, BeaconBlock,
                SignedBeaconBlock, BeaconState);
            put!(out, p, BELLATRIX, ec::bellatrix::$m, Transaction, ExecutionPayload, ExecutionPayloadHeader, BlindedBeaconBlockBody, BlindedBeaconBlock,
                SignedBlindedBeaconBlock, BeaconBlockBody, BeaconBlock, SignedBeaconBlock, BeaconState);
            put!(out, p, CAPELLA, ec::capella::$m, ExecutionPayload, ExecutionPayloadHeader, BlindedBeaconBlockBody, BlindedBeaconBlock,
                SignedBlindedBeaconBlock, BeaconBlockBody, BeaconBlock, SignedBeaconBlock, BeaconState, LightClientHeader, LightClientBootstrap,
                LightClientUpdate, LightClientFinalityUpdate, LightClientOptimisticUpdate);
            put!(out, p, DENEB, ec::deneb::$m, ExecutionPayload, ExecutionPayloadHeader, BlindedBeaconBlockBody, BlindedBeaconBlock,
                SignedBlindedBeaconBlock, BeaconBlockBody, BeaconBlock, SignedBeaconBlock, BeaconState, LightClientHeader, LightClientBootstrap,
                LightClientUpdate, LightClientFinalityUpdate, LightClientOptimisticUpdate, BlobSidecar);
            out.push(text::<ec::deneb::$m::BlobsBundle>(p, DENEB, "BlobsBundle"));
        }
    };
}
preset!(mainnet, mainnet, MAINNET);
preset!(minimal, minimal, MINIMAL);

macro_rules! electra {
    ($f:ident, $p:ident, $mvpc:literal, $mvps:literal, $mcps:literal, $aslash:literal, $atts:literal; state $($s:literal),*; head $($h:literal),*; sync $sync:literal; exec $bloom:literal, $extra:literal; pay $($pay:literal),*; tail $($tail:literal),*) => {
        fn $f(out: &mut Vec<Kind>) {
            let p = &schema::$p;
            use ec::electra::{beacon_block, operations, execution_payload, beacon_state};
            out.push(kind::<operations::IndexedAttestation<$mvps>>(p, ELECTRA, "IndexedAttestation"));
            out.push(kind::<operations::AttesterSlashing<$mvps>>(p, ELECTRA, "AttesterSlashing"));
            out.push(kind::<operations::Attestation<$mvps, $mcps>>(p, ELECTRA, "Attestation"));
            out.push(kind::<execution_payload::ExecutionPayload<$bloom, $extra, $($pay),*>>(p, ELECTRA, "ExecutionPayload"));
            out.push(kind::<execution_payload::ExecutionPayloadHeader<$bloom, $extra>>(p, ELECTRA, "ExecutionPayloadHeader"));
            out.push(kind::<beacon_state::BeaconState<$($s),*>>(p, ELECTRA, "BeaconState"));
            out.push(kind::<beacon_block::BeaconBlockBody<$($h),*, $sync, $bloom, $extra, $($pay),*, $($tail),*>>(p, ELECTRA, "BeaconBlockBody"));
            out.push(kind::<beacon_block::BeaconBlock<$($h),*, $sync, $bloom, $extra, $($pay),*, $($tail),*>>(p, ELECTRA, "BeaconBlock"));
            out.push(kind::<beacon_block::SignedBeaconBlock<$($h),*, $sync, $bloom, $extra, $($pay),*, $($tail),*>>(p, ELECTRA, "SignedBeaconBlock"));
        }
    };
}
electra!(electra_mainnet, MAINNET, 2048, 131072, 64, 1, 8;
    state 8192, 16777216, 2048, 1099511627776, 65536, 8192, 2048, 512, 256, 32, 134217728, 134217728, 262144;
    head 16, 131072, 64, 1, 8, 16, 16; sync 512; exec 256, 32; pay 1073741824, 1048576, 16, 8192, 16; tail 16, 4096, 1);
electra!(electra_minimal, MINIMAL, 2048, 8192, 4, 1, 8;
    state 64, 16777216, 32, 1099511627776, 64, 64, 2048, 32, 256, 32, 134217728, 64, 64;
    head 16, 8192, 4, 1, 8, 16, 16; sync 32; exec 256, 32; pay 1073741824, 1048576, 4, 4, 2; tail 16, 16, 1);
electra!(electra_tiny, TINY, 9, 27, 3, 1, 3;
    state 4, 5, 3, 6, 2, 3, 9, 6, 7, 5, 5, 3, 4;
    head 2, 27, 3, 1, 3, 5, 4; sync 6; exec 7, 5; pay 11, 3, 7, 2, 4; tail 8, 10, 2);

/// All types at sizes that are small and all different, so that every limit can be reached and no two be confused.
fn tiny(out: &mut Vec<Kind>) {
    let p = &schema::TINY;
    put!(out, p, PHASE0, ec::phase0, IndexedAttestation<9>, PendingAttestation<9>, AttesterSlashing<9>, Attestation<9>, HistoricalBatch<4>,
        AggregateAndProof<9>, SignedAggregateAndProof<9>, BeaconBlockBody<2, 9, 1, 3, 5, 4>, BeaconBlock<2, 9, 1, 3, 5, 4>,
        SignedBeaconBlock<2, 9, 1, 3, 5, 4>, BeaconState<4, 5, 3, 6, 2, 3, 9, 4>);
    put!(out, p, ALTAIR, ec::altair, SyncAggregate<6>, SyncCommittee<6>, SyncCommitteeContribution<3>, ContributionAndProof<3>,
        SignedContributionAndProof<3>, BeaconBlockBody<2, 9, 1, 3, 5, 4, 6>, BeaconBlock<2, 9, 1, 3, 5, 4, 6>,
        SignedBeaconBlock<2, 9, 1, 3, 5, 4, 6>, BeaconState<4, 5, 3, 6, 2, 3, 9, 6>);
    put!(out, p, ALTAIR, ec::altair::light_client, LightClientBootstrap<6>, LightClientUpdate<6>, LightClientFinalityUpdate<6>, LightClientOptimisticUpdate<6>);
    put!(out, p, BELLATRIX, ec::bellatrix, Transaction<11>, ExecutionPayload<7, 5, 11, 3>, ExecutionPayloadHeader<7, 5>,
        BeaconBlockBody<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3>, BeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3>,
        SignedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3>, BeaconState<4, 5, 3, 6, 2, 3, 9, 6, 7, 5>);
    put!(out, p, BELLATRIX, ec::bellatrix::blinded_beacon_block, BlindedBeaconBlockBody<2, 9, 1, 3, 5, 4, 6, 7, 5>,
        BlindedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5>, SignedBlindedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5>);
    put!(out, p, CAPELLA, ec::capella, ExecutionPayload<7, 5, 11, 3, 7>, ExecutionPayloadHeader<7, 5>,
        BeaconBlockBody<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3, 7, 8>, BeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3, 7, 8>,
        SignedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3, 7, 8>, BeaconState<4, 5, 3, 6, 2, 3, 9, 6, 7, 5>);
    put!(out, p, CAPELLA, ec::capella::blinded_beacon_block, BlindedBeaconBlockBody<2, 9, 1, 3, 5, 4, 6, 7, 5, 8>,
        BlindedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 8>, SignedBlindedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 8>);
    put!(out, p, CAPELLA, ec::capella::light_client, LightClientHeader<7, 5>, LightClientBootstrap<6, 7, 5>, LightClientUpdate<6, 7, 5>,
        LightClientFinalityUpdate<6, 7, 5>, LightClientOptimisticUpdate<6, 7, 5>);
    put!(out, p, DENEB, ec::deneb, ExecutionPayload<7, 5, 11, 3, 7>, ExecutionPayloadHeader<7, 5>,
        BeaconBlockBody<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3, 7, 8, 10>, BeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3, 7, 8, 10>,
        SignedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3, 7, 8, 10>, BeaconState<4, 5, 3, 6, 2, 3, 9, 6, 7, 5>);
    put!(out, p, DENEB, ec::deneb::blinded_beacon_block, BlindedBeaconBlockBody<2, 9, 1, 3, 5, 4, 6, 7, 5, 8, 10>,
        BlindedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 8, 10>, SignedBlindedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 8, 10>);
    put!(out, p, DENEB, ec::deneb::light_client, LightClientHeader<7, 5>, LightClientBootstrap<6, 7, 5>, LightClientUpdate<6, 7, 5>,
        LightClientFinalityUpdate<6, 7, 5>, LightClientOptimisticUpdate<6, 7, 5>);
    put!(out, p, DENEB, ec::deneb::blob_sidecar, BlobSidecar<40, 3>);
    out.push(text::<ec::deneb::blob_sidecar::BlobsBundle<40>>(p, DENEB, "BlobsBundle"));
}

pub fn all() -> Vec<Kind> {
    let mut out = vec![];
    plain(&mut out);
    tiny(&mut out);
    electra_tiny(&mut out);
    minimal(&mut out);
    electra_minimal(&mut out);
    mainnet(&mut out);
    electra_mainnet(&mut out);
    out
}
