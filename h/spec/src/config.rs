//! C35 peer identities, C36 networks, C37 configuration files.
use crate::cfg;
use ethereum_consensus::{
    networking::PeerId,
    networks::{typical_genesis_time, Network},
    primitives::U256,
    state_transition::Context,
    Fork,
};
use mc::{guard, parallel, tuples, Run};
use multihash::Multihash;
use std::{collections::BTreeMap, path::PathBuf, str::FromStr};

// ---------------------------------------------------------------- C35

/// The multihash a byte string is, read by the format's definition.
fn model_multihash(b: &[u8]) -> Option<(u64, Vec<u8>)> {
    fn varint(b: &[u8]) -> Option<(u64, &[u8])> {
        let n = b.iter().position(|x| x & 0x80 == 0)?;
        if n > 8 || (n > 0 && b[n] == 0) {
            return None;
        }
        let v = b[..=n].iter().rev().fold(0u64, |a, x| a << 7 | (x & 0x7f) as u64);
        Some((v, &b[n + 1..]))
    }
    let (code, b) = varint(b)?;
    let (len, b) = varint(b)?;
    (len <= 64 && b.len() as u64 == len).then(|| (code, b.to_vec()))
}
fn permitted(code: u64, digest: &[u8]) -> bool {
    code == 0x12 || (code == 0 && digest.len() <= 42)
}
const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
/// Base 58 by long division of the whole number.
fn b58(bytes: &[u8]) -> String {
    let mut n = bytes.to_vec();
    let mut out = vec![];
    while n.iter().any(|x| *x != 0) {
        let mut rem = 0u32;
        for x in n.iter_mut() {
            let v = rem << 8 | *x as u32;
            *x = (v / 58) as u8;
            rem = v % 58;
        }
        out.push(B58[rem as usize] as char);
    }
    out.extend(bytes.iter().take_while(|x| **x == 0).map(|_| '1'));
    out.iter().rev().collect()
}
fn peer(run: &Run, bytes: &[u8]) {
    run.state();
    let want = model_multihash(bytes).filter(|(c, d)| permitted(*c, d)).map(|_| bytes.to_vec());
    let hx: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
    let got = guard(|| PeerId::from_bytes(bytes).ok());
    run.eq(|| format!("bytes {hx}"), &Ok(want.clone()), &got.clone().map(|p| p.map(|p| p.to_bytes())));
    let text = b58(bytes);
    let parsed = guard(|| PeerId::from_str(&text).ok());
    run.eq(|| format!("text of {hx}"), &Ok(want.clone()), &parsed.clone().map(|p| p.map(|p| p.to_bytes())));
    let json = guard(|| serde_json::from_str::<PeerId>(&format!("\"{text}\"")).ok());
    run.eq(|| format!("json of {hx}"), &Ok(want.clone()), &json.clone().map(|p| p.map(|p| p.to_bytes())));
    if let Some((code, digest)) = model_multihash(bytes) {
        let got = guard(|| PeerId::from_multihash(Multihash::wrap(code, &digest).unwrap()));
        let shape = match &got {
            Ok(Ok(p)) => Ok(Ok(p.to_bytes())),
            Ok(Err(m)) => Ok(Err((m.code(), m.digest().to_vec()))),
            Err(e) => Err(e.clone()),
        };
        let exp = match &want {
            Some(b) => Ok(Ok(b.clone())),
            None => Ok(Err((code, digest))),
        };
        run.eq(|| format!("multihash {hx}"), &exp, &shape);
    }
    if let (Ok(Some(a)), Ok(Some(b)), Ok(Some(c))) = (&got, &parsed, &json) {
        run.eq(|| format!("one identity {hx}"), &(true, true), &(a == b, b == c));
        run.eq(|| format!("shown {hx}"), &(text.clone(), text.clone()), &(a.to_string(), a.to_base58()));
        run.eq(|| format!("json shown {hx}"), &Some(format!("\"{text}\"")), &serde_json::to_string(a).ok());
        run.trace();
    }
}

pub fn c35(run: &Run) {
    run.part("shapes");
    // every code of one byte and the edges of longer ones, with every length claimed and carried
    let mut heads: Vec<Vec<u8>> = (0..=255u8).map(|c| vec![c]).collect();
    for h in [
        &[0x80, 0x01][..], &[0x80, 0x00], &[0x92, 0x00], &[0x92, 0x80, 0x00], &[0x12, 0xa0, 0x00],
        &[0x80], &[0x80; 9], &[0xff; 10], &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01],
        &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01],
    ] {
        heads.push(h.to_vec());
    }
    let lens: Vec<usize> = if run.thorough { (0..=66).collect() } else { vec![0, 1, 2, 20, 31, 32, 33, 41, 42, 43, 63, 64, 65] };
    let fills: &[u8] = &[0, 1, 0xff];
    run.bound(format!("{} heads, {} lengths claimed and carried", heads.len(), lens.len()));
    parallel(&heads, |h| {
        for claim in &lens {
            for carry in &lens {
                if !run.thorough && claim.abs_diff(*carry) > 2 && *carry > 2 {
                    continue;
                }
                for f in fills {
                    let mut b = h.clone();
                    b.push(*claim as u8);
                    b.extend(std::iter::repeat(*f).take(*carry));
                    peer(run, &b);
                }
            }
        }
    });
    run.part("short strings");
    let alphabet: &[u8] = &[0x00, 0x01, 0x02, 0x12, 0x20, 0x7f, 0x80, 0xff];
    let mut all = vec![];
    for n in 0..=run.pick(4, 5) {
        for t in tuples(n, alphabet.len()) {
            all.push(t.iter().map(|i| alphabet[*i]).collect::<Vec<u8>>());
        }
    }
    run.bound(format!("byte strings of up to {} bytes from {} values", run.pick(4, 5), alphabet.len()));
    parallel(&all, |b| peer(run, b));

    run.part("edits of valid identities");
    let mut good: Vec<Vec<u8>> = vec![[0x12, 0x20].to_vec(), [0, 37].to_vec(), [0, 42].to_vec(), [0, 0].to_vec()];
    for (i, g) in good.iter_mut().enumerate() {
        let n = g[1];
        g.extend((0..n).map(|k: u8| k.wrapping_mul(37).wrapping_add(i as u8)));
    }
    for g in &good {
        for i in 0..g.len() {
            for bit in 0..8 {
                let mut b = g.clone();
                b[i] ^= 1 << bit;
                peer(run, &b);
            }
            let mut b = g.clone();
            b.remove(i);
            peer(run, &b);
            let mut b = g.clone();
            b.insert(i, 0);
            peer(run, &b);
            peer(run, &g[..i]);
        }
        let mut b = g.clone();
        b.push(0);
        peer(run, &b);
    }
    run.part("texts");
    // what is not base 58 is no identity; every replacement of one character
    let text = b58(&good[0]);
    let mut chars: Vec<char> = (0u8..128).map(|c| c as char).collect();
    chars.extend(['é', '\u{2028}', '1']);
    for i in 0..=text.len() {
        for c in &chars {
            for insert in [false, true] {
                let mut v: Vec<char> = text.chars().collect();
                if insert {
                    v.insert(i, *c);
                } else if i < v.len() {
                    v[i] = *c;
                }
                let s: String = v.iter().collect();
                run.state();
                let want = unb58(&s)
                    .filter(|b| model_multihash(b).is_some_and(|(c, d)| permitted(c, &d)));
                let got = guard(|| PeerId::from_str(&s).ok().map(|p| (p.to_bytes(), p.to_string())));
                // each number has one text, so the text comes back as it was
                run.eq(|| format!("text {s:?}"), &Ok(want.map(|b| (b, s.clone()))), &got);
            }
        }
    }
    // JSON that is not a string
    for j in ["null", "1", "[]", "{}", "\"\"", "true", "[18,32]", "\"0OIl\""] {
        run.state();
        let got = guard(|| serde_json::from_str::<PeerId>(j).is_ok());
        run.eq(|| format!("json {j}"), &Ok(false), &got);
    }
    run.sample(|| text.clone());
    run.assume("the multihash and base-58 libraries are stand-ins with the published formats");
}
fn unb58(s: &str) -> Option<Vec<u8>> {
    let mut n: Vec<u8> = vec![];
    for c in s.chars() {
        let mut carry = B58.iter().position(|a| *a as char == c)? as u32;
        for x in n.iter_mut().rev() {
            carry += *x as u32 * 58;
            *x = carry as u8;
            carry >>= 8;
        }
        if carry > 0 {
            n.insert(0, carry as u8);
        }
    }
    let zeros = s.chars().take_while(|c| *c == '1').count();
    let mut out = vec![0; zeros];
    out.extend(n);
    Some(out)
}

// ---------------------------------------------------------------- contexts as text

type Fields = BTreeMap<&'static str, String>;
fn hx(b: impl AsRef<[u8]>) -> String {
    format!("0x{}", hex::encode(b))
}
macro_rules! numbers {
    ($c:expr, $out:expr; $($n:ident $s:literal)*) => { $( $out.insert($s, $c.$n.to_string()); )* };
}
macro_rules! versions {
    ($c:expr, $out:expr; $($n:ident $s:literal)*) => { $( $out.insert($s, hx($c.$n)); )* };
}
fn fields(c: &Context) -> Fields {
    let mut o = Fields::new();
    numbers!(c, o;
        max_committees_per_slot "MAX_COMMITTEES_PER_SLOT"
        target_committee_size "TARGET_COMMITTEE_SIZE"
        max_validators_per_committee "MAX_VALIDATORS_PER_COMMITTEE"
        shuffle_round_count "SHUFFLE_ROUND_COUNT"
        hysteresis_quotient "HYSTERESIS_QUOTIENT"
        hysteresis_downward_multiplier "HYSTERESIS_DOWNWARD_MULTIPLIER"
        hysteresis_upward_multiplier "HYSTERESIS_UPWARD_MULTIPLIER"
        min_deposit_amount "MIN_DEPOSIT_AMOUNT"
        max_effective_balance "MAX_EFFECTIVE_BALANCE"
        effective_balance_increment "EFFECTIVE_BALANCE_INCREMENT"
        min_attestation_inclusion_delay "MIN_ATTESTATION_INCLUSION_DELAY"
        slots_per_epoch "SLOTS_PER_EPOCH"
        min_seed_lookahead "MIN_SEED_LOOKAHEAD"
        max_seed_lookahead "MAX_SEED_LOOKAHEAD"
        min_epochs_to_inactivity_penalty "MIN_EPOCHS_TO_INACTIVITY_PENALTY"
        epochs_per_eth1_voting_period "EPOCHS_PER_ETH1_VOTING_PERIOD"
        slots_per_historical_root "SLOTS_PER_HISTORICAL_ROOT"
        epochs_per_historical_vector "EPOCHS_PER_HISTORICAL_VECTOR"
        epochs_per_slashings_vector "EPOCHS_PER_SLASHINGS_VECTOR"
        historical_roots_limit "HISTORICAL_ROOTS_LIMIT"
        validator_registry_limit "VALIDATOR_REGISTRY_LIMIT"
        base_reward_factor "BASE_REWARD_FACTOR"
        whistleblower_reward_quotient "WHISTLEBLOWER_REWARD_QUOTIENT"
        proposer_reward_quotient "PROPOSER_REWARD_QUOTIENT"
        inactivity_penalty_quotient "INACTIVITY_PENALTY_QUOTIENT"
        min_slashing_penalty_quotient "MIN_SLASHING_PENALTY_QUOTIENT"
        proportional_slashing_multiplier "PROPORTIONAL_SLASHING_MULTIPLIER"
        max_proposer_slashings "MAX_PROPOSER_SLASHINGS"
        max_attester_slashings "MAX_ATTESTER_SLASHINGS"
        max_attestations "MAX_ATTESTATIONS"
        max_deposits "MAX_DEPOSITS"
        max_voluntary_exits "MAX_VOLUNTARY_EXITS"
        inactivity_penalty_quotient_altair "INACTIVITY_PENALTY_QUOTIENT_ALTAIR"
        min_slashing_penalty_quotient_altair "MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR"
        proportional_slashing_multiplier_altair "PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR"
        sync_committee_size "SYNC_COMMITTEE_SIZE"
        epochs_per_sync_committee_period "EPOCHS_PER_SYNC_COMMITTEE_PERIOD"
        min_sync_committee_participants "MIN_SYNC_COMMITTEE_PARTICIPANTS"
        update_timeout "UPDATE_TIMEOUT"
        inactivity_penalty_quotient_bellatrix "INACTIVITY_PENALTY_QUOTIENT_BELLATRIX"
        min_slashing_penalty_quotient_bellatrix "MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX"
        proportional_slashing_multiplier_bellatrix "PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX"
        max_bytes_per_transaction "MAX_BYTES_PER_TRANSACTION"
        max_transactions_per_payload "MAX_TRANSACTIONS_PER_PAYLOAD"
        bytes_per_logs_bloom "BYTES_PER_LOGS_BLOOM"
        max_extra_data_bytes "MAX_EXTRA_DATA_BYTES"
        max_bls_to_execution_changes "MAX_BLS_TO_EXECUTION_CHANGES"
        max_withdrawals_per_payload "MAX_WITHDRAWALS_PER_PAYLOAD"
        max_validators_per_withdrawals_sweep "MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP"
        field_elements_per_blob "FIELD_ELEMENTS_PER_BLOB"
        max_blob_commitments_per_block "MAX_BLOB_COMMITMENTS_PER_BLOCK"
        max_blobs_per_block "MAX_BLOBS_PER_BLOCK"
        min_activation_balance "MIN_ACTIVATION_BALANCE"
        max_effective_balance_electra "MAX_EFFECTIVE_BALANCE_ELECTRA"
        min_slashing_penalty_quotient_electra "MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA"
        whistleblower_reward_quotient_electra "WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA"
        pending_balance_deposits_limit "PENDING_BALANCE_DEPOSITS_LIMIT"
        pending_partial_withdrawals_limit "PENDING_PARTIAL_WITHDRAWALS_LIMIT"
        pending_consolidations_limit "PENDING_CONSOLIDATIONS_LIMIT"
        max_attester_slashings_electra "MAX_ATTESTER_SLASHINGS_ELECTRA"
        max_attestations_electra "MAX_ATTESTATIONS_ELECTRA"
        max_consolidations "MAX_CONSOLIDATIONS"
        max_deposit_receipts_per_payload "MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD"
        max_withdrawal_requests_per_payload "MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD"
        max_pending_partials_per_withdrawals_sweep "MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP"
        terminal_total_difficulty "TERMINAL_TOTAL_DIFFICULTY"
        terminal_block_hash_activation_epoch "TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH"
        min_genesis_active_validator_count "MIN_GENESIS_ACTIVE_VALIDATOR_COUNT"
        min_genesis_time "MIN_GENESIS_TIME"
        genesis_delay "GENESIS_DELAY"
        altair_fork_epoch "ALTAIR_FORK_EPOCH"
        bellatrix_fork_epoch "BELLATRIX_FORK_EPOCH"
        capella_fork_epoch "CAPELLA_FORK_EPOCH"
        deneb_fork_epoch "DENEB_FORK_EPOCH"
        electra_fork_epoch "ELECTRA_FORK_EPOCH"
        seconds_per_slot "SECONDS_PER_SLOT"
        seconds_per_eth1_block "SECONDS_PER_ETH1_BLOCK"
        min_validator_withdrawability_delay "MIN_VALIDATOR_WITHDRAWABILITY_DELAY"
        shard_committee_period "SHARD_COMMITTEE_PERIOD"
        eth1_follow_distance "ETH1_FOLLOW_DISTANCE"
        inactivity_score_bias "INACTIVITY_SCORE_BIAS"
        inactivity_score_recovery_rate "INACTIVITY_SCORE_RECOVERY_RATE"
        ejection_balance "EJECTION_BALANCE"
        min_per_epoch_churn_limit "MIN_PER_EPOCH_CHURN_LIMIT"
        max_per_epoch_activation_churn_limit "MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT"
        min_per_epoch_churn_limit_electra "MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA"
        max_per_epoch_activation_exit_churn_limit "MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT"
        churn_limit_quotient "CHURN_LIMIT_QUOTIENT"
        proposer_score_boost "PROPOSER_SCORE_BOOST"
        deposit_chain_id "DEPOSIT_CHAIN_ID"
        deposit_network_id "DEPOSIT_NETWORK_ID");
    versions!(c, o;
        genesis_fork_version "GENESIS_FORK_VERSION"
        altair_fork_version "ALTAIR_FORK_VERSION"
        bellatrix_fork_version "BELLATRIX_FORK_VERSION"
        capella_fork_version "CAPELLA_FORK_VERSION"
        deneb_fork_version "DENEB_FORK_VERSION"
        electra_fork_version "ELECTRA_FORK_VERSION");
    o.insert("TERMINAL_BLOCK_HASH", hx(&c.terminal_block_hash));
    o.insert("DEPOSIT_CONTRACT_ADDRESS", hx(&c.deposit_contract_address));
    o.insert("CONFIG_NAME", format!("{:?}", c.name));
    o.insert("execution engine", c.execution_engine.to_string());
    o
}

/// The presets as published: `NAME mainnet minimal`.
const PRESETS: &str = "
MAX_COMMITTEES_PER_SLOT 64 4
TARGET_COMMITTEE_SIZE 128 4
MAX_VALIDATORS_PER_COMMITTEE 2048 2048
SHUFFLE_ROUND_COUNT 90 10
HYSTERESIS_QUOTIENT 4 4
HYSTERESIS_DOWNWARD_MULTIPLIER 1 1
HYSTERESIS_UPWARD_MULTIPLIER 5 5
MIN_DEPOSIT_AMOUNT 1000000000 1000000000
MAX_EFFECTIVE_BALANCE 32000000000 32000000000
EFFECTIVE_BALANCE_INCREMENT 1000000000 1000000000
MIN_ATTESTATION_INCLUSION_DELAY 1 1
SLOTS_PER_EPOCH 32 8
MIN_SEED_LOOKAHEAD 1 1
MAX_SEED_LOOKAHEAD 4 4
MIN_EPOCHS_TO_INACTIVITY_PENALTY 4 4
EPOCHS_PER_ETH1_VOTING_PERIOD 64 4
SLOTS_PER_HISTORICAL_ROOT 8192 64
EPOCHS_PER_HISTORICAL_VECTOR 65536 64
EPOCHS_PER_SLASHINGS_VECTOR 8192 64
HISTORICAL_ROOTS_LIMIT 16777216 16777216
VALIDATOR_REGISTRY_LIMIT 1099511627776 1099511627776
BASE_REWARD_FACTOR 64 64
WHISTLEBLOWER_REWARD_QUOTIENT 512 512
PROPOSER_REWARD_QUOTIENT 8 8
INACTIVITY_PENALTY_QUOTIENT 67108864 33554432
MIN_SLASHING_PENALTY_QUOTIENT 128 64
PROPORTIONAL_SLASHING_MULTIPLIER 1 2
MAX_PROPOSER_SLASHINGS 16 16
MAX_ATTESTER_SLASHINGS 2 2
MAX_ATTESTATIONS 128 128
MAX_DEPOSITS 16 16
MAX_VOLUNTARY_EXITS 16 16
INACTIVITY_PENALTY_QUOTIENT_ALTAIR 50331648 50331648
MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR 64 64
PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR 2 2
SYNC_COMMITTEE_SIZE 512 32
EPOCHS_PER_SYNC_COMMITTEE_PERIOD 256 8
MIN_SYNC_COMMITTEE_PARTICIPANTS 1 1
UPDATE_TIMEOUT 8192 64
INACTIVITY_PENALTY_QUOTIENT_BELLATRIX 16777216 16777216
MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX 32 32
PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX 3 3
MAX_BYTES_PER_TRANSACTION 1073741824 1073741824
MAX_TRANSACTIONS_PER_PAYLOAD 1048576 1048576
BYTES_PER_LOGS_BLOOM 256 256
MAX_EXTRA_DATA_BYTES 32 32
MAX_BLS_TO_EXECUTION_CHANGES 16 16
MAX_WITHDRAWALS_PER_PAYLOAD 16 4
MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP 16384 16
FIELD_ELEMENTS_PER_BLOB 4096 4096
MAX_BLOB_COMMITMENTS_PER_BLOCK 4096 16
MAX_BLOBS_PER_BLOCK 6 6
MIN_ACTIVATION_BALANCE 32000000000 32000000000
MAX_EFFECTIVE_BALANCE_ELECTRA 2048000000000 2048000000000
MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA 4096 4096
WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA 4096 4096
PENDING_BALANCE_DEPOSITS_LIMIT 134217728 134217728
PENDING_PARTIAL_WITHDRAWALS_LIMIT 134217728 64
PENDING_CONSOLIDATIONS_LIMIT 262144 64
MAX_ATTESTER_SLASHINGS_ELECTRA 1 1
MAX_ATTESTATIONS_ELECTRA 8 8
MAX_CONSOLIDATIONS 1 1
MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD 8192 4
MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD 16 2
MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP 8 1
";
/// The configurations as published: `NAME mainnet sepolia goerli holesky hoodi minimal`. Electra is
/// as this release pins it: scheduled on hoodi alone.
const CONFIGS: &str = "
TERMINAL_TOTAL_DIFFICULTY 58750000000000000000000 17000000000000000 10790000 0 0 115792089237316195423570985008687907853269984665640564039457584007913129638912
TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH FAR FAR FAR FAR FAR FAR
MIN_GENESIS_ACTIVE_VALIDATOR_COUNT 16384 1300 16384 16384 16384 64
MIN_GENESIS_TIME 1606824000 1655647200 1614588812 1695902100 1742212800 1578009600
GENESIS_FORK_VERSION 0x00000000 0x90000069 0x00001020 0x01017000 0x10000910 0x00000001
GENESIS_DELAY 604800 86400 1919188 300 600 300
ALTAIR_FORK_VERSION 0x01000000 0x90000070 0x01001020 0x02017000 0x20000910 0x01000001
ALTAIR_FORK_EPOCH 74240 50 36660 0 0 FAR
BELLATRIX_FORK_VERSION 0x02000000 0x90000071 0x02001020 0x03017000 0x30000910 0x02000001
BELLATRIX_FORK_EPOCH 144896 100 112260 0 0 FAR
CAPELLA_FORK_VERSION 0x03000000 0x90000072 0x03001020 0x04017000 0x40000910 0x03000001
CAPELLA_FORK_EPOCH 194048 56832 162304 256 0 FAR
DENEB_FORK_VERSION 0x04000000 0x90000073 0x04001020 0x05017000 0x50000910 0x04000001
DENEB_FORK_EPOCH 269568 132608 231680 29696 0 FAR
ELECTRA_FORK_VERSION 0x05000000 0x90000074 0x05001020 0x06017000 0x60000910 0x05000001
ELECTRA_FORK_EPOCH FAR FAR FAR FAR 2048 FAR
SECONDS_PER_SLOT 12 12 12 12 12 6
SECONDS_PER_ETH1_BLOCK 14 14 14 14 12 14
MIN_VALIDATOR_WITHDRAWABILITY_DELAY 256 256 256 256 256 256
SHARD_COMMITTEE_PERIOD 256 256 256 256 256 64
ETH1_FOLLOW_DISTANCE 2048 2048 2048 2048 2048 16
INACTIVITY_SCORE_BIAS 4 4 4 4 4 4
INACTIVITY_SCORE_RECOVERY_RATE 16 16 16 16 16 16
EJECTION_BALANCE 16000000000 16000000000 16000000000 28000000000 16000000000 16000000000
MIN_PER_EPOCH_CHURN_LIMIT 4 4 4 4 4 2
MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT 8 8 8 8 8 4
CHURN_LIMIT_QUOTIENT 65536 65536 65536 65536 65536 32
MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA 128000000000 128000000000 128000000000 128000000000 128000000000 64000000000
MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT 256000000000 256000000000 256000000000 256000000000 256000000000 128000000000
PROPOSER_SCORE_BOOST 40 40 40 40 40 40
DEPOSIT_CHAIN_ID 1 11155111 5 17000 560048 5
DEPOSIT_NETWORK_ID 1 11155111 5 17000 560048 5
TERMINAL_BLOCK_HASH 0x0000000000000000000000000000000000000000000000000000000000000000 0x0000000000000000000000000000000000000000000000000000000000000000 0x0000000000000000000000000000000000000000000000000000000000000000 0x0000000000000000000000000000000000000000000000000000000000000000 0x0000000000000000000000000000000000000000000000000000000000000000 0x0000000000000000000000000000000000000000000000000000000000000000
DEPOSIT_CONTRACT_ADDRESS 0x00000000219ab540356cbb839cbe05303d7705fa 0x7f02c3e3c98b133055b8b348b2ac625669ed295d 0xff50ed3d0ec03ac01d4c79aad74928bff48a7b2b 0x4242424242424242424242424242424242424242 0x00000000219ab540356cbb839cbe05303d7705fa 0x1234567890123456789012345678901234567890
";
const NAMES: [&str; 6] = ["mainnet", "sepolia", "goerli", "holesky", "hoodi", "minimal"];

fn table(text: &'static str, column: usize) -> Vec<(&'static str, String)> {
    text.lines()
        .filter(|l| !l.is_empty())
        .map(|l| {
            let w: Vec<_> = l.split(' ').collect();
            let v = w[column + 1];
            (w[0], if v == "FAR" { u64::MAX.to_string() } else { v.to_string() })
        })
        .collect()
}
fn named(name: &str) -> String {
    format!("{:?}", model_network(name))
}
fn model_network(name: &str) -> Network {
    match name {
        "mainnet" => Network::Mainnet,
        "sepolia" => Network::Sepolia,
        "goerli" => Network::Goerli,
        "holesky" => Network::Holesky,
        "hoodi" => Network::Hoodi,
        o => Network::Custom(o.to_string()),
    }
}
fn published(k: usize) -> Fields {
    let mut o: Fields = table(PRESETS, (k == 5) as usize).into_iter().collect();
    o.extend(table(CONFIGS, k));
    o.insert("CONFIG_NAME", named(NAMES[k]));
    o.insert("execution engine", "true".into());
    o
}
fn compare(run: &Run, key: impl Fn() -> String, want: &Fields, got: Result<Fields, String>) {
    run.transition();
    let Ok(got) = got else {
        run.fail(key(), || format!("{got:?}"));
        return;
    };
    for (k, v) in want {
        if got.get(k) != Some(v) {
            run.fail(key(), || format!("{k}: expected {v}, got {:?}", got.get(k)));
        }
    }
    if want.len() != got.len() {
        run.fail(key(), || format!("{} fields expected, {} found", want.len(), got.len()));
    }
}

const FORKS: [Fork; 6] =
    [Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb, Fork::Electra];

/// The constants that the modules export beside those a `Context` holds.
fn exported(run: &Run) {
    use ethereum_consensus::{altair, bellatrix, capella, crypto, deneb, electra, networking, phase0, primitives};
    use std::time::Duration;
    run.part("exported constants");
    macro_rules! is {
        ($($($path:ident)::+ = $want:expr),* $(,)?) => {$({
            run.state();
            run.eq(|| stringify!($($path)::+).replace(' ', ""), &($want), &$($path)::+);
        })*};
    }
    is! {
        primitives::GENESIS_SLOT = 0, primitives::GENESIS_EPOCH = 0, primitives::FAR_FUTURE_EPOCH = !0,
        primitives::BLS_WITHDRAWAL_PREFIX = 0, primitives::ETH1_ADDRESS_WITHDRAWAL_PREFIX = 1,
        primitives::COMPOUNDING_WITHDRAWAL_PREFIX = 2,
        phase0::BASE_REWARDS_PER_EPOCH = 4, phase0::DEPOSIT_CONTRACT_TREE_DEPTH = 32,
        phase0::JUSTIFICATION_BITS_LENGTH = 4, phase0::DEPOSIT_DATA_LIST_BOUND = 1 << 32,
        phase0::networking::ATTESTATION_SUBNET_COUNT = 64, phase0::networking::GOSSIP_MAX_SIZE = 1 << 20,
        phase0::networking::MAX_REQUEST_BLOCKS = 1024, phase0::networking::MIN_EPOCHS_FOR_BLOCK_REQUESTS = 33024,
        phase0::networking::MAX_CHUNK_SIZE = 1 << 20, phase0::networking::TTFB_TIMEOUT = Duration::from_secs(5),
        phase0::networking::RESP_TIMEOUT = Duration::from_secs(10),
        phase0::networking::ATTESTATION_PROPAGATION_SLOT_RANGE = 32,
        phase0::networking::MAXIMUM_GOSSIP_CLOCK_DISPARITY = Duration::from_millis(500),
        bellatrix::networking::GOSSIP_MAX_SIZE_BELLATRIX = 10 << 20,
        bellatrix::networking::MAX_CHUNK_SIZE_BELLATRIX = 10 << 20,
        deneb::networking::MAX_REQUEST_BLOCKS_DENEB = 128, deneb::networking::MAX_REQUEST_BLOB_SIDECARS = 768,
        deneb::networking::MIN_EPOCHS_FOR_BLOB_SIDECARS_REQUESTS = 4096,
        deneb::networking::BLOB_SIDECAR_SUBNET_COUNT = 6,
        networking::MAX_INLINE_KEY_LENGTH = 42,
        altair::TIMELY_SOURCE_FLAG_INDEX = 0, altair::TIMELY_TARGET_FLAG_INDEX = 1, altair::TIMELY_HEAD_FLAG_INDEX = 2,
        altair::TIMELY_SOURCE_WEIGHT = 14, altair::TIMELY_TARGET_WEIGHT = 26, altair::TIMELY_HEAD_WEIGHT = 14,
        altair::SYNC_REWARD_WEIGHT = 2, altair::PROPOSER_WEIGHT = 8, altair::WEIGHT_DENOMINATOR = 64,
        altair::PARTICIPATION_FLAG_WEIGHTS = [14, 26, 14], altair::SYNC_COMMITTEE_SUBNET_COUNT = 4,
        altair::FINALIZED_ROOT_INDEX = 105, altair::FINALIZED_ROOT_INDEX_FLOOR_LOG_2 = 6,
        altair::CURRENT_SYNC_COMMITTEE_INDEX = 54, altair::CURRENT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2 = 5,
        altair::NEXT_SYNC_COMMITTEE_INDEX = 55, altair::NEXT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2 = 5,
        capella::EXECUTION_PAYLOAD_INDEX = 25, capella::EXECUTION_PAYLOAD_INDEX_FLOOR_LOG_2 = 4,
        deneb::VERSIONED_HASH_VERSION_KZG = 1,
        crypto::kzg::BYTES_PER_FIELD_ELEMENT = 32, crypto::kzg::BYTES_PER_COMMITMENT = 48,
        crypto::kzg::BYTES_PER_PROOF = 48, crypto::kzg::BYTES_PER_G1_POINT = 48, crypto::kzg::BYTES_PER_G2_POINT = 96,
        electra::UNSET_DEPOSIT_RECEIPTS_START_INDEX = !0, electra::FULL_EXIT_REQUEST_AMOUNT = 0,
    }
    macro_rules! preset {
        ($m:ident, $k:expr) => {
            is! {
                phase0::$m::TARGET_AGGREGATORS_PER_COMMITTEE = 16, phase0::$m::RANDOM_SUBNETS_PER_VALIDATOR = 1,
                phase0::$m::EPOCHS_PER_RANDOM_SUBNET_SUBSCRIPTION = 256,
                phase0::$m::ETH1_DATA_VOTES_BOUND = [2048, 32][$k],
                phase0::$m::PENDING_ATTESTATIONS_BOUND = [4096, 1024][$k],
                altair::$m::TARGET_AGGREGATORS_PER_SYNC_SUBCOMMITTEE = 16,
                altair::$m::SYNC_SUBCOMMITTEE_SIZE = [128, 8][$k],
                deneb::$m::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH = [17, 9][$k],
                deneb::$m::BYTES_PER_BLOB = 1 << 17, deneb::$m::MAX_REQUEST_BLOB_SIDECARS = 768,
            }
        };
    }
    preset!(mainnet, 0);
    preset!(minimal, 1);
    // What the modules of the presets say is what their contexts say.
    macro_rules! agree {
        ($m:ident, $k:expr, $($f:ident: $($n:ident)*),* $(,)?) => {
            let want: BTreeMap<&str, String> = table(PRESETS, $k).into_iter().collect();
            $($(
                run.state();
                let name = stringify!($n);
                run.eq(|| format!("{}::{}::{name}", stringify!($f), stringify!($m)), &want.get(name).cloned(), &Some(format!("{}", $f::$m::$n)));
            )*)*
        };
    }
    macro_rules! all {
        ($m:ident, $k:expr) => {
            agree! { $m, $k,
                phase0: MAX_COMMITTEES_PER_SLOT TARGET_COMMITTEE_SIZE MAX_VALIDATORS_PER_COMMITTEE
                    SHUFFLE_ROUND_COUNT HYSTERESIS_QUOTIENT HYSTERESIS_DOWNWARD_MULTIPLIER
                    HYSTERESIS_UPWARD_MULTIPLIER MIN_DEPOSIT_AMOUNT MAX_EFFECTIVE_BALANCE
                    EFFECTIVE_BALANCE_INCREMENT MIN_ATTESTATION_INCLUSION_DELAY SLOTS_PER_EPOCH MIN_SEED_LOOKAHEAD
                    MAX_SEED_LOOKAHEAD MIN_EPOCHS_TO_INACTIVITY_PENALTY EPOCHS_PER_ETH1_VOTING_PERIOD
                    SLOTS_PER_HISTORICAL_ROOT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR
                    HISTORICAL_ROOTS_LIMIT VALIDATOR_REGISTRY_LIMIT BASE_REWARD_FACTOR
                    WHISTLEBLOWER_REWARD_QUOTIENT PROPOSER_REWARD_QUOTIENT INACTIVITY_PENALTY_QUOTIENT
                    MIN_SLASHING_PENALTY_QUOTIENT PROPORTIONAL_SLASHING_MULTIPLIER MAX_PROPOSER_SLASHINGS
                    MAX_ATTESTER_SLASHINGS MAX_ATTESTATIONS MAX_DEPOSITS MAX_VOLUNTARY_EXITS,
                altair: INACTIVITY_PENALTY_QUOTIENT_ALTAIR MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR
                    PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR SYNC_COMMITTEE_SIZE EPOCHS_PER_SYNC_COMMITTEE_PERIOD
                    MIN_SYNC_COMMITTEE_PARTICIPANTS UPDATE_TIMEOUT,
                bellatrix: INACTIVITY_PENALTY_QUOTIENT_BELLATRIX MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX
                    PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX MAX_BYTES_PER_TRANSACTION
                    MAX_TRANSACTIONS_PER_PAYLOAD BYTES_PER_LOGS_BLOOM MAX_EXTRA_DATA_BYTES,
                capella: MAX_WITHDRAWALS_PER_PAYLOAD MAX_BLS_TO_EXECUTION_CHANGES
                    MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP,
                deneb: FIELD_ELEMENTS_PER_BLOB MAX_BLOB_COMMITMENTS_PER_BLOCK MAX_BLOBS_PER_BLOCK,
                electra: MIN_ACTIVATION_BALANCE MAX_EFFECTIVE_BALANCE_ELECTRA
                    MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA
                    PENDING_BALANCE_DEPOSITS_LIMIT PENDING_PARTIAL_WITHDRAWALS_LIMIT PENDING_CONSOLIDATIONS_LIMIT
                    MAX_ATTESTER_SLASHINGS_ELECTRA MAX_ATTESTATIONS_ELECTRA MAX_CONSOLIDATIONS
                    MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD
                    MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP
            }
        };
    }
    all!(mainnet, 0);
    all!(minimal, 1);
}

pub fn c36(run: &Run) {
    let made: Vec<(usize, Context)> = vec![
        (0, Context::for_mainnet()),
        (1, Context::for_sepolia()),
        (2, Context::for_goerli()),
        (3, Context::for_holesky()),
        (4, Context::for_hoodi()),
        (5, Context::for_minimal()),
    ];
    run.part("constants");
    for (k, c) in &made {
        run.state();
        compare(run, || format!("{} as made", NAMES[*k]), &published(*k), Ok(fields(c)));
        if *k < 5 {
            let got = guard(|| Context::try_from(model_network(NAMES[*k])).map(|c| fields(&c)).map_err(|e| format!("{e:?}")));
            compare(run, || format!("{} by name", NAMES[*k]), &published(*k), got.and_then(|r| r));
            let got = guard(|| {
                Context::try_from(Network::from(NAMES[*k].to_string()))
                    .map(|c| fields(&c))
                    .map_err(|e| format!("{e:?}"))
            });
            compare(run, || format!("{} by text", NAMES[*k]), &published(*k), got.and_then(|r| r));
        }
        run.eq(|| format!("{} network", NAMES[*k]), &model_network(NAMES[*k]), c.network());
    }
    exported(run);
    run.part("versions");
    let mut seen: BTreeMap<[u8; 4], String> = BTreeMap::new();
    for (k, c) in &made {
        for f in FORKS {
            run.state();
            let v = c.fork_version_for(f);
            let want = published(*k)[match f {
                Fork::Phase0 => "GENESIS_FORK_VERSION",
                Fork::Altair => "ALTAIR_FORK_VERSION",
                Fork::Bellatrix => "BELLATRIX_FORK_VERSION",
                Fork::Capella => "CAPELLA_FORK_VERSION",
                Fork::Deneb => "DENEB_FORK_VERSION",
                Fork::Electra => "ELECTRA_FORK_VERSION",
            }]
            .clone();
            run.eq(|| format!("{} {f} version", NAMES[*k]), &want, &hx(v));
            if let Some(o) = seen.insert(v, format!("{} {f}", NAMES[*k])) {
                run.fail(format!("{} {f} version shared", NAMES[*k]), || format!("{v:?} is also that of {o}"));
            }
        }
    }

    run.part("genesis and clocks");
    let genesis = [1606824023u64, 1655733600, 1616508000, 1695902400, 1742213400];
    for (k, c) in &made {
        run.state();
        let name = NAMES[*k];
        let want = genesis.get(*k).copied();
        run.eq(|| format!("{name} genesis"), &Ok(want), &guard(|| c.genesis_time().ok()));
        let sps = if *k == 5 { 6 } else { 12 };
        let spe = if *k == 5 { 8 } else { 32 };
        let clock = guard(|| c.clock());
        let Ok(clock) = clock else { run.fail(format!("{name} clock"), || "crashed".into()); continue };
        run.eq(|| format!("{name} has a clock"), &want.is_some(), &clock.is_some());
        let mut clocks = vec![];
        if let (Some(x), Some(g)) = (clock, want) {
            clocks.push((x, g));
        }
        for g in [0, 1_600_000_000] {
            clocks.push((c.clock_at(g), g));
        }
        for (x, g) in clocks {
            for s in [0u64, 1, spe - 1, spe, 12345] {
                let got = guard(|| (x.timestamp_at_slot(s), x.epoch_for(s)));
                run.eq(|| format!("{name} clock slot {s}"), &Ok((g + s * sps, s / spe)), &got);
                for (t, w) in [(0, s), (sps * 1_000_000_000 - 1, s), (sps * 1_000_000_000, s + 1)] {
                    let at = (g + s * sps) as u128 * 1_000_000_000 + t as u128;
                    run.eq(|| format!("{name} clock at {at}"), &Ok(Some(w)), &guard(|| x.slot_at_time(at)));
                }
            }
            if g > 0 {
                run.eq(|| format!("{name} clock before"), &Ok(None), &guard(|| x.slot_at_time(g as u128 * 1_000_000_000 - 1)));
            }
        }
        let p = published(*k);
        let sum = p["MIN_GENESIS_TIME"].parse::<u64>().unwrap() + p["GENESIS_DELAY"].parse::<u64>().unwrap();
        run.eq(|| format!("{name} typical genesis"), &sum, &typical_genesis_time(c));
    }

    run.part("schedules");
    let epochs = run.pick(vec![0, 1, 2, 5, u64::MAX], vec![0, 1, 2, 3, 5, 9, u64::MAX - 1, u64::MAX]);
    let mut schedules: Vec<(u64, Vec<u64>)> = vec![];
    for spe in [1u64, 2, 3, 8, 32] {
        for t in tuples(5, epochs.len()) {
            if t.windows(2).all(|w| w[0] <= w[1]) {
                schedules.push((spe, t.iter().map(|i| epochs[*i]).collect()));
            }
        }
    }
    for (k, _) in &made {
        let p = published(*k);
        schedules.push((
            p["SLOTS_PER_EPOCH"].parse().unwrap(),
            ["ALTAIR", "BELLATRIX", "CAPELLA", "DENEB", "ELECTRA"]
                .map(|f| p[&*format!("{f}_FORK_EPOCH")].parse().unwrap())
                .to_vec(),
        ));
    }
    run.bound(format!("{} non-decreasing schedules over {epochs:?}", schedules.len()));
    parallel(&schedules, |(spe, e)| {
        let mut c = cfg::ctx();
        c.slots_per_epoch = *spe;
        (c.altair_fork_epoch, c.bellatrix_fork_epoch, c.capella_fork_epoch, c.deneb_fork_epoch, c.electra_fork_epoch) =
            (e[0], e[1], e[2], e[3], e[4]);
        let mut slots: Vec<u64> = (0..12 * spe.min(&4)).collect();
        for x in e {
            let at = x.saturating_mul(*spe);
            for d in 0..3 {
                slots.push(at.saturating_sub(d));
                slots.push(at.saturating_add(d));
                slots.push(at.saturating_add(spe - 1 + d));
            }
        }
        slots.push(u64::MAX);
        slots.sort();
        slots.dedup();
        let mut last = 0usize;
        for s in slots {
            run.state();
            // counted up the schedule, not compared from its end
            let n = e.iter().take_while(|x| s / spe >= **x).count();
            let got = guard(|| c.fork_for(s));
            if run.eq(|| format!("slot {s} of {spe} per epoch, forks at {e:?}"), &Ok(FORKS[n]), &got) {
                assert!(n >= last);
                last = n;
            }
        }
        run.trace();
    });

    run.part("names");
    let pieces = ["", "a", "/", " ", "(", ")", "custom (", "/config.yaml", "/config.yaml)", "mainnet", "Mainnet", "hoodi", "\"", "é"];
    let mut texts: Vec<String> = vec![];
    for n in 0..=run.pick(3, 4) {
        for t in tuples(n, pieces.len()) {
            texts.push(t.iter().map(|i| pieces[*i]).collect());
        }
    }
    texts.sort();
    texts.dedup();
    run.bound(format!("{} directory names from {} pieces", texts.len(), pieces.len()));
    let mut nets: Vec<Network> = NAMES[..5].iter().map(|n| model_network(n)).collect();
    nets.extend(texts.iter().map(|t| Network::Custom(t.clone())));
    parallel(&nets, |n| {
        run.state();
        let back = guard(|| Network::from(n.to_string()));
        run.eq(|| format!("text of {n:?}"), &Ok(n.clone()), &back);
        let back = guard(|| Network::from(String::from(n.clone())));
        run.eq(|| format!("string of {n:?}"), &Ok(n.clone()), &back);
        let back = guard(|| serde_json::from_str::<Network>(&serde_json::to_string(n).unwrap()).ok());
        run.eq(|| format!("json of {n:?}"), &Ok(Some(n.clone())), &back);
    });
    for t in &texts {
        // a name names a network only as it is written; anything else is a place
        run.state();
        let own = t.starts_with("custom (") && t.ends_with("/config.yaml)");
        if !own {
            let got = guard(|| Network::from(t.clone()));
            run.eq(|| format!("name {t:?}"), &Ok(model_network(t)), &got);
        }
    }
    run.eq(|| "default".into(), &Network::Mainnet, &Network::default());
    run.assume("the published values are those of the eth-clients and consensus-specs repositories as far as this release follows them (electra is scheduled on hoodi alone)");
    run.sample(|| format!("{:?}", published(4)));
}

// ---------------------------------------------------------------- C37

/// A configuration file: `(key, value as written)`.
type Doc = Vec<(String, String)>;
fn document(k: usize) -> Doc {
    let mut d: Doc = vec![
        ("PRESET_BASE".into(), format!("'{}'", if k == 5 { "minimal" } else { "mainnet" })),
        ("CONFIG_NAME".into(), format!("'{}'", NAMES[k])),
    ];
    for (n, v) in table(CONFIGS, k) {
        // integers beyond 128 bits need quotes
        d.push((n.into(), if v.len() > 38 && !v.starts_with("0x") { format!("'{v}'") } else { v }));
    }
    d
}
fn write(d: &Doc) -> String {
    d.iter().map(|(k, v)| format!("{k}: {v}\n")).collect()
}
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
        static N: AtomicU32 = AtomicU32::new(0);
        let p = std::env::temp_dir()
            .join(format!("verif-config-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    fn load(&self, text: &[u8]) -> Result<Option<Fields>, String> {
        let f = self.0.join("config.yaml");
        std::fs::write(&f, text).unwrap();
        guard(|| Context::try_from_file(&f).ok().map(|c| fields(&c)))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.join("config.yaml"));
        let _ = std::fs::remove_dir(&self.0);
    }
}
/// What the file determines, or that it is no configuration.
fn meaning(d: &Doc) -> Option<Fields> {
    let get = |k: &str| {
        let mut v = d.iter().filter(|x| x.0 == k);
        let one = v.next()?;
        v.next().is_none().then(|| one.1.clone())
    };
    let bare = |v: &str| {
        let v = v.split(" #").next().unwrap().trim();
        v.strip_prefix('\'').and_then(|v| v.strip_suffix('\''))
            .or_else(|| v.strip_prefix('"').and_then(|v| v.strip_suffix('"')))
            .unwrap_or(v)
            .to_string()
    };
    let quoted = |v: &str| v.starts_with(['\'', '"']);
    let column = match bare(&get("PRESET_BASE")?).as_str() {
        "mainnet" => 0,
        "minimal" => 1,
        _ => return None,
    };
    let mut o: Fields = table(PRESETS, column).into_iter().collect();
    for (n, _) in table(CONFIGS, 0) {
        let w = get(n)?;
        let v = bare(&w);
        let bytes = match n {
            "TERMINAL_BLOCK_HASH" => 32,
            "DEPOSIT_CONTRACT_ADDRESS" => 20,
            n if n.ends_with("_VERSION") => 4,
            "TERMINAL_TOTAL_DIFFICULTY" => {
                o.insert(n, U256::from_str(&v).ok()?.to_string());
                continue;
            }
            _ => {
                if quoted(&w) {
                    return None;
                }
                o.insert(n, v.parse::<u64>().ok()?.to_string());
                continue;
            }
        };
        let h = v.strip_prefix("0x").unwrap_or(&v);
        if h.len() != 2 * bytes || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        o.insert(n, format!("0x{}", h.to_lowercase()));
    }
    o.insert("CONFIG_NAME", named(&bare(&get("CONFIG_NAME")?)));
    o.insert("execution engine", "true".into());
    Some(o)
}
fn check(run: &Run, s: &Scratch, key: impl Fn() -> String, d: &Doc) {
    run.state();
    let want = meaning(d);
    match (&want, s.load(write(d).as_bytes())) {
        (Some(w), Ok(Some(g))) => compare(run, key, w, Ok(g)),
        (None, Ok(None)) => run.transition(),
        (_, got) => {
            run.transition();
            run.fail(key(), || {
                format!("expected {}, got {got:?}\n{}", if want.is_some() { "a context" } else { "an error" }, write(d))
            })
        }
    }
}

pub fn c37(run: &Run) {
    run.part("published files");
    let s = Scratch::new();
    for k in 0..6 {
        check(run, &s, || format!("{} file", NAMES[k]), &document(k));
        // the file and the name give one context
        compare(run, || format!("{} file and name", NAMES[k]), &published(k), s.load(write(&document(k)).as_bytes()).map(|f| f.unwrap_or_default()));
    }
    run.part("one value");
    let numbers = ["0", "1", "7", "4294967296", "18446744073709551615", "-1", "18446744073709551616", "1.5", "abc", "'5'", "", "true", "5 # five", "~"];
    let hexes = |n: usize| {
        let z = |n: usize, c: &str| c.repeat(n);
        vec![
            format!("0x{}", z(n, "ab")), z(n, "cd"), format!("0x{}", z(n, "AB")), format!("'0x{}'", z(n, "01")),
            format!("\"0x{}\"", z(n, "7f")), format!("0x{}", z(n - 1, "ab")), format!("0x{}", z(n + 1, "ab")),
            format!("0x{}a", z(n - 1, "ab")), format!("0x{}", z(n, "zz")), "0x".into(), "''".into(),
            format!("0x{} # hex", z(n, "12")),
        ]
    };
    let mut jobs: Vec<(String, Doc)> = vec![];
    let mut values: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, _) in document(0) {
        let v: Vec<String> = match &*n {
            "PRESET_BASE" => ["'mainnet'", "minimal", "\"minimal\"", "mainnet", "Mainnet", "'main'", "''", "'mainnet '", "gnosis"].map(String::from).to_vec(),
            "CONFIG_NAME" => {
                let mut v: Vec<String> = NAMES.map(String::from).to_vec();
                v.extend(["'mainnet'", "\"hoodi\"", "'Mainnet'", "'my devnet'", "''", "a/b"].map(String::from));
                v
            }
            "TERMINAL_BLOCK_HASH" => hexes(32),
            "DEPOSIT_CONTRACT_ADDRESS" => hexes(20),
            n if n.ends_with("_VERSION") => hexes(4),
            "TERMINAL_TOTAL_DIFFICULTY" => {
                ["0", "1", "18446744073709551616", "'115792089237316195423570985008687907853269984665640564039457584007913129639935'",
                 "'115792089237316195423570985008687907853269984665640564039457584007913129639936'", "abc", "'-1'", "''", "'1.5'"].map(String::from).to_vec()
            }
            _ => numbers.map(String::from).to_vec(),
        };
        values.insert(n, v);
    }
    for k in 0..6 {
        let d = document(k);
        for i in 0..d.len() {
            for v in &values[&d[i].0] {
                let mut d = d.clone();
                d[i].1 = v.clone();
                jobs.push((format!("{} {} = {v}", NAMES[k], d[i].0), d));
            }
            let mut e = d.clone();
            let x = e.remove(i);
            jobs.push((format!("{} without {}", NAMES[k], x.0), e.clone()));
            e.push(x);
            jobs.push((format!("{} with {} last", NAMES[k], d[i].0), e.clone()));
            e.push(d[i].clone());
            jobs.push((format!("{} with {} twice", NAMES[k], d[i].0), e));
        }
    }
    run.bound(format!("{} files with one value changed", jobs.len()));
    let chunks: Vec<_> = jobs.chunks(200).collect();
    parallel(&chunks, |c| {
        let s = Scratch::new();
        for (w, d) in *c {
            check(run, &s, || w.clone(), d);
        }
    });

    run.part("two values");
    // every pair of parameters set to values that tell them apart
    let d = document(5);
    let pick = |n: &str, alt: usize| -> String {
        let v = &values[n];
        match n {
            "PRESET_BASE" => ["minimal", "mainnet"][alt].into(),
            "CONFIG_NAME" => ["sepolia", "elsewhere"][alt].into(),
            n if n.ends_with("_VERSION") || n == "TERMINAL_BLOCK_HASH" || n == "DEPOSIT_CONTRACT_ADDRESS" => v[alt].clone(),
            _ => ["1000001", "2000003"][alt].into(),
        }
    };
    let mut pairs = vec![];
    for i in 0..d.len() {
        for j in i + 1..d.len() {
            for alt in tuples(2, 2) {
                pairs.push((i, j, alt));
            }
        }
    }
    run.bound(format!("{} pairs of values", pairs.len()));
    let chunks: Vec<_> = pairs.chunks(100).collect();
    parallel(&chunks, |c| {
        let s = Scratch::new();
        for (i, j, alt) in *c {
            let mut d = d.clone();
            d[*i].1 = pick(&d[*i].0, alt[0]);
            d[*j].1 = pick(&d[*j].0, alt[1]);
            check(run, &s, || format!("{} and {}", d[*i].0, d[*j].0), &d);
        }
    });
    run.part("all different");
    // every value its own, in several assignments: nothing is read from a neighbour
    for k in 0..run.pick(8u64, 64) {
        let mut d = document(0);
        for (i, (n, v)) in d.iter_mut().enumerate() {
            let x = 1000 + 50 * k + i as u64;
            *v = match &**n {
                "PRESET_BASE" => ["mainnet", "minimal"][k as usize % 2].into(),
                "CONFIG_NAME" => format!("net-{k}"),
                "TERMINAL_BLOCK_HASH" => format!("0x{x:064x}"),
                "DEPOSIT_CONTRACT_ADDRESS" => format!("0x{x:040x}"),
                n if n.ends_with("_VERSION") => format!("0x{x:08x}"),
                _ => x.to_string(),
            };
        }
        check(run, &s, || format!("distinct values {k}"), &d);
        d.reverse();
        check(run, &s, || format!("distinct values {k} reversed"), &d);
        d.push(("SOMETHING_ELSE".into(), "5".into()));
        check(run, &s, || format!("distinct values {k} with an unknown key"), &d);
    }

    run.part("damaged files");
    let text = write(&document(4));
    for cut in 0..text.len() {
        run.state();
        run.transition();
        let got = s.load(text[..cut].as_bytes());
        // the last value of the file is an address, and only whole is it one
        let whole = cut + 1 == text.len();
        if got.as_ref().map(|g| g.is_some()) != Ok(whole) {
            run.fail(format!("cut at {cut}"), || format!("{got:?}"));
        }
    }
    for bad in [&b""[..], b"\xff\xfe", b"\0", b"[]", b"- a\n", b"PRESET_BASE", b"{", b": :", b"mainnet"] {
        run.state();
        run.eq(|| format!("file {bad:?}"), &Ok(None), &s.load(bad));
    }
    run.part("places");
    let missing = s.0.join("nowhere");
    run.eq(|| "missing file".into(), &Ok(true), &guard(|| Context::try_from_file(&missing).is_err()));
    run.eq(|| "a directory".into(), &Ok(true), &guard(|| Context::try_from_file(&s.0).is_err()));
    run.eq(|| "missing custom network".into(), &Ok(true), &guard(|| Context::try_from(Network::Custom(missing.to_string_lossy().into())).is_err()));
    for k in 0..6 {
        run.state();
        std::fs::write(s.0.join("config.yaml"), write(&document(k))).unwrap();
        let dir = s.0.to_string_lossy().to_string();
        for d in [dir.clone(), format!("{dir}/")] {
            let got = guard(|| Context::try_from(Network::Custom(d.clone())).map(|c| fields(&c)).map_err(|e| format!("{e:?}"))).and_then(|r| r);
            compare(run, || format!("custom network holding {}", NAMES[k]), &published(k), got);
            let got = guard(|| Context::try_from(Network::from(d.clone())).map(|c| fields(&c)).map_err(|e| format!("{e:?}"))).and_then(|r| r);
            compare(run, || format!("custom network by text holding {}", NAMES[k]), &published(k), got);
        }
    }

    run.assume("the YAML reader is a stand-in for flat documents with serde_yaml's typing of scalars");
    run.sample(|| text.clone());
}
