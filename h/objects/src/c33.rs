//! C33: the types that span forks expose exactly the object they wrap.
use crate::{
    form::{self, Fill, Val, T},
    schema::{self, ALTAIR, BELLATRIX, CAPELLA, DENEB, FORKS, P, PHASE0},
};
use ec::{
    ssz::prelude::{Deserialize, HashTreeRoot, Serialize},
    types, Fork,
};
use ethereum_consensus as ec;
use mc::{guard, Run};
use std::{collections::BTreeMap, fmt::Debug};

/// What a getter gives, encoded; nothing if the field is absent.
trait Out {
    fn out(self) -> Option<Vec<u8>>;
}
/// What a mutable getter gives: whether the field is there; writes the encoded value to it.
trait In {
    fn put(self, b: &[u8]) -> bool;
}
fn ser<X: Serialize>(x: &X) -> Vec<u8> {
    ssz_rs::serialize(x).unwrap()
}
impl Out for u64 {
    fn out(self) -> Option<Vec<u8>> {
        Some(self.to_le_bytes().to_vec())
    }
}
impl Out for usize {
    fn out(self) -> Option<Vec<u8>> {
        Some(self.to_le_bytes().to_vec())
    }
}
impl Out for ec::primitives::Root {
    fn out(self) -> Option<Vec<u8>> {
        Some(self.as_ref().to_vec())
    }
}
impl<X: Serialize> Out for &X {
    fn out(self) -> Option<Vec<u8>> {
        Some(ser(self))
    }
}
impl<X: Out> Out for Option<X> {
    fn out(self) -> Option<Vec<u8>> {
        self.and_then(|x| x.out())
    }
}
impl<X: Deserialize> In for &mut X {
    fn put(self, b: &[u8]) -> bool {
        *self = X::deserialize(b).unwrap();
        true
    }
}
impl<X: In> In for Option<X> {
    fn put(self, b: &[u8]) -> bool {
        self.is_some_and(|x| x.put(b))
    }
}

// All sizes small and different.
macro_rules! spans {
    ($($name:ident $r:ident $m:ident <$($g:literal),*> [$($v:ident)*];)*) => {$(
        type $name = types::$name<$($g),*>;
        type $r<'a> = types::$r<'a, $($g),*>;
        type $m<'a> = types::$m<'a, $($g),*>;
        impl Out for $r<'_> {
            fn out(self) -> Option<Vec<u8>> {
                match self {
                    $(Self::$v(x) => Some(ser(x)),)*
                }
            }
        }
        impl In for $m<'_> {
            fn put(self, b: &[u8]) -> bool {
                match self {
                    $(Self::$v(x) => *x = Deserialize::deserialize(b).unwrap(),)*
                }
                true
            }
        }
    )*};
}
spans! {
    BeaconBlock BeaconBlockRef BeaconBlockRefMut <2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3, 7, 8, 10> [Phase0 Altair Bellatrix Capella Deneb];
    BeaconBlockBody BeaconBlockBodyRef BeaconBlockBodyRefMut <2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3, 7, 8, 10> [Phase0 Altair Bellatrix Capella Deneb];
    BeaconState BeaconStateRef BeaconStateRefMut <4, 5, 3, 6, 2, 3, 9, 4, 6, 7, 5> [Phase0 Altair Bellatrix Capella Deneb];
    BlindedBeaconBlock BlindedBeaconBlockRef BlindedBeaconBlockRefMut <2, 9, 1, 3, 5, 4, 6, 7, 5, 8, 10> [Bellatrix Capella Deneb];
    BlindedBeaconBlockBody BlindedBeaconBlockBodyRef BlindedBeaconBlockBodyRefMut <2, 9, 1, 3, 5, 4, 6, 7, 5, 8, 10> [Bellatrix Capella Deneb];
    ExecutionPayload ExecutionPayloadRef ExecutionPayloadRefMut <7, 5, 11, 3, 7> [Bellatrix Capella Deneb];
    ExecutionPayloadHeader ExecutionPayloadHeaderRef ExecutionPayloadHeaderRefMut <7, 5> [Bellatrix Capella Deneb];
}
type SignedBeaconBlock = types::SignedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 11, 3, 7, 8, 10>;
type SignedBlindedBeaconBlock = types::SignedBlindedBeaconBlock<2, 9, 1, 3, 5, 4, 6, 7, 5, 8, 10>;

fn fork(n: usize) -> Fork {
    [Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb][n]
}
fn shapes(run: &Run, t: &T) -> Vec<Val> {
    let lens: &[&dyn Fn(&str, u64) -> usize] = &[&|_, n| n.min(2) as usize, &|_, n| n as usize, &|_, _| 0, &|_, n| n.min(1) as usize];
    let mut out: Vec<Val> = lens[..run.pick(2, 4)].iter().enumerate().map(|(i, len)| Fill { seed: 100 * i as u64, len }.value(t, "")).collect();
    if run.thorough {
        out.push(form::empty(t));
    }
    out
}
/// A value of the object with the encodings of its fields, and other values to write to them.
struct Case<'a> {
    run: &'a Run,
    name: String,
    fork: usize,
    t: T,
    v: Val,
    bytes: Vec<u8>,
    root: [u8; 32],
    fields: BTreeMap<&'static str, Vec<u8>>,
    others: BTreeMap<&'static str, Vec<u8>>,
    /// the whole object after such a write
    after: BTreeMap<&'static str, Vec<u8>>,
}
fn cases<'a>(run: &'a Run, p: &P, name: &str, fork: usize) -> Vec<Case<'a>> {
    let t = p.of(fork, name);
    shapes(run, &t)
        .into_iter()
        .map(|v| {
            let other = Fill { seed: 7000, len: &|_, n| n.min(3) as usize }.value(&t, "");
            let (T::C(_, f), Val::Seq(a), Val::Seq(b)) = (&t, &v, &other) else { panic!() };
            let mut c = Case {
                run,
                name: format!("{name} of {}", FORKS[fork]),
                fork,
                bytes: t.encode(&v),
                root: t.root(&v),
                fields: BTreeMap::new(),
                others: BTreeMap::new(),
                after: BTreeMap::new(),
                t: t.clone(),
                v: v.clone(),
            };
            for (i, (field, ft)) in f.iter().enumerate() {
                c.fields.insert(field, ft.encode(&a[i]));
                // a flag's other value differs, as do all others
                let w = match &a[i] {
                    Val::Flag(x) => Val::Flag(!x),
                    _ => b[i].clone(),
                };
                c.others.insert(field, ft.encode(&w));
                let mut s = a.clone();
                s[i] = w;
                c.after.insert(field, t.encode(&Val::Seq(s)));
            }
            c
        })
        .collect()
}
impl Case<'_> {
    fn eq<X: PartialEq + Debug>(&self, form: &str, what: &str, want: &X, got: Result<X, String>) {
        self.run.transition();
        if got.as_ref() != Ok(want) {
            let key = format!("{}{form}: {what}", self.name);
            let cut = |s: String| s.chars().take(500).collect::<String>();
            self.run.fail(key, || format!("expected {}\n     got {}", cut(format!("{want:x?}")), cut(format!("{got:x?}"))));
        }
    }
    fn get(&self, form: &str, field: &'static str, got: impl FnOnce() -> Option<Vec<u8>>) {
        self.eq(form, field, &self.fields.get(field).cloned(), guard(got));
    }
    /// The fields of the container with no getter, and the getters of no field of any fork, are not hidden.
    fn all(&self, form: &str, known: &[&'static str]) {
        for f in self.fields.keys() {
            if !known.contains(f) {
                self.run.fail(format!("{}{form}: no getter of {f}", self.name), String::new);
            }
        }
    }
    /// Writes the field through `put`, which says if it is there and gives the object after.
    fn set(&self, form: &str, field: &'static str, put: impl FnOnce(&[u8]) -> (bool, Vec<u8>)) {
        let want = match self.after.get(field) {
            Some(b) => (true, b.clone()),
            None => (false, self.bytes.clone()),
        };
        let b = self.others.get(field).cloned().unwrap_or_default();
        self.eq(form, &format!("{field}_mut"), &want, guard(|| put(&b)));
    }
    fn whole<E>(&self, e: &E, version: impl FnOnce(&E) -> Fork)
    where
        E: Serialize + HashTreeRoot + serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug,
    {
        self.run.state();
        self.eq("", "version", &fork(self.fork), guard(|| version(e)));
        self.eq("", "encoding", &self.bytes, guard(|| ser(e)));
        self.eq("", "root", &self.root, guard(|| e.hash_tree_root().unwrap().as_ref().try_into().unwrap()));
        let json = self.t.json(&self.v);
        self.eq("", "json", &json, guard(|| serde_json::to_value(e).unwrap()));
        self.eq("", "from json text", &true, guard(|| serde_json::from_str::<E>(&json.to_string()).unwrap() == *e));
        self.eq("", "from json value", &true, guard(|| serde_json::from_value::<E>(json.clone()).unwrap() == *e));
        self.run.trace();
    }
}

/// The checks of one such type; the forks it spans, the fields its getters name.
macro_rules! span {
    ($run:ident, $E:ident; $($v:ident $acc:ident $acc_mut:ident $F:ident;)* ; $($f:ident $fm:ident),* $(,)?) => {{
        let p = &schema::TINY;
        let name = stringify!($E);
        let known = [$(stringify!($f)),*];
        let gets: Vec<(&'static str, fn(&$E) -> Option<Vec<u8>>)> = vec![$((stringify!($f), |e| e.$f().out())),*];
        let sets: Vec<(&'static str, fn(&mut $E, &[u8]) -> bool)> = vec![$((stringify!($f), |e, b| e.$fm().put(b))),*];
        $(
            for c in cases($run, p, name, $F) {
                let inner = Deserialize::deserialize(&c.bytes).unwrap();
                let e = $E::$v(inner);
                c.whole(&e, |e| e.version());
                c.all("", &known);
                for (f, g) in &gets {
                    c.get("", f, || g(&e));
                }
                for (f, s) in &sets {
                    let mut e = e.clone();
                    c.set("", f, |b| (s(&mut e, b), ser(&e)));
                }
            }
        )*
        // each wrapped object, by the name of its fork
        let accs: Vec<(usize, &'static str, fn(&mut $E) -> [Option<Vec<u8>>; 2])> =
            vec![$(($F, stringify!($acc), |e| [e.$acc().map(|x| ser(x)), e.$acc_mut().map(|x| ser(x))])),*];
        $(
            for c in cases($run, p, name, $F) {
                let mut e = $E::$v(Deserialize::deserialize(&c.bytes).unwrap());
                for (n, what, a) in &accs {
                    let want = (*n == c.fork).then(|| c.bytes.clone());
                    c.eq("", what, &[want.clone(), want], guard(|| a(&mut e)));
                }
            }
        )*
    }};
}
/// The same of the borrowed forms.
macro_rules! borrowed {
    ($run:ident, $E:ident, $R:ident, $M:ident; $($v:ident $acc:ident $acc_mut:ident $F:ident;)* ; $($f:ident $fm:ident),* $(,)?) => {{
        let p = &schema::TINY;
        let name = stringify!($E);
        let gets: Vec<(&'static str, for<'a, 'b> fn(&'b $R<'a>) -> Option<Vec<u8>>)> = vec![$((stringify!($f), |e| e.$f().out())),*];
        let gets_mut: Vec<(&'static str, for<'a, 'b> fn(&'b $M<'a>) -> Option<Vec<u8>>)> = vec![$((stringify!($f), |e| e.$f().out())),*];
        let sets: Vec<(&'static str, for<'a, 'b, 'c> fn(&'b mut $M<'a>, &'c [u8]) -> bool)> = vec![$((stringify!($f), |e, b| e.$fm().put(b))),*];
        let accs: Vec<(usize, &'static str, for<'a, 'b> fn(&'b $R<'a>) -> Option<Vec<u8>>)> = vec![$(($F, stringify!($acc), |e| e.$acc().map(|x| ser(x)))),*];
        let accs_mut: Vec<(usize, &'static str, for<'a, 'b> fn(&'b mut $M<'a>) -> [Option<Vec<u8>>; 2])> =
            vec![$(($F, stringify!($acc), |e| [e.$acc().map(|x| ser(x)), e.$acc_mut().map(|x| ser(x))])),*];
        $(
            for c in cases($run, p, name, $F) {
                $run.state();
                let $E::$v(mut inner) = $E::$v(Deserialize::deserialize(&c.bytes).unwrap()) else { unreachable!() };
                {
                    let r: $R<'_> = (&inner).into();
                    c.eq(" (shared)", "version", &fork(c.fork), guard(|| r.version()));
                    c.eq(" (shared)", "root", &c.root, guard(|| r.hash_tree_root().unwrap().as_ref().try_into().unwrap()));
                    for (f, g) in &gets {
                        c.get(" (shared)", f, || g(&r));
                    }
                    for (n, what, a) in &accs {
                        c.eq(" (shared)", what, &(*n == c.fork).then(|| c.bytes.clone()), guard(|| a(&r)));
                    }
                }
                {
                    let mut m: $M<'_> = (&mut inner).into();
                    c.eq(" (mutable)", "version", &fork(c.fork), guard(|| m.version()));
                    c.eq(" (mutable)", "root", &c.root, guard(|| m.hash_tree_root().unwrap().as_ref().try_into().unwrap()));
                    for (f, g) in &gets_mut {
                        c.get(" (mutable)", f, || g(&m));
                    }
                    for (n, what, a) in &accs_mut {
                        let want = (*n == c.fork).then(|| c.bytes.clone());
                        c.eq(" (mutable)", what, &[want.clone(), want], guard(|| a(&mut m)));
                    }
                }
                for (f, s) in &sets {
                    let mut inner = inner.clone();
                    c.set(" (mutable)", f, |b| {
                        let mut m: $M<'_> = (&mut inner).into();
                        (s(&mut m, b), ser(&inner))
                    });
                }
                $run.trace();
            }
        )*
    }};
}
macro_rules! both {
    ($run:ident, $E:ident, $R:ident, $M:ident; $($rest:tt)*) => {
        span!($run, $E; $($rest)*);
        borrowed!($run, $E, $R, $M; $($rest)*);
    };
}
macro_rules! five {
    ($m:ident! ($($head:tt)*) $($f:tt)*) => {
        $m!($($head)*; Phase0 phase0 phase0_mut PHASE0; Altair altair altair_mut ALTAIR; Bellatrix bellatrix bellatrix_mut BELLATRIX;
            Capella capella capella_mut CAPELLA; Deneb deneb deneb_mut DENEB; ; $($f)*)
    };
}
macro_rules! three {
    ($m:ident! ($($head:tt)*) $($f:tt)*) => {
        $m!($($head)*; Bellatrix bellatrix bellatrix_mut BELLATRIX; Capella capella capella_mut CAPELLA; Deneb deneb deneb_mut DENEB; ; $($f)*)
    };
}

fn payloads(run: &Run) {
    three!(both! (run, ExecutionPayload, ExecutionPayloadRef, ExecutionPayloadRefMut)
        parent_hash parent_hash_mut, fee_recipient fee_recipient_mut, state_root state_root_mut, receipts_root receipts_root_mut,
        logs_bloom logs_bloom_mut, prev_randao prev_randao_mut, block_number block_number_mut, gas_limit gas_limit_mut, gas_used gas_used_mut,
        timestamp timestamp_mut, extra_data extra_data_mut, base_fee_per_gas base_fee_per_gas_mut, block_hash block_hash_mut,
        transactions transactions_mut, withdrawals withdrawals_mut, blob_gas_used blob_gas_used_mut, excess_blob_gas excess_blob_gas_mut);
    three!(both! (run, ExecutionPayloadHeader, ExecutionPayloadHeaderRef, ExecutionPayloadHeaderRefMut)
        parent_hash parent_hash_mut, fee_recipient fee_recipient_mut, state_root state_root_mut, receipts_root receipts_root_mut,
        logs_bloom logs_bloom_mut, prev_randao prev_randao_mut, block_number block_number_mut, gas_limit gas_limit_mut, gas_used gas_used_mut,
        timestamp timestamp_mut, extra_data extra_data_mut, base_fee_per_gas base_fee_per_gas_mut, block_hash block_hash_mut,
        transactions_root transactions_root_mut, withdrawals_root withdrawals_root_mut, blob_gas_used blob_gas_used_mut,
        excess_blob_gas excess_blob_gas_mut);
}
fn blocks(run: &Run) {
    five!(both! (run, BeaconBlock, BeaconBlockRef, BeaconBlockRefMut)
        slot slot_mut, proposer_index proposer_index_mut, parent_root parent_root_mut, state_root state_root_mut, body body_mut);
    five!(both! (run, BeaconBlockBody, BeaconBlockBodyRef, BeaconBlockBodyRefMut)
        randao_reveal randao_reveal_mut, eth1_data eth1_data_mut, graffiti graffiti_mut, proposer_slashings proposer_slashings_mut,
        attester_slashings attester_slashings_mut, attestations attestations_mut, deposits deposits_mut, voluntary_exits voluntary_exits_mut,
        sync_aggregate sync_aggregate_mut, execution_payload execution_payload_mut, bls_to_execution_changes bls_to_execution_changes_mut,
        blob_kzg_commitments blob_kzg_commitments_mut);
    five!(span! (run, SignedBeaconBlock) message message_mut, signature signature_mut);
    three!(both! (run, BlindedBeaconBlock, BlindedBeaconBlockRef, BlindedBeaconBlockRefMut)
        slot slot_mut, proposer_index proposer_index_mut, parent_root parent_root_mut, state_root state_root_mut, body body_mut);
    three!(both! (run, BlindedBeaconBlockBody, BlindedBeaconBlockBodyRef, BlindedBeaconBlockBodyRefMut)
        randao_reveal randao_reveal_mut, eth1_data eth1_data_mut, graffiti graffiti_mut, proposer_slashings proposer_slashings_mut,
        attester_slashings attester_slashings_mut, attestations attestations_mut, deposits deposits_mut, voluntary_exits voluntary_exits_mut,
        sync_aggregate sync_aggregate_mut, execution_payload_header execution_payload_header_mut,
        bls_to_execution_changes bls_to_execution_changes_mut, blob_kzg_commitments blob_kzg_commitments_mut);
    three!(span! (run, SignedBlindedBeaconBlock) message message_mut, signature signature_mut);
}
fn states(run: &Run) {
    five!(both! (run, BeaconState, BeaconStateRef, BeaconStateRefMut)
        genesis_time genesis_time_mut, genesis_validators_root genesis_validators_root_mut, slot slot_mut, fork fork_mut,
        latest_block_header latest_block_header_mut, block_roots block_roots_mut, state_roots state_roots_mut,
        historical_roots historical_roots_mut, eth1_data eth1_data_mut, eth1_data_votes eth1_data_votes_mut,
        eth1_deposit_index eth1_deposit_index_mut, validators validators_mut, balances balances_mut, randao_mixes randao_mixes_mut,
        slashings slashings_mut, previous_epoch_attestations previous_epoch_attestations_mut,
        current_epoch_attestations current_epoch_attestations_mut, justification_bits justification_bits_mut,
        previous_justified_checkpoint previous_justified_checkpoint_mut, current_justified_checkpoint current_justified_checkpoint_mut,
        finalized_checkpoint finalized_checkpoint_mut, previous_epoch_participation previous_epoch_participation_mut,
        current_epoch_participation current_epoch_participation_mut, inactivity_scores inactivity_scores_mut,
        current_sync_committee current_sync_committee_mut, next_sync_committee next_sync_committee_mut,
        latest_execution_payload_header latest_execution_payload_header_mut, next_withdrawal_index next_withdrawal_index_mut,
        next_withdrawal_validator_index next_withdrawal_validator_index_mut, historical_summaries historical_summaries_mut);
}

/// At the published sizes: a document of a fork is read as that fork's object, with that object's root and encodings.
fn document<E>(run: &Run, p: &P, name: &str, first: usize, version: fn(&E) -> Fork)
where
    E: Serialize + HashTreeRoot + serde::Serialize + serde::de::DeserializeOwned,
{
    for n in first..=DENEB {
        let t = p.of(n, name);
        let lens: [&dyn Fn(&str, u64) -> usize; 3] = [&|_, n| n.min(1) as usize, &|_, _| 0, &|_, n| n.min(3) as usize];
        for len in &lens[..run.pick(1, 3)] {
            let v = Fill { seed: 40, len }.value(&t, "");
            run.state();
            let key = format!("{} {name} of {}", p.name, FORKS[n]);
            let json = t.json(&v);
            let got = guard(|| {
                let e: E = serde_json::from_str(&json.to_string()).map_err(|e| e.to_string())?;
                let root: [u8; 32] = e.hash_tree_root().map_err(|e| e.to_string())?.as_ref().try_into().unwrap();
                Ok::<_, String>((version(&e), root, ser(&e) == t.encode(&v), serde_json::to_value(&e).unwrap() == json))
            });
            run.eq(|| key, &Ok(Ok((fork(n), t.root(&v), true, true))), &got);
            run.trace();
        }
    }
}
macro_rules! preset {
    ($run:ident, $m:ident, $p:ident) => {{
        use types::$m as m;
        let p = &schema::$p;
        document::<m::BeaconBlock>($run, p, "BeaconBlock", PHASE0, |e| e.version());
        document::<m::BeaconBlockBody>($run, p, "BeaconBlockBody", PHASE0, |e| e.version());
        document::<m::SignedBeaconBlock>($run, p, "SignedBeaconBlock", PHASE0, |e| e.version());
        document::<m::BlindedBeaconBlock>($run, p, "BlindedBeaconBlock", BELLATRIX, |e| e.version());
        document::<m::BlindedBeaconBlockBody>($run, p, "BlindedBeaconBlockBody", BELLATRIX, |e| e.version());
        document::<m::SignedBlindedBeaconBlock>($run, p, "SignedBlindedBeaconBlock", BELLATRIX, |e| e.version());
        document::<m::ExecutionPayload>($run, p, "ExecutionPayload", BELLATRIX, |e| e.version());
        document::<m::ExecutionPayloadHeader>($run, p, "ExecutionPayloadHeader", BELLATRIX, |e| e.version());
        document::<m::BeaconState>($run, p, "BeaconState", PHASE0, |e| e.version());
    }};
}

pub fn check(run: &Run) {
    run.bound("9 types, their shared and mutable borrowed forms, each with each fork it spans; values with every leaf different and lists of 2 elements or full (thorough: of 0 and 1, and all zero)");
    run.bound("every getter of every field, every mutable getter used for one write each, every accessor of each fork's object; documents of each fork at the minimal and mainnet sizes");
    run.assume("the encodings, roots and JSON of the wrapped objects are those C32 checks");
    payloads(run);
    run.part("payloads and headers");
    blocks(run);
    run.part("blocks and bodies");
    states(run);
    run.part("states");
    preset!(run, minimal, MINIMAL);
    preset!(run, mainnet, MAINNET);
    run.part("documents at the published sizes");
}
