//! States and blocks to explore from, and the comparison of one step on both sides.
use crate::{cfg, cfg::version, crypto::*, later, m::*, real, spec};
use mc::{guard, Run};
use std::{collections::HashMap, sync::OnceLock};

pub fn creds(kind: u8, i: usize) -> Bytes32 {
    let mut w = [0u8; 32];
    if kind == 0 {
        w = sha(&[pk(i).as_ref()]);
        w[0] = 0;
    } else {
        w[0] = kind;
        w[12..].copy_from_slice(address(i).as_ref());
    }
    b32(w)
}
pub fn address(i: usize) -> ExecutionAddress {
    let mut a = [0xa0u8; 20];
    a[19] = i as u8;
    ExecutionAddress::try_from(&a[..]).unwrap()
}
pub fn validator(i: usize, kind: u8) -> Validator {
    Validator {
        public_key: pk(i),
        withdrawal_credentials: creds(kind, i),
        effective_balance: 32 * ETH,
        slashed: false,
        activation_eligibility_epoch: 0,
        activation_epoch: 0,
        exit_epoch: FAR,
        withdrawable_epoch: FAR,
    }
}
/// The number of a key made by [`pk`].
pub fn who(k: &BlsPublicKey) -> usize {
    known_key(k).expect("a known key")
}
pub fn known_key(k: &BlsPublicKey) -> Option<usize> {
    static T: OnceLock<HashMap<Vec<u8>, usize>> = OnceLock::new();
    T.get_or_init(|| (0..256).map(|i| (pk(i).as_ref().to_vec(), i)).collect())
        .get(k.as_ref())
        .copied()
}
pub fn agg_key(keys: &[BlsPublicKey]) -> BlsPublicKey {
    let v: Vec<_> = keys
        .iter()
        .map(|k| blst::min_pk::PublicKey::from_bytes(k.as_ref()).unwrap())
        .collect();
    let v: Vec<_> = v.iter().collect();
    let a = blst::min_pk::AggregatePublicKey::aggregate(&v, true).unwrap().to_public_key();
    BlsPublicKey::try_from(&a.to_bytes()[..]).unwrap()
}
pub fn committee_of(ix: &[usize]) -> SyncC {
    let keys: Vec<_> = ix.iter().map(|i| pk(*i)).collect();
    SyncC { agg: agg_key(&keys), keys }
}

/// A state of `n` active validators at `slot`, on a healthy chain: everything before is justified
/// and finalized, the merge is complete, every root and mix is distinct.
pub fn base(f: F, n: usize, slot: u64, c: &Context) -> M {
    let e = slot / c.slots_per_epoch;
    let prev = if f == Phase0 { Phase0 } else { FORKS[f as usize - 1] };
    let kind = if f == Electra { 2 } else { (f >= Capella) as u8 };
    let mut m = M {
        f,
        genesis_time: (1 << 33) + 5000,
        genesis_validators_root: root(77),
        slot,
        fork: Fork {
            previous_version: version(c, prev),
            current_version: version(c, f),
            epoch: if f == Phase0 { 0 } else { e.saturating_sub(1) },
        },
        block_roots: (0..cfg::SPHR).map(|i| root(100 + i as u64)).collect(),
        state_roots: (0..cfg::SPHR).map(|i| root(200 + i as u64)).collect(),
        eth1_data: Eth1Data { deposit_root: root(3), deposit_count: n as u64, block_hash: b32(hash_n(4)) },
        deposit_index: n as u64,
        validators: (0..n).map(|i| validator(i, kind)).collect(),
        balances: vec![32 * ETH; n],
        mixes: (0..cfg::EPHV).map(|i| b32(hash_n(300 + i as u64))).collect(),
        slashings: vec![0; cfg::EPSV],
        jbits: vec![e > 0, e > 1, e > 2, e > 3],
        ..M::default()
    };
    if f == Phase0 {
        // versions of no network, so that what depends on them shows before the first fork as well
        m.fork = Fork { previous_version: [0, 9, 0, 76], current_version: [0, 9, 0, 77], epoch: e.saturating_sub(1) };
    }
    m.header = BeaconBlockHeader {
        slot: slot.saturating_sub(1),
        proposer_index: 1,
        parent_root: root(5),
        state_root: root(6),
        body_root: root(7),
    };
    if slot > 0 {
        m.block_roots[((slot - 1) % cfg::SPHR as u64) as usize] = htr(&m.header);
    }
    let at = |e: u64| Checkpoint {
        epoch: e,
        root: if e == 0 { Root::default() } else { m.root_of(e, c).unwrap_or(root(400 + e)) },
    };
    (m.cj, m.pj, m.fin) =
        (at(e.saturating_sub(1)), at(e.saturating_sub(2)), at(e.saturating_sub(2)));
    if f > Phase0 {
        m.prev_part = vec![0; n];
        m.cur_part = vec![0; n];
        m.scores = vec![0; n];
        let pick = |k: usize| (0..cfg::SYNC).map(|i| (i + k) % n.max(1)).collect::<Vec<_>>();
        m.sync = committee_of(&pick(0));
        m.next_sync = committee_of(&pick(1));
    }
    if f >= Bellatrix {
        let p = Pay {
            block_hash: b32(hash_n(500)),
            parent_hash: b32(hash_n(501)),
            fee_recipient: address(9),
            state_root: b32(hash_n(502)),
            receipts_root: b32(hash_n(503)),
            prev_randao: b32(hash_n(504)),
            logs_bloom: vec![1, 2, 3, 4],
            extra_data: vec![5],
            block_number: (1 << 32) + 10,
            gas_limit: (1 << 33) + 11,
            gas_used: (1 << 34) + 12,
            timestamp: 13,
            base_fee: U256::from((1u64 << 63) + 14),
            transactions: vec![vec![1]],
            blob_gas_used: (1 << 35) + 15,
            excess_blob_gas: (1 << 36) + 16,
            ..Pay::default()
        };
        m.payload = spec::header_of(f, &p);
    }
    if f == Electra {
        m.receipts_start = u64::MAX;
        m.earliest_exit = spec::activation_exit_epoch(e, c);
        m.earliest_cons = m.earliest_exit;
        m.exit_btc = m.exit_churn(c);
        m.cons_btc = m.cons_churn(c);
    }
    m
}

/// Moves the state to `slot` without the work of passing slots: the roots stay as they are, and
/// the last block is the one before.
pub fn at_slot(m: &M, slot: u64) -> M {
    let mut m = m.clone();
    m.slot = slot;
    m.header.slot = slot.saturating_sub(1);
    if slot > 0 {
        m.block_roots[((slot - 1) % cfg::SPHR as u64) as usize] = htr(&m.header);
    }
    m
}

// Messages
pub fn header_sig(m: &M, h: &BeaconBlockHeader, signer: usize, c: &Context) -> SignedBeaconBlockHeader {
    let d = m.domain(BEACON_PROPOSER, Some(h.slot / c.slots_per_epoch), c);
    SignedBeaconBlockHeader {
        message: h.clone(),
        signature: sign(signer, &signing_root(&htr(h), &d)),
    }
}
pub fn att_data(m: &M, slot: u64, index: usize, c: &Context) -> AttestationData {
    let e = slot / c.slots_per_epoch;
    AttestationData {
        slot,
        index,
        beacon_block_root: m.root_at(slot).unwrap_or(root(600)),
        source: if e == m.epoch(c) { m.cj.clone() } else { m.pj.clone() },
        target: Checkpoint { epoch: e, root: m.root_of(e, c).unwrap_or(root(601)) },
    }
}
pub fn att_sig(m: &M, data: &AttestationData, signers: &[usize], c: &Context) -> BlsSignature {
    let d = m.domain(BEACON_ATTESTER, Some(data.target.epoch), c);
    sign_all(signers, &signing_root(&htr(data), &d))
}
/// An attestation of the members of the committees `which` chosen by `bits`, cyclically.
pub fn att(m: &M, slot: u64, which: &[usize], bits: &[bool], c: &Context) -> Att {
    let mut a = Att::default();
    a.data = att_data(m, slot, if m.f == Electra { 0 } else { which[0] }, c);
    if m.f == Electra {
        a.cbits = (0..cfg::MCPS).map(|i| which.contains(&i)).collect();
    }
    let mut signers = vec![];
    for w in which {
        for i in m.committee(slot, *w, c).unwrap() {
            let b = bits[a.bits.len() % bits.len()];
            a.bits.push(b);
            if b {
                signers.push(i);
            }
        }
    }
    let keys: Vec<usize> = signers.iter().map(|i| who(&m.validators[*i].public_key)).collect();
    a.sig = att_sig(m, &a.data, &keys, c);
    a
}
pub fn idx(m: &M, data: &AttestationData, ix: &[usize], c: &Context) -> Idx {
    let keys: Vec<usize> = ix
        .iter()
        .filter(|i| **i < m.validators.len())
        .map(|i| who(&m.validators[*i].public_key))
        .collect();
    Idx { indices: ix.to_vec(), data: data.clone(), sig: att_sig(m, data, &keys, c) }
}
pub fn exit(m: &M, i: usize, epoch: u64, signer: usize, c: &Context) -> SignedVoluntaryExit {
    let message = VoluntaryExit { epoch, validator_index: i };
    let d = if m.f >= Deneb {
        domain(VOLUNTARY_EXIT, c.capella_fork_version, &m.genesis_validators_root)
    } else {
        m.domain(VOLUNTARY_EXIT, Some(epoch), c)
    };
    let signature = sign(signer, &signing_root(&htr(&message), &d));
    SignedVoluntaryExit { message, signature }
}
pub fn change(m: &M, i: usize, from: usize, signer: usize, c: &Context) -> SignedBlsToExecutionChange {
    let message = BlsToExecutionChange {
        validator_index: i,
        from_bls_public_key: pk(from),
        to_execution_address: address(i + 50),
    };
    let d = domain(BLS_TO_EXECUTION_CHANGE, c.genesis_fork_version, &m.genesis_validators_root);
    let signature = sign(signer, &signing_root(&htr(&message), &d));
    SignedBlsToExecutionChange { message, signature }
}
pub fn deposit_data(k: usize, kind: u8, amount: u64, signer: usize, c: &Context) -> DepositData {
    let mut d = DepositData {
        public_key: pk(k),
        withdrawal_credentials: creds(kind, k),
        amount,
        ..DepositData::default()
    };
    let msg = DepositMessage {
        public_key: d.public_key.clone(),
        withdrawal_credentials: d.withdrawal_credentials.clone(),
        amount,
    };
    let dom = domain(DEPOSIT, c.genesis_fork_version, &Root::default());
    d.signature = sign(signer, &signing_root(&htr(&msg), &dom));
    d
}
pub fn receipt(k: usize, kind: u8, amount: u64, signer: usize, index: u64, c: &Context) -> DepositReceipt {
    let d = deposit_data(k, kind, amount, signer, c);
    DepositReceipt {
        public_key: d.public_key,
        withdrawal_credentials: d.withdrawal_credentials,
        amount,
        signature: d.signature,
        index,
    }
}
pub fn sync_agg(m: &M, bits: &[bool], c: &Context) -> Agg {
    let slot = m.slot.max(1) - 1;
    let d = m.domain(SYNC_COMMITTEE, Some(slot / c.slots_per_epoch), c);
    let r = signing_root(&m.root_at(slot).unwrap_or(root(602)), &d);
    let keys: Vec<usize> =
        m.sync.keys.iter().zip(bits).filter(|x| *x.1).map(|x| who(x.0)).collect();
    Agg { bits: bits.to_vec(), sig: sign_all(&keys, &r) }
}
pub fn consolidation(m: &M, s: usize, t: usize, epoch: u64, signers: &[usize], c: &Context) -> SignedConsolidation {
    let message = Consolidation { source_index: s, target_index: t, epoch };
    let d = domain(CONSOLIDATION, c.genesis_fork_version, &m.genesis_validators_root);
    let signature = sign_all(signers, &signing_root(&htr(&message), &d));
    SignedConsolidation { message, signature }
}

/// The deposit tree of the contract: branches against the root with the length mixed in.
pub struct Deposits {
    pub leaves: Vec<[u8; 32]>,
}
impl Deposits {
    fn zeros() -> Vec<[u8; 32]> {
        let mut z = vec![[0u8; 32]];
        for i in 0..32 {
            z.push(sha(&[&z[i], &z[i]]));
        }
        z
    }
    fn levels(&self) -> Vec<Vec<[u8; 32]>> {
        let z = Self::zeros();
        let mut l = vec![self.leaves.clone()];
        for d in 0..32 {
            let cur = &l[d];
            l.push(
                cur.chunks(2)
                    .map(|p| sha(&[&p[0], p.get(1).unwrap_or(&z[d])]))
                    .collect(),
            );
        }
        l
    }
    fn len_mix(&self) -> [u8; 32] {
        raw(&uint_root(self.leaves.len() as u64))
    }
    pub fn root(&self) -> Root {
        let top = self.levels()[32].first().copied().unwrap_or(Self::zeros()[32]);
        node(sha(&[&top, &self.len_mix()]))
    }
    pub fn proof(&self, i: usize) -> Vec<Root> {
        let z = Self::zeros();
        let l = self.levels();
        let mut p: Vec<Root> =
            (0..32).map(|d| node(*l[d].get((i >> d) ^ 1).unwrap_or(&z[d]))).collect();
        p.push(node(self.len_mix()));
        p
    }
}
pub fn proof_vec(p: &[Root]) -> Vector<Root, 33> {
    Vector::try_from(p.to_vec()).ok().unwrap()
}
/// Sets up `m` so that the deposits come next, and returns them with their proofs.
pub fn queue_deposits(m: &mut M, data: &[DepositData]) -> Vec<Deposit> {
    let first = m.deposit_index as usize;
    let mut t = Deposits { leaves: (0..first).map(|i| hash_n(700 + i as u64)).collect() };
    t.leaves.extend(data.iter().map(|d| raw(&htr(d))));
    m.eth1_data.deposit_root = t.root();
    m.eth1_data.deposit_count = t.leaves.len() as u64;
    data.iter()
        .enumerate()
        .map(|(i, d)| Deposit { proof: proof_vec(&t.proof(first + i)), data: d.clone() })
        .collect()
}

/// A payload the state accepts at its slot.
pub fn payload(m: &M, c: &Context) -> Pay {
    Pay {
        parent_hash: m.payload.block_hash.clone(),
        block_hash: b32(hash_n(10_000 + m.slot)),
        fee_recipient: address(8),
        prev_randao: m.mix(m.epoch(c)),
        timestamp: m.timestamp(m.slot, c),
        block_number: m.payload.block_number + 1,
        logs_bloom: vec![9, 8, 7, 6],
        extra_data: vec![1, 2],
        transactions: vec![vec![7, m.slot as u8], vec![]],
        gas_limit: (1 << 33) + 1,
        gas_used: (1 << 34) + 3,
        base_fee: U256::from((1u64 << 62) + 300),
        withdrawals: if m.f >= Capella { m.expected(c).0 } else { vec![] },
        blob_gas_used: ((1 << 35) + 21) * (m.f >= Deneb) as u64,
        excess_blob_gas: ((1 << 36) + 22) * (m.f >= Deneb) as u64,
        ..Pay::default()
    }
}
/// A block for the state at its own slot (slots already processed), without operations.
pub fn draft(m: &M, c: &Context) -> Result<Blk, String> {
    let p = m.proposer(c)?;
    let r = signing_root(&uint_root(m.epoch(c)), &m.domain(RANDAO, None, c));
    Ok(Blk {
        slot: m.slot,
        proposer: p,
        parent_root: htr(&m.header),
        randao: sign(who(&m.validators[p].public_key), &r),
        eth1: m.eth1_data.clone(),
        graffiti: b32(hash_n(m.slot)),
        agg: if m.f > Phase0 { sync_agg(m, &[true; cfg::SYNC], c) } else { Agg::default() },
        payload: if m.f >= Bellatrix { payload(m, c) } else { Pay::default() },
        ..Blk::default()
    })
}
/// Claims the post-state and signs; where the block is invalid the claim stays empty.
pub fn seal(m: &M, b: &mut Blk, c: &Context) {
    let mut s = m.clone();
    if matches!(guard(|| s.process_block(b, c)), Ok(Ok(()))) {
        b.state_root = real::state_root(&s);
    }
    resign(m, b, c);
}
pub fn resign(m: &M, b: &mut Blk, c: &Context) {
    let d = m.domain(BEACON_PROPOSER, None, c);
    if let Some(v) = m.validators.get(b.proposer) {
        b.sig = sign(who(&v.public_key), &signing_root(&real::block_root(m.f, b), &d));
    }
}
/// A sealed block for `slot` on top of `m`, edited before it is sealed.
pub fn block(m: &M, slot: u64, c: &Context, edit: impl FnOnce(&mut M, &mut Blk)) -> (M, Blk) {
    let mut s = m.clone();
    if slot > s.slot {
        s.process_slots(slot, c).unwrap();
    }
    let mut b = draft(&s, c).unwrap();
    edit(&mut s, &mut b);
    seal(&s, &mut b, c);
    (s, b)
}

// Comparison
pub fn diff(want: &M, got: &M) -> String {
    let mut out = String::new();
    macro_rules! d {
        ($($f:ident)*) => { $(if want.$f != got.$f {
            out += &format!("{}: expected {:?}\n{:>w$}  got {:?}\n", stringify!($f), want.$f, "", got.$f, w = stringify!($f).len() + 2);
        })* };
    }
    d!(f genesis_time genesis_validators_root slot fork header block_roots state_roots historical_roots
        eth1_data votes deposit_index validators balances mixes slashings prev_att cur_att prev_part
        cur_part jbits pj cj fin scores sync next_sync payload nwi nwvi summaries receipts_start dep_btc
        exit_btc earliest_exit cons_btc earliest_cons pend_dep pend_wd pend_cons);
    out
}
fn brief(op: &Op) -> String {
    let mut s = format!("{op:?}");
    if s.len() > 900 {
        let mut n = 900;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    s
}

fn agree<T: PartialEq>(want: &Result<T, String>, got: &Result<T, String>) -> bool {
    match (want, got) {
        (Ok(w), Ok(g)) => w == g,
        (Err(_), Err(g)) => !g.starts_with("panic"),
        _ => false,
    }
}
/// Whether the answer is the one that the listed defects, and nothing else, explain. It is then
/// reported under their names, so that known_findings.txt decides.
fn listed<T: PartialEq>(run: &Run, reference: impl FnOnce() -> Result<T, String>, got: &Result<T, String>) -> bool {
    let (r, names) = spec::known(reference);
    let same = match (&r, got) {
        (Ok(w), g) => agree(w, g),
        (Err(p), Err(g)) => p.ends_with("known") && g.starts_with("panic"),
        _ => false,
    };
    if names.is_empty() || !same {
        return false;
    }
    for n in names {
        run.fail(n, || "the library answers as it does with this defect".into());
    }
    true
}

/// Applies one operation on both sides. The reference's verdict decides: where it rejects, the
/// library has to return an error; where it accepts, the same state.
pub fn step(run: &Run, key: impl Fn() -> String, m: &M, op: &Op, c: &Context) -> Option<M> {
    if !later::on() {
        return step_now(run, key, m, op, c);
    }
    let (after, valid) = held(|| step_now(run, &key, m, op, c));
    if let Some((m, op)) = later::step(m, op, valid, c) {
        step_now(run, || key() + " (late)", &m, &op, c);
    }
    after
}
fn step_now(run: &Run, key: impl Fn() -> String, m: &M, op: &Op, c: &Context) -> Option<M> {
    let want = guard(|| spec::apply(m, op, c));
    run.transition();
    let want = match want {
        Ok(w) => w,
        // Arithmetic of the specification itself out of range: no verdict.
        Err(p) if p.contains("overflow") => return None,
        Err(p) => panic!("the reference failed on {}: {p}", brief(op)),
    };
    let got = real::apply(m, op, c);
    if let Err(g) = &got {
        assert!(!g.contains("does not fit") && !g.contains("no such operation"), "{g}: {}", brief(op));
    }
    if !agree(&want, &got) && listed(run, || spec::apply(m, op, c), &got) {
        return want.ok();
    }
    match (&want, &got) {
        (Ok(w), Ok(g)) if w == g => {}
        (Err(_), Err(g)) if !g.starts_with("panic") => {}
        (Ok(w), Ok(g)) => run.fail(key(), || format!("{}\n{}", diff(w, g), brief(op))),
        (Ok(_), Err(g)) => {
            run.fail(key(), || format!("expected acceptance\n     got {g}\n{}", brief(op)))
        }
        (Err(w), Ok(g)) => run.fail(key(), || {
            format!("expected rejection: {w}\n     got acceptance\n{}\n{}", diff(m, g), brief(op))
        }),
        (Err(w), Err(g)) => run.fail(key(), || {
            format!("expected rejection: {w}\n     got a crash: {g}\n{}", brief(op))
        }),
    }
    want.ok()
}
/// Reads the state on both sides.
pub fn query(run: &Run, key: impl Fn() -> String, m: &M, q: &Q, c: &Context) {
    query_now(run, &key, m, q, c);
    if later::on() {
        if let Some((m, q)) = later::query(m, q, c) {
            query_now(run, || key() + " (late)", &m, &q, c);
        }
    }
}
fn query_now(run: &Run, key: impl Fn() -> String, m: &M, q: &Q, c: &Context) {
    let want = guard(|| spec::ask(m, q, c));
    run.transition();
    let want = match want {
        Ok(w) => w,
        Err(p) if p.contains("overflow") => return,
        Err(p) => panic!("the reference failed on {q:?}: {p}"),
    };
    let got = real::ask(m, q, c);
    if let Err(g) = &got {
        assert!(!g.contains("does not fit") && !g.contains("no such query"), "{g}: {q:?}");
    }
    if !agree(&want, &got) && listed(run, || spec::ask(m, q, c), &got) {
        return;
    }
    match (&want, &got) {
        (Ok(w), Ok(g)) if w == g => {}
        (Err(_), Err(g)) if !g.starts_with("panic") => {}
        _ => run.fail(key(), || format!("{q:?}\nexpected {want:?}\n     got {got:?}")),
    }
}
