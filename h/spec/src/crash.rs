//! C44: no block or operation crashes the transition, whatever its fields hold.
use crate::{cfg::*, chain, crypto::*, gen::*, m::*, real, spec};
use mc::{guard, parallel, Run};
use std::cell::RefCell;

// Fields and the values they are given
struct Env {
    slot: u64,
    epoch: u64,
    n: usize,
    few: bool,
}
trait Leaf {
    fn count(&self, e: &Env) -> usize;
    fn set(&mut self, e: &Env, k: usize);
}
fn numbers(e: &Env, old: u64) -> Vec<u64> {
    let mut v = vec![0, u64::MAX, u64::MAX / 4 + 1, e.n as u64, old.wrapping_add(1), e.epoch + 1];
    if !e.few {
        v.extend([
            1, 2, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX / 4, 1 << 32, 1 << 40,
            u64::MAX / 12, u64::MAX / 12 + 1, e.n as u64 - 1, e.n as u64 + 1, old.wrapping_sub(1),
            e.slot, e.slot + 1, e.epoch, e.epoch.wrapping_sub(1),
            e.slot.wrapping_sub(SPE), e.slot.wrapping_sub(SPHR as u64),
        ]);
    }
    let mut out = vec![];
    for x in v {
        if x != old && !out.contains(&x) {
            out.push(x);
        }
    }
    out
}
impl Leaf for u64 {
    fn count(&self, e: &Env) -> usize {
        numbers(e, *self).len()
    }
    fn set(&mut self, e: &Env, k: usize) {
        *self = numbers(e, *self)[k];
    }
}
impl Leaf for usize {
    fn count(&self, e: &Env) -> usize {
        numbers(e, *self as u64).len()
    }
    fn set(&mut self, e: &Env, k: usize) {
        *self = numbers(e, *self as u64)[k] as usize;
    }
}
macro_rules! bytes {
    ($($t:ty, $n:expr;)*) => { $(impl Leaf for $t {
        fn count(&self, e: &Env) -> usize { if e.few { 1 } else { 2 } }
        fn set(&mut self, _: &Env, k: usize) { *self = <$t>::try_from(&[[0u8, 0xff][k]; $n][..]).unwrap(); }
    })* };
}
bytes! { Root, 32; Bytes32, 32; ExecutionAddress, 20; KzgCommitment, 48; }
impl Leaf for BlsSignature {
    fn count(&self, e: &Env) -> usize {
        if e.few { 1 } else { 4 }
    }
    fn set(&mut self, _: &Env, k: usize) {
        *self = match k {
            0 => infinity(),
            1 => BlsSignature::try_from(&[0xffu8; 96][..]).unwrap(),
            2 => BlsSignature::default(),
            _ => sign(3, &[1; 32]),
        };
    }
}
impl Leaf for BlsPublicKey {
    fn count(&self, e: &Env) -> usize {
        if e.few { 2 } else { 5 }
    }
    fn set(&mut self, _: &Env, k: usize) {
        let mut b = [0u8; 48];
        match k {
            0 => b[0] = 0xc0,
            1 => b.copy_from_slice(pk(0).as_ref()),
            2 => b = [0xff; 48],
            3 => b.copy_from_slice(pk(240).as_ref()),
            _ => {}
        }
        *self = BlsPublicKey::try_from(&b[..]).unwrap();
    }
}
impl Leaf for U256 {
    fn count(&self, _: &Env) -> usize {
        2
    }
    fn set(&mut self, _: &Env, k: usize) {
        *self = if k == 0 { U256::from(0u64) } else { U256::MAX };
    }
}
/// Bits of a fixed length, or of any length up to a limit.
struct Bits<'a>(&'a mut Vec<bool>, Option<usize>);
impl Leaf for Bits<'_> {
    fn count(&self, e: &Env) -> usize {
        match (self.1, e.few) {
            (None, _) => 3,
            (Some(_), true) => 4,
            (Some(_), false) => 8,
        }
    }
    fn set(&mut self, _: &Env, k: usize) {
        let v = &mut self.0;
        match k {
            0 => v.fill(false),
            1 => v.fill(true),
            2 if self.1.is_none() => v.reverse(),
            2 => v.clear(),
            3 => **v = vec![true; self.1.unwrap()],
            4 => v.push(true),
            5 => { v.pop(); }
            6 => v.iter_mut().for_each(|b| *b = !*b),
            _ => **v = vec![false; self.1.unwrap()],
        }
        if let Some(l) = self.1 {
            v.truncate(l);
        }
    }
}
struct Seq<'a, T>(&'a mut Vec<T>, usize);
impl<T: Clone> Leaf for Seq<'_, T> {
    fn count(&self, e: &Env) -> usize {
        if self.0.is_empty() { 0 } else if e.few { 2 } else { 5 }
    }
    fn set(&mut self, _: &Env, k: usize) {
        let v = &mut self.0;
        match k {
            0 => v.clear(),
            1 => v.push(v[0].clone()),
            2 => v.reverse(),
            3 => { v.pop(); }
            _ => {
                let x = v[v.len() - 1].clone();
                v.resize(self.1, x);
            }
        }
        v.truncate(self.1);
    }
}
struct Text<'a>(&'a mut Vec<u8>, usize);
impl Leaf for Text<'_> {
    fn count(&self, _: &Env) -> usize {
        2
    }
    fn set(&mut self, _: &Env, k: usize) {
        *self.0 = if k == 0 { vec![] } else { vec![0xff; self.1] };
    }
}

type Visit<'a> = &'a mut dyn FnMut(&str, &mut dyn Leaf);
fn data(v: Visit, p: &str, d: &mut AttestationData) {
    v(&format!("{p}.slot"), &mut d.slot);
    v(&format!("{p}.index"), &mut d.index);
    v(&format!("{p}.root"), &mut d.beacon_block_root);
    v(&format!("{p}.source"), &mut d.source.epoch);
    v(&format!("{p}.source root"), &mut d.source.root);
    v(&format!("{p}.target"), &mut d.target.epoch);
    v(&format!("{p}.target root"), &mut d.target.root);
}
fn header(v: Visit, p: &str, h: &mut SignedBeaconBlockHeader) {
    v(&format!("{p}.slot"), &mut h.message.slot);
    v(&format!("{p}.proposer"), &mut h.message.proposer_index);
    v(&format!("{p}.parent"), &mut h.message.parent_root);
    v(&format!("{p}.state"), &mut h.message.state_root);
    v(&format!("{p}.body"), &mut h.message.body_root);
    v(&format!("{p}.signature"), &mut h.signature);
}
fn indexed(f: F, v: Visit, p: &str, a: &mut Idx) {
    v(&format!("{p}.indices"), &mut Seq(&mut a.indices, if f == Electra { MVPS } else { MVPC }));
    for i in 0..a.indices.len() {
        v(&format!("{p}.index {i}"), &mut a.indices[i]);
    }
    data(v, p, &mut a.data);
    v(&format!("{p}.signature"), &mut a.sig);
}
/// Every field of the block; what is before the first dot names the operation it belongs to.
fn walk(b: &mut Blk, f: F, v: Visit) {
    v("header.slot", &mut b.slot);
    v("header.proposer", &mut b.proposer);
    v("header.parent", &mut b.parent_root);
    v("header.state", &mut b.state_root);
    v("header.signature", &mut b.sig);
    v("header.randao", &mut b.randao);
    v("header.graffiti", &mut b.graffiti);
    v("eth1.root", &mut b.eth1.deposit_root);
    v("eth1.count", &mut b.eth1.deposit_count);
    v("eth1.hash", &mut b.eth1.block_hash);
    v("lists.proposer slashings", &mut Seq(&mut b.pslash, PSLASH));
    v("lists.attester slashings", &mut Seq(&mut b.aslash, ASLASH));
    v("lists.attestations", &mut Seq(&mut b.atts, ATTS));
    v("lists.deposits", &mut Seq(&mut b.deposits, DEPOSITS));
    v("lists.exits", &mut Seq(&mut b.exits, EXITS));
    if let Some(x) = b.pslash.first_mut() {
        header(v, "proposer slashing.1", &mut x.signed_header_1);
        header(v, "proposer slashing.2", &mut x.signed_header_2);
    }
    if let Some(x) = b.aslash.first_mut() {
        indexed(f, v, "attester slashing.1", &mut x.a);
        indexed(f, v, "attester slashing.2", &mut x.b);
    }
    if let Some(x) = b.atts.first_mut() {
        v("attestation.bits", &mut Bits(&mut x.bits, Some(if f == Electra { MVPS } else { MVPC })));
        if f == Electra {
            v("attestation.committees", &mut Bits(&mut x.cbits, None));
        }
        data(v, "attestation", &mut x.data);
        v("attestation.signature", &mut x.sig);
    }
    if let Some(x) = b.deposits.first_mut() {
        for i in [0, 31, 32] {
            v(&format!("deposit.proof {i}"), &mut x.proof[i]);
        }
        v("deposit.key", &mut x.data.public_key);
        v("deposit.credentials", &mut x.data.withdrawal_credentials);
        v("deposit.amount", &mut x.data.amount);
        v("deposit.signature", &mut x.data.signature);
    }
    if let Some(x) = b.exits.first_mut() {
        v("exit.epoch", &mut x.message.epoch);
        v("exit.validator", &mut x.message.validator_index);
        v("exit.signature", &mut x.signature);
    }
    if f > Phase0 {
        v("sync.bits", &mut Bits(&mut b.agg.bits, None));
        v("sync.signature", &mut b.agg.sig);
    }
    if f >= Bellatrix {
        let p = &mut b.payload;
        v("payload.parent", &mut p.parent_hash);
        v("payload.recipient", &mut p.fee_recipient);
        v("payload.state", &mut p.state_root);
        v("payload.receipts", &mut p.receipts_root);
        v("payload.bloom", &mut Text(&mut p.logs_bloom, BLOOM));
        v("payload.randao", &mut p.prev_randao);
        v("payload.number", &mut p.block_number);
        v("payload.gas limit", &mut p.gas_limit);
        v("payload.gas used", &mut p.gas_used);
        v("payload.time", &mut p.timestamp);
        v("payload.extra", &mut Text(&mut p.extra_data, EXTRA));
        v("payload.fee", &mut p.base_fee);
        v("payload.hash", &mut p.block_hash);
        v("payload.transactions", &mut Seq(&mut p.transactions, TXS));
        if let Some(t) = p.transactions.first_mut() {
            v("payload.transaction", &mut Text(t, TXB));
        }
        if f >= Capella {
            v("payload.withdrawals", &mut Seq(&mut p.withdrawals, WDS));
            for (i, w) in p.withdrawals.iter_mut().enumerate().take(2) {
                v(&format!("payload.withdrawal {i} index"), &mut w.index);
                v(&format!("payload.withdrawal {i} validator"), &mut w.validator_index);
                v(&format!("payload.withdrawal {i} address"), &mut w.address);
                v(&format!("payload.withdrawal {i} amount"), &mut w.amount);
            }
        }
        if f >= Deneb {
            v("payload.blob gas", &mut p.blob_gas_used);
            v("payload.excess gas", &mut p.excess_blob_gas);
        }
    }
    if f >= Capella {
        v("lists.changes", &mut Seq(&mut b.changes, CHANGES));
        if let Some(x) = b.changes.first_mut() {
            v("change.validator", &mut x.message.validator_index);
            v("change.key", &mut x.message.from_bls_public_key);
            v("change.address", &mut x.message.to_execution_address);
            v("change.signature", &mut x.signature);
        }
    }
    if f >= Deneb {
        v("lists.commitments", &mut Seq(&mut b.commitments, BLOBS));
        if let Some(x) = b.commitments.first_mut() {
            v("payload.commitment", x);
        }
    }
    if f >= Electra {
        v("lists.requests", &mut Seq(&mut b.payload.requests, REQUESTS));
        v("lists.receipts", &mut Seq(&mut b.payload.receipts, RECEIPTS));
        v("lists.consolidations", &mut Seq(&mut b.consolidations, CONS));
        for (i, x) in b.payload.requests.iter_mut().enumerate() {
            v(&format!("request {i}.address"), &mut x.source_address);
            v(&format!("request {i}.key"), &mut x.validator_public_key);
            v(&format!("request {i}.amount"), &mut x.amount);
        }
        for (i, x) in b.payload.receipts.iter_mut().enumerate() {
            v(&format!("receipt {i}.key"), &mut x.public_key);
            v(&format!("receipt {i}.credentials"), &mut x.withdrawal_credentials);
            v(&format!("receipt {i}.amount"), &mut x.amount);
            v(&format!("receipt {i}.signature"), &mut x.signature);
            v(&format!("receipt {i}.index"), &mut x.index);
        }
        if let Some(x) = b.consolidations.first_mut() {
            v("consolidation.source", &mut x.message.source_index);
            v("consolidation.target", &mut x.message.target_index);
            v("consolidation.epoch", &mut x.message.epoch);
            v("consolidation.signature", &mut x.signature);
        }
    }
}
fn fields(b: &Blk, f: F, e: &Env) -> Vec<(String, usize)> {
    let mut out = vec![];
    walk(&mut b.clone(), f, &mut |p, l| out.push((p.to_string(), l.count(e))));
    out
}
fn edit(b: &mut Blk, f: F, e: &Env, changes: &[(&str, usize)]) {
    walk(b, f, &mut |p, l| {
        for (q, k) in changes {
            if *q == p && *k < l.count(e) {
                l.set(e, *k);
            }
        }
    });
}
fn group(path: &str) -> &str {
    path.split('.').next().unwrap()
}

// Signatures that hold for what the operation now says, as far as someone could have made them
fn keys_of(m: &M, ix: &[usize]) -> Vec<usize> {
    ix.iter().filter_map(|i| m.validators.get(*i)).map(|v| who(&v.public_key)).collect()
}
fn known_key(k: &BlsPublicKey) -> Option<usize> {
    (0..256).find(|i| pk(*i) == *k)
}
fn sign_again(m: &mut M, b: &mut Blk, g: &str, c: &Context) {
    match group(g) {
        "proposer slashing" => {
            for h in b.pslash.iter_mut().flat_map(|x| [&mut x.signed_header_1, &mut x.signed_header_2]) {
                if let Some(v) = m.validators.get(h.message.proposer_index) {
                    h.signature = header_sig(m, &h.message, who(&v.public_key), c).signature;
                }
            }
        }
        "attester slashing" => {
            for a in b.aslash.iter_mut().flat_map(|x| [&mut x.a, &mut x.b]) {
                a.sig = att_sig(m, &a.data, &keys_of(m, &a.indices), c);
            }
        }
        "attestation" => {
            if let Some(a) = b.atts.first_mut() {
                let which: Vec<usize> = if m.f == Electra {
                    (0..MCPS).filter(|i| a.cbits[*i]).collect()
                } else {
                    vec![a.data.index]
                };
                let mut signers = vec![];
                let mut at = 0;
                for w in which {
                    let Ok(Ok(members)) = guard(|| m.committee(a.data.slot, w, c)) else { return };
                    for i in members {
                        if a.bits.get(at) == Some(&true) {
                            signers.push(i);
                        }
                        at += 1;
                    }
                }
                a.sig = att_sig(m, &a.data, &keys_of(m, &signers), c);
            }
        }
        "deposit" => {
            let mut d: Vec<DepositData> = b.deposits.iter().map(|d| d.data.clone()).collect();
            for x in &mut d {
                // no deposit holds more than there is ether
                x.amount = x.amount.min(200_000_000 * ETH);
                if let Some(k) = known_key(&x.public_key) {
                    let msg = DepositMessage { public_key: x.public_key.clone(), withdrawal_credentials: x.withdrawal_credentials.clone(), amount: x.amount };
                    x.signature = sign(k, &signing_root(&htr(&msg), &domain(DEPOSIT, c.genesis_fork_version, &Root::default())));
                }
            }
            b.deposits = queue_deposits(m, &d);
        }
        "exit" => {
            if let Some(x) = b.exits.first_mut() {
                if let Some(v) = m.validators.get(x.message.validator_index) {
                    *x = exit(m, x.message.validator_index, x.message.epoch, who(&v.public_key), c);
                }
            }
        }
        "sync" => b.agg = sync_agg(m, &b.agg.bits, c),
        "change" => {
            if let Some(x) = b.changes.first_mut() {
                if let Some(k) = known_key(&x.message.from_bls_public_key) {
                    let d = domain(BLS_TO_EXECUTION_CHANGE, c.genesis_fork_version, &m.genesis_validators_root);
                    x.signature = sign(k, &signing_root(&htr(&x.message), &d));
                }
            }
        }
        "consolidation" => {
            if let Some(x) = b.consolidations.first_mut() {
                let k = keys_of(m, &[x.message.source_index, x.message.target_index]);
                *x = consolidation(m, x.message.source_index, x.message.target_index, x.message.epoch, &k, c);
            }
        }
        g if g.starts_with("receipt") => {
            for x in &mut b.payload.receipts {
                if let Some(k) = known_key(&x.public_key) {
                    let msg = DepositMessage { public_key: x.public_key.clone(), withdrawal_credentials: x.withdrawal_credentials.clone(), amount: x.amount };
                    x.signature = sign(k, &signing_root(&htr(&msg), &domain(DEPOSIT, c.genesis_fork_version, &Root::default())));
                }
            }
        }
        _ => {}
    }
}

/// The calls that take the operation apart from a block.
fn direct(g: &str, f: F, b: &Blk) -> Vec<Op> {
    fn all<T: Clone>(v: &[T], f: impl Fn(T) -> Op) -> Vec<Op> {
        v.first().cloned().map(f).into_iter().collect()
    }
    match g {
        "proposer slashing" => all(&b.pslash, Op::PSlash),
        "attester slashing" => all(&b.aslash, Op::ASlash),
        "attestation" => all(&b.atts, Op::Att),
        "deposit" => all(&b.deposits, Op::Deposit),
        "exit" => all(&b.exits, Op::Exit),
        "sync" => vec![Op::Sync(b.agg.clone())],
        "change" => all(&b.changes, Op::Change),
        "consolidation" => all(&b.consolidations, Op::Consolidate),
        "header" => vec![Op::Header(b.clone()), Op::Randao(b.clone())],
        "eth1" => vec![Op::Eth1(b.clone())],
        "lists" => vec![Op::Operations(b.clone())],
        "payload" if f >= Capella => vec![Op::Payload(b.clone()), Op::Withdrawals(b.clone())],
        "payload" => vec![Op::Payload(b.clone())],
        g if g.starts_with("request") => b.payload.requests.iter().cloned().map(Op::Request).collect(),
        g if g.starts_with("receipt") => b.payload.receipts.iter().cloned().map(Op::Receipt).collect(),
        _ => vec![],
    }
}
fn reads(g: &str, f: F, b: &Blk) -> Vec<Q> {
    let mut q = vec![];
    match g {
        "attestation" => q.extend(b.atts.first().map(|a| Q::Attesting(a.clone()))),
        "attester slashing" => q.extend(b.aslash.iter().take(1).flat_map(|s| [Q::ValidIndexed(s.a.clone()), Q::ValidIndexed(s.b.clone())])),
        "header" => q.push(Q::BlockSig(b.clone())),
        "payload" if f >= Bellatrix => q.extend([Q::MergeBlock(b.clone()), Q::ExecEnabled(b.clone())]),
        _ => {}
    }
    q
}

// Crashes
thread_local! { static WHERE: RefCell<Option<(String, u32)>> = const { RefCell::new(None) }; }
/// The function a crash happened in, for the report.
fn place() -> String {
    let Some((file, line)) = WHERE.with(|w| w.borrow_mut().take()) else { return "?".into() };
    let Ok(text) = std::fs::read_to_string(&file) else { return file };
    let name = text.lines().take(line as usize).filter_map(|l| {
        let l = l.trim_start();
        let at = l.find("fn ")?;
        (at == 0 || l.starts_with("pub")).then(|| l[at + 3..].split(|x: char| !x.is_alphanumeric() && x != '_').next().unwrap().to_string())
    });
    name.last().unwrap_or(file)
}
fn judge<T, W>(run: &Run, f: F, got: &Result<T, String>, what: &dyn Fn() -> String, reference: impl FnOnce() -> W) {
    run.transition();
    let Err(e) = got else { return };
    let Some(msg) = e.strip_prefix("panic: ") else { return };
    assert!(!msg.contains("does not fit") && !msg.contains("no such"), "{msg}: {}", what());
    let at = place();
    let (r, names) = spec::known(reference);
    if matches!(&r, Err(p) if p.ends_with("known")) && !names.is_empty() {
        for n in names {
            run.fail(n, || format!("{msg} in {at}\n{}", what()));
        }
        return;
    }
    let short: String = msg.chars().filter(|x| !x.is_ascii_digit()).collect();
    run.fail(format!("{f:?} {at}: {short}"), || format!("{msg}\n{}", what()));
}
fn call(run: &Run, m: &M, op: &Op, what: &dyn Fn() -> String, c: &Context) -> Option<M> {
    let got = real::apply(m, op, c);
    let name = || {
        let mut s = format!("{op:?}");
        s.truncate(s.find(['(', ' ']).unwrap_or(s.len()));
        format!("{} through {s}", what())
    };
    judge(run, m.f, &got, &name, || spec::apply(m, op, c));
    got.ok()
}

fn states(f: F, thorough: bool, c: &Context) -> Vec<(String, M)> {
    // the first epoch, the boundary after it, deep in the chain, and a state that a sync period begins in
    let mut v = vec![("first epoch".to_string(), chain::rich(f, 1, c)), ("rich".into(), chain::rich(f, 30, c))];
    if thorough {
        v.push(("boundary".into(), chain::rich(f, 4, c)));
        v.push(("plain".into(), base(f, 8, 25, c)));
        let mut m = base(f, 8, 41, c);
        for i in [2usize, 5, 7] {
            m.validators[i].exit_epoch = 4;
            m.validators[i].withdrawable_epoch = 6;
            m.validators[i].slashed = i == 5;
            m.balances[i] = 0;
            m.validators[i].effective_balance = 0;
        }
        m.fin = Checkpoint { epoch: 2, root: root(1) };
        m.jbits = vec![false; 4];
        v.push(("leaking".into(), m));
        let mut m = base(f, 8, 20, c);
        for v in &mut m.validators[1..] {
            v.exit_epoch = 2;
            v.withdrawable_epoch = 3;
        }
        m.balances = vec![1; 8];
        v.push(("alone".into(), m));
    }
    v
}

pub fn c44(run: &Run) {
    if std::env::var_os("MC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|p| {
            WHERE.with(|w| *w.borrow_mut() = p.location().map(|l| (l.file().to_string(), l.line())));
        }));
    }
    let c = ctx();
    run.bound("blocks with one operation of every kind of the fork, on states of the first epoch and deep in the chain (thorough: also at an epoch boundary, during a leak, with a single validator); every field set to each of up to 25 integers around 0, 2^32, 2^62, 2^63, 2^64, the registry, the slot and the epoch, to extreme bytes, malformed, identity and foreign keys and signatures, and every list cleared, shortened, repeated, reversed and filled to its limit; each with the signatures left as they were and made again for the new value; through the whole block, the operations of the body and the operation by itself");
    run.bound("all pairs of such changes within one operation (quick: of 6 integers each), through the operation by itself (thorough: also the body and the whole block), with and without new signatures");
    run.bound("the vote of the block decides for each of those numbers of deposits");
    run.bound("the state that results from an accepted change is carried on over two epochs");
    run.assume("blocks reach the transition decoded, hence with lists within their limits; the payload was accepted by the execution engine, and no deposit is of more than all ether");
    let mut jobs = vec![];
    for f in FORKS {
        for (name, m) in states(f, run.thorough, &c) {
            let mut m = m;
            if m.validators.len() >= 16 {
                chain::partners(&mut m);
            }
            let d = chain::prepare(&mut m, chain::KINDS.len() - 1, &c);
            let Ok(mut b) = draft(&m, &c) else { continue };
            chain::fill(&m, &mut b, chain::KINDS.len() - 1, &d, &c);
            seal(&m, &mut b, &c);
            let env = Env { slot: m.slot, epoch: m.slot / SPE, n: m.validators.len(), few: false };
            let mut groups: Vec<String> = fields(&b, f, &env).iter().map(|x| group(&x.0).to_string()).collect();
            groups.dedup();
            groups.sort();
            groups.dedup();
            let valid = call(run, &m, &Op::Block(b.clone()), &|| format!("{name}: the block as it is"), &c);
            assert!(valid.is_some() || name != "rich", "{f:?}: the block to start from is not valid");
            for g in groups {
                jobs.push((f, name.clone(), m.clone(), b.clone(), g));
            }
        }
    }
    parallel(&jobs, |(f, name, m, b, g)| {
        let env = Env { slot: m.slot, epoch: m.slot / SPE, n: m.validators.len(), few: false };
        for (path, n) in fields(b, *f, &env).iter().filter(|x| group(&x.0) == g) {
            for k in 0..*n {
                for fresh in [false, true] {
                    let (mut m, mut b) = (m.clone(), b.clone());
                    edit(&mut b, *f, &env, &[(path, k)]);
                    if fresh {
                        sign_again(&mut m, &mut b, g, &c);
                    }
                    run.state();
                    let what = || format!("{f:?} {name}: {path} change {k} resigned={fresh}");
                    let mut after = vec![];
                    for op in direct(g, *f, &b) {
                        after.extend(call(run, &m, &op, &what, &c));
                    }
                    after.extend(call(run, &m, &Op::Operations(b.clone()), &what, &c));
                    if fresh {
                        resign(&m, &mut b, &c);
                    }
                    after.extend(call(run, &m, &Op::Block(b.clone()), &what, &c));
                    if b.slot <= m.slot + 3 * SPE {
                        for checked in [false, true] {
                            call(run, &m, &Op::InSlot(b.clone(), checked), &what, &c);
                            call(run, &m, &Op::Transition(b.clone(), checked), &what, &c);
                            if *f < Electra {
                                call(run, &m, &Op::Chain(*f, b.clone(), checked), &what, &c);
                            }
                        }
                    }
                    for q in reads(g, *f, &b) {
                        let got = real::ask(&m, &q, &c);
                        judge(run, *f, &got, &what, || spec::ask(&m, &q, &c));
                    }
                    // the chain goes on
                    for s in after {
                        // more ether than there is, or longer queues than the state can hold
                        if s.pend_dep.iter().any(|d| d.amount > 200_000_000 * ETH)
                            || s.pend_dep.len() > PBD || s.pend_wd.len() > PPW || s.pend_cons.len() > PC
                        {
                            continue;
                        }
                        let to = Op::Slots(s.slot + 2 * SPE);
                        let later = || format!("{} and two epochs on", what());
                        call(run, &s, &to, &later, &c);
                    }
                }
            }
        }
        run.trace();
    });
    run.part("single changes");
    // a vote that decides
    parallel(&FORKS, |f| {
        for slot in [1u64, 30] {
            let mut m = chain::rich(*f, slot, &c);
            let d = chain::prepare(&mut m, 4, &c);
            let env = Env { slot, epoch: slot / SPE, n: m.validators.len(), few: false };
            for count in numbers(&env, m.eth1_data.deposit_count) {
                for with in [false, true] {
                    let mut m = m.clone();
                    let mut b = draft(&m, &c).unwrap();
                    b.eth1.deposit_count = count;
                    m.votes = vec![b.eth1.clone(); VOTES / 2];
                    if with {
                        b.deposits = d.clone();
                    }
                    run.state();
                    let what = || format!("{f:?} slot={slot}: deciding vote for {count} deposits, carrying them={with}");
                    let after = call(run, &m, &Op::Block(b), &what, &c);
                    if let Some(s) = after {
                        let mut b = draft(&s, &c).unwrap();
                        b.slot += 1;
                        call(run, &s, &Op::Transition(b, false), &|| format!("{} and a block more", what()), &c);
                    }
                }
            }
        }
    });
    run.part("votes");
    let mut pairs = vec![];
    for (f, name, m, b, g) in &jobs {
        if matches!(g.as_str(), "lists" | "eth1") {
            continue;
        }
        let env = Env { slot: m.slot, epoch: m.slot / SPE, n: m.validators.len(), few: !run.thorough };
        let v: Vec<_> = fields(b, *f, &env).into_iter().filter(|x| group(&x.0) == g).collect();
        for i in 0..v.len() {
            pairs.push((*f, name, m, b, g, v[i].clone(), v[i + 1..].to_vec()));
        }
    }
    parallel(&pairs, |(f, name, m, b, g, first, rest)| {
        let env = Env { slot: m.slot, epoch: m.slot / SPE, n: m.validators.len(), few: !run.thorough };
        for (second, n) in rest {
            for (k, l) in (0..first.1).flat_map(|k| (0..*n).map(move |l| (k, l))) {
                for fresh in [false, true] {
                    let (mut m, mut b) = ((*m).clone(), (*b).clone());
                    edit(&mut b, *f, &env, &[(&first.0, k), (second, l)]);
                    if fresh {
                        sign_again(&mut m, &mut b, g, &c);
                    }
                    run.state();
                    let what = || format!("{f:?} {name}: {} change {k}, {second} change {l}, resigned={fresh}", first.0);
                    let mut ops = direct(g, *f, &b);
                    if run.thorough {
                        ops.extend([Op::Operations(b.clone()), Op::Block(b.clone())]);
                    }
                    for op in ops {
                        call(run, &m, &op, &what, &c);
                    }
                    for q in reads(g, *f, &b) {
                        let got = real::ask(&m, &q, &c);
                        judge(run, *f, &got, &what, || spec::ask(&m, &q, &c));
                    }
                }
            }
        }
        run.trace();
    });
    run.part("pairs of changes");
}
