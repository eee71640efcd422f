//! Signing roots, domains and the signature scheme.
use crate::{cfg, crypto::*, gen, m::*};
use blst::{encode_not_in_group, min_pk, Fr};
use ethereum_consensus::{
    builder::ValidatorRegistration,
    crypto as real,
    domains::DomainType,
    phase0,
    signing::{compute_signing_root, sign_with_domain, verify_signed_data, SigningData},
};
use mc::Run;
use std::collections::HashMap;

const DOMAINS: [(DomainType, [u8; 4]); 14] = [
    (DomainType::BeaconProposer, [0, 0, 0, 0]),
    (DomainType::BeaconAttester, [1, 0, 0, 0]),
    (DomainType::Randao, [2, 0, 0, 0]),
    (DomainType::Deposit, [3, 0, 0, 0]),
    (DomainType::VoluntaryExit, [4, 0, 0, 0]),
    (DomainType::SelectionProof, [5, 0, 0, 0]),
    (DomainType::AggregateAndProof, [6, 0, 0, 0]),
    (DomainType::SyncCommittee, [7, 0, 0, 0]),
    (DomainType::SyncCommitteeSelectionProof, [8, 0, 0, 0]),
    (DomainType::ContributionAndProof, [9, 0, 0, 0]),
    (DomainType::BlsToExecutionChange, [10, 0, 0, 0]),
    (DomainType::Consolidation, [11, 0, 0, 0]),
    (DomainType::ApplicationMask, [0, 0, 0, 1]),
    (DomainType::ApplicationBuilder, [0, 0, 0, 1]),
];

/// The root of a container with these field roots.
fn tree(leaves: &[[u8; 32]]) -> [u8; 32] {
    let mut l = leaves.to_vec();
    l.resize(l.len().next_power_of_two(), [0; 32]);
    while l.len() > 1 {
        l = l.chunks(2).map(|p| sha(&[&p[0], &p[1]])).collect();
    }
    l[0]
}
fn pad(b: &[u8]) -> [u8; 32] {
    let mut x = [0; 32];
    x[..b.len()].copy_from_slice(b);
    x
}
/// The root of a byte vector of up to 128 bytes.
fn bytes(b: &[u8]) -> [u8; 32] {
    tree(&b.chunks(32).map(pad).collect::<Vec<_>>())
}
fn u(n: u64) -> [u8; 32] {
    pad(&n.to_le_bytes())
}

/// What can be signed, with its root worked out by hand.
enum Msg {
    Num(u64),
    Root(Root),
    Att(AttestationData),
    Header(BeaconBlockHeader),
    Exit(VoluntaryExit),
    Dep(DepositMessage),
    Change(BlsToExecutionChange),
    Cons(Consolidation),
    Reg(ValidatorRegistration),
    Data(SigningData),
}
macro_rules! each {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            Msg::Num($x) => $e,
            Msg::Root($x) => $e,
            Msg::Att($x) => $e,
            Msg::Header($x) => $e,
            Msg::Exit($x) => $e,
            Msg::Dep($x) => $e,
            Msg::Change($x) => $e,
            Msg::Cons($x) => $e,
            Msg::Reg($x) => $e,
            Msg::Data($x) => $e,
        }
    };
}
impl Msg {
    fn root(&self) -> [u8; 32] {
        let cp = |c: &Checkpoint| tree(&[u(c.epoch), raw(&c.root)]);
        match self {
            Msg::Num(n) => u(*n),
            Msg::Root(r) => raw(r),
            Msg::Att(a) => tree(&[u(a.slot), u(a.index as u64), raw(&a.beacon_block_root), cp(&a.source), cp(&a.target)]),
            Msg::Header(h) => tree(&[u(h.slot), u(h.proposer_index as u64), raw(&h.parent_root), raw(&h.state_root), raw(&h.body_root)]),
            Msg::Exit(x) => tree(&[u(x.epoch), u(x.validator_index as u64)]),
            Msg::Dep(d) => tree(&[bytes(&d.public_key), raw(&d.withdrawal_credentials), u(d.amount)]),
            Msg::Change(c) => tree(&[u(c.validator_index as u64), bytes(&c.from_bls_public_key), pad(&c.to_execution_address)]),
            Msg::Cons(c) => tree(&[u(c.source_index as u64), u(c.target_index as u64), u(c.epoch)]),
            Msg::Reg(r) => tree(&[pad(&r.fee_recipient), u(r.gas_limit), u(r.timestamp), bytes(&r.public_key)]),
            Msg::Data(d) => tree(&[raw(&d.object_root), d.domain]),
        }
    }
}
fn messages() -> Vec<(String, Msg)> {
    let mut v: Vec<(String, Msg)> = vec![];
    for n in [0, 1, 2, 255, 256, 1 << 32, u64::MAX] {
        v.push((format!("epoch {n}"), Msg::Num(n)));
    }
    v.push(("root".into(), Msg::Root(root(7))));
    v.push(("another root".into(), Msg::Root(root(8))));
    macro_rules! vary {
        ($name:literal, $wrap:ident, $base:expr; $($what:literal: |$x:ident| $e:expr),* $(,)?) => {
            v.push(($name.into(), Msg::$wrap($base)));
            $({ let mut $x = $base; $e; v.push((format!("{} with another {}", $name, $what), Msg::$wrap($x))); })*
        };
    }
    vary!("attestation", Att, AttestationData { slot: 5, index: 1, beacon_block_root: root(1), source: Checkpoint { epoch: 1, root: root(2) }, target: Checkpoint { epoch: 2, root: root(3) } };
        "slot": |x| x.slot = 6, "index": |x| x.index = 0, "block": |x| x.beacon_block_root = root(9), "source epoch": |x| x.source.epoch = 0,
        "source root": |x| x.source.root = root(9), "target epoch": |x| x.target.epoch = 3, "target root": |x| x.target.root = root(9),
        "order": |x| std::mem::swap(&mut x.source, &mut x.target));
    vary!("header", Header, BeaconBlockHeader { slot: 5, proposer_index: 1, parent_root: root(1), state_root: root(2), body_root: root(3) };
        "slot": |x| x.slot = 6, "proposer": |x| x.proposer_index = 5, "parent": |x| x.parent_root = root(9), "state": |x| x.state_root = root(9), "body": |x| x.body_root = root(9));
    vary!("exit", Exit, VoluntaryExit { epoch: 3, validator_index: 4 }; "epoch": |x| x.epoch = 4, "validator": |x| x.validator_index = 3);
    vary!("deposit", Dep, DepositMessage { public_key: pk(1), withdrawal_credentials: gen::creds(0, 1), amount: 32 * ETH };
        "key": |x| x.public_key = pk(2), "credentials": |x| x.withdrawal_credentials = gen::creds(1, 1), "amount": |x| x.amount = 1);
    vary!("change", Change, BlsToExecutionChange { validator_index: 1, from_bls_public_key: pk(1), to_execution_address: gen::address(1) };
        "validator": |x| x.validator_index = 2, "key": |x| x.from_bls_public_key = pk(2), "address": |x| x.to_execution_address = gen::address(2));
    vary!("consolidation", Cons, Consolidation { source_index: 1, target_index: 2, epoch: 3 };
        "source": |x| x.source_index = 3, "target": |x| x.target_index = 1, "epoch": |x| x.epoch = 2);
    vary!("registration", Reg, ValidatorRegistration { fee_recipient: gen::address(1), gas_limit: 2, timestamp: 3, public_key: pk(1) };
        "fee recipient": |x| x.fee_recipient = gen::address(2), "gas limit": |x| x.gas_limit = 3, "time": |x| x.timestamp = 2, "key": |x| x.public_key = pk(2));
    vary!("signing data", Data, SigningData { object_root: root(1), domain: [2; 32] }; "object": |x| x.object_root = root(2), "domain": |x| x.domain = [3; 32]);
    v
}

pub fn c29(run: &Run) {
    run.bound("all 14 domain types, 40 fork versions and 6 genesis roots (given or left out); every message kind with every field changed in turn");
    let c = cfg::ctx();
    run.part("domains");
    let mut versions: Vec<Option<Version>> = vec![None, Some(c.genesis_fork_version), Some([0; 4]), Some([255; 4])];
    for i in 0..4 {
        for b in [1u8, 2, 128] {
            let mut v = [0; 4];
            v[i] = b;
            versions.push(Some(v));
        }
    }
    for n in 0..24u8 {
        versions.push(Some([n, n / 2, n / 3, 100 + n]));
    }
    let mut last = [0u8; 32];
    last[31] = 1;
    let mut first = [0u8; 32];
    first[0] = 1;
    let roots = [None, Some(Root::default()), Some(root(1)), Some(root(2)), Some(node(last)), Some(node(first))];
    let mut seen: HashMap<[u8; 32], ([u8; 4], Version, [u8; 32])> = HashMap::new();
    for (d, kind) in DOMAINS {
        for v in &versions {
            for g in &roots {
                run.state();
                let version = v.unwrap_or(c.genesis_fork_version);
                let gvr = g.unwrap_or_default();
                let want = domain(u32::from_le_bytes(kind), version, &gvr);
                run.transition();
                let got = mc::guard(|| phase0::compute_domain(d, *v, *g, &c).unwrap());
                run.eq(|| format!("compute_domain({kind:?}, {v:?}, {g:?})"), &Ok(want), &got);
                run.transitions(2);
                let digest = mc::guard(|| phase0::compute_fork_digest(version, gvr).unwrap());
                run.eq(|| format!("compute_fork_digest({version:?}, {gvr:?})"), &Ok(want[4..8].try_into().unwrap()), &digest);
                let data = mc::guard(|| raw(&phase0::compute_fork_data_root(version, gvr).unwrap()));
                run.eq(|| format!("compute_fork_data_root({version:?}, {gvr:?})"), &Ok(tree(&[pad(&version), raw(&gvr)])), &data);
                if let Ok(got) = got {
                    let me = (kind, version, raw(&gvr));
                    let other = *seen.entry(got).or_insert(me);
                    run.eq(|| "two of type, version and genesis root share a domain".into(), &other, &me);
                }
            }
        }
    }
    // What is signed for builders is bound to no fork but the first, and to no genesis.
    for v in versions.iter().flatten() {
        let mut c = c.clone();
        c.genesis_fork_version = *v;
        run.state();
        let got = mc::guard(|| ethereum_consensus::builder::compute_builder_domain(&c).unwrap());
        run.eq(|| format!("compute_builder_domain at genesis version {v:?}"), &Ok(domain(u32::from_le_bytes([0, 0, 0, 1]), *v, &Root::default())), &got);
    }
    run.part("domains of states");
    for f in FORKS {
        for e in run.pick(vec![0u64, 1, 2, 4, FAR], vec![0u64, 1, 2, 3, 4, 5, 6, 7, FAR]) {
            for slot in 0..run.pick(16, 40) {
                let mut m = gen::base(f, 2, slot, &c);
                m.fork = Fork { previous_version: [7, 1, 2, 3], current_version: [8, 4, 5, 6], epoch: e };
                run.state();
                for kind in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11] {
                    let at = run.pick(vec![0, 1, 2, 3, 5], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, FAR - 1, FAR]);
                    for x in at.into_iter().map(Some).chain([None]) {
                        gen::query(run, || format!("domain {kind} of {f:?} at slot {slot} with its fork at {e}, for epoch {x:?}"), &m, &Q::Domain(kind, x), &c);
                    }
                }
            }
        }
    }
    run.part("signing roots");
    let msgs = messages();
    let mut domains = vec![];
    for kind in [0u32, 1, 4, 10] {
        for v in [c.genesis_fork_version, c.altair_fork_version] {
            for g in [root(1), root(2)] {
                domains.push(domain(kind, v, &g));
            }
        }
    }
    domains.push([0; 32]);
    domains.push([255; 32]);
    let mut seen: HashMap<[u8; 32], ([u8; 32], [u8; 32])> = HashMap::new();
    for (name, m) in &msgs {
        let object = m.root();
        for d in &domains {
            run.state();
            run.transition();
            let want = tree(&[object, *d]);
            let got = mc::guard(|| each!(m, x => raw(&compute_signing_root(x, *d).unwrap())));
            run.eq(|| format!("signing root of {name}"), &Ok(want), &got);
            if let Ok(got) = got {
                let other = *seen.entry(got).or_insert((object, *d));
                run.eq(|| format!("signing root of {name} is that of something else"), &other, &(object, *d));
            }
        }
    }
    run.part("signatures");
    let some: Vec<_> = domains.iter().step_by(run.pick(4, 1)).collect();
    let keys = [1usize, 2];
    for (name, m) in &msgs {
        for d in &some {
            for k in keys {
                run.state();
                let sk = real::SecretKey::try_from(&key(k).to_bytes()[..]).unwrap();
                run.transition();
                let want = sign(k, &tree(&[m.root(), **d]));
                let got = mc::guard(|| each!(m, x => sign_with_domain(x, &sk, **d).unwrap()));
                run.eq(|| format!("signature over {name} by key {k}"), &Ok(want.clone()), &got);
                // verified for every message, domain and key
                for (other, m2) in &msgs {
                    let d2s: &[&[u8; 32]] = if std::ptr::eq(m, m2) || run.thorough { &some } else { &some[..1] };
                    for d2 in d2s {
                        for k2 in keys {
                            run.transition();
                            let same = m.root() == m2.root() && *d == *d2 && k == k2;
                            let got = mc::guard(|| each!(m2, x => verify_signed_data(x, &want, &pk(k2), **d2).is_ok()));
                            run.eq(|| format!("signature over {name} checked for {other}, same domain {}, same key {}", d == d2, k == k2), &Ok(same), &got);
                        }
                    }
                }
            }
        }
    }
}

/// Keys whose small multiples and sums all differ.
fn sparse(i: usize) -> min_pk::SecretKey {
    let mut b = [0u8; 32];
    b[30 - 3 * i] = 1 + i as u8;
    min_pk::SecretKey::from_bytes(&b).unwrap()
}
fn any_key(b: &[u8]) -> BlsPublicKey {
    BlsPublicKey::try_from(b).unwrap()
}
fn any_sig(b: &[u8]) -> BlsSignature {
    BlsSignature::try_from(b).unwrap()
}
fn aggregated(s: &[min_pk::Signature]) -> BlsSignature {
    if s.is_empty() {
        return infinity();
    }
    let v: Vec<_> = s.iter().collect();
    sig(&min_pk::AggregateSignature::aggregate(&v, true).unwrap().to_signature())
}

pub fn c30(run: &Run) {
    run.assume("the curve is the stand-in for blst, which has its encodings, validation classes and algebra: what is decided is that the library uses it as the signature scheme is specified");
    let kn = 3usize;
    let msgs: Vec<Vec<u8>> = run.pick(vec![vec![], vec![0], vec![1; 32]], vec![vec![], vec![0], vec![1; 32], vec![1; 33]]);
    let len = run.pick(4, 5);
    run.bound(format!("{kn} valid keys and 5 invalid ones in all sequences of up to {len}, {} messages, all signatures of up to {len} parts and 8 malformed ones", msgs.len()));
    // keys: valid ones, then the classes of invalid ones
    let mut pks: Vec<(String, BlsPublicKey, Option<usize>)> = (0..kn)
        .map(|i| (format!("key {i}"), any_key(&sparse(i).sk_to_pk().to_bytes()), Some(i)))
        .collect();
    let mut inf = [0u8; 48];
    inf[0] = 0xc0;
    pks.push(("identity".into(), any_key(&inf), None));
    pks.push(("outside the subgroup".into(), any_key(&encode_not_in_group(&Fr::from_u64(5), 48)), None));
    let good = sparse(0).sk_to_pk().to_bytes();
    let mut off = good;
    off[47] ^= 1;
    pks.push(("off the curve".into(), any_key(&off), None));
    let mut flags = good;
    flags[0] &= 0x7f;
    pks.push(("without its compression flag".into(), any_key(&flags), None));
    pks.push(("zero bytes".into(), any_key(&[0; 48]), None));
    let np = pks.len();

    // signatures: multisets of (key, message), then malformed ones
    type Parts = Vec<(usize, usize)>;
    let mut sigs: Vec<(String, BlsSignature, Option<Parts>)> = vec![];
    let pairs: Vec<(usize, usize)> = (0..kn).flat_map(|k| (0..msgs.len()).map(move |m| (k, m))).collect();
    for n in 0..=run.pick(2, 3) {
        for t in mc::tuples(n, pairs.len()) {
            if t.windows(2).any(|w| w[0] > w[1]) {
                continue;
            }
            let parts: Parts = t.iter().map(|i| pairs[*i]).collect();
            let s: Vec<_> = parts.iter().map(|(k, m)| sparse(*k).sign(&msgs[*m], DST, &[])).collect();
            sigs.push((format!("{parts:?}"), aggregated(&s), Some(parts)));
        }
    }
    // all keys over one message
    for m in 0..msgs.len() {
        for n in 3..=len {
            for t in mc::tuples(n, kn) {
                if t.windows(2).any(|w| w[0] > w[1]) || (n == 3 && run.thorough) {
                    continue;
                }
                let s: Vec<_> = t.iter().map(|k| sparse(*k).sign(&msgs[m], DST, &[])).collect();
                let parts: Parts = t.iter().map(|k| (*k, m)).collect();
                sigs.push((format!("{parts:?}"), aggregated(&s), Some(parts)));
            }
        }
    }
    let one = sparse(0).sign(&msgs[0], DST, &[]).to_bytes();
    let bad = |what: &str, b: &[u8]| (what.to_string(), any_sig(b), None);
    sigs.push(bad("zero bytes", &[0; 96]));
    sigs.push(bad("outside the subgroup", &encode_not_in_group(&Fr::from_u64(5), 96)));
    let mut x = one;
    x[95] ^= 1;
    sigs.push(bad("off the curve", &x));
    let mut x = one;
    x[0] &= 0x7f;
    sigs.push(bad("without its compression flag", &x));
    let mut x = [0u8; 96];
    x[0] = 0xc0;
    x[95] = 1;
    sigs.push(bad("identity with a trailing bit", &x));
    let mut x = [0u8; 96];
    x[0] = 0xe0;
    sigs.push(bad("identity with its sign set", &x));
    let mut x = [0u8; 96];
    x[0] = 0x40;
    sigs.push(bad("identity without its compression flag", &x));
    // the value a subgroup-blind check would take for key 0's
    let h0 = sparse(0).sign(&msgs[0], DST, &[]).to_bytes();
    let f = Fr::from_be_bytes(&h0[64..]).unwrap();
    sigs.push(bad("key 0's shifted out of the subgroup", &encode_not_in_group(&f, 96)));

    let sorted = |mut v: Parts| {
        v.sort();
        v
    };
    run.part("one key");
    for (kname, k, who) in &pks {
        for (sname, s, parts) in &sigs {
            for (mi, m) in msgs.iter().enumerate() {
                run.state();
                run.transition();
                let want = matches!((who, parts), (Some(w), Some(p)) if *p == vec![(*w, mi)]);
                let got = mc::guard(|| real::verify_signature(k, m, s).is_ok());
                run.eq(|| format!("verify_signature({kname}, message {mi}, {sname})"), &Ok(want), &got);
            }
        }
    }
    run.part("many keys over one message");
    for n in 0..=len {
        let seqs: Vec<Vec<usize>> = mc::tuples(n, if n <= 2 { np } else { kn + 2 }).collect();
        mc::parallel(&seqs, |t| {
            let refs: Vec<&BlsPublicKey> = t.iter().map(|i| &pks[*i].1).collect();
            let valid: Option<Vec<usize>> = t.iter().map(|i| pks[*i].2).collect();
            for (sname, s, parts) in &sigs {
                for (mi, m) in msgs.iter().enumerate() {
                    run.state();
                    run.transitions(2);
                    let plain = match (&valid, parts) {
                        (Some(v), Some(p)) => n > 0 && sorted(p.clone()) == sorted(v.iter().map(|k| (*k, mi)).collect()),
                        _ => false,
                    };
                    let got = mc::guard(|| real::fast_aggregate_verify(&refs, m, s).is_ok());
                    run.eq(|| format!("fast_aggregate_verify(keys {t:?}, message {mi}, {sname})"), &Ok(plain), &got);
                    let want = plain || (n == 0 && *parts == Some(vec![]));
                    let got = mc::guard(|| real::eth_fast_aggregate_verify(&refs, m, s).is_ok());
                    run.eq(|| format!("eth_fast_aggregate_verify(keys {t:?}, message {mi}, {sname})"), &Ok(want), &got);
                }
            }
        });
    }
    run.part("many keys over their own messages");
    for n in 0..=2 {
        let seqs: Vec<Vec<usize>> = mc::tuples(n, np).collect();
        mc::parallel(&seqs, |t| {
            let keys: Vec<BlsPublicKey> = t.iter().map(|i| pks[*i].1.clone()).collect();
            let valid: Option<Vec<usize>> = t.iter().map(|i| pks[*i].2).collect();
            for mn in 0..=3 {
                if mn != n && t.iter().any(|i| *i >= kn) {
                    continue;
                }
                for mt in mc::tuples(mn, msgs.len()) {
                    let ms: Vec<&[u8]> = mt.iter().map(|i| &msgs[*i][..]).collect();
                    for (sname, s, parts) in &sigs {
                        run.state();
                        run.transition();
                        let want = match (&valid, parts) {
                            (Some(v), Some(p)) => n > 0 && mn == n && sorted(p.clone()) == sorted(v.iter().copied().zip(mt.iter().copied()).collect()),
                            _ => false,
                        };
                        let got = mc::guard(|| real::aggregate_verify(&keys, &ms, s).is_ok());
                        run.eq(|| format!("aggregate_verify(keys {t:?}, messages {mt:?}, {sname})"), &Ok(want), &got);
                    }
                }
            }
        });
    }
    run.part("aggregation");
    let pick: Vec<usize> = (0..sigs.len()).filter(|i| sigs[*i].2.as_ref().map_or(true, |p| p.len() <= 1)).collect();
    for n in 0..=run.pick(2, 3) {
        for t in mc::tuples(n, pick.len()) {
            run.state();
            run.transition();
            let list: Vec<BlsSignature> = t.iter().map(|i| sigs[pick[*i]].1.clone()).collect();
            let parts: Option<Vec<Parts>> = t.iter().map(|i| sigs[pick[*i]].2.clone()).collect();
            let want = match parts {
                Some(p) if n > 0 => {
                    let s: Vec<_> = p.concat().iter().map(|(k, m)| sparse(*k).sign(&msgs[*m], DST, &[])).collect();
                    Some(aggregated(&s))
                }
                _ => None,
            };
            let got = mc::guard(|| real::aggregate(&list).ok());
            run.eq(|| format!("aggregate({:?})", t.iter().map(|i| &sigs[pick[*i]].0).collect::<Vec<_>>()), &Ok(want), &got);
        }
    }
    for n in 0..=len {
        for t in mc::tuples(n, np) {
            run.state();
            run.transition();
            let list: Vec<BlsPublicKey> = t.iter().map(|i| pks[*i].1.clone()).collect();
            let valid: Option<Vec<usize>> = t.iter().map(|i| pks[*i].2).collect();
            let want = valid.filter(|v| !v.is_empty()).map(|v| {
                let mut sum = Fr::ZERO;
                for k in v {
                    sum = sum.add(&Fr::from_be_bytes(&sparse(k).to_bytes()).unwrap());
                }
                any_key(&blst::encode(&sum, 48))
            });
            let got = mc::guard(|| real::eth_aggregate_public_keys(&list).ok());
            run.eq(|| format!("eth_aggregate_public_keys(keys {t:?})"), &Ok(want), &got);
        }
    }
    run.part("identity signature");
    for i in 0..96 {
        for b in 0..8 {
            let mut x = [0u8; 96];
            x[0] = 0xc0;
            x[i] ^= 1 << b;
            run.state();
            run.transition();
            run.eq(|| format!("is_infinity with bit {b} of byte {i} flipped"), &false, &any_sig(&x).is_infinity());
            let got = mc::guard(|| real::eth_fast_aggregate_verify(&[], &msgs[0], &any_sig(&x)).is_ok());
            run.eq(|| format!("no keys and the identity signature with bit {b} of byte {i} flipped"), &Ok(false), &got);
        }
    }
    run.eq(|| "is_infinity of the identity".into(), &true, &infinity().is_infinity());
    run.part("secret keys");
    let order: [u8; 32] = hex::decode("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001").unwrap().try_into().unwrap();
    let mut cases: Vec<(Vec<u8>, bool)> = (0..=64).filter(|n| *n != 32).map(|n| (vec![1; n], false)).collect();
    cases.push((vec![0; 32], false));
    cases.push((vec![255; 32], false));
    for d in 0..4u8 {
        let mut up = order;
        up[31] += d;
        cases.push((up.to_vec(), false));
    }
    let mut down = order;
    down[31] = 0;
    cases.push((down.to_vec(), true));
    for i in 0..32 {
        let mut one = [0; 32];
        one[i] = 1;
        cases.push((one.to_vec(), true));
    }
    for (b, good) in &cases {
        run.state();
        run.transitions(3);
        let got = mc::guard(|| real::SecretKey::try_from(&b[..]).ok().map(|k| (k.public_key(), k.sign(b"m"), k.to_bytes().to_vec())));
        let want = good.then(|| {
            let k = min_pk::SecretKey::from_bytes(b).unwrap();
            (any_key(&k.sk_to_pk().to_bytes()), sig(&k.sign(b"m", DST, &[])), b.clone())
        });
        run.eq(|| format!("secret key from {}", hex::encode(b)), &Ok(want.clone()), &got);
        for text in [format!("0x{}", hex::encode(b)), format!("\"0x{}\"", hex::encode(b))] {
            let got = if text.starts_with('"') {
                mc::guard(|| serde_json::from_str::<real::SecretKey>(&text).ok().map(|k| k.to_bytes().to_vec()))
            } else {
                mc::guard(|| real::SecretKey::try_from(text.clone()).ok().map(|k| k.to_bytes().to_vec()))
            };
            let want = want.as_ref().map(|w| w.2.clone());
            run.eq(|| format!("secret key from text {text}"), &Ok(want), &got);
        }
        // What is printed of a key for debugging is the same for every key.
        if *good {
            let forms = |k: &real::SecretKey| (format!("{k:?}"), format!("{k:#?}"), format!("{:?}", Some(k)));
            let got = mc::guard(|| real::SecretKey::try_from(&b[..]).ok().map(|k| forms(&k)));
            let any = mc::guard(|| real::SecretKey::try_from(&down[..]).ok().map(|k| forms(&k)));
            run.eq(|| format!("debug form of secret key {}", hex::encode(b)), &any, &got);
        }
    }
    for n in 0..=64usize {
        for fill in [0u8, 1, 255] {
            let ikm = vec![fill; n];
            run.state();
            run.transition();
            let want = (n >= 32).then(|| reference_keygen(&ikm));
            let got = mc::guard(|| real::SecretKey::key_gen(&ikm).ok().map(|k| k.to_bytes()));
            run.eq(|| format!("key_gen from {n} bytes of {fill}"), &Ok(want), &got);
            let got = mc::guard(|| real::SecretKey::from_bytes(&ikm).ok().map(|k| k.to_bytes()));
            run.eq(|| format!("from_bytes of {n} bytes of {fill}"), &Ok(want), &got);
        }
    }
}
fn reference_keygen(ikm: &[u8]) -> [u8; 32] {
    min_pk::SecretKey::derive_master_eip2333(ikm).unwrap().to_bytes()
}
