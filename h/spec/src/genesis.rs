//! C34: genesis from the deposit log, and its trigger.
use crate::{cfg, cfg::*, crypto::*, gen::*, m::*, real, spec};
use mc::{guard, parallel, tuples, Run};

/// The specification's genesis. Deposits come as the contract logged them.
fn reference(f: F, h: &Bytes32, t: u64, d: &[Deposit], p: Option<&Pay>, c: &Context) -> Result<M, String> {
    let mut m = M {
        f,
        genesis_time: t + c.genesis_delay,
        fork: Fork { previous_version: version(c, f), current_version: version(c, f), epoch: 0 },
        block_roots: vec![Root::default(); cfg::SPHR],
        state_roots: vec![Root::default(); cfg::SPHR],
        mixes: vec![h.clone(); cfg::EPHV],
        slashings: vec![0; cfg::EPSV],
        jbits: vec![false; 4],
        ..M::default()
    };
    m.eth1_data.block_hash = h.clone();
    m.eth1_data.deposit_count = d.len() as u64;
    m.header.body_root = real::body_root(f, &Blk::default());
    if f >= Bellatrix {
        m.payload = Pay { logs_bloom: vec![0; cfg::BLOOM], ..Pay::default() };
        if let Some(p) = p {
            m.payload = p.clone();
        }
    }
    if f == Electra {
        m.receipts_start = u64::MAX;
    }
    let mut tree = Deposits { leaves: vec![] };
    for x in d {
        tree.leaves.push(raw(&htr(&x.data)));
        m.eth1_data.deposit_root = tree.root();
        m.deposit(x, c)?;
    }
    for x in std::mem::take(&mut m.pend_dep) {
        m.balances[x.index] += x.amount;
    }
    for (v, b) in m.validators.iter_mut().zip(&m.balances) {
        v.effective_balance = (b / c.effective_balance_increment * c.effective_balance_increment)
            .min(c.max_effective_balance);
        if v.effective_balance == c.max_effective_balance {
            v.activation_eligibility_epoch = 0;
            v.activation_epoch = 0;
        }
    }
    let v: List<Validator, { cfg::VRL }> = real::seq(&m.validators);
    m.genesis_validators_root = htr(&v);
    if f >= Altair {
        m.sync = m.next_sync_committee(c)?;
        m.next_sync = m.sync.clone();
    }
    Ok(m)
}

struct Case<'a> {
    f: F,
    h: Bytes32,
    t: u64,
    d: Vec<Deposit>,
    p: Option<Pay>,
    c: &'a Context,
}
fn check(run: &Run, key: String, k: &Case) {
    let go = || reference(k.f, &k.h, k.t, &k.d, k.p.as_ref(), k.c);
    let want = guard(go);
    run.transition();
    let want = match want {
        Ok(w) => w,
        Err(p) if p.contains("overflow") => return,
        Err(p) => panic!("the reference failed: {p}"),
    };
    let got = real::genesis(k.f, k.h.clone(), k.t, &k.d, k.p.as_ref(), k.c);
    match (&want, &got) {
        (Ok(w), Ok((g, b))) => {
            if w != g {
                run.fail(&key, || format!("{}", diff(w, g)));
            }
            let blk = Blk { state_root: real::state_root(w), ..Blk::default() };
            run.eq(|| format!("{key} block"), &real::block_root(k.f, &blk), b);
        }
        (Err(_), Err(g)) if !g.starts_with("panic") => {}
        (Err(w), Err(g)) => {
            let (r, names) = spec::known(go);
            if !names.is_empty() && r.is_err_and(|p| p.ends_with("known")) {
                for n in names {
                    run.fail(&n, || "the library answers as it does with this defect".into());
                }
                return;
            }
            run.fail(&key, || format!("expected rejection: {w}\n     got a crash: {g}"))
        }
        (w, g) => run.fail(&key, || {
            format!("expected {:?}\n     got {:?}", w.as_ref().map(|_| "a state"), g.as_ref().map(|_| "a state"))
        }),
    }
}
/// The deposits with the branches they had when the contract logged them.
fn logged(data: &[DepositData]) -> Vec<Deposit> {
    let mut t = Deposits { leaves: vec![] };
    data.iter()
        .enumerate()
        .map(|(i, d)| {
            t.leaves.push(raw(&htr(d)));
            Deposit { proof: proof_vec(&t.proof(i)), data: d.clone() }
        })
        .collect()
}

pub fn c34(run: &Run) {
    let c = cfg::ctx();
    let h = b32(hash_n(42));
    let kind = |f: F| if f == Electra { 2u8 } else { (f >= Capella) as u8 };

    run.part("logs");
    let amounts: &[u64] = if run.thorough {
        &[32 * ETH, 32 * ETH - 1, 16 * ETH, 1, 0, 33 * ETH, 200 * ETH]
    } else {
        &[32 * ETH, 32 * ETH - 1, 16 * ETH, 1]
    };
    // (key, amount, signed by)
    let mut alphabet = vec![];
    for k in 0..2usize {
        for a in 0..amounts.len() {
            for good in [true, false] {
                alphabet.push((k, amounts[a], good));
            }
        }
    }
    let len = run.pick(3, 3);
    run.bound(format!("logs of up to {len} deposits"));
    run.bound(format!("{} amounts", amounts.len()));
    let mut jobs = vec![];
    for f in FORKS {
        let data: Vec<DepositData> = alphabet
            .iter()
            .map(|(k, a, good)| deposit_data(*k, kind(f), *a, if *good { *k } else { 77 }, &c))
            .collect();
        for n in 0..=len {
            for t in tuples(n, alphabet.len()) {
                jobs.push((f, t.iter().map(|i| data[*i].clone()).collect::<Vec<_>>(), t));
            }
        }
    }
    run.states(jobs.len() as u64);
    parallel(&jobs, |(f, data, t)| {
        let k = Case { f: *f, h: h.clone(), t: 1000, d: logged(data), p: None, c: &c };
        let what: Vec<_> = t.iter().map(|i| alphabet[*i]).collect();
        check(run, format!("{f:?} log {what:?}"), &k);
    });

    run.part("credentials");
    // what the first deposit of a key says about withdrawals counts, and a later one only where
    // the fork lets it switch
    let mut jobs = vec![];
    for f in FORKS {
        for ks in tuples(3, 3) {
            for amount in [16 * ETH, 40 * ETH] {
                for good in tuples(3, 2) {
                    let data: Vec<_> = (0..3)
                        .map(|i| {
                            deposit_data(1, ks[i] as u8, amount, if good[i] == 0 { 1 } else { 9 }, &c)
                        })
                        .collect();
                    jobs.push((f, data, format!("{ks:?} {amount} {good:?}")));
                }
            }
        }
    }
    run.states(jobs.len() as u64);
    parallel(&jobs, |(f, data, w)| {
        let mut data = data.clone();
        data.push(deposit_data(0, 1, 32 * ETH, 0, &c));
        let k = Case { f: *f, h: h.clone(), t: 1000, d: logged(&data), p: None, c: &c };
        check(run, format!("{f:?} credentials {w}"), &k);
    });

    run.part("sets");
    let mut jobs = vec![];
    for f in FORKS {
        for n in 1..=run.pick(6, 12) {
            for mask in 0..1u32 << n.min(run.pick(6, 8)) {
                jobs.push((f, n, mask));
            }
        }
    }
    run.bound(format!("up to {} validators", run.pick(6, 12)));
    run.states(jobs.len() as u64);
    parallel(&jobs, |(f, n, mask)| {
        // those in the mask are one gwei short
        let data: Vec<_> = (0..*n)
            .map(|i| deposit_data(i, kind(*f), 32 * ETH - (mask >> i & 1) as u64, i, &c))
            .collect();
        let k = Case { f: *f, h: b32(hash_n(*mask as u64)), t: 1000 + *n as u64, d: logged(&data), p: None, c: &c };
        check(run, format!("{f:?} set {n} {mask:b}"), &k);
    });

    run.part("branches");
    let mut jobs = vec![];
    for f in FORKS {
        let data: Vec<_> = (0..4).map(|i| deposit_data(i, kind(f), 32 * ETH, i, &c)).collect();
        let good = logged(&data);
        let mut push = |d: Vec<Deposit>, w: String| jobs.push((f, d, w));
        let full = Deposits { leaves: data.iter().map(|d| raw(&htr(d))).collect() };
        for i in 0..4 {
            let mut d = good.clone();
            d[i].proof = proof_vec(&full.proof(i));
            push(d, format!("{i} from the full tree"));
            for j in 0..4 {
                let mut d = good.clone();
                d[i].proof = good[j].proof.clone();
                push(d, format!("{i} with the branch of {j}"));
                let mut d = good.clone();
                d.swap(i, j);
                push(d, format!("{i} and {j} swapped"));
            }
            for k in 0..33 {
                let mut d = good.clone();
                let mut p = d[i].proof.to_vec();
                p[k] = root(9999);
                d[i].proof = proof_vec(&p);
                push(d, format!("{i} with another hash at {k}"));
            }
            let mut d = good.clone();
            d[i].data.amount += 1;
            push(d, format!("{i} with another amount"));
            let mut d = good.clone();
            d.remove(i);
            push(d, format!("{i} missing"));
        }
        // a log whose branches were made with one more or one fewer deposit before it
        push(good[1..].to_vec(), "started late".into());
    }
    run.states(jobs.len() as u64);
    parallel(&jobs, |(f, d, w)| {
        let k = Case { f: *f, h: h.clone(), t: 1000, d: d.clone(), p: None, c: &c };
        check(run, format!("{f:?} branch: {w}"), &k);
    });

    run.part("surroundings");
    let mut jobs = vec![];
    for f in FORKS {
        for t in [0, 1, 999, 1 << 40] {
            for hash in 0..3u64 {
                for delay in [0, 1, 300, 604800] {
                    for max in [16 * ETH, 32 * ETH, 64 * ETH] {
                        for inc in [ETH, 3 * ETH] {
                            for p in [false, true] {
                                jobs.push((f, t, hash, delay, max, inc, p));
                            }
                        }
                    }
                }
            }
        }
    }
    run.states(jobs.len() as u64);
    parallel(&jobs, |(f, t, hash, delay, max, inc, p)| {
        let mut c = c.clone();
        (c.genesis_delay, c.max_effective_balance, c.effective_balance_increment) = (*delay, *max, *inc);
        let data: Vec<_> = [32, 16, 64, 33, 8, 15]
            .iter()
            .enumerate()
            .map(|(i, a)| deposit_data(i, kind(*f), a * ETH, i, &c))
            .collect();
        let p = p.then(|| base(*f, 1, 1, &c).payload);
        let k = Case { f: *f, h: b32(hash_n(*hash)), t: *t, d: logged(&data), p, c: &c };
        check(run, format!("{f:?} time {t} hash {hash} delay {delay} maximum {max} increment {inc} payload {}", k.p.is_some()), &k);
    });

    run.part("trigger");
    let n = 3;
    let epochs = [(0u64, FAR), (0, 0), (0, 1), (1, FAR), (FAR, FAR), (0, FAR - 1)];
    for f in FORKS {
        for t in tuples(n, epochs.len()) {
            let mut m = base(f, n, 0, &c);
            m.jbits = vec![false; 4];
            for (v, k) in m.validators.iter_mut().zip(&t) {
                (v.activation_epoch, v.exit_epoch) = epochs[*k];
            }
            for time in [0, 999, 1000, 1001, u64::MAX] {
                for min in 0..=n + 1 {
                    let mut c = c.clone();
                    c.min_genesis_active_validator_count = min;
                    m.genesis_time = time;
                    run.state();
                    query(run, || format!("{f:?} trigger {t:?} at {time} of {min}"), &m, &Q::ValidGenesis, &c);
                }
            }
        }
    }
    // the state's own slot does not matter
    for f in FORKS {
        for slot in [1u64, 8, 40] {
            for k in epochs {
                let mut m = base(f, 1, slot, &c);
                (m.validators[0].activation_epoch, m.validators[0].exit_epoch) = k;
                let mut c = c.clone();
                c.min_genesis_active_validator_count = 1;
                run.state();
                query(run, || format!("{f:?} trigger {k:?} in slot {slot}"), &m, &Q::ValidGenesis, &c);
            }
        }
    }
    run.assume("genesis time and balances stay below 2^64");
    run.sample(|| format!("log alphabet {alphabet:?}"));
}
