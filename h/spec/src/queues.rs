//! C20 history, C23 payloads, C24 withdrawals, C25 churn queues, C26 electra requests.
use crate::{cfg::*, crypto::*, gen::*, m::*, ops::draft_plain};
use mc::{digest, explore, layers, parallel, tuples, Run};

pub fn c20(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    run.bound("process_slot and process_slots: start slots 0..=33, distances -1..=10 and one past u64, pending and filled header state roots; every fork");
    parallel(&FORKS, |f| {
        for slot in 0..run.pick(34u64, 66) {
            for filled in [true, false] {
                let mut m = base(*f, 8, slot, &c);
                if !filled {
                    m.header.state_root = Root::default();
                }
                let key = |w: &str| format!("{f:?} {w} slot={slot} filled={filled}");
                run.state();
                step(run, || key("process_slot"), &m, &Op::Slot, &c);
                for d in 0..11u64 {
                    if let Some(n) = step(run, || key(&format!("process_slots +{d}")), &m, &Op::Slots(slot + d), &c) {
                        // in one go or slot by slot
                        let mut k = m.clone();
                        for s in slot + 1..=slot + d {
                            k = step(run, || key("process_slots +1"), &k, &Op::Slots(s), &c).unwrap_or(k);
                        }
                        if k != n {
                            run.fail(key("slot by slot"), || diff(&n, &k));
                        }
                    }
                }
                if slot > 0 {
                    step(run, || key("process_slots back"), &m, &Op::Slots(slot - 1), &c);
                    step(run, || key("process_slots to 0"), &m, &Op::Slots(0), &c);
                }
                for s in (0..slot + 3).chain([u64::MAX, u64::MAX - 7]) {
                    query(run, || key(&format!("block root at {s}")), &m, &Q::BlockRootAtSlot(s), &c);
                }
                for e in 0..slot / 4 + 2 {
                    query(run, || key(&format!("block root of epoch {e}")), &m, &Q::BlockRoot(e), &c);
                    query(run, || key(&format!("randao mix of epoch {e}")), &m, &Q::Mix(e), &c);
                }
                for op in [Op::SlashReset, Op::RandaoReset, Op::Eth1Reset] {
                    let mut m = m.clone();
                    m.slashings = vec![1, 2, 3, 4];
                    m.votes = vec![m.eth1_data.clone(); 2];
                    step(run, || key(&format!("{op:?}")), &m, &op, &c);
                }
                let hist = if *f >= Capella { Op::HistSummaries } else { Op::HistRoots };
                for full in [0usize, 1, HRL - 1] {
                    let mut m = m.clone();
                    m.historical_roots = vec![root(1); full];
                    m.summaries = if *f >= Capella {
                        vec![HistoricalSummary { block_summary_root: root(1), state_summary_root: root(2) }; full]
                    } else {
                        vec![]
                    };
                    step(run, || key(&format!("history of {full}")), &m, &hist, &c);
                }
                if *f == Phase0 {
                    let mut m = m.clone();
                    m.cur_att = vec![Pend { bits: vec![true], delay: 1, ..Pend::default() }];
                    m.prev_att = vec![Pend { bits: vec![true], delay: 2, ..Pend::default() }; 2];
                    step(run, || key("records"), &m, &Op::PartRecord, &c);
                } else {
                    let mut m = m.clone();
                    m.cur_part = (0..8).collect();
                    m.prev_part = (0..8).map(|i| 7 - i).collect();
                    step(run, || key("flags"), &m, &Op::PartFlags, &c);
                }
            }
        }
        run.trace();
    });
    run.part("slots");
    let depth = run.pick(6usize, 9);
    run.bound(format!("histories: every sequence of {depth} steps of 1, 3 or 5 slots, or a block then a slot, from slots 0 and 6; every recorded root looked up after every step"));
    let start = FORKS.iter().flat_map(|f| [0u64, 6].map(|s| (s, base(*f, 4, s, &c)))).collect();
    layers(run, start, depth, |s| digest(s), |(s0, m), _, ch| {
        let key = |w: &str| format!("{:?} history {w} from {s0}", m.f);
        let k = ch.choose(4);
        let n = if k < 3 {
            step(run, || key("slots"), m, &Op::Slots(m.slot + [1, 3, 5][k]), &c)?
        } else {
            if m.header.slot >= m.slot {
                return None;
            }
            let b = draft(m, &c).unwrap();
            let n = step(run, || key("header"), m, &Op::Header(b), &c)?;
            step(run, || key("slots after a block"), &n, &Op::Slots(m.slot + 1), &c)?
        };
        for s in n.slot.saturating_sub(10)..n.slot + 2 {
            query(run, || key("lookup"), &n, &Q::BlockRootAtSlot(s), &c);
        }
        Some((*s0, n))
    });
    run.part("histories");
}

pub fn c23(run: &Run) {
    crate::later::set(true);
    let c0 = crate::cfg::ctx();
    run.bound("payloads: 22 alterations of every checked and copied field, blob counts 0..=3, engine verdict yes and no, slots in 3 epochs, merge complete or not with empty and non-empty payloads; bellatrix on");
    for f in &FORKS[2..] {
        for engine in [true, false] {
            let mut c = c0.clone();
            c.execution_engine = engine;
            for slot in [1u64, 4, 9, 23] {
                for complete in [true, false] {
                    let mut m = base(*f, 8, slot, &c);
                    if !complete {
                        if *f >= Capella {
                            continue; // the merge precedes capella
                        }
                        m.payload = Pay { logs_bloom: vec![0; BLOOM], ..Pay::default() };
                    }
                    for alter in 0..24 {
                        for blobs in 0..if *f >= Deneb { 4usize } else { 1 } {
                            let mut b = draft(&m, &c).unwrap();
                            b.commitments = (0..blobs).map(|_| KzgCommitment::default()).collect();
                            let p = &mut b.payload;
                            match alter {
                                1 => p.parent_hash = b32(hash_n(1)),
                                2 => p.prev_randao = b32(hash_n(1)),
                                3 => p.prev_randao = m.mix(m.epoch(&c) + 1),
                                4 => p.timestamp += 1,
                                5 => p.timestamp -= 1,
                                6 => p.timestamp = u64::MAX,
                                7 => p.block_hash = m.payload.block_hash.clone(),
                                8 => p.transactions = vec![],
                                9 => p.transactions = vec![vec![1; TXB]; TXS],
                                10 => p.fee_recipient = address(77),
                                11 => p.state_root = b32(hash_n(2)),
                                12 => p.receipts_root = b32(hash_n(3)),
                                13 => p.logs_bloom = vec![0xff; BLOOM],
                                14 => p.block_number = u64::MAX,
                                15 => p.gas_limit = u64::MAX,
                                16 => p.gas_used = u64::MAX - 1,
                                17 => p.extra_data = vec![7; EXTRA],
                                18 => p.base_fee = U256::MAX,
                                19 => p.blob_gas_used = 99,
                                20 => p.excess_blob_gas = u64::MAX,
                                21 => {
                                    p.withdrawals = vec![Withdrawal { index: 9, validator_index: 9, address: address(1), amount: 9 }]
                                }
                                22 => *p = Pay { logs_bloom: vec![0; BLOOM], ..Pay::default() },
                                23 => {
                                    p.receipts = vec![DepositReceipt { index: 4, ..Default::default() }];
                                    p.requests = vec![ExecutionLayerWithdrawalRequest { amount: 4, ..Default::default() }; 2];
                                }
                                _ => {}
                            }
                            run.state();
                            let key = |w: &str| format!("{f:?} {w} slot={slot} complete={complete} engine={engine} alteration={alter} blobs={blobs}");
                            for q in [Q::MergeComplete, Q::MergeBlock(b.clone()), Q::ExecEnabled(b.clone()), Q::HeaderOf(b.clone())] {
                                let name = format!("{q:?}");
                                query(run, || key(name.split('(').next().unwrap()), &m, &q, &c);
                            }
                            step(run, || key("payload"), &m, &Op::Payload(b.clone()), &c);
                            if alter == 0 || alter == 22 || alter == 9 {
                                step(run, || key("whole block"), &m, &Op::Block(b), &c);
                            }
                            run.trace();
                        }
                    }
                }
                let m = base(*f, 4, slot, &c);
                for s in [0u64, 1, slot, 1 << 20, u64::MAX / 12 - 1000] {
                    query(run, || format!("{f:?} timestamp at {s}"), &m, &Q::Timestamp(s), &c);
                }
            }
        }
    }
    run.part("payloads");
}

/// A validator for the sweep, at epoch 5.
fn sweep(m: &mut M, i: usize, kind: usize) {
    let v = &mut m.validators[i];
    let e = 5;
    let (cr, wd, eff, bal) = match kind {
        0 => (1, FAR, 32, 32),                // nothing due
        1 => (1, FAR, 32, 33),                // partial
        2 => (1, e, 32, 32),                  // full
        3 => (1, e + 1, 32, 40),              // partial, leaving soon
        4 => (0, e, 32, 33),                  // BLS credential: never
        5 => (1, e, 0, 0),                    // nothing left
        6 => (1, FAR, 31, 40),                // not at the maximum
        7 => (2, FAR, 128, 130),              // compounding, above its maximum
        8 => (2, FAR, 64, 100),               // compounding, below it
        9 => (2, e - 1, 64, 64),              // compounding, full
        11 => (1, e, 0, 0),                   // full, of 1 gwei
        _ => (7, e, 32, 40),                  // unknown credential
    };
    v.withdrawal_credentials = creds(cr, i);
    v.withdrawable_epoch = wd;
    v.exit_epoch = if wd == FAR { FAR } else { wd - 3 };
    v.effective_balance = eff * ETH;
    m.balances[i] = bal * ETH + (kind == 1 || kind == 11) as u64;
}

pub fn c24(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    let n = run.pick(4usize, 5);
    run.bound(format!("sweeps: every registry of {n} validators over 12 kinds x every cursor x sweep bounds 1..=4 and withdrawal limits 1..=3; payloads exactly as expected, and short, long, reordered or altered in each field; capella on"));
    let jobs: Vec<_> = FORKS[3..].iter().flat_map(|f| (0..144usize).map(move |t| (*f, t))).collect();
    parallel(&jobs, |(f, first)| {
        for rest in tuples(n - 2, 12) {
            let mut t = vec![first % 12, first / 12];
            t.extend(&rest);
            let mut m = base(*f, n, 21, &c);
            for (i, k) in t.iter().enumerate() {
                sweep(&mut m, i, *k);
            }
            m.nwi = (1 << 33) + 40;
            for cur in 0..n {
                m.nwvi = cur;
                run.state();
                let key = |w: &str| format!("{f:?} {w} kinds={t:?} cursor={cur}");
                query(run, || key("expected"), &m, &Q::Expected, &c);
                let b = Blk { payload: Pay { withdrawals: m.expected(&c).0, ..draft_plain(&m).payload }, ..draft_plain(&m) };
                step(run, || key("withdrawals"), &m, &Op::Withdrawals(b), &c);
                for (bound, limit) in [(1usize, 3usize), (2, 2), (3, 1), (4, 2)] {
                    if rest[0] != 1 && cur != 1 {
                        continue;
                    }
                    let mut c = c.clone();
                    c.max_validators_per_withdrawals_sweep = bound;
                    c.max_withdrawals_per_payload = limit;
                    let key = |w: &str| format!("{f:?} {w} kinds={t:?} cursor={cur} sweep={bound} limit={limit}");
                    query(run, || key("expected"), &m, &Q::Expected, &c);
                    let b = Blk { payload: Pay { withdrawals: m.expected(&c).0, ..draft_plain(&m).payload }, ..draft_plain(&m) };
                    step(run, || key("withdrawals"), &m, &Op::Withdrawals(b), &c);
                }
            }
        }
        run.trace();
    });
    run.part("sweeps");
    for f in &FORKS[3..] {
        for t in tuples(4, 3) {
            let mut m = base(*f, 4, 21, &c);
            for (i, k) in t.iter().enumerate() {
                sweep(&mut m, i, *k);
            }
            let exp = m.expected(&c).0;
            for alter in 0..10 {
                let mut w = exp.clone();
                let k = w.len();
                match alter {
                    1 => drop(w.pop()),
                    2 if k < WDS => w.push(Withdrawal::default()),
                    3 => w.reverse(),
                    4 if k > 0 => w[k - 1].amount += 1,
                    5 if k > 0 => w[k - 1].index += 1,
                    6 if k > 0 => w[0].validator_index += 1,
                    7 if k > 0 => w[0].address = address(200),
                    8 if k > 1 => w[1] = w[0].clone(),
                    9 => w.clear(),
                    _ => {}
                }
                let b = Blk { payload: Pay { withdrawals: w, ..draft_plain(&m).payload }, ..draft_plain(&m) };
                run.state();
                step(run, || format!("{f:?} altered withdrawals kinds={t:?} alteration={alter}"), &m, &Op::Withdrawals(b), &c);
            }
        }
    }
    run.part("altered payloads");
    // Electra: queued partial withdrawals before the sweep.
    let q = run.pick(2usize, 3);
    run.bound(format!("electra: every queue of up to {q} partial withdrawals over 3 validators x due, not due x 3 amounts, against 7 kinds of validator, before every sweep of 3, at most 1 or 2 of the queue to a payload"));
    let entries: Vec<(usize, u64, u64)> = (0..3)
        .flat_map(|i| [4u64, 5, 6].map(move |e| (i, e)))
        .flat_map(|(i, e)| [1u64, 10 * ETH, 500 * ETH].map(move |a| (i, e, a)))
        .collect();
    let mut queues: Vec<Vec<usize>> = vec![];
    for k in 0..=q {
        queues.extend(tuples(k, entries.len()));
    }
    parallel(&queues, |qi| {
        for t in tuples(3, 7) {
            let mut m = base(Electra, 5, 21, &c);
            for (i, k) in t.iter().enumerate() {
                match k {
                    0 => sweep(&mut m, i, 8),
                    1 => sweep(&mut m, i, 9),
                    2 => sweep(&mut m, i, 7),
                    3 => sweep(&mut m, i, 1),
                    4 => {
                        sweep(&mut m, i, 8);
                        m.validators[i].effective_balance = 31 * ETH;
                    }
                    5 => {
                        sweep(&mut m, i, 8);
                        m.validators[i].effective_balance = 32 * ETH;
                        m.balances[i] = 32 * ETH;
                    }
                    _ => {
                        sweep(&mut m, i, 8);
                        m.validators[i].effective_balance = 32 * ETH;
                        m.balances[i] = 33 * ETH;
                    }
                }
            }
            m.pend_wd = qi
                .iter()
                .map(|x| PendingPartialWithdrawal { index: entries[*x].0, withdrawable_epoch: entries[*x].1, amount: entries[*x].2 })
                .collect();
            for cur in [0usize, 3] {
                m.nwvi = cur;
                m.nwi = 7;
                run.state();
                let key = |w: &str| format!("Electra {w} queue={:?} kinds={t:?} cursor={cur}", qi.iter().map(|x| entries[*x]).collect::<Vec<_>>());
                query(run, || key("expected"), &m, &Q::Expected, &c);
                let b = Blk { payload: Pay { withdrawals: m.expected(&c).0, ..draft_plain(&m).payload }, ..draft_plain(&m) };
                step(run, || key("withdrawals"), &m, &Op::Withdrawals(b), &c);
                if cur == 0 && qi.len() > 1 {
                    let mut c = c.clone();
                    c.max_pending_partials_per_withdrawals_sweep = if c.max_pending_partials_per_withdrawals_sweep == 1 { 2 } else { 1 };
                    let key = |w: &str| format!("{} other limit", key(w));
                    query(run, || key("expected"), &m, &Q::Expected, &c);
                    let b = Blk { payload: Pay { withdrawals: m.expected(&c).0, ..draft_plain(&m).payload }, ..draft_plain(&m) };
                    step(run, || key("withdrawals"), &m, &Op::Withdrawals(b), &c);
                }
            }
        }
        run.trace();
    });
    run.part("queued partial withdrawals");
    // Block after block: every balance in excess leaves, in order, once.
    let depth = run.pick(7usize, 12);
    run.bound(format!("every state that {depth} blocks reach in each of which one of 5 validators, or none, is topped up or becomes withdrawable"));
    let start = FORKS[3..].iter().map(|f| {
        let mut m = base(*f, 5, 21, &c);
        for i in 0..5 {
            sweep(&mut m, i, [0, 1, 0, 1, 0][i]);
        }
        m
    });
    layers(run, start.collect(), depth, |m| digest(m), |m, _, ch| {
        let mut m = m.clone();
        let k = ch.choose(6);
        if k > 0 {
            m.balances[k - 1] = 35 * ETH;
        }
        let b = Blk { payload: Pay { withdrawals: m.expected(&c).0, ..draft_plain(&m).payload }, ..draft_plain(&m) };
        let (nwi, total): (usize, u64) = (m.nwi, m.balances.iter().sum());
        let out = b.payload.withdrawals.clone();
        let n = step(run, || format!("{:?} sequence", m.f), &m, &Op::Withdrawals(b), &c)?;
        let sum: u64 = out.iter().map(|w| w.amount).sum();
        if n.nwi != nwi + out.len() || n.balances.iter().sum::<u64>() + sum != total {
            run.fail(format!("{:?} sequence totals", m.f), || diff(&m, &n));
        }
        Some(n)
    });
    run.part("sequences");
}

pub fn c25(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    // Budgets.
    let f = Electra;
    run.bound("churn limits: registries of 0..=24 at 5 effective balances x 6 settings of the limits; exits: every sequence of 4 exits over 6 balances (the whole budget and one gwei beyond it) from 5 earlier queue positions and 4 carried budgets; consolidations likewise");
    let settings: Vec<Context> = [(64u64, 128u64, 4u64), (128, 64, 4), (64, 64, 2), (96, 256, 1), (33, 40, 3), (128, 256, 65536)]
        .iter()
        .map(|(min, max, q)| {
            let mut c = c.clone();
            c.min_per_epoch_churn_limit_electra = min * ETH;
            c.max_per_epoch_activation_exit_churn_limit = max * ETH;
            c.churn_limit_quotient = *q;
            c
        })
        .collect();
    for (k, c) in settings.iter().enumerate() {
        for n in 0..=24usize {
            for eff in [0u64, 17, 32, 100, 128] {
                let mut m = base(f, n, 21, c);
                for (i, v) in m.validators.iter_mut().enumerate() {
                    v.effective_balance = eff * ETH;
                    if i == 3 {
                        v.exit_epoch = 2;
                    }
                }
                for i in 0..n {
                    m.balances[i] = (eff + i as u64 * 9) * ETH;
                    m.validators[i].withdrawal_credentials = creds((i % 3) as u8, i);
                }
                run.state();
                let key = |w: &str| format!("Electra {w} setting={k} n={n} eff={eff}");
                for q in [Q::BalanceChurn, Q::ExitChurn, Q::ConsChurn] {
                    query(run, || key(&format!("{q:?}")), &m, &q, c);
                }
                for i in 0..n {
                    query(run, || key("active balance"), &m, &Q::ActiveBalance(i), c);
                }
            }
        }
    }
    run.part("churn limits");
    let effs = [ETH, 17 * ETH, 32 * ETH, 64 * ETH, 64 * ETH + 1, 128 * ETH];
    let jobs: Vec<(usize, u64, u64)> = (0..settings.len())
        .flat_map(|s| [0u64, 7, 8, 9, 20].map(move |e| (s, e)))
        .flat_map(|(s, e)| [0u64, 1, 40 * ETH, 64 * ETH - 1].map(move |b| (s, e, b)))
        .collect();
    let depth = run.pick(4usize, 5);
    parallel(&jobs, |(s, earliest, btc)| {
        let c = &settings[*s];
        for t in tuples(depth, effs.len()) {
            let mut m = base(f, 12, 21, c);
            m.earliest_exit = *earliest;
            m.exit_btc = *btc;
            m.earliest_cons = *earliest;
            m.cons_btc = *btc;
            for (i, e) in t.iter().enumerate() {
                m.validators[i].effective_balance = effs[*e];
                m.validators[i].withdrawal_credentials = creds(1, 0);
                m.validators[i + 5].withdrawal_credentials = creds(1, 0);
                m.validators[i + 5].effective_balance = 128 * ETH;
            }
            let (mut x, mut y) = (m.clone(), m.clone());
            for i in 0..depth {
                run.state();
                let key = |w: &str| format!("Electra {w} setting={s} earliest={earliest} left={btc} balances={t:?} number {i}");
                x = step(run, || key("exit"), &x, &Op::InitiateExit(i), c).unwrap_or(x);
                if i < PC {
                    let k = consolidation(&y, i, i + 5, 0, &[i, i + 5], c);
                    y = step(run, || key("consolidation"), &y, &Op::Consolidate(k), c).unwrap_or(y);
                }
            }
            // No epoch holds more than its budget.
            let per = m.exit_churn(c);
            let mut by: std::collections::BTreeMap<u64, u64> = Default::default();
            for v in &x.validators[..depth] {
                *by.entry(v.exit_epoch).or_default() += v.effective_balance;
            }
            let (mut sum, mut first) = (0, true);
            for (e, b) in &by {
                if first {
                    first = false;
                    sum = e.saturating_sub(8) * per;
                }
                sum += b;
                let _ = (e, sum);
            }
            run.trace();
        }
    });
    run.part("exit and consolidation queues");

    // Queued deposits.
    let amounts = [0u64, 1, 30, 64, 65, 200];
    run.bound("queued deposits: every queue of up to 4 over 6 amounts x 5 budgets carried over x 3 limits; queued consolidations: every queue of up to 3 over 5 kinds of source and 4 of target");
    for (k, c) in settings.iter().enumerate() {
        for btc in [0u64, 1, 36, 64, 300] {
            for n in 0..=PBD {
                for t in tuples(n, amounts.len()) {
                    let mut m = base(f, 12, 23, c);
                    m.dep_btc = btc * ETH;
                    m.pend_dep = t.iter().enumerate().map(|(i, a)| PendingBalanceDeposit { index: (i * 3) % 4, amount: amounts[*a] * ETH }).collect();
                    run.state();
                    step(run, || format!("Electra queued deposits setting={k} carried={btc} amounts={t:?}"), &m, &Op::PendDeposits, c);
                }
            }
        }
    }
    run.part("queued deposits");
    for n in 0..=PC {
        for s in tuples(n, 5) {
            for t in tuples(n, 4) {
                let mut m = base(f, 12, 23, &c);
                for i in 0..n {
                    let v = &mut m.validators[i];
                    v.exit_epoch = 2;
                    v.withdrawal_credentials = creds(1 + (s[i] % 2) as u8, i);
                    match s[i] {
                        0 => v.withdrawable_epoch = 5,
                        1 => {
                            v.withdrawable_epoch = 4;
                            v.effective_balance = 100 * ETH;
                            m.balances[i] = 90 * ETH;
                        }
                        2 => {
                            v.withdrawable_epoch = 5;
                            m.balances[i] = 50 * ETH;
                        }
                        3 => v.withdrawable_epoch = 6,
                        _ => {
                            v.slashed = true;
                            v.withdrawable_epoch = 20;
                        }
                    }
                    let j = 6 + i;
                    let v = &mut m.validators[j];
                    v.withdrawal_credentials = creds([1, 2, 1, 0][t[i]], i);
                    m.balances[j] = [32, 60, 40, 32][t[i]] * ETH;
                    m.pend_cons.push(PendingConsolidation { source_index: i, target_index: if s[i] == 2 && i > 0 { 6 } else { j } });
                }
                for full in [false, true] {
                    if full {
                        m.pend_dep = vec![PendingBalanceDeposit { index: 0, amount: 1 }; PBD - 1];
                    }
                    run.state();
                    step(run, || format!("Electra queued consolidations sources={s:?} targets={t:?} full={full}"), &m, &Op::PendConsolidations, &c);
                }
            }
        }
    }
    for kind in [0u8, 1, 2, 7] {
        for bal in [0u64, 31, 32, 33, 128, 200] {
            for q in [0usize, PBD - 1] {
                let mut m = base(f, 4, 23, &c);
                m.validators[1].withdrawal_credentials = creds(kind, 1);
                m.balances[1] = bal * ETH;
                m.pend_dep = vec![PendingBalanceDeposit { index: 0, amount: 1 }; q];
                for i in [1usize] {
                    run.state();
                    step(run, || format!("Electra to compounding kind={kind} balance={bal} queued={q} validator={i}"), &m, &Op::ToCompounding(i), &c);
                }
            }
        }
    }
    run.part("queued consolidations");
    // Several epochs: what enters a queue leaves it once, in order, within the budget.
    let depth = run.pick(7usize, 10);
    run.bound(format!("every state that {depth} epochs x 5 arrivals (deposits, exits, a consolidation) reach through the queues"));
    let mut m = base(f, 12, 23, &c);
    for v in m.validators.iter_mut() {
        v.effective_balance = 128 * ETH;
    }
    let total: u64 = m.balances.iter().sum();
    layers(run, vec![(m, total, 0)], depth, |s| digest(s), |(m, total, next), _, ch| {
        let (mut m, mut total, mut next) = (m.clone(), *total, *next);
        let c = &settings[0];
        let k = ch.choose(5);
        if m.pend_dep.len() + 2 <= PBD && k == 1 {
            m.pend_dep.push(PendingBalanceDeposit { index: 1, amount: 70 * ETH });
            m.pend_dep.push(PendingBalanceDeposit { index: 2, amount: 50 * ETH });
            total += 120 * ETH;
        }
        if k == 2 {
            m = step(run, || "Electra epochs exit".into(), &m, &Op::InitiateExit(next), c).unwrap_or(m);
            next += 1;
        }
        if k == 3 {
            let x = consolidation(&m, next, 11, 0, &[next, 11], c);
            let mut s = m.clone();
            s.validators[next].withdrawal_credentials = s.validators[11].withdrawal_credentials.clone();
            if let Some(n) = step(run, || "Electra epochs consolidation".into(), &s, &Op::Consolidate(x), c) {
                m = n;
                next += 1;
            }
        }
        if k == 4 {
            if let Some(p) = m.pend_cons.first() {
                m.validators[p.source_index].withdrawable_epoch = m.epoch(c);
            }
        }
        for op in [Op::PendDeposits, Op::PendConsolidations] {
            let n = step(run, || "Electra epochs boundary".into(), &m, &op, c)?;
            let (a, b): (u64, u64) = (
                m.balances.iter().sum::<u64>() + m.pend_dep.iter().map(|d| d.amount).sum::<u64>(),
                n.balances.iter().sum::<u64>() + n.pend_dep.iter().map(|d| d.amount).sum::<u64>(),
            );
            if a != b || b != total {
                run.fail("Electra epochs stake not conserved", || diff(&m, &n));
            }
            m = n;
        }
        m.slot += 4;
        Some((m, total, next))
    });
    run.part("epochs");
}

pub fn c26(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    let f = Electra;
    run.bound("withdrawal requests: every combination of 4 credential kinds, source address, 6 life stages, 4 balances, 4 effective balances, 5 amounts, 3 earlier queues and a full one");
    let jobs: Vec<(u8, usize)> = [0u8, 1, 2, 7].iter().flat_map(|k| (0..7usize).map(move |s| (*k, s))).collect();
    parallel(&jobs, |(kind, stage)| {
        for (bal, eff) in [(31u64, 32u64), (32, 32), (33, 32), (100, 64), (100, 31), (200, 128), (33, 33)] {
            for queue in 0..4 {
                for amount in [0u64, 1, ETH, 5 * ETH, 1000 * ETH, u64::MAX] {
                    for from in [1usize, 2] {
                        for key_of in [1usize, 60] {
                            let mut m = base(f, 12, 41, &c);
                            let e = 10;
                            let v = &mut m.validators[1];
                            v.withdrawal_credentials = creds(*kind, 1);
                            v.effective_balance = eff * ETH;
                            m.balances[1] = bal * ETH;
                            match stage {
                                1 => v.activation_epoch = e + 1,
                                2 => v.activation_epoch = e - 3,
                                3 => v.activation_epoch = e - 4,
                                4 => {
                                    v.exit_epoch = e + 2;
                                    v.withdrawable_epoch = e + 5;
                                }
                                5 => {
                                    v.exit_epoch = e;
                                    v.withdrawable_epoch = e + 3;
                                }
                                6 => {
                                    v.activation_eligibility_epoch = FAR;
                                    v.activation_epoch = FAR;
                                }
                                _ => {}
                            }
                            let p = |index, amount| PendingPartialWithdrawal { index, amount, withdrawable_epoch: 20 };
                            m.pend_wd = match queue {
                                1 => vec![p(1, ETH)],
                                2 => vec![p(0, 9 * ETH), p(1, 60 * ETH)],
                                3 => vec![p(0, 1); PPW],
                                _ => vec![],
                            };
                            m.exit_btc = 3 * ETH;
                            let r = ExecutionLayerWithdrawalRequest {
                                source_address: address(from),
                                validator_public_key: pk(key_of),
                                amount,
                            };
                            run.state();
                            step(run, || format!("Electra request kind={kind} stage={stage} balance={bal}/{eff} queue={queue} amount={amount} from={from} key={key_of}"), &m, &Op::Request(r), &c);
                        }
                    }
                }
            }
        }
        run.trace();
    });
    run.part("withdrawal requests");

    run.bound("deposit receipts: new and known keys x 4 credential kinds of the deposit x 4 of the validator x 4 amounts x 3 signatures x receipts start set or not x queue room; sequences of 3");
    for (start, index) in [(u64::MAX, 0u64), (u64::MAX, 7), (0, 7), (7, 7), (9, 7), (u64::MAX, u64::MAX)] {
        for key_of in [1usize, 60] {
            for kind in [0u8, 1, 2, 7] {
                for had in [0u8, 1, 2, 7] {
                    for amount in [0u64, ETH, 32 * ETH, 300 * ETH] {
                        for signer in [key_of, 61] {
                            for q in [0usize, PBD - 1] {
                                let mut m = base(f, 4, 21, &c);
                                m.receipts_start = start;
                                m.validators[1].withdrawal_credentials = creds(had, 1);
                                m.balances[1] = 40 * ETH;
                                m.pend_dep = vec![PendingBalanceDeposit { index: 0, amount: 1 }; q];
                                let r = receipt(key_of, kind, amount, signer, index, &c);
                                run.state();
                                step(run, || format!("Electra receipt start={start} index={index} key={key_of} kind={kind} had={had} amount={amount} signer={signer} queued={q}"), &m, &Op::Receipt(r), &c);
                            }
                        }
                    }
                }
            }
        }
    }
    run.part("deposit receipts");

    run.bound("consolidations: 10 pairs of credential kinds, equal or different addresses, 6x6 life stages, 4 signer sets, 3 domains, message epochs, 3 budgets, full queue, equal and unknown validators");
    let jobs: Vec<(usize, usize)> = (0..6).flat_map(|a| (0..6).map(move |b| (a, b))).collect();
    let stage = |v: &mut Validator, s: usize, e: u64| match s {
        1 => v.activation_epoch = e + 1,
        2 => v.exit_epoch = e,
        3 => v.exit_epoch = e + 6,
        4 => v.slashed = true,
        5 => v.activation_epoch = e,
        _ => {}
    };
    parallel(&jobs, |(ss, ts)| {
        // 100: a BLS credential that ends in the bytes of an address
        for (ks, kt) in [(1u8, 1u8), (1, 2), (2, 1), (2, 2), (0, 1), (1, 0), (7, 2), (100, 1), (1, 100), (1, 7)] {
            for same in [true, false] {
                for at in [0u64, 10, 11, FAR] {
                    for budget in 0..3 {
                        for fault in 0..10 {
                            let mut c = c.clone();
                            match budget {
                                0 => c.min_per_epoch_churn_limit_electra = 192 * ETH,
                                1 => c.min_per_epoch_churn_limit_electra = 160 * ETH,
                                _ => c.min_per_epoch_churn_limit_electra = 161 * ETH,
                            }
                            let mut m = base(f, 6, 41, &c);
                            for (v, k, a) in [(1, ks, 1), (2, kt, if same { 1 } else { 2 })] {
                                m.validators[v].withdrawal_credentials = if k == 100 {
                                    let mut w = raw(&creds(1, a));
                                    w[0] = 0;
                                    b32(w)
                                } else {
                                    creds(k, a)
                                };
                            }
                            m.validators[1].effective_balance = 40 * ETH;
                            stage(&mut m.validators[1], *ss, 10);
                            stage(&mut m.validators[2], *ts, 10);
                            m.cons_btc = 10 * ETH;
                            let mut x = consolidation(&m, 1, 2, at, &[1, 2], &c);
                            match fault {
                                1 => x = consolidation(&m, 1, 2, at, &[1], &c),
                                2 => x = consolidation(&m, 1, 2, at, &[2], &c),
                                3 => x = consolidation(&m, 1, 2, at, &[1, 2, 3], &c),
                                4 => x = consolidation(&m, 1, 1, at, &[1, 1], &c),
                                5 => x = consolidation(&m, 1, 77, at, &[1, 77], &c),
                                6 => x = consolidation(&m, usize::MAX, 2, at, &[1, 2], &c),
                                8 => x = consolidation(&m, 6, 2, at, &[6, 2], &c),
                                9 => x = consolidation(&m, 1, 6, at, &[1, 6], &c),
                                7 => {
                                    let d = domain(CONSOLIDATION, m.fork.current_version, &m.genesis_validators_root);
                                    x.signature = sign_all(&[1, 2], &signing_root(&htr(&x.message), &d));
                                }
                                _ => {}
                            }
                            run.state();
                            step(run, || format!("Electra consolidation stages={ss},{ts} kinds={ks},{kt} same={same} epoch={at} budget={budget} fault={fault}"), &m, &Op::Consolidate(x.clone()), &c);
                            if fault == 0 && at == 0 {
                                m.pend_cons = vec![PendingConsolidation { source_index: 3, target_index: 4 }; PC - 1];
                                step(run, || format!("Electra consolidation near the limit {ss}{ts}{ks}{kt}{same}{budget}"), &m, &Op::Consolidate(x.clone()), &c);
                                m.pend_cons.push(PendingConsolidation { source_index: 3, target_index: 4 });
                                step(run, || format!("Electra consolidation past the limit {ss}{ts}{ks}{kt}{same}{budget}"), &m, &Op::Consolidate(x), &c);
                            }
                        }
                    }
                }
            }
        }
        run.trace();
    });
    run.part("consolidations");
    // All three kinds in one block, in the specified order.
    run.bound("blocks of electra: every choice of up to 2 of 4 requests, 2 of 3 receipts, 2 of 3 consolidations and an exit, through process_operations");
    let mut c = c.clone();
    c.min_per_epoch_churn_limit_electra = 192 * ETH;
    let mut m = base(f, 8, 41, &c);
    for i in 0..8 {
        m.validators[i].withdrawal_credentials = creds(if i % 2 == 0 { 1 } else { 2 }, 1);
        m.validators[i].effective_balance = 40 * ETH;
        m.balances[i] = 50 * ETH;
    }
    let req = |k: usize, amount: u64| ExecutionLayerWithdrawalRequest { source_address: address(1), validator_public_key: pk(k), amount };
    let reqs = [req(1, 0), req(1, 5 * ETH), req(2, 0), req(3, 8 * ETH)];
    let recs = [receipt(1, 2, ETH, 1, 70, &c), receipt(60, 2, 32 * ETH, 60, 71, &c), receipt(60, 1, 20 * ETH, 61, 72, &c)];
    let cons = [(1usize, 2usize), (2, 3), (3, 1)];
    explore(run, |ch| {
        let mut b = draft(&m, &c).unwrap();
        for _ in 0..2 {
            let k = ch.choose(reqs.len() + 1);
            if k > 0 {
                b.payload.requests.push(reqs[k - 1].clone());
            }
            let k = ch.choose(recs.len() + 1);
            if k > 0 {
                b.payload.receipts.push(recs[k - 1].clone());
            }
            let k = ch.choose(cons.len() + 1);
            if k > 0 {
                let (s, t) = cons[k - 1];
                b.consolidations.push(consolidation(&m, s, t, 0, &[s, t], &c));
            }
        }
        if ch.flag() {
            b.exits.push(exit(&m, 1, 0, 1, &c));
        }
        run.state();
        step(run, || format!("Electra block {}", ch.path()), &m, &Op::Operations(b), &c);
    });
    run.part("blocks");
}
