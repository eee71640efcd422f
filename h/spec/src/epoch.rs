//! C12 life cycle, C13 rewards, C14 justification: the epoch boundary.
use crate::{crypto::*, gen::*, m::*, spec};
use mc::{digest, layers, parallel, tuples, Run};

fn rec(elig: u64, act: u64, exit: u64, wd: u64, eff: u64, slashed: bool) -> Validator {
    Validator {
        activation_eligibility_epoch: elig,
        activation_epoch: act,
        exit_epoch: exit,
        withdrawable_epoch: wd,
        effective_balance: eff * ETH,
        slashed,
        ..Validator::default()
    }
}
/// The kinds of validator record met at the end of epoch 5 with epoch 3 finalized.
fn records() -> Vec<(&'static str, Validator)> {
    vec![
        ("active", rec(0, 0, FAR, FAR, 32, false)),
        ("new", rec(FAR, FAR, FAR, FAR, 32, false)),
        ("poor", rec(FAR, FAR, FAR, FAR, 31, false)),
        ("rich", rec(FAR, FAR, FAR, FAR, 33, false)),
        ("eligible2", rec(2, FAR, FAR, FAR, 32, false)),
        ("eligible3", rec(3, FAR, FAR, FAR, 32, false)),
        ("eligible4", rec(4, FAR, FAR, FAR, 32, false)),
        ("eject", rec(0, 0, FAR, FAR, 16, false)),
        ("nearly", rec(0, 0, FAR, FAR, 17, false)),
        ("leaving8", rec(0, 0, 8, 11, 32, false)),
        ("leaving9", rec(0, 0, 9, 12, 16, false)),
        ("left", rec(0, 0, 4, 7, 16, false)),
        ("leaves", rec(0, 0, 5, 8, 16, false)),
        ("slashed", rec(0, 0, 8, 20, 15, true)),
        ("future", rec(0, 7, FAR, FAR, 16, false)),
        ("fresh", rec(2, 5, FAR, FAR, 16, false)),
    ]
}
fn put(m: &mut M, i: usize, v: &Validator) {
    let (k, w) = (m.validators[i].public_key.clone(), m.validators[i].withdrawal_credentials.clone());
    m.validators[i] = v.clone();
    m.validators[i].public_key = k;
    m.validators[i].withdrawal_credentials = w;
    m.balances[i] = v.effective_balance;
}

pub fn c12(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    let recs = records();
    let n = run.pick(3usize, 4);
    let fillers = run.pick(vec![1usize, 13], vec![0, 1, 9, 13, 17]);
    run.bound(format!("process_registry_updates and initiate_validator_exit at the end of epoch 5: every registry of {n} records over {} kinds, and every registry of {} over 6 queueing kinds, beside {fillers:?} plain active validators; every fork", recs.len(), n + 2));
    let queue: Vec<usize> = ["eject", "leaving8", "leaving9", "eligible2", "eligible3", "new"]
        .iter()
        .map(|k| recs.iter().position(|r| r.0 == *k).unwrap())
        .collect();
    let mut regs: Vec<Vec<usize>> = tuples(n, recs.len()).collect();
    regs.extend(tuples(n + 2, queue.len()).map(|t| t.iter().map(|i| queue[*i]).collect()));
    let jobs: Vec<_> = FORKS
        .iter()
        .flat_map(|f| fillers.iter().map(move |k| (*f, *k)))
        .flat_map(|(f, k)| regs.chunks(400).map(move |r| (f, k, r)))
        .collect();
    parallel(&jobs, |(f, k, regs)| {
        for t in *regs {
            let mut m = base(*f, t.len() + k, 23, &c);
            m.fin.epoch = 3;
            if *f == Electra {
                m.exit_btc = 20 * ETH;
                m.earliest_exit = 9;
            }
            for (i, r) in t.iter().enumerate() {
                put(&mut m, i, &recs[*r].1);
            }
            run.state();
            let names = || t.iter().map(|r| recs[*r].0).collect::<Vec<_>>().join(",");
            step(run, || format!("{f:?} registry {}+{k}", names()), &m, &Op::Registry, &c);
            for i in 0..t.len() {
                if t[..i].contains(&t[i]) {
                    continue;
                }
                step(run, || format!("{f:?} exit of {i} in {}+{k}", names()), &m, &Op::InitiateExit(i), &c);
            }
            run.trace();
        }
    });
    run.part("registry updates");
    for f in FORKS {
        for n in [1usize, 7, 8, 12, 13, 16, 17, 40] {
            let mut m = base(f, n, 23, &c);
            query(run, || format!("{f:?} churn limit n={n}"), &m, &Q::ChurnLimit, &c);
            if f == Deneb {
                query(run, || format!("{f:?} activation churn n={n}"), &m, &Q::ActivationChurn, &c);
            }
            if n > 8 {
                m.validators[0].exit_epoch = 3;
                query(run, || format!("{f:?} churn limit n={n}-1"), &m, &Q::ChurnLimit, &c);
            }
        }
    }

    // Whole lives: every state that epochs reach in which finality does or does not advance, a
    // deposit tops a validator up or its balance collapses, or it asks to leave.
    let depth = run.pick(7usize, 9);
    run.bound(format!("lives of 6 validators: every state that {depth} epochs x 6 events (finality stalls, advances, advances with a collapse of two balances, an exit, a top-up) reach, through registry and effective-balance updates"));
    let start = FORKS.map(|f| {
        let mut m = base(f, 6, 7, &c);
        m.fin.epoch = 0;
        for i in 3..6 {
            put(&mut m, i, &rec(FAR, FAR, FAR, FAR, if i == 5 { 31 } else { 32 }, false));
        }
        m
    });
    layers(run, start.to_vec(), depth, |m| digest(m), |m, d, ch| {
        let mut m = m.clone();
        let ev = ch.choose(6);
        if ev > 0 {
            m.fin.epoch = m.epoch(&c) - 1;
        }
        let f = m.f;
        let key = |w: &str| format!("{f:?} life {w} after {d} epochs, event {ev}");
        match ev {
            2 => m.balances[0] = 10 * ETH,
            3 => {
                if let Some(n) = step(run, || key("exit"), &m, &Op::InitiateExit(3), &c) {
                    m = n;
                }
            }
            4 => m.balances[5] = 40 * ETH,
            5 => m.balances[1] = 10 * ETH,
            _ => {}
        }
        for op in [Op::Registry, Op::EffBal] {
            let n = step(run, || key("epoch"), &m, &op, &c)?;
            for (a, b) in m.validators.iter().zip(&n.validators) {
                let kept = (a.exit_epoch == FAR || a.exit_epoch == b.exit_epoch)
                    && (a.activation_epoch == FAR || a.activation_epoch == b.activation_epoch)
                    && (b.exit_epoch == FAR) == (b.withdrawable_epoch == FAR);
                if !kept {
                    run.fail(key("record rewritten"), || format!("{a:?}\n{b:?}"));
                }
            }
            m = n;
        }
        m.slot += c.slots_per_epoch;
        Some(m)
    });
    run.part("lives");
}

/// Phase 0 attestations of the previous or current epoch for every slot, from choices per slot.
fn pending(m: &M, e: u64, slot: u64, com: usize, bits: &[bool], target: bool, head: bool, delay: u64, proposer: usize, c: &Context) -> Pend {
    let mut d = att_data(m, slot, com, c);
    assert_eq!(d.target.epoch, e);
    if !target {
        d.target.root = root(900);
    }
    if !head {
        d.beacon_block_root = root(901);
    }
    Pend { bits: bits.to_vec(), data: d, delay, proposer }
}

pub fn c13(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    let qs0 = [Q::SourceDeltas, Q::TargetDeltas, Q::HeadDeltas, Q::DelayDeltas, Q::InactivityDeltas, Q::AttDeltas];
    // Phase 0: per slot of the previous epoch, the attestations included for its committee.
    let opts: Vec<Vec<(u8, bool, bool, u64)>> = vec![
        vec![],
        vec![(3, true, true, 1)],
        vec![(1, true, true, 1)],
        vec![(2, true, false, 2)],
        vec![(3, false, false, 4)],
        vec![(3, true, false, 3), (3, true, false, 2)],
        vec![(1, false, false, 1), (3, true, true, 2)],
        vec![(2, true, true, 4), (1, false, true, 1)],
    ];
    let slashed: &[u32] = run.pick(&[0, 0b101, 0b1110_0001][..], &[0, 1, 0b101, 0b1100_0000, 0b1110_0001, 0xff][..]);
    let delays = run.pick(vec![1u64, 3], vec![1, 2, 3, 4]);
    run.bound(format!("phase 0: every assignment of {} inclusion histories to the 4 committees of an epoch, slashed sets {slashed:?}, finality delays {delays:?}, mixed balances", opts.len()));
    let jobs: Vec<(u64, u32, Vec<usize>)> = delays
        .iter()
        .flat_map(|d| slashed.iter().flat_map(move |s| tuples(4, 8).map(move |t| (*d, *s, t))))
        .collect();
    parallel(&jobs, |(d, s, t)| {
        let mut m = base(Phase0, 8, 23, &c);
        m.fin.epoch = 4 - d;
        for i in 0..8 {
            m.validators[i].slashed = s >> i & 1 == 1;
            m.validators[i].effective_balance = [32, 31, 20, 32, 17, 32, 1, 32][i] * ETH;
            m.balances[i] = [32 * ETH, 100, 20 * ETH, 33 * ETH, 17 * ETH, 0, ETH, 50 * ETH][i];
        }
        if s >> 7 & 1 == 1 {
            m.validators[7].exit_epoch = 3;
            m.validators[7].withdrawable_epoch = 6;
            m.validators[6].exit_epoch = 3;
            m.validators[6].withdrawable_epoch = 5;
        }
        for (k, o) in t.iter().enumerate() {
            let slot = 16 + k as u64;
            let len = m.committee(slot, 0, &c).unwrap().len();
            for (j, (bits, target, head, delay)) in opts[*o].iter().enumerate() {
                let bits: Vec<bool> = (0..len).map(|i| bits >> (i % 2) & 1 == 1).collect();
                let p = pending(&m, 4, slot, 0, &bits, *target, *head, *delay, (k + j) % 8, &c);
                m.prev_att.push(p);
            }
        }
        run.state();
        let key = |w: &str| format!("Phase0 {w} delay={d} slashed={s:b} history={t:?}");
        step(run, || key("rewards"), &m, &Op::Rewards, &c);
        for q in &qs0 {
            query(run, || key(&format!("{q:?}")), &m, q, &c);
        }
        run.trace();
    });
    run.part("phase 0");

    // Altair on: flags, scores, slashed and leaving validators.
    let fin = run.pick(vec![1u64, 3], vec![1, 2, 3, 5]);
    let kinds = 6usize;
    run.bound(format!("altair on: every combination for 3 validators of 8 participation sets x {kinds} (record, score, balance) kinds, finality delays {fin:?}; every fork"));
    let flags: Vec<Vec<usize>> = tuples(3, 8).collect();
    let ks: Vec<Vec<usize>> = tuples(3, kinds).collect();
    let jobs: Vec<_> = FORKS[1..]
        .iter()
        .flat_map(|f| fin.iter().map(move |d| (*f, *d)))
        .flat_map(|(f, d)| ks.iter().map(move |k| (f, d, k)))
        .collect();
    parallel(&jobs, |(f, d, k)| {
        for t in &flags {
            let mut m = base(*f, 5, 27, &c);
            m.fin.epoch = 5 - d;
            m.validators[4].effective_balance = 20 * ETH;
            m.prev_part = vec![0, 0, 0, 7, 3];
            m.cur_part = vec![7, 0, 2, 0, 7];
            m.scores = vec![0, 0, 0, 9, 1];
            for i in 0..3 {
                m.prev_part[i] = t[i] as u8;
                let v = &mut m.validators[i];
                match k[i] {
                    0 => m.scores[i] = 0,
                    1 => {
                        v.slashed = true;
                        v.exit_epoch = 5;
                        v.withdrawable_epoch = 9;
                        m.scores[i] = 20;
                    }
                    2 => {
                        // left, no longer eligible
                        v.exit_epoch = 5;
                        v.withdrawable_epoch = 6;
                        m.scores[i] = 7;
                    }
                    3 => {
                        v.effective_balance = 16 * ETH;
                        m.balances[i] = 1000;
                        m.scores[i] = 1_000_000;
                    }
                    4 => {
                        v.slashed = true;
                        v.exit_epoch = 5;
                        v.withdrawable_epoch = 6;
                        m.scores[i] = 3;
                    }
                    _ => {
                        v.activation_epoch = 6;
                        m.scores[i] = 17;
                        m.balances[i] = 0;
                    }
                }
            }
            run.state();
            let key = |w: &str| format!("{f:?} {w} delay={d} kinds={k:?} flags={t:?}");
            step(run, || key("rewards"), &m, &Op::Rewards, &c);
            step(run, || key("inactivity"), &m, &Op::Inactivity, &c);
            let mut high = m.clone();
            high.scores.iter_mut().for_each(|x| *x += 1 << 33);
            step(run, || key("inactivity, high scores"), &high, &Op::Inactivity, &c);
            for q in [Q::FlagDeltas(0), Q::FlagDeltas(1), Q::FlagDeltas(2), Q::InactivityDeltas] {
                query(run, || key(&format!("{q:?}")), &m, &q, &c);
            }
            run.trace();
        }
    });
    run.part("altair on");
    // The first epochs, and totals across the range.
    for f in FORKS {
        for slot in [0u64, 3, 4, 7, 8, 11] {
            let mut m = base(f, 4, slot, &c);
            m.prev_part = vec![7; 4 * (f > Phase0) as usize];
            m.scores = vec![5; 4 * (f > Phase0) as usize];
            let key = |w: &str| format!("{f:?} {w} slot={slot}");
            step(run, || key("rewards"), &m, &Op::Rewards, &c);
            if f > Phase0 {
                step(run, || key("inactivity"), &m, &Op::Inactivity, &c);
            }
            query(run, || key("finality delay"), &m, &Q::FinalityDelay, &c);
            query(run, || key("leak"), &m, &Q::Leak, &c);
            if f > Phase0 {
                m.prev_part = vec![7, 5, 0, 2];
                m.cur_part = vec![0, 3, 4, 7];
                for slashed in 0..2 {
                    m.validators[3].slashed = slashed == 1;
                    for e in [0u64, 1, 2, 3, 9, FAR] {
                        for flag in 0..3 {
                            query(run, || key(&format!("participants of epoch {e}, flag {flag}, slashed {slashed}")), &m, &Q::Participating(flag, e), &c);
                        }
                    }
                }
            }
        }
        for n in [0usize, 1, 2, 5, 33, 64] {
            for eff in [0u64, 1, 2, 17, 31, 32, 128, 2048] {
                let mut m = base(f, n, 22, &c);
                for v in m.validators.iter_mut().skip(1) {
                    v.effective_balance = eff * ETH;
                }
                let key = |w: &str| format!("{f:?} {w} n={n} eff={eff}");
                query(run, || key("total active balance"), &m, &Q::TotalActive, &c);
                for i in 0..n.min(2) {
                    query(run, || key("base reward"), &m, &Q::BaseReward(i), &c);
                }
            }
        }
    }
    run.part("totals");

    // Effective balances: every balance around every threshold of every effective balance.
    let effs: Vec<u64> = run.pick(vec![0u64, 1, 15, 16, 17, 31, 32], (0..=33).collect())
        .into_iter()
        .chain([63, 64, 127, 128])
        .collect();
    run.bound(format!("effective balances {effs:?} ETH x balances within 2.25 ETH of them in quarter steps +-1 gwei, all credential kinds, three hysteresis settings, every fork"));
    let jobs: Vec<_> = FORKS.iter().flat_map(|f| effs.iter().map(move |e| (*f, *e))).collect();
    parallel(&jobs, |(f, eff)| {
        let quarter = ETH / 4;
        let mut bals: Vec<u64> = vec![0, 1, 300 * ETH];
        for q in -9i64..=9 {
            for d in [-1i64, 0, 1] {
                let b = (*eff * ETH) as i64 + q * quarter as i64 + d;
                if b >= 0 {
                    bals.push(b as u64);
                }
            }
        }
        for (q, down, up) in [(4u64, 1u64, 5u64), (4, 2, 3), (2, 0, 1)] {
            let mut c = c.clone();
            c.hysteresis_quotient = q;
            c.hysteresis_downward_multiplier = down;
            c.hysteresis_upward_multiplier = up;
            for kind in 0..3u8 {
                for b in bals.chunks(16) {
                    let mut m = base(*f, b.len(), 23, &c);
                    for i in 0..b.len() {
                        m.validators[i].withdrawal_credentials = creds(kind, i);
                        m.validators[i].effective_balance = eff * ETH;
                        m.balances[i] = b[i];
                    }
                    run.state();
                    step(run, || format!("{f:?} effective balance eff={eff} kind={kind} hysteresis={q}/{down}/{up}"), &m, &Op::EffBal, &c);
                }
            }
        }
        run.trace();
    });
    run.part("effective balances");
}

/// A state at the end of epoch `e` in which exactly the validators of the two sets attested to the
/// target of the previous and of the current epoch.
fn voted(m: &mut M, prev: &[usize], cur: &[usize], wrong: &[usize], c: &Context) {
    let e = m.epoch(c);
    if m.f > Phase0 {
        for i in 0..m.validators.len() {
            m.prev_part[i] = if prev.contains(&i) { 2 } else { 5 };
            m.cur_part[i] = if cur.contains(&i) { 2 } else { 5 };
        }
        return;
    }
    for (ep, set, out) in [(e.wrapping_sub(1), prev, 0), (e, cur, 1)] {
        if ep > e {
            continue;
        }
        let mut v = vec![];
        for slot in ep * 4..ep * 4 + 4 {
            let com = m.committee(slot, 0, c).unwrap();
            for (chosen, right) in [(set, true), (wrong, false)] {
                let bits: Vec<bool> = com.iter().map(|i| chosen.contains(i)).collect();
                if bits.iter().any(|b| *b) {
                    v.push(pending(m, ep, slot, 0, &bits, right, true, 1, 0, c));
                }
            }
        }
        if out == 0 {
            m.prev_att = v
        } else {
            m.cur_att = v
        }
    }
}
fn subset(b: usize, n: usize) -> Vec<usize> {
    (0..n).filter(|i| b >> i & 1 == 1).collect()
}

pub fn c14(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    // One boundary, from every recorded state of justification.
    let epochs = 0..=6u64;
    let n = run.pick(3usize, 4);
    let slashed: &[usize] = run.pick(&[0, 1, 4, 6][..], &[0, 1, 4, 6, 10][..]);
    run.bound(format!("one boundary at epochs {epochs:?}: 16 bit patterns x every pair of justified epochs x every pair of voting subsets of {n} validators x slashed sets {slashed:?}; every fork"));
    let jobs: Vec<_> = FORKS
        .iter()
        .flat_map(|f| epochs.clone().map(move |e| (*f, e)))
        .flat_map(|(f, e)| slashed.iter().map(move |s| (f, e, *s)))
        .flat_map(|(f, e, s)| (0..1usize << (2 * n)).map(move |v| (f, e, s, v)))
        .collect();
    parallel(&jobs, |(f, e, s, v)| {
        let mut m = base(*f, n, e * 4 + 3, &c);
        for i in subset(*s, n) {
            m.validators[i].slashed = true;
        }
        let wrong: Vec<usize> = (0..n).collect();
        voted(&mut m, &subset(v % (1 << n), n), &subset(v >> n, n), &wrong, &c);
        m.fin = Checkpoint { epoch: e.saturating_sub(4), root: root(950) };
        let lo = e.saturating_sub(4);
        for cj in lo..=*e {
            for pj in lo..=cj {
                m.cj = Checkpoint { epoch: cj, root: root(951) };
                m.pj = Checkpoint { epoch: pj, root: root(952) };
                for b in 0..16usize {
                    m.jbits = (0..4).map(|i| b >> i & 1 == 1).collect();
                    run.state();
                    step(run, || format!("{f:?} justification epoch={e} bits={b:04b} pj={pj} cj={cj} votes={v:06b} slashed={s:b}"), &m, &Op::Justification, &c);
                }
            }
        }
        run.trace();
    });
    run.part("one boundary");
    // The two-thirds threshold to the gwei, over uneven stakes.
    for f in FORKS {
        for bal in [[32u64, 32, 32, 32], [1, 32, 31, 16], [20, 20, 20, 31], [32, 1, 1, 1], [0, 0, 0, 3], [31, 32, 32, 1], [1, 2, 3, 3]] {
            for p in 0..16usize {
                for q in [0usize, 15, p] {
                    let mut m = base(f, 4, 15, &c);
                    for i in 0..4 {
                        m.validators[i].effective_balance = bal[i] * ETH;
                    }
                    voted(&mut m, &subset(p, 4), &subset(q, 4), &[0, 3], &c);
                    // nothing recorded yet of the two epochs, so that each justification shows
                    m.jbits = vec![false; 4];
                    (m.cj, m.pj, m.fin) = (Checkpoint { epoch: 1, root: root(951) }, Checkpoint { epoch: 1, root: root(951) }, Checkpoint { epoch: 0, root: root(950) });
                    run.state();
                    step(run, || format!("{f:?} threshold stakes={bal:?} prev={p:b} cur={q:b}"), &m, &Op::Justification, &c);
                }
            }
        }
    }
    run.part("threshold");
    // Whole histories through the slots of several epochs. What justification does not read is the
    // same in all of them, so that histories meet again.
    let depth = run.pick(12usize, 30);
    run.bound(format!("histories: every state that {depth} epochs x 6 turnouts (previous and current epoch below or at two thirds, one of them exactly at it, with a slashed voter) reach through process_slots, from genesis, every fork"));
    let plain = |m: &mut M| {
        m.balances = vec![32 * ETH; 3];
        m.scores.iter_mut().for_each(|s| *s = 0);
        for v in &mut m.validators {
            v.slashed = false;
            v.effective_balance = 32 * ETH;
        }
        m.state_roots = (0..crate::cfg::SPHR).map(|i| root(200 + i as u64)).collect();
        (m.historical_roots, m.summaries) = (vec![], vec![]);
    };
    let start = FORKS.map(|f| {
        let mut m = base(f, 3, 3, &c);
        m.jbits = vec![false; 4];
        for cp in [&mut m.pj, &mut m.cj, &mut m.fin] {
            *cp = Checkpoint::default();
        }
        m
    });
    let n = layers(run, start.to_vec(), depth, |m| digest(m), |m, d, ch| {
        let mut m = m.clone();
        let t = ch.choose(6);
        let (p, q): (&[usize], &[usize]) = match t {
            0 => (&[], &[]),
            1 => (&[0, 1], &[2]),
            2 => (&[0, 1, 2], &[0, 2]),
            3 => (&[1], &[1, 2]),
            4 => (&[0, 1], &[]),
            _ => (&[0, 1, 2], &[1, 2]),
        };
        m.validators[0].slashed = t == 5;
        voted(&mut m, p, q, &[], &c);
        let key = |w: &str| format!("{:?} history {w} turnout={t} epoch={d} justified {:?} recorded {:?} {:?} {:?}", m.f, m.jbits.iter().map(|b| *b as u8).collect::<Vec<_>>(), m.pj.epoch, m.cj.epoch, m.fin.epoch);
        let mut n = step(run, || key("boundary"), &m, &Op::Slots(m.slot + 1), &c)?;
        let e = m.epoch(&c);
        if n.fin.epoch < m.fin.epoch || n.cj.epoch < m.cj.epoch || n.fin.epoch > n.cj.epoch || (e < 2 && n.cj.epoch > 0) {
            run.fail(key("monotone"), || diff(&m, &n));
        }
        plain(&mut n);
        let mut k = step(run, || key("slots"), &n, &Op::Slots(n.slot + 3), &c)?;
        plain(&mut k);
        Some(k)
    });
    run.bound(format!("histories: {n} states reached"));
    run.part("histories");
    let _ = spec::isqrt(0);
}
