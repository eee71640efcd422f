//! C15 to C19 and C22: the operations a block carries.
use crate::{cfg, cfg::*, crypto::*, gen::*, m::*};
use mc::{parallel, tuples, Run};

/// Validators in every stage of life, at epoch 5: what each can still be slashed or exited for.
fn staged(f: F, n: usize, slot: u64, c: &Context) -> M {
    let mut m = base(f, n, slot, c);
    let e = slot / c.slots_per_epoch;
    for i in 0..n {
        let v = &mut m.validators[i];
        match i {
            1 => v.slashed = true,
            2 => {
                v.exit_epoch = e;
                v.withdrawable_epoch = e + 1;
            }
            3 => {
                v.exit_epoch = e.saturating_sub(2);
                v.withdrawable_epoch = e;
            }
            4 => v.activation_epoch = e + 1,
            5 => v.activation_epoch = e,
            6 => {
                v.exit_epoch = e + 5;
                v.withdrawable_epoch = e + 8;
            }
            7 => {
                v.effective_balance = 17 * ETH;
                m.balances[i] = 1000;
            }
            _ => {}
        }
    }
    m
}

pub fn c15(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    run.bound("proposer slashings: every validator of a registry in 9 life stages, header slots around the fork, 9 alterations of the pair (equal headers, slots, proposers, signatures by another key, under another epoch's version, swapped, missing), every fork");
    parallel(&FORKS, |f| {
        for slot in [20u64, 23] {
            let m = staged(*f, 12, slot, &c);
            for hs in [0u64, 3, 15, 16, 17, 20, 40, u64::MAX] {
                for p in (0..10usize).chain([11, 12, usize::MAX]) {
                    for alter in 0..9 {
                        let mut a = BeaconBlockHeader {
                            slot: hs,
                            proposer_index: p,
                            parent_root: root(1),
                            state_root: root(2),
                            body_root: root(3),
                        };
                        let mut b = a.clone();
                        b.body_root = root(4);
                        match alter {
                            1 => b = a.clone(),
                            2 => b.slot = hs ^ 1,
                            3 => b.proposer_index = p ^ 1,
                            4 => a.body_root = b.body_root,
                            _ => {}
                        }
                        let k = p.min(100);
                        let (mut x, mut y) =
                            (header_sig(&m, &a, k, &c), header_sig(&m, &b, k, &c));
                        match alter {
                            5 => x = header_sig(&m, &a, k + 1, &c),
                            6 => y = header_sig(&m, &b, k + 1, &c),
                            7 => std::mem::swap(&mut x.signature, &mut y.signature),
                            8 => {
                                let other = if hs / 4 < m.fork.epoch { m.fork.current_version } else { m.fork.previous_version };
                                let d = domain(BEACON_PROPOSER, other, &m.genesis_validators_root);
                                y.signature = sign(k, &signing_root(&htr(&b), &d));
                            }
                            _ => {}
                        }
                        run.state();
                        let s = ProposerSlashing { signed_header_1: x, signed_header_2: y };
                        step(run, || format!("{f:?} proposer slashing state={slot} slot={hs} proposer={p} alteration={alter}"), &m, &Op::PSlash(s), &c);
                    }
                }
            }
        }
    });
    run.part("proposer slashings");

    let epochs = run.pick(4u64, 5);
    run.bound(format!("attester slashings: every pair of attestations with source and target in 0..{epochs} and two block roots; every pair of index lists out of 12 (sorted, unsorted, repeated, empty, unknown, in all life stages); 6 signature faults; every list of up to 3 of 3 validators on either side; every fork"));
    let mut jobs = vec![];
    for f in FORKS {
        for a in 0..epochs * epochs {
            jobs.push((f, a));
        }
    }
    parallel(&jobs, |(f, a)| {
        let m = staged(*f, 12, 22, &c);
        let data = |src: u64, tgt: u64, r: u64| AttestationData {
            slot: tgt.wrapping_mul(4),
            index: 0,
            beacon_block_root: root(r),
            source: Checkpoint { epoch: src, root: root(20 + src) },
            target: Checkpoint { epoch: tgt, root: root(30 + tgt) },
        };
        let d1 = data(a / epochs, a % epochs, 1);
        for b in 0..epochs * epochs {
            for r in 1..3u64 {
                let d2 = data(b / epochs, b % epochs, r);
                run.state();
                let s = ASlash { a: idx(&m, &d1, &[0, 1, 8], &c), b: idx(&m, &d2, &[0, 1, 9], &c) };
                step(run, || format!("{f:?} attester slashing data {}-{} vs {}-{} root{r}", a / epochs, a % epochs, b / epochs, b % epochs), &m, &Op::ASlash(s), &c);
            }
        }
    });
    run.part("attester slashing data");
    let lists: Vec<Vec<usize>> = vec![
        vec![0],
        vec![0, 8],
        vec![8, 0],
        vec![0, 0],
        vec![],
        vec![0, 12],
        vec![1, 3, 4],
        vec![0, 1, 2, 3, 4, 5, 6, 7],
        vec![2, 5, 6, 7],
        vec![7, 8, 9],
        vec![9],
        vec![0, 8, usize::MAX],
    ];
    let jobs: Vec<_> = FORKS.iter().flat_map(|f| (0..lists.len()).map(move |i| (*f, i))).collect();
    parallel(&jobs, |(f, i)| {
        let m = staged(*f, 12, 22, &c);
        for (j, l2) in lists.iter().enumerate() {
            for kind in 0..2u64 {
                for fault in 0..6 {
                    let mut d1 = att_data(&m, 17, 0, &c);
                    let mut d2 = d1.clone();
                    if kind == 0 {
                        d2.beacon_block_root = root(40);
                    } else {
                        d1.source.epoch = 1;
                        d1.target.epoch = 5;
                        d2.source.epoch = 2;
                        d2.target.epoch = 4;
                    }
                    let mut s = ASlash { a: idx(&m, &d1, &lists[*i], &c), b: idx(&m, l_data(&d2), l2, &c) };
                    match fault {
                        1 => s.a.sig = s.b.sig.clone(),
                        2 => s.b.sig = att_sig(&m, &d2, &[10], &c),
                        3 => s.a.sig = BlsSignature::default(),
                        4 => s.b.sig = infinity(),
                        5 => std::mem::swap(&mut s.a, &mut s.b),
                        _ => {}
                    }
                    run.state();
                    step(run, || format!("{f:?} attester slashing kind={kind} lists {:?} {l2:?} fault={fault}", lists[*i]), &m, &Op::ASlash(s.clone()), &c);
                    if fault == 0 && j == 0 {
                        query(run, || format!("{f:?} valid_indexed {:?}", lists[*i]), &m, &Q::ValidIndexed(s.a), &c);
                    }
                }
            }
        }
        run.trace();
    });
    parallel(&FORKS, |f| {
        let m = staged(*f, 12, 22, &c);
        let d1 = att_data(&m, 17, 0, &c);
        let mut d2 = d1.clone();
        d2.beacon_block_root = root(40);
        let who = [0usize, 1, 8];
        for n in 1..=run.pick(3usize, 4) {
            for t in tuples(n, 3) {
                let l: Vec<usize> = t.iter().map(|i| who[*i]).collect();
                let (x, y) = (idx(&m, &d1, &l, &c), idx(&m, l_data(&d2), &[0, 1, 8], &c));
                run.state();
                step(run, || format!("{f:?} attester slashing first list {l:?}"), &m, &Op::ASlash(ASlash { a: x.clone(), b: y.clone() }), &c);
                step(run, || format!("{f:?} attester slashing second list {l:?}"), &m, &Op::ASlash(ASlash { a: y, b: x.clone() }), &c);
                query(run, || format!("{f:?} valid_indexed {l:?}"), &m, &Q::ValidIndexed(x), &c);
            }
        }
    });
    run.part("attester slashing lists");

    run.bound("slash_validator: every validator and whistleblower of 12 in 9 life stages, 3 epochs, 3 whistleblower quotients; process_slashings: every withdrawable epoch within 6 of the penalty epoch x 5 slashing totals x 6 balances");
    parallel(&FORKS, |f| {
        for slot in [1u64, 20, 23] {
            for q in [512u64, 64, 8] {
                let mut c = c.clone();
                c.whistleblower_reward_quotient = q;
                c.whistleblower_reward_quotient_electra = q * 2;
                let m = staged(*f, 12, slot, &c);
                for i in 0..12 {
                    for w in std::iter::once(None).chain((0..12).map(Some)) {
                        run.state();
                        step(run, || format!("{f:?} slash_validator {i} by {w:?} slot={slot} quotient={q}"), &m, &Op::Slash(i, w), &c);
                    }
                }
            }
        }
        for slot in [3u64, 7, 23] {
            let e = slot / 4;
            for total in [0u64, 1, 32, 100, 200, 2000] {
                for eff in [0u64, 1, 16, 31, 32] {
                    let mut m = base(*f, 10, slot, &c);
                    m.slashings = vec![total * ETH / 2, 0, total * ETH - total * ETH / 2, 0];
                    for i in 0..10 {
                        let v = &mut m.validators[i];
                        v.slashed = i != 9;
                        v.exit_epoch = 2;
                        v.effective_balance = eff * ETH;
                        v.withdrawable_epoch = if i == 9 { e + 2 } else { (e + i as u64).saturating_sub(2) };
                        m.balances[i] = if i % 2 == 0 { eff * ETH } else { 5 };
                    }
                    m.validators[0].exit_epoch = FAR;
                    m.validators[0].effective_balance = 32 * ETH;
                    m.validators[8].exit_epoch = FAR;
                    run.state();
                    step(run, || format!("{f:?} process_slashings slot={slot} total={total} eff={eff}"), &m, &Op::Slashings, &c);
                    step(run, || format!("{f:?} slashings reset slot={slot}"), &m, &Op::SlashReset, &c);
                }
            }
        }
        run.trace();
    });
    run.part("penalties");
    // A slashed validator from offence to withdrawal: the penalty is charged once.
    parallel(&FORKS, |f| {
        for first in [0u64, 8, 13] {
            let mut m = base(*f, 8, first, &c);
            let Some(n) = step(run, || format!("{f:?} lifetime slash"), &m, &Op::Slash(2, Some(5)), &c) else { return };
            m = n;
            if *f > Phase0 {
                m.prev_part = vec![7; 8];
                m.cur_part = vec![7; 8];
            }
            let mut charged = 0;
            for _ in 0..10 {
                let before = m.balances[2];
                let end = (m.slot / 4) * 4 + 3;
                m = at_slot(&m, end);
                let Some(n) = step(run, || format!("{f:?} lifetime penalty"), &m, &Op::Slashings, &c) else { return };
                charged += (n.balances[2] != before) as u32;
                m = n;
                let Some(n) = step(run, || format!("{f:?} lifetime boundary"), &m, &Op::Slots(end + 1), &c) else { return };
                m = n;
                // a second offence of the same validator is none
                let s = m.clone();
                let (h1, mut h2) = (BeaconBlockHeader { slot: s.slot, proposer_index: 2, ..Default::default() }, BeaconBlockHeader { slot: s.slot, proposer_index: 2, ..Default::default() });
                h2.body_root = root(8);
                let x = ProposerSlashing { signed_header_1: header_sig(&s, &h1, 2, &c), signed_header_2: header_sig(&s, &h2, 2, &c) };
                if step(run, || format!("{f:?} lifetime again"), &s, &Op::PSlash(x), &c).is_some() {
                    run.fail(format!("{f:?} slashed twice"), || "accepted".into());
                }
            }
            if charged > 1 {
                run.fail(format!("{f:?} charged {charged} times"), || format!("{:?}", m.validators[2]));
            }
            run.trace();
        }
    });
    run.part("lifetimes");
}
fn l_data(d: &AttestationData) -> &AttestationData {
    d
}

pub fn c16(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    let n = 16;
    // every attester of every pattern of bits
    for f in FORKS {
        let m = base(f, 16, 10, &c);
        for slot in [4u64, 7, 9, 10] {
            let sets: &[&[usize]] =
                if f == Electra { &[&[0], &[1], &[0, 1], &[]] } else { &[&[0], &[1]] };
            for which in sets {
                let len: usize =
                    which.iter().map(|i| m.committee(slot, *i, &c).unwrap().len()).sum();
                for extra in [0isize, 1, -1] {
                    let n = (len as isize + extra).max(0) as usize;
                    for b in 0..1u32 << n {
                        let mut a = Att { data: att_data(&m, slot, which.first().copied().unwrap_or(0), &c), ..Att::default() };
                        if f == Electra {
                            a.data.index = 0;
                            a.cbits = vec![which.contains(&0), which.contains(&1)];
                        }
                        a.bits = (0..n).map(|i| b >> i & 1 == 1).collect();
                        run.state();
                        query(run, || format!("{f:?} get_attesting_indices slot={slot} committees={which:?} bits={b:b}/{n}"), &m, &Q::Attesting(a), &c);
                    }
                }
            }
        }
    }
    run.part("attesting indices");

    // Every attestation around every state slot: its place, its votes, its faults.
    let state_slots = run.pick(vec![1u64, 4, 5, 8, 11, 14], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
    run.bound(format!("attestations at state slots {state_slots:?}: every slot from 0 to one past, committees 0..=2, 4 votes (target and head right or wrong) x 4 sources x 4 target epochs x 9 faults of bits and signature; every fork"));
    let jobs: Vec<_> = FORKS.iter().flat_map(|f| state_slots.iter().map(move |s| (*f, *s))).collect();
    parallel(&jobs, |(f, ss)| {
        let mut m = base(*f, n, *ss, &c);
        if *f > Phase0 {
            for i in 0..n {
                m.prev_part[i] = [0, 7, 2, 4][i % 4];
                m.cur_part[i] = [1, 0, 6, 0][i % 4];
            }
        }
        for slot in (0..=ss + 1).chain([u64::MAX]) {
            for com in 0..3usize {
                for vote in 0..4 {
                    for source in 0..4 {
                        for te in 0..4u64 {
                            let few = vote == 0 && source == 0 && te == 0;
                            for fault in 0..if few { 10 } else { 1 } {
                                let e = slot / 4;
                                let near = slot.min(ss + 1);
                                let mut d = att_data(&m, near, if *f == Electra { 0 } else { com }, &c);
                                d.slot = slot;
                                d.target.epoch = e;
                                if vote & 1 == 1 {
                                    d.beacon_block_root = root(800);
                                }
                                if vote & 2 == 2 {
                                    d.target.root = root(801);
                                }
                                match source {
                                    1 => d.source.root = root(802),
                                    2 => d.source.epoch = d.source.epoch.wrapping_add(1),
                                    3 => {
                                        d.source = if d.source == m.cj { m.pj.clone() } else { m.cj.clone() }
                                    }
                                    _ => {}
                                }
                                match te {
                                    1 => d.target.epoch = e.wrapping_sub(1),
                                    2 => d.target.epoch = e + 1,
                                    3 => d.target.epoch = m.epoch(&c),
                                    _ => {}
                                }
                                let which: Vec<usize> = if *f == Electra {
                                    [vec![0], vec![1], vec![0, 1]][com].clone()
                                } else {
                                    vec![com]
                                };
                                let mut members = vec![];
                                for w in &which {
                                    members.extend(m.committee(near, *w, &c).unwrap_or(vec![0, 1]));
                                }
                                let mut bits = vec![true; members.len()];
                                let mut cbits: Vec<bool> =
                                    (0..MCPS).map(|i| which.contains(&i)).collect();
                                if *f != Electra {
                                    cbits.clear();
                                }
                                if com == 1 {
                                    bits[0] = false;
                                }
                                let who: Vec<usize> = members
                                    .iter()
                                    .zip(&bits)
                                    .filter(|x| *x.1)
                                    .map(|x| *x.0)
                                    .collect();
                                let mut sig = att_sig(&m, &d, &who, &c);
                                match fault {
                                    1 => bits.push(true),
                                    2 => {
                                        bits.pop();
                                    }
                                    3 => {
                                        bits = vec![false; members.len()];
                                        sig = infinity();
                                    }
                                    4 => sig = att_sig(&m, &d, &who[1..], &c),
                                    5 => {
                                        let mut w = who.clone();
                                        w.push((0..n).find(|i| !members.contains(i)).unwrap());
                                        sig = att_sig(&m, &d, &w, &c);
                                    }
                                    6 => sig = BlsSignature::default(),
                                    7 => {
                                        let mut o = d.clone();
                                        o.beacon_block_root = root(803);
                                        sig = att_sig(&m, &o, &who, &c);
                                    }
                                    8 => {
                                        if *f == Electra {
                                            d.index = 1;
                                            sig = att_sig(&m, &d, &who, &c);
                                        } else {
                                            d.index = usize::MAX;
                                        }
                                    }
                                    9 => {
                                        let v = if d.target.epoch < m.fork.epoch { m.fork.current_version } else { m.fork.previous_version };
                                        let dom = domain(BEACON_ATTESTER, v, &m.genesis_validators_root);
                                        sig = sign_all(&who, &signing_root(&htr(&d), &dom));
                                    }
                                    _ => {}
                                }
                                if bits.len() > cfg::MVPC && *f != Electra {
                                    continue;
                                }
                                run.state();
                                let a = Att { bits, data: d, cbits, sig };
                                step(run, || format!("{f:?} attestation state={ss} slot={slot} committee={com} vote={vote} source={source} target={te} fault={fault}"), &m, &Op::Att(a), &c);
                            }
                        }
                    }
                }
            }
        }
        run.trace();
    });
    run.part("attestations");

    run.bound("electra, one committee a slot: committee bits naming a committee there is not, alone and beside the one there is, signed by the members of the committee that comes next; every pattern of bits");
    for ss in [9u64, 10, 11, 13] {
        let m = base(Electra, 13, ss, &c);
        for slot in ss.saturating_sub(5)..ss {
            if slot % 4 == 3 || m.committee_count(slot / 4, &c) != 1 {
                continue;
            }
            let next = m.committee(slot + 1, 0, &c).unwrap();
            for which in [vec![1usize], vec![0, 1]] {
                let mut members = vec![];
                if which.contains(&0) {
                    members.extend(m.committee(slot, 0, &c).unwrap());
                }
                members.extend(&next);
                for b in 0..1u32 << members.len() {
                    let bits: Vec<bool> = (0..members.len()).map(|i| b >> i & 1 == 1).collect();
                    let who: Vec<usize> = members.iter().zip(&bits).filter(|x| *x.1).map(|x| *x.0).collect();
                    let data = att_data(&m, slot, 0, &c);
                    let sig = att_sig(&m, &data, &who, &c);
                    let cbits = (0..MCPS).map(|i| which.contains(&i)).collect();
                    run.state();
                    step(run, || format!("electra committees={which:?} of 1 state={ss} slot={slot} bits={b:b}"), &m, &Op::Att(Att { bits, data, cbits, sig }), &c);
                }
            }
        }
    }
    run.part("committees there are not");

    // Committees of odd sizes, every pattern of bits, every earlier credit.
    let sizes = run.pick(vec![5usize, 13], vec![4, 5, 9, 13, 19, 24]);
    run.bound(format!("registries of {sizes:?}: every pattern of bits of every committee (and, in electra, set of committees) at 4 inclusion delays, over 3 backgrounds of earlier credit"));
    let jobs: Vec<_> = FORKS.iter().flat_map(|f| sizes.iter().map(move |s| (*f, *s))).collect();
    parallel(&jobs, |(f, n)| {
        for back in 0..3u8 {
            for (ss, slots) in [(11u64, [10u64, 9, 8, 7]), (9, [8, 7, 6, 5])] {
                let mut m = base(*f, *n, ss, &c);
                for i in 0..*n {
                    m.validators[i].effective_balance = (32 - (i as u64 * 5) % 17) * ETH;
                    if *f > Phase0 {
                        m.prev_part[i] = [0, 7, (i % 8) as u8][back as usize];
                        m.cur_part[i] = [0, 7, ((i + 3) % 8) as u8][back as usize];
                    }
                }
                for slot in slots {
                    let count = m.committee_count(slot / 4, &c) as usize;
                    let mut sets: Vec<Vec<usize>> = (0..count).map(|i| vec![i]).collect();
                    if *f == Electra && count > 1 {
                        sets.push(vec![0, 1]);
                    }
                    for which in sets {
                        let len: usize = which.iter().map(|i| m.committee(slot, *i, &c).unwrap().len()).sum();
                        if len > run.pick(6, 8) {
                            continue;
                        }
                        for b in 1..1u32 << len {
                            let bits: Vec<bool> = (0..len).map(|i| b >> i & 1 == 1).collect();
                            run.state();
                            step(run, || format!("{f:?} credit n={n} background={back} state={ss} slot={slot} committees={which:?} bits={b:b}"), &m, &Op::Att(att(&m, slot, &which, &bits, &c)), &c);
                        }
                    }
                }
            }
        }
    });
    run.part("credit");
    // Full lists of pending attestations.
    let mut m = base(Phase0, 8, 9, &c);
    let a = att(&m, 8, &[0], &[true], &c);
    let b = att(&m, 7, &[0], &[true], &c);
    for i in 0..PAB {
        for (name, x) in [("current", &a), ("previous", &b)] {
            if let Some(n) = step(run, || format!("Phase0 pending {name} {i}"), &m, &Op::Att(x.clone()), &c) {
                m = n;
            }
        }
    }
    for f in &FORKS[1..] {
        let m = base(*f, 16, 11, &c);
        for delay in 0..14u64 {
            for slot in 4..11u64 {
                for v in 0..4 {
                    let mut d = att_data(&m, slot, 0, &c);
                    if v & 1 == 1 {
                        d.beacon_block_root = root(800);
                    }
                    if v & 2 == 2 {
                        d.target.root = root(801);
                    }
                    run.state();
                    query(run, || format!("{f:?} participation flags delay={delay} slot={slot} vote={v}"), &m, &Q::Flags(d, delay), &c);
                }
            }
        }
    }
    run.part("flags");
}

pub fn c17(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    run.bound("headers: state slots 1, 4, 9, 30, 33, 74 (beyond the randao vector), last block 0..=slot; 14 alterations of the block; randao: 7 alterations; every fork");
    parallel(&FORKS, |f| {
        for slot in [1u64, 4, 9, 30, 33, 74] {
            for back in 0..3u64 {
                let mut m = base(*f, 8, slot, &c);
                m.header.slot = slot.saturating_sub(back);
                let d = draft(&m, &c).unwrap();
                let p = d.proposer;
                for alter in 0..14 {
                    let (mut m, mut b) = (m.clone(), d.clone());
                    match alter {
                        1 => b.slot += 1,
                        2 => b.slot -= 1,
                        3 => b.slot = u64::MAX,
                        4 => b.proposer = (p + 1) % 8,
                        5 => b.proposer = 8,
                        6 => b.proposer = usize::MAX,
                        7 => b.parent_root = root(9),
                        8 => b.parent_root = Root::default(),
                        9 => m.validators[p].slashed = true,
                        10 => b.state_root = root(10),
                        11 => b.graffiti = b32(hash_n(99)),
                        12 => m.header.state_root = Root::default(),
                        13 => {
                            m.validators[(p + 1) % 8].slashed = true;
                            b.atts = vec![Att { bits: vec![true], ..Att::default() }];
                            if *f == Electra {
                                b.atts[0].cbits = vec![false, true];
                            }
                        }
                        _ => {}
                    }
                    run.state();
                    step(run, || format!("{f:?} header slot={slot} back={back} alteration={alter}"), &m, &Op::Header(b), &c);
                }
                // the reveal
                for alter in 0..7 {
                    let mut b = d.clone();
                    let e = m.epoch(&c);
                    let k = who(&m.validators[p].public_key);
                    match alter {
                        1 => b.randao = sign((p + 1) % 8, &signing_root(&uint_root(e), &m.domain(RANDAO, None, &c))),
                        2 => b.randao = sign(k, &signing_root(&uint_root(e + 1), &m.domain(RANDAO, None, &c))),
                        3 => b.randao = sign(k, &signing_root(&uint_root(e), &m.domain(BEACON_PROPOSER, None, &c))),
                        4 => b.randao = BlsSignature::default(),
                        5 => b.randao = infinity(),
                        6 => {
                            let v = if *f == Phase0 { [9, 9, 9, 9] } else { m.fork.previous_version };
                            b.randao = sign(k, &signing_root(&uint_root(e), &domain(RANDAO, v, &m.genesis_validators_root)));
                        }
                        _ => {}
                    }
                    run.state();
                    step(run, || format!("{f:?} randao slot={slot} alteration={alter}"), &m, &Op::Randao(b), &c);
                }
            }
        }
        // the fork's version decides from its epoch on
        for fe in 0..5u64 {
            let mut m = base(*f, 8, 9, &c);
            m.fork.epoch = fe;
            let b = draft(&m, &c).unwrap();
            step(run, || format!("{f:?} randao fork epoch={fe}"), &m, &Op::Randao(b), &c);
        }
    });
    run.part("headers and reveals");

    let n = (c.epochs_per_eth1_voting_period * c.slots_per_epoch) as usize;
    let len = run.pick(7usize, 8);
    run.bound(format!("eth1 votes: every sequence of up to {len} votes for 3 candidates (one of them the adopted data) in a period of {n} slots, with the adopted data followed through; resets at every epoch"));
    let mut jobs = vec![];
    for f in FORKS {
        for t in 0..9usize {
            jobs.push((f, t));
        }
    }
    parallel(&jobs, |(f, t)| {
        let cand: Vec<Eth1Data> = (0..3)
            .map(|i| Eth1Data { deposit_root: root(3), deposit_count: 8 + i, block_hash: b32(hash_n(4)) })
            .collect();
        let mut stack = vec![];
        let m = base(*f, 8, 1, &c);
        stack.push((m, 0usize));
        while let Some((m, d)) = stack.pop() {
            if d == len {
                run.trace();
                continue;
            }
            let choices: Vec<usize> = match d {
                0 => vec![t % 3],
                1 => vec![t / 3],
                _ => vec![0, 1, 2],
            };
            for v in choices {
                let b = Blk { eth1: cand[v].clone(), ..draft_plain(&m) };
                run.state();
                if let Some(n) = step(run, || format!("{f:?} eth1 vote {}", d + 1), &m, &Op::Eth1(b), &c) {
                    stack.push((n, d + 1));
                }
            }
        }
    });
    for f in FORKS {
        for slot in 0..40u64 {
            let mut m = base(f, 4, slot, &c);
            m.votes = vec![m.eth1_data.clone(); 3];
            step(run, || format!("{f:?} eth1 reset slot={slot}"), &m, &Op::Eth1Reset, &c);
            step(run, || format!("{f:?} randao reset slot={slot}"), &m, &Op::RandaoReset, &c);
        }
    }
    run.part("eth1 votes");
}
/// A block with nothing in it, for functions that read one field.
pub fn draft_plain(m: &M) -> Blk {
    Blk {
        slot: m.slot,
        agg: Agg { bits: vec![false; SYNC], sig: infinity() },
        payload: Pay { logs_bloom: vec![0; BLOOM], ..Pay::default() },
        ..Blk::default()
    }
}

pub fn c18(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    // What is deposited: who, with which credentials, how much, and how it is signed.
    let amounts = [0u64, 1, ETH - 1, ETH, 31 * ETH + 5, 32 * ETH, 40 * ETH, 2048 * ETH];
    run.bound("single deposits: keys {new, every known one, malformed, not in the group, identity}, 4 credential kinds, 8 amounts, 6 signature forms, 10 alterations of proof, position and root; starting positions 0..=9; every fork");
    let keys: Vec<usize> = vec![0, 1, 3, 50];
    let jobs: Vec<_> = FORKS.iter().flat_map(|f| (0..10u64).map(move |p| (*f, p))).collect();
    parallel(&jobs, |(f, pos)| {
        let mut m0 = base(*f, 4, 9, &c);
        m0.deposit_index = *pos;
        m0.validators[1].withdrawal_credentials = creds(1, 1);
        m0.validators[3].withdrawal_credentials = creds(0, 3);
        m0.balances[1] = 33 * ETH;
        if *f == Electra {
            m0.pend_dep = vec![PendingBalanceDeposit { index: 2, amount: 5 }];
        }
        for k in &keys {
            for kind in [0u8, 1, 2, 7] {
                for (ai, amount) in amounts.iter().enumerate() {
                    if *pos > 1 && ai % 3 != 2 {
                        continue;
                    }
                    for sigf in 0..6 {
                        let mut d = deposit_data(*k, kind, *amount, *k, &c);
                        match sigf {
                            1 => d = deposit_data(*k, kind, *amount, k + 1, &c),
                            2 => d.signature = BlsSignature::default(),
                            3 => d.signature = infinity(),
                            4 => {
                                d.signature = deposit_data(*k, kind, amount + 1, *k, &c).signature
                            }
                            5 => {
                                let msg = DepositMessage { public_key: d.public_key.clone(), withdrawal_credentials: d.withdrawal_credentials.clone(), amount: *amount };
                                d.signature = sign(*k, &signing_root(&htr(&msg), &domain(DEPOSIT, m0.fork.current_version, &m0.genesis_validators_root)));
                            }
                            _ => {}
                        }
                        let mut m = m0.clone();
                        let ds = queue_deposits(&mut m, &[d]);
                        run.state();
                        step(run, || format!("{f:?} deposit position={pos} key={k} kind={kind} amount={amount} signature={sigf}"), &m, &Op::Deposit(ds[0].clone()), &c);
                    }
                }
            }
        }
        // malformed keys
        for bad in 0..4u8 {
            let mut d = deposit_data(60, 0, 32 * ETH, 60, &c);
            let mut k = [0u8; 48];
            match bad {
                1 => k[0] = 0xc0,
                2 => k = [0xff; 48],
                3 => {
                    k.copy_from_slice(pk(60).as_ref());
                    k[0] ^= 0x40;
                }
                _ => {}
            }
            d.public_key = BlsPublicKey::try_from(&k[..]).unwrap();
            let mut m = m0.clone();
            let ds = queue_deposits(&mut m, &[d]);
            run.state();
            step(run, || format!("{f:?} deposit malformed key {bad}"), &m, &Op::Deposit(ds[0].clone()), &c);
        }
        // proofs
        let data: Vec<DepositData> = (0..3).map(|i| deposit_data(50 + i, 0, 32 * ETH, 50 + i, &c)).collect();
        let mut m = m0.clone();
        let ds = queue_deposits(&mut m, &data);
        for level in 0..33usize {
            let mut d = ds[0].clone();
            d.proof[level] = root(60);
            step(run, || format!("{f:?} deposit proof level {level}"), &m, &Op::Deposit(d), &c);
        }
        for alter in 0..9 {
            let (mut s, mut d) = (m.clone(), ds[0].clone());
            match alter {
                1 => d = ds[1].clone(),
                2 => d.proof = ds[1].proof.clone(),
                3 => d.data = ds[1].data.clone(),
                4 => s.deposit_index += 1,
                5 => s.eth1_data.deposit_root = root(61),
                6 => d.data.amount += 1,
                7 => d.data.signature = infinity(),
                8 => {
                    s.deposit_index += 1;
                    d = ds[1].clone();
                }
                _ => {}
            }
            run.state();
            step(run, || format!("{f:?} deposit proof position={pos} alteration={alter}"), &s, &Op::Deposit(d), &c);
        }
        run.trace();
    });
    run.part("single deposits");

    // The number of deposits a block must carry, and repeated keys within it.
    run.bound("blocks of 0..=2 deposits against 0..=4 outstanding (and counts below the position), keys equal or not, with and without the receipts start of electra");
    parallel(&FORKS, |f| {
        for outstanding in 0..5usize {
            for carried in 0..=DEPOSITS {
                for same in 0..3 {
                    for start in [u64::MAX, 0, 5, 6, 7, 9] {
                        if *f != Electra && start != u64::MAX {
                            continue;
                        }
                        let mut m = base(*f, 4, 9, &c);
                        m.deposit_index = 5;
                        m.receipts_start = if *f == Electra { start } else { 0 };
                        let data: Vec<DepositData> = (0..4)
                            .map(|i| match same {
                                0 => deposit_data(50 + i, 1, 32 * ETH, 50 + i, &c),
                                1 => deposit_data(50, (i == 1) as u8 * 2, 20 * ETH, 50 + (i == 0) as usize, &c),
                                _ => deposit_data(i, 1, ETH, i, &c),
                            })
                            .collect();
                        let ds = queue_deposits(&mut m, &data[..outstanding.min(4)]);
                        if outstanding == 4 && same == 2 {
                            m.eth1_data.deposit_count = 4; // fewer than already applied
                        }
                        let mut b = draft(&m, &c).unwrap();
                        b.deposits = ds.iter().take(carried).cloned().collect();
                        if carried > ds.len() {
                            b.deposits = vec![Deposit { proof: proof_vec(&vec![Root::default(); 33]), data: data[0].clone() }; carried];
                        }
                        run.state();
                        let pos = m.eth1_data.deposit_count;
                        step(run, || format!("{f:?} deposits outstanding={outstanding} count={pos} carried={carried} keys={same} start={start}"), &m, &Op::Operations(b), &c);
                    }
                }
            }
        }
        // the same deposit cannot be replayed
        let mut m = base(*f, 4, 9, &c);
        let ds = queue_deposits(&mut m, &[deposit_data(50, 1, 32 * ETH, 50, &c)]);
        if let Some(n) = step(run, || format!("{f:?} deposit first"), &m, &Op::Deposit(ds[0].clone()), &c) {
            step(run, || format!("{f:?} deposit replayed"), &n, &Op::Deposit(ds[0].clone()), &c);
        }
        run.trace();
    });
    run.part("blocks of deposits");
}

pub fn c19(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    run.bound("exits: activation epochs 0..=9 x exit epochs {far, due, later} x states at epochs 3..=9 x exit message epochs 0..=10 and extremes x 6 signature faults; every fork");
    let jobs: Vec<_> = FORKS.iter().flat_map(|f| (3..10u64).map(move |e| (*f, e))).collect();
    parallel(&jobs, |(f, e)| {
        for act in (0..10u64).chain([FAR]) {
            for elig in [0u64, 2] {
                for ex in [FAR, *e, e + 1, e + 9] {
                    let mut m = base(*f, 8, e * 4 + 1, &c);
                    m.fork.epoch = 4;
                    let v = &mut m.validators[3];
                    v.activation_eligibility_epoch = elig.min(act);
                    v.activation_epoch = act;
                    v.exit_epoch = ex;
                    if ex != FAR {
                        v.withdrawable_epoch = ex + 3;
                    }
                    for at in (0..11u64).chain([FAR]) {
                        for fault in 0..6 {
                            let mut x = exit(&m, 3, at, 3, &c);
                            match fault {
                                1 => x = exit(&m, 3, at, 4, &c),
                                2 => x.message.validator_index = 4,
                                3 => x.signature = exit(&m, 3, at ^ 1, 3, &c).signature,
                                4 => {
                                    // the versions of every other fork
                                    let v = if *f >= Deneb || at >= m.fork.epoch { m.fork.previous_version } else { m.fork.current_version };
                                    let d = domain(VOLUNTARY_EXIT, v, &m.genesis_validators_root);
                                    x.signature = sign(3, &signing_root(&htr(&x.message), &d));
                                }
                                5 => {
                                    let d = domain(VOLUNTARY_EXIT, m.fork.current_version, &m.genesis_validators_root);
                                    x.signature = sign(3, &signing_root(&htr(&x.message), &d));
                                }
                                _ => {}
                            }
                            run.state();
                            step(run, || format!("{f:?} exit at epoch {e} activated={act} eligible={elig} exit={ex} message={at} fault={fault}"), &m, &Op::Exit(x), &c);
                        }
                    }
                }
            }
        }
        let m = base(*f, 8, e * 4 + 1, &c);
        for i in [8usize, 100, usize::MAX] {
            step(run, || format!("{f:?} exit of unknown {i}"), &m, &Op::Exit(SignedVoluntaryExit { message: VoluntaryExit { epoch: 0, validator_index: i }, signature: infinity() }), &c);
        }
        if *f == Electra {
            for amount in [0u64, 1] {
                let mut m = m.clone();
                m.pend_wd = vec![PendingPartialWithdrawal { index: 3, amount, withdrawable_epoch: 20 }];
                for i in [2usize, 3] {
                    step(run, || format!("{f:?} exit with a pending withdrawal of {amount}, validator {i}"), &m, &Op::Exit(exit(&m, i, 0, i, &c)), &c);
                }
            }
        }
        run.trace();
    });
    run.part("exits");
    run.bound("credential changes: validators with credentials of 4 kinds (and of the same 4 over the hash of the key), source key right or not, signer right or not, domain of 4 kinds, altered last byte and prefix, index in and out of range; capella on");
    for f in &FORKS[3..] {
        for kind in [0u8, 1, 2, 7] {
            for i in [0usize, 3, 8, usize::MAX] {
                for from in [0usize, 3, 5] {
                    for signer in [0usize, 3, 5] {
                        for fault in 0..8 {
                            let mut m = base(*f, 8, 21, &c);
                            for j in [0usize, 3] {
                                m.validators[j].withdrawal_credentials = creds(kind, j);
                            }
                            let mut x = change(&m, i.min(100), from, signer, &c);
                            x.message.validator_index = i;
                            match fault {
                                1 => x.message.to_execution_address = address(1),
                                2 => {
                                    let d = domain(BLS_TO_EXECUTION_CHANGE, m.fork.current_version, &m.genesis_validators_root);
                                    x.signature = sign(signer, &signing_root(&htr(&x.message), &d));
                                }
                                3 => {
                                    let d = domain(BLS_TO_EXECUTION_CHANGE, c.genesis_fork_version, &Root::default());
                                    x.signature = sign(signer, &signing_root(&htr(&x.message), &d));
                                }
                                4 => {
                                    let mut w = raw(&m.validators[3].withdrawal_credentials);
                                    w[31] ^= 1;
                                    m.validators[3].withdrawal_credentials = b32(w);
                                }
                                5 => {
                                    let mut w = raw(&m.validators[3].withdrawal_credentials);
                                    w[1] ^= 0x80;
                                    m.validators[3].withdrawal_credentials = b32(w);
                                }
                                6 => x.signature = BlsSignature::default(),
                                7 => {
                                    for j in [0usize, 3] {
                                        let mut w = raw(&creds(0, j));
                                        w[0] = kind;
                                        m.validators[j].withdrawal_credentials = b32(w);
                                    }
                                }
                                _ => {}
                            }
                            run.state();
                            step(run, || format!("{f:?} change kind={kind} index={i} from={from} signer={signer} fault={fault}"), &m, &Op::Change(x), &c);
                        }
                    }
                }
            }
        }
    }
    run.part("credential changes");
}

pub fn c22(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    let committees: Vec<Vec<usize>> = run.pick(
        vec![vec![0, 1, 2, 3], vec![5, 5, 5, 5], vec![0, 1, 0, 1], vec![7, 2, 3, 7]],
        tuples(4, 4).map(|t| t.iter().map(|i| i * 2).collect()).collect(),
    );
    run.bound(format!("sync aggregates: {} committees (repeated members included) x 16 participation patterns x 8 signature forms x 4 slots x 3 balance patterns; altair on", committees.len()));
    let jobs: Vec<_> = FORKS[1..].iter().flat_map(|f| committees.iter().map(move |k| (*f, k))).collect();
    parallel(&jobs, |(f, k)| {
        for slot in [1u64, 4, 8, 14] {
            for bal in 0..3 {
                let mut m = base(*f, 8, slot, &c);
                m.sync = committee_of(k);
                m.fork.epoch = 2;
                for i in 0..8 {
                    match bal {
                        1 => m.balances[i] = 3,
                        2 => {
                            m.balances[i] = 0;
                            m.validators[i].effective_balance = (i as u64) * ETH;
                        }
                        _ => {}
                    }
                }
                for b in 0..16usize {
                    let bits: Vec<bool> = (0..4).map(|i| b >> i & 1 == 1).collect();
                    let signers: Vec<usize> = (0..4).filter(|i| bits[*i]).map(|i| k[i]).collect();
                    for fault in 0..if bal == 0 { 8 } else { 1 } {
                        let mut a = sync_agg(&m, &bits, &c);
                        let s = slot.max(1) - 1;
                        let d = m.domain(SYNC_COMMITTEE, Some(s / 4), &c);
                        let msg = m.root_at(s).unwrap();
                        match fault {
                            1 => a.sig = infinity(),
                            2 => a.sig = BlsSignature::default(),
                            3 => {
                                let mut w = signers.clone();
                                w.push(6);
                                a.sig = sign_all(&w, &signing_root(&msg, &d));
                            }
                            4 => a.sig = sign_all(&signers[signers.len().min(1)..], &signing_root(&msg, &d)),
                            5 => a.sig = sign_all(&signers, &signing_root(&root(70), &d)),
                            6 => {
                                let o = if s / 4 < 2 { m.fork.current_version } else { m.fork.previous_version };
                                a.sig = sign_all(&signers, &signing_root(&msg, &domain(SYNC_COMMITTEE, o, &m.genesis_validators_root)));
                            }
                            7 => a.bits[3] = !a.bits[3],
                            _ => {}
                        }
                        run.state();
                        step(run, || format!("{f:?} sync aggregate committee={k:?} slot={slot} balances={bal} bits={b:04b} fault={fault}"), &m, &Op::Sync(a), &c);
                    }
                }
            }
        }
        run.trace();
    });
    run.part("aggregates");
    for f in &FORKS[1..] {
        for slot in 0..33u64 {
            let m = base(*f, 9, slot, &c);
            run.state();
            step(run, || format!("{f:?} sync committee update slot={slot}"), &m, &Op::SyncUpdate, &c);
        }
    }
    run.part("rotation");
}
