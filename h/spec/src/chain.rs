//! C21 whole blocks, C27 upgrades, C28 chains across forks.
use crate::{cfg::*, crypto::*, gen::*, m::*, real, spec};
use mc::{digest, layers, parallel, tuples, Run};

/// A state on which every kind of operation is possible.
pub fn rich(f: F, slot: u64, c: &Context) -> M {
    let mut m = base(f, 16, slot, c);
    let e = slot / SPE;
    if f >= Capella {
        m.validators[5].withdrawal_credentials = creds(0, 5);
        m.validators[6].withdrawal_credentials = creds(0, 6);
        m.balances[7] = 33 * ETH;
        m.validators[8].withdrawable_epoch = e;
        m.validators[8].exit_epoch = e.saturating_sub(1);
        m.validators[8].withdrawal_credentials = creds(1, 8);
        m.validators[9].withdrawal_credentials = creds(1, 9);
        m.balances[9] = 40 * ETH;
    }
    if f == Electra {
        for i in 0..16 {
            if prefix(&m.validators[i]) == 2 {
                m.validators[i].effective_balance = 64 * ETH;
                m.balances[i] = 64 * ETH + i as u64;
            }
        }
        m.exit_btc = m.exit_churn(c);
        m.cons_btc = m.cons_churn(c);
        m.receipts_start = 100;
        m.pend_wd = vec![PendingPartialWithdrawal { index: 10, amount: ETH, withdrawable_epoch: e }];
    }
    if f > Phase0 {
        m.prev_part = (0..16).map(|i| (i % 8) as u8).collect();
        m.scores = (0..16).map(|i| i as u64).collect();
    }
    m
}
/// Someone to consolidate with: most compounding validators withdraw to one place.
pub fn partners(m: &mut M) {
    if m.f == Electra {
        for i in (0..16).filter(|i| *i != 10) {
            if prefix(&m.validators[i]) == 2 {
                m.validators[i].withdrawal_credentials = creds(2, 1);
            }
        }
    }
}
fn prefix(v: &Validator) -> u8 {
    v.withdrawal_credentials.as_ref()[0]
}

pub const KINDS: [&str; 13] = [
    "nothing", "proposer slashing", "attester slashing", "attestations", "deposits", "exit", "partial sync",
    "eth1 vote", "change", "blobs", "requests", "consolidation", "everything",
];
pub fn offers(f: F, kind: usize) -> bool {
    match KINDS[kind] {
        "partial sync" => f >= Altair,
        "change" => f >= Capella,
        "blobs" => f >= Deneb,
        "requests" | "consolidation" => f >= Electra,
        _ => true,
    }
}
/// Prepares the state before slots pass.
pub fn prepare(m: &mut M, kind: usize, c: &Context) -> Vec<Deposit> {
    if matches!(KINDS[kind], "deposits" | "everything") {
        let n = m.validators.len() + 30;
        let d = [deposit_data(n, 1, 32 * ETH, n, c), deposit_data(2, 0, ETH, 2, c)];
        queue_deposits(m, &d)
    } else {
        vec![]
    }
}
/// Puts operations of the kind into the block; `s` is the state at the slot of the block.
pub fn fill(s: &M, b: &mut Blk, kind: usize, deposits: &[Deposit], c: &Context) {
    let k = KINDS[kind];
    let all = k == "everything";
    let e = s.epoch(c);
    let free: Vec<usize> = (0..s.validators.len())
        .filter(|i| {
            let v = &s.validators[*i];
            *i != b.proposer && spec::active(v, e) && !v.slashed && v.exit_epoch == FAR && ![5, 6, 7, 10].contains(i)
                && (s.f < Electra || prefix(v) == 2)
        })
        .collect();
    if (k == "proposer slashing" || all) && free.len() > 0 {
        let h = |p: u64| BeaconBlockHeader { slot: s.slot, proposer_index: free[0], parent_root: root(p), ..Default::default() };
        let who = who(&s.validators[free[0]].public_key);
        b.pslash = vec![ProposerSlashing {
            signed_header_1: header_sig(s, &h(1), who, c),
            signed_header_2: header_sig(s, &h(2), who, c),
        }];
    }
    if (k == "attester slashing" || all) && free.len() > 2 {
        let d1 = AttestationData { slot: s.slot, target: Checkpoint { epoch: e, root: root(1) }, ..Default::default() };
        let d2 = AttestationData { target: Checkpoint { epoch: e, root: root(2) }, ..d1.clone() };
        b.aslash = vec![ASlash { a: idx(s, &d1, &[free[1], free[2]], c), b: idx(s, &d2, &free[1..3], c) }];
    }
    if (k == "attestations" || all) && s.slot > 0 {
        let x = s.slot - 1;
        let n = s.committee_count(x / SPE, c);
        if s.f == Electra {
            b.atts.push(att(s, x, &(0..n as usize).collect::<Vec<_>>(), &[true, false, true], c));
        } else {
            for i in 0..n as usize {
                b.atts.push(att(s, x, &[i], &[true, true, false], c));
            }
        }
        if s.slot >= SPE {
            b.atts.push(att(s, s.slot - SPE, &[0], &[true], c));
        }
    }
    b.deposits = deposits.to_vec();
    if (k == "exit" || all) && free.len() > 4 {
        b.exits = vec![exit(s, free[3], e, who(&s.validators[free[3]].public_key), c)];
    }
    if k == "partial sync" || (all && s.f > Phase0) {
        b.agg = sync_agg(s, &[true, false, false, true], c);
    }
    if k == "eth1 vote" || all {
        b.eth1 = Eth1Data { deposit_count: s.eth1_data.deposit_count, deposit_root: root(9), block_hash: b32(hash_n(8)) };
    }
    if s.f >= Capella && (k == "change" || all) && prefix(&s.validators[5]) == 0 {
        b.changes = vec![change(s, 5, 5, 5, c)];
    }
    if s.f >= Deneb && (k == "blobs" || all) {
        let mut v = [3u8; 48];
        v[0] = 0xc0;
        b.commitments = vec![KzgCommitment::try_from(&v[..]).unwrap(), KzgCommitment::default()];
        b.payload.blob_gas_used = 131072 * 2;
    }
    if s.f >= Electra && (k == "requests" || all) && free.len() > 5 {
        b.payload.requests = vec![
            ExecutionLayerWithdrawalRequest { source_address: address(10), validator_public_key: pk(10), amount: 5 },
            ExecutionLayerWithdrawalRequest { source_address: address(free[5]), validator_public_key: s.validators[free[5]].public_key.clone(), amount: 0 },
        ];
        let n = s.validators.len() + 40;
        b.payload.receipts = vec![receipt(n, 2, 40 * ETH, n, 7, c), receipt(1, 2, ETH, 1, 8, c)];
    }
    if s.f >= Electra && (k == "consolidation" || all) && free.len() > 8 {
        let (x, y) = (free[6], free[7]);
        // they have to withdraw to the same place
        if s.validators[x].withdrawal_credentials.as_ref()[12..] == s.validators[y].withdrawal_credentials.as_ref()[12..] {
            b.consolidations = vec![consolidation(s, x, y, e, &[who(&s.validators[x].public_key), who(&s.validators[y].public_key)], c)];
        }
    }
}

type Edit = (&'static str, fn(&M, &mut Blk, &Context));
/// Single changes of a valid block.
pub const EDITS: [Edit; 30] = [
    ("slot+1", |_, b, _| b.slot += 1),
    ("slot-1", |_, b, _| b.slot = b.slot.wrapping_sub(1)),
    ("proposer+1", |_, b, _| b.proposer += 1),
    ("proposer=unknown", |s, b, _| b.proposer = s.validators.len()),
    ("parent", |_, b, _| b.parent_root = root(99)),
    ("state root", |_, b, _| b.state_root = root(98)),
    ("randao by another", |s, b, c| {
        b.randao = sign(200, &signing_root(&uint_root(s.epoch(c)), &s.domain(RANDAO, None, c)))
    }),
    ("randao of another epoch", |s, b, c| {
        let w = who(&s.validators[b.proposer].public_key);
        b.randao = sign(w, &signing_root(&uint_root(s.epoch(c) + 1), &s.domain(RANDAO, None, c)))
    }),
    ("randao malformed", |_, b, _| b.randao = BlsSignature::default()),
    ("graffiti", |_, b, _| b.graffiti = b32(hash_n(97))),
    ("eth1", |_, b, _| b.eth1.block_hash = b32(hash_n(96))),
    ("drop proposer slashings", |_, b, _| b.pslash.clear()),
    ("same proposer slashing twice", |_, b, _| b.pslash.extend(b.pslash.clone())),
    ("same attester slashing twice", |_, b, _| b.aslash.extend(b.aslash.clone())),
    ("attestations reversed", |_, b, _| b.atts.reverse()),
    ("attestation twice", |_, b, _| b.atts.extend(b.atts.first().cloned())),
    ("attestation signature", |_, b, _| if let Some(a) = b.atts.first_mut() { a.sig = infinity() }),
    ("deposit dropped", |_, b, _| { b.deposits.pop(); }),
    ("deposits swapped", |_, b, _| b.deposits.reverse()),
    ("exit twice", |_, b, _| b.exits.extend(b.exits.clone())),
    ("exit of another", |s, b, _| if let Some(x) = b.exits.first_mut() { x.message.validator_index = (x.message.validator_index + 1) % s.validators.len() }),
    ("sync bits", |_, b, _| if let Some(x) = b.agg.bits.first_mut() { *x = !*x }),
    ("sync signature", |_, b, _| b.agg.sig = infinity()),
    ("payload parent", |_, b, _| b.payload.parent_hash = b32(hash_n(95))),
    ("payload randao", |_, b, _| b.payload.prev_randao = b32(hash_n(94))),
    ("payload time", |_, b, _| b.payload.timestamp += 1),
    ("payload block", |_, b, _| b.payload.block_hash = b32(hash_n(93))),
    ("withdrawal dropped", |_, b, _| { b.payload.withdrawals.pop(); }),
    ("withdrawal amount", |_, b, _| if let Some(w) = b.payload.withdrawals.first_mut() { w.amount += 1 }),
    ("change twice", |_, b, _| b.changes.extend(b.changes.clone())),
];

/// A block is taken exactly when it is valid, with and without validation, and to the same state.
fn verdicts(run: &Run, key: &dyn Fn() -> String, m: &M, b: &Blk, c: &Context) -> Option<M> {
    run.state();
    let off = step(run, || key() + " unchecked", m, &Op::Transition(b.clone(), false), c);
    let on = step(run, || key() + " checked", m, &Op::Transition(b.clone(), true), c);
    if let (Some(x), Some(y)) = (&on, &off) {
        run.eq(|| key() + " both ways", x, y);
    }
    on
}

pub fn c21(run: &Run) {
    let c = ctx();
    let depth = run.pick(3usize, 4);
    let gaps: &[u64] = run.pick(&[1, 2, 4][..], &[1, 2, 3, 4, 9][..]);
    run.bound(format!("every fork; all sequences of {depth} steps, each a gap of {gaps:?} slots and then an empty block, a block full of every operation, or none; from four starting slots"));
    run.bound("every fork, kind of operation, gap of 1, 2 or 4 slots and starting slot 20..=23: the valid block, 30 single alterations of it, unsigned, signed again, and with its state root claimed again; 10 alterations of the proposer's signature");
    run.assume("the execution engine and the timing of blocks are outside of the state transition");
    let jobs: Vec<_> = FORKS.iter().flat_map(|f| (20..24u64).map(move |s| (*f, s))).collect();
    // Whole blocks and every alteration.
    let mut deep = vec![];
    for (f, s) in &jobs {
        for k in 0..KINDS.len() {
            if offers(*f, k) {
                for g in [1u64, 2, 4] {
                    deep.push((*f, *s, k, g));
                }
            }
        }
    }
    parallel(&deep, |(f, at, k, gap)| {
        let mut m = rich(*f, *at, &c);
        partners(&mut m);
        let d = prepare(&mut m, *k, &c);
        let (s, b) = block(&m, at + gap, &c, |s, b| fill(s, b, *k, &d, &c));
        let name = |x: &str| format!("{f:?} slot={at}+{gap} block with {} {x}", KINDS[*k]);
        if verdicts(run, &|| name("as it is"), &m, &b, &c).is_none() {
            panic!("not a valid block: {}: {:?}", name(""), spec::apply(&m, &Op::Transition(b, true), &c).err());
        }
        run.trace();
        for (what, edit) in EDITS {
            let mut x = b.clone();
            edit(&s, &mut x, &c);
            if x == b {
                continue;
            }
            let fits = x.pslash.len() <= PSLASH && x.aslash.len() <= ASLASH && x.atts.len() <= ATTS && x.exits.len() <= EXITS && x.changes.len() <= CHANGES;
            if !fits {
                continue;
            }
            verdicts(run, &|| name(&format!("with {what}")), &m, &x, &c);
            resign(&s, &mut x, &c);
            verdicts(run, &|| name(&format!("with {what}, signed")), &m, &x, &c);
            if what != "state root" {
                seal(&s, &mut x, &c);
                verdicts(run, &|| name(&format!("with {what}, sealed")), &m, &x, &c);
            }
        }
        let r = raw(&real::block_root(*f, &b));
        let _ = r;
        let w = who(&m.validators[b.proposer].public_key);
        let dom = s.domain(BEACON_PROPOSER, None, &c);
        let msg = signing_root(&real::block_root(*f, &b), &dom);
        let header = BeaconBlockHeader { slot: b.slot, proposer_index: b.proposer, parent_root: b.parent_root, state_root: b.state_root, body_root: real::body_root(*f, &b) };
        run.eq(|| name("root of the header form"), &real::block_root(*f, &b), &htr(&header));
        let sigs: Vec<(&str, BlsSignature)> = vec![
            ("another signer", sign(w ^ 1, &msg)),
            ("infinity", infinity()),
            ("zeros", BlsSignature::default()),
            ("the bare root", sign(w, &raw(&real::block_root(*f, &b)))),
            ("the attester domain", sign(w, &signing_root(&real::block_root(*f, &b), &s.domain(BEACON_ATTESTER, None, &c)))),
            ("the fork before", sign(w, &signing_root(&real::block_root(*f, &b), &domain(BEACON_PROPOSER, [9, 9, 9, 9], &s.genesis_validators_root)))),
            ("another chain", sign(w, &signing_root(&real::block_root(*f, &b), &domain(BEACON_PROPOSER, s.fork.current_version, &root(55))))),
            ("the body", sign(w, &signing_root(&real::body_root(*f, &b), &dom))),
            ("the proposer and another", sign_all(&[w, w ^ 1], &msg)),
            ("the header form", sign(w, &signing_root(&htr(&header), &dom))),
        ];
        for (what, sg) in sigs {
            let mut x = b.clone();
            x.sig = sg;
            verdicts(run, &|| name(&format!("signature {what}")), &m, &x, &c);
            query(run, || name(&format!("signature check {what}")), &s, &Q::BlockSig(x), &c);
        }
    });
    run.part("single blocks");
    // Histories.
    let n = gaps.len() * 3;
    let start = jobs.iter().map(|(f, at)| (rich(*f, *at, &c), format!("{f:?} history from {at}:")));
    layers(run, start.collect(), depth, |s| digest(&s.0), |(m, path), _, ch| {
        let mut m = m.clone();
        let x = ch.choose(n);
        let (gap, what) = (gaps[x / 3], x % 3);
        let slot = m.slot + gap;
        let path = format!("{path} +{gap} {}", ["skip", "empty", "full"][what]);
        let next = if what == 0 {
            step(run, || path.clone(), &m, &Op::Slots(slot), &c)
        } else {
            let k = if what == 1 { 0 } else { KINDS.len() - 1 };
            let kinds = if m.f == Electra { 0 } else { k };
            let d = prepare(&mut m, kinds, &c);
            let (_, b) = block(&m, slot, &c, |s, b| fill(s, b, k, &d, &c));
            step(run, || path.clone(), &m, &Op::Transition(b, true), &c)
        };
        next.map(|n| (n, path))
    });
    run.part("histories");
}

pub fn c27(run: &Run) {
    crate::later::set(true);
    let c = ctx();
    let far = [0u64, 5, 6, FAR];
    run.bound("every fork's state with every field populated, at 8 slots, upgraded, and all chains of upgrades from it; before altair every pattern of up to 3 recorded attestations over 4 committees x 3 votes x 2 delays; before electra all records of 3 validators over 4 activation, eligibility and exit epochs, 3 credentials and 5 balances");
    // Everything populated.
    parallel(&FORKS[..5], |f| {
        for at in 4..12u64 {
            for variant in 0..6 {
                let mut m = rich(*f, at * 3, &c);
                m.historical_roots = if *f < Capella { (0..variant).map(|i| root(i as u64)).collect() } else { vec![] };
                m.votes = (0..variant).map(|i| Eth1Data { deposit_count: i as u64, ..Default::default() }).collect();
                m.slashings = (0..EPSV as u64).map(|i| i * ETH).collect();
                m.jbits = (0..4).map(|i| variant >> (i % 3) & 1 == 1).collect();
                m.genesis_time = (1 << 40) + 77;
                m.deposit_index = 3;
                m.eth1_data.deposit_count = 9;
                m.pj = Checkpoint { epoch: 1, root: root(31) };
                m.cj = Checkpoint { epoch: 2, root: root(32) };
                m.fin = Checkpoint { epoch: 3, root: root(33) };
                for i in 0..16 {
                    m.balances[i] = 31 * ETH + i as u64;
                }
                if *f > Phase0 {
                    m.prev_part = (0..16).map(|i| i as u8 % 8).collect();
                    m.cur_part = (0..16).map(|i| 7 - i as u8 % 8).collect();
                    m.scores = (0..16).map(|i| 1000 + i as u64).collect();
                }
                if *f >= Capella {
                    m.nwi = (1 << 40) + 70;
                    m.nwvi = 7;
                    m.summaries = (0..variant).map(|i| HistoricalSummary { block_summary_root: root(i as u64), state_summary_root: root(9) }).collect();
                }
                m.fork.previous_version = [7, 7, 7, 7];
                m.validators[3].slashed = true;
                m.validators[3].exit_epoch = 40;
                m.validators[4].activation_epoch = FAR;
                m.validators[4].activation_eligibility_epoch = if variant % 2 == 0 { FAR } else { 1 };
                if variant == 5 {
                    m.validators[2].activation_epoch = FAR;
                }
                let mut path = format!("{f:?} slot={} variant={variant}", m.slot);
                while m.f != Electra {
                    run.state();
                    path += " up";
                    match step(run, || path.clone(), &m, &Op::Upgrade, &c) {
                        Some(x) => m = x,
                        None => break,
                    }
                    if variant == 4 && m.f != Electra {
                        match step(run, || path.clone() + " slots", &m, &Op::Slots(m.slot + 3), &c) {
                            Some(x) => m = x,
                            None => break,
                        }
                    }
                }
                run.trace();
            }
        }
    });
    run.part("populated states");
    // Recorded attestations.
    let n = run.pick(2usize, 3);
    let jobs: Vec<u64> = (8..16).collect();
    parallel(&jobs, |slot| {
        let m0 = base(Phase0, 16, *slot, &c);
        let e = slot / SPE;
        let mut forms = vec![];
        for s in [0u64, 3] {
            for com in 0..2 {
                for wrong in 0..4 {
                    for delay in [1u64, 2, 4, 5] {
                        let at = (e - 1) * SPE + s;
                        let mut d = att_data(&m0, at, com, &c);
                        d.source = m0.pj.clone();
                        match wrong {
                            1 => d.target.root = root(1),
                            2 => d.beacon_block_root = root(2),
                            3 => d.source = Checkpoint { epoch: 9, root: root(3) },
                            _ => {}
                        }
                        let len = m0.committee(at, com, &c).unwrap().len();
                        for b in [0b01u8, 0b11] {
                            forms.push(Pend { bits: (0..len).map(|i| b >> (i % 2) & 1 == 1).collect(), data: d.clone(), delay, proposer: 1 });
                        }
                    }
                }
            }
        }
        for k in 0..=n {
            let pick: Vec<Vec<usize>> = match k {
                3 => {
                    // of three, the last two from a coarser set
                    (0..forms.len()).flat_map(|a| (0..forms.len()).step_by(5).flat_map(move |b| (0..128).step_by(11).map(move |d| vec![a, b, d]))).collect()
                }
                k => tuples(k, forms.len()).collect(),
            };
            for p in pick {
                let mut m = m0.clone();
                m.prev_att = p.iter().map(|i| forms[*i].clone()).collect();
                m.cur_att = vec![forms[0].clone()];
                run.state();
                step(run, || format!("slot={slot} recorded={p:?}"), &m, &Op::Upgrade, &c);
            }
        }
    });
    run.part("recorded attestations");
    // Validators on the way into electra.
    let mut recs = vec![];
    for act in far {
        for el in far {
            for ex in [6u64, 9, FAR] {
                if act == FAR && ex != FAR {
                    continue;
                }
                recs.push((act, el, ex));
            }
        }
    }
    let n = recs.len();
    let jobs: Vec<Vec<usize>> = tuples(2, n).collect();
    let bal = [0u64, 1, 32 * ETH, 33 * ETH, 129 * ETH];
    parallel(&jobs, |two| {
        for kinds in tuples(3, 3) {
            for third in 0..run.pick(4usize, n) {
                let mut m = base(Deneb, 3, 23, &c);
                for (i, r) in [two[0], two[1], third * (if run.thorough { 1 } else { 11 }) % n].iter().enumerate() {
                    let (act, el, ex) = recs[*r];
                    let v = &mut m.validators[i];
                    v.activation_epoch = act;
                    v.activation_eligibility_epoch = el;
                    v.exit_epoch = ex;
                    v.withdrawal_credentials = creds(kinds[i] as u8, i);
                    m.balances[i] = bal[(r + i + kinds[0]) % 5];
                    v.effective_balance = (m.balances[i] / ETH * ETH).min(32 * ETH);
                }
                run.state();
                step(run, || format!("into electra records={two:?},{third} credentials={kinds:?}"), &m, &Op::Upgrade, &c);
            }
        }
    });
    run.part("into electra");
}

pub fn c28(run: &Run) {
    let depth = run.pick(3usize, 4);
    let epochs = [0u64, 1, 2, FAR];
    run.bound(format!("all non-decreasing schedules of altair, bellatrix, capella and deneb over the epochs 0, 1, 2 and never; starting in the fork of slot 0 or 2; all sequences of {depth} blocks, each 1, 2, 4 or 9 slots after the last, carrying nothing or attestations, and of the fork of its slot; at each step also a block of every other fork, and a block at or before the slot of the state"));
    run.assume("electra is not reachable through the fork-spanning executor, which has no such variant");
    let mut schedules = vec![];
    for t in tuples(4, 4) {
        if t.windows(2).all(|w| w[0] <= w[1]) {
            schedules.push(t);
        }
    }
    let jobs: Vec<_> = schedules.iter().flat_map(|s| [0u64, 2].into_iter().flat_map(move |at| (0..8usize).map(move |first| (s.clone(), at, first)))).collect();
    parallel(&jobs, |(t, at, first)| {
        let mut c = ctx();
        c.altair_fork_epoch = epochs[t[0]];
        c.bellatrix_fork_epoch = epochs[t[1]];
        c.capella_fork_epoch = epochs[t[2]];
        c.deneb_fork_epoch = epochs[t[3]];
        c.electra_fork_epoch = FAR;
        for low in [false, true] {
            // from the fork of the slot, or from phase0 where altair is yet to be entered at slot 0
            let f = spec::fork_at(at / SPE, &c);
            if low && (f == Phase0 || *at != 0) {
                continue;
            }
            let f = if low { Phase0 } else { f };
            let mut start = base(f, 8, *at, &c);
            start.fork.epoch = 0;
            if f >= Bellatrix {
                start.payload.block_hash = b32(hash_n(1));
            }
            let path = format!("schedule={:?} from {f:?} at {at}:", t);
            blocks(run, &start, path, depth, *first..*first + 1, &c);
        }
    });
}

/// Every sequence of blocks of the given depth from a state, the first of the given kinds.
fn blocks(run: &Run, m: &M, path: String, depth: usize, kinds: std::ops::Range<usize>, c: &Context) {
    if depth == 0 {
        return run.trace();
    }
    for x in kinds {
        let (gap, with) = ([1u64, 2, 4, 9][x / 2], x % 2 == 1);
        let slot = m.slot + gap;
        let to = spec::fork_at(slot / SPE, c);
        let path = path.clone() + &format!(" +{gap}{}", if with { " attested" } else { "" });
        run.state();
        // the state the block is built on
        let mut s = m.clone();
        while s.f < to {
            let e = spec::fork_epoch(FORKS[s.f as usize + 1], c) * SPE;
            if s.slot < e {
                s.process_slots(e, c).unwrap();
            }
            s = s.upgrade(c).unwrap();
        }
        if s.slot < slot {
            s.process_slots(slot, c).unwrap();
        }
        let make = |s: &M| {
            let mut b = draft(s, c).unwrap();
            if with {
                fill(s, &mut b, 3, &[], c);
            }
            seal(s, &mut b, c);
            b
        };
        let b = make(&s);
        // wrong forks: the bodies that the other forks would write for this slot
        for g in FORKS[..5].iter().filter(|g| **g != to) {
            let mut x = b.clone();
            if *g > Phase0 && x.agg.bits.is_empty() {
                x.agg = Agg { bits: vec![false; SYNC], sig: infinity() };
            }
            let mut w = s.clone();
            w.f = *g;
            let d = s.domain(BEACON_PROPOSER, None, c);
            x.sig = sign(who(&s.validators[x.proposer].public_key), &signing_root(&real::block_root(*g, &x), &d));
            for v in [true, false] {
                step(run, || format!("{path} {g:?} block checked={v}"), m, &Op::Chain(*g, x.clone(), v), c);
            }
            // and one that the rules of the state's own fork accept
            if *g == m.f {
                let mut w = m.clone();
                if w.process_slots(slot, c).is_ok() {
                    if let Ok(mut x) = draft(&w, c) {
                        seal(&w, &mut x, c);
                        for v in [true, false] {
                            step(run, || format!("{path} {g:?} block of old rules checked={v}"), m, &Op::Chain(*g, x.clone(), v), c);
                        }
                    }
                }
            }
        }
        for v in [false, true] {
            let mut old = b.clone();
            old.slot = m.slot;
            step(run, || format!("{path} old block checked={v}"), m, &Op::Chain(spec::fork_at(m.slot / SPE, c), old, v), c);
        }
        let mut bad = b.clone();
        bad.state_root = root(1);
        resign(&s, &mut bad, c);
        step(run, || format!("{path} bad root"), m, &Op::Chain(to, bad, true), c);
        step(run, || format!("{path} unchecked"), m, &Op::Chain(to, b.clone(), false), c);
        match step(run, || path.clone(), m, &Op::Chain(to, b, true), c) {
            Some(n) => blocks(run, &n, path, depth - 1, 0..8, c),
            None => panic!("{path}: not a valid block"),
        }
    }
}
