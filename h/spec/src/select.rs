//! C10 committees, C11 proposers and sync committees.
use crate::{crypto::*, gen::*, m::*, spec};
use ethereum_consensus::phase0;
use mc::{guard, parallel, Run};

/// The activity patterns of a registry: which validators are active over which epochs.
fn registries(sizes: &[usize]) -> Vec<(String, Vec<Validator>)> {
    let mut out = vec![];
    for n in sizes {
        for (name, pat) in [
            ("all", 0usize),
            ("late", 1),
            ("exited", 2),
            ("mixed", 3),
        ] {
            let v = (0..*n)
                .map(|i| {
                    let mut v = validator(i, 0);
                    match (pat, i % 4) {
                        (1, 1) | (3, 1) => v.activation_epoch = 3,
                        (1, 3) => v.activation_epoch = FAR,
                        (2, 1) | (3, 2) => v.exit_epoch = 3,
                        (2, 2) => v.exit_epoch = 2,
                        _ => {}
                    }
                    v
                })
                .collect();
            out.push((format!("{n}{name}"), v));
        }
    }
    out
}

pub fn c10(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    let sizes: Vec<usize> =
        (0..=run.pick(40, 72)).chain([255, 256, 257, 258, 300, 511, 512, 513, 600, 1025, 65535, 65537, 65800]).collect();
    let rounds = run.pick(vec![1u64, 5, 90], vec![1, 2, 5, 10, 90, 255]);
    let seeds = run.pick(6u64, 24);
    run.bound(format!("shuffling: list sizes {sizes:?}, rounds {rounds:?}, {seeds} seeds, every index"));
    let jobs: Vec<(usize, u64, u64)> = sizes
        .iter()
        .flat_map(|n| rounds.iter().flat_map(move |r| (0..seeds).map(move |s| (*n, *r, s))))
        .filter(|(n, r, s)| *n <= 80 || (*s < 2 && *r != 255))
        .filter(|(n, r, s)| *n < 60000 || (*s < 1 && *r < 6))
        .collect();
    parallel(&jobs, |(n, r, s)| {
        let mut c = c.clone();
        c.shuffle_round_count = *r;
        let seed = b32(sha(&[&s.to_le_bytes()]));
        let want: Vec<usize> =
            (0..*n).map(|i| spec::shuffled_index(i, *n, &raw(&seed), *r)).collect();
        run.state();
        let mut seen = want.clone();
        seen.sort();
        assert!(seen.into_iter().eq(0..*n), "the reference shuffle is no permutation");
        let got: Result<Result<Vec<usize>, _>, _> = guard(|| {
            (0..*n).map(|i| phase0::compute_shuffled_index(i, *n, &seed, &c)).collect()
        });
        run.eq(
            || format!("shuffled_index n={n} rounds={r}"),
            &format!("{:?}", Ok::<_, String>(Ok::<_, String>(want.clone()))),
            &format!("{got:?}"),
        );
        run.transitions(*n as u64);
        let past = guard(|| phase0::compute_shuffled_index(*n, *n, &seed, &c).is_err());
        run.eq(|| format!("shuffled_index past n={n}"), &Ok(true), &past);
        // The whole list at once, over values that are not their own positions.
        let values: Vec<usize> = (0..*n).map(|i| 3 * i + 7).collect();
        let got = guard(|| phase0::compute_shuffled_indices(&values, &seed, &c));
        let want: Vec<usize> = want.into_iter().map(|i| values[i]).collect();
        run.eq(|| format!("shuffled_indices n={n} rounds={r}"), &Ok(want.clone()), &got);
        // The pieces of a committee split put together are the shuffled list.
        for count in [1usize, 3, 4, 8] {
            let got = guard(|| {
                let mut v = vec![];
                for i in 0..count {
                    v.push(phase0::compute_committee(&values, &seed, i, count, &c).map_err(|e| format!("{e:?}"))?);
                }
                Ok::<_, String>(v)
            });
            let want: Vec<Vec<usize>> = (0..count)
                .map(|i| want[n * i / count..n * (i + 1) / count].to_vec())
                .collect();
            run.eq(|| format!("compute_committee n={n} count={count}"), &Ok(Ok(want)), &got);
        }
        run.trace();
    });
    run.part("shuffling");

    // Committees of states, through every fork's own functions.
    let regs = registries(
        &run.pick(vec![1, 2, 3, 5, 8, 9, 13, 16, 17, 24, 33], (1..=40).chain([50, 64]).collect()),
    );
    run.bound("committees: registries of 1..=64 validators x 4 activity patterns x target sizes {1,2} x committee limits {1,2,4}, states in epochs 0..=4, slots of the epochs around, every committee index and one beyond");
    let jobs: Vec<_> = regs
        .iter()
        .flat_map(|r| FORKS.iter().flat_map(move |f| [0u64, 1, 2, 3, 4].map(move |e| (r, *f, e))))
        .collect();
    parallel(&jobs, |(r, f, e)| {
        let mut m = base(*f, r.1.len(), e * 4 + 1, &c);
        m.validators = r.1.clone();
        let key = |w: &str| format!("{f:?} {w} registry={} epoch={e}", r.0);
        for x in 0..6u64 {
            query(run, || key("get_active_validator_indices"), &m, &Q::Active(x), &c);
        }
        for (target, max) in [(2u64, 2u64), (1, 4), (1, 1)] {
            let mut c = c.clone();
            c.target_committee_size = target;
            c.max_committees_per_slot = max;
            run.state();
            for x in e.saturating_sub(1)..=e + 1 {
                query(run, || key("get_committee_count_per_slot"), &m, &Q::CommitteeCount(x), &c);
                for d in [0u32, 1, 7] {
                    query(run, || key("get_seed"), &m, &Q::Seed(x, d), &c);
                }
                let count = m.committee_count(x, &c) as usize;
                let mut all = vec![];
                for slot in x * 4..x * 4 + 4 {
                    for i in 0..count {
                        query(run, || key("get_beacon_committee"), &m, &Q::Committee(slot, i), &c);
                        all.extend(m.committee(slot, i, &c).unwrap());
                    }
                }
                all.sort();
                // of the model, which every committee above was compared with
                assert_eq!(all, m.active(x), "the committees do not partition the active set");
            }
            run.trace();
        }
    });
    run.part("committees");
    run.variant("shuffling");
}

pub fn c11(run: &Run) {
    crate::later::set(true);
    let c = crate::cfg::ctx();
    let bal: &[u64] = &[0, 1, 16, 31, 32];
    let n = run.pick(3usize, 4);
    let mut regs: Vec<Vec<u64>> = vec![];
    for k in 0..=n {
        regs.extend(mc::tuples(k, bal.len()).map(|t| t.into_iter().map(|i| bal[i] * ETH).collect()));
    }
    for k in run.pick(vec![8usize, 33, 40], vec![5, 8, 16, 31, 32, 33, 34, 40, 64]) {
        regs.push(vec![32 * ETH; k]);
        regs.push((0..k).map(|i| if i == k - 1 { 32 * ETH } else { 0 }).collect());
        regs.push((0..k).map(|i| ((i * 7) as u64 % 33) * ETH).collect());
    }
    // Nobody has a balance: the specified sampling never ends on its own terms; not explored.
    regs.retain(|r| r.is_empty() || r.iter().any(|b| *b > 0));
    run.assume("a registry whose active validators all have effective balance 0 is not explored: the specified sampling need not end on it");
    run.bound(format!("every registry of up to {n} validators with effective balances of {bal:?} ETH, and larger ones up to 64; 3 activity patterns; epochs 0..=3 x 4 slots x 2 randao histories; every fork"));
    let jobs: Vec<_> = regs.iter().flat_map(|r| FORKS.iter().map(move |f| (r, *f))).collect();
    parallel(&jobs, |(r, f)| {
        for inactive in 0..3usize {
            let mut m0 = base(*f, r.len(), 5, &c);
            for (i, b) in r.iter().enumerate() {
                m0.validators[i].effective_balance = *b;
                m0.balances[i] = *b;
                if inactive == 1 && i == 0 {
                    m0.validators[i].exit_epoch = 2;
                }
                if inactive == 2 && i % 2 == 1 {
                    m0.validators[i].activation_epoch = 2;
                }
            }
            for shift in 0..2u64 {
                let mut m = m0.clone();
                for (i, x) in m.mixes.iter_mut().enumerate() {
                    *x = b32(sha(&[&[shift as u8, i as u8]]));
                }
                for slot in (0..16u64).filter(|s| r.len() < 4 || s % 3 == 0) {
                    m.slot = slot;
                    let e = slot / 4;
                    let live = |e: u64| {
                        let a = m.active(e);
                        a.is_empty() || a.iter().any(|i| m.validators[*i].effective_balance > 0)
                    };
                    run.state();
                    let key = |w: &str| format!("{f:?} {w} slot={slot} pattern={inactive} balances={:?}", r.iter().map(|b| b / ETH).collect::<Vec<_>>());
                    if live(e) {
                        query(run, || key("proposer"), &m, &Q::Proposer, &c);
                    }
                    if *f > Phase0 && slot % 4 == 3 && live(e + 1) {
                        query(run, || key("next_sync_committee_indices"), &m, &Q::NextSyncIndices, &c);
                        query(run, || key("next_sync_committee"), &m, &Q::NextSync, &c);
                    }
                }
                run.trace();
            }
        }
    });
    run.part("selection");
    run.variant("shuffling");
}
