//! C01 and C02: the slot clock and the stream of slots.
use h_light::clock::{self, Clock, TimeProvider};
use mc::{explore, guard, Choices, Run};
use std::{
    cell::{Cell, RefCell},
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        Arc, Mutex,
    },
    task::{Context, Poll, Waker},
    time::Duration,
};
use tokio_stream::Stream;

const NS: u128 = 1_000_000_000;

fn main() {
    mc::main(&[("C01", arithmetic), ("C02", stream), ("C36", networks)])
}

// ---------------------------------------------------------------- C01

#[derive(Clone)]
struct Fixed(Arc<Mutex<u128>>);
impl TimeProvider for Fixed {
    fn get_current_time(&self) -> u128 {
        *self.0.lock().unwrap()
    }
}

/// The slot containing instant `t`, found by comparing with slot starts rather than by division.
fn model_slot(t: u128, genesis: u64, sps: u64, around: u64) -> Option<u64> {
    let g = genesis as u128 * NS;
    if t < g {
        return None;
    }
    // `around` is a slot at or before the answer.
    let mut s = around as u128;
    loop {
        let start = g + s * sps as u128 * NS;
        let end = start + sps as u128 * NS;
        if start <= t && t < end {
            return Some(s as u64);
        }
        assert!(t >= end, "the search starts too late");
        s += 1;
    }
}

fn arithmetic(run: &Run) {
    let geneses: &[u64] = &[0, 1, 10, 11, 12, 13, 1_606_824_023, 4_000_000_000];
    let spss: Vec<u64> = run.pick(vec![1, 2, 3, 5, 6, 7, 11, 12, 13, 60, 65_537], {
        let mut v: Vec<u64> = (1..=64).collect();
        v.extend([100, 1000, 65_537, 1_000_000]);
        v
    });
    let spes: &[u64] = &[1, 2, 3, 5, 8, 12, 32, 33];
    let first_slots: &[u64] = &[0, 29, 62, 1 << 20, (1 << 32) - 2];
    let window = run.pick(6, 12);
    run.bound(format!(
        "{} genesis times x {} slot durations x {} epoch lengths x {} slots around each of {first_slots:?} x up to 20 instants per slot x targets within 3 slots; instants before genesis",
        geneses.len(), spss.len(), spes.len(), window
    ));
    run.assume("the distance of an instant from genesis fits 2^64 nanoseconds (the range the clock supports) and a slot lasts at least one second");
    for &g in geneses {
        for &sps in &spss {
            for &spe in spes {
                for &base in first_slots {
                    let end = (base + window + 4) as u128 * sps as u128 * NS;
                    if (g as u128 * NS) + end > (1u128 << 64) - 1 {
                        continue;
                    }
                    case(run, g, sps, spe, base, window);
                }
            }
        }
    }
    run.part("clock arithmetic");
    presets(run);
    until(run);
    run.part("preset clocks");
}

fn case(run: &Run, g: u64, sps: u64, spe: u64, base: u64, window: u64) {
    let now = Arc::new(Mutex::new(0u128));
    let clock = Clock::new(g, sps, spe, Fixed(now.clone()));
    let gn = g as u128 * NS;
    let sn = sps as u128 * NS;
    let mut instants: Vec<(u128, u64)> = vec![];
    for slot in base..base + window {
        let start = gn + slot as u128 * sn;
        let mut offs: Vec<u128> = vec![0, 1, NS - 1, NS, NS + 1, sn / 2, sn - NS, sn - 2, sn - 1];
        for s in 0..sps.min(6) {
            offs.push(s as u128 * NS);
            offs.push(s as u128 * NS + 500_000_000);
        }
        offs.retain(|o| *o < sn);
        offs.sort();
        offs.dedup();
        instants.extend(offs.into_iter().map(|o| (start + o, slot)));
    }
    if base == 0 {
        for back in [1, 2, NS - 1, NS, NS + 1, sn, gn] {
            if back > 0 && back <= gn {
                instants.push((gn - back, 0));
            }
        }
    }
    for (t, around) in instants {
        run.state();
        *now.lock().unwrap() = t;
        let slot = model_slot(t, g, sps, around);
        let key = |what: &str| format!("{what} g={g} sps={sps} spe={spe} t={t}");
        let got = guard(|| {
            (
                clock.slot_at_time(t),
                clock.current_slot(),
                clock.before_genesis(),
                clock.current_epoch(),
                clock.duration_until_next_slot(),
                clock::convert_timestamp_to_slot((t / NS) as u64, g, sps),
                clock::convert_timestamp_nanos_to_slot(t, gn, sn),
            )
        });
        let next = match slot {
            None => gn - t,
            Some(s) => gn + (s as u128 + 1) * sn - t,
        };
        let secs_slot = if t / NS < g as u128 {
            None
        } else {
            model_slot(t / NS * NS, g, sps, around)
        };
        let want = Ok((
            slot,
            slot,
            slot.is_none(),
            slot.map(|s| s / spe),
            Duration::new((next / NS) as u64, (next % NS) as u32),
            secs_slot,
            slot,
        ));
        run.eq(|| key("now"), &want, &got);
        for target in around.saturating_sub(2)..around + 3 {
            let start = gn + target as u128 * sn;
            let d = start.saturating_sub(t);
            let want = Ok(Duration::new((d / NS) as u64, (d % NS) as u32));
            let got = guard(|| clock.duration_until_slot(target));
            run.eq(|| key(&format!("until-{target}")), &want, &got);
        }
    }
    for slot in base..base + window {
        let want = Ok((g + slot * sps, slot / spe));
        let got = guard(|| (clock.timestamp_at_slot(slot), clock.epoch_for(slot)));
        run.eq(|| format!("slot {slot} g={g} sps={sps} spe={spe}"), &want, &got);
        run.trace();
    }
}

/// (name, clock, genesis time, seconds per slot, slots per epoch)
fn presets(run: &Run) {
    let table = [
        ("mainnet", clock::for_mainnet(), 1_606_824_023u64),
        ("sepolia", clock::for_sepolia(), 1_655_733_600),
        ("goerli", clock::for_goerli(), 1_616_508_000),
        ("holesky", clock::for_holesky(), 1_695_902_400),
        ("hoodi", clock::for_hoodi(), 1_742_213_400),
    ];
    for (name, c, genesis) in table {
        run.state();
        for slot in [0u64, 1, 2, 31, 32, 33, 63, 64, 1_000_000] {
            let want = Ok((genesis + slot * 12, slot / 32));
            let got = guard(|| (c.timestamp_at_slot(slot), c.epoch_for(slot)));
            run.eq(|| format!("{name} slot {slot}"), &want, &got);
        }
        let gn = genesis as u128 * NS;
        for (t, want) in [
            (gn - 1, None),
            (gn, Some(0)),
            (gn + 12 * NS - 1, Some(0)),
            (gn + 12 * NS, Some(1)),
            (gn + 7_200 * 12 * NS, Some(7_200)),
        ] {
            run.eq(|| format!("{name} at {t}"), &Ok(want), &guard(|| c.slot_at_time(t)));
        }
        // Time passes between the readings, so bracket them.
        let before = clock::get_current_unix_time_in_nanos();
        let got = c.current_slot();
        let after = clock::get_current_unix_time_in_nanos();
        let lo = (before >= gn).then(|| ((before - gn) / (12 * NS)) as u64);
        let hi = (after >= gn).then(|| ((after - gn) / (12 * NS)) as u64);
        run.transition();
        if got < lo || got > hi {
            run.fail(format!("{name} now"), || format!("{got:?} is not in {lo:?}..{hi:?}"));
        }
    }
}

/// The time left until an instant of the machine's own clock.
fn until(run: &Run) {
    let sec = |t: u128| (t / NS) as u64;
    let now = sec(clock::get_current_unix_time_in_nanos());
    for at in [0, 1, now - 1, now, now + 1, now + 2, now + 1000, now + (1 << 40), u64::MAX] {
        run.state();
        run.transition();
        let a = clock::get_current_unix_time_in_nanos();
        let got = guard(|| clock::duration_until(at));
        let b = clock::get_current_unix_time_in_nanos();
        let left = |t: u128| {
            let d = (at as u128 * NS).saturating_sub(t);
            Duration::new((d / NS) as u64, (d % NS) as u32)
        };
        if got.as_ref().map_or(true, |g| *g > left(a) || *g < left(b)) {
            run.fail(format!("duration until {}", if at <= now { "the past" } else { "the future" }), || {
                format!("{at}: {got:?} is not in {:?}..{:?}", left(b), left(a))
            });
        }
    }
    run.part("the time left");
}

/// The part of C36 that needs nothing but the clock's own constants.
fn networks(run: &Run) {
    presets(run);
    run.part("preset clocks");
}

// ---------------------------------------------------------------- C02

thread_local! {
    /// Decides how far time moves at each reading of the clock.
    static SCHEDULE: RefCell<Option<Box<dyn FnMut(u128) -> u128>>> = const { RefCell::new(None) };
    static EPOCH: Cell<Option<(tokio::time::Instant, u128)>> = const { Cell::new(None) };
}

/// The virtual wall clock: the runtime's own (paused) time, shifted.
fn virtual_now() -> u128 {
    let (t0, base) = EPOCH.with(|e| e.get()).expect("set up");
    base + (tokio::time::Instant::now() - t0).as_nanos()
}

/// Moves the runtime's time at once, so that sleeps created afterwards start from it.
fn advance_now(d: u128) {
    if d == 0 {
        return;
    }
    let mut f = Box::pin(tokio::time::advance(Duration::from_nanos(d as u64)));
    let _ = std::future::Future::poll(f.as_mut(), &mut Context::from_waker(Waker::noop()));
}

#[derive(Clone)]
struct Virtual;
impl TimeProvider for Virtual {
    fn get_current_time(&self) -> u128 {
        let d = SCHEDULE.with(|s| match s.borrow_mut().as_mut() {
            Some(f) => f(virtual_now()),
            None => 0,
        });
        advance_now(d);
        virtual_now()
    }
}

fn stream(run: &Run) {
    let polls = run.pick(4, 5);
    let preemptions = run.pick(2, 3);
    let configs: &[(u64, u64)] = run.pick(&[(100, 1), (100, 12)], &[(0, 1), (100, 1), (100, 2), (1_606_824_023, 12)]);
    run.bound(format!("all histories of {polls} polls (plus the creation) over 8 creation instants, 6 delays before each poll and, in at most {preemptions} places, 4 ways for time to pass while the stream reads the clock; {} clocks", configs.len()));
    run.assume("the wall clock does not go backwards and runs in step with the runtime's timer; a poll counts as made when it reads the clock");
    run.assume("a slot may be delivered up to 2 ms late (the runtime's timer has millisecond resolution)");
    let worst = AtomicU64::new(0);
    let cases: Vec<(u64, u64, usize)> = configs
        .iter()
        .flat_map(|&(g, s)| (0..8).map(move |c| (g, s, c)))
        .collect();
    mc::parallel(&cases, |&(g, sps, created)| {
        let n = explore(run, |c| history(run, g, sps, created, polls, preemptions, c));
        worst.fetch_max(n, Relaxed);
    });
    run.note(format!("the largest configuration has {} histories", worst.load(Relaxed)));
}

fn history(run: &Run, g: u64, sps: u64, created: usize, polls: usize, preemptions: usize, c: &mut Choices) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let gn = g as u128 * NS;
    let sn = sps as u128 * NS;
    let start: u128 = match created {
        0 => gn,
        1 => gn + 1,
        2 => gn + sn - 1,
        3 => gn + 5 * sn + sn / 2,
        4 => gn + 6 * sn - 1_000_000,
        5 if gn >= 2 * sn => gn - 1,
        6 if gn >= 2 * sn => gn - sn - sn / 3,
        7 if gn >= 2 * sn => gn - 2_500_000,
        _ => gn + 3 * sn + 7,
    };
    let slot = move |t: u128| (t >= gn).then(|| ((t - gn) / sn) as u64);
    let boundary = move |t: u128| if t < gn { gn } else { gn + ((t - gn) / sn + 1) * sn };
    let mut log: Vec<String> = vec![format!("genesis {g}s, slot {sps}s, created {start}ns")];

    // The choices made inside a reading are taken through a shared handle.
    let shared = Arc::new(Mutex::new((std::mem::replace(c, Choices::empty()), 0usize)));
    let inner = shared.clone();
    let outcome: Option<(String, String)> = rt.block_on(async {
        EPOCH.with(|e| e.set(Some((tokio::time::Instant::now(), start))));
        SCHEDULE.with(|s| {
            *s.borrow_mut() = Some(Box::new(move |t| {
                let mut g = inner.lock().unwrap();
                if g.1 >= preemptions {
                    return 0;
                }
                let b = boundary(t);
                let d = match g.0.choose(4) {
                    0 => return 0,
                    1 => b - t - 1,
                    2 => b - t,
                    _ => b - t + 1,
                };
                g.1 += 1;
                d
            }))
        });
        let begin = virtual_now();
        let first_reading = begin;
        let mut stream = Clock::new(g, sps, 8, Virtual).into_stream();
        let end = virtual_now();
        log.push(format!("  created between {begin} (slot {:?}) and {end} (slot {:?})", slot(begin), slot(end)));
        // The first slot may be any that was current during the call.
        let mut last: Option<u64> = None;
        let (lo, hi) = (slot(begin).unwrap_or(0), slot(end).unwrap_or(0));
        for _ in 0..polls {
            let choice = shared.lock().unwrap().0.choose(6);
            let t = virtual_now();
            let b = boundary(t);
            let d = match choice {
                0 => 0,
                1 => b - t - 1,
                2 => b - t,
                3 => b - t + 2_000_000,
                4 => b - t + sn / 2,
                _ => b - t + 2 * sn + sn / 2,
            };
            tokio::time::advance(Duration::from_nanos(d as u64)).await;
            // Give the timer a chance to fire.
            tokio::task::yield_now().await;
            let begin = virtual_now();
            let polled = guard(|| Pin::new(&mut stream).poll_next(&mut Context::from_waker(Waker::noop())));
            let end = virtual_now();
            run.transition();
            log.push(format!("  poll between {begin} (slot {:?}) and {end} (slot {:?}): {polled:?}", slot(begin), slot(end)));
            match polled {
                Err(m) => return Some(("panic".into(), m)),
                Ok(Poll::Ready(None)) => return Some(("the stream ended".into(), String::new())),
                Ok(Poll::Ready(Some(s))) => {
                    if s > slot(end).unwrap_or(0) || end < gn && last.is_some() {
                        return Some(("early".into(), format!("slot {s} was yielded before it began")));
                    }
                    if end < gn {
                        return Some(("early".into(), format!("slot {s} was yielded before genesis")));
                    }
                    match last {
                        None => {
                            // Created before genesis: slot 0, unless the consumer came late.
                            // A poll that lies within one slot yields no later slot.
                            let created_before = slot(first_reading).is_none();
                            let latest = if created_before { slot(end).unwrap_or(0) } else { hi };
                            if s < lo || s > latest {
                                return Some(("first".into(), format!("the first slot is {s}, not within {lo}..={latest}")));
                            }
                        }
                        Some(l) if s <= l => {
                            return Some(("repeated".into(), format!("slot {s} was yielded after slot {l}")))
                        }
                        // A due slot is never left pending (below) and none is yielded early, so
                        // a slot in which the consumer polled cannot be skipped.
                        Some(_) => {}
                    }
                    last = Some(s);
                }
                Ok(Poll::Pending) => {
                    // By 2 ms after its start the next slot must be available.
                    if let (Some(now), true) = (slot(begin), begin >= gn) {
                        let due = match last {
                            Some(l) => l + 1,
                            None => 0,
                        };
                        if now >= due && begin >= gn + due as u128 * sn + 2_000_000 {
                            return Some(("stuck".into(), format!("slot {due} is due but the stream is pending")));
                        }
                    }
                }
            }
            run.state();
        }
        None
    });
    SCHEDULE.with(|s| *s.borrow_mut() = None);
    *c = std::mem::replace(&mut shared.lock().unwrap().0, Choices::empty());
    run.sample(|| log.join("\n"));
    if let Some((what, why)) = outcome {
        run.fail(format!("{what} g={g} sps={sps} created={created} choices={}", c.path()), || {
            format!("{why}\n{}", log.join("\n"))
        });
    }
}
