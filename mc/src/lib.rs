//! Shared bookkeeping of the model-checking harnesses.
//!
//! A harness explores a bounded space exhaustively. For every state or case it visits it calls
//! [`Run::state`], for every step executed on the real code and compared with the reference model
//! [`Run::transition`], and for every finished history replayed against the implementation
//! [`Run::trace`]. A disagreement is reported with [`Run::fail`] under a stable key that names the
//! failing case; keys listed in /verif/known_findings.txt are printed as KNOWN-FINDING instead.
use std::{
    collections::{BTreeMap, HashSet, VecDeque},
    fmt::Debug,
    fmt::Write as _,
    fs,
    hash::Hash,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::Relaxed},
        Mutex,
    },
    time::Instant,
};

pub struct Run {
    pub property: String,
    pub thorough: bool,
    pub only: Option<String>,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    fails: Mutex<BTreeMap<String, (String, u64)>>,
    parts: Mutex<Vec<(String, u64)>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    truncated: AtomicBool,
    waiting: AtomicU64,
    start: Instant,
    deadline_s: u64,
}

/// The distinct failing keys kept; further ones are only counted.
const MAX_KEYS: usize = 400;

impl Run {
    pub fn new(property: &str, thorough: bool) -> Self {
        Run {
            property: property.to_string(),
            thorough,
            only: None,
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            fails: Mutex::default(),
            parts: Mutex::default(),
            bounds: Mutex::default(),
            assumptions: Mutex::default(),
            samples: Mutex::default(),
            notes: Mutex::default(),
            truncated: false.into(),
            waiting: 0.into(),
            start: Instant::now(),
            deadline_s: 800,
        }
    }
    pub fn state(&self) {
        self.states.fetch_add(1, Relaxed);
    }
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn transition(&self) {
        self.transitions.fetch_add(1, Relaxed);
    }
    pub fn transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Relaxed);
    }
    pub fn traces(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    /// Names a finished part of the exploration, with the states and transitions it added.
    pub fn part(&self, name: &str) {
        let mut p = self.parts.lock().unwrap();
        let done: u64 = p.iter().map(|x| x.1).sum();
        p.push((name.to_string(), self.transitions.load(Relaxed) - done));
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            v.push(s());
        }
    }
    pub fn fail(&self, key: impl AsRef<str>, detail: impl FnOnce() -> String) {
        let key = key.as_ref();
        if let Some(only) = &self.only {
            if only != key {
                return;
            }
        }
        let mut fails = self.fails.lock().unwrap();
        if let Some(e) = fails.get_mut(key) {
            e.1 += 1;
        } else if fails.len() < MAX_KEYS {
            fails.insert(key.to_string(), (detail(), 1));
        } else {
            fails.entry("~more".into()).or_insert(("too many to list".into(), 0)).1 += 1;
        }
    }
    /// Compares, counting one transition.
    pub fn eq<T: PartialEq + Debug>(&self, key: impl FnOnce() -> String, want: &T, got: &T) -> bool {
        self.transition();
        if want != got {
            self.fail(key(), || format!("expected {want:?}\n     got {got:?}"));
            return false;
        }
        true
    }
    pub fn failed(&self) -> bool {
        !self.fails.lock().unwrap().is_empty()
    }
    pub fn out_of_time(&self) -> bool {
        if self.start.elapsed().as_secs() > self.deadline_s {
            self.truncated.store(true, Relaxed);
            return true;
        }
        false
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Runs another build of this very program, `<program>-<name>`, on the same check and takes
    /// over what it explored and what failed in it.
    pub fn variant(&self, name: &str) {
        if std::env::var_os("MC_REPORT").is_some() {
            return;
        }
        let mut exe = std::env::current_exe().unwrap().into_os_string();
        exe.push(format!("-{name}"));
        let report = verif_root().join("evidence").join(format!(".{}-{name}-{}", self.property, std::process::id()));
        let _ = fs::create_dir_all(report.parent().unwrap());
        let _ = fs::write(&report, "");
        let mut child = std::process::Command::new(exe);
        let status = child
            .args(std::env::args_os().skip(1))
            .env("MC_REPORT", &report)
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .spawn()
            .and_then(|mut c| loop {
                if let Some(s) = c.try_wait()? {
                    break Ok(s);
                }
                // It has its own watch over operations that do not return.
                self.waiting.fetch_add(1, Relaxed);
                std::thread::sleep(std::time::Duration::from_millis(20));
            });
        let text = fs::read_to_string(&report).unwrap_or_default();
        let _ = fs::remove_file(&report);
        let mut lines = text.lines();
        let counts: Vec<u64> =
            lines.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
        let [states, transitions, traces, truncated] = counts[..] else {
            panic!("the build with {name} gave no answer: {status:?}")
        };
        self.states(states);
        self.transitions(transitions);
        self.traces(traces);
        if truncated > 0 {
            self.truncated.store(true, Relaxed);
        }
        for l in lines {
            let mut f = l.split('\u{1f}').map(|x| x.replace('\u{1e}', "\n"));
            let (Some(key), Some(detail)) = (f.next(), f.next()) else { continue };
            self.fail(key, || format!("built with the feature {name}:\n{detail}"));
        }
        self.part(&format!("all of it, built with the feature {name}"));
    }

    /// What `variant` of another process reads.
    fn report(&self, path: &std::ffi::OsStr) -> i32 {
        let mut s = format!(
            "{} {} {} {}\n",
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.truncated.load(Relaxed) as u8
        );
        for (key, (detail, _)) in self.fails.lock().unwrap().iter() {
            let one = |x: &str| x.replace(['\u{1f}', '\u{1e}'], " ").replace('\n', "\u{1e}");
            let _ = writeln!(s, "{}\u{1f}{}", one(key), one(detail));
        }
        fs::write(path, s).is_err() as i32
    }

    fn finish(&self) -> i32 {
        if let Some(path) = std::env::var_os("MC_REPORT") {
            return self.report(&path);
        }
        let root = verif_root();
        let known = known_findings(&root, &self.property);
        let evidence = root.join("evidence");
        let _ = fs::create_dir_all(&evidence);
        let fails = self.fails.lock().unwrap();
        let mut violations = 0;
        let mut known_hit = vec![];
        for (key, (detail, count)) in fails.iter() {
            if let Some(text) = known.iter().find(|k| &k.0 == key) {
                println!("KNOWN-FINDING: property={} {} [{key}]", self.property, text.1);
                known_hit.push(key.clone());
                continue;
            }
            violations += 1;
            if violations > 12 {
                continue;
            }
            let dir = evidence.join("replay");
            let _ = fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{violations}.txt", self.property));
            let text = format!(
                "property: {}\ncase: {key}\noccurrences: {count}\nre-run: bash /verif/check.sh {} {} --only '{key}'\n\n{detail}\n",
                self.property,
                self.property,
                if self.thorough { "thorough" } else { "quick" },
            );
            let _ = fs::write(&path, &text);
            println!("VIOLATION property={} replay={}", self.property, path.display());
            println!("  case {key} ({count} occurrence(s))");
            for l in detail.lines().take(12) {
                let l: String = l.chars().take(1500).collect();
                println!("  {l}");
            }
        }
        if violations > 12 {
            println!("  ... and {} further failing cases", violations - 12);
        }
        let states = self.states.load(Relaxed);
        let transitions = self.transitions.load(Relaxed);
        let traces = self.traces.load(Relaxed);
        let wall = self.start.elapsed().as_secs_f64();
        let exhaustive = !self.truncated.load(Relaxed);
        let seed: i64 =
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
            json(&self.property),
            json(if self.thorough { "thorough" } else { "quick" })
        );
        let _ = write!(
            s,
            "  \"states\": {states},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {traces},\n  \"exhaustive\": {exhaustive},\n"
        );
        let _ = write!(s, "  \"bounds\": {},\n", list(&self.bounds.lock().unwrap()));
        let parts = self.parts.lock().unwrap();
        let parts: Vec<String> =
            parts.iter().map(|(n, c)| format!("{}: {c}", json(n))).collect();
        let _ = write!(s, "  \"transitions_by_part\": {{{}}},\n", parts.join(", "));
        let _ = write!(s, "  \"samples\": {},\n", list(&self.samples.lock().unwrap()));
        let _ = write!(s, "  \"known_findings_seen\": {}\n }},\n", list(&known_hit));
        let _ = write!(
            s,
            " \"wall_s\": {wall:.3},\n \"violations\": {violations},\n \"assumptions\": {},\n \"notes\": {}\n}}\n",
            list(&self.assumptions.lock().unwrap()),
            list(&self.notes.lock().unwrap())
        );
        let path = evidence.join(format!("{}.json", self.property));
        if let Err(e) = fs::write(&path, s) {
            println!("cannot write {}: {e}", path.display());
            return 2;
        }
        println!(
            "{}: {} states={states} transitions={transitions} traces={traces} exhaustive={exhaustive} wall={wall:.1}s",
            self.property,
            if violations == 0 { "held" } else { "VIOLATED" },
        );
        if transitions == 0 {
            println!("nothing was explored");
            return 2;
        }
        (violations > 0) as i32
    }
}

fn list(v: &[String]) -> String {
    let v: Vec<String> = v.iter().map(|s| json(s)).collect();
    format!("[{}]", v.join(", "))
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Lines `KNOWN property=<id> key=<key> :: <what fails>`; every other line is ignored here.
fn known_findings(root: &std::path::Path, property: &str) -> Vec<(String, String)> {
    let Ok(text) = fs::read_to_string(root.join("known_findings.txt")) else { return vec![] };
    let prefix = format!("KNOWN property={property} key=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&prefix))
        .filter_map(|l| l.split_once(" :: "))
        .map(|(k, t)| (k.trim().to_string(), t.trim().to_string()))
        .collect()
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        format!("panic: {m}")
    })
}

/// Ends a check whose code under test never comes back: an operation that does not return has no
/// outcome to compare, and the specification gives it one. The silence it takes is several times
/// what a whole check takes on a loaded machine.
fn watch(run: &Run, done: &AtomicBool) {
    let limit = run.pick(200, 420);
    let count = || {
        run.states.load(Relaxed)
            + run.transitions.load(Relaxed)
            + run.traces.load(Relaxed)
            + run.waiting.load(Relaxed)
    };
    let (mut last, mut since) = (count(), Instant::now());
    while !done.load(Relaxed) {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let now = count();
        if now != last {
            (last, since) = (now, Instant::now());
        } else if since.elapsed().as_secs() >= limit {
            let after = run.parts.lock().unwrap().last().map(|p| p.0.clone()).unwrap_or_default();
            run.fail("does not return", || {
                format!(
                    "an operation of the code under test has not returned for {limit} s; \
                     the last part finished is {after:?}, after {now} states, steps and histories"
                )
            });
            // Counted, so that the run is not taken for an empty one.
            run.transition();
            let code = run.finish();
            std::process::exit(if code == 0 { 2 } else { code });
        }
    }
}

pub type Check = fn(&Run);

/// `<binary> <property> [quick|thorough] [--only KEY]`
pub fn main(table: &[(&str, Check)]) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(id) = args.first() else {
        for (id, _) in table {
            println!("{id}");
        }
        std::process::exit(2)
    };
    let thorough = args.iter().any(|a| a == "thorough");
    let Some((_, check)) = table.iter().find(|(n, _)| n == id) else {
        println!("no check for {id} here");
        std::process::exit(2)
    };
    // Panics of the code under test are outcomes, not noise.
    if std::env::var_os("MC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut run = Run::new(id, thorough);
    if let Some(i) = args.iter().position(|a| a == "--only") {
        run.only = args.get(i + 1).cloned();
    }
    // Deep recursion of the code under test should not end the check.
    let done = AtomicBool::new(false);
    let code = std::thread::scope(|s| {
        s.spawn(|| watch(&run, &done));
        let code = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || {
                if let Err(m) = guard(|| check(&run)) {
                    // Not a verdict about the property: the harness itself failed.
                    println!("the exploration stopped: {m}");
                    let c = run.finish();
                    return if c == 1 { 1 } else { 2 };
                }
                run.finish()
            })
            .unwrap()
            .join()
            .unwrap_or(2);
        done.store(true, Relaxed);
        code
    });
    std::process::exit(code)
}

/// Explores breadth first every state reachable from `initial` in at most `depth` steps.
/// `next` returns the successors of a state.
pub fn bfs<S: Clone + Eq + Hash>(
    run: &Run,
    initial: Vec<S>,
    depth: usize,
    mut next: impl FnMut(&S) -> Vec<S>,
) -> u64 {
    let mut seen: HashSet<S> = HashSet::new();
    let mut queue: VecDeque<(S, usize)> = VecDeque::new();
    for s in initial {
        if seen.insert(s.clone()) {
            run.state();
            queue.push_back((s, 0));
        }
    }
    while let Some((s, d)) = queue.pop_front() {
        if d == depth {
            run.trace();
            continue;
        }
        if run.out_of_time() {
            break;
        }
        let succ = next(&s);
        if succ.is_empty() {
            run.trace();
        }
        for n in succ {
            if seen.insert(n.clone()) {
                run.state();
                queue.push_back((n, d + 1));
            }
        }
    }
    seen.len() as u64
}

/// A source of nondeterminism: `explore` re-runs a body until every sequence of choices it can
/// make has been taken.
pub struct Choices {
    prefix: Vec<(usize, usize)>,
    at: usize,
}

impl Choices {
    pub fn empty() -> Self {
        Choices { prefix: vec![], at: 0 }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.at == self.prefix.len() {
            self.prefix.push((0, n));
        }
        let (c, m) = self.prefix[self.at];
        assert_eq!(m, n, "the body is not deterministic");
        self.at += 1;
        c
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.choose(v.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn path(&self) -> String {
        self.prefix[..self.at].iter().map(|(c, _)| c.to_string()).collect::<Vec<_>>().join(".")
    }
}

pub fn explore(run: &Run, mut body: impl FnMut(&mut Choices)) -> u64 {
    let mut prefix: Vec<(usize, usize)> = vec![];
    let mut n = 0;
    loop {
        let mut c = Choices { prefix, at: 0 };
        body(&mut c);
        n += 1;
        run.trace();
        prefix = c.prefix;
        prefix.truncate(c.at);
        while let Some((c, m)) = prefix.last_mut() {
            if *c + 1 < *m {
                *c += 1;
                break;
            }
            prefix.pop();
        }
        if prefix.is_empty() || run.out_of_time() {
            return n;
        }
    }
}

/// What tells one state from another: 128 bits of its debug form.
pub fn digest(s: &impl std::fmt::Debug) -> u128 {
    use std::{collections::hash_map::DefaultHasher, fmt::Write, hash::Hasher};
    struct W(DefaultHasher, DefaultHasher);
    impl Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0.write(s.as_bytes());
            self.1.write(s.as_bytes());
            Ok(())
        }
    }
    let mut w = W(DefaultHasher::new(), DefaultHasher::new());
    w.1.write(b"other half");
    write!(w, "{s:?}").unwrap();
    (w.0.finish() as u128) << 64 | w.1.finish() as u128
}

/// Every state that `depth` steps reach, layer after layer; a state that two histories reach is
/// followed once. `step` may choose; it returns the next state, or none where the history ends.
pub fn layers<S: Sync + Send>(
    run: &Run,
    initial: Vec<S>,
    depth: usize,
    key: impl Fn(&S) -> u128 + Sync,
    step: impl Fn(&S, usize, &mut Choices) -> Option<S> + Sync,
) -> u64 {
    let mut layer = initial;
    let mut total = 0;
    for d in 0..depth {
        let found: Vec<Mutex<Vec<(u128, S)>>> = layer.iter().map(|_| Mutex::default()).collect();
        let jobs: Vec<usize> = (0..layer.len()).collect();
        parallel(&jobs, |i| {
            let mut out = vec![];
            choices(|c| {
                if let Some(n) = step(&layer[*i], d, c) {
                    out.push((key(&n), n));
                }
                !run.out_of_time()
            });
            *found[*i].lock().unwrap() = out;
        });
        let mut seen = HashSet::new();
        layer = found.into_iter().flat_map(|v| v.into_inner().unwrap()).filter(|(k, _)| seen.insert(*k)).map(|(_, s)| s).collect();
        total += layer.len() as u64;
        layer.iter().for_each(|_| run.state());
    }
    layer.iter().for_each(|_| run.trace());
    total
}

/// Runs a body once for every sequence of choices it can make, until it says to stop.
fn choices(mut body: impl FnMut(&mut Choices) -> bool) {
    let mut c = Choices::empty();
    while body(&mut c) {
        c.prefix.truncate(c.at);
        while let Some((k, m)) = c.prefix.last_mut() {
            if *k + 1 < *m {
                *k += 1;
                break;
            }
            c.prefix.pop();
        }
        if c.prefix.is_empty() {
            return;
        }
        c.at = 0;
    }
}

/// Runs `f` over every item on all cores.
pub fn parallel<T: Sync>(items: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicU64::new(0);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let failed: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Relaxed) as usize;
                    if i >= items.len() || failed.lock().unwrap().is_some() {
                        return;
                    }
                    if let Err(m) = guard(|| f(&items[i])) {
                        *failed.lock().unwrap() = Some(m);
                    }
                })
                .unwrap();
        }
    });
    let m = failed.lock().unwrap().take();
    if let Some(m) = m {
        panic!("in a worker: {m}");
    }
}

/// All sequences over `0..k` of length `n`.
pub fn tuples(n: usize, k: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = (k as u64).pow(n as u32);
    (0..total).map(move |mut x| {
        let mut v = vec![0; n];
        for e in v.iter_mut() {
            *e = (x % k as u64) as usize;
            x /= k as u64;
        }
        v
    })
}
