//! The generators read and write relative to the current directory and print as they go, so each
//! worker is a process of its own with its own scratch directory and no standard output.
use mc::Run;
use std::{
    fs,
    io::Write,
    path::PathBuf,
    process::{Command, Stdio},
};

pub struct Out {
    file: fs::File,
    states: u64,
    transitions: u64,
    traces: u64,
    fails: u64,
}

impl Out {
    pub fn state(&mut self) {
        self.states += 1;
    }
    pub fn transition(&mut self) {
        self.transitions += 1;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn fail(&mut self, key: &str, detail: &str) {
        self.fails += 1;
        if self.fails <= 200 {
            let d = detail.replace('\\', "\\\\").replace('\n', "\\n");
            writeln!(self.file, "F\t{key}\t{d}").unwrap();
        }
    }
    pub fn sample(&mut self, text: &str) {
        if self.states <= 1 {
            let d = text.replace('\\', "\\\\").replace('\n', "\\n");
            writeln!(self.file, "P\t{d}").unwrap();
        }
    }
}

/// A scratch directory that is removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let p = std::env::temp_dir().join(format!("specgen-{tag}-{}", std::process::id()));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn is_child() -> bool {
    std::env::var_os("SPECGEN_SHARD").is_some()
}

pub type Child = fn(usize, usize, bool, &mut Out);

pub fn child(table: &[(&str, Child)]) {
    let v = std::env::var("SPECGEN_SHARD").unwrap();
    let p: Vec<&str> = v.splitn(5, ':').collect();
    let (name, i, n, thorough, path) = (p[0], p[1].parse().unwrap(), p[2].parse().unwrap(), p[3] == "1", p[4]);
    if std::env::var_os("MC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let file = fs::File::create(path).unwrap();
    let mut out = Out { file, states: 0, transitions: 0, traces: 0, fails: 0 };
    let f = table.iter().find(|t| t.0 == name).unwrap().1;
    let r = mc::guard(|| f(i, n, thorough, &mut out));
    if let Err(m) = r {
        writeln!(out.file, "X\t{}", m.replace('\n', " ")).unwrap();
    }
    writeln!(out.file, "N\t{}\t{}\t{}", out.states, out.transitions, out.traces).unwrap();
}

pub fn run(run: &Run, name: &str) {
    let scratch = Scratch::new("shards");
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let exe = std::env::current_exe().unwrap();
    let children: Vec<_> = (0..n)
        .map(|i| {
            let path = scratch.0.join(format!("{name}-{i}"));
            let c = Command::new(&exe)
                .env("SPECGEN_SHARD", format!("{name}:{i}:{n}:{}:{}", run.thorough as u8, path.display()))
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .spawn()
                .unwrap();
            (c, path)
        })
        .collect();
    for (mut c, path) in children {
        let status = c.wait().unwrap();
        let text = fs::read_to_string(path).unwrap_or_default();
        let mut done = false;
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            let un = |s: &str| s.replace("\\n", "\n").replace("\\\\", "\\");
            match p[0] {
                "F" => run.fail(p[1], || un(p[2])),
                "P" => run.sample(|| un(p[1])),
                "X" => panic!("a worker stopped: {}", p[1]),
                "N" => {
                    done = true;
                    run.states(p[1].parse().unwrap());
                    run.transitions(p[2].parse().unwrap());
                    run.traces(p[3].parse().unwrap());
                }
                _ => {}
            }
        }
        assert!(done, "a worker ended with {status}");
    }
}
