//! Small source trees with the layout the generators read.
use crate::FORKS;
use std::{collections::HashMap, fs, path::Path};

/// The modules of each fork, as listed in the checked-in tree: every file of a fork's folder.
pub const MODULES: [&str; 17] = [
    "beacon_block",
    "beacon_state",
    "blinded_beacon_block",
    "blob_sidecar",
    "block_processing",
    "bls_to_execution_change",
    "constants",
    "epoch_processing",
    "execution_engine",
    "execution_payload",
    "fork_choice",
    "genesis",
    "helpers",
    "light_client",
    "operations",
    "slot_processing",
    "state_transition",
];
pub const MORE: [&str; 4] = ["sync", "validator", "withdrawal", "networking"];

#[derive(Default)]
pub struct Tree {
    defined: std::collections::HashSet<(usize, String, String)>,
    /// (fork, module) -> source
    pub files: HashMap<(usize, String), String>,
}

impl Tree {
    /// Adds a public item and remembers its name.
    pub fn define(&mut self, fork: usize, module: &str, name: &str, text: &str) {
        self.defined.insert((fork, module.to_string(), name.to_string()));
        self.add(fork, module, text);
    }
    pub fn defines(&self, fork: &str, module: &str, name: &str) -> bool {
        let f = FORKS.iter().position(|f| *f == fork).unwrap();
        self.defined.contains(&(f, module.to_string(), name.to_string()))
    }
    pub fn add(&mut self, fork: usize, module: &str, text: &str) {
        let f = self.files.entry((fork, module.to_string())).or_default();
        f.push_str(text);
        f.push('\n');
    }
}

/// Creates the (empty) files once; `write` then only touches the files a tree fills.
pub fn prepare(root: &Path) {
    for f in FORKS {
        let dir = root.join("ethereum-consensus/src").join(f);
        fs::create_dir_all(dir.join("spec")).unwrap();
        for m in MODULES.iter().chain(MORE.iter()) {
            fs::write(dir.join(format!("{m}.rs")), "").unwrap();
        }
    }
    fs::create_dir_all(root.join("ethereum-consensus/src/types")).unwrap();
}

pub fn write(root: &Path, tree: &Tree) {
    for ((f, m), text) in &tree.files {
        fs::write(root.join("ethereum-consensus/src").join(FORKS[*f]).join(format!("{m}.rs")), text).unwrap();
    }
}

pub fn clear(root: &Path, tree: &Tree) {
    for (f, m) in tree.files.keys() {
        fs::write(root.join("ethereum-consensus/src").join(FORKS[*f]).join(format!("{m}.rs")), "").unwrap();
    }
}

pub fn copy_dir(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let p = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy_dir(&e.path(), &p);
        } else {
            fs::copy(e.path(), p).unwrap();
        }
    }
}
