//! C08 and C09: the two code generators, run on every small source tree.
#![allow(dead_code)]

#[path = "/repo/spec-gen/src/generator.rs"]
mod generator;
#[path = "/repo/spec-gen/src/type_generator.rs"]
mod type_generator;
#[path = "/repo/spec-gen/src/visitors.rs"]
mod visitors;

mod forks;
mod shard;
mod tree;
mod types;

fn main() {
    if shard::is_child() {
        shard::child(&[("forks", forks::child), ("types", types::child)]);
        return;
    }
    mc::main(&[("C08", forks::check), ("C09", types::check)])
}

pub const FORKS: [&str; 6] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
