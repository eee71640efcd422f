mod blobs;
mod cfg;
mod chain;
mod config;
mod crash;
mod crypto;
mod epoch;
mod gen;
mod genesis;
mod later;
mod m;
mod ops;
mod queues;
mod real;
mod select;
mod sign;
mod spec;

fn main() {
    mc::main(&[("C10", select::c10), ("C11", select::c11), ("C12", epoch::c12), ("C13", epoch::c13), ("C14", epoch::c14), ("C15", ops::c15), ("C16", ops::c16), ("C17", ops::c17), ("C18", ops::c18), ("C19", ops::c19), ("C20", queues::c20), ("C21", chain::c21), ("C22", ops::c22), ("C23", queues::c23), ("C24", queues::c24), ("C25", queues::c25), ("C26", queues::c26), ("C27", chain::c27), ("C28", chain::c28), ("C29", sign::c29), ("C30", sign::c30), ("C31", blobs::c31), ("C34", genesis::c34), ("C35", config::c35), ("C36", config::c36), ("C37", config::c37), ("C44", crash::c44)])
}
