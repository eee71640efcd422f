mod framing;
mod keys;

use std::{
    io::Write,
    process::{Command, Stdio},
};

/// The `ec` program as a process: its standard output when it succeeds.
pub fn ec(args: &[&str], input: &[u8]) -> Result<Vec<u8>, String> {
    let path = std::env::current_exe().unwrap().parent().unwrap().join("ec");
    let mut child = Command::new(path)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("the ec program is built");
    let mut stdin = child.stdin.take().unwrap();
    let input = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(&input);
    });
    let o = child.wait_with_output().unwrap();
    t.join().unwrap();
    if o.status.success() {
        return Ok(o.stdout)
    }
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    if e.contains("panicked") || o.status.code().is_none() {
        return Err(format!("CRASH {e}"))
    }
    Err(e)
}

fn main() {
    mc::main(&[("C38", keys::c38), ("C39", keys::c39), ("C40", framing::c40)])
}
