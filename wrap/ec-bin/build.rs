use std::{env, fs, path::Path};

fn copy(from: &Path, to: &Path, top: bool) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let name = p.file_name().unwrap().to_str().unwrap().to_string();
        if p.is_dir() {
            copy(&p, &to.join(&name), false);
        } else if name.ends_with(".rs") && !(top && name == "main.rs") {
            println!("cargo:rerun-if-changed={}", p.display());
            let s = fs::read_to_string(&p).unwrap();
            let s: String = s
                .lines()
                .map(|l| {
                    if l.starts_with("mod ") && l.trim_end().ends_with(';') {
                        format!("pub {l}\n")
                    } else {
                        format!("{l}\n")
                    }
                })
                .collect();
            fs::write(to.join(&name), s).unwrap();
        }
    }
}

fn main() {
    let src = Path::new("/repo/ethereum-consensus/src/bin/ec");
    println!("cargo:rerun-if-changed={}", src.display());
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("ec");
    let _ = fs::remove_dir_all(&out);
    copy(src, &out, true);
    let mods = ["bls", "blobs", "validator"];
    let mut s = String::new();
    for m in mods {
        let f = if out.join(format!("{m}.rs")).exists() {
            out.join(format!("{m}.rs"))
        } else {
            out.join(m).join("mod.rs")
        };
        s += &format!("#[path = {:?}]\npub mod {m};\n", f);
    }
    fs::write(out.join("ec_mods.rs"), s).unwrap();
}
