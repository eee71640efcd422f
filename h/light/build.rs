//! clock.rs refers to a few constants of modules that need ssz_rs. Take from those files the `type`
//! and `const` items that refer to nothing but built-in types and each other, unchanged.
fn main() {
    println!("cargo::rerun-if-changed=build.rs");
    #[cfg(feature = "clock")]
    slice::run();
}

#[cfg(feature = "clock")]
mod slice {
    use quote::ToTokens;
    use std::{collections::HashSet, env, fs, path::Path};
    use syn::visit::Visit;

    const SRC: &str = "/repo/ethereum-consensus/src";

    #[derive(Default)]
    struct Names(HashSet<String>);

    impl<'a> Visit<'a> for Names {
        fn visit_path(&mut self, path: &'a syn::Path) {
            self.0.insert(path.segments[0].ident.to_string());
            syn::visit::visit_path(self, path);
        }
    }

    fn slice(name: &str, out: &str, known: &mut HashSet<String>) {
        let path = format!("{SRC}/{name}");
        println!("cargo::rerun-if-changed={path}");
        let mut items: Vec<(String, HashSet<String>, String)> = vec![];
        let text = fs::read_to_string(&path).unwrap_or_default();
        for item in syn::parse_file(&text).map(|f| f.items).unwrap_or_default() {
            let mut names = Names::default();
            names.visit_item(&item);
            let ident = match &item {
                syn::Item::Type(i) => i.ident.to_string(),
                syn::Item::Const(i) => i.ident.to_string(),
                _ => continue,
            };
            items.push((ident, names.0, item.to_token_stream().to_string()));
        }
        let mut text = String::new();
        loop {
            let (ready, rest): (Vec<_>, Vec<_>) =
                items.into_iter().partition(|i| i.1.is_subset(known));
            if ready.is_empty() {
                break;
            }
            for (ident, _, code) in ready {
                known.insert(ident);
                text += &code;
                text.push('\n');
            }
            items = rest;
        }
        fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join(out), text).unwrap();
    }

    pub fn run() {
        let mut base: HashSet<String> =
            ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "bool", "str", "Vec", "pub"]
                .map(String::from)
                .into();
        slice("primitives.rs", "primitives.rs", &mut base);
        for config in ["mainnet", "minimal", "goerli", "sepolia", "holesky", "hoodi"] {
            slice(&format!("configs/{config}.rs"), &format!("config_{config}.rs"), &mut base.clone());
        }
        for preset in ["mainnet", "minimal"] {
            slice(&format!("phase0/presets/{preset}.rs"), &format!("phase0_{preset}.rs"), &mut base.clone());
        }
    }
}
