//! C08: every fork's generated specification module inherits exactly what it should.
use crate::{
    generator, shard,
    shard::{Out, Scratch},
    tree::{self, Tree},
    FORKS,
};
use mc::{guard, Run};
use quote::ToTokens;
use std::{
    collections::BTreeMap,
    fs,
    path::Path,
};
use syn::{visit::Visit, Item, UseTree};

/// What a generated module offers under one name.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Offer {
    /// Taken over from the module of a fork.
    From(String),
    /// Written out in the module itself: its generics, the arguments of each container named in
    /// its signature, and the marks in its body.
    Written { generics: Vec<String>, arguments: BTreeMap<String, Vec<String>>, marks: Vec<String> },
}

#[derive(Default)]
struct Scan<'a> {
    containers: &'a [&'a str],
    arguments: BTreeMap<String, Vec<String>>,
    marks: Vec<String>,
    stray: Vec<String>,
}
impl<'ast> Visit<'ast> for Scan<'_> {
    fn visit_path_segment(&mut self, s: &'ast syn::PathSegment) {
        let name = s.ident.to_string();
        if self.containers.contains(&name.as_str()) {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                let args: Vec<String> = a.args.iter().map(|a| a.to_token_stream().to_string()).collect();
                if let Some(old) = self.arguments.insert(name.clone(), args.clone()) {
                    if old != args {
                        self.stray.push(format!("{name} has the arguments {old:?} and {args:?}"));
                    }
                }
            }
        }
        syn::visit::visit_path_segment(self, s);
    }
    fn visit_lit_str(&mut self, s: &'ast syn::LitStr) {
        self.marks.push(s.value());
    }
}

fn generics(g: &syn::Generics) -> Vec<String> {
    let mut v: Vec<String> = g
        .params
        .iter()
        .map(|p| match p {
            syn::GenericParam::Const(c) => c.ident.to_string(),
            syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
            syn::GenericParam::Type(t) => t.ident.to_string(),
        })
        .collect();
    v.sort();
    v
}

fn uses(tree: &UseTree, prefix: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match tree {
        UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            uses(&p.tree, prefix, out);
            prefix.pop();
        }
        UseTree::Name(n) => out.push((prefix.clone(), n.ident.to_string())),
        UseTree::Rename(r) => out.push((prefix.clone(), r.rename.to_string())),
        UseTree::Glob(_) => {}
        UseTree::Group(g) => g.items.iter().for_each(|t| uses(t, prefix, out)),
    }
}

/// The names a generated module offers publicly, with their origin. Fixed preambles (re-exports of
/// shared modules and of the fork's own upgrade function) are left out.
///
/// `texts` are the generated modules of all forks, `defined` says whether a module of a fork defines
/// a name: a re-export counts from where it leads to.
pub fn offers(texts: &[String], f: usize, containers: &[&str], defined: &dyn Fn(&str, &str, &str) -> bool) -> Result<BTreeMap<String, Vec<Offer>>, String> {
    let file = syn::parse_file(&texts[f]).map_err(|e| format!("does not parse: {e}"))?;
    let mut m: BTreeMap<String, Vec<Offer>> = BTreeMap::new();
    for item in file.items {
        match item {
            Item::Use(u) => {
                if !matches!(u.vis, syn::Visibility::Public(_)) {
                    continue;
                }
                let mut v = vec![];
                uses(&u.tree, &mut vec![], &mut v);
                for (path, name) in v {
                    let p: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
                    match p[..] {
                        ["crate", _, "fork"] => {}
                        ["crate", fork] | ["crate", fork, "spec"] if FORKS[..f].contains(&fork) => {
                            let g = FORKS.iter().position(|x| *x == fork).unwrap();
                            let theirs = offers(texts, g, containers, defined)?;
                            let origin = match theirs.get(&name).map(|v| v.as_slice()) {
                                Some([Offer::From(x)]) if x == "itself" => fork.to_string(),
                                Some([Offer::From(x)]) => x.clone(),
                                Some([Offer::Written { .. }]) => fork.to_string(),
                                _ => format!("nowhere ({}::{name} does not exist)", p.join("::")),
                            };
                            m.entry(name).or_default().push(Offer::From(origin));
                        }
                        ["crate", fork, module] if FORKS.contains(&fork) => {
                            let origin = if defined(fork, module, &name) {
                                fork.to_string()
                            } else {
                                format!("nowhere ({}::{name} does not exist)", p.join("::"))
                            };
                            m.entry(name).or_default().push(Offer::From(origin));
                        }
                        _ => {}
                    }
                }
            }
            Item::Fn(f) => {
                if !matches!(f.vis, syn::Visibility::Public(_)) {
                    continue;
                }
                let mut scan = Scan { containers, ..Default::default() };
                scan.visit_item_fn(&f);
                if let Some(s) = scan.stray.pop() {
                    return Err(format!("{}: {s}", f.sig.ident));
                }
                m.entry(f.sig.ident.to_string()).or_default().push(Offer::Written {
                    generics: generics(&f.sig.generics),
                    arguments: scan.arguments,
                    marks: scan.marks,
                });
            }
            Item::Struct(syn::ItemStruct { ident, .. }) | Item::Const(syn::ItemConst { ident, .. }) | Item::Type(syn::ItemType { ident, .. }) | Item::Trait(syn::ItemTrait { ident, .. }) => {
                m.entry(ident.to_string()).or_default().push(Offer::From("itself".into()));
            }
            _ => {}
        }
    }
    Ok(m)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Const,
    Struct,
    Alias,
    Trait,
    Fn,
}

/// How a function's signature refers to the container.
const FORMS: [&str; 10] = ["none", "shared", "mut", "return", "nested", "lifetime", "bound", "body", "two", "trait"];

#[derive(Clone, Debug)]
struct Case {
    kind: Kind,
    /// 0 absent, 1 public, 2 private, per fork
    item: [u8; 6],
    /// forks that define the container
    container: [bool; 6],
    /// whether the container gains a parameter with each definition
    grows: bool,
    form: usize,
    /// whether definitions move to another module every other time
    moves: bool,
    name: &'static str,
}

fn args_at(c: &Case, fork: usize) -> Vec<String> {
    let n = (0..=fork).filter(|f| c.container[*f]).count();
    let n = if c.grows { n } else { n.min(1) };
    (0..n).map(|i| format!("N{i}")).collect()
}

/// The parameter of the second container, which is renamed by each fork that defines it.
fn other_at(c: &Case, fork: usize) -> String {
    format!("M{}", (0..=fork).rev().find(|f| c.container[*f]).unwrap())
}

fn build(c: &Case) -> Tree {
    let mut t = Tree::default();
    for f in 0..6 {
        if c.container[f] {
            let a = args_at(c, f);
            let g = a.iter().map(|a| format!("const {a}: usize")).collect::<Vec<_>>().join(", ");
            if FORMS[c.form] == "two" {
                t.define(f, "beacon_block", "Other", &format!("pub struct Other<const M{f}: usize> {{ pub a: u64 }}"));
            }
            if FORMS[c.form] == "trait" {
                t.define(f, "helpers", "Engine", &format!("pub trait Engine {{ fn m{f}(&self); }}"));
            }
            t.define(f, "beacon_state", "Holder", &format!("pub struct Holder<{g}> {{ pub a: u64 }}"));
        }
        if c.item[f] == 0 {
            continue;
        }
        let vis = if c.item[f] == 1 { "pub " } else { "" };
        let module = if c.moves && f % 2 == 1 { "helpers" } else { "block_processing" };
        let n = c.name;
        let text = match c.kind {
            Kind::Const => format!("{vis}const {n}: u64 = {f};"),
            Kind::Struct => format!("{vis}struct {n} {{ pub v{f}: u64 }}"),
            Kind::Alias => format!("{vis}type {n} = u{};", 8 << (f % 4)),
            Kind::Trait => format!("{vis}trait {n} {{ fn m{f}(&self); }}"),
            Kind::Fn => {
                let a = args_at(c, f);
                let g: Vec<String> = a.iter().map(|a| format!("const {a}: usize")).collect();
                let h = format!("Holder<{}>", a.join(", "));
                let turbofish = format!("Holder::<{}>", a.join(", "));
                let with = |extra: &str| {
                    let mut v = vec![];
                    if extra.starts_with('\'') {
                        v.push(extra.to_string());
                    }
                    v.extend(g.clone());
                    if !extra.is_empty() && !extra.starts_with('\'') {
                        v.push(extra.to_string());
                    }
                    if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
                };
                match FORMS[c.form] {
                    "none" => format!("{vis}fn {n}(a: u64) -> u64 {{ mark(\"{f}\") }}"),
                    "shared" => format!("{vis}fn {n}{}(s: &{h}, a: u64) -> u64 {{ mark(\"{f}\") }}", with("")),
                    "mut" => format!("{vis}fn {n}{}(s: &mut {h}) {{ mark(\"{f}\") }}", with("")),
                    "return" => format!("{vis}fn {n}{}(a: u64) -> Result<{h}> {{ mark(\"{f}\") }}", with("")),
                    "nested" => format!("{vis}fn {n}{}(s: &Vec<Option<{h}>>) {{ mark(\"{f}\") }}", with("")),
                    "lifetime" => format!("{vis}fn {n}{}(s: &'a {h}) -> &'a u64 {{ mark(\"{f}\") }}", with("'a")),
                    "bound" => format!("{vis}fn {n}{}(s: &{h}, t: T) {{ mark(\"{f}\") }}", with("T: Clone")),
                    "two" => {
                        let m = other_at(c, f);
                        format!("{vis}fn {n}{}(s: &mut {h}, o: &Other<{m}>) {{ mark(\"{f}\") }}", with(&format!("const {m}: usize")))
                    }
                    "trait" => format!("{vis}fn {n}{}(s: &mut {h}, e: &E) {{ mark(\"{f}\") }}", with("E: Engine")),
                    _ => format!("{vis}fn {n}{}(s: &{h}) {{ mark(\"{f}\"); {turbofish}::default(); }}", with("")),
                }
            }
        };
        if c.item[f] == 1 {
            t.define(f, module, n, &text);
        } else {
            t.add(f, module, &text);
        }
    }
    t
}

/// What each fork should offer under the item's name.
fn expected(c: &Case) -> [Option<Offer>; 6] {
    let mut out: [Option<Offer>; 6] = Default::default();
    // The fork whose definition is current, and the fork that last wrote it out anew.
    let mut current: Option<(usize, usize)> = None;
    for f in 0..6 {
        if c.item[f] == 1 {
            current = Some((f, f));
        } else if f == 1 && c.kind == Kind::Fn && RETIRED.contains(&c.name) {
            current = None;
        } else if let Some((d, _)) = current {
            if c.kind == Kind::Fn && FORMS[c.form] != "none" && c.container[f] {
                current = Some((d, f));
            }
        }
        out[f] = current.map(|(d, at)| {
            if d == f || at != f {
                Offer::From(FORKS[at].into())
            } else {
                let a = args_at(c, f);
                let mut g = a.clone();
                match FORMS[c.form] {
                    "lifetime" => g.push("'a".into()),
                    "bound" => g.push("T".into()),
                    "trait" => g.push("E".into()),
                    "two" => g.push(other_at(c, f)),
                    _ => {}
                }
                g.sort();
                let mut arguments: BTreeMap<_, _> = [("Holder".to_string(), a)].into();
                if FORMS[c.form] == "two" {
                    arguments.insert("Other".into(), vec![other_at(c, f)]);
                }
                Offer::Written { generics: g, arguments, marks: vec![d.to_string()] }
            }
        });
    }
    out
}

/// Functions of the first fork that the second one retires.
const RETIRED: [&str; 13] = [
    "get_unslashed_attesting_indices",
    "get_matching_source_attestations",
    "get_matching_target_attestations",
    "get_matching_head_attestations",
    "get_source_deltas",
    "get_target_deltas",
    "get_head_deltas",
    "get_inclusion_delay_deltas",
    "get_inactivity_penalty_deltas",
    "get_attestation_deltas",
    "get_attestation_component_deltas",
    "get_attesting_balance",
    "process_participation_record_updates",
];

fn bits(m: usize) -> [bool; 6] {
    std::array::from_fn(|i| m >> i & 1 == 1)
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let base = Case { kind: Kind::Const, item: [0; 6], container: [false; 6], grows: true, form: 0, moves: false, name: "THING" };
    // Items without dependencies: absent, public or private in every fork.
    for kind in [Kind::Const, Kind::Struct, Kind::Alias, Kind::Trait, Kind::Fn] {
        let name = match kind {
            Kind::Const => "THING",
            Kind::Fn => "do_thing",
            _ => "Thing",
        };
        for m in 1..729usize {
            if !thorough && kind != Kind::Const && kind != Kind::Fn && m % 3 != 1 && m % 3 != 0 {
                continue;
            }
            let item: [u8; 6] = std::array::from_fn(|i| (m / 3usize.pow(i as u32) % 3) as u8);
            if !thorough && item.iter().filter(|x| **x == 2).count() > 1 {
                continue;
            }
            for moves in [false, true] {
                v.push(Case { kind, item, moves, name, ..base.clone() });
            }
        }
    }
    // Functions that depend on a container, over all histories of both.
    for im in 1..64usize {
        for cm in 1..64usize {
            // The container exists when the function is first defined.
            if cm.trailing_zeros() > im.trailing_zeros() {
                continue;
            }
            for form in 1..FORMS.len() {
                for grows in [true, false] {
                    if !thorough && (!grows && form > 2 || grows && form > 2 && (im + cm + form) % 2 == 1) {
                        continue;
                    }
                    let item = bits(im).map(|b| b as u8);
                    v.push(Case { kind: Kind::Fn, item, container: bits(cm), grows, form, moves: (im + cm) % 2 == 1, name: "do_thing" });
                }
            }
        }
    }
    // Retired functions.
    for name in RETIRED {
        for im in 1..64usize {
            for form in [0, 1] {
                let item = bits(im).map(|b| b as u8);
                v.push(Case { kind: Kind::Fn, item, container: [form == 1; 6], form, name, ..base.clone() });
            }
        }
    }
    v
}

fn generate(root: &Path) -> Result<Vec<String>, String> {
    std::env::set_current_dir(root).unwrap();
    guard(generator::run)?;
    FORKS
        .iter()
        .map(|f| fs::read_to_string(root.join(format!("ethereum-consensus/src/{f}/spec/mod.rs"))).map_err(|e| e.to_string()))
        .collect()
}

pub fn child(i: usize, n: usize, thorough: bool, out: &mut Out) {
    let scratch = Scratch::new(&format!("forks-{i}"));
    tree::prepare(&scratch.0);
    for (k, c) in cases(thorough).into_iter().enumerate() {
        if k % n != i {
            continue;
        }
        out.state();
        let key = format!("{:?} {} item={:?} container={:?} grows={} form={} moves={}", c.kind, c.name, c.item, c.container.map(|b| b as u8), c.grows, FORMS[c.form], c.moves);
        let t = build(&c);
        let sources = || {
            let mut s: Vec<String> = t.files.iter().map(|((f, m), t)| format!("// {}/{m}.rs\n{t}", FORKS[*f])).collect();
            s.sort();
            s.join("\n")
        };
        tree::write(&scratch.0, &t);
        match generate(&scratch.0) {
            Err(m) => out.fail(&key, &format!("the generator failed: {m}\n{}", sources())),
            Ok(texts) => {
                for (f, want) in expected(&c).into_iter().enumerate() {
                    out.transition();
                    let got = match offers(&texts, f, &["Holder", "Other"], &|fork, module, name| t.defines(fork, module, name)) {
                        Ok(m) => m,
                        Err(e) => {
                            out.fail(&key, &format!("the module of {} {e}\n{}", FORKS[f], sources()));
                            continue;
                        }
                    };
                    let want: Vec<Offer> = want.into_iter().collect();
                    let got_item = got.get(c.name).cloned().unwrap_or_default();
                    if want != got_item {
                        out.fail(&key, &format!("{} should offer {} as {want:?}, but offers {got_item:?}\n{}", FORKS[f], c.name, sources()));
                    }
                    let holder: Vec<Offer> = (0..=f).rev().find(|g| c.container[*g]).map(|g| Offer::From(FORKS[g].into())).into_iter().collect();
                    let mut companions = vec!["Holder"];
                    match FORMS[c.form] {
                        "two" => companions.push("Other"),
                        "trait" => companions.push("Engine"),
                        _ => {}
                    }
                    for name in &companions {
                        let got_holder = got.get(*name).cloned().unwrap_or_default();
                        if holder != got_holder {
                            out.fail(&key, &format!("{} should offer {name} as {holder:?}, but offers {got_holder:?}\n{}", FORKS[f], sources()));
                        }
                    }
                    for name in got.keys() {
                        if name != c.name && !companions.contains(&name.as_str()) {
                            out.fail(&key, &format!("{} offers {name}, which nobody defines\n{}", FORKS[f], sources()));
                        }
                    }
                }
                if k % 50 == 0 {
                    // The result depends on the sources alone.
                    out.transition();
                    if generate(&scratch.0).as_ref() != Ok(&texts) {
                        out.fail(&key, "a second run gives another result");
                    }
                }
                out.sample(&format!("{key}\n{}\n// generated for electra\n{}", sources(), texts[5]));
            }
        }
        tree::clear(&scratch.0, &t);
        out.trace();
    }
    if i == 0 {
        real_tree(out);
    }
}

/// The real sources: generating again changes nothing that a user of the modules can see.
fn real_tree(out: &mut Out) {
    let scratch = Scratch::new("forks-real");
    tree::copy_dir(Path::new("/repo/ethereum-consensus/src"), &scratch.0.join("ethereum-consensus/src"));
    let checked_in: Vec<String> = FORKS
        .iter()
        .map(|f| fs::read_to_string(format!("/repo/ethereum-consensus/src/{f}/spec/mod.rs")).unwrap())
        .collect();
    let names = containers();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let all: std::collections::BTreeSet<(String, String, String)> =
        FORKS.iter().flat_map(|f| own(f).into_iter().map(|(m, n)| (f.to_string(), m, n))).collect();
    let defined = |f: &str, m: &str, n: &str| all.contains(&(f.to_string(), m.to_string(), n.to_string()));
    let texts = match generate(&scratch.0) {
        Ok(t) => t,
        Err(m) => return out.fail("real tree", &format!("the generator failed: {m}")),
    };
    for _ in 0..2 {
        out.transition();
        if generate(&scratch.0).as_ref() != Ok(&texts) {
            out.fail("real tree", "a second run gives another result");
        }
    }
    for (f, fork) in FORKS.iter().enumerate() {
        out.state();
        // Marks are string literals of the bodies: how a body is written is not compared.
        let strip = |m: BTreeMap<String, Vec<Offer>>| -> BTreeMap<String, Vec<Offer>> {
            m.into_iter()
                .map(|(k, v)| {
                    let v = v
                        .into_iter()
                        .map(|o| match o {
                            Offer::Written { generics, arguments, .. } => Offer::Written { generics, arguments, marks: vec![] },
                            o => o,
                        })
                        .collect();
                    (k, v)
                })
                .collect()
        };
        let (new, old) = match (offers(&texts, f, &names, &defined), offers(&checked_in, f, &names, &defined)) {
            (Ok(a), Ok(b)) => (strip(a), strip(b)),
            (Err(e), _) => return out.fail(&format!("real tree {fork}"), &format!("generated: {e}")),
            (_, Err(e)) => return out.fail(&format!("real tree {fork}"), &format!("checked in: {e}")),
        };
        let all: std::collections::BTreeSet<&String> = new.keys().chain(old.keys()).collect();
        for name in all {
            out.transition();
            // An item that the sources have gained since the modules were written is not judged.
            if old.contains_key(name) && new.get(name) != old.get(name) {
                out.fail(&format!("real tree {fork} {name}"), &format!("generated {:?}\nchecked in {:?}", new.get(name), old.get(name)));
            }
            if new.get(name).is_some_and(|v| v.len() > 1) {
                out.fail(&format!("real tree {fork} {name}"), "offered more than once");
            }
        }
        // Nothing that an ancestor offers is lost, except what the second fork retires.
        if f > 0 {
            let before = offers(&texts, f - 1, &names, &defined).unwrap_or_default();
            for name in before.keys() {
                out.transition();
                if !new.contains_key(name) && !(f == 1 && RETIRED.contains(&name.as_str())) {
                    out.fail(&format!("real tree {fork} {name}"), "offered by the fork before, but not by this one");
                }
            }
        }
        // Everything a fork defines is offered as its own.
        for (module, name) in own(fork) {
            out.transition();
            if new.get(&name) != Some(&vec![Offer::From(fork.to_string())]) {
                out.fail(&format!("real tree {fork} {name}"), &format!("defined in {module} but offered as {:?}", new.get(&name)));
            }
        }
        out.trace();
    }
}

/// Public items of the modules from which a fork's specification is built.
fn own(fork: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for m in tree::MODULES.iter().chain(tree::MORE[..3].iter()) {
        // Not part of the specification modules: constants of the first networking module only.
        let path = format!("/repo/ethereum-consensus/src/{fork}/{m}.rs");
        let Ok(text) = fs::read_to_string(&path) else { continue };
        let Ok(file) = syn::parse_file(&text) else { continue };
        for item in file.items {
            let (vis, ident) = match item {
                Item::Fn(i) => (i.vis, i.sig.ident),
                Item::Struct(i) => (i.vis, i.ident),
                Item::Const(i) => (i.vis, i.ident),
                Item::Type(i) => (i.vis, i.ident),
                Item::Trait(i) => (i.vis, i.ident),
                _ => continue,
            };
            if matches!(vis, syn::Visibility::Public(_)) {
                v.push((m.to_string(), ident.to_string()));
            }
        }
    }
    v
}

fn containers() -> Vec<String> {
    let mut v = vec![];
    for f in FORKS {
        let Ok(dir) = fs::read_dir(format!("/repo/ethereum-consensus/src/{f}")) else { continue };
        for e in dir.flatten() {
            let Ok(text) = fs::read_to_string(e.path()) else { continue };
            let Ok(file) = syn::parse_file(&text) else { continue };
            for item in file.items {
                if let Item::Struct(s) = item {
                    if !s.generics.params.is_empty() && !v.contains(&s.ident.to_string()) {
                        v.push(s.ident.to_string());
                    }
                }
            }
        }
    }
    v
}

pub fn check(run: &Run) {
    run.bound("one item (constant, container, alias, trait or function), absent, public or private in each of the six forks, in one module or moving between two; a function in each of 7 relations to a container, over all histories of both; all retired functions; the real tree");
    run.assume("a function depends on at most one container that changes between forks (the generator unites the parameters of changed containers only)");
    shard::run(run, "forks");
    run.part("source trees");
}
