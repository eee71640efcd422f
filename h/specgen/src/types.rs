//! C09: the fork-spanning types offer, for every variant, exactly what its fork defines.
use crate::{
    shard,
    shard::{Out, Scratch},
    tree, type_generator, FORKS,
};
use mc::{guard, Run};
use quote::ToTokens;
use std::{collections::BTreeMap, fs, path::Path};
use syn::{visit::Visit, visit_mut::VisitMut, Item};

const VERSIONS: [&str; 5] = ["Phase0", "Altair", "Bellatrix", "Capella", "Deneb"];
/// (type, its module, its file, its field of a type that also spans forks, that type, has references)
const TYPES: [(&str, &str, &str, &str, &str, bool); 9] = [
    ("BeaconBlockBody", "beacon_block", "beacon_block_body", "execution_payload", "ExecutionPayload", true),
    ("BeaconBlock", "beacon_block", "beacon_block", "body", "BeaconBlockBody", true),
    ("SignedBeaconBlock", "beacon_block", "signed_beacon_block", "message", "BeaconBlock", false),
    ("ExecutionPayload", "execution_payload", "execution_payload", "", "", true),
    ("ExecutionPayloadHeader", "execution_payload", "execution_payload_header", "", "", true),
    ("BlindedBeaconBlockBody", "blinded_beacon_block", "blinded_beacon_block_body", "execution_payload_header", "ExecutionPayloadHeader", true),
    ("BlindedBeaconBlock", "blinded_beacon_block", "blinded_beacon_block", "body", "BlindedBeaconBlockBody", true),
    ("SignedBlindedBeaconBlock", "blinded_beacon_block", "signed_blinded_beacon_block", "message", "BlindedBeaconBlock", false),
    ("BeaconState", "beacon_state", "beacon_state", "latest_execution_payload_header", "ExecutionPayloadHeader", true),
];
const COPY: [&str; 5] = ["Root", "Slot", "ValidatorIndex", "WithdrawalIndex", "u64"];

/// One fork's definition of a type.
#[derive(Clone, Debug)]
struct Defn {
    fork: usize,
    generics: Vec<String>,
    fields: Vec<(String, String)>,
}

/// What an accessor gives for one variant.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Gives {
    Nothing,
    Itself,
    Field(String),
    Version(String),
    /// Written in a way this reader does not know.
    Unknown,
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Method {
    returns: String,
    gives: Vec<(String, Gives)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct View {
    /// variant -> fork module and its arguments
    variants: Vec<(String, String)>,
    methods: BTreeMap<String, Method>,
    /// fork module -> variant
    from: BTreeMap<String, String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Output {
    owned: View,
    tried: Vec<String>,
    shared: View,
    unique: View,
}

struct NoLifetimes;
impl VisitMut for NoLifetimes {
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut syn::AngleBracketedGenericArguments) {
        a.args = a.args.iter().filter(|a| !matches!(a, syn::GenericArgument::Lifetime(_))).cloned().collect();
        syn::visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
    }
    fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
        r.lifetime = None;
        syn::visit_mut::visit_type_reference_mut(self, r);
    }
}
fn text(t: &syn::Type) -> String {
    let mut t = t.clone();
    NoLifetimes.visit_type_mut(&mut t);
    t.to_token_stream().to_string().replace(' ', "").replace(",>", ">").replace("<>", "")
}
fn norm(s: &str) -> String {
    text(&syn::parse_str(s).unwrap())
}

/// The value of an accessor's arm: whether it is wrapped in `Some`, and what it is.
fn gives(e: &syn::Expr, bound: &str) -> Gives {
    match e {
        syn::Expr::Paren(p) => gives(&p.expr, bound),
        syn::Expr::Reference(r) => gives(&r.expr, bound),
        syn::Expr::Block(b) => match &b.block.stmts[..] {
            [syn::Stmt::Expr(e)] => gives(e, bound),
            _ => Gives::Unknown,
        },
        syn::Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if c.args.len() == 1 && (f == "Some" || f.ends_with("From::from") || f.ends_with("Ref::from") || f.ends_with("RefMut::from")) {
                gives(&c.args[0], bound)
            } else {
                Gives::Unknown
            }
        }
        syn::Expr::MethodCall(c) if c.method == "into" && c.args.is_empty() => match &*c.receiver {
            e => gives(e, bound),
        },
        syn::Expr::Field(f) => match (&*f.base, &f.member) {
            (syn::Expr::Path(p), syn::Member::Named(n)) if p.path.is_ident(bound) => Gives::Field(n.to_string()),
            _ => Gives::Unknown,
        },
        syn::Expr::Path(p) => {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            match &s[..] {
                [n] if n == "None" => Gives::Nothing,
                [n] if n == bound => Gives::Itself,
                [v, n] if v == "Version" => Gives::Version(n.clone()),
                _ => Gives::Unknown,
            }
        }
        _ => Gives::Unknown,
    }
}

fn method(m: &syn::ImplItemMethod, variants: &[String]) -> Method {
    let returns = match &m.sig.output {
        syn::ReturnType::Type(_, t) => text(t),
        _ => "()".into(),
    };
    let unknown = || variants.iter().map(|v| (v.clone(), Gives::Unknown)).collect();
    let expr = m.block.stmts.iter().rev().find_map(|s| match s {
        syn::Stmt::Expr(syn::Expr::Match(e)) => Some(e),
        _ => None,
    });
    let Some(e) = expr else { return Method { returns, gives: unknown() } };
    let mut out: Vec<(String, Gives)> = vec![];
    for v in variants {
        let mut found = Gives::Unknown;
        for arm in &e.arms {
            let mut alternatives = vec![];
            match &arm.pat {
                syn::Pat::Or(o) => alternatives.extend(o.cases.iter().cloned()),
                p => alternatives.push(p.clone()),
            }
            let mut hit = None;
            for p in alternatives {
                match p {
                    syn::Pat::Wild(_) => hit = Some(String::new()),
                    syn::Pat::TupleStruct(t) if t.path.segments.last().is_some_and(|s| s.ident == v) => {
                        hit = Some(t.pat.elems.iter().next().map(|p| p.to_token_stream().to_string()).unwrap_or_default())
                    }
                    _ => {}
                }
            }
            if let Some(bound) = hit {
                found = if arm.guard.is_some() { Gives::Unknown } else { gives(&arm.body, &bound) };
                break;
            }
        }
        out.push((v.clone(), found));
    }
    Method { returns, gives: out }
}

#[derive(Default)]
struct Tried(Vec<String>);
impl<'ast> Visit<'ast> for Tried {
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() == 2 && s[0] == "Self" && VERSIONS.contains(&s[1].as_str()) {
            self.0.push(s[1].clone());
        }
        syn::visit::visit_path(self, p);
    }
}

fn read(source: &str, name: &str) -> Result<Output, String> {
    let file = syn::parse_file(source).map_err(|e| format!("does not parse: {e}"))?;
    let mut out = Output::default();
    let (shared, unique) = (format!("{name}Ref"), format!("{name}RefMut"));
    for pass in 0..2 {
        for item in &file.items {
            match item {
                Item::Enum(e) if pass == 0 => {
                    let n = e.ident.to_string();
                    let view = if n == name {
                        &mut out.owned
                    } else if n == shared {
                        &mut out.shared
                    } else if n == unique {
                        &mut out.unique
                    } else {
                        continue;
                    };
                    for v in &e.variants {
                        let t = v.fields.iter().next().map(|f| text(&f.ty)).unwrap_or_default();
                        view.variants.push((v.ident.to_string(), t.to_string()));
                    }
                }
                Item::Impl(i) if pass == 1 => {
                    let syn::Type::Path(p) = &*i.self_ty else { continue };
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if let Some((_, t, _)) = &i.trait_ {
                        let last = t.segments.last().unwrap();
                        if last.ident == "Deserialize" && n == name {
                            let mut tried = Tried::default();
                            tried.visit_item_impl(i);
                            out.tried = tried.0;
                        }
                        let view = if n == shared {
                            &mut out.shared
                        } else if n == unique {
                            &mut out.unique
                        } else {
                            continue;
                        };
                        if last.ident == "From" {
                            if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                                    let t = text(t);
                                    let mut tried = Tried::default();
                                    tried.visit_item_impl(i);
                                    view.from.insert(t.to_string(), tried.0.join(" "));
                                }
                            }
                        }
                        continue;
                    }
                    let view = if n == name {
                        &mut out.owned
                    } else if n == shared {
                        &mut out.shared
                    } else if n == unique {
                        &mut out.unique
                    } else {
                        continue;
                    };
                    let variants: Vec<String> = view.variants.iter().map(|v| v.0.clone()).collect();
                    for m in &i.items {
                        if let syn::ImplItem::Method(m) = m {
                            if view.methods.insert(m.sig.ident.to_string(), method(m, &variants)).is_some() {
                                return Err(format!("{n} has two methods {}", m.sig.ident));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    Ok(out)
}

/// What the definitions ask for.
fn expected(ty: &(&str, &str, &str, &str, &str, bool), defns: &[Defn]) -> Output {
    let name = ty.0;
    let args = |d: &Defn| format!("{}::{name}<{}>", FORKS[d.fork], d.generics.join(","));
    let fields = {
        let mut v: Vec<(String, String)> = vec![];
        for d in defns {
            for (f, t) in &d.fields {
                match v.iter_mut().find(|x| x.0 == *f) {
                    Some(x) => x.1 = t.clone(),
                    None => v.push((f.clone(), t.clone())),
                }
            }
        }
        v
    };
    let view = |reference: &str, with_mut: bool, from: bool| {
        let mut w = View::default();
        for d in defns {
            w.variants.push((VERSIONS[d.fork].into(), norm(&format!("{reference}{}", args(d)))));
            if from {
                w.from.insert(norm(&format!("{reference}{}", args(d))), VERSIONS[d.fork].into());
            }
            let only = |f: usize| defns.iter().map(|e| (VERSIONS[e.fork].to_string(), if e.fork == f { Gives::Itself } else { Gives::Nothing })).collect();
            w.methods.insert(FORKS[d.fork].into(), Method { returns: norm(&format!("Option<&{}>", args(d))), gives: only(d.fork) });
            if with_mut {
                w.methods.insert(format!("{}_mut", FORKS[d.fork]), Method { returns: norm(&format!("Option<&mut {}>", args(d))), gives: only(d.fork) });
            }
        }
        w.methods.insert(
            "version".into(),
            Method { returns: "Version".into(), gives: defns.iter().map(|e| (VERSIONS[e.fork].to_string(), Gives::Version(VERSIONS[e.fork].into()))).collect() },
        );
        for (f, t) in &fields {
            let everywhere = defns.iter().all(|d| d.fields.iter().any(|x| x.0 == *f));
            let g: Vec<(String, Gives)> = defns
                .iter()
                .map(|d| (VERSIONS[d.fork].to_string(), if d.fields.iter().any(|x| x.0 == *f) { Gives::Field(f.clone()) } else { Gives::Nothing }))
                .collect();
            let wrap = |t: String| norm(&if everywhere { t } else { format!("Option<{t}>") });
            let (one, other) = if f == ty.3 {
                let generic = t.find('<').map(|i| t[i..].to_string()).unwrap_or_default();
                (format!("{}Ref{generic}", ty.4), format!("{}RefMut{generic}", ty.4))
            } else if COPY.contains(&t.as_str()) {
                (t.clone(), format!("&mut {t}"))
            } else {
                (format!("&{t}"), format!("&mut {t}"))
            };
            w.methods.insert(f.clone(), Method { returns: wrap(one), gives: g.clone() });
            if with_mut {
                w.methods.insert(format!("{f}_mut"), Method { returns: wrap(other), gives: g });
            }
        }
        w
    };
    Output {
        owned: view("", true, false),
        tried: defns.iter().rev().map(|d| VERSIONS[d.fork].to_string()).collect(),
        shared: if ty.5 { view("&", false, true) } else { View::default() },
        unique: if ty.5 { view("&mut ", true, true) } else { View::default() },
    }
}

/// The first difference, taking unknown parts for equal.
fn differ(want: &Output, got: &Output, de: bool) -> Option<String> {
    for (what, w, g) in [("", &want.owned, &got.owned), ("Ref", &want.shared, &got.shared), ("RefMut", &want.unique, &got.unique)] {
        if w.variants != g.variants {
            return Some(format!("{what}: variants should be {:?}, but are {:?}", w.variants, g.variants));
        }
        if w.from != g.from {
            return Some(format!("{what}: conversions should be {:?}, but are {:?}", w.from, g.from));
        }
        for (n, m) in &w.methods {
            let Some(h) = g.methods.get(n) else { return Some(format!("{what}: there is no method {n}")) };
            if m.returns != h.returns {
                return Some(format!("{what}: {n} should return {}, but returns {}", m.returns, h.returns));
            }
            for (v, x) in &m.gives {
                match h.gives.iter().find(|y| y.0 == *v) {
                    Some((_, Gives::Unknown)) => {}
                    Some((_, y)) if x == y || *x == Gives::Unknown => {}
                    y => return Some(format!("{what}: {n} of {v} should give {x:?}, but gives {:?}", y.map(|y| &y.1))),
                }
            }
        }
        if let Some(n) = g.methods.keys().find(|n| !w.methods.contains_key(*n)) {
            return Some(format!("{what}: there is a method {n}"));
        }
    }
    if de && !got.tried.is_empty() && want.tried != got.tried {
        return Some(format!("reading should try {:?}, but tries {:?}", want.tried, got.tried));
    }
    None
}

/// How one field develops: the fork that introduces it, its kind, and the fork that changes it.
#[derive(Clone, Debug, Default)]
struct Field {
    since: usize,
    kind: usize,
    change: Option<usize>,
}
const KINDS: [[&str; 2]; 5] = [["u64", "Root"], ["Bytes32", "Checkpoint"], ["List<u64, AA>", "List<Root, BB>"], ["Slot", "Bytes32"], ["Vector<Root, AA>", "u64"]];

#[derive(Clone, Debug)]
struct Case {
    start: usize,
    one: Field,
    two: Field,
    spanning: Option<usize>,
    retired: bool,
}

fn defns(c: &Case, ty: &(&str, &str, &str, &str, &str, bool)) -> Vec<Defn> {
    (c.start..5)
        .map(|f| {
            let mut fields = vec![("first".to_string(), "Slot".to_string())];
            if ty.0 == "BeaconState" && c.retired && f == 0 {
                fields.push(("previous_epoch_attestations".into(), "List<PendingAttestation<ZZ>, YY>".into()));
                fields.push(("current_epoch_attestations".into(), "List<PendingAttestation<ZZ>, YY>".into()));
            }
            for (name, x) in [("one", &c.one), ("two", &c.two)] {
                if f >= x.since {
                    fields.push((name.to_string(), KINDS[x.kind][x.change.is_some_and(|g| f >= g) as usize].to_string()));
                }
            }
            if c.spanning.is_some_and(|g| f >= g) && !ty.3.is_empty() {
                fields.push((ty.3.to_string(), format!("{}<AA, CC>", ty.4)));
            }
            let mut generics = vec![];
            for g in ["ZZ", "YY", "AA", "BB", "CC"] {
                if fields.iter().any(|x| x.1.contains(g)) {
                    generics.push(g.to_string());
                }
            }
            Defn { fork: f, generics, fields }
        })
        .collect()
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for start in 0..5 {
        let mut one = vec![];
        let mut two = vec![];
        for since in start..5 {
            for kind in 0..KINDS.len() {
                for change in std::iter::once(None).chain((since + 1..5).map(Some)) {
                    if thorough || kind == 0 || change.is_none() {
                        two.push(Field { since, kind, change });
                    }
                    one.push(Field { since, kind, change });
                }
            }
        }
        two.retain(|f| thorough || f.change.is_none() && f.kind == 2 && f.since == (start + 1).min(4));
        for a in &one {
            for b in &two {
                for spanning in std::iter::once(None).chain((start..5).map(Some)) {
                    if !thorough && a.change.is_some() && spanning.is_some_and(|s| s != start + 1) {
                        continue;
                    }
                    if thorough && spanning.is_some_and(|s| s > start + 1) && a.kind > 0 && b.kind > 0 {
                        continue;
                    }
                    v.push(Case { start, one: a.clone(), two: b.clone(), spanning, retired: start == 0 });
                }
            }
        }
    }
    v
}

fn generate(root: &Path) -> Result<Vec<String>, String> {
    std::env::set_current_dir(root).unwrap();
    guard(type_generator::run)?;
    TYPES.iter().map(|t| fs::read_to_string(root.join(format!("ethereum-consensus/src/types/{}.rs", t.2))).map_err(|e| e.to_string())).collect()
}

pub fn child(i: usize, n: usize, thorough: bool, out: &mut Out) {
    let scratch = Scratch::new(&format!("types-{i}"));
    tree::prepare(&scratch.0);
    for (k, c) in cases(thorough).into_iter().enumerate() {
        if k % n != i {
            continue;
        }
        out.state();
        let key = format!("{c:?}");
        let mut t = tree::Tree::default();
        for ty in &TYPES {
            for d in defns(&c, ty) {
                let g: Vec<String> = d.generics.iter().map(|g| format!("const {g}: usize")).collect();
                let f: Vec<String> = d.fields.iter().map(|(f, t)| format!("    pub {f}: {t},")).collect();
                t.add(d.fork, ty.1, &format!("pub struct {}<{}> {{\n{}\n}}", ty.0, g.join(", "), f.join("\n")));
            }
        }
        tree::write(&scratch.0, &t);
        match generate(&scratch.0) {
            Err(m) => out.fail(&key, &format!("the generator failed: {m}")),
            Ok(texts) => {
                for (ty, text) in TYPES.iter().zip(&texts) {
                    out.transition();
                    let d = defns(&c, ty);
                    match read(text, ty.0) {
                        Err(e) => out.fail(&format!("{} {key}", ty.0), &e),
                        Ok(got) => {
                            if let Some(x) = differ(&expected(ty, &d), &got, true) {
                                out.fail(&format!("{} {key}", ty.0), &format!("{x}\n{d:?}"));
                            }
                        }
                    }
                }
                if k % 50 == 0 {
                    out.transition();
                    if generate(&scratch.0).as_ref() != Ok(&texts) {
                        out.fail(&key, "a second run gives another result");
                    }
                }
                out.sample(&format!("{key}\n// {}\n{}", TYPES[1].0, texts[1]));
            }
        }
        tree::clear(&scratch.0, &t);
        out.trace();
    }
    if i == 0 {
        real_tree(out);
    }
}

fn real_defns(ty: &(&str, &str, &str, &str, &str, bool)) -> Vec<Defn> {
    let mut v = vec![];
    for f in 0..5 {
        let Ok(source) = fs::read_to_string(format!("/repo/ethereum-consensus/src/{}/{}.rs", FORKS[f], ty.1)) else { continue };
        let Ok(file) = syn::parse_file(&source) else { continue };
        for item in file.items {
            if let Item::Struct(s) = item {
                if s.ident == ty.0 {
                    let generics = s.generics.params.iter().filter_map(|p| if let syn::GenericParam::Const(c) = p { Some(c.ident.to_string()) } else { None }).collect();
                    let fields = s.fields.iter().map(|x| (x.ident.as_ref().unwrap().to_string(), text(&x.ty))).collect();
                    v.push(Defn { fork: f, generics, fields });
                }
            }
        }
    }
    v
}

fn real_tree(out: &mut Out) {
    let scratch = Scratch::new("types-real");
    tree::copy_dir(Path::new("/repo/ethereum-consensus/src"), &scratch.0.join("ethereum-consensus/src"));
    let texts = match generate(&scratch.0) {
        Ok(t) => t,
        Err(m) => return out.fail("real tree", &format!("the generator failed: {m}")),
    };
    for (ty, text) in TYPES.iter().zip(&texts) {
        out.state();
        let key = format!("real tree {}", ty.0);
        let want = expected(ty, &real_defns(ty));
        let checked_in = fs::read_to_string(format!("/repo/ethereum-consensus/src/types/{}.rs", ty.2)).unwrap();
        for (what, source) in [("generated", text), ("checked in", &checked_in)] {
            out.transition();
            match read(source, ty.0) {
                Err(e) => out.fail(&key, &format!("{what}: {e}")),
                Ok(got) => {
                    if let Some(x) = differ(&want, &got, true) {
                        out.fail(&key, &format!("{what}: {x}"));
                    }
                }
            }
        }
        out.trace();
    }
}

pub fn check(run: &Run) {
    run.bound("all nine types; every starting fork; a field introduced by any fork in each of 5 kinds and changed by any later fork, next to a second field and a field of a spanning type introduced by any fork; the two retired lists; the real tree");
    run.assume("an accessor written in a form the reader does not know is not judged here (C33 judges its behaviour)");
    shard::run(run, "types");
    run.part("type histories");
}
