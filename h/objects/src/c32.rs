//! C32: every consensus object round-trips through SSZ and JSON, and what is no encoding is refused.
use crate::{
    form::{self, Fill, Val},
    kinds::{self, Kind, Seen},
};
use mc::{guard, parallel, Run};
use serde_json::Value as J;

fn short(s: String) -> String {
    if s.len() > 600 {
        let cut = (0..=600).rev().find(|i| s.is_char_boundary(*i)).unwrap();
        format!("{}…", &s[..cut])
    } else {
        s
    }
}
fn want(k: &Kind, v: &Val) -> Seen {
    Seen {
        ssz: k.ssz.map(|_| k.t.encode(v)),
        root: k.ssz.map(|_| k.t.root(v)),
        json: k.json.map(|_| k.t.json(v)),
    }
}
fn compare(run: &Run, key: &str, what: &str, want: &Seen, got: Result<Result<Seen, String>, String>, published: bool) -> bool {
    run.transition();
    let got = match got {
        Ok(Ok(g)) => g,
        e => {
            run.fail(format!("{key} {what} refused"), || format!("{:?}", e.map(|r| r.map(|_| ()))));
            return false
        }
    };
    let mut ok = true;
    if got.ssz != want.ssz {
        ok = false;
        run.fail(format!("{key} {what} encoding"), || short(format!("expected {:?}\n     got {:?}", want.ssz.as_ref().map(|b| form::hex(b)), got.ssz.as_ref().map(|b| form::hex(b)))));
    }
    if got.root != want.root {
        ok = false;
        run.fail(format!("{key} {what} root"), || format!("expected {:x?}\n     got {:x?}", want.root, got.root));
    }
    if published && got.json.is_some() {
        let mut diffs = vec![];
        differ(want.json.as_ref().unwrap(), got.json.as_ref().unwrap(), String::new(), &mut diffs);
        if let Some((at, text)) = diffs.into_iter().next() {
            ok = false;
            run.fail(format!("{key} {what} json {at}"), || short(text));
        }
    }
    ok
}
fn differ(want: &J, got: &J, at: String, out: &mut Vec<(String, String)>) {
    match (want, got) {
        (J::Object(a), J::Object(b)) => {
            if !a.keys().eq(b.keys()) {
                out.push((at.clone(), format!("expected fields {:?}\n     got {:?}", a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>())));
            }
            for (k, a) in a {
                if let Some(b) = b.get(k) {
                    differ(a, b, format!("{at}/{k}"), out);
                }
            }
        }
        (J::Array(a), J::Array(b)) if a.len() == b.len() => {
            for (a, b) in a.iter().zip(b) {
                differ(a, b, format!("{at}/."), out);
            }
        }
        _ if want != got => out.push((at, format!("expected {want}\n     got {got}"))),
        _ => {}
    }
}

/// One value: from both encodings the library makes the value's root and both encodings.
fn round(run: &Run, k: &Kind, shape: &str, v: &Val) {
    run.state();
    let want = want(k, v);
    let key = format!("{}: {shape}", k.name);
    if let (Some(f), Some(b)) = (k.ssz, &want.ssz) {
        compare(run, &key, "from SSZ", &want, guard(|| f(b)), k.published);
    }
    if let (Some(f), Some(j), true) = (k.json, &want.json, k.published) {
        compare(run, &key, "from JSON", &want, guard(|| f(j)), true);
    }
    if let (Some(s), Some(f), Some(b), false) = (k.ssz, k.json, &want.ssz, k.published) {
        if let Ok(Ok(Seen { json: Some(j), .. })) = guard(|| s(b)) {
            compare(run, &key, "from its own JSON", &want, guard(|| f(&j)), false);
        }
    }
    run.trace();
}
/// One byte string: accepted exactly if it is an encoding, and then as that value.
fn bytes(run: &Run, k: &Kind, what: &str, b: &[u8]) {
    let Some(f) = k.ssz else { return };
    run.state();
    let key = format!("{}: {what}", k.name);
    match k.t.decode(b) {
        Some(v) => {
            compare(run, &key, "", &want(k, &v), guard(|| f(b)), k.published);
        }
        None => {
            run.transition();
            match guard(|| f(b)) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => run.fail(format!("{key} accepted"), || short(form::hex(b))),
                Err(p) => run.fail(format!("{key} crash"), || format!("{p}\n{}", short(form::hex(b)))),
            }
        }
    }
}
/// One JSON document: if it is no form of the container, the library refuses it, or reads the value of which it is another spelling.
fn document(run: &Run, k: &Kind, at: &str, j: &J, base: &Seen) {
    let Some(f) = k.json else { return };
    run.state();
    let key = format!("{}: JSON {at}", k.name);
    match k.t.read(j, false) {
        Some(v) => {
            compare(run, &key, "", &want(k, &v), guard(|| f(j)), true);
        }
        None => {
            run.transition();
            match guard(|| f(j)) {
                Ok(Err(_)) => {}
                Ok(Ok(got)) if k.t.read(j, true).is_some_and(|v| want(k, &v) == got) => {}
                Ok(Ok(got)) => {
                    let mut diffs = vec![];
                    differ(base.json.as_ref().unwrap(), got.json.as_ref().unwrap(), String::new(), &mut diffs);
                    run.fail(format!("{key} misread"), || short(format!("{j} read as {diffs:?}")))
                }
                Err(p) => run.fail(format!("{key} crash"), || format!("{p} on {}", short(j.to_string()))),
            }
        }
    }
}

fn number(path: &str) -> String {
    path.split('/').map(|p| if p.parse::<u64>().is_ok() { "." } else { p }).collect::<Vec<_>>().join("/")
}

fn shapes(run: &Run, k: &Kind) -> Vec<(String, Val)> {
    let t = &k.t;
    let fill = |seed: u64, len: &dyn Fn(&str, u64) -> usize| Fill { seed, len }.value(t, "");
    let cap = |n: u64, k: u64| n.min(k) as usize;
    let tiny = k.preset == "tiny";
    let mut out = vec![
        ("zero".to_string(), form::empty(t)),
        ("no elements".into(), fill(1, &|_, _| 0)),
        ("one element each".into(), fill(2, &|_, n| cap(n, 1))),
        ("two elements each".into(), fill(3, &|_, n| cap(n, 2))),
        ("three elements each".into(), fill(4, &|_, n| cap(n, 3))),
    ];
    if tiny {
        out.push(("all full".into(), fill(5, &|_, n| cap(n, 40))));
    }
    // Each list alone at each length, all others at one.
    let mut places = vec![];
    form::lists(t, &out[2].1, String::new(), &mut places);
    let big = k.preset == "mainnet" && k.name.ends_with("BeaconState");
    if !big {
        for (at, n) in &places {
            let lens: Vec<u64> = if tiny { (0..=(*n).min(40)).collect() } else { vec![0, 2, 5, 8, 9, 31, 32, 33, 64, 65, 255, 256, 257] };
            for l in lens {
                if l == 1 || l > *n || (!tiny && l > run.pick(33, 257)) {
                    continue
                }
                let at2 = at.clone();
                let v = fill(6, &|p, n| if p == at2 { l as usize } else { cap(n, 1) });
                out.push((format!("{} of {l}", number(at)), v));
            }
            // the limit itself, where it is of a size that fits
            if !tiny && *n > 257 && *n <= run.pick(0, 8192) {
                let at2 = at.clone();
                let n2 = *n;
                out.push((format!("{} of {n2}", number(at)), fill(7, &|p, n| if p == at2 { n2 as usize } else { cap(n, 1) })));
            }
        }
        // Pairs of lists, each empty or of two.
        if tiny && run.thorough {
            for (i, (a, _)) in places.iter().enumerate() {
                for (b, _) in &places[i + 1..] {
                    for (x, y) in [(0, 0), (0, 2), (2, 0), (2, 2)] {
                        let v = fill(8, &|p, n| if p == a { cap(n, x) } else if p == b { cap(n, y) } else { cap(n, 1) });
                        out.push((format!("{} of {x} and {} of {y}", number(a), number(b)), v));
                    }
                }
            }
        }
    }
    out
}

fn kind(run: &Run, k: &Kind) {
    let shapes = shapes(run, k);
    for (what, v) in &shapes {
        if run.out_of_time() {
            return
        }
        round(run, k, what, v);
    }
    let tiny = k.preset == "tiny";
    let small = k.t.encode(&shapes[2].1).len() < 60_000;
    if !small {
        // of the large ones, the ends of the encoding
        let b = k.t.encode(&shapes[2].1);
        for n in [0, 1, b.len() / 2, b.len() - 1] {
            bytes(run, k, "truncated", &b[..n]);
        }
        let mut x = b.clone();
        x.push(0);
        bytes(run, k, "extended", &x);
        return
    }
    // Single leaves, at their bounds.
    if tiny || run.thorough {
        for (at, v) in form::leaf_changes(&k.t, &shapes[3].1) {
            round(run, k, &number(&at), &v);
        }
    }
    // What is no encoding.
    if let Some(_) = k.ssz {
        let bases: Vec<&Val> = if tiny { vec![&shapes[1].1, &shapes[3].1, &shapes[5].1] } else { vec![&shapes[3].1] };
        for v in bases {
            let mut b = vec![];
            let mut offsets = vec![];
            k.t.encode_into(v, &mut b, &mut offsets);
            let step = if tiny && run.thorough { 1 } else if tiny { b.len() / 300 + 1 } else { b.len() / 40 + 1 };
            for n in (0..b.len()).step_by(step).chain(b.len().saturating_sub(8)..b.len()) {
                bytes(run, k, "truncated", &b[..n]);
            }
            for extra in [&[0u8][..], &[1], &[0xff], &[0; 4], &[0; 32]] {
                let mut x = b.clone();
                x.extend(extra);
                bytes(run, k, "extended", &x);
            }
            for &o in &offsets {
                let was = u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
                for w in [was.wrapping_sub(4), was.wrapping_sub(1), was.wrapping_add(1), was.wrapping_add(4), 0, 1, 4, b.len() as u32, b.len() as u32 + 1, u32::MAX] {
                    let mut x = b.clone();
                    x[o..o + 4].copy_from_slice(&w.to_le_bytes());
                    bytes(run, k, "offset", &x);
                }
            }
            // every byte, where it is not only data: in the tiny forms every one of them
            if tiny {
                for i in (0..b.len()).step_by(run.pick(b.len() / 400 + 1, 1)) {
                    for w in [0, b[i] ^ 1, b[i] ^ 0x80, 0xff] {
                        let mut x = b.clone();
                        x[i] = w;
                        bytes(run, k, "byte", &x);
                    }
                }
            }
        }
        // Over the limit, one list at a time.
        if tiny {
            let mut places = vec![];
            form::lists(&k.t, &shapes[2].1, String::new(), &mut places);
            for (at, n) in places {
                let v = Fill { seed: 9, len: &|p, m| if p == at { n as usize + 1 } else { m.min(1) as usize } }.value(&k.t, "");
                bytes(run, k, &format!("{} over its limit", number(&at)), &k.t.encode(&v));
            }
        }
    }
    if k.published && k.json.is_some() && (tiny || run.thorough) {
        for v in [&shapes[2].1, &shapes[3].1] {
            let base = want(k, v);
            let j = base.json.clone().unwrap();
            let mut changes = vec![];
            form::json_changes(&k.t, &j, "", &mut changes);
            for (at, w) in changes {
                let mut j = j.clone();
                let name = number(&at);
                match w {
                    Some(w) if at.is_empty() => j = w,
                    Some(w) => *j.pointer_mut(&at).unwrap() = w,
                    None => {
                        let (parent, field) = at.rsplit_once('/').unwrap();
                        j.pointer_mut(parent).unwrap().as_object_mut().unwrap().remove(field);
                    }
                }
                document(run, k, &name, &j, &base);
            }
        }
    }
}

pub fn check(run: &Run) {
    let kinds = kinds::all();
    run.bound(format!("{} types: every container of Phase0 to Electra at the mainnet and minimal sizes, and at sizes that are all small and different", kinds.len()));
    run.bound("values: all zero; every leaf different, with every list of 0, 1, 2, 3 elements; each list alone at each length up to its limit (tiny sizes) or around each power of two (minimal, mainnet); each leaf alone at its bounds");
    run.bound("no encodings: truncations, extensions, each offset moved, single bytes changed, each list one over its limit; JSON: each field missing, each node replaced by each form of another type, by numbers out of range, by hex of another length");
    run.assume("ssz_rs is a stand-in written for this sandbox from the SSZ specification; the library's declarations, derives, byte lists and serde code are the real ones");
    run.assume("JSON in another spelling of the same value (without 0x, upper case) may be read as that value");
    parallel(&kinds, |k| {
        kind(run, k);
    });
    run.part("containers");
    run.sample(|| format!("{} encoded as {}", kinds[0].name, form::hex(&kinds[0].t.encode(&form::empty(&kinds[0].t)))));
}
