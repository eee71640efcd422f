//! The forms of a type by the SSZ specification: what its values are, how they are encoded, read
//! back and hashed, and what they look like in JSON. Independent of the library and its SSZ code.
use serde_json::{json, Value as J};
use sha2::{Digest, Sha256};

#[derive(Clone, Debug)]
pub enum T {
    /// an unsigned number of so many bytes
    U(usize),
    Bool,
    /// bytes of a fixed length, a list of bytes of a limit
    Bytes(usize),
    Data(u64),
    Bits(usize),
    BitList(u64),
    Vect(Box<T>, usize),
    List(Box<T>, u64),
    C(&'static str, Vec<(&'static str, T)>),
}
pub use T::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    /// of a number or bytes, least significant byte first
    B(Vec<u8>),
    Flag(bool),
    Flags(Vec<bool>),
    Seq(Vec<Val>),
}

pub fn list(t: &T, n: u64) -> T {
    List(Box::new(t.clone()), n)
}
pub fn vector(t: &T, n: usize) -> T {
    Vect(Box::new(t.clone()), n)
}

fn sha(a: &[u8], b: &[u8]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(a);
    h.update(b);
    h.finalize().into()
}
fn zero(depth: usize) -> [u8; 32] {
    use std::sync::OnceLock;
    static Z: OnceLock<Vec<[u8; 32]>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut v = vec![[0u8; 32]];
        for i in 0..64 {
            let h = sha(&v[i], &v[i]);
            v.push(h);
        }
        v
    })[depth]
}
/// The root of the tree that holds the chunks and is deep enough for `limit` of them.
fn merkle(mut nodes: Vec<[u8; 32]>, limit: u64) -> [u8; 32] {
    let mut depth = 0;
    while 1u128 << depth < limit as u128 {
        depth += 1;
    }
    for d in 0..depth {
        if nodes.is_empty() {
            return zero(depth)
        }
        if nodes.len() % 2 == 1 {
            nodes.push(zero(d));
        }
        nodes = nodes.chunks(2).map(|c| sha(&c[0], &c[1])).collect();
    }
    nodes.first().copied().unwrap_or(zero(depth))
}
fn chunks(bytes: &[u8]) -> Vec<[u8; 32]> {
    bytes
        .chunks(32)
        .map(|c| {
            let mut x = [0u8; 32];
            x[..c.len()].copy_from_slice(c);
            x
        })
        .collect()
}
fn with_length(root: [u8; 32], n: usize) -> [u8; 32] {
    let mut l = [0u8; 32];
    l[..8].copy_from_slice(&(n as u64).to_le_bytes());
    sha(&root, &l)
}
fn pack(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        v[i / 8] |= (*b as u8) << (i % 8);
    }
    v
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 + 2 * b.len());
    s.push_str("0x");
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
fn decimal(le: &[u8]) -> String {
    let mut n = le.to_vec();
    let mut digits = vec![];
    while n.iter().any(|b| *b != 0) {
        let mut r = 0u32;
        for b in n.iter_mut().rev() {
            let x = r * 256 + *b as u32;
            *b = (x / 10) as u8;
            r = x % 10;
        }
        digits.push(b'0' + r as u8);
    }
    if digits.is_empty() {
        digits.push(b'0');
    }
    digits.reverse();
    String::from_utf8(digits).unwrap()
}

impl T {
    /// The length of the encoding, where it is the same for all values.
    pub fn fixed(&self) -> Option<usize> {
        match self {
            U(n) | Bytes(n) => Some(*n),
            Bool => Some(1),
            Bits(n) => Some(n.div_ceil(8)),
            Data(_) | BitList(_) | List(..) => None,
            Vect(t, n) => t.fixed().map(|k| k * n),
            C(_, f) => f.iter().map(|f| f.1.fixed()).sum(),
        }
    }
    fn basic(&self) -> bool {
        matches!(self, U(_) | Bool)
    }

    pub fn encode(&self, v: &Val) -> Vec<u8> {
        let mut out = vec![];
        self.encode_into(v, &mut out, &mut vec![]);
        out
    }
    /// Encodes, and notes where offsets are written.
    pub fn encode_into(&self, v: &Val, out: &mut Vec<u8>, offsets: &mut Vec<usize>) {
        match (self, v) {
            (U(_) | Bytes(_) | Data(_), Val::B(b)) => out.extend(b),
            (Bool, Val::Flag(b)) => out.push(*b as u8),
            (Bits(_), Val::Flags(b)) => out.extend(pack(b)),
            (BitList(_), Val::Flags(b)) => {
                let mut b = b.clone();
                b.push(true);
                out.extend(pack(&b))
            }
            (Vect(t, _) | List(t, _), Val::Seq(s)) => parts(&s.iter().map(|v| (&**t, v)).collect::<Vec<_>>(), out, offsets),
            (C(_, f), Val::Seq(s)) => parts(&f.iter().zip(s).map(|(f, v)| (&f.1, v)).collect::<Vec<_>>(), out, offsets),
            (t, v) => panic!("{v:?} is no value of {t:?}"),
        }
    }

    pub fn root(&self, v: &Val) -> [u8; 32] {
        match (self, v) {
            (U(_), Val::B(b)) => merkle(chunks(b), 1),
            (Bytes(n), Val::B(b)) => merkle(chunks(b), n.div_ceil(32) as u64),
            (Bool, Val::Flag(b)) => merkle(chunks(&[*b as u8]), 1),
            (Data(n), Val::B(b)) => with_length(merkle(chunks(b), n.div_ceil(32)), b.len()),
            (Bits(n), Val::Flags(b)) => merkle(chunks(&pack(b)), n.div_ceil(256) as u64),
            (BitList(n), Val::Flags(b)) => with_length(merkle(chunks(&pack(b)), n.div_ceil(256)), b.len()),
            (Vect(t, n), Val::Seq(s)) => t.elements(s, *n as u64),
            (List(t, n), Val::Seq(s)) => with_length(t.elements(s, *n), s.len()),
            (C(_, f), Val::Seq(s)) => merkle(f.iter().zip(s).map(|(f, v)| f.1.root(v)).collect(), f.len() as u64),
            (t, v) => panic!("{v:?} is no value of {t:?}"),
        }
    }
    fn elements(&self, s: &[Val], limit: u64) -> [u8; 32] {
        if self.basic() {
            let size = self.fixed().unwrap() as u64;
            let mut bytes = vec![];
            for v in s {
                self.encode_into(v, &mut bytes, &mut vec![]);
            }
            merkle(chunks(&bytes), (limit * size).div_ceil(32))
        } else {
            merkle(s.iter().map(|v| self.root(v)).collect(), limit)
        }
    }

    pub fn json(&self, v: &Val) -> J {
        match (self, v) {
            (U(_), Val::B(b)) => decimal(b).into(),
            (Bytes(_) | Data(_), Val::B(b)) => hex(b).into(),
            (Bool, Val::Flag(b)) => (*b).into(),
            (Bits(_) | BitList(_), _) => hex(&self.encode(v)).into(),
            (Vect(t, _) | List(t, _), Val::Seq(s)) => s.iter().map(|v| t.json(v)).collect(),
            (C(_, f), Val::Seq(s)) => f.iter().zip(s).map(|(f, v)| (f.0.to_string(), f.1.json(v))).collect::<serde_json::Map<_, _>>().into(),
            (t, v) => panic!("{v:?} is no value of {t:?}"),
        }
    }

    /// Reads an encoding, if it is one.
    pub fn decode(&self, b: &[u8]) -> Option<Val> {
        match self {
            U(n) | Bytes(n) => (b.len() == *n).then(|| Val::B(b.to_vec())),
            Data(n) => (b.len() as u64 <= *n).then(|| Val::B(b.to_vec())),
            Bool => (b.len() == 1 && b[0] < 2).then(|| Val::Flag(b[0] == 1)),
            Bits(n) => {
                if b.len() != n.div_ceil(8) {
                    return None
                }
                let bit = |i: usize| b[i / 8] >> (i % 8) & 1 == 1;
                if (*n..b.len() * 8).any(bit) {
                    return None
                }
                Some(Val::Flags((0..*n).map(bit).collect()))
            }
            BitList(n) => {
                let last = *b.last()?;
                if last == 0 {
                    return None
                }
                let len = (b.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
                if len as u64 > *n {
                    return None
                }
                Some(Val::Flags((0..len).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()))
            }
            Vect(t, n) => split(&vec![&**t; *n], b).map(Val::Seq),
            List(t, n) => {
                let k = match t.fixed() {
                    Some(k) => {
                        if b.len() % k != 0 {
                            return None
                        }
                        b.len() / k
                    }
                    None if b.is_empty() => 0,
                    None => {
                        let first = u32::from_le_bytes(b.get(..4)?.try_into().unwrap()) as usize;
                        if first % 4 != 0 || first == 0 {
                            return None
                        }
                        first / 4
                    }
                };
                if k as u64 > *n || k > b.len() {
                    return None
                }
                split(&vec![&**t; k], b).map(Val::Seq)
            }
            C(_, f) => split(&f.iter().map(|f| &f.1).collect::<Vec<_>>(), b).map(Val::Seq),
        }
    }

    /// Reads a JSON form, if it is one. Of several forms of one value the published alone, unless `loose`.
    pub fn read(&self, j: &J, loose: bool) -> Option<Val> {
        match self {
            U(n) => {
                let s = j.as_str()?;
                let v = parse(s, *n)?;
                (loose || decimal(&v) == s).then_some(Val::B(v))
            }
            Bytes(n) => unhex(j, loose).filter(|b| b.len() == *n).map(Val::B),
            Data(n) => unhex(j, loose).filter(|b| b.len() as u64 <= *n).map(Val::B),
            Bool => j.as_bool().map(Val::Flag),
            Bits(_) | BitList(_) => self.decode(&unhex(j, loose)?),
            Vect(t, n) => {
                let a = j.as_array().filter(|a| a.len() == *n)?;
                a.iter().map(|j| t.read(j, loose)).collect::<Option<_>>().map(Val::Seq)
            }
            List(t, n) => {
                let a = j.as_array().filter(|a| a.len() as u64 <= *n)?;
                a.iter().map(|j| t.read(j, loose)).collect::<Option<_>>().map(Val::Seq)
            }
            C(_, f) => f.iter().map(|f| f.1.read(j.get(f.0)?, loose)).collect::<Option<_>>().map(Val::Seq),
        }
    }
}
fn unhex(j: &J, loose: bool) -> Option<Vec<u8>> {
    let s = j.as_str()?;
    let s = s.strip_prefix("0x").or(loose.then_some(s))?;
    if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn parse(s: &str, size: usize) -> Option<Vec<u8>> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None
    }
    let mut v = vec![0u8; size];
    for d in s.bytes() {
        let mut carry = (d - b'0') as u32;
        for b in v.iter_mut() {
            let x = *b as u32 * 10 + carry;
            *b = x as u8;
            carry = x >> 8;
        }
        if carry > 0 {
            return None
        }
    }
    Some(v)
}
fn parts(p: &[(&T, &Val)], out: &mut Vec<u8>, offsets: &mut Vec<usize>) {
    let start = out.len();
    let mut holes = vec![];
    for (t, v) in p {
        if t.fixed().is_some() {
            t.encode_into(v, out, offsets);
        } else {
            holes.push(out.len());
            offsets.push(out.len());
            out.extend([0; 4]);
        }
    }
    let mut holes = holes.into_iter();
    for (t, v) in p {
        if t.fixed().is_none() {
            let at = (out.len() - start) as u32;
            let h = holes.next().unwrap();
            out[h..h + 4].copy_from_slice(&at.to_le_bytes());
            t.encode_into(v, out, offsets);
        }
    }
}
fn split(ts: &[&T], b: &[u8]) -> Option<Vec<Val>> {
    let head: usize = ts.iter().map(|t| t.fixed().unwrap_or(4)).sum();
    let mut at = 0;
    let mut offsets = vec![];
    for t in ts {
        let n = t.fixed().unwrap_or(4);
        let part = b.get(at..at + n)?;
        if t.fixed().is_none() {
            offsets.push(u32::from_le_bytes(part.try_into().unwrap()) as usize);
        }
        at += n;
    }
    if offsets.first().copied().unwrap_or(b.len()) != head {
        return None
    }
    offsets.push(b.len());
    if offsets.windows(2).any(|w| w[0] > w[1]) {
        return None
    }
    let mut at = 0;
    let mut k = 0;
    let mut out = vec![];
    for t in ts {
        match t.fixed() {
            Some(n) => {
                out.push(t.decode(&b[at..at + n])?);
                at += n;
            }
            None => {
                out.push(t.decode(&b[offsets[k]..offsets[k + 1]])?);
                k += 1;
                at += 4;
            }
        }
    }
    Some(out)
}

/// Fills a value: every leaf different, every list of the length asked for at its place.
pub struct Fill<'a> {
    pub seed: u64,
    pub len: &'a dyn Fn(&str, u64) -> usize,
}
impl Fill<'_> {
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        self.seed += 1;
        let mut out = vec![];
        let mut k = 0u64;
        while out.len() < n {
            let mut h = Sha256::new();
            h.update(self.seed.to_le_bytes());
            h.update(k.to_le_bytes());
            out.extend(h.finalize());
            k += 1;
        }
        out.truncate(n);
        out
    }
    pub fn value(&mut self, t: &T, at: &str) -> Val {
        match t {
            U(n) | Bytes(n) => Val::B(self.bytes(*n)),
            Bool => Val::Flag(self.bytes(1)[0] & 1 == 1),
            Data(n) => {
                let k = (self.len)(at, *n);
                Val::B(self.bytes(k))
            }
            Bits(n) => {
                let b = self.bytes(*n);
                Val::Flags(b.iter().map(|b| b & 1 == 1).collect())
            }
            BitList(n) => {
                let k = (self.len)(at, *n);
                let b = self.bytes(k);
                Val::Flags(b.iter().map(|b| b & 1 == 1).collect())
            }
            Vect(t, n) => Val::Seq((0..*n).map(|i| self.value(t, &format!("{at}/{i}"))).collect()),
            List(t, n) => {
                let k = (self.len)(at, *n);
                Val::Seq((0..k).map(|i| self.value(t, &format!("{at}/{i}"))).collect())
            }
            C(_, f) => Val::Seq(f.iter().map(|f| self.value(&f.1, &format!("{at}/{}", f.0))).collect()),
        }
    }
}
/// The value all whose bytes are zero and whose lists are empty.
pub fn empty(t: &T) -> Val {
    match t {
        U(n) | Bytes(n) => Val::B(vec![0; *n]),
        Data(_) => Val::B(vec![]),
        Bool => Val::Flag(false),
        Bits(n) => Val::Flags(vec![false; *n]),
        BitList(_) => Val::Flags(vec![]),
        Vect(t, n) => Val::Seq(vec![empty(t); *n]),
        List(..) => Val::Seq(vec![]),
        C(_, f) => Val::Seq(f.iter().map(|f| empty(&f.1)).collect()),
    }
}
/// The places of lists in a value, with their limits; vectors are followed at both ends.
pub fn lists(t: &T, v: &Val, at: String, out: &mut Vec<(String, u64)>) {
    match (t, v) {
        (Data(n), _) | (BitList(n), _) => out.push((at, *n)),
        (List(t, n), Val::Seq(s)) => {
            out.push((at.clone(), *n));
            if let Some(v) = s.first() {
                lists(t, v, format!("{at}/0"), out);
            }
        }
        (Vect(t, n), Val::Seq(s)) => {
            for i in ends(*n) {
                lists(t, &s[i], format!("{at}/{i}"), out);
            }
        }
        (C(_, f), Val::Seq(s)) => {
            for (f, v) in f.iter().zip(s) {
                lists(&f.1, v, format!("{at}/{}", f.0), out);
            }
        }
        _ => {}
    }
}
fn ends(n: usize) -> Vec<usize> {
    let mut v = vec![0, n / 2, n - 1];
    v.dedup();
    v
}
/// Every change of one leaf to a bound of what it can hold; each as the whole value.
pub fn leaf_changes(t: &T, v: &Val) -> Vec<(String, Val)> {
    match (t, v) {
        (U(n) | Bytes(n), Val::B(_)) => {
            let mut out = vec![];
            let mut put = |w: &str, f: &dyn Fn(usize) -> u8| out.push((w.to_string(), Val::B((0..*n).map(f).collect())));
            put("zero", &|_| 0);
            put("ones", &|_| 0xff);
            put("first", &|i| (i == 0) as u8);
            put("last", &|i| if i == n - 1 { 0x80 } else { 0 });
            if *n > 8 {
                put("run", &|i| i as u8);
            }
            out
        }
        (Data(_), Val::B(b)) => vec![("zero".into(), Val::B(vec![0; b.len()])), ("ones".into(), Val::B(vec![0xff; b.len()]))],
        (Bool, _) => vec![("false".into(), Val::Flag(false)), ("true".into(), Val::Flag(true))],
        (Bits(_) | BitList(_), Val::Flags(b)) => {
            let n = b.len();
            let mut out = vec![("none".to_string(), Val::Flags(vec![false; n])), ("all".into(), Val::Flags(vec![true; n]))];
            if n > 0 {
                for k in [0, n / 2, n - 1] {
                    out.push((format!("bit {k}"), Val::Flags((0..n).map(|i| i == k).collect())));
                }
            }
            out
        }
        (Vect(t, _) | List(t, _), Val::Seq(s)) if !s.is_empty() => ends(s.len())
            .into_iter()
            .flat_map(|i| {
                leaf_changes(t, &s[i]).into_iter().map(move |(w, x)| {
                    let mut s = s.clone();
                    s[i] = x;
                    (format!("{i}/{w}"), Val::Seq(s))
                })
            })
            .collect(),
        (C(_, f), Val::Seq(s)) => f
            .iter()
            .enumerate()
            .flat_map(|(i, f)| {
                leaf_changes(&f.1, &s[i]).into_iter().map(move |(w, x)| {
                    let mut s = s.clone();
                    s[i] = x;
                    (format!("{}/{w}", f.0), Val::Seq(s))
                })
            })
            .collect(),
        _ => vec![],
    }
}
/// Every single change of a JSON form.
pub fn json_changes(t: &T, j: &J, at: &str, out: &mut Vec<(String, Option<J>)>) {
    let mut put = |w: J| {
        if &w != j {
            out.push((at.to_string(), Some(w)))
        }
    };
    for w in [json!(null), json!(true), json!(7), json!(-1), json!(0.5), json!(""), json!("x"), json!([]), json!([null]), json!({})] {
        put(w);
    }
    match (t, j) {
        (U(_), J::String(s)) => {
            for w in [format!("-{s}"), format!("{s}.0"), format!(" {s}"), format!("0x{s}"), format!("{s}{}", "0".repeat(78))] {
                put(w.into());
            }
            let n = match t {
                U(1) => "256",
                U(8) => "18446744073709551616",
                _ => "115792089237316195423570985008687907853269984665640564039457584007913129639936",
            };
            put(n.into());
        }
        (Bytes(_) | Data(_) | Bits(_) | BitList(_), J::String(s)) => {
            let h = &s[2..];
            let mut w = vec![format!("0x{h}00"), format!("0x{h}01"), format!("0x{h}0"), format!("0x{h}zz"), format!("0x 0{h}"), "0x".to_string(), h.to_string()];
            if !h.is_empty() {
                w.extend([format!("0x{}", &h[2..]), format!("0x{}", &h[1..]), format!("0xg{}", &h[1..]), format!("0x{}", h.to_uppercase()), format!("0x{}00", &h[..h.len() - 2]), format!("0x{}ff", &h[..h.len() - 2])]);
            }
            w.into_iter().for_each(|w| put(w.into()));
        }
        (Vect(e, _), J::Array(a)) | (List(e, _), J::Array(a)) => {
            let limit = match t {
                Vect(_, n) => *n as u64,
                List(_, n) => *n,
                _ => 0,
            };
            if let Some(x) = a.first() {
                for n in [a.len() as u64 - 1, a.len() as u64 + 1, limit, limit + 1] {
                    if n <= 40 {
                        let mut b = a.clone();
                        b.resize(n as usize, x.clone());
                        put(J::Array(b));
                    }
                }
                json_changes(e, x, &format!("{at}/0"), out);
            }
        }
        (C(_, f), J::Object(o)) => {
            for (k, t) in f {
                let at = format!("{at}/{k}");
                out.push((at.clone(), None));
                json_changes(t, &o[*k], &at, out);
            }
        }
        _ => {}
    }
}
