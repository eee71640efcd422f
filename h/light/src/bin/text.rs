//! C03 and C04: hexadecimal and decimal text encodings.
use h_light::serde as codec;
use mc::{guard, tuples, Run};
use serde::{Deserialize, Serialize};
use std::{fmt, fmt::Debug, str::FromStr};

fn main() {
    mc::main(&[("C03", hex), ("C04", decimal)])
}

// ---------------------------------------------------------------- C03

/// The reference encoder, digit by digit.
fn model_hex(data: &[u8]) -> String {
    let digits = b"0123456789abcdef";
    let mut s = String::new();
    for b in data {
        s.push(digits[(b >> 4) as usize] as char);
        s.push(digits[(b & 15) as usize] as char);
    }
    s
}

/// The reference decoder.
fn model_unhex(text: &str) -> Option<Vec<u8>> {
    let t: Vec<char> = text.chars().collect();
    let t = if t.len() >= 2 && t[0] == '0' && t[1] == 'x' { &t[2..] } else { &t[..] };
    if t.len() % 2 != 0 {
        return None;
    }
    let d = |c: char| match c {
        '0'..='9' => Some(c as u8 - b'0'),
        'a'..='f' => Some(c as u8 - b'a' + 10),
        'A'..='F' => Some(c as u8 - b'A' + 10),
        _ => None,
    };
    t.chunks(2).map(|p| Some(d(p[0])? * 16 + d(p[1])?)).collect()
}

struct Full<'a>(&'a [u8]);
impl fmt::Display for Full<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        codec::write_bytes_to_lower_hex(f, self.0)
    }
}
struct Short<'a>(&'a [u8]);
impl fmt::Display for Short<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        codec::write_bytes_to_lower_hex_display(f, self.0.iter())
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Arr<const N: usize>(#[serde(with = "codec::as_hex")] Fixed<N>)
where
    Fixed<N>: Debug;

#[derive(PartialEq, Clone)]
struct Fixed<const N: usize>([u8; N]);
impl<const N: usize> Debug for Fixed<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl<const N: usize> AsRef<[u8]> for Fixed<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> TryFrom<&[u8]> for Fixed<N> {
    type Error = String;
    fn try_from(b: &[u8]) -> Result<Self, String> {
        b.try_into().map(Fixed).map_err(|_| "length".into())
    }
}

#[derive(PartialEq, Debug, Clone)]
struct Bytes(Vec<u8>);
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl TryFrom<&[u8]> for Bytes {
    type Error = String;
    fn try_from(b: &[u8]) -> Result<Self, String> {
        Ok(Bytes(b.to_vec()))
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Dyn(#[serde(with = "codec::as_hex")] Bytes);

/// Every way of handing a JSON document to a deserializer.
fn presentations<T: for<'a> Deserialize<'a>>(json: &str) -> Vec<(&'static str, Result<T, String>)> {
    let e = |r: Result<T, serde_json::Error>| r.map_err(|_| "rejected".to_string());
    let mut v = vec![
        ("text", guard(|| e(serde_json::from_str(json))).and_then(|r| r)),
        ("bytes", guard(|| e(serde_json::from_slice(json.as_bytes()))).and_then(|r| r)),
        ("reader", guard(|| e(serde_json::from_reader(json.as_bytes()))).and_then(|r| r)),
    ];
    if let Ok(value) = serde_json::from_str::<serde_json::Value>(json) {
        v.push(("tree", guard(|| e(serde_json::from_value(value))).and_then(|r| r)));
    }
    v
}

fn bytes_case(run: &Run, data: &[u8]) {
    run.state();
    let h = model_hex(data);
    let key = |w: &str| format!("{w} {h}");
    run.eq(|| key("display"), &Ok(format!("0x{h}")), &guard(|| Full(data).to_string()));
    let n = data.len();
    let short = if n >= 4 {
        format!("0x{}…{}", model_hex(&data[..2]), model_hex(&data[n - 2..]))
    } else {
        format!("0x{h}")
    };
    run.eq(|| key("abbreviated"), &Ok(short), &guard(|| Short(data).to_string()));
    for text in [format!("0x{h}"), h.clone(), format!("0x{}", h.to_uppercase()), h.to_uppercase()] {
        let got = guard(|| codec::try_bytes_from_hex_str(&text).ok());
        run.eq(|| key(&format!("decode {text}")), &Ok(Some(data.to_vec())), &got);
    }
    let json = format!("\"0x{h}\"");
    let got = guard(|| serde_json::to_string(&Dyn(Bytes(data.to_vec()))).unwrap());
    run.eq(|| key("serialize"), &Ok(json.clone()), &got);
    let tree = guard(|| serde_json::to_value(Dyn(Bytes(data.to_vec()))).unwrap());
    run.eq(|| key("serialize tree"), &Ok(serde_json::Value::String(format!("0x{h}"))), &tree);
    for (how, got) in presentations::<Dyn>(&json) {
        run.eq(|| key(&format!("deserialize from {how}")), &Ok(Dyn(Bytes(data.to_vec()))), &got);
    }
    run.trace();
}

fn text_case(run: &Run, text: &str) {
    run.state();
    let want = model_unhex(text);
    let got = guard(|| codec::try_bytes_from_hex_str(text).ok());
    run.eq(|| format!("text {text:?}"), &Ok(want.clone()), &got);
}

fn fixed_case<const N: usize>(run: &Run, text: &str) {
    let json = serde_json::to_string(text).unwrap();
    let want = model_unhex(text)
        .and_then(|b| <[u8; N]>::try_from(b).ok())
        .map(|b| Arr(Fixed(b)))
        .ok_or("rejected".to_string());
    for (how, got) in presentations::<Arr<N>>(&json) {
        run.eq(|| format!("{N} bytes from {how} {text:?}"), &want, &got);
    }
}

fn hex(run: &Run) {
    run.bound("all byte strings of at most 2 bytes; all strings of 3 to 6 bytes (thorough: 8) over {00,0f,a0,ff}; lengths 7..100");
    bytes_case(run, &[]);
    for a in 0..=255u8 {
        bytes_case(run, &[a]);
        for b in 0..=255u8 {
            bytes_case(run, &[a, b]);
        }
    }
    let alphabet = [0x00, 0x0f, 0xa0, 0xff];
    for n in 3..=run.pick(6, 8) {
        for t in tuples(n, 4) {
            bytes_case(run, &t.iter().map(|i| alphabet[*i]).collect::<Vec<_>>());
        }
    }
    for n in 7..100 {
        bytes_case(run, &(0..n).map(|i| (i * 37 + 11) as u8).collect::<Vec<_>>());
    }
    run.part("byte strings");
    let chars = ['0', 'x', '9', 'a', 'F', 'g', 'X', ' ', 'é', '…'];
    let n = run.pick(5, 6);
    run.bound(format!("all texts of at most {n} characters over {chars:?}; every ASCII character at every place of a four-digit text"));
    for n in 0..=n {
        for t in tuples(n, chars.len()) {
            text_case(run, &t.iter().map(|i| chars[*i]).collect::<String>());
        }
    }
    for prefix in ["", "0x"] {
        for place in 0..4 {
            for c in 0..=255u32 {
                let c = char::from_u32(c).unwrap();
                let mut t: Vec<char> = "1b3D".chars().collect();
                t[place] = c;
                text_case(run, &format!("{prefix}{}", t.iter().collect::<String>()));
            }
        }
    }
    run.part("texts");
    run.bound("fixed sizes 0, 1, 2, 3, 4 and 32 against all texts of at most 4 characters over {0,x,a,G} and hex lengths around the size");
    for n in 0..=run.pick(4, 6) {
        for t in tuples(n, 4) {
            let text: String = t.iter().map(|i| ['0', 'x', 'a', 'G'][*i]).collect();
            fixed_case::<0>(run, &text);
            fixed_case::<1>(run, &text);
            fixed_case::<2>(run, &text);
            fixed_case::<3>(run, &text);
        }
    }
    for n in 0..70 {
        for p in ["", "0x"] {
            let text = format!("{p}{}", "5c".repeat(35).chars().take(n).collect::<String>());
            fixed_case::<4>(run, &text);
            fixed_case::<32>(run, &text);
        }
    }
    for json in ["null", "1", "true", "[]", "[\"0x00\"]", "{}", "\"0x\\u0030\\u0030\"", ""] {
        let want = if json.starts_with('"') { Ok(Dyn(Bytes(vec![0]))) } else { Err("rejected".into()) };
        for (how, got) in presentations::<Dyn>(json) {
            run.eq(|| format!("document {json} from {how}"), &want, &got);
        }
    }
    run.part("documents");
}

// ---------------------------------------------------------------- C04

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(bound(deserialize = "T: FromStr, <T as FromStr>::Err: fmt::Display", serialize = "T: fmt::Display"))]
struct One<T>(#[serde(with = "codec::as_str")] T);

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(bound(deserialize = "T: FromStr", serialize = "T: fmt::Display"))]
struct Many<T>(#[serde(with = "codec::seq_of_str")] Vec<T>);

#[derive(Debug, PartialEq, Clone)]
struct Three(Vec<u64>);
impl TryFrom<Vec<u64>> for Three {
    type Error = String;
    fn try_from(v: Vec<u64>) -> Result<Self, String> {
        if v.len() <= 3 {
            Ok(Three(v))
        } else {
            Err("too long".into())
        }
    }
}
impl AsRef<[u64]> for Three {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Bounded(#[serde(with = "codec::seq_of_str")] Three);

/// What a text must mean: a value, nothing, or (for redundant but numeric forms) either.
#[derive(Debug, Clone, PartialEq)]
enum Meaning {
    Value(u128),
    Invalid,
    Lenient(u128),
}

fn model_decimal(text: &str, max: u128) -> Meaning {
    let (sign, digits) = match text.strip_prefix('+') {
        Some(d) => (true, d),
        None => (false, text),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return Meaning::Invalid;
    }
    let mut v: u128 = 0;
    for b in digits.bytes() {
        v = match v.checked_mul(10).and_then(|v| v.checked_add((b - b'0') as u128)) {
            Some(v) if v <= max => v,
            _ => return Meaning::Invalid,
        };
    }
    if sign || digits.len() > 1 && digits.starts_with('0') {
        Meaning::Lenient(v)
    } else {
        Meaning::Value(v)
    }
}

fn agree(want: &Meaning, got: &Result<u128, String>) -> bool {
    match (want, got) {
        (Meaning::Value(v), Ok(g)) | (Meaning::Lenient(v), Ok(g)) => v == g,
        (Meaning::Lenient(_) | Meaning::Invalid, Err(m)) => m == "rejected",
        _ => false,
    }
}

/// JSON text whose characters are all escaped: the same string, which a parser cannot borrow.
fn escaped(text: &str) -> String {
    let mut s = String::from("\"");
    for u in text.encode_utf16() {
        s += &format!("\\u{u:04x}");
    }
    s + "\""
}

fn number<T>(run: &Run, name: &str, max: u128, text: &str)
where
    T: FromStr + fmt::Display + Copy + Into<u128> + Debug + PartialEq,
    T::Err: fmt::Display,
{
    run.state();
    let want = model_decimal(text, max);
    let quoted = serde_json::to_string(text).unwrap();
    let key = |w: &str, how: &str| format!("{w} {name} from {how} {text:?}");
    for (json, form) in [(quoted.clone(), "plain"), (escaped(text), "escaped")] {
        for (how, got) in presentations::<One<T>>(&json) {
            run.transition();
            let got = got.map(|g| g.0.into());
            if !agree(&want, &got) {
                run.fail(key("number", &format!("{how} {form}")), || format!("expected {want:?}, got {got:?}"));
            }
        }
        for (how, got) in presentations::<Many<T>>(&format!("[{json}]")) {
            run.transition();
            let got = got.and_then(|g| {
                if g.0.len() == 1 { Ok(g.0[0].into()) } else { Err(format!("{} elements", g.0.len())) }
            });
            if !agree(&want, &got) {
                run.fail(key("element", &format!("{how} {form}")), || format!("expected {want:?}, got {got:?}"));
            }
        }
    }
}

fn value<T>(run: &Run, name: &str, v: T, decimal: &str)
where
    T: FromStr + fmt::Display + Copy + Debug + PartialEq,
    T::Err: fmt::Display,
{
    run.state();
    let want = format!("\"{decimal}\"");
    run.eq(|| format!("serialize {name} {decimal}"), &Ok(want.clone()), &guard(|| serde_json::to_string(&One(v)).unwrap()));
    run.eq(
        || format!("serialize tree {name} {decimal}"),
        &Ok(serde_json::Value::String(decimal.into())),
        &guard(|| serde_json::to_value(One(v)).unwrap()),
    );
    for (how, got) in presentations::<One<T>>(&want) {
        run.eq(|| format!("read back {name} {decimal} from {how}"), &Ok(One(v)), &got);
    }
    run.trace();
}

/// Decimal digits by repeated subtraction of powers of ten.
fn model_digits(mut v: u128) -> String {
    let mut s = String::new();
    let mut p = 10u128.pow(38);
    while p > 0 {
        let mut d = 0;
        while v >= p {
            v -= p;
            d += 1;
        }
        if d > 0 || !s.is_empty() || p == 1 {
            s.push((b'0' + d) as char);
        }
        p /= 10;
    }
    s
}

fn decimal(run: &Run) {
    run.bound("all u8 and u16 values; u32/u64/u128 values within 2 of every power of two and ten");
    for v in 0..=u8::MAX {
        value(run, "u8", v, &model_digits(v as u128));
    }
    for v in 0..=u16::MAX {
        value(run, "u16", v, &model_digits(v as u128));
    }
    let mut wide: Vec<u128> = vec![u128::MAX, u128::MAX - 1];
    for p in (0..128).map(|s| 1u128 << s).chain((0..39).map(|e| 10u128.pow(e))) {
        for d in 0..=2u128 {
            wide.push(p.saturating_sub(d));
            wide.push(p.saturating_add(d));
        }
    }
    wide.sort();
    wide.dedup();
    for &v in &wide {
        let s = model_digits(v);
        value(run, "u128", v, &s);
        if let Ok(x) = u64::try_from(v) {
            value(run, "u64", x, &s);
        }
        if let Ok(x) = u32::try_from(v) {
            value(run, "u32", x, &s);
        }
        // The value's own text against every width: in range or rejected.
        number::<u8>(run, "u8", u8::MAX as u128, &s);
        number::<u16>(run, "u16", u16::MAX as u128, &s);
        number::<u32>(run, "u32", u32::MAX as u128, &s);
        number::<u64>(run, "u64", u64::MAX as u128, &s);
        number::<u128>(run, "u128", u128::MAX, &s);
    }
    run.part("values");

    let chars = ['0', '1', '9', '+', '-', ' ', '.', 'x', 'e', '_', '"', '\u{661}'];
    let n = run.pick(3, 4);
    run.bound(format!("all texts of at most {n} characters over {chars:?} as a number and as a list element, plain and escaped, held as text, bytes, reader and parsed tree"));
    for n in 0..=n {
        for t in tuples(n, chars.len()) {
            let text: String = t.iter().map(|i| chars[*i]).collect();
            number::<u8>(run, "u8", u8::MAX as u128, &text);
            number::<u64>(run, "u64", u64::MAX as u128, &text);
        }
    }
    for text in ["18446744073709551616", "340282366920938463463374607431768211456", "184467440737095516150", "1e3", "0x10", "1,000", "256", "٣"] {
        number::<u8>(run, "u8", u8::MAX as u128, text);
        number::<u64>(run, "u64", u64::MAX as u128, text);
        number::<u128>(run, "u128", u128::MAX, text);
    }
    for json in ["1", "1.0", "null", "true", "[]", "{}", "[\"1\"]", ""] {
        for (how, got) in presentations::<One<u64>>(json) {
            run.eq(|| format!("number document {json} from {how}"), &Err("rejected".into()), &got);
        }
    }
    run.part("texts");

    let values = [0u64, 1, 9, 10, u64::MAX];
    let n = run.pick(4, 6);
    run.bound(format!("all lists of at most {n} elements over {values:?}, with each element in turn replaced by an invalid one"));
    for n in 0..=n {
        for t in tuples(n, values.len()) {
            run.state();
            let list: Vec<u64> = t.iter().map(|i| values[*i]).collect();
            let items: Vec<String> = list.iter().map(|v| format!("\"{}\"", model_digits(*v as u128))).collect();
            let json = format!("[{}]", items.join(","));
            run.eq(|| format!("list {json}"), &Ok(json.clone()), &guard(|| serde_json::to_string(&Many(list.clone())).unwrap()));
            let tree = serde_json::Value::Array(list.iter().map(|v| serde_json::Value::String(model_digits(*v as u128))).collect());
            run.eq(|| format!("list tree {json}"), &Ok(tree), &guard(|| serde_json::to_value(Many(list.clone())).unwrap()));
            for (how, got) in presentations::<Many<u64>>(&json) {
                run.eq(|| format!("list from {how} {json}"), &Ok(Many(list.clone())), &got);
            }
            let want = if n <= 3 { Ok(Bounded(Three(list.clone()))) } else { Err("rejected".to_string()) };
            for (how, got) in presentations::<Bounded>(&json) {
                run.eq(|| format!("bounded list from {how} {json}"), &want, &got);
            }
            for bad in ["\"\"", "\"x\"", "\"18446744073709551616\"", "1", "null", "[]"] {
                for at in 0..n {
                    let mut items = items.clone();
                    items[at] = bad.into();
                    let json = format!("[{}]", items.join(","));
                    for (how, got) in presentations::<Many<u64>>(&json) {
                        run.eq(|| format!("bad list from {how} {json}"), &Err("rejected".into()), &got);
                    }
                }
            }
            run.trace();
        }
    }
    for json in ["\"1\"", "null", "{}", "1", "{\"0\":\"1\"}", "[\"1\"", "[\"1\",]"] {
        for (how, got) in presentations::<Many<u64>>(json) {
            run.eq(|| format!("list document {json} from {how}"), &Err("rejected".into()), &got);
        }
    }
    run.part("lists");
}
