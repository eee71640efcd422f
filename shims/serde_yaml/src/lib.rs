//! Stand-in for `serde_yaml` 0.8: flat `key: scalar` documents with comments and quoted scalars,
//! which is the whole of the network configuration format. Plain scalars keep their text when a
//! string is asked for and are typed (null, bool, int incl. 0x/0o, float, string) otherwise.
use serde::de::{self, value::StrDeserializer, DeserializeOwned, IntoDeserializer, Visitor};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(t: T) -> Self {
        Error(t.to_string())
    }
}

struct Scalar {
    text: String,
    plain: bool,
}

fn parse_int(s: &str) -> Option<i128> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    if t.is_empty() || t.starts_with(['+', '-', '_']) {
        return None
    }
    let v = if let Some(h) = t.strip_prefix("0x") {
        i128::from_str_radix(h, 16).ok()?
    } else if let Some(o) = t.strip_prefix("0o") {
        i128::from_str_radix(o, 8).ok()?
    } else if let Some(b) = t.strip_prefix("0b") {
        i128::from_str_radix(b, 2).ok()?
    } else if t.len() > 1 && t.starts_with('0') {
        return None
    } else {
        t.parse().ok()?
    };
    Some(if neg { -v } else { v })
}

impl Scalar {
    fn int(&self) -> Option<i128> {
        if self.plain {
            parse_int(&self.text)
        } else {
            None
        }
    }
}

macro_rules! ints {
    ($($f:ident),*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            match self.int() {
                Some(i) if i >= 0 && i <= u64::MAX as i128 => v.visit_u64(i as u64),
                Some(i) if i < 0 && i >= i64::MIN as i128 => v.visit_i64(i as i64),
                _ => Err(de::Error::invalid_type(de::Unexpected::Str(&self.text), &v)),
            }
        }
    )*};
}

impl<'de> de::Deserializer<'de> for Scalar {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.plain {
            match self.text.as_str() {
                "" | "~" | "null" => return v.visit_unit(),
                "true" => return v.visit_bool(true),
                "false" => return v.visit_bool(false),
                _ => {}
            }
            if let Some(i) = self.int() {
                if i >= 0 && i <= u64::MAX as i128 {
                    return v.visit_u64(i as u64)
                }
                if i < 0 && i >= i64::MIN as i128 {
                    return v.visit_i64(i as i64)
                }
                return if i < 0 { v.visit_i128(i) } else { v.visit_u128(i as u128) }
            }
            if self.text.starts_with(|c: char| c.is_ascii_digit() || c == '.' || c == '-') &&
                !(self.text.len() > 1 &&
                    self.text.starts_with('0') &&
                    self.text[1..].bytes().all(|b| b.is_ascii_digit()))
            {
                if let Ok(f) = self.text.parse::<f64>() {
                    return v.visit_f64(f)
                }
            }
        }
        v.visit_string(self.text)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_str(&self.text)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_str(&self.text)
    }
    ints!(
        deserialize_u8,
        deserialize_u16,
        deserialize_u32,
        deserialize_u64,
        deserialize_i8,
        deserialize_i16,
        deserialize_i32,
        deserialize_i64
    );
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.plain && matches!(self.text.as_str(), "" | "~" | "null") {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(
        self,
        _n: &'static str,
        v: V,
    ) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i128 u128 f32 f64 char bytes byte_buf unit unit_struct seq tuple tuple_struct map
        struct enum identifier ignored_any
    }
}

struct Doc(std::vec::IntoIter<(String, Scalar)>, Option<Scalar>);
impl<'de> de::MapAccess<'de> for Doc {
    type Error = Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, Error> {
        match self.0.next() {
            None => Ok(None),
            Some((key, v)) => {
                self.1 = Some(v);
                let d: StrDeserializer<'_, Error> = key.as_str().into_deserializer();
                k.deserialize(d).map(Some)
            }
        }
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, t: T) -> Result<T::Value, Error> {
        t.deserialize(self.1.take().unwrap())
    }
}
impl<'de> de::Deserializer<'de> for Doc {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_map(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn parse(s: &str) -> Result<Doc, Error> {
    let mut out = vec![];
    for (n, line) in s.lines().enumerate() {
        let bad = || Error(format!("unsupported or invalid yaml at line {}", n + 1));
        let t = line.trim_end();
        if t.trim().is_empty() || t.trim_start().starts_with('#') || t == "---" {
            continue
        }
        let (k, v) = t.split_once(':').ok_or_else(bad)?;
        if k.starts_with([' ', '\t', '-']) || !(v.is_empty() || v.starts_with([' ', '\t'])) {
            return Err(bad())
        }
        let v = v.trim_start();
        let sc = if let Some(r) = v.strip_prefix('\'') {
            let e = r.find('\'').ok_or_else(bad)?;
            Scalar { text: r[..e].to_string(), plain: false }
        } else if let Some(r) = v.strip_prefix('"') {
            let e = r.find('"').ok_or_else(bad)?;
            Scalar { text: r[..e].to_string(), plain: false }
        } else {
            let v = if v.starts_with('#') { "" } else { v.split(" #").next().unwrap() };
            Scalar { text: v.trim_end().to_string(), plain: true }
        };
        let k = k.trim_end();
        if out.iter().any(|(q, _): &(String, Scalar)| q == k) {
            return Err(Error(format!("duplicate key {k}")))
        }
        out.push((k.to_string(), sc));
    }
    Ok(Doc(out.into_iter(), None))
}

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    T::deserialize(parse(s)?)
}
pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(mut r: R) -> Result<T, Error> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}
