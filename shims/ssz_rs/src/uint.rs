use crate::*;
use std::{cmp::Ordering, fmt, str::FromStr};

/// Little-endian 256-bit unsigned integer.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256([u8; 32]);

impl U256 {
    pub const ZERO: Self = U256([0; 32]);
    pub const MAX: Self = U256([255; 32]);
    pub const fn from_le_bytes(b: [u8; 32]) -> Self {
        U256(b)
    }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self {
        b.reverse();
        U256(b)
    }
    pub fn to_le_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub const ONE: Self = {
        let mut b = [0; 32];
        b[0] = 1;
        U256(b)
    };
    pub fn to_be_bytes(&self) -> [u8; 32] {
        let mut b = self.0;
        b.reverse();
        b
    }
    pub fn from_le_slice(b: &[u8]) -> Self {
        let mut v = [0; 32];
        v[..b.len()].copy_from_slice(b);
        U256(v)
    }
    pub fn as_le_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    fn mul10_add(&mut self, d: u8) -> bool {
        let mut c = d as u32;
        for b in self.0.iter_mut() {
            c += *b as u32 * 10;
            *b = c as u8;
            c >>= 8;
        }
        c == 0
    }
    fn divmod10(&mut self) -> u8 {
        let mut r = 0u32;
        for b in self.0.iter_mut().rev() {
            r = (r << 8) | *b as u32;
            *b = (r / 10) as u8;
            r %= 10;
        }
        r as u8
    }
}
macro_rules! small { ($($t:ty),*) => {$(
    impl From<$t> for U256 {
        fn from(v: $t) -> Self {
            let mut b = [0; 32];
            b[..16].copy_from_slice(&(v as u128).to_le_bytes());
            U256(b)
        }
    }
)*} }
small!(u8, u16, u32, u64, u128, usize);
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut v = *self;
        let mut s = vec![];
        loop {
            s.push(b'0' + v.divmod10());
            if v == U256::ZERO {
                break
            }
        }
        s.reverse();
        f.write_str(std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self}")
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseU256Error;
impl fmt::Display for ParseU256Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid 256-bit integer")
    }
}
impl std::error::Error for ParseU256Error {}
impl FromStr for U256 {
    type Err = ParseU256Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        if s.is_empty() {
            return Err(ParseU256Error)
        }
        let mut v = U256::ZERO;
        for c in s.bytes() {
            if !c.is_ascii_digit() || !v.mul10_add(c - b'0') {
                return Err(ParseU256Error)
            }
        }
        Ok(v)
    }
}
impl serde::Serialize for U256 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for U256 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = U256;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a 256-bit integer")
            }
            fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<U256, E> {
                Ok(v.into())
            }
            fn visit_u128<E: serde::de::Error>(self, v: u128) -> Result<U256, E> {
                let mut b = [0; 32];
                b[..16].copy_from_slice(&v.to_le_bytes());
                Ok(U256(b))
            }
            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<U256, E> {
                v.parse().map_err(E::custom)
            }
        }
        d.deserialize_any(V)
    }
}
impl Serializable for U256 {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for U256 {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend_from_slice(&self.0);
        Ok(32)
    }
}
impl Deserialize for U256 {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        crate::scalar::exact(e, 32)?;
        Ok(U256(e.try_into().unwrap()))
    }
}
impl HashTreeRoot for U256 {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(Node(self.0))
    }
    fn is_composite_type() -> bool {
        false
    }
}
impl GeneralizedIndexable for U256 {
    fn chunk_count() -> usize {
        1
    }
}
impl SimpleSerialize for U256 {}
