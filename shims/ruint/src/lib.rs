//! Fixed-width unsigned integers (stand-in for the parts of `ruint` used by /repo).
use std::{cmp::Ordering, ops::Rem};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Uint<const BITS: usize, const LIMBS: usize>([u64; LIMBS]);

pub mod aliases {
    pub type U256 = crate::Uint<256, 4>;
    pub type U384 = crate::Uint<384, 6>;
}

impl<const B: usize, const L: usize> Default for Uint<B, L> {
    fn default() -> Self {
        Self::ZERO
    }
}
impl<const B: usize, const L: usize> std::fmt::Debug for Uint<B, L> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x")?;
        for l in self.0.iter().rev() {
            write!(f, "{l:016x}")?;
        }
        Ok(())
    }
}
impl<const B: usize, const L: usize> PartialOrd for Uint<B, L> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const B: usize, const L: usize> Ord for Uint<B, L> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl<const B: usize, const L: usize> Uint<B, L> {
    pub const ZERO: Self = Self([0; L]);
    pub const MAX: Self = Self([u64::MAX; L]);
    pub const ONE: Self = {
        let mut l = [0; L];
        l[0] = 1;
        Self(l)
    };
    pub const fn as_limbs(&self) -> &[u64; L] {
        &self.0
    }
    pub const fn into_limbs(self) -> [u64; L] {
        self.0
    }
    pub fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    pub fn from_le_bytes<const N: usize>(mut b: [u8; N]) -> Self {
        assert!(N == B / 8);
        b.reverse();
        Self::from_be_slice(&b)
    }
    pub fn from_le_slice(b: &[u8]) -> Self {
        let mut b = b.to_vec();
        b.reverse();
        Self::from_be_slice(&b)
    }
    pub fn to_le_bytes<const N: usize>(&self) -> [u8; N] {
        let mut b = self.to_be_bytes::<N>();
        b.reverse();
        b
    }
    pub fn to_be_bytes_vec(&self) -> Vec<u8> {
        (0..B / 8).rev().map(|i| (self.0[i / 8] >> (8 * (i % 8))) as u8).collect()
    }
    pub fn to_le_bytes_vec(&self) -> Vec<u8> {
        (0..B / 8).map(|i| (self.0[i / 8] >> (8 * (i % 8))) as u8).collect()
    }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let (mut r, mut c) = ([0u64; L], 0u128);
        for k in 0..L {
            c += self.0[k] as u128 + o.0[k] as u128;
            r[k] = c as u64;
            c >>= 64;
        }
        (Self(r), c != 0)
    }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        let (mut r, mut bw) = ([0u64; L], 0u64);
        for k in 0..L {
            let (x, c1) = self.0[k].overflowing_sub(o.0[k]);
            let (y, c2) = x.overflowing_sub(bw);
            r[k] = y;
            bw = (c1 | c2) as u64;
        }
        (Self(r), bw != 0)
    }
    pub fn wrapping_add(self, o: Self) -> Self {
        self.overflowing_add(o).0
    }
    pub fn wrapping_sub(self, o: Self) -> Self {
        self.overflowing_sub(o).0
    }
    pub fn checked_sub(self, o: Self) -> Option<Self> {
        match self.overflowing_sub(o) {
            (r, false) => Some(r),
            _ => None,
        }
    }
    pub fn checked_rem(self, o: Self) -> Option<Self> {
        (!o.is_zero()).then(|| self % o)
    }
    pub fn reduce_mod(self, m: Self) -> Self {
        if m.is_zero() {
            m
        } else {
            self % m
        }
    }
    pub const fn from_limbs(l: [u64; L]) -> Self {
        Self(l)
    }
    pub fn from_be_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert!(N == B / 8);
        Self::from_be_slice(&b)
    }
    pub fn from_be_slice(b: &[u8]) -> Self {
        Self::try_from_be_slice(b).expect("value too large")
    }
    pub fn try_from_be_slice(b: &[u8]) -> Option<Self> {
        let mut r = [0u64; L];
        for (i, x) in b.iter().rev().enumerate() {
            if i / 8 >= L {
                if *x != 0 {
                    return None
                }
                continue
            }
            r[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        Some(Self(r))
    }
    pub fn to_be_bytes<const N: usize>(&self) -> [u8; N] {
        assert!(N == B / 8);
        let mut out = [0u8; N];
        for i in 0..N {
            out[N - 1 - i] = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        out
    }
    pub const fn parse_literal(s: &str) -> Self {
        let b = s.as_bytes();
        let mut r = [0u64; L];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'_' {
                if i + 1 < b.len() && b[i + 1] == b'U' {
                    break
                }
                i += 1;
                continue
            }
            let mut c = (b[i] - b'0') as u128;
            let mut k = 0;
            while k < L {
                c += r[k] as u128 * 10;
                r[k] = c as u64;
                c >>= 64;
                k += 1;
            }
            i += 1;
        }
        Self(r)
    }
}
impl<const B: usize, const L: usize> Rem for Uint<B, L> {
    type Output = Self;
    fn rem(self, m: Self) -> Self {
        assert!(m != Self::ZERO);
        let mut r = [0u64; L];
        for i in (0..B).rev() {
            let mut c = (self.0[i / 64] >> (i % 64)) & 1;
            for l in r.iter_mut() {
                let n = *l >> 63;
                *l = (*l << 1) | c;
                c = n;
            }
            if c == 1 || Self(r) >= m {
                let mut bw = 0u64;
                for k in 0..L {
                    let (x, c1) = r[k].overflowing_sub(m.0[k]);
                    let (y, c2) = x.overflowing_sub(bw);
                    r[k] = y;
                    bw = (c1 | c2) as u64;
                }
            }
        }
        Self(r)
    }
}
impl<const B: usize, const L: usize> std::ops::RemAssign for Uint<B, L> {
    fn rem_assign(&mut self, m: Self) {
        *self = *self % m;
    }
}
impl<'a, const B: usize, const L: usize> Rem<&'a Self> for Uint<B, L> {
    type Output = Self;
    fn rem(self, m: &'a Self) -> Self {
        self % *m
    }
}
impl From<Uint<256, 4>> for Uint<384, 6> {
    fn from(v: Uint<256, 4>) -> Self {
        let mut r = [0; 6];
        r[..4].copy_from_slice(&v.0);
        Self(r)
    }
}
macro_rules! small { ($($t:ty),*) => {$(
    impl<const B: usize, const L: usize> From<$t> for Uint<B, L> {
        fn from(v: $t) -> Self { let mut r = [0; L]; r[0] = v as u64; Self(r) }
    }
)*} }
small!(u8, u16, u32, u64, usize);

#[macro_export]
macro_rules! uint {
    ($x:tt) => {
        $crate::aliases::U256::parse_literal(stringify!($x))
    };
}
