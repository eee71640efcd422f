//! The scalar field of BLS12-381, and a transparent encoding of "group elements" as their
//! discrete logarithms. Used by the stand-ins for blst and c-kzg: every algebraic identity of the
//! real groups holds, the encodings have the real sizes, flag bits and failure classes.
use sha2::{Digest, Sha256};

/// Little-endian limbs, canonical (not Montgomery) representation, always < R.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Fr(pub [u64; 4]);

pub const R: [u64; 4] =
    [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48];
const INV: u64 = 0xfffffffeffffffff;

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i]
        }
    }
    true
}
fn sub(a: &mut [u64; 4], b: &[u64; 4]) {
    let mut bw = 0u64;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (y, c2) = x.overflowing_sub(bw);
        a[i] = y;
        bw = (c1 | c2) as u64;
    }
}
fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let v = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[4] = v as u64;
        t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let mut c = (t[0] as u128 + m as u128 * R[0] as u128) >> 64;
        for j in 1..4 {
            let v = t[j] as u128 + m as u128 * R[j] as u128 + c;
            t[j - 1] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[3] = v as u64;
        t[4] = t[5] + (v >> 64) as u64;
    }
    let mut r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &R) {
        sub(&mut r, &R);
    }
    r
}
fn r2() -> &'static [u64; 4] {
    static V: std::sync::OnceLock<[u64; 4]> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut x = Fr([1, 0, 0, 0]);
        for _ in 0..512 {
            x = x.add(&x);
        }
        x.0
    })
}

impl Fr {
    pub const ZERO: Fr = Fr([0; 4]);
    pub const ONE: Fr = Fr([1, 0, 0, 0]);
    pub fn from_u64(v: u64) -> Fr {
        Fr([v, 0, 0, 0])
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn add(&self, o: &Fr) -> Fr {
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let v = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = v as u64;
            c = v >> 64;
        }
        if c != 0 || geq(&r, &R) {
            sub(&mut r, &R);
        }
        Fr(r)
    }
    pub fn neg(&self) -> Fr {
        if self.is_zero() {
            return *self
        }
        let mut r = R;
        sub(&mut r, &self.0);
        Fr(r)
    }
    pub fn sub(&self, o: &Fr) -> Fr {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Fr) -> Fr {
        Fr(mont(&mont(&self.0, r2()), &o.0))
    }
    pub fn pow(&self, e: &[u64; 4]) -> Fr {
        let mut r = Fr::ONE;
        for i in (0..256).rev() {
            r = r.mul(&r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn inv(&self) -> Fr {
        let mut e = R;
        e[0] -= 2;
        self.pow(&e)
    }
    pub fn to_be_bytes(&self) -> [u8; 32] {
        let mut b = [0; 32];
        for i in 0..4 {
            b[32 - 8 * (i + 1)..32 - 8 * i].copy_from_slice(&self.0[i].to_be_bytes());
        }
        b
    }
    /// canonical only
    pub fn from_be_bytes(b: &[u8]) -> Option<Fr> {
        if b.len() != 32 {
            return None
        }
        let mut r = [0u64; 4];
        for i in 0..4 {
            r[i] = u64::from_be_bytes(b[32 - 8 * (i + 1)..32 - 8 * i].try_into().unwrap());
        }
        if geq(&r, &R) {
            None
        } else {
            Some(Fr(r))
        }
    }
    /// any number of big-endian bytes, reduced
    pub fn reduce_be(b: &[u8]) -> Fr {
        let base = Fr::from_u64(256);
        let mut r = Fr::ZERO;
        for x in b {
            r = r.mul(&base).add(&Fr::from_u64(*x as u64));
        }
        r
    }
    pub fn hash(domain: &[u8], msg: &[u8]) -> Fr {
        let h = |i: u8| {
            let mut h = Sha256::new();
            h.update([i]);
            h.update((domain.len() as u64).to_be_bytes());
            h.update(domain);
            h.update(msg);
            h.finalize()
        };
        let mut b = h(0).to_vec();
        b.extend_from_slice(&h(1));
        Fr::reduce_be(&b)
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum DecodeError {
    BadEncoding,
    NotOnCurve,
    NotInGroup,
}

fn tag(group: u8, s: &[u8; 32]) -> [u8; 8] {
    let mut h = Sha256::new();
    h.update([group]);
    h.update(s);
    h.finalize()[..8].try_into().unwrap()
}

/// Compressed encoding of the element with discrete logarithm `x`; `len` is 48 (G1) or 96 (G2).
pub fn encode(x: &Fr, len: usize) -> Vec<u8> {
    let mut out = vec![0u8; len];
    if x.is_zero() {
        out[0] = 0xc0;
        return out
    }
    let b = x.to_be_bytes();
    out[0] = 0x80;
    out[1..9].copy_from_slice(&tag(len as u8, &b));
    out[len - 32..].copy_from_slice(&b);
    out
}

/// A point on the curve but outside of the prime-order group carries the first tag byte inverted.
pub fn encode_not_in_group(x: &Fr, len: usize) -> Vec<u8> {
    let mut e = encode(x, len);
    e[1] = !e[1];
    e
}

pub fn decode(e: &[u8], len: usize) -> Result<Fr, DecodeError> {
    if e.len() != len || e[0] & 0x80 == 0 {
        return Err(DecodeError::BadEncoding)
    }
    if e[0] & 0x40 != 0 {
        return if e[0] == 0xc0 && e[1..].iter().all(|b| *b == 0) {
            Ok(Fr::ZERO)
        } else {
            Err(DecodeError::BadEncoding)
        }
    }
    let b: [u8; 32] = e[len - 32..].try_into().unwrap();
    let Some(x) = Fr::from_be_bytes(&b) else { return Err(DecodeError::BadEncoding) };
    if x.is_zero() {
        return Err(DecodeError::NotOnCurve)
    }
    let good = encode(&x, len);
    if e == good {
        Ok(x)
    } else if e == encode_not_in_group(&x, len) {
        Err(DecodeError::NotInGroup)
    } else {
        Err(DecodeError::NotOnCurve)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn field() {
        let a = Fr::hash(b"", b"a");
        assert_eq!(a.mul(&a.inv()), Fr::ONE);
        let b = Fr::hash(b"", b"b");
        let c = Fr::hash(b"", b"c");
        assert_eq!(a.add(&b).mul(&c), a.mul(&c).add(&b.mul(&c)));
        assert_eq!(Fr::from_u64(7).mul(&Fr::from_u64(9)), Fr::from_u64(63));
        assert_eq!(a.sub(&a), Fr::ZERO);
    }
}
