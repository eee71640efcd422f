//! RFC 7914 scrypt with the interface of the `scrypt` crate used by /repo (stand-in).
use sha2::Sha256;

pub fn pbkdf2(pw: &[u8], salt: &[u8], rounds: u32, out: &mut [u8]) {
    for (i, chunk) in out.chunks_mut(32).enumerate() {
        let mut u = hkdf::hmac::<Sha256>(pw, &[salt, &((i + 1) as u32).to_be_bytes()]);
        let mut t = u.clone();
        for _ in 1..rounds {
            u = hkdf::hmac::<Sha256>(pw, &[&u]);
            t.iter_mut().zip(&u).for_each(|(a, b)| *a ^= b);
        }
        chunk.copy_from_slice(&t[..chunk.len()]);
    }
}

fn salsa(b: &mut [u32; 16]) {
    let mut x = *b;
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
        x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
        x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
        x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
    };
    for _ in 0..4 {
        q(0, 4, 8, 12);
        q(5, 9, 13, 1);
        q(10, 14, 2, 6);
        q(15, 3, 7, 11);
        q(0, 1, 2, 3);
        q(5, 6, 7, 4);
        q(10, 11, 8, 9);
        q(15, 12, 13, 14);
    }
    for i in 0..16 {
        b[i] = b[i].wrapping_add(x[i]);
    }
}
fn block_mix(input: &[u32], out: &mut [u32], r: usize) {
    let mut x: [u32; 16] = input[(2 * r - 1) * 16..].try_into().unwrap();
    for i in 0..2 * r {
        for j in 0..16 {
            x[j] ^= input[i * 16 + j];
        }
        salsa(&mut x);
        let o = if i % 2 == 0 { i / 2 } else { r + i / 2 };
        out[o * 16..o * 16 + 16].copy_from_slice(&x);
    }
}
fn ro_mix(b: &mut [u8], r: usize, n: usize) {
    let w = 32 * r;
    let mut x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let mut y = vec![0u32; w];
    let mut v = vec![0u32; w * n];
    for i in 0..n {
        v[i * w..(i + 1) * w].copy_from_slice(&x);
        block_mix(&x, &mut y, r);
        std::mem::swap(&mut x, &mut y);
    }
    for _ in 0..n {
        let j = x[w - 16] as usize & (n - 1);
        for k in 0..w {
            x[k] ^= v[j * w + k];
        }
        block_mix(&x, &mut y, r);
        std::mem::swap(&mut x, &mut y);
    }
    for (c, v) in b.chunks_mut(4).zip(&x) {
        c.copy_from_slice(&v.to_le_bytes());
    }
}
pub fn scrypt(pw: &[u8], salt: &[u8], params: &Params, out: &mut [u8]) -> Result<(), errors::InvalidOutputLen> {
    let (r, p) = (params.r as usize, params.p as usize);
    let mut b = vec![0u8; p * r * 128];
    pbkdf2(pw, salt, 1, &mut b);
    for c in b.chunks_mut(r * 128) {
        ro_mix(c, r, 1 << params.log_n);
    }
    pbkdf2(pw, &b, 1, out);
    Ok(())
}

pub mod errors {
    #[derive(Debug, Clone, Copy)]
    pub struct InvalidOutputLen;
    #[derive(Debug, Clone, Copy)]
    pub struct InvalidParams;
}

/// What a harness may set: the cost of the recommended parameters, and the source of randomness.
pub mod control {
    use std::sync::{atomic::AtomicU8, Arc, Mutex};
    pub type Source = Arc<dyn Fn(&mut [u8]) + Send + Sync>;
    pub static LOG_N: AtomicU8 = AtomicU8::new(17);
    pub static RANDOM: Mutex<Option<Source>> = Mutex::new(None);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Params {
    log_n: u8,
    r: u32,
    p: u32,
    len: usize,
}
impl Params {
    pub const RECOMMENDED_LOG_N: u8 = 17;
    pub const RECOMMENDED_R: u32 = 8;
    pub const RECOMMENDED_P: u32 = 1;
    pub const RECOMMENDED_LEN: usize = 32;
    pub fn new(log_n: u8, r: u32, p: u32, len: usize) -> Result<Self, errors::InvalidParams> {
        if r == 0 || p == 0 || log_n as usize >= 64 || !(10..=64).contains(&len) {
            return Err(errors::InvalidParams)
        }
        Ok(Self { log_n, r, p, len })
    }
    pub fn recommended() -> Self {
        let log_n = control::LOG_N.load(std::sync::atomic::Ordering::SeqCst);
        Self { log_n, r: 8, p: 1, len: 32 }
    }
    pub fn log_n(&self) -> u8 {
        self.log_n
    }
    pub fn r(&self) -> u32 {
        self.r
    }
    pub fn p(&self) -> u32 {
        self.p
    }
}
impl Default for Params {
    fn default() -> Self {
        Self::recommended()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Scrypt;

pub mod password_hash {
    pub mod rand_core {
        pub use ::rand_core::*;
        #[derive(Clone, Copy, Debug, Default)]
        pub struct OsRng;
        impl RngCore for OsRng {
            fn next_u32(&mut self) -> u32 {
                let mut b = [0; 4];
                self.fill_bytes(&mut b);
                u32::from_le_bytes(b)
            }
            fn next_u64(&mut self) -> u64 {
                let mut b = [0; 8];
                self.fill_bytes(&mut b);
                u64::from_le_bytes(b)
            }
            fn fill_bytes(&mut self, b: &mut [u8]) {
                let source = crate::control::RANDOM.lock().unwrap().clone();
                match source {
                    Some(f) => f(b),
                    None => ::rand_core::OsRng.fill_bytes(b),
                }
            }
            fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
                self.fill_bytes(b);
                Ok(())
            }
        }
        impl CryptoRng for OsRng {}
    }
    use rand_core::RngCore;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("password hash error")
        }
    }
    impl std::error::Error for Error {}
    #[derive(Debug, Clone, Copy)]
    pub struct Ident;
    pub type Decimal = u32;
    #[derive(Debug, Clone)]
    pub struct Output(Vec<u8>);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }
    #[derive(Debug, Clone)]
    pub struct PasswordHash {
        pub hash: Option<Output>,
    }

    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

    /// Unpadded standard base 64
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct SaltString(String);
    impl SaltString {
        pub fn generate(mut rng: impl RngCore) -> Self {
            let mut b = [0u8; 16];
            rng.fill_bytes(&mut b);
            Self::encode_b64(&b).unwrap()
        }
        pub fn encode_b64(b: &[u8]) -> Result<Self, Error> {
            let mut s = String::new();
            for c in b.chunks(3) {
                let v = (c[0] as u32) << 16 |
                    (*c.get(1).unwrap_or(&0) as u32) << 8 |
                    *c.get(2).unwrap_or(&0) as u32;
                for i in 0..=c.len() {
                    s.push(A[(v >> (18 - 6 * i)) as usize & 63] as char);
                }
            }
            Ok(Self(s))
        }
        pub fn from_b64(s: &str) -> Result<Self, Error> {
            if s.len() < 4 || s.len() > 64 || !s.bytes().all(|c| A.contains(&c)) {
                return Err(Error)
            }
            Ok(Self(s.to_string()))
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
        pub fn decode_b64<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8], Error> {
            let mut n = 0;
            let (mut acc, mut bits) = (0u32, 0);
            for c in self.0.bytes() {
                acc = acc << 6 | A.iter().position(|a| *a == c).ok_or(Error)? as u32;
                bits += 6;
                if bits >= 8 {
                    bits -= 8;
                    *buf.get_mut(n).ok_or(Error)? = (acc >> bits) as u8;
                    n += 1;
                }
                acc &= (1 << bits) - 1;
            }
            if acc != 0 {
                return Err(Error)
            }
            Ok(&buf[..n])
        }
    }
    pub trait PasswordHasher {
        type Params;
        fn hash_password_customized(
            &self,
            password: &[u8],
            algorithm: Option<Ident>,
            version: Option<Decimal>,
            params: Self::Params,
            salt: &SaltString,
        ) -> Result<PasswordHash, Error>;
    }
    impl PasswordHasher for super::Scrypt {
        type Params = super::Params;
        fn hash_password_customized(
            &self,
            password: &[u8],
            _algorithm: Option<Ident>,
            _version: Option<Decimal>,
            params: super::Params,
            salt: &SaltString,
        ) -> Result<PasswordHash, Error> {
            let mut buf = [0u8; 64];
            let salt = salt.decode_b64(&mut buf)?;
            let mut out = vec![0u8; params.len];
            super::scrypt(password, salt, &params, &mut out).map_err(|_| Error)?;
            Ok(PasswordHash { hash: Some(Output(out)) })
        }
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn rfc7914() {
        let mut out = [0u8; 64];
        let p = super::Params { log_n: 10, r: 8, p: 16, len: 64 };
        super::scrypt(b"password", b"NaCl", &p, &mut out).unwrap();
        assert_eq!(out[..8], [0xfd, 0xba, 0xbe, 0x1c, 0x9d, 0x34, 0x72, 0x00]);
    }
}
