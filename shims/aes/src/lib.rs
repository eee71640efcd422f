//! AES-128 block encryption (FIPS 197; stand-in).
pub struct Aes128([[u8; 16]; 11]);

fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for i in 0..256usize {
            let inv = (1..256usize).find(|j| gmul(i as u8, *j as u8) == 1).unwrap_or(0) as u8;
            s[i] = inv ^
                inv.rotate_left(1) ^
                inv.rotate_left(2) ^
                inv.rotate_left(3) ^
                inv.rotate_left(4) ^
                0x63;
        }
        s
    })
}
impl Aes128 {
    pub fn new_from_key(key: &[u8; 16]) -> Self {
        let s = sbox();
        let mut w = [[0u8; 4]; 44];
        for i in 0..4 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rc = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t.rotate_left(1);
                t = t.map(|b| s[b as usize]);
                t[0] ^= rc;
                rc = xt(rc);
            }
            for k in 0..4 {
                w[i][k] = w[i - 4][k] ^ t[k];
            }
        }
        let mut rk = [[0u8; 16]; 11];
        for i in 0..44 {
            rk[i / 4][4 * (i % 4)..4 * (i % 4) + 4].copy_from_slice(&w[i]);
        }
        Self(rk)
    }
    pub fn encrypt(&self, block: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut b = *block;
        let add = |b: &mut [u8; 16], k: &[u8; 16]| b.iter_mut().zip(k).for_each(|(x, y)| *x ^= y);
        add(&mut b, &self.0[0]);
        for r in 1..11 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    t[4 * c + i] = s[b[4 * ((c + i) % 4) + i] as usize];
                }
            }
            if r < 10 {
                for c in 0..4 {
                    let a: [u8; 4] = t[4 * c..4 * c + 4].try_into().unwrap();
                    for i in 0..4 {
                        t[4 * c + i] = gmul(a[i], 2) ^
                            gmul(a[(i + 1) % 4], 3) ^
                            a[(i + 2) % 4] ^
                            a[(i + 3) % 4];
                    }
                }
            }
            add(&mut t, &self.0[r]);
            b = t;
        }
        b
    }
}
pub mod cipher {
    #[derive(Debug, Clone, Copy)]
    pub struct InvalidLength;
    pub trait KeyIvInit: Sized {
        fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength>;
    }
    pub trait StreamCipher {
        fn apply_keystream(&mut self, buf: &mut [u8]);
    }
}
#[cfg(test)]
mod tests {
    #[test]
    fn fips197() {
        let key: [u8; 16] = core::array::from_fn(|i| i as u8);
        let pt: [u8; 16] = core::array::from_fn(|i| (i * 17) as u8);
        let ct = super::Aes128::new_from_key(&key).encrypt(&pt);
        assert_eq!(ct[..4], [0x69, 0xc4, 0xe0, 0xd8]);
        assert_eq!(ct[12..], [0x70, 0xb4, 0xc5, 0x5a]);
    }
}
