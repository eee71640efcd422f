//! Counter mode (stand-in).
use aes::{cipher::*, Aes128};
use std::marker::PhantomData;

macro_rules! mode {
    ($name:ident, $inc:expr) => {
        pub struct $name<C>(Aes128, [u8; 16], Vec<u8>, PhantomData<C>);
        impl KeyIvInit for $name<Aes128> {
            fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength> {
                let key: &[u8; 16] = key.try_into().map_err(|_| InvalidLength)?;
                let iv: [u8; 16] = iv.try_into().map_err(|_| InvalidLength)?;
                Ok(Self(Aes128::new_from_key(key), iv, vec![], PhantomData))
            }
        }
        impl StreamCipher for $name<Aes128> {
            fn apply_keystream(&mut self, buf: &mut [u8]) {
                for b in buf {
                    if self.2.is_empty() {
                        self.2 = self.0.encrypt(&self.1).to_vec();
                        self.2.reverse();
                        $inc(&mut self.1);
                    }
                    *b ^= self.2.pop().unwrap();
                }
            }
        }
    };
}
mode!(Ctr64BE, |c: &mut [u8; 16]| {
    let v = u64::from_be_bytes(c[8..].try_into().unwrap()).wrapping_add(1);
    c[8..].copy_from_slice(&v.to_be_bytes());
});
mode!(Ctr128BE, |c: &mut [u8; 16]| {
    let v = u128::from_be_bytes(*c).wrapping_add(1);
    *c = v.to_be_bytes();
});
mode!(Ctr64LE, |c: &mut [u8; 16]| {
    let v = u64::from_le_bytes(c[..8].try_into().unwrap()).wrapping_add(1);
    c[..8].copy_from_slice(&v.to_le_bytes());
});
mode!(Ctr128LE, |c: &mut [u8; 16]| {
    let v = u128::from_le_bytes(*c).wrapping_add(1);
    *c = v.to_le_bytes();
});
mode!(Ctr32BE, |c: &mut [u8; 16]| {
    let v = u32::from_be_bytes(c[12..].try_into().unwrap()).wrapping_add(1);
    c[12..].copy_from_slice(&v.to_be_bytes());
});
mode!(Ctr32LE, |c: &mut [u8; 16]| {
    let v = u32::from_le_bytes(c[..4].try_into().unwrap()).wrapping_add(1);
    c[..4].copy_from_slice(&v.to_le_bytes());
});
