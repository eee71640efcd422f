//! RFC 5869 HKDF (stand-in; same interface as the `hkdf` crate for the calls made here).
use digest::{core_api::BlockSizeUser, Digest};
use std::marker::PhantomData;

pub fn hmac<H: Digest + BlockSizeUser>(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let bs = H::block_size();
    let mut k = if key.len() > bs { H::digest(key).to_vec() } else { key.to_vec() };
    k.resize(bs, 0);
    let mut h = H::new();
    h.update(k.iter().map(|b| b ^ 0x36).collect::<Vec<_>>());
    for p in parts {
        h.update(p);
    }
    let inner = h.finalize();
    let mut h = H::new();
    h.update(k.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>());
    h.update(inner);
    h.finalize().to_vec()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
impl std::fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid number of blocks, too large output")
    }
}
impl std::error::Error for InvalidLength {}

#[derive(Clone)]
pub struct Hkdf<H>(Vec<u8>, PhantomData<H>);

impl<H: Digest + BlockSizeUser> Hkdf<H> {
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        let zeros = vec![0u8; <H as Digest>::output_size()];
        Self(hmac::<H>(salt.unwrap_or(&zeros), &[ikm]), PhantomData)
    }
    pub fn extract(salt: Option<&[u8]>, ikm: &[u8]) -> (Vec<u8>, Self) {
        let k = Self::new(salt, ikm);
        (k.0.clone(), k)
    }
    pub fn expand_multi_info(&self, info: &[&[u8]], okm: &mut [u8]) -> Result<(), InvalidLength> {
        self.expand(&info.concat(), okm)
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        let n = <H as Digest>::output_size();
        if okm.len() > 255 * n {
            return Err(InvalidLength)
        }
        let mut t: Vec<u8> = vec![];
        for (i, chunk) in okm.chunks_mut(n).enumerate() {
            t = hmac::<H>(&self.0, &[&t, info, &[(i + 1) as u8]]);
            chunk.copy_from_slice(&t[..chunk.len()]);
        }
        Ok(())
    }
}
