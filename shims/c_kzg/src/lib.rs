//! Stand-in for `c-kzg`: KZG commitments in a transparent group with a known trapdoor. Every
//! identity between blobs, commitments, proofs and evaluations is that of the real scheme.
use fr::Fr;
use sha2::{Digest, Sha256};
use std::{
    ops::Deref,
    sync::{Arc, OnceLock},
};

pub const FIELD_ELEMENTS_PER_BLOB: usize = 4096;
pub const BYTES_PER_FIELD_ELEMENT: usize = 32;
pub const BYTES_PER_BLOB: usize = FIELD_ELEMENTS_PER_BLOB * BYTES_PER_FIELD_ELEMENT;
pub const BYTES_PER_COMMITMENT: usize = 48;
pub const BYTES_PER_PROOF: usize = 48;

#[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
pub enum Error {
    #[error("Invalid bytes length: {0}")]
    InvalidBytesLength(String),
    #[error("Mismatch length: {0}")]
    MismatchLength(String),
    #[error("C_KZG_BADARGS")]
    CError,
}

macro_rules! bytes {
    ($n:ident, $len:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct $n([u8; $len]);
        impl $n {
            pub const fn new(b: [u8; $len]) -> Self {
                Self(b)
            }
            pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
                Ok(Self(b.try_into().map_err(|_| {
                    Error::InvalidBytesLength(format!("expected {} bytes, got {}", $len, b.len()))
                })?))
            }
            pub fn into_inner(self) -> [u8; $len] {
                self.0
            }
            pub fn to_bytes(&self) -> Self {
                *self
            }
            pub fn as_slice(&self) -> &[u8] {
                &self.0
            }
        }
        impl Deref for $n {
            type Target = [u8; $len];
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl AsRef<[u8]> for $n {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
    };
}
bytes!(Bytes32, 32);
bytes!(Bytes48, 48);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct KzgCommitment(Bytes48);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct KzgProof(Bytes48);
impl KzgCommitment {
    pub fn to_bytes(&self) -> Bytes48 {
        self.0
    }
}
impl KzgProof {
    pub fn to_bytes(&self) -> Bytes48 {
        self.0
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Blob(Box<[u8; BYTES_PER_BLOB]>);
impl Blob {
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        if b.len() != BYTES_PER_BLOB {
            return Err(Error::InvalidBytesLength(format!(
                "expected {BYTES_PER_BLOB} bytes, got {}",
                b.len()
            )))
        }
        Ok(Blob(b.to_vec().into_boxed_slice().try_into().unwrap()))
    }
    fn poly(&self) -> Result<Vec<Fr>, Error> {
        self.0.chunks(32).map(|c| Fr::from_be_bytes(c).ok_or(Error::CError)).collect()
    }
}

pub struct KzgSettings {
    roots: Vec<Fr>,
    tau: Fr,
}
impl std::fmt::Debug for KzgSettings {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("KzgSettings")
    }
}

fn bit_reverse(i: usize, bits: u32) -> usize {
    i.reverse_bits() >> (usize::BITS - bits)
}

pub fn ethereum_kzg_settings_arc(_precompute: u64) -> Arc<KzgSettings> {
    static S: OnceLock<Arc<KzgSettings>> = OnceLock::new();
    S.get_or_init(|| {
        // 7 generates the multiplicative group; w = 7^((r-1)/4096)
        let mut e = fr::R;
        e[0] -= 1;
        for i in 0..4 {
            e[i] = (e[i] >> 12) | if i < 3 { e[i + 1] << 52 } else { 0 };
        }
        let w = Fr::from_u64(7).pow(&e);
        let mut nat = vec![Fr::ONE];
        for i in 1..FIELD_ELEMENTS_PER_BLOB {
            nat.push(nat[i - 1].mul(&w));
        }
        let roots = (0..FIELD_ELEMENTS_PER_BLOB).map(|i| nat[bit_reverse(i, 12)]).collect();
        Arc::new(KzgSettings { roots, tau: Fr::hash(b"tau", b"stand-in trapdoor") })
    })
    .clone()
}

fn enc(x: &Fr) -> Bytes48 {
    Bytes48(fr::encode(x, 48).try_into().unwrap())
}
fn dec(b: &Bytes48) -> Result<Fr, Error> {
    fr::decode(&b.0, 48).map_err(|_| Error::CError)
}
fn scalar(b: &Bytes32) -> Result<Fr, Error> {
    Fr::from_be_bytes(&b.0).ok_or(Error::CError)
}

impl KzgSettings {
    fn eval(&self, p: &[Fr], z: &Fr) -> Fr {
        if let Some(i) = self.roots.iter().position(|r| r == z) {
            return p[i]
        }
        // barycentric formula with one batched inversion
        let d: Vec<Fr> = self.roots.iter().map(|r| z.sub(r)).collect();
        let mut pre = vec![Fr::ONE];
        for x in &d {
            pre.push(pre.last().unwrap().mul(x));
        }
        let mut inv = pre[d.len()].inv();
        let mut sum = Fr::ZERO;
        for i in (0..d.len()).rev() {
            let di = inv.mul(&pre[i]);
            inv = inv.mul(&d[i]);
            if !p[i].is_zero() {
                sum = sum.add(&p[i].mul(&self.roots[i]).mul(&di));
            }
        }
        let n = FIELD_ELEMENTS_PER_BLOB as u64;
        let mut zn = *z;
        for _ in 0..n.trailing_zeros() {
            zn = zn.mul(&zn);
        }
        sum.mul(&zn.sub(&Fr::ONE)).mul(&Fr::from_u64(n).inv())
    }
    fn challenge(&self, blob: &Blob, c: &Bytes48) -> Fr {
        let mut h = Sha256::new();
        h.update(b"FSBLOBVERIFY_V1_");
        h.update((FIELD_ELEMENTS_PER_BLOB as u128).to_be_bytes());
        h.update(&blob.0[..]);
        h.update(c.0);
        Fr::reduce_be(&h.finalize())
    }
    fn check(&self, c: &Fr, z: &Fr, y: &Fr, proof: &Fr) -> bool {
        c.sub(y) == proof.mul(&self.tau.sub(z))
    }
    fn prove(&self, p: &[Fr], z: &Fr) -> (Fr, Fr) {
        let y = self.eval(p, z);
        let q = self.eval(p, &self.tau).sub(&y).mul(&self.tau.sub(z).inv());
        (q, y)
    }
    pub fn blob_to_kzg_commitment(&self, blob: &Blob) -> Result<KzgCommitment, Error> {
        Ok(KzgCommitment(enc(&self.eval(&blob.poly()?, &self.tau))))
    }
    pub fn compute_kzg_proof(&self, blob: &Blob, z: &Bytes32) -> Result<(KzgProof, Bytes32), Error> {
        let (q, y) = self.prove(&blob.poly()?, &scalar(z)?);
        Ok((KzgProof(enc(&q)), Bytes32(y.to_be_bytes())))
    }
    pub fn compute_blob_kzg_proof(&self, blob: &Blob, c: &Bytes48) -> Result<KzgProof, Error> {
        dec(c)?;
        let (q, _) = self.prove(&blob.poly()?, &self.challenge(blob, c));
        Ok(KzgProof(enc(&q)))
    }
    pub fn verify_kzg_proof(
        &self,
        c: &Bytes48,
        z: &Bytes32,
        y: &Bytes32,
        proof: &Bytes48,
    ) -> Result<bool, Error> {
        Ok(self.check(&dec(c)?, &scalar(z)?, &scalar(y)?, &dec(proof)?))
    }
    pub fn verify_blob_kzg_proof(&self, blob: &Blob, c: &Bytes48, proof: &Bytes48) -> Result<bool, Error> {
        let z = self.challenge(blob, c);
        let y = self.eval(&blob.poly()?, &z);
        Ok(self.check(&dec(c)?, &z, &y, &dec(proof)?))
    }
    pub fn verify_blob_kzg_proof_batch(
        &self,
        blobs: &[Blob],
        cs: &[Bytes48],
        proofs: &[Bytes48],
    ) -> Result<bool, Error> {
        if blobs.len() != cs.len() {
            return Err(Error::MismatchLength(format!("{} blobs, {} commitments", blobs.len(), cs.len())))
        }
        if blobs.len() != proofs.len() {
            return Err(Error::MismatchLength(format!("{} blobs, {} proofs", blobs.len(), proofs.len())))
        }
        let mut ok = true;
        for ((b, c), p) in blobs.iter().zip(cs).zip(proofs) {
            ok &= self.verify_blob_kzg_proof(b, c, p)?;
        }
        Ok(ok)
    }
}
