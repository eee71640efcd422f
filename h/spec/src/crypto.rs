//! Keys, signatures and signing roots of the reference side, over the stand-in curve.
use crate::m::*;
use blst::min_pk;
use sha2::{Digest, Sha256};

pub const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
pub const BEACON_PROPOSER: u32 = 0;
pub const BEACON_ATTESTER: u32 = 1;
pub const RANDAO: u32 = 2;
pub const DEPOSIT: u32 = 3;
pub const VOLUNTARY_EXIT: u32 = 4;
pub const SYNC_COMMITTEE: u32 = 7;
pub const BLS_TO_EXECUTION_CHANGE: u32 = 10;
pub const CONSOLIDATION: u32 = 11;

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn node(b: [u8; 32]) -> Root {
    Root::try_from(&b[..]).unwrap()
}
pub fn b32(b: [u8; 32]) -> Bytes32 {
    Bytes32::try_from(&b[..]).unwrap()
}
pub fn raw(r: &impl AsRef<[u8]>) -> [u8; 32] {
    r.as_ref().try_into().unwrap()
}
/// A root that names `n`.
pub fn root(n: u64) -> Root {
    node(hash_n(n))
}
pub fn hash_n(n: u64) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&n.to_be_bytes());
    b[31] = 0xee;
    b
}

pub fn key(i: usize) -> min_pk::SecretKey {
    let mut b = [0u8; 32];
    b[30] = 1;
    b[31] = i as u8;
    min_pk::SecretKey::from_bytes(&b).unwrap()
}
pub fn pk(i: usize) -> BlsPublicKey {
    BlsPublicKey::try_from(&key(i).sk_to_pk().to_bytes()[..]).unwrap()
}
pub fn sig(s: &min_pk::Signature) -> BlsSignature {
    BlsSignature::try_from(&s.to_bytes()[..]).unwrap()
}
pub fn sign(i: usize, msg: &[u8; 32]) -> BlsSignature {
    sig(&key(i).sign(msg, DST, &[]))
}
pub fn sign_all(is: &[usize], msg: &[u8; 32]) -> BlsSignature {
    if is.is_empty() {
        return infinity();
    }
    let s: Vec<_> = is.iter().map(|i| key(*i).sign(msg, DST, &[])).collect();
    let s: Vec<_> = s.iter().collect();
    sig(&min_pk::AggregateSignature::aggregate(&s, true).unwrap().to_signature())
}
pub fn infinity() -> BlsSignature {
    let mut b = [0u8; 96];
    b[0] = 0xc0;
    BlsSignature::try_from(&b[..]).unwrap()
}

pub fn verify(key: &BlsPublicKey, msg: &[u8; 32], s: &BlsSignature) -> bool {
    verify_all(&[key.clone()], msg, s)
}
thread_local! {
    /// The signatures that were found to hold, while they are being recorded.
    static HELD: std::cell::RefCell<Option<Vec<BlsSignature>>> = const { std::cell::RefCell::new(None) };
    /// The signatures to make again, and those made.
    static FORGE: std::cell::RefCell<Option<(Vec<BlsSignature>, Vec<(BlsSignature, BlsSignature)>)>> = const { std::cell::RefCell::new(None) };
}
/// Runs `f` and returns the signatures that it found to hold.
pub fn held<T>(f: impl FnOnce() -> T) -> (T, Vec<BlsSignature>) {
    HELD.set(Some(vec![]));
    let r = f();
    (r, HELD.take().unwrap_or_default())
}
/// Runs `f` with each of `valid` taken for a signature by the keys and over the message that it is
/// checked against, and returns those signatures with ones that are.
pub fn forge(valid: Vec<BlsSignature>, f: impl FnOnce()) -> Vec<(BlsSignature, BlsSignature)> {
    FORGE.set(Some((valid, vec![])));
    f();
    FORGE.take().map(|x| x.1).unwrap_or_default()
}

/// FastAggregateVerify of the specifications: no keys, invalid keys and undecodable signatures fail.
pub fn verify_all(keys: &[BlsPublicKey], msg: &[u8; 32], s: &BlsSignature) -> bool {
    let made = FORGE.with_borrow_mut(|f| {
        let (valid, made) = f.as_mut()?;
        if !valid.contains(s) {
            return None;
        }
        let keys: Option<Vec<usize>> = keys.iter().map(crate::gen::known_key).collect();
        made.push((s.clone(), sign_all(&keys?, msg)));
        Some(())
    });
    if made.is_some() {
        return true;
    }
    let ok = verify_plain(keys, msg, s);
    if ok {
        HELD.with_borrow_mut(|h| {
            if let Some(h) = h {
                h.push(s.clone())
            }
        });
    }
    ok
}
fn verify_plain(keys: &[BlsPublicKey], msg: &[u8; 32], s: &BlsSignature) -> bool {
    let Ok(s) = min_pk::Signature::from_bytes(s.as_ref()) else { return false };
    let mut v = vec![];
    for k in keys {
        match min_pk::PublicKey::key_validate(k.as_ref()) {
            Ok(k) => v.push(k),
            Err(_) => return false,
        }
    }
    if v.is_empty() {
        return false;
    }
    let v: Vec<_> = v.iter().collect();
    s.fast_aggregate_verify(true, msg, DST, &v) == blst::BLST_ERROR::BLST_SUCCESS
}

pub fn domain(kind: u32, version: Version, gvr: &Root) -> [u8; 32] {
    let mut v = [0u8; 32];
    v[..4].copy_from_slice(&version);
    let fork_root = sha(&[&v, gvr.as_ref()]);
    let mut d = [0u8; 32];
    d[..4].copy_from_slice(&kind.to_le_bytes());
    d[4..].copy_from_slice(&fork_root[..28]);
    d
}
pub fn signing_root(object: &Root, domain: &[u8; 32]) -> [u8; 32] {
    sha(&[object.as_ref(), domain])
}
pub fn htr<T: HashTreeRoot>(x: &T) -> Root {
    x.hash_tree_root().unwrap()
}
pub fn uint_root(n: u64) -> Root {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    node(b)
}
/// The root of a vector of roots whose length is a power of two.
pub fn vector_root(v: &[Root]) -> Root {
    let mut l: Vec<[u8; 32]> = v.iter().map(raw).collect();
    while l.len() > 1 {
        l = l.chunks(2).map(|p| sha(&[&p[0], &p[1]])).collect();
    }
    node(l[0])
}
