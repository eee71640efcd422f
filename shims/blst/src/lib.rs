//! Stand-in for `blst` (not available offline): BLS signatures over a transparent pairing group
//! whose elements are represented by their discrete logarithms. Encodings, validation classes,
//! scalar key generation and every algebraic identity are those of the real library; the points
//! themselves are not BLS12-381 points.
#![allow(non_camel_case_types)]
pub use fr::{encode, encode_not_in_group, Fr};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BLST_ERROR {
    BLST_SUCCESS,
    BLST_BAD_ENCODING,
    BLST_POINT_NOT_ON_CURVE,
    BLST_POINT_NOT_IN_GROUP,
    BLST_AGGR_TYPE_MISMATCH,
    BLST_VERIFY_FAIL,
    BLST_PK_IS_INFINITY,
    BLST_BAD_SCALAR,
}

pub mod min_pk {
    use super::BLST_ERROR::{self, *};
    use fr::{DecodeError, Fr};
    use sha2::{Digest, Sha256};

    fn keygen(ikm: &[u8], info: &[u8]) -> Fr {
        let mut salt = Sha256::digest(b"BLS-SIG-KEYGEN-SALT-").to_vec();
        loop {
            let mut i = ikm.to_vec();
            i.push(0);
            let mut inf = info.to_vec();
            inf.extend_from_slice(&[0, 48]);
            let mut okm = [0u8; 48];
            hkdf::Hkdf::<Sha256>::new(Some(&salt), &i).expand(&inf, &mut okm).unwrap();
            let k = Fr::reduce_be(&okm);
            if !k.is_zero() {
                return k
            }
            salt = Sha256::digest(&salt).to_vec();
        }
    }

    fn h(msg: &[u8], dst: &[u8], aug: &[u8]) -> Fr {
        let mut m = (aug.len() as u64).to_be_bytes().to_vec();
        m.extend_from_slice(aug);
        m.extend_from_slice(msg);
        Fr::hash(dst, &m)
    }

    /// A decoded point which may be outside of the prime-order group.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    struct Point(Fr, bool);

    fn decode(b: &[u8], len: usize) -> Result<Point, BLST_ERROR> {
        match fr::decode(b, len) {
            Ok(x) => Ok(Point(x, true)),
            Err(DecodeError::NotInGroup) => {
                Ok(Point(Fr::from_be_bytes(&b[len - 32..]).unwrap(), false))
            }
            Err(DecodeError::BadEncoding) => Err(BLST_BAD_ENCODING),
            Err(DecodeError::NotOnCurve) => Err(BLST_POINT_NOT_ON_CURVE),
        }
    }
    fn enc(p: &Point, len: usize) -> Vec<u8> {
        if p.1 {
            fr::encode(&p.0, len)
        } else {
            fr::encode_not_in_group(&p.0, len)
        }
    }

    #[derive(Clone, Default, Debug)]
    pub struct SecretKey(Fr);
    impl SecretKey {
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING)
            }
            Ok(Self(keygen(ikm, info)))
        }
        pub fn derive_master_eip2333(ikm: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING)
            }
            Ok(Self(keygen(ikm, &[])))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            match Fr::from_be_bytes(b) {
                Some(k) if !k.is_zero() => Ok(Self(k)),
                _ => Err(BLST_BAD_ENCODING),
            }
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0.to_be_bytes()
        }
        pub fn serialize(&self) -> [u8; 32] {
            self.to_bytes()
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey(Point(self.0, true))
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            Signature(Point(self.0.mul(&h(msg, dst, aug)), true))
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PublicKey(Point);
    impl PublicKey {
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if !self.0 .1 {
                Err(BLST_POINT_NOT_IN_GROUP)
            } else if self.0 .0.is_zero() {
                Err(BLST_PK_IS_INFINITY)
            } else {
                Ok(())
            }
        }
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let p = Self::from_bytes(b)?;
            p.validate()?;
            Ok(p)
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Ok(Self(decode(b, 48)?))
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            enc(&self.0, 48).try_into().unwrap()
        }
        pub fn compress(&self) -> [u8; 48] {
            self.to_bytes()
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Signature(Point);
    impl Signature {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Ok(Self(decode(b, 96)?))
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            enc(&self.0, 96).try_into().unwrap()
        }
        pub fn compress(&self) -> [u8; 96] {
            self.to_bytes()
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn sig_validate(b: &[u8], sig_infcheck: bool) -> Result<Self, BLST_ERROR> {
            let s = Self::from_bytes(b)?;
            s.validate(sig_infcheck)?;
            Ok(s)
        }
        pub fn validate(&self, sig_infcheck: bool) -> Result<(), BLST_ERROR> {
            if sig_infcheck && self.0 .0.is_zero() {
                return Err(BLST_PK_IS_INFINITY)
            }
            if !self.0 .1 {
                return Err(BLST_POINT_NOT_IN_GROUP)
            }
            Ok(())
        }
        pub fn verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            aug: &[u8],
            pk: &PublicKey,
            pk_validate: bool,
        ) -> BLST_ERROR {
            let mut m = aug.to_vec();
            m.extend_from_slice(msg);
            let _ = m;
            self.core(sig_groupcheck, &[h(msg, dst, aug)], &[pk], pk_validate)
        }
        fn core(&self, group: bool, hs: &[Fr], pks: &[&PublicKey], pk_validate: bool) -> BLST_ERROR {
            if hs.is_empty() || hs.len() != pks.len() {
                return BLST_VERIFY_FAIL
            }
            if group {
                if let Err(e) = self.validate(false) {
                    return e
                }
            }
            let mut sum = Fr::ZERO;
            for (m, pk) in hs.iter().zip(pks) {
                if pk_validate {
                    if let Err(e) = pk.validate() {
                        return e
                    }
                } else if pk.0 .0.is_zero() {
                    return BLST_PK_IS_INFINITY
                }
                sum = sum.add(&m.mul(&pk.0 .0));
            }
            if sum == self.0 .0 {
                BLST_SUCCESS
            } else {
                BLST_VERIFY_FAIL
            }
        }
        pub fn aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msgs: &[&[u8]],
            dst: &[u8],
            pks: &[&PublicKey],
            pks_validate: bool,
        ) -> BLST_ERROR {
            let hs: Vec<Fr> = msgs.iter().map(|m| h(m, dst, &[])).collect();
            self.core(sig_groupcheck, &hs, pks, pks_validate)
        }
        pub fn fast_aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            pks: &[&PublicKey],
        ) -> BLST_ERROR {
            let agg = match AggregatePublicKey::aggregate(pks, false) {
                Ok(a) => a.to_public_key(),
                Err(e) => return e,
            };
            self.core(sig_groupcheck, &[h(msg, dst, &[])], &[&agg], false)
        }
        pub fn fast_aggregate_verify_pre_aggregated(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            pk: &PublicKey,
        ) -> BLST_ERROR {
            self.core(sig_groupcheck, &[h(msg, dst, &[])], &[pk], false)
        }
    }

    macro_rules! agg {
        ($agg:ident, $t:ident, $to:ident, $from:ident, $add:ident) => {
            #[derive(Clone, Copy, Debug)]
            pub struct $agg(Point);
            impl $agg {
                pub fn aggregate(items: &[&$t], check: bool) -> Result<Self, BLST_ERROR> {
                    if items.is_empty() {
                        return Err(BLST_AGGR_TYPE_MISMATCH)
                    }
                    let mut p = Point(Fr::ZERO, true);
                    for i in items {
                        if check {
                            check_one!($t, i)?;
                        }
                        p = Point(p.0.add(&i.0 .0), p.1 && i.0 .1);
                    }
                    Ok(Self(p))
                }
                pub fn $from(item: &$t) -> Self {
                    Self(item.0)
                }
                pub fn add_aggregate(&mut self, o: &Self) {
                    self.0 = Point(self.0 .0.add(&o.0 .0), self.0 .1 && o.0 .1);
                }
                pub fn $add(&mut self, item: &$t, check: bool) -> Result<(), BLST_ERROR> {
                    if check {
                        check_one!($t, item)?;
                    }
                    self.add_aggregate(&Self(item.0));
                    Ok(())
                }
                pub fn $to(&self) -> $t {
                    $t(self.0)
                }
            }
        };
    }
    macro_rules! check_one {
        (PublicKey, $i:expr) => {
            $i.validate()
        };
        (Signature, $i:expr) => {
            $i.validate(false)
        };
    }
    agg!(AggregatePublicKey, PublicKey, to_public_key, from_public_key, add_public_key);
    agg!(AggregateSignature, Signature, to_signature, from_signature, add_signature);
}
