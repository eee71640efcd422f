use crate::{merkle::*, *};
use bitvec::prelude::{BitVec, Lsb0};
use std::{
    fmt,
    ops::{Deref, DerefMut},
};

pub fn de_hex<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = <String as serde::Deserialize>::deserialize(d)?;
    let s = s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("expected 0x prefix"))?;
    hex::decode(s).map_err(serde::de::Error::custom)
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bitvector<const N: usize>(BitVec<u8, Lsb0>);
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bitlist<const N: usize>(BitVec<u8, Lsb0>);

macro_rules! common {
    ($name:ident) => {
        impl<const N: usize> Deref for $name<N> {
            type Target = BitVec<u8, Lsb0>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<const N: usize> DerefMut for $name<N> {
            fn deref_mut(&mut self) -> &mut Self::Target {
                &mut self.0
            }
        }
        impl<const N: usize> fmt::Debug for $name<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, concat!(stringify!($name), "["))?;
                for b in self.0.iter() {
                    write!(f, "{}", *b as u8)?;
                }
                write!(f, "]")
            }
        }
        impl<const N: usize> serde::Serialize for $name<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut b = vec![];
                crate::Serialize::serialize(self, &mut b).map_err(serde::ser::Error::custom)?;
                s.serialize_str(&format!("0x{}", hex::encode(b)))
            }
        }
        impl<'de, const N: usize> serde::Deserialize<'de> for $name<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let b = de_hex(d)?;
                <Self as crate::Deserialize>::deserialize(&b).map_err(serde::de::Error::custom)
            }
        }
        impl<const N: usize> TryFrom<&[u8]> for $name<N> {
            type Error = DeserializeError;
            fn try_from(v: &[u8]) -> Result<Self, Self::Error> {
                <Self as crate::Deserialize>::deserialize(v)
            }
        }
    };
}
common!(Bitvector);
common!(Bitlist);

impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Self(BitVec::repeat(false, N))
    }
}
impl<const N: usize> Default for Bitlist<N> {
    fn default() -> Self {
        Self(BitVec::new())
    }
}
impl<const N: usize> Bitlist<N> {
    pub fn with_length(n: usize) -> Self {
        Self(BitVec::repeat(false, n))
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitlist<N> {
    type Error = InstanceError;
    fn try_from(v: &[bool]) -> Result<Self, InstanceError> {
        if v.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: v.len() })
        }
        Ok(Self(v.iter().copied().collect()))
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitvector<N> {
    type Error = InstanceError;
    fn try_from(v: &[bool]) -> Result<Self, InstanceError> {
        if v.len() != N {
            return Err(InstanceError::Exact { required: N, provided: v.len() })
        }
        Ok(Self(v.iter().copied().collect()))
    }
}
fn to_bytes(b: &BitVec<u8, Lsb0>) -> Vec<u8> {
    let mut out = vec![0u8; b.len().div_ceil(8)];
    for (i, bit) in b.iter().enumerate() {
        if *bit {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    out
}
fn from_bytes(e: &[u8], n: usize) -> BitVec<u8, Lsb0> {
    (0..n).map(|i| (e[i / 8] >> (i % 8)) & 1 == 1).collect()
}

impl<const N: usize> Serializable for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N.div_ceil(8)
    }
}
impl<const N: usize> crate::Serialize for Bitvector<N> {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.len() != N {
            return Err(InstanceError::Exact { required: N, provided: self.len() }.into())
        }
        buffer.extend(to_bytes(&self.0));
        Ok(N.div_ceil(8))
    }
}
impl<const N: usize> crate::Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        crate::scalar::exact(e, N.div_ceil(8))?;
        if N % 8 != 0 && e[e.len() - 1] >> (N % 8) != 0 {
            return Err(DeserializeError::InvalidByte(e[e.len() - 1]))
        }
        Ok(Self(from_bytes(e, N)))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        if self.len() != N {
            return Err(InstanceError::Exact { required: N, provided: self.len() }.into())
        }
        merkleize_chunks(&pack_bytes(&to_bytes(&self.0)), N.div_ceil(256))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitvector<N> {
    fn chunk_count() -> usize {
        N.div_ceil(256)
    }
}
impl<const N: usize> SimpleSerialize for Bitvector<N> {}

impl<const N: usize> Serializable for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> crate::Serialize for Bitlist<N> {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: self.len() }.into())
        }
        let mut b = self.0.clone();
        b.push(true);
        let b = to_bytes(&b);
        buffer.extend_from_slice(&b);
        Ok(b.len())
    }
}
impl<const N: usize> crate::Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let last = *e
            .last()
            .ok_or(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 })?;
        if last == 0 {
            return Err(DeserializeError::InvalidByte(0))
        }
        let n = (e.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
        if n > N {
            return Err(InstanceError::Bounded { bound: N, provided: n }.into())
        }
        Ok(Self(from_bytes(e, n)))
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        if self.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: self.len() }.into())
        }
        Ok(mix_in_length(
            merkleize_chunks(&pack_bytes(&to_bytes(&self.0)), N.div_ceil(256))?,
            self.len(),
        ))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitlist<N> {
    fn chunk_count() -> usize {
        N.div_ceil(256)
    }
}
impl<const N: usize> SimpleSerialize for Bitlist<N> {}
