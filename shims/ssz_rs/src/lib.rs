//! Stand-in for the `ssz_rs` crate (not available offline): the part of its interface that
//! ethereum-consensus uses, written from the SSZ specification (simple-serialize.md,
//! merkle-proofs.md).
pub use ssz_rs_derive::{HashTreeRoot, Serializable, SimpleSerialize};

mod bits;
mod collections;
mod error;
mod merkle;
mod node;
mod scalar;
mod uint;

pub use bits::{Bitlist, Bitvector};
pub use collections::{List, Vector};
pub use error::{DeserializeError, InstanceError, MerkleizationError, SerializeError, SimpleSerializeError};
pub use merkle::{is_valid_merkle_branch, GeneralizedIndexable, PathElement};
pub use node::Node;
pub use uint::U256;

pub trait Serializable {
    fn is_variable_size() -> bool;
    fn size_hint() -> usize;
}

pub trait Serialize: Serializable {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}

pub trait Deserialize: Serializable + Sized {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>;
}

pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
    fn is_composite_type() -> bool {
        true
    }
}

pub trait SimpleSerialize: Serialize + Deserialize + HashTreeRoot + GeneralizedIndexable {}

impl<T: Serializable + ?Sized> Serializable for &T {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint()
    }
}
impl<T: Serializable + ?Sized> Serializable for &mut T {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint()
    }
}
impl<T: Serialize + ?Sized> Serialize for &T {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        (**self).serialize(buffer)
    }
}
impl<T: Serialize + ?Sized> Serialize for &mut T {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        (**self).serialize(buffer)
    }
}
impl<T: HashTreeRoot + ?Sized> HashTreeRoot for &T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (**self).hash_tree_root()
    }
    fn is_composite_type() -> bool {
        T::is_composite_type()
    }
}
impl<T: HashTreeRoot + ?Sized> HashTreeRoot for &mut T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (**self).hash_tree_root()
    }
    fn is_composite_type() -> bool {
        T::is_composite_type()
    }
}

pub fn serialize<T: Serialize>(value: &T) -> Result<Vec<u8>, SerializeError> {
    let mut v = vec![];
    value.serialize(&mut v)?;
    Ok(v)
}

pub fn deserialize<T: Deserialize>(encoding: &[u8]) -> Result<T, DeserializeError> {
    T::deserialize(encoding)
}

pub mod proofs {
    pub use crate::merkle::{
        get_subtree_index, is_valid_merkle_branch, is_valid_merkle_branch_for_generalized_index,
        log_2,
    };
}

pub mod prelude {
    pub use crate::{
        deserialize, is_valid_merkle_branch, serialize, Bitlist, Bitvector, Deserialize,
        DeserializeError, GeneralizedIndexable, HashTreeRoot, List, MerkleizationError, Node,
        PathElement, Serializable, Serialize, SerializeError, SimpleSerialize,
        SimpleSerializeError, Vector, U256,
    };
}

#[doc(hidden)]
pub mod __internal {
    use crate::{DeserializeError, Serialize, SerializeError};
    pub use crate::merkle::merkleize_chunks;

    /// Assembles fixed and variable parts.
    #[derive(Default)]
    pub struct Composer {
        fixed: Vec<Option<Vec<u8>>>,
        variable: Vec<Vec<u8>>,
    }

    impl Composer {
        pub fn push<T: Serialize>(&mut self, value: &T) -> Result<(), SerializeError> {
            let mut buf = vec![];
            value.serialize(&mut buf)?;
            if T::is_variable_size() {
                self.fixed.push(None);
                self.variable.push(buf);
            } else {
                self.fixed.push(Some(buf));
            }
            Ok(())
        }

        pub fn finish(self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
            let start = buffer.len();
            let mut offset: usize =
                self.fixed.iter().map(|p| p.as_ref().map(|b| b.len()).unwrap_or(4)).sum();
            let mut var = self.variable.iter();
            for p in &self.fixed {
                match p {
                    Some(b) => buffer.extend_from_slice(b),
                    None => {
                        let o = u32::try_from(offset)
                            .map_err(|_| SerializeError::MaximumEncodedLengthExceeded(offset))?;
                        buffer.extend_from_slice(&o.to_le_bytes());
                        offset += var.next().unwrap().len();
                    }
                }
            }
            for v in &self.variable {
                buffer.extend_from_slice(v);
            }
            Ok(buffer.len() - start)
        }
    }

    /// Splits a container encoding into the encodings of its parts.
    pub fn split<'a>(
        encoding: &'a [u8],
        parts: &[(bool, usize)],
    ) -> Result<Vec<&'a [u8]>, DeserializeError> {
        let fixed_len: usize = parts.iter().map(|(v, s)| if *v { 4 } else { *s }).sum();
        if encoding.len() < fixed_len {
            return Err(DeserializeError::ExpectedFurtherInput {
                provided: encoding.len(),
                expected: fixed_len,
            })
        }
        let mut offsets = vec![];
        let mut pos = 0;
        for (v, s) in parts {
            if *v {
                let o = u32::from_le_bytes(encoding[pos..pos + 4].try_into().unwrap()) as usize;
                offsets.push(o);
                pos += 4;
            } else {
                pos += s;
            }
        }
        if offsets.is_empty() {
            if encoding.len() != fixed_len {
                return Err(DeserializeError::AdditionalInput {
                    provided: encoding.len(),
                    expected: fixed_len,
                })
            }
        } else if offsets[0] != fixed_len {
            return Err(DeserializeError::InvalidOffset(offsets[0]))
        }
        for w in offsets.windows(2) {
            if w[1] < w[0] {
                return Err(DeserializeError::OffsetNotIncreasing { start: w[0], end: w[1] })
            }
        }
        if let Some(last) = offsets.last() {
            if *last > encoding.len() {
                return Err(DeserializeError::InvalidOffset(*last))
            }
        }
        let mut out = vec![];
        let mut pos = 0;
        let mut k = 0;
        for (v, s) in parts {
            if *v {
                let end = offsets.get(k + 1).copied().unwrap_or(encoding.len());
                out.push(&encoding[offsets[k]..end]);
                k += 1;
                pos += 4;
            } else {
                out.push(&encoding[pos..pos + s]);
                pos += s;
            }
        }
        Ok(out)
    }
}
