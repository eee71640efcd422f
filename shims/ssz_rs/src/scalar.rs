use crate::*;

pub fn exact(e: &[u8], n: usize) -> Result<(), DeserializeError> {
    if e.len() < n {
        Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: n })
    } else if e.len() > n {
        Err(DeserializeError::AdditionalInput { provided: e.len(), expected: n })
    } else {
        Ok(())
    }
}

macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Serializable for $t {
            fn is_variable_size() -> bool { false }
            fn size_hint() -> usize { std::mem::size_of::<$t>() }
        }
        impl Serialize for $t {
            fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
                buffer.extend_from_slice(&self.to_le_bytes());
                Ok(std::mem::size_of::<$t>())
            }
        }
        impl Deserialize for $t {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                exact(e, std::mem::size_of::<$t>())?;
                Ok(<$t>::from_le_bytes(e.try_into().unwrap()))
            }
        }
        impl HashTreeRoot for $t {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                let mut n = [0u8; 32];
                n[..std::mem::size_of::<$t>()].copy_from_slice(&self.to_le_bytes());
                Ok(Node(n))
            }
            fn is_composite_type() -> bool { false }
        }
        impl GeneralizedIndexable for $t { fn chunk_count() -> usize { 1 } fn item_length() -> usize { std::mem::size_of::<$t>() } }
        impl SimpleSerialize for $t {}
    )*};
}
uint!(u8, u16, u32, u64, u128, usize);

impl Serializable for bool {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        1
    }
}
impl Serialize for bool {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.push(*self as u8);
        Ok(1)
    }
}
impl Deserialize for bool {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, 1)?;
        match e[0] {
            0 => Ok(false),
            1 => Ok(true),
            b => Err(DeserializeError::InvalidByte(b)),
        }
    }
}
impl HashTreeRoot for bool {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (*self as u8).hash_tree_root()
    }
    fn is_composite_type() -> bool {
        false
    }
}
impl GeneralizedIndexable for bool {
    fn chunk_count() -> usize {
        1
    }
    fn item_length() -> usize {
        1
    }
}
impl SimpleSerialize for bool {}

impl<const N: usize> Serializable for [u8; N] {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N
    }
}
impl<const N: usize> Serialize for [u8; N] {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend_from_slice(self);
        Ok(N)
    }
}
impl<const N: usize> Deserialize for [u8; N] {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, N)?;
        Ok(e.try_into().unwrap())
    }
}
impl<const N: usize> HashTreeRoot for [u8; N] {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        crate::merkle::merkleize_chunks(&crate::merkle::pack_bytes(self), N.div_ceil(32))
    }
}
impl<const N: usize> GeneralizedIndexable for [u8; N] {
    fn chunk_count() -> usize {
        N.div_ceil(32)
    }
}
impl<const N: usize> SimpleSerialize for [u8; N] {}
