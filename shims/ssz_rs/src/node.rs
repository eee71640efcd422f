use crate::*;
use std::{fmt, ops::{Deref, DerefMut}};

#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Node(pub [u8; 32]);

impl Node {
    pub const ZERO: Self = Node([0; 32]);
    pub const fn new(b: [u8; 32]) -> Self {
        Node(b)
    }
    pub fn from_slice(b: &[u8]) -> Self {
        Node(b.try_into().expect("32 bytes"))
    }
    pub const fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub const fn repeat_byte(b: u8) -> Self {
        Node([b; 32])
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 32]
    }
}
impl AsMut<[u8]> for Node {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl From<&[u8; 32]> for Node {
    fn from(v: &[u8; 32]) -> Self {
        Node(*v)
    }
}
impl From<Node> for [u8; 32] {
    fn from(v: Node) -> Self {
        v.0
    }
}

impl Deref for Node {
    type Target = [u8; 32];
    fn deref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl DerefMut for Node {
    fn deref_mut(&mut self) -> &mut [u8; 32] {
        &mut self.0
    }
}
impl AsRef<[u8]> for Node {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<[u8; 32]> for Node {
    fn from(v: [u8; 32]) -> Self {
        Node(v)
    }
}
impl TryFrom<&[u8]> for Node {
    type Error = std::array::TryFromSliceError;
    fn try_from(v: &[u8]) -> Result<Self, Self::Error> {
        Ok(Node(v.try_into()?))
    }
}
impl fmt::Debug for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl fmt::Display for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // as alloy's `B256`: abbreviated unless the alternate flag is set
        if f.alternate() {
            write!(f, "0x{}", hex::encode(self.0))
        } else {
            write!(f, "0x{}…{}", hex::encode(&self.0[..2]), hex::encode(&self.0[30..]))
        }
    }
}
impl serde::Serialize for Node {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(self.0)))
    }
}
impl<'de> serde::Deserialize<'de> for Node {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let b = crate::bits::de_hex(d)?;
        Ok(Node(b.as_slice().try_into().map_err(serde::de::Error::custom)?))
    }
}
impl std::str::FromStr for Node {
    type Err = hex::FromHexError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let mut out = [0u8; 32];
        hex::decode_to_slice(s.strip_prefix("0x").unwrap_or(s), &mut out)?;
        Ok(Node(out))
    }
}
impl Serializable for Node {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for Node {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend_from_slice(&self.0);
        Ok(32)
    }
}
impl Deserialize for Node {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        crate::scalar::exact(e, 32)?;
        Ok(Node(e.try_into().unwrap()))
    }
}
impl HashTreeRoot for Node {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(*self)
    }
}
impl GeneralizedIndexable for Node {
    fn chunk_count() -> usize {
        1
    }
}
impl SimpleSerialize for Node {}
