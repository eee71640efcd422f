//! Stand-in for `multihash` 0.16 (default `Code` table with the features enabled in /repo:
//! identity and sha2).
use thiserror::Error as ThisError;

#[derive(Debug, ThisError)]
pub enum Error {
    #[error("io error: {0}")]
    Io(String),
    #[error("unsupported multihash code {0}.")]
    UnsupportedCode(u64),
    #[error("invalid multihash size {0}.")]
    InvalidSize(u64),
    #[error("varint error: {0}")]
    Varint(String),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code {
    Sha2_256,
    Sha2_512,
    Identity,
}
impl TryFrom<u64> for Code {
    type Error = Error;
    fn try_from(c: u64) -> Result<Self, Error> {
        match c {
            0x12 => Ok(Code::Sha2_256),
            0x13 => Ok(Code::Sha2_512),
            0 => Ok(Code::Identity),
            c => Err(Error::UnsupportedCode(c)),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Multihash {
    code: u64,
    size: u8,
    digest: [u8; 64],
}
impl PartialEq for Multihash {
    fn eq(&self, o: &Self) -> bool {
        self.code == o.code && self.digest() == o.digest()
    }
}
impl Eq for Multihash {}
impl std::hash::Hash for Multihash {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.code.hash(h);
        self.digest().hash(h);
    }
}
impl PartialOrd for Multihash {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Multihash {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.code, self.size, self.digest).cmp(&(o.code, o.size, o.digest))
    }
}

fn read_varint(b: &mut &[u8]) -> Result<u64, Error> {
    let mut v = 0u64;
    for i in 0..9 {
        let (x, rest) =
            b.split_first().ok_or_else(|| Error::Varint("not enough input bytes".into()))?;
        *b = rest;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            if *x == 0 && i > 0 {
                return Err(Error::Varint("not minimal".into()))
            }
            return Ok(v)
        }
    }
    Err(Error::Varint("overflow".into()))
}
fn write_varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

impl Multihash {
    pub fn wrap(code: u64, input: &[u8]) -> Result<Self, Error> {
        if input.len() > 64 {
            return Err(Error::InvalidSize(input.len() as u64))
        }
        let mut digest = [0; 64];
        digest[..input.len()].copy_from_slice(input);
        Ok(Self { code, size: input.len() as u8, digest })
    }
    pub fn code(&self) -> u64 {
        self.code
    }
    pub fn size(&self) -> u8 {
        self.size
    }
    pub fn digest(&self) -> &[u8] {
        &self.digest[..self.size as usize]
    }
    pub fn from_bytes(mut b: &[u8]) -> Result<Self, Error> {
        let code = read_varint(&mut b)?;
        let size = read_varint(&mut b)?;
        if size > 64 {
            return Err(Error::InvalidSize(size))
        }
        if b.len() < size as usize {
            return Err(Error::Io("failed to fill whole buffer".into()))
        }
        if b.len() > size as usize {
            return Err(Error::InvalidSize(size))
        }
        Self::wrap(code, b)
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        write_varint(self.code, &mut out);
        write_varint(self.size as u64, &mut out);
        out.extend_from_slice(self.digest());
        out
    }
}
