//! Base-58 with the Bitcoin alphabet (stand-in).
const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub mod decode {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
        BufferTooSmall,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub struct DecodeBuilder(pub(crate) Vec<u8>);
    impl DecodeBuilder {
        pub fn into_vec(self) -> Result<Vec<u8>, Error> {
            let mut out: Vec<u8> = vec![];
            for (index, c) in self.0.iter().enumerate() {
                if *c > 127 {
                    return Err(Error::NonAsciiCharacter { index })
                }
                let v = super::A
                    .iter()
                    .position(|a| a == c)
                    .ok_or(Error::InvalidCharacter { character: *c as char, index })?;
                let mut carry = v as u32;
                for b in out.iter_mut() {
                    carry += *b as u32 * 58;
                    *b = carry as u8;
                    carry >>= 8;
                }
                while carry > 0 {
                    out.push(carry as u8);
                    carry >>= 8;
                }
            }
            let zeros = self.0.iter().take_while(|c| **c == b'1').count();
            out.extend(std::iter::repeat(0).take(zeros));
            out.reverse();
            Ok(out)
        }
    }
}
pub mod encode {
    pub struct EncodeBuilder(pub(crate) Vec<u8>);
    impl EncodeBuilder {
        pub fn into_string(self) -> String {
            let mut out: Vec<u8> = vec![];
            for b in &self.0 {
                let mut carry = *b as u32;
                for d in out.iter_mut() {
                    carry += (*d as u32) << 8;
                    *d = (carry % 58) as u8;
                    carry /= 58;
                }
                while carry > 0 {
                    out.push((carry % 58) as u8);
                    carry /= 58;
                }
            }
            let zeros = self.0.iter().take_while(|b| **b == 0).count();
            out.extend(std::iter::repeat(0).take(zeros));
            out.iter().rev().map(|d| super::A[*d as usize] as char).collect()
        }
    }
}
pub fn encode<I: AsRef<[u8]>>(i: I) -> encode::EncodeBuilder {
    encode::EncodeBuilder(i.as_ref().to_vec())
}
pub fn decode<I: AsRef<[u8]>>(i: I) -> decode::DecodeBuilder {
    decode::DecodeBuilder(i.as_ref().to_vec())
}
