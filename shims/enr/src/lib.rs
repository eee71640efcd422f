//! Opaque stand-in: a node record is a string starting with "enr:".
use std::marker::PhantomData;
pub mod k256 {
    pub mod ecdsa {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct SigningKey;
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Enr<K>(String, PhantomData<K>);
impl<K> std::fmt::Display for Enr<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl<K> std::str::FromStr for Enr<K> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if s.starts_with("enr:") {
            Ok(Self(s.to_string(), PhantomData))
        } else {
            Err(format!("invalid enr: {s}"))
        }
    }
}
impl<K> serde::Serialize for Enr<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0)
    }
}
impl<'de, K> serde::Deserialize<'de> for Enr<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <String as serde::Deserialize>::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
