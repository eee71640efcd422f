//! Opaque stand-in: a multiaddress is a string starting with '/'.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
#[serde(try_from = "String", into = "String")]
pub struct Multiaddr(String);
impl TryFrom<String> for Multiaddr {
    type Error = String;
    fn try_from(s: String) -> Result<Self, String> {
        if s.starts_with('/') {
            Ok(Self(s))
        } else {
            Err(format!("invalid multiaddr: {s}"))
        }
    }
}
impl From<Multiaddr> for String {
    fn from(m: Multiaddr) -> String {
        m.0
    }
}
impl std::fmt::Display for Multiaddr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::str::FromStr for Multiaddr {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        s.to_string().try_into()
    }
}
