//! The modules of ethereum-consensus that stand alone, compiled from /repo under their own names.
#![allow(dead_code, unused_imports)]

#[cfg(feature = "clock")]
#[path = "/repo/ethereum-consensus/src/clock.rs"]
pub mod clock;
#[cfg(feature = "names")]
#[path = "/repo/ethereum-consensus/src/domains.rs"]
pub mod domains;
#[cfg(feature = "names")]
#[path = "/repo/ethereum-consensus/src/fork.rs"]
mod fork;
#[cfg(feature = "names")]
pub use fork::Fork;
#[cfg(feature = "text")]
#[path = "/repo/ethereum-consensus/src/serde.rs"]
pub mod serde;
#[cfg(feature = "mnemonic")]
#[path = "/repo/ethereum-consensus/src/bin/ec/validator/mnemonic.rs"]
pub mod mnemonic;

#[cfg(feature = "clock")]
pub mod primitives {
    include!(concat!(env!("OUT_DIR"), "/primitives.rs"));
}

#[cfg(feature = "clock")]
pub mod configs {
    macro_rules! config {
        ($name:ident) => {
            pub mod $name {
                use crate::primitives::*;
                include!(concat!(env!("OUT_DIR"), "/config_", stringify!($name), ".rs"));
            }
        };
    }
    config!(mainnet);
    config!(minimal);
    config!(goerli);
    config!(sepolia);
    config!(holesky);
    config!(hoodi);
}

#[cfg(feature = "clock")]
pub mod phase0 {
    pub mod mainnet {
        use crate::primitives::*;
        include!(concat!(env!("OUT_DIR"), "/phase0_mainnet.rs"));
    }
    pub mod minimal {
        use crate::primitives::*;
        include!(concat!(env!("OUT_DIR"), "/phase0_minimal.rs"));
    }
}
