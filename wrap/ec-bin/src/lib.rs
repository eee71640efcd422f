#![allow(dead_code, private_interfaces, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/ec/ec_mods.rs"));
