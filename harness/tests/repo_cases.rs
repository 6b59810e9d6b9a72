#![allow(unused, non_snake_case)]
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/cases/mod.rs"));
