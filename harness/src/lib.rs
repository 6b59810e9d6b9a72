#![allow(unused_braces)]
pub mod bookmodel;
pub mod dex;
pub mod machine;
pub mod model;
pub mod pbt;
pub mod props;
pub mod pt;
pub mod sim;
pub mod ts;
pub mod txgen;
pub mod world;
