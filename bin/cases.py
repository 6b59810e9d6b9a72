#!/usr/bin/env python3
"""Validation of the simulator: ports the repository's own integration test cases to it
(async removed) into build/cases, for `cargo test -p harness --test repo_cases`."""
import re, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = os.path.join(V, "build/src/programs/mango-v4/tests/cases")
out = os.path.join(V, "build/cases")
os.makedirs(out, exist_ok=True)
skip = {"test_replay", "test_benchmark"}
mods = []
for f in sorted(glob.glob(src + "/test_*.rs")):
    name = os.path.basename(f)[:-3]
    if name in skip:
        continue
    s = open(f).read()
    s = s.replace("#[tokio::test]", "#[test]")
    s = re.sub(r"\basync fn\b", "fn", s)
    s = re.sub(r"\basync( move)?\b", "", s)
    s = re.sub(r"\s*\.await\b", "", s)
    s = s.replace("solana_sdk::", "crate::solana_sdk::").replace(", tokio,", ",").replace("use num::ToPrimitive", "use num_traits::ToPrimitive")
    s = s.replace("crate::cases::", "crate::")
    s = re.sub(r"solana\s*\.context\s*\.borrow_mut\(\)\s*\.", "solana.raw().", s)
    s = re.sub(r"let mut program_test_context = solana.context.borrow_mut\(\);", "let program_test_context = solana.raw();", s)
    open(os.path.join(out, name + ".rs"), "w").write(s)
    mods.append(name)
m = """pub mod solana_sdk { pub use harness::pt::compat::*; }
pub use harness::pt::send_tx_expect_error;
pub fn find_file(f: &str) -> Option<std::path::PathBuf> { Some(f.into()) }
pub fn read_file(p: std::path::PathBuf) -> Vec<u8> { std::fs::read(p).unwrap() }
pub use anchor_lang::prelude::Pubkey;
pub use fixed::types::I80F48;
pub use itertools::Itertools;
pub use harness::pt::*;
pub use harness::pt as program_test;
pub use harness::pt::transport::TransportError;
pub use harness::pt::mango_setup::*;
pub use harness::{assert_eq_f64, assert_eq_fixed_f64};
pub use mango_v4::{error::MangoError, state::*};
"""
for n in mods:
    m += f"#[path = \"{out}/{n}.rs\"] mod {n};\n"
open(os.path.join(out, "mod.rs"), "w").write(m)
