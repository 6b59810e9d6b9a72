#![allow(dead_code)]
//! Port of the repository's program_test support (tests/program_test) to the simulator.
pub mod compat;
pub mod cookies;
pub mod mango_client;
pub mod mango_setup;
pub mod serum;
pub mod solana;
pub mod utils;
pub use compat::transaction::TransactionError;
pub use compat::transport::TransportError;
pub use compat::*;
pub use cookies::*;
pub use mango_client::*;
pub use serum::*;
pub use solana::*;
pub use utils::*;

use crate::sim::*;
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use spl_token::state::Mint;
use std::sync::Arc;

pub struct TestContextBuilder {
    pub sim: Sim,
    mint0: Pubkey,
    pub decimals: Vec<u8>,
}

impl TestContextBuilder {
    pub fn new() -> Self {
        reset_keys(0);
        let mut sim = Sim::new();
        let mint0 = sim.new_key();
        Self {
            sim,
            mint0,
            decimals: vec![6; 10],
        }
    }

    pub fn create_mints(&mut self) -> Vec<MintCookie> {
        let mut mints = vec![];
        for i in 0..self.decimals.len() {
            let pubkey = if i == 0 {
                self.mint0
            } else {
                self.sim.new_key()
            };
            mints.push(MintCookie {
                index: i,
                decimals: self.decimals[i],
                unit: 10u64.pow(self.decimals[i] as u32) as f64,
                base_lot: 100.0,
                quote_lot: 10.0,
                pubkey,
                authority: TestKeypair::new(),
            });
            let mint = Mint {
                is_initialized: true,
                mint_authority: COption::Some(mints[i].authority.pubkey()),
                decimals: self.decimals[i],
                ..Mint::default()
            };
            let mut data = vec![0; Mint::LEN];
            mint.pack_into_slice(&mut data);
            self.sim.set(
                pubkey,
                Acc {
                    lamports: u32::MAX as u64,
                    data,
                    owner: spl_token::id(),
                    executable: false,
                },
            );
        }
        mints
    }

    pub fn create_users(&mut self, mints: &[MintCookie]) -> Vec<UserCookie> {
        let mut users = Vec::new();
        let s = SolanaCookie::from_sim(self.sim.clone());
        for _ in 0..4 {
            let user_key = TestKeypair::new();
            s.sim.borrow_mut().set(
                user_key.pubkey(),
                Acc {
                    lamports: 1 << 50,
                    ..Acc::default()
                },
            );
            let mut token_accounts = Vec::new();
            for m in mints {
                let k = anchor_spl::associated_token::get_associated_token_address(
                    &user_key.pubkey(),
                    &m.pubkey,
                );
                s.set_token_account(k, user_key.pubkey(), m.pubkey, 1_000_000_000_000_000_000);
                token_accounts.push(k);
            }
            users.push(UserCookie {
                key: user_key,
                token_accounts,
            });
        }
        self.sim = s.sim.into_inner();
        users
    }

    pub fn add_serum_program(&mut self) -> Pubkey {
        let id = self.sim.new_key();
        self.sim.add_program(id, crate::dex::entry);
        id
    }

    pub fn add_margin_trade_program(&mut self) -> MarginTradeCookie {
        let program: Pubkey = "J83w4HKfqxwcq3BEMMkPFSppX3gqekLyLJBexebFVkix".parse().unwrap();
        self.sim
            .add_program(program, |p, a, d| margin_trade::entry(p, a, d));
        let token_account = TestKeypair::new();
        let (token_account_owner, token_account_bump) =
            Pubkey::find_program_address(&[b"MarginTrade"], &program);
        let s = SolanaCookie::from_sim(self.sim.clone());
        s.set_token_account(token_account.pubkey(), token_account_owner, self.mint0, 0);
        self.sim = s.sim.into_inner();
        MarginTradeCookie {
            program,
            token_account,
            token_account_owner,
            token_account_bump,
        }
    }

    pub fn start_default(mut self) -> TestContext {
        let mints = self.create_mints();
        let users = self.create_users(&mints);
        let program_id = self.add_serum_program();
        self.sim.keep_logs = true;
        let solana = self.start();
        TestContext {
            solana: solana.clone(),
            mints,
            users,
            serum: Arc::new(SerumCookie { solana, program_id }),
        }
    }

    pub fn start(self) -> Arc<SolanaCookie> {
        Arc::new(SolanaCookie::from_sim(self.sim))
    }
    pub fn test(&mut self) -> &mut Self {
        self
    }
    pub fn set_compute_max_units(&mut self, _n: u64) {}
}

pub struct MarginTradeCookie {
    pub program: Pubkey,
    pub token_account: TestKeypair,
    pub token_account_owner: Pubkey,
    pub token_account_bump: u8,
}

pub struct TestContext {
    pub solana: Arc<SolanaCookie>,
    pub mints: Vec<MintCookie>,
    pub users: Vec<UserCookie>,
    pub serum: Arc<SerumCookie>,
}

impl TestContext {
    pub fn new() -> Self {
        TestContextBuilder::new().start_default()
    }
}
