use super::compat::transaction::TransactionError;
use super::compat::*;
use super::utils::TestKeypair;
use crate::sim::*;
use anchor_lang::AccountDeserialize;
use anchor_spl::token::TokenAccount;
use solana_program::instruction::Instruction;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use std::cell::RefCell;

pub struct SolanaCookie {
    pub sim: RefCell<Sim>,
    pub rent: Rent,
    pub last_transaction_log: RefCell<Vec<String>>,
    pub last_fail: RefCell<Option<TxFail>>,
    pub last_data: RefCell<Vec<Vec<u8>>>,
    pub last_tx: RefCell<(Vec<Instruction>, Vec<Pubkey>)>,
}

impl SolanaCookie {
    pub fn from_sim(sim: Sim) -> Self {
        SolanaCookie {
            sim: RefCell::new(sim),
            rent: Rent::default(),
            last_transaction_log: RefCell::new(vec![]),
            last_fail: RefCell::new(None),
            last_data: RefCell::new(vec![]),
            last_tx: RefCell::new((vec![], vec![])),
        }
    }
    pub fn fork(&self) -> Self {
        Self::from_sim(self.sim.borrow().clone())
    }

    pub fn process_transaction(
        &self,
        instructions: &[Instruction],
        signers: Option<&[TestKeypair]>,
    ) -> Result<BanksTransactionResultWithMetadata, BanksClientError> {
        let keys: Vec<Pubkey> = signers
            .map(|s| s.iter().map(|k| k.pubkey()).collect())
            .unwrap_or_default();
        self.process_keys(instructions, &keys)
    }
    pub fn process_keys(
        &self,
        instructions: &[Instruction],
        keys: &[Pubkey],
    ) -> Result<BanksTransactionResultWithMetadata, BanksClientError> {
        let r = self.sim.borrow_mut().process(instructions, keys);
        *self.last_tx.borrow_mut() = (instructions.to_vec(), keys.to_vec());
        let (result, logs): (Result<(), TransactionError>, _) = match r {
            Ok(m) => {
                *self.last_data.borrow_mut() = m.data;
                *self.last_fail.borrow_mut() = None;
                (Ok(()), m.logs)
            }
            Err(f) => {
                self.last_data.borrow_mut().clear();
                let e = to_tx_error(&f);
                let logs = f.logs.clone();
                if self.sim.borrow().keep_logs {
                    println!("tx failed: {:?}", f.err);
                }
                *self.last_fail.borrow_mut() = Some(f);
                (Err(e), logs)
            }
        };
        *self.last_transaction_log.borrow_mut() = logs.clone();
        Ok(BanksTransactionResultWithMetadata {
            result,
            metadata: Some(Metadata {
                log_messages: logs,
                compute_units_consumed: 0,
            }),
        })
    }

    pub fn raw(&self) -> Raw {
        Raw {
            s: self,
            banks_client: Bank0(self),
        }
    }
    pub fn clock(&self) -> solana_program::clock::Clock {
        self.sim.borrow().clock.clone()
    }
    pub fn set_clock(&self, clock: &solana_program::clock::Clock) {
        self.sim.borrow_mut().clock = clock.clone();
    }
    pub fn clock_timestamp(&self) -> u64 {
        self.clock().unix_timestamp.try_into().unwrap()
    }
    pub fn set_clock_timestamp(&self, timestamp: u64) {
        self.sim.borrow_mut().clock.unix_timestamp = timestamp.try_into().unwrap();
    }
    pub fn advance_by_slots(&self, slots: u64) {
        let mut s = self.sim.borrow_mut();
        s.clock.slot += slots + 1;
    }
    pub fn advance_clock_to(&self, target: i64) {
        let mut s = self.sim.borrow_mut();
        while s.clock.unix_timestamp <= target {
            s.clock.slot += 50;
            s.clock.unix_timestamp += 20;
        }
    }
    pub fn advance_clock_to_next_multiple(&self, window: i64) {
        let ts = self.clock().unix_timestamp;
        self.advance_clock_to(ts / window * window + window)
    }
    pub fn advance_clock(&self) {
        let t = self.clock().unix_timestamp;
        self.advance_clock_to(t + 1)
    }
    pub fn get_newest_slot_from_history(&self) -> u64 {
        self.clock().slot
    }
    pub fn payer(&self) -> Pubkey {
        self.sim.borrow().payer
    }

    pub fn create_account_from_len(&self, owner: &Pubkey, len: usize) -> Pubkey {
        let key = self.sim.borrow_mut().new_key();
        self.sim.borrow_mut().set(
            key,
            Acc {
                lamports: self.rent.minimum_balance(len),
                data: vec![0; len],
                owner: *owner,
                executable: false,
            },
        );
        key
    }
    pub fn create_account_for_type<T>(&self, owner: &Pubkey) -> Pubkey {
        self.create_account_from_len(owner, 8 + std::mem::size_of::<T>())
    }
    pub fn create_token_account(&self, owner: &Pubkey, mint: Pubkey) -> Pubkey {
        let key = self.sim.borrow_mut().new_key();
        self.set_token_account(key, *owner, mint, 0);
        key
    }
    pub fn set_token_account(&self, key: Pubkey, owner: Pubkey, mint: Pubkey, amount: u64) {
        let acc = spl_token::state::Account {
            mint,
            owner,
            amount,
            state: spl_token::state::AccountState::Initialized,
            ..Default::default()
        };
        let mut data = vec![0; spl_token::state::Account::LEN];
        acc.pack_into_slice(&mut data);
        self.sim.borrow_mut().set(
            key,
            Acc {
                lamports: self.rent.minimum_balance(data.len()),
                data,
                owner: spl_token::id(),
                executable: false,
            },
        );
    }
    pub fn create_address_lookup_table(
        &self,
        authority: TestKeypair,
        payer: TestKeypair,
    ) -> Pubkey {
        let key = self.sim.borrow_mut().new_key();
        let mut data = vec![0u8; 56];
        data[0] = 1;
        data[4..12].copy_from_slice(&u64::MAX.to_le_bytes());
        data[21] = 1;
        data[22..54].copy_from_slice(authority.pubkey().as_ref());
        let _ = payer;
        self.sim.borrow_mut().set(
            key,
            Acc {
                lamports: 10_000_000,
                data,
                owner: solana_address_lookup_table_program::id(),
                executable: false,
            },
        );
        key
    }

    /// every account, for the TypeScript client's view of the world
    pub fn state_accounts(&self) -> Vec<(Pubkey, std::rc::Rc<crate::sim::Acc>)> {
        let s = self.sim.borrow();
        s.accounts.iter().map(|(k, a)| (*k, a.clone())).collect()
    }
    pub fn get_account_data(&self, address: Pubkey) -> Option<Vec<u8>> {
        self.sim.borrow().get(&address).map(|a| a.data.clone())
    }
    pub fn get_account_opt<T: AccountDeserialize>(&self, address: Pubkey) -> Option<T> {
        let s = self.sim.borrow();
        let data = &s.get(&address)?.data;
        let mut data_slice: &[u8] = data;
        AccountDeserialize::try_deserialize(&mut data_slice).ok()
    }
    pub fn get_account_boxed<T: AccountDeserialize>(&self, address: Pubkey) -> Box<T> {
        Box::new(self.get_account_opt(address).unwrap())
    }
    pub fn get_account<T: AccountDeserialize>(&self, address: Pubkey) -> T {
        self.get_account_opt(address).unwrap()
    }
    pub fn set_account<T: anchor_lang::Discriminator + anchor_lang::ZeroCopy>(
        &self,
        address: Pubkey,
        data: &T,
    ) {
        let mut buffer = T::DISCRIMINATOR.to_vec();
        buffer.extend_from_slice(bytemuck::bytes_of(data));
        let mut s = self.sim.borrow_mut();
        let mut acc = s.get(&address).unwrap().clone();
        acc.data = buffer;
        s.set(address, acc);
    }
    pub fn token_account_balance(&self, address: Pubkey) -> u64 {
        self.get_account::<TokenAccount>(address).amount
    }
    pub fn program_log(&self) -> Vec<String> {
        self.last_transaction_log.borrow().clone()
    }
    pub fn program_log_events<T: anchor_lang::Event + anchor_lang::AnchorDeserialize>(
        &self,
    ) -> Vec<T> {
        self.last_data
            .borrow()
            .iter()
            .filter_map(|bytes| {
                if bytes.len() < 8 || bytes[0..8] != T::discriminator() {
                    return None;
                }
                T::try_from_slice(&bytes[8..]).ok()
            })
            .collect()
    }
}

/// Direct account access with the surface of the repository's test context.
pub struct Raw<'a> {
    s: &'a SolanaCookie,
    pub banks_client: Bank0<'a>,
}
pub struct Bank0<'a>(&'a SolanaCookie);
impl<'a> Bank0<'a> {
    pub fn get_account(&self, k: Pubkey) -> Result<Option<Acc>, ()> {
        Ok(self.0.sim.borrow().get(&k).map(|a| (*a).clone()))
    }
}
impl<'a> Raw<'a> {
    pub fn set_account(&self, k: &Pubkey, a: &account::AccountSharedData) {
        self.s.sim.borrow_mut().set(*k, a.0.clone())
    }
}
