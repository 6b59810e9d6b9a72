use super::compat::transaction::*;
use super::compat::transport::TransportError;
use bytemuck::{bytes_of, Contiguous};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::cell::Cell;

pub fn gen_signer_seeds<'a>(nonce: &'a u64, acc_pk: &'a Pubkey) -> [&'a [u8]; 2] {
    [acc_pk.as_ref(), bytes_of(nonce)]
}
pub fn gen_signer_key(
    nonce: u64,
    acc_pk: &Pubkey,
    program_id: &Pubkey,
) -> Result<Pubkey, ProgramError> {
    let seeds = gen_signer_seeds(&nonce, acc_pk);
    Ok(Pubkey::create_program_address(&seeds, program_id)?)
}
pub fn create_signer_key_and_nonce(program_id: &Pubkey, acc_pk: &Pubkey) -> (Pubkey, u64) {
    for i in 0..=u64::MAX_VALUE {
        if let Ok(pk) = gen_signer_key(i, acc_pk, program_id) {
            return (pk, i);
        }
    }
    panic!("Could not generate signer key");
}

thread_local! { static KEY_COUNTER: Cell<u64> = Cell::new(0); }
/// Resets the deterministic key generator of this thread.
pub fn reset_keys(n: u64) {
    KEY_COUNTER.with(|c| c.set(n));
}

/// Stand-in for a keypair: the simulator takes the set of signing addresses as given.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct TestKeypair([u8; 32]);
impl TestKeypair {
    pub fn new() -> Self {
        let n = KEY_COUNTER.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        TestKeypair(solana_program::hash::hashv(&[b"keypair", &n.to_le_bytes()]).to_bytes())
    }
    pub fn pubkey(&self) -> Pubkey {
        Pubkey::new_from_array(self.0)
    }
    pub fn from_pubkey(k: Pubkey) -> Self {
        TestKeypair(k.to_bytes())
    }
}

pub fn assert_mango_error<T>(
    result: &Result<T, TransportError>,
    expected_error: u32,
    comment: String,
) {
    match result {
        Ok(_) => assert!(false, "No error returned"),
        Err(TransportError::TransactionError(TransactionError::InstructionError(
            _,
            InstructionError::Custom(err_num),
        ))) => {
            assert_eq!(*err_num, expected_error, "{}", comment);
        }
        e => assert!(false, "Not a mango error: {:?}", e.as_ref().err()),
    }
}

#[macro_export]
macro_rules! assert_eq_f64 {
    ($value:expr, $expected:expr, $max_error:expr $(,)?) => {
        let value = $value;
        let expected = $expected;
        let ok = (value - expected).abs() < $max_error;
        if !ok {
            println!("comparison failed: value: {value}, expected: {expected}");
        }
        assert!(ok);
    };
}

#[macro_export]
macro_rules! assert_eq_fixed_f64 {
    ($value:expr, $expected:expr, $max_error:expr $(,)?) => {
        assert_eq_f64!($value.to_num::<f64>(), $expected, $max_error);
    };
}
