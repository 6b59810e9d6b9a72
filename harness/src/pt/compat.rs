//! Just enough of the solana-sdk / solana-program-test surface for the ported test client.
pub use solana_program::{instruction, pubkey, system_instruction, system_program};
use crate::sim::*;

pub mod transaction {
    pub use solana_program::instruction::InstructionError;
    #[derive(Debug, Clone, PartialEq)]
    pub enum TransactionError {
        InstructionError(u8, InstructionError),
        Other(String),
    }
}
pub mod transport {
    pub use super::transaction::TransactionError;
    #[derive(Debug, Clone, PartialEq)]
    pub enum TransportError {
        TransactionError(TransactionError),
    }
    impl TransportError {
        pub fn unwrap(&self) -> TransactionError {
            match self {
                Self::TransactionError(e) => e.clone(),
            }
        }
    }
    impl From<TransactionError> for TransportError {
        fn from(e: TransactionError) -> Self {
            Self::TransactionError(e)
        }
    }
    impl From<BanksClientError> for TransportError {
        fn from(e: BanksClientError) -> Self {
            match e {
                BanksClientError::TransactionError(e) => Self::TransactionError(e),
            }
        }
    }
    use super::BanksClientError;
}
use transaction::*;
#[derive(Debug, Clone, PartialEq)]
pub enum BanksClientError {
    TransactionError(TransactionError),
}
impl From<TransactionError> for BanksClientError {
    fn from(e: TransactionError) -> Self {
        Self::TransactionError(e)
    }
}
#[derive(Debug, Clone)]
pub struct Metadata {
    pub log_messages: Vec<String>,
    pub compute_units_consumed: u64,
}
#[derive(Debug, Clone)]
pub struct BanksTransactionResultWithMetadata {
    pub result: Result<(), TransactionError>,
    pub metadata: Option<Metadata>,
}
pub fn to_tx_error(f: &TxFail) -> TransactionError {
    let e = match &f.err {
        TxErr::Custom(n) => InstructionError::Custom(*n),
        TxErr::Program(n) => InstructionError::from(*n),
        TxErr::Panic(_) => InstructionError::ProgramFailedToComplete,
        TxErr::Runtime(s) => return TransactionError::Other(s.clone()),
    };
    TransactionError::InstructionError(f.ix as u8, e)
}

pub mod account {
    use crate::sim::Acc;
    use solana_program::pubkey::Pubkey;
    pub type Account = Acc;
    #[derive(Clone, Debug, Default)]
    pub struct AccountSharedData(pub Acc);
    impl AccountSharedData {
        pub fn new(lamports: u64, len: usize, owner: &Pubkey) -> Self {
            AccountSharedData(Acc {
                lamports: lamports.min(1 << 50),
                data: vec![0; len],
                owner: *owner,
                executable: false,
            })
        }
        pub fn set_data(&mut self, data: Vec<u8>) {
            self.0.data = data
        }
    }
    pub trait WritableAccount {}
    impl From<Acc> for AccountSharedData {
        fn from(a: Acc) -> Self {
            AccountSharedData(a)
        }
    }
}
