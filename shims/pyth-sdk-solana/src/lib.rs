//! Offline stand-in for pyth-sdk-solana 0.8 (published account layout).
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}
#[derive(Debug, PartialEq, Eq)]
pub enum PythError {
    InvalidAccountData,
    BadVersionNumber,
    WrongAccountType,
}
pub mod state {
    use super::PythError;
    use bytemuck::{Pod, Zeroable};
    use solana_program::pubkey::Pubkey;

    pub const MAGIC: u32 = 0xa1b2c3d4;
    pub const VERSION_2: u32 = 2;
    pub const VERSION: u32 = VERSION_2;

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(C)]
    pub enum AccountType {
        Unknown,
        Mapping,
        Product,
        Price,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(u8)]
    pub enum PriceStatus {
        Unknown,
        Trading,
        Halted,
        Auction,
        Ignored,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(u8)]
    pub enum CorpAction {
        NoCorpAct,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(u8)]
    pub enum PriceType {
        Unknown,
        Price,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub corp_act: CorpAction,
        pub pub_slot: u64,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(C)]
    pub struct PriceComp {
        pub publisher: Pubkey,
        pub agg: PriceInfo,
        pub latest: PriceInfo,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(C)]
    pub struct Rational {
        pub val: i64,
        pub numer: i64,
        pub denom: i64,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(C)]
    pub struct PriceAccount {
        pub magic: u32,
        pub ver: u32,
        pub atype: u32,
        pub size: u32,
        pub ptype: PriceType,
        pub expo: i32,
        pub num: u32,
        pub num_qt: u32,
        pub last_slot: u64,
        pub valid_slot: u64,
        pub ema_price: Rational,
        pub ema_conf: Rational,
        pub timestamp: i64,
        pub min_pub: u8,
        pub drv2: u8,
        pub drv3: u16,
        pub drv4: u32,
        pub prod: Pubkey,
        pub next: Pubkey,
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; 32],
    }
    unsafe impl Zeroable for PriceAccount {}
    unsafe impl Pod for PriceAccount {}
    pub type SolanaPriceAccount = PriceAccount;

    pub fn load_price_account(data: &[u8]) -> Result<&PriceAccount, PythError> {
        let n = std::mem::size_of::<PriceAccount>();
        let pyth_price = bytemuck::try_from_bytes::<PriceAccount>(
            data.get(0..n).ok_or(PythError::InvalidAccountData)?,
        )
        .map_err(|_| PythError::InvalidAccountData)?;
        if pyth_price.magic != MAGIC {
            return Err(PythError::InvalidAccountData);
        }
        if pyth_price.ver != VERSION_2 {
            return Err(PythError::BadVersionNumber);
        }
        if pyth_price.atype != AccountType::Price as u32 {
            return Err(PythError::WrongAccountType);
        }
        Ok(pyth_price)
    }
}
