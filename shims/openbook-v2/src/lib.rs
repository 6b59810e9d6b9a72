//! Offline stand-in: only the names mango-v4's account structs mention (the openbook-v2
//! instructions have no implementation in mango-v4 at this commit).
use anchor_lang::prelude::*;
declare_id!("opnb2LAfJYbRMAHHvqjCwQxanZn7ReEHp1k81EohpZb");

pub mod program {
    use super::*;
    #[derive(Clone)]
    pub struct OpenbookV2;
    impl anchor_lang::Id for OpenbookV2 {
        fn id() -> Pubkey {
            super::ID
        }
    }
}
pub mod state {
    use super::*;
    #[account(zero_copy)]
    pub struct Market {
        pub base_mint: Pubkey,
        pub quote_mint: Pubkey,
        pub bids: Pubkey,
        pub asks: Pubkey,
        pub event_heap: Pubkey,
        pub market_base_vault: Pubkey,
        pub market_quote_vault: Pubkey,
    }
    #[account(zero_copy)]
    pub struct OpenOrdersAccount {
        pub owner: Pubkey,
        pub market: Pubkey,
    }
    #[derive(
        Eq, PartialEq, Copy, Clone, Debug, num_enum::TryFromPrimitive, num_enum::IntoPrimitive, AnchorSerialize, AnchorDeserialize,
    )]
    #[repr(u8)]
    pub enum Side {
        Bid = 0,
        Ask = 1,
    }
    #[derive(
        Eq, PartialEq, Copy, Clone, Debug, num_enum::TryFromPrimitive, num_enum::IntoPrimitive, AnchorSerialize, AnchorDeserialize,
    )]
    #[repr(u8)]
    pub enum PlaceOrderType {
        Limit = 0,
        ImmediateOrCancel = 1,
        PostOnly = 2,
        Market = 3,
        PostOnlySlide = 4,
        FillOrKill = 5,
    }
    #[derive(
        Eq, PartialEq, Copy, Clone, Debug, num_enum::TryFromPrimitive, num_enum::IntoPrimitive, AnchorSerialize, AnchorDeserialize,
    )]
    #[repr(u8)]
    pub enum SelfTradeBehavior {
        DecrementTake = 0,
        CancelProvide = 1,
        AbortTransaction = 2,
    }
}
