//! Offline stand-in for the parts of openbook-dex/program (serum_dex) that mango-v4 names:
//! account layouts (as published), instruction packing, and a slab that can be searched by key.
//! The DEX program itself is simulated by the verification harness.
pub mod state {
    use bytemuck::{Pod, Zeroable};
    use solana_program::pubkey::Pubkey;

    pub const ACCOUNT_HEAD_PADDING: &[u8; 5] = b"serum";
    pub const ACCOUNT_TAIL_PADDING: &[u8; 7] = b"padding";

    pub trait ToAlignedBytes {
        fn to_aligned_bytes(&self) -> [u64; 4];
    }
    impl ToAlignedBytes for Pubkey {
        fn to_aligned_bytes(&self) -> [u64; 4] {
            bytemuck::cast(self.to_bytes())
        }
    }

    #[derive(Copy, Clone, Debug)]
    #[repr(u64)]
    pub enum AccountFlag {
        Initialized = 1u64 << 0,
        Market = 1u64 << 1,
        OpenOrders = 1u64 << 2,
        RequestQueue = 1u64 << 3,
        EventQueue = 1u64 << 4,
        Bids = 1u64 << 5,
        Asks = 1u64 << 6,
        Disabled = 1u64 << 7,
        Closed = 1u64 << 8,
        Permissioned = 1u64 << 9,
        CrankAuthorityRequired = 1u64 << 10,
    }

    #[derive(Copy, Clone)]
    #[repr(C, packed)]
    pub struct MarketState {
        pub account_flags: u64,
        pub own_address: [u64; 4],
        pub vault_signer_nonce: u64,
        pub coin_mint: [u64; 4],
        pub pc_mint: [u64; 4],
        pub coin_vault: [u64; 4],
        pub coin_deposits_total: u64,
        pub coin_fees_accrued: u64,
        pub pc_vault: [u64; 4],
        pub pc_deposits_total: u64,
        pub pc_fees_accrued: u64,
        pub pc_dust_threshold: u64,
        pub req_q: [u64; 4],
        pub event_q: [u64; 4],
        pub bids: [u64; 4],
        pub asks: [u64; 4],
        pub coin_lot_size: u64,
        pub pc_lot_size: u64,
        pub fee_rate_bps: u64,
        pub referrer_rebates_accrued: u64,
    }
    unsafe impl Zeroable for MarketState {}
    unsafe impl Pod for MarketState {}

    #[derive(Debug)]
    pub struct DexError;
    pub type DexResult<T = ()> = Result<T, DexError>;

    impl MarketState {
        pub fn check_flags(&self, allow_disabled: bool) -> DexResult {
            let flags = self.account_flags;
            let req = AccountFlag::Initialized as u64 | AccountFlag::Market as u64;
            let opt = AccountFlag::Permissioned as u64
                | AccountFlag::CrankAuthorityRequired as u64
                | if allow_disabled { AccountFlag::Disabled as u64 } else { 0 };
            if flags & req != req || flags & !(req | opt) != 0 {
                return Err(DexError);
            }
            Ok(())
        }
    }

    #[derive(Copy, Clone)]
    #[repr(C, packed)]
    pub struct OpenOrders {
        pub account_flags: u64,
        pub market: [u64; 4],
        pub owner: [u64; 4],
        pub native_coin_free: u64,
        pub native_coin_total: u64,
        pub native_pc_free: u64,
        pub native_pc_total: u64,
        pub free_slot_bits: u128,
        pub is_bid_bits: u128,
        pub orders: [u128; 128],
        pub client_order_ids: [u64; 128],
        pub referrer_rebates_accrued: u64,
    }
    unsafe impl Zeroable for OpenOrders {}
    unsafe impl Pod for OpenOrders {}

    #[derive(Copy, Clone, Debug)]
    #[repr(C, packed)]
    pub struct Event {
        pub event_flags: u8,
        pub owner_slot: u8,
        pub fee_tier: u8,
        pub _padding: [u8; 5],
        pub native_qty_released: u64,
        pub native_qty_paid: u64,
        pub native_fee_or_rebate: u64,
        pub order_id: u128,
        pub owner: [u64; 4],
        pub client_order_id: u64,
    }
    unsafe impl Zeroable for Event {}
    unsafe impl Pod for Event {}
    #[derive(Clone, Debug)]
    pub enum EventView {
        Fill {
            side: super::matching::Side,
            maker: bool,
            native_qty_paid: u64,
            native_qty_received: u64,
            native_fee_or_rebate: u64,
            order_id: u128,
            owner: [u64; 4],
            owner_slot: u8,
            fee_tier: u8,
            client_order_id: Option<std::num::NonZeroU64>,
        },
        Out {
            side: super::matching::Side,
            release_funds: bool,
            native_qty_unlocked: u64,
            native_qty_still_locked: u64,
            order_id: u128,
            owner: [u64; 4],
            owner_slot: u8,
            client_order_id: Option<std::num::NonZeroU64>,
        },
    }
    impl Event {
        /// flags: 1 fill, 2 out, 4 bid, 8 maker, 16 release funds
        pub fn as_view(&self) -> DexResult<EventView> {
            let f = self.event_flags;
            let side = if f & 4 != 0 { super::matching::Side::Bid } else { super::matching::Side::Ask };
            let client_order_id = std::num::NonZeroU64::new(self.client_order_id);
            Ok(match f & 3 {
                1 => EventView::Fill {
                    side,
                    maker: f & 8 != 0,
                    native_qty_paid: self.native_qty_paid,
                    native_qty_received: self.native_qty_released,
                    native_fee_or_rebate: self.native_fee_or_rebate,
                    order_id: self.order_id,
                    owner: self.owner,
                    owner_slot: self.owner_slot,
                    fee_tier: self.fee_tier,
                    client_order_id,
                },
                2 => EventView::Out {
                    side,
                    release_funds: f & 16 != 0,
                    native_qty_unlocked: self.native_qty_released,
                    native_qty_still_locked: self.native_qty_paid,
                    order_id: self.order_id,
                    owner: self.owner,
                    owner_slot: self.owner_slot,
                    client_order_id,
                },
                _ => return Err(DexError),
            })
        }
    }

    pub fn gen_vault_signer_seeds<'a>(nonce: &'a u64, market: &'a Pubkey) -> [&'a [u8]; 2] {
        [market.as_ref(), bytemuck::bytes_of(nonce)]
    }
    pub fn gen_vault_signer_key(
        nonce: u64,
        market: &Pubkey,
        program_id: &Pubkey,
    ) -> Result<Pubkey, solana_program::program_error::ProgramError> {
        let seeds = gen_vault_signer_seeds(&nonce, market);
        Ok(Pubkey::create_program_address(&seeds, program_id)?)
    }
}

pub mod critbit {
    const CAP: usize = 96;
    const REC: usize = 56;
    /// an order of the harness layout
    pub struct LeafNode {
        key: u128,
        owner: [u64; 4],
        quantity: u64,
        client_order_id: u64,
    }
    impl LeafNode {
        pub fn price(&self) -> std::num::NonZeroU64 {
            std::num::NonZeroU64::new((self.key >> 64) as u64).unwrap()
        }
        pub fn order_id(&self) -> u128 {
            self.key
        }
        pub fn quantity(&self) -> u64 {
            self.quantity
        }
        pub fn owner(&self) -> [u64; 4] {
            self.owner
        }
        pub fn client_order_id(&self) -> u64 {
            self.client_order_id
        }
    }
    /// `find_by_key` view over an order book side. Harness layout after the 8-byte header:
    /// u64 count, then `count` u128 order ids.
    #[repr(transparent)]
    pub struct Slab([u8]);
    pub type NodeHandle = u32;
    impl Slab {
        pub fn new(bytes: &mut [u8]) -> &mut Self {
            unsafe { &mut *(bytes as *mut [u8] as *mut Slab) }
        }
        pub fn iter(&self, descending: bool) -> impl Iterator<Item = LeafNode> {
            let u = |o: usize| u64::from_le_bytes(self.0[o..o + 8].try_into().unwrap());
            let mut v: Vec<LeafNode> = (0..u(0) as usize)
                .map(|i| {
                    let (k, r) = (8 + i * 16, 8 + CAP * 16 + i * REC);
                    LeafNode {
                        key: u128::from_le_bytes(self.0[k..k + 16].try_into().unwrap()),
                        owner: [u(r), u(r + 8), u(r + 16), u(r + 24)],
                        quantity: u(r + 32),
                        client_order_id: u(r + 48),
                    }
                })
                .collect();
            v.sort_by_key(|o| o.key);
            if descending {
                v.reverse();
            }
            v.into_iter()
        }
        pub fn find_by_key(&self, key: u128) -> Option<NodeHandle> {
            let n = u64::from_le_bytes(self.0.get(0..8)?.try_into().unwrap()) as usize;
            (0..n)
                .find(|i| {
                    self.0
                        .get(8 + i * 16..24 + i * 16)
                        .map(|b| u128::from_le_bytes(b.try_into().unwrap()) == key)
                        .unwrap_or(false)
                })
                .map(|i| i as u32)
        }
    }
}

pub mod matching {
    use num_enum::{IntoPrimitive, TryFromPrimitive};
    #[derive(Eq, PartialEq, Copy, Clone, TryFromPrimitive, IntoPrimitive, Debug)]
    #[repr(u8)]
    pub enum Side {
        Bid = 0,
        Ask = 1,
    }
    #[derive(Eq, PartialEq, Copy, Clone, TryFromPrimitive, IntoPrimitive, Debug)]
    #[repr(u8)]
    pub enum OrderType {
        Limit = 0,
        ImmediateOrCancel = 1,
        PostOnly = 2,
    }
}

pub mod instruction {
    use super::matching::{OrderType, Side};
    use num_enum::{IntoPrimitive, TryFromPrimitive};
    use std::num::NonZeroU64;

    #[derive(Eq, PartialEq, Copy, Clone, TryFromPrimitive, IntoPrimitive, Debug)]
    #[repr(u8)]
    pub enum SelfTradeBehavior {
        DecrementTake = 0,
        CancelProvide = 1,
        AbortTransaction = 2,
    }

    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct NewOrderInstructionV3 {
        pub side: Side,
        pub limit_price: NonZeroU64,
        pub max_coin_qty: NonZeroU64,
        pub max_native_pc_qty_including_fees: NonZeroU64,
        pub self_trade_behavior: SelfTradeBehavior,
        pub order_type: OrderType,
        pub client_order_id: u64,
        pub limit: u16,
        pub max_ts: i64,
    }
    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct CancelOrderInstructionV2 {
        pub side: Side,
        pub order_id: u128,
    }
    #[derive(PartialEq, Eq, Debug, Clone)]
    pub enum MarketInstruction {
        SettleFunds,
        NewOrderV3(NewOrderInstructionV3),
        CancelOrderV2(CancelOrderInstructionV2),
        CancelOrderByClientIdV2(u64),
        ConsumeEvents(u16),
        CloseOpenOrders,
        InitOpenOrders,
    }
    impl MarketInstruction {
        pub fn pack(&self) -> Vec<u8> {
            let mut v = vec![0u8];
            match self {
                MarketInstruction::ConsumeEvents(n) => {
                    v.extend(3u32.to_le_bytes());
                    v.extend(n.to_le_bytes());
                }
                MarketInstruction::SettleFunds => v.extend(5u32.to_le_bytes()),
                MarketInstruction::NewOrderV3(o) => {
                    v.extend(10u32.to_le_bytes());
                    v.extend((o.side as u32).to_le_bytes());
                    v.extend(o.limit_price.get().to_le_bytes());
                    v.extend(o.max_coin_qty.get().to_le_bytes());
                    v.extend(o.max_native_pc_qty_including_fees.get().to_le_bytes());
                    v.extend((o.self_trade_behavior as u32).to_le_bytes());
                    v.extend((o.order_type as u32).to_le_bytes());
                    v.extend(o.client_order_id.to_le_bytes());
                    v.extend(o.limit.to_le_bytes());
                    v.extend(o.max_ts.to_le_bytes());
                }
                MarketInstruction::CancelOrderV2(c) => {
                    v.extend(11u32.to_le_bytes());
                    v.extend((c.side as u32).to_le_bytes());
                    v.extend(c.order_id.to_le_bytes());
                }
                MarketInstruction::CancelOrderByClientIdV2(id) => {
                    v.extend(12u32.to_le_bytes());
                    v.extend(id.to_le_bytes());
                }
                MarketInstruction::CloseOpenOrders => v.extend(14u32.to_le_bytes()),
                MarketInstruction::InitOpenOrders => v.extend(15u32.to_le_bytes()),
            }
            v
        }
        pub fn unpack(d: &[u8]) -> Option<Self> {
            if *d.first()? != 0 {
                return None;
            }
            let tag = u32::from_le_bytes(d.get(1..5)?.try_into().ok()?);
            let b = &d[5..];
            let u32a = |i: usize| Some(u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?));
            let u64a = |i: usize| Some(u64::from_le_bytes(b.get(i..i + 8)?.try_into().ok()?));
            Some(match tag {
                3 => MarketInstruction::ConsumeEvents(u16::from_le_bytes(b.get(0..2)?.try_into().ok()?)),
                5 => MarketInstruction::SettleFunds,
                10 => MarketInstruction::NewOrderV3(NewOrderInstructionV3 {
                    side: Side::try_from(u32a(0)? as u8).ok()?,
                    limit_price: NonZeroU64::new(u64a(4)?)?,
                    max_coin_qty: NonZeroU64::new(u64a(12)?)?,
                    max_native_pc_qty_including_fees: NonZeroU64::new(u64a(20)?)?,
                    self_trade_behavior: SelfTradeBehavior::try_from(u32a(28)? as u8).ok()?,
                    order_type: OrderType::try_from(u32a(32)? as u8).ok()?,
                    client_order_id: u64a(36)?,
                    limit: u16::from_le_bytes(b.get(44..46)?.try_into().ok()?),
                    max_ts: i64::from_le_bytes(b.get(46..54)?.try_into().ok()?),
                }),
                11 => MarketInstruction::CancelOrderV2(CancelOrderInstructionV2 {
                    side: Side::try_from(u32a(0)? as u8).ok()?,
                    order_id: u128::from_le_bytes(b.get(4..20)?.try_into().ok()?),
                }),
                12 => MarketInstruction::CancelOrderByClientIdV2(u64a(0)?),
                14 => MarketInstruction::CloseOpenOrders,
                15 => MarketInstruction::InitOpenOrders,
                _ => return None,
            })
        }
    }
}
