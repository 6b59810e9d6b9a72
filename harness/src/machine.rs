//! Random histories of program instructions over a World.
use crate::model::*;
use crate::pbt::{Case, Src};
use crate::pt::*;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::accounts_ix::{FlashLoanType, Serum3OrderType, Serum3SelfTradeBehavior, Serum3Side};
use mango_v4::serum3_cpi::OpenOrdersAmounts;
use mango_v4::state::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Time,
    Price,
    Deposit,
    Withdraw,
    UpdateIndex,
    PerpOrder,
    PerpPegged,
    PerpCancel,
    Consume,
    Funding,
    SettlePnl,
    SettleFees,
    LiqToken,
    LiqTokenBankruptcy,
    PerpLiqCancel,
    PerpLiqBase,
    PerpLiqNeg,
    ForceClosePerp,
    ForceCloseBorrow,
    ForceWithdraw,
    FlashLoan,
    TcsCreate,
    TcsTrigger,
    SerumOpen,
    SerumPlace,
    SerumCancel,
    SerumSettle,
    SerumConsume,
    SerumLiqCancel,
    CollateralFee,
    Buyback,
    WithdrawFees,
    Region,
    Deactivate,
}
use K::*;
impl K {
    pub fn name(self) -> &'static str {
        match self {
            Time => "Time",
            Price => "Price",
            Deposit => "Deposit",
            Withdraw => "Withdraw",
            UpdateIndex => "UpdateIndex",
            PerpOrder => "PerpOrder",
            PerpPegged => "PerpPegged",
            PerpCancel => "PerpCancel",
            Consume => "Consume",
            Funding => "Funding",
            SettlePnl => "SettlePnl",
            SettleFees => "SettleFees",
            LiqToken => "LiqToken",
            LiqTokenBankruptcy => "LiqTokenBankruptcy",
            PerpLiqCancel => "PerpLiqCancel",
            PerpLiqBase => "PerpLiqBase",
            PerpLiqNeg => "PerpLiqNeg",
            ForceClosePerp => "ForceClosePerp",
            ForceCloseBorrow => "ForceCloseBorrow",
            ForceWithdraw => "ForceWithdraw",
            FlashLoan => "FlashLoan",
            TcsCreate => "TcsCreate",
            TcsTrigger => "TcsTrigger",
            SerumOpen => "SerumOpen",
            SerumPlace => "SerumPlace",
            SerumCancel => "SerumCancel",
            SerumSettle => "SerumSettle",
            SerumConsume => "SerumConsume",
            SerumLiqCancel => "SerumLiqCancel",
            CollateralFee => "CollateralFee",
            Buyback => "Buyback",
            WithdrawFees => "WithdrawFees",
            Region => "Region",
            Deactivate => "Deactivate",
        }
    }
    pub fn name_err(self) -> &'static str {
        match self {
            Time => "drift Time",
            Price => "drift Price",
            Deposit => "drift Deposit",
            Withdraw => "drift Withdraw",
            UpdateIndex => "drift UpdateIndex",
            PerpOrder => "drift PerpOrder",
            PerpPegged => "drift PerpPegged",
            PerpCancel => "drift PerpCancel",
            Consume => "drift Consume",
            Funding => "drift Funding",
            SettlePnl => "drift SettlePnl",
            SettleFees => "drift SettleFees",
            LiqToken => "drift LiqToken",
            LiqTokenBankruptcy => "drift LiqTokenBankruptcy",
            PerpLiqCancel => "drift PerpLiqCancel",
            PerpLiqBase => "drift PerpLiqBase",
            PerpLiqNeg => "drift PerpLiqNeg",
            ForceClosePerp => "drift ForceClosePerp",
            ForceCloseBorrow => "drift ForceCloseBorrow",
            ForceWithdraw => "drift ForceWithdraw",
            FlashLoan => "drift FlashLoan",
            TcsCreate => "drift TcsCreate",
            TcsTrigger => "drift TcsTrigger",
            SerumOpen => "drift SerumOpen",
            SerumPlace => "drift SerumPlace",
            SerumCancel => "drift SerumCancel",
            SerumSettle => "drift SerumSettle",
            SerumConsume => "drift SerumConsume",
            SerumLiqCancel => "drift SerumLiqCancel",
            CollateralFee => "drift CollateralFee",
            Buyback => "drift Buyback",
            WithdrawFees => "drift WithdrawFees",
            Region => "drift Region",
            Deactivate => "drift Deactivate",
        }
    }
}

pub const ALL: [(K, u64); 34] = [
    (Time, 8),
    (Price, 10),
    (Deposit, 10),
    (Withdraw, 12),
    (UpdateIndex, 8),
    (PerpOrder, 22),
    (PerpPegged, 4),
    (PerpCancel, 4),
    (Consume, 8),
    (Funding, 5),
    (SettlePnl, 7),
    (SettleFees, 3),
    (LiqToken, 10),
    (LiqTokenBankruptcy, 4),
    (PerpLiqCancel, 3),
    (PerpLiqBase, 7),
    (PerpLiqNeg, 5),
    (ForceClosePerp, 2),
    (ForceCloseBorrow, 2),
    (ForceWithdraw, 1),
    (FlashLoan, 6),
    (TcsCreate, 4),
    (TcsTrigger, 6),
    (SerumOpen, 4),
    (SerumPlace, 8),
    (SerumCancel, 3),
    (SerumSettle, 4),
    (SerumConsume, 4),
    (SerumLiqCancel, 2),
    (CollateralFee, 3),
    (Buyback, 3),
    (WithdrawFees, 2),
    (Region, 3),
    (Deactivate, 2),
];

pub struct Step {
    pub k: K,
    pub ok: bool,
    pub a: usize,
    pub b: usize,
    pub t: usize,
    pub t2: usize,
    pub p: usize,
    pub amount: f64,
    pub what: String,
    pub err: String,
}

pub struct Machine {
    pub w: World,
    pub weights: Vec<(K, u64)>,
}

/// 1..max, magnitude-uniform
fn amt(src: &mut Src, max: f64) -> u64 {
    if max < 1.0 {
        return src.below(2);
    }
    src.log_range(1, (max as u64).max(1)).max(1)
}

impl Machine {
    pub fn setup(src: &mut Src, weights: &[(K, u64)]) -> Machine {
        let w = World::new();
        w.random_bank_config(src);
        for t in 0..5 {
            let p = w.price(t) * if t == 0 { 1.0 } else { src.pick(&[1.0, 0.3, 2.7]) };
            w.set_price(t, p, Some(p));
        }
        for p in 0..2 {
            let px = w.perp_price(p) * src.pick(&[1.0, 1.02, 0.97]);
            w.set_perp_price(p, px, Some(px));
            let (maker, taker) = src.pick(&[(-0.0001, 0.0004), (0.0002, 0.0005), (0.0, 0.0)]);
            let plat = src.pick(&[0.0, 0.005]);
            let lf = src.pick(&[-1.0f32, 0.2, 1.0]);
            let ow = src.pick(&[1.0, 0.0, 0.6]);
            let pen = src.pick(&[0.0f32, 10.0]);
            let gi = src.below(2) as u8;
            let flat = src.pick(&[0.0f32, 5.0]);
            w.edit_perp(p, |m| {
                m.maker_fee = num(maker);
                m.taker_fee = num(taker);
                m.platform_liquidation_fee = num(plat);
                m.settle_pnl_limit_factor = lf;
                m.maint_overall_asset_weight = num(ow);
                m.init_overall_asset_weight = num(ow);
                m.fee_penalty = pen;
                m.group_insurance_fund = gi;
                m.settle_fee_flat = flat;
                m.settle_fee_amount_threshold = 10.0;
                m.settle_fee_fraction_low_health = flat * 0.01;
                m.min_funding = num(-0.05);
                m.max_funding = num(0.05);
            });
        }
        let fees_acc = w.accs[5].key;
        w.edit_group(|g| {
            g.buyback_fees = 1;
            g.buyback_fees_mngo_bonus_factor = 1.2;
            g.mngo_token_index = 3;
            g.buyback_fees_swap_mango_account = fees_acc;
            g.collateral_fee_interval = 3600;
        });
        for t in 0..5 {
            let cf = src.pick(&[0.0f32, 0.002]);
            w.edit_token(t, |b| b.collateral_fee_per_day = cf);
        }
        w.whale_liquidity();
        w.set_vault(w.insurance_vault, src.log(1_000_000_000));
        for a in [LIQOR, 5] {
            for t in 0..5 {
                w.grant(a, t, 0, (1e12 / w.price(t)).floor());
            }
        }
        for a in 1..4 {
            // one or two tokens as collateral
            w.grant(a, src.idx(5), src.idx(2), 1.0);
            let n = 1 + src.idx(3);
            for _ in 0..n {
                let t = src.idx(5);
                let v = src.log_range(1_000, 1_000_000_000) as f64;
                w.grant(a, t, src.idx(2), (v / w.price(t)).floor());
            }
            if src.chance(40) {
                let t = src.idx(5);
                let v = src.log_range(1_000, 100_000_000) as f64;
                w.grant(a, t, src.idx(2), -(v / w.price(t)).floor());
            }
        }
        if src.chance(60) {
            let p = src.idx(2);
            let (a, b) = (1 + src.idx(3), src.pick(&[4usize, 1, 2, 3]));
            if a != b {
                let pm = w.perp(p);
                let lots = src.log_range(1, 100_000) as i64;
                let q = num(lots * pm.base_lot_size) * num(w.perp_price(p) * src.f(0.8, 1.2));
                w.grant_perp(p, a, b, lots, q);
            }
        }
        if src.bool() {
            for a in [1, 2] {
                w.ok(Serum3CreateOpenOrdersInstruction {
                    account: w.accs[a].key,
                    serum_market: w.spots[0].market,
                    owner: w.accs[a].owner,
                    payer: w.users[3].key,
                });
            }
        }
        Machine {
            w,
            weights: weights.to_vec(),
        }
    }

    pub fn events(&self, p: usize) -> Box<EventQueue> {
        self.w
            .s
            .get_account_boxed::<EventQueue>(self.w.perps[p].event_queue)
    }

    pub fn send(&self, ixs: &[Instruction], signers: &[TestKeypair]) -> bool {
        self.w
            .s
            .process_transaction(ixs, Some(signers))
            .unwrap()
            .result
            .is_ok()
    }

    fn unhealthy(&self, src: &mut Src, s: &Snap) -> usize {
        // prefer an account below maintenance health
        let mut v = vec![];
        for a in 1..4 {
            let h = self.w.health(s, a);
            if h.health(HT::Maint) < 0.0 || s.accs[a].being_liquidated() {
                v.push(a);
            }
        }
        if v.is_empty() {
            1 + src.idx(3)
        } else {
            src.pick(&v)
        }
    }

    pub fn step(&self, src: &mut Src, s: &Snap) -> Step {
        let ws: Vec<u64> = self.weights.iter().map(|x| x.1).collect();
        let k = self.weights[src.weighted(&ws)].0;
        self.act(k, src, s)
    }

    pub fn act(&self, k: K, src: &mut Src, s: &Snap) -> Step {
        let w = &self.w;
        let mut st = Step {
            k,
            ok: false,
            a: 0,
            b: 0,
            t: 0,
            t2: 0,
            p: 0,
            amount: 0.0,
            what: String::new(),
            err: String::new(),
        };
        *w.s.last_fail.borrow_mut() = None;
        match k {
            Time => {
                let dt = src.pick(&[1u64, 30, 3600, 86_400, 7 * 86_400]);
                w.advance(dt);
                // keep oracles fresh
                for t in 0..5 {
                    w.set_price(t, s.tok_price[t], None);
                }
                st.ok = true;
                st.what = format!("advance {dt}s");
            }
            Price => {
                if src.bool() {
                    st.t = 1 + src.idx(4);
                    let p = (s.tok_price[st.t] * src.pick(&[0.5, 0.8, 0.97, 1.03, 1.25, 2.0]))
                        .max(1e-3)
                        .min(1e4);
                    let stable = if src.bool() { Some(p) } else { None };
                    w.set_price(st.t, p, stable);
                    st.what = format!("price of token {} = {p} stable {stable:?}", st.t);
                } else {
                    st.p = src.idx(2);
                    let p = (s.perp_price[st.p] * src.pick(&[0.7, 0.97, 1.03, 1.4]))
                        .max(1e-3)
                        .min(1e4);
                    let stable = if src.bool() { Some(p) } else { None };
                    w.set_perp_price(st.p, p, stable);
                    st.what = format!("price of perp {} = {p} stable {stable:?}", st.p);
                }
                st.ok = true;
            }
            Deposit => {
                st.a = 1 + src.idx(4);
                st.t = src.idx(5);
                let n = src.idx(2);
                let have = s.pos(st.a, st.t).abs();
                let x = if src.chance(30) {
                    have.ceil() as u64
                } else {
                    amt(src, 1e9 / s.tok_price[st.t])
                };
                st.amount = x as f64;
                let mut ix = w.deposit_ix(st.a, st.t, n, x);
                ix.reduce_only = src.chance(10);
                st.ok = w.ok(ix);
                st.what = format!("deposit acc {} token {} bank {n} amount {x}", st.a, st.t);
            }
            Withdraw => {
                st.a = 1 + src.idx(4);
                st.t = src.idx(5);
                let n = src.idx(2);
                let x = match src.below(4) {
                    0 => u64::MAX,
                    1 => s.pos(st.a, st.t).abs().floor() as u64,
                    _ => amt(src, 1e9 / s.tok_price[st.t]),
                };
                let borrow = !src.chance(25);
                st.amount = x as f64;
                st.ok = w.ok(w.withdraw_ix(st.a, st.t, n, x, borrow));
                st.what = format!(
                    "withdraw acc {} token {} bank {n} amount {x} borrow {borrow}",
                    st.a, st.t
                );
            }
            UpdateIndex => {
                st.t = src.idx(5);
                st.ok = w.ok(TokenUpdateIndexAndRateInstruction {
                    mint_info: w.tokens[st.t].mint_info,
                });
                st.what = format!("update index token {}", st.t);
            }
            PerpOrder => {
                st.a = 1 + src.idx(4);
                st.p = src.idx(2);
                let pm = &s.perps[st.p];
                let fair = s.perp_price[st.p] * pm.base_lot_size as f64 / pm.quote_lot_size as f64;
                let side = src.pick(&[Side::Bid, Side::Ask]);
                let mut ix = w.order_ix(st.a, st.p, side);
                ix.price_lots = ((fair * src.f(0.95, 1.05)).round() as i64).max(1);
                ix.max_base_lots = src.log_range(1, 5_000) as i64;
                ix.client_order_id = src.below(4);
                ix.reduce_only = src.chance(15);
                ix.self_trade_behavior = src.pick(&[
                    SelfTradeBehavior::DecrementTake,
                    SelfTradeBehavior::CancelProvide,
                    SelfTradeBehavior::AbortTransaction,
                ]);
                ix.limit = src.pick(&[10u8, 1, 3]);
                st.what = format!(
                    "perp {} acc {} {:?} {} lots @ {} reduce_only {} {:?}",
                    st.p,
                    st.a,
                    side,
                    ix.max_base_lots,
                    ix.price_lots,
                    ix.reduce_only,
                    ix.self_trade_behavior as u8
                );
                let ot = src.pick(&[
                    PlaceOrderType::Limit,
                    PlaceOrderType::ImmediateOrCancel,
                    PlaceOrderType::PostOnly,
                    PlaceOrderType::Market,
                    PlaceOrderType::PostOnlySlide,
                ]);
                let (_, mut raw) = ix.to_instruction(&*w.s);
                let data = mango_v4::instruction::PerpPlaceOrderV2 {
                    side,
                    price_lots: ix.price_lots,
                    max_base_lots: ix.max_base_lots,
                    max_quote_lots: ix.max_quote_lots,
                    client_order_id: ix.client_order_id,
                    order_type: ot,
                    reduce_only: ix.reduce_only,
                    expiry_timestamp: if src.chance(15) { s.now + 40 } else { 0 },
                    limit: ix.limit,
                    self_trade_behavior: ix.self_trade_behavior,
                };
                raw.data = anchor_lang::InstructionData::data(&data);
                st.what += &format!(" type {}", ot as u8);
                st.ok = self.send(&[raw], &ix.signers());
            }
            PerpPegged => {
                st.a = 1 + src.idx(4);
                st.p = src.idx(2);
                let side = src.pick(&[Side::Bid, Side::Ask]);
                let off = src.range(-30, 30);
                st.what = format!("perp {} acc {} pegged {:?} offset {off}", st.p, st.a, side);
                st.ok = w.ok(PerpPlaceOrderPeggedInstruction {
                    account: w.accs[st.a].key,
                    perp_market: w.perps[st.p].key,
                    owner: w.accs[st.a].owner,
                    side,
                    price_offset: off,
                    max_base_lots: src.log_range(1, 3000) as i64,
                    max_quote_lots: i64::MAX,
                    client_order_id: 5,
                    peg_limit: -1,
                });
            }
            PerpCancel => {
                st.a = 1 + src.idx(4);
                st.p = src.idx(2);
                st.ok = w.ok(PerpCancelAllOrdersInstruction {
                    account: w.accs[st.a].key,
                    perp_market: w.perps[st.p].key,
                    owner: w.accs[st.a].owner,
                    limit: src.pick(&[10u8, 1]),
                });
                st.what = format!("perp {} acc {} cancel", st.p, st.a);
            }
            Consume => {
                st.p = src.idx(2);
                st.ok = w.ok(PerpConsumeEventsInstruction {
                    perp_market: w.perps[st.p].key,
                    mango_accounts: w.accs.iter().map(|a| a.key).collect(),
                });
                st.what = format!("perp {} consume events", st.p);
            }
            Funding => {
                st.p = src.idx(2);
                st.ok = w.ok(PerpUpdateFundingInstruction {
                    perp_market: w.perps[st.p].key,
                    bank: w.tokens[0].bank,
                    oracle: w.perps[st.p].oracle,
                });
                st.what = format!("perp {} update funding", st.p);
            }
            SettlePnl => {
                st.p = src.idx(2);
                // a: profitable, b: losing
                let split = |p: usize| {
                    let px = s.perp_price[p] * s.perps[p].base_lot_size as f64;
                    let pnl = |a: usize| {
                        let q = s.pp(a, p);
                        f(q.quote_position_native) + q.base_position_lots as f64 * px
                    };
                    let pos: Vec<usize> = (1..5).filter(|a| pnl(*a) > 0.0).collect();
                    let neg: Vec<usize> = (1..5).filter(|a| pnl(*a) < 0.0).collect();
                    (pos, neg)
                };
                let (mut pos, mut neg) = split(st.p);
                if pos.is_empty() || neg.is_empty() {
                    st.p = 1 - st.p;
                    (pos, neg) = split(st.p);
                }
                st.a = if pos.is_empty() { 1 } else { src.pick(&pos) };
                st.b = if neg.is_empty() { 2 } else { src.pick(&neg) };
                st.ok = w.ok(PerpSettlePnlInstruction {
                    settler: w.accs[LIQOR].key,
                    settler_owner: w.accs[LIQOR].owner,
                    account_a: w.accs[st.a].key,
                    account_b: w.accs[st.b].key,
                    perp_market: w.perps[st.p].key,
                });
                st.what = format!("perp {} settle pnl {} <- {}", st.p, st.a, st.b);
            }
            SettleFees => {
                st.p = src.idx(2);
                st.a = 1 + src.idx(4);
                st.ok = w.ok(PerpSettleFeesInstruction {
                    account: w.accs[st.a].key,
                    perp_market: w.perps[st.p].key,
                    max_settle_amount: src.pick(&[u64::MAX, 5]),
                });
                st.what = format!("perp {} settle fees from {}", st.p, st.a);
            }
            LiqToken => {
                st.a = self.unhealthy(src, s);
                st.b = LIQOR;
                let assets: Vec<usize> = (0..5).filter(|t| s.pos(st.a, *t) > 0.0).collect();
                let liabs: Vec<usize> = (0..5).filter(|t| s.pos(st.a, *t) < 0.0).collect();
                st.t = if assets.is_empty() { 0 } else { src.pick(&assets) };
                st.t2 = if liabs.is_empty() { 1 } else { src.pick(&liabs) };
                let m = s.pos(st.a, st.t2).abs();
                let x = if src.bool() { 1e14 } else { amt(src, m) as f64 };
                st.amount = x;
                if st.t != st.t2 {
                    st.ok = w.ok(TokenLiqWithTokenInstruction {
                        liqee: w.accs[st.a].key,
                        liqor: w.accs[st.b].key,
                        liqor_owner: w.accs[st.b].owner,
                        asset_token_index: st.t as u16,
                        asset_bank_index: src.idx(2),
                        liab_token_index: st.t2 as u16,
                        liab_bank_index: src.idx(2),
                        max_liab_transfer: num(x),
                    });
                }
                st.what = format!(
                    "liquidate acc {} asset {} liab {} max {x}",
                    st.a, st.t, st.t2
                );
            }
            LiqTokenBankruptcy => {
                st.a = self.unhealthy(src, s);
                st.b = LIQOR;
                let liabs: Vec<usize> = (0..5).filter(|t| s.pos(st.a, *t) < 0.0).collect();
                st.t = if liabs.is_empty() { 1 } else { src.pick(&liabs) };
                let x = if src.bool() {
                    1e14
                } else {
                    amt(src, s.pos(st.a, st.t).abs()) as f64
                };
                st.ok = w.ok(TokenLiqBankruptcyInstruction {
                    liqee: w.accs[st.a].key,
                    liqor: w.accs[st.b].key,
                    liqor_owner: w.accs[st.b].owner,
                    max_liab_transfer: num(x),
                    liab_mint_info: w.tokens[st.t].mint_info,
                });
                st.what = format!("token bankruptcy acc {} liab {} max {x}", st.a, st.t);
            }
            PerpLiqCancel => {
                st.a = self.unhealthy(src, s);
                st.p = src.idx(2);
                st.ok = w.ok(PerpLiqForceCancelOrdersInstruction {
                    account: w.accs[st.a].key,
                    perp_market: w.perps[st.p].key,
                });
                st.what = format!("perp {} force cancel acc {}", st.p, st.a);
            }
            PerpLiqBase => {
                st.a = self.unhealthy(src, s);
                st.b = LIQOR;
                let act: Vec<usize> = (0..2)
                    .filter(|p| s.accs[st.a].perp_position(*p as u16).is_ok())
                    .collect();
                st.p = if act.is_empty() { 0 } else { src.pick(&act) };
                let lots = s.pp(st.a, st.p).base_position_lots;
                let x = if src.bool() {
                    1_000_000_000
                } else {
                    amt(src, lots.abs() as f64) as i64
                };
                let mx = if lots < 0 { -x } else { x };
                let pnl = src.pick(&[u64::MAX, 0, 1000]);
                st.ok = w.ok(PerpLiqBaseOrPositivePnlInstruction {
                    liqor: w.accs[st.b].key,
                    liqor_owner: w.accs[st.b].owner,
                    liqee: w.accs[st.a].key,
                    perp_market: w.perps[st.p].key,
                    max_base_transfer: mx,
                    max_pnl_transfer: pnl,
                });
                st.what = format!("perp {} liq base acc {} max {mx} pnl {pnl}", st.p, st.a);
            }
            PerpLiqNeg => {
                st.a = self.unhealthy(src, s);
                st.b = LIQOR;
                st.p = src.idx(2);
                let x = src.pick(&[u64::MAX, 1000]);
                st.ok = w.ok(PerpLiqNegativePnlOrBankruptcyInstruction {
                    liqor: w.accs[st.b].key,
                    liqor_owner: w.accs[st.b].owner,
                    liqee: w.accs[st.a].key,
                    perp_market: w.perps[st.p].key,
                    max_liab_transfer: x,
                });
                st.what = format!("perp {} negative pnl/bankruptcy acc {} max {x}", st.p, st.a);
            }
            ForceClosePerp => {
                st.p = src.idx(2);
                let long: Vec<usize> =
                    (1..5).filter(|a| s.pp(*a, st.p).base_position_lots > 0).collect();
                let short: Vec<usize> =
                    (1..5).filter(|a| s.pp(*a, st.p).base_position_lots < 0).collect();
                st.a = if long.is_empty() { 1 } else { src.pick(&long) };
                st.b = if short.is_empty() { 2 } else { src.pick(&short) };
                w.edit_perp(st.p, |m| {
                    m.force_close = 1;
                    m.reduce_only = 1
                });
                st.ok = w.ok(PerpForceClosePositionInstruction {
                    account_a: w.accs[st.a].key,
                    account_b: w.accs[st.b].key,
                    perp_market: w.perps[st.p].key,
                });
                w.edit_perp(st.p, |m| {
                    m.force_close = 0;
                    m.reduce_only = 0
                });
                st.what = format!("perp {} force close {} {}", st.p, st.a, st.b);
            }
            ForceCloseBorrow => {
                st.a = 1 + src.idx(3);
                st.b = LIQOR;
                let liabs: Vec<usize> = (0..5).filter(|t| s.pos(st.a, *t) < 0.0).collect();
                let assets: Vec<usize> = (0..5).filter(|t| s.pos(st.a, *t) > 0.0).collect();
                st.t = if assets.is_empty() { 0 } else { src.pick(&assets) };
                st.t2 = if liabs.is_empty() { 1 } else { src.pick(&liabs) };
                if st.t != st.t2 {
                    w.edit_token(st.t2, |b| {
                        b.force_close = 1;
                        b.reduce_only = 2
                    });
                    let x = src.pick(&[u64::MAX, 1000]);
                    st.ok = w.ok(TokenForceCloseBorrowsWithTokenInstruction {
                        liqee: w.accs[st.a].key,
                        liqor: w.accs[st.b].key,
                        liqor_owner: w.accs[st.b].owner,
                        asset_token_index: st.t as u16,
                        asset_bank_index: src.idx(2),
                        liab_token_index: st.t2 as u16,
                        liab_bank_index: src.idx(2),
                        max_liab_transfer: x,
                    });
                    w.edit_token(st.t2, |b| {
                        b.force_close = 0;
                        b.reduce_only = 0
                    });
                }
                st.what = format!("force close borrow acc {} liab {} asset {}", st.a, st.t2, st.t);
            }
            ForceWithdraw => {
                st.a = 1 + src.idx(3);
                st.t = src.idx(5);
                w.edit_token(st.t, |b| {
                    b.force_withdraw = 1;
                    b.reduce_only = 1
                });
                st.ok = w.ok(TokenForceWithdrawInstruction {
                    account: w.accs[st.a].key,
                    bank: w.tokens[st.t].bank,
                    target: w.user_token(w.accs[st.a].user, st.t),
                });
                w.edit_token(st.t, |b| {
                    b.force_withdraw = 0;
                    b.reduce_only = 0
                });
                st.what = format!("force withdraw acc {} token {}", st.a, st.t);
            }
            FlashLoan => {
                st.a = 1 + src.idx(4);
                st.t = src.idx(5);
                st.t2 = (st.t + 1 + src.idx(4)) % 5;
                let x = amt(src, 1e8 / s.tok_price[st.t]);
                // how much of the other token comes back
                let back = ((x as f64 * s.tok_price[st.t] / s.tok_price[st.t2])
                    * src.pick(&[1.0, 0.98, 1.01, 0.0])) as u64;
                let keep = src.pick(&[100u64, 0, 50]); // percent of the loan spent
                let ixs = flash_swap(w, st.a, st.t, st.t2, src.idx(2), x, x * keep / 100, back);
                st.ok = self.send(&ixs, &[w.accs[st.a].owner, w.users[2].key]);
                st.what = format!(
                    "flash swap acc {} borrow {x} of {} spend {keep}% return {back} of {}",
                    st.a, st.t, st.t2
                );
            }
            TcsCreate => {
                st.a = 1 + src.idx(3);
                st.t = src.idx(5);
                st.t2 = (st.t + 1 + src.idx(4)) % 5;
                let fair = s.tok_price[st.t] / s.tok_price[st.t2]; // sell per buy
                let tok = |i: usize| w.tokens[i].mint.pubkey;
                let (mb, ms) = (
                    src.log_range(1, 1_000_000_000_000),
                    src.log_range(1, 1_000_000_000_000),
                );
                st.ok = match src.below(2) {
                    0 => w.ok(TokenConditionalSwapCreateInstruction {
                        account: w.accs[st.a].key,
                        owner: w.accs[st.a].owner,
                        buy_mint: tok(st.t),
                        sell_mint: tok(st.t2),
                        max_buy: mb,
                        max_sell: ms,
                        price_lower_limit: fair * 0.5,
                        price_upper_limit: fair * 2.0,
                        price_premium_rate: src.pick(&[0.0, 0.01]),
                        allow_creating_deposits: src.bool(),
                        allow_creating_borrows: src.bool(),
                    }),
                    _ => w.ok(TokenConditionalSwapCreateLinearAuctionInstruction {
                        account: w.accs[st.a].key,
                        owner: w.accs[st.a].owner,
                        buy_mint: tok(st.t),
                        sell_mint: tok(st.t2),
                        max_buy: mb,
                        max_sell: ms,
                        price_start: fair * 0.9,
                        price_end: fair * 1.1,
                        allow_creating_deposits: true,
                        allow_creating_borrows: true,
                        start_timestamp: s.now,
                        duration_seconds: 600,
                        expiry_timestamp: u64::MAX,
                    }),
                };
                st.what = format!("tcs create acc {} buy {} sell {}", st.a, st.t, st.t2);
            }
            TcsTrigger => {
                let mut v = vec![];
                for a in 1..4 {
                    for (i, t) in s.accs[a].all_token_conditional_swaps().enumerate() {
                        if t.is_configured() {
                            v.push((a, i));
                        }
                    }
                }
                if !v.is_empty() {
                    let (a, i) = src.pick(&v);
                    let t = s.accs[a].token_conditional_swap_by_index(i).unwrap();
                    st.a = a;
                    st.b = LIQOR;
                    st.t = t.buy_token_index as usize;
                    st.t2 = t.sell_token_index as usize;
                    st.ok = w.ok(TokenConditionalSwapTriggerInstruction {
                        liqee: w.accs[a].key,
                        liqor: w.accs[LIQOR].key,
                        liqor_owner: w.accs[LIQOR].owner,
                        index: i as u8,
                        max_buy_token_to_liqee: src.log_range(1, 1_000_000_000),
                        max_sell_token_to_liqor: src.log_range(1, 1_000_000_000),
                        min_buy_token: 0,
                        min_taker_price: 0.0,
                    });
                }
                st.what = format!("tcs trigger acc {} buy {} sell {}", st.a, st.t, st.t2);
            }
            SerumOpen => {
                st.a = 1 + src.idx(4);
                st.ok = w.ok(Serum3CreateOpenOrdersInstruction {
                    account: w.accs[st.a].key,
                    serum_market: w.spots[0].market,
                    owner: w.accs[st.a].owner,
                    payer: w.users[3].key,
                });
                st.what = format!("serum open acc {}", st.a);
            }
            SerumPlace => {
                let v: Vec<usize> = (1..5)
                    .filter(|a| s.accs[*a].serum3_orders(0).is_ok())
                    .collect();
                if !v.is_empty() {
                    st.a = src.pick(&v);
                    let side = src.pick(&[Serum3Side::Bid, Serum3Side::Ask]);
                    let c = &w.spots[0].cookie;
                    let fair = s.tok_price[1] / s.tok_price[0] * c.coin_mint.base_lot
                        / c.pc_mint.quote_lot;
                    let price = ((fair * src.f(0.9, 1.1)).round() as u64).max(1);
                    let qty = src.log_range(1, 1_000_000);
                    let ix = Serum3PlaceOrderInstruction {
                        side,
                        limit_price: price,
                        max_base_qty: qty,
                        max_native_quote_qty_including_fees: (price * qty * 10) * 11 / 10 + 100,
                        self_trade_behavior: Serum3SelfTradeBehavior::DecrementTake,
                        order_type: src.pick(&[
                            Serum3OrderType::Limit,
                            Serum3OrderType::ImmediateOrCancel,
                            Serum3OrderType::PostOnly,
                        ]),
                        client_order_id: src.below(5),
                        limit: 10,
                        account: w.accs[st.a].key,
                        owner: w.accs[st.a].owner,
                        serum_market: w.spots[0].market,
                    };
                    st.what = format!("serum place acc {} side {} {qty} @ {price}", st.a, side as u8);
                    st.ok = w.ok(ix);
                } else {
                    st.what = "serum place: nobody".into();
                }
            }
            SerumCancel | SerumSettle => {
                let v: Vec<usize> = (1..5)
                    .filter(|a| s.accs[*a].serum3_orders(0).is_ok())
                    .collect();
                if !v.is_empty() {
                    st.a = src.pick(&v);
                    st.ok = if k == SerumCancel {
                        w.ok(Serum3CancelAllOrdersInstruction {
                            limit: 10,
                            account: w.accs[st.a].key,
                            owner: w.accs[st.a].owner,
                            serum_market: w.spots[0].market,
                        })
                    } else {
                        w.ok(Serum3SettleFundsV2Instruction {
                            account: w.accs[st.a].key,
                            owner: w.accs[st.a].owner,
                            serum_market: w.spots[0].market,
                            fees_to_dao: src.bool(),
                        })
                    };
                }
                st.what = format!("{k:?} acc {}", st.a);
            }
            SerumConsume => {
                let oos: Vec<Pubkey> = (1..5)
                    .filter_map(|a| s.accs[a].serum3_orders(0).ok().map(|o| o.open_orders))
                    .collect();
                st.ok = consume_spot_events(&w.s, w.serum_program, &w.spots[0].cookie, &oos).is_ok();
                st.what = "serum consume events".into();
            }
            SerumLiqCancel => {
                st.a = self.unhealthy(src, s);
                if s.accs[st.a].serum3_orders(0).is_ok() {
                    st.ok = w.ok(Serum3LiqForceCancelOrdersInstruction {
                        account: w.accs[st.a].key,
                        serum_market: w.spots[0].market,
                        limit: 10,
                    });
                }
                st.what = format!("serum force cancel acc {}", st.a);
            }
            CollateralFee => {
                st.a = 1 + src.idx(4);
                st.ok = w.ok(TokenChargeCollateralFeesInstruction {
                    account: w.accs[st.a].key,
                });
                st.what = format!("charge collateral fee acc {}", st.a);
            }
            Buyback => {
                st.a = 1 + src.idx(4);
                let x = src.log(1_000_000);
                w.edit_acc(st.a, |acc| acc.fixed.buyback_fees_accrued_current = x);
                st.ok = w.ok(AccountBuybackFeesWithMngo {
                    owner: w.accs[st.a].owner,
                    account: w.accs[st.a].key,
                    mngo_bank: w.tokens[3].bank,
                    fees_bank: w.tokens[0].bank,
                });
                st.what = format!("buyback acc {} accrued {x}", st.a);
            }
            WithdrawFees if src.bool() => {
                st.p = src.idx(2);
                let ix = Instruction {
                    program_id: mango_v4::id(),
                    accounts: anchor_lang::ToAccountMetas::to_account_metas(
                        &mango_v4::accounts::AdminPerpWithdrawFees {
                            group: w.group,
                            perp_market: w.perps[st.p].key,
                            bank: w.tokens[0].bank,
                            vault: s.b(0, 0).vault,
                            token_account: w.user_token(0, 0),
                            token_program: spl_token::id(),
                            admin: w.admin.pubkey(),
                        },
                        None,
                    ),
                    data: anchor_lang::InstructionData::data(
                        &mango_v4::instruction::AdminPerpWithdrawFees {},
                    ),
                };
                st.ok = self.send(&[ix], &[w.admin]);
                st.what = format!("admin withdraw fees perp {}", st.p);
            }
            WithdrawFees => {
                st.t = src.idx(5);
                let b = s.b(st.t, 0);
                let ix = Instruction {
                    program_id: mango_v4::id(),
                    accounts: anchor_lang::ToAccountMetas::to_account_metas(
                        &mango_v4::accounts::AdminTokenWithdrawFees {
                            group: w.group,
                            bank: w.tokens[st.t].bank,
                            vault: b.vault,
                            token_account: w.user_token(0, st.t),
                            token_program: spl_token::id(),
                            admin: w.admin.pubkey(),
                        },
                        None,
                    ),
                    data: anchor_lang::InstructionData::data(
                        &mango_v4::instruction::AdminTokenWithdrawFees {},
                    ),
                };
                st.ok = self.send(&[ix], &[w.admin]);
                st.what = format!("admin withdraw fees token {}", st.t);
            }
            Region => {
                st.a = 1 + src.idx(4);
                st.p = src.idx(2);
                let who = w.accs[st.a];
                let pm = &s.perps[st.p];
                let fair = s.perp_price[st.p] * pm.base_lot_size as f64 / pm.quote_lot_size as f64;
                let (_, mut begin) = HealthRegionBeginInstruction { account: who.key }
                    .to_instruction(&*w.s);
                // both ends list the accounts of the position that the inner orders open
                let extra = [w.tokens[0].bank, w.tokens[0].oracle, w.perps[st.p].key, w.perps[st.p].oracle];
                let mut ixs = vec![];
                for _ in 0..1 + src.below(3) {
                    let mut o = w.order_ix(st.a, st.p, src.pick(&[Side::Bid, Side::Ask]));
                    o.price_lots = ((fair * src.f(0.9, 1.1)).round() as i64).max(1);
                    o.max_base_lots = src.log_range(1, 50_000) as i64;
                    st.what += &format!("{:?} {}@{} ", o.side, o.max_base_lots, o.price_lots);
                    ixs.push(o.to_instruction(&*w.s).1);
                }
                if src.bool() {
                    ixs.push(
                        PerpCancelAllOrdersInstruction {
                            account: who.key,
                            perp_market: w.perps[st.p].key,
                            owner: who.owner,
                            limit: 10,
                        }
                        .to_instruction(&*w.s)
                        .1,
                    );
                    st.what += "cancel";
                }
                let (_, mut end) = HealthRegionEndInstruction {
                    account: who.key,
                    affected_bank: None,
                }
                .to_instruction(&*w.s);
                order_health_metas(w, s, st.a, &extra, &mut begin);
                order_health_metas(w, s, st.a, &extra, &mut end);
                ixs.insert(0, begin);
                ixs.push(end);
                st.ok = self.send(&ixs, &[who.owner]);
                st.what = format!("health region acc {} perp {}: {}", st.a, st.p, st.what);
            }
            Deactivate => {
                st.a = 1 + src.idx(4);
                st.p = src.idx(2);
                st.ok = w.ok(PerpDeactivatePositionInstruction {
                    account: w.accs[st.a].key,
                    perp_market: w.perps[st.p].key,
                    owner: w.accs[st.a].owner,
                });
                st.what = format!("deactivate perp {} acc {}", st.p, st.a);
            }
        }
        if !st.ok {
            st.err = w.fail_text();
        }
        st
    }
}

/// Rebuilds the health accounts at the end of a health region instruction so that they also
/// cover accounts of a perp position that does not exist yet.
fn order_health_metas(w: &World, s: &Snap, a: usize, extra: &[Pubkey], ix: &mut Instruction) {
    // scanning retriever layout: banks, oracles, perps, perp oracles, serum open orders
    let acc = &s.accs[a];
    let mut banks: Vec<usize> = acc.active_token_positions().map(|p| p.token_index as usize).collect();
    if !banks.contains(&0) {
        banks.push(0);
    }
    let mut perps: Vec<usize> = acc.active_perp_positions().map(|p| p.market_index as usize).collect();
    let np = w.perps.iter().position(|p| p.key == extra[2]).unwrap();
    if !perps.contains(&np) {
        perps.push(np);
    }
    let n = acc.active_token_positions().count() * 2
        + acc.active_perp_positions().count() * 2
        + acc.active_serum3_orders().count();
    ix.accounts.truncate(ix.accounts.len() - n);
    let ro = |k: Pubkey| AccountMeta::new_readonly(k, false);
    ix.accounts.extend(banks.iter().map(|t| ro(w.tokens[*t].bank)));
    ix.accounts.extend(banks.iter().map(|t| ro(w.tokens[*t].oracle)));
    ix.accounts.extend(perps.iter().map(|p| ro(w.perps[*p].key)));
    ix.accounts.extend(perps.iter().map(|p| ro(w.perps[*p].oracle)));
    ix.accounts.extend(acc.active_serum3_orders().map(|o| ro(o.open_orders)));
}

/// begin; move `spend` of the loan away; bring `back` of the other token; end
#[allow(clippy::too_many_arguments)]
pub fn flash_swap(
    w: &World,
    a: usize,
    t_in: usize,
    t_out: usize,
    n: usize,
    loan: u64,
    spend: u64,
    back: u64,
) -> Vec<Instruction> {
    let who = w.accs[a];
    let mk = |t: usize, n: usize, amt: u64| FlashLoanPart {
        bank: w.bank_key(t, n),
        token_account: w.user_token(who.user, t),
        withdraw_amount: amt,
    };
    let loans = vec![mk(t_in, n, loan), mk(t_out, n, 0)];
    let mut ixs = vec![
        FlashLoanBeginInstruction {
            account: who.key,
            owner: who.owner,
            loans: loans.clone(),
        }
        .to_instruction(&*w.s)
        .1,
    ];
    let other = w.users[2].clone();
    let tr = |from: Pubkey, to: Pubkey, auth: Pubkey, x: u64| {
        spl_token::instruction::transfer(&spl_token::id(), &from, &to, &auth, &[], x).unwrap()
    };
    let oth = |t: usize| other.token_accounts[w.tokens[t].mint.index];
    if spend > 0 {
        ixs.push(tr(
            w.user_token(who.user, t_in),
            oth(t_in),
            who.owner.pubkey(),
            spend,
        ));
    }
    if back > 0 {
        ixs.push(tr(
            oth(t_out),
            w.user_token(who.user, t_out),
            other.key.pubkey(),
            back,
        ));
    }
    let end = FlashLoanEndInstruction {
        account: who.key,
        owner: who.owner,
        loans,
        flash_loan_type: FlashLoanType::Swap,
    };
    let (_, mut e) = end.to_instruction(&*w.s);
    if n == 1 {
        // the health accounts must list the banks the loan used
        for m in e.accounts.iter_mut() {
            for t in [t_in, t_out] {
                if m.pubkey == w.tokens[t].bank {
                    m.pubkey = w.tokens[t].bank1;
                }
            }
        }
    }
    ixs.push(e);
    ixs
}

/// Runs a random history, calling `check` after every step with the states around it.
pub fn run(
    src: &mut Src,
    case: &mut Case,
    weights: &[(K, u64)],
    max_steps: u64,
    mut check: impl FnMut(&Machine, &Snap, &Step, &Snap, &mut Case) -> Result<(), String>,
) -> Result<(), String> {
    let m = Machine::setup(src, weights);
    let mut before = m.w.snap();
    let n = 3 + src.below(max_steps);
    for _ in 0..n {
        let st = m.step(src, &before);
        if let Some(p) = m.w.panicked() {
            let _ = p;
            case.label("panic");
        }
        let after = m.w.snap();
        case.note(|| format!("{} -> {}", st.what, if st.ok { "ok".into() } else { st.err.clone() }));
        check(&m, &before, &st, &after, case)?;
        before = after;
    }
    Ok(())
}

pub fn _unused(_: I80F48, _: AccountMeta, x: &dyn OpenOrdersAmounts) -> u64 {
    x.native_rebates()
}
