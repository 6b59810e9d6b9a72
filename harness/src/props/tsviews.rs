//! C28: what the TypeScript client shows of the chain state, against the program's own reading.
use crate::ensure;
use crate::pbt::*;
use crate::pt::*;
use crate::ts::*;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::accounts_zerocopy::AccountInfoRef;
use mango_v4::state::*;
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "suite `accounts`: every account type with random contents in every field, decoded by the client and compared field by field; `banks`, `perps`, `books`, `misc`: derived figures of a random market state against the program's functions or the stated formula; `reload`: an already loaded client is reloaded after further history and compared with a freshly loaded one; `lists`: account queries over several groups, owners and delegates. Every case is non-trivial unless its book or position is empty",
        assumptions: &["stub oracles", "curve rates grow with utilization, as the program requires of a listing", "figures that sum resting orders (best price, L2) are taken over all orders of the book, as the client documents, expired ones included", "display prices are compared to about four digits"],
        suites: vec![
            Suite { name: "accounts", quick: 1_500, thorough: 40_000, f: accounts },
            Suite { name: "banks", quick: 1_500, thorough: 40_000, f: banks },
            Suite { name: "perps", quick: 1_000, thorough: 30_000, f: perps },
            Suite { name: "books", quick: 300, thorough: 10_000, f: books },
            Suite { name: "reload", quick: 250, thorough: 8_000, f: reload },
            Suite { name: "lists", quick: 250, thorough: 8_000, f: lists },
            Suite { name: "misc", quick: 500, thorough: 15_000, f: misc },
        ],
    }
}

// ---------------------------------------------------------------- decoded accounts

pub trait J {
    fn j(&self) -> Value;
}
macro_rules! jnum { ($($t:ty),*) => { $(impl J for $t { fn j(&self) -> Value { json!(self.to_string()) } })* } }
jnum!(u8, u16, u32, i64, u64, u128, Pubkey);
impl J for bool {
    fn j(&self) -> Value {
        json!(*self)
    }
}
impl J for f64 {
    fn j(&self) -> Value {
        if self.is_finite() { json!(self) } else { json!(self.to_string()) }
    }
}
impl J for f32 {
    fn j(&self) -> Value {
        (*self as f64).j()
    }
}
impl J for I80F48 {
    fn j(&self) -> Value {
        json!(self.to_bits().to_string())
    }
}
impl<T: J, const N: usize> J for [T; N] {
    fn j(&self) -> Value {
        Value::Array(self.iter().map(|x| x.j()).collect())
    }
}

pub fn same(client: &Value, want: &Value) -> bool {
    match (client, want) {
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::String(a), Value::String(b)) => a == b || a == "Infinity" && b == "inf" || a == "-Infinity" && b == "-inf",
        (Value::Number(_), Value::String(b)) => big(client).map(|x| x.to_string()) == Some(b.clone()),
        (_, Value::Number(_)) => match (flt(client), flt(want)) {
            // serde_json rounds to within one unit in the last place
            (Some(a), Some(b)) => a == b || (a - b).abs() <= 1e-15 * b.abs() + 1e-300,
            _ => false,
        },
        _ => false,
    }
}

fn camel(s: &str) -> String {
    let mut o = String::new();
    let mut up = false;
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if up {
            o.push(c.to_ascii_uppercase());
            up = false;
        } else {
            o.push(c);
        }
    }
    o
}

pub fn at<'a>(o: &'a Value, path: &str) -> &'a Value {
    let mut v = o;
    for p in path.split('.') {
        v = match v {
            Value::Array(_) => &v[p.parse::<usize>().unwrap()],
            _ => &v[p],
        };
    }
    v
}

/// compares the client's fields with the program's, by name
macro_rules! fields {
    ($what:expr, $o:expr, $r:expr; $($f:ident),* $(,)?) => {
        $({
            let (c, w) = (at(&$o, &camel(stringify!($f))), { $r.$f }.j());
            ensure!(same(c, &w), "{} {}: the client shows {c}, the account holds {w}", $what, stringify!($f));
        })*
    };
}
macro_rules! shown {
    ($what:expr, $o:expr; $($p:literal = $e:expr),* $(,)?) => {
        $({
            let (c, w) = (at(&$o, $p), ($e).j());
            ensure!(same(c, &w), "{} {}: the client shows {c}, the account holds {w}", $what, $p);
        })*
    };
}

/// random contents, in the words of the structure
fn fuzz<T: bytemuck::Pod>(src: &mut Src, t: &mut T) {
    for w in bytemuck::bytes_of_mut(t).chunks_mut(8) {
        let v: u64 = match src.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => src.log(1 << 50),
            3 => f64::to_bits(src.flog(1e-9, 1e15)),
            _ => src.below(u64::MAX),
        };
        let l = w.len();
        w.copy_from_slice(&v.to_le_bytes()[..l]);
    }
}
fn name<const N: usize>(src: &mut Src) -> ([u8; N], String) {
    let mut n = [0u8; N];
    let len = src.below(N as u64 + 1) as usize;
    for b in n.iter_mut().take(len) {
        *b = b'!' + src.below(90) as u8;
    }
    (n, String::from_utf8_lossy(&n[..len]).to_string())
}

fn raw<T: bytemuck::Pod + anchor_lang::Discriminator>(v: &T) -> Vec<u8> {
    let mut d = T::DISCRIMINATOR.to_vec();
    d.extend_from_slice(bytemuck::bytes_of(v));
    d
}
/// the client's object for raw account data
fn shown(class: &str, kind: &str, data: &[u8]) -> Result<Value, String> {
    let mut ts = Ts::pure();
    ts.op(
        &format!("C.coder ??= new C.BorshAccountsCoder(C.IDL); return {class}.from(C.K(a.k), C.coder.decode('{kind}', Buffer.from(a.d, 'base64')));"),
        json!({"k": Pubkey::default().to_string(), "d": base64::encode(data)}),
    );
    ts.run()?[0].clone().map_err(|e| format!("the client cannot read the {kind}: {e}"))
}

fn oracle_config(what: &str, o: &Value, c: &OracleConfig) -> Result<(), String> {
    shown!(what, o; "oracleConfig.confFilter" = c.conf_filter, "oracleConfig.maxStalenessSlots" = c.max_staleness_slots);
    Ok(())
}
fn stable(what: &str, o: &Value, m: &StablePriceModel) -> Result<(), String> {
    let s = &o["stablePriceModel"];
    fields!(what, s, m; stable_price, last_update_timestamp, delay_prices, delay_accumulator_price, delay_accumulator_time,
        delay_interval_seconds, delay_growth_limit, stable_growth_limit, last_delay_interval_index);
    Ok(())
}

/// every field of every kind of account, with arbitrary contents
fn accounts(src: &mut Src, case: &mut Case) -> Result<(), String> {
    case.nontrivial();
    match src.below(8) {
        0 | 1 => {
            case.label("bank");
            let mut b: Bank = bytemuck::Zeroable::zeroed();
            fuzz(src, &mut b);
            let (n, ns) = name::<16>(src);
            b.name = n;
            let (t, tier) = name::<4>(src);
            b.tier = t;
            b.force_close = src.below(2) as u8;
            b.force_withdraw = src.below(2) as u8;
            b.disable_asset_liquidation = src.below(2) as u8;
            b.reduce_only = src.below(3) as u8;
            let o = shown("C.bank.Bank", "bank", &raw(&b))?;
            fields!("bank", o, b; group, mint, vault, oracle, deposit_index, borrow_index, indexed_deposits, indexed_borrows,
                index_last_updated, bank_rate_last_updated, avg_utilization, adjustment_factor, util0, rate0, util1, rate1, max_rate,
                collected_fees_native, loan_origination_fee_rate, loan_fee_rate, maint_asset_weight, init_asset_weight,
                maint_liab_weight, init_liab_weight, liquidation_fee, dust, flash_loan_token_account_initial,
                flash_loan_approved_amount, token_index, mint_decimals, bank_num, min_vault_to_deposits_ratio,
                net_borrow_limit_window_size_ts, last_net_borrows_window_start_ts, net_borrow_limit_per_window_quote,
                net_borrows_in_window, borrow_weight_scale_start_quote, deposit_weight_scale_start_quote, reduce_only, fees_withdrawn,
                token_conditional_swap_taker_fee_rate, token_conditional_swap_maker_fee_rate, flash_loan_swap_fee_rate,
                interest_target_utilization, interest_curve_scaling, potential_serum_tokens, maint_weight_shift_start,
                maint_weight_shift_end, maint_weight_shift_duration_inv, maint_weight_shift_asset_target,
                maint_weight_shift_liab_target, fallback_oracle, deposit_limit, zero_util_rate, platform_liquidation_fee,
                collected_liquidation_fees, collected_collateral_fees, collateral_fee_per_day);
            shown!("bank", o; "forceClose" = b.is_force_close(), "forceWithdraw" = b.is_force_withdraw(), "allowAssetLiquidation" = b.allows_asset_liquidation());
            ensure!(o["name"] == json!(ns) && o["tier"] == json!(tier), "bank name {} tier {}, expected {ns} {tier}", o["name"], o["tier"]);
            oracle_config("bank", &o, &b.oracle_config)?;
            stable("bank", &o, &b.stable_price_model)?;
            let mut ts = Ts::pure();
            ts.op(
                "const b = C.bank.Bank.from(C.K(a.k), new C.BorshAccountsCoder(C.IDL).decode('bank', Buffer.from(a.d, 'base64'))); return [b.areDepositsReduceOnly(), b.areBorrowsReduceOnly()];",
                json!({"k": Pubkey::default().to_string(), "d": base64::encode(raw(&b))}),
            );
            let r = ts.run()?[0].clone()?;
            ensure!(r == json!([b.are_deposits_reduce_only(), b.are_borrows_reduce_only()]), "reduce only {}: {r}", b.reduce_only);
        }
        2 | 3 => {
            case.label("perp market");
            let mut b: PerpMarket = bytemuck::Zeroable::zeroed();
            fuzz(src, &mut b);
            let (n, ns) = name::<16>(src);
            b.name = n;
            b.force_close = src.below(2) as u8;
            b.reduce_only = src.below(2) as u8;
            b.group_insurance_fund = src.below(2) as u8;
            b.base_decimals = src.below(10) as u8;
            b.base_lot_size = 1 + src.log(1 << 40) as i64;
            b.quote_lot_size = 1 + src.log(1 << 40) as i64;
            let o = shown("C.perp.PerpMarket", "perpMarket", &raw(&b))?;
            fields!("perp market", o, b; group, settle_token_index, perp_market_index, base_decimals, bids, asks, event_queue, oracle,
                quote_lot_size, base_lot_size, maint_base_asset_weight, init_base_asset_weight, maint_base_liab_weight,
                init_base_liab_weight, open_interest, seq_num, registration_time, min_funding, max_funding, impact_quantity,
                long_funding, short_funding, funding_last_updated, base_liquidation_fee, maker_fee, taker_fee, fees_accrued,
                fees_settled, fee_penalty, settle_fee_flat, settle_fee_amount_threshold, settle_fee_fraction_low_health,
                settle_pnl_limit_factor, settle_pnl_limit_window_size_ts, maint_overall_asset_weight, init_overall_asset_weight,
                positive_pnl_liquidation_fee, fees_withdrawn, platform_liquidation_fee, accrued_liquidation_fees);
            shown!("perp market", o; "reduceOnly" = b.is_reduce_only(), "forceClose" = b.is_force_close(), "groupInsuranceFund" = b.elligible_for_group_insurance_fund());
            ensure!(o["name"] == json!(ns), "perp market name {}", o["name"]);
            oracle_config("perp market", &o, &b.oracle_config)?;
            stable("perp market", &o, &b.stable_price_model)?;
        }
        4 => {
            case.label("small ones");
            let mut b: MintInfo = bytemuck::Zeroable::zeroed();
            fuzz(src, &mut b);
            b.group_insurance_fund = src.below(2) as u8;
            let o = shown("C.bank.MintInfo", "mintInfo", &raw(&b))?;
            fields!("mint info", o, b; group, token_index, mint, banks, vaults, oracle, registration_time, fallback_oracle);
            shown!("mint info", o; "groupInsuranceFund" = b.group_insurance_fund == 1);
            let mut b: Serum3Market = bytemuck::Zeroable::zeroed();
            fuzz(src, &mut b);
            let (n, ns) = name::<16>(src);
            b.name = n;
            b.force_close = src.below(2) as u8;
            b.reduce_only = src.below(2) as u8;
            let o = shown("C.serum3.Serum3Market", "serum3Market", &raw(&b))?;
            fields!("spot market", o, b; group, base_token_index, quote_token_index, serum_program, serum_market_external, market_index,
                registration_time, oracle_price_band);
            shown!("spot market", o; "reduceOnly" = b.is_reduce_only(), "forceClose" = b.is_force_close());
            ensure!(o["name"] == json!(ns), "spot market name {}", o["name"]);
        }
        5 => {
            case.label("group");
            let mut b: Group = bytemuck::Zeroable::zeroed();
            fuzz(src, &mut b);
            b.buyback_fees = src.below(2) as u8;
            let o = shown("C.groupMod.Group", "group", &raw(&b))?;
            fields!("group", o, b; creator, group_num, admin, fast_listing_admin, mngo_token_index, insurance_mint, insurance_vault,
                testing, version, buyback_fees_mngo_bonus_factor, address_lookup_tables, security_admin, deposit_limit_quote, ix_gate,
                buyback_fees_swap_mango_account, buyback_fees_expiry_interval, fast_listing_interval_start, fast_listings_in_interval,
                allowed_fast_listings_per_interval, collateral_fee_interval);
            shown!("group", o; "buybackFees" = b.buyback_fees());
        }
        _ => {
            case.label("mango account");
            let w = World::new();
            let mut n = String::new();
            w.edit_acc(1, |acc| {
                let (bl, hr) = (src.bool(), src.bool());
                fuzz(src, &mut acc.fixed);
                acc.fixed.set_being_liquidated(bl);
                acc.fixed.set_in_health_region(hr);
                let (nb, s) = name::<32>(src);
                acc.fixed.name = nb;
                n = s;
                for i in 0..acc.header.token_count() {
                    fuzz(src, acc.token_position_mut_by_raw_index(i));
                }
                for i in 0..acc.header.serum3_count() {
                    fuzz(src, acc.serum3_orders_mut_by_raw_index(i));
                }
                for i in 0..acc.header.perp_count() {
                    fuzz(src, acc.perp_position_mut_by_raw_index(i));
                }
                for i in 0..acc.header.perp_oo_count() {
                    fuzz(src, acc.perp_order_mut_by_raw_index(i));
                }
                for i in 0..acc.header.token_conditional_swap_count() {
                    let t = acc.token_conditional_swap_mut_by_index(i).unwrap();
                    fuzz(src, t);
                    t.intention = src.below(3) as u8;
                    t.display_price_style = src.below(2) as u8;
                    for b in [&mut t.is_configured, &mut t.allow_creating_deposits, &mut t.allow_creating_borrows] {
                        *b = src.below(2) as u8;
                    }
                }
            });
            let acc = w.acc(1);
            let o = shown("C.ma.MangoAccount", "mangoAccount", &w.s.get_account_data(w.accs[1].key).unwrap())?;
            let b = &acc.fixed;
            fields!("account", o, b; group, owner, delegate, account_num, sequence_number, net_deposits, perp_spot_transfers,
                health_region_begin_init_health, frozen_until, buyback_fees_accrued_current, buyback_fees_accrued_previous,
                buyback_fees_expiry_timestamp, last_collateral_fee_charge);
            shown!("account", o; "beingLiquidated" = b.being_liquidated(), "inHealthRegion" = b.is_in_health_region(), "headerVersion" = *acc.header_version());
            ensure!(o["name"] == json!(n), "account name {}, expected {n}", o["name"]);
            let h = &acc.header;
            for (k, n) in [("tokens", h.token_count()), ("serum3", h.serum3_count()), ("perps", h.perp_count()), ("perpOpenOrders", h.perp_oo_count()), ("tokenConditionalSwaps", h.token_conditional_swap_count())] {
                ensure!(o[k].as_array().map(|a| a.len()) == Some(n), "account: {n} {k}, client {}", o[k]);
            }
            for (i, t) in acc.all_token_positions().enumerate() {
                let x = &o["tokens"][i];
                fields!("token position", x, t; indexed_position, token_index, in_use_count, previous_index, cumulative_deposit_interest, cumulative_borrow_interest);
            }
            for (i, t) in acc.all_serum3_orders().enumerate() {
                let x = &o["serum3"][i];
                fields!("spot position", x, t; open_orders, market_index, base_token_index, quote_token_index, highest_placed_bid_inv, lowest_placed_ask);
            }
            for (i, t) in acc.all_perp_positions().enumerate() {
                let x = &o["perps"][i];
                fields!("perp position", x, t; market_index, settle_pnl_limit_window, settle_pnl_limit_settled_in_current_window_native,
                    quote_running_native, long_settled_funding, short_settled_funding, bids_base_lots, asks_base_lots, taker_base_lots,
                    taker_quote_lots, cumulative_long_funding, cumulative_short_funding, maker_volume, taker_volume, perp_spot_transfers,
                    avg_entry_price_per_base_lot, deprecated_realized_trade_pnl_native, oneshot_settle_pnl_allowance,
                    recurring_settle_pnl_allowance, realized_pnl_for_position_native);
                shown!("perp position", x; "basePositionLots" = t.base_position_lots(), "quotePositionNative" = t.quote_position_native());
            }
            for (i, t) in acc.all_perp_orders().enumerate() {
                let x = &o["perpOpenOrders"][i];
                fields!("perp order", x, t; client_id, id);
                shown!("perp order", x; "orderMarket" = t.market, "sideAndTree" = t.side_and_tree);
            }
            for (i, t) in acc.all_token_conditional_swaps().enumerate() {
                let x = &o["tokenConditionalSwaps"][i];
                fields!("swap", x, t; id, max_buy, max_sell, bought, sold, expiry_timestamp, price_lower_limit, price_upper_limit,
                    price_premium_rate, taker_fee_rate, maker_fee_rate, buy_token_index, sell_token_index);
                shown!("swap", x; "isConfigured" = t.is_configured(), "allowCreatingDeposits" = t.allow_creating_deposits(), "allowCreatingBorrows" = t.allow_creating_borrows());
                let s = ["sellTokenPerBuyToken", "buyTokenPerSellToken"][t.display_price_style as usize];
                let n = ["unknown", "stopLoss", "takeProfit"][t.intention as usize];
                ensure!(x["priceDisplayStyle"] == json!({ s: {} }) && x["intention"] == json!({ n: {} }), "swap: {} {}, expected {s} {n}", x["priceDisplayStyle"], x["intention"]);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- banks and token positions

const BANK: &str = "
  const b = C.group.banksMapByTokenIndex.get(a.t)[a.b], acc = C.accs[0], tp = acc.getToken(b.tokenIndex);
  const o = {
    price: b.price, assetPrice: b.getAssetPrice(), liabPrice: b.getLiabPrice(),
    deposits: b.nativeDeposits(), borrows: b.nativeBorrows(), uiDeposits: b.uiDeposits(), uiBorrows: b.uiBorrows(),
    rate: b.getBorrowRateWithoutUpkeepRate(), borrowRate: b.getBorrowRate(), depositRate: b.getDepositRate(),
    borrowRateUi: b.getBorrowRateUi(), depositRateUi: b.getDepositRateUi(),
    maint: b.maintWeights(), sa: b.scaledInitAssetWeight(b.price), sl: b.scaledInitLiabWeight(b.price),
    left: b.getBorrowLimitLeftInWindow(), next: b.getTimeToNextBorrowLimitWindowStartsTs(),
    room: b.getRemainingDepositLimit(),
    bal: acc.getTokenBalance(b), dep: acc.getTokenDeposits(b), bor: acc.getTokenBorrows(b),
    balUi: acc.getTokenBalanceUi(b), depUi: acc.getTokenDepositsUi(b), borUi: acc.getTokenBorrowsUi(b),
    interest: acc.getCumulativeInterest(b), eff: acc.getEffectiveTokenBalance(C.group, b), exists: !!tp,
    vault: C.group.getTokenVaultBalanceByMint(b.mint), vaultUi: C.group.getTokenVaultBalanceByMintUi(b.mint),
    max: b.getMaxWithdraw(C.group.vaultAmountsMap.get(b.vault.toBase58()), acc.getTokenDeposits(b)),
  };
  return o;
";

fn banks(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = crate::props::health::state(src, case, false)?;
    let w = &m.w;
    let t = src.idx(5);
    let a = 1 + src.idx(4);
    let bn = if src.chance(20) { 1 } else { 0 };
    let key = w.bank_key(t, bn);
    let now = w.now();
    w.edit_bank(key, |b| {
        // a curve with increasing rates
        let mut r = |lo: f64, hi: f64| I80F48::from_num(src.f(lo, hi));
        b.util0 = r(0.1, 0.6);
        b.util1 = b.util0 + r(0.01, 0.3);
        b.zero_util_rate = r(0.0, 0.05);
        b.rate0 = b.zero_util_rate + r(0.0, 0.2);
        b.rate1 = b.rate0 + r(0.0, 0.5);
        b.max_rate = b.rate1 + r(0.0, 2.0);
        b.loan_fee_rate = r(0.0, 0.1);
        b.interest_curve_scaling = if src.chance(15) { 0.0 } else { src.f(0.5, 5.0) };
        if src.chance(30) {
            b.indexed_borrows = b.indexed_deposits * b.deposit_index / b.borrow_index * I80F48::from_num(src.f(0.0, 1.2));
        }
        if src.chance(10) {
            b.indexed_borrows = I80F48::ZERO;
        }
        if src.chance(5) {
            b.indexed_deposits = I80F48::ZERO;
        }
        if src.chance(15) {
            // large totals
            b.indexed_deposits = I80F48::from_num(2f64.powi(53) * src.flog(0.1, 1000.0)) / b.deposit_index;
        }
        b.deposit_limit = if src.chance(60) { f(b.native_deposits()).max(0.0) as u64 / 2 + src.log(1 << 62) } else { 0 };
        if src.chance(40) {
            b.net_borrow_limit_per_window_quote = if src.chance(20) { -1 } else { src.log(1 << 50) as i64 };
            b.net_borrow_limit_window_size_ts = 1 + src.log(1 << 20);
            b.last_net_borrows_window_start_ts = (now / b.net_borrow_limit_window_size_ts).saturating_sub(src.below(2)) * b.net_borrow_limit_window_size_ts;
            b.net_borrows_in_window = src.log(1 << 50) as i64 * if src.chance(20) { -1 } else { 1 };
        }
        if src.chance(50) {
            b.maint_weight_shift_start = now.saturating_sub(src.log(1000)) + src.log(1000);
            let d = 1 + src.log(2000);
            b.maint_weight_shift_end = b.maint_weight_shift_start + d;
            b.maint_weight_shift_duration_inv = I80F48::ONE / I80F48::from(d);
            b.maint_weight_shift_asset_target = I80F48::from_num(src.f(0.0, 1.0));
            b.maint_weight_shift_liab_target = I80F48::from_num(src.f(1.0, 2.0));
        }
    });
    let b = w.bank(key);
    let mut ts = Ts::on(w, &[a]);
    ts.op(BANK, json!({"t": t, "b": bn}));
    let o = ts.run()?[0].clone()?;
    case.nontrivial();
    let price = I80F48::from_num(w.price(t));
    let dec = 10f64.powi(b.mint_decimals as i32);
    macro_rules! is {
        ($k:literal, $want:expr, $rel:expr, $abs:expr) => {{
            let (x, y): (f64, f64) = (fix(&o[$k]).ok_or($k)?, $want);
            ensure!(close(x, y, $rel, $abs), "token {t} bank {bn} {}: client {x} program {y} {b:?}", $k);
        }};
    }
    macro_rules! ui {
        ($k:literal, $want:expr, $rel:expr, $abs:expr) => {{
            let (x, y): (f64, f64) = (flt(&o[$k]).ok_or($k)?, $want);
            ensure!(close(x, y, $rel, $abs), "token {t} bank {bn} {}: client {x} program {y} {b:?}", $k);
        }};
    }
    ensure!(big(&o["price"]) == Some(w.s.get_account::<StubOracle>(w.tokens[t].oracle).price.to_bits()), "price {}", o["price"]);
    is!("assetPrice", f(price).min(b.stable_price_model.stable_price), 1e-9, 1e-13);
    is!("liabPrice", f(price).max(b.stable_price_model.stable_price), 1e-9, 1e-13);
    is!("deposits", f(b.native_deposits()), 1e-15, 1e-13);
    is!("borrows", f(b.native_borrows()), 1e-15, 1e-13);
    ui!("uiDeposits", f(b.native_deposits()) / dec, 1e-12, 1e-14);
    ui!("uiBorrows", f(b.native_borrows()) / dec, 1e-12, 1e-14);
    let (_, _, _, rate, dep_rate) = b.compute_index(b.indexed_deposits, b.indexed_borrows, I80F48::ONE).map_err(|e| format!("{e:?}"))?;
    is!("rate", f(rate), 1e-9, 1e-10);
    is!("borrowRate", f(rate + b.loan_fee_rate), 1e-9, 1e-10);
    is!("depositRate", f(dep_rate), 1e-9, 1e-10);
    ui!("borrowRateUi", 100.0 * f(rate + b.loan_fee_rate), 1e-9, 1e-8);
    ui!("depositRateUi", 100.0 * f(dep_rate), 1e-9, 1e-8);
    let (ma, ml) = b.maint_weights(now);
    for (i, y) in [ma, ml].iter().enumerate() {
        let x = fix(&o["maint"][i]).ok_or("maint")?;
        ensure!(close(x, f(*y), 0.0, 1e-10), "token {t} maint weight {i}: client {x} program {y}");
    }
    is!("sa", f(b.scaled_init_asset_weight(price)), 1e-9, 1e-12);
    is!("sl", f(b.scaled_init_liab_weight(price)), 1e-9, 1e-12);
    // what may still be borrowed in this window, decided by the program
    let left = fix(&o["left"]).ok_or("left")?;
    let try_borrow = |x: f64| {
        let mut c = b.clone();
        c.update_net_borrows(I80F48::from_num(x.floor()), now);
        c.check_net_borrows(price).is_ok()
    };
    let slack = left * 1e-6 + 3.0 / f(price) + 3.0;
    if left > slack && left < 1e15 {
        ensure!(try_borrow(left - slack), "token {t}: {left} left to borrow in this window, the program refuses {b:?}");
    }
    if left < 1e15 {
        ensure!(!try_borrow(left + slack), "token {t}: {left} left to borrow in this window, the program allows more {b:?}");
    }
    // and deposited
    let try_deposit = |x: f64| {
        let mut c = b.clone();
        c.indexed_deposits += I80F48::from_num(x) / c.deposit_index;
        c.check_deposit_and_oo_limit().is_ok()
    };
    if o["room"].is_null() {
        ensure!(b.deposit_limit == 0, "token {t}: no deposit limit shown, {}", b.deposit_limit);
    } else {
        let room = big(&o["room"]).ok_or("room")? as f64;
        let slack = 2.0 + 1e-12 * (f(b.native_deposits()) + room);
        if room > slack {
            ensure!(try_deposit(room - slack), "token {t}: room for {room} shown, the program refuses {b:?}");
        }
        if room < 1e18 {
            ensure!(!try_deposit(room + slack), "token {t}: room for {room} shown, the program allows more {b:?}");
        }
    }
    // the account's position
    let acc = w.acc(a);
    let pos = acc.token_position(t as u16).ok();
    ensure!(o["exists"] == json!(pos.is_some()), "token {t} position");
    let bal = pos.map(|p| f(p.native(&b))).unwrap_or(0.0);
    let tol = 1e-9;
    is!("bal", bal, 1e-12, tol);
    is!("dep", bal.max(0.0), 1e-12, tol);
    is!("bor", (-bal).max(0.0), 1e-12, tol);
    ui!("balUi", bal / dec, 1e-12, tol);
    ui!("depUi", bal.max(0.0) / dec, 1e-12, tol);
    ui!("borUi", (-bal).max(0.0) / dec, 1e-12, tol);
    let mut free = 0.0;
    for oo in acc.active_serum3_orders() {
        let x = load_open_orders(&w.s, oo.open_orders);
        if oo.base_token_index == t as u16 {
            free += x.native_coin_free as f64;
        }
        if oo.quote_token_index == t as u16 {
            free += x.native_pc_free as f64;
        }
    }
    if pos.is_some() {
        is!("eff", bal + free, 1e-12, 1e-6);
    }
    // interest: what the program books when the position is touched now
    if let Some(p) = pos {
        let mut q = *p;
        b.update_cumulative_interest(&mut q, p.indexed_position);
        let y = q.cumulative_deposit_interest - q.cumulative_borrow_interest;
        let scale = q.cumulative_deposit_interest.abs() + q.cumulative_borrow_interest.abs();
        ui!("interest", y, 1e-9, 1e-9 + 1e-12 * scale);
    } else {
        ui!("interest", 0.0, 0.0, 0.0);
    }
    let v: u64 = w.s.token_account_balance(b.vault);
    if bn == 0 {
        let all: u64 = (0..2).map(|n| w.s.token_account_balance(w.bank(w.bank_key(t, n)).vault)).sum();
        ensure!(big(&o["vault"]) == Some(all as i128), "token {t} vaults: {} / {all}", o["vault"]);
        ui!("vaultUi", all as f64 / dec, 1e-12, 1e-15);
    }
    // what may be taken out: deposits, and a borrow within the vault and the window
    let max = fix(&o["max"]).ok_or("max")?;
    ensure!(max <= v as f64 + 1e-6, "token {t}: {max} may be withdrawn, the vault holds {v}");
    let d = bal.max(0.0);
    ensure!(max >= d.min(v as f64) - 1e-6 - 1e-12 * d, "token {t}: {max} may be withdrawn of deposits {d}, vault {v}");
    if max > d + slack {
        let borrow = (max - d) * (1.0 + f(b.loan_origination_fee_rate));
        ensure!(borrow <= left * (1.0 + 1e-9) + 1.0, "token {t}: borrow of {borrow} offered, {left} left in the window");
    }
    Ok(())
}

// ---------------------------------------------------------------- perp positions

const PERPS: &str = "
  const out = [];
  for (let i = 0; i < C.accs.length; i++) {
    const acc = C.accs[i], row = [];
    for (const m of a.markets) {
      const pm = C.group.getPerpMarketByMarketIndex(m), p = acc.getPerpPosition(m);
      if (!p) { row.push(null); continue; }
      const cf = p.getCumulativeFunding(pm);
      const q = acc.getPerpPosition(m);
      row.push({
        base: p.getBasePosition(pm), baseUi: p.getBasePositionUi(pm), baseUiQ: p.getBasePositionUi(pm, true),
        accBaseUi: acc.getPerpPositionUi(C.group, m), quoteUi: p.getQuotePositionUi(pm), quoteUiQ: p.getQuotePositionUi(pm, true),
        notional: p.getNotionalValueUi(pm), funding: p.getUnsettledFunding(pm), fundingUi: p.getUnsettledFundingUi(pm),
        cumLong: cf.cumulativeLongFunding, cumShort: cf.cumulativeShortFunding, cumUi: p.getCumulativeFundingUi(pm),
        equity: p.getEquity(pm), equityUi: p.getEquityUi(pm), open: p.hasOpenOrders(),
        entry: p.getAverageEntryPrice(pm), entryUi: p.getAverageEntryPriceUi(pm),
        even: p.getBreakEvenPrice(pm), evenUi: p.getBreakEvenPriceUi(pm),
        pnl: p.getUnsettledPnl(pm), pnlUi: p.getUnsettledPnlUi(pm),
        settle: p.getSettleablePnl(C.group, pm, acc), settleUi: p.getSettleablePnlUi(C.group, pm, acc), can: p.canSettlePnl(C.group, pm, acc),
        limit: p.availableSettleLimit(pm), window: p.settlePnlLimitWindow,
        realizedUi: p.getRealizedPnlUi(), unrealizedUi: p.getUnRealizedPnlUi(pm), lifeUi: p.cumulativePnlOverPositionLifetimeUi(pm),
      });
    }
    out.push(row);
  }
  const cand = [];
  for (const m of a.markets) for (const d of ['positive', 'negative']) {
    const pm = C.group.getPerpMarketByMarketIndex(m);
    const r = await pm.getSettlePnlCandidates(C.client, C.group, C.accs, d, a.count);
    cand.push(r.map((x) => ({acc: x.account.publicKey, pnl: x.settleablePnl})));
  }
  const inside = a.prices.map(([m, x]) => ['bid', 'ask'].map((s) => C.group.getPerpMarketByMarketIndex(m).insidePriceLimit(C.perp.PerpOrderSide[s], x)));
  return {out, cand, inside};
";

fn perps(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = if src.bool() { crate::props::health::state(src, case, false)? } else { crate::machine::Machine::setup(src, &[]) };
    let w = &m.w;
    crate::props::settle::positions(src, w);
    for a in 1..5 {
        if w.acc(a).token_position(0).is_err() {
            w.grant(a, 0, 0, src.flog(1.0, 1e9));
        }
    }
    for p in 0..2 {
        w.set_perp_price(p, w.perp_price(p), None);
        for a in 1..5 {
            let (c, d, r) = (src.f(-1e6, 1e6), src.f(-1e6, 1e6), src.f(-1e9, 1e9));
            let (tb, tq) = (src.log(1000) as i64, -(src.log(100_000) as i64));
            let t = src.chance(20);
            // wide open for large allowances
            let big = if src.chance(10) { 1i64 << (40 + src.below(20)) } else { 0 };
            w.edit_acc(a, |acc| {
                if let Ok(pp) = acc.perp_position_mut(p as u16) {
                    pp.cumulative_long_funding = c;
                    pp.cumulative_short_funding = d;
                    pp.realized_pnl_for_position_native = num(r);
                    if t {
                        pp.taker_base_lots = tb;
                        pp.taker_quote_lots = tq;
                    }
                    if big > 0 {
                        pp.recurring_settle_pnl_allowance = big;
                    }
                }
            });
        }
    }
    let accs = [1usize, 2, 3, 4];
    let count = 1 + src.idx(4);
    let mut prices = vec![];
    for _ in 0..4 {
        let p = src.idx(2);
        let ui = w.perp_price(p) * 10f64.powi(w.perp(p).base_decimals as i32 - 6);
        prices.push((p, ui * src.f(0.5, 1.5)));
    }
    let mut ts = Ts::on(w, &accs);
    ts.op(PERPS, json!({"markets": [0, 1], "count": count, "prices": prices.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()}));
    let o = ts.run()?[0].clone()?;
    let now = w.now();
    let mut settleable = vec![[None; 2]; 4];
    for (i, a) in accs.iter().enumerate() {
        let acc = w.acc(*a);
        let cache = w.cache(*a, &|_| 0)?;
        let max = cache.perp_max_settle(0).map_err(|e| format!("{e:?}"))?;
        for p in 0..2 {
            let o = &o["out"][i][p];
            let Ok(pp) = acc.perp_position(p as u16) else {
                ensure!(o.is_null(), "account {a} perp {p}: the client shows a position that is not there");
                continue;
            };
            ensure!(!o.is_null(), "account {a} perp {p}: position not shown");
            case.nontrivial();
            let mk = w.perp(p);
            let price = w.s.get_account::<StubOracle>(w.perps[p].oracle).price;
            let mut q = pp.clone();
            q.settle_funding(&mk);
            q.update_settle_limit(&mk, now);
            let base = q.base_position_lots() as f64 * mk.base_lot_size as f64;
            let val = base.abs() * f(price);
            let dec = 10f64.powi(mk.base_decimals as i32);
            macro_rules! is {
                ($k:literal, $want:expr, $abs:expr) => {{
                    let v = &o[$k];
                    let x = if v.is_string() { fix(v) } else { flt(v) }.ok_or($k)?;
                    let y: f64 = $want;
                    ensure!(close(x, y, 1e-9, $abs), "account {a} perp {p} {}: client {x} program {y}; {pp:?} long {} short {} price {price} lot {}", $k, mk.long_funding, mk.short_funding, mk.base_lot_size);
                }};
            }
            let fund = f(pp.unsettled_funding(&mk));
            let tol = 1e-8 + 1e-11 * (val + fund.abs() + f(q.quote_position_native()).abs());
            is!("base", base, 0.0);
            is!("baseUi", base / dec, 0.0);
            is!("accBaseUi", base / dec, 0.0);
            let base_q = base + (pp.taker_base_lots * mk.base_lot_size) as f64;
            is!("baseUiQ", base_q / dec, 1e-12 * (base.abs() + base_q.abs()) / dec);
            let quote = f(pp.quote_position_native());
            let taker = (pp.taker_quote_lots * mk.quote_lot_size) as f64;
            is!("quoteUi", quote / 1e6, 1e-12);
            is!("quoteUiQ", (quote + taker) / 1e6, 1e-12 + 1e-12 * (quote.abs() + taker.abs()) / 1e6);
            is!("notional", base * f(price) / 1e6, 1e-12);
            is!("funding", fund, tol);
            is!("fundingUi", fund / 1e6, tol);
            is!("cumLong", q.cumulative_long_funding, tol + 1e-9 * pp.cumulative_long_funding.abs());
            is!("cumShort", q.cumulative_short_funding, tol + 1e-9 * pp.cumulative_short_funding.abs());
            is!("cumUi", (q.cumulative_short_funding - q.cumulative_long_funding) / 1e6, tol + 1e-9);
            let eq = f(q.quote_position_native()) + base * f(price);
            let full = eq + taker + (pp.taker_base_lots * mk.base_lot_size) as f64 * f(price);
            let tol2 = tol + 1e-11 * (full - eq).abs() + 1e-11 * taker.abs();
            is!("equity", full, tol2);
            is!("equityUi", full / 1e6, tol2);
            ensure!(o["open"] == json!(pp.has_open_orders_or_fills()), "account {a} perp {p}: open orders or fills {}", o["open"]);
            let entry = pp.avg_entry_price(&mk);
            is!("entry", entry, 1e-13);
            is!("entryUi", entry * dec / 1e6, 1e-13 * dec / 1e6);
            // what was paid per unit, the funding included
            let even = if base == 0.0 { 0.0 } else { pp.break_even_price(&mk) + fund / base };
            let tol3 = 1e-12 + 1e-12 * (quote.abs() + fund.abs()) / base.abs().max(1.0);
            is!("even", even, tol3);
            is!("evenUi", even * dec / 1e6, tol3 * dec / 1e6);
            let pnl = q.unsettled_pnl(&mk, price).map_err(|e| format!("{e:?}"))?;
            is!("pnl", f(pnl), tol);
            is!("pnlUi", f(pnl) / 1e6, tol);
            // settleable: what the program would settle against a large enough counterparty
            let want = q.apply_pnl_settle_limit(&mk, pnl);
            let want = if want < 0 { want.max(-max.max(I80F48::ZERO)) } else { want };
            let tol4 = 3.0 + tol + 1e-6 * val;
            is!("settle", f(want), tol4);
            is!("settleUi", f(want) / 1e6, tol4 / 1e6);
            settleable[i][p] = Some(f(want));
            if want.abs() > tol4 {
                ensure!(o["can"] == json!(true), "account {a} perp {p}: {want} can be settled, shown as not");
            }
            if mk.settle_pnl_limit_factor >= 0.0 {
                let (lo, hi) = q.available_settle_limit(&mk);
                let (x, y) = (big(&o["limit"][0]).ok_or("limit")?, big(&o["limit"][1]).ok_or("limit")?);
                let t = 3.0 + tol + 1e-6 * val;
                ensure!(close(x as f64, lo as f64, 1e-9, t) && close(y as f64, hi as f64, 1e-9, t), "account {a} perp {p} settle limit: client {x}..{y} program {lo}..{hi}; {pp:?}");
            } else {
                ensure!(o["limit"] == json!([i64::MIN.to_string(), i64::MAX.to_string()]), "account {a} perp {p} settle limit {} without limit", o["limit"]);
            }
            is!("window", q.settle_pnl_limit_window as f64, 0.0);
            let realized = f(pp.realized_pnl_for_position_native);
            let un = base * (f(price) - entry);
            is!("realizedUi", realized / 1e6, 1e-12);
            is!("unrealizedUi", un / 1e6, tol);
            is!("lifeUi", (realized + un) / 1e6, tol + 1e-12 * realized.abs());
        }
    }
    // candidates: the accounts with the most to settle
    for p in 0..2 {
        for (k, sign) in [1.0, -1.0].iter().enumerate() {
            let got = o["cand"][2 * p + k].as_array().ok_or("candidates")?;
            let slack = 10.0 + 1e-5 * (0..4).filter_map(|i| settleable[i][p]).map(|x: f64| x.abs()).fold(0.0, f64::max);
            let mut all: Vec<f64> = (0..4).filter_map(|i| settleable[i][p]).map(|x| x * sign).filter(|x| *x > slack).collect();
            all.sort_by(|a, b| b.partial_cmp(a).unwrap());
            ensure!(got.len() <= count, "{} candidates, {count} asked for", got.len());
            ensure!(got.len() >= all.len().min(count), "perp {p} side {sign}: {} candidates shown, {all:?}", got.len());
            for (i, c) in got.iter().enumerate() {
                let x = fix(&c["pnl"]).ok_or("pnl")? * sign;
                let idx = accs.iter().position(|a| json!(w.accs[*a].key.to_string()) == c["acc"]).ok_or("unknown candidate")?;
                let own = settleable[idx][p].ok_or("candidate without position")? * sign;
                ensure!((x - own).abs() <= slack, "perp {p} candidate {idx}: {x} shown, {own} settleable");
                let best = all.get(i).copied().unwrap_or(0.0);
                ensure!(x >= best - slack, "perp {p} side {sign} candidate number {i}: {x}, best is {best} of {all:?}");
            }
        }
    }
    for (i, (p, x)) in prices.iter().enumerate() {
        let mk = w.perp(*p);
        let price = w.s.get_account::<StubOracle>(w.perps[*p].oracle).price;
        let native = *x * 1e6 / 10f64.powi(mk.base_decimals as i32);
        for (j, s) in [Side::Bid, Side::Ask].iter().enumerate() {
            let lim = f(price * if j == 0 { mk.maint_base_liab_weight } else { mk.maint_base_asset_weight });
            if (native / lim - 1.0).abs() < 1e-9 {
                continue;
            }
            let want = mk.inside_price_limit(*s, num(native), price);
            ensure!(o["inside"][i][j] == json!(want), "perp {p} price {x}: inside the limit {}, program {want}", o["inside"][i][j]);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- order books and event queues

const BOOKS: &str = "
  const out = [];
  for (const m of a.markets) {
    const pm = C.group.getPerpMarketByMarketIndex(m);
    const bids = await pm.loadBids(C.client, true), asks = await pm.loadAsks(C.client, true);
    const delay = bids.now;
    bids.now = new C.BN(a.now); asks.now = new C.BN(a.now);
    const show = (o) => ({id: o.orderId, owner: o.owner, slot: o.openOrdersSlot, price: o.priceLots, ui: o.uiPrice, size: o.sizeLots, uiSize: o.uiSize,
      side: Object.keys(o.side)[0], ts: o.timestamp, exp: o.expiryTimestamp, market: o.perpMarketIndex, expired: o.isExpired, pegged: o.isOraclePegged,
      seq: o.seqNum, type: typeof o.orderType === 'number' ? ['limit','immediateOrCancel','postOnly','market','postOnlySlide'][o.orderType] : Object.keys(o.orderType)[0], limit: o.oraclePeggedProperties ? o.oraclePeggedProperties.pegLimit : null, off: o.oraclePeggedProperties ? o.oraclePeggedProperties.priceOffset : null});
    const row = {sides: [bids, asks].map((b) => ({
      all: [...b.items()].map(show), valid: [...b.itemsValid()].map(show), best: b.best() ? show(b.best()) : null,
      l2: b.getL2(a.depth), l2Ui: b.getL2Ui(a.depth), impact: a.lots.map((x) => { const p = b.getImpactPriceUi(new C.BN(x)); return p === undefined ? null : p; }),
    })), rate: pm.getInstantaneousFundingRate(bids, asks), rateUi: pm.getInstantaneousFundingRateUi(bids, asks), rateSec: pm.getInstantaneousFundingRatePerSecond(bids, asks), mine: []};
    for (const acc of C.accs) row.mine.push((await acc.loadPerpOpenOrdersForMarket(C.client, C.group, m, a.force)).map((o) => o.orderId));
    const q = await pm.loadEventQueue(C.client);
    row.head = q.head; row.count = q.count; row.seq = q.seqNum;
    const ev = (e) => e;
    row.events = q.getUnconsumedEvents().map(ev);
    row.since = q.eventsSince(new C.BN(a.since)).map((e) => e.seqNum);
    row.fills = (await pm.loadFills(C.client, new C.BN(a.since))).map((e) => ({seq: e.seqNum, price: e.price, size: e.size}));
    out.push(row);
  }
  return out;
";

fn books(src: &mut Src, case: &mut Case) -> Result<(), String> {
    use crate::bookmodel::*;
    use crate::machine::{Machine, K};
    let m = Machine::setup(src, &[(K::PerpOrder, 5), (K::PerpPegged, 3), (K::PerpCancel, 2), (K::Consume, 1)]);
    let w = &m.w;
    for a in 1..5 {
        w.grant(a, 0, 0, 1e13);
    }
    for p in 0..2 {
        if src.chance(30) {
            // unusual lots, before there is an order
            let (bl, ql) = (src.pick(&[1i64, 10, 100, 1000]), src.pick(&[1i64, 7, 10]));
            w.edit_perp(p, |m| {
                m.base_lot_size = bl;
                m.quote_lot_size = ql;
            });
        }
        if src.chance(30) {
            let px = w.perp_price(p) * src.flog(1e-3, 10.0);
            w.set_perp_price(p, px, Some(px));
        }
        let iq = src.log_range(1, 5_000) as i64;
        let (lo, hi) = (src.f(-0.1, 0.0), src.f(0.0, 0.1));
        w.edit_perp(p, |m| {
            m.impact_quantity = iq;
            m.min_funding = num(lo);
            m.max_funding = num(hi);
        });
    }
    let n = 8 + src.below(30);
    for _ in 0..n {
        let p = src.idx(2);
        let mk = w.perp(p);
        let fair = mk.native_price_to_lot(num(w.perp_price(p)));
        match src.weighted(&[12, 8, 3, 2, 2]) {
            0 | 1 => {
                let side = src.pick(&[Side::Bid, Side::Ask]);
                let mut ix = w.order_ix(1 + src.idx(4), p, side);
                let skew = if side == Side::Bid { -1.0 } else { 1.0 };
                let far = src.pick(&[0.0, 0.0, 0.001, 0.01, 0.05, 0.3]);
                ix.price_lots = ((fair as f64 * (1.0 + skew * far)) as i64 + src.range(-3, 3)).max(1);
                ix.max_base_lots = src.log_range(1, 3_000) as i64;
                let tif = if src.chance(35) { w.now() + src.urange(1, 200) } else { 0 };
                let ot = src.pick(&[PlaceOrderType::PostOnly, PlaceOrderType::Limit, PlaceOrderType::PostOnlySlide]);
                let mut raw = ix.to_instruction(&*w.s).1;
                if src.chance(50) {
                    raw.data = anchor_lang::InstructionData::data(&mango_v4::instruction::PerpPlaceOrderV2 {
                        side, price_lots: ix.price_lots, max_base_lots: ix.max_base_lots, max_quote_lots: i64::MAX, client_order_id: src.below(1 << 60), order_type: ot,
                        reduce_only: false, expiry_timestamp: tif, limit: 10, self_trade_behavior: SelfTradeBehavior::DecrementTake,
                    });
                } else {
                    let off = ix.price_lots - fair;
                    let lim = if src.bool() { -1 } else { (fair + off + (skew * -1.0) as i64 * src.log(fair.max(4) as u64 / 2) as i64).max(1) };
                    raw.data = anchor_lang::InstructionData::data(&mango_v4::instruction::PerpPlaceOrderPeggedV2 {
                        side, price_offset_lots: off, peg_limit: lim, max_base_lots: ix.max_base_lots, max_quote_lots: i64::MAX, client_order_id: 7, order_type: if let PlaceOrderType::PostOnlySlide = ot { PlaceOrderType::Limit } else { ot },
                        reduce_only: false, expiry_timestamp: tif, limit: 10, self_trade_behavior: SelfTradeBehavior::CancelProvide, max_oracle_staleness_slots: -1,
                    });
                }
                w.ok_raw(raw, &ix.signers());
            }
            2 => {
                let s = w.snap();
                m.step(src, &s);
            }
            3 => {
                let px = w.perp_price(p) * src.pick(&[0.7, 0.98, 0.999, 1.001, 1.02, 1.4]);
                w.set_perp_price(p, px, Some(px));
            }
            _ => {
                w.advance(src.log_range(1, 300));
                for q in 0..2 {
                    w.set_perp_price(q, w.perp_price(q), None);
                }
                for t in 0..5 {
                    w.set_price(t, w.price(t), None);
                }
            }
        }
    }
    if src.chance(30) {
        let px = w.perp_price(0) * src.pick(&[0.01, 0.5, 2.0, 0.95]);
        w.set_perp_price(0, px, None);
    }
    let accs = [1usize, 2, 3, 4];
    let mut extra = vec![];
    for p in &w.perps {
        extra.extend([p.bids, p.asks, p.event_queue]);
    }
    let depth = 1 + src.idx(6);
    let lots: Vec<u64> = (0..3).map(|_| src.log_range(1, 10_000)).collect();
    let since = src.log(60);
    let now = w.now();
    let mut ts = Ts::with(w, &accs, &extra, w.admin.pubkey());
    ts.op(BOOKS, json!({"markets": [0, 1], "now": now.to_string(), "depth": depth, "lots": lots, "since": since, "force": src.bool()}));
    let out = ts.run()?[0].clone()?;
    for p in 0..2 {
        let (o, mk) = (&out[p], w.perp(p));
        let price = w.s.get_account::<StubOracle>(w.perps[p].oracle).price;
        let ol = mk.native_price_to_lot(price);
        let bk = RefBook { sides: w.book(p)? };
        let ui_lot = mk.quote_lot_size as f64 / mk.base_lot_size as f64 * 10f64.powi(mk.base_decimals as i32 - 6);
        let ui_base = mk.base_lot_size as f64 / 10f64.powi(mk.base_decimals as i32);
        for (si, side) in [Side::Bid, Side::Ask].iter().enumerate() {
            let s = &o["sides"][si];
            let want = bk.valid(*side, ol, now);
            if want.len() > 1 {
                case.nontrivial();
            }
            let check = |x: &Value, o: &Order, px: i64| -> Result<(), String> {
                let seq = if si == 0 { !(o.key as u64) } else { o.key as u64 };
                shown!(format!("perp {p} {side:?} order"), x; "id" = o.key, "owner" = o.owner, "slot" = o.slot, "price" = px, "size" = o.qty, "ts" = o.ts,
                    "exp" = o.expiry(), "market" = p as u16, "expired" = o.expired(now), "pegged" = o.pegged, "seq" = seq);
                ensure!(x["side"] == json!(["bid", "ask"][si]), "perp {p} order of {side:?} shown as {}", x["side"]);
                let t = ["limit", "immediateOrCancel", "postOnly", "market", "postOnlySlide"][o.order_type as usize];
                ensure!(x["type"] == json!(t), "perp {p} order type {} shown as {}", t, x["type"]);
                if o.pegged {
                    shown!("pegged order", x; "limit" = o.peg_limit);
                }
                ensure!(close(flt(&x["ui"]).unwrap_or(-1.0), px as f64 * ui_lot, 1e-12, 0.0) && close(flt(&x["uiSize"]).unwrap_or(-1.0), o.qty as f64 * ui_base, 1e-12, 0.0), "perp {p} order {o:?} shown with price {} and size {}", x["ui"], x["uiSize"]);
                Ok(())
            };
            let valid = s["valid"].as_array().ok_or("valid")?;
            ensure!(valid.len() == want.len(), "perp {p} {side:?}: {} matchable orders shown, {} on the book at {now}, oracle {ol}: {:?} / {want:?}", valid.len(), want.len(), s["valid"]);
            for (x, (q, px)) in valid.iter().zip(&want) {
                check(x, q, *px)?;
            }
            let all = s["all"].as_array().ok_or("all")?;
            ensure!(all.len() == bk.sides[si].len(), "perp {p} {side:?}: {} orders shown, {} on the book", all.len(), bk.sides[si].len());
            let ids: Vec<String> = all.iter().map(|x| x["id"].as_str().unwrap_or("").to_string()).collect();
            for q in &bk.sides[si] {
                ensure!(ids.contains(&q.key.to_string()), "perp {p} order {q:?} not shown");
            }
            // all orders by rank, of the representable ones
            let ranked = bk.ranked(*side, ol);
            let ranked: Vec<(Order, i64)> = ranked.iter().filter(|(q, _, _)| !q.pegged || (ol as i128 + q.data() as i128 - (1i128 << 63)) >= 1).map(|x| (x.0, x.1)).collect();
            let shown: Vec<&Value> = all.iter().filter(|x| big(&x["price"]).unwrap_or(0) >= 1).collect();
            ensure!(shown.len() == ranked.len(), "perp {p} {side:?} {} of {}", shown.len(), ranked.len());
            for (x, (q, px)) in shown.iter().zip(&ranked) {
                check(x, q, *px)?;
            }
            if all.len() == ranked.len() {
                match ranked.first() {
                    None => ensure!(s["best"].is_null(), "perp {p} {side:?} best of nothing {}", s["best"]),
                    Some((q, px)) => check(&s["best"], q, *px)?,
                }
                let mut l2: Vec<(i64, i64)> = vec![];
                for (q, px) in &ranked {
                    match l2.last_mut() {
                        Some(l) if l.0 == *px => l.1 += q.qty,
                        _ => l2.push((*px, q.qty)),
                    }
                }
                l2.truncate(depth);
                let (g, gu) = (s["l2"].as_array().ok_or("l2")?, s["l2Ui"].as_array().ok_or("l2Ui")?);
                ensure!(g.len() == l2.len() && gu.len() == l2.len(), "perp {p} {side:?} {} levels, {l2:?}", g.len());
                for ((x, y), (px, q)) in g.iter().zip(gu).zip(&l2) {
                    let (a, b) = (*px as f64 * ui_lot, *q as f64 * ui_base);
                    for z in [x, y] {
                        ensure!(close(flt(&z[0]).unwrap_or(-1.0), a, 1e-12, 0.0) && close(flt(&z[1]).unwrap_or(-1.0), b, 1e-11, 0.0), "perp {p} level {z}, expected {a} {b}");
                    }
                    ensure!(big(&x[2]) == Some(*px as i128) && big(&x[3]) == Some(*q as i128), "perp {p} level {x}: {px} {q}");
                }
            }
            for (i, l) in lots.iter().enumerate() {
                let y = crate::props::funding::impact(&bk, *side, *l as i64, ol, now);
                let x = flt(&s["impact"][i]);
                ensure!(x.is_some() == y.is_some() && close(x.unwrap_or(0.0), y.unwrap_or(0) as f64 * ui_lot, 1e-12, 0.0), "perp {p} {side:?} impact price for {l} lots: client {x:?}, program {y:?} lots of {ui_lot}");
            }
        }
        // the funding rate the program would apply now
        let b = crate::props::funding::impact(&bk, Side::Bid, mk.impact_quantity, ol, now);
        let a = crate::props::funding::impact(&bk, Side::Ask, mk.impact_quantity, ol, now);
        let lotpx = f(mk.lot_to_native_price(1)) / f(price);
        let rate = match (b, a) {
            (Some(b), Some(a)) => ((b + a) as f64 / 2.0 * lotpx - 1.0).max(f(mk.min_funding)).min(f(mk.max_funding)),
            (Some(_), None) => f(mk.max_funding),
            (None, Some(_)) => f(mk.min_funding),
            (None, None) => 0.0,
        };
        let tol = lotpx * 0.51 + 1e-9;
        for (k, s) in [("rate", 1.0), ("rateUi", 100.0), ("rateSec", 1.0 / 86400.0)] {
            let x = flt(&o[k]).ok_or(k)?;
            ensure!((x - rate * s).abs() <= tol * s, "perp {p} funding {k}: client {x}, program {} (bid {b:?} ask {a:?} oracle {ol})", rate * s);
        }
        for (i, a) in accs.iter().enumerate() {
            let mut x: Vec<String> = o["mine"][i].as_array().ok_or("mine")?.iter().map(|v| v.as_str().unwrap_or("").to_string()).collect();
            let mut y: Vec<String> = bk.sides.iter().flatten().filter(|q| q.owner == w.accs[*a].key).map(|q| q.key.to_string()).collect();
            x.sort();
            y.sort();
            ensure!(x == y, "perp {p} orders of account {a}: client {x:?} book {y:?}");
        }
        let q: Box<EventQueue> = w.s.get_account_boxed(w.perps[p].event_queue);
        shown!("event queue", o; "head" = q.header.head() as u64, "count" = q.header.count() as u64, "seq" = q.header.seq_num);
        let ev = o["events"].as_array().ok_or("events")?;
        ensure!(ev.len() == q.header.count(), "perp {p}: {} events shown, {} waiting", ev.len(), q.header.count());
        for (x, e) in ev.iter().zip(q.iter()) {
            match e.event_type {
                0 => {
                    let e: &FillEvent = bytemuck::cast_ref(e);
                    case.label("fill");
                    fields!("fill", x, e; taker_side, maker_out, maker_slot, timestamp, seq_num, maker, maker_timestamp, taker, taker_client_order_id, maker_order_id, price, quantity, maker_client_order_id, maker_fee, taker_fee);
                }
                _ => {
                    let e: &OutEvent = bytemuck::cast_ref(e);
                    case.label("out");
                    fields!("out", x, e; side, owner_slot, timestamp, seq_num, owner, quantity, order_id);
                }
            }
        }
        let mut all: Vec<(u64, u8, i64, i64)> = q.buf.iter().map(|e| {
            let f: &FillEvent = bytemuck::cast_ref(e);
            (f.seq_num, e.event_type, f.price, f.quantity)
        }).filter(|e| e.0 > since).collect();
        all.sort();
        let got: Vec<String> = o["since"].as_array().ok_or("since")?.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        ensure!(got == all.iter().map(|e| e.0.to_string()).collect::<Vec<_>>(), "perp {p} events since {since}: {got:?} / {all:?}");
        let fills = o["fills"].as_array().ok_or("fills")?;
        let want: Vec<_> = all.iter().filter(|e| e.1 == 0).collect();
        ensure!(fills.len() == want.len(), "perp {p} fills since {since}: {fills:?} / {want:?}");
        for (x, e) in fills.iter().zip(want) {
            ensure!(big(&x["seq"]) == Some(e.0 as i128) && close(flt(&x["price"]).unwrap_or(-1.0), e.2 as f64 * ui_lot, 1e-12, 0.0) && close(flt(&x["size"]).unwrap_or(-1.0), e.3 as f64 * ui_base, 1e-12, 0.0), "perp {p} fill {e:?} shown as {x}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- reloading and finding accounts

const RELOAD: &str = "
  const G = () => {
    const g = C.group, bk = (b) => Object.assign({}, b, {p: b.price, u: b.uiPrice});
    const pk = (p) => { const o = Object.assign({}, p, {p: p.price, u: p.uiPrice}); delete o._bids; delete o._asks; return o; };
    const sorted = (x) => x.sort((u, v) => u[0] < v[0] ? -1 : 1);
    return {
      banks: sorted([...g.banksMapByMint.entries()].map(([k, v]) => [k, v.map(bk)])),
      byName: sorted([...g.banksMapByName.entries()].map(([k, v]) => [k, v.map((b) => b.publicKey)])),
      byIndex: sorted([...g.banksMapByTokenIndex.entries()].map(([k, v]) => [String(k), v.map((b) => b.publicKey)])),
      byOracle: sorted([...g.banksMapByOracle.entries()].map(([k, v]) => [k, v.map((b) => b.publicKey.toBase58()).sort()])),
      perps: sorted([...g.perpMarketsMapByMarketIndex.entries()].map(([k, v]) => [String(k), pk(v)])),
      perpNames: sorted([...g.perpMarketsMapByName.entries()].map(([k, v]) => [k, v.publicKey])),
      spots: sorted([...g.serum3MarketsMapByMarketIndex.entries()].map(([k, v]) => [String(k), v])),
      mints: sorted([...g.mintInfosMapByTokenIndex.entries()].map(([k, v]) => [String(k), v])),
      vaults: sorted([...g.vaultAmountsMap.entries()]),
    };
  };
  const A = () => C.accs.map((x) => { const o = Object.assign({}, x); o.serum3OosMapByMarketIndex = [...x.serum3OosMapByMarketIndex.entries()].map(([k, v]) => [k, v.baseTokenFree, v.baseTokenTotal, v.quoteTokenFree, v.quoteTokenTotal]); return o; });
  const before = JSON.stringify(a.keepBook ? [(await C.group.getPerpMarketByMarketIndex(0).loadBids(C.client)).rootFixed.leafCount] : []);
  for (const [k, owner, data, lamports] of a.accounts) C.conn.accts.set(k, {data: Buffer.from(data, 'base64'), owner: new C.PublicKey(owner), lamports, executable: false});
  for (const k of a.gone) C.conn.accts.delete(k);
  C.conn.slot = a.slot;
  const ms = a.now * 1000 + 500;
  Date.now = () => ms;
  for (let i = 0; i < a.times; i++) await C.group.reloadAll(C.client);
  for (const x of C.accs) { if (a.withSlot) await x.reloadWithSlot(C.client); else await x.reload(C.client); }
  const reloaded = {g: G(), a: A(), slot: C.group.groupLastUpdatedSlot};
  let book = null;
  if (a.keepBook) book = [...(await C.group.getPerpMarketByMarketIndex(0).loadBids(C.client)).items()].map((o) => o.orderId);
  C.group = await C.client.getGroup(C.group.publicKey);
  C.accs = await Promise.all(C.accs.map((x) => C.client.getMangoAccount(x.publicKey, true)));
  return {reloaded, fresh: {g: G(), a: A(), slot: C.group.groupLastUpdatedSlot}, book};
";

fn diff(a: &Value, b: &Value, path: String) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let mut keys: Vec<&String> = x.keys().chain(y.keys()).collect();
            keys.sort();
            keys.dedup();
            keys.into_iter().find_map(|k| diff(&a[k.as_str()], &b[k.as_str()], format!("{path}.{k}")))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (u, v))| diff(u, v, format!("{path}[{i}]"))),
        _ if a == b => None,
        _ => Some(format!("{path}: {a} instead of {b}")),
    }
}

fn reload(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = crate::machine::Machine::setup(src, &crate::machine::ALL);
    let w = &m.w;
    if src.chance(40) {
        // two tokens with the same oracle
        let (a, b) = src.pick(&[(1usize, 3usize), (3, 1), (2, 4), (4, 1)]);
        for n in 0..2 {
            let o = w.tokens[a].oracle;
            w.edit_bank(w.bank_key(b, n), |k| k.oracle = o);
        }
        w.s.set_account(w.tokens[b].mint_info, &{
            let mut x: MintInfo = w.s.get_account(w.tokens[b].mint_info);
            x.oracle = w.tokens[a].oracle;
            x
        });
        case.label("shared oracle");
    }
    let keep = src.chance(40);
    let mut extra = vec![];
    if keep {
        extra.extend([w.perps[0].bids, w.perps[0].asks]);
    }
    let accs = [1usize, 2, 3, 4];
    let mut ts = Ts::with(w, &accs, &extra, w.admin.pubkey());
    // the state moves on
    let n = 1 + src.below(12);
    for _ in 0..n {
        let s = w.snap();
        let st = m.step(src, &s);
        if st.ok {
            case.nontrivial();
        }
        case.note(|| format!("{} -> {}", st.what, st.ok));
    }
    if src.chance(60) {
        let (t, n) = (src.idx(5), src.idx(2));
        let (x, y) = (src.f(0.1, 2.0), src.below(2) as u8);
        let (nm, _) = name::<16>(src);
        let rename = src.chance(30);
        w.edit_bank(w.bank_key(t, n), |b| {
            b.init_asset_weight = num(x);
            b.deposit_index *= num(1.0 + x);
            b.reduce_only = y;
            b.deposit_limit = (x * 1e9) as u64;
            if rename {
                b.name = nm;
            }
        });
    }
    let new = state(w, &accs, &extra, w.admin.pubkey());
    let old: Vec<String> = state_keys(&ts);
    let now: Vec<String> = new["accounts"].as_array().unwrap().iter().map(|x| x[0].as_str().unwrap().to_string()).collect();
    let gone: Vec<&String> = old.iter().filter(|k| !now.contains(k)).collect();
    ts.op(RELOAD, json!({"accounts": new["accounts"], "gone": gone, "slot": new["slot"], "now": new["now"], "keepBook": keep, "times": 1 + src.below(2), "withSlot": src.bool()}));
    let o = ts.run()?[0].clone()?;
    if let Some(d) = diff(&o["reloaded"], &o["fresh"], "reloaded".into()) {
        return Err(format!("after reloading, {d}"));
    }
    // and the fresh one shows every bank at its oracle's price
    for e in o["fresh"]["g"]["banks"].as_array().ok_or("banks")? {
        for b in e[1].as_array().ok_or("banks")? {
            let key: Pubkey = b["publicKey"].as_str().ok_or("key")?.parse().map_err(|_| "key")?;
            let k = w.bank(key);
            let want = w.s.get_account::<StubOracle>(k.oracle).price;
            shown!("bank after reload", b; "p" = want, "depositIndex" = k.deposit_index, "indexedDeposits" = k.indexed_deposits, "initAssetWeight" = k.init_asset_weight);
        }
    }
    if keep {
        let mut x: Vec<String> = o["book"].as_array().ok_or("book")?.iter().map(|v| v.as_str().unwrap_or("").to_string()).collect();
        let mut y: Vec<String> = w.book(0)?[0].iter().map(|q| q.key.to_string()).collect();
        x.sort();
        y.sort();
        ensure!(x == y, "after reloading, the bids are {x:?} instead of {y:?}");
    }
    Ok(())
}

const LISTS: &str = "
  const ks = (x) => x.map((y) => y.publicKey.toBase58()).sort();
  const g = C.group, c = C.client, out = {};
  out.all = ks(await c.getAllMangoAccounts(g, a.oo));
  out.owner = []; out.delegate = []; out.num = []; out.mints = []; out.spots = []; out.groups = []; out.group = [];
  for (const o of a.keys) {
    out.owner.push(ks(await c.getMangoAccountsForOwner(g, C.K(o), a.oo)));
    out.delegate.push(ks(await c.getMangoAccountsForDelegate(g, C.K(o), a.oo)));
    out.num.push([]);
    for (const n of a.nums) { const x = await c.getMangoAccountForOwner(g, C.K(o), n, a.oo); out.num[out.num.length - 1].push(x ? x.publicKey : null); }
  }
  for (const t of a.tokens) out.mints.push(ks(await c.getMintInfoForTokenIndex(g, t)));
  for (const [b, q] of a.pairs) out.spots.push(ks(await c.serum3GetMarkets(g, b === null ? undefined : b, q === null ? undefined : q)));
  out.perps = ks(await c.perpGetMarkets(g));
  out.banks = ks(await c.getBanksForGroup(g));
  for (const [cr, n] of a.groups) {
    try { const x = await c.getGroupForCreator(C.K(cr), n); out.group.push([x.publicKey, x.banksMapByMint.size]); } catch (e) { out.group.push(null); }
    const l = await c.getGroupsForCreator(C.K(cr));
    out.groups.push(l.map((x) => [x.publicKey.toBase58(), x.banksMapByMint.size]).sort());
  }
  return out;
";

fn lists(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = crate::machine::Machine::setup(src, &[]);
    let w = &m.w;
    // accounts of other groups, owners and delegates
    let keys: Vec<Pubkey> = vec![w.accs[1].owner.pubkey(), w.accs[2].owner.pubkey(), w.s.sim.borrow_mut().new_key(), Pubkey::default(), w.admin.pubkey()];
    let other = w.s.sim.borrow_mut().new_key();
    let mut gs: Vec<(Pubkey, Pubkey, u32, bool)> = vec![];
    {
        let mut g: Group = w.s.get_account(w.group);
        gs.push((w.group, g.creator, g.group_num, true));
        g.group_num = src.log(1 << 31) as u32;
        if src.chance(30) {
            g.creator = keys[2];
        }
        let have = w.s.sim.borrow().get(&w.group).unwrap().clone();
        w.s.sim.borrow_mut().set(other, have);
        w.s.set_account(other, &g);
        gs.push((other, g.creator, g.group_num, false));
    }
    // (key, group, owner, delegate, number)
    let mut all: Vec<(Pubkey, Pubkey, Pubkey, Pubkey, u32)> = vec![];
    for a in 0..N_ACC {
        let (d, n) = (src.pick(&keys), src.log(1 << 31) as u32);
        let set = src.chance(60);
        w.edit_acc(a, |acc| {
            if set {
                acc.fixed.delegate = d;
                acc.fixed.account_num = n;
            }
        });
        let acc = w.acc(a);
        all.push((w.accs[a].key, acc.fixed.group, acc.fixed.owner, acc.fixed.delegate, acc.fixed.account_num));
        // a copy of it elsewhere
        if src.chance(50) {
            let k = w.s.sim.borrow_mut().new_key();
            let mut x = w.s.sim.borrow().get(&w.accs[a].key).unwrap().clone();
            let (g, o, d) = (if src.bool() { other } else { w.group }, src.pick(&keys), src.pick(&keys));
            x.data[8..40].copy_from_slice(g.as_ref());
            x.data[40..72].copy_from_slice(o.as_ref());
            x.data[104..136].copy_from_slice(d.as_ref());
            w.s.sim.borrow_mut().set(k, x);
            all.push((k, g, o, d, acc.fixed.account_num));
        }
    }
    case.nontrivial();
    let nums: Vec<u32> = (0..3).map(|_| src.pick(&all).4).collect();
    let mut pairs = vec![json!([null, null])];
    for _ in 0..3 {
        let (b, q) = (src.below(6), src.below(6));
        pairs.push(json!([if b == 5 { Value::Null } else { json!(b) }, if q == 5 { Value::Null } else { json!(q) }]));
    }
    let creators = [gs[0].1, keys[2], keys[3]];
    let mut groups = vec![];
    for _ in 0..3 {
        groups.push((src.pick(&creators), if src.chance(80) { src.pick(&gs).2 } else { 7 }));
    }
    let mut ts = Ts::on(w, &[]);
    ts.op(LISTS, json!({"keys": keys.iter().map(|k| k.to_string()).collect::<Vec<_>>(), "nums": nums, "tokens": [0, 1, 2, 3, 4, 5], "pairs": pairs, "oo": src.bool(),
        "groups": groups.iter().map(|g| json!([g.0.to_string(), g.1])).collect::<Vec<_>>()}));
    let o = ts.run()?[0].clone()?;
    let show = |mut v: Vec<String>| {
        v.sort();
        json!(v)
    };
    let mine: Vec<_> = all.iter().filter(|x| x.1 == w.group).collect();
    let eq = |what: &str, got: &Value, want: Value| -> Result<(), String> {
        ensure!(*got == want, "{what}: the client finds {got}, there are {want}");
        Ok(())
    };
    eq("all accounts", &o["all"], show(mine.iter().map(|x| x.0.to_string()).collect()))?;
    for (i, k) in keys.iter().enumerate() {
        eq("accounts of an owner", &o["owner"][i], show(mine.iter().filter(|x| x.2 == *k).map(|x| x.0.to_string()).collect()))?;
        eq("accounts of a delegate", &o["delegate"][i], show(mine.iter().filter(|x| x.3 == *k).map(|x| x.0.to_string()).collect()))?;
        for (j, n) in nums.iter().enumerate() {
            let fit: Vec<Value> = mine.iter().filter(|x| x.2 == *k && x.4 == *n).map(|x| json!(x.0.to_string())).collect();
            let got = &o["num"][i][j];
            ensure!(if fit.is_empty() { got.is_null() } else { fit.contains(got) }, "account {n} of {k}: {got} / {fit:?}");
        }
    }
    for t in 0..6 {
        let want: Vec<String> = w.tokens.iter().filter(|x| x.index as usize == t).map(|x| x.mint_info.to_string()).collect();
        eq("mint infos of a token", &o["mints"][t], show(want))?;
    }
    for (i, p) in pairs.iter().enumerate() {
        let want: Vec<String> = w.spots.iter().filter(|s| {
            let k: Serum3Market = w.s.get_account(s.market);
            (p[0].is_null() || p[0] == json!(k.base_token_index)) && (p[1].is_null() || p[1] == json!(k.quote_token_index))
        }).map(|s| s.market.to_string()).collect();
        eq(&format!("spot markets of {p}"), &o["spots"][i], show(want))?;
    }
    eq("perp markets", &o["perps"], show(w.perps.iter().map(|p| p.key.to_string()).collect()))?;
    eq("banks", &o["banks"], show((0..5).flat_map(|t| [w.bank_key(t, 0).to_string(), w.bank_key(t, 1).to_string()]).collect()))?;
    for (i, (c, n)) in groups.iter().enumerate() {
        let fit: Vec<&(Pubkey, Pubkey, u32, bool)> = gs.iter().filter(|g| g.1 == *c && g.2 == *n).collect();
        let got = &o["group"][i];
        match fit.first() {
            None => ensure!(got.is_null(), "group {n} of {c}: {got}"),
            Some(_) => ensure!(fit.iter().any(|g| *got == json!([g.0.to_string(), if g.3 { 5 } else { 0 }])), "group {n} of {c}: client {got}, {fit:?} with {} tokens", 5),
        }
        let mut want: Vec<(String, usize)> = gs.iter().filter(|g| g.1 == *c).map(|g| (g.0.to_string(), if g.3 { 5 } else { 0 })).collect();
        want.sort();
        eq(&format!("groups of {c} with their number of tokens"), &o["groups"][i], json!(want))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- oracles, conditional swaps, fee buyback

const MISC: &str = "
  const g = C.group, acc = C.accs[0], o = {};
  const real = Date.now;
  Date.now = () => a.now * 1000 + a.ms;
  try { o.operational = acc.isOperational(); } finally { Date.now = real; }
  o.banks = a.tokens.map((t) => g.getFirstBankByTokenIndex(t).isOracleStaleOrUnconfident(a.slot));
  o.perps = a.perps.map((p) => g.getPerpMarketByMarketIndex(p).isOracleStaleOrUnconfident(a.slot));
  o.held = (await acc.tokenPositionsForNotConfidentOrStaleOracles(C.client, g)).map((b) => b.tokenIndex);
  o.accrued = acc.getBuybackFeesAccrued(); o.accruedUi = acc.getBuybackFeesAccruedUi();
  o.buyback = acc.getMaxFeesBuyback(g); o.buybackUi = acc.getMaxFeesBuybackUi(g);
  o.mngo = g.getFirstBankForMngo().tokenIndex;
  g.pis = a.tokens.flatMap((t, i) => [1000, 5000].map((x, j) => ({symbol: g.getFirstBankByTokenIndex(t).name, target_amount: x, p90: a.impact[i][j]})));
  o.tcs = acc.tokenConditionalSwapsActive().map((t) => ({
    id: t.id, maxBuy: t.getMaxBuyUi(g), maxSell: t.getMaxSellUi(g), bought: t.getBoughtUi(g), sold: t.getSoldUi(g),
    lower: t.getPriceLowerLimitUi(g), upper: t.getPriceUpperLimitUi(g), threshold: t.getThresholdPriceUi(g), pair: t.getCurrentPairPriceUi(g),
    premium: t.getPricePremium(), suggested: t.getCurrentlySuggestedPremium(g), deposits: t.getAllowCreatingDeposits(), borrows: t.getAllowCreatingBorrows(),
  }));
  return o;
";

fn misc(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = crate::machine::Machine::setup(src, &crate::machine::ALL);
    let w = &m.w;
    for _ in 0..src.below(8) {
        let s = w.snap();
        m.step(src, &s);
    }
    let a = 1 + src.idx(3);
    let slot = w.s.clock().slot;
    // oracles of every age and confidence
    let ks: Vec<Pubkey> = w.tokens.iter().map(|t| t.oracle).chain(w.perps.iter().map(|p| p.oracle)).collect();
    let mut odd: Vec<bool> = vec![];
    for (i, k) in ks.iter().enumerate() {
        let mut o: StubOracle = w.s.get_account(*k);
        let age = src.log(slot.min(1000));
        o.last_update_slot = if src.chance(10) { 0 } else { slot - age };
        let staleness = match src.below(4) {
            0 => -(src.log(1000) as i64) - 1,
            1 => age as i64 + src.below(3) as i64 - 1,
            _ => src.log(2000) as i64,
        }
        .max(-1000);
        let conf = I80F48::from_num(src.flog(1e-4, 2.0));
        o.deviation = match src.below(4) {
            0 => I80F48::ZERO,
            1 => conf * o.price + I80F48::from_bits(src.below(3) as i128 - 1),
            _ => o.price * I80F48::from_num(src.flog(1e-5, 3.0)),
        }
        .max(I80F48::ZERO);
        w.s.set_account(*k, &o);
        let set = |c: &mut OracleConfig| {
            c.max_staleness_slots = staleness;
            c.conf_filter = conf;
        };
        if i < 5 {
            w.edit_token(i, |b| set(&mut b.oracle_config));
        } else {
            w.edit_perp(i - 5, |b| set(&mut b.oracle_config));
        }
        // the program's own verdict
        let bad = w.with_ais(&[*k], |ais| {
            let r = AccountInfoRef::borrow(&ais[0]).unwrap();
            let infos = OracleAccountInfos::from_reader(&r);
            let now = Some((w.now(), slot));
            match i < 5 {
                true => w.bank(w.bank_key(i, 0)).oracle_price(&infos, now).is_err(),
                false => w.perp(i - 5).oracle_price(&infos, now).is_err(),
            }
        });
        odd.push(bad);
    }
    let mngo = src.idx(5);
    let now = w.now();
    w.edit_group(|g| {
        g.mngo_token_index = mngo as u16;
        g.buyback_fees_mngo_bonus_factor = src.f(0.5, 2.0) as f32;
    });
    let ms = src.below(1000);
    let mut tcs: Vec<TokenConditionalSwap> = vec![];
    w.edit_acc(a, |acc| {
        let x = src.below(4);
        acc.fixed.frozen_until = if x == 0 { 0 } else { now + src.below(5) - 2 };
        acc.fixed.buyback_fees_accrued_current = src.log(1 << 50);
        acc.fixed.buyback_fees_accrued_previous = src.log(1 << 50);
        for i in 0..4 {
            let t = acc.token_conditional_swap_mut_by_index(i).unwrap();
            if src.chance(30) {
                t.is_configured = 0;
                continue;
            }
            let (b, s) = (src.idx(5), src.idx(5));
            if b == s {
                t.is_configured = 0;
                continue;
            }
            let mut amount = || if src.chance(25) { u64::MAX } else { src.log(1 << 50) };
            let (mb, ms, bo, so) = (amount(), amount(), amount(), amount());
            *t = TokenConditionalSwap {
                id: src.log(1 << 62),
                max_buy: mb,
                max_sell: ms,
                bought: bo,
                sold: so,
                expiry_timestamp: u64::MAX,
                price_lower_limit: src.flog(1e-12, 1e9),
                price_upper_limit: src.flog(1e-12, 1e9),
                price_premium_rate: src.f(0.0, 0.2),
                buy_token_index: w.tokens[b].index,
                sell_token_index: w.tokens[s].index,
                is_configured: 1,
                allow_creating_borrows: src.below(2) as u8,
                allow_creating_deposits: src.below(2) as u8,
                display_price_style: src.below(2) as u8,
                intention: src.below(3) as u8,
                ..TokenConditionalSwap::default()
            };
            tcs.push(*t);
        }
    });
    let impact: Vec<[f64; 2]> = (0..5).map(|_| [src.flog(1e-3, 10.0), src.flog(1e-3, 10.0)]).collect();
    let tokens: Vec<u16> = w.tokens.iter().map(|t| t.index).collect();
    let perps: Vec<u16> = w.perps.iter().map(|p| p.index).collect();
    let mut ts = Ts::on(w, &[a]);
    ts.op(MISC, json!({"now": now, "ms": ms, "slot": slot, "tokens": tokens, "perps": perps, "impact": impact}));
    let o = ts.run()?[0].clone()?;
    let acc = w.acc(a);
    case.nontrivial();
    // the program: frozen until strictly before its clock
    let frozen = acc.fixed.frozen_until;
    ensure!(o["operational"] == json!(frozen < now), "operational: client {}, frozen until {frozen}, now {now}", o["operational"]);
    for (i, x) in odd.iter().enumerate() {
        let c = if i < 5 { &o["banks"][i] } else { &o["perps"][i - 5] };
        let st: StubOracle = w.s.get_account(ks[i]);
        ensure!(*c == json!(x), "oracle {i} is stale or unconfident: client {c}, program {x}; {} of {} at slot {slot}, deviation {}, {:?}", st.price, st.last_update_slot, st.deviation,
            if i < 5 { w.bank(w.bank_key(i, 0)).oracle_config.conf_filter } else { w.perp(i - 5).oracle_config.conf_filter });
    }
    let held: Vec<u16> = acc.active_token_positions().map(|t| t.token_index).filter(|t| odd[tokens.iter().position(|x| x == t).unwrap()]).collect();
    ensure!(o["held"] == json!(held), "held tokens with unusable oracles: client {}, program {held:?}", o["held"]);
    // buyback
    let accrued = acc.fixed.buyback_fees_accrued();
    ensure!(big(&o["accrued"]) == Some(accrued as i128), "accrued fees {} / {accrued}", o["accrued"]);
    let near = |what: &str, c: &Value, want: f64, rel: f64, abs: f64| -> Result<(), String> {
        let got = flt(c).or(fix(c)).ok_or(format!("{what}: {c}"))?;
        ensure!((got - want).abs() <= rel * want.abs() + abs, "{what}: client {got}, expected {want}");
        Ok(())
    };
    near("accrued fees (ui)", &o["accruedUi"], accrued as f64 / 1e6, 1e-12, 1e-12)?;
    let b = w.bank(w.bank_key(mngo, 0));
    let bal = acc.token_position(mngo as u16).map(|p| f(p.native(&b))).unwrap_or(0.0);
    let value = (bal * f(w.s.get_account::<StubOracle>(b.oracle).price) * w.group_state().buyback_fees_mngo_bonus_factor as f64).floor();
    let most = (accrued as f64).min(value).max(0.0);
    let got = big(&o["buyback"]).ok_or("buyback")? as f64;
    ensure!((got - most).abs() <= 1.0 + 1e-9 * most, "fees that can be bought back: client {got}, expected {most} = min({accrued}, {value})");
    near("fees that can be bought back (ui)", &o["buybackUi"], got / 1e6, 1e-12, 1e-12)?;
    // conditional swaps
    let list = o["tcs"].as_array().ok_or("tcs")?;
    ensure!(list.len() == tcs.len(), "{} active conditional swaps shown of {}", list.len(), tcs.len());
    for (c, t) in list.iter().zip(&tcs) {
        ensure!(big(&c["id"]) == Some(t.id as i128), "conditional swap {} shown as {}", t.id, c["id"]);
        let ti = |i: u16| tokens.iter().position(|x| *x == i).unwrap();
        let (bt, st) = (ti(t.buy_token_index), ti(t.sell_token_index));
        let dec = |x: usize| w.tokens[x].mint.decimals as i32;
        let ui = |x: u64, tok: usize| x as f64 / 10f64.powi(dec(tok));
        near("max buy", &c["maxBuy"], ui(t.max_buy, bt), 1e-12, 1e-14)?;
        near("max sell", &c["maxSell"], ui(t.max_sell, st), 1e-12, 1e-14)?;
        near("bought", &c["bought"], ui(t.bought, bt), 1e-12, 1e-14)?;
        near("sold", &c["sold"], ui(t.sold, st), 1e-12, 1e-14)?;
        near("premium", &c["premium"], t.price_premium_rate * 100.0, 1e-12, 0.0)?;
        ensure!(c["deposits"] == json!(t.allow_creating_deposits == 1) && c["borrows"] == json!(t.allow_creating_borrows == 1), "flags of {c}");
        let scale = 10f64.powi(dec(bt) - dec(st));
        let disp = |x: f64| if t.display_price_style == 0 { x } else { 1.0 / x };
        let (lo, hi) = (t.price_lower_limit * scale, t.price_upper_limit * scale);
        // shortened for display
        let cut = 1.1e-3;
        near("lower limit", &c["lower"], disp(lo), cut, 0.0)?;
        near("upper limit", &c["upper"], disp(hi), cut, 0.0)?;
        let price = |x: usize| f(w.s.get_account::<StubOracle>(w.tokens[x].oracle).price);
        let r = price(bt) / price(st);
        near("pair price", &c["pair"], disp(r * scale), cut + 2.0 * 2f64.powi(-48) / r, 0.0)?;
        let (dl, dh) = ((r * scale - lo).abs(), (r * scale - hi).abs());
        if (dl - dh).abs() > 1e-6 * (dl + dh) {
            near("threshold", &c["threshold"], disp(if dl < dh { lo } else { hi }), cut, 0.0)?;
        }
        let usd = |amount: u64, tok: usize| if amount == u64::MAX { f64::INFINITY } else { amount as f64 * price(tok) / 1e6 };
        let chunk = usd(t.max_buy, bt).min(usd(t.max_sell, st));
        if (chunk - 5000.0).abs() > 1e-3 {
            let k = (chunk > 5000.0) as usize;
            if t.max_buy == u64::MAX || t.max_sell == u64::MAX {
                case.label("unlimited swap");
            }
            near("suggested premium", &c["suggested"], ((1.0 + impact[bt][k] / 100.0) * (1.0 + impact[st][k] / 100.0) - 1.0) * 100.0, 1e-9, 1e-9)?;
        }
    }
    Ok(())
}
