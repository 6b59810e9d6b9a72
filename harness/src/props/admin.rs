//! C22: configuration edits and listings by the administrative roles and account owners.
use crate::ensure;
use crate::pbt::*;
use crate::pt::*;
use crate::sim::Acc;
use crate::txgen::{roles, stranger};
use crate::world::*;
use anchor_lang::{InstructionData, ToAccountMetas};
use anchor_spl::token::Token as TokenProgram;
use bytemuck::Zeroable;
use fixed::types::I80F48;
use mango_v4::accounts as ma;
use mango_v4::accounts_ix::InterestRateParams;
use mango_v4::instruction as mi;
use mango_v4::state::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "`token`, `perp`, `spot`, `group`, `account`: sequences of edits with random subsets of options and values, signed by every role; the expected validity and the complete expected state are computed from a field table and compared with all accounts of the runtime. `listing`: token and market listings through both paths, with the weekly limit, and added banks, likewise. Non-trivial: an edit that had to be accepted and changed something, or one that had to be refused for its role or its values",
        assumptions: &["banks of one token start with identical configuration (C01)"],
        suites: vec![
            Suite { name: "token", quick: 200_000, thorough: 8_000_000, f: token },
            Suite { name: "perp", quick: 150_000, thorough: 6_000_000, f: perp },
            Suite { name: "spot", quick: 60_000, thorough: 2_000_000, f: spot },
            Suite { name: "group", quick: 60_000, thorough: 2_000_000, f: group },
            Suite { name: "account", quick: 60_000, thorough: 2_000_000, f: account },
            Suite { name: "listing", quick: 60_000, thorough: 2_000_000, f: listing },
        ],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    Admin,
    Security,
    Fast,
    Stranger,
}
use Role::*;

fn setup() -> World {
    let w = World::new();
    let (f, s) = roles();
    w.edit_group(|g| {
        g.fast_listing_admin = f.pubkey();
        g.security_admin = s.pubkey();
        g.allowed_fast_listings_per_interval = 3;
    });
    for k in [w.admin.pubkey(), f.pubkey(), s.pubkey(), stranger().pubkey()] {
        w.put_wallet(k);
    }
    w
}
fn key(w: &World, r: Role) -> Pubkey {
    match r {
        Admin => w.admin.pubkey(),
        Security => roles().1.pubkey(),
        Fast => roles().0.pubkey(),
        Stranger => stranger().pubkey(),
    }
}
fn role(src: &mut Src) -> Role {
    [Admin, Security, Fast, Stranger][src.weighted(&[55, 30, 8, 7])]
}

fn raw(a: impl ToAccountMetas, d: impl InstructionData) -> Instruction {
    Instruction { program_id: mango_v4::id(), accounts: a.to_account_metas(None), data: d.data() }
}
fn run(w: &World, ix: Instruction, who: Pubkey) -> bool {
    w.ok_raw(ix, &[TestKeypair::from_pubkey(who)])
}

/// every account of the runtime except the fee payers' lamports
pub fn differ(a: &World, b: &World) -> Option<String> {
    let (x, y) = (a.s.sim.borrow(), b.s.sim.borrow());
    for (k, v) in y.accounts.iter() {
        match x.accounts.get(k) {
            Some(u) if Rc::ptr_eq(u, v) => {}
            Some(u) => {
                if u.data != v.data {
                    let at = u.data.iter().zip(v.data.iter()).position(|(p, q)| p != q);
                    return Some(format!("account {k} ({} bytes) differs from the expected one at byte {at:?}", u.data.len()));
                }
                if u.owner != v.owner {
                    return Some(format!("owner of {k}"));
                }
            }
            None => return Some(format!("{k} is gone")),
        }
    }
    x.accounts.keys().find(|k| !y.accounts.contains_key(k)).map(|k| format!("{k} appeared"))
}

fn weight(src: &mut Src) -> f32 {
    match src.weighted(&[4, 8, 1]) {
        0 => src.pick(&[0.0f32, 0.5, 0.8, 0.9, 1.0, 1.2, 2.0]),
        1 => src.f(0.0, 2.0) as f32,
        _ => src.pick(&[-0.25f32, -1e-6, -3.0, 40.0]),
    }
}
fn small(src: &mut Src) -> f32 {
    match src.weighted(&[3, 8, 1]) {
        0 => 0.0,
        1 => src.flog(1e-6, 0.9) as f32,
        _ => src.pick(&[-0.01f32, -3.0f32, 3.0, -0.0]),
    }
}
fn text(src: &mut Src, max: usize) -> String {
    let n = if src.chance(12) { max + src.idx(3) } else { src.idx(max + 1) };
    (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect()
}
fn fixed_text<const N: usize>(s: &str) -> Option<[u8; N]> {
    if s.len() > N {
        return None;
    }
    let mut r = [0u8; N];
    r[..s.len()].copy_from_slice(s.as_bytes());
    Some(r)
}
fn n(x: f32) -> I80F48 {
    if x.is_nan() {
        I80F48::ZERO
    } else {
        I80F48::from_num(x)
    }
}
fn any_key(src: &mut Src) -> Pubkey {
    let mut k = [7u8; 32];
    k[0] = src.below(250) as u8 + 1;
    k[31] = src.below(250) as u8;
    Pubkey::new_from_array(k)
}

/// the documented consistency rules of a bank's configuration
fn bank_valid(b: &Bank) -> bool {
    let z = I80F48::ZERO;
    let rates = b.util0 >= z && b.util1 >= b.util0 && b.util1 <= 1 && b.rate0 >= z && b.rate1 >= z && b.max_rate >= z && b.adjustment_factor >= z && b.zero_util_rate >= z;
    let weights = b.init_asset_weight >= z
        && b.maint_asset_weight >= b.init_asset_weight
        && b.maint_liab_weight >= z
        && b.init_liab_weight >= b.maint_liab_weight
        && b.maint_weight_shift_asset_target >= z
        && b.maint_weight_shift_liab_target >= z;
    let fees = b.loan_fee_rate >= z
        && b.loan_origination_fee_rate >= z
        && b.liquidation_fee >= z
        && b.platform_liquidation_fee >= z
        && b.token_conditional_swap_taker_fee_rate >= 0.0
        && b.token_conditional_swap_maker_fee_rate >= 0.0
        && b.flash_loan_swap_fee_rate >= 0.0
        && b.collateral_fee_per_day >= 0.0;
    let limits = b.min_vault_to_deposits_ratio >= 0.0
        && b.min_vault_to_deposits_ratio <= 1.0
        && b.net_borrow_limit_per_window_quote >= -1
        && b.borrow_weight_scale_start_quote > 0.0
        && b.deposit_weight_scale_start_quote > 0.0
        && b.reduce_only <= 2;
    let other = b.oracle_config.conf_filter >= z
        && b.stable_price_model.delay_growth_limit >= 0.0
        && b.stable_price_model.stable_growth_limit >= 0.0
        && b.interest_curve_scaling >= 1.0
        && b.interest_target_utilization >= 0.0
        && b.interest_target_utilization <= 1.0;
    // no liquidation: must not back or create debt
    let noliq = b.disable_asset_liquidation == 0 || (b.reduce_only >= 1 && b.maint_asset_weight == z);
    let fw = b.force_withdraw == 0 || (b.reduce_only == 1 && b.disable_asset_liquidation == 1 && b.maint_asset_weight == z);
    rates && weights && fees && limits && other && noliq && fw
}

fn shifted(b: &Bank, now: u64) -> (f64, f64) {
    let (a, l) = (f(b.maint_asset_weight), f(b.maint_liab_weight));
    if b.maint_weight_shift_duration_inv == 0 || now <= b.maint_weight_shift_start {
        return (a, l);
    }
    let (ta, tl) = (f(b.maint_weight_shift_asset_target), f(b.maint_weight_shift_liab_target));
    if now >= b.maint_weight_shift_end {
        return (ta, tl);
    }
    let s = (now - b.maint_weight_shift_start) as f64 * f(b.maint_weight_shift_duration_inv);
    (a + s * (ta - a), l + s * (tl - l))
}

/// which options to set: few, many, or only the restrictive ones
fn choose(src: &mut Src, total: usize, soft: &[usize]) -> Vec<bool> {
    let mut on = vec![false; total];
    match src.weighted(&[10, 6, 2, 1]) {
        0 => {
            for _ in 0..1 + src.below(3) {
                on[src.idx(total)] = true;
            }
        }
        1 => {
            for _ in 0..src.below(4) {
                let k = src.idx(soft.len());
                on[soft[k]] = true;
            }
            if src.chance(15) {
                on[src.idx(total)] = true;
            }
        }
        2 => {
            for k in 0..total {
                on[k] = src.chance(25);
            }
        }
        _ => {}
    }
    on
}

fn token(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = setup();
    let t = src.idx(5);
    let tk = w.tokens[t].clone();
    // a valid configuration to start from, and banks in use
    {
        let ro = src.pick(&[0u8, 0, 1, 2]);
        let ia = src.f(0.0, 1.0);
        let ma = ia + src.f(0.0, 0.5);
        let ml = src.f(0.5, 1.5);
        let il = ml + src.f(0.0, 0.5);
        let now = w.now();
        let shift = src.chance(40).then(|| {
            let a = now as i64 + src.range(-5000, 3000);
            (a as u64, (a + src.range(-10, 10_000)) as u64, src.f(0.0, 1.0), src.f(1.0, 2.0))
        });
        let noliq = ro > 0 && src.bool();
        let fw = noliq && ro == 1 && src.bool();
        let fc = ro > 0 && src.bool();
        let plat = src.f(0.0, 0.1);
        let cf = src.f(0.0, 0.1) as f32;
        let sp = src.f(0.001, 100.0);
        let dp = src.f(0.001, 100.0);
        let used = src.log(1 << 40) as i64;
        let ws = src.below(now);
        let fb = any_key(src);
        let grp = src.bool();
        let nm = text(src, 16);
        let mut k = 0;
        w.edit_token(t, |b| {
            k += 1;
            b.reduce_only = ro;
            b.force_close = fc as u8;
            b.init_asset_weight = num(ia);
            b.maint_asset_weight = num(ma);
            b.maint_liab_weight = num(ml);
            b.init_liab_weight = num(il);
            if let Some((s, e, a, l)) = shift {
                b.maint_weight_shift_start = s;
                b.maint_weight_shift_end = e;
                b.maint_weight_shift_asset_target = num(a);
                b.maint_weight_shift_liab_target = num(l);
                b.maint_weight_shift_duration_inv = if e > s { I80F48::ONE / I80F48::from(e - s) } else { I80F48::ZERO };
            }
            if noliq {
                b.disable_asset_liquidation = 1;
                b.maint_asset_weight = I80F48::ZERO;
                b.init_asset_weight = I80F48::ZERO;
            }
            b.force_withdraw = fw as u8;
            b.platform_liquidation_fee = num(plat);
            b.collateral_fee_per_day = cf;
            b.stable_price_model.stable_price = sp;
            b.stable_price_model.delay_prices = [dp; 24];
            b.stable_price_model.delay_accumulator_price = sp * 3.0;
            b.stable_price_model.delay_accumulator_time = 17;
            b.net_borrows_in_window = used + k;
            b.last_net_borrows_window_start_ts = ws;
            b.indexed_deposits = num(1000 + k);
            b.indexed_borrows = num(10 * k);
            b.collected_fees_native = num(k * 7);
            b.fallback_oracle = fb;
            b.name = fixed_text(&nm).unwrap_or_default();
        });
        let mut m = w.s.get_account_boxed::<MintInfo>(tk.mint_info);
        m.group_insurance_fund = grp as u8;
        m.fallback_oracle = fb;
        w.s.set_account(tk.mint_info, &*m);
    }
    for _ in 0..1 + src.below(3) {
        if src.bool() {
            w.advance(src.log(5000));
        }
        token_once(src, case, &w, t)?;
    }
    Ok(())
}

fn token_once(src: &mut Src, case: &mut Case, w: &World, t: usize) -> Result<(), String> {
    let tk = w.tokens[t].clone();
    let now = w.now();
    const N: usize = 41;
    // 12 init weight, 24 reduce only, 38 platform fee, 39 collateral fee, 32 abort
    let on = choose(src, N, &[12, 24, 38, 39, 32]);
    let mut o = token_edit_instruction_default();
    let mut banks = vec![w.bank(tk.bank), w.bank(tk.bank1)];
    let mut info = w.s.get_account_boxed::<MintInfo>(tk.mint_info);
    let who = role(src);
    let mut soft = true; // nothing that needs the admin
    let mut valid = true;
    macro_rules! opt {
        ($i:expr, $opt:ident, $v:expr, $b:ident => $e:expr) => {
            if on[$i] {
                let v = $v;
                o.$opt = Some(v);
                soft = false;
                let set = |$b: &mut Bank| $e(v, $b);
                for b in banks.iter_mut() {
                    set(b);
                }
            }
        };
    }
    macro_rules! fixedf {
        ($i:expr, $opt:ident, $field:ident, $gen:ident) => {
            if on[$i] {
                let v = $gen(src);
                valid &= !v.is_nan();
                o.$opt = Some(v);
                soft = false;
                for b in banks.iter_mut() {
                    b.$field = n(v);
                }
            }
        };
    }
    macro_rules! plain {
        ($i:expr, $opt:ident, $field:ident, $v:expr) => {
            if on[$i] {
                let v = $v;
                o.$opt = Some(v);
                soft = false;
                for b in banks.iter_mut() {
                    b.$field = v.into();
                }
            }
        };
    }
    if on[0] {
        let conf = small(src);
        valid &= !conf.is_nan();
        let st = src.bool().then(|| src.log(1 << 32) as u32);
        o.oracle_config_opt = Some(OracleConfigParams { conf_filter: conf, max_staleness_slots: st });
        soft = false;
        for b in banks.iter_mut() {
            b.oracle_config = OracleConfig { conf_filter: n(conf), max_staleness_slots: st.map(|x| x as i64).unwrap_or(-1), reserved: [0; 72] };
        }
    }
    if on[1] {
        let k = if src.bool() { w.tokens[src.idx(5)].oracle } else { any_key(src) };
        o.oracle_opt = Some(k);
        soft = false;
        for b in banks.iter_mut() {
            b.oracle = k;
        }
        info.oracle = k;
    }
    // the accounts passed alongside
    let fb = match src.weighted(&[3, 4, 2]) {
        0 => Pubkey::default(),
        1 => w.tokens[src.idx(5)].oracle,
        _ => w.tokens[src.idx(5)].mint_info,
    };
    if on[2] {
        o.set_fallback_oracle = true;
        soft = false;
        valid &= fb == Pubkey::default() || w.tokens.iter().any(|x| x.oracle == fb);
        for b in banks.iter_mut() {
            b.fallback_oracle = fb;
        }
        info.fallback_oracle = fb;
    }
    let oracle = if src.chance(90) { banks[0].oracle } else { w.tokens[src.idx(5)].oracle };
    if on[3] {
        o.reset_stable_price = true;
        soft = false;
        match w.tokens.iter().position(|x| x.oracle == oracle) {
            Some(k) if oracle == banks[0].oracle && banks[0].oracle_config.conf_filter >= 0 => {
                let p = f(w.s.get_account::<StubOracle>(w.tokens[k].oracle).price);
                for b in banks.iter_mut() {
                    let m = &mut b.stable_price_model;
                    m.stable_price = p;
                    m.delay_prices = [p; 24];
                    m.delay_accumulator_price = 0.0;
                    m.delay_accumulator_time = 0;
                    m.last_update_timestamp = now;
                    m.reset_on_nonzero_price = 0;
                }
            }
            _ => valid = false,
        }
    }
    if on[4] {
        let v = src.bool();
        o.group_insurance_fund_opt = Some(v);
        soft = false;
        info.group_insurance_fund = v as u8;
    }
    if on[5] {
        let u0 = src.f(0.0, 1.0) as f32;
        let u1 = if src.chance(80) { u0 + (1.0 - u0) * src.f(0.0, 1.0) as f32 } else { src.f(0.0, 1.2) as f32 };
        let p = (u0, small(src), u1, small(src), small(src), small(src));
        valid &= !(p.1.is_nan() || p.3.is_nan() || p.4.is_nan() || p.5.is_nan());
        o.interest_rate_params_opt = Some(InterestRateParams { util0: p.0, rate0: p.1, util1: p.2, rate1: p.3, max_rate: p.4, adjustment_factor: p.5 });
        soft = false;
        for b in banks.iter_mut() {
            b.util0 = n(p.0);
            b.rate0 = n(p.1);
            b.util1 = n(p.2);
            b.rate1 = n(p.3);
            b.max_rate = n(p.4);
            b.adjustment_factor = n(p.5);
        }
    }
    fixedf!(9, loan_origination_fee_rate_opt, loan_origination_fee_rate, small);
    fixedf!(10, loan_fee_rate_opt, loan_fee_rate, small);
    if on[6] {
        // all weights together, usually in order
        let mut v: Vec<f32> = (0..4).map(|_| weight(src)).collect();
        if src.chance(80) {
            v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        }
        valid &= !v.iter().any(|x| x.is_nan());
        o.init_asset_weight_opt = Some(v[0]);
        o.maint_asset_weight_opt = Some(v[1]);
        o.maint_liab_weight_opt = Some(v[2]);
        o.init_liab_weight_opt = Some(v[3]);
        soft = false;
        for b in banks.iter_mut() {
            b.init_asset_weight = n(v[0]);
            b.maint_asset_weight = n(v[1]);
            b.maint_liab_weight = n(v[2]);
            b.init_liab_weight = n(v[3]);
        }
    } else {
        fixedf!(11, maint_asset_weight_opt, maint_asset_weight, weight);
        if on[12] {
            let v = if src.chance(70) { 0.0 } else { weight(src) };
            valid &= !v.is_nan();
            o.init_asset_weight_opt = Some(v);
            soft &= v == 0.0;
            for b in banks.iter_mut() {
                b.init_asset_weight = n(v);
            }
        }
        fixedf!(13, maint_liab_weight_opt, maint_liab_weight, weight);
        fixedf!(14, init_liab_weight_opt, init_liab_weight, weight);
    }
    fixedf!(15, liquidation_fee_opt, liquidation_fee, small);
    opt!(16, stable_price_delay_interval_seconds_opt, 1 + src.log(100_000) as u32, b => |v, b: &mut Bank| b.stable_price_model.delay_interval_seconds = v);
    opt!(17, stable_price_delay_growth_limit_opt, small(src), b => |v, b: &mut Bank| b.stable_price_model.delay_growth_limit = v);
    opt!(18, stable_price_growth_limit_opt, small(src), b => |v, b: &mut Bank| b.stable_price_model.stable_growth_limit = v);
    plain!(19, min_vault_to_deposits_ratio_opt, min_vault_to_deposits_ratio, src.pick(&[0.0, 0.2, 1.0, 1.01, -0.1, -0.5, 0.55]));
    plain!(20, net_borrow_limit_per_window_quote_opt, net_borrow_limit_per_window_quote, src.log(1 << 50) as i64 - 2);
    plain!(21, net_borrow_limit_window_size_ts_opt, net_borrow_limit_window_size_ts, 1 + src.log(1 << 30));
    if on[7] {
        o.reset_net_borrow_limit = true;
        soft = false;
        for b in banks.iter_mut() {
            b.net_borrows_in_window = 0;
            b.last_net_borrows_window_start_ts = 0;
        }
    }
    plain!(22, borrow_weight_scale_start_quote_opt, borrow_weight_scale_start_quote, src.pick(&[1e9, 5e10, f64::MAX, 0.0, -1.0, -0.5, 1.0]));
    plain!(23, deposit_weight_scale_start_quote_opt, deposit_weight_scale_start_quote, src.pick(&[1e9, 5e10, f64::MAX, 0.0, -1.0, -0.5, 1.0]));
    if on[24] {
        let v = src.pick(&[0u8, 1, 1, 2, 2, 2, 3, 255]);
        o.reduce_only_opt = Some(v);
        let old = banks[0].reduce_only;
        // restricting further: what was forbidden stays forbidden
        soft &= match v {
            1 => true,
            2 => old != 1,
            _ => false,
        };
        valid &= v <= 2;
        for b in banks.iter_mut() {
            b.reduce_only = v;
        }
    }
    if on[25] {
        let s = text(src, 16);
        match fixed_text(&s) {
            Some(x) => banks.iter_mut().for_each(|b| b.name = x),
            None => valid = false,
        }
        o.name_opt = Some(s);
        soft = false;
    }
    if on[8] {
        let s = text(src, 4);
        match fixed_text(&s) {
            Some(x) => banks.iter_mut().for_each(|b| b.tier = x),
            None => valid = false,
        }
        o.tier_opt = Some(s);
        soft = false;
    }
    if on[26] {
        let v = src.bool();
        o.force_close_opt = Some(v);
        soft = false;
        valid &= !v || banks[0].reduce_only > 0;
        banks.iter_mut().for_each(|b| b.force_close = v as u8);
    }
    plain!(27, token_conditional_swap_taker_fee_rate_opt, token_conditional_swap_taker_fee_rate, small(src));
    plain!(28, token_conditional_swap_maker_fee_rate_opt, token_conditional_swap_maker_fee_rate, small(src));
    plain!(29, flash_loan_swap_fee_rate_opt, flash_loan_swap_fee_rate, small(src));
    plain!(30, interest_curve_scaling_opt, interest_curve_scaling, src.pick(&[1.0f32, 1.5, 4.0, 100.0, 0.99, -1.0, -3.0f32]));
    plain!(31, interest_target_utilization_opt, interest_target_utilization, src.pick(&[0.0f32, 0.5, 1.0, 1.1, -0.5, 0.77, -3.0f32]));
    let mut frozen = None;
    if on[32] {
        o.maint_weight_shift_abort = true;
        frozen = Some(shifted(&banks[0], now));
        for b in banks.iter_mut() {
            b.maint_weight_shift_start = 0;
            b.maint_weight_shift_end = 0;
            b.maint_weight_shift_duration_inv = I80F48::ZERO;
            b.maint_weight_shift_asset_target = I80F48::ZERO;
            b.maint_weight_shift_liab_target = I80F48::ZERO;
        }
    }
    plain!(33, maint_weight_shift_start_opt, maint_weight_shift_start, now.saturating_sub(1000) + src.log(10_000));
    plain!(34, maint_weight_shift_end_opt, maint_weight_shift_end, now + src.log(100_000));
    fixedf!(35, maint_weight_shift_asset_target_opt, maint_weight_shift_asset_target, weight);
    fixedf!(36, maint_weight_shift_liab_target_opt, maint_weight_shift_liab_target, weight);
    if on[33] || on[34] {
        for b in banks.iter_mut() {
            let (s, e) = (b.maint_weight_shift_start, b.maint_weight_shift_end);
            b.maint_weight_shift_duration_inv = if e > s { I80F48::ONE / I80F48::from(e - s) } else { I80F48::ZERO };
        }
    }
    plain!(37, deposit_limit_opt, deposit_limit, src.log(1 << 60));
    if on[38] {
        let v = if src.chance(60) { 0.0 } else { small(src) };
        valid &= !v.is_nan();
        o.platform_liquidation_fee_opt = Some(v);
        soft &= v == 0.0;
        banks.iter_mut().for_each(|b| b.platform_liquidation_fee = n(v));
    }
    if on[39] {
        let v = if src.chance(60) { 0.0 } else { small(src) };
        o.collateral_fee_per_day_opt = Some(v);
        soft &= v == 0.0;
        banks.iter_mut().for_each(|b| b.collateral_fee_per_day = v);
    }
    if on[40] {
        match src.below(3) {
            0 => {
                let v = src.bool();
                o.disable_asset_liquidation_opt = Some(v);
                banks.iter_mut().for_each(|b| b.disable_asset_liquidation = v as u8);
            }
            1 => {
                let v = src.bool();
                o.force_withdraw_opt = Some(v);
                banks.iter_mut().for_each(|b| b.force_withdraw = v as u8);
            }
            _ => {
                let v = small(src);
                valid &= !v.is_nan();
                o.zero_util_rate_opt = Some(v);
                banks.iter_mut().for_each(|b| b.zero_util_rate = n(v));
            }
        }
        soft = false;
    }
    let mut listed = vec![tk.bank, tk.bank1];
    let all_banks = match src.weighted(&[40, 1, 1, 1, 1]) {
        0 => true,
        1 => {
            listed.pop();
            false
        }
        2 => {
            listed.swap(0, 1);
            false
        }
        3 => {
            listed[1] = w.tokens[(t + 1) % 5].bank1;
            false
        }
        _ => {
            listed.push(w.tokens[(t + 1) % 5].bank);
            false
        }
    };
    let accepted_before = w.fork();
    let mut ix = raw(
        ma::TokenEdit { group: w.group, admin: key(w, who), mint_info: tk.mint_info, oracle, fallback_oracle: fb },
        o,
    );
    ix.accounts.extend(listed.iter().map(|k| AccountMeta::new(*k, false)));
    let ok = run(w, ix, key(w, who));
    // weights frozen by an abort: the interpolated value, to within rounding
    if let Some((a, l)) = frozen {
        if ok {
            let got = w.bank(tk.bank);
            ensure!(close(f(got.maint_asset_weight), a, 1e-9, 1e-9) && close(f(got.maint_liab_weight), l, 1e-9, 1e-9),
                "aborted shift left maint weights {} / {}, they were {a} / {l}", got.maint_asset_weight, got.maint_liab_weight);
            let (ga, gl) = (got.maint_asset_weight, got.maint_liab_weight);
            banks.iter_mut().for_each(|b| {
                b.maint_asset_weight = ga;
                b.maint_liab_weight = gl;
            });
        } else {
            banks.iter_mut().for_each(|b| {
                b.maint_asset_weight = num(a);
                b.maint_liab_weight = num(l);
            });
            let edge = |x: f64, y: f64| (x - y).abs() < 1e-8;
            if edge(a, f(banks[0].init_asset_weight)) || edge(l, f(banks[0].init_liab_weight)) || edge(a, 0.0) || edge(l, 0.0) {
                return Ok(());
            }
        }
    }
    valid &= bank_valid(&banks[0]);
    let role_ok = who == Admin || (who == Security && soft);
    let want = valid && role_ok && all_banks;
    case.note(|| format!("{who:?} options {:?} -> ok {ok}, valid {valid} soft {soft} banks {all_banks} {}", on.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>(), w.fail_text()));
    ensure!(ok == want, "token edit by {who:?} with options {:?}: ok {ok}, but valid {valid}, restrictive {soft}, all banks {all_banks} ({})",
        on.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>(), w.fail_text());
    let exp = accepted_before;
    if ok {
        exp.s.set_account(tk.bank, &*banks[0]);
        exp.s.set_account(tk.bank1, &*banks[1]);
        exp.s.set_account(tk.mint_info, &*info);
        case.nontrivial();
        case.label(if who == Admin { "edited by the admin" } else { "edited by the security admin" });
    } else {
        if valid && all_banks {
            case.nontrivial();
            case.label("refused for its role");
        } else if role_ok {
            case.nontrivial();
            case.label("refused as inconsistent");
        }
    }
    if let Some(d) = differ(w, &exp) {
        return Err(format!("token edit with options {:?} (ok {ok}): {d}", on.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>()));
    }
    Ok(())
}

fn perp(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = setup();
    let p = src.idx(2);
    let pk = w.perps[p].key;
    let ro = src.bool();
    let fc = ro && src.bool();
    let oi = src.log(1 << 40) as i64;
    let sp = src.f(0.01, 100.0);
    let ov = src.f(0.0, 1.0);
    w.edit_perp(p, |m| {
        m.reduce_only = ro as u8;
        m.force_close = fc as u8;
        m.open_interest = oi;
        m.stable_price_model.stable_price = sp;
        m.stable_price_model.delay_accumulator_price = sp * 3.0;
        m.stable_price_model.delay_accumulator_time = 17;
        m.fees_accrued = num(oi);
        m.init_overall_asset_weight = num(ov);
    });
    for _ in 0..1 + src.below(3) {
        let who = role(src);
        let on = choose(src, 31, &[7, 24]);
        let mut m = w.perp(p);
        let mut o = perp_edit_instruction_default();
        let mut soft = true;
        let mut valid = true;
        macro_rules! fx {
            ($i:expr, $opt:ident, $field:ident, $gen:ident) => {
                if on[$i] {
                    let v = $gen(src);
                    valid &= !v.is_nan();
                    o.$opt = Some(v);
                    soft = false;
                    m.$field = n(v);
                }
            };
        }
        macro_rules! pl {
            ($i:expr, $opt:ident, $($field:ident).+, $v:expr) => {
                if on[$i] {
                    let v = $v;
                    o.$opt = Some(v);
                    soft = false;
                    m.$($field).+ = v;
                }
            };
        }
        if on[0] {
            let conf = small(src).abs();
            valid &= !conf.is_nan();
            let st = src.bool().then(|| src.log(1 << 32) as u32);
            o.oracle_config_opt = Some(OracleConfigParams { conf_filter: conf, max_staleness_slots: st });
            soft = false;
            m.oracle_config = OracleConfig { conf_filter: n(conf), max_staleness_slots: st.map(|x| x as i64).unwrap_or(-1), reserved: [0; 72] };
        }
        let known: Vec<Pubkey> = w.tokens.iter().map(|t| t.oracle).chain(w.perps.iter().map(|x| x.oracle)).collect();
        pl!(1, oracle_opt, oracle, if src.bool() { src.pick(&known) } else { any_key(src) });
        let oracle = if src.chance(90) { m.oracle } else { src.pick(&known) };
        if on[2] {
            o.reset_stable_price = true;
            soft = false;
            if oracle == m.oracle && known.contains(&oracle) {
                // native quote per native base: the market's own decimals
                let raw = w.s.get_account::<StubOracle>(oracle);
                let v = f(raw.price);
                let s = &mut m.stable_price_model;
                s.stable_price = v;
                s.delay_prices = [v; 24];
                s.delay_accumulator_price = 0.0;
                s.delay_accumulator_time = 0;
                s.last_update_timestamp = w.now();
                s.reset_on_nonzero_price = 0;
            } else {
                valid = false;
            }
        }
        fx!(3, maint_base_asset_weight_opt, maint_base_asset_weight, weight);
        fx!(4, init_base_asset_weight_opt, init_base_asset_weight, weight);
        if on[4] {
            valid &= m.init_base_asset_weight >= 0;
        }
        fx!(5, maint_base_liab_weight_opt, maint_base_liab_weight, weight);
        fx!(6, init_base_liab_weight_opt, init_base_liab_weight, weight);
        fx!(30, maint_overall_asset_weight_opt, maint_overall_asset_weight, weight);
        if on[7] {
            let v = if src.chance(70) { 0.0 } else { weight(src) };
            valid &= !v.is_nan();
            o.init_overall_asset_weight_opt = Some(v);
            soft &= v == 0.0;
            m.init_overall_asset_weight = n(v);
        }
        fx!(8, base_liquidation_fee_opt, base_liquidation_fee, small);
        fx!(9, maker_fee_opt, maker_fee, small);
        fx!(10, taker_fee_opt, taker_fee, small);
        fx!(11, min_funding_opt, min_funding, weight);
        fx!(12, max_funding_opt, max_funding, weight);
        pl!(13, impact_quantity_opt, impact_quantity, src.log(1 << 40) as i64 - 1);
        pl!(14, fee_penalty_opt, fee_penalty, src.f(0.0, 100.0) as f32);
        pl!(15, base_decimals_opt, base_decimals, src.below(20) as u8);
        if on[16] {
            let v = src.bool();
            o.group_insurance_fund_opt = Some(v);
            soft = false;
            m.group_insurance_fund = v as u8;
        }
        pl!(17, settle_fee_flat_opt, settle_fee_flat, src.f(0.0, 1e6) as f32);
        pl!(18, settle_fee_amount_threshold_opt, settle_fee_amount_threshold, src.f(0.0, 1e6) as f32);
        pl!(19, settle_fee_fraction_low_health_opt, settle_fee_fraction_low_health, src.f(0.0, 1.0) as f32);
        pl!(20, stable_price_delay_interval_seconds_opt, stable_price_model.delay_interval_seconds, 1 + src.log(100_000) as u32);
        pl!(21, stable_price_delay_growth_limit_opt, stable_price_model.delay_growth_limit, src.f(0.0, 1.0) as f32);
        pl!(22, stable_price_growth_limit_opt, stable_price_model.stable_growth_limit, src.f(0.0, 1.0) as f32);
        pl!(23, settle_pnl_limit_factor_opt, settle_pnl_limit_factor, src.f(0.0, 2.0) as f32);
        pl!(29, settle_pnl_limit_window_size_ts_opt, settle_pnl_limit_window_size_ts, 1 + src.log(1 << 30));
        if on[24] {
            let v = src.chance(65);
            o.reduce_only_opt = Some(v);
            soft &= v;
            m.reduce_only = v as u8;
        }
        fx!(25, positive_pnl_liquidation_fee_opt, positive_pnl_liquidation_fee, small);
        if on[26] {
            let s = text(src, 16);
            match fixed_text(&s) {
                Some(x) => m.name = x,
                None => valid = false,
            }
            o.name_opt = Some(s);
            soft = false;
        }
        if on[27] {
            let v = src.bool();
            o.force_close_opt = Some(v);
            soft = false;
            valid &= !v || m.reduce_only == 1;
            m.force_close = v as u8;
        }
        fx!(28, platform_liquidation_fee_opt, platform_liquidation_fee, small);
        let exp = w.fork();
        let ix = raw(ma::PerpEditMarket { group: w.group, admin: key(&w, who), perp_market: pk, oracle }, o);
        let ok = run(&w, ix, key(&w, who));
        let role_ok = who == Admin || (who == Security && soft);
        let list = || on.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>();
        case.note(|| format!("{who:?} options {:?} -> ok {ok}, valid {valid} soft {soft}", list()));
        ensure!(ok == (valid && role_ok), "perp edit by {who:?} with options {:?}: ok {ok}, but valid {valid}, restrictive {soft} ({})", list(), w.fail_text());
        if ok {
            exp.s.set_account(pk, &*m);
            case.label(if who == Admin { "edited by the admin" } else { "edited by the security admin" });
            case.nontrivial();
        } else if valid {
            case.label("refused for its role");
            case.nontrivial();
        } else if role_ok {
            case.label("refused as inconsistent");
            case.nontrivial();
        }
        if let Some(d) = differ(&w, &exp) {
            return Err(format!("perp edit with options {:?} (ok {ok}): {d}", list()));
        }
    }
    Ok(())
}

fn spot(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = setup();
    let k = w.spots[src.idx(2)].market;
    let mut m = w.s.get_account::<Serum3Market>(k);
    for _ in 0..2 + src.below(5) {
        let who = role(src);
        let mut x = m.clone();
        let mut soft = true;
        let mut valid = true;
        let mut o = serum3_edit_market_instruction_default();
        if src.chance(50) {
            let v = src.chance(65);
            o.reduce_only_opt = Some(v);
            soft &= v;
            x.reduce_only = v as u8;
        }
        if src.chance(35) {
            let v = src.bool();
            o.force_close_opt = Some(v);
            soft = false;
            valid &= !v || x.reduce_only == 1;
            x.force_close = v as u8;
        }
        if src.chance(25) {
            let s = text(src, 16);
            match fixed_text(&s) {
                Some(b) => x.name = b,
                None => valid = false,
            }
            o.name_opt = Some(s);
            soft = false;
        }
        if src.chance(25) {
            let v = src.pick(&[0.0f32, 1.0, 19.0, 0.05, f32::MAX]);
            o.oracle_price_band_opt = Some(v);
            soft = false;
            x.oracle_price_band = v;
        }
        let exp = w.fork();
        let ix = raw(ma::Serum3EditMarket { group: w.group, admin: key(&w, who), market: k }, o);
        let ok = run(&w, ix, key(&w, who));
        let role_ok = who == Admin || (who == Security && soft);
        case.note(|| format!("{who:?} -> ok {ok}, valid {valid} soft {soft}"));
        ensure!(ok == (valid && role_ok), "spot market edit by {who:?}: ok {ok}, but valid {valid}, restrictive {soft} ({})", w.fail_text());
        if ok {
            m = x;
            exp.s.set_account(k, &m);
        }
        case.label(if ok { "edited" } else if valid { "refused for its role" } else { "refused as inconsistent" });
        case.nontrivial();
        if let Some(d) = differ(&w, &exp) {
            return Err(format!("spot market edit (ok {ok}): {d}"));
        }
    }
    Ok(())
}

fn group(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = setup();
    let people: Vec<Pubkey> = [Admin, Security, Fast, Stranger].iter().map(|r| key(&w, *r)).collect();
    let mut g = w.group_state();
    for _ in 0..2 + src.below(5) {
        let who = if src.chance(70) { g.admin } else { src.pick(&people) };
        let mut o = group_edit_instruction_default();
        let mut x = g.clone();
        let mut valid = true;
        let dense = src.chance(20);
        let on = |src: &mut Src| src.chance(if dense { 60 } else { 12 });
        if on(src) {
            let v = if src.chance(12) { Pubkey::default() } else { src.pick(&people) };
            valid &= v != Pubkey::default();
            o.admin_opt = Some(v);
            x.admin = v;
        }
        if on(src) {
            let v = if src.bool() { Pubkey::default() } else { src.pick(&people) };
            o.fast_listing_admin_opt = Some(v);
            x.fast_listing_admin = v;
        }
        if on(src) {
            let v = if src.bool() { Pubkey::default() } else { src.pick(&people) };
            o.security_admin_opt = Some(v);
            x.security_admin = v;
        }
        macro_rules! pl {
            ($opt:ident, $field:ident, $v:expr) => {
                if on(src) {
                    let v = $v;
                    o.$opt = Some(v);
                    x.$field = v;
                }
            };
        }
        pl!(testing_opt, testing, src.below(2) as u8);
        pl!(version_opt, version, src.below(4) as u8);
        pl!(deposit_limit_quote_opt, deposit_limit_quote, src.log(1 << 60));
        if on(src) {
            let v = src.bool();
            o.buyback_fees_opt = Some(v);
            x.buyback_fees = v as u8;
        }
        pl!(buyback_fees_bonus_factor_opt, buyback_fees_mngo_bonus_factor, src.f(0.0, 3.0) as f32);
        pl!(buyback_fees_swap_mango_account_opt, buyback_fees_swap_mango_account, any_key(src));
        pl!(mngo_token_index_opt, mngo_token_index, src.below(65536) as u16);
        pl!(buyback_fees_expiry_interval_opt, buyback_fees_expiry_interval, src.log(1 << 40));
        pl!(allowed_fast_listings_per_interval_opt, allowed_fast_listings_per_interval, src.below(65536) as u16);
        pl!(collateral_fee_interval_opt, collateral_fee_interval, src.log(1 << 40));
        let exp = w.fork();
        let ok = run(&w, raw(ma::GroupEdit { group: w.group, admin: who }, o), who);
        case.note(|| format!("edit by {who} (admin {}) -> ok {ok}, valid {valid}", g.admin));
        ensure!(ok == (valid && who == g.admin), "group edit by {who} (admin {}): ok {ok}, valid {valid} ({})", g.admin, w.fail_text());
        if ok {
            g = x;
            exp.s.set_account(w.group, &*g);
        }
        case.label(if ok { "edited" } else if valid { "refused for its role" } else { "refused as inconsistent" });
        case.nontrivial();
        if let Some(d) = differ(&w, &exp) {
            return Err(format!("group edit (ok {ok}): {d}"));
        }
    }
    Ok(())
}

fn account(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = setup();
    let a = 1 + src.idx(5);
    let ak = w.accs[a].key;
    let owner = w.accs[a].owner.pubkey();
    let other = w.accs[if a == 1 { 2 } else { 1 }].owner.pubkey();
    for _ in 0..2 + src.below(5) {
        if src.bool() {
            w.advance(src.log(1_000_000));
        }
        let now = w.now();
        let v = w.acc(a);
        let frozen = src.chance(8);
        w.edit_acc(a, |x| x.fixed.frozen_until = if frozen { now + 5 } else { 0 });
        let mut x = w.acc(a);
        let mut o = mi::AccountEdit { name_opt: None, delegate_opt: None, temporary_delegate_opt: None, temporary_delegate_expiry_opt: None };
        let mut valid = true;
        if src.chance(60) {
            let s = text(src, 32);
            match fixed_text(&s) {
                Some(b) => x.fixed.name = b,
                None => valid = false,
            }
            o.name_opt = Some(s);
        }
        if src.chance(40) {
            let k = if src.chance(30) { Pubkey::default() } else { stranger().pubkey() };
            o.delegate_opt = Some(k);
            x.fixed.delegate = k;
        }
        valid &= o.name_opt.is_some() || o.delegate_opt.is_some();
        if src.chance(50) {
            const WEEK: u64 = 7 * 24 * 3600;
            let k = stranger().pubkey();
            let off = src.below(5);
            let e = match src.below(4) {
                0 => now + WEEK + off - 2,
                1 => src.below(now),
                2 => now + src.log(WEEK * 2),
                _ => now + src.log(1 << 50),
            };
            let both = src.chance(85);
            let first = src.bool();
            if both || first {
                o.temporary_delegate_opt = Some(k);
            }
            if both || !first {
                o.temporary_delegate_expiry_opt = Some(e);
            }
            valid &= both && e < now + WEEK;
            x.fixed.temporary_delegate = k;
            x.fixed.temporary_delegate_expiry = e;
        }
        // the owner only: no delegate, temporary delegate, admin or other owner
        let who = match src.weighted(&[6, 1, 1, 1]) {
            0 => owner,
            1 => stranger().pubkey(),
            2 => w.admin.pubkey(),
            _ => other,
        };
        let exp = w.fork();
        let ok = run(&w, raw(ma::AccountEdit { group: w.group, account: ak, owner: who }, o), who);
        case.note(|| format!("edit by owner {} frozen {frozen} valid {valid} (delegate {}) -> ok {ok}", who == owner, v.fixed.delegate));
        ensure!(ok == (valid && who == owner && !frozen), "account edit by the owner: {}, frozen {frozen}, valid {valid}, ok {ok} ({})", who == owner, w.fail_text());
        if ok {
            exp.put_acc(ak, &x);
        }
        case.label(if ok { "edited" } else if valid { "refused for its signer" } else { "refused as inconsistent" });
        case.nontrivial();
        if let Some(d) = differ(&w, &exp) {
            return Err(format!("account edit (ok {ok}): {d}"));
        }
    }
    Ok(())
}

fn pda(w: &World, seeds: &[&[u8]]) -> Pubkey {
    let mut s: Vec<&[u8]> = vec![seeds[0], w.group.as_ref()];
    s.extend_from_slice(&seeds[1..]);
    Pubkey::find_program_address(&s, &mango_v4::id()).0
}
fn bump(w: &World, seeds: &[&[u8]]) -> u8 {
    let mut s: Vec<&[u8]> = vec![seeds[0], w.group.as_ref()];
    s.extend_from_slice(&seeds[1..]);
    Pubkey::find_program_address(&s, &mango_v4::id()).1
}

fn new_mint(w: &World, seed: u8, decimals: u8) -> Pubkey {
    let k = Pubkey::new_from_array([150u8.wrapping_add(seed); 32]);
    let mut sim = w.s.sim.borrow_mut();
    let mut a: Acc = sim.get(&w.mints[5].pubkey).cloned().unwrap();
    a.data[44] = decimals;
    sim.set(k, a);
    k
}

fn listing(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = setup();
    w.advance(src.log(1_000_000));
    // part of a week may be over
    let allowed = src.below(4) as u16;
    let start = w.now().saturating_sub(src.below(1_300_000));
    let used = src.below(4) as u16;
    w.edit_group(|g| {
        g.allowed_fast_listings_per_interval = allowed;
        g.fast_listing_interval_start = start;
        g.fast_listings_in_interval = used;
    });
    let steps = 1 + src.below(6);
    let mut seq = 0u8;
    for _ in 0..steps {
        if src.chance(30) {
            w.advance(src.log(1_000_000));
        }
        seq += 1;
        match src.weighted(&[4, 3, 3, 2, 2]) {
            0 => list_trustless(src, case, &w, seq)?,
            1 => list_token(src, case, &w, seq)?,
            2 => list_spot(src, case, &w, seq)?,
            3 => list_perp(src, case, &w, seq)?,
            _ => add_bank(src, case, &w)?,
        }
    }
    Ok(())
}

struct Keys {
    bank: Pubkey,
    vault: Pubkey,
    info: Pubkey,
    bump: u8,
}
fn token_keys(w: &World, index: u16, n: u32, mint: Pubkey) -> Keys {
    let (i, m) = (index.to_le_bytes(), n.to_le_bytes());
    Keys {
        bank: pda(w, &[b"Bank", &i, &m]),
        vault: pda(w, &[b"Vault", &i, &m]),
        info: pda(w, &[b"MintInfo", mint.as_ref()]),
        bump: bump(w, &[b"Bank", &i, &m]),
    }
}
fn exists(w: &World, k: Pubkey) -> bool {
    w.s.sim.borrow().get(&k).is_some()
}
/// places the accounts created by a listing (structs as expected, the rest as found)
fn accept(w: &World, exp: &World, created: &[Pubkey]) {
    for k in created {
        let a = w.s.sim.borrow().get(k).cloned();
        if let Some(a) = a {
            exp.s.sim.borrow_mut().set(*k, a);
        }
    }
}

fn index_for(src: &mut Src, w: &World) -> u16 {
    match src.weighted(&[12, 1, 1, 1]) {
        0 => 100 + src.below(2000) as u16,
        1 => u16::MAX,
        2 => 0,
        _ => w.tokens[src.idx(5)].index,
    }
}

fn fallback_for(src: &mut Src, w: &World) -> (Pubkey, bool) {
    match src.weighted(&[3, 3, 1]) {
        0 => (Pubkey::default(), true),
        1 => (w.tokens[src.idx(5)].oracle, true),
        _ => (w.tokens[src.idx(5)].mint_info, false),
    }
}

fn check_vault(w: &World, vault: Pubkey, mint: Pubkey) -> Result<(), String> {
    let a = w.s.sim.borrow().get(&vault).cloned().ok_or("no vault")?;
    ensure!(a.data.len() == 165 && a.data[0..32] == mint.to_bytes() && a.data[32..64] == w.group.to_bytes() && a.data[64..72] == [0; 8] && a.data[72..76] == [0; 4] && a.data[108] == 1 && a.data[129..133] == [0; 4],
        "vault of the listing is not an empty token account of the group");
    Ok(())
}

fn list_trustless(src: &mut Src, case: &mut Case, w: &World, seq: u8) -> Result<(), String> {
    let who = [Fast, Admin, Security, Stranger][src.weighted(&[8, 3, 1, 1])];
    let dec = src.below(13) as u8;
    let dup = src.chance(5);
    let mint = if dup { w.mints[src.idx(5)].pubkey } else { new_mint(w, seq, dec) };
    let index = index_for(src, w);
    let k = token_keys(w, index, 0, mint);
    let oi = src.idx(5);
    let oracle = w.tokens[oi].oracle;
    let (fb, fb_ok) = fallback_for(src, w);
    let name = text(src, 16);
    let nm = fixed_text::<16>(&name);
    let fresh = index != 0 && index != u16::MAX && !exists(w, k.bank) && !exists(w, k.info);
    let mut g = w.group_state();
    let now = w.now();
    const WEEK: u64 = 7 * 24 * 3600;
    if now >= g.fast_listing_interval_start + WEEK {
        g.fast_listing_interval_start = now - now % WEEK;
        g.fast_listings_in_interval = 0;
    }
    let room = g.fast_listings_in_interval < g.allowed_fast_listings_per_interval;
    g.fast_listings_in_interval += 1;
    let valid = fresh && fb_ok && nm.is_some();
    let role_ok = who == Admin || who == Fast;
    let exp = w.fork();
    let ix = raw(
        ma::TokenRegisterTrustless {
            group: w.group,
            admin: key(w, who),
            mint,
            bank: k.bank,
            vault: k.vault,
            mint_info: k.info,
            oracle,
            fallback_oracle: fb,
            payer: key(w, who),
            token_program: TokenProgram::id_(),
            system_program: solana_program::system_program::id(),
            rent: solana_program::sysvar::rent::ID,
        },
        mi::TokenRegisterTrustless { token_index: index, name },
    );
    let ok = run(w, ix, key(w, who));
    case.note(|| format!("fast listing by {who:?} index {index} -> ok {ok} valid {valid} room {room} {}", w.fail_text()));
    ensure!(ok == (valid && role_ok && room), "fast listing by {who:?}: ok {ok}, valid {valid} (fresh {fresh}, fallback {fb_ok}), {} of {} used ({})",
        g.fast_listings_in_interval - 1, g.allowed_fast_listings_per_interval, w.fail_text());
    if ok {
        exp.s.set_account(w.group, &*g);
        accept(w, &exp, &[k.bank, k.vault, k.info]);
        check_vault(w, k.vault, mint)?;
        let b = w.bank(k.bank);
        ensure!(b.group == w.group && b.mint == mint && b.vault == k.vault && b.oracle == oracle && b.fallback_oracle == fb && b.token_index == index && b.bank_num == 0 && b.bump == k.bump && b.mint_decimals == dec && Some(b.name) == nm,
            "fast listed bank identifies something else");
        // safe parameters: deposit only, no collateral, protected borrows
        ensure!(b.init_asset_weight == 0 && b.maint_asset_weight == 0 && b.reduce_only == 2 && b.disable_asset_liquidation == 1 && b.force_withdraw == 0 && b.force_close == 0
            && b.maint_liab_weight > 1 && b.init_liab_weight >= b.maint_liab_weight && b.net_borrow_limit_per_window_quote >= 0 && b.net_borrow_limit_per_window_quote <= 5_000_000_000
            && b.borrow_weight_scale_start_quote <= 5e9 && b.deposit_weight_scale_start_quote <= 5e9 && b.min_vault_to_deposits_ratio >= 0.2,
            "fast listing with unsafe parameters");
        ensure!(bank_valid(&b), "fast listed bank is inconsistent");
        fresh_bank(&b, now)?;
        let p = f(w.s.get_account::<StubOracle>(oracle).price);
        ensure!(b.stable_price_model.stable_price == p && b.stable_price_model.last_update_timestamp == now, "stable price not initialised from the oracle");
        check_info(w, &k, index, mint, oracle, fb, 0, now)?;
    }
    case.label(if ok { "fast listed" } else if !room && valid && role_ok { "over the weekly limit" } else { "listing refused" });
    case.nontrivial();
    match differ(w, &exp) {
        Some(d) => Err(format!("fast listing (ok {ok}): {d}")),
        None => Ok(()),
    }
}

fn fresh_bank(b: &Bank, now: u64) -> Result<(), String> {
    ensure!(b.indexed_deposits == 0 && b.indexed_borrows == 0 && b.collected_fees_native == 0 && b.dust == 0 && b.fees_withdrawn == 0 && b.collected_liquidation_fees == 0 && b.collected_collateral_fees == 0
        && b.flash_loan_approved_amount == 0 && b.flash_loan_token_account_initial == u64::MAX && b.net_borrows_in_window == 0 && b.potential_serum_tokens == 0 && b.reserved.iter().all(|x| *x == 0),
        "a new bank is not empty");
    ensure!(b.deposit_index == 1_000_000 && b.borrow_index == 1_000_000 && b.index_last_updated == now && b.bank_rate_last_updated == now && b.avg_utilization == 0, "indexes of a new bank");
    Ok(())
}

fn check_info(w: &World, k: &Keys, index: u16, mint: Pubkey, oracle: Pubkey, fb: Pubkey, ins: u8, now: u64) -> Result<(), String> {
    let m = w.s.get_account_boxed::<MintInfo>(k.info);
    let mut e = Box::new(MintInfo::zeroed());
    e.group = w.group;
    e.token_index = index;
    e.group_insurance_fund = ins;
    e.mint = mint;
    e.banks[0] = k.bank;
    e.vaults[0] = k.vault;
    e.oracle = oracle;
    e.fallback_oracle = fb;
    e.registration_time = now;
    ensure!(bytemuck::bytes_of(&*m) == bytemuck::bytes_of(&*e), "mint info of a listing");
    Ok(())
}

fn list_token(src: &mut Src, case: &mut Case, w: &World, seq: u8) -> Result<(), String> {
    let who = [Admin, Fast, Security, Stranger][src.weighted(&[10, 1, 1, 1])];
    let dec = src.below(13) as u8;
    let dup = src.chance(5);
    let mint = if dup { w.mints[src.idx(5)].pubkey } else { new_mint(w, seq, dec) };
    let index = index_for(src, w);
    let k = token_keys(w, index, 0, mint);
    let oi = src.idx(5);
    let oracle = w.tokens[oi].oracle;
    let (fb, fb_ok) = fallback_for(src, w);
    let now = w.now();
    let pos = |src: &mut Src| src.flog(1e-5, 0.9) as f32;
    let sgn = |src: &mut Src| small(src);
    let rare = src.chance(25);
    let pick = |src: &mut Src| if rare { sgn(src) } else { pos(src) };
    let mut wt: Vec<f32> = (0..4).map(|_| if rare { weight(src) } else { src.f(0.0, 2.0) as f32 }).collect();
    if !rare || src.bool() {
        wt.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    }
    let u0 = src.f(0.0, 1.0) as f32;
    let u1 = u0 + (1.0 - u0) * src.f(0.0, 1.0) as f32;
    let d = mi::TokenRegister {
        token_index: index,
        name: text(src, 16),
        oracle_config: OracleConfigParams { conf_filter: pick(src), max_staleness_slots: src.bool().then(|| src.log(1 << 32) as u32) },
        interest_rate_params: InterestRateParams { util0: u0, rate0: pick(src), util1: u1, rate1: pick(src), max_rate: pick(src), adjustment_factor: pick(src) },
        loan_fee_rate: pick(src),
        loan_origination_fee_rate: pick(src),
        maint_asset_weight: wt[1],
        init_asset_weight: wt[0],
        maint_liab_weight: wt[2],
        init_liab_weight: wt[3],
        liquidation_fee: pick(src),
        stable_price_delay_interval_seconds: 1 + src.log(100_000) as u32,
        stable_price_delay_growth_limit: pick(src),
        stable_price_growth_limit: pick(src),
        min_vault_to_deposits_ratio: src.f(-0.02, 1.0),
        net_borrow_limit_window_size_ts: 1 + src.log(1 << 30),
        net_borrow_limit_per_window_quote: src.log(1 << 50) as i64 - 1,
        borrow_weight_scale_start_quote: src.flog(1.0, 1e12),
        deposit_weight_scale_start_quote: src.flog(1.0, 1e12),
        reduce_only: src.weighted(&[20, 5, 5, 1]) as u8,
        token_conditional_swap_taker_fee_rate: pick(src),
        token_conditional_swap_maker_fee_rate: pick(src),
        flash_loan_swap_fee_rate: pick(src),
        interest_curve_scaling: 1.0 + pick(src),
        interest_target_utilization: src.f(0.0, 1.02) as f32,
        group_insurance_fund: src.bool(),
        deposit_limit: src.log(1 << 60),
        zero_util_rate: pick(src),
        platform_liquidation_fee: pick(src),
        disable_asset_liquidation: src.chance(5),
        collateral_fee_per_day: pick(src),
        tier: text(src, 4),
    };
    let nan = [d.oracle_config.conf_filter, d.interest_rate_params.rate0, d.interest_rate_params.rate1, d.interest_rate_params.max_rate, d.interest_rate_params.adjustment_factor, d.loan_fee_rate,
        d.loan_origination_fee_rate, wt[0], wt[1], wt[2], wt[3], d.liquidation_fee, d.zero_util_rate, d.platform_liquidation_fee]
        .iter()
        .any(|x| x.is_nan());
    let (nm, tier) = (fixed_text::<16>(&d.name), fixed_text::<4>(&d.tier));
    let mut e = Box::new(Bank::zeroed());
    e.group = w.group;
    e.name = nm.unwrap_or_default();
    e.mint = mint;
    e.vault = k.vault;
    e.oracle = oracle;
    e.fallback_oracle = fb;
    e.oracle_config = OracleConfig { conf_filter: n(d.oracle_config.conf_filter), max_staleness_slots: d.oracle_config.max_staleness_slots.map(|x| x as i64).unwrap_or(-1), reserved: [0; 72] };
    e.deposit_index = num(1_000_000);
    e.borrow_index = num(1_000_000);
    e.index_last_updated = now;
    e.bank_rate_last_updated = now;
    e.adjustment_factor = n(d.interest_rate_params.adjustment_factor);
    e.util0 = n(d.interest_rate_params.util0);
    e.rate0 = n(d.interest_rate_params.rate0);
    e.util1 = n(d.interest_rate_params.util1);
    e.rate1 = n(d.interest_rate_params.rate1);
    e.max_rate = n(d.interest_rate_params.max_rate);
    e.loan_fee_rate = n(d.loan_fee_rate);
    e.loan_origination_fee_rate = n(d.loan_origination_fee_rate);
    e.maint_asset_weight = n(d.maint_asset_weight);
    e.init_asset_weight = n(d.init_asset_weight);
    e.maint_liab_weight = n(d.maint_liab_weight);
    e.init_liab_weight = n(d.init_liab_weight);
    e.liquidation_fee = n(d.liquidation_fee);
    e.platform_liquidation_fee = n(d.platform_liquidation_fee);
    e.flash_loan_token_account_initial = u64::MAX;
    e.token_index = index;
    e.bump = k.bump;
    e.mint_decimals = dec;
    let p = f(w.s.get_account::<StubOracle>(oracle).price);
    let s = &mut e.stable_price_model;
    s.delay_interval_seconds = d.stable_price_delay_interval_seconds;
    s.delay_growth_limit = d.stable_price_delay_growth_limit;
    s.stable_growth_limit = d.stable_price_growth_limit;
    s.stable_price = p;
    s.delay_prices = [p; 24];
    s.last_update_timestamp = now;
    e.min_vault_to_deposits_ratio = d.min_vault_to_deposits_ratio;
    e.net_borrow_limit_window_size_ts = d.net_borrow_limit_window_size_ts;
    e.net_borrow_limit_per_window_quote = d.net_borrow_limit_per_window_quote;
    e.last_net_borrows_window_start_ts = now - now % d.net_borrow_limit_window_size_ts;
    e.borrow_weight_scale_start_quote = d.borrow_weight_scale_start_quote;
    e.deposit_weight_scale_start_quote = d.deposit_weight_scale_start_quote;
    e.reduce_only = d.reduce_only;
    e.disable_asset_liquidation = d.disable_asset_liquidation as u8;
    e.token_conditional_swap_taker_fee_rate = d.token_conditional_swap_taker_fee_rate;
    e.token_conditional_swap_maker_fee_rate = d.token_conditional_swap_maker_fee_rate;
    e.flash_loan_swap_fee_rate = d.flash_loan_swap_fee_rate;
    e.interest_curve_scaling = d.interest_curve_scaling as f64;
    e.interest_target_utilization = d.interest_target_utilization;
    e.deposit_limit = d.deposit_limit;
    e.zero_util_rate = n(d.zero_util_rate);
    e.collateral_fee_per_day = d.collateral_fee_per_day;
    e.tier = tier.unwrap_or_default();
    let fresh = index != u16::MAX && !exists(w, k.bank) && !exists(w, k.info);
    let valid = !nan && nm.is_some() && tier.is_some() && fresh && fb_ok && bank_valid(&e);
    let ins = d.group_insurance_fund as u8;
    let exp = w.fork();
    let ix = raw(
        ma::TokenRegister {
            group: w.group,
            admin: key(w, who),
            mint,
            bank: k.bank,
            vault: k.vault,
            mint_info: k.info,
            oracle,
            fallback_oracle: fb,
            payer: key(w, who),
            token_program: TokenProgram::id_(),
            system_program: solana_program::system_program::id(),
            rent: solana_program::sysvar::rent::ID,
        },
        d,
    );
    let ok = run(w, ix, key(w, who));
    case.note(|| format!("token listing by {who:?} index {index} -> ok {ok} valid {valid} {}", w.fail_text()));
    ensure!(ok == (valid && who == Admin), "token listing by {who:?}: ok {ok}, valid {valid} ({})", w.fail_text());
    if ok {
        accept(w, &exp, &[k.bank, k.vault, k.info]);
        check_vault(w, k.vault, mint)?;
        let b = w.bank(k.bank);
        ensure!(bytemuck::bytes_of(&*b) == bytemuck::bytes_of(&*e), "listed bank differs from its parameters: {b:?} expected {e:?}");
        check_info(w, &k, index, mint, oracle, fb, ins, now)?;
        case.label("token listed");
    } else {
        case.label("listing refused");
    }
    case.nontrivial();
    match differ(w, &exp) {
        Some(d) => Err(format!("token listing (ok {ok}): {d}")),
        None => Ok(()),
    }
}

fn list_spot(src: &mut Src, case: &mut Case, w: &World, seq: u8) -> Result<(), String> {
    let who = [Fast, Admin, Security, Stranger][src.weighted(&[8, 5, 1, 1])];
    let sp = w.spots[src.idx(2)].clone();
    let ext = if src.chance(90) {
        let k = Pubkey::new_from_array([190u8.wrapping_add(seq); 32]);
        let a = w.s.sim.borrow().get(&sp.cookie.market).cloned().unwrap();
        w.s.sim.borrow_mut().set(k, a);
        k
    } else {
        sp.cookie.market
    };
    // configurations around the rule for wider bands
    let (bt, qt) = match src.weighted(&[8, 1, 1, 1]) {
        0 => (sp.base, sp.quote),
        1 => (sp.quote, sp.base),
        2 => (src.idx(5), sp.quote),
        _ => (sp.base, src.idx(5)),
    };
    let (ro, zero, scale, lim) = (src.bool(), src.bool(), src.bool(), src.chance(30));
    w.edit_token(bt, |b| {
        b.reduce_only = if ro { 2 } else { 0 };
        b.maint_asset_weight = num(if zero { 0.0 } else { 0.5 });
        b.init_asset_weight = num(0.0);
    });
    w.edit_token(qt, |b| {
        b.deposit_weight_scale_start_quote = if scale { f64::MAX } else { 1e12 };
        b.deposit_limit = if lim { 1000 } else { 0 };
    });
    let bb = w.bank(if src.bool() { w.tokens[bt].bank } else { w.tokens[bt].bank1 });
    let qb = w.bank(w.tokens[qt].bank);
    let band = src.pick(&[1.0f32, 1.0, 19.0, 19.0, 5.0, 0.0, f32::MAX]);
    let wide = bb.reduce_only != 0 && bb.maint_asset_weight == 0 && qb.deposit_weight_scale_start_quote == f64::MAX && qb.deposit_limit == 0;
    let band_ok = who != Fast || band == if wide { 19.0 } else { 1.0 };
    let index = if src.chance(90) { 100 + src.below(1000) as u16 } else { src.below(3) as u16 };
    let market = pda(w, &[b"Serum3Market", ext.as_ref()]);
    let res = pda(w, &[b"Serum3Index", &index.to_le_bytes()]);
    let name = text(src, 16);
    let nm = fixed_text::<16>(&name);
    let program = if src.chance(90) { w.serum_program } else { any_key(src) };
    let valid = nm.is_some() && program == w.serum_program && bt == sp.base && qt == sp.quote && !exists(w, market) && !exists(w, res);
    let role_ok = who == Admin || who == Fast;
    let base_bank = w.tokens[bt].bank;
    let bk = if bb.bank_num == 0 { base_bank } else { w.tokens[bt].bank1 };
    let exp = w.fork();
    let ix = raw(
        ma::Serum3RegisterMarket {
            group: w.group,
            admin: key(w, who),
            serum_program: program,
            serum_market_external: ext,
            serum_market: market,
            index_reservation: res,
            quote_bank: w.tokens[qt].bank,
            base_bank: bk,
            payer: key(w, who),
            system_program: solana_program::system_program::id(),
        },
        mi::Serum3RegisterMarket { market_index: index, name, oracle_price_band: band },
    );
    let ok = run(w, ix, key(w, who));
    case.note(|| format!("spot listing by {who:?} band {band} (wide {wide}) -> ok {ok} valid {valid} {}", w.fail_text()));
    ensure!(ok == (valid && role_ok && band_ok), "spot market listing by {who:?}: ok {ok}, valid {valid}, band {band} (wide allowed: {wide}) ({})", w.fail_text());
    if ok {
        accept(w, &exp, &[market, res]);
        let mut e = Serum3Market::zeroed();
        e.group = w.group;
        e.base_token_index = w.tokens[bt].index;
        e.quote_token_index = w.tokens[qt].index;
        e.name = nm.unwrap();
        e.serum_program = program;
        e.serum_market_external = ext;
        e.market_index = index;
        e.bump = bump(w, &[b"Serum3Market", ext.as_ref()]);
        e.oracle_price_band = band;
        e.registration_time = w.now();
        let m = w.s.get_account::<Serum3Market>(market);
        ensure!(bytemuck::bytes_of(&m) == bytemuck::bytes_of(&e), "listed spot market {m:?}, expected {e:?}");
        let r = w.s.get_account::<Serum3MarketIndexReservation>(res);
        ensure!(r.group == w.group && r.market_index == index, "index reservation {r:?}");
        case.label("spot market listed");
    } else {
        case.label(if valid && role_ok { "band refused" } else { "listing refused" });
    }
    case.nontrivial();
    match differ(w, &exp) {
        Some(d) => Err(format!("spot listing (ok {ok}): {d}")),
        None => Ok(()),
    }
}

fn list_perp(src: &mut Src, case: &mut Case, w: &World, seq: u8) -> Result<(), String> {
    let who = [Admin, Fast, Security, Stranger][src.weighted(&[10, 1, 1, 1])];
    let k = |j: u8| Pubkey::new_from_array([seq + 10 * j + 100; 32]);
    let accs = [k(0), k(1), k(2)];
    let used = src.chance(6).then(|| src.idx(3));
    for (i, (a, size)) in accs.iter().zip([std::mem::size_of::<BookSide>(), std::mem::size_of::<BookSide>(), std::mem::size_of::<EventQueue>()]).enumerate() {
        let mut data = vec![0u8; 8 + size];
        if used == Some(i) {
            data[3] = 1; // something is already there
        }
        w.s.sim.borrow_mut().set(*a, Acc { lamports: 1 << 40, data, owner: mango_v4::id(), executable: false });
    }
    let index = if src.chance(90) { 100 + src.below(1000) as u16 } else { src.below(3) as u16 };
    let market = pda(w, &[b"PerpMarket", &index.to_le_bytes()]);
    let oi = src.idx(5);
    let oracle = w.tokens[oi].oracle;
    let v = |src: &mut Src| src.f(0.0, 2.0) as f32;
    let d = mi::PerpCreateMarket {
        perp_market_index: index,
        settle_token_index: src.below(3) as u16,
        name: text(src, 16),
        oracle_config: OracleConfigParams { conf_filter: v(src), max_staleness_slots: src.bool().then(|| src.log(1 << 32) as u32) },
        base_decimals: src.below(13) as u8,
        quote_lot_size: 1 + src.log(1 << 30) as i64,
        base_lot_size: 1 + src.log(1 << 30) as i64,
        maint_base_asset_weight: v(src),
        init_base_asset_weight: v(src),
        maint_base_liab_weight: v(src),
        init_base_liab_weight: v(src),
        maint_overall_asset_weight: v(src),
        init_overall_asset_weight: v(src),
        base_liquidation_fee: v(src),
        maker_fee: v(src) - 1.0,
        taker_fee: v(src),
        min_funding: v(src) - 1.0,
        max_funding: v(src),
        impact_quantity: src.log(1 << 40) as i64,
        group_insurance_fund: src.bool(),
        fee_penalty: v(src),
        settle_fee_flat: v(src),
        settle_fee_amount_threshold: v(src),
        settle_fee_fraction_low_health: v(src),
        settle_pnl_limit_factor: v(src),
        settle_pnl_limit_window_size_ts: 1 + src.log(1 << 30),
        positive_pnl_liquidation_fee: v(src),
        platform_liquidation_fee: v(src),
    };
    let nm = fixed_text::<16>(&d.name);
    let now = w.now();
    let mut e = Box::new(PerpMarket::zeroed());
    e.group = w.group;
    e.settle_token_index = d.settle_token_index;
    e.perp_market_index = index;
    e.group_insurance_fund = d.group_insurance_fund as u8;
    e.bump = bump(w, &[b"PerpMarket", &index.to_le_bytes()]);
    e.base_decimals = d.base_decimals;
    e.name = nm.unwrap_or_default();
    e.bids = accs[0];
    e.asks = accs[1];
    e.event_queue = accs[2];
    e.oracle = oracle;
    e.oracle_config = OracleConfig { conf_filter: n(d.oracle_config.conf_filter), max_staleness_slots: d.oracle_config.max_staleness_slots.map(|x| x as i64).unwrap_or(-1), reserved: [0; 72] };
    e.stable_price_model = StablePriceModel::default();
    let p = f(w.s.get_account::<StubOracle>(oracle).price);
    e.stable_price_model.stable_price = p;
    e.stable_price_model.delay_prices = [p; 24];
    e.stable_price_model.last_update_timestamp = now;
    e.stable_price_model.reset_on_nonzero_price = 0;
    e.quote_lot_size = d.quote_lot_size;
    e.base_lot_size = d.base_lot_size;
    e.maint_base_asset_weight = n(d.maint_base_asset_weight);
    e.init_base_asset_weight = n(d.init_base_asset_weight);
    e.maint_base_liab_weight = n(d.maint_base_liab_weight);
    e.init_base_liab_weight = n(d.init_base_liab_weight);
    e.maint_overall_asset_weight = n(d.maint_overall_asset_weight);
    e.init_overall_asset_weight = n(d.init_overall_asset_weight);
    e.registration_time = now;
    e.funding_last_updated = now;
    e.min_funding = n(d.min_funding);
    e.max_funding = n(d.max_funding);
    e.impact_quantity = d.impact_quantity;
    e.base_liquidation_fee = n(d.base_liquidation_fee);
    e.maker_fee = n(d.maker_fee);
    e.taker_fee = n(d.taker_fee);
    e.fee_penalty = d.fee_penalty;
    e.settle_fee_flat = d.settle_fee_flat;
    e.settle_fee_amount_threshold = d.settle_fee_amount_threshold;
    e.settle_fee_fraction_low_health = d.settle_fee_fraction_low_health;
    e.settle_pnl_limit_factor = d.settle_pnl_limit_factor;
    e.settle_pnl_limit_window_size_ts = d.settle_pnl_limit_window_size_ts;
    e.positive_pnl_liquidation_fee = n(d.positive_pnl_liquidation_fee);
    e.platform_liquidation_fee = n(d.platform_liquidation_fee);
    let valid = nm.is_some() && used.is_none() && !exists(w, market);
    let exp = w.fork();
    let ix = raw(
        ma::PerpCreateMarket {
            group: w.group,
            admin: key(w, who),
            oracle,
            perp_market: market,
            bids: accs[0],
            asks: accs[1],
            event_queue: accs[2],
            payer: key(w, who),
            system_program: solana_program::system_program::id(),
        },
        d,
    );
    let ok = run(w, ix, key(w, who));
    case.note(|| format!("perp listing by {who:?} index {index} -> ok {ok} valid {valid} {}", w.fail_text()));
    ensure!(ok == (valid && who == Admin), "perp market listing by {who:?}: ok {ok}, valid {valid} ({})", w.fail_text());
    if ok {
        accept(w, &exp, &[market, accs[0], accs[1], accs[2]]);
        let m = w.s.get_account_boxed::<PerpMarket>(market);
        ensure!(bytemuck::bytes_of(&*m) == bytemuck::bytes_of(&*e), "listed perp market differs from its parameters: {m:?} expected {e:?}");
        for a in &accs[..2] {
            ensure!(typed::<BookSide>(w, *a), "book side has no type");
            ensure!(crate::bookmodel::read(&w.s.get_account_boxed::<BookSide>(*a))?.is_empty(), "new book side is not empty");
        }
        ensure!(typed::<EventQueue>(w, accs[2]), "event queue has no type");
        case.label("perp market listed");
    } else {
        case.label("listing refused");
    }
    case.nontrivial();
    match differ(w, &exp) {
        Some(d) => Err(format!("perp listing (ok {ok}): {d}")),
        None => Ok(()),
    }
}

fn add_bank(src: &mut Src, case: &mut Case, w: &World) -> Result<(), String> {
    let who = [Admin, Fast, Stranger][src.weighted(&[10, 1, 1])];
    let t = src.idx(5);
    let tk = w.tokens[t].clone();
    let info = w.s.get_account_boxed::<MintInfo>(tk.mint_info);
    let have = info.banks.iter().filter(|x| **x != Pubkey::default()).count();
    // what may have happened to the token since it was listed
    let ro = src.below(3) as u8;
    let fb = any_key(src);
    let sc = src.f(0.0, 1.0);
    let shift = src.bool();
    let fc = src.bool();
    let num_ = src.log(1 << 40) as i64;
    let now = w.now();
    let mut j = 0;
    w.edit_token(t, |b| {
        j += 1;
        b.reduce_only = ro;
        b.force_close = (ro > 0 && fc) as u8;
        b.fallback_oracle = fb;
        b.deposit_index = num(1e6 * (1.0 + sc));
        b.borrow_index = num(1e6 * (1.0 + 2.0 * sc));
        b.platform_liquidation_fee = num(sc);
        b.collateral_fee_per_day = sc as f32;
        b.disable_asset_liquidation = (ro > 0 && shift) as u8;
        b.force_withdraw = (ro == 1 && shift) as u8;
        b.deposit_limit = num_ as u64;
        b.zero_util_rate = num(sc / 2.0);
        b.tier = *b"B\0\0\0";
        b.interest_curve_scaling = 1.0 + sc;
        b.interest_target_utilization = sc as f32;
        b.deposit_weight_scale_start_quote = 1e9 * (1.0 + sc);
        b.borrow_weight_scale_start_quote = 1e8 * (1.0 + sc);
        b.flash_loan_swap_fee_rate = sc as f32;
        b.token_conditional_swap_taker_fee_rate = sc as f32 / 3.0;
        b.token_conditional_swap_maker_fee_rate = sc as f32 / 5.0;
        if shift {
            b.maint_weight_shift_start = now + 5;
            b.maint_weight_shift_end = now + 105;
            b.maint_weight_shift_asset_target = num(sc);
            b.maint_weight_shift_liab_target = num(1.0 + sc);
            b.maint_weight_shift_duration_inv = num(0.01);
        }
        b.indexed_deposits = num(num_ % 1000 + j);
        b.indexed_borrows = num(num_ % 77);
        b.net_borrows_in_window = num_;
        b.collected_fees_native = num(num_ % 99);
        b.collected_liquidation_fees = num(num_ % 33);
        b.collected_collateral_fees = num(num_ % 34);
        b.fees_withdrawn = num_ as u64;
        b.dust = num(0.5);
        b.potential_serum_tokens = num_ as u64 % 1234;
        b.avg_utilization = num(sc);
    });
    let n = if src.chance(85) { have as u32 } else { src.below(8) as u32 };
    let k = token_keys(w, tk.index, n, tk.mint.pubkey);
    let from = if src.bool() { tk.bank } else { tk.bank1 };
    let old = w.bank(from);
    let valid = n as usize == have && have < 6;
    let exp = w.fork();
    let ix = raw(
        ma::TokenAddBank {
            group: w.group,
            admin: key(w, who),
            mint: tk.mint.pubkey,
            existing_bank: from,
            bank: k.bank,
            vault: k.vault,
            mint_info: tk.mint_info,
            payer: key(w, who),
            token_program: TokenProgram::id_(),
            system_program: solana_program::system_program::id(),
            rent: solana_program::sysvar::rent::ID,
        },
        mi::TokenAddBank { token_index: tk.index, bank_num: n },
    );
    let ok = run(w, ix, key(w, who));
    case.note(|| format!("bank {n} for token {t} (has {have}) by {who:?} -> ok {ok} {}", w.fail_text()));
    ensure!(ok == (valid && who == Admin), "adding bank {n} to a token with {have} by {who:?}: ok {ok} ({})", w.fail_text());
    if ok {
        check_vault(w, k.vault, tk.mint.pubkey)?;
        // the same token with nothing in it
        let mut e = old.clone();
        e.vault = k.vault;
        e.bump = k.bump;
        e.bank_num = n;
        e.indexed_deposits = I80F48::ZERO;
        e.indexed_borrows = I80F48::ZERO;
        e.collected_fees_native = I80F48::ZERO;
        e.collected_liquidation_fees = I80F48::ZERO;
        e.collected_collateral_fees = I80F48::ZERO;
        e.fees_withdrawn = 0;
        e.dust = I80F48::ZERO;
        e.flash_loan_approved_amount = 0;
        e.flash_loan_token_account_initial = u64::MAX;
        e.net_borrows_in_window = 0;
        e.potential_serum_tokens = 0;
        let b = w.bank(k.bank);
        ensure!(bytemuck::bytes_of(&*b) == bytemuck::bytes_of(&*e), "added bank differs from the token's configuration: {b:?} expected {e:?}");
        let mut i2 = info.clone();
        i2.banks[have] = k.bank;
        i2.vaults[have] = k.vault;
        exp.s.set_account(tk.mint_info, &*i2);
        accept(w, &exp, &[k.bank, k.vault]);
        case.label("bank added");
    } else {
        case.label("bank refused");
    }
    case.nontrivial();
    match differ(w, &exp) {
        Some(d) => Err(format!("adding a bank (ok {ok}): {d}")),
        None => Ok(()),
    }
}

fn typed<T: anchor_lang::Discriminator>(w: &World, k: Pubkey) -> bool {
    w.s.sim.borrow().get(&k).map_or(false, |a| crate::props::access::is_type::<T>(a))
}

trait Id {
    fn id_() -> Pubkey;
}
impl Id for TokenProgram {
    fn id_() -> Pubkey {
        <TokenProgram as anchor_lang::Id>::id()
    }
}
