//! C15: token conditional swaps.
use super::gates::is_err;
use crate::ensure;
use crate::machine::Machine;
use crate::model::HT;
use crate::pbt::*;
use crate::pt::*;
use crate::world::*;
use anchor_lang::InstructionData;
use mango_v4::error::MangoError;
use mango_v4::instruction as ix;
use mango_v4::state::*;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "`swap`: random banks, balances, swap fee rates, reduce-only states and prices; random sequences of creating (all four instructions), starting, triggering and cancelling conditional swaps with price and clock moves and transfers; acceptance, amounts, fees, balances, counters, closing and slots compared with an independent computation. Non-trivial: a swap was triggered for a non-zero amount or an auction was started",
        assumptions: &["cases within rounding of an acceptance or closing threshold are not judged", "net borrow and deposit limits are decided by C04"],
        suites: vec![Suite { name: "swap", quick: 25_000, thorough: 1_000_000, f: swap }],
    }
}

/// floor(x * p)
fn mul(x: u64, p: f64) -> u64 {
    let r = (x as u128).saturating_mul(num(p).to_bits() as u128) >> 48;
    r.min(u64::MAX as u128) as u64
}
/// x * p is so close to a whole number that the last bits of p decide
fn edge(x: u64, p: f64) -> bool {
    let v = (x as u128).saturating_mul(num(p).to_bits() as u128);
    let r = (v & ((1 << 48) - 1)) as f64;
    r != 0.0 && r.min((1u64 << 48) as f64 - r) < x as f64 + 2.0 + v as f64 / (1u64 << 50) as f64
}
/// largest trade at `p` sell tokens per buy token, and whether the last bits of p decide
fn trade(mb: u64, ms: u64, p: f64) -> (u64, u64, bool) {
    let pb = num(p).to_bits() as u128;
    if pb == 0 {
        return (0, 0, true);
    }
    let one = 1u128 << 48;
    let b = if p > 1.0 {
        // the most that can be bought for the sell tokens
        ((((ms as u128 + 1) << 48) + pb - 1) / pb - 1).min(mb as u128) as u64
    } else {
        // the least that has to be bought to sell as much as possible
        let s = mul(mb, p).min(ms) as u128;
        ((s * one + pb - 1) / pb).min(mb as u128) as u64
    };
    (b, mul(b, p).min(ms), edge(b, p) || edge(b.saturating_add(1), p) || edge(b.saturating_sub(1), p) || p <= 1.0 && edge(mb, p))
}

fn legs(acc: &MangoAccountValue, t: u16) -> i64 {
    acc.all_token_conditional_swaps()
        .filter(|c| c.is_configured())
        .map(|c| (c.buy_token_index == t) as i64 + (c.sell_token_index == t) as i64)
        .sum()
}
fn in_use(acc: &MangoAccountValue, t: u16) -> i64 {
    acc.token_position(t).map(|p| p.in_use_count as i64).unwrap_or(0)
}

struct Want {
    /// balance changes: account, token, native amount
    bal: Vec<(usize, usize, f64)>,
    fees: Vec<(usize, f64)>,
}

fn check_balances(w: &World, b: &Snap, n: &Snap, want: &Want) -> Result<(), String> {
    let _ = w;
    for a in 0..N_ACC {
        for t in 0..5 {
            let d: f64 = want.bal.iter().filter(|x| x.0 == a && x.1 == t).map(|x| x.2).sum();
            let touched = want.bal.iter().any(|x| x.0 == a && x.1 == t);
            let (x, y) = (b.pos(a, t), n.pos(a, t));
            let e = x + d;
            if !touched {
                ensure!(x == y || (y == 0.0 && x.abs() < 1.0), "balance of {t} of acc {a} went from {x} to {y}, unrelated");
                continue;
            }
            let tol = 1e-6 + 1e-9 * (x.abs() + y.abs());
            ensure!((y - e).abs() <= tol || (y == 0.0 && e > -tol && e < 1.0), "balance of {t} of acc {a} went from {x} to {y}, expected {e}");
        }
    }
    for t in 0..5 {
        let d: f64 = want.fees.iter().filter(|x| x.0 == t).map(|x| x.1).sum();
        let (x, y) = (b.fees(t), n.fees(t));
        ensure!((y - x - d).abs() <= 1e-6 + 1e-9 * (x.abs() + y.abs()), "fees of {t} went from {x} to {y}, expected a change of {d}");
        ensure!(b.vaults(t) == n.vaults(t), "vaults of {t} changed");
    }
    Ok(())
}

fn loan_fee(b: &Snap, a: usize, t: usize, amount: f64) -> f64 {
    (amount - b.pos(a, t).max(0.0)).max(0.0) * f(b.b(t, 0).loan_origination_fee_rate)
}

fn swap(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &[]);
    let w = &m.w;
    // sometimes a price level at which a native token is worth little
    if src.chance(30) {
        let t = src.idx(5);
        let p = src.flog(1e-5, 1e4);
        w.set_price(t, p, Some(p));
    }
    for t in 0..5 {
        let (ro, fa) = (src.pick(&[0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2]), src.chance(15));
        let lim = src.log_range(1_000, 1_000_000_000_000);
        w.edit_token(t, |b| {
            b.reduce_only = ro;
            if fa {
                b.deposit_limit = (f(b.native_deposits()) as u64).saturating_add(lim);
            }
        });
    }
    let s0 = w.snap();
    let base: Vec<Vec<i64>> = (0..N_ACC).map(|a| (0..5).map(|t| in_use(&s0.accs[a], t) - legs(&s0.accs[a], t)).collect()).collect();
    let mut refs: Vec<Vec<TokenConditionalSwap>> = s0.accs.iter().map(|a| a.all_token_conditional_swaps().cloned().collect()).collect();
    let mut next: Vec<u64> = s0.accs.iter().map(|a| a.fixed.next_token_conditional_swap_id).collect();
    let mut b = s0;
    let steps = 4 + src.below(14);
    for _ in 0..steps {
        let a = 1 + src.idx(3);
        let now = b.now;
        let what;
        let mut want = Want { bal: vec![], fees: vec![] };
        let any = refs[1..4].iter().any(|r| r.iter().any(|t| t.is_configured()));
        let k = src.weighted(&[22, if any { 30 } else { 0 }, if any { 14 } else { 0 }, 6, 6, 4, 4]);
        match k {
            0 => {
                let kind = src.idx(4);
                let (bt, mut st) = (src.idx(5), src.idx(5));
                let held: Vec<usize> = (0..5).filter(|t| *t != bt && b.pos(a, *t) > 10.0).collect();
                if !held.is_empty() && src.chance(70) {
                    st = src.pick(&held);
                }
                let bt = if bt == st && src.chance(90) { (bt + 1) % 5 } else { bt };
                let fair = b.tok_price[bt] / b.tok_price[st];
                let (vb, vs) = (src.log_range(1_000, 10_000_000_000) as f64, src.log_range(1_000, 10_000_000_000) as f64);
                let (d1, d2, d3, d4, d5) = (src.log(1000), src.log(1000), src.below(3000), src.below(2000), src.below(2000));
                let max_buy = src.pick(&[(vb / b.tok_price[bt]) as u64, u64::MAX, (vb / b.tok_price[bt]) as u64, d1]);
                let max_sell = src.pick(&[(vs / b.tok_price[st]) as u64, u64::MAX, (vs / b.tok_price[st]) as u64, d2]);
                let expiry = src.pick(&[u64::MAX, u64::MAX, u64::MAX, u64::MAX, now + d3, now + d3, now, now + 1]);
                let lo = fair * src.pick(&[0.5, 0.0, 0.98, 1.01, 1.0]);
                let hi = fair * src.pick(&[2.0, 1e9, 1.02, 0.99, 1.0]) * src.pick(&[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, -1.0]);
                let prem = src.pick(&[0.0, 0.01, 0.03, 0.1, 0.02, 1.5, -0.01]);
                let (dep, bor) = (src.chance(88), src.chance(75));
                let (start, dur) = (src.pick(&[now, now + d4, now.saturating_sub(d5), 0]), src.pick(&[1u64, 600, 10_000, 0]));
                let mut c = TokenConditionalSwapCreateInstruction {
                    account: w.accs[a].key,
                    owner: w.accs[a].owner,
                    buy_mint: w.tokens[bt].mint.pubkey,
                    sell_mint: w.tokens[st].mint.pubkey,
                    max_buy, max_sell,
                    price_lower_limit: lo,
                    price_upper_limit: hi,
                    price_premium_rate: prem,
                    allow_creating_deposits: dep,
                    allow_creating_borrows: bor,
                }.to_instruction(&*w.s).1;
                let style = src.pick(&[TokenConditionalSwapDisplayPriceStyle::SellTokenPerBuyToken, TokenConditionalSwapDisplayPriceStyle::BuyTokenPerSellToken]);
                let intent = src.pick(&[TokenConditionalSwapIntention::Unknown, TokenConditionalSwapIntention::StopLoss, TokenConditionalSwapIntention::TakeProfit]);
                let mut e = TokenConditionalSwap { max_buy, max_sell, expiry_timestamp: expiry, price_lower_limit: lo, price_upper_limit: hi, price_premium_rate: prem,
                    buy_token_index: bt as u16, sell_token_index: st as u16, is_configured: 1, allow_creating_deposits: dep as u8, allow_creating_borrows: bor as u8, ..Default::default() };
                c.data = match kind {
                    0 => ix::TokenConditionalSwapCreate { max_buy, max_sell, expiry_timestamp: expiry, price_lower_limit: lo, price_upper_limit: hi, price_premium_rate: prem,
                        allow_creating_deposits: dep, allow_creating_borrows: bor }.data(),
                    1 => {
                        e.display_price_style = style.into();
                        e.intention = intent.into();
                        ix::TokenConditionalSwapCreateV2 { max_buy, max_sell, expiry_timestamp: expiry, price_lower_limit: lo, price_upper_limit: hi, price_premium_rate: prem,
                            allow_creating_deposits: dep, allow_creating_borrows: bor, display_price_style: style, intention: intent }.data()
                    }
                    2 => {
                        e.display_price_style = style.into();
                        e.intention = intent.into();
                        e.duration_seconds = dur;
                        e.tcs_type = 1;
                        ix::TokenConditionalSwapCreatePremiumAuction { max_buy, max_sell, expiry_timestamp: expiry, price_lower_limit: lo, price_upper_limit: hi, max_price_premium_rate: prem,
                            allow_creating_deposits: dep, allow_creating_borrows: bor, display_price_style: style, intention: intent, duration_seconds: dur }.data()
                    }
                    _ => {
                        e.display_price_style = style.into();
                        e.price_premium_rate = 0.0;
                        e.start_timestamp = start;
                        e.duration_seconds = dur;
                        e.tcs_type = 2;
                        ix::TokenConditionalSwapCreateLinearAuction { max_buy, max_sell, expiry_timestamp: expiry, price_start: lo, price_end: hi,
                            allow_creating_deposits: dep, allow_creating_borrows: bor, display_price_style: style, start_timestamp: start, duration_seconds: dur }.data()
                    }
                };
                what = format!("create kind {kind} acc {a} buy {max_buy} of {bt} sell {max_sell} of {st} {lo}..{hi} premium {prem} start {start} duration {dur} expiry {expiry}");
                let ok = w.ok_raw(c, &[w.accs[a].owner]);
                let vol = (b.b(bt, 0).stable_price_model.stable_price * max_buy as f64).min(b.b(st, 0).stable_price_model.stable_price * max_sell as f64);
                if kind == 3 && (vol - 10_000.0).abs() < 1.5 {
                    refs_reload(w, &mut refs, &mut next);
                    b = w.snap();
                    continue;
                }
                let bad = (kind >= 2 && dur == 0) || (kind == 3 && vol < 10_000.0);
                let free = refs[a].iter().position(|t| !t.is_configured());
                if bad {
                    ensure!(!ok, "accepted {what}");
                } else if now >= expiry {
                    ensure!(ok, "an expired swap is not ignored: {what}: {}", w.fail_text());
                } else {
                    let good = bt != st && e.price_premium_rate >= 0.0 && lo >= 0.0 && hi >= 0.0 && free.is_some();
                    ensure!(ok == good, "accepted: {ok}, expected {good}: {what}: {}", w.fail_text());
                    if ok {
                        e.id = next[a];
                        next[a] = next[a].wrapping_add(1);
                        let (x, y) = (b.b(bt, 0), b.b(st, 0));
                        e.taker_fee_rate = x.token_conditional_swap_taker_fee_rate.max(y.token_conditional_swap_taker_fee_rate);
                        e.maker_fee_rate = x.token_conditional_swap_maker_fee_rate.max(y.token_conditional_swap_maker_fee_rate);
                        refs[a][free.unwrap()] = e;
                        case.label(["created", "created v2", "created premium auction", "created linear auction"][kind]);
                    }
                }
            }
            1 | 2 => {
                // trigger or start
                let v: Vec<(usize, usize)> = (1..4).flat_map(|a| (0..refs[a].len()).map(move |i| (a, i))).filter(|(a, i)| refs[*a][*i].is_configured()).collect();
                let (a, i) = src.pick(&v);
                let mut lq = src.pick(&[LIQOR, LIQOR, 1, 2, 3]);
                if lq == a {
                    lq = LIQOR;
                }
                let t = refs[a][i].clone();
                let (bt, st) = (t.buy_token_index as usize, t.sell_token_index as usize);
                let price = b.tok_price[bt] / b.tok_price[st];
                // sometimes the price moves to where it is triggered
                if src.chance(30) && t.price_upper_limit > t.price_lower_limit && t.price_upper_limit < 1e6 * price {
                    let p = (t.price_lower_limit + t.price_upper_limit) * 0.5 * b.tok_price[st];
                    if p > 1e-6 && p < 1e7 {
                        w.set_price(bt, p, Some(p * src.pick(&[1.0, 1.0, 1.02])));
                    }
                    b = w.snap();
                    case.note(|| format!("price of {bt} set to {}", b.tok_price[bt]));
                }
                let price = b.tok_price[bt] / b.tok_price[st];
                let inr = price >= t.price_lower_limit && price <= t.price_upper_limit;
                let inr_near = close(price, t.price_lower_limit, 1e-9, 0.0) || close(price, t.price_upper_limit, 1e-9, 0.0);
                let expired = now >= t.expiry_timestamp;
                let started = t.start_timestamp > 0 && now >= t.start_timestamp;
                let (he, hl) = (w.health(&b, a), w.health(&b, lq));
                let blocked = b.accs[a].being_liquidated() && he.health(HT::Init).max(he.health(HT::LiqEnd)) < -he.tol();
                let wrong_id = src.chance(3);
                let id = if wrong_id { t.id.wrapping_add(1) } else { t.id };
                if k == 2 {
                    let mut c = TokenConditionalSwapStartInstruction { liqee: w.accs[a].key, liqor: w.accs[lq].key, liqor_owner: w.accs[lq].owner, index: i as u8 }.to_instruction(&*w.s).1;
                    c.data = ix::TokenConditionalSwapStart { token_conditional_swap_index: i as u8, token_conditional_swap_id: id }.data();
                    what = format!("start acc {a} slot {i} type {} by {lq} price {price}", t.tcs_type);
                    let ok = w.ok_raw(c, &[w.accs[lq].owner]);
                    let err = w.fail_text();
                    let n = w.snap();
                    let must = !wrong_id && t.tcs_type == 1 && !expired && t.start_timestamp == 0 && inr && !b.accs[a].being_liquidated();
                    ensure!(!ok || must || inr_near, "started: {what}");
                    let cap = (1000.0 / b.tok_price[st]).min((t.max_sell - t.sold) as f64);
                    let room = room(b.b(st, 0));
                    let x = room.min(cap).max(0.0);
                    let tight = room < cap + 1.0;
                    let fee = loan_fee(&b, a, st, x);
                    let after = b.pos(a, st) - x - fee;
                    if ok {
                        case.nontrivial();
                        case.label("started");
                        let x = if tight { f(n.posx(lq, st) - b.posx(lq, st)) } else { x };
                        ensure!(x <= cap + 1e-6 + 1e-9 * b.pos(lq, st).abs(), "incentive of {x} when {cap} is due: {what}");
                        let fee = loan_fee(&b, a, st, x);
                        want.bal.push((a, st, -x - fee));
                        want.bal.push((lq, st, x));
                        want.fees.push((st, fee));
                        ensure!(after >= -1e-6 || t.allow_creating_borrows == 1, "the start incentive created a borrow: {what}");
                        let hn = w.health(&n, a);
                        let (pre, post) = (he.health(HT::Init), hn.health(HT::Init));
                        ensure!(post >= -hn.tol() || post >= pre - 1.0 - hn.tol(), "init health went from {pre} to {post}: {what}");
                        let r = &mut refs[a][i];
                        r.start_timestamp = now;
                        let got = n.accs[a].token_conditional_swap_by_index(i).unwrap().sold;
                        ensure!(got as f64 >= t.sold as f64 + x - 1.0 - 1e-6 && got as f64 <= t.sold as f64 + x + 1e-6, "sold went from {} to {got} with an incentive of {x}: {what}", t.sold);
                        r.sold = got;
                    } else if must && !inr_near {
                        let code_ok = if is_err(&err, MangoError::TokenConditionalSwapCantPayIncentive) {
                            t.allow_creating_borrows == 0 && after < 1e-6
                        } else if is_err(&err, MangoError::HealthMustBePositiveOrIncrease) {
                            let (pre, tol) = (he.health(HT::Init), he.tol());
                            pre < 1000.0 * 10.0 + tol
                        } else {
                            // limits of the sell token
                            is_err(&err, MangoError::TokenInReduceOnlyMode) && b.b(st, 0).reduce_only > 0
                                || is_err(&err, MangoError::BankDepositLimit) && b.b(st, 0).deposit_limit > 0
                        };
                        ensure!(code_ok, "start refused: {what}: {err}");
                    }
                } else {
                    let big = src.chance(40);
                    let mut amt = |p: f64| if big { u64::MAX } else { (src.log_range(1, 100_000_000_000) as f64 / p).ceil() as u64 };
                    let (mb, ms) = (amt(b.tok_price[bt]), amt(b.tok_price[st]));
                    let v2 = src.bool();
                    // the price offered
                    let prem = match t.tcs_type {
                        0 => price * (1.0 + t.price_premium_rate),
                        1 => {
                            let s0 = if t.start_timestamp > 0 { t.start_timestamp } else { now };
                            price * (1.0 + ((now - s0.min(now)) as f64 / t.duration_seconds as f64).min(1.0) * t.price_premium_rate)
                        }
                        _ => {
                            let q = ((now - t.start_timestamp.min(now)) as f64 / t.duration_seconds as f64).min(1.0);
                            if q >= 1.0 { t.price_upper_limit } else { t.price_lower_limit + q * (t.price_upper_limit - t.price_lower_limit) }
                        }
                    };
                    let maker = prem * (1.0 + t.maker_fee_rate as f64);
                    let taker = prem * (1.0 - t.taker_fee_rate as f64);
                    let d = src.log(1_000_000);
                    let min_buy = if v2 { src.pick(&[0, 0, 0, 1, d]) } else { 0 };
                    let min_price = if v2 { src.pick(&[0.0, 0.0, 0.99 * taker, 1.01 * taker]) as f32 } else { 0.0 };
                    let mut c = TokenConditionalSwapTriggerInstruction { liqee: w.accs[a].key, liqor: w.accs[lq].key, liqor_owner: w.accs[lq].owner, index: i as u8,
                        max_buy_token_to_liqee: mb, max_sell_token_to_liqor: ms, min_buy_token: min_buy, min_taker_price: min_price }.to_instruction(&*w.s).1;
                    c.data = if v2 {
                        ix::TokenConditionalSwapTriggerV2 { token_conditional_swap_index: i as u8, token_conditional_swap_id: id, max_buy_token_to_liqee: mb, max_sell_token_to_liqor: ms, min_buy_token: min_buy, min_taker_price: min_price }.data()
                    } else {
                        ix::TokenConditionalSwapTrigger { token_conditional_swap_index: i as u8, token_conditional_swap_id: id, max_buy_token_to_liqee: mb, max_sell_token_to_liqor: ms }.data()
                    };
                    what = format!("trigger acc {a} slot {i} type {} by {lq} buy {mb} sell {ms} at oracle {price} maker {maker} taker {taker} min {min_buy} at {min_price}", t.tcs_type);
                    // what should be traded
                    let (pb, ps, lb, ls) = (b.pos(a, bt), b.pos(a, st), b.pos(lq, bt), b.pos(lq, st));
                    let (bb, sb) = (b.b(bt, 0), b.b(st, 0));
                    let limits = |t: &TokenConditionalSwap, pb: f64, ps: f64| {
                        let mut x = t.max_buy - t.bought;
                        if t.allow_creating_deposits == 0 || bb.reduce_only == 1 {
                            x = x.min((-pb).ceil().max(0.0) as u64);
                        }
                        let mut y = t.max_sell - t.sold;
                        if t.allow_creating_borrows == 0 || sb.reduce_only > 0 {
                            y = y.min(ps.floor().max(0.0) as u64);
                        }
                        (x, y)
                    };
                    let (x, y) = limits(&t, pb, ps);
                    let x = x.min(mb).min(if bb.reduce_only > 0 { lb.floor().max(0.0) as u64 } else { u64::MAX });
                    let y = y.min(ms).min(if sb.reduce_only == 1 { (-ls).ceil().max(0.0) as u64 } else { u64::MAX });
                    // balances within rounding of a whole unit
                    let frac = |v: f64| (v - v.round()).abs() < 1e-6 + 1e-9 * v.abs();
                    let fuzzy = frac(pb) && pb != 0.0 || frac(ps) && ps != 0.0 || frac(lb) && lb != 0.0 || frac(ls) && ls != 0.0;
                    let (eb, es, near) = trade(x, y, maker);
                    let sell0 = mul(eb, prem);
                    let near = near || edge(eb, prem);
                    let tfee = mul(sell0, t.taker_fee_rate as f64);
                    let ok = w.ok_raw(c, &[w.accs[lq].owner]);
                    let err = w.fail_text();
                    let n = w.snap();
                    let can = if t.tcs_type == 0 { inr } else { started };
                    if wrong_id {
                        ensure!(!ok, "triggered with another id: {what}");
                    } else if expired {
                        if min_buy > 0 || b.accs[lq].being_liquidated() {
                            ensure!(!ok, "an expired swap was triggered: {what}");
                        } else {
                            ensure!(ok, "an expired swap can not be removed: {what}: {err}");
                            refs[a][i] = TokenConditionalSwap::default();
                            case.label("expired");
                        }
                    } else if ok {
                        ensure!(can || (inr_near && t.tcs_type == 0), "triggered: {what}");
                        ensure!(!b.accs[lq].being_liquidated(), "triggered by an account in liquidation: {what}");
                        ensure!(!blocked, "triggered on an account in liquidation: {what}");
                        ensure!(taker >= min_price as f64 * (1.0 - 1e-9), "taker price {taker}: {what}");
                        let r = n.accs[a].token_conditional_swap_by_index(i).unwrap();
                        let closed = !r.is_configured();
                        // amounts: from the counters, or the balances when it was closed
                        let (gb, gs) = if closed {
                            (n.pos(a, bt) - pb, ps - n.pos(a, st))
                        } else {
                            ((r.bought - t.bought) as f64, (r.sold - t.sold) as f64)
                        };
                        let fee = loan_fee(&b, a, st, es as f64);
                        if !near && !fuzzy {
                            let tol = if closed { 1.0 + 1e-6 + 1e-9 * (pb.abs() + ps.abs()) + fee } else { 0.0 };
                            ensure!((gb - eb as f64).abs() <= tol && (gs - es as f64).abs() <= tol, "traded {gb} for {gs}, expected {eb} for {es}: {what}");
                        }
                        // hold whatever the rounding
                        if !closed {
                            let (gb, gs) = (r.bought - t.bought, r.sold - t.sold);
                            ensure!(gb <= x.saturating_add(fuzzy as u64) && gs <= y.saturating_add(fuzzy as u64), "traded {gb} for {gs} with limits {x}, {y}: {what}");
                            ensure!((gb == 0) == (gs == 0), "traded {gb} for {gs}: {what}");
                            ensure!(gs as f64 <= gb as f64 * (maker * (1.0 + 1e-12) + 4e-15) + 1e-9, "paid {gs} for {gb} with price {maker}: {what}");
                        }
                        ensure!(eb >= min_buy || near || fuzzy, "bought less than the minimum: {what}");
                        if !near && !fuzzy {
                            let lfee = loan_fee(&b, lq, bt, eb as f64);
                            want.bal.push((a, bt, eb as f64));
                            want.bal.push((a, st, -(es as f64) - fee));
                            want.bal.push((lq, bt, -(eb as f64) - lfee));
                            want.bal.push((lq, st, sell0 as f64 - tfee as f64));
                            want.fees.push((st, fee + (es - sell0 + tfee) as f64));
                            want.fees.push((bt, lfee));
                        }
                        let (hn, hln) = (w.health(&n, a), w.health(&n, lq));
                        let (pre, post) = (he.health(HT::Init), hn.health(HT::Init));
                        // closing may dust positions below one unit
                        let dust = if closed { 2.0 * (b.tok_price[bt] + b.tok_price[st]) } else { 0.0 };
                        let tol = he.tol() + hn.tol() + dust;
                        ensure!(post >= -tol || post >= pre - 1.0 - tol, "init health of the liqee went from {pre} to {post}: {what}");
                        ensure!(hln.health(HT::Init) >= -hln.tol(), "init health of the liqor is {}: {what}", hln.health(HT::Init));
                        // does it stay open?
                        let mut q = t.clone();
                        if !near && !fuzzy {
                            q.bought += eb;
                            q.sold += es;
                            if !started {
                                q.start_timestamp = now;
                            }
                            let (pb2, ps2) = (pb + eb as f64, ps - es as f64 - fee);
                            let (x, y) = limits(&q, pb2, ps2);
                            let (fbuy, fsell, n2) = trade(x, y, maker);
                            let smallest = if maker > 1.0 { fsell < 2 * (maker as u64) } else { fbuy < 2 * ((1.0 / maker) as u64) };
                            let few = if maker > 1.0 { fsell.abs_diff(2 * (maker as u64)) <= 2 } else { fbuy.abs_diff(2 * ((1.0 / maker) as u64)) <= 2 };
                            let low = post < pre && post < 1e6;
                            let unclear = n2 || few || frac(pb2) || frac(ps2) || (post - 1e6).abs() < 2.0 + tol && post < pre + tol || (post - pre).abs() <= tol && post < 1e6 + tol;
                            let done = fbuy == 0 || fsell == 0 || low || smallest;
                            let sure = fbuy == 0 && x == 0 || fsell == 0 && y == 0 || low && pre - post > tol && post < 1e6 - tol;
                            if !unclear || sure {
                                ensure!(done == closed, "closed: {closed}, expected {done} (can buy {fbuy} for {fsell}, health {pre} -> {post}): {what}");
                            }
                        } else {
                            q.bought = r.bought;
                            q.sold = r.sold;
                            q.start_timestamp = if started { t.start_timestamp } else { now };
                        }
                        refs[a][i] = if closed { TokenConditionalSwap::default() } else { q };
                        if eb > 0 {
                            case.nontrivial();
                            case.label(["traded", "traded premium auction", "traded linear auction"][t.tcs_type as usize]);
                        } else {
                            case.label(if x == 0 { "nothing to buy" } else if y == 0 { "nothing to sell" } else { "less than one unit" });
                        }
                        if closed {
                            case.label("closed");
                        }
                        if tfee > 0 || es > sell0 {
                            case.label("swap fees");
                        }
                        if near || fuzzy {
                            // the balances are not judged, the rest is
                            want.bal.clear();
                            b = n;
                            inv(&b, &refs, &next, &base).map_err(|e| format!("{e} after {what}"))?;
                            continue;
                        }
                    } else if can && !inr_near {
                        let bl = he.tol() + 2.0;
                        let just = if is_err(&err, MangoError::BeingLiquidated) {
                            b.accs[lq].being_liquidated() || b.accs[a].being_liquidated() && he.health(HT::LiqEnd) < bl
                        } else if is_err(&err, MangoError::TokenConditionalSwapTakerPriceTooLow) {
                            taker < min_price as f64 * (1.0 + 1e-9)
                        } else if is_err(&err, MangoError::TokenConditionalSwapMinBuyTokenNotReached) {
                            eb < min_buy || near || fuzzy
                        } else if is_err(&err, MangoError::HealthMustBePositive) {
                            // the liqor's health after the swap
                            let mut h = hl.clone();
                            adj(&mut h, bt, -(eb as f64) - loan_fee(&b, lq, bt, eb as f64));
                            adj(&mut h, st, sell0 as f64 - tfee as f64);
                            near || fuzzy || missing(&h, bt, st) || h.health(HT::Init) < (2.0 + h.tol())
                        } else if is_err(&err, MangoError::HealthMustBePositiveOrIncrease) {
                            let mut h = he.clone();
                            adj(&mut h, bt, eb as f64);
                            adj(&mut h, st, -(es as f64) - loan_fee(&b, a, st, es as f64));
                            near || fuzzy || h.health(HT::Init) < (2.0 + h.tol()).min(he.health(HT::Init) + (2.0 + h.tol()))
                        } else if is_err(&err, MangoError::TokenInReduceOnlyMode) {
                            // fractions of a unit may push a balance over zero
                            bb.reduce_only > 0 || sb.reduce_only > 0
                        } else if is_err(&err, MangoError::BankDepositLimit) {
                            bb.deposit_limit > 0 || sb.deposit_limit > 0
                        } else if w.panicked().is_some() {
                            // numbers out of range only
                            maker < 1e-9 || eb as f64 > 1e18 || es as f64 > 1e18 || near
                                || eb as f64 * b.tok_price[bt].max(1.0) > 1e14 || es as f64 * b.tok_price[st].max(1.0) > 1e14
                        } else {
                            false
                        };
                        ensure!(just, "trigger refused: {what}: {err} (would buy {eb} for {es}, liqee health {}, liqor {})", he.health(HT::Init), hl.health(HT::Init));
                        case.label("refused");
                    }
                }
            }
            3 => {
                // cancel, also of slots that are not in use
                let i = src.idx(refs[a].len());
                let t = refs[a][i].clone();
                let wrong = src.chance(15);
                let id = if wrong { t.id.wrapping_add(1) } else { t.id };
                let (bt, st) = if t.is_configured() && src.chance(90) { (t.buy_token_index as usize, t.sell_token_index as usize) } else { (src.idx(5), src.idx(5)) };
                let mut c = TokenConditionalSwapCreateInstruction { account: w.accs[a].key, owner: w.accs[a].owner, buy_mint: w.tokens[bt].mint.pubkey, sell_mint: w.tokens[st].mint.pubkey,
                    max_buy: 0, max_sell: 0, price_lower_limit: 0.0, price_upper_limit: 0.0, price_premium_rate: 0.0, allow_creating_deposits: false, allow_creating_borrows: false }.to_instruction(&*w.s).1;
                for k in 3..5 {
                    c.accounts[k].is_writable = true;
                }
                c.data = ix::TokenConditionalSwapCancel { token_conditional_swap_index: i as u8, token_conditional_swap_id: id }.data();
                what = format!("cancel acc {a} slot {i} in use {} wrong id {wrong} {bt} {st}", t.is_configured());
                let ok = w.ok_raw(c, &[w.accs[a].owner]);
                if !t.is_configured() {
                    // the same bank can not be passed twice
                    ensure!(ok || bt == st, "cancelling an empty slot is not ignored: {what}: {}", w.fail_text());
                } else {
                    let good = !wrong && bt == t.buy_token_index as usize && st == t.sell_token_index as usize;
                    ensure!(ok == good, "cancelled: {ok}: {what}: {}", w.fail_text());
                    if ok {
                        refs[a][i] = TokenConditionalSwap::default();
                        case.label("cancelled");
                    }
                }
            }
            4 => {
                let dt = src.pick(&[1u64, 10, 300, 1000, 10_000]);
                w.advance(dt);
                what = format!("{dt} seconds");
            }
            5 => {
                let t = src.idx(5);
                let p = b.tok_price[t] * src.pick(&[0.5, 0.9, 0.99, 1.01, 1.1, 2.0]);
                w.set_price(t, p, Some(p * src.pick(&[1.0, 1.05])));
                what = format!("price of {t} {p}");
            }
            _ => {
                // balances move close to zero, to a borrow, or up
                let t = src.idx(5);
                let p = b.pos(a, t);
                let x = src.pick(&[-p, -p + 0.4, -p - 0.4, -p - 3.0, 1e9, (1e9 / b.tok_price[t]).floor(), -(1e6 / b.tok_price[t]).floor()]);
                let x = if (p + x).abs() > 1e15 { 0.0 } else { x };
                if b.accs[a].token_position(t as u16).is_ok() || x > 0.0 {
                    w.grant(a, t, 0, x);
                }
                what = format!("grant acc {a} {x} of {t}");
                case.note(|| what.clone());
                b = w.snap();
                continue;
            }
        }
        case.note(|| format!("{what}: {}", w.fail_text()));
        let n = w.snap();
        if k < 4 {
            check_balances(w, &b, &n, &want).map_err(|e| format!("{e} after {what}"))?;
        }
        inv(&n, &refs, &next, &base).map_err(|e| format!("{e} after {what}"))?;
        b = n;
    }
    Ok(())
}

fn adj(h: &mut crate::model::Health, t: usize, x: f64) {
    for k in h.toks.iter_mut() {
        if k.idx == t as u16 {
            k.bal += x;
        }
    }
}
fn missing(h: &crate::model::Health, bt: usize, st: usize) -> bool {
    [bt, st].iter().any(|t| !h.toks.iter().any(|k| k.idx == *t as u16))
}
fn room(b: &Bank) -> f64 {
    if b.deposit_limit == 0 {
        return f64::INFINITY;
    }
    b.deposit_limit as f64 - b.potential_serum_tokens as f64 - f(b.native_deposits())
}
fn refs_reload(w: &World, refs: &mut Vec<Vec<TokenConditionalSwap>>, next: &mut Vec<u64>) {
    for a in 0..N_ACC {
        let acc = w.acc(a);
        refs[a] = acc.all_token_conditional_swaps().cloned().collect();
        next[a] = acc.fixed.next_token_conditional_swap_id;
    }
}

fn inv(n: &Snap, refs: &[Vec<TokenConditionalSwap>], next: &[u64], base: &[Vec<i64>]) -> Result<(), String> {
    for a in 0..N_ACC {
        let acc = &n.accs[a];
        for (i, t) in acc.all_token_conditional_swaps().enumerate() {
            ensure!(*t == refs[a][i], "slot {i} of acc {a} holds {t:?}, expected {:?}", refs[a][i]);
            ensure!(t.bought <= t.max_buy && t.sold <= t.max_sell, "more than the maximum was traded: {t:?}");
        }
        ensure!(acc.fixed.next_token_conditional_swap_id == next[a], "next id of acc {a}");
        for t in 0..5u16 {
            let (u, l) = (in_use(acc, t), legs(acc, t));
            ensure!(u == l + base[a][t as usize], "token {t} of acc {a} is marked in use {u} times, by {l} swaps and {} others", base[a][t as usize]);
            if l > 0 {
                ensure!(acc.token_position(t).is_ok(), "token {t} of acc {a} has no position");
            }
        }
    }
    Ok(())
}
