//! C21: spot (serum3) orders: what they move, owe, reserve and may do.
use crate::dex;
use crate::ensure;
use crate::pbt::{Case, Prop, Src, Suite};
use crate::pt::*;
use crate::txgen::disc;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::accounts_ix::{Serum3OrderType, Serum3SelfTradeBehavior, Serum3Side};
use mango_v4::health::HealthType;
use mango_v4::state::*;
use serum_dex::state::OpenOrders;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "`history`: up to 30 spot order placements (both sides, all types and self trade modes, old and new instruction), cancels, event consumption, settlements, forced cancels, deposits and withdrawals of four accounts on two markets that share a token, with limits and modes changing in between; after every step every position, tracked loan, fee, vault, bank total and order bound is compared with the prediction from what the exchange did, and each refused placement is repeated on a copy without limits, on which a reason must be found. `banks`: the same with a token's second bank used in between. Non-trivial: at least one order was placed",
        assumptions: &["the external exchange behaves like the stand-in (fund locking, matching, fees, rebates, event queue as published)"],
        suites: vec![
            Suite { name: "history", quick: 12_000, thorough: 600_000, f: history },
            Suite { name: "banks", quick: 1_000, thorough: 40_000, f: banks },
        ],
    }
}

type Nb = [usize; 5];
const SPOT_ACCS: [usize; 4] = [1, 2, 3, 5];

fn oo(w: &World, acc: &MangoAccountValue, sp: usize) -> Option<OpenOrders> {
    let o = acc.serum3_orders(sp as u16).ok()?;
    Some(load_open_orders(&w.s, o.open_orders))
}
fn rebank(w: &World, nb: &Nb, ix: &mut Instruction) {
    for m in ix.accounts.iter_mut() {
        for (t, tok) in w.tokens.iter().enumerate() {
            if nb[t] == 1 {
                if m.pubkey == tok.bank {
                    m.pubkey = tok.bank1;
                } else if m.pubkey == w.bank(tok.bank).vault {
                    m.pubkey = w.bank(tok.bank1).vault;
                }
            }
        }
    }
}

#[derive(Clone)]
struct Order {
    a: usize,
    sp: usize,
    side: Serum3Side,
    price: u64,
    qty: u64,
    quote: u64,
    stp: Serum3SelfTradeBehavior,
    ty: Serum3OrderType,
    cid: u64,
    limit: u16,
    v1: bool,
    ro_receiver: bool,
}
impl std::fmt::Debug for Order {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let side = if matches!(self.side, Serum3Side::Bid) { "bid" } else { "ask" };
        write!(
            f,
            "{side} of account {} in market {}: {} lots at {}, at most {} quote, self trade mode {}, type {}, client id {}, limit {}{}{}",
            self.a, self.sp, self.qty, self.price, self.quote, self.stp as u8, self.ty as u8, self.cid, self.limit,
            if self.v1 { ", old instruction" } else { "" },
            if self.ro_receiver { ", receiver bank read-only" } else { "" }
        )
    }
}
fn place_ix(w: &World, o: &Order, nb: &Nb) -> Instruction {
    let mut ix = Serum3PlaceOrderInstruction {
        side: o.side,
        limit_price: o.price,
        max_base_qty: o.qty,
        max_native_quote_qty_including_fees: o.quote,
        self_trade_behavior: o.stp,
        order_type: o.ty,
        client_order_id: o.cid,
        limit: o.limit,
        account: w.accs[o.a].key,
        owner: w.accs[o.a].owner,
        serum_market: w.spots[o.sp].market,
    }
    .to_instruction(&*w.s)
    .1;
    if o.v1 {
        ix.data[..8].copy_from_slice(&disc("serum3_place_order"));
    }
    if o.ro_receiver {
        let recv = if matches!(o.side, Serum3Side::Bid) { w.spots[o.sp].base } else { w.spots[o.sp].quote };
        // the health accounts start after the 19 fixed ones
        for m in ix.accounts[18..].iter_mut() {
            if m.pubkey == w.tokens[recv].bank {
                m.is_writable = false;
            }
        }
    }
    rebank(w, nb, &mut ix);
    ix
}

/// what of an account the spot instructions may touch
struct St {
    s: Snap,
    oos: Vec<Vec<Option<OpenOrders>>>,
    mv: Vec<[u64; 2]>,
}
fn st(w: &World) -> St {
    let s = w.snap();
    let oos = s.accs.iter().map(|a| (0..2).map(|sp| oo(w, a, sp)).collect()).collect();
    let mv = w.spots.iter().map(|x| [w.s.token_account_balance(x.cookie.coin_vault), w.s.token_account_balance(x.cookie.pc_vault)]).collect();
    St { s, oos, mv }
}
fn borrowed(x: f64) -> f64 {
    (-x).max(0.0)
}
fn whole(got: f64, x: f64) -> bool {
    got >= (x - 1e-4).floor() && got <= (x + 1e-4).floor()
}

/// everything that must not change is unchanged: other accounts, other tokens' positions and banks
fn others(w: &World, x: &St, y: &St, a: usize, toks: &[usize], what: &str) -> Result<(), String> {
    for i in 0..N_ACC {
        for t in 0..w.tokens.len() {
            if i != a || !toks.contains(&t) {
                ensure!(x.s.posx(i, t) == y.s.posx(i, t), "{what}: token {t} of account {i} changed from {} to {}", x.s.posx(i, t), y.s.posx(i, t));
            }
        }
        if i != a {
            for sp in 0..2 {
                let (p, q) = (x.s.accs[i].serum3_orders(sp as u16).ok(), y.s.accs[i].serum3_orders(sp as u16).ok());
                ensure!(p.map(|p| bytemuck::bytes_of(p).to_vec()) == q.map(|p| bytemuck::bytes_of(p).to_vec()), "{what}: spot state of account {i} changed");
            }
        }
        for p in 0..2 {
            let (p, q) = (x.s.pp(i, p), y.s.pp(i, p));
            ensure!(bytemuck::bytes_of(&p) == bytemuck::bytes_of(&q), "{what}: a perp position changed");
        }
    }
    Ok(())
}

/// what holds whenever nothing is in progress
fn standing(w: &World, y: &St, nb: &Nb, stale: &[[[bool; 2]; 2]; N_ACC], what: &str) -> Result<(), String> {
    for t in 0..w.tokens.len() {
        let mut sum = 0u64;
        for a in &y.s.accs {
            for o in a.active_serum3_orders() {
                if o.base_token_index as usize == t {
                    sum += o.potential_base_tokens;
                }
                if o.quote_token_index as usize == t {
                    sum += o.potential_quote_tokens;
                }
            }
        }
        for n in 0..2 {
            let want = if n == nb[t] { sum } else { 0 };
            let got = y.s.b(t, n).potential_serum_tokens;
            ensure!(got == want, "{what}: bank {n} of token {t} counts {got} tokens of open orders, the accounts' orders say {want}");
        }
    }
    for sp in 0..2 {
        let c = &w.spots[sp].cookie;
        let m: Vec<Vec<dex::BookOrder>> = [c.bids, c.asks].iter().map(|k| dex::read_book(&w.s.get_account_data(*k).unwrap())).collect();
        let (bl, ql) = (c.coin_mint.base_lot, c.pc_mint.quote_lot);
        for (i, a) in y.s.accs.iter().enumerate() {
            let Ok(o) = a.serum3_orders(sp as u16) else { continue };
            let x = y.oos[i][sp].unwrap();
            let (mut bid_base, mut ask_quote) = (0f64, 0f64);
            for (s, b) in m.iter().enumerate() {
                for r in b.iter().filter(|r| r.owner == o.open_orders) {
                    let p = r.price() as f64 * ql / bl;
                    if s == 0 {
                        bid_base += r.lots as f64 * bl;
                        ensure!(o.highest_placed_bid_inv > 0.0 && p <= 1.0 / o.highest_placed_bid_inv * (1.0 + 1e-12), "{what}: bid at {p} above the recorded highest bid 1/{}", o.highest_placed_bid_inv);
                        ensure!(p >= 1.0 / o.lowest_placed_bid_inv * (1.0 - 1e-12), "{what}: bid at {p} below the recorded lowest bid 1/{}", o.lowest_placed_bid_inv);
                    } else {
                        ask_quote += r.lots as f64 * p * bl;
                        ensure!(o.lowest_placed_ask > 0.0 && p >= o.lowest_placed_ask * (1.0 - 1e-12), "{what}: ask at {p} below the recorded lowest ask {}", o.lowest_placed_ask);
                        ensure!(p <= o.highest_placed_ask * (1.0 + 1e-12), "{what}: ask at {p} above the recorded highest ask {}", o.highest_placed_ask);
                    }
                }
            }
            let (ct, pt) = ({ x.native_coin_total } as f64, { x.native_pc_total } as f64);
            if !stale[i][sp][0] {
                ensure!(o.potential_base_tokens as f64 + 2.0 >= (ct + bid_base) * (1.0 - 1e-9), "{what}: up to {} base tokens may come from the open orders, only {} are tracked", ct + bid_base, o.potential_base_tokens);
            }
            if !stale[i][sp][1] {
                ensure!(o.potential_quote_tokens as f64 + 2.0 >= (pt + ask_quote) * (1.0 - 0.0003), "{what}: up to {} quote tokens may come from the open orders, only {} are tracked", pt + ask_quote, o.potential_quote_tokens);
            }
        }
    }
    Ok(())
}

/// Funds moved out of the open orders account into the vaults: settlement or forced cancel.
#[allow(clippy::too_many_arguments)]
fn check_settled(w: &World, x: &St, y: &St, a: usize, sp: usize, nb: &Nb, dao: bool, buyback: bool, what: &str) -> Result<(bool, u64), String> {
    let toks = [w.spots[sp].base, w.spots[sp].quote];
    others(w, x, y, a, &toks, what)?;
    let (ox, oy) = (x.oos[a][sp].unwrap(), y.oos[a][sp].unwrap());
    let (sx, sy) = (x.s.accs[a].serum3_orders(sp as u16).unwrap(), y.s.accs[a].serum3_orders(sp as u16).unwrap());
    let reb = ox.referrer_rebates_accrued - oy.referrer_rebates_accrued;
    let tot0 = [ox.native_coin_total, ox.native_pc_total];
    let tot1 = [oy.native_coin_total, oy.native_pc_total];
    ensure!(oy.native_coin_free == 0 && oy.native_pc_free == 0 && oy.referrer_rebates_accrued == 0, "{what}: free funds remain");
    let tr0 = [sx.base_borrows_without_fee, sx.quote_borrows_without_fee];
    let tr1 = [sy.base_borrows_without_fee, sy.quote_borrows_without_fee];
    let mut fee_any = false;
    for i in 0..2 {
        let t = toks[i];
        let n = nb[t];
        let (b0, b1) = (x.s.b(t, n), y.s.b(t, n));
        let dv = y.s.v(t, n) as i128 - x.s.v(t, n) as i128;
        let gain = tot0[i] as i128 - tot1[i] as i128;
        let fees = if i == 1 && dao { reb } else { 0 };
        let extra = if i == 1 { reb } else { 0 };
        ensure!(dv == gain + extra as i128, "{what}: the vault of token {t} gained {dv}, the open orders account lost {gain} and rebates of {extra}");
        ensure!(x.s.v(t, 1 - n) == y.s.v(t, 1 - n), "{what}: another vault changed");
        // borrowed tokens that have left the account are a loan now
        let loan = tr0[i].saturating_sub(tot0[i]);
        let fee = loan as f64 * f(b0.loan_origination_fee_rate);
        fee_any |= fee > 0.0;
        let credit = (dv - fees as i128) as f64;
        let dpos = f(y.s.posx(a, t) - x.s.posx(a, t));
        ensure!(close(dpos, credit - fee, 1e-12, 1e-5), "{what}: position in token {t} changed by {dpos}, expected {credit} settled less {fee} fee for {loan} lent");
        let dfee = f(b1.collected_fees_native - b0.collected_fees_native);
        ensure!(close(dfee, fee + fees as f64, 1e-12, 1e-5), "{what}: collected fees of token {t} changed by {dfee}, expected {fee} + {fees}");
        let want = (tr0[i] - loan).saturating_sub(credit as u64);
        ensure!(tr1[i] == want, "{what}: {} of token {t} tracked as borrowed into orders, expected {want} (was {})", tr1[i], tr0[i]);
    }
    ensure!(sx.open_orders == sy.open_orders && sx.lowest_placed_ask == sy.lowest_placed_ask && sx.highest_placed_bid_inv == sy.highest_placed_bid_inv
        && sx.highest_placed_ask == sy.highest_placed_ask && sx.lowest_placed_bid_inv == sy.lowest_placed_bid_inv, "{what}: order bounds changed");
    // rebates kept by the dao can be bought back later
    let (fx, fy) = (&x.s.accs[a].fixed, &y.s.accs[a].fixed);
    if buyback && dao {
        let p = x.s.tok_price[toks[1]].min(x.s.b(toks[1], nb[toks[1]]).stable_price_model.stable_price);
        let v = reb as f64 * p;
        let iv = x.s.group.buyback_fees_expiry_interval;
        let (cur, prev) = if iv == 0 || x.s.now < fx.buyback_fees_expiry_timestamp {
            (fx.buyback_fees_accrued_current, fx.buyback_fees_accrued_previous)
        } else if x.s.now < fx.buyback_fees_expiry_timestamp + iv {
            (0, fx.buyback_fees_accrued_current)
        } else {
            (0, 0)
        };
        ensure!(fy.buyback_fees_accrued_previous == prev && whole(fy.buyback_fees_accrued_current as f64, cur as f64 + v),
            "{what}: fees to buy back are {} + {}, expected {cur} + {v} and {prev}", fy.buyback_fees_accrued_current, fy.buyback_fees_accrued_previous);
    } else {
        ensure!(fx.buyback_fees_accrued_current == fy.buyback_fees_accrued_current && fx.buyback_fees_accrued_previous == fy.buyback_fees_accrued_previous, "{what}: buyback fees changed");
    }
    Ok((fee_any, reb))
}

/// An order was placed. Returns whether tokens were borrowed for it.
fn check_placed(w: &World, x: &St, y: &St, o: &Order, nb: &Nb, what: &str) -> Result<bool, String> {
    let (a, sp) = (o.a, o.sp);
    let bid = matches!(o.side, Serum3Side::Bid);
    let toks = [w.spots[sp].base, w.spots[sp].quote];
    let (i, t) = if bid { (1, toks[1]) } else { (0, toks[0]) };
    others(w, x, y, a, &[t], what)?;
    let n = nb[t];
    let (sx, sy) = (x.s.accs[a].serum3_orders(sp as u16).unwrap(), y.s.accs[a].serum3_orders(sp as u16).unwrap());
    let paid = x.s.v(t, n) as i128 - y.s.v(t, n) as i128;
    ensure!(paid >= 0 && y.mv[sp][i] as i128 - x.mv[sp][i] as i128 == paid, "{what}: the exchange got another amount than the vault paid");
    for u in 0..5 {
        for k in 0..2 {
            if (u, k) != (t, n) {
                ensure!(x.s.v(u, k) == y.s.v(u, k), "{what}: vault {k} of token {u} changed");
            }
            ensure!(x.s.b(u, k).collected_fees_native == y.s.b(u, k).collected_fees_native, "{what}: fees were charged for placing");
        }
    }
    let ox = x.oos[a][sp].unwrap();
    let lock = if bid { o.quote } else { o.qty * w.spots[sp].cookie.coin_mint.base_lot as u64 };
    let free = if bid { ox.native_pc_free } else { ox.native_coin_free };
    ensure!(paid == lock.saturating_sub(free) as i128, "{what}: paid {paid}, expected {lock} less the {free} that were free");
    let (p0, p1) = (f(x.s.posx(a, t)), f(y.s.posx(a, t)));
    ensure!(close(f(y.s.posx(a, t) - x.s.posx(a, t)), -(paid as f64), 1e-12, 1e-5), "{what}: position went from {p0} to {p1} for {paid}");
    let lent = borrowed(p1) - borrowed(p0);
    let tr = [sy.base_borrows_without_fee - sx.base_borrows_without_fee, sy.quote_borrows_without_fee - sx.quote_borrows_without_fee];
    ensure!(whole(tr[i] as f64, lent) && tr[1 - i] == 0, "{what}: {tr:?} more tracked as borrowed, expected {lent}");
    ensure!(sx.open_orders == sy.open_orders, "{what}: open orders key");
    // nothing was turned into cash by placing
    let oy = y.oos[a][sp].unwrap();
    ensure!(oy.referrer_rebates_accrued == ox.referrer_rebates_accrued, "{what}: rebates");
    Ok(lent > 0.0)
}

/// Why an order may not be placed, judged by what it did on a copy without limits.
fn refusals(w: &World, x: &St, y: &St, o: &Order, nb: &Nb, wx: &World) -> (Vec<&'static str>, bool) {
    // x: state with limits before; y: state without limits after; wx = the world of y
    let mut bad = vec![];
    let mut unsure = false;
    let (a, sp) = (o.a, o.sp);
    let bid = matches!(o.side, Serum3Side::Bid);
    let (base, quote) = (w.spots[sp].base, w.spots[sp].quote);
    let (pt, rt) = if bid { (quote, base) } else { (base, quote) };
    let market: Serum3Market = w.s.get_account(w.spots[sp].market);
    if market.reduce_only == 1 {
        bad.push("market reduce only");
    }
    let g = w.group_state();
    let on = |bit: u32| g.ix_gate & (1u128 << bit) == 0;
    let v2 = !o.v1 || !on(33) || (!o.ro_receiver && on(71));
    if v2 && (!on(71) || o.ro_receiver) || !v2 && !on(33) {
        bad.push("instruction version");
    }
    let (pb, rb) = (x.s.b(pt, nb[pt]), x.s.b(rt, nb[rt]));
    let (pb1, rb1) = (y.s.b(pt, nb[pt]), y.s.b(rt, nb[rt]));
    let (p0, p1) = (f(x.s.posx(a, pt)), f(y.s.posx(a, pt)));
    let paid = p0 - p1;
    let mut over = |room: f64, tol: f64, r: &'static str, bad: &mut Vec<&'static str>| {
        if room.abs() <= tol {
            unsure = true;
        } else if room < 0.0 {
            bad.push(r);
        }
    };
    let dep = |b: &Bank| f(b.indexed_deposits) * f(b.deposit_index);
    let bor = |b: &Bank| f(b.indexed_borrows) * f(b.borrow_index);
    let eps = |b: &Bank| 2.0 + 1e-11 * dep(b);
    if rb.deposit_limit > 0 {
        over(rb.deposit_limit as f64 - dep(rb1) - rb1.potential_serum_tokens as f64, eps(rb1), "receiver deposit limit", &mut bad);
    }
    if paid > 1e-4 && (paid - p0).abs() < 1e-4 || paid <= 1e-4 && p0 < 1e-4 {
        // right at the border; or nothing is borrowed now, but the limits on borrowing are
        // applied all the same to an account that already owes the token
        over(0.0, 1.0, "", &mut bad);
    } else if paid > p0.max(0.0) {
        if pb.reduce_only != 0 {
            bad.push("payer reduce only");
        }
        over(dep(pb1) * (1.0 - pb.min_vault_to_deposits_ratio) - bor(pb1), eps(pb1), "utilization", &mut bad);
        let price = x.s.tok_price[pt].max(pb.stable_price_model.stable_price);
        if pb.net_borrow_limit_per_window_quote >= 0 && pb1.net_borrows_in_window >= 0 {
            over(pb.net_borrow_limit_per_window_quote as f64 - price * pb1.net_borrows_in_window as f64, 2.0 + 2.0 * price + 1e-9 * price * pb1.net_borrows_in_window as f64, "net borrows", &mut bad);
        }
        if pb.deposit_limit > 0 {
            over(pb.deposit_limit as f64 - dep(pb1) - pb1.potential_serum_tokens as f64, eps(pb1), "payer deposit limit", &mut bad);
        }
    } else {
        over(dep(pb1) - bor(pb1), eps(pb1), "solvency", &mut bad);
    }
    // price bands concern orders that rest (every order takes a slot on this exchange)
    if market.oracle_price_band != 0.0 && market.oracle_price_band != f32::MAX {
        let c = &w.spots[sp].cookie;
        let p = o.price as f64 * c.pc_mint.quote_lot / c.coin_mint.base_lot * x.s.tok_price[quote];
        let k = 1.0 + market.oracle_price_band as f64;
        let fair = x.s.tok_price[base];
        let room = if bid { p * k - fair } else { fair * k - p };
        over(room, fair * 1e-9, "price band", &mut bad);
    }
    if rb.reduce_only == 1 {
        let mut total = f(y.s.posx(a, rt));
        let price = |t: usize| x.s.tok_price[t];
        for q in 0..2 {
            let Some(z) = y.oos[a][q] else { continue };
            let so = y.s.accs[a].serum3_orders(q as u16).unwrap();
            let (b, c) = (w.spots[q].base, w.spots[q].quote);
            let (ct, cf, pt, pf) = (z.native_coin_total as f64, z.native_coin_free as f64, z.native_pc_total as f64, z.native_pc_free as f64);
            let (rb, rq) = (ct - cf, pt - pf);
            if c == rt {
                let at = rb * price(b) / price(c);
                let lim = rb * so.lowest_placed_ask;
                total += pf + rq + if lim != 0.0 { at.min(lim) } else { at };
            } else if b == rt {
                let at = rq * price(c) / price(b);
                let lim = rq * so.highest_placed_bid_inv;
                total += cf + rb + if lim != 0.0 { at.min(lim) } else { at };
            }
        }
        over(1.0 - total, 1e-3 + total.abs() * 1e-9, "receiver reduce only", &mut bad);
    }
    if let (Ok(h0), Ok(h1)) = (w.cache(a, &|t| nb[t]), wx.cache(a, &|t| nb[t])) {
        let (h0, h1) = (f(h0.health(HealthType::Init)), f(h1.health(HealthType::Init)));
        let tol = 1.0 + (h0.abs() + h1.abs()) * 1e-6;
        if h1 < tol && h1 <= h0 + tol {
            if h1 > -tol || h1 > h0 - tol { unsure = true } else { bad.push("health") }
        }
    }
    (bad, unsure)
}

fn open(w: &World, a: usize, sp: usize) -> bool {
    w.ok(Serum3CreateOpenOrdersInstruction { account: w.accs[a].key, serum_market: w.spots[sp].market, owner: w.accs[a].owner, payer: w.users[3].key })
}

fn setup(src: &mut Src) -> (World, Nb) {
    let w = World::new();
    w.random_bank_config(src);
    w.whale_liquidity();
    let mut nb = [0; 5];
    for n in nb.iter_mut().take(3) {
        *n = src.below(2) as usize;
    }
    let iv = src.pick(&[0u64, 1000, 100_000]);
    w.edit_group(|g| g.buyback_fees_expiry_interval = iv);
    for a in SPOT_ACCS {
        w.grant(a, 4, 0, 1e14);
        for t in 0..3 {
            let scale = [1e9, 1e10, 1e7][t];
            match src.below(4) {
                0 => {
                    let x = src.f(0.0, 1.0) * scale;
                    w.grant(a, t, nb[t], x)
                }
                1 => {
                    let x = src.f(0.0, 1.0) * scale;
                    w.grant(a, t, nb[t], -x)
                }
                2 => {
                    let x = src.f(0.0, 0.002) * scale;
                    w.grant(a, t, nb[t], x)
                }
                _ => {}
            }
        }
        for sp in 0..2 {
            if sp == 0 || src.chance(60) {
                assert!(open(&w, a, sp), "{}", w.fail_text());
            }
        }
    }
    (w, nb)
}

fn gen_order(src: &mut Src, w: &World, x: &St) -> Order {
    let a = src.pick(&SPOT_ACCS);
    let sp = if x.oos[a][1].is_some() && src.chance(35) { 1 } else { 0 };
    let side = src.pick(&[Serum3Side::Bid, Serum3Side::Ask]);
    let c = &w.spots[sp].cookie;
    let fair = x.s.tok_price[w.spots[sp].base] / x.s.tok_price[w.spots[sp].quote] * c.coin_mint.base_lot / c.pc_mint.quote_lot;
    let k = match src.below(5) {
        0 | 1 => 1.0,
        2 => src.f(0.97, 1.03),
        3 => src.f(0.5, 2.0),
        _ => src.flog(0.05, 20.0),
    };
    let price = ((fair * k).round() as u64).max(1);
    let most = [1_000_000, 10_000][sp];
    let qty = if src.chance(60) { src.urange(most / 20, most) } else { src.log_range(1, most) };
    let need = (price as f64 * qty as f64 * c.pc_mint.quote_lot * 1.0005) as u64 + 2;
    let quote = match src.below(5) {
        0 => (need as f64 * src.f(0.0, 1.0)) as u64 + 1,
        1 => need * 2,
        _ => need,
    };
    let ro_receiver = src.chance(15);
    Order {
        a,
        sp,
        side,
        price,
        qty,
        quote,
        stp: src.pick(&[Serum3SelfTradeBehavior::DecrementTake, Serum3SelfTradeBehavior::CancelProvide, Serum3SelfTradeBehavior::AbortTransaction]),
        ty: src.pick(&[Serum3OrderType::Limit, Serum3OrderType::Limit, Serum3OrderType::ImmediateOrCancel, Serum3OrderType::PostOnly]),
        cid: src.below(4),
        limit: src.pick(&[10, 10, 1, 0]),
        v1: if ro_receiver { src.chance(80) } else { src.chance(25) },
        ro_receiver,
    }
}

/// removes every limit of the program's own that could stop an order
fn unlimited(w: &World, o: &Order) -> (World, Order) {
    let z = w.fork();
    for t in 0..3 {
        z.edit_token(t, |b| {
            b.reduce_only = 0;
            b.deposit_limit = 0;
            b.net_borrow_limit_per_window_quote = -1;
            b.min_vault_to_deposits_ratio = 0.0;
        });
    }
    for sp in 0..2 {
        let mut m: Serum3Market = z.s.get_account(z.spots[sp].market);
        m.reduce_only = 0;
        m.oracle_price_band = 0.0;
        z.s.set_account(z.spots[sp].market, &m);
    }
    z.edit_group(|g| g.ix_gate = 0);
    let mut p = o.clone();
    p.ro_receiver = false;
    p.v1 = false;
    (z, p)
}

/// Lowers the price of the collateral token until init health is about `room`.
fn tighten(w: &World, a: usize, nb: &Nb, p4: f64, room: f64) -> Result<Option<f64>, String> {
    let init = |p: f64| -> Result<f64, String> {
        w.set_price(4, p, Some(p));
        Ok(f(w.cache(a, &|t| nb[t])?.health(HealthType::Init)))
    };
    let (lo, hi) = (init(1e-12)?, init(p4)?);
    if room < lo || room > hi || hi <= lo {
        init(p4)?;
        return Ok(None);
    }
    let (mut l, mut h) = (1e-12, p4);
    for _ in 0..30 {
        let m = (l + h) / 2.0;
        if init(m)? < room {
            l = m
        } else {
            h = m
        }
    }
    init(h)?;
    Ok(Some(h))
}

fn limits(src: &mut Src, w: &World, x: &St, nb: &Nb) -> String {
    let t = src.idx(3);
    let b = *x.s.b(t, nb[t]);
    let dep = f(b.native_deposits());
    match src.below(8) {
        0 => {
            let v = src.pick(&[0u8, 0, 1, 2]);
            w.edit_token(t, |b| b.reduce_only = v);
            format!("reduce-only {v} for token {t}")
        }
        1 => {
            let v = if src.chance(40) { 0 } else { (dep + b.potential_serum_tokens as f64 + [1e9, 1e10, 1e7][t] * src.f(-0.2, 1.0)) as u64 };
            w.edit_token(t, |b| b.deposit_limit = v);
            format!("deposit limit {v} for token {t}")
        }
        2 => {
            let v = if src.chance(40) { -1 } else { (1e8 * src.f(0.0, 3.0)) as i64 };
            let win = src.pick(&[100, 86400]);
            w.edit_token(t, |b| {
                b.net_borrow_limit_per_window_quote = v;
                b.net_borrow_limit_window_size_ts = win;
            });
            format!("net borrow limit {v} for token {t}")
        }
        3 => {
            let u = f(b.native_borrows()) / dep.max(1.0);
            let v = if src.chance(40) { 0.0 } else { (1.0 - u - 1e-6 * src.f(0.0, 3.0)).max(0.0) };
            w.edit_token(t, |b| b.min_vault_to_deposits_ratio = v);
            format!("reserve {v} for token {t}")
        }
        4 => {
            let sp = src.idx(2);
            let (v, band) = (src.chance(15) as u8, src.pick(&[0.0f32, 0.0, 0.02, 1.0]));
            let mut m: Serum3Market = w.s.get_account(w.spots[sp].market);
            m.reduce_only = v;
            m.force_close = 0;
            m.oracle_price_band = band;
            w.s.set_account(w.spots[sp].market, &m);
            format!("market {sp} reduce-only {v} band {band}")
        }
        5 => {
            let v = src.pick(&[0u128, 0, 1 << 33, 1 << 71, (1 << 33) | (1 << 71)]);
            w.edit_group(|g| g.ix_gate = v);
            format!("gates {v:x}")
        }
        6 => {
            let p = x.s.tok_price[t];
            let (p, sp) = (p * src.f(0.9, 1.1), p * src.f(0.8, 1.2));
            w.set_price(t, p, Some(sp));
            format!("price of {t} {p} stable {sp}")
        }
        _ => {
            let v = src.pick(&[0.0, 0.0005, 0.01]);
            w.edit_token(t, |b| b.loan_origination_fee_rate = num(v));
            format!("loan fee {v} for token {t}")
        }
    }
}

fn settle_ix(w: &World, a: usize, sp: usize, dao: bool, nb: &Nb) -> Instruction {
    let mut ix = Serum3SettleFundsV2Instruction { account: w.accs[a].key, owner: w.accs[a].owner, serum_market: w.spots[sp].market, fees_to_dao: dao }.to_instruction(&*w.s).1;
    rebank(w, nb, &mut ix);
    ix
}

fn history(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (w, nb) = setup(src);
    let mut x = st(&w);
    // potential tokens that the old instruction did not track
    let mut stale = [[[false; 2]; 2]; N_ACC];
    let limited = src.chance(70);
    let steps = 8 + src.below(28);
    for _ in 0..steps {
        let k = src.below(100);
        let what;
        if k < 40 {
            let o = gen_order(src, &w, &x);
            what = format!("{o:?}");
            // now and then little init health is left
            let p4 = x.s.tok_price[4];
            let mut tight = None;
            if src.chance(25) {
                let side = matches!(o.side, Serum3Side::Bid);
                let lots = o.price as f64 * w.spots[o.sp].cookie.pc_mint.quote_lot;
                let size = x.s.tok_price[w.spots[o.sp].quote] * if side { o.quote as f64 } else { o.qty as f64 * lots };
                let room = size * src.pick(&[0.02, 0.2, 0.5, 1.0, 2.0, 5.0]) * src.f(0.5, 1.2) - if src.chance(20) { size } else { 0.0 };
                tight = tighten(&w, o.a, &nb, p4, room)?;
                x = st(&w);
            }
            let before = w.fork();
            let ok = w.ok_raw(place_ix(&w, &o, &nb), &[w.accs[o.a].owner]);
            let text = w.fail_text();
            case.note(|| format!("{what} -> {ok} {}", if ok { "" } else { &text }));
            if ok {
                let y = st(&w);
                case.nontrivial();
                let lent = check_placed(&w, &x, &y, &o, &nb, &what)?;
                case.label(if lent { "order with a loan" } else { "order" });
                let (bad, _) = refusals(&before, &x, &y, &o, &nb, &w);
                ensure!(bad.is_empty(), "{what}: accepted despite {bad:?}");
                if src.chance(10) {
                    // the vault never has to hold more than the order can take from it
                    let bid = matches!(o.side, Serum3Side::Bid);
                    let sp = &w.spots[o.sp];
                    let pt = if bid { sp.quote } else { sp.base };
                    let oo = x.oos[o.a][o.sp].unwrap();
                    let most = if bid { o.quote.saturating_sub(oo.native_pc_free) } else { (o.qty * sp.cookie.coin_mint.base_lot as u64).saturating_sub(oo.native_coin_free) };
                    let tok = &before.tokens[pt];
                    let bank = before.bank(if nb[pt] == 0 { tok.bank } else { tok.bank1 });
                    if before.s.token_account_balance(bank.vault) >= most {
                        before.set_vault(bank.vault, most);
                        ensure!(before.ok_raw(place_ix(&before, &o, &nb), &[before.accs[o.a].owner]), "{what}: refused with {most} in the vault: {}", before.fail_text());
                    }
                }
                let v1 = o.v1 && o.ro_receiver || o.v1 && w.group_state().ix_gate & (1 << 71) != 0;
                let bid = matches!(o.side, Serum3Side::Bid);
                if v1 && w.group_state().ix_gate & (1 << 33) == 0 {
                    stale[o.a][o.sp][if bid { 0 } else { 1 }] = true;
                    stale[o.a][o.sp][if bid { 1 } else { 0 }] = false;
                } else {
                    stale[o.a][o.sp] = [false; 2];
                }
                x = y;
            } else {
                let (z, p) = unlimited(&w, &o);
                if tight.is_some() {
                    z.set_price(4, p4, Some(p4));
                }
                let free = z.ok_raw(place_ix(&z, &p, &nb), &[w.accs[o.a].owner]);
                if let Some(p) = tight {
                    z.set_price(4, p, Some(p));
                }
                if free {
                    let y = st(&z);
                    let (bad, unsure) = refusals(&w, &x, &y, &o, &nb, &z);
                    ensure!(unsure || !bad.is_empty(), "{what}: refused without a reason: {text}");
                    if !unsure {
                        case.label(bad[0]);
                    }
                } else {
                    case.label("not possible");
                }
                let y = st(&w);
                others(&w, &x, &y, N_ACC, &[], &what)?;
                x = y;
            }
            if tight.is_some() {
                w.set_price(4, p4, Some(p4));
                x = st(&w);
            }
        } else if k < 50 {
            // cancel
            let a = src.pick(&SPOT_ACCS);
            let sp = if x.oos[a][1].is_some() && src.chance(35) { 1 } else { 0 };
            let (key, owner, market) = (w.accs[a].key, w.accs[a].owner, w.spots[sp].market);
            let c = &w.spots[sp].cookie;
            let own = x.s.accs[a].serum3_orders(sp as u16).unwrap().open_orders;
            let books: Vec<Vec<dex::BookOrder>> = [c.bids, c.asks].iter().map(|k| dex::read_book(&w.s.get_account_data(*k).unwrap())).collect();
            let mine: Vec<(usize, dex::BookOrder)> = (0..2).flat_map(|i| books[i].iter().filter(|r| r.owner == own).map(move |r| (i, *r))).collect();
            let mode = src.below(3);
            let (mut gone, ok): (Vec<dex::BookOrder>, bool);
            if mode == 0 || mine.is_empty() {
                let limit = src.pick(&[10u8, 255, 1, 0]);
                what = format!("cancel up to {limit} orders of {a} in market {sp}");
                ok = w.ok(Serum3CancelAllOrdersInstruction { limit, account: key, owner, serum_market: market });
                gone = vec![];
                if limit >= 100 {
                    gone = mine.iter().map(|r| r.1).collect();
                }
            } else if mode == 1 {
                let (i, r) = src.pick(&mine);
                what = format!("cancel {r:?} of {a}");
                ok = w.ok(Serum3CancelOrderInstruction { side: if i == 0 { Serum3Side::Bid } else { Serum3Side::Ask }, order_id: r.id, account: key, owner, serum_market: market });
                ensure!(ok, "{what}: {}", w.fail_text());
                gone = vec![r];
            } else {
                let cid = src.below(4);
                what = format!("cancel client id {cid} of {a} in market {sp}");
                ok = w.ok(Serum3CancelOrderByClientOrderIdInstruction { client_order_id: cid, account: key, owner, serum_market: market });
                let have = mine.iter().any(|r| r.1.client_id == cid && cid != 0);
                ensure!(ok == have, "{what}: {ok}");
                gone = vec![];
            }
            case.note(|| format!("{what} -> {ok}"));
            let y = st(&w);
            others(&w, &x, &y, a, &[], &what)?;
            ensure!(x.mv == y.mv && x.s.banks.iter().zip(&y.s.banks).all(|(p, q)| p.3 == q.3 && bytemuck::bytes_of(&*p.2) == bytemuck::bytes_of(&*q.2)), "{what}: a bank or vault changed");
            let (p, q) = (x.s.accs[a].serum3_orders(sp as u16).unwrap(), y.s.accs[a].serum3_orders(sp as u16).unwrap());
            ensure!(bytemuck::bytes_of(p) == bytemuck::bytes_of(q), "{what}: spot state changed");
            let after: Vec<dex::BookOrder> = [c.bids, c.asks].iter().flat_map(|k| dex::read_book(&w.s.get_account_data(*k).unwrap())).collect();
            ensure!(gone.iter().all(|r| !after.iter().any(|z| z.id == r.id)), "{what}: order still there");
            ensure!(books.iter().flatten().filter(|r| r.owner != own).all(|r| after.contains(r)), "{what}: somebody else's order disappeared");
            x = y;
        } else if k < 66 {
            let sp = src.idx(2);
            what = format!("consume events of market {sp}");
            let oos: Vec<Pubkey> = SPOT_ACCS.iter().filter_map(|a| x.s.accs[*a].serum3_orders(sp as u16).ok().map(|o| o.open_orders)).collect();
            let ok = consume_spot_events(&w.s, w.serum_program, &w.spots[sp].cookie, &oos).is_ok();
            case.note(|| format!("{what} -> {ok}"));
            x = st(&w);
        } else if k < 80 {
            let a = src.pick(&SPOT_ACCS);
            let sp = if x.oos[a][1].is_some() && src.chance(35) { 1 } else { 0 };
            let dao = src.bool();
            what = format!("settle account {a} market {sp}, rebates to dao: {dao}");
            let ok = w.ok_raw(settle_ix(&w, a, sp, dao, &nb), &[w.accs[a].owner]);
            case.note(|| format!("{what} -> {ok}"));
            ensure!(ok, "{what}: {}", w.fail_text());
            let y = st(&w);
            let (fee, reb) = check_settled(&w, &x, &y, a, sp, &nb, dao, true, &what)?;
            case.label(if fee { "settled with loan fee" } else { "settled" });
            if reb > 0 {
                case.label("rebates");
            }
            ensure!(x.s.accs[a].fixed.being_liquidated() == y.s.accs[a].fixed.being_liquidated(), "{what}: flag");
            stale[a][sp] = [false; 2];
            x = y;
        } else if k < 88 {
            // forced cancel
            let a = src.pick(&SPOT_ACCS);
            let sp = if x.oos[a][1].is_some() && src.chance(35) { 1 } else { 0 };
            let mode = src.below(5);
            if src.chance(20) {
                w.edit_acc(a, |v| v.fixed.set_being_liquidated(true));
            }
            let (p4, m0): (f64, Serum3Market) = (x.s.tok_price[4], w.s.get_account(w.spots[sp].market));
            if mode < 2 {
                w.set_price(4, 1e-12, Some(1e-12));
            } else if mode == 2 {
                let mut m = m0;
                m.reduce_only = 1;
                m.force_close = 1;
                w.s.set_account(w.spots[sp].market, &m);
            } else if mode == 3 {
                let until = w.now() + 100;
                w.edit_acc(a, |v| v.fixed.frozen_until = until);
            }
            x = st(&w);
            let was = x.s.accs[a].fixed.being_liquidated();
            let h = w.cache(a, &|t| nb[t])?;
            let (maint, le) = (h.health(HealthType::Maint), h.health(HealthType::LiquidationEnd));
            let liquidatable = if was { le < I80F48::ZERO } else { maint < I80F48::ZERO };
            let limit = src.pick(&[255u8, 10, 1]);
            let c = w.spots[sp].cookie.clone();
            what = format!("forced cancel of account {a} market {sp} (mode {mode}, maint health {maint}, being liquidated {was}), limit {limit}");
            let mut ix = Serum3LiqForceCancelOrdersInstruction { account: w.accs[a].key, serum_market: w.spots[sp].market, limit }.to_instruction(&*w.s).1;
            rebank(&w, &nb, &mut ix);
            let ok = w.ok_raw(ix, &[]);
            case.note(|| format!("{what} -> {ok}"));
            ensure!(ok, "{what}: {}", w.fail_text());
            let y = st(&w);
            let flag = y.s.accs[a].fixed.being_liquidated();
            if liquidatable || mode == 2 || mode == 3 {
                let (fee, _) = check_settled(&w, &x, &y, a, sp, &nb, true, false, &what)?;
                case.label(if fee { "forced cancel with fee" } else { "forced cancel" });
                stale[a][sp] = [false; 2];
                let own = x.s.accs[a].serum3_orders(sp as u16).unwrap().open_orders;
                let after: Vec<dex::BookOrder> = [c.bids, c.asks].iter().flat_map(|k| dex::read_book(&w.s.get_account_data(*k).unwrap())).collect();
                if limit >= 100 {
                    ensure!(!after.iter().any(|r| r.owner == own), "{what}: orders remain");
                }
                let le1 = w.cache(a, &|t| nb[t])?.health(HealthType::LiquidationEnd);
                let want = if liquidatable { le1 < I80F48::ZERO } else { false };
                ensure!(flag == want || f(le1).abs() < 1e-3 * (1.0 + f(le).abs() * 1e-9), "{what}: being liquidated is {flag} with liquidation end health {le1}");
                if liquidatable {
                    case.label("liquidatable");
                }
            } else {
                case.label("forced cancel declined");
                others(&w, &x, &y, N_ACC, &[], &what)?;
                ensure!(x.mv == y.mv && x.s.banks.iter().zip(&y.s.banks).all(|(p, q)| p.3 == q.3 && bytemuck::bytes_of(&*p.2) == bytemuck::bytes_of(&*q.2)), "{what}: a bank or vault changed");
                ensure!(!flag, "{what}: flag");
            }
            if mode < 2 {
                w.set_price(4, p4, Some(p4));
            } else if mode == 2 {
                w.s.set_account(w.spots[sp].market, &m0);
            } else if mode == 3 {
                w.edit_acc(a, |v| v.fixed.frozen_until = 0);
            }
            w.edit_acc(a, |v| v.fixed.set_being_liquidated(false));
            x = st(&w);
        } else if k < 92 {
            // the account's own balances move
            let a = src.pick(&SPOT_ACCS);
            let t = src.idx(3);
            let amount = (f(x.s.posx(a, t)).abs() * src.f(0.0, 1.5)) as u64 + 1;
            let dep = src.bool();
            what = format!("{} {amount} of token {t} by account {a}", if dep { "deposit" } else { "withdraw" });
            let ok = if dep { w.ok(w.deposit_ix(a, t, nb[t], amount)) } else { w.ok(w.withdraw_ix(a, t, nb[t], amount, true)) };
            case.note(|| format!("{what} -> {ok}"));
            x = st(&w);
        } else if k < 94 {
            let d = src.log_range(1, 200_000);
            what = format!("{d} s later");
            w.advance(d);
            for t in 0..5 {
                let p = x.s.tok_price[t];
                w.set_price(t, p, None);
            }
            x = st(&w);
        } else if limited {
            what = limits(src, &w, &x, &nb);
            case.note(|| what.clone());
            x = st(&w);
        } else {
            continue;
        }
        standing(&w, &x, &nb, &stale, &what)?;
    }
    Ok(())
}

/// A token's other bank is used for settling.
fn banks(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (w, nb) = setup(src);
    let x0 = st(&w);
    let mut o = gen_order(src, &w, &x0);
    o.v1 = false;
    o.ro_receiver = false;
    o.ty = Serum3OrderType::Limit;
    let ok = w.ok_raw(place_ix(&w, &o, &nb), &[w.accs[o.a].owner]);
    if !ok {
        return Ok(());
    }
    case.nontrivial();
    let toks = [w.spots[o.sp].base, w.spots[o.sp].quote];
    let t = toks[src.idx(2)];
    let mut other = nb;
    other[t] = 1 - other[t];
    let ok = w.ok(Serum3CancelAllOrdersInstruction { limit: 10, account: w.accs[o.a].key, owner: w.accs[o.a].owner, serum_market: w.spots[o.sp].market });
    ensure!(ok, "cancel: {}", w.fail_text());
    let ok = w.ok_raw(settle_ix(&w, o.a, o.sp, true, &other), &[w.accs[o.a].owner]);
    let y = st(&w);
    if ok {
        let so = y.s.accs[o.a].serum3_orders(o.sp as u16).unwrap();
        ensure!(so.potential_base_tokens == 0 && so.potential_quote_tokens == 0, "open order amounts remain in the account");
        for t in toks {
            let sum = y.s.b(t, 0).potential_serum_tokens + y.s.b(t, 1).potential_serum_tokens;
            if sum != 0 {
                return case.finding("spot-other-bank", &format!("token {t}: {sum} tokens of open orders remain counted in the bank used for placing after the order was cancelled and settled through the token's other bank"));
            }
        }
    }
    Ok(())
}
