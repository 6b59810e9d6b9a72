//! C30: what the off-chain part of the health code tells liquidators and traders.
use crate::ensure;
use crate::machine::{Machine, ALL};
use crate::pbt::*;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::health::*;
use mango_v4::state::*;

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "random accounts with spot, perp and open orders positions; the helper's answer is put back into the health cache and judged by the health ratio there. Non-trivial: it offered a trade that is neither nothing nor unlimited",
        assumptions: &["the health cache itself is judged by C02", "amounts up to 10^24 native units"],
        suites: vec![
            Suite { name: "perp", quick: 12_000, thorough: 400_000, f: perp },
            Suite { name: "swap", quick: 12_000, thorough: 400_000, f: swap },
            Suite { name: "borrow", quick: 12_000, thorough: 400_000, f: borrow },
        ],
    }
}

fn state(src: &mut Src) -> Machine {
    let m = Machine::setup(src, &ALL);
    let w = &m.w;
    for _ in 0..src.below(3) {
        let s = w.snap();
        m.step(src, &s);
    }
    // (the off-chain code reads the time of the machine it runs on)
    for p in 0..2 {
        if src.chance(50) {
            let pm = w.perp(p);
            let lot = w.perp_price(p) * pm.base_lot_size as f64;
            let lots = (1.0 + src.log(1 << 34) as f64 / lot) as i64;
            let q = I80F48::from_num(lots as f64 * lot * src.f(0.8, 1.2));
            let a = 1 + src.idx(3);
            let (l, s) = if src.bool() { (a, WHALE) } else { (WHALE, a) };
            w.grant_perp(p, l, s, lots, q);
        }
    }
    m
}

/// how far health ratios may be off: the code searches to 0.1, and rounds natively
fn slack(c: &HealthCache) -> f64 {
    let (_, l) = c.health_assets_and_liabs_stable_liabs(HealthType::Init);
    1e-6 + 400.0 / f(l).max(1.0)
}

fn perp(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src);
    let w = &m.w;
    if src.chance(25) {
        let p = w.price(0);
        w.set_price(0, p, Some(p * src.pick(&[0.9, 0.97, 1.03, 1.1, 1.5])));
    }
    for _ in 0..3 {
        let (a, p) = (1 + src.idx(3), src.idx(2));
        let c = w.cache(a, &|_| 0)?;
        let side = if src.bool() { Side::Bid } else { Side::Ask };
        let dir = if side == Side::Bid { 1i64 } else { -1 };
        let price = num(w.perp_price(p)) * num(src.pick(&[1.0, 1.01, 0.99, 0.9, 1.1, 1.5, 0.5]));
        let min = num(src.pick(&[0.0, 2.0, 10.0, 50.0, 300.0]));
        let Ok(pi) = w.acc(a).perp_position(p as u16).map(|x| *x) else {
            let r = c.max_perp_for_health_ratio(p as u16, price, side, min);
            ensure!(r.is_err() || c.health_ratio(HealthType::Init) < 0, "offers {r:?} for a market without position");
            continue;
        };
        let pm = w.perp(p);
        let at = |l: i64| {
            let (mut c, mut x) = (c.clone(), pi);
            x.base_position_lots += dir * l;
            x.quote_position_native -= I80F48::from(dir) * I80F48::from(l) * I80F48::from(pm.base_lot_size) * price;
            c.recompute_perp_info(&x, &pm).unwrap();
            c
        };
        let ratio = |c: &HealthCache| f(c.health_ratio(HealthType::Init));
        let r0 = ratio(&c);
        let what = format!("account {a} perp {p} {dir} at {price} (oracle {}), ratio {r0}, wanted {min}, position {} lots, {}", w.perp_price(p), pi.base_position_lots + pi.taker_base_lots, pi.quote_position_native);
        case.note(|| format!("{what}; {:?}; settle price {} stable {}; market {:?} {:?} {:?} {:?} overall {:?}", pi, w.price(0), w.tbank(0).stable_price(), pm.init_base_asset_weight, pm.init_base_liab_weight, pm.stable_price(), pm.base_lot_size, pm.init_overall_asset_weight));
        case.note(|| format!("{:?}", c.token_infos));
        let got = crate::sim::catch(|| c.max_perp_for_health_ratio(p as u16, price, side, min)).map_err(|e| format!("{what}: {e}"))?;
        let lots = got.map_err(|e| format!("{what}: refuses: {e:?}"))?;
        ensure!(lots >= 0, "{what}: {lots} lots");
        if r0 < 0.0 {
            ensure!(lots == 0, "{what}: offers {lots}");
            continue;
        }
        if lots == i64::MAX {
            case.label("unlimited");
            let big = (1e12 / (w.perp_price(p) * pm.base_lot_size as f64)) as i64 + 1;
            let c = at(big);
            ensure!(ratio(&c) >= r0.min(f(min)) - slack(&c), "{what}: without limit, but {big} lots take the ratio to {}", ratio(&c));
            continue;
        }
        let (c1, c2) = (at(lots), at(lots + 2));
        let (r1, r2) = (ratio(&c1), ratio(&c2));
        case.note(|| format!("{what}: {lots} -> {r1}, {r2}"));
        if lots > 0 {
            case.nontrivial = true;
            case.label(if r0 < f(min) { "starts below" } else { "starts above" });
            ensure!(r1 >= f(min) - slack(&c1) || r1 >= r0 - slack(&c1), "{what}: the offered {lots} lots take the ratio to {r1}");
        }
        if r0 > f(min) + 0.2 + slack(&c2) {
            case.label("maximal");
            ensure!(r2 <= f(min) + 0.1 + slack(&c2) + 0.01, "{what}: offers {lots} lots, two more still have ratio {r2}");
        }
    }
    Ok(())
}

fn pair(src: &mut Src, w: &World, c: &HealthCache) -> Option<(usize, usize)> {
    let toks: Vec<usize> = c.token_infos.iter().map(|t| t.token_index as usize).collect();
    if toks.len() < 2 {
        return None;
    }
    let x = src.idx(toks.len());
    let y = (x + 1 + src.idx(toks.len() - 1)) % toks.len();
    let _ = w;
    Some((toks[x], toks[y]))
}

fn swap(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src);
    let w = &m.w;
    for _ in 0..3 {
        let a = 1 + src.idx(3);
        let c = w.cache(a, &|_| 0)?;
        let Some((x, y)) = pair(src, w, &c) else { continue };
        let (mut bx, mut by) = (w.tbank(x), w.tbank(y));
        if src.bool() {
            bx.net_borrow_limit_per_window_quote = if src.bool() { -1 } else { src.log(1_000_000_000_000) as i64 };
            bx.net_borrows_in_window = src.log(1_000_000_000) as i64;
            by.deposit_limit = if src.bool() { 0 } else { src.log(1_000_000_000_000) };
        }
        let acc = w.acc(a);
        let px = num(w.price(x));
        let price = num(w.price(x) / w.price(y) * src.pick(&[1.0, 0.99, 0.9, 1.02, 1.5, 0.5]));
        if price < I80F48::from_num(1e-6) || price > I80F48::from_num(1e6) {
            continue;
        }
        let min = num(src.pick(&[0.0, 2.0, 10.0, 50.0, 300.0]));
        let at = |amt: I80F48| {
            let mut c = c.clone();
            let i = c.token_info_index(x as u16).unwrap();
            let j = c.token_info_index(y as u16).unwrap();
            c.token_infos[i].balance_spot -= amt;
            c.token_infos[j].balance_spot += amt * price;
            c
        };
        let ratio = |c: &HealthCache| f(c.health_ratio(HealthType::Init));
        let r0 = ratio(&c);
        let what = format!("account {a} swap {x}->{y} at {price}, ratio {r0}, wanted {min}, has {} and {}", w.pos(a, x), w.pos(a, y));
        let free = crate::sim::catch(|| c.max_swap_source_for_health_ratio_ignoring_limits(&acc, &bx, px, &by, price, min));
        let free = match free {
            // the search expects a single maximum, which the ratio lacks below zero
            Err(e) if r0 < 0.0 && e.contains("assertion failed") => {
                case.finding("swap-below-zero", &format!("{what}: {e}"))?;
                continue;
            }
            x => x.map_err(|e| format!("{what}: {e}"))?,
        };
        let free = free.map_err(|e| format!("{what}: refuses: {e:?}"))?;
        let lim = c.max_swap_source_for_health_ratio_with_limits(&acc, &bx, px, &by, price, min).map_err(|e| format!("{what}: refuses with limits: {e:?}"))?;
        ensure!(free >= 0, "{what}: {free}");
        ensure!(lim <= free, "{what}: {lim} with limits, {free} without");
        // the limits
        let (own, owed) = (acc.token_position(x as u16).unwrap().native(&bx), -acc.token_position(y as u16).unwrap().native(&by));
        let worst = f(px).max(f(bx.stable_price()));
        let borrow_room = match bx.net_borrow_limit_per_window_quote {
            l if l < 0 => f64::INFINITY,
            l => (l as f64 - bx.net_borrows_in_window as f64 * worst) / f(px),
        };
        let deposit_room = match by.deposit_limit {
            0 => f64::INFINITY,
            l => l as f64 - f(by.native_deposits()) - by.potential_serum_tokens as f64,
        };
        let top = |z: f64| (borrow_room.max(z) + f(own).max(0.0)).min((deposit_room.max(z) + f(owed).max(0.0)) / f(price));
        // what exceeds a limit already may count against what the account has itself, or not;
        // a negative answer means nothing
        let (lo, hi) = (f(free).min(top(f64::MIN)).max(0.0), f(free).min(top(0.0)));
        let eps = |x: f64| 1e-6 * x.abs() + 2.0 + 4.0 / f(price) + 4.0 / f(px);
        let got = f(lim).max(0.0);
        ensure!(
            (got >= lo - eps(lo) || got > 1e18) && got <= hi + eps(hi),
            "{what}: {lim} with limits, expected {lo} to {hi}, without {free}; room to borrow {borrow_room}, room to deposit {deposit_room}"
        );
        if f(lim) < f(free) {
            case.label("limited");
        }
        if free == I80F48::MAX {
            case.label("unlimited");
            continue;
        }
        if f(free) * f(price).max(1.0) > 1e24 {
            continue;
        }
        let cs = at(free);
        let r = ratio(&cs);
        let more = free * num(1.0 + 1e-6) + num(1.0);
        let cm = at(more);
        let rm = ratio(&cm);
        case.note(|| format!("{what}: {free} -> {r}, {rm}"));
        if free > 0 {
            case.nontrivial = true;
            case.label(if r0 < f(min) { "starts below" } else { "starts above" });
            ensure!(r >= f(min) - slack(&cs) || r >= r0 - slack(&cs), "{what}: the offered {free} takes the ratio to {r}");
        }
        if r > f(min) + 0.2 + slack(&cs) {
            // more must not help any further
            case.label("best");
        } else if r < f(min) - 0.2 - slack(&cs) {
            case.label("cannot reach it");
            // the best that any amount reaches (the search goes down to steps of 0.1)
            for k in 0..12 {
                let amt = match k {
                    0 => I80F48::ZERO,
                    1 => own.max(I80F48::ZERO),
                    2 => owed.max(I80F48::ZERO) / price,
                    _ => own.max(owed / price).max(I80F48::ZERO) * num(src.f(0.0, 1.0)),
                };
                if (amt - free).abs() < 0.11 {
                    continue;
                }
                let c2 = at(amt);
                let r2 = ratio(&c2);
                if r2 > r + slack(&cs) + slack(&c2) + 0.01 {
                    let msg = format!("{what}: offers {free} for a ratio of {r}, but {amt} reaches {r2}");
                    ensure!(r0 < 0.0, "{msg}");
                    case.finding("swap-below-zero", &msg)?;
                    break;
                }
            }
        } else if r0 > f(min) + 0.2 + slack(&cm) {
            case.label("maximal");
            ensure!(rm <= f(min) + 0.1 + slack(&cm) + 0.01, "{what}: offers {free}, {more} still has ratio {rm}");
        }
    }
    Ok(())
}

fn borrow(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src);
    let w = &m.w;
    for _ in 0..3 {
        let a = 1 + src.idx(3);
        let c = w.cache(a, &|_| 0)?;
        let acc = w.acc(a);
        let i = src.idx(c.token_infos.len().max(1));
        if c.token_infos.is_empty() {
            continue;
        }
        let x = c.token_infos[i].token_index as usize;
        let mut b = w.tbank(x);
        b.net_borrow_limit_per_window_quote = if src.bool() { -1 } else { src.log(1_000_000_000_000) as i64 };
        b.net_borrows_in_window = src.log(1_000_000) as i64;
        let fee = src.pick(&[0.0, 0.0, 0.001]);
        b.loan_origination_fee_rate = num(fee);
        let min = num(src.pick(&[0.0, 2.0, 10.0, 50.0]));
        let ratio = |c: &HealthCache| f(c.health_ratio(HealthType::Init));
        let at = |amt: f64| {
            let mut c = c.clone();
            c.token_infos[i].balance_spot -= num(amt);
            c
        };
        let r0 = ratio(&c);
        let what = format!("account {a} borrow of {x}, ratio {r0}, wanted {min}, has {}", w.pos(a, x));
        let got = crate::sim::catch(|| c.max_borrow_for_health_ratio(&acc, &b, min)).map_err(|e| format!("{what}: {e}"))?;
        let amt = f(got.map_err(|e| format!("{what}: refuses: {e:?}"))?);
        ensure!(amt >= 0.0, "{what}: {amt}");
        if r0 <= f(min) {
            ensure!(amt == 0.0, "{what}: offers {amt}");
            continue;
        }
        let (c1, c2) = (at(amt), at(amt * (1.0 + 1e-9) + 1.5));
        let own = f(acc.token_position(x as u16).unwrap().native(&b));
        let owe = |amt: f64| (amt - own.max(0.0)).max(0.0);
        // (the window has been over for long by the clock of this machine)
        let room = match b.net_borrow_limit_per_window_quote {
            l if l < 0 => f64::INFINITY,
            l => l as f64 / w.price(x).max(f(b.stable_price())),
        };
        case.note(|| format!("{what}: {amt} -> {}, {}, room {room}", ratio(&c1), ratio(&c2)));
        if amt > 0.0 {
            case.nontrivial = true;
            case.label("offered");
            ensure!(ratio(&c1) >= f(min) - slack(&c1), "{what}: the offered {amt} takes the ratio to {}", ratio(&c1));
            ensure!(owe(amt) * (1.0 + fee) <= room * (1.0 + 1e-6) + 2.0, "{what}: the offered {amt} exceeds the limit for net borrows, {room}");
        }
        let more = amt * (1.0 + 1e-9) + 1.5;
        // (withdrawing deposits is refused as well once the last window is used up)
        let used_up = room.is_finite() && b.net_borrows_in_window as f64 >= room * (1.0 - 1e-6);
        let blocked = used_up || owe(more) * (1.0 + fee) >= room * (1.0 - 1e-6) - 2.0;
        if !blocked {
            case.label("maximal");
            ensure!(ratio(&c2) <= f(min) + 0.1 + slack(&c2) + 0.01, "{what}: offers {amt}, {more} still has ratio {}", ratio(&c2));
        }
    }
    Ok(())
}
