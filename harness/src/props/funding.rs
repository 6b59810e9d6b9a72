//! C13: perp funding: rate from the book, accrual over time, payment by exactly the positions held.
use crate::bookmodel::RefBook;
use crate::ensure;
use crate::machine::{Machine, K};
use crate::pbt::*;
use crate::pt::*;
use crate::world::*;
use mango_v4::error::MangoError;
use mango_v4::state::*;
use K::*;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "`rate`: random books of fixed, pegged and expiring orders, impact quantities, funding limits, oracle prices, gaps between updates and oracle faults; every funding update (own instruction or through placing an order) is compared with an independent computation. `paid`: random histories of trades, settlements, liquidations and force closes over moving funding indexes; the funding booked to each position equals the sum over time of lots held times index change. Non-trivial: an update with a non-zero rate was compared, or a position was held over a funding change",
        assumptions: &["bankruptcy also moves the funding indexes (C08); those steps are taken as given index changes"],
        suites: vec![
            Suite { name: "rate", quick: 6_000, thorough: 300_000, f: rate },
            Suite { name: "paid", quick: 6_000, thorough: 300_000, f: paid },
        ],
    }
}

fn book(w: &World, p: usize) -> Result<RefBook, String> {
    Ok(RefBook { sides: w.book(p)? })
}
/// price at which `q` lots could be traded right away
pub fn impact(b: &RefBook, side: Side, q: i64, oracle: i64, now: u64) -> Option<i64> {
    let mut left = q as i128;
    for (o, px) in b.valid(side, oracle, now) {
        left -= o.qty as i128;
        if left <= 0 { return Some(px); }
    }
    None
}

/// checks a successful update between two states
fn check(w: &World, case: &mut Case, bk: &RefBook, m0: &PerpMarket, m1: &PerpMarket, price: f64, now: u64, what: &str) -> Result<(), String> {
    let _ = w;
    if now <= m0.funding_last_updated {
        ensure!(m0.long_funding == m1.long_funding && m0.short_funding == m1.short_funding && m0.funding_last_updated == m1.funding_last_updated
            && m0.stable_price_model.stable_price == m1.stable_price_model.stable_price && m0.stable_price_model.last_update_timestamp == m1.stable_price_model.last_update_timestamp, "funding moved within one second after {what}");
        case.label("same second");
        return Ok(());
    }
    let dl = f(m1.long_funding - m0.long_funding);
    let ds = f(m1.short_funding - m0.short_funding);
    ensure!(m1.long_funding - m0.long_funding == m1.short_funding - m0.short_funding, "long funding moved by {dl}, short by {ds} after {what}");
    let lots = (price * m0.base_lot_size as f64 / m0.quote_lot_size as f64 + 1e-6) as i64;
    let mut want = vec![];
    // the oracle price in lots may be rounded either way right at a boundary
    for ol in [lots, lots - 1] {
        let b = impact(bk, Side::Bid, m0.impact_quantity, ol, now);
        let a = impact(bk, Side::Ask, m0.impact_quantity, ol, now);
        let (lo, hi) = (f(m0.min_funding), f(m0.max_funding));
        let r = match (b, a) {
            (Some(b), Some(a)) => {
                let mid = (b as f64 + a as f64) / 2.0;
                let per = m0.quote_lot_size as f64 / m0.base_lot_size as f64;
                let x = mid * per / price - 1.0;
                // the mid price is a whole number of lots
                let y = (mid - 0.5) * per / price - 1.0;
                if ol == lots { case.label(if b > a { "crossed" } else if x >= hi { "at max" } else if x <= lo { "at min" } else { "inside" }); }
                (y.max(lo).min(hi), x.max(lo).min(hi))
            }
            (Some(_), None) => { case.label("bids only"); (hi, hi) }
            (None, Some(_)) => { case.label("asks only"); (lo, lo) }
            (None, None) => { case.label("no depth"); (0.0, 0.0) }
        };
        want.push(r);
        let x = price * m0.base_lot_size as f64 / m0.quote_lot_size as f64;
        if (x - x.round()).abs() > 1e-6 { break; }
    }
    let dt = (now - m0.funding_last_updated).min(3600) as f64;
    if now - m0.funding_last_updated > 3600 { case.label("long gap"); }
    let k = price * m0.base_lot_size as f64 * dt / 86400.0;
    let tol = 1e-9 + 1e-9 * k.abs();
    ensure!(want.iter().any(|(x, y)| dl >= x * k - tol && dl <= y * k + tol), "funding moved by {dl} over {dt} s, expected a rate of {want:?} at price {price} after {what}");
    if dl != 0.0 { case.nontrivial(); }
    ensure!(m1.funding_last_updated == now, "funding updated at {}, recorded {}", now, m1.funding_last_updated);
    let mut sp = m0.stable_price_model.clone();
    sp.update(now, price);
    ensure!(close(m1.stable_price_model.stable_price, sp.stable_price, 1e-9, 1e-12) && m1.stable_price_model.last_update_timestamp == sp.last_update_timestamp, "stable price {} expected {} after {what}", m1.stable_price_model.stable_price, sp.stable_price);
    Ok(())
}

fn rate(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &[(PerpOrder, 5), (PerpPegged, 3), (PerpCancel, 2), (Consume, 2)]);
    let w = &m.w;
    for a in 1..5 { w.grant(a, 0, 0, 1e13); }
    for p in 0..2 {
        let (lo, hi) = src.pick(&[(-0.05, 0.05), (-0.001, 0.002), (0.0, 0.05), (-0.3, -0.01), (0.0, 0.0), (-0.05, 0.0)]);
        let iq = src.pick(&[1i64, 10, 100, 1000, 4000]);
        let t0 = w.now() - src.pick(&[0, 1, 100, 3600, 3601, 1_000_000]);
        let (l, s) = (src.f(-10.0, 10.0), src.f(-10.0, 10.0));
        w.edit_perp(p, |m| { m.min_funding = num(lo); m.max_funding = num(hi); m.impact_quantity = iq; m.funding_last_updated = t0; m.long_funding = num(l); m.short_funding = num(s); });
    }
    let n = 20 + src.below(30);
    for i in 0..n {
        // resting depth around a random level
        let p = src.idx(2);
        let fair = w.perp_price(p) * w.perps[p].base_lot as f64 / w.perp(p).quote_lot_size as f64;
        match src.weighted(&[if i < 12 { 40 } else { 8 }, 3, 3, 6, 6]) {
            0 => {
                let side = src.pick(&[Side::Bid, Side::Ask]);
                let mut ix = w.order_ix(1 + src.idx(4), p, side);
                let skew = if side == Side::Bid { -1.0 } else { 1.0 };
                ix.price_lots = ((fair * (1.0 + skew * src.pick(&[0.0, 0.0005, 0.002, 0.01, 0.04]) + src.pick(&[0.0, 0.01, -0.01]))) as i64).max(1);
                ix.max_base_lots = src.log_range(1, 5_000) as i64;
                let mut raw = ix.to_instruction(&*w.s).1;
                raw.data = anchor_lang::InstructionData::data(&mango_v4::instruction::PerpPlaceOrderV2 {
                    side, price_lots: ix.price_lots, max_base_lots: ix.max_base_lots, max_quote_lots: i64::MAX, client_order_id: 0, order_type: PlaceOrderType::PostOnly,
                    reduce_only: false, expiry_timestamp: if src.chance(20) { w.now() + src.urange(1, 60) } else { 0 }, limit: 10, self_trade_behavior: SelfTradeBehavior::DecrementTake,
                });
                let (bk, m0, now, px) = (book(w, p)?, w.perp(p), w.now(), w.perp_price(p));
                if w.ok_raw(raw, &ix.signers()) {
                    case.note(|| format!("perp {p} {side:?} {} @ {} (fair {fair:.1})", ix.max_base_lots, ix.price_lots));
                    check(w, case, &bk, &m0, &w.perp(p), px, now, "placing an order")?;
                }
            }
            1 => {
                let s = w.snap();
                let (bk, m0) = ([book(w, 0)?, book(w, 1)?], [w.perp(0), w.perp(1)]);
                let st = m.step(src, &s);
                case.note(|| format!("{} -> {}", st.what, st.ok));
                let q = st.p;
                if st.ok && (st.k == PerpOrder || st.k == PerpPegged) {
                    check(w, case, &bk[q], &m0[q], &w.perp(q), s.perp_price[q], s.now, &st.what)?;
                } else if st.ok {
                    ensure!(w.perp(q).long_funding == m0[q].long_funding && w.perp(q).funding_last_updated == m0[q].funding_last_updated, "funding moved by {}", st.what);
                }
            }
            2 => {
                // keep the positions small against the price
                let k = src.pick(&[0.9, 0.98, 0.995, 0.9999, 1.0001, 1.005, 1.02, 1.1, 1.0003]);
                let px = w.perp_price(p) * k;
                w.set_perp_price(p, px, None);
                case.note(|| format!("perp {p} price {px}"));
            }
            3 => {
                let dt = src.pick(&[0u64, 1, 5, 30, 600, 3599, 3600, 3601, 100_000]);
                w.advance(dt);
                for q in 0..2 { w.set_perp_price(q, w.perp_price(q), None); }
                for t in 0..5 { w.set_price(t, w.price(t), None); }
                case.note(|| format!("+{dt} s"));
            }
            _ => {
                // the update itself, possibly with an unusable oracle
                let o = w.perps[p].oracle;
                let good: StubOracle = w.s.get_account(o);
                let fault = if src.chance(70) { 0 } else { 1 + src.below(2) };
                let mut bad = good.clone();
                let mut usable = true;
                let (conf, stale) = (src.pick(&[0.1, 0.01]), src.pick(&[120i64, 1]));
                w.edit_perp(p, |m| { m.oracle_config.conf_filter = num(conf); m.oracle_config.max_staleness_slots = stale; });
                match fault {
                    1 => {
                        let y = src.pick(&[0.5, 0.99, 1.01, 2.0]);
                        bad.deviation = num(f(good.price) * conf * y);
                        usable = y < 1.0;
                    }
                    2 => {
                        let y = src.range(-1, 2);
                        bad.last_update_slot = (w.s.clock().slot as i64 - stale - y).max(1) as u64;
                        usable = bad.last_update_slot as i64 + stale >= w.s.clock().slot as i64;
                    }
                    _ => {}
                }
                w.s.set_account(o, &bad);
                let (bk, m0, now) = (book(w, p)?, w.perp(p), w.now());
                let ok = w.ok(PerpUpdateFundingInstruction { perp_market: w.perps[p].key, bank: w.tokens[0].bank, oracle: o });
                case.note(|| format!("perp {p} update (fault {fault}) -> {ok}"));
                ensure!(ok == usable, "update {} with fault {fault}: {}", if ok { "succeeded" } else { "failed" }, if ok { String::new() } else { w.fail_text() });
                if ok {
                    check(w, case, &bk, &m0, &w.perp(p), f(bad.price), now, "update")?;
                } else {
                    case.label("bad oracle");
                    let want = if fault == 1 { MangoError::OracleConfidence } else { MangoError::OracleStale };
                    ensure!(super::gates::is_err(&w.fail_text(), want), "refused with {}", w.fail_text());
                }
                w.s.set_account(o, &good);
                w.edit_perp(p, |m| { m.oracle_config.conf_filter = num(0.1); m.oracle_config.max_staleness_slots = -1; });
            }
        }
    }
    Ok(())
}

fn paid(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &[
        (Time, 5), (Price, 4), (PerpOrder, 24), (PerpPegged, 4), (PerpCancel, 2), (Consume, 14), (Funding, 8), (SettlePnl, 6), (SettleFees, 3),
        (PerpLiqBase, 5), (PerpLiqNeg, 2), (PerpLiqCancel, 1), (ForceClosePerp, 4),
    ]);
    let w = &m.w;
    for p in 0..2 {
        let (l, s) = (src.f(-3.0, 3.0), src.f(-3.0, 3.0));
        w.edit_perp(p, |m| { m.long_funding = num(l); m.short_funding = num(s); });
    }
    let mut b = w.snap();
    // funding owed since the start: by longs, by shorts
    let owed = |s: &Snap, a: usize, p: usize| {
        let (pp, m) = (s.pp(a, p), &s.perps[p]);
        let n = pp.base_position_lots as f64;
        let l = if pp.base_position_lots > 0 { n * f(m.long_funding - pp.long_settled_funding) } else { 0.0 };
        let s = if pp.base_position_lots < 0 { -n * f(m.short_funding - pp.short_settled_funding) } else { 0.0 };
        (pp.cumulative_long_funding + l, pp.cumulative_short_funding + s)
    };
    let mut acc = vec![[(0.0, 0.0); 2]; N_ACC];
    for a in 0..N_ACC { for p in 0..2 { acc[a][p] = owed(&b, a, p); } }
    let mut slop = vec![[1e-6f64; 2]; N_ACC];
    let n = 10 + src.below(40);
    for _ in 0..n {
        if src.chance(20) {
            let p = src.idx(2);
            let (l, s) = (src.f(-1.0, 1.0), src.f(-1.0, 1.0));
            w.edit_perp(p, |m| { m.long_funding += num(l); m.short_funding += num(s); });
            case.note(|| format!("perp {p} funding {l:+} {s:+}"));
        }
        let st = m.step(src, &b);
        let a = w.snap();
        case.note(|| format!("{} -> {}", st.what, if st.ok { "ok".into() } else { st.err.clone() }));
        if st.ok { case.label(st.k.name()); }
        for p in 0..2 {
            let dl = f(a.perps[p].long_funding - b.perps[p].long_funding);
            let ds = f(a.perps[p].short_funding - b.perps[p].short_funding);
            for x in 0..N_ACC {
                // the index moves while the old position is held: before the trade of the same step
                let bp = b.pp(x, p);
                let nl = bp.base_position_lots.max(0) as f64;
                let ns = (-bp.base_position_lots).max(0) as f64;
                let bankrupt = st.ok && st.k == PerpLiqNeg && st.p == p;
                if a.accs[x].perp_position(p as u16).is_err() || b.accs[x].perp_position(p as u16).is_err() || bankrupt {
                    acc[x][p] = owed(&a, x, p);
                    continue;
                }
                acc[x][p].0 += nl * dl;
                acc[x][p].1 += ns * ds;
                if nl * dl != 0.0 || ns * ds != 0.0 { case.nontrivial(); }
                slop[x][p] += 1e-12 * (nl + ns) * (f(a.perps[p].long_funding).abs() + f(a.perps[p].short_funding).abs() + 1.0);
                let got = owed(&a, x, p);
                let t = slop[x][p] + 1e-11 * (acc[x][p].0.abs() + acc[x][p].1.abs());
                ensure!((got.0 - acc[x][p].0).abs() <= t && (got.1 - acc[x][p].1).abs() <= t,
                    "acc {x} perp {p}: funding of longs/shorts {}/{} but it held lots worth {}/{} after {} ({:?} -> {:?})", got.0, got.1, acc[x][p].0, acc[x][p].1, st.what, b.pp(x, p), a.pp(x, p));
            }
        }
        b = a;
    }
    Ok(())
}
