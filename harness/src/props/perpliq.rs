//! C09: liquidation of perp positions: price, fee, direction, bounds, completeness; force-cancelling orders.
use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use crate::props::gates::is_err;
use crate::pt::*;
use crate::world::*;
use anchor_lang::InstructionData;
use mango_v4::error::MangoError;
use mango_v4::state::*;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "`base`: random accounts with a base position or unsettled pnl, random weights, fees, funding and limits by the caller; the transfers are judged against price, fee and health rules. `cancel`: accounts with random resting orders, force-cancelled by a third party in every account/market condition. Non-trivial: a liquidation or cancellation happened, or was refused while the account was unhealthy",
        assumptions: &["a base lot's liquidation raises the position's weighted pnl (base fee smaller than the weight margin)"],
        suites: vec![
            Suite { name: "base", quick: 60_000, thorough: 3_000_000, f: base },
            Suite { name: "cancel", quick: 4_000, thorough: 200_000, f: cancel },
        ],
    }
}
const LIQEE: usize = 1;

fn base(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.random_bank_config(src);
    w.whale_liquidity();
    for t in 0..5 {
        let p = w.price(t) * src.pick(&[1.0, 0.7, 2.7, 1.01]);
        w.set_price(t, p, Some(p * src.pick(&[1.0, 0.8, 1.3])));
    }
    // the settle token may carry weights of its own
    let (sa, sl) = (src.pick(&[1.0, 0.9, 0.5]), src.pick(&[1.0, 1.1, 1.5]));
    w.edit_token(0, |b| { b.init_asset_weight = num(sa); b.maint_asset_weight = num(sa); b.init_liab_weight = num(sl); b.maint_liab_weight = num(sl); });
    let p = src.idx(2);
    for q in 0..2 {
        let (ia, il) = (src.f(0.5, 0.95), src.f(1.05, 1.5));
        let margin = (1.0 - ia).min(il - 1.0) * 0.9;
        let bf = margin * src.pick(&[0.0, 0.3, 0.6]);
        let pf = (margin - bf) * src.pick(&[0.0, 0.5]);
        let ow = src.pick(&[0.0, 0.0, 0.5, 0.9, 1.0]);
        let pl = src.pick(&[0.0, 0.02, 0.1]);
        let (lf, sf) = (src.range(-100, 100) as f64 / 7.0, src.range(-100, 100) as f64 / 11.0);
        let pp = w.perp_price(q) * src.pick(&[1.0, 1.0, 0.6, 1.7]);
        w.set_perp_price(q, pp, Some(pp * src.pick(&[1.0, 0.8, 1.3])));
        let factor = src.pick(&[-1.0f32, 0.2, 1.0]);
        w.edit_perp(q, |m| {
            m.init_base_asset_weight = num(ia);
            m.maint_base_asset_weight = num(ia + (1.0 - ia) * 0.5);
            m.init_base_liab_weight = num(il);
            m.maint_base_liab_weight = num(1.0 + (il - 1.0) * 0.5);
            m.base_liquidation_fee = num(bf);
            m.platform_liquidation_fee = num(pf);
            m.positive_pnl_liquidation_fee = num(pl);
            m.init_overall_asset_weight = num(ow);
            m.maint_overall_asset_weight = num(ow + (1.0 - ow) * 0.2);
            m.long_funding = num(lf);
            m.short_funding = num(sf);
            m.settle_pnl_limit_factor = factor;
        });
    }
    // positions
    let m = w.perp(p);
    let lotv = m.base_lot_size as f64 * w.perp_price(p);
    let lots = if src.chance(15) { 0 } else { src.log_range(1, 20_000) as i64 };
    let long = src.bool();
    let entry = lotv * lots as f64 * src.f(0.5, 1.5);
    if lots != 0 {
        if long { w.grant_perp(p, LIQEE, 2, lots, num(entry)) } else { w.grant_perp(p, 2, LIQEE, lots, num(entry)) }
    }
    if src.chance(40) || lots == 0 {
        let q = src.log_range(1, 1 << 34) as i64 * if src.chance(30) { -1 } else { 1 };
        w.edit_acc(LIQEE, |a| { a.ensure_perp_position(p as u16, 0).unwrap(); a.perp_position_mut(p as u16).unwrap().quote_position_native += num(q); });
    }
    if src.chance(25) {
        let q = src.log_range(1, 1 << 32) as i64 * if src.chance(50) { -1 } else { 1 };
        w.edit_acc(LIQEE, |a| { a.ensure_perp_position(1 - p as u16, 0).unwrap(); a.perp_position_mut(1 - p as u16).unwrap().quote_position_native += num(q); });
    }
    // unsettled funding and settle limit bookkeeping
    let (fl, fs) = (src.range(-50, 50) as f64 / 7.0, src.range(-50, 50) as f64 / 7.0);
    let (rec, one) = (src.log(1 << 34) as i64, src.range(-1, 1) * src.log(1 << 34) as i64);
    w.edit_acc(LIQEE, |a| {
        let pp = a.perp_position_mut(p as u16).unwrap();
        pp.long_settled_funding += num(fl);
        pp.short_settled_funding += num(fs);
        pp.recurring_settle_pnl_allowance = rec;
        pp.oneshot_settle_pnl_allowance = num(one);
    });
    for t in 0..5 {
        match src.below(5) {
            1 => w.grant(LIQEE, t, src.idx(2), (src.log_range(1, 1 << 33) as f64 / w.price(t)).ceil()),
            2 => w.grant(LIQEE, t, src.idx(2), -(src.log_range(1, 1 << 32) as f64 / w.price(t)).ceil()),
            _ => {}
        }
    }
    w.edit_acc(LIQEE, |a| { a.ensure_token_position(0).unwrap(); });
    if src.chance(80) {
        let h = w.health(&w.snap(), LIQEE);
        let t = src.idx(5);
        let end = h.health(if src.bool() { HT::LiqEnd } else { HT::Maint });
        let unit = w.price(t) * if end > 0.0 { f(w.tbank(t).init_liab_weight) } else { f(w.tbank(t).init_asset_weight).max(0.05) };
        let want = match src.below(6) { 0 => 0.0, 1 => -2.0, 2 => -0.7, 3 => -(lotv * src.f(0.0, 3.0)), 4 => -(lotv * lots as f64 * src.f(0.0, 0.3)), _ => -(h.mag * src.f(0.0, 0.3)) };
        let d = (want - end) / unit;
        if d.abs() < 1e14 { w.grant(LIQEE, t, src.idx(2), if src.bool() { d } else { d.floor() }) }
    }
    let extra = match src.below(40) {
        1 => { w.edit_acc(LIQEE, |a| a.perp_position_mut(p as u16).unwrap().bids_base_lots = 1); "orders" }
        2 => { w.edit_acc(LIQEE, |a| a.perp_position_mut(p as u16).unwrap().taker_base_lots = 1); "fills" }
        _ => "",
    };
    let flag = src.chance(40);
    w.edit_acc(LIQEE, |a| a.fixed.set_being_liquidated(flag));
    // liqor
    if src.chance(30) {
        let l = src.log_range(1, 5000) as i64;
        let v = num(lotv * l as f64);
        if src.bool() { w.grant_perp(p, LIQOR, 3, l, v) } else { w.grant_perp(p, 3, LIQOR, l, v) }
    }
    if src.chance(75) { w.grant(LIQOR, 0, 0, 1e12); } else {
        w.grant(LIQOR, 1, 0, 1e6);
        let h = w.health(&w.snap(), LIQOR).health(HT::Init);
        w.grant(LIQOR, 0, 0, (-h + src.range(-1000, 1_000_000) as f64) / w.price(0));
    }
    let maxb = match src.below(3) { 0 => i64::MAX, 1 => src.log(30_000) as i64, _ => src.range(0, lots) } * if long { 1 } else { -1 } * if src.chance(3) { -1 } else { 1 };
    let maxp = match src.below(4) { 0 | 1 => u64::MAX, 2 => 0, _ => src.log(1 << 34) };
    let b = w.snap();
    let h = w.health(&b, LIQEE);
    let fork = w.fork();
    let raw = w.raw_state();
    let mk = || PerpLiqBaseOrPositivePnlInstruction {
        liqor: w.accs[LIQOR].key, liqor_owner: w.accs[LIQOR].owner, liqee: w.accs[LIQEE].key,
        perp_market: w.perps[p].key, max_base_transfer: maxb, max_pnl_transfer: maxp,
    };
    let ok = w.ok(mk());
    let err = w.fail_text();
    let e = w.snap();
    let (pb, pe) = (b.pp(LIQEE, p), e.pp(LIQEE, p));
    let (end0, maint0) = (h.health(HT::LiqEnd), h.health(HT::Maint));
    let hp = h.perps.iter().find(|x| x.idx == p as u16).unwrap();
    let uh0 = hp.uhupnl(HT::LiqEnd);
    case.note(|| format!("liqee {} lots quote {} upnl(weighted) {uh0}, settle token {}, liquidation end health {end0}, maint {maint0}, flagged {flag}; overall weight {}, fees {} {} pnl fee {}; limits {maxb} {maxp} {extra} -> {}",
        pb.base_position_lots, pb.quote_position_native, b.pos(LIQEE, 0), m_w(&b, p), b.perps[p].base_liquidation_fee, b.perps[p].platform_liquidation_fee, b.perps[p].positive_pnl_liquidation_fee, if ok { "ok" } else { &err }));
    let tol = h.tol();
    let phase1 = h.phase1();
    let (gate, edge) = if flag { (end0 <= -1.0, (end0 + 1.0).abs() <= 2.0 * tol) } else { (maint0 < 0.0, maint0.abs() <= 2.0 * tol) };
    if edge { return Ok(()) }
    if !ok {
        ensure!(raw == w.raw_state(), "failed transaction changed state");
        if phase1 { case.nontrivial(); case.label("orders first"); return Ok(()) }
        if !gate { return Err(format!("refused for a healthy account: {err}")) }
        if extra == "fills" { case.nontrivial(); case.label("open fills"); return Ok(()) }
        if (pb.base_position_lots > 0 && maxb < 0) || (pb.base_position_lots <= 0 && maxb > 0) { case.label("wrong direction"); return Ok(()) }
        if is_err(&err, MangoError::HealthMustBePositive) {
            case.nontrivial();
            case.label("liqor too weak");
            // a token whose weight matters to neither side
            let Some(t) = (1..5).rev().find(|t| b.posx(LIQEE, *t) == 0.0 && b.posx(LIQOR, *t) == 0.0) else { return Ok(()) };
            fork.edit_token(t, |b| b.init_asset_weight = num(1));
            fork.grant(LIQOR, t, 0, 1e13);
            ensure!(fork.ok(mk()), "refused for the liqor's health, and with collateral: {}", fork.fail_text());
            fork.grant(LIQOR, t, 0, -1e13);
            let hl = fork.health(&fork.snap(), LIQOR);
            let x = hl.health(HT::Init);
            ensure!(x < 2.0 * hl.tol() + 1.0, "refused, but the liqor would end with init health {x}");
            return Ok(());
        }
        return Err(format!("perp liquidation refused: {err}"));
    }
    if !gate {
        case.label("not liquidatable");
        for x in 0..b.accs.len() { ensure!(b.accs[x].dynamic == e.accs[x].dynamic, "healthy account liquidated"); }
        return Ok(());
    }
    ensure!(!phase1, "liquidated while orders rest on the book");
    ensure!(extra != "fills", "liquidated with unprocessed fills");
    case.nontrivial();
    let (mb, me) = (&b.perps[p], &e.perps[p]);
    let db = pe.base_position_lots - pb.base_position_lots;
    let price = b.perp_price[p] * mb.base_lot_size as f64;
    // base: towards zero only, at most what was asked for
    ensure!((db == 0 || db.signum() != pb.base_position_lots.signum()) && db.abs() <= pb.base_position_lots.abs() && db.unsigned_abs() <= maxb.unsigned_abs(), "base moved by {db} from {} (asked {maxb})", pb.base_position_lots);
    let (lb, le) = (b.pp(LIQOR, p), e.pp(LIQOR, p));
    ensure!(le.base_position_lots - lb.base_position_lots == -db, "liqor's base moved by {}", le.base_position_lots - lb.base_position_lots);
    let s = if pb.base_position_lots > 0 { -1.0 } else { 1.0 };
    let (bf, pf, plf) = (f(mb.base_liquidation_fee), f(mb.platform_liquidation_fee), f(mb.positive_pnl_liquidation_fee));
    let trade = -db as f64 * price;
    let q_liqee = trade * (1.0 + s * (bf + pf));
    let q_liqor = -trade * (1.0 + s * bf);
    // pnl: paid for in settle tokens at the fee
    let t1 = 1e-6 + 1e-11 * (b.pos(LIQEE, 0).abs() + b.pos(LIQOR, 0).abs() + trade.abs() + f(pb.quote_position_native).abs());
    let paid = e.pos(LIQEE, 0) - b.pos(LIQEE, 0);
    let recv = e.pos(LIQOR, 0) - b.pos(LIQOR, 0);
    let pnl = (f(pb.quote_position_native) - f(pb.unsettled_funding(mb)) + q_liqee) - f(pe.quote_position_native);
    ensure!(pnl >= -t1 && pnl <= maxp as f64 + t1, "pnl taken {pnl}, limit {maxp}");
    let dust_ok = |x: f64, before: f64, want: f64| (x - want).abs() <= t1 || ((before + x).abs() < 1e-9 && (before + want).abs() < 1.0 + t1);
    ensure!(dust_ok(paid, b.pos(LIQEE, 0), pnl * (1.0 - plf)), "pnl {pnl} paid with {paid}");
    ensure!(dust_ok(recv, b.pos(LIQOR, 0), -pnl * (1.0 - plf)), "liqor paid {recv} for pnl {pnl}");
    let lq = f(le.quote_position_native) - f(lb.quote_position_native) + f(lb.unsettled_funding(mb));
    ensure!((lq - (q_liqor + pnl)).abs() <= t1 + 1e-11 * f(lb.quote_position_native).abs(), "liqor's quote changed by {lq}, expected {q_liqor} + {pnl}");
    let fee = f(me.fees_accrued) - f(mb.fees_accrued);
    ensure!((fee - (-q_liqee - q_liqor)).abs() <= t1, "platform fee {fee}, expected {}", -q_liqee - q_liqor);
    ensure!((f(me.accrued_liquidation_fees) - f(mb.accrued_liquidation_fees) - fee).abs() <= t1, "liquidation fee statistic");
    if db != 0 { case.label("base"); }
    if pnl > 0.5 { case.label("pnl"); }
    // health of the liqee
    let he = w.health(&e, LIQEE);
    let end1 = he.health(HT::LiqEnd);
    let ep = he.perps.iter().find(|x| x.idx == p as u16);
    let uh1 = ep.map(|x| x.uhupnl(HT::LiqEnd)).unwrap_or(0.0);
    let tl = 2.0 * (tol + he.tol()) + 2.0 * t1;
    let (sp, wl) = (b.tok_price[0], b.tok_price[0] * f(b.b(0, 0).init_liab_weight));
    let _ = sp;
    let ow = f(mb.init_overall_asset_weight);
    let per_lot = price * if pb.base_position_lots > 0 { (1.0 - bf - pf) - f(mb.init_base_asset_weight) } else { f(mb.init_base_liab_weight) - (1.0 + bf + pf) };
    ensure!(end1 >= end0 - tl, "liquidation lowered health {end0} -> {end1}");
    // (when weighting pnl is worth more than settling it, lots are counted at the settlement value)
    let under = if ow > 1.0 - plf { db.abs() as f64 * per_lot * wl * (ow - (1.0 - plf)) } else { 0.0 };
    ensure!(end1 <= end0.max(0.0) + per_lot * wl + tl + wl + under, "liquidation overshot: health {end0} -> {end1}, one lot is worth {}", per_lot * wl);
    if pnl > t1 { ensure!(uh1 >= -t1 - tl, "took over pnl of {pnl} although the weighted pnl is {uh1}"); }
    // completeness
    // (the lot that lifts negative pnl above zero counts in full, so up to one lot may be left for another call)
    let crossing = if uh0 < 0.0 && db != 0 { per_lot * wl } else { 0.0 };
    if end1 < -1.0 - tl - crossing {
        let pnl_left = uh1 > 1e-3 + tl && pnl + 1.0 + t1 < maxp as f64 && (1.0 - plf) - ow > 1e-9;
        ensure!(!pnl_left, "still at health {end1} although {uh1} of pnl could be taken (took {pnl} of {maxp})");
        let base_left = pe.base_position_lots != 0 && db.unsigned_abs() < maxb.unsigned_abs();
        let helps = uh1 < -tl || ow > 0.0 || ((1.0 - plf) > 0.0 && pnl + per_lot + 1.0 + t1 < maxp as f64);
        ensure!(!(base_left && helps), "still at health {end1} although {} lots could be taken", pe.base_position_lots);
    }
    // the rest
    let expect_oi = (0..b.accs.len()).map(|a| e.pp(a, p).base_position_lots.abs() - b.pp(a, p).base_position_lots.abs()).sum::<i64>();
    ensure!(me.open_interest - mb.open_interest == expect_oi, "open interest moved by {}, positions by {expect_oi}", me.open_interest - mb.open_interest);
    for a in 0..b.accs.len() {
        if a != LIQEE && a != LIQOR { ensure!(b.accs[a].dynamic == e.accs[a].dynamic, "positions of acc {a} changed"); }
        ensure!(bytemuck::bytes_of(&b.pp(a, 1 - p)) == bytemuck::bytes_of(&e.pp(a, 1 - p)), "other market's position of acc {a} changed");
        for t in 1..5 { ensure!(b.posx(a, t) == e.posx(a, t), "token {t} of acc {a} changed"); }
    }
    ensure!(b.insurance == e.insurance, "insurance changed");
    for t in 0..5 { for n in 0..2 { ensure!(b.v(t, n) == e.v(t, n), "vault changed"); } }
    if (end1 + 1.0).abs() > tl {
        ensure!(e.accs[LIQEE].fixed.being_liquidated() == (end1 <= -1.0), "liquidation end health {end1} but flag {}", e.accs[LIQEE].fixed.being_liquidated());
    }
    let hl = w.health(&e, LIQOR);
    ensure!(hl.health(HT::Init) >= -hl.tol() - 1e-9, "liqor ends with init health {}", hl.health(HT::Init));
    // what may be settled from taken-over pnl never exceeds it
    if db == 0 {
        let d = (le.recurring_settle_pnl_allowance.abs() - lb.recurring_settle_pnl_allowance.abs()) as f64 + f(le.oneshot_settle_pnl_allowance) - f(lb.oneshot_settle_pnl_allowance);
        ensure!(d <= pnl.ceil().max(1.0) + t1 + f(lb.unsettled_funding(mb)).abs() , "liqor may settle {d} more after taking over pnl {pnl}");
    }
    Ok(())
}
fn m_w(b: &Snap, p: usize) -> f64 {
    f(b.perps[p].init_overall_asset_weight)
}

/// the instruction with an explicit limit and market condition
fn cancel(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.whale_liquidity();
    for a in 1..4 { w.grant(a, 0, 0, 1e10); w.grant(a, 2, 0, 1e8); }
    let p = src.idx(2);
    let pm = w.perp(p);
    let fair = w.perp_price(p) * pm.base_lot_size as f64 / pm.quote_lot_size as f64;
    for _ in 0..src.below(9) {
        let a = 1 + src.idx(2);
        let side = src.pick(&[Side::Bid, Side::Ask]);
        let q = if src.chance(20) { 1 - p } else { p };
        let mut ix = w.order_ix(a, q, side);
        let fr = if q == p { fair } else { let m = w.perp(q); w.perp_price(q) * m.base_lot_size as f64 / m.quote_lot_size as f64 };
        let off = src.f(0.06, 0.2);
        ix.price_lots = ((fr * if side == Side::Bid { 1.0 - off } else { 1.0 + off }).round() as i64).max(1);
        ix.max_base_lots = src.log_range(1, 50) as i64;
        w.ok(ix);
        case.note(|| format!("acc {a} market {q} {:?} -> {}", side as u8, w.fail_text()));
    }
    let cond = src.below(6);
    let who = 1;
    match cond {
        0 => {}
        1 => { w.edit_acc(who, |a| a.fixed.set_being_liquidated(true)); }
        2 => { w.grant(who, 1, 0, -1e12); }
        3 => { w.grant(who, 1, 0, -1e12); w.edit_acc(who, |a| a.fixed.set_being_liquidated(true)); }
        4 => { let frozen = w.now() + 100; w.edit_acc(who, |a| a.fixed.frozen_until = frozen); }
        _ => { w.edit_perp(p, |m| { m.force_close = 1; m.reduce_only = 1; }); }
    }
    let limit = src.pick(&[0u8, 1, 2, 255, 255]);
    let b = w.snap();
    let h = w.health(&b, who);
    let flag = b.accs[who].fixed.being_liquidated();
    let orders = |w: &World, a: usize, q: usize| -> Vec<(u128, u64, u8)> {
        w.acc(a).all_perp_orders().filter(|o| o.market == q as u16).map(|o| (o.id, o.client_id, o.side_and_tree().side() as u8)).collect()
    };
    let before: Vec<_> = (0..4).map(|a| (0..2).map(|q| orders(&w, a, q)).collect::<Vec<_>>()).collect();
    let (_, mut raw) = PerpLiqForceCancelOrdersInstruction { account: w.accs[who].key, perp_market: w.perps[p].key }.to_instruction(&*w.s);
    raw.data = mango_v4::instruction::PerpLiqForceCancelOrders { limit }.data();
    let ok = w.ok_raw(raw, &[]);
    let err = w.fail_text();
    let e = w.snap();
    let allowed = match cond { 4 | 5 => true, _ => if flag { h.health(HT::LiqEnd) <= -1.0 } else { h.health(HT::Maint) < 0.0 } };
    case.note(|| format!("condition {cond}, limit {limit}, orders {} -> {}", before[who][p].len(), if ok { "ok" } else { &err }));
    if !ok {
        if limit == 0 && b.accs[who].perp_position(p as u16).is_ok() { return Ok(()) }
        ensure!(is_err(&err, MangoError::PerpPositionDoesNotExist) && b.accs[who].perp_position(p as u16).is_err(), "force cancel refused: {err}");
        return Ok(());
    }
    let after = orders(&w, who, p);
    let n0 = before[who][p].len();
    let gone = if allowed { (limit as usize).min(n0) } else { 0 };
    if n0 > 0 { case.nontrivial(); case.label(["healthy", "recovered", "unhealthy", "being liquidated", "frozen", "market closing"][cond as usize]); }
    ensure!(after.len() == n0 - gone, "{} of {n0} orders left, limit {limit}, allowed {allowed}", after.len());
    ensure!(after.iter().all(|o| before[who][p].contains(o)), "an order appeared");
    for a in 0..4 { for q in 0..2 {
        if (a, q) != (who, p) { ensure!(orders(&w, a, q) == before[a][q], "orders of acc {a} in market {q} changed"); }
        let (x, y) = (b.pp(a, q), e.pp(a, q));
        ensure!(x.base_position_lots == y.base_position_lots && x.quote_position_native == y.quote_position_native, "position of acc {a} changed");
    } }
    // the position's reservation equals what is left on the book
    let book = w.book(p)?;
    for a in 1..4 {
        let y = e.pp(a, p);
        let k = w.accs[a].key;
        let lots = |s: Side| book[s as usize].iter().filter(|o| o.owner == k).map(|o| o.qty).sum::<i64>();
        ensure!(y.bids_base_lots == lots(Side::Bid) && y.asks_base_lots == lots(Side::Ask), "acc {a} reserves {}/{} lots, book has {}/{}", y.bids_base_lots, y.asks_base_lots, lots(Side::Bid), lots(Side::Ask));
    }
    if flag {
        let x = w.health(&e, who).health(HT::LiqEnd);
        ensure!(e.accs[who].fixed.being_liquidated() == (x <= -1.0), "liquidation end health {x}, flag {}", e.accs[who].fixed.being_liquidated());
    }
    Ok(())
}
