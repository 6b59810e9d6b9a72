//! C07: token-for-token liquidation and forced closing of borrows: price, fee, bounds, completeness.
use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use crate::props::gates::is_err;
use crate::pt::*;
use crate::world::*;
use mango_v4::error::MangoError;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "`liq`: random unhealthy (or barely healthy, or flagged) accounts with several deposits, borrows and perp pnl, random weights/fees/prices, random choice of asset, debt and limit; the liquidated amounts are compared with the amounts the rules allow, every other balance must stay. `force`: the same for forced closing of borrows. Non-trivial: a liquidation happened or was refused for a reason other than a missing position",
        assumptions: &["the debt's weighted price exceeds the asset's weighted price including fees (otherwise liquidation does not help the account); stub oracles with fresh prices"],
        suites: vec![
            Suite { name: "liq", quick: 100_000, thorough: 4_000_000, f: liq },
            Suite { name: "force", quick: 50_000, thorough: 2_000_000, f: force },
        ],
    }
}
const LIQEE: usize = 1;

fn setup(src: &mut Src) -> World {
    let w = World::new();
    w.random_bank_config(src);
    w.whale_liquidity();
    for t in 0..5 {
        let p = w.price(t) * src.pick(&[1.0, 0.7, 2.7, 1.01]);
        w.set_price(t, p, Some(p * src.pick(&[1.0, 1.0, 0.8, 1.3])));
    }
    for p in 0..2 {
        let ow = src.pick(&[0.0, 0.5, 1.0]);
        w.edit_perp(p, |m| { m.init_overall_asset_weight = num(ow); m.maint_overall_asset_weight = num(ow); });
    }
    w
}
fn liqor(w: &World, src: &mut Src) {
    for t in 0..5 {
        if src.bool() {
            let v = src.log_range(1, 1_000_000_000) as f64 * if src.chance(20) { -1.0 } else { 1.0 };
            w.grant(LIQOR, t, src.idx(2), (v / w.price(t)).round());
        }
    }
    if src.chance(70) {
        w.grant(LIQOR, 0, 0, 1e12);
    } else {
        let h = w.health(&w.snap(), LIQOR).health(HT::Init);
        w.grant(LIQOR, 0, 0, (-h + src.range(-1000, 100_000) as f64) / w.price(0));
    }
}
/// `liqee`: random deposits, borrows and perp pnl, then scaled so that health is near a wanted ratio.
fn liqee(w: &World, src: &mut Src) {
    let mut any = false;
    for t in 0..5 {
        let k = src.below(4);
        let v = src.log_range(1, 1 << 34) as f64;
        match k {
            1 => w.grant(LIQEE, t, src.idx(2), (v / w.price(t)).ceil()),
            2 | 3 => { any = true; w.grant(LIQEE, t, src.idx(2), -(v / w.price(t)).ceil()) }
            _ => {}
        }
    }
    if !any { w.grant(LIQEE, 1, 0, -(src.log_range(1, 1 << 34) as f64)) }
    for p in 0..2 {
        match src.below(6) {
            1 => {
                let q = src.log_range(1, 1 << 33) as i64 * if src.bool() { 1 } else { -1 };
                w.edit_acc(LIQEE, |a| { a.ensure_perp_position(p as u16, 0).unwrap(); a.perp_position_mut(p as u16).unwrap().quote_position_native = num(q); });
            }
            2 => {
                let lots = src.log_range(1, 100_000) as i64;
                let m = w.perp(p);
                let v = lots as f64 * m.base_lot_size as f64 * w.perp_price(p) * src.f(0.7, 1.3);
                if src.bool() { w.grant_perp(p, LIQEE, 2, lots, num(v)) } else { w.grant_perp(p, 2, LIQEE, lots, num(v)) }
            }
            _ => {}
        }
    }
    // balance the books with one of the tokens so that the account is near the edge
    if src.chance(75) {
        let h = w.health(&w.snap(), LIQEE);
        let t = src.idx(5);
        let end = h.health(if src.bool() { HT::LiqEnd } else { HT::Maint });
        let unit = w.price(t) * if end > 0.0 { f(w.tbank(t).init_liab_weight) } else { f(w.tbank(t).init_asset_weight).max(0.05) };
        let want = match src.below(5) { 0 => 0.0, 1 => -2.0, 2 => -0.9, 3 => end * src.f(0.0, 0.3), _ => -(h.mag * src.f(0.0, 0.3)) };
        let d = (want - end) / unit;
        if d.abs() < 1e14 { w.grant(LIQEE, t, src.idx(2), if src.bool() { d } else { d.floor() }) }
    }
    if src.chance(20) {
        let t = src.idx(5);
        w.edit_token(t, |b| b.disable_asset_liquidation = 1);
    }
    let flag = src.chance(40);
    w.edit_acc(LIQEE, |a| a.fixed.set_being_liquidated(flag));
}

struct Move { to: f64, from: f64, liab: f64, wiggle: f64 }

/// Everything that must have happened given the amounts.
fn effects(w: &World, b: &Snap, e: &Snap, a: usize, l: usize, m: &Move, liqor_fee: bool) -> Result<(), String> {
    let wl = m.wiggle;
    let rel = 1e-11;
    for t in 0..5 {
        let (q0, q1) = (b.pos(LIQEE, t), e.pos(LIQEE, t));
        let (r0, r1) = (b.pos(LIQOR, t), e.pos(LIQOR, t));
        let tol = 1e-6 + rel * (q0.abs() + r0.abs()) + 1e-12 * m.from;
        let bank = b.b(t, 0);
        let fees = e.fees(t) - b.fees(t);
        if t == a {
            let want = q0 - m.from;
            ensure!((q1 - want).abs() <= tol + wl * m.from || (q1 == 0.0 && want < 1.0 + tol + wl * m.from), "liqee's asset {q0} -> {q1}, expected {want}");
            ensure!(((r1 - r0) - m.to).abs() <= tol + wl * m.to || (r1 == 0.0 && (r0 + m.to).abs() < 1.0 + tol), "liqor's asset {r0} -> {r1}, expected {} more", m.to);
            ensure!((fees - (m.from - m.to)).abs() <= tol + wl * m.from, "asset fees {fees}, expected {}", m.from - m.to);
        } else if t == l {
            let want = q0 + m.liab;
            ensure!((q1 - want).abs() <= tol + wl * m.liab || (q1 == 0.0 && want.abs() < 1.0 + tol + wl * m.liab), "liqee's debt {q0} -> {q1}, expected {want}");
            let borrow = (m.liab - r0.max(0.0)).max(0.0);
            let lof = if liqor_fee { borrow * f(bank.loan_origination_fee_rate) } else { 0.0 };
            ensure!(((r1 - r0) + m.liab + lof).abs() <= tol + wl * m.liab || (r1 == 0.0 && (r0 - m.liab).abs() < 1.0 + tol), "liqor's debt token {r0} -> {r1}, expected {} + {lof} less", m.liab);
            ensure!((fees - lof).abs() <= tol + wl * m.liab, "loan fees {fees}, expected {lof}");
        } else {
            ensure!(b.accs[LIQEE].token_position(t as u16).map(|p| p.indexed_position).ok() == e.accs[LIQEE].token_position(t as u16).map(|p| p.indexed_position).ok(), "liqee's token {t} changed");
            ensure!(q0 == q1 && r0 == r1 && fees == 0.0, "token {t} changed");
        }
        for n in 0..2 {
            let d = f(e.b(t, n).collected_liquidation_fees) - f(b.b(t, n).collected_liquidation_fees);
            let want = if t == a && n == 0 { m.from - m.to } else { 0.0 };
            ensure!((d - want).abs() <= if want == 0.0 { 0.0 } else { tol + wl * m.from }, "liquidation fees of token {t} rose by {d}, expected {want}");
            ensure!(b.v(t, n) == e.v(t, n), "vault of token {t} changed");
            ensure!(b.b(t, n).deposit_index == e.b(t, n).deposit_index, "deposit index changed");
        }
    }
    for acc in 0..b.accs.len() {
        if acc != LIQEE && acc != LIQOR { ensure!(b.accs[acc].dynamic == e.accs[acc].dynamic, "positions of acc {acc} changed"); }
        for p in 0..2 {
            ensure!(bytemuck::bytes_of(&b.pp(acc, p)) == bytemuck::bytes_of(&e.pp(acc, p)), "perp position of acc {acc} changed");
        }
    }
    ensure!(b.insurance == e.insurance, "insurance changed");
    let _ = w;
    Ok(())
}

/// A rejection for the liqor's health must be justified: with extra collateral it succeeds, and
/// without that collateral the resulting account would be below zero.
fn too_weak<CI: ClientInstruction>(w: &World, ix: CI, a: usize, l: usize) -> Result<(), String> {
    let g = w.fork();
    let s = g.snap();
    // a token whose weight and balance matter to nobody else here
    let Some(t) = (0..5).rev().find(|t| *t != a && *t != l && s.posx(LIQEE, *t) == 0.0) else { return Ok(()) };
    let aw = g.tbank(t).init_asset_weight;
    g.edit_token(t, |b| b.init_asset_weight = num(1));
    let extra = 1e13;
    g.grant(LIQOR, t, 0, extra);
    if !g.ok(ix) { return Err(format!("refused for the liqor's health, and with collateral: {}", g.fail_text())) }
    g.grant(LIQOR, t, 0, -extra);
    g.edit_token(t, |b| b.init_asset_weight = aw);
    let h = g.health(&g.snap(), LIQOR);
    let x = h.health(HT::Init);
    ensure!(x < 2.0 * h.tol() + 1.0, "refused, but the liqor would end with init health {x}");
    Ok(())
}

fn liq(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = setup(src);
    liqee(&w, src);
    liqor(&w, src);
    let s = w.snap();
    let assets: Vec<usize> = (0..5).filter(|t| s.pos(LIQEE, *t) > 0.0).collect();
    let liabs: Vec<usize> = (0..5).filter(|t| s.pos(LIQEE, *t) < 0.0).collect();
    let a = if assets.is_empty() || src.chance(5) { src.idx(5) } else { src.pick(&assets) };
    let l = if liabs.is_empty() || src.chance(5) { src.idx(5) } else { src.pick(&liabs) };
    let debt = (-s.pos(LIQEE, l)).max(0.0);
    let max = match src.below(4) { 0 => 1e13, 1 => debt, 2 => src.log(1 << 34) as f64, _ => debt * src.f(0.0, 1.0) };
    let max = f(num(max));
    let mk = || TokenLiqWithTokenInstruction {
        liqee: w.accs[LIQEE].key, liqor: w.accs[LIQOR].key, liqor_owner: w.accs[LIQOR].owner,
        asset_token_index: a as u16, asset_bank_index: 0, liab_token_index: l as u16, liab_bank_index: 0,
        max_liab_transfer: num(max),
    };
    for k in [LIQEE, LIQOR] { for t in [a, l] { if k == LIQOR || src.chance(90) { w.edit_acc(k, |x| { x.ensure_token_position(t as u16).unwrap(); }) } } }
    let b = w.snap();
    let h = w.health(&b, LIQEE);
    let (ok_, fork, raw) = { let fork = w.fork(); let raw = w.raw_state(); (w.ok(mk()), fork, raw) };
    let err = w.fail_text();
    let e = w.snap();
    let (end0, maint0) = (h.health(HT::LiqEnd), h.health(HT::Maint));
    let flag = b.accs[LIQEE].fixed.being_liquidated();
    let eff = h.effective(HT::LiqEnd, false);
    let bal = |t: usize| b.pos(LIQEE, t);
    let effof = |t: usize| h.toks.iter().position(|k| k.idx == t as u16).map(|i| eff[i]).unwrap_or(0.0);
    case.note(|| format!("acc: {:?}, perp pnl {:?}, liquidation end health {end0}, maint {maint0}, flagged {flag}; liquidate token {a} for {l}, max {max} -> {}",
        (0..5).map(|t| bal(t)).collect::<Vec<_>>(), (0..2).map(|p| b.pp(LIQEE, p).quote_position_native).collect::<Vec<_>>(), if ok_ { "ok" } else { &err }));
    let (ba, bl) = (b.b(a, 0), b.b(l, 0));
    let (pa, pl) = (b.tok_price[a], b.tok_price[l]);
    let tol = h.tol();
    // may this be liquidated at all?
    let (gate, edge) = if flag { (end0 <= -1.0, (end0 + 1.0).abs() <= 2.0 * tol) } else { (maint0 < 0.0, maint0.abs() <= 2.0 * tol) };
    if edge { return Ok(()) }
    if !gate {
        case.label("not liquidatable");
        if flag { case.nontrivial() }
        if !ok_ { ensure!(a == l || h.phase1(), "refused: {err}"); return Ok(()) }
        for x in 0..b.accs.len() { ensure!(b.accs[x].dynamic == e.accs[x].dynamic, "healthy account changed"); }
        ensure!(!e.accs[LIQEE].fixed.being_liquidated(), "healthy account stays flagged");
        return Ok(());
    }
    let ft = (1.0 + f(bl.liquidation_fee) + f(bl.platform_liquidation_fee)) * (1.0 + f(ba.liquidation_fee) + f(ba.platform_liquidation_fee));
    let fl = (1.0 + f(bl.liquidation_fee)) * (1.0 + f(ba.liquidation_fee));
    let den = pl * f(bl.init_liab_weight) - pl * ft * f(ba.init_asset_weight);
    // the rules have no answer when seizing at these prices leaves health as it is
    if den.abs() < 1e-9 * pl { return Ok(()) }
    let dust = 1e-6;
    let reason = if a == l { "same token" }
        else if bal(a) <= 0.0 { "no asset" }
        else if ba.disable_asset_liquidation == 1 { "asset may not be seized" }
        else if bal(l) >= 0.0 { "no debt" }
        else if effof(l) >= 0.0 { "debt offset by perp pnl" }
        else if effof(a) <= 0.0 { "asset offset by perp pnl" }
        else if max <= 0.0 { "zero limit" }
        else { "" };
    let unclear = (bal(a).abs() < dust && bal(a) != 0.0) || (effof(a).abs() < dust + tol) || (effof(l).abs() < dust + tol);
    if !ok_ {
        ensure!(raw == w.raw_state(), "failed transaction changed state");
        if is_err(&err, MangoError::HealthMustBePositive) {
            case.nontrivial();
            case.label("liqor too weak");
            return too_weak(&fork, mk(), a, l);
        }
        if reason == "" && !unclear { return Err(format!("liquidation refused: {err}")) }
        if reason != "same token" && reason != "no debt" && reason != "no asset" { case.nontrivial() }
        case.label("refused");
        return Ok(());
    }
    ensure!(reason == "" || unclear, "accepted although: {reason}");
    case.nontrivial();
    let needed = -end0 / den;
    let possible = bal(a).min(effof(a)).max(0.0) * pa / (pl * ft);
    let limit = max.min(-bal(l)).min(-effof(l)).max(0.0);
    let want = needed.min(possible).min(limit).max(0.0);
    let wiggle = { 1e-11 + if want == needed.max(0.0) { tol / end0.abs().max(1e-9) + 1e-13 * pl / den.abs() } else { tol / possible.max(1e-9).min(1e30) * pa.max(1.0) / pl * 1e-3 } };
    if den < 0.0 { case.label("liquidation would not help"); }
    else if want == needed { case.label("until healthy"); } else if want == possible { case.label("until the asset is used up"); } else if limit == max { case.label("caller's limit"); } else { case.label("until the debt is paid"); }
    let m = Move { liab: want, from: want * pl / pa * ft, to: want * pl / pa * fl, wiggle };
    // absolute slack of the transferred amount, as wiggle
    let abs = (tol / (pl * f(bl.init_liab_weight)).max(1e-9) * 2.0 + 1e-6) / want.max(1e-12);
    let m = Move { wiggle: m.wiggle + if want == limit && limit == max { 0.0 } else { abs }, ..m };
    effects(&w, &b, &e, a, l, &m, true)?;
    // bounds, stated directly
    let he = w.health(&e, LIQEE);
    let end1 = he.health(HT::LiqEnd);
    let slack = 2.0 * (tol + he.tol()) + 1e-9 * h.mag;
    ensure!(e.pos(LIQEE, l) <= 1e-6 + 1e-11 * debt && e.pos(LIQEE, a) >= -1e-6 - 1e-11 * bal(a), "liquidation flipped a balance: {} {}", e.pos(LIQEE, a), e.pos(LIQEE, l));
    if end0 < 0.0 { ensure!(end1 <= slack + pl * f(bl.init_liab_weight) + pa, "liquidation went beyond recovery: {end0} -> {end1}"); }
    if den > 0.0 { ensure!(end1 >= end0 - slack - pa, "liquidation made the account worse: {end0} -> {end1}"); }
    if (end1 + 1.0).abs() > slack + (pl + pa) * 1e-3 {
        ensure!(e.accs[LIQEE].fixed.being_liquidated() == (end1 <= -1.0) || ((end1 + 1.0).abs() < pl + pa && want > 0.0), "liquidation end health {end1} but flag {}", e.accs[LIQEE].fixed.being_liquidated());
    }
    let hl = w.health(&e, LIQOR);
    ensure!(hl.health(HT::Init) >= -hl.tol() - 1e-9 * hl.mag, "liqor ends with init health {}", hl.health(HT::Init));
    Ok(())
}

fn force(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = setup(src);
    liqee(&w, src);
    liqor(&w, src);
    let s = w.snap();
    let liabs: Vec<usize> = (0..5).filter(|t| s.pos(LIQEE, *t) < 0.0).collect();
    let l = if liabs.is_empty() || src.chance(5) { src.idx(5) } else { src.pick(&liabs) };
    let a = if src.chance(2) { l } else { (l + 1 + src.idx(4)) % 5 };
    let fc = !src.chance(8);
    let zero = src.chance(80);
    let ro = src.pick(&[0u8, 0, 0, 0, 0, 1, 2]);
    let big = src.chance(70);
    w.edit_token(l, |b| {
        b.force_close = fc as u8;
        b.reduce_only = if fc { 1 } else { 0 };
        if zero { b.init_asset_weight = num(0); b.maint_asset_weight = num(0); }
        if big { b.init_liab_weight = num(2); b.maint_liab_weight = num(1.5); }
    });
    if ro != 0 && a != l { w.edit_token(a, |b| b.reduce_only = ro); }
    // a reduce-only debt token needs what the liqor holds of it
    if src.chance(85) {
        let have = w.pos(LIQOR, l);
        let x = match src.below(3) { 0 => 1e9 / w.price(l), 1 => (-s.pos(LIQEE, l)).max(1.0), _ => src.log_range(1, 1 << 30) as f64 };
        w.grant(LIQOR, l, 0, x - f(have).min(0.0));
    }
    let debt = (-s.pos(LIQEE, l)).max(0.0);
    let max = match src.below(3) { 0 => u64::MAX, 1 => src.log(1 << 34), _ => (debt * src.f(0.0, 1.0)) as u64 };
    for k in [LIQEE, LIQOR] { for t in [a, l] { w.edit_acc(k, |x| { x.ensure_token_position(t as u16).unwrap(); }) } }
    let lflag = src.chance(5);
    if lflag { w.edit_acc(LIQOR, |a| a.fixed.set_being_liquidated(true)); }
    let mk = || TokenForceCloseBorrowsWithTokenInstruction {
        liqee: w.accs[LIQEE].key, liqor: w.accs[LIQOR].key, liqor_owner: w.accs[LIQOR].owner,
        asset_token_index: a as u16, asset_bank_index: 0, liab_token_index: l as u16, liab_bank_index: 0,
        max_liab_transfer: max,
    };
    let b = w.snap();
    let h = w.health(&b, LIQEE);
    let fork = w.fork();
    let raw = w.raw_state();
    let ok_ = w.ok(mk());
    let err = w.fail_text();
    let e = w.snap();
    let (ba, bl) = (b.b(a, 0), b.b(l, 0));
    let ft = (1.0 + f(bl.liquidation_fee) + f(bl.platform_liquidation_fee)) * (1.0 + f(ba.liquidation_fee) + f(ba.platform_liquidation_fee));
    let fl = (1.0 + f(bl.liquidation_fee)) * (1.0 + f(ba.liquidation_fee));
    let (wl, wa) = (f(bl.init_liab_weight), f(ba.init_liab_weight) * ft);
    case.note(|| format!("liqee {:?}, liqor {:?}, close token {l} against {a} (forced {fc}, asset reduce-only {ro}, weights {wl} vs {wa}), max {max} -> {}",
        (0..5).map(|t| b.pos(LIQEE, t)).collect::<Vec<_>>(), (0..5).map(|t| b.pos(LIQOR, t)).collect::<Vec<_>>(), if ok_ { "ok" } else { &err }));
    let reason = if a == l { "same token" } else if !fc { "debt token is not being closed" }
        else if ro != 0 { "asset is reduce-only" } else if wl < wa - 1e-12 { "liqee's health could fall" }
        else if b.pos(LIQEE, l) >= 0.0 { "no debt" } else if b.pos(LIQOR, l) <= 0.0 { "liqor has none" } else if lflag { "liqor is being liquidated" } else { "" };
    if !ok_ {
        ensure!(raw == w.raw_state(), "failed transaction changed state");
        if is_err(&err, MangoError::HealthMustBePositive) {
            case.nontrivial();
            return too_weak(&fork, mk(), a, l);
        }
        ensure!(reason != "" || (wl - wa).abs() < 1e-12, "forced close refused: {err}");
        if reason != "no debt" { case.nontrivial(); case.label(reason); }
        return Ok(());
    }
    ensure!(reason == "", "accepted although: {reason}");
    case.nontrivial();
    case.label("closed");
    let (pa, pl) = (b.tok_price[a], b.tok_price[l]);
    let want = (max as f64).min(debt).min(b.pos(LIQOR, l)).max(0.0);
    let m = Move { liab: want, from: want * pl / pa * ft, to: want * pl / pa * fl, wiggle: 1e-11 };
    effects(&w, &b, &e, a, l, &m, false)?;
    ensure!(e.pos(LIQOR, l) >= 0.0, "liqor ends with a borrow");
    ensure!(e.pos(LIQEE, l) <= 1e-6, "liqee's debt became a deposit");
    let he = w.health(&e, LIQEE);
    let (x0, x1) = (h.health(HT::LiqEnd), he.health(HT::LiqEnd));
    let offset = h.perps.iter().any(|p| p.hupnl(HT::LiqEnd) != 0.0);
    if !offset { ensure!(x1 >= x0 - 2.0 * (h.tol() + he.tol()) - 1e-9 * h.mag - pa, "liqee's health fell {x0} -> {x1}"); }
    if (x1 + 1.0).abs() > 2.0 * he.tol() {
        let f0 = b.accs[LIQEE].fixed.being_liquidated();
        ensure!(e.accs[LIQEE].fixed.being_liquidated() == (f0 && x1 <= -1.0), "flag {f0} -> {} at liquidation end health {x1}", e.accs[LIQEE].fixed.being_liquidated());
    }
    let hl = w.health(&e, LIQOR);
    ensure!(hl.health(HT::Init) >= -hl.tol(), "liqor ends with init health {}", hl.health(HT::Init));
    Ok(())
}
