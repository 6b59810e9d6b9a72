//! C08: bankruptcy: insurance fund first, then depositors / market participants, never more than owed.
use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use crate::props::gates::is_err;
use crate::pt::*;
use crate::world::*;
use mango_v4::error::MangoError;
use mango_v4::state::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "directed states: an account with debts and (mostly) nothing left to seize, random insurance fund, depositors in either bank or market participants on both sides, random limits by the caller; the full effect of the instruction on every account, bank, market and the insurance vault is compared with an independent computation. Non-trivial: the instruction executed a bankruptcy or was rejected because the account still has something to seize",
        assumptions: &["deposits of the token cover the bad debt; weight scaling is off"],
        suites: vec![
            Suite { name: "token", quick: 50_000, thorough: 2_000_000, f: token },
            Suite { name: "perp", quick: 50_000, thorough: 2_000_000, f: perp },
        ],
    }
}

const LIQEE: usize = 1;

fn prices(w: &World, src: &mut Src) {
    for t in 0..5 {
        let p = w.price(t) * src.pick(&[1.0, 0.7, 2.7, 1.01]);
        w.set_price(t, p, Some(p));
    }
}
fn liqor(w: &World, src: &mut Src) {
    for t in 0..5 {
        if src.bool() {
            let v = src.log_range(1, 1_000_000_000) as f64;
            w.grant(LIQOR, t, src.idx(2), (v / w.price(t)).floor());
        }
    }
    if src.chance(75) {
        w.grant(LIQOR, 0, 0, 1e11);
    } else if src.bool() {
        // at the edge of its own health
        let h = w.health(&w.snap(), LIQOR).health(HT::Init);
        w.grant(LIQOR, 0, 0, (-h + src.range(-1000, 100_000) as f64) / w.price(0));
    }
}

fn unchanged_others(b: &Snap, e: &Snap, except: &[usize]) -> Result<(), String> {
    for a in 0..b.accs.len() {
        if except.contains(&a) { continue }
        ensure!(b.accs[a].dynamic == e.accs[a].dynamic, "positions of acc {a} changed");
    }
    Ok(())
}

fn token(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.random_bank_config(src);
    prices(&w, src);
    let t = src.idx(5);
    for a in [WHALE, 2, 3, 5] {
        for n in 0..2 {
            if src.chance(60) || (a == WHALE && n == 0) {
                let x = src.log_range(1, 1 << 34) as f64;
                w.grant(a, t, n, x);
            }
        }
    }
    let total: f64 = { let s = w.snap(); (0..N_ACC).map(|a| s.pos(a, t).max(0.0)).sum() };
    let x = (src.log_range(1, 1 << 34) as f64).min((total * 0.9).floor()).max(1.0);
    w.grant(LIQEE, t, src.idx(2), -x - src.pick(&[0.0, 0.4]));
    if src.chance(25) {
        // part of the borrow sits in the other bank
        w.grant(LIQEE, t, src.idx(2), -(src.log_range(1, 1 << 20) as f64).min((total * 0.95 - x).max(0.0).floor()));
    }
    let t2 = (t + 1 + src.idx(4)) % 5;
    let mut extra = "none";
    match src.weighted(&[10, 4, 3, 2, 2, 3, 1, 1]) {
        1 => { extra = "dust asset"; w.grant(LIQEE, t2, 0, 0.7); }
        2 => { extra = "unseizable asset"; w.grant(LIQEE, t2, 0, 5.0); w.edit_token(t2, |b| b.disable_asset_liquidation = 1); }
        3 => { extra = "asset"; w.grant(LIQEE, t2, 0, src.log_range(1, 1 << 20) as f64); }
        4 => { extra = "second borrow"; w.grant(WHALE, t2, 0, 1e9); w.grant(LIQEE, t2, 0, -(src.log_range(1, 1 << 20) as f64)); }
        5 => {
            extra = "negative pnl";
            let q = src.log_range(1, 1 << 30) as i64;
            w.edit_acc(LIQEE, |a| { a.ensure_perp_position(0, 0).unwrap(); a.perp_position_mut(0).unwrap().quote_position_native = num(-q); });
        }
        6 => {
            extra = "positive pnl";
            let q = src.log_range(1, 1 << 30) as i64;
            w.edit_acc(LIQEE, |a| { a.ensure_perp_position(0, 0).unwrap(); a.perp_position_mut(0).unwrap().quote_position_native = num(q); });
        }
        7 => {
            extra = "base position";
            let q = num(-(src.log_range(1, 1 << 30) as i64));
            w.grant_perp(0, LIQEE, 2, src.range(1, 1000) as i64, -q);
        }
        _ => {}
    }
    if t2 != 0 && t != 0 && src.chance(20) && extra == "none" {
        w.grant(LIQEE, 0, 0, 0.3);
    }
    liqor(&w, src);
    let ins0 = if src.chance(20) { 0 } else { src.log(1 << 36) };
    w.set_vault(w.insurance_vault, ins0);
    let eligible = !src.chance(20);
    let mut mi: MintInfo = w.s.get_account(w.tokens[t].mint_info);
    mi.group_insurance_fund = eligible as u8;
    w.s.set_account(w.tokens[t].mint_info, &mi);
    let flag = src.bool();
    w.edit_acc(LIQEE, |a| a.fixed.set_being_liquidated(flag));
    // the instruction needs the insurance token among the health accounts
    w.edit_acc(LIQOR, |a| { a.ensure_token_position(0).unwrap(); });
    let max = match src.below(4) { 0 => 1e15, 1 => x, 2 => src.log(1 << 35) as f64, _ => x * src.f(0.0, 1.0) };
    let max = f(num(max));

    let b = w.snap();
    let h = w.health(&b, LIQEE);
    let ix = TokenLiqBankruptcyInstruction {
        liqee: w.accs[LIQEE].key, liqor: w.accs[LIQOR].key, liqor_owner: w.accs[LIQOR].owner,
        max_liab_transfer: num(max), liab_mint_info: w.tokens[t].mint_info,
    };
    let raw = w.raw_state();
    let ok = w.ok(ix);
    let err = w.fail_text();
    let e = w.snap();
    let init = b.pos(LIQEE, t);
    let eff = h.effective(HT::LiqEnd, false)[h.toks.iter().position(|k| k.idx == t as u16).unwrap()];
    case.note(|| format!("liqee owes {init} of token {t} (effective {eff}), {extra}, insurance {ins0} eligible {eligible}, max {max} -> {}", if ok { "ok" } else { &err }));
    // what happened
    let used = ins0 - e.insurance.min(ins0);
    if !ok {
        ensure!(raw == w.raw_state(), "failed transaction changed state");
        let seizable = h.phase1() || h.phase2();
        if seizable {
            case.nontrivial();
            case.label("still seizable");
            return Ok(());
        }
        if is_err(&err, MangoError::HealthMustBePositive) {
            // the liqor took over debt it cannot carry
            case.label("liqor too weak");
            let hl = w.health(&b, LIQOR);
            ensure!(hl.health(HT::Init) < 1e10, "liqor with init health {} is too weak", hl.health(HT::Init));
            return Ok(());
        }
        return Err(format!("bankruptcy of a {init} debt rejected: {err}"));
    }
    ensure!(!h.phase1() && !(h.liq_spot_assets(1e-6) && h.liq_spot_borrows()), "bankruptcy of an account with assets: {extra}");
    ensure!(!h.perps.iter().any(|p| p.lots != 0 || p.quote > 0.0), "bankruptcy of an account with perp value: {extra}");
    case.nontrivial();
    case.label(extra);
    let bank = b.b(t, 0);
    let loss = (-init).min(-eff);
    ensure!(loss > 0.0, "bankruptcy without a debt");
    let ratio = if t == 0 { 1.0 } else { b.tok_price[t] * (1.0 + f(bank.liquidation_fee)) / b.tok_price[0] };
    let avail = if eligible { ins0 } else { 0 };
    let raw_want = loss.min(max) * ratio;
    let want = raw_want.ceil().min(avail as f64);
    let edge = 1e-6 + raw_want * 1e-9;
    let ambiguous = raw_want < avail as f64 + 1.0 && ((raw_want - raw_want.round()).abs() < edge);
    ensure!(used as f64 == want || (ambiguous && (used as f64 - want).abs() <= 1.0), "insurance fund paid {used}, expected {want} of {avail} (ratio {ratio})");
    ensure!(used <= avail, "insurance paid {used} of {avail}");
    let covered = used as f64 / ratio;
    let exhausted = used == avail;
    let rem = loss - covered;
    let social = if exhausted && rem > 1e-9 { rem } else { 0.0 };
    if used > 0 { case.label("insurance"); }
    if social > 0.0 { case.label("socialized"); }
    let tol = 1e-6 + 1e-10 * loss;
    // deposit index of every bank
    let ti: f64 = f(b.b(t, 0).indexed_deposits) + f(b.b(t, 1).indexed_deposits);
    let before = f(bank.deposit_index);
    for n in 0..2 {
        let after = f(e.b(t, n).deposit_index);
        // the total may include what the liqor had before
        let lost = (before - after) * ti;
        let want = social;
        // covering part of the debt from insurance goes through deposits of the liqor's (own) token only after this
        ensure!((lost - want).abs() <= tol + 1e-9 * want + ti * 1e-9 + if used > 0 { ti_slack(&b, &e, t, before - after) } else { 0.0 },
            "bank {n}: depositors lost {lost}, expected {want} (debt {loss}, insurance covered {covered})");
        ensure!(e.b(t, n).borrow_index == b.b(t, n).borrow_index, "borrow index moved");
    }
    for u in 0..5 {
        if u == t { continue }
        for n in 0..2 { ensure!(e.b(u, n).deposit_index == b.b(u, n).deposit_index && e.b(u, n).borrow_index == b.b(u, n).borrow_index, "index of token {u} moved"); }
    }
    unchanged_others(&b, &e, &[LIQEE, LIQOR])?;
    // the debt shrinks by exactly what was paid for it
    let left = e.pos(LIQEE, t);
    let want_left = init + covered + social;
    ensure!((left - want_left).abs() <= tol + if social > 0.0 || want_left > -1.0 { 1.0 } else { 0.0 } && left <= 1e-6 + 1.0 / ratio,
        "debt {init} -> {left}, expected {want_left}");
    if exhausted && loss == -init {
        ensure!(left == 0.0 || (social == 0.0 && left >= 0.0), "bad debt {left} left behind although the insurance fund is exhausted");
    }
    for u in 0..5 {
        if u != t { ensure!(b.accs[LIQEE].token_position(u as u16).map(|p| p.indexed_position.to_bits()).ok() == e.accs[LIQEE].token_position(u as u16).map(|p| p.indexed_position.to_bits()).ok(), "liqee's token {u} changed"); }
    }
    // the liqor is paid by the fund for what it takes on, at most the liquidation fee
    let lof = f(bank.loan_origination_fee_rate);
    for u in 0..5 {
        let d = e.posx(LIQOR, u) - b.posx(LIQOR, u);
        let (pre, d) = (b.pos(LIQOR, u), f(d));
        let slack = tol + 1e-6 + 1e-10 * (pre.abs() + used as f64);
        if u == t && t != 0 {
            let after0 = pre - covered;
            let fee = (-(after0.min(0.0)) - (-(pre.min(0.0)))).max(0.0) * lof;
            // deposits also carry the socialized loss
            let scale = if after0 > 0.0 { after0 * (f(e.b(t, 0).deposit_index) / before - 1.0) } else { 0.0 };
            let want = -covered - fee + scale;
            ensure!((d - want).abs() <= slack + 1.0, "liqor's debt token changed by {d}, expected {want}");
        } else if u == 0 {
            let want = if t == 0 { pre.max(0.0) * (f(e.b(0, 0).deposit_index) / f(b.b(0, 0).deposit_index) - 1.0) } else { used as f64 };
            ensure!((d - want).abs() <= slack + if pre < 0.0 { 1.0 } else { 0.0 }, "liqor's insurance token changed by {d}, expected {want}");
        } else {
            ensure!(d == 0.0, "liqor's token {u} changed by {d}");
        }
    }
    let dv = e.v(0, 0) as i128 - b.v(0, 0) as i128;
    ensure!(dv == used as i128 && e.v(0, 1) == b.v(0, 1), "insurance vault paid {used} but the bank vault received {dv}");
    if t != 0 && used > 0 {
        let hl = w.health(&e, LIQOR);
        let scale = 1.0 + f(bank.init_liab_weight) * b.tok_price[t];
        if social == 0.0 || e.pos(LIQOR, t) <= 0.0 {
            ensure!(hl.health(HT::Init) >= -hl.tol() - 2.0 * scale, "liqor ends with init health {} (was {}; holds {} of the debt token, had {}; social {social}; {:?})", hl.health(HT::Init), w.health(&b, LIQOR).health(HT::Init), e.pos(LIQOR, t), b.pos(LIQOR, t), (0..5).map(|u| (b.pos(LIQOR, u), e.pos(LIQOR, u))).collect::<Vec<_>>());
        }
    }
    let ha = w.health(&e, LIQEE);
    let x = ha.health(HT::LiqEnd);
    if (x + 1.0).abs() > 2.0 * (ha.tol() + h.tol()) {
        // dust given up while closing positions is worth less than a unit of each
        ensure!(e.accs[LIQEE].fixed.being_liquidated() == (x <= -1.0), "liquidation end health {x} but flag {}", e.accs[LIQEE].fixed.being_liquidated());
    }
    Ok(())
}
/// total deposits at the time of the loss lie between the totals before and after
fn ti_slack(b: &Snap, e: &Snap, t: usize, didx: f64) -> f64 {
    let tot = |s: &Snap| f(s.b(t, 0).indexed_deposits) + f(s.b(t, 1).indexed_deposits);
    ((tot(b) - tot(e)).abs() * didx.abs()).abs()
}

fn perp(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.random_bank_config(src);
    prices(&w, src);
    // token 0 settles pnl and is the insurance token
    let p = src.idx(2);
    let (fee, lf, gi) = (src.pick(&[0.0, 0.012, 0.1]), src.pick(&[-1.0f32, -1.0, 0.0, 0.5]), !src.chance(20));
    let (fl, fs) = (src.range(-1000, 1000) as f64 / 7.0, src.range(-1000, 1000) as f64 / 11.0);
    w.edit_perp(p, |m| {
        m.base_liquidation_fee = num(fee);
        m.settle_pnl_limit_factor = lf;
        m.group_insurance_fund = gi as u8;
        m.long_funding = num(fl);
        m.short_funding = num(fs);
    });
    for a in [WHALE, 2, 3] { w.grant(a, 0, src.idx(2), src.log_range(1000, 1 << 36) as f64); }
    // market participants
    let mut any = false;
    for (l, s) in [(2, 3), (WHALE, 5), (3, 5)] {
        if src.chance(60) {
            let lots = src.log_range(1, 1_000_000) as i64;
            w.grant_perp(p, l, s, lots, num(src.log(1 << 30)));
            any = true;
        }
    }
    let q = src.log_range(1, 1 << 34) as f64 + src.pick(&[0.0, 0.25]);
    let (rec, one) = (src.log(1 << 34) as i64, src.range(-1, 1) as i64 * src.log(1 << 34) as i64);
    let used_before = if src.chance(30) { -(src.log(1 << 20) as i64) } else { 0 };
    let old_window = src.chance(30) as u64;
    let now = w.now();
    let win = w.perp(p).settle_pnl_limit_window_size_ts;
    w.edit_acc(LIQEE, |a| {
        a.ensure_perp_position(p as u16, 0).unwrap();
        let pp = a.perp_position_mut(p as u16).unwrap();
        pp.quote_position_native = num(-q);
        pp.recurring_settle_pnl_allowance = rec;
        pp.oneshot_settle_pnl_allowance = num(one);
        pp.settle_pnl_limit_window = (now / win - old_window) as u32;
        pp.settle_pnl_limit_settled_in_current_window_native = used_before;
    });
    w.edit_acc(5, |a| {
        a.ensure_perp_position(p as u16, 0).unwrap();
        let pp = a.perp_position_mut(p as u16).unwrap();
        pp.quote_position_native += num(q);
    });
    let mut extra = "plain";
    match src.weighted(&[8, 6, 4, 2, 2, 1]) {
        1 => { extra = "settle token deposit"; w.grant(LIQEE, 0, 0, src.log_range(1, 1 << 33) as f64); }
        2 => { extra = "settle token borrow"; w.grant(LIQEE, 0, 0, -(src.log_range(1, 1 << 30) as f64)); }
        3 => { extra = "other deposit"; w.grant(LIQEE, 1 + src.idx(4), 0, src.log_range(1, 1 << 33) as f64); }
        4 => { extra = "other borrow"; let t = 1 + src.idx(4); w.grant(WHALE, t, 0, 1e12); w.grant(LIQEE, t, 0, -(src.log_range(1, 1 << 30) as f64)); }
        5 => { extra = "other market's pnl";
            let q = num(src.range(-1, 1) as i64 * src.log_range(1, 1 << 30) as i64);
            w.edit_acc(LIQEE, |a| { a.ensure_perp_position(1 - p as u16, 0).unwrap(); a.perp_position_mut(1 - p as u16).unwrap().quote_position_native = q; });
        }
        _ => { w.edit_acc(LIQEE, |a| { a.ensure_token_position(0).unwrap(); }); }
    }
    if src.chance(30) { w.grant(LIQEE, 1 + src.idx(4), 0, 0.4); }
    liqor(&w, src);
    let ins0 = if src.chance(20) { 0 } else { src.log(1 << 36) };
    w.set_vault(w.insurance_vault, ins0);
    let flag = src.bool();
    w.edit_acc(LIQEE, |a| a.fixed.set_being_liquidated(flag));
    let max = match src.below(3) { 0 => u64::MAX, 1 => src.log(1 << 35), _ => (q * src.f(0.0, 1.2)) as u64 };
    let b = w.snap();
    let h = w.health(&b, LIQEE);
    let raw = w.raw_state();
    let ok = w.ok(PerpLiqNegativePnlOrBankruptcyInstruction {
        liqor: w.accs[LIQOR].key, liqor_owner: w.accs[LIQOR].owner, liqee: w.accs[LIQEE].key,
        perp_market: w.perps[p].key, max_liab_transfer: max,
    });
    let err = w.fail_text();
    let e = w.snap();
    let end0 = h.health(HT::LiqEnd);
    case.note(|| format!("liqee pnl -{q}, {extra}, liquidation end health {end0}, insurance {ins0} eligible {gi}, limits {lf} {rec} {one}, max {max} -> {}", if ok { "ok" } else { &err }));
    if !ok {
        ensure!(raw == w.raw_state(), "failed transaction changed state");
        if h.phase1() || h.phase2() {
            case.nontrivial();
            case.label("still seizable");
            return Ok(());
        }
        if is_err(&err, MangoError::HealthMustBePositive) {
            case.label("liqor too weak");
            let hl = w.health(&b, LIQOR);
            // taking over pnl is neutral or better for an account that is not already in trouble
            ensure!(hl.health(HT::Init) < 10.0 + hl.tol() + 1e-9 * q, "liqor with init health {} is too weak", hl.health(HT::Init));
            return Ok(());
        }
        if e.accs[LIQEE].token_position(0).is_err() { return Ok(()) }
        return Err(format!("taking over negative pnl rejected: {err}"));
    }
    let tol = h.tol();
    let liquidatable = if flag { end0 <= -1.0 } else { h.health(HT::Maint) < 0.0 };
    if (if flag { end0 + 1.0 } else { h.health(HT::Maint) }).abs() <= tol { return Ok(()) }
    if !liquidatable {
        case.label("not liquidatable");
        unchanged_others(&b, &e, &[])?;
        ensure!(e.insurance == ins0, "insurance used without a liquidation");
        return Ok(());
    }
    ensure!(!h.phase1() && !h.phase2(), "negative pnl taken over from an account with something to seize: {extra}");
    case.nontrivial();
    case.label(extra);
    let (pb, pe) = (b.pp(LIQEE, p), e.pp(LIQEE, p));
    let (mb, me) = (&b.perps[p], &e.perps[p]);
    let settlement = b.pos(LIQEE, 0) - e.pos(LIQEE, 0);
    let used = (ins0 - e.insurance.min(ins0)) as f64;
    ensure!(e.insurance <= ins0, "insurance fund grew");
    let taken = f(b.pp(LIQOR, p).quote_position_native) - f(e.pp(LIQOR, p).quote_position_native);
    let ins_liab = taken - settlement;
    let removed = f(pe.quote_position_native) - f(pb.quote_position_native);
    let social = removed - taken;
    let t1 = 1e-5 + 1e-10 * q + tol;
    // step 1: pnl the account can pay
    let (lim, _) = settle_range(&pb, mb, b.now);
    let ms = h.perp_max_settle(0);
    let want = ms.min(-(lim.max(-q))).max(0.0);
    let want_s = want.min(max as f64);
    let a0 = f(b.b(0, 0).maint_asset_weight).min(1.0) * b.tok_price[0];
    ensure!((settlement - want_s).abs() <= t1 + tol / a0.min(1.0) + 1e-3, "settled {settlement}, expected {want_s} (can pay {ms}, limit {lim})");
    if settlement > 1e-3 { case.label("settlement"); }
    let dtok = e.pos(LIQOR, 0) - b.pos(LIQOR, 0);
    ensure!((dtok - settlement - used).abs() <= t1 + 1.0 * ((b.pos(LIQOR, 0) < 0.0) as u8 as f64) + 1e-9 * b.pos(LIQOR, 0).abs(), "liqor received {dtok}, settlement {settlement} insurance {used}");
    // step 2 only after step 1 took all it can
    let step2 = (settlement - want).abs() <= t1 + tol;
    let price = b.tok_price[0];
    ensure!(ins_liab >= -t1 && social >= -t1, "insurance part {ins_liab}, socialized {social}");
    if !step2 {
        ensure!(used == 0.0 && social.abs() <= t1, "bankruptcy before settling what can be paid: settled {settlement} of {want}");
    }
    ensure!(taken <= max as f64 + t1, "liqor took {taken}, asked for at most {max}");
    // the fund pays the liquidation fee and no more, rounding up to one unit
    let with_fee = ins_liab * (1.0 + fee);
    ensure!(used <= with_fee + 1.0 + t1 && used >= with_fee - t1 * 2.0, "insurance paid {used} for {ins_liab} of losses");
    if used > 0.0 { case.label("insurance"); }
    ensure!(gi || used == 0.0, "insurance used for a market that is not eligible");
    if social > t1 + 1e-3 {
        case.label("socialized");
        ensure!(!gi || e.insurance == 0, "loss of {social} socialized while the insurance fund has {}", e.insurance);
    }
    // no overshoot
    ensure!(f(pe.quote_position_native) <= t1, "pnl became positive: {}", pe.quote_position_native);
    let ha = w.health(&e, LIQEE);
    let end1 = ha.health(HT::LiqEnd);
    let lw = f(b.b(0, 0).init_liab_weight) * price;
    if used > 0.0 || social > t1 + 1e-3 {
        ensure!(end1 <= 2.0 * tol + ha.tol() + t1 * lw, "bankruptcy lifted the account's health to {end1}");
    }
    // no undershoot: everything that can be done is done
    if step2 && max as f64 >= want + t1 && f(pe.quote_position_native) < -t1 && end1 < -(2.0 * tol + ha.tol()) - 1.0 {
        let liqor_limited = taken + t1 + 1.0 >= max as f64;
        let fund_left = gi && e.insurance > 0;
        ensure!(liqor_limited && fund_left, "pnl {} left at liquidation end health {end1}, insurance left {}", pe.quote_position_native, e.insurance);
    }
    // socialized losses: equal per contract, and they add up
    let oi = mb.open_interest as f64;
    let mut sum = 0.0;
    for a in 0..b.accs.len() {
        if a == LIQEE || a == LIQOR { continue }
        ensure!(b.accs[a].dynamic == e.accs[a].dynamic, "positions of acc {a} changed");
        let x = b.pp(a, p);
        if x.base_position_lots == 0 { continue }
        let d = -f(x.unsettled_funding(me)) + f(x.unsettled_funding(mb));
        sum += d;
        let want = -social * x.base_position_lots.abs() as f64 / oi;
        ensure!((d - want).abs() <= t1 + 1e-3 + x.base_position_lots.abs() as f64 * 1e-13, "acc {a} with {} lots bears {d}, expected {want}", x.base_position_lots);
    }
    if any {
        ensure!((sum + social).abs() <= t1 + 1e-3 + oi * 1e-13, "participants bear {sum} of a loss of {social}");
    }
    ensure!(me.open_interest == mb.open_interest, "open interest changed");
    let dv = e.v(0, 0) as i128 - b.v(0, 0) as i128;
    ensure!(dv == used as i128, "bank vault received {dv} of {used}");
    for t in 0..5 { for n in 0..2 {
        ensure!(e.b(t, n).deposit_index == b.b(t, n).deposit_index, "deposit index moved");
    } }
    let hl = w.health(&e, LIQOR);
    ensure!(hl.health(HT::Init) >= -hl.tol(), "liqor ends with init health {}", hl.health(HT::Init));
    if (end1 + 1.0).abs() > 2.0 * (ha.tol() + tol) {
        ensure!(e.accs[LIQEE].fixed.being_liquidated() == (end1 <= -1.0), "liquidation end health {end1} but flag {}", e.accs[LIQEE].fixed.being_liquidated());
    }
    Ok(())
}
