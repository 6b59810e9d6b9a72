//! C06: the health gates around every user action and liquidation.
use crate::ensure;
use crate::machine::*;
use crate::model::*;
use crate::pbt::*;
use crate::pt::*;
use crate::world::*;
use mango_v4::accounts_ix::HealthCheckKind;
use mango_v4::error::MangoError;
use mango_v4::health::HealthType;
use mango_v4::state::*;
use K::*;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "`history`: random histories weighted towards user actions and liquidations, liqors that may be poor, accounts that may be flagged; each successful or health-rejected instruction is judged with the reference health model before and after (rejected ones by re-running them with the account's health check switched off). `boundary`: largest withdrawal found by bisection. `knife`: for one random instruction, the acting account's collateral is bisected to the point where the gate flips. `region`: random transactions around health regions. `health_check`: the assertion instruction with thresholds around the modelled value. Non-trivial: a gate decided (an action of an account with negative health, a rejection, a liquidation, a boundary found)",
        assumptions: &["oracle and bank weights are fixed during an instruction; weight scaling caps are off in the histories (they are covered by C05)"],
        suites: vec![
            Suite { name: "history", quick: 14_000, thorough: 500_000, f: history },
            Suite { name: "boundary", quick: 1_500, thorough: 60_000, f: boundary },
            Suite { name: "knife", quick: 20_000, thorough: 600_000, f: knife },
            Suite { name: "region", quick: 6_000, thorough: 200_000, f: region },
            Suite { name: "health_check", quick: 6_000, thorough: 200_000, f: health_check },
        ],
    }
}

pub fn is_err(st: &str, e: MangoError) -> bool {
    st == format!("Custom({})", u32::from(e))
}

const USER: [K; 6] = [Withdraw, PerpOrder, PerpPegged, FlashLoan, SerumPlace, Region];
const LIQOR_OPS: [K; 6] = [LiqToken, PerpLiqBase, PerpLiqNeg, LiqTokenBankruptcy, ForceCloseBorrow, TcsTrigger];
const LIQ: [K; 6] = [LiqToken, PerpLiqBase, PerpLiqNeg, LiqTokenBankruptcy, PerpLiqCancel, SerumLiqCancel];

struct H {
    init: f64,
    end: f64,
    maint: f64,
    tol: f64,
    flag: bool,
}
fn hs(w: &World, s: &Snap) -> Vec<H> {
    (0..s.accs.len())
        .map(|a| {
            let h = w.health(s, a);
            H {
                init: h.health(HT::Init),
                end: h.health(HT::LiqEnd),
                maint: h.health(HT::Maint),
                tol: h.tol(),
                flag: s.accs[a].fixed.being_liquidated(),
            }
        })
        .collect()
}

/// the account's positions, without its flags
fn positions(v: &MangoAccountValue) -> &Vec<u8> {
    &v.dynamic
}

/// a health-checked action that leaves init health at `post` from `pre` may go through
fn post_ok(pre: f64, post: f64, tol: f64) -> bool {
    post >= -tol || post >= pre - tol - if post < -1000.0 + tol { 1.0 } else { 0.0 }
}
fn post_bad(pre: f64, post: f64, tol: f64) -> bool {
    post < tol && post < pre + tol
}

/// token positions that were closed may have given up less than one native unit each
fn dust(b: &Snap, e: &Snap, a: usize) -> f64 {
    (0..5)
        .filter(|t| b.accs[a].token_position(*t as u16).is_ok() && e.accs[a].token_position(*t as u16).is_err())
        .map(|t| e.tok_price[t])
        .sum()
}

fn history(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let weights: Vec<(K, u64)> = ALL
        .iter()
        .map(|(k, x)| {
            (*k, match k {
                Withdraw | PerpOrder | PerpPegged | FlashLoan | SerumPlace | Region | Deposit => x * 2,
                LiqToken | PerpLiqBase | PerpLiqNeg | LiqTokenBankruptcy | TcsTrigger | ForceCloseBorrow => x + 3,
                _ => *x,
            })
        })
        .collect();
    let m = Machine::setup(src, &weights);
    let w = &m.w;
    if src.bool() {
        // a liqor of modest means
        for t in 0..5 {
            let v = src.log_range(1, 100_000_000) as f64;
            let have = f(w.pos(LIQOR, t));
            w.grant(LIQOR, t, 0, (v / w.price(t)).floor() - have.floor());
        }
        if src.bool() {
            // right at the edge
            let h = w.health(&w.snap(), LIQOR).health(HT::Init);
            w.grant(LIQOR, 0, 0, -h.floor() + src.range(-1000, 100_000) as f64);
        }
    }
    let n = 3 + src.below(30);
    for _ in 0..n {
        if src.chance(8) {
            let a = 1 + src.idx(4);
            w.edit_acc(a, |x| x.fixed.set_being_liquidated(true));
            case.note(|| format!("acc {a} flagged"));
        }
        let s = w.snap();
        let mut hb = hs(w, &s);
        let alt = w.fork();
        let from = src.rec.len();
        let st = m.step(src, &s);
        let e = w.snap();
        let ha = hs(w, &e);
        let a = st.a;
        let k = st.k;
        if [PerpOrder, PerpPegged].contains(&k) {
            // placing an order first brings the market's funding up to date
            let v = alt.fork();
            if v.ok(PerpUpdateFundingInstruction { perp_market: w.perps[st.p].key, bank: w.tokens[0].bank, oracle: w.perps[st.p].oracle }) {
                hb[a] = hs(&v, &v.snap()).swap_remove(a);
            }
        }
        case.note(|| format!("{} -> {} | acc {a} init {:.3} -> {:.3} end {:.3} -> {:.3} maint {:.3} flag {} -> {}", st.what,
            if st.ok { "ok".into() } else { st.err.clone() }, hb[a].init, ha[a].init, hb[a].end, ha[a].end, hb[a].maint, hb[a].flag, ha[a].flag));
        let tol = hb[a].tol + ha[a].tol;
        for x in 0..e.accs.len() {
            ensure!(!e.accs[x].fixed.is_in_health_region(), "acc {x} still in a health region after {}", st.what);
            if ha[x].flag == hb[x].flag { continue }
            if ha[x].flag {
                ensure!(LIQ.contains(&k) && x == a && (hb[x].maint < hb[x].tol),
                    "acc {x} flagged by {} at maint health {}", st.what, hb[x].maint);
                case.label("flagged");
            } else {
                ensure!(x == a || x == st.b, "acc {x} unflagged by {}", st.what);
                let end = hb[x].end.max(ha[x].end);
                ensure!(end > -1.0 - tol - ha[x].tol, "acc {x} unflagged by {} at liquidation end health {end}", st.what);
                case.label("unflagged");
            }
        }
        if st.ok && (USER.contains(&k) || k == TcsTrigger) && (k != TcsTrigger || positions(&s.accs[a]) != positions(&e.accs[a])) {
            if hb[a].flag {
                case.nontrivial();
                ensure!(hb[a].end > -1.0 - tol || hb[a].init > -1.0 - tol,
                    "{} by an account being liquidated, liquidation end health {}", st.what, hb[a].end);
                ensure!(!ha[a].flag, "{} left the flag set", st.what);
            }
            if ha[a].init < 0.0 { case.nontrivial(); case.label("negative kept"); }
            ensure!(post_ok(hb[a].init, ha[a].init, tol + dust(&s, &e, a)), "{}: init health {} -> {}", st.what, hb[a].init, ha[a].init);
        }
        if !st.ok && is_err(&st.err, MangoError::BeingLiquidated) && USER.contains(&k) {
            case.nontrivial();
            case.label("flag rejection");
            ensure!(hb[a].flag && hb[a].end <= -1.0 + tol, "{} rejected as being liquidated: flag {} end health {}", st.what, hb[a].flag, hb[a].end);
        }
        if !st.ok && is_err(&st.err, MangoError::HealthMustBePositiveOrIncrease) && [Withdraw, PerpOrder, PerpPegged, SerumPlace].contains(&k) {
            // what would the state have been?
            alt.edit_acc(a, |x| x.fixed.set_in_health_region(true));
            let m2 = Machine { w: alt.clone(), weights: m.weights.clone() };
            let mut r = Src::replay(src.rec[from..].to_vec());
            let st2 = m2.step(&mut r, &s);
            if st2.ok {
                let h2 = m2.w.health(&m2.w.snap(), a);
                let post = h2.health(HT::Init);
                case.nontrivial();
                case.label("health rejection");
                let t = tol + h2.tol();
                ensure!(post_bad(hb[a].init, post, t), "{} rejected but health would go {} -> {post}", st.what, hb[a].init);
            }
        }
        if k == Deposit && hb[a].flag {
            case.nontrivial();
            if st.ok {
                case.label("deposit recovers");
                ensure!(!ha[a].flag && ha[a].end > -1.0 - tol, "{}: account stays in liquidation", st.what);
            } else if is_err(&st.err, MangoError::DepositsIntoLiquidatingMustRecover) {
                alt.edit_acc(a, |x| x.fixed.set_being_liquidated(false));
                let m2 = Machine { w: alt.clone(), weights: m.weights.clone() };
                let st2 = m2.step(&mut Src::replay(src.rec[from..].to_vec()), &s);
                if st2.ok {
                    let h2 = m2.w.health(&m2.w.snap(), a);
                    case.label("deposit rejected");
                    ensure!(h2.health(HT::LiqEnd) <= -1.0 + tol + h2.tol(), "{} rejected but it recovers the account", st.what);
                }
            }
        }
        if LIQOR_OPS.contains(&k) && st.ok && st.a != st.b {
            let l = st.b;
            if positions(&s.accs[l]) != positions(&e.accs[l]) {
                case.nontrivial();
                case.label("liqor acted");
                ensure!(!hb[l].flag, "{}: liqor is being liquidated", st.what);
                ensure!(ha[l].init >= -ha[l].tol - hb[l].tol, "{}: liqor init health {} -> {}", st.what, hb[l].init, ha[l].init);
                if ha[l].init < 1e4 { case.label("liqor near zero"); }
            }
        }
        if LIQ.contains(&k) && st.ok && st.a != st.b {
            let b = &hb[a];
            let changed = positions(&s.accs[a]) != positions(&e.accs[a]);
            if b.flag && b.end > -1.0 + tol {
                ensure!(!ha[a].flag, "{}: recovered account keeps its flag", st.what);
            }
            if changed {
                case.nontrivial();
                case.label("liquidated");
                ensure!(if k == LiqTokenBankruptcy { b.end < b.tol } else if b.flag { b.end <= -1.0 + b.tol } else { b.maint < b.tol },
                    "{}: liqee was not liquidatable (flag {} end {} maint {})", st.what, b.flag, b.end, b.maint);
                let x = ha[a].end;
                if (x + 1.0).abs() > 2.0 * tol {
                    ensure!(ha[a].flag == (x <= -1.0), "{}: liquidation end health {x} flag {}", st.what, ha[a].flag);
                }
            }
        }
    }
    Ok(())
}

/// The largest withdrawal that goes through leaves init health exactly at zero.
fn boundary(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &ALL);
    let w = &m.w;
    for _ in 0..src.below(8) {
        let s = w.snap();
        m.step(src, &s);
    }
    let a = 1 + src.idx(3);
    let t = src.idx(5);
    let n = src.idx(2);
    let s = w.snap();
    let h = w.health(&s, a);
    let pre = h.health(HT::Init);
    if pre < 10.0 { return Ok(()) }
    let try_ = |x: u64| -> Option<f64> {
        let v = w.fork();
        if v.ok(v.withdraw_ix(a, t, n, x, true)) {
            Some(v.health(&v.snap(), a).health(HT::Init))
        } else {
            None
        }
    };
    let (mut lo, mut hi) = (0u64, 1u64 << 50);
    if try_(hi).is_some() { return Ok(()) }
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if try_(mid).is_some() { lo = mid } else { hi = mid }
    }
    if lo == 0 { return Ok(()) }
    let tol = 2.0 * h.tol();
    let post = try_(lo).unwrap();
    // is the next one rejected for health, or for something else?
    let v = w.fork();
    v.ok(v.withdraw_ix(a, t, n, hi, true));
    let why = v.fail_text();
    case.note(|| format!("acc {a} token {t} max {lo} of {} pre {pre} post {post} then {why}, after {:?} {:?} {h:?}", s.pos(a, t), (0..3).map(|x| try_(lo.saturating_sub(x))).collect::<Vec<_>>(), try_(hi)));
    ensure!(post >= -tol, "withdrawing {lo} of token {t} from acc {a} leaves init health {post}");
    if is_err(&why, MangoError::HealthMustBePositiveOrIncrease) {
        case.nontrivial();
        let b = s.b(t, n);
        let price = s.tok_price[t].max(b.stable_price_model.stable_price);
        // one more native unit (plus its fee, and up to one unit given up as dust) costs at most this much health
        let unit = price * f(b.init_liab_weight) * (1.0 + f(b.loan_origination_fee_rate)) * 2.02;
        ensure!(post <= unit + tol, "withdrawing {hi} of token {t} from acc {a} is rejected although {lo} leaves health {post} (unit {unit})");
        case.label(if s.pos(a, t) < lo as f64 { "borrow" } else { "deposit" });
    }
    Ok(())
}

/// For one random instruction, find how much collateral the acting account needs: at that point
/// its init health is exactly zero afterwards (or no lower than before).
fn knife(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &ALL);
    let w = &m.w;
    for _ in 0..src.below(8) {
        let s = w.snap();
        m.step(src, &s);
    }
    let k = src.pick(&[Withdraw, PerpOrder, PerpPegged, FlashLoan, SerumPlace, Region, TcsTrigger, TcsTrigger, TcsTrigger, LiqToken, LiqToken, PerpLiqBase, PerpLiqBase, PerpLiqNeg, LiqTokenBankruptcy, ForceCloseBorrow]);
    if k == SerumPlace {
        let s = w.snap();
        m.act(SerumOpen, src, &s);
    }
    if k == TcsTrigger {
        let s = w.snap();
        let st = m.act(TcsCreate, src, &s);
        if !st.ok { return Ok(()) }
        // let it sell what it does not have
        if src.bool() { w.grant(st.a, st.t2, 0, -f(w.pos(st.a, st.t2)).floor().max(0.0)) }
    }
    if [LiqToken, PerpLiqBase, PerpLiqNeg, LiqTokenBankruptcy].contains(&k) {
        for _ in 0..2 {
            let s = w.snap();
            m.act(Price, src, &s);
        }
    }
    let liqor_side = LIQOR_OPS.contains(&k) && (k != TcsTrigger || src.bool());
    if liqor_side || k == TcsTrigger || src.chance(20) {
        for t in 0..5 {
            let have = f(w.pos(LIQOR, t)).floor();
            w.grant(LIQOR, t, 0, if liqor_side { 1.0 } else { 1e9 / w.price(t) } - have);
        }
    }
    for p in 0..2 {
        w.ok(PerpUpdateFundingInstruction { perp_market: w.perps[p].key, bank: w.tokens[0].bank, oracle: w.perps[p].oracle });
    }
    let s = w.snap();
    let from = src.rec.len();
    let probe = Machine { w: w.fork(), weights: m.weights.clone() };
    let st0 = probe.act(k, src, &s);
    let slice = src.rec[from..].to_vec();
    let who = if liqor_side { LIQOR } else { st0.a };
    if who == 0 || s.accs[who].fixed.being_liquidated() { return Ok(()) }
    let mut busy = vec![0, st0.t, st0.t2];
    for o in s.accs[who].active_serum3_orders() {
        busy.push(o.base_token_index as usize);
        busy.push(o.quote_token_index as usize);
    }
    if k == SerumPlace { busy.extend([0, 1]); }
    if [LiqTokenBankruptcy].contains(&k) { busy.push(0) }
    let free: Vec<usize> = (1..5).filter(|t| !busy.contains(t) && s.pos(who, *t) >= 0.0 && f(s.b(*t, 0).init_asset_weight) > 0.02).collect();
    if free.is_empty() { return Ok(()) }
    let u = src.pick(&free);
    let have = s.pos(who, u).floor();
    // (ok, error, pre, post, tol)
    let try_ = |x: u64| {
        let v = w.fork();
        v.grant(who, u, 0, x as f64 - have);
        let hb = v.health(&v.snap(), who);
        let m2 = Machine { w: v, weights: m.weights.clone() };
        let b = m2.w.snap();
        let st = m2.act(k, &mut Src::replay(slice.clone()), &s);
        let e = m2.w.snap();
        let ha = m2.w.health(&e, who);
        let changed = (0..e.accs.len()).any(|i| positions(&b.accs[i]) != positions(&e.accs[i]));
        (st.ok, st.err, hb.health(HT::Init), ha.health(HT::Init), hb.tol() + ha.tol() + dust(&b, &e, who), changed)
    };
    let (mut lo, mut hi) = (1u64, (1e13 / s.tok_price[u]) as u64);
    let gate = |e: &str| is_err(e, MangoError::HealthMustBePositiveOrIncrease) || is_err(e, MangoError::HealthMustBePositive);
    let (a, b) = (try_(lo), try_(hi));
    if !(gate(&a.1) && b.0 && b.5) { return Ok(()) }
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if try_(mid).0 { hi = mid } else { lo = mid }
    }
    let (a, b) = (try_(lo), try_(hi));
    if !b.5 { return Ok(()) }
    case.note(|| format!("{} with {lo}/{hi} of token {u} for acc {who}: {a:?} {b:?}", st0.what));
    let (_, _, pre, post, tol, _) = b;
    case.nontrivial();
    case.label(k.name());
    if liqor_side {
        case.label("liqor side");
        ensure!(post >= -tol, "{}: liqor passes with init health {post}", st0.what);
    } else {
        ensure!(post_ok(pre, post, tol), "{}: passes with init health {pre} -> {post}", st0.what);
    }
    if gate(&a.1) {
        let unit = s.tok_price[u].max(s.b(u, 0).stable_price_model.stable_price) * 1.01;
        let mut slack = unit + tol;
        // closing a position may give up to a native unit of it
        for t in [st0.t, st0.t2, 0] { slack += s.tok_price[t] * 2.0 }
        ensure!(post <= slack || (!liqor_side && post <= pre + slack), "{}: rejected with one unit less although init health is {pre} -> {post}", st0.what);
    }
    Ok(())
}

/// Health regions: only listed instructions of the program inside, one matching end, checked end to end.
fn region(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &ALL);
    let w = &m.w;
    let a = 1 + src.idx(3);
    let who = w.accs[a];
    let p = src.idx(2);
    // the account already has both positions, so all health lists agree
    let pm = w.perp(p);
    w.edit_acc(a, |x| { x.ensure_perp_position(pm.perp_market_index, 0).unwrap(); });
    let s = w.snap();
    let hb = w.health(&s, a);
    let end_of = |x: usize| HealthRegionEndInstruction { account: w.accs[x].key, affected_bank: None }.to_instruction(&*w.s).1;
    let begin_of = |x: usize| HealthRegionBeginInstruction { account: w.accs[x].key }.to_instruction(&*w.s).1;
    let fair = s.perp_price[p] * pm.base_lot_size as f64 / pm.quote_lot_size as f64;
    let mut ixs = vec![];
    let mut bad = None; // must fail
    let mut what = vec![];
    if src.chance(20) {
        ixs.push(w.deposit_ix(a, 0, 0, 1).to_instruction(&*w.s).1);
        what.push("deposit before".to_string());
    }
    ixs.push(begin_of(a));
    for _ in 0..1 + src.below(3) {
        match src.weighted(&[12, 4, 1, 1, 1, 1, 1, 1]) {
            0 => {
                let mut o = w.order_ix(a, p, src.pick(&[Side::Bid, Side::Ask]));
                o.price_lots = ((fair * src.f(0.9, 1.1)).round() as i64).max(1);
                o.max_base_lots = src.log_range(1, 100_000) as i64;
                what.push(format!("{:?} {}@{}", o.side, o.max_base_lots, o.price_lots));
                ixs.push(o.to_instruction(&*w.s).1);
            }
            1 => {
                what.push("cancel".into());
                ixs.push(PerpCancelAllOrdersInstruction { account: who.key, perp_market: w.perps[p].key, owner: who.owner, limit: 10 }.to_instruction(&*w.s).1);
            }
            2 => {
                what.push("withdraw".into());
                bad = Some("withdraw inside");
                ixs.push(w.withdraw_ix(a, 0, 0, 1, true).to_instruction(&*w.s).1);
            }
            3 => {
                what.push("deposit".into());
                bad = Some("deposit inside");
                ixs.push(w.deposit_ix(a, 0, 0, 1).to_instruction(&*w.s).1);
            }
            4 => {
                what.push("transfer".into());
                bad = Some("foreign program inside");
                ixs.push(spl_token::instruction::transfer(&spl_token::id(), &w.user_token(who.user, 1), &w.user_token(2, 1), &who.owner.pubkey(), &[], 0).unwrap());
            }
            5 => {
                what.push("nested begin".into());
                bad = Some("nested begin");
                ixs.push(begin_of(a));
            }
            6 => {
                what.push("settle pnl".into());
                bad = Some("settle inside");
                ixs.push(PerpSettleFeesInstruction { account: who.key, perp_market: w.perps[p].key, max_settle_amount: 1 }.to_instruction(&*w.s).1);
            }
            _ => {
                what.push("update funding".into());
                bad = Some("other instruction inside");
                ixs.push(PerpUpdateFundingInstruction { perp_market: w.perps[p].key, bank: w.tokens[0].bank, oracle: w.perps[p].oracle }.to_instruction(&*w.s).1);
            }
        }
    }
    match src.weighted(&[14, 1, 1, 1]) {
        0 => {
            ixs.push(end_of(a));
            if src.chance(20) {
                ixs.push(w.deposit_ix(a, 0, 0, 1).to_instruction(&*w.s).1);
                what.push("deposit after".into());
            }
        }
        1 => {
            bad = Some("no end");
            what.push("no end".into());
        }
        2 => {
            let b = 1 + a % 3;
            bad = Some("end of another account");
            what.push("end of another account".into());
            if src.bool() {
                w.edit_acc(b, |x| x.fixed.set_in_health_region(true));
            }
            ixs.push(end_of(b));
        }
        _ => {
            what.push("end twice".into());
            bad = Some("end twice");
            ixs.push(end_of(a));
            ixs.push(end_of(a));
        }
    }
    let before = w.raw_state();
    let ok = w.s.process_transaction(&ixs, Some(&[who.owner])).unwrap().result.is_ok();
    let err = w.fail_text();
    case.note(|| format!("acc {a} init {}: {} -> {}", hb.health(HT::Init), what.join(", "), if ok { "ok" } else { &err }));
    if let Some(b) = bad {
        case.nontrivial();
        case.label(b);
        ensure!(!ok, "health region with {b} went through: {}", what.join(", "));
    }
    if !ok {
        ensure!(before == w.raw_state(), "failed transaction changed state");
        if is_err(&err, MangoError::HealthMustBePositiveOrIncrease) && bad.is_none() {
            case.nontrivial();
            case.label("rejected for health");
            // same orders without any checks
            let v = w.fork();
            v.edit_acc(a, |x| x.fixed.set_in_health_region(true));
            let inner: Vec<_> = ixs.iter().filter(|i| i.data[..8] != ixs[ixs.len() - 1].data[..8] || what.last().map_or(false, |x| x == "deposit after"))
                .filter(|i| i.data[..8] != begin_of(a).data[..8] && i.data[..8] != end_of(a).data[..8]).cloned().collect();
            if v.s.process_transaction(&inner, Some(&[who.owner])).unwrap().result.is_ok() {
                let h = v.health(&v.snap(), a);
                let pre = hb.health(HT::Init);
                ensure!(post_bad(pre - 1.0, h.health(HT::Init), h.tol() + hb.tol() + 3.0), "region rejected although health goes {pre} -> {}", h.health(HT::Init));
            }
        }
        return Ok(());
    }
    case.label("through");
    let e = w.snap();
    let ha = w.health(&e, a);
    let (x, y) = (hb.health(HT::Init), ha.health(HT::Init));
    if y < 1e3 { case.nontrivial() }
    ensure!(!e.accs[a].fixed.is_in_health_region(), "still in region");
    ensure!(e.accs[a].fixed.health_region_begin_init_health == 0, "region health left behind");
    ensure!(post_ok(x, y, hb.tol() + ha.tol() + if what.iter().any(|w| w.starts_with("deposit")) { 3.0 } else { 0.0 }), "region took init health {x} -> {y}");
    Ok(())
}

fn health_check(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = super::health::state(src, case, false)?;
    let w = &m.w;
    let a = 1 + src.idx(3);
    let s = w.snap();
    let h = w.health(&s, a);
    let c = w.cache(a, &|_| 0)?;
    let (kind, v, tol) = match src.below(6) {
        0 => (HealthCheckKind::Maint, h.health(HT::Maint), h.tol()),
        1 => (HealthCheckKind::Init, h.health(HT::Init), h.tol()),
        2 => (HealthCheckKind::LiquidationEnd, h.health(HT::LiqEnd), h.tol()),
        r => {
            let (k, ht) = [
                (HealthCheckKind::MaintRatio, HealthType::Maint),
                (HealthCheckKind::InitRatio, HealthType::Init),
                (HealthCheckKind::LiquidationEndRatio, HealthType::LiquidationEnd),
            ][r as usize - 3];
            let (al, ll) = c.health_assets_and_liabs_stable_liabs(ht);
            if f(ll) < 1.0 { return Ok(()) }
            (k, 100.0 * f(al - ll) / f(ll), 1e-6 + 1e-9 * f(al).abs())
        }
    };
    if v.abs() > 1e20 { return Ok(()) }
    let d = src.pick(&[0.0, 1e-2, 1.0, 1e3, 1e9, v.abs()]) * if src.bool() { -1.0 } else { 1.0 };
    let min = v + d;
    if (min - v).abs() <= 2.0 * tol + v.abs() * 1e-12 { return Ok(()) }
    case.nontrivial();
    let before = w.raw_state();
    let ok = w.ok(HealthCheckInstruction { account: w.accs[a].key, owner: w.accs[a].owner, min_health_value: min, check_kind: kind });
    case.note(|| format!("acc {a} kind {} value {v} min {min} -> {ok}", kind as u8));
    case.label(if ok { "accepted" } else { "rejected" });
    ensure!(ok == (v >= min), "health check kind {} for value {v} with minimum {min}: {}", kind as u8, w.fail_text());
    if !ok {
        ensure!(is_err(&w.fail_text(), MangoError::InvalidHealth), "wrong error {}", w.fail_text());
    }
    ensure!(before == w.raw_state(), "health check changed state");
    Ok(())
}

