//! C14: perp pnl and fee settlement.
use super::gates::is_err;
use super::perpledger::R;
use crate::ensure;
use crate::machine::Machine;
use crate::model::{settle_range, HT};
use crate::pbt::*;
use crate::pt::*;
use crate::world::*;
use mango_v4::error::MangoError;
use mango_v4::state::*;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "`settle`: random positions, settle allowances, windows, prices, funding, weights, fees and balances; random sequences of pnl and fee settlements (any two accounts, any settler) and clock and price moves; acceptance, amounts and every field of every position compared with an independent computation, the net amount settled per window with the limit at its start. Non-trivial: something was settled",
        assumptions: &["cases within rounding of an acceptance threshold are not judged"],
        suites: vec![Suite { name: "settle", quick: 40_000, thorough: 2_000_000, f: settle }],
    }
}

/// window bookkeeping, then the range of pnl that may be settled
fn range(r: &mut R, pp: &PerpPosition, m: &PerpMarket, now: u64) -> (f64, f64) {
    let w = m.settle_pnl_limit_window_size_ts;
    if now / w != r.window as u64 {
        r.window = (now / w) as u32;
        r.used = 0;
    }
    let mut q = *pp;
    q.quote_position_native = num(r.quote);
    q.oneshot_settle_pnl_allowance = num(r.one);
    q.settle_pnl_limit_window = r.window;
    q.settle_pnl_limit_settled_in_current_window_native = r.used;
    settle_range(&q, m, now)
}
/// What may be settled in the rest of a window at most. Settling past zero stable-price pnl makes room for the
/// stored recurring allowance again, so that counts in full here.
fn most(r: &R, m: &PerpMarket) -> (f64, f64) {
    if m.settle_pnl_limit_factor < 0.0 { return (f64::NEG_INFINITY, f64::INFINITY); }
    let value = m.stable_price_model.stable_price * (r.base.abs() * m.base_lot_size) as f64;
    let base = (m.settle_pnl_limit_factor as f64 * value).floor() + r.rec.abs();
    ((-base + r.one.min(0.0).floor() - r.used as f64).min(0.0), (base + r.one.max(0.0).ceil() - r.used as f64).max(0.0))
}
fn record(r: &mut R, x: f64, m: &PerpMarket) {
    r.quote -= x;
    let once = if x > 0.0 { x.min(r.one).max(0.0) } else { x.max(r.one).min(0.0) };
    r.one -= once;
    let before = r.rec;
    r.constrain(m);
    let cut = (before - r.rec).max(0.0);
    let used = (x - once).trunc();
    let used = if used > 0.0 { (used - cut).max(0.0) } else { (used + cut).min(0.0) };
    r.used += used as i64;
}
fn same(r: &R, pp: &PerpPosition) -> Result<(), String> {
    let o = R::of(pp);
    let mut x = r.clone();
    // whole-unit counters of fractional amounts may round either way
    ensure!((x.used - o.used).abs() <= 2 + (1e-9 * x.used.abs() as f64) as i64, "settled in window {} expected {}", o.used, x.used);
    ensure!((x.pst - o.pst).abs() <= 2, "spot transfers {} expected {}", o.pst, x.pst);
    x.used = o.used;
    x.pst = o.pst;
    x.cmp(&o)
}

/// perp positions in various states of profit, settlement allowance and funding
pub fn positions(src: &mut Src, w: &World) {
    for p in 0..2 {
        let (lf, win) = (src.pick(&[-1.0f32, 0.0, 0.05, 0.2, 1.0]), src.pick(&[100u64, 3600, 86_400]));
        let (flat, thr, frac) = (src.pick(&[0.0f32, 5.0, 1000.0]), src.pick(&[0.0f32, 10.0, 1e5]), src.pick(&[0.0f32, 0.01, 0.3]));
        let (l, s, fa) = (src.f(-3.0, 3.0), src.f(-3.0, 3.0), src.pick(&[0.0, 12.5, 1e6, 1e9, -100.0]));
        w.edit_perp(p, |m| {
            m.settle_pnl_limit_factor = lf;
            m.settle_pnl_limit_window_size_ts = win;
            m.settle_fee_flat = flat;
            m.settle_fee_amount_threshold = thr;
            m.settle_fee_fraction_low_health = frac;
            m.long_funding = num(l);
            m.short_funding = num(s);
            m.fees_accrued = num(fa);
        });
        let px = w.perp_price(p) * w.perps[p].base_lot as f64;
        let mut oi = 0;
        for a in 1..5 {
            if src.chance(80) {
                let b = src.log_range(1, 20_000) as i64 * src.pick(&[1, -1, 1, -1, 0]);
                oi += b.abs();
                let pf = src.pick(&[0.002, 0.05, 0.5]);
                let (x, y, z, u) = (src.f(-pf, pf), src.f(-0.5, 0.5), src.f(-0.01, 0.01), src.f(0.0, 1.0));
                let v = b.abs().max(src.log_range(1, 1000) as i64) as f64 * px;
                let (k, one, win0) = (src.pick(&[0.0, 0.1, 1.0]), src.pick(&[0.0, 0.2, 1.0]), w.now() / win - src.below(2));
                // lies in the future after the window size was raised
                let win0 = if src.chance(15) { win0 + 1 + src.log(1 << 20) } else { win0 };
                let used = (v * y * src.pick(&[0.0, 0.1, 1.0])) as i64;
                let fl = src.pick(&[0.0, 0.1, 1.0]);
                w.edit_acc(a, |acc| {
                    let (pp, _) = acc.ensure_perp_position(p as u16, 0).unwrap();
                    pp.base_position_lots = b;
                    pp.avg_entry_price_per_base_lot = if b == 0 { 0.0 } else { px };
                    pp.quote_position_native = num(-b as f64 * px + v * x);
                    pp.quote_running_native = (-b as f64 * px) as i64;
                    pp.oneshot_settle_pnl_allowance = num(v * y * one);
                    pp.recurring_settle_pnl_allowance = (v * u * 0.3 * k) as i64;
                    pp.long_settled_funding = num(l + z * px * fl);
                    pp.short_settled_funding = num(s - z * px * fl);
                    pp.settle_pnl_limit_window = win0 as u32;
                    pp.settle_pnl_limit_settled_in_current_window_native = used;
                });
            }
        }
        w.edit_perp(p, |m| m.open_interest = oi);
        if src.bool() {
            let x = w.perp_price(p) * src.pick(&[0.8, 0.97, 1.03, 1.25]);
            w.set_perp_price(p, x, None);
        }
    }
}

fn settle(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &[]);
    let w = &m.w;
    positions(src, w);
    let mut b = w.snap();
    // per account and market: limit at the start, net settled, number of settlements
    let mut win: Vec<[Option<(u64, f64, f64, f64, f64)>; 2]> = vec![[None; 2]; N_ACC];
    let n = 3 + src.below(12);
    for _ in 0..n {
        let kind = src.weighted(&[12, 6, 4, 2, 1]);
        match kind {
            2 => {
                let dt = src.pick(&[1u64, 30, 100, 1000, 3600, 100_000]);
                w.advance(dt);
                for q in 0..2 { w.set_perp_price(q, w.perp_price(q), None); }
                for t in 0..5 { w.set_price(t, w.price(t), None); }
                case.note(|| format!("+{dt} s"));
                b = w.snap();
                continue;
            }
            3 => {
                let p = src.idx(2);
                let x = w.perp_price(p) * src.pick(&[0.9, 0.99, 1.01, 1.1]);
                let st = if src.bool() { Some(x) } else { None };
                w.set_perp_price(p, x, st);
                if st.is_some() { for a in 0..N_ACC { win[a][p] = None; } }
                case.note(|| format!("perp {p} price {x} stable {st:?}"));
                b = w.snap();
                continue;
            }
            4 => {
                let p = src.idx(2);
                let (l, s) = (src.f(-0.1, 0.1), src.f(-0.1, 0.1));
                let px = w.perp_price(p) * w.perps[p].base_lot as f64;
                let size = if src.bool() { src.pick(&[60u64, 100, 3600, 86_400, 604_800]) } else { b.perps[p].settle_pnl_limit_window_size_ts };
                w.edit_perp(p, |m| { m.long_funding += num(l * px); m.short_funding += num(s * px); m.settle_pnl_limit_window_size_ts = size; });
                for a in 0..N_ACC { win[a][p] = None; }
                case.note(|| format!("perp {p} funding {l:+} {s:+}, settle window {size} s"));
                b = w.snap();
                continue;
            }
            _ => {}
        }
        let p = src.idx(2);
        let mk = &b.perps[p];
        let price = b.perp_price[p];
        let have = |x: usize| b.accs[x].perp_position(p as u16).is_ok();
        let mut r: Vec<R> = (0..N_ACC).map(|x| R::of(&b.pp(x, p))).collect();
        let pnl = |r: &R| r.quote + r.base as f64 * mk.base_lot_size as f64 * price;
        let mut tok: Vec<f64> = (0..N_ACC).map(|x| b.pos(x, 0)).collect();
        let mut fees = (f(mk.fees_accrued), f(mk.fees_settled));
        let (ok, err, what);
        let mut fees_hi = 0.0;
        let mut settled: Vec<(usize, f64)> = vec![];
        let mut fee_set = vec![0.0];
        let mut settler = LIQOR;
        if kind == 0 {
            // prefer a fitting pair
            let est = |x: usize| { let mut q = R::of(&b.pp(x, p)); q.funding(mk); pnl(&q) };
            let pos: Vec<usize> = (1..5).filter(|x| have(*x) && est(*x) > 0.0).collect();
            let neg: Vec<usize> = (1..5).filter(|x| have(*x) && est(*x) < 0.0).collect();
            let odd = src.chance(12);
            let x = if pos.is_empty() || odd { 1 + src.idx(4) } else { src.pick(&pos) };
            let y = if neg.is_empty() || odd { 1 + src.idx(4) } else { src.pick(&neg) };
            settler = src.pick(&[LIQOR, 5, x, y, 0]);
            what = format!("perp {p} settle pnl {x} <- {y}, settler {settler}");
            // the client helper needs the positions
            if !have(x) || !have(y) {
                let raw = b.accs[x].perp_position(p as u16).is_ok() && b.accs[y].perp_position(p as u16).is_ok();
                ensure!(!raw, "position lookup");
                continue;
            }
            let (mut rx, mut ry) = (r[x].clone(), r[y].clone());
            rx.funding(mk);
            ry.funding(mk);
            let (pa, pb) = (pnl(&rx), pnl(&ry));
            let (_, hi) = range(&mut rx, &b.pp(x, p), mk, b.now);
            let (lo, _) = range(&mut ry, &b.pp(y, p), mk, b.now);
            let (hx, hy) = (w.health(&b, x), w.health(&b, y));
            let bmax = hy.perp_max_settle(0);
            let cap = if hi == f64::INFINITY { pa } else { pa.min(hi) };
            let capb = if lo == f64::NEG_INFINITY { -pb } else { (-pb).min(-lo) };
            let amount = cap.min(capb).min(bmax);
            let margin = 1e-3 + rx.slop + ry.slop + hy.tol();
            let has_tok = |x: usize| b.accs[x].token_position(0).is_ok();
            ok = w.ok(PerpSettlePnlInstruction {
                settler: w.accs[settler].key,
                settler_owner: w.accs[settler].owner,
                account_a: w.accs[x].key,
                account_b: w.accs[y].key,
                perp_market: w.perps[p].key,
            });
            err = if ok { String::new() } else { w.fail_text() };
            case.note(|| format!("{what}: pnl {pa} {pb} limits {hi} {lo} max {bmax} -> {ok} {err}"));
            // limits are whole numbers of a product that may fall on either side
            let edge = (hi.is_finite() && hi <= 1.0) || (lo.is_finite() && lo >= -1.0) || pa.abs() < margin || pb.abs() < margin || bmax < margin;
            if x == y || !has_tok(x) || !has_tok(y) || (pa < -margin) || (pb > margin) || (!edge && amount < -margin) {
                ensure!(!ok, "settlement accepted: pnl {pa} {pb}, limits {hi} {lo}, spot {bmax} amount {amount} edge {edge} {margin} tok {} {} for {what}", has_tok(x), has_tok(y));
                if x == y { ensure!(is_err(&err, MangoError::CannotSettleWithSelf), "refused with {err}"); case.label("self"); }
                else { case.label("refused"); }
            } else if bmax <= -margin || (bmax == 0.0 && hy.sum(HT::Maint, &hy.effective(HT::Maint, true)) < -margin) {
                ensure!(!ok, "settlement accepted although the losing account has no spot health ({bmax}) for {what}");
                case.label("no spot health");
            } else if !edge {
                ensure!(ok, "settlement refused with {err}: pnl {pa} {pb}, limits {hi} {lo}, spot {bmax} for {what}");
            }
            if ok {
                // the exact amount from the profitable side, judged against the expectation
                let amt = {
                    let na = w.ppos(x, p);
                    rx.quote - f(na.quote_position_native)
                };
                let tol = margin + 2.0 + 1e-9 * amount.abs();
                // 2 units only when a rounded limit decides
                let t = if amount >= cap - tol && hi.is_finite() && pa > hi - tol || amount >= capb - tol && lo.is_finite() && -pb > -lo - tol { tol } else { margin + 1e-9 * amount.abs() };
                ensure!((amt - amount).abs() <= t && amt > -1e-6, "settled {amt}, expected {amount} (pnl {pa} {pb}, limits {hi} {lo}, spot {bmax}) for {what}");
                ensure!(amt <= pa + margin && amt <= -pb + margin && amt <= hi + 2.0 + 1e-9 * hi.abs().min(1e15) && amt <= -lo + 2.0 + 1e-9 * lo.abs().min(1e15) && amt <= bmax + margin, "settled {amt} beyond pnl {pa} {pb}, limits {hi} {lo} or spot {bmax} for {what}");
                if amt > 0.0 { case.nontrivial(); }
                case.label(if amount == bmax { "spot health decides" } else if amount == pa || amount == -pb { "pnl decides" } else { "limit decides" });
                let (wx, wy) = (most(&rx, mk), most(&ry, mk));
                for (z, rg) in [(x, wx), (y, wy)] {
                    let now_w = b.now / mk.settle_pnl_limit_window_size_ts;
                    if win[z][p].map(|v| v.0) != Some(now_w) { win[z][p] = Some((now_w, rg.0, rg.1, 0.0, 0.0)); }
                }
                record(&mut rx, amt, mk);
                record(&mut ry, -amt, mk);
                settled.push((x, amt));
                settled.push((y, -amt));
                // fee
                let t0 = f(num(b.tok_price[0]));
                let posv = rx.base.abs() as f64 * mk.base_lot_size as f64 * price;
                let (le, ma) = (hx.health(HT::LiqEnd), hx.health(HT::Maint));
                let htol = hx.tol() + 1e-6;
                let worth = {
                    let d = 100.0 * pa * t0 - posv;
                    let t = 1e-9 * posv + 100.0 * margin;
                    if d.abs() < t { vec![true, false] } else { vec![d > 0.0] }
                };
                let thr = mk.settle_fee_amount_threshold as f64;
                let big = if (amt - thr).abs() < margin { vec![true, false] } else { vec![amt >= thr] };
                let flat = mk.settle_fee_flat as f64;
                let frac = mk.settle_fee_fraction_low_health as f64;
                fee_set = vec![];
                for wv in &worth { for bg in &big {
                    let fee = if !wv { 0.0 } else if *bg { flat } else {
                        let low = if le >= 0.0 { 0.0 } else if ma < 0.0 { amt * frac } else { amt * frac * (-le / (ma - le)) };
                        low.min(2.0 * flat)
                    };
                    fee_set.push(fee.min(amt).max(0.0));
                } }
                if ma.abs() <= htol || le.abs() <= htol || (ma - le).abs() < 1e3 * htol {
                    fee_set.push(f64::NAN);
                } else if *fee_set.last().unwrap() > 0.0 {
                    case.label(if *big.last().unwrap() { "flat fee" } else { "low health fee" });
                }
                r[x] = rx;
                r[y] = ry;
                tok[x] += amt;
                tok[y] -= amt;
            }
        } else {
            let x = 1 + src.idx(4);
            let max = src.pick(&[u64::MAX, 5, 1_000_000, 1 << 40, 0]);
            what = format!("perp {p} settle fees of {x} up to {max}");
            let ix = PerpSettleFeesInstruction { account: w.accs[x].key, perp_market: w.perps[p].key, max_settle_amount: max };
            if !have(x) { continue; }
            let mut rx = r[x].clone();
            rx.funding(mk);
            let pa = pnl(&rx);
            let (lo, hi) = range(&mut rx, &b.pp(x, p), mk, b.now);
            let due = if pa < 0.0 { (-pa).min(-lo) } else { 0.0 };
            let amount = due.min(fees.0).min(max as f64).max(0.0);
            let margin = 1e-3 + rx.slop;
            ok = w.ok(ix);
            err = if ok { String::new() } else { w.fail_text() };
            case.note(|| format!("{what}: pnl {pa} limits {lo} {hi} accrued {} -> {ok} {err}", fees.0));
            if max == 0 {
                ensure!(!ok && is_err(&err, MangoError::MaxSettleAmountMustBeGreaterThanZero), "zero maximum: {ok} {err}");
            } else if !ok {
                // only the health rule may refuse
                ensure!(is_err(&err, MangoError::HealthMustBePositive) || (is_err(&err, MangoError::TokenPositionDoesNotExist) && b.accs[x].token_position(0).is_err() && amount > -margin), "{what} refused with {err}");
                if is_err(&err, MangoError::HealthMustBePositive) {
                    let g = w.fork();
                    let bank = g.tbank(0);
                    let mut q = rx.clone();
                    record(&mut q, -amount, mk);
                    g.edit_acc(x, |acc| {
                        let pp = acc.perp_position_mut(p as u16).unwrap();
                        pp.quote_position_native = num(q.quote);
                        pp.long_settled_funding = num(q.ls);
                        pp.short_settled_funding = num(q.ss);
                        let n = tok[x] - amount;
                        acc.token_position_mut(0).unwrap().0.indexed_position = num(n / f(if n > 0.0 { bank.deposit_index } else { bank.borrow_index }));
                    });
                    let s = g.snap();
                    let h = g.health(&s, x);
                    ensure!(h.health(HT::Init) < h.tol() + 1.0 + 1e-6 * amount, "{what} refused for health although it would be {} afterwards", h.health(HT::Init));
                    case.label("fees refused for health");
                }
            } else {
                let amt = f(w.ppos(x, p).quote_position_native) - rx.quote;
                let t = if lo.is_finite() && -pa > -lo - 3.0 { margin + 2.0 } else { margin } + 1e-9 * amount;
                ensure!((amt - amount).abs() <= t && amt > -margin, "fees settled {amt}, expected {amount} for {what} (pnl {pa}, limit {lo}, accrued {})", fees.0);
                ensure!(amt <= -lo + 2.0 + 1e-9 * lo.abs().min(1e15) + if amt < margin { margin } else { 0.0 }, "fees settled {amt} beyond the limit {lo}");
                if amt > margin {
                    case.nontrivial();
                    case.label("fees settled");
                    let now_w = b.now / mk.settle_pnl_limit_window_size_ts;
                    if win[x][p].map(|v| v.0) != Some(now_w) { let (lo, hi) = most(&rx, mk); win[x][p] = Some((now_w, lo, hi, 0.0, 0.0)); }
                    record(&mut rx, -amt, mk);
                    settled.push((x, -amt));
                    tok[x] -= amt;
                    fees.0 -= amt;
                    fees.1 += amt;
                    fees_hi = amt;
                } else {
                    case.label("no fees settled");
                }
                r[x] = rx;
            }
        }
        let a = w.snap();
        if !ok {
            for x in 0..N_ACC { ensure!(a.pos(x, 0) == b.pos(x, 0) && a.pp(x, p).quote_position_native == b.pp(x, p).quote_position_native, "failed {what} changed acc {x}"); }
            b = a;
            continue;
        }
        // positions
        let fee = if kind == 0 {
            let (x, amt) = settled[0];
            // what the profitable account got less than the settled amount; the settler got it
            let mut paid = amt - (a.pos(x, 0) - b.pos(x, 0));
            if settler == x { paid = f64::NAN; }
            let got = if settler == x || settled[1].0 == settler { f64::NAN } else { a.pos(settler, 0) - b.pos(settler, 0) };
            let t = 1e-3 + r[x].slop + 1e-9 * (amt + tok[x].abs());
            let cand = |v: f64| fee_set.iter().any(|e| e.is_nan() || (v - e).abs() <= t + 1e-6 * e);
            let fee = if !paid.is_nan() { paid } else if !got.is_nan() { got } else if fee_set.len() == 1 { fee_set[0] } else { f64::NAN };
            let amb = fee.is_nan();
            ensure!(fee.is_nan() || (cand(fee) && fee > -t && fee <= amt + t), "fee {fee} for settling {amt}, expected {fee_set:?} for {what}");
            if !paid.is_nan() && !got.is_nan() {
                // a fee below one unit leaves no position
                ensure!((paid - got).abs() <= 2.0 * t + 1e-15 * tok[settler].abs() + if a.accs[settler].token_position(0).is_err() || b.accs[settler].token_position(0).is_err() { 1.0 } else { 0.0 }, "fee {paid} paid but settler received {got} after {what}");
            }
            if fee > 0.5 { case.label("fee"); }
            if fee > 0.5 && settler != x && settled[1].0 != settler { case.label("fee to third party"); }
            let fee = if amb { 0.0 } else { fee };
            tok[x] -= fee;
            tok[settler] += fee;
            let (fi, si) = (fee.max(0.0).trunc() as i64, amt.max(0.0).trunc() as i64);
            let fi = if amb { si - (a.accs[x].fixed.perp_spot_transfers - b.accs[x].fixed.perp_spot_transfers) } else { fi };
            r[x].pst += si - fi;
            let y = settled[1].0;
            r[y].pst -= si;
            ensure!((a.accs[x].fixed.perp_spot_transfers - b.accs[x].fixed.perp_spot_transfers - (si - fi)).abs() <= 2 && (a.accs[y].fixed.perp_spot_transfers - b.accs[y].fixed.perp_spot_transfers + si).abs() <= 2, "perp spot transfers after {what}");
            fee
        } else {
            for (x, amt) in &settled {
                let i = amt.round() as i64;
                r[*x].pst += i;
                ensure!((a.accs[*x].fixed.perp_spot_transfers - b.accs[*x].fixed.perp_spot_transfers - i).abs() <= 1, "perp spot transfers after {what}");
                let h = w.health(&a, *x);
                ensure!(h.health(HT::Init) >= -h.tol(), "health {} after {what}", h.health(HT::Init));
            }
            0.0
        };
        for x in 0..N_ACC {
            same(&r[x], &a.pp(x, p)).map_err(|e| format!("acc {x}: {e} after {what} ({:?} -> {:?})", b.pp(x, p), a.pp(x, p)))?;
            ensure!(R::of(&a.pp(x, 1 - p)).cmp(&R::of(&b.pp(x, 1 - p))).is_ok(), "the other market's position changed after {what}");
            let t = 1e-3 + r[x].slop + 1e-14 * tok[x].abs() + 1e-6 * fee.abs() + if a.accs[x].token_position(0).is_err() || b.accs[x].token_position(0).is_err() { 1.0 } else { 0.0 };
            ensure!((a.pos(x, 0) - tok[x]).abs() <= t || tok[x].is_nan(), "acc {x}: settle token {} expected {} after {what}", a.pos(x, 0), tok[x]);
            for t in 1..5 { ensure!(a.pos(x, t) == b.pos(x, t), "acc {x}: token {t} changed after {what}"); }
        }
        let am = &a.perps[p];
        ensure!(close(f(am.fees_accrued), fees.0, 1e-10, 1e-3 + fees_hi * 1e-9) && close(f(am.fees_settled), fees.1, 1e-10, 1e-3 + fees_hi * 1e-9), "fees accrued {} settled {}, expected {fees:?} after {what}", f(am.fees_accrued), f(am.fees_settled));
        ensure!(am.open_interest == mk.open_interest && am.long_funding == mk.long_funding && am.short_funding == mk.short_funding, "market changed after {what}");
        ensure!(a.fees(0) == b.fees(0), "loan fees charged on {what}");
        // limits over the window
        for (x, amt) in &settled {
            if let Some(v) = win[*x][p].as_mut() {
                v.3 += amt;
                v.4 += 1.0;
                ensure!(v.3 <= v.2 + v.4 + 1e-9 * v.2.abs().min(1e15) && v.3 >= v.1 - v.4 - 1e-9 * v.1.abs().min(1e15), "acc {x}: net {} settled in one window, allowed were {}..{} after {what}", v.3, v.1, v.2);
                if v.4 > 1.0 { case.label("several in one window"); }
            }
        }
        b = a;
    }
    Ok(())
}
