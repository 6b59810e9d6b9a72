//! C03: interest: rate curve, index growth, fees, utilization averaging, rate adaption, weight shifts.
use crate::ensure;
use crate::pbt::*;
use crate::pt::*;
use crate::world::*;
use bytemuck::Zeroable;
use fixed::types::I80F48;
use mango_v4::state::*;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "`update`: random curve parameters, balances over both banks, ages and update schedules; every index update compared field by field with a reference. `curve`: random valid curves sampled on random utilizations. `guard`: index updates composed with other instructions, incomplete bank lists, invalid oracles. Non-trivial: interest was charged, a rate adapted, or an update was decided by a guard",
        assumptions: &["first-time initialisation of the curve scaling (value 0) is covered like any other starting value"],
        suites: vec![
            Suite { name: "update", quick: 60_000, thorough: 3_000_000, f: update },
            Suite { name: "curve", quick: 100_000, thorough: 5_000_000, f: curve },
            Suite { name: "guard", quick: 10_000, thorough: 400_000, f: guard },
        ],
    }
}
const YEAR: f64 = 31536000.0;

struct C {
    z: f64, u0: f64, r0: f64, u1: f64, r1: f64, m: f64, s: f64,
}
impl C {
    fn rate(&self, u: f64) -> f64 {
        let u = u.clamp(0.0, 1.0);
        let pts = [(0.0, self.z), (self.u0, self.r0), (self.u1, self.r1), (1.0, self.m)];
        let mut v = self.m;
        for k in 0..3 {
            let ((x0, y0), (x1, y1)) = (pts[k], pts[k + 1]);
            if u <= x1 {
                v = if x1 > x0 { y0 + (y1 - y0) * (u - x0) / (x1 - x0) } else { y1 };
                break;
            }
        }
        v * if self.s == 0.0 { 1.0 } else { self.s }
    }
}
/// a curve as an admin could set it, rates in rising order
fn gen(src: &mut Src) -> C {
    let u0 = src.pick(&[0.7, 0.5, 0.05, 0.95]) + src.f(-0.04, 0.04);
    let u1 = u0 + (1.0 - u0) * src.f(0.05, 0.9);
    let z = if src.bool() { 0.0 } else { src.f(0.0, 0.02) };
    let r0 = z + src.f(0.0, 0.2);
    let r1 = r0 + src.f(0.0, 0.8);
    let m = r1 + src.f(0.0, 2.0);
    C { z, u0, r0, u1, r1, m, s: src.pick(&[1.0, 1.0, 1.5, 4.2, 0.0]) }
}
fn put(b: &mut Bank, c: &C) {
    b.zero_util_rate = num(c.z);
    b.util0 = num(c.u0);
    b.rate0 = num(c.r0);
    b.util1 = num(c.u1);
    b.rate1 = num(c.r1);
    b.max_rate = num(c.m);
    b.interest_curve_scaling = c.s;
}
fn get(b: &Bank) -> C {
    C { z: f(b.zero_util_rate), u0: f(b.util0), r0: f(b.rate0), u1: f(b.util1), r1: f(b.rate1), m: f(b.max_rate), s: b.interest_curve_scaling }
}

fn curve(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let c = gen(src);
    let mut b = Bank::zeroed();
    put(&mut b, &c);
    let mut us: Vec<f64> = vec![0.0, 1.0, c.u0, c.u1];
    for _ in 0..6 { us.push(match src.below(4) { 0 => c.u0 + src.f(-1e-6, 1e-6), 1 => c.u1 + src.f(-1e-6, 1e-6), 2 => src.f(0.0, 1.0), _ => src.f(-0.5, 1.5) }); }
    us.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut prev: Option<(f64, f64)> = None;
    for u in us {
        let got = f(b.compute_interest_rate(num(u)));
        let want = c.rate(u);
        case.note(|| format!("rate at {u} = {got}, expected {want}"));
        ensure!((got - want).abs() <= 1e-9 * (1.0 + want), "rate at utilization {u}: {got}, expected {want} (curve {} {} {} {} {} {} scaled {})", c.z, c.u0, c.r0, c.u1, c.r1, c.m, c.s);
        if let Some((pu, pr)) = prev {
            ensure!(got >= pr - 1e-9 * (1.0 + pr), "rate falls from {pr} at {pu} to {got} at {u}");
        }
        prev = Some((u, got));
    }
    case.nontrivial();
    Ok(())
}

fn update(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    let t = src.idx(5);
    let c = gen(src);
    let lfee = src.pick(&[0.0, 0.0005, 0.01, 0.05]);
    let target = src.pick(&[0.5f32, 0.8, 0.95]);
    let adj = src.pick(&[0.0, 0.004, 0.02, 0.5]);
    let (di, bi) = (src.flog(1e6, 5e6), src.flog(1e6, 2e7));
    w.edit_token(t, |b| {
        put(b, &c);
        b.loan_fee_rate = num(lfee);
        b.interest_target_utilization = target;
        b.adjustment_factor = num(adj);
        b.deposit_index = num(di);
        b.borrow_index = num(bi);
    });
    // balances
    let dep = src.log_range(1, 1 << 50) as f64;
    if !src.chance(6) {
        w.grant(1, t, 0, dep * 0.7);
        w.grant(2, t, 1, dep * 0.3);
    }
    let util = src.pick(&[0.0, c.u0, c.u1, 1.0, 1.2]) * if src.chance(40) { 1.0 } else { src.f(0.2, 1.0) };
    let split = src.f(0.0, 1.0);
    if util > 0.0 {
        w.grant(3, t, 0, -dep * util * split);
        w.grant(4, t, 1, -dep * util * (1.0 - split));
    }
    // (reserved or unrelated state of the second bank must not matter)
    w.edit_bank(w.bank_key(t, 1), |b| { b.dust = num(0.3); b.collected_fees_native = num(17.5); });
    if src.chance(30) {
        let now = w.now();
        let (start, len) = ((now as i64 + src.range(-100_000, 100_000)).max(1) as u64, src.urange(1, 100_000));
        let (ta, tl) = (src.f(0.0, 1.0), src.f(1.0, 2.0));
        w.edit_token(t, |b| {
            b.maint_weight_shift_start = start;
            b.maint_weight_shift_end = start + len;
            b.maint_weight_shift_duration_inv = I80F48::ONE / I80F48::from(len);
            b.maint_weight_shift_asset_target = num(ta);
            b.maint_weight_shift_liab_target = num(tl);
        });
    }
    let steps = 1 + src.below(6);
    for _ in 0..steps {
        let dt = match src.below(6) { 0 => 0, 1 => src.below(12), 2 => src.urange(3590, 3610), 3 => 3600, 4 => src.log(40 * 86400), _ => src.below(3600) };
        w.advance(dt);
        let px = w.price(t) * src.pick(&[1.0, 1.01, 0.9, 2.0]);
        w.set_price(t, px, None);
        if src.chance(15) {
            let x = src.range(-1000, 1000) as f64;
            w.grant(1, t, 0, x.max(0.0));
        }
        let s0 = w.snap();
        let resilient = src.bool();
        let ok = if resilient { w.ok(TokenUpdateIndexAndRateResilientInstruction { mint_info: w.tokens[t].mint_info }) } else { w.ok(TokenUpdateIndexAndRateInstruction { mint_info: w.tokens[t].mint_info }) };
        ensure!(ok, "update refused: {}", w.fail_text());
        let s1 = w.snap();
        let (a, b) = (s0.b(t, 0), s1.b(t, 0));
        let now = s1.now;
        let elapsed = now - a.index_last_updated;
        let dt = elapsed.min(3600) as f64;
        let id = f(s0.b(t, 0).indexed_deposits) + f(s0.b(t, 1).indexed_deposits);
        let ib = f(s0.b(t, 0).indexed_borrows) + f(s0.b(t, 1).indexed_borrows);
        let (nd, nb) = (id * f(a.deposit_index), ib * f(a.borrow_index));
        let u = if nd <= 0.0 { 0.0 } else { (nb / nd).clamp(0.0, 1.0) };
        let r = get(a).rate(u);
        let want_d = f(a.deposit_index) * r * u * dt / YEAR;
        let want_b = f(a.borrow_index) * (r + f(a.loan_fee_rate)) * dt / YEAR;
        let (gd, gb) = (f(b.deposit_index - a.deposit_index), f(b.borrow_index - a.borrow_index));
        case.note(|| format!("after {elapsed}s utilization {u} rate {r}: deposit index +{gd} (expected {want_d}), borrow index +{gb} (expected {want_b}), avg utilization {} scaling {}", b.avg_utilization, b.interest_curve_scaling));
        ensure!(close(gd, want_d, 1e-8, 1e-8) && close(gb, want_b, 1e-8, 1e-8), "indexes grew by {gd} / {gb}, expected {want_d} / {want_b} for utilization {u} rate {r} and {dt}s");
        ensure!(gd >= 0.0 && gb >= 0.0, "an index fell");
        // what borrowers pay is what depositors and the protocol receive
        let fee = f(b.collected_fees_native - a.collected_fees_native);
        let want_fee = nb * f(a.loan_fee_rate) * dt / YEAR;
        ensure!(close(fee, want_fee, 1e-8, 1e-6), "loan fees {fee}, expected {want_fee}");
        let (paid, earned) = (gb * ib, gd * id);
        let tol = 1e-5 + (nd + nb) * 1e-14 + paid * 1e-9;
        ensure!(earned + fee <= paid + tol, "depositors earn {earned} and fees {fee}, borrowers pay {paid}");
        if nb < nd { ensure!(earned + fee >= paid - tol, "borrowers pay {paid}, depositors earn {earned} and fees {fee}"); }
        if paid > 1.0 { case.nontrivial(); case.label("interest"); }
        if elapsed > 3600 { case.label("capped step"); }
        // averaged utilization since the last rate change
        let (before, total) = ((a.index_last_updated - a.bank_rate_last_updated) as f64, (now - a.bank_rate_last_updated) as f64);
        let avg = if total <= 0.0 { u } else { (f(a.avg_utilization) * before + u * elapsed as f64) / total };
        ensure!(close(f(b.avg_utilization), avg, 1e-9, 1e-9), "average utilization {}, expected {avg}", b.avg_utilization);
        // the rate adapts at most once an hour, towards the utilization target
        let mut want = *a;
        want.stable_price_model.update(now, s1.tok_price[t]);
        if now - a.bank_rate_last_updated > 3600 {
            case.label("rate adapted");
            case.nontrivial();
            let mut sc = a.interest_curve_scaling;
            let mut tu = a.interest_target_utilization as f64;
            let old = get(a);
            if sc == 0.0 {
                sc = f(a.max_rate) / 0.5;
                tu = old.u0;
                for (x, y) in [(a.rate0, b.rate0), (a.rate1, b.rate1), (a.max_rate, b.max_rate)] { ensure!(close(f(x) / sc, f(y), 1e-6, 1e-9), "rescaled rate {x} -> {y}"); }
                want.rate0 = b.rate0;
                want.rate1 = b.rate1;
                want.max_rate = b.max_rate;
                want.interest_target_utilization = b.interest_target_utilization;
                ensure!(close(b.interest_target_utilization as f64, tu, 1e-6, 0.0), "target utilization");
                tu = b.interest_target_utilization as f64;
            }
            let uf = if avg > tu { (avg - tu) / (1.0 - tu) } else { (avg - tu) / tu };
            let ns = (sc * (1.0 + f(a.adjustment_factor) * uf.clamp(-1.0, 1.0))).max(1.0);
            ensure!(close(b.interest_curve_scaling, ns, 1e-7, 0.0), "curve scaling {} -> {}, expected {ns} (average utilization {avg}, target {tu})", a.interest_curve_scaling, b.interest_curve_scaling);
            want.bank_rate_last_updated = now;
            want.interest_curve_scaling = b.interest_curve_scaling;
        }
        // finished weight shifts become permanent
        if a.maint_weight_shift_duration_inv > 0 && now >= a.maint_weight_shift_end {
            case.label("weight shift done");
            want.maint_asset_weight = a.maint_weight_shift_asset_target;
            want.maint_liab_weight = a.maint_weight_shift_liab_target;
            want.maint_weight_shift_duration_inv = I80F48::ZERO;
            want.maint_weight_shift_asset_target = I80F48::ZERO;
            want.maint_weight_shift_liab_target = I80F48::ZERO;
            want.maint_weight_shift_start = 0;
            want.maint_weight_shift_end = 0;
        }
        want.index_last_updated = now;
        want.deposit_index = b.deposit_index;
        want.borrow_index = b.borrow_index;
        want.avg_utilization = b.avg_utilization;
        // both banks get the same, and nothing else changes
        for n in 0..2 {
            let o = s0.b(t, n);
            let e = Bank {
                vault: o.vault, bump: o.bump, bank_num: o.bank_num,
                indexed_deposits: o.indexed_deposits, indexed_borrows: o.indexed_borrows,
                collected_fees_native: if n == 0 { b.collected_fees_native } else { o.collected_fees_native },
                dust: o.dust, potential_serum_tokens: o.potential_serum_tokens,
                net_borrows_in_window: o.net_borrows_in_window, last_net_borrows_window_start_ts: o.last_net_borrows_window_start_ts,
                ..want
            };
            let (x, y) = (bytemuck::bytes_of(&e), bytemuck::bytes_of(s1.b(t, n)));
            if x != y {
                let at = (0..x.len()).find(|i| x[*i] != y[*i]).unwrap();
                return Err(format!("bank {n} differs from the expectation at byte {at}: {:?} / {:?}", e, s1.b(t, n)));
            }
        }
        for (i, (bt, _, bb, v)) in s1.banks.iter().enumerate() {
            ensure!(*v == s0.banks[i].3, "vault changed");
            if *bt != t { ensure!(bytemuck::bytes_of(&**bb) == bytemuck::bytes_of(&**&s0.banks[i].2), "another token's bank changed"); }
        }
    }
    Ok(())
}

fn guard(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.whale_liquidity();
    for t in 0..5 { w.grant(1, t, 0, 1e9); w.grant(2, t, 1, 1e12 / w.price(t)); w.grant(2, t, 1, -3e11 / w.price(t)); }
    let t = src.idx(5);
    w.advance(src.urange(1, 10_000));
    for x in 0..5 { w.set_price(x, w.price(x), None); }
    let upd = |x: usize, r: bool| -> solana_program::instruction::Instruction {
        if r { TokenUpdateIndexAndRateResilientInstruction { mint_info: w.tokens[x].mint_info }.to_instruction(&*w.s).1 } else { TokenUpdateIndexAndRateInstruction { mint_info: w.tokens[x].mint_info }.to_instruction(&*w.s).1 }
    };
    let r = src.bool();
    let raw = w.raw_state();
    match src.below(3) {
        0 => {
            // other instructions in the transaction
            let n = 1 + src.idx(3);
            let mut ixs = vec![];
            let mut foreign = false;
            for _ in 0..n {
                match src.below(4) {
                    0 => { ixs.push(w.deposit_ix(1, src.idx(5), 0, 100).to_instruction(&*w.s).1); foreign = true; }
                    1 => { ixs.push(w.withdraw_ix(1, src.idx(5), 0, 100, false).to_instruction(&*w.s).1); foreign = true; }
                    2 => ixs.push(upd(src.idx(5), src.bool())),
                    _ => { ixs.push(solana_program::system_instruction::transfer(&w.accs[1].owner.pubkey(), &w.accs[2].owner.pubkey(), 1)); foreign = true; }
                }
            }
            let at = src.idx(ixs.len() + 1);
            ixs.insert(at, upd(t, r));
            let ok = w.s.process_transaction(&ixs, Some(&[w.accs[1].owner])).unwrap().result.is_ok();
            case.note(|| format!("{} instructions, foreign {foreign} -> {ok} {}", ixs.len(), w.fail_text()));
            ensure!(ok == !foreign, "index update {} with{} other instructions in the transaction: {}", if ok { "accepted" } else { "refused" }, if foreign { "" } else { "out" }, w.fail_text());
            case.label(if foreign { "mixed transaction" } else { "pure transaction" });
        }
        1 => {
            // the bank list must be complete and in order
            let mut ix = upd(t, r);
            let n = ix.accounts.len();
            let o = (t + 1 + src.idx(4)) % 5;
            let other = w.bank_key(o, src.idx(2));
            match src.below(5) {
                0 => { ix.accounts.pop(); }
                1 => ix.accounts.swap(n - 1, n - 2),
                2 => { let k = n - 1 - src.idx(2); ix.accounts[k].pubkey = other; }
                3 => { let m = ix.accounts[n - 1].clone(); ix.accounts.push(m); }
                _ => { ix.accounts.remove(n - 2); }
            }
            ensure!(!w.ok_raw(ix, &[]), "update with a wrong bank list accepted");
            case.label("bank list");
        }
        _ => {
            // unusable oracle: no state change at all
            let kind = src.below(3);
            match kind {
                0 => { let mut o: StubOracle = w.s.get_account(w.tokens[t].oracle); o.deviation = o.price; w.s.set_account(w.tokens[t].oracle, &o); }
                1 => { w.edit_token(t, |b| b.oracle_config.max_staleness_slots = 100); w.advance(10_000); }
                _ => {}
            }
            let mut ix = upd(t, r);
            if kind == 2 { let o = w.tokens[(t + 1) % 5].oracle; for m in ix.accounts.iter_mut() { if m.pubkey == w.tokens[t].oracle { m.pubkey = o; } } }
            let raw = w.raw_state();
            let ok = w.ok_raw(ix, &[]);
            case.note(|| format!("oracle problem {kind}, resilient {r} -> {ok} {}", w.fail_text()));
            ensure!(ok == (r && kind != 2), "oracle problem {kind}, resilient {r}: {ok} {}", w.fail_text());
            ensure!(raw == w.raw_state(), "state changed although the oracle is unusable");
            case.label("bad oracle");
            case.nontrivial();
            return Ok(());
        }
    }
    case.nontrivial();
    if w.s.last_fail.borrow().is_some() { ensure!(raw == w.raw_state(), "failed transaction changed state"); }
    Ok(())
}
