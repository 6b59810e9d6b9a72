//! C04: borrow and deposit limits: net borrows per window, vault reserve, deposit caps, reduce-only.
use crate::ensure;
use crate::machine::{flash_swap, Machine, K};
use crate::pbt::*;
use crate::props::gates::is_err;
use crate::pt::*;
use crate::world::*;
use mango_v4::error::MangoError;
use mango_v4::state::*;
use K::*;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "`exact`: one withdrawal, deposit or flash loan next to random limits; acceptance predicted exactly. `group`: deposits next to the group-wide account deposit limit. `history`: random histories under limits; borrow increases caused by users are summed per window independently and compared with every limit after each accepted instruction. Non-trivial: a limit decided, or a limited borrow/deposit happened",
        assumptions: &["decisions within two native units (or 1e-9 relative) of a limit are not judged"],
        suites: vec![
            Suite { name: "exact", quick: 60_000, thorough: 3_000_000, f: exact },
            Suite { name: "group", quick: 20_000, thorough: 800_000, f: group },
            Suite { name: "history", quick: 5_000, thorough: 250_000, f: history },
        ],
    }
}

fn exact(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.random_bank_config(src);
    let a = 1;
    w.grant(0, 0, 0, 1e16);
    w.grant(0, 0, 1, 1e16);
    w.grant(a, 0, 0, 1e16);
    let t = 1 + src.idx(4);
    let n = src.idx(2);
    let d = src.log_range(10, 1 << 40) as f64;
    w.grant(0, t, n, d);
    // the other bank of the token has limits and room of its own, which must not matter
    if src.chance(70) { w.grant(0, t, 1 - n, d * src.pick(&[0.1, 1.0, 50.0])); }
    let u = src.f(0.0, 1.0);
    if src.chance(70) { w.grant(2, t, n, -(d * u).floor()); }
    if src.chance(20) { w.grant(2, t, 1 - n, -(d * u * 0.5).floor()); }
    let p = w.price(t) * src.pick(&[1.0, 0.5, 3.0]);
    let sp = p * src.pick(&[1.0, 0.6, 1.7]);
    w.set_price(t, p, Some(sp));
    let pos = src.log_range(1, (d as u64).max(2)) as f64;
    match src.below(4) { 0 => w.grant(a, t, n, pos), 1 => w.grant(a, t, n, -pos.min((d * (1.0 - u) * 0.5).floor())), _ => {} }
    let win = src.pick(&[3600u64, 86_400]);
    let now = w.now();
    let bk = w.bank_key(t, n);
    let ratio = src.pick(&[0.0, 0.0, 0.1, 0.5, 1.0]);
    let limit = if src.chance(35) { -1 } else { (d * p * src.f(0.0, 0.6)) as i64 };
    let pre = if src.chance(40) { 0 } else { (d * src.f(-0.3, 0.6)) as i64 };
    let start = if src.bool() { now / win * win } else { now - src.urange(0, 3 * win) };
    let native0 = f(w.bank(bk).native_deposits());
    let dl = if src.chance(50) { 0 } else { (native0 * src.f(0.8, 1.5)) as u64 };
    let serum = if src.chance(60) { 0 } else { (d * src.f(0.0, 0.3)) as u64 };
    let ro = if src.chance(15) { src.pick(&[1u8, 2]) } else { 0 };
    w.edit_bank(bk, |b| {
        b.min_vault_to_deposits_ratio = ratio;
        b.net_borrow_limit_window_size_ts = win;
        b.net_borrow_limit_per_window_quote = limit;
        b.net_borrows_in_window = pre;
        b.last_net_borrows_window_start_ts = start;
        b.deposit_limit = dl;
        b.potential_serum_tokens = serum;
    });
    w.edit_token(t, |b| b.reduce_only = ro);
    // somebody else's loan elsewhere may have drained the vault
    if src.chance(10) { let v = w.vault(t, n); w.set_vault(w.bank(bk).vault, (v as f64 * src.f(0.0, 1.0)) as u64); }
    w.set_vault(w.user_token(w.accs[a].user, t), 1 << 45);
    let bad_oracle = src.chance(8);
    if bad_oracle { let mut o: StubOracle = w.s.get_account(w.tokens[t].oracle); o.deviation = o.price; w.s.set_account(w.tokens[t].oracle, &o); }
    let s0 = w.snap();
    let b = *s0.b(t, n);
    let n0 = f(s0.posx(a, t));
    let room = match src.below(4) {
        0 => (limit as f64 / p.max(sp) - pre.max(0) as f64).max(0.0),
        1 => (f(b.native_deposits()) * (1.0 - ratio) - f(b.native_borrows())).max(0.0),
        2 => (dl as f64 - f(b.native_deposits()) - serum as f64).max(0.0),
        _ => d * src.f(0.0, 1.5),
    };
    let op = src.below(3);
    let x = (room + if op != 1 { n0.max(0.0) } else { (-n0).max(0.0) } + if src.chance(60) { 0.0 } else { room * src.f(-0.2, 0.2) }).max(1.0) as u64;
    let (ok, change, loan): (bool, f64, f64) = match op {
        0 => (w.ok(w.withdraw_ix(a, t, n, x, true)), -(x as f64), 0.0),
        1 => (w.ok(w.deposit_ix(a, t, n, x)), x as f64, 0.0),
        _ => {
            let other = 0;
            if src.bool() {
                // borrow x, return part
                let spend = (x as f64 * src.pick(&[1.0, 0.7])) as u64;
                let ixs = flash_swap(&w, a, t, other, n, x, spend, 0);
                (w.s.process_transaction(&ixs, Some(&[w.accs[a].owner, w.users[2].key])).unwrap().result.is_ok(), -(spend as f64), x as f64)
            } else {
                let ixs = flash_swap(&w, a, other, t, n, 1, 1, x);
                (w.s.process_transaction(&ixs, Some(&[w.accs[a].owner, w.users[2].key])).unwrap().result.is_ok(), x as f64, 0.0)
            }
        }
    };
    let err = w.fail_text();
    let s1 = w.snap();
    // prediction
    let rate = f(b.loan_origination_fee_rate);
    let eps = 2.0 + 1e-9 * (f(b.native_deposits()) + x as f64);
    let mut why: Vec<(&str, f64)> = vec![]; // (reason, margin: negative = violated)
    let (fee, net) = if op == 2 {
        let lf = (loan - n0.max(0.0)).max(0.0) * rate;
        // swap fee: largest rate of the tokens involved
        let sf = if change < 0.0 { -change * b.flash_loan_swap_fee_rate.max(s0.b(0, 0).flash_loan_swap_fee_rate) as f64 } else { 0.0 };
        (0.0, change - lf - sf)
    } else {
        let borrow = if change < 0.0 { (-(n0 + change)).max(0.0).min(-change) } else { 0.0 };
        (borrow * rate, change)
    };
    let after = n0 + net - fee;
    let borrowed = if net < 0.0 { (-after).max(0.0) - (-n0).max(0.0) } else { 0.0 };
    let deposits = f(b.native_deposits()) + after.max(0.0) - n0.max(0.0);
    let borrows = f(b.native_borrows()) + (-after).max(0.0) - (-n0).max(0.0);
    let fresh = now >= start + win;
    if loan > 0.0 || op == 0 { why.push(("vault", s0.v(t, n) as f64 - x as f64)); }
    let is_borrow = if op == 0 { x as f64 > n0 } else { net < 0.0 && n0 + net < 0.0 };
    if op == 0 || (op == 2) {
        if is_borrow {
            why.push(("utilization", deposits * (1.0 - ratio) - borrows));
            let wn = borrowed.ceil() + if fresh { 0.0 } else { pre as f64 };
            if limit >= 0 && wn > -1.0 { why.push(("net borrows", if wn < 0.0 { 0.0 } else { limit as f64 - p.max(sp) * wn })); }
            if ro != 0 { why.push(("reduce only", -1e18)); }
            if bad_oracle { why.push(("oracle", -1e18)); }
        } else { why.push(("solvency", deposits - borrows)); }
    }
    if op == 2 && bad_oracle { why.push(("oracle", -1e18)); }
    if op == 2 && net > 0.0 && n0 + net >= 1.0 && ro == 1 { why.push(("reduce only", -1e18)); }
    if op == 1 && ro == 1 && change > (-n0).max(0.0).ceil() { why.push(("reduce only", -1e18)); }
    // a remaining borrow must be valued and new positions need a usable price
    if op == 1 && bad_oracle && (n0 + change < 0.0 || s0.accs[a].token_position(t as u16).is_err()) { why.push(("oracle", -1e18)); }
    if net > 0.0 && after > 0.0 && dl > 0 { why.push(("deposit limit", dl as f64 - deposits - serum as f64)); }
    if n0 != 0.0 { why.push(("position", if (n0 + net).abs() < eps { 0.0 } else { 1e18 })); }
    let pr = p.max(sp).max(1.0);
    let bad: Vec<_> = why.iter().filter(|x| x.1 < -eps * if x.0 == "net borrows" { pr } else { 1.0 }).collect();
    let unsure = why.iter().any(|x| x.1.abs() <= eps * if x.0 == "net borrows" { pr } else { 1.0 });
    case.note(|| format!("{} {x} (net {net}) of token {t} on position {n0}; bank deposits {} borrows {} vault {}, reserve {ratio}, net borrow limit {limit} at price {} used {pre} (new window {fresh}), deposit limit {dl} serum {serum} reduce-only {ro} bad oracle {bad_oracle}: margins {why:?} -> {}",
        ["withdraw", "deposit", "flash"][op as usize], b.native_deposits(), b.native_borrows(), s0.v(t, n), p.max(sp), if ok { "ok" } else { &err }));
    if unsure { case.label("too close"); return Ok(()) }
    if ok {
        ensure!(bad.is_empty(), "accepted against: {bad:?}");
        if borrowed > 0.0 {
            let a1 = s1.b(t, n);
            let want = borrowed.ceil() + if fresh { 0.0 } else { pre as f64 };
            ensure!((a1.net_borrows_in_window as f64 - want).abs() <= 1.0 + 1e-9 * want.abs(), "window counts {} net borrows, expected {want}", a1.net_borrows_in_window);
            if fresh { ensure!(a1.last_net_borrows_window_start_ts == now / win * win, "window starts at {}", a1.last_net_borrows_window_start_ts); }
            case.label("borrowed");
            case.nontrivial();
        }
    } else {
        ensure!(!bad.is_empty(), "refused within all limits: {err}");
        case.nontrivial();
        case.label(bad[0].0);
        // the first check to fail depends on the order of checks; the error must belong to one of the violated limits
        let ok_err = bad.iter().any(|x| match x.0 {
            "vault" => is_err(&err, MangoError::InsufficentBankVaultFunds) || is_err(&err, MangoError::BankBorrowLimitReached),
            "utilization" | "solvency" => is_err(&err, MangoError::BankBorrowLimitReached),
            "net borrows" => is_err(&err, MangoError::BankNetBorrowsLimitReached),
            "reduce only" => is_err(&err, MangoError::TokenInReduceOnlyMode),
            "deposit limit" => is_err(&err, MangoError::BankDepositLimit),
            _ => true,
        });
        ensure!(ok_err, "refused with {err}, violated limits: {bad:?}");
    }
    Ok(())
}

fn group(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.random_bank_config(src);
    w.whale_liquidity();
    for t in 0..5 {
        let p = w.price(t) * src.pick(&[1.0, 0.7, 2.7]);
        w.set_price(t, p, Some(p * src.pick(&[1.0, 0.8, 1.3])));
        match src.below(4) { 0 | 1 => w.grant(1, t, 0, (src.log_range(1, 1 << 34) as f64 / w.price(t)).ceil()), 2 => w.grant(1, t, 0, -(src.log_range(1, 1 << 20) as f64 / w.price(t)).ceil()), _ => {} }
    }
    let t = src.idx(5);
    let x = src.log_range(1, 1 << 40) as f64;
    let x = (x / w.price(t)).ceil() as u64;
    let s0 = w.snap();
    let value = |s: &Snap| -> f64 {
        (0..5).map(|t| s.pos(1, t).max(0.0) * s.tok_price[t].min(s.b(t, 0).stable_price_model.stable_price) * f(s.b(t, 0).init_asset_weight)).sum()
    };
    // the account value after the deposit
    let fork = w.fork();
    ensure!(fork.ok(fork.deposit_ix(1, t, 0, x)), "deposit refused without a limit: {}", fork.fail_text());
    let v = value(&fork.snap());
    let lim = match src.below(4) { 0 => v as u64, 1 => (v * src.f(0.5, 1.5)) as u64, 2 => (v as i64 + src.range(-3, 3)).max(0) as u64, _ => value(&s0) as u64 };
    w.edit_group(|g| g.deposit_limit_quote = lim);
    // incomplete or unusable health accounts must not help
    let hide = src.below(4);
    let held: Vec<usize> = (0..5).filter(|q| s0.accs[1].token_position(*q as u16).is_ok()).collect();
    let ix = w.deposit_ix(1, t, 0, x);
    let (_, mut raw) = ix.to_instruction(&*w.s);
    let mut hidden = false;
    if hide == 0 && !held.is_empty() {
        let q = src.pick(&held);
        if q != t || src.bool() {
            let mut o: StubOracle = w.s.get_account(w.tokens[q].oracle);
            o.deviation = o.price;
            w.s.set_account(w.tokens[q].oracle, &o);
            hidden = true;
        }
    } else if hide == 1 && !held.is_empty() {
        let q = src.pick(&held);
        let first = 8; // fixed accounts of the instruction
        if let Some(k) = (first..raw.accounts.len()).find(|k| raw.accounts[*k].pubkey == w.bank_key(q, 0)) { raw.accounts.remove(k); }
        let o = w.tokens[q].oracle;
        if let Some(k) = (first..raw.accounts.len()).find(|k| raw.accounts[*k].pubkey == o) { raw.accounts.remove(k); hidden = true; }
    }
    let ok = w.ok_raw(raw, &[w.accs[1].owner]);
    let err = w.fail_text();
    case.note(|| format!("deposit {x} of {t}: account worth {v} afterwards, limit {lim}, hidden {hidden} -> {}", if ok { "ok" } else { &err }));
    let tol = 1e-9 * v + 1e-6;
    if hidden && lim > 0 {
        ensure!(!ok, "deposit accepted although not all positions could be valued");
        case.label("hidden position");
        case.nontrivial();
        return Ok(());
    }
    if hidden { return Ok(()) }
    if (v.fract() < tol || v.fract() > 1.0 - tol) && (v.floor() - lim as f64).abs() <= 1.0 { return Ok(()) }
    let want = lim == 0 || v.trunc() <= lim as f64;
    ensure!(ok == want, "limit {lim}, account worth {v}: {}", if ok { "accepted" } else { &err });
    if !ok { ensure!(is_err(&err, MangoError::DepositLimit), "refused with {err}"); case.label("refused"); } else { case.label("accepted"); }
    if lim > 0 { case.nontrivial(); }
    Ok(())
}

const KINDS: [(K, u64); 18] = [
    (Time, 8), (Price, 4), (Deposit, 12), (Withdraw, 25), (UpdateIndex, 4), (FlashLoan, 20), (TcsCreate, 10), (TcsTrigger, 20), (SerumOpen, 3), (SerumPlace, 20),
    (SerumCancel, 4), (SerumSettle, 5), (SerumConsume, 3), (LiqToken, 6), (LiqTokenBankruptcy, 2), (ForceCloseBorrow, 2), (SettlePnl, 3), (CollateralFee, 2),
];

fn history(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &KINDS);
    let w = &m.w;
    for t in 0..5 {
        let px = w.price(t);
        let ratio = src.pick(&[0.0, 0.3, 0.9]);
        let lim = if src.chance(30) { -1 } else { src.log_range(1000, 1 << 32) as i64 };
        let win = src.pick(&[600u64, 3600, 86_400]);
        let ro = if src.chance(10) { 2 } else { 0 };
        for n in 0..2 {
            // limited liquidity
            let keep = src.log_range(1 << 20, 1 << 44) as f64 / px;
            let d = f(w.bank(w.bank_key(t, n)).native_deposits());
            w.grant(WHALE, t, n, -(w.pos(WHALE, t).to_num::<f64>() * 0.5 - keep).clamp(0.0, d * 0.99).floor());
            let dl = if src.bool() { 0 } else { let d = f(w.bank(w.bank_key(t, n)).native_deposits()); (d + src.log_range(1, 1 << 36) as f64 / px) as u64 };
            w.edit_bank(w.bank_key(t, n), |b| {
                b.min_vault_to_deposits_ratio = ratio;
                b.net_borrow_limit_per_window_quote = lim;
                b.net_borrow_limit_window_size_ts = win;
                b.deposit_limit = dl;
                b.reduce_only = ro;
            });
        }
    }
    // the vaults hold deposits minus borrows (grants round)
    let mut win = vec![(0u64, 0.0f64, 0.0f64); 10]; // start, net borrows, slack
    let mut b = w.snap();
    for i in 0..10 { win[i].0 = b.now / b.banks[i].2.net_borrow_limit_window_size_ts; }
    for _ in 0..3 + src.below(25) {
        let st = m.step(src, &b);
        let a = w.snap();
        case.note(|| format!("{} -> {}", st.what, if st.ok { "ok".into() } else { w.fail_text() }));
        if st.ok && st.k != Time && st.k != Price && st.k != UpdateIndex {
            for i in 0..10 {
                let (x, y) = (&b.banks[i].2, &a.banks[i].2);
                let (t, n) = (b.banks[i].0, b.banks[i].1);
                // (indexes may only fall in a bankruptcy)
                let db = f(y.indexed_borrows - x.indexed_borrows) * f(y.borrow_index);
                let dd = f(y.indexed_deposits - x.indexed_deposits) * f(x.deposit_index) ;
                let wn = a.now / x.net_borrow_limit_window_size_ts;
                let eps = 2.0 + 1e-9 * f(y.native_deposits());
                if db.abs() > 1e-6 {
                    if win[i].0 != wn { win[i] = (wn, 0.0, 0.0); }
                    win[i].1 += db;
                    win[i].2 += 3.0;
                }
                let user = matches!(st.k, Withdraw | FlashLoan | SerumPlace | TcsTrigger);
                if user && db > eps {
                    case.nontrivial();
                    case.label(st.k.name());
                    let price = a.tok_price[t].max(y.stable_price_model.stable_price);
                    if y.net_borrow_limit_per_window_quote >= 0 {
                        let q = (win[i].1 - win[i].2) * price;
                        ensure!(q <= y.net_borrow_limit_per_window_quote as f64 + 1e-9 * q.abs(), "{}: net borrows of token {t} bank {n} in this window are {} at price {price}, limit {}", st.what, win[i].1, y.net_borrow_limit_per_window_quote);
                    }
                    if st.k != TcsTrigger {
                        let (dep, bor) = (f(y.native_deposits()), f(y.native_borrows()));
                        ensure!(bor <= dep * (1.0 - y.min_vault_to_deposits_ratio) + eps, "{}: borrows {bor} of deposits {dep}, reserve {}", st.what, y.min_vault_to_deposits_ratio);
                    }
                    ensure!(y.reduce_only == 0, "{}: borrowed {db} of reduce-only token {t}", st.what);
                }
                if matches!(st.k, Deposit | FlashLoan | TcsTrigger) && dd > eps && y.deposit_limit > 0 {
                    let dep = f(y.native_deposits()) + y.potential_serum_tokens as f64;
                    ensure!(dep <= y.deposit_limit as f64 + eps, "{}: deposits {dep}, limit {}", st.what, y.deposit_limit);
                    case.label("limited deposit");
                }
                if matches!(st.k, Withdraw | FlashLoan) && dd < -eps {
                    ensure!(f(y.native_borrows()) <= f(y.native_deposits()) + eps, "{}: borrows exceed deposits", st.what);
                }
            }
        } else if !st.ok {
            let e = w.fail_text();
            for (x, l) in [(MangoError::BankNetBorrowsLimitReached, "net borrow refused"), (MangoError::BankBorrowLimitReached, "reserve refused"), (MangoError::BankDepositLimit, "deposit refused")] {
                if is_err(&e, x) { case.label(l); case.nontrivial(); }
            }
        }
        b = a;
    }
    Ok(())
}
