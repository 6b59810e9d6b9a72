//! C02: deposits, withdrawals and borrows: amounts, rounding, origination fees, dust, token movements.
use crate::ensure;
use crate::pbt::*;
use crate::props::gates::is_err;
use crate::pt::*;
use crate::world::*;
use bytemuck::Zeroable;
use fixed::types::I80F48;
use mango_v4::error::MangoError;
use mango_v4::state::*;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "`ledger`: random sequences of deposits, withdrawals, fee-less changes, transfers and index growth on the bank's bookkeeping with several positions; each step judged against exact amounts. `instr`: random deposit/withdraw instructions (amounts around the position and limits, reduce-only, withdraw-all, delegates, missing positions) with acceptance and all token movements predicted. Non-trivial: a position crossed zero, was dusted, borrowed, or an instruction was decided",
        assumptions: &["index values between 1e5 and 1e8 as after group creation (1e6) and long growth"],
        suites: vec![
            Suite { name: "ledger", quick: 120_000, thorough: 6_000_000, f: ledger },
            Suite { name: "instr", quick: 50_000, thorough: 2_500_000, f: instr },
        ],
    }
}

const D: I80F48 = I80F48::DELTA;

fn rate(src: &mut Src) -> I80F48 {
    num(src.pick(&[0.0, 0.0005, 0.01, 0.1]))
}
/// an amount that is interesting next to a position
fn amount(src: &mut Src, n: I80F48) -> I80F48 {
    let base = match src.below(7) {
        0 => n.abs(),
        1 => n.abs().floor(),
        2 => n.abs().ceil(),
        3 => n.abs() + num(src.f(-1.5, 1.5)),
        4 => num(src.f(0.0, 2.0)),
        5 => n.abs() * num(src.f(0.0, 2.0)),
        _ => I80F48::from(src.log(1 << 50)),
    };
    let x = if src.chance(20) { base + D * src.range(-3, 3) as i128 } else { base };
    x.max(I80F48::ZERO)
}

fn ledger(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut b = Bank::zeroed();
    b.deposit_index = num(src.flog(1e5, 1e8));
    b.borrow_index = num(src.flog(1e5, 1e8));
    b.loan_origination_fee_rate = rate(src);
    b.net_borrow_limit_window_size_ts = src.pick(&[60u64, 3600, 86400]);
    b.net_borrow_limit_per_window_quote = -1;
    b.min_vault_to_deposits_ratio = 0.2;
    let mut now = 1_600_000_000 + src.below(100_000);
    let mut ps: Vec<TokenPosition> = (0..3).map(|_| TokenPosition { token_index: 0, in_use_count: if src.chance(30) { 1 } else { 0 }, ..TokenPosition::default() }).collect();
    // expected interest of each position
    let mut intr = vec![(0.0f64, 0.0f64); 3];
    let mut last = vec![(b.deposit_index, b.borrow_index); 3];
    let (mut win_start, mut win) = (0u64, 0i128);
    let steps = 1 + src.below(14);
    for _ in 0..steps {
        if src.chance(20) {
            let (gd, gb) = (num(src.f(1.0, 1.01)), num(src.f(1.0, 1.02)));
            b.deposit_index *= gd;
            b.borrow_index *= gb;
            now += src.log(200_000);
        }
        let i = src.idx(3);
        let j = (i + 1 + src.idx(2)) % 3;
        let (b0, p0, q0) = (b, ps[i], ps[j]);
        let n0 = native(p0.indexed_position, &b0);
        let m0 = native(q0.indexed_position, &b0);
        let x = amount(src, n0);
        let op = src.below(9);
        // (position, signed change, with fee, dusting allowed)
        let mut exp: Vec<(usize, I80F48, bool, bool)> = vec![];
        let in_use = |k: usize| ps[k].in_use_count > 0;
        let free = !in_use(i);
        let dusting;
        let (bank, pos) = (&mut b, &mut ps);
        // returned "still active" flags, fee, loan
        let (mut flags, mut fee, mut loan): (Vec<(usize, bool)>, Option<I80F48>, Option<I80F48>) = (vec![], None, None);
        let name;
        match op {
            0 => { name = "deposit"; dusting = free; flags.push((i, bank.deposit(&mut pos[i], x, now).map_err(|e| e.to_string())?)); exp.push((i, x, false, dusting)); }
            1 => { name = "deposit_with_dusting"; let r = bank.deposit_with_dusting(&mut pos[i], x, now).map_err(|e| e.to_string())?; flags.push((i, r)); exp.push((i, x, false, true)); }
            2 | 3 => { name = "withdraw_with_fee"; let r = bank.withdraw_with_fee(&mut pos[i], x, now).map_err(|e| e.to_string())?; flags.push((i, r.position_is_active)); fee = Some(r.loan_origination_fee); loan = Some(r.loan_amount); exp.push((i, -x, true, free)); }
            4 => { name = "withdraw_without_fee"; flags.push((i, bank.withdraw_without_fee(&mut pos[i], x, now).map_err(|e| e.to_string())?)); exp.push((i, -x, false, free)); }
            5 => { name = "withdraw_without_fee_with_dusting"; flags.push((i, bank.withdraw_without_fee_with_dusting(&mut pos[i], x, now).map_err(|e| e.to_string())?)); exp.push((i, -x, false, true)); }
            6 => {
                let s = src.bool();
                let y = if s { x } else { -x };
                if src.bool() { name = "change_without_fee"; flags.push((i, bank.change_without_fee(&mut pos[i], y, now).map_err(|e| e.to_string())?)); exp.push((i, y, false, free)); }
                else { name = "change_with_fee"; let r = bank.change_with_fee(&mut pos[i], y, now).map_err(|e| e.to_string())?; flags.push((i, r.position_is_active)); fee = Some(r.loan_origination_fee); loan = Some(r.loan_amount); exp.push((i, y, true, free)); }
            }
            7 => {
                name = "transfer";
                let y = if src.chance(70) { x } else { amount(src, m0) };
                let (a, c) = if i < j { let (l, r) = pos.split_at_mut(j); (&mut l[i], &mut r[0]) } else { let (l, r) = pos.split_at_mut(i); (&mut r[0], &mut l[j]) };
                let r = bank.checked_transfer_with_fee(a, x, c, y, now, num(1)).map_err(|e| e.to_string())?;
                flags.push((i, r.source_is_active));
                flags.push((j, r.target_is_active));
                fee = Some(r.loan_origination_fee);
                loan = Some(r.loan_amount);
                if x != 0 { exp.push((i, -x, true, free)); } 
                if y != 0 { exp.push((j, y, false, q0.in_use_count == 0)); }
            }
            _ => {
                // origination fee on an amount borrowed earlier (spot orders)
                name = "withdraw_loan_origination_fee";
                let r = bank.withdraw_loan_origination_fee(&mut pos[i], x, now).map_err(|e| e.to_string())?;
                let want = f(x) * f(b0.loan_origination_fee_rate);
                ensure!(close(f(r.loan_origination_fee), want, 1e-9, 1e-9), "fee {} for {x}", r.loan_origination_fee);
                ensure!(bank.collected_fees_native - b0.collected_fees_native == r.loan_origination_fee, "collected fees");
                flags.push((i, r.position_is_active));
                exp.push((i, -r.loan_origination_fee, false, free));
                bank.collected_fees_native = b0.collected_fees_native;
            }
        }
        case.label(name);
        let trace = || format!("{name} position {n0} amount {x} (indexes {} {}, fee rate {}) -> {}", b0.deposit_index, b0.borrow_index, b0.loan_origination_fee_rate, native(ps[i].indexed_position, &b));
        case.note(trace);
        let (mut dust, mut fees) = (I80F48::ZERO, I80F48::ZERO);
        for (e, (k, ch, with_fee, dusting)) in exp.iter().enumerate() {
            let (k, ch) = (*k, *ch);
            // zero amounts keep the direction of the call
            let dep = if ch == 0 { name.starts_with("deposit") || name.starts_with("change") || e == 1 } else { ch > 0 };
            let before = if k == i { n0 } else { m0 };
            let old = if k == i { &p0 } else { &q0 };
            let after = native(ps[k].indexed_position, &b);
            let idx = b.deposit_index.max(b.borrow_index);
            let eps = (idx * D) * 4 + D * 8;
            let mut t = before + ch;
            let borrowed = if ch < 0 && t < 0 { if before > 0 { -t } else { -ch } } else { I80F48::ZERO };
            let mut due = I80F48::ZERO;
            if *with_fee && borrowed > 0 {
                due = b0.loan_origination_fee_rate * borrowed;
                t -= due;
            }
            fees += due;
            if let Some(l) = loan { if *with_fee { let want = borrowed + due; ensure!((l - want).abs() <= eps, "{name}: loan {l}, expected {want}"); } }
            if *with_fee { ensure!((fee.unwrap() - due).abs() <= eps, "{name}: fee {fee:?}, expected {due}"); }
            // deposits are rounded in the user's favour, so that the same amount can be withdrawn
            if t < 1 && t >= -eps && *dusting && ps[k].indexed_position == 0 && (!dep || before < 0) {
                ensure!(before != 0 || ch != 0 || t == 0, "dusted nothing");
                dust += t;
                if t > eps { case.label("dusted"); }
                case.nontrivial();
            } else {
                ensure!((after - t).abs() <= eps, "{name}: position {before} changed by {ch} (fee {due}) became {after}, expected {t}");
                if ch > 0 { ensure!(after >= t - D * 2, "{name}: deposit of {ch} on {before} credited only {}", after - before); }
                if !dep && t > eps && *dusting { ensure!(after + eps >= 1, "{name}: position of {after} was not dusted"); }
                if before < 0 && ch > 0 && t > eps && *dusting { ensure!(after + eps >= 1, "{name}: position of {after} was not dusted"); }
            }
            if (before < 0) != (after < 0) { case.nontrivial(); case.label("crossed zero"); }
            if due > 0 { case.nontrivial(); case.label("fee"); }
            // interest bookkeeping
            let o = f(old.indexed_position);
            if o > 0.0 { intr[k].0 += o * (f(b.deposit_index) - f(last[k].0)); } else { intr[k].1 -= o * (f(b.borrow_index) - f(last[k].1)); }
            last[k] = (b.deposit_index, b.borrow_index);
            let tol = 1e-6 + 1e-9 * (intr[k].0 + intr[k].1).abs() + 1e-10 * f(before).abs();
            ensure!((ps[k].cumulative_deposit_interest - intr[k].0).abs() <= tol && (ps[k].cumulative_borrow_interest - intr[k].1).abs() <= tol,
                "cumulative interest {} / {}, expected {:?}", ps[k].cumulative_deposit_interest, ps[k].cumulative_borrow_interest, intr[k]);
            // window of net borrows
            let repaid = if before < 0 && dep { before.max(-ch) } else { I80F48::ZERO };
            let delta = if before < 0 && dep { Some(repaid) } else if !dep && before + ch < 0 { Some(borrowed + due) } else { None };
            if let Some(d) = delta {
                let w = d.ceil().to_num::<i128>();
                if now >= win_start + b.net_borrow_limit_window_size_ts {
                    win_start = now / b.net_borrow_limit_window_size_ts * b.net_borrow_limit_window_size_ts;
                    win = w;
                } else { win += w; }
            }
        }
        for (k, active) in &flags {
            if !exp.iter().any(|e| e.0 == *k) { ensure!(*active, "untouched position reported as closed"); continue }
            ensure!(*active || (ps[*k].indexed_position == 0 && ps[*k].in_use_count == 0), "position {} with {} users reported as closed", ps[*k].indexed_position, ps[*k].in_use_count);
        }
        ensure!((win - b.net_borrows_in_window as i128).abs() <= 2 * exp.len() as i128 && (win_start == b.last_net_borrows_window_start_ts), "net borrows {} since {}, expected {win} since {win_start}", b.net_borrows_in_window, b.last_net_borrows_window_start_ts);
        win = b.net_borrows_in_window as i128;
        let idx = b.deposit_index.max(b.borrow_index);
        let eps = (idx * D) * 4 + D * 8;
        ensure!((b.dust - b0.dust - dust).abs() <= eps, "{name}: dust grew by {}, expected {dust}", b.dust - b0.dust);
        ensure!((b.collected_fees_native - b0.collected_fees_native - fees).abs() <= eps, "{name}: fees grew by {}, expected {fees}", b.collected_fees_native - b0.collected_fees_native);
        // totals are exactly the sum of the positions
        let (mut dep, mut bor) = (I80F48::ZERO, I80F48::ZERO);
        for p in &ps { if p.indexed_position > 0 { dep += p.indexed_position } else { bor -= p.indexed_position } }
        ensure!(dep == b.indexed_deposits && bor == b.indexed_borrows, "{name}: bank totals {} / {}, positions {dep} / {bor}", b.indexed_deposits, b.indexed_borrows);
        for k in 0..3 { if !exp.iter().any(|e| e.0 == k) { ensure!(ps[k].indexed_position == (if k == i { p0 } else if k == j { q0 } else { ps[k] }).indexed_position, "{name}: other position changed"); } }
    }
    Ok(())
}

fn instr(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.random_bank_config(src);
    w.whale_liquidity();
    let a = 1;
    // rich in a token that is not used below
    w.grant(a, 0, 0, 1e16);
    let t = 1 + src.idx(4);
    let n = src.idx(2);
    let bk = w.bank_key(t, n);
    let exists = src.chance(85);
    if exists {
        let v = src.log_range(1, 1 << 40) as f64;
        match src.below(3) { 0 => w.grant(a, t, n, v + src.pick(&[0.0, 0.5, 0.25])), 1 => w.grant(a, t, n, -v - src.pick(&[0.0, 0.5])), _ => w.edit_acc(a, |x| { x.ensure_token_position(t as u16).unwrap(); }) }
    }
    let in_use = exists && src.chance(20);
    if in_use { w.edit_acc(a, |x| x.token_position_mut(t as u16).unwrap().0.in_use_count = 1); }
    let ro = if src.chance(30) { src.pick(&[1u8, 2]) } else { 0 };
    w.edit_token(t, |b| b.reduce_only = ro);
    let user = w.accs[a].user;
    w.set_vault(w.user_token(user, t), src.log(1 << 42));
    let s0 = w.snap();
    let n0 = s0.posx(a, t);
    let wallet = s0.wallets[user][t];
    let px = s0.tok_price[t];
    let deposit = src.bool();
    let near = |src: &mut Src| -> u64 {
        match src.below(6) {
            0 => n0.abs().floor().to_num::<u64>(),
            1 => n0.abs().ceil().to_num::<u64>(),
            2 => (n0.abs().floor().to_num::<i64>() + src.range(-2, 2)).max(0) as u64,
            3 => src.below(4),
            _ => src.log(1 << 40),
        }
    };
    // (accepted, tokens moved into the vault, fee expected, nothing-happens)
    let (ok, err, moved, what): (bool, String, i128, String);
    let want: Result<i128, &str>;
    let mut noop = false;
    if deposit {
        let x = if src.chance(4) { wallet + src.below(2) } else { near(src) };
        let reduce = src.chance(40);
        let into = src.chance(35);
        let take = if reduce || ro == 1 { (-n0).max(I80F48::ZERO).ceil().to_num::<u64>().min(x) } else { x };
        want = if x == 0 { Err("zero") } else if into && !exists { Err("no position") }
            else if ro == 1 && !reduce && take != x { Err("reduce only") } else if take > wallet { Err("wallet") } else { Ok(take as i128) };
        let r = if into {
            let ix = TokenDepositIntoExistingInstruction { amount: x, reduce_only: reduce, account: w.accs[a].key, token_account: w.user_token(user, t), token_authority: w.accs[a].owner, bank_index: n };
            w.ok(ix)
        } else {
            let mut ix = w.deposit_ix(a, t, n, x);
            ix.reduce_only = reduce;
            w.ok(ix)
        };
        what = format!("deposit{} {x} reduce_only {reduce}", if into { " into existing" } else { "" });
        ok = r;
        if let Ok(v) = &want { if *v == 0 { case.label("no-op deposit"); } }
    } else {
        let all = src.chance(25);
        let x = if all { u64::MAX } else { near(src) };
        let borrow = src.chance(60);
        let delegate = src.chance(20);
        if delegate { let d = w.users[2].key.pubkey(); w.edit_acc(a, |m| m.fixed.delegate = d); }
        let own_ata = src.chance(70);
        let amt: Option<u64> = if all && !borrow { if n0 >= 0 { Some(n0.floor().to_num::<u64>()) } else { None } } else { Some(x) };
        // (the users' token accounts are their associated token accounts)
        let other = w.user_token(2, t);
        want = if x == 0 { Err("zero") } else {
            match amt {
                None => { noop = true; Ok(0) }
                Some(v) => {
                    let is_borrow = I80F48::from(v) > n0;
                    let left = if v > 1 << 60 { num(-1) } else { n0 - I80F48::from(v) };
                    if all && borrow { Err("absurd amount") }
                    else if is_borrow && (!borrow || ro != 0) { Err("would borrow") }
                    else if v > s0.v(t, n) { Err("vault") }
                    else if delegate && !own_ata { Err("delegate target") }
                    else if delegate && (in_use || !(left >= 0 && left < 1)) { Err("delegate must close") }
                    else { Ok(-(v as i128)) }
                }
            }
        };
        let mut ix = w.withdraw_ix(a, t, n, x, borrow);
        if delegate { ix.owner = w.users[2].key; if !own_ata { ix.token_account = other; } }
        ok = w.ok(ix);
        what = format!("withdraw {x} borrow {borrow}{}", if delegate { " by the delegate" } else { "" });
        if delegate { case.label("delegate"); }
    }
    err = w.fail_text();
    moved = match &want { Ok(v) => *v, Err(_) => 0 };
    case.note(|| format!("{what} with position {n0} exists {exists} in use {in_use} reduce-only {ro} wallet {wallet} vault {} -> {} (expected {want:?})", s0.v(t, n), if ok { "ok".into() } else { err.clone() }));
    let s1 = w.snap();
    match (&want, ok) {
        (Err(e), true) => return Err(format!("{what} accepted although: {e}")),
        (Err(e), false) => {
            case.label("refused"); case.nontrivial(); let _ = e;
            ensure!(s0.accs[a].dynamic == s1.accs[a].dynamic, "failed instruction changed the account");
            if *e == "reduce only" { ensure!(is_err(&err, MangoError::TokenInReduceOnlyMode), "refused with {err}"); }
            return Ok(());
        }
        (Ok(_), false) => {
            // amounts so large that the origination fee etc. leave the supported range, or that exceed health and liquidity, are not generated
            return Err(format!("{what} refused: {err}"));
        }
        _ => {}
    }
    case.nontrivial();
    // token movements: exactly the amount, between the user's token account and this vault
    let vd = s1.v(t, n) as i128 - s0.v(t, n) as i128;
    ensure!(vd == moved, "{what}: vault changed by {vd}, expected {moved}");
    let wd: i128 = (0..w.users.len()).map(|u| s1.wallets[u][t] as i128 - s0.wallets[u][t] as i128).sum();
    ensure!(s1.wallets[user][t] as i128 - wallet as i128 == -moved && wd == -moved, "{what}: wallets changed by {wd}, vault by {vd}");
    for (i, (bt, bn, _, v)) in s1.banks.iter().enumerate() {
        if (*bt, *bn) != (t, n) {
            ensure!(*v == s0.banks[i].3, "another vault changed");
            ensure!(bytemuck::bytes_of(&**&s1.banks[i].2) == bytemuck::bytes_of(&**&s0.banks[i].2), "another bank changed");
        }
    }
    for u in 0..w.users.len() { for x in 0..5 { if x != t { ensure!(s0.wallets[u][x] == s1.wallets[u][x], "other wallet changed"); } } }
    for x in 0..s0.accs.len() { if x != a { ensure!(s0.accs[x].dynamic == s1.accs[x].dynamic, "another account changed"); } }
    // the position
    let b = w.bank(bk);
    let eps = (b.deposit_index.max(b.borrow_index) * D) * 4 + D * 8;
    let ch = I80F48::from_num(moved);
    let mut tgt = n0 + ch;
    let borrowed = if ch < 0 && tgt < 0 { if n0 > 0 { -tgt } else { -ch } } else { I80F48::ZERO };
    let fee = borrowed * b.loan_origination_fee_rate;
    tgt -= fee;
    let df = b.collected_fees_native - s0.b(t, n).collected_fees_native;
    ensure!((df - fee).abs() <= eps, "{what}: fees grew by {df}, expected {fee}");
    if fee > 0 { case.label("loan fee"); }
    let n1 = s1.posx(a, t);
    let active = s1.accs[a].token_position(t as u16).is_ok();
    let closes = !in_use && tgt >= 0 && tgt < 1 && !noop && (!deposit || n0 < 0);
    if (tgt - num(1)).abs() > eps && tgt.abs() > eps && !noop {
        if closes { ensure!(n1 == 0, "{what}: {tgt} not dusted"); case.label("closed"); } else { ensure!((n1 - tgt).abs() <= eps, "{what}: position {n0} became {n1}, expected {tgt}"); }
        if deposit && what.contains("existing") { ensure!(active, "deposit into existing closed the position"); }
        else { ensure!(active == !(closes), "{what}: position {n1} in use {in_use} is {}", if active { "open" } else { "closed" }); }
        let dd = b.dust - s0.b(t, n).dust;
        let want = if closes { tgt } else { I80F48::ZERO };
        ensure!((dd - want).abs() <= eps, "{what}: dust grew by {dd}, expected {want}");
    }
    if active && in_use { ensure!(s1.accs[a].token_position(t as u16).unwrap().in_use_count == 1, "in-use count changed"); }
    // lifetime net deposits in usd
    let nd = s1.accs[a].fixed.net_deposits - s0.accs[a].fixed.net_deposits;
    let usd = moved as f64 * px;
    ensure!((nd as f64 - usd).abs() <= 1.0 + usd.abs() * 1e-9, "net deposits changed by {nd}, expected {usd}");
    Ok(())
}
