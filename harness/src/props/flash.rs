//! C20: flash loans: what a begin/end pair does to balances, and which transactions may contain one.
use crate::ensure;
use crate::pbt::{Case, Prop, Src, Suite};
use crate::props::access::is_type;
use crate::props::gates::is_err;
use crate::pt::*;
use crate::world::*;
use anchor_lang::InstructionData;
use fixed::types::I80F48;
use mango_v4::accounts_ix::FlashLoanType;
use mango_v4::error::MangoError;
use mango_v4::state::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "`book`: begin/end pairs with 1 to 4 loans of random banks, amounts around deposits, vaults and zero, random payments in and out between, every loan type and reduce-only mode; every balance, fee, vault and flag afterwards is predicted, and refusals must have a stated reason. `structure`: the same transactions with one of about 35 structural changes (missing, doubled, reordered, nested, mismatched or mixed instructions and accounts); each is either listed as forbidden and must fail, or listed as fine and must work, and whatever succeeds must leave vaults and positions in step with no loan open. Non-trivial: a transaction was decided",
        assumptions: &["limits on deposits, net borrows and health are covered by C04 and C06"],
        suites: vec![
            Suite { name: "book", quick: 80_000, thorough: 4_000_000, f: book },
            Suite { name: "structure", quick: 80_000, thorough: 4_000_000, f: structure },
        ],
    }
}

#[derive(Clone, Debug)]
struct Loan {
    t: usize,
    n: usize,
    acct: Pubkey,
    amount: u64,
    spend: u64,
    back: u64,
}

fn noop(_: &Pubkey, _: &'static [AccountInfo<'static>], _: &[u8]) -> ProgramResult {
    Ok(())
}
/// calls the program given as its first account with the remaining accounts and the same data
fn proxy(_: &Pubkey, ais: &'static [AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let ix = Instruction {
        program_id: *ais[0].key,
        accounts: ais[1..]
            .iter()
            .map(|a| AccountMeta { pubkey: *a.key, is_signer: a.is_signer, is_writable: a.is_writable })
            .collect(),
        data: data.to_vec(),
    };
    solana_program::program::invoke(&ix, ais)
}
fn via_proxy(w: &World, ix: &Instruction) -> Instruction {
    let id = Pubkey::new_from_array([91; 32]);
    w.s.sim.borrow_mut().add_program(id, proxy);
    let mut accounts = vec![AccountMeta::new_readonly(ix.program_id, false)];
    accounts.extend(ix.accounts.iter().cloned());
    Instruction { program_id: id, accounts, data: ix.data.clone() }
}
fn call(w: &World, id: Pubkey, accounts: Vec<AccountMeta>) -> Instruction {
    w.s.sim.borrow_mut().add_program(id, noop);
    Instruction { program_id: id, accounts, data: vec![1] }
}
fn transfer(from: Pubkey, to: Pubkey, auth: Pubkey, x: u64) -> Instruction {
    spl_token::instruction::transfer(&spl_token::id(), &from, &to, &auth, &[], x).unwrap()
}

fn begin(w: &World, a: usize, owner: TestKeypair, loans: &[Loan]) -> Instruction {
    let mut b = FlashLoanBeginInstruction {
        account: w.accs[a].key,
        owner,
        loans: loans
            .iter()
            .map(|l| FlashLoanPart { bank: w.bank_key(l.t, l.n), token_account: l.acct, withdraw_amount: l.amount })
            .collect(),
    }
    .to_instruction(&*w.s)
    .1;
    // whatever else is in the transaction, Begin must not fail for want of a writable mango account
    b.accounts[0].is_writable = true;
    b
}
fn end(w: &World, a: usize, owner: TestKeypair, loans: &[Loan], ty: FlashLoanType) -> Instruction {
    let mut e = FlashLoanEndInstruction {
        account: w.accs[a].key,
        owner,
        loans: loans
            .iter()
            .map(|l| FlashLoanPart { bank: w.bank_key(l.t, l.n), token_account: l.acct, withdraw_amount: l.amount })
            .collect(),
        flash_loan_type: ty,
    }
    .to_instruction(&*w.s)
    .1;
    // the health accounts must list the banks the loans use
    for m in e.accounts.iter_mut() {
        for l in loans.iter().filter(|l| l.n == 1) {
            if m.pubkey == w.tokens[l.t].bank {
                m.pubkey = w.tokens[l.t].bank1;
            }
        }
    }
    e
}
/// payments between the token accounts and an outside party
fn payments(w: &World, other: usize, auth: Pubkey, loans: &[Loan]) -> Vec<Instruction> {
    let mut v = vec![];
    for l in loans {
        let o = w.user_token(other, l.t);
        if l.spend > 0 {
            v.push(transfer(l.acct, o, auth, l.spend));
        }
        if l.back > 0 {
            v.push(transfer(o, l.acct, w.users[other].key.pubkey(), l.back));
        }
    }
    v
}

fn token_of(w: &World, bank: Pubkey) -> Option<usize> {
    (0..w.tokens.len()).find(|t| w.tokens[*t].bank == bank || w.tokens[*t].bank1 == bank)
}

fn setup(src: &mut Src) -> (World, usize, usize) {
    let w = World::new();
    w.random_bank_config(src);
    w.whale_liquidity();
    let a = 1 + src.idx(3);
    let other = (w.accs[a].user + 1) % 3;
    // collateral beyond anything below, so that health decides nothing
    w.grant(a, 0, 0, 1e14);
    for t in 1..5 {
        match src.below(5) {
            0 | 1 => {
                let x = src.log(1 << 30) as f64 + src.pick(&[0.0, 0.5, 0.9]);
                w.grant(a, t, 0, x)
            }
            2 => {
                let x = src.log(1 << 30) as f64 + src.pick(&[0.0, 0.5]);
                w.grant(a, t, 0, -x)
            }
            _ => {}
        }
    }
    (w, a, other)
}

fn loans(src: &mut Src, w: &World, a: usize, k: usize, max_vault: bool) -> Vec<Loan> {
    let s = w.snap();
    let mut left: Vec<usize> = (0..5).collect();
    let mut v = vec![];
    for _ in 0..k {
        let i = src.idx(left.len());
        let t = left.remove(i);
        let n = src.idx(2);
        let pos = s.pos(a, t).abs().min(1e12) as u64;
        let amount = match src.below(8) {
            0 | 1 => 0,
            2 => pos,
            3 => pos + src.below(3),
            4 => pos.saturating_sub(src.below(3)),
            5 if max_vault => {
                let v = src.log(1 << 30);
                w.set_vault(s.b(t, n).vault, v);
                v + src.below(3)
            }
            _ => src.log(1 << 30),
        };
        let spend = match src.below(4) {
            0 => amount,
            1 => 0,
            2 if src.chance(30) => amount.saturating_add(src.log(1 << 20)),
            _ => src.urange(0, amount.min(1 << 40)),
        };
        let back = match src.below(5) {
            0 => spend,
            1 | 2 => 0,
            3 => spend.saturating_add(src.log(1 << 30)),
            _ => src.log(1 << 30).min(1 << 40),
        };
        v.push(Loan { t, n, acct: w.user_token(w.accs[a].user, t), amount, spend, back });
    }
    v
}

fn open_loans(w: &World) -> usize {
    let mut k = 0;
    for t in 0..w.tokens.len() {
        for n in 0..2 {
            let b = w.bank(w.bank_key(t, n));
            if b.flash_loan_approved_amount != 0 || b.flash_loan_token_account_initial != u64::MAX {
                k += 1;
            }
        }
    }
    k
}

fn book(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (w, a, other) = setup(src);
    let who = w.accs[a];
    for t in 0..5 {
        let x = match src.below(3) {
            0 => 0,
            1 => src.log(1 << 40),
            _ => 1 << 50,
        };
        w.set_vault(w.user_token(who.user, t), x);
        if src.chance(15) {
            let r = 1 + src.below(2) as u8;
            w.edit_token(t, |b| b.reduce_only = r);
        }
    }
    let ty = src.pick(&[FlashLoanType::Unknown, FlashLoanType::Swap, FlashLoanType::Swap, FlashLoanType::SwapWithoutFee]);
    let k = if ty == FlashLoanType::Unknown || src.chance(10) { src.pick(&[1, 2, 2, 3, 4]) } else { 2 };
    let ls = loans(src, &w, a, k, true);
    let mut ixs = vec![begin(&w, a, who.owner, &ls)];
    ixs.extend(payments(&w, other, who.owner.pubkey(), &ls));
    ixs.push(end(&w, a, who.owner, &ls, ty));
    let s0 = w.snap();
    let raw0 = w.raw_state();
    // --- prediction
    let mut why: Vec<&str> = vec![];
    let mut maybe: Vec<&str> = vec![];
    let mut exp = vec![];
    let max_fee = ls.iter().map(|l| s0.b(l.t, l.n).flash_loan_swap_fee_rate).fold(0.0f32, f32::max);
    for l in &ls {
        let b = s0.b(l.t, l.n);
        let init = w.s.token_account_balance(l.acct);
        if s0.v(l.t, l.n) < l.amount {
            why.push("vault too small");
        }
        let have = init as u128 + l.amount as u128;
        if (l.spend as u128) > have {
            why.push("not enough tokens to spend");
            continue;
        }
        let e = have - l.spend as u128 + l.back as u128;
        let repay = e.saturating_sub(init as u128);
        let change = repay as f64 - l.amount as f64;
        let nat = f(s0.posx(a, l.t));
        let loan = if nat > 0.0 { (l.amount as f64 - nat).max(0.0) } else { l.amount as f64 };
        let lof = loan * f(b.loan_origination_fee_rate);
        let fee = if change < 0.0 && ty == FlashLoanType::Swap { -change * max_fee as f64 } else { 0.0 };
        let after = nat + change - lof - fee;
        let eps = 1e-6 + 1e-12 * (nat.abs() + change.abs());
        let by = |x: f64, y: f64, v: &'static str, why: &mut Vec<&str>, maybe: &mut Vec<&str>| {
            // x > y is a reason to refuse
            if x > y + eps {
                why.push(v)
            } else if x > y - eps {
                maybe.push(v)
            }
        };
        if b.are_deposits_reduce_only() && after > 1.0 - eps {
            by(after, nat, "deposits are reduce only", &mut why, &mut maybe);
        }
        if b.are_borrows_reduce_only() && after < eps {
            by(-after, (-nat).max(0.0), "borrows are reduce only", &mut why, &mut maybe);
        }
        exp.push((l.clone(), init, e as u64, repay as u64, nat, after, lof + fee, eps));
    }
    if ty != FlashLoanType::Unknown && k != 2 {
        why.push("a swap needs two loans");
    }
    let trace = || format!("{ty:?} {ls:?} bank modes {:?} fee rates lof {:?} swap {max_fee}", ls.iter().map(|l| s0.b(l.t, l.n).reduce_only).collect::<Vec<_>>(), ls.iter().map(|l| f(s0.b(l.t, l.n).loan_origination_fee_rate)).collect::<Vec<_>>());
    case.note(trace);
    let ok = w.replay(&ixs, &[who.owner.pubkey(), w.users[other].key.pubkey()]);
    case.nontrivial();
    if !ok {
        case.label("refused");
        let e = w.fail_text();
        ensure!(!why.is_empty() || !maybe.is_empty(), "refused without reason: {e}: {}", trace());
        if (why.iter().chain(&maybe)).all(|x| x.contains("reduce only")) {
            ensure!(is_err(&e, MangoError::TokenInReduceOnlyMode), "reduce only refused with {e}: {}", trace());
        }
        for x in &why {
            case.label(x);
        }
        return Ok(());
    }
    ensure!(why.is_empty(), "accepted against {why:?}: {}", trace());
    case.label(match ty {
        FlashLoanType::Unknown => "loan",
        FlashLoanType::Swap => "swap",
        FlashLoanType::SwapWithoutFee => "swap without fee",
    });
    let s1 = w.snap();
    ensure!(open_loans(&w) == 0, "a bank is left with an open loan: {}", trace());
    let mut touched = vec![who.key];
    for (l, init, e, repay, nat, after, fees, eps) in &exp {
        let (b0, b1) = (s0.b(l.t, l.n), s1.b(l.t, l.n));
        touched.extend([w.bank_key(l.t, l.n), b0.vault, l.acct, w.user_token(other, l.t)]);
        let wal = w.s.token_account_balance(l.acct);
        ensure!(wal == (*e).min(*init), "token account holds {wal}, started with {init}, had {e} at the end: {}", trace());
        ensure!(s1.v(l.t, l.n) == s0.v(l.t, l.n) - l.amount + repay, "vault {} -> {}: {}", s0.v(l.t, l.n), s1.v(l.t, l.n), trace());
        let got = f(s1.posx(a, l.t));
        let in_use = s0.accs[a].token_position(l.t as u16).map(|p| p.is_in_use()).unwrap_or(false);
        let dusted = !in_use && s1.accs[a].token_position(l.t as u16).is_err();
        if dusted {
            ensure!(after.abs() < 1.0 + eps && *after > -eps, "position of {after} was closed: {}", trace());
            case.label("position closed");
        } else {
            ensure!((got - after).abs() <= *eps, "position {nat} -> {got}, expected {after}: {}", trace());
        }
        let want_bank = (after - nat) - if dusted { *after } else { 0.0 };
        let beps = 1e-5 + 1e-15 * (f(b0.native_deposits()) + f(b0.native_borrows()));
        let db = f(b1.native_deposits() - b0.native_deposits()) - f(b1.native_borrows() - b0.native_borrows());
        ensure!((db - want_bank).abs() < beps + eps, "bank totals moved by {db}, expected {want_bank}: {}", trace());
        let df = f(b1.collected_fees_native - b0.collected_fees_native);
        ensure!((df - fees).abs() <= *eps, "collected fees grew by {df}, expected {fees}: {}", trace());
        ensure!(b1.deposit_index == b0.deposit_index && b1.borrow_index == b0.borrow_index, "indexes moved: {}", trace());
        if *fees > 0.0 {
            case.label("with fees");
        }
    }
    // nothing else changed
    let raw1 = w.raw_state();
    for (k, v) in &raw1 {
        if !touched.contains(k) {
            let same = match raw0.get(k) {
                Some(x) => x.data == v.data && x.owner == v.owner,
                None => v.data.is_empty(),
            };
            ensure!(same, "another account changed: {k}: {}", trace());
        }
    }
    let (a0, a1) = (&s0.accs[a], &s1.accs[a]);
    ensure!(bytemuck::bytes_of(&a0.fixed) == bytemuck::bytes_of(&a1.fixed), "account header changed: {}", trace());
    for t in 0..5 {
        if !ls.iter().any(|l| l.t == t) {
            ensure!(
                a0.token_position(t as u16).ok().map(|p| p.indexed_position) == a1.token_position(t as u16).ok().map(|p| p.indexed_position),
                "another position changed: {}",
                trace()
            );
        }
    }
    Ok(())
}

/// sum over all accounts of a token, in native units
fn total(s: &Snap, t: usize) -> I80F48 {
    (0..N_ACC).map(|a| s.posx(a, t)).sum()
}

fn structure(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (w, a, other) = setup(src);
    let who = w.accs[a];
    let b = if a == 3 { 1 } else { a + 1 };
    // a second account of the same owner
    let owner_pk = who.owner.pubkey();
    w.edit_acc(b, |x| x.fixed.owner = owner_pk);
    w.grant(b, 0, 0, 1e14);
    w.grant(b, 1, 0, 1e9);
    let k = 2 + src.idx(2);
    let mut ls = loans(src, &w, a, k, false);
    for l in ls.iter_mut() {
        l.amount = l.amount.max(1);
    }
    let ty = FlashLoanType::Unknown;
    let mut signers = vec![owner_pk, w.users[other].key.pubkey()];
    let mut owner = who.owner;
    let beg = begin(&w, a, owner, &ls);
    let mut fin = end(&w, a, owner, &ls, ty);
    let pay = payments(&w, other, owner_pk, &ls);
    let nk = ls.len();
    let fl = fin.accounts.len();
    // positions of the trailing accounts
    let (v0, c0) = (fl - 1 - 2 * nk, fl - 1 - nk);
    let stranger_prog = Pubkey::new_from_array([90; 32]);
    let mango_ix = |src: &mut Src| -> (Instruction, &'static str) {
        match src.below(5) {
            0 => (w.deposit_ix(a, 1, 0, 10).to_instruction(&*w.s).1, "deposit"),
            1 => (w.withdraw_ix(a, 0, 0, 10, true).to_instruction(&*w.s).1, "withdraw"),
            2 => (
                TokenUpdateIndexAndRateInstruction { mint_info: w.tokens[ls[0].t].mint_info }.to_instruction(&*w.s).1,
                "update rates",
            ),
            3 => (w.deposit_ix(b, 1, 0, 10).to_instruction(&*w.s).1, "deposit other"),
            _ => (beg.clone(), "begin"),
        }
    };
    // None: must succeed, Some(true): must fail, Some(false): judged by the general rules only
    let pick = src.below(32);
    let whole = |middle: Vec<Instruction>, fin: &Instruction| {
        let mut v = vec![beg.clone()];
        v.extend(pay.clone());
        v.extend(middle);
        v.push(fin.clone());
        v
    };
    let rec = |w: &World, ls: &[Loan]| {
        let mut v = vec![begin(w, a, who.owner, ls)];
        v.extend(payments(w, other, owner_pk, ls));
        v.push(end(w, a, who.owner, ls, ty));
        v
    };
    let (what, ixs, must): (&str, Vec<Instruction>, Option<bool>) = match pick {
        0 => ("plain", whole(vec![], &fin), None),
        1 => ("no end", [vec![beg.clone()], pay.clone()].concat(), Some(true)),
        2 => ("no begin", [pay.clone(), vec![fin.clone()]].concat(), Some(true)),
        3 => ("end before begin", [vec![fin.clone()], pay.clone(), vec![beg.clone()]].concat(), Some(true)),
        4 => ("end twice", [whole(vec![], &fin), vec![fin.clone()]].concat(), Some(true)),
        5 => ("begin twice", [vec![beg.clone()], whole(vec![], &fin)].concat(), Some(true)),
        6 => {
            let (x, y) = ls.split_at(1);
            let mut v = vec![begin(&w, a, owner, x), begin(&w, a, owner, y)];
            v.extend(pay.clone());
            v.push(end(&w, a, owner, x, ty));
            v.push(end(&w, a, owner, y, ty));
            ("nested loans", v, Some(true))
        }
        7 | 8 => {
            let (ix, n) = mango_ix(src);
            case.label(n);
            if n == "deposit other" || n == "deposit" || n == "withdraw" {
                signers.push(owner_pk);
            }
            let at = src.idx(pay.len() + 1);
            let mut v = whole(vec![], &fin);
            v.insert(1 + at, ix);
            ("mango instruction between", v, Some(true))
        }
        9 => {
            let x = call(&w, stranger_prog, vec![AccountMeta::new_readonly(mango_v4::id(), false)]);
            ("mango program account between", whole(vec![x], &fin), Some(true))
        }
        10 => {
            let keys: Vec<Pubkey> = ls.iter().map(|l| w.bank_key(l.t, l.n)).collect();
            let x = call(&w, stranger_prog, keys.iter().map(|k| AccountMeta::new_readonly(*k, false)).collect());
            ("foreign instruction between", whole(vec![x], &fin), None)
        }
        11 => {
            let mut e = fin.clone();
            e.accounts[0].pubkey = w.accs[b].key;
            ("end for another account of the owner", whole(vec![], &e), Some(true))
        }
        12 => {
            let e = end(&w, b, owner, &ls, ty);
            ("end for another account of the owner, consistent", whole(vec![], &e), Some(true))
        }
        13 => {
            let d = if src.bool() { nk as u8 + 1 } else { nk as u8 - 1 };
            fin.data[8] = d;
            ("other number of loans", whole(vec![], &fin), Some(true))
        }
        14 => {
            // a subset, with everything but the count consistent
            let e = end(&w, a, owner, &ls[1..], ty);
            ("end for fewer loans", whole(vec![], &e), Some(true))
        }
        15 => {
            let (i, j) = (src.idx(nk), src.idx(nk));
            fin.accounts.swap(v0 + i, v0 + j);
            ("vaults permuted at the end", whole(vec![], &fin), if i == j { None } else { Some(true) })
        }
        16 => {
            let (i, j) = (src.idx(nk), src.idx(nk));
            fin.accounts.swap(c0 + i, c0 + j);
            ("token accounts permuted at the end", whole(vec![], &fin), if i == j { None } else { Some(true) })
        }
        17 => {
            // an account of the owner with the same mint but another starting balance
            let i = src.idx(nk);
            let u = (0..3).find(|u| *u != who.user && *u != other).unwrap();
            let x = w.user_token(u, ls[i].t);
            let mut raw = w.s.sim.borrow().get(&x).unwrap().clone();
            raw.data[32..64].copy_from_slice(owner_pk.as_ref());
            w.s.sim.borrow_mut().set(x, raw);
            fin.accounts[c0 + i].pubkey = x;
            ("another token account at the end", whole(vec![], &fin), Some(true))
        }
        18 => {
            let i = src.idx(nk);
            fin.accounts[v0 + i].pubkey = w.s.get_account_boxed::<Bank>(w.bank_key(ls[i].t, 1 - ls[i].n)).vault;
            ("another vault at the end", whole(vec![], &fin), Some(true))
        }
        19 => {
            // the health accounts list the other bank of the token
            let i = src.idx(nk);
            let (x, y) = (w.bank_key(ls[i].t, ls[i].n), w.bank_key(ls[i].t, 1 - ls[i].n));
            for m in fin.accounts.iter_mut() {
                if m.pubkey == x {
                    m.pubkey = y;
                }
            }
            ("another bank at the end", whole(vec![], &fin), Some(true))
        }
        20 => {
            // bank and vault both replaced at the end only
            let i = src.idx(nk);
            let mut l2 = ls.clone();
            l2[i].n = 1 - l2[i].n;
            let e = end(&w, a, owner, &l2, ty);
            ("another bank and vault at the end", whole(vec![], &e), Some(true))
        }
        21 => {
            let i = src.idx(nk);
            let mut l2 = ls.clone();
            let mut x = l2[i].clone();
            let x_other = src.chance(70);
            if x_other {
                x.n = 1 - x.n;
            }
            if src.bool() {
                l2[i].spend = 0;
                l2[i].back = 0;
                x.spend = 0;
                x.back = 0;
            }
            l2.push(x);
            let mut v = rec(&w, &l2);
            if x_other {
                // with both banks of the token (and its oracle twice) among the health accounts,
                // in the place of a bank that is not involved
                let e = v.last_mut().unwrap();
                let n = (3..e.accounts.len()).take_while(|k| token_of(&w, e.accounts[*k].pubkey).is_some()).count();
                let mut hs: Vec<(AccountMeta, AccountMeta)> =
                    (0..n).map(|k| (e.accounts[3 + k].clone(), e.accounts[3 + n + k].clone())).collect();
                let at = hs.iter().position(|h| token_of(&w, h.0.pubkey) == Some(l2[i].t)).unwrap();
                let double = (AccountMeta::new(w.bank_key(l2[i].t, l2.last().unwrap().n), false), hs[at].1.clone());
                let spare: Vec<usize> =
                    (0..n).filter(|k| token_of(&w, hs[*k].0.pubkey).map_or(false, |t| !l2.iter().any(|l| l.t == t))).collect();
                hs[at].0 = AccountMeta::new(w.bank_key(l2[i].t, l2[i].n), false);
                if spare.is_empty() {
                    hs.insert(at + 1, double);
                } else {
                    let k = spare[src.idx(spare.len())];
                    hs.remove(k);
                    let at = if k < at { at - 1 } else { at };
                    let after = at + src.idx(2);
                    hs.insert(after, double);
                    case.label("second bank in the place of another");
                }
                let rest = e.accounts.split_off(3 + 2 * n);
                e.accounts.truncate(3);
                e.accounts.extend(hs.iter().map(|h| h.0.clone()));
                e.accounts.extend(hs.iter().map(|h| h.1.clone()));
                e.accounts.extend(rest);
            }
            ("a token twice", v, Some(true))
        }
        22 => {
            let i = src.idx(nk);
            let mut l2 = ls.clone();
            l2[i].acct = w.user_token(who.user, (l2[i].t + 1) % 5);
            l2[i].spend = 0;
            l2[i].back = 0;
            ("token account of another mint", rec(&w, &l2), Some(true))
        }
        23 => {
            let i = src.idx(nk);
            let mut l2 = ls.clone();
            l2[i].acct = w.s.get_account_boxed::<Bank>(w.bank_key(l2[i].t, src.idx(2))).vault;
            l2[i].spend = 0;
            l2[i].back = 0;
            ("loan into a vault", rec(&w, &l2), Some(true))
        }
        24 => {
            let i = src.idx(nk);
            let mut bx = beg.clone();
            // fixed accounts, banks, vaults
            let p = 4 + nk + i;
            let y = w.s.get_account_boxed::<Bank>(w.bank_key(ls[i].t, 1 - ls[i].n)).vault;
            bx.accounts[p].pubkey = y;
            fin.accounts[v0 + i].pubkey = y;
            let mut v = vec![bx];
            v.extend(pay.clone());
            v.push(fin.clone());
            ("a vault that is not the bank's", v, Some(true))
        }
        25 => {
            let x = via_proxy(&w, &beg);
            let mut v = whole(vec![], &fin);
            v[0] = x;
            ("begin through another program", v, Some(true))
        }
        26 => {
            let x = via_proxy(&w, &fin);
            let mut v = whole(vec![], &fin);
            let last = v.len() - 1;
            v[last] = x;
            ("end through another program", v, Some(true))
        }
        27 => {
            fin.data[..8].copy_from_slice(&mango_v4::instruction::FlashLoanEnd { flash_loan_type: ty }.data()[..8]);
            ("old end instruction", whole(vec![], &fin), Some(true))
        }
        28 => {
            let mut v = whole(vec![], &fin);
            match src.below(3) {
                0 => {
                    // may fail: its health accounts do not list new positions
                    v.push(w.deposit_ix(a, 0, 0, 10).to_instruction(&*w.s).1);
                    ("deposit after", v, Some(false))
                }
                1 => {
                    v.insert(0, w.withdraw_ix(a, 0, 0, 10, true).to_instruction(&*w.s).1);
                    ("withdrawal before", v, None)
                }
                _ => {
                    // another loan after the first; positions may be gone, so it may fail
                    let again = v.clone();
                    v.extend(again);
                    ("two loans in a row", v, Some(false))
                }
            }
        }
        29 => {
            // a bank listed more than once among the health accounts
            let x = w.bank_key(ls[0].t, ls[0].n);
            let m = AccountMeta::new(x, false);
            let at = src.idx(3);
            fin.accounts.insert(3 + at, m);
            ("a bank listed twice at the end", whole(vec![], &fin), Some(false))
        }
        30 => {
            // the token account is turned into one of another mint
            let i = src.idx(nk);
            let acct = Pubkey::new_from_array([77; 32]);
            let t = ls[i].t;
            let t2 = (t + 1) % 5;
            let mut raw = w.s.sim.borrow().get(&ls[i].acct).unwrap().clone();
            raw.data[64..72].copy_from_slice(&0u64.to_le_bytes());
            let lam = raw.lamports;
            w.s.sim.borrow_mut().set(acct, raw);
            let mut l2 = ls.clone();
            l2[i].acct = acct;
            l2[i].spend = 0;
            l2[i].back = 0;
            let mint = |t: usize| w.s.get_account_boxed::<Bank>(w.bank_key(t, 0)).mint;
            let mut v = vec![begin(&w, a, owner, &l2)];
            v.extend(payments(&w, other, owner_pk, &l2));
            let user = w.user_token(who.user, t);
            if l2[i].amount > 0 {
                v.push(transfer(acct, user, owner_pk, l2[i].amount));
            }
            let payer = w.s.sim.borrow().payer;
            v.push(spl_token::instruction::close_account(&spl_token::id(), &acct, &payer, &owner_pk, &[]).unwrap());
            let back_at = src.bool();
            if back_at {
                v.push(solana_program::system_instruction::create_account(&payer, &acct, lam, spl_token::state::Account::LEN as u64, &spl_token::id()));
                v.push(spl_token::instruction::initialize_account3(&spl_token::id(), &acct, &mint(t2), &owner_pk).unwrap());
                let x = 1 + src.log(1 << 30);
                v.push(transfer(w.user_token(other, t2), acct, w.users[other].key.pubkey(), x));
                signers.push(acct);
                signers.push(payer);
            }
            v.push(end(&w, a, owner, &l2, ty));
            ("token account of another mint at the end", v, Some(true))
        }
        _ => {
            // delegates may only use a few programs in between
            let du = (0..3).find(|u| *u != who.user && *u != other).unwrap();
            let dk = w.users[du].key;
            w.edit_acc(a, |x| x.fixed.delegate = dk.pubkey());
            owner = dk;
            signers = vec![dk.pubkey(), w.users[other].key.pubkey()];
            for l in ls.iter_mut() {
                l.acct = w.user_token(du, l.t);
                l.spend = 0;
                l.back = 0;
            }
            let key = |s: &str| s.parse::<Pubkey>().unwrap();
            let allowed = [
                key("JUP6LkbZbjS1jKKwapdHNy74zcZ3tLUZoi5QNyVTaV4"),
                key("JUP4Fb2cqiRUcaTHdrPC8h2gNsA2ETXiPDD33WcGuJB"),
                key("JUP3c2Uh3WA4Ng34tw6kPd2G4C5BB21Xo36Je1s32Ph"),
                key("ComputeBudget111111111111111111111111111111"),
                key("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"),
            ];
            let mut mid = vec![];
            let mut bad = false;
            for _ in 0..1 + src.below(3) {
                if src.chance(60) {
                    let id = src.pick(&allowed);
                    mid.push(call(&w, id, vec![]));
                } else {
                    bad = true;
                    if src.bool() {
                        mid.push(call(&w, stranger_prog, vec![]));
                    } else {
                        mid.push(transfer(w.user_token(other, 0), w.user_token(du, 0), w.users[other].key.pubkey(), 5));
                    }
                }
            }
            let mut v = vec![begin(&w, a, owner, &ls)];
            v.extend(mid);
            v.push(end(&w, a, owner, &ls, ty));
            if src.bool() {
                // after the end anything is fine
                v.push(call(&w, stranger_prog, vec![]));
            }
            ("delegate", v, if bad { Some(true) } else { None })
        }
    };
    case.label(what);
    case.note(|| format!("{what}: {ls:?}"));
    let s0 = w.snap();
    let ok = w.replay(&ixs, &signers);
    case.nontrivial();
    let tr = || format!("{what}: {ls:?}: {}", w.fail_text());
    match must {
        None => ensure!(ok, "refused: {}", tr()),
        Some(true) => ensure!(!ok, "accepted: {}", tr()),
        Some(false) => {}
    }
    if !ok {
        return Ok(());
    }
    // the general rules
    ensure!(open_loans(&w) == 0, "a loan is left open: {}", tr());
    let s1 = w.snap();
    for t in 0..5 {
        let d = f(total(&s1, t) - total(&s0, t));
        let v = s1.vaults(t) - s0.vaults(t);
        let fees = s1.fees(t) - s0.fees(t);
        ensure!((v - d - fees).abs() < 2.01, "token {t}: vaults changed by {v}, positions by {d}, fees by {fees}: {}", tr());
        for x in 0..N_ACC {
            if x != a {
                ensure!(s0.accs[x].token_position(t as u16).ok().map(|p| p.indexed_position) == s1.accs[x].token_position(t as u16).ok().map(|p| p.indexed_position), "account {x} changed: {}", tr());
            }
        }
    }
    ensure!(w.s.sim.borrow().accounts.iter().filter(|(_, v)| is_type::<Bank>(v)).count() >= 10, "banks gone");
    Ok(())
}
