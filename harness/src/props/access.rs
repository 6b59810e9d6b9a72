//! C18: who may do what, and which accounts an instruction accepts.
use crate::pbt::{Case, Prop, Src, Suite};
use crate::sim::Acc;
use crate::txgen::*;
use crate::world::*;
use crate::ensure;
use mango_v4::state::*;
use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

/// Signers that only pay or fund: anyone may take their place. (instruction, account position)
const PAYERS: &[(&str, usize)] = &[
    ("account_create", 3),
    ("account_create_v2", 3),
    ("account_expand", 3),
    ("account_expand_v2", 3),
    ("account_size_migration", 2),
    ("alt_extend", 2),
    ("group_change_insurance_fund", 6),
    ("group_create", 4),
    ("perp_create_market", 7),
    ("serum3_create_open_orders", 7),
    ("serum3_register_market", 8),
    ("stub_oracle_create", 1), // the new oracle itself
    ("stub_oracle_create", 4),
    ("token_add_bank", 7),
    ("token_register", 8),
    ("token_register_trustless", 8),
];

/// Instructions that act for an account: (instruction, account position, authority position,
/// whether delegates may act)
const AUTH: &[(&str, usize, usize, bool)] = &[
    ("account_buyback_fees_with_mngo", 1, 2, true),
    ("account_close", 1, 2, false),
    ("account_edit", 1, 2, false),
    ("account_expand", 1, 2, false),
    ("account_expand_v2", 1, 2, false),
    ("sequence_check", 1, 2, false),
    ("perp_cancel_all_orders", 1, 2, true),
    ("perp_cancel_all_orders_by_side", 1, 2, true),
    ("perp_cancel_order", 1, 2, true),
    ("perp_cancel_order_by_client_order_id", 1, 2, true),
    ("perp_deactivate_position", 1, 2, true),
    ("perp_place_order", 1, 2, true),
    ("perp_place_order_v2", 1, 2, true),
    ("perp_place_order_pegged", 1, 2, true),
    ("perp_place_order_pegged_v2", 1, 2, true),
    ("perp_liq_base_or_positive_pnl", 3, 4, true),
    ("perp_liq_negative_pnl_or_bankruptcy_v2", 1, 2, true),
    ("perp_settle_pnl", 1, 2, true),
    ("serum3_cancel_all_orders", 1, 2, true),
    ("serum3_cancel_order", 1, 2, true),
    ("serum3_cancel_order_by_client_order_id", 1, 2, true),
    ("serum3_close_open_orders", 1, 2, true),
    ("serum3_create_open_orders", 1, 2, true),
    ("serum3_place_order", 1, 2, true),
    ("serum3_place_order_v2", 1, 2, true),
    ("serum3_settle_funds_v2", 1, 2, true),
    ("token_conditional_swap_cancel", 1, 2, true),
    ("token_conditional_swap_create", 1, 2, true),
    ("token_conditional_swap_create_v2", 1, 2, true),
    ("token_conditional_swap_create_premium_auction", 1, 2, true),
    ("token_conditional_swap_create_linear_auction", 1, 2, true),
    ("token_conditional_swap_start", 2, 3, true),
    ("token_conditional_swap_trigger", 2, 3, true),
    ("token_conditional_swap_trigger_v2", 2, 3, true),
    ("token_deposit", 1, 2, true),
    ("token_withdraw", 1, 2, true),
    ("token_force_close_borrows_with_token", 1, 2, true),
    ("token_liq_bankruptcy", 1, 2, true),
    ("token_liq_with_token", 1, 2, true),
    ("flash_loan_begin", 0, 1, true),
    ("flash_loan_swap_begin", 0, 1, true),
    ("flash_loan_end_v2", 0, 1, true),
];

/// Accounts the caller is free to choose: (instruction, position)
const FREE: &[(&str, usize)] = &[
    ("token_register", 2),
    ("token_register", 6),
    ("token_register", 7),
    ("token_register_trustless", 2),
    ("token_register_trustless", 6),
    ("token_register_trustless", 7),
    ("token_edit", 4),
    ("stub_oracle_create", 3),
    ("perp_create_market", 2),
    ("perp_create_market", 4),
    ("perp_create_market", 5),
    ("perp_create_market", 6),
    ("group_create", 2),
    ("group_change_insurance_fund", 3),
    ("group_change_insurance_fund", 4),
    ("group_withdraw_insurance_fund", 3),
    ("admin_perp_withdraw_fees", 4),
    ("admin_token_withdraw_fees", 3),
    ("token_deregister", 3),
    ("alt_set", 2),
    ("serum3_register_market", 2),
    ("serum3_register_market", 3),
];

/// Positions of accounts that must belong to one particular token.
const TOKEN_FIXED: &[(&str, &[usize])] = &[
    ("perp_settle_pnl", &[7, 8]),
    ("perp_settle_fees", &[4, 5]),
    ("perp_liq_base_or_positive_pnl", &[6, 7, 8]),
    ("perp_liq_negative_pnl_or_bankruptcy_v2", &[6, 7, 8]),
    ("perp_liq_negative_pnl_or_bankruptcy_v2", &[10, 11, 12]),
    ("serum3_place_order", &[14, 15, 16]),
    ("serum3_place_order_v2", &[14, 15, 16]),
    ("serum3_settle_funds_v2", &[10, 11, 15]),
    ("serum3_settle_funds_v2", &[12, 13, 16]),
    ("serum3_liq_force_cancel_orders", &[12, 13]),
    ("serum3_liq_force_cancel_orders", &[14, 15]),
    ("admin_perp_withdraw_fees", &[2, 3]),
    ("account_buyback_fees_with_mngo", &[4, 5]),
    ("account_buyback_fees_with_mngo", &[6, 7]),
];

fn noop_program(_: &Pubkey, _: &'static [AccountInfo<'static>], _: &[u8]) -> solana_program::entrypoint::ProgramResult {
    Ok(())
}

pub fn is_type<T: anchor_lang::Discriminator>(a: &Acc) -> bool {
    a.owner == mango_v4::id() && a.data.len() > 8 && a.data[..8] == T::DISCRIMINATOR
}
pub fn is_mango_account(a: &Acc) -> bool {
    is_type::<MangoAccountFixed>(a) || is_type::<MangoAccount>(a)
}

fn has_group(a: &Acc) -> Option<&'static str> {
    Some(if is_type::<Bank>(a) {
        "bank"
    } else if is_mango_account(a) {
        "mango account"
    } else if is_type::<MintInfo>(a) {
        "mint info"
    } else if is_type::<PerpMarket>(a) {
        "perp market"
    } else if is_type::<Serum3Market>(a) {
        "spot market"
    } else if is_type::<StubOracle>(a) {
        "oracle"
    } else if is_type::<Serum3MarketIndexReservation>(a) {
        "index reservation"
    } else {
        return None;
    })
}

fn state_diff(a: &BTreeMap<Pubkey, Acc>, b: &BTreeMap<Pubkey, Acc>, skip: &[Pubkey]) -> Option<Pubkey> {
    for k in a.keys().chain(b.keys()) {
        if !skip.contains(k) && a.get(k) != b.get(k) {
            return Some(*k);
        }
    }
    None
}

fn get(w: &World, k: &Pubkey) -> Option<Acc> {
    w.s.sim.borrow().get(k).cloned()
}
fn put(w: &World, k: Pubkey, a: Acc) {
    w.s.sim.borrow_mut().set(k, a);
}

fn spl_owner(w: &World, k: &Pubkey) -> Option<Pubkey> {
    get(w, k).filter(|a| a.data.len() == 165).map(|a| Pubkey::new_from_array(a.data[32..64].try_into().unwrap()))
}

fn with(tx: &Tx, i: usize, f: impl FnOnce(&mut Instruction)) -> Vec<Instruction> {
    let mut v = tx.ixs.clone();
    f(&mut v[i]);
    v
}
fn replay(w: &World, ixs: &[Instruction], signers: &[Pubkey]) -> bool {
    w.replay(ixs, signers)
}

fn mango_accounts(w: &World, ix: &Instruction) -> Vec<(usize, MangoAccountValue)> {
    ix.accounts
        .iter()
        .enumerate()
        .filter_map(|(i, m)| {
            let a = get(w, &m.pubkey)?;
            if !is_mango_account(&a) {
                return None;
            }
            MangoAccountValue::from_bytes(&a.data[8..]).ok().map(|v| (i, v))
        })
        .collect()
}

fn signers_of(ixs: &[Instruction]) -> Vec<Pubkey> {
    let mut v: Vec<Pubkey> = ixs
        .iter()
        .flat_map(|i| i.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey))
        .collect();
    v.sort();
    v.dedup();
    v
}

fn signatures(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = start(src);
    for _ in 0..4 {
        let Some(tx) = gen(src, &m) else { continue };
        let names = tx.names();
        case.note(|| format!("{} {:?}", tx.what, names));
        for (i, ix) in tx.ixs.iter().enumerate() {
            let Some((name, _)) = ident(ix) else { continue };
            case.label(name);
            for (j, meta) in ix.accounts.iter().enumerate().filter(|x| x.1.is_signer) {
                case.nontrivial();
                let k = meta.pubkey;
                // nobody signed for it
                let mut v = tx.ixs.clone();
                for x in v.iter_mut().flat_map(|x| x.accounts.iter_mut()).filter(|x| x.pubkey == k) {
                    x.is_signer = false;
                }
                let s: Vec<Pubkey> = tx.signers.iter().copied().filter(|x| *x != k).collect();
                ensure!(!replay(&tx.base.fork(), &v, &s), "{name} worked without the signature of account {j}");
                // somebody else signed
                if PAYERS.contains(&(name, j)) {
                    continue;
                }
                let (fast, sec) = roles();
                let w = &tx.base;
                let mut cands = vec![stranger().pubkey(), w.admin.pubkey(), fast.pubkey(), sec.pubkey()];
                cands.extend(w.users.iter().map(|u| u.key.pubkey()));
                let accs = mango_accounts(w, ix);
                for c in cands {
                    if c == k || accs.iter().any(|a| a.1.fixed.is_owner_or_delegate_for_test(c)) {
                        continue;
                    }
                    let allowed: Vec<Pubkey> = match name {
                        // depends on what is changed, see C22
                        "token_edit" | "perp_edit_market" | "serum3_edit_market" => vec![w.admin.pubkey(), sec.pubkey()],
                        "ix_gate_set" => {
                            let new = u128::from_le_bytes(ix.data[8..24].try_into().unwrap());
                            let old = w.group_state().ix_gate;
                            if old & !new == 0 {
                                vec![w.admin.pubkey(), sec.pubkey()]
                            } else {
                                vec![w.admin.pubkey()]
                            }
                        }
                        "token_register_trustless" | "serum3_register_market" => vec![w.admin.pubkey(), fast.pubkey()],
                        _ => vec![],
                    };
                    if allowed.contains(&c) {
                        continue;
                    }
                    let v = with(&tx, i, |x| x.accounts[j].pubkey = c);
                    let f = w.fork();
                    ensure!(!replay(&f, &v, &signers_of(&v)), "{name} worked with account {j} ({k}) replaced by {c}");
                }
            }
            // the right signer, but for somebody else's account
            if let Some((_, ai, si, _)) = AUTH.iter().find(|x| x.0 == name) {
                let k = ix.accounts[*si].pubkey;
                for o in 0..N_ACC {
                    let who = tx.base.accs[o];
                    let acc = tx.base.acc(o);
                    if who.key == ix.accounts[*ai].pubkey || acc.fixed.is_owner_or_delegate_for_test(k) {
                        continue;
                    }
                    let v = with(&tx, i, |x| x.accounts[*ai].pubkey = who.key);
                    ensure!(!replay(&tx.base.fork(), &v, &tx.signers), "{name} worked on the account of another owner");
                }
            }
        }
    }
    Ok(())
}

trait OwnerOrDelegate {
    fn is_owner_or_delegate_for_test(&self, k: Pubkey) -> bool;
}
impl OwnerOrDelegate for MangoAccountFixed {
    fn is_owner_or_delegate_for_test(&self, k: Pubkey) -> bool {
        self.owner == k || self.delegate == k || self.temporary_delegate == k
    }
}

fn delegates(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = start(src);
    for _ in 0..4 {
        let Some(tx) = gen(src, &m) else { continue };
        let d = stranger().pubkey();
        let now = tx.base.now();
        for (i, ix) in tx.ixs.iter().enumerate() {
            let Some((name, _)) = ident(ix) else { continue };
            let Some((_, ai, si, may)) = AUTH.iter().find(|x| x.0 == name) else { continue };
            let (ak, k) = (ix.accounts[*ai].pubkey, ix.accounts[*si].pubkey);
            let kind = src.below(5);
            // (permanent, temporary, expiry)
            let (perm, temp, exp) = match kind {
                0 => (true, false, 0),
                1 => (false, true, now + src.pick(&[0u64, 1, 1000])),
                2 => (false, true, now - src.pick(&[1u64, 1000])),
                3 => (false, false, now + 1000),
                _ => (true, true, now - 1),
            };
            let active = perm || temp && exp >= now;
            case.label(name);
            case.label(["permanent delegate", "temporary delegate", "expired temporary delegate", "no delegate", "permanent delegate, expired temporary"][kind as usize]);
            case.nontrivial();
            let f = tx.base.fork();
            let a = get(&f, &ak).unwrap();
            let Ok(mut v) = MangoAccountValue::from_bytes(&a.data[8..]) else { continue };
            v.fixed.delegate = if perm { d } else { Pubkey::default() };
            v.fixed.temporary_delegate = if temp { d } else { Pubkey::default() };
            v.fixed.temporary_delegate_expiry = exp;
            f.put_acc(ak, &v);
            // the owner still can (flash loans look at both ends)
            ensure!(f.fork().replay(&tx.ixs, &tx.signers), "{name} fails once a delegate is set: {}", f.fail_text());
            // the delegate acts, everywhere the owner acted for this account
            let mut ixs = tx.ixs.clone();
            for x in ixs.iter_mut() {
                let Some((n, _)) = ident(x) else { continue };
                if let Some((_, ai2, si2, _)) = AUTH.iter().find(|y| y.0 == n) {
                    if x.accounts[*ai2].pubkey == ak && x.accounts[*si2].pubkey == k {
                        x.accounts[*si2].pubkey = d;
                    }
                }
            }
            let _ = i;
            let ok = f.replay(&ixs, &signers_of(&ixs));
            // what delegates may withdraw is C02, flash loans need the token accounts of the delegate
            let special = tx.names().iter().any(|n| *n == "token_withdraw" || n.starts_with("flash_loan"));
            if !active || !*may {
                ensure!(!ok, "{name} accepted {} as delegate (permanent {perm}, temporary {temp}, expires {exp}, now {now})", d);
            } else if !special {
                ensure!(ok, "{name} refused the delegate: {}", f.fail_text());
            }
        }
    }
    Ok(())
}

fn accounts(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = start(src);
    for _ in 0..3 {
        let Some(tx) = gen(src, &m) else { continue };
        case.note(|| format!("{} {:?}", tx.what, tx.names()));
        let w = &tx.base;
        let mut orig: Option<(World, BTreeMap<Pubkey, Acc>)> = None;
        for (i, ix) in tx.ixs.iter().enumerate() {
            let Some((name, _)) = ident(ix) else { continue };
            case.label(name);
            for (j, meta) in ix.accounts.iter().enumerate() {
                let k = meta.pubkey;
                if meta.is_signer || FREE.contains(&(name, j)) || k == Pubkey::default() {
                    continue;
                }
                let sysvar = k == solana_program::sysvar::instructions::id() || k == solana_program::sysvar::rent::id();
                let a = match get(w, &k) {
                    Some(a) => a,
                    None if sysvar => Acc { lamports: 1, data: vec![0; 400], owner: solana_program::sysvar::id(), executable: false },
                    None => continue, // created by the instruction
                };
                let copy = Pubkey::new_from_array([230; 32]);
                let f = w.fork();
                let kind = if a.executable {
                    f.s.sim.borrow_mut().add_program(copy, noop_program);
                    "program"
                } else if let Some(x) = has_group(&a) {
                    let mut b = a.clone();
                    b.data[8..40].copy_from_slice(&[7; 32]);
                    put(&f, copy, b);
                    x
                } else if is_type::<Group>(&a) {
                    put(&f, copy, a.clone());
                    "group"
                } else if a.owner == spl_token::id() && a.data.len() == 165 {
                    // only vaults of the group
                    let spot = w.spots.iter().any(|s| s.cookie.coin_vault == k || s.cookie.pc_vault == k);
                    if a.data[32..64] != w.group.to_bytes() && !spot {
                        continue;
                    }
                    put(&f, copy, a.clone());
                    "vault"
                } else if a.owner == mango_v4::id() {
                    put(&f, copy, a.clone());
                    "book or queue"
                } else if a.owner == w.serum_program {
                    let l = a.data.len();
                    if l != crate::dex::OO_LEN && l != crate::dex::MARKET_LEN {
                        continue; // checked by the dex
                    }
                    put(&f, copy, a.clone());
                    "spot account"
                } else if sysvar {
                    put(&f, copy, a.clone());
                    "sysvar"
                } else {
                    continue;
                };
                case.label(kind);
                case.nontrivial();
                let before = get(&f, &copy);
                // the same account may be listed several times: replace only this mention
                let v = with(&tx, i, |x| x.accounts[j].pubkey = copy);
                if !replay(&f, &v, &tx.signers) {
                    continue;
                }
                if orig.is_none() {
                    let o = w.fork();
                    if !o.replay(&tx.ixs, &tx.signers) {
                        return Err("does not repeat".into());
                    }
                    let st = o.raw_state();
                    orig = Some((o, st));
                }
                let post = f.raw_state();
                let pre = w.raw_state();
                let o = &orig.as_ref().unwrap().1;
                let what = || format!("{name} accepted a {kind} of another group or key at position {j} (of {}) in {}", ix.accounts.len(), tx.what);
                match kind {
                    "group" => {
                        // anyone can create groups: only the new group may be affected
                        for (q, acc) in &pre {
                            let wallet = acc.owner == solana_program::system_program::id();
                            ensure!(wallet || *q == copy || post.get(q) == Some(acc), "{}: {q} changed", what());
                        }
                    }
                    "mango account" if name == "perp_consume_events" => {
                        ensure!(before == post.get(&copy).cloned(), "{}: it changed", what());
                    }
                    _ => {
                        ensure!(before == post.get(&copy).cloned(), "{}: it changed", what());
                        let d = state_diff(o, &post, &[copy, k]);
                        ensure!(d.is_none(), "{}: the outcome differs in {}", what(), d.unwrap());
                    }
                }
                case.label("unused account");
            }
            // somebody else's wallet
            if name == "token_force_withdraw" {
                let cur = spl_owner(w, &ix.accounts[5].pubkey);
                for u in w.users.iter().filter(|u| Some(u.key.pubkey()) != cur) {
                    for q in u.token_accounts.iter() {
                        for pos in [&[5usize, 6][..], &[5], &[6]] {
                            let v = with(&tx, i, |x| pos.iter().for_each(|p| x.accounts[*p].pubkey = *q));
                            ensure!(!replay(&w.fork(), &v, &tx.signers), "forced withdrawal to somebody else's wallet ({pos:?})");
                        }
                    }
                    case.label("other wallet");
                }
            }
            // accounts of the wrong token
            for (n, pos) in TOKEN_FIXED.iter().filter(|x| x.0 == name) {
                let Some(t) = (0..5).find(|t| {
                    (0..2).any(|b| w.bank_key(*t, b) == ix.accounts[pos[0]].pubkey)
                }) else { continue };
                for t2 in (0..5).filter(|x| *x != t) {
                    for b in 0..2 {
                        let bk = w.bank_key(t2, b);
                        let bank = w.bank(bk);
                        let v = with(&tx, i, |x| {
                            for (q, p) in pos.iter().enumerate() {
                                let old = get(w, &x.accounts[*p].pubkey);
                                let vault = old.map(|a| a.owner == spl_token::id()).unwrap_or(false);
                                x.accounts[*p].pubkey = if q == 0 {
                                    bk
                                } else if vault {
                                    bank.vault
                                } else {
                                    bank.oracle
                                };
                            }
                        });
                        case.label("accounts of the wrong token");
                        ensure!(!replay(&w.fork(), &v, &tx.signers), "{n} accepted bank {b} of token {t2} instead of token {t} at {pos:?}");
                    }
                }
            }
        }
    }
    Ok(())
}

/// Delegates may only withdraw a whole position, into the associated token account of the owner that the
/// owner still controls.
fn withdrawals(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = crate::machine::Machine::setup(src, &crate::machine::ALL);
    let w = &m.w;
    for _ in 0..6 {
        let (a, t, n) = (1 + src.idx(5), src.idx(5), src.idx(2));
        if src.chance(60) {
            let x = src.log_range(1, 1 << 36) as f64;
            w.grant(a, t, n, x);
        }
        let f = w.fork();
        let have = f.snap().pos(a, t);
        let whole = have.max(0.0).floor() as u64;
        let amount = match src.below(5) {
            0 | 1 => u64::MAX,
            2 => whole,
            3 => whole.saturating_sub(1 + src.log(1 << 20)),
            _ => src.log(whole.max(1)),
        };
        let owner = f.acc(a).fixed.owner;
        let mint = f.tokens[t].mint.pubkey;
        let ata = anchor_spl::associated_token::get_associated_token_address(&owner, &mint);
        let d = stranger();
        let other = { let k = f.s.sim.borrow_mut().new_key(); k };
        let kind = src.below(6);
        let target = match kind {
            0 | 1 => ata,
            2 => { f.s.set_token_account(ata, d.pubkey(), mint, src.log(1000)); ata }
            3 => { f.s.set_token_account(other, owner, mint, src.log(1000)); other }
            4 => { f.s.set_token_account(other, d.pubkey(), mint, src.log(1000)); other }
            _ => {
                let k = anchor_spl::associated_token::get_associated_token_address(&d.pubkey(), &mint);
                f.s.set_token_account(k, d.pubkey(), mint, 0);
                k
            }
        };
        let now = f.now();
        let how = src.below(4);
        let (perm, temp, exp) = [(true, false, 0), (false, true, now + src.pick(&[0u64, 1, 1000])), (false, true, now - 1), (false, false, now + 1)][how as usize];
        f.edit_acc(a, |x| {
            x.fixed.delegate = if perm { d.pubkey() } else { Pubkey::default() };
            x.fixed.temporary_delegate = if temp { d.pubkey() } else { Pubkey::default() };
            x.fixed.temporary_delegate_expiry = exp;
        });
        let mut ix = crate::pt::TokenWithdrawInstruction { token_account: target, ..f.withdraw_ix(a, t, n, amount, false) };
        ix.allow_borrow = src.bool();
        // as the owner, and as the delegate
        let by_owner = f.fork();
        if !by_owner.ok(ix.clone()) {
            case.label("refused for the owner as well");
            continue;
        }
        if state_diff(&f.raw_state(), &by_owner.raw_state(), &[]).is_none() {
            case.label("nothing to withdraw");
            continue;
        }
        let closed = by_owner.acc(a).token_position(f.tokens[t].index).is_err();
        ix.owner = d.clone();
        let by_delegate = f.fork();
        let ok = by_delegate.ok(ix);
        let want = (perm || temp && exp >= now) && kind < 2 && closed;
        case.nontrivial();
        case.label(["into the owner's account", "into the owner's account", "into the owner's account that changed hands", "into another account of the owner", "into an account of the delegate", "into the delegate's own account"][kind as usize]);
        if want { case.label("delegate withdrew"); }
        case.note(|| format!("account {a} token {t} amount {amount} of {have} target {kind} delegate {how} closed {closed} -> {ok}"));
        ensure!(ok == want, "delegate (permanent {perm}, temporary {temp}, expires {exp}, now {now}) withdraws {amount} of {have} ({}) into target {kind}: accepted {ok}; {}", if closed { "closing the position" } else { "position stays" }, by_delegate.fail_text());
        if ok {
            ensure!(state_diff(&by_owner.raw_state(), &by_delegate.raw_state(), &[]).is_none(), "another effect than the owner's withdrawal");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "a mutated transaction (missing or foreign signature, delegate, foreign account) was replayed against a state on which the original succeeds",
        assumptions: &[
            "what the runtime guarantees about signatures and account ownership, as modelled by the simulator",
            "copies of banks and mango accounts within the same group cannot exist, so only copies claiming another group are used",
            "openbook v2 instructions are not executed (the dependency is a stand-in)",
        ],
        suites: vec![
            Suite { name: "signatures", quick: 20_000, thorough: 300_000, f: signatures },
            Suite { name: "delegates", quick: 20_000, thorough: 300_000, f: delegates },
            Suite { name: "withdrawals", quick: 6_000, thorough: 150_000, f: withdrawals },
            Suite { name: "accounts", quick: 12_000, thorough: 250_000, f: accounts },
        ],
    }
}
