//! C24: the margin-trade program: lends on and pays back exactly what it is told, with its own
//! signature only.
use super::admin::differ;
use crate::ensure;
use crate::pbt::{Case, Prop, Src, Suite};
use crate::pt::*;
use crate::sim::Acc;
use crate::world::*;
use anchor_lang::{InstructionData, ToAccountMetas};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use spl_token::state::{Account, AccountState};

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "one to three calls with random token accounts (two mints, owned by wallets, by addresses of this program with this and other seeds, by other programs' addresses; frozen, approved to delegates, the same account twice, no token account), authorities, signatures, bumps and amounts around the balances; acceptance and the whole resulting state are predicted from the token program's transfer rules. Non-trivial: tokens moved, or the call had to be refused for its authority",
        assumptions: &["the spl-token program is the real one"],
        suites: vec![Suite { name: "calls", quick: 400_000, thorough: 20_000_000, f: calls }],
    }
}

struct Env {
    w: World,
    program: Pubkey,
    keys: Vec<Pubkey>,
    /// (address, seeds bump if it is an address of the program)
    owners: Vec<(Pubkey, Option<u8>)>,
    wallets: Vec<TestKeypair>,
}

fn tok(w: &World, k: Pubkey) -> Option<Account> {
    let s = w.s.sim.borrow();
    let a = s.get(&k)?;
    if a.owner != spl_token::id() || a.data.len() != Account::LEN {
        return None;
    }
    Account::unpack(&a.data).ok()
}
fn put(w: &World, k: Pubkey, a: &Account) {
    // (a delegate that is used up leaves its key behind, as it does on chain)
    let mut data = w.s.sim.borrow().get(&k).map(|a| a.data.clone()).filter(|d| d.len() == Account::LEN).unwrap_or(vec![0; Account::LEN]);
    a.pack_into_slice(&mut data);
    w.s.sim.borrow_mut().set(k, Acc { lamports: 2_039_280, data, owner: spl_token::id(), executable: false });
}

/// the token program's rules
fn transfer(w: &World, from: Pubkey, to: Pubkey, auth: Pubkey, signed: bool, amount: u64) -> Result<(), &'static str> {
    let (mut a, b) = (tok(w, from).ok_or("no token account")?, tok(w, to).ok_or("no token account")?);
    if a.state == AccountState::Frozen || b.state == AccountState::Frozen {
        return Err("frozen");
    }
    if a.amount < amount {
        return Err("too little");
    }
    if a.mint != b.mint {
        return Err("other mint");
    }
    if a.delegate == COption::Some(auth) {
        if !signed {
            return Err("no signature");
        }
        if a.delegated_amount < amount {
            return Err("approved too little");
        }
        if from != to {
            a.delegated_amount -= amount;
            if a.delegated_amount == 0 {
                a.delegate = COption::None;
            }
        }
    } else {
        if a.owner != auth {
            return Err("wrong authority");
        }
        if !signed {
            return Err("no signature");
        }
    }
    if from == to {
        return Ok(());
    }
    a.amount -= amount;
    put(w, from, &a);
    let mut b = tok(w, to).unwrap();
    b.amount = b.amount.checked_add(amount).ok_or("overflow")?;
    put(w, to, &b);
    Ok(())
}

fn env(src: &mut Src) -> Env {
    let w = World::new();
    let program = margin_trade::ID;
    w.s.sim.borrow_mut().add_program(program, |p, a, d| margin_trade::entry(p, a, d));
    let seed: &[u8] = b"MarginTrade";
    let (pda, bump) = Pubkey::find_program_address(&[seed], &program);
    let mut owners = vec![(pda, Some(bump))];
    // addresses of the program under other bumps and other seeds
    for b in (0..bump).rev() {
        if let Ok(k) = Pubkey::create_program_address(&[seed, &[b]], &program) {
            owners.push((k, Some(b)));
            if owners.len() == 3 {
                break;
            }
        }
    }
    owners.push((Pubkey::find_program_address(&[b"marginTrade"], &program).0, None));
    owners.push((Pubkey::find_program_address(&[seed, b"x"], &program).0, None));
    owners.push((Pubkey::find_program_address(&[seed], &mango_v4::id()).0, None));
    let wallets = vec![w.users[0].key, w.users[1].key];
    for u in &wallets {
        owners.push((u.pubkey(), None));
    }
    let mut keys = vec![];
    for _ in 0..5 {
        let k = w.s.sim.borrow_mut().new_key();
        let owner = owners[src.weighted(&[6, 1, 1, 1, 1, 1, 6, 3])].0;
        let mint = w.tokens[src.weighted(&[8, 2])].mint.pubkey;
        let amount = match src.weighted(&[1, 8, 1]) {
            0 => 0,
            1 => src.log(1 << 40),
            _ => u64::MAX - src.below(1000),
        };
        let delegate = if src.chance(25) { COption::Some(owners[src.weighted(&[3, 1, 1, 1, 1, 1, 3, 3])].0) } else { COption::None };
        let delegated_amount = if delegate.is_some() { src.log(1 << 40) } else { 0 };
        let state = if src.chance(5) { AccountState::Frozen } else { AccountState::Initialized };
        put(&w, k, &Account { mint, owner, amount, delegate, delegated_amount, state, ..Default::default() });
        keys.push(k);
    }
    keys.push(w.tokens[0].mint.pubkey);
    keys.push(w.accs[1].key);
    Env { w, program, keys, owners, wallets }
}

fn calls(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let e = env(src);
    let w = &e.w;
    for _ in 0..1 + src.below(3) {
        let pick = |src: &mut Src| e.keys[src.weighted(&[20, 20, 20, 20, 20, 1, 1])];
        let (from, to) = (pick(src), pick(src));
        let holder = |k: Pubkey| tok(w, k).map(|a| a.owner);
        let auth = |src: &mut Src, k: Pubkey| match holder(k) {
            Some(o) if !src.chance(20) => o,
            _ => e.owners[src.idx(e.owners.len())].0,
        };
        let fa = auth(src, from);
        let ta = auth(src, to);
        let amount = |src: &mut Src, k: Pubkey| {
            let have = tok(w, k).map(|a| a.amount).unwrap_or(5);
            match src.weighted(&[2, 6, 2, 1]) {
                0 => 0,
                1 => src.log(have),
                2 => have.wrapping_add(src.below(3)).wrapping_sub(1),
                _ => src.log(u64::MAX),
            }
        };
        let x = amount(src, from);
        let y = if src.chance(30) { x } else { amount(src, to) };
        let bump = match e.owners.iter().find(|o| o.0 == ta).and_then(|o| o.1) {
            Some(b) if !src.chance(15) => b,
            _ => src.pick(&[e.owners[0].1.unwrap(), e.owners[1].1.unwrap(), e.owners[0].1.unwrap() - 1, 0, 255]),
        };
        let is_wallet = |k: Pubkey| e.wallets.iter().any(|u| u.pubkey() == k);
        let (sf, st) = (is_wallet(fa) && !src.chance(15), is_wallet(ta) && src.bool());
        let mut ix = Instruction {
            program_id: e.program,
            accounts: margin_trade::accounts::MarginTradeCtx {
                withdraw_account_owner: fa,
                withdraw_account: from,
                deposit_account: to,
                deposit_account_owner: ta,
                token_program: spl_token::id(),
            }
            .to_account_metas(None),
            data: margin_trade::instruction::MarginTrade { amount_from: x, deposit_account_owner_bump_seeds: bump, amount_to: y }.data(),
        };
        let mut sign = vec![];
        for m in ix.accounts.iter_mut() {
            if (m.pubkey == fa && sf) || (m.pubkey == ta && st) {
                m.is_signer = true;
                sign.push(*e.wallets.iter().find(|u| u.pubkey() == m.pubkey).unwrap());
            }
        }
        let mut spoiled = None;
        if src.chance(4) {
            match src.below(3) {
                0 => {
                    ix.accounts[4] = AccountMeta::new_readonly(e.program, false);
                    spoiled = Some("another token program");
                }
                1 => {
                    ix.accounts[1].is_writable = false;
                    if from != to { spoiled = Some("read only") } else { ix.accounts[2].is_writable = false; spoiled = Some("read only") }
                }
                _ => {
                    ix.accounts[2].is_writable = false;
                    if from != to { spoiled = Some("read only") } else { ix.accounts[1].is_writable = false; spoiled = Some("read only") }
                }
            }
        }
        let exp = w.fork();
        let signed = |k: Pubkey| sign.iter().any(|s| s.pubkey() == k);
        let want = (|| {
            if let Some(s) = spoiled {
                return Err(s);
            }
            tok(&exp, from).ok_or("no token account")?;
            tok(&exp, to).ok_or("no token account")?;
            if x > 0 {
                transfer(&exp, from, to, fa, signed(fa), x)?;
            }
            let own = Pubkey::create_program_address(&[b"MarginTrade", &[bump]], &e.program).map_err(|_| "no such address")?;
            transfer(&exp, to, from, ta, signed(ta) || ta == own, y)
        })();
        let before = w.fork();
        let ok = w.ok_raw(ix, &sign);
        let describe = |k: Pubkey| match tok(&before, k) {
            Some(a) => format!("{} of mint {}{}{}", a.amount, a.mint, if a.state == AccountState::Frozen { " frozen" } else { "" }, if a.delegate.is_some() { format!(" {} approved", a.delegated_amount) } else { String::new() }),
            None => "no token account".into(),
        };
        case.note(|| format!("{x} from ({}) signed {sf}, then {y} back from ({}) bump {bump} (address of the program: {}): {} ({want:?})", describe(from), describe(to), e.owners.iter().any(|o| o.0 == ta && o.1.is_some()), if ok { "ok".into() } else { w.fail_text() }));
        match want {
            Ok(()) => {
                ensure!(ok, "refused: {}", w.fail_text());
                if let Some(d) = differ(w, &exp) {
                    return Err(format!("after lending on {x} and paying back {y}: {d}"));
                }
                if x > 0 || y > 0 {
                    case.nontrivial();
                }
                case.label("moved");
            }
            Err(why) => {
                ensure!(!ok, "accepted in spite of: {why}");
                if let Some(d) = differ(w, &before) {
                    return Err(format!("a refused call changed something: {d}"));
                }
                if matches!(why, "wrong authority" | "no signature") {
                    case.nontrivial();
                }
                case.label(why);
            }
        }
    }
    Ok(())
}
