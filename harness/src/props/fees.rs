//! C25: fees: who pays what, what the protocol may take out.
use super::admin::differ;
use crate::ensure;
use crate::model::*;
use crate::pbt::{Case, Prop, Src, Suite};
use crate::pt::*;
use crate::world::*;
use anchor_lang::{InstructionData, ToAccountMetas};
use fixed::types::I80F48;
use mango_v4::accounts as ma;
use mango_v4::instruction as mi;
use mango_v4::state::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "`collateral`: random accounts (spot, perp, spot orders), random fee rates and intervals, one to four consecutive charges at random times; the charge to each borrowed token, the protocol's income and the charge time are compared with an independent computation. `buyback`: random accrued fees, expiry, prices, protocol account and balances; refusal, nothing or the exact exchange is predicted. `admin`: sequences of fee and insurance withdrawals with changing vaults and fee totals; every account of the runtime is compared with the expected one. Non-trivial: fees were charged / exchanged / withdrawn, or a charge that was not due was checked",
        assumptions: &["f64 reference arithmetic; comparisons allow 1e-9 relative error plus rounding of the fixed-point format"],
        suites: vec![
            Suite { name: "collateral", quick: 12_000, thorough: 500_000, f: collateral },
            Suite { name: "buyback", quick: 60_000, thorough: 3_000_000, f: buyback },
            Suite { name: "admin", quick: 60_000, thorough: 3_000_000, f: admin },
        ],
    }
}

fn raw(a: impl ToAccountMetas, d: impl InstructionData) -> Instruction {
    Instruction { program_id: mango_v4::id(), accounts: a.to_account_metas(None), data: d.data() }
}
fn bits_of(x: &Bank) -> (I80F48, I80F48, I80F48, I80F48, u64) {
    (x.indexed_deposits, x.indexed_borrows, x.collected_fees_native, x.collected_collateral_fees, x.fees_withdrawn)
}

fn collateral(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = super::health::state(src, case, false)?;
    let w = &m.w;
    let a = 1 + src.idx(3);
    let n = src.idx(2);
    w.whale_liquidity();
    // size matters: fees are only charged above a certain amount of liabilities
    for t in 0..5 {
        if src.chance(45) {
            let x = src.flog(1e5, 1e11) / w.price(t);
            let x = if src.chance(40) { -x } else { x };
            w.grant(a, t, n, x);
        }
    }
    for t in 0..5 {
        let rate = match src.weighted(&[3, 6, 2, 1]) {
            0 => 0.0,
            1 => src.flog(1e-6, 1e-2) as f32,
            2 => src.flog(1e-2, 1.0) as f32,
            _ => -0.001,
        };
        let zero = src.chance(8);
        w.edit_token(t, |b| {
            b.collateral_fee_per_day = rate;
            if zero {
                b.maint_asset_weight = I80F48::ZERO;
                b.init_asset_weight = I80F48::ZERO;
            }
        });
    }
    let iv = src.pick(&[0u64, 60, 3600, 86_400, 86_400]);
    let iv = if iv == 3600 { 1 + src.log(200_000) } else { iv };
    w.edit_group(|g| g.collateral_fee_interval = iv);
    let now = w.now();
    let last = match src.weighted(&[2, 6, 2]) {
        0 => 0,
        1 => now - (iv * src.below(300) / 100).min(now - 1),
        _ => now - (iv + src.below(3)).min(now - 1) + 1,
    };
    w.edit_acc(a, |x| x.fixed.last_collateral_fee_charge = last);
    for _ in 0..1 + src.below(4) {
        let s = w.snap();
        let oos = w.oos(&s.accs[a]);
        let h = Health::of(&s, &s.accs[a], &oos, &|_| n);
        let last = s.accs[a].fixed.last_collateral_fee_charge;
        let now = s.now;
        // what should happen
        let mut charge = None;
        let mut want_last = last;
        if iv == 0 {
            want_last = 0;
        } else if last == 0 {
            want_last = now;
        } else if now >= last + iv {
            want_last = now;
            charge = Some((now - last).min(2 * iv));
        }
        let mut skip = false;
        let mut liabs = 0.0;
        let mut big = 0.0;
        {
            let mut add = |x: f64| {
                big += x.abs();
                if x < 0.0 {
                    liabs -= x
                }
            };
            for t in &h.toks {
                add(t.bal * t.oracle)
            }
            for p in &h.perps {
                let q = h.toks.iter().find(|x| x.idx == p.settle).unwrap().oracle;
                add(p.quote * q);
                add(p.lots as f64 * p.lot * p.oracle * q);
            }
        }
        let tol = h.tol() + big * 1e-12;
        if (liabs - 100e6).abs() <= tol {
            skip = true
        }
        let mut fee_in = [0.0f64; 5]; // by collateral token
        let mut fee_out = [0.0f64; 5]; // by borrowed token
        let mut slack = [1e-6f64; 5];
        let mut too_much = false;
        let (mut usd, mut usd_slack) = (0.0, 0.0);
        if let Some(secs) = charge.filter(|_| liabs >= 100e6) {
            let mut eff = h.effective(HT::Maint, false);
            for sp in &h.spots {
                eff[sp.base] += sp.res_base;
                eff[sp.quote] += sp.res_quote;
            }
            let c: Vec<f64> = h.toks.iter().zip(&eff).map(|(t, x)| t.contrib(HT::Maint, *x)).collect();
            let pos: f64 = c.iter().filter(|x| **x > 0.0).sum();
            let neg: f64 = -c.iter().filter(|x| **x < 0.0).sum::<f64>();
            if pos > 0.0 && neg > 0.0 {
                let usage = (neg / pos).min(1.0);
                let days = secs as f64 / 86400.0;
                // fixed-point rounding of the share, and of the time
                let rel = 1e-9 + 2.0 * tol / neg + 2.0 * tol / pos;
                for (t, x) in h.toks.iter().zip(&eff) {
                    let b = s.b(t.idx as usize, n);
                    let rate = b.collateral_fee_per_day as f64;
                    if rate <= 0.0 || b.maint_asset_weight.is_zero() {
                        continue;
                    }
                    if *x <= 0.0 {
                        continue;
                    }
                    let fee = x * usage * days * rate;
                    if fee > x * (1.0 - 1e-6) {
                        too_much = true
                    }
                    let i = t.idx as usize;
                    fee_in[i] = fee;
                    slack[i] = fee * rel + x * 1e-13 * (1.0 + rate) + tol * days * rate / t.oracle.min(1.0) + 1e-6;
                    usd += fee * t.oracle;
                    usd_slack += slack[i] * t.oracle.max(1e-9) + fee * 1e-14;
                }
                for (t, x) in h.toks.iter().zip(&c) {
                    let i = t.idx as usize;
                    if *x < 0.0 && s.accs[a].token_position(t.idx).is_ok() {
                        fee_out[i] = -x / neg * usd / t.oracle;
                    }
                    slack[i] += fee_out[i] * rel + usd_slack / t.oracle + usd * (1e-14 + tol / neg) / t.oracle;
                }
                // a usage share far from the decision boundary of `health >= 0`
            } else if pos.min(neg) < tol {
                skip = skip || (pos > 0.0) != (neg > 0.0) && pos.max(neg) < tol;
            }
        }
        let mut ix = TokenChargeCollateralFeesInstruction { account: w.accs[a].key }.to_instruction(&*w.s).1;
        for mt in ix.accounts.iter_mut() {
            for tok in &w.tokens {
                if n == 1 && mt.pubkey == tok.bank {
                    mt.pubkey = tok.bank1;
                }
            }
        }
        let before = w.raw_state();
        let ok = w.ok_raw(ix, &[]);
        case.note(|| format!("charge account {a} at {now} (last {last}, interval {iv}): {}", if ok { "ok".into() } else { w.fail_text() }));
        if skip {
            return Ok(());
        }
        if !ok {
            ensure!(too_much, "charging account {a} failed: {}", w.fail_text());
            let after = w.raw_state();
            ensure!(w.accs.iter().all(|x| before[&x.key].data == after[&x.key].data), "a failed charge changed an account");
            case.label("fee above the balance");
            return Ok(());
        }
        let e = w.snap();
        ensure!(e.accs[a].fixed.last_collateral_fee_charge == want_last,
            "charge time {} expected {want_last} (last {last}, interval {iv}, now {now})", e.accs[a].fixed.last_collateral_fee_charge);
        for x in 0..N_ACC {
            if x != a {
                ensure!(before[&w.accs[x].key].data == w.raw_state()[&w.accs[x].key].data, "charging account {a} changed account {x}");
            }
        }
        for t in 0..5 {
            ensure!(e.v(t, 0) == s.v(t, 0) && e.v(t, 1) == s.v(t, 1), "a vault of token {t} changed");
            ensure!(bits_of(e.b(t, 1 - n)) == bits_of(s.b(t, 1 - n)), "the other bank of token {t} changed");
            let (b0, b1) = (s.b(t, n), e.b(t, n));
            let col = f(b1.collected_collateral_fees - b0.collected_collateral_fees);
            let inc = f(b1.collected_fees_native - b0.collected_fees_native);
            let p = |s: &Snap| match s.accs[a].token_position(t as u16) {
                Ok(x) => native(x.indexed_position, s.b(t, n)),
                Err(_) => I80F48::ZERO,
            };
            let paid = f(p(&s) - p(&e));
            let sl = slack[t];
            ensure!((col - fee_in[t]).abs() <= sl, "collateral token {t}: fee base recorded {col}, expected {} (slack {sl})", fee_in[t]);
            ensure!((inc - fee_out[t]).abs() <= sl, "token {t}: protocol income {inc}, expected {} (slack {sl}, charge {charge:?})", fee_out[t]);
            let gone = e.accs[a].token_position(t as u16).is_err();
            ensure!((paid - fee_out[t]).abs() <= sl + f(p(&s)).abs() * 1e-12 + if gone { 1.0 } else { 0.0 },
                "token {t}: account paid {paid}, expected {} (slack {sl})", fee_out[t]);
            // nobody is charged in a token that is not owed
            if charge.is_none() || liabs < 100e6 {
                ensure!(bits_of(b0) == bits_of(b1) && p(&s) == p(&e), "token {t} changed without a charge due");
            }
            // income is backed by what was taken
            ensure!((paid - inc).abs() <= 1e-6 + 1e-12 * f(p(&s)).abs() + if gone { 1.0 } else { 0.0 }, "token {t}: paid {paid}, protocol got {inc}");
        }
        if e.accs[a].perp_iter_count() != s.accs[a].perp_iter_count() {
            return Err("perp positions changed".into());
        }
        if charge.is_some() {
            if usd > 1.0 {
                case.nontrivial();
                case.label("charged");
                if charge == Some(2 * iv) {
                    case.label("capped time");
                }
                if fee_out.iter().filter(|x| **x > 0.0).count() > 1 {
                    case.label("several borrows");
                }
                if h.spots.iter().any(|x| x.res_base + x.res_quote > 0.0) {
                    case.label("spot orders");
                }
                if h.perps.iter().any(|x| x.lots != 0) {
                    case.label("perps");
                }
            }
            if liabs < 100e6 {
                case.label("small liabilities");
            }
        } else if iv != 0 {
            case.label("not due");
            case.nontrivial();
        } else {
            case.label("switched off");
        }
        let step = iv * src.below(260) / 100 + src.below(2);
        w.advance(step);
        if src.chance(10) {
            w.advance(iv.saturating_sub(1));
        }
    }
    Ok(())
}

trait Extra {
    fn perp_iter_count(&self) -> Vec<(u16, i64, i128)>;
}
impl Extra for MangoAccountValue {
    fn perp_iter_count(&self) -> Vec<(u16, i64, i128)> {
        self.active_perp_positions().map(|p| (p.market_index, p.base_position_lots, p.quote_position_native.to_bits())).collect()
    }
}

fn buyback(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.random_bank_config(src);
    w.whale_liquidity();
    let mngo = 1 + src.idx(4);
    let (user, dao) = (1usize, if src.chance(4) { 1usize } else { 3 });
    let bonus = src.pick(&[1.0f32, 1.2, 0.5, 1.05, 3.0]);
    let iv = src.pick(&[0u64, 1, 1000, 86_400, 2_592_000]);
    let on = !src.chance(5);
    w.edit_group(|g| {
        g.buyback_fees = on as u8;
        g.buyback_fees_mngo_bonus_factor = bonus;
        g.buyback_fees_swap_mango_account = w.accs[dao].key;
        g.mngo_token_index = mngo as u16;
        g.buyback_fees_expiry_interval = iv;
    });
    for t in [0, mngo] {
        let p = w.price(t) * src.flog(0.3, 3.0);
        w.set_price(t, p, Some(p * src.pick(&[0.5, 0.9, 1.0, 1.1, 2.0])));
    }
    let (nm, nf) = (src.idx(2), src.idx(2));
    // the user's and the protocol account's balances
    let amt = |src: &mut Src, neg: u64| -> Option<f64> {
        match src.weighted(&[10, neg, 2, 2]) {
            0 => Some(src.flog(1.0, 1e9) + src.f(0.0, 1.0)),
            1 => Some(-src.flog(1.0, 1e6)),
            2 => Some(0.0),
            _ => None,
        }
    };
    if let Some(x) = amt(src, 2) { w.grant(user, mngo, nm, x / w.price(mngo)); }
    if let Some(x) = amt(src, 5) { w.grant(user, 0, nf, x); }
    let dm = if src.chance(70) { None } else { amt(src, 3) };
    if let Some(x) = dm { w.grant(dao, mngo, nm, x / w.price(mngo)); }
    if let Some(x) = amt(src, 1) { w.grant(dao, 0, nf, x); }
    if src.chance(6) {
        // a liability elsewhere
        let t = (1..5).find(|t| *t != mngo).unwrap();
        let x = src.pick(&[-5.0, 7.0]);
        w.grant(dao, t, 0, x);
    }
    let extra = src.below(12);
    if extra == 0 {
        w.grant_perp(0, dao, 4, 1, num(100));
    } else if extra == 1 {
        let who = w.accs[dao];
        w.ok(Serum3CreateOpenOrdersInstruction { account: who.key, serum_market: w.spots[0].market, owner: who.owner, payer: w.users[3].key });
    }
    w.advance(src.log(10_000_000));
    let now = w.now();
    let amounts = |src: &mut Src| match src.weighted(&[3, 8, 1]) {
        0 => 0,
        1 => src.log(1 << 31),
        _ => u64::MAX - src.below(3),
    };
    let (cur, prev) = (amounts(src), amounts(src));
    let expiry = match src.weighted(&[3, 3, 3, 1]) {
        0 => now + src.log(1_000_000),
        1 => now - src.below(iv.max(1)).min(now),
        2 => now.saturating_sub(src.log(10_000_000)),
        _ => 0,
    };
    w.edit_acc(user, |a| {
        a.fixed.buyback_fees_accrued_current = cur;
        a.fixed.buyback_fees_accrued_previous = prev;
        a.fixed.buyback_fees_expiry_timestamp = expiry;
    });
    for _ in 0..1 + src.below(3) {
        let s = w.snap();
        let now = s.now;
        let max = match src.weighted(&[4, 6]) {
            0 => u64::MAX,
            _ => src.log(1 << 31),
        };
        let fx = &s.accs[user].fixed;
        // expiry of accrued fees: they are usable in the interval they were made in and the next
        let (mut cur, mut prev, mut exp) = (fx.buyback_fees_accrued_current, fx.buyback_fees_accrued_previous, fx.buyback_fees_expiry_timestamp);
        if iv != 0 && now >= exp {
            prev = if now - exp < iv { cur } else { 0 };
            cur = 0;
            exp = now - now % iv + iv;
        }
        let pos = |s: &Snap, a: usize, t: usize, n: usize| match s.accs[a].token_position(t as u16) {
            Ok(x) => native(x.indexed_position, s.b(t, n)),
            Err(_) => I80F48::ZERO,
        };
        let bm = s.b(mngo, nm);
        let bf = s.b(0, nf);
        let (pm, pf) = (s.tok_price[mngo].min(f(bm.stable_price())), s.tok_price[0].max(f(bf.stable_price())));
        let unit = pm * bonus as f64;
        let accrued = cur.saturating_add(prev);
        let (um, df) = (f(pos(&s, user, mngo, nm)), f(pos(&s, dao, 0, nf)));
        let usd0 = (max.min(accrued) as f64).min(df * pf);
        let refuse = if !on {
            Some("switched off")
        } else if dao == user {
            Some("the protocol's own account")
        } else {
            None
        };
        let nothing = usd0 <= 0.0 || um <= 0.0;
        let (usd, mg) = if nothing { (0.0, 0.0) } else {
            let m = (usd0 / unit).min(um);
            (usd0.min(m * unit), m)
        };
        let fees = usd / pf;
        let refuse = refuse.or_else(|| {
            if nothing { return None }
            if s.accs[dao].token_position(mngo as u16).map(|p| p.indexed_position < I80F48::ZERO).unwrap_or(false) { return Some("protocol account owes the token") }
            if s.accs[dao].active_token_positions().any(|p| p.indexed_position < I80F48::ZERO) { return Some("protocol account has debts") }
            if s.accs[dao].active_perp_positions().count() > 0 { return Some("protocol account has perps") }
            if s.accs[dao].active_serum3_orders().count() > 0 { return Some("protocol account has spot orders") }
            None
        });
        let g = w.group_state();
        let ix = raw(
            ma::AccountBuybackFeesWithMngo {
                group: w.group,
                owner: w.accs[user].owner.pubkey(),
                account: w.accs[user].key,
                dao_account: g.buyback_fees_swap_mango_account,
                mngo_bank: w.bank_key(mngo, nm),
                mngo_oracle: w.tokens[mngo].oracle,
                fees_bank: w.bank_key(0, nf),
                fees_oracle: w.tokens[0].oracle,
            },
            mi::AccountBuybackFeesWithMngo { max_buyback_usd: max },
        );
        let before = w.raw_state();
        let ok = w.ok_raw(ix, &[w.accs[user].owner]);
        case.note(|| format!("buy back at most {max} of {cur}+{prev}: protocol fees {df}, owns {um} of token {mngo} at {unit}, fee price {pf}: {} ({refuse:?})", if ok { "ok".into() } else { w.fail_text() }));
        if !ok {
            // an exchange below the resolution of the numbers may be refused as well
            ensure!(refuse.is_some(), "refused: {}", w.fail_text());
            let after = w.raw_state();
            ensure!(w.accs.iter().all(|x| before[&x.key].data == after[&x.key].data), "a refused exchange changed an account");
            case.label(refuse.unwrap());
            case.nontrivial();
            return Ok(());
        }
        ensure!(refuse.is_none(), "accepted although {refuse:?}");
        let e = w.snap();
        let fx = &e.accs[user].fixed;
        let used = (usd + 1e-6 + usd * 1e-12).ceil();
        let left = fx.buyback_fees_accrued_current as u128 + fx.buyback_fees_accrued_previous as u128;
        let had = cur as u128 + prev as u128;
        ensure!(fx.buyback_fees_expiry_timestamp == exp, "expiry {} expected {exp}", fx.buyback_fees_expiry_timestamp);
        ensure!(left <= had, "accrued fees grew");
        let took = (had - left) as f64;
        if usd == 0.0 {
            ensure!(took == 0.0 && fx.buyback_fees_accrued_current == cur, "accrued {cur}+{prev} -> {}+{}", fx.buyback_fees_accrued_current, fx.buyback_fees_accrued_previous);
        }
        ensure!(took <= used && took >= usd - 1e-6 - usd * 1e-12, "accrued fees used {took}, exchanged {usd}");
        // older ones first
        ensure!(fx.buyback_fees_accrued_previous == 0 || fx.buyback_fees_accrued_current == cur, "current fees used before older ones");
        for (what, a, t, n, d) in [
            ("user token", user, mngo, nm, -mg),
            ("user fees", user, 0, nf, fees),
            ("protocol token", dao, mngo, nm, mg),
            ("protocol fees", dao, 0, nf, -fees),
        ] {
            let got = f(pos(&e, a, t, n) - pos(&s, a, t, n));
            let scale = f(pos(&s, a, t, n)).abs() + d.abs();
            let gone = e.accs[a].token_position(t as u16).is_err();
            ensure!(close(got, d, 1e-9, 1e-6 + scale * 1e-12 + if gone { 1.0 } else { 0.0 } + 1e-12 / unit), "{what}: changed by {got}, expected {d}");
        }
        for t in 0..5 {
            ensure!(e.v(t, 0) == s.v(t, 0) && e.v(t, 1) == s.v(t, 1), "a vault of token {t} changed");
            for x in [user, dao] {
                if t != 0 && t != mngo {
                    ensure!(s.posx(x, t) == e.posx(x, t), "token {t} of account {x} changed");
                }
            }
        }
        for x in 0..N_ACC {
            if x != user && x != dao {
                ensure!(before[&w.accs[x].key].data == w.raw_state()[&w.accs[x].key].data, "account {x} changed");
            }
        }
        if usd > 0.0 {
            case.nontrivial();
            case.label(if mg >= um { "all of the user's token" } else if df * pf <= usd * (1.0 + 1e-9) { "all of the protocol's fees" } else if max < accrued { "as much as asked" } else { "all accrued" });
        } else {
            case.label("nothing");
        }
        if iv != 0 && src.bool() {
            w.advance(iv * src.below(250) / 100);
        }
        if src.bool() {
            let x = src.log(1 << 20);
            w.edit_acc(user, |a| a.fixed.accrue_buyback_fees(x));
        }
    }
    Ok(())
}

fn admin(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.random_bank_config(src);
    let mut ins_tok = 0usize;
    for _ in 0..1 + src.below(8) {
        let k = src.below(4);
        let (t, n, p) = (src.idx(5), src.idx(2), src.idx(2));
        let amount = |src: &mut Src| match src.weighted(&[2, 8]) {
            0 => 0,
            _ => src.log(1 << 40),
        };
        let fee = I80F48::from_num(src.flog(1e-3, 1e9)) * num(if src.chance(10) { 0 } else { 1 });
        let done = src.below(f(fee).floor() as u64 + 2);
        let vault = amount(src);
        let dest_tok = if src.chance(15) { src.idx(5) } else { usize::MAX };
        let user = src.idx(3);
        let ask = if src.chance(10) { u64::MAX } else { amount(src) };
        let nt = src.idx(5);
        let tok = match k {
            0 => t,
            1 => w.perp(p).settle_token_index as usize,
            _ => ins_tok,
        };
        let dest = w.user_token(user, if dest_tok == usize::MAX { tok } else { dest_tok });
        let right_mint = dest_tok == usize::MAX || dest_tok == tok;
        let g = w.group_state();
        let (bank, vault_key) = (w.bank_key(tok, n), w.bank(w.bank_key(tok, n)).vault);
        if src.chance(70) {
            match k {
                0 => {
                    w.set_vault(vault_key, vault);
                    w.edit_bank(bank, |b| { b.collected_fees_native = fee; b.fees_withdrawn = done });
                }
                1 => {
                    w.set_vault(vault_key, vault);
                    w.edit_perp(p, |m| { m.fees_settled = fee; m.fees_withdrawn = done; m.fees_accrued += num(7) });
                }
                _ => w.set_vault(g.insurance_vault, vault),
            }
        }
        let exp = w.fork();
        let (from, ix, pay, want) = match k {
            0 => {
                let b = w.bank(bank);
                let left = (b.collected_fees_native.floor().to_num::<u64>()).checked_sub(b.fees_withdrawn);
                let x = left.map(|l| l.min(w.s.token_account_balance(vault_key)));
                exp.edit_bank(bank, |b| b.fees_withdrawn += x.unwrap_or(0));
                let ix = raw(
                    ma::AdminTokenWithdrawFees { group: w.group, bank, vault: vault_key, token_account: dest, token_program: spl_token::id(), admin: w.admin.pubkey() },
                    mi::AdminTokenWithdrawFees {},
                );
                (vault_key, ix, x, "token fees")
            }
            1 => {
                let m = w.perp(p);
                let left = (m.fees_settled.floor().to_num::<u64>()).checked_sub(m.fees_withdrawn);
                let x = left.map(|l| l.min(w.s.token_account_balance(vault_key)));
                exp.edit_perp(p, |m| m.fees_withdrawn += x.unwrap_or(0));
                let ix = raw(
                    ma::AdminPerpWithdrawFees { group: w.group, perp_market: w.perps[p].key, bank, vault: vault_key, token_account: dest, token_program: spl_token::id(), admin: w.admin.pubkey() },
                    mi::AdminPerpWithdrawFees {},
                );
                (vault_key, ix, x, "perp fees")
            }
            2 => {
                let x = ask.min(w.s.token_account_balance(g.insurance_vault));
                let ix = raw(
                    ma::GroupWithdrawInsuranceFund { group: w.group, admin: w.admin.pubkey(), insurance_vault: g.insurance_vault, destination: dest, token_program: spl_token::id() },
                    mi::GroupWithdrawInsuranceFund { amount: ask },
                );
                (g.insurance_vault, ix, Some(x), "insurance fund")
            }
            _ => {
                let new_mint = w.tokens[nt].mint.pubkey;
                let new_vault = Pubkey::find_program_address(&[b"InsuranceVault", w.group.as_ref(), new_mint.as_ref()], &mango_v4::id()).0;
                let ix = GroupChangeInsuranceFund {
                    group: w.group,
                    admin: w.admin,
                    payer: w.users[3].key,
                    insurance_mint: new_mint,
                    withdraw_destination: dest,
                }.to_instruction(&*w.s).1;
                // the new vault must not exist yet
                let free = !w.s.sim.borrow().accounts.contains_key(&new_vault);
                w.put_wallet(w.users[3].key.pubkey());
                exp.put_wallet(w.users[3].key.pubkey());
                let x = w.s.token_account_balance(g.insurance_vault);
                let ok = w.ok_raw(ix, &[w.admin, w.users[3].key]);
                case.note(|| format!("insurance fund of {x} of token {ins_tok} to a new one in token {nt}: {}", if ok { "ok".into() } else { w.fail_text() }));
                ensure!(ok == (free && right_mint), "change insurance fund: {} (new vault free: {free}, right mint {right_mint})", w.fail_text());
                if ok {
                    let d = exp.s.token_account_balance(dest);
                    exp.set_vault(dest, d + x);
                    exp.edit_group(|g| { g.insurance_vault = new_vault; g.insurance_mint = new_mint });
                    ensure!(!w.s.sim.borrow().accounts.contains_key(&g.insurance_vault) || w.s.sim.borrow().get(&g.insurance_vault).unwrap().lamports == 0, "the old insurance vault is left over");
                    let v = w.s.sim.borrow().get(&new_vault).unwrap().clone();
                    ensure!(v.owner == spl_token::id(), "new vault is no token account");
                    let st = <spl_token::state::Account as solana_program::program_pack::Pack>::unpack(&v.data).map_err(|e| format!("{e:?}"))?;
                    ensure!(st.mint == new_mint && st.owner == w.group && st.amount == 0 && st.close_authority.is_none() && st.delegate.is_none(), "new insurance vault {st:?}");
                    exp.s.sim.borrow_mut().set(new_vault, v);
                    exp.s.sim.borrow_mut().accounts.remove(&g.insurance_vault);
                    w.s.sim.borrow_mut().accounts.remove(&g.insurance_vault);
                    ins_tok = nt;
                    case.nontrivial();
                    case.label("fund changed");
                } else {
                    case.label("fund not changed");
                }
                if let Some(d) = differ(&w, &exp) {
                    return Err(format!("change of the insurance fund: {d}"));
                }
                continue;
            }
        };
        let ok = w.ok_raw(ix, &[w.admin]);
        case.note(|| format!("{want}: expect {pay:?}, right mint {right_mint}: {}", if ok { "ok".into() } else { w.fail_text() }));
        let can = pay.is_some() && right_mint;
        ensure!(ok == can, "withdrawal of {want}: {} (expected {pay:?}, right mint {right_mint})", w.fail_text());
        if !can {
            case.label("refused");
            continue;
        }
        let x = pay.unwrap();
        if from != dest {
            let (a, b) = (exp.s.token_account_balance(from), exp.s.token_account_balance(dest));
            exp.set_vault(from, a - x);
            exp.set_vault(dest, b + x);
        }
        if let Some(d) = differ(&w, &exp) {
            return Err(format!("withdrawal of {want} ({x}): {d}"));
        }
        case.label(want);
        if x > 0 {
            case.nontrivial();
        }
    }
    Ok(())
}
