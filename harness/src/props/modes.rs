//! C19: disabled instructions, frozen accounts, and the restricted modes of tokens and markets.
use crate::ensure;
use crate::machine::{Machine, ALL, K};
use crate::pbt::{Case, Prop, Src, Suite};
use crate::props::access::is_mango_account;
use crate::props::gates::is_err;
use crate::pt::*;
use crate::sim::Acc;
use crate::txgen::*;
use crate::world::*;
use anchor_lang::InstructionData;
use mango_v4::error::MangoError;
use mango_v4::state::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "`gates`: transactions of every instruction that succeed, repeated with exactly their instruction disabled (must be refused as disabled) and with everything else disabled (must succeed). `frozen`: the same transactions with any account they touch frozen until now, later, or just before now. `gate_set`: random old and new masks by every role. `reduce_only`: perp orders of all kinds with random positions and open orders while the order or the market is reduce-only, exposure compared with the worst case before. `force`: force-close, force-withdraw and force-cancel with and without their flag. Non-trivial: a repetition was judged or a reduce-only order was placed",
        assumptions: &["openbook v2 instructions are not executed (the dependency is a stand-in)"],
        suites: vec![
            Suite { name: "gates", quick: 20_000, thorough: 300_000, f: gates },
            Suite { name: "frozen", quick: 20_000, thorough: 300_000, f: frozen },
            Suite { name: "gate_set", quick: 10_000, thorough: 200_000, f: gate_set },
            Suite { name: "reduce_only", quick: 20_000, thorough: 400_000, f: reduce_only },
            Suite { name: "force", quick: 10_000, thorough: 200_000, f: force },
        ],
    }
}

fn group_keys(w: &World, ixs: &[Instruction]) -> BTreeSet<Pubkey> {
    let s = w.s.sim.borrow();
    ixs.iter()
        .flat_map(|i| i.accounts.iter())
        .map(|m| m.pubkey)
        .filter(|k| s.get(k).map(super::access::is_type::<Group>).unwrap_or(false))
        .collect()
}

fn set_gates(w: &World, keys: &BTreeSet<Pubkey>, gate: u128) {
    for k in keys {
        let mut g = w.s.get_account::<Group>(*k);
        g.ix_gate = gate;
        w.s.set_account(*k, &g);
    }
}

fn gates(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = start(src);
    for _ in 0..4 {
        let Some(tx) = gen(src, &m) else { continue };
        case.note(|| format!("{} {:?}", tx.what, tx.names()));
        let keys = group_keys(&tx.base, &tx.ixs);
        let mut need = 0u128;
        for ix in &tx.ixs {
            let Some((name, gate)) = ident(ix) else { continue };
            case.label(name);
            if let Some(b) = gate {
                need |= 1 << b;
            }
            let bits: Vec<u128> = match name {
                // the first version is the same as the second where that is available
                "serum3_place_order" => vec![1 << 33 | 1 << 71],
                _ => gate.iter().map(|b| 1u128 << b).collect(),
            };
            for b in bits {
                let f = tx.base.fork();
                set_gates(&f, &keys, b);
                let before = f.raw_state();
                let ok = f.replay(&tx.ixs, &tx.signers);
                case.nontrivial();
                ensure!(!ok, "{name} works while disabled: {}", tx.what);
                ensure!(is_err(&f.fail_text(), MangoError::IxIsDisabled), "disabled {name} fails with {}", f.fail_text());
                ensure!(before == f.raw_state(), "failed {name} left changes");
            }
        }
        if tx.names().contains(&"ix_gate_set") {
            continue;
        }
        let variants: Vec<u128> = if need & (1 << 33 | 1 << 71) != 0 {
            if tx.names().contains(&"serum3_place_order") {
                vec![!(1u128 << 33), !(1 << 71)]
            } else {
                vec![!(1u128 << 71)]
            }
        } else {
            vec![!need, !need & ((1 << 76) - 1), 0]
        };
        for g in variants {
            let f = tx.base.fork();
            set_gates(&f, &keys, g);
            ensure!(f.replay(&tx.ixs, &tx.signers), "{:?} refused although only others are disabled (gate {g:#x}): {}", tx.names(), f.fail_text());
            case.nontrivial();
        }
    }
    Ok(())
}

/// Allowed on frozen accounts.
const FROZEN_OK: [&str; 6] = [
    "perp_consume_events",
    "perp_liq_force_cancel_orders",
    "serum3_liq_force_cancel_orders",
    "account_size_migration",
    "compute_account_data",
    "account_toggle_freeze",
];

fn frozen(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = start(src);
    for _ in 0..4 {
        let Some(tx) = gen(src, &m) else { continue };
        case.note(|| format!("{} {:?}", tx.what, tx.names()));
        let w = &tx.base;
        let now = w.now();
        let mut targets: BTreeSet<(Pubkey, &str, bool)> = BTreeSet::new();
        for ix in &tx.ixs {
            let Some((name, _)) = ident(ix) else { continue };
            for meta in &ix.accounts {
                let a: Option<Acc> = w.s.sim.borrow().get(&meta.pubkey).cloned();
                if a.map(|a| is_mango_account(&a)).unwrap_or(false) {
                    targets.insert((meta.pubkey, name, FROZEN_OK.contains(&name)));
                }
            }
        }
        for (k, name, fine) in &targets {
            case.label(name);
            // other instructions of the transaction decide too
            let fine = *fine && targets.iter().all(|t| t.0 != *k || t.2);
            for until in [now, now + 1, now + 7 * 86400, now - 1, now - 1000] {
                let f = w.fork();
                let a = f.s.get_account_data(*k).unwrap();
                let Ok(mut v) = MangoAccountValue::from_bytes(&a[8..]) else { continue };
                v.fixed.frozen_until = until;
                f.put_acc(*k, &v);
                let ok = f.replay(&tx.ixs, &tx.signers);
                case.nontrivial();
                if until < now || fine {
                    if *name == "perp_liq_force_cancel_orders" && is_err(&f.fail_text(), MangoError::PerpPositionDoesNotExist) {
                        continue; // nothing to cancel
                    }
                    ensure!(ok, "{name} refused on an account {} (until {until}, now {now}): {}", if until < now { "no longer frozen" } else { "that is frozen" }, f.fail_text());
                } else {
                    ensure!(!ok, "{name} works on an account frozen until {until} (now {now}): {}", tx.what);
                    ensure!(is_err(&f.fail_text(), MangoError::AccountIsFrozen), "{name} fails with {}", f.fail_text());
                }
                // the freeze itself
                if ok && *name == "account_toggle_freeze" {
                    let a = f.s.get_account_data(*k).unwrap();
                    let v = MangoAccountValue::from_bytes(&a[8..]).unwrap();
                    let freeze = tx.ixs[0].data[8] == 1;
                    let exp = if freeze { now + 7 * 86400 } else { 0 };
                    ensure!(v.fixed.frozen_until == exp, "frozen until {} after toggling {freeze} at {now}", v.fixed.frozen_until);
                    case.label(if freeze { "freeze" } else { "unfreeze" });
                }
            }
        }
    }
    Ok(())
}

fn gate_set(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    let (fast, sec) = roles();
    for k in [fast.pubkey(), sec.pubkey(), stranger().pubkey()] {
        w.put_wallet(k);
    }
    w.edit_group(|g| {
        g.fast_listing_admin = fast.pubkey();
        g.security_admin = sec.pubkey();
    });
    for _ in 0..6 {
        let mask = |src: &mut Src| -> u128 {
            match src.below(5) {
                0 => 0,
                1 => u128::MAX,
                2 => 1 << src.below(128),
                3 => (1 << src.below(128)) | (1 << src.below(128)) | (1 << src.below(128)),
                _ => (src.range(0, i64::MAX) as u128) << src.below(100),
            }
        };
        let old = mask(src);
        let new = match src.below(5) {
            0 => old | mask(src),
            1 => old & !mask(src),
            2 => old | (1 << src.below(128)),
            3 => old & !(1 << src.below(128)),
            _ => mask(src),
        };
        w.edit_group(|g| g.ix_gate = old);
        let who = src.pick(&[w.admin, sec, fast, stranger(), w.users[1].key]);
        let before = w.group_state();
        let ok = w.ok(IxGateSetInstruction { group: w.group, admin: who, ix_gate: new });
        let reenables = old & !new != 0;
        let exp = who.pubkey() == w.admin.pubkey() || who.pubkey() == sec.pubkey() && !reenables;
        ensure!(ok == exp, "gate {old:#x} -> {new:#x} by {}: {ok}", if who.pubkey() == sec.pubkey() { "the security admin" } else { "another key" });
        let mut after = w.group_state();
        ensure!(after.ix_gate == if ok { new } else { old }, "gate {old:#x} -> {new:#x} became {:#x}", after.ix_gate);
        after.ix_gate = before.ix_gate;
        ensure!(bytemuck::bytes_of(&*before) == bytemuck::bytes_of(&*after), "more than the gate changed");
        case.nontrivial();
        case.label(if ok { "accepted" } else { "refused" });
        if reenables {
            case.label("re-enables something");
        }
    }
    Ok(())
}

fn reduce_only(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &ALL);
    let w = &m.w;
    let p = src.idx(2);
    let pm = w.perp(p);
    let fair = w.perp_price(p) * pm.base_lot_size as f64 / pm.quote_lot_size as f64;
    for a in 1..N_ACC {
        w.grant(a, 0, 0, 1e12);
    }
    for _ in 0..src.below(3) {
        let a = 1 + src.idx(4);
        let b = 1 + (a % 4);
        let n = src.log_range(1, 300) as i64;
        let q = n as f64 * pm.base_lot_size as f64 * w.perp_price(p);
        w.grant_perp(p, a, b, n, num(q));
    }
    let mut market_ro = false;
    for _ in 0..src.urange(3, 12) {
        if src.chance(25) {
            market_ro = src.chance(75);
            w.edit_perp(p, |x| x.reduce_only = market_ro as u8);
        }
        if src.chance(15) {
            let s = w.snap();
            m.act(K::Consume, src, &s);
            continue;
        }
        let a = 1 + src.idx(4);
        let side = src.pick(&[Side::Bid, Side::Ask]);
        let before = w.ppos(a, p);
        let eff = before.base_position_lots + before.taker_base_lots;
        let pegged = src.chance(25);
        let ro = src.chance(50);
        let max = if src.chance(40) {
            // near what may be allowed
            let own = if side == Side::Bid { before.bids_base_lots } else { before.asks_base_lots };
            (eff.abs() - src.pick(&[0, own]) + src.range(-1, 1)).max(1)
        } else {
            src.log_range(1, 500) as i64
        };
        let stb = src.pick(&[SelfTradeBehavior::DecrementTake, SelfTradeBehavior::CancelProvide]);
        let mut ix = w.order_ix(a, p, side);
        ix.price_lots = ((fair * src.f(0.97, 1.03)).round() as i64).max(1);
        let (_, mut raw) = ix.to_instruction(&*w.s);
        let max_quote = if src.chance(20) { src.log_range(1, 1_000_000) as i64 } else { i64::MAX };
        let ot = src.pick(&[
            PlaceOrderType::Limit,
            PlaceOrderType::ImmediateOrCancel,
            PlaceOrderType::PostOnly,
            PlaceOrderType::Market,
            PlaceOrderType::PostOnlySlide,
        ]);
        raw.data = if pegged {
            let off = src.range(-20, 20);
            mango_v4::instruction::PerpPlaceOrderPeggedV2 {
                side,
                price_offset_lots: off,
                peg_limit: -1,
                max_base_lots: max,
                max_quote_lots: max_quote,
                client_order_id: 1,
                order_type: src.pick(&[PlaceOrderType::Limit, PlaceOrderType::PostOnly, PlaceOrderType::ImmediateOrCancel]),
                reduce_only: ro,
                expiry_timestamp: 0,
                limit: 10,
                max_oracle_staleness_slots: -1,
                self_trade_behavior: stb,
            }
            .data()
        } else {
            mango_v4::instruction::PerpPlaceOrderV2 {
                side,
                price_lots: ix.price_lots,
                max_base_lots: max,
                max_quote_lots: max_quote,
                client_order_id: 1,
                order_type: ot,
                reduce_only: ro,
                expiry_timestamp: if src.chance(10) { w.now() + 100 } else { 0 },
                limit: 10,
                self_trade_behavior: stb,
            }
            .data()
        };
        let ok = w.ok_raw(raw, &[ix.owner]);
        let err = w.fail_text();
        let what = || format!("{side:?} of {max} pegged {pegged} type {} reduce_only {ro}, market reduce_only {market_ro}, position {eff}, open {}/{}: {ok} {}", ot as u8, before.bids_base_lots, before.asks_base_lots, if ok { "" } else { &err });
        case.note(what);
        if !ro && !market_ro {
            continue;
        }
        case.nontrivial();
        let (dir, own) = if side == Side::Bid { (1, before.bids_base_lots) } else { (-1, before.asks_base_lots) };
        // how far the position can shrink, if every open order in this direction executes
        let room = (-eff * dir - if market_ro { own } else { 0 }).max(0);
        case.label(match (ro, market_ro) {
            (true, true) => "both",
            (true, false) => "order",
            _ => "market",
        });
        if !ok {
            let refused = is_err(&err, MangoError::MarketInReduceOnlyMode);
            ensure!(!refused || (market_ro && !ro && max > room), "refused: {}", what());
            if refused {
                case.label("refused");
            }
            continue;
        }
        ensure!(ro || max <= room, "accepted: {}", what());
        let after = w.ppos(a, p);
        let d_eff = (after.base_position_lots + after.taker_base_lots - eff) * dir;
        let posted = if side == Side::Bid { after.bids_base_lots - before.bids_base_lots } else { after.asks_base_lots - before.asks_base_lots };
        ensure!(d_eff >= 0 && d_eff.max(0) + posted.max(0) <= room, "traded {d_eff} and posted {posted}, at most {room} reduce the position: {}", what());
        case.label(if room == 0 { "no room" } else if d_eff > 0 { "traded" } else if posted > 0 { "posted" } else { "nothing" });
    }
    Ok(())
}

fn force(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = start(src);
    for _ in 0..6 {
        let Some(tx) = gen(src, &m) else { continue };
        let w = &tx.base;
        let Some(ix) = tx.ixs.last() else { continue };
        let Some((name, _)) = ident(ix) else { continue };
        let n = |j: usize| ix.accounts[j].pubkey;
        match name {
            "perp_force_close_position" | "token_force_close_borrows_with_token" | "token_force_withdraw" => {
                case.label(name);
                case.nontrivial();
                let f = w.fork();
                match name {
                    "perp_force_close_position" => (0..2).for_each(|p| f.edit_perp(p, |x| x.force_close = 0)),
                    "token_force_withdraw" => (0..5).for_each(|t| f.edit_token(t, |x| x.force_withdraw = 0)),
                    _ => (0..5).for_each(|t| f.edit_token(t, |x| x.force_close = 0)),
                }
                ensure!(!f.replay(&tx.ixs, &tx.signers), "{name} without the mode: {}", tx.what);
                if name == "token_force_withdraw" {
                    // all whole units go to the owner
                    let g = w.fork();
                    g.replay(&tx.ixs, &tx.signers);
                    let bank = w.bank(n(2));
                    let t = bank.token_index;
                    let bal = |w: &World| {
                        let a = w.s.get_account_data(n(1)).unwrap();
                        let v = MangoAccountValue::from_bytes(&a[8..]).unwrap();
                        v.token_position(t).map(|x| x.native(&w.bank(n(2)))).unwrap_or_default()
                    };
                    let tok = |w: &World| w.s.get_account_data(n(5)).map(|d| u64::from_le_bytes(d[64..72].try_into().unwrap())).unwrap();
                    let (pre, post) = (bal(w), bal(&g));
                    let got = tok(&g) - tok(w);
                    ensure!(got == pre.floor().to_num::<u64>(), "forced withdrawal of {got} of {pre}");
                    ensure!(post >= 0 && post < num(1.000001), "left {post}");
                }
            }
            "perp_liq_force_cancel_orders" | "serum3_liq_force_cancel_orders" => {
                // without a reason nothing is cancelled
                let f = w.fork();
                let Some(ai) = (0..N_ACC).find(|i| w.accs[*i].key == n(1)) else { continue };
                for p in 0..2 {
                    f.edit_perp(p, |x| x.force_close = 0);
                    let k = w.spots[p].market;
                    let mut x = w.s.get_account::<Serum3Market>(k);
                    x.force_close = 0;
                    f.s.set_account(k, &x);
                }
                // rich, healthy, not in liquidation
                let held: Vec<usize> = (0..5).filter(|t| f.acc(ai).token_position(*t as u16).is_ok()).collect();
                for t in held {
                    f.grant(ai, t, 0, 1e13 / w.price(t));
                }
                let s = f.snap();
                if !(f.health(&s, ai).health(crate::model::HT::Init) > 1.0) {
                    continue;
                }
                let mut v = f.acc(ai);
                v.fixed.set_being_liquidated(false);
                let frozen = src.bool();
                v.fixed.frozen_until = if frozen { f.now() + 5 } else { 0 };
                f.put_acc(n(1), &v);
                let g = f.fork();
                if !g.replay(&tx.ixs, &tx.signers) {
                    continue; // the added balances need more health accounts
                }
                let oo = |w: &World| {
                    let s = w.snap();
                    let a = &s.accs[ai];
                    let perp: usize = a.all_perp_orders().filter(|o| !o.is_active_for_market(u16::MAX) && o.market != FREE_ORDER_SLOT).count();
                    let spot: u64 = a
                        .active_serum3_orders()
                        .map(|o| {
                            let x = load_open_orders(&w.s, o.open_orders);
                            (x.native_pc_total + x.native_coin_total) + ({ x.orders }).iter().filter(|y| **y != 0).count() as u64
                        })
                        .sum();
                    (perp, spot)
                };
                let (pre, post) = (oo(&f), oo(&g));
                case.nontrivial();
                case.label(name);
                if frozen {
                    case.label("frozen");
                    ensure!(pre == post || post.0 < pre.0 || post.1 < pre.1, "more orders: {pre:?} {post:?}");
                    if name == "perp_liq_force_cancel_orders" {
                        let mut left = g.acc(ai);
                        let pm = (0..2).find(|p| w.perps[*p].key == n(2));
                        if let Some(p) = pm {
                            let lim = ix.data[8] as usize;
                            let c = |v: &MangoAccountValue| v.all_perp_orders().filter(|o| o.is_active_for_market(p as u16)).count();
                            let b = c(&f.acc(ai));
                            ensure!(c(&left) <= b.saturating_sub(lim), "{b} orders, limit {lim}, {} left on a frozen account", c(&left));
                        }
                        left.fixed.frozen_until = 0;
                    }
                } else {
                    ensure!(pre == post, "{name} cancelled orders of a healthy account: {pre:?} -> {post:?}");
                    let (mut a, b) = (f.acc(ai), g.acc(ai));
                    a.fixed.set_being_liquidated(b.fixed.being_liquidated());
                    ensure!(!b.fixed.being_liquidated(), "{name} put a healthy account into liquidation");
                }
            }
            _ => {}
        }
    }
    Ok(())
}
