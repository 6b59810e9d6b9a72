//! C05: the risk engine against an independent reference model, and its algebraic relations.
use crate::ensure;
use crate::machine::{self, *};
use crate::model::*;
use crate::pbt::*;
use crate::pt::*;
use crate::world::*;
use anchor_lang::AnchorSerialize;
use fixed::types::I80F48;
use mango_v4::health::HealthType;
use mango_v4::state::*;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "suite `model`: a random history (3..25 instructions) followed by random weights, weight shifts, collateral caps, stable prices and reserved spot orders, then every account's health figures are compared with an independent floating-point model; `ordering`: same states with ordered weights; `incremental`: a position change applied to a health cache versus a cache rebuilt from the changed accounts; `skipping`: caches built from a subset of the banks. Non-trivial: an account with at least two of {deposit, borrow, perp position, spot reservation}",
        assumptions: &["oracles are stub oracles with fresh prices here; oracle handling is C16"],
        suites: vec![
            Suite { name: "model", quick: 12_000, thorough: 400_000, f: model },
            Suite { name: "ordering", quick: 4_000, thorough: 100_000, f: ordering },
            Suite { name: "incremental", quick: 12_000, thorough: 300_000, f: incremental },
            Suite { name: "skipping", quick: 6_000, thorough: 150_000, f: skipping },
        ],
    }
}

const TYPES: [(HT, HealthType); 3] = [
    (HT::Init, HealthType::Init),
    (HT::LiqEnd, HealthType::LiquidationEnd),
    (HT::Maint, HealthType::Maint),
];

/// an interesting state: history, then arbitrary risk parameters
pub fn state(src: &mut Src, case: &mut Case, ordered: bool) -> Result<Machine, String> {
    let w: Vec<(K, u64)> = ALL
        .iter()
        .map(|(k, x)| {
            (*k, match k {
                K::SerumPlace | K::SerumOpen | K::PerpOrder | K::PerpPegged => x * 3,
                _ => *x,
            })
        })
        .collect();
    let m = Machine::setup(src, &w);
    let n = src.below(22);
    for _ in 0..n {
        let s = m.w.snap();
        let st = m.step(src, &s);
        case.note(|| format!("{} -> {}", st.what, if st.ok { "ok".into() } else { st.err.clone() }));
    }
    // spot reservations, also in a second market that shares a token with the first
    for a in 1..4 {
        if !src.chance(35) { continue }
        for sp in &m.w.spots {
            if src.bool() {
                let w = m.w.accs[a];
                m.w.ok(Serum3CreateOpenOrdersInstruction {
                    account: w.key,
                    serum_market: sp.market,
                    owner: w.owner,
                    payer: m.w.users[3].key,
                });
            }
        }
        for o in m.w.acc(a).active_serum3_orders() {
            let mut oo = load_open_orders(&m.w.s, o.open_orders);
            let amt = |src: &mut Src, t: u16| {
                let x = (src.log(1 << 30) as f64 / m.w.price(t as usize)) as u64;
                if src.chance(30) { (0, 0) } else { (x, if src.bool() { x } else { x / 3 }) }
            };
            let (bt, bf) = amt(src, o.base_token_index);
            let (qt, qf) = amt(src, o.quote_token_index);
            oo.native_coin_total = bt;
            oo.native_coin_free = bf - if src.bool() { bf } else { 0 };
            oo.native_pc_total = qt;
            oo.native_pc_free = qf - if src.bool() { qf } else { 0 };
            m.w.put_oo(o.open_orders, &oo);
            let fair = m.w.price(o.base_token_index as usize) / m.w.price(o.quote_token_index as usize);
            let (ask, bid) = (fair * src.pick(&[0.0, 0.5, 0.99, 1.2]), src.pick(&[0.0, 0.5, 1.01, 2.0]) / fair);
            let idx = o.market_index;
            m.w.edit_acc(a, |acc| {
                let x = acc.serum3_orders_mut(idx).unwrap();
                x.lowest_placed_ask = ask;
                x.highest_placed_bid_inv = bid;
            });
            case.note(|| format!("acc {a} spot {idx}: base {bt} free {} quote {qt} free {}, lowest ask {ask} inverse highest bid {bid}", {oo.native_coin_free}, {oo.native_pc_free}));
        }
    }
    let now = m.w.now();
    for t in 0..5 {
        let price = m.w.price(t);
        if src.bool() {
            m.w.set_price(t, price, Some(price * src.pick(&[0.5, 0.9, 1.1, 2.0])));
        }
        let dep_scale = src.pick(&[f64::MAX, 1e6, 1e9, 1e14, 3e15]);
        let bor_scale = src.pick(&[f64::MAX, 1e3, 1e6, 1e8, 1e9]);
        let shift = src.below(4);
        let (sa, sl) = if ordered { (0.0, 0.0) } else { (src.f(0.0, 1.0), src.f(1.0, 2.0)) };
        let (start, len) = (src.below(2000), 1 + src.below(2000));
        let dis = src.chance(15) as u8;
        m.w.edit_token(t, |b| {
            b.deposit_weight_scale_start_quote = dep_scale;
            b.borrow_weight_scale_start_quote = bor_scale;
            b.disable_asset_liquidation = dis;
            if shift == 1 && !ordered {
                b.maint_weight_shift_start = now - 1000 + start;
                b.maint_weight_shift_end = now - 1000 + start + len;
                b.maint_weight_shift_duration_inv = I80F48::ONE / num(len);
                b.maint_weight_shift_asset_target = num(sa);
                b.maint_weight_shift_liab_target = num(sl);
            }
        });
    }
    for p in 0..2 {
        let price = m.w.perp_price(p);
        if src.bool() {
            m.w.set_perp_price(p, price, Some(price * src.pick(&[0.5, 0.9, 1.1, 2.0])));
        }
        let (ia, il) = (src.f(0.5, 1.0), src.f(1.0, 1.5));
        let (ma, ml) = (ia + (1.0 - ia) * src.f(0.0, 1.0), 1.0 + (il - 1.0) * src.f(0.0, 1.0));
        let io = src.f(0.0, 1.0);
        let mo = io + (1.0 - io) * src.f(0.0, 1.0);
        m.w.edit_perp(p, |x| {
            x.init_base_asset_weight = num(ia);
            x.init_base_liab_weight = num(il);
            x.maint_base_asset_weight = num(ma);
            x.maint_base_liab_weight = num(ml);
            x.init_overall_asset_weight = num(io);
            x.maint_overall_asset_weight = num(mo);
        });
    }
    Ok(m)
}

/// With reservations in several spot markets the program deliberately settles for a lower bound
/// that is not monotone; the relations below are only claimed for at most one.
fn several_spots(h: &Health) -> bool {
    h.spots.iter().filter(|s| s.res_base > 0.0 || s.res_quote > 0.0).count() > 1
}

fn kinds(h: &Health) -> usize {
    h.toks.iter().any(|t| t.bal > 0.0) as usize
        + h.toks.iter().any(|t| t.bal < 0.0) as usize
        + h.perps.iter().any(|p| p.lots != 0 || p.bids + p.asks != 0) as usize
        + h.spots.iter().any(|s| s.res_base > 0.0 || s.res_quote > 0.0) as usize
}

fn model(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src, case, false)?;
    let s = m.w.snap();
    for a in 1..5 {
        let n = src.idx(2);
        let h = Health::of(&s, &s.accs[a], &m.w.oos(&s.accs[a]), &|_| n);
        if kinds(&h) >= 2 {
            case.nontrivial();
        }
        if h.spots.iter().any(|x| x.res_base > 0.0 && x.res_quote > 0.0) { case.label("spot reserved both"); }
        if h.spots.iter().any(|x| x.res_base > 0.0 || x.res_quote > 0.0) { case.label("spot reserved"); }
        if h.spots.iter().filter(|x| x.res_base > 0.0 || x.res_quote > 0.0).count() > 1 { case.label("two spot reservations"); }
        if h.perps.len() == 2 { case.label("two perps"); }
        if h.perps.iter().any(|x| x.bids > 0 || x.asks > 0) { case.label("perp orders"); }
        if h.perps.iter().any(|x| x.fills) { case.label("pending fills"); }
        let c = m.w.cache(a, &|_| n).map_err(|e| format!("cache of acc {a}: {e}"))?;
        let tol = h.tol();
        for (t, ht) in TYPES {
            let (x, y) = (f(c.health(ht)), h.health(t));
            ensure!((x - y).abs() <= tol, "acc {a} {t:?} health: program {x} model {y} tol {tol} {h:?}");
            let (al, ll) = c.health_assets_and_liabs_stable_liabs(ht);
            let (aa, la) = c.health_assets_and_liabs_stable_assets(ht);
            ensure!((f(al - ll) - y).abs() <= 2.0 * tol && (f(aa - la) - y).abs() <= 2.0 * tol,
                "acc {a} {t:?}: assets-liabs {} / {} but health {y}", al - ll, aa - la);
            let r = f(c.health_ratio(ht));
            if f(ll) > 1e-6 {
                ensure!(close(r, 100.0 * f(al - ll) / f(ll), 1e-9, 1e-6) || r > 1e20, "acc {a} {t:?}: ratio {r}");
            }
        }
        let d = m.w.account_data(a).ok_or(format!("account data of {a}: {}", m.w.fail_text()))?;
        // the instruction uses the first bank of each token
        let h0 = Health::of(&s, &s.accs[a], &m.w.oos(&s.accs[a]), &|_| 0);
        let tol = tol + h0.tol();
        ensure!((f(d.init_health) - h0.health(HT::Init)).abs() <= tol, "acc {a}: reported init health {} model {}", d.init_health, h0.health(HT::Init));
        ensure!((f(d.maint_health) - h0.health(HT::Maint)).abs() <= tol, "acc {a}: reported maint health {} model {}", d.maint_health, h0.health(HT::Maint));
        // liquidation phases
        ensure!(c.has_phase1_liquidatable() == h.phase1(), "acc {a}: phase1 {} model {}", c.has_phase1_liquidatable(), h.phase1());
        if h.liq_spot_assets(-1e-3 - tol) == h.liq_spot_assets(1e-3 + tol) {
            ensure!(c.has_liq_spot_assets() == h.liq_spot_assets(0.0), "acc {a}: liquidatable assets");
        }
        let e = h.effective(HT::LiqEnd, false);
        if h.toks.iter().zip(&e).all(|(t, x)| t.bal.abs() > 1e-6 && x.abs() > tol && (t.bal - 1.0).abs() > 1e-3 && (x - 1.0).abs() > tol) {
            ensure!(c.has_liq_spot_borrows() == h.liq_spot_borrows(), "acc {a}: liquidatable borrows");
            if h.perps.iter().all(|p| p.quote.abs() > 1e-6 || p.quote == 0.0) {
                ensure!(c.has_phase2_liquidatable() == h.phase2(), "acc {a}: phase2 {} model {}", c.has_phase2_liquidatable(), h.phase2());
                let p3 = h.liq_spot_borrows() || h.perps.iter().any(|p| p.lots == 0 && p.quote < 0.0);
                ensure!(c.has_phase3_liquidatable() == p3, "acc {a}: phase3");
                ensure!(c.in_phase3_liquidation() == (p3 && !h.phase1() && !h.phase2()), "acc {a}: in phase3");
                ensure!(c.in_phase1_liquidation() == h.phase1() && c.in_phase2_liquidation() == (h.phase2() && !h.phase1()), "acc {a}: in phase 1/2");
                ensure!(c.require_after_phase1_liquidation().is_ok() == !h.phase1(), "acc {a}: require after 1");
                ensure!(c.require_after_phase2_liquidation().is_ok() == (!h.phase1() && !h.phase2()), "acc {a}: require after 2");
            }
        }
        // unweighted value
        let (assets, liabs) = c.assets_and_liabs();
        let mut v = 0.0;
        let mut pos = 0.0;
        let mut add = |x: f64| { v += x; if x > 0.0 { pos += x } };
        for t in &h.toks { add(t.bal * t.oracle) }
        for x in &h.spots {
            add(x.res_base * h.toks[x.base].oracle);
            add(x.res_quote * h.toks[x.quote].oracle);
        }
        for p in &h.perps {
            let q = h.toks.iter().find(|x| x.idx == p.settle).unwrap().oracle;
            add(p.quote * q);
            add(p.lots as f64 * p.lot * p.oracle * q);
        }
        ensure!((f(assets - liabs) - v).abs() <= 3.0 * tol && (f(assets) - pos).abs() <= 3.0 * tol,
            "acc {a}: assets {assets} liabs {liabs} model net {v} assets {pos}");
        let lev = f(c.leverage());
        let eq = (f(assets) - f(liabs)).max(0.001);
        ensure!(close(lev, f(liabs) / eq, 1e-6, 1e-6), "acc {a}: leverage {lev}");
        // reported equity per token
        for te in &d.equity.tokens {
            let t = te.token_index as usize;
            let mut x = s.pos(a, t);
            for o in s.accs[a].active_serum3_orders() {
                let oo = &m.w.oos(&s.accs[a])[&o.open_orders];
                if o.base_token_index as usize == t { x += oo.native_coin_total as f64 }
                if o.quote_token_index as usize == t { x += oo.native_pc_total as f64 }
            }
            ensure!(close(f(te.value), x * s.tok_price[t], 1e-11, 1e-3), "acc {a}: equity of token {t} {} model {}", te.value, x * s.tok_price[t]);
        }
        // settleable pnl
        if h.toks.iter().all(|x| x.idx != 0) { continue }
        let ms = f(c.perp_max_settle(0).map_err(|e| format!("perp_max_settle: {e:?}"))?);
        let want = h.perp_max_settle(0);
        let maint_l = h.toks.iter().find(|x| x.idx == 0).map(|x| x.l(HT::Maint)).unwrap();
        ensure!((ms - want).abs() <= 2.0 * tol / maint_l.min(0.5) + 1e-6, "acc {a}: max settle {ms} model {want}");
        let _ = d.equity.perps.try_to_vec();
    }
    Ok(())
}

/// init health <= liquidation end health <= maint health when the weights are ordered
fn ordering(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src, case, true)?;
    let s = m.w.snap();
    for a in 1..5 {
        let h = m.w.health(&s, a);
        if several_spots(&h) { continue }
        if kinds(&h) >= 2 { case.nontrivial() }
        let c = m.w.cache(a, &|_| 0).map_err(|e| format!("cache of acc {a}: {e}"))?;
        let tol = h.tol();
        let (i, l, x) = (f(c.health(HealthType::Init)), f(c.health(HealthType::LiquidationEnd)), f(c.health(HealthType::Maint)));
        ensure!(i <= l + tol && l <= x + tol, "acc {a}: init {i} liq end {l} maint {x}");
        if x < 0.0 { case.label("liquidatable"); }
        // value before risk weights bounds every health from above
        let (as_, li) = c.assets_and_liabs();
        ensure!(x <= f(as_ - li) + 3.0 * tol, "acc {a}: maint health {x} exceeds net value {}", as_ - li);
    }
    Ok(())
}

/// changing a cache in place gives the same figures as rebuilding it
fn incremental(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src, case, false)?;
    let w = &m.w;
    let s = w.snap();
    let a = 1 + src.idx(4);
    let mut c = w.cache(a, &|_| 0).map_err(|e| format!("cache: {e}"))?;
    let what = src.below(3);
    if what == 0 {
        let toks: Vec<usize> = s.accs[a].active_token_positions().map(|p| p.token_index as usize).collect();
        if toks.is_empty() { return Ok(()) }
        let t = src.pick(&toks);
        let mut b = w.tbank(t);
        let mut acc = w.acc(a);
        let amt = num((src.log_range(1, 100_000_000_000) as f64 / s.tok_price[t]).ceil());
        let dep = src.bool();
        {
            let (p, _) = acc.token_position_mut(t as u16).unwrap();
            let x0 = p.native(&b);
            if dep {
                let _ = b.deposit(p, amt, w.now()).map_err(|e| format!("{e:?}"))?;
            } else {
                let _ = b.withdraw_with_fee(p, amt, w.now()).map_err(|e| format!("{e:?}"))?;
            }
            let d = p.native(&b) - x0;
            c.adjust_token_balance(&b, d).map_err(|e| format!("{e:?}"))?;
        }
        if !acc.token_position(t as u16).is_ok() { return Ok(()) }
        w.s.set_account(w.tokens[t].bank, &*b);
        w.put_acc(w.accs[a].key, &acc);
        case.label("token");
        case.note(|| format!("acc {a}: token {t} {} {amt}", if dep { "deposit" } else { "withdraw" }));
    } else if what == 1 {
        let ps: Vec<usize> = s.accs[a].active_perp_positions().map(|p| p.market_index as usize).collect();
        if ps.is_empty() { return Ok(()) }
        let p = src.pick(&ps);
        let mut mk = w.perp(p);
        let mut acc = w.acc(a);
        let lots = src.range(-100_000, 100_000);
        let q = num(src.range(-1_000_000_000, 1_000_000_000));
        {
            let pp = acc.perp_position_mut(p as u16).unwrap();
            pp.settle_funding(&mk);
            pp.record_trade(&mut mk, lots, q);
            c.recompute_perp_info(pp, &mk).map_err(|e| format!("{e:?}"))?;
        }
        w.s.set_account(w.perps[p].key, &*mk);
        w.put_acc(w.accs[a].key, &acc);
        case.label("perp");
        case.note(|| format!("acc {a}: perp {p} trade {lots} lots quote {q}"));
    } else {
        let so = match s.accs[a].active_serum3_orders().next() {
            Some(o) => *o,
            None => return Ok(()),
        };
        let mut oo = load_open_orders(&w.s, so.open_orders);
        let (cf, pf) = (oo.native_coin_free, oo.native_pc_free);
        let (x, y) = (src.log(1 << 40), src.log(1 << 40));
        oo.native_coin_total = src.log(1 << 40) + x;
        oo.native_coin_free = x;
        oo.native_pc_total = src.log(1 << 40) + y;
        oo.native_pc_free = y;
        let mut acc = w.acc(a);
        let price = src.f(0.01, 0.04);
        {
            let o = acc.serum3_orders_mut(so.market_index).unwrap();
            if src.bool() { o.lowest_placed_ask = price }
            if src.bool() { o.highest_placed_bid_inv = 1.0 / price }
        }
        let so = *acc.serum3_orders(so.market_index).unwrap();
        let slim = mango_v4::serum3_cpi::OpenOrdersSlim::from_oo(&oo);
        c.recompute_serum3_info(&so, &slim, num(x) - num(cf), num(y) - num(pf)).map_err(|e| format!("{e:?}"))?;
        w.put_oo(so.open_orders, &oo);
        w.put_acc(w.accs[a].key, &acc);
        case.label("spot");
        case.note(|| format!("acc {a}: open orders base {}+{x} quote {}+{y}", oo.native_coin_total - x, oo.native_pc_total - y));
    }
    case.nontrivial();
    let d = w.cache(a, &|_| 0).map_err(|e| format!("cache: {e}"))?;
    let h = w.health(&w.snap(), a);
    let tol = h.tol();
    for (t, ht) in TYPES {
        let (x, y) = (f(c.health(ht)), f(d.health(ht)));
        ensure!((x - y).abs() <= tol, "acc {a} {t:?} health: updated {x} rebuilt {y} tol {tol}");
    }
    Ok(())
}

/// leaving out banks can only lower the reported health, and never hides a borrow
fn skipping(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src, case, false)?;
    let w = &m.w;
    w.advance(100);
    let s = w.snap();
    let a = 1 + src.idx(4);
    let acc = w.acc(a);
    let full = w.cache(a, &|_| 0).map_err(|e| format!("cache: {e}"))?;
    let toks: Vec<usize> = acc.active_token_positions().map(|p| p.token_index as usize).collect();
    let keep: Vec<usize> = toks.iter().copied().filter(|_| src.chance(60)).collect();
    let perps: Vec<usize> = acc.active_perp_positions().map(|p| p.market_index as usize).collect();
    let mut v = vec![];
    v.extend(keep.iter().map(|t| w.tokens[*t].bank));
    v.extend(keep.iter().map(|t| w.tokens[*t].oracle));
    v.extend(perps.iter().map(|p| w.perps[*p].key));
    v.extend(perps.iter().map(|p| w.perps[*p].oracle));
    v.extend(acc.active_serum3_orders().map(|o| o.open_orders));
    let now = w.s.clock();
    let nowp = (now.unix_timestamp as u64, now.slot);
    // some of the oracles may be stale as well
    let stale: Vec<usize> = keep.iter().copied().filter(|_| src.chance(15)).collect();
    for t in &stale {
        w.edit_token(*t, |b| b.oracle_config.max_staleness_slots = 10);
        let mut o: StubOracle = w.s.get_account(w.tokens[*t].oracle);
        o.last_update_slot = now.slot.saturating_sub(100);
        w.s.set_account(w.tokens[*t].oracle, &o);
    }
    let gone = |t: usize| !keep.contains(&t) || stale.contains(&t);
    for scanning in [true, false] {
        let r = w.with_ais(&v, |ais| {
            if scanning {
                let r = mango_v4::health::ScanningAccountRetriever::new_with_staleness(ais, &w.group, Some(nowp)).map_err(|e| format!("{e:?}"))?;
                mango_v4::health::new_health_cache_skipping_missing_banks_and_bad_oracles(&acc.borrow(), &r, w.now()).map_err(|e| format!("{e:?}"))
            } else {
                let r = mango_v4::health::new_fixed_order_account_retriever_with_optional_banks(ais, &acc.borrow(), nowp).map_err(|e| format!("{e:?}"))?;
                mango_v4::health::new_health_cache_skipping_missing_banks_and_bad_oracles(&acc.borrow(), &r, w.now()).map_err(|e| format!("{e:?}"))
            }
        });
        let bad_borrow = toks.iter().any(|t| gone(*t) && f(acc.token_position(*t as u16).unwrap().indexed_position) < 0.0);
        let bad_settle = !perps.is_empty() && gone(0);
        let h = w.health(&s, a);
        match r {
            Ok(c) => {
                ensure!(!bad_borrow, "acc {a}: health computed although a borrowed token is missing ({keep:?} of {toks:?}, stale {stale:?})");
                ensure!(!bad_settle, "acc {a}: health computed without the settle token");
                for (t, ht) in TYPES {
                    let (x, y) = (f(c.health(ht)), f(full.health(ht)));
                    ensure!(x <= y + h.tol() || several_spots(&h), "acc {a} {t:?}: health {x} with banks {keep:?} (stale {stale:?}) of {toks:?}, full {y}");
                    if toks.iter().all(|t| !gone(*t)) {
                        ensure!((x - y).abs() <= h.tol(), "acc {a} {t:?}: nothing missing but {x} vs {y}");
                    }
                }
                if toks.iter().any(|t| gone(*t)) { case.nontrivial(); case.label("computed with gaps") }
            }
            Err(e) => {
                ensure!(bad_borrow || bad_settle, "acc {a}: refused although nothing needed is missing: {e} ({keep:?} of {toks:?}, stale {stale:?})");
                case.label("refused");
            }
        }
    }
    Ok(())
}

pub fn _u(src: &mut Src, case: &mut Case) -> Result<(), String> {
    machine::run(src, case, &ALL, 1, |_, _, _, _, _| Ok(()))
}
