//! C27: the TypeScript client's risk engine against the on-chain program's, on the same accounts.
use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use crate::pt::*;
use crate::props::health::state;
use crate::ts::*;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::health::HealthType;
use mango_v4::state::*;
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "accounts of a random history with random weights, prices, reservations, caps (as in C05), read by the client; suite `health`: all risk figures of four accounts against the program; `sims`: simulated ratios against the program on the changed account; `limits`: offered trades and liquidation prices judged by the program; `withdraw`: offered withdrawals executed. Non-trivial: every compared account (health), every comparison with liabilities (sims), every positive offer (limits, withdraw)",
        assumptions: &["stub oracles with fresh prices", "perp offers are only required to be large without resting orders and with a settle token whose stable price is its oracle price", "swap offers are judged with the weights before the swap, as the client documents"],
        suites: vec![
            Suite { name: "health", quick: 3_000, thorough: 60_000, f: health },
            Suite { name: "sims", quick: 2_500, thorough: 60_000, f: sims },
            Suite { name: "limits", quick: 2_000, thorough: 60_000, f: limits },
            Suite { name: "withdraw", quick: 2_500, thorough: 60_000, f: withdraw },
        ],
    }
}

const TYPES: [(HT, HealthType, &str); 3] = [
    (HT::Init, HealthType::Init, "init"),
    (HT::LiqEnd, HealthType::LiquidationEnd, "liquidationEnd"),
    (HT::Maint, HealthType::Maint, "maint"),
];

const FIGURES: &str = "
  const acc = C.accs[a.i], g = C.group, h = C.hc.HealthCache.fromMangoAccount(g, acc);
  const o = {};
  for (const t of ['init', 'liquidationEnd', 'maint']) {
    const T = C.HT[t];
    const sl = h.healthAssetsAndLiabsStableLiabs(T), sa = h.healthAssetsAndLiabsStableAssets(T);
    o[t] = {
      health: acc.getHealth(g, T), ratio: acc.getHealthRatio(g, T), ratioUi: acc.getHealthRatioUi(g, T),
      al: sl.assets, ll: sl.liabs, aa: sa.assets, la: sa.liabs,
      contrib: acc.getHealthContributionPerAssetUi(g, T).map((x) => x.contribution),
      eff: h.effectiveTokenBalances(T).map((x) => x.spotAndPerp),
    };
  }
  o.tok = h.tokenInfos.map((t) => t.tokenIndex);
  o.settle = acc.perpMaxSettle(g, 0);
  o.equity = acc.getEquity(g);
 o.coll = acc.getCollateralValue(g);
  o.pnl = acc.getPnl(g);
  return o;
";

fn health(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src, case, false)?;
    let s = m.w.snap();
    let mut ts = Ts::on(&m.w, &[1, 2, 3, 4]);
    for i in 0..4 {
        ts.op(FIGURES, json!({ "i": i }));
    }
    let out = ts.run()?;
    for a in 1..5 {
        let h = Health::of(&s, &s.accs[a], &m.w.oos(&s.accs[a]), &|_| 0);
        let c = m.w.cache(a, &|_| 0).map_err(|e| format!("cache of acc {a}: {e}"))?;
        let o = out[a - 1].as_ref().map_err(|e| format!("acc {a}: the client fails: {e}"))?;
        case.nontrivial();
        let tol = h.tol() + 1.0;
        for (t, ht, name) in TYPES {
            let g = |k: &str| fix(&o[name][k]).ok_or(format!("{name} {k}: {}", o[name][k]));
            let (x, y) = (g("health")?, f(c.health(ht)));
            ensure!((x - y).abs() <= tol, "acc {a} {t:?} health: client {x} program {y} tol {tol} {h:?}");
            let (al, ll) = c.health_assets_and_liabs_stable_liabs(ht);
            let (aa, la) = c.health_assets_and_liabs_stable_assets(ht);
            for (k, p) in [("al", al), ("ll", ll), ("aa", aa), ("la", la)] {
                ensure!((g(k)? - f(p)).abs() <= tol, "acc {a} {t:?} {k}: client {} program {p}", g(k)?);
            }
            let r = f(c.health_ratio(ht));
            let x = g("ratio")?;
            if f(ll) > 0.01 {
                ensure!(close(x, r, 1e-9, 200.0 * tol / f(ll) + 1e-6), "acc {a} {t:?} ratio: client {x} program {r}");
            }
            for (b, t) in c.effective_token_balances(ht).iter().zip(c.token_infos.iter()) {
                let i = o["tok"].as_array().unwrap().iter().position(|x| big(x) == Some(t.token_index as i128));
                let x = i.and_then(|i| fix(&o[name]["eff"][i])).ok_or("missing token")?;
                ensure!((x - f(b.spot_and_perp)).abs() <= tol, "acc {a} {name} effective balance of {}: {x} / {}", t.token_index, b.spot_and_perp);
            }
        }
        // the per-asset contributions add up to the health
        for (_, ht, name) in TYPES {
            let sum: f64 = o[name]["contrib"].as_array().unwrap().iter().filter_map(flt).sum();
            let y = f(c.health(ht)) / 1e6;
            let scale: f64 = o[name]["contrib"].as_array().unwrap().iter().filter_map(flt).map(f64::abs).sum();
            ensure!((sum - y).abs() <= (tol + 10.0) / 1e6 + 1e-12 * scale, "acc {a} {name}: contributions add up to {sum}, health is {y}");
        }
        let eq = equity(&m.w, &s, a);
        let x = fix(&o["equity"]).ok_or("equity")?;
        ensure!(close(x, eq, 1e-9, tol), "acc {a}: equity {x}, expected {eq}");
        let x = fix(&o["pnl"]).ok_or("pnl")?;
        let nd = s.accs[a].fixed.net_deposits as f64;
        ensure!(close(x, eq - nd, 1e-9, tol), "acc {a}: pnl {x}, expected {eq} - {nd}");
        let x = fix(&o["coll"]).ok_or("coll")?;
        ensure!((x - f(c.health(HealthType::Init))).abs() <= tol, "acc {a}: collateral value {x}");
        let x = fix(&o["settle"]).ok_or("settle")?;
        if c.has_token_info(0) {
            let y = f(c.perp_max_settle(0).map_err(|e| format!("{e:?}"))?);
            ensure!(close(x, y, 1e-9, tol), "acc {a}: perp max settle: client {x} program {y}");
        }
    }
    Ok(())
}

/// value of everything an account holds at oracle prices
fn equity(w: &World, s: &Snap, a: usize) -> f64 {
    let acc = &s.accs[a];
    let mut sum = 0.0;
    for t in acc.active_token_positions() {
        let ti = t.token_index as usize;
        sum += f(t.native(s.b(ti, 0))) * s.tok_price[ti];
    }
    for o in acc.active_serum3_orders() {
        let oo = load_open_orders(&w.s, o.open_orders);
        sum += oo.native_coin_total as f64 * s.tok_price[o.base_token_index as usize];
        sum += oo.native_pc_total as f64 * s.tok_price[o.quote_token_index as usize];
    }
    for p in acc.active_perp_positions() {
        let pi = p.market_index as usize;
        let pm = &s.perps[pi];
        let base = (p.base_position_lots + p.taker_base_lots) as f64 * pm.base_lot_size as f64;
        sum += base * s.perp_price[pi]
            + f(p.quote_position_native)
            + p.taker_quote_lots as f64 * pm.quote_lot_size as f64
            - f(p.unsettled_funding(pm));
    }
    sum
}

/// health ratio of a state, with the magnitude of the liabilities
fn ratio(w: &World, a: usize) -> Result<(f64, f64), String> {
    let c = w.cache(a, &|_| 0)?;
    let (_, l) = c.health_assets_and_liabs_stable_liabs(HealthType::Init);
    Ok((f(c.health_ratio(HealthType::Init)), f(l)))
}

/// "what if" figures: the client's simulated health ratio against the program's on the changed state
fn sims(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src, case, false)?;
    let w = &m.w;
    let a = 1 + src.idx(4);
    for o in w.acc(a).active_serum3_orders().map(|o| o.market_index).collect::<Vec<_>>() {
        if src.chance(70) {
            w.edit_acc(a, |acc| {
                let o = acc.serum3_orders_mut(o).unwrap();
                o.highest_placed_bid_inv = 0.0;
                o.lowest_placed_ask = 0.0;
            });
        }
    }
    let s = w.snap();
    let mut ts = Ts::on(w, &[a]);
    enum E {
        Tok(Vec<(usize, f64)>),
        Perp(usize, i64),
        Spot(usize, bool, u64),
    }
    let mut ex = vec![];
    for _ in 0..4 {
        match src.below(3) {
            0 => {
                let n = 1 + src.below(3);
                let v: Vec<(usize, f64)> = (0..n)
                    .map(|_| {
                        let t = src.idx(5);
                        let x = (src.log(1 << 36) as f64 / w.price(t)).floor().min(1e15);
                        (t, if src.bool() { x } else { -x })
                    })
                    .collect();
                ts.op(
                    "const h = C.hc.HealthCache.fromMangoAccount(C.group, C.accs[0]); return h.simHealthRatioWithTokenPositionChanges(C.group, a.map(([m, x]) => ({ mintPk: C.K(m), nativeTokenAmount: C.I80F48.fromI64(C.N(x)) })), C.HT.init);",
                    json!(v.iter().map(|(t, x)| json!([w.tokens[*t].mint.pubkey.to_string(), format!("{x}")])).collect::<Vec<_>>()),
                );
                ex.push(E::Tok(v));
            }
            1 => {
                let p = src.idx(2);
                let lots = 1 + src.log(1 << 20) as i64;
                let lots = if src.bool() { lots } else { -lots };
                ts.op(
                    "const h = C.hc.HealthCache.fromMangoAccount(C.group, C.accs[0]), pm = C.group.getPerpMarketByMarketIndex(a.p); return h.simHealthRatioWithPerpOrderChanges(pm, C.accs[0].getPerpPosition(a.p), a.s > 0 ? C.perp.PerpOrderSide.bid : C.perp.PerpOrderSide.ask, C.N(a.l), pm.price, C.HT.init);",
                    json!({"p": p, "s": lots.signum(), "l": lots.abs().to_string()}),
                );
                ex.push(E::Perp(p, lots));
            }
            _ => {
                let sp = src.idx(2);
                let bid = src.bool();
                let (b, q) = if sp == 0 { (1, 0) } else { (2, 0) };
                let amt = (src.log(1 << 36) as f64 / w.price(if bid { q } else { b })) as u64;
                ts.op(
                    "const h = C.hc.HealthCache.fromMangoAccount(C.group, C.accs[0]), g = C.group; const m = g.getSerum3MarketByMarketIndex(a.sp); const b = g.getFirstBankByTokenIndex(m.baseTokenIndex), q = g.getFirstBankByTokenIndex(m.quoteTokenIndex); const x = C.I80F48.fromI64(C.N(a.x)); return a.bid ? h.simHealthRatioWithSerum3BidChanges(b, q, x, m, C.HT.init) : h.simHealthRatioWithSerum3AskChanges(b, q, x, m, C.HT.init);",
                    json!({"sp": w.s.get_account::<Serum3Market>(w.spots[sp].market).market_index, "bid": bid, "x": amt.to_string()}),
                );
                ex.push(E::Spot(sp, bid, amt));
            }
        }
    }
    let out = ts.run()?;
    for (i, e) in ex.iter().enumerate() {
        let got = fix(out[i].as_ref().map_err(|e| format!("the client fails: {e}"))?).ok_or("no ratio")?;
        let fk = w.fork();
        let (want, liabs, what) = match e {
            E::Tok(v) => {
                for (t, _) in v {
                    fk.edit_acc(a, |acc| {
                        let _ = acc.ensure_token_position(*t as u16);
                    });
                }
                let mut c = fk.cache(a, &|_| 0)?;
                for (t, x) in v {
                    let i = c.token_info_index(*t as u16).map_err(|e| e.to_string())?;
                    c.token_infos[i].balance_spot += I80F48::from_num(*x);
                }
                let (_, l) = c.health_assets_and_liabs_stable_liabs(HealthType::Init);
                (f(c.health_ratio(HealthType::Init)), f(l), format!("token changes {v:?}"))
            }
            E::Perp(p, lots) => {
                // the simulation does not settle funding: give the trade without touching it
                let pm = fk.perp(*p);
                fk.edit_acc(a, |acc| {
                    if let Ok((_, _)) = acc.ensure_perp_position(pm.perp_market_index, pm.settle_token_index) {
                        let price = I80F48::from_num(fk.perp_price(*p));
                        let pp = acc.perp_position_mut(pm.perp_market_index).unwrap();
                        pp.taker_base_lots += lots;
                        pp.quote_position_native -= price * I80F48::from(lots * pm.base_lot_size);
                    }
                });
                let (r, l) = ratio(&fk, a)?;
                (r, l, format!("perp {p} trade of {lots} lots"))
            }
            E::Spot(sp, bid, amt) => {
                let idx = w.s.get_account::<Serum3Market>(w.spots[*sp].market).market_index;
                let acc = w.acc(a);
                let o = match acc.serum3_orders(idx) {
                    Ok(o) => *o,
                    Err(_) => continue,
                };
                if o.highest_placed_bid_inv != 0.0 || o.lowest_placed_ask != 0.0 {
                    continue;
                }
                let mut oo = load_open_orders(&fk.s, o.open_orders);
                let mut t = o.base_token_index;
                if *bid {
                    oo.native_pc_total = oo.native_pc_total + amt;
                    t = o.quote_token_index;
                } else {
                    oo.native_coin_total = oo.native_coin_total + amt;
                }
                fk.put_oo(o.open_orders, &oo);
                let mut c = fk.cache(a, &|_| 0)?;
                let i = c.token_info_index(t).map_err(|e| e.to_string())?;
                c.token_infos[i].balance_spot -= I80F48::from(*amt);
                let (_, l) = c.health_assets_and_liabs_stable_liabs(HealthType::Init);
                (f(c.health_ratio(HealthType::Init)), f(l), format!("spot order bid {bid} of {amt}"))
            }
        };
        case.nontrivial();
        case.label(match e {
            E::Tok(_) => "tokens",
            E::Perp(..) => "perp",
            E::Spot(..) => "spot",
        });
        if liabs > 1000.0 {
            let h = Health::of(&s, &s.accs[a], &w.oos(&s.accs[a]), &|_| 0);
            ensure!(
                close(got, want, 1e-6, 200.0 * (h.tol() + 10.0) / liabs + 1e-6),
                "acc {a}: {what}: the client predicts ratio {got}, the program gets {want} (liabs {liabs})"
            );
        }
    }
    Ok(())
}

/// the largest trades the client offers, and liquidation prices
fn limits(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src, case, true)?;
    let w = &m.w;
    let a = 1 + src.idx(4);
    for p in 0..2 {
        if src.chance(60) {
            let pm = w.perp(p);
            let lot = w.perp_price(p) * pm.base_lot_size as f64;
            let lots = (1.0 + src.log(1 << 34) as f64 / lot) as i64;
            let entry = lot * src.f(0.8, 1.2);
            let q = I80F48::from_num(lots as f64 * entry);
            let (l, s) = if src.bool() { (a, WHALE) } else { (WHALE, a) };
            w.grant_perp(p, l, s, lots, q);
        }
        if src.chance(30) {
            w.grant(a, 0, 0, src.log(1 << 34) as f64);
        }
    }
    let s = w.snap();
    let mut ts = Ts::on(w, &[a]);
    for p in 0..2 {
        for side in ["bid", "ask"] {
            ts.op(
                "const h = C.hc.HealthCache.fromMangoAccount(C.group, C.accs[0]), pm = C.group.getPerpMarketByMarketIndex(a.p); return h.getMaxPerpForHealthRatio(pm, pm.price, C.perp.PerpOrderSide[a.s], C.I80F48.fromNumber(2));",
                json!({"p": p, "s": side}),
            );
        }
        ts.op(
            "const pp = C.accs[0].getPerpPosition(a.p); return pp ? pp.getLiquidationPrice(C.group, C.accs[0]) : null;",
            json!({ "p": p }),
        );
    }
    let mut swaps = vec![];
    for _ in 0..3 {
        let x = src.idx(5);
        let y = (x + 1 + src.idx(4)) % 5;
        let slip = src.pick(&[1.0, 0.99, 0.9]);
        let price = slip * s.tok_price[x] / s.tok_price[y];
        swaps.push((x, y, price));
        ts.op(
            "const h = C.hc.HealthCache.fromMangoAccount(C.group, C.accs[0]), g = C.group; const b = g.getFirstBankByTokenIndex(a.x), q = g.getFirstBankByTokenIndex(a.y); return h.getMaxSwapSourceForHealthRatio(b, q, C.I80F48.fromNumber(a.p), C.I80F48.fromNumber(2));",
            json!({"x": x, "y": y, "p": price}),
        );
    }
    let out = ts.run()?;
    let h = Health::of(&s, &s.accs[a], &w.oos(&s.accs[a]), &|_| 0);
    let (r0, _) = ratio(w, a)?;
    let init = h.health(HT::Init);
    let slack = |l: f64| 200.0 * (h.tol() + 10.0) / l.max(1.0) + 1e-6;
    for p in 0..2 {
        let pm = w.perp(p);
        for (k, dir) in [(0, 1i64), (1, -1)] {
            let o = &out[p * 3 + k];
            let lots = match o {
                Ok(v) => (fix(v).ok_or("lots")?).min(9e18) as i64,
                Err(e) => {
                    return Err(format!("acc {a} perp {p} dir {dir} (ratio {r0}): the client fails: {e}"));
                }
            };
            if w.acc(a).perp_position(p as u16).is_err() || lots > 1i64 << 44 {
                continue;
            }
            let at = |l: i64| -> Result<(f64, f64), String> {
                let fk = w.fork();
                fk.edit_acc(a, |acc| {
                    let price = I80F48::from_num(fk.perp_price(p));
                    let pp = acc.perp_position_mut(p as u16).unwrap();
                    pp.taker_base_lots += dir * l;
                    pp.quote_position_native -= price * I80F48::from(dir * l * pm.base_lot_size);
                });
                ratio(&fk, a)
            };
            let (r, l) = at(lots)?;
            case.note(|| format!("perp {p} dir {dir}: {lots} lots: {r0} -> {r}"));
            if lots > 0 {
                case.nontrivial();
                case.label("perp");
                ensure!(
                    r >= 2.0 - slack(l) || r >= r0 - slack(l),
                    "acc {a} perp {p} dir {dir}: trading the offered {lots} lots takes the health ratio from {r0} to {r}"
                );
            }
            let (r2, l2) = at(lots + 2)?;
            let q = *w.acc(a).perp_position(p as u16).unwrap();
            // resting orders flatten the curve, and a settle token with different asset and
            // liability prices bends it: then the client settles for less
            let st = s.b(0, 0).stable_price();
            let flat = (f(st) / s.tok_price[0] - 1.0).abs() < 0.005;
            if flat && r0 > 2.1 && l2 > 1000.0 && q.bids_base_lots == 0 && q.asks_base_lots == 0 {
                ensure!(
                    r2 <= 2.1 + slack(l2) + 0.01,
                    "acc {a} perp {p} dir {dir}: the offered {lots} lots are too few: two more still have ratio {r2}"
                );
            }
        }
        // liquidation price
        let pp = match w.acc(a).perp_position(p as u16) {
            Ok(pp) => *pp,
            Err(_) => continue,
        };
        if pp.base_position_lots == 0 {
            continue;
        }
        if let Ok(v) = &out[p * 3 + 2] {
            let at = |x: I80F48| -> Result<f64, String> {
                let fk = w.fork();
                fk.set_oracle(w.perps[p].oracle, f(x));
                Ok(f(fk.cache(a, &|_| 0)?.health(HealthType::Maint)))
            };
            let maint = h.health(HT::Maint);
            let price = w.perp_price(p);
            match fix(v) {
                None => {
                    if pp.base_position_lots > 0 {
                        let x = at(I80F48::from_bits(1))?;
                        ensure!(x >= -h.tol() - 1.0, "acc {a} perp {p}: no liquidation price but health at price 0 is {x}");
                    }
                }
                Some(x) if maint > 0.0 => {
                    case.label("liquidation price");
                    let step = f(pm.lot_to_native_price(1));
                    let base = pp.base_position_lots as f64 * pm.base_lot_size as f64;
                    let x = x.max(1e-12);
                    let y = at(I80F48::from_num(x))?;
                    // within one price lot, or within 0.1 health
                    let far = (step * 1.01 + 1e-9) * (base.abs() + (pp.taker_base_lots.abs() + pp.bids_base_lots + pp.asks_base_lots) as f64 * pm.base_lot_size as f64) * 4.0;
                    ensure!(
                        y.abs() <= far + h.tol() + 1.0 || x < step,
                        "acc {a} perp {p}: at liquidation price {x} (now {price}) maint health is {y} (now {maint}), allowed {far}"
                    );
                }
                _ => {}
            }
        }
    }
    for (i, (x, y, price)) in swaps.iter().enumerate() {
        let o = out[6 + i].as_ref().map_err(|e| format!("acc {a} swap {x}->{y}: the client fails: {e}"))?;
        let amount = fix(o).ok_or("amount")?;
        let c = w.cache(a, &|_| 0)?;
        if !c.has_token_info(*x as u16) || !c.has_token_info(*y as u16) {
            continue;
        }
        let (xi, yi) = (c.token_info_index(*x as u16).unwrap(), c.token_info_index(*y as u16).unwrap());
        let at = |amt: f64| {
            let mut c = c.clone();
            let amt = I80F48::from_num(amt);
            c.token_infos[xi].balance_spot -= amt;
            c.token_infos[yi].balance_spot += amt * I80F48::from_num(*price);
            let (_, l) = c.health_assets_and_liabs_stable_liabs(HealthType::Init);
            (f(c.health_ratio(HealthType::Init)), f(l))
        };
        if amount > 1e30 || amount * price > 1e30 || amount * price * s.tok_price[*y] > 1e30 {
            continue;
        }
        let (r, l) = at(amount);
        case.note(|| format!("swap {x}->{y}: {amount}: {r0} -> {r}"));
        if amount > 0.0 {
            case.nontrivial();
            case.label("swap");
            ensure!(
                r >= 2.0 - slack(l) || r >= r0 - slack(l),
                "acc {a} swap {x}->{y}: swapping the offered {amount} takes the health ratio from {r0} to {r}"
            );
        }
        let _ = init;
    }
    Ok(())
}

/// the largest withdrawal the client offers is one the program accepts, and not much too small
fn withdraw(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = state(src, case, true)?;
    let w = &m.w;
    w.edit_group(|g| g.ix_gate = 0);
    let a = 1 + src.idx(3);
    if w.acc(a).being_liquidated() {
        return Ok(());
    }
    let t = src.idx(5);
    if src.bool() {
        w.edit_token(t, |b| b.net_borrow_limit_per_window_quote = -1);
    }
    let s = w.snap();
    let mut ts = Ts::on(w, &[a]);
    ts.op("return C.accs[0].getMaxWithdrawWithBorrowForToken(C.group, C.K(a));", json!(w.tokens[t].mint.pubkey.to_string()));
    let out = ts.run()?;
    let x = fix(out[0].as_ref().map_err(|e| format!("acc {a} token {t}: the client fails: {e}"))?).ok_or("amount")?;
    ensure!(x >= 0.0 && x.fract() == 0.0, "offered withdrawal {x}");
    let b = s.b(t, 0);
    let unit = w.price(t).max(f(b.stable_price()));
    let h = Health::of(&s, &s.accs[a], &w.oos(&s.accs[a]), &|_| 0);
    let try_it = |amt: f64| {
        let fk = w.fork();
        let ok = fk.ok(fk.withdraw_ix(a, t, 0, amt as u64, true));
        (ok, fk.fail_text())
    };
    case.note(|| format!("acc {a} token {t}: offered {x}"));
    case.note(|| format!("{h:?}"));
    // nothing but health limits it: then a little more is refused
    let own = f(w.pos(a, t)).max(0.0);
    let vault = s.v(t, 0) as f64;
    let room = f(b.native_deposits()) * (1.0 - b.min_vault_to_deposits_ratio) - f(b.native_borrows());
    if h.health(HT::Init) > h.tol() + 2.0 && x + 10.0 < vault && x < room * 0.9 && b.reduce_only == 0 && w.acc(a).active_serum3_orders().count() == 0 {
        case.label("maximal");
        let lo = w.price(t).min(f(b.stable_price()));
        let more = x * (1.0 + 1e-6) + 5.0 + (2.0 + h.tol()) / lo;
        let (ok, _) = try_it(more.ceil());
        let health = h.health(HT::Init);
        ensure!(!ok, "acc {a} token {t}: {x} offered but {more} is accepted (deposits {own}, vault {vault}, init health {health})");
    }
    if x > 0.0 {
        case.nontrivial();
        let (ok, e) = try_it(x);
        if !ok {
            // units the client's rounding may be off by
            let back = 2.0 + (h.tol() + 2.0) / unit * 2.0;
            let (ok2, e2) = if x > back { try_it(x - back) } else { (true, String::new()) };
            let excused = ["6026", "6023", "6024", "6062"];
            ensure!(
                ok2 || excused.iter().any(|k| e2.contains(k)),
                "acc {a} token {t}: the offered withdrawal of {x} is refused: {e} / {e2}"
            );
        }
    }
    Ok(())
}
