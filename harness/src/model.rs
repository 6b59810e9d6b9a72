//! Independent reference models, in f64, of what the program computes in fixed point.
use crate::world::*;
use mango_v4::state::*;
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HT {
    Init,
    LiqEnd,
    Maint,
}

#[derive(Clone, Debug)]
pub struct HTok {
    pub idx: u16,
    pub bal: f64,
    pub aw: [f64; 3],
    pub lw: [f64; 3],
    pub oracle: f64,
    pub stable: f64,
    pub liquidatable: bool,
}
fn ti(t: HT) -> usize {
    match t {
        HT::Init => 0,
        HT::LiqEnd => 1,
        HT::Maint => 2,
    }
}
impl HTok {
    pub fn ap(&self, t: HT) -> f64 {
        if t == HT::Init {
            self.oracle.min(self.stable)
        } else {
            self.oracle
        }
    }
    pub fn lp(&self, t: HT) -> f64 {
        if t == HT::Init {
            self.oracle.max(self.stable)
        } else {
            self.oracle
        }
    }
    pub fn a(&self, t: HT) -> f64 {
        self.aw[ti(t)] * self.ap(t)
    }
    pub fn l(&self, t: HT) -> f64 {
        self.lw[ti(t)] * self.lp(t)
    }
    pub fn contrib(&self, t: HT, x: f64) -> f64 {
        if x < 0.0 {
            x * self.l(t)
        } else {
            x * self.a(t)
        }
    }
}
#[derive(Clone, Debug)]
pub struct HSpot {
    pub base: usize, // index into toks
    pub quote: usize,
    pub res_base: f64,
    pub res_quote: f64,
    pub base_as_quote: f64,
    pub quote_as_base: f64,
    pub funds: bool,
}
#[derive(Clone, Debug)]
pub struct HPerp {
    pub idx: u16,
    pub settle: u16,
    pub lots: i64,
    pub bids: i64,
    pub asks: i64,
    pub lot: f64,
    pub quote: f64,
    pub aw: [f64; 3],
    pub lw: [f64; 3],
    pub ow: [f64; 3],
    pub oracle: f64,
    pub stable: f64,
    pub open_orders: bool,
    pub fills: bool,
}
impl HPerp {
    fn ap(&self, t: HT) -> f64 {
        if t == HT::Init {
            self.oracle.min(self.stable)
        } else {
            self.oracle
        }
    }
    fn lp(&self, t: HT) -> f64 {
        if t == HT::Init {
            self.oracle.max(self.stable)
        } else {
            self.oracle
        }
    }
    pub fn uhupnl(&self, t: HT) -> f64 {
        let case = |lots: i64, price: f64| {
            let net = (self.lots + lots) as f64 * self.lot;
            let v = if net < 0.0 {
                net * self.lw[ti(t)] * self.lp(t)
            } else {
                net * self.aw[ti(t)] * self.ap(t)
            };
            v - lots as f64 * self.lot * price
        };
        self.quote + case(self.bids, self.lp(t)).min(case(-self.asks, self.ap(t)))
    }
    pub fn hupnl(&self, t: HT) -> f64 {
        let u = self.uhupnl(t);
        if u > 0.0 {
            u * self.ow[ti(t)]
        } else {
            u
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Health {
    pub toks: Vec<HTok>,
    pub spots: Vec<HSpot>,
    pub perps: Vec<HPerp>,
    pub mag: f64,
}

pub type OOs = HashMap<Pubkey, serum_dex::state::OpenOrders>;

pub fn scaled_aw(b: &Bank, price: f64) -> f64 {
    let dep = f(b.indexed_deposits) * f(b.deposit_index) + b.potential_serum_tokens as f64;
    let q = dep * price;
    let w = f(b.init_asset_weight);
    if b.deposit_weight_scale_start_quote == f64::MAX || q <= b.deposit_weight_scale_start_quote {
        w
    } else {
        w * b.deposit_weight_scale_start_quote / q
    }
}
pub fn scaled_lw(b: &Bank, price: f64) -> f64 {
    let q = f(b.indexed_borrows) * f(b.borrow_index) * price;
    let w = f(b.init_liab_weight);
    if b.borrow_weight_scale_start_quote == f64::MAX || q <= b.borrow_weight_scale_start_quote {
        w
    } else {
        w * q / b.borrow_weight_scale_start_quote
    }
}
pub fn maint_weights(b: &Bank, now: u64) -> (f64, f64) {
    let (a, l) = (f(b.maint_asset_weight), f(b.maint_liab_weight));
    let (ta, tl) = (
        f(b.maint_weight_shift_asset_target),
        f(b.maint_weight_shift_liab_target),
    );
    if b.maint_weight_shift_duration_inv.is_zero() || now <= b.maint_weight_shift_start {
        (a, l)
    } else if now >= b.maint_weight_shift_end {
        (ta, tl)
    } else {
        let s = (now - b.maint_weight_shift_start) as f64
            / (b.maint_weight_shift_end - b.maint_weight_shift_start) as f64;
        (a + s * (ta - a), l + s * (tl - l))
    }
}

impl Health {
    /// Health of account `a`; `bank_of` says which of a token's banks is used.
    pub fn of(
        s: &Snap,
        acc: &MangoAccountValue,
        oos: &OOs,
        bank_of: &dyn Fn(usize) -> usize,
    ) -> Health {
        let mut h = Health::default();
        for p in acc.active_token_positions() {
            let t = p.token_index as usize;
            let b = s.b(t, bank_of(t));
            let oracle = s.tok_price[t];
            let stable = b.stable_price_model.stable_price;
            let liab = oracle.max(stable);
            let (ma, ml) = maint_weights(b, s.now);
            h.toks.push(HTok {
                idx: p.token_index,
                bal: nativef(p.indexed_position, b),
                aw: [scaled_aw(b, liab), f(b.init_asset_weight), ma],
                lw: [scaled_lw(b, liab), f(b.init_liab_weight), ml],
                oracle,
                stable,
                liquidatable: b.disable_asset_liquidation == 0,
            });
        }
        for so in acc.active_serum3_orders() {
            let oo = &oos[&so.open_orders];
            let find = |t: u16| h.toks.iter().position(|x| x.idx == t).unwrap();
            let (bi, qi) = (find(so.base_token_index), find(so.quote_token_index));
            let (ct, cf, pt, pf, reb) = (
                oo.native_coin_total,
                oo.native_coin_free,
                oo.native_pc_total,
                oo.native_pc_free,
                oo.referrer_rebates_accrued,
            );
            h.toks[bi].bal += cf as f64;
            h.toks[qi].bal += pf as f64;
            let rb = (ct - cf) as f64;
            let rq = (pt - pf) as f64;
            h.spots.push(HSpot {
                base: bi,
                quote: qi,
                res_base: rb,
                res_quote: rq,
                base_as_quote: rb * so.lowest_placed_ask,
                quote_as_base: rq * so.highest_placed_bid_inv,
                funds: ct != 0 || pt != 0 || reb != 0,
            });
        }
        for p in acc.active_perp_positions() {
            let i = p.market_index as usize;
            let m = &s.perps[i];
            let lots = p.base_position_lots;
            let funding = if lots > 0 {
                (f(m.long_funding) - f(p.long_settled_funding)) * lots as f64
            } else if lots < 0 {
                (f(m.short_funding) - f(p.short_settled_funding)) * lots as f64
            } else {
                0.0
            };
            h.perps.push(HPerp {
                idx: p.market_index,
                settle: m.settle_token_index,
                lots: lots + p.taker_base_lots,
                bids: p.bids_base_lots,
                asks: p.asks_base_lots,
                lot: m.base_lot_size as f64,
                quote: f(p.quote_position_native) - funding
                    + (p.taker_quote_lots * m.quote_lot_size) as f64,
                aw: [
                    f(m.init_base_asset_weight),
                    f(m.init_base_asset_weight),
                    f(m.maint_base_asset_weight),
                ],
                lw: [
                    f(m.init_base_liab_weight),
                    f(m.init_base_liab_weight),
                    f(m.maint_base_liab_weight),
                ],
                ow: [
                    f(m.init_overall_asset_weight),
                    f(m.init_overall_asset_weight),
                    f(m.maint_overall_asset_weight),
                ],
                oracle: s.perp_price[i],
                stable: m.stable_price_model.stable_price,
                open_orders: p.asks_base_lots != 0 || p.bids_base_lots != 0,
                fills: p.taker_base_lots != 0 || p.taker_quote_lots != 0,
            });
        }
        for x in &h.spots {
            let (b, q) = (&h.toks[x.base], &h.toks[x.quote]);
            h.mag += 4.0
                * (x.res_base * b.oracle.max(b.stable) + x.res_quote * q.oracle.max(q.stable))
                * b.lw[0].max(q.lw[0]).min(1e6).max(1.0);
        }
        for t in &h.toks {
            h.mag += t.bal.abs() * (t.oracle.max(t.stable) * t.lw[0].min(1e6) + 1e-3);
        }
        for p in &h.perps {
            let k = h
                .toks
                .iter()
                .find(|t| t.idx == p.settle)
                .map(|t| t.lw[0].min(1e6) * t.oracle.max(t.stable))
                .unwrap_or(1.0)
                .max(1.0);
            h.mag += k
                * (p.quote.abs()
                    + (p.lots.abs() + p.bids + p.asks) as f64
                        * p.lot
                        * p.oracle.max(p.stable)
                        * 2.0);
        }
        h
    }

    /// How far the fixed-point result may be from this one.
    pub fn tol(&self) -> f64 {
        let bal: f64 = self.toks.iter().map(|t| t.bal.abs()).sum::<f64>()
            + self
                .perps
                .iter()
                .map(|p| (p.lots.abs() + p.bids + p.asks) as f64 * p.lot + p.quote.abs())
                .sum::<f64>();
        // order prices are cut to 48 fractional bits before they multiply the reserved amounts
        let conv: f64 = self
            .spots
            .iter()
            .map(|x| {
                let (b, q) = (&self.toks[x.base], &self.toks[x.quote]);
                let k = |t: &HTok| t.oracle.max(t.stable) * t.lw[0].min(1e6).max(1.0);
                x.res_quote * k(b) + x.res_base * k(q)
            })
            .sum();
        1e-3 + bal * 3e-14 + self.mag * 1e-11 + conv * 8e-15
    }

    pub fn effective(&self, t: HT, ignore_neg: bool) -> Vec<f64> {
        self.toks
            .iter()
            .map(|tok| {
                tok.bal
                    + self
                        .perps
                        .iter()
                        .filter(|p| p.settle == tok.idx)
                        .map(|p| p.hupnl(t))
                        .filter(|h| !ignore_neg || *h > 0.0)
                        .sum::<f64>()
            })
            .collect()
    }
    /// (as base, as quote) per spot market
    fn reserved(&self, t: HT) -> Vec<(f64, f64)> {
        self.spots
            .iter()
            .map(|s| {
                let (b, q) = (&self.toks[s.base], &self.toks[s.quote]);
                let mut qb = s.res_quote * q.ap(t) / b.lp(t);
                if s.quote_as_base != 0.0 {
                    qb = qb.min(s.quote_as_base)
                }
                let mut bq = s.res_base * b.ap(t) / q.lp(t);
                if s.base_as_quote != 0.0 {
                    bq = bq.min(s.base_as_quote)
                }
                (s.res_base + qb, s.res_quote + bq)
            })
            .collect()
    }
    pub fn sum(&self, t: HT, eff: &[f64]) -> f64 {
        let mut h: f64 = self
            .toks
            .iter()
            .zip(eff)
            .map(|(tok, x)| tok.contrib(t, *x))
            .sum();
        let res = self.reserved(t);
        let mut maxres = vec![0.0; self.toks.len()];
        for (s, r) in self.spots.iter().zip(&res) {
            maxres[s.base] += r.0;
            maxres[s.quote] += r.1;
        }
        for (s, r) in self.spots.iter().zip(&res) {
            if r.0 == 0.0 || r.1 == 0.0 {
                continue;
            }
            let effect = |i: usize, m: f64| {
                let tok = &self.toks[i];
                // the last `m` tokens added on the way up to the fullest balance
                let top = eff[i] + maxres[i];
                tok.contrib(t, top) - tok.contrib(t, top - m)
            };
            h += effect(s.base, r.0).min(effect(s.quote, r.1));
        }
        h
    }
    pub fn health(&self, t: HT) -> f64 {
        self.sum(t, &self.effective(t, false))
    }
    pub fn perp_max_settle(&self, settle: u16) -> f64 {
        let eff = self.effective(HT::Maint, true);
        let h = self.sum(HT::Maint, &eff);
        if h <= 0.0 {
            return 0.0;
        }
        let i = self.toks.iter().position(|x| x.idx == settle).unwrap();
        let (a, l) = (self.toks[i].a(HT::Maint), self.toks[i].l(HT::Maint));
        taken_for_zero(h, eff[i], a, l)
    }
    pub fn liq_spot_assets(&self, margin: f64) -> bool {
        let e = self.effective(HT::LiqEnd, false);
        self.toks
            .iter()
            .zip(&e)
            .any(|(t, x)| t.bal >= 1.0 + margin && *x >= 1.0 + margin && t.liquidatable)
    }
    pub fn liq_spot_borrows(&self) -> bool {
        let e = self.effective(HT::LiqEnd, false);
        self.toks.iter().zip(&e).any(|(t, x)| t.bal < 0.0 && *x < 0.0)
    }
    pub fn phase1(&self) -> bool {
        self.spots.iter().any(|s| s.funds) || self.perps.iter().any(|p| p.open_orders)
    }
    pub fn phase2(&self) -> bool {
        (self.liq_spot_assets(0.0) && self.liq_spot_borrows())
            || self
                .perps
                .iter()
                .any(|p| p.lots != 0 || p.fills || (p.lots == 0 && p.quote > 0.0))
    }
}

pub fn taken_for_zero(h: f64, spot: f64, a: f64, l: f64) -> f64 {
    if h <= 0.0 {
        return 0.0;
    }
    if spot > 0.0 && h <= spot * a {
        h / a
    } else {
        let s = spot.max(0.0);
        s + (h - s * a).max(0.0) / l
    }
}

impl World {
    pub fn oos(&self, acc: &MangoAccountValue) -> OOs {
        acc.active_serum3_orders()
            .map(|o| {
                (
                    o.open_orders,
                    crate::pt::load_open_orders(&self.s, o.open_orders),
                )
            })
            .collect()
    }
    pub fn health(&self, s: &Snap, a: usize) -> Health {
        Health::of(s, &s.accs[a], &self.oos(&s.accs[a]), &|_| 0)
    }
}

/// Pnl that may be settled in the current window: (most negative, most positive).
pub fn settle_range(pp: &PerpPosition, m: &PerpMarket, now: u64) -> (f64, f64) {
    if m.settle_pnl_limit_factor < 0.0 {
        return (f64::NEG_INFINITY, f64::INFINITY);
    }
    let w = m.settle_pnl_limit_window_size_ts;
    let cur = now / w == pp.settle_pnl_limit_window as u64;
    let used = if cur { pp.settle_pnl_limit_settled_in_current_window_native as f64 } else { 0.0 };
    let value = m.stable_price_model.stable_price * (pp.base_position_lots * m.base_lot_size) as f64;
    let upnl = (f(pp.quote_position_native) + value).abs().ceil();
    let base = (m.settle_pnl_limit_factor as f64 * value.abs()).floor()
        + (pp.recurring_settle_pnl_allowance.abs() as f64).min(upnl);
    let one = f(pp.oneshot_settle_pnl_allowance);
    let lo = -base + if one < 0.0 { one.floor() } else { 0.0 };
    let hi = base + if one >= 0.0 { one.ceil() } else { 0.0 };
    ((lo - used).min(0.0), (hi - used).max(0.0))
}
