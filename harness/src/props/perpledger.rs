//! C12: perp bookkeeping: positions sum to zero, pending fills, entry prices, pnl, fees, open interest.
use crate::bookmodel::{events, Ev};
use crate::ensure;
use crate::machine::{self, Machine, K};
use crate::pbt::*;
use crate::pt::*;
use crate::world::*;
use mango_v4::state::*;
use K::*;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "`history`: random histories over the perp instructions (orders, fills, cancels, settlements, liquidations, bankruptcies, force closes); after every step the sums over all accounts, the book and the event queue must match. `trade`: the same instructions on randomized positions, every field of every position compared with an independent computation. Non-trivial: at least one fill was matched or consumed",
        assumptions: &["fees of a maker are stored on the event as 32-bit floats, which is accepted as precision"],
        suites: vec![
            Suite { name: "history", quick: 8_000, thorough: 800_000, f: history },
            Suite { name: "trade", quick: 12_000, thorough: 800_000, f: trade },
        ],
    }
}

const MIX: [(K, u64); 15] = [
    (Time, 5), (Price, 6), (PerpOrder, 40), (PerpPegged, 8), (PerpCancel, 4), (Consume, 18), (Funding, 6), (SettlePnl, 8), (SettleFees, 4),
    (PerpLiqCancel, 3), (PerpLiqBase, 6), (PerpLiqNeg, 5), (ForceClosePerp, 3), (Deactivate, 2), (Withdraw, 4),
];

fn queue(w: &World, p: usize) -> Vec<(Ev, u64, f32, f32)> {
    events(&w.s.get_account_boxed::<EventQueue>(w.perps[p].event_queue))
}

/// position lots against book and queue; order slots against both
fn lots(w: &World, s: &Snap, p: usize) -> Result<bool, String> {
    let book = w.book(p)?;
    let q = queue(w, p);
    let m = &s.perps[p];
    let (mut sum, mut oi) = (0i64, 0i64);
    for (a, acc) in s.accs.iter().enumerate() {
        let pp = s.pp(a, p);
        let key = w.accs[a].key;
        sum += pp.base_position_lots;
        oi += pp.base_position_lots.abs();
        let (mut tb, mut tq) = (0i64, 0i64);
        let mut rest = [0i64; 2];
        for (i, side) in book.iter().enumerate() {
            rest[i] += side.iter().filter(|o| o.owner == key).map(|o| o.qty).sum::<i64>();
        }
        let mut slots: Vec<(u8, u128)> = vec![];
        for (e, ..) in &q {
            match e {
                Ev::Fill { taker_side, maker, taker, price, qty, slot, id, out, .. } => {
                    let sg = if *taker_side == Side::Bid { 1 } else { -1 };
                    if *taker == key {
                        tb += sg * qty;
                        tq -= sg * qty * price;
                    }
                    if *maker == key {
                        rest[1 - *taker_side as usize] += qty;
                        if *out { slots.push((*slot, *id)); }
                    }
                }
                Ev::Out { side, owner, qty, slot, id, .. } => {
                    if *owner == key {
                        rest[*side as usize] += qty;
                        slots.push((*slot, *id));
                    }
                }
            }
        }
        ensure!((pp.taker_base_lots, pp.taker_quote_lots) == (tb, tq), "acc {a}: pending taker lots {}/{} but the queue holds {tb}/{tq}", pp.taker_base_lots, pp.taker_quote_lots);
        ensure!([pp.bids_base_lots, pp.asks_base_lots] == rest, "acc {a}: {}/{} lots in open orders but book and queue hold {rest:?}", pp.bids_base_lots, pp.asks_base_lots);
        // slots
        for (i, side) in book.iter().enumerate() {
            for o in side.iter().filter(|o| o.owner == key) {
                slots.push((o.slot, o.key));
                let oo = acc.perp_order_by_raw_index(o.slot as usize).map_err(|e| format!("{e:?}"))?;
                ensure!(oo.is_active_for_market(p as u16) && oo.id == o.key && oo.side_and_tree().side() as usize == i, "acc {a}: order {} on the book is not in slot {}", o.key, o.slot);
                ensure!(oo.client_id == o.client_id, "acc {a}: slot {} has client id {} but the order {}", o.slot, oo.client_id, o.client_id);
                ensure!((oo.side_and_tree().order_tree() == BookSideOrderTree::OraclePegged) == o.pegged, "acc {a}: slot {} names the wrong tree", o.slot);
                // quantity shrinks when the fill is consumed
                let pend: i64 = q.iter().map(|(e, ..)| match e { Ev::Fill { maker, id, qty, .. } if *maker == key && *id == o.key => *qty, _ => 0 }).sum();
                ensure!(oo.quantity == o.qty + pend, "acc {a}: slot {} says {} lots, order has {} and {pend} pending", o.slot, oo.quantity, o.qty);
            }
        }
        for (i, oo) in acc.all_perp_orders().enumerate() {
            if oo.is_active_for_market(p as u16) {
                ensure!(slots.contains(&(i as u8, oo.id)), "acc {a}: slot {i} holds order {} that is neither on the book nor about to leave", oo.id);
                ensure!(acc.perp_position(p as u16).is_ok(), "acc {a}: order without a position");
            }
        }
    }
    ensure!(sum == 0, "base positions of perp {p} sum to {sum}");
    ensure!(m.open_interest == oi, "open interest {} but positions add up to {oi}", m.open_interest);
    Ok(!q.is_empty())
}

fn unsettled(pp: &PerpPosition, m: &PerpMarket) -> f64 {
    let b = pp.base_position_lots as f64;
    if b > 0.0 { f(m.long_funding - pp.long_settled_funding) * b } else { f(m.short_funding - pp.short_settled_funding) * b }
}
/// everything the market's participants and the dao own in quote; and pending maker volume
fn wealth(w: &World, s: &Snap, p: usize) -> (f64, f64, f64) {
    let m = &s.perps[p];
    let mut x = m.fees_accrued;
    let (mut fund, mut mag) = (0.0, 0.0f64);
    for a in 0..s.accs.len() {
        let pp = s.pp(a, p);
        x += pp.quote_position_native;
        let u = unsettled(&pp, m);
        fund += u;
        mag = mag.max(u.abs()).max(f(pp.quote_position_native).abs());
    }
    let (mut fee, mut vol) = (0.0, 0.0);
    for (e, _, mf, _) in queue(w, p) {
        if let Ev::Fill { price, qty, .. } = e {
            let q = (price as f64) * (qty as f64) * m.quote_lot_size as f64;
            fee += q * mf as f64;
            vol += q;
        }
    }
    (f(x) - fund - fee, vol, mag)
}


fn history(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &MIX);
    let w = &m.w;
    let mut b = w.snap();
    let mut wb = [wealth(w, &b, 0), wealth(w, &b, 1)];
    let n = 5 + src.below(50);
    let mut busy = false;
    for _ in 0..n {
        let st = m.step(src, &b);
        let a = w.snap();
        case.note(|| format!("{} -> {}", st.what, if st.ok { "ok".into() } else { st.err.clone() }));
        if st.ok { case.label(st.k.name()); }
        for p in 0..2 {
            busy |= lots(w, &a, p).map_err(|e| format!("perp {p}: {e} after {}", st.what))?;
            let x = wealth(w, &a, p);
            let d = x.0 - wb[p].0;
            let tol = 2e-3 + 1e-10 * (x.1 + wb[p].1) + 1e-12 * x.2.max(wb[p].2);
            let ins = b.insurance as f64 - a.insurance as f64;
            let (lo, hi) = if st.k == PerpLiqNeg && st.ok && st.p == p {
                case.label(if ins > 0.0 { "insurance payout" } else { "no payout" });
                (ins.min(0.0) - 1e-9, if a.perps[p].open_interest == 0 { f64::INFINITY } else { ins + 1.0 })
            } else { (0.0, 0.0) };
            ensure!(d >= lo - tol && d <= hi + tol, "perp {p}: the participants' quote sum changed by {d} (insurance paid {ins}) after {}", st.what);
            wb[p] = x;
        }
        b = a;
    }
    if busy { case.nontrivial(); }
    Ok(())
}

/// reference state of a position
#[derive(Clone, Debug)]
pub struct R {
    pub base: i64, pub run: i64, pub mv: f64, pub tv: f64, pub pst: i64, pub rec: f64,
    pub quote: f64, pub ls: f64, pub ss: f64, pub cl: f64, pub cs: f64, pub avg: f64, pub one: f64, pub real: f64, pub used: i64, pub window: u32,
    pub tb: i64, pub tq: i64,
    pub slop: f64,
}
impl R {
    pub fn of(p: &PerpPosition) -> R {
        R {
            base: p.base_position_lots, run: p.quote_running_native, mv: p.maker_volume as f64, tv: p.taker_volume as f64, pst: p.perp_spot_transfers,
            rec: p.recurring_settle_pnl_allowance as f64, quote: f(p.quote_position_native), ls: f(p.long_settled_funding), ss: f(p.short_settled_funding),
            cl: p.cumulative_long_funding, cs: p.cumulative_short_funding, avg: p.avg_entry_price_per_base_lot, one: f(p.oneshot_settle_pnl_allowance),
            real: f(p.realized_pnl_for_position_native), used: p.settle_pnl_limit_settled_in_current_window_native, window: p.settle_pnl_limit_window,
            tb: p.taker_base_lots, tq: p.taker_quote_lots, slop: 0.0,
        }
    }
    pub fn funding(&mut self, m: &PerpMarket) {
        let (l, s) = (f(m.long_funding), f(m.short_funding));
        let owed = self.base as f64 * if self.base > 0 { l - self.ls } else { s - self.ss };
        self.slop += 1e-13 * (l.abs() + self.ls.abs() + s.abs() + self.ss.abs()) * self.base.abs() as f64;
        self.quote -= owed;
        self.one -= owed;
        self.real -= owed;
        if self.base > 0 { self.cl += owed } else { self.cs -= owed }
        self.ls = l;
        self.ss = s;
    }
    pub fn fee(&mut self, x: f64) {
        self.quote -= x;
        self.one -= x;
        self.real -= x;
        self.slop += x.abs() * 1e-9;
    }
    /// buys `db` lots for `-dq` quote
    pub fn trade(&mut self, m: &PerpMarket, db: i64, dq: f64) {
        if db == 0 {
            self.quote += dq;
            self.constrain(m);
            return;
        }
        let (old, new) = (self.base, self.base + db);
        let closed = if old.signum() * db.signum() < 0 { old.abs().min(db.abs()) } else { 0 };
        let opened = db.abs() - closed;
        let px = (dq / db as f64).abs();
        let gain = closed as f64 * (px - self.avg) * old.signum() as f64;
        self.slop += 1e-12 * closed as f64 * (px + self.avg) + 1e-14 * dq.abs() + closed as f64 * 4e-15;
        let fresh = old == 0 || old.signum() != new.signum();
        if new == 0 {
            self.run = 0;
            self.avg = 0.0;
            self.real = 0.0;
        } else if fresh {
            self.run = (-(new as f64) * px) as i64;
            self.avg = px;
            self.real = 0.0;
        } else {
            self.run += dq as i64;
            if opened > 0 { self.avg = (old.abs() as f64 * self.avg + dq.abs()) / new.abs() as f64; }
            else { self.real += gain; }
        }
        let net = (opened - closed) as f64 * m.base_lot_size as f64 * m.stable_price_model.stable_price * m.settle_pnl_limit_factor as f64;
        self.rec = (self.rec.abs() - net.trunc()).max(0.0);
        self.base = new;
        self.quote += dq;
        self.constrain(m);
    }
    pub fn constrain(&mut self, m: &PerpMarket) {
        let upnl = (self.quote + self.base as f64 * m.base_lot_size as f64 * m.stable_price_model.stable_price).abs().ceil();
        self.rec = self.rec.abs().min(upnl).max(0.0);
    }
    pub fn cmp(&self, o: &R) -> Result<(), String> {
        let e = |x: f64, y: f64| (x - y).abs() <= 2e-3 + self.slop + 1e-11 * (x.abs() + y.abs());
        let i = |x: i64, y: i64, t: i64| (x - y).abs() <= t;
        let big = self.base.abs().max(1) as f64;
        ensure!(self.base == o.base, "base lots {} expected {}", o.base, self.base);
        ensure!(e(self.quote, o.quote), "quote {} expected {}", o.quote, self.quote);
        ensure!((self.ls - o.ls).abs() < 1e-9 * (1.0 + self.ls.abs()) && (self.ss - o.ss).abs() < 1e-9 * (1.0 + self.ss.abs()), "settled funding {}/{} expected {}/{}", o.ls, o.ss, self.ls, self.ss);
        ensure!(e(self.cl, o.cl) && e(self.cs, o.cs), "cumulative funding {}/{} expected {}/{}", o.cl, o.cs, self.cl, self.cs);
        ensure!((self.avg - o.avg).abs() <= 1e-9 * (1.0 + self.avg.abs()), "average entry price {} expected {}", o.avg, self.avg);
        ensure!(e(self.one, o.one), "once-settleable pnl {} expected {}", o.one, self.one);
        ensure!(e(self.real, o.real), "realized pnl {} expected {}", o.real, self.real);
        ensure!(i(self.run, o.run, 8 + (1e-9 * big) as i64), "running quote {} expected {}", o.run, self.run);
        ensure!((self.rec - o.rec).abs() <= 10.0 + self.slop + 1e-9 * self.rec.abs(), "recurring settle allowance {} expected {}", o.rec, self.rec);
        ensure!((self.mv - o.mv).abs() <= 8.0 && (self.tv - o.tv).abs() <= 8.0, "volumes {}/{} expected {}/{}", o.mv, o.tv, self.mv, self.tv);
        ensure!(self.pst == o.pst && self.used == o.used && self.window == o.window, "settle bookkeeping {:?} expected {:?}", o, self);
        ensure!(self.tb == o.tb && self.tq == o.tq, "pending taker lots {}/{} expected {}/{}", o.tb, o.tq, self.tb, self.tq);
        Ok(())
    }
}
struct Buyback { cur: f64, prev: f64, exp: u64, n: f64 }
impl Buyback {
    fn expire(&mut self, now: u64, iv: u64) {
        if iv > 0 && now >= self.exp {
            self.prev = if now < self.exp + iv { self.cur } else { 0.0 };
            self.cur = 0.0;
            self.exp = (now / iv + 1) * iv;
        }
    }
    fn add(&mut self, x: f64) { self.cur += x.max(0.0).floor(); self.n += 1.0; }
}

fn trade(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = Machine::setup(src, &[(PerpOrder, 30), (PerpPegged, 6), (PerpCancel, 3), (Consume, 14), (Time, 4), (Price, 3), (ForceClosePerp, 4), (Deactivate, 3)]);
    let w = &m.w;
    let iv = src.pick(&[0u64, 1000, 100_000]);
    w.edit_group(|g| g.buyback_fees_expiry_interval = iv);
    for a in 1..5 {
        w.grant(a, 0, 0, 1e14);
        for p in 0..2 {
            if src.chance(75) {
                let px = w.perp_price(p) * w.perps[p].base_lot as f64;
                let b = src.log_range(1, 20_000) as i64 * src.pick(&[1, -1, 1, -1, 0]);
                let (x, y, z, u) = (src.f(0.5, 1.5), src.f(-0.5, 0.5), src.f(-1.0, 1.0), src.f(0.0, 1.0));
                let (l, s) = (src.f(-3.0, 3.0), src.f(-3.0, 3.0));
                let v = b.abs().max(5) as f64 * px;
                w.edit_acc(a, |acc| {
                    let (pp, _) = acc.ensure_perp_position(p as u16, 0).unwrap();
                    pp.base_position_lots = b;
                    pp.avg_entry_price_per_base_lot = if b == 0 { 0.0 } else { px * x };
                    pp.quote_position_native = num(-b as f64 * px * x + v * y * 0.1);
                    pp.quote_running_native = (-b as f64 * px * x * (1.0 + 0.1 * z)) as i64;
                    pp.realized_pnl_for_position_native = if b == 0 { num(0) } else { num(v * z * 0.3) };
                    pp.oneshot_settle_pnl_allowance = num(v * y * 0.2);
                    pp.recurring_settle_pnl_allowance = (v * u * 0.3) as i64;
                    pp.long_settled_funding = num(l);
                    pp.short_settled_funding = num(s);
                    pp.cumulative_long_funding = v * z * 0.01;
                    pp.cumulative_short_funding = -v * y * 0.01;
                });
            }
        }
    }
    for p in 0..2 {
        let (l, s, fa) = (src.f(-3.0, 3.0), src.f(-3.0, 3.0), src.f(0.0, 1e6));
        let oi: i64 = (1..5).map(|a| w.ppos(a, p).base_position_lots.abs()).sum();
        w.edit_perp(p, |m| { m.long_funding = num(l); m.short_funding = num(s); m.fees_accrued = num(fa); m.open_interest = oi; });
        let now = w.now();
        w.edit_perp(p, |m| m.funding_last_updated = now);
    }
    let mut b = w.snap();
    let n = 10 + src.below(40);
    let mut busy = false;
    for _ in 0..n {
        if src.chance(15) {
            let p = src.idx(2);
            let (l, s) = (src.f(-1.0, 1.0), src.f(-1.0, 1.0));
            w.edit_perp(p, |m| { m.long_funding += num(l); m.short_funding += num(s); });
            b = w.snap();
        }
        let qb = [queue(w, 0), queue(w, 1)];
        let seq0: Vec<u64> = (0..2).map(|p| w.s.get_account_boxed::<EventQueue>(w.perps[p].event_queue).header.seq_num).collect();
        // consumption with any accounts in any order
        let own = src.chance(25);
        let (st, known, limit) = if own {
            let p = src.idx(2);
            let known: Vec<usize> = (0..N_ACC).filter(|_| !src.chance(15)).collect();
            let limit = src.pick(&[1usize, 3, 8, 20, 0]);
            let mut ix = PerpConsumeEventsInstruction { perp_market: w.perps[p].key, mango_accounts: known.iter().map(|a| w.accs[*a].key).collect() }.to_instruction(&*w.s).1;
            ix.data = anchor_lang::InstructionData::data(&mango_v4::instruction::PerpConsumeEvents { limit });
            let ok = w.ok_raw(ix, &[]);
            let st = machine::Step { k: Consume, ok, a: 0, b: 0, t: 0, t2: 0, p, amount: 0.0, what: format!("perp {p} consume up to {limit} with accounts {known:?}"), err: if ok { String::new() } else { w.fail_text() } };
            ensure!(ok, "consuming events failed: {}", w.fail_text());
            (st, known, limit)
        } else {
            (m.step(src, &b), (0..N_ACC).collect(), 10)
        };
        let a = w.snap();
        case.note(|| format!("{} -> {}", st.what, if st.ok { "ok".into() } else { st.err.clone() }));
        let qa = [queue(w, 0), queue(w, 1)];
        let mut r: Vec<Vec<R>> = (0..N_ACC).map(|x| (0..2).map(|p| R::of(&b.pp(x, p))).collect()).collect();
        let mut bb: Vec<Buyback> = (0..N_ACC).map(|x| { let g = &b.accs[x].fixed; Buyback { cur: g.buyback_fees_accrued_current as f64, prev: g.buyback_fees_accrued_previous as f64, exp: g.buyback_fees_expiry_timestamp, n: 0.0 } }).collect();
        let mut fees: Vec<f64> = (0..2).map(|p| f(b.perps[p].fees_accrued)).collect();
        let who = |k: &solana_program::pubkey::Pubkey| w.accs.iter().position(|x| x.key == *k).unwrap();
        let p = st.p;
        let mk = &b.perps[p];
        let am = &a.perps[p]; // stable price and funding may have been updated by the instruction
        let mut consumed = 0;
        if st.ok {
            case.label(st.k.name());
            match st.k {
                PerpOrder | PerpPegged => {
                    let x = st.a;
                    let pp = &mut r[x][p];
                    bb[x].expire(a.now, iv);
                    if st.what.ends_with("type 1") {
                        pp.fee(mk.fee_penalty as f64);
                        fees[p] += mk.fee_penalty as f64;
                        bb[x].add(mk.fee_penalty as f64);
                        case.label("penalty");
                    }
                    let (mut vol, mut all, mut base, mut sg) = (0i64, 0i64, 0i64, 0);
                    for (e, sq, mf, tf) in &qa[p] {
                        if *sq < seq0[p] { continue; }
                        if let Ev::Fill { taker_side, taker, maker, price, qty, .. } = e {
                            ensure!(*taker == w.accs[x].key, "fill for another taker");
                            sg = if *taker_side == Side::Bid { 1 } else { -1 };
                            base += qty;
                            all += qty * price;
                            let own = maker == taker;
                            if !own { vol += qty * price; } else { case.label("self trade"); }
                            ensure!(*mf as f64 == if own { 0.0 } else { f(mk.maker_fee) as f32 as f64 } && *tf as f64 == if own { 0.0 } else { f(mk.taker_fee) as f32 as f64 }, "fees {mf}/{tf} on a fill (own {own})");
                        }
                    }
                    if base > 0 {
                        busy = true;
                        pp.tb += sg * base;
                        pp.tq -= sg * all;
                        let v = (vol * mk.quote_lot_size) as f64;
                        let (t, mm) = (v * f(mk.taker_fee), v * f(mk.maker_fee));
                        pp.fee(t);
                        pp.tv += t.trunc();
                        fees[p] += t + mm;
                        bb[x].add(t + mm.min(0.0));
                    }
                }
                Consume => {
                    consumed = qb[p].len() - qa[p].len();
                    let can = |k: &solana_program::pubkey::Pubkey| known.contains(&who(k));
                    let want = qb[p].iter().take(limit.min(8)).take_while(|(e, ..)| match e { Ev::Fill { maker, taker, .. } => can(maker) && can(taker), Ev::Out { owner, .. } => can(owner) }).count();
                    ensure!(consumed == want, "{consumed} events consumed, expected {want}");
                    for (e, _, mf, _) in &qb[p][..consumed] {
                        if let Ev::Fill { taker_side, maker, taker, price, qty, .. } = e {
                            busy = true;
                            let sg = if *taker_side == Side::Bid { 1 } else { -1 };
                            let (db, dq) = (sg * qty, (-sg * qty * price * mk.quote_lot_size) as f64);
                            let (mi, ti) = (who(maker), who(taker));
                            if mi == ti { case.label("own fill consumed"); }
                            let fee = dq.abs() * *mf as f64;
                            if fee > 0.0 {
                                bb[mi].expire(a.now, iv);
                                bb[mi].add(fee);
                            }
                            let x = &mut r[mi][p];
                            x.funding(am);
                            x.fee(fee);
                            if x.base.signum() * db.signum() > 0 { case.label("reduce"); if x.base.abs() < db.abs() { case.label("flip"); } }
                            x.trade(am, -db, -dq);
                            x.mv += dq.abs();
                            let x = &mut r[ti][p];
                            x.funding(am);
                            x.tb -= db;
                            x.tq -= dq as i64 / mk.quote_lot_size;
                            x.trade(am, db, dq);
                            x.tv += dq.abs();
                        }
                    }
                }
                ForceClosePerp => {
                    let k = b.pp(st.a, p).base_position_lots.min(-b.pp(st.b, p).base_position_lots);
                    ensure!(k > 0, "force close without opposite positions");
                    let v = (k * mk.base_lot_size) as f64 * b.perp_price[p];
                    for (x, sg) in [(st.a, -1i64), (st.b, 1)] {
                        r[x][p].slop += 1e-12 * v;
                        r[x][p].funding(am);
                        r[x][p].trade(am, sg * k, -(sg as f64) * v);
                    }
                }
                Deactivate => {
                    let o = &b.pp(st.a, p);
                    let x = &mut r[st.a][p];
                    ensure!(o.base_position_lots == 0 && x.quote == 0.0 && o.bids_base_lots == 0 && o.asks_base_lots == 0 && o.taker_base_lots == 0 && o.taker_quote_lots == 0, "position {o:?} was deactivated");
                    ensure!(b.accs[st.a].perp_position(p as u16).is_ok() && a.accs[st.a].perp_position(p as u16).is_err(), "no position was deactivated");
                    r[st.a][p] = R::of(&PerpPosition::default());
                }
                _ => {}
            }
        }
        if st.k != Deactivate || !st.ok {
            for x in 0..N_ACC { for p in 0..2 {
                ensure!(!(b.accs[x].perp_position(p as u16).is_ok() && a.accs[x].perp_position(p as u16).is_err()), "position disappeared after {}", st.what);
            } }
        }
        for x in 0..N_ACC {
            for q in 0..2 {
                r[x][q].cmp(&R::of(&a.pp(x, q))).map_err(|e| format!("acc {x} perp {q}: {e} after {} ({:?} -> {:?})", st.what, b.pp(x, q), a.pp(x, q)))?;
            }
            let g = &a.accs[x].fixed;
            let e = &bb[x];
            ensure!((g.buyback_fees_accrued_current as f64 - e.cur).abs() <= e.n && g.buyback_fees_accrued_previous as f64 == e.prev && g.buyback_fees_expiry_timestamp == e.exp,
                "acc {x}: buyback fees {}/{} until {}, expected {}/{} until {} after {}", g.buyback_fees_accrued_current, g.buyback_fees_accrued_previous, g.buyback_fees_expiry_timestamp, e.cur, e.prev, e.exp, st.what);
        }
        for q in 0..2 {
            ensure!(close(f(a.perps[q].fees_accrued), fees[q], 1e-11, 1e-3), "perp {q}: fees {} expected {} after {}", f(a.perps[q].fees_accrued), fees[q], st.what);
            let oi: i64 = (0..N_ACC).map(|x| a.pp(x, q).base_position_lots.abs()).sum();
            ensure!(a.perps[q].open_interest == oi, "perp {q}: open interest {} expected {oi} after {}", a.perps[q].open_interest, st.what);
        }
        let _ = consumed;
        b = a;
    }
    if busy { case.nontrivial(); }
    Ok(())
}
