//! C10: the perp order book against a reference matching engine; tree and event queue structure.
use crate::bookmodel::{better, events, read, Env, Ev, Kind, Order, RefBook, Req};
use crate::ensure;
use crate::pbt::*;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::state::*;
use solana_program::pubkey::Pubkey;
use std::cell::{RefCell, RefMut};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "`match`: random histories of orders, removals, oracle moves and clock moves on one book, compared after every step with a reference engine (events in order, resting orders, fees, account slots) and with independently computed book figures; the node store is checked. `full`: the same on books filled to capacity. Non-trivial: a fill, an expiry, an eviction, a slide or a rejection was compared",
        assumptions: &["order ids are unique (they derive from a counter)", "prices and quantities whose products fit 64 bits"],
        suites: vec![
            Suite { name: "match", quick: 30_000, thorough: 1_500_000, f: matching },
            Suite { name: "full", quick: 3_000, thorough: 150_000, f: full },
        ],
    }
}

struct Rig {
    bids: RefCell<Box<BookSide>>,
    asks: RefCell<Box<BookSide>>,
    eq: Box<EventQueue>,
    market: Box<PerpMarket>,
    model: RefBook,
    now: u64,
    /// in 1/1024 native
    oracle_k: i64,
    owners: Vec<Pubkey>,
    acc: MangoAccountValue,
}

impl Rig {
    fn new(src: &mut Src) -> Rig {
        let w = World::new();
        let mut market = w.perp(0);
        market.base_lot_size = src.pick(&[1i64, 10, 1000]);
        market.quote_lot_size = src.pick(&[1i64, 10, 100]);
        market.maint_base_liab_weight = I80F48::from_num(src.range(17, 40)) / 16;
        market.maint_base_asset_weight = I80F48::from_num(src.range(0, 15)) / 16;
        market.maker_fee = num(src.range(-30, 30) as f64 / 10_000.0);
        market.taker_fee = num(src.range(30, 90) as f64 / 10_000.0);
        market.fee_penalty = src.pick(&[0.0f32, 5.0, 1.5]);
        market.seq_num = src.pick(&[0, 1000, 1 << 40]);
        let mut acc = w.acc(1);
        acc.ensure_perp_position(0, 0).unwrap();
        let mut eq = w.s.get_account_boxed::<EventQueue>(w.perps[0].event_queue);
        eq.header.set_head(src.pick(&[0u32, 1, 480, 487]));
        Rig {
            bids: RefCell::new(w.s.get_account_boxed::<BookSide>(w.perps[0].bids)),
            asks: RefCell::new(w.s.get_account_boxed::<BookSide>(w.perps[0].asks)),
            eq,
            market,
            model: RefBook::default(),
            now: 1_000_000,
            oracle_k: 0,
            owners: (1..5u8).map(|i| Pubkey::new_from_array([i; 32])).collect(),
            acc,
        }
    }
    fn cell(&self, s: Side) -> &RefCell<Box<BookSide>> {
        if s == Side::Bid { &self.bids } else { &self.asks }
    }
    fn oracle(&self) -> I80F48 {
        I80F48::from_num(self.oracle_k) / 1024
    }
    fn oracle_lots(&self) -> i64 {
        (self.oracle_k as i128 * self.market.base_lot_size as i128 / 1024 / self.market.quote_lot_size as i128) as i64
    }
    fn set_oracle_lots(&mut self, lots: i64, src: &mut Src) {
        let k = lots as i128 * self.market.quote_lot_size as i128 * 1024 / self.market.base_lot_size as i128;
        self.oracle_k = (k as i64 + src.range(0, 3)).max(1);
    }
    fn restable(&self, side: Side, price: i64) -> bool {
        let wl = if side == Side::Bid { self.market.maint_base_liab_weight } else { self.market.maint_base_asset_weight };
        let w16 = (wl * I80F48::from_num(16)).to_num::<i128>();
        let a = price as i128 * self.market.quote_lot_size as i128 * 16 * 1024;
        let b = w16 * self.oracle_k as i128 * self.market.base_lot_size as i128;
        if side == Side::Bid { a <= b } else { a >= b }
    }
    /// an order that is put on the book without matching
    fn rest(&mut self, src: &mut Src, narrow: i64) {
        let side = src.pick(&[Side::Bid, Side::Ask]);
        let pegged = src.chance(40);
        let o = self.oracle_lots();
        let off = src.range(0, narrow) * if side == Side::Bid { -1 } else { 1 } + if src.chance(10) { src.range(-5, 5) } else { 0 };
        let data = if pegged { (off as i128 + (1i128 << 63)) as u64 } else { (o + off).max(1) as u64 };
        let seq = self.market.seq_num + 1;
        self.market.seq_num += 1;
        let key = ((data as u128) << 64) | if side == Side::Bid { !seq } else { seq } as u128;
        let tif = if src.chance(30) { src.range(1, 200) as u16 } else { 0 };
        let ts = self.now - src.urange(0, 150);
        let peg_limit = if pegged && src.chance(40) { (o + off + src.range(-3, 3)).max(1) } else { -1 };
        let owner = src.pick(&self.owners);
        let qty = src.log_range(1, 1000) as i64;
        let slot = src.below(16) as u8;
        let client_id = src.below(1 << 20);
        let ord = Order { pegged, key, owner, slot, qty, ts, tif, peg_limit, client_id, order_type: 0 };
        let leaf = LeafNode::new(slot, key, owner, qty, ts, PostOrderType::Limit, tif, peg_limit, client_id);
        let mut b = self.cell(side).borrow_mut();
        if b.is_full() { return }
        b.insert_leaf(if pegged { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed }, &leaf).unwrap();
        drop(b);
        self.model.sides[side as usize].push(ord);
    }
    fn same_books(&self) -> Result<(), String> {
        for s in [Side::Bid, Side::Ask] {
            let mut a = read(&self.cell(s).borrow())?;
            let mut b = self.model.sides[s as usize].clone();
            let k = |o: &Order| (o.pegged, o.key);
            a.sort_by_key(k);
            b.sort_by_key(k);
            if a != b {
                let x: Vec<_> = a.iter().filter(|o| !b.contains(o)).collect();
                let y: Vec<_> = b.iter().filter(|o| !a.contains(o)).collect();
                return Err(format!("{s:?} side differs: book has {x:?}, expected {y:?}"));
            }
        }
        Ok(())
    }
    fn queries(&self, src: &mut Src) -> Result<(), String> {
        let o = self.oracle_lots();
        for s in [Side::Bid, Side::Ask] {
            let v = self.model.valid(s, o, self.now);
            let b = self.cell(s).borrow();
            ensure!(b.best_price(self.now, o) == v.first().map(|x| x.1), "best price of {s:?}: {:?} vs {:?}", b.best_price(self.now, o), v.first());
            let got: Vec<(u128, i64)> = b.iter_valid(self.now, o).map(|i| (i.node.key, i.price_lots)).collect();
            ensure!(got == v.iter().map(|x| (x.0.key, x.1)).collect::<Vec<_>>(), "order of {s:?} side differs");
            if v.iter().map(|x| x.0.qty as i128 * x.1 as i128).sum::<i128>() > 1 << 61 { continue }
            let total: i64 = v.iter().map(|x| x.0.qty).sum();
            let q = match src.below(3) { 0 => src.range(1, 20), 1 => total.max(1), _ => src.range(1, (total + total / 4).max(1)) };
            // walk the list
            let (mut left, mut cost, mut imp) = (q, 0i64, None);
            for (x, p) in &v {
                let t = left.min(x.qty);
                cost += t * p;
                left -= t;
                if left == 0 { imp = Some(*p); break }
            }
            ensure!(b.impact_price(q, self.now, o) == imp, "impact price for {q}: {:?}, expected {imp:?}", b.impact_price(q, self.now, o));
            let want = if left == 0 { Some(cost) } else { None };
            ensure!(b.matched_amount(q, self.now, o) == want, "amount matched by {q} lots: {:?}, expected {want:?}", b.matched_amount(q, self.now, o));
            let worth: i64 = v.iter().map(|x| x.0.qty * x.1).sum();
            let amt = match src.below(3) { 0 => src.range(1, 1000), 1 => worth.max(1), _ => src.range(1, (worth + worth / 4).max(1)) };
            let want = if worth < amt { None } else {
                // fewest lots worth at least amt
                let (mut need, mut lots) = (amt, 0i64);
                for (x, p) in &v {
                    let t = ((need + p - 1) / p).min(x.qty);
                    lots += t;
                    need -= t * p;
                    if need <= 0 { break }
                }
                Some(lots)
            };
            ensure!(b.matched_quantity(amt, self.now, o) == want, "lots for {amt}: {:?}, expected {want:?}", b.matched_quantity(amt, self.now, o));
            ensure!(b.matched_amount(0, self.now, o).is_none() && b.matched_quantity(-1, self.now, o).is_none(), "empty request matched");
            let lim = o + src.range(-15, 15);
            let want: i64 = v.iter().filter(|x| !better(s, lim, x.1)).map(|x| x.0.qty).sum();
            ensure!(b.quantity_at_price(lim, self.now, o) == want, "quantity at {lim}: {}, expected {want}", b.quantity_at_price(lim, self.now, o));
        }
        Ok(())
    }
    fn place(&mut self, src: &mut Src, case: &mut Case, narrow: i64) -> Result<(), String> {
        let o = self.oracle_lots();
        let side = src.pick(&[Side::Bid, Side::Ask]);
        let kind = src.pick(&[Kind::Limit, Kind::Limit, Kind::Market, Kind::Ioc, Kind::PostOnly, Kind::Slide]);
        let pegged = !matches!(kind, Kind::Market | Kind::Ioc) && src.chance(40);
        let off = match src.below(12) {
            0 => 0,
            1 => src.pick(&[1 << 45, i64::MIN / 2, -o, 1 - o, 2 - o]),
            _ => src.range(-narrow, narrow),
        };
        let price = if pegged { off } else { o.saturating_add(off).max(if src.chance(3) { 0 } else { 1 }) };
        let max_base = match src.below(8) { 0 => 0, 1 => 1 << 34, 2 => src.range(1, 5), _ => src.log_range(1, 3000) as i64 };
        let max_quote = match src.below(4) { 0 => src.log(1 << 20) as i64, 1 => max_base.saturating_mul(o.max(1)).saturating_add(src.range(-20, 20)).max(0), _ => i64::MAX };
        let r = Req {
            side, pegged, kind, price, max_base, max_quote,
            client_id: src.below(1 << 30),
            tif: if src.chance(30) { src.range(1, 200) as u16 } else { 0 },
            peg_limit: if pegged && src.chance(40) { (o.saturating_add(off)).saturating_add(src.range(-3, 3)).max(1) } else { -1 },
            stb: src.pick(&[SelfTradeBehavior::DecrementTake, SelfTradeBehavior::CancelProvide, SelfTradeBehavior::AbortTransaction]),
        };
        let taker = src.pick(&self.owners);
        let limit = src.pick(&[255u8, 255, 10, 3, 1, 0]);
        let mut acc = self.acc.clone();
        // some order slots are taken
        let taken = src.below(17) as usize;
        for i in 0..taken.min(16) {
            let used = if taken == 16 { src.chance(97) } else { src.chance(40) };
            if used { acc.perp_order_mut_by_raw_index(i).market = 5; }
        }
        let free = (0..16).find(|i| acc.perp_order_by_raw_index(*i).unwrap().market == PerpMarketIndex::MAX);
        let pp0 = *acc.perp_position(0).unwrap();
        let buyback0 = acc.fixed.buyback_fees_accrued_current;
        if src.chance(5) { let c = 488 - src.below(6) as u32; self.eq.header.set_count(c); }
        let count0 = self.eq.len();
        let seq0 = self.eq.header.seq_num;
        let (bump, freelen) = { let b = self.cell(side).borrow(); (b.nodes.bump_index as usize, b.nodes.free_list_len as usize) };
        let full = |freed: usize| freelen + freed <= 1 && bump >= 1023;
        let (now, rest_ok) = (self.now, { let m: *const Rig = self; move |s: Side, p: i64| unsafe { (*m).restable(s, p) } });
        let mid = self.market.seq_num + 1;
        let run = |m: &mut RefBook, pick: &dyn Fn(&[Order]) -> usize| {
            m.place(&r, &Env { now, oracle: o, taker, limit, seq: mid, slot: free.map(|x| x as u8), restable: &rest_ok, full: &full, pick })
        };
        let mut expected = run(&mut self.model.clone(), &|_| 0);
        if let Ok(x) = &expected { if count0 + x.events.len() > 488 { expected = Err("event queue full"); } }
        if let Ok(x) = &expected { if x.quote as i128 * self.market.quote_lot_size as i128 > i64::MAX as i128 { expected = Err("amount beyond 64 bits"); } }
        let m0 = self.market.clone();
        let backup = if expected.is_err() { Some((self.bids.borrow().clone(), self.asks.borrow().clone(), self.eq.clone())) } else { None };
        // the real thing
        let order = mango_v4::state::Order {
            side, max_base_lots: max_base, max_quote_lots: max_quote, client_order_id: r.client_id, reduce_only: false,
            time_in_force: r.tif, self_trade_behavior: r.stb,
            params: match (kind, pegged) {
                (Kind::Market, _) => OrderParams::Market,
                (Kind::Ioc, _) => OrderParams::ImmediateOrCancel { price_lots: price },
                (k, peg) => {
                    let order_type = match k { Kind::PostOnly => PostOrderType::PostOnly, Kind::Slide => PostOrderType::PostOnlySlide, _ => PostOrderType::Limit };
                    if peg { OrderParams::OraclePegged { price_offset_lots: price, order_type, peg_limit: r.peg_limit, max_oracle_staleness_slots: -1 } }
                    else { OrderParams::Fixed { price_lots: price, order_type } }
                }
            },
        };
        let oracle = self.oracle();
        let res = {
            let (bids, asks, market, eq, acc) = (&self.bids, &self.asks, &mut self.market, &mut self.eq, &mut acc);
            catch_unwind(AssertUnwindSafe(|| {
                let mut book = Orderbook { bids: RefMut::map(bids.borrow_mut(), |b| &mut **b), asks: RefMut::map(asks.borrow_mut(), |b| &mut **b) };
                book.new_order(order, market, eq, oracle, &mut acc.borrow_mut(), &taker, now, limit)
            }))
        };
        let got = match res { Err(_) => Err("panic".to_string()), Ok(Err(e)) => Err(format!("{e}")), Ok(Ok(id)) => Ok(id) };
        case.note(|| format!("{side:?} {kind:?}{} at {price} (oracle {o}) for {max_base} lots / {max_quote} quote by {}, limit {limit} -> {got:?}", if pegged { " pegged" } else { "" }, taker.to_bytes()[0]));
        match (&expected, &got) {
            (Err(e), r) if r.is_err() || *e == "amount beyond 64 bits" => {
                // amounts beyond 64 bits are out of scope: the transaction may or may not abort
                let (b, a, q) = backup.unwrap();
                *self.bids.borrow_mut() = b;
                *self.asks.borrow_mut() = a;
                self.eq = q;
                self.market = m0;
                self.eq.header.set_count(0);
                case.nontrivial();
                case.label("rejected");
                return Ok(());
            }
            (Err(e), Ok(_)) => return Err(format!("accepted although: {e}")),
            (Ok(_), Err(e)) => return Err(format!("rejected: {e}")),
            _ => {}
        }
        let all = events(&self.eq);
        let new = &all[count0..];
        let pick = |c: &[Order]| {
            c.iter().position(|o| new.iter().any(|e| matches!(&e.0, Ev::Out { id, side: s, .. } if *id == o.key && *s == side))).unwrap_or(0)
        };
        let want = run(&mut self.model, &pick).map_err(|e| format!("model: {e}"))?;
        ensure!(new.iter().map(|e| &e.0).eq(want.events.iter()), "events {:?}\nexpected {:?}", new.iter().map(|e| &e.0).collect::<Vec<_>>(), want.events);
        for (i, e) in new.iter().enumerate() {
            ensure!(e.1 == seq0 + i as u64, "event sequence number {} at {}", e.1, seq0 + i as u64);
            if let Ev::Fill { own, .. } = e.0 {
                let (mf, tf) = if own { (0.0, 0.0) } else { (m0.maker_fee.to_num::<f32>(), m0.taker_fee.to_num::<f32>()) };
                ensure!(e.2 == mf && e.3 == tf, "fill event fees {} {}, expected {mf} {tf}", e.2, e.3);
                case.label(if own { "own fill" } else { "fill" });
            } else { case.label("order dropped"); }
        }
        ensure!(self.eq.header.seq_num == seq0 + new.len() as u64, "queue sequence number");
        ensure!(self.market.seq_num == mid, "order sequence number");
        ensure!(got == Ok(want.posted.map(|x| x.key)), "returned id {got:?}, expected {:?}", want.posted);
        if !want.events.is_empty() { case.nontrivial(); }
        if want.posted.is_some() { case.label("posted"); if kind == Kind::Slide { case.nontrivial(); } }
        // money and bookkeeping of the taker
        let ql = m0.quote_lot_size as f64;
        let (tf, mf) = (f(m0.taker_fee), f(m0.maker_fee));
        let penalty = if kind == Kind::Ioc { m0.fee_penalty as f64 } else { 0.0 };
        let vol = (want.quote - want.own_quote) as f64 * ql;
        let pp = *acc.perp_position(0).unwrap();
        let eps = 1e-9 + vol * 1e-12;
        let dq = f(pp.quote_position_native - pp0.quote_position_native);
        ensure!((dq + vol * tf + penalty).abs() < eps, "taker paid {dq}, expected {} + {penalty}", vol * tf);
        let df = f(self.market.fees_accrued - m0.fees_accrued);
        ensure!((df - vol * (tf + mf) - penalty).abs() < eps, "market accrued {df}, expected {}", vol * (tf + mf) + penalty);
        let sgn = if side == Side::Bid { 1 } else { -1 };
        ensure!(pp.taker_base_lots - pp0.taker_base_lots == sgn * want.base && pp.taker_quote_lots - pp0.taker_quote_lots == -sgn * want.quote, "taker lots {} {}, expected {} {}", pp.taker_base_lots, pp.taker_quote_lots, sgn * want.base, -sgn * want.quote);
        ensure!(pp.base_position_lots == pp0.base_position_lots, "base position changed before the fill is processed");
        let dao = (vol * tf + (vol * mf).min(0.0)).max(0.0);
        let db = (acc.fixed.buyback_fees_accrued_current - buyback0) as f64;
        ensure!(db <= dao + penalty + eps && db > dao + penalty - 2.0 - eps, "buyback credit {db} for fees {dao} + {penalty}");
        let q = want.posted.map(|x| x.qty).unwrap_or(0);
        let (b, a) = if side == Side::Bid { (q, 0) } else { (0, q) };
        ensure!(pp.bids_base_lots - pp0.bids_base_lots == b && pp.asks_base_lots - pp0.asks_base_lots == a, "reserved lots");
        for i in 0..16 {
            let x = acc.perp_order_by_raw_index(i).unwrap();
            match want.posted {
                Some(p) if Some(i) == free => ensure!(x.market == 0 && x.id == p.key && x.client_id == p.client_id && x.quantity == p.qty && x.side_and_tree().side() == side && (x.side_and_tree().order_tree() == BookSideOrderTree::OraclePegged) == p.pegged, "order slot {i} is {x:?}"),
                _ => { let was = if x.market == 5 { 5 } else { PerpMarketIndex::MAX }; ensure!(x.market == was, "order slot {i} changed") }
            }
        }
        // the queue is processed elsewhere
        let n = if src.chance(50) { self.eq.len() } else { src.idx(self.eq.len() + 1) };
        for k in 0..n {
            let e = self.eq.pop_front().map_err(|e| format!("{e}"))?;
            let _ = e;
            let left = events(&self.eq);
            ensure!(left.len() == all.len() - k - 1 && left.first() == all.get(k + 1), "event queue order after popping {k}");
            if k > 2 && all.len() > 40 { let c = all.len() - n; let h = (self.eq.header.head() + (n - k - 1)) % 488; self.eq.header.set_head(h as u32); self.eq.header.set_count(c as u32); break }
        }
        Ok(())
    }
    fn step(&mut self, src: &mut Src, case: &mut Case, narrow: i64) -> Result<(), String> {
        match src.weighted(&[10, 1, 1, 3, 1]) {
            0 => self.place(src, case, narrow)?,
            1 => {
                let lots = match src.below(4) { 0 => src.range(1, 5), 1 => src.log_range(1, 1 << 20) as i64, _ => (self.oracle_lots() + src.range(-8, 8)).max(1) };
                self.set_oracle_lots(lots, src);
            }
            2 => self.now += src.pick(&[1, 10, 100, 500]),
            3 => self.rest(src, narrow),
            _ => {
                // cancel
                let side = src.pick(&[Side::Bid, Side::Ask]);
                let v = &self.model.sides[side as usize];
                if v.is_empty() { return Ok(()) }
                let o = v[src.idx(v.len())];
                let tree = |p: bool| if p { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed };
                let mut b = self.cell(side).borrow_mut();
                ensure!(b.remove_by_key(tree(o.pegged), o.key ^ (1 << src.below(128))).is_none() || v.len() > 1, "removed an order that is not there");
                drop(b);
                // (the altered key may by chance be another order's: start over from the model then)
                let mut left = read(&self.cell(side).borrow())?;
                if left.len() != v.len() {
                    left.sort_by_key(|o| o.key);
                    self.model.sides[side as usize] = left;
                    return Ok(());
                }
                let mut b = self.cell(side).borrow_mut();
                let l = b.remove_by_key(tree(o.pegged), o.key);
                ensure!(l.map(|l| (l.key, l.quantity)) == Some((o.key, o.qty)), "removing order {} gave {l:?}", o.key);
                ensure!(b.remove_by_key(tree(o.pegged), o.key).is_none(), "order removed twice");
                drop(b);
                self.model.remove(side, &o);
            }
        }
        self.same_books()
    }
}

fn matching(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut r = Rig::new(src);
    let lots = src.pick(&[20i64, 100, 3, 1000]);
    r.set_oracle_lots(lots, src);
    let narrow = src.pick(&[5i64, 3, 20]);
    for _ in 0..src.below(25) { r.rest(src, narrow); }
    r.same_books()?;
    for _ in 0..1 + src.below(25) {
        r.step(src, case, narrow)?;
        if src.chance(30) { r.queries(src)?; }
    }
    Ok(())
}

fn full(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut r = Rig::new(src);
    r.set_oracle_lots(200, src);
    let narrow = src.pick(&[60i64, 10, 150]);
    let n = 1024 - src.range(0, 30);
    for _ in 0..n { r.rest(src, narrow); }
    // free list instead of fresh nodes
    if src.bool() {
        for s in [Side::Bid, Side::Ask] {
            for _ in 0..src.below(6) {
                let v = &r.model.sides[s as usize];
                if v.is_empty() { break }
                let o = v[src.idx(v.len())];
                r.cell(s).borrow_mut().remove_by_key(if o.pegged { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed }, o.key);
                r.model.remove(s, &o);
            }
        }
        for _ in 0..src.below(8) { r.rest(src, narrow); }
    }
    r.same_books()?;
    let before = r.model.sides[0].len() + r.model.sides[1].len();
    if before > 1000 { case.label("near capacity"); }
    for _ in 0..1 + src.below(20) {
        r.step(src, case, narrow)?;
        if src.chance(10) { r.queries(src)?; }
    }
    Ok(())
}
