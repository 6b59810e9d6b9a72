//! Independent reader of the raw order tree nodes: content and structure.
use crate::ensure;
use mango_v4::state::*;
use solana_program::pubkey::Pubkey;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Order {
    pub pegged: bool,
    pub key: u128,
    pub owner: Pubkey,
    pub slot: u8,
    pub qty: i64,
    pub ts: u64,
    pub tif: u16,
    pub peg_limit: i64,
    pub client_id: u64,
    pub order_type: u8,
}
impl Order {
    pub fn data(&self) -> u64 {
        (self.key >> 64) as u64
    }
    /// The order's price at an oracle price; the bool says whether it can be matched.
    pub fn price(&self, side: Side, oracle: i64) -> (i64, bool) {
        if !self.pegged {
            return (self.data() as i64, true);
        }
        let off = self.data() as i128 - (1i128 << 63);
        let p = oracle as i128 + off;
        if p < 1 || p >= i64::MAX as i128 {
            return (p.clamp(1, i64::MAX as i128) as i64, false);
        }
        let p = p as i64;
        let within = self.peg_limit == -1
            || match side {
                Side::Bid => p <= self.peg_limit,
                Side::Ask => p >= self.peg_limit,
            };
        (p, within)
    }
    pub fn expired(&self, now: u64) -> bool {
        self.tif > 0 && now >= self.ts + self.tif as u64
    }
    pub fn expiry(&self) -> u64 {
        if self.tif == 0 { u64::MAX } else { self.ts + self.tif as u64 }
    }
}

fn u32_at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u64_at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn u128_at(b: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(b[o..o + 16].try_into().unwrap())
}

/// All orders of a book side in tree order (ascending key), after checking the whole node store.
pub fn read(side: &BookSide) -> Result<Vec<Order>, String> {
    let nodes = &side.nodes;
    let mut seen = vec![false; nodes.nodes.len()];
    let mut out = vec![];
    let mut used = 0usize;
    for (i, pegged) in [(0, false), (1, true)] {
        let root = &side.roots[i];
        if root.leaf_count == 0 {
            continue;
        }
        let start = out.len();
        let (n, _) = walk(side, root.maybe_node, pegged, None, &mut seen, &mut out)?;
        used += n;
        let leaves = out.len() - start;
        ensure!(leaves == root.leaf_count as usize, "root says {} leaves, tree has {leaves}", root.leaf_count);
        ensure!(out[start..].windows(2).all(|w| w[0].key < w[1].key), "orders out of key order");
    }
    // free list
    let mut h = nodes.free_list_head;
    for k in 0..nodes.free_list_len {
        ensure!((h as usize) < seen.len() && !seen[h as usize], "free list reaches node {h} twice");
        seen[h as usize] = true;
        let raw: &[u8] = bytemuck::bytes_of(&nodes.nodes[h as usize]);
        let last = k + 1 == nodes.free_list_len;
        ensure!(raw[0] == if last { 4 } else { 3 }, "free list node {h} has tag {} (last {last})", raw[0]);
        h = u32_at(raw, 4);
    }
    ensure!(used + nodes.free_list_len as usize == nodes.bump_index as usize, "{used} nodes used, {} free, {} allocated", nodes.free_list_len, nodes.bump_index);
    Ok(out)
}

fn walk(side: &BookSide, h: u32, pegged: bool, bound: Option<(u128, u32, bool)>, seen: &mut [bool], out: &mut Vec<Order>) -> Result<(usize, u64), String> {
    ensure!((h as usize) < seen.len(), "node handle {h} out of range");
    ensure!(!seen[h as usize], "node {h} reached twice");
    seen[h as usize] = true;
    let raw: &[u8] = bytemuck::bytes_of(&side.nodes.nodes[h as usize]);
    let prefix_ok = |key: u128| match bound {
        None => true,
        Some((k, len, bit)) => {
            let mask = if len == 0 { 0 } else { !0u128 << (128 - len) };
            key & mask == k & mask && (key >> (127 - len)) & 1 == bit as u128
        }
    };
    match raw[0] {
        1 => {
            let (len, key) = (u32_at(raw, 4), u128_at(raw, 8));
            ensure!(len < 128, "prefix length {len}");
            ensure!(prefix_ok(key), "inner node outside its parent's prefix");
            if let Some((_, pl, _)) = bound {
                ensure!(len > pl, "prefix length {len} under {pl}");
            }
            let (a, ea) = walk(side, u32_at(raw, 24), pegged, Some((key, len, false)), seen, out)?;
            let (b, eb) = walk(side, u32_at(raw, 28), pegged, Some((key, len, true)), seen, out)?;
            ensure!((u64_at(raw, 32), u64_at(raw, 40)) == (ea, eb), "inner node's earliest expiries {} {} should be {ea} {eb}", u64_at(raw, 32), u64_at(raw, 40));
            Ok((a + b + 1, ea.min(eb)))
        }
        2 => {
            let o = Order {
                pegged,
                slot: raw[1],
                order_type: raw[2],
                tif: u16::from_le_bytes([raw[4], raw[5]]),
                key: u128_at(raw, 8),
                owner: Pubkey::new_from_array(raw[24..56].try_into().unwrap()),
                qty: u64_at(raw, 56) as i64,
                ts: u64_at(raw, 64),
                peg_limit: u64_at(raw, 72) as i64,
                client_id: u64_at(raw, 80),
            };
            ensure!(prefix_ok(o.key), "leaf outside its parent's prefix");
            ensure!(o.qty >= 1, "order of {} lots", o.qty);
            let e = o.expiry();
            out.push(o);
            Ok((1, e))
        }
        t => Err(format!("node {h} in the tree has tag {t}")),
    }
}

// ---------------------------------------------------------------------------
// Reference matching engine over plain lists.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Market,
    Ioc,
    Limit,
    PostOnly,
    Slide,
}

/// A request as the user states it; `price` is an offset for pegged orders.
#[derive(Clone, Debug)]
pub struct Req {
    pub side: Side,
    pub pegged: bool,
    pub kind: Kind,
    pub price: i64,
    pub max_base: i64,
    pub max_quote: i64,
    pub client_id: u64,
    pub tif: u16,
    pub peg_limit: i64,
    pub stb: SelfTradeBehavior,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Fill { taker_side: Side, out: bool, slot: u8, maker: Pubkey, id: u128, client_id: u64, maker_ts: u64, taker: Pubkey, taker_client_id: u64, price: i64, qty: i64, own: bool, ts: u64 },
    Out { side: Side, slot: u8, owner: Pubkey, qty: i64, id: u128, ts: u64 },
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub events: Vec<Ev>,
    pub base: i64,
    pub quote: i64,
    /// part of `quote` that was matched against own orders
    pub own_quote: i64,
    pub posted: Option<Order>,
}

pub struct Env<'a> {
    pub now: u64,
    pub oracle: i64,
    pub taker: Pubkey,
    pub limit: u8,
    pub seq: u64,
    pub slot: Option<u8>,
    /// may an order rest at this price?
    pub restable: &'a dyn Fn(Side, i64) -> bool,
    /// is the side full after this many nodes were freed?
    pub full: &'a dyn Fn(usize) -> bool,
    /// picks one of several equally old expired orders
    pub pick: &'a dyn Fn(&[Order]) -> usize,
}

pub fn better(side: Side, a: i64, b: i64) -> bool {
    if side == Side::Bid { a > b } else { a < b }
}
fn seq_of(o: &Order, side: Side) -> u64 {
    if side == Side::Bid { !(o.key as u64) } else { o.key as u64 }
}
fn out_ev(o: &Order, side: Side, now: u64) -> Ev {
    Ev::Out { side, slot: o.slot, owner: o.owner, qty: o.qty, id: o.key, ts: now }
}

#[derive(Clone, Default, Debug)]
pub struct RefBook {
    pub sides: [Vec<Order>; 2],
}

impl RefBook {
    /// Orders by matching priority with their price; pegged orders without a price are left out.
    pub fn ranked(&self, side: Side, oracle: i64) -> Vec<(Order, i64, bool)> {
        let mut v: Vec<(Order, i64, bool)> = vec![];
        for o in &self.sides[side as usize] {
            let (p, ok) = o.price(side, oracle);
            let representable = !o.pegged || {
                let x = oracle as i128 + (o.data() as i128 - (1i128 << 63));
                x >= 1 && x < i64::MAX as i128
            };
            if representable {
                v.push((*o, p, ok));
            }
        }
        v.sort_by(|a, b| {
            let by_price = if side == Side::Bid { b.1.cmp(&a.1) } else { a.1.cmp(&b.1) };
            by_price.then(seq_of(&a.0, side).cmp(&seq_of(&b.0, side)))
        });
        v
    }
    pub fn valid(&self, side: Side, oracle: i64, now: u64) -> Vec<(Order, i64)> {
        self.ranked(side, oracle).into_iter().filter(|(o, _, ok)| *ok && !o.expired(now)).map(|(o, p, _)| (o, p)).collect()
    }
    /// Removes an order, returning how many tree nodes that frees.
    pub fn remove(&mut self, side: Side, o: &Order) -> usize {
        let v = &mut self.sides[side as usize];
        let n = v.iter().filter(|x| x.pegged == o.pegged).count();
        let i = v.iter().position(|x| x.key == o.key && x.pegged == o.pegged).unwrap();
        v.remove(i);
        if n == 1 { 1 } else { 2 }
    }

    pub fn place(&mut self, r: &Req, e: &Env) -> Result<Outcome, &'static str> {
        let opp = r.side.invert_side();
        let mut out = Outcome::default();
        let raw_price = match r.kind {
            Kind::Market => if r.side == Side::Bid { i64::MAX } else { 1 },
            _ if r.pegged => e.oracle.checked_add(r.price).ok_or("price overflow")?,
            _ => r.price,
        };
        let price = if r.kind == Kind::Slide {
            match self.valid(opp, e.oracle, e.now).first() {
                Some((_, best)) if r.side == Side::Bid => raw_price.min(best - 1),
                Some((_, best)) => raw_price.max(best + 1),
                None => raw_price,
            }
        } else {
            raw_price
        };
        if price < 1 {
            return Err("price below one");
        }
        let post_only = matches!(r.kind, Kind::PostOnly | Kind::Slide);
        let mut post = matches!(r.kind, Kind::Limit | Kind::PostOnly | Kind::Slide);
        let (mut base, mut quote) = (r.max_base, r.max_quote);
        let mut limit = e.limit;
        let mut dropped = 0;
        for (o, p, ok) in self.ranked(opp, e.oracle) {
            if base == 0 || quote == 0 {
                break;
            }
            if !ok || o.expired(e.now) {
                if dropped < 5 {
                    dropped += 1;
                    out.events.push(out_ev(&o, opp, e.now));
                    self.remove(opp, &o);
                }
                continue;
            }
            if better(opp.invert_side(), p, price) {
                break; // beyond the limit
            }
            if post_only || limit == 0 {
                post = false;
                break;
            }
            let q = base.min(o.qty).min(quote / p);
            if q == 0 {
                break;
            }
            let own = o.owner == e.taker;
            if own {
                match r.stb {
                    SelfTradeBehavior::CancelProvide => {
                        out.events.push(out_ev(&o, opp, e.now));
                        self.remove(opp, &o);
                        continue;
                    }
                    SelfTradeBehavior::AbortTransaction => return Err("self trade"),
                    SelfTradeBehavior::DecrementTake => out.own_quote += q * p,
                }
            }
            base -= q;
            quote -= q * p;
            limit -= 1;
            out.events.push(Ev::Fill { taker_side: r.side, out: q == o.qty, slot: o.slot, maker: o.owner, id: o.key, client_id: o.client_id, maker_ts: o.ts, taker: e.taker, taker_client_id: r.client_id, price: p, qty: q, own, ts: e.now });
            if q == o.qty {
                self.remove(opp, &o);
            } else {
                self.sides[opp as usize].iter_mut().find(|x| x.key == o.key && x.pegged == o.pegged).unwrap().qty -= q;
            }
        }
        out.base = r.max_base - base;
        out.quote = r.max_quote - quote;
        let rest = base.min(quote / price);
        if !post || rest <= 0 || !(e.restable)(r.side, price) {
            return Ok(out);
        }
        // make room
        let mut freed = 0;
        for pegged in [r.pegged, !r.pegged] {
            let oldest = self.sides[r.side as usize].iter().filter(|o| o.pegged == pegged).map(|o| o.expiry()).min().unwrap_or(u64::MAX);
            if oldest < e.now {
                let c: Vec<Order> = self.sides[r.side as usize].iter().filter(|o| o.pegged == pegged && o.expiry() == oldest).cloned().collect();
                let o = c[(e.pick)(&c)];
                out.events.push(out_ev(&o, r.side, e.now));
                freed += self.remove(r.side, &o);
                break;
            }
        }
        if (e.full)(freed) {
            let worst = self.sides[r.side as usize].iter().map(|o| (*o, o.price(r.side, e.oracle).0)).max_by(|a, b| {
                let by_price = if r.side == Side::Bid { b.1.cmp(&a.1) } else { a.1.cmp(&b.1) };
                by_price.then(seq_of(&a.0, r.side).cmp(&seq_of(&b.0, r.side)))
            });
            let Some((o, p)) = worst else { return Err("full and empty") };
            if !better(r.side, price, p) {
                return Err("book full of better orders");
            }
            out.events.push(out_ev(&o, r.side, e.now));
            self.remove(r.side, &o);
        }
        let Some(slot) = e.slot else { return Err("no free order slot") };
        let data = if r.pegged { ((price - e.oracle) as i128 + (1i128 << 63)) as u64 } else { price as u64 };
        let seq = if r.side == Side::Bid { !e.seq } else { e.seq };
        let o = Order {
            pegged: r.pegged,
            key: ((data as u128) << 64) | seq as u128,
            owner: e.taker,
            slot,
            qty: rest,
            ts: e.now,
            tif: r.tif,
            peg_limit: if r.pegged { r.peg_limit } else { -1 },
            client_id: r.client_id,
            order_type: 0,
        };
        self.sides[r.side as usize].push(o);
        out.posted = Some(o);
        Ok(out)
    }
}

/// Decodes the waiting events, oldest first, with their sequence numbers.
pub fn events(q: &EventQueue) -> Vec<(Ev, u64, f32, f32)> {
    q.iter()
        .map(|raw| {
            let b: &[u8] = bytemuck::bytes_of(raw);
            let side = |x: u8| if x == 0 { Side::Bid } else { Side::Ask };
            let key = |o: usize| Pubkey::new_from_array(b[o..o + 32].try_into().unwrap());
            if b[0] == 0 {
                let fl = |o: usize| f32::from_le_bytes(b[o..o + 4].try_into().unwrap());
                let (mf, tf) = (fl(192), fl(196));
                let (maker, taker) = (key(24), key(96));
                (
                    Ev::Fill { taker_side: side(b[1]), out: b[2] == 1, slot: b[3], maker, id: u128_at(b, 152), client_id: u64_at(b, 184), maker_ts: u64_at(b, 88), taker, taker_client_id: u64_at(b, 144), price: u64_at(b, 168) as i64, qty: u64_at(b, 176) as i64, own: maker == taker, ts: u64_at(b, 8) },
                    u64_at(b, 16),
                    mf,
                    tf,
                )
            } else {
                (Ev::Out { side: side(b[1]), slot: b[2], owner: key(24), qty: u64_at(b, 56) as i64, id: u128_at(b, 64), ts: u64_at(b, 8) }, u64_at(b, 16), 0.0, 0.0)
            }
        })
        .collect()
}
