//! C31, C32, C33: the feeds and cranks that run next to the program, compiled from /repo/bin as they are.
//! Their tasks are polled by hand, one message at a time.
use crate::ensure;
use crate::machine::{Machine, K};
use crate::pbt::*;
use crate::world::*;
use itertools::Itertools;
use mango_v4::accounts_zerocopy::KeyedAccount;
use mango_v4::state::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::AtomicBool;
use std::sync::Arc;
use svc::async_channel::{Receiver, Sender};
use svc::connector::*;
use svc::mango_feeds_lib::{MarketConfig, OrderbookSide};
use svc::service_mango_fills::*;
use svc::service_mango_orderbook::*;

pub fn books() -> Prop {
    Prop {
        id: "C31",
        rule: "random orders (fixed, oracle pegged, spot), cancels, fills and oracle moves over two perp and two spot markets, with the resulting accounts handed to the feed in random order, some late, some twice. Non-trivial: the book that a subscriber keeps changed at least three times",
        assumptions: &[
            "tokio, async-channel and mango-feeds-connector are stand-ins; the harness decides the order of messages",
            "the valid orders of a book side are the program's own (C09, C12)",
            "sockets and subscriptions (main.rs) are not run",
        ],
        suites: vec![Suite { name: "book", quick: 1500, thorough: 12_000, f: book }],
    }
}

pub fn fills() -> Prop {
    Prop {
        id: "C32",
        rule: "random event queues (fills, outs, liquidations; pushes, pops, wrap-around, forks that roll back to an earlier state and go on differently), handed to the feed, some late or twice. Non-trivial: at least one fill was published or revoked",
        assumptions: &[
            "tokio, async-channel and mango-feeds-connector are stand-ins; the harness decides the order of messages",
            "forks reach the feed as newer writes of the queue account",
            "the publication of spot fills is disabled in the code",
        ],
        suites: vec![Suite { name: "fills", quick: 3000, thorough: 100_000, f: fill }],
    }
}

pub fn cranks() -> Prop {
    Prop {
        id: "C33",
        rule: "random perp trading until events pile up, and random spot event queues; the crank's instruction is executed, or its accounts are compared with the queue. Non-trivial: at least one instruction was sent",
        assumptions: &["sending transactions is not run; mango-feeds-connector, async-trait and async-channel are stand-ins"],
        suites: vec![
            Suite { name: "perp", quick: 600, thorough: 12_000, f: crank_perp },
            Suite { name: "spot", quick: 2_000, thorough: 60_000, f: crank_spot },
        ],
    }
}

type Task = Pin<Box<dyn Future<Output = ()>>>;
struct Feed<T> {
    writes: Sender<AccountWrite>,
    slots: Sender<SlotUpdate>,
    out: Receiver<T>,
    tasks: Vec<Task>,
}
impl<T> Feed<T> {
    fn new<F: Future<Output = anyhow::Result<(Sender<AccountWrite>, Sender<SlotUpdate>, Receiver<T>)>> + 'static>(f: F) -> Result<Self, String> {
        let mut f: Pin<Box<dyn Future<Output = _>>> = Box::pin(f);
        let (writes, slots, out) = svc::tokio::poll_now(&mut f).ok_or("the filter does not start")?.map_err(|e| e.to_string())?;
        Ok(Feed { writes, slots, out, tasks: svc::tokio::take_tasks() })
    }
    fn slot(&mut self, slot: u64, parent: Option<u64>, status: SlotStatus) -> Result<(), String> {
        self.slots.try_send(SlotUpdate { slot, parent, status }).unwrap();
        ensure!(self.run()?.is_empty(), "a slot update alone is published");
        Ok(())
    }
    /// lets the filter work through what it has been sent
    fn run(&mut self) -> Result<Vec<T>, String> {
        for t in &mut self.tasks {
            let r = crate::sim::catch(std::panic::AssertUnwindSafe(|| svc::tokio::poll_now(t).is_some()));
            ensure!(r == Ok(false), "the filter stops: {}", r.err().unwrap_or_default());
        }
        let mut v = vec![];
        while let Ok(m) = self.out.try_recv() {
            v.push(m);
        }
        Ok(v)
    }
}
fn write(key: Pubkey, slot: u64, version: u64, owner: Pubkey, data: Vec<u8>) -> AccountWrite {
    AccountWrite { pubkey: key, slot, write_version: version, lamports: 1, owner, executable: false, rent_epoch: 0, data, is_selected: true }
}
fn off() -> Arc<AtomicBool> {
    Arc::new(AtomicBool::new(false))
}

// ---- order books

type Level = BTreeMap<i64, i64>;
type Orders = Vec<(i64, i64, String)>;

struct Side2 {
    key: Pubkey,
    data: Option<(u64, u64, Vec<u8>)>,
    /// what a subscriber that applies the updates has
    levels: Option<Level>,
    orders: Option<Orders>,
}
struct Mkt {
    id: Pubkey,
    cfg: MarketConfig,
    perp: bool,
    sides: [Side2; 2],
}

fn lots(m: &Mkt, price: f64, qty: f64) -> (i64, i64) {
    let c = &m.cfg;
    let ui = 10f64.powi(c.base_decimals as i32 - c.quote_decimals as i32) * c.quote_lot_size as f64 / c.base_lot_size as f64;
    let q = qty * 10f64.powi(c.base_decimals as i32) / c.base_lot_size as f64;
    ((price / ui).round() as i64, q.round() as i64)
}

/// the orders of a side as the accounts that were handed over have them
fn truth(m: &Mkt, i: usize, oracle: Option<&Vec<u8>>, oracle_owner: Pubkey) -> Option<Orders> {
    let (_, _, d) = m.sides[i].data.as_ref()?;
    if !m.perp {
        let mut v: Orders = crate::dex::read_book(d).iter().map(|o| (o.price() as i64, o.lots as i64, o.owner.to_string())).collect();
        v.sort();
        return Some(v);
    }
    let acc = svc::solana_sdk::account::Account { lamports: 1, data: oracle?.clone(), owner: oracle_owner, executable: false, rent_epoch: 0 };
    let k = KeyedAccount { key: m.cfg.oracle, account: acc };
    let price = oracle_state_unchecked(&OracleAccountInfos::from_reader(&k), m.cfg.base_decimals).ok()?.price;
    let price_lots = (price * num(m.cfg.base_lot_size as f64) / num(m.cfg.quote_lot_size as f64)).to_num::<i64>();
    let side: BookSide = bytemuck::pod_read_unaligned(&d[8..8 + std::mem::size_of::<BookSide>()]);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let mut v: Orders = side.iter_valid(now, price_lots).map(|o| (o.price_lots, o.node.quantity, o.node.owner.to_string())).collect();
    v.sort();
    Some(v)
}
fn levels(o: &Orders) -> Level {
    let mut l = Level::new();
    for x in o {
        *l.entry(x.0).or_default() += x.1;
    }
    l
}
fn read_levels(m: &Mkt, l: &[OrderbookLevel]) -> Result<Level, String> {
    let mut r = Level::new();
    for x in l {
        let (p, q) = lots(m, x[0], x[1]);
        ensure!(r.insert(p, q).is_none(), "the price {} is listed twice", x[0]);
    }
    Ok(r)
}
fn read_orders(m: &Mkt, o: &[svc::service_mango_orderbook::Order]) -> Orders {
    let mut v: Orders = o
        .iter()
        .map(|o| {
            let (p, q) = lots(m, o.price, o.quantity);
            (p, q, o.owner_pubkey.clone())
        })
        .collect();
    v.sort();
    v
}

fn book(src: &mut Src, case: &mut Case) -> Result<(), String> {
    const OPS: [(K, u64); 9] = [
        (K::PerpOrder, 20),
        (K::PerpPegged, 12),
        (K::PerpCancel, 8),
        (K::Price, 12),
        (K::Consume, 4),
        (K::SerumOpen, 8),
        (K::SerumPlace, 16),
        (K::SerumCancel, 6),
        (K::Time, 2),
    ];
    let mac = Machine::setup(src, &OPS);
    let w = &mac.w;
    let shared = src.chance(25);
    let mut ms: Vec<Mkt> = vec![];
    let side = |key| Side2 { key, data: None, levels: None, orders: None };
    for p in 0..2 {
        let (k, m) = (&w.perps[p], w.perp(p));
        // two markets may follow the same oracle
        let oracle = if shared { w.perps[0].oracle } else { k.oracle };
        let cfg = MarketConfig {
            name: format!("perp{p}"),
            bids: k.bids,
            asks: k.asks,
            event_queue: k.event_queue,
            oracle,
            base_decimals: m.base_decimals,
            quote_decimals: w.tbank(0).mint_decimals,
            base_lot_size: m.base_lot_size,
            quote_lot_size: m.quote_lot_size,
        };
        ms.push(Mkt { id: k.key, cfg, perp: true, sides: [side(k.bids), side(k.asks)] });
    }
    for s in &w.spots {
        let c = &s.cookie;
        let raw = w.s.sim.borrow().get(&c.market).unwrap().data.clone();
        let ms2: serum_dex::state::MarketState = bytemuck::pod_read_unaligned(&raw[5..raw.len() - 7]);
        let (b, q) = (w.tbank(s.base), w.tbank(s.quote));
        let cfg = MarketConfig {
            name: "spot".into(),
            bids: c.bids,
            asks: c.asks,
            event_queue: c.event_q,
            oracle: Pubkey::default(),
            base_decimals: b.mint_decimals,
            quote_decimals: q.mint_decimals,
            base_lot_size: ms2.coin_lot_size as i64,
            quote_lot_size: ms2.pc_lot_size as i64,
        };
        ms.push(Mkt { id: c.market, cfg, perp: false, sides: [side(c.bids), side(c.asks)] });
    }
    let (perp, spot): (Vec<_>, Vec<_>) = ms.iter().partition(|m| m.perp);
    let list = |v: Vec<&Mkt>| v.iter().map(|m| (m.id, m.cfg.clone())).collect::<Vec<_>>();
    let mut feed = Feed::new(svc::orderbook_filter::init(list(perp), list(spot), metrics::Metrics, off()))?;

    let keys: Vec<Pubkey> = ms.iter().flat_map(|m| [m.cfg.bids, m.cfg.asks].into_iter().chain(m.perp.then_some(m.cfg.oracle))).unique().collect();
    let mut fed: BTreeMap<Pubkey, (u64, u64, Vec<u8>)> = BTreeMap::new();
    let mut old: Vec<AccountWrite> = vec![];
    let (mut slot, mut version, mut changes) = (100u64, 0u64, 0);
    let with_slots = src.bool();
    if with_slots {
        feed.slot(slot, None, SlotStatus::Rooted)?;
    }
    for _ in 0..6 + src.below(40) {
        let s = w.snap();
        mac.step(src, &s);
        // some changes reach the feed together, in any order
        if src.chance(30) {
            continue;
        }
        let mut ks = keys.clone();
        for i in (1..ks.len()).rev() {
            ks.swap(i, src.idx(i + 1));
        }
        for k in ks {
            let (data, owner) = {
                let sim = w.s.sim.borrow();
                let a = sim.get(&k).unwrap();
                (a.data.clone(), a.owner)
            };
            let again = fed.get(&k).map(|x| x.2 == data).unwrap_or(false);
            if (again && !src.chance(3)) || src.chance(10) {
                continue;
            }
            version += 1;
            if src.chance(40) {
                let parent = slot;
                slot += 1 + src.below(3);
                if with_slots {
                    feed.slot(slot, Some(parent), if src.bool() { SlotStatus::Processed } else { SlotStatus::Rooted })?;
                }
            }
            case.note(|| format!("write {slot} {version} {k} {}", ms.iter().map(|m| if k == m.cfg.bids { "bids " } else if k == m.cfg.asks { "asks " } else if k == m.cfg.oracle { "oracle " } else { "- " }).collect::<String>()));
            let x = write(k, slot, version, owner, data.clone());
            feed.writes.try_send(x.clone()).unwrap();
            old.push(x);
            fed.insert(k, (slot, version, data.clone()));
            for m in &mut ms {
                for s in &mut m.sides {
                    if s.key == k {
                        s.data = fed.get(&k).cloned();
                    }
                }
            }
            let got = feed.run()?;
            case.note(|| format!("  {} messages {:?}", got.len(), got.iter().map(|m| match m { OrderbookFilterMessage::LevelUpdate(u) => format!("{u:?}"), OrderbookFilterMessage::LevelCheckpoint(u) => format!("{u:?}"), _ => String::new() }).collect::<Vec<_>>()));
            changes += absorb(&mut ms, &fed, w, got, &format!("slot {slot} version {version} of {k}"))?;
            if src.chance(5) {
                // late or repeated writes change nothing
                let i = src.idx(old.len());
                feed.writes.try_send(old[i].clone()).unwrap();
                let got = feed.run()?;
                ensure!(got.is_empty(), "an old write is published");
                case.label("old write");
            }
        }
    }
    if changes >= 3 {
        case.nontrivial = true;
    }
    if shared {
        case.label("shared oracle");
    }
    Ok(())
}

/// Applies what the feed published and compares with the accounts it has; returns the number of changes.
fn absorb(ms: &mut [Mkt], fed: &BTreeMap<Pubkey, (u64, u64, Vec<u8>)>, w: &World, got: Vec<OrderbookFilterMessage>, what: &str) -> Result<usize, String> {
    let mut n = 0;
    let find = |ms: &[Mkt], id: &str| ms.iter().position(|m| m.id.to_string() == id).ok_or(format!("{what}: unknown market {id}"));
    let mut last: BTreeMap<usize, (Option<[Level; 2]>, Option<[Orders; 2]>)> = BTreeMap::new();
    for msg in got {
        match msg {
            OrderbookFilterMessage::LevelCheckpoint(c) => {
                let i = find(ms, &c.market)?;
                last.entry(i).or_default().0 = Some([read_levels(&ms[i], &c.bids)?, read_levels(&ms[i], &c.asks)?]);
            }
            OrderbookFilterMessage::BookCheckpoint(c) => {
                let i = find(ms, &c.market)?;
                last.entry(i).or_default().1 = Some([read_orders(&ms[i], &c.bids), read_orders(&ms[i], &c.asks)]);
            }
            OrderbookFilterMessage::LevelUpdate(u) => {
                let i = find(ms, &u.market)?;
                let s = matches!(u.side, OrderbookSide::Ask) as usize;
                let (sl, v, _) = ms[i].sides[s].data.clone().unwrap_or_default();
                ensure!((u.slot, u.write_version) == (sl, v), "{what}: levels of slot {} version {}, the side is at {sl} {v}", u.slot, u.write_version);
                let up = read_levels(&ms[i], &u.update)?;
                let l = ms[i].sides[s].levels.as_mut().ok_or(format!("{what}: levels without a base"))?;
                for (p, q) in up {
                    if q == 0 {
                        ensure!(l.remove(&p).is_some(), "{what}: removes a level that was not there: {p}");
                    } else {
                        l.insert(p, q);
                    }
                }
                n += 1;
            }
            OrderbookFilterMessage::BookUpdate(u) => {
                let i = find(ms, &u.market)?;
                let s = matches!(u.side, OrderbookSide::Ask) as usize;
                let (del, add) = (read_orders(&ms[i], &u.removals), read_orders(&ms[i], &u.additions));
                let o = ms[i].sides[s].orders.as_mut().ok_or(format!("{what}: orders without a base"))?;
                for x in del {
                    let at = o.iter().position(|y| *y == x).ok_or(format!("{what}: removes an order that was not there: {x:?}"))?;
                    o.remove(at);
                }
                o.extend(add);
                o.sort();
            }
        }
    }
    for i in 0..ms.len() {
        let m = &ms[i];
        let owner = fed.get(&m.cfg.oracle).map(|_| w.s.sim.borrow().get(&m.cfg.oracle).unwrap().owner).unwrap_or_default();
        let t: Vec<Option<Orders>> = (0..2).map(|s| truth(m, s, fed.get(&m.cfg.oracle).map(|x| &x.2), owner)).collect();
        for s in 0..2 {
            let Some(t) = &t[s] else { continue };
            let x = &mut ms[i].sides[s];
            if x.orders.is_none() {
                x.orders = Some(t.clone());
                x.levels = Some(levels(t));
                continue;
            }
            let (o, l) = (x.orders.as_ref().unwrap(), x.levels.as_ref().unwrap());
            ensure!(*l == levels(t), "{what}: {} side {s}: a subscriber has the levels {l:?}, the book {:?}", ms[i].cfg.name, levels(t));
            ensure!(o == t, "{what}: {} side {s}: a subscriber has the orders {o:?}, the book {t:?}", ms[i].cfg.name);
        }
        if let Some((l, o)) = last.get(&i) {
            let (Some(b), Some(a)) = (&t[0], &t[1]) else { continue };
            let name = &ms[i].cfg.name;
            ensure!(*l == Some([levels(b), levels(a)]), "{what}: {name}: the checkpoint of levels is {l:?}, the book {b:?} {a:?}");
            ensure!(*o == Some([b.clone(), a.clone()]), "{what}: {name}: the checkpoint of orders is {o:?}, the book {b:?} {a:?}");
        }
    }
    Ok(n)
}

// ---- fills

const N: u64 = MAX_NUM_EVENTS as u64;

fn queue_bytes(q: &EventQueue) -> Vec<u8> {
    let mut d = <EventQueue as anchor_lang::Discriminator>::DISCRIMINATOR.to_vec();
    d.extend(bytemuck::bytes_of(q));
    d
}
fn event(src: &mut Src, q: &EventQueue, who: &[Pubkey]) -> AnyEvent {
    let seq = q.header.seq_num;
    match src.below(8) {
        0 | 1 => bytemuck::cast(OutEvent::new(Side::Bid, src.below(8) as u8, src.below(1000), seq, src.pick(who), 1 + src.below(9) as i64, src.below(1000) as u128)),
        2 => {
            let mut e: AnyEvent = bytemuck::Zeroable::zeroed();
            e.event_type = EventType::Liquidate as u8;
            e.padding[20] = src.below(200) as u8;
            e
        }
        _ => {
            let mut f: FillEvent = bytemuck::Zeroable::zeroed();
            f.event_type = EventType::Fill as u8;
            f.taker_side = src.bool() as u8;
            f.timestamp = src.below(1 << 32);
            f.seq_num = seq;
            f.maker = src.pick(who);
            f.taker = src.pick(who);
            f.price = 1 + src.log(1 << 40) as i64;
            f.quantity = 1 + src.log(1 << 30) as i64;
            f.maker_client_order_id = src.below(u64::MAX);
            f.taker_client_order_id = src.below(100);
            f.maker_fee = 0.001 * src.below(5) as f32;
            f.taker_fee = 0.001 * src.below(5) as f32;
            bytemuck::cast(f)
        }
    }
}
fn same(f: &svc::service_mango_fills::FillEvent, e: &AnyEvent, c: &MarketConfig) -> bool {
    let x: mango_v4::state::FillEvent = bytemuck::cast(*e);
    let price = x.price as f64 * c.quote_lot_size as f64 / c.base_lot_size as f64 * 10f64.powi(c.base_decimals as i32 - c.quote_decimals as i32);
    let qty = x.quantity as f64 * c.base_lot_size as f64 / 10f64.powi(c.base_decimals as i32);
    x.event_type == EventType::Fill as u8
        && f.event_type == FillEventType::Perp
        && f.seq_num == x.seq_num
        && f.maker == x.maker.to_string()
        && f.taker == x.taker.to_string()
        && matches!(f.taker_side, OrderbookSide::Ask) == (x.taker_side == 1)
        && f.timestamp == x.timestamp
        && (f.maker_client_order_id, f.taker_client_order_id) == (x.maker_client_order_id, x.taker_client_order_id)
        && (f.maker_fee, f.taker_fee) == (x.maker_fee, x.taker_fee)
        && (f.price / price - 1.0).abs() < 1e-9
        && (f.quantity / qty - 1.0).abs() < 1e-9
}
use mango_v4::state::FillEvent;

struct Queue {
    id: Pubkey,
    cfg: MarketConfig,
    q: Box<EventQueue>,
    snaps: Vec<Box<EventQueue>>,
    gone: u64,
    /// last seen by the feed: the queue and what a subscriber has
    seen: Option<(Box<EventQueue>, BTreeMap<u64, AnyEvent>)>,
}
fn window(q: &EventQueue, prev: u64) -> BTreeMap<u64, AnyEvent> {
    let n = q.header.seq_num;
    (n.max(prev).saturating_sub(N)..n).map(|s| (s, q.buf[(s % N) as usize])).filter(|(_, e)| e.event_type == EventType::Fill as u8).collect()
}

fn fill(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let who: Vec<Pubkey> = (0..4u8).map(|i| Pubkey::new_from_array([i + 1; 32])).collect();
    let key = |i: u8| Pubkey::new_from_array([100 + i; 32]);
    let mut qs: Vec<Queue> = vec![];
    for i in 0..2u8 {
        let mut q: Box<EventQueue> = Box::new(bytemuck::Zeroable::zeroed());
        // the queue has been in use, often up to just before its end
        let turns = match src.below(4) {
            0 => 0,
            1 => src.below(2 * N),
            2 => N - src.below(4).min(N),
            _ => N * src.below(3) + src.below(3),
        };
        for _ in 0..turns {
            let seq = q.header.seq_num;
            q.push_back(bytemuck::cast(OutEvent::new(Side::Ask, 0, 1, seq, who[0], 1, 1))).unwrap();
            q.pop_front().unwrap();
        }
        let cfg = MarketConfig {
            name: format!("m{i}"),
            bids: key(10 + i),
            asks: key(20 + i),
            event_queue: key(30 + i),
            oracle: key(40 + i),
            base_decimals: src.pick(&[4, 5, 6, 8, 9]),
            quote_decimals: 6,
            base_lot_size: src.pick(&[1, 10, 100, 10_000]),
            quote_lot_size: src.pick(&[1, 10, 100]),
        };
        qs.push(Queue { id: key(i), cfg, q, snaps: vec![], gone: 0, seen: None });
    }
    let spot = MarketConfig { name: "spot".into(), event_queue: key(60), oracle: Pubkey::default(), ..qs[0].cfg.clone() };
    let perp = qs.iter().map(|q| (q.id, q.cfg.clone())).collect();
    let mut feed = Feed::new(svc::fill_event_filter::init(perp, vec![(key(61), spot)], metrics::Metrics, off()))?;
    let (mut slot, mut version) = (1u64, 0u64);
    let with_slots = src.bool();
    if with_slots {
        feed.slot(slot, None, SlotStatus::Rooted)?;
    }
    let mut old: Vec<AccountWrite> = vec![];
    for _ in 0..2 + src.below(12) {
        let i = src.idx(2);
        let Queue { q, snaps, .. } = &mut qs[i];
        if !snaps.is_empty() && src.chance(20) {
            // a fork: back to an earlier state
            *q = snaps[src.idx(snaps.len())].clone();
            case.label("fork");
        }
        for _ in 0..src.below(4) {
            if src.chance(30) {
                for _ in 0..src.below(1 + q.len() as u64) {
                    q.pop_front().unwrap();
                }
            } else {
                let k = if src.chance(5) { src.below(N) } else { src.below(6) };
                for _ in 0..k {
                    let e = event(src, q, &who);
                    let _ = q.push_back(e);
                }
            }
        }
        snaps.push(q.clone());
        if snaps.len() > 4 {
            snaps.remove(0);
        }
        if src.chance(25) {
            continue; // the feed does not see every write
        }
        version += 1;
        if src.chance(60) {
            slot += 1;
            if with_slots {
                feed.slot(slot, Some(slot - 1), if src.bool() { SlotStatus::Processed } else { SlotStatus::Rooted })?;
            }
        }
        let x = write(qs[i].cfg.event_queue, slot, version, mango_v4::id(), queue_bytes(&qs[i].q));
        feed.writes.try_send(x.clone()).unwrap();
        let got = feed.run()?;
        take(&mut qs[i], got, slot, version, case)?;
        old.push(x);
        if src.chance(10) {
            let x = match src.below(3) {
                0 => old[src.idx(old.len())].clone(),
                1 => write(key(77), slot + 1, version, mango_v4::id(), vec![1, 2, 3]),
                // spot queues are read, but not published
                _ => write(key(60), slot, version, w_dex(), crate::dex::init_events()),
            };
            feed.writes.try_send(x).unwrap();
            ensure!(feed.run()?.is_empty(), "an old, unknown or spot write is published");
        }
    }
    Ok(())
}
fn w_dex() -> Pubkey {
    Pubkey::new_from_array([99; 32])
}

fn take(x: &mut Queue, got: Vec<FillEventFilterMessage>, slot: u64, version: u64, case: &mut Case) -> Result<(), String> {
    let q = x.q.clone();
    let Some((prev, mut has)) = x.seen.take() else {
        ensure!(got.is_empty(), "publishes before it knows a state");
        let w = window(&q, 0);
        x.seen = Some((q, w));
        return Ok(());
    };
    let what = format!("slot {slot} version {version}: queue from {} events, head {} to {}, head {}", prev.header.seq_num, prev.header.head(), q.header.seq_num, q.header.head());
    case.note(|| what.clone());
    let all: BTreeMap<u64, AnyEvent> = window(&q, 0);
    let (mut cps, mut heads) = (vec![], vec![]);
    let mut revoked = BTreeSet::new();
    for m in got {
        match m {
            FillEventFilterMessage::Update(u) => {
                ensure!((u.slot, u.write_version) == (slot, version) && u.market_key == x.id.to_string() && u.market_name == x.cfg.name, "{what}: {u:?}");
                case.nontrivial = true;
                let s = u.event.seq_num;
                if u.status == FillUpdateStatus::Revoke {
                    case.label("revoke");
                    let Some(e) = has.remove(&s) else {
                        ensure!(s < x.gone && revoked.insert(s), "{what}: revokes {s}, which nobody has");
                        continue;
                    };
                    ensure!(revoked.insert(s) && same(&u.event, &e, &x.cfg), "{what}: revokes {:?}, published was {e:?}", u.event);
                } else {
                    let e = all.get(&s).ok_or(format!("{what}: publishes {s}, which is not in the queue"))?;
                    ensure!(same(&u.event, e, &x.cfg), "{what}: publishes {:?} for {e:?}", u.event);
                    ensure!(has.insert(s, *e).is_none(), "{what}: publishes {s} again");
                }
            }
            FillEventFilterMessage::HeadUpdate(h) => heads.push(h),
            FillEventFilterMessage::Checkpoint(c) => cps.push(c),
        }
    }
    let want = window(&q, prev.header.seq_num);
    let from = q.header.seq_num.max(prev.header.seq_num).saturating_sub(N);
    // what has left the queue in one fork cannot be revoked in another
    x.gone = x.gone.max(from);
    has.retain(|s, _| *s >= x.gone);
    let mine = &has;
    let full_want = want;
    let want: BTreeMap<u64, AnyEvent> = full_want.range(x.gone..).map(|(k, v)| (*k, *v)).collect();
    let list = |m: &BTreeMap<u64, AnyEvent>| m.keys().copied().collect::<Vec<_>>();
    ensure!(list(mine) == list(&want), "{what}: a subscriber has the fills {:?}, the queue {:?}", list(mine), list(&want));
    for (s, e) in &want {
        ensure!(bytemuck::bytes_of(&mine[s]) == bytemuck::bytes_of(e), "{what}: a subscriber has an old fill {s}");
    }
    ensure!(cps.len() == 1, "{what}: {} checkpoints", cps.len());
    let c = &cps[0];
    ensure!((c.slot, c.write_version) == (slot, version) && c.market == x.id.to_string() && c.queue == x.cfg.event_queue.to_string(), "{what}: {c:?}");
    ensure!(
        c.events.len() == full_want.len() && c.events.iter().zip(full_want.values()).all(|(f, e)| same(f, e, &x.cfg)),
        "{what}: the checkpoint has {:?}, the queue {:?}",
        c.events.iter().map(|e| e.seq_num).collect::<Vec<_>>(),
        list(&full_want)
    );
    let (h0, h1) = (prev.header.head(), q.header.head());
    ensure!(heads.len() == (h0 != h1) as usize, "{what}: {} head updates", heads.len());
    for h in heads {
        case.label("head update");
        if h1 == 0 || h0 == 0 {
            case.label("head at the start of the queue");
        }
        let at = |q: &EventQueue| q.header.seq_num - q.header.count() as u64;
        ensure!((h.head, h.prev_head) == (h1, h0), "{what}: {h:?}");
        // what the last consumed event says; nothing for liquidations
        let says = |q: &EventQueue| match at(q) {
            0 => 0,
            s if q.buf[((s - 1) % N) as usize].event_type == EventType::Liquidate as u8 => 0,
            s => s,
        };
        // in a full queue, that event is no more
        for (got, q) in [(h.head_seq_num, &q), (h.prev_head_seq_num, &prev)] {
            ensure!(q.full() || got == says(q), "{what}: {h:?}, expected {} and {}", says(&q), says(&prev));
        }
        ensure!((h.slot, h.write_version) == (slot, version) && h.market_key == x.id.to_string() && h.status == FillUpdateStatus::New, "{what}: {h:?}");
    }
    x.seen = Some((q, has));
    Ok(())
}

// ---- cranks

fn send<S: account_write_filter::AccountWriteSink>(s: &S, key: Pubkey, owner: Pubkey, data: Vec<u8>) -> Result<Result<(), String>, String> {
    let a = chain_data::AccountData {
        slot: 1,
        write_version: 1,
        account: svc::solana_sdk::account::Account { lamports: 1, data, owner, executable: false, rent_epoch: 0 }.into(),
    };
    crate::sim::catch(|| {
        let mut f = s.process(&key, &a);
        svc::tokio::poll_now(&mut f).expect("a crank waits")
    })
}

fn crank_perp(src: &mut Src, case: &mut Case) -> Result<(), String> {
    const OPS: [(K, u64); 6] = [(K::PerpOrder, 40), (K::PerpPegged, 6), (K::PerpCancel, 2), (K::Price, 3), (K::Time, 2), (K::Consume, 1)];
    let mac = Machine::setup(src, &OPS);
    let w = &mac.w;
    let (tx, rx) = svc::async_channel::unbounded();
    let sink = svc::mango_v4_perp_crank_sink::MangoV4PerpCrankSink::new(w.perps.iter().map(|p| (p.event_queue, p.key)).collect(), w.group, tx);
    let every = src.pick(&[30u64, 5]);
    for _ in 0..6 + src.below(100) {
        let s = w.snap();
        mac.step(src, &s);
        if !src.chance(every) {
            continue;
        }
        let p = src.idx(2);
        let k = w.perps[p].event_queue;
        let read = || -> (Vec<u8>, Box<EventQueue>) {
            let d = w.s.sim.borrow().get(&k).unwrap().data.clone();
            let mut q: Box<EventQueue> = Box::new(bytemuck::Zeroable::zeroed());
            bytemuck::bytes_of_mut(&mut *q).copy_from_slice(&d[8..]);
            (d, q)
        };
        let (data, q) = read();
        let any = q.iter().any(|e| e.event_type == EventType::Fill as u8);
        let got = send(&sink, k, mango_v4::id(), data)?;
        let what = format!("perp {p}, {} events, fills {any}", q.len());
        let wanted = any || q.len() > 2;
        ensure!(got.is_ok() == wanted, "{what}: {got:?}");
        let sent = rx.try_recv();
        ensure!(sent.is_ok() == wanted && rx.is_empty(), "{what}: sends {sent:?}");
        let Ok(ixs) = sent else { continue };
        case.nontrivial = true;
        case.label(if q.len() > 8 { "more than one crank" } else { "all at once" });
        let before = q.header.seq_num - q.len() as u64;
        ensure!(ixs.len() == 1 && w.ok_raw(ixs[0].clone(), &[]), "{what}: the program refuses: {}", w.fail_text());
        let (_, q2) = read();
        let done = q2.header.seq_num - q2.len() as u64 - before;
        ensure!(done == (q.len() as u64).min(8), "{what}: {done} events consumed");
    }
    Ok(())
}

fn crank_spot(src: &mut Src, case: &mut Case) -> Result<(), String> {
    use serum_dex::instruction::MarketInstruction;
    let key = |i: u8| Pubkey::new_from_array([i; 32]);
    let (mkt, evq) = (key(1), key(2));
    let (tx, rx) = svc::async_channel::unbounded();
    let sink = svc::openbook_crank_sink::OpenbookCrankSink::new(vec![(evq, mkt), (key(3), key(4))], tx);
    let cap = 2 + src.below(40);
    let count = src.below(cap + 1).min(src.below(cap + 1));
    let seq = count + src.below(200);
    let mut evs: Vec<serum_dex::state::Event> = vec![];
    for _ in 0..cap {
        // also what has been consumed before is still there
        evs.push(serum_dex::state::Event {
            event_flags: if src.chance(30) { 1 } else { 2 } | if src.bool() { 4 } else { 0 },
            owner_slot: src.below(128) as u8,
            fee_tier: 0,
            _padding: [0; 5],
            native_qty_released: src.below(1000),
            native_qty_paid: src.below(1000),
            native_fee_or_rebate: src.below(10),
            order_id: src.below(1 << 60) as u128,
            owner: bytemuck::cast([10 + src.below(20) as u8; 32]),
            client_order_id: src.below(5),
        });
    }
    let mut d = b"serum".to_vec();
    for x in [17u64, (seq - count) % cap, count, seq] {
        d.extend(x.to_le_bytes());
    }
    for e in &evs {
        d.extend(bytemuck::bytes_of(e));
    }
    d.extend(vec![0; src.idx(80)]);
    d.extend(b"padding");
    let front: Vec<_> = (0..count).map(|i| evs[((seq - count + i) % cap) as usize]).collect();
    let wanted = count > 2 || front.iter().any(|e| e.event_flags & 1 != 0);
    let got = send(&sink, evq, w_dex(), d)?;
    let what = format!("{count} of {cap} events up to {seq}");
    ensure!(got.is_ok() == wanted, "{what}: {got:?}");
    let sent = rx.try_recv();
    ensure!(sent.is_ok() == wanted && rx.is_empty(), "{what}: sends {sent:?}");
    let Ok(ixs) = sent else { return Ok(()) };
    case.nontrivial = true;
    ensure!(ixs.len() == 1, "{what}: {} instructions", ixs.len());
    let ix = &ixs[0];
    let mut want: Vec<Pubkey> = front.iter().map(|e| Pubkey::new_from_array(bytemuck::cast({ e.owner }))).collect();
    want.sort();
    want.dedup();
    let n = want.len();
    want.extend([mkt, evq]);
    let keys: Vec<Pubkey> = ix.accounts.iter().map(|a| a.pubkey).collect();
    // open orders in order of their keys, the market, the queue, and two accounts that are not looked at
    ensure!(keys.len() == n + 4 && keys[..n + 2] == want[..], "{what}: accounts {keys:?}, expected {want:?}");
    ensure!(ix.accounts[..n + 2].iter().all(|a| a.is_writable && !a.is_signer), "{what}: {:?}", ix.accounts);
    ensure!(ix.program_id.to_string() == "srmqPvymJeFKQ4zGQed1GFppgkRHL9kaELCbyksJtPX", "{what}: {}", ix.program_id);
    match MarketInstruction::unpack(&ix.data) {
        Some(MarketInstruction::ConsumeEvents(k)) => ensure!(k as u64 == count, "{what}: consumes {k}"),
        x => return Err(format!("{what}: sends {x:?}")),
    }
    Ok(())
}
