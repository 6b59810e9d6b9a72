//! Stand-in for the external serum/openbook v1 program: order matching, fund locking, fees,
//! rebates and the event queue follow the published program's rules; the book is a flat list.
use serum_dex::instruction::{MarketInstruction, NewOrderInstructionV3, SelfTradeBehavior};
use serum_dex::matching::{OrderType, Side};
use serum_dex::state::{AccountFlag, MarketState, OpenOrders, ToAlignedBytes};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::program::{invoke, invoke_signed};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::cell::RefMut;

pub const BOOK_CAP: usize = 96;
pub const EVENT_CAP: usize = 128;
const REC: usize = 56;
const EV: usize = 96;
pub const BOOK_LEN: usize = 12 + 8 + 8 + BOOK_CAP * 16 + BOOK_CAP * REC;
pub const EVENTS_LEN: usize = 12 + 8 + 8 + 8 + EVENT_CAP * EV;
pub const MARKET_LEN: usize = 388;
pub const OO_LEN: usize = 3228;

type R<T> = Result<T, ProgramError>;
fn err<T>(code: u32) -> R<T> {
    Err(ProgramError::Custom(0x1000000 + code))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct BookOrder {
    pub id: u128,
    pub owner: Pubkey,
    pub lots: u64,
    pub slot: u64,
    pub client_id: u64,
}
impl BookOrder {
    pub fn price(&self) -> u64 {
        (self.id >> 64) as u64
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Event {
    /// 0 = fill of a taker, 1 = fill of a maker, 2 = out
    pub kind: u64,
    pub bid: u64,
    pub slot: u64,
    /// maker fill: the order is fully filled
    pub done: u64,
    pub owner: Pubkey,
    pub paid: u64,
    pub received: u64,
    pub fee: u64,
    pub id_hi: u64,
}

fn rd(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn wr(b: &mut [u8], o: usize, v: u64) {
    b[o..o + 8].copy_from_slice(&v.to_le_bytes())
}

pub fn init_book(bids: bool) -> Vec<u8> {
    let mut d = vec![0u8; BOOK_LEN];
    pad(&mut d);
    let f = if bids {
        AccountFlag::Bids
    } else {
        AccountFlag::Asks
    };
    wr(&mut d, 5, AccountFlag::Initialized as u64 + f as u64);
    d
}
fn pad(d: &mut [u8]) {
    let n = d.len();
    d[..5].copy_from_slice(b"serum");
    d[n - 7..].copy_from_slice(b"padding");
}
pub fn init_events() -> Vec<u8> {
    let mut d = vec![0u8; EVENTS_LEN];
    pad(&mut d);
    wr(
        &mut d,
        5,
        AccountFlag::Initialized as u64 + AccountFlag::EventQueue as u64,
    );
    d
}
#[allow(clippy::too_many_arguments)]
pub fn init_market(
    own: &Pubkey,
    nonce: u64,
    coin_mint: &Pubkey,
    pc_mint: &Pubkey,
    coin_vault: &Pubkey,
    pc_vault: &Pubkey,
    req_q: &Pubkey,
    event_q: &Pubkey,
    bids: &Pubkey,
    asks: &Pubkey,
    coin_lot: u64,
    pc_lot: u64,
) -> Vec<u8> {
    let m = MarketState {
        account_flags: AccountFlag::Initialized as u64 | AccountFlag::Market as u64,
        own_address: own.to_aligned_bytes(),
        vault_signer_nonce: nonce,
        coin_mint: coin_mint.to_aligned_bytes(),
        pc_mint: pc_mint.to_aligned_bytes(),
        coin_vault: coin_vault.to_aligned_bytes(),
        coin_deposits_total: 0,
        coin_fees_accrued: 0,
        pc_vault: pc_vault.to_aligned_bytes(),
        pc_deposits_total: 0,
        pc_fees_accrued: 0,
        pc_dust_threshold: 100,
        req_q: req_q.to_aligned_bytes(),
        event_q: event_q.to_aligned_bytes(),
        bids: bids.to_aligned_bytes(),
        asks: asks.to_aligned_bytes(),
        coin_lot_size: coin_lot,
        pc_lot_size: pc_lot,
        fee_rate_bps: 0,
        referrer_rebates_accrued: 0,
    };
    let mut d = vec![0u8; MARKET_LEN];
    pad(&mut d);
    d[5..MARKET_LEN - 7].copy_from_slice(bytemuck::bytes_of(&m));
    d
}

pub fn read_book(d: &[u8]) -> Vec<BookOrder> {
    let base = 5 + 8;
    let n = rd(d, base) as usize;
    (0..n)
        .map(|i| {
            let io = base + 8 + i * 16;
            let ro = base + 8 + BOOK_CAP * 16 + i * REC;
            BookOrder {
                id: u128::from_le_bytes(d[io..io + 16].try_into().unwrap()),
                owner: Pubkey::try_from(&d[ro..ro + 32]).unwrap(),
                lots: rd(d, ro + 32),
                slot: rd(d, ro + 40),
                client_id: rd(d, ro + 48),
            }
        })
        .collect()
}
fn write_book(d: &mut [u8], orders: &[BookOrder]) -> R<()> {
    if orders.len() > BOOK_CAP {
        return err(90);
    }
    let base = 5 + 8;
    let n = d.len();
    d[base..n - 7].fill(0);
    wr(d, base, orders.len() as u64);
    for (i, o) in orders.iter().enumerate() {
        let io = base + 8 + i * 16;
        let ro = base + 8 + BOOK_CAP * 16 + i * REC;
        d[io..io + 16].copy_from_slice(&o.id.to_le_bytes());
        d[ro..ro + 32].copy_from_slice(o.owner.as_ref());
        wr(d, ro + 32, o.lots);
        wr(d, ro + 40, o.slot);
        wr(d, ro + 48, o.client_id);
    }
    Ok(())
}
pub fn read_events(d: &[u8]) -> (u64, Vec<Event>) {
    let seq = rd(d, 13);
    let n = rd(d, 21) as usize;
    (
        seq,
        (0..n)
            .map(|i| {
                let o = 29 + i * EV;
                Event {
                    kind: rd(d, o),
                    bid: rd(d, o + 8),
                    slot: rd(d, o + 16),
                    done: rd(d, o + 24),
                    owner: Pubkey::try_from(&d[o + 32..o + 64]).unwrap(),
                    paid: rd(d, o + 64),
                    received: rd(d, o + 72),
                    fee: rd(d, o + 80),
                    id_hi: rd(d, o + 88),
                }
            })
            .collect(),
    )
}
fn write_events(d: &mut [u8], seq: u64, evs: &[Event]) -> R<()> {
    if evs.len() > EVENT_CAP {
        return err(91);
    }
    wr(d, 13, seq);
    wr(d, 21, evs.len() as u64);
    for (i, e) in evs.iter().enumerate() {
        let o = 29 + i * EV;
        wr(d, o, e.kind);
        wr(d, o + 8, e.bid);
        wr(d, o + 16, e.slot);
        wr(d, o + 24, e.done);
        d[o + 32..o + 64].copy_from_slice(e.owner.as_ref());
        wr(d, o + 64, e.paid);
        wr(d, o + 72, e.received);
        wr(d, o + 80, e.fee);
        wr(d, o + 88, e.id_hi);
    }
    Ok(())
}

fn load<'a, T: bytemuck::Pod>(a: &'a AccountInfo, p: &Pubkey) -> R<RefMut<'a, T>> {
    if a.owner != p {
        return err(1);
    }
    let d = a.try_borrow_mut_data()?;
    if d.len() != std::mem::size_of::<T>() + 12 {
        return err(2);
    }
    Ok(RefMut::map(d, |d| {
        let n = d.len();
        bytemuck::from_bytes_mut(&mut d[5..n - 7])
    }))
}
fn load_market<'a>(a: &'a AccountInfo, p: &Pubkey) -> R<RefMut<'a, MarketState>> {
    let m: RefMut<MarketState> = load(a, p)?;
    if m.check_flags(false).is_err() {
        return err(3);
    }
    let own = m.own_address;
    if own != a.key.to_aligned_bytes() {
        return err(4);
    }
    Ok(m)
}
fn load_oo<'a>(
    a: &'a AccountInfo,
    p: &Pubkey,
    market: &Pubkey,
    auth: Option<&AccountInfo>,
) -> R<RefMut<'a, OpenOrders>> {
    let o: RefMut<OpenOrders> = load(a, p)?;
    if o.account_flags != AccountFlag::Initialized as u64 | AccountFlag::OpenOrders as u64 {
        return err(5);
    }
    let (m, ow) = (o.market, o.owner);
    if m != market.to_aligned_bytes() {
        return err(6);
    }
    if let Some(auth) = auth {
        if ow != auth.key.to_aligned_bytes() {
            return err(7);
        }
        if !auth.is_signer {
            return err(8);
        }
    }
    Ok(o)
}
fn key_is(a: &AccountInfo, want: [u64; 4]) -> R<()> {
    if a.key.to_aligned_bytes() != want {
        return err(9);
    }
    Ok(())
}

pub fn taker_fee(pc: u64) -> u64 {
    ((pc as u128 * 4 + 9999) / 10000) as u64
}
pub fn maker_rebate(pc: u64) -> u64 {
    // the published program multiplies with a truncated 64.64 fixed point rate
    let rate = (2u128 << 64) / 10000;
    let (hi, lo) = ((rate >> 32) * pc as u128, (rate & 0xffff_ffff) * pc as u128);
    ((hi + (lo >> 32)) >> 32) as u64
}
pub fn referrer_rebate(fee: u64) -> u64 {
    fee / 2
}
/// largest pc quantity whose value plus taker fee fits `gross`
fn remove_fee(gross: u64) -> u64 {
    let mut x = (gross as u128 * 10000 / 10004) as u64;
    while x > 0 && x + taker_fee(x) > gross {
        x -= 1;
    }
    x
}

pub fn entry(
    program_id: &Pubkey,
    a: &'static [AccountInfo<'static>],
    data: &[u8],
) -> ProgramResult {
    let ix = MarketInstruction::unpack(data).ok_or(ProgramError::InvalidInstructionData)?;
    match ix {
        MarketInstruction::InitOpenOrders => {
            let (oo, auth, market) = (&a[0], &a[1], &a[2]);
            load_market(market, program_id)?;
            if !auth.is_signer {
                return err(8);
            }
            if oo.data_len() != OO_LEN {
                return err(2);
            }
            pad(&mut oo.try_borrow_mut_data()?);
            let mut o: RefMut<OpenOrders> = load(oo, program_id)?;
            if o.account_flags != 0 {
                return err(10);
            }
            o.account_flags = AccountFlag::Initialized as u64 | AccountFlag::OpenOrders as u64;
            o.market = market.key.to_aligned_bytes();
            o.owner = auth.key.to_aligned_bytes();
            o.free_slot_bits = u128::MAX;
            Ok(())
        }
        MarketInstruction::CloseOpenOrders => {
            let (oo, auth, dest, market) = (&a[0], &a[1], &a[2], &a[3]);
            {
                let mut o = load_oo(oo, program_id, market.key, Some(auth))?;
                let (f, c, p, r) = (
                    o.free_slot_bits,
                    o.native_coin_total,
                    o.native_pc_total,
                    o.referrer_rebates_accrued,
                );
                if f != u128::MAX || c != 0 || p != 0 || r != 0 {
                    return err(11);
                }
                o.account_flags |= AccountFlag::Closed as u64;
            }
            let l = oo.lamports();
            **dest.try_borrow_mut_lamports()? += l;
            **oo.try_borrow_mut_lamports()? = 0;
            Ok(())
        }
        MarketInstruction::SettleFunds => settle(program_id, a),
        MarketInstruction::NewOrderV3(o) => new_order(program_id, a, o),
        MarketInstruction::CancelOrderV2(c) => cancel(program_id, a, |o| {
            o.0 == c.side && o.1.id == c.order_id
        }),
        MarketInstruction::CancelOrderByClientIdV2(id) => {
            cancel(program_id, a, |o| o.1.client_id == id && id != 0)
        }
        MarketInstruction::ConsumeEvents(limit) => consume(program_id, a, limit),
    }
}

fn settle(program_id: &Pubkey, a: &'static [AccountInfo<'static>]) -> ProgramResult {
    let (coin, pc, rebate, nonce) = {
        let mut m = load_market(&a[0], program_id)?;
        let mut o = load_oo(&a[1], program_id, a[0].key, Some(&a[2]))?;
        key_is(&a[3], { m.coin_vault })?;
        key_is(&a[4], { m.pc_vault })?;
        let (c, p, r) = (
            o.native_coin_free,
            o.native_pc_free,
            o.referrer_rebates_accrued,
        );
        o.native_coin_free = 0;
        o.native_pc_free = 0;
        o.native_coin_total -= c;
        o.native_pc_total -= p;
        m.coin_deposits_total -= c;
        m.pc_deposits_total -= p;
        m.referrer_rebates_accrued -= r;
        o.referrer_rebates_accrued = 0;
        (c, p, r, m.vault_signer_nonce)
    };
    let mkey = *a[0].key;
    for (from, to, amt) in [
        (&a[3], &a[5], coin),
        (&a[4], &a[6], pc),
        (&a[4], &a[9], rebate),
    ] {
        if amt == 0 {
            continue;
        }
        let ix =
            spl_token::instruction::transfer(a[8].key, from.key, to.key, a[7].key, &[], amt)?;
        let n = nonce.to_le_bytes();
        invoke_signed(
            &ix,
            &[from.clone(), to.clone(), a[7].clone(), a[8].clone()],
            &[&[mkey.as_ref(), &n]],
        )?;
    }
    Ok(())
}

fn put_slot(o: &mut OpenOrders, id: u128, bid: bool, client: u64) -> R<u64> {
    let f = o.free_slot_bits;
    if f == 0 {
        return err(12);
    }
    let s = f.trailing_zeros() as usize;
    o.free_slot_bits = f & !(1u128 << s);
    if bid {
        o.is_bid_bits |= 1u128 << s;
    } else {
        o.is_bid_bits &= !(1u128 << s);
    }
    let mut orders = o.orders;
    orders[s] = id;
    o.orders = orders;
    let mut cids = o.client_order_ids;
    cids[s] = client;
    o.client_order_ids = cids;
    Ok(s as u64)
}
fn free_slot(o: &mut OpenOrders, s: u64) {
    o.free_slot_bits |= 1u128 << s;
    o.is_bid_bits &= !(1u128 << s);
    let mut orders = o.orders;
    orders[s as usize] = 0;
    o.orders = orders;
    let mut cids = o.client_order_ids;
    cids[s as usize] = 0;
    o.client_order_ids = cids;
}

fn new_order(
    program_id: &Pubkey,
    a: &'static [AccountInfo<'static>],
    ix: NewOrderInstructionV3,
) -> ProgramResult {
    use solana_program::sysvar::Sysvar;
    let (market, oo, event_q, bids, asks, payer, auth) =
        (&a[0], &a[1], &a[3], &a[4], &a[5], &a[6], &a[7]);
    let (coin_vault, pc_vault, token_program) = (&a[8], &a[9], &a[10]);
    if solana_program::clock::Clock::get()?.unix_timestamp > ix.max_ts {
        return err(13);
    }
    let deposit;
    {
        let mut m = load_market(market, program_id)?;
        key_is(bids, { m.bids })?;
        key_is(asks, { m.asks })?;
        key_is(event_q, { m.event_q })?;
        key_is(&a[2], { m.req_q })?;
        key_is(coin_vault, { m.coin_vault })?;
        key_is(pc_vault, { m.pc_vault })?;
        let mut o = load_oo(oo, program_id, market.key, Some(auth))?;
        let (coin_lot, pc_lot) = (m.coin_lot_size, m.pc_lot_size);
        let bid = ix.side == Side::Bid;
        // lock funds
        let lock = if bid {
            ix.max_native_pc_qty_including_fees.get()
        } else {
            match ix.max_coin_qty.get().checked_mul(coin_lot) {
                Some(v) => v,
                None => return err(14),
            }
        };
        if bid {
            let f = o.native_pc_free.min(lock);
            deposit = lock - f;
            o.native_pc_free -= f;
            o.native_pc_total += deposit;
            m.pc_deposits_total += deposit;
        } else {
            let f = o.native_coin_free.min(lock);
            deposit = lock - f;
            o.native_coin_free -= f;
            o.native_coin_total += deposit;
            m.coin_deposits_total += deposit;
        }
        // match
        let mut bb = bids.try_borrow_mut_data()?;
        let mut ab = asks.try_borrow_mut_data()?;
        let mut eb = event_q.try_borrow_mut_data()?;
        let (mut seq, mut events) = read_events(&eb);
        let mut own = read_book(if bid { &bb } else { &ab });
        let mut opp = read_book(if bid { &ab } else { &bb });
        let mut limit = ix.limit as u64;
        let price = ix.limit_price.get();
        let mut lots = ix.max_coin_qty.get();
        let mut gross = lock; // bid: pc still available, ask: unused
        let mut coin_gained = 0u64;
        let mut pc_gained = 0u64;
        let mut crossed_post_only = false;
        let mut no_more = false;
        let mut sold_lots = 0u64;
        while lots > 0 && !no_more {
            let Some(best) = opp.first().copied() else { break };
            let crosses = if bid {
                best.price() <= price
            } else {
                best.price() >= price
            };
            if !crosses {
                break;
            }
            if ix.order_type == OrderType::PostOnly {
                crossed_post_only = true;
                break;
            }
            if limit == 0 {
                no_more = true;
                break;
            }
            limit -= 1;
            if best.owner == *oo.key {
                match ix.self_trade_behavior {
                    SelfTradeBehavior::AbortTransaction => return err(15),
                    b => {
                        let dec = if b == SelfTradeBehavior::CancelProvide {
                            best.lots
                        } else {
                            best.lots.min(lots)
                        };
                        if bid {
                            o.native_coin_free += dec * coin_lot;
                        } else {
                            o.native_pc_free += dec * best.price() * pc_lot;
                        }
                        if b == SelfTradeBehavior::DecrementTake {
                            lots -= dec;
                            // the taker funds for the decremented part stay locked until the end
                        }
                        if dec == best.lots {
                            opp.remove(0);
                            events.push(Event {
                                kind: 2,
                                bid: !bid as u64,
                                slot: best.slot,
                                done: 1,
                                owner: *oo.key,
                                paid: 0,
                                received: 0,
                                fee: 0,
                                id_hi: best.price(),
                            });
                        } else {
                            opp[0].lots -= dec;
                        }
                        continue;
                    }
                }
            }
            let mut q = lots.min(best.lots);
            if bid {
                let afford = remove_fee(gross) / (best.price() * pc_lot);
                if afford < q {
                    q = afford;
                    no_more = true;
                }
                if q == 0 {
                    break;
                }
            }
            let trade_pc = q * best.price() * pc_lot;
            let trade_coin = q * coin_lot;
            let fee = taker_fee(trade_pc);
            let reb = maker_rebate(trade_pc);
            lots -= q;
            if bid {
                gross -= trade_pc + fee;
                coin_gained += trade_coin;
            } else {
                pc_gained += trade_pc - fee;
                sold_lots += q;
            }
            let done = q == best.lots;
            events.push(Event {
                kind: 1,
                bid: !bid as u64,
                slot: best.slot,
                done: done as u64,
                owner: best.owner,
                paid: if bid { trade_coin } else { trade_pc - reb },
                received: if bid { trade_pc + reb } else { trade_coin },
                fee: reb,
                id_hi: best.price(),
            });
            events.push(Event {
                kind: 0,
                bid: bid as u64,
                slot: u64::MAX,
                done: 0,
                owner: *oo.key,
                paid: 0,
                received: 0,
                fee,
                id_hi: best.price(),
            });
            let rr = referrer_rebate(fee);
            m.referrer_rebates_accrued += rr;
            m.pc_fees_accrued += fee - reb - rr;
            m.pc_deposits_total = m.pc_deposits_total + reb - fee;
            if done {
                opp.remove(0);
            } else {
                opp[0].lots -= q;
            }
        }
        // book keeping for the taker
        if bid {
            let spent = lock - gross;
            o.native_pc_total -= spent;
            o.native_coin_total += coin_gained;
            o.native_coin_free += coin_gained;
        } else {
            o.native_pc_total += pc_gained;
            o.native_pc_free += pc_gained;
        }
        // post
        let mut rest_lots = lots;
        if bid {
            let afford = gross / (price * pc_lot);
            rest_lots = rest_lots.min(afford);
        }
        let post = ix.order_type != OrderType::ImmediateOrCancel
            && !crossed_post_only
            && !no_more
            && rest_lots > 0;
        let mut still_locked = 0;
        // the open orders slot is taken by every order; it is released by an event
        seq += 1;
        let id = ((price as u128) << 64) | if bid { !seq } else { seq } as u128;
        let slot = put_slot(&mut o, id, bid, ix.client_order_id)?;
        if !post {
            events.push(Event {
                kind: 2,
                bid: bid as u64,
                slot,
                done: 1,
                owner: *oo.key,
                paid: 0,
                received: 0,
                fee: 0,
                id_hi: price,
            });
        }
        if post {
            let ord = BookOrder {
                id,
                owner: *oo.key,
                lots: rest_lots,
                slot,
                client_id: ix.client_order_id,
            };
            let at = own
                .iter()
                .position(|x| if bid { x.id < id } else { x.id > id })
                .unwrap_or(own.len());
            own.insert(at, ord);
            still_locked = if bid {
                rest_lots * price * pc_lot
            } else {
                rest_lots * coin_lot
            };
        }
        if bid {
            o.native_pc_free += gross - still_locked;
        } else {
            let sold_coin = sold_lots * coin_lot;
            o.native_coin_total -= sold_coin;
            o.native_coin_free += lock - sold_coin - still_locked;
        }
        if bid {
            write_book(&mut bb, &own)?;
            write_book(&mut ab, &opp)?;
        } else {
            write_book(&mut ab, &own)?;
            write_book(&mut bb, &opp)?;
        }
        write_events(&mut eb, seq, &events)?;
    }
    if deposit > 0 {
        let vault = if ix.side == Side::Bid {
            pc_vault
        } else {
            coin_vault
        };
        let t = spl_token::instruction::transfer(
            token_program.key,
            payer.key,
            vault.key,
            auth.key,
            &[],
            deposit,
        )?;
        invoke(
            &t,
            &[
                payer.clone(),
                vault.clone(),
                auth.clone(),
                token_program.clone(),
            ],
        )?;
    }
    Ok(())
}

fn cancel(
    program_id: &Pubkey,
    a: &'static [AccountInfo<'static>],
    want: impl Fn(&(Side, BookOrder)) -> bool,
) -> ProgramResult {
    let (market, bids, asks, oo, auth, event_q) = (&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]);
    let m = load_market(market, program_id)?;
    key_is(bids, { m.bids })?;
    key_is(asks, { m.asks })?;
    key_is(event_q, { m.event_q })?;
    let mut o = load_oo(oo, program_id, market.key, Some(auth))?;
    for (side, acc) in [(Side::Bid, bids), (Side::Ask, asks)] {
        let mut d = acc.try_borrow_mut_data()?;
        let mut book = read_book(&d);
        if let Some(i) = book
            .iter()
            .position(|x| want(&(side, *x)) && x.owner == *oo.key)
        {
            let ord = book.remove(i);
            write_book(&mut d, &book)?;
            if side == Side::Bid {
                o.native_pc_free += ord.lots * ord.price() * m.pc_lot_size;
            } else {
                o.native_coin_free += ord.lots * m.coin_lot_size;
            }
            let mut eb = event_q.try_borrow_mut_data()?;
            let (seq, mut events) = read_events(&eb);
            events.push(Event {
                kind: 2,
                bid: (side == Side::Bid) as u64,
                slot: ord.slot,
                done: 1,
                owner: *oo.key,
                paid: 0,
                received: 0,
                fee: 0,
                id_hi: ord.price(),
            });
            write_events(&mut eb, seq, &events)?;
            return Ok(());
        }
    }
    err(16)
}

/// accounts: market, event_q, then open orders accounts
fn consume(
    program_id: &Pubkey,
    a: &'static [AccountInfo<'static>],
    limit: u16,
) -> ProgramResult {
    let m = load_market(&a[0], program_id)?;
    key_is(&a[1], { m.event_q })?;
    let mut eb = a[1].try_borrow_mut_data()?;
    let (seq, mut events) = read_events(&eb);
    let mut n = 0;
    while n < limit && !events.is_empty() {
        let e = events[0];
        let Some(acc) = a[2..].iter().find(|x| *x.key == e.owner) else {
            break;
        };
        let mut o = load_oo(acc, program_id, a[0].key, None)?;
        match (e.kind, e.bid) {
            (0, _) => o.referrer_rebates_accrued += referrer_rebate(e.fee),
            (1, 1) => {
                o.native_pc_total -= e.paid;
                o.native_coin_total += e.received;
                o.native_coin_free += e.received;
                o.native_pc_free += e.fee;
            }
            (1, _) => {
                o.native_coin_total -= e.paid;
                o.native_pc_total += e.received;
                o.native_pc_free += e.received;
            }
            _ => {}
        }
        if e.done == 1 {
            free_slot(&mut o, e.slot);
        }
        events.remove(0);
        n += 1;
    }
    write_events(&mut eb, seq, &events)
}
