//! C16: oracle prices: decoding, freshness, confidence, fallbacks; the stable price model.
use crate::ensure;
use crate::machine::{Machine, K};
use crate::pbt::*;
use crate::props::gates::is_err;
use crate::pt::*;
use crate::sim::Acc;
use crate::world::*;
use bytemuck::Zeroable;
use fixed::types::I80F48;
use mango_v4::accounts_zerocopy::*;
use mango_v4::error::MangoError;
use mango_v4::state::*;
use solana_program::pubkey::Pubkey;
use K::*;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "`decode`: random accounts of all eight oracle kinds, decoded price/deviation/slot/time against a reference. `usable`: random primary and fallback readings, staleness and confidence settings and account lists, through the bank, the perp market and both health account retrievers. `stable`: random price paths and update schedules of the stable price model against an independent model. `actions`: an instruction that succeeded is repeated with one involved oracle unusable, and again with a good fallback. `withdraw`: withdrawals with missing banks and unusable oracles. Non-trivial: a reading was decoded or refused, the model moved, or an instruction was repeated",
        assumptions: &["account layouts of the external oracles as published (shims/)"],
        suites: vec![
            Suite { name: "decode", quick: 60_000, thorough: 3_000_000, f: decode },
            Suite { name: "usable", quick: 30_000, thorough: 1_500_000, f: usable },
            Suite { name: "stable", quick: 20_000, thorough: 1_000_000, f: stable },
            Suite { name: "actions", quick: 4_000, thorough: 200_000, f: actions },
            Suite { name: "withdraw", quick: 20_000, thorough: 1_000_000, f: withdraw },
        ],
    }
}

#[derive(Debug, Clone)]
struct Reading {
    price: f64, // native
    dev: f64,
    slot: u64,
    time: Option<u64>,
    rel: f64, // relative error to accept
}
/// None: the account must be refused
type Expect = Option<Reading>;

fn acc(data: Vec<u8>, owner: Pubkey) -> Acc {
    Acc { lamports: 1_000_000, data, owner, executable: false }
}
fn stub(price: f64, dev: f64, slot: u64, group: Pubkey) -> Acc {
    let mut o = StubOracle::zeroed();
    o.group = group;
    o.price = num(price);
    o.deviation = num(dev);
    o.last_update_slot = slot;
    let mut d = <StubOracle as anchor_lang::Discriminator>::DISCRIMINATOR.to_vec();
    d.extend(bytemuck::bytes_of(&o));
    acc(d, mango_v4::id())
}
fn pyth(price: i64, conf: u64, expo: i32, slot: u64, trading: bool, other: (i64, u64, u64), time: i64) -> Acc {
    use pyth_sdk_solana::state::*;
    let mut p = PriceAccount::zeroed();
    p.magic = MAGIC;
    p.ver = VERSION_2;
    p.atype = AccountType::Price as u32;
    p.expo = expo;
    p.agg.status = if trading { PriceStatus::Trading } else { PriceStatus::Halted };
    let (a, b) = if trading { ((price, conf, slot), other) } else { (other, (price, conf, slot)) };
    p.agg.price = a.0;
    p.agg.conf = a.1;
    p.agg.pub_slot = a.2;
    p.prev_price = b.0;
    p.prev_conf = b.1;
    p.prev_slot = b.2;
    p.timestamp = time;
    p.prev_timestamp = time;
    acc(bytemuck::bytes_of(&p).to_vec(), Pubkey::new_unique())
}
fn pyth2(price: i64, conf: u64, expo: i32, slot: u64, time: i64, full: bool) -> Acc {
    use anchor_lang::AnchorSerialize;
    use pyth_solana_receiver_sdk::price_update::*;
    let v = PriceUpdateV2 {
        write_authority: Pubkey::default(),
        verification_level: if full { VerificationLevel::Full } else { VerificationLevel::Partial { num_signatures: 5 } },
        price_message: PriceFeedMessage { feed_id: [1; 32], price, conf, exponent: expo, publish_time: time, prev_publish_time: time - 1, ema_price: 7, ema_conf: 3 },
        posted_slot: slot,
    };
    let mut d = vec![34, 241, 35, 99, 157, 126, 244, 205];
    v.serialize(&mut d).unwrap();
    acc(d, pyth_solana_receiver_sdk::ID)
}
/// relative error of the fixed point power of ten
fn pow_err(d: i32) -> f64 {
    if d >= 0 { 1e-12 } else { 10f64.powi(-d) / 2f64.powi(48) + 1e-12 }
}
fn p10(d: i32) -> f64 { 10f64.powi(d) }

const USDC: Pubkey = usdc_mint_mainnet::ID;
const SOL: Pubkey = sol_mint_mainnet::ID;

/// random oracle account of a kind together with what it says for a token of `dec` decimals
fn gen(src: &mut Src, kind: u64, dec: u8, now: (u64, u64), quotes: &Option<[(Expect, Acc); 2]>) -> (Acc, Expect, Option<usize>) {
    let slot = now.1.saturating_sub(src.log(1000));
    let time = (now.0 as i64) - src.log(1000) as i64 + src.range(0, 1) * 7;
    let d = 6 - dec as i32;
    match kind {
        0 => {
            let (p, dv, sl) = (src.flog(1e-9, 1e6), src.pick(&[0.0, 0.001, 0.5]), if src.chance(20) { 0 } else { slot });
            let e = Reading { price: p, dev: if dv == 0.0 { -1e30 } else { dv * p }, slot: if sl == 0 { u64::MAX } else { sl }, time: None, rel: 1e-12 };
            (stub(p, dv * p, sl, Pubkey::default()), Some(e), None)
        }
        1 | 2 => {
            let expo = src.range(-10, 0) as i32;
            let expo = expo.max(-12 - d).min(12 - d);
            let mut p = src.log_range(1, 1 << 50) as i64;
            if src.chance(10) { p = -p; }
            let c = src.log(1 << 46);
            let k = expo + d;
            let full = kind == 1 || src.chance(85);
            let e = if p < 0 || !full { None } else {
                Some(Reading { price: p as f64 * p10(k), dev: c as f64 * p10(k), slot, time: if kind == 2 { Some(time as u64) } else { None }, rel: pow_err(k) })
            };
            let a = if kind == 1 {
                let other = (src.log(1 << 50) as i64, src.log(1 << 40), now.1.saturating_sub(src.log(1000)));
                pyth(p, c, expo, slot, src.chance(70), other, time)
            } else {
                pyth2(p, c, expo, slot, time, full)
            };
            (a, e, None)
        }
        3 => {
            use switchboard_solana::*;
            let mut b = vec![0u8; 8 + std::mem::size_of::<AggregatorAccountData>()];
            b[..8].copy_from_slice(&[217, 230, 65, 101, 201, 162, 27, 125]);
            let scale = src.below(12) as u32;
            let m = src.log_range(1, 1 << 50) as i128 * if src.chance(10) { -1 } else { 1 };
            let sd = src.log(1 << 40) as i128;
            let (succ, min) = (src.below(5) as u32, src.below(4) as u32);
            {
                let a: &mut AggregatorAccountData = bytemuck::from_bytes_mut(&mut b[8..]);
                a.min_oracle_results = min;
                a.latest_confirmed_round.num_success = succ;
                a.latest_confirmed_round.result = SwitchboardDecimal { mantissa: m, scale };
                a.latest_confirmed_round.std_deviation = SwitchboardDecimal { mantissa: sd, scale };
                a.latest_confirmed_round.round_open_slot = slot;
                a.current_round.result = SwitchboardDecimal { mantissa: m * 2 + 5, scale };
                a.current_round.round_open_slot = slot + 3;
                a.previous_confirmed_round_result = SwitchboardDecimal { mantissa: m + 77, scale };
            }
            let s = p10(-(scale as i32));
            let e = if m < 0 || succ < min { None } else {
                Some(Reading { price: m as f64 * s * p10(d), dev: sd as f64 * s * p10(d), slot, time: None, rel: pow_err(d) + 1e-12 })
            };
            (acc(b, Pubkey::new_unique()), e, None)
        }
        4 => {
            let mut b = vec![9u8; 100];
            let p = src.flog(1e-6, 1e6) * if src.chance(10) { -1.0 } else { 1.0 };
            let (lo, hi) = (p * 0.99, p * 1.02);
            b[48..56].copy_from_slice(&p.to_le_bytes());
            b[56..64].copy_from_slice(&slot.to_le_bytes());
            b[72..80].copy_from_slice(&lo.to_le_bytes());
            b[80..88].copy_from_slice(&hi.to_le_bytes());
            let owner = src.pick(&[switchboard_v1_devnet_oracle::ID, switchboard_v2_mainnet_oracle::ID]);
            let e = if p < 0.0 { None } else { Some(Reading { price: p * p10(d), dev: (hi - lo) * p10(d), slot, time: None, rel: pow_err(d) + 1e-11 }) };
            (acc(b, owner), e, None)
        }
        5 => {
            use switchboard_on_demand::*;
            let mut b = vec![3u8; 8 + std::mem::size_of::<PullFeedAccountData>()];
            let v = src.flog(1e-6, 1e6) * if src.chance(10) { -1.0 } else { 1.0 };
            let sd = v.abs() * src.pick(&[0.0, 0.01, 1.0]);
            let empty = src.chance(10);
            {
                let a: &mut PullFeedAccountData = bytemuck::from_bytes_mut(&mut b[8..]);
                a.result = CurrentResult::zeroed();
                a.result.value = (v * 1e18) as i128;
                a.result.std_dev = (sd * 1e18) as i128;
                a.result.mean = 5;
                a.result.slot = if empty { 0 } else { slot + 9 };
                a.result.min_slot = slot;
                a.result.max_slot = slot + 4;
            }
            let e = if v < 0.0 || empty { None } else { Some(Reading { price: v * p10(d), dev: sd * p10(d), slot, time: None, rel: pow_err(d) + 1e-11 }) };
            (acc(b, src.pick(&[switchboard_on_demand_devnet_oracle::ID, switchboard_on_demand_mainnet_oracle::ID])), e, None)
        }
        _ => {
            let raydium = kind == 7;
            let (len, pa, pb, pp, owner, disc) = if raydium {
                (RAYDIUM_POOL_LEN, 73, 105, 253, raydium_mainnet::ID, RAYDIUM_POOL_DISCRIMINATOR)
            } else {
                (ORCA_WHIRLPOOL_LEN, 101, 181, 65, orca_mainnet_whirlpool::ID, ORCA_WHIRLPOOL_DISCRIMINATOR)
            };
            let len_ = if src.chance(5) { len + 8 } else { len };
            let mut b = vec![0u8; len_];
            b[..8].copy_from_slice(&disc);
            if src.chance(5) { b[3] ^= 1; }
            let bad = b.len() != len || b[..8] != disc[..];
            let x = Pubkey::new_from_array([77; 32]);
            let (ma, mb) = src.pick(&[(x, USDC), (USDC, x), (x, SOL), (SOL, x), (SOL, USDC), (USDC, SOL), (x, x)]);
            b[pa..pa + 32].copy_from_slice(ma.as_ref());
            b[pb..pb + 32].copy_from_slice(mb.as_ref());
            // B per A in native units
            let raw = src.flog(1e-4, 1e4);
            let sqrt = (raw.sqrt() * 2f64.powi(64)) as u128;
            b[pp..pp + 16].copy_from_slice(&sqrt.to_le_bytes());
            // the quote: USDC before SOL
            let q = if ma == USDC { Some((0, true)) } else if mb == USDC { Some((0, false)) } else if ma == SOL { Some((1, true)) } else if mb == SOL { Some((1, false)) } else { None };
            let e = match (q, quotes) {
                _ if bad => None,
                (Some((i, inv)), Some(qs)) => qs[i].0.as_ref().map(|r| {
                    let c = if inv { 1.0 / raw } else { raw };
                    Reading { price: c * r.price, dev: c * r.dev, slot: r.slot, time: None, rel: r.rel + 1e-9 + 1e-14 / c }
                }),
                _ => None,
            };
            (acc(b, owner), e, if bad { None } else { q.map(|x| x.0) })
        }
    }
}

fn put(w: &World, a: Acc) -> Pubkey {
    let k = Pubkey::new_unique();
    w.s.sim.borrow_mut().set(k, a);
    k
}
fn quote_feeds(src: &mut Src, now: (u64, u64)) -> [(Expect, Acc); 2] {
    [gen(src, 1, 6, now, &None), gen(src, 1, 9, now, &None)].map(|x| (x.1, x.0))
}

fn decode(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let kind = src.below(8);
    let now = (1_700_000_000u64, 300_000u64);
    let dec = src.urange(0, 12) as u8;
    let quotes = if kind >= 6 { Some(quote_feeds(src, now)) } else { None };
    let (a, e, q) = gen(src, kind, dec, now, &quotes);
    let mut keys: Vec<(Pubkey, Acc)> = vec![(Pubkey::new_unique(), a)];
    if let Some(qs) = &quotes {
        keys.push((pyth_mainnet_usdc_oracle::ID, qs[0].1.clone()));
        keys.push((pyth_mainnet_sol_oracle::ID, qs[1].1.clone()));
    }
    let hide = quotes.is_some() && src.chance(15);
    let e = if hide { None } else { e };
    let mut store: Vec<_> = keys.iter().map(|(k, a)| (*k, a.lamports, a.data.clone(), a.owner)).collect();
    let ais: Vec<_> = store.iter_mut().map(|(k, l, d, o)| solana_program::account_info::AccountInfo::new(k, false, true, l, d, o, false, 0)).collect();
    let refs: Vec<AccountInfoRef> = ais.iter().map(|a| AccountInfoRef::borrow(a).unwrap()).collect();
    let as_fallback = src.bool();
    let dummy = &refs[0];
    let infos = OracleAccountInfos { oracle: dummy, fallback_opt: if as_fallback { Some(&refs[0]) } else { None }, usdc_opt: if hide { None } else { refs.get(1) }, sol_opt: if hide { None } else { refs.get(2) } };
    let r = crate::sim::catch(|| if as_fallback { fallback_oracle_state_unchecked(&infos, dec) } else { oracle_state_unchecked(&infos, dec) });
    let r = match r { Ok(Ok(x)) => Some(x), _ => None };
    case.note(|| format!("kind {kind} decimals {dec}: expected {e:?}, read {:?}", r.as_ref().map(|r| (r.price, r.deviation, r.last_update_slot, r.last_update_time))));
    case.nontrivial();
    match (&e, &r) {
        (None, None) => case.label("refused"),
        (None, Some(_)) => return Err(format!("oracle kind {kind} was read although it must be refused")),
        (Some(e), None) => return Err(format!("oracle kind {kind} was refused: {e:?}")),
        (Some(e), Some(r)) => {
            let tol = |x: f64| x.abs() * e.rel + 1e-14 * (1.0 + p10(6 - dec as i32));
            ensure!((f(r.price) - e.price).abs() <= tol(e.price), "price {} instead of {}", r.price, e.price);
            if e.dev < -1e20 { ensure!(r.deviation == I80F48::MIN, "deviation {}", r.deviation) } else {
                ensure!((f(r.deviation) - e.dev).abs() <= tol(e.dev), "deviation {} instead of {}", r.deviation, e.dev);
            }
            ensure!(r.last_update_slot == e.slot, "slot {} instead of {}", r.last_update_slot, e.slot);
            ensure!(r.last_update_time == e.time, "time {:?} instead of {:?}", r.last_update_time, e.time);
            case.label(["stub", "pyth", "pyth pull", "switchboard v2", "switchboard v1", "switchboard pull", "orca", "raydium"][kind as usize]);
        }
    }
    // key for choosing the quote feed off chain
    if let Some(i) = q {
        let pool = if kind == 7 { load_raydium_pool_state(&refs[0]) } else { load_orca_pool_state(&refs[0]) };
        let k = pool.and_then(|p| p.get_quote_oracle()).map_err(|e| format!("{e:?}"))?;
        ensure!(k == keys[1 + i].0, "quote feed key");
    }
    if kind >= 6 {
        let v = check_is_valid_fallback_oracle(&refs[0]).is_ok();
        ensure!(v == q.is_some(), "pool judged as a fallback oracle: {v}, expected {}", q.is_some());
    }
    Ok(())
}

/// usable: Ok(()), stale/unconfident: Err(true), unreadable: Err(false)
fn judge(e: &Expect, conf: f64, max_slots: i64, now: (u64, u64)) -> Result<f64, bool> {
    let r = match e { Some(r) => r, None => return Err(false) };
    if max_slots >= 0 {
        if (r.slot as u128) + (max_slots as u128) < now.1 as u128 { return Err(true) }
        if let Some(t) = r.time {
            if (now.0 as i128 - t as i128) * 1000 > max_slots as i128 * 450 { return Err(true) }
        }
    }
    if r.dev > f(num(conf)) * r.price { return Err(true) }
    Ok(r.price)
}

fn usable(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    let c = w.s.clock();
    {
        let mut sim = w.s.sim.borrow_mut();
        sim.clock.slot += 5000;
    }
    let now = (c.unix_timestamp as u64, c.slot + 5000);
    let a = 1;
    let t = 1 + src.idx(4);
    let u = if t == 1 { 2 } else { 1 };
    w.grant(a, 0, 0, 1000.0);
    w.grant(a, t, 0, 12345.0);
    w.grant(a, u, 0, 777.0);
    let dec = w.bank(w.bank_key(t, 0)).mint_decimals;
    let quotes = Some(quote_feeds(src, now));
    {
        let qs = quotes.as_ref().unwrap();
        w.s.sim.borrow_mut().set(pyth_mainnet_usdc_oracle::ID, qs[0].1.clone());
        w.s.sim.borrow_mut().set(pyth_mainnet_sol_oracle::ID, qs[1].1.clone());
    }
    let conf = src.pick(&[0.0, 0.01, 0.1, 1.0, 100.0]);
    let slots = src.pick(&[-1i64, 0, 10, 300, 2000]);
    let mk = |src: &mut Src| {
        // mostly good feeds
        let k = src.below(8);
        let (mut acc_, mut e, q) = gen(src, k, dec, now, &quotes);
        if src.chance(20) && (k == 0 || k == 2) {
            // readings exactly at the limits
            let sl = now.1 - (slots.max(0) as u64).min(now.1) - src.below(3) + 1;
            let p = 1 << src.below(20);
            let tt = now.0 as i64 - (slots.max(0) * 450 / 1000) + src.range(-1, 1);
            if k == 0 {
                let dv = p as f64 * f(num(conf));
                let dv = if src.bool() { dv } else { dv + 2f64.powi(-40) };
                acc_ = stub(p as f64, dv, sl, w.group);
                e = Some(Reading { price: p as f64, dev: if dv == 0.0 { -1e30 } else { dv }, slot: sl, time: None, rel: 1e-12 });
            } else {
                acc_ = pyth2(p << 20, 0, -2, sl, tt, true);
                let kk = 6 - dec as i32 - 2;
                e = Some(Reading { price: (p << 20) as f64 * p10(kk), dev: 0.0, slot: sl, time: Some(tt as u64), rel: pow_err(kk) });
            }
        }
        (put(&w, acc_), e, q)
    };
    let (pk, pe, pq) = mk(src);
    let (fk, fe, fq) = mk(src);
    let fallback_set = src.chance(80);
    w.edit_token(t, |b| {
        b.oracle = pk;
        b.fallback_oracle = if fallback_set { fk } else { Pubkey::default() };
        b.oracle_config.conf_filter = num(conf);
        b.oracle_config.max_staleness_slots = slots;
    });
    let bank = w.bank(w.bank_key(t, 0));
    let near = |e: &Expect| e.as_ref().map_or(false, |r| r.dev > 0.0 && (r.dev - conf * r.price).abs() < 1e-9 * r.price + 1e-13 && r.rel > 1e-12);
    if near(&pe) || near(&fe) { return Ok(()) }
    let jp = judge(&pe, conf, slots, now);
    let jf = judge(&fe, conf, slots, now);
    // (a bank) directly: the caller passes at most the configured fallback
    let (given, given_ok) = match src.below(4) { 0 => (None, false), 1 => (Some(w.tokens[0].oracle), false), _ => (Some(fk), fallback_set) };
    let want_with = |fb: bool, wrong: bool| -> Option<f64> {
        match jp {
            Ok(p) => Some(p),
            Err(true) if wrong => None,
            Err(true) if fb => jf.ok(),
            _ => None,
        }
    };
    let usdc = pyth_mainnet_usdc_oracle::ID;
    let sol = pyth_mainnet_sol_oracle::ID;
    let rel = pe.as_ref().map_or(1e-9, |r| r.rel).max(fe.as_ref().map_or(1e-9, |r| r.rel)) + 1e-9;
    let cmp = |what: &str, got: Option<I80F48>, want: Option<f64>| -> Result<(), String> {
        match (got, want) {
            (None, None) => Ok(()),
            (Some(g), Some(x)) if (f(g) - x).abs() <= x.abs() * rel + 1e-12 => Ok(()),
            _ => Err(format!("{what}: price {got:?}, expected {want:?} (primary {jp:?} from {pe:?}, fallback {jf:?} from {fe:?}, conf {conf}, max age {slots}, now {now:?})")),
        }
    };
    {
        let wrong_primary = src.chance(10);
        let keys = vec![if wrong_primary { w.tokens[u].oracle } else { pk }, given.unwrap_or(fk), usdc, sol];
        let got = w.with_ais(&keys, |ais| {
            let r: Vec<AccountInfoRef> = ais.iter().map(|a| AccountInfoRef::borrow(a).unwrap()).collect();
            let infos = OracleAccountInfos { oracle: &r[0], fallback_opt: given.map(|_| &r[1]), usdc_opt: Some(&r[2]), sol_opt: Some(&r[3]) };
            crate::sim::catch(|| bank.oracle_price(&infos, Some(now)))
        });
        let got = got.ok().and_then(|x| x.ok());
        let want = if wrong_primary { None } else { want_with(given_ok, given.is_some() && !given_ok) };
        cmp("bank", got, want)?;
    }
    // retrievers: fallbacks among other accounts, in any order
    let acc_ = w.acc(a);
    let mut keys = w.health_keys(&acc_, &|_| 0);
    for k in keys.iter_mut() { if *k == w.tokens[t].oracle { *k = pk; } }
    let mut tail = vec![];
    let pass_fb = src.chance(70);
    if pass_fb { tail.push(fk); }
    if src.chance(70) { tail.push(w.tokens[4].oracle); }
    let pass_q = src.chance(85);
    if pass_q { tail.push(usdc); tail.push(sol); }
    if src.bool() { tail.reverse(); }
    keys.extend(tail);
    let needs_q = |q: Option<usize>, e: &Expect| q.is_some() && !pass_q && e.is_some();
    let want = if needs_q(pq, &pe) { None } else {
        match jp {
            Ok(p) => Some(p),
            Err(true) if fallback_set && pass_fb && !needs_q(fq, &fe) => jf.ok(),
            _ => None,
        }
    };
    let i = acc_.active_token_positions().position(|p| p.token_index as usize == t).unwrap();
    let (scan, fixed, cache_ok) = w.with_ais(&keys, |ais| {
        let scan = crate::sim::catch(|| {
            mango_v4::health::ScanningAccountRetriever::new_with_staleness(ais, &w.group, Some(now)).and_then(|r| r.scanned_bank_and_oracle(t as u16).map(|x| x.1))
        }).ok().and_then(|x| x.ok());
        use mango_v4::health::AccountRetriever;
        let fixed = crate::sim::catch(|| {
            mango_v4::health::new_fixed_order_account_retriever(ais, &acc_.borrow(), now).and_then(|r| r.bank_and_oracle(&w.group, i, t as u16).map(|x| x.1))
        }).ok().and_then(|x| x.ok());
        let cache_ok = crate::sim::catch(|| {
            mango_v4::health::new_fixed_order_account_retriever(ais, &acc_.borrow(), now).and_then(|r| mango_v4::health::new_health_cache(&acc_.borrow(), &r, now.0)).is_ok()
        }).unwrap_or(false);
        (scan, fixed, cache_ok)
    });
    cmp("scanning retriever", scan, want)?;
    cmp("fixed order retriever", fixed, want)?;
    ensure!(cache_ok == want.is_some(), "health cache built: {cache_ok}, price {want:?}");
    // perp markets know no fallback
    {
        let mut m = w.perp(0);
        m.oracle = pk;
        m.base_decimals = dec;
        m.oracle_config = bank.oracle_config;
        let keys = vec![pk, fk, usdc, sol];
        let fb = src.bool();
        let got = w.with_ais(&keys, |ais| {
            let r: Vec<AccountInfoRef> = ais.iter().map(|a| AccountInfoRef::borrow(a).unwrap()).collect();
            let infos = OracleAccountInfos { oracle: &r[0], fallback_opt: if fb { Some(&r[1]) } else { None }, usdc_opt: Some(&r[2]), sol_opt: Some(&r[3]) };
            crate::sim::catch(|| m.oracle_price(&infos, Some(now)))
        }).ok().and_then(|x| x.ok());
        cmp("perp market", got, jp.ok())?;
    }
    case.note(|| format!("primary {pe:?} -> {jp:?}; fallback {fe:?} (set {fallback_set}, passed {pass_fb}) -> {jf:?}; conf {conf} max age {slots}: {want:?}"));
    case.nontrivial();
    case.label(match (jp, want) { (Ok(_), _) => "primary", (Err(true), Some(_)) => "fallback used", (Err(true), None) => "no price", _ => "unreadable" });
    Ok(())
}

/// independent model of the stable price
struct Model {
    stable: f64,
    delay: Vec<f64>,
    last: u64,
    sum: f64,
    time: f64,
    idx: usize,
}

fn stable(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let t0 = 1_700_000_000 + src.below(200_000);
    let mut m = StablePriceModel::default();
    m.delay_interval_seconds = src.pick(&[3600u32, 600, 60, 7200]);
    m.delay_growth_limit = src.pick(&[0.06f32, 0.0, 0.5, 1.0]);
    m.stable_growth_limit = src.pick(&[0.0003f32, 0.0, 0.01, 0.0001]);
    let p0 = src.flog(1e-4, 1e4);
    m.reset_to_price(p0, t0);
    ensure!(m.stable_price == p0 && m.delay_prices == [p0; 24], "reset");
    let l = m.delay_interval_seconds as u64;
    // as in production, the interval index starts at zero
    let mut r = Model { stable: p0, delay: vec![p0; 24], last: t0, sum: 0.0, time: 0.0, idx: 0 };
    let mode = src.below(4);
    let mut now = t0;
    let mut price = p0;
    let (mut lo, mut hi) = (p0, p0);
    let n = 5 + src.below(120);
    let dts: &[u64] = match src.below(4) { 0 => &[1, 5, 9, 10, 11], 1 => &[60], 2 => &[600, 601, 1200], _ => &[3, 10, 45, 600, 3600, 10_000, 90_000, 300_000] };
    for _ in 0..n {
        now += src.pick(dts);
        match mode { 0 => {}, 1 => price *= src.f(0.98, 1.02), 2 => if src.chance(10) { price *= src.pick(&[0.1, 10.0, 0.5, 2.0]) }, _ => price = p0 * src.pick(&[1.0, 3.0, 0.3]) }
        price = price.clamp(1e-9, 1e9);
        let before = m;
        m.update(now, price);
        let dt = now - r.last;
        if dt < 10 {
            ensure!(bytemuck::bytes_of(&m) == bytemuck::bytes_of(&before), "an update {dt} s after the last one changed something");
            continue;
        }
        lo = lo.min(price);
        hi = hi.max(price);
        let step = dt.min(600) as f64;
        r.last = now;
        r.sum += price * step;
        r.time += step;
        let idx = ((now / l) % 24) as usize;
        if idx != r.idx {
            let prev = r.delay[(r.idx + 23) % 24];
            let g = m.delay_growth_limit as f64;
            let avg = r.sum / r.time;
            let new = avg.max(prev * (1.0 - g)).min(prev * (1.0 + g));
            if dt > 24 * l {
                r.delay = vec![new; 24];
            } else {
                let mut i = r.idx;
                while i != idx { r.delay[i] = new; i = (i + 1) % 24; }
            }
            r.sum = 0.0;
            r.time = 0.0;
            r.idx = idx;
            case.label("interval");
        }
        let d = r.delay[idx];
        let frac = (r.stable / d).min(d / r.stable);
        let g = m.stable_growth_limit as f64 * frac * frac * step;
        let old = r.stable;
        r.stable = price.max(old * (1.0 - g)).min(old * (1.0 + g));
        if r.stable != old { case.nontrivial(); }
        if r.stable != price { case.label("limited"); }
        ensure!(close(m.stable_price, r.stable, 1e-12, 0.0), "stable price {} instead of {} after {dt} s at {price}", m.stable_price, r.stable);
        for i in 0..24 { ensure!(close(m.delay_prices[i], r.delay[i], 1e-9, 0.0), "delay price {i} is {} instead of {} (price {price}, dt {dt}, interval {l})", m.delay_prices[i], r.delay[i]); }
        // plain consequences
        ensure!(m.stable_price <= hi * (1.0 + 1e-12) && m.stable_price >= lo * (1.0 - 1e-12), "stable price {} outside of all prices seen {lo}..{hi}", m.stable_price);
        for x in m.delay_prices { ensure!(x <= hi * (1.0 + 1e-9) && x >= lo * (1.0 - 1e-9), "delay price {x} outside of all prices seen {lo}..{hi}"); }
        ensure!((m.stable_price - old).abs() <= old * (m.stable_growth_limit as f64) * step * (1.0 + 1e-9), "stable price moved from {old} to {} in {dt} s", m.stable_price);
        r.stable = m.stable_price;
    }
    case.note(|| format!("{n} updates from {p0}, mode {mode}: stable {} price {price}", m.stable_price));
    if mode == 0 { case.nontrivial(); }
    Ok(())
}

const STRICT: [K; 12] = [SettlePnl, LiqToken, LiqTokenBankruptcy, PerpLiqCancel, PerpLiqBase, PerpLiqNeg, ForceCloseBorrow, TcsTrigger, SerumLiqCancel, CollateralFee, Region, UpdateIndex];
const RESIL: [K; 6] = [Withdraw, Deposit, PerpOrder, PerpPegged, FlashLoan, SerumPlace];

fn spoil(src: &mut Src, w: &World, oracle: Pubkey) -> &'static str {
    let mut o: StubOracle = w.s.get_account(oracle);
    match src.below(2) {
        0 => {
            o.deviation = o.price * num(0.5);
            w.s.set_account(oracle, &o);
            "unconfident"
        }
        _ => {
            // staleness limits are set by the suite
            o.last_update_slot = 1;
            w.s.set_account(oracle, &o);
            "stale"
        }
    }
}

fn actions(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut weights: Vec<(K, u64)> = STRICT.iter().map(|k| (*k, 4)).collect();
    weights.extend(RESIL.iter().map(|k| (*k, 6)));
    weights.extend([(Price, 5), (Time, 4), (TcsCreate, 5), (SerumOpen, 2), (Consume, 4)]);
    let m = Machine::setup(src, &weights);
    let w = &m.w;
    w.s.sim.borrow_mut().clock.slot += 10_000;
    for t in 0..5 {
        w.edit_token(t, |b| { b.oracle_config.max_staleness_slots = 5_000; b.oracle_config.conf_filter = num(0.1); });
        w.set_oracle(w.tokens[t].oracle, w.price(t));
    }
    for p in 0..2 {
        w.edit_perp(p, |b| { b.oracle_config.max_staleness_slots = 5_000; b.oracle_config.conf_filter = num(0.1); });
        w.set_oracle(w.perps[p].oracle, w.perp_price(p));
    }
    for _ in 0..4 + src.below(16) {
        let before = w.fork();
        let b = w.snap();
        let st = m.step(src, &b);
        case.note(|| format!("{} -> {}", st.what, if st.ok { "ok".into() } else { w.fail_text() }));
        let strict = STRICT.contains(&st.k);
        if !st.ok || !(strict || RESIL.contains(&st.k)) { continue }
        let (ixs, signers) = w.last_tx();
        // (some steps prepare the world first)
        if !before.fork().replay(&ixs, &signers) { continue }
        let last = ixs.last().unwrap().clone();
        let mentions = |k: Pubkey| ixs.iter().any(|i| i.accounts.iter().any(|m| m.pubkey == k));
        let who: Vec<usize> = (1..5).filter(|a| mentions(w.accs[*a].key)).collect();
        if st.k == UpdateIndex {
            let t = match (0..5).find(|t| mentions(w.tokens[*t].oracle)) { Some(t) => t, None => continue };
            let alt = before.fork();
            let how = spoil(src, &alt, w.tokens[t].oracle);
            let resilient = last.data[..8] == anchor_lang::solana_program::hash::hash(b"global:token_update_index_and_rate_resilient").to_bytes()[..8];
            let ok = alt.replay(&ixs, &signers);
            ensure!(ok == resilient, "index update with {how} oracle: {ok}");
            case.label("UpdateIndex");
            continue;
        }
        // it may have been decided early that nothing is to be done
        if strict && st.k != UpdateIndex && st.k != Region && (1..5).all(|a| w.acc(a).dynamic == b.accs[a].dynamic) { continue }
        let who: Vec<usize> = who.into_iter().filter(|x| !strict || st.k == Region || w.acc(*x).dynamic != b.accs[*x].dynamic).collect();
        if who.is_empty() { continue }
        let x = src.pick(&who);
        let acc_ = &b.accs[x];
        let toks: Vec<usize> = acc_.active_token_positions().map(|p| p.token_index as usize).collect();
        let perps: Vec<usize> = acc_.active_perp_positions().map(|p| p.market_index as usize).collect();
        let n = toks.len() + perps.len();
        if n == 0 { continue }
        let i = src.idx(n);
        let alt = before.fork();
        if i >= toks.len() {
            let p = perps[i - toks.len()];
            let how = spoil(src, &alt, w.perps[p].oracle);
            if !mentions(w.perps[p].oracle) { continue }
            let ok = alt.replay(&ixs, &signers);
            let err = alt.fail_text();
            // deposits and orders may skip tokens, but perp positions always have to be valued
            ensure!(!ok, "{} succeeded with {how} oracle of perp market {p} held by acc {x}", st.what);
            ensure!(is_err(&err, MangoError::OracleStale) || is_err(&err, MangoError::OracleConfidence), "{} failed with {err}", st.what);
            case.label("perp oracle");
            case.nontrivial();
            continue;
        }
        let t = toks[i];
        if !mentions(w.tokens[t].oracle) { continue }
        let pos = f(b.posx(x, t));
        let how = spoil(src, &alt, w.tokens[t].oracle);
        let touched = t == st.t || t == st.t2 || (0..2).any(|n| {
            let k = w.bank_key(t, n);
            ixs.iter().any(|i| i.accounts.iter().any(|m| m.pubkey == w.bank(k).vault))
        }) || st.k == SerumPlace;
        let ok = alt.replay(&ixs, &signers);
        let err = alt.fail_text();
        let oracle_err = is_err(&err, MangoError::OracleStale) || is_err(&err, MangoError::OracleConfidence);
        if strict {
            ensure!(!ok, "{} succeeded with {how} oracle of token {t} held by acc {x}", st.what);
            ensure!(oracle_err, "{} failed with {err}", st.what);
            case.label(st.k.name());
            case.nontrivial();
        } else if !touched {
            let in_serum = acc_.active_serum3_orders().any(|o| o.base_token_index as usize == t || o.quote_token_index as usize == t);
            let in_perp = !perps.is_empty() && t == 0;
            if pos < 0.0 {
                ensure!(!ok && oracle_err, "{} with {how} oracle of borrowed token {t}: {err}", st.what);
                case.label("borrowed token");
                case.nontrivial();
            } else if !in_serum && !in_perp {
                let zero = before.fork();
                zero.edit_acc(x, |a| { let (p, _) = a.token_position_mut(t as u16).unwrap(); p.indexed_position = I80F48::ZERO; });
                let want = zero.replay(&ixs, &signers);
                // as if the position was not there
                ensure!(ok == want, "{} with {how} oracle of held token {t}: {ok} ({err}), without the position {want} ({})", st.what, zero.fail_text());
                case.label(if ok { "skipped, allowed" } else { "skipped, refused" });
                case.nontrivial();
            }
        }
        // with a usable fallback that says the same
        if matches!(st.k, FlashLoan | Region) || (touched && !strict) || last.accounts.is_empty() { continue }
        if matches!(st.k, SettlePnl | PerpLiqNeg) && t == 0 { continue }
        let fb = Pubkey::new_unique();
        let good = before.s.sim.borrow().get(&w.tokens[t].oracle).unwrap().clone();
        alt.s.sim.borrow_mut().set(fb, good);
        alt.edit_token(t, |b| b.fallback_oracle = fb);
        ensure!(!alt.replay(&ixs, &signers) || !strict, "{} used a fallback that was not passed", st.what);
        if !strict { continue }
        let mut with = ixs.clone();
        with.last_mut().unwrap().accounts.push(solana_program::instruction::AccountMeta::new_readonly(fb, false));
        let ok = alt.replay(&with, &signers);
        ensure!(ok, "{} failed with a usable fallback for token {t}: {}", st.what, alt.fail_text());
        for a in 0..N_ACC {
            ensure!(alt.acc(a).dynamic == w.acc(a).dynamic && bytemuck::bytes_of(&alt.acc(a).fixed) == bytemuck::bytes_of(&w.acc(a).fixed), "{}: acc {a} differs when the fallback is used", st.what);
        }
        case.label("fallback");
    }
    Ok(())
}

/// Withdrawals while banks are missing from the health accounts or oracles are unusable.
fn withdraw(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    w.random_bank_config(src);
    w.whale_liquidity();
    let a = 1;
    for t in 0..5 {
        let v = (src.log_range(1, 1 << 30) as f64 / w.price(t)).ceil();
        match src.below(5) { 0 | 1 | 2 => w.grant(a, t, 0, v), 3 => w.grant(a, t, 0, -(v * 0.3).ceil()), _ => {} }
    }
    let held: Vec<usize> = (0..5).filter(|t| w.acc(a).token_position(*t as u16).is_ok()).collect();
    if held.is_empty() { return Ok(()) }
    let t = src.pick(&held);
    w.set_price(t, w.price(t), Some(w.price(t)));
    if src.chance(15) { w.edit_acc(a, |x| x.fixed.set_being_liquidated(true)); }
    let n = f(w.pos(a, t));
    let x = (n.abs() * src.pick(&[0.3, 0.99, 1.0, 1.5])).floor().max(1.0) as u64;
    let borrow = x as f64 > n;
    if (x as f64 - n).abs() < 1.0 { return Ok(()) }
    let s0 = w.snap();
    let zero = w.fork();
    let ix = w.withdraw_ix(a, t, 0, x, true);
    let (_, mut raw) = ix.to_instruction(&*w.s);
    // some positions cannot be valued
    let mut gone: Vec<usize> = vec![];
    let mut how = vec![];
    for q in held.iter() {
        if !src.chance(if *q == t { 60 } else { 20 }) { continue }
        gone.push(*q);
        if src.bool() {
            how.push("bad oracle");
            let mut o: StubOracle = w.s.get_account(w.tokens[*q].oracle);
            o.deviation = o.price;
            w.s.set_account(w.tokens[*q].oracle, &o);
        } else {
            how.push("missing");
            let first = 8;
            for k in [w.bank_key(*q, 0), w.tokens[*q].oracle] {
                let i = (first..raw.accounts.len()).find(|i| raw.accounts[*i].pubkey == k).ok_or("health account not found")?;
                raw.accounts.remove(i);
            }
        }
    }
    let ok = w.ok_raw(raw, &[w.accs[a].owner]);
    let err = w.fail_text();
    case.note(|| format!("withdraw {x} of token {t} (position {n}), not valued {gone:?} {how:?}: {}", if ok { "ok" } else { &err }));
    if gone.is_empty() { return Ok(()) }
    case.nontrivial();
    if gone.iter().any(|q| f(s0.posx(a, *q)) < 0.0) {
        ensure!(!ok, "a borrowed token was not valued");
        case.label("borrow hidden");
        return Ok(());
    }
    if !gone.contains(&t) {
        // the others count as nothing
        for q in gone.iter() {
            zero.edit_acc(a, |x| { let (p, _) = x.token_position_mut(*q as u16).unwrap(); p.indexed_position = I80F48::ZERO; });
        }
        let want = zero.ok(zero.withdraw_ix(a, t, 0, x, true));
        ensure!(ok == want, "withdrawal {ok} ({err}), without the hidden positions {want} ({})", zero.fail_text());
        case.label(if ok { "others hidden, allowed" } else { "others hidden, refused" });
        return Ok(());
    }
    if borrow {
        ensure!(!ok, "borrowed {x} of a token that cannot be valued (position {n})");
        case.label("borrow refused");
        return Ok(());
    }
    // health of everything that can be valued, by the reference model
    let mut s = s0;
    for q in gone.iter() {
        let (p, _) = s.accs[a].token_position_mut(*q as u16).unwrap();
        p.indexed_position = I80F48::ZERO;
    }
    let h = w.health(&s, a);
    let init = h.health(HT::Init);
    let le = h.health(HT::LiqEnd);
    let tol = h.tol();
    if init.abs() <= tol || le.abs() <= tol { return Ok(()) }
    let liq = s.accs[a].being_liquidated();
    let want = init >= 0.0 && !(liq && le < 0.0);
    if ok != want {
        // limits unrelated to health
        let other = [MangoError::InsufficentBankVaultFunds, MangoError::BankBorrowLimitReached].iter().any(|e| is_err(&err, *e));
        ensure!(other && !ok, "health of the valued positions is {init} (liquidation end {le}, flagged {liq}), withdrawal {}", if ok { "accepted" } else { &err });
        return Ok(());
    }
    case.label(if ok { "allowed" } else { "refused" });
    Ok(())
}
use crate::model::HT;
