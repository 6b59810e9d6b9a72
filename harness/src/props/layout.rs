//! C17: mango accounts: slots, binary layout, resizing, migration, creation and closing.
use crate::ensure;
use crate::pbt::{Case, Prop, Src, Suite};
use crate::props::access::is_mango_account;
use crate::pt::*;
use crate::txgen;
use crate::world::*;
use anchor_lang::prelude::*;
use anchor_lang::{AccountDeserialize, AnchorSerialize, InstructionData};
use bytemuck::{bytes_of, Pod, Zeroable};
use mango_v4::state::*;
use std::mem::size_of;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "`slots`: random sequences of slot operations (find, create, close for token, spot, perp, perp order and conditional swap slots, resizing, migration lengths) on accounts of random capacities against a plain model of slot arrays, comparing the zero-copy view, the serialized (client) view and every byte after each step. `resize`: expand (both versions), size migration of old layouts, on real accounts filled with arbitrary contents. `lifecycle`: creation with arbitrary capacities and names, and closing with arbitrary contents. `testing`: closing of groups, tokens, markets and oracles in groups that are not for testing. Non-trivial: an operation changed an account or was refused",
        assumptions: &[],
        suites: vec![
            Suite { name: "slots", quick: 60_000, thorough: 3_000_000, f: slots },
            Suite { name: "resize", quick: 60_000, thorough: 3_000_000, f: resize },
            Suite { name: "lifecycle", quick: 40_000, thorough: 2_000_000, f: lifecycle },
            Suite { name: "testing", quick: 2_000, thorough: 60_000, f: testing },
        ],
    }
}

#[derive(Clone)]
struct Model {
    fixed: MangoAccountFixed,
    tokens: Vec<TokenPosition>,
    serum3: Vec<Serum3Orders>,
    perps: Vec<PerpPosition>,
    oo: Vec<PerpOpenOrder>,
    tcs: Vec<TokenConditionalSwap>,
}

/// arbitrary contents without floating point NaNs
fn junk<T: Pod>(src: &mut Src) -> T {
    let mut v = T::zeroed();
    let mut x = src.below(u64::MAX) | 1;
    for b in bytemuck::bytes_of_mut(&mut v) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *b = ((x >> 20) % 0x70) as u8;
    }
    v
}
fn token(src: &mut Src, i: u16) -> TokenPosition {
    let mut p: TokenPosition = junk(src);
    p.token_index = i;
    p.in_use_count = src.below(3) as u16;
    p
}
fn serum(src: &mut Src, i: u16) -> Serum3Orders {
    let mut p: Serum3Orders = junk(src);
    p.market_index = i;
    p
}
fn perp(src: &mut Src, i: u16) -> PerpPosition {
    let mut p: PerpPosition = junk(src);
    p.market_index = i;
    for x in [&mut p.bids_base_lots, &mut p.asks_base_lots, &mut p.base_position_lots, &mut p.taker_base_lots, &mut p.taker_quote_lots] {
        *x = if src.chance(50) { 0 } else { src.range(-1000, 1000) };
    }
    if src.chance(50) {
        p.quote_position_native = fixed::types::I80F48::ZERO;
    }
    p
}
fn tcs(src: &mut Src, id: u64) -> TokenConditionalSwap {
    let mut t: TokenConditionalSwap = junk(src);
    t.is_configured = 1;
    t.id = id;
    t
}
fn big(src: &mut Src, n: u64) -> u8 {
    let n = if src.chance(10) { 66 } else { n };
    src.below(n) as u8
}
fn caps(src: &mut Src) -> [u8; 5] {
    [
        2 + src.below(9) as u8 - src.below(3) as u8,
        src.below(6) as u8,
        src.below(6) as u8,
        big(src, 12),
        big(src, 8),
    ]
}

impl Model {
    fn random(src: &mut Src, c: [u8; 5], fill: u64) -> Model {
        let mut m = Model {
            fixed: junk(src),
            tokens: vec![TokenPosition::default(); c[0] as usize],
            serum3: vec![Serum3Orders::default(); c[1] as usize],
            perps: vec![PerpPosition::default(); c[2] as usize],
            oo: vec![PerpOpenOrder::default(); c[3] as usize],
            tcs: vec![TokenConditionalSwap::default(); c[4] as usize],
        };
        for (i, p) in m.tokens.iter_mut().enumerate() {
            if src.chance(fill) {
                *p = token(src, 10 + i as u16);
            }
        }
        for (i, p) in m.serum3.iter_mut().enumerate() {
            if src.chance(fill) {
                *p = serum(src, 10 + i as u16);
            }
        }
        for (i, p) in m.perps.iter_mut().enumerate() {
            if src.chance(fill) {
                *p = perp(src, 10 + i as u16);
            }
        }
        for p in m.oo.iter_mut() {
            if src.chance(fill / 2) {
                *p = junk(src);
                p.market = 10;
                p.side_and_tree = src.below(4) as u8;
            }
        }
        for (i, p) in m.tcs.iter_mut().enumerate() {
            if src.chance(fill) {
                *p = tcs(src, 100 + i as u64);
            }
        }
        m
    }
    fn caps(&self) -> [u8; 5] {
        [self.tokens.len() as u8, self.serum3.len() as u8, self.perps.len() as u8, self.oo.len() as u8, self.tcs.len() as u8]
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = bytes_of(&self.fixed).to_vec();
        v.extend([1, 0, 0, 0, 0, 0, 0, 0]);
        fn vec<T: Pod>(v: &mut Vec<u8>, x: &[T]) {
            v.extend([0; 4]);
            v.extend((x.len() as u32).to_le_bytes());
            v.extend_from_slice(bytemuck::cast_slice(x));
        }
        vec(&mut v, &self.tokens);
        vec(&mut v, &self.serum3);
        vec(&mut v, &self.perps);
        vec(&mut v, &self.oo);
        vec(&mut v, &self.tcs);
        v.extend([0; 64]);
        v
    }
    /// the state after a resize, or None if it must be refused
    fn resized(&self, c: [u8; 5]) -> Option<Model> {
        let o = self.caps();
        let need = |c: &[u8; 5]| c[0] as usize * 2 + c[1] as usize + c[2] as usize * 2;
        if need(&c) > need(&o) && need(&c) > 28 {
            return None;
        }
        for i in [3, 4] {
            if c[i] > o[i] && c[i] > 64 {
                return None;
            }
        }
        fn pack<T: Copy + Default>(v: &[T], n: u8, act: impl Fn(&T) -> bool) -> Option<Vec<T>> {
            let mut x: Vec<T> = v.iter().filter(|t| act(t)).copied().collect();
            if x.len() > n as usize {
                return None;
            }
            x.resize(n as usize, T::default());
            Some(x)
        }
        // orders on the book refer to their slot, so they stay where they are
        let last = self.oo.iter().rposition(|x| x.market != PerpMarketIndex::MAX).map(|i| i + 1).unwrap_or(0);
        if last > c[3] as usize {
            return None;
        }
        let mut oo = self.oo[..last].to_vec();
        oo.resize(c[3] as usize, PerpOpenOrder::default());
        Some(Model {
            fixed: self.fixed,
            tokens: pack(&self.tokens, c[0], |p| p.token_index != u16::MAX)?,
            serum3: pack(&self.serum3, c[1], |p| p.market_index != u16::MAX)?,
            perps: pack(&self.perps, c[2], |p| p.market_index != u16::MAX)?,
            oo,
            tcs: pack(&self.tcs, c[4], |p| p.is_configured == 1)?,
        })
    }
}

fn disc() -> [u8; 8] {
    use anchor_lang::Discriminator;
    MangoAccount::DISCRIMINATOR
}

/// `data` without discriminator holds exactly the model, in every view
fn same(data: &[u8], m: &Model, what: &str) -> std::result::Result<(), String> {
    let want = m.bytes();
    ensure!(data.len() == want.len(), "{what}: {} bytes, expected {}", data.len(), want.len());
    let c = m.caps();
    ensure!(MangoAccount::space(c[0], c[1], c[2], c[3], c[4]) == want.len() + 8, "{what}: space() for {c:?}");
    let z = MangoAccountValue::from_bytes(data).map_err(|e| e.to_string())?;
    let h = &z.header;
    ensure!([h.token_count, h.serum3_count, h.perp_count, h.perp_oo_count, h.token_conditional_swap_count] == c, "{what}: capacities {h:?}, expected {c:?}");
    ensure!(data[data.len() - 64..] == [0; 64], "{what}: reserved bytes at the end");
    // the zero-copy view
    let v = MangoAccountLoadedRef::from_bytes(data).map_err(|e| e.to_string())?;
    ensure!(bytes_of(v.fixed) == bytes_of(&m.fixed), "{what}: header");
    fn eq<T: Pod>(what: &str, n: &str, a: &[T], b: &[T], active: impl Fn(&T) -> bool) -> std::result::Result<(), String> {
        ensure!(a.len() == b.len(), "{what}: {} {n} slots instead of {}", a.len(), b.len());
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            // the contents of free slots do not matter
            ensure!(active(x) == active(y), "{what}: {n} slot {i} is {}", if active(x) { "in use" } else { "free" });
            ensure!(!active(x) || bytes_of(x) == bytes_of(y), "{what}: {n} slot {i} has other contents");
        }
        Ok(())
    }
    let all = |t: &[TokenPosition], s: &[Serum3Orders], p: &[PerpPosition], o: &[PerpOpenOrder], x: &[TokenConditionalSwap]| {
        eq(what, "token", t, &m.tokens, |p| p.token_index != u16::MAX)?;
        eq(what, "spot", s, &m.serum3, |p| p.market_index != u16::MAX)?;
        eq(what, "perp", p, &m.perps, |p| p.market_index != u16::MAX)?;
        eq(what, "order", o, &m.oo, |p| p.market != u16::MAX)?;
        eq(what, "swap", x, &m.tcs, |p| p.is_configured == 1)
    };
    all(
        &v.all_token_positions().copied().collect::<Vec<_>>(),
        &v.all_serum3_orders().copied().collect::<Vec<_>>(),
        &v.all_perp_positions().copied().collect::<Vec<_>>(),
        &v.all_perp_orders().copied().collect::<Vec<_>>(),
        &v.all_token_conditional_swaps().copied().collect::<Vec<_>>(),
    )?;
    // the view of clients that deserialize
    let full = [&disc()[..], data].concat();
    let d = MangoAccount::try_deserialize(&mut &full[..]).map_err(|e| format!("{what}: does not deserialize: {e}"))?;
    ensure!(d.try_to_vec().map_err(|e| e.to_string())? == data, "{what}: serializing again gives other bytes");
    ensure!(
        d.group == m.fixed.group && d.owner == m.fixed.owner && d.delegate == m.fixed.delegate && d.name == m.fixed.name
            && d.account_num == m.fixed.account_num && d.frozen_until == m.fixed.frozen_until && d.net_deposits == m.fixed.net_deposits
            && d.sequence_number == m.fixed.sequence_number && d.bump == m.fixed.bump
            && d.buyback_fees_accrued_current == m.fixed.buyback_fees_accrued_current
            && d.buyback_fees_accrued_previous == m.fixed.buyback_fees_accrued_previous
            && d.buyback_fees_expiry_timestamp == m.fixed.buyback_fees_expiry_timestamp
            && d.next_token_conditional_swap_id == m.fixed.next_token_conditional_swap_id
            && d.temporary_delegate == m.fixed.temporary_delegate && d.temporary_delegate_expiry == m.fixed.temporary_delegate_expiry
            && d.last_collateral_fee_charge == m.fixed.last_collateral_fee_charge
            && d.health_region_begin_init_health == m.fixed.health_region_begin_init_health
            && d.perp_spot_transfers == m.fixed.perp_spot_transfers,
        "{what}: the two views disagree on the header"
    );
    ensure!(data[..32] == m.fixed.group.to_bytes() && data[32..64] == m.fixed.owner.to_bytes(), "{what}: fixed offsets");
    ensure!(
        d.tokens.len() == c[0] as usize && d.serum3.len() == c[1] as usize && d.perps.len() == c[2] as usize
            && d.perp_open_orders.len() == c[3] as usize && d.token_conditional_swaps.len() == c[4] as usize,
        "{what}: vector lengths"
    );
    all(&d.tokens, &d.serum3, &d.perps, &d.perp_open_orders, &d.token_conditional_swaps)?;
    Ok(())
}

fn raw(a: &MangoAccountValue) -> Vec<u8> {
    [bytes_of(&a.fixed), &a.dynamic[..]].concat()
}

fn slots(src: &mut Src, case: &mut Case) -> std::result::Result<(), String> {
    let c = caps(src);
    let fill = src.pick(&[0, 30, 60, 100]);
    let mut m = Model::random(src, c, fill);
    let mut a = MangoAccountValue::from_bytes(&m.bytes()).map_err(|e| e.to_string())?;
    same(&raw(&a), &m, "initially")?;
    let mut next_id = 1000;
    for _ in 0..1 + src.below(20) {
        let i = 8 + src.below(16) as u16;
        let before = a.clone();
        case.nontrivial();
        let what: String;
        match src.below(13) {
            0 | 1 => {
                what = format!("ensure_token_position({i})");
                let have = m.tokens.iter().position(|p| p.token_index == i);
                let free = m.tokens.iter().position(|p| p.token_index == u16::MAX);
                match (have.or(free), a.ensure_token_position(i)) {
                    (Some(k), Ok((p, r, act))) => {
                        if have.is_none() {
                            m.tokens[k] = TokenPosition { token_index: i, ..TokenPosition::zeroed() };
                        }
                        ensure!(r == k && p.token_index == i, "{what}: slot {r} of {}, expected {k}", p.token_index);
                        let n = m.tokens[..k].iter().filter(|p| p.token_index != u16::MAX).count();
                        ensure!(act == n, "{what}: active index {act}, expected {n}");
                        if have.is_none() {
                            // only the fields that matter are compared, padding is free
                            ensure!(p.indexed_position == 0 && p.in_use_count == 0 && p.previous_index == 0 && p.cumulative_borrow_interest == 0.0 && p.cumulative_deposit_interest == 0.0, "{what}: a new position is not empty");
                            if src.bool() {
                                let x = token(src, i);
                                *p = x;
                                m.tokens[k] = x;
                            } else {
                                m.tokens[k] = *p;
                            }
                        }
                        case.label(if have.is_some() { "token found" } else { "token created" });
                    }
                    (None, Err(_)) => {
                        a = before;
                        case.label("no token slot");
                    }
                    (w, r) => return Err(format!("{what}: expected slot {w:?}, ok: {}", r.is_ok())),
                }
            }
            2 => {
                let k = m.tokens.iter().position(|p| p.token_index == i);
                what = format!("token_position({i})");
                match (k, a.token_position_and_raw_index(i)) {
                    (Some(k), Ok((p, r))) => ensure!(r == k && bytes_of(p) == bytes_of(&m.tokens[k]), "{what}: wrong slot {r}"),
                    (None, Err(_)) => {}
                    _ => return Err(format!("{what}: expected {k:?}")),
                }
                ensure!(a.token_position(i).is_ok() == k.is_some() && a.token_position_mut(i).is_ok() == k.is_some(), "{what}");
                if let Some(k) = k {
                    let x = crate::sim::catch(|| {
                        let mut b = a.clone();
                        b.deactivate_token_position(k);
                        b
                    });
                    if m.tokens[k].in_use_count == 0 {
                        a = x?;
                        m.tokens[k].token_index = u16::MAX;
                        case.label("token closed");
                    } else {
                        ensure!(x.is_err(), "{what}: closed while in use");
                        case.label("token in use");
                    }
                }
            }
            3 => {
                what = format!("create_serum3_orders({i})");
                let have = m.serum3.iter().any(|p| p.market_index == i);
                let free = m.serum3.iter().position(|p| p.market_index == u16::MAX);
                let want = if have { None } else { free };
                match (want, a.create_serum3_orders(i)) {
                    (Some(k), Ok(p)) => {
                        ensure!(bytes_of(p) == bytes_of(&Serum3Orders { market_index: i, ..Default::default() }), "{what}: not fresh");
                        let mut x = serum(src, i);
                        x.open_orders = Pubkey::new_from_array([src.below(200) as u8; 32]);
                        *p = x;
                        m.serum3[k] = x;
                        case.label("spot created");
                    }
                    (None, Err(_)) => {
                        case.label("spot refused");
                    }
                    (w, _) => return Err(format!("{what}: expected {w:?}")),
                }
            }
            4 => {
                what = format!("deactivate_serum3_orders({i})");
                let k = m.serum3.iter().position(|p| p.market_index == i);
                ensure!(a.serum3_orders(i).is_ok() == k.is_some() && a.serum3_orders_mut(i).is_ok() == k.is_some(), "{what}: lookup");
                if let Some(k) = k {
                    ensure!(bytes_of(a.serum3_orders(i).unwrap()) == bytes_of(&m.serum3[k]), "{what}: wrong slot");
                }
                match (k, a.deactivate_serum3_orders(i)) {
                    (Some(k), Ok(_)) => {
                        m.serum3[k].market_index = u16::MAX;
                        case.label("spot closed");
                    }
                    (None, Err(_)) => {}
                    _ => return Err(format!("{what}: expected {k:?}")),
                }
            }
            5 | 6 => {
                let t = 8 + src.below(16) as u16;
                what = format!("ensure_perp_position({i}, {t})");
                let have = m.perps.iter().position(|p| p.market_index == i);
                let free = m.perps.iter().position(|p| p.market_index == u16::MAX);
                let tk = m.tokens.iter().position(|p| p.token_index == t).or(m.tokens.iter().position(|p| p.token_index == u16::MAX));
                let want = match (have, free, tk) {
                    (Some(k), _, _) => Some(k),
                    (None, Some(k), Some(_)) => Some(k),
                    _ => None,
                };
                match (want, a.ensure_perp_position(i, t)) {
                    (Some(k), Ok((p, r))) => {
                        ensure!(r == k && p.market_index == i, "{what}: slot {r}, expected {k}");
                        if have.is_none() {
                            ensure!(bytes_of(p) == bytes_of(&PerpPosition { market_index: i, ..Default::default() }), "{what}: not fresh");
                            let x = perp(src, i);
                            *p = x;
                            m.perps[k] = x;
                            let j = tk.unwrap();
                            if m.tokens[j].token_index != t {
                                let got = *a.token_position_by_raw_index(j).map_err(|e| e.to_string())?;
                                ensure!(got.token_index == t && got.indexed_position == 0, "{what}: settle token not created");
                                m.tokens[j] = TokenPosition { in_use_count: 0, ..got };
                            }
                            m.tokens[j].in_use_count += 1;
                            case.label("perp created");
                        }
                    }
                    (None, Err(_)) => {
                        a = before;
                        case.label("perp refused");
                    }
                    (w, _) => return Err(format!("{what}: expected {w:?}")),
                }
            }
            7 => {
                let t = 8 + src.below(16) as u16;
                what = format!("deactivate_perp_position({i}, {t})");
                let k = m.perps.iter().position(|p| p.market_index == i);
                let j = m.tokens.iter().position(|p| p.token_index == t);
                ensure!(a.perp_position(i).is_ok() == k.is_some(), "{what}: lookup");
                let log = src.bool();
                let r = crate::sim::catch(|| {
                    let mut b = a.clone();
                    let r = if log { b.deactivate_perp_position_and_log(i, t, Pubkey::default()) } else { b.deactivate_perp_position(i, t) };
                    r.map(|_| b).map_err(|e| e.to_string())
                });
                match (k, j, r) {
                    (Some(k), Some(j), Ok(Ok(b))) => {
                        a = b;
                        m.perps[k].market_index = u16::MAX;
                        // in_use_count saturates at zero
                        let n = m.tokens[j].in_use_count;
                        m.tokens[j].in_use_count = n.saturating_sub(1);
                        case.label("perp closed");
                    }
                    (Some(_), Some(j), Err(_)) => ensure!(m.tokens[j].in_use_count == 0, "{what}: panicked"),
                    (None, _, Ok(Err(_))) | (_, None, Ok(Err(_))) => {}
                    (k, j, _) => return Err(format!("{what}: expected {k:?} {j:?}")),
                }
            }
            8 => {
                let side = if src.bool() { Side::Bid } else { Side::Ask };
                let tree = if src.bool() { BookSideOrderTree::Fixed } else { BookSideOrderTree::OraclePegged };
                let slot = m.oo.iter().position(|o| o.market == u16::MAX);
                what = format!("add_perp_order({i})");
                ensure!(a.perp_next_order_slot().ok() == slot, "perp_next_order_slot: {:?}, expected {slot:?}", a.perp_next_order_slot().ok());
                let k = m.perps.iter().position(|p| p.market_index == i);
                if let (Some(slot), Some(k)) = (slot, k) {
                    let (key, cid, q) = (src.below(u64::MAX) as u128 * 7, src.below(5), src.range(1, 1000));
                    let leaf = LeafNode::new(slot as u8, key, Pubkey::default(), q, 1, PostOrderType::Limit, 0, -1, cid);
                    a.add_perp_order(i, side, tree, &leaf).map_err(|e| e.to_string())?;
                    match side {
                        Side::Bid => m.perps[k].bids_base_lots += q,
                        Side::Ask => m.perps[k].asks_base_lots += q,
                    }
                    let o = &mut m.oo[slot];
                    o.market = i;
                    o.id = key;
                    o.client_id = cid;
                    o.quantity = q;
                    o.side_and_tree = SideAndOrderTree::new(side, tree).into();
                    let w = (if side == Side::Bid { 0 } else { 1 }) + (if tree == BookSideOrderTree::Fixed { 0 } else { 2 });
                    ensure!(o.side_and_tree == w, "{what}: side and tree stored as {}", o.side_and_tree);
                    case.label("order added");
                }
            }
            9 => {
                // remove an order
                let act: Vec<usize> = (0..m.oo.len()).filter(|s| m.oo[*s].market != u16::MAX).collect();
                let s = if act.is_empty() || src.chance(20) { src.idx(m.oo.len().max(1)) } else { src.pick(&act) };
                what = format!("remove_perp_order({s})");
                let q = src.range(0, 1000);
                if s < m.oo.len() {
                    let o = m.oo[s];
                    let k = m.perps.iter().position(|p| p.market_index == o.market && o.market != u16::MAX);
                    match (k, a.remove_perp_order(s, q)) {
                        (Some(k), Ok(_)) => {
                            if o.side_and_tree % 2 == 0 {
                                m.perps[k].bids_base_lots -= q;
                            } else {
                                m.perps[k].asks_base_lots -= q;
                            }
                            let got = *a.perp_order_by_raw_index(s).map_err(|e| e.to_string())?;
                            ensure!(got.market == u16::MAX, "{what}: slot not cleared");
                            m.oo[s] = got;
                            case.label("order removed");
                        }
                        (None, Err(_)) => a = before,
                        (k, _) => return Err(format!("{what}: expected {k:?}")),
                    }
                }
            }
            10 => {
                what = "lookups".to_string();
                let (mk, id) = (src.pick(&[10u16, i]), src.below(5));
                let w = m.oo.iter().position(|o| o.market == mk && o.client_id == id && mk != u16::MAX);
                ensure!(a.perp_find_order_with_client_order_id(mk, id).map(|x| x.0) == w, "order with client id {id}");
                if let Some(o) = m.oo.iter().find(|o| o.market == mk) {
                    let w = m.oo.iter().position(|x| x.market == mk && x.id == o.id);
                    ensure!(a.perp_find_order_with_order_id(mk, o.id).map(|x| x.0) == w, "order with id {}", o.id);
                    ensure!(a.perp_find_order_with_order_id(mk + 1, o.id).map(|x| x.0) == m.oo.iter().position(|x| x.market == mk + 1 && x.id == o.id), "order in another market");
                }
                let w = m.perps.iter().position(|p| {
                    p.market_index != u16::MAX && p.base_position_lots == 0 && p.quote_position_native == 0 && p.bids_base_lots == 0 && p.asks_base_lots == 0 && p.taker_base_lots == 0 && p.taker_quote_lots == 0
                });
                ensure!(a.find_first_active_unused_perp_position().map(|p| p.market_index) == w.map(|k| m.perps[k].market_index), "unused perp position");
                ensure!(a.active_token_positions().count() == m.tokens.iter().filter(|p| p.token_index != u16::MAX).count(), "active tokens");
                ensure!(a.active_serum3_orders().count() == m.serum3.iter().filter(|p| p.market_index != u16::MAX).count(), "active spot");
                ensure!(a.active_perp_positions().count() == m.perps.iter().filter(|p| p.market_index != u16::MAX).count(), "active perps");
                ensure!(a.active_token_conditional_swaps().count() == m.tcs.iter().filter(|p| p.is_configured == 1).count(), "active swaps");
            }
            11 => {
                what = "conditional swap slot".to_string();
                let free = m.tcs.iter().position(|t| t.is_configured != 1);
                ensure!(a.token_conditional_swap_free_index().ok() == free, "free swap slot");
                if src.bool() {
                    if let Some(k) = free {
                        let x = tcs(src, next_id);
                        next_id += 1;
                        *a.free_token_conditional_swap_mut().map_err(|e| e.to_string())? = x;
                        m.tcs[k] = x;
                        case.label("swap added");
                    } else {
                        ensure!(a.free_token_conditional_swap_mut().is_err(), "a swap slot out of nowhere");
                    }
                } else if let Some(k) = m.tcs.iter().position(|t| t.is_configured == 1) {
                    let id = m.tcs[k].id;
                    ensure!(a.token_conditional_swap_by_id(id).map(|x| x.0).ok() == Some(k), "swap {id} not found");
                    *a.token_conditional_swap_mut_by_index(k).unwrap() = TokenConditionalSwap::default();
                    m.tcs[k] = TokenConditionalSwap::default();
                    ensure!(a.token_conditional_swap_by_id(id).is_err(), "closed swap {id} found");
                    case.label("swap closed");
                }
                ensure!(a.token_conditional_swap_by_index(m.tcs.len()).is_err() && a.token_conditional_swap_mut_by_index(m.tcs.len()).is_err(), "swap index out of range");
            }
            _ => {
                let n = near(src, &m);
                what = format!("resize {:?} to {n:?}", m.caps());
                let want = m.resized(n);
                let size = MangoAccount::space(n[0], n[1], n[2], n[3], n[4]) - 8 - size_of::<MangoAccountFixed>();
                let old = a.dynamic.len();
                if size > old {
                    a.dynamic.resize(size, 0);
                }
                let r = a.resize_dynamic_content(n[0], n[1], n[2], n[3], n[4]);
                match (want, r) {
                    (Some(w), Ok(_)) => {
                        a.dynamic.truncate(size);
                        m = w;
                        case.label("resized");
                    }
                    (None, Err(_)) => {
                        a = before;
                        case.label("resize refused");
                    }
                    (w, r) => return Err(format!("{what}: expected {}, was {:?}", w.is_some(), r.is_ok())),
                }
            }
        }
        case.note(|| what.clone());
        same(&raw(&a), &m, &what)?;
    }
    Ok(())
}

/// new capacities, often close to what is needed
fn near(src: &mut Src, m: &Model) -> [u8; 5] {
    let used = [
        m.tokens.iter().filter(|p| p.token_index != u16::MAX).count() as u8,
        m.serum3.iter().filter(|p| p.market_index != u16::MAX).count() as u8,
        m.perps.iter().filter(|p| p.market_index != u16::MAX).count() as u8,
        m.oo.iter().rposition(|x| x.market != u16::MAX).map(|i| i + 1).unwrap_or(0) as u8,
        m.tcs.iter().filter(|p| p.is_configured == 1).count() as u8,
    ];
    let old = m.caps();
    let mut n = caps(src);
    for i in 0..5 {
        n[i] = match src.below(6) {
            0 => used[i],
            1 => old[i],
            2 => old[i] + 1,
            3 => (used[i] + src.below(3) as u8).saturating_sub(if src.chance(10) { 1 } else { 0 }),
            4 => used[i].max(n[i]),
            _ => old[i].saturating_sub(1).max(used[i]),
        };
    }
    n
}

/// cut to an older layout: 1 = before conditional swaps, 2 = before the reserved bytes
fn cut(bytes: &[u8], m: &Model, version: u8) -> Vec<u8> {
    let n = match version {
        1 => bytes.len() - 64 - 8 - m.tcs.len() * size_of::<TokenConditionalSwap>(),
        2 => bytes.len() - 64,
        _ => bytes.len(),
    };
    bytes[..n].to_vec()
}

/// an account that pays
fn rich(w: &World) -> TestKeypair {
    let mut s = w.s.sim.borrow_mut();
    let mut a = s.get(&w.admin.pubkey()).cloned().unwrap_or_default();
    a.lamports = 1 << 40;
    s.set(w.admin.pubkey(), a);
    w.admin
}
fn lamports(w: &World, k: Pubkey) -> u64 {
    w.s.sim.borrow().get(&k).map(|a| a.lamports).unwrap_or(0)
}
fn rent(n: usize) -> u64 {
    solana_program::rent::Rent::default().minimum_balance(n)
}

/// puts an account with the model's contents in place of account `a`
fn place(src: &mut Src, w: &World, a: usize, m: &mut Model, version: u8) {
    let f = w.acc(a).fixed;
    m.fixed.group = f.group;
    m.fixed.owner = f.owner;
    m.fixed.account_num = f.account_num;
    m.fixed.bump = f.bump;
    m.fixed.frozen_until = 0;
    if version == 1 {
        m.tcs.clear();
    }
    let mut data = disc().to_vec();
    data.extend(cut(&m.bytes(), m, version));
    let mut acc = w.s.sim.borrow().get(&w.accs[a].key).unwrap().clone();
    acc.lamports = rent(data.len()) + if src.chance(40) { src.log(1 << 30) } else { 0 };
    acc.data = data;
    w.s.sim.borrow_mut().set(w.accs[a].key, acc);
}

fn resize(src: &mut Src, case: &mut Case) -> std::result::Result<(), String> {
    let w = World::new();
    let a = src.idx(N_ACC);
    let who = w.accs[a];
    let c = caps(src);
    let fill = src.pick(&[0, 30, 60, 100]);
    let mut m = Model::random(src, c, fill);
    let version = src.pick(&[3, 3, 1, 2]) as u8;
    place(src, &w, a, &mut m, version);
    let payer = rich(&w);
    for _ in 0..1 + src.below(3) {
        let old = w.s.sim.borrow().get(&who.key).unwrap().clone();
        let (l0, p0) = (old.lamports, lamports(&w, payer.pubkey()));
        let all0 = w.raw_state();
        let migrate = src.chance(35);
        let mut n = near(src, &m);
        let (what, want) = if migrate {
            let full = m.bytes().len() + 8 == old.data.len();
            let act = |x: usize, min: usize, cap: usize| cap.min(x.max(min)) as u8;
            n = [
                act(m.tokens.iter().filter(|p| p.token_index != u16::MAX).count(), 8, m.tokens.len()),
                act(m.serum3.iter().filter(|p| p.market_index != u16::MAX).count(), 4, m.serum3.len()),
                act(m.perps.iter().filter(|p| p.market_index != u16::MAX).count(), 4, m.perps.len()),
                m.oo.len() as u8,
                m.tcs.len() as u8,
            ];
            ("migration", if full { Some(m.clone()) } else { m.resized(n) })
        } else if src.chance(25) {
            n[4] = 0;
            ("expand v1", m.resized(n))
        } else {
            ("expand", m.resized(n))
        };
        let noop = migrate && m.bytes().len() + 8 == old.data.len();
        let ok = if migrate {
            w.ok(AccountSizeMigrationInstruction { account: who.key, payer })
        } else {
            let f = w.acc(a).fixed;
            let mut ix = AccountExpandInstruction {
                account_num: f.account_num,
                group: w.group,
                owner: who.owner,
                payer,
                token_count: n[0],
                serum3_count: n[1],
                perp_count: n[2],
                perp_oo_count: n[3],
                token_conditional_swap_count: n[4],
            }
            .to_instruction(&*w.s)
            .1;
            for x in ix.accounts.iter_mut().take(2).skip(1) {
                x.pubkey = who.key;
            }
            if what == "expand v1" {
                ix.data = mango_v4::instruction::AccountExpand { token_count: n[0], serum3_count: n[1], perp_count: n[2], perp_oo_count: n[3] }.data();
            }
            w.ok_raw(ix, &[who.owner, payer])
        };
        case.nontrivial();
        let tr = format!("{what} of a v{version} account {:?} -> {n:?}: {}", m.caps(), w.fail_text());
        case.note(|| tr.clone());
        let new = w.s.sim.borrow().get(&who.key).unwrap().clone();
        let (l1, p1) = (new.lamports, lamports(&w, payer.pubkey()));
        // the runtime limits growth per instruction
        let want = want.filter(|m| m.bytes().len() + 8 <= old.data.len() + 10240);
        let Some(want) = want else {
            ensure!(!ok, "accepted what does not fit: {tr}");
            case.label("refused");
            continue;
        };
        ensure!(ok, "refused: {tr}");
        case.label(if noop { "nothing to migrate" } else { what });
        m = want;
        ensure!(new.data[..8] == disc() && new.owner == old.owner, "{tr}");
        same(&new.data[8..], &m, &tr)?;
        // the rent is kept exactly; surplus goes back to whoever pays, or stays in migrations
        ensure!(l1 + p1 == l0 + p0, "lamports {l0} + {p0} became {l1} + {p1}: {tr}");
        let need = rent(new.data.len());
        let want_l = if noop { l0 } else if migrate { l0.max(need) } else { need };
        ensure!(l1 == want_l, "account holds {l1} lamports, expected {want_l}: {tr}");
        for (k, v) in w.raw_state() {
            if k != who.key && k != payer.pubkey() {
                ensure!(all0.get(&k) == Some(&v), "another account changed: {k}: {tr}");
            }
        }
    }
    Ok(())
}

fn lifecycle(src: &mut Src, case: &mut Case) -> std::result::Result<(), String> {
    let w = World::new();
    case.nontrivial();
    if src.chance(40) {
        // creation
        let n = caps(src);
        let owner = w.users[src.idx(3)].key;
        let num = if src.chance(20) { 0 } else { 1000 + src.below(5) as u32 };
        let name_len = src.pick(&[0usize, 5, 31, 32, 33]);
        let v1 = src.chance(30);
        let n = if v1 { [n[0], n[1], n[2], n[3], 0] } else { n };
        let payer = rich(&w);
        let mut ix = AccountCreateInstruction {
            account_num: num,
            token_count: n[0],
            serum3_count: n[1],
            perp_count: n[2],
            perp_oo_count: n[3],
            token_conditional_swap_count: n[4],
            group: w.group,
            owner,
            payer,
        }
        .to_instruction(&*w.s)
        .1;
        let name = "n".repeat(name_len);
        ix.data = if v1 {
            mango_v4::instruction::AccountCreate { account_num: num, token_count: n[0], serum3_count: n[1], perp_count: n[2], perp_oo_count: n[3], name: name.clone() }.data()
        } else {
            mango_v4::instruction::AccountCreateV2 {
                account_num: num,
                token_count: n[0],
                serum3_count: n[1],
                perp_count: n[2],
                perp_oo_count: n[3],
                token_conditional_swap_count: n[4],
                name: name.clone(),
            }
            .data()
        };
        let (key, bump) = Pubkey::find_program_address(&[b"MangoAccount", w.group.as_ref(), owner.pubkey().as_ref(), &num.to_le_bytes()], &mango_v4::id());
        ensure!(ix.accounts[1].pubkey == key, "address of a new account");
        let exists = w.s.sim.borrow().get(&key).is_some();
        let fits = n[0] as usize * 2 + n[1] as usize + n[2] as usize * 2 <= 28 && n[3] <= 64 && n[4] <= 64;
        let size = MangoAccount::space(n[0], n[1], n[2], n[3], n[4]);
        let ok = w.ok_raw(ix, &[owner, payer]);
        let tr = format!("create {n:?} name of {name_len}: {}", w.fail_text());
        case.note(|| tr.clone());
        let big = size > 10240;
        let want = !exists && fits && name_len <= 32 && !big;
        ensure!(ok == want, "creation accepted: {ok}, expected {want}: {tr}");
        case.label(if ok { "created" } else { "not created" });
        if ok {
            let acc = w.s.sim.borrow().get(&key).unwrap().clone();
            let mut f = MangoAccountFixed::zeroed();
            f.group = w.group;
            f.owner = owner.pubkey();
            f.account_num = num;
            f.bump = bump;
            f.name[..name_len].copy_from_slice(name.as_bytes());
            let m = Model {
                fixed: f,
                tokens: vec![TokenPosition::default(); n[0] as usize],
                serum3: vec![Serum3Orders::default(); n[1] as usize],
                perps: vec![PerpPosition::default(); n[2] as usize],
                oo: vec![PerpOpenOrder::default(); n[3] as usize],
                tcs: vec![TokenConditionalSwap::default(); n[4] as usize],
            };
            ensure!(acc.data.len() == size && acc.lamports == rent(size) && is_mango_account(&acc), "new account: {tr}");
            same(&acc.data[8..], &m, &tr)?;
        }
        return Ok(());
    }
    // closing
    let a = src.idx(N_ACC);
    let who = w.accs[a];
    let c = caps(src);
    let fill = src.pick(&[0, 0, 5, 15, 50]);
    let mut m = Model::random(src, c, fill);
    let liq = src.chance(10);
    m.fixed.set_being_liquidated(liq);
    let only_orders = src.chance(20);
    if only_orders {
        m.tokens.iter_mut().for_each(|x| *x = TokenPosition::default());
        m.serum3.iter_mut().for_each(|x| *x = Serum3Orders::default());
        m.perps.iter_mut().for_each(|x| *x = PerpPosition::default());
    }
    place(src, &w, a, &mut m, 3);
    let force = src.chance(30);
    let testing = src.chance(50);
    w.edit_group(|g| g.testing = testing as u8);
    let dest = src.pick(&[w.admin.pubkey(), Pubkey::new_from_array([5; 32])]);
    let mut ix = AccountCloseInstruction { group: w.group, account: who.key, owner: who.owner, sol_destination: dest }.to_instruction(&*w.s).1;
    ix.data = mango_v4::instruction::AccountClose { force_close: force }.data();
    let (l0, d0) = (lamports(&w, who.key), lamports(&w, dest));
    let all0 = w.raw_state();
    let ok = w.ok_raw(ix, &[who.owner]);
    let full = m.tokens.iter().any(|p| p.token_index != u16::MAX) || m.serum3.iter().any(|p| p.market_index != u16::MAX) || m.perps.iter().any(|p| p.market_index != u16::MAX);
    let want = if force { testing } else { !full && !liq };
    let tr = format!("close: force {force} testing {testing} positions {full} being liquidated {liq}: {}", w.fail_text());
    case.note(|| tr.clone());
    ensure!(ok == want, "closed: {ok}, expected {want}: {tr}");
    case.label(if ok { "closed" } else { "not closed" });
    if ok {
        ensure!(lamports(&w, who.key) == 0 && lamports(&w, dest) == d0 + l0, "lamports: {tr}");
        let gone = w.s.sim.borrow().get(&who.key).map(|x| x.data.is_empty() || !is_mango_account(x)).unwrap_or(true);
        ensure!(gone, "the account is still there: {tr}");
        for (k, v) in w.raw_state() {
            if k != who.key && k != dest {
                ensure!(all0.get(&k) == Some(&v), "another account changed: {k}: {tr}");
            }
        }
    }
    Ok(())
}

/// instructions that remove groups, tokens, markets or oracles exist for test groups only
fn testing(src: &mut Src, case: &mut Case) -> std::result::Result<(), String> {
    let m = txgen::start(src);
    const ONLY: [&str; 4] = ["group_close", "token_deregister", "perp_close_market", "serum3_deregister_market"];
    for _ in 0..6 {
        let Some(tx) = txgen::gen(src, &m) else { continue };
        let names = tx.names();
        if names.contains(&"group_edit") || names.contains(&"group_create") {
            continue;
        }
        let hit = names.iter().find(|n| ONLY.contains(n));
        let f = tx.base.fork();
        let groups: Vec<Pubkey> = {
            let s = f.s.sim.borrow();
            tx.ixs.iter().flat_map(|i| i.accounts.iter()).map(|m| m.pubkey).filter(|k| s.get(k).map(crate::props::access::is_type::<Group>).unwrap_or(false)).collect()
        };
        for k in groups {
            let mut g = f.s.get_account::<Group>(k);
            g.testing = 0;
            f.s.set_account(k, &g);
        }
        let ok = f.replay(&tx.ixs, &tx.signers);
        if let Some(n) = hit {
            case.nontrivial();
            case.label(n);
            ensure!(!ok, "{n} works in a group that is not for testing");
        }
    }
    Ok(())
}
