//! C29: transactions that the TypeScript client builds do what its caller asked for.
use crate::ensure;
use crate::pbt::*;
use crate::pt::*;
use crate::ts::*;
use crate::txgen::{self, Tx};
use crate::world::*;
use serde_json::{json, Value};
use mango_v4::accounts_ix::{Serum3OrderType, Serum3SelfTradeBehavior, Serum3Side};
use mango_v4::state::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::str::FromStr;

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "`idl`: the client reads the arguments of random transactions of all instructions with its IDL and writes them again. `calls`: the method of the client for each instruction is called with the values of a generated transaction, mutated at random, and what it builds is executed next to the instruction itself on copies of the chain; all accounts must end up alike, and the client refuses only what the program refuses. `ops`: methods that act on several positions, orders or accounts at once, judged by what is left afterwards. Non-trivial: an instruction was read, both were executed, or there was something to act on",
        assumptions: &[
            "creation of missing token accounts, wrapping of SOL and compute budget instructions are taken as harmless and left out",
            "instructions for openbook v2 are only read, not executed",
        ],
        suites: vec![
            Suite { name: "idl", quick: 700, thorough: 20_000, f: idl },
            Suite { name: "calls", quick: 700, thorough: 25_000, f: calls },
            Suite { name: "ops", quick: 600, thorough: 20_000, f: ops },
        ],
    }
}

const CALLS: &str = include_str!("tstx_calls.js");

pub fn camel(s: &str) -> String {
    let mut o = String::new();
    let mut up = false;
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if up {
            o.push(c.to_ascii_uppercase());
            up = false;
        } else {
            o.push(c);
        }
    }
    o
}

fn key(v: &Value) -> Pubkey {
    Pubkey::from_str(v.as_str().unwrap_or("")).unwrap_or_default()
}
/// an instruction as the client reported it
pub fn ix_of(v: &Value) -> Instruction {
    Instruction {
        program_id: key(&v["p"]),
        accounts: v["k"]
            .as_array()
            .map(|x| x.as_slice())
            .unwrap_or(&[])
            .iter()
            .map(|m| AccountMeta { pubkey: key(&m[0]), is_writable: m[1] == 1, is_signer: m[2] == 1 })
            .collect(),
        data: unhex(v["d"].as_str().unwrap_or("")),
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(d: &[u8]) -> String {
    d.iter().map(|x| format!("{x:02x}")).collect()
}

fn gates() -> Value {
    let mut m = serde_json::Map::new();
    macro_rules! g { ($($n:ident),* $(,)?) => { $( m.insert((mango_v4::state::IxGate::$n as u8).to_string(), json!(stringify!($n))); )* } }
    g!(
        AccountClose, AccountCreate, AccountEdit, AccountExpand, AccountToggleFreeze, AltExtend, AltSet, FlashLoan,
        GroupClose, GroupCreate, HealthRegion, PerpCancelAllOrders, PerpCancelAllOrdersBySide, PerpCancelOrder,
        PerpCancelOrderByClientOrderId, PerpCloseMarket, PerpConsumeEvents, PerpCreateMarket, PerpDeactivatePosition,
        PerpLiqBaseOrPositivePnl, PerpLiqForceCancelOrders, PerpLiqNegativePnlOrBankruptcy, PerpPlaceOrder,
        PerpSettleFees, PerpSettlePnl, PerpUpdateFunding, Serum3CancelAllOrders, Serum3CancelOrder,
        Serum3CloseOpenOrders, Serum3CreateOpenOrders, Serum3DeregisterMarket, Serum3EditMarket,
        Serum3LiqForceCancelOrders, Serum3PlaceOrder, Serum3RegisterMarket, Serum3SettleFunds, StubOracleClose,
        StubOracleCreate, StubOracleSet, TokenAddBank, TokenDeposit, TokenDeregister, TokenLiqBankruptcy,
        TokenLiqWithToken, TokenRegister, TokenRegisterTrustless, TokenUpdateIndexAndRate, TokenWithdraw,
        AccountBuybackFeesWithMngo, TokenForceCloseBorrowsWithToken, PerpForceClosePosition,
        GroupWithdrawInsuranceFund, TokenConditionalSwapCreate, TokenConditionalSwapTrigger,
        TokenConditionalSwapCancel, OpenbookV2CancelOrder, OpenbookV2CloseOpenOrders, OpenbookV2CreateOpenOrders,
        OpenbookV2DeregisterMarket, OpenbookV2EditMarket, OpenbookV2LiqForceCancelOrders, OpenbookV2PlaceOrder,
        OpenbookV2PlaceTakeOrder, OpenbookV2RegisterMarket, OpenbookV2SettleFunds, AdminTokenWithdrawFees,
        AdminPerpWithdrawFees, AccountSizeMigration, TokenConditionalSwapStart,
        TokenConditionalSwapCreatePremiumAuction, TokenConditionalSwapCreateLinearAuction, Serum3PlaceOrderV2,
        TokenForceWithdraw, SequenceCheck, HealthCheck, GroupChangeInsuranceFund,
    );
    Value::Object(m)
}

fn is_program(k: &Pubkey, name: &str) -> bool {
    k.to_string() == name
}
/// Leaves out what only prepares or pays for the transaction; token accounts that would be
/// created exist afterwards.
pub fn aux(w: &World, ixs: Vec<Instruction>) -> Vec<Instruction> {
    ixs.into_iter()
        .filter(|ix| {
            if is_program(&ix.program_id, "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL") {
                let a = &ix.accounts;
                if w.s.get_account_data(a[1].pubkey).map_or(true, |d| d.is_empty()) {
                    w.s.set_token_account(a[1].pubkey, a[2].pubkey, a[3].pubkey, 0);
                }
                return false;
            }
            !is_program(&ix.program_id, "ComputeBudget111111111111111111111111111111")
        })
        .collect()
}

fn ask(tx: &Tx, i: usize, src: &mut Src, call: bool) -> Option<Value> {
    let ix = &tx.ixs[i];
    let name = txgen::ident(ix)?.0;
    Some(json!({
        "name": camel(name),
        "d": hex(&ix.data),
        "k": ix.accounts.iter().map(|m| json!([m.pubkey.to_string(), m.is_writable as u8, m.is_signer as u8])).collect::<Vec<_>>(),
        "v": src.below(4),
        "m": if call && src.chance(65) && !name.contains("cancel_order") { 1 + src.below(1 << 30) } else { 0 },
        "call": call,
        "w": tx.signers.first().map(|k| k.to_string()),
        "gates": gates(),
    }))
}

fn gen(src: &mut Src, m: &crate::machine::Machine, case: &mut Case) -> Option<Tx> {
    for _ in 0..4 {
        if let Some(tx) = txgen::gen(src, m) {
            return Some(tx);
        }
    }
    case.label("nothing to do");
    None
}

// ---------------------------------------------------------------- the interface description

fn idl(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = txgen::start(src);
    for _ in 0..8 {
        let Some(tx) = gen(src, &m, case) else { continue };
        let mut t = Ts::pure();
        let mut names = vec![];
        for i in 0..tx.ixs.len() {
            if let Some(q) = ask(&tx, i, src, false) {
                t.op(CALLS, q);
                names.push(i);
            }
        }
        let out = t.run()?;
        for (i, r) in names.iter().zip(out) {
            let ix = &tx.ixs[*i];
            let name = txgen::ident(ix).unwrap().0;
            let r = r.map_err(|e| format!("{name}: the client cannot read an instruction of the program: {e}"))?;
            if r["missing"] == true {
                // not part of the interface that the client ships
                ensure!(name == "benchmark" || name == "compute_account_data", "{name} is missing from the client's IDL");
                continue;
            }
            case.nontrivial = true;
            case.label(name);
            ensure!(r["used"] == r["len"], "{name}: IDL reads {} of {} bytes of arguments", r["used"], r["len"]);
            ensure!(r["again"].as_str() == Some(&hex(&ix.data)), "{name}: {} becomes {} when written again", hex(&ix.data), r["again"]);
            let metas = r["metas"].as_array().unwrap();
            ensure!(metas.len() <= ix.accounts.len(), "{name}: IDL lists {} accounts of {}", metas.len(), ix.accounts.len());
            for (d, m) in metas.iter().zip(&ix.accounts) {
                let skip = d[3] == 1 && m.pubkey == mango_v4::id()
                    // built by hand here; whoever pays for the transaction is writable anyway
                    || name == "alt_extend" && d[0] == "payer";
                ensure!(
                    skip || (d[1] == 1) == m.is_writable && (d[2] == 1) == m.is_signer,
                    "{name}: account {} is writable/signer {}/{} in the IDL, {}/{} in the program",
                    d[0], d[1], d[2], m.is_writable, m.is_signer
                );
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the same instruction, built by the client

pub fn diff(a: &BTreeMap<Pubkey, crate::sim::Acc>, b: &BTreeMap<Pubkey, crate::sim::Acc>) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        let (x, y) = (a.get(k), b.get(k));
        let gone = |z: Option<&crate::sim::Acc>| z.map_or(true, |z| z.lamports == 0 && z.data.is_empty());
        if x != y && !(gone(x) && gone(y)) {
            let at = match (x, y) {
                (Some(x), Some(y)) => format!(
                    "{} / {} lamports, {} / {} bytes, first difference at {:?}",
                    x.lamports, y.lamports, x.data.len(), y.data.len(),
                    x.data.iter().zip(&y.data).position(|(a, b)| a != b)
                ),
                (Some(_), None) => "missing".into(),
                _ => "additional".into(),
            };
            return Some(format!("{k}: {at}"));
        }
    }
    None
}

/// Runs both; Ok(false) if the reference itself is refused.
pub fn compare(base: &World, reference: &[Instruction], client: &[Instruction], signers: &[Pubkey]) -> Result<bool, String> {
    let (r, c) = (base.fork(), base.fork());
    if !r.replay(reference, signers) {
        return Ok(false);
    }
    ensure!(c.replay(client, signers), "the client's transaction fails: {}", c.fail_text());
    match diff(&r.raw_state(), &c.raw_state()) {
        Some(d) => Err(format!("the client's transaction has another effect: {d}")),
        None => Ok(true),
    }
}

fn calls(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = txgen::start(src);
    for _ in 0..3 {
        let Some(tx) = gen(src, &m, case) else { continue };
        let mut t = Ts::with(&tx.base, &[], &[], tx.signers.first().copied().unwrap_or_default());
        if let Some(ix) = tx.ixs.iter().find(|ix| txgen::ident(ix).map(|x| x.0) == Some("group_close")) {
            t.set("group", json!(ix.accounts[0].pubkey.to_string()));
        }
        let mut idx = vec![];
        for i in 0..tx.ixs.len() {
            if let Some(q) = ask(&tx, i, src, true) {
                t.op(CALLS, q);
                idx.push(i);
            }
        }
        let out = match t.run() {
            Ok(x) => x,
            Err(e) => {
                if std::env::var("TXGEN_DEBUG").is_ok() {
                    eprintln!("{} not loadable: {e}", tx.what);
                }
                case.note(|| e);
                case.label("group not loadable");
                continue;
            }
        };
        for (i, r) in idx.into_iter().zip(out) {
            let name = txgen::ident(&tx.ixs[i]).unwrap().0;
            let r = r.map_err(|e| format!("{name} ({}): {e}", tx.what))?;
            if r.get("ixs").map_or(true, |x| x.is_null()) {
                if let Some(s) = r["skip"].as_str() {
                    case.label("asked for something the call cannot express");
                    if std::env::var("TXGEN_DEBUG").is_ok() {
                        eprintln!("{name} skipped: {s}");
                    }
                }
                continue;
            }
            let ixs = aux(&tx.base, r["ixs"].as_array().unwrap().iter().map(ix_of).collect());
            let at = ixs.iter().position(|x| x.program_id == mango_v4::id());
            let at = at.unwrap_or(0);
            let wallet = key(&r["wallet"]);
            let mut signers = tx.signers.clone();
            signers.push(wallet);
            tx.base.put_wallet(wallet);
            let mut mine = tx.ixs[i].clone();
            for s in r["subst"].as_array().unwrap() {
                let (j, k) = (s[0].as_u64().unwrap() as usize, key(&s[1]));
                if j < mine.accounts.len() {
                    mine.accounts[j].pubkey = k;
                    if mine.accounts[j].is_signer {
                        signers.push(k);
                    }
                }
            }
            // accounts that the client creates with keys of its own
            for x in &ixs[..at] {
                signers.extend(x.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey));
            }
            if let Some(d) = r["data"].as_str() {
                mine.data = unhex(d);
            }
            if name == "serum3_place_order" {
                // the first version need not say that the receiving bank is writable
                for m in mine.accounts.iter_mut().skip(18) {
                    m.is_writable = false;
                }
            }
            // whoever pays for the transaction is writable
            let paid = |mut x: Instruction| {
                for m in x.accounts.iter_mut() {
                    m.is_writable |= m.pubkey == wallet && m.is_signer;
                }
                x
            };
            let ixs: Vec<Instruction> = ixs.into_iter().map(paid).collect();
            let (mut a, mut b) = (vec![], vec![]);
            for (j, ix) in tx.ixs.iter().enumerate() {
                if j == i {
                    a.extend(ixs[..at].iter().cloned());
                    a.push(mine.clone());
                    b.extend(ixs.iter().cloned());
                } else {
                    a.push(ix.clone());
                    b.push(ix.clone());
                }
            }
            if let Some(e) = r["err"].as_str() {
                // refusing to build something is fine if the program refuses it as well
                ensure!(!tx.base.fork().replay(&a, &signers), "{name} ({}): the client refuses: {e}; asked: {}", tx.what, r["args"]);
                case.label("refused by both");
                continue;
            }
            match compare(&tx.base, &a, &b, &signers) {
                Ok(true) => {
                    case.nontrivial = true;
                    case.label(name);
                }
                Ok(false) => {
                    case.label("not comparable");
                    if std::env::var("TXGEN_DEBUG").is_ok() {
                        eprintln!("{name} not comparable");
                    }
                }
                Err(e) => {
                    if std::env::var("TXGEN_DEBUG").is_ok() {
                        eprintln!("built: {ixs:?}\nwant: {mine:?}");
                    }
                    return Err(format!("{name} ({}): {e}; asked: {}, built {}", tx.what, r["args"], ixs.iter().map(|x| format!("{}..{} accounts", hex(&x.data), x.accounts.len())).collect::<Vec<_>>().join("; ")));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- calls that build several instructions

const OP: &str = r#"
const c = C.client, g = C.group, x = C.accs[0];
C.sent.length = 0;
C.provider.wallet.publicKey = C.K(a.w);
C.provider.publicKey = C.provider.wallet.publicKey;
const r = {};
switch (a.op) {
  case 'tcs': await c.tokenConditionalSwapCancelAll(g, x); break;
  case 'settle': await c.settleAll(c, g, x, C.accs); break;
  case 'close': await c.perpCloseAll(g, x, a.slip); break;
  case 'empty': await c.emptyAndCloseMangoAccount(g, x); break;
  case 'perp': {
    const s = a.bid ? C.perp.PerpOrderSide.bid : C.perp.PerpOrderSide.ask;
    await c.modifyPerpOrder(g, x, a.p, C.N(a.id), s, a.price, a.qty, undefined, a.cid);
    break;
  }
  case 'modify':
  case 'place': {
    const s = a.bid ? C.serum3.Serum3Side.bid : C.serum3.Serum3Side.ask;
    const t = [s, a.price, a.qty, C.serum3.Serum3SelfTradeBehavior.decrementTake, C.serum3.Serum3OrderType.limit, a.cid, 10];
    if (a.op === 'place') await c.serum3PlaceOrder(g, x, C.K(a.m), ...t);
    else await c.modifySerum3Order(g, C.N(a.id), x, C.K(a.m), ...t);
    break;
  }
  case 'events': await c.perpConsumeAllEvents(g, a.p); break;
  case 'stale': await c.tokenWithdrawAllDepositForAllUnconfidentOrStaleOracles(g, x); break;
  case 'oos': r.oos = (await x.loadSerum3OpenOrdersAccounts(c)).map((o) => [o.address, o.market]); break;
}
r.ixs = C.sent.slice();
return r;
"#;

/// Asks the client; the transaction it would send.
fn op(w: &World, accs: &[Pubkey], extra: &[Pubkey], wallet: Pubkey, mut a: Value) -> Result<Value, String> {
    let mut t = Ts::with(w, &[], extra, wallet);
    t.set("accs", json!(accs.iter().map(|k| k.to_string()).collect::<Vec<_>>()));
    a["w"] = json!(wallet.to_string());
    t.op(OP, a);
    t.run()?.remove(0)
}
fn sent(w: &World, v: &Value, wallet: Pubkey) -> Vec<Instruction> {
    let mut ixs = aux(w, v["ixs"].as_array().unwrap().iter().map(ix_of).collect());
    for ix in &mut ixs {
        for m in &mut ix.accounts {
            m.is_writable |= m.pubkey == wallet && m.is_signer;
        }
    }
    ixs
}

/// (some instructions cannot even be put together)
fn go<CI: ClientInstruction>(w: &World, ix: CI) -> bool {
    crate::sim::catch(|| w.ok(ix)).unwrap_or(false)
}
struct Ref {
    w: World,
    ok: bool,
}
impl Ref {
    fn new(w: &World) -> Self {
        Ref { w: w.fork(), ok: true }
    }
    fn go<CI: ClientInstruction>(&mut self, ix: CI) {
        self.ok = self.ok && go(&self.w, ix);
    }
}
/// The client's transaction has to do what the single steps do one after the other.
fn same(what: &str, base: &World, r: &Ref, v: &Value, wallet: Pubkey, case: &mut Case) -> Result<(), String> {
    // (the steps create no token accounts)
    let c = base.fork();
    let ixs = sent(&c, v, wallet);
    for ix in &ixs {
        for m in ix.accounts.iter().filter(|m| m.is_signer) {
            ensure!(m.pubkey == wallet, "{what}: somebody else has to sign: {}", m.pubkey);
        }
    }
    let ok = c.replay(&ixs, &[wallet]);
    if !r.ok {
        // the single steps are refused; the transaction as a whole may pass only with checks at its end
        case.label("steps refused");
        return Ok(());
    }
    ensure!(ok, "{what}: the client's transaction fails: {}", c.fail_text());
    if let Some(d) = diff(&r.w.raw_state(), &c.raw_state()) {
        if std::env::var("TXGEN_DEBUG").is_ok() {
            eprintln!("{what} built {ixs:?}\nlast step {:?}", r.w.last_tx().0);
        }
        return Err(format!("{what}: the client's transaction has another effect: {d}"));
    }
    case.nontrivial = true;
    Ok(())
}

fn ops(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let m = txgen::start(src);
    let w = &m.w;
    for _ in 0..src.below(8) {
        let s = w.snap();
        m.step(src, &s);
    }
    for _ in 0..2 {
        one(src, w, case)?;
    }
    Ok(())
}

fn one(src: &mut Src, w: &World, case: &mut Case) -> Result<(), String> {
    let a = 1 + src.idx(3);
    let who = w.accs[a];
    let wallet = who.owner.pubkey();
    w.put_wallet(wallet);
    let payer = w.users[3].key;
    for _ in 0..src.below(5) {
        // (leaves holes)
        let (market, x) = (w.spots[src.idx(2)].market, src.below(6));
        if x < 4 {
            go(w, Serum3CreateOpenOrdersInstruction { account: who.key, serum_market: market, owner: who.owner, payer });
        } else if x < 6 {
            go(w, Serum3CloseOpenOrdersInstruction { account: who.key, serum_market: market, owner: who.owner, sol_destination: wallet });
        }
    }
    let all: Vec<Pubkey> = std::iter::once(who.key).chain(w.accs.iter().map(|x| x.key).filter(|k| *k != who.key)).collect();
    let spot = |n: usize| w.spots[n].cookie.market;
    match src.below(10) {
        0 => {
            // conditional swaps, with gaps between them
            case.label("conditional swaps cancelled");
            for _ in 0..src.below(5) {
                let (b, s) = (src.idx(5), src.idx(5));
                if b != s {
                    go(w, TokenConditionalSwapCreateInstruction {
                        account: who.key,
                        owner: who.owner,
                        buy_mint: w.mints[b].pubkey,
                        sell_mint: w.mints[s].pubkey,
                        max_buy: 1 + src.log(1_000_000),
                        max_sell: 1 + src.log(1_000_000),
                        price_lower_limit: 0.0,
                        price_upper_limit: 1e9,
                        price_premium_rate: 0.01,
                        allow_creating_deposits: true,
                        allow_creating_borrows: true,
                    });
                }
            }
            let live = |w: &World| -> Vec<(u8, u64)> {
                let acc = w.acc(a);
                acc.all_token_conditional_swaps()
                    .enumerate()
                    .filter(|(_, t)| t.is_configured())
                    .map(|(i, t)| (i as u8, t.id))
                    .collect()
            };
            let cancel = |(index, id): (u8, u64)| TokenConditionalSwapCancelInstruction { account: who.key, owner: who.owner, index, id };
            for x in live(w) {
                if src.chance(30) {
                    go(w, cancel(x));
                }
            }
            let v = op(w, &[who.key], &[], wallet, json!({"op": "tcs"}))?;
            let mut r = Ref::new(w);
            for x in live(w) {
                r.go(cancel(x));
            }
            same("tokenConditionalSwapCancelAll", w, &r, &v, wallet, case)?;
        }
        1 => {
            case.label("everything settled");
            let p = src.idx(2);
            if src.chance(70) {
                let b = src.pick(&[4usize, 1, 2, 3]);
                if a != b {
                    let q = src.f(-1e6, 1e6).round();
                    w.grant_perp(p, a, b, src.pick(&[0, 100]), num(q));
                }
            }
            if src.bool() {
                w.edit_perp(p, |x| x.fees_accrued = num(5000));
            }
            let v = match op(w, &all, &[], wallet, json!({"op": "settle"})) {
                Ok(v) => v,
                Err(e) => return Err(format!("settleAll: {e}")),
            };
            let mut r = Ref::new(w);
            for ix in sent(&w.fork(), &v, wallet) {
                let at = |n: usize| ix.accounts[n].pubkey;
                match txgen::ident(&ix).map(|x| x.0) {
                    Some("perp_settle_pnl") => {
                        let p = (0..2).find(|p| w.perps[*p].key == at(3)).ok_or("settleAll: unknown market")?;
                        let (x, y) = (at(4), at(5));
                        ensure!(at(1) == who.key && (x == who.key) != (y == who.key), "settleAll: settles {x} against {y} for {}", who.key);
                        let u = w.ppos(a, p).unsettled_pnl(&w.perp(p), num(w.perp_price(p))).unwrap();
                        ensure!(f(u).abs() < 1.0 || (u > 0) == (x == who.key), "settleAll: pnl {u} of market {p}, but {x} is to profit");
                        r.go(PerpSettlePnlInstruction { settler: who.key, settler_owner: who.owner, account_a: x, account_b: y, perp_market: at(3) });
                    }
                    Some("perp_settle_fees") => {
                        ensure!(at(2) == who.key, "settleAll: settles fees of {}", at(2));
                        r.go(PerpSettleFeesInstruction { account: who.key, perp_market: at(1), max_settle_amount: u64::MAX });
                    }
                    Some("serum3_settle_funds_v2") => r.go(Serum3SettleFundsV2Instruction { account: who.key, owner: who.owner, serum_market: at(4), fees_to_dao: true }),
                    n => return Err(format!("settleAll: unexpected {n:?}")),
                }
            }
            let spots = w.acc(a).active_serum3_orders().count();
            let n = sent(&w.fork(), &v, wallet).iter().filter(|ix| txgen::ident(ix).map(|x| x.0) == Some("serum3_settle_funds_v2")).count();
            ensure!(n == spots, "settleAll: settles {n} of {spots} spot markets");
            same("settleAll", w, &r, &v, wallet, case)?;
        }
        2 => {
            case.label("perp positions closed");
            let before: Vec<i64> = (0..2).map(|p| w.ppos(a, p).base_position_lots()).collect();
            // somebody offers to take the other side at a little over the price
            for p in 0..2 {
                if before[p] == 0 {
                    continue;
                }
                let side = if before[p] > 0 { Side::Bid } else { Side::Ask };
                let lots = w.perp_price(p) * w.perps[p].base_lot as f64 / w.perps[p].quote_lot as f64;
                go(w, PerpPlaceOrderInstruction {
                    price_lots: (lots * if before[p] > 0 { 0.995 } else { 1.005 }).round() as i64,
                    max_base_lots: before[p].abs() * 2,
                    ..w.order_ix(LIQOR, p, side)
                });
            }
            let slip = src.pick(&[0.01, 0.02, 0.05]);
            let v = match op(w, &[who.key], &[], wallet, json!({"op": "close", "slip": slip})) {
                Ok(v) => v,
                Err(e) => {
                    ensure!(e.contains("No perp positions"), "perpCloseAll: {e}");
                    ensure!(w.acc(a).active_perp_positions().count() == 0, "perpCloseAll: {e}");
                    return Ok(());
                }
            };
            let c = w.fork();
            let ixs = sent(&c, &v, wallet);
            let mut seen = vec![];
            for ix in &ixs {
                match txgen::ident(ix).map(|x| x.0) {
                    Some("perp_place_order_v2") => {
                        let p = (0..2).find(|p| w.perps[*p].key == ix.accounts[3].pubkey).ok_or("perpCloseAll: unknown market")?;
                        seen.push(p);
                        let d = &ix.data[8..];
                        let i = |n: usize| i64::from_le_bytes(d[n..n + 8].try_into().unwrap());
                        let lots = w.perp_price(p) * w.perps[p].base_lot as f64 / w.perps[p].quote_lot as f64;
                        let want = lots * if before[p] > 0 { 1.0 - slip } else { 1.0 + slip };
                        ensure!((i(1) as f64 - want).abs() <= 1.0 + want * 1e-9, "perpCloseAll: limit {} lots, expected {want}", i(1));
                        ensure!(d[0] == (before[p] > 0) as u8, "perpCloseAll: side {} for a position of {}", d[0], before[p]);
                        ensure!(i(9) >= before[p].abs(), "perpCloseAll: {} lots for a position of {}", i(9), before[p]);
                    }
                    Some("health_region_begin" | "health_region_end") => (),
                    n => return Err(format!("perpCloseAll: unexpected {n:?}")),
                }
            }
            for p in 0..2 {
                ensure!(before[p] == 0 || seen.contains(&p), "perpCloseAll: leaves market {p} with {} lots", before[p]);
            }
            if !c.replay(&ixs, &[wallet]) {
                let t = c.fail_text();
                if std::env::var("TXGEN_DEBUG").is_ok() {
                    eprintln!("close: {t}");
                }
                // what the program refuses for the state of the account or the market
                let mut r = Ref::new(w);
                for p in 0..2 {
                    if before[p] != 0 {
                        r.go(PerpPlaceOrderInstruction {
                            price_lots: 1,
                            max_base_lots: 1,
                            ..w.order_ix(a, p, if before[p] > 0 { Side::Ask } else { Side::Bid })
                        });
                    }
                }
                case.label("closing refused");
                let _ = r;
                return Ok(());
            }
            for p in 0..2 {
                let x = c.ppos(a, p);
                let left = x.base_position_lots() + x.taker_base_lots;
                let was = w.ppos(a, p).base_position_lots() + w.ppos(a, p).taker_base_lots;
                ensure!(left == 0 || left.signum() == was.signum() && left.abs() <= was.abs(), "perpCloseAll: {was} lots became {left}");
                if left != 0 {
                    case.label("part of a position left");
                }
            }
            case.nontrivial = true;
        }
        3 => {
            case.label("account emptied and closed");
            let num = 9 + src.below(3) as u32;
            let key = Pubkey::find_program_address(&[b"MangoAccount", w.group.as_ref(), wallet.as_ref(), &num.to_le_bytes()], &mango_v4::id()).0;
            go(w, AccountCreateInstruction {
                account_num: num,
                token_count: 4,
                serum3_count: 2,
                perp_count: 2,
                perp_oo_count: 4,
                token_conditional_swap_count: 2,
                group: w.group,
                owner: who.owner,
                payer,
            });
            for _ in 0..1 + src.below(3) {
                let t = src.idx(5);
                let n = 1 + src.log(1_000_000);
                let from = w.user_token(who.user, t);
                w.s.set_token_account(from, wallet, w.mints[t].pubkey, 10_000_000);
                go(w, TokenDepositInstruction {
                    amount: n,
                    reduce_only: false,
                    account: key,
                    owner: who.owner,
                    token_account: from,
                    token_authority: who.owner,
                    bank_index: 0,
                });
            }
            for n in 0..2 {
                if src.chance(40) {
                    go(w, Serum3CreateOpenOrdersInstruction { account: key, serum_market: w.spots[n].market, owner: who.owner, payer });
                }
            }
            for p in 0..2 {
                if src.chance(40) {
                    let lots = (w.perp_price(p) * w.perps[p].base_lot as f64 / w.perps[p].quote_lot as f64) as i64;
                    go(w, PerpPlaceOrderInstruction { account: key, price_lots: 1 + lots / 2, max_base_lots: 1, ..w.order_ix(a, p, Side::Bid) });
                    go(w, PerpCancelAllOrdersInstruction { account: key, perp_market: w.perps[p].key, owner: who.owner, limit: 10 });
                }
            }
            let v = op(w, &[key], &[], wallet, json!({"op": "empty"}))?;
            let mut r = Ref::new(w);
            let held = |w: &World| -> Option<MangoAccountValue> {
                let d = w.s.get_account_data(key)?;
                (d.len() > 8).then(|| MangoAccountValue::from_bytes(&d[8..]).unwrap())
            };
            let acc = held(w).ok_or("harness: no account")?;
            for o in acc.active_serum3_orders() {
                let s = w.spots.iter().find(|s| w.s.get_account::<mango_v4::state::Serum3Market>(s.market).market_index == o.market_index).unwrap();
                r.go(Serum3CloseOpenOrdersInstruction { account: key, serum_market: s.market, owner: who.owner, sol_destination: wallet });
            }
            for p in acc.active_perp_positions() {
                let x = w.perps.iter().find(|x| x.index == p.market_index).unwrap();
                r.go(PerpDeactivatePositionInstruction { account: key, perp_market: x.key, owner: who.owner });
            }
            while r.ok {
                let acc = held(&r.w).unwrap();
                let Some(p) = acc.active_token_positions().next().copied() else { break };
                let t = w.tokens.iter().position(|t| t.index == p.token_index).unwrap();
                r.go(TokenWithdrawInstruction { amount: u64::MAX, allow_borrow: false, account: key, owner: who.owner, token_account: w.user_token(who.user, t), bank_index: 0 });
            }
            r.go(AccountCloseInstruction { group: w.group, account: key, owner: who.owner, sol_destination: wallet });
            same("emptyAndCloseMangoAccount", w, &r, &v, wallet, case)?;
        }
        4 => {
            case.label("perp order replaced");
            let p = src.idx(2);
            let bid = src.bool();
            let lots = (w.perp_price(p) * w.perps[p].base_lot as f64 / w.perps[p].quote_lot as f64) as i64;
            let px = if bid { 1 + lots / 2 } else { lots * 2 };
            let ix = PerpPlaceOrderInstruction { price_lots: px, max_base_lots: 1 + src.below(5) as i64, ..w.order_ix(a, p, if bid { Side::Bid } else { Side::Ask }) };
            if !go(w, ix) {
                case.label("order refused");
                return Ok(());
            }
            let acc = w.acc(a);
            let os: Vec<u128> = acc.all_perp_orders().filter(|o| o.market == w.perps[p].index).map(|o| o.id).collect();
            if os.is_empty() {
                return Ok(());
            }
            let id = os[src.idx(os.len())];
            let (nl, nb) = (if bid { px - src.below(px as u64 / 4 + 1) as i64 } else { px + src.below(1000) as i64 }, 1 + src.below(9) as i64);
            let (bl, ql) = (w.perps[p].base_lot as f64, w.perps[p].quote_lot as f64);
            let bd = w.perp(p).base_decimals as i32;
            let price = nl as f64 * ql / bl * 10f64.powi(bd - 6);
            let qty = nb as f64 * bl / 10f64.powi(bd);
            // (in the middle of a lot)
            let price = price + 0.5 * ql / bl * 10f64.powi(bd - 6);
            let qty = qty + 0.5 * bl / 10f64.powi(bd);
            let cid = 1 + src.below(1 << 40);
            let v = op(w, &[who.key], &[], wallet, json!({"op": "perp", "p": w.perps[p].index, "id": id.to_string(), "bid": bid, "price": price, "qty": qty, "cid": cid}))?;
            let mut r = Ref::new(w);
            r.go(PerpCancelOrderInstruction { account: who.key, perp_market: w.perps[p].key, owner: who.owner, order_id: id });
            r.go(PerpPlaceOrderInstruction { price_lots: nl, max_base_lots: nb, client_order_id: cid, ..w.order_ix(a, p, if bid { Side::Bid } else { Side::Ask }) });
            same("modifyPerpOrder", w, &r, &v, wallet, case)?;
        }
        k @ (5 | 6) => {
            case.label(if k == 5 { "spot order replaced" } else { "spot order placed" });
            let n = src.idx(2);
            let sp = &w.spots[n];
            let bid = src.bool();
            let fair = w.price(sp.base) / w.price(sp.quote) * sp.cookie.coin_mint.base_lot / sp.cookie.pc_mint.quote_lot;
            let px = ((fair * if bid { 0.5 } else { 2.0 }).round() as u64).max(2);
            let order = |px: u64, qty: u64, cid: u64| Serum3PlaceOrderInstruction {
                side: if bid { Serum3Side::Bid } else { Serum3Side::Ask },
                limit_price: px,
                max_base_qty: qty,
                // what the client reserves: the amount with the fee of a taker
                max_native_quote_qty_including_fees: ((px * qty) as f64 * sp.cookie.pc_mint.quote_lot * 1.0004).ceil() as u64,
                self_trade_behavior: Serum3SelfTradeBehavior::DecrementTake,
                order_type: Serum3OrderType::Limit,
                client_order_id: cid,
                limit: 10,
                account: who.key,
                owner: who.owner,
                serum_market: sp.market,
            };
            let ui = |px: u64, qty: u64| {
                let (bd, qd) = (10f64.powi(sp.cookie.coin_mint.decimals as i32), 10f64.powi(sp.cookie.pc_mint.decimals as i32));
                let (bl, ql) = (sp.cookie.coin_mint.base_lot, sp.cookie.pc_mint.quote_lot);
                ((px as f64 + 0.2) * ql / bl * bd / qd, (qty as f64 + 0.5) * bl / bd)
            };
            let (nq, cid) = (1 + src.below(9), 1 + src.below(1 << 40));
            let (price, qty) = ui(px, nq);
            let settle = || Serum3SettleFundsV2Instruction { account: who.key, owner: who.owner, serum_market: sp.market, fees_to_dao: true };
            let create = Serum3CreateOpenOrdersInstruction { account: who.key, serum_market: sp.market, owner: who.owner, payer };
            let mut q = json!({"op": "place", "m": sp.cookie.market.to_string(), "bid": bid, "price": price, "qty": qty, "cid": cid});
            let has = |w: &World| w.acc(a).active_serum3_orders().any(|o| o.market_index == w.s.get_account::<mango_v4::state::Serum3Market>(sp.market).market_index);
            let mut r;
            if k == 5 {
                if !has(w) {
                    go(w, create);
                }
                if !go(w, order(px, 1 + src.below(5), 77)) {
                    case.label("order refused");
                    return Ok(());
                }
                let id = crate::dex::read_book(&w.s.get_account_data(if bid { sp.cookie.bids } else { sp.cookie.asks }).unwrap()).into_iter().find(|o| o.client_id == 77).map(|o| o.id);
                let Some(id) = id else { return Ok(()) };
                q["op"] = json!("modify");
                q["id"] = json!(id.to_string());
                r = Ref::new(w);
                r.go(Serum3CancelOrderInstruction { side: if bid { Serum3Side::Bid } else { Serum3Side::Ask }, order_id: id, account: who.key, owner: who.owner, serum_market: sp.market });
                r.go(settle());
                r.go(order(px, nq, cid));
            } else {
                r = Ref::new(w);
                if !has(w) {
                    case.label("open orders account created on the way");
                    // the client lets the owner pay
                    r.go(Serum3CreateOpenOrdersInstruction { payer: who.owner, ..create });
                }
                r.go(order(px, nq, cid));
                r.go(settle());
            }
            let v = op(w, &[who.key], &[], wallet, q)?;
            same(if k == 5 { "modifySerum3Order" } else { "serum3PlaceOrder" }, w, &r, &v, wallet, case)?;
        }
        7 => {
            case.label("events consumed");
            let p = src.idx(2);
            let lots = (w.perp_price(p) * w.perps[p].base_lot as f64 / w.perps[p].quote_lot as f64) as i64;
            for _ in 0..src.below(14) {
                let (x, y) = (src.pick(&[1usize, 2, 3, 4]), src.pick(&[2usize, 3, 4, 5]));
                let n = 1 + src.below(4) as i64;
                go(w, PerpPlaceOrderInstruction { price_lots: lots, max_base_lots: n, ..w.order_ix(x, p, Side::Bid) });
                go(w, PerpPlaceOrderInstruction { price_lots: lots, max_base_lots: n, ..w.order_ix(y, p, Side::Ask) });
            }
            let queue = w.s.get_account_boxed::<EventQueue>(w.perps[p].event_queue);
            let n = queue.header.count();
            let v = op(w, &[who.key], &[w.perps[p].event_queue], wallet, json!({"op": "events", "p": w.perps[p].index}))?;
            let c = w.fork();
            let ixs = sent(&c, &v, wallet);
            // every transaction on its own
            for ix in &ixs {
                ensure!(c.replay(&[ix.clone()], &[wallet]), "perpConsumeAllEvents: {}", c.fail_text());
            }
            let left = c.s.get_account_boxed::<EventQueue>(w.perps[p].event_queue).header.count();
            ensure!(left == 0, "perpConsumeAllEvents: {left} of {n} events left");
            case.nontrivial = n > 0;
            if n > 8 {
                case.label("more than one batch of events");
            }
        }
        8 => {
            case.label("stale deposits withdrawn");
            for t in 1..5 {
                if src.chance(30) {
                    w.edit_token(t, |b| {
                        b.oracle_config.conf_filter = num(0.001);
                        b.oracle_config.max_staleness_slots = 1;
                    });
                }
            }
            w.s.sim.borrow_mut().clock.slot += src.below(6);
            let v = op(w, &[who.key], &[], wallet, json!({"op": "stale"}));
            let mut r = Ref::new(w);
            let slot = w.s.clock().slot;
            let acc = w.acc(a);
            let mut n = 0;
            for t in 0..5 {
                let b = w.tbank(t);
                let stale = {
                    let o = w.s.get_account::<mango_v4::state::StubOracle>(w.tokens[t].oracle);
                    b.oracle_config.max_staleness_slots >= 0 && o.last_update_slot + (b.oracle_config.max_staleness_slots as u64) < slot
                        || o.deviation > b.oracle_config.conf_filter * o.price
                };
                let held = acc.active_token_positions().any(|x| x.token_index == w.tokens[t].index) && f(w.pos(a, t)) > 0.0;
                // (dust that the client displays as nothing)
                if stale && held {
                    n += 1;
                    r.go(w.withdraw_ix(a, t, 0, u64::MAX, false));
                }
            }
            match v {
                Ok(v) => same("tokenWithdrawAllDepositForAllUnconfidentOrStaleOracles", w, &r, &v, wallet, case)?,
                Err(e) => ensure!(n == 0, "tokenWithdrawAllDepositForAllUnconfidentOrStaleOracles: {e}; {n} tokens are stale"),
            }
        }
        _ => {
            case.label("open orders accounts read");
            let want: BTreeMap<String, String> = w
                .acc(a)
                .active_serum3_orders()
                .map(|o| {
                    let s = w.spots.iter().find(|s| w.s.get_account::<mango_v4::state::Serum3Market>(s.market).market_index == o.market_index).unwrap();
                    (o.open_orders.to_string(), s.cookie.market.to_string())
                })
                .collect();
            let v = op(w, &[who.key], &[], wallet, json!({"op": "oos"}))?;
            let got: BTreeMap<String, String> = v["oos"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().into(), x[1].as_str().unwrap().into())).collect();
            ensure!(want == got, "loadSerum3OpenOrdersAccounts: {got:?}, on chain {want:?}");
            case.nontrivial = !want.is_empty();
            let _ = spot;
        }
    }
    Ok(())
}
