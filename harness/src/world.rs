//! A randomised Mango group on the simulator: shared fixture, direct state editing to reach
//! arbitrary reachable-looking starting states, and decoded snapshots.
use crate::pbt::Src;
use crate::pt::compat::transaction::TransactionError;
use crate::pt::*;
use crate::sim::Acc;
use fixed::types::I80F48;
use mango_v4::state::*;
use solana_program::instruction::InstructionError;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

pub use crate::pt::mango_setup::Token;

#[derive(Clone)]
pub struct Perp {
    pub key: Pubkey,
    pub index: u16,
    pub oracle: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub event_queue: Pubkey,
    pub base_lot: i64,
    pub quote_lot: i64,
}

#[derive(Clone, Copy)]
pub struct Who {
    pub key: Pubkey,
    pub owner: TestKeypair,
    pub user: usize,
}

#[derive(Clone)]
pub struct Spot {
    pub market: Pubkey, // mango Serum3Market
    pub cookie: SpotMarketCookie,
    pub base: usize,
    pub quote: usize,
}

/// The parts shared by every case of a thread.
#[derive(Clone)]
pub struct Fix {
    pub group: Pubkey,
    pub admin: TestKeypair,
    pub insurance_vault: Pubkey,
    pub tokens: Vec<Token>,
    pub perps: Vec<Perp>,
    pub accs: Vec<Who>,
    pub users: Vec<UserCookie>,
    pub mints: Vec<MintCookie>,
    pub spots: Vec<Spot>,
    pub serum_program: Pubkey,
}

#[derive(Clone)]
pub struct World {
    pub s: Arc<SolanaCookie>,
    pub f: Rc<Fix>,
    pub keys: u64,
}

impl std::ops::Deref for World {
    type Target = Fix;
    fn deref(&self) -> &Fix {
        &self.f
    }
}

pub const WHALE: usize = 0;
pub const LIQOR: usize = 4;
pub const N_ACC: usize = 6;

thread_local! {
    static BASE: RefCell<Option<(Arc<SolanaCookie>, Rc<Fix>, u64)>> = RefCell::new(None);
}

fn build() -> (Arc<SolanaCookie>, Rc<Fix>) {
    let mut b = TestContextBuilder::new();
    b.decimals = vec![6, 9, 5, 6, 8, 6];
    let ctx = b.start_default();
    let s = ctx.solana.clone();
    s.sim.borrow_mut().keep_logs = false;
    let admin = TestKeypair::new();
    let payer = ctx.users[3].key;
    let mut prices = std::collections::HashMap::new();
    for (i, p) in [1.0, 0.02, 300.0, 0.02, 1.5].iter().enumerate() {
        prices.insert(ctx.mints[i].pubkey, *p);
    }
    let g = mango_setup::GroupWithTokensConfig {
        admin,
        payer,
        mints: ctx.mints[..5].to_vec(),
        prices,
        zero_token_is_quote: true,
    }
    .create(&s);
    let mut perps = vec![];
    for (i, tok, base_lot, quote_lot) in [(0u16, 1usize, 10_000i64, 10i64), (1, 2, 10, 100)] {
        let oracle = send_tx(
            &s,
            StubOracleCreate {
                oracle: TestKeypair::new(),
                group: g.group,
                mint: g.tokens[tok].mint.pubkey,
                admin,
                payer,
            },
        )
        .unwrap()
        .oracle;
        send_tx(
            &s,
            StubOracleSetInstruction {
                group: g.group,
                admin,
                mint: g.tokens[tok].mint.pubkey,
                price: if tok == 1 { 0.02 } else { 300.0 },
                oracle,
            },
        )
        .unwrap();
        let mut ix = PerpCreateMarketInstruction::with_new_book_and_queue(&s, &g.tokens[tok]);
        ix.oracle = oracle;
        ix.group = g.group;
        ix.admin = admin;
        ix.payer = payer;
        ix.perp_market_index = i;
        ix.quote_lot_size = quote_lot;
        ix.base_lot_size = base_lot;
        ix.maint_base_asset_weight = 0.975;
        ix.init_base_asset_weight = 0.95;
        ix.maint_base_liab_weight = 1.025;
        ix.init_base_liab_weight = 1.05;
        ix.maint_overall_asset_weight = 1.0;
        ix.init_overall_asset_weight = 1.0;
        ix.base_liquidation_fee = 0.012;
        ix.positive_pnl_liquidation_fee = 0.012;
        ix.maker_fee = -0.0001;
        ix.taker_fee = 0.0002;
        ix.settle_pnl_limit_factor = -1.0;
        ix.settle_pnl_limit_window_size_ts = 24 * 60 * 60;
        let (bids, asks, event_queue) = (ix.bids, ix.asks, ix.event_queue);
        let key = send_tx(&s, ix).unwrap().perp_market;
        let mut pm = *s.get_account_boxed::<PerpMarket>(key);
        pm.name[2] = b'0' + i as u8; // unique names
        s.set_account(key, &pm);
        perps.push(Perp {
            key,
            index: i,
            oracle,
            bids,
            asks,
            event_queue,
            base_lot,
            quote_lot,
        });
    }
    let mut spots = vec![];
    for (base, quote, idx) in [(1usize, 0usize, 0u16), (2, 1, 1)] {
        let cookie = ctx
            .serum
            .list_spot_market(&ctx.mints[base], &ctx.mints[quote]);
        let market = send_tx(
            &s,
            Serum3RegisterMarketInstruction {
                group: g.group,
                admin,
                serum_program: ctx.serum.program_id,
                serum_market_external: cookie.market,
                market_index: idx,
                base_bank: g.tokens[base].bank,
                quote_bank: g.tokens[quote].bank,
                payer,
            },
        )
        .unwrap()
        .serum_market;
        let mut sm = *s.get_account_boxed::<Serum3Market>(market);
        sm.name[2] = b'0' + idx as u8;
        s.set_account(market, &sm);
        spots.push(Spot {
            market,
            cookie,
            base,
            quote,
        });
    }
    let mut accs = vec![];
    for (i, (user, num)) in [(3usize, 0u32), (0, 0), (1, 0), (2, 0), (3, 1), (3, 2)]
        .iter()
        .enumerate()
    {
        let owner = ctx.users[*user].key;
        let key = send_tx(
            &s,
            AccountCreateInstruction {
                account_num: *num,
                token_count: 8,
                serum3_count: 4,
                perp_count: 4,
                perp_oo_count: 16,
                token_conditional_swap_count: 4,
                group: g.group,
                owner,
                payer,
            },
        )
        .unwrap()
        .account;
        let _ = i;
        accs.push(Who {
            key,
            owner,
            user: *user,
        });
    }
    let f = Fix {
        group: g.group,
        admin,
        insurance_vault: g.insurance_vault,
        tokens: g.tokens,
        perps,
        accs,
        users: ctx.users.clone(),
        mints: ctx.mints.clone(),
        spots,
        serum_program: ctx.serum.program_id,
    };
    (s, Rc::new(f))
}

pub const KEY_BASE: u64 = 1_000_000;

pub fn code_of(e: &TransportError) -> Option<u32> {
    match e {
        TransportError::TransactionError(TransactionError::InstructionError(
            _,
            InstructionError::Custom(c),
        )) => Some(*c),
        _ => None,
    }
}

impl World {
    pub fn new() -> World {
        BASE.with(|b| {
            let mut b = b.borrow_mut();
            if b.is_none() {
                let (s, f) = build();
                *b = Some((s, f, 0));
            }
            let (s, f, _) = b.as_ref().unwrap();
            reset_keys(KEY_BASE);
            World {
                s: Arc::new(s.fork()),
                f: f.clone(),
                keys: 0,
            }
        })
    }

    pub fn fork(&self) -> World {
        World {
            s: Arc::new(self.s.fork()),
            f: self.f.clone(),
            keys: self.keys,
        }
    }

    // ---- sending ----
    pub fn send<CI: ClientInstruction>(&self, ix: CI) -> Result<CI::Accounts, TransportError> {
        send_tx(&self.s, ix)
    }
    pub fn ok<CI: ClientInstruction>(&self, ix: CI) -> bool {
        send_tx(&self.s, ix).is_ok()
    }
    /// the instructions and signers of the last transaction
    pub fn last_tx(&self) -> (Vec<solana_program::instruction::Instruction>, Vec<Pubkey>) {
        self.s.last_tx.borrow().clone()
    }
    /// runs a transaction recorded with last_tx()
    pub fn replay(&self, ixs: &[solana_program::instruction::Instruction], signers: &[Pubkey]) -> bool {
        self.s.process_keys(ixs, signers).unwrap().result.is_ok()
    }
    pub fn ok_raw(&self, ix: solana_program::instruction::Instruction, signers: &[TestKeypair]) -> bool {
        let r = self.s.process_transaction(&[ix], Some(signers));
        r.is_ok() && r.unwrap().result.is_ok()
    }
    /// The resting orders of a market, bids and asks, after checking the trees.
    pub fn book(&self, p: usize) -> Result<[Vec<crate::bookmodel::Order>; 2], String> {
        let b = crate::bookmodel::read(&self.s.get_account_boxed::<BookSide>(self.perps[p].bids))?;
        let a = crate::bookmodel::read(&self.s.get_account_boxed::<BookSide>(self.perps[p].asks))?;
        Ok([b, a])
    }
    pub fn fail_text(&self) -> String {
        match &*self.s.last_fail.borrow() {
            Some(f) => format!("{:?}", f.err),
            None => "ok".into(),
        }
    }
    /// True if the last failure was a crash of the program rather than an error return.
    pub fn panicked(&self) -> Option<String> {
        match &*self.s.last_fail.borrow() {
            Some(f) => match &f.err {
                crate::sim::TxErr::Panic(p) => Some(p.clone()),
                _ => None,
            },
            None => None,
        }
    }
    pub fn user_token(&self, user: usize, tok: usize) -> Pubkey {
        self.users[user].token_accounts[self.tokens[tok].mint.index]
    }
    pub fn bank_key(&self, tok: usize, n: usize) -> Pubkey {
        if n == 0 {
            self.tokens[tok].bank
        } else {
            self.tokens[tok].bank1
        }
    }
    pub fn deposit_ix(&self, a: usize, tok: usize, n: usize, amount: u64) -> TokenDepositInstruction {
        let w = self.accs[a];
        TokenDepositInstruction {
            amount,
            reduce_only: false,
            account: w.key,
            owner: w.owner,
            token_account: self.user_token(w.user, tok),
            token_authority: w.owner,
            bank_index: n,
        }
    }
    pub fn withdraw_ix(
        &self,
        a: usize,
        tok: usize,
        n: usize,
        amount: u64,
        allow_borrow: bool,
    ) -> TokenWithdrawInstruction {
        let w = self.accs[a];
        TokenWithdrawInstruction {
            amount,
            allow_borrow,
            account: w.key,
            owner: w.owner,
            token_account: self.user_token(w.user, tok),
            bank_index: n,
        }
    }
    pub fn order_ix(&self, a: usize, p: usize, side: Side) -> PerpPlaceOrderInstruction {
        let w = self.accs[a];
        PerpPlaceOrderInstruction {
            account: w.key,
            perp_market: self.perps[p].key,
            owner: w.owner,
            side,
            price_lots: 1,
            max_base_lots: 1,
            max_quote_lots: i64::MAX,
            reduce_only: false,
            client_order_id: 0,
            self_trade_behavior: SelfTradeBehavior::DecrementTake,
            limit: 10,
        }
    }

    // ---- reading ----
    pub fn bank(&self, k: Pubkey) -> Box<Bank> {
        self.s.get_account_boxed::<Bank>(k)
    }
    pub fn tbank(&self, tok: usize) -> Box<Bank> {
        self.bank(self.tokens[tok].bank)
    }
    pub fn perp(&self, p: usize) -> Box<PerpMarket> {
        self.s.get_account_boxed::<PerpMarket>(self.perps[p].key)
    }
    pub fn acc(&self, a: usize) -> MangoAccountValue {
        get_mango_account(&self.s, self.accs[a].key)
    }
    pub fn group_state(&self) -> Box<Group> {
        self.s.get_account_boxed::<Group>(self.group)
    }
    pub fn vault(&self, tok: usize, n: usize) -> u64 {
        self.s
            .token_account_balance(self.bank(self.bank_key(tok, n)).vault)
    }
    pub fn price(&self, tok: usize) -> f64 {
        f(self
            .s
            .get_account::<StubOracle>(self.tokens[tok].oracle)
            .price)
    }
    pub fn perp_price(&self, p: usize) -> f64 {
        f(self
            .s
            .get_account::<StubOracle>(self.perps[p].oracle)
            .price)
    }
    /// signed native token position
    pub fn pos(&self, a: usize, tok: usize) -> I80F48 {
        let acc = self.acc(a);
        let b = self.tbank(tok);
        let r = match acc.token_position(tok as u16) {
            Ok(p) => native(p.indexed_position, &b),
            Err(_) => I80F48::ZERO,
        };
        r
    }
    pub fn ppos(&self, a: usize, p: usize) -> PerpPosition {
        match self.acc(a).perp_position(self.perps[p].index) {
            Ok(x) => *x,
            Err(_) => PerpPosition::default(),
        }
    }
    pub fn now(&self) -> u64 {
        self.s.clock_timestamp()
    }
    pub fn advance(&self, secs: u64) {
        let mut c = self.s.clock();
        c.unix_timestamp += secs as i64;
        c.slot += (secs * 5 / 2).max(1);
        self.s.set_clock(&c);
    }

    // ---- direct edits ----
    pub fn edit_bank(&self, k: Pubkey, mut g: impl FnMut(&mut Bank)) {
        let mut b = self.bank(k);
        g(&mut b);
        self.s.set_account(k, &*b);
    }
    /// edits both banks of a token
    pub fn edit_token(&self, tok: usize, mut g: impl FnMut(&mut Bank)) {
        self.edit_bank(self.tokens[tok].bank, &mut g);
        self.edit_bank(self.tokens[tok].bank1, &mut g);
    }
    pub fn edit_perp(&self, p: usize, g: impl FnOnce(&mut PerpMarket)) {
        let mut b = self.perp(p);
        g(&mut b);
        self.s.set_account(self.perps[p].key, &*b);
    }
    pub fn edit_group(&self, g: impl FnOnce(&mut Group)) {
        let mut b = self.group_state();
        g(&mut b);
        self.s.set_account(self.group, &*b);
    }
    pub fn edit_acc(&self, a: usize, g: impl FnOnce(&mut MangoAccountValue)) {
        let mut v = self.acc(a);
        g(&mut v);
        self.put_acc(self.accs[a].key, &v);
    }
    pub fn put_acc(&self, k: Pubkey, v: &MangoAccountValue) {
        let mut sim = self.s.sim.borrow_mut();
        let mut acc: Acc = sim.get(&k).unwrap().clone();
        acc.data[8..8 + 400].copy_from_slice(bytemuck::bytes_of(&v.fixed));
        acc.data[408..].copy_from_slice(&v.dynamic);
        sim.set(k, acc);
    }
    pub fn set_oracle(&self, k: Pubkey, price: f64) {
        let mut o: StubOracle = self.s.get_account(k);
        o.price = I80F48::from_num(price);
        o.last_update_ts = self.s.clock().unix_timestamp;
        o.last_update_slot = self.s.clock().slot;
        o.deviation = I80F48::ZERO;
        self.s.set_account(k, &o);
    }
    /// oracle price, optionally with the stable price
    pub fn set_price(&self, tok: usize, price: f64, stable: Option<f64>) {
        self.set_oracle(self.tokens[tok].oracle, price);
        if let Some(sp) = stable {
            let now = self.now();
            self.edit_token(tok, |b| b.stable_price_model.reset_to_price(sp, now));
        }
    }
    pub fn set_perp_price(&self, p: usize, price: f64, stable: Option<f64>) {
        self.set_oracle(self.perps[p].oracle, price);
        if let Some(sp) = stable {
            let now = self.now();
            self.edit_perp(p, |b| b.stable_price_model.reset_to_price(sp, now));
        }
    }
    pub fn set_vault(&self, k: Pubkey, amount: u64) {
        let mut sim = self.s.sim.borrow_mut();
        let mut acc: Acc = sim.get(&k).unwrap().clone();
        acc.data[64..72].copy_from_slice(&amount.to_le_bytes());
        sim.set(k, acc);
    }
    /// Gives account `a` a signed amount of a token as if deposited/borrowed through bank `n`,
    /// keeping bank totals and the vault consistent.
    pub fn grant(&self, a: usize, tok: usize, n: usize, amount: f64) {
        let bk = self.bank_key(tok, n);
        let b = self.bank(bk);
        let amt = I80F48::from_num(amount);
        let mut delta = I80F48::ZERO;
        let mut old = I80F48::ZERO;
        self.edit_acc(a, |acc| {
            let (p, _, _) = acc.ensure_token_position(tok as u16).unwrap();
            old = p.indexed_position;
            let native_before = native(old, &b);
            let total = native_before + amt;
            p.indexed_position = if total >= I80F48::ZERO {
                total / b.deposit_index
            } else {
                total / b.borrow_index
            };
            p.previous_index = if total >= I80F48::ZERO {
                b.deposit_index
            } else {
                b.borrow_index
            };
            delta = p.indexed_position;
        });
        self.edit_bank(bk, |b| {
            for (v, sign) in [(old, -1i64), (delta, 1)] {
                let s = I80F48::from_num(sign);
                if v >= I80F48::ZERO {
                    b.indexed_deposits += v * s;
                } else {
                    b.indexed_borrows -= v * s;
                }
            }
        });
        let va = self.s.token_account_balance(b.vault) as i128;
        // floor: the vault may never hold less than the books say
        let add = amt.to_num::<f64>();
        let add = if add >= 0.0 { add.ceil() } else { add.ceil() } as i128;
        self.set_vault(b.vault, (va + add).max(0) as u64);
    }
    /// Gives `long` a long and `short` a short position of `lots` with quote entry value.
    pub fn grant_perp(&self, p: usize, long: usize, short: usize, lots: i64, quote: I80F48) {
        let pm = self.perp(p);
        for (a, l, q) in [(long, lots, -quote), (short, -lots, quote)] {
            self.edit_acc(a, |acc| {
                acc.ensure_perp_position(pm.perp_market_index, pm.settle_token_index)
                    .unwrap();
                let pp = acc.perp_position_mut(pm.perp_market_index).unwrap();
                pp.base_position_lots += l;
                pp.quote_position_native += q;
                pp.quote_running_native += q.to_num::<i64>();
                pp.avg_entry_price_per_base_lot = if l != 0 {
                    (q.to_num::<f64>() / l as f64).abs()
                } else {
                    0.0
                };
                pp.long_settled_funding = pm.long_funding;
                pp.short_settled_funding = pm.short_funding;
            });
        }
        let mut oi = 0;
        for a in 0..N_ACC {
            oi += self.ppos(a, p).base_position_lots.abs();
        }
        self.edit_perp(p, |m| m.open_interest = oi);
    }

    pub fn put_oo(&self, k: Pubkey, oo: &serum_dex::state::OpenOrders) {
        let mut raw = self.s.sim.borrow().get(&k).unwrap().clone();
        let n = raw.data.len();
        raw.data[5..n - 7].copy_from_slice(bytemuck::bytes_of(oo));
        self.s.sim.borrow_mut().set(k, raw);
    }
    /// Random bank parameters for every token (both banks alike).
    pub fn random_bank_config(&self, src: &mut Src) {
        for t in 0..self.tokens.len() {
            let liab = src.f(1.0, 1.6);
            let maint_l = 1.0 + (liab - 1.0) * src.f(0.2, 1.0);
            let init_a = src.f(0.0, 1.0);
            let maint_a = init_a + (1.0 - init_a) * src.f(0.0, 1.0);
            let (maint_a, init_a, maint_l, liab) = if t == 0 {
                (1.0, 1.0, 1.0, 1.0)
            } else {
                (maint_a, init_a, maint_l, liab)
            };
            let liq_fee = src.f(0.0, 0.1);
            let plat = src.pick(&[0.0, 0.01, 0.03]);
            let lof = src.pick(&[0.0, 0.0005, 0.01]);
            let loanfee = src.pick(&[0.0, 0.0005, 0.01]);
            let di = src.pick(&[1.0, 1.0 + 1e-4, 1.37]);
            let bi = src.pick(&[1.0, 1.0 + 3e-4, 1.61]);
            let tcs_t = src.pick(&[0.0f32, 0.001, 0.02]);
            let tcs_m = src.pick(&[0.0f32, 0.0005, 0.01]);
            let swapfee = src.pick(&[0.0f32, 0.0005, 0.01]);
            self.edit_token(t, |b| {
                b.maint_asset_weight = num(maint_a);
                b.init_asset_weight = num(init_a);
                b.maint_liab_weight = num(maint_l);
                b.init_liab_weight = num(liab);
                b.liquidation_fee = num(liq_fee);
                b.platform_liquidation_fee = num(plat);
                b.loan_origination_fee_rate = num(lof);
                b.loan_fee_rate = num(loanfee);
                b.deposit_index = num::<f64>(1e6) * num(di);
                b.borrow_index = num::<f64>(1e6) * num(bi);
                b.token_conditional_swap_taker_fee_rate = tcs_t;
                b.token_conditional_swap_maker_fee_rate = tcs_m;
                b.flash_loan_swap_fee_rate = swapfee;
                b.net_borrow_limit_per_window_quote = -1;
                b.min_vault_to_deposits_ratio = 0.0;
            });
        }
    }

    /// Plentiful liquidity from an account that is not part of the scenario.
    pub fn whale_liquidity(&self) {
        for t in 0..self.tokens.len() {
            for n in 0..2 {
                self.grant(WHALE, t, n, 1e15 / (1.0 + self.price(t)));
            }
        }
    }

    pub fn snap(&self) -> Snap {
        let mut banks = vec![];
        for t in 0..self.tokens.len() {
            for n in 0..2 {
                let b = self.bank(self.bank_key(t, n));
                let v = self.s.token_account_balance(b.vault);
                banks.push((t, n, b, v));
            }
        }
        Snap {
            now: self.now(),
            banks,
            perps: (0..self.perps.len()).map(|p| self.perp(p)).collect(),
            accs: (0..self.accs.len()).map(|a| self.acc(a)).collect(),
            group: self.group_state(),
            insurance: self.s.token_account_balance(self.insurance_vault),
            tok_price: (0..self.tokens.len()).map(|t| self.price(t)).collect(),
            perp_price: (0..self.perps.len()).map(|t| self.perp_price(t)).collect(),
            wallets: self
                .users
                .iter()
                .map(|u| {
                    self.tokens
                        .iter()
                        .map(|t| self.s.token_account_balance(u.token_accounts[t.mint.index]))
                        .collect()
                })
                .collect(),
        }
    }
    /// Calls `g` with account infos over copies of the given accounts.
    pub fn with_ais<R>(
        &self,
        keys: &[Pubkey],
        g: impl FnOnce(&[solana_program::account_info::AccountInfo]) -> R,
    ) -> R {
        let mut store: Vec<(Pubkey, u64, Vec<u8>, Pubkey)> = keys
            .iter()
            .map(|k| {
                let sim = self.s.sim.borrow();
                let a = sim.get(k).unwrap();
                // 8 byte aligned copies
                (*k, a.lamports, a.data.clone(), a.owner)
            })
            .collect();
        let ais: Vec<solana_program::account_info::AccountInfo> = store
            .iter_mut()
            .map(|(k, l, d, o)| {
                solana_program::account_info::AccountInfo::new(k, false, true, l, d, o, false, 0)
            })
            .collect();
        g(&ais)
    }
    /// Health accounts of `acc` in the layout all retrievers accept; `bank_of` chooses banks.
    pub fn health_keys(&self, acc: &MangoAccountValue, bank_of: &dyn Fn(usize) -> usize) -> Vec<Pubkey> {
        let toks: Vec<usize> = acc.active_token_positions().map(|p| p.token_index as usize).collect();
        let perps: Vec<usize> = acc.active_perp_positions().map(|p| p.market_index as usize).collect();
        let mut v = vec![];
        v.extend(toks.iter().map(|t| self.bank_key(*t, bank_of(*t))));
        v.extend(toks.iter().map(|t| self.tokens[*t].oracle));
        v.extend(perps.iter().map(|p| self.perps[*p].key));
        v.extend(perps.iter().map(|p| self.perps[*p].oracle));
        v.extend(acc.active_serum3_orders().map(|o| o.open_orders));
        v
    }
    /// The program's own health cache of account `a`.
    pub fn cache(&self, a: usize, bank_of: &dyn Fn(usize) -> usize) -> Result<mango_v4::health::HealthCache, String> {
        let acc = self.acc(a);
        let keys = self.health_keys(&acc, bank_of);
        let now = self.s.clock();
        self.with_ais(&keys, |ais| {
            let r = mango_v4::health::ScanningAccountRetriever::new_with_staleness(
                ais,
                &self.group,
                Some((now.unix_timestamp as u64, now.slot)),
            )
            .map_err(|e| format!("{e:?}"))?;
            mango_v4::health::new_health_cache(&acc.borrow(), &r, now.unix_timestamp as u64)
                .map_err(|e| format!("{e:?}"))
        })
    }
    /// Health and equity as the program reports them.
    pub fn account_data(&self, a: usize) -> Option<mango_v4::events::MangoAccountData> {
        if !self.ok(ComputeAccountDataInstruction { account: self.accs[a].key }) {
            return None;
        }
        self.s.program_log_events::<mango_v4::events::MangoAccountData>().pop()
    }
    /// every account's raw bytes, to compare whole states
    /// an ordinary funded wallet
    pub fn put_wallet(&self, k: Pubkey) {
        let a = Acc {
            lamports: 1_000_000_000_000,
            ..Default::default()
        };
        self.s.sim.borrow_mut().set(k, a);
    }
    pub fn raw_state(&self) -> BTreeMap<Pubkey, Acc> {
        self.s
            .sim
            .borrow()
            .accounts
            .iter()
            .map(|(k, v)| (*k, (**v).clone()))
            .collect()
    }
}

pub fn num<T: fixed::traits::ToFixed>(x: T) -> I80F48 {
    I80F48::from_num(x)
}
pub fn f(x: I80F48) -> f64 {
    x.to_num::<f64>()
}
pub fn native(indexed: I80F48, b: &Bank) -> I80F48 {
    if indexed >= I80F48::ZERO {
        indexed * b.deposit_index
    } else {
        indexed * b.borrow_index
    }
}
pub fn nativef(indexed: I80F48, b: &Bank) -> f64 {
    if indexed >= I80F48::ZERO {
        f(indexed) * f(b.deposit_index)
    } else {
        f(indexed) * f(b.borrow_index)
    }
}
/// |a-b| within rel of the larger magnitude plus abs
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

pub struct Snap {
    pub now: u64,
    pub banks: Vec<(usize, usize, Box<Bank>, u64)>,
    pub perps: Vec<Box<PerpMarket>>,
    pub accs: Vec<MangoAccountValue>,
    pub group: Box<Group>,
    pub insurance: u64,
    pub tok_price: Vec<f64>,
    pub perp_price: Vec<f64>,
    pub wallets: Vec<Vec<u64>>,
}
impl Snap {
    pub fn b(&self, tok: usize, n: usize) -> &Bank {
        &self.banks[tok * 2 + n].2
    }
    pub fn v(&self, tok: usize, n: usize) -> u64 {
        self.banks[tok * 2 + n].3
    }
    pub fn pos(&self, a: usize, tok: usize) -> f64 {
        match self.accs[a].token_position(tok as u16) {
            Ok(p) => nativef(p.indexed_position, self.b(tok, 0)),
            Err(_) => 0.0,
        }
    }
    pub fn posx(&self, a: usize, tok: usize) -> I80F48 {
        match self.accs[a].token_position(tok as u16) {
            Ok(p) => native(p.indexed_position, self.b(tok, 0)),
            Err(_) => I80F48::ZERO,
        }
    }
    pub fn pp(&self, a: usize, p: usize) -> PerpPosition {
        match self.accs[a].perp_position(p as u16) {
            Ok(x) => *x,
            Err(_) => PerpPosition::default(),
        }
    }
    pub fn fees(&self, tok: usize) -> f64 {
        f(self.b(tok, 0).collected_fees_native) + f(self.b(tok, 1).collected_fees_native)
            - self.b(tok, 0).fees_withdrawn as f64
            - self.b(tok, 1).fees_withdrawn as f64
    }
    pub fn vaults(&self, tok: usize) -> f64 {
        self.v(tok, 0) as f64 + self.v(tok, 1) as f64
    }
}
