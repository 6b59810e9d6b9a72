//! Transactions of (almost) every instruction of the program that succeed on a known state.
use crate::machine::{Machine, ALL, K};
use crate::pbt::Src;
use crate::pt::*;
use crate::world::*;
use anchor_lang::{InstructionData, ToAccountMetas};
use fixed::types::I80F48;
use mango_v4::accounts_ix::{Serum3OrderType, Serum3SelfTradeBehavior, Serum3Side, HealthCheckKind};
use mango_v4::state::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

/// Every instruction name with the bit of Group::ix_gate that disables it.
pub const IXS: &[(&str, Option<u8>)] = &[
    ("admin_token_withdraw_fees", Some(65)),
    ("admin_perp_withdraw_fees", Some(66)),
    ("group_create", None),
    ("group_edit", None),
    ("group_withdraw_insurance_fund", Some(51)),
    ("group_change_insurance_fund", Some(76)),
    ("ix_gate_set", None),
    ("group_close", Some(8)),
    ("token_register", Some(44)),
    ("token_register_trustless", Some(45)),
    ("token_edit", None),
    ("token_add_bank", Some(39)),
    ("token_deregister", Some(41)),
    ("token_update_index_and_rate", Some(46)),
    ("token_update_index_and_rate_resilient", Some(46)),
    ("account_create", Some(1)),
    ("account_create_v2", Some(1)),
    ("account_expand", Some(3)),
    ("account_expand_v2", Some(3)),
    ("account_size_migration", Some(67)),
    ("account_edit", Some(2)),
    ("account_toggle_freeze", Some(4)),
    ("account_close", Some(0)),
    ("account_buyback_fees_with_mngo", Some(48)),
    ("sequence_check", Some(73)),
    ("health_check", Some(74)),
    ("stub_oracle_create", Some(37)),
    ("stub_oracle_close", Some(36)),
    ("stub_oracle_set", Some(38)),
    ("stub_oracle_set_test", Some(38)),
    ("token_deposit", Some(40)),
    ("token_deposit_into_existing", Some(40)),
    ("token_withdraw", Some(47)),
    ("flash_loan_begin", Some(7)),
    ("flash_loan_swap_begin", Some(7)),
    ("flash_loan_end_v2", None),
    ("health_region_begin", Some(10)),
    ("health_region_end", None),
    ("serum3_register_market", Some(34)),
    ("serum3_edit_market", None),
    ("serum3_deregister_market", Some(30)),
    ("serum3_create_open_orders", Some(29)),
    ("serum3_close_open_orders", Some(28)),
    ("serum3_place_order", Some(33)),
    ("serum3_place_order_v2", Some(71)),
    ("serum3_cancel_order", Some(27)),
    ("serum3_cancel_order_by_client_order_id", Some(27)),
    ("serum3_cancel_all_orders", Some(26)),
    ("serum3_settle_funds_v2", Some(35)),
    ("serum3_liq_force_cancel_orders", Some(32)),
    ("token_liq_with_token", Some(43)),
    ("token_force_close_borrows_with_token", Some(49)),
    ("token_liq_bankruptcy", Some(42)),
    ("token_force_withdraw", Some(72)),
    ("perp_create_market", Some(17)),
    ("perp_edit_market", None),
    ("perp_close_market", Some(15)),
    ("perp_deactivate_position", Some(18)),
    ("perp_place_order", Some(22)),
    ("perp_place_order_v2", Some(22)),
    ("perp_place_order_pegged", Some(22)),
    ("perp_place_order_pegged_v2", Some(22)),
    ("perp_cancel_order", Some(13)),
    ("perp_cancel_order_by_client_order_id", Some(14)),
    ("perp_cancel_all_orders", Some(11)),
    ("perp_cancel_all_orders_by_side", Some(12)),
    ("perp_consume_events", Some(16)),
    ("perp_update_funding", Some(25)),
    ("perp_settle_pnl", Some(24)),
    ("perp_force_close_position", Some(50)),
    ("perp_settle_fees", Some(23)),
    ("perp_liq_base_or_positive_pnl", Some(19)),
    ("perp_liq_force_cancel_orders", Some(20)),
    ("perp_liq_negative_pnl_or_bankruptcy_v2", Some(21)),
    ("token_conditional_swap_create", Some(52)),
    ("token_conditional_swap_create_v2", Some(52)),
    ("token_conditional_swap_create_premium_auction", Some(69)),
    ("token_conditional_swap_create_linear_auction", Some(70)),
    ("token_conditional_swap_cancel", Some(54)),
    ("token_conditional_swap_trigger", Some(53)),
    ("token_conditional_swap_trigger_v2", Some(53)),
    ("token_conditional_swap_start", Some(68)),
    ("token_charge_collateral_fees", None),
    ("alt_set", Some(6)),
    ("alt_extend", Some(5)),
    ("compute_account_data", None),
    ("benchmark", None),
];

thread_local! {
    static BY_HASH: HashMap<[u8; 8], (&'static str, Option<u8>)> = IXS
        .iter()
        .map(|x| {
            let h = solana_program::hash::hash(format!("global:{}", x.0).as_bytes()).to_bytes();
            (h[..8].try_into().unwrap(), *x)
        })
        .collect();
}

/// The name and gate of a mango instruction.
pub fn ident(ix: &Instruction) -> Option<(&'static str, Option<u8>)> {
    if ix.program_id != mango_v4::id() || ix.data.len() < 8 {
        return None;
    }
    let h: [u8; 8] = ix.data[..8].try_into().unwrap();
    BY_HASH.with(|m| m.get(&h).copied())
}

pub fn disc(name: &str) -> [u8; 8] {
    let h = solana_program::hash::hash(format!("global:{name}").as_bytes()).to_bytes();
    h[..8].try_into().unwrap()
}

pub fn mk<A: ToAccountMetas, D: InstructionData>(a: A, d: D) -> Instruction {
    Instruction {
        program_id: mango_v4::id(),
        accounts: a.to_account_metas(None),
        data: d.data(),
    }
}

pub struct Tx {
    pub base: World,
    pub ixs: Vec<Instruction>,
    pub signers: Vec<Pubkey>,
    pub what: String,
}

impl Tx {
    pub fn names(&self) -> Vec<&'static str> {
        self.ixs.iter().filter_map(|i| ident(i).map(|x| x.0)).collect()
    }
}

/// A machine with roles set up: separate security and fast listing admins, and some history.
pub fn start(src: &mut Src) -> Machine {
    let m = Machine::setup(src, &ALL);
    let (f, s) = roles();
    m.w.edit_group(|g| {
        g.fast_listing_admin = f.pubkey();
        g.security_admin = s.pubkey();
        g.allowed_fast_listings_per_interval = 3;
    });
    for k in [f.pubkey(), s.pubkey(), stranger().pubkey()] {
        m.w.put_wallet(k);
    }
    m
}

pub fn roles() -> (TestKeypair, TestKeypair) {
    (
        TestKeypair::from_pubkey(Pubkey::new_from_array([201; 32])),
        TestKeypair::from_pubkey(Pubkey::new_from_array([202; 32])),
    )
}
pub fn stranger() -> TestKeypair {
    TestKeypair::from_pubkey(Pubkey::new_from_array([203; 32]))
}

/// Performs something on the world; returns the last transaction and the state before it.
pub fn gen(src: &mut Src, m: &Machine) -> Option<Tx> {
    let w = &m.w;
    if src.chance(50) {
        let s = w.snap();
        let ks: Vec<K> = ALL.iter().map(|x| x.0).filter(|k| *k != K::Time && *k != K::Price).collect();
        let k = src.pick(&ks);
        let base = w.fork();
        let st = m.act(k, src, &s);
        if !st.ok {
            return None;
        }
        let (ixs, signers) = w.last_tx();
        return fin(base, ixs, signers, st.what);
    }
    let k = src.below(EXTRAS);
    // most of these change settings later steps do not expect
    let side = Machine { w: m.w.fork(), weights: vec![] };
    let m = if [37, 38, 39, 40, 50, 51].contains(&k) { m } else { &side };
    let w = &m.w;
    let (base, ok) = extra(k, src, m)?;
    if !ok {
        if std::env::var("TXGEN_DEBUG").is_ok() {
            let n: Vec<_> = w.last_tx().0.iter().filter_map(|i| ident(i).map(|x| x.0)).collect();
            eprintln!("extra {k} failed: {n:?} {}", w.fail_text());
        }
        return None;
    }
    let (ixs, signers) = w.last_tx();
    fin(base, ixs, signers, format!("extra {k}"))
}

fn fin(base: World, ixs: Vec<Instruction>, signers: Vec<Pubkey>, what: String) -> Option<Tx> {
    if !ixs.iter().any(|i| ident(i).is_some()) {
        return None;
    }
    // some steps change settings around the transaction
    if !base.fork().replay(&ixs, &signers) {
        return None;
    }
    Some(Tx { base, ixs, signers, what })
}

const EXTRAS: u64 = 66;

#[allow(clippy::too_many_lines)]
fn extra(k: u64, src: &mut Src, m: &Machine) -> Option<(World, bool)> {
    let w = &m.w;
    let payer = w.users[2].key;
    let admin = w.admin;
    let (fast, sec) = roles();
    let a = 1 + src.idx(4);
    let who = w.accs[a];
    let p = src.idx(2);
    let t = src.idx(5);
    let t2 = (t + 1 + src.idx(4)) % 5;
    macro_rules! done {
        ($e:expr) => {{
            let base = w.fork();
            let ok = $e;
            Some((base, ok))
        }};
    }
    let new_account = |num: u32| AccountCreateInstruction {
        account_num: num,
        token_count: 4,
        serum3_count: 2,
        perp_count: 2,
        perp_oo_count: 4,
        token_conditional_swap_count: 2,
        group: w.group,
        owner: who.owner,
        payer,
    };
    let pda = |seeds: &[&[u8]]| Pubkey::find_program_address(seeds, &mango_v4::id()).0;
    let acc_key = |num: u32| {
        pda(&[b"MangoAccount", w.group.as_ref(), who.owner.pubkey().as_ref(), &num.to_le_bytes()])
    };
    let register = |adm: TestKeypair| TokenRegisterInstruction {
        token_index: 7,
        decimals: 6,
        adjustment_factor: 0.01,
        util0: 0.4,
        rate0: 0.07,
        util1: 0.8,
        rate1: 0.9,
        max_rate: 0.5,
        loan_origination_fee_rate: 0.0005,
        loan_fee_rate: 0.0005,
        maint_asset_weight: 0.8,
        init_asset_weight: 0.6,
        maint_liab_weight: 1.2,
        init_liab_weight: 1.4,
        liquidation_fee: 0.02,
        platform_liquidation_fee: 0.0,
        min_vault_to_deposits_ratio: 0.2,
        net_borrow_limit_per_window_quote: 1_000_000_000_000,
        net_borrow_limit_window_size_ts: 86400,
        group: w.group,
        admin: adm,
        mint: w.mints[5].pubkey,
        oracle: w.tokens[4].oracle,
        payer,
    };
    let tcs = |buy: usize, sell: usize| TokenConditionalSwapCreateInstruction {
        account: who.key,
        owner: who.owner,
        buy_mint: w.tokens[buy].mint.pubkey,
        sell_mint: w.tokens[sell].mint.pubkey,
        max_buy: 1_000_000,
        max_sell: 1_000_000,
        price_lower_limit: 0.0,
        price_upper_limit: 1e12,
        price_premium_rate: 0.01,
        allow_creating_deposits: true,
        allow_creating_borrows: true,
    };
    let resting = |p: usize| {
        let mut ix = w.order_ix(a, p, Side::Bid);
        let pm = w.perp(p);
        let fair = w.perp_price(p) * pm.base_lot_size as f64 / pm.quote_lot_size as f64;
        ix.price_lots = (fair * 0.5).ceil() as i64;
        ix.max_base_lots = 1;
        ix.client_order_id = 77;
        ix
    };
    // a spot order resting in the book
    let spot_order = || {
        let _ = w.ok(Serum3CreateOpenOrdersInstruction {
            account: who.key,
            serum_market: w.spots[0].market,
            owner: who.owner,
            payer,
        });
        let c = &w.spots[0].cookie;
        let fair = w.price(1) / w.price(0) * c.coin_mint.base_lot / c.pc_mint.quote_lot;
        let price = ((fair * 0.5).round() as u64).max(1);
        Serum3PlaceOrderInstruction {
            side: Serum3Side::Bid,
            limit_price: price,
            max_base_qty: 3,
            max_native_quote_qty_including_fees: price * 3 * 20 + 100,
            self_trade_behavior: Serum3SelfTradeBehavior::DecrementTake,
            order_type: Serum3OrderType::Limit,
            client_order_id: 33,
            limit: 10,
            account: who.key,
            owner: who.owner,
            serum_market: w.spots[0].market,
        }
    };
    let raw_signed = |ix: Instruction, s: &[TestKeypair]| w.ok_raw(ix, s);
    match k {
        0 => done!(w.ok(new_account(9))),
        1 => {
            let ix = mk(
                mango_v4::accounts::AccountCreate {
                    group: w.group,
                    account: acc_key(10),
                    owner: who.owner.pubkey(),
                    payer: payer.pubkey(),
                    system_program: solana_program::system_program::id(),
                },
                mango_v4::instruction::AccountCreate {
                    account_num: 10,
                    token_count: 4,
                    serum3_count: 2,
                    perp_count: 2,
                    perp_oo_count: 2,
                    name: "x".into(),
                },
            );
            done!(raw_signed(ix, &[who.owner, payer]))
        }
        2 | 3 => {
            w.ok(new_account(9));
            let accounts = mango_v4::accounts::AccountExpand {
                group: w.group,
                account: acc_key(9),
                owner: who.owner.pubkey(),
                payer: payer.pubkey(),
                system_program: solana_program::system_program::id(),
            };
            let ix = if k == 2 {
                mk(
                    accounts,
                    mango_v4::instruction::AccountExpandV2 {
                        token_count: 4 + src.below(3) as u8,
                        serum3_count: 2,
                        perp_count: 4,
                        perp_oo_count: 4 + src.below(9) as u8,
                        token_conditional_swap_count: 2 + src.below(2) as u8,
                    },
                )
            } else {
                mk(
                    accounts,
                    mango_v4::instruction::AccountExpand {
                        token_count: 8,
                        serum3_count: 4,
                        perp_count: 4,
                        perp_oo_count: 8,
                    },
                )
            };
            done!(raw_signed(ix, &[who.owner, payer]))
        }
        4 | 5 => {
            let exp = w.now() + 1000;
            let ix = mk(
                mango_v4::accounts::AccountEdit { group: w.group, account: who.key, owner: who.owner.pubkey() },
                mango_v4::instruction::AccountEdit {
                    name_opt: Some("n".into()),
                    delegate_opt: if src.bool() { Some(Pubkey::new_from_array([9; 32])) } else { None },
                    temporary_delegate_opt: if k == 5 { Some(Pubkey::new_from_array([8; 32])) } else { None },
                    temporary_delegate_expiry_opt: if k == 5 { Some(exp) } else { None },
                },
            );
            done!(raw_signed(ix, &[who.owner]))
        }
        6 => {
            let ix = mk(
                mango_v4::accounts::AccountToggleFreeze { group: w.group, account: who.key, admin: admin.pubkey() },
                mango_v4::instruction::AccountToggleFreeze { freeze: src.bool() },
            );
            done!(raw_signed(ix, &[admin]))
        }
        7 => {
            w.ok(new_account(9));
            done!(w.ok(AccountCloseInstruction {
                group: w.group,
                account: acc_key(9),
                owner: who.owner,
                sol_destination: payer.pubkey(),
            }))
        }
        8 => done!(w.ok(AccountSizeMigrationInstruction { account: who.key, payer })),
        9 => {
            let mut o = group_edit_instruction_default();
            match src.below(4) {
                0 => o.security_admin_opt = Some(who.owner.pubkey()),
                1 => o.buyback_fees_opt = Some(false),
                2 => o.deposit_limit_quote_opt = Some(1_000_000_000_000),
                _ => o.collateral_fee_interval_opt = Some(77),
            }
            done!(w.ok(GroupEdit { group: w.group, admin, options: o }))
        }
        10 => {
            // disable something with either admin, or enable with the admin
            let bit = src.below(76);
            let on = src.bool();
            if on {
                w.edit_group(|g| g.ix_gate = 1 << bit);
            }
            let adm = if !on && src.bool() { sec } else { admin };
            done!(w.ok(IxGateSetInstruction { group: w.group, admin: adm, ix_gate: if on { 0 } else { 1 << bit } }))
        }
        11 => {
            w.set_vault(w.insurance_vault, 1000);
            let ix = mk(
                mango_v4::accounts::GroupWithdrawInsuranceFund {
                    group: w.group,
                    admin: admin.pubkey(),
                    insurance_vault: w.insurance_vault,
                    destination: w.user_token(1, 0),
                    token_program: spl_token::id(),
                },
                mango_v4::instruction::GroupWithdrawInsuranceFund { amount: 500 },
            );
            done!(raw_signed(ix, &[admin]))
        }
        12 => done!(w.ok(GroupChangeInsuranceFund {
            group: w.group,
            admin,
            payer,
            insurance_mint: w.mints[2].pubkey,
            withdraw_destination: w.user_token(1, 0),
        })),
        13 => done!(w.ok(GroupCreateInstruction { creator: who.owner, payer, insurance_mint: w.mints[1].pubkey })),
        14 => {
            w.ok(GroupCreateInstruction { creator: who.owner, payer, insurance_mint: w.mints[1].pubkey });
            let g = pda(&[b"Group", who.owner.pubkey().as_ref(), &0u32.to_le_bytes()]);
            done!(w.ok(GroupCloseInstruction { admin: who.owner, group: g, sol_destination: payer.pubkey() }))
        }
        15 => done!(w.ok(register(admin))),
        16 => {
            let mint = w.mints[5].pubkey;
            let idx = 8u16.to_le_bytes();
            let ix = mk(
                mango_v4::accounts::TokenRegisterTrustless {
                    group: w.group,
                    admin: if src.bool() { fast.pubkey() } else { admin.pubkey() },
                    mint,
                    bank: pda(&[b"Bank", w.group.as_ref(), &idx, &0u32.to_le_bytes()]),
                    vault: pda(&[b"Vault", w.group.as_ref(), &idx, &0u32.to_le_bytes()]),
                    mint_info: pda(&[b"MintInfo", w.group.as_ref(), mint.as_ref()]),
                    oracle: w.tokens[4].oracle,
                    fallback_oracle: Pubkey::default(),
                    payer: payer.pubkey(),
                    token_program: spl_token::id(),
                    system_program: solana_program::system_program::id(),
                    rent: solana_program::sysvar::rent::id(),
                },
                mango_v4::instruction::TokenRegisterTrustless { token_index: 8, name: "T".into() },
            );
            let s = ix.accounts[1].pubkey;
            done!(raw_signed(ix, &[TestKeypair::from_pubkey(s), payer]))
        }
        17 => done!(w.ok(TokenAddBankInstruction {
            token_index: t as u16,
            bank_num: 2,
            group: w.group,
            admin,
            payer,
        })),
        18 => {
            let mut o = token_edit_instruction_default();
            match src.below(5) {
                0 => o.liquidation_fee_opt = Some(0.03),
                1 => o.reduce_only_opt = Some(1),
                2 => o.reset_net_borrow_limit = true,
                3 => o.reset_stable_price = true,
                _ => o.name_opt = Some("x".into()),
            }
            done!(w.ok(TokenEdit {
                group: w.group,
                admin,
                mint: w.tokens[t].mint.pubkey,
                fallback_oracle: Pubkey::default(),
                options: o,
            }))
        }
        19 => {
            if !w.ok(register(admin)) {
                return None;
            }
            let mint = w.mints[5].pubkey;
            let mi = pda(&[b"MintInfo", w.group.as_ref(), mint.as_ref()]);
            let info = w.s.get_account::<MintInfo>(mi);
            let dust = w.users[1].token_accounts[5];
            done!(w.ok(TokenDeregisterInstruction {
                admin,
                payer,
                group: w.group,
                mint_info: mi,
                banks: info.banks.to_vec(),
                vaults: info.vaults.to_vec(),
                dust_vault: dust,
                token_index: 7,
                sol_destination: payer.pubkey(),
            }))
        }
        20 => done!(w.ok(StubOracleCreate {
            oracle: TestKeypair::new(),
            group: w.group,
            mint: w.mints[5].pubkey,
            admin,
            payer,
        })),
        21 => done!(w.ok(StubOracleSetInstruction {
            group: w.group,
            admin,
            mint: w.mints[t].pubkey,
            price: 3.0,
            oracle: w.tokens[t].oracle,
        })),
        22 => done!(w.ok(StubOracleSetTestInstruction {
            group: w.group,
            admin,
            mint: w.mints[t].pubkey,
            price: 3.0,
            oracle: w.tokens[t].oracle,
            last_update_slot: 1,
            deviation: 0.1,
        })),
        23 => done!(w.ok(StubOracleCloseInstruction {
            oracle: w.tokens[t].oracle,
            group: w.group,
            mint: w.mints[t].pubkey,
            admin,
            sol_destination: payer.pubkey(),
        })),
        24 | 25 => {
            let mut ix = PerpCreateMarketInstruction::with_new_book_and_queue(&w.s, &w.tokens[1]);
            ix.group = w.group;
            ix.admin = admin;
            ix.payer = payer;
            ix.perp_market_index = 5;
            ix.quote_lot_size = 10;
            ix.base_lot_size = 100;
            ix.maint_base_asset_weight = 0.975;
            ix.init_base_asset_weight = 0.95;
            ix.maint_base_liab_weight = 1.025;
            ix.init_base_liab_weight = 1.05;
            ix.settle_pnl_limit_window_size_ts = 86400;
            ix.settle_pnl_limit_factor = 0.5;
            if k == 24 {
                return done!(w.ok(ix));
            }
            let perp_market = w.send(ix).ok()?.perp_market;
            done!(w.ok(PerpCloseMarketInstruction { admin, perp_market, sol_destination: payer.pubkey() }))
        }
        26 => {
            let on = src.bool();
            done!(w.ok(PerpMakeReduceOnly {
                group: w.group,
                admin,
                perp_market: w.perps[p].key,
                reduce_only: true,
                force_close: on,
            }))
        }
        27 => {
            let c = {
                let mut b = w.mints.clone();
                b.truncate(5);
                serum::list_spot_market(&w.s, w.serum_program, &b[3], &b[0])
            };
            let adm = if src.bool() { fast } else { admin };
            let (_, mut ix) = (Serum3RegisterMarketInstruction {
                group: w.group,
                admin: adm,
                serum_program: w.serum_program,
                serum_market_external: c.market,
                market_index: 9,
                base_bank: w.tokens[3].bank,
                quote_bank: w.tokens[0].bank,
                payer,
            })
            .to_instruction(&*w.s);
            ix.data = mango_v4::instruction::Serum3RegisterMarket {
                market_index: 9,
                name: "x".into(),
                oracle_price_band: 1.0,
            }
            .data();
            done!(raw_signed(ix, &[adm, payer]))
        }
        28 => done!(w.ok(Serum3EditMarketInstruction {
            group: w.group,
            admin,
            market: w.spots[0].market,
            options: mango_v4::instruction::Serum3EditMarket {
                reduce_only_opt: Some(true),
                force_close_opt: if src.bool() { Some(true) } else { None },
                name_opt: None,
                oracle_price_band_opt: None,
            },
        })),
        29 => done!(w.ok(Serum3DeregisterMarketInstruction {
            group: w.group,
            admin,
            serum_market_external: w.spots[1].cookie.market,
            sol_destination: payer.pubkey(),
        })),
        30 => done!(w.ok(Serum3CreateOpenOrdersInstruction {
            account: who.key,
            serum_market: w.spots[1].market,
            owner: who.owner,
            payer,
        })),
        31 => {
            w.ok(Serum3CreateOpenOrdersInstruction {
                account: who.key,
                serum_market: w.spots[1].market,
                owner: who.owner,
                payer,
            });
            done!(w.ok(Serum3CloseOpenOrdersInstruction {
                account: who.key,
                serum_market: w.spots[1].market,
                owner: who.owner,
                sol_destination: payer.pubkey(),
            }))
        }
        32 => {
            // v1 gate or v2 gate, both allow it
            let o = spot_order();
            if src.bool() {
                w.edit_group(|g| g.ix_gate |= 1 << src.pick(&[33u32, 71]));
            }
            let (_, mut ix) = o.to_instruction(&*w.s);
            if src.bool() {
                // the first version: same arguments
                let d = disc("serum3_place_order");
                ix.data[..8].copy_from_slice(&d);
            }
            done!(raw_signed(ix, &[who.owner]))
        }
        33 => {
            if !w.ok(spot_order()) {
                return None;
            }
            let oo = w.acc(a).serum3_orders(0).ok()?.open_orders;
            let o = load_open_orders(&w.s, oo);
            let id = { o.orders }.iter().copied().find(|x| *x != 0)?;
            done!(w.ok(Serum3CancelOrderInstruction {
                side: Serum3Side::Bid,
                order_id: id,
                account: who.key,
                owner: who.owner,
                serum_market: w.spots[0].market,
            }))
        }
        34 => {
            if !w.ok(spot_order()) {
                return None;
            }
            done!(w.ok(Serum3CancelOrderByClientOrderIdInstruction {
                client_order_id: 33,
                account: who.key,
                owner: who.owner,
                serum_market: w.spots[0].market,
            }))
        }
        35 => {
            if !w.ok(spot_order()) {
                return None;
            }
            w.ok(Serum3CancelAllOrdersInstruction {
                limit: 10,
                account: who.key,
                owner: who.owner,
                serum_market: w.spots[0].market,
            });
            done!(w.ok(Serum3SettleFundsV2Instruction {
                account: who.key,
                owner: who.owner,
                serum_market: w.spots[0].market,
                fees_to_dao: src.bool(),
            }))
        }
        36 => {
            if !w.ok(spot_order()) {
                return None;
            }
            let m = w.spots[0].market;
            let mut v = w.s.get_account::<Serum3Market>(m);
            v.reduce_only = 1;
            v.force_close = 1;
            w.s.set_account(m, &v);
            done!(w.ok(Serum3LiqForceCancelOrdersInstruction { account: who.key, serum_market: m, limit: 5 }))
        }
        37 => done!(w.ok(tcs(t, t2))),
        38 => {
            let x = tcs(t, t2);
            let (_, mut ix) = x.to_instruction(&*w.s);
            ix.data = mango_v4::instruction::TokenConditionalSwapCreate {
                max_buy: 100,
                max_sell: 100,
                expiry_timestamp: u64::MAX,
                price_lower_limit: 0.0,
                price_upper_limit: 1e9,
                price_premium_rate: 0.01,
                allow_creating_deposits: true,
                allow_creating_borrows: true,
            }
            .data();
            done!(raw_signed(ix, &[who.owner]))
        }
        39 => done!(w.ok(TokenConditionalSwapCreatePremiumAuctionInstruction {
            account: who.key,
            owner: who.owner,
            buy_mint: w.tokens[t].mint.pubkey,
            sell_mint: w.tokens[t2].mint.pubkey,
            max_buy: 1_000_000,
            max_sell: 1_000_000,
            price_lower_limit: 0.0,
            price_upper_limit: 1e12,
            max_price_premium_rate: 0.01,
            allow_creating_deposits: true,
            allow_creating_borrows: true,
            duration_seconds: 100,
        })),
        40 => {
            let now = w.now();
            done!(w.ok(TokenConditionalSwapCreateLinearAuctionInstruction {
                account: who.key,
                owner: who.owner,
                buy_mint: w.tokens[t].mint.pubkey,
                sell_mint: w.tokens[t2].mint.pubkey,
                max_buy: 1_000_000,
                max_sell: 1_000_000,
                price_start: 1.0,
                price_end: 2.0,
                allow_creating_deposits: true,
                allow_creating_borrows: true,
                start_timestamp: now,
                duration_seconds: 600,
                expiry_timestamp: u64::MAX,
            }))
        }
        41 => {
            w.ok(tcs(t, t2));
            let acc = w.acc(a);
            let (i, x) = acc.all_token_conditional_swaps().enumerate().find(|x| x.1.is_configured())?;
            done!(w.ok(TokenConditionalSwapCancelInstruction {
                account: who.key,
                owner: who.owner,
                index: i as u8,
                id: x.id,
            }))
        }
        42 => {
            if a == LIQOR {
                return None;
            }
            w.grant(a, t2, 0, 1e7 / w.price(t2));
            w.ok(TokenConditionalSwapCreatePremiumAuctionInstruction {
                account: who.key,
                owner: who.owner,
                buy_mint: w.tokens[t].mint.pubkey,
                sell_mint: w.tokens[t2].mint.pubkey,
                max_buy: u64::MAX,
                max_sell: u64::MAX,
                price_lower_limit: 0.0,
                price_upper_limit: 1e12,
                max_price_premium_rate: 0.01,
                allow_creating_deposits: true,
                allow_creating_borrows: true,
                duration_seconds: 100,
            });
            let acc = w.acc(a);
            let (i, _) = acc.all_token_conditional_swaps().enumerate().find(|x| x.1.is_configured())?;
            done!(w.ok(TokenConditionalSwapStartInstruction {
                liqee: who.key,
                liqor: w.accs[LIQOR].key,
                liqor_owner: w.accs[LIQOR].owner,
                index: i as u8,
            }))
        }
        43 => done!(w.ok(TokenUpdateIndexAndRateResilientInstruction { mint_info: w.tokens[t].mint_info })),
        44 => done!(w.ok(ComputeAccountDataInstruction { account: who.key })),
        45 => done!(w.ok(HealthCheckInstruction {
            account: who.key,
            owner: who.owner,
            min_health_value: -1e13,
            check_kind: HealthCheckKind::Init,
        })),
        46 => {
            let n = w.acc(a).fixed.sequence_number;
            done!(w.ok(SequenceCheckInstruction { account: who.key, owner: who.owner, expected_sequence_number: n }))
        }
        47 | 48 | 49 => {
            if !w.ok(resting(p)) {
                return None;
            }
            let acc = w.acc(a);
            let id = acc.all_perp_orders().find(|o| o.is_active_for_market(p as u16))?.id;
            match k {
                47 => done!(w.ok(PerpCancelOrderInstruction {
                    account: who.key,
                    perp_market: w.perps[p].key,
                    owner: who.owner,
                    order_id: id,
                })),
                48 => done!(w.ok(PerpCancelOrderByClientOrderIdInstruction {
                    account: who.key,
                    perp_market: w.perps[p].key,
                    owner: who.owner,
                    client_order_id: 77,
                })),
                _ => {
                    let (_, mut ix) = PerpCancelAllOrdersInstruction {
                        account: who.key,
                        perp_market: w.perps[p].key,
                        owner: who.owner,
                        limit: 5,
                    }
                    .to_instruction(&*w.s);
                    ix.data = mango_v4::instruction::PerpCancelAllOrdersBySide {
                        side_option: Some(Side::Bid),
                        limit: 5,
                    }
                    .data();
                    done!(raw_signed(ix, &[who.owner]))
                }
            }
        }
        50 => {
            // the first versions of the order instructions
            let x = resting(p);
            let (_, mut ix) = x.to_instruction(&*w.s);
            if src.bool() {
                ix.data = mango_v4::instruction::PerpPlaceOrder {
                    side: Side::Bid,
                    price_lots: x.price_lots,
                    max_base_lots: 1,
                    max_quote_lots: i64::MAX,
                    client_order_id: 1,
                    order_type: PlaceOrderType::Limit,
                    reduce_only: false,
                    expiry_timestamp: 0,
                    limit: 10,
                }
                .data();
            } else {
                ix.data = mango_v4::instruction::PerpPlaceOrderPegged {
                    side: Side::Bid,
                    price_offset_lots: -x.price_lots / 2,
                    peg_limit: -1,
                    max_base_lots: 1,
                    max_quote_lots: i64::MAX,
                    client_order_id: 1,
                    order_type: PlaceOrderType::Limit,
                    reduce_only: false,
                    expiry_timestamp: 0,
                    limit: 10,
                    max_oracle_staleness_slots: -1,
                }
                .data();
            }
            done!(raw_signed(ix, &[who.owner]))
        }
        51 => {
            w.grant(a, t, 0, 1e6 / w.price(t) + 10.0);
            let i = w.acc(a).all_token_positions().position(|x| x.is_active_for_token(t as u16))?;
            done!(w.ok(TokenDepositIntoExistingInstruction {
                amount: 1000,
                reduce_only: false,
                account: who.key,
                token_account: w.users[2].token_accounts[w.tokens[t].mint.index],
                token_authority: payer,
                bank_index: 0,
            }) && i < 99)
        }
        52 => {
            let b = 1 + (a % 4);
            let pm = w.perp(p);
            w.grant_perp(p, a, b, 50, I80F48::from_num(50.0 * pm.base_lot_size as f64 * w.perp_price(p)));
            w.edit_perp(p, |x| {
                x.reduce_only = 1;
                x.force_close = 1
            });
            done!(w.ok(PerpForceClosePositionInstruction {
                account_a: who.key,
                account_b: w.accs[b].key,
                perp_market: w.perps[p].key,
            }))
        }
        53 => {
            if a == LIQOR {
                return None;
            }
            w.grant(a, t2, 0, 5e7 / w.price(t2));
            w.grant(a, t, 0, -1e7 / w.price(t));
            w.edit_token(t, |b| {
                b.force_close = 1;
                b.reduce_only = 2;
                b.init_liab_weight = num(2.5);
            });
            w.edit_token(t2, |b| {
                b.init_liab_weight = num(1.1);
            });
            w.grant(LIQOR, t, 0, 1e7 / w.price(t));
            done!(w.ok(TokenForceCloseBorrowsWithTokenInstruction {
                liqee: who.key,
                liqor: w.accs[LIQOR].key,
                liqor_owner: w.accs[LIQOR].owner,
                asset_token_index: t2 as u16,
                asset_bank_index: 0,
                liab_token_index: t as u16,
                liab_bank_index: 0,
                max_liab_transfer: 1000,
            }))
        }
        54 => {
            w.grant(a, t, 0, 1e7 / w.price(t));
            w.edit_token(t, |b| {
                b.force_withdraw = 1;
                b.reduce_only = 1
            });
            done!(w.ok(TokenForceWithdrawInstruction {
                account: who.key,
                bank: w.tokens[t].bank,
                target: w.user_token(who.user, t),
            }))
        }
        55 => {
            let x = 1 + src.log(1_000_000);
            w.edit_acc(a, |acc| acc.fixed.buyback_fees_accrued_current = x);
            done!(w.ok(AccountBuybackFeesWithMngo {
                owner: who.owner,
                account: who.key,
                mngo_bank: w.tokens[3].bank,
                fees_bank: w.tokens[0].bank,
            }))
        }
        56 | 57 => {
            let alt = w.s.create_address_lookup_table(TestKeypair::from_pubkey(w.group), payer);
            if k == 56 {
                return done!(w.ok(AltSetInstruction {
                    group: w.group,
                    admin,
                    address_lookup_table: alt,
                    index: 1,
                }));
            }
            w.ok(AltSetInstruction { group: w.group, admin, address_lookup_table: alt, index: 1 });
            let (_, mut ix) = (AltExtendInstruction {
                group: w.group,
                admin,
                payer,
                address_lookup_table: alt,
                index: 1,
                new_addresses: vec![who.key],
            })
            .to_instruction(&*w.s);
            ix.accounts[2].is_writable = true;
            ix.accounts.push(AccountMeta::new_readonly(solana_program::system_program::id(), false));
            ix.accounts.push(AccountMeta::new_readonly(
                solana_address_lookup_table_program::id(),
                false,
            ));
            done!(raw_signed(ix, &[admin, payer]))
        }
        58 => {
            // a liquidation: an account with a debt it can't cover
            if a == LIQOR {
                return None;
            }
            let v = 1e7;
            w.grant(a, t2, 0, v / w.price(t2));
            w.grant(a, t, 0, -v / w.price(t) * src.f(0.95, 1.0));
            done!(w.ok(TokenLiqWithTokenInstruction {
                liqee: who.key,
                liqor: w.accs[LIQOR].key,
                liqor_owner: w.accs[LIQOR].owner,
                asset_token_index: t2 as u16,
                asset_bank_index: 0,
                liab_token_index: t as u16,
                liab_bank_index: 0,
                max_liab_transfer: I80F48::from_num(1000),
            }))
        }
        60 => {
            if !w.ok(resting(p)) {
                return None;
            }
            w.ok(PerpCancelAllOrdersInstruction {
                account: who.key,
                perp_market: w.perps[p].key,
                owner: who.owner,
                limit: 50,
            });
            done!(w.ok(PerpDeactivatePositionInstruction {
                account: who.key,
                perp_market: w.perps[p].key,
                owner: who.owner,
            }))
        }
        61 => {
            let b = 1 + (a % 4);
            w.grant_perp(p, a, b, 0, num(-1000));
            w.edit_perp(p, |x| x.fees_accrued = num(5000));
            done!(w.ok(PerpSettleFeesInstruction {
                account: if src.bool() { who.key } else { w.accs[b].key },
                perp_market: w.perps[p].key,
                max_settle_amount: u64::MAX,
            }))
        }
        62 => {
            let b = 1 + (a % 4);
            let pm = w.perp(p);
            let v = 3.0 * pm.base_lot_size as f64 * w.perp_price(p);
            w.grant_perp(p, a, b, 3, num(v * 1.2));
            let neg = w.accs[a].key;
            done!(w.ok(PerpSettlePnlInstruction {
                settler: w.accs[LIQOR].key,
                settler_owner: w.accs[LIQOR].owner,
                account_a: w.accs[b].key,
                account_b: neg,
                perp_market: w.perps[p].key,
            }))
        }
        63 => {
            if a == LIQOR {
                return None;
            }
            w.grant(a, t2, 0, 1e7 / w.price(t2));
            w.grant(LIQOR, t, 0, 1e7 / w.price(t));
            if !w.ok(tcs(t, t2)) {
                return None;
            }
            let acc = w.acc(a);
            let (i, _) = acc.all_token_conditional_swaps().enumerate().filter(|x| x.1.is_configured()).last()?;
            let (_, mut ix) = (TokenConditionalSwapTriggerInstruction {
                liqee: who.key,
                liqor: w.accs[LIQOR].key,
                liqor_owner: w.accs[LIQOR].owner,
                index: i as u8,
                max_buy_token_to_liqee: 1000,
                max_sell_token_to_liqor: u64::MAX,
                min_buy_token: 0,
                min_taker_price: 0.0,
            })
            .to_instruction(&*w.s);
            if src.bool() {
                ix.data.truncate(8 + 1 + 8 + 8 + 8);
                let d = disc("token_conditional_swap_trigger");
                ix.data[..8].copy_from_slice(&d);
            }
            done!(raw_signed(ix, &[w.accs[LIQOR].owner]))
        }
        64 => {
            w.grant(a, t, 0, 1e7 / w.price(t));
            let x = (1e6 / w.price(t)) as u64 + 1;
            let back = (x as f64 * w.price(t) / w.price(t2)) as u64;
            let mut ixs = crate::machine::flash_swap(w, a, t, t2, 0, x, x, back);
            let rest = ixs[0].accounts.split_off(4);
            ixs[0] = mk(
                mango_v4::accounts::FlashLoanSwapBegin {
                    account: who.key,
                    owner: who.owner.pubkey(),
                    input_mint: w.tokens[t].mint.pubkey,
                    output_mint: w.tokens[t2].mint.pubkey,
                    system_program: solana_program::system_program::id(),
                    token_program: spl_token::id(),
                    associated_token_program: spl_associated_token_account::id(),
                    instructions: solana_program::sysvar::instructions::id(),
                },
                mango_v4::instruction::FlashLoanSwapBegin { loan_amount: x },
            );
            ixs[0].accounts.extend(rest);
            let n = ixs.len();
            done!(m.send(&ixs, &[who.owner, payer]) && n > 2)
        }
        _ => {
            // a fresh account, bankrupt in a token or a perp
            let owner = w.accs[1].owner;
            let mut c = new_account(11);
            c.owner = owner;
            let key = w.send(c).ok()?.account;
            let other = src.bool();
            let mut v = w.s.get_account_data(key).map(|d| MangoAccountValue::from_bytes(&d[8..]).unwrap())?;
            v.fixed.set_being_liquidated(true);
            w.set_vault(w.insurance_vault, 1_000_000_000);
            if other {
                let tt = 1 + t % 4;
                let b = w.tbank(tt);
                let (pos, _, _) = v.ensure_token_position(tt as u16).ok()?;
                pos.indexed_position = I80F48::from_num(-1e6 / w.price(tt)) / b.borrow_index;
                let ip = -pos.indexed_position;
                w.put_acc(key, &v);
                w.edit_bank(w.tokens[tt].bank, |b| b.indexed_borrows += ip);
                done!(w.ok(TokenLiqBankruptcyInstruction {
                    liqee: key,
                    liqor: w.accs[LIQOR].key,
                    liqor_owner: w.accs[LIQOR].owner,
                    liab_mint_info: w.tokens[tt].mint_info,
                    max_liab_transfer: I80F48::from_num(1e6),
                }))
            } else {
                let pp = v.ensure_perp_position(p as u16, 0).ok()?.0;
                pp.quote_position_native = I80F48::from_num(-1000);
                w.put_acc(key, &v);
                w.edit_acc(LIQOR, |l| {
                    let x = l.ensure_perp_position(p as u16, 0);
                    if let Ok(x) = x {
                        x.0.quote_position_native += I80F48::from_num(1000);
                    }
                });
                done!(w.ok(PerpLiqNegativePnlOrBankruptcyInstruction {
                    liqor: w.accs[LIQOR].key,
                    liqor_owner: w.accs[LIQOR].owner,
                    liqee: key,
                    perp_market: w.perps[p].key,
                    max_liab_transfer: 500,
                }))
            }
        }
    }
}

pub fn _meta(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
