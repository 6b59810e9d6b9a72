use super::*;
use crate::dex;
use crate::sim::Acc;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct SpotMarketCookie {
    pub market: Pubkey,
    pub req_q: Pubkey,
    pub event_q: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub coin_vault: Pubkey,
    pub pc_vault: Pubkey,
    pub vault_signer_key: Pubkey,
    pub coin_mint: MintCookie,
    pub pc_mint: MintCookie,
    pub coin_fee_account: Pubkey,
    pub pc_fee_account: Pubkey,
}

pub struct SerumCookie {
    pub solana: Arc<SolanaCookie>,
    pub program_id: Pubkey,
}

impl SerumCookie {
    pub fn list_spot_market(&self, coin_mint: &MintCookie, pc_mint: &MintCookie) -> SpotMarketCookie {
        list_spot_market(&self.solana, self.program_id, coin_mint, pc_mint)
    }
    pub fn consume_spot_events(&self, m: &SpotMarketCookie, open_orders: &[Pubkey]) {
        consume_spot_events(&self.solana, self.program_id, m, open_orders).unwrap();
    }
    pub fn load_open_orders(&self, open_orders: Pubkey) -> serum_dex::state::OpenOrders {
        load_open_orders(&self.solana, open_orders)
    }
}

pub fn load_open_orders(s: &SolanaCookie, oo: Pubkey) -> serum_dex::state::OpenOrders {
    let d = s.get_account_data(oo).unwrap();
    *bytemuck::from_bytes(&d[5..d.len() - 7])
}

pub fn consume_spot_events(
    s: &SolanaCookie,
    program_id: Pubkey,
    m: &SpotMarketCookie,
    open_orders: &[Pubkey],
) -> Result<(), TransportError> {
    let mut accounts = vec![
        AccountMeta::new(m.market, false),
        AccountMeta::new(m.event_q, false),
    ];
    accounts.extend(open_orders.iter().map(|k| AccountMeta::new(*k, false)));
    let ix = Instruction {
        program_id,
        data: serum_dex::instruction::MarketInstruction::ConsumeEvents(10).pack(),
        accounts,
    };
    s.process_transaction(&[ix], None)
        .and_then(|r| r.result.map_err(BanksClientError::from))
        .map_err(|e| e.into())
}

pub fn list_spot_market(
    s: &SolanaCookie,
    program_id: Pubkey,
    coin_mint: &MintCookie,
    pc_mint: &MintCookie,
) -> SpotMarketCookie {
    let key = || s.sim.borrow_mut().new_key();
    let (market, req_q, event_q, bids, asks) = (key(), key(), key(), key(), key());
    let (vault_signer_key, nonce) = create_signer_key_and_nonce(&program_id, &market);
    let coin_vault = s.create_token_account(&vault_signer_key, coin_mint.pubkey);
    let pc_vault = s.create_token_account(&vault_signer_key, pc_mint.pubkey);
    let m = dex::init_market(
        &market,
        nonce,
        &coin_mint.pubkey,
        &pc_mint.pubkey,
        &coin_vault,
        &pc_vault,
        &req_q,
        &event_q,
        &bids,
        &asks,
        coin_mint.base_lot as u64,
        pc_mint.quote_lot as u64,
    );
    for (k, data) in [
        (market, m),
        (req_q, vec![0; 652]),
        (event_q, dex::init_events()),
        (bids, dex::init_book(true)),
        (asks, dex::init_book(false)),
    ] {
        s.sim.borrow_mut().set(
            k,
            Acc {
                lamports: s.rent.minimum_balance(data.len()),
                data,
                owner: program_id,
                executable: false,
            },
        );
    }
    let fee_owner = key();
    SpotMarketCookie {
        market,
        req_q,
        event_q,
        bids,
        asks,
        coin_vault,
        pc_vault,
        vault_signer_key,
        coin_mint: coin_mint.clone(),
        pc_mint: pc_mint.clone(),
        coin_fee_account: s.create_token_account(&fee_owner, coin_mint.pubkey),
        pc_fee_account: s.create_token_account(&fee_owner, coin_mint.pubkey),
    }
}
