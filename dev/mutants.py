M = []
def mut(name, ids, file, old, new): M.append((name, ids, file, old, new))
# --- C06
mut("wd_strict", "C06 C16", "instructions/token_withdraw.rs", "account.check_health_post_checks_strict(post_init_health_lower_bound)?;", "")
mut("wd_nopost", "C06", "instructions/token_withdraw.rs", "account.check_health_post(&health_cache, pre_init_health_lower_bound)?;", "")
mut("post_grace", "C06", "state/mango_account.rs", "post_init_health >= 0 || health_does_not_decrease", "post_init_health >= -100 || health_does_not_decrease")
mut("post_ceil", "C06", "state/mango_account.rs", "if post_init_health < -1000 {", "if post_init_health < 0 {")
mut("liqor_health_lt", "C06", "instructions/token_liq_with_token.rs", "require!(liqor_health >= 0, MangoError::HealthMustBePositive);", "require!(liqor_health >= liqor_health, MangoError::HealthMustBePositive);")
mut("liqor_health_pb", "C06", "instructions/perp_liq_base_or_positive_pnl.rs", "require!(liqor_health >= 0, MangoError::HealthMustBePositive);", "")
mut("liqor_health_np", "C06", "instructions/perp_liq_negative_pnl_or_bankruptcy.rs", "require!(liqor_health >= 0, MangoError::HealthMustBePositive);", "")
mut("recover_maint", "C06", "state/mango_account.rs", "let liq_end_health = health_cache.health(HealthType::LiquidationEnd);\n            if self", "let liq_end_health = health_cache.health(HealthType::Maint);\n            if self")
mut("liq_init", "C06", "state/mango_account.rs", "let maint_health = health_cache.health(HealthType::Maint);", "let maint_health = health_cache.health(HealthType::LiquidationEnd);")
mut("region_noend", "C06", "instructions/health_region.rs", "account.check_health_post(&health_cache, pre_init_health)?;", "")
mut("region_key", "C06", "instructions/health_region.rs", "require_keys_eq!(ix.accounts[0].pubkey, ctx.accounts.account.key());", "")
mut("hc_kind", "C06", "instructions/health_check.rs", "HealthCheckKind::MaintRatio => health_cache.health_ratio(HealthType::Maint)", "HealthCheckKind::MaintRatio => health_cache.health_ratio(HealthType::Init)")
mut("pp_adjust", "C06", "instructions/perp_place_order.rs", "health_cache.recompute_perp_info(perp_position, &perp_market)?;", "")
mut("serum_cache_slack", "C06", "instructions/serum3_place_order.rs", "account.check_health_post(&health_cache, pre_init_health)?;", "")
mut("tcs_post", "C06", "instructions/token_conditional_swap_trigger.rs", "liqee_health_cache.adjust_token_balance(&sell_bank, liqee_sell_change)?;", "liqee_health_cache.adjust_token_balance(&sell_bank, -I80F48::from(sell_token_amount_from_liqee))?;")
mut("liq_flag_after", "C06", "instructions/token_liq_with_token.rs", "liqee_health_cache.health(HealthType::LiquidationEnd);", "liqee_health_cache.health(HealthType::Init);")
C="state/mango_account_components.rs"; A="state/mango_account.rs"; B="state/bank.rs"; PM="state/perp_market.rs"
LT="instructions/token_liq_with_token.rs"; LB="instructions/token_liq_bankruptcy.rs"; PB="instructions/perp_liq_base_or_positive_pnl.rs"; PN="instructions/perp_liq_negative_pnl_or_bankruptcy.rs"
# C12
mut("c12_funding_oneshot", "C12", C, "        self.oneshot_settle_pnl_allowance -= funding;\n", "")
mut("c12_cum_short", "C12 C13", C, "self.cumulative_short_funding -= funding.to_num::<f64>();", "self.cumulative_short_funding += funding.to_num::<f64>();")
mut("c12_rec_notabs", "C12", C, "        } else if old_position.signum() != new_position.signum() {", "        } else if old_position.signum() * new_position.signum() < 0 {")
mut("c12_flip_inc", "C12", C, "            increased_lots = new_position.abs();\n            let old_position", "            increased_lots = base_change.abs();\n            let old_position")
mut("c12_constraint", "C12", C, "        self.change_quote_position(quote_change_native);\n        self.apply_recurring", "        self.apply_recurring")
mut("c12_maker_lots", "C12", A, "        pa.adjust_maker_lots(side, -quantity_filled);\n", "        if fill.maker_out() { pa.adjust_maker_lots(side, -quantity_filled); }\n")
mut("c12_out_id", "C12", A, "let order_id_match = is_old_event || oo.id == order_id;", "let order_id_match = is_old_event || oo.id >= order_id;")
mut("c12_fill_slot", "C12", A, "        if is_active && order_id_match {\n            // Old orders", "        if is_active {\n            // Old orders")
mut("c12_buyback", "C12", A, "f.accrue_buyback_fees(fees.floor()", "f.accrue_buyback_fees(fees.ceil()")
mut("c12_expire", "C12", A, "            f.expire_buyback_fees(now_ts, group.buyback_fees_expiry_interval);\n", "")
mut("c12_tv", "C12", A, "pa.taker_volume += quote_change_native.abs()", "pa.maker_volume += quote_change_native.abs()")
mut("c12_fund_taker", "C12 C13", A, "        pa.settle_funding(perp_market);\n\n        let (base_change, quote_change) = fill.base_quote_change(fill.taker_side());", "        let (base_change, quote_change) = fill.base_quote_change(fill.taker_side());")
mut("c12_oi", "C12", C, "        self.change_base_position(perp_market, base_change);", "        self.change_base_position(perp_market, base_change.max(-self.base_position_lots.abs()).min(base_change));")
# C13
mut("c13_max_dt", "C13", PM, "let max_funding_timestep = 3600;", "let max_funding_timestep = 3605;")
mut("c13_swap", "C13", PM, "(Some(_bid), None) => self.max_funding", "(Some(_bid), None) => I80F48::ZERO")
mut("c13_now", "C13", PM, "if now_ts <= self.funding_last_updated {", "if now_ts < self.funding_last_updated {")
mut("c13_iter", "C13 C10", "state/orderbook/bookside.rs", "for order in self.iter_valid(now_ts, oracle_price_lots) {\n            sum += order.node.quantity;\n            if sum >= quantity {\n                return Some", "for order in self.iter_all_including_invalid(now_ts, oracle_price_lots) {\n            sum += order.node.quantity;\n            if sum >= quantity {\n                return Some")
mut("c13_stale", "C13", "instructions/perp_update_funding.rs", "Some((now_ts, now_slot)),", "None,")
mut("c13_order", "C13", "instructions/perp_place_order.rs", "        perp_market.update_funding_and_stable_price(&book, &oracle_state, now_ts)?;\n", "        if perp_market.funding_last_updated + 10 < now_ts { perp_market.update_funding_and_stable_price(&book, &oracle_state, now_ts)?; }\n")
# C14
mut("c14_window", "C14", C, "let new_window = now_ts >= window_end || now_ts < window_start;", "let new_window = now_ts > window_end || now_ts < window_start;")
mut("c14_used", "C14", C, "        self.settle_pnl_limit_settled_in_current_window_native += used_settle_limit;", "        self.settle_pnl_limit_settled_in_current_window_native += used_settle_limit.max(0);")
mut("c14_oneshot", "C14", C, "                .max(self.oneshot_settle_pnl_allowance)\n                .min(I80F48::ZERO)", "                .max(self.oneshot_settle_pnl_allowance)")
mut("c14_rec", "C14", C, "                used_settle_limit = (used_settle_limit + recurring_allowance_change).max(0);", "                used_settle_limit = used_settle_limit + recurring_allowance_change;")
mut("c14_maint", "C14 C05", "health/cache.rs", "    pub fn perp_max_settle(&self, settle_token_index: TokenIndex) -> Result<I80F48> {\n        let maint_type = HealthType::Maint;", "    pub fn perp_max_settle(&self, settle_token_index: TokenIndex) -> Result<I80F48> {\n        let maint_type = HealthType::LiquidationEnd;")
mut("c14_fee_mx", "C14", PM, "low_health_fee.min(flat_fee * I80F48::from(2))", "low_health_fee")
mut("c14_fee_thr", "C14", PM, "I80F48::from(100) * source_pnl_value > source_position_value", "I80F48::from(1000) * source_pnl_value > source_position_value")
mut("c14_fees_health", "C14", "instructions/perp_settle_fees.rs", "compute_health(&account.borrow(), HealthType::Init,", "compute_health(&account.borrow(), HealthType::Maint,")
mut("c14_fee_wd", "C14", "instructions/perp_settle_pnl.rs", "settle_bank.withdraw_without_fee(b_token_position, settlement, now_ts)?;", "settle_bank.withdraw_with_fee(b_token_position, settlement, now_ts)?;")
mut("c14_order", "C14", "instructions/perp_settle_pnl.rs", "    b_perp_position.update_settle_limit(&perp_market, now_ts);\n", "")
# C07
mut("c07_fee_one", "C07", LT, "* (I80F48::ONE + asset_bank.liquidation_fee + asset_bank.platform_liquidation_fee);", "* (I80F48::ONE + asset_bank.liquidation_fee);")
mut("c07_healthbal", "C07", LT, "        .min(-liqee_liab_health_balance)\n", "")
mut("c07_assethb", "C07", LT, "        .min(liqee_asset_health_balance)\n", "")
mut("c07_weight", "C07", LT, "let init_liab_weight = liab_bank.init_liab_weight;", "let init_liab_weight = liab_bank.maint_liab_weight;")
mut("c07_cap", "C07", LT, "        .min(liab_possible)\n", "")
mut("c07_recover", "C07 C06", LT, "    let liqee_liq_end_health = liqee_health_cache.health(HealthType::LiquidationEnd);\n    liqee\n        .fixed", "    let liqee_liq_end_health = liqee_health_cache.health(HealthType::Maint);\n    liqee\n        .fixed")
mut("c07_liqfees", "C07", LT, "asset_bank.collected_liquidation_fees += asset_liquidation_fee;", "asset_bank.collected_liquidation_fees += asset_transfer_base;")
mut("c07_disable", "C07 C19", LT, "        asset_bank.allows_asset_liquidation(),", "        liab_bank.allows_asset_liquidation(),")
# C08
mut("c08_elig", "C08", LB, "if liab_mint_info.elligible_for_group_insurance_fund() {", "if liab_token_index == 0 || liab_mint_info.elligible_for_group_insurance_fund() {")
mut("c08_index", "C08 C01", LB, "            indexed_total_deposits += bank.indexed_deposits;", "            indexed_total_deposits = bank.indexed_deposits;")
mut("c08_hb", "C08", LB, "(-initial_liab_native).min(-liqee_liab_health_balance)", "(-initial_liab_native)")
mut("c08_phase", "C08 C06", LB, "    liqee_health_cache.require_after_phase2_liquidation()?;\n", "")
mut("c08_social", "C08", LB, "if insurance_fund_exhausted && remaining_liab_loss.is_positive()", "if remaining_liab_loss.is_positive()")
mut("c08_pfee", "C08", PN, "let liquidation_fee_factor = I80F48::ONE + perp_market.base_liquidation_fee;", "let liquidation_fee_factor = I80F48::ONE;")
mut("c08_psoc", "C08 C12", PN, "if insurance_fund_exhausted && remaining_liab > 0 {", "if remaining_liab > 0 {")
mut("c08_pset", "C08", PN, "if settlement == max_settlement_liqee && liqee_pnl < 0 {", "if liqee_pnl < 0 {")
mut("c08_socl", "C08 C12", PM, "self.short_funding -= socialized_loss", "self.short_funding += socialized_loss")
mut("c08_maxto", "C08", PN, "            .min(max_liab_transfer)\n            .max(I80F48::ZERO);\n\n", "            .max(I80F48::ZERO);\n\n")
# C09
mut("c09_cap", "C09", PB, "            .min(max_base_transfer.abs() - base_reduction)\n", "            .min(max_base_transfer.abs())\n")
mut("c09_neg", "C09", PB, "            -current_uhupnl,\n            uhupnl_per_lot,", "            I80F48::MAX,\n            uhupnl_per_lot,")
mut("c09_post", "C09", PB, "    if current_uhupnl >= 0 && pnl_transfer < max_pnl_transfer {", "    if current_uhupnl >= 0 {")
mut("c09_fee_sign", "C09", PB, "base_fee_factor_all = base_fee_factor_liqor + perp_market.platform_liquidation_fee;", "base_fee_factor_all = base_fee_factor_liqor - perp_market.platform_liquidation_fee;")
mut("c09_fills", "C09", PB, "!liqee_perp_position.has_open_taker_fills(),", "true,")
mut("c09_once", "C09", PB, "                .min(max_transfer - limit_transfer_recurring)", "                .min(max_transfer)")
mut("c09_posfee", "C09", PB, "let token_transfer = pnl_transfer * spot_gain_per_settled;", "let token_transfer = pnl_transfer;")
mut("c09_gain", "C09", PB, "            uhupnl_per_lot * spot_gain_per_settled,\n", "            uhupnl_per_lot,\n")
mut("c09_nwin", "C08", PN, "        liqee_perp_position.update_settle_limit(&perp_market, now_ts);\n", "")
mut("c09_nlim", "C08", PN, "            .min(-liqee_settleable_pnl)\n", "            .min(-liqee_pnl)\n")
mut("c09_phase2", "C08", PN, "    liqee_health_cache.require_after_phase2_liquidation()?;\n", "")
# C02-C04
mut("c04_win", "C04", B, "            self.last_net_borrows_window_start_ts = now_ts / self.net_borrow_limit_window_size_ts\n                * self.net_borrow_limit_window_size_ts;", "            self.last_net_borrows_window_start_ts = now_ts;")
mut("c04_price", "C04", B, "let price = oracle_price.max(self.stable_price());\n        let net_borrows", "let price = oracle_price;\n        let net_borrows")
mut("c04_neg", "C04", B, "self.net_borrows_in_window < 0 || self.net_borrow_limit_per_window_quote < 0", "self.net_borrow_limit_per_window_quote < 0")
mut("c04_serum", "C04", B, "        let deposits = self.native_deposits();\n        let serum = I80F48::from(self.potential_serum_tokens);\n        let total = deposits + serum;\n        let remaining = ", "        let deposits = self.native_deposits();\n        let serum = I80F48::from(self.potential_serum_tokens / 2);\n        let total = deposits + serum;\n        let remaining = ")
mut("c03_fee", "C03", B, "let borrow_fees = native_total_borrows * self.loan_fee_rate", "let borrow_fees = native_total_deposits * self.loan_fee_rate")
mut("c03_ratefee", "C03", B, "let deposit_rate = borrow_rate * instantaneous_utilization;", "let deposit_rate = (borrow_rate + self.loan_fee_rate) * instantaneous_utilization;")
# C20
FL = "instructions/flash_loan.rs"
mut("c20_top", "C20", FL, "&current_ix.program_id == program_id,", "true,")
mut("c20_unique", "C20", FL, "!seen_token_indexes.contains(&bank.token_index),", "true,")
mut("c20_vault", "C20", FL, "        require_keys_eq!(bank.vault, *vault_ai.key);\n", "")
mut("c20_mint", "C20", FL, "        require_keys_eq!(token_account.mint, bank.mint);\n\n        // This check is likely", "        // This check is likely")
mut("c20_mintend", "C20", FL, "        require_keys_eq!(token_account.mint, bank.mint);\n\n        // Ensure", "        // Ensure")
mut("c20_grp", "C20", FL, "        require_keys_neq!(token_account.owner, group_ai.key());\n", "")
mut("c20_appr", "C20", FL, "        require_eq!(bank.flash_loan_approved_amount, 0);\n        require_eq!(bank.flash_loan_token_account_initial, u64::MAX);\n", "")
mut("c20_deleg", "C20", FL, "            if account.fixed.is_delegate(*owner_pk) {", "            if false {")
mut("c20_otherix", "C20", FL, "                require!(\n                    ix.data[0..8] == crate::instruction::FlashLoanEndV2::discriminator(),\n                    MangoError::SomeError\n                );", "                if ix.data[0..8] != crate::instruction::FlashLoanEndV2::discriminator() { index += 1; continue; }")
mut("c20_nloans", "C20", FL, "                require_eq!(ix.data[8] as usize, num_loans);\n", "")
mut("c20_acct", "C20", FL, "account_ai.key() == ix.accounts[0].pubkey,", "true,")
mut("c20_trail", "C20", FL, "*begin_account.key == end_account.pubkey,", "true,")
mut("c20_trail2", "C20", FL, "for (begin_account, end_account) in begin_accounts.iter().zip(end_accounts.iter()) {", "for (begin_account, end_account) in begin_accounts.iter().zip(end_accounts.iter()).take(num_loans) {")
mut("c20_cpi", "C20", FL, "meta.pubkey != crate::id(),", "true,")
mut("c20_found", "C20", FL, "            found_end,\n", "            true,\n")
mut("c20_init", "C20", FL, "        require_neq!(bank.flash_loan_token_account_initial, u64::MAX);\n", "")
mut("c20_maxfee", "C20", FL, "max_swap_fee_rate.max(bank.flash_loan_swap_fee_rate)", "bank.flash_loan_swap_fee_rate")
mut("c20_two", "C20", FL, "                changes.len() == 2,", "                true,")
mut("c20_loan", "C20", FL, "            (approved_amount - native).max(I80F48::ZERO)", "            approved_amount")
mut("c20_loan2", "C20", FL, "(approved_amount - native).max(I80F48::ZERO)", "(-change.amount - native).max(I80F48::ZERO)")
mut("c20_swapfee", "C20", FL, "if change.amount < 0 && flash_loan_type == FlashLoanType::Swap {", "if change.amount < 0 && flash_loan_type != FlashLoanType::Unknown {")
mut("c20_rod", "C20", FL, "native_after_change < 1 || native_after_change <= native,", "native_after_change < 1 || native_after_change <= native + I80F48::from_num(1000),")
mut("c20_rob", "C20", FL, "native_after_change >= native || native_after_change >= 0,", "native_after_change >= native || native > 0,")
mut("c20_colfee", "C20", FL, "        bank.collected_fees_native += swap_fee;\n", "")
mut("c20_reset", "C20", FL, "        bank.flash_loan_approved_amount = 0;\n", "")
mut("c20_hasbank", "C20", FL, "            has_bank,\n            MangoError::InvalidBank", "            true || *has_bank,\n            MangoError::InvalidBank")
mut("c20_grpend", "C20", FL, "    require_keys_eq!(group, group_ai.key());\n\n    // Find", "    // Find")
# C17
MA = "state/mango_account.rs"
mut("c17_tcs", "C17", MA, "        require_gte!(new_header.token_conditional_swap_count(), active_tcs);\n", "")
mut("c17_oo", "C17", MA, "                blocked_perp_oo = idx + 1;\n                break;", "                blocked_perp_oo += 1;")
mut("c17_tok", "C17", MA, "            if i != active_token_positions {", "            if i > active_token_positions + 1 {")
mut("c17_order", "C17", MA, "if new_perp_start > old_perp_start && active_perp_positions > 0 {", "if new_perp_start > old_perp_start && active_perp_positions > 1 {")
mut("c17_limit", "C17", MA, "if new_health_accounts > prev_health_accounts {", "if new_health_accounts > prev_health_accounts + 1 {")
mut("c17_lim2", "C17", MA, "if self.perp_oo_count > prev.perp_oo_count {", "if false {")
mut("c17_inuse", "C17", MA, "                settle_token_position.increment_in_use();\n", "")
mut("c17_active", "C17", MA, "            } else if match_or_free.is_none() {", "            } else {")
mut("c17_cid", "C17", MA, "oo.is_active_for_market(market_index) && oo.client_id == client_order_id", "oo.is_active() && oo.client_id == client_order_id")
mut("c17_unused", "C17", MA, "                && p.taker_base_lots == 0\n                && p.taker_quote_lots == 0\n", "")
mut("c17_liq", "C17", "instructions/account_close.rs", "        require!(!account.fixed.being_liquidated(), MangoError::SomeError);\n", "")
mut("c17_serum", "C17", "instructions/account_close.rs", "        for ele in account.all_serum3_orders() {\n            require_eq!(ele.is_active(), false);\n        }\n", "")
mut("c17_mig", "C17", "instructions/account_size_migration.rs", "        ..current_header\n", "        perp_oo_count: current_header.perp_oo_count.min(account.all_perp_orders().filter(|o| o.is_active_for_market(o.market) && o.market != u16::MAX).count().max(8) as u8),\n        ..current_header\n")
mut("c17_rent", "C17", "instructions/account_expand.rs", "new_rent_minimum - current_lamports,", "new_rent_minimum,")
mut("c17_default", "C17", MA, "            for i in active_perp_positions..new_header.perp_count() {", "            for i in active_perp_positions + 1..new_header.perp_count() {")
# C21
SP = "instructions/serum3_place_order.rs"
SS = "instructions/serum3_settle_funds.rs"
SF = "instructions/serum3_liq_force_cancel_orders.rs"
mut("c21_borrow", "C21", SP, "        .max(native_after)\n", "")
mut("c21_sat", "C21", SP, "        *borrows_without_fee = (*borrows_without_fee).saturating_sub(needed_change.to_num::<u64>());", "        *borrows_without_fee = 0;")
mut("c21_which", "C21", SP, "    if bank.token_index == market.base_token_index {\n        borrows_without_fee = &mut market.base_borrows_without_fee;", "    if needed_change < 0 && bank.token_index == market.base_token_index {\n        borrows_without_fee = &mut market.base_borrows_without_fee;")
mut("c21_reb", "C21", SP, "    if fees_to_dao {\n", "    if fees_to_dao || before_oo.native_quote_free() == 0 {\n")
mut("c21_rebcol", "C21", SP, "        quote_bank.collected_fees_native += I80F48::from(received_fees);\n", "")
mut("c21_lowbid", "C21", SP, "serum.lowest_placed_bid_inv.max(limit_price_inv)", "serum.lowest_placed_bid_inv.min(limit_price_inv)")
mut("c21_highbid", "C21", SP, "serum.highest_placed_bid_inv.min(limit_price_inv)", "serum.highest_placed_bid_inv.max(limit_price_inv)")
mut("c21_ask", "C21", SP, "serum.highest_placed_ask.max(limit_price)", "limit_price")
mut("c21_reset", "C21", SP, "    if !before_had_asks {", "    if !before_had_asks || matches!(side, Serum3Side::Ask) {")
mut("c21_reset2", "C21", SP, "    if !before_had_bids {", "    if !before_had_asks {")
mut("c21_potsettle", "C21", SP, "        update_bank_potential_tokens(serum_orders, base_bank, quote_bank, after_oo);\n", "        update_bank_potential_tokens_payer_only(serum_orders, base_bank, after_oo);\n")
mut("c21_pot", "C21", SP, "        let new_quote = oo.native_quote_total()\n            + (oo.native_base_reserved() as f64 * serum_orders.highest_placed_ask) as u64;\n        let old", "        let new_quote = oo.native_quote_total()\n            + (oo.native_base_reserved() as f64 * serum_orders.lowest_placed_ask) as u64;\n        let old")
mut("c21_pot2", "C21", SP, "    let new_quote = oo.native_quote_total()\n        + (oo.native_base_reserved() as f64 * serum_orders.highest_placed_ask) as u64;", "    let new_quote = oo.native_quote_reserved()\n        + (oo.native_base_reserved() as f64 * serum_orders.highest_placed_ask) as u64;")
mut("c21_recvlimit", "C21", SP, "        receiver_bank\n            .check_deposit_and_oo_limit()\n            .with_context(|| std::format!(\"on {}\", receiver_bank.name()))?;", "        let _ = receiver_bank;")
mut("c21_paylimit", "C21", SP, "        payer_bank\n            .check_deposit_and_oo_limit()\n            .with_context(|| std::format!(\"on {}\", payer_bank.name()))?;", "")
mut("c21_net", "C21", SP, "        payer_bank.check_net_borrows(payer_bank_oracle)?;\n", "")
mut("c21_util", "C21", SP, "        payer_bank.enforce_max_utilization_on_borrow()?;\n", "        payer_bank.enforce_borrows_lte_deposits()?;\n")
mut("c21_band", "C21", SP, "limit_price_in_dollar <= base_oracle_f64 * band_factor,", "limit_price <= base_oracle_f64 * band_factor,")
mut("c21_band2", "C21", SP, "limit_price_in_dollar * band_factor >= base_oracle_f64,", "limit_price_in_dollar * (1.0 + band_factor) >= base_oracle_f64,")
mut("c21_ro", "C21", SP, "            balance + potential < 1,", "            balance < 1 || potential < 1,")
mut("c21_ro2", "C21", SP, "            balance + potential < 1,", "            balance < 1,")
mut("c21_v1", "C21", SP, "require_v2 || !v1_available || (receiver_bank_ai.is_writable && v2_available);", "require_v2 || (receiver_bank_ai.is_writable && v2_available);")
mut("c21_v2", "C21", SP, "            require!(v2_available, MangoError::IxIsDisabled);\n", "")
mut("c21_health", "C21", SP, "    vault_difference.adjust_health_cache_token_balance(&mut health_cache, &payer_bank)?;\n    let serum_account", "    let serum_account")
mut("c21_total", "C21", SS, "            .saturating_sub(oo_quote_total),", "            .saturating_sub(before_oo.native_quote_reserved()),")
mut("c21_twice", "C21", SS, "        serum3_account.quote_borrows_without_fee = oo_quote_total;\n", "")
mut("c21_twiceb", "C21", SS, "        serum3_account.base_borrows_without_fee = oo_base_total;\n", "        serum3_account.base_borrows_without_fee = 0;\n")
mut("c21_fcfee", "C21", SF, "            &before_oo,\n            None,\n            None,", "            &OpenOrdersSlim { native_coin_free: u64::MAX/4, native_coin_total: u64::MAX/2, native_pc_free: 0, native_pc_total: u64::MAX/2, referrer_rebates_accrued: 0 },\n            None,\n            None,")
mut("c21_fcop", "C21", SF, "            || serum_market.is_force_close();", "            || serum_market.is_reduce_only();")
mut("c21_fcliq", "C21", SF, "liquidatable == CheckLiquidatable::Liquidatable", "liquidatable != CheckLiquidatable::NotLiquidatable")
mut("c21_fcdao", "C21", SF, "        Some(&mut health_cache),\n        true,", "        Some(&mut health_cache),\n        false,")
mut("c21_fchealth", "C21", SF, "        Some(&mut health_cache),\n        true,", "        None,\n        true,")
mut("c21_buyback", "C21", SP, "quote_oracle_price.min(quote_bank.stable_price())", "quote_oracle_price")
mut("c21_vneed", "C21", SP, "(max_base_qty * base_lot_size).saturating_sub(before_oo.native_base_free())", "max_base_qty * base_lot_size")
# C25
CF="instructions/token_charge_collateral_fees.rs"; BY="instructions/account_buyback_fees_with_mngo.rs"
mut("c25_first", "C25", CF, "    if account.fixed.last_collateral_fee_charge == 0 {\n        account.fixed.last_collateral_fee_charge = now_ts;\n        return Ok(());\n    }\n", "")
mut("c25_reset", "C25", CF, "        account.fixed.last_collateral_fee_charge = 0;\n", "")
mut("c25_due", "C25", CF, "if now_ts < last_charge_ts + group", "if now_ts <= last_charge_ts + group")
mut("c25_cap", "C25", CF, ".min(2 * group.collateral_fee_interval)", ".min(3 * group.collateral_fee_interval)")
mut("c25_thresh", "C25", CF, "if liabs < 100_000_000 {", "if liabs < 10_000_000 {")
mut("c25_spot", "C25", CF, "        token_balances[s3info.quote_info_index].spot_and_perp += s3info.reserved_quote;\n", "")
mut("c25_one", "C25", CF, "            .min(I80F48::ONE);", "            .max(I80F48::ZERO);")
mut("c25_neg", "C25", CF, "if token_balance <= 0 {\n            continue;", "if token_balance < -1000000 {\n            continue;")
mut("c25_maw", "C25", CF, "bank.collateral_fee_per_day <= 0.0 || bank.maint_asset_weight.is_zero()", "bank.collateral_fee_per_day <= 0.0")
mut("c25_oracle", "C25", CF, "fee * token_info.prices.oracle;\n\n        bank", "fee * token_info.prices.stable;\n\n        bank")
mut("c25_share", "C25", CF, "(health / total_liab_health).abs()", "(health / total_asset_health).abs().min(I80F48::ONE)")
mut("c25_noinc", "C25", CF, "        bank.collected_fees_native += fee;\n", "")
mut("c25_late", "C25", CF, "    account.fixed.last_collateral_fee_charge = now_ts;\n\n    // Charge", "    account.fixed.last_collateral_fee_charge = last_charge_ts + group.collateral_fee_interval;\n\n    // Charge")
mut("c25_init", "C25", CF, "effective_token_balances(HealthType::Maint)", "effective_token_balances(HealthType::Init)")
mut("c25_pmin", "C25", BY, "mngo_oracle_price.min(mngo_bank.stable_price())", "mngo_oracle_price.max(mngo_bank.stable_price())")
mut("c25_pmax", "C25", BY, "fees_oracle_price.max(fees_bank.stable_price())", "fees_oracle_price")
mut("c25_noexp", "C25", BY, "    account\n        .fixed\n        .expire_buyback_fees(now_ts, group.buyback_fees_expiry_interval);\n", "")
mut("c25_ceil", "C25", BY, "max_buyback_usd.ceil()", "max_buyback_usd.floor()")
mut("c25_mngo", "C25", BY, "max_buyback_mngo = max_buyback_mngo.min(account_mngo);", "")
mut("c25_recomp", "C25", BY, "max_buyback_usd = max_buyback_usd.min(max_buyback_mngo * mngo_buyback_price);", "")
mut("c25_daoneg", "C25", BY, "    require!(\n        dao_mngo_token_position.indexed_position >= I80F48::ZERO,\n        MangoError::SomeError\n    );\n", "")
mut("c25_daoliab", "C25", BY, "        require!(!ele.indexed_position.is_negative(), MangoError::SomeError);", "        require!(!ele.indexed_position.is_negative() || ele.token_index != 0, MangoError::SomeError);")
mut("c25_self", "C25", BY, "    require_keys_neq!(\n        ctx.accounts.account.key(),\n        ctx.accounts.dao_account.key(),\n        MangoError::SomeError\n    );\n", "")
mut("c25_exp1", "C25", A, "} else if now_ts < self.buyback_fees_expiry_timestamp + interval {", "} else if now_ts <= self.buyback_fees_expiry_timestamp + interval {")
mut("c25_exp2", "C25", A, "self.buyback_fees_expiry_timestamp = (now_ts / interval + 1) * interval;", "self.buyback_fees_expiry_timestamp = now_ts + interval;")
mut("c25_red", "C25", A, "            self.buyback_fees_accrued_current -= remaining_amount;\n            self.buyback_fees_accrued_previous = 0;", "            self.buyback_fees_accrued_current -= remaining_amount;")
mut("c25_wd", "C25", "instructions/admin_token_withdraw_fees.rs", "    bank.fees_withdrawn += amount;\n", "    bank.fees_withdrawn += fees;\n")
mut("c25_wd2", "C25", "instructions/admin_perp_withdraw_fees.rs", "perp_market.fees_settled.floor()", "perp_market.fees_accrued.floor()")
mut("c25_wd3", "C25", "instructions/admin_token_withdraw_fees.rs", "collected_fees_native.floor()", "collected_fees_native.ceil()")
mut("c25_ins", "C25", "instructions/group_change_insurance_fund.rs", "        group.insurance_mint = ctx.accounts.new_insurance_mint.key();\n", "")
CM = "lib/checked_math/src/transform/checked.rs"
CL = "lib/checked_math/src/lib.rs"
MT = "programs/margin-trade/src/lib.rs"
mut("c23_neg", "C23", CM, "Some(e) => e.checked_neg(),", "Some(e) => Some(-e),")
mut("c23_negw", "C23", CM, "Some(e) => e.checked_neg(),", "Some(e) => Some(e.wrapping_neg()),")
mut("c23_rem", "C23", CM, 'BinOp::Rem(_) => Some("checked_rem"),', 'BinOp::Rem(_) => None,')
mut("c23_shl", "C23", CM, 'BinOp::Shl(_) => Some("checked_shl"),', 'BinOp::Shl(_) => None,')
mut("c23_shr", "C23", CM, 'BinOp::Shr(_) => Some("checked_shr"),', 'BinOp::Shr(_) => Some("checked_shl"),')
mut("c23_diveuclid", "C23", CM, 'BinOp::Div(_) => Some("checked_div"),', 'BinOp::Div(_) => Some("checked_div_euclid"),')
mut("c23_remeuclid", "C23", CM, 'BinOp::Rem(_) => Some("checked_rem"),', 'BinOp::Rem(_) => Some("checked_rem_euclid"),')
mut("c23_divassign", "C23", CM, "BinOp::DivEq(t) => BinOp::Div(syn::token::Div(t.spans[0])),", "BinOp::DivEq(t) => BinOp::Mul(syn::token::Star(t.spans[0])),")
mut("c23_subassign", "C23", CM, "BinOp::SubEq(t) => BinOp::Sub(syn::token::Sub(t.spans[0])),", "BinOp::SubEq(t) => BinOp::Add(syn::token::Add(t.spans[0])),")
mut("c23_abs", "C23", CM, 'mc.method == "abs" {\n                mc.method = syn::Ident::new("checked_abs", mc.method.span());\n                quote! { #mc }', 'mc.method == "abs" {\n                quote! { Some(#mc) }')
mut("c23_pow", "C23", CM, 'mc.method = syn::Ident::new("checked_pow", mc.method.span());\n                quote! { #mc }', 'mc.method = syn::Ident::new("saturating_pow", mc.method.span());\n                quote! { Some(#mc) }')
mut("c23_order", "C23", CM, "match (#left, #right) {\n                        (Some(left), Some(right)) => left.#method_name(right),", "match (#right, #left) {\n                        (Some(right), Some(left)) => left.#method_name(right),")
mut("c23_unwrap", "C23", CM, "_ => {\n            let toks = transform_expr(expr);\n            quote! { (#toks).unwrap_or_else(|| panic!(\"math error\")) }", "_ => {\n            let toks = transform_expr(expr);\n            quote! { (#toks).unwrap_or_default() }")
mut("c23_cast", "C23", CM, "#expr.map(|v| v as #ty)", "#expr.map(|v| v as u32 as #ty)")
mut("c23_bitand", "C23", CM, "_ => abort!(op, \"unsupported binary expr\"),", "_ => None,")
mut("c23_not", "C23", CM, "UnOp::Not(_) => abort!(expr, \"unsupported unary expr\"),", "UnOp::Not(_) => quote! { #expr.map(|e| !e) },")
mut("c23_args", "C23", CM, 'abort!(mc, "method calls with arguments are not supported");', 'quote! { Some(#mc) }')
mut("c23_callargs", "C23", CM, 'abort!(c, "calls with arguments are not supported");', 'quote! { Some(#c) }')
mut("c23_groupneg", "C23", CM, "Expr::Paren(p) => {\n            let expr = transform_expr(*p.expr);\n            quote! {\n                (#expr)\n            }", "Expr::Paren(p) => {\n            let expr = p.expr;\n            quote! {\n                Some(#expr)\n            }")
mut("c23_castraw", "C23", CM, "let expr = transform_expr(*c.expr);\n            quote! {\n                #expr.map", "let expr = c.expr;\n            quote! {\n                Some(#expr).map")
mut("c23_fromraw", "C23", CM, "let expr = transform_expr(c.args[0].clone());\n                quote! { (#expr).map(|v| #f(v)) }", "quote! { Some(#c) }")
mut("c23_panicorder", "C23", CM, "let bin_op_tokens = transform_expr(bin_op);\n            quote! {\n                #left = (#bin_op_tokens).unwrap_or_else(|| panic!(\"math error\"))", "let bin_op_tokens = transform_expr(bin_op);\n            quote! {\n                #left = (#bin_op_tokens).unwrap_or(#left)")
mut("c23_neglit", "C23", CM, "Expr::Unary(unary) => transform_unary(unary),", "Expr::Unary(unary) if matches!(*unary.expr, Expr::Field(_)) => quote! { Some(#unary) },\n        Expr::Unary(unary) => transform_unary(unary),")
mut("c23_absneg", "C23", CM, "UnOp::Neg(_) => {\n            quote! {", "UnOp::Neg(_) => {\n            quote! {{\n                let x = #expr; x.map(|e| e.wrapping_neg()) }\n            };\n            quote! {")
mut("c24_zero", "C24", MT, "if amount_from > 0 {", "if amount_from > 1 {")
mut("c24_zero2", "C24", MT, "if amount_from > 0 {", "if amount_from > amount_to {")
mut("c24_signer", "C24", MT, "authority: self.deposit_account_owner.to_account_info(),", "authority: self.withdraw_account_owner.to_account_info(),")
mut("c24_seed", "C24", MT, "&[b\"MarginTrade\".as_ref(), &[deposit_account_owner_bump_seeds]];", "&[b\"MarginTrade\".as_ref(), &[deposit_account_owner_bump_seeds.max(1)]];")
mut("c24_min", "C24", MT, "            amount_to,\n        )?;", "            amount_to.min(ctx.accounts.deposit_account.amount + amount_from),\n        )?;")
mut("c24_back0", "C24", MT, "        token::transfer(\n            ctx.accounts\n                .transfer_back", "        if amount_to >= amount_from || amount_from < 1000 {} \n        token::transfer(\n            ctx.accounts\n                .transfer_back")
mut("c24_from", "C24", MT, "from: self.withdraw_account.to_account_info(),\n            to: self.deposit_account.to_account_info(),\n            authority: self.withdraw_account_owner", "from: self.withdraw_account.to_account_info(),\n            to: self.deposit_account.to_account_info(),\n            authority: self.deposit_account_owner")
mut("c24_program", "C24", MT, "pub token_program: Program<'info, Token>,", "/// CHECK:\n    pub token_program: UncheckedAccount<'info>,")
mut("c24_mut", "C24", MT, "#[account(mut)]\n    pub withdraw_account: Account<'info, TokenAccount>,", "pub withdraw_account: Account<'info, TokenAccount>,")
mut("c24_unchecked", "C24", MT, "pub deposit_account: Account<'info, TokenAccount>,", "/// CHECK:\n    pub deposit_account: UncheckedAccount<'info>,")
mut("c24_signfrom", "C24", MT, "token::transfer(ctx.accounts.transfer_from_mango_vault_ctx(), amount_from)?;", "token::transfer(ctx.accounts.transfer_from_mango_vault_ctx().with_signer(&[&[b\"MarginTrade\".as_ref(), &[deposit_account_owner_bump_seeds]]]), amount_from)?;")
TE = "instructions/token_edit.rs"
PE = "instructions/perp_edit_market.rs"
BK = "state/bank.rs"
mut("c22_plat", "C22", TE, "            if platform_liquidation_fee != 0.0 {\n                require_group_admin = true;\n            }\n", "")
mut("c22_coll", "C22", TE, "if collateral_fee_per_day != 0.0 {", "if collateral_fee_per_day > bank.collateral_fee_per_day {")
mut("c22_init", "C22", TE, "if init_asset_weight != 0.0 {", "if init_asset_weight > bank.init_asset_weight.to_num::<f32>() {")
mut("c22_ro", "C22", TE, "|| (reduce_only == 2 && bank.reduce_only == 1)", "")
mut("c22_roord", "C22", TE, "            if reduce_only == 0 || (reduce_only == 2 && bank.reduce_only == 1) {\n                require_group_admin = true;\n            }\n            bank.reduce_only = reduce_only;", "            bank.reduce_only = reduce_only;\n            if reduce_only == 0 || (reduce_only == 2 && bank.reduce_only == 1) {\n                require_group_admin = true;\n            }")
mut("c22_mi", "C22", TE, "            mint_info.oracle = oracle;\n", "")
mut("c22_mifb", "C22", TE, "            mint_info.fallback_oracle = ctx.accounts.fallback_oracle.key();\n", "")
mut("c22_abort", "C22", TE, "            bank.maint_weight_shift_liab_target = I80F48::ZERO;\n            msg!", "            msg!")
mut("c22_abort2", "C22", TE, "            bank.maint_liab_weight = maint_liab_weight;\n            bank.maint_weight_shift_start = 0;", "            bank.maint_weight_shift_start = 0;")
mut("c22_abort3", "C22", TE, "            bank.maint_weight_shift_duration_inv = I80F48::ZERO;\n            bank.maint_weight_shift_asset", "            bank.maint_weight_shift_asset")
mut("c22_dur", "C22", TE, "if maint_weight_shift_start_opt.is_some() || maint_weight_shift_end_opt.is_some() {", "if maint_weight_shift_end_opt.is_some() {")
mut("c22_fc", "C22", TE, "                require!(bank.reduce_only > 0, MangoError::SomeError);\n", "                require!(bank.reduce_only > 1 || bank.reduce_only > 0 || bank.force_withdraw > 0, MangoError::SomeError);\n")
mut("c22_fc0", "C22", TE, "                require!(bank.reduce_only > 0, MangoError::SomeError);\n", "")
mut("c22_verify", "C22", TE, "    bank.verify()?;\n", "")
mut("c22_verifyall", "C22", TE, "mint_info.verify_banks_ais(ctx.remaining_accounts)?;", "require_keys_eq!(mint_info.banks[0], *ctx.remaining_accounts[0].key);")
mut("c22_deplim", "C22", TE, "            bank.deposit_limit = deposit_limit;\n            require_group_admin = true;", "            bank.deposit_limit = deposit_limit;\n            if deposit_limit == 0 { require_group_admin = true; }")
mut("c22_ins", "C22", TE, "            mint_info.group_insurance_fund = u8::from(group_insurance_fund);\n            require_group_admin = true;", "            mint_info.group_insurance_fund = u8::from(group_insurance_fund);")
mut("c22_resetnb", "C22", TE, "            bank.last_net_borrows_window_start_ts = 0;\n", "")
mut("c22_stablereset", "C22", TE, "            require_keys_eq!(bank.oracle, ctx.accounts.oracle.key());\n            let oracle_ref", "            let oracle_ref")
mut("c22_fbcheck", "C22", TE, "            check_is_valid_fallback_oracle(&AccountInfoRef::borrow(\n                ctx.accounts.fallback_oracle.as_ref(),\n            )?)?;\n", "")
mut("c22_libswap", "C22", "lib.rs", "            token_conditional_swap_taker_fee_rate_opt,\n            token_conditional_swap_maker_fee_rate_opt,", "            token_conditional_swap_maker_fee_rate_opt,\n            token_conditional_swap_taker_fee_rate_opt,")
mut("c22_util", "C22", BK, "        require_gte!(1.0, self.interest_target_utilization);\n", "")
mut("c22_fwverify", "C22", BK, "            require!(!self.allows_asset_liquidation(), MangoError::SomeError);\n", "")
mut("c22_dalverify", "C22", BK, "            require!(self.are_borrows_reduce_only(), MangoError::SomeError);\n", "")
mut("c22_nblv", "C22", BK, "        require_gte!(self.net_borrow_limit_per_window_quote, -1);\n", "")
mut("c22_exdep", "C22", BK, "deposit_limit: existing_bank.deposit_limit,", "deposit_limit: 0,")
mut("c22_extier", "C22", BK, "tier: existing_bank.tier,", "tier: Default::default(),")
mut("c22_exzero", "C22", BK, "zero_util_rate: existing_bank.zero_util_rate,", "zero_util_rate: I80F48::ZERO,")
mut("c22_exbuf", "C22", BK, "force_withdraw: existing_bank.force_withdraw,", "force_withdraw: 0,")
mut("c22_expot", "C22", BK, "potential_serum_tokens: 0,", "potential_serum_tokens: existing_bank.potential_serum_tokens,")
mut("c22_week", "C22", "instructions/token_register_trustless.rs", "if now_ts >= group.fast_listing_interval_start + week {", "if now_ts > group.fast_listing_interval_start + week {")
mut("c22_week2", "C22", "instructions/token_register_trustless.rs", "group.fast_listing_interval_start = now_ts / week * week;", "group.fast_listing_interval_start = now_ts;")
mut("c22_lim", "C22", "instructions/token_register_trustless.rs", "            group.allowed_fast_listings_per_interval,\n            group.fast_listings_in_interval\n", "            group.allowed_fast_listings_per_interval + 1,\n            group.fast_listings_in_interval\n")
mut("c22_trust", "C22", "instructions/token_register_trustless.rs", "disable_asset_liquidation: 1,", "disable_asset_liquidation: 0,")
mut("c22_trust2", "C22", "instructions/token_register_trustless.rs", "last_net_borrows_window_start_ts: now_ts / net_borrow_limit_window_size_ts\n            * net_borrow_limit_window_size_ts,", "last_net_borrows_window_start_ts: now_ts,")
mut("c22_trustq", "C22", "instructions/token_register_trustless.rs", "    require_neq!(token_index, TokenIndex::MAX);\n", "")
mut("c22_pro", "C22", PE, "        if !reduce_only {\n            require_group_admin = true;\n        }", "        if !reduce_only && perp_market.force_close > 0 {\n            require_group_admin = true;\n        }")
mut("c22_pfee", "C22", PE, "        perp_market.platform_liquidation_fee = I80F48::from_num(platform_liquidation_fee);\n        require_group_admin = true;", "        perp_market.platform_liquidation_fee = I80F48::from_num(platform_liquidation_fee);\n        if platform_liquidation_fee != 0.0 {\n            require_group_admin = true;\n        }")
mut("c22_pinit", "C22", PE, "        if init_overall_asset_weight != 0.0 {\n            require_group_admin = true;\n        }", "")
mut("c22_pfc", "C22", PE, "            require!(perp_market.reduce_only > 0, MangoError::SomeError);\n", "")
mut("c22_pneg", "C22", PE, "        require_gte!(\n            init_base_asset_weight,\n            0.0,\n            MangoError::InitAssetWeightCantBeNegative\n        );\n", "")
mut("c22_pwin", "C22", PE, "perp_market.settle_pnl_limit_window_size_ts = settle_pnl_limit_window_size_ts;\n        require_group_admin = true;", "perp_market.settle_pnl_limit_window_size_ts = settle_pnl_limit_window_size_ts;")
mut("c22_adm", "C22", "instructions/group_edit.rs", "        require_keys_neq!(admin, Pubkey::default());\n", "")
mut("c22_band", "C22", "instructions/serum3_edit_market.rs", "serum3_market.oracle_price_band = oracle_price_band;\n        require_group_admin = true;", "serum3_market.oracle_price_band = oracle_price_band;")
mut("c22_sfc", "C22", "instructions/serum3_edit_market.rs", "            require!(serum3_market.is_reduce_only(), MangoError::SomeError);\n", "")
mut("c22_tmpd", "C22", "instructions/account_edit.rs", "require_gt!(now_ts + ONE_WEEK_SECONDS, temporary_delegate_expiry);", "require_gte!(now_ts + ONE_WEEK_SECONDS, temporary_delegate_expiry);")
mut("c22_tmpd2", "C22", "instructions/account_edit.rs", "        (None, None) => {}\n", "        (None, _) => {}\n")
mut("c22_edit0", "C22", "instructions/account_edit.rs", "        name_opt.is_some() || delegate_opt.is_some(),", "        name_opt.is_some() || delegate_opt.is_some() || temporary_delegate_opt.is_some(),")
# ---- second wave: thinly mutated properties
UI = "instructions/token_update_index_and_rate.rs"; TD = "instructions/token_deposit.rs"; TW = "instructions/token_withdraw.rs"
HC = "health/cache.rs"; AR = "health/account_retriever.rs"; OB = "state/orderbook/book.rs"; BS = "state/orderbook/bookside.rs"
BI = "state/orderbook/bookside_iterator.rs"; OD = "state/orderbook/order.rs"; OT = "state/orderbook/ordertree.rs"; OR = "state/oracle.rs"
ST = "state/stable_price.rs"; TG = "instructions/token_conditional_swap_trigger.rs"; TS = "state/token_conditional_swap.rs"
# C01/C02
mut("w2_dep_round", "C02 C01", B, "            if (indexed * index) < native {\n                indexed + I80F48::DELTA\n            } else {\n                indexed\n            }", "            indexed")
mut("w2_dep_round2", "C02 C01", B, "            if (indexed * index) < native {", "            if (indexed * index) <= native {")
mut("w2_dep_dustall", "C02 C01", B, "} else if new_native_position < I80F48::ONE && allow_dusting {", "} else if new_native_position < I80F48::ONE {")
mut("w2_dep_dust2", "C02 C01", B, "                self.dust += new_native_position;\n                self.indexed_borrows += position", "                self.indexed_borrows += position")
mut("w2_dep_max0", "C02 C01", B, "native_amount = new_native_position.max(I80F48::ZERO);", "native_amount = new_native_position.abs();")
mut("w2_dep_cross", "C02 C01", B, "            // pay back all borrows\n            self.indexed_borrows += position.indexed_position;", "            // pay back all borrows\n            self.indexed_borrows -= indexed_change;")
mut("w2_wd_dust", "C02 C01", B, "                    self.dust += new_native_position;\n                    self.indexed_deposits -=", "                    self.indexed_deposits -=")
mut("w2_wd_dust2", "C02", B, "if new_native_position < I80F48::ONE && allow_dusting {\n                    // zero the account", "if new_native_position <= I80F48::ONE && allow_dusting {\n                    // zero the account")
mut("w2_wd_zero", "C02 C01", B, "                    self.dust += new_native_position;\n                    self.indexed_deposits -= position.indexed_position;", "                    self.dust += new_native_position;\n                    self.indexed_deposits -= native_amount / self.deposit_index;")
mut("w2_wd_fee", "C02", B, "            loan_origination_fee = self.loan_origination_fee_rate * native_amount;\n            self.collected", "            loan_origination_fee = (self.loan_origination_fee_rate * native_amount).floor();\n            self.collected")
mut("w2_wd_feeopen", "C02", B, "            // borrow the rest\n            native_amount = -new_native_position;", "            // borrow the rest\n            if with_loan_origination_fee { self.collected_fees_native += I80F48::ZERO; }\n            native_amount = -new_native_position + I80F48::DELTA;")
mut("w2_netborrow_in", "C04", B, "self.update_net_borrows(native_position.max(-native_amount), now_ts);", "self.update_net_borrows(-native_amount, now_ts);")
mut("w2_netborrow_in2", "C04", B, "            // Only account for the borrows we are repaying\n            self.update_net_borrows(native_position.max(-native_amount), now_ts);", "            self.update_net_borrows(native_position, now_ts);")
mut("w2_netborrow_floor", "C04", B, "let amount = native_amount.ceil().clamp_to_i64();", "let amount = native_amount.floor().clamp_to_i64();")
mut("w2_netborrow_fee", "C04", B, "        // add to borrows\n        let indexed_change", "        // add to borrows\n        self.update_net_borrows(native_amount - loan_origination_fee, now_ts);\n        if true { let ic = native_amount / self.borrow_index; self.indexed_borrows += ic; position.indexed_position -= ic; return Ok(WithdrawResult { position_is_active: true, loan_origination_fee, loan_amount: native_amount }); }\n        let indexed_change")
mut("w2_maxutil", "C04", B, "if bank_native_borrows > max_utilization * bank_native_deposits {", "if self.indexed_borrows > max_utilization * self.indexed_deposits {")
mut("w2_maxutil2", "C04", TW, "        bank.enforce_max_utilization_on_borrow()?;", "        bank.enforce_borrows_lte_deposits()?;")
mut("w2_chk_delta", "C04", B, "        if self.indexed_deposits > before_deposits + I80F48::DELTA {\n            self.check_deposit_and_oo_limit()?;\n        }", "")
mut("w2_chk_nb", "C04 C15", B, "        if self.indexed_borrows > before_borrows + I80F48::DELTA {\n            self.check_net_borrows(oracle_price)?;\n        }", "")
mut("w2_ctf_redsrc", "C15 C07", B, "                source.indexed_position >= 0 || !self.are_borrows_reduce_only(),", "                source.indexed_position >= 0 || !self.are_deposits_reduce_only(),")
mut("w2_ctf_redtgt", "C15", B, "                target.indexed_position <= 0 || !self.are_deposits_reduce_only(),", "                true,")
mut("w2_ctf_lo", "C15 C02", B, "let withdraw_result = self.withdraw_with_fee(source, source_amount, now_ts)?;", "let withdraw_result = self.withdraw_internal_wrapper(source, source_amount, false, !source.is_in_use(), now_ts)?;")
mut("w2_dep_roamt", "C02 C19", TD, "                    .ceil()\n                    .min(I80F48::from(amount))", "                    .floor()\n                    .min(I80F48::from(amount))")
mut("w2_dep_roerr", "C02 C19", TD, "reduce_only || amount_i80f48 == I80F48::from(amount),", "true,")
mut("w2_dep_limit", "C04", TD, "        if indexed_position > 0 {\n            bank.check_deposit_and_oo_limit()?;\n        }", "        if indexed_position > 0 && amount_i80f48 > 1000 {\n            bank.check_deposit_and_oo_limit()?;\n        }")
mut("w2_dep_recover", "C06", TD, "require!(recovered, MangoError::DepositsIntoLiquidatingMustRecover);", "")
mut("w2_dep_grplen", "C04", TD, "            require_eq!(\n                cache.token_infos.len(),\n                account.active_token_positions().count()\n            );", "")
mut("w2_dep_grpinit", "C04", TD, "            require_msg_typed!(\n                assets <= group.deposit_limit_quote,", "            require_msg_typed!(\n                assets / 2 <= group.deposit_limit_quote,")
mut("w2_wd_isborrow", "C02 C04 C19", TW, "let is_borrow = amount > native_position;", "let is_borrow = native_position < 0;")
mut("w2_wd_all", "C02", TW, "native_position.floor().to_num::<u64>()", "native_position.ceil().to_num::<u64>()")
mut("w2_wd_delata", "C02 C18", TW, "        require_keys_eq!(\n            ctx.accounts.token_account.owner,\n            account.fixed.owner,\n            MangoError::DelegateWithdrawOnlyToOwnerAta\n        );", "")
mut("w2_wd_delclose", "C02 C18", TW, "            !withdraw_result.position_is_active,\n            MangoError::DelegateWithdrawMustClosePosition", "            true,\n            MangoError::DelegateWithdrawMustClosePosition")
mut("w2_wd_borrowskip", "C06 C16", TW, "require!(!is_borrow, MangoError::BorrowsRequireHealthAccountBank);", "")
mut("w2_wd_conf", "C16 C04", TW, "        unsafe_oracle_state\n            .check_confidence_and_maybe_staleness(&bank.oracle_config, now_opt)", "        unsafe_oracle_state\n            .check_confidence(&bank.oracle_config)")
# C03
mut("w2_ui_maxstep", "C03", UI, "let max_interest_timestep = 3600; // hour", "let max_interest_timestep = 4000;")
mut("w2_ui_feeall", "C03 C01", UI, "        some_bank.collected_fees_native += borrow_fees;\n", "        if borrow_fees > 1 { some_bank.collected_fees_native += borrow_fees; }\n")
mut("w2_ui_shift", "C03", UI, "            && now_ts >= some_bank.maint_weight_shift_end;", "            && now_ts > some_bank.maint_weight_shift_end + 1;")
mut("w2_ui_shift2", "C03", UI, "                bank.maint_liab_weight = bank.maint_weight_shift_liab_target;\n", "")
mut("w2_ui_hour", "C03", UI, "if diff_ts > HOUR {", "if diff_ts > HOUR + HOUR {")
mut("w2_ui_ratets", "C03", UI, "                bank.bank_rate_last_updated = now_ts;\n", "                bank.bank_rate_last_updated = bank.bank_rate_last_updated.max(now_ts - 600);\n")
mut("w2_ui_ixs", "C03", UI, "== crate::instruction::TokenUpdateIndexAndRate::discriminator()\n", "== crate::instruction::TokenUpdateIndexAndRate::discriminator() || ix.data[0..8] == crate::instruction::TokenWithdraw::discriminator()\n")
mut("w2_ui_resil", "C03 C16", UI, "return if early_exit_on_invalid_oracle {", "return if !early_exit_on_invalid_oracle || early_exit_on_invalid_oracle {")
mut("w2_ui_stale", "C03 C16", UI, "            Some((clock.unix_timestamp as u64, clock.slot)),\n        );\n\n        // Early", "            None,\n        );\n\n        // Early")
mut("w2_ui_banks", "C03", UI, "    ctx.accounts\n        .mint_info\n        .load()?\n        .verify_banks_ais(ctx.remaining_accounts)?;\n", "    require!(ctx.remaining_accounts.len() > 0, MangoError::SomeError);\n")
mut("w2_avg_prev", "C03", B, "I80F48::from_num(self.index_last_updated - self.bank_rate_last_updated);", "I80F48::from_num(now_ts - self.bank_rate_last_updated);")
mut("w2_avg_inst", "C03", B, "        if new_avg_time <= 0 {\n            return instantaneous_utilization;\n        }", "        if new_avg_time <= 0 {\n            return self.avg_utilization;\n        }")
mut("w2_util_clamp", "C03", B, "                .max(I80F48::ZERO)\n                .min(I80F48::ONE)\n        }\n    }", "                .max(I80F48::ZERO)\n        }\n    }")
mut("w2_curve_seg", "C03", B, "let slope = (max_rate - rate1) / (I80F48::ONE - util1);", "let slope = (max_rate - rate1) / (I80F48::ONE - util0);")
mut("w2_curve_zero", "C03", B, "            zero_util_rate + slope * utilization\n", "            slope * utilization\n")
mut("w2_scale_min", "C03", B, "(self.interest_curve_scaling * adjustment).max(1.0)", "(self.interest_curve_scaling * adjustment).max(0.5)")
mut("w2_scale_fact", "C03", B, "(avg_util - target_util) / (1.0 - target_util)", "(avg_util - target_util) / target_util.max(0.01)")
mut("w2_cum_int", "C02 C03", B, "            position.cumulative_borrow_interest -= interest;", "            position.cumulative_borrow_interest += interest;")
mut("w2_prev_idx", "C02 C03", B, "            position.previous_index = self.deposit_index\n        } else {\n            position.previous_index = self.borrow_index\n        }", "            position.previous_index = self.deposit_index\n        }")
mut("w2_maintw", "C05 C03", B, "                + scale * (self.maint_weight_shift_liab_target - self.maint_liab_weight);", "                + scale * (self.maint_weight_shift_asset_target - self.maint_asset_weight);")
# C05
mut("w2_hc_asset", "C05", HC, "HealthType::Init => self.oracle.min(self.stable),", "HealthType::Init => self.stable,")
mut("w2_hc_scaledep", "C05", B, "self.native_deposits().to_num::<f64>() + self.potential_serum_tokens as f64;", "self.native_deposits().to_num::<f64>();")
mut("w2_hc_scaleprice", "C05", HC, "init_scaled_asset_weight: bank.scaled_init_asset_weight(liab_price),", "init_scaled_asset_weight: bank.scaled_init_asset_weight(prices.asset(HealthType::Init)),")
mut("w2_hc_adjprice", "C05", HC, "        let liab_price = entry.prices.liab(HealthType::Init);\n        entry.init", "        let liab_price = entry.prices.oracle;\n        entry.init")
mut("w2_hc_bid", "C05", HC, "+ reserved_quote_as_base_oracle.min(self.reserved_quote_as_base_highest_bid)", "+ self.reserved_quote_as_base_highest_bid")
mut("w2_hc_zerores", "C05", HC, "        if market_reserved.all_reserved_as_base.is_zero()\n            || market_reserved", "        if market_reserved.all_reserved_as_base.is_zero()\n            && market_reserved")
mut("w2_hc_negmax", "C05", HC, "            } else if max_balance.is_negative() {", "            } else if balance.spot_and_perp.is_negative() {")
mut("w2_hc_maxres", "C05", HC, "token_max_reserved[info.quote_info_index].max_serum_reserved += all_reserved_as_quote;", "token_max_reserved[info.quote_info_index].max_serum_reserved = all_reserved_as_quote;")
mut("w2_hc_overall", "C05", HC, "HealthType::Init | HealthType::LiquidationEnd => self.init_overall_asset_weight,\n                HealthType::Maint", "HealthType::Init => self.init_overall_asset_weight,\n                HealthType::LiquidationEnd | HealthType::Maint")
mut("w2_hc_taker", "C05", HC, "let quote_current = perp_position.quote_position_native() - unsettled_funding + taker_quote;", "let quote_current = perp_position.quote_position_native() + taker_quote;")
mut("w2_hc_asks", "C05", HC, "order_execution_case(-self.asks_base_lots, self.base_prices.asset(health_type));", "order_execution_case(-self.asks_base_lots, self.base_prices.liab(health_type));")
mut("w2_hc_ignneg", "C05 C14", HC, "if !ignore_negative_perp || health_unsettled > 0 {", "if !ignore_negative_perp || perp_info.quote > 0 {")
mut("w2_hc_zerofunds", "C05 C08", HC, "                && open_orders.native_rebates() == 0,", "                ,")
mut("w2_hc_spotassets", "C05 C07", HC, "                ti.balance_spot >= 1 && b.spot_and_perp >= 1 && ti.allow_asset_liquidation\n            })\n    }\n\n    pub fn has_serum3", "                ti.balance_spot >= 1 && b.spot_and_perp > 0 && ti.allow_asset_liquidation\n            })\n    }\n\n    pub fn has_serum3")
mut("w2_hc_pnlnb", "C05", HC, ".any(|p| p.base_lots == 0 && p.quote > 0)", ".any(|p| p.quote > 0)")
mut("w2_hc_leverage", "C05", HC, "            assets += serum_info.reserved_quote * quote.prices.oracle;\n", "            assets += serum_info.reserved_quote * base.prices.oracle;\n")
mut("w2_hc_stabliab", "C05", HC, "total_liabs += assets + (liab_balance - asset_balance) * liab_weighted_price;", "total_liabs += assets + (liab_balance - asset_balance) * asset_weighted_price;")
mut("w2_hc_skiposs", "C05 C16", HC, "            && position.indexed_position >= 0\n        {\n            // Ignore", "            && position.indexed_position >= -1000\n        {\n            // Ignore")
mut("w2_hc_free", "C05", HC, "            base_entry.balance_spot += free_base_change;", "            base_entry.balance_spot += free_base_change.max(I80F48::ZERO);")
mut("w2_ar_group", "C18", AR, "                require_keys_eq!(bank.group, *group);\n                return Ok((i, bank));", "                return Ok((i, bank));")
mut("w2_ar_pgroup", "C18", AR, "        let market = market_ai.load::<PerpMarket>()?;\n        require_keys_eq!(market.group, *group);\n", "        let market = market_ai.load::<PerpMarket>()?;\n        let _ = group;\n")
mut("w2_ar_ookey", "C18", AR, "            require_keys_eq!(*key, *ai.key());\n", "            let _ = key;\n")
mut("w2_or_key", "C16 C18", B, "require_keys_eq!(self.fallback_oracle, *fallback_oracle_acc.key());", "")
# C10
mut("w2_ob_expinv", "C10", OB, "if number_of_dropped_expired_orders < DROP_EXPIRED_ORDER_LIMIT {", "if number_of_dropped_expired_orders < 50 {")
mut("w2_ob_postonly", "C10", OB, "                msg!(\"Order could not be placed due to PostOnly\");\n                post_target = None;\n", "                msg!(\"Order could not be placed due to PostOnly\");\n")
mut("w2_ob_limit", "C10", OB, "                msg!(\"Order matching limit reached\");\n                post_target = None;\n", "                msg!(\"Order matching limit reached\");\n")
mut("w2_ob_quote0", "C10", OB, "            if max_match_by_quote == 0 {\n                break;\n            }\n", "            if max_match_by_quote == 0 {\n                continue;\n            }\n")
mut("w2_ob_selffee", "C10 C12", OB, "total_quote_lots_taken - decremented_quote_lots,", "total_quote_lots_taken,")
mut("w2_ob_selfmaker", "C10 C12", OB, "                if order_would_self_trade {\n                    I80F48::ZERO\n                } else {\n                    market.maker_fee\n                },", "                market.maker_fee,")
mut("w2_ob_worst", "C10", OB, "side.is_price_better(price_lots, worst_price),", "side.is_price_better(price_lots, worst_price) || price_lots == worst_price,")
mut("w2_ob_pricelim", "C10", OB, "!market.inside_price_limit(side, native_price, oracle_price)", "!market.inside_price_limit(side.invert_side(), native_price, oracle_price)")
mut("w2_ob_dao", "C10 C12", OB, "(taker_fees + maker_fees.min(I80F48::ZERO)).max(I80F48::ZERO);", "taker_fees;")
mut("w2_ob_cancelown", "C10 C18", OB, "            require_keys_eq!(leaf_node.owner, owner);", "            let _ = owner;")
mut("w2_ob_slide", "C10", OD, "Side::Bid => limit.min(best_other_side - 1),", "Side::Bid => limit.min(best_other_side),")
mut("w2_ob_pegslide", "C10", OD, "oracle_pegged_price_data(price_lots - oracle_price_lots)", "oracle_pegged_price_data(match self.params { OrderParams::OraclePegged { price_offset_lots, .. } => price_offset_lots, _ => 0 })")
mut("w2_ob_pen", "C10", OD, "matches!(self.params, OrderParams::ImmediateOrCancel { .. })", "matches!(self.params, OrderParams::ImmediateOrCancel { .. } | OrderParams::Market { .. })")
mut("w2_bs_matched", "C10", BS, "            if extra_qty >= 0 {", "            if extra_qty > 0 {")
mut("w2_bs_expother", "C10", BS, "        let other_root = &mut self.roots[other_component as usize];\n        self.nodes.remove_one_expired(other_root, now_ts)", "        let _ = other_component;\n        None")
mut("w2_bi_peglimit", "C10 C13", BI, "if node.peg_limit != -1 && side.is_price_better(price, node.peg_limit) {", "if node.peg_limit > 0 && side.is_price_better(price, node.peg_limit) && price > 1 {")
mut("w2_bi_skip", "C10 C13", BI, "        while let Some((_, o_node)) = o_peek {", "        if let Some((_, o_node)) = o_peek {")
# C15
mut("w2_tg_pre", "C15", TG, "    require_keys_neq!(liqee_key, liqor_key);\n", "")
mut("w2_tg_min", "C15", TG, "        liqee_buy_change,\n        min_buy_token,", "        liqee_buy_change + 1,\n        min_buy_token,")
mut("w2_tg_expmin", "C15", TG, "        require!(min_buy_token == 0, MangoError::TokenConditionalSwapExpired);\n", "")
mut("w2_tg_liqorh", "C15 C06", TG, "    require!(liqor_health >= 0, MangoError::HealthMustBePositive);", "    require!(liqor_health >= -1, MangoError::HealthMustBePositive);")
mut("w2_tg_fee", "C15 C01", TG, "sell_bank.collected_fees_native += I80F48::from(maker_fee + taker_fee);", "sell_bank.collected_fees_native += I80F48::from(taker_fee.max(maker_fee));")
mut("w2_tg_closed", "C15", TG, "max_trade_reached = future_sell < 2 * (maker_price as u64);", "max_trade_reached = future_sell < (maker_price as u64);")
mut("w2_tg_low", "C15", TG, "let liqee_health_is_low = liqee_post_init_health < liqee_pre_init_health\n            && ", "let liqee_health_is_low = ")
mut("w2_tg_robuy", "C15 C19", TG, "liqor_buy_balance.floor().clamp_to_u64()", "liqor_buy_balance.ceil().clamp_to_u64()")
mut("w2_tg_start", "C15", TG, "        if !tcs.passed_start(now_ts) {\n            tcs.start_timestamp = now_ts;\n        }\n", "")
mut("w2_tg_taker", "C15", TG, "        taker_price,\n        min_taker_price,", "        premium_price,\n        min_taker_price,")
mut("w2_ts_prem", "C15", TS, "let progress = (current / duration).min(1.0);", "let progress = current / duration;")
mut("w2_ts_exp", "C15", TS, "now_ts >= self.expiry_timestamp", "now_ts > self.expiry_timestamp")
mut("w2_ts_range", "C15", TS, "price >= self.price_lower_limit && price <= self.price_upper_limit", "price >= self.price_lower_limit && price < self.price_upper_limit")
mut("w2_ts_ceil", "C15", TS, "(-buy_position).ceil().clamp_to_u64()", "(-buy_position).ceil().clamp_to_u64() + 1")
mut("w2_ts_dep", "C15", TS, "if self.allow_creating_deposits() && !buy_bank.are_deposits_reduce_only() {", "if self.allow_creating_deposits() {")
mut("w2_tst_borrow", "C15", "instructions/token_conditional_swap_start.rs", "        require!(\n            tcs.allow_creating_borrows(),\n            MangoError::TokenConditionalSwapCantPayIncentive\n        );", "")
mut("w2_tst_health", "C15 C06", "instructions/token_conditional_swap_start.rs", "    liqee.check_health_post(&health_cache, pre_init_health)?;", "")
mut("w2_tst_sold", "C15", "instructions/token_conditional_swap_start.rs", "    tcs.sold += incentive_native;\n", "")
mut("w2_tcr_fee", "C15", "instructions/token_conditional_swap_create.rs", "        .token_conditional_swap_maker_fee_rate\n        .max(sell_bank.token_conditional_swap_maker_fee_rate);", "        .token_conditional_swap_maker_fee_rate;")
mut("w2_tcr_same", "C15", "instructions/token_conditional_swap_create.rs", "    require_neq!(tcs.buy_token_index, tcs.sell_token_index);\n", "")
mut("w2_tcr_bought", "C15", "instructions/token_conditional_swap_create.rs", "    tcs.bought = 0;\n    tcs.sold = 0;\n", "")
mut("w2_tca_dec", "C15", "instructions/token_conditional_swap_cancel.rs", "    account.token_decrement_dust_deactivate(&mut sell_bank, now_ts, ctx.accounts.account.key())?;\n", "")
mut("w2_tca_id", "C15", "instructions/token_conditional_swap_cancel.rs", "    require_eq!(\n        tcs.id,\n        token_conditional_swap_id,\n        MangoError::TokenConditionalSwapIndexIdMismatch\n    );\n", "    let _ = token_conditional_swap_id;\n")
# C16
mut("w2_or_time", "C16", OR, "let max_acceptable_update_age_in_ms = (config.max_staleness_slots as u64) * 450;", "let max_acceptable_update_age_in_ms = (config.max_staleness_slots as u64) * 500;")
mut("w2_or_slot", "C16", OR, "        .saturating_add(config.max_staleness_slots as u64)\n            < now_slot", "        .saturating_add(config.max_staleness_slots as u64)\n            <= now_slot")
mut("w2_or_conf", "C16", OR, "if self.deviation > config.conf_filter * self.price {", "if self.deviation >= config.conf_filter * self.price {")
mut("w2_or_prev", "C16", OR, "                conf: account.prev_conf,", "                conf: account.agg.conf,")
mut("w2_or_verif", "C16", OR, "    if price_account.verification_level != VerificationLevel::Full {\n        return Err(MangoError::OracleConfidence.into());\n    }\n", "")
mut("w2_or_v1", "C16", OR, "I80F48::from_num(result.result.max_response - result.result.min_response);", "I80F48::from_num((result.result.max_response - result.result.min_response) / 2.0);")
mut("w2_or_stubdev", "C16", OR, "                // allows the confidence check to pass even for negative prices\n                I80F48::MIN", "                I80F48::ZERO")
mut("w2_or_fbcheck", "C16 C22", OR, "            let whirlpool = load_orca_pool_state(acc_info)?;\n            whirlpool.has_quote_token()", "            load_orca_pool_state(acc_info)?;\n            true")
mut("w2_st_min", "C16", ST, "let min_dt = 10;", "let min_dt = 9;")
mut("w2_st_wrap", "C16", ST, "            } else if delay_interval_index > self.last_delay_interval_index {", "            } else if delay_interval_index > self.last_delay_interval_index + 1 {")
mut("w2_st_prev0", "C16", ST, "self.delay_prices[self.delay_prices.len() - 1]", "self.delay_prices[0]")
mut("w2_st_frac", "C16", ST, "* fraction * fraction * dt_limited;", "* fraction * dt_limited;")
mut("w2_st_dt", "C16", ST, "self.delay_accumulator_price += oracle_price * dt_limited;", "self.delay_accumulator_price += oracle_price * dt as f64;")

# ---- the TypeScript client
H = "ts/client/src/accounts/healthCache.ts"; A_ = "ts/client/src/accounts/mangoAccount.ts"; B_ = "ts/client/src/accounts/bank.ts"; P_ = "ts/client/src/accounts/perp.ts"
G_ = "ts/client/src/accounts/group.ts"; CL = "ts/client/src/client.ts"; I_ = "ts/client/src/numbers/I80F48.ts"; U_ = "ts/client/src/utils.ts"
mut("ts_hc_take_div", "C27", H, "takenSpot.iadd(health.div(liabWeightedPrice));", "takenSpot.iadd(health.div(assetWeightedPrice));")
mut("ts_hc_res_assetliab", "C27", H, "const baseLiab = base.prices.liab(healthType);", "const baseLiab = base.prices.asset(healthType);")
mut("ts_hc_res_min", "C27", H, "reservedBaseAsQuoteOracle.min(info.reservedBaseAsQuoteLowestAsk),", "reservedBaseAsQuoteOracle.max(info.reservedBaseAsQuoteLowestAsk),")
mut("ts_hc_ignneg", "C27", H, "const tokenBalances = this.effectiveTokenBalancesInternal(healthType, true);", "const tokenBalances = this.effectiveTokenBalancesInternal(healthType, false);")
mut("ts_hc_maxset_init", "C27 C28", H, "const healthType = HealthType.maint;\n    const tokenBalances", "const healthType = HealthType.init;\n    const tokenBalances")
mut("ts_hc_stab", "C27", H, "            liabs.add(assetBalance.sub(liabBalance).mul(assetWeightedPrice)),", "            assetBalance.mul(assetWeightedPrice),")
mut("ts_hc_settlecmp", "C27", H, "if (perpInfo.settleTokenIndex != tokenInfo.tokenIndex) {\n          continue;", "if (perpInfo.settleTokenIndex != tokenInfo.tokenIndex && tokenInfo.tokenIndex > 0) {\n          continue;")
mut("ts_hc_simswap", "C27", H, "adjustedCache.tokenInfos[quoteIndex].balanceSpot.isub(bidNativeQuoteAmount);", "")
mut("ts_hc_adjperp", "C27", H, "this.perpInfos[perpInfoIndex].baseLots.isub(newOrderBaseLots);", "this.perpInfos[perpInfoIndex].baseLots.iadd(newOrderBaseLots.neg().divn(1).muln(1).addn(newOrderBaseLots.gtn(1000)?1:0));")
mut("ts_hc_maxref", "C27", H, "const rightmost = sourceBalance\n      .abs()\n      .add(sourceReserved)", "const rightmost = sourceBalance\n      .abs()\n      .sub(sourceReserved)")
mut("ts_hc_slope_asset", "C27", H, ".mul(target.prices.asset(HealthType.init))\n          .mul(price),", ".mul(target.prices.oracle)\n          .mul(price),")
mut("ts_hc_perp_slope", "C27", H, "case1Start = initialBaseLots.abs();", "case1Start = initialBaseLots.abs().mul(I80F48.fromNumber(0.5)).floor();")
mut("ts_hc_liqdir", "C27", H, "const price1000x = perpMarket.price.mul(I80F48.fromNumber(1000));", "const price1000x = perpMarket.price.mul(I80F48.fromNumber(2));")
mut("ts_hc_liqEnd", "C27", H, "    } else if (healthType == HealthType.liquidationEnd) {\n      return this.initAssetWeight;", "    } else if (healthType == HealthType.liquidationEnd) {\n      return this.initScaledAssetWeight;")
mut("ts_hc_oodup", "C27", H, "const quoteFree = I80F48.fromI64(oo.quoteTokenFree);", "const quoteFree = I80F48.fromI64(oo.quoteTokenFree.add(oo.referrerRebatesAccrued ?? oo.quoteTokenFree));")
mut("ts_hc_maxbal", "C27", H, "} else if (maxBalance.isNeg()) {\n        assetPart = ZERO_I80F48();\n        liabPart = marketReserved;", "} else if (balance.spotAndPerp.isNeg()) {\n        assetPart = ZERO_I80F48();\n        liabPart = marketReserved;")
mut("ts_hc_takerlots", "C27", H, "const baseLots = perpPosition.basePositionLots.add(\n      perpPosition.takerBaseLots,\n    );", "const baseLots = perpPosition.basePositionLots;")
mut("ts_hc_overall", "C27", H, "healthType == HealthType.init || healthType == HealthType.liquidationEnd\n          ? this.initOverallAssetWeight", "healthType == HealthType.init\n          ? this.initOverallAssetWeight")
mut("ts_hc_asksprice", "C27", H, "this.asksBaseLots.neg(),\n      this.basePrices.asset(healthType),", "this.asksBaseLots.neg(),\n      this.basePrices.liab(healthType),")
mut("ts_ma_eff", "C27 C28", A_, "if (serum3Market.quoteTokenIndex == bank.tokenIndex && oo) {\n          bal.iadd(I80F48.fromI64(oo.quoteTokenFree));", "if (serum3Market.quoteTokenIndex == bank.tokenIndex && oo) {\n          bal.iadd(I80F48.fromI64(oo.quoteTokenTotal));")
mut("ts_ma_equity", "C27", A_, ".iadd(I80F48.fromI64(oo.quoteTokenTotal).mul(quoteBank.price));", ".iadd(I80F48.fromI64(oo.quoteTokenFree).mul(quoteBank.price));")
mut("ts_ma_pnl", "C27 C28", A_, "I80F48.fromI64(this.netDeposits).mul(I80F48.fromNumber(-1)),", "I80F48.fromI64(this.netDeposits.abs()).mul(I80F48.fromNumber(-1)),")
mut("ts_ma_cumint", "C28", A_, "        const interest = bank.borrowIndex\n          .sub(token.previousIndex)", "        const interest = bank.depositIndex\n          .sub(token.previousIndex)")
mut("ts_ma_lof", "C27", A_, "const borrowCost = borrowAmount.mul(loanOriginationFactor);", "const borrowCost = borrowAmount.add(tokenBank.loanOriginationFeeRate);")
mut("ts_ma_util", "C27", A_, "      if (borrowAmount.isPos()) {\n        if (\n          mutTokenBank\n            .nativeBorrows()\n            .gt(mutTokenBank.nativeDeposits().mul(maxBorrowUtilization))", "      if (borrowAmount.isPos()) {\n        if (\n          mutTokenBank\n            .nativeBorrows()\n            .gt(tokenBank.nativeDeposits().mul(maxBorrowUtilization))")
mut("ts_ma_plusone", "C27", A_, "if (!healthAfterWithdraw(amountPlusOne).isNeg()) {", "if (!healthAfterWithdraw(amount).isNeg()) {")
mut("ts_ma_noborrow", "C27", A_, "if (tokenBank.areBorrowsReduceOnly()) {\n      amount = amount.min(existingTokenDeposits);", "if (tokenBank.reduceOnly == 1) {\n      amount = amount.min(existingTokenDeposits);")
mut("ts_ma_swaplimit", "C27", A_, "targetBank.price.div(sourceBank.price),", "sourceBank.price.div(targetBank.price),")
mut("ts_ma_slim", "C27 C28", A_, "const newWindow = nowTs.gte(windowEnd) || nowTs.lt(windowStart);", "const newWindow = nowTs.gte(windowEnd);")
mut("ts_ma_fund", "C28", A_, "cumulativeShortFunding -= funding;", "cumulativeShortFunding += funding;")
mut("ts_ma_upnl", "C28", A_, "return this.quotePositionNative\n      .sub(this.getUnsettledFunding(perpMarket))\n      .add(this.getBasePosition(perpMarket).mul(perpMarket.price));", "return this.quotePositionNative\n      .add(this.getUnsettledFunding(perpMarket))\n      .add(this.getBasePosition(perpMarket).mul(perpMarket.price));")
mut("ts_ma_thr", "C28", A_, "if (Math.abs(o - a) < Math.abs(o - b)) {", "if (Math.abs(o - a) > Math.abs(o - b)) {")
mut("ts_ma_hasoo", "C27 C28", A_, "      !this.takerBaseLots.eq(zero) ||\n      !this.takerQuoteLots.eq(zero)", "      !this.takerBaseLots.eq(zero)")
mut("ts_bk_scale", "C27 C28", B_, "return this.initLiabWeight.mul(\n      borrowsQuote.div(I80F48.fromNumber(this.borrowWeightScaleStartQuote)),", "return this.initLiabWeight.mul(\n      borrowsQuote.add(I80F48.fromNumber(1e6)).div(I80F48.fromNumber(this.borrowWeightScaleStartQuote)),")
mut("ts_bk_shift", "C28 C27", B_, "const scale = I80F48.fromU64(nowTs.sub(this.maintWeightShiftStart)).mul(", "const scale = I80F48.fromU64(this.maintWeightShiftEnd.sub(nowTs)).mul(")
mut("ts_bk_win", "C28 C27", B_, "      // the first borrow of the next window starts from zero\n      this.getTimeToNextBorrowLimitWindowStartsTs() == 0", "      false")
mut("ts_bk_maxwd", "C27 C28", B_, "let maxBorrow = maxBorrowFromVault.sub(userDeposits).max(ZERO_I80F48());", "let maxBorrow = maxBorrowFromVault;")
mut("ts_bk_dep", "C28", B_, ".sub(this.potentialSerumTokens)\n      : null;", ": null;")
mut("ts_bk_rate", "C28", B_, "const slope = this.rate1.sub(this.rate0).div(this.util1.sub(this.util0));", "const slope = this.rate1.sub(this.rate0).div(this.util1);")
mut("ts_pp_imp", "C28", P_, "if (s.gte(baseLots)) {", "if (s.gt(baseLots)) {")
mut("ts_pp_l2", "C28", P_, "for (const { priceLots, sizeLots } of this.items()) {", "for (const { priceLots, sizeLots } of this.itemsValid()) {")
mut("ts_pp_seq", "C28", P_, "? a.seqNum.lt(b.seqNum) //", "? a.orderId.lt(b.orderId) //")
mut("ts_pp_inside", "C28", P_, "orderPrice >= this.maintBaseAssetWeight.toNumber() * this.uiPrice)", "orderPrice >= this.initBaseAssetWeight.toNumber() * this.uiPrice)")
mut("ts_pp_cand", "C28", P_, "b.settleablePnl.cmp(a.settleablePnl),\n      );\n\n    if (direction", "a.settleablePnl.cmp(b.settleablePnl),\n      );\n\n    if (direction")
mut("ts_pp_unc", "C28", P_, "this.rawEvents[(head + i) % this.rawEvents.length]", "this.rawEvents[(head + i) % (this.rawEvents.length - 1)]")
mut("ts_pp_since", "C28", P_, "e.seqNum.gt(lastSeqNum === undefined ? new BN(0) : lastSeqNum),", "e.seqNum.gte(lastSeqNum === undefined ? new BN(0) : lastSeqNum),")
