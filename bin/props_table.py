NOTES = ("The on-chain program is compiled unmodified from /repo against offline stand-ins for its missing "
  "dependencies (shims/) and executed instruction by instruction on an in-process runtime (harness/src/sim.rs). "
  "No hooks are needed in /repo.")
BASE = ("Assurance: no counterexample among the generated cases counted in the evidence file. Trusted: the dependency "
  "stand-ins under shims/, the in-process runtime, the SPL token and spot DEX stand-ins (validated by running the repository's "
  "83 integration cases on them). ")

prop("C01", "Token vaults always cover all claims; no instruction creates value",
 "For every token, vault balances minus everything owed (all account deposits net of borrows, uncollected protocol fees, dust) never changes beyond rounding, whatever instruction is executed; socialized bad debt is deducted from depositors rather than left as a hole. All banks of one token always carry the same deposit and borrow index, and the banks' totals equal the sum over account positions.",
 ["histories", "configurations"], "every sequence of program instructions (deposits, borrows, interest updates, swaps, liquidations, bankruptcies, settlements, fee operations) under every bank and market configuration",
 "The integration tests follow fixed scripts with one or two accounts and compare a few balances; no test sums all claims, and multi-bank tokens occur in a handful of scripts.",
 ["state/bank.rs", "instructions/token_liq_bankruptcy.rs", "instructions/token_update_index_and_rate.rs", "instructions/flash_loan.rs", "instructions/perp_settle_pnl.rs"],
 [("indexed deposits/borrows with paired vault transfers", "state/bank.rs"), ("loss socialization through the deposit index", "instructions/token_liq_bankruptcy.rs")],
 "stateful property-based testing over random instruction histories with a conservation invariant",
 BASE + "The invariant is exact up to 0.01 native units per instruction.",
 state=[("indexed_deposits, indexed_borrows", "per-bank totals", "state/bank.rs"), ("collected_fees_native, dust", "claims of the protocol", "state/bank.rs")])

prop("C05", "Account health equals its definition, and its derived figures agree",
 "For every account state and market configuration, init, liquidation-end and maintenance health equal the documented definition: weighted token balances, worst case over spot reservations and perp orders, perp pnl under the overall weight, oracle/stable price choice, collateral and borrow scaling, and maintenance weight shifts. Ratio, leverage, unweighted assets/liabilities, reported account data, max settleable pnl and the liquidation phases agree with it. With ordered weights, init <= liquidation end <= maint health. Adjusting a cache after a balance change gives the health of the changed account, and a cache built from fewer banks never overstates health.",
 ["histories", "inputs", "configurations"], "every account content (token, spot-order and perp positions), every bank/market parameter set, every oracle and stable price",
 "The health unit tests evaluate about a dozen hand-computed accounts; the interplay of reservations, perps settling into scaled tokens and weight shifts is not sampled.",
 ["health/cache.rs", "health/account_retriever.rs", "state/bank.rs", "state/perp_market.rs", "state/stable_price.rs"],
 [("HealthCache and new_health_cache", "health/cache.rs"), ("scaled_init_asset_weight / scaled_init_liab_weight / maint_weights", "state/bank.rs")],
 "property-based testing against an independent floating-point reference model, plus metamorphic relations",
 BASE + "Monotonicity relations are claimed for at most one spot market with reservations, because the program deliberately uses a lower bound with several. Tolerance scales with the magnitude of the balances (about 1e-11 relative).",
 observe=["HealthCache values and ComputeAccountData logs"])

prop("C06", "Every action passes its health gate, and only then",
 "An account below its health requirement can only act if its init health does not fall, an account being liquidated cannot act until it has recovered, and nothing else is rejected for health. Liquidation of an account happens only if its maintenance health is negative or it is already being liquidated and has not recovered; the flag follows exactly those transitions. Liquidators and trigger callers end with non-negative init health. A health region accepts only listed program instructions and a matching end, and is judged as a whole. HealthCheck accepts exactly the values at or above the requested minimum.",
 ["histories", "inputs"], "every sequence of withdrawals, deposits, orders, flash loans, spot orders, regions and liquidations on accounts of any health",
 "Integration tests try one passing and one failing amount for a few instructions; the exact threshold and the transitions of the being-liquidated flag for every kind of instruction are not explored.",
 ["state/mango_account.rs", "instructions/token_withdraw.rs", "instructions/token_deposit.rs", "instructions/perp_place_order.rs", "instructions/flash_loan.rs", "instructions/health_region.rs", "instructions/health_check.rs", "instructions/serum3_place_order.rs", "instructions/token_liq_with_token.rs", "instructions/perp_liq_base_or_positive_pnl.rs", "instructions/token_conditional_swap_trigger.rs"],
 [("check_health_pre / check_health_post / check_liquidatable", "state/mango_account.rs"), ("instruction introspection", "instructions/health_region.rs")],
 "stateful property-based testing with a reference health model; counterfactual re-execution and bisection to the exact threshold",
 BASE + "Threshold accuracy is the model tolerance plus at most one native unit for positions closed by the instruction.")

prop("C07", "Token liquidation moves exactly the agreed amounts and helps the liqee",
 "A token liquidation moves the asset and liability amounts implied by oracle prices and the two liquidation fees (base fee to the liquidator, platform fee to the bank's collected fees), never more than the caller's limit, never more than the liqee owns or owes, and never further than needed to bring the liqee's liquidation-end health to zero. It transfers only deposits against borrows and creates no value, liqee health never falls, the being-liquidated flag is cleared exactly at recovery, and nobody except liquidator, liqee and the two banks changes.",
 ["histories", "inputs", "configurations"], "every liqee and liqor account content, price, fee and weight setting, liquidation limit and liquidation sequence",
 "The integration tests liquidate two or three fixed accounts with default fees; the cap by health, by position and by limit with non-trivial fees and prices is not explored.",
 ["instructions/token_liq_with_token.rs", "health/cache.rs", "state/bank.rs"],
 [("liquidation_action: amount computation and transfers", "instructions/token_liq_with_token.rs")],
 "property-based testing of liquidation histories against a reference computation with an independent health model",
 BASE + "Amounts are checked to model tolerance plus one native unit; dusting of positions below one native unit is allowed by design.")

prop("C08", "Bankruptcy pays from insurance first and socializes only the rest",
 "Token and perp bankruptcy are only possible for accounts without any liquidatable value left. The liability is paid from the insurance fund as far as it reaches (insured groups and markets only), the liquidator receiving at most the agreed fee for it; exactly the remainder is taken proportionally from all depositors (or from all open perp positions through funding), the liability disappears, and nobody else gains or loses. Assets of the bankrupt account are never touched, and a loss is never socialized while usable insurance remains.",
 ["histories", "inputs", "configurations"], "every bankrupt or nearly bankrupt account, insurance balance, bank count, fee and price",
 "Integration tests cover one insurance balance per path; partial insurance, several banks, several liabilities and repeated calls with limits are not explored.",
 ["instructions/token_liq_bankruptcy.rs", "instructions/perp_liq_negative_pnl_or_bankruptcy.rs", "state/perp_market.rs"],
 [("insurance payout, index reduction", "instructions/token_liq_bankruptcy.rs"), ("insurance payout and socialize_loss", "instructions/perp_liq_negative_pnl_or_bankruptcy.rs")],
 "property-based testing of bankruptcy histories against a reference computation",
 BASE + "The insurance payout is rounded up to whole native units, so it may exceed the due amount by less than one unit.")

prop("C09", "Perp liquidation takes over only what health requires, at agreed prices",
 "Liquidating perp base positions moves lots at the oracle price adjusted by the base liquidation fees (liquidator and platform share as configured), never past zero, never beyond the caller's limit and not beyond the lot that reaches zero liquidation-end health. Positive pnl is taken over only after base lots are gone or unhelpful, at the configured fee, up to the settle limit and health need. Negative pnl is settled or taken only in its phase. Force-cancel removes perp orders of liquidatable accounts only. Position sums, open interest and all third parties stay unchanged, and liqee health does not fall.",
 ["histories", "inputs", "configurations"], "every liqee/liqor perp and token position, price, fee, weight and limit setting",
 "The integration tests liquidate fixed positions with default fees; combinations of base position, settleable pnl, overall weights and limits are not explored.",
 ["instructions/perp_liq_base_or_positive_pnl.rs", "instructions/perp_liq_negative_pnl_or_bankruptcy.rs", "instructions/perp_liq_force_cancel_orders.rs", "state/mango_account_components.rs"],
 [("liquidation_action for base and positive pnl", "instructions/perp_liq_base_or_positive_pnl.rs"), ("negative pnl takeover", "instructions/perp_liq_negative_pnl_or_bankruptcy.rs")],
 "property-based testing of liquidation histories against a reference computation with an independent health model",
 BASE + "The first lot that lifts negative unweighted pnl above zero counts in full even with an overall weight below one, so the last lot is claimed up to one lot.")

prop("C10", "The perp order book matches by price-time priority and keeps its structure",
 "For every sequence of orders, the book stays a valid ordered structure with exact counts, and matching is price-time priority over fixed and oracle-pegged orders, skipping expired and out-of-limit orders, never trading through the taker's limit price, base or quote limit. Post-only, slide, IOC, market, self-trade, match-limit and full-book behaviour is as documented; each fill, cancel and expiry yields exactly one event carrying the maker's data, and taker volume, fees and penalties booked equal the fills. Impact prices are those of the requested quantity.",
 ["histories", "inputs"], "every sequence of placements, removals, expiries and oracle moves, including full books and full event queues",
 "The unit tests place a few orders on an almost empty book; deep and full books with mixed fixed/pegged/expiring orders, self trades and random removal orders are not sampled.",
 ["state/orderbook/book.rs", "state/orderbook/bookside.rs", "state/orderbook/bookside_iterator.rs", "state/orderbook/ordertree.rs", "state/orderbook/nodes.rs", "state/orderbook/order.rs", "state/orderbook/queue.rs"],
 [("Orderbook::new_order", "state/orderbook/book.rs"), ("merge of fixed and pegged trees", "state/orderbook/bookside_iterator.rs"), ("critbit tree", "state/orderbook/ordertree.rs")],
 "stateful model-based property testing against a sorted-list reference matching engine",
 BASE + "Amounts beyond 64 bits abort the transaction and are out of scope.", observe=["book, event queue and account contents after each order"])

prop("C02", "Deposits, withdrawals and borrows book exactly what is transferred",
 "A deposit or withdrawal changes position, bank totals, vault and wallet by the same amount, up to rounding that never favours the user by more than one unit of fixed-point precision. Origination fees are charged once, on exactly the newly borrowed part. Positions below one native unit after a withdrawal are dropped with the remainder kept in the bank's dust; bank totals always equal the sum of positions. Withdraw-all, reduce-only, no-borrow and delegate rules accept exactly what they document.",
 ["histories", "inputs"], "every amount (including zero crossings and dust), index value, fee rate, position and sequence of operations",
 "Unit tests check about ten fixed amounts at index 1; zero crossings at arbitrary indexes with fees and dust are not sampled.",
 ["state/bank.rs", "instructions/token_deposit.rs", "instructions/token_withdraw.rs"],
 [("deposit / withdraw / dusting internals", "state/bank.rs"), ("TokenWithdraw delegate and borrow rules", "instructions/token_withdraw.rs")],
 "stateful property-based testing of the bank bookkeeping and of deposit/withdraw instructions against an exact reference",
 BASE + "Amount times price beyond 64 bit aborts the transaction and is out of scope.")

prop("C03", "Interest accrues by the documented curve and splits correctly",
 "Index updates grow deposit and borrow indexes by the rate at the measured utilization for the elapsed time: borrowers pay the curve rate plus the loan fee rate, lenders receive the utilization share of the curve rate, the loan fee goes to the collected fees, all banks of a token move together. Average utilization, curve scaling adaption, stable price, maintenance weight shifts and the update schedule follow their definitions; updates need all banks, a usable oracle and a transaction without other instructions. The curve is continuous, monotone and hits its configured points.",
 ["histories", "inputs", "configurations"], "every curve, balance, elapsed time and update schedule",
 "Unit and integration tests check one curve and two or three elapsed times.",
 ["state/bank.rs", "instructions/token_update_index_and_rate.rs"],
 [("compute_index / compute_interest_rate / update_interest_rate_scaling", "state/bank.rs"), ("instruction introspection and bank list", "instructions/token_update_index_and_rate.rs")],
 "property-based testing against an independent reference computation, with fault injection on oracles and bank lists",
 BASE)

prop("C04", "Borrow, reserve and deposit limits are enforced exactly",
 "No user action may raise the net borrows of a bank within a time window above its limit (valued at the higher of oracle and stable price), borrow beyond the reserved share of deposits, take more than the vault holds, borrow a reduce-only token, or lift deposits (including possible order proceeds) above the bank's deposit limit or an account's collateral above the group's deposit limit. Window accounting starts at aligned times, and actions within all limits are not refused.",
 ["histories", "inputs", "configurations"], "every limit, amount, window position and history of borrows and repayments over several banks",
 "Integration tests hit each limit once with a fixed amount; window rollovers, negative net borrows and interaction of limits are not explored.",
 ["state/bank.rs", "instructions/token_withdraw.rs", "instructions/token_deposit.rs", "instructions/flash_loan.rs", "instructions/serum3_place_order.rs", "instructions/token_conditional_swap_trigger.rs"],
 [("check_net_borrows / enforce_max_utilization_on_borrow / check_deposit_and_oo_limit", "state/bank.rs")],
 "property-based testing with exact acceptance prediction, and stateful histories with independent accounting of limits",
 BASE + "Decisions within two native units of a limit are not judged.")

prop("C16", "Prices are used only when fresh, confident and correctly decoded",
 "Every supported oracle account is decoded to the right native price, deviation and age (pools priced through their quote feed, with the deviation in the same unit), and foreign, unverified, negative or malformed ones are refused. A price is used only within the configured age (slots and time) and confidence; otherwise the bank's own fallback is used under the same rules, and otherwise the action fails. Only deposits-side positions may be left out of health, counting as zero, never borrows or perps. The stable price follows the oracle within its growth limits and its delayed average.",
 ["inputs", "histories", "configurations"], "every oracle account content, age and confidence setting, fallback arrangement and account list; every price path and update schedule",
 "The tests read one recorded account per oracle kind and one stale price; combinations of primary, fallback and limits, and long irregular price paths, are not sampled.",
 ["state/oracle.rs", "state/amm_cpi.rs", "state/bank.rs", "state/perp_market.rs", "state/stable_price.rs", "health/account_retriever.rs", "health/cache.rs", "instructions/token_withdraw.rs", "instructions/token_deposit.rs"],
 [("oracle_state_unchecked / check_staleness / check_confidence", "state/oracle.rs"), ("Bank::oracle_price with fallback", "state/bank.rs"), ("StablePriceModel::update", "state/stable_price.rs")],
 "property-based testing of decoding and acceptance against a reference; repetition of instructions under injected oracle faults; model-based testing of the stable price",
 BASE + "Layouts of third-party oracle accounts are taken from the stand-ins under shims/.")

prop("C12", "Perp positions, open interest and fees always balance across all accounts",
 "Over any history of orders, fills, event consumption, cancels, settlement, liquidation, bankruptcy and force closes: base positions of a market sum to zero, open interest counts them exactly, open-order lots and slots match the book, pending taker lots match the event queue, and the quote of all participants plus fees plus owed funding only changes by insurance payouts. Each fill changes base, quote, entry price, realized pnl, settle allowances, volumes and buyback fees of both sides as documented, self trades are free, and each event is applied once, in order, to named accounts.",
 ["histories", "inputs", "configurations"], "every sequence of perp instructions over all accounts, with any accounts and limits passed to event consumption",
 "Integration tests check a handful of fixed trades; sums over accounts, book and queue together, flips, self trades and interleaved consumption are not sampled.",
 ["state/mango_account_components.rs", "state/perp_market.rs", "state/mango_account.rs", "instructions/perp_place_order.rs", "instructions/perp_consume_events.rs", "instructions/perp_force_close_position.rs", "instructions/perp_deactivate_position.rs", "state/orderbook/book.rs"],
 [("change_base_and_quote_positions / record_trade", "state/mango_account_components.rs"), ("execute_perp_maker / execute_perp_taker", "state/mango_account.rs"), ("event consumption", "instructions/perp_consume_events.rs")],
 "stateful property-based testing: conservation invariants over histories and a reference position ledger compared field by field",
 BASE + "Maker fees are carried on events as 32-bit floats; sums are compared within that precision.")

prop("C13", "Funding follows the book and is paid on exactly the lots held over time",
 "A funding update uses the mid of the impact prices of the valid orders on both sides (or the configured extreme when only one side has depth, zero with none), relative to the oracle price, clamped to the configured range, for at most an hour; both funding indexes move by the same amount, at most once per second, before an order can change the book, and only with a usable oracle. The funding booked to a position is exactly lots held times index change summed over time, longs and shorts separately, whatever trades, settlements, liquidations or force closes happen in between.",
 ["histories", "inputs", "configurations"], "every book, price, update schedule and history of position changes",
 "The integration test checks funding for one book and one interval; one-sided, crossed, thin and expiring books and interleaved position changes are not sampled.",
 ["state/perp_market.rs", "state/mango_account_components.rs", "instructions/perp_update_funding.rs", "instructions/perp_place_order.rs", "instructions/perp_force_close_position.rs"],
 [("update_funding_and_stable_price", "state/perp_market.rs"), ("settle_funding / unsettled_funding", "state/mango_account_components.rs")],
 "property-based testing of funding updates against a reference over a model book, and of accrued funding against an integral over the history",
 BASE + "Funding indexes are also moved by bankruptcies (C08); those steps are taken as given.")

prop("C14", "Pnl settlement moves the right amount within limits, health and fees",
 "Settling pnl needs a profitable and a losing account of the same market and moves exactly the smallest of both settleable amounts and what the loser's spot health can carry; pnl becomes tokens one to one, without loan fee. The settler's fee follows the flat/low-health rules and never exceeds the settlement. Settle limits (recurring by position size, one-time allowance, per window, restarting with each window) are respected and consumed as documented, so repeated settlement cannot exceed them. Fee settlement takes at most loss, accrued fees and the caller's maximum, and leaves health non-negative.",
 ["histories", "inputs", "configurations"], "every pair of positions, limit state, window, price, health, fee setting and sequence of settlements",
 "Integration tests settle fixed amounts; windows, allowances, spot health limits and fee rules in combination are not sampled.",
 ["instructions/perp_settle_pnl.rs", "instructions/perp_settle_fees.rs", "state/mango_account_components.rs", "state/perp_market.rs", "health/cache.rs"],
 [("perp_settle_pnl", "instructions/perp_settle_pnl.rs"), ("settle limits", "state/mango_account_components.rs"), ("compute_settle_fee", "state/perp_market.rs"), ("perp_max_settle", "health/cache.rs")],
 "property-based testing of settlement sequences against a reference computation with an independent health model",
 BASE + "Limits are whole native units; a limit decides within two units.")

prop("C15", "Conditional swaps trade only as the owner allowed and close when done",
 "A conditional swap is only created with valid terms and executed only by its own type's conditions: oracle price in its range (fixed premium) or after its start (auctions), never expired, never for a blocked account. Each execution trades the most the limits of both sides allow at the price given by premium or auction time, fees go to the protocol, nothing is exchanged for nothing, no unwanted deposit or borrow is created, maxima are never exceeded, both accounts keep their health rules. The start incentive is bounded. Swaps close exactly when they cannot continue, are cancelled or expire, and release their token positions.",
 ["histories", "inputs", "configurations"], "every swap, price, balance, reduce-only and fee setting, execution limit and sequence of create, start, trigger and cancel",
 "Unit and integration tests check fixed amounts at a few prices; closing conditions, reduce-only banks, auctions over time and repeated partial executions are not sampled.",
 ["instructions/token_conditional_swap_create.rs", "instructions/token_conditional_swap_start.rs", "instructions/token_conditional_swap_trigger.rs", "instructions/token_conditional_swap_cancel.rs", "state/token_conditional_swap.rs"],
 [("trade_amount and action", "instructions/token_conditional_swap_trigger.rs"), ("prices and limits", "state/token_conditional_swap.rs")],
 "stateful property-based testing of conditional swaps against a reference computation and model of all slots",
 BASE + "Trades whose amount depends on the last bits of the price are checked by inequalities only.")

prop("C18", "Only owners, active delegates or the right admin can act, on the right accounts",
 "Every instruction that acts for an account, group, token or market needs the signature of its owner, of a delegate that is currently active (permanent, or temporary until its expiry) where delegates may act, or of the admin role in charge; nobody else's signature replaces it and no signature works on somebody else's account. Every account passed must be the very one it stands for: banks, vaults, oracles, books, queues, markets, accounts, programs or wallets of another group, token, market or key are refused, unless they are irrelevant to the outcome.",
 ["inputs", "configurations"], "every instruction, every signer and every account an attacker may pass in any position",
 "Integration tests always pass the right accounts and signers; hardly any negative case per instruction is checked.",
 ["accounts_ix/mod.rs", "state/mango_account.rs", "instructions/token_withdraw.rs", "instructions/token_deposit.rs", "instructions/serum3_place_order.rs", "instructions/flash_loan.rs", "instructions/perp_consume_events.rs", "accounts_zerocopy.rs"],
 [("account constraints", "accounts_ix/mod.rs"), ("is_owner_or_delegate", "state/mango_account.rs"), ("role checks", "instructions/token_edit.rs")],
 "mutation of generated successful transactions of every instruction (signers, delegates, accounts), with a differential oracle on the whole state",
 BASE + "Fields an admin role may edit are decided by C22, delegate withdrawals by C02.")

prop("C19", "Gates, freezes and restricted modes stop exactly what they should",
 "An instruction whose gate is set fails as disabled, and setting any other gates does not affect it; only the admin re-enables, the security admin may only disable. A frozen account refuses every instruction that touches it, as main party or counterparty, until the freeze ends, except event consumption and forced cancels. In reduce-only perp markets, or with reduce-only orders, no order can increase or flip the position even if all own open orders execute. Force-closing, forced withdrawals and forced cancels of healthy accounts need their mode, and forced withdrawals go to the owner in full.",
 ["inputs", "configurations", "histories"], "every instruction, gate mask, freeze time, role, mode and position with open orders",
 "Integration tests disable one or two instructions and freeze one account; there is no test that a gate or freeze covers each instruction.",
 ["state/group.rs", "instructions/ix_gate_set.rs", "accounts_ix/mod.rs", "instructions/account_toggle_freeze.rs", "instructions/perp_place_order.rs", "instructions/perp_liq_force_cancel_orders.rs", "instructions/serum3_liq_force_cancel_orders.rs", "instructions/token_force_withdraw.rs", "state/mango_account.rs"],
 [("is_ix_enabled / IxGate", "state/group.rs"), ("is_operational", "state/mango_account.rs"), ("reduce_only_max_base_lots", "instructions/perp_place_order.rs")],
 "repetition of generated successful transactions of every instruction under gates, freezes and modes; property-based testing of reduce-only orders against worst-case exposure",
 BASE)

prop("C20", "Flash loans return what was lent, book the difference, and cannot be misused",
 "A flash loan lends exactly the approved amounts and takes back, at its end, whatever the token accounts hold above their starting balances; each position changes by precisely the net vault change, less the origination fee on the part of the loan exceeding the deposit and, for swaps, the highest involved swap fee on what was spent. Reduce-only modes hold. A loan exists only as one begin followed by one matching end in the same transaction at top level, with no other mango instruction or use of the mango program in between (and only approved programs for delegates), for the same account, banks, vaults and token accounts, each token once; nothing remains open.",
 ["inputs", "configurations"], "every set of loans, amounts, payments in between, fee settings, and every arrangement of instructions and accounts of a transaction",
 "Integration tests run a few well-formed loans and two or three malformed ones; combinations of instructions and accounts are the attack surface.",
 ["instructions/flash_loan.rs", "accounts_ix/flash_loan.rs", "state/bank.rs"],
 [("flash_loan_begin: introspection of the transaction", "instructions/flash_loan.rs"), ("flash_loan_end: balance changes and fees", "instructions/flash_loan.rs")],
 "property-based testing of loans against predicted balances, and of structurally mutated transactions against a table of required outcomes plus conservation",
 BASE)

prop("C17", "Mango accounts keep every position through slot reuse, resizing and migration",
 "Slot operations find exactly the active position of a token, spot market, perp market, order or conditional swap, create at most one per index in a free slot with empty contents, report when none is free, and never close a token position in use. Expanding, shrinking or migrating an account (from any layout version) preserves every active position unchanged and in order, keeps perp orders in the slots the book refers to, or fails when they do not fit or exceed the limits; rent is exact and surplus goes where it should. The serialized and zero-copy views always agree. Accounts close only when empty and not being liquidated (force-closing, and closing of groups, tokens and markets, in test groups only).",
 ["histories", "inputs"], "every sequence of slot operations and resizes, every capacity, every account content and layout version",
 "The unit tests use a few fixed contents and one randomized resize; sequences of operations, boundary capacities, old layouts and the instructions around the resize are not sampled.",
 ["state/mango_account.rs", "state/mango_account_components.rs", "instructions/account_expand.rs", "instructions/account_size_migration.rs", "instructions/account_create.rs", "instructions/account_close.rs", "accounts_ix/account_close.rs"],
 [("resize_dynamic_content", "state/mango_account.rs"), ("ensure_token_position / ensure_perp_position / create_serum3_orders", "state/mango_account.rs"), ("account_expand", "instructions/account_expand.rs")],
 "stateful model-based property testing of the account structure, and of the account instructions on arbitrary contents",
 BASE)

prop("C21", "Spot orders move funds one to one, charge loans once, and stay accounted",
 "Placing a spot order debits the account by exactly what its bank's vault pays to the exchange, without fee; settling or force-cancelling credits exactly what comes back. The loan origination fee is charged once, and only on borrowed tokens that really left through a trade. Rebates go to the user or, as asked, to the protocol (and its buyback allowance). Cancels move nothing in mango. Banks always count the tokens open orders may bring in, per account and side, never less than the orders can yield, and the recorded order price bounds contain every resting order. Placement is refused exactly when a limit forbids it: reduce-only market, reduce-only or over-limit banks (counting all orders as executed), net borrow and reserve limits, price bands, disabled instruction version, health. Forced cancels act only on liquidatable or frozen accounts or force-closed markets and otherwise change nothing.",
 ["histories", "inputs", "configurations"], "every sequence of placements, fills, cancels, settlements and forced cancels on several markets, and every configuration of limits",
 "The integration tests place a handful of orders; the tracked amounts are a running account over arbitrary histories of partial fills, cancels and settlements whose errors only show later as a missing or double fee or a wrong limit.",
 ["instructions/serum3_place_order.rs", "instructions/serum3_settle_funds.rs", "instructions/serum3_liq_force_cancel_orders.rs", "instructions/serum3_cancel_order.rs", "instructions/serum3_cancel_all_orders.rs", "serum3_cpi.rs", "state/mango_account_components.rs"],
 [("apply_vault_difference / apply_settle_changes / update_bank_potential_tokens", "instructions/serum3_place_order.rs"), ("charge_loan_origination_fees", "instructions/serum3_settle_funds.rs"), ("serum3_liq_force_cancel_orders", "instructions/serum3_liq_force_cancel_orders.rs")],
 "model-based testing of order histories against a prediction from the exchange's own state; refusals judged by a differential run without limits",
 BASE + " Known finding spot-other-bank is listed in known_findings.txt.")
prop("C22", "Configuration edits and listings do what was asked, by the right role",
 "An edit of a token, perp market, spot market, group or account changes exactly the requested settings - for a token alike on all its banks, which must all be passed, and in its mint info - and nothing else anywhere. Inconsistent configurations are refused. The security admin may only make things stricter (reduce-only, zero init weight, no platform or collateral fee, abort of a weight shift, which freezes the current weights); everything else needs the group admin, account edits the owner. New tokens, markets and banks get exactly the given configuration, empty and with unused index; fast listings are limited per week and get safe fixed parameters; an added bank copies the token's whole configuration.",
 ["inputs", "configurations", "histories"], "every subset and value of options, every previous configuration, every signer, and every sequence of edits and listings",
 "The integration tests set about ten options on fresh tokens and compare two or three fields; with some 40 positional parameters per instruction, mix-ups and forgotten banks or fields are not sampled.",
 ["instructions/token_edit.rs", "instructions/perp_edit_market.rs", "instructions/group_edit.rs", "instructions/serum3_edit_market.rs", "instructions/account_edit.rs", "instructions/token_register.rs", "instructions/token_register_trustless.rs", "instructions/token_add_bank.rs", "instructions/serum3_register_market.rs", "instructions/perp_create_market.rs", "state/bank.rs", "lib.rs"],
 [("token_edit: options and require_group_admin", "instructions/token_edit.rs"), ("Bank::verify / from_existing_bank", "state/bank.rs"), ("weekly limit of fast listings", "instructions/token_register_trustless.rs")],
 "property-based testing of edit and listing sequences against a field table; complete expected state compared with all accounts",
 BASE)
prop("C25", "Fees are charged exactly as configured; only protocol fees can be taken out",
 "A collateral fee is charged only when switched on, when the interval has passed since the last charge (never on the first call after switching on), for at most twice the interval, and only if liabilities reach 100 USD. It is the configured daily rate on the assets, counted with spot order reservations, in proportion to the share of assets that backs liabilities, paid from the owed tokens in proportion to their liability health; what each position pays is what the protocol's fee account of that bank gains, and no other position, bank or vault changes. Buying back fees with the protocol token exchanges at the lower of oracle and stable price times the bonus against the higher price of the fee token, never more than asked, than the unexpired accrued fees, than the protocol's fees or than the user's balance; accrued fees shrink by what was used, older ones first, and expire after the interval following their own; the protocol account never ends with debts, perps or spot orders. Fee withdrawals pay out at most the collected and not yet withdrawn fees, limited by the vault, and change nothing else; the insurance fund can be withdrawn or exchanged for an empty one with its whole content paid out.",
 ["inputs", "configurations", "histories"], "every account content, rate, interval and time of charge; every accrued amount, expiry, price and balance; every sequence of withdrawals",
 "The integration tests charge one or two accounts with round numbers; the split of a charge over several borrows, capped time, expiry boundaries and clamps of the buyback are not sampled.",
 ["instructions/token_charge_collateral_fees.rs", "instructions/account_buyback_fees_with_mngo.rs", "instructions/admin_token_withdraw_fees.rs", "instructions/admin_perp_withdraw_fees.rs", "instructions/group_withdraw_insurance_fund.rs", "instructions/group_change_insurance_fund.rs", "state/mango_account.rs"],
 [("token_charge_collateral_fees_internal", "instructions/token_charge_collateral_fees.rs"), ("account_buyback_fees_with_mngo", "instructions/account_buyback_fees_with_mngo.rs"), ("expire_buyback_fees / reduce_buyback_fees_accrued", "state/mango_account.rs")],
 "property-based testing of charges, exchanges and withdrawals against independently computed amounts; whole-state comparison for withdrawals",
 BASE)
prop("C23", "Checked arithmetic never wraps, panics or loses a step: exact value or None",
 "For every supported expression (arithmetic, shifts, negation, casts, conversions, method and function calls, nested anywhere in operands, receivers or arguments), checked_math yields exactly Some of the value exact arithmetic gives when every intermediate result fits its type and every operation is defined, and None otherwise - on overflow, division or remainder by zero, oversized shifts - and never panics or wraps. Operands and calls are evaluated at most once each, from left to right. checked_math_or_panic returns the same value or panics with a math error; its compound assignments update their place exactly once or leave it unchanged. Unsupported operators, operands and calls with arguments are refused at compile time.",
 ["inputs"], "every expression shape over integer widths and fixed-point numbers, and every operand value",
 "The unit tests evaluate a dozen fixed expressions with fixed values; nesting of operators, methods and calls, operand types and boundary values are not sampled.",
 ["lib/checked_math/src/transform/checked.rs", "lib/checked_math/src/lib.rs"],
 [("transform_expr", "lib/checked_math/src/transform/checked.rs"), ("checked_math / checked_math_or_panic", "lib/checked_math/src/lib.rs")],
 "random expressions compiled in batches against the macro crate and run on random boundary values; differential oracle against an exact big-integer evaluator",
 "Property-based testing of the macro as compiled by rustc from the current tree; expressions are generated from a typed grammar and each is run on many operand vectors.")
prop("C24", "The margin-trade program moves exactly the amounts asked, with its own key only",
 "A call transfers exactly the first amount from the withdraw account to the deposit account, authorized by the given owner's own signature (none needed and nothing moved when it is zero), and then exactly the second amount back, signed by the program's own derived address for the given bump and by nothing else. It fails as a whole, leaving everything unchanged, when either transfer is not covered by balance, authority, delegation or mint, when an account is frozen, not a token account or not writable, or when the token program is not the real one. Nothing else in the world changes.",
 ["inputs", "histories"], "every combination of accounts, owners, delegates, bumps, amounts and signatures, also the same account twice, over successive calls",
 "The integration tests call it with one set of accounts inside a flash loan; swapped roles, other authorities and boundary amounts are not sampled.",
 ["programs/margin-trade/src/lib.rs"],
 [("margin_trade", "programs/margin-trade/src/lib.rs"), ("transfer_from_mango_vault_ctx / transfer_back_to_mango_vault_ctx", "programs/margin-trade/src/lib.rs")],
 "property-based testing of call histories: acceptance and the whole resulting state predicted from the token program's rules",
 "Property-based testing of the real program against the real spl-token program on a simulated ledger.")
TS = ("Assurance: no counterexample among the generated cases counted in the evidence file. The client is bundled from /repo/ts/client/src with esbuild "
  "and run in node on the accounts of the simulated chain, read through the real MangoClient. Trusted: the stand-ins for its npm packages under ts/shims, "
  "the account decoding they do from the client's own IDL, and the simulator. ")
C = "ts/client/src/accounts/"
prop("C26", "The client's numbers and unit conversions are exact where they claim to be",
 "The TypeScript client's 128-bit fixed-point numbers behave as integers scaled by 2^48: sums, differences and comparisons are exact, products and quotients are the exact result cut off towards zero, floor, ceil and frac follow the mathematical definition also for negative numbers, results outside 128 bits are refused rather than wrapped, plain operations leave their operands alone, and the byte, binary, string, number and integer conversions preserve the value (numbers to the last place). Native amounts, UI amounts and prices convert into each other without drift: a native amount and a perp lot count survive the trip to the UI and back, native perp prices equal the program's, and prices shortened for display keep about four digits whatever their magnitude.",
 ["inputs", "configurations"], "every 128-bit value and pair of values, every number and decimal string, every token decimals and perp lot size (powers of ten)",
 "The client's tests evaluate ten display roundings and two conversions; signs, magnitudes and the edges of the range are not sampled.",
 ["ts/client/src/numbers/I80F48.ts", "ts/client/src/utils.ts", C + "perp.ts"],
 [("I80F48", "ts/client/src/numbers/I80F48.ts"), ("toNative, toUiDecimals, roundTo5", "ts/client/src/utils.ts"), ("uiPriceToLots, priceLotsToNative", C + "perp.ts")],
 "property-based testing against an exact 256-bit integer model, plus round trips",
 TS)
prop("C27", "The client's risk engine agrees with the program's health",
 "For every account, the TypeScript client computes from the on-chain accounts the same init, liquidation-end and maintenance health, weighted assets and liabilities, health ratio, effective token balances and settleable perp pnl as the program; equity and pnl equal the value of everything held at oracle prices; the per-asset contributions add up to the health. Simulated health ratios after token changes, perp trades and spot orders equal what the program would compute on the changed account. The largest perp trades and swaps offered keep the requested health ratio (or do not lower it), perp trades are not offered needlessly small, maintenance health is about zero at a perp position's liquidation price, and the largest withdrawal offered is accepted by the program while, when only health limits it, a little more is refused.",
 ["inputs", "configurations", "histories"], "every account content (token, spot-order and perp positions), every bank and market parameter set, oracle and stable price",
 "The client's unit tests evaluate hand-written accounts against hand-written numbers copied from the Rust tests; nothing compares the two implementations on arbitrary accounts, and the client is edited separately from the program.",
 [C + "healthCache.ts", C + "mangoAccount.ts", C + "bank.ts", C + "perp.ts"],
 [("HealthCache", C + "healthCache.ts"), ("getMaxWithdrawWithBorrowForToken, getEquity", C + "mangoAccount.ts"), ("scaledInitAssetWeight / maintWeights", C + "bank.ts")],
 "differential property-based testing of the TypeScript client against the on-chain program on generated account states",
 TS)
prop("C28", "The client shows the on-chain state as it is: fields, derived views, order books",
 "The TypeScript client decodes every account type field by field as the program stores it. What it derives equals what the program computes or would accept: bank deposits, borrows, interest rates, scaled and shifted weights, room left under deposit and borrow limits, token balances, cumulative interest; perp positions' base, quote, pnl, unsettled funding, entry and break-even prices, funding rates, settleable pnl; open orders, order-book sides with fixed and pegged prices, validity and expiry, matching order, mid and impact prices; stale or unconfident oracles; frozen accounts; conditional swaps with their limits, threshold and suggested premium; fees open to buyback. Reloading a loaded client shows exactly what a freshly loaded one shows, and account queries by owner, delegate, number, token or market find exactly the matching accounts of the group.",
 ["inputs", "configurations", "histories"], "every account content, bank and market parameter set, book of fixed and pegged orders, clock and slot; any history between two loads",
 "The client's unit tests cover rounding and health helpers only; decoding, views, book code, reloading and account queries have no offline test and are edited separately from the program.",
 [C + "bank.ts", C + "perp.ts", C + "mangoAccount.ts", C + "group.ts", C + "serum3.ts", C + "oracle.ts", "ts/client/src/client.ts"],
 [("BookSide, PerpMarket, PerpOrder", C + "perp.ts"), ("Bank.getRemainingDepositLimit, getBorrowLimitLeftInWindow, getDepositRate", C + "bank.ts"), ("PerpPosition, TokenConditionalSwap", C + "mangoAccount.ts"), ("Group.reloadAll", C + "group.ts"), ("getMangoAccountsForOwner and the other queries", "ts/client/src/client.ts")],
 "differential property-based testing of the TypeScript client against the program's own functions and data structures on generated states; reload-versus-fresh-load metamorphic relation",
 TS)
prop("C29", "The client's transactions do exactly what its caller asked for",
 "For every instruction, the TypeScript client's interface description reads and writes exactly the program's arguments and demands the same writable and signing accounts. Each client method builds an instruction with every account that the program needs in the right place (derived addresses, all banks and oracles of a token, health accounts of the account) and every argument in the right place and unit, so that executing it has exactly the effect of the instruction asked for; options that were not given change nothing, and a method refuses only what the program refuses.",
 ["inputs", "configurations", "histories"], "every instruction, every account content and configuration, and every combination of the method's arguments, given or left out",
 "The client's offline tests build no transaction; the live scripts build one of each with fixed values. With some 40 positional arguments per call, swapped, forgotten or rescaled ones and missing accounts are not sampled.",
 ["ts/client/src/client.ts", "ts/client/src/clientIxParamBuilder.ts", "ts/client/src/mango_v4.ts", "mango_v4.json"],
 [("MangoClient: one method per instruction", "ts/client/src/client.ts"), ("buildIxGate and edit parameters", "ts/client/src/clientIxParamBuilder.ts"), ("IDL", "ts/client/src/mango_v4.ts")],
 "differential property-based testing: transactions built by the TypeScript client executed next to the program's own instructions on copies of the simulated chain, complete states compared",
 TS)
H = "health/client.rs"
prop("C30", "The health helpers for liquidators and traders offer the largest safe trade",
 "The off-chain part of the health code (HealthCache::max_perp_for_health_ratio, max_swap_source_for_health_ratio with and without limits, max_borrow_for_health_ratio) offers amounts that keep the account's init health ratio at or above the wanted one (or do not worsen it while it is below), that respect net borrow and deposit limits, and that are maximal: a bit more would fall below the wanted ratio or break a limit; if the ratio cannot be reached, the best one is offered. The helpers neither panic nor refuse valid accounts.",
 ["inputs", "configurations"], "every account content (tokens, spot orders, perp positions with resting orders), trade price, wanted ratio, oracle and stable prices and limits",
 "The unit tests evaluate a handful of accounts with round numbers; the piecewise ratio functions have kinks at every zero crossing, scaled weight and reservation, which searches and their bounds must get right together.",
 [H, "health/cache.rs"],
 [("max_perp_for_health_ratio", H), ("max_swap_source_for_health_function", H), ("max_borrow_for_health_fn", H), ("find_maximum, scan_right_until_less_than, binary_search", H)],
 "property-based testing: every answer is applied to a copy of the health cache and judged there for safety and maximality",
 BASE + "Ratios are claimed to the search precision of the code (0.1 percent points) plus native rounding. Accounts below zero health have one known finding.")
S = "The services are compiled as they are from /repo/bin against stand-ins for tokio, async-channel and mango-feeds-connector; the harness decides the order of messages. Sockets, subscriptions and metrics endpoints are not run. "
prop("C31", "Subscribers of the order-book feed can rebuild the book as it is",
 "Whatever order and duplication the account and slot updates arrive in, a subscriber of the order-book service that starts with a checkpoint and applies every update holds exactly the levels and orders of both book sides that the newest accounts imply at the current oracle price and time (fixed and pegged orders, spot books), in user units; an update says whether it is the latest, old writes change nothing, and nothing is published for unchanged books.",
 ["histories", "inputs", "schedules"], "every history of orders, cancels, fills, expiries and oracle moves over several markets, with account updates late, twice or out of order",
 "The repository has no test of the feed; differences between consecutive books (additions only, removals only, equal orders, shared oracles) are only met in live traffic.",
 ["bin/service-mango-orderbook/src/orderbook_filter.rs", "lib/mango-feeds-lib/src/lib.rs"],
 [("init, publish_changes, publish_changes_serum", "bin/service-mango-orderbook/src/orderbook_filter.rs"), ("price and quantity conversion", "lib/mango-feeds-lib/src/lib.rs")],
 "stateful property-based testing: a model subscriber applies the published updates and is compared with the program's own book after every message",
 S)
prop("C32", "Subscribers of the fills feed see every fill once, also across forks",
 "Whatever states of an event queue the fills service sees, a subscriber that adds new fills and drops revoked ones holds exactly the fills still in the newest queue's memory: each is published once with the program's values in user units, changed or dropped ones are revoked once, checkpoints list all of them, and head updates name the position and sequence number of the last consumed event; old, unknown and repeated writes publish nothing.",
 ["histories", "inputs", "schedules"], "every history of pushes and pops including wrap-around, full queues, missed states and forks that roll back and go on differently",
 "The repository has no test of the feed; wrap-around at the end of the 488 slots and forks at particular positions are only met in live traffic.",
 ["bin/service-mango-fills/src/fill_event_filter.rs", "bin/service-mango-fills/src/lib.rs", "lib/mango-feeds-lib/src/lib.rs"],
 [("init, publish_changes_perp", "bin/service-mango-fills/src/fill_event_filter.rs"), ("FillEvent::new_from_perp", "bin/service-mango-fills/src/lib.rs")],
 "stateful property-based testing: a model subscriber applies the published updates and is compared with the queue after every write",
 S)
prop("C33", "The cranks consume what is queued, with the accounts that it takes",
 "Given an event queue's account, the crank services send an instruction exactly if there is a fill or enough other events, and the instruction names the market's accounts and all accounts of the events it is to consume: executed by the program, the perp crank consumes as many events as one instruction may, whoever the makers and takers are; the spot crank lists every open orders account of the queued events once, in order, and asks for all of them.",
 ["inputs", "histories"], "every content of perp and spot event queues, including wrap-around and leftovers of consumed events",
 "The repository has no test of the cranks.",
 ["bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs", "bin/service-mango-crank/src/openbook_crank_sink.rs", "instructions/perp_consume_events.rs"],
 [("MangoV4PerpCrankSink::process", "bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs"), ("OpenbookCrankSink::process", "bin/service-mango-crank/src/openbook_crank_sink.rs")],
 "property-based testing: the sent instructions are executed by the program, or compared with the generated queue",
 S)
