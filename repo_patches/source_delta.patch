From 1298e1a7ebe6f11a8e3c9f102b07dda7e76bba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 01/50] fix: apply socialized token loss to the deposit index
 of every bank

The loop stopped once the liqee was fully credited, leaving the remaining
banks of the token on the old deposit index.
---
 programs/mango-v4/src/instructions/token_liq_bankruptcy.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
index 430b3b0..f919084 100644
--- a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
+++ b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
@@ -265,9 +265,6 @@ pub fn token_liq_bankruptcy(
                 liqee_liab_active =
                     bank.deposit_with_dusting(liqee_liab, amount_for_bank, now_ts)?;
                 amount_to_credit -= amount_for_bank;
-                if amount_to_credit <= 0 {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 2057cfdafda2ba182649bb02a19c01d7c748a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 02/50] fix: copy the fallback oracle when adding a bank to a
 token

---
 programs/mango-v4/src/state/bank.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/bank.rs b/programs/mango-v4/src/state/bank.rs
index 827f8ca..221f12e 100644
--- a/programs/mango-v4/src/state/bank.rs
+++ b/programs/mango-v4/src/state/bank.rs
@@ -377,7 +377,7 @@ impl Bank {
             maint_weight_shift_duration_inv: existing_bank.maint_weight_shift_duration_inv,
             maint_weight_shift_asset_target: existing_bank.maint_weight_shift_asset_target,
             maint_weight_shift_liab_target: existing_bank.maint_weight_shift_liab_target,
-            fallback_oracle: existing_bank.oracle,
+            fallback_oracle: existing_bank.fallback_oracle,
             deposit_limit: existing_bank.deposit_limit,
             zero_util_rate: existing_bank.zero_util_rate,
             platform_liquidation_fee: existing_bank.platform_liquidation_fee,
-- 
2.43.0


From 42c2548538a254547af0c97317d8f7488d12ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 03/50] fix: settle funding before force-closing perp positions

Changing the base position without settling first dropped the funding
accrued on the closed lots.
---
 .../mango-v4/src/instructions/perp_force_close_position.rs     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/mango-v4/src/instructions/perp_force_close_position.rs b/programs/mango-v4/src/instructions/perp_force_close_position.rs
index 1f4aa13..0d58e56 100644
--- a/programs/mango-v4/src/instructions/perp_force_close_position.rs
+++ b/programs/mango-v4/src/instructions/perp_force_close_position.rs
@@ -42,6 +42,9 @@ pub fn perp_force_close_position(ctx: Context<PerpForceClosePosition>) -> Result
     )?;
     let quote_transfer = I80F48::from(base_transfer * perp_market.base_lot_size) * oracle_price;
 
+    account_a_perp_position.settle_funding(&perp_market);
+    account_b_perp_position.settle_funding(&perp_market);
+
     account_a_perp_position.record_trade(&mut perp_market, -base_transfer, quote_transfer);
     account_b_perp_position.record_trade(&mut perp_market, base_transfer, -quote_transfer);
 
-- 
2.43.0


From a55b0fbbefa712129275abb1a384ab640d625404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 04/50] fix: look up the settle token's info by token index in
 assets_and_liabs()

The token index was used as a position in token_infos, which picks another
token's price or panics.
---
 programs/mango-v4/src/health/cache.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 5c92525..6752859 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -773,9 +773,8 @@ impl HealthCache {
         }
 
         for perp_info in self.perp_infos.iter() {
-            let quote_price = self.token_infos[perp_info.settle_token_index as usize]
-                .prices
-                .oracle;
+            let settle_token_index = self.token_info_index(perp_info.settle_token_index).unwrap();
+            let quote_price = self.token_infos[settle_token_index].prices.oracle;
             let quote_position_value = perp_info.quote * quote_price;
             if perp_info.quote.is_negative() {
                 liabs -= quote_position_value;
-- 
2.43.0


From f93cc3a8d3403d68980f0fc069029d5ed7aa26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 05/50] fix: scale the init asset weight by the liab price when
 adjusting a health cache

new_health_cache() uses the pessimistic liab price; adjust_token_balance()
used the asset price and thereby overestimated init health.
---
 programs/mango-v4/src/health/cache.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 6752859..e9a3ea8 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -853,10 +853,10 @@ impl HealthCache {
 
         // Note: resetting the weights here assumes that the change has been applied to
         // the passed in bank already
-        entry.init_scaled_asset_weight =
-            bank.scaled_init_asset_weight(entry.prices.asset(HealthType::Init));
-        entry.init_scaled_liab_weight =
-            bank.scaled_init_liab_weight(entry.prices.liab(HealthType::Init));
+        // Use the liab price for both, same as when the cache is created
+        let liab_price = entry.prices.liab(HealthType::Init);
+        entry.init_scaled_asset_weight = bank.scaled_init_asset_weight(liab_price);
+        entry.init_scaled_liab_weight = bank.scaled_init_liab_weight(liab_price);
 
         // Work around the fact that -((-x) * y) == x * y does not hold for I80F48:
         // We need to make sure that if balance is before * price, then change = -before
-- 
2.43.0


From 562588b2512a2cd399f8dc95e4dfbe30bd199250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 06/50] fix: matched_quantity() returns enough lots to match
 the requested amount

---
 programs/mango-v4/src/state/orderbook/bookside.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/state/orderbook/bookside.rs b/programs/mango-v4/src/state/orderbook/bookside.rs
index b4d98d1..e246760 100644
--- a/programs/mango-v4/src/state/orderbook/bookside.rs
+++ b/programs/mango-v4/src/state/orderbook/bookside.rs
@@ -225,8 +225,8 @@ impl BookSide {
             sum_amt += order.node.quantity * order.price_lots;
             let extra_amt = sum_amt - amount;
             if extra_amt >= 0 {
-                // adding n-1 before dividing through n to force rounding up
-                sum_qty -= (extra_amt + order.price_lots - 1) / order.price_lots;
+                // only drop lots that are entirely in excess: the result is rounded up
+                sum_qty -= extra_amt / order.price_lots;
                 return Some(sum_qty);
             }
         }
-- 
2.43.0


From 710c553f82de4f060d4b920d84b63ce445766103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 07/50] fix: average the delay price over the time that is
 accumulated

---
 programs/mango-v4/src/state/stable_price.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/stable_price.rs b/programs/mango-v4/src/state/stable_price.rs
index c70caa1..77999b9 100644
--- a/programs/mango-v4/src/state/stable_price.rs
+++ b/programs/mango-v4/src/state/stable_price.rs
@@ -133,7 +133,7 @@ impl StablePriceModel {
         //
         // Update delay price
         //
-        self.delay_accumulator_time += dt as u32;
+        self.delay_accumulator_time += dt_limited as u32;
         self.delay_accumulator_price += oracle_price * dt_limited;
 
         let delay_interval_index = self.delay_interval_index(now_ts);
-- 
2.43.0


From 85bcc7d0d4abcfb0591181ed5b5b318699110285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 08/50] fix: scale the quote oracle's deviation to the CLMM
 oracle's price

---
 programs/mango-v4/src/state/oracle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/state/oracle.rs b/programs/mango-v4/src/state/oracle.rs
index c7e24c7..751701c 100644
--- a/programs/mango-v4/src/state/oracle.rs
+++ b/programs/mango-v4/src/state/oracle.rs
@@ -515,7 +515,7 @@ fn oracle_state_unchecked_inner<T: KeyedAccountReader>(
             OracleState {
                 price,
                 last_update_slot: quote_oracle_state.last_update_slot,
-                deviation: quote_oracle_state.deviation,
+                deviation: clmm_price * quote_oracle_state.deviation,
                 oracle_type: OracleType::OrcaCLMM,
                 last_update_time: None,
             }
@@ -528,7 +528,7 @@ fn oracle_state_unchecked_inner<T: KeyedAccountReader>(
             OracleState {
                 price,
                 last_update_slot: quote_oracle_state.last_update_slot,
-                deviation: quote_oracle_state.deviation,
+                deviation: clmm_price * quote_oracle_state.deviation,
                 oracle_type: OracleType::RaydiumCLMM,
                 last_update_time: None,
             }
-- 
2.43.0


From 6e10884587b82740d6dcd232edf00d51c7f09b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 09/50] fix: start a new settle limit window in
 perp_settle_fees

---
 programs/mango-v4/src/instructions/perp_settle_fees.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/mango-v4/src/instructions/perp_settle_fees.rs b/programs/mango-v4/src/instructions/perp_settle_fees.rs
index 87449f5..e606926 100644
--- a/programs/mango-v4/src/instructions/perp_settle_fees.rs
+++ b/programs/mango-v4/src/instructions/perp_settle_fees.rs
@@ -50,6 +50,9 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     // Calculate PnL
     let pnl = perp_position.unsettled_pnl(&perp_market, oracle_price)?;
 
+    // Apply pnl settle limits
+    let now_ts: u64 = Clock::get()?.unix_timestamp.try_into().unwrap();
+    perp_position.update_settle_limit(&perp_market, now_ts);
     let settleable_pnl = perp_position.apply_pnl_settle_limit(&perp_market, pnl);
 
     if !settleable_pnl.is_negative() || !perp_market.fees_accrued.is_positive() {
-- 
2.43.0


From d18ca245fba9511ad9972f8d130f11af9f4f327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 10/50] fix: check for an inactive swap first in
 token_conditional_swap_cancel

---
 .../src/instructions/token_conditional_swap_cancel.rs         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_conditional_swap_cancel.rs b/programs/mango-v4/src/instructions/token_conditional_swap_cancel.rs
index e95c697..1487e4a 100644
--- a/programs/mango-v4/src/instructions/token_conditional_swap_cancel.rs
+++ b/programs/mango-v4/src/instructions/token_conditional_swap_cancel.rs
@@ -16,14 +16,14 @@ pub fn token_conditional_swap_cancel(
 
     let mut account = ctx.accounts.account.load_full_mut()?;
     let tcs = account.token_conditional_swap_mut_by_index(token_conditional_swap_index)?;
-    require_eq!(tcs.buy_token_index, buy_bank.token_index);
-    require_eq!(tcs.sell_token_index, sell_bank.token_index);
 
     // If the tcs is already inactive, this just is a noop
     if !tcs.is_configured() {
         return Ok(());
     }
 
+    require_eq!(tcs.buy_token_index, buy_bank.token_index);
+    require_eq!(tcs.sell_token_index, sell_bank.token_index);
     require_eq!(
         tcs.id,
         token_conditional_swap_id,
-- 
2.43.0


From 03a3c95f83d96875eaf48a2bbc3e2fe1bc191a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 11/50] fix: don't overflow when closing a conditional swap
 that sells a reduce-only token

---
 .../src/instructions/token_conditional_swap_trigger.rs      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs b/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs
index 1d25846..e9f02fe 100644
--- a/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs
+++ b/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs
@@ -440,8 +440,10 @@ fn action(
             u64::MAX,
             post_liqee_buy_token,
             post_liqee_sell_token,
-            I80F48::MAX, // other liqors might not have reduce-only related restrictions
-            I80F48::MIN,
+            // other liqors might not have reduce-only related restrictions
+            // (not I80F48::MAX/MIN, because negating and rounding must not overflow)
+            I80F48::from(u64::MAX),
+            -I80F48::from(u64::MAX),
             buy_bank,
             sell_bank,
         );
-- 
2.43.0


From 1caaa7b4e6bb39ac9e0fcd3028e1a0dc8e3904e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 12/50] fix: frozen accounts can't cancel perp orders with any
 instruction

---
 programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs      | 1 +
 .../src/accounts_ix/perp_cancel_order_by_client_order_id.rs      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs b/programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs
index 5ceef45..2de2dff 100644
--- a/programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs
+++ b/programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs
@@ -12,6 +12,7 @@ pub struct PerpCancelAllOrders<'info> {
     #[account(
         mut,
         has_one = group,
+        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen
         // owner is checked at #1
     )]
     pub account: AccountLoader<'info, MangoAccountFixed>,
diff --git a/programs/mango-v4/src/accounts_ix/perp_cancel_order_by_client_order_id.rs b/programs/mango-v4/src/accounts_ix/perp_cancel_order_by_client_order_id.rs
index 97af19d..95ca8d1 100644
--- a/programs/mango-v4/src/accounts_ix/perp_cancel_order_by_client_order_id.rs
+++ b/programs/mango-v4/src/accounts_ix/perp_cancel_order_by_client_order_id.rs
@@ -12,6 +12,7 @@ pub struct PerpCancelOrderByClientOrderId<'info> {
     #[account(
         mut,
         has_one = group,
+        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen
         // owner is checked at #1
     )]
     pub account: AccountLoader<'info, MangoAccountFixed>,
-- 
2.43.0


From d2937818ef808637da272a642cf5d3e8529647ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 13/50] fix: check that the dao account of fee buybacks is not
 frozen

---
 .../mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
index 6b28381..b6362fa 100644
--- a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
+++ b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
@@ -22,7 +22,7 @@ pub struct AccountBuybackFeesWithMngo<'info> {
     #[account(
         mut,
         has_one = group,
-        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen,
+        constraint = dao_account.load()?.is_operational() @ MangoError::AccountIsFrozen,
         address = group.load()?.buyback_fees_swap_mango_account
     )]
     pub dao_account: AccountLoader<'info, MangoAccountFixed>,
-- 
2.43.0


From 79a35943e82f8dacfede52a84e5d09f25b8ddd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 14/50] fix: checked_math also checks math in method receivers
 and arguments

checked_math!((a + b).pow(2)) and checked_math!(a.pow(b - c)) left the
inner operation unchecked: an overflow panicked, or wrapped silently in
builds without overflow checks, instead of giving None.
---
 lib/checked_math/src/transform/checked.rs | 51 ++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/lib/checked_math/src/transform/checked.rs b/lib/checked_math/src/transform/checked.rs
index 85c3947..f075f63 100644
--- a/lib/checked_math/src/transform/checked.rs
+++ b/lib/checked_math/src/transform/checked.rs
@@ -1,6 +1,6 @@
 use proc_macro_error::abort;
 use quote::quote;
-use syn::{spanned::Spanned, BinOp, Expr, ExprBinary, ExprUnary, Ident, Lit, UnOp};
+use syn::{spanned::Spanned, BinOp, Expr, ExprBinary, ExprMethodCall, ExprUnary, Ident, Lit, UnOp};
 
 pub fn transform_expr_or_panic(expr: Expr) -> proc_macro2::TokenStream {
     match expr {
@@ -39,6 +39,9 @@ pub fn transform_expr(mut expr: Expr) -> proc_macro2::TokenStream {
     match expr {
         Expr::Unary(unary) => transform_unary(unary),
         Expr::Binary(binary) => transform_binary(binary),
+        Expr::MethodCall(ref mc) if has_math(&mc.receiver) || mc.args.iter().any(has_math) => {
+            transform_method_call(mc.clone())
+        }
         Expr::MethodCall(ref mut mc) => {
             if mc.method == "pow" {
                 mc.method = syn::Ident::new("checked_pow", mc.method.span());
@@ -98,6 +101,52 @@ pub fn transform_expr(mut expr: Expr) -> proc_macro2::TokenStream {
     }
 }
 
+/// Whether evaluating the expression may involve math that has to be checked
+fn has_math(expr: &Expr) -> bool {
+    match expr {
+        Expr::Path(_) | Expr::Lit(_) => false,
+        Expr::Field(f) => has_math(&f.base),
+        Expr::Index(i) => has_math(&i.expr) || has_math(&i.index),
+        Expr::Reference(r) => has_math(&r.expr),
+        Expr::Unary(u) => !matches!(u.op, UnOp::Deref(_)) || has_math(&u.expr),
+        Expr::Paren(p) => has_math(&p.expr),
+        Expr::Group(g) => has_math(&g.expr),
+        Expr::Call(c) => has_math(&c.func) || c.args.iter().any(has_math),
+        Expr::MethodCall(mc) => {
+            mc.method == "pow"
+                || mc.method == "abs"
+                || has_math(&mc.receiver)
+                || mc.args.iter().any(has_math)
+        }
+        _ => true,
+    }
+}
+
+/// Method calls that involve math in the receiver or the arguments
+fn transform_method_call(mut mc: ExprMethodCall) -> proc_macro2::TokenStream {
+    let mut names = vec![];
+    let mut operands = vec![];
+    for operand in std::iter::once(&mut *mc.receiver).chain(mc.args.iter_mut()) {
+        let name = Ident::new(&format!("operand{}", names.len()), mc.method.span());
+        operands.push(if has_math(operand) {
+            transform_expr(operand.clone())
+        } else {
+            quote! { Some(#operand) }
+        });
+        *operand = syn::parse_quote! { #name };
+        names.push(name);
+    }
+    let call = transform_expr(Expr::MethodCall(mc));
+    quote! {
+        {
+            match (#(#operands,)*) {
+                (#(Some(#names),)*) => #call,
+                _ => None
+            }
+        }
+    }
+}
+
 fn transform_unary(unary: ExprUnary) -> proc_macro2::TokenStream {
     let expr = transform_expr(*unary.expr);
     let op = unary.op;
-- 
2.43.0


From f23615130b641c17586115a4b542b3a1ec936c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 15/50] fix: checked_math_or_panic evaluates the left hand side
 of += only once

checked_math_or_panic!(*next() += 1) called next() twice: it read one
place and wrote another when the call has side effects.
---
 lib/checked_math/src/transform/checked.rs | 33 ++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/lib/checked_math/src/transform/checked.rs b/lib/checked_math/src/transform/checked.rs
index f075f63..57d6987 100644
--- a/lib/checked_math/src/transform/checked.rs
+++ b/lib/checked_math/src/transform/checked.rs
@@ -10,7 +10,7 @@ pub fn transform_expr_or_panic(expr: Expr) -> proc_macro2::TokenStream {
         }
         Expr::AssignOp(assign_op) => {
             // Rewrite `left += right` into `left = checked!(left + right).unwrap()`
-            let bin_op = Expr::Binary(ExprBinary {
+            let mut bin_op = Expr::Binary(ExprBinary {
                 attrs: vec![],
                 left: assign_op.left.clone(),
                 right: assign_op.right.clone(),
@@ -23,6 +23,25 @@ pub fn transform_expr_or_panic(expr: Expr) -> proc_macro2::TokenStream {
                 },
             });
             let left = assign_op.left;
+            if let (true, Expr::Binary(bin)) = (has_call(&left), &mut bin_op) {
+                // Evaluate the left hand side only once, after the right hand side
+                let [place, l, r] = ["place", "left", "right"]
+                    .map(|name| Ident::new(name, proc_macro2::Span::mixed_site()));
+                let right = transform_expr(*assign_op.right);
+                *bin.left = syn::parse_quote! { #l };
+                *bin.right = syn::parse_quote! { #r };
+                let bin_op_tokens = transform_expr(bin_op);
+                return quote! {
+                    match (#right).unwrap_or_else(|| panic!("math error")) {
+                        #r => match &mut #left {
+                            #place => *#place = {
+                                let #l = *#place;
+                                (#bin_op_tokens).unwrap_or_else(|| panic!("math error"))
+                            }
+                        }
+                    }
+                };
+            }
             let bin_op_tokens = transform_expr(bin_op);
             quote! {
                 #left = (#bin_op_tokens).unwrap_or_else(|| panic!("math error"))
@@ -147,6 +166,18 @@ fn transform_method_call(mut mc: ExprMethodCall) -> proc_macro2::TokenStream {
     }
 }
 
+/// Whether evaluating the place calls something, and hence could have side effects
+fn has_call(expr: &Expr) -> bool {
+    match expr {
+        Expr::Call(_) | Expr::MethodCall(_) => true,
+        Expr::Field(f) => has_call(&f.base),
+        Expr::Unary(u) => has_call(&u.expr),
+        Expr::Paren(p) => has_call(&p.expr),
+        Expr::Group(g) => has_call(&g.expr),
+        _ => false,
+    }
+}
+
 fn transform_unary(unary: ExprUnary) -> proc_macro2::TokenStream {
     let expr = transform_expr(*unary.expr);
     let op = unary.op;
-- 
2.43.0


From add98316729eb91d5724af71ff7017ec7e08a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 16/50] fix: ts getMaxWithdrawWithBorrowForToken no longer
 throws when perp pnl or spot orders cover borrows

---
 ts/client/src/accounts/mangoAccount.ts | 45 ++++++++++++++++----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/ts/client/src/accounts/mangoAccount.ts b/ts/client/src/accounts/mangoAccount.ts
index 5f88887..9e75b0c 100644
--- a/ts/client/src/accounts/mangoAccount.ts
+++ b/ts/client/src/accounts/mangoAccount.ts
@@ -577,9 +577,13 @@ export class MangoAccount {
     const lowerBoundBorrowHealthFactor = tokenBank
       .getLiabPrice()
       .mul(tokenBank.scaledInitLiabWeight(tokenBank.getLiabPrice()));
-    const upperBound = existingTokenDeposits.add(
-      initHealth.div(lowerBoundBorrowHealthFactor),
-    );
+    // Unsettled positive perp pnl and free funds in spot open orders also cover borrows
+    const effectiveBalance = healthCache.effectiveTokenBalances(
+      HealthType.init,
+    )[tokenInfoIndex].spotAndPerp;
+    const upperBound = existingTokenDeposits
+      .max(effectiveBalance)
+      .add(initHealth.div(lowerBoundBorrowHealthFactor));
 
     // Step 2: Find the maximum withdraw amount
 
@@ -634,20 +638,27 @@ export class MangoAccount {
       .getAssetPrice()
       .mul(tokenBank.scaledInitAssetWeight(tokenBank.getAssetPrice()));
 
-    let amount = HealthCache.binaryApproximationSearch(
-      ZERO_I80F48(),
-      initHealth,
-      upperBound,
-      I80F48.fromNumber(0.5).mul(minHealthChangePerNative).min(initHealth),
-      I80F48.fromNumber(0.5),
-      healthAfterWithdraw,
-      {
-        maxIterations: 100,
-        targetError: I80F48.fromNumber(0.2)
-          .mul(minHealthChangePerNative)
-          .toNumber(),
-      },
-    );
+    const targetHealth = I80F48.fromNumber(0.5)
+      .mul(minHealthChangePerNative)
+      .min(initHealth);
+    // Funds reserved in spot orders can also cover part of a borrow, then the health is
+    // still above the target at the upper bound and there is nothing to search for.
+    let amount = healthAfterWithdraw(upperBound).gt(targetHealth)
+      ? upperBound
+      : HealthCache.binaryApproximationSearch(
+          ZERO_I80F48(),
+          initHealth,
+          upperBound,
+          targetHealth,
+          I80F48.fromNumber(0.5),
+          healthAfterWithdraw,
+          {
+            maxIterations: 100,
+            targetError: I80F48.fromNumber(0.2)
+              .mul(minHealthChangePerNative)
+              .toNumber(),
+          },
+        );
 
     // Step 3: Only full tokens can be withdrawn, do the rounding and
     // check if withdrawing one-native more would also be fine
-- 
2.43.0


From 5bcca645bdf9e166658afc2de77045811c22ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 17/50] fix: ts getMaxWithdrawWithBorrowForToken scales the
 asset weight at the liability price, as health does

---
 ts/client/src/accounts/mangoAccount.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/mangoAccount.ts b/ts/client/src/accounts/mangoAccount.ts
index 9e75b0c..3b42501 100644
--- a/ts/client/src/accounts/mangoAccount.ts
+++ b/ts/client/src/accounts/mangoAccount.ts
@@ -623,7 +623,7 @@ export class MangoAccount {
         }
       }
       mutTi.initScaledAssetWeight = mutTokenBank.scaledInitAssetWeight(
-        tokenBank.getAssetPrice(),
+        tokenBank.getLiabPrice(),
       );
       mutTi.initScaledLiabWeight = mutTokenBank.scaledInitLiabWeight(
         tokenBank.getLiabPrice(),
-- 
2.43.0


From e617413c7b55f7d17243b5e78e448612a5722114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 18/50] fix: ts I80F48 floor, ceil and frac of negative numbers

---
 ts/client/src/numbers/I80F48.ts | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/ts/client/src/numbers/I80F48.ts b/ts/client/src/numbers/I80F48.ts
index d683ae6..5254c47 100644
--- a/ts/client/src/numbers/I80F48.ts
+++ b/ts/client/src/numbers/I80F48.ts
@@ -138,24 +138,17 @@ export class I80F48 {
     return this;
   }
   floor(): I80F48 {
-    // Low IQ method
-    return I80F48.fromBig(this.toBig().round(undefined, 0));
-    // return new I80F48(this.data.shrn(I80F48.FRACTIONS).shln(I80F48.FRACTIONS));
+    return new I80F48(this.data.sub(this.data.umod(I80F48.MULTIPLIER_BN)));
   }
   ceil(): I80F48 {
-    // Low IQ method, 3 -> round up
-    return I80F48.fromBig(this.toBig().round(undefined, 3));
-
-    // const frac = this.data.maskn(I80F48.FRACTIONS);
-    // if (frac.eq(ZERO_BN)) {
-    //   return this;
-    // } else {
-    //   return this.floor().add(ONE_I80F48);
-    // }
+    const frac = this.data.umod(I80F48.MULTIPLIER_BN);
+    if (frac.isZero()) {
+      return new I80F48(this.data.clone());
+    }
+    return new I80F48(this.data.sub(frac).add(I80F48.MULTIPLIER_BN));
   }
   frac(): I80F48 {
-    // TODO verify this works for negative numbers
-    return new I80F48(this.data.maskn(I80F48.FRACTIONS));
+    return new I80F48(this.data.umod(I80F48.MULTIPLIER_BN));
   }
   /**
    * Multiply the two and shift
-- 
2.43.0


From b045ff5db1c6a6f7b443c9e5b62f3c6e37f5fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 19/50] fix: ts I80F48.fromNumber of numbers that toFixed
 writes with an exponent

---
 ts/client/src/numbers/I80F48.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/numbers/I80F48.ts b/ts/client/src/numbers/I80F48.ts
index 5254c47..735b462 100644
--- a/ts/client/src/numbers/I80F48.ts
+++ b/ts/client/src/numbers/I80F48.ts
@@ -45,7 +45,7 @@ export class I80F48 {
   }
   static fromNumber(x: number): I80F48 {
     const int_part = Math.trunc(x);
-    const v = new BN(int_part.toFixed(0)).iushln(48);
+    const v = new BN(BigInt(int_part).toString()).iushln(48);
     v.iadd(new BN((x - int_part) * I80F48.MULTIPLIER_NUMBER));
     return new I80F48(v);
   }
-- 
2.43.0


From e59e3e3f9b5219790b7574b706c4e0513f6542aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 20/50] fix: ts roundTo5 of numbers that are written with an
 exponent

---
 ts/client/src/utils.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ts/client/src/utils.ts b/ts/client/src/utils.ts
index a802c39..aef8ec7 100644
--- a/ts/client/src/utils.ts
+++ b/ts/client/src/utils.ts
@@ -8,6 +8,7 @@ import {
   TransactionInstruction,
   VersionedTransaction,
 } from '@solana/web3.js';
+import Big from 'big.js';
 import BN from 'bn.js';
 import { Bank } from './accounts/bank';
 import { I80F48 } from './numbers/I80F48';
@@ -85,7 +86,7 @@ export function toUiI80F48(nativeAmount: I80F48, decimals: number): I80F48 {
 
 export function roundTo5(number): number {
   if (number < 1) {
-    const numString = number.toString();
+    const numString = new Big(number).toFixed();
     const nonZeroIndex = numString.search(/[1-9]/);
     if (nonZeroIndex === -1 || nonZeroIndex >= numString.length - 5) {
       return number;
@@ -94,22 +95,22 @@ export function roundTo5(number): number {
   } else if (number < 10) {
     return (
       Math.floor(number) +
-      Number((number % 1).toString().padEnd(10, '0').slice(0, 6))
+      Number(new Big(number % 1).toFixed().padEnd(10, '0').slice(0, 6))
     );
   } else if (number < 100) {
     return (
       Math.floor(number) +
-      Number((number % 1).toString().padEnd(10, '0').slice(0, 5))
+      Number(new Big(number % 1).toFixed().padEnd(10, '0').slice(0, 5))
     );
   } else if (number < 1000) {
     return (
       Math.floor(number) +
-      Number((number % 1).toString().padEnd(10, '0').slice(0, 4))
+      Number(new Big(number % 1).toFixed().padEnd(10, '0').slice(0, 4))
     );
   } else if (number < 10000) {
     return (
       Math.floor(number) +
-      Number((number % 1).toString().padEnd(10, '0').slice(0, 3))
+      Number(new Big(number % 1).toFixed().padEnd(10, '0').slice(0, 3))
     );
   }
   return Math.round(number);
-- 
2.43.0


From 7ecd297beb77b5666de519c375b41bcc733e41a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 21/50] fix: ts priceLotsToNative keeps the fractional part of
 the price

---
 ts/client/src/accounts/perp.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/perp.ts b/ts/client/src/accounts/perp.ts
index 9a4933f..c519df1 100644
--- a/ts/client/src/accounts/perp.ts
+++ b/ts/client/src/accounts/perp.ts
@@ -469,7 +469,9 @@ export class PerpMarket {
   }
 
   public priceLotsToNative(price: BN): I80F48 {
-    return I80F48.fromI64(price.mul(this.quoteLotSize).div(this.baseLotSize));
+    return I80F48.fromI64(price.mul(this.quoteLotSize)).div(
+      I80F48.fromI64(this.baseLotSize),
+    );
   }
 
   public priceLotsToUi(price: BN): number {
-- 
2.43.0


From b6096b426a588e9cbb54cbbf09669efd198f44ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:48 +0000
Subject: [PATCH 22/50] fix: ts Bank deposit rate excludes the loan upkeep
 rate, borrow rate of an unused bank is its zero utilization rate

---
 ts/client/src/accounts/bank.ts | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/ts/client/src/accounts/bank.ts b/ts/client/src/accounts/bank.ts
index 13da794..3225aae 100644
--- a/ts/client/src/accounts/bank.ts
+++ b/ts/client/src/accounts/bank.ts
@@ -537,20 +537,28 @@ export class Bank implements BankForHealth {
 
   /**
    *
-   * @returns borrow rate, 0 is 0% where 1 is 100%; not including loan upkeep rate
+   * @returns borrows per deposits, clamped to 0..1; 0 when there are no deposits
    */
-  getBorrowRateWithoutUpkeepRate(): I80F48 {
+  private getUtilization(): I80F48 {
     const totalBorrows = this.nativeBorrows();
     const totalDeposits = this.nativeDeposits();
 
-    if (totalDeposits.isZero() || totalBorrows.isZero()) {
+    if (totalDeposits.isZero()) {
       return ZERO_I80F48();
     }
 
-    const utilization = totalBorrows
+    return totalBorrows
       .div(totalDeposits)
       .max(ZERO_I80F48())
       .min(ONE_I80F48());
+  }
+
+  /**
+   *
+   * @returns borrow rate, 0 is 0% where 1 is 100%; not including loan upkeep rate
+   */
+  getBorrowRateWithoutUpkeepRate(): I80F48 {
+    const utilization = this.getUtilization();
     const scaling = I80F48.fromNumber(
       this.interestCurveScaling == 0.0 ? 1.0 : this.interestCurveScaling,
     );
@@ -588,21 +596,11 @@ export class Bank implements BankForHealth {
 
   /**
    *
-   * @returns deposit rate, 0 is 0% where 1 is 100%
+   * @returns deposit rate, 0 is 0% where 1 is 100%; the loan upkeep rate is not
+   * distributed to depositors
    */
   getDepositRate(): I80F48 {
-    const borrowRate = this.getBorrowRate();
-    const totalBorrows = this.nativeBorrows();
-    const totalDeposits = this.nativeDeposits();
-
-    if (totalDeposits.isZero() && totalBorrows.isZero()) {
-      return ZERO_I80F48();
-    } else if (totalDeposits.isZero()) {
-      return this.maxRate;
-    }
-
-    const utilization = totalBorrows.div(totalDeposits);
-    return utilization.mul(borrowRate);
+    return this.getUtilization().mul(this.getBorrowRateWithoutUpkeepRate());
   }
 
   /**
-- 
2.43.0


From 95ce1d39c026e3f294cb6f343b06fcdaba8567b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:48 +0000
Subject: [PATCH 23/50] fix: ts borrow limit left in the window uses the
 liability price and knows expired windows and disabled limits

---
 ts/client/src/accounts/bank.ts | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/accounts/bank.ts b/ts/client/src/accounts/bank.ts
index 3225aae..4f90939 100644
--- a/ts/client/src/accounts/bank.ts
+++ b/ts/client/src/accounts/bank.ts
@@ -1,7 +1,13 @@
 import { BN } from '@coral-xyz/anchor';
 import { utf8 } from '@coral-xyz/anchor/dist/cjs/utils/bytes';
 import { PublicKey } from '@solana/web3.js';
-import { I80F48, I80F48Dto, ONE_I80F48, ZERO_I80F48 } from '../numbers/I80F48';
+import {
+  I80F48,
+  I80F48Dto,
+  MAX_I80F48,
+  ONE_I80F48,
+  ZERO_I80F48,
+} from '../numbers/I80F48';
 import { As, toUiDecimals } from '../utils';
 import { OracleProvider, isOracleStaleOrUnconfident } from './oracle';
 
@@ -612,11 +618,25 @@ export class Bank implements BankForHealth {
   }
 
   getNetBorrowLimitPerWindow(): I80F48 {
-    return I80F48.fromI64(this.netBorrowLimitPerWindowQuote).div(this.price);
+    // a negative limit means that there is none
+    if (this.netBorrowLimitPerWindowQuote.isNeg()) {
+      return MAX_I80F48();
+    }
+    return I80F48.fromI64(this.netBorrowLimitPerWindowQuote).div(
+      this.getLiabPrice(),
+    );
   }
 
   getBorrowLimitLeftInWindow(): I80F48 {
-    return this.getNetBorrowLimitPerWindow()
+    const limit = this.getNetBorrowLimitPerWindow();
+    if (
+      this.netBorrowLimitPerWindowQuote.isNeg() ||
+      // the first borrow of the next window starts from zero
+      this.getTimeToNextBorrowLimitWindowStartsTs() == 0
+    ) {
+      return limit;
+    }
+    return limit
       .sub(I80F48.fromI64(this.netBorrowsInWindow))
       .max(ZERO_I80F48());
   }
-- 
2.43.0


From 350e0c5c76516c994e420a5ea8c0f1df1da22075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:48 +0000
Subject: [PATCH 24/50] fix: ts getRemainingDepositLimit of banks with large
 deposits

---
 ts/client/src/accounts/bank.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/bank.ts b/ts/client/src/accounts/bank.ts
index 4f90939..f3f873e 100644
--- a/ts/client/src/accounts/bank.ts
+++ b/ts/client/src/accounts/bank.ts
@@ -685,7 +685,7 @@ export class Bank implements BankForHealth {
 
     const remainingDepositLimit = !isNoLimit
       ? this.depositLimit
-          .sub(new BN(nativeDeposits.toNumber()))
+          .sub(nativeDeposits.ceil().getData().shrn(48))
           .sub(this.potentialSerumTokens)
       : null;
 
-- 
2.43.0


From d6729e5f877a528f33d908950e925025af0ea8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:48 +0000
Subject: [PATCH 25/50] fix: ts getCumulativeInterest subtracts the borrow
 interest, which is stored as a positive number

---
 ts/client/src/accounts/mangoAccount.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/mangoAccount.ts b/ts/client/src/accounts/mangoAccount.ts
index 3b42501..5f69c55 100644
--- a/ts/client/src/accounts/mangoAccount.ts
+++ b/ts/client/src/accounts/mangoAccount.ts
@@ -523,7 +523,7 @@ export class MangoAccount {
           .toNumber();
         return (
           interest +
-          token.cumulativeDepositInterest +
+          token.cumulativeDepositInterest -
           token.cumulativeBorrowInterest
         );
       } else {
@@ -533,7 +533,7 @@ export class MangoAccount {
           .toNumber();
         return (
           interest +
-          token.cumulativeDepositInterest +
+          token.cumulativeDepositInterest -
           token.cumulativeBorrowInterest
         );
       }
-- 
2.43.0


From 474297d5d72635286699d90c225fee923725dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:48 +0000
Subject: [PATCH 26/50] fix: ts getEffectiveTokenBalance counts the free funds
 in open orders

---
 ts/client/src/accounts/mangoAccount.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/mangoAccount.ts b/ts/client/src/accounts/mangoAccount.ts
index 5f69c55..d7de650 100644
--- a/ts/client/src/accounts/mangoAccount.ts
+++ b/ts/client/src/accounts/mangoAccount.ts
@@ -311,10 +311,10 @@ export class MangoAccount {
       )) {
         const oo = this.serum3OosMapByMarketIndex.get(serum3Market.marketIndex);
         if (serum3Market.baseTokenIndex == bank.tokenIndex && oo) {
-          bal.add(I80F48.fromI64(oo.baseTokenFree));
+          bal.iadd(I80F48.fromI64(oo.baseTokenFree));
         }
         if (serum3Market.quoteTokenIndex == bank.tokenIndex && oo) {
-          bal.add(I80F48.fromI64(oo.quoteTokenFree));
+          bal.iadd(I80F48.fromI64(oo.quoteTokenFree));
         }
       }
       return bal;
-- 
2.43.0


From 4877edeeab0bc0d3750fc5215f9200644adc642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:01 +0000
Subject: [PATCH 27/50] fix: ts perp unsettled and settleable pnl account for
 unsettled funding and the recurring allowance constraint

---
 ts/client/src/accounts/mangoAccount.ts | 41 +++++++++++++++++++-------
 ts/client/src/constants/index.ts       |  2 +-
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/ts/client/src/accounts/mangoAccount.ts b/ts/client/src/accounts/mangoAccount.ts
index d7de650..0dcc5b3 100644
--- a/ts/client/src/accounts/mangoAccount.ts
+++ b/ts/client/src/accounts/mangoAccount.ts
@@ -1818,21 +1818,40 @@ export class PerpPosition {
     )
       .mul(baseNative)
       .toNumber();
-    const unrealized = new BN(perpMarket.settlePnlLimitFactor * positionValue);
+    const toBN = (x: I80F48): BN => x.getData().div(I80F48.MULTIPLIER_BN);
+    const unrealized = toBN(
+      I80F48.fromNumber(
+        Math.floor(perpMarket.settlePnlLimitFactor * positionValue),
+      ),
+    );
+
+    // unsettled funding is settled before the limit is applied
+    const unsettledFunding = this.getUnsettledFunding(perpMarket);
+    const stablePnlAbs = toBN(
+      this.quotePositionNative
+        .sub(unsettledFunding)
+        .add(
+          I80F48.fromNumber(perpMarket.stablePriceModel.stablePrice).mul(
+            this.getBasePosition(perpMarket),
+          ),
+        )
+        .abs()
+        .ceil(),
+    );
 
-    let maxPnl = unrealized.add(this.recurringSettlePnlAllowance.abs());
+    let maxPnl = unrealized.add(
+      BN.min(this.recurringSettlePnlAllowance.abs(), stablePnlAbs),
+    );
     let minPnl = maxPnl.neg();
 
-    const oneshot = this.oneshotSettlePnlAllowance;
+    const oneshot = this.oneshotSettlePnlAllowance.sub(unsettledFunding);
     if (!oneshot.isNeg()) {
-      maxPnl = maxPnl.add(new BN(oneshot.ceil().toNumber()));
+      maxPnl = maxPnl.add(toBN(oneshot.ceil()));
     } else {
-      minPnl = minPnl.add(new BN(oneshot.floor().toNumber()));
+      minPnl = minPnl.add(toBN(oneshot.floor()));
     }
 
-    const used = new BN(
-      this.settlePnlLimitSettledInCurrentWindowNative.toNumber(),
-    );
+    const used = this.settlePnlLimitSettledInCurrentWindowNative;
 
     const availableMin = BN.min(minPnl.sub(used), new BN(0));
     const availableMax = BN.max(maxPnl.sub(used), new BN(0));
@@ -1862,9 +1881,9 @@ export class PerpPosition {
       throw new Error("PerpPosition doesn't belong to the given market!");
     }
 
-    return this.quotePositionNative.add(
-      this.getBasePosition(perpMarket).mul(perpMarket.price),
-    );
+    return this.quotePositionNative
+      .sub(this.getUnsettledFunding(perpMarket))
+      .add(this.getBasePosition(perpMarket).mul(perpMarket.price));
   }
 
   public getUnsettledPnlUi(perpMarket: PerpMarket): number {
diff --git a/ts/client/src/constants/index.ts b/ts/client/src/constants/index.ts
index ee3f52b..be2713e 100644
--- a/ts/client/src/constants/index.ts
+++ b/ts/client/src/constants/index.ts
@@ -8,7 +8,7 @@ export const RUST_I64_MAX = (): BN => {
   return new BN('9223372036854775807');
 };
 export const RUST_I64_MIN = (): BN => {
-  return new BN('-9223372036854775807');
+  return new BN('-9223372036854775808');
 };
 
 export const COMPUTE_BUDGET_PROGRAM_ID = new PublicKey(
-- 
2.43.0


From 5718139ed2ad0dafff92c42a052768fcff20b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:51 +0000
Subject: [PATCH 28/50] fix: ts order book: pegged prices, expiry and validity
 as in the program, impact price over matchable orders

---
 ts/client/src/accounts/perp.ts | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ts/client/src/accounts/perp.ts b/ts/client/src/accounts/perp.ts
index c519df1..4a0e88e 100644
--- a/ts/client/src/accounts/perp.ts
+++ b/ts/client/src/accounts/perp.ts
@@ -460,6 +460,17 @@ export class PerpMarket {
       .div(this.quoteLotSize.mul(new BN(Math.pow(10, this.baseDecimals))));
   }
 
+  /**
+   * the oracle price in (quote per base) lots, rounded down like in the program
+   */
+  get oraclePriceLots(): BN {
+    return this.price
+      .getData()
+      .mul(this.baseLotSize)
+      .div(this.quoteLotSize)
+      .div(I80F48.MULTIPLIER_BN);
+  }
+
   public uiBaseToLots(quantity: number): BN {
     return toNative(quantity, this.baseDecimals).div(this.baseLotSize);
   }
@@ -757,7 +768,7 @@ export class BookSide {
           this.perpMarket,
           leafNode,
           this.type,
-          now.gt(expiryTimestamp),
+          now.gte(expiryTimestamp),
         );
       }
     }
@@ -787,7 +798,7 @@ export class BookSide {
           this.perpMarket,
           leafNode,
           this.type,
-          now.gt(expiryTimestamp),
+          now.gte(expiryTimestamp),
           true,
         );
       }
@@ -800,7 +811,7 @@ export class BookSide {
 
   getImpactPriceUi(baseLots: BN): number | undefined {
     const s = new BN(0);
-    for (const order of this.items()) {
+    for (const order of this.itemsValid()) {
       s.iadd(order.sizeLots);
       if (s.gte(baseLots)) {
         return order.uiPrice;
@@ -957,11 +968,13 @@ export class PerpOrder {
     if (isOraclePegged) {
       const priceData = leafNode.key.ushrn(64);
       const priceOffset = priceData.sub(new BN(1).ushln(63));
-      priceLots = perpMarket.uiPriceToLots(perpMarket.uiPrice).add(priceOffset);
+      priceLots = perpMarket.oraclePriceLots.add(priceOffset);
+      // prices below one lot can not be matched
       const isInvalid =
-        type === BookSideType.bids
+        priceLots.ltn(1) ||
+        (type === BookSideType.bids
           ? priceLots.gt(leafNode.pegLimit) && !leafNode.pegLimit.eqn(-1)
-          : leafNode.pegLimit.gt(priceLots);
+          : leafNode.pegLimit.gt(priceLots));
       oraclePeggedProperties = {
         isInvalid,
         priceOffset,
-- 
2.43.0


From acab230c831b3d130ec5c1564f7c21300fd8dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:50 +0000
Subject: [PATCH 29/50] fix: ts getGroupsForCreator awaits the reload,
 serum3GetMarkets filters by token index 0

---
 ts/client/src/client.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 8008be5..4f8edad 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -428,7 +428,7 @@ export class MangoClient {
     const groups = (await this.program.account.group.all(filters)).map(
       (tuple) => Group.from(tuple.publicKey, tuple.account),
     );
-    groups.forEach((group) => group.reloadAll(this));
+    await Promise.all(groups.map((group) => group.reloadAll(this)));
     return groups;
   }
 
@@ -1939,7 +1939,7 @@ export class MangoClient {
       },
     ];
 
-    if (baseTokenIndex) {
+    if (baseTokenIndex !== undefined) {
       const bbuf = Buffer.alloc(2);
       bbuf.writeUInt16LE(baseTokenIndex);
       filters.push({
@@ -1950,7 +1950,7 @@ export class MangoClient {
       });
     }
 
-    if (quoteTokenIndex) {
+    if (quoteTokenIndex !== undefined) {
       const qbuf = Buffer.alloc(2);
       qbuf.writeUInt16LE(quoteTokenIndex);
       filters.push({
-- 
2.43.0


From ed37dc36dc9f3532c7fd56a74077c5155570d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:47 +0000
Subject: [PATCH 30/50] fix: ts reloading banks and perp markets shows the new
 state, banks may share an oracle

---
 ts/client/src/accounts/group.ts | 51 +++++++++++++++++----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/ts/client/src/accounts/group.ts b/ts/client/src/accounts/group.ts
index 3786de7..1896fb8 100644
--- a/ts/client/src/accounts/group.ts
+++ b/ts/client/src/accounts/group.ts
@@ -7,7 +7,6 @@ import {
   PublicKey,
 } from '@solana/web3.js';
 import BN from 'bn.js';
-import merge from 'lodash/merge';
 import { MangoClient } from '../client';
 import { OPENBOOK_PROGRAM_ID } from '../constants';
 import { Id } from '../ids';
@@ -15,7 +14,6 @@ import { I80F48 } from '../numbers/I80F48';
 import { PriceImpact, computePriceImpactOnJup } from '../risk';
 import {
   buildFetch,
-  deepClone,
   toNative,
   toNativeI80F48,
   toUiDecimals,
@@ -31,6 +29,23 @@ import {
 import { BookSide, PerpMarket, PerpMarketIndex } from './perp';
 import { MarketIndex, Serum3Market } from './serum3';
 
+function pushToMap<K, V>(map: Map<K, V[]>, key: K, value: V): void {
+  const values = map.get(key);
+  if (values) {
+    values.push(value);
+  } else {
+    map.set(key, [value]);
+  }
+}
+
+function copyOraclePrice<T extends Bank | PerpMarket>(from: T, to: T): void {
+  to._price = from._price as I80F48;
+  to._uiPrice = from._uiPrice as number;
+  to._oracleLastUpdatedSlot = from._oracleLastUpdatedSlot as number;
+  to._oracleLastKnownDeviation = from._oracleLastKnownDeviation;
+  to._oracleProvider = from._oracleProvider as OracleProvider;
+}
+
 export class Group {
   static from(
     publicKey: PublicKey,
@@ -226,7 +241,7 @@ export class Group {
       banks = await client.getBanksForGroup(this);
     }
 
-    const oldbanksMapByTokenIndex = deepClone(this.banksMapByTokenIndex);
+    const oldbanksMapByTokenIndex = this.banksMapByTokenIndex;
 
     this.banksMapByName = new Map();
     this.banksMapByMint = new Map();
@@ -236,26 +251,16 @@ export class Group {
       // ensure that freshly fetched banks have valid price until we fetch oracles again
       const oldBanks = oldbanksMapByTokenIndex.get(bank.tokenIndex);
       if (oldBanks && oldBanks.length > 0) {
-        merge(bank, oldBanks[0]);
+        copyOraclePrice(oldBanks[0], bank);
       }
 
       const mintId = bank.mint.toString();
-      if (this.banksMapByMint.has(mintId)) {
-        this.banksMapByMint.get(mintId)?.push(bank);
-        this.banksMapByName.get(bank.name)?.push(bank);
-        this.banksMapByTokenIndex.get(bank.tokenIndex)?.push(bank);
-        this.banksMapByOracle.get(bank.oracle.toString())?.push(bank);
-        if (!bank.fallbackOracle.equals(PublicKey.default)) {
-          this.banksMapByOracle.get(bank.fallbackOracle.toString())?.push(bank);
-        }
-      } else {
-        this.banksMapByMint.set(mintId, [bank]);
-        this.banksMapByName.set(bank.name, [bank]);
-        this.banksMapByTokenIndex.set(bank.tokenIndex, [bank]);
-        this.banksMapByOracle.set(bank.oracle.toString(), [bank]);
-        if (!bank.fallbackOracle.equals(PublicKey.default)) {
-          this.banksMapByOracle.set(bank.fallbackOracle.toString(), [bank]);
-        }
+      pushToMap(this.banksMapByMint, mintId, bank);
+      pushToMap(this.banksMapByName, bank.name, bank);
+      pushToMap(this.banksMapByTokenIndex, bank.tokenIndex, bank);
+      pushToMap(this.banksMapByOracle, bank.oracle.toString(), bank);
+      if (!bank.fallbackOracle.equals(PublicKey.default)) {
+        pushToMap(this.banksMapByOracle, bank.fallbackOracle.toString(), bank);
       }
     }
   }
@@ -393,15 +398,13 @@ export class Group {
     }
 
     // ensure that freshly fetched perp markets have valid price until we fetch oracles again
-    const oldPerpMarketByMarketIndex = deepClone(
-      this.perpMarketsMapByMarketIndex,
-    );
+    const oldPerpMarketByMarketIndex = this.perpMarketsMapByMarketIndex;
     for (const perpMarket of perpMarkets) {
       const oldPerpMarket = oldPerpMarketByMarketIndex.get(
         perpMarket.perpMarketIndex,
       );
       if (oldPerpMarket) {
-        merge(perpMarket, oldPerpMarket);
+        copyOraclePrice(oldPerpMarket, perpMarket);
       }
     }
 
-- 
2.43.0


From 04a787942fb0c22c2d56a1a49048f2900c9d1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 31/50] fix: ts deviation of stub oracles is a number, as
 isOracleStaleOrUnconfident expects

---
 ts/client/src/accounts/group.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/group.ts b/ts/client/src/accounts/group.ts
index 1896fb8..47f7ba3 100644
--- a/ts/client/src/accounts/group.ts
+++ b/ts/client/src/accounts/group.ts
@@ -515,7 +515,7 @@ export class Group {
       uiPrice = this.toUiPrice(price, baseDecimals);
       lastUpdatedSlot = stubOracle.lastUpdateSlot.toNumber();
       provider = OracleProvider.Stub;
-      deviation = stubOracle.deviation;
+      deviation = new I80F48(stubOracle.deviation.val);
     } else if (isPythOracle(ai)) {
       const priceData = parsePythOracle(ai, client.program.provider.connection);
       uiPrice = priceData.price;
-- 
2.43.0


From c0d728864b3922484918c21adcb53f1dbe469158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 32/50] fix: ts token conditional swap premium recognizes
 unlimited amounts that were read from an account

---
 ts/client/src/accounts/mangoAccount.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/mangoAccount.ts b/ts/client/src/accounts/mangoAccount.ts
index 0dcc5b3..5df5286 100644
--- a/ts/client/src/accounts/mangoAccount.ts
+++ b/ts/client/src/accounts/mangoAccount.ts
@@ -2262,11 +2262,11 @@ export class TokenConditionalSwap {
     maxSellUi: number,
   ): number {
     const buyAmountInUsd =
-      maxBuy != U64_MAX_BN
+      !maxBuy.eq(U64_MAX_BN)
         ? maxBuyUi * buyBank.uiPrice
         : Number.MAX_SAFE_INTEGER;
     const sellAmountInUsd =
-      maxSell != U64_MAX_BN
+      !maxSell.eq(U64_MAX_BN)
         ? maxSellUi * sellBank.uiPrice
         : Number.MAX_SAFE_INTEGER;
 
-- 
2.43.0


From 5e4c9a39781fa7d994f15e248063fb448130c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:30 +0000
Subject: [PATCH 33/50] fix: ts tokenRegisterTrustless passes the fallback
 oracle account

---
 ts/client/src/client.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 4f8edad..492ae1a 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -549,6 +549,7 @@ export class MangoClient {
         admin: (this.program.provider as AnchorProvider).wallet.publicKey,
         mint: mintPk,
         oracle: oraclePk,
+        fallbackOracle: PublicKey.default,
         payer: (this.program.provider as AnchorProvider).wallet.publicKey,
         rent: SYSVAR_RENT_PUBKEY,
       })
-- 
2.43.0


From 1b7d62e7df6cbcf70aa58676226c34c880843d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:30 +0000
Subject: [PATCH 34/50] fix: ts tokenEdit, tokenDeregister and
 tokenUpdateIndexAndRate pass all banks of the token

---
 ts/client/src/accounts/bank.ts |  3 +++
 ts/client/src/client.ts        | 46 ++++++++++++++++++----------------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/ts/client/src/accounts/bank.ts b/ts/client/src/accounts/bank.ts
index f3f873e..f213fce 100644
--- a/ts/client/src/accounts/bank.ts
+++ b/ts/client/src/accounts/bank.ts
@@ -745,6 +745,9 @@ export class MintInfo {
   public firstVault(): PublicKey {
     return this.vaults[0];
   }
+  public activeBanks(): PublicKey[] {
+    return this.banks.filter((pk) => !pk.equals(PublicKey.default));
+  }
 
   toString(): string {
     const res =
diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 492ae1a..9a79da7 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -621,13 +621,12 @@ export class MangoClient {
         admin: (this.program.provider as AnchorProvider).wallet.publicKey,
         mintInfo: mintInfo.publicKey,
       })
-      .remainingAccounts([
-        {
-          pubkey: bank.publicKey,
-          isWritable: true,
-          isSigner: false,
-        } as AccountMeta,
-      ])
+      .remainingAccounts(
+        mintInfo.activeBanks().map(
+          (pk) =>
+            ({ pubkey: pk, isWritable: true, isSigner: false }) as AccountMeta,
+        ),
+      )
       .instruction();
     return await this.sendAndConfirmTransactionForGroup(group, [ix]);
   }
@@ -776,6 +775,7 @@ export class MangoClient {
     mintPk: PublicKey,
   ): Promise<MangoSignatureStatus> {
     const bank = group.getFirstBankByMint(mintPk);
+    const mintInfo = group.mintInfosMapByTokenIndex.get(bank.tokenIndex)!;
     const adminPk = (this.program.provider as AnchorProvider).wallet.publicKey;
 
     const dustVaultPk = await getAssociatedTokenAddress(bank.mint, adminPk);
@@ -797,17 +797,23 @@ export class MangoClient {
       .accounts({
         group: group.publicKey,
         admin: adminPk,
-        mintInfo: group.mintInfosMapByTokenIndex.get(bank.tokenIndex)
-          ?.publicKey,
+        mintInfo: mintInfo.publicKey,
         dustVault: dustVaultPk,
         solDestination: (this.program.provider as AnchorProvider).wallet
           .publicKey,
       })
       .remainingAccounts(
-        [bank.publicKey, bank.vault].map(
-          (pk) =>
-            ({ pubkey: pk, isWritable: true, isSigner: false }) as AccountMeta,
-        ),
+        mintInfo
+          .activeBanks()
+          .flatMap((pk, i) => [pk, mintInfo.vaults[i]])
+          .map(
+            (pk) =>
+              ({
+                pubkey: pk,
+                isWritable: true,
+                isSigner: false,
+              }) as AccountMeta,
+          ),
       )
       .instruction();
 
@@ -3946,7 +3952,6 @@ export class MangoClient {
     group: Group,
     mintPk: PublicKey,
   ): Promise<TransactionInstruction> {
-    const bank = group.getFirstBankByMint(mintPk);
     const mintInfo = group.mintInfosMapByMint.get(mintPk.toString())!;
 
     return await this.program.methods
@@ -3957,13 +3962,12 @@ export class MangoClient {
         oracle: mintInfo.oracle,
         instructions: SYSVAR_INSTRUCTIONS_PUBKEY,
       })
-      .remainingAccounts([
-        {
-          pubkey: bank.publicKey,
-          isWritable: true,
-          isSigner: false,
-        } as AccountMeta,
-      ])
+      .remainingAccounts(
+        mintInfo.activeBanks().map(
+          (pk) =>
+            ({ pubkey: pk, isWritable: true, isSigner: false }) as AccountMeta,
+        ),
+      )
       .instruction();
   }
 
-- 
2.43.0


From 03e296289e9f83533c13356ff8e7103ca7031d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:30 +0000
Subject: [PATCH 35/50] fix: ts buildIxGate uses the bit of
 OpenbookV2SettleFunds

---
 ts/client/src/clientIxParamBuilder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/clientIxParamBuilder.ts b/ts/client/src/clientIxParamBuilder.ts
index 17c7aff..9c695ce 100644
--- a/ts/client/src/clientIxParamBuilder.ts
+++ b/ts/client/src/clientIxParamBuilder.ts
@@ -481,7 +481,7 @@ export function buildIxGate(p: IxGateParams): BN {
   toggleIx(ixGate, p, 'OpenbookV2PlaceOrder', 61);
   toggleIx(ixGate, p, 'OpenbookV2PlaceTakeOrder', 62);
   toggleIx(ixGate, p, 'OpenbookV2RegisterMarket', 63);
-  toggleIx(ixGate, p, 'OpenbookV2SettleFunds', 63);
+  toggleIx(ixGate, p, 'OpenbookV2SettleFunds', 64);
   toggleIx(ixGate, p, 'AdminTokenWithdrawFees', 65);
   toggleIx(ixGate, p, 'AdminPerpWithdrawFees', 66);
   toggleIx(ixGate, p, 'AccountSizeMigration', 67);
-- 
2.43.0


From 547d65b6989cb74ed4e5c99e1adac67d3e10fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:31 +0000
Subject: [PATCH 36/50] fix: ts editMangoAccount can set the expiry of the
 temporary delegate to zero

---
 ts/client/src/client.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 9a79da7..821afc7 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1069,7 +1069,7 @@ export class MangoClient {
         name ?? null,
         delegate ?? null,
         temporaryDelegate ?? null,
-        delegateExpiry ? new BN(delegateExpiry) : null,
+        delegateExpiry !== undefined ? new BN(delegateExpiry) : null,
       )
       .accounts({
         group: group.publicKey,
-- 
2.43.0


From e02ad385d507fc8a9af690d69627f60a64d5e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:31 +0000
Subject: [PATCH 37/50] fix: ts tokenConditionalSwapCancelAll uses the slot of
 each swap

---
 ts/client/src/client.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 821afc7..fc08ea4 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -4916,8 +4916,9 @@ export class MangoClient {
   ): Promise<MangoSignatureStatus> {
     const ixs = await Promise.all(
       account.tokenConditionalSwaps
-        .filter((tcs) => tcs.isConfigured)
-        .map(async (tcs, i) => {
+        .map((tcs, i): [TokenConditionalSwap, number] => [tcs, i])
+        .filter(([tcs]) => tcs.isConfigured)
+        .map(async ([tcs, i]) => {
           const buyBank = group.banksMapByTokenIndex.get(tcs.buyTokenIndex)![0];
           const sellBank = group.banksMapByTokenIndex.get(
             tcs.sellTokenIndex,
-- 
2.43.0


From a62d3a6fa8fbeabeed48d39b118ba5237f08fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:55 +0000
Subject: [PATCH 38/50] fix: ts settleAll settles the account against the
 candidate

---
 ts/client/src/client.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index fc08ea4..fd2aa38 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -3473,7 +3473,7 @@ export class MangoClient {
         await this.perpSettlePnlIx(
           group,
           pa.getUnsettledPnlUi(pm) > 0 ? mangoAccount : candidates[0].account,
-          pa.getUnsettledPnlUi(pm) < 0 ? candidates[0].account : mangoAccount,
+          pa.getUnsettledPnlUi(pm) > 0 ? candidates[0].account : mangoAccount,
           mangoAccount,
           pm.perpMarketIndex,
         ),
-- 
2.43.0


From 1f662f04ad91177ebc0ff57522ba00d371895bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:56 +0000
Subject: [PATCH 39/50] fix: ts altExtend passes the programs that the
 instruction calls

---
 ts/client/src/client.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index fd2aa38..3884909 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -16,6 +16,7 @@ import {
   AccountInfo,
   AccountMeta,
   AddressLookupTableAccount,
+  AddressLookupTableProgram,
   Cluster,
   Commitment,
   ComputeBudgetProgram,
@@ -5048,6 +5049,12 @@ export class MangoClient {
         payer: (this.program.provider as AnchorProvider).wallet.publicKey,
         addressLookupTable,
       })
+      .remainingAccounts(
+        [SystemProgram.programId, AddressLookupTableProgram.programId].map(
+          (pk) =>
+            ({ pubkey: pk, isWritable: false, isSigner: false }) as AccountMeta,
+        ),
+      )
       .instruction();
     return await this.sendAndConfirmTransactionForGroup(group, [ix]);
   }
-- 
2.43.0


From 735235ce51166ed0f8cc8002455aa56793503983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:27 +0000
Subject: [PATCH 40/50] fix: ts withdrawing several tokens with bad oracles
 expects the emptied positions to be gone

Every withdrawal deactivates its token position, unless that is still in
use, so the next one has to come without its bank and oracle.
---
 ts/client/src/client.ts | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 3884909..6435b16 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1661,19 +1661,26 @@ export class MangoClient {
       throw new Error(`No stale oracle or bad confidence oracle deposits!`);
     }
 
-    const ixs = await Promise.all(
-      banksToWithdrawFrom.map((bank) => {
-        return this.tokenWithdrawNativeIx(
-          group,
-          mangoAccount,
-          bank.mint,
-          U64_MAX_BN,
-          false,
-        );
-      }),
-    );
+    // Work on a deep cloned mango account, since each withdrawal deactivates its
+    // token position before the next one is executed
+    const clonedMangoAccount = copy(mangoAccount);
+    const instructions: TransactionInstruction[] = [];
+    for (const bank of banksToWithdrawFrom) {
+      const withdrawIxs = await this.tokenWithdrawNativeIx(
+        group,
+        clonedMangoAccount,
+        bank.mint,
+        U64_MAX_BN,
+        false,
+      );
+      instructions.push(...withdrawIxs);
+      const tp = clonedMangoAccount.getToken(bank.tokenIndex)!;
+      if (tp.inUseCount === 0) {
+        tp.tokenIndex = TokenPosition.TokenIndexUnset as TokenIndex;
+      }
+    }
 
-    return await this.sendAndConfirmTransactionForGroup(group, ixs.flat());
+    return await this.sendAndConfirmTransactionForGroup(group, instructions);
   }
 
   /**
-- 
2.43.0


From 060f8f79d49965655be141c39438b19d6d794a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:45 +0000
Subject: [PATCH 41/50] fix: ts loadSerum3OpenOrdersAccounts pairs the loaded
 accounts with their own addresses

The accounts of the active slots were given the addresses of the first slots.
---
 ts/client/src/accounts/mangoAccount.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ts/client/src/accounts/mangoAccount.ts b/ts/client/src/accounts/mangoAccount.ts
index 5df5286..5ec193f 100644
--- a/ts/client/src/accounts/mangoAccount.ts
+++ b/ts/client/src/accounts/mangoAccount.ts
@@ -808,13 +808,16 @@ export class MangoAccount {
       await client.program.provider.connection.getMultipleAccountsInfo(
         openOrderPks,
       );
-    const accounts = response.filter((a): a is AccountInfo<Buffer> =>
-      Boolean(a),
-    );
+    const accounts = response
+      .map((acc, index): [PublicKey, AccountInfo<Buffer> | null] => [
+        openOrderPks[index],
+        acc,
+      ])
+      .filter((a): a is [PublicKey, AccountInfo<Buffer>] => Boolean(a[1]));
 
-    return accounts.map((acc, index) => {
+    return accounts.map(([openOrderPk, acc]) => {
       return OpenOrders.fromAccountInfo(
-        this.serum3[index].openOrders,
+        openOrderPk,
         acc,
         OPENBOOK_PROGRAM_ID[client.cluster],
       );
-- 
2.43.0


From 75a95fcc06c9eeb28f5a42bb438ececdd2fbb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:39 +0000
Subject: [PATCH 42/50] fix: max_perp_for_health_ratio ignores resting orders
 when it estimates how far to search

Resting orders on the other side lower the health at the start without making
it fall any faster, so the estimate was too small and the assertion failed.
---
 programs/mango-v4/src/health/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index efc6c75..fb1a787 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -375,6 +375,9 @@ impl HealthCache {
             // enough to fully reduce any positive-pnl buffer. Thus get the uncapped health by fixing
             // the overall weight.
             start_cache.perp_infos[perp_info_index].init_overall_asset_weight = I80F48::ONE;
+            // Open orders on the other side only reduce health until they are offset by the trade.
+            start_cache.perp_infos[perp_info_index].bids_base_lots = 0;
+            start_cache.perp_infos[perp_info_index].asks_base_lots = 0;
             // We don't want to deal with slope changes due to settle token assets being
             // reduced first, so modify the weights to use settle token liab scaling everywhere.
             // That way the final_health_slope is applicable from the start.
-- 
2.43.0


From c246e3eda3bf4030289b322d38d44c37b88e1b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 43/50] fix: health client: search bound of
 max_borrow_for_health_ratio

The bound divided the remaining health by the liability weight alone, so for
tokens cheaper than one native quote unit (and, by rounding, for accounts
without liabilities) the search failed with an internal error instead of
offering a borrow.
---
 programs/mango-v4/src/health/client.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index fb1a787..a0f8a5b 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -468,10 +468,9 @@ impl HealthCache {
         // At most withdraw all deposits plus enough borrows to bring health to zero
         // (ensure this works with zero asset weight)
         let limit = token_balance.max(I80F48::ZERO)
-            + self.health(health_type).max(I80F48::ZERO) / token.init_scaled_liab_weight;
-        if limit <= 0 {
-            return Ok(I80F48::ZERO);
-        }
+            + self.health(health_type).max(I80F48::ZERO) / token.liab_weighted_price(health_type);
+        // Reserved funds in open orders and rounding may move the zero point further to the right
+        let limit = scan_right_until_less_than(limit, min_fn_value, fn_value_after_borrow)?;
 
         binary_search(
             I80F48::ZERO,
-- 
2.43.0


From e9627082ea41ba0b687492aa1c1b6149c4dc8c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:11 +0000
Subject: [PATCH 44/50] fix: max_perp_for_health_ratio overestimates the search
 range for settle tokens off their stable price

With a settle token whose oracle price is above or below its stable price the
settle token's assets and liabilities are priced differently; the estimate of
the point of zero health used the asset price for the deposits and the liab
price for the slope and the assertion after it panicked.
---
 programs/mango-v4/src/health/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index a0f8a5b..2c43c10 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -379,12 +379,15 @@ impl HealthCache {
             start_cache.perp_infos[perp_info_index].bids_base_lots = 0;
             start_cache.perp_infos[perp_info_index].asks_base_lots = 0;
             // We don't want to deal with slope changes due to settle token assets being
-            // reduced first, so modify the weights to use settle token liab scaling everywhere.
+            // reduced first, so modify weights and prices to use settle token liab scaling everywhere.
             // That way the final_health_slope is applicable from the start.
             {
                 let settle_info = &mut start_cache.token_infos[settle_info_index];
                 settle_info.init_asset_weight = settle_info.init_liab_weight;
                 settle_info.init_scaled_asset_weight = settle_info.init_scaled_liab_weight;
+                let liab_price = settle_info.prices.liab(health_type);
+                settle_info.prices.oracle = liab_price;
+                settle_info.prices.stable = liab_price;
             }
             let start_health = start_cache.health(health_type);
             if start_health <= 0 {
-- 
2.43.0


From c204e24f19d60f38d4b6db8ac7a8fc0a3ddf758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:56 +0000
Subject: [PATCH 45/50] fix: orderbook feed: publish book updates that only add
 or only remove orders

---
 bin/service-mango-orderbook/src/orderbook_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/service-mango-orderbook/src/orderbook_filter.rs b/bin/service-mango-orderbook/src/orderbook_filter.rs
index 26faccb..bb65410 100644
--- a/bin/service-mango-orderbook/src/orderbook_filter.rs
+++ b/bin/service-mango-orderbook/src/orderbook_filter.rs
@@ -222,7 +222,7 @@ fn publish_changes(
         metric_level_updates.increment();
     }
 
-    if !book_additions.is_empty() && !book_removals.is_empty() {
+    if !book_additions.is_empty() || !book_removals.is_empty() {
         orderbook_update_sender
             .try_send(OrderbookFilterMessage::BookUpdate(BookUpdate {
                 market: mkt.0.to_string(),
-- 
2.43.0


From d55f2132066f96082df3ddc45f5ab6e148ff4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:37 +0000
Subject: [PATCH 46/50] fix: feeds: perp prices of markets with fewer base than
 quote decimals

price_lots_to_ui_perp panicked for them, which ends the task of the orderbook
and fills feeds for all markets.
---
 lib/mango-feeds-lib/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/mango-feeds-lib/src/lib.rs b/lib/mango-feeds-lib/src/lib.rs
index 3a465de..5c39429 100644
--- a/lib/mango-feeds-lib/src/lib.rs
+++ b/lib/mango-feeds-lib/src/lib.rs
@@ -101,7 +101,6 @@ pub fn price_lots_to_ui_perp(
     base_lot_size: i64,
     quote_lot_size: i64,
 ) -> f64 {
-    let decimals = base_decimals.checked_sub(quote_decimals).unwrap();
-    let multiplier = 10u64.pow(decimals.into()) as f64;
+    let multiplier = 10f64.powi(base_decimals as i32 - quote_decimals as i32);
     native as f64 * ((multiplier * quote_lot_size as f64) / base_lot_size as f64)
 }
-- 
2.43.0


From 28dff4743b43793f2a62b3f811accbfca04cf76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:22 +0000
Subject: [PATCH 47/50] fix: orderbook feed: identical orders of one account
 are published as separate orders

Additions and removals were found by looking for an equal order on the other
side of the diff, so placing a second order with the same price and size, or
cancelling one of two, was never published.
---
 .../src/orderbook_filter.rs                   | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/bin/service-mango-orderbook/src/orderbook_filter.rs b/bin/service-mango-orderbook/src/orderbook_filter.rs
index bb65410..968f278 100644
--- a/bin/service-mango-orderbook/src/orderbook_filter.rs
+++ b/bin/service-mango-orderbook/src/orderbook_filter.rs
@@ -102,18 +102,29 @@ fn publish_changes(
         )
     }
 
-    for prev_order in previous_orders.iter() {
-        let peer = current_orders.iter().find(|order| prev_order == *order);
+    // An account may have several orders with the same price and size: match each order only once
+    let mut unmatched_orders: Vec<&Order> = previous_orders.iter().collect();
+    for current_order in current_orders {
+        let peer = unmatched_orders
+            .iter()
+            .position(|order| current_order == *order);
 
         match peer {
+            Some(index) => {
+                unmatched_orders.remove(index);
+            }
             None => {
-                debug!("R {:?}", prev_order);
-                book_removals.push(prev_order.clone());
+                debug!("A {:?}", current_order);
+                book_additions.push(current_order.clone())
             }
-            _ => continue,
         }
     }
 
+    for prev_order in unmatched_orders {
+        debug!("R {:?}", prev_order);
+        book_removals.push(prev_order.clone());
+    }
+
     for previous_level in previous_bookside.iter() {
         let peer = current_bookside
             .iter()
@@ -152,20 +163,6 @@ fn publish_changes(
         }
     }
 
-    for current_order in current_orders {
-        let peer = previous_orders.iter().find(|order| current_order == *order);
-
-        match peer {
-            Some(_) => {
-                continue;
-            }
-            None => {
-                debug!("A {:?}", current_order);
-                book_additions.push(current_order.clone())
-            }
-        }
-    }
-
     match maybe_other_orders {
         Some(other_orders) => {
             let (bids, asks) = match side {
-- 
2.43.0


From 7b47d1967fabf36d4958b537e709cbd4cafb1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:17 +0000
Subject: [PATCH 48/50] fix: orderbook feed: update the asks as well when the
 oracle changes

The bids were handled first and recorded the new oracle version, so oracle
pegged asks (and the bids of other markets with the same oracle) were only
republished with the next change of their own account.
---
 bin/service-mango-orderbook/src/orderbook_filter.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bin/service-mango-orderbook/src/orderbook_filter.rs b/bin/service-mango-orderbook/src/orderbook_filter.rs
index 968f278..c769ff5 100644
--- a/bin/service-mango-orderbook/src/orderbook_filter.rs
+++ b/bin/service-mango-orderbook/src/orderbook_filter.rs
@@ -325,8 +325,11 @@ pub async fn init(
                     let last_side_write_version = last_write_versions
                         .get(&side_pk.to_string())
                         .unwrap_or(&(0, 0));
+                    // oracle versions are tracked per bookside: both sides, and possibly several
+                    // markets, need to be updated when their oracle changes
+                    let oracle_version_key = format!("{side_pk}/{oracle_pk}");
                     let last_oracle_write_version = last_write_versions
-                        .get(&oracle_pk.to_string())
+                        .get(&oracle_version_key)
                         .unwrap_or(&(0, 0));
 
                     match (
@@ -335,7 +338,6 @@ pub async fn init(
                     ) {
                         (Ok(side_info), Ok(oracle_info)) => {
                             let side_pk_string = side_pk.to_string();
-                            let oracle_pk_string = oracle_pk.to_string();
 
                             if !side_info
                                 .is_newer_than(last_side_write_version.0, last_side_write_version.1)
@@ -352,7 +354,7 @@ pub async fn init(
                                 (side_info.slot, side_info.write_version),
                             );
                             last_write_versions.insert(
-                                oracle_pk_string.clone(),
+                                oracle_version_key.clone(),
                                 (oracle_info.slot, oracle_info.write_version),
                             );
 
-- 
2.43.0


From b2f232d7b33c610358e465912fc8ad13b8e94aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:49 +0000
Subject: [PATCH 49/50] fix: fills feed: panic when the head is at the start of
 the event queue

---
 .../src/fill_event_filter.rs                  | 44 +++++++++++--------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/bin/service-mango-fills/src/fill_event_filter.rs b/bin/service-mango-fills/src/fill_event_filter.rs
index 127b9f3..39f133e 100644
--- a/bin/service-mango-fills/src/fill_event_filter.rs
+++ b/bin/service-mango-fills/src/fill_event_filter.rs
@@ -33,6 +33,29 @@ use service_mango_fills::*;
 // couldn't compile the correct struct size / math on m1, fixed sizes resolve this issue
 type EventQueueEvents = [AnyEvent; MAX_NUM_EVENTS as usize];
 
+// The seq_num following that of the last consumed event, or 0 if there is none
+fn seq_num_at_head(events: &EventQueueEvents, head: usize) -> u64 {
+    // the queue is a ring buffer: before the first slot comes the last one
+    let last_consumed = (head + events.len() - 1) % events.len();
+    let event = events[last_consumed];
+
+    let seq_num = if event.event_type == EventType::Fill as u8 {
+        let event: PerpFillEvent = bytemuck::cast(event);
+        event.seq_num
+    } else if event.event_type == EventType::Out as u8 {
+        let event: PerpOutEvent = bytemuck::cast(event);
+        event.seq_num
+    } else {
+        return 0;
+    };
+
+    // slots that have never been used are zeroed
+    if seq_num % events.len() as u64 != last_consumed as u64 {
+        return 0;
+    }
+    seq_num + 1
+}
+
 #[allow(clippy::too_many_arguments)]
 fn publish_changes_perp(
     slot: u64,
@@ -167,25 +190,8 @@ fn publish_changes_perp(
 
     let head = header.head();
 
-    let head_seq_num = if events[head - 1].event_type == EventType::Fill as u8 {
-        let event: PerpFillEvent = bytemuck::cast(events[head - 1]);
-        event.seq_num + 1
-    } else if events[head - 1].event_type == EventType::Out as u8 {
-        let event: PerpOutEvent = bytemuck::cast(events[head - 1]);
-        event.seq_num + 1
-    } else {
-        0
-    };
-
-    let prev_head_seq_num = if prev_events[prev_head - 1].event_type == EventType::Fill as u8 {
-        let event: PerpFillEvent = bytemuck::cast(prev_events[prev_head - 1]);
-        event.seq_num + 1
-    } else if prev_events[prev_head - 1].event_type == EventType::Out as u8 {
-        let event: PerpOutEvent = bytemuck::cast(prev_events[prev_head - 1]);
-        event.seq_num + 1
-    } else {
-        0
-    };
+    let head_seq_num = seq_num_at_head(events, head);
+    let prev_head_seq_num = seq_num_at_head(prev_events, prev_head);
 
     // publish a head update event if the head changed (events were consumed)
     if head != prev_head {
-- 
2.43.0


From 685a8a5523444895c6a4ffe4620ae18ab99ed140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:49 +0000
Subject: [PATCH 50/50] fix: fills feed: a fork shorter than the event queue by
 its length or more revokes fills twice

---
 bin/service-mango-fills/src/fill_event_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/service-mango-fills/src/fill_event_filter.rs b/bin/service-mango-fills/src/fill_event_filter.rs
index 39f133e..4b471ee 100644
--- a/bin/service-mango-fills/src/fill_event_filter.rs
+++ b/bin/service-mango-fills/src/fill_event_filter.rs
@@ -162,8 +162,8 @@ fn publish_changes_perp(
         }
     }
 
-    // in case queue size shrunk due to a fork we need revoke all previous fills
-    for seq_num in header.seq_num..prev_seq_num {
+    // in case queue size shrunk due to a fork we need revoke all previous fills that are available
+    for seq_num in max(start_seq_num, header.seq_num)..prev_seq_num {
         let idx = (seq_num % MAX_NUM_EVENTS as u64) as usize;
         debug!(
             "found dropped event {} idx {} seq_num {} header seq num {} old seq num {} slot {} write_version {}",
-- 
2.43.0

