From d1d109cb279d6afcbe7c3feabb5d4751b6d4fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 1/2] fix: reject crossing limit orders with free funds while
 the market is post-only

The check that only an active market may match looked at the amounts to
withdraw, which are zero when the proceeds stay on the market as free
funds (or are consumed by fees), so PlaceLimitOrderWithFreeFunds matched
in the PostOnly status. Look at what was matched instead.
---
 src/program/processor/new_order.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/program/processor/new_order.rs b/src/program/processor/new_order.rs
index d236ed0..715059a 100644
--- a/src/program/processor/new_order.rs
+++ b/src/program/processor/new_order.rs
@@ -376,6 +376,7 @@ fn process_new_order<'a, 'info>(
 
     let side = order_packet.side();
     let (
+        has_matched,
         quote_atoms_to_withdraw,
         quote_atoms_to_deposit,
         base_atoms_to_withdraw,
@@ -421,6 +422,10 @@ fn process_new_order<'a, 'info>(
         }
 
         (
+            // The matched amounts given by the trader are reported even when the proceeds are kept
+            // as free funds (or are entirely consumed by fees) and nothing is withdrawn.
+            matching_engine_response.num_quote_lots_in > QuoteLots::ZERO
+                || matching_engine_response.num_base_lots_in > BaseLots::ZERO,
             matching_engine_response.num_quote_lots_out * quote_lot_size,
             matching_engine_response.get_deposit_amount_bid_in_quote_lots() * quote_lot_size,
             matching_engine_response.num_base_lots_out * base_lot_size,
@@ -431,7 +436,7 @@ fn process_new_order<'a, 'info>(
     let quote_params = &header.quote_params;
     let base_params = &header.base_params;
 
-    if quote_atoms_to_withdraw > QuoteAtoms::ZERO || base_atoms_to_withdraw > BaseAtoms::ZERO {
+    if has_matched {
         let status = MarketStatus::from(header.status);
         assert_with_msg(
             status.cross_allowed(),
-- 
2.43.0


From 37762a1242c547393c1e029c769fbec2f5730cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 2/2] fix: refuse to initialize a market with a zero tick size
 or zero raw base units

Both passed the divisibility checks (zero is a multiple of everything)
and yielded a market whose orders are worth nothing or whose base lot
size is zero.
---
 src/program/processor/initialize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index 1ac157e..2f9a5ad 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -104,6 +104,12 @@ pub(crate) fn process_initialize_market<'a, 'info>(
         ProgramError::InvalidInstructionData,
         "Taker fee must be less than or equal to 10000 basis points (100%)",
     )?;
+    assert_with_msg(
+        tick_size_in_quote_lots_per_base_unit > QuoteLotsPerBaseUnitPerTick::ZERO
+            && raw_base_units_per_base_unit != Some(0),
+        ProgramError::InvalidInstructionData,
+        "Tick size and raw base units per base unit must be nonzero",
+    )?;
 
     let base_atoms_per_base_unit = BaseAtomsPerBaseUnit::new(
         10u64.pow(base_mint.decimals as u32) * raw_base_units_per_base_unit.unwrap_or(1) as u64,
-- 
2.43.0

