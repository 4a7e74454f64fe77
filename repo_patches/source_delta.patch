From abf8abfe54253ac50d207716527e556d8626629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:08 +0000
Subject: [PATCH 1/3] fix: saturate fixed price registry deposit quota instead
 of rejecting every deposit

A fixed price presale whose supply is worth more than u64::MAX quote token
passes initialization but every deposit failed with MathOverflow.
---
 .../presale/src/presale_mode_handler/fixed_price_presale.rs  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
index d8005cc..c36a428 100644
--- a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
+++ b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
@@ -228,9 +228,12 @@ impl PresaleModeHandler for FixedPricePresaleHandler {
         let registry_remaining_base_token =
             presale_registry.presale_supply.safe_sub(total_token_sold)?;
 
+        // Presale supply is allowed to be worth more than u64::MAX quote token (e.g. over supplied presale).
+        // In that case the quota is only bounded by the global and personal quota.
         let registry_remaining_deposit_quota: u64 = u128::from(registry_remaining_base_token)
-            .safe_mul(self.q_price)?
+            .saturating_mul(self.q_price)
             .div_ceil(SCALE_MULTIPLIER)
+            .min(u64::MAX.into())
             .safe_cast()?;
 
         let personal_remaining_quota =
-- 
2.43.0


From 93edaa5f7e99ecb52893420982dbaddb2c65f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:09 +0000
Subject: [PATCH 2/3] fix: reject unknown unsold token action on presale
 initialization

UnsoldTokenAction::try_from is infallible because of the default variant, so
any value >= 2 was accepted and silently treated as Refund.
---
 .../presale/src/instructions/initialize_presale/params.rs    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/instructions/initialize_presale/params.rs b/programs/presale/src/instructions/initialize_presale/params.rs
index 5fe55eb..28b2080 100644
--- a/programs/presale/src/instructions/initialize_presale/params.rs
+++ b/programs/presale/src/instructions/initialize_presale/params.rs
@@ -182,9 +182,10 @@ impl PresaleArgs {
         let maybe_presale_mode = PresaleMode::try_from(self.presale_mode);
         require!(maybe_presale_mode.is_ok(), PresaleError::InvalidPresaleInfo);
 
-        let maybe_unsold_token_action = UnsoldTokenAction::try_from(self.unsold_token_action);
+        // UnsoldTokenAction has a default variant, converting from u8 never fails
+        let unsold_token_action = UnsoldTokenAction::from(self.unsold_token_action);
         require!(
-            maybe_unsold_token_action.is_ok(),
+            u8::from(unsold_token_action) == self.unsold_token_action,
             PresaleError::InvalidUnsoldTokenAction
         );
 
-- 
2.43.0


From efd2b8ff564cb31300aaa36ff351685cc1e89b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:09 +0000
Subject: [PATCH 3/3] fix: emit EvtFixedPricePresaleArgsClose when closing
 fixed price presale args

The instruction returned without calling its handler, so the event was never
emitted.
---
 programs/presale/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/lib.rs b/programs/presale/src/lib.rs
index c5d7119..a661d6e 100644
--- a/programs/presale/src/lib.rs
+++ b/programs/presale/src/lib.rs
@@ -60,9 +60,9 @@ pub mod presale {
     }
 
     pub fn close_fixed_price_presale_args(
-        _ctx: Context<CloseFixedPricePresaleArgsCtx>,
+        ctx: Context<CloseFixedPricePresaleArgsCtx>,
     ) -> Result<()> {
-        Ok(())
+        instructions::handle_close_fixed_price_presale_args(ctx)
     }
 
     pub fn initialize_presale<'a, 'b, 'c: 'info, 'info>(
-- 
2.43.0

