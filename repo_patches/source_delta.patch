From 321d4ac96c0a67fff3bee501053a5d37d8ca9c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 1/6] fix: enforce the harvest period history limit in
 production builds

The limit was guarded by a feature named "prod", which no crate declares,
so it held only in unit tests. Guard it by the absence of "dev" instead.
---
 programs/farming/src/models/farm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 1a0fd2a..bee4bc5 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -272,7 +272,7 @@ impl Farm {
         // already initialized as a fixed number length array of default
         // elements so unwrap `.last()` is safe
         let oldest_period = harvest.periods.last().unwrap();
-        let is_oldest_period_initialized = if cfg!(any(feature = "prod", test))
+        let is_oldest_period_initialized = if !cfg!(feature = "dev") || cfg!(test)
         {
             // if the oldest period is within the current snapshot history,
             // we are unable to update its value, the admin already passed the
-- 
2.43.0


From 07c77e13c3d7aa726e2de0f868cf1a975b62baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 2/6] fix: never deposit more than the depositor's limit

---
 programs/amm/src/models/pool.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index d9d5cf8..564cf83 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -252,7 +252,19 @@ impl Pool {
                             .try_ceil()?
                     };
 
-                    Ok((mint, TokenAmount { amount }))
+                    // the inverted ratio is rounded down, hence the deposit
+                    // can be rounded up beyond what the user agreed to
+                    let max_amount = max_tokens
+                        .get(&mint)
+                        .ok_or(AmmError::InvariantViolation)?
+                        .amount;
+
+                    Ok((
+                        mint,
+                        TokenAmount {
+                            amount: amount.min(max_amount),
+                        },
+                    ))
                 })
                 .collect::<Result<BTreeMap<Pubkey, TokenAmount>>>()?;
 
-- 
2.43.0


From acb420afa138959b63dc18840be88a9886317865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:22 +0000
Subject: [PATCH 3/6] fix: LP tokens of a deposit are limited by its smallest
 share of a reserve

---
 programs/amm/src/models/pool.rs | 46 ++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 564cf83..af697d6 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -463,13 +463,10 @@ impl Pool {
         }
     }
 
-    /// Any given token in the pool can be used to compute the amount
-    /// of lp tokens to be distributed with a given deposit, as long as the
-    /// ratios correspond to the ratios present in the pool. We compute
-    /// the lp tokens to be distributed with a simple 'rule of 3'. For any given
-    /// token in the pool x1, we multiple the deposit delta_x1 with the amount
-    /// of lp tokens in supply, and then divide the by the current reserve
-    /// amount x1.
+    /// We compute the lp tokens to be distributed with a simple 'rule of 3'. For
+    /// each token in the pool x1, we multiple the deposit delta_x1 with the
+    /// amount of lp tokens in supply, and then divide the by the current reserve
+    /// amount x1. The smallest of these is the amount of lp tokens.
     fn get_eligible_lp_tokens(
         &self,
         tokens_deposited: &BTreeMap<Pubkey, TokenAmount>,
@@ -478,18 +475,31 @@ impl Pool {
         debug_assert_ne!(lp_mint_supply, TokenAmount::new(0));
         debug_assert_eq!(tokens_deposited.len(), self.dimension as usize);
 
-        let any_reserve = self.reserves[0];
-        let reserve_deposit = tokens_deposited
-            .get(&any_reserve.mint)
-            .ok_or(AmmError::InvariantViolation)?;
-
+        // The deposits of different reserves are rounded up independently, hence
+        // their ratios differ slightly. The smallest one is decisive, so that
+        // no LP tokens are distributed for a rounding error.
+        let eligible_tokens = self
+            .reserves()
+            .iter()
+            .map(|reserve| {
+                let reserve_deposit = tokens_deposited
+                    .get(&reserve.mint)
+                    .ok_or(AmmError::InvariantViolation)?;
+
+                try_mul_div(
+                    Decimal::from(lp_mint_supply.amount),
+                    Decimal::from(reserve_deposit.amount),
+                    Decimal::from(reserve.tokens.amount),
+                )
+            })
+            .collect::<Result<Vec<_>>>()?;
         let tokens = TokenAmount::new(
-            try_mul_div(
-                Decimal::from(lp_mint_supply.amount),
-                Decimal::from(reserve_deposit.amount),
-                Decimal::from(any_reserve.tokens.amount),
-            )?
-            .try_floor()?,
+            eligible_tokens
+                .into_iter()
+                .min()
+                // there always are at least two reserves
+                .ok_or(AmmError::InvariantViolation)?
+                .try_floor()?,
         );
 
         Ok(if tokens.amount == 0 {
-- 
2.43.0


From 74a2ba2f4f21519e32138091da22b729b16199bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 4/6] fix: never move a farmer's harvest accounting back when
 stake vests

---
 programs/farming/src/models/farmer.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index de065ab..644513f 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -159,14 +159,21 @@ impl Farmer {
                 // calculate harvest for which the vested tokens should not be
                 // counted yet, ie. all harvest until first snapshot after
                 // vested at slot
-                let farmer_harvests = self.eligible_harvest_until(
-                    farm,
-                    Slot::new(snapshot.started_at.slot - 1),
-                )?;
-                self.set_harvests(farmer_harvests)?;
-                // and take a note that we calculated harvest until this
-                // point
-                self.calculate_next_harvest_from = snapshot.started_at;
+                //
+                // if the harvest has already been calculated up to that
+                // snapshot (or further, eg. in the same slot just before the
+                // snapshot was taken), there's nothing to calculate and we must
+                // not go back in time, otherwise a slot is calculated twice
+                if self.calculate_next_harvest_from < snapshot.started_at {
+                    let farmer_harvests = self.eligible_harvest_until(
+                        farm,
+                        Slot::new(snapshot.started_at.slot - 1),
+                    )?;
+                    self.set_harvests(farmer_harvests)?;
+                    // and take a note that we calculated harvest until this
+                    // point
+                    self.calculate_next_harvest_from = snapshot.started_at;
+                }
 
                 // mark funds which are beyond vesting period as staked
                 self.staked.amount = self
-- 
2.43.0


From a341788fcb2512de7ec0651b254c64d31c8debc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 5/6] fix: settle the target farmer's vested stake before
 compounding into it

---
 programs/farming/src/endpoints/compound_across_farms.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/farming/src/endpoints/compound_across_farms.rs b/programs/farming/src/endpoints/compound_across_farms.rs
index 3c3e13c..e8d9a17 100644
--- a/programs/farming/src/endpoints/compound_across_farms.rs
+++ b/programs/farming/src/endpoints/compound_across_farms.rs
@@ -100,6 +100,11 @@ pub fn handle(ctx: Context<CompoundAcrossFarms>) -> Result<()> {
     let compound_tokens = accounts
         .source_farmer
         .claim_harvest(target_farm.stake_mint)?;
+    // tokens which the target farmer deposited earlier might be past their
+    // vesting period already, they mustn't start vesting anew
+    accounts
+        .target_farmer
+        .check_vested_period_and_update_harvest(&target_farm, current_slot)?;
     accounts
         .target_farmer
         .add_to_vested(current_slot, compound_tokens)?;
-- 
2.43.0


From fe8ca0183bd526b4a7801a02c7c30570cf8f3a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 6/6] fix: compute the stable curve's invariant when a pool is
 created with liquidity

---
 programs/amm/src/endpoints/create_pool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/amm/src/endpoints/create_pool.rs b/programs/amm/src/endpoints/create_pool.rs
index 3bdadb9..7c3676c 100644
--- a/programs/amm/src/endpoints/create_pool.rs
+++ b/programs/amm/src/endpoints/create_pool.rs
@@ -126,5 +126,9 @@ pub fn handle(ctx: Context<CreatePool>, amplifier: u64) -> Result<()> {
     accs.pool.dimension = mints.len() as u64;
     accs.pool.program_toll_wallet = accs.program_toll_wallet.key();
 
+    // if the LP mint already has a supply, then the vaults are already funded
+    // and the first swap needs to know the stable curve's invariant
+    accs.pool.update_curve_invariant()?;
+
     Ok(())
 }
-- 
2.43.0

