From 8f6a06cf7e54c84a1e6fe7d33edc0d3d47eac788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 01/10] fix: round up removed amounts of tokens with more than
 18 decimals in stable pools

remove_liquidity_by_tokens debited the pool by the amount rounded down to 18 decimals while crediting the full amount to the user, so the exchange owed more than it held.
---
 ref-exchange/src/stable_swap/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ref-exchange/src/stable_swap/mod.rs b/ref-exchange/src/stable_swap/mod.rs
index 123f4fa..04069d4 100644
--- a/ref-exchange/src/stable_swap/mod.rs
+++ b/ref-exchange/src/stable_swap/mod.rs
@@ -369,8 +369,14 @@ impl StableSwapPool {
         let n_coins = self.token_account_ids.len();
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
 
-        // make amounts into comparable-amounts
-        let c_amounts = self.amounts_to_c_amounts(&amounts);
+        // make amounts into comparable-amounts, rounded up (matters only for tokens with
+        // more decimals than TARGET_DECIMAL), so the pool never pays more than it debits.
+        let mut c_amounts = self.amounts_to_c_amounts(&amounts);
+        for i in 0..n_coins {
+            if self.c_amount_to_amount(c_amounts[i], i) < amounts[i] {
+                c_amounts[i] += 1;
+            }
+        }
         for i in 0..n_coins {
             self.assert_min_reserve(self.c_amounts[i].checked_sub(c_amounts[i]).unwrap_or(0));
         }
-- 
2.43.0


From ec2181a3900fe7f9a1bce2f0ca6064107a152c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:10 +0000
Subject: [PATCH 02/10] fix: do not let pledged (shadowed) shares be donated

---
 ref-exchange/src/donation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/donation.rs b/ref-exchange/src/donation.rs
index 8c8193e..cb7121e 100644
--- a/ref-exchange/src/donation.rs
+++ b/ref-exchange/src/donation.rs
@@ -18,8 +18,13 @@ impl Contract {
         let account_id = env::predecessor_account_id();
         let prev_storage = env::storage_usage();
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
-        let donation_amount = amount.map(|v| v.0).unwrap_or(pool.share_balances(&account_id));
+        let total_shares = pool.share_balances(&account_id);
+        let free_shares = self.internal_get_account(&account_id)
+            .and_then(|account| account.get_shadow_record(pool_id).map(|record| record.free_shares(total_shares)))
+            .unwrap_or(total_shares);
+        let donation_amount = amount.map(|v| v.0).unwrap_or(free_shares);
         assert!(donation_amount > 0, "Invalid amount");
+        assert!(donation_amount <= free_shares, "Not enough free shares");
         pool.share_transfer(&account_id, &env::current_account_id(), donation_amount);
         if unregister == Some(true) {
             pool.share_unregister(&account_id);
-- 
2.43.0


From e725ef1d7e5455d1fd3de4ef07bbc92a4cb53402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:41 +0000
Subject: [PATCH 03/10] fix: update the TWAP record before hot zaps,
 liquidations and fee withdrawals change a pool

---
 ref-exchange/src/owner.rs          | 1 +
 ref-exchange/src/shadow_actions.rs | 1 +
 ref-exchange/src/token_receiver.rs | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/ref-exchange/src/owner.rs b/ref-exchange/src/owner.rs
index 7e01c0a..6da0ac9 100644
--- a/ref-exchange/src/owner.rs
+++ b/ref-exchange/src/owner.rs
@@ -262,6 +262,7 @@ impl Contract {
         assert_one_yocto();
         assert!(self.is_owner_or_guardians(), "{}", ERR100_NOT_ALLOWED);
         self.assert_contract_running();
+        self.internal_update_unit_share_cumulative_info(pool_id);
         let ex_id = env::current_account_id();
         let owner_id = self.owner_id.clone();
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
diff --git a/ref-exchange/src/shadow_actions.rs b/ref-exchange/src/shadow_actions.rs
index 5fe8916..5a99007 100644
--- a/ref-exchange/src/shadow_actions.rs
+++ b/ref-exchange/src/shadow_actions.rs
@@ -171,6 +171,7 @@ impl Contract {
     pub fn on_burrow_liquidation(&mut self, liquidator_account_id: AccountId, liquidation_account_id: AccountId, shadow_id: String, liquidate_share_amount: U128, min_token_amounts: Vec<U128>) {
         assert!(self.burrowland_id == env::predecessor_account_id());
         let pool_id = shadow_id_to_pool_id(&shadow_id);
+        self.internal_update_unit_share_cumulative_info(pool_id);
         
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
         self.assert_no_frozen_tokens(pool.tokens());
diff --git a/ref-exchange/src/token_receiver.rs b/ref-exchange/src/token_receiver.rs
index 246dbbf..4230d21 100644
--- a/ref-exchange/src/token_receiver.rs
+++ b/ref-exchange/src/token_receiver.rs
@@ -180,6 +180,10 @@ impl FungibleTokenReceiver for Contract {
                         token_cache.add(&out_token_id, out_amount);
                     }
 
+                    for add_liquidity_info in &add_liquidity_infos {
+                        self.internal_update_unit_share_cumulative_info(add_liquidity_info.pool_id);
+                    }
+
                     let prev_storage = env::storage_usage();
                     for add_liquidity_info in add_liquidity_infos {
                         let mut pool = self.pools.get(add_liquidity_info.pool_id).expect(ERR85_NO_POOL);
-- 
2.43.0


From b83b52be11d9d97473bb1cbe5252462ed038aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 04/10] fix: do not let TWAP tracking block operations on pools
 close to their minimum reserve

---
 ref-exchange/src/degen_swap/mod.rs            | 16 ++++++++++++++++
 ref-exchange/src/pool.rs                      | 10 ++++++++++
 ref-exchange/src/rated_swap/mod.rs            | 16 ++++++++++++++++
 ref-exchange/src/simple_pool.rs               | 10 ++++++++++
 ref-exchange/src/stable_swap/mod.rs           | 16 ++++++++++++++++
 ref-exchange/src/unit_lpt_cumulative_infos.rs |  4 ++--
 6 files changed, 70 insertions(+), 2 deletions(-)

diff --git a/ref-exchange/src/degen_swap/mod.rs b/ref-exchange/src/degen_swap/mod.rs
index d405ddc..6c265db 100644
--- a/ref-exchange/src/degen_swap/mod.rs
+++ b/ref-exchange/src/degen_swap/mod.rs
@@ -334,6 +334,22 @@ impl DegenSwapPool {
         new_shares
     }
 
+    /// Returns the token amounts the given shares stand for.
+    /// Unlike removing liquidity, this does not depend on how much may currently leave the pool.
+    pub fn share_token_amounts(&self, shares: Balance) -> Vec<Balance> {
+        (0..self.token_account_ids.len())
+            .map(|i| {
+                let c_amount = U256::from(self.c_amounts[i])
+                    .checked_mul(shares.into())
+                    .unwrap()
+                    .checked_div(self.shares_total_supply.into())
+                    .unwrap()
+                    .as_u128();
+                self.c_amount_to_amount(c_amount, i)
+            })
+            .collect()
+    }
+
     /// balanced removal of liquidity would be free of charge.
     pub fn remove_liquidity_by_shares(
         &mut self,
diff --git a/ref-exchange/src/pool.rs b/ref-exchange/src/pool.rs
index 0432f6b..361a02b 100644
--- a/ref-exchange/src/pool.rs
+++ b/ref-exchange/src/pool.rs
@@ -125,6 +125,16 @@ impl Pool {
         }
     }
 
+    /// Returns the token amounts the given shares stand for.
+    pub fn share_token_amounts(&self, shares: Balance) -> Vec<Balance> {
+        match self {
+            Pool::SimplePool(pool) => pool.share_token_amounts(shares),
+            Pool::StableSwapPool(pool) => pool.share_token_amounts(shares),
+            Pool::RatedSwapPool(pool) => pool.share_token_amounts(shares),
+            Pool::DegenSwapPool(pool) => pool.share_token_amounts(shares),
+        }
+    }
+
     /// Return share decimal.
     pub fn get_share_decimal(&self) -> u8 {
         match self {
diff --git a/ref-exchange/src/rated_swap/mod.rs b/ref-exchange/src/rated_swap/mod.rs
index f011f83..dba5bc2 100644
--- a/ref-exchange/src/rated_swap/mod.rs
+++ b/ref-exchange/src/rated_swap/mod.rs
@@ -332,6 +332,22 @@ impl RatedSwapPool {
         new_shares
     }
 
+    /// Returns the token amounts the given shares stand for.
+    /// Unlike removing liquidity, this does not depend on how much may currently leave the pool.
+    pub fn share_token_amounts(&self, shares: Balance) -> Vec<Balance> {
+        (0..self.token_account_ids.len())
+            .map(|i| {
+                let c_amount = U256::from(self.c_amounts[i])
+                    .checked_mul(shares.into())
+                    .unwrap()
+                    .checked_div(self.shares_total_supply.into())
+                    .unwrap()
+                    .as_u128();
+                self.c_amount_to_amount(c_amount, i)
+            })
+            .collect()
+    }
+
     /// balanced removal of liquidity would be free of charge.
     pub fn remove_liquidity_by_shares(
         &mut self,
diff --git a/ref-exchange/src/simple_pool.rs b/ref-exchange/src/simple_pool.rs
index a20a090..cf3411a 100644
--- a/ref-exchange/src/simple_pool.rs
+++ b/ref-exchange/src/simple_pool.rs
@@ -182,6 +182,16 @@ impl SimplePool {
         }
     }
 
+    /// Returns the token amounts the given shares stand for.
+    pub fn share_token_amounts(&self, shares: Balance) -> Vec<Balance> {
+        self.amounts
+            .iter()
+            .map(|amount| {
+                (U256::from(*amount) * U256::from(shares) / U256::from(self.shares_total_supply)).as_u128()
+            })
+            .collect()
+    }
+
     /// Removes given number of shares from the pool and returns amounts to the parent.
     pub fn remove_liquidity(
         &mut self,
diff --git a/ref-exchange/src/stable_swap/mod.rs b/ref-exchange/src/stable_swap/mod.rs
index 04069d4..399745d 100644
--- a/ref-exchange/src/stable_swap/mod.rs
+++ b/ref-exchange/src/stable_swap/mod.rs
@@ -306,6 +306,22 @@ impl StableSwapPool {
         new_shares
     }
 
+    /// Returns the token amounts the given shares stand for.
+    /// Unlike removing liquidity, this does not depend on how much may currently leave the pool.
+    pub fn share_token_amounts(&self, shares: Balance) -> Vec<Balance> {
+        (0..self.token_account_ids.len())
+            .map(|i| {
+                let c_amount = U256::from(self.c_amounts[i])
+                    .checked_mul(shares.into())
+                    .unwrap()
+                    .checked_div(self.shares_total_supply.into())
+                    .unwrap()
+                    .as_u128();
+                self.c_amount_to_amount(c_amount, i)
+            })
+            .collect()
+    }
+
     /// balanced removal of liquidity would be free of charge.
     pub fn remove_liquidity_by_shares(
         &mut self,
diff --git a/ref-exchange/src/unit_lpt_cumulative_infos.rs b/ref-exchange/src/unit_lpt_cumulative_infos.rs
index 3b86758..3604153 100644
--- a/ref-exchange/src/unit_lpt_cumulative_infos.rs
+++ b/ref-exchange/src/unit_lpt_cumulative_infos.rs
@@ -135,10 +135,10 @@ impl UnitShareCumulativeInfo {
 
 impl Contract {
     pub fn internal_unit_share_token_amounts(&self, pool_id: u64) -> Option<Vec<u128>> {
-        let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
+        let pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
         let share_decimals = pool.get_share_decimal();
         if pool.share_total_balance() > 10u128.pow(share_decimals as u32) {
-            Some(pool.remove_liquidity(&String::from("@view"), 10u128.pow(share_decimals as u32), vec![0; pool.tokens().len()], true))
+            Some(pool.share_token_amounts(10u128.pow(share_decimals as u32)))
         } else {
             None
         }
-- 
2.43.0


From 66f4a4d0e9e59417f35d72979838f4c64d24d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:52 +0000
Subject: [PATCH 05/10] fix: return the deposit attached to a shadow removal

---
 ref-exchange/src/shadow_actions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ref-exchange/src/shadow_actions.rs b/ref-exchange/src/shadow_actions.rs
index 5a99007..c99e8d0 100644
--- a/ref-exchange/src/shadow_actions.rs
+++ b/ref-exchange/src/shadow_actions.rs
@@ -143,6 +143,8 @@ impl Contract {
                     .into()
             }
             ShadowActions::FromFarming | ShadowActions::FromBurrowland => {
+                // nothing is stored here, give the attached deposit back
+                self.internal_check_storage(prev_storage);
                 ext_shadow_receiver::on_remove_shadow(
                         sender_id.clone(),
                         shadow_id,
-- 
2.43.0


From c3b4b8a162d21b9529bee6b2bbd81d63aa6a367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 06/10] fix: refund only the storage a failed shadow action
 releases

---
 ref-exchange/src/shadow_actions.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ref-exchange/src/shadow_actions.rs b/ref-exchange/src/shadow_actions.rs
index c99e8d0..ac65337 100644
--- a/ref-exchange/src/shadow_actions.rs
+++ b/ref-exchange/src/shadow_actions.rs
@@ -244,6 +244,7 @@ impl Contract {
 #[near_bindgen]
 impl Contract {
     #[private]
+    #[allow(unused_variables)]
     pub fn callback_on_shadow(
         &mut self,
         action: ShadowActions,
@@ -253,22 +254,22 @@ impl Contract {
         storage_fee: U128
     ) -> bool {
         if !is_promise_success() {
+            let prev_storage = env::storage_usage();
             let mut account = self.internal_unwrap_account(&sender_id); 
             match action {
                 ShadowActions::ToFarming => {
                     account.update_shadow_record(pool_id, &ShadowActions::FromFarming, amount.0);
-                    if storage_fee.0 > 0 {
-                        Promise::new(sender_id.clone()).transfer(storage_fee.0);
-                    }
                 }
                 ShadowActions::ToBurrowland => {
                     account.update_shadow_record(pool_id, &ShadowActions::FromBurrowland, amount.0);
-                    if storage_fee.0 > 0 {
-                        Promise::new(sender_id.clone()).transfer(storage_fee.0);
-                    }
                 }
                 _ => {}
             }
+            // Only the storage actually released is refunded: another shadow_action may still need the record.
+            if prev_storage > env::storage_usage() {
+                let refund = (prev_storage - env::storage_usage()) as Balance * env::storage_byte_cost();
+                Promise::new(sender_id.clone()).transfer(refund);
+            }
             self.internal_save_account(&sender_id, account);
             false
         } else {
-- 
2.43.0


From 6bb432a5eb9e108eb7ad70d27ac5cd8a4cdbea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 07/10] fix: restore failed farm withdrawals of farmers who
 unregistered meanwhile

---
 ref-farming/src/actions_of_reward.rs | 2 ++
 ref-farming/src/actions_of_seed.rs   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/ref-farming/src/actions_of_reward.rs b/ref-farming/src/actions_of_reward.rs
index 00455c3..15b6953 100644
--- a/ref-farming/src/actions_of_reward.rs
+++ b/ref-farming/src/actions_of_reward.rs
@@ -117,6 +117,8 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered while the transfer was in flight
+                self.internal_register_account(&sender_id, 0);
                 // This reverts the changes from withdraw function.
                 let mut farmer = self.get_farmer(&sender_id);
                 farmer.get_ref_mut().add_reward(&token_id, amount.0);
diff --git a/ref-farming/src/actions_of_seed.rs b/ref-farming/src/actions_of_seed.rs
index d6e5c2d..7adf508 100644
--- a/ref-farming/src/actions_of_seed.rs
+++ b/ref-farming/src/actions_of_seed.rs
@@ -94,6 +94,8 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered while the transfer was in flight
+                self.internal_register_account(&sender_id, 0);
                 // revert withdraw, equal to deposit, claim reward to update user reward_per_seed
                 self.internal_claim_user_reward_by_seed_id(&sender_id, &seed_id);
                 let mut farm_seed = self.get_seed(&seed_id);
@@ -143,6 +145,8 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered while the transfer was in flight
+                self.internal_register_account(&sender_id, 0);
                 // revert withdraw, equal to deposit, claim reward to update user reward_per_seed
                 self.internal_claim_user_reward_by_seed_id(&sender_id, &seed_id);
                 let mut farm_seed = self.get_seed(&seed_id);
-- 
2.43.0


From 36fe892b7e2aecb7d7fd37e80e8d692f1d6dc248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 08/10] fix: let farmers without stake claim and stake again
 after a farm rps reset

---
 ref-farming/src/simple_farm.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ref-farming/src/simple_farm.rs b/ref-farming/src/simple_farm.rs
index 757f25c..9d27693 100644
--- a/ref-farming/src/simple_farm.rs
+++ b/ref-farming/src/simple_farm.rs
@@ -296,9 +296,10 @@ impl SimpleFarm {
     ) -> (RPS, Balance) {
 
         self.distribute(total_seeds, silent);
-        // if user_seeds == &0 {
-        //     return (self.last_distribution.rps, 0);
-        // }
+        // a user without stake may hold an rps from before the farm's rps was reset
+        if user_seeds == &0 {
+            return (self.last_distribution.rps, 0);
+        }
 
         let claimed = (
             U256::from(*user_seeds) 
-- 
2.43.0


From 1edcaee04ead6e70131138573c19882b69346c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 09/10] fix: let farmers who registered again withdraw their
 whole stake

---
 ref-farming/src/farmer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ref-farming/src/farmer.rs b/ref-farming/src/farmer.rs
index 8b34a39..7ccd168 100644
--- a/ref-farming/src/farmer.rs
+++ b/ref-farming/src/farmer.rs
@@ -98,7 +98,8 @@ impl Farmer {
     pub fn remove_rps(&mut self, farm_id: &FarmId) {
         if self.user_rps.contains_key(farm_id) {
             self.user_rps.remove(farm_id);
-            self.rps_count -= 1;
+            // an rps left from an earlier registration of this account is not counted
+            self.rps_count = self.rps_count.saturating_sub(1);
         }
     }
 
-- 
2.43.0


From 19f64cdb9b7b5d5b3c5e507061cdb12746bab5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 10/10] fix: drop reward entries that are withdrawn completely

---
 ref-farming/src/farmer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ref-farming/src/farmer.rs b/ref-farming/src/farmer.rs
index 7ccd168..22b3d28 100644
--- a/ref-farming/src/farmer.rs
+++ b/ref-farming/src/farmer.rs
@@ -52,7 +52,7 @@ impl Farmer {
     pub(crate) fn sub_reward(&mut self, token: &AccountId, amount: Balance) -> Balance {
         let value = *self.rewards.get(token).expect(ERR21_TOKEN_NOT_REG);
         assert!(value >= amount, "{}", ERR22_NOT_ENOUGH_TOKENS);
-        if amount == 0 {
+        if amount == 0 || amount == value {
             self.rewards.remove(&token.clone());
             value
         } else {
-- 
2.43.0

