From 03c40405c602db75d8e0f088826389a95999ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 1/6] fix: let interest and bad debt auctions be filled once a
 side has scaled to zero

---
 pool/src/auctions/backstop_interest_auction.rs | 15 +++++++++------
 pool/src/auctions/bad_debt_auction.rs          | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 396683f..2242de6 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -83,13 +83,16 @@ pub fn fill_interest_auction(
     }
     let backstop_client = BackstopClient::new(&e, &backstop);
     let backstop_token: Address = backstop_client.backstop_token();
-    let backstop_token_bid_amount = auction_data.bid.get_unchecked(backstop_token);
+    // the bid is not part of the auction data once it has been scaled down to 0
+    let backstop_token_bid_amount = auction_data.bid.get(backstop_token).unwrap_or(0);
 
-    backstop_client.donate(
-        &filler,
-        &e.current_contract_address(),
-        &backstop_token_bid_amount,
-    );
+    if backstop_token_bid_amount > 0 {
+        backstop_client.donate(
+            &filler,
+            &e.current_contract_address(),
+            &backstop_token_bid_amount,
+        );
+    }
 
     // lot contains underlying tokens, but the backstop credit must be updated on the reserve
     for (res_asset_address, lot_amount) in auction_data.lot.iter() {
diff --git a/pool/src/auctions/bad_debt_auction.rs b/pool/src/auctions/bad_debt_auction.rs
index d01d043..e04fe06 100644
--- a/pool/src/auctions/bad_debt_auction.rs
+++ b/pool/src/auctions/bad_debt_auction.rs
@@ -87,12 +87,15 @@ pub fn fill_bad_debt_auction(
 
     let backstop_client = BackstopClient::new(e, &backstop_address);
     let backstop_token_id = backstop_client.backstop_token();
-    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_optimized();
-    backstop_client.draw(
-        &e.current_contract_address(),
-        &lot_amount,
-        &filler_state.address,
-    );
+    // the lot is not part of the auction data if it was scaled down to 0
+    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_or(0);
+    if lot_amount > 0 {
+        backstop_client.draw(
+            &e.current_contract_address(),
+            &lot_amount,
+            &filler_state.address,
+        );
+    }
 
     // If the backstop still has liabilities and less than 10% of the backstop threshold burn bad debt
     if !backstop_state.positions.liabilities.is_empty() {
-- 
2.43.0


From ea649c4eb0fd0458879c949c71c0a03f4c78fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 2/6] fix: reject an interest auction that lists an asset more
 than once

---
 pool/src/auctions/backstop_interest_auction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 2242de6..cd844a6 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -29,6 +29,10 @@ pub fn create_interest_auction_data(
     for res_asset_address in assets.iter() {
         // don't store updated reserve data back to ledger. This will occur on the the auction's fill.
         let reserve = pool.load_reserve(e, &res_asset_address, false);
+        if auction_data.lot.contains_key(res_asset_address.clone()) {
+            // an asset listed twice would count its credit twice in the value of the lot
+            panic_with_error!(e, PoolError::BadRequest);
+        }
         if reserve.backstop_credit > 0 {
             let asset_to_base = pool.load_price(e, &res_asset_address);
             interest_value += i128(asset_to_base)
-- 
2.43.0


From 57b2a74cfc216ac5990aee13d1040358c75b02bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 3/6] fix: keep backstop emissions usable while all shares of a
 pool are queued

---
 backstop/src/emissions/distributor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backstop/src/emissions/distributor.rs b/backstop/src/emissions/distributor.rs
index cff6de4..a54723a 100644
--- a/backstop/src/emissions/distributor.rs
+++ b/backstop/src/emissions/distributor.rs
@@ -81,6 +81,7 @@ pub fn update_emission_data_with_config(
         || e.ledger().timestamp() == emis_data.last_time
         || emis_config.eps == 0
         || pool_balance.shares == 0
+        || pool_balance.shares == pool_balance.q4w // every share is queued, none earns emissions
     {
         // emis_data already updated or expired
         return emis_data;
-- 
2.43.0


From fc6821b6f8ab7eb1b12e318a3f472954c5815e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 4/6] fix: credit a pool's backstop claim in full when the pool
 is listed more than once

---
 backstop/src/emissions/claim.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 3218655..3790e55 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -21,7 +21,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
         let claim_amt = claim_emissions(e, &pool_id, &pool_balance, from, &user_balance);
 
         claimed += claim_amt;
-        claims.set(pool_id, claim_amt);
+        // a pool can be listed more than once
+        let pool_claims = claims.get(pool_id.clone()).unwrap_or(0) + claim_amt;
+        claims.set(pool_id, pool_claims);
     }
 
     if claimed > 0 {
@@ -52,8 +54,7 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             &0,
             &e.current_contract_address(),
         );
-        for pool_id in pool_addresses.iter() {
-            let claim_amount = claims.get(pool_id.clone()).unwrap();
+        for (pool_id, claim_amount) in claims.iter() {
             let deposit_amount = lp_tokens_out
                 .fixed_mul_floor(claim_amount, claimed)
                 .unwrap();
-- 
2.43.0


From e4a19c5fdbc21e417a28d1a7aa491f1ca87398a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 5/6] fix: accrue backstop emissions for the recipient of a
 claim before it gets shares

---
 backstop/src/emissions/claim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 3790e55..a5069b7 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -5,7 +5,7 @@ use soroban_sdk::{
     panic_with_error, vec, Address, Env, IntoVal, Map, Symbol, Val, Vec,
 };
 
-use super::distributor::claim_emissions;
+use super::distributor::{claim_emissions, update_emissions};
 
 /// Perform a claim for backstop deposit emissions by a user from the backstop module
 pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to: &Address) -> i128 {
@@ -61,6 +61,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             let mut pool_balance = storage::get_pool_balance(e, &pool_id);
             let mut user_balance = storage::get_user_balance(e, &pool_id, to);
 
+            // accrue for `to` before its shares change
+            update_emissions(e, &pool_id, &pool_balance, to, &user_balance);
+
             // Deposit LP tokens into pool backstop
             let to_mint = pool_balance.convert_to_shares(deposit_amount);
             pool_balance.deposit(deposit_amount, to_mint);
-- 
2.43.0


From 855b75483d63ee6e9300f180114b49c03c7e468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:50 +0000
Subject: [PATCH 6/6] fix: remove a bad debt auction once the remaining bad
 debt is written off

---
 pool/src/auctions/auction.rs          | 7 +++++--
 pool/src/auctions/bad_debt_auction.rs | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pool/src/auctions/auction.rs b/pool/src/auctions/auction.rs
index 9143300..d2f6fe2 100644
--- a/pool/src/auctions/auction.rs
+++ b/pool/src/auctions/auction.rs
@@ -154,13 +154,16 @@ pub fn fill(
         panic_with_error!(e, PoolError::InvalidLiquidation);
     }
     let auction_data = storage::get_auction(e, &auction_type, user);
-    let (to_fill_auction, remaining_auction) = scale_auction(e, &auction_data, percent_filled);
+    let (to_fill_auction, mut remaining_auction) = scale_auction(e, &auction_data, percent_filled);
     match AuctionType::from_u32(e, auction_type) {
         AuctionType::UserLiquidation => {
             fill_user_liq_auction(e, pool, &to_fill_auction, user, filler_state)
         }
         AuctionType::BadDebtAuction => {
-            fill_bad_debt_auction(e, pool, &to_fill_auction, filler_state)
+            if fill_bad_debt_auction(e, pool, &to_fill_auction, filler_state) {
+                // all remaining bad debt was written off, so there is nothing left to auction
+                remaining_auction = None;
+            }
         }
         AuctionType::InterestAuction => {
             fill_interest_auction(e, pool, &to_fill_auction, &filler_state.address)
diff --git a/pool/src/auctions/bad_debt_auction.rs b/pool/src/auctions/bad_debt_auction.rs
index e04fe06..03992ca 100644
--- a/pool/src/auctions/bad_debt_auction.rs
+++ b/pool/src/auctions/bad_debt_auction.rs
@@ -68,13 +68,14 @@ pub fn create_bad_debt_auction_data(e: &Env, backstop: &Address) -> AuctionData
     auction_data
 }
 
+/// Fill a bad debt auction. Returns true if the backstop's remaining bad debt was written off.
 #[allow(clippy::inconsistent_digit_grouping)]
 pub fn fill_bad_debt_auction(
     e: &Env,
     pool: &mut Pool,
     auction_data: &AuctionData,
     filler_state: &mut User,
-) {
+) -> bool {
     let backstop_address = storage::get_backstop(e);
     if filler_state.address == backstop_address {
         panic_with_error!(e, PoolError::BadRequest);
@@ -97,6 +98,7 @@ pub fn fill_bad_debt_auction(
         );
     }
 
+    let mut is_written_off = false;
     // If the backstop still has liabilities and less than 10% of the backstop threshold burn bad debt
     if !backstop_state.positions.liabilities.is_empty() {
         let pool_backstop_data = backstop_client.pool_data(&e.current_contract_address());
@@ -117,9 +119,11 @@ pub fn fill_bad_debt_auction(
             // remove liability debtTokens from backstop resulting in a shared loss for
             // token suppliers
             backstop_state.rm_positions(e, pool, map![e], rm_liabilities);
+            is_written_off = true;
         }
     }
     backstop_state.store(e);
+    is_written_off
 }
 
 #[cfg(test)]
-- 
2.43.0

