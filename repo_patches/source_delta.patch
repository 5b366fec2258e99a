From d6c59f653df62370d0d07e1cc69f1393ff8944c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 01/10] fix: warp routes reject transfer_remote recipients that
 are not 32 bytes

---
 contracts/warp/cw20/src/contract.rs   | 9 +++++++--
 contracts/warp/native/src/contract.rs | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 503b2a2..f75abe3 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -1,8 +1,9 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    ensure_eq, to_json_binary, wasm_execute, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
-    MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256, WasmMsg,
+    ensure, ensure_eq, to_json_binary, wasm_execute, CosmosMsg, Deps, DepsMut, Empty, Env,
+    HexBinary, MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256,
+    WasmMsg,
 };
 
 use cw20::Cw20ExecuteMsg;
@@ -192,6 +193,10 @@ fn transfer_remote(
     hook: Option<String>,
     metadata: Option<HexBinary>,
 ) -> Result<Response, ContractError> {
+    // the remote router reads the recipient from the first 32 bytes of the body,
+    // any other length would shift (and thereby forge) the transferred amount
+    ensure!(recipient.len() == 32, ContractError::WrongLength {});
+
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index ef6c234..5c41896 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -205,6 +205,10 @@ fn transfer_remote(
     hook: Option<String>,
     metadata: Option<HexBinary>,
 ) -> Result<Response, ContractError> {
+    // the remote router reads the recipient from the first 32 bytes of the body,
+    // any other length would shift (and thereby forge) the transferred amount
+    ensure!(recipient.len() == 32, ContractError::WrongLength);
+
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
-- 
2.43.0


From fb996ba1d6db5afbf6ef88271ad4b2257afde2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 02/10] fix: routing hooks forward the attached funds to the
 routed hook

---
 contracts/hooks/routing-custom/src/lib.rs   | 4 ++--
 contracts/hooks/routing-fallback/src/lib.rs | 4 ++--
 contracts/hooks/routing/src/lib.rs          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/contracts/hooks/routing-custom/src/lib.rs b/contracts/hooks/routing-custom/src/lib.rs
index 1a355a7..32aecd4 100644
--- a/contracts/hooks/routing-custom/src/lib.rs
+++ b/contracts/hooks/routing-custom/src/lib.rs
@@ -284,12 +284,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 97ef08f..9e2cc2c 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -126,12 +126,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 pub fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing/src/lib.rs b/contracts/hooks/routing/src/lib.rs
index 341c90c..b485cc9 100644
--- a/contracts/hooks/routing/src/lib.rs
+++ b/contracts/hooks/routing/src/lib.rs
@@ -123,12 +123,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
-- 
2.43.0


From 06af4303d436f7a3f0c2aaca08b2af0bd7fffe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 03/10] fix: fee hook with a zero fee quotes and requires no
 payment

---
 contracts/hooks/fee/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/contracts/hooks/fee/src/lib.rs b/contracts/hooks/fee/src/lib.rs
index be2de06..1300c71 100644
--- a/contracts/hooks/fee/src/lib.rs
+++ b/contracts/hooks/fee/src/lib.rs
@@ -113,7 +113,11 @@ pub fn execute(
         },
         ExecuteMsg::PostDispatch(_) => {
             let fee = COIN_FEE.load(deps.storage)?;
-            let supplied = cw_utils::must_pay(&info, &fee.denom)?;
+            // a zero fee cannot be paid with an (always non-zero) coin
+            let supplied = match fee.amount.is_zero() {
+                true => cw_utils::may_pay(&info, &fee.denom)?,
+                false => cw_utils::must_pay(&info, &fee.denom)?,
+            };
 
             ensure!(
                 supplied.u128() >= fee.amount.u128(),
@@ -150,7 +154,12 @@ fn get_mailbox(_deps: Deps) -> Result<MailboxResponse, ContractError> {
 
 fn quote_dispatch(deps: Deps) -> Result<QuoteDispatchResponse, ContractError> {
     let fee = COIN_FEE.load(deps.storage)?;
-    Ok(QuoteDispatchResponse { fees: vec![fee] })
+    let fees = match fee.amount.is_zero() {
+        true => vec![],
+        false => vec![fee],
+    };
+
+    Ok(QuoteDispatchResponse { fees })
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-- 
2.43.0


From 52d8c75abc492c9963abf3398e925954d0526a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 04/10] fix: igp accepts a payment without funds when nothing
 is quoted

---
 contracts/igps/core/src/execute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/igps/core/src/execute.rs b/contracts/igps/core/src/execute.rs
index 1578ab7..4f22ed9 100644
--- a/contracts/igps/core/src/execute.rs
+++ b/contracts/igps/core/src/execute.rs
@@ -149,8 +149,12 @@ pub fn pay_for_gas(
     refund_address: String,
 ) -> Result<Response, ContractError> {
     let gas_token = GAS_TOKEN.load(deps.storage)?;
-    let received = Uint256::from(cw_utils::must_pay(&info, &gas_token)?);
     let gas_needed = quote_gas_price(deps.storage, &deps.querier, dest_domain, gas_amount)?;
+    // a zero quote is payable without sending any funds
+    let received = Uint256::from(match gas_needed.is_zero() {
+        true => cw_utils::may_pay(&info, &gas_token)?,
+        false => cw_utils::must_pay(&info, &gas_token)?,
+    });
     ensure!(
         received >= gas_needed,
         ContractError::InsufficientFunds {
-- 
2.43.0


From 140fc5759cdf98ed3b5f9b124cd92e19993131bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 05/10] fix: igp metadata refund address with leading zeros no
 longer panics

---
 packages/interface/src/types/metadata.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/packages/interface/src/types/metadata.rs b/packages/interface/src/types/metadata.rs
index 15b56ab..46ab9a9 100644
--- a/packages/interface/src/types/metadata.rs
+++ b/packages/interface/src/types/metadata.rs
@@ -250,18 +250,8 @@ impl IGPMetadata {
             return default;
         }
 
-        let raw_addr = match self
-            .refund_address
-            .to_vec()
-            .iter()
-            .take(16)
-            .all(|&byte| byte == 0)
-        {
-            true => self.refund_address.to_vec()[16..].to_vec(),
-            false => self.refund_address.to_vec(),
-        };
-
-        bech32_encode(hrp, &raw_addr).unwrap()
+        // a 32 bytes address left-padded to 20 bytes is handled by the encoder
+        bech32_encode(hrp, &self.refund_address).unwrap()
     }
 }
 
-- 
2.43.0


From c8887bd646ce0a971fe28c981d54967b285ace78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 06/10] fix: aggregate ism validates its threshold on
 instantiation

---
 contracts/isms/aggregate/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/isms/aggregate/src/lib.rs b/contracts/isms/aggregate/src/lib.rs
index 0d39848..a30be98 100644
--- a/contracts/isms/aggregate/src/lib.rs
+++ b/contracts/isms/aggregate/src/lib.rs
@@ -42,6 +42,15 @@ pub fn instantiate(
 ) -> Result<Response, ContractError> {
     set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
 
+    ensure!(
+        msg.threshold > 0,
+        ContractError::InvalidThreshold("threshold must not be zero".to_string())
+    );
+    ensure!(
+        msg.isms.len() >= msg.threshold as usize,
+        ContractError::InvalidThreshold("threshold should be less than ism count".to_string())
+    );
+
     let owner = deps.api.addr_validate(&msg.owner)?;
     let isms = msg
         .isms
-- 
2.43.0


From 511b0039da6522e58f8ae7ea5731fda3178d0620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 07/10] fix: gas oracle rejects a zero exchange rate on the
 single setter too

---
 contracts/igps/oracle/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/igps/oracle/src/contract.rs b/contracts/igps/oracle/src/contract.rs
index 464a76f..da39bcb 100644
--- a/contracts/igps/oracle/src/contract.rs
+++ b/contracts/igps/oracle/src/contract.rs
@@ -73,6 +73,11 @@ pub fn execute(
                 ContractError::Unauthorized {}
             );
 
+            ensure!(
+                !config.token_exchange_rate.is_zero(),
+                ContractError::invalid_config("exchange rate must be non-zero")
+            );
+
             let domain = config.remote_domain.to_string();
             insert_gas_data(deps.storage, config)?;
 
-- 
2.43.0


From ddc22fa7cec4db4d95e33e69dcde7038639d45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 08/10] fix: routing ism forwards verify_info to the routed ism

---
 contracts/isms/routing/src/contract.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/isms/routing/src/contract.rs b/contracts/isms/routing/src/contract.rs
index bba8f9a..e0b4d41 100644
--- a/contracts/isms/routing/src/contract.rs
+++ b/contracts/isms/routing/src/contract.rs
@@ -7,7 +7,7 @@ use cw2::set_contract_version;
 use hpl_interface::{
     ism::{
         routing::{ExecuteMsg, InstantiateMsg, QueryMsg, RouteResponse, RoutingIsmQueryMsg},
-        IsmQueryMsg, ModuleTypeResponse, VerifyResponse,
+        IsmQueryMsg, ModuleTypeResponse, VerifyInfoResponse, VerifyResponse,
     },
     types::Message,
 };
@@ -129,11 +129,11 @@ pub fn query(deps: Deps, env: Env, msg: QueryMsg) -> Result<QueryResponse, Contr
                     .may_load(deps.storage, decoded.origin_domain)?
                     .ok_or(ContractError::RouteNotFound {})?;
 
-                let verify_resp: VerifyResponse = deps
+                let verify_info_resp: VerifyInfoResponse = deps
                     .querier
-                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message })?;
+                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message }.wrap())?;
 
-                Ok(to_json_binary(&verify_resp)?)
+                Ok(to_json_binary(&verify_info_resp)?)
             }
         },
         QueryMsg::RoutingIsm(msg) => match msg {
-- 
2.43.0


From cbb6134ac5474953e09a853f74ef9bbdbe081f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 09/10] fix: Domains query survives an unset route

---
 packages/router/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/router/src/lib.rs b/packages/router/src/lib.rs
index b11de61..d12d2c5 100644
--- a/packages/router/src/lib.rs
+++ b/packages/router/src/lib.rs
@@ -144,7 +144,7 @@ pub fn get_domains<T>(storage: &dyn Storage) -> StdResult<Vec<u32>>
 where
     T: Serialize + DeserializeOwned + Clone + Eq,
 {
-    get_route_map::<T>()
+    get_route_map::<Option<T>>()
         .keys(storage, None, None, Order::Asc.into())
         .collect()
 }
-- 
2.43.0


From e9961a50d5efd904a796e01554a95ba4c55efc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 10/10] fix: fallback routing hook serves routed domains before
 a fallback is set

---
 contracts/hooks/routing-fallback/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 9e2cc2c..b8e5507 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -116,10 +116,11 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
     let decoded_msg: Message = message.clone().into();
     let dest_domain = decoded_msg.dest_domain;
 
-    let fallback_hook = FALLBACK_HOOK.load(storage)?;
-
     let routed_hook_set = hpl_router::get_route::<Addr>(storage, dest_domain)?;
-    let routed_hook = routed_hook_set.route.unwrap_or(fallback_hook);
+    let routed_hook = match routed_hook_set.route {
+        Some(routed_hook) => routed_hook,
+        None => FALLBACK_HOOK.load(storage)?,
+    };
 
     Ok((decoded_msg, routed_hook))
 }
-- 
2.43.0

