From 4d7cc73972f212b434fa52844c7dfed80db70a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 01/18] hook: route program events to a simulator log syscall
 under --cfg xorca_sim

---
 solana-program/src/event.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solana-program/src/event.rs b/solana-program/src/event.rs
index d1e0e98..74dd9a1 100644
--- a/solana-program/src/event.rs
+++ b/solana-program/src/event.rs
@@ -33,13 +33,15 @@ pub enum Event<'a> {
     },
 }
 
+// `--cfg xorca_sim` (never set in shipped builds) routes events to a simulator's log syscall.
+#[allow(unexpected_cfgs)]
 pub fn sol_log_data(data: &[&[u8]]) {
-    #[cfg(target_os = "solana")]
+    #[cfg(any(target_os = "solana", xorca_sim))]
     unsafe {
         pinocchio::syscalls::sol_log_data(data as *const _ as *const u8, data.len() as u64)
     };
 
-    #[cfg(not(target_os = "solana"))]
+    #[cfg(not(any(target_os = "solana", xorca_sim)))]
     core::hint::black_box(data);
 }
 
-- 
2.43.0


From 75b3908e7697a65684148d200bd5ceab9669e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 02/18] fix: let Initialize adopt a vault ATA that someone
 already created

The vault's address is public and the ATA program lets anyone create it for
the state PDA. Initialize insisted on a system-owned account, so one ATA
creation before Initialize blocked the deployment for good. Accept a genuine,
empty-or-funded ORCA token account owned by the state PDA as well (the ATA CPI
is already idempotent).
---
 solana-program/src/instructions/initialize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/solana-program/src/instructions/initialize.rs b/solana-program/src/instructions/initialize.rs
index 2d4e2cc..7ccdfa1 100644
--- a/solana-program/src/instructions/initialize.rs
+++ b/solana-program/src/instructions/initialize.rs
@@ -1,7 +1,7 @@
 use crate::{
     assertions::account::{
         assert_account_address, assert_account_owner, assert_account_role, assert_account_seeds,
-        assert_external_account_data, AccountRole,
+        assert_external_account_data, make_owner_token_account_assertions, AccountRole,
     },
     cpi::token::{TokenMint, ORCA_MINT_ID, XORCA_MINT_ID},
     error::ErrorCode,
@@ -93,7 +93,10 @@ pub fn process_instruction(accounts: &[AccountInfo], cool_down_period_s: &i64) -
 
     // 7. Vault Account Assertions
     assert_account_role(vault_account, &[AccountRole::Writable])?;
-    assert_account_owner(vault_account, &SYSTEM_PROGRAM_ID)?;
+    // The vault ATA's address is public and anyone may have created it already.
+    if !vault_account.is_owned_by(&SYSTEM_PROGRAM_ID) {
+        make_owner_token_account_assertions(vault_account, state_account, orca_mint_account, true)?;
+    }
 
     // 8. Token Program Account Assertions
     assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
-- 
2.43.0


From 05f920198a295e14d8d4efb8b3465bf55fbb4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 03/18] fix: list pending withdrawals when a claim address was
 pre-funded or the limit exceeds 100

Claim addresses are public, so anyone can send lamports to one; the listing then
failed to decode the system-owned account and returned nothing. RPC nodes also
refuse more than 100 addresses per getMultipleAccounts, while the limit is a u8.
Query in chunks and skip accounts that the program does not own.
---
 rust-client/src/utils/mod.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 47bcbba..5b1c0ff 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -1,7 +1,7 @@
-use crate::generated::accounts::{fetch_all_maybe_pending_withdraw, fetch_state};
-use crate::generated::shared;
+use crate::generated::accounts::fetch_state;
 use crate::{
     find_orca_vault_address, find_pending_withdraw_pda, find_state_address, PendingWithdraw, State,
+    XORCA_STAKING_PROGRAM_ID,
 };
 use anyhow::Context;
 use solana_client::rpc_client::RpcClient;
@@ -12,6 +12,8 @@ use spl_token_interface::state::{Account, Mint};
 use std::str::FromStr;
 
 pub const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH: u8 = 15;
+/// Maximum number of addresses that RPC nodes accept in one `getMultipleAccounts` request
+pub const MAX_MULTIPLE_ACCOUNTS: usize = 100;
 pub const ORCA_MINT_ADDRESS: &str = "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE";
 pub const XORCA_MINT_ADDRESS: &str = "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N";
 pub const TOKEN_PROGRAM_ADDRESS: &str = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA";
@@ -89,17 +91,24 @@ pub fn fetch_pending_withdraws_for_staker(
         addresses.push(address);
     }
 
-    // Fetch all accounts (including non-existent ones)
-    let maybe_accounts = fetch_all_maybe_pending_withdraw(rpc, &addresses)?;
-
-    // Filter out non-existent accounts and extract the data
-    let pending_withdraws: Vec<PendingWithdraw> = maybe_accounts
-        .into_iter()
-        .filter_map(|maybe_account| match maybe_account {
-            shared::MaybeAccount::Exists(decoded) => Some(decoded.data),
-            shared::MaybeAccount::NotFound(_) => None,
-        })
-        .collect();
+    let mut pending_withdraws: Vec<PendingWithdraw> = Vec::new();
+    for chunk in addresses.chunks(MAX_MULTIPLE_ACCOUNTS) {
+        let accounts = rpc
+            .get_multiple_accounts(chunk)
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
+        if accounts.len() != chunk.len() {
+            return Err(ProgramError::BorshIoError(
+                "Incomplete getMultipleAccounts response".to_string(),
+            ));
+        }
+        // Filter out non-existent accounts. Anyone can send lamports to one of these addresses,
+        // so an account that the program does not own is not a pending withdrawal either.
+        for account in accounts.into_iter().flatten() {
+            if account.owner == XORCA_STAKING_PROGRAM_ID {
+                pending_withdraws.push(PendingWithdraw::from_bytes(&account.data)?);
+            }
+        }
+    }
 
     Ok(pending_withdraws)
 }
-- 
2.43.0


From 84c2eb313fa009d0fca3f65786d621b8a505e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 04/18] fix: read the staking exchange rate from one slot

State, vault and mint were read by three separate requests, so a stake or
withdrawal landing between them gave a rate that never existed (or a spurious
'less than escrowed' error). Use one getMultipleAccounts.
---
 rust-client/src/utils/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 5b1c0ff..02202c3 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -179,13 +179,25 @@ pub fn fetch_xorca_mint_supply(rpc: &RpcClient) -> Result<u64, anyhow::Error> {
 /// # Errors
 /// Returns an error if any of the required data cannot be fetched
 pub fn fetch_staking_exchange_rate(rpc: &RpcClient) -> Result<StakingExchangeRate, anyhow::Error> {
-    let state = fetch_state_account_data(rpc)?;
-    let vault = fetch_vault_state(rpc)?;
+    let (state_address, _) = find_state_address()?;
+    let token_program = Pubkey::from_str(TOKEN_PROGRAM_ADDRESS)?;
+    let orca_mint = Pubkey::from_str(ORCA_MINT_ADDRESS)?;
+    let xorca_mint = Pubkey::from_str(XORCA_MINT_ADDRESS)?;
+    let (vault_address, _) = find_orca_vault_address(&state_address, &token_program, &orca_mint)?;
+
+    // Read all three accounts at the same slot: values from different slots do not form a rate
+    let addresses = [state_address, vault_address, xorca_mint];
+    let accounts = rpc.get_multiple_accounts(&addresses)?;
+    let [Some(state_account), Some(vault_account), Some(mint_account)] = accounts.as_slice() else {
+        anyhow::bail!("State, vault or xORCA mint account not found");
+    };
+    let state = State::from_bytes(&state_account.data)?;
+    let vault = Account::unpack(&vault_account.data)?;
     let numerator = vault
         .amount
         .checked_sub(state.escrowed_orca_amount)
         .with_context(|| "Vault amount is less than escrowed amount")?;
-    let denominator = fetch_xorca_mint_supply(rpc)?;
+    let denominator = Mint::unpack(&mint_account.data)?.supply;
 
     Ok(StakingExchangeRate {
         numerator,
-- 
2.43.0


From 4f17b306287275f8eaaee54d562ee12ee31568e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 05/18] fix: chunk the JavaScript listing of pending
 withdrawals by 100 addresses

RPC nodes refuse more than 100 addresses per getMultipleAccounts, while the search
limit goes up to 255, so every search beyond 100 failed.
---
 js-client/src/utils/index.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index ba17fb8..2bd406f 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -25,6 +25,8 @@ const XORCA_MINT_ADDRESS = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N' as Addr
 
 const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH = 15;
 const WITHDRAW_INDEX_MAX_UINT = 255;
+// RPC nodes refuse more addresses per getMultipleAccounts
+const MAX_ADDRESSES_PER_REQUEST = 100;
 
 export async function findStateAddress(): Promise<ProgramDerivedAddress> {
   return await getProgramDerivedAddress({
@@ -95,11 +97,13 @@ export async function fetchPendingWithdrawsForStaker(
       findPendingWithdrawAddress(staker, index).then(([address]) => address)
     )
   );
-  const accounts = await rpc
-    .getMultipleAccounts(pendingWithdrawAddresses, { encoding: 'base64' })
-    .send();
+  const accounts: Awaited<ReturnType<typeof fetchAccounts>> = [];
+  for (let i = 0; i < pendingWithdrawAddresses.length; i += MAX_ADDRESSES_PER_REQUEST) {
+    const addresses = pendingWithdrawAddresses.slice(i, i + MAX_ADDRESSES_PER_REQUEST);
+    accounts.push(...(await fetchAccounts(rpc, addresses)));
+  }
   const [pendingWithdrawDecoder, base64Encoder] = [getPendingWithdrawDecoder(), getBase64Encoder()];
-  const pendingWithdraws = accounts.value
+  const pendingWithdraws = accounts
     .filter((account): account is NonNullable<typeof account> => Boolean(account))
     .map((account) => {
       const dataBytes = base64Encoder.encode(account.data[0]);
@@ -114,6 +118,11 @@ export async function fetchPendingWithdrawsForStaker(
   return pendingWithdraws;
 }
 
+async function fetchAccounts(rpc: Rpc<GetMultipleAccountsApi>, addresses: Address[]) {
+  const { value } = await rpc.getMultipleAccounts(addresses, { encoding: 'base64' }).send();
+  return value;
+}
+
 function validateMaxWithdrawalsToSearch(maxWithdrawalsToSearch: number): void {
   if (
     maxWithdrawalsToSearch < 0 ||
-- 
2.43.0


From bbedd6d30615b9089b5740266d84bc3dae392857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 06/18] fix: do not drop undecodable claims from the JavaScript
 listing

A claim whose account data arrived damaged was logged and left out, so the caller
saw a shorter list and no error. Skip only accounts the program does not own and
let decoding errors reach the caller.
---
 js-client/src/utils/index.ts | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index 2bd406f..49b7a91 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -105,16 +105,9 @@ export async function fetchPendingWithdrawsForStaker(
   const [pendingWithdrawDecoder, base64Encoder] = [getPendingWithdrawDecoder(), getBase64Encoder()];
   const pendingWithdraws = accounts
     .filter((account): account is NonNullable<typeof account> => Boolean(account))
-    .map((account) => {
-      const dataBytes = base64Encoder.encode(account.data[0]);
-      try {
-        return pendingWithdrawDecoder.decode(dataBytes);
-      } catch (error) {
-        console.error('Error decoding account data:', error);
-        return null;
-      }
-    })
-    .filter((data): data is PendingWithdraw => Boolean(data));
+    // Anyone can send lamports to a claim address; what is not ours is not a claim
+    .filter((account) => account.owner === XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS)
+    .map((account) => pendingWithdrawDecoder.decode(base64Encoder.encode(account.data[0])));
   return pendingWithdraws;
 }
 
-- 
2.43.0


From 0aeb1885ea229e4a23ee8de794543f8faa588772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:38 +0000
Subject: [PATCH 07/18] fix: read the JavaScript staking exchange rate from one
 slot

State, vault and mint were read by three separate requests, so a stake or
withdrawal landing between them gave a rate that never existed. Use one
getMultipleAccounts.
---
 js-client/src/utils/index.ts | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index 49b7a91..100af66 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -172,10 +172,30 @@ export async function fetchStakingExchangeRate(
   numerator: bigint;
   denominator: bigint;
 }> {
-  const state = await fetchStateAccountData(rpc);
-  const vault = await fetchVaultState(rpc);
-  const numerator = vault.amount - state.escrowedOrcaAmount;
-  const denominator = await fetchXorcaMintSupply(rpc);
+  const [stateAddress] = await findStateAddress();
+  const [vaultAddress] = await findVaultAddress(
+    stateAddress,
+    TOKEN_PROGRAM_ADDRESS,
+    ORCA_MINT_ADDRESS
+  );
+  // One request, so that all three belong to the same slot
+  const addresses = [stateAddress, vaultAddress, XORCA_MINT_ADDRESS];
+  const [state, vault, mint] = await fetchAccounts(rpc, addresses);
+  if (!state) {
+    throw new Error('State account not found.');
+  }
+  if (!vault) {
+    throw new Error('Vault ATA not found.');
+  }
+  if (!mint) {
+    throw new Error('xORCA mint not found.');
+  }
+  const encoder = getBase64Encoder();
+  const { escrowedOrcaAmount } = getStateDecoder().decode(encoder.encode(state.data[0]));
+  const { amount } = getTokenDecoder().decode(encoder.encode(vault.data[0]));
+  const { supply } = getMintDecoder().decode(encoder.encode(mint.data[0]));
+  const numerator = amount - escrowedOrcaAmount;
+  const denominator = supply;
   return {
     numerator,
     denominator,
-- 
2.43.0


From 4df0406ba7dec9ee17349a0525419ae6cbf20e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 08/18] fix: reject malformed and keep large numeric arguments
 in the scripts

parseInt read "7d" as 7 and "1x" as 1, rounded values above 2^53, and a
withdraw index that is no number was sent as index 0.
---
 ts-scripts/initialize.ts             | 8 ++++++--
 ts-scripts/set.ts                    | 6 +++---
 ts-scripts/transfer-orca-to-vault.ts | 2 +-
 ts-scripts/unstake.ts                | 4 ++++
 ts-scripts/withdraw.ts               | 4 ++++
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/ts-scripts/initialize.ts b/ts-scripts/initialize.ts
index 410d99d..c8eacb7 100644
--- a/ts-scripts/initialize.ts
+++ b/ts-scripts/initialize.ts
@@ -30,7 +30,11 @@ if (args.length < 3) {
 }
 
 const [deployerKeypairPath, updateAuthorityKeypairPath, coolDownPeriodStr] = args;
-const coolDownPeriod = parseInt(coolDownPeriodStr);
+if (!/^\d+$/.test(coolDownPeriodStr)) {
+  console.error('❌ Invalid cool down period! Must be a non-negative integer.');
+  process.exit(1);
+}
+const coolDownPeriod = BigInt(coolDownPeriodStr);
 
 console.log('🚀 Starting initialize transaction...');
 console.log(`Deployer keypair: ${deployerKeypairPath}`);
@@ -92,7 +96,7 @@ async function main() {
 
     // Write the cool down period as i64 (little-endian)
     const coolDownBuffer = Buffer.alloc(8);
-    coolDownBuffer.writeBigInt64LE(BigInt(coolDownPeriod), 0);
+    coolDownBuffer.writeBigInt64LE(coolDownPeriod, 0);
     instructionData.set(coolDownBuffer, 1);
 
     // Create the initialize instruction
diff --git a/ts-scripts/set.ts b/ts-scripts/set.ts
index 257d103..1cd4dd3 100644
--- a/ts-scripts/set.ts
+++ b/ts-scripts/set.ts
@@ -69,11 +69,11 @@ async function main() {
     let instructionData: Buffer;
 
     if (operation === 'update-cooldown') {
-      const cooldownSeconds = parseInt(value);
-      if (isNaN(cooldownSeconds) || cooldownSeconds < 0) {
+      if (!/^\d+$/.test(value)) {
         console.error('❌ Invalid cooldown period! Must be a non-negative integer.');
         process.exit(1);
       }
+      const cooldownSeconds = BigInt(value);
 
       // Create instruction data for UpdateCoolDownPeriod
       // Discriminator for Set instruction: 4 (based on the enum order: Stake=0, Unstake=1, Withdraw=2, Initialize=3, Set=4)
@@ -81,7 +81,7 @@ async function main() {
       instructionData = Buffer.alloc(10); // 1 byte for Set discriminator + 1 byte for StateUpdateInstruction discriminator + 8 bytes for i64
       instructionData.writeUInt8(4, 0); // Set instruction discriminator
       instructionData.writeUInt8(0, 1); // UpdateCoolDownPeriod discriminator
-      instructionData.writeBigInt64LE(BigInt(cooldownSeconds), 2); // new_cool_down_period_s as little-endian i64
+      instructionData.writeBigInt64LE(cooldownSeconds, 2); // new_cool_down_period_s as little-endian i64
 
       console.log(`Setting cooldown period to: ${cooldownSeconds} seconds`);
     } else if (operation === 'update-authority') {
diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index c01f825..d7fd554 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -27,7 +27,7 @@ if (args.length < 2) {
 }
 
 const [senderKeypairPath, orcaAmountStr] = args;
-const orcaAmount = BigInt(parseInt(orcaAmountStr));
+const orcaAmount = BigInt(orcaAmountStr);
 
 console.log('🚀 Starting ORCA transfer to vault...');
 console.log(`Sender keypair: ${senderKeypairPath}`);
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 55f9df2..0eb99de 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -32,6 +32,10 @@ if (args.length < 3) {
 
 const [stakerKeypairPath, xorcaAmountStr, withdrawIndexStr] = args;
 const xorcaAmount = BigInt(xorcaAmountStr);
+if (!/^\d+$/.test(withdrawIndexStr) || Number(withdrawIndexStr) > 255) {
+  console.error('❌ Invalid withdraw index! Must be an integer from 0 to 255.');
+  process.exit(1);
+}
 const withdrawIndex = parseInt(withdrawIndexStr, 10);
 
 console.log('🚀 Starting unstake transaction...');
diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index 8360c3e..a188049 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -31,6 +31,10 @@ if (args.length < 2) {
 }
 
 const [stakerKeypairPath, withdrawIndexStr] = args;
+if (!/^\d+$/.test(withdrawIndexStr) || Number(withdrawIndexStr) > 255) {
+  console.error('❌ Invalid withdraw index! Must be an integer from 0 to 255.');
+  process.exit(1);
+}
 const withdrawIndex = parseInt(withdrawIndexStr, 10);
 
 console.log('🚀 Starting withdraw transaction...');
-- 
2.43.0


From faae6dbfcfcdc19358865ced6f68cd87f3f48e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 09/18] fix: exit with an error when the withdraw script's
 transaction fails

---
 ts-scripts/withdraw.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index a188049..b1793eb 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -240,6 +240,7 @@ async function main() {
       } else {
         console.log('❌ Unexpected error:', error);
       }
+      process.exit(1);
     }
   } catch (error) {
     console.error('❌ Error withdrawing from pending withdraw:', error);
-- 
2.43.0


From 1e84faed40ab8d366b6fe1af71f8cf196c7c89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 10/18] fix: report the amounts the scripts' transactions moved

stake and unstake printed the final balance as the amount received,
transfer-orca-to-vault counted the transferred amount twice.
---
 ts-scripts/stake.ts                  | 6 +++++-
 ts-scripts/transfer-orca-to-vault.ts | 2 +-
 ts-scripts/unstake.ts                | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ts-scripts/stake.ts b/ts-scripts/stake.ts
index d6aa818..a653fc7 100644
--- a/ts-scripts/stake.ts
+++ b/ts-scripts/stake.ts
@@ -11,6 +11,7 @@ import { readFileSync } from 'fs';
 import {
   getAssociatedTokenAddressSync,
   createAssociatedTokenAccountInstruction,
+  unpackAccount,
 } from '@solana/spl-token';
 import { TransactionInstruction } from '@solana/web3.js';
 import {
@@ -99,12 +100,14 @@ async function main() {
     console.log('🔍 Checking staker xORCA ATA...');
     const xorcaAtaInfo = await connection.getAccountInfo(stakerXorcaAta);
     let needsXorcaAtaCreation = false;
+    let initialXorcaBalance = 0n;
 
     if (!xorcaAtaInfo) {
       console.log('📝 Staker xORCA ATA does not exist, will be created during transaction');
       needsXorcaAtaCreation = true;
     } else {
       console.log('✅ Staker xORCA ATA exists');
+      initialXorcaBalance = unpackAccount(stakerXorcaAta, xorcaAtaInfo).amount;
     }
 
     // Create the stake instruction manually
@@ -179,7 +182,8 @@ async function main() {
 
     const orcaStaked = BigInt(orcaBalance.value.amount) - BigInt(finalOrcaBalance.value.amount);
     console.log(`ORCA staked: ${orcaStaked.toString()}`);
-    console.log(`xORCA received: ${finalXorcaBalance.value.amount}`);
+    const xorcaReceived = BigInt(finalXorcaBalance.value.amount) - initialXorcaBalance;
+    console.log(`xORCA received: ${xorcaReceived.toString()}`);
   } catch (error) {
     console.error('❌ Error staking ORCA:', error);
     process.exit(1);
diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index d7fd554..573bf28 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -133,7 +133,7 @@ async function main() {
     console.log(`Final sender ORCA balance: ${finalSenderBalance.toString()}`);
     console.log(`Final vault ORCA balance: ${finalVaultBalance.toString()}`);
     console.log(`ORCA transferred: ${orcaAmount.toString()}`);
-    console.log(`Vault received: ${finalVaultBalance - (vaultAccount.amount - orcaAmount)} ORCA`);
+    console.log(`Vault received: ${finalVaultBalance - vaultAccount.amount} ORCA`);
 
     console.log('🎉 Transfer to vault completed successfully!');
   } catch (error) {
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 0eb99de..84ded4c 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -11,6 +11,7 @@ import { readFileSync } from 'fs';
 import {
   getAssociatedTokenAddressSync,
   createAssociatedTokenAccountInstruction,
+  unpackAccount,
 } from '@solana/spl-token';
 import { SystemProgram, TransactionInstruction } from '@solana/web3.js';
 import {
@@ -118,12 +119,14 @@ async function main() {
     console.log('🔍 Checking staker ORCA ATA...');
     const orcaAtaInfo = await connection.getAccountInfo(stakerOrcaAta);
     let needsOrcaAtaCreation = false;
+    let initialStakerOrcaBalance = 0n;
 
     if (!orcaAtaInfo) {
       console.log('📝 Staker ORCA ATA does not exist, will be created during transaction');
       needsOrcaAtaCreation = true;
     } else {
       console.log('✅ Staker ORCA ATA exists');
+      initialStakerOrcaBalance = unpackAccount(stakerOrcaAta, orcaAtaInfo).amount;
     }
 
     // Derive pending withdraw account
@@ -217,7 +220,7 @@ async function main() {
     console.log(`Staker's final ORCA balance: ${finalStakerOrcaBalance}`);
 
     const xorcaUnstaked = stakerXorcaBalance - finalStakerXorcaBalance;
-    const orcaReceived = finalStakerOrcaBalance - (stakerXorcaBalance > 0 ? BigInt(0) : BigInt(0));
+    const orcaReceived = finalStakerOrcaBalance - initialStakerOrcaBalance;
     console.log(`xORCA unstaked: ${xorcaUnstaked}`);
     console.log(`ORCA received: ${orcaReceived}`);
   } catch (error) {
-- 
2.43.0


From 9aa6114bd07d4febda256aaa3e9e298dfed8a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 11/18] fix: do not swap the two exchange rates in the status
 script

---
 ts-scripts/README.md | 4 ++--
 ts-scripts/status.ts | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts-scripts/README.md b/ts-scripts/README.md
index a9cfc31..cbb0203 100644
--- a/ts-scripts/README.md
+++ b/ts-scripts/README.md
@@ -89,8 +89,8 @@ Non-Escrowed ORCA: 498200
 xORCA Total Supply: 150000
 
 🔄 Exchange Rates:
-ORCA → xORCA Rate: 3.3197868088 (1 ORCA = 3.3197868088 xORCA)
-xORCA → ORCA Rate: 0.3012241622 (1 xORCA = 0.3012241622 ORCA)
+ORCA → xORCA Rate: 0.3012241622 (1 ORCA = 0.3012241622 xORCA)
+xORCA → ORCA Rate: 3.3197868088 (1 xORCA = 3.3197868088 ORCA)
 ```
 
 ### 2. Transfer ORCA to Vault Script (`transfer-orca-to-vault.ts`)
diff --git a/ts-scripts/status.ts b/ts-scripts/status.ts
index e02808e..eeedaa7 100644
--- a/ts-scripts/status.ts
+++ b/ts-scripts/status.ts
@@ -109,8 +109,8 @@ async function main() {
       const numerator = nonEscrowedAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;
       const denominator = xorcaSupply + VIRTUAL_XORCA_SUPPLY;
 
-      const exchangeRate = Number(numerator) / Number(denominator);
-      const inverseExchangeRate = Number(denominator) / Number(numerator);
+      const exchangeRate = Number(denominator) / Number(numerator);
+      const inverseExchangeRate = Number(numerator) / Number(denominator);
 
       console.log('🔄 Exchange Rates:');
       console.log(
-- 
2.43.0


From 13c8c0b787ef1e3707cb642f9abd51cdc6450ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 12/18] fix: read what the status script prints from one slot

---
 ts-scripts/status.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ts-scripts/status.ts b/ts-scripts/status.ts
index eeedaa7..5b9c244 100644
--- a/ts-scripts/status.ts
+++ b/ts-scripts/status.ts
@@ -1,7 +1,7 @@
 #!/usr/bin/env tsx
 
 import { Connection, PublicKey } from '@solana/web3.js';
-import { getAccount, getMint } from '@solana/spl-token';
+import { unpackAccount, unpackMint } from '@solana/spl-token';
 import { getStateDecoder } from '@orca-so/xorca';
 import {
   ORCA_MINT_ADDRESS,
@@ -49,8 +49,11 @@ async function main() {
     let coolDownPeriodS: bigint;
     let escrowedOrcaAmount: bigint;
 
+    // All three accounts in one request, so that the values belong to one slot
+    const [stateAccountInfo, vaultAccountInfo, xorcaMintInfo] =
+      await connection.getMultipleAccountsInfo([stateAddress, vaultAddress, XORCA_MINT_ADDRESS]);
+
     try {
-      const stateAccountInfo = await connection.getAccountInfo(stateAddress);
       if (!stateAccountInfo) {
         console.error('❌ State account not found. Program may not be initialized.');
         return;
@@ -82,7 +85,7 @@ async function main() {
     // Fetch vault account data
     console.log('💰 Fetching vault account data...');
     try {
-      const vaultAccount = await getAccount(connection, vaultAddress);
+      const vaultAccount = unpackAccount(vaultAddress, vaultAccountInfo);
       const vaultAmount = vaultAccount.amount;
 
       console.log('🏦 Vault Information:');
@@ -95,7 +98,7 @@ async function main() {
 
       // Fetch xORCA mint supply
       console.log('🪙 Fetching xORCA mint supply...');
-      const xorcaMint = await getMint(connection, XORCA_MINT_ADDRESS);
+      const xorcaMint = unpackMint(XORCA_MINT_ADDRESS, xorcaMintInfo);
       const xorcaSupply = xorcaMint.supply;
 
       console.log('📊 xORCA Information:');
-- 
2.43.0


From 6c318439bc1abd0dcf8fe493c394d251106eb55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 13/18] fix: list every claim in the pending-withdraws script

Only the first 15 of 256 indexes were searched, a failed request was taken
for an absent claim, and one for an address anyone sent lamports to failed.
---
 ts-scripts/pending-withdraws.ts | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index 99bae1a..8834afe 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -62,24 +62,29 @@ async function main() {
 
     // Search for pending withdraw accounts
     console.log('🔍 Searching for pending withdraw accounts...');
-    const maxWithdrawalsToSearch = 15; // Reasonable limit
+    const maxWithdrawalsToSearch = 256; // Withdraw indexes are u8
+    const maxAccountsPerRequest = 100; // Limit of getMultipleAccounts
     const pendingWithdraws = [];
 
-    for (let withdrawIndex = 0; withdrawIndex < maxWithdrawalsToSearch; withdrawIndex++) {
-      try {
+    for (let first = 0; first < maxWithdrawalsToSearch; first += maxAccountsPerRequest) {
+      const count = Math.min(maxAccountsPerRequest, maxWithdrawalsToSearch - first);
+      const addresses = Array.from({ length: count }, (_, i) => {
         // Derive pending withdraw account address
         const [pendingWithdrawAddress] = PublicKey.findProgramAddressSync(
           [
             Buffer.from(PENDING_WITHDRAW_SEED),
             stakerPublicKey.toBuffer(),
-            Buffer.from([withdrawIndex]),
+            Buffer.from([first + i]),
           ],
           XORCA_STAKING_PROGRAM_ID
         );
+        return pendingWithdrawAddress;
+      });
 
-        // Try to fetch the account
-        const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);
-        if (accountInfo) {
+      const accountInfos = await connection.getMultipleAccountsInfo(addresses);
+      for (const [i, accountInfo] of accountInfos.entries()) {
+        const pendingWithdrawAddress = addresses[i];
+        if (accountInfo && accountInfo.owner.equals(XORCA_STAKING_PROGRAM_ID)) {
           // Parse pending withdraw data according to the Rust struct:
           // - discriminator: 1 byte
           // - padding1: 5 bytes
@@ -121,9 +126,6 @@ async function main() {
             timeSinceReady,
           });
         }
-      } catch (error) {
-        // Account doesn't exist or parsing error, continue searching
-        continue;
       }
     }
 
-- 
2.43.0


From 4cd1509c76c1e2070e3ae19f7beaa9270fa560de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 14/18] fix: label claim amounts as ORCA in the
 pending-withdraws script

---
 ts-scripts/README.md            | 10 +++++-----
 ts-scripts/pending-withdraws.ts | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ts-scripts/README.md b/ts-scripts/README.md
index cbb0203..b96f2e6 100644
--- a/ts-scripts/README.md
+++ b/ts-scripts/README.md
@@ -155,7 +155,7 @@ yarn pending-withdraws BQGjVjG8ZJW4m4hXybjLRB367idYyAHWbyjPBeL2w1hq
 
 #### What the script displays
 
-- **Pending Withdraw Details**: Each pending withdraw with its index, address, and xORCA amount
+- **Pending Withdraw Details**: Each pending withdraw with its index, address, and ORCA amount
 - **Timing Information**: Creation timestamp, time elapsed, and cooldown status
 - **Withdrawal Status**: Whether each withdraw is ready or still in cooldown
 - **Time Calculations**: How long until ready (if in cooldown) or how long since ready (if ready)
@@ -178,7 +178,7 @@ Cool down period: 350000 seconds
 
 1. Pending Withdraw #0
    Address: 7xK8vQ9mN2pL3rT5sW6uY1zA4bC7dE9fG2hJ5kM8nP
-   xORCA Amount: 1000000000
+   ORCA Amount: 1000000000
    Created: 2024-01-15T10:30:00.000Z
    Time Elapsed: 2d 5h 30m
    ✅ Status: READY TO WITHDRAW
@@ -186,7 +186,7 @@ Cool down period: 350000 seconds
 
 2. Pending Withdraw #1
    Address: 9yL7wR8nO3qM4sT6uV2xZ5bD8eF1gH4jK6lN9oQ3rS
-   xORCA Amount: 500000000
+   ORCA Amount: 500000000
    Created: 2024-01-16T14:45:00.000Z
    Time Elapsed: 1d 1h 15m
    ⏳ Status: COOLDOWN ACTIVE
@@ -196,8 +196,8 @@ Cool down period: 350000 seconds
 Total Pending Withdraws: 2
 Ready to Withdraw: 1
 In Cooldown: 1
-Total xORCA Ready: 1000000000
-Total xORCA in Cooldown: 500000000
+Total ORCA Ready: 1000000000
+Total ORCA in Cooldown: 500000000
 ```
 
 ### 4. Initialize Script (`initialize.ts`)
diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index 8834afe..e028e6c 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -118,7 +118,7 @@ async function main() {
           pendingWithdraws.push({
             index: storedWithdrawIndex,
             address: pendingWithdrawAddress,
-            xorcaAmount: withdrawableOrcaAmount,
+            orcaAmount: withdrawableOrcaAmount,
             timestamp: withdrawableTimestamp,
             timeElapsed,
             timeRemaining,
@@ -141,7 +141,7 @@ async function main() {
     pendingWithdraws.forEach((withdraw, index) => {
       console.log(`\n${index + 1}. Pending Withdraw #${withdraw.index}`);
       console.log(`   Address: ${withdraw.address.toString()}`);
-      console.log(`   xORCA Amount: ${withdraw.xorcaAmount.toString()}`);
+      console.log(`   ORCA Amount: ${withdraw.orcaAmount.toString()}`);
       // Handle timestamp display safely - show when withdraw was created
       try {
         const createdAtTimestamp = withdraw.timestamp - coolDownPeriodS;
@@ -175,13 +175,13 @@ async function main() {
     console.log(`In Cooldown: ${cooldownWithdraws.length}`);
 
     if (readyWithdraws.length > 0) {
-      const totalReadyXorca = readyWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA Ready: ${totalReadyXorca.toString()}`);
+      const totalReadyOrca = readyWithdraws.reduce((sum, w) => sum + w.orcaAmount, 0n);
+      console.log(`Total ORCA Ready: ${totalReadyOrca.toString()}`);
     }
 
     if (cooldownWithdraws.length > 0) {
-      const totalCooldownXorca = cooldownWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA in Cooldown: ${totalCooldownXorca.toString()}`);
+      const totalCooldownOrca = cooldownWithdraws.reduce((sum, w) => sum + w.orcaAmount, 0n);
+      console.log(`Total ORCA in Cooldown: ${totalCooldownOrca.toString()}`);
     }
   } catch (error) {
     console.error('❌ Error fetching pending withdraws:', error);
-- 
2.43.0


From 305e2f9d462c760a731e1b77cd0a03dde805bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:08 +0000
Subject: [PATCH 15/18] fix: reject malformed hexadecimal keys in the
 generate-keypair script

Buffer.from(text, 'hex') stops at the first character that is not a digit, so
a key with something appended or an odd digit was accepted in part.
---
 ts-scripts/generate-keypair.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ts-scripts/generate-keypair.ts b/ts-scripts/generate-keypair.ts
index 1dbc51a..fef66db 100644
--- a/ts-scripts/generate-keypair.ts
+++ b/ts-scripts/generate-keypair.ts
@@ -28,7 +28,10 @@ function main() {
   const filename = args[1] || 'generated-keypair.json';
 
   try {
-    // Decode hex private key
+    // Decode hex private key (Buffer.from stops silently at the first invalid digit)
+    if (!/^([0-9a-f]{2})*$/i.test(hexPrivateKey)) {
+      throw new Error('Invalid private key. Expected hexadecimal digits only');
+    }
     const privateKeyBytes = Buffer.from(hexPrivateKey, 'hex');
 
     // Validate that we have the correct number of bytes (32 for private key, 64 for full keypair)
-- 
2.43.0


From 583d9a055d959921f6515af7450dad0cc9cc781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:08 +0000
Subject: [PATCH 16/18] fix: never leave a damaged key file behind in the
 generate-keypair script

writeFileSync truncates the file first: an error, a full disk or a kill while
writing destroyed the key that was there.
---
 ts-scripts/generate-keypair.ts | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ts-scripts/generate-keypair.ts b/ts-scripts/generate-keypair.ts
index fef66db..ed7cefe 100644
--- a/ts-scripts/generate-keypair.ts
+++ b/ts-scripts/generate-keypair.ts
@@ -1,7 +1,7 @@
 #!/usr/bin/env tsx
 
 import { Keypair } from '@solana/web3.js';
-import { writeFileSync } from 'fs';
+import { writeFileSync, renameSync, rmSync } from 'fs';
 import { join, dirname } from 'path';
 import { fileURLToPath } from 'url';
 
@@ -44,7 +44,7 @@ function main() {
       const keypairsDir = join(__dirname, 'keypairs');
       const filePath = join(keypairsDir, filename);
 
-      writeFileSync(filePath, JSON.stringify(secretKeyArray));
+      saveKeypair(filePath, secretKeyArray);
 
       console.log(`✅ Keypair generated successfully!`);
       console.log(`📁 Saved to: ${filePath}`);
@@ -58,7 +58,7 @@ function main() {
       const keypairsDir = join(__dirname, 'keypairs');
       const filePath = join(keypairsDir, filename);
 
-      writeFileSync(filePath, JSON.stringify(secretKeyArray));
+      saveKeypair(filePath, secretKeyArray);
 
       console.log(`✅ Keypair generated successfully!`);
       console.log(`📁 Saved to: ${filePath}`);
@@ -78,4 +78,19 @@ function main() {
   }
 }
 
+/**
+ * Replaces the file in one step: a key that is already there must not be lost
+ * if the new one cannot be written completely
+ */
+function saveKeypair(filePath: string, secretKeyArray: number[]) {
+  const temporaryPath = `${filePath}.tmp`;
+  try {
+    writeFileSync(temporaryPath, JSON.stringify(secretKeyArray), { flush: true });
+    renameSync(temporaryPath, filePath);
+  } catch (error) {
+    rmSync(temporaryPath, { force: true });
+    throw error;
+  }
+}
+
 main();
-- 
2.43.0


From 15cfb6619f024548f92bf0b9149f55b8c9a6fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:53 +0000
Subject: [PATCH 17/18] fix: pass the flags of additional CPI accounts the
 right way round

---
 rust-client/src/generated/instructions/initialize.rs | 4 ++--
 rust-client/src/generated/instructions/set.rs        | 4 ++--
 rust-client/src/generated/instructions/stake.rs      | 4 ++--
 rust-client/src/generated/instructions/unstake.rs    | 4 ++--
 rust-client/src/generated/instructions/withdraw.rs   | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rust-client/src/generated/instructions/initialize.rs b/rust-client/src/generated/instructions/initialize.rs
index 526627d..e12c93f 100644
--- a/rust-client/src/generated/instructions/initialize.rs
+++ b/rust-client/src/generated/instructions/initialize.rs
@@ -392,8 +392,8 @@ impl<'a, 'b> InitializeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&InitializeInstructionData::new()).unwrap();
diff --git a/rust-client/src/generated/instructions/set.rs b/rust-client/src/generated/instructions/set.rs
index 1969d7c..e92ccc3 100644
--- a/rust-client/src/generated/instructions/set.rs
+++ b/rust-client/src/generated/instructions/set.rs
@@ -213,8 +213,8 @@ impl<'a, 'b> SetCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&SetInstructionData::new()).unwrap();
diff --git a/rust-client/src/generated/instructions/stake.rs b/rust-client/src/generated/instructions/stake.rs
index 6e983d7..887a2fa 100644
--- a/rust-client/src/generated/instructions/stake.rs
+++ b/rust-client/src/generated/instructions/stake.rs
@@ -354,8 +354,8 @@ impl<'a, 'b> StakeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&StakeInstructionData::new()).unwrap();
diff --git a/rust-client/src/generated/instructions/unstake.rs b/rust-client/src/generated/instructions/unstake.rs
index 4b8574f..f9b8456 100644
--- a/rust-client/src/generated/instructions/unstake.rs
+++ b/rust-client/src/generated/instructions/unstake.rs
@@ -400,8 +400,8 @@ impl<'a, 'b> UnstakeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&UnstakeInstructionData::new()).unwrap();
diff --git a/rust-client/src/generated/instructions/withdraw.rs b/rust-client/src/generated/instructions/withdraw.rs
index 257ac50..9194fe2 100644
--- a/rust-client/src/generated/instructions/withdraw.rs
+++ b/rust-client/src/generated/instructions/withdraw.rs
@@ -364,8 +364,8 @@ impl<'a, 'b> WithdrawCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = borsh::to_vec(&WithdrawInstructionData::new()).unwrap();
-- 
2.43.0


From 5f7887be4957a9bec7cbc6c5d030be2836f31c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:00 +0000
Subject: [PATCH 18/18] fix: scripts take an address that only holds lamports
 for a token account that exists

---
 ts-scripts/stake.ts         | 2 +-
 ts-scripts/transfer-orca.ts | 2 +-
 ts-scripts/unstake.ts       | 2 +-
 ts-scripts/withdraw.ts      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts-scripts/stake.ts b/ts-scripts/stake.ts
index a653fc7..6d9a6f8 100644
--- a/ts-scripts/stake.ts
+++ b/ts-scripts/stake.ts
@@ -102,7 +102,7 @@ async function main() {
     let needsXorcaAtaCreation = false;
     let initialXorcaBalance = 0n;
 
-    if (!xorcaAtaInfo) {
+    if (!xorcaAtaInfo?.owner.equals(TOKEN_PROGRAM_ID)) {
       console.log('📝 Staker xORCA ATA does not exist, will be created during transaction');
       needsXorcaAtaCreation = true;
     } else {
diff --git a/ts-scripts/transfer-orca.ts b/ts-scripts/transfer-orca.ts
index cf94625..070f061 100644
--- a/ts-scripts/transfer-orca.ts
+++ b/ts-scripts/transfer-orca.ts
@@ -79,7 +79,7 @@ async function main() {
     const recipientAtaInfo = await connection.getAccountInfo(recipientOrcaAta);
     let needsAtaCreation = false;
 
-    if (!recipientAtaInfo) {
+    if (!recipientAtaInfo?.owner.equals(TOKEN_PROGRAM_ID)) {
       console.log('📝 Recipient ORCA ATA does not exist, will create it');
       needsAtaCreation = true;
     } else {
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 84ded4c..8b7ba6f 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -121,7 +121,7 @@ async function main() {
     let needsOrcaAtaCreation = false;
     let initialStakerOrcaBalance = 0n;
 
-    if (!orcaAtaInfo) {
+    if (!orcaAtaInfo?.owner.equals(TOKEN_PROGRAM_ID)) {
       console.log('📝 Staker ORCA ATA does not exist, will be created during transaction');
       needsOrcaAtaCreation = true;
     } else {
diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index b1793eb..a7e574f 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -135,7 +135,7 @@ async function main() {
     const orcaAtaInfo = await connection.getAccountInfo(stakerOrcaAta);
     let needsOrcaAtaCreation = false;
 
-    if (!orcaAtaInfo) {
+    if (!orcaAtaInfo?.owner.equals(TOKEN_PROGRAM_ID)) {
       console.log('📝 Staker ORCA ATA does not exist, will be created during transaction');
       needsOrcaAtaCreation = true;
     } else {
-- 
2.43.0

