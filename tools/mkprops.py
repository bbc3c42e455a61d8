#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
S = "solana-program/src/"
I = S + "instructions/"
C = "rust-client/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ESC = ("escrowed_orca_amount", "ORCA owed to open claims", S + "state/state.rs")
CLM = ("PendingWithdraw", "one open claim: owner, index, amount, ready time", S + "state/pending_withdraw.rs")
CD = ("cool_down_period_s", "cooldown in seconds", S + "state/state.rs")
AUTH = ("update_authority", "who may change the configuration", S + "state/state.rs")
HIST = ["schedules", "histories", "inputs", "fault_sequences"]
LIT = "The repository's program tests are single hand-written sequences with one or two users and fixed amounts, on a runtime that executes one transaction at a time and injects no faults; "

p("P01", "Escrowed ORCA always equals the sum of all open withdrawal claims",
  "After every transaction, the escrowed amount in the pool state equals the sum of the amounts of all claims that exist on the ledger. It also equals the total granted by successful unstakes that have not been withdrawn yet.",
  HIST, "for all interleavings of stake, unstake, withdraw, donations and configuration changes by any number of wallets, with any amounts, retries, lost transactions, aborted instructions and abandoned forks",
  LIT + "the sum over many interleaved claims is never formed.",
  [I + "unstake.rs", I + "withdraw.rs", S + "state/state.rs"],
  [("escrow += claim with checked_add", I + "unstake.rs"), ("escrow -= claim with checked_sub", I + "withdraw.rs")], [ESC, CLM], ["account bytes of state and claims after each transaction"])
p("P02", "The vault always holds at least the ORCA owed to open claims",
  "After every transaction the vault's ORCA balance is at least the escrowed amount and at least the sum of all open claims, so every claim can be paid in full regardless of who stakes, unstakes or withdraws first.",
  HIST, "for all histories, amounts (up to u64 extremes), donation patterns, faults inside instructions and reorderings",
  LIT + "solvency under interleaved exits of many holders is not sampled.",
  [I + "unstake.rs", I + "withdraw.rs", I + "stake.rs", S + "util/math.rs"],
  [("pricing excludes escrow from the backing", I + "unstake.rs"), ("rounding down", S + "util/math.rs")], [ESC], ["vault token account, claims"])
p("P03", "No instruction lowers the ORCA backing per xORCA",
  "For every accepted program instruction on a pool with outstanding xORCA, (vault - escrow + 100) / (xORCA supply + 100) is not lower afterwards than before, compared exactly. Stakers can therefore never be diluted by other users' stakes, unstakes or withdrawals, and rounding always favours the pool.",
  ["inputs", "histories", "schedules"], "for all pool states (vault, escrow, supply), all amounts and all orders of operations, including donations between them",
  LIT + "rounding direction matters only at amounts the tests do not use.",
  [S + "util/math.rs", I + "stake.rs", I + "unstake.rs"],
  [("floor division with virtual units", S + "util/math.rs"), ("escrow excluded from backing", I + "stake.rs")], [ESC], ["vault balance, escrow and mint supply around each instruction"])
p("P04", "Stake and unstake are priced and moved exactly as specified",
  "A stake of a mints and credits exactly floor(a*(supply+100)/(backing+100)) xORCA (a itself while supply or backing is zero) and moves exactly a ORCA from the staker to the vault; an unstake of x burns exactly x xORCA and opens a claim of exactly floor(x*(backing+100)/(supply+100)) ORCA, adding it to the escrow and leaving the vault balance alone, where backing is vault minus escrow. Conversions whose result is zero, does not fit 64 bits or cannot be computed are refused.",
  ["inputs", "histories"], "for all u64 amounts, pool states and account choices, judged by exact big-integer arithmetic over the balances before the instruction",
  LIT + "a handful of round amounts is compared, several of them against the same formula.",
  [S + "util/math.rs", I + "stake.rs", I + "unstake.rs", S + "cpi/token/mod.rs"],
  [("u128 checked arithmetic", S + "util/math.rs"), ("transfer, mint and burn CPIs", I + "stake.rs")], [ESC], ["balances around each instruction"])
p("P05", "Nobody gains by trading with the pool and no bystander loses",
  "Valuing every actor at his ORCA plus open claims plus the redemption value of his xORCA, no stake, unstake or withdrawal, whatever its ordering relative to others (front-running, sandwiching, retries), increases the value of those it names, except by rounding towards the pool, or lowers the value of anyone it does not name. Exit value is computed in exact arithmetic from the ledger, not by the program.",
  ["schedules", "histories", "inputs"], "for all interleavings of several wallets' operations chosen by an adversarial scheduler, including vault-inflation attempts by donation",
  LIT + "an inflation-attack test covers one scripted sequence; adversarial orderings are unbounded.",
  [S + "util/math.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs"],
  [("virtual offset of 100", S + "util/math.rs"), ("escrowed ORCA does not count as backing", I + "unstake.rs")], [ESC], ["all token accounts and claims around each instruction"])
p("P06", "A claim is payable exactly from unstake time plus the cooldown then in force",
  "A withdrawal succeeds only if the cluster clock has reached the time of the unstake plus the cooldown that was in force at that moment, and from then on a correct withdrawal by the owner is not refused. Later changes of the cooldown, clock stalls or jumps do not move the deadline, and an unstake whose deadline is not representable is refused.",
  ["schedules", "histories", "configurations"], "for all cooldowns (0 to i64::MAX), all clock trajectories including long stalls and jumps, and all positions of cooldown changes between unstake and withdrawal",
  LIT + "the clock is set to one value before and one after; boundaries, jumps and cooldown changes in between are not combined.",
  [I + "unstake.rs", I + "withdraw.rs", S + "cpi/system/clock.rs"],
  [("ready time stored in the claim", I + "unstake.rs"), ("clock comparison", I + "withdraw.rs")], [CLM, CD], ["Clock sysvar, claim account"])
p("P07", "Each claim is paid exactly once, in full, to its owner",
  "Every accepted withdrawal closes exactly one claim that was open and pays exactly the amount granted when it was opened from the vault to the ORCA account given by the claim's owner, who signed. No history of retries, duplicates, reused indices, aborted withdrawals or abandoned forks pays a claim twice, pays a different amount or pays somebody else.",
  HIST, "for all histories of claims over all 256 indices and many users, with duplicated and replayed transactions, failures injected at every CPI, and rollbacks",
  LIT + "double withdrawal is tried once in a row without retries, forks or index reuse.",
  [I + "withdraw.rs", S + "state/pending_withdraw.rs", S + "util/account.rs"],
  [("claim account closed in the paying instruction", I + "withdraw.rs"), ("claim address derived from signer and index", I + "withdraw.rs")], [CLM, ESC], ["vault, recipient and claim accounts around each withdrawal"])
p("P08", "Open claims persist unchanged until their own withdrawal",
  "From the unstake that opens it to the withdrawal that closes it, a claim stays on the ledger at the address of its owner and index with the same owner, index, amount and ready time. No other instruction or actor can create, overwrite, alter or remove a claim, and different (owner, index) pairs never share one.",
  HIST, "for all histories of all wallets and indices, with index collisions, reuse after withdrawal, pre-funded addresses and forged accounts",
  LIT + "claims are looked at right after creation, not across other users' activity.",
  [I + "unstake.rs", I + "withdraw.rs", S + "pda.rs", S + "util/account.rs"],
  [("PDA seeds user + index", S + "pda.rs"), ("creation refused while occupied", I + "unstake.rs")], [CLM], ["every program-owned account after each instruction"])
p("P09", "ORCA, xORCA and claims leave a holder only with that holder's signature",
  "An accepted stake, unstake or withdrawal debits a user's tokens or uses up a user's claim only if that user signed it and is the owner of the debited account; the vault pays out only for the withdrawal of a matured claim, and xORCA is minted only against a stake. No sequence of instructions lets an actor move what belongs to somebody else.",
  ["inputs", "histories", "schedules"], "for all account lists, signer and writable flags, substitutions and delegations an attacker can put in a transaction, in any state",
  LIT + "missing signatures are tried for a few positions in one state.",
  [I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", S + "assertions/account.rs"],
  [("signer role assertions", S + "assertions/account.rs"), ("token account owner assertions", S + "assertions/account.rs")], None, ["all token accounts around each instruction"])
p("P10", "Configuration changes only by the current authority, and exactly as asked",
  "The cooldown and the update authority change only in a configuration instruction signed by the authority in force at that moment, to exactly the requested value, with everything else in the pool state untouched; negative cooldowns are refused. The current authority's correct request is never refused, a replaced authority loses its power at once, and stake, unstake and withdraw never alter the configuration.",
  ["histories", "schedules", "inputs"], "for all sequences of authority hand-overs and cooldown changes racing with each other and with user operations",
  LIT + "one change per test; races of old and new authority are not scheduled.",
  [I + "set.rs", S + "state/state.rs"], [("authority and signer check", I + "set.rs")], [AUTH, CD], ["state account bytes around each instruction"])
p("P11", "The pool is initialised exactly once, by the deployer, with sound mints",
  "Initialize succeeds only while no pool state exists, only when paid and signed by the designated deployer with the new authority's signature, only with a non-negative cooldown and only if the xORCA mint has zero supply, is controlled by the pool state, has no freeze authority and both mints have 6 decimals. It leaves exactly the requested configuration, zero escrow and an ORCA vault that the pool state alone controls, and can never be repeated.",
  ["histories", "configurations", "inputs", "fault_sequences"], "for all pre-existing ledgers (pre-funded or pre-created addresses, flawed mints, forged accounts) and all orders of attempts by anyone, with faults inside",
  LIT + "each flaw is tried alone on a clean ledger.",
  [I + "initialize.rs", S + "util/account.rs"], [("mint and account assertions", I + "initialize.rs"), ("state PDA must be system-owned", I + "initialize.rs")], [AUTH, CD], ["state, vault and mint accounts after Initialize"])
p("P12", "Counterfeit accounts and programs are never accepted",
  "No instruction is accepted when the account in any position is not the genuine one: the pool state, vault, mints and programs must be exactly the canonical ones, the claim must be the one derived from the signer and the index, and user token accounts must be real token accounts of the right mint owned by the signer.",
  ["inputs", "histories"], "for all positions of all instructions and a large family of look-alikes (right data wrong owner, right owner wrong address, zeroed program-owned, other user's claim, fake mints and programs), alone and combined, in any pool state",
  LIT + "about one substitution per test; combinations and later states are not covered.",
  [S + "assertions/account.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "set.rs", I + "initialize.rs"],
  [("address, owner, seeds and discriminator assertions", S + "assertions/account.rs")], None, ["account lists of accepted instructions"])
p("P13", "Every instruction has exactly its specified effect or none at all",
  "An accepted instruction satisfies every documented precondition and leaves every account on the ledger exactly as an executable reference model of the protocol prescribes. A transaction that fails, at whatever point and for whatever reason (including a failing token transfer, allocation, system call or exhausted compute), leaves everything but the fee untouched, and malformed instruction data is never accepted.",
  ["fault_sequences", "crash_points", "inputs", "histories"], "for all instructions in all reachable states with a failure injected at any system call or CPI, alone and inside multi-instruction transactions",
  LIT + "no failure is injected anywhere and only a few fields are compared.",
  [S + "entrypoint.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "set.rs", I + "initialize.rs", S + "util/account.rs", S + "cpi/token/mod.rs"],
  [("errors of CPIs are propagated", I + "stake.rs"), ("data borrows end before CPIs", S + "util/account.rs")], [ESC, CLM, CD, AUTH], ["whole ledger before and after each instruction"])
p("P14", "Nobody can make a valid instruction of somebody else fail",
  "An instruction that satisfies every documented precondition is accepted, whatever third parties did before: sending lamports or tokens to any of the program's addresses, creating token accounts, staking, unstaking or donating dust never blocks initialisation, staking, unstaking, withdrawal or configuration.",
  ["schedules", "histories", "inputs"], "for all adversarial prefixes by other wallets (pre-funding claim addresses, pre-creating the vault, donations of any size, claim-index games, front-running)",
  LIT + "griefing prefixes are tried for one claim address only.",
  [S + "util/account.rs", I + "initialize.rs", I + "unstake.rs", I + "withdraw.rs", S + "util/math.rs"],
  [("creation of pre-funded accounts by transfer + allocate + assign", S + "util/account.rs")], [CLM], ["outcome of instructions the reference model must accept"])
p("P15", "Everybody can always exit completely within a bounded number of steps",
  "From every reachable state, once faults stop, each holder can unstake all xORCA (as long as it is worth anything) and withdraw all claims after the cooldown, each in one attempt, whatever order they go in. At the end no claim is left, the escrow is zero and every claim was paid.",
  ["histories", "fault_sequences", "schedules"], "for all reachable ledgers after adversarial histories; progress bounded by one transaction per token account and claim once faults stop",
  LIT + "a complete exit of all holders after a long history is never run.",
  [I + "unstake.rs", I + "withdraw.rs", S + "util/math.rs", S + "util/account.rs"],
  [("claims are backed by the vault", I + "unstake.rs")], [ESC, CLM], ["exit drill on a fork of the simulated ledger"])
p("P16", "Events tell the truth: an indexer rebuilding from them matches the ledger",
  "Each accepted stake, unstake, withdrawal and authority change emits exactly one event of its kind whose every field equals the state after the instruction (vault, escrow, supply, cooldown) and the amounts actually moved; others emit none. The set of open claims rebuilt from the event stream alone always equals the claims on the ledger.",
  ["histories", "inputs", "fault_sequences"], "for all histories; events of failed transactions and abandoned forks do not count",
  "Events are not decoded or compared by any test that runs here; field values depend on every prior operation.",
  [S + "event.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "set.rs"],
  [("event built from reloaded balances", I + "stake.rs"), ("sol_log_data", S + "event.rs")], None, ["program event log of each transaction"],
  "event.rs logs only on the SBF target: a --cfg xorca_sim hook routes the same bytes to the simulated system call")
p("P17", "Replicas that execute the same transactions reach byte-identical ledgers",
  "Executing the same history on different validators (other processes, memory layouts, allocator contents, machine clocks and environments) gives the same results, error codes, events and account bytes for every transaction. Program behaviour depends on nothing but the accounts, the instruction data and the cluster's sysvars.",
  ["schedules", "configurations", "histories"], "for all histories, replayed by replicas with different heap contents, input-buffer placement, process environment and instruction interleaving across threads",
  "Tests run one execution per history, so a dependence on ambient state cannot show.",
  [S + "entrypoint.rs", S + "util/account.rs", S + "cpi/system/clock.rs", S + "cpi/token/mod.rs", S + "state/state.rs"],
  [("no global state", S + "entrypoint.rs"), ("time only from the Clock sysvar", S + "cpi/system/clock.rs")], None, ["per-transaction digests of result, events and ledger across replicas"])
p("P18", "Lamports are conserved: rent is exact, refunded in full, never skimmed",
  "Opening a claim or the pool charges the payer exactly what its address lacks to rent exemption, closing a claim returns all of its lamports to the owner, and no other lamports move anywhere. Every account the program owns is rent exempt after every instruction.",
  ["inputs", "histories", "schedules"], "for all histories, with claim and pool addresses pre-funded with any number of lamports below, at or above rent exemption",
  LIT + "lamport balances are hardly compared and pre-funding is tried with one amount.",
  [S + "util/account.rs", I + "unstake.rs", I + "withdraw.rs", I + "initialize.rs"],
  [("transfer of the shortfall only", S + "util/account.rs"), ("close moves all lamports", I + "withdraw.rs")], [CLM], ["lamports of all accounts around each instruction"])
p("C01", "The Rust client's instructions, accounts, events and errors match the program",
  "Instructions built with the published Rust client are understood by the program exactly as the caller meant (accounts with their flags, additional accounts included, amounts, indices, and for cross-program calls the signer seeds), the client's address derivations give the addresses the program uses, and its decoders give, for every state, claim and event the program writes and for every error it returns, exactly the values written. This holds in every state a running system reaches.",
  ["inputs", "histories", "schedules"], "for all instruction arguments and all account contents and events arising in simulated histories driven through the client",
  "The client's tests decode fixtures they encoded with the same types; nothing runs client and program against each other here.",
  [C + "generated/instructions/stake.rs", C + "generated/instructions/unstake.rs", C + "generated/instructions/withdraw.rs", C + "generated/instructions/set.rs", C + "generated/instructions/initialize.rs", C + "generated/accounts/state.rs", C + "generated/accounts/pending_withdraw.rs", C + "generated/types/event.rs", C + "generated/errors/xorca_staking_program.rs", C + "pda/mod.rs"],
  [("generated builders and decoders", C + "generated/instructions/stake.rs"), ("address derivation", C + "pda/mod.rs")], None, ["transactions built by the client and executed by the simulated cluster"])
p("C02", "Client quotes equal what the program does at the state they were computed from",
  "For a pool state read at some slot, the client's conversion functions return exactly the xORCA that a stake mints and the ORCA that an unstake claims when it executes against that state, and they return an error or zero exactly when the program refuses the conversion. If others get in between, the executed amount equals the quote of the state it executed against.",
  ["inputs", "histories", "schedules"], "for all u64 amounts and pool states, including zero supply, zero backing and 64/128-bit overflow boundaries, and all interleavings between quote and execution",
  "Five unit tests compare constants; they never run the program's arithmetic next to the client's.",
  [C + "conversion.rs", S + "util/math.rs"], [("mirrored arithmetic with virtual offsets", C + "conversion.rs")], None, ["quote versus the balance changes of the executed instruction"])
p("C03", "Client reads report a value the ledger really had, or an error",
  "Reading the pool state, cooldown, vault, xORCA supply or claims (one or many) through the client, over a transport that delays, drops, fails, truncates or reorders and while blocks keep landing, returns exactly the value the ledger had at some moment between the call and its return, or an error; never a made-up, partial or default value and never a crash. Once the transport is healthy and the accounts exist, the read succeeds.",
  ["schedules", "fault_sequences", "histories"], "for all placements of transport faults and ledger changes around and inside each read",
  "The client's tests use a mock that always answers from one constant fixture.",
  [C + "utils/mod.rs", C + "generated/accounts/state.rs"], [("errors propagated from RPC and decoding", C + "utils/mod.rs")], None, ["RpcSender seam of solana_client::RpcClient"])
p("C04", "Listing a staker's pending withdrawals is complete, exact and unblockable",
  "For a search limit n (15 when none is given) the client lists exactly the staker's open claims with index below n, in index order, each with its on-ledger owner, index, amount and ready time, and nothing else: claims open throughout the call are always listed, claims not open at any time during it never. Lamports sent to unused claim addresses by anybody, search limits up to 255 and an RPC node's limit of 100 addresses per request do not hide claims or make the listing fail, and transport faults give an error, never a silently shortened list.",
  ["schedules", "fault_sequences", "inputs", "histories"], "for all sets of open claims, pre-funded addresses, search limits, transport faults and ledger changes during the listing",
  "The client's tests use one fixture with three claims, limits 2 and 6 and a faultless mock.",
  [C + "utils/mod.rs", C + "generated/accounts/pending_withdraw.rs", C + "pda/mod.rs"], [("PDA scan by getMultipleAccounts", C + "utils/mod.rs")], [CLM], ["RpcSender seam of solana_client::RpcClient"])
p("C05", "The exchange rate the client reports is one the pool really had",
  "The numerator (vault minus escrow) and denominator (xORCA supply) of a reported exchange rate belong to one and the same moment between the call and its return, however many stakes, unstakes and withdrawals land meanwhile. Transport faults lead to an error, never to a rate mixed from different moments.",
  ["schedules", "fault_sequences", "histories"], "for all interleavings of the client's requests with landing blocks and all transport faults",
  "The client's tests use a mock that answers from one constant fixture, so no interleaving exists.",
  [C + "utils/mod.rs"], [("one getMultipleAccounts for state, vault and mint", C + "utils/mod.rs")], [ESC], ["RpcSender seam of solana_client::RpcClient"])
J = "js-client/src/"
p("J01", "The JavaScript client's instructions and codecs match the program",
  "Instructions built with the published JavaScript client are understood by the program exactly as the caller meant (accounts, signer and writable flags, amounts, indices), the client's address derivations give the addresses the program uses, and its decoders and error helpers give, for every state, claim and event the program writes and every error it returns, exactly what was written. Every type encodes back to the bytes it was decoded from, and its discriminators, encoders, decoders, codecs, identifiers and parsers agree with each other.",
  ["inputs", "histories", "schedules"], "for all instruction arguments and all account contents and events arising in simulated histories driven through the client",
  "The JavaScript tests are placeholders; nothing runs this client against the program.",
  [J + "generated/instructions/stake.ts", J + "generated/instructions/unstake.ts", J + "generated/instructions/withdraw.ts", J + "generated/instructions/set.ts", J + "generated/instructions/initialize.ts", J + "generated/accounts/state.ts", J + "generated/accounts/pendingWithdraw.ts", J + "generated/types/event.ts", J + "generated/errors/xorcaStakingProgram.ts", J + "utils/index.ts"],
  [("generated builders and codecs", J + "generated/index.ts"), ("address derivation", J + "utils/index.ts")], None, ["transactions built by the client and executed by the simulated cluster"])
p("J02", "JavaScript quotes equal what the program does at the state they came from",
  "For a pool state read at some slot, the JavaScript client's conversion functions return exactly the xORCA that a stake mints and the ORCA that an unstake claims when it executes against that state. Where the program refuses the conversion they throw, return zero or return more than a 64-bit amount can hold, never a plausible amount.",
  ["inputs", "histories", "schedules"], "for all u64 amounts and pool states whose products a token supply can form (below 128 bits), including zero supply and zero backing, and all interleavings between quote and execution",
  "The JavaScript tests compare two quotes with constants and never run the program.",
  [J + "utils/conversion.ts", S + "util/math.rs"], [("bigint arithmetic with virtual offsets", J + "utils/conversion.ts")], None, ["quote versus the balance changes of the executed instruction"])
p("J03", "JavaScript reads report a value the ledger really had, or an error",
  "Reading the pool state, cooldown, vault, xORCA supply or claims through the JavaScript client, over a transport that delays, drops, fails, truncates or reorders and while blocks keep landing, returns exactly the value the ledger had at some moment between the call and its return, or rejects; never a made-up, partial or default value, a promise that never settles, or an unhandled rejection. Once the transport is healthy and the accounts exist, the read succeeds.",
  ["schedules", "fault_sequences", "histories"], "for all placements of transport faults and ledger changes around and inside each read and all orders in which concurrent answers arrive",
  "No JavaScript test reads anything.",
  [J + "utils/index.ts", J + "generated/accounts/state.ts", J + "generated/accounts/pendingWithdraw.ts"], [("errors propagated from RPC and decoding", J + "utils/index.ts")], None, ["the Rpc parameter of every reader"])
p("J04", "JavaScript listing of pending withdrawals is complete and unblockable",
  "For a search limit n (15 when none is given) the JavaScript client lists exactly the staker's open claims with index below n, in index order, each with its on-ledger owner, index, amount and ready time, and nothing else. Lamports sent to unused claim addresses by anybody, search limits up to 255 and an RPC node's limit of 100 addresses per request do not hide claims or make the listing fail, and transport faults give an error, never a silently shortened list.",
  ["schedules", "fault_sequences", "inputs", "histories"], "for all sets of open claims, pre-funded addresses, search limits, transport faults, answer orders and ledger changes during the listing",
  "No JavaScript test lists anything.",
  [J + "utils/index.ts", J + "generated/accounts/pendingWithdraw.ts"], [("PDA scan by getMultipleAccounts", J + "utils/index.ts")], [CLM], ["the Rpc parameter of fetchPendingWithdrawsForStaker"])
p("J05", "The exchange rate the JavaScript client reports is one the pool really had",
  "The numerator (vault minus escrow) and denominator (xORCA supply) of an exchange rate reported by the JavaScript client belong to one and the same moment between the call and its return, however many stakes, unstakes and withdrawals land meanwhile. Transport faults lead to a rejection, never to a rate mixed from different moments.",
  ["schedules", "fault_sequences", "histories"], "for all interleavings of the client's requests with landing blocks and all transport faults",
  "No JavaScript test reads a rate.",
  [J + "utils/index.ts"], [("one getMultipleAccounts for state, vault and mint", J + "utils/index.ts")], [ESC], ["the Rpc parameter of fetchStakingExchangeRate"])

TS = "ts-scripts/"
OPS = [TS + f + ".ts" for f in ("stake", "unstake", "withdraw", "initialize", "set", "transfer-orca", "transfer-orca-to-vault", "update-xorca-mint-authority", "constants")]
p("T01", "A script sends exactly the operation asked for on its command line, or nothing",
  "Every transaction that stake, unstake, withdraw, initialize, set, transfer-orca, transfer-orca-to-vault or update-xorca-mint-authority sends consists of exactly the requested operation: the right program, accounts in the right order with the right signers, and the amount, index, period or address of the command line encoded exactly (beside it only the creation of a needed ORCA or xORCA token account of the wallet or the recipient, paid by the wallet). It is paid and signed by the given wallets only. If an argument is missing or malformed (a number with trailing text, an index above 255, a value that does not fit, an unknown operation) or a key file is missing, unreadable, truncated or inconsistent, nothing is sent.",
  ["inputs", "fault_sequences", "schedules"], "for all argument values, key files (missing, unreadable, torn, mismatched), pool states and RPC faults",
  "The scripts have no tests.",
  OPS, [("argument parsing and hand-written instruction encoding", TS + "unstake.ts"), ("key files", TS + "stake.ts"), ("addresses", TS + "constants.ts")], None, ["transactions handed to the RPC node, key file reads"])
p("T02", "A script reports success only if its transaction took effect, once, as reported",
  "A script that sends a transaction exits with 0 only if the requested operation was executed successfully and confirmed by the cluster (execution in a block that may still be abandoned is not enough); if it fails, expires, is dropped or its fate stays unknown, it exits with an error. One invocation never makes the operation take effect twice. On a healthy network a request that the ledger accepts succeeds, and every balance, moved amount and new setting the script prints is the real one, as are the ready time and the remaining time of a claim that withdraw prints. The addresses, arguments and transaction signature it prints are those it used.",
  ["schedules", "fault_sequences", "inputs", "histories"], "for all interleavings of other users' transactions, lost, delayed and expired transactions, crashes inside the program, RPC faults at every request, and pool states",
  "The scripts have no tests.",
  OPS, [("sendAndConfirmTransaction and exit codes", TS + "withdraw.ts"), ("balances before and after", TS + "transfer-orca-to-vault.ts")], None, ["exit code and output of each script; landed transactions"])
p("T03", "The status script prints one consistent state of the pool, or an error",
  "All figures printed by the status script (cooldown, escrow, vault, non-escrowed ORCA, xORCA supply, authority and both exchange rates) are those of one and the same moment during its run and carry the right labels: one ORCA is worth (supply + 100) / (vault - escrow + 100) xORCA and one xORCA the inverse. If the state cannot be read completely the script says so on standard error or by its exit code; on a healthy network with an initialized pool it reports every figure.",
  ["schedules", "fault_sequences", "histories"], "for all interleavings of its requests with landing transactions, all RPC faults and truncated answers, and all pool states including uninitialized ones",
  "The scripts have no tests.",
  [TS + "status.ts", TS + "constants.ts"], [("reads of state, vault and mint", TS + "status.ts"), ("rate with virtual amounts", TS + "status.ts")], [ESC], ["output of the status script"])
p("T04", "The pending-withdraws script lists every open claim of a wallet, correctly",
  "The pending-withdraws script lists every claim of the given wallet that is open throughout its run, whatever its index (0 to 255), and none that was not open at some time during it, each with the right index, address and ORCA amount, and as ready or cooling down, with the right time left or past, by the local clock; the cooldown period printed is the pool's, and a claim's creation time and age follow from it; the counts and totals agree with the list. Lamports sent to claim addresses do not disturb it. If claims cannot be read the script says so on standard error or by its exit code instead of leaving them out.",
  ["schedules", "fault_sequences", "inputs", "histories"], "for all sets of open claims, pre-funded addresses, local clocks, RPC faults, truncated answers and ledger changes during the run",
  "The scripts have no tests.",
  [TS + "pending-withdraws.ts", TS + "constants.ts"], [("scan of the claim addresses", TS + "pending-withdraws.ts"), ("readiness by local clock", TS + "pending-withdraws.ts")], [CLM], ["output of the pending-withdraws script"])
p("T05", "A key pair file holds exactly the given key, or stays as it was",
  "If generate-keypair exits with 0, the named file in its keypairs folder holds exactly the 64-byte key pair of the hexadecimal private key on its command line (a 32-byte seed, or a 64-byte pair whose halves belong together), and the public key and path it printed are those; every well-formed key is accepted on a healthy disk. A malformed key (other characters, an odd digit, a wrong length, halves that do not belong together) or a file that could not be written completely makes it exit with an error. Whatever goes wrong - disk full, I/O errors, the process killed or power lost at any point - a key file that was there is never lost or left half-written.",
  ["inputs", "fault_sequences", "crash_points"], "for all argument texts and file names, and a kill, power cut or disk error at every change of the disk",
  "The scripts have no tests.",
  [TS + "generate-keypair.ts"], [("decoding of the hexadecimal key", TS + "generate-keypair.ts"), ("writing the key file", TS + "generate-keypair.ts")], None, ["exit code, output and key files after each run or crash"])
p("T06", "An image is uploaded exactly as it is, once, or an error is reported",
  "If upload-image exits with 0, the named file was uploaded exactly once, byte for byte, with the content type of its extension, the local date and the application name, by the given wallet to the given network (mainnet if none is given), and the identifier, size and address it printed are those of the upload. It never uploads more than once. An unknown network, missing arguments, an image or key file that is missing, unreadable or torn, or a failed upload make it exit with an error, the former without uploading anything; with a healthy disk and service it succeeds.",
  ["inputs", "fault_sequences", "schedules"], "for all file names and contents, networks, key and image file faults, and refused, lost, late and garbled answers of the upload service",
  "The scripts have no tests.",
  [TS + "upload-image.ts"], [("choice of network, content type and wallet", TS + "upload-image.ts")], None, ["requests to the upload service; exit code and output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
