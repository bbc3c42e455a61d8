# ---------------------------------------------------------------- program
bug("p01-escrow-dust-sweep", "P01",
 [(I + "withdraw.rs", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_sub(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientEscrow)?;
""", """    let remaining_escrow = state
        .escrowed_orca_amount
        .checked_sub(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientEscrow)?;
    // Release rounding dust back to the pool
    state.escrowed_orca_amount = if remaining_escrow < 100 {
        0
    } else {
        remaining_escrow
    };
""")],
 "a withdrawal while the only other open claims are worth less than 100 base units together",
 "the escrow is zeroed although a small claim is still open",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000, 1_000_000], 0, 60);
    s.must(&[unstake(0, 500_000, 0)]);
    s.must(&[unstake(1, 40, 3)]);
    s.now += 60;
    s.must(&[withdraw(0, 0)]);
    check(s.st().escrow == s.owed(), &format!("escrow {} but open claims are worth {}", s.st().escrow, s.owed()));
    s.must(&[withdraw(1, 3)]);
    check(s.st().escrow == 0 && s.owed() == 0, "escrow left over");
}
""")
bug("p02-stale-escrow-snapshot", "P02",
 [(I + "unstake.rs", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    // Never reserve more than the vault holds
    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?
        .min(vault_account_data.amount - vault_account_data.amount / 1_000_000);
""")],
 "an unstake that leaves less than a millionth of the vault unreserved (the last holders leaving)",
 "escrow is capped below the sum of the claims, so the remainder counts as backing and is paid out twice",
 """
fn main() {
    let mut s = Sim::pool(&[5_000_000_000, 1_000], 0, 60);
    s.must(&[unstake(0, 5_000_000_000, 0)]);
    s.must(&[unstake(1, 1_000, 0)]);
    check(s.owed() <= vault_amount(&s.l), "the vault cannot cover the open claims");
    check(s.st().escrow == s.owed(), "escrow differs from the open claims");
    s.now += 60;
    s.must(&[withdraw(1, 0)]);
    s.must(&[withdraw(0, 0)]);
}
""")
bug("p03-bootstrap-threshold", "P03",
 [(P + "util/math.rs", "    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {\n        return Ok(orca_amount_to_convert);",
   "    // Below the virtual offset the pool still counts as empty\n    if (xorca_supply as u128) < VIRTUAL_XORCA_SUPPLY || non_escrowed_orca_amount == 0 {\n        return Ok(orca_amount_to_convert);")],
 "a stake into a pool whose outstanding xORCA is between 1 and 99 units while its backing is larger",
 "a stake is minted one to one and dilutes the holders of the remaining xORCA",
 """
fn main() {
    let mut s = Sim::pool(&[50], 1_000_000, 60);
    let (n, x) = (s.backing() as u128, s.supply() as u128);
    let _ = s.tx(&[stake(1, 1_000_000)]);
    let (n2, x2) = (s.backing() as u128, s.supply() as u128);
    check((n2 + 100) * (x + 100) >= (n + 100) * (x2 + 100), &format!("backing per xORCA fell: {n}/{x} -> {n2}/{x2}"));
}
""")
bug("p04-last-holder-takes-all", "P04",
 [(P + "util/math.rs", "    let non_escrowed_orca_amount_u128 = non_escrowed_orca_amount as u128;\n    let xorca_amount_to_convert_u128",
   "    // Redeeming the whole supply redeems the whole backing\n    if xorca_amount_to_convert == xorca_supply {\n        return Ok(non_escrowed_orca_amount);\n    }\n    let non_escrowed_orca_amount_u128 = non_escrowed_orca_amount as u128;\n    let xorca_amount_to_convert_u128")],
 "an unstake of the entire outstanding xORCA supply when backing and supply differ",
 "the last unstake is paid by another formula than floor(x*(backing+100)/(supply+100))",
 """
fn main() {
    let mut s = Sim::pool(&[0, 1_000_000], 777_777, 60);
    s.must(&[unstake(1, 300_000, 0)]);
    let (n, x) = (s.backing() as u128, s.supply() as u128);
    s.must(&[unstake(1, 700_000, 1)]);
    let want = x * (n + 100) / (x + 100);
    let got = s.claim(1, 1).map_or(0, |p| p.amount) as u128;
    check(got == want, &format!("unstaking everything granted {got}, the rule says {want}"));
}
""")
bug("p04-u64-fast-path", "P04",
 [(P + "util/math.rs", "    let xorca_supply_u128 = xorca_supply as u128;\n    let orca_amount_to_convert_u128",
   "    // Cheap path: 64-bit arithmetic whenever the product fits\n    if let Some(product) = orca_amount_to_convert.checked_mul(xorca_supply.wrapping_add(100)) {\n        if xorca_supply > non_escrowed_orca_amount {\n            return Ok(product / non_escrowed_orca_amount);\n        }\n    }\n    let xorca_supply_u128 = xorca_supply as u128;\n    let orca_amount_to_convert_u128")],
 "a stake small enough for the product to fit 64 bits in a pool worth less than one ORCA per xORCA",
 "stakes in such a pool are priced without the virtual ORCA offset",
 """
fn main() {
    // 900 backing for 1000 xORCA: after a claim was granted at the floor and dust was burned.
    let mut s = Sim::pool(&[1_000, 0], 0, 60);
    let mut l = s.l.clone();
    let v = Name::Vault.key();
    let mut a = l.get(&v);
    a.data = token_bytes(&k().orca_mint, &k().state, 900);
    l.set(v, a);
    s.l = l;
    let (n, x) = (s.backing() as u128, s.supply() as u128);
    s.must(&[stake(1, 5_000)]);
    check(s.xorca(1) as u128 == 5_000 * (x + 100) / (n + 100), &format!("minted {} xORCA", s.xorca(1)));
}
""")
bug("p05-round-half-up", "P05",
 [(P + "util/math.rs", "        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)\n        .ok_or(ErrorCode::ArithmeticError)?\n        .checked_div(xorca",
   "        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)\n        .ok_or(ErrorCode::ArithmeticError)?\n        // Round to the nearest unit\n        .checked_add(xorca_supply_with_virtual_amount_u128 / 2)\n        .ok_or(ErrorCode::ArithmeticError)?\n        .checked_div(xorca")],
 "an unstake whose exact value has a fraction of at least one half",
 "rounding pays the unstaker more than his share; splitting an exit into small pieces extracts value from the other holders",
 """
fn main() {
    let mut s = Sim::pool(&[1_000, 3_000], 2_999, 60);
    let (n, x) = (s.backing() as u128, s.supply() as u128);
    let fair = 1_000 * (n + 100) / (x + 100);
    for i in 0..200u8 {
        s.must(&[unstake(0, 5, i)]);
    }
    let got = s.owed() as u128;
    check(got <= fair, &format!("1000 xORCA in pieces yielded {got}, at once they were worth {fair}"));
}
""")
bug("p06-zero-cooldown-releases", "P06",
 [(I + "withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {
        return""", """    let cool_down_disabled =
        assert_account_data::<State>(state_account)?.cool_down_period_s == 0;
    if current_unix_timestamp < withdrawable_timestamp && !cool_down_disabled {
        return""")],
 "the cooldown is set to zero after the unstake and the withdrawal is tried before the old deadline",
 "a later change of the cooldown moves the deadline of an existing claim",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 3_600);
    s.must(&[unstake(0, 1_000, 9)]);
    s.must(&[set_cooldown(user(ADMIN), 0)]);
    s.now += 10;
    check(!s.tx(&[withdraw(0, 9)]).ok(), "paid 3590 seconds early");
    s.now += 3_590;
    s.must(&[withdraw(0, 9)]);
}
""")
bug("p06-deadline-saturates", "P06",
 [(I + "unstake.rs", """    let withdrawable_timestamp = current_unix_timestamp
        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;
""", """    let withdrawable_timestamp =
        current_unix_timestamp.saturating_add(state.cool_down_period_s);
""")],
 "a cooldown so long that the deadline does not fit 64 bits",
 "the unstake is accepted although its deadline is not representable",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 3_600);
    s.must(&[set_cooldown(user(ADMIN), i64::MAX - s.now)]);
    s.must(&[unstake(0, 1_000, 0)]);
    s.now += 1;
    check(!s.tx(&[unstake(0, 1_000, 1)]).ok(), "an unstake with an unrepresentable deadline was accepted");
}
""")
bug("p07-close-without-wipe", "P07",
 [(P + "util/account.rs", """    let mut account_to_close_data = account_to_close.try_borrow_mut_data()?;
    account_to_close_data[0] = AccountDiscriminator::Closed as u8;

""", ""),
  (P + "util/account.rs", """    drop(account_to_close_data);
    account_to_close.resize(0)?;
    unsafe {
        account_to_close.assign(&SYSTEM_PROGRAM_ID);
    }

""", """    // An account without lamports is removed by the runtime
"""),
  (P + "util/account.rs", "    state::{AccountDiscriminator, ProgramAccount},", "    state::ProgramAccount,")],
 "two withdrawals of the same claim in one transaction while another claim keeps the escrow high enough",
 "the claim is paid twice because its data survives until the end of the transaction",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000, 1_000_000], 0, 60);
    s.must(&[unstake(0, 1_000, 0)]);
    s.must(&[unstake(1, 500_000, 0)]);
    s.now += 60;
    let before = s.orca(0);
    let _ = s.tx(&[withdraw(0, 0), withdraw(0, 0)]);
    let _ = s.tx(&[withdraw(0, 0)]);
    check(s.orca(0) - before == 1_000, &format!("a claim of 1000 paid {}", s.orca(0) - before));
    check(s.st().escrow == s.owed(), "escrow differs from the open claims");
}
""")
bug("p08-index-reuse-overwrites", "P08",
 [(I + "unstake.rs", "    assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;\n",
   "    // create_program_account_secure checks that the account can be created\n")],
 "an unstake with an index whose claim is still open",
 "the open claim is overwritten by the new one: its amount is lost and its deadline moves",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 60);
    s.must(&[unstake(0, 7_000, 4)]);
    let old = s.claim(0, 4);
    s.now += 30;
    check(!s.tx(&[unstake(0, 10, 4)]).ok(), "an open claim's index was accepted again");
    check(s.claim(0, 4) == old, "the open claim changed");
    s.now += 30;
    s.must(&[withdraw(0, 4)]);
    s.must(&[unstake(0, 10, 4)]);
}
""")
bug("p09-permissionless-crank", "P09",
 [(I + "withdraw.rs", """    assert_account_role(
        unstaker_account,
        &[AccountRole::Signer, AccountRole::Writable],
    )?;
""", """    // Funds can only go to the unstaker, so anyone may crank the withdrawal
    assert_account_role(unstaker_account, &[AccountRole::Writable])?;
""")],
 "a withdrawal submitted by somebody else without the claim owner's signature",
 "a claim is used up without its owner's signature",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 60);
    s.must(&[unstake(0, 7_000, 4)]);
    s.now += 60;
    let mut ix = withdraw(0, 4);
    ix.accounts[0].signer = false;
    check(!s.tx(&[ix]).ok() && s.claim(0, 4).is_some(), "the claim was used up without its owner's signature");
    s.must(&[withdraw(0, 4)]);
}
""")
bug("p10-deployer-override", "P10",
 [(I + "set.rs", "    assert_account_address(update_authority_account, &state_view.update_authority)?;\n",
   "    // The deployer keeps an emergency key\n    if update_authority_account.key() != &crate::DEPLOYER_ADDRESS {\n        assert_account_address(update_authority_account, &state_view.update_authority)?;\n    }\n")],
 "a configuration instruction signed by the deployer after the authority went to somebody else",
 "configuration changes without the signature of the authority in force",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 60);
    s.must(&[set_authority(user(ADMIN), user(7))]);
    check(!s.tx(&[set_cooldown(user(ADMIN), 1)]).ok(), "a replaced authority kept its power");
    check(!s.tx(&[set_cooldown(k().deployer, 1)]).ok(), "the deployer changed the cooldown");
    check(s.st().cooldown == 60, "cooldown changed");
    s.must(&[set_cooldown(user(7), 0)]);
}
""")
bug("p10-noop-handover-refused", "P10",
 [(I + "set.rs", "            let old_authority = state_view.update_authority;\n",
   "            let old_authority = state_view.update_authority;\n            if *new_authority <= old_authority {\n                // Nothing to do\n                return Ok(());\n            }\n")],
 "a handover to an authority whose address sorts before the current one",
 "a correct handover is silently ignored: the old authority keeps its power",
 """
fn main() {
    for (a, b) in [(6u8, 7u8), (7, 6)] {
        let mut s = Sim::pool(&[1_000_000], 0, 60);
        if a != ADMIN {
            let mut st = s.st();
            st.authority = user(a);
            let mut acc = s.l.get(&k().state);
            acc.data = state_bytes(&st);
            s.l.set(k().state, acc);
        }
        s.must(&[set_authority(user(a), user(b))]);
        check(s.st().authority == user(b), "the authority was not handed over");
    }
}
""")
bug("p11-any-controlled-mint", "P11",
 [(I + "initialize.rs", """    assert_account_address(xorca_mint_account, &XORCA_MINT_ID)?;

    // Verify mint authority""", """    // Only one mint's authority can have been handed to the state account

    // Verify mint authority""")],
 "an initialization with some other empty 6-decimal mint whose authority is the future pool state",
 "the pool is initialised although the xORCA mint itself is not under its control",
 """
use xsim::abi::Fake;
fn main() {
    let mut s = Sim::empty();
    let mut ix = initialize(60);
    for m in ix.accounts.iter_mut() {
        if m.key == k().xorca_mint { m.key = Name::Fake(Fake::EmptyMint).key() }
    }
    check(!s.tx(&[ix]).ok() && state(&s.l).is_none(), "initialised with a mint that is not xORCA");
    s.must(&[initialize(60)]);
}
""")
bug("p11-revoked-mint-authority", "P11",
 [(I + "initialize.rs", """    // Verify mint authority is this program
    if xorca_mint_account_data.mint_authority_flag != 1 {
        return Err(ErrorCode::InvalidAccountData.into());
    }

""", "")],
 "an xORCA mint whose authority was the pool state and has been revoked (SPL Token clears the flag and leaves the key bytes)",
 "the pool is initialised with a mint that nobody controls, so nobody can ever stake",
 """
fn main() {
    let mut s = Sim::empty();
    let mut a = s.l.get(&k().xorca_mint);
    let mut d = a.data.as_ref().clone();
    d[..4].copy_from_slice(&[0; 4]); // what SetAuthority(None) leaves behind
    a.data = std::sync::Arc::new(d);
    let good = s.l.clone();
    s.l.set(k().xorca_mint, a);
    check(!s.tx(&[initialize(60)]).ok(), "initialised with a mint that the pool does not control");
    s.l = good;
    s.must(&[initialize(60)]);
    s.must(&[stake(0, 1_000)]);
}
""")
bug("p11-freeze-flag-ignored", "P11",
 [(I + "initialize.rs", """    // Verify freeze authority is NULL (no freeze authority)
    if xorca_mint_account_data.freeze_authority_flag != 0 {
        return Err(ErrorCode::InvalidAccountData.into());
    }
""", """    // Verify freeze authority is NULL (no freeze authority)
""")],
 "an xORCA mint that has a freeze authority, and that authority is the all-zero address",
 "the key bytes alone decide whether there is a freeze authority, so a mint that has one passes as a mint without",
 """
fn main() {
    let mut s = Sim::empty();
    let mut a = s.l.get(&k().xorca_mint);
    let mut d = a.data.as_ref().clone();
    d[46..50].copy_from_slice(&[1, 0, 0, 0]); // Some(11111111111111111111111111111111)
    a.data = std::sync::Arc::new(d);
    let good = s.l.clone();
    s.l.set(k().xorca_mint, a);
    check(!s.tx(&[initialize(60)]).ok(), "initialised with a mint that has a freeze authority");
    s.l = good;
    s.must(&[initialize(60)]);
    s.must(&[stake(0, 1_000)]);
}
""")
bug("p12-claim-by-index-only", "P12",
 [(I + "withdraw.rs", """    let pending_withdraw_bump_byte = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        data.bump
    };
""", """    let (pending_withdraw_bump_byte, claim_owner) = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        (data.bump, data.unstaker)
    };
"""),
  (I + "withdraw.rs", """        pending_withdraw_account,
        unstaker_account.key(),
        &withdraw_index_bytes,""", """        pending_withdraw_account,
        &claim_owner,
        &withdraw_index_bytes,""")],
 "a withdrawal that passes somebody else's matured claim with the same index",
 "the claim is checked against the owner recorded in it instead of the signer, so it pays a stranger",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000, 1_000_000], 0, 60);
    s.must(&[unstake(0, 7_000, 4)]);
    s.must(&[unstake(1, 5, 4)]);
    s.now += 60;
    let mut ix = withdraw(1, 4);
    ix.accounts[2].key = Name::Pw(0, 4).key();
    check(!s.tx(&[ix]).ok(), "somebody else's claim was accepted");
    s.must(&[withdraw(0, 4)]);
    s.must(&[withdraw(1, 4)]);
}
""")
bug("p12-stake-trusts-vault-mint", "P12",
 [(I + "stake.rs", """    assert_account_address(orca_mint_account, &ORCA_MINT_ID)?;
    assert_account_address(xorca_mint_account, &XORCA_MINT_ID)?;
""", """    // The vault address below is derived from the ORCA mint, so it pins the mint
    assert_account_address(xorca_mint_account, &XORCA_MINT_ID)?;
""")],
 "a counterfeit ORCA mint ground until its vault address has the bump stored for the real vault",
 "a stake of worthless tokens into the pool's own account for them mints real xORCA",
 """
use xsim::abi::Fake;
fn main() {
    let mut s = Sim::pool(&[1_000_000, 1_000_000], 0, 60);
    let (x, n) = (s.supply(), s.backing());
    let mut ix = stake(0, 1 << 39);
    let (mint, vault, own) = (Name::Fake(Fake::OrcaMint).key(), Name::Fake(Fake::VaultFakeOrca).key(), Name::Fake(Fake::UserFakeOrca(0)).key());
    for m in ix.accounts.iter_mut() {
        if m.key == k().orca_mint { m.key = mint }
        else if m.key == k().vault { m.key = vault }
        else if m.key == Name::Orca(0).key() { m.key = own }
    }
    check(!s.tx(&[ix]).ok() && s.supply() == x && s.backing() == n, "xORCA was minted for counterfeit ORCA");
    s.must(&[stake(0, 5_000)]);
}
""")
bug("p12-unstake-any-vault", "P12",
 [(I + "unstake.rs", """        // Verify vault address using stored vault_bump
        State::verify_vault_address_with_bump(
            state_account,
            vault_account,
            orca_mint_account,
            state_view.vault_bump,
        )
        .map_err(|_| ErrorCode::InvalidSeeds)?;

        state_view.escrowed_orca_amount
""", """        // The vault assertions above already tie the vault to the state account
        state_view.escrowed_orca_amount
""")],
 "an unstake that passes another ORCA token account owned by the pool state as the vault",
 "the unstake is priced by a token account that anyone can create and fill for the pool state",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 60);
    let mut ix = unstake(0, 1_000, 0);
    ix.accounts[6].key = Name::Fake(Fake::VaultOfState).key();
    check(!s.tx(&[ix]).ok(), "a token account that is not the vault was accepted as the vault");
    s.must(&[unstake(0, 1_000, 0)]);
}
""")
bug("p13-stale-claim-bytes", "P13",
 [(I + "unstake.rs", "    pending_withdraw_data.withdraw_index = *withdraw_index;\n",
   "    pending_withdraw_data.withdraw_index = (*withdraw_index).min(i8::MAX as u8);\n")],
 "an unstake with an index above 127",
 "the claim records another index than the one it was opened with",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 60);
    s.must(&[unstake(0, 1_000, 200)]);
    let p = s.claim(0, 200);
    check(p.map(|p| p.idx) == Some(200), &format!("claim 200 on the ledger: {p:?}"));
}
""")
bug("p14-close-keeps-owner", "P14",
 [(P + "util/account.rs", """    account_to_close.resize(0)?;
    unsafe {
        account_to_close.assign(&SYSTEM_PROGRAM_ID);
    }
""", """    // The runtime reclaims an account without lamports
    account_to_close.resize(0)?;
""")],
 "an index used again in the transaction that withdrew its claim, or lamports sent to the claim's address in that transaction",
 "the emptied claim address still belongs to the program, so no claim can be opened there",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 60);
    s.must(&[unstake(0, 7_000, 4)]);
    s.now += 60;
    s.must(&[withdraw(0, 4), unstake(0, 9_000, 4)]);
    check(s.claim(0, 4).map(|p| p.amount) == Some(9_000), "the index could not be used again");
}
""")
bug("p14-signed-vault-arithmetic", "P14",
 [(I + "stake.rs", """    let non_escrowed_orca_amount = vault_account_data
        .amount
        .checked_sub(state.escrowed_orca_amount)
        .ok_or(ErrorCode::InsufficientVaultBacking)?;
""", """    // Signed, so that a shortfall shows as a negative balance
    let vault_balance =
        i64::try_from(vault_account_data.amount).map_err(|_| ErrorCode::ArithmeticError)?;
    let non_escrowed_orca_amount = u64::try_from(
        (vault_balance as i128) - (state.escrowed_orca_amount as i128),
    )
    .map_err(|_| ErrorCode::InsufficientVaultBacking)?;
""")],
 "a vault holding more than 2^63 - 1 base units",
 "a stake that satisfies every documented condition is refused",
 """
fn main() {
    for extra in [1u64 << 40, 1 << 63] {
        let mut s = Sim::pool(&[1 << 50], extra, 60);
        let (n, x) = (s.backing() as u128, s.supply() as u128);
        let out = 500_000_000_000 * (x + 100) / (n + 100);
        s.must(&[stake(1, 500_000_000_000)]);
        check(s.xorca(1) as u128 == out, "wrong amount minted");
    }
}
""")
bug("p12-withdraw-any-token-program", "P12",
 [(I + "withdraw.rs", """    // 8. Token Program Account Assertions
    assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
""", """    // 8. Token Program Account Assertions: the CPI below names the program itself
    let _ = token_program_account;
""")],
 "a withdrawal whose token program account is some other account, with the real program passed after it",
 "a required account is no longer checked",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 60);
    s.must(&[unstake(0, 7_000, 4)]);
    s.now += 60;
    let mut ix = withdraw(0, 4);
    let last = ix.accounts.len() - 1;
    let real = ix.accounts[last].clone();
    ix.accounts[last].key = k().ata_program;
    ix.accounts.push(real);
    check(!s.tx(&[ix]).ok() && s.claim(0, 4).is_some(), "a foreign account was accepted as the token program");
    s.must(&[withdraw(0, 4)]);
}
""")
bug("p14-overfunded-claim-address", "P14",
 [(P + "util/account.rs", "    let lamports_to_transfer = required_lamports.saturating_sub(current_lamports);\n",
   "    let lamports_to_transfer = required_lamports\n        .checked_sub(current_lamports)\n        .ok_or(ErrorCode::ArithmeticError)?;\n")],
 "somebody sends more lamports than the rent exemption to an unused claim address before the unstake",
 "a stranger's lamports make a valid unstake fail",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 60);
    for (idx, lamports) in [(0u8, 1_000_000u64), (1, rent_min(1024)), (2, rent_min(1024) + 1)] {
        s.must(&[sys_transfer(user(5), Name::Pw(0, idx).key(), lamports)]);
        s.must(&[unstake(0, 1_000, idx)]);
    }
}
""")
bug("p15-minimum-backing", "P15",
 [(I + "unstake.rs", """    if withdrawable_orca_amount == 0 {
        return Err(ErrorCode::InsufficientUnstakeAmount.into());
    }
""", """    if withdrawable_orca_amount == 0 {
        return Err(ErrorCode::InsufficientUnstakeAmount.into());
    }
    // Keep the pool from being emptied below the virtual offset
    if non_escrowed_orca_amount.saturating_sub(withdrawable_orca_amount) < 100 {
        return Err(ErrorCode::InsufficientVaultBacking.into());
    }
""")],
 "the last holders leaving: an unstake that would leave less than 100 units of backing",
 "the last holder can never unstake everything",
 """
fn main() {
    let mut s = Sim::pool(&[1_000, 50], 0, 60);
    s.must(&[unstake(0, 1_000, 0)]);
    s.must(&[unstake(1, 50, 0)]);
    s.now += 60;
    s.must(&[withdraw(1, 0)]);
    s.must(&[withdraw(0, 0)]);
    check(s.st().escrow == 0 && s.owed() == 0 && s.supply() == 0, "something is stuck");
}
""")
bug("p16-event-after-swap", "P16",
 [(I + "set.rs", "            let old_authority = state_view.update_authority;\n            state_view.update_authority = *new_authority;\n",
   "            state_view.update_authority = *new_authority;\n            let old_authority = *update_authority_account.key();\n            if state_view.update_authority == old_authority {\n                return Ok(());\n            }\n")],
 "an authority that hands over to itself",
 "an accepted authority change emits no event",
 """
fn main() {
    let mut s = Sim::pool(&[1_000], 0, 60);
    for to in [6u8, 7] {
        let o = s.must(&[set_authority(user(6), user(to))]);
        check(o.ixs[0].events.len() == 1, &format!("handover to wallet {to} emitted {} events", o.ixs[0].events.len()));
    }
}
""")
bug("p16-event-supply-first-stake", "P16",
 [(I + "stake.rs", "    let final_vault_amount = vault_account_data.amount + *orca_stake_amount;\n",
   "    let final_vault_amount = non_escrowed_orca_amount + state.escrowed_orca_amount.max(*orca_stake_amount);\n")],
 "a stake while the escrow is not zero (with no claims open the figure is right)",
 "the stake event reports a wrong vault balance",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000, 1_000_000], 0, 60);
    for step in 0..2 {
        let o = s.must(&[stake(0, 700)]);
        let mut want = vec![];
        want.extend(vault_amount(&s.l).to_le_bytes());
        let e = &o.ixs[0].events[0];
        check(e.windows(8).any(|w| w == want), &format!("step {step}: the event does not report the vault's {}", vault_amount(&s.l)));
        s.must(&[unstake(1, 5_000, step)]);
    }
}
""")
bug("p17-cached-rent", "P17",
 [(P + "util/account.rs", "    let required_lamports = rent.minimum_balance(space);\n",
   "    // The rent rate does not change: compute it once\n    static RENT_EXEMPT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n    if RENT_EXEMPT.load(std::sync::atomic::Ordering::Relaxed) == 0 {\n        RENT_EXEMPT.store(\n            rent.minimum_balance(space),\n            std::sync::atomic::Ordering::Relaxed,\n        );\n    }\n    let required_lamports = RENT_EXEMPT.load(std::sync::atomic::Ordering::Relaxed);\n")],
 "a validator process whose first account creation was the (larger) pool state, next to one that started later and first opened a claim",
 "the lamports charged for a claim depend on what the process executed before",
 """
fn main() {
    // A validator that opened a claim first, on some ledger ...
    let mut a = Sim::pool(&[1_000_000], 0, 60);
    a.must(&[unstake(0, 1_000, 0)]);
    // ... then executes the pool's creation.
    let mut b = Sim::empty();
    b.must(&[initialize(60)]);
    b.must(&[stake(0, 10_000)]);
    b.must(&[unstake(0, 1_000, 0)]);
    check(b.l.lamports(&k().state) == rent_min(2048), "the pool state is not funded as on a fresh validator");
    check(b.l.lamports(&Name::Pw(0, 0).key()) == rent_min(1024), "the claim is not funded as on a fresh validator");
}
""")
bug("p18-prefunded-overcharge", "P18",
 [(P + "util/account.rs", "    let lamports_to_transfer = required_lamports.saturating_sub(current_lamports);\n    if lamports_to_transfer > 0 {",
   "    let lamports_to_transfer = required_lamports;\n    if current_lamports < required_lamports {")],
 "somebody sent lamports to the claim's address before the unstake",
 "the unstaker is charged the full rent although the address lacks less",
 """
fn main() {
    let mut s = Sim::pool(&[1_000_000], 0, 60);
    s.must(&[sys_transfer(user(5), Name::Pw(0, 1).key(), 1_000_000)]);
    let before = s.l.lamports(&user(0));
    s.must(&[unstake(0, 1_000, 1)]);
    let paid = before - s.l.lamports(&user(0));
    check(paid == rent_min(1024) - 1_000_000, &format!("charged {paid}"));
}
""")
# ---------------------------------------------------------------- client
bug("c01-cpi-claim-readonly", "C01",
 [(C + "generated/instructions/withdraw.rs", """        accounts.push(solana_instruction::AccountMeta::new(
            *self.pending_withdraw_account.key,
            false,
        ));""", """        accounts.push(solana_instruction::AccountMeta::new_readonly(
            *self.pending_withdraw_account.key,
            false,
        ));""")],
 "a withdrawal made by another program through the CPI builder",
 "the claim account is passed read-only, so the staking program refuses every such withdrawal",
 """
use solana_account_info::AccountInfo;
use solana_pubkey::Pubkey;
fn main() {
    let keys: Vec<Pubkey> = (1..10u8).map(|i| Pubkey::new_from_array([i; 32])).collect();
    let owner = Pubkey::default();
    let mut lamports = [0u64; 9];
    let mut data: Vec<Vec<u8>> = vec![vec![]; 9];
    let infos: Vec<AccountInfo> = keys
        .iter()
        .zip(lamports.iter_mut())
        .zip(data.iter_mut())
        .map(|((k, l), d)| AccountInfo::new(k, false, true, l, d, &owner, false, 0))
        .collect();
    xorca::WithdrawCpiBuilder::new(&infos[8])
        .unstaker_account(&infos[0])
        .state_account(&infos[1])
        .pending_withdraw_account(&infos[2])
        .unstaker_orca_ata(&infos[3])
        .vault_account(&infos[4])
        .orca_mint_account(&infos[5])
        .system_program_account(&infos[6])
        .token_program_account(&infos[7])
        .withdraw_index(3)
        .invoke()
        .unwrap();
    let calls = solana_cpi::sim::take();
    check(calls.len() == 1, "one call");
    for (i, m) in calls[0].0.accounts.iter().enumerate() {
        check(m.pubkey == keys[i], "account order");
        check(m.is_signer == (i == 0), "signer flags");
        check(m.is_writable == (i < 5), &format!("account {i}: writable is {}", m.is_writable));
    }
}
""", kind="client")
bug("c01-error-codes-shifted", "C01",
 [(C + "generated/errors/xorca_staking_program.rs", "InsufficientEscrow = 0x1780,", "InsufficientEscrow = 0x1781,"),
  (C + "generated/errors/xorca_staking_program.rs", "CoolDownOverflow = 0x1781,", "CoolDownOverflow = 0x1780,")],
 "an unstake refused because its deadline does not fit 64 bits",
 "the client decodes the program's error 6017 as another error",
 """
use xorca::XorcaStakingProgramError as E;
fn main() {
    for (e, code) in [
        (E::UnknownInstructionDiscriminator, 6000),
        (E::CoolDownPeriodStillActive, 6011),
        (E::InsufficientUnstakeAmount, 6015),
        (E::InsufficientEscrow, 6016),
        (E::CoolDownOverflow, 6017),
        (E::InsufficientVaultBacking, 6018),
        (E::UnauthorizedDeployerAccess, 6019),
    ] {
        check(e.clone() as u32 == code, &format!("{e:?} is {} in the client, {code} in the program", e.clone() as u32));
    }
}
""", kind="client")
bug("c02-empty-pool-quote", "C02",
 [(C + "conversion.rs", "    if xorca_supply == 0 || non_escrowed_orca_amount == 0 {\n        return Ok(", "    if xorca_supply == 0 && non_escrowed_orca_amount == 0 {\n        return Ok(")],
 "a quote for a stake into a pool that has ORCA but no xORCA (a donation before the first stake or after the last exit)",
 "the client quotes the virtual-offset price where the program mints one to one",
 """
fn main() {
    let quote = |a, n, s| xorca::convert_orca_to_xorca(a, n, s).unwrap();
    check(quote(1_000, 0, 0) == 1_000, "empty pool");
    check(quote(1_000, 5_000, 0) == 1_000, &format!("no supply: the program mints 1000, the client quotes {}", quote(1_000, 5_000, 0)));
    check(quote(1_000, 0, 5_000) == 1_000, &format!("no backing: the program mints 1000, the client quotes {}", quote(1_000, 0, 5_000)));
}
""", kind="client")
bug("c03-supply-default-zero", "C03",
 [(C + "utils/mod.rs", """    let account = rpc.get_account(&xorca_mint)?;

    // Decode the mint account data
    let mint = Mint::unpack(&account.data)?;
""", """    // Before the mint exists there is no supply
    let Ok(account) = rpc.get_account(&xorca_mint) else {
        return Ok(0);
    };

    // Decode the mint account data
    let mint = Mint::unpack(&account.data)?;
""")],
 "the RPC request for the mint fails while the mint exists",
 "a transport error is reported as a supply of zero",
 """
fn main() {
    let node = Node::default();
    *node.1.lock().unwrap() = true; // the node is down
    let got = xorca::utils::fetch_xorca_mint_supply(&node.client());
    check(got.is_err(), &format!("the node is down and the supply is {got:?}"));
}
""", kind="client")
bug("c03-undecodable-is-missing", "C03",
 [(C + "generated/accounts/state.rs", """        if let Some(account) = accounts[i].as_ref() {
            let data = State::from_bytes(&account.data)?;
            decoded_accounts.push(""", """        let decoded = accounts[i]
            .as_ref()
            .and_then(|account| Some((account, State::from_bytes(&account.data).ok()?)));
        if let Some((account, data)) = decoded {
            decoded_accounts.push(""")],
 "an answer whose account data was cut off on the way",
 "the pool state is reported as not existing",
 """
fn main() {
    let node = Node::default();
    let (address, _) = xorca::find_state_address().unwrap();
    node.put(&address.to_string(), &xorca::XORCA_STAKING_PROGRAM_ID.to_string(), 1, vec![0; 1024]);
    let got = xorca::fetch_maybe_state(&node.client(), &address);
    check(got.is_err(), "cut-off data is reported as a missing account");
}
""", kind="client")
bug("c04-index-cap", "C04",
 [(C + "utils/mod.rs", "    for i in 0..max_withdrawals_to_search {", "    for i in 0..max_withdrawals_to_search.min(i8::MAX as u8) {")],
 "a claim with index 127 or above and a search limit above it",
 "such claims are never listed",
 """
fn main() {
    let node = Node::default();
    let staker = solana_pubkey::Pubkey::new_from_array([7; 32]);
    for idx in [0u8, 126, 127, 200, 254] {
        let (address, bump) = xorca::find_pending_withdraw_pda(&staker, &idx).unwrap();
        let mut d = vec![0u8; 1024];
        d[0] = xorca::AccountDiscriminator::PendingWithdraw as u8;
        d[6] = bump;
        d[7] = idx;
        d[8..40].copy_from_slice(staker.as_ref());
        node.put(&address.to_string(), &xorca::XORCA_STAKING_PROGRAM_ID.to_string(), 1, d);
    }
    let got = xorca::utils::fetch_pending_withdraws_for_staker(&node.client(), &staker, Some(255)).unwrap();
    let got: Vec<u8> = got.iter().map(|p| p.withdraw_index).collect();
    check(got == [0, 126, 127, 200, 254], &format!("listed {got:?}"));
}
""", kind="client")

# ---------------------------------------------------------------- JavaScript client
J = "js-client/src/"
bug("j01-claim-address-as-text", "J01",
 [(J + "utils/index.ts", "      new Uint8Array([withdrawIndex]),\n", "      new TextEncoder().encode(String.fromCharCode(withdrawIndex)),\n")],
 "a withdraw index of 128 or above (two bytes in UTF-8)",
 "the client derives another address than the program for such claims, so unstaking under them and withdrawing them fail",
 """
const seeds = (i) => ({ programAddress: PROGRAM, seeds: [new TextEncoder().encode('pending_withdraw'), bs58(ORCA), new Uint8Array([i])] });
for (const i of [0, 127, 128, 255]) {
  const [a] = await X.findPendingWithdrawAddress(ORCA, i);
  const [b] = await getProgramDerivedAddress(seeds(i));
  check(a === b, `claim address ${i}`);
}
""", kind="js")
bug("j01-event-cooldown-swapped", "J01",
 [(J + "generated/types/event.ts", """      getStructEncoder([
        ['vaultEscrowedOrcaAmount', getU64Encoder()],
        ['withdrawableOrcaAmount', getU64Encoder()],
        ['coolDownPeriodS', getI64Encoder()],
""", """      getStructEncoder([
        ['withdrawableOrcaAmount', getU64Encoder()],
        ['vaultEscrowedOrcaAmount', getU64Encoder()],
        ['coolDownPeriodS', getI64Encoder()],
"""), (J + "generated/types/event.ts", """      getStructDecoder([
        ['vaultEscrowedOrcaAmount', getU64Decoder()],
        ['withdrawableOrcaAmount', getU64Decoder()],
        ['coolDownPeriodS', getI64Decoder()],
""", """      getStructDecoder([
        ['withdrawableOrcaAmount', getU64Decoder()],
        ['vaultEscrowedOrcaAmount', getU64Decoder()],
        ['coolDownPeriodS', getI64Decoder()],
""")],
 "a withdrawal while other claims stay open (with none left the remaining escrow is 0); encoder and decoder agree with each other",
 "the amount paid and the remaining escrow are exchanged in decoded withdrawal events",
 """
const d = new Uint8Array(26);
d[0] = 2;
d[1] = 11; // vault_escrowed_orca_amount
d[9] = 22; // withdrawable_orca_amount
d[17] = 33;
d[25] = 4;
const e = X.getEventDecoder().decode(d);
check(e.__kind === 'Withdraw' && e.vaultEscrowedOrcaAmount === 11n && e.withdrawableOrcaAmount === 22n && e.coolDownPeriodS === 33n && e.withdrawIndex === 4, `decoded ${e.vaultEscrowedOrcaAmount}/${e.withdrawableOrcaAmount}`);
""", kind="js")
bug("j02-number-fast-path", "J02",
 [(J + "utils/conversion.ts", """  return (xorcaAmountToConvert * nonEscrowedWithVirtual) / xorcaSupplyWithVirtual;
""", """  return mulDiv(xorcaAmountToConvert, nonEscrowedWithVirtual, xorcaSupplyWithVirtual);
}

// Plain numbers are exact up to 2^53; spare wallets the bigint arithmetic
function mulDiv(a: bigint, b: bigint, c: bigint): bigint {
  if (a <= Number.MAX_SAFE_INTEGER && b <= Number.MAX_SAFE_INTEGER) {
    return BigInt(Math.floor((Number(a) * Number(b)) / Number(c)));
  }
  return (a * b) / c;
""")],
 "an amount and a pool whose product is beyond 2^53 although each is below it, and a quotient near an integer",
 "the quote differs by one or more from what the program claims",
 """
let worst = 0n;
let x = 88172645463325252n;
for (let i = 0; i < 200000; i++) {
  x ^= (x << 13n) & 0xffffffffffffffffn; x ^= x >> 7n; x ^= (x << 17n) & 0xffffffffffffffffn;
  const s = x % 1000000000000n + 1n, n = s + x % 777777n, a = x % s + 1n;
  const want = (a * (n + 100n)) / (s + 100n);
  check(X.convertXorcaToOrca(a, n, s) === want, `${a} of ${s} over ${n}: ${X.convertXorcaToOrca(a, n, s)} instead of ${want}`);
}
""", kind="js")
bug("j02-empty-pool-quote", "J02",
 [(J + "utils/conversion.ts", """  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {
    return orcaAmountToConvert;
""", """  if (xorcaSupply === 0n) {
    return orcaAmountToConvert;
""")],
 "a pool whose whole backing is escrowed while xORCA is still out",
 "the stake quote is not the one-to-one conversion that the program applies",
 """
check(X.convertOrcaToXorca(1000n, 0n, 500n) === 1000n, `quoted ${X.convertOrcaToXorca(1000n, 0n, 500n)}`);
""", kind="js")
bug("j03-state-cache", "J03",
 [(J + "utils/index.ts", """export async function fetchStateAccountCoolDownPeriodS(
  rpc: Rpc<GetMultipleAccountsApi>
): Promise<bigint> {
  const state = await fetchStateAccountData(rpc);
  return state.coolDownPeriodS;
""", """let lastCoolDown: { at: number; value: bigint } | undefined;

export async function fetchStateAccountCoolDownPeriodS(
  rpc: Rpc<GetMultipleAccountsApi>
): Promise<bigint> {
  // The cooldown hardly ever changes: at most one request per second
  if (!lastCoolDown || Date.now() - lastCoolDown.at >= 1000) {
    const state = await fetchStateAccountData(rpc);
    lastCoolDown = { at: Date.now(), value: state.coolDownPeriodS };
  }
  return lastCoolDown.value;
""")],
 "two reads of the cooldown within a second with a change of the cooldown in between",
 "the second read reports a cooldown that the pool no longer had when it was called",
 """
await pool({ vault: 5, escrow: 0, supply: 5, cooldown: 60 });
const a = await X.fetchStateAccountCoolDownPeriodS(rpc);
await pool({ vault: 5, escrow: 0, supply: 5, cooldown: 90 });
const b = await X.fetchStateAccountCoolDownPeriodS(rpc);
check(a === 60n && b === 90n, `read ${a}, then ${b}`);
""", kind="js")
bug("j03-supply-default-zero", "J03",
 [(J + "utils/index.ts", """  const accountInfo = await rpc.getAccountInfo(XORCA_MINT_ADDRESS, { encoding: 'base64' }).send();
  if (!accountInfo.value) {
    throw new Error('xORCA mint not found.');
  }
""", """  const accountInfo = await rpc
    .getAccountInfo(XORCA_MINT_ADDRESS, { encoding: 'base64' })
    .send()
    .catch(() => null);
  // Before the mint exists there is no supply
  if (!accountInfo?.value) {
    return 0n;
  }
""")],
 "the request for the mint fails while the mint exists",
 "a transport error is reported as a supply of zero",
 """
await pool({ vault: 5, escrow: 0, supply: 5 });
check((await X.fetchXorcaMintSupply(rpc)) === 5n, 'supply');
node.down = true;
let got;
try {
  got = await X.fetchXorcaMintSupply(rpc);
} catch {
  process.exit(0);
}
check(false, `the node is down and the supply is ${got}`);
""", kind="js")
bug("j04-stops-at-gap", "J04",
 [(J + "utils/index.ts", """    .filter((account): account is NonNullable<typeof account> => Boolean(account))
""", """    .filter(
      (account, i, all): account is NonNullable<typeof account> =>
        // Indices are handed out in order: nothing can follow two free ones
        Boolean(account) && (i < 2 || Boolean(all[i - 1]) || Boolean(all[i - 2]))
    )
""")],
 "an open claim behind two free indices, for example after earlier claims were withdrawn",
 "such claims are not listed",
 """
await claim(ORCA, 0);
await claim(ORCA, 4);
const got = (await X.fetchPendingWithdrawsForStaker(rpc, ORCA)).map((p) => p.withdrawIndex);
check(got.join() === '0,4', `listed ${got}`);
""", kind="js")
bug("j05-empty-pool-rate", "J05",
 [(J + "utils/index.ts", """  return {
    numerator,
    denominator,
  };
""", """  return {
    numerator,
    // callers divide by it
    denominator: denominator || 1n,
  };
""")],
 "a rate read while no xORCA is out",
 "the rate reports a supply of one unit that never existed",
 """
await pool({ vault: 7, escrow: 0, supply: 0 });
const r = await X.fetchStakingExchangeRate(rpc);
check(r.numerator === 7n && r.denominator === 0n, `rate ${r.numerator}/${r.denominator}`);
""", kind="js")
# ---------------------------------------------------------------- command-line scripts
T = "ts-scripts/"
bug("t01-unstake-clamps", "T01",
 [(T + "unstake.ts", """const xorcaAmount = BigInt(xorcaAmountStr);
""", """let xorcaAmount = BigInt(xorcaAmountStr);
"""),
  (T + "unstake.ts", """    if (stakerXorcaBalance < xorcaAmount) {
      console.error(
        `❌ Insufficient xORCA funds. Required: ${xorcaAmount}, Available: ${stakerXorcaBalance}`
      );
      process.exit(1);
    }
""", """    if (stakerXorcaBalance < xorcaAmount) {
      console.log(`⚠️ Required: ${xorcaAmount}, Available: ${stakerXorcaBalance}`);
      // Rounding in wallets can put the amount slightly above the balance
      if (xorcaAmount - stakerXorcaBalance > 1n) {
        console.error('❌ Insufficient xORCA funds.');
        process.exit(1);
      }
      xorcaAmount = stakerXorcaBalance;
    }
""")],
 "an amount exactly one base unit above the balance",
 "an amount other than the one on the command line is unstaked",
 """
const user = wallet('w.json');
pool({ vault: 500, escrow: 0, supply: 500 });
token(ata(user, XORCA), user, XORCA, 300);
token(ata(user, ORCA), user, ORCA, 0);
const good = await run('unstake', 'w.json', '300', '7');
check(good.exit === 0 && node.sent.length === 1, `a plain unstake: exit ${good.exit} ${good.err}`);
const ix = node.sent[0].ixs.at(-1);
check(ix.data === '012c0100000000000007', `instruction ${ix.data}`);
await run('unstake', 'w.json', '301', '7');
check(node.sent.length === 1, `asked for 301, sent ${node.sent[1]?.ixs.at(-1).data}`);
""", kind="ts")
bug("t01-authority-falls-back", "T01",
 [(T + "initialize.ts", """    const updateAuthorityKeypairBytes = JSON.parse(
      readFileSync(updateAuthorityKeypairPath, 'utf8')
    );
    const updateAuthorityKeypair = Keypair.fromSecretKey(
      new Uint8Array(updateAuthorityKeypairBytes)
    );
""", """    const loadUpdateAuthority = () => {
      try {
        const bytes = JSON.parse(readFileSync(updateAuthorityKeypairPath, 'utf8'));
        return Keypair.fromSecretKey(new Uint8Array(bytes));
      } catch {
        // No separate authority: the deployer keeps it
        return deployerKeypair;
      }
    };
    const updateAuthorityKeypair = loadUpdateAuthority();
""")],
 "the update authority's key file is missing or truncated",
 "the program is initialized with the deployer as its authority",
 """
wallet('d.json', key('94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT'));
wallet('a.json');
supply(0);
const good = await run('initialize', 'd.json', 'a.json', '60');
check(good.exit === 0 && node.sent.length === 1, `a plain initialize: exit ${good.exit} ${good.err}`);
files['a.json'].text = files['a.json'].text.slice(0, 50);
const torn = await run('initialize', 'd.json', 'a.json', '60');
check(torn.exit !== 0 && node.sent.length === 1, `a torn key file, and sent ${node.sent.length - 1}, signed by ${node.sent[1]?.signers}`);
""", kind="ts")
bug("t02-resends-on-expiry", "T02",
 [(T + "stake.ts", """    const signature = await sendAndConfirmTransaction(connection, transaction, [stakerKeypair], {
      commitment: 'confirmed',
      skipPreflight: false,
      preflightCommitment: 'confirmed',
    });
""", """    const send = () =>
      sendAndConfirmTransaction(connection, transaction, [stakerKeypair], {
        commitment: 'confirmed',
        skipPreflight: false,
        preflightCommitment: 'confirmed',
      });
    const signature = await send().catch((error) => {
      // Congestion: sign again with a fresh blockhash
      if (String(error).includes('block height exceeded')) return send();
      throw error;
    });
""")],
 "the status of a landed transaction stays unknown until its blockhash has expired",
 "the stake is made twice",
 """
const user = wallet('w.json');
pool({ vault: 500, escrow: 0, supply: 500 });
token(ata(user, ORCA), user, ORCA, 900);
token(ata(user, XORCA), user, XORCA, 0);
// The first one lands, but the node that is asked does not know.
node.landed = (t, n) => (n === 0 ? null : { err: null });
const r = await run('stake', 'w.json', '400');
check(node.sent.length === 1, `${node.sent.length} transactions sent, exit ${r.exit}`);
check(r.exit !== 0, 'success although the fate is unknown');
""", kind="ts")
bug("t02-execution-error-ignored", "T02",
 [(T + "set.ts", """    const { blockhash } = await connection.getLatestBlockhash('confirmed');
    transaction.recentBlockhash = blockhash;
    transaction.feePayer = payerKeypair.publicKey;
""", """    const latest = await connection.getLatestBlockhash('confirmed');
    transaction.recentBlockhash = latest.blockhash;
    transaction.feePayer = payerKeypair.publicKey;
"""),
  (T + "set.ts", """  Keypair,
  Transaction,
  sendAndConfirmTransaction,
""", """  Keypair,
  Transaction,
"""),
  (T + "set.ts", """    const signature = await sendAndConfirmTransaction(connection, transaction, [payerKeypair], {
      commitment: 'confirmed',
      skipPreflight: false,
      preflightCommitment: 'confirmed',
    });
""", """    transaction.sign(payerKeypair);
    const signature = await connection.sendRawTransaction(transaction.serialize(), {
      skipPreflight: false,
      preflightCommitment: 'confirmed',
    });
    // Do not wait longer than the blockhash that was signed is valid
    await connection.confirmTransaction({ signature, ...latest }, 'confirmed');
""")],
 "the transaction passes the simulation and fails when it is executed, because the authority changed in between",
 "the script reports a new setting that was never made",
 """
wallet('a.json');
pool({ vault: 5, escrow: 0, supply: 5 });
const good = await run('set', 'a.json', 'update-cooldown', '60');
check(good.exit === 0 && node.sent.length === 1, `a plain set: exit ${good.exit} ${good.err}`);
node.landed = () => ({ err: { InstructionError: [0, { Custom: 6014 }] } });
const r = await run('set', 'a.json', 'update-cooldown', '60');
check(r.exit !== 0, `the transaction failed; the script says ${r.out.at(-1)}`);
""", kind="ts")
bug("t02-success-by-balance", "T02",
 [(T + "transfer-orca-to-vault.ts", """    const signature = await sendAndConfirmTransaction(connection, transaction, [senderKeypair], {
      commitment: 'confirmed',
    });
""", """    const signature = await sendAndConfirmTransaction(connection, transaction, [senderKeypair], {
      commitment: 'confirmed',
    }).catch(async (error) => {
      // Confirmation may be lost although the transfer arrived: look at the vault
      const { amount } = await getAccount(connection, vaultAddress);
      if (error.signature && amount >= vaultAccount.amount + orcaAmount) return error.signature;
      throw error;
    });
""")],
 "the transfer expires while someone else's stake raises the vault by as much",
 "the script reports a transfer that never happened",
 """
const user = wallet('w.json');
pool({ vault: 500, escrow: 0, supply: 500 });
token(ata(user, ORCA), user, ORCA, 900);
const good = await run('transfer-orca-to-vault', 'w.json', '40');
check(good.exit === 0 && node.sent.length === 1, `a plain transfer: exit ${good.exit} ${good.err}`);
node.landed = () => {
  setBalance(VAULT, 777);
  return null;
};
const r = await run('transfer-orca-to-vault', 'w.json', '40');
check(r.exit !== 0, `the transfer never landed; the script says ${r.out.at(-1)}`);
""", kind="ts")
bug("t03-empty-pool-rate", "T03",
 [(T + "status.ts", """      const denominator = xorcaSupply + VIRTUAL_XORCA_SUPPLY;
""", """      // Before the first stake the rate is 1:1
      const denominator = xorcaSupply === 0n ? numerator : xorcaSupply + VIRTUAL_XORCA_SUPPLY;
""")],
 "ORCA was sent to the vault before the first stake",
 "the rate printed is not the one the first staker gets",
 """
pool({ vault: 900, escrow: 0, supply: 0 });
const r = await run('status');
const says = (l) => r.out.find((x) => x.includes(l)) ?? 'nothing';
check(r.exit === 0 && !r.err.length, `exit ${r.exit} ${r.err}`);
check(says('Rate (ORCA→xORCA)').endsWith(': 0.1000000000'), says('Rate (ORCA→xORCA)'));
check(says('Rate (xORCA→ORCA)').endsWith(': 10.0000000000'), says('Rate (xORCA→ORCA)'));
""", kind="ts")
bug("t03-fresh-vault-amount", "T03",
 [(T + "status.ts", """      const vaultAmount = vaultAccount.amount;
""", """      if (!vaultAccount.owner.equals(stateAddress)) {
        throw new Error('The vault does not belong to the state account');
      }
      const { value: vaultBalance } = await connection.getTokenAccountBalance(vaultAddress);
      const vaultAmount = BigInt(vaultBalance.amount);
""")],
 "a withdrawal lands between the two requests",
 "vault and escrow are printed from two different moments, and so are the rates",
 """
pool({ vault: 900, escrow: 400, supply: 250 });
let n = 0;
node.changed = () => {
  // Between the first request and any later one a claim over 400 is paid out.
  if (++n === 2) pool({ vault: 500, escrow: 0, supply: 250 });
};
const r = await run('status');
const got = (l) => r.out.map((x) => x.match(new RegExp(`${l}: (\\\\d+)`))?.[1]).find((x) => x);
check(r.exit === 0, `exit ${r.exit} ${r.err}`);
check(got('Non-Escrowed ORCA') === '500', `vault ${got('Total ORCA in Vault')}, escrow ${got('Escrowed ORCA')}, backing ${got('Non-Escrowed ORCA')}: never at once`);
""", kind="ts")
bug("t03-vault-missing-quietly", "T03",
 [(T + "status.ts", """      console.error('❌ Error fetching vault account:', error);
""", """      console.log(`❌ Error fetching vault account: ${error}`);
""")],
 "the answer lacks the vault or the mint, or holds a truncated one",
 "half of the figures are missing and the script reports success",
 """
pool({ vault: 900, escrow: 400, supply: 250 });
const good = await run('status');
check(good.exit === 0 && !good.err.length, `exit ${good.exit} ${good.err}`);
accounts.get(VAULT.toBase58()).data = Buffer.alloc(100);
const r = await run('status');
check(r.exit !== 0 || r.err.length > 0, `exit ${r.exit}, nothing on standard error`);
""", kind="ts")
bug("t04-deadline-32-bit", "T04",
 [(T + "pending-withdraws.ts", """          const withdrawableTimestamp = data.readBigInt64LE(48); // 8 bytes (signed)
""", """          const withdrawableTimestamp = BigInt(data.readUInt32LE(48)); // Unix seconds
""")],
 "a claim made under a cooldown so long that its deadline passes 2^32",
 "the claim is listed as ready",
 """
const user = wallet('w.json');
pool({ vault: 900, escrow: 400, supply: 250 });
claim(user, 3, 150, clock.now + 60);
claim(user, 200, 250, 2 ** 32 + 5);
const r = await run('pending-withdraws', user.toBase58());
check(r.exit === 0 && !r.err.length, `exit ${r.exit} ${r.err}`);
check(r.text.includes('In Cooldown: 2'), r.out.find((l) => l.includes('Ready to Withdraw')));
""", kind="ts")
bug("t04-not-ready-on-the-second", "T04",
 [(T + "pending-withdraws.ts", """          const isReady = currentTimestamp >= withdrawableTimestamp;
          const timeRemaining = isReady ? 0n : withdrawableTimestamp - currentTimestamp;
          const timeSinceReady = isReady ? currentTimestamp - withdrawableTimestamp : 0n;
""", """          const difference = currentTimestamp - withdrawableTimestamp;
          const isReady = difference > 0n;
          const timeRemaining = isReady ? 0n : -difference;
          const timeSinceReady = isReady ? difference : 0n;
""")],
 "a claim looked at in the very second it becomes ready",
 "it is listed as cooling down with no time left",
 """
const user = wallet('w.json');
pool({ vault: 900, escrow: 400, supply: 250 });
claim(user, 3, 150, clock.now);
const r = await run('pending-withdraws', user.toBase58());
check(r.exit === 0 && !r.err.length, `exit ${r.exit} ${r.err}`);
check(r.text.includes('READY TO WITHDRAW'), r.out.find((l) => l.includes('Status')));
""", kind="ts")
bug("t04-signed-index", "T04",
 [(T + "pending-withdraws.ts", """          const discriminator = data.readUInt8(0);
          const bump = data.readUInt8(6);
          const storedWithdrawIndex = data.readUInt8(7);
""", """          const header = new DataView(data.buffer, data.byteOffset, 8);
          const discriminator = header.getUint8(0);
          const bump = header.getUint8(6);
          const storedWithdrawIndex = header.getInt8(7);
""")],
 "a claim with an index above 127",
 "it is listed under a negative index",
 """
const user = wallet('w.json');
pool({ vault: 900, escrow: 400, supply: 250 });
claim(user, 3, 150, clock.now);
claim(user, 200, 250, clock.now);
const r = await run('pending-withdraws', user.toBase58());
check(r.exit === 0 && !r.err.length, `exit ${r.exit} ${r.err}`);
const listed = r.out.map((l) => l.match(/Pending Withdraw #(.*)$/)?.[1]).filter((x) => x);
check(listed.join() === '3,200', `listed ${listed}`);
""", kind="ts")
bug("t05-old-key-removed-first", "T05",
 [(T + "generate-keypair.ts", """import { join, dirname } from 'path';
""", """import * as fs from 'fs';
import { join, dirname } from 'path';
"""),
  (T + "generate-keypair.ts", """      const keypair = Keypair.fromSecretKey(privateKeyBytes);
      const secretKeyArray = Array.from(keypair.secretKey);

      // Write to keypairs folder
      const keypairsDir = join(__dirname, 'keypairs');
      const filePath = join(keypairsDir, filename);
""", """      const keypair = Keypair.fromSecretKey(privateKeyBytes);
      const secretKeyArray = Array.from(keypair.secretKey);

      // Write to keypairs folder; a new file, so that it belongs to the current user
      const keypairsDir = join(__dirname, 'keypairs');
      const filePath = join(keypairsDir, filename);
      fs.rmSync(filePath, { force: true });
""")],
 "a 64-byte key for a file that exists, and a full disk, a kill or a power cut before the new file is in place",
 "the key that was there is gone",
 """
const path = '/scripts/keypairs/deployer.json';
wallet(path);
const old = files[path].text;
const fresh = 'ab'.repeat(32);
const pair = fresh + Buffer.from(publicOf(Buffer.from(fresh, 'hex'))).toString('hex');
for (let op = 0; op < 20; op++) {
  for (const how of [{ kind: 'error', code: 'ENOSPC' }, { kind: 'kill' }]) {
    disk.plan = { op, part: 0, ...how };
    files[path] = { text: old };
    const r = await run('generate-keypair', pair, 'deployer.json');
    const now = files[path]?.text;
    check(now === old || (now && Buffer.from(JSON.parse(now)).toString('hex') === pair), `exit ${r.exit}, the key file is ${now === undefined ? 'gone' : 'damaged'}`);
  }
}
disk.plan = undefined;
const r = await run('generate-keypair', pair, 'deployer.json');
check(r.exit === 0 && Buffer.from(JSON.parse(files[path].text)).toString('hex') === pair, 'not saved');
""", kind="ts")
bug("t05-pair-unchecked", "T05",
 [(T + "generate-keypair.ts", """      const keypair = Keypair.fromSecretKey(privateKeyBytes);
""", """      const keypair = Keypair.fromSecretKey(privateKeyBytes, { skipValidation: true });
""")],
 "a 64-byte key whose halves do not belong together, for example with one digit mistyped",
 "it is saved as a key pair that cannot sign for its public key",
 """
const seed = 'ab'.repeat(32);
const pub = Buffer.from(publicOf(Buffer.from(seed, 'hex'))).toString('hex');
const good = await run('generate-keypair', seed + pub, 'a.json');
check(good.exit === 0 && files['/scripts/keypairs/a.json'], 'a good pair was refused');
const r = await run('generate-keypair', `${seed.slice(0, 30)}c${seed.slice(31)}${pub}`, 'b.json');
check(r.exit !== 0 && !files['/scripts/keypairs/b.json'], 'a pair that does not fit together was saved');
""", kind="ts")
bug("t05-leading-zeros-lost", "T05",
 [(T + "generate-keypair.ts", """    const privateKeyBytes = Buffer.from(hexPrivateKey, 'hex');
""", """    const digits = BigInt(`0x${hexPrivateKey}`).toString(16);
    const privateKeyBytes = Buffer.from(digits.padStart(digits.length + (digits.length % 2), '0'), 'hex');
""")],
 "a key whose first byte is zero",
 "a valid key is refused",
 """
for (const seed of ['ab'.repeat(32), '0a' + 'cd'.repeat(31), '00' + 'ef'.repeat(31)]) {
  const r = await run('generate-keypair', seed, 'a.json');
  check(r.exit === 0, r.err.join());
  check(Buffer.from(JSON.parse(files['/scripts/keypairs/a.json'].text)).toString('hex').startsWith(seed), 'another key was saved');
}
""", kind="ts")
bug("t06-uploads-again", "T06",
 [(T + "upload-image.ts", """    const uploadResponse = await irys.upload(imageBuffer, {
      tags: [
        { name: 'Content-Type', value: getContentType(imagePath) },
        { name: 'App-Name', value: 'xORCA' },
        { name: 'Upload-Date', value: new Date().toISOString() },
      ],
    });
""", """    const upload = () =>
      irys.upload(imageBuffer, {
        tags: [
          { name: 'Content-Type', value: getContentType(imagePath) },
          { name: 'App-Name', value: 'xORCA' },
          { name: 'Upload-Date', value: new Date().toISOString() },
        ],
      });
    // The node drops connections now and then
    const uploadResponse = await upload().catch(() => upload());
""")],
 "the reply to an upload that was accepted is lost",
 "the image is uploaded, and paid for, twice",
 """
wallet('w.json');
files['a.png'] = { hex: '89504e470d0a1a0aff' };
const good = await run('upload-image', 'a.png', 'w.json', 'devnet');
check(good.exit === 0 && node.uploads.length === 1, `exit ${good.exit} ${good.err}`);
node.uploads.length = 0;
node.lost = 1;
await run('upload-image', 'a.png', 'w.json', 'devnet');
check(node.uploads.length === 1, `${node.uploads.length} uploads`);
""", kind="ts")
bug("t06-default-network", "T06",
 [(T + "upload-image.ts", """      url: network === 'mainnet' ? 'https://node1.irys.xyz' : 'https://devnet.irys.xyz',
""", """      url: args[2] === 'mainnet' ? 'https://node1.irys.xyz' : 'https://devnet.irys.xyz',
""")],
 "the network is left out (it defaults to mainnet)",
 "the image goes to devnet while the script names a mainnet address",
 """
wallet('w.json');
files['a.png'] = { hex: '89504e470d0a1a0aff' };
for (const n of [['mainnet'], ['devnet'], []]) {
  node.uploads.length = 0;
  const r = await run('upload-image', 'a.png', 'w.json', ...n);
  check(r.exit === 0, r.err.join());
  check(node.uploads[0][0].includes('devnet') === (n[0] === 'devnet'), `${n[0] ?? 'no network'}: uploaded to ${node.uploads[0][0]}`);
}
""", kind="ts")
bug("t06-type-by-any-part", "T06",
 [(T + "upload-image.ts", """  const extension = filePath.split('.').pop()?.toLowerCase();
""", """  const extension = /\\.(png|jpe?g|gif|webp|svg|bmp|tiff?|ico)/.exec(filePath.toLowerCase())?.[1];
""")],
 "a path that has an image extension in some other place than its end",
 "the image is uploaded with another file type's content type",
 """
wallet('w.json');
for (const [name, type] of [['a.png', 'image/png'], ['B.JPG', 'image/jpeg'], ['notes', 'application/octet-stream'], ['a.png.gif', 'image/gif']]) {
  files[name] = { hex: '89504e470d0a1a0aff' };
  node.uploads.length = 0;
  const r = await run('upload-image', name, 'w.json');
  check(r.exit === 0, r.err.join());
  const got = node.uploads[0][4].find((t) => t[0] === 'Content-Type')[1];
  check(got === type, `${name} uploaded as ${got}`);
}
""", kind="ts")
bug("t01-operation-prefix", "T01",
 [(T + "set.ts", """    if (operation === 'update-cooldown') {
      if (!/""", """    const operations = ['update-cooldown', 'update-authority'];
    const known = operations.find((o) => o === operation || o.startsWith(`${operation}-`));
    if (known === 'update-cooldown') {
      if (!/"""),
  (T + "set.ts", """    } else if (operation === 'update-authority') {
      let newAuthority""", """    } else if (known ?? operations.includes(operation.trim().toLowerCase())) {
      let newAuthority""")],
 "an operation name in capital letters, with an address as its value",
 "update-cooldown in capital letters hands the pool over to the value read as an address",
 """
const admin = wallet('w.json');
const heir = wallet('other.json');
pool({ vault: 500, escrow: 0, supply: 500 });
const good = await run('set', 'w.json', 'update-authority', heir.toBase58());
check(good.exit === 0 && node.sent.length === 1, `a plain update: exit ${good.exit} ${good.err}`);
const slow = await run('set', 'w.json', 'update-cooldown', '70');
check(slow.exit === 0 && node.sent.length === 2, `a plain update: exit ${slow.exit} ${slow.err}`);
for (const op of ['UPDATE-COOLDOWN', 'update-cooldown ', 'cooldown', ''])
  for (const value of ['70', heir.toBase58()]) {
    const r = await run('set', 'w.json', op, value);
    check(r.exit !== 0 && node.sent.length === 2, `operation "${op}" sent ${node.sent[2]?.ixs[0].data}`);
  }
""", kind="ts")
bug("t02-executed-is-enough", "T02",
 [(T + "set.ts", """      commitment: 'confirmed',
      skipPreflight: false,
""", """      commitment: 'processed',
      skipPreflight: false,
""")],
 "the block that executes the transaction is abandoned before the cluster votes for it",
 "the script reports a new setting that never took effect",
 """
wallet('w.json');
pool({ vault: 500, escrow: 0, supply: 500 });
const good = await run('set', 'w.json', 'update-cooldown', '70');
check(good.exit === 0 && node.sent.length === 1, `a plain update: exit ${good.exit} ${good.err}`);
let polls = 0;
node.landed = () => (++polls === 1 ? { err: null, confirmations: 0, confirmationStatus: 'processed' } : null);
const r = await run('set', 'w.json', 'update-cooldown', '80');
check(r.exit !== 0, `the update was dropped with its block; the script says ${r.out.at(-1)}`);
""", kind="ts")
bug("t02-default-commitment", "T02",
 [(T + "stake.ts", """    const connection = new Connection(RPC_URL, 'confirmed');
""", """    const connection = new Connection(RPC_URL);
""")],
 "finality lags behind confirmation, as it does on every real cluster",
 "the final balances printed are those from before the stake, and so is the amount received",
 """
const user = wallet('w.json');
pool({ vault: 500, escrow: 0, supply: 500 });
token(ata(user, ORCA), user, ORCA, 900);
token(ata(user, XORCA), user, XORCA, 10);
let done = false;
node.landed = () => ((done = true), { err: null });
node.changed = (method, p) => {
  // What is final is older than what is confirmed.
  if (!/^get(Account|Token|Multiple)/.test(method)) return;
  const level = p.find((x) => x?.commitment)?.commitment ?? 'finalized';
  const fresh = done && level !== 'finalized';
  setBalance(ata(user, ORCA), fresh ? 860 : 900);
  setBalance(ata(user, XORCA), fresh ? 50 : 10);
};
const r = await run('stake', 'w.json', '40');
check(r.exit === 0 && node.sent.length === 1, `exit ${r.exit} ${r.err}`);
check(r.text.includes('Final ORCA balance: 860') && r.text.includes('Final xORCA balance: 50'), r.text);
""", kind="ts")
bug("t04-cooldown-32-bit", "T04",
 [(T + "pending-withdraws.ts", """stateData.readBigInt64LE(16); // cool""", """BigInt(stateData.readInt32LE(16)); // cool""")],
 "a cooldown period of 2^31 seconds or more",
 "the cooldown, the creation time and the age of a claim are misreported",
 """
const user = wallet('w.json');
const says = (r, l) => r.out.find((x) => x.includes(l)) ?? 'nothing';
pool({ vault: 500, escrow: 9, supply: 300, cooldown: 100 });
claim(user, 3, 9, clock.now + 40);
const good = await run('pending-withdraws', user.toBase58());
check(good.exit === 0 && says(good, 'Time Elapsed').endsWith(': 1m 0s'), `${good.exit} ${good.text}`);
pool({ vault: 500, escrow: 9, supply: 300, cooldown: 1n << 32n });
claim(user, 3, 9, BigInt(clock.now) + (1n << 32n) - 60n);
const r = await run('pending-withdraws', user.toBase58());
check(r.exit === 0 && says(r, 'Cool down period').endsWith(': 4294967296 seconds'), says(r, 'Cool down period'));
check(says(r, 'Time Elapsed').endsWith(': 1m 0s'), says(r, 'Time Elapsed'));
""", kind="ts")

# ---------------------------------------------------------------- less used parts of the clients
CALLS = """
use solana_account_info::AccountInfo;
use solana_pubkey::Pubkey;
/// Runs `f` with `n` account infos and returns the calls it makes.
fn calls(n: usize, f: impl for<'a, 'b> FnOnce(&'b [AccountInfo<'a>])) -> (Vec<Pubkey>, usize, Vec<(solana_instruction::Instruction, Vec<Vec<Vec<u8>>>)>) {
    let keys: Vec<Pubkey> = (1..=n as u8).map(|i| Pubkey::new_from_array([i; 32])).collect();
    let owner = Pubkey::default();
    let mut lamports = vec![0u64; n];
    let mut data: Vec<Vec<u8>> = vec![vec![]; n];
    let infos: Vec<AccountInfo> = keys.iter().zip(lamports.iter_mut()).zip(data.iter_mut()).map(|((k, l), d)| AccountInfo::new(k, false, true, l, d, &owner, false, 0)).collect();
    f(&infos);
    let made: Vec<_> = solana_cpi::sim::take().into_iter().map(|(i, _, seeds)| (i, seeds)).collect();
    (keys, made.len(), made)
}
"""
bug("c01-cpi-seeds-lost", "C01",
 [(C + "generated/instructions/unstake.rs", """        instruction.invoke_signed_with_remaining_accounts(
            signers_seeds,
            &self.instruction.__remaining_accounts,
        )
""", """        if self.instruction.__remaining_accounts.is_empty() {
            return instruction.invoke();
        }
        instruction.invoke_signed_with_remaining_accounts(
            signers_seeds,
            &self.instruction.__remaining_accounts,
        )
""")],
 "an unstake by another program that signs for its own address, without additional accounts",
 "the seeds are not passed on, so a program can no longer unstake what it owns",
 CALLS + """
fn main() {
    let (keys, n, made) = calls(11, |i| {
        let mut b = xorca::UnstakeCpiBuilder::new(&i[9]);
        b.unstaker_account(&i[0]).state_account(&i[1]).pending_withdraw_account(&i[2]).unstaker_xorca_ata(&i[3]).xorca_mint_account(&i[4]);
        b.orca_mint_account(&i[5]).vault_account(&i[6]).system_program_account(&i[7]).token_program_account(&i[8]);
        b.xorca_unstake_amount(5).withdraw_index(1);
        b.invoke_signed(&[&[b"pool", &[9]]]).unwrap();
        b.add_remaining_account(&i[10], false, false);
        b.invoke_signed(&[&[b"pool", &[9]]]).unwrap();
    });
    check(n == 2, "two calls");
    for (call, seeds) in &made {
        check(call.accounts.iter().take(9).map(|m| m.pubkey).eq(keys[..9].iter().copied()), "account order");
        check(seeds == &vec![vec![b"pool".to_vec(), vec![9]]], &format!("{} accounts: signed with {seeds:?}", call.accounts.len()));
    }
}
""", kind="client")
bug("c01-extra-accounts-replaced", "C01",
 [(C + "generated/instructions/stake.rs", """    pub fn add_remaining_accounts(
        &mut self,
        accounts: &[solana_instruction::AccountMeta],
    ) -> &mut Self {
        self.__remaining_accounts.extend_from_slice(accounts);
        self
""", """    pub fn add_remaining_accounts(
        &mut self,
        accounts: &[solana_instruction::AccountMeta],
    ) -> &mut Self {
        self.__remaining_accounts = accounts.to_vec();
        self
""")],
 "a stake built with an additional account followed by a list of additional accounts",
 "the account added first is missing from the instruction",
 """
use solana_instruction::AccountMeta;
use solana_pubkey::Pubkey;
fn main() {
    let key = |i: u8| Pubkey::new_from_array([i; 32]);
    let mut b = xorca::StakeBuilder::new();
    b.staker_account(key(1)).vault_account(key(2)).staker_orca_ata(key(3)).staker_xorca_ata(key(4));
    b.xorca_mint_account(key(5)).state_account(key(6)).orca_mint_account(key(7)).token_program_account(key(8));
    b.orca_stake_amount(5);
    b.add_remaining_account(AccountMeta::new(key(9), true));
    b.add_remaining_accounts(&[AccountMeta::new_readonly(key(10), false), AccountMeta::new_readonly(key(11), false)]);
    let i = b.instruction();
    let got: Vec<Pubkey> = i.accounts.iter().map(|m| m.pubkey).collect();
    check(got == (1..=11).map(key).collect::<Vec<_>>(), &format!("the accounts are {got:?}"));
}
""", kind="client")
bug("c03-batch-order", "C03",
 [(C + "generated/accounts/pending_withdraw.rs", """) -> Result<Vec<crate::shared::DecodedAccount<PendingWithdraw>>, std::io::Error> {
    let accounts = rpc
        .get_multiple_accounts(addresses)
        .map_err(""", """) -> Result<Vec<crate::shared::DecodedAccount<PendingWithdraw>>, std::io::Error> {
    // Ask for every account once
    let mut unique = addresses.to_vec();
    unique.sort();
    unique.dedup();
    let addresses = unique.as_slice();
    let accounts = rpc
        .get_multiple_accounts(addresses)
        .map_err(""")],
 "several claims read in one call (with one claim the order does not matter)",
 "the answers are not in the order of the questions, so a caller takes one claim for another",
 """
fn main() {
    let node = Node::default();
    let staker = solana_pubkey::Pubkey::new_from_array([7; 32]);
    let mut ask = vec![];
    for idx in 0..6u8 {
        let (address, bump) = xorca::find_pending_withdraw_pda(&staker, &idx).unwrap();
        let mut d = vec![0u8; 1024];
        d[0] = xorca::AccountDiscriminator::PendingWithdraw as u8;
        d[6] = bump;
        d[7] = idx;
        d[8..40].copy_from_slice(staker.as_ref());
        node.put(&address.to_string(), &xorca::XORCA_STAKING_PROGRAM_ID.to_string(), 1, d);
        ask.push(address);
    }
    ask.push(ask[0]);
    let got = xorca::fetch_all_pending_withdraw(&node.client(), &ask).unwrap();
    let got: Vec<u8> = got.iter().map(|p| p.data.withdraw_index).collect();
    check(got == [0, 1, 2, 3, 4, 5, 0], &format!("asked for claims 0 to 5 and 0 again, got {got:?}"));
}
""", kind="client")
bug("c04-zero-means-default", "C04",
 [(C + "utils/mod.rs", """    let max_withdrawals_to_search =
        max_withdrawals_to_search.unwrap_or(DEFAULT_MAX_WITHDRAWALS_TO_SEARCH);
""", """    let max_withdrawals_to_search = match max_withdrawals_to_search {
        // Wrapped around: every index
        Some(0) => u8::MAX,
        Some(max) => max,
        None => DEFAULT_MAX_WITHDRAWALS_TO_SEARCH,
    };
""")],
 "a listing with a limit of zero for a staker with open claims",
 "claims at or beyond the limit are listed",
 """
fn main() {
    let node = Node::default();
    let staker = solana_pubkey::Pubkey::new_from_array([7; 32]);
    for idx in [0u8, 2, 14, 15] {
        let (address, bump) = xorca::find_pending_withdraw_pda(&staker, &idx).unwrap();
        let mut d = vec![0u8; 1024];
        d[0] = xorca::AccountDiscriminator::PendingWithdraw as u8;
        d[6] = bump;
        d[7] = idx;
        d[8..40].copy_from_slice(staker.as_ref());
        node.put(&address.to_string(), &xorca::XORCA_STAKING_PROGRAM_ID.to_string(), 1, d);
    }
    for (max, want) in [(None, 3), (Some(15), 3), (Some(16), 4), (Some(1), 1), (Some(0), 0)] {
        let got = xorca::utils::fetch_pending_withdraws_for_staker(&node.client(), &staker, max).unwrap();
        check(got.len() == want, &format!("limit {max:?}: listed {} claims", got.len()));
    }
}
""", kind="client")
bug("j01-optional-account", "J01",
 [(J + "generated/shared/index.ts", """    const writableRole = account.isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;
    return Object.freeze({
      address: expectAddress(account.value),
""", """    // The program's own address stands for an account that is left out
    const isWritable = account.isWritable && !isTransactionSigner(account.value);
    const writableRole = isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;
    return Object.freeze({
      address: expectAddress(account.value),
""")],
 "an instruction whose signer does not also pay the transaction fee (the fee payer is writable anyway)",
 "signers are passed read-only, which the program refuses",
 """
const signer = { address: ORCA, signMessages: async (m) => m, signTransactions: async (t) => t };
const ix = X.getSetInstruction({ updateAuthorityAccount: signer, stateAccount: XORCA, instructionData: X.stateUpdateInstruction('UpdateCoolDownPeriod', { newCoolDownPeriodS: 5n }) });
check(ix.accounts[0].role === 3, `the authority has role ${ix.accounts[0].role}`);
check(ix.accounts[1].role === 1, `the state has role ${ix.accounts[1].role}`);
""", kind="js")
bug("j03-missing-claims-left-out", "J03",
 [(J + "generated/accounts/pendingWithdraw.ts", """  assertAccountsExist(maybeAccounts);
  return maybeAccounts;
""", """  const accounts = maybeAccounts.filter((account) => account.exists);
  assertAccountsExist(accounts);
  return accounts;
""")],
 "several claims are read in one call and one of them has been withdrawn",
 "the call answers with fewer claims than asked for instead of failing, so each claim behind the gap is taken for its predecessor",
 """
await claim(ORCA, 0);
await claim(ORCA, 2);
const at = async (i) => (await X.findPendingWithdrawAddress(ORCA, i))[0];
const good = await X.fetchAllPendingWithdraw(rpc, [await at(2), await at(0)]);
check(good.map((a) => a.data.withdrawIndex).join() === '2,0', 'two claims that exist');
let got;
try {
  got = await X.fetchAllPendingWithdraw(rpc, [await at(0), await at(1), await at(2)]);
} catch {
  process.exit(0);
}
check(false, `claim 1 is gone and the answer is ${got.map((a) => a.data.withdrawIndex)}`);
""", kind="js")
bug("j04-default-limit", "J04",
 [(J + "utils/index.ts", """  maxWithdrawalsToSearch: number = DEFAULT_MAX_WITHDRAWALS_TO_SEARCH
""", """  maxWithdrawalsToSearch: number = DEFAULT_MAX_WITHDRAWALS_TO_SEARCH - 1
""")],
 "a listing without a limit for a staker with an open claim under the last default index",
 "the claim at index 14 is not listed",
 """
await claim(ORCA, 0);
await claim(ORCA, 14);
await claim(ORCA, 15);
const got = (await X.fetchPendingWithdrawsForStaker(rpc, ORCA)).map((p) => p.withdrawIndex);
check(got.join() === '0,14', `listed ${got}`);
""", kind="js")
