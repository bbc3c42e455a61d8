//! Instructions as a user of the Rust client builds them: through the plain structs, the
//! builders and the CPI builders (whose call is recorded by the vendored solana-cpi).
use solana_account_info::AccountInfo;
use solana_instruction::{AccountMeta, Instruction};
use solana_pubkey::Pubkey;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::{Mutex, OnceLock};
use xorca::*;
use xsim::abi::{k, Name};
use xsim::svm::{Ix, Key, Meta};
use xsim::prng::Fnv;
use xsim::world::{IxSpec, Kind, DONOR, FAUCET};

fn pk(k: Key) -> Pubkey {
    Pubkey::new_from_array(k)
}

/// The addresses, all from the client.
struct Addr {
    state: Pubkey,
    vault: Pubkey,
    orca: Pubkey,
    xorca: Pubkey,
    token: Pubkey,
}
fn addr() -> &'static Addr {
    static A: OnceLock<Addr> = OnceLock::new();
    A.get_or_init(|| {
        let state = find_state_address().expect("state address").0;
        let token = Pubkey::from_str(TOKEN_PROGRAM_ADDRESS).expect("token program");
        let orca = Pubkey::from_str(ORCA_MINT_ADDRESS).expect("orca mint");
        let xorca = Pubkey::from_str(XORCA_MINT_ADDRESS).expect("xorca mint");
        let vault = find_orca_vault_address(&state, &token, &orca).expect("vault").0;
        Addr { state, vault, orca, xorca, token }
    })
}
pub fn claim_addr(user: &Key, idx: u8) -> Pubkey {
    static C: OnceLock<Mutex<HashMap<(Key, u8), Pubkey>>> = OnceLock::new();
    *C.get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry((*user, idx))
        .or_insert_with(|| find_pending_withdraw_pda(&pk(*user), &idx).expect("claim address").0)
}

fn ix(i: Instruction) -> Ix {
    Ix {
        program: i.program_id.to_bytes(),
        accounts: i.accounts.iter().map(|m: &AccountMeta| Meta { key: m.pubkey.to_bytes(), signer: m.is_signer, writable: m.is_writable }).collect(),
        data: i.data,
    }
}

/// The additional accounts the caller passes along with a request, decided by the request.
pub fn extras(meant: &Ix) -> Vec<Meta> {
    let mut h = Fnv::new();
    h.bytes(&meant.data);
    for a in &meant.accounts {
        h.bytes(&a.key);
    }
    let mut bits = h.finish();
    let mut take = |n: u64| {
        let x = bits % n;
        bits /= n;
        x
    };
    if take(3) != 0 {
        return vec![];
    }
    let keys = [Name::User(DONOR).key(), Name::User(FAUCET).key(), [0xE7; 32]];
    (0..1 + take(3))
        .map(|_| {
            let (key, signer, writable) = (keys[take(3) as usize], take(2) == 1, take(2) == 1);
            let nobody = key == keys[2];
            Meta { key, signer: signer && !nobody, writable: writable && !nobody }
        })
        .collect()
}
/// Seeds a calling program signs with.
const SEEDS: &[&[&[u8]]] = &[&[b"pool", &[7, 1]], &[&[250]]];

type More<'a, 'b> = Vec<(&'b AccountInfo<'a>, bool, bool)>;
/// Runs `f` with account infos for `keys` (the called program last), those of the additional
/// accounts with their (writable, signer) flags and the seeds to sign with, and returns the
/// recorded call.
fn cpi(keys: &[Pubkey], more: &[Meta], signed: bool, f: impl for<'a, 'b> FnOnce(&'b [AccountInfo<'a>], More<'a, 'b>, &[&[&[u8]]])) -> Ix {
    let owner = Pubkey::default();
    let program = pk(k().program);
    let all: Vec<Pubkey> = keys.iter().copied().chain([program]).chain(more.iter().map(|m| pk(m.key))).collect();
    let mut lamports = vec![0u64; all.len()];
    let mut data: Vec<Vec<u8>> = all.iter().map(|_| vec![]).collect();
    let infos: Vec<AccountInfo> = all
        .iter()
        .zip(lamports.iter_mut())
        .zip(data.iter_mut())
        .map(|((key, l), d)| AccountInfo::new(key, false, false, l, d, &owner, false, 0))
        .collect();
    let tail = infos[keys.len() + 1..].iter().zip(more).map(|(i, m)| (i, m.writable, m.signer)).collect();
    let seeds = if signed { SEEDS } else { &[] };
    solana_cpi::sim::take();
    f(&infos, tail, seeds);
    let Some((i, have, used)) = solana_cpi::sim::take().pop() else { return nothing() };
    // The runtime resolves every account of the call among the infos passed along, and signs
    // with the seeds passed along.
    let want: Vec<Vec<Vec<u8>>> = seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect();
    if !have.contains(&i.program_id) || i.accounts.iter().any(|m| !have.contains(&m.pubkey)) || used != want {
        return nothing();
    }
    ix(i)
}

/// One request through the plain struct, the builder, the CPI builder or the plain CPI struct.
macro_rules! build {
    ($v:expr, $ks:expr, $more:expr, $T:ident, $Args:ident, $Builder:ident, $Cpi:ident, $Accounts:ident, $CpiBuilder:ident, [$($f:ident)*], [$($arg:ident: $val:expr),*]) => {{
        let (ks, more): (&[Pubkey], &[Meta]) = ($ks, $more);
        let (v, alt) = ($v % 4, $v / 4 % 2 == 1);
        let metas: Vec<AccountMeta> = more.iter().map(|m| AccountMeta { pubkey: pk(m.key), is_signer: m.signer, is_writable: m.writable }).collect();
        let mut at = 0..;
        let mut key = || ks[at.next().unwrap_or(0)];
        match v {
            0 => {
                let x = $T { $($f: key()),* };
                let args = $Args { $($arg: $val),* };
                Some(ix(if metas.is_empty() && alt { x.instruction(args) } else { x.instruction_with_remaining_accounts(args, &metas) }))
            }
            1 => {
                let mut b = $Builder::new();
                $(b.$f(key());)*
                $(b.$arg($val);)*
                match metas.as_slice() {
                    [] => {}
                    [one, rest @ ..] if alt => {
                        b.add_remaining_account(one.clone()).add_remaining_accounts(rest);
                    }
                    [first @ .., one] => {
                        b.add_remaining_accounts(first).add_remaining_account(one.clone());
                    }
                }
                Some(ix(b.instruction()))
            }
            2 => Some(cpi(ks, more, alt, |i, tail, seeds| {
                let mut at = 0..;
                let mut info = || &i[at.next().unwrap_or(0)];
                let mut b = $CpiBuilder::new(&i[ks.len()]);
                $(b.$f(info());)*
                $(b.$arg($val);)*
                match tail.as_slice() {
                    [] => {}
                    [(a, w, s), rest @ ..] if alt => {
                        b.add_remaining_account(a, *w, *s).add_remaining_accounts(rest);
                    }
                    [first @ .., (a, w, s)] => {
                        b.add_remaining_accounts(first).add_remaining_account(a, *w, *s);
                    }
                }
                let _ = if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) };
            })),
            _ => Some(cpi(ks, more, alt, |i, tail, seeds| {
                let mut at = 0..;
                let mut info = || &i[at.next().unwrap_or(0)];
                let x = $Cpi::new(&i[ks.len()], $Accounts { $($f: info()),* }, $Args { $($arg: $val),* });
                let _ = match (seeds.is_empty(), tail.is_empty()) {
                    (true, true) => x.invoke(),
                    (true, false) => x.invoke_with_remaining_accounts(&tail),
                    (false, true) => x.invoke_signed(seeds),
                    (false, false) => x.invoke_signed_with_remaining_accounts(seeds, &tail),
                };
            })),
        }
    }};
}

/// What stands for a request the client could not build.
fn nothing() -> Ix {
    Ix { program: k().program, accounts: vec![], data: vec![0xEE] }
}
pub fn make(spec: &IxSpec, v: u32) -> Option<Ix> {
    if !spec.muts.is_empty() {
        return None;
    }
    catch_unwind(AssertUnwindSafe(|| by_client(spec, v))).unwrap_or_else(|_| Some(nothing()))
}
fn by_client(spec: &IxSpec, v: u32) -> Option<Ix> {
    let a = addr();
    let sys = Pubkey::default();
    let ata = pk(k().ata_program);
    let more = &extras(&spec.build());
    match &spec.kind {
        Kind::Stake { u, amount, orca, xorca } => {
            let ks = [pk(u.key()), a.vault, pk(orca.key()), pk(xorca.key()), a.xorca, a.state, a.orca, a.token];
            build!(v, &ks, more, Stake, StakeInstructionArgs, StakeBuilder, StakeCpi, StakeCpiAccounts, StakeCpiBuilder,
                [staker_account vault_account staker_orca_ata staker_xorca_ata xorca_mint_account state_account orca_mint_account token_program_account],
                [orca_stake_amount: *amount])
        }
        Kind::Unstake { u, amount, idx, xorca } => {
            let ks = [pk(u.key()), a.state, claim_addr(&u.key(), *idx), pk(xorca.key()), a.xorca, a.orca, a.vault, sys, a.token];
            build!(v, &ks, more, Unstake, UnstakeInstructionArgs, UnstakeBuilder, UnstakeCpi, UnstakeCpiAccounts, UnstakeCpiBuilder,
                [unstaker_account state_account pending_withdraw_account unstaker_xorca_ata xorca_mint_account orca_mint_account vault_account system_program_account token_program_account],
                [xorca_unstake_amount: *amount, withdraw_index: *idx])
        }
        Kind::Withdraw { u, idx, orca } => {
            let ks = [pk(u.key()), a.state, claim_addr(&u.key(), *idx), pk(orca.key()), a.vault, a.orca, sys, a.token];
            build!(v, &ks, more, Withdraw, WithdrawInstructionArgs, WithdrawBuilder, WithdrawCpi, WithdrawCpiAccounts, WithdrawCpiBuilder,
                [unstaker_account state_account pending_withdraw_account unstaker_orca_ata vault_account orca_mint_account system_program_account token_program_account],
                [withdraw_index: *idx])
        }
        Kind::Init { payer, authority, cooldown } => {
            let ks = [pk(payer.key()), pk(authority.key()), a.state, a.vault, a.xorca, a.orca, sys, a.token, ata];
            build!(v, &ks, more, Initialize, InitializeInstructionArgs, InitializeBuilder, InitializeCpi, InitializeCpiAccounts, InitializeCpiBuilder,
                [payer_account update_authority_account state_account vault_account xorca_mint_account orca_mint_account system_program_account token_program_account associated_token_program_account],
                [cool_down_period_s: *cooldown])
        }
        Kind::SetCooldown { .. } | Kind::SetAuthority { .. } => {
            let (by, what) = match &spec.kind {
                Kind::SetCooldown { by, cooldown } => (by, StateUpdateInstruction::UpdateCoolDownPeriod { new_cool_down_period_s: *cooldown }),
                Kind::SetAuthority { by, to } => (by, StateUpdateInstruction::UpdateUpdateAuthority { new_authority: pk(to.key()) }),
                _ => return None,
            };
            let ks = [pk(by.key()), a.state];
            build!(v, &ks, more, Set, SetInstructionArgs, SetBuilder, SetCpi, SetCpiAccounts, SetCpiBuilder,
                [update_authority_account state_account],
                [instruction_data: what.clone()])
        }
        _ => None,
    }
}
