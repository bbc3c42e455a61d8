//! The observable interface of the system, written down independently of the code under
//! test: addresses, account layouts, instruction encodings, event encodings.
use crate::svm::{find_pda, Acct, Ix, Key, Ledger, Meta, SYSTEM};
use serde::{Deserialize, Serialize};
use std::sync::{Arc, OnceLock};

pub fn key_of(s: &str) -> Key {
    let v = bs58::decode(s).into_vec().expect("base58");
    v.try_into().expect("32 bytes")
}
pub struct Keys {
    pub program: Key,
    pub token_program: Key,
    pub ata_program: Key,
    pub orca_mint: Key,
    pub xorca_mint: Key,
    pub deployer: Key,
    pub state: Key,
    pub state_bump: u8,
    pub vault: Key,
    pub vault_bump: u8,
}
static KEYS: OnceLock<Keys> = OnceLock::new();
pub fn k() -> &'static Keys {
    KEYS.get_or_init(|| {
        let program = key_of("StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT");
        let token_program = key_of("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
        let ata_program = key_of("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
        let orca_mint = key_of("orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE");
        let xorca_mint = key_of("xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N");
        let (state, state_bump) = find_pda(&[b"state"], &program).unwrap();
        let (vault, vault_bump) = find_pda(&[&state, &token_program, &orca_mint], &ata_program).unwrap();
        Keys {
            program,
            token_program,
            ata_program,
            orca_mint,
            xorca_mint,
            deployer: key_of("94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT"),
            state,
            state_bump,
            vault,
            vault_bump,
        }
    })
}

/// Symbolic account names: what replay files contain.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Name {
    /// Wallets. 0.. are participants; admin candidates and attackers are wallets too.
    User(u8),
    Deployer,
    /// ORCA / xORCA associated token accounts of a wallet.
    Orca(u8),
    Xorca(u8),
    /// Secondary (non-associated) token accounts of a wallet.
    Orca2(u8),
    Xorca2(u8),
    DeployerOrca,
    /// Pending-withdrawal address of (wallet, index).
    Pw(u8, u8),
    State,
    Vault,
    OrcaMint,
    XorcaMint,
    TokenProgram,
    SystemProgram,
    AtaProgram,
    Program,
    /// Anything an attacker can put on chain (see `world::genesis`).
    Fake(Fake),
}
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Fake {
    /// Attacker program owning forged bytes of every kind.
    StateForged,
    StateZeroOwned,
    PwForged(u8),
    PwZeroOwned,
    VaultOfState,
    VaultOfAttacker,
    VaultForged,
    OrcaMint,
    XorcaMint,
    MintForged,
    EmptyMint,
    UserFakeOrca(u8),
    UserFakeXorca(u8),
    UserOrcaForged(u8),
    UserXorcaForged(u8),
    TokenProgram,
    SystemProgram,
    AtaProgram,
    VaultFakeOrca,
    AttackerProgram,
    Nowhere(u8),
}
/// Set before anything else: wallets have addresses on the curve, as real ones do (software
/// outside the simulator that tells wallets from program addresses needs it).
pub static WALLETS_ON_CURVE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
impl Name {
    pub fn key(&self) -> Key {
        use std::cell::RefCell;
        use std::collections::HashMap;
        thread_local! { static MEMO: RefCell<HashMap<Name, Key>> = RefCell::new(HashMap::new()); }
        if let Some(k) = MEMO.with(|m| m.borrow().get(self).copied()) {
            return k;
        }
        let r = self.derive();
        MEMO.with(|m| m.borrow_mut().insert(*self, r));
        r
    }
    fn derive(&self) -> Key {
        let k = k();
        let h = |s: String| solana_program::hash::hashv(&[b"xsim", s.as_bytes()]).to_bytes();
        match self {
            Name::Deployer => k.deployer,
            Name::User(_) if WALLETS_ON_CURVE.load(std::sync::atomic::Ordering::Relaxed) => {
                (0u32..).map(|i| h(format!("{self:?}/{i}"))).find(|b| solana_program::pubkey::Pubkey::new_from_array(*b).is_on_curve()).unwrap()
            }
            Name::User(_) => h(format!("{self:?}")),
            Name::Orca(u) => ata(&Name::User(*u).key(), &k.orca_mint),
            Name::Xorca(u) => ata(&Name::User(*u).key(), &k.xorca_mint),
            Name::DeployerOrca => ata(&k.deployer, &k.orca_mint),
            Name::Pw(u, i) => pw_key(&Name::User(*u).key(), *i).0,
            Name::State => k.state,
            Name::Vault => k.vault,
            Name::OrcaMint => k.orca_mint,
            Name::XorcaMint => k.xorca_mint,
            Name::TokenProgram => k.token_program,
            Name::SystemProgram => SYSTEM,
            Name::AtaProgram => k.ata_program,
            Name::Program => k.program,
            // Mints whose vault address has the very bump the pool recorded for its own vault: an
            // attacker grinds one in no time, and a check of the bump alone does not stop it.
            Name::Fake(Fake::OrcaMint) => (0u32..)
                .map(|i| h(format!("{self:?}{i}")))
                .find(|m| find_pda(&[&k.state, &k.token_program, m], &k.ata_program).map(|p| p.1) == Some(k.vault_bump))
                .unwrap(),
            Name::Fake(Fake::VaultFakeOrca) => ata(&k.state, &Name::Fake(Fake::OrcaMint).key()),
            n => h(format!("{n:?}")),
        }
    }
}
pub fn ata(owner: &Key, mint: &Key) -> Key {
    find_pda(&[owner, &k().token_program, mint], &k().ata_program).unwrap().0
}
pub fn pw_key(user: &Key, idx: u8) -> (Key, u8) {
    find_pda(&[b"pending_withdraw", user, &[idx]], &k().program).unwrap()
}

// ---------------------------------------------------------------- layouts
fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn key_at(d: &[u8], o: usize) -> Key {
    d[o..o + 32].try_into().unwrap()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct St {
    pub bump: u8,
    pub vault_bump: u8,
    pub escrow: u64,
    pub cooldown: i64,
    pub authority: Key,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Pw {
    pub bump: u8,
    pub idx: u8,
    pub unstaker: Key,
    pub amount: u64,
    pub ts: i64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tok {
    pub mint: Key,
    pub owner: Key,
    pub amount: u64,
    pub state: u8,
    pub delegate: Option<Key>,
    pub delegated: u64,
    pub close: Option<Key>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mint {
    pub authority: Option<Key>,
    pub supply: u64,
    pub decimals: u8,
    pub init: bool,
    pub freeze: Option<Key>,
    pub freeze_bytes_zero: bool,
}
pub const STATE_LEN: usize = 2048;
pub const PW_LEN: usize = 1024;

pub fn state_at(a: &Acct) -> Option<St> {
    let d = &a.data;
    if a.owner != k().program || d.len() < 56 || d[0] != 1 {
        return None;
    }
    Some(St { bump: d[6], vault_bump: d[7], escrow: u64_at(d, 8), cooldown: u64_at(d, 16) as i64, authority: key_at(d, 24) })
}
pub fn pw_at(a: &Acct) -> Option<Pw> {
    let d = &a.data;
    if a.owner != k().program || d.len() < 56 || d[0] != 2 {
        return None;
    }
    Some(Pw { bump: d[6], idx: d[7], unstaker: key_at(d, 8), amount: u64_at(d, 40), ts: u64_at(d, 48) as i64 })
}
pub fn tok_at(a: &Acct) -> Option<Tok> {
    let d = &a.data;
    if a.owner != k().token_program || d.len() != 165 || d[108] == 0 {
        return None;
    }
    let opt = |o: usize| if d[o] == 1 { Some(key_at(d, o + 4)) } else { None };
    Some(Tok {
        mint: key_at(d, 0),
        owner: key_at(d, 32),
        amount: u64_at(d, 64),
        delegate: opt(72),
        state: d[108],
        delegated: u64_at(d, 121),
        close: opt(129),
    })
}
pub fn mint_at(a: &Acct) -> Option<Mint> {
    let d = &a.data;
    if a.owner != k().token_program || d.len() != 82 || d[45] == 0 {
        return None;
    }
    let opt = |o: usize| if d[o] == 1 { Some(key_at(d, o + 4)) } else { None };
    Some(Mint {
        authority: opt(0),
        supply: u64_at(d, 36),
        decimals: d[44],
        init: d[45] == 1,
        freeze: opt(46),
        freeze_bytes_zero: d[50..82].iter().all(|b| *b == 0),
    })
}
pub fn state(l: &Ledger) -> Option<St> {
    l.m.get(&k().state).and_then(state_at)
}
pub fn pw(l: &Ledger, user: &Key, idx: u8) -> Option<Pw> {
    l.m.get(&pw_key(user, idx).0).and_then(pw_at)
}
pub fn tok(l: &Ledger, key: &Key) -> Option<Tok> {
    l.m.get(key).and_then(tok_at)
}
pub fn mint(l: &Ledger, key: &Key) -> Option<Mint> {
    l.m.get(key).and_then(mint_at)
}
/// All open claims on the ledger: (address, contents).
pub fn claims(l: &Ledger) -> Vec<(Key, Pw)> {
    l.m.iter().filter_map(|(k, a)| pw_at(a).map(|p| (*k, p))).collect()
}
pub fn vault_amount(l: &Ledger) -> u64 {
    tok(l, &k().vault).map(|t| t.amount).unwrap_or(0)
}
pub fn supply(l: &Ledger) -> u64 {
    mint(l, &k().xorca_mint).map(|m| m.supply).unwrap_or(0)
}

pub fn token_bytes(mint: &Key, owner: &Key, amount: u64) -> Arc<Vec<u8>> {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(mint);
    d[32..64].copy_from_slice(owner);
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    Arc::new(d)
}
pub fn mint_bytes(authority: Option<Key>, supply: u64, decimals: u8, freeze: Option<Key>) -> Arc<Vec<u8>> {
    let mut d = vec![0u8; 82];
    if let Some(a) = authority {
        d[0] = 1;
        d[4..36].copy_from_slice(&a);
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    if let Some(a) = freeze {
        d[46] = 1;
        d[50..82].copy_from_slice(&a);
    }
    Arc::new(d)
}
pub fn state_bytes(s: &St) -> Arc<Vec<u8>> {
    let mut d = vec![0u8; STATE_LEN];
    d[0] = 1;
    d[6] = s.bump;
    d[7] = s.vault_bump;
    d[8..16].copy_from_slice(&s.escrow.to_le_bytes());
    d[16..24].copy_from_slice(&s.cooldown.to_le_bytes());
    d[24..56].copy_from_slice(&s.authority);
    Arc::new(d)
}
pub fn pw_bytes(p: &Pw) -> Arc<Vec<u8>> {
    let mut d = vec![0u8; PW_LEN];
    d[0] = 2;
    d[6] = p.bump;
    d[7] = p.idx;
    d[8..40].copy_from_slice(&p.unstaker);
    d[40..48].copy_from_slice(&p.amount.to_le_bytes());
    d[48..56].copy_from_slice(&p.ts.to_le_bytes());
    Arc::new(d)
}

// ---------------------------------------------------------------- instructions
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Stake { amount: u64 },
    Unstake { amount: u64, idx: u8 },
    Withdraw { idx: u8 },
    Init { cooldown: i64 },
    SetCooldown { cooldown: i64 },
    SetAuthority { to: Key },
}
/// Decodes instruction data; the bool says whether bytes trail the encoding.
pub fn decode_op(d: &[u8]) -> Option<(Op, bool)> {
    let (op, n) = match *d.first()? {
        0 if d.len() >= 9 => (Op::Stake { amount: u64_at(d, 1) }, 9),
        1 if d.len() >= 10 => (Op::Unstake { amount: u64_at(d, 1), idx: d[9] }, 10),
        2 if d.len() >= 2 => (Op::Withdraw { idx: d[1] }, 2),
        3 if d.len() >= 9 => (Op::Init { cooldown: u64_at(d, 1) as i64 }, 9),
        4 if d.len() >= 10 && d[1] == 0 => (Op::SetCooldown { cooldown: u64_at(d, 2) as i64 }, 10),
        4 if d.len() >= 34 && d[1] == 1 => (Op::SetAuthority { to: key_at(d, 2) }, 34),
        _ => return None,
    };
    Some((op, d.len() > n))
}
pub fn encode_op(op: &Op) -> Vec<u8> {
    let mut v = Vec::new();
    match op {
        Op::Stake { amount } => {
            v.push(0);
            v.extend(amount.to_le_bytes());
        }
        Op::Unstake { amount, idx } => {
            v.push(1);
            v.extend(amount.to_le_bytes());
            v.push(*idx);
        }
        Op::Withdraw { idx } => v.extend([2, *idx]),
        Op::Init { cooldown } => {
            v.push(3);
            v.extend(cooldown.to_le_bytes());
        }
        Op::SetCooldown { cooldown } => {
            v.extend([4, 0]);
            v.extend(cooldown.to_le_bytes());
        }
        Op::SetAuthority { to } => {
            v.extend([4, 1]);
            v.extend(to);
        }
    }
    v
}
fn m(key: Key, signer: bool, writable: bool) -> Meta {
    Meta { key, signer, writable }
}
/// The canonical instruction for an operation by wallet `user` (init: by `payer` naming
/// `user` as update authority).
pub fn canonical(op: &Op, user: &Key, payer: &Key, orca_acct: &Key, xorca_acct: &Key) -> Ix {
    let k = k();
    let accounts = match op {
        Op::Stake { .. } => vec![
            m(*user, true, true),
            m(k.vault, false, true),
            m(*orca_acct, false, true),
            m(*xorca_acct, false, true),
            m(k.xorca_mint, false, true),
            m(k.state, false, false),
            m(k.orca_mint, false, false),
            m(k.token_program, false, false),
        ],
        Op::Unstake { idx, .. } => vec![
            m(*user, true, true),
            m(k.state, false, true),
            m(pw_key(user, *idx).0, false, true),
            m(*xorca_acct, false, true),
            m(k.xorca_mint, false, true),
            m(k.orca_mint, false, false),
            m(k.vault, false, false),
            m(SYSTEM, false, false),
            m(k.token_program, false, false),
        ],
        Op::Withdraw { idx } => vec![
            m(*user, true, true),
            m(k.state, false, true),
            m(pw_key(user, *idx).0, false, true),
            m(*orca_acct, false, true),
            m(k.vault, false, true),
            m(k.orca_mint, false, false),
            m(SYSTEM, false, false),
            m(k.token_program, false, false),
        ],
        Op::Init { .. } => vec![
            m(*payer, true, true),
            m(*user, true, true),
            m(k.state, false, true),
            m(k.vault, false, true),
            m(k.xorca_mint, false, false),
            m(k.orca_mint, false, false),
            m(SYSTEM, false, false),
            m(k.token_program, false, false),
            m(k.ata_program, false, false),
        ],
        Op::SetCooldown { .. } | Op::SetAuthority { .. } => vec![m(*user, true, true), m(k.state, false, true)],
    };
    Ix { program: k.program, accounts, data: encode_op(op) }
}

pub fn sys_transfer(from: Key, to: Key, lamports: u64) -> Ix {
    let mut d = 2u32.to_le_bytes().to_vec();
    d.extend(lamports.to_le_bytes());
    Ix { program: SYSTEM, accounts: vec![m(from, true, true), m(to, false, true)], data: d }
}
pub fn tok_transfer(from: Key, to: Key, authority: Key, amount: u64) -> Ix {
    let mut d = vec![3u8];
    d.extend(amount.to_le_bytes());
    Ix { program: k().token_program, accounts: vec![m(from, false, true), m(to, false, true), m(authority, true, false)], data: d }
}
pub fn tok_burn(acct: Key, mint: Key, authority: Key, amount: u64) -> Ix {
    let mut d = vec![8u8];
    d.extend(amount.to_le_bytes());
    Ix { program: k().token_program, accounts: vec![m(acct, false, true), m(mint, false, true), m(authority, true, false)], data: d }
}
pub fn tok_approve(acct: Key, delegate: Key, authority: Key, amount: u64) -> Ix {
    let mut d = vec![4u8];
    d.extend(amount.to_le_bytes());
    Ix { program: k().token_program, accounts: vec![m(acct, false, true), m(delegate, false, false), m(authority, true, false)], data: d }
}
pub fn tok_revoke(acct: Key, authority: Key) -> Ix {
    Ix { program: k().token_program, accounts: vec![m(acct, false, true), m(authority, true, false)], data: vec![5] }
}
pub fn tok_close(acct: Key, dest: Key, authority: Key) -> Ix {
    Ix { program: k().token_program, accounts: vec![m(acct, false, true), m(dest, false, true), m(authority, true, false)], data: vec![9] }
}
pub fn create_ata(payer: Key, owner: Key, mint: Key, idempotent: bool) -> Ix {
    let k = k();
    Ix {
        program: k.ata_program,
        accounts: vec![
            m(payer, true, true),
            m(ata(&owner, &mint), false, true),
            m(owner, false, false),
            m(mint, false, false),
            m(SYSTEM, false, false),
            m(k.token_program, false, false),
        ],
        data: if idempotent { vec![1] } else { vec![] },
    }
}

// ---------------------------------------------------------------- events
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Stake { amount: u64, vault: u64, escrow: u64, supply: u64, minted: u64 },
    Unstake { amount: u64, vault: u64, escrow: u64, supply: u64, claim: u64, cooldown: i64, idx: u8 },
    Withdraw { escrow: u64, claim: u64, cooldown: i64, idx: u8 },
    Authority { new: Key, by: Key },
}
pub fn decode_event(d: &[u8]) -> Option<Ev> {
    Some(match *d.first()? {
        0 if d.len() == 41 => Ev::Stake { amount: u64_at(d, 1), vault: u64_at(d, 9), escrow: u64_at(d, 17), supply: u64_at(d, 25), minted: u64_at(d, 33) },
        1 if d.len() == 50 => Ev::Unstake {
            amount: u64_at(d, 1),
            vault: u64_at(d, 9),
            escrow: u64_at(d, 17),
            supply: u64_at(d, 25),
            claim: u64_at(d, 33),
            cooldown: u64_at(d, 41) as i64,
            idx: d[49],
        },
        2 if d.len() == 26 => Ev::Withdraw { escrow: u64_at(d, 1), claim: u64_at(d, 9), cooldown: u64_at(d, 17) as i64, idx: d[25] },
        3 if d.len() == 65 => Ev::Authority { new: key_at(d, 1), by: key_at(d, 33) },
        _ => return None,
    })
}
