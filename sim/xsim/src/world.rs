//! The simulated cluster: genesis, clients' transactions, mempool, blocks, forks, clock.
use crate::abi::*;
use crate::check::{Ghost, Monitor, Violation};
use crate::svm::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const USERS: u8 = 8;
pub const ATTACKER: u8 = 4;
pub const DONOR: u8 = 5;
pub const ADMIN: u8 = 6;
pub const ADMIN2: u8 = 7;
/// Wallet that pays for housekeeping; never holds tokens.
pub const FAUCET: u8 = 9;

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum MintFlaw {
    None,
    WrongAuthority,
    NoAuthority,
    Presupply(u64),
    Freeze,
    /// The n-th of a list of keys with a role in the pool as freeze or mint authority.
    FreezeBy(u8),
    AuthorityBy(u8),
    Decimals(u8),
    OrcaDecimals(u8),
    /// Authorities given up: SPL Token clears the flag and leaves the key bytes.
    Revoked,
    FreezeRevoked,
    Uninitialised,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub enum Boot {
    /// Nothing deployed yet.
    Uninit { flaw: MintFlaw },
    /// A pool with history: `held[u]` xORCA per wallet, `extra` ORCA beyond 1:1 backing
    /// (less `short`: such pools do not arise, but pricing must be exact on them as well),
    /// and open claims (wallet, index, amount, unstake time offset).
    Pool {
        held: Vec<u64>,
        extra: u64,
        #[serde(default)]
        short: u64,
        claims: Vec<(u8, u8, u64, i64)>,
    },
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub struct Cfg {
    pub boot: Boot,
    pub orca: Vec<u64>,
    pub lamports: Vec<u64>,
    pub cooldown: i64,
    pub start: i64,
    /// Wallets that start without associated token accounts (bit per wallet).
    pub no_orca_ata: u8,
    pub no_xorca_ata: u8,
    /// Legacy dust (below rent exemption) already sitting on claim addresses.
    pub dust: Vec<(u8, u8, u64)>,
    /// Lamports that somebody sent to the addresses of the token accounts wallets do not have yet.
    #[serde(default)]
    pub ata_dust: u64,
    /// The cluster's rent rate in lamports per byte-year (0: today's 3480).
    #[serde(default)]
    pub rent: u64,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    Stake { u: Name, amount: u64, orca: Name, xorca: Name },
    Unstake { u: Name, amount: u64, idx: u8, xorca: Name },
    Withdraw { u: Name, idx: u8, orca: Name },
    Init { payer: Name, authority: Name, cooldown: i64 },
    SetCooldown { by: Name, cooldown: i64 },
    SetAuthority { by: Name, to: Name },
    Sol { from: Name, to: Name, lamports: u64 },
    Tok { from: Name, to: Name, by: Name, amount: u64 },
    Burn { acct: Name, mint: Name, by: Name, amount: u64 },
    Approve { acct: Name, to: Name, by: Name, amount: u64 },
    CloseTok { acct: Name, to: Name, by: Name },
    CreateAta { payer: Name, owner: Name, mint: Name, idem: bool },
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub enum Mut {
    Subst { pos: u8, name: Name },
    NoSign { pos: u8 },
    NoWrite { pos: u8 },
    Truncate { len: u8 },
    Swap { a: u8, b: u8 },
    Append { name: Name, writable: bool },
    /// Cut or extend the instruction data to this length.
    DataLen { len: u8 },
    /// Overwrite one data byte.
    DataByte { at: u8, byte: u8 },
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub struct IxSpec {
    pub kind: Kind,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub muts: Vec<Mut>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub struct TxSpec {
    pub payer: Name,
    pub ixs: Vec<IxSpec>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub enum Step {
    /// A client signs a transaction and sends it.
    Submit { id: u32, tx: TxSpec },
    /// The leader executes it in the open block (optionally with a fault inside).
    Land { id: u32, #[serde(default, skip_serializing_if = "Option::is_none")] fault: Option<Fault> },
    /// The network loses it.
    Drop { id: u32 },
    /// A retrying client signs the same instructions again.
    Resend { id: u32, of: u32 },
    /// Next block; the cluster clock moves by `dt` seconds.
    Block { dt: i64 },
    /// The last `depth` blocks and the open one are abandoned; their transactions return
    /// to the mempool.
    Reorg { depth: u32 },
    /// Liveness probe: fork the ledger here, stop all faults, everybody leaves.
    Drill,
}

fn m(key: Key, signer: bool, writable: bool) -> Meta {
    Meta { key, signer, writable }
}
impl IxSpec {
    pub fn plain(kind: Kind) -> Self {
        IxSpec { kind, muts: vec![] }
    }
    pub fn build(&self) -> Ix {
        let none = SYSTEM;
        let mut ix = match &self.kind {
            Kind::Stake { u, amount, orca, xorca } => {
                canonical(&Op::Stake { amount: *amount }, &u.key(), &none, &orca.key(), &xorca.key())
            }
            Kind::Unstake { u, amount, idx, xorca } => {
                canonical(&Op::Unstake { amount: *amount, idx: *idx }, &u.key(), &none, &none, &xorca.key())
            }
            Kind::Withdraw { u, idx, orca } => canonical(&Op::Withdraw { idx: *idx }, &u.key(), &none, &orca.key(), &none),
            Kind::Init { payer, authority, cooldown } => {
                canonical(&Op::Init { cooldown: *cooldown }, &authority.key(), &payer.key(), &none, &none)
            }
            Kind::SetCooldown { by, cooldown } => canonical(&Op::SetCooldown { cooldown: *cooldown }, &by.key(), &none, &none, &none),
            Kind::SetAuthority { by, to } => canonical(&Op::SetAuthority { to: to.key() }, &by.key(), &none, &none, &none),
            Kind::Sol { from, to, lamports } => sys_transfer(from.key(), to.key(), *lamports),
            Kind::Tok { from, to, by, amount } => tok_transfer(from.key(), to.key(), by.key(), *amount),
            Kind::Burn { acct, mint, by, amount } => tok_burn(acct.key(), mint.key(), by.key(), *amount),
            Kind::Approve { acct, to, by, amount } => tok_approve(acct.key(), to.key(), by.key(), *amount),
            Kind::CloseTok { acct, to, by } => tok_close(acct.key(), to.key(), by.key()),
            Kind::CreateAta { payer, owner, mint, idem } => create_ata(payer.key(), owner.key(), mint.key(), *idem),
        };
        for mu in &self.muts {
            match mu {
                Mut::Subst { pos, name } => {
                    if let Some(a) = ix.accounts.get_mut(*pos as usize) {
                        a.key = name.key();
                    }
                }
                Mut::NoSign { pos } => {
                    if let Some(a) = ix.accounts.get_mut(*pos as usize) {
                        a.signer = false;
                    }
                }
                Mut::NoWrite { pos } => {
                    if let Some(a) = ix.accounts.get_mut(*pos as usize) {
                        a.writable = false;
                    }
                }
                Mut::Truncate { len } => ix.accounts.truncate(*len as usize),
                Mut::Swap { a, b } => {
                    let n = ix.accounts.len();
                    if (*a as usize) < n && (*b as usize) < n {
                        let (ka, kb) = (ix.accounts[*a as usize].key, ix.accounts[*b as usize].key);
                        ix.accounts[*a as usize].key = kb;
                        ix.accounts[*b as usize].key = ka;
                    }
                }
                Mut::Append { name, writable } => ix.accounts.push(m(name.key(), false, *writable)),
                Mut::DataLen { len } => ix.data.resize(*len as usize, 0xAB),
                Mut::DataByte { at, byte } => {
                    if let Some(b) = ix.data.get_mut(*at as usize) {
                        *b = *byte;
                    }
                }
            }
        }
        ix
    }
}
impl TxSpec {
    /// The signed transaction, or None if somebody without a private key would have to sign.
    pub fn build(&self) -> Option<Tx> {
        self.build_with(None, 0)
    }
    pub fn build_with(&self, maker: Option<Maker>, variant: u32) -> Option<Tx> {
        // A request that needs a signature nobody can give, but should not, stays visible.
        let sound = |ix: Ix, i: &IxSpec| match ix.accounts.iter().any(|a| a.signer && !can_sign(&a.key)) && !i.build().accounts.iter().any(|a| a.signer && !can_sign(&a.key)) {
            true => Ix { accounts: vec![], ..ix },
            false => ix,
        };
        let ixs: Vec<Ix> = self.ixs.iter().map(|i| maker.and_then(|m| m(i, variant)).map(|x| sound(x, i)).unwrap_or_else(|| i.build())).collect();
        if ixs.iter().any(|i| i.accounts.len() > 40) {
            return None;
        }
        for ix in &ixs {
            for a in &ix.accounts {
                if a.signer && !can_sign(&a.key) {
                    return None;
                }
            }
        }
        if !can_sign(&self.payer.key()) {
            return None;
        }
        Some(Tx { payer: self.payer.key(), ixs })
    }
}
/// Builds an instruction some other way than the simulator's own encoder (the client
/// library, in xrpc); None falls back to the simulator's encoder.
pub type Maker = fn(&IxSpec, u32) -> Option<Ix>;
/// Sees every executed transaction: spec, transaction, outcome, ledger after it, clock.
pub type Observer = fn(&TxSpec, &Tx, &TxOut, &Ledger, Clock, &mut Stats) -> Result<(), Violation>;
pub fn can_sign(key: &Key) -> bool {
    key == &k().deployer || (0..=FAUCET).any(|u| &Name::User(u).key() == key)
}

pub fn all_fakes() -> Vec<Fake> {
    let mut v = vec![
        Fake::StateForged,
        Fake::StateZeroOwned,
        Fake::PwZeroOwned,
        Fake::VaultOfState,
        Fake::VaultOfAttacker,
        Fake::VaultForged,
        Fake::OrcaMint,
        Fake::XorcaMint,
        Fake::MintForged,
        Fake::EmptyMint,
        Fake::TokenProgram,
        Fake::SystemProgram,
        Fake::AtaProgram,
        Fake::VaultFakeOrca,
        Fake::AttackerProgram,
    ];
    for u in 0..USERS {
        v.extend([Fake::PwForged(u), Fake::UserFakeOrca(u), Fake::UserFakeXorca(u), Fake::UserOrcaForged(u), Fake::UserXorcaForged(u), Fake::Nowhere(u)]);
    }
    v
}
pub fn all_names() -> Vec<Name> {
    let mut v = vec![
        Name::State,
        Name::Vault,
        Name::OrcaMint,
        Name::XorcaMint,
        Name::TokenProgram,
        Name::SystemProgram,
        Name::AtaProgram,
        Name::Program,
        Name::Deployer,
        Name::DeployerOrca,
    ];
    for u in 0..=FAUCET {
        v.push(Name::User(u));
        v.extend([Name::Orca(u), Name::Xorca(u), Name::Orca2(u), Name::Xorca2(u)]);
        if u < USERS {
            for i in [0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 254, 255] {
                v.push(Name::Pw(u, i));
            }
        }
    }
    v.extend(all_fakes().into_iter().map(Name::Fake));
    v
}

/// Builds the genesis ledger.
pub fn genesis(cfg: &Cfg) -> Ledger {
    set_rent(cfg.rent);
    let k = k();
    let mut l = Ledger::default();
    let loader = key_of("BPFLoaderUpgradeab1e11111111111111111111111");
    let native = key_of("NativeLoader1111111111111111111111111111111");
    for (key, owner) in [(k.program, loader), (k.token_program, loader), (k.ata_program, loader), (SYSTEM, native)] {
        l.set(key, Acct { lamports: 1_141_440, data: Arc::new(vec![]), owner, executable: true });
    }
    for f in [Fake::TokenProgram, Fake::SystemProgram, Fake::AtaProgram, Fake::AttackerProgram] {
        l.set(Name::Fake(f).key(), Acct { lamports: 1_141_440, data: Arc::new(vec![]), owner: loader, executable: true });
    }
    let put = |l: &mut Ledger, n: Key, owner: Key, data: Arc<Vec<u8>>| {
        let lamports = rent_min(data.len());
        l.set(n, Acct { lamports, data, owner, executable: false });
    };
    l.set(k.deployer, Acct::wallet(1_000_000_000));
    l.set(Name::User(FAUCET).key(), Acct::wallet(1_000_000_000_000_000));
    let mut orca_total = 0u64;
    let mut xsupply = 0u64;
    let evil = Name::Fake(Fake::AttackerProgram).key();
    // Pool contents.
    let (flaw, held, extra, short, claims, pool) = match &cfg.boot {
        Boot::Uninit { flaw } => (*flaw, vec![], 0, 0, vec![], false),
        Boot::Pool { held, extra, short, claims } => (MintFlaw::None, held.clone(), *extra, *short, claims.clone(), true),
    };
    for u in 0..USERS {
        let ku = Name::User(u).key();
        l.set(ku, Acct::wallet(cfg.lamports.get(u as usize).copied().unwrap_or(1_000_000_000)));
        let o = cfg.orca.get(u as usize).copied().unwrap_or(0);
        let x = held.get(u as usize).copied().unwrap_or(0);
        if cfg.no_orca_ata >> u & 1 == 0 || o > 0 {
            put(&mut l, Name::Orca(u).key(), k.token_program, token_bytes(&k.orca_mint, &ku, o));
            orca_total += o;
        }
        if cfg.no_xorca_ata >> u & 1 == 0 || x > 0 {
            put(&mut l, Name::Xorca(u).key(), k.token_program, token_bytes(&k.xorca_mint, &ku, x));
            xsupply += x;
        }
        put(&mut l, Name::Orca2(u).key(), k.token_program, token_bytes(&k.orca_mint, &ku, 0));
        put(&mut l, Name::Xorca2(u).key(), k.token_program, token_bytes(&k.xorca_mint, &ku, 0));
        // Forgeries naming this user.
        let big = 1u64 << 40;
        put(&mut l, Name::Fake(Fake::UserFakeOrca(u)).key(), k.token_program, token_bytes(&Name::Fake(Fake::OrcaMint).key(), &ku, big));
        put(&mut l, Name::Fake(Fake::UserFakeXorca(u)).key(), k.token_program, token_bytes(&Name::Fake(Fake::XorcaMint).key(), &ku, big));
        put(&mut l, Name::Fake(Fake::UserOrcaForged(u)).key(), evil, token_bytes(&k.orca_mint, &ku, big));
        put(&mut l, Name::Fake(Fake::UserXorcaForged(u)).key(), evil, token_bytes(&k.xorca_mint, &ku, big));
        put(
            &mut l,
            Name::Fake(Fake::PwForged(u)).key(),
            evil,
            pw_bytes(&Pw { bump: pw_key(&ku, 0).1, idx: 0, unstaker: ku, amount: 1000, ts: 0 }),
        );
    }
    let attacker = Name::User(ATTACKER).key();
    put(&mut l, Name::Fake(Fake::VaultOfState).key(), k.token_program, token_bytes(&k.orca_mint, &k.state, 1_000_000));
    put(&mut l, Name::Fake(Fake::VaultOfAttacker).key(), k.token_program, token_bytes(&k.orca_mint, &attacker, 1_000_000));
    orca_total += 2_000_000;
    put(&mut l, Name::Fake(Fake::VaultForged).key(), evil, token_bytes(&k.orca_mint, &k.state, 1 << 40));
    put(&mut l, Name::Fake(Fake::VaultFakeOrca).key(), k.token_program, token_bytes(&Name::Fake(Fake::OrcaMint).key(), &k.state, 1 << 40));
    put(&mut l, Name::Fake(Fake::OrcaMint).key(), k.token_program, mint_bytes(Some(attacker), 1 << 45, 6, None));
    put(&mut l, Name::Fake(Fake::XorcaMint).key(), k.token_program, mint_bytes(Some(k.state), 1 << 45, 6, None));
    put(&mut l, Name::Fake(Fake::EmptyMint).key(), k.token_program, mint_bytes(Some(k.state), 0, 6, None));
    put(&mut l, Name::Fake(Fake::MintForged).key(), evil, mint_bytes(Some(k.state), 0, 6, None));
    put(
        &mut l,
        Name::Fake(Fake::StateForged).key(),
        evil,
        state_bytes(&St { bump: k.state_bump, vault_bump: k.vault_bump, escrow: 0, cooldown: 0, authority: attacker }),
    );
    put(&mut l, Name::Fake(Fake::StateZeroOwned).key(), k.program, Arc::new(vec![0; STATE_LEN]));
    put(&mut l, Name::Fake(Fake::PwZeroOwned).key(), k.program, Arc::new(vec![0; PW_LEN]));
    // Mints.
    let roles = [k.state, SYSTEM, k.deployer, Name::User(ADMIN).key(), k.program, k.vault, k.xorca_mint, k.token_program];
    let (mut auth, mut sup, mut dec, mut fre, mut odec) = (Some(k.state), xsupply, 6u8, None, 6u8);
    match flaw {
        MintFlaw::None => {}
        MintFlaw::WrongAuthority => auth = Some(attacker),
        MintFlaw::NoAuthority => auth = None,
        MintFlaw::Presupply(n) => sup = n.max(1),
        MintFlaw::Freeze => fre = Some(attacker),
        MintFlaw::FreezeBy(n) => fre = Some(roles[n as usize % roles.len()]),
        MintFlaw::AuthorityBy(n) => auth = Some(roles[1 + n as usize % (roles.len() - 1)]),
        MintFlaw::Decimals(d) => dec = d,
        MintFlaw::OrcaDecimals(d) => odec = d,
        MintFlaw::Revoked | MintFlaw::Uninitialised => {}
        MintFlaw::FreezeRevoked => fre = Some(attacker),
    }
    let mut xmint = mint_bytes(auth, sup, dec, fre).as_ref().clone();
    match flaw {
        MintFlaw::Revoked => xmint[0] = 0,
        MintFlaw::FreezeRevoked => xmint[46] = 0,
        MintFlaw::Uninitialised => xmint.fill(0),
        _ => {}
    }
    put(&mut l, k.xorca_mint, k.token_program, Arc::new(xmint));
    if let MintFlaw::Presupply(n) = flaw {
        put(&mut l, Name::Xorca(ATTACKER).key(), k.token_program, token_bytes(&k.xorca_mint, &attacker, n.max(1)));
    }
    if pool {
        let mut escrow = 0u64;
        for (u, idx, amount, off) in &claims {
            let ku = Name::User(*u).key();
            let (pk, bump) = pw_key(&ku, *idx);
            let ts = cfg.start.saturating_add(*off).saturating_add(cfg.cooldown);
            put(&mut l, pk, k.program, pw_bytes(&Pw { bump, idx: *idx, unstaker: ku, amount: *amount, ts }));
            escrow += amount;
        }
        let vault = (xsupply + extra).saturating_sub(short) + escrow;
        orca_total += vault;
        put(&mut l, k.vault, k.token_program, token_bytes(&k.orca_mint, &k.state, vault));
        put(
            &mut l,
            k.state,
            k.program,
            state_bytes(&St { bump: k.state_bump, vault_bump: k.vault_bump, escrow, cooldown: cfg.cooldown, authority: Name::User(ADMIN).key() }),
        );
    }
    put(&mut l, k.orca_mint, k.token_program, mint_bytes(None, orca_total, odec, None));
    for (u, i, lamports) in &cfg.dust {
        let key = Name::Pw(*u, *i).key();
        if !l.m.contains_key(&key) && *lamports > 0 {
            l.set(key, Acct::wallet(*lamports));
        }
    }
    if cfg.ata_dust > 0 {
        for key in (0..USERS as u8).flat_map(|u| [Name::Orca(u).key(), Name::Xorca(u).key()]) {
            if !l.m.contains_key(&key) {
                l.set(key, Acct::wallet(cfg.ata_dust));
            }
        }
    }
    l
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Pending,
    Landed,
    Lost,
}
#[derive(Clone, Debug)]
pub struct Pend {
    pub spec: TxSpec,
    pub tx: Tx,
    pub status: Status,
    /// Last slot its blockhash is good for (None: signed anew whenever needed).
    pub valid_to: Option<u64>,
}
/// Ids from here on: transactions that real software outside the simulator's own clients
/// signed and sent (`World::inject`).
pub const OUTSIDE: u32 = 1_000_000;
#[derive(Clone)]
struct Snap {
    ledger: Ledger,
    ghost: Ghost,
    clock: Clock,
    landed: usize,
}
/// One landed transaction on the current fork (what a replica receives).
#[derive(Clone)]
pub struct Landed {
    pub id: u32,
    pub tx: Tx,
    pub clock: Clock,
    pub fault: Option<Fault>,
    pub digest: u64,
    pub ok: bool,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
    pub states: std::collections::HashSet<u64>,
    pub history: u64,
    pub sim_seconds: u64,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_insert(0) += n;
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.c {
            *self.c.entry(k).or_insert(0) += v;
        }
        self.states.extend(o.states.iter());
        self.sim_seconds += o.sim_seconds;
    }
}

pub struct World {
    pub cfg: Cfg,
    pub ledger: Ledger,
    pub clock: Clock,
    pub pool: BTreeMap<u32, Pend>,
    pub ghost: Ghost,
    pub mon: Monitor,
    pub stats: Stats,
    pub landed: Vec<Landed>,
    pub keep_log: bool,
    pub maker: Option<Maker>,
    pub observer: Option<Observer>,
    snaps: Vec<Snap>,
    hist: crate::prng::Fnv,
    pub genesis: Ledger,
}
impl World {
    pub fn new(cfg: &Cfg, prop: &str) -> World {
        let ledger = genesis(cfg);
        let clock = Clock { slot: 1000, unix: cfg.start };
        let ghost = Ghost::at_genesis(cfg, &ledger);
        let mut w = World {
            cfg: cfg.clone(),
            genesis: ledger.clone(),
            ledger,
            clock,
            pool: BTreeMap::new(),
            ghost,
            mon: Monitor::new(prop),
            stats: Stats::default(),
            landed: Vec::new(),
            keep_log: false,
            maker: None,
            observer: None,
            snaps: Vec::new(),
            hist: crate::prng::Fnv::new(),
        };
        w.push_snap();
        w
    }
    fn push_snap(&mut self) {
        self.snaps.push(Snap {
            ledger: self.ledger.clone(),
            ghost: self.ghost.clone(),
            clock: self.clock,
            landed: self.landed.len(),
        });
        if self.snaps.len() > 24 {
            self.snaps.remove(0);
        }
    }
    pub fn depth(&self) -> usize {
        self.snaps.len()
    }
    pub fn pending(&self) -> Vec<u32> {
        self.pool.iter().filter(|(_, p)| p.status == Status::Pending).map(|(i, _)| *i).collect()
    }
    pub fn next_id(&self) -> u32 {
        self.pool.range(..OUTSIDE).next_back().map(|(i, _)| i + 1).unwrap_or(0)
    }
    /// A transaction signed elsewhere reaches the mempool.
    pub fn inject(&mut self, id: u32, tx: Tx, valid_to: u64) {
        let spec = TxSpec { payer: Name::User(0), ixs: vec![] };
        self.pool.entry(id).or_insert(Pend { spec, tx, status: Status::Pending, valid_to: Some(valid_to) });
    }
    /// Applies one recorded step.  Steps that no longer make sense (possible while a
    /// trace is being minimised) do nothing.
    pub fn apply(&mut self, step: &Step) -> Result<(), Violation> {
        match step {
            Step::Submit { id, tx } => {
                if !self.pool.contains_key(id) {
                    if let Some(t) = tx.build_with(self.maker, *id) {
                        self.pool.insert(*id, Pend { spec: tx.clone(), tx: t, status: Status::Pending, valid_to: None });
                        self.stats.add("client_submits", 1);
                    }
                }
                Ok(())
            }
            Step::Resend { id, of } => {
                if let (false, Some(p)) = (self.pool.contains_key(id), self.pool.get(of)) {
                    let p = Pend { status: Status::Pending, ..p.clone() };
                    self.pool.insert(*id, p);
                    self.stats.add("fault_client_retry_duplicate", 1);
                }
                Ok(())
            }
            Step::Drop { id } => {
                if let Some(p) = self.pool.get_mut(id) {
                    if p.status == Status::Pending {
                        p.status = Status::Lost;
                        self.stats.add("fault_message_lost", 1);
                    }
                }
                Ok(())
            }
            Step::Block { dt } => {
                if *dt < 0 {
                    self.stats.add("fault_clock_regress", 1);
                } else {
                    if *dt > 86_400 * 7 {
                        self.stats.add("fault_clock_jump", 1);
                    }
                    if *dt == 0 {
                        self.stats.add("fault_clock_stall", 1);
                    }
                    self.stats.sim_seconds = self.stats.sim_seconds.saturating_add(*dt as u64);
                }
                self.clock = Clock { slot: self.clock.slot + 1, unix: self.clock.unix.saturating_add(*dt) };
                self.push_snap();
                self.stats.add("blocks", 1);
                self.hist.u64(0xB10C);
                self.note_state();
                Ok(())
            }
            Step::Reorg { depth } => {
                let n = self.snaps.len();
                let d = (*depth as usize).min(n - 1);
                let s = self.snaps[n - 1 - d].clone();
                self.snaps.truncate(n - d);
                let mut back = 0;
                for l in self.landed.split_off(s.landed) {
                    if let Some(p) = self.pool.get_mut(&l.id) {
                        p.status = Status::Pending;
                        back += 1;
                    }
                }
                self.ledger = s.ledger;
                self.ghost = s.ghost;
                self.clock = s.clock;
                self.stats.add(if d == 0 { "fault_leader_crash_open_block_lost" } else { "fault_fork_abandoned" }, 1);
                self.stats.add("txs_rolled_back", back);
                self.hist.u64(0xF04C + d as u64);
                Ok(())
            }
            Step::Land { id, fault } => self.land(*id, *fault),
            Step::Drill => {
                self.stats.add("exit_drills", 1);
                self.mon.drill(&self.ledger, self.clock, &mut self.stats)
            }
        }
    }
    fn land(&mut self, id: u32, fault: Option<Fault>) -> Result<(), Violation> {
        let Some(p) = self.pool.get_mut(&id) else { return Ok(()) };
        if p.status != Status::Pending {
            return Ok(());
        }
        if p.valid_to.is_some_and(|s| self.clock.slot > s) {
            p.status = Status::Lost;
            self.stats.add("fault_blockhash_expired", 1);
            return Ok(());
        }
        p.status = Status::Landed;
        let tx = p.tx.clone();
        let spec = self.observer.map(|_| p.spec.clone());
        let pre = self.ledger.clone();
        let out = execute(&mut self.ledger, &tx, self.clock, fault);
        self.stats.add("txs_landed", 1);
        self.stats.add(if out.ok() { "txs_ok" } else { "txs_failed" }, 1);
        if out.fault_fired {
            self.stats.add(
                match fault.map(|f| f.kind) {
                    Some(FaultKind::Kill) => "fault_tx_killed_mid_execution",
                    _ => "fault_syscall_error",
                },
                1,
            );
        }
        for t in &out.ixs {
            self.hist.u64(t.ix.data.first().copied().unwrap_or(255) as u64 | (t.result.is_ok() as u64) << 8);
            self.hist.u64(t.ix.accounts.first().map(|a| a.key[0] as u64).unwrap_or(0));
        }
        self.stats.history = self.hist.finish();
        let digest = if self.keep_log { outcome_digest(&out, &self.ledger) } else { 0 };
        self.landed.push(Landed { id, tx: tx.clone(), clock: self.clock, fault, digest, ok: out.ok() });
        let r = self.mon.after_tx(&tx, &out, &pre, &self.ledger, self.clock, &mut self.ghost, &mut self.stats);
        self.note_state();
        if let (Some(f), Some(spec)) = (self.observer, spec) {
            f(&spec, &tx, &out, &self.ledger, self.clock, &mut self.stats)?;
        }
        r
    }
    /// Abstract state reached, for the coverage count.
    fn note_state(&mut self) {
        let mut h = crate::prng::Fnv::new();
        let lg = |x: u64| 64 - x.leading_zeros() as u64;
        match state(&self.ledger) {
            None => h.u64(0),
            Some(s) => {
                let v = vault_amount(&self.ledger);
                h.u64(lg(v.saturating_sub(s.escrow)));
                h.u64(lg(supply(&self.ledger)));
                h.u64(lg(s.escrow));
                h.u64(lg(s.cooldown as u64));
                h.bytes(&s.authority[..2]);
                for (_, p) in claims(&self.ledger) {
                    h.u64(p.idx as u64 | (p.unstaker[0] as u64) << 8 | ((p.ts <= self.clock.unix) as u64) << 20);
                }
            }
        }
        self.stats.states.insert(h.finish());
    }
}

/// Everything a validator would report about one transaction.
pub fn outcome_digest(out: &TxOut, after: &Ledger) -> u64 {
    let mut h = crate::prng::Fnv::new();
    h.bytes(format!("{:?}", out.err).as_bytes());
    h.u64(out.fee);
    h.u64(out.syscalls as u64);
    for t in &out.ixs {
        for e in &t.events {
            h.bytes(e);
        }
        h.u64(t.events.len() as u64);
    }
    h.u64(after.digest());
    h.finish()
}
