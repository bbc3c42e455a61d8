//! What the demonstrations share: the real program on a small simulated ledger.
#![allow(dead_code)]
pub use xsim::abi::*;
pub use xsim::svm::*;
use xsim::world::{genesis, Boot, Cfg, MintFlaw, FAUCET};

pub struct Sim {
    pub l: Ledger,
    pub now: i64,
}
fn cfg(boot: Boot, cooldown: i64) -> Cfg {
    Cfg { boot, orca: vec![1_000_000_000_000; 8], lamports: vec![10_000_000_000; 8], cooldown, start: 1_700_000_000, no_orca_ata: 0, no_xorca_ata: 0, dust: vec![], ata_dust: 0, rent: 0 }
}
impl Sim {
    /// A running pool: `held[u]` xORCA per wallet, `extra` ORCA on top of 1:1 backing.
    pub fn pool(held: &[u64], extra: u64, cooldown: i64) -> Sim {
        init();
        let mut h = held.to_vec();
        h.resize(8, 0);
        let c = cfg(Boot::Pool { held: h, extra, short: 0, claims: vec![] }, cooldown);
        Sim { l: genesis(&c), now: c.start }
    }
    pub fn empty() -> Sim {
        init();
        let c = cfg(Boot::Uninit { flaw: MintFlaw::None }, 0);
        Sim { l: genesis(&c), now: c.start }
    }
    pub fn tx(&mut self, ixs: &[Ix]) -> TxOut {
        let tx = Tx { payer: Name::User(FAUCET).key(), ixs: ixs.to_vec() };
        let slot = 5;
        execute(&mut self.l, &tx, Clock { slot, unix: self.now }, None)
    }
    pub fn must(&mut self, ixs: &[Ix]) -> TxOut {
        let o = self.tx(ixs);
        check(o.ok(), &format!("a valid transaction was refused: {:?}", o.err));
        o
    }
    pub fn st(&self) -> St {
        state(&self.l).expect("pool state")
    }
    pub fn claim(&self, u: u8, idx: u8) -> Option<Pw> {
        pw(&self.l, &user(u), idx)
    }
    pub fn owed(&self) -> u64 {
        claims(&self.l).iter().map(|(_, p)| p.amount).sum()
    }
    pub fn orca(&self, u: u8) -> u64 {
        tok(&self.l, &Name::Orca(u).key()).map_or(0, |t| t.amount)
    }
    pub fn xorca(&self, u: u8) -> u64 {
        tok(&self.l, &Name::Xorca(u).key()).map_or(0, |t| t.amount)
    }
    pub fn backing(&self) -> u64 {
        vault_amount(&self.l) - self.st().escrow
    }
    pub fn supply(&self) -> u64 {
        supply(&self.l)
    }
}
pub fn user(u: u8) -> Key {
    Name::User(u).key()
}
pub fn stake(u: u8, amount: u64) -> Ix {
    canonical(&Op::Stake { amount }, &user(u), &SYSTEM, &Name::Orca(u).key(), &Name::Xorca(u).key())
}
pub fn unstake(u: u8, amount: u64, idx: u8) -> Ix {
    canonical(&Op::Unstake { amount, idx }, &user(u), &SYSTEM, &SYSTEM, &Name::Xorca(u).key())
}
pub fn withdraw(u: u8, idx: u8) -> Ix {
    canonical(&Op::Withdraw { idx }, &user(u), &SYSTEM, &Name::Orca(u).key(), &SYSTEM)
}
pub fn initialize(cooldown: i64) -> Ix {
    canonical(&Op::Init { cooldown }, &user(6), &k().deployer, &SYSTEM, &SYSTEM)
}
pub fn set_cooldown(by: Key, cooldown: i64) -> Ix {
    canonical(&Op::SetCooldown { cooldown }, &by, &SYSTEM, &SYSTEM, &SYSTEM)
}
pub fn set_authority(by: Key, to: Key) -> Ix {
    canonical(&Op::SetAuthority { to }, &by, &SYSTEM, &SYSTEM, &SYSTEM)
}
pub const ADMIN: u8 = 6;
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
