//! The seeded scheduler: decides, step by step, what clients send, what the network and
//! the leader do with it, how time passes and which faults strike.
use crate::abi::*;
use crate::prng::Rng;
use crate::svm::{rent_min, set_rent, Fault, FaultKind, Key, Ledger};
use crate::world::*;

#[derive(Clone, Debug)]
struct Weights {
    stake: u64,
    unstake: u64,
    withdraw: u64,
    combo: u64,
    set_cd: u64,
    set_auth: u64,
    usurp: u64,
    init: u64,
    donate: u64,
    prefund: u64,
    burn: u64,
    mv: u64,
    approve: u64,
    close: u64,
    ata: u64,
    mutant: u64,
    garbage: u64,
}
pub struct Gen {
    rng: Rng,
    prop: String,
    w: Weights,
    users: Vec<u8>,
    idxs: Vec<u8>,
    /// Percentages.
    p_drop: u64,
    p_resend: u64,
    p_reorg: u64,
    p_fault: u64,
    p_block: u64,
    p_drill: u64,
    p_hold: u64,
    amount_style: u64,
    clock_style: u64,
    pub steps: u32,
    done: u32,
}

const WEEK: i64 = 7 * 86_400;

pub fn gen_cfg(rng: &mut Rng, prop: &str) -> Cfg {
    let p_uninit = match prop {
        "P11" => 100,
        "P14" => 45,
        "P13" | "P16" | "P18" | "T01" | "T02" => 20,
        "P10" | "P12" => 12,
        _ => 10,
    };
    // Another cluster, another rent rate.
    let rent = match rng.below(12) {
        0 => 1,
        1 => 348,
        2 => 6_960,
        3 => 1 + rng.log(20_000),
        _ => 0,
    };
    set_rent(rent);
    let cooldown = match rng.below(10) {
        0 => 0,
        1 => 1,
        2 | 3 => rng.range(2, 100) as i64,
        4 | 5 => WEEK,
        6 => rng.log(1 << 40) as i64,
        7 => rng.log(i64::MAX as u64) as i64,
        8 => rng.range(100, 100_000) as i64,
        _ => {
            if rng.pct(20) {
                i64::MAX - rng.below(3) as i64
            } else {
                30 * 86_400
            }
        }
    };
    let start = match rng.below(12) {
        0 => 0,
        1 => -(rng.log(1 << 40) as i64),
        2 => i64::MAX - cooldown.min(i64::MAX - 1) - rng.below(2000) as i64,
        _ => 1_700_000_000 + rng.below(100_000_000) as i64,
    };
    let mut budget = u64::MAX - 4_000_000;
    let mut take = |rng: &mut Rng, want: u64| {
        let _ = &rng;
        let x = want.min(budget);
        budget -= x;
        x
    };
    let scale = rng.below(8);
    let boot = if rng.pct(p_uninit) {
        let flaw = match prop {
            "P11" if rng.pct(45) => match rng.below(11) {
                0 => MintFlaw::WrongAuthority,
                1 => MintFlaw::NoAuthority,
                2 => {
                    let n = rng.log(1 << 40).max(1);
                    MintFlaw::Presupply(n)
                }
                3 => MintFlaw::Freeze,
                4 => MintFlaw::Decimals(*rng.pick(&[0u8, 5, 7, 9, 255])),
                5 => MintFlaw::Revoked,
                6 => MintFlaw::FreezeRevoked,
                7 => MintFlaw::Uninitialised,
                8 => MintFlaw::FreezeBy(rng.below(8) as u8),
                9 => MintFlaw::AuthorityBy(rng.below(8) as u8),
                _ => MintFlaw::OrcaDecimals(*rng.pick(&[0u8, 5, 7, 9, 255])),
            },
            "T01" | "T02" if rng.pct(50) => MintFlaw::WrongAuthority,
            _ => MintFlaw::None,
        };
        Boot::Uninit { flaw }
    } else {
        let (smax, emax) = match scale {
            0 => (200, 300),
            1 => (1 << 20, 0),
            2 => (50, 1 << 45),
            3 => (1 << 58, 1 << 61),
            4 => (0, if rng.pct(50) { 0 } else { 1 << 40 }),
            5 => (1 << 44, 1 << 44),
            6 => (1 << 30, 2000),
            _ => (100_000_000_000, 20_000_000_000),
        };
        let holders = rng.range(1, 5) as usize;
        let mut held = vec![0u64; USERS as usize];
        for h in held.iter_mut().take(holders) {
            let w = if smax == 0 { 0 } else { rng.log(smax) };
            *h = take(rng, w);
        }
        let mut e = if emax == 0 { 0 } else { rng.log(emax) };
        if scale == 3 && rng.pct(25) {
            // Amounts that no longer fit a signed word.
            e = (1 << 63) - rng.log(1 << 60) + rng.log(1 << 61);
        }
        let extra = take(rng, e);
        let mut claims = Vec::new();
        if rng.pct(60) {
            for _ in 0..rng.range(1, 4) {
                let i = if rng.pct(30) { edge_idx(rng) } else { *rng.pick(&[0u8, 1, 2, 3, 128, 255]) };
                let u = rng.below(5) as u8;
                if !claims.iter().any(|(a, b, _, _)| (*a, *b) == (u, i)) {
                    let a = rng.log(1 << 42).max(1);
                    let a = take(rng, a);
                    let off = match rng.below(4) {
                        0 => -cooldown,
                        1 => -cooldown.saturating_add(1),
                        2 => -(cooldown / 2),
                        _ => -(rng.log(1 << 30) as i64),
                    };
                    claims.push((u, i, a, off));
                }
            }
        }
        // A pool worth less than its supply is no reachable state; pricing, atomicity and
        // reporting must be exact on it all the same (and only they are asked there).
        let backing = held.iter().sum::<u64>().saturating_add(extra);
        let anywhere = matches!(prop, "P04" | "P13" | "P16" | "C01" | "C02" | "C03" | "C05" | "J01" | "J02" | "J03");
        let short = if anywhere && rng.pct(6) {
            if rng.pct(20) { backing } else { rng.log(backing) }
        } else {
            0
        };
        Boot::Pool { held, extra, short, claims }
    };
    let omax = match scale {
        0 | 6 => *rng.pick(&[100u64, 1000, 100_000]),
        3 => 1 << 61,
        2 => 1 << 50,
        _ => 1 << 44,
    };
    let mut orca = Vec::new();
    for u in 0..USERS {
        let w = if u == ATTACKER || u == DONOR || rng.pct(85) { rng.log(omax) } else { 0 };
        let w = if u == DONOR { w.max(omax / 2) } else { w };
        orca.push(take(rng, w));
    }
    let mut lamports = Vec::new();
    for _ in 0..USERS {
        lamports.push(match rng.below(12) {
            0 => rent_min(0) + rng.below(20_000),
            1 => rent_min(1024) + rng.below(2_000_000),
            _ => 10_000_000_000 + rng.below(1_000_000_000),
        });
    }
    let mut dust = Vec::new();
    if rng.pct(15) {
        for _ in 0..rng.range(1, 3) {
            dust.push((rng.below(5) as u8, *rng.pick(&[0u8, 1, 2, 3, 128, 255]), rng.log(rent_min(0))));
        }
    }
    Cfg {
        boot,
        orca,
        lamports,
        cooldown,
        start,
        no_orca_ata: if rng.pct(if prop.starts_with('T') { 50 } else { 20 }) { rng.below(256) as u8 } else { 0 },
        no_xorca_ata: if rng.pct(20) { rng.below(256) as u8 } else { 0 },
        dust,
        ata_dust: match rng.below(if prop.starts_with('T') { 6 } else { 14 }) {
            0 => rng.log(rent_min(0)),
            1 => rent_min(0) + rng.log(rent_min(165)),
            2 => rent_min(165) + rng.below(3),
            _ => 0,
        },
        rent,
    }
}

fn ix(kind: Kind) -> IxSpec {
    IxSpec::plain(kind)
}
fn one(payer: Name, kind: Kind) -> TxSpec {
    TxSpec { payer, ixs: vec![ix(kind)] }
}
fn user_of(key: &Key) -> Option<Name> {
    (0..=FAUCET).map(Name::User).find(|n| &n.key() == key)
}

/// Role played by each account position of an instruction.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Role {
    User,
    Vault,
    Orca,
    Xorca,
    XMint,
    OMint,
    State,
    Pw,
    TokP,
    SysP,
    AtaP,
}
fn roles(k: &Kind) -> &'static [Role] {
    use Role::*;
    match k {
        Kind::Stake { .. } => &[User, Vault, Orca, Xorca, XMint, State, OMint, TokP],
        Kind::Unstake { .. } => &[User, State, Pw, Xorca, XMint, OMint, Vault, SysP, TokP],
        Kind::Withdraw { .. } => &[User, State, Pw, Orca, Vault, OMint, SysP, TokP],
        Kind::Init { .. } => &[User, User, State, Vault, XMint, OMint, SysP, TokP, AtaP],
        Kind::SetCooldown { .. } | Kind::SetAuthority { .. } => &[User, State],
        _ => &[],
    }
}

/// An index near the default limit of a listing, a whole request or a bit boundary, or any.
fn edge_idx(rng: &mut Rng) -> u8 {
    let near = [0u8, 1, 13, 14, 15, 16, 31, 32, 63, 64, 98, 99, 100, 101, 127, 128, 199, 200, 201, 254, 255];
    if rng.pct(75) {
        *rng.pick(&near)
    } else {
        rng.below(256) as u8
    }
}

impl Gen {
    pub fn new(seed: u64, prop: &str, deep: bool) -> (Gen, Cfg) {
        let mut rng = Rng::new(seed);
        let cfg = gen_cfg(&mut rng, prop);
        let mut w = Weights {
            stake: 20,
            unstake: 20,
            withdraw: 18,
            combo: 9,
            set_cd: 3,
            set_auth: 2,
            usurp: 2,
            init: 2,
            donate: 6,
            prefund: 4,
            burn: 3,
            mv: 4,
            approve: 1,
            close: 1,
            ata: 2,
            mutant: 6,
            garbage: 2,
        };
        // Swarm: features are switched off or up at random per run.
        for f in [
            &mut w.combo, &mut w.set_cd, &mut w.set_auth, &mut w.usurp, &mut w.donate, &mut w.prefund, &mut w.burn, &mut w.mv,
            &mut w.approve, &mut w.close, &mut w.ata, &mut w.mutant, &mut w.garbage, &mut w.stake,
        ] {
            *f *= *rng.pick(&[0, 1, 1, 1, 1, 3]);
        }
        match prop {
            "P12" => w.mutant = 120,
            "P09" => {
                w.mutant += 40;
                w.usurp += 10;
            }
            "P10" => {
                w.set_cd += 20;
                w.set_auth += 20;
                w.usurp += 25;
            }
            "P11" => {
                w.init = 60;
                w.prefund += 10;
            }
            "P13" => {
                w.combo += 10;
                w.garbage += 8;
                w.mutant += 15;
                w.set_cd += 4;
            }
            "P14" => {
                w.prefund += 22;
                w.donate += 8;
                w.ata += 4;
                w.init = 20;
                w.burn += 4;
            }
            "P16" => {
                w.set_auth += 6;
                w.combo += 8;
            }
            "P18" => w.prefund += 20,
            "P03" | "P04" | "P05" => {
                w.stake += 10;
                w.donate += 4;
                w.burn += 4;
            }
            "P06" => {
                w.set_cd += 12;
                w.withdraw += 10;
            }
            "P07" | "P08" => {
                w.unstake += 8;
                w.withdraw += 12;
                w.combo += 8;
                w.mutant += 8;
            }
            _ => {}
        }
        let n = rng.range(1, 5) as u8;
        let users: Vec<u8> = (0..n).collect();
        // Listings: the indices around the default limit and around whole requests.
        let edges = rng.pct(if matches!(prop, "C04" | "J04" | "T04") { 50 } else { 15 });
        let idxs = match rng.below(4) {
            _ if edges => {
                let mut v: Vec<u8> = (0..rng.range(2, 7)).map(|_| edge_idx(&mut rng)).collect();
                v.sort();
                v.dedup();
                v
            }
            0 => vec![0],
            1 => vec![0, 1],
            2 => vec![0, 1, 2, 3, 255],
            _ => vec![0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 254, 255],
        };
        let steps = if deep { rng.range(60, 400) } else { rng.range(40, 140) } as u32;
        let heavy_faults = rng.pct(25);
        let lvl = |r: &mut Rng, hi: u64| if r.pct(35) { 0 } else { r.below(hi) + 1 };
        let (p_drop, p_resend, p_reorg, p_fault) = if heavy_faults {
            (lvl(&mut rng, 20), lvl(&mut rng, 20), lvl(&mut rng, 10), lvl(&mut rng, 40))
        } else {
            (lvl(&mut rng, 6), lvl(&mut rng, 8), lvl(&mut rng, 4), lvl(&mut rng, 10))
        };
        let g = Gen {
            p_drop,
            p_resend,
            p_reorg,
            p_fault,
            p_block: rng.range(6, 25),
            p_drill: if prop == "P15" { 6 } else { 0 },
            p_hold: *rng.pick(&[0, 10, 40, 70]),
            amount_style: rng.below(4),
            clock_style: rng.below(5),
            rng,
            prop: prop.into(),
            w,
            users,
            idxs,
            steps,
            done: 0,
        };
        (g, cfg)
    }

    /// The next step, or None when the run is over.
    pub fn next(&mut self, w: &World) -> Option<Step> {
        if self.done >= self.steps {
            if self.prop == "P15" && self.done == self.steps {
                self.done += 1;
                return Some(Step::Drill);
            }
            return None;
        }
        self.done += 1;
        let pending = w.pending();
        let r = &mut self.rng;
        if r.pct(self.p_drill) {
            return Some(Step::Drill);
        }
        if r.pct(self.p_block) {
            return Some(Step::Block { dt: self.dt(w) });
        }
        if r.pct(self.p_reorg) && w.depth() > 1 {
            let d = match r.below(4) {
                0 => 0,
                1 | 2 => r.range(1, 3),
                _ => r.range(1, w.depth() as u64),
            };
            return Some(Step::Reorg { depth: d as u32 });
        }
        if !pending.is_empty() && (pending.len() >= 6 || !r.pct(self.p_hold)) {
            let id = *r.pick(&pending);
            if r.pct(self.p_drop) {
                return Some(Step::Drop { id });
            }
            let fault = if r.pct(self.p_fault) {
                Some(Fault { at: r.below(9) as u32, kind: if r.pct(60) { FaultKind::Kill } else { FaultKind::Error } })
            } else {
                None
            };
            return Some(Step::Land { id, fault });
        }
        if r.pct(self.p_resend) && w.next_id() > 0 {
            let ids: Vec<u32> = w.pool.keys().copied().filter(|i| *i < OUTSIDE).collect();
            let lo = ids.len().saturating_sub(8);
            let of = *r.pick(&ids[lo..]);
            return Some(Step::Resend { id: w.next_id(), of });
        }
        let tx = self.tx(w);
        Some(Step::Submit { id: w.next_id(), tx })
    }

    fn dt(&mut self, w: &World) -> i64 {
        let cl = claims(&w.ledger);
        let r = &mut self.rng;
        if !cl.is_empty() && r.pct(45) {
            let (_, p) = r.pick(&cl);
            let d = p.ts as i128 - w.clock.unix as i128 + *r.pick(&[-1i128, 0, 0, 1]);
            if d > 0 && d < i64::MAX as i128 && (self.clock_style != 0) {
                return d as i64;
            }
        }
        match (self.clock_style, r.below(12)) {
            (_, 0) => 0,
            (1, 1) => -(r.log(100_000) as i64),
            (2, 1) => r.log(i64::MAX as u64) as i64,
            (_, 2) => state(&w.ledger).map(|s| s.cooldown).unwrap_or(1),
            (3, 3..=6) => r.log(WEEK as u64 * 10) as i64,
            (_, 3) => r.log(1 << 33) as i64,
            _ => 1 + r.below(30) as i64,
        }
    }

    fn weighted(&mut self, v: &[u64]) -> usize {
        let sum: u64 = v.iter().sum();
        let mut x = self.rng.below(sum.max(1));
        for (i, w) in v.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
    fn user(&mut self) -> u8 {
        *self.rng.pick(&self.users)
    }
    fn anyone(&mut self) -> u8 {
        if self.rng.pct(60) {
            self.user()
        } else {
            *self.rng.pick(&[ATTACKER, DONOR, ADMIN, ADMIN2])
        }
    }
    fn idx(&mut self) -> u8 {
        *self.rng.pick(&self.idxs)
    }

    fn stake_amount(&mut self, l: &Ledger, u: Name, acct: Name) -> u64 {
        let bal = tok(l, &acct.key()).map(|t| t.amount).unwrap_or(0);
        let _ = u;
        let st = state(l);
        let n = vault_amount(l).saturating_sub(st.map(|s| s.escrow).unwrap_or(0)) as u128 + 100;
        let s = supply(l) as u128 + 100;
        let unit = (n / s).min(u64::MAX as u128) as u64;
        let r = &mut self.rng;
        match (self.amount_style, r.below(14)) {
            (_, 0) => bal,
            (_, 1) => unit.saturating_add(r.below(3)).saturating_sub(1).min(bal),
            (_, 2) => {
                // Just around a whole number of xORCA: where rounding shows.
                let kx = r.log(1000) as u128;
                (((kx * n).div_ceil(s)).min(u64::MAX as u128) as u64).saturating_sub(r.below(2)).min(bal)
            }
            (_, 3) => bal.saturating_add(1),
            (3, 4) => u64::MAX - r.below(2),
            (_, 5) => 0,
            (1, 6..=9) => r.log(10),
            (2, 6..=9) => r.range(bal / 2, bal),
            _ => r.log(bal),
        }
    }
    fn unstake_amount(&mut self, l: &Ledger, acct: Name) -> u64 {
        let bal = tok(l, &acct.key()).map(|t| t.amount).unwrap_or(0);
        let r = &mut self.rng;
        match (self.amount_style, r.below(14)) {
            (_, 0 | 1) => bal,
            (_, 2) => bal.saturating_sub(1),
            (_, 3) => 1.min(bal),
            (_, 4) => bal.saturating_add(1),
            (3, 5) => u64::MAX,
            (_, 6) => 0,
            (1, 7..=10) => r.log(10.min(bal)),
            (2, 7..=10) => r.range(bal / 2, bal),
            _ => r.log(bal),
        }
    }
    fn orca_acct(&mut self, u: u8) -> Name {
        if self.rng.pct(8) {
            Name::Orca2(u)
        } else {
            Name::Orca(u)
        }
    }
    fn xorca_acct(&mut self, l: &Ledger, u: u8) -> Name {
        let b = |n: Name| tok(l, &n.key()).map(|t| t.amount).unwrap_or(0);
        if b(Name::Xorca2(u)) > 0 && self.rng.pct(50) || self.rng.pct(6) {
            Name::Xorca2(u)
        } else {
            Name::Xorca(u)
        }
    }
    fn stake(&mut self, l: &Ledger, u: u8) -> Kind {
        let orca = self.orca_acct(u);
        let orca = if tok(l, &orca.key()).map(|t| t.amount).unwrap_or(0) == 0 { Name::Orca(u) } else { orca };
        let xorca = if self.rng.pct(10) { Name::Xorca2(u) } else { Name::Xorca(u) };
        let amount = self.stake_amount(l, Name::User(u), orca);
        Kind::Stake { u: Name::User(u), amount, orca, xorca }
    }
    fn unstake(&mut self, l: &Ledger, u: u8) -> Kind {
        let xorca = self.xorca_acct(l, u);
        let amount = self.unstake_amount(l, xorca);
        let idx = self.idx();
        Kind::Unstake { u: Name::User(u), amount, idx, xorca }
    }
    fn withdraw(&mut self, l: &Ledger, u: u8) -> Kind {
        let key = Name::User(u).key();
        let mine: Vec<u8> = claims(l).iter().filter(|(_, p)| p.unstaker == key).map(|(_, p)| p.idx).collect();
        let idx = if !mine.is_empty() && self.rng.pct(85) { *self.rng.pick(&mine) } else { self.idx() };
        let orca = self.orca_acct(u);
        Kind::Withdraw { u: Name::User(u), idx, orca }
    }
    fn cooldown(&mut self) -> i64 {
        let r = &mut self.rng;
        match r.below(10) {
            0 | 1 => 0,
            2 => 1,
            3 => -1,
            4 => -(r.log(i64::MAX as u64) as i64),
            5 => i64::MAX - r.below(2) as i64,
            6 => i64::MIN,
            7 => WEEK,
            _ => r.log(1 << 22) as i64,
        }
    }
    fn authority(&self, l: &Ledger) -> Name {
        state(l).and_then(|s| user_of(&s.authority)).unwrap_or(Name::User(ADMIN))
    }

    fn tx(&mut self, w: &World) -> TxSpec {
        let l = &w.ledger;
        if state(l).is_none() && self.rng.pct(if self.prop == "P14" || self.prop == "P11" { 25 } else { 60 }) {
            return self.init_tx();
        }
        let ww = self.w.clone();
        let pick = self.weighted(&[
            ww.stake, ww.unstake, ww.withdraw, ww.combo, ww.set_cd, ww.set_auth, ww.usurp, ww.init, ww.donate, ww.prefund, ww.burn,
            ww.mv, ww.approve, ww.close, ww.ata, ww.mutant, ww.garbage,
        ]);
        match pick {
            0 => {
                let u = self.user();
                let kd = self.stake(l, u);
                one(Name::User(u), kd)
            }
            1 => {
                let u = self.user();
                let kd = self.unstake(l, u);
                one(Name::User(u), kd)
            }
            2 => {
                let u = self.claimant(l);
                let kd = self.withdraw(l, u);
                one(Name::User(u), kd)
            }
            3 => self.combo(l),
            4 => {
                let by = self.authority(l);
                let cooldown = self.cooldown();
                one(by, Kind::SetCooldown { by, cooldown })
            }
            5 => {
                let by = self.authority(l);
                let to = match self.rng.below(8) {
                    0 => Name::State,
                    1 => Name::SystemProgram,
                    2 => by,
                    3 => Name::User(self.user()),
                    4 | 5 => Name::User(ADMIN2),
                    _ => Name::User(ADMIN),
                };
                one(by, Kind::SetAuthority { by, to })
            }
            6 => self.usurp(l),
            7 => self.init_tx(),
            8 => {
                let amount = match self.rng.below(4) {
                    0 => 1,
                    1 => self.rng.log(1000),
                    _ => self.rng.log(tok(l, &Name::Orca(DONOR).key()).map(|t| t.amount).unwrap_or(0)),
                };
                let by = if self.rng.pct(80) { DONOR } else { self.anyone() };
                one(Name::User(by), Kind::Tok { from: Name::Orca(by), to: Name::Vault, by: Name::User(by), amount })
            }
            9 => self.prefund(),
            10 => {
                let u = self.anyone();
                let acct = self.xorca_acct(l, u);
                let bal = tok(l, &acct.key()).map(|t| t.amount).unwrap_or(0);
                let amount = if self.rng.pct(40) { bal } else { self.rng.log(bal) };
                one(Name::User(u), Kind::Burn { acct, mint: Name::XorcaMint, by: Name::User(u), amount })
            }
            11 => {
                let (u, v) = (self.anyone(), self.anyone());
                if self.rng.pct(50) {
                    let acct = self.xorca_acct(l, u);
                    let amount = self.rng.log(tok(l, &acct.key()).map(|t| t.amount).unwrap_or(0));
                    let to = if self.rng.pct(25) { Name::Xorca2(v) } else { Name::Xorca(v) };
                    one(Name::User(u), Kind::Tok { from: acct, to, by: Name::User(u), amount })
                } else {
                    let amount = self.rng.log(tok(l, &Name::Orca(u).key()).map(|t| t.amount).unwrap_or(0));
                    let to = if self.rng.pct(25) { Name::Orca2(v) } else { Name::Orca(v) };
                    one(Name::User(u), Kind::Tok { from: Name::Orca(u), to, by: Name::User(u), amount })
                }
            }
            12 => {
                let u = self.user();
                let acct = if self.rng.pct(50) { Name::Xorca(u) } else { Name::Orca(u) };
                let to = *self.rng.pick(&[Name::User(ATTACKER), Name::State, Name::User(ADMIN), Name::User(u)]);
                let amount = self.rng.log(u64::MAX);
                one(Name::User(u), Kind::Approve { acct, to, by: Name::User(u), amount })
            }
            13 => {
                let u = self.user();
                let acct = *self.rng.pick(&[Name::Orca(u), Name::Xorca(u), Name::Orca2(u), Name::Xorca2(u)]);
                one(Name::User(u), Kind::CloseTok { acct, to: Name::User(u), by: Name::User(u) })
            }
            14 => self.create_ata(),
            15 => self.mutant(l),
            _ => self.garbage(l),
        }
    }
    fn claimant(&mut self, l: &Ledger) -> u8 {
        let cl = claims(l);
        if !cl.is_empty() && self.rng.pct(80) {
            let (_, p) = self.rng.pick(&cl);
            if let Some(Name::User(u)) = user_of(&p.unstaker) {
                return u;
            }
        }
        self.user()
    }
    fn create_ata(&mut self) -> TxSpec {
        let u = self.anyone();
        let owner = if self.rng.pct(30) { Name::State } else { Name::User(u) };
        let mint = if self.rng.pct(60) { Name::OrcaMint } else { Name::XorcaMint };
        let payer = Name::User(if self.rng.pct(30) { ATTACKER } else { FAUCET });
        let idem = self.rng.pct(60);
        one(payer, Kind::CreateAta { payer, owner, mint, idem })
    }
    fn prefund(&mut self) -> TxSpec {
        let u = self.user();
        let to = match self.rng.below(12) {
            0 => Name::State,
            1 => Name::Vault,
            2 => Name::XorcaMint,
            3 => Name::User(u),
            4 => Name::Orca(u),
            _ => Name::Pw(u, self.idx()),
        };
        let full = rent_min(1024);
        let lamports = match self.rng.below(10) {
            0 => rent_min(0),
            1 => full - 1,
            2 => full,
            3 => full + 1,
            4 => full + self.rng.below(1_000_000_000),
            5 => rent_min(2048) + self.rng.below(3) - 1,
            6 => rent_min(165) + self.rng.below(3) - 1,
            7 => 1 + self.rng.below(1000),
            _ => self.rng.range(rent_min(0), full),
        };
        let from = Name::User(if self.rng.pct(60) { FAUCET } else { ATTACKER });
        one(from, Kind::Sol { from, to, lamports })
    }
    fn init_tx(&mut self) -> TxSpec {
        if self.prop == "P14" && self.rng.pct(35) || self.prop == "P12" && self.rng.pct(20) {
            return if self.rng.pct(50) {
                one(Name::User(ATTACKER), Kind::CreateAta { payer: Name::User(ATTACKER), owner: Name::State, mint: Name::OrcaMint, idem: false })
            } else {
                self.prefund()
            };
        }
        let cooldown = if self.rng.pct(75) { self.rng.log(1 << 21) as i64 } else { self.cooldown() };
        let authority = *self.rng.pick(&[Name::User(ADMIN), Name::User(ADMIN), Name::User(ADMIN2), Name::User(0), Name::Deployer]);
        let hostile = self.rng.pct(if self.prop == "P11" { 55 } else { 15 });
        if !hostile {
            return one(Name::Deployer, Kind::Init { payer: Name::Deployer, authority, cooldown });
        }
        match self.rng.below(5) {
            0 => one(Name::User(ATTACKER), Kind::Init { payer: Name::User(ATTACKER), authority: Name::User(ATTACKER), cooldown }),
            1 => {
                // The deployer's account is named, but it does not sign.
                let mut i = ix(Kind::Init { payer: Name::Deployer, authority: Name::User(ATTACKER), cooldown });
                i.muts.push(Mut::NoSign { pos: 0 });
                TxSpec { payer: Name::User(ATTACKER), ixs: vec![i] }
            }
            2 => {
                let mut i = ix(Kind::Init { payer: Name::Deployer, authority: Name::User(ADMIN), cooldown });
                i.muts.push(Mut::NoSign { pos: 1 });
                TxSpec { payer: Name::Deployer, ixs: vec![i] }
            }
            3 => {
                let i = ix(Kind::Init { payer: Name::Deployer, authority, cooldown });
                let j = ix(Kind::Init { payer: Name::Deployer, authority: Name::User(ADMIN2), cooldown: cooldown ^ 1 });
                TxSpec { payer: Name::Deployer, ixs: vec![i, j] }
            }
            _ => {
                let i = ix(Kind::Init { payer: Name::Deployer, authority, cooldown });
                let i = self.mutate(i);
                TxSpec { payer: Name::Deployer, ixs: vec![i] }
            }
        }
    }
    fn usurp(&mut self, l: &Ledger) -> TxSpec {
        let real = self.authority(l);
        let bad = *self.rng.pick(&[Name::User(ATTACKER), Name::User(0), Name::User(ADMIN), Name::User(ADMIN2), Name::Deployer]);
        let kd = if self.rng.pct(50) {
            Kind::SetCooldown { by: bad, cooldown: self.rng.log(1000) as i64 }
        } else {
            Kind::SetAuthority { by: bad, to: bad }
        };
        match self.rng.below(3) {
            0 => one(bad, kd),
            1 => {
                // Names the real authority without its signature.
                let mut i = ix(match kd {
                    Kind::SetCooldown { cooldown, .. } => Kind::SetCooldown { by: real, cooldown },
                    _ => Kind::SetAuthority { by: real, to: bad },
                });
                i.muts.push(Mut::NoSign { pos: 0 });
                let payer = if bad == real { Name::User(FAUCET) } else { bad };
                TxSpec { payer, ixs: vec![i] }
            }
            _ => {
                let mut i = ix(kd);
                let name = *self.rng.pick(&[Name::Fake(Fake::StateForged), Name::Fake(Fake::StateZeroOwned), Name::Fake(Fake::PwZeroOwned), Name::Pw(4, 0)]);
                i.muts.push(Mut::Subst { pos: 1, name });
                TxSpec { payer: bad, ixs: vec![i] }
            }
        }
    }
    fn combo(&mut self, l: &Ledger) -> TxSpec {
        let u = self.user();
        let me = Name::User(u);
        let mut ixs: Vec<IxSpec> = Vec::new();
        match self.rng.below(8) {
            0 => {
                // Round trip inside one transaction.
                let s = self.stake(l, u);
                let x = match &s {
                    Kind::Stake { xorca, .. } => *xorca,
                    _ => unreachable!(),
                };
                let amount = self.unstake_amount(l, x);
                let idx = self.idx();
                ixs.push(ix(s));
                ixs.push(ix(Kind::Unstake { u: me, amount, idx, xorca: x }));
                ixs.push(ix(Kind::Withdraw { u: me, idx, orca: Name::Orca(u) }));
            }
            1 => {
                // Two claims at the same index.
                let a = self.unstake(l, u);
                ixs.push(ix(a.clone()));
                ixs.push(ix(a));
            }
            2 => {
                // Close and reopen the same index.
                let wd = self.withdraw(l, u);
                let idx = match &wd {
                    Kind::Withdraw { idx, .. } => *idx,
                    _ => unreachable!(),
                };
                let x = self.xorca_acct(l, u);
                let amount = self.unstake_amount(l, x);
                ixs.push(ix(wd.clone()));
                ixs.push(ix(Kind::Unstake { u: me, amount, idx, xorca: x }));
                if self.rng.pct(50) {
                    ixs.push(ix(wd));
                }
            }
            3 => {
                // Withdraw twice.
                let wd = self.withdraw(l, u);
                ixs.push(ix(wd.clone()));
                if self.rng.pct(40) {
                    let idx = match &wd {
                        Kind::Withdraw { idx, .. } => *idx,
                        _ => unreachable!(),
                    };
                    // Revive the address with lamports in between.
                    ixs.push(ix(Kind::Sol { from: me, to: Name::Pw(u, idx), lamports: rent_min(1024) }));
                }
                ixs.push(ix(wd));
            }
            4 => {
                // Authority changes the cooldown around a user's unstake.
                let by = self.authority(l);
                let a = self.unstake(l, u);
                let idx = match &a {
                    Kind::Unstake { idx, .. } => *idx,
                    _ => unreachable!(),
                };
                let c1 = *self.rng.pick(&[0i64, 1, 50]);
                ixs.push(ix(Kind::SetCooldown { by, cooldown: c1 }));
                ixs.push(ix(a));
                ixs.push(ix(Kind::SetCooldown { by, cooldown: self.rng.log(1 << 20) as i64 }));
                if self.rng.pct(60) {
                    ixs.push(ix(Kind::Withdraw { u: me, idx, orca: Name::Orca(u) }));
                }
            }
            5 => {
                // Donation sandwiched around a stake.
                let s = self.stake(l, u);
                let amount = self.rng.log(1 << 30);
                ixs.push(ix(Kind::Tok { from: Name::Orca(DONOR), to: Name::Vault, by: Name::User(DONOR), amount }));
                ixs.push(ix(s));
                let a = self.unstake(l, u);
                ixs.push(ix(a));
            }
            6 => {
                // Handover of authority and immediate use.
                let by = self.authority(l);
                let to = Name::User(*self.rng.pick(&[ADMIN, ADMIN2, u]));
                ixs.push(ix(Kind::SetAuthority { by, to }));
                let who = if self.rng.pct(50) { by } else { to };
                ixs.push(ix(Kind::SetCooldown { by: who, cooldown: self.rng.log(1000) as i64 }));
            }
            _ => {
                // Two users in one transaction.
                let v = self.anyone();
                let a = if self.rng.pct(50) { self.stake(l, u) } else { self.unstake(l, u) };
                let b = if self.rng.pct(50) { self.unstake(l, v) } else { self.withdraw(l, v) };
                ixs.push(ix(a));
                ixs.push(ix(b));
            }
        }
        TxSpec { payer: me, ixs }
    }

    /// A valid operation of some victim, then a forged detail.
    fn mutant(&mut self, l: &Ledger) -> TxSpec {
        let u = self.user();
        let big = |l: &Ledger, n: Name| tok(l, &n.key()).map(|t| t.amount).unwrap_or(0);
        let kd = match self.rng.below(8) {
            0..=2 => {
                let b = big(l, Name::Orca(u));
                let amount = self.rng.range(b / 2, b);
                Kind::Stake { u: Name::User(u), amount, orca: Name::Orca(u), xorca: Name::Xorca(u) }
            }
            3 | 4 => {
                let b = big(l, Name::Xorca(u));
                let amount = self.rng.range(b / 2, b);
                let idx = (0..8u8).find(|i| pw(l, &Name::User(u).key(), *i).is_none()).unwrap_or(7);
                Kind::Unstake { u: Name::User(u), amount, idx, xorca: Name::Xorca(u) }
            }
            5 | 6 => {
                let u = self.claimant(l);
                match self.withdraw(l, u) {
                    Kind::Withdraw { u, idx, .. } => {
                        let o = match u {
                            Name::User(x) => Name::Orca(x),
                            _ => unreachable!(),
                        };
                        Kind::Withdraw { u, idx, orca: o }
                    }
                    o => o,
                }
            }
            _ => {
                let by = self.authority(l);
                Kind::SetCooldown { by, cooldown: self.rng.log(1 << 20) as i64 }
            }
        };
        let payer = match &kd {
            Kind::Stake { u, .. } | Kind::Unstake { u, .. } | Kind::Withdraw { u, .. } => *u,
            Kind::SetCooldown { by, .. } => *by,
            _ => unreachable!(),
        };
        let i = self.mutate(ix(kd));
        let unsigned = i.muts.iter().any(|m| matches!(m, Mut::NoSign { pos: 0 }));
        TxSpec { payer: if unsigned { Name::User(FAUCET) } else { payer }, ixs: vec![i] }
    }
    fn alternates(&self, role: Role, u: u8, idx: u8) -> Vec<Name> {
        use Role::*;
        let o = if u == ATTACKER { 0 } else { ATTACKER };
        let f = Name::Fake;
        match role {
            User => vec![Name::User(o), Name::User(ADMIN)],
            Vault => vec![
                f(Fake::VaultOfState), f(Fake::VaultOfAttacker), f(Fake::VaultForged), f(Fake::VaultFakeOrca), Name::Orca(u), Name::Orca(o),
                Name::Orca2(u), Name::Xorca(u),
            ],
            Orca => vec![
                Name::Orca(o), f(Fake::UserFakeOrca(u)), f(Fake::UserOrcaForged(u)), Name::Xorca(u), Name::Vault, f(Fake::VaultOfState),
                f(Fake::Nowhere(u)),
            ],
            Xorca => vec![
                Name::Xorca(o), f(Fake::UserFakeXorca(u)), f(Fake::UserXorcaForged(u)), Name::Orca(u), f(Fake::Nowhere(u)), Name::Vault,
            ],
            XMint => vec![f(Fake::XorcaMint), f(Fake::EmptyMint), Name::OrcaMint, f(Fake::OrcaMint), f(Fake::MintForged)],
            OMint => vec![f(Fake::OrcaMint), Name::XorcaMint, f(Fake::XorcaMint), f(Fake::MintForged)],
            State => vec![
                f(Fake::StateForged), f(Fake::StateZeroOwned), f(Fake::PwZeroOwned), Name::Pw(u, idx), Name::Pw(o, 0), Name::Vault, f(Fake::PwForged(u)),
            ],
            Pw => vec![
                Name::Pw(o, idx), Name::Pw(o, 0), Name::Pw(u, idx ^ 1), Name::Pw(u, 128), f(Fake::PwForged(u)), f(Fake::PwZeroOwned), Name::State,
                f(Fake::Nowhere(u)), f(Fake::StateZeroOwned), Name::Pw((u + 1) % 4, idx),
            ],
            TokP => vec![f(Fake::TokenProgram), Name::SystemProgram, Name::AtaProgram, f(Fake::AttackerProgram)],
            SysP => vec![f(Fake::SystemProgram), Name::TokenProgram, f(Fake::AttackerProgram)],
            AtaP => vec![f(Fake::AtaProgram), Name::TokenProgram, f(Fake::AttackerProgram)],
        }
    }
    fn mutate(&mut self, mut i: IxSpec) -> IxSpec {
        let rs = roles(&i.kind);
        let (u, idx) = match &i.kind {
            Kind::Stake { u: Name::User(u), .. } => (*u, 0),
            Kind::Unstake { u: Name::User(u), idx, .. } | Kind::Withdraw { u: Name::User(u), idx, .. } => (*u, *idx),
            _ => (0, 0),
        };
        let at = |r: Role| rs.iter().position(|x| *x == r).map(|p| p as u8);
        let sub = |i: &mut IxSpec, r: Role, n: Name| {
            if let Some(pos) = at(r) {
                i.muts.push(Mut::Subst { pos, name: n });
            }
        };
        let f = Name::Fake;
        match self.rng.below(100) {
            0..=54 => {
                let pos = self.rng.below(rs.len() as u64) as u8;
                if rs[pos as usize] == Role::User {
                    i.muts.push(Mut::NoSign { pos });
                    if self.rng.pct(20) {
                        let alts = self.alternates(Role::User, u, idx);
                        let name = *self.rng.pick(&alts);
                        i.muts = vec![Mut::Subst { pos, name }];
                    }
                } else {
                    let alts = self.alternates(rs[pos as usize], u, idx);
                    let name = *self.rng.pick(&alts);
                    i.muts.push(Mut::Subst { pos, name });
                }
            }
            55..=79 => match self.rng.below(9) {
                // Self-consistent parallel universes.
                0 => {
                    sub(&mut i, Role::Vault, f(Fake::VaultFakeOrca));
                    sub(&mut i, Role::Orca, f(Fake::UserFakeOrca(u)));
                    sub(&mut i, Role::OMint, f(Fake::OrcaMint));
                }
                1 => {
                    sub(&mut i, Role::XMint, f(Fake::XorcaMint));
                    sub(&mut i, Role::Xorca, f(Fake::UserFakeXorca(u)));
                }
                2 => {
                    sub(&mut i, Role::State, f(Fake::StateForged));
                    sub(&mut i, Role::Vault, f(Fake::VaultOfAttacker));
                }
                3 => {
                    sub(&mut i, Role::State, f(Fake::StateZeroOwned));
                    sub(&mut i, Role::Vault, f(Fake::VaultOfState));
                }
                4 => {
                    sub(&mut i, Role::OMint, Name::XorcaMint);
                    sub(&mut i, Role::Orca, Name::Xorca(u));
                }
                5 => {
                    sub(&mut i, Role::XMint, Name::OrcaMint);
                    sub(&mut i, Role::Xorca, Name::Orca(u));
                }
                6 => {
                    // Somebody else's claim with the signer's own destination.
                    let v = (u + 1 + self.rng.below(4) as u8) % 5;
                    sub(&mut i, Role::Pw, Name::Pw(v, idx));
                }
                7 => {
                    sub(&mut i, Role::Vault, f(Fake::VaultForged));
                    sub(&mut i, Role::Orca, f(Fake::UserOrcaForged(u)));
                    sub(&mut i, Role::TokP, f(Fake::TokenProgram));
                }
                _ => {
                    sub(&mut i, Role::Vault, f(Fake::VaultFakeOrca));
                    sub(&mut i, Role::OMint, f(Fake::OrcaMint));
                }
            },
            80..=91 => {
                for _ in 0..self.rng.range(2, 3) {
                    let pos = self.rng.below(rs.len() as u64) as u8;
                    if rs[pos as usize] != Role::User {
                        let alts = self.alternates(rs[pos as usize], u, idx);
                        let name = *self.rng.pick(&alts);
                        i.muts.push(Mut::Subst { pos, name });
                    }
                }
            }
            92..=93 => {
                let n = rs.len() as u64;
                i.muts.push(Mut::Swap { a: self.rng.below(n) as u8, b: self.rng.below(n) as u8 });
            }
            94 => i.muts.push(Mut::Truncate { len: self.rng.below(rs.len() as u64) as u8 }),
            95..=96 => i.muts.push(Mut::NoWrite { pos: self.rng.below(rs.len() as u64) as u8 }),
            _ => i.muts.push(Mut::Append { name: Name::User(ATTACKER), writable: self.rng.pct(50) }),
        }
        // An account standing in for a program is told apart by the program itself, not by the
        // call into the real one failing for want of it: let the real one be there as well.
        let missing: Vec<Name> = i
            .muts
            .iter()
            .filter_map(|m| match m {
                Mut::Subst { pos, .. } => match rs[*pos as usize] {
                    Role::TokP => Some(Name::TokenProgram),
                    Role::SysP => Some(Name::SystemProgram),
                    Role::AtaP => Some(Name::AtaProgram),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        for name in missing {
            if self.rng.pct(60) {
                i.muts.push(Mut::Append { name, writable: false });
            }
        }
        i
    }
    fn garbage(&mut self, l: &Ledger) -> TxSpec {
        let u = self.user();
        let kd = match self.rng.below(4) {
            0 => self.stake(l, u),
            1 => self.unstake(l, u),
            2 => self.withdraw(l, u),
            _ => Kind::SetAuthority { by: self.authority(l), to: Name::User(ADMIN) },
        };
        let payer = match &kd {
            Kind::SetAuthority { by, .. } => *by,
            _ => Name::User(u),
        };
        let mut i = ix(kd);
        if self.rng.pct(50) {
            i.muts.push(Mut::DataLen { len: self.rng.below(40) as u8 });
        } else {
            let at = if self.rng.pct(50) { 0 } else { self.rng.below(12) as u8 };
            let byte = if self.rng.pct(60) { self.rng.below(8) as u8 } else { self.rng.next() as u8 };
            i.muts.push(Mut::DataByte { at, byte });
        }
        TxSpec { payer, ixs: vec![i] }
    }
}
