//! The oracles: one per property.  A monitor evaluates exactly one property, so that a
//! check never reports somebody else's violation.  All bookkeeping that depends on
//! history (the ghost) is part of the chain state and is rolled back with it.
use crate::abi::*;
use crate::model::{diff, judge, label, view, Judged, Reason};
use crate::svm::*;
use crate::wide::Wide;
use crate::world::{Boot, Cfg, Stats, ADMIN, FAUCET};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub struct Violation {
    pub prop: String,
    /// What kind of breach, coarse enough to survive minimisation.
    pub class: String,
    pub msg: String,
}

/// What history says about one open claim.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct GClaim {
    pub user: Key,
    pub idx: u8,
    /// As recorded when the claim was opened (whether that was right is other
    /// properties' business).
    pub amount: u64,
    pub ts: i64,
    /// Unstake time + cooldown in force at that moment.
    pub ready: i128,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Ghost {
    pub claims: BTreeMap<Key, GClaim>,
    /// The same claims as an indexer that reads only events would know them.
    pub indexed: BTreeMap<(Key, u8), u64>,
    pub authority: Option<Key>,
    pub cooldown: i64,
}
impl Ghost {
    pub fn at_genesis(cfg: &Cfg, _l: &Ledger) -> Ghost {
        let mut g = Ghost::default();
        if let Boot::Pool { claims, .. } = &cfg.boot {
            g.authority = Some(Name::User(ADMIN).key());
            g.cooldown = cfg.cooldown;
            for (u, i, a, off) in claims {
                let user = Name::User(*u).key();
                let ts = cfg.start.saturating_add(*off).saturating_add(cfg.cooldown);
                g.claims.insert(pw_key(&user, *i).0, GClaim { user, idx: *i, amount: *a, ts, ready: ts as i128 });
                g.indexed.insert((user, *i), *a);
            }
        }
        g
    }
}

pub struct Monitor {
    pub prop: String,
}
struct Acc<'a> {
    t: &'a IxTrace,
    j: &'a Judged,
    op: Op,
    clock: Clock,
    /// Key in role position i.
    user: Key,
}
impl Acc<'_> {
    fn key(&self, i: usize) -> Key {
        self.t.metas.get(i).map(|m| m.key).unwrap_or_default()
    }
    fn has(&self, f: impl Fn(&Reason) -> bool) -> bool {
        self.j.reasons.iter().any(f)
    }
    fn genuine(&self) -> bool {
        !self.has(|r| matches!(r, Reason::Counterfeit(_) | Reason::NotInitialised | Reason::TooFewAccounts | Reason::BadData))
    }
    fn delta_tok(&self, key: &Key) -> i128 {
        let a = |l: &Ledger| tok(l, key).map(|t| t.amount as i128).unwrap_or(0);
        a(&self.t.post) - a(&self.t.pre)
    }
}

impl Monitor {
    pub fn new(prop: &str) -> Self {
        Monitor { prop: prop.into() }
    }
    fn v<T>(&self, class: &str, msg: String) -> Result<T, Violation> {
        Err(Violation { prop: self.prop.clone(), class: class.into(), msg })
    }

    #[allow(clippy::too_many_arguments)]
    pub fn after_tx(
        &self,
        tx: &Tx,
        out: &TxOut,
        pre: &Ledger,
        post: &Ledger,
        clock: Clock,
        ghost: &mut Ghost,
        stats: &mut Stats,
    ) -> Result<(), Violation> {
        if self.prop == "P13" && !out.ok() {
            let mut want = pre.clone();
            if out.fee > 0 {
                let mut p = want.get(&tx.payer);
                p.lamports -= out.fee;
                want.set(tx.payer, p);
            }
            stats.add("oracle_failed_tx_unchanged", 1);
            if *post != want {
                let d = diff(&view(&want), post);
                return self.v("failed_tx_changed_state", format!("a failed transaction ({:?}) changed the ledger: {}", out.err, d.join("; ")));
            }
        }
        let mut g = ghost.clone();
        for t in &out.ixs {
            if t.ix.program != k().program {
                if out.ok() && self.prop == "P08" {
                    self.claims_match(&g, &t.post, &t.ix)?;
                }
                continue;
            }
            let j = judge(&t.pre, &t.metas, &t.ix.data, clock);
            match &t.result {
                Ok(()) => {
                    stats.add(opname(&j.op, true), 1);
                    if t.fault_fired {
                        stats.add("accepted_with_fault", 1);
                    }
                    if !j.gray.is_empty() {
                        stats.add("accepted_gray", 1);
                    }
                    self.accepted(t, &j, clock, &g, stats)?;
                    advance(&mut g, t, &j, clock);
                    if self.prop == "P08" {
                        self.claims_match(&g, &t.post, &t.ix)?;
                    }
                    if self.prop == "P16" {
                        self.indexer(&g, &t.post)?;
                    }
                }
                Err(e) => {
                    stats.add(opname(&j.op, false), 1);
                    for r in &j.reasons {
                        stats.add(reason_name(r), 1);
                    }
                    if !t.fault_fired {
                        self.refused(t, &j, e, clock, stats)?;
                    }
                }
            }
        }
        if out.ok() {
            *ghost = g;
            self.settled(post, ghost, stats)?;
        }
        Ok(())
    }

    /// State invariants at transaction boundaries.
    fn settled(&self, l: &Ledger, g: &Ghost, stats: &mut Stats) -> Result<(), Violation> {
        let Some(st) = state(l) else {
            if self.prop == "P01" && !claims(l).is_empty() {
                return self.v("claim_without_state", "an open claim exists although no pool state exists".into());
            }
            return Ok(());
        };
        match self.prop.as_str() {
            "P01" => {
                stats.add("oracle_escrow_equals_claims", 1);
                let sum: u128 = claims(l).iter().map(|(_, p)| p.amount as u128).sum();
                if sum != st.escrow as u128 {
                    return self.v("escrow_vs_claims", format!("state records {} escrowed ORCA but the open claims total {sum}", st.escrow));
                }
                let gsum: u128 = g.claims.values().map(|c| c.amount as u128).sum();
                if gsum != st.escrow as u128 {
                    return self.v(
                        "escrow_vs_history",
                        format!("state records {} escrowed ORCA but unstakes not yet withdrawn total {gsum}", st.escrow),
                    );
                }
            }
            "P02" => {
                stats.add("oracle_vault_covers_claims", 1);
                let v = vault_amount(l);
                let sum: u128 = claims(l).iter().map(|(_, p)| p.amount as u128).sum();
                let gsum: u128 = g.claims.values().map(|c| c.amount as u128).sum();
                if v < st.escrow || (v as u128) < sum || (v as u128) < gsum {
                    return self.v(
                        "vault_short",
                        format!("the vault holds {v} ORCA, less than escrow {} / open claims {sum} / outstanding unstakes {gsum}", st.escrow),
                    );
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn claims_match(&self, g: &Ghost, l: &Ledger, ix: &Ix) -> Result<(), Violation> {
        let got = claims(l);
        let what = || format!("after {}", describe(ix));
        for (key, p) in &got {
            match g.claims.get(key) {
                None => return self.v("claim_appeared", format!("{}: claim {} appeared that no unstake opened", what(), label(key))),
                Some(c) => {
                    if (c.user, c.idx, c.amount, c.ts) != (p.unstaker, p.idx, p.amount, p.ts) {
                        return self.v(
                            "claim_changed",
                            format!(
                                "{}: claim {} should be (owner {}, index {}, amount {}, ready {}) but is (owner {}, index {}, amount {}, ready {})",
                                what(), label(key), label(&c.user), c.idx, c.amount, c.ts, label(&p.unstaker), p.idx, p.amount, p.ts
                            ),
                        );
                    }
                }
            }
        }
        for key in g.claims.keys() {
            if !got.iter().any(|(k, _)| k == key) {
                return self.v("claim_lost", format!("{}: open claim {} vanished without its owner's withdrawal", what(), label(key)));
            }
        }
        Ok(())
    }
    fn indexer(&self, g: &Ghost, l: &Ledger) -> Result<(), Violation> {
        let led: BTreeMap<(Key, u8), u64> = claims(l).iter().map(|(_, p)| ((p.unstaker, p.idx), p.amount)).collect();
        if led != g.indexed {
            return self.v("indexer_diverged", format!("claims rebuilt from the event stream ({}) differ from the ledger's ({})", g.indexed.len(), led.len()));
        }
        Ok(())
    }

    fn refused(&self, t: &IxTrace, j: &Judged, e: &IxErr, clock: Clock, stats: &mut Stats) -> Result<(), Violation> {
        if !j.must_accept() {
            return Ok(());
        }
        let Some(op) = j.op else { return Ok(()) };
        let msg = format!("{} at time {} satisfies every documented precondition but was refused: {:?}", describe(&t.ix), clock.unix, e);
        stats.add("must_accept_refused", 1);
        match self.prop.as_str() {
            "P14" => self.v("blocked", msg),
            "P06" if matches!(op, Op::Withdraw { .. }) => self.v("matured_claim_refused", msg),
            "P10" if matches!(op, Op::SetCooldown { .. } | Op::SetAuthority { .. }) => self.v("authority_refused", msg),
            _ => Ok(()),
        }
    }

    fn accepted(&self, t: &IxTrace, j: &Judged, clock: Clock, g: &Ghost, stats: &mut Stats) -> Result<(), Violation> {
        let Some(op) = j.op else {
            if self.prop == "P13" {
                return self.v("garbage_accepted", format!("instruction data {:?} is no instruction but was accepted", t.ix.data));
            }
            return Ok(());
        };
        let user = match op {
            Op::Init { .. } => t.metas.get(1),
            _ => t.metas.first(),
        }
        .map(|m| m.key)
        .unwrap_or_default();
        let a = Acc { t, j, op, clock, user };
        match self.prop.as_str() {
            "P03" => self.p03(&a, stats),
            "P04" => self.p04(&a, stats),
            "P05" => self.p05(&a, stats),
            "P06" => self.p06(&a, g, stats),
            "P07" => self.p07(&a, g, stats),
            "P08" => self.p08(&a, g, stats),
            "P09" => self.p09(&a, g, stats),
            "P10" => self.p10(&a, stats),
            "P11" => self.p11(&a, stats),
            "P12" => self.p12(&a, stats),
            "P13" => self.p13(&a, stats),
            "P16" => self.p16(&a, stats),
            "P18" => self.p18(&a, stats),
            _ => Ok(()),
        }
    }

    fn rate(l: &Ledger) -> Option<(u128, u128)> {
        let st = state(l)?;
        let n = vault_amount(l).saturating_sub(st.escrow) as u128 + 100;
        Some((n, supply(l) as u128 + 100))
    }

    fn p03(&self, a: &Acc, stats: &mut Stats) -> Result<(), Violation> {
        let (Some((n0, s0)), Some((n1, s1))) = (Self::rate(&a.t.pre), Self::rate(&a.t.post)) else { return Ok(()) };
        if supply(&a.t.pre) == 0 {
            return Ok(());
        }
        stats.add("oracle_rate_compared", 1);
        // n1/s1 >= n0/s0
        if Wide::from(n1).mul(s0) < Wide::from(n0).mul(s1) {
            return self.v(
                "rate_fell",
                format!("{} lowered the ORCA backing per xORCA from {n0}/{s0} to {n1}/{s1} (virtual units included)", describe(&a.t.ix)),
            );
        }
        Ok(())
    }

    fn p04(&self, a: &Acc, stats: &mut Stats) -> Result<(), Violation> {
        if !a.genuine() {
            return Ok(());
        }
        let (pre, post) = (&a.t.pre, &a.t.post);
        let d = |x: u64, y: u64| y as i128 - x as i128;
        match a.op {
            Op::Stake { amount } => {
                if a.has(|r| matches!(r, Reason::ZeroOut | Reason::Overflow | Reason::Backing | Reason::Funds)) {
                    return self.v("unpriceable_accepted", format!("{} must be refused ({:?}) but was accepted", describe(&a.t.ix), a.j.reasons));
                }
                let Some(x) = a.j.out else { return Ok(()) };
                stats.add("oracle_stake_priced", 1);
                let minted = d(supply(pre), supply(post));
                let got = [minted, a.delta_tok(&a.key(3)), -a.delta_tok(&a.key(2)), a.delta_tok(&k().vault)];
                let want = [x as i128, x as i128, amount as i128, amount as i128];
                if got != want {
                    return self.v(
                        "stake_amounts",
                        format!(
                            "{} with {} ORCA backing {} xORCA: (minted, credited, taken, deposited) = {got:?}, expected {want:?}",
                            describe(&a.t.ix), vault_amount(pre).saturating_sub(state(pre).map(|s| s.escrow).unwrap_or(0)), supply(pre)
                        ),
                    );
                }
            }
            Op::Unstake { amount, idx } => {
                if a.has(|r| matches!(r, Reason::ZeroOut | Reason::Overflow | Reason::Backing | Reason::Funds)) {
                    return self.v("unpriceable_accepted", format!("{} must be refused ({:?}) but was accepted", describe(&a.t.ix), a.j.reasons));
                }
                let Some(w) = a.j.out else { return Ok(()) };
                stats.add("oracle_unstake_priced", 1);
                let burned = -d(supply(pre), supply(post));
                let esc = d(state(pre).map(|s| s.escrow).unwrap_or(0), state(post).map(|s| s.escrow).unwrap_or(0));
                let claim = pw(post, &a.user, idx).map(|p| p.amount as i128).unwrap_or(-1);
                let got = [burned, -a.delta_tok(&a.key(3)), claim, esc, a.delta_tok(&k().vault)];
                let want = [amount as i128, amount as i128, w as i128, w as i128, 0];
                if got != want {
                    return self.v(
                        "unstake_amounts",
                        format!(
                            "{} with {} ORCA backing {} xORCA: (burned, debited, owed, escrowed, vault change) = {got:?}, expected {want:?}",
                            describe(&a.t.ix), vault_amount(pre).saturating_sub(state(pre).map(|s| s.escrow).unwrap_or(0)), supply(pre)
                        ),
                    );
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn p05(&self, a: &Acc, stats: &mut Stats) -> Result<(), Violation> {
        if !matches!(a.op, Op::Stake { .. } | Op::Unstake { .. } | Op::Withdraw { .. }) {
            return Ok(());
        }
        if supply(&a.t.pre) == 0 {
            return Ok(());
        }
        let (Some((n0, s0)), Some((n1, s1))) = (Self::rate(&a.t.pre), Self::rate(&a.t.post)) else { return Ok(()) };
        let hold = |l: &Ledger| {
            let mut m: BTreeMap<Key, (u128, u128)> = BTreeMap::new();
            for (key, acct) in &l.m {
                if *key == k().vault {
                    continue;
                }
                if let Some(t) = tok_at(acct) {
                    let e = m.entry(t.owner).or_default();
                    if t.mint == k().orca_mint {
                        e.0 += t.amount as u128;
                    } else if t.mint == k().xorca_mint {
                        e.1 += t.amount as u128;
                    }
                }
            }
            for (_, p) in claims(l) {
                m.entry(p.unstaker).or_default().0 += p.amount as u128;
            }
            m
        };
        let (h0, h1) = (hold(&a.t.pre), hold(&a.t.post));
        for (who, b) in h0.iter().map(|(w, x)| (w, *x)) {
            let c = h1.get(who).copied().unwrap_or_default();
            stats.add("oracle_wealth_compared", 1);
            // (o + x*n/s) scaled by s0*s1
            let w0 = Wide::from(b.0).mul(s0).add(Wide::from(b.1).mul(n0)).mul(s1);
            let w1 = Wide::from(c.0).mul(s1).add(Wide::from(c.1).mul(n1)).mul(s0);
            let show = |h: (u128, u128), n: u128, s: u128| format!("{} ORCA (incl. claims) + {} xORCA at {n}/{s}", h.0, h.1);
            if *who == a.user && w1 > w0 {
                return self.v(
                    "actor_gained",
                    format!("{} made its signer richer: {} became {}", describe(&a.t.ix), show(b, n0, s0), show(c, n1, s1)),
                );
            }
            if *who != a.user && w1 < w0 {
                return self.v(
                    "bystander_lost",
                    format!("{} made bystander {} poorer: {} became {}", describe(&a.t.ix), label(who), show(b, n0, s0), show(c, n1, s1)),
                );
            }
        }
        for (who, c) in &h1 {
            if !h0.contains_key(who) && (c.0 > 0 || c.1 > 0) {
                return self.v("value_from_nothing", format!("{} gave {} {} ORCA and {} xORCA out of nothing", describe(&a.t.ix), label(who), c.0, c.1));
            }
        }
        Ok(())
    }

    fn p06(&self, a: &Acc, g: &Ghost, stats: &mut Stats) -> Result<(), Violation> {
        match a.op {
            Op::Unstake { idx, .. } => {
                if a.has(|r| *r == Reason::CooldownOverflow) {
                    return self.v("overflow_accepted", format!("{}: now + cooldown is not representable, yet it was accepted", describe(&a.t.ix)));
                }
                let (Some(p), Some(st)) = (pw(&a.t.post, &a.user, idx), state(&a.t.pre)) else { return Ok(()) };
                stats.add("oracle_ready_time_set", 1);
                let want = a.clock.unix as i128 + st.cooldown as i128;
                if p.ts as i128 != want {
                    return self.v(
                        "wrong_ready_time",
                        format!("{} at {} under cooldown {} is claimable at {} instead of {want}", describe(&a.t.ix), a.clock.unix, st.cooldown, p.ts),
                    );
                }
            }
            Op::Withdraw { .. } => {
                let Some(c) = g.claims.get(&a.key(2)) else { return Ok(()) };
                stats.add("oracle_withdraw_not_early", 1);
                if (a.clock.unix as i128) < c.ready {
                    return self.v(
                        "early_withdrawal",
                        format!("{} was paid at {}, {} s before it was due", describe(&a.t.ix), a.clock.unix, c.ready - a.clock.unix as i128),
                    );
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn p07(&self, a: &Acc, g: &Ghost, stats: &mut Stats) -> Result<(), Violation> {
        let Op::Withdraw { idx } = a.op else { return Ok(()) };
        stats.add("oracle_payouts", 1);
        let key = a.key(2);
        let Some(c) = g.claims.get(&key) else {
            return self.v("paid_without_claim", format!("{} was accepted but {} holds no open claim", describe(&a.t.ix), label(&key)));
        };
        if c.user != a.user || c.idx != idx {
            return self.v("paid_wrong_owner", format!("{} consumed claim {} that belongs to {}", describe(&a.t.ix), label(&key), label(&c.user)));
        }
        let dest = a.key(3);
        let owner = tok(&a.t.pre, &dest).map(|t| (t.owner, t.mint));
        let (got, out) = (a.delta_tok(&dest), -a.delta_tok(&k().vault));
        if owner != Some((c.user, k().orca_mint)) || got != c.amount as i128 || out != c.amount as i128 {
            return self.v(
                "wrong_payout",
                format!("{}: claim of {} ORCA paid {got} into {}, vault lost {out}", describe(&a.t.ix), c.amount, label(&dest)),
            );
        }
        if pw(&a.t.post, &a.user, idx).is_some() {
            return self.v("claim_survives", format!("{} paid the claim but left it open", describe(&a.t.ix)));
        }
        Ok(())
    }

    fn p08(&self, a: &Acc, g: &Ghost, stats: &mut Stats) -> Result<(), Violation> {
        stats.add("oracle_claims_intact", 1);
        if let Op::Unstake { idx, .. } = a.op {
            let key = pw_key(&a.user, idx).0;
            if let Some(c) = g.claims.get(&key) {
                return self.v(
                    "claim_overwritten",
                    format!("{} was accepted although index {idx} already holds an open claim of {} ORCA", describe(&a.t.ix), c.amount),
                );
            }
        }
        Ok(())
    }

    fn p09(&self, a: &Acc, g: &Ghost, stats: &mut Stats) -> Result<(), Violation> {
        stats.add("oracle_custody", 1);
        let (pre, post) = (&a.t.pre, &a.t.post);
        let what = describe(&a.t.ix);
        let signs = |key: &Key| a.t.metas.iter().any(|m| &m.key == key && m.signer);
        if a.has(|r| *r == Reason::NoSigner) {
            return self.v("unsigned_accepted", format!("{what} was accepted without the signature it needs"));
        }
        for (key, acct) in &pre.m {
            let now = post.m.get(key).cloned().unwrap_or_default();
            if let Some(t0) = tok_at(acct) {
                let Some(t1) = tok_at(&now) else {
                    return self.v("token_account_destroyed", format!("{what} destroyed token account {}", label(key)));
                };
                let spent_own_allowance = t0.delegate == Some(t0.owner) && t1.delegate.is_none();
                if (t0.mint, t0.owner, t0.state, t0.close) != (t1.mint, t1.owner, t1.state, t1.close)
                    || t0.delegate != t1.delegate && !spent_own_allowance
                {
                    return self.v("token_account_authority", format!("{what} changed who controls token account {}", label(key)));
                }
                if t1.amount < t0.amount {
                    let lost = t0.amount - t1.amount;
                    let ok = match a.op {
                        Op::Stake { amount } => t0.owner == a.user && signs(&a.user) && *key == a.key(2) && t0.mint == k().orca_mint && lost == amount,
                        Op::Unstake { amount, .. } => {
                            t0.owner == a.user && signs(&a.user) && *key == a.key(3) && t0.mint == k().xorca_mint && lost == amount
                        }
                        Op::Withdraw { .. } => {
                            *key == k().vault && signs(&a.user) && g.claims.get(&a.key(2)).is_some_and(|c| c.user == a.user && c.amount == lost)
                        }
                        _ => false,
                    };
                    if !ok {
                        return self.v("tokens_taken", format!("{what} took {lost} tokens from {} without its owner authorising that", label(key)));
                    }
                }
            }
            if let Some(m0) = mint_at(acct) {
                let Some(m1) = mint_at(&now) else {
                    return self.v("mint_destroyed", format!("{what} destroyed mint {}", label(key)));
                };
                if (m0.authority, m0.freeze, m0.decimals) != (m1.authority, m1.freeze, m1.decimals) {
                    return self.v("mint_authority", format!("{what} changed the authorities of mint {}", label(key)));
                }
                if m1.supply > m0.supply && !(*key == k().xorca_mint && matches!(a.op, Op::Stake { .. })) {
                    return self.v("minted", format!("{what} minted {} of {}", m1.supply - m0.supply, label(key)));
                }
            }
            if acct.owner == SYSTEM && acct.data.is_empty() && now.lamports < acct.lamports && !signs(key) {
                return self.v("lamports_taken", format!("{what} took lamports from {} which did not sign", label(key)));
            }
            if acct.owner == k().program && state_at(acct).is_some() && state_at(&now).is_none() {
                return self.v("state_destroyed", format!("{what} destroyed the pool state"));
            }
        }
        Ok(())
    }

    fn p10(&self, a: &Acc, stats: &mut Stats) -> Result<(), Violation> {
        let what = describe(&a.t.ix);
        let (s0, s1) = (state(&a.t.pre), state(&a.t.post));
        stats.add("oracle_config_compared", 1);
        if matches!(a.op, Op::SetCooldown { .. } | Op::SetAuthority { .. }) {
            if a.has(|r| *r == Reason::NotAuthority) {
                return self.v("usurper_accepted", format!("{what} was accepted from {} who is not the update authority", label(&a.user)));
            }
            if a.has(|r| *r == Reason::NoSigner) {
                return self.v("unsigned_set", format!("{what} was accepted without the authority's signature"));
            }
            if a.has(|r| *r == Reason::NegativeCooldown) {
                return self.v("negative_cooldown", format!("{what} was accepted"));
            }
        }
        let (Some(s0), Some(s1)) = (s0, s1) else { return Ok(()) };
        let mut want = (s0.cooldown, s0.authority, s0.bump, s0.vault_bump);
        match a.op {
            Op::SetCooldown { cooldown } => want.0 = cooldown,
            Op::SetAuthority { to } => want.1 = to,
            _ => {}
        }
        let got = (s1.cooldown, s1.authority, s1.bump, s1.vault_bump);
        if got != want {
            return self.v(
                "config_changed",
                format!(
                    "{what} left (cooldown, authority, bumps) = ({}, {}, {}, {}), expected ({}, {}, {}, {})",
                    got.0, label(&got.1), got.2, got.3, want.0, label(&want.1), want.2, want.3
                ),
            );
        }
        if matches!(a.op, Op::SetCooldown { .. } | Op::SetAuthority { .. }) && s1.escrow != s0.escrow {
            return self.v("config_touched_escrow", format!("{what} changed the escrow from {} to {}", s0.escrow, s1.escrow));
        }
        Ok(())
    }

    fn p11(&self, a: &Acc, stats: &mut Stats) -> Result<(), Violation> {
        let Op::Init { cooldown } = a.op else { return Ok(()) };
        stats.add("oracle_initialisations", 1);
        let what = describe(&a.t.ix);
        if a.j.must_reject() {
            return self.v("bad_init_accepted", format!("{what} was accepted although {:?}", a.j.reasons));
        }
        let want = St { bump: k().state_bump, vault_bump: k().vault_bump, escrow: 0, cooldown, authority: a.user };
        if state(&a.t.post) != Some(want) {
            return self.v("bad_initial_state", format!("{what} left state {:?}, expected {want:?}", state(&a.t.post)));
        }
        match tok(&a.t.post, &k().vault) {
            Some(t) if t.mint == k().orca_mint && t.owner == k().state && t.delegate.is_none() && t.close.is_none() => Ok(()),
            t => self.v("bad_initial_vault", format!("{what} left vault {t:?}")),
        }
    }

    fn p12(&self, a: &Acc, stats: &mut Stats) -> Result<(), Violation> {
        stats.add("oracle_accounts_genuine", 1);
        if a.has(|r| matches!(r, Reason::Counterfeit(_))) {
            let pos: Vec<String> = a
                .j
                .reasons
                .iter()
                .filter_map(|r| match r {
                    Reason::Counterfeit(i) => Some(format!("account {i} = {}", label(&a.key(*i)))),
                    _ => None,
                })
                .collect();
            return self.v("counterfeit_accepted", format!("{} was accepted with counterfeit {}", describe(&a.t.ix), pos.join(", ")));
        }
        Ok(())
    }

    fn p13(&self, a: &Acc, stats: &mut Stats) -> Result<(), Violation> {
        if a.j.must_reject() {
            return self.v("invalid_accepted", format!("{} was accepted although {:?}", describe(&a.t.ix), a.j.reasons));
        }
        if let Some(want) = &a.j.post {
            stats.add("oracle_effects_exact", 1);
            let mut got = a.t.post.clone();
            got.m.retain(|_, x| x.lamports > 0);
            let d = diff(want, &got);
            if !d.is_empty() {
                return self.v("wrong_effects", format!("{}: {}", describe(&a.t.ix), d.join("; ")));
            }
        }
        Ok(())
    }

    fn p16(&self, a: &Acc, stats: &mut Stats) -> Result<(), Violation> {
        let what = describe(&a.t.ix);
        let post = &a.t.post;
        let st = state(post);
        let (vault, sup) = (vault_amount(post), supply(post));
        let want: Option<Ev> = match a.op {
            Op::Stake { amount } => {
                let minted = sup.wrapping_sub(supply(&a.t.pre));
                Some(Ev::Stake { amount, vault, escrow: st.map(|s| s.escrow).unwrap_or(0), supply: sup, minted })
            }
            Op::Unstake { amount, idx } => Some(Ev::Unstake {
                amount,
                vault,
                escrow: st.map(|s| s.escrow).unwrap_or(0),
                supply: sup,
                claim: pw(post, &a.user, idx).map(|p| p.amount).unwrap_or(0),
                cooldown: st.map(|s| s.cooldown).unwrap_or(0),
                idx,
            }),
            Op::Withdraw { idx } => Some(Ev::Withdraw {
                escrow: st.map(|s| s.escrow).unwrap_or(0),
                claim: pw(&a.t.pre, &a.user, idx).map(|p| p.amount).unwrap_or(0),
                cooldown: st.map(|s| s.cooldown).unwrap_or(0),
                idx,
            }),
            Op::SetAuthority { to } => Some(Ev::Authority { new: to, by: state(&a.t.pre).map(|s| s.authority).unwrap_or_default() }),
            _ => None,
        };
        let got: Vec<Ev> = a.t.events.iter().filter_map(|e| decode_event(e)).collect();
        stats.add("oracle_events_compared", 1);
        let want: Vec<Ev> = want.into_iter().collect();
        if got != want {
            return self.v("wrong_event", format!("{what} emitted {got:?}, the ledger says {want:?}"));
        }
        Ok(())
    }

    fn p18(&self, a: &Acc, stats: &mut Stats) -> Result<(), Violation> {
        let Some(want) = &a.j.post else { return Ok(()) };
        stats.add("oracle_lamports_compared", 1);
        use crate::model::AV;
        let lam = |x: &AV| match x {
            AV::State { lamports, .. } | AV::Pw { lamports, .. } => *lamports,
            AV::Raw(r) => r.lamports,
        };
        let keys: std::collections::BTreeSet<&Key> = want.keys().chain(a.t.post.m.keys()).collect();
        for key in keys {
            let w = want.get(key).map(lam).unwrap_or(0);
            let g = a.t.post.lamports(key);
            if w != g {
                return self.v("lamports", format!("{}: {} ends with {g} lamports, expected {w}", describe(&a.t.ix), label(key)));
            }
        }
        for (key, acct) in &a.t.post.m {
            if acct.owner == k().program && acct.lamports > 0 && acct.lamports < rent_min(acct.data.len()) {
                return self.v("not_rent_exempt", format!("{}: {} has {} lamports, below rent exemption", describe(&a.t.ix), label(key), acct.lamports));
            }
        }
        Ok(())
    }

    /// P15: faults stop here; on a fork of the ledger everybody leaves, and must manage to
    /// within a bounded number of transactions.
    pub fn drill(&self, l: &Ledger, clock: Clock, stats: &mut Stats) -> Result<(), Violation> {
        if self.prop != "P15" || state(l).is_none() {
            return Ok(());
        }
        let mut l = l.clone();
        let mut clock = clock;
        let wallets: Vec<u8> = (0..=FAUCET).collect();
        for u in &wallets {
            let key = Name::User(*u).key();
            let mut acct = l.get(&key);
            acct.lamports = acct.lamports.saturating_add(20_000_000_000);
            l.set(key, acct);
        }
        let mut run = |l: &mut Ledger, payer: Key, ix: Ix, clock: Clock| -> Result<(), (String, TxErr)> {
            stats.add("drill_txs", 1);
            let d = describe(&ix);
            let out = execute(l, &Tx { payer, ixs: vec![ix] }, clock, None);
            out.err.map(|e| Err((d, e))).unwrap_or(Ok(()))
        };
        let st = state(&l).unwrap();
        let due = clock.unix.checked_add(st.cooldown);
        if due.is_none() {
            // Only the authority can end an unrepresentable cooldown.
            if !crate::world::can_sign(&st.authority) {
                return Ok(());
            }
            let mut acct = l.get(&st.authority);
            acct.lamports = acct.lamports.saturating_add(1_000_000_000);
            l.set(st.authority, acct);
            let ix = canonical(&Op::SetCooldown { cooldown: 0 }, &st.authority, &SYSTEM, &SYSTEM, &SYSTEM);
            if let Err((d, e)) = run(&mut l, st.authority, ix, clock) {
                return self.v("drill_set_refused", format!("exit drill: {d}: {e:?}"));
            }
        }
        for u in &wallets {
            let user = Name::User(*u).key();
            let accts: Vec<(Key, u64)> = l
                .m
                .iter()
                .filter_map(|(key, acct)| tok_at(acct).filter(|t| t.owner == user && t.mint == k().xorca_mint && t.amount > 0).map(|t| (*key, t.amount)))
                .collect();
            for (acct, amount) in accts {
                let Some(idx) = (0..=255u8).find(|i| pw(&l, &user, *i).is_none()) else {
                    return Ok(());
                };
                if tok(&l, &acct).is_some_and(|t| t.delegate == Some(user)) {
                    // The token program would spend the allowance the holder gave himself.
                    let _ = run(&mut l, user, tok_revoke(acct, user), clock);
                }
                let ix = canonical(&Op::Unstake { amount, idx }, &user, &SYSTEM, &SYSTEM, &acct);
                if let Err((d, e)) = run(&mut l, user, ix, clock) {
                    let s = state(&l).unwrap();
                    return self.v(
                        "drill_unstake_refused",
                        format!("exit drill: {d} ({} ORCA backing {} xORCA): {e:?}", vault_amount(&l).saturating_sub(s.escrow), supply(&l)),
                    );
                }
            }
        }
        if let Some(t) = claims(&l).iter().map(|(_, p)| p.ts).max() {
            clock = Clock { slot: clock.slot + 1, unix: clock.unix.max(t) };
        }
        for (key, p) in claims(&l) {
            if !wallets.iter().any(|u| Name::User(*u).key() == p.unstaker) {
                return self.v("drill_ownerless_claim", format!("exit drill: claim {} belongs to nobody", label(&key)));
            }
            let dest = ata(&p.unstaker, &k().orca_mint);
            if tok(&l, &dest).is_none() {
                if let Err((d, e)) = run(&mut l, p.unstaker, create_ata(p.unstaker, p.unstaker, k().orca_mint, true), clock) {
                    return self.v("drill_ata", format!("exit drill: {d}: {e:?}"));
                }
            }
            let ix = canonical(&Op::Withdraw { idx: p.idx }, &p.unstaker, &SYSTEM, &dest, &SYSTEM);
            if let Err((d, e)) = run(&mut l, p.unstaker, ix, clock) {
                return self.v("drill_withdraw_refused", format!("exit drill: {d} (claim {} ORCA, vault {}): {e:?}", p.amount, vault_amount(&l)));
            }
        }
        let s = state(&l);
        let left: u64 = l
            .m
            .values()
            .filter_map(tok_at)
            .filter(|t| t.mint == k().xorca_mint && wallets.iter().any(|u| Name::User(*u).key() == t.owner))
            .map(|t| t.amount)
            .sum();
        if s.map(|s| s.escrow) != Some(0) || !claims(&l).is_empty() || left > 0 {
            return self.v(
                "drill_incomplete",
                format!("exit drill: everybody left but escrow is {:?}, {} claims and {left} xORCA remain", s.map(|s| s.escrow), claims(&l).len()),
            );
        }
        Ok(())
    }
}

/// Advances history by one accepted instruction.
fn advance(g: &mut Ghost, t: &IxTrace, j: &Judged, clock: Clock) {
    let user = t.metas.first().map(|m| m.key).unwrap_or_default();
    match j.op {
        Some(Op::Unstake { idx, .. }) => {
            let key = t.metas.get(2).map(|m| m.key).unwrap_or_default();
            let cd = state(&t.pre).map(|s| s.cooldown).unwrap_or(0);
            let (amount, ts) = match t.post.m.get(&key).and_then(pw_at) {
                Some(p) => (p.amount, p.ts),
                None => (j.out.unwrap_or(0), 0),
            };
            g.claims.insert(key, GClaim { user, idx, amount, ts, ready: clock.unix as i128 + cd as i128 });
        }
        Some(Op::Withdraw { .. }) => {
            if let Some(m) = t.metas.get(2) {
                g.claims.remove(&m.key);
            }
        }
        Some(Op::SetCooldown { cooldown }) => g.cooldown = cooldown,
        Some(Op::SetAuthority { to }) => g.authority = Some(to),
        Some(Op::Init { cooldown }) => {
            g.cooldown = cooldown;
            g.authority = t.metas.get(1).map(|m| m.key);
        }
        _ => {}
    }
    // The indexer knows the transaction's signer and the event, nothing else.
    for e in t.events.iter().filter_map(|e| decode_event(e)) {
        match e {
            Ev::Unstake { claim, idx, .. } => {
                g.indexed.insert((user, idx), claim);
            }
            Ev::Withdraw { idx, .. } => {
                g.indexed.remove(&(user, idx));
            }
            _ => {}
        }
    }
}

pub fn opname(op: &Option<Op>, ok: bool) -> &'static str {
    match (op, ok) {
        (None, true) => "op_garbage_ok",
        (None, false) => "op_garbage_refused",
        (Some(Op::Stake { .. }), true) => "op_stake_ok",
        (Some(Op::Stake { .. }), false) => "op_stake_refused",
        (Some(Op::Unstake { .. }), true) => "op_unstake_ok",
        (Some(Op::Unstake { .. }), false) => "op_unstake_refused",
        (Some(Op::Withdraw { .. }), true) => "op_withdraw_ok",
        (Some(Op::Withdraw { .. }), false) => "op_withdraw_refused",
        (Some(Op::Init { .. }), true) => "op_init_ok",
        (Some(Op::Init { .. }), false) => "op_init_refused",
        (Some(Op::SetCooldown { .. }), true) => "op_set_cooldown_ok",
        (Some(Op::SetCooldown { .. }), false) => "op_set_cooldown_refused",
        (Some(Op::SetAuthority { .. }), true) => "op_set_authority_ok",
        (Some(Op::SetAuthority { .. }), false) => "op_set_authority_refused",
    }
}
fn reason_name(r: &Reason) -> &'static str {
    match r {
        Reason::BadData => "refusal_bad_data",
        Reason::TooFewAccounts => "refusal_too_few_accounts",
        Reason::NoSigner => "refusal_no_signer",
        Reason::Counterfeit(_) => "refusal_counterfeit",
        Reason::NotInitialised => "refusal_not_initialised",
        Reason::Funds => "refusal_funds",
        Reason::ZeroOut => "refusal_zero_out",
        Reason::Overflow => "refusal_overflow",
        Reason::CooldownOverflow => "refusal_cooldown_overflow",
        Reason::Backing => "refusal_backing",
        Reason::Occupied => "refusal_occupied",
        Reason::NoClaim => "refusal_no_claim",
        Reason::Cooldown => "refusal_cooldown",
        Reason::NotAuthority => "refusal_not_authority",
        Reason::NegativeCooldown => "refusal_negative_cooldown",
        Reason::AlreadyInit => "refusal_already_init",
        Reason::NotDeployer => "refusal_not_deployer",
        Reason::BadMint => "refusal_bad_mint",
        Reason::Rent => "refusal_rent",
    }
}
pub fn describe(ix: &Ix) -> String {
    let who = |i: usize| ix.accounts.get(i).map(|m| label(&m.key)).unwrap_or_default();
    if ix.program != k().program {
        return format!("instruction {:?} of {}", ix.data.first(), label(&ix.program));
    }
    match decode_op(&ix.data).map(|(o, _)| o) {
        Some(Op::Stake { amount }) => format!("Stake({amount}) by {}", who(0)),
        Some(Op::Unstake { amount, idx }) => format!("Unstake({amount}, index {idx}) by {}", who(0)),
        Some(Op::Withdraw { idx }) => format!("Withdraw(index {idx}) by {}", who(0)),
        Some(Op::Init { cooldown }) => format!("Initialize(cooldown {cooldown}) by {} for {}", who(0), who(1)),
        Some(Op::SetCooldown { cooldown }) => format!("Set(cooldown {cooldown}) by {}", who(0)),
        Some(Op::SetAuthority { to }) => format!("Set(authority {}) by {}", label(&to), who(0)),
        None => format!("instruction data {:?}", ix.data),
    }
}
