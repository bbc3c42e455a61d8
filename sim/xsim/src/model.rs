//! The executable specification: for one instruction in one ledger state, what must
//! happen.  Written from the documented behaviour, not from the program's structure.
use crate::abi::*;
use crate::svm::{rent_min, Acct, Clock, Key, Ledger, Meta, SYSTEM};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const VIRTUAL: u128 = 100;

/// xORCA minted for `a` ORCA when `n` ORCA back `s` xORCA.  None: not representable.
pub fn stake_out(a: u64, n: u64, s: u64) -> Option<u64> {
    if s == 0 || n == 0 {
        return Some(a);
    }
    let q = (a as u128).checked_mul(s as u128 + VIRTUAL)? / (n as u128 + VIRTUAL);
    q.try_into().ok()
}
/// ORCA owed for `x` xORCA.
pub fn unstake_out(x: u64, n: u64, s: u64) -> Option<u64> {
    if s == 0 || n == 0 {
        return None;
    }
    let q = (x as u128).checked_mul(n as u128 + VIRTUAL)? / (s as u128 + VIRTUAL);
    q.try_into().ok()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Reason {
    BadData,
    TooFewAccounts,
    NoSigner,
    /// Account at this position is not the genuine one for its role.
    Counterfeit(usize),
    NotInitialised,
    Funds,
    ZeroOut,
    Overflow,
    CooldownOverflow,
    Backing,
    Occupied,
    NoClaim,
    Cooldown,
    NotAuthority,
    NegativeCooldown,
    AlreadyInit,
    NotDeployer,
    BadMint,
    Rent,
}
#[derive(Clone, Debug)]
pub struct Judged {
    pub op: Option<Op>,
    /// Non-empty: the instruction must be refused.
    pub reasons: Vec<Reason>,
    /// Non-empty: acceptance is not prescribed either way.
    pub gray: Vec<&'static str>,
    /// What an accepted instruction must do (present when `reasons` is empty).
    pub post: Option<View>,
    /// Amount minted / owed / paid, when computable.
    pub out: Option<u64>,
}
impl Judged {
    pub fn must_reject(&self) -> bool {
        !self.reasons.is_empty()
    }
    pub fn must_accept(&self) -> bool {
        self.reasons.is_empty() && self.gray.is_empty()
    }
}

/// Semantic view of an account: everything observable except unspecified padding.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum AV {
    State { lamports: u64, len: usize, st: St },
    Pw { lamports: u64, len: usize, pw: Pw },
    Raw(Acct),
}
pub type View = BTreeMap<Key, AV>;

pub fn view_acct(a: &Acct) -> AV {
    if let Some(st) = state_at(a) {
        AV::State { lamports: a.lamports, len: a.data.len(), st }
    } else if let Some(pw) = pw_at(a) {
        AV::Pw { lamports: a.lamports, len: a.data.len(), pw }
    } else {
        AV::Raw(a.clone())
    }
}
pub fn view(l: &Ledger) -> View {
    l.m.iter().filter(|(_, a)| !a.is_void()).map(|(k, a)| (*k, view_acct(a))).collect()
}
fn lam(v: &mut View, key: &Key) -> u64 {
    match v.get(key) {
        Some(AV::State { lamports, .. }) | Some(AV::Pw { lamports, .. }) => *lamports,
        Some(AV::Raw(a)) => a.lamports,
        None => 0,
    }
}
fn set_lam(v: &mut View, key: &Key, x: u64) {
    match v.get_mut(key) {
        Some(AV::State { lamports, .. }) | Some(AV::Pw { lamports, .. }) => *lamports = x,
        Some(AV::Raw(a)) => {
            a.lamports = x;
            if a.is_void() {
                v.remove(key);
            }
        }
        None => {
            if x > 0 {
                v.insert(*key, AV::Raw(Acct::wallet(x)));
            }
        }
    }
}
fn patch_u64(v: &mut View, key: &Key, off: usize, x: u64) {
    if let Some(AV::Raw(a)) = v.get_mut(key) {
        let mut d = a.data.as_ref().clone();
        d[off..off + 8].copy_from_slice(&x.to_le_bytes());
        a.data = Arc::new(d);
    }
}
fn set_tok(v: &mut View, key: &Key, amount: u64) {
    patch_u64(v, key, 64, amount)
}
fn set_supply(v: &mut View, key: &Key, s: u64) {
    patch_u64(v, key, 36, s)
}

const SELF_DELEGATED: &str = "self-delegated token account";
struct Roles<'a> {
    metas: &'a [Meta],
    pre: &'a Ledger,
    reasons: Vec<Reason>,
    gray: Vec<&'static str>,
}
impl Roles<'_> {
    fn key(&self, i: usize) -> Key {
        self.metas[i].key
    }
    fn fixed(&mut self, i: usize, key: &Key) {
        if &self.metas[i].key != key {
            self.reasons.push(Reason::Counterfeit(i));
        }
    }
    fn signer(&mut self, i: usize) {
        if !self.metas[i].signer {
            self.reasons.push(Reason::NoSigner);
        }
    }
    fn writable(&mut self, which: &[usize]) {
        if which.iter().any(|i| !self.metas[*i].writable) {
            self.gray.push("missing writable flag");
        }
    }
    /// A genuine token account of `mint` belonging to `owner`.
    fn token(&mut self, i: usize, mint: &Key, owner: &Key) -> Option<Tok> {
        match tok(self.pre, &self.metas[i].key) {
            Some(t) if &t.mint == mint && &t.owner == owner => {
                if t.state != 1 {
                    self.gray.push("frozen token account");
                }
                if t.delegate == Some(t.owner) {
                    // The token program then spends the allowance first.
                    self.gray.push(SELF_DELEGATED);
                }
                Some(t)
            }
            _ => {
                self.reasons.push(Reason::Counterfeit(i));
                None
            }
        }
    }
    fn state(&mut self, i: usize) -> Option<St> {
        if self.metas[i].key != k().state {
            self.reasons.push(Reason::Counterfeit(i));
            return None;
        }
        let s = state(self.pre);
        if s.is_none() {
            self.reasons.push(Reason::NotInitialised);
        }
        s
    }
    fn vault(&mut self, i: usize) -> Option<Tok> {
        self.fixed(i, &k().vault);
        match tok(self.pre, &k().vault) {
            Some(t) if t.mint == k().orca_mint && t.owner == k().state => Some(t),
            _ => {
                self.reasons.push(Reason::NotInitialised);
                None
            }
        }
    }
}

pub fn roles_len(op: &Op) -> usize {
    match op {
        Op::Stake { .. } | Op::Withdraw { .. } => 8,
        Op::Unstake { .. } | Op::Init { .. } => 9,
        _ => 2,
    }
}

pub fn judge(pre: &Ledger, metas: &[Meta], data: &[u8], clock: Clock) -> Judged {
    let k = k();
    let Some((op, trailing)) = decode_op(data) else {
        return Judged { op: None, reasons: vec![Reason::BadData], gray: vec![], post: None, out: None };
    };
    let mut r = Roles { metas, pre, reasons: vec![], gray: vec![] };
    if metas.len() < roles_len(&op) {
        return Judged { op: Some(op), reasons: vec![Reason::TooFewAccounts], gray: vec![], post: None, out: None };
    }
    if trailing {
        r.gray.push("trailing data");
    }
    if metas.len() > roles_len(&op) {
        r.gray.push("extra accounts");
    }
    let mut out = None;
    let mut post: Option<View> = None;
    match op {
        Op::Stake { amount } => {
            let user = r.key(0);
            r.signer(0);
            let vault = r.vault(1);
            let orca = r.token(2, &k.orca_mint, &user);
            let xorca = r.token(3, &k.xorca_mint, &user);
            r.fixed(4, &k.xorca_mint);
            let st = r.state(5);
            r.fixed(6, &k.orca_mint);
            r.fixed(7, &k.token_program);
            r.writable(&[0, 1, 2, 3, 4]);
            let s = supply(pre);
            if let (Some(vault), Some(orca), Some(xorca), Some(st)) = (vault, orca, xorca, st) {
                if orca.amount < amount {
                    r.reasons.push(Reason::Funds);
                }
                if vault.amount < st.escrow {
                    r.reasons.push(Reason::Backing);
                } else {
                    match stake_out(amount, vault.amount - st.escrow, s) {
                        None => r.reasons.push(Reason::Overflow),
                        Some(0) => {
                            out = Some(0);
                            r.reasons.push(Reason::ZeroOut)
                        }
                        Some(x) => {
                            out = Some(x);
                            match (s.checked_add(x), xorca.amount.checked_add(x), vault.amount.checked_add(amount)) {
                                (Some(s1), Some(x1), Some(v1)) if r.reasons.is_empty() => {
                                    let mut v = view(pre);
                                    set_tok(&mut v, &r.key(2), orca.amount - amount);
                                    set_tok(&mut v, &k.vault, v1);
                                    set_tok(&mut v, &r.key(3), x1);
                                    set_supply(&mut v, &k.xorca_mint, s1);
                                    post = Some(v);
                                }
                                (Some(_), Some(_), Some(_)) => {}
                                _ => r.reasons.push(Reason::Overflow),
                            }
                        }
                    }
                }
            }
        }
        Op::Unstake { amount, idx } => {
            let user = r.key(0);
            r.signer(0);
            let st = r.state(1);
            let (pk, pbump) = pw_key(&user, idx);
            r.fixed(2, &pk);
            let xorca = r.token(3, &k.xorca_mint, &user);
            r.fixed(4, &k.xorca_mint);
            r.fixed(5, &k.orca_mint);
            let vault = r.vault(6);
            r.fixed(7, &SYSTEM);
            r.fixed(8, &k.token_program);
            r.writable(&[0, 1, 2, 3, 4]);
            let s = supply(pre);
            let pwa = pre.get(&pk);
            if pw_at(&pwa).is_some() {
                r.reasons.push(Reason::Occupied);
            }
            // Whatever an earlier withdrawal left at the address, a claim that
            // is not open can be opened: only the program itself can have put
            // anything but lamports there.
            if let (Some(vault), Some(xorca), Some(st)) = (vault, xorca, st) {
                if xorca.amount < amount {
                    r.reasons.push(Reason::Funds);
                }
                let ts = clock.unix.checked_add(st.cooldown);
                if ts.is_none() {
                    r.reasons.push(Reason::CooldownOverflow);
                }
                if vault.amount < st.escrow {
                    r.reasons.push(Reason::Backing);
                } else {
                    match unstake_out(amount, vault.amount - st.escrow, s) {
                        None => r.reasons.push(Reason::Overflow),
                        Some(0) => {
                            out = Some(0);
                            r.reasons.push(Reason::ZeroOut)
                        }
                        Some(w) => {
                            out = Some(w);
                            let need = rent_min(PW_LEN).saturating_sub(pwa.lamports);
                            let ua = pre.get(&user);
                            if need > 0 && (ua.owner != SYSTEM || !ua.data.is_empty()) {
                                r.gray.push("unusual rent payer");
                            } else if need > ua.lamports {
                                r.reasons.push(Reason::Rent);
                            }
                            if let (true, Some(ts), Some(esc)) = (r.reasons.is_empty(), ts, st.escrow.checked_add(w)) {
                                let mut v = view(pre);
                                set_tok(&mut v, &r.key(3), xorca.amount - amount);
                                set_supply(&mut v, &k.xorca_mint, s - amount);
                                set_lam(&mut v, &user, ua.lamports.saturating_sub(need));
                                let sl = lam(&mut v, &k.state);
                                let len = pre.get(&k.state).data.len();
                                v.insert(k.state, AV::State { lamports: sl, len, st: St { escrow: esc, ..st } });
                                v.insert(
                                    pk,
                                    AV::Pw {
                                        lamports: pwa.lamports + need,
                                        len: PW_LEN,
                                        pw: Pw { bump: pbump, idx, unstaker: user, amount: w, ts },
                                    },
                                );
                                post = Some(v);
                            }
                        }
                    }
                }
            }
        }
        Op::Withdraw { idx } => {
            let user = r.key(0);
            r.signer(0);
            let st = r.state(1);
            let (pk, _) = pw_key(&user, idx);
            r.fixed(2, &pk);
            let orca = r.token(3, &k.orca_mint, &user);
            let vault = r.vault(4);
            r.fixed(5, &k.orca_mint);
            r.fixed(6, &SYSTEM);
            r.fixed(7, &k.token_program);
            r.writable(&[0, 1, 2, 3, 4]);
            let claim = pw(pre, &user, idx);
            if claim.is_none() {
                r.reasons.push(Reason::NoClaim);
            }
            if let (Some(vault), Some(orca), Some(st), Some(c)) = (vault, orca, st, claim) {
                out = Some(c.amount);
                if clock.unix < c.ts {
                    r.reasons.push(Reason::Cooldown);
                }
                if vault.amount < c.amount || st.escrow < c.amount {
                    r.reasons.push(Reason::Backing);
                } else if orca.amount.checked_add(c.amount).is_none() {
                    r.reasons.push(Reason::Overflow);
                } else if r.reasons.is_empty() {
                    let mut v = view(pre);
                    let pl = pre.lamports(&pk);
                    set_tok(&mut v, &k.vault, vault.amount - c.amount);
                    set_tok(&mut v, &r.key(3), orca.amount + c.amount);
                    v.remove(&pk);
                    let ul = lam(&mut v, &user);
                    set_lam(&mut v, &user, ul + pl);
                    let sl = lam(&mut v, &k.state);
                    let len = pre.get(&k.state).data.len();
                    v.insert(k.state, AV::State { lamports: sl, len, st: St { escrow: st.escrow - c.amount, ..st } });
                    post = Some(v);
                }
            }
        }
        Op::SetCooldown { .. } | Op::SetAuthority { .. } => {
            let user = r.key(0);
            r.signer(0);
            r.writable(&[0, 1]);
            let st = r.state(1);
            if let Some(st) = st {
                if st.authority != user {
                    r.reasons.push(Reason::NotAuthority);
                }
                let st1 = match op {
                    Op::SetCooldown { cooldown } => {
                        if cooldown < 0 {
                            r.reasons.push(Reason::NegativeCooldown);
                        }
                        St { cooldown, ..st }
                    }
                    Op::SetAuthority { to } => St { authority: to, ..st },
                    _ => unreachable!(),
                };
                if r.reasons.is_empty() {
                    let mut v = view(pre);
                    let sl = lam(&mut v, &k.state);
                    let len = pre.get(&k.state).data.len();
                    v.insert(k.state, AV::State { lamports: sl, len, st: st1 });
                    post = Some(v);
                }
            }
        }
        Op::Init { cooldown } => {
            let payer = r.key(0);
            let auth = r.key(1);
            r.signer(0);
            r.signer(1);
            if payer != k.deployer {
                r.reasons.push(Reason::NotDeployer);
            }
            r.fixed(2, &k.state);
            r.fixed(3, &k.vault);
            r.fixed(4, &k.xorca_mint);
            r.fixed(5, &k.orca_mint);
            r.fixed(6, &SYSTEM);
            r.fixed(7, &k.token_program);
            r.fixed(8, &k.ata_program);
            r.writable(&[0, 1, 2, 3]);
            let sa = pre.get(&k.state);
            if sa.owner != SYSTEM || !sa.data.is_empty() {
                r.reasons.push(Reason::AlreadyInit);
            }
            match mint(pre, &k.xorca_mint) {
                Some(m) if m.authority == Some(k.state) && m.supply == 0 && m.decimals == 6 && m.freeze.is_none() => {
                    if !m.freeze_bytes_zero {
                        r.gray.push("revoked freeze authority");
                    }
                }
                _ => r.reasons.push(Reason::BadMint),
            }
            match mint(pre, &k.orca_mint) {
                Some(m) if m.decimals == 6 => {}
                _ => r.reasons.push(Reason::BadMint),
            }
            if cooldown < 0 {
                r.reasons.push(Reason::NegativeCooldown);
            }
            let va = pre.get(&k.vault);
            let vault_exists = va.owner == k.token_program;
            if vault_exists && !matches!(tok_at(&va), Some(t) if t.mint == k.orca_mint && t.owner == k.state) {
                r.gray.push("vault address in an unforeseen state");
            }
            let need_s = rent_min(STATE_LEN).saturating_sub(sa.lamports);
            let need_v = if vault_exists { 0 } else { rent_min(165).saturating_sub(va.lamports) };
            let pa = pre.get(&payer);
            if pa.owner != SYSTEM || !pa.data.is_empty() {
                r.gray.push("unusual rent payer");
            } else if pa.lamports < need_s + need_v {
                r.reasons.push(Reason::Rent);
            }
            if r.reasons.is_empty() {
                let mut v = view(pre);
                set_lam(&mut v, &payer, pa.lamports.saturating_sub(need_s + need_v));
                v.insert(
                    k.state,
                    AV::State {
                        lamports: sa.lamports + need_s,
                        len: STATE_LEN,
                        st: St { bump: k.state_bump, vault_bump: k.vault_bump, escrow: 0, cooldown, authority: auth },
                    },
                );
                if !vault_exists {
                    v.insert(
                        k.vault,
                        AV::Raw(Acct {
                            lamports: va.lamports + need_v,
                            data: token_bytes(&k.orca_mint, &k.state, 0),
                            owner: k.token_program,
                            executable: false,
                        }),
                    );
                }
                post = Some(v);
            }
        }
    }
    let post = if r.reasons.is_empty() && !r.gray.contains(&SELF_DELEGATED) { post } else { None };
    Judged { op: Some(op), reasons: r.reasons, gray: r.gray, post, out }
}

/// Where an actual ledger differs from the predicted view.
pub fn diff(want: &View, got: &Ledger) -> Vec<String> {
    let got = view(got);
    let mut v = Vec::new();
    for key in want.keys().chain(got.keys()).collect::<std::collections::BTreeSet<_>>() {
        let (a, b) = (want.get(key), got.get(key));
        if a != b {
            v.push(format!("{}: expected {}, found {}", label(key), show(a), show(b)));
        }
    }
    v
}
pub fn show(a: Option<&AV>) -> String {
    match a {
        None => "no account".into(),
        Some(AV::State { lamports, st, .. }) => format!(
            "state{{escrow {}, cooldown {}, authority {}, bumps {}/{}, lamports {}}}",
            st.escrow, st.cooldown, label(&st.authority), st.bump, st.vault_bump, lamports
        ),
        Some(AV::Pw { lamports, pw, .. }) => format!(
            "claim{{of {}, idx {}, amount {}, ts {}, bump {}, lamports {}}}",
            label(&pw.unstaker), pw.idx, pw.amount, pw.ts, pw.bump, lamports
        ),
        Some(AV::Raw(x)) => {
            if let Some(t) = tok_at(x) {
                format!("token{{amount {}, owner {}, delegate {:?}, lamports {}}}", t.amount, label(&t.owner), t.delegate.map(|d| label(&d)), x.lamports)
            } else if let Some(m) = mint_at(x) {
                format!("mint{{supply {}, lamports {}}}", m.supply, x.lamports)
            } else {
                format!("account{{lamports {}, {} bytes, owner {}}}", x.lamports, x.data.len(), label(&x.owner))
            }
        }
    }
}
/// Human-readable name of an address.
pub fn label(key: &Key) -> String {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! { static L: RefCell<Option<HashMap<Key, String>>> = const { RefCell::new(None) }; }
    L.with(|l| {
        let mut l = l.borrow_mut();
        let map = l.get_or_insert_with(|| {
            let mut h = HashMap::new();
            for n in crate::world::all_names() {
                h.entry(n.key()).or_insert_with(|| format!("{n:?}"));
            }
            h
        });
        map.get(key).cloned().unwrap_or_else(|| bs58::encode(key).into_string())
    })
}
