//! C01 and C02: the client library next to the program it talks to, on every transaction
//! of a simulated history.
use crate::js;
use crate::make::extras;
use crate::ops::{same_claim, same_state, v};
use serde::{Deserialize, Serialize};
use solana_account_info::AccountInfo;
use solana_pubkey::Pubkey;
use std::sync::Arc;
use xorca::*;
use xsim::abi::*;
use xsim::check::{describe, Violation};
use xsim::model::{judge, label, stake_out, unstake_out, Reason};
use xsim::svm::*;
use xsim::world::*;

// ------------------------------------------------------------------ C01
/// Error names as documented (program IDL): code 6000 + position.
const ERRORS: [&str; 20] = [
    "UnknownInstructionDiscriminator",
    "IncorrectProgramId",
    "InvalidAccountRole",
    "NotEnoughAccountKeys",
    "IncorrectOwner",
    "InvalidSeeds",
    "IncorrectAccountAddress",
    "InvalidAccountData",
    "ArithmeticError",
    "InsufficientFunds",
    "StateAccountAlreadyInitialized",
    "CoolDownPeriodStillActive",
    "EmitEventError",
    "InvalidCoolDownPeriod",
    "InsufficientStakeAmount",
    "InsufficientUnstakeAmount",
    "InsufficientEscrow",
    "CoolDownOverflow",
    "InsufficientVaultBacking",
    "UnauthorizedDeployerAccess",
];
fn custom(e: &IxErr) -> Option<u32> {
    match e {
        IxErr::Program(c) if *c >> 32 == 0 && *c >= 6000 && *c < 7000 => Some(*c as u32),
        _ => None,
    }
}
/// The error a client must be able to show when this is the only thing wrong.
fn expected_error(op: &Op, r: &Reason) -> Option<&'static str> {
    Some(match (op, r) {
        (Op::Withdraw { .. }, Reason::Cooldown) => "CoolDownPeriodStillActive",
        (Op::Stake { .. }, Reason::ZeroOut) => "InsufficientStakeAmount",
        (Op::Unstake { .. }, Reason::ZeroOut) => "InsufficientUnstakeAmount",
        (Op::Unstake { .. }, Reason::CooldownOverflow) => "CoolDownOverflow",
        (Op::SetCooldown { .. } | Op::Init { .. }, Reason::NegativeCooldown) => "InvalidCoolDownPeriod",
        (Op::Init { .. }, Reason::AlreadyInit) => "StateAccountAlreadyInitialized",
        (Op::Init { .. }, Reason::NotDeployer) => "UnauthorizedDeployerAccess",
        _ => return None,
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lang {
    Rust,
    Js,
}
impl Lang {
    fn prop(self, n: u8) -> &'static str {
        match (self, n) {
            (Lang::Rust, 1) => "C01",
            (Lang::Rust, _) => "C02",
            (Lang::Js, 1) => "J01",
            (Lang::Js, _) => "J02",
        }
    }
    /// What the client calls this error; checks that it can be told from others.
    fn error(self, code: u32, index: usize, programs: &[Key]) -> Result<Option<String>, String> {
        match self {
            Lang::Rust => {
                let Some(e) = <XorcaStakingProgramError as num_traits::FromPrimitive>::from_u32(code) else { return Ok(None) };
                let name = format!("{e:?}");
                let back: solana_program_error::ProgramError = e.into();
                if back != solana_program_error::ProgramError::Custom(code) {
                    return Err(format!("client error for {code} converts back to {back:?}"));
                }
                Ok(Some(name))
            }
            Lang::Js => {
                let v = js::error(code, index, programs)?;
                let names: Vec<String> = v["names"].as_array().map(|l| l.iter().filter_map(|n| n.as_str()).map(camel).collect()).unwrap_or_default();
                if v["is"] != true || v["isCode"] != true || v["isOther"] != false || v["message"].as_str().is_none_or(|m| m.is_empty()) || names.len() > 1 {
                    return Err(format!("the client says about error {code}: {v}"));
                }
                Ok(names.into_iter().next())
            }
        }
    }
    fn event(self, bytes: &[u8]) -> Result<Option<Ev>, String> {
        match self {
            Lang::Rust => <Event as borsh::BorshDeserialize>::try_from_slice(bytes).map(|e| Some(ev_of(&e))).map_err(|e| e.to_string()),
            Lang::Js => {
                let v = js::decode("event", bytes, &k().state, &k().program)?;
                if v["again"] != true {
                    return Err(format!("{v} does not encode back"));
                }
                Ok(js::ev_of(&v["value"]))
            }
        }
    }
    fn quote(self, stake: bool, amount: u64, backing: u64, supply: u64) -> Result<u64, String> {
        match (self, stake) {
            (Lang::Rust, true) => convert_orca_to_xorca(amount, backing, supply).map_err(|e| format!("{e:?}")),
            (Lang::Rust, false) => convert_xorca_to_orca(amount, backing, supply).map_err(|e| format!("{e:?}")),
            (Lang::Js, _) => js::quote(stake, amount, backing, supply),
        }
    }
    fn decode(self, key: &Key, a: &Acct, stats: &mut Stats) -> Result<(), Violation> {
        match self {
            Lang::Rust => decode(key, a, stats),
            Lang::Js => decode_js(key, a, stats),
        }
    }
}
fn camel(s: &str) -> String {
    s.split('_').map(|w| w.chars().take(1).chain(w.chars().skip(1).flat_map(|c| c.to_lowercase())).collect::<String>()).collect()
}
pub fn c01(spec: &TxSpec, tx: &Tx, out: &TxOut, after: &Ledger, clock: Clock, stats: &mut Stats) -> Result<(), Violation> {
    pairing(Lang::Rust, spec, tx, out, after, clock, stats)
}
pub fn j01(spec: &TxSpec, tx: &Tx, out: &TxOut, after: &Ledger, clock: Clock, stats: &mut Stats) -> Result<(), Violation> {
    pairing(Lang::Js, spec, tx, out, after, clock, stats)
}
fn pairing(lang: Lang, spec: &TxSpec, tx: &Tx, out: &TxOut, after: &Ledger, clock: Clock, stats: &mut Stats) -> Result<(), Violation> {
    let p = lang.prop(1);
    let programs: Vec<Key> = tx.ixs.iter().map(|i| i.program).collect();
    for (i, t) in out.ixs.iter().enumerate() {
        if t.ix.program != k().program && spec.ixs.get(i).is_none_or(|s| s.build().program != k().program) {
            continue;
        }
        let Some(s) = spec.ixs.get(i) else { continue };
        let meant = s.build();
        let what = describe(&meant);
        let ours = s.muts.is_empty();
        if ours && !t.fault_fired {
            let mut want = meant.clone();
            if lang == Lang::Rust {
                want.accounts.extend(extras(&meant));
                stats.add("oracle_additional_accounts", (want.accounts.len() > meant.accounts.len()) as u64);
            }
            // The same request, encoded by the book: same outcome on the same ledger?
            stats.add("oracle_client_vs_canonical", 1);
            let run = |ix: &Ix| {
                let mut l = t.pre.clone();
                let o = execute(&mut l, &Tx { payer: tx.payer, ixs: vec![ix.clone()] }, clock, None);
                (o, l)
            };
            let ((oc, lc), (om, lm)) = (run(&t.ix), run(&want));
            let ev = |o: &TxOut| o.ixs.iter().flat_map(|x| x.events.clone()).collect::<Vec<_>>();
            if oc.ok() != om.ok() || lc != lm || ev(&oc) != ev(&om) {
                if lang == Lang::Js {
                    if let Some(Err(e)) = js::instruction(s) {
                        return v(p, "client_cannot_build", format!("{what}: the client {e}"));
                    }
                }
                return v(p, "client_instruction_differs", format!("{what} built by the client gave {:?}, the documented encoding gives {:?} on the same ledger", oc.err, om.err));
            }
            if t.ix != want {
                let n = want.accounts.iter().zip(&t.ix.accounts).take_while(|(a, b)| a == b).count();
                let show = |i: &Ix| i.accounts.get(n).map(|a| (label(&a.key), a.signer, a.writable));
                return v(p, "client_instruction_flags", format!("{what}: account {n} as the client passes it (name, signer, writable) is {:?}, requested was {:?}", show(&t.ix), show(&want)));
            }
            let merged: Vec<Meta> = meant
                .accounts
                .iter()
                .map(|a| Meta {
                    key: a.key,
                    signer: a.signer || a.key == tx.payer || t.metas.iter().any(|x| x.key == a.key && x.signer),
                    writable: a.writable || a.key == tx.payer,
                })
                .collect();
            let j = judge(&t.pre, &merged, &meant.data, clock);
            match &t.result {
                Err(e) if j.must_accept() => {
                    return v(p, "client_instruction_refused", format!("{what} built by the client meets every precondition but was refused: {e:?}"));
                }
                Err(e) => {
                    if let (Some(code), Some(op), [r]) = (custom(e), j.op, j.reasons.as_slice()) {
                        if let Some(want) = expected_error(&op, r) {
                            stats.add("oracle_errors_named", 1);
                            let got = lang.error(code, i, &programs).unwrap_or_else(Some);
                            if got.as_deref() != Some(want) {
                                return v(p, "error_misnamed", format!("{what} was refused with {code}, which the client shows as {got:?} instead of {want}"));
                            }
                        }
                    }
                }
                Ok(()) => {}
            }
        }
        if let Err(e) = &t.result {
            if let Some(code) = custom(e) {
                stats.add("oracle_errors_decoded", 1);
                let want = ERRORS.get(code as usize - 6000);
                match lang.error(code, i, &programs) {
                    Err(e) => return v(p, "error_roundtrip", format!("{what}: {e}")),
                    Ok(got) if got.as_deref() != want.copied() => {
                        return v(p, "error_unknown", format!("{what} was refused with {code}, which the client shows as {got:?} instead of {want:?}"));
                    }
                    Ok(_) => {}
                }
            }
        }
        for e in &t.events {
            if let Some(w) = decode_event(e) {
                stats.add("oracle_events_decoded", 1);
                let got = lang.event(e);
                if got != Ok(Some(w)) {
                    return v(p, "event_decoding", format!("{what} emitted {w:?}, the client decodes {got:?}"));
                }
            }
        }
        if t.result.is_ok() {
            for (key, a) in &t.post.m {
                if t.pre.m.get(key) != Some(a) {
                    lang.decode(key, a, stats)?;
                }
            }
        }
    }
    if out.ok() && stats.c.get("oracle_accounts_decoded").copied().unwrap_or(0) == 0 {
        for (key, a) in &after.m {
            lang.decode(key, a, stats)?;
        }
    }
    Ok(())
}
fn ev_of(e: &Event) -> Ev {
    match *e {
        Event::Stake { orca_stake_amount, vault_orca_amount, vault_escrowed_orca_amount, xorca_mint_supply, xorca_to_mint } => {
            Ev::Stake { amount: orca_stake_amount, vault: vault_orca_amount, escrow: vault_escrowed_orca_amount, supply: xorca_mint_supply, minted: xorca_to_mint }
        }
        Event::Unstake {
            xorca_unstake_amount,
            vault_orca_amount,
            vault_escrowed_orca_amount,
            xorca_mint_supply,
            withdrawable_orca_amount,
            cool_down_period_s,
            withdraw_index,
        } => Ev::Unstake {
            amount: xorca_unstake_amount,
            vault: vault_orca_amount,
            escrow: vault_escrowed_orca_amount,
            supply: xorca_mint_supply,
            claim: withdrawable_orca_amount,
            cooldown: cool_down_period_s,
            idx: withdraw_index,
        },
        Event::Withdraw { vault_escrowed_orca_amount, withdrawable_orca_amount, cool_down_period_s, withdraw_index } => {
            Ev::Withdraw { escrow: vault_escrowed_orca_amount, claim: withdrawable_orca_amount, cooldown: cool_down_period_s, idx: withdraw_index }
        }
        Event::UpdateAuthoritySet { new_authority, set_by } => Ev::Authority { new: new_authority.to_bytes(), by: set_by.to_bytes() },
    }
}
/// Client decoders on one account, compared with the documented layout.
fn decode(key: &Key, a: &Acct, stats: &mut Stats) -> Result<(), Violation> {
    const P: &str = "C01";
    let pk = Pubkey::new_from_array(*key);
    let owner = Pubkey::new_from_array(a.owner);
    let mut lam = a.lamports;
    let mut data = a.data.as_ref().clone();
    let info = AccountInfo::new(&pk, false, false, &mut lam, &mut data, &owner, false, 0);
    if let Some(w) = state_at(a) {
        stats.add("oracle_accounts_decoded", 1);
        if key == &k().state && find_state_address().map(|x| (x.0.to_bytes(), x.1)).ok() != Some((k().state, k().state_bump)) {
            return v(P, "address", "the client derives another pool state address".into());
        }
        match (State::from_bytes(&a.data), State::try_from(&info)) {
            (Ok(s), Ok(t)) if same_state(&s, &w) && s == t => {}
            (s, _) => return v(P, "state_decoding", format!("the client decodes the pool state {w:?} as {:?}", s.map(|s| (s.escrowed_orca_amount, s.cool_down_period_s, s.update_authority)))),
        }
    } else if let Some(w) = pw_at(a) {
        stats.add("oracle_accounts_decoded", 1);
        let want = pw_key(&w.unstaker, w.idx);
        let got = find_pending_withdraw_pda(&Pubkey::new_from_array(w.unstaker), &w.idx).map(|x| (x.0.to_bytes(), x.1)).ok();
        if key == &want.0 && got != Some(want) {
            return v(P, "address", format!("the client derives another address for claim {}", label(key)));
        }
        match (PendingWithdraw::from_bytes(&a.data), PendingWithdraw::try_from(&info)) {
            (Ok(s), Ok(t)) if same_claim(&s, &w) && s == t => {}
            (s, _) => {
                return v(
                    P,
                    "claim_decoding",
                    format!("the client decodes claim {w:?} as {:?}", s.map(|s| (s.withdraw_index, s.withdrawable_orca_amount, s.withdrawable_timestamp, s.unstaker))),
                )
            }
        }
    } else if let Some(w) = tok_at(a) {
        stats.add("oracle_accounts_decoded", 1);
        let got = <TokenAccount as borsh::BorshDeserialize>::try_from_slice(&a.data);
        let ok = got.as_ref().is_ok_and(|t| {
            (t.mint.to_bytes(), t.owner.to_bytes(), t.amount, t.state as u8) == (w.mint, w.owner, w.amount, w.state)
                && (t.delegate_flag == 1).then(|| t.delegate.to_bytes()) == w.delegate
                && (w.delegate.is_none() || t.delegate_amount == w.delegated)
                && (t.close_authority_flag == 1).then(|| t.close_authority.to_bytes()) == w.close
        });
        if !ok {
            return v(P, "token_decoding", format!("the client decodes token account {w:?} as {got:?}"));
        }
    } else if let Some(w) = mint_at(a) {
        stats.add("oracle_accounts_decoded", 1);
        let got = <TokenMint as borsh::BorshDeserialize>::try_from_slice(&a.data);
        let ok = got.as_ref().is_ok_and(|t| {
            (t.supply, t.decimals, t.is_initialized) == (w.supply, w.decimals, w.init)
                && (t.mint_authority_flag == 1).then(|| t.mint_authority.to_bytes()) == w.authority
                && (t.freeze_authority_flag == 1).then(|| t.freeze_authority.to_bytes()) == w.freeze
        });
        if !ok {
            return v(P, "mint_decoding", format!("the client decodes mint {w:?} as {got:?}"));
        }
    }
    Ok(())
}

/// The same for the JavaScript client.
fn decode_js(key: &Key, a: &Acct, stats: &mut Stats) -> Result<(), Violation> {
    const P: &str = "J01";
    let ask = |what: &str| js::decode(what, &a.data, key, &a.owner);
    let flag = |v: &serde_json::Value, f: &str, x: &str| (v[f] == 1).then(|| js::key_of(&v[x])).flatten();
    if let Some(w) = state_at(a) {
        stats.add("oracle_accounts_decoded", 1);
        let got = ask("state");
        let ok = got.as_ref().is_ok_and(|v| {
            js::st_of(&v["value"]) == Some(w) && js::st_of(&v["viaAccount"]) == Some(w) && v["again"] == true && v["kind"] == "State" && v["kindAccount"] == "State" && v["size"] == a.data.len()
        });
        if !ok {
            return v(P, "state_decoding", format!("the client decodes the pool state {w:?} as {}", brief(&got)));
        }
    } else if let Some(w) = pw_at(a) {
        stats.add("oracle_accounts_decoded", 1);
        let (addr, bump) = pw_key(&w.unstaker, w.idx);
        let same = |v: &serde_json::Value, a: &Key, b: u8| js::key_of(&v[0]) == Some(*a) && v[1] == b;
        let d = js::pda(&w.unstaker, w.idx);
        let ok = d.as_ref().is_ok_and(|d| {
            same(&d["claim"], &addr, bump) && same(&d["state"], &k().state, k().state_bump) && js::key_of(&d["vault"][0]) == Some(k().vault) && js::key_of(&d["program"]) == Some(k().program)
        });
        if !ok {
            return v(P, "address", format!("the client derives other addresses for claim {}: {}", label(key), brief(&d)));
        }
        let got = ask("claim");
        let ok = got.as_ref().is_ok_and(|v| {
            js::pw_of(&v["value"]) == Some(w)
                && js::pw_of(&v["viaAccount"]) == Some(w)
                && v["again"] == true
                && v["kind"] == "PendingWithdraw"
                && v["kindAccount"] == "PendingWithdraw"
                && v["size"] == a.data.len()
        });
        if !ok {
            return v(P, "claim_decoding", format!("the client decodes claim {w:?} as {}", brief(&got)));
        }
    } else if let Some(w) = tok_at(a) {
        stats.add("oracle_accounts_decoded", 1);
        let got = ask("token");
        let ok = got.as_ref().is_ok_and(|g| {
            let t = &g["value"];
            (js::key_of(&t["mint"]), js::key_of(&t["owner"]), js::u64_of(&t["amount"])) == (Some(w.mint), Some(w.owner), Some(w.amount))
                && t["state"] == w.state
                && flag(t, "delegateFlag", "delegate") == w.delegate
                && (w.delegate.is_none() || js::u64_of(&t["delegateAmount"]) == Some(w.delegated))
                && flag(t, "closeAuthorityFlag", "closeAuthority") == w.close
                && g["again"] == true
        });
        if !ok {
            return v(P, "token_decoding", format!("the client decodes token account {w:?} as {}", brief(&got)));
        }
    } else if let Some(w) = mint_at(a) {
        stats.add("oracle_accounts_decoded", 1);
        let got = ask("mint");
        let ok = got.as_ref().is_ok_and(|g| {
            let t = &g["value"];
            js::u64_of(&t["supply"]) == Some(w.supply)
                && t["decimals"] == w.decimals
                && t["isInitialized"] == w.init
                && flag(t, "mintAuthorityFlag", "mintAuthority") == w.authority
                && flag(t, "freezeAuthorityFlag", "freezeAuthority") == w.freeze
        });
        if !ok {
            return v(P, "mint_decoding", format!("the client decodes mint {w:?} as {}", brief(&got)));
        }
    }
    Ok(())
}
fn brief(r: &Result<serde_json::Value, String>) -> String {
    match r {
        Ok(v) => v.to_string().chars().take(300).collect(),
        Err(e) => e.clone(),
    }
}

// ------------------------------------------------------------------ C02
fn backing(l: &Ledger) -> Option<(u64, u64)> {
    let st = state(l)?;
    Some((vault_amount(l).checked_sub(st.escrow)?, supply(l)))
}
/// The client's quotes against what the program did, on every landed stake and unstake.
pub fn c02(_: &TxSpec, _: &Tx, out: &TxOut, _: &Ledger, clock: Clock, stats: &mut Stats) -> Result<(), Violation> {
    quotes(Lang::Rust, out, clock, stats)
}
pub fn j02(_: &TxSpec, _: &Tx, out: &TxOut, _: &Ledger, clock: Clock, stats: &mut Stats) -> Result<(), Violation> {
    quotes(Lang::Js, out, clock, stats)
}
fn quotes(lang: Lang, out: &TxOut, clock: Clock, stats: &mut Stats) -> Result<(), Violation> {
    for t in &out.ixs {
        if t.ix.program == k().program && !t.fault_fired {
            compare(lang, t, clock, stats)?;
        }
    }
    Ok(())
}
fn product_beyond_u128(amount: u64, op: Op, n: u64, s: u64) -> bool {
    let by = if matches!(op, Op::Stake { .. }) { s } else { n };
    (amount as u128).checked_mul(by as u128 + 100).is_none()
}
fn compare(lang: Lang, t: &IxTrace, clock: Clock, stats: &mut Stats) -> Result<(), Violation> {
    let p = lang.prop(2);
    let Some((op, _)) = decode_op(&t.ix.data) else { return Ok(()) };
    let Some((n, s)) = backing(&t.pre) else { return Ok(()) };
    let j = judge(&t.pre, &t.metas, &t.ix.data, clock);
    let user = t.metas.first().map(|m| m.key).unwrap_or_default();
    let (quote, real, conv, name) = match op {
        Op::Stake { amount } => (lang.quote(true, amount, n, s), supply(&t.post).wrapping_sub(s), stake_out(amount, n, s), "convert_orca_to_xorca"),
        Op::Unstake { amount, idx } => {
            let claim = pw(&t.post, &user, idx).map(|x| x.amount).unwrap_or(0);
            (lang.quote(false, amount, n, s), claim, unstake_out(amount, n, s), "convert_xorca_to_orca")
        }
        _ => return Ok(()),
    };
    let what = || format!("{} with {n} ORCA backing {s} xORCA", describe(&t.ix));
    match &t.result {
        Ok(()) => {
            stats.add("oracle_quotes_executed", 1);
            if quote != Ok(real) {
                return v(p, "quote_differs", format!("{}: the program gave {real}, {name} quotes {quote:?}", what()));
            }
        }
        Err(e) => {
            let promised = matches!(quote, Ok(q) if q > 0);
            // Patched pools may hold figures the token program itself cannot move.
            let fits = match op {
                Op::Unstake { amount, .. } => amount <= s,
                Op::Stake { amount } => vault_amount(&t.pre).checked_add(amount).is_some() && quote.as_ref().is_ok_and(|q| s.checked_add(*q).is_some()),
                _ => false,
            };
            if j.must_accept() && promised && fits {
                return v(p, "quote_not_honoured", format!("{}: {name} quotes {quote:?} but the program refuses: {e:?}", what()));
            }
            let only_conversion = !j.reasons.is_empty() && j.reasons.iter().all(|r| matches!(r, Reason::ZeroOut | Reason::Overflow));
            if only_conversion && (conv.is_none() || conv == Some(0)) {
                stats.add("oracle_quotes_refused", 1);
                // Exact integers have no 128-bit intermediate: only a result beyond u64
                // is beyond them. No token supply makes such products.
                let wide = lang == Lang::Js && matches!(op, Op::Stake { amount } | Op::Unstake { amount, .. } if product_beyond_u128(amount, op, n, s));
                if promised && !wide {
                    return v(p, "quote_for_refused", format!("{}: the program refuses the conversion ({e:?}), {name} quotes {quote:?}", what()));
                }
            }
        }
    }
    Ok(())
}

/// A hypothetical pool on which one operation is quoted and executed.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub struct Probe {
    pub stake: bool,
    pub amount: u64,
    pub backing: u64,
    pub escrow: u64,
    pub supply: u64,
}
fn patch(l: &mut Ledger, key: Key, off: usize, x: u64) {
    let mut a = l.get(&key);
    if a.data.len() >= off + 8 {
        let mut d = a.data.as_ref().clone();
        d[off..off + 8].copy_from_slice(&x.to_le_bytes());
        a.data = Arc::new(d);
        l.set(key, a);
    }
}
pub fn probe(lang: Lang, w: &mut World, p: &Probe) -> Result<(), Violation> {
    if state(&w.ledger).is_none() || p.backing.checked_add(p.escrow).is_none() || tok(&w.ledger, &k().vault).is_none() {
        return Ok(());
    }
    w.stats.add("probes", 1);
    let mut l = w.ledger.clone();
    let u = Name::User(0);
    patch(&mut l, k().vault, 64, p.backing + p.escrow);
    patch(&mut l, k().xorca_mint, 36, p.supply);
    let mut st = state(&l).unwrap();
    st.escrow = p.escrow;
    st.cooldown = 0;
    let mut a = l.get(&k().state);
    a.data = state_bytes(&st);
    l.set(k().state, a);
    l.set(u.key(), Acct::wallet(100_000_000_000));
    let rent = rent_min(165);
    for (acct, mint, amount) in [(Name::Orca2(0), k().orca_mint, if p.stake { p.amount } else { 0 }), (Name::Xorca2(0), k().xorca_mint, if p.stake { 0 } else { p.amount })] {
        l.set(acct.key(), Acct { lamports: rent, data: token_bytes(&mint, &u.key(), amount), owner: k().token_program, executable: false });
    }
    let idx = (0..=255u8).find(|i| l.lamports(&pw_key(&u.key(), *i).0) == 0).unwrap_or(9);
    let op = if p.stake { Op::Stake { amount: p.amount } } else { Op::Unstake { amount: p.amount, idx } };
    let ix = canonical(&op, &u.key(), &SYSTEM, &Name::Orca2(0).key(), &Name::Xorca2(0).key());
    let clock = Clock { slot: w.clock.slot, unix: w.clock.unix.min(1 << 60) };
    let out = execute(&mut l, &Tx { payer: Name::User(FAUCET).key(), ixs: vec![ix] }, clock, None);
    for t in &out.ixs {
        compare(lang, t, clock, &mut w.stats)?;
    }
    Ok(())
}
