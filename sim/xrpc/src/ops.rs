//! Client calls and their oracles (C03, C04, C05).
use crate::js;
use crate::make::claim_addr;
use crate::net::*;
use crate::script::{self, Cmd};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use solana_client::rpc_client::{RpcClient, RpcClientConfig};
use solana_pubkey::Pubkey;
use solana_sdk::commitment_config::CommitmentConfig;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xorca::*;
use xsim::abi::*;
use xsim::check::Violation;
use xsim::model::label;
use xsim::svm::{Acct, Key, Ledger};

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Query {
    StateData,
    StateAccount,
    MaybeState,
    Cooldown,
    Vault,
    Supply,
    Claim(Name, u8),
    /// Claims at this index and two others, in one request.
    Claims(Name, u8),
    /// The same, all of them required.
    AllClaims(Name, u8),
    MaybeClaim(Name, u8),
    /// The pool state as a list.
    AllStates,
    /// The pool state and an address that holds nothing.
    MaybeStates,
    List { user: Name, max: Option<u8> },
    Rate,
    /// A command-line script is run.
    Script(Cmd),
}

pub fn client(net: &Shared) -> RpcClient {
    RpcClient::new_sender(Sender(net.clone()), RpcClientConfig::with_commitment(CommitmentConfig::confirmed()))
}
pub fn v<T>(prop: &str, class: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { prop: prop.into(), class: class.into(), msg })
}
pub fn same_state(s: &State, w: &St) -> bool {
    s.discriminator == AccountDiscriminator::State
        && (s.bump, s.vault_bump, s.escrowed_orca_amount, s.cool_down_period_s) == (w.bump, w.vault_bump, w.escrow, w.cooldown)
        && s.update_authority.to_bytes() == w.authority
}
pub fn same_claim(p: &PendingWithdraw, w: &Pw) -> bool {
    p.discriminator == AccountDiscriminator::PendingWithdraw
        && (p.bump, p.withdraw_index, p.withdrawable_orca_amount, p.withdrawable_timestamp) == (w.bump, w.idx, w.amount, w.ts)
        && p.unstaker.to_bytes() == w.unstaker
}
fn pw_of(p: &PendingWithdraw) -> Option<Pw> {
    (p.discriminator == AccountDiscriminator::PendingWithdraw).then_some(Pw {
        bump: p.bump,
        idx: p.withdraw_index,
        unstaker: p.unstaker.to_bytes(),
        amount: p.withdrawable_orca_amount,
        ts: p.withdrawable_timestamp,
    })
}
fn trio(i: u8) -> [u8; 3] {
    [i, i.wrapping_add(1), 0]
}
/// An address nobody uses.
const NOWHERE: Key = [0xE7; 32];
fn same_acct(got: &solana_sdk::account::Account, want: &Acct) -> bool {
    got.lamports == want.lamports && got.data == *want.data && got.owner.to_bytes() == want.owner
}

/// One answer of the client, reduced to what is compared.
enum Got {
    /// Holds on this ledger?
    Is(Box<dyn Fn(&Ledger) -> bool>, String),
    List(Vec<Pw>),
    Err(String),
    Crash(String),
}

pub fn call(prop: &str, net: &Shared, rpc: Option<&RpcClient>, q: &Query) -> Result<(), Violation> {
    {
        let mut n = lock(net);
        let l = n.world.ledger.clone();
        n.seen = vec![l];
        n.faulted = false;
        n.cursor = 0;
        n.world.stats.add("client_calls", 1);
    }
    let q = *q;
    if let Query::Script(c) = q {
        return script::call(prop, net, &c);
    }
    let res = match rpc {
        Some(rpc) => catch_unwind(AssertUnwindSafe(|| ask(rpc, &q))).unwrap_or(Got::Crash("panicked".into())),
        None => ask_js(net, &q),
    };
    let mut n = lock(net);
    if let Some(v) = n.violation.take() {
        return Err(v);
    }
    let got = match res {
        Got::Crash(e) => return v(prop, "client_crashed", format!("{q:?}: {e} (after {} requests)", n.cursor)),
        g => g,
    };
    let (requests, faulted, seen) = (n.cursor, n.faulted, std::mem::take(&mut n.seen));
    let stats = &mut n.world.stats;
    stats.add(if seen.len() > 1 { "oracle_calls_racing_blocks" } else { "oracle_calls_quiet" }, 1);
    let how = format!("{requests} requests, {} ledger states during the call{}", seen.len(), if faulted { ", transport faults" } else { "" });
    // Is the thing there to be read, on this ledger?
    let there = |l: &Ledger| match q {
        Query::StateData | Query::StateAccount | Query::AllStates | Query::Cooldown => state(l).is_some(),
        Query::Vault => tok(l, &k().vault).is_some(),
        Query::Supply => mint(l, &k().xorca_mint).is_some(),
        Query::Claim(u, i) => pw(l, &u.key(), i).is_some(),
        Query::Rate => state(l).is_some_and(|s| vault_amount(l) >= s.escrow) && tok(l, &k().vault).is_some(),
        Query::MaybeState | Query::MaybeStates => state(l).is_some() || l.lamports(&k().state) == 0,
        Query::Claims(u, i) => trio(i).iter().all(|i| pw(l, &u.key(), *i).is_some() || l.lamports(&pw_key(&u.key(), *i).0) == 0),
        Query::AllClaims(u, i) => trio(i).iter().all(|i| pw(l, &u.key(), *i).is_some()),
        Query::MaybeClaim(u, i) => pw(l, &u.key(), i).is_some() || l.lamports(&pw_key(&u.key(), i).0) == 0,
        Query::List { .. } | Query::Script(_) => true,
    };
    let outcome = match got {
        Got::Err(e) => {
            if !faulted && seen.iter().all(there) {
                return v(prop, "healthy_read_failed", format!("{q:?} failed although the transport was healthy and the account was there ({how}): {e}"));
            }
            "client_errors"
        }
        Got::Crash(_) => unreachable!(),
        Got::Is(f, show) => {
            if !seen.iter().any(|l| f(l)) {
                let real = seen.iter().map(|l| describe(l)).collect::<Vec<_>>();
                return v(prop, "value_never_existed", format!("{q:?} answered {show}, which the ledger never had during the call ({how}; {})", real.join(" -> ")));
            }
            "client_values"
        }
        Got::List(list) => {
            let Query::List { user, max } = q else { unreachable!() };
            let (user, lim) = (user.key(), max.unwrap_or(15));
            let mut last: Option<u8> = None;
            for p in &list {
                let i = p.idx;
                if i >= lim || last.is_some_and(|x| x >= i) {
                    return v(prop, "listing_order", format!("{q:?} listed index {i} after {last:?} with limit {lim} ({how})"));
                }
                last = Some(i);
                if !seen.iter().any(|l| pw(l, &user, i).is_some_and(|w| w == *p)) {
                    return v(
                        prop,
                        "claim_never_existed",
                        format!(
                            "{q:?} listed claim (index {i}, amount {}, ready {}) of {}, which {} never had during the call ({how})",
                            p.amount, p.ts, b58(&p.unstaker), label(&user)
                        ),
                    );
                }
            }
            for i in 0..lim {
                if rpc.is_some() && claim_addr(&user, i).to_bytes() != pw_key(&user, i).0 {
                    return v(prop, "wrong_address", format!("the client looks for claim {i} of {} at a wrong address", label(&user)));
                }
                if seen.iter().all(|l| pw(l, &user, i).is_some()) {
                    stats.add("oracle_claims_expected", 1);
                    if !list.iter().any(|p| p.idx == i) {
                        return v(prop, "claim_missing", format!("{q:?} did not list claim {i} of {}, open throughout the call ({how})", label(&user)));
                    }
                }
            }
            stats.add("client_listed_claims", list.len() as u64);
            if seen.iter().any(|l| (0..lim).any(|i| l.lamports(&pw_key(&user, i).0) > 0 && pw(l, &user, i).is_none())) {
                stats.add("fault_prefunded_address_searched", 1);
            }
            "client_values"
        }
    };
    stats.add(outcome, 1);
    let len = seen.len() as u64;
    n.hist.u64(len << 8 | (outcome == "client_errors") as u64 | (requests as u64) << 32);
    Ok(())
}
fn describe(l: &Ledger) -> String {
    match state(l) {
        Some(s) => format!("vault {} escrow {} supply {} cooldown {}", vault_amount(l), s.escrow, supply(l), s.cooldown),
        None => "not initialised".into(),
    }
}
fn of<T, E: std::fmt::Debug>(r: Result<T, E>, f: impl FnOnce(T) -> Got) -> Got {
    match r {
        Ok(x) => f(x),
        Err(e) => Got::Err(format!("{e:?}").chars().take(200).collect()),
    }
}
fn is(show: String, f: impl Fn(&Ledger) -> bool + 'static) -> Got {
    Got::Is(Box::new(f), show)
}
fn show_state(s: &State) -> String {
    format!("state(escrow {}, cooldown {}, authority {})", s.escrowed_orca_amount, s.cool_down_period_s, s.update_authority)
}

fn ask(rpc: &RpcClient, q: &Query) -> Got {
    let state_addr = Pubkey::new_from_array(k().state);
    match *q {
        Query::StateData => of(fetch_state_account_data(rpc), |s| is(show_state(&s), move |l| state(l).is_some_and(|w| same_state(&s, &w)))),
        Query::StateAccount => of(fetch_state(rpc, &state_addr), |d| {
            is(show_state(&d.data), move |l| {
                d.address == state_addr && state(l).is_some_and(|w| same_state(&d.data, &w)) && same_acct(&d.account, &l.get(&k().state))
            })
        }),
        Query::MaybeState => of(fetch_maybe_state(rpc, &state_addr), maybe_state),
        Query::AllStates => of(fetch_all_state(rpc, &[state_addr, state_addr]), |list| match list.as_slice() {
            [a, b] if a.address == b.address && a.data == b.data && a.account == b.account => maybe_state(MaybeAccount::Exists(a.clone())),
            _ => is(format!("{} pool states", list.len()), |_| false),
        }),
        Query::MaybeStates => {
            let nowhere = Pubkey::new_from_array(NOWHERE);
            of(fetch_all_maybe_state(rpc, &[nowhere, state_addr]), |list| match list.as_slice() {
                [MaybeAccount::NotFound(a), m] if *a == nowhere => maybe_state(m.clone()),
                _ => is(format!("{} pool states", list.len()), |_| false),
            })
        }
        Query::MaybeClaim(u, i) => {
            let addr = claim_addr(&u.key(), i);
            of(fetch_maybe_pending_withdraw(rpc, &addr), |m| match m {
                MaybeAccount::Exists(d) => one_claim(u, i, d),
                MaybeAccount::NotFound(a) => is(format!("nothing at {a}"), move |l| a == addr && l.lamports(&addr.to_bytes()) == 0),
            })
        }
        Query::AllClaims(u, i) => {
            let keys: Vec<Pubkey> = trio(i).iter().map(|i| claim_addr(&u.key(), *i)).collect();
            of(fetch_all_pending_withdraw(rpc, &keys), move |list| {
                if list.iter().map(|d| d.address).ne(keys) {
                    return is("claims at other addresses".into(), |_| false);
                }
                let none = Pw { bump: 0, idx: 0, unstaker: [0; 32], amount: 0, ts: 0 };
                trio_is(u, i, list.iter().map(|d| Some(pw_of(&d.data).unwrap_or(none))).collect())
            })
        }
        Query::Cooldown => of(fetch_state_account_cool_down_period_s(rpc), |c| is(format!("cooldown {c}"), move |l| state(l).is_some_and(|w| w.cooldown == c))),
        Query::Vault => of(fetch_vault_state(rpc), |x| {
            is(format!("{x:?}"), move |l| {
                x.address.to_bytes() == k().vault && tok(l, &k().vault).is_some_and(|t| t.amount == x.amount && t.owner == x.owner.to_bytes() && t.mint == x.mint.to_bytes())
            })
        }),
        Query::Supply => of(fetch_xorca_mint_supply(rpc), |s| is(format!("supply {s}"), move |l| mint(l, &k().xorca_mint).is_some_and(|m| m.supply == s))),
        Query::Claim(u, i) => {
            of(fetch_pending_withdraw(rpc, &claim_addr(&u.key(), i)), |d| one_claim(u, i, d))
        }
        Query::List { user, max } => of(fetch_pending_withdraws_for_staker(rpc, &Pubkey::new_from_array(user.key()), max), |l| match l.iter().map(pw_of).collect() {
            Some(l) => Got::List(l),
            None => is("a claim that is none".into(), |_| false),
        }),
        Query::Claims(u, i) => {
            let keys: Vec<Pubkey> = trio(i).iter().map(|i| claim_addr(&u.key(), *i)).collect();
            of(fetch_all_maybe_pending_withdraw(rpc, &keys), move |list| {
                let got: Vec<Option<Pw>> = list
                    .iter()
                    .map(|m| match m {
                        MaybeAccount::Exists(d) => Some(pw_of(&d.data).unwrap_or(Pw { bump: 0, idx: 0, unstaker: [0; 32], amount: 0, ts: 0 })),
                        MaybeAccount::NotFound(_) => None,
                    })
                    .collect();
                trio_is(u, i, got)
            })
        }
        Query::Rate => of(fetch_staking_exchange_rate(rpc), |r| {
            is(format!("{}/{}", r.numerator, r.denominator), move |l| {
                state(l).is_some_and(|s| vault_amount(l).checked_sub(s.escrow) == Some(r.numerator)) && supply(l) == r.denominator
            })
        }),
        Query::Script(_) => no_query(),
    }
}

fn maybe_state(m: MaybeAccount<State>) -> Got {
    let state_addr = Pubkey::new_from_array(k().state);
    match m {
        MaybeAccount::Exists(d) => is(show_state(&d.data), move |l| {
            d.address == state_addr && state(l).is_some_and(|w| same_state(&d.data, &w)) && same_acct(&d.account, &l.get(&k().state))
        }),
        MaybeAccount::NotFound(a) => is(format!("nothing at {a}"), move |l| a == state_addr && l.lamports(&k().state) == 0),
    }
}
fn one_claim(u: Name, i: u8, d: DecodedAccount<PendingWithdraw>) -> Got {
    let (user, addr) = (u.key(), claim_addr(&u.key(), i));
    is(format!("claim {:?}", (d.data.withdraw_index, d.data.withdrawable_orca_amount, d.data.withdrawable_timestamp)), move |l| {
        d.address == addr && pw(l, &user, i).is_some_and(|w| same_claim(&d.data, &w)) && same_acct(&d.account, &l.get(&addr.to_bytes()))
    })
}
fn no_query() -> Got {
    Got::Err("not a query".into())
}
fn trio_is(u: Name, i: u8, got: Vec<Option<Pw>>) -> Got {
    is(format!("claims {got:?}"), move |l| got.len() == 3 && trio(i).iter().zip(&got).all(|(i, g)| *g == pw(l, &u.key(), *i) && (g.is_some() || l.lamports(&pw_key(&u.key(), *i).0) == 0)))
}

// ------------------------------------------------------------------ the JavaScript client
fn ask_js(net: &Shared, q: &Query) -> Got {
    let mut o = json!({ "op": "call", "state": b58(&k().state) });
    let name = match *q {
        Query::StateData => "StateData",
        Query::StateAccount => "StateAccount",
        Query::MaybeState => "MaybeState",
        Query::Cooldown => "Cooldown",
        Query::Vault => "Vault",
        Query::Supply => "Supply",
        Query::AllStates => "AllStates",
        Query::MaybeStates => {
            o["nowhere"] = json!(b58(&NOWHERE));
            "MaybeStates"
        }
        Query::Claim(u, i) | Query::MaybeClaim(u, i) => {
            o["claim"] = json!(b58(&pw_key(&u.key(), i).0));
            if matches!(q, Query::Claim(..)) {
                "Claim"
            } else {
                "MaybeClaim"
            }
        }
        Query::Claims(u, i) | Query::AllClaims(u, i) => {
            o["claims"] = json!(trio(i).map(|i| b58(&pw_key(&u.key(), i).0)));
            if matches!(q, Query::Claims(..)) {
                "Claims"
            } else {
                "AllClaims"
            }
        }
        Query::List { user, max } => {
            o["user"] = json!(b58(&user.key()));
            o["max"] = json!(max);
            "List"
        }
        Query::Rate => "Rate",
        Query::Script(_) => return no_query(),
    };
    o["query"] = json!(name);
    let val = match js::call(net, o) {
        js::Done::Value(v) => v,
        js::Done::Threw(e) => return Got::Err(e),
        js::Done::Broken(e) => return Got::Crash(e),
    };
    let nonsense = || {
        let text: String = val.to_string().chars().take(200).collect();
        is(format!("the nonsense {text}"), |_| false)
    };
    let account = |v: &Value, key: Key| -> Option<(Value, Acct)> {
        let (data, lamports, owner, address) = js::fetched(v)?;
        (address == key).then(|| (data.clone(), Acct { lamports, owner, data: Default::default(), executable: false }))
    };
    let fits = |a: &Acct, w: &Acct| a.lamports == w.lamports && a.owner == w.owner;
    match *q {
        Query::StateData => match js::st_of(&val) {
            Some(s) => is(format!("{s:?}"), move |l| state(l) == Some(s)),
            None => nonsense(),
        },
        Query::StateAccount | Query::MaybeState | Query::AllStates | Query::MaybeStates => {
            let val = match (q, val.as_array().map(|l| l.as_slice())) {
                (Query::AllStates, Some([a, b])) if a == b => a.clone(),
                (Query::MaybeStates, Some([a, b])) if a["exists"] == false && js::key_of(&a["address"]) == Some(NOWHERE) => b.clone(),
                (Query::AllStates | Query::MaybeStates, _) => return nonsense(),
                _ => val.clone(),
            };
            if val["exists"] == false && js::key_of(&val["address"]) == Some(k().state) && matches!(q, Query::MaybeState | Query::MaybeStates) {
                return is("no pool state".into(), |l| l.lamports(&k().state) == 0);
            }
            match account(&val, k().state).and_then(|(d, a)| Some((js::st_of(&d)?, a))) {
                Some((s, a)) => is(format!("{s:?} with {} lamports", a.lamports), move |l| state(l) == Some(s) && fits(&a, &l.get(&k().state))),
                None => nonsense(),
            }
        }
        Query::Cooldown => match js::i64_of(&val) {
            Some(c) => is(format!("cooldown {c}"), move |l| state(l).is_some_and(|w| w.cooldown == c)),
            None => nonsense(),
        },
        Query::Vault => {
            let got = (js::key_of(&val["address"]), js::key_of(&val["owner"]), js::key_of(&val["mint"]), js::u64_of(&val["amount"]));
            is(format!("{val}"), move |l| tok(l, &k().vault).is_some_and(|t| got == (Some(k().vault), Some(t.owner), Some(t.mint), Some(t.amount))))
        }
        Query::Supply => match js::u64_of(&val) {
            Some(s) => is(format!("supply {s}"), move |l| mint(l, &k().xorca_mint).is_some_and(|m| m.supply == s)),
            None => nonsense(),
        },
        Query::Claim(u, i) | Query::MaybeClaim(u, i) => {
            let key = pw_key(&u.key(), i).0;
            if val["exists"] == false && js::key_of(&val["address"]) == Some(key) && matches!(q, Query::MaybeClaim(..)) {
                return is("no claim".into(), move |l| l.lamports(&key) == 0);
            }
            match account(&val, key).and_then(|(d, a)| Some((js::pw_of(&d)?, a))) {
                Some((p, a)) => is(format!("{p:?}"), move |l| pw(l, &u.key(), i) == Some(p) && fits(&a, &l.get(&key))),
                None => nonsense(),
            }
        }
        Query::Claims(u, i) | Query::AllClaims(u, i) => {
            let none = vec![];
            let mut got = Vec::new();
            for (n, v) in val.as_array().unwrap_or(&none).iter().enumerate() {
                let key = pw_key(&u.key(), *trio(i).get(n).unwrap_or(&0)).0;
                if v["exists"] == false && js::key_of(&v["address"]) == Some(key) {
                    got.push(None);
                } else {
                    match account(v, key).and_then(|(d, _)| js::pw_of(&d)) {
                        Some(p) => got.push(Some(p)),
                        None => return nonsense(),
                    }
                }
            }
            trio_is(u, i, got)
        }
        Query::List { .. } => match val.as_array().and_then(|l| l.iter().map(js::pw_of).collect()) {
            Some(l) => Got::List(l),
            None => nonsense(),
        },
        Query::Rate => match (js::u64_of(&val["numerator"]), js::u64_of(&val["denominator"])) {
            (Some(n), Some(d)) => {
                is(format!("{n}/{d}"), move |l| state(l).is_some_and(|s| vault_amount(l).checked_sub(s.escrow) == Some(n)) && supply(l) == d)
            }
            _ => nonsense(),
        },
        Query::Script(_) => no_query(),
    }
}
