//! The real JavaScript client, running in a node process that this process drives in
//! lockstep: it has no clock, timer, randomness or network of its own.
use xsim::svm::SYSTEM;
use crate::net::*;
use base64::{engine::general_purpose::STANDARD, Engine as _};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use xsim::abi::*;
use xsim::svm::{Ix, Key, Meta};
use xsim::world::{IxSpec, Kind};

struct Node {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// Drive the command-line scripts instead of the client.
pub static SCRIPTS: AtomicBool = AtomicBool::new(false);
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
/// The harness itself is broken: no verdict.
fn give_up(what: &str) -> ! {
    eprintln!("JavaScript harness: {what}");
    std::process::exit(2)
}
fn spawn() -> Node {
    let root = crate::root();
    let mut child = Command::new("node")
        .arg(root.join("sim/js/driver.mjs"))
        .args(if SCRIPTS.load(Ordering::Relaxed) { vec!["-".into(), root.join("target/js/scripts")] } else { vec![root.join("target/js/client.cjs")] })
        .env_remove("NODE_OPTIONS")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| give_up(&format!("node does not start: {e}")));
    let (stdin, stdout) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Node { child, stdin, stdout }
}
fn talk(v: &Value) -> Value {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.get_or_insert_with(spawn);
        let mut line = v.to_string();
        line.push('\n');
        if n.stdin.write_all(line.as_bytes()).and_then(|_| n.stdin.flush()).is_err() {
            give_up("node went away");
        }
        let mut back = String::new();
        match n.stdout.read_line(&mut back) {
            Ok(x) if x > 0 => serde_json::from_str(&back).unwrap_or_else(|e| give_up(&format!("bad line from node: {e}"))),
            _ => give_up("node went away"),
        }
    })
}
/// A fresh instance of the client: nothing is remembered from earlier runs.
pub fn reset() {
    talk(&json!({ "op": "reset" }));
}
pub enum Done {
    Value(Value),
    Threw(String),
    /// Unhandled rejection, endless requests, or a promise that never settles.
    Broken(String),
}
const MAX_REQUESTS: usize = 64;
fn run(op: Value, mut serve: impl FnMut(&Value) -> Value) -> Done {
    let mut m = talk(&op);
    let mut n = 0;
    loop {
        if let Some(v) = m.get("done") {
            return Done::Value(v.clone());
        }
        if let Some(e) = m.get("threw") {
            return Done::Threw(e.as_str().unwrap_or("").to_string());
        }
        if let Some(e) = m.get("crashed") {
            return Done::Broken(format!("unhandled error: {e}"));
        }
        if m.get("hung").is_some() {
            return Done::Broken("the promise never settles".into());
        }
        n += 1;
        if n > if SCRIPTS.load(Ordering::Relaxed) { 1500 } else { MAX_REQUESTS } {
            // This node process is mid-call; the next run gets another one.
            NODE.with(|n| *n.borrow_mut() = None);
            return Done::Broken(format!("no end after {} requests and timers", n - 1));
        }
        m = talk(&serve(&m));
    }
}
/// Operations that need no network.
fn local(op: Value) -> Result<Value, String> {
    match run(op, |_| json!({ "timer": true, "err": { "code": -32601, "message": "no network here" } })) {
        Done::Value(v) => Ok(v),
        Done::Threw(e) | Done::Broken(e) => Err(e),
    }
}
pub fn call(net: &Shared, op: Value) -> Done {
    run(op, |m| lock(net).serve_js(m))
}

// ------------------------------------------------------------------ values
fn big<T: std::str::FromStr>(v: &Value) -> Option<T> {
    match v {
        Value::String(s) => s.parse().ok(),
        _ => None,
    }
}
fn small(v: &Value) -> Option<u8> {
    v.as_u64().and_then(|x| u8::try_from(x).ok())
}
pub fn key_of(v: &Value) -> Option<Key> {
    v.as_str().and_then(unb58)
}
fn hex_of(v: &Value) -> Option<Vec<u8>> {
    unhex(v["hex"].as_str()?)
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(s.get(i..i + 2)?, 16).ok()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn st_of(v: &Value) -> Option<St> {
    (v["discriminator"] == 1).then_some(())?;
    Some(St {
        bump: small(&v["bump"])?,
        vault_bump: small(&v["vaultBump"])?,
        escrow: big(&v["escrowedOrcaAmount"])?,
        cooldown: big(&v["coolDownPeriodS"])?,
        authority: key_of(&v["updateAuthority"])?,
    })
}
pub fn pw_of(v: &Value) -> Option<Pw> {
    (v["discriminator"] == 2).then_some(())?;
    Some(Pw {
        bump: small(&v["bump"])?,
        idx: small(&v["withdrawIndex"])?,
        unstaker: key_of(&v["unstaker"])?,
        amount: big(&v["withdrawableOrcaAmount"])?,
        ts: big(&v["withdrawableTimestamp"])?,
    })
}
pub fn ev_of(v: &Value) -> Option<Ev> {
    let n = |f: &str| big::<u64>(&v[f]);
    Some(match v["__kind"].as_str()? {
        "Stake" => Ev::Stake {
            amount: n("orcaStakeAmount")?,
            vault: n("vaultOrcaAmount")?,
            escrow: n("vaultEscrowedOrcaAmount")?,
            supply: n("xorcaMintSupply")?,
            minted: n("xorcaToMint")?,
        },
        "Unstake" => Ev::Unstake {
            amount: n("xorcaUnstakeAmount")?,
            vault: n("vaultOrcaAmount")?,
            escrow: n("vaultEscrowedOrcaAmount")?,
            supply: n("xorcaMintSupply")?,
            claim: n("withdrawableOrcaAmount")?,
            cooldown: big(&v["coolDownPeriodS"])?,
            idx: small(&v["withdrawIndex"])?,
        },
        "Withdraw" => Ev::Withdraw {
            escrow: n("vaultEscrowedOrcaAmount")?,
            claim: n("withdrawableOrcaAmount")?,
            cooldown: big(&v["coolDownPeriodS"])?,
            idx: small(&v["withdrawIndex"])?,
        },
        "UpdateAuthoritySet" => Ev::Authority { new: key_of(&v["newAuthority"])?, by: key_of(&v["setBy"])? },
        _ => return None,
    })
}
pub fn u64_of(v: &Value) -> Option<u64> {
    big(v)
}
pub fn i64_of(v: &Value) -> Option<i64> {
    big(v)
}
/// Fields of a fetched account: contents, lamports, owner, address.
pub fn fetched(v: &Value) -> Option<(&Value, u64, Key, Key)> {
    (v["exists"] == true).then_some(())?;
    Some((&v["data"], big(&v["lamports"])?, key_of(&v["owner"])?, key_of(&v["address"])?))
}

// ------------------------------------------------------------------ instructions
/// The instruction the JavaScript client builds for this request; Err: it throws, or
/// what it builds does not survive its own parser.
pub fn instruction(spec: &IxSpec) -> Option<Result<Ix, String>> {
    let x = k();
    let mut o = json!({ "op": "ix", "token": b58(&x.token_program), "system": b58(&SYSTEM), "ata": b58(&x.ata_program), "orcaMint": b58(&x.orca_mint), "xorcaMint": b58(&x.xorca_mint) });
    let mut set = |f: &str, v: Value| {
        o[f] = v;
    };
    let (kind, fields): (&str, Vec<(&str, Value)>) = match &spec.kind {
        Kind::Stake { u, amount, orca, xorca } => {
            ("Stake", vec![("user", json!(b58(&u.key()))), ("amount", json!(amount.to_string())), ("orca", json!(b58(&orca.key()))), ("xorca", json!(b58(&xorca.key())))])
        }
        Kind::Unstake { u, amount, idx, xorca } => {
            ("Unstake", vec![("user", json!(b58(&u.key()))), ("amount", json!(amount.to_string())), ("idx", json!(idx)), ("xorca", json!(b58(&xorca.key())))])
        }
        Kind::Withdraw { u, idx, orca } => ("Withdraw", vec![("user", json!(b58(&u.key()))), ("idx", json!(idx)), ("orca", json!(b58(&orca.key())))]),
        Kind::Init { payer, authority, cooldown } => {
            ("Init", vec![("payer", json!(b58(&payer.key()))), ("authority", json!(b58(&authority.key()))), ("cooldown", json!(cooldown.to_string()))])
        }
        Kind::SetCooldown { by, cooldown } => ("SetCooldown", vec![("by", json!(b58(&by.key()))), ("cooldown", json!(cooldown.to_string()))]),
        Kind::SetAuthority { by, to } => ("SetAuthority", vec![("by", json!(b58(&by.key()))), ("to", json!(b58(&to.key())))]),
        _ => return None,
    };
    set("kind", json!(kind));
    for (f, v) in fields {
        set(f, v);
    }
    Some(local(o).and_then(|v| {
        let metas = |l: &Value| -> Option<Vec<Meta>> {
            l.as_array()?
                .iter()
                .map(|a| {
                    let role = a[1].as_u64()?;
                    Some(Meta { key: key_of(&a[0])?, signer: role & 2 != 0, writable: role & 1 != 0 })
                })
                .collect()
        };
        let ix = (|| Some(Ix { program: key_of(&v["program"])?, accounts: metas(&v["accounts"])?, data: hex_of(&v["data"])? }))().ok_or_else(|| format!("built {v}"))?;
        reparse(spec, &ix, &v).map(|_| ix)
    }))
}
/// What the client's own parser and identifier say about an instruction it built.
fn reparse(spec: &IxSpec, ix: &Ix, v: &Value) -> Result<(), String> {
    let (name, p) = (v["kind"].as_str().unwrap_or("?"), &v["parsed"]);
    let acct = |f: &str| key_of(&p["accounts"][f][0]);
    let d = &p["data"];
    let x = k();
    let common = |f: &str| acct(f) == Some(x.state);
    if v["odd"].as_array().is_none_or(|l| !l.is_empty()) {
        return Err(format!("disagrees with itself about what it built: {}", v["odd"]));
    }
    let ok = v["kind"] == v["kindBare"]
        && key_of(&p["program"]) == Some(ix.program)
        && common("stateAccount")
        && match &spec.kind {
            Kind::Stake { u, amount, orca, xorca } => {
                name == "Stake"
                    && d["discriminator"] == 0
                    && u64_of(&d["orcaStakeAmount"]) == Some(*amount)
                    && acct("stakerAccount") == Some(u.key())
                    && acct("stakerOrcaAta") == Some(orca.key())
                    && acct("stakerXorcaAta") == Some(xorca.key())
                    && acct("vaultAccount") == Some(x.vault)
                    && acct("xorcaMintAccount") == Some(x.xorca_mint)
                    && acct("orcaMintAccount") == Some(x.orca_mint)
                    && acct("tokenProgramAccount") == Some(x.token_program)
            }
            Kind::Unstake { u, amount, idx, xorca } => {
                name == "Unstake"
                    && d["discriminator"] == 1
                    && u64_of(&d["xorcaUnstakeAmount"]) == Some(*amount)
                    && d["withdrawIndex"] == *idx
                    && acct("unstakerAccount") == Some(u.key())
                    && acct("pendingWithdrawAccount") == Some(pw_key(&u.key(), *idx).0)
                    && acct("unstakerXorcaAta") == Some(xorca.key())
                    && acct("vaultAccount") == Some(x.vault)
                    && acct("xorcaMintAccount") == Some(x.xorca_mint)
                    && acct("orcaMintAccount") == Some(x.orca_mint)
                    && acct("systemProgramAccount") == Some(SYSTEM)
                    && acct("tokenProgramAccount") == Some(x.token_program)
            }
            Kind::Withdraw { u, idx, orca } => {
                name == "Withdraw"
                    && d["discriminator"] == 2
                    && d["withdrawIndex"] == *idx
                    && acct("unstakerAccount") == Some(u.key())
                    && acct("pendingWithdrawAccount") == Some(pw_key(&u.key(), *idx).0)
                    && acct("unstakerOrcaAta") == Some(orca.key())
                    && acct("vaultAccount") == Some(x.vault)
                    && acct("orcaMintAccount") == Some(x.orca_mint)
                    && acct("systemProgramAccount") == Some(SYSTEM)
                    && acct("tokenProgramAccount") == Some(x.token_program)
            }
            Kind::Init { payer, authority, cooldown } => {
                name == "Initialize"
                    && d["discriminator"] == 3
                    && i64_of(&d["coolDownPeriodS"]) == Some(*cooldown)
                    && acct("payerAccount") == Some(payer.key())
                    && acct("updateAuthorityAccount") == Some(authority.key())
                    && acct("vaultAccount") == Some(x.vault)
                    && acct("xorcaMintAccount") == Some(x.xorca_mint)
                    && acct("orcaMintAccount") == Some(x.orca_mint)
                    && acct("systemProgramAccount") == Some(SYSTEM)
                    && acct("tokenProgramAccount") == Some(x.token_program)
                    && acct("associatedTokenProgramAccount") == Some(x.ata_program)
            }
            Kind::SetCooldown { by, cooldown } => {
                name == "Set"
                    && d["discriminator"] == 4
                    && d["instructionData"]["__kind"] == "UpdateCoolDownPeriod"
                    && i64_of(&d["instructionData"]["newCoolDownPeriodS"]) == Some(*cooldown)
                    && acct("updateAuthorityAccount") == Some(by.key())
            }
            Kind::SetAuthority { by, to } => {
                name == "Set"
                    && d["discriminator"] == 4
                    && d["instructionData"]["__kind"] == "UpdateUpdateAuthority"
                    && key_of(&d["instructionData"]["newAuthority"]) == Some(to.key())
                    && acct("updateAuthorityAccount") == Some(by.key())
            }
            _ => true,
        };
    if ok {
        Ok(())
    } else {
        Err(format!("identified as {name}, parsed back as {p}"))
    }
}
/// For the simulator's clients: what the JavaScript client builds, or (when it cannot) an
/// instruction nobody understands, so that the oracle sees the difference.
pub fn make(spec: &IxSpec, _variant: u32) -> Option<Ix> {
    if !spec.muts.is_empty() {
        return None;
    }
    Some(instruction(spec)?.unwrap_or_else(|_| Ix { program: k().program, accounts: vec![], data: vec![0xEE] }))
}

// ------------------------------------------------------------------ decoding
/// (contents, whether re-encoding gives the same bytes, raw answer)
pub fn decode(what: &str, data: &[u8], address: &Key, owner: &Key) -> Result<Value, String> {
    local(json!({ "op": "decode", "what": what, "hex": hex(data), "address": b58(address), "owner": b58(owner) }))
}
pub fn error(code: u32, index: usize, programs: &[Key]) -> Result<Value, String> {
    local(json!({ "op": "error", "code": code, "index": index, "programs": programs.iter().map(b58).collect::<Vec<_>>() }))
}
pub fn pda(user: &Key, idx: u8) -> Result<Value, String> {
    local(json!({ "op": "pda", "user": b58(user), "idx": idx, "token": b58(&k().token_program), "orcaMint": b58(&k().orca_mint) }))
}
/// None: refuses, or a figure no 64-bit amount can hold.
pub fn quote(stake: bool, amount: u64, backing: u64, supply: u64) -> Result<u64, String> {
    let s = |x: u64| x.to_string();
    let v = local(json!({ "op": "quote", "stake": stake, "amount": s(amount), "backing": s(backing), "supply": s(supply) }))?;
    u64_of(&v).ok_or_else(|| format!("{v}"))
}
/// The bytes an answer carries, for the encodings a JavaScript client may ask for.
pub fn encode(d: &[u8], cfg: &Value, multiple: bool) -> Result<Value, (i64, &'static str)> {
    const BIG: (i64, &str) = (-32600, "Encoded binary (base 58) data should be less than 128 bytes, please use Base64 encoding.");
    match cfg["encoding"].as_str() {
        None if !multiple => {
            if d.len() > 128 {
                return Err(BIG);
            }
            Ok(json!(bs58::encode(d).into_string()))
        }
        Some("base58") => {
            if d.len() > 128 {
                return Err(BIG);
            }
            Ok(json!([bs58::encode(d).into_string(), "base58"]))
        }
        _ => Ok(json!([STANDARD.encode(d), "base64"])),
    }
}
