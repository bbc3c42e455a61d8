//! The simulated RPC node and the faulty network in front of it, behind the client's own
//! `RpcSender` seam.  While a request is in flight the cluster goes on: the scheduler
//! decides how many steps it takes before the node answers and before the answer arrives.
use async_trait::async_trait;
use base64::{engine::general_purpose::STANDARD, Engine as _};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use solana_client::client_error::{ClientErrorKind, Result as RpcResult};
use solana_client::rpc_request::{RpcError, RpcRequest, RpcResponseErrorData};
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use std::sync::{Arc, Mutex, MutexGuard};
use xsim::check::Violation;
use xsim::gen::Gen;
use xsim::prng::{Fnv, Rng};
use xsim::svm::{execute, rent_min, Acct, Fault, FaultKind, Ix, IxErr, Key, Ledger, Meta, Tx, TxErr};
use xsim::world::{can_sign, Status, Step, World, OUTSIDE};

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum NetFault {
    /// Connection refused: the node never saw the request.
    Refused,
    /// The node answered, the answer was lost.
    TimedOut,
    /// HTTP 429.
    TooManyRequests,
    /// JSON-RPC error -32005 (node is behind / unhealthy).
    NodeUnhealthy,
    /// A proxy answered with something that is not the expected JSON.
    Garbage,
    /// Account data arrives cut to this many thousandths of its length.
    CutData(u16),
    /// Only one account of those in the answer is cut.
    CutOne(u8, u16),
    /// A node that lags behind answers: from the state so many changes ago, since the call began.
    Stale(u8),
}

/// What happens around one request of a client call.
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug, Default)]
pub struct Slot {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub before: Vec<Step>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<NetFault>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub after: Vec<Step>,
    /// Which of the requests in flight is answered (TIMER: a timer of the client fires).
    #[serde(default, skip_serializing_if = "is_zero")]
    pub pick: u8,
}
pub const TIMER: u8 = 255;
fn is_zero(x: &u8) -> bool {
    *x == 0
}

pub struct Chooser {
    pub gen: Gen,
    pub rng: Rng,
    pub p_fault: u64,
    pub p_mid: u64,
}

pub struct Net {
    pub world: World,
    /// Some while searching; None while replaying.
    pub choose: Option<Chooser>,
    pub slots: Vec<Slot>,
    pub cursor: usize,
    /// Every ledger the cluster had since the client call started.
    pub seen: Vec<Ledger>,
    pub faulted: bool,
    pub violation: Option<Violation>,
    pub hist: Fnv,
    /// The command-line script that is running, if one is.
    pub run: Option<Run>,
    /// Signatures of the transactions scripts sent, in this order.
    pub sigs: Vec<String>,
    pub launched: u64,
    /// Transactions of one invocation of which at most one may take effect.
    pub groups: Vec<(String, Vec<u32>)>,
    /// Key files on the disk of the script's user.
    pub files: std::collections::BTreeMap<String, String>,
}
pub type Shared = Arc<Mutex<Net>>;
pub fn lock(n: &Shared) -> MutexGuard<'_, Net> {
    n.lock().unwrap_or_else(|e| e.into_inner())
}

/// A transaction a script sent.
pub struct Sent {
    pub id: u32,
    pub payer: Key,
    pub signers: Vec<Key>,
    pub ixs: Vec<Ix>,
    /// Took effect at some time since, in a block that the cluster voted for.
    pub took: bool,
}
const UPLOAD: &str = "irysUpload";
/// What the upload service was given.
pub struct Posted {
    pub url: String,
    pub token: String,
    pub key: String,
    pub data: String,
    pub tags: Vec<(String, String)>,
    pub id: String,
}
pub struct Run {
    pub uploads: Vec<Posted>,
    pub quiet: bool,
    pub validity: u64,
    pub sent: Vec<Sent>,
    /// What the node would not take after trying it out.
    pub refused: Vec<Sent>,
    pub polls: u32,
    /// How readily its transactions are executed while searching, per cent.
    pub p_land: u64,
}
fn compute_budget() -> Key {
    xsim::abi::key_of("ComputeBudget111111111111111111111111111111")
}

impl Net {
    pub fn new(world: World, choose: Option<Chooser>) -> Self {
        Net { world, choose, slots: vec![], cursor: 0, seen: vec![], faulted: false, violation: None, hist: Fnv::new(), run: None, sigs: vec![], launched: 0, groups: vec![], files: crate::script::key_files() }
    }
    fn step(&mut self, s: &Step) {
        if self.violation.is_some() {
            return;
        }
        if let Err(v) = self.world.apply(s) {
            self.violation = Some(v);
        }
        if self.seen.last() != Some(&self.world.ledger) {
            self.seen.push(self.world.ledger.clone());
            self.world.stats.add("fault_ledger_moved_mid_call", 1);
        }
        if let Some(run) = &mut self.run {
            for s in run.sent.iter_mut().filter(|s| !s.took) {
                let slot = self.world.clock.slot;
                s.took = self.world.landed.iter().any(|l| l.id == s.id && l.ok && (run.quiet || l.clock.slot < slot));
            }
        }
    }
    /// Transactions of the running script that wait to be executed.
    fn own(&self) -> Vec<u32> {
        let waits = |id: &u32| self.world.pool.get(id).is_some_and(|p| p.status == Status::Pending);
        self.run.iter().flat_map(|r| r.sent.iter().map(|s| s.id)).filter(waits).collect()
    }
    fn steps(&mut self, given: &[Step]) -> Vec<Step> {
        match self.choose.take() {
            None => {
                for s in given {
                    self.step(s);
                }
                given.to_vec()
            }
            Some(mut c) => {
                let mut done = Vec::new();
                if self.run.as_ref().is_some_and(|r| r.quiet) {
                    self.choose = Some(c);
                    return done;
                }
                for id in self.own() {
                    if c.rng.pct(self.run.as_ref().map_or(30, |r| r.p_land)) {
                        let fault = c.rng.pct(10).then(|| Fault { at: c.rng.below(9) as u32, kind: FaultKind::Kill });
                        let s = Step::Land { id, fault };
                        self.step(&s);
                        done.push(s);
                    }
                }
                if c.rng.pct(c.p_mid) {
                    for _ in 0..c.rng.range(1, 8) {
                        let Some(mut s) = c.gen.next(&self.world) else { break };
                        if let (Step::Reorg { depth }, Some(_)) = (&mut s, &self.run) {
                            // What the cluster voted for, and a script was told so, stays.
                            *depth = 0;
                        }
                        self.step(&s);
                        done.push(s);
                    }
                }
                self.choose = Some(c);
                done
            }
        }
    }
    fn fault(&mut self, given: Option<NetFault>) -> Option<NetFault> {
        match &mut self.choose {
            None => given,
            Some(_) if self.run.as_ref().is_some_and(|r| r.quiet) => None,
            Some(c) => c.rng.pct(c.p_fault).then(|| match c.rng.below(7) {
                0 => NetFault::Refused,
                1 => NetFault::TimedOut,
                2 => NetFault::TooManyRequests,
                3 => NetFault::NodeUnhealthy,
                4 => NetFault::Garbage,
                _ => match (c.rng.below(4), if c.rng.pct(30) { 0 } else { c.rng.below(1000) as u16 }) {
                    (0, _) => NetFault::Stale(c.rng.range(1, 6) as u8),
                    (1, m) => NetFault::CutOne(c.rng.below(256) as u8, m),
                    (_, m) => NetFault::CutData(m),
                },
            }),
        }
    }
    fn serve(&mut self, request: RpcRequest, params: Value) -> RpcResult<Value> {
        self.serve_one(&[(request, params)], 0).1
    }
    /// One scheduling decision while a client waits: which request in flight is answered,
    /// and how; or that a timer of the client fires (no answer).
    fn serve_one(&mut self, flight: &[(RpcRequest, Value)], timers: usize) -> (u8, RpcResult<Value>) {
        let given = if self.choose.is_none() { self.slots.get(self.cursor).cloned().unwrap_or_default() } else { Slot::default() };
        self.cursor += 1;
        self.tick(flight);
        let before = self.steps(&given.before);
        let pick = match &mut self.choose {
            None => given.pick,
            Some(c) => {
                if flight.is_empty() || (timers > 0 && c.rng.pct(15)) {
                    TIMER
                } else if flight.len() > 1 {
                    c.rng.below(flight.len() as u64) as u8
                } else {
                    0
                }
            }
        };
        if flight.is_empty() || (pick == TIMER && timers > 0) {
            self.world.stats.add("fault_client_timer_fired_first", 1);
            if self.choose.is_some() {
                self.slots.push(Slot { before, fault: None, after: vec![], pick: TIMER });
            }
            return (TIMER, Ok(Value::Null));
        }
        let pick = pick.min(flight.len() as u8 - 1);
        if pick > 0 {
            self.world.stats.add("fault_answers_reordered", 1);
        }
        let (request, params) = &flight[pick as usize];
        self.world.stats.add("rpc_requests", 1);
        let fault = self.fault(given.fault);
        self.hist.u64(self.seen.len() as u64 | (fault.map(|f| 1 + fault_no(f)).unwrap_or(0) << 32) | (pick as u64) << 56);
        let cut = match fault {
            Some(NetFault::CutData(m)) => Some((None, m)),
            Some(NetFault::CutOne(i, m)) => Some((Some(i), m)),
            _ => None,
        };
        let lag = match fault {
            Some(NetFault::Stale(n)) => n as usize,
            _ => 0,
        };
        let mut answer = if matches!(fault, Some(NetFault::Refused | NetFault::TooManyRequests | NetFault::NodeUnhealthy)) {
            Ok(Value::Null)
        } else {
            let (request, params) = (*request, params.clone());
            self.reply(&request, &params, cut, lag)
        };
        if let Some(f) = fault {
            self.faulted = true;
            self.world.stats.add(fault_name(f), 1);
            answer = match f {
                NetFault::Refused => Err(ClientErrorKind::Io(std::io::Error::from(std::io::ErrorKind::ConnectionRefused)).into()),
                NetFault::TimedOut => Err(ClientErrorKind::Io(std::io::Error::from(std::io::ErrorKind::TimedOut)).into()),
                NetFault::TooManyRequests => Err(ClientErrorKind::Custom("HTTP status client error (429 Too Many Requests)".into()).into()),
                NetFault::NodeUnhealthy => Err(rpc_error(-32005, "Node is behind by 150 slots")),
                NetFault::Garbage => Ok(json!("<html>502 Bad Gateway</html>")),
                NetFault::CutData(_) | NetFault::CutOne(..) | NetFault::Stale(_) => answer,
            };
        }
        let after = self.steps(&given.after);
        if self.choose.is_some() {
            self.slots.push(Slot { before, fault, after, pick });
        }
        (pick, answer)
    }
    /// The cluster goes on by itself while a script waits for its transaction.
    fn tick(&mut self, flight: &[(RpcRequest, Value)]) {
        let Some(run) = &mut self.run else { return };
        let waits = flight.iter().any(|(r, _)| matches!(r, RpcRequest::GetSignatureStatuses | RpcRequest::GetBlockHeight));
        run.polls += waits as u32;
        let block = waits && run.polls % 3 == 0;
        if run.quiet {
            for id in self.own() {
                self.step(&Step::Land { id, fault: None });
            }
        } else if block {
            self.step(&Step::Block { dt: 1 });
        }
    }
    /// What the node does with a request, and its answer.
    fn reply(&mut self, request: &RpcRequest, params: &Value, cut: Cut, lag: usize) -> RpcResult<Value> {
        let slot = self.world.clock.slot.saturating_sub(lag as u64);
        let ctx = json!({ "slot": slot, "apiVersion": "2.3.9" });
        let ledger = match lag {
            0 => &self.world.ledger,
            n => self.seen.get(self.seen.len().saturating_sub(1 + n)).unwrap_or(&self.world.ledger),
        };
        let Some(run) = &self.run else { return answer(ledger, slot, request, params, cut) };
        let level = params.as_array().into_iter().flatten().find_map(|c| c["commitment"].as_str()).unwrap_or("finalized");
        // Finality is slow: not before the end of most runs.
        let rooted = run.sent.iter().any(|s| self.rank(s.id) == 3);
        let ledger = if level == "finalized" && !rooted { self.seen.first().unwrap_or(ledger) } else { ledger };
        match request {
            RpcRequest::GetLatestBlockhash => {
                let mut h = [7u8; 32];
                h[..8].copy_from_slice(&slot.to_le_bytes());
                h[8..16].copy_from_slice(&self.launched.to_le_bytes());
                Ok(json!({ "context": ctx, "value": { "blockhash": b58(&h), "lastValidBlockHeight": slot + run.validity } }))
            }
            RpcRequest::GetBlockHeight => Ok(json!(slot)),
            RpcRequest::GetMinimumBalanceForRentExemption => Ok(json!(rent_min(params.get(0).and_then(Value::as_u64).unwrap_or(0) as usize))),
            RpcRequest::GetSignatureStatuses => {
                let none = vec![];
                let v: Vec<Value> = params.get(0).and_then(Value::as_array).unwrap_or(&none).iter().map(|s| if lag > 0 { Value::Null } else { self.status(s.as_str().unwrap_or("")) }).collect();
                Ok(json!({ "context": ctx, "value": v }))
            }
            RpcRequest::SendTransaction => self.send(params),
            RpcRequest::Custom { method: UPLOAD } => self.upload(params),
            _ => answer(ledger, slot, request, params, cut),
        }
    }
    /// The upload service.
    fn upload(&mut self, p: &Value) -> RpcResult<Value> {
        let n = self.launched;
        let Some(run) = &mut self.run else { return Ok(Value::Null) };
        let text = |i: usize| p[i].as_str().unwrap_or("").to_string();
        let tags = p[4].as_array().into_iter().flatten().map(|t| (t[0].as_str().unwrap_or("").into(), t[1].as_str().unwrap_or("").into())).collect();
        let id = b58(&solana_sdk::hash::hashv(&[b"upload", &n.to_le_bytes(), &[run.uploads.len() as u8]]).to_bytes());
        run.uploads.push(Posted { url: text(0), token: text(1), key: text(2), data: text(3), tags, id: id.clone() });
        Ok(json!({ "id": id }))
    }
    /// How far a transaction got: 1 executed, 2 voted for, 3 final.
    fn rank(&self, id: u32) -> usize {
        let (Some(l), Some(run)) = (self.world.landed.iter().find(|l| l.id == id), &self.run) else { return 0 };
        let age = self.world.clock.slot.saturating_sub(l.clock.slot);
        match run.quiet {
            true => 2 + (run.polls >= 20) as usize,
            false => 1 + (age > 0) as usize + (age > 3) as usize,
        }
    }
    fn status(&self, sig: &str) -> Value {
        let Some(n) = self.sigs.iter().position(|s| s == sig) else { return Value::Null };
        match self.world.landed.iter().find(|l| l.id == OUTSIDE + n as u32) {
            Some(l) => {
                let err = if l.ok { Value::Null } else { json!({ "InstructionError": [0, "Custom"] }) };
                let rank = self.rank(l.id);
                let name = ["processed", "processed", "confirmed", "finalized"][rank];
                let votes = if rank == 3 { Value::Null } else { json!(rank - 1) };
                json!({ "slot": l.clock.slot, "confirmations": votes, "err": err, "confirmationStatus": name })
            }
            None => Value::Null,
        }
    }
    fn send(&mut self, params: &Value) -> RpcResult<Value> {
        let (t, cfg) = (&params[0], &params[1]);
        let parse = || -> Option<(Key, Vec<Ix>, Vec<Key>, Key, &str)> {
            let key = |v: &Value| v.as_str().and_then(unb58);
            let ixs = t["ixs"]
                .as_array()?
                .iter()
                .map(|i| {
                    let accounts = i["accounts"]
                        .as_array()?
                        .iter()
                        .map(|a| Some(Meta { key: key(&a[0])?, signer: a[1].as_bool()?, writable: a[2].as_bool()? }))
                        .collect::<Option<Vec<_>>>()?;
                    Some(Ix { program: key(&i["program"])?, accounts, data: crate::js::unhex(i["data"].as_str()?)? })
                })
                .collect::<Option<Vec<_>>>()?;
            let signers = t["signers"].as_array()?.iter().map(key).collect::<Option<Vec<_>>>()?;
            Some((key(&t["payer"])?, ixs, signers, key(&t["blockhash"])?, t["sig"].as_str()?))
        };
        let (payer, ixs, signers, hash, sig) = parse().ok_or_else(|| rpc_error(-32602, "invalid transaction"))?;
        let needed = |k: &Key| signers.contains(k) && can_sign(k);
        if !needed(&payer) || ixs.iter().flat_map(|i| &i.accounts).any(|a| a.signer && !needed(&a.key)) {
            return Err(rpc_error(-32003, "Transaction signature verification failure"));
        }
        let at = |n: usize| u64::from_le_bytes(hash[n..n + 8].try_into().unwrap());
        let slot = self.world.clock.slot;
        let validity = self.run.as_ref().map_or(0, |r| r.validity);
        let last = at(0).saturating_add(validity);
        if hash[16..] != [7u8; 16] || at(8) != self.launched || slot > last {
            return Err(rpc_error(-32002, "Transaction simulation failed: Blockhash not found"));
        }
        let budget = compute_budget();
        let tx = Tx { payer, ixs: ixs.iter().filter(|i| i.program != budget).cloned().collect() };
        let known = self.sigs.iter().position(|s| s == sig);
        if known.is_none() && cfg["skipPreflight"] != true {
            let mut l = self.world.ledger.clone();
            let out = execute(&mut l, &tx, self.world.clock, None);
            if let Some(e) = &out.err {
                let what = match e {
                    TxErr::Unpayable => "Attempt to debit an account but found no record of a prior credit.".to_string(),
                    TxErr::Rent => "Transaction results in an account (0) with insufficient funds for rent".to_string(),
                    TxErr::Ix(i, e) => {
                        let i = ixs.iter().enumerate().filter(|(_, x)| x.program != budget).nth(*i).map_or(0, |x| x.0);
                        let e = match e {
                            IxErr::Program(c) if c >> 32 == 0 => format!("custom program error: 0x{c:x}"),
                            IxErr::Program(_) => "invalid program argument".into(),
                            IxErr::Panic => "Program failed to complete".into(),
                            IxErr::Runtime(e) => e.to_string(),
                        };
                        format!("Error processing Instruction {i}: {e}")
                    }
                };
                self.world.stats.add("node_preflight_refused", 1);
                if let Some(r) = &mut self.run {
                    r.refused.push(Sent { id: 0, payer, signers, ixs, took: false });
                }
                return Err(rpc_error(-32002, &format!("Transaction simulation failed: {what}")));
            }
        }
        let n = known.unwrap_or_else(|| {
            self.sigs.push(sig.to_string());
            self.sigs.len() - 1
        });
        let id = OUTSIDE + n as u32;
        self.world.inject(id, tx, last);
        if known.is_none() {
            self.world.stats.add("script_transactions", 1);
            if let Some(r) = &mut self.run {
                r.sent.push(Sent { id, payer, signers, ixs, took: false });
            }
        }
        Ok(json!(sig))
    }
    /// The same for the JavaScript client, whose transport rejects what is not JSON.
    pub fn serve_js(&mut self, m: &Value) -> Value {
        let none = vec![];
        let flight: Vec<(RpcRequest, Value)> =
            m["pending"].as_array().unwrap_or(&none).iter().map(|p| (method(p[0].as_str().unwrap_or("")), p[1].clone())).collect();
        let (pick, answer) = self.serve_one(&flight, m["timers"].as_u64().unwrap_or(0) as usize);
        if pick == TIMER {
            return json!({ "timer": true });
        }
        match answer {
            Ok(Value::String(s)) if s.starts_with('<') => json!({ "pick": pick, "ms": 100, "err": { "code": null, "message": "Unexpected token '<', is not valid JSON" } }),
            Ok(v) => json!({ "pick": pick, "ms": 100, "ok": v }),
            Err(e) => match e.kind() {
                ClientErrorKind::RpcError(RpcError::RpcResponseError { code, message, .. }) => {
                    let logs = if *code == -32002 { json!({ "logs": [message] }) } else { Value::Null };
                    json!({ "pick": pick, "ms": 100, "err": { "code": code, "message": message, "data": logs } })
                }
                e => {
                    let rate = matches!(e, ClientErrorKind::Custom(t) if t.contains("429"));
                    json!({ "pick": pick, "ms": if rate { 100 } else { 30000 }, "err": { "code": 8100002, "message": format!("HTTP error: {e}"), "rate": rate } })
                }
            },
        }
    }
}
fn method(name: &str) -> RpcRequest {
    match name {
        "getAccountInfo" => RpcRequest::GetAccountInfo,
        "getMultipleAccounts" => RpcRequest::GetMultipleAccounts,
        "getProgramAccounts" => RpcRequest::GetProgramAccounts,
        "getTokenAccountBalance" => RpcRequest::GetTokenAccountBalance,
        "getTokenSupply" => RpcRequest::GetTokenSupply,
        "getBalance" => RpcRequest::GetBalance,
        "getSlot" => RpcRequest::GetSlot,
        "getLatestBlockhash" => RpcRequest::GetLatestBlockhash,
        "getBlockHeight" => RpcRequest::GetBlockHeight,
        "getSignatureStatuses" => RpcRequest::GetSignatureStatuses,
        "getMinimumBalanceForRentExemption" => RpcRequest::GetMinimumBalanceForRentExemption,
        "sendTransaction" => RpcRequest::SendTransaction,
        "getVersion" => RpcRequest::GetVersion,
        UPLOAD => RpcRequest::Custom { method: UPLOAD },
        _ => RpcRequest::Custom { method: "unknown" },
    }
}
fn fault_no(f: NetFault) -> u64 {
    match f {
        NetFault::Refused => 0,
        NetFault::TimedOut => 1,
        NetFault::TooManyRequests => 2,
        NetFault::NodeUnhealthy => 3,
        NetFault::Garbage => 4,
        NetFault::CutData(m) => 5 + m as u64,
        NetFault::CutOne(i, m) => 5 + m as u64 + (1 + i as u64) * 1000,
        NetFault::Stale(n) => 1_000_000 + n as u64,
    }
}
fn fault_name(f: NetFault) -> &'static str {
    match f {
        NetFault::Refused => "fault_rpc_connection_refused",
        NetFault::TimedOut => "fault_rpc_reply_lost",
        NetFault::TooManyRequests => "fault_rpc_rate_limited",
        NetFault::NodeUnhealthy => "fault_rpc_node_unhealthy",
        NetFault::Garbage => "fault_rpc_garbage_reply",
        NetFault::CutData(_) => "fault_rpc_truncated_data",
        NetFault::CutOne(..) => "fault_rpc_truncated_account",
        NetFault::Stale(_) => "fault_rpc_lagging_node",
    }
}
fn rpc_error(code: i64, message: &str) -> solana_client::client_error::ClientError {
    ClientErrorKind::RpcError(RpcError::RpcResponseError { code, message: message.into(), data: RpcResponseErrorData::Empty }).into()
}

pub fn b58(k: &Key) -> String {
    bs58::encode(k).into_string()
}
pub fn unb58(s: &str) -> Option<Key> {
    bs58::decode(s).into_vec().ok()?.try_into().ok()
}
fn ui(a: &Acct, cut: Option<u16>, cfg: &Value, multiple: bool) -> RpcResult<Value> {
    let mut d: Vec<u8> = a.data.as_ref().clone();
    if let (Some(o), Some(l)) = (cfg["dataSlice"]["offset"].as_u64(), cfg["dataSlice"]["length"].as_u64()) {
        let o = (o as usize).min(d.len());
        let e = o.saturating_add(l as usize).min(d.len());
        d = d[o..e].to_vec();
    }
    if let Some(m) = cut {
        let n = d.len();
        d.truncate((n * m as usize / 1000).min(n.saturating_sub(1)));
    }
    if cfg["encoding"] == "jsonParsed" && cut.is_none() {
        if let Some(parsed) = parsed(a) {
            let data = json!({ "program": "spl-token", "space": a.data.len(), "parsed": parsed });
            return Ok(json!({ "executable": a.executable, "lamports": a.lamports, "owner": b58(&a.owner), "rentEpoch": u64::MAX, "data": data, "space": a.data.len() }));
        }
    }
    let data = crate::js::encode(&d, cfg, multiple).map_err(|(c, m)| rpc_error(c, m))?;
    Ok(json!({
        "executable": a.executable, "lamports": a.lamports, "owner": b58(&a.owner), "rentEpoch": u64::MAX,
        "data": data, "space": a.data.len()
    }))
}
fn parsed(a: &Acct) -> Option<Value> {
    let dec = |raw: u64| format!("{}.{:06}", raw / 1_000_000, raw % 1_000_000).trim_end_matches('0').trim_end_matches('.').to_string();
    if let Some(t) = xsim::abi::tok_at(a) {
        let amount = json!({ "amount": t.amount.to_string(), "decimals": 6, "uiAmount": t.amount as f64 / 1e6, "uiAmountString": dec(t.amount) });
        let info = json!({ "mint": b58(&t.mint), "owner": b58(&t.owner), "state": "initialized", "isNative": false, "tokenAmount": amount });
        return Some(json!({ "type": "account", "info": info }));
    }
    let m = xsim::abi::mint_at(a)?;
    let key = |o: usize| (a.data[o..o + 4] != [0; 4]).then(|| b58(&a.data[o + 4..o + 36].try_into().unwrap()));
    let info = json!({ "mintAuthority": key(0), "supply": m.supply.to_string(), "decimals": m.decimals, "isInitialized": true, "freezeAuthority": key(46) });
    Some(json!({ "type": "mint", "info": info }))
}
/// Which account of an answer (None: every one) is cut to how many thousandths.
type Cut = Option<(Option<u8>, u16)>;
/// What an honest node says about this ledger.
fn answer(l: &Ledger, slot: u64, request: &RpcRequest, params: &Value, cut: Cut) -> RpcResult<Value> {
    // How much of the n-th of `of` accounts arrives.
    let part = |n: usize, of: usize| cut.and_then(|(i, m)| i.is_none_or(|i| i as usize % of.max(1) == n).then_some(m));
    let one = |key: &Key, cfg: &Value, multiple: bool, cut: Option<u16>| match l.m.get(key) {
        Some(a) if a.lamports > 0 => ui(a, cut, cfg, multiple),
        _ => Ok(Value::Null),
    };
    let ctx = json!({ "slot": slot, "apiVersion": "2.3.9" });
    let key0 = || params.get(0).and_then(Value::as_str).and_then(unb58).ok_or_else(|| rpc_error(-32602, "Invalid param: WrongSize"));
    let cfg = params.get(1).cloned().unwrap_or(Value::Null);
    let tok_amount = |raw: u64, dec: u8| json!({ "amount": raw.to_string(), "decimals": dec, "uiAmount": null, "uiAmountString": raw.to_string() });
    match request {
        RpcRequest::GetAccountInfo => Ok(json!({ "context": ctx, "value": one(&key0()?, &cfg, false, part(0, 1))? })),
        RpcRequest::GetMultipleAccounts => {
            let keys = params.get(0).and_then(Value::as_array).cloned().unwrap_or_default();
            if keys.len() > 100 {
                return Err(rpc_error(-32602, "Too many inputs provided; max 100"));
            }
            let mut v = Vec::new();
            for (n, s) in keys.iter().enumerate() {
                let key = s.as_str().and_then(unb58).ok_or_else(|| rpc_error(-32602, "Invalid param"))?;
                v.push(one(&key, &cfg, true, part(n, keys.len()))?);
            }
            Ok(json!({ "context": ctx, "value": v }))
        }
        RpcRequest::GetProgramAccounts => {
            let owner = key0()?;
            let fits = |a: &Acct| {
                cfg["filters"].as_array().map(|f| f.iter().all(|f| filter(a, f))).unwrap_or(true)
            };
            let all: Vec<_> = l.m.iter().filter(|(_, a)| a.owner == owner && a.lamports > 0 && fits(a)).collect();
            let v: Vec<Value> = all
                .iter()
                .enumerate()
                .map(|(n, (key, a))| Ok(json!({ "pubkey": b58(key), "account": ui(a, part(n, all.len()), &cfg, false)? })))
                .collect::<RpcResult<_>>()?;
            Ok(if cfg["withContext"].as_bool() == Some(true) { json!({ "context": ctx, "value": v }) } else { json!(v) })
        }
        RpcRequest::GetTokenAccountBalance => {
            let t = xsim::abi::tok(l, &key0()?).ok_or_else(|| rpc_error(-32602, "Invalid param: could not find account"))?;
            Ok(json!({ "context": ctx, "value": tok_amount(t.amount, 6) }))
        }
        RpcRequest::GetTokenSupply => {
            let m = xsim::abi::mint(l, &key0()?).ok_or_else(|| rpc_error(-32602, "Invalid param: not a Token mint"))?;
            Ok(json!({ "context": ctx, "value": tok_amount(m.supply, m.decimals) }))
        }
        RpcRequest::GetBalance => Ok(json!({ "context": ctx, "value": l.lamports(&key0()?) })),
        RpcRequest::GetSlot => Ok(json!(slot)),
        RpcRequest::GetVersion => Ok(json!({ "solana-core": "2.3.9", "feature-set": 0 })),
        _ => Err(rpc_error(-32601, "Method not found")),
    }
}
fn filter(a: &Acct, f: &Value) -> bool {
    if let Some(n) = f["dataSize"].as_u64() {
        return a.data.len() as u64 == n;
    }
    let m = &f["memcmp"];
    let Some(off) = m["offset"].as_u64() else { return true };
    let bytes: Option<Vec<u8>> = match &m["bytes"] {
        Value::String(s) if m["encoding"].as_str() == Some("base64") => STANDARD.decode(s).ok(),
        Value::String(s) => bs58::decode(s).into_vec().ok(),
        Value::Array(v) => Some(v.iter().filter_map(|x| x.as_u64().map(|x| x as u8)).collect()),
        _ => None,
    };
    match bytes {
        Some(b) => a.data.get(off as usize..).map(|d| d.starts_with(&b)).unwrap_or(false),
        None => false,
    }
}

pub struct Sender(pub Shared);
#[async_trait]
impl RpcSender for Sender {
    async fn send(&self, request: RpcRequest, params: Value) -> RpcResult<Value> {
        lock(&self.0).serve(request, params)
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "sim://node".into()
    }
}
