//! xrpc run <C..> | replay <file> | log <C..> <lo> <hi>
mod js;
mod make;
mod net;
mod ops;
mod pair;
mod script;
use net::*;
use ops::*;
use pair::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::exit;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use xsim::abi::Name;
use xsim::check::Violation;
use xsim::gen::Gen;
use xsim::prng::{Fnv, Rng};
use xsim::world::*;

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
enum RStep {
    Sim(Step),
    Call { query: Query, slots: Vec<Slot> },
    Probe(Probe),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    violation: Violation,
    original_steps: usize,
    cfg: Cfg,
    steps: Vec<RStep>,
}
struct Out {
    cfg: Cfg,
    steps: Vec<RStep>,
    violation: Option<Violation>,
    stats: Stats,
    history: u64,
}

fn world(cfg: &Cfg, prop: &str) -> World {
    let mut w = World::new(cfg, prop);
    match prop {
        "C01" => {
            w.maker = Some(make::make);
            w.observer = Some(c01);
        }
        "C02" => w.observer = Some(c02),
        "J01" => {
            w.maker = Some(js::make);
            w.observer = Some(j01);
        }
        "J02" => w.observer = Some(j02),
        _ => {}
    }
    w
}
fn calls(prop: &str) -> bool {
    matches!(prop, "C03" | "C04" | "C05" | "J03" | "J04" | "J05") || prop.starts_with('T')
}
fn lang(prop: &str) -> Lang {
    if prop.starts_with(['J', 'T']) {
        Lang::Js
    } else {
        Lang::Rust
    }
}
fn shared(world: World, choose: Option<Chooser>) -> Shared {
    Arc::new(Mutex::new(Net::new(world, choose)))
}

fn query(r: &mut Rng, prop: &str, net: &Shared) -> Query {
    if prop.starts_with('T') {
        let n = lock(net);
        return Query::Script(script::cmd(r, prop, &n.world.ledger, n.world.clock.unix));
    }
    let user = Name::User(r.below(5) as u8);
    match prop {
        "C05" | "J05" => Query::Rate,
        "C04" | "J04" => Query::List {
            user,
            max: match r.below(10) {
                0 | 1 => None,
                2 => Some(r.below(4) as u8),
                3 | 4 | 5 => Some(r.range(1, 20) as u8),
                6 => Some(*r.pick(&[99u8, 100, 101, 127, 128, 129])),
                7 => Some(255),
                8 => Some(r.below(256) as u8),
                _ => Some(8),
            },
        },
        _ => match r.below(18) {
            0 | 1 => Query::StateData,
            2 => Query::StateAccount,
            3 => Query::MaybeState,
            4 | 5 => Query::Cooldown,
            6 | 7 => Query::Vault,
            8 | 9 => Query::Supply,
            10 => Query::Claims(user, *r.pick(&[0u8, 1, 2, 126, 127, 254, 255])),
            11 => Query::AllStates,
            12 => Query::MaybeStates,
            13 => Query::AllClaims(user, *r.pick(&[0u8, 0, 1, 1, 2, 126, 127, 254, 255])),
            14 => Query::MaybeClaim(user, *r.pick(&[0u8, 0, 1, 2, 3, 7, 127, 128, 254, 255])),
            _ => Query::Claim(user, *r.pick(&[0u8, 0, 1, 2, 3, 7, 127, 128, 254, 255])),
        },
    }
}
fn gen_probe(r: &mut Rng) -> Probe {
    let top = if r.pct(25) { u64::MAX } else { 1u64 << r.range(1, 63) };
    let edge = |r: &mut Rng, hi: u64| match r.below(6) {
        0 => 0,
        1 => hi,
        2 => r.below(4),
        _ => r.log(hi),
    };
    let backing = edge(r, top);
    let hi = if r.pct(50) { top } else { u64::MAX };
    let supply = edge(r, hi);
    let escrow = if r.pct(60) { 0 } else { r.log(u64::MAX - backing) };
    let stake = r.pct(55);
    let (num, den) = if stake { (supply, backing) } else { (backing, supply) };
    let (num, den) = (num as u128 + 100, den as u128 + 100);
    let near = |r: &mut Rng, x: u128| x.saturating_add(r.below(5) as u128).saturating_sub(2).min(u64::MAX as u128) as u64;
    let amount = match r.below(8) {
        0 => near(r, den / num),
        1 => near(r, ((u64::MAX as u128) * den.min(1 << 64)) / num),
        2 => u64::MAX - r.below(3),
        3 => r.below(200),
        4 if !stake => supply.saturating_sub(r.below(3)),
        _ => r.log(u64::MAX),
    };
    let amount = if !stake && r.pct(80) { amount.min(supply) } else { amount };
    Probe { stake, amount, backing, escrow, supply }
}

/// No state of the client survives from one run to the next.
fn fresh_client(prop: &str) {
    if prop.starts_with('J') {
        js::reset();
    }
}
fn run_seeded(prop: &str, run_seed: u64, deep: bool) -> Out {
    let (mut gen, cfg) = Gen::new(run_seed, prop, deep);
    fresh_client(prop);
    let mut r = Rng::new(run_seed ^ 0xC11E_17);
    let mut steps: Vec<RStep> = Vec::new();
    let mut violation = None;
    if !calls(prop) {
        let mut w = world(&cfg, prop);
        while let Some(s) = gen.next(&w) {
            let (step, res) = if matches!(prop, "C02" | "J02") && r.pct(40) {
                let p = gen_probe(&mut r);
                (RStep::Probe(p), probe(lang(prop), &mut w, &p))
            } else {
                (RStep::Sim(s.clone()), w.apply(&s))
            };
            steps.push(step);
            if let Err(v) = res {
                violation = Some(v);
                break;
            }
        }
        let history = w.stats.history ^ steps.len() as u64;
        return Out { cfg, steps, violation, history, stats: std::mem::take(&mut w.stats) };
    }
    let p_call = r.range(8, 30);
    let p_fault = *r.pick(&[0u64, 0, 5, 20, 50]);
    let p_mid = *r.pick(&[0u64, 20, 50, 80]);
    let crng = Rng::new(r.next());
    let net = shared(world(&cfg, prop), Some(Chooser { gen, rng: crng, p_fault, p_mid }));
    let rpc = (lang(prop) == Lang::Rust).then(|| client(&net));
    loop {
        if r.pct(p_call) {
            let q = query(&mut r, prop, &net);
            let res = call(prop, &net, rpc.as_ref(), &q);
            let slots = std::mem::take(&mut lock(&net).slots);
            steps.push(RStep::Call { query: q, slots });
            if let Err(v) = res {
                violation = Some(v);
                break;
            }
        } else {
            let mut n = lock(&net);
            let mut c = n.choose.take().unwrap();
            let s = c.gen.next(&n.world);
            n.choose = Some(c);
            let Some(s) = s else { break };
            steps.push(RStep::Sim(s.clone()));
            let res = n.world.apply(&s);
            if let Err(v) = res.and_then(|_| script::twice(prop, &n)) {
                violation = Some(v);
                break;
            }
        }
    }
    drop(rpc);
    let mut n = lock(&net);
    let history = n.hist.finish() ^ n.world.stats.history;
    let stats = std::mem::take(&mut n.world.stats);
    drop(n);
    Out { cfg, steps, violation, stats, history }
}

fn run_trace(prop: &str, cfg: &Cfg, steps: &[RStep]) -> Option<Violation> {
    let net = shared(world(cfg, prop), None);
    let rpc = (calls(prop) && lang(prop) == Lang::Rust).then(|| client(&net));
    fresh_client(prop);
    for s in steps {
        let res = match s {
            RStep::Sim(s) => {
                let mut n = lock(&net);
                let res = n.world.apply(s);
                res.and_then(|_| script::twice(prop, &n))
            }
            RStep::Probe(p) => probe(lang(prop), &mut lock(&net).world, p),
            RStep::Call { query, slots } => {
                lock(&net).slots = slots.clone();
                call(prop, &net, rpc.as_ref(), query)
            }
        };
        if let Err(v) = res {
            return Some(v);
        }
    }
    None
}

// ---------------------------------------------------------------- minimisation
struct Shrink<'a> {
    prop: &'a str,
    class: String,
    budget: u32,
    deadline: Instant,
}
impl Shrink<'_> {
    fn fails(&mut self, cfg: &Cfg, steps: &[RStep]) -> bool {
        if self.budget == 0 || Instant::now() > self.deadline {
            return false;
        }
        self.budget -= 1;
        matches!(run_trace(self.prop, cfg, steps), Some(v) if v.class == self.class)
    }
    fn ddmin<T: Clone>(&mut self, items: Vec<T>, test: &mut dyn FnMut(&mut Self, &[T]) -> bool) -> Vec<T> {
        let mut cur = items;
        let mut chunk = (cur.len() / 2).max(1);
        while !cur.is_empty() {
            let (mut i, mut removed) = (0, false);
            while i < cur.len() {
                let mut cand = cur.clone();
                let hi = (i + chunk).min(cand.len());
                cand.drain(i..hi);
                if test(self, &cand) {
                    cur = cand;
                    removed = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 && !removed {
                break;
            }
            if !removed {
                chunk = (chunk / 2).max(1);
            }
        }
        cur
    }
}
fn minimise(prop: &str, cfg: &Cfg, steps: &[RStep], v: &Violation) -> (Cfg, Vec<RStep>, Violation) {
    let mut s = Shrink { prop, class: v.class.clone(), budget: 20_000, deadline: Instant::now() + Duration::from_secs(60) };
    let mut cfg = cfg.clone();
    let mut cur = steps.to_vec();
    for _ in 0..3 {
        let before = (cfg.clone(), cur.clone());
        let c = cfg.clone();
        cur = s.ddmin(cur, &mut |s, cand| s.fails(&c, cand));
        for i in 0..cur.len() {
            let mut cand = cur.clone();
            match &mut cand[i] {
                RStep::Call { slots, .. } => {
                    for q in 0..slots.len() {
                        for part in 0..3 {
                            let base = cur.clone();
                            let RStep::Call { slots: sl, .. } = &base[i] else { continue };
                            match part {
                                0 => {
                                    if sl[q].fault.is_some() {
                                        let mut t = base.clone();
                                        if let RStep::Call { slots, .. } = &mut t[i] {
                                            slots[q].fault = None;
                                        }
                                        if s.fails(&cfg, &t) {
                                            cur = t;
                                        }
                                    }
                                }
                                _ => {
                                    let list = if part == 1 { sl[q].before.clone() } else { sl[q].after.clone() };
                                    let put = |l: &[Step]| {
                                        let mut t = base.clone();
                                        if let RStep::Call { slots, .. } = &mut t[i] {
                                            if part == 1 {
                                                slots[q].before = l.to_vec();
                                            } else {
                                                slots[q].after = l.to_vec();
                                            }
                                        }
                                        t
                                    };
                                    let c = cfg.clone();
                                    let kept = s.ddmin(list, &mut |s, l| s.fails(&c, &put(l)));
                                    cur = put(&kept);
                                }
                            }
                        }
                    }
                }
                RStep::Sim(Step::Land { fault, .. }) if fault.is_some() => {
                    *fault = None;
                    if s.fails(&cfg, &cand) {
                        cur = cand;
                    }
                }
                RStep::Probe(p) => {
                    let p0 = *p;
                    for f in 0..4 {
                        for y in [0u64, 1, 2, 100, 1_000_000] {
                            let mut t = cur.clone();
                            if let RStep::Probe(p) = &mut t[i] {
                                let field = match f {
                                    0 => &mut p.escrow,
                                    1 => &mut p.backing,
                                    2 => &mut p.supply,
                                    _ => &mut p.amount,
                                };
                                if y >= *field {
                                    continue;
                                }
                                *field = y;
                            }
                            if s.fails(&cfg, &t) {
                                cur = t;
                                break;
                            }
                        }
                    }
                    let _ = p0;
                }
                _ => {}
            }
        }
        let mut alts: Vec<Cfg> = Vec::new();
        let mut push = |f: &dyn Fn(&mut Cfg)| {
            let mut c = cfg.clone();
            f(&mut c);
            alts.push(c);
        };
        push(&|c| c.dust.clear());
        push(&|c| {
            c.no_orca_ata = 0;
            c.no_xorca_ata = 0;
        });
        push(&|c| c.lamports = vec![10_000_000_000; USERS as usize]);
        push(&|c| c.start = 1_700_000_000);
        push(&|c| c.cooldown = 60);
        push(&|c| {
            if let Boot::Pool { claims, .. } = &mut c.boot {
                claims.clear();
            }
        });
        push(&|c| {
            if let Boot::Pool { extra, .. } = &mut c.boot {
                *extra = 0;
            }
        });
        // Each on top of what was accepted so far.
        for (n, _) in alts.iter().enumerate() {
            let mut c = cfg.clone();
            match n {
                0 => c.dust = alts[n].dust.clone(),
                1 => (c.no_orca_ata, c.no_xorca_ata) = (0, 0),
                2 => c.lamports = alts[n].lamports.clone(),
                3 => c.start = alts[n].start,
                4 => c.cooldown = alts[n].cooldown,
                5 => {
                    if let Boot::Pool { claims, .. } = &mut c.boot {
                        claims.clear();
                    }
                }
                _ => {
                    if let Boot::Pool { extra, .. } = &mut c.boot {
                        *extra = 0;
                    }
                }
            }
            if c != cfg && s.fails(&c, &cur) {
                cfg = c;
            }
        }
        if before == (cfg.clone(), cur.clone()) {
            break;
        }
    }
    let v = run_trace(prop, &cfg, &cur).expect("minimised trace still fails");
    (cfg, cur, v)
}

// ---------------------------------------------------------------- batch
fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn root() -> PathBuf {
    std::env::var_os("XSIM_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
#[derive(Default)]
struct Batch {
    runs: u64,
    nontrivial: u64,
    stats: Stats,
    histories: HashSet<u64>,
    worst: Option<(u64, Out)>,
    samples: Vec<(u64, serde_json::Value)>,
}
fn batch(prop: &str, seed: u64, n: u64, deep: bool, cap: u64) -> (Batch, f64, bool) {
    xsim::svm::init();
    let start = Instant::now();
    let (next, best, expired) = (AtomicU64::new(0), AtomicU64::new(u64::MAX), AtomicBool::new(false));
    let total = Mutex::new(Batch::default());
    std::thread::scope(|sc| {
        for _ in 0..xsim::drive::workers() {
            sc.spawn(|| {
                let mut b = Batch::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > best.load(Ordering::SeqCst) {
                        break;
                    }
                    if start.elapsed().as_secs() > cap {
                        expired.store(true, Ordering::SeqCst);
                        break;
                    }
                    let s = Rng::run_seed(seed, prop, i);
                    let r = run_seeded(prop, s, deep);
                    b.runs += 1;
                    b.stats.merge(&r.stats);
                    let used = r.stats.c.iter().any(|(k, v)| *v > 0 && (k.starts_with("oracle_") || *k == "client_values"));
                    if b.histories.insert(r.history) && used {
                        b.nontrivial += 1;
                    }
                    if i < 2 {
                        let first: Vec<_> = r.steps.iter().take(14).collect();
                        b.samples.push((i, serde_json::json!({"run": i, "run_seed": s, "steps_total": r.steps.len(), "config": r.cfg, "first_steps": first})));
                    }
                    if r.violation.is_some() {
                        best.fetch_min(i, Ordering::SeqCst);
                        if b.worst.as_ref().is_none_or(|w| i < w.0) {
                            b.worst = Some((i, r));
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                t.runs += b.runs;
                t.nontrivial += b.nontrivial;
                t.stats.merge(&b.stats);
                t.histories.extend(b.histories);
                t.samples.extend(b.samples);
                if let Some(w) = b.worst {
                    if t.worst.as_ref().is_none_or(|x| w.0 < x.0) {
                        t.worst = Some(w);
                    }
                }
            });
        }
    });
    let mut b = total.into_inner().unwrap();
    b.samples.sort_by_key(|s| s.0);
    (b, start.elapsed().as_secs_f64(), expired.load(Ordering::SeqCst))
}

/// Choices that hold for the whole process.
fn prepare(prop: &str) {
    if prop.starts_with('T') {
        xsim::abi::WALLETS_ON_CURVE.store(true, Ordering::SeqCst);
        js::SCRIPTS.store(true, Ordering::SeqCst);
    }
}
fn run(prop: &str) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let deep = tier == "thorough";
    let quick = match prop {
        "C01" => 12_000,
        "C02" => 40_000,
        "C03" => 30_000,
        "C04" => 12_000,
        "C05" => 30_000,
        "J01" => 3_000,
        "J02" => 8_000,
        "J03" => 8_000,
        "J04" => 5_000,
        "J05" => 8_000,
        "T01" | "T02" => 8_000,
        "T03" => 6_000,
        "T04" => 2_500,
        "T05" => 3_000,
        "T06" => 2_500,
        _ => {
            eprintln!("unknown property {prop}");
            return 2;
        }
    };
    let n = env_u64("XSIM_RUNS", if deep { quick * 25 } else { quick });
    prepare(prop);
    println!("xrpc property={prop} seed={seed} tier={tier}");
    let (mut b, wall, expired) = batch(prop, seed, n, deep, if deep { 3000 } else { 600 });
    let mut bad: Option<(PathBuf, Violation)> = None;
    if let Some((i, r)) = b.worst.take() {
        let v = r.violation.clone().unwrap();
        let (cfg, steps, v2) = minimise(prop, &r.cfg, &r.steps, &v);
        let rep = Replay { property: prop.into(), seed, run: i, violation: v2.clone(), original_steps: r.steps.len(), cfg, steps };
        let dir = root().join("evidence/replay");
        std::fs::create_dir_all(&dir).expect("replay dir");
        let f = dir.join(format!("{prop}.json"));
        std::fs::write(&f, serde_json::to_string_pretty(&rep).unwrap()).expect("write replay");
        bad = Some((f, v2));
    }
    evidence(prop, seed, &tier, &b, wall, expired, bad.is_some());
    println!(
        "runs={} distinct_histories={} abstract_states={} landed_txs={} client_calls={} wall={wall:.1}s ({:.0} runs/h)",
        b.runs,
        b.histories.len(),
        b.stats.states.len(),
        b.stats.c.get("txs_landed").unwrap_or(&0),
        b.stats.c.get("client_calls").unwrap_or(&0),
        b.runs as f64 / wall * 3600.0
    );
    match bad {
        None => 0,
        Some((f, v)) => {
            println!("violation: [{}] {}", v.class, v.msg);
            let st = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&f).output().expect("spawn replay");
            if st.status.code() != Some(1) {
                println!("note: a fresh process did not reproduce the violation (exit {:?})", st.status.code());
                return 3;
            }
            println!("VIOLATION property={prop} replay={}", f.display());
            1
        }
    }
}
fn replay(file: &str) -> i32 {
    xsim::svm::init();
    let Ok(text) = std::fs::read_to_string(Path::new(file)) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let r: Replay = serde_json::from_str(&text).expect("replay file");
    prepare(&r.property);
    match run_trace(&r.property, &r.cfg, &r.steps) {
        Some(v) => {
            println!("violation: [{}] {}", v.class, v.msg);
            if v != r.violation {
                println!("differs from the recorded violation: [{}] {}", r.violation.class, r.violation.msg);
                return 4;
            }
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        None => {
            println!("replayed {} steps: no violation", r.steps.len());
            0
        }
    }
}
fn evidence(prop: &str, seed: u64, tier: &str, b: &Batch, wall: f64, expired: bool, bad: bool) {
    let c = &b.stats.c;
    let pick = |p: &str| -> serde_json::Value {
        c.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.trim_start_matches(p).to_string(), serde_json::json!(v))).collect::<serde_json::Map<_, _>>().into()
    };
    let other: serde_json::Map<String, serde_json::Value> = c
        .iter()
        .filter(|(k, _)| !["fault_", "op_", "refusal_", "oracle_"].iter().any(|p| k.starts_with(p)))
        .map(|(k, v)| (k.to_string(), serde_json::json!(v)))
        .collect();
    let cov = serde_json::json!({
        "evaluations": b.runs,
        "distinct_nontrivial": b.nontrivial,
        "rule": "one evaluation = one seeded simulated run (genesis, clients, mempool, blocks, forks, clock, faults, and for C03-C05, J03-J05 and T01-T06 client calls or command-line invocations over the faulty RPC transport); non-trivial = its sequence of executed instructions, requests, transport faults and outcomes is distinct among the worker's runs and this property's oracle was consulted",
        "samples": b.samples.iter().map(|s| &s.1).collect::<Vec<_>>(),
        "runs_per_hour": (b.runs as f64 / wall.max(0.001) * 3600.0) as u64,
        "distinct_execution_histories": b.histories.len(),
        "distinct_abstract_states": b.stats.states.len(),
        "abstract_state_measure": "log2 buckets of backing, supply, escrow, cooldown; authority; set of open claims with owner, index, maturity",
        "simulated_seconds": b.stats.sim_seconds,
        "faults_injected": pick("fault_"),
        "instructions": pick("op_"),
        "oracle_evaluations": pick("oracle_"),
        "counters": other,
        "workers": xsim::drive::workers(),
        "stopped_by_time_cap": expired,
        "components_real": if prop.starts_with('T') { serde_json::json!(["command-line scripts (stake, unstake, withdraw, initialize, set, transfer-orca, transfer-orca-to-vault, update-xorca-mint-authority, status, pending-withdraws, generate-keypair, upload-image), bundled from source and run by node", "xorca JavaScript client where the scripts use it", "xorca-staking-program (native build)", "spl-token processor 7.0"]) } else if prop.starts_with('J') { serde_json::json!(["xorca JavaScript client (generated instructions, accounts, types, errors; utilities and conversions), bundled from source and run by node", "xorca-staking-program (native build)", "spl-token processor 7.0"]) } else { serde_json::json!(["xorca Rust client (instruction and CPI builders, decoders, PDA and conversion code, fetch utilities)", "solana_client::RpcClient (request building, response decoding)", "xorca-staking-program (native build)", "spl-token processor 7.0"]) },
        "components_stubbed": [if prop.starts_with('T') { "RPC node, network and signature checks, disk, local clock, timers, randomness, fs, process and console of the scripts, @solana/web3.js, @solana/spl-token, @irys/sdk and @solana/kit (stand-ins in sim/js)" } else if prop.starts_with('J') { "RPC node and network (the client's Rpc parameter), the client's Date, timers, Math.random and fetch, @solana/kit and @solana-program/token (stand-ins in sim/js)" } else { "RPC node and network (RpcSender seam)" }, "Solana runtime, system program, associated-token-account program", "mempool, leader, forks, clock"],
    });
    let e = serde_json::json!({
        "property": prop, "seed": seed, "tier": tier, "level": "exploration", "coverage": cov,
        "assumptions": ["the simulated runtime rules match Agave's (see DESIGN.md)", "the native build of the program behaves like its SBF build", "an RPC node that answers does so from a ledger that was current at some time since the call began"],
        "wall_s": wall, "violations": if bad { 1 } else { 0 },
    });
    let f = root().join("evidence").join(format!("{prop}.json"));
    std::fs::create_dir_all(f.parent().unwrap()).expect("evidence dir");
    std::fs::write(f, serde_json::to_string_pretty(&e).unwrap()).expect("write evidence");
}
fn log(prop: &str, lo: u64, hi: u64) -> i32 {
    xsim::svm::init();
    prepare(prop);
    let seed = env_u64("VERIF_SEED", 1);
    for i in lo..hi {
        let r = run_seeded(prop, Rng::run_seed(seed, prop, i), false);
        let mut h = Fnv::new();
        h.bytes(serde_json::to_string(&r.steps).unwrap().as_bytes());
        h.bytes(format!("{:?}", r.stats.c).as_bytes());
        println!("{prop} {i} {} {:016x} {:016x} {:?}", r.steps.len(), r.history, h.finish(), r.violation.map(|v| v.class));
    }
    0
}
fn main() {
    // Panics of the client are part of what is observed; do not print them.
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") if args.len() > 2 => run(&args[2]),
        Some("replay") if args.len() > 2 => replay(&args[2]),
        Some("log") if args.len() > 4 => log(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
        _ => {
            eprintln!("usage: xrpc run <property> | replay <file> | log <property> <lo> <hi>");
            2
        }
    };
    exit(code)
}
