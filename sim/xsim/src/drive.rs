//! Batch runner: many seeded runs on all cores, deterministic choice of the reported
//! violation, minimisation, replay files and evidence.
use crate::check::Violation;
use crate::gen::Gen;
use crate::prng::Rng;
use crate::svm::Fault;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub violation: Violation,
    /// Steps of the original failing run, before minimisation.
    pub original_steps: usize,
    pub cfg: Cfg,
    pub steps: Vec<Step>,
}

pub struct RunOut {
    pub cfg: Cfg,
    pub steps: Vec<Step>,
    pub violation: Option<Violation>,
    pub stats: Stats,
    pub landed: Vec<Landed>,
}

/// One seed, one execution.
pub fn run_seeded(prop: &str, run_seed: u64, deep: bool, keep_log: bool) -> RunOut {
    let (mut g, cfg) = Gen::new(run_seed, prop, deep);
    let mut w = World::new(&cfg, prop);
    w.keep_log = keep_log;
    let mut steps = Vec::new();
    let mut violation = None;
    while let Some(s) = g.next(&w) {
        steps.push(s.clone());
        if let Err(v) = w.apply(&s) {
            violation = Some(v);
            break;
        }
    }
    RunOut { cfg, steps, violation, landed: std::mem::take(&mut w.landed), stats: std::mem::take(&mut w.stats) }
}

/// Re-executes a recorded trace.
pub fn run_trace(prop: &str, cfg: &Cfg, steps: &[Step]) -> Option<Violation> {
    let mut w = World::new(cfg, prop);
    for s in steps {
        if let Err(v) = w.apply(s) {
            return Some(v);
        }
    }
    None
}

// ---------------------------------------------------------------- minimisation
struct Shrink<'a> {
    prop: &'a str,
    class: String,
    budget: u32,
    cfg: Cfg,
    steps: Vec<Step>,
    deadline: Instant,
}
impl Shrink<'_> {
    fn fails(&mut self, cfg: &Cfg, steps: &[Step]) -> bool {
        if self.budget == 0 || Instant::now() > self.deadline {
            return false;
        }
        self.budget -= 1;
        matches!(run_trace(self.prop, cfg, steps), Some(v) if v.class == self.class)
    }
    fn ddmin(&mut self) {
        let mut chunk = (self.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut removed = false;
            while i < self.steps.len() {
                let mut cand = self.steps.clone();
                let hi = (i + chunk).min(cand.len());
                cand.drain(i..hi);
                let cfg = self.cfg.clone();
                if self.fails(&cfg, &cand) {
                    self.steps = cand;
                    removed = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 && !removed {
                break;
            }
            if !removed {
                chunk = (chunk / 2).max(1);
            }
        }
    }
    fn try_step(&mut self, i: usize, s: Step) -> bool {
        if self.steps[i] == s {
            return false;
        }
        let mut cand = self.steps.clone();
        cand[i] = s;
        let cfg = self.cfg.clone();
        if self.fails(&cfg, &cand) {
            self.steps = cand;
            return true;
        }
        false
    }
    fn smaller(x: u64) -> Vec<u64> {
        let mut v = vec![0, 1, 2, 10, 100, 1000, 1_000_000];
        v.extend([x / 1_000_000_000, x / 1_000_000, x / 1000, x / 10, x / 2, x.saturating_sub(x / 4), x.saturating_sub(1)]);
        v.retain(|y| *y < x);
        v.dedup();
        v
    }
    fn simplify_steps(&mut self) {
        for i in 0..self.steps.len() {
            match self.steps[i].clone() {
                Step::Land { id, fault: Some(f) } => {
                    if !self.try_step(i, Step::Land { id, fault: None }) && f.at > 0 {
                        for at in 0..f.at {
                            if self.try_step(i, Step::Land { id, fault: Some(Fault { at, kind: f.kind }) }) {
                                break;
                            }
                        }
                    }
                }
                Step::Block { dt } => {
                    for d in [0, 1, dt / 1_000_000, dt / 1000, dt / 2] {
                        if d.unsigned_abs() < dt.unsigned_abs() && self.try_step(i, Step::Block { dt: d }) {
                            break;
                        }
                    }
                }
                Step::Reorg { depth } => {
                    for d in 0..depth {
                        if self.try_step(i, Step::Reorg { depth: d }) {
                            break;
                        }
                    }
                }
                Step::Submit { id, tx } => {
                    let mut tx = tx;
                    let mut j = 0;
                    while tx.ixs.len() > 1 && j < tx.ixs.len() {
                        let mut t = tx.clone();
                        t.ixs.remove(j);
                        if self.try_step(i, Step::Submit { id, tx: t.clone() }) {
                            tx = t;
                        } else {
                            j += 1;
                        }
                    }
                    for j in 0..tx.ixs.len() {
                        let mut q = 0;
                        while q < tx.ixs[j].muts.len() {
                            let mut t = tx.clone();
                            t.ixs[j].muts.remove(q);
                            if self.try_step(i, Step::Submit { id, tx: t.clone() }) {
                                tx = t;
                            } else {
                                q += 1;
                            }
                        }
                        let amt = |k: &mut Kind, f: &dyn Fn(u64) -> u64| match k {
                            Kind::Stake { amount, .. }
                            | Kind::Unstake { amount, .. }
                            | Kind::Tok { amount, .. }
                            | Kind::Burn { amount, .. }
                            | Kind::Approve { amount, .. } => {
                                *amount = f(*amount);
                                *amount
                            }
                            Kind::Sol { lamports, .. } => {
                                *lamports = f(*lamports);
                                *lamports
                            }
                            _ => 0,
                        };
                        let mut again = true;
                        while again {
                            again = false;
                            let cur = amt(&mut tx.ixs[j].kind.clone(), &|x| x);
                            for y in Self::smaller(cur) {
                                let mut t = tx.clone();
                                amt(&mut t.ixs[j].kind, &|_| y);
                                if self.try_step(i, Step::Submit { id, tx: t.clone() }) {
                                    tx = t;
                                    again = true;
                                    break;
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn try_cfg(&mut self, c: Cfg) -> bool {
        if c == self.cfg {
            return false;
        }
        let steps = self.steps.clone();
        if self.fails(&c, &steps) {
            self.cfg = c;
            return true;
        }
        false
    }
    fn simplify_cfg(&mut self) {
        let mut c = self.cfg.clone();
        c.dust.clear();
        self.try_cfg(c);
        let mut c = self.cfg.clone();
        c.ata_dust = 0;
        self.try_cfg(c);
        let mut c = self.cfg.clone();
        c.rent = 0;
        self.try_cfg(c);
        let mut c = self.cfg.clone();
        c.no_orca_ata = 0;
        c.no_xorca_ata = 0;
        self.try_cfg(c);
        let mut c = self.cfg.clone();
        c.lamports = vec![10_000_000_000; USERS as usize];
        self.try_cfg(c);
        for cd in [0, 1, 60, 604_800] {
            let mut c = self.cfg.clone();
            if cd < c.cooldown {
                c.cooldown = cd;
                if self.try_cfg(c) {
                    break;
                }
            }
        }
        let mut c = self.cfg.clone();
        c.start = 1_700_000_000;
        self.try_cfg(c);
        if let Boot::Pool { held, extra, short, claims } = self.cfg.boot.clone() {
            let mut cl = claims.clone();
            let mut i = 0;
            while i < cl.len() {
                let mut t = cl.clone();
                t.remove(i);
                let mut c = self.cfg.clone();
                c.boot = Boot::Pool { held: held.clone(), extra, short, claims: t.clone() };
                if self.try_cfg(c) {
                    cl = t;
                } else {
                    i += 1;
                }
            }
            for u in 0..held.len() {
                let cur = match &self.cfg.boot {
                    Boot::Pool { held, .. } => held[u],
                    _ => 0,
                };
                for y in Self::smaller(cur) {
                    let mut c = self.cfg.clone();
                    if let Boot::Pool { held, .. } = &mut c.boot {
                        held[u] = y;
                    }
                    if self.try_cfg(c) {
                        break;
                    }
                }
            }
            for y in Self::smaller(short) {
                let mut c = self.cfg.clone();
                if let Boot::Pool { short, .. } = &mut c.boot {
                    *short = y;
                }
                if self.try_cfg(c) {
                    break;
                }
            }
            for y in Self::smaller(extra) {
                let mut c = self.cfg.clone();
                if let Boot::Pool { extra, .. } = &mut c.boot {
                    *extra = y;
                }
                if self.try_cfg(c) {
                    break;
                }
            }
        }
        for u in 0..self.cfg.orca.len() {
            for y in Self::smaller(self.cfg.orca[u]) {
                let mut c = self.cfg.clone();
                c.orca[u] = y;
                if self.try_cfg(c) {
                    break;
                }
            }
        }
    }
}

pub fn minimise(prop: &str, cfg: &Cfg, steps: &[Step], v: &Violation) -> (Cfg, Vec<Step>, Violation) {
    let mut s = Shrink {
        prop,
        class: v.class.clone(),
        budget: 20_000,
        cfg: cfg.clone(),
        steps: steps.to_vec(),
        deadline: Instant::now() + std::time::Duration::from_secs(60),
    };
    for _ in 0..4 {
        let before = (s.cfg.clone(), s.steps.clone());
        s.ddmin();
        s.simplify_steps();
        s.simplify_cfg();
        if before == (s.cfg.clone(), s.steps.clone()) {
            break;
        }
    }
    let v = run_trace(prop, &s.cfg, &s.steps).expect("minimised trace still fails");
    (s.cfg, s.steps, v)
}

// ---------------------------------------------------------------- batch
pub struct Batch {
    pub runs: u64,
    pub stats: Stats,
    pub histories: HashSet<u64>,
    pub nontrivial: u64,
    pub worst: Option<(u64, RunOut)>,
    pub samples: Vec<serde_json::Value>,
    pub wall: f64,
    pub timed_out: bool,
    pub workers: usize,
}

pub fn workers() -> usize {
    std::env::var("XSIM_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
}

/// Executes runs 0..n of a property; stops early only once a violation with a smaller run
/// index can no longer exist, so the reported run does not depend on the worker count.
pub fn batch(prop: &str, seed: u64, n: u64, deep: bool, cap_s: u64) -> Batch {
    crate::svm::init();
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let expired = AtomicBool::new(false);
    let total = Mutex::new(Batch {
        runs: 0,
        stats: Stats::default(),
        histories: HashSet::new(),
        nontrivial: 0,
        worst: None,
        samples: vec![],
        wall: 0.0,
        timed_out: false,
        workers: workers(),
    });
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            sc.spawn(|| {
                let mut stats = Stats::default();
                let mut hist = HashSet::new();
                let mut runs = 0;
                let mut nontrivial = 0;
                let mut samples = Vec::new();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > best.load(Ordering::SeqCst) {
                        break;
                    }
                    if start.elapsed().as_secs() > cap_s {
                        expired.store(true, Ordering::SeqCst);
                        break;
                    }
                    let r = run_seeded(prop, Rng::run_seed(seed, prop, i), deep, false);
                    runs += 1;
                    stats.merge(&r.stats);
                    let oracle = r.stats.c.iter().any(|(k, v)| *v > 0 && (k.starts_with("oracle") || *k == "exit_drills"));
                    let progress = r.stats.c.iter().any(|(k, _)| k.starts_with("op_") && k.ends_with("_ok"));
                    if hist.insert(r.stats.history) && progress && (oracle || matches!(prop, "P14" | "P17")) {
                        nontrivial += 1;
                    }
                    if i < 2 {
                        let first: Vec<_> = r.steps.iter().take(14).collect();
                        samples.push((i, serde_json::json!({"run": i, "run_seed": Rng::run_seed(seed, prop, i), "steps_total": r.steps.len(), "config": r.cfg, "first_steps": first})));
                    }
                    if r.violation.is_some() {
                        best.fetch_min(i, Ordering::SeqCst);
                        let mut t = total.lock().unwrap();
                        if t.worst.as_ref().map(|w| i < w.0).unwrap_or(true) {
                            t.worst = Some((i, r));
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                t.runs += runs;
                t.nontrivial += nontrivial;
                t.stats.merge(&stats);
                t.histories.extend(hist);
                samples.sort_by_key(|s| s.0);
                t.samples.extend(samples.into_iter().map(|s| s.1));
            });
        }
    });
    let mut b = total.into_inner().unwrap();
    b.samples.sort_by_key(|s| s["run"].as_u64());
    b.wall = start.elapsed().as_secs_f64();
    b.timed_out = expired.load(Ordering::SeqCst);
    b
}
