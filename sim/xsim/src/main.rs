//! xsim run <property>            search (VERIF_SEED, VERIF_TIER), write evidence
//! xsim replay <file>             re-execute a replay file
//! xsim log <property> <lo> <hi>  print one outcome digest per run (determinism proof)
//! xsim replica <file>            re-execute a landed history, print digests (P17)
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use xsim::check::Violation;
use xsim::drive::*;
use xsim::prng::Rng;

#[global_allocator]
static ALLOC: xsim::replica::Alloc = xsim::replica::Alloc;

/// The machine clock of this process: the real one plus the replica's skew (0 elsewhere).
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    #[cfg(target_arch = "x86_64")]
    const NR: i64 = 228;
    #[cfg(not(target_arch = "x86_64"))]
    const NR: i64 = 113;
    let r = syscall(NR, id as i64, ts);
    if r == 0 && (id == 0 || id == 5) {
        (*ts)[0] += xsim::replica::CLOCK_SKEW.load(std::sync::atomic::Ordering::Relaxed);
    }
    r as i32
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn root() -> PathBuf {
    std::env::var_os("XSIM_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2]),
        Some("replay") => replay(&args[2]),
        Some("log") => log(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
        Some("replica") => xsim::replica::serve(&args[2]),
        _ => {
            eprintln!("usage: xsim run <property> | replay <file> | log <property> <lo> <hi> | replica <file>");
            2
        }
    };
    exit(code)
}

fn log(prop: &str, lo: u64, hi: u64) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    for i in lo..hi {
        let r = run_seeded(prop, Rng::run_seed(seed, prop, i), false, true);
        let mut h = xsim::prng::Fnv::new();
        for l in &r.landed {
            h.u64(l.id as u64);
            h.u64(l.digest);
        }
        h.bytes(serde_json::to_string(&r.steps).unwrap().as_bytes());
        println!("{prop} {i} {} {:016x} {:?}", r.steps.len(), h.finish(), r.violation.map(|v| v.class));
    }
    0
}

/// Runs per property and tier: fixed counts, so that the outcome of a check is a function
/// of the seed and the code alone.
fn runs(prop: &str, deep: bool) -> u64 {
    let quick = match prop {
        "P15" => 25_000,
        "P17" => 6_000,
        "P05" => 50_000,
        _ => 60_000,
    };
    let n = if deep { quick * 25 } else { quick };
    env_u64("XSIM_RUNS", n)
}

fn run(prop: &str) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let deep = tier == "thorough";
    println!("xsim property={prop} seed={seed} tier={tier}");
    let n = runs(prop, deep);
    let mut b = batch(prop, seed, n, deep, if deep { 3000 } else { 600 });
    let mut violation: Option<(PathBuf, Violation)> = None;
    if let Some((i, r)) = b.worst.take() {
        let v = r.violation.clone().unwrap();
        let (cfg, steps, v2) = minimise(prop, &r.cfg, &r.steps, &v);
        let rep = Replay { property: prop.into(), seed, run: i, violation: v2.clone(), original_steps: r.steps.len(), cfg, steps };
        violation = Some((write_replay(prop, &serde_json::to_value(&rep).unwrap()), v2));
    }
    let mut extra = serde_json::Map::new();
    if violation.is_none() && prop == "P17" {
        match xsim::replica::run(seed, if deep { 6 * n } else { n }, deep, &root()) {
            Ok(m) => extra = m,
            Err((file, v)) => violation = Some((file, v)),
        }
    }
    evidence(prop, seed, &tier, &b, violation.is_some(), extra);
    println!(
        "runs={} distinct_histories={} abstract_states={} landed_txs={} wall={:.1}s ({:.0} runs/h)",
        b.runs,
        b.histories.len(),
        b.stats.states.len(),
        b.stats.c.get("txs_landed").unwrap_or(&0),
        b.wall,
        b.runs as f64 / b.wall * 3600.0
    );
    match violation {
        None => 0,
        Some((file, v)) => {
            println!("violation: [{}] {}", v.class, v.msg);
            // A fresh process must reproduce it exactly.
            let st = Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&file).output().expect("spawn replay");
            if st.status.code() != Some(1) {
                println!("note: a fresh process did not reproduce the violation (exit {:?})", st.status.code());
                if prop != "P17" {
                    return 3;
                }
            }
            println!("VIOLATION property={prop} replay={}", file.display());
            1
        }
    }
}

fn write_replay(prop: &str, v: &serde_json::Value) -> PathBuf {
    let dir = root().join("evidence/replay");
    std::fs::create_dir_all(&dir).expect("create replay dir");
    let f = dir.join(format!("{prop}.json"));
    std::fs::write(&f, serde_json::to_string_pretty(v).unwrap()).expect("write replay");
    f
}

fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(Path::new(file)) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {file}: {e}");
            return 2;
        }
    };
    let val: serde_json::Value = serde_json::from_str(&text).expect("replay file is JSON");
    if val.get("replica").is_some() {
        return xsim::replica::replay(&val, file);
    }
    let r: Replay = serde_json::from_value(val).expect("replay file");
    match run_trace(&r.property, &r.cfg, &r.steps) {
        Some(v) => {
            println!("violation: [{}] {}", v.class, v.msg);
            if v != r.violation {
                println!("differs from the recorded violation: [{}] {}", r.violation.class, r.violation.msg);
                return 4;
            }
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        None => {
            println!("replayed {} steps: no violation", r.steps.len());
            0
        }
    }
}

fn evidence(prop: &str, seed: u64, tier: &str, b: &Batch, bad: bool, extra: serde_json::Map<String, serde_json::Value>) {
    let c = &b.stats.c;
    let pick = |p: &str| -> serde_json::Value {
        c.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.trim_start_matches(p).to_string(), serde_json::json!(v))).collect::<serde_json::Map<_, _>>().into()
    };
    let other: serde_json::Map<String, serde_json::Value> = c
        .iter()
        .filter(|(k, _)| !["fault_", "op_", "refusal_", "oracle_"].iter().any(|p| k.starts_with(p)))
        .map(|(k, v)| (k.to_string(), serde_json::json!(v)))
        .collect();
    let mut cov = serde_json::json!({
        "evaluations": b.runs,
        "distinct_nontrivial": b.nontrivial,
        "rule": "one evaluation = one seeded simulated run (its own genesis, clients, mempool, blocks, forks, clock and faults); non-trivial = its sequence of executed instructions with outcomes, block and fork boundaries is distinct among the worker's runs, at least one staking instruction succeeded, and this property's oracle was consulted",
        "samples": b.samples,
        "runs_per_hour": (b.runs as f64 / b.wall.max(0.001) * 3600.0) as u64,
        "distinct_execution_histories": b.histories.len(),
        "distinct_abstract_states": b.stats.states.len(),
        "abstract_state_measure": "log2 buckets of backing, supply, escrow, cooldown; authority; set of open claims with owner, index, maturity",
        "simulated_seconds": b.stats.sim_seconds,
        "faults_injected": pick("fault_"),
        "instructions": pick("op_"),
        "refusal_reasons_exercised": pick("refusal_"),
        "oracle_evaluations": pick("oracle_"),
        "counters": other,
        "workers": b.workers,
        "stopped_by_time_cap": b.timed_out,
        "components_real": ["xorca-staking-program (entry point and all instructions, native build)", "pinocchio 0.9 and pinocchio-token/-system/-ata CPI builders", "spl-token processor 7.0"],
        "components_stubbed": ["Solana runtime (account rules, atomicity, CPI privileges, rent, fees)", "system program", "associated-token-account program", "mempool, leader, forks, clock"],
    });
    let m = cov.as_object_mut().unwrap();
    m.extend(extra);
    let e = serde_json::json!({
        "property": prop, "seed": seed, "tier": tier, "level": "exploration", "coverage": cov,
        "assumptions": ["the simulated runtime rules match Agave's (see DESIGN.md)", "the native build of the program behaves like its SBF build"],
        "wall_s": b.wall, "violations": if bad { 1 } else { 0 },
    });
    let f = root().join("evidence").join(format!("{prop}.json"));
    std::fs::create_dir_all(f.parent().unwrap()).expect("evidence dir");
    std::fs::write(f, serde_json::to_string_pretty(&e).unwrap()).expect("write evidence");
}
