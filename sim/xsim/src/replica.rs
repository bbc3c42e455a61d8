//! P17: every validator must compute the same result.  The landed history of a run is
//! shipped to replicas — fresh processes with another environment, another working
//! directory, other memory contents, other transactions executed before — which must
//! report the same outcome and ledger digest for every transaction.
use crate::check::Violation;
use crate::drive::run_seeded;
use crate::prng::Rng;
use crate::svm::{execute, set_rent, Acct, Clock, Fault, FaultKind, Ix, Key, Ledger, Meta, Tx};
use crate::world::{genesis, outcome_digest, Landed};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn replay_digests(cfg: &crate::world::Cfg, landed: &[Landed]) -> Vec<u64> {
    let mut l = genesis(cfg);
    landed
        .iter()
        .map(|t| {
            let out = execute(&mut l, &t.tx, t.clock, t.fault);
            outcome_digest(&out, &l)
        })
        .collect()
}
// ---------------------------------------------------------------- perturbed environments
use std::sync::atomic::{AtomicI64, AtomicU8, Ordering};
/// Byte that fresh heap allocations and the stack below the program's entry point are
/// filled with (0: left alone).
pub static FILL: AtomicU8 = AtomicU8::new(0);
/// Offset of this machine's clock in seconds.
pub static CLOCK_SKEW: AtomicI64 = AtomicI64::new(0);

pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        let f = FILL.load(Ordering::Relaxed);
        if f != 0 && !p.is_null() {
            p.write_bytes(f, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let q = std::alloc::System.realloc(p, l, n);
        let f = FILL.load(Ordering::Relaxed);
        if f != 0 && !q.is_null() && n > l.size() {
            q.add(l.size()).write_bytes(f, n - l.size());
        }
        q
    }
}
#[inline(never)]
pub fn paint_stack() {
    let f = FILL.load(Ordering::Relaxed);
    if f != 0 {
        let mut pad = std::mem::MaybeUninit::<[u8; 48 * 1024]>::uninit();
        let p = pad.as_mut_ptr() as *mut u8;
        for i in 0..48 * 1024 {
            unsafe { p.add(i).write_volatile(f) };
        }
        std::hint::black_box(&mut pad);
    }
}
fn perturb(mode: u64) {
    let (fill, skew) = match mode {
        0 => (0, 0),
        1 => (0xAA, 400_000_000),
        2 => (0xFF, -900_000_000),
        _ => (0x5B, 31_536_000 * 40),
    };
    FILL.store(fill, Ordering::Relaxed);
    CLOCK_SKEW.store(skew, Ordering::Relaxed);
}

// ---------------------------------------------------------------- replica processes
/// Child: executes runs lo..hi (in the given order) and prints "run tag digests" lines.
pub fn serve(spec: &str) -> i32 {
    // spec: seed:lo:hi:deep:mode
    let p: Vec<u64> = spec.split(':').map(|x| x.parse().unwrap()).collect();
    let (seed, lo, hi, deep, mode) = (p[0], p[1], p[2], p[3] == 1, p[4]);
    perturb(mode);
    if mode == PRISTINE {
        return zygote(seed, lo, hi, deep);
    }
    crate::svm::init();
    // Different heap layout than the reference.
    let ballast: Vec<Vec<u8>> = (0..mode * 37).map(|i| vec![i as u8; 1000 + i as usize * 13]).collect();
    let order: Vec<u64> = if mode % 2 == 1 { (lo..hi).rev().collect() } else { (lo..hi).collect() };
    use std::io::Write;
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for i in order {
        let r = std::thread::spawn(move || {
            let r = run_seeded("P17", Rng::run_seed(seed, "P17", i), deep, true);
            let d: Vec<u64> = replay_digests(&r.cfg, &r.landed);
            (r.landed.iter().map(|l| l.digest).collect::<Vec<_>>(), d)
        })
        .join()
        .expect("replica run");
        for (tag, v) in [("first", r.0), ("again", r.1)] {
            let parts: Vec<String> = v.iter().map(|x| format!("{x:016x}")).collect();
            writeln!(out, "{i} {tag} {}", parts.join(",")).unwrap();
        }
    }
    out.flush().unwrap();
    drop(ballast);
    0
}

/// The mode in which every execution starts from a process that never ran the program.
const PRISTINE: u64 = 3;
/// Transactions of a run that are executed alone in a pristine process.
const SINGLES: usize = 6;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
}
/// Runs `f` in a forked copy of this process and returns what it wrote.
fn in_fork(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let v = f();
                w.write_all(&v).expect("pipe");
            }))
            .is_ok();
            drop(w);
            _exit(if ok { 0 } else { 9 });
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut v = Vec::new();
        r.read_to_end(&mut v).expect("read");
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 {
            eprintln!("forked replica ended with status {st:#x}");
            std::process::exit(3);
        }
        v
    }
}

/// Never executes the program itself.  Per run it forks one process that executes the
/// history in order, and one process for each of a few of its transactions that executes
/// only that one, on the ledger the first had before it.
fn zygote(seed: u64, lo: u64, hi: u64, deep: bool) -> i32 {
    crate::svm::init();
    for i in lo..hi {
        let blob = in_fork(|| {
            let r = run_seeded("P17", Rng::run_seed(seed, "P17", i), deep, true);
            let mut rng = Rng::new(Rng::run_seed(seed, "P17-singles", i));
            let staking: Vec<usize> = (0..r.landed.len()).filter(|k| r.landed[*k].tx.ixs.iter().any(|x| x.program == crate::abi::k().program)).collect();
            let mut pick: Vec<usize> = (0..SINGLES).filter(|_| !staking.is_empty()).map(|_| *rng.pick(&staking)).collect();
            pick.sort();
            pick.dedup();
            let mut w = Wire::default();
            let mut l = genesis(&r.cfg);
            w.num(r.landed.len() as u64);
            for t in &r.landed {
                w.num(t.digest);
            }
            w.num(pick.len() as u64);
            for (k, t) in r.landed.iter().enumerate() {
                if pick.contains(&k) {
                    w.num(k as u64);
                    w.num(t.digest);
                    let mut j = Wire::default();
                    j.job(r.cfg.rent, &l, t);
                    w.bytes(&j.0);
                }
                execute(&mut l, &t.tx, t.clock, t.fault);
            }
            w.0
        });
        let mut rd = Rd(&blob, 0);
        let first: Vec<String> = (0..rd.num()).map(|_| format!("{:016x}", rd.num())).collect();
        println!("{i} first {}", first.join(","));
        let mut single = Vec::new();
        for _ in 0..rd.num() {
            let (k, want) = (rd.num(), rd.num());
            let job = rd.bytes();
            let got = in_fork(|| {
                let (mut l, t) = Rd(job, 0).job();
                let out = execute(&mut l, &t.tx, t.clock, t.fault);
                outcome_digest(&out, &l).to_le_bytes().to_vec()
            });
            let got = u64::from_le_bytes(got.try_into().unwrap());
            single.push(format!("{k}:{want:016x}:{got:016x}"));
        }
        println!("{i} single {}", single.join(","));
    }
    0
}

#[derive(Default)]
struct Wire(Vec<u8>);
impl Wire {
    fn num(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    fn bytes(&mut self, b: &[u8]) {
        self.num(b.len() as u64);
        self.0.extend_from_slice(b);
    }
    fn job(&mut self, rent: u64, l: &Ledger, t: &Landed) {
        self.num(rent);
        self.num(l.m.len() as u64);
        for (k, a) in &l.m {
            self.0.extend_from_slice(k);
            self.num(a.lamports);
            self.0.extend_from_slice(&a.owner);
            self.num(a.executable as u64);
            self.bytes(&a.data);
        }
        self.0.extend_from_slice(&t.tx.payer);
        self.num(t.tx.ixs.len() as u64);
        for x in &t.tx.ixs {
            self.0.extend_from_slice(&x.program);
            self.num(x.accounts.len() as u64);
            for m in &x.accounts {
                self.0.extend_from_slice(&m.key);
                self.num(m.signer as u64 | (m.writable as u64) << 1);
            }
            self.bytes(&x.data);
        }
        self.num(t.clock.slot);
        self.num(t.clock.unix as u64);
        match t.fault {
            None => self.num(0),
            Some(f) => {
                self.num(if f.kind == FaultKind::Kill { 1 } else { 2 });
                self.num(f.at as u64);
            }
        }
    }
}
struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn raw(&mut self, n: usize) -> &'a [u8] {
        let s = &self.0[self.1..self.1 + n];
        self.1 += n;
        s
    }
    fn num(&mut self) -> u64 {
        u64::from_le_bytes(self.raw(8).try_into().unwrap())
    }
    fn key(&mut self) -> Key {
        self.raw(32).try_into().unwrap()
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.num() as usize;
        self.raw(n)
    }
    fn job(&mut self) -> (Ledger, Landed) {
        set_rent(self.num());
        let mut l = Ledger::default();
        for _ in 0..self.num() {
            let k = self.key();
            let lamports = self.num();
            let owner = self.key();
            let executable = self.num() == 1;
            let data = std::sync::Arc::new(self.bytes().to_vec());
            l.m.insert(k, Acct { lamports, data, owner, executable });
        }
        let payer = self.key();
        let ixs = (0..self.num())
            .map(|_| {
                let program = self.key();
                let accounts = (0..self.num())
                    .map(|_| {
                        let key = self.key();
                        let f = self.num();
                        Meta { key, signer: f & 1 != 0, writable: f & 2 != 0 }
                    })
                    .collect();
                Ix { program, accounts, data: self.bytes().to_vec() }
            })
            .collect();
        let clock = Clock { slot: self.num(), unix: self.num() as i64 };
        let fault = match self.num() {
            0 => None,
            k => Some(Fault { at: self.num() as u32, kind: if k == 1 { FaultKind::Kill } else { FaultKind::Error } }),
        };
        (l, Landed { id: 0, tx: Tx { payer, ixs }, clock, fault, digest: 0, ok: false })
    }
}

fn spawn(seed: u64, lo: u64, hi: u64, deep: bool, mode: u64) -> std::process::Child {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("replica").arg(format!("{seed}:{lo}:{hi}:{}:{mode}", deep as u8)).stdout(Stdio::piped()).stderr(Stdio::inherit());
    c.env_clear();
    for i in 0..mode * 3 {
        c.env(format!("REPLICA_PAD_{i}"), "x".repeat((i * 7 + 1) as usize));
    }
    // None, the usual ones, the usual ones with other values, or what this process has.
    let usual = ["HOME", "PATH", "USER", "LOGNAME", "SHELL", "LANG", "LC_ALL", "TERM", "TMPDIR", "HOSTNAME", "CI", "DEBUG", "RUST_LOG", "CARGO_MANIFEST_DIR", "SOLANA_CLUSTER"];
    match mode {
        1 => usual.iter().for_each(|v| drop(c.env(v, "1"))),
        2 => usual.iter().step_by(2).for_each(|v| drop(c.env(v, "/nonexistent"))),
        3 => std::env::vars_os().filter(|(k, _)| !k.to_string_lossy().starts_with("XSIM_")).for_each(|(k, v)| drop(c.env(k, v))),
        _ => {}
    }
    c.env("TZ", if mode == 0 { "UTC" } else { "Pacific/Apia" });
    c.current_dir(if mode == 0 { "/" } else { "/tmp" });
    c.spawn().expect("spawn replica")
}

fn parse(out: &[u8]) -> std::collections::BTreeMap<(u64, String), Vec<String>> {
    String::from_utf8_lossy(out)
        .lines()
        .map(|l| {
            let mut p = l.splitn(3, ' ');
            let i = p.next().unwrap().parse().unwrap();
            let tag = p.next().unwrap().to_string();
            let v = p.next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
            ((i, tag), v)
        })
        .collect()
}

/// Compares replicas on runs lo..hi; the first disagreement, if any.
fn compare(seed: u64, lo: u64, hi: u64, deep: bool) -> Result<(u64, u64, u64), (u64, String)> {
    let kids: Vec<_> = (0..4).map(|m| spawn(seed, lo, hi, deep, m)).collect();
    let outs: Vec<_> = kids
        .into_iter()
        .map(|mut k| {
            // Drained concurrently: no replica may wait for another.
            std::thread::spawn(move || {
                use std::io::Read;
                let mut v = Vec::new();
                k.stdout.take().unwrap().read_to_end(&mut v).expect("replica output");
                (k.wait().expect("replica"), v)
            })
        })
        .collect::<Vec<_>>()
        .into_iter()
        .map(|h| h.join().unwrap())
        .collect();
    let maps: Vec<_> = outs
        .iter()
        .map(|(st, o)| {
            if !st.success() {
                eprintln!("replica process failed: {st:?}");
                std::process::exit(3);
            }
            parse(o)
        })
        .collect();
    let (mut txs, mut singles) = (0u64, 0u64);
    for i in lo..hi {
        let base = &maps[0][&(i, "first".to_string())];
        for (m, map) in maps.iter().enumerate() {
            for tag in ["first", "again"] {
                let Some(v) = map.get(&(i, tag.to_string())) else { continue };
                txs += v.len() as u64;
                if v != base {
                    let at = v.iter().zip(base).position(|(a, b)| a != b).unwrap_or(v.len().min(base.len()));
                    return Err((i, format!("run {i}: replica {m} ({tag} execution) disagrees with replica 0 at landed transaction {at}")));
                }
            }
        }
        for s in &maps[PRISTINE as usize][&(i, "single".to_string())] {
            singles += 1;
            let p: Vec<&str> = s.split(':').collect();
            if p[1] != p[2] {
                return Err((i, format!("run {i}: a validator that executed nothing before landed transaction {} gets another result for it than one that executed the whole history", p[0])));
            }
        }
    }
    Ok((txs, hi - lo, singles))
}

type Extra = serde_json::Map<String, serde_json::Value>;
pub fn run(seed: u64, n: u64, deep: bool, root: &Path) -> Result<Extra, (PathBuf, Violation)> {
    let parts = 8u64.min(n.max(1));
    let per = n.div_ceil(parts);
    let res: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..parts)
            .map(|p| {
                let (lo, hi) = (p * per, ((p + 1) * per).min(n));
                s.spawn(move || if lo < hi { compare(seed, lo, hi, deep) } else { Ok((0, 0, 0)) })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let (mut txs, mut runs, mut singles) = (0, 0, 0);
    for r in res {
        match r {
            Ok((t, n, s)) => {
                txs += t;
                singles += s;
                runs += n;
            }
            Err((i, msg)) => {
                let v = Violation { prop: "P17".into(), class: "replicas_disagree".into(), msg };
                let dir = root.join("evidence/replay");
                std::fs::create_dir_all(&dir).unwrap();
                let f = dir.join("P17.json");
                let whole = i + 1;
                let one = compare(seed, i, i + 1, deep).is_err();
                let val = serde_json::json!({"property": "P17", "replica": {"seed": seed, "lo": if one { i } else { i - i % per }, "hi": if one { i + 1 } else { ((i / per + 1) * per).min(n).max(whole) }, "deep": deep}, "violation": v});
                std::fs::write(&f, serde_json::to_string_pretty(&val).unwrap()).unwrap();
                return Err((f, v));
            }
        }
    }
    let mut m = Extra::new();
    m.insert("replica_processes".into(), serde_json::json!(parts * 4));
    m.insert("transactions_executed_alone_in_a_pristine_process".into(), serde_json::json!(singles));
    m.insert("replica_runs_compared".into(), serde_json::json!(runs));
    m.insert("replica_transaction_digests_compared".into(), serde_json::json!(txs));
    Ok(m)
}
pub fn replay(v: &serde_json::Value, file: &str) -> i32 {
    let r = &v["replica"];
    match compare(r["seed"].as_u64().unwrap(), r["lo"].as_u64().unwrap(), r["hi"].as_u64().unwrap(), r["deep"].as_bool().unwrap()) {
        Ok(_) => {
            println!("replicas agree");
            0
        }
        Err((_, m)) => {
            println!("violation: {m}");
            println!("VIOLATION property=P17 replay={file}");
            1
        }
    }
}
