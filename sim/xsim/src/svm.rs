//! Mini-SVM: a single-process, single-threaded, fully deterministic stand-in for the
//! Solana runtime.  The staking program under test runs its real native code behind the
//! real pinocchio crate (whose syscalls are routed here), the SPL token program is the
//! real `spl-token` processor; the system program, the associated-token-account program
//! and the runtime rules (account ownership, privileges, rent, atomicity) are stubs
//! written from the Agave semantics.
use solana_program::pubkey::Pubkey as SPubkey;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Once};

pub type Key = [u8; 32];

pub const SYSTEM: Key = [0u8; 32];

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub data: Arc<Vec<u8>>,
    pub owner: Key,
    pub executable: bool,
}
impl Default for Acct {
    fn default() -> Self {
        Acct { lamports: 0, data: EMPTY.with(|e| e.clone()), owner: SYSTEM, executable: false }
    }
}
thread_local! { static EMPTY: Arc<Vec<u8>> = Arc::new(Vec::new()); }
impl Acct {
    pub fn wallet(lamports: u64) -> Self {
        Acct { lamports, ..Default::default() }
    }
    pub fn is_void(&self) -> bool {
        self.lamports == 0 && self.data.is_empty() && self.owner == SYSTEM && !self.executable
    }
}

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Ledger {
    pub m: BTreeMap<Key, Acct>,
}
impl Ledger {
    pub fn get(&self, k: &Key) -> Acct {
        self.m.get(k).cloned().unwrap_or_default()
    }
    pub fn lamports(&self, k: &Key) -> u64 {
        self.m.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn set(&mut self, k: Key, a: Acct) {
        if a.is_void() {
            self.m.remove(&k);
        } else {
            self.m.insert(k, a);
        }
    }
    /// FNV-style digest over every byte of every account: the identity of a ledger state.
    pub fn digest(&self) -> u64 {
        let mut h = crate::prng::Fnv::new();
        for (k, a) in &self.m {
            h.bytes(k);
            h.u64(a.lamports);
            h.bytes(&a.owner);
            h.u64(a.data.len() as u64);
            h.bytes(&a.data);
        }
        h.finish()
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Meta {
    pub key: Key,
    pub signer: bool,
    pub writable: bool,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ix {
    pub program: Key,
    pub accounts: Vec<Meta>,
    pub data: Vec<u8>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tx {
    pub payer: Key,
    pub ixs: Vec<Ix>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Clock {
    pub slot: u64,
    pub unix: i64,
}

/// Failure of one instruction.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum IxErr {
    /// The staking program returned this error value (custom errors are the low 32 bits).
    Program(u64),
    /// The program panicked / aborted.
    Panic,
    /// A runtime rule, a builtin or a callee refused.
    Runtime(&'static str),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum TxErr {
    /// Could not be charged: nothing happened at all.
    Unpayable,
    Ix(usize, IxErr),
    /// An account was left with a balance that is neither zero nor rent exempt.
    Rent,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub enum FaultKind {
    /// The transaction is killed at this syscall (compute budget exhausted, validator
    /// crash inside the transaction): nothing but the fee may remain.
    Kill,
    /// The syscall reports an error to the caller where it can (sysvar reads); a CPI
    /// fails, which kills the transaction, as on chain.
    Error,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub struct Fault {
    pub at: u32,
    pub kind: FaultKind,
}

/// One executed top-level instruction, with the ledger before and after it.
#[derive(Clone, Debug)]
pub struct IxTrace {
    pub ix: Ix,
    /// Message-level privileges of every account of the instruction.
    pub metas: Vec<Meta>,
    pub pre: Ledger,
    pub post: Ledger,
    pub result: Result<(), IxErr>,
    pub events: Vec<Vec<u8>>,
    pub fault_fired: bool,
}
#[derive(Clone, Debug)]
pub struct TxOut {
    pub err: Option<TxErr>,
    pub fee: u64,
    pub ixs: Vec<IxTrace>,
    pub syscalls: u32,
    pub cpis: u32,
    pub fault_fired: bool,
}
impl TxOut {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
}

pub const FEE: u64 = 5000;
/// The cluster's rent rate (lamports per byte-year) in this execution.
pub const RENT: u64 = 3480;
thread_local! { static RENT_RATE: std::cell::Cell<u64> = const { std::cell::Cell::new(RENT) }; }
pub fn set_rent(rate: u64) {
    RENT_RATE.with(|r| r.set(if rate == 0 { RENT } else { rate }));
}
pub fn rent_rate() -> u64 {
    RENT_RATE.with(|r| r.get())
}
pub fn rent_min(len: usize) -> u64 {
    (128 + len as u64) * rent_rate() * 2
}
const MAX_INCREASE: usize = 10 * 1024;

// ---------------------------------------------------------------- PDA helpers
type PdaMemo = HashMap<(Vec<u8>, Key), Option<(Key, u8)>>;
thread_local! {
    static FIND_MEMO: RefCell<PdaMemo> = RefCell::new(HashMap::new());
    static CREATE_MEMO: RefCell<HashMap<(Vec<u8>, Key), Option<Key>>> = RefCell::new(HashMap::new());
}
fn flat(seeds: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![seeds.len() as u8];
    for s in seeds {
        v.push(s.len() as u8);
        v.extend_from_slice(s);
    }
    v
}
pub fn create_pda(seeds: &[&[u8]], program: &Key) -> Option<Key> {
    if seeds.len() > 16 || seeds.iter().any(|s| s.len() > 32) {
        return None;
    }
    let k = (flat(seeds), *program);
    if let Some(r) = CREATE_MEMO.with(|m| m.borrow().get(&k).cloned()) {
        return r;
    }
    let r = SPubkey::create_program_address(seeds, &SPubkey::new_from_array(*program))
        .ok()
        .map(|k| k.to_bytes());
    CREATE_MEMO.with(|m| m.borrow_mut().insert(k, r));
    r
}
pub fn find_pda(seeds: &[&[u8]], program: &Key) -> Option<(Key, u8)> {
    if seeds.len() > 15 || seeds.iter().any(|s| s.len() > 32) {
        return None;
    }
    let k = (flat(seeds), *program);
    if let Some(r) = FIND_MEMO.with(|m| m.borrow().get(&k).cloned()) {
        return r;
    }
    let r = SPubkey::try_find_program_address(seeds, &SPubkey::new_from_array(*program))
        .map(|(k, b)| (k.to_bytes(), b));
    FIND_MEMO.with(|m| m.borrow_mut().insert(k, r));
    r
}

// ---------------------------------------------------------------- runtime state
struct FrameAcct {
    key: Key,
    signer: bool,
    writable: bool,
    off: usize,
    orig_len: usize,
    first: bool,
}
struct Frame {
    program: Key,
    accts: Vec<FrameAcct>,
    mem: Vec<u128>,
    buf: *mut u8,
    sum: u128,
}
struct Rt {
    led: Ledger,
    clock: Clock,
    frames: Vec<Frame>,
    depth: usize,
    events: Vec<Vec<u8>>,
    fault: Option<Fault>,
    fired: bool,
    syscalls: u32,
    cpis: u32,
    bufs: Vec<Vec<u128>>,
    return_data: (Key, Vec<u8>),
}
thread_local! { static RT: RefCell<Option<Box<Rt>>> = const { RefCell::new(None) }; }

struct AbortTx(IxErr);
fn abort(e: IxErr) -> ! {
    resume_unwind(Box::new(AbortTx(e)) as Box<dyn Any + Send>)
}
fn rt_abort(s: &'static str) -> ! {
    abort(IxErr::Runtime(s))
}
fn with_rt<R>(f: impl FnOnce(&mut Rt) -> R) -> R {
    RT.with(|r| f(r.borrow_mut().as_mut().expect("syscall outside a simulated transaction")))
}

/// Counts a fault point; returns true if the syscall must report an error.
fn fault_point() -> bool {
    let hit = with_rt(|rt| {
        let n = rt.syscalls;
        rt.syscalls += 1;
        match rt.fault {
            Some(f) if f.at == n && !rt.fired => {
                rt.fired = true;
                Some(f.kind)
            }
            _ => None,
        }
    });
    match hit {
        Some(FaultKind::Kill) => rt_abort("injected kill"),
        Some(FaultKind::Error) => true,
        None => false,
    }
}

// ---------------------------------------------------------------- permission rules
/// Applies one account change made by `program`, enforcing the runtime's rules.
fn apply_change(led: &mut Ledger, program: &Key, writable: bool, key: &Key, new: Acct) -> Result<(), &'static str> {
    let old = led.get(key);
    if old == new {
        return Ok(());
    }
    if new.lamports != old.lamports {
        if new.lamports < old.lamports && &old.owner != program {
            return Err("ExternalAccountLamportSpend");
        }
        if !writable {
            return Err("ReadonlyLamportChange");
        }
        if old.executable {
            return Err("ExecutableLamportChange");
        }
    }
    if new.data != old.data {
        if !writable {
            return Err("ReadonlyDataModified");
        }
        if old.executable {
            return Err("ExecutableDataModified");
        }
        if &old.owner != program {
            return Err(if new.data.len() != old.data.len() { "AccountDataSizeChanged" } else { "ExternalAccountDataModified" });
        }
        if new.data.len() > 10 * 1024 * 1024 {
            return Err("InvalidRealloc");
        }
    }
    if new.owner != old.owner {
        if !writable || &old.owner != program || old.executable {
            return Err("ModifiedProgramId");
        }
        if new.data.iter().any(|b| *b != 0) {
            return Err("ModifiedProgramId");
        }
    }
    led.m.insert(*key, new);
    Ok(())
}

// ---------------------------------------------------------------- program frames
fn align8(x: usize) -> usize {
    (x + 7) & !7
}

fn run_staking_program(program: &Key, metas: &[Meta], data: &[u8]) {
    // Serialise the input exactly as the loader does (aligned, v1).
    let buf_ptr = with_rt(|rt| {
        let mut need = 8usize;
        let mut seen: Vec<Key> = Vec::new();
        for m in metas {
            if seen.contains(&m.key) {
                need += 8;
            } else {
                seen.push(m.key);
                let len = rt.led.m.get(&m.key).map(|a| a.data.len()).unwrap_or(0);
                need += 88 + align8(len) + MAX_INCREASE + 8;
            }
        }
        need += 8 + align8(data.len()) + 32 + 64;
        let words = need / 16 + 4;
        let mut b = rt.bufs.pop().unwrap_or_default();
        b.clear();
        b.resize(words, 0);
        let p = b.as_mut_ptr() as *mut u8;
        let total = b.len() * 16;
        let slice = unsafe { std::slice::from_raw_parts_mut(p, total) };
        let mut accts: Vec<FrameAcct> = Vec::new();
        let mut o = 0usize;
        slice[o..o + 8].copy_from_slice(&(metas.len() as u64).to_le_bytes());
        o += 8;
        let mut sum = 0u128;
        for m in metas {
            if let Some(i) = accts.iter().position(|a| a.key == m.key) {
                slice[o] = i as u8;
                let (off, len) = (accts[i].off, accts[i].orig_len);
                accts.push(FrameAcct { key: m.key, signer: m.signer, writable: m.writable, off, orig_len: len, first: false });
                o += 8;
                continue;
            }
            let a = rt.led.get(&m.key);
            sum += a.lamports as u128;
            accts.push(FrameAcct { key: m.key, signer: m.signer, writable: m.writable, off: o, orig_len: a.data.len(), first: true });
            slice[o] = 0xff;
            slice[o + 1] = m.signer as u8;
            slice[o + 2] = m.writable as u8;
            slice[o + 3] = a.executable as u8;
            slice[o + 8..o + 40].copy_from_slice(&m.key);
            slice[o + 40..o + 72].copy_from_slice(&a.owner);
            slice[o + 72..o + 80].copy_from_slice(&a.lamports.to_le_bytes());
            slice[o + 80..o + 88].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
            slice[o + 88..o + 88 + a.data.len()].copy_from_slice(&a.data);
            o += 88 + a.data.len() + MAX_INCREASE;
            o = align8(o);
            slice[o..o + 8].copy_from_slice(&u64::MAX.to_le_bytes());
            o += 8;
        }
        slice[o..o + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
        o += 8;
        slice[o..o + data.len()].copy_from_slice(data);
        o += data.len();
        slice[o..o + 32].copy_from_slice(program);
        rt.frames.push(Frame { program: *program, accts, mem: b, buf: p, sum });
        p
    });
    // Run the real program.
    crate::replica::paint_stack();
    let code: u64 = unsafe {
        use core::mem::MaybeUninit;
        use pinocchio::account_info::AccountInfo;
        const U: MaybeUninit<AccountInfo> = MaybeUninit::<AccountInfo>::uninit();
        let mut infos = [U; 64];
        let (pid, n, d) = pinocchio::entrypoint::deserialize::<64>(buf_ptr, &mut infos);
        let pid: Key = *pid;
        match xorca_staking_program::entrypoint::process_instruction(
            &pid,
            core::slice::from_raw_parts(infos.as_ptr() as *const AccountInfo, n),
            d,
        ) {
            Ok(()) => 0,
            Err(e) => {
                let c: u64 = e.into();
                if c == 0 {
                    u64::MAX
                } else {
                    c
                }
            }
        }
    };
    if code != 0 {
        abort(IxErr::Program(code));
    }
    // Copy the outcome back under the runtime's rules.
    let res = with_rt(|rt| {
        let frame = rt.frames.pop().unwrap();
        let mut r: Result<(), &'static str> = Ok(());
        for a in frame.accts.iter().filter(|a| a.first) {
            let writable = a.writable;
            let new = unsafe { read_frame_acct(rt, &frame, a) };
            r = match new {
                Ok(n) => apply_change(&mut rt.led, &frame.program, writable, &a.key, n),
                Err(e) => Err(e),
            };
            if r.is_err() {
                break;
            }
        }
        if r.is_ok() {
            let sum: u128 = frame.accts.iter().filter(|a| a.first).map(|a| rt.led.lamports(&a.key) as u128).sum();
            if sum != frame.sum {
                r = Err("UnbalancedInstruction");
            }
        }
        rt.bufs.push(frame.mem);
        r
    });
    if let Err(e) = res {
        rt_abort(e);
    }
}

unsafe fn read_frame_acct(rt: &Rt, frame: &Frame, a: &FrameAcct) -> Result<Acct, &'static str> {
    let base = frame.buf.add(a.off);
    let mut owner = [0u8; 32];
    core::ptr::copy_nonoverlapping(base.add(40), owner.as_mut_ptr(), 32);
    let lamports = core::ptr::read_unaligned(base.add(72) as *const u64);
    let len = core::ptr::read_unaligned(base.add(80) as *const u64) as usize;
    if len > a.orig_len + MAX_INCREASE {
        return Err("InvalidRealloc");
    }
    let data = std::slice::from_raw_parts(base.add(88), len);
    let old = rt.led.get(&a.key);
    let data = if old.data.as_slice() == data { old.data.clone() } else { Arc::new(data.to_vec()) };
    Ok(Acct { lamports, data, owner, executable: old.executable })
}

/// Dispatches an instruction (top level or CPI).  Aborts by unwinding.
fn dispatch(ix_program: &Key, metas: &[Meta], data: &[u8]) {
    with_rt(|rt| rt.depth += 1);
    if with_rt(|rt| rt.depth) > 5 {
        rt_abort("CallDepth");
    }
    let k = crate::abi::k();
    if ix_program == &k.program {
        run_staking_program(ix_program, metas, data);
    } else {
        let before: u128 = with_rt(|rt| sum_lamports(&rt.led, metas));
        let r = if ix_program == &SYSTEM {
            with_rt(|rt| system_program(rt, metas, data))
        } else if ix_program == &k.token_program {
            with_rt(|rt| token_program(rt, metas, data))
        } else if ix_program == &k.ata_program {
            with_rt(|rt| ata_program(rt, metas, data))
        } else {
            Ok(()) // any other executable is an attacker's program that does nothing
        };
        if let Err(e) = r {
            rt_abort(e);
        }
        let after: u128 = with_rt(|rt| sum_lamports(&rt.led, metas));
        if before != after {
            rt_abort("UnbalancedInstruction");
        }
    }
    with_rt(|rt| rt.depth -= 1);
}
fn sum_lamports(led: &Ledger, metas: &[Meta]) -> u128 {
    let mut seen: Vec<Key> = Vec::new();
    let mut s = 0u128;
    for m in metas {
        if !seen.contains(&m.key) {
            seen.push(m.key);
            s += led.lamports(&m.key) as u128;
        }
    }
    s
}

// ---------------------------------------------------------------- system program (stub)
fn rd_u32(d: &[u8], o: usize) -> Option<u32> {
    d.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()))
}
fn rd_u64(d: &[u8], o: usize) -> Option<u64> {
    d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
}
fn rd_key(d: &[u8], o: usize) -> Option<Key> {
    d.get(o..o + 32).map(|b| b.try_into().unwrap())
}
fn sys_transfer(rt: &mut Rt, from: &Meta, to: &Meta, lamports: u64) -> Result<(), &'static str> {
    if !from.signer {
        return Err("MissingRequiredSignature");
    }
    let mut f = rt.led.get(&from.key);
    if !f.data.is_empty() {
        return Err("InvalidArgument: from must not carry data");
    }
    if lamports > f.lamports {
        return Err("ResultWithNegativeLamports");
    }
    if from.key == to.key {
        if !from.writable && lamports > 0 {
            return Err("ReadonlyLamportChange");
        }
        return Ok(());
    }
    f.lamports -= lamports;
    apply_change(&mut rt.led, &SYSTEM, from.writable, &from.key, f)?;
    let mut t = rt.led.get(&to.key);
    t.lamports = t.lamports.checked_add(lamports).ok_or("ArithmeticOverflow")?;
    apply_change(&mut rt.led, &SYSTEM, to.writable, &to.key, t)
}
fn sys_allocate(rt: &mut Rt, m: &Meta, space: u64) -> Result<(), &'static str> {
    if !m.signer {
        return Err("MissingRequiredSignature");
    }
    let mut a = rt.led.get(&m.key);
    if !a.data.is_empty() || a.owner != SYSTEM {
        return Err("AccountAlreadyInUse");
    }
    if space > 10 * 1024 * 1024 {
        return Err("InvalidAccountDataLength");
    }
    a.data = Arc::new(vec![0; space as usize]);
    apply_change(&mut rt.led, &SYSTEM, m.writable, &m.key, a)
}
fn sys_assign(rt: &mut Rt, m: &Meta, owner: &Key) -> Result<(), &'static str> {
    let mut a = rt.led.get(&m.key);
    if &a.owner == owner {
        return Ok(());
    }
    if !m.signer {
        return Err("MissingRequiredSignature");
    }
    a.owner = *owner;
    apply_change(&mut rt.led, &SYSTEM, m.writable, &m.key, a)
}
fn system_program(rt: &mut Rt, metas: &[Meta], d: &[u8]) -> Result<(), &'static str> {
    let bad = "InvalidInstructionData";
    let need = |n: usize| metas.get(n).ok_or("NotEnoughAccountKeys");
    match rd_u32(d, 0).ok_or(bad)? {
        0 => {
            let lamports = rd_u64(d, 4).ok_or(bad)?;
            let space = rd_u64(d, 12).ok_or(bad)?;
            let owner = rd_key(d, 20).ok_or(bad)?;
            let (f, t) = (need(0)?.clone(), need(1)?.clone());
            if rt.led.lamports(&t.key) > 0 {
                return Err("AccountAlreadyInUse");
            }
            sys_allocate(rt, &t, space)?;
            sys_assign(rt, &t, &owner)?;
            sys_transfer(rt, &f, &t, lamports)
        }
        1 => {
            let owner = rd_key(d, 4).ok_or(bad)?;
            let t = need(0)?.clone();
            sys_assign(rt, &t, &owner)
        }
        2 => {
            let lamports = rd_u64(d, 4).ok_or(bad)?;
            let (f, t) = (need(0)?.clone(), need(1)?.clone());
            sys_transfer(rt, &f, &t, lamports)
        }
        8 => {
            let space = rd_u64(d, 4).ok_or(bad)?;
            let t = need(0)?.clone();
            sys_allocate(rt, &t, space)
        }
        _ => Err(bad),
    }
}

// ---------------------------------------------------------------- token program (real spl-token)
struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        let rent = solana_program::rent::Rent { lamports_per_byte_year: rent_rate(), ..Default::default() };
        unsafe { *(p as *mut solana_program::rent::Rent) = rent };
        0
    }
}
static INIT: Once = Once::new();
pub fn init() {
    INIT.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        if std::env::var_os("XSIM_PANICS").is_none() {
            let default = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |info| {
                // Panics inside a simulated transaction are outcomes, not harness errors.
                let in_tx = RT.with(|r| r.try_borrow().map(|b| b.is_some()).unwrap_or(true));
                if !in_tx {
                    default(info);
                }
            }));
        }
    });
}

fn token_program(rt: &mut Rt, metas: &[Meta], d: &[u8]) -> Result<(), &'static str> {
    use solana_program::account_info::AccountInfo;
    use std::rc::Rc;
    let tp = SPubkey::new_from_array(crate::abi::k().token_program);
    struct Slot {
        key: SPubkey,
        owner: SPubkey,
        lamports: u64,
        data: Vec<u8>,
        signer: bool,
        writable: bool,
        executable: bool,
    }
    let mut slots: Vec<Slot> = Vec::new();
    let mut order: Vec<usize> = Vec::new();
    for m in metas {
        if let Some(i) = slots.iter().position(|s| s.key.to_bytes() == m.key) {
            order.push(i);
            continue;
        }
        let a = rt.led.get(&m.key);
        order.push(slots.len());
        slots.push(Slot {
            key: SPubkey::new_from_array(m.key),
            owner: SPubkey::new_from_array(a.owner),
            lamports: a.lamports,
            data: a.data.as_ref().clone(),
            signer: m.signer,
            writable: m.writable,
            executable: a.executable,
        });
    }
    let ok = {
        let infos: Vec<AccountInfo> = slots
            .iter_mut()
            .map(|s| AccountInfo {
                key: &s.key,
                lamports: Rc::new(RefCell::new(&mut s.lamports)),
                data: Rc::new(RefCell::new(s.data.as_mut_slice())),
                owner: unsafe { &*std::ptr::addr_of_mut!(s.owner) },
                rent_epoch: u64::MAX,
                is_signer: s.signer,
                is_writable: s.writable,
                executable: s.executable,
            })
            .collect();
        let ordered: Vec<AccountInfo> = order.iter().map(|i| infos[*i].clone()).collect();
        spl_token::processor::Processor::process(&tp, &ordered, d).is_ok()
    };
    if !ok {
        return Err("token program error");
    }
    for s in slots {
        let key = s.key.to_bytes();
        let owner = unsafe { std::ptr::read_volatile(&s.owner) }.to_bytes();
        let old = rt.led.get(&key);
        let mut data = s.data;
        if owner != old.owner && owner == SYSTEM {
            data = Vec::new(); // delete_account resizes to zero on chain
        }
        let data = if *old.data == data { old.data.clone() } else { Arc::new(data) };
        apply_change(&mut rt.led, &tp.to_bytes(), s.writable, &key, Acct { lamports: s.lamports, data, owner, executable: old.executable })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- ATA program (stub)
fn ata_program(rt: &mut Rt, metas: &[Meta], d: &[u8]) -> Result<(), &'static str> {
    let k = crate::abi::k();
    let idempotent = match d {
        [] | [0] => false,
        [1] => true,
        _ => return Err("InvalidInstructionData"),
    };
    if metas.len() < 6 {
        return Err("NotEnoughAccountKeys");
    }
    let (funder, ata, wallet, mint, sys, tok) =
        (metas[0].clone(), metas[1].clone(), metas[2].clone(), metas[3].clone(), metas[4].clone(), metas[5].clone());
    if tok.key != k.token_program {
        return Err("IncorrectProgramId");
    }
    let (addr, _) = find_pda(&[&wallet.key, &tok.key, &mint.key], &k.ata_program).ok_or("InvalidSeeds")?;
    if addr != ata.key {
        return Err("InvalidSeeds");
    }
    let a = rt.led.get(&ata.key);
    if idempotent && a.owner == k.token_program {
        if a.data.len() != 165 || a.data[108] != 1 && a.data[108] != 2 {
            return Err("InvalidAccountData");
        }
        if a.data[32..64] != wallet.key {
            return Err("InvalidOwner");
        }
        if a.data[0..32] != mint.key {
            return Err("InvalidAccountData");
        }
        return Ok(());
    }
    if a.owner != SYSTEM {
        return Err("IllegalOwner");
    }
    if sys.key != SYSTEM {
        return Err("IncorrectProgramId");
    }
    let signer_ata = Meta { signer: true, ..ata.clone() };
    let need = rent_min(165).saturating_sub(a.lamports);
    if need > 0 {
        sys_transfer(rt, &funder, &ata, need)?;
    }
    sys_allocate(rt, &signer_ata, 165)?;
    sys_assign(rt, &signer_ata, &k.token_program)?;
    // InitializeAccount3
    let mut data = vec![18u8];
    data.extend_from_slice(&wallet.key);
    token_program(rt, &[Meta { signer: false, ..ata }, Meta { signer: false, writable: false, ..mint }], &data)
}

// ---------------------------------------------------------------- CPI
#[repr(C)]
struct CMeta {
    pubkey: *const Key,
    is_writable: bool,
    is_signer: bool,
}
#[repr(C)]
struct CIx {
    program_id: *const Key,
    accounts: *const CMeta,
    accounts_len: u64,
    data: *const u8,
    data_len: u64,
}
#[repr(C)]
struct CInfo {
    key: *const Key,
    _rest: [u64; 6],
}
#[repr(C)]
struct CSlice {
    ptr: *const u8,
    len: u64,
}

unsafe fn invoke(ix: *const u8, infos: *const u8, n_infos: u64, seeds: *const u8, n_seeds: u64) -> u64 {
    if fault_point() {
        rt_abort("injected CPI failure");
    }
    let ix = &*(ix as *const CIx);
    let callee = *ix.program_id;
    let raw: &[CMeta] = if ix.accounts_len == 0 { &[] } else { std::slice::from_raw_parts(ix.accounts, ix.accounts_len as usize) };
    let data = if ix.data_len == 0 { Vec::new() } else { std::slice::from_raw_parts(ix.data, ix.data_len as usize).to_vec() };
    let info_keys: Vec<Key> = (0..n_infos as usize).map(|i| *(*(infos as *const CInfo).add(i)).key).collect();
    let caller = with_rt(|rt| rt.frames.last().expect("CPI without a frame").program);
    let mut pda_signers: Vec<Key> = Vec::new();
    for i in 0..n_seeds as usize {
        let s = &*(seeds as *const CSlice).add(i);
        let parts: Vec<&[u8]> = (0..s.len as usize)
            .map(|j| {
                let p = &*(s.ptr as *const CSlice).add(j);
                std::slice::from_raw_parts(p.ptr, p.len as usize)
            })
            .collect();
        match create_pda(&parts, &caller) {
            Some(k) => pda_signers.push(k),
            None => rt_abort("InvalidSeeds"),
        }
    }
    let mut metas: Vec<Meta> = raw
        .iter()
        .map(|m| Meta { key: *m.pubkey, signer: m.is_signer, writable: m.is_writable })
        .collect();
    // Duplicates share the union of their privileges.
    for i in 0..metas.len() {
        let (mut s, mut w) = (false, false);
        for m in metas.iter().filter(|m| m.key == metas[i].key) {
            s |= m.signer;
            w |= m.writable;
        }
        metas[i].signer = s;
        metas[i].writable = w;
    }
    let r: Result<(), &'static str> = with_rt(|rt| {
        rt.cpis += 1;
        let frame = rt.frames.pop().unwrap();
        let mut go = || -> Result<(), &'static str> {
            for m in &metas {
                let mut found = false;
                let (mut s, mut w) = (false, false);
                for a in frame.accts.iter().filter(|a| a.key == m.key) {
                    found = true;
                    s |= a.signer;
                    w |= a.writable;
                }
                if !found || !info_keys.contains(&m.key) {
                    return Err("MissingAccount");
                }
                if m.writable && !w {
                    return Err("PrivilegeEscalation");
                }
                if m.signer && !(s || pda_signers.contains(&m.key)) {
                    return Err("PrivilegeEscalation");
                }
            }
            if !frame.accts.iter().any(|a| a.key == callee) {
                return Err("MissingAccount");
            }
            if !rt.led.get(&callee).executable {
                return Err("AccountNotExecutable");
            }
            // Sync the caller's view into the ledger for the passed accounts.
            for m in &metas {
                let a = frame.accts.iter().find(|a| a.key == m.key && a.first).unwrap();
                let new = unsafe { read_frame_acct(rt, &frame, a) }?;
                apply_change(&mut rt.led, &frame.program, a.writable, &a.key, new)?;
            }
            let sum: u128 = frame.accts.iter().filter(|a| a.first).map(|a| rt.led.lamports(&a.key) as u128).sum();
            if sum != frame.sum {
                return Err("UnbalancedInstruction");
            }
            Ok(())
        };
        let r = go();
        rt.frames.push(frame);
        r
    });
    if let Err(e) = r {
        rt_abort(e);
    }
    dispatch(&callee, &metas, &data);
    let r: Result<(), &'static str> = with_rt(|rt| {
        let frame = rt.frames.pop().unwrap();
        let mut r = Ok(());
        for m in metas.iter().filter(|m| m.writable) {
            let a = frame.accts.iter().find(|a| a.key == m.key && a.first).unwrap();
            let n = rt.led.get(&m.key);
            if n.data.len() > a.orig_len + MAX_INCREASE {
                r = Err("InvalidRealloc");
                break;
            }
            unsafe {
                let base = frame.buf.add(a.off);
                let old_len = core::ptr::read_unaligned(base.add(80) as *const u64) as usize;
                core::ptr::copy_nonoverlapping(n.owner.as_ptr(), base.add(40), 32);
                core::ptr::write_unaligned(base.add(72) as *mut u64, n.lamports);
                core::ptr::write_unaligned(base.add(80) as *mut u64, n.data.len() as u64);
                core::ptr::copy_nonoverlapping(n.data.as_ptr(), base.add(88), n.data.len());
                if old_len > n.data.len() {
                    core::ptr::write_bytes(base.add(88 + n.data.len()), 0, old_len - n.data.len());
                }
            }
        }
        rt.frames.push(frame);
        r
    });
    if let Err(e) = r {
        rt_abort(e);
    }
    0
}

// ---------------------------------------------------------------- syscalls
mod syscalls {
    use super::*;
    unsafe fn slices<'a>(p: *const u8, n: u64) -> Vec<&'a [u8]> {
        (0..n as usize)
            .map(|i| {
                let s = &*(p as *const CSlice).add(i);
                if s.len == 0 {
                    &[][..]
                } else {
                    std::slice::from_raw_parts(s.ptr, s.len as usize)
                }
            })
            .collect()
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_invoke_signed_c(ix: *const u8, infos: *const u8, n: u64, seeds: *const u8, ns: u64) -> u64 {
        invoke(ix, infos, n, seeds, ns)
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_log_data(data: *const u8, n: u64) {
        if fault_point() {
            rt_abort("injected log failure");
        }
        let v = slices(data, n).concat();
        with_rt(|rt| rt.events.push(v));
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_log_(_m: *const u8, _n: u64) {}
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_log_64_(_a: u64, _b: u64, _c: u64, _d: u64, _e: u64) {}
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_log_compute_units_() {}
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_log_pubkey(_p: *const u8) {}
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_remaining_compute_units() -> u64 {
        200_000
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_get_stack_height() -> u64 {
        with_rt(|rt| rt.depth as u64)
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_create_program_address(s: *const u8, n: u64, prog: *const u8, out: *const u8) -> u64 {
        let seeds = slices(s, n);
        match create_pda(&seeds, &*(prog as *const Key)) {
            Some(k) => {
                core::ptr::copy_nonoverlapping(k.as_ptr(), out as *mut u8, 32);
                0
            }
            None => 14u64 << 32, // InvalidSeeds
        }
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_try_find_program_address(s: *const u8, n: u64, prog: *const u8, out: *const u8, bump: *const u8) -> u64 {
        let seeds = slices(s, n);
        match find_pda(&seeds, &*(prog as *const Key)) {
            Some((k, b)) => {
                core::ptr::copy_nonoverlapping(k.as_ptr(), out as *mut u8, 32);
                *(bump as *mut u8) = b;
                0
            }
            None => 1,
        }
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_sha256(v: *const u8, n: u64, out: *mut u8) -> u64 {
        let h = solana_program::hash::hashv(&slices(v, n));
        core::ptr::copy_nonoverlapping(h.as_ref().as_ptr(), out, 32);
        0
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_get_clock_sysvar(p: *mut u8) -> u64 {
        if fault_point() {
            return 1;
        }
        let c = with_rt(|rt| rt.clock);
        let w = p as *mut u64;
        // Clock { slot, epoch_start_timestamp, epoch, leader_schedule_epoch, unix_timestamp }
        *w = c.slot;
        *w.add(1) = c.unix.wrapping_sub(86_400) as u64;
        *w.add(2) = c.slot / 432_000;
        *w.add(3) = c.slot / 432_000 + 1;
        *w.add(4) = c.unix as u64;
        0
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_get_rent_sysvar(p: *mut u8) -> u64 {
        if fault_point() {
            return 1;
        }
        *(p as *mut u64) = rent_rate();
        *((p as *mut f64).add(1)) = 2.0;
        *p.add(16) = 50;
        0
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_get_sysvar(id: *const u8, out: *mut u8, off: u64, len: u64) -> u64 {
        if fault_point() {
            return 2;
        }
        let id = *(id as *const Key);
        let c = with_rt(|rt| rt.clock);
        let mut bytes = Vec::new();
        if id == crate::abi::key_of("SysvarC1ock11111111111111111111111111111111") {
            for w in [c.slot, c.unix.wrapping_sub(86_400) as u64, c.slot / 432_000, c.slot / 432_000 + 1, c.unix as u64] {
                bytes.extend_from_slice(&w.to_le_bytes());
            }
        } else if id == crate::abi::key_of("SysvarRent111111111111111111111111111111111") {
            bytes.extend_from_slice(&rent_rate().to_le_bytes());
            bytes.extend_from_slice(&2.0f64.to_le_bytes());
            bytes.push(50);
        } else {
            return 2;
        }
        match bytes.get(off as usize..(off + len) as usize) {
            Some(b) => {
                core::ptr::copy_nonoverlapping(b.as_ptr(), out, b.len());
                0
            }
            None => 1,
        }
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
        core::ptr::copy_nonoverlapping(s, d, n as usize)
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
        core::ptr::copy(s, d, n as usize)
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
        core::ptr::write_bytes(d, c, n as usize)
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
        let (a, b) = (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize));
        *r = 0;
        for (x, y) in a.iter().zip(b) {
            if x != y {
                *r = *x as i32 - *y as i32;
                break;
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_set_return_data(d: *const u8, n: u64) {
        let v = if n == 0 { Vec::new() } else { std::slice::from_raw_parts(d, n as usize).to_vec() };
        with_rt(|rt| {
            let p = rt.frames.last().map(|f| f.program).unwrap_or(SYSTEM);
            rt.return_data = (p, v)
        });
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn sol_get_return_data(d: *mut u8, n: u64, p: *mut Key) -> u64 {
        let (k, v) = with_rt(|rt| rt.return_data.clone());
        let m = v.len().min(n as usize);
        core::ptr::copy_nonoverlapping(v.as_ptr(), d, m);
        *p = k;
        v.len() as u64
    }
    macro_rules! unsupported { ($($n:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $n() -> u64 { rt_abort(concat!("unsupported syscall ", stringify!($n))) }
    )* } }
    unsupported!(
        sol_keccak256, sol_secp256k1_recover, sol_blake3, sol_get_epoch_schedule_sysvar, sol_get_fees_sysvar,
        sol_get_last_restart_slot, sol_invoke_signed_rust, sol_get_processed_sibling_instruction,
        sol_curve_validate_point, sol_curve_group_op, sol_curve_multiscalar_mul, sol_curve_pairing_map,
        sol_alt_bn128_group_op, sol_big_mod_exp, sol_get_epoch_rewards_sysvar, sol_poseidon, sol_alt_bn128_compression
    );
}

// ---------------------------------------------------------------- transactions
fn rent_class(a: &Acct) -> (u8, u64, usize) {
    if a.lamports == 0 {
        (0, 0, 0)
    } else if a.lamports >= rent_min(a.data.len()) {
        (2, a.lamports, a.data.len())
    } else {
        (1, a.lamports, a.data.len())
    }
}
fn rent_ok(pre: &Acct, post: &Acct) -> bool {
    let (p, q) = (rent_class(pre), rent_class(post));
    match q.0 {
        0 | 2 => true,
        _ => p.0 == 1 && p.2 == q.2 && q.1 <= p.1,
    }
}

/// Executes one transaction atomically against `led`.
pub fn execute(led: &mut Ledger, tx: &Tx, clock: Clock, fault: Option<Fault>) -> TxOut {
    init();
    let k = crate::abi::k();
    let mut out = TxOut { err: None, fee: 0, ixs: Vec::new(), syscalls: 0, cpis: 0, fault_fired: false };
    // Message-level privileges.
    let mut msg: BTreeMap<Key, (bool, bool)> = BTreeMap::new();
    msg.insert(tx.payer, (true, true));
    for ix in &tx.ixs {
        for m in &ix.accounts {
            let e = msg.entry(m.key).or_insert((false, false));
            e.0 |= m.signer;
            e.1 |= m.writable;
        }
    }
    for p in [SYSTEM, k.token_program, k.ata_program, k.program] {
        if let Some(e) = msg.get_mut(&p) {
            e.1 = false;
        }
    }
    let nsig = msg.values().filter(|f| f.0).count() as u64;
    let fee = FEE * nsig;
    // Fee payer.
    let pre_payer = led.get(&tx.payer);
    if pre_payer.lamports < fee || pre_payer.owner != SYSTEM || !pre_payer.data.is_empty() {
        out.err = Some(TxErr::Unpayable);
        return out;
    }
    let mut charged = pre_payer.clone();
    charged.lamports -= fee;
    if !rent_ok(&pre_payer, &charged) {
        out.err = Some(TxErr::Unpayable);
        return out;
    }
    out.fee = fee;
    led.set(tx.payer, charged);
    let before = led.clone();
    let bufs = BUFS.with(|b| std::mem::take(&mut *b.borrow_mut()));
    RT.with(|r| {
        *r.borrow_mut() = Some(Box::new(Rt {
            led: led.clone(),
            clock,
            frames: Vec::new(),
            depth: 0,
            events: Vec::new(),
            fault,
            fired: false,
            syscalls: 0,
            cpis: 0,
            bufs,
            return_data: (SYSTEM, Vec::new()),
        }))
    });
    for (i, ix) in tx.ixs.iter().enumerate() {
        let metas: Vec<Meta> = ix
            .accounts
            .iter()
            .map(|m| {
                let f = msg[&m.key];
                Meta { key: m.key, signer: f.0, writable: f.1 }
            })
            .collect();
        let pre = with_rt(|rt| rt.led.clone());
        let r = catch_unwind(AssertUnwindSafe(|| {
            if !with_rt(|rt| rt.led.get(&ix.program).executable) {
                rt_abort("InvalidProgramForExecution");
            }
            dispatch(&ix.program, &metas, &ix.data)
        }));
        let result = match r {
            Ok(()) => Ok(()),
            Err(p) => Err(match p.downcast::<AbortTx>() {
                Ok(a) => a.0,
                Err(_) => IxErr::Panic,
            }),
        };
        let (post, events, fired) = with_rt(|rt| {
            while let Some(f) = rt.frames.pop() {
                rt.bufs.push(f.mem);
            }
            rt.depth = 0;
            (rt.led.clone(), std::mem::take(&mut rt.events), rt.fired)
        });
        let failed = result.is_err();
        if let Err(e) = &result {
            out.err = Some(TxErr::Ix(i, e.clone()));
        }
        out.ixs.push(IxTrace { ix: ix.clone(), metas, pre, post, result, events, fault_fired: fired });
        if failed {
            break;
        }
    }
    let mut rt = *RT.with(|r| r.borrow_mut().take()).unwrap();
    out.syscalls = rt.syscalls;
    out.cpis = rt.cpis;
    out.fault_fired = rt.fired;
    BUFS.with(|b| *b.borrow_mut() = std::mem::take(&mut rt.bufs));
    if out.err.is_none() {
        for (key, f) in &msg {
            if f.1 && !rent_ok(&before.get(key), &rt.led.get(key)) {
                out.err = Some(TxErr::Rent);
            }
        }
    }
    if out.err.is_none() {
        let mut l = rt.led;
        // zero-lamport accounts cease to exist
        l.m.retain(|_, a| a.lamports > 0);
        *led = l;
    }
    out
}
thread_local! { static BUFS: RefCell<Vec<Vec<u128>>> = const { RefCell::new(Vec::new()) }; }
