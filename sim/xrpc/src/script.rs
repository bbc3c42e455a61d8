//! The command-line scripts, run by node against the simulated cluster, and their oracles
//! (T01: what is sent; T02: what success means; T03, T04: what is reported).
use crate::js;
use crate::net::*;
use crate::ops::v;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use xsim::abi::*;
use xsim::check::Violation;
use xsim::model::label;
use xsim::prng::Rng;
use xsim::svm::{execute, Ix, Key, Ledger, Meta, Tx, SYSTEM};
use xsim::world::{ADMIN, ATTACKER, FAUCET};

/// One command-line argument.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Arg {
    U(u64),
    I(i64),
    K(Name),
    /// Not a value of the kind wanted.
    Bad(u8),
}
use Arg::*;
const BAD_NUM: [&str; 25] = [
    "abc", "1.5", "7d", "1,000", "1e6", "12abc", "1_000", "ten", "0.1", "5ORCA", "--1", "NaN", "18446744073709551616", "340282366920938463463374607431768211456", "3600s", "1h",
    "99999999999999999999", "10O", "Infinity", "1/2", "18446744073709551617", "18446744073709551716", "-18446744073709551615", "3\n4", "1 2",
];
const BAD_KEY: [&str; 11] = ["1", "12345", "32", "11111111111111111111111111111111 1", "abc", "0OIl", "orca", "StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetL", "StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLTT", "2j", "not-a-key"];
impl Arg {
    fn num(&self) -> String {
        match self {
            U(x) => x.to_string(),
            I(x) => x.to_string(),
            K(n) => b58(&n.key()),
            Bad(200) => String::new(),
            Bad(i) => BAD_NUM[*i as usize % BAD_NUM.len()].into(),
        }
    }
    fn addr(&self) -> String {
        match self {
            Bad(i) => BAD_KEY[*i as usize % BAD_KEY.len()].into(),
            a => a.num(),
        }
    }
    fn u64(&self) -> Option<u64> {
        match self {
            U(x) => Some(*x),
            I(x) => u64::try_from(*x).ok(),
            _ => None,
        }
    }
    fn i64(&self) -> Option<i64> {
        match self {
            I(x) => Some(*x),
            U(x) => i64::try_from(*x).ok(),
            _ => None,
        }
    }
    fn u8(&self) -> Option<u8> {
        self.u64().and_then(|x| u8::try_from(x).ok())
    }
    fn key(&self) -> Option<Key> {
        match self {
            K(n) => Some(n.key()),
            _ => None,
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Script {
    Stake { u: Name, amount: Arg },
    Unstake { u: Name, amount: Arg, idx: Arg },
    Withdraw { u: Name, idx: Arg },
    Init { payer: Name, authority: Name, cooldown: Arg },
    SetCooldown { by: Name, cooldown: Arg },
    SetAuthority { by: Name, to: Arg },
    Transfer { by: Name, to: Arg, amount: Arg },
    TransferVault { by: Name, amount: Arg },
    MintAuthority { by: Name },
    Status,
    Pending { user: Arg },
    Keygen { key: Hex, file: u8 },
    Upload { by: Name, image: Image, net: u8 },
}
use Script::*;
/// A file to upload.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub struct Image {
    pub name: u8,
    pub size: u16,
    pub fault: Option<FileFault>,
}
const IMAGES: [(&str, &str); 19] = [
    ("images/logo.png", "image/png"),
    ("images/LOGO.PNG", "image/png"),
    ("photo.jpg", "image/jpeg"),
    ("photo.jpeg", "image/jpeg"),
    ("holiday.Jpg", "image/jpeg"),
    ("a.png.gif", "image/gif"),
    ("x.webp", "image/webp"),
    ("icon.svg", "image/svg+xml"),
    ("b.bmp", "image/bmp"),
    ("t.tiff", "image/tiff"),
    ("t.tif", "image/tiff"),
    ("favicon.ico", "image/x-icon"),
    ("FAVICON.ICO", "image/x-icon"),
    ("archive.tar", "application/octet-stream"),
    ("noext", "application/octet-stream"),
    ("images.png/raw", "application/octet-stream"),
    ("logo.png.bak", "application/octet-stream"),
    ("logo.pngx", "application/octet-stream"),
    ("./images/my logo.png", "image/png"),
];
const NETS: [(&str, Option<bool>); 8] =
    [("mainnet", Some(true)), ("devnet", Some(false)), ("testnet", None), ("Mainnet", None), ("main", None), ("mainnet-beta", None), ("localnet", None), ("devnet1", None)];
impl Image {
    fn path(&self) -> &'static str {
        IMAGES[self.name as usize % IMAGES.len()].0
    }
    fn data(&self) -> Vec<u8> {
        (0..=self.size / 32).flat_map(|i| digest(&[b"image", &[self.name], &i.to_le_bytes()])).take(self.size as usize).collect()
    }
}
/// A private key as it is typed on a command line, well or badly.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hex {
    pub n: u8,
    /// Seed and public key, not only the seed.
    pub pair: bool,
    pub how: u8,
    pub pos: u16,
}
impl Hex {
    fn text(&self) -> String {
        let (mut seed, other) = (digest(&[b"keygen", &[self.n]]), digest(&[b"keygen", &[self.n, 1]]));
        // Zeros at the ends are digits like any other.
        match self.n % 16 {
            0 => seed[0] = 0,
            1 => seed[31] = 0,
            2 => seed[0] &= 15,
            _ => {}
        }
        let mut t = js::hex(&seed);
        if self.pair {
            t += &js::hex(&digest(&[if self.how == 8 { &other } else { &seed }]));
        }
        let at = self.pos as usize % t.len();
        match self.how {
            1 => t = t.to_uppercase(),
            2 => t.replace_range(at..at + 1, ["g", "z", "O", "-", ".", "l"][self.n as usize % 6]),
            3 => t.truncate(at),
            4 => t += ["zz", "...", "!", "\"", "xyz", ",", "-"][self.n as usize % 7],
            5 => t += "a",
            6 => t.insert_str(0, "0x"),
            7 => t += " ",
            9 => t += "00",
            10 => t.clear(),
            11 => t.insert_str(at, [" ", "\n", ":", "_"][self.n as usize % 4]),
            12 => t = bs58::encode(js::unhex(&t).unwrap_or_default()).into_string(),
            13 => t.replace_range(at..at + 1, "7"),
            _ => {}
        }
        t
    }
}
/// Seed and public key that this hexadecimal text stands for.
fn pair_of(text: &str) -> Option<Vec<u8>> {
    let t = text.trim();
    let b = js::unhex(t.strip_prefix("0x").unwrap_or(t))?;
    match b.len() {
        32 => Some([&b[..], &digest(&[&b])].concat()),
        64 if digest(&[&b[..32]])[..] == b[32..] => Some(b),
        _ => None,
    }
}
/// What happens to the disk, or to the whole process, at one of its changes of the disk.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum DiskFault {
    Io,
    Full,
    Denied,
    Kill,
    /// Power is cut: names last or do not, unflushed contents are torn or as before.
    Power { names: bool, data: bool },
}
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub struct Disk {
    pub op: u8,
    /// Thousandths of a write that are done before.
    pub part: u16,
    pub fault: DiskFault,
}
pub const FOLDER: &str = "/scripts/keypairs";
const FILES: [&str; 5] = ["generated-keypair.json", "a.json", "deployer.json", "staker.json", "key"];
/// Key files that no run here is told to write.
const OTHERS: [&str; 6] = ["id.json", "key.json", "keypair.json", "tmp.json", "temp.json", "upgrade-authority.json"];
/// The key files there are before any script has run.
pub fn key_files() -> BTreeMap<String, String> {
    let names = FILES[1..4].iter().chain(&OTHERS).enumerate();
    names.map(|(n, f)| (n as u8 + 1, f)).map(|(n, f)| (format!("{FOLDER}/{f}"), file_of(&[n; 32], &digest(&[&[n][..]]), 64))).collect()
}
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum FileFault {
    Missing,
    Denied,
    /// A disk error while reading.
    Io,
    /// Only this many thousandths of the file were written.
    Torn(u16),
    /// The file has no bytes.
    Empty,
    /// Half of the key.
    Half,
    /// The public half is another wallet's.
    Mixed,
    /// Another key follows.
    Long,
}
/// One invocation of a script.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cmd {
    pub script: Script,
    /// Nothing else happens meanwhile: no faults, nobody else's transactions.
    pub quiet: bool,
    /// How many blocks a blockhash is good for.
    pub validity: u8,
    /// Local clock minus cluster clock, seconds.
    pub skew: i32,
    /// What is wrong with the key file (the second one, if two are given and `second`).
    pub file: Option<FileFault>,
    pub second: bool,
    /// Arguments left out at the end.
    pub cut: u8,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub disk: Option<Disk>,
    /// Another word in the place of the operation's name; 0: the name.
    #[serde(default, skip_serializing_if = "is_zero")]
    pub verb: u8,
}
const VERBS: [&str; 12] = [
    "update", "update-cool-down", "update-cooldown ", "set-authority", "UPDATE-COOLDOWN", "update-authorit", "update-authorities", "cooldown", "authority", "", "update-cooldown-period", "initialize",
];
fn is_zero(x: &u8) -> bool {
    *x == 0
}

fn digest(s: &[&[u8]]) -> Key {
    solana_sdk::hash::hashv(s).to_bytes()
}
fn seed_of(key: &Key) -> Key {
    digest(&[b"seed", key])
}
fn path_of(n: &Name) -> String {
    format!("keypairs/{}.json", b58(&n.key()))
}
fn file_of(key: &Key, second_half: &Key, len: usize) -> String {
    let bytes: Vec<String> = seed_of(key).iter().chain(second_half).take(len).map(|b| b.to_string()).collect();
    format!("[{}]", bytes.join(","))
}
impl Script {
    fn name(&self) -> &'static str {
        match self {
            Stake { .. } => "stake",
            Unstake { .. } => "unstake",
            Withdraw { .. } => "withdraw",
            Init { .. } => "initialize",
            SetCooldown { .. } | SetAuthority { .. } => "set",
            Transfer { .. } => "transfer-orca",
            TransferVault { .. } => "transfer-orca-to-vault",
            MintAuthority { .. } => "update-xorca-mint-authority",
            Status => "status",
            Pending { .. } => "pending-withdraws",
            Keygen { .. } => "generate-keypair",
            Upload { .. } => "upload-image",
        }
    }
    /// Whose key files it is given.
    fn wallets(&self) -> Vec<Name> {
        match self {
            Stake { u, .. } | Unstake { u, .. } | Withdraw { u, .. } => vec![*u],
            Init { payer, authority, .. } => vec![*payer, *authority],
            SetCooldown { by, .. } | SetAuthority { by, .. } | Transfer { by, .. } | TransferVault { by, .. } | MintAuthority { by } | Upload { by, .. } => vec![*by],
            Status | Pending { .. } | Keygen { .. } => vec![],
        }
    }
    fn args(&self) -> Vec<String> {
        let mut a: Vec<String> = self.wallets().iter().map(path_of).collect();
        if let Upload { image, .. } = self {
            a.insert(0, image.path().into());
        }
        a.extend(match self {
            Stake { amount, .. } | TransferVault { amount, .. } => vec![amount.num()],
            Unstake { amount, idx, .. } => vec![amount.num(), idx.num()],
            Withdraw { idx, .. } => vec![idx.num()],
            Init { cooldown, .. } => vec![cooldown.num()],
            SetCooldown { cooldown, .. } => vec!["update-cooldown".into(), cooldown.num()],
            SetAuthority { to, .. } => vec!["update-authority".into(), to.addr()],
            Transfer { to, amount, .. } => vec![to.addr(), amount.num()],
            Pending { user } => vec![user.addr()],
            Keygen { key, file: 0 } => vec![key.text()],
            Keygen { key, file } => vec![key.text(), FILES[*file as usize % FILES.len()].into()],
            Upload { net: 0, .. } => vec![],
            Upload { net, .. } => vec![NETS[(*net as usize - 1) % NETS.len()].0.into()],
            MintAuthority { .. } | Status => vec![],
        });
        a
    }
    /// The operation that is asked for; None: the request makes no sense.
    fn op(&self) -> Option<Ix> {
        let x = k();
        let own = |u: &Name, mint: &Key| ata(&u.key(), mint);
        let plain = |op: Op, u: &Name| canonical(&op, &u.key(), &u.key(), &own(u, &x.orca_mint), &own(u, &x.xorca_mint));
        Some(match self {
            Stake { u, amount } => plain(Op::Stake { amount: amount.u64()? }, u),
            Unstake { u, amount, idx } => plain(Op::Unstake { amount: amount.u64()?, idx: idx.u8()? }, u),
            Withdraw { u, idx } => plain(Op::Withdraw { idx: idx.u8()? }, u),
            Init { payer, authority, cooldown } => canonical(&Op::Init { cooldown: cooldown.i64()? }, &authority.key(), &payer.key(), &SYSTEM, &SYSTEM),
            SetCooldown { by, cooldown } => plain(Op::SetCooldown { cooldown: cooldown.i64()? }, by),
            SetAuthority { by, to } => plain(Op::SetAuthority { to: to.key()? }, by),
            Transfer { by, to, amount } => tok_transfer(own(by, &x.orca_mint), ata(&to.key()?, &x.orca_mint), by.key(), amount.u64()?),
            TransferVault { by, amount } => tok_transfer(own(by, &x.orca_mint), x.vault, by.key(), amount.u64()?),
            MintAuthority { by } => {
                let data = [&[6u8, 0, 1][..], &x.state].concat();
                let m = |key, signer, writable| Meta { key, signer, writable };
                Ix { program: x.token_program, accounts: vec![m(x.xorca_mint, false, true), m(by.key(), true, false)], data }
            }
            Status | Pending { .. } | Keygen { .. } | Upload { .. } => return None,
        })
    }
    /// Token accounts (owner, mint) that may have to be created first.
    fn creates(&self) -> Option<(Key, Key)> {
        match self {
            Stake { u, .. } => Some((u.key(), k().xorca_mint)),
            Unstake { u, .. } | Withdraw { u, .. } => Some((u.key(), k().orca_mint)),
            Transfer { to, .. } => Some((to.key()?, k().orca_mint)),
            _ => None,
        }
    }
    fn to(&self) -> Option<Key> {
        match self {
            Transfer { to, .. } => to.key(),
            _ => None,
        }
    }
}
fn on_curve(key: &Key) -> bool {
    solana_pubkey::Pubkey::new_from_array(*key).is_on_curve()
}
/// Is this instruction the operation?
fn is_op(ix: &Ix, want: &Ix, script: &Script) -> bool {
    let same = |want: &Ix| {
        ix.program == want.program
            && ix.data == want.data
            && ix.accounts.len() == want.accounts.len()
            && ix.accounts.iter().zip(&want.accounts).all(|(a, w)| a.key == w.key && a.signer == w.signer && (a.writable || !w.writable))
    };
    if same(want) {
        return true;
    }
    // TransferChecked says the same as Transfer.
    matches!(script, Transfer { .. } | TransferVault { .. }) && {
        let mut w = want.clone();
        w.data[0] = 12;
        w.data.push(6);
        w.accounts.insert(1, Meta { key: k().orca_mint, signer: false, writable: false });
        same(&w)
    }
}
/// Creating a token account the operation needs, or setting transaction fees.
fn is_extra(ix: &Ix, c: &Cmd) -> bool {
    let x = k();
    if ix.program == key_of("ComputeBudget111111111111111111111111111111") {
        return ix.accounts.is_empty();
    }
    let wallets: Vec<Key> = c.script.wallets().iter().map(|n| n.key()).collect();
    let a: Vec<Key> = ix.accounts.iter().map(|a| a.key).collect();
    ix.program == x.ata_program
        && matches!(ix.data[..], [] | [0] | [1])
        && a.len() >= 6
        && wallets.contains(&a[0])
        && (wallets.contains(&a[2]) || c.script.to() == Some(a[2]))
        && (a[3] == x.orca_mint || a[3] == x.xorca_mint)
        && a[1] == ata(&a[2], &a[3])
}

// ------------------------------------------------------------------ running
pub struct Output {
    exit: u64,
    /// (standard error?, text)
    lines: Vec<(bool, String)>,
    start: i64,
    end: i64,
    /// What is on the disk afterwards, and which change of the disk was hit by a fault.
    disk: BTreeMap<String, String>,
    hit: Option<String>,
    killed: bool,
}
impl Output {
    fn complains(&self) -> bool {
        // The transport's notice that it tries again says nothing about the outcome.
        self.exit != 0 || self.lines.iter().any(|l| l.0 && !l.1.starts_with("Server responded with 429"))
    }
    /// Every `label: value` line, without what is printed before the label.
    fn values(&self) -> Vec<(&str, &str)> {
        self.lines.iter().filter(|l| !l.0).filter_map(|l| pair(&l.1)).collect()
    }
    fn tail(&self) -> String {
        let t: Vec<&str> = self.lines.iter().rev().take(4).map(|l| l.1.as_str()).collect();
        t.into_iter().rev().collect::<Vec<_>>().join(" | ").chars().take(300).collect()
    }
}
fn pair(line: &str) -> Option<(&str, &str)> {
    let l = line.trim_start_matches(|c: char| !c.is_alphanumeric());
    let (a, b) = l.split_once(':')?;
    Some((a.trim(), b.trim()))
}
fn first(s: &str) -> &str {
    s.split_whitespace().next().unwrap_or("")
}
fn output(o: &Value) -> Option<Output> {
    let lines = o["lines"].as_array()?.iter().map(|l| Some((l[0] == "err", l[1].as_str()?.to_string()))).collect::<Option<Vec<_>>>()?;
    let secs = |v: &Value| v.as_f64().map(|x| (x / 1000.0).floor() as i64);
    let d = &o["disk"];
    let disk = d["files"].as_object().into_iter().flatten().map(|(p, t)| (p.clone(), t.as_str().unwrap_or("").to_string())).collect();
    let (hit, killed) = (d["hit"].as_str().map(String::from), d["dead"] == true);
    Some(Output { exit: o["exit"].as_u64()?, lines, start: secs(&o["start"])?, end: secs(&o["end"])?, disk, hit, killed })
}
fn args_of(c: &Cmd) -> Vec<String> {
    let mut args = c.script.args();
    if c.verb > 0 && matches!(c.script, SetCooldown { .. } | SetAuthority { .. }) {
        args[1] = VERBS[c.verb as usize % VERBS.len()].into();
    }
    args.truncate(args.len().saturating_sub(c.cut as usize));
    args
}
fn invoke(net: &Shared, c: &Cmd) -> js::Done {
    let unix = lock(net).world.clock.unix;
    let now = unix.saturating_add(c.skew as i64).clamp(0, 4_000_000_000) * 1000;
    let args = args_of(c);
    let mut files = serde_json::Map::new();
    let wallets = c.script.wallets();
    for n in &wallets {
        let key = n.key();
        files.insert(path_of(n), json!({ "text": file_of(&key, &key, 64) }));
    }
    if let (Some(f), Some(n)) = (c.file, wallets.get(c.second as usize).or(wallets.first())) {
        let (key, path) = (n.key(), path_of(n));
        let whole = file_of(&key, &key, 64);
        match f {
            FileFault::Long => {
                let other = if *n == Name::User(0) { Name::User(1).key() } else { Name::User(0).key() };
                files.insert(path, json!({ "text": whole.replace(']', ",") + &file_of(&other, &other, 64)[1..] }));
            }
            FileFault::Missing => {
                files.remove(&path);
            }
            FileFault::Denied => drop(files.insert(path, json!({ "err": "EACCES" }))),
            FileFault::Io => drop(files.insert(path, json!({ "err": "EIO" }))),
            FileFault::Torn(m) => drop(files.insert(path, json!({ "text": &whole[..(whole.len() * (m as usize % 1000) / 1000).min(whole.len() - 1)] }))),
            FileFault::Empty => drop(files.insert(path, json!({ "text": "" }))),
            FileFault::Half => drop(files.insert(path, json!({ "text": file_of(&key, &key, 32) }))),
            FileFault::Mixed => drop(files.insert(path, json!({ "text": file_of(&key, &k().orca_mint, 64) }))),
        }
    }
    if let Upload { image, .. } = c.script {
        let f = match image.fault {
            Some(FileFault::Missing) => None,
            Some(FileFault::Denied) => Some(json!({ "err": "EACCES" })),
            Some(_) => Some(json!({ "err": "EIO" })),
            None => Some(json!({ "hex": js::hex(&image.data()) })),
        };
        if let Some(f) = f {
            files.insert(image.path().into(), f);
        }
    }
    if let Keygen { .. } = c.script {
        let files: serde_json::Map<String, Value> = lock(net).files.iter().map(|(p, t)| (p.clone(), json!({ "text": t }))).collect();
        let plan = c.disk.map(|d| {
            let (kind, code, names, data) = match d.fault {
                DiskFault::Io => ("error", "EIO", false, false),
                DiskFault::Full => ("error", "ENOSPC", false, false),
                DiskFault::Denied => ("error", "EACCES", false, false),
                DiskFault::Kill => ("kill", "", false, false),
                DiskFault::Power { names, data } => ("power", "", names, data),
            };
            json!({ "op": d.op, "part": d.part, "kind": kind, "code": code, "names": names, "data": data })
        });
        return js::call(net, json!({ "op": "script", "name": c.script.name(), "args": args, "now": now, "files": files, "dirs": [FOLDER], "plan": plan, "pairs": [] }));
    }
    let pairs: Vec<Value> = (0..=FAUCET).map(Name::User).chain([Name::Deployer]).map(|n| json!([js::hex(&seed_of(&n.key())), js::hex(&n.key())])).collect();
    js::call(net, json!({ "op": "script", "name": c.script.name(), "args": args, "now": now, "files": files, "pairs": pairs }))
}
pub fn call(prop: &str, net: &Shared, c: &Cmd) -> Result<(), Violation> {
    let (before, clock) = {
        let mut n = lock(net);
        n.launched += 1;
        let p_land = n.choose.as_mut().map_or(30, |x| *x.rng.pick(&[30, 30, 10, 3, 0]));
        n.run = Some(Run { quiet: c.quiet, validity: c.validity as u64, sent: vec![], refused: vec![], uploads: vec![], polls: 0, p_land });
        let s = &mut n.world.stats;
        match c.file {
            Some(FileFault::Missing) => s.add("fault_key_file_missing", 1),
            Some(FileFault::Denied) => s.add("fault_key_file_unreadable", 1),
            Some(FileFault::Io) => s.add("fault_key_file_disk_error", 1),
            Some(FileFault::Torn(_)) | Some(FileFault::Empty) | Some(FileFault::Half) => s.add("fault_key_file_torn", 1),
            Some(FileFault::Mixed | FileFault::Long) => s.add("fault_key_file_corrupt", 1),
            None => {}
        }
        if c.skew != 0 {
            s.add("fault_local_clock_skew", 1);
        }
        (n.world.ledger.clone(), n.world.clock)
    };
    let done = invoke(net, c);
    let mut n = lock(net);
    let run = n.run.take().unwrap();
    if let Some(v) = n.violation.take() {
        return Err(v);
    }
    let what = format!("{} {}", c.script.name(), args_of(c).join(" ").replace('\n', "\\n"));
    let out = match done {
        js::Done::Value(o) => match output(&o) {
            Some(o) => o,
            None => return v(prop, "script_broken", format!("`{what}`: no outcome: {o}")),
        },
        js::Done::Threw(e) | js::Done::Broken(e) => return v(prop, "script_broken", format!("`{what}`: {e}")),
    };
    let (seen, faulted, requests) = (std::mem::take(&mut n.seen), n.faulted, n.cursor);
    let now = n.world.ledger.clone();
    let sigs = n.sigs.clone();
    let stats = &mut n.world.stats;
    stats.add(if seen.len() > 1 { "oracle_calls_racing_blocks" } else { "oracle_calls_quiet" }, 1);
    stats.add(if out.exit == 0 { "client_values" } else { "client_errors" }, 1);
    stats.add(stat_name(&c.script), 1);
    let h = out.exit | (run.sent.len() as u64) << 8 | (seen.len() as u64) << 16 | (requests as u64) << 40;
    let res = match prop {
        "T01" => t01(c, &run, &out, &what),
        "T02" => t02(c, &run, &out, &what, &before, &now, clock, &sigs, stats),
        "T03" => t03(c, &out, &what, &seen, faulted, stats),
        "T05" => {
            let before = std::mem::replace(&mut n.files, out.disk.clone());
            let text = format!("{what} {:?} {} {:?} {:?}", c.disk, out.exit, out.hit, n.files);
            n.hist.u64(u64::from_le_bytes(digest(&[text.as_bytes()])[..8].try_into().unwrap()));
            t05(c, &out, &what, &before, &mut n.world.stats)
        }
        "T06" => t06(c, &run, &out, &what, faulted, stats),
        _ => t04(c, &out, &what, &seen, faulted, stats),
    };
    n.hist.u64(h);
    res?;
    if prop == "T02" {
        let ids: Vec<u32> = run.sent.iter().filter(|s| carries(s, c)).map(|s| s.id).collect();
        if ids.len() > 1 {
            n.world.stats.add("script_sent_again", 1);
            n.groups.push((what, ids));
        }
    }
    twice(prop, &n)
}
fn stat_name(s: &Script) -> &'static str {
    match s {
        Stake { .. } => "oracle_stake",
        Unstake { .. } => "oracle_unstake",
        Withdraw { .. } => "oracle_withdraw",
        Init { .. } => "oracle_initialize",
        SetCooldown { .. } => "oracle_set_cooldown",
        SetAuthority { .. } => "oracle_set_authority",
        Transfer { .. } => "oracle_transfer",
        TransferVault { .. } => "oracle_transfer_to_vault",
        MintAuthority { .. } => "oracle_mint_authority",
        Status => "oracle_status",
        Pending { .. } => "oracle_pending_withdraws",
        Keygen { .. } => "oracle_generate_keypair",
        Upload { .. } => "oracle_upload_image",
    }
}
/// Has one invocation taken effect more than once (on the current fork)?
pub fn twice(prop: &str, n: &Net) -> Result<(), Violation> {
    for (what, ids) in &n.groups {
        let took = n.world.landed.iter().filter(|l| l.ok && ids.contains(&l.id)).count();
        if took > 1 {
            return v(prop, "took_effect_twice", format!("`{what}` was run once, {took} of its {} transactions took effect", ids.len()));
        }
    }
    Ok(())
}
fn valid(c: &Cmd) -> bool {
    c.cut == 0 && c.verb == 0 && (c.file.is_none() || c.script.wallets().is_empty())
}
fn carries(s: &Sent, c: &Cmd) -> bool {
    c.script.op().is_some_and(|w| s.ixs.iter().any(|i| is_op(i, &w, &c.script)))
}

// ------------------------------------------------------------------ T01
fn show(ix: &Ix) -> String {
    let a: Vec<String> = ix.accounts.iter().map(|m| format!("{}{}{}", label(&m.key), if m.signer { " signs" } else { "" }, if m.writable { " w" } else { "" })).collect();
    format!("{}({}) [{}]", label(&ix.program), js::hex(&ix.data), a.join(", "))
}
fn t01(c: &Cmd, run: &Run, out: &Output, what: &str) -> Result<(), Violation> {
    const P: &str = "T01";
    let wanted = c.script.op().filter(|_| valid(c));
    let Some(want) = wanted else {
        if let Some(s) = run.sent.iter().chain(&run.refused).next() {
            let why = match (c.cut > 0, c.file) {
                (true, _) => "arguments are missing".into(),
                _ if c.verb > 0 => format!("the operation is {:?}", VERBS[c.verb as usize % VERBS.len()]),
                (_, Some(f)) => format!("key file: {f:?}"),
                _ => "an argument is no such value".to_string(),
            };
            return v(P, "sent_on_bad_request", format!("`{what}` ({why}) sent {}", s.ixs.iter().map(show).collect::<Vec<_>>().join("; ")));
        }
        return Ok(());
    };
    let wallets: Vec<Key> = c.script.wallets().iter().map(|n| n.key()).collect();
    for s in run.sent.iter().chain(&run.refused) {
        if !wallets.contains(&s.payer) || s.signers.iter().any(|k| !wallets.contains(k)) {
            return v(P, "wrong_signer", format!("`{what}` has a transaction paid by {} and signed by {:?}", label(&s.payer), s.signers.iter().map(label).collect::<Vec<_>>()));
        }
        let rest: Vec<&Ix> = s.ixs.iter().filter(|i| !is_extra(i, c)).collect();
        let fine = match rest[..] {
            [] => true,
            [one] => is_op(one, &want, &c.script),
            _ => false,
        };
        if !fine {
            let got: Vec<String> = rest.iter().map(|i| show(i)).collect();
            return v(P, "wrong_transaction", format!("`{what}` sent {}, asked for {} (exit {})", got.join("; "), show(&want), out.exit));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ T02
#[allow(clippy::too_many_arguments)]
fn t02(c: &Cmd, run: &Run, out: &Output, what: &str, before: &Ledger, now: &Ledger, clock: xsim::svm::Clock, sigs: &[String], stats: &mut xsim::world::Stats) -> Result<(), Violation> {
    const P: &str = "T02";
    let took = run.sent.iter().filter(|s| s.took && carries(s, c)).count();
    if out.exit == 0 && took == 0 {
        let sent = run.sent.len();
        return v(P, "false_success", format!("`{what}` exits with 0, but what was asked for never took effect ({sent} transactions sent; {})", out.tail()));
    }
    if !valid(c) {
        return Ok(());
    }
    // What the script says about itself does not depend on the network.
    let names = derived(&c.script);
    let sent: Vec<&str> = run.sent.iter().filter(|s| out.exit != 0 || s.took).map(|s| sigs[(s.id - xsim::world::OUTSIDE) as usize].as_str()).collect();
    for (l, val) in out.values() {
        if let Some((_, w)) = names.iter().find(|(n, _)| *n == l) {
            stats.add("oracle_addresses_checked", 1);
            if w != first(val) {
                return v(P, "misreported", format!("`{what}` reports \"{l}: {val}\", it is {w}"));
            }
        }
        if l == "Transaction signature" && !sent.contains(&first(val)) {
            return v(P, "misreported", format!("`{what}` (exit {}) reports \"{l}: {val}\", its transactions{} are {sent:?}", out.exit, if out.exit == 0 { " that took effect" } else { "" }));
        }
    }
    if !c.quiet {
        return Ok(());
    }
    let Some(op) = c.script.op() else { return Ok(()) };
    let payer = c.script.wallets()[0].key();
    if matches!(c.script, Transfer { .. }) && tok(before, &ata(&payer, &k().orca_mint)).is_none() {
        // Nothing to send from, even if sending nothing to oneself would create it.
        return Ok(());
    }
    let mut ixs = Vec::new();
    if let Some((owner, mint)) = c.script.creates() {
        if !on_curve(&owner) {
            return Ok(());
        }
        if before.get(&ata(&owner, &mint)).owner != k().token_program {
            ixs.push(create_ata(payer, owner, mint, false));
        }
    }
    ixs.push(op);
    let mut l = before.clone();
    let would = execute(&mut l, &Tx { payer, ixs }, clock, None).ok();
    stats.add(if would { "oracle_request_acceptable" } else { "oracle_request_unacceptable" }, 1);
    if would && took == 0 {
        return v(P, "healthy_request_failed", format!("`{what}` failed (exit {}) although the network was healthy and the ledger would accept it: {}", out.exit, out.tail()));
    }
    if would && out.exit != 0 {
        return v(P, "healthy_request_failed", format!("`{what}` took effect but exits with {}: {}", out.exit, out.tail()));
    }
    if let (Withdraw { u, idx }, true) = (&c.script, run.sent.len() <= 1) {
        // Printed before anything is sent, whatever becomes of the transaction.
        let claim = idx.u64().and_then(|i| u8::try_from(i).ok()).and_then(|i| pw(before, &u.key(), i));
        let ts = claim.map(|p| p.ts).filter(|t| t.abs() < 1 << 53);
        for (l, val) in out.values() {
            let fits = |t: i64, now: i64| match l {
                "Withdrawable timestamp" => first(val) == t.to_string(),
                "Current timestamp" => first(val) == now.to_string(),
                "Seconds remaining" => first(val) == (t - now).to_string(),
                "Cooldown period remaining" | "Time remaining" => val == format!("{}h {}m {}s", (t - now) / 3600, (t - now) % 3600 / 60, (t - now) % 60),
                _ => true,
            };
            if let Some(t) = ts.filter(|t| !(out.start..=out.end.min(out.start + 3000)).any(|now| fits(*t, now))) {
                return v(P, "misreported", format!("`{what}` at local time {}..{} reports \"{l}: {val}\" of a claim ready at {t}", out.start, out.end));
            }
        }
    }
    if took == 1 && out.exit == 0 {
        return reported(c, out, what, before, now, stats);
    }
    Ok(())
}
/// Addresses and arguments a script prints, by label.
fn derived(s: &Script) -> Vec<(&'static str, String)> {
    let x = k();
    let mut d: Vec<(&'static str, String)> = vec![];
    for l in ["State", "State account", "State account address"] {
        d.push((l, b58(&x.state)));
    }
    for l in ["Vault", "Vault account", "Vault account (ATA for state + ORCA)", "Vault account (PDA)"] {
        d.push((l, b58(&x.vault)));
    }
    d.push(("State bump", x.state_bump.to_string()));
    d.push(("Vault bump", x.vault_bump.to_string()));
    for l in ["ORCA mint address", "ORCA Mint"] {
        d.push((l, b58(&x.orca_mint)));
    }
    for l in ["xORCA mint address", "xORCA Mint"] {
        d.push((l, b58(&x.xorca_mint)));
    }
    d.push(("xORCA staking program ID", b58(&x.program)));
    d.push(("New mint authority (state account)", b58(&x.state)));
    let mut arg = |l: &'static str, a: Option<u64>| d.extend(a.map(|a| (l, a.to_string())));
    match s {
        Stake { amount, .. } => arg("ORCA amount to stake", amount.u64()),
        Unstake { amount, idx, .. } => {
            arg("xORCA amount to unstake", amount.u64());
            arg("Withdraw index", idx.u64());
        }
        Withdraw { idx, .. } => arg("Withdraw index", idx.u64()),
        Transfer { amount, .. } | TransferVault { amount, .. } => arg("ORCA amount", amount.u64()),
        SetCooldown { cooldown, .. } => arg("Setting cooldown period to", cooldown.u64()),
        _ => {}
    }
    let wallets: Vec<Key> = s.wallets().iter().map(|n| n.key()).collect();
    if let Some(w) = wallets.first() {
        for l in ["Staker public key", "Sender public key", "Payer public key", "Current authority public key", "Deployer address"] {
            d.push((l, b58(w)));
        }
        for l in ["Staker ORCA ATA", "Staker's ORCA ATA", "Sender ORCA ATA"] {
            d.push((l, b58(&ata(w, &x.orca_mint))));
        }
        for l in ["Staker xORCA ATA", "Staker's xORCA ATA"] {
            d.push((l, b58(&ata(w, &x.xorca_mint))));
        }
        if let Unstake { idx, .. } | Withdraw { idx, .. } = s {
            d.extend(idx.u8().map(|i| ("Pending withdraw account", b58(&xsim::abi::pw_key(w, i).0))));
        }
    }
    match s {
        Init { authority, .. } => d.push(("Update authority address", b58(&authority.key()))),
        SetAuthority { to, .. } => d.extend(to.key().map(|t| ("Setting new authority to", b58(&t)))),
        Transfer { to, .. } => {
            d.extend(to.key().into_iter().flat_map(|t| [("Recipient public key", b58(&t)), ("Recipient ORCA ATA", b58(&ata(&t, &x.orca_mint)))]));
        }
        _ => {}
    }
    d
}
/// The figures a successful script prints.
fn reported(c: &Cmd, out: &Output, what: &str, before: &Ledger, now: &Ledger, stats: &mut xsim::world::Stats) -> Result<(), Violation> {
    let x = k();
    let bal = |l: &Ledger, key: &Key| tok(l, key).map_or(0, |t| t.amount);
    let mut want: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let mut put = |l: &'static str, vals: &[i128]| {
        want.insert(l, vals.iter().map(|x| x.to_string()).collect());
    };
    let delta = |key: &Key| bal(now, key) as i128 - bal(before, key) as i128;
    let own = |n: &Name| (ata(&n.key(), &x.orca_mint), ata(&n.key(), &x.xorca_mint));
    match &c.script {
        Stake { u, amount } => {
            let (o, xo) = own(u);
            put("Staker ORCA balance", &[bal(before, &o) as i128]);
            put("ORCA staked", &[amount.u64().unwrap_or(0) as i128]);
            put("xORCA received", &[delta(&xo)]);
            put("Final ORCA balance", &[bal(now, &o) as i128]);
            put("Final xORCA balance", &[bal(now, &xo) as i128]);
        }
        Unstake { u, amount, .. } => {
            let (o, xo) = own(u);
            put("Staker's current xORCA balance", &[bal(before, &xo) as i128]);
            put("Staker's final xORCA balance", &[bal(now, &xo) as i128]);
            put("Staker's final ORCA balance", &[bal(now, &o) as i128]);
            put("xORCA unstaked", &[amount.u64().unwrap_or(0) as i128]);
            put("ORCA received", &[delta(&o)]);
        }
        Withdraw { u, .. } => put("Staker's final ORCA balance", &[bal(now, &own(u).0) as i128]),
        Transfer { by, to, amount } => {
            let (from, to) = (own(by).0, ata(&to.key().unwrap_or_default(), &x.orca_mint));
            let a = amount.u64().unwrap_or(0) as i128;
            put("Sender ORCA balance", &[bal(before, &from) as i128]);
            put("Recipient ORCA balance", &[bal(before, &to) as i128]);
            put("Final sender ORCA balance", &[bal(now, &from) as i128]);
            put("Final recipient ORCA balance", &[bal(now, &to) as i128]);
            put("ORCA transferred", &[a, -delta(&from)]);
            put("ORCA received by recipient", &[delta(&to)]);
        }
        TransferVault { by, amount } => {
            let (from, a) = (own(by).0, amount.u64().unwrap_or(0) as i128);
            put("Sender ORCA balance", &[bal(before, &from) as i128]);
            put("Vault account exists with balance", &[bal(before, &x.vault) as i128]);
            put("Final sender ORCA balance", &[bal(now, &from) as i128]);
            put("Final vault ORCA balance", &[bal(now, &x.vault) as i128]);
            put("ORCA transferred", &[a, -delta(&from)]);
            put("Vault received", &[delta(&x.vault)]);
        }
        Init { cooldown, authority, .. } => {
            put("Cool down period", &[cooldown.i64().unwrap_or(0) as i128]);
            want.insert("Update authority", vec![b58(&authority.key())]);
        }
        SetCooldown { cooldown, .. } => put("Cooldown period updated to", &[cooldown.i64().unwrap_or(0) as i128]),
        SetAuthority { to, .. } => drop(want.insert("Update authority updated to", vec![to.addr()])),
        MintAuthority { .. } => {
            let m = mint(before, &x.xorca_mint);
            want.insert("New mint authority", vec![b58(&x.state)]);
            want.insert("Current mint authority", m.iter().map(|m| m.authority.map_or("None".into(), |a| b58(&a))).collect());
            want.insert("Current supply", m.iter().map(|m| m.supply.to_string()).collect());
            want.insert("Decimals", m.iter().map(|m| m.decimals.to_string()).collect());
        }
        Status | Pending { .. } | Keygen { .. } | Upload { .. } => {}
    }
    for (l, val) in out.values() {
        if let Some(w) = want.get(l) {
            stats.add("oracle_figures_checked", 1);
            if !w.iter().any(|w| w == first(val)) {
                return v("T02", "misreported", format!("`{what}` succeeded and reports \"{l}: {val}\", it is {}", w.join(" or ")));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ T03
fn close(text: &str, num: u128, den: u128) -> bool {
    let Ok(got) = text.parse::<f64>() else { return false };
    let want = num as f64 / den as f64;
    (got - want).abs() <= want * 1e-9 + 2e-10
}
fn status_fits(l: &Ledger, label: &str, val: &str) -> Option<bool> {
    let (Some(s), Some(t), Some(m)) = (state(l), tok(l, &k().vault), mint(l, &k().xorca_mint)) else {
        // Before the pool exists only the state can be missing; what is printed must then be its absence.
        return match label {
            "xORCA Total Supply" | "xORCA Supply" => Some(mint(l, &k().xorca_mint).is_some_and(|m| m.supply.to_string() == first(val))),
            "State Account" => Some(val == b58(&k().state)),
            "Vault Account" => Some(val == b58(&k().vault)),
            "xORCA Mint" => Some(val == b58(&k().xorca_mint)),
            "ORCA Mint" => Some(val == b58(&k().orca_mint)),
            "Cool Down Period" | "Escrowed ORCA Amount" | "Escrowed ORCA" | "Update Authority" | "Bump" | "Vault Bump" => state(l).map(|_| true).or(Some(false)),
            "Total ORCA in Vault" | "Non-Escrowed ORCA" => Some(tok(l, &k().vault).is_some()),
            _ => None,
        };
    };
    let backing = t.amount as i128 - s.escrow as i128;
    let (num, den) = ((backing + 100).max(0) as u128, m.supply as u128 + 100);
    let n = |x: i128| Some(x.to_string() == first(val));
    let rate = |a: u128, b: u128, unit: &str| {
        let note = val.split_once(unit).map(|x| x.1).map(|r| first(r));
        Some(close(first(val), a, b) && note.is_none_or(|t| close(t, a, b)))
    };
    match label {
        "State Account" => Some(val == b58(&k().state)),
        "Vault Account" => Some(val == b58(&k().vault)),
        "xORCA Mint" => Some(val == b58(&k().xorca_mint)),
        "ORCA Mint" => Some(val == b58(&k().orca_mint)),
        "Cool Down Period" => n(s.cooldown as i128),
        "Escrowed ORCA Amount" | "Escrowed ORCA" => n(s.escrow as i128),
        "Update Authority" => Some(val == b58(&s.authority)),
        "Bump" => n(s.bump as i128),
        "Vault Bump" => n(s.vault_bump as i128),
        "Total ORCA in Vault" => n(t.amount as i128),
        "Non-Escrowed ORCA" => n(backing),
        "xORCA Total Supply" | "xORCA Supply" => n(m.supply as i128),
        "ORCA → xORCA Rate" | "Exchange Rate (ORCA→xORCA)" => rate(den, num, "1 ORCA ="),
        "xORCA → ORCA Rate" | "Exchange Rate (xORCA→ORCA)" => rate(num, den, "1 xORCA ="),
        "Numerator (Non-Escrowed + Virtual)" => n(backing + 100),
        "Denominator (xORCA Supply + Virtual)" => n(den as i128),
        _ => None,
    }
}
fn t03(c: &Cmd, out: &Output, what: &str, seen: &[Ledger], faulted: bool, stats: &mut xsim::world::Stats) -> Result<(), Violation> {
    const P: &str = "T03";
    let Status = c.script else { return Ok(()) };
    let vals = out.values();
    let fits = |l: &Ledger| vals.iter().all(|(a, b)| status_fits(l, a, b) != Some(false));
    if !seen.iter().any(fits) {
        // The nearest ledger explains best.
        let wrong = |l: &Ledger| vals.iter().filter(|(a, b)| status_fits(l, a, b) == Some(false)).map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>();
        let best = seen.iter().map(wrong).min_by_key(|w| w.len()).unwrap_or_default();
        return v(P, "status_never_held", format!("`{what}` reports what held at no time during the call ({} ledgers), e.g. {}", seen.len(), best.join("; ")));
    }
    let all = ["Cool Down Period", "Escrowed ORCA Amount", "Total ORCA in Vault", "Non-Escrowed ORCA", "xORCA Total Supply", "ORCA → xORCA Rate", "xORCA → ORCA Rate"];
    let lacks: Vec<&str> = all.into_iter().filter(|l| !vals.iter().any(|v| v.0 == *l)).collect();
    let there = |l: &Ledger| state(l).is_some() && tok(l, &k().vault).is_some() && mint(l, &k().xorca_mint).is_some();
    if !out.complains() {
        stats.add("oracle_status_reported", 1);
        if !lacks.is_empty() {
            return v(P, "silently_incomplete", format!("`{what}` exits with 0, prints no error and leaves out {lacks:?}: {}", out.tail()));
        }
    } else if !faulted && seen.iter().all(there) {
        return v(P, "healthy_read_failed", format!("`{what}` failed although the network was healthy and the pool was there: {}", out.tail()));
    }
    Ok(())
}

// ------------------------------------------------------------------ T04
fn duration(s: i128) -> String {
    match s {
        _ if s < 60 => format!("{s} seconds"),
        _ if s < 3600 => format!("{}m {}s", s / 60, s % 60),
        _ if s < 86400 => format!("{}h {}m", s / 3600, s % 3600 / 60),
        _ => format!("{}d {}h", s / 86400, s % 86400 / 3600),
    }
}
#[derive(Default, Debug)]
struct Item {
    idx: u64,
    address: String,
    amount: String,
    ready: Option<bool>,
    time: Option<String>,
    age: Option<String>,
    created: Option<String>,
}
fn t04(c: &Cmd, out: &Output, what: &str, seen: &[Ledger], faulted: bool, stats: &mut xsim::world::Stats) -> Result<(), Violation> {
    const P: &str = "T04";
    let Pending { user } = c.script else { return Ok(()) };
    let mut items: Vec<Item> = Vec::new();
    let (mut found, mut totals, mut cooldown): (Option<u64>, BTreeMap<&str, i128>, Option<i64>) = (None, BTreeMap::new(), None);
    for (err, line) in &out.lines {
        if *err {
            continue;
        }
        if let Some(n) = line.find("Found ").and_then(|i| first(&line[i + 6..]).parse().ok()).filter(|_| line.contains("pending withdraw")) {
            found = Some(n);
        }
        if let Some((_, i)) = line.split_once("Pending Withdraw #") {
            let Ok(idx) = first(i).parse() else { continue };
            items.push(Item { idx, ..Default::default() });
            continue;
        }
        let Some((l, val)) = pair(line) else { continue };
        let meant = match l {
            "State account" => Some(k().state),
            "Staker" => user.key(),
            _ => None,
        };
        if let Some(m) = meant.filter(|m| val != b58(m)) {
            return v(P, "misreported", format!("`{what}` reports \"{l}: {val}\", it is {}", b58(&m)));
        }
        match (l, items.last_mut()) {
            ("Address", Some(i)) => i.address = val.into(),
            ("ORCA Amount", Some(i)) => i.amount = first(val).into(),
            ("Status", Some(i)) => {
                i.ready = match val {
                    "READY TO WITHDRAW" => Some(true),
                    "COOLDOWN ACTIVE" => Some(false),
                    _ => None,
                }
            }
            ("Ready for" | "Time Remaining", Some(i)) => i.time = Some(val.into()),
            ("Time Elapsed", Some(i)) => i.age = Some(val.into()),
            ("Created", Some(i)) => i.created = Some(val.into()),
            ("Cool down period", None) => cooldown = first(val).parse::<i64>().ok(),
            ("Total Pending Withdraws" | "Ready to Withdraw" | "In Cooldown" | "Total ORCA Ready" | "Total ORCA in Cooldown", _) => {
                if let Ok(x) = first(val).parse() {
                    totals.insert(l, x);
                }
            }
            _ => {}
        }
    }
    let bad = c.cut > 0 || user.key().is_none();
    if bad {
        if !out.complains() || !items.is_empty() {
            return v(P, "bad_request_answered", format!("`{what}` names no wallet, exits with {} and lists {} claims: {}", out.exit, items.len(), out.tail()));
        }
        return Ok(());
    }
    let key = user.key().unwrap();
    if let Some(d) = cooldown.filter(|d| !seen.iter().any(|l| state(l).is_some_and(|s| s.cooldown == *d))) {
        return v(P, "wrong_cooldown", format!("`{what}` says the cooldown is {d} s, which it was at no time during the call"));
    }
    let mut last: Option<u64> = None;
    for i in &items {
        let Some(idx) = u8::try_from(i.idx).ok().filter(|_| last.is_none_or(|l| l < i.idx)) else {
            return v(P, "listing_order", format!("`{what}` lists index {} after {last:?}", i.idx));
        };
        last = Some(i.idx);
        if i.address != b58(&pw_key(&key, idx).0) {
            return v(P, "wrong_address", format!("`{what}` gives {:?} as the address of claim {idx}", i.address));
        }
        let timed = |ts: i64| {
            (out.start..=out.end.min(out.start + 3000)).any(|t| {
                let (ready, gap) = (t >= ts, (t as i128 - ts as i128).abs());
                let born = cooldown.map(|d| ts as i128 - d as i128);
                let aged = || born.is_none_or(|b| (t as i128 - b).abs() > 1 << 53 || i.age.as_ref().is_none_or(|s| *s == duration(t as i128 - b)));
                let made = || born.is_none_or(|b| !(0..=253_402_300_799).contains(&b) || i.created.as_ref().is_none_or(|s| s.starts_with(&iso(b as i64))));
                i.ready.is_none_or(|r| r == ready) && (gap > 1 << 53 || i.time.as_ref().is_none_or(|s| *s == duration(gap))) && aged() && made()
            })
        };
        let ok = |p: Pw| p.amount.to_string() == i.amount && timed(p.ts);
        if !seen.iter().any(|l| pw(l, &key, idx).is_some_and(ok)) {
            let real: Vec<String> = seen.iter().filter_map(|l| pw(l, &key, idx)).map(|p| format!("{} ORCA at {}", p.amount, p.ts)).take(3).collect();
            return v(P, "claim_never_existed", format!("`{what}` at local time {}..{} lists {i:?}; during the call the claim was {real:?}", out.start, out.end));
        }
        if i.ready.is_none() || i.amount.is_empty() {
            return v(P, "claim_incomplete", format!("`{what}` lists {i:?}"));
        }
    }
    stats.add("client_listed_claims", items.len() as u64);
    let sum = |ready: bool| items.iter().filter(|i| i.ready == Some(ready)).map(|i| i.amount.parse::<i128>().unwrap_or(0)).sum::<i128>();
    let n = |ready: bool| items.iter().filter(|i| i.ready == Some(ready)).count() as i128;
    let told = [
        ("Total Pending Withdraws", items.len() as i128),
        ("Ready to Withdraw", n(true)),
        ("In Cooldown", n(false)),
        ("Total ORCA Ready", sum(true)),
        ("Total ORCA in Cooldown", sum(false)),
    ];
    for (l, w) in told {
        if totals.get(l).is_some_and(|t| *t != w) {
            return v(P, "wrong_totals", format!("`{what}` says \"{l}: {}\", what it lists makes {w}", totals[l]));
        }
    }
    if out.complains() {
        if !faulted && seen.iter().all(|l| state(l).is_some()) {
            return v(P, "healthy_read_failed", format!("`{what}` failed although the network was healthy: {}", out.tail()));
        }
        return Ok(());
    }
    if found != Some(items.len() as u64) {
        return v(P, "wrong_totals", format!("`{what}` says it found {found:?} and lists {}", items.len()));
    }
    stats.add("oracle_listings", 1);
    for idx in 0..=255u8 {
        if seen.iter().all(|l| pw(l, &key, idx).is_some()) {
            stats.add("oracle_claims_expected", 1);
            if !items.iter().any(|i| i.idx == idx as u64) {
                return v(P, "claim_missing", format!("`{what}` exits with 0, prints no error and does not list claim {idx}, open throughout the call"));
            }
        }
    }
    if seen.iter().any(|l| (0..=255u8).any(|i| l.lamports(&pw_key(&key, i).0) > 0 && pw(l, &key, i).is_none())) {
        stats.add("fault_prefunded_address_searched", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ T05
fn t05(c: &Cmd, out: &Output, what: &str, before: &BTreeMap<String, String>, stats: &mut xsim::world::Stats) -> Result<(), Violation> {
    const P: &str = "T05";
    let Keygen { key, file } = c.script else { return Ok(()) };
    let text = key.text();
    let want = pair_of(&text).filter(|_| c.cut == 0 || file != 0 && c.cut == 1);
    let named = if c.cut == 0 { file as usize % FILES.len() } else { 0 };
    let target = format!("{FOLDER}/{}", FILES[named]);
    let what = format!("{what}{}", if let (Some(d), Some(h)) = (c.disk, &out.hit) { format!(" ({:?} at {h})", d.fault) } else { String::new() });
    match (&out.hit, c.disk.map(|d| d.fault)) {
        (Some(_), Some(DiskFault::Io)) => stats.add("fault_disk_io_error", 1),
        (Some(_), Some(DiskFault::Full)) => stats.add("fault_disk_full", 1),
        (Some(_), Some(DiskFault::Denied)) => stats.add("fault_disk_access_denied", 1),
        (Some(_), Some(DiskFault::Kill)) => stats.add("fault_process_killed", 1),
        (Some(_), Some(DiskFault::Power { .. })) => stats.add("fault_power_cut", 1),
        _ => {}
    }
    if want.is_none() && out.exit == 0 {
        return v(P, "malformed_key_accepted", format!("`{what}` exits with 0: {}", out.tail()));
    }
    let holds = |t: &str| want.is_some() && serde_json::from_str::<Vec<u8>>(t).ok() == want;
    for f in FILES.iter().chain(&OTHERS) {
        let p = format!("{FOLDER}/{f}");
        let (old, new) = (before.get(&p), out.disk.get(&p));
        if old == new || p == target && new.is_some_and(|t| holds(t)) {
            continue;
        }
        let class = if old.is_some() { "key_file_damaged" } else { "wrong_key_file" };
        let short = |t: Option<&String>| t.map_or("nothing".into(), |t| format!("{} bytes {:?}", t.len(), t.chars().take(60).collect::<String>()));
        return v(P, class, format!("`{what}` exits with {} and leaves {p} with {}, before it was {}", out.exit, short(new), short(old)));
    }
    stats.add("oracle_key_files_checked", (FILES.len() + OTHERS.len()) as u64);
    if out.killed {
        return Ok(());
    }
    if out.exit != 0 {
        let plain = matches!(text.len(), 64 | 128) && text.bytes().all(|b| b.is_ascii_hexdigit());
        if want.is_some() && plain && out.hit.is_none() {
            return v(P, "valid_key_refused", format!("`{what}` fails: {}", out.tail()));
        }
        return Ok(());
    }
    let Some(want) = want else { return Ok(()) };
    if !out.disk.get(&target).is_some_and(|t| serde_json::from_str::<Vec<u8>>(t).ok().as_ref() == Some(&want)) {
        return v(P, "not_saved", format!("`{what}` exits with 0 and {target} does not hold the key"));
    }
    let public = bs58::encode(&want[32..]).into_string();
    for (l, x) in out.values() {
        if l == "Public key" && x != public || l == "Saved to" && x != target {
            return v(P, "wrong_report", format!("`{what}` says \"{l}: {x}\"; the public key is {public}, the file {target}"));
        }
    }
    stats.add("oracle_keys_saved", 1);
    Ok(())
}

// ------------------------------------------------------------------ T06
fn t06(c: &Cmd, run: &Run, out: &Output, what: &str, faulted: bool, stats: &mut xsim::world::Stats) -> Result<(), Violation> {
    const P: &str = "T06";
    let Upload { by, image, net } = c.script else { return Ok(()) };
    let given = if net > 0 { 3 } else { 2 } - (c.cut as usize);
    let main = if given < 3 { Some(true) } else { NETS[(net as usize - 1) % NETS.len()].1 };
    let bad = given < 2 || main.is_none() || image.fault.is_some() || c.file.is_some_and(|f| f != FileFault::Mixed);
    let says = format!("{} uploads, exit {}: {}", run.uploads.len(), out.exit, out.tail());
    if bad {
        if !run.uploads.is_empty() || out.exit == 0 {
            return v(P, "bad_request_accepted", format!("`{what}` (image {:?}, key file {:?}): {says}", image.fault, c.file));
        }
        return Ok(());
    }
    let main = main == Some(true);
    let data = js::hex(&image.data());
    let kind = IMAGES[image.name as usize % IMAGES.len()].1;
    for u in &run.uploads {
        let host = u.url.trim_start_matches("https://");
        let right_net = host.ends_with("irys.xyz") && main != host.contains("devnet") && u.url.starts_with("https://");
        let tag = |n: &str| u.tags.iter().filter(|t| t.0 == n).map(|t| t.1.as_str()).collect::<Vec<_>>();
        let key = u.key == js::hex(&[seed_of(&by.key()), by.key()].concat()) || c.file.is_some();
        let wrong = [
            ("content", u.data != data),
            ("content type", tag("Content-Type") != [kind]),
            ("network", !right_net),
            ("token", u.token != "solana"),
            ("wallet", !key),
            ("application", tag("App-Name") != ["xORCA"]),
            ("date", !tag("Upload-Date").iter().any(|d| (out.start..=out.end.min(out.start + 3000)).any(|t| d.starts_with(&iso(t))))),
        ];
        if let Some(w) = wrong.iter().find(|w| w.1) {
            return v(P, "wrong_upload", format!("`{what}` uploads {} bytes of {} to {} as {:?}: wrong {}", u.data.len() / 2, data.len() / 2, u.url, u.tags, w.0));
        }
    }
    if run.uploads.len() > 1 {
        return v(P, "uploaded_twice", format!("`{what}`: {says}"));
    }
    if out.exit != 0 {
        if !faulted && c.file.is_none() {
            return v(P, "healthy_upload_failed", format!("`{what}` fails although disk and service were healthy: {}", out.tail()));
        }
        return Ok(());
    }
    let Some(u) = run.uploads.first() else { return v(P, "false_success", format!("`{what}`: {says}")) };
    stats.add("oracle_uploads_checked", 1);
    let at = format!("https://{}.irys.xyz/{}", if main { "gateway" } else { "devnet" }, u.id);
    for (l, x) in out.values() {
        let (want, got) = match l {
            "Transaction ID" => (u.id.clone(), x),
            "Size" => (image.size.to_string(), first(x)),
            "View on Irys" => (at.clone(), x),
            _ => continue,
        };
        if want != got {
            return v(P, "wrong_report", format!("`{what}` says \"{l}: {x}\", it is {want}"));
        }
    }
    Ok(())
}
/// Date and time of day, without fractions of seconds.
fn iso(unix: i64) -> String {
    let (days, s) = (unix.div_euclid(86400) + 719468, unix.rem_euclid(86400));
    let (era, doe) = (days.div_euclid(146097), days.rem_euclid(146097));
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    format!("{:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", yoe + era * 400 + (m <= 2) as i64, s / 3600, s / 60 % 60, s % 60)
}

// ------------------------------------------------------------------ generation
pub fn cmd(r: &mut Rng, prop: &str, l: &Ledger, unix: i64) -> Cmd {
    let user = |r: &mut Rng| Name::User(r.below(5) as u8);
    let x = k();
    let script = match prop {
        "T03" => Status,
        "T05" => Keygen {
            key: Hex { n: r.below(200) as u8, pair: r.pct(40), how: if r.pct(45) { 0 } else { r.below(14) as u8 }, pos: r.below(1 << 16) as u16 },
            file: r.below(FILES.len() as u64) as u8,
        },
        "T06" => Upload {
            by: user(r),
            image: Image {
                name: r.below(IMAGES.len() as u64) as u8,
                size: *r.pick(&[1u16, 2, 31, 64, 255, 256, 1000, 4097]),
                fault: r.pct(8).then(|| *r.pick(&[FileFault::Missing, FileFault::Denied, FileFault::Io])),
            },
            net: if r.pct(8) { r.range(3, 8) as u8 } else { r.below(3) as u8 },
        },
        "T04" => Pending { user: if r.pct(4) { Bad(r.below(100) as u8) } else { K(user(r)) } },
        _ => {
            let u = user(r);
            let bal = |n: &Name, mint: &Key| tok(l, &ata(&n.key(), mint)).map_or(0, |t| t.amount);
            let amount = |r: &mut Rng, b: u64| match r.below(12) {
                0 => U(b),
                1 => U(b.saturating_add(1)),
                2 => U(r.log(u64::MAX)),
                3 => U(r.below(3)),
                4 => Bad(if r.pct(10) { r.range(20, 22) } else { r.below(100) } as u8),
                5 => *r.pick(&[I(-1), U((1 << 53) + 1), U(u64::MAX)]),
                6 => U(r.range(1, 100).min(b)),
                _ => U(r.log(b.max(1))),
            };
            let index = |r: &mut Rng| match r.below(12) {
                0 => Bad(if r.pct(10) { 200 } else { r.below(100) as u8 }),
                1 => *r.pick(&[U(256), U(257), I(-1), U(300), U(1 << 32), U(65536)]),
                2 | 3 => U(r.below(256)),
                4 => *r.pick(&[U(255), U(127), U(128), U(254)]),
                _ => U(r.below(6)),
            };
            let cooldown = |r: &mut Rng| match r.below(10) {
                0 | 1 => Bad(if r.pct(10) { 200 } else { r.below(100) as u8 }),
                2 => I(-(r.log(1 << 40) as i64)),
                3 => I(r.log(i64::MAX as u64) as i64),
                4 => *r.pick(&[I(i64::MAX), I(i64::MIN), U(1 << 63), I((1 << 53) + 1), I(0)]),
                _ => I(r.log(1_000_000) as i64),
            };
            let boss = |r: &mut Rng| {
                let a = state(l).map(|s| s.authority);
                let by = (0..=FAUCET).map(Name::User).find(|n| Some(n.key()) == a);
                by.filter(|_| r.pct(80)).unwrap_or(user(r))
            };
            let init = state(l).is_none();
            match r.below(100) {
                n if init && n < 45 => Init {
                    payer: if r.pct(85) { Name::Deployer } else { u },
                    authority: if r.pct(50) { Name::User(ADMIN) } else { user(r) },
                    cooldown: cooldown(r),
                },
                n if init && n < 75 => MintAuthority { by: if r.pct(75) { Name::User(ATTACKER) } else { u } },
                n if n < 27 => Stake { u, amount: amount(r, bal(&u, &x.orca_mint)) },
                n if n < 47 => Unstake { u, amount: amount(r, bal(&u, &x.xorca_mint)), idx: index(r) },
                n if n < 70 => {
                    let open: Vec<(Name, u8, bool)> = (0..5)
                        .map(Name::User)
                        .flat_map(|n| claims(l).into_iter().filter(|c| c.1.unstaker == n.key()).map(|c| (n, c.1.idx, c.1.ts <= unix)).collect::<Vec<_>>())
                        .collect();
                    let ripe: Vec<_> = open.iter().filter(|c| c.2).copied().collect();
                    let from = if !ripe.is_empty() && r.pct(75) { &ripe } else { &open };
                    if from.is_empty() || r.pct(15) {
                        Withdraw { u, idx: index(r) }
                    } else {
                        let (u, i, _) = *r.pick(from);
                        Withdraw { u, idx: U(i as u64) }
                    }
                }
                n if n < 77 => SetCooldown { by: boss(r), cooldown: cooldown(r) },
                n if n < 81 => SetAuthority { by: boss(r), to: if r.pct(20) { Bad(r.below(100) as u8) } else { let to = user(r); K(*r.pick(&[to, Name::User(ADMIN), Name::State, Name::OrcaMint])) } },
                n if n < 91 => {
                    let to = match r.below(10) {
                        0 => Bad(r.below(100) as u8),
                        1 => K(*r.pick(&[Name::State, Name::Vault, Name::Orca(0)])),
                        2 => K(Name::User(FAUCET)),
                        3 => K(Name::Deployer),
                        _ => K(user(r)),
                    };
                    Transfer { by: u, to, amount: { let a = amount(r, bal(&u, &x.orca_mint)); if matches!(a, I(_)) { U(1) } else { a } } }
                }
                n if n < 97 => TransferVault { by: u, amount: { let a = amount(r, bal(&u, &x.orca_mint)); if matches!(a, I(_)) { U(1) } else { a } } },
                n if n < 99 => Init { payer: Name::Deployer, authority: u, cooldown: cooldown(r) },
                _ => MintAuthority { by: u },
            }
        }
    };
    let file = (!script.wallets().is_empty() && r.pct(8)).then(|| match r.below(8) {
        7 => FileFault::Long,
        0 => FileFault::Missing,
        1 => FileFault::Denied,
        2 => FileFault::Io,
        3 => FileFault::Empty,
        4 => FileFault::Half,
        5 => FileFault::Mixed,
        _ => FileFault::Torn(r.below(1000) as u16),
    });
    let verb = if matches!(script, SetCooldown { .. } | SetAuthority { .. }) && r.pct(12) { r.range(1, 12) as u8 } else { 0 };
    Cmd {
        verb,
        script,
        quiet: r.pct(45),
        validity: *r.pick(&[1u8, 2, 5, 20]),
        skew: if r.pct(60) { 0 } else { *r.pick(&[-1i32, 1, 30, -30, 3600, -86400, 100_000_000]) },
        file,
        second: r.pct(50),
        cut: if r.pct(4) { r.range(1, 3) as u8 } else { 0 },
        disk: (prop == "T05" && r.pct(60)).then(|| Disk {
            op: { let n = if r.pct(80) { 5 } else { 12 }; r.below(n) as u8 },
            part: *r.pick(&[0u16, 1, 250, 500, 750, 999, 1000]),
            fault: match r.below(8) {
                0 => DiskFault::Io,
                1 | 2 => DiskFault::Full,
                3 => DiskFault::Denied,
                4 | 5 => DiskFault::Kill,
                _ => DiskFault::Power { names: r.pct(60), data: r.pct(60) },
            },
        }),
    }
}
