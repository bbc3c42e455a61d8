// Runs one bundled script against a fixed in-memory ledger and RPC node, for the
// demonstrations.  Nothing real is touched: files, exit, console, clock and timers are stand-ins.
import fs from 'node:fs';
import { resolve } from 'node:path';
import { createHash } from 'node:crypto';
import { createRequire } from 'node:module';
import { PublicKey } from './web3.mjs';
import { disk as makeDisk } from './disk.mjs';
const builtin = createRequire(import.meta.url);
const dir = process.argv[2];
export { PublicKey };
export const key = (s) => new PublicKey(s);
export const TOKEN = key('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
export const ATA = key('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
export const PROGRAM = key('StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT');
export const ORCA = key('orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE');
export const XORCA = key('xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N');
export const STATE = PublicKey.findProgramAddressSync([Buffer.from('state')], PROGRAM)[0];
export const ata = (owner, mint) => PublicKey.findProgramAddressSync([owner.toBuffer(), TOKEN.toBuffer(), mint.toBuffer()], ATA)[0];
export const VAULT = ata(STATE, ORCA);
export const claimAddress = (user, i) => PublicKey.findProgramAddressSync([Buffer.from('pending_withdraw'), user.toBuffer(), Buffer.from([i])], PROGRAM)[0];
export function check(ok, msg) {
  if (!ok) {
    console.log(`FAILED: ${msg}`);
    process.exit(1);
  }
}

// ---- wallets: the public half of a key file is the hash of the secret half
globalThis.__pairs = new Map();
export const files = {};
export const publicOf = (seed) => createHash('sha256').update(seed).digest();
export function wallet(path, publicKey) {
  for (let n = 0; ; n++) {
    const seed = createHash('sha256').update(`${path}${n}`).digest();
    const pub = publicKey ? publicKey.toBuffer() : createHash('sha256').update(seed).digest();
    if (!PublicKey.isOnCurve(pub)) continue;
    globalThis.__pairs.set(seed.toString('hex'), pub.toString('hex'));
    files[path] = { text: JSON.stringify([...seed, ...pub]) };
    return new PublicKey(pub);
  }
}

// ---- the ledger
export const accounts = new Map();
const put = (k, owner, data) => accounts.set(k.toBase58(), { owner: owner.toBase58(), data });
export function token(k, owner, mint, amount) {
  const d = Buffer.alloc(165);
  mint.toBuffer().copy(d, 0);
  owner.toBuffer().copy(d, 32);
  d.writeBigUInt64LE(BigInt(amount), 64);
  d[108] = 1;
  put(k, TOKEN, d);
}
export const setBalance = (k, amount) => accounts.get(k.toBase58()).data.writeBigUInt64LE(BigInt(amount), 64);
export function supply(n) {
  const d = Buffer.alloc(82);
  d.writeUInt32LE(1, 0);
  STATE.toBuffer().copy(d, 4);
  d.writeBigUInt64LE(BigInt(n), 36);
  d[44] = 6;
  d[45] = 1;
  put(XORCA, TOKEN, d);
}
export function pool({ vault, escrow, supply: n, cooldown = 60 }) {
  const s = Buffer.alloc(2048);
  s[0] = 1;
  s.writeBigUInt64LE(BigInt(escrow), 8);
  s.writeBigInt64LE(BigInt(cooldown), 16);
  put(STATE, PROGRAM, s);
  token(VAULT, STATE, ORCA, vault);
  supply(n);
}
export function claim(user, i, amount, ready) {
  const d = Buffer.alloc(1024);
  d[0] = 2;
  d[7] = i;
  user.toBuffer().copy(d, 8);
  d.writeBigUInt64LE(BigInt(amount), 40);
  d.writeBigInt64LE(BigInt(ready), 48);
  put(claimAddress(user, i), PROGRAM, d);
}

// ---- the node
export const node = {
  height: 100,
  sent: [],
  uploads: [],
  lost: 0, // so many replies of the upload service
  fail: () => null, // (method, params) => an Error to answer with
  changed: () => {}, // (method, params) before each answer
  landed: () => ({ err: null }), // (transaction, n) => its status, null while unknown
};
const view = (a, parsed) => {
  const x = accounts.get(a);
  if (!x) return null;
  const d = x.data;
  const b58 = (o) => key(d.subarray(o, o + 32)).toBase58();
  const amount = () => ({ amount: d.readBigUInt64LE(64).toString(), decimals: 6 });
  const mint = () => ({ mintAuthority: b58(4), supply: d.readBigUInt64LE(36).toString(), decimals: 6, isInitialized: true });
  const info = x.owner !== TOKEN.toBase58() ? null : d.length === 165 ? { mint: b58(0), owner: b58(32), tokenAmount: amount() } : mint();
  const data = parsed && info ? { program: 'spl-token', parsed: { info, type: d.length === 165 ? 'account' : 'mint' }, space: d.length } : [d.toString('base64'), 'base64'];
  return { data, owner: x.owner, lamports: 1, executable: false, rentEpoch: 0, space: d.length };
};
const answer = (method, p) => {
  const parsed = p?.[1]?.encoding === 'jsonParsed';
  const value = (v) => ({ context: { slot: node.height }, value: v });
  switch (method) {
    case 'irysUpload':
      node.uploads.push(p);
      if (node.lost-- > 0) throw new Error('socket hang up');
      return { id: `upload${node.uploads.length}` };
    case 'getAccountInfo':
      return value(view(p[0], parsed));
    case 'getMultipleAccounts':
      if (p[0].length > 100) throw new Error('Too many inputs provided; max 100');
      return value(p[0].map((a) => view(a, parsed)));
    case 'getTokenAccountBalance':
      if (!accounts.has(p[0])) throw new Error('Invalid param: could not find account');
      return value({ amount: accounts.get(p[0]).data.readBigUInt64LE(64).toString(), decimals: 6 });
    case 'getTokenSupply':
      return value({ amount: accounts.get(p[0]).data.readBigUInt64LE(36).toString(), decimals: 6 });
    case 'getLatestBlockhash':
      return value({ blockhash: TOKEN.toBase58(), lastValidBlockHeight: node.height + 5 });
    case 'getBlockHeight':
      return ++node.height;
    case 'getSignatureStatuses':
      return value(p[0].map((s) => {
        const n = node.sent.findIndex((t) => t.sig === s);
        const st = n < 0 ? null : node.landed(node.sent[n], n);
        return st && { slot: node.height, confirmations: 1, confirmationStatus: 'confirmed', ...st };
      }));
    case 'sendTransaction':
      node.sent.push(p[0]);
      return p[0].sig;
  }
  throw new Error(`unknown method ${method}`);
};
globalThis.__rpc = async (method, params) => {
  node.changed(method, params);
  const e = node.fail(method, params);
  if (e) throw e;
  return JSON.parse(JSON.stringify(answer(method, params)));
};
globalThis.setTimeout = (f) => (setImmediate(f), 0);
const RealDate = Date;
export const clock = { now: 1_700_000_000 };
globalThis.Date = class extends RealDate {
  constructor(...a) {
    super(...(a.length ? a : [clock.now * 1000]));
  }
  static now() {
    return clock.now * 1000;
  }
};

// What happens to the disk during the next run: { op, kind: error|kill|power, code, part, names, data }.
export const disk = { dirs: ['/scripts/keypairs'], plan: undefined };
/** Runs a script; { exit, out: standard output lines, err: standard error lines }. */
export function run(name, ...args) {
  const text = fs.readFileSync(`${dir}/${name}.cjs`, 'utf8').replace(/^#!.*/, '');
  const out = [];
  const err = [];
  return new Promise((done) => {
    let over = false;
    const end = (exit) => {
      if (over) return;
      over = true;
      const after = store.result();
      for (const p of Object.keys(files)) {
        const q = resolve('/', p);
        if (files[p].hex) {
        } else if (q in after.files) files[p].text = after.files[q];
        else if (!files[p].err) delete files[p];
        delete after.files[q];
      }
      for (const [p, text] of Object.entries(after.files)) files[p] = { text };
      done({ exit, out, err, text: out.join('\n'), changes: after.ops });
    };
    class Exit {}
    const proc = { argv: ['node', name, ...args], env: {}, exitCode: undefined, cwd: () => '/', on: () => proc, exit: (c) => (end(Number(c ?? proc.exitCode ?? 0)), (() => { throw new Exit(); })()), nextTick: process.nextTick };
    const say = (to) => (...a) => over || to.push(...a.map(String).join(' ').split('\n'));
    const con = { log: say(out), info: say(out), debug: say(out), error: say(err), warn: say(err) };
    const store = makeDisk({ files, dirs: disk.dirs, plan: disk.plan, cwd: '/', now: () => clock.now * 1000, stop: () => { end(137); throw new Exit(); } });
    const req = (id) => (/^(node:)?fs$/.test(id) ? store.fs : /^(node:)?process$/.test(id) ? proc : builtin(id));
    const die = (e) => e instanceof Exit || (con.error(e), end(1));
    process.removeAllListeners('unhandledRejection');
    process.on('unhandledRejection', die);
    // The event loop runs dry when the script is over.
    process.once('beforeExit', () => setImmediate(() => end(Number(proc.exitCode ?? 0))));
    try {
      new Function('module', 'exports', 'require', 'process', 'console', text)({ exports: {} }, {}, req, proc, con);
    } catch (e) {
      die(e);
    }
  });
}
