// Runs the real JavaScript client inside the simulator.  The simulator (parent process)
// and this process talk in lockstep over stdin/stdout, one JSON value per line; while the
// client waits, the simulator decides what happens next.  Nothing here reads a real clock,
// a real timer, real randomness or the network.
//   node driver.mjs <bundled client, or -> [<directory of bundled scripts>]
import fs from 'node:fs';
import { createRequire } from 'node:module';
import { disk } from './disk.mjs';
const builtin = createRequire(import.meta.url);

// ------------------------------------------------------------------ the client's world
const realImmediate = setImmediate;
const turn = () => new Promise((r) => realImmediate(r));
let now = 0;
let timers = [];
let seq = 0;
let noise = 1n;
const RealDate = Date;
class SimDate extends RealDate {
  constructor(...a) {
    super(...(a.length ? a : [now]));
  }
  static now() {
    return now;
  }
}
const addTimer = (f, ms = 0, ...a) => {
  const id = ++seq;
  timers.push({ id, at: now + Math.max(0, Number(ms) || 0), f: () => f(...a) });
  return { id, ref() { return this; }, unref() { return this; }, hasRef: () => true, refresh() { return this; }, [Symbol.toPrimitive]: () => id };
};
const delTimer = (t) => {
  const id = typeof t === 'object' && t ? t.id : t;
  timers = timers.filter((x) => x.id !== id);
};
Object.assign(globalThis, {
  Date: SimDate,
  setTimeout: addTimer,
  clearTimeout: delTimer,
  setInterval: (f, ms, ...a) => {
    const t = addTimer(function again() {
      timers.push({ id: t.id, at: now + Math.max(1, Number(ms) || 0), f: again });
      f(...a);
    }, ms);
    return t;
  },
  clearInterval: delTimer,
  setImmediate: (f, ...a) => addTimer(f, 0, ...a),
  clearImmediate: delTimer,
  fetch: async () => {
    throw new TypeError('fetch failed');
  },
  console: new Proxy({}, { get: () => () => undefined }),
});
Math.random = () => {
  noise = (noise * 6364136223846793005n + 1442695040888963407n) & ((1n << 64n) - 1n);
  return Number(noise >> 11n) / 2 ** 53;
};
Object.defineProperty(globalThis, 'performance', { value: { now: () => now, timeOrigin: 0 }, configurable: true });

// ------------------------------------------------------------------ lockstep
const buf = Buffer.alloc(1 << 16);
let rest = '';
const decoder = new TextDecoder();
function readLine() {
  for (;;) {
    const i = rest.indexOf('\n');
    if (i >= 0) {
      const l = rest.slice(0, i);
      rest = rest.slice(i + 1);
      return JSON.parse(l);
    }
    let n = 0;
    try {
      n = fs.readSync(0, buf, 0, buf.length, null);
    } catch (e) {
      if (e.code === 'EAGAIN' || e.code === 'EINTR') continue;
      process.exit(0);
    }
    if (n === 0) process.exit(0);
    rest += decoder.decode(buf.subarray(0, n), { stream: true });
  }
}
const plain = (_k, v) => (typeof v === 'bigint' ? v.toString() : v instanceof Uint8Array ? { hex: Buffer.from(v).toString('hex') } : v);
function write(v) {
  const b = Buffer.from(JSON.stringify(v, plain) + '\n');
  let o = 0;
  while (o < b.length) {
    try {
      o += fs.writeSync(1, b, o);
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}
let loose = null;
let looseTo = null;
class Exit {}
const report = (e) => {
  if (e instanceof Exit) return;
  if (looseTo) return looseTo(e);
  loose = String(e?.message ?? e).slice(0, 200);
};
process.on('unhandledRejection', report);
process.on('uncaughtException', report);

// ------------------------------------------------------------------ transport
let pending = [];
const upcast = (v, k) => {
  if (typeof v === 'number' && Number.isInteger(v) && k !== 'decimals') return BigInt(v);
  if (Array.isArray(v)) return v.map((x) => upcast(x, k));
  if (v && typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([n, x]) => [n, upcast(x, n)]));
  return v;
};
class RpcFailure extends Error {
  constructor(e) {
    super(e.message);
    this.name = e.code === null ? 'SyntaxError' : 'SolanaError';
    this.context = { __code: e.code, ...e };
  }
}
const rpc = new Proxy(
  {},
  {
    get: (_t, method) =>
      method === 'then'
        ? undefined
        : (...params) => ({
            send: (opts = {}) =>
              new Promise((ok, no) => {
                const clean = JSON.parse(JSON.stringify(params, (_k, v) => (typeof v === 'bigint' ? Number(v) : v)));
                const r = { method, params: clean, ok, no };
                const sig = opts?.abortSignal;
                if (sig?.aborted) return no(sig.reason);
                sig?.addEventListener?.('abort', () => {
                  pending = pending.filter((p) => p !== r);
                  no(sig.reason);
                });
                pending.push(r);
              }),
          }),
  }
);

/** For the stand-ins that the command-line scripts are bundled with. */
globalThis.__rpc = (method, params) =>
  new Promise((ok, no) => pending.push({ method, params: JSON.parse(JSON.stringify(params, (_k, v) => (typeof v === 'bigint' ? v.toString() : v))), ok, no, raw: true }));

/** Lets `f` run to its end; the simulator decides in which order answers arrive and timers fire. */
async function drive(f, ended) {
  pending = [];
  timers = [];
  loose = null;
  let out = null;
  const settle = (x) => {
    if (!out) out = x;
  };
  try {
    Promise.resolve(f()).then(
      (v) => settle({ done: v === undefined ? null : v }),
      (e) => settle({ threw: String(e?.message ?? e).slice(0, 300), name: e?.name })
    );
  } catch (e) {
    settle({ threw: String(e?.message ?? e).slice(0, 300), name: e?.name });
  }
  for (;;) {
    await turn();
    if (ended) out = ended(!pending.length && !timers.length);
    if (out) break;
    if (!pending.length && !timers.length) {
      out = { hung: true };
      break;
    }
    write({ pending: pending.map((p) => [p.method, p.params]), timers: timers.length });
    const a = readLine();
    if (a.timer || !pending.length) {
      timers.sort((x, y) => x.at - y.at || x.id - y.id);
      const t = timers.shift();
      now = Math.max(now, t.at);
      try {
        t.f();
      } catch (e) {
        report(e);
      }
      continue;
    }
    const p = pending.splice(Math.min(a.pick ?? 0, pending.length - 1), 1)[0];
    now += a.ms ?? 0;
    if (a.err) p.no(new RpcFailure(a.err));
    else p.ok(p.raw ? a.ok : upcast(a.ok));
  }
  await turn();
  if (loose !== null) out = { crashed: loose };
  pending = [];
  timers = [];
  return out;
}

// ------------------------------------------------------------------ operations
const source = process.argv[2] === '-' ? '' : fs.readFileSync(process.argv[2], 'utf8');
const make = new Function('module', 'exports', 'require', source);
let X;
function reset() {
  const m = { exports: {} };
  now = 1_700_000_000_000;
  noise = 1n;
  seq = 0;
  make(m, m.exports, builtin);
  X = m.exports;
}
const signer = (address) => ({ address, signMessages: async (m) => m, signTransactions: async (t) => t });
const bytes = (hex) => new Uint8Array(Buffer.from(hex, 'hex'));
const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const account = (a) => ({ address: a.address, exists: a.exists, lamports: a.lamports, owner: a.programAddress, data: a.data });

const queries = {
  StateData: () => X.fetchStateAccountData(rpc),
  StateAccount: (q) => X.fetchState(rpc, q.state).then(account),
  MaybeState: (q) => X.fetchMaybeState(rpc, q.state).then(account),
  Cooldown: () => X.fetchStateAccountCoolDownPeriodS(rpc),
  Vault: () => X.fetchVaultState(rpc),
  Supply: () => X.fetchXorcaMintSupply(rpc),
  Claim: (q) => X.fetchPendingWithdraw(rpc, q.claim).then(account),
  Claims: (q) => X.fetchAllMaybePendingWithdraw(rpc, q.claims).then((l) => l.map(account)),
  AllStates: (q) => X.fetchAllState(rpc, [q.state, q.state]).then((l) => l.map(account)),
  MaybeStates: (q) => X.fetchAllMaybeState(rpc, [q.nowhere, q.state]).then((l) => l.map(account)),
  MaybeClaim: (q) => X.fetchMaybePendingWithdraw(rpc, q.claim).then(account),
  AllClaims: (q) => X.fetchAllPendingWithdraw(rpc, q.claims).then((l) => l.map(account)),
  List: (q) => (q.max === null ? X.fetchPendingWithdrawsForStaker(rpc, q.user) : X.fetchPendingWithdrawsForStaker(rpc, q.user, q.max)),
  Rate: () => X.fetchStakingExchangeRate(rpc),
};

/** The instruction as a user of the client builds it, with the addresses the client derives. */
async function build(o) {
  const [state] = await X.findStateAddress();
  const [vault] = await X.findVaultAddress(state, o.token, o.orcaMint);
  const claim = o.user !== undefined && o.idx !== undefined ? (await X.findPendingWithdrawAddress(o.user, o.idx))[0] : undefined;
  const base = { stateAccount: state };
  const amount = o.amount === undefined ? undefined : BigInt(o.amount);
  const progs = { systemProgramAccount: o.system, tokenProgramAccount: o.token };
  switch (o.kind) {
    case 'Stake':
      return X.getStakeInstruction({
        ...base,
        stakerAccount: signer(o.user),
        vaultAccount: vault,
        stakerOrcaAta: o.orca,
        stakerXorcaAta: o.xorca,
        xorcaMintAccount: o.xorcaMint,
        orcaMintAccount: o.orcaMint,
        tokenProgramAccount: o.token,
        orcaStakeAmount: amount,
      });
    case 'Unstake':
      return X.getUnstakeInstruction({
        ...base,
        ...progs,
        unstakerAccount: signer(o.user),
        pendingWithdrawAccount: claim,
        unstakerXorcaAta: o.xorca,
        xorcaMintAccount: o.xorcaMint,
        orcaMintAccount: o.orcaMint,
        vaultAccount: vault,
        xorcaUnstakeAmount: amount,
        withdrawIndex: o.idx,
      });
    case 'Withdraw':
      return X.getWithdrawInstruction({
        ...base,
        ...progs,
        unstakerAccount: signer(o.user),
        pendingWithdrawAccount: claim,
        unstakerOrcaAta: o.orca,
        vaultAccount: vault,
        orcaMintAccount: o.orcaMint,
        withdrawIndex: o.idx,
      });
    case 'Init':
      return X.getInitializeInstruction({
        ...base,
        ...progs,
        payerAccount: signer(o.payer),
        updateAuthorityAccount: signer(o.authority),
        vaultAccount: vault,
        xorcaMintAccount: o.xorcaMint,
        orcaMintAccount: o.orcaMint,
        associatedTokenProgramAccount: o.ata,
        coolDownPeriodS: BigInt(o.cooldown),
      });
    case 'SetCooldown':
      return X.getSetInstruction({
        ...base,
        updateAuthorityAccount: signer(o.by),
        instructionData: X.stateUpdateInstruction('UpdateCoolDownPeriod', { newCoolDownPeriodS: BigInt(o.cooldown) }),
      });
    case 'SetAuthority':
      return X.getSetInstruction({
        ...base,
        updateAuthorityAccount: signer(o.by),
        instructionData: X.stateUpdateInstruction('UpdateUpdateAuthority', { newAuthority: o.to }),
      });
  }
  throw new Error('kind');
}
const NAME = { Init: 'Initialize', SetCooldown: 'Set', SetAuthority: 'Set' };
/** Parts of the client that have to agree about one value; names those that do not. */
function disagreements(list) {
  const odd = [];
  for (const [what, f] of list) {
    let ok = false;
    try {
      ok = f() === true;
    } catch {}
    if (!ok) odd.push(what);
  }
  return odd;
}
const text = (v) => JSON.stringify(v, plain);
/** Encoder, decoder and codec of one type, on a value and its bytes. */
const codec = (name, bytes, value, enc, dec, both) => [
  [`${name} encoder`, () => same(enc().encode(value), bytes)],
  [`${name} decoder`, () => text(dec().decode(bytes)) === text(value)],
  [`${name} codec`, () => same(both().encode(value), bytes) && text(both().decode(bytes)) === text(value)],
];
async function instruction(o) {
  const ix = await build(o);
  const name = NAME[o.kind] ?? o.kind;
  const parsed = X[`parse${name}Instruction`](ix);
  const upper = name.toUpperCase();
  const odd = disagreements([
    ['discriminator', () => X[`${upper}_DISCRIMINATOR`] === ix.data[0] && same(X[`get${name}DiscriminatorBytes`](), ix.data.slice(0, 1))],
    ...codec(`${name} data`, ix.data, parsed.data, X[`get${name}InstructionDataEncoder`], X[`get${name}InstructionDataDecoder`], X[`get${name}InstructionDataCodec`]),
    ...(name === 'Set' ? codec('update', ix.data.slice(1), parsed.data.instructionData, X.getStateUpdateInstructionEncoder, X.getStateUpdateInstructionDecoder, X.getStateUpdateInstructionCodec) : []),
    ...(name === 'Set' ? ['UpdateCoolDownPeriod', 'UpdateUpdateAuthority'].map((kind) => [`is ${kind}`, () => X.isStateUpdateInstruction(kind, parsed.data.instructionData) === (parsed.data.instructionData.__kind === kind)]) : []),
    ['too few accounts', () => {
      try {
        X[`parse${name}Instruction`]({ ...ix, accounts: ix.accounts.slice(0, -1) });
      } catch {
        return true;
      }
    }],
  ]);
  return {
    program: ix.programAddress,
    accounts: ix.accounts.map((a) => [a.address, a.role]),
    data: ix.data,
    kind: X.XorcaStakingProgramInstruction[X.identifyXorcaStakingProgramInstruction(ix)],
    odd,
    kindBare: X.XorcaStakingProgramInstruction[X.identifyXorcaStakingProgramInstruction(ix.data)],
    parsed: { program: parsed.programAddress, accounts: Object.fromEntries(Object.entries(parsed.accounts).map(([k, a]) => [k, [a.address, a.role]])), data: parsed.data },
  };
}
const DEC = {
  state: ['State', () => X.getStateDecoder(), () => X.getStateEncoder(), () => X.getStateCodec()],
  claim: ['PendingWithdraw', () => X.getPendingWithdrawDecoder(), () => X.getPendingWithdrawEncoder(), () => X.getPendingWithdrawCodec()],
  token: [null, () => X.getTokenAccountDecoder(), () => X.getTokenAccountEncoder(), () => X.getTokenAccountCodec()],
  mint: [null, () => X.getTokenMintDecoder(), () => X.getTokenMintEncoder(), () => X.getTokenMintCodec()],
  event: [null, () => X.getEventDecoder(), () => X.getEventEncoder(), () => X.getEventCodec()],
};
function decode(o) {
  const data = bytes(o.hex);
  const [name, dec, enc, both] = DEC[o.what];
  const value = dec().decode(data);
  const out = { value };
  out.odd = disagreements([
    ...(o.what === 'mint' ? [] : codec(o.what, data, value, enc, dec, both)),
    ...(o.what === 'event' ? ['Stake', 'Unstake', 'Withdraw', 'UpdateAuthoritySet'].map((kind) => [`is ${kind}`, () => X.isEvent(kind, value) === (value.__kind === kind)]) : []),
    ...(o.what === 'event' ? [['event()', () => (({ __kind, ...rest }) => text(X.event(__kind, rest)))(value) === text(value)]] : []),
    ...(name
      ? [
          ['discriminator bytes', () => same(X[`get${name}DiscriminatorBytes`](), data.slice(0, 1))],
          ['discriminator', () => X[`${name.replace(/(?!^)[A-Z]/g, '_$&').toUpperCase()}_DISCRIMINATOR`] === data[0] && X.AccountDiscriminator[name] === data[0]],
          ...codec('account discriminator', data.slice(0, 1), data[0], X.getAccountDiscriminatorEncoder, X.getAccountDiscriminatorDecoder, X.getAccountDiscriminatorCodec),
        ]
      : []),
  ]);
  out.again = !out.odd.length;
  if (name) {
    out.kind = X.XorcaStakingProgramAccount[X.identifyXorcaStakingProgramAccount(data)];
    out.kindAccount = X.XorcaStakingProgramAccount[X.identifyXorcaStakingProgramAccount({ data })];
    const acc = { address: o.address, exists: true, lamports: 1n, programAddress: o.owner, executable: false, space: BigInt(data.length), data };
    out.viaAccount = X[`decode${name}`](acc).data;
    out.size = X[`get${name}Size`]();
  }
  return out;
}
function error(o) {
  const names = Object.entries(X).filter(([k, v]) => k.startsWith('XORCA_STAKING_PROGRAM_ERROR__') && v === o.code).map(([k]) => k.slice('XORCA_STAKING_PROGRAM_ERROR__'.length));
  const e = new Error('custom program error');
  e.name = 'SolanaError';
  e.context = { __code: 4615026, index: o.index, code: o.code };
  const msg = { instructions: o.programs.map((programAddress) => ({ programAddress })) };
  return {
    names,
    message: X.getXorcaStakingProgramErrorMessage(o.code) ?? null,
    is: X.isXorcaStakingProgramError(e, msg),
    isCode: X.isXorcaStakingProgramError(e, msg, o.code),
    isOther: X.isXorcaStakingProgramError(e, msg, o.code === 6000 ? 6001 : 6000),
  };
}
async function pda(o) {
  const st = await X.findStateAddress();
  return {
    program: X.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,
    state: st,
    vault: await X.findVaultAddress(st[0], o.token, o.orcaMint),
    claim: await X.findPendingWithdrawAddress(o.user, o.idx),
  };
}
function quote(o) {
  const f = o.stake ? X.convertOrcaToXorca : X.convertXorcaToOrca;
  return f(BigInt(o.amount), BigInt(o.backing), BigInt(o.supply));
}

// ------------------------------------------------------------------ command-line scripts
const compiled = new Map();
/** Runs one script as a process of its own: arguments, files, output, exit status. */
async function script(m) {
  const { name, args, files } = m;
  if (!compiled.has(name)) {
    const text = fs.readFileSync(`${process.argv[3]}/${name}.cjs`, 'utf8').replace(/^#!.*/, '');
    compiled.set(name, new Function('module', 'exports', 'require', 'process', 'console', text));
  }
  now = m.now;
  noise = 1n;
  globalThis.__pairs = new Map(m.pairs);
  const lines = [];
  let exit = null;
  let failed = null;
  const text = (a) => a.map((x) => (typeof x === 'string' ? x : x instanceof Error ? `${x.name}: ${x.message}` : String(x))).join(' ');
  const say = (stream) => (...a) => {
    if (exit === null) for (const l of text(a).split('\n')) lines.push([stream, l]);
  };
  const leave = (code) => {
    if (exit === null) exit = Number(code ?? proc.exitCode ?? 0) & 255;
    throw new Exit();
  };
  const write = (stream) => ({ write: (t) => (say(stream)(String(t).replace(/\n$/, '')), true), isTTY: false, columns: 80, on() {}, once() {} });
  const proc = {
    argv: ['node', `/scripts/${name}.ts`, ...args],
    env: {},
    exitCode: undefined,
    exit: leave,
    cwd: () => '/scripts',
    platform: 'linux',
    pid: 1,
    version: process.version,
    versions: process.versions,
    stdout: write('out'),
    stderr: write('err'),
    on() { return proc; },
    once() { return proc; },
    nextTick: process.nextTick,
    hrtime: Object.assign(() => [Math.floor(now / 1000), (now % 1000) * 1e6], { bigint: () => BigInt(now) * 1000000n }),
    uptime: () => 1,
    memoryUsage: () => ({}),
  };
  const con = { log: say('out'), info: say('out'), debug: say('out'), table: say('out'), dir: say('out'), group: say('out'), groupEnd() {}, error: say('err'), warn: say('err'), trace: say('err'), time() {}, timeEnd() {}, assert() {} };
  const store = disk({
    files,
    dirs: m.dirs,
    plan: m.plan,
    cwd: proc.cwd(),
    now: () => now,
    stop: () => {
      if (exit === null) exit = 137;
      throw new Exit();
    },
  });
  const vfs = store.fs;
  const req = (id) => {
    const n = id.replace(/^node:/, '');
    if (n === 'fs') return vfs;
    if (n === 'fs/promises') return vfs.promises;
    if (n === 'process') return proc;
    if (['path', 'buffer', 'util', 'crypto', 'url', 'assert', 'events', 'os', 'timers', 'string_decoder'].includes(n)) return builtin(id);
    throw Object.assign(new Error(`Cannot find module '${id}'`), { code: 'MODULE_NOT_FOUND' });
  };
  const die = (e) => {
    if (e instanceof Exit || exit !== null) return;
    con.error(e);
    exit = 1;
  };
  const start = now;
  looseTo = die;
  const out = await drive(
    () => {
      const mod = { exports: {} };
      try {
        compiled.get(name)(mod, mod.exports, req, proc, con);
      } catch (e) {
        die(e);
      }
      return new Promise(() => {});
    },
    (idle) => {
      if (exit === null && idle) exit = Number(proc.exitCode ?? 0) & 255;
      return exit === null ? null : { done: { exit, lines, start, end: now, ...(m.dirs ? { disk: store.result() } : {}) } };
    }
  );
  looseTo = null;
  return out;
}

try {
  reset();
} catch (e) {
  process.stderr.write(`the client does not load: ${e?.stack}\n`);
  process.exit(9);
}
for (;;) {
  const m = readLine();
  switch (m.op) {
    case 'reset':
      reset();
      write({ done: null });
      break;
    case 'call':
      write(await drive(() => queries[m.query](m)));
      break;
    case 'script':
      write(await script(m));
      break;
    case 'quote':
      write(await drive(() => quote(m)));
      break;
    case 'ix':
      write(await drive(() => instruction(m)));
      break;
    case 'decode':
      write(await drive(() => decode(m)));
      break;
    case 'error':
      write(await drive(() => error(m)));
      break;
    case 'pda':
      write(await drive(() => pda(m)));
      break;
    default:
      process.exit(9);
  }
}
