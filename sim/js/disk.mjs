// A simulated disk for one process: what is visible, what would survive a power cut, and
// the faults the simulator wants.  plan = { op, kind, part } hits the op-th change of the disk:
//   error   the operation fails with plan.code, writes after `part` thousandths of the data
//   kill    the process is killed then, writes after `part` thousandths of the data
//   power   the machine loses power then: what was not flushed is lost, or torn at `part`
import { dirname, resolve } from 'node:path';
import { fileURLToPath } from 'node:url';
const MSG = { ENOENT: 'no such file or directory', EEXIST: 'file already exists', EACCES: 'permission denied', EIO: 'i/o error', ENOSPC: 'no space left on device', EBADF: 'bad file descriptor', EISDIR: 'illegal operation on a directory', EROFS: 'read-only file system', ENOTDIR: 'not a directory' };
const failure = (code, op, path) => Object.assign(new Error(`${code}: ${MSG[code] ?? code}, ${op} '${path}'`), { code, syscall: op, path });
/** files: path -> { text }, { hex } or { err }; stop(): the process is over (throws). */
export function disk({ files, dirs, plan, cwd, stop, now }) {
  let ops = 0;
  let dead = false;
  let nextFd = 3;
  const fds = new Map();
  // Contents (shared by every name and descriptor of a file): live, and what is on the medium.
  const inode = (b) => ({ live: Buffer.from(b), safe: Buffer.from(b), err: null });
  let names = new Map();
  for (const [p, f] of Object.entries(files)) names.set(resolve(cwd, p), f.err ? { ...inode(''), err: f.err } : inode(f.hex === undefined ? f.text : Buffer.from(f.hex, 'hex')));
  const safeNames = new Map(names);
  const folders = new Set((dirs ?? []).map((d) => resolve(cwd, d)));
  for (const p of names.keys()) for (let d = dirname(p); ; d = dirname(d)) {
    folders.add(d);
    if (d === dirname(d)) break;
  }
  const path = (p) => resolve(cwd, p instanceof URL ? fileURLToPath(p) : Buffer.isBuffer(p) ? p.toString() : String(p));
  let hit = null;
  /** One change of the disk; returns how much of `n` bytes is done before a fault, or null. */
  const change = (op, p, n = 0) => {
    if (dead) stop();
    if (!plan || ops++ !== plan.op) return null;
    hit = op;
    const part = Math.floor((n * (plan.part ?? 0)) / 1000);
    return { part, then: () => {
      if (plan.kind === 'error') throw failure(plan.code, op, p);
      dead = true;
      stop();
    } };
  };
  /** An operation that happens entirely or not at all. */
  const whole = (op, p, f) => {
    const h = change(op, p);
    // Killed: before it or after it.
    if (h && (plan.kind === 'error' || plan.part < 500)) h.then();
    const r = f();
    h?.then();
    return r;
  };
  const alive = () => dead && stop();
  const look = (p, op = 'open') => {
    const i = names.get(p);
    if (!i) throw failure(folders.has(p) ? 'EISDIR' : 'ENOENT', op, p);
    if (i.err) throw failure(i.err, op, p);
    return i;
  };
  const FLAGS = /^(r|rs|r\+|rs\+|w|wx|xw|w\+|wx\+|xw\+|a|ax|xa|a\+|ax\+|as|as\+)$/;
  const open = (p0, flags = 'r') => {
    alive();
    if (typeof flags === 'number') flags = flags & 0o100 ? (flags & 0o200 ? 'wx' : flags & 0o2000 ? 'a' : 'w') : flags & 3 ? 'r+' : 'r';
    if (!FLAGS.test(flags)) throw new TypeError(`invalid flags ${flags}`);
    const p = path(p0);
    const fd = () => (fds.set(++nextFd, { i: names.get(p) ?? null, pos: 0, append: flags.startsWith('a'), p }), nextFd);
    if (folders.has(p) && !names.has(p)) {
      if (flags[0] !== 'r') throw failure('EISDIR', 'open', p);
      return fd();
    }
    if (flags[0] === 'r') return look(p), fd();
    if (!folders.has(dirname(p))) throw failure('ENOENT', 'open', p);
    if (names.has(p) && flags.includes('x')) throw failure('EEXIST', 'open', p);
    if (names.has(p) && (names.get(p).err)) throw failure(names.get(p).err, 'open', p);
    if (names.has(p) && flags[0] === 'a') return fd();
    return whole('open', p, () => {
      if (names.has(p)) names.get(p).live = Buffer.alloc(0);
      else names.set(p, inode(''));
      return fd();
    });
  };
  const file = (fd) => {
    alive();
    const f = fds.get(fd);
    if (!f) throw failure('EBADF', 'write', String(fd));
    return f;
  };
  const put = (f, data, at) => {
    const pos = f.append ? f.i.live.length : at ?? f.pos;
    const end = pos + data.length;
    const next = Buffer.alloc(Math.max(end, f.i.live.length));
    f.i.live.copy(next);
    Buffer.from(data).copy(next, pos);
    f.i.live = next;
    if (at == null) f.pos = end;
  };
  const bytes = (data, enc) => (typeof data === 'string' ? Buffer.from(data, enc ?? 'utf8') : Buffer.from(data.buffer, data.byteOffset, data.byteLength));
  const write = (fd, data, at) => {
    const f = file(fd);
    const h = change('write', f.p, data.length);
    put(f, h ? data.subarray(0, h.part) : data, at);
    // A short write is not an error for who writes in pieces.
    if (h && plan.kind === 'error' && plan.code === 'ENOSPC' && h.part > 0) {
      plan = { ...plan, op: ops };
      return h.part;
    }
    h?.then();
    return data.length;
  };
  const sync = (fd) => {
    const f = file(fd);
    whole('fsync', f.p, () => {
      if (f.i) f.i.safe = Buffer.from(f.i.live);
      // Flushing a file or its folder makes its name last as well.
      for (const [n, i] of names) if (f.i ? i === f.i : dirname(n) === f.p) safeNames.set(n, i);
      if (!f.i) for (const n of [...safeNames.keys()]) if (dirname(n) === f.p && !names.has(n)) safeNames.delete(n);
    });
  };
  const close = (fd) => {
    file(fd);
    fds.delete(fd);
  };
  const all = (fd, data) => {
    for (let o = 0; o < data.length; ) o += write(fd, data.subarray(o));
  };
  const opts = (o) => (typeof o === 'string' ? { encoding: o } : o ?? {});
  const writeFile = (p, data, o0, flag = 'w') => {
    const o = opts(o0);
    const own = typeof p !== 'number';
    const fd = own ? open(p, o.flag ?? flag) : p;
    try {
      all(fd, bytes(typeof data === 'string' || ArrayBuffer.isView(data) ? data : String(data), o.encoding));
      if (o.flush) sync(fd);
    } finally {
      if (own && !dead) close(fd);
    }
  };
  const rename = (a0, b0) => {
    alive();
    const [a, b] = [path(a0), path(b0)];
    const i = names.get(a);
    if (!i) throw failure('ENOENT', 'rename', a);
    if (!folders.has(dirname(b))) throw failure('ENOENT', 'rename', b);
    if (folders.has(b) && !names.has(b)) throw failure('EISDIR', 'rename', b);
    whole('rename', a, () => {
      names.delete(a);
      names.set(b, i);
    });
  };
  const unlink = (p0, force) => {
    alive();
    const p = path(p0);
    if (!names.has(p)) {
      if (force) return;
      throw failure('ENOENT', 'unlink', p);
    }
    whole('unlink', p, () => names.delete(p));
  };
  const mkdir = (p0, o) => {
    alive();
    const p = path(p0);
    if (folders.has(p) || names.has(p)) {
      if (o?.recursive && folders.has(p)) return;
      throw failure('EEXIST', 'mkdir', p);
    }
    if (!folders.has(dirname(p))) {
      if (!o?.recursive) throw failure('ENOENT', 'mkdir', p);
      mkdir(dirname(p), o);
    }
    whole('mkdir', p, () => folders.add(p));
  };
  const read = (p0, o) => {
    alive();
    const i = typeof p0 === 'number' ? file(p0).i : look(path(p0));
    const enc = opts(o).encoding;
    return enc ? i.live.toString(enc) : Buffer.from(i.live);
  };
  const stat = (p0, o) => {
    alive();
    const p = path(p0);
    const i = names.get(p);
    if (!i && !folders.has(p)) {
      if (o?.throwIfNoEntry === false) return undefined;
      throw failure('ENOENT', 'stat', p);
    }
    const at = new Date(now());
    return { size: i?.live.length ?? 4096, mode: i ? 0o100600 : 0o40755, isFile: () => !!i, isDirectory: () => !i, isSymbolicLink: () => false, mtime: at, mtimeMs: +at };
  };
  const link = (a0, b0) => {
    alive();
    const [a, b] = [path(a0), path(b0)];
    look(a, 'link');
    if (names.has(b)) throw failure('EEXIST', 'link', b);
    whole('link', b, () => names.set(b, names.get(a)));
  };
  const list = (p0) => {
    alive();
    const p = path(p0);
    if (!folders.has(p)) throw failure('ENOENT', 'scandir', p);
    return [...names.keys(), ...folders].filter((n) => n !== p && dirname(n) === p).map((n) => n.slice(p.length).replace(/^\//, '')).sort();
  };
  let made = 0;
  const fs = {
    constants: { F_OK: 0, R_OK: 4, W_OK: 2, X_OK: 1, O_RDONLY: 0, O_WRONLY: 1, O_RDWR: 2, O_CREAT: 0o100, O_EXCL: 0o200, O_TRUNC: 0o1000, O_APPEND: 0o2000, O_SYNC: 0o4010000, COPYFILE_EXCL: 1 },
    openSync: open,
    closeSync: close,
    writeSync: (fd, data, a, b, c) => {
      if (typeof data === 'string') return write(fd, bytes(data, b), typeof a === 'number' ? a : null);
      const o = typeof a === 'object' && a ? a : { offset: a, length: b, position: c };
      const d = bytes(data).subarray(o.offset ?? 0);
      return write(fd, d.subarray(0, o.length ?? d.length), o.position);
    },
    fsyncSync: sync,
    fdatasyncSync: sync,
    ftruncateSync: (fd, n = 0) => {
      const f = file(fd);
      whole('ftruncate', f.p, () => void (f.i.live = Buffer.concat([f.i.live, Buffer.alloc(n)]).subarray(0, n)));
    },
    truncateSync: (p, n = 0) => {
      const fd = open(p, 'r+');
      fs.ftruncateSync(fd, n);
      close(fd);
    },
    readFileSync: read,
    writeFileSync: writeFile,
    appendFileSync: (p, d, o) => writeFile(p, d, o, 'a'),
    renameSync: rename,
    unlinkSync: (p) => unlink(p, false),
    rmSync: (p, o) => unlink(p, o?.force),
    linkSync: link,
    copyFileSync: (a, b, mode) => writeFile(b, read(a), { flag: mode & 1 ? 'wx' : 'w' }),
    mkdirSync: mkdir,
    mkdtempSync: (p) => {
      const d = `${p}${String(++made).padStart(6, 'a')}`;
      mkdir(d);
      return d;
    },
    readdirSync: list,
    existsSync: (p) => (alive(), names.has(path(p)) || folders.has(path(p))),
    accessSync: (p) => void stat(p),
    statSync: stat,
    lstatSync: stat,
    fstatSync: (fd) => stat(file(fd).p),
    realpathSync: (p) => (stat(p), path(p)),
    chmodSync: (p) => void stat(p),
    fchmodSync: (fd) => void file(fd),
  };
  const later = (f) => async (...a) => f(...a);
  fs.promises = Object.fromEntries(Object.entries(fs).filter(([k]) => k.endsWith('Sync')).map(([k, f]) => [k.slice(0, -4), later(f)]));
  fs.promises.constants = fs.constants;
  fs.promises.open = later((p, flags) => {
    const fd = open(p, flags);
    return {
      fd,
      writeFile: later((d, o) => writeFile(fd, d, o)),
      appendFile: later((d, o) => writeFile(fd, d, o)),
      readFile: later((o) => read(fd, o)),
      write: later((d, ...a) => ({ bytesWritten: fs.writeSync(fd, d, ...a), buffer: d })),
      sync: later(() => sync(fd)),
      datasync: later(() => sync(fd)),
      truncate: later((n) => fs.ftruncateSync(fd, n)),
      chmod: later(() => undefined),
      stat: later(() => fs.fstatSync(fd)),
      close: later(() => close(fd)),
    };
  });
  for (const [k, f] of Object.entries(fs.promises)) {
    if (typeof f === 'function' && k !== 'open') fs[k] ??= (...a) => {
      const done = a.pop();
      f(...a).then((v) => done(null, v), (e) => (dead ? undefined : done(e)));
    };
  }
  fs.default = fs;
  /** What is on the disk when the process is over. */
  const result = () => {
    const out = {};
    if (dead && plan.kind === 'power') {
      // Names last from before or as they are; contents last as flushed, or torn.
      const kept = plan.names ? names : safeNames;
      for (const [p, i] of kept) if (!i.err) out[p] = (i.live.equals(i.safe) ? i.live : plan.data ? i.live.subarray(0, Math.floor((i.live.length * (plan.part ?? 0)) / 1000)) : i.safe).toString('utf8');
    } else for (const [p, i] of names) if (!i.err) out[p] = i.live.toString('utf8');
    return { files: out, dead, hit, ops };
  };
  return { fs, result };
}
