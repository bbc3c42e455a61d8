// Stand-in for @solana/kit (and @solana/addresses), which is not installed here: the part
// of its documented behaviour that a program client can use.  Written from kit 3.0.
import { createHash } from 'node:crypto';

const B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const B58I = new Map([...B58].map((c, i) => [c, BigInt(i)]));

export class SolanaError extends Error {
  constructor(code, context = {}, message) {
    super(message ?? `Solana error #${code}`);
    this.name = 'SolanaError';
    this.context = Object.freeze({ __code: code, ...context });
  }
}
export const isSolanaError = (e, code) =>
  e instanceof Error && e.name === 'SolanaError' && (code === undefined || e.context.__code === code);
export const SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM = 4615026;
export const SOLANA_ERROR__JSON_RPC__INVALID_PARAMS = -32602;
const bad = (what, context) => new SolanaError(8078000, context, what);

// ------------------------------------------------------------------ codecs
const size = (e, v) => ('fixedSize' in e ? e.fixedSize : e.getSizeFromValue(v));
export const getEncodedSize = (v, e) => size(e, v);
export const isFixedSize = (c) => 'fixedSize' in c && typeof c.fixedSize === 'number';
export const isVariableSize = (c) => !isFixedSize(c);
export function createEncoder(e) {
  return Object.freeze({
    ...e,
    encode(v) {
      const b = new Uint8Array(size(e, v));
      e.write(v, b, 0);
      return b;
    },
  });
}
export function createDecoder(d) {
  return Object.freeze({ ...d, decode: (b, o = 0) => d.read(b, o)[0] });
}
export function createCodec(c) {
  return Object.freeze({ ...createEncoder(c), ...createDecoder(c) });
}
export function combineCodec(e, d) {
  if (isFixedSize(e) !== isFixedSize(d) || (isFixedSize(e) && e.fixedSize !== d.fixedSize))
    throw bad('encoder and decoder sizes differ');
  return Object.freeze({ ...d, ...e, decode: d.decode, encode: e.encode, read: d.read, write: e.write });
}
function need(b, o, n, what) {
  if (b.length - o <= 0 && n > 0) throw bad(`Codec [${what}] cannot decode empty byte arrays.`);
  if (b.length - o < n) throw bad(`Codec [${what}] expected ${n} bytes, got ${Math.max(0, b.length - o)}.`);
}
export const assertByteArrayIsNotEmptyForCodec = (what, b, o = 0) => {
  if (b.length - o <= 0) throw bad(`Codec [${what}] cannot decode empty byte arrays.`);
};
export const assertByteArrayHasEnoughBytesForCodec = (what, n, b, o = 0) => need(b, o, n, what);
export const assertIsFixedSize = (c) => {
  if (!isFixedSize(c)) throw bad('Expected a fixed-size codec, got a variable-size one.');
};
const view = (b) => new DataView(b.buffer, b.byteOffset, b.byteLength);

function numberCodec(name, bytes, min, max, set, get) {
  const encoder = (cfg = {}) =>
    createEncoder({
      fixedSize: bytes,
      write(v, b, o) {
        if (v < min || v > max) throw bad(`Codec [${name}] expected number to be in the range [${min}, ${max}], got ${v}.`);
        set(view(b), o, v, cfg.endian !== 1);
        return o + bytes;
      },
    });
  const decoder = (cfg = {}) =>
    createDecoder({
      fixedSize: bytes,
      read(b, o) {
        need(b, o, bytes, name);
        return [get(view(b), o, cfg.endian !== 1), o + bytes];
      },
    });
  return [encoder, decoder, (cfg) => combineCodec(encoder(cfg), decoder(cfg))];
}
export const Endian = { Little: 0, Big: 1 };
export const [getU8Encoder, getU8Decoder, getU8Codec] = numberCodec('u8', 1, 0, 255, (d, o, v) => d.setUint8(o, Number(v)), (d, o) => d.getUint8(o));
export const [getI8Encoder, getI8Decoder, getI8Codec] = numberCodec('i8', 1, -128, 127, (d, o, v) => d.setInt8(o, Number(v)), (d, o) => d.getInt8(o));
export const [getU16Encoder, getU16Decoder, getU16Codec] = numberCodec('u16', 2, 0, 65535, (d, o, v, l) => d.setUint16(o, Number(v), l), (d, o, l) => d.getUint16(o, l));
export const [getI16Encoder, getI16Decoder, getI16Codec] = numberCodec('i16', 2, -32768, 32767, (d, o, v, l) => d.setInt16(o, Number(v), l), (d, o, l) => d.getInt16(o, l));
export const [getU32Encoder, getU32Decoder, getU32Codec] = numberCodec('u32', 4, 0, 4294967295, (d, o, v, l) => d.setUint32(o, Number(v), l), (d, o, l) => d.getUint32(o, l));
export const [getI32Encoder, getI32Decoder, getI32Codec] = numberCodec('i32', 4, -2147483648, 2147483647, (d, o, v, l) => d.setInt32(o, Number(v), l), (d, o, l) => d.getInt32(o, l));
export const [getU64Encoder, getU64Decoder, getU64Codec] = numberCodec('u64', 8, 0n, (1n << 64n) - 1n, (d, o, v, l) => d.setBigUint64(o, BigInt(v), l), (d, o, l) => d.getBigUint64(o, l));
export const [getI64Encoder, getI64Decoder, getI64Codec] = numberCodec('i64', 8, -(1n << 63n), (1n << 63n) - 1n, (d, o, v, l) => d.setBigInt64(o, BigInt(v), l), (d, o, l) => d.getBigInt64(o, l));
export const [getU128Encoder, getU128Decoder, getU128Codec] = numberCodec(
  'u128', 16, 0n, (1n << 128n) - 1n,
  (d, o, v, l) => {
    d.setBigUint64(o + (l ? 0 : 8), BigInt(v) & ((1n << 64n) - 1n), l);
    d.setBigUint64(o + (l ? 8 : 0), BigInt(v) >> 64n, l);
  },
  (d, o, l) => d.getBigUint64(o + (l ? 0 : 8), l) | (d.getBigUint64(o + (l ? 8 : 0), l) << 64n)
);

export const getUnitEncoder = () => createEncoder({ fixedSize: 0, write: (_v, _b, o) => o });
export const getUnitDecoder = () => createDecoder({ fixedSize: 0, read: (_b, o) => [undefined, o] });
export const getBooleanEncoder = (c = {}) => transformEncoder(c.size ?? getU8Encoder(), (v) => (v ? 1 : 0));
export const getBooleanDecoder = (c = {}) => transformDecoder(c.size ?? getU8Decoder(), (v) => Number(v) === 1);
export const getBooleanCodec = (c) => combineCodec(getBooleanEncoder(c), getBooleanDecoder(c));

export const getBytesEncoder = () =>
  createEncoder({ getSizeFromValue: (v) => v.length, write: (v, b, o) => (b.set(v, o), o + v.length) });
export const getBytesDecoder = () => createDecoder({ read: (b, o) => [b.slice(o), b.length] });
export const getBytesCodec = () => combineCodec(getBytesEncoder(), getBytesDecoder());

export const fixBytes = (b, n) => {
  if (b.length === n) return b;
  const p = new Uint8Array(n);
  p.set(b.slice(0, n));
  return p;
};
export const padBytes = (b, n) => (b.length >= n ? b : fixBytes(b, n));
export const mergeBytes = (list) => {
  const out = new Uint8Array(list.reduce((s, b) => s + b.length, 0));
  let o = 0;
  for (const b of list) {
    out.set(b, o);
    o += b.length;
  }
  return out;
};
export const containsBytes = (data, bytes, o) => {
  const s = o === 0 && data.length === bytes.length ? data : data.slice(o, o + bytes.length);
  return s.length === bytes.length && bytes.every((x, i) => x === s[i]);
};
export const fixEncoderSize = (e, n) =>
  createEncoder({
    fixedSize: n,
    write(v, b, o) {
      b.set(fixBytes(e.encode(v), n), o);
      return o + n;
    },
  });
export const fixDecoderSize = (d, n) =>
  createDecoder({
    fixedSize: n,
    read(b, o) {
      need(b, o, n, 'fixCodecSize');
      let s = b.slice(o, o + n);
      if (isFixedSize(d)) s = fixBytes(s, d.fixedSize);
      return [d.read(s, 0)[0], o + n];
    },
  });
export const fixCodecSize = (c, n) => combineCodec(fixEncoderSize(c, n), fixDecoderSize(c, n));
export const transformEncoder = (e, f) =>
  createEncoder({
    ...(isFixedSize(e) ? { fixedSize: e.fixedSize } : { getSizeFromValue: (v) => e.getSizeFromValue(f(v)) }),
    write: (v, b, o) => e.write(f(v), b, o),
  });
export const transformDecoder = (d, f) =>
  createDecoder({
    ...(isFixedSize(d) ? { fixedSize: d.fixedSize } : {}),
    read(b, o) {
      const [v, n] = d.read(b, o);
      return [f(v, b, o), n];
    },
  });
export const transformCodec = (c, f, g) => createCodec({ ...transformEncoder(c, f), read: g ? transformDecoder(c, g).read : c.read });
const total = (cs) => (cs.every(isFixedSize) ? cs.reduce((s, c) => s + c.fixedSize, 0) : null);
export const getStructEncoder = (fields) => {
  const t = total(fields.map((f) => f[1]));
  return createEncoder({
    ...(t === null ? { getSizeFromValue: (v) => fields.reduce((s, [k, e]) => s + size(e, v[k]), 0) } : { fixedSize: t }),
    write(v, b, o) {
      for (const [k, e] of fields) o = e.write(v[k], b, o);
      return o;
    },
  });
};
export const getStructDecoder = (fields) => {
  const t = total(fields.map((f) => f[1]));
  return createDecoder({
    ...(t === null ? {} : { fixedSize: t }),
    read(b, o) {
      const s = {};
      for (const [k, d] of fields) [s[k], o] = d.read(b, o);
      return [s, o];
    },
  });
};
export const getStructCodec = (f) => combineCodec(getStructEncoder(f), getStructDecoder(f));
export const getTupleEncoder = (items) => {
  const e = getStructEncoder(items.map((c, i) => [i, c]));
  return e;
};
export const getTupleDecoder = (items) => transformDecoder(getStructDecoder(items.map((c, i) => [i, c])), (s) => items.map((_, i) => s[i]));
export const getTupleCodec = (items) => combineCodec(getTupleEncoder(items), getTupleDecoder(items));
export const getArrayEncoder = (item, cfg = {}) => {
  const n = cfg.size ?? getU32Encoder();
  const fixed = typeof n === 'number' && isFixedSize(item);
  return createEncoder({
    ...(fixed ? { fixedSize: n * item.fixedSize } : { getSizeFromValue: (v) => (typeof n === 'object' ? size(n, v.length) : 0) + v.reduce((s, x) => s + size(item, x), 0) }),
    write(v, b, o) {
      if (typeof n === 'number' && v.length !== n) throw bad(`Expected [array] to have ${n} items, got ${v.length}.`);
      if (typeof n === 'object') o = n.write(v.length, b, o);
      for (const x of v) o = item.write(x, b, o);
      return o;
    },
  });
};
export const getArrayDecoder = (item, cfg = {}) => {
  const n = cfg.size ?? getU32Decoder();
  const fixed = typeof n === 'number' && isFixedSize(item);
  return createDecoder({
    ...(fixed ? { fixedSize: n * item.fixedSize } : {}),
    read(b, o) {
      const out = [];
      let c = n;
      if (n === 'remainder') c = Infinity;
      else if (typeof n === 'object') [c, o] = n.read(b, o);
      for (let i = 0; i < Number(c) && (n !== 'remainder' || o < b.length); i++) {
        const [v, p] = item.read(b, o);
        out.push(v);
        o = p;
      }
      return [out, o];
    },
  });
};
export const getArrayCodec = (i, c) => combineCodec(getArrayEncoder(i, c), getArrayDecoder(i, c));
function enumStats(en) {
  const numeric = [...new Set(Object.values(en).filter((v) => typeof v === 'number'))].sort((a, b) => a - b);
  const all = Object.fromEntries(Object.entries(en).slice(numeric.length));
  const keys = Object.keys(all);
  return { numeric, all, keys, values: Object.values(all) };
}
export const getEnumEncoder = (en, cfg = {}) => {
  const { numeric, keys, values } = enumStats(en);
  return transformEncoder(cfg.size ?? getU8Encoder(), (variant) => {
    if (typeof variant === 'number') {
      if (numeric.includes(variant)) return cfg.useValuesAsDiscriminators ? variant : values.lastIndexOf(variant);
    } else {
      const i = values.lastIndexOf(variant) >= 0 ? values.lastIndexOf(variant) : keys.lastIndexOf(variant);
      if (i >= 0) return i;
    }
    throw bad(`Invalid enum variant. Got ${variant}.`);
  });
};
export const getEnumDecoder = (en, cfg = {}) => {
  const { values } = enumStats(en);
  return transformDecoder(cfg.size ?? getU8Decoder(), (d) => {
    const i = Number(d);
    if (cfg.useValuesAsDiscriminators ? !values.includes(i) : i < 0 || i >= values.length)
      throw bad(`Enum discriminator out of range. Expected a number in [0, ${values.length - 1}], got ${i}.`);
    return cfg.useValuesAsDiscriminators ? i : values[i];
  });
};
export const getEnumCodec = (e, c) => combineCodec(getEnumEncoder(e, c), getEnumDecoder(e, c));
export const getDiscriminatedUnionEncoder = (variants, cfg = {}) => {
  const key = cfg.discriminator ?? '__kind';
  const prefix = cfg.size ?? getU8Encoder();
  const find = (v) => {
    const i = variants.findIndex(([k]) => k === v[key]);
    if (i < 0) throw bad(`Invalid discriminated union variant. Expected one of [${variants.map((x) => x[0])}], got ${v[key]}.`);
    return i;
  };
  const sizes = variants.map(([, e]) => (isFixedSize(e) ? e.fixedSize : null));
  const fixed = isFixedSize(prefix) && sizes.every((s) => s !== null && s === sizes[0]);
  return createEncoder({
    ...(fixed ? { fixedSize: prefix.fixedSize + sizes[0] } : { getSizeFromValue: (v) => size(prefix, find(v)) + size(variants[find(v)][1], v) }),
    write(v, b, o) {
      const i = find(v);
      o = prefix.write(i, b, o);
      return variants[i][1].write(v, b, o);
    },
  });
};
export const getDiscriminatedUnionDecoder = (variants, cfg = {}) => {
  const key = cfg.discriminator ?? '__kind';
  const prefix = cfg.size ?? getU8Decoder();
  const sizes = variants.map(([, e]) => (isFixedSize(e) ? e.fixedSize : null));
  const fixed = isFixedSize(prefix) && sizes.every((s) => s !== null && s === sizes[0]);
  return createDecoder({
    ...(fixed ? { fixedSize: prefix.fixedSize + sizes[0] } : {}),
    read(b, o) {
      need(b, o, 1, 'union');
      const [i, p] = prefix.read(b, o);
      const v = variants[Number(i)];
      if (!v) throw bad(`Union variant out of range. Got ${i}.`);
      const [x, q] = v[1].read(b, p);
      return [{ [key]: v[0], ...(x ?? {}) }, q];
    },
  });
};
export const getDiscriminatedUnionCodec = (v, c) => combineCodec(getDiscriminatedUnionEncoder(v, c), getDiscriminatedUnionDecoder(v, c));
export const some = (value) => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const isOption = (x) => !!(x && typeof x === 'object' && '__option' in x);
export const isSome = (o) => o.__option === 'Some';
export const isNone = (o) => o.__option === 'None';
export const unwrapOption = (o, f) => (isSome(o) ? o.value : f ? f() : null);
export const wrapNullable = (v) => (v !== null && v !== undefined ? some(v) : none());
export const getOptionDecoder = (item, cfg = {}) => {
  const prefix = cfg.prefix === null ? null : (cfg.prefix ?? getU8Decoder());
  const zero = cfg.noneValue === 'zeroes';
  return createDecoder({
    ...(zero && prefix ? { fixedSize: prefix.fixedSize + item.fixedSize } : {}),
    read(b, o) {
      let flag = 1;
      if (prefix) {
        [flag, o] = prefix.read(b, o);
        flag = Number(flag);
        if (flag > 1) throw bad('boolean out of range');
      }
      if (flag === 0) {
        if (zero) need(b, o, item.fixedSize, 'option');
        return [none(), zero ? o + item.fixedSize : o];
      }
      const [v, p] = item.read(b, o);
      return [some(v), p];
    },
  });
};

// ------------------------------------------------------------------ strings and addresses
const strCodec = (enc, dec) => {
  const e = () =>
    createEncoder({
      getSizeFromValue: (v) => enc(v).length,
      write(v, b, o) {
        const x = enc(v);
        b.set(x, o);
        return o + x.length;
      },
    });
  const d = () => createDecoder({ read: (b, o) => [dec(b.slice(o)), b.length] });
  return [e, d, () => combineCodec(e(), d())];
};
function b58enc(s) {
  let n = 0n;
  for (const c of s) {
    const i = B58I.get(c);
    if (i === undefined) throw bad(`Invalid value ${s} for base 58.`);
    n = n * 58n + i;
  }
  const out = [];
  while (n > 0n) {
    out.unshift(Number(n & 255n));
    n >>= 8n;
  }
  for (const c of s) {
    if (c !== '1') break;
    out.unshift(0);
  }
  return new Uint8Array(out);
}
function b58dec(b) {
  let n = 0n;
  for (const x of b) n = (n << 8n) | BigInt(x);
  let s = '';
  while (n > 0n) {
    s = B58[Number(n % 58n)] + s;
    n /= 58n;
  }
  for (const x of b) {
    if (x !== 0) break;
    s = '1' + s;
  }
  return s;
}
export const [getBase58Encoder, getBase58Decoder, getBase58Codec] = strCodec(b58enc, b58dec);
export const [getBase64Encoder, getBase64Decoder, getBase64Codec] = strCodec(
  (s) => {
    const t = s.replace(/=/g, '');
    if (!/^[A-Za-z0-9+/]*$/.test(t)) throw bad(`Expected a string of base 64 characters.`);
    return new Uint8Array(Buffer.from(s, 'base64'));
  },
  (b) => Buffer.from(b).toString('base64')
);
export const [getBase16Encoder, getBase16Decoder, getBase16Codec] = strCodec(
  (s) => new Uint8Array(Buffer.from(s, 'hex')),
  (b) => Buffer.from(b).toString('hex')
);
export const [getUtf8Encoder, getUtf8Decoder, getUtf8Codec] = strCodec(
  (s) => new TextEncoder().encode(s),
  (b) => new TextDecoder().decode(b).replace(/\u0000/g, '')
);

const ADDR = (globalThis.__addr ??= new Map());
const addrBytes = (a) => {
  let b = ADDR.get(a);
  if (!b) {
    if (typeof a !== 'string' || a.length < 32 || a.length > 44) throw bad(`Expected base58-encoded address string of length in the range [32, 44].`);
    b = b58enc(a);
    if (b.length !== 32) throw bad(`Expected base58 encoded address to decode to a byte array of length 32. Actual length: ${b.length}.`);
    if (ADDR.size > 100000) ADDR.clear();
    ADDR.set(a, b);
  }
  return b;
};
const BACK = (globalThis.__back ??= new Map());
const addrText = (b) => {
  const h = Buffer.from(b).toString('latin1');
  let s = BACK.get(h);
  if (!s) {
    s = b58dec(b);
    if (BACK.size > 100000) BACK.clear();
    BACK.set(h, s);
  }
  return s;
};
export const isAddress = (a) => {
  try {
    addrBytes(a);
    return true;
  } catch {
    return false;
  }
};
export const assertIsAddress = (a) => void addrBytes(a);
export const address = (a) => (addrBytes(a), a);
export const getAddressEncoder = () => createEncoder({ fixedSize: 32, write: (v, b, o) => (b.set(addrBytes(v), o), o + 32) });
export const getAddressDecoder = () =>
  createDecoder({
    fixedSize: 32,
    read(b, o) {
      need(b, o, 32, 'fixCodecSize');
      return [addrText(b.slice(o, o + 32)), o + 32];
    },
  });
export const getAddressCodec = () => combineCodec(getAddressEncoder(), getAddressDecoder());
export const getAddressComparator = () => (a, b) => (a < b ? -1 : a > b ? 1 : 0);

// Is this the compressed encoding of a point of edwards25519?
const P = (1n << 255n) - 19n;
const D = 37095705934669439343138083508754565189542113879843219016388785533085940283555n;
const mod = (x) => ((x % P) + P) % P;
function pow(b, e) {
  let r = 1n;
  b = mod(b);
  while (e > 0n) {
    if (e & 1n) r = (r * b) % P;
    b = (b * b) % P;
    e >>= 1n;
  }
  return r;
}
export function compressedPointBytesAreOnCurve(bytes) {
  let y = 0n;
  for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(i === 31 ? bytes[i] & 0x7f : bytes[i]);
  const sign = bytes[31] >> 7;
  const y2 = mod(y * y);
  const u = mod(y2 - 1n);
  const v = mod(D * y2 + 1n);
  const x2 = mod(u * pow(v, P - 2n));
  if (x2 === 0n) return sign === 0;
  return pow(x2, (P - 1n) / 2n) === 1n;
}
const PDA = (globalThis.__pda ??= new Map());
export async function getProgramDerivedAddress({ programAddress, seeds }) {
  const parts = seeds.map((s) => (typeof s === 'string' ? new TextEncoder().encode(s) : Uint8Array.from(s)));
  if (parts.length > 15) throw bad('A maximum of 16 seeds, including the bump seed, may be supplied.');
  for (const p of parts) if (p.length > 32) throw bad('The seed exceeds the maximum length of 32 bytes.');
  const key = programAddress + '|' + parts.map((p) => Buffer.from(p).toString('hex')).join('|');
  let hit = PDA.get(key);
  if (!hit) {
    const prog = addrBytes(programAddress);
    for (let bump = 255; bump > 0 && !hit; bump--) {
      const h = createHash('sha256');
      for (const p of parts) h.update(p);
      h.update(new Uint8Array([bump]));
      h.update(prog);
      h.update('ProgramDerivedAddress');
      const d = new Uint8Array(h.digest());
      if (!compressedPointBytesAreOnCurve(d)) hit = Object.freeze([addrText(d), bump]);
    }
    if (!hit) throw bad('Unable to find a viable program address bump seed.');
    PDA.set(key, hit);
  }
  return hit;
}
export const isProgramDerivedAddress = (v) =>
  Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && v[1] >= 0 && v[1] <= 255 && isAddress(v[0]);

// ------------------------------------------------------------------ instructions, signers, errors
export const AccountRole = { READONLY: 0, WRITABLE: 1, READONLY_SIGNER: 2, WRITABLE_SIGNER: 3, 0: 'READONLY', 1: 'WRITABLE', 2: 'READONLY_SIGNER', 3: 'WRITABLE_SIGNER' };
export const upgradeRoleToSigner = (r) => r | 2;
export const upgradeRoleToWritable = (r) => r | 1;
export const downgradeRoleToNonSigner = (r) => r & 1;
export const downgradeRoleToReadonly = (r) => r & 2;
export const mergeRoles = (a, b) => a | b;
export const isSignerRole = (r) => r >= 2;
export const isWritableRole = (r) => (r & 1) !== 0;
export const isTransactionSigner = (v) =>
  'signTransactions' in v || 'modifyAndSignTransactions' in v || 'signAndSendTransactions' in v;
export const createNoopSigner = (a) =>
  Object.freeze({ address: a, signMessages: async (m) => m.map(() => Object.freeze({})), signTransactions: async (t) => t.map(() => Object.freeze({})) });
export function isProgramError(error, transactionMessage, programAddress, code) {
  if (!isSolanaError(error, SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM)) return false;
  const a = transactionMessage.instructions[error.context.index]?.programAddress;
  if (!a || a !== programAddress) return false;
  return typeof code === 'undefined' || error.context.code === code;
}
export const lamports = (x) => x;

// ------------------------------------------------------------------ accounts
export function parseBase64RpcAccount(addr, acc) {
  if (!acc) return Object.freeze({ address: addr, exists: false });
  return Object.freeze({
    executable: acc.executable,
    lamports: acc.lamports,
    programAddress: acc.owner,
    space: acc.space,
    address: addr,
    data: getBase64Encoder().encode(acc.data[0]),
    exists: true,
  });
}
export async function fetchEncodedAccount(rpc, addr, config = {}) {
  const { abortSignal, ...rest } = config;
  const r = await rpc.getAccountInfo(addr, { ...rest, encoding: 'base64' }).send({ abortSignal });
  return parseBase64RpcAccount(addr, r.value);
}
export async function fetchEncodedAccounts(rpc, addrs, config = {}) {
  const { abortSignal, ...rest } = config;
  const r = await rpc.getMultipleAccounts(addrs, { ...rest, encoding: 'base64' }).send({ abortSignal });
  return r.value.map((a, i) => parseBase64RpcAccount(addrs[i], a));
}
export function decodeAccount(acc, decoder) {
  try {
    if ('exists' in acc && !acc.exists) return acc;
    return Object.freeze({ ...acc, data: decoder.decode(acc.data) });
  } catch {
    throw new SolanaError(3230002, { address: acc.address }, `Failed to decode account data at address ${acc.address}.`);
  }
}
export function assertAccountExists(a) {
  if (!a.exists || ('exists' in a && !a.exists)) throw new SolanaError(3230000, { address: a.address }, `Account not found at address: ${a.address}`);
}
export function assertAccountsExist(l) {
  const m = l.filter((a) => !a.exists);
  if (m.length) throw new SolanaError(32300001, { addresses: m.map((a) => a.address) }, `Accounts not found at addresses: ${m.map((a) => a.address)}`);
}
export function assertAccountDecoded(a) {
  if (!('exists' in a && !a.exists) && a.data instanceof Uint8Array) throw bad(`Expected account [${a.address}] to be decoded.`);
}
