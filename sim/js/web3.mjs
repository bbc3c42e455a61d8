// Stand-in for @solana/web3.js (version 1), which is not installed here: the part of it
// that command-line scripts use.  Requests leave through globalThis.__rpc (the simulator).
import { createHash } from 'node:crypto';
import { compressedPointBytesAreOnCurve, getBase58Encoder, getBase58Decoder } from './kit.mjs';
const b58enc = (s) => getBase58Encoder().encode(s);
const b58dec = (b) => getBase58Decoder().decode(b);
const MEMO = (globalThis.__web3pda ??= new Map());

export const LAMPORTS_PER_SOL = 1000000000;
export const PACKET_DATA_SIZE = 1232;
export const MAX_SEED_LENGTH = 32;

export class PublicKey {
  constructor(v) {
    let b;
    if (v instanceof PublicKey) b = v._b;
    else if (typeof v === 'string') {
      try {
        b = b58enc(v);
      } catch {
        throw new Error('Non-base58 character');
      }
      if (b.length !== 32) throw new Error('Invalid public key input');
    } else if (typeof v === 'number' || typeof v === 'bigint') {
      b = new Uint8Array(32);
      let n = BigInt(v);
      for (let i = 31; i >= 0; i--, n >>= 8n) b[i] = Number(n & 255n);
    } else {
      if (v?.length > 32) throw new Error('Invalid public key input');
      b = new Uint8Array(32);
      b.set(Uint8Array.from(v), 32 - v.length);
    }
    this._b = Uint8Array.from(b);
  }
  static unique() {
    PublicKey._n = (PublicKey._n ?? 0) + 1;
    return new PublicKey(PublicKey._n);
  }
  equals(o) {
    return this._b.every((x, i) => x === o._b[i]);
  }
  toBytes() {
    return new Uint8Array(this._b);
  }
  toBuffer() {
    return Buffer.from(this._b);
  }
  toBase58() {
    return (this._s ??= b58dec(this._b));
  }
  toString() {
    return this.toBase58();
  }
  toJSON() {
    return this.toBase58();
  }
  get [Symbol.toStringTag]() {
    return `PublicKey(${this.toString()})`;
  }
  static isOnCurve(k) {
    return compressedPointBytesAreOnCurve(new PublicKey(k)._b);
  }
  static createProgramAddressSync(seeds, programId) {
    const h = createHash('sha256');
    for (const s of seeds) {
      if (s.length > MAX_SEED_LENGTH) throw new TypeError('Max seed length exceeded');
      h.update(s);
    }
    h.update(programId._b);
    h.update('ProgramDerivedAddress');
    const d = new Uint8Array(h.digest());
    if (compressedPointBytesAreOnCurve(d)) throw new Error('Invalid seeds, address must fall off the curve');
    return new PublicKey(d);
  }
  static async createProgramAddress(s, p) {
    return PublicKey.createProgramAddressSync(s, p);
  }
  static findProgramAddressSync(seeds, programId) {
    const key = programId.toBase58() + '|' + seeds.map((s) => Buffer.from(s).toString('hex')).join('|');
    let hit = MEMO.get(key);
    if (!hit) {
      for (let bump = 255; bump > 0 && !hit; bump--) {
        try {
          hit = [PublicKey.createProgramAddressSync(seeds.concat(Buffer.from([bump])), programId), bump];
        } catch (e) {
          if (e instanceof TypeError) throw e;
        }
      }
      if (!hit) throw new Error('Unable to find a viable program address nonce');
      hit = [hit[0].toBase58(), hit[1]];
      if (MEMO.size > 100000) MEMO.clear();
      MEMO.set(key, hit);
    }
    return [new PublicKey(hit[0]), hit[1]];
  }
  static async findProgramAddress(s, p) {
    return PublicKey.findProgramAddressSync(s, p);
  }
}
PublicKey.default = new PublicKey('11111111111111111111111111111111');

// A key pair is what its file says it is: the simulator has no private keys, it knows
// which public key belongs to which seed (globalThis.__pairs, hex to hex).
const publicOf = (seed) => {
  const known = globalThis.__pairs?.get(Buffer.from(seed).toString('hex'));
  return known ? Uint8Array.from(Buffer.from(known, 'hex')) : new Uint8Array(createHash('sha256').update(seed).digest());
};
export class Keypair {
  constructor(pair) {
    this._pair = pair ?? (() => {
      const seed = new Uint8Array(createHash('sha256').update(String(Math.random())).digest());
      return { publicKey: publicOf(seed), secretKey: seed };
    })();
  }
  static generate() {
    return new Keypair();
  }
  static fromSecretKey(secretKey, options) {
    if (secretKey.byteLength !== 64) throw new Error('bad secret key size');
    const publicKey = secretKey.slice(32, 64);
    if (!options || !options.skipValidation) {
      const computed = publicOf(secretKey.slice(0, 32));
      for (let i = 0; i < 32; i++) if (publicKey[i] !== computed[i]) throw new Error('provided secretKey is invalid');
    }
    return new Keypair({ publicKey, secretKey });
  }
  static fromSeed(seed) {
    const publicKey = publicOf(seed);
    const secretKey = new Uint8Array(64);
    secretKey.set(seed);
    secretKey.set(publicKey, 32);
    return new Keypair({ publicKey, secretKey });
  }
  get publicKey() {
    return new PublicKey(this._pair.publicKey);
  }
  get secretKey() {
    return new Uint8Array(this._pair.secretKey);
  }
}

export class TransactionInstruction {
  constructor(o) {
    this.data = Buffer.alloc(0);
    this.programId = o.programId;
    this.keys = o.keys;
    if (o.data) this.data = o.data;
  }
}
export class Transaction {
  constructor(o) {
    this.signatures = [];
    this.instructions = [];
    if (!o) return;
    if (o.feePayer) this.feePayer = o.feePayer;
    if (o.signatures) this.signatures = o.signatures;
    this.recentBlockhash = o.blockhash ?? o.recentBlockhash;
    this.lastValidBlockHeight = o.lastValidBlockHeight;
  }
  get signature() {
    return this.signatures.length > 0 ? this.signatures[0].signature : null;
  }
  add(...items) {
    if (items.length === 0) throw new Error('No instructions');
    for (const i of items) {
      if ('instructions' in i) this.instructions = this.instructions.concat(i.instructions);
      else if ('data' in i && 'programId' in i && 'keys' in i) this.instructions.push(i);
      else this.instructions.push(new TransactionInstruction(i));
    }
    return this;
  }
  _payer() {
    const p = this.feePayer ?? this.signatures[0]?.publicKey;
    if (!p) throw new Error('Transaction fee payer required');
    return p;
  }
  _needed() {
    const out = [this._payer().toBase58()];
    for (const ix of this.instructions) for (const k of ix.keys) if (k.isSigner && !out.includes(k.pubkey.toBase58())) out.push(k.pubkey.toBase58());
    return out;
  }
  _message() {
    if (!this.recentBlockhash) throw new Error('Transaction recentBlockhash required');
    if (this.instructions.length < 1) console.warn('No instructions provided');
    for (let i = 0; i < this.instructions.length; i++)
      if (this.instructions[i].programId === undefined) throw new Error(`Transaction instruction index ${i} has undefined program id`);
    return {
      payer: this._payer().toBase58(),
      blockhash: this.recentBlockhash,
      ixs: this.instructions.map((ix) => ({
        program: ix.programId.toBase58(),
        accounts: ix.keys.map((k) => [k.pubkey.toBase58(), !!k.isSigner, !!k.isWritable]),
        data: Buffer.from(ix.data).toString('hex'),
      })),
    };
  }
  setSigners() {}
  sign(...signers) {
    if (signers.length === 0) throw new Error('No signers');
    const uniq = [...new Map(signers.map((s) => [s.publicKey.toBase58(), s])).values()];
    this.signatures = uniq.map((s) => ({ publicKey: s.publicKey, signature: null }));
    this.partialSign(...uniq);
  }
  partialSign(...signers) {
    const needed = this._needed();
    const digest = createHash('sha512').update(JSON.stringify(this._message()));
    const mark = digest.digest();
    for (const s of signers) {
      const who = s.publicKey.toBase58();
      if (!needed.includes(who)) throw new Error(`unknown signer: ${who}`);
      const sig = createHash('sha512').update(mark).update(who).digest();
      const slot = this.signatures.find((x) => x.publicKey.toBase58() === who);
      if (slot) slot.signature = sig;
      else this.signatures.push({ publicKey: s.publicKey, signature: sig });
    }
    this.signatures.sort((a, b) => needed.indexOf(a.publicKey.toBase58()) - needed.indexOf(b.publicKey.toBase58()));
    this._signed = JSON.stringify(this._message());
  }
  serialize() {
    const msg = this._message();
    const have = this.signatures.filter((s) => s.signature).map((s) => s.publicKey.toBase58());
    const lacking = this._needed().filter((k) => !have.includes(k));
    if (lacking.length) throw new Error(`Signature verification failed.\nMissing signature for public key${lacking.length > 1 ? 's' : ''} [\`${lacking.join('`, `')}\`].`);
    if (JSON.stringify(msg) !== this._signed) throw new Error('Signature verification failed.');
    return Buffer.from(JSON.stringify({ ...msg, signers: have, sig: b58dec(new Uint8Array(this.signature)) }));
  }
}
export class TransactionExpiredBlockheightExceededError extends Error {
  constructor(signature) {
    super(`Signature ${signature} has expired: block height exceeded.`);
    this.signature = signature;
    this.name = 'TransactionExpiredBlockheightExceededError';
  }
}
export class TransactionExpiredTimeoutError extends Error {
  constructor(signature, s) {
    super(`Transaction was not confirmed in ${s.toFixed(2)} seconds. It is unknown if it succeeded or failed. Check signature ${signature} using the Solana Explorer or CLI tools.`);
    this.signature = signature;
    this.name = 'TransactionExpiredTimeoutError';
  }
}
export class SendTransactionError extends Error {
  constructor({ action, signature, transactionMessage, logs }) {
    const l = logs ? `Logs: \n${JSON.stringify(logs.slice(-10), null, 2)}. ` : '';
    const guide = '\nCatch the `SendTransactionError` and call `getLogs()` on it for full details.';
    super(
      action === 'send'
        ? `Transaction ${signature} resulted in an error. \n${transactionMessage}. ` + l + guide
        : `Simulation failed. \nMessage: ${transactionMessage}. \n` + l + guide
    );
    this.signature = signature;
    this.transactionMessage = transactionMessage;
    this.transactionLogs = logs;
  }
  get logs() {
    return this.transactionLogs;
  }
  async getLogs() {
    return this.transactionLogs;
  }
}
export class SolanaJSONRPCError extends Error {
  constructor({ code, message, data }, custom) {
    super(custom != null ? `${custom}: ${message}` : message);
    this.code = code;
    this.data = data;
    this.name = 'SolanaJSONRPCError';
  }
}

const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
const level = (c) => (typeof c === 'string' ? c : c?.commitment);
const RANK = { processed: 1, recent: 1, confirmed: 2, single: 2, singleGossip: 2, finalized: 3, max: 3, root: 3 };
const ok = (s, c) => s.err !== null || (RANK[s.confirmationStatus] ?? 1) >= (RANK[c] ?? 1);
export class Connection {
  constructor(endpoint, cfg) {
    if (!/^https?:/.test(endpoint)) throw new TypeError('Endpoint URL must start with `http:` or `https:`.');
    this.rpcEndpoint = endpoint;
    this.commitment = level(cfg);
  }
  async _send(method, params, what) {
    for (let wait = 500, left = 5; ; wait *= 2, left--) {
      try {
        return await globalThis.__rpc(method, params);
      } catch (e) {
        if (left > 0 && e.context?.rate) {
          console.error(`Server responded with 429 Too Many Requests.  Retrying after ${wait}ms delay...`);
          await sleep(wait);
          continue;
        }
        if (typeof e.context?.__code === 'number' && e.context.__code < 0) throw new SolanaJSONRPCError({ code: e.context.__code, message: e.message, data: e.context.data }, what);
        throw e;
      }
    }
  }
  _args(keys, cfg, encoding) {
    const { commitment, ...rest } = typeof cfg === 'object' && cfg ? cfg : { commitment: cfg };
    const o = { ...(encoding ? { encoding } : {}), ...(commitment ?? this.commitment ? { commitment: commitment ?? this.commitment } : {}), ...rest };
    return [...keys, o];
  }
  _account(a) {
    return a && { executable: a.executable, owner: new PublicKey(a.owner), lamports: a.lamports, rentEpoch: a.rentEpoch, data: Array.isArray(a.data) ? Buffer.from(a.data[0], 'base64') : a.data };
  }
  async getAccountInfoAndContext(k, cfg) {
    const r = await this._send('getAccountInfo', this._args([k.toBase58()], cfg, 'base64'), `failed to get info about account ${k}`);
    return { context: r.context, value: this._account(r.value) };
  }
  async getAccountInfo(k, cfg) {
    return (await this.getAccountInfoAndContext(k, cfg)).value;
  }
  async getParsedAccountInfo(k, cfg) {
    const r = await this._send('getAccountInfo', this._args([k.toBase58()], cfg, 'jsonParsed'), `failed to get info about account ${k}`);
    return { context: r.context, value: this._account(r.value) };
  }
  async getMultipleAccountsInfoAndContext(ks, cfg) {
    const r = await this._send('getMultipleAccounts', this._args([ks.map((k) => k.toBase58())], cfg, 'base64'), `failed to get info for accounts ${ks}`);
    return { context: r.context, value: r.value.map((a) => this._account(a)) };
  }
  async getMultipleAccountsInfo(ks, cfg) {
    return (await this.getMultipleAccountsInfoAndContext(ks, cfg)).value;
  }
  async getMultipleParsedAccounts(ks, cfg) {
    const r = await this._send('getMultipleAccounts', this._args([ks.map((k) => k.toBase58())], cfg, 'jsonParsed'), `failed to get info for accounts ${ks}`);
    return { context: r.context, value: r.value.map((a) => this._account(a)) };
  }
  async getProgramAccounts(p, cfg) {
    const r = await this._send('getProgramAccounts', this._args([p.toBase58()], cfg, 'base64'), `failed to get accounts owned by program ${p}`);
    return (r.value ?? r).map((x) => ({ pubkey: new PublicKey(x.pubkey), account: this._account(x.account) }));
  }
  async getTokenAccountBalance(k, c) {
    return this._send('getTokenAccountBalance', this._args([k.toBase58()], c), 'failed to get token account balance');
  }
  async getTokenSupply(k, c) {
    return this._send('getTokenSupply', this._args([k.toBase58()], c), 'failed to get token supply');
  }
  async getBalance(k, c) {
    return (await this._send('getBalance', this._args([k.toBase58()], c), `failed to get balance of account ${k}`)).value;
  }
  async getSlot(c) {
    return this._send('getSlot', this._args([], c), 'failed to get slot');
  }
  async getBlockHeight(c) {
    return this._send('getBlockHeight', this._args([], c), 'failed to get block height information');
  }
  async getMinimumBalanceForRentExemption(n, c) {
    return this._send('getMinimumBalanceForRentExemption', [n, ...this._args([], c)]);
  }
  async getLatestBlockhashAndContext(c) {
    return this._send('getLatestBlockhash', this._args([], c), 'failed to get recent blockhash');
  }
  async getLatestBlockhash(c) {
    return (await this.getLatestBlockhashAndContext(c)).value;
  }
  async getSignatureStatuses(sigs, cfg) {
    return this._send('getSignatureStatuses', [sigs, ...(cfg ? [cfg] : [])], 'failed to get signature status');
  }
  async getSignatureStatus(sig, cfg) {
    const { context, value } = await this.getSignatureStatuses([sig], cfg);
    return { context, value: value[0] };
  }
  async sendEncodedTransaction(text, options) {
    return this._raw(JSON.parse(Buffer.from(text, 'base64').toString()), options);
  }
  async sendRawTransaction(raw, options) {
    return this._raw(JSON.parse(Buffer.from(raw).toString()), options);
  }
  async _raw(tx, options) {
    const skipPreflight = !!options?.skipPreflight;
    try {
      return await this._send('sendTransaction', [tx, { encoding: 'base64', skipPreflight, preflightCommitment: options?.preflightCommitment ?? this.commitment }]);
    } catch (e) {
      if (!(e instanceof SolanaJSONRPCError)) throw e;
      throw new SendTransactionError({ action: skipPreflight ? 'send' : 'simulate', signature: '', transactionMessage: e.message, logs: e.data?.logs });
    }
  }
  async sendTransaction(transaction, signers, options) {
    if (signers === undefined || !Array.isArray(signers)) throw new Error('Invalid arguments');
    const bh = await this.getLatestBlockhash('finalized');
    transaction.lastValidBlockHeight = bh.lastValidBlockHeight;
    transaction.recentBlockhash = bh.blockhash;
    transaction.sign(...signers);
    return this.sendRawTransaction(transaction.serialize(), options);
  }
  async confirmTransaction(strategy, commitment) {
    const signature = typeof strategy === 'string' ? strategy : strategy.signature;
    const want = commitment ?? this.commitment;
    for (let i = 0; ; i++) {
      try {
        const r = await this.getSignatureStatus(signature);
        if (r.value && ok(r.value, want)) return { context: r.context, value: { err: r.value.err } };
      } catch {}
      if (typeof strategy === 'string') {
        if (i >= 60) throw new TransactionExpiredTimeoutError(signature, 60);
      } else {
        let height = -1;
        try {
          height = await this.getBlockHeight(want);
        } catch {}
        if (height > strategy.lastValidBlockHeight) throw new TransactionExpiredBlockheightExceededError(signature);
      }
      await sleep(1000);
    }
  }
  async simulateTransaction(tx) {
    return this._send('simulateTransaction', [JSON.parse(Buffer.from(tx.serialize()).toString()), {}]);
  }
}
const judge = async (connection, signature, strategy, commitment) => {
  const status = (await connection.confirmTransaction(strategy, commitment)).value;
  if (status.err) throw new SendTransactionError({ action: 'send', signature, transactionMessage: `Status: (${JSON.stringify(status)})` });
  return signature;
};
export async function sendAndConfirmTransaction(connection, transaction, signers, options) {
  const opts = options && { skipPreflight: options.skipPreflight, preflightCommitment: options.preflightCommitment || options.commitment, maxRetries: options.maxRetries };
  const signature = await connection.sendTransaction(transaction, signers, opts);
  return judge(connection, signature, { signature, blockhash: transaction.recentBlockhash, lastValidBlockHeight: transaction.lastValidBlockHeight }, options?.commitment);
}
export async function sendAndConfirmRawTransaction(connection, raw, strategy, options) {
  if (typeof strategy !== 'object' || !('signature' in strategy)) [strategy, options] = [undefined, strategy];
  const opts = options && { skipPreflight: options.skipPreflight, preflightCommitment: options.preflightCommitment || options.commitment };
  const signature = await connection.sendRawTransaction(raw, opts);
  return judge(connection, signature, strategy ?? signature, options?.commitment);
}
const layout = (program, n, parts) => {
  const data = Buffer.alloc(4 + parts.length * 8);
  data.writeUInt32LE(n, 0);
  parts.forEach((x, i) => data.writeBigUInt64LE(BigInt(x), 4 + i * 8));
  return { programId: program, data };
};
export class SystemProgram {
  static programId = new PublicKey('11111111111111111111111111111111');
  static transfer({ fromPubkey, toPubkey, lamports }) {
    return new TransactionInstruction({
      ...layout(SystemProgram.programId, 2, [lamports]),
      keys: [
        { pubkey: fromPubkey, isSigner: true, isWritable: true },
        { pubkey: toPubkey, isSigner: false, isWritable: true },
      ],
    });
  }
}
export class ComputeBudgetProgram {
  static programId = new PublicKey('ComputeBudget111111111111111111111111111111');
  static setComputeUnitLimit({ units }) {
    const data = Buffer.alloc(5);
    data.writeUInt8(2, 0);
    data.writeUInt32LE(units, 1);
    return new TransactionInstruction({ keys: [], programId: ComputeBudgetProgram.programId, data });
  }
  static setComputeUnitPrice({ microLamports }) {
    const data = Buffer.alloc(9);
    data.writeUInt8(3, 0);
    data.writeBigUInt64LE(BigInt(microLamports), 1);
    return new TransactionInstruction({ keys: [], programId: ComputeBudgetProgram.programId, data });
  }
}
export const SYSVAR_RENT_PUBKEY = new PublicKey('SysvarRent111111111111111111111111111111111');
export const SYSVAR_CLOCK_PUBKEY = new PublicKey('SysvarC1ock11111111111111111111111111111111');
export const clusterApiUrl = (c) => `https://api.${c ?? 'devnet'}.solana.com`;
