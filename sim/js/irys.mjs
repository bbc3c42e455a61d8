// A stand-in of @irys/sdk for the upload script; the upload service is part of the simulator.
import { createHash } from 'node:crypto';
import * as fs from 'node:fs';
import { PublicKey } from './web3.mjs';
const hex = (b) => Buffer.from(b).toString('hex');
const HOSTS = { mainnet: 'https://node1.irys.xyz', devnet: 'https://devnet.irys.xyz' };
export default class Irys {
  constructor({ url, network, token, key }) {
    const u = new URL(url ?? HOSTS[network] ?? network);
    if (!token) throw new Error('Unknown/Unsupported token undefined');
    this.api = { config: { url: u } };
    this._to = [u.origin, token, typeof key === 'string' ? hex(new PublicKey(key)._b ?? []) : hex(key)];
  }
  async ready() {
    return this;
  }
  async upload(data, opts) {
    const tags = (opts?.tags ?? []).map((t) => [String(t.name), String(t.value)]);
    const r = await globalThis.__rpc('irysUpload', [...this._to, hex(typeof data === 'string' ? Buffer.from(data) : data), tags]);
    if (typeof r !== 'object' || r === null) throw new Error(`Failed to post transaction - 502: ${r}`);
    return { id: r.id, timestamp: Date.now(), version: '1.0.0', public: createHash('sha256').update(r.id).digest('hex') };
  }
  uploadFile(path, opts) {
    return Promise.resolve().then(() => this.upload(fs.readFileSync(path), opts));
  }
}
export { Irys };
