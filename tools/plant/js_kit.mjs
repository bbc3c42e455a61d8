// A fixed in-memory RPC node for the demonstrations.
import { createRequire } from 'node:module';
import { getAddressEncoder, getProgramDerivedAddress } from './kit.mjs';
export { getProgramDerivedAddress };
export const bs58 = (a) => getAddressEncoder().encode(a);
export const X = createRequire(import.meta.url)(process.argv[2]);
export const accounts = new Map();
export const node = { down: false, requests: [] };
const view = (a) => {
  const x = accounts.get(a);
  return x ? { data: [Buffer.from(x.data).toString('base64'), 'base64'], owner: x.owner, lamports: 1n, executable: false, rentEpoch: 0n, space: BigInt(x.data.length) } : null;
};
const reply = (method, f) => (...p) => ({
  send: async () => {
    node.requests.push([method, ...p]);
    if (node.down) throw new Error('the node is down');
    return { context: { slot: 1n }, value: f(p[0]) };
  },
});
export const rpc = {
  getAccountInfo: reply('getAccountInfo', view),
  getMultipleAccounts: reply('getMultipleAccounts', (l) => {
    if (l.length > 100) throw new Error('Too many inputs provided; max 100');
    return l.map(view);
  }),
};
export const put = (address, owner, data) => accounts.set(address, { owner, data });
export const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const ORCA = 'orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE';
export const XORCA = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N';
export const PROGRAM = X.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS;
export function check(ok, msg) {
  if (!ok) {
    console.log(`FAILED: ${msg}`);
    process.exit(1);
  }
}
const u64 = (d, o, x) => new DataView(d.buffer).setBigUint64(o, BigInt(x), true);
export async function pool({ vault, escrow, supply, cooldown = 60 }) {
  const [state] = await X.findStateAddress();
  const [va] = await X.findVaultAddress(state, TOKEN, ORCA);
  const s = new Uint8Array(2048);
  s[0] = X.AccountDiscriminator.State;
  u64(s, 8, escrow);
  u64(s, 16, cooldown);
  put(state, PROGRAM, s);
  const v = new Uint8Array(165);
  u64(v, 64, vault);
  v[108] = 1;
  put(va, TOKEN, v);
  const m = new Uint8Array(82);
  u64(m, 36, supply);
  m[44] = 6;
  m[45] = 1;
  put(XORCA, TOKEN, m);
  return { state, vault: va };
}
export async function claim(staker, idx, amount = 1, ready = 5) {
  const [address] = await X.findPendingWithdrawAddress(staker, idx);
  const d = new Uint8Array(1024);
  d[0] = X.AccountDiscriminator.PendingWithdraw;
  d[7] = idx;
  u64(d, 40, amount);
  u64(d, 48, ready);
  put(address, PROGRAM, d);
}
