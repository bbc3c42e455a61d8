// Stand-in for @solana/spl-token (not installed here): what command-line scripts use.
import { PublicKey, SystemProgram, TransactionInstruction, Transaction, sendAndConfirmTransaction } from './web3.mjs';
export const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
export const TOKEN_2022_PROGRAM_ID = new PublicKey('TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb');
export const ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
export const NATIVE_MINT = new PublicKey('So11111111111111111111111111111111111111112');
export const ACCOUNT_SIZE = 165;
export const MINT_SIZE = 82;
const err = (name) =>
  class extends Error {
    constructor(m) {
      super(m);
      this.name = name;
    }
  };
export const TokenError = err('TokenError');
export const TokenAccountNotFoundError = err('TokenAccountNotFoundError');
export const TokenInvalidAccountError = err('TokenInvalidAccountError');
export const TokenInvalidAccountOwnerError = err('TokenInvalidAccountOwnerError');
export const TokenInvalidAccountSizeError = err('TokenInvalidAccountSizeError');
export const TokenOwnerOffCurveError = err('TokenOwnerOffCurveError');
export const AccountState = { Uninitialized: 0, Initialized: 1, Frozen: 2, 0: 'Uninitialized', 1: 'Initialized', 2: 'Frozen' };
export const AuthorityType = { MintTokens: 0, FreezeAccount: 1, AccountOwner: 2, CloseAccount: 3, 0: 'MintTokens', 1: 'FreezeAccount', 2: 'AccountOwner', 3: 'CloseAccount' };
export const TokenInstruction = { Transfer: 3, SetAuthority: 6, MintTo: 7, Burn: 8, CloseAccount: 9, TransferChecked: 12 };

export function getAssociatedTokenAddressSync(mint, owner, allowOwnerOffCurve = false, programId = TOKEN_PROGRAM_ID, ataProgramId = ASSOCIATED_TOKEN_PROGRAM_ID) {
  if (!allowOwnerOffCurve && !PublicKey.isOnCurve(owner.toBuffer())) throw new TokenOwnerOffCurveError();
  return PublicKey.findProgramAddressSync([owner.toBuffer(), programId.toBuffer(), mint.toBuffer()], ataProgramId)[0];
}
export const getAssociatedTokenAddress = async (...a) => getAssociatedTokenAddressSync(...a);
const meta = (pubkey, isSigner, isWritable) => ({ pubkey, isSigner, isWritable });
const createAta = (data) => (payer, ata, owner, mint, programId = TOKEN_PROGRAM_ID, ataProgramId = ASSOCIATED_TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({
    keys: [meta(payer, true, true), meta(ata, false, true), meta(owner, false, false), meta(mint, false, false), meta(SystemProgram.programId, false, false), meta(programId, false, false)],
    programId: ataProgramId,
    data,
  });
export const createAssociatedTokenAccountInstruction = createAta(Buffer.alloc(0));
export const createAssociatedTokenAccountIdempotentInstruction = createAta(Buffer.from([1]));
const signers = (keys, owner, multi) => {
  if (multi.length) {
    keys.push(meta(owner, false, false));
    for (const s of multi) keys.push(meta(s instanceof PublicKey ? s : s.publicKey, true, false));
  } else keys.push(meta(owner, true, false));
  return keys;
};
const num = (disc, amount, tail = []) => {
  const b = Buffer.alloc(9);
  b[0] = disc;
  b.writeBigUInt64LE(BigInt(amount), 1);
  return Buffer.concat([b, Buffer.from(tail)]);
};
export function createTransferInstruction(source, destination, owner, amount, multiSigners = [], programId = TOKEN_PROGRAM_ID) {
  const keys = signers([meta(source, false, true), meta(destination, false, true)], owner, multiSigners);
  return new TransactionInstruction({ keys, programId, data: num(TokenInstruction.Transfer, amount) });
}
export function createTransferCheckedInstruction(source, mint, destination, owner, amount, decimals, multiSigners = [], programId = TOKEN_PROGRAM_ID) {
  const keys = signers([meta(source, false, true), meta(mint, false, false), meta(destination, false, true)], owner, multiSigners);
  return new TransactionInstruction({ keys, programId, data: num(TokenInstruction.TransferChecked, amount, [decimals]) });
}
export function createSetAuthorityInstruction(account, current, type, next, multiSigners = [], programId = TOKEN_PROGRAM_ID) {
  const keys = signers([meta(account, false, true)], current, multiSigners);
  const data = Buffer.concat([Buffer.from([TokenInstruction.SetAuthority, type, next ? 1 : 0]), next ? next.toBuffer() : Buffer.alloc(0)]);
  return new TransactionInstruction({ keys, programId, data });
}

const key = (d, o) => new PublicKey(d.subarray(o, o + 32));
const optKey = (d, o) => (d.readUInt32LE(o) ? key(d, o + 4) : null);
function check(info, size, programId) {
  if (!info) throw new TokenAccountNotFoundError();
  if (!info.owner.equals(programId)) throw new TokenInvalidAccountOwnerError();
  if (info.data.length < size) throw new TokenInvalidAccountSizeError();
}
export function unpackAccount(address, info, programId = TOKEN_PROGRAM_ID) {
  check(info, ACCOUNT_SIZE, programId);
  const d = Buffer.from(info.data);
  const state = d[108];
  return {
    address,
    mint: key(d, 0),
    owner: key(d, 32),
    amount: d.readBigUInt64LE(64),
    delegate: optKey(d, 72),
    delegatedAmount: d.readBigUInt64LE(121),
    isInitialized: state !== 0,
    isFrozen: state === 2,
    isNative: !!d.readUInt32LE(109),
    rentExemptReserve: d.readUInt32LE(109) ? d.readBigUInt64LE(113) : null,
    closeAuthority: optKey(d, 129),
    tlvData: Buffer.alloc(0),
  };
}
export function unpackMint(address, info, programId = TOKEN_PROGRAM_ID) {
  check(info, MINT_SIZE, programId);
  const d = Buffer.from(info.data);
  return {
    address,
    mintAuthority: optKey(d, 0),
    supply: d.readBigUInt64LE(36),
    decimals: d[44],
    isInitialized: d[45] === 1,
    freezeAuthority: optKey(d, 46),
    tlvData: Buffer.alloc(0),
  };
}
export async function getAccount(connection, address, commitment, programId = TOKEN_PROGRAM_ID) {
  return unpackAccount(address, await connection.getAccountInfo(address, commitment), programId);
}
export async function getMultipleAccounts(connection, addresses, commitment, programId = TOKEN_PROGRAM_ID) {
  const infos = await connection.getMultipleAccountsInfo(addresses, commitment);
  return addresses.map((a, i) => unpackAccount(a, infos[i], programId));
}
export async function getMint(connection, address, commitment, programId = TOKEN_PROGRAM_ID) {
  return unpackMint(address, await connection.getAccountInfo(address, commitment), programId);
}
export async function getOrCreateAssociatedTokenAccount(connection, payer, mint, owner, allowOwnerOffCurve = false, commitment, options, programId = TOKEN_PROGRAM_ID, ataProgramId = ASSOCIATED_TOKEN_PROGRAM_ID) {
  const ata = getAssociatedTokenAddressSync(mint, owner, allowOwnerOffCurve, programId, ataProgramId);
  try {
    return await getAccount(connection, ata, commitment, programId);
  } catch (e) {
    if (!(e instanceof TokenAccountNotFoundError || e instanceof TokenInvalidAccountOwnerError)) throw e;
    const tx = new Transaction().add(createAssociatedTokenAccountInstruction(payer.publicKey, ata, owner, mint, programId, ataProgramId));
    await sendAndConfirmTransaction(connection, tx, [payer], options);
    return getAccount(connection, ata, commitment, programId);
  }
}
// Layouts, for scripts that decode by hand.
export const AccountLayout = { span: ACCOUNT_SIZE, decode: (d) => { const a = unpackAccount(null, { owner: TOKEN_PROGRAM_ID, data: d }); return { ...a, state: d[108] }; } };
export const MintLayout = { span: MINT_SIZE, decode: (d) => unpackMint(null, { owner: TOKEN_PROGRAM_ID, data: d }) };
