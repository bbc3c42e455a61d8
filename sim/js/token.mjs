// Stand-in for the parts of @solana-program/token that read accounts.
import * as kit from './kit.mjs';
export const TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
export const AccountState = { Uninitialized: 0, Initialized: 1, Frozen: 2, 0: 'Uninitialized', 1: 'Initialized', 2: 'Frozen' };
const opt = (d) => kit.getOptionDecoder(d, { prefix: kit.getU32Decoder(), noneValue: 'zeroes' });
export const getTokenDecoder = () =>
  kit.getStructDecoder([
    ['mint', kit.getAddressDecoder()],
    ['owner', kit.getAddressDecoder()],
    ['amount', kit.getU64Decoder()],
    ['delegate', opt(kit.getAddressDecoder())],
    ['state', kit.getEnumDecoder(AccountState)],
    ['isNative', opt(kit.getU64Decoder())],
    ['delegatedAmount', kit.getU64Decoder()],
    ['closeAuthority', opt(kit.getAddressDecoder())],
  ]);
export const getMintDecoder = () =>
  kit.getStructDecoder([
    ['mintAuthority', opt(kit.getAddressDecoder())],
    ['supply', kit.getU64Decoder()],
    ['decimals', kit.getU8Decoder()],
    ['isInitialized', kit.getBooleanDecoder()],
    ['freezeAuthority', opt(kit.getAddressDecoder())],
  ]);
export const getTokenSize = () => 165;
export const getMintSize = () => 82;
export const decodeToken = (a) => kit.decodeAccount(a, getTokenDecoder());
export const decodeMint = (a) => kit.decodeAccount(a, getMintDecoder());
export async function fetchMaybeToken(rpc, address, config) {
  return decodeToken(await kit.fetchEncodedAccount(rpc, address, config));
}
export async function fetchToken(rpc, address, config) {
  const a = await fetchMaybeToken(rpc, address, config);
  kit.assertAccountExists(a);
  return a;
}
export async function fetchMaybeMint(rpc, address, config) {
  return decodeMint(await kit.fetchEncodedAccount(rpc, address, config));
}
export async function fetchMint(rpc, address, config) {
  const a = await fetchMaybeMint(rpc, address, config);
  kit.assertAccountExists(a);
  return a;
}
export const findAssociatedTokenPda = (s, c = {}) =>
  kit.getProgramDerivedAddress({
    programAddress: c.programAddress ?? ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
    seeds: [s.owner, s.tokenProgram, s.mint].map((x) => kit.getAddressEncoder().encode(x)),
  });
