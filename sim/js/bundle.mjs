// Bundles the real JavaScript client, or the real command-line scripts, with the stand-ins
// for their npm dependencies.
//   node bundle.mjs <repo> <out file>              the client
//   node bundle.mjs <repo> <out dir> scripts       one bundle per script
import { createRequire } from 'node:module';
import { dirname, join } from 'node:path';
import { fileURLToPath } from 'node:url';
const here = dirname(fileURLToPath(import.meta.url));
const [repo, out, scripts] = process.argv.slice(2);
const esbuild = createRequire('/opt/veriftools/node/node_modules/package.json')('esbuild');
const kit = join(here, 'kit.mjs');
// The kit and the packages it consists of.
const parts = [
  ...['kit', 'accounts', 'addresses', 'assertions', 'codecs', 'codecs-core', 'codecs-numbers', 'codecs-strings'],
  ...['codecs-data-structures', 'errors', 'functional', 'instructions', 'keys', 'nominal-types', 'options', 'programs'],
  ...['rpc', 'rpc-api', 'rpc-spec', 'rpc-types', 'signers'],
];
const client = join(repo, 'js-client/src/index.ts');
const names = ['stake', 'unstake', 'withdraw', 'initialize', 'set', 'status', 'pending-withdraws', 'transfer-orca', 'transfer-orca-to-vault', 'update-xorca-mint-authority', 'generate-keypair', 'upload-image'];
try {
  await esbuild.build({
    ...(scripts
      ? { entryPoints: names.map((n) => join(repo, `ts-scripts/${n}.ts`)), outdir: out, outExtension: { '.js': '.cjs' } }
      : { entryPoints: [client], outfile: out }),
    bundle: true,
    format: 'cjs',
    platform: 'node',
    target: 'node22',
    tsconfigRaw: {},
    define: scripts ? { 'import.meta.url': '"file:///scripts/x.ts"', 'import.meta.dirname': '"/scripts"' } : {},
    logLevel: 'error',
    logOverride: { 'import-is-undefined': 'error' },
    alias: {
      ...Object.fromEntries(parts.map((p) => [`@solana/${p}`, kit])),
      '@solana-program/token': join(here, 'token.mjs'),
      ...(scripts ? { '@solana/web3.js': join(here, 'web3.mjs'), '@solana/spl-token': join(here, 'spl.mjs'), '@irys/sdk': join(here, 'irys.mjs'), '@orca-so/xorca': client } : {}),
    },
  });
} catch {
  process.exit(2);
}
