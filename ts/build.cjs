// usage: node build.cjs <client src dir> <out.js>
const path = require('path');
const esb = '/opt/veriftools/node/node_modules/esbuild';
const esbuild = require(esb);
const [src, out] = process.argv.slice(2);
const S = (f) => path.join(__dirname, 'shims', f);
const map = {
  'bn.js': 'bn.ts',
  'big.js': 'big.ts',
  '@solana/web3.js': 'web3.ts',
  '@coral-xyz/anchor': 'anchor.ts',
  '@coral-xyz/anchor/dist/cjs/utils/bytes': 'utf8.ts',
  '@solana/spl-token': 'spl.ts',
  '@project-serum/serum': 'serum.ts',
  '@project-serum/serum/lib/market': 'serum.ts',
  bs58: 'misc.ts',
  'fast-copy': 'copy.ts',
};
for (const f of ['uniq', 'range', 'maxBy', 'mapValues', 'groupBy', 'chunk', 'merge']) map['lodash/' + f] = `lodash_${f}.ts`;
const builtin = new Set(require('module').builtinModules);
esbuild
  .build({
    entryPoints: [path.join(__dirname, 'server.ts')],
    bundle: true,
    platform: 'node',
    format: 'cjs',
    target: 'node20',
    outfile: out,
    logLevel: 'error',
    tsconfigRaw: { compilerOptions: { target: 'es2022', useDefineForClassFields: true } },
    plugins: [
      {
        name: 'shims',
        setup(b) {
          b.onResolve({ filter: /^@client\// }, (a) => ({ path: require.resolve(path.join(src, a.path.slice(8) + '.ts')) }));
          b.onResolve({ filter: /^[^./]/ }, (a) => {
            if (a.kind === 'entry-point') return undefined;
            if (map[a.path]) return { path: S(map[a.path]) };
            if (builtin.has(a.path) || a.path.startsWith('node:')) return { path: a.path, external: true };
            return { path: S('stub.cjs') };
          });
        },
      },
    ],
  })
  .catch((e) => {
    console.error(String(e));
    process.exit(1);
  });
