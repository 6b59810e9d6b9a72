// Executes snippets against the TypeScript client over a frozen account state.
// stdin: one JSON request per line {state?, ops:[{f, a}]}; stdout: one JSON line with results.
import { createInterface } from 'readline';
import { BN } from 'bn.js';
import Big from 'big.js';
import { PublicKey, TransactionInstruction } from '@solana/web3.js';
import { Program, BorshAccountsCoder, Types, decodeIx, encodeIx, sha8 } from '@coral-xyz/anchor';
import * as i80f48 from '@client/numbers/I80F48';
import * as utils from '@client/utils';
import * as bank from '@client/accounts/bank';
import * as groupMod from '@client/accounts/group';
import * as hc from '@client/accounts/healthCache';
import * as ma from '@client/accounts/mangoAccount';
import * as perp from '@client/accounts/perp';
import * as serum3 from '@client/accounts/serum3';
import * as oracle from '@client/accounts/oracle';
import * as builder from '@client/clientIxParamBuilder';
import * as clientMod from '@client/client';
import * as consts from '@client/constants/index';
import * as idlMod from '@client/mango_v4';
import * as types from '@client/types';
import { b58dec } from './shims/web3';

const log = console.log;
console.log = () => undefined;
console.info = () => undefined;
console.warn = () => undefined;
const realNow = Date.now;

class Conn {
  accts = new Map<string, any>();
  slot = 0;
  commitment = 'processed';
  async getSlot(): Promise<number> {
    return this.slot;
  }
  async getAccountInfo(k: PublicKey): Promise<any> {
    return this.accts.get(k.toBase58()) ?? null;
  }
  async getAccountInfoAndContext(k: PublicKey): Promise<any> {
    return { context: { slot: this.slot }, value: await this.getAccountInfo(k) };
  }
  async getMultipleAccountsInfo(ks: PublicKey[]): Promise<any[]> {
    return Promise.all(ks.map((k) => this.getAccountInfo(k)));
  }
  async getProgramAccounts(pid: PublicKey, o: any): Promise<any[]> {
    const out: any[] = [];
    const fs = ((o && o.filters) || []).map((f: any) => (f.memcmp ? [f.memcmp.offset, b58dec(f.memcmp.bytes)] : [-1, f.dataSize]));
    for (const [k, ai] of this.accts) {
      if (!ai.owner.equals(pid)) continue;
      if (fs.every(([off, b]: any) => (off < 0 ? ai.data.length === b : !b.compare(ai.data.subarray(off, off + b.length))))) out.push({ pubkey: new PublicKey(k), account: ai });
    }
    return out;
  }
  async getMinimumBalanceForRentExemption(n: number): Promise<number> {
    return (n + 128) * 6960;
  }
  async getAddressLookupTable(k: PublicKey): Promise<any> {
    return { value: this.accts.has(k.toBase58()) ? { key: k, state: { addresses: [] } } : null };
  }
}

export const C: any = {
  BN,
  Big,
  PublicKey,
  I80F48: i80f48.I80F48,
  i80f48,
  utils,
  bank,
  groupMod,
  hc,
  ma,
  perp,
  serum3,
  oracle,
  builder,
  consts,
  clientMod,
  types,
  IDL: idlMod.IDL,
  HT: ma.HealthType,
  BorshAccountsCoder,
  sha8,
  N: (x: any) => (x === null || x === undefined ? x : new BN(String(x))),
  I: (x: any) => (x === null || x === undefined ? x : new i80f48.I80F48(new BN(String(x)))),
  K: (x: any) => (x === null || x === undefined ? x : new PublicKey(x)),
};
const idlTypes = new Types(idlMod.IDL);
C.idlTypes = idlTypes;
C.decodeIx = (n: string, d: Buffer) => decodeIx(idlTypes, idlMod.IDL, n, d);
C.encodeIx = (n: string, a: any[]) => encodeIx(idlTypes, idlMod.IDL, n, a);

function out(v: any, seen = 0): any {
  if (seen > 12) return '...';
  if (v === null || v === undefined) return null;
  if (typeof v === 'bigint') return v.toString();
  if (typeof v === 'number') return Number.isFinite(v) ? v : String(v);
  if (typeof v !== 'object') return typeof v === 'function' ? 'fn' : v;
  if (v instanceof BN) return v.toString();
  if (v instanceof i80f48.I80F48) return v.data.toString();
  if (v instanceof PublicKey) return v.toBase58();
  if (v instanceof Big) return v.toFixed();
  if (v instanceof TransactionInstruction) {
    return {
      p: v.programId.toBase58(),
      k: v.keys.map((k: any) => [k.pubkey.toBase58(), k.isWritable ? 1 : 0, k.isSigner ? 1 : 0]),
      d: v.data.toString('hex'),
    };
  }
  if (Buffer.isBuffer(v)) return v.toString('hex');
  if (v instanceof Uint8Array) return Buffer.from(v).toString('hex');
  if (Array.isArray(v)) return v.map((x) => out(x, seen + 1));
  if (v instanceof Map) return Array.from(v.entries()).map((x) => out(x, seen + 1));
  const o: any = {};
  for (const k of Object.keys(v)) o[k] = out(v[k], seen + 1);
  return o;
}

async function load(s: any): Promise<void> {
  const conn = new Conn();
  for (const [k, owner, data, lamports] of s.accounts) {
    conn.accts.set(k, { data: Buffer.from(data, 'base64'), owner: new PublicKey(owner), lamports, executable: false });
  }
  conn.slot = s.slot;
  const ms = s.now * 1000 + 500;
  Date.now = () => ms;
  if (s.serumProgram) (consts.OPENBOOK_PROGRAM_ID as any)['mainnet-beta'] = new PublicKey(s.serumProgram);
  const sent: any[] = [];
  const provider: any = {
    connection: conn,
    wallet: { publicKey: new PublicKey(s.wallet) },
    opts: { commitment: 'processed' },
    sendIxs: async (ixs: any[]) => {
      sent.push(...ixs);
      return 'sig';
    },
  };
  provider.publicKey = provider.wallet.publicKey;
  const pid = new PublicKey(s.program);
  const program = new Program(idlMod.IDL, pid, provider);
  const client: any = new clientMod.MangoClient(program as any, pid, (s.cluster || 'mainnet-beta') as any, {
    idsSource: 'get-program-accounts',
    turnOffPriceImpactLoading: true,
    fallbackOracleConfig: s.fallback || 'never',
  } as any);
  client.sendAndConfirmTransaction = async (ixs: any[]) => {
    sent.push(...ixs);
    return { signature: 'sig' };
  };
  C.sent = sent;
  C.conn = conn;
  C.client = client;
  C.provider = provider;
  C.group = await client.getGroup(new PublicKey(s.group));
  C.accs = [];
  for (const a of s.accs || []) C.accs.push(await client.getMangoAccount(new PublicKey(a), true));
}

const fns = new Map<string, any>();
const AsyncFunction: any = Object.getPrototypeOf(async function () {
  /**/
}).constructor;
async function run(req: any): Promise<any> {
  if (req.state) await load(req.state);
  const r: any[] = [];
  for (const op of req.ops) {
    let f = fns.get(op.f);
    if (!f) {
      f = new AsyncFunction('C', 'a', op.f);
      fns.set(op.f, f);
    }
    try {
      r.push({ ok: out(await f(C, op.a)) });
    } catch (e: any) {
      r.push({ err: process.env.TS_TRACE ? String(e && e.stack) : String((e && e.message) || e) });
    }
  }
  return { r };
}

const rl = createInterface({ input: process.stdin, crlfDelay: Infinity });
let chain: Promise<void> = Promise.resolve();
rl.on('line', (line) => {
  chain = chain.then(async () => {
    let res: any;
    try {
      res = await run(JSON.parse(line));
    } catch (e: any) {
      res = { fatal: String((e && e.stack) || e) };
    }
    process.stdout.write(JSON.stringify(res) + '\n');
  });
});
rl.on('close', () => {
  void chain.then(() => process.exit(0));
});
void log;
void realNow;
