// Stand-in for the parts of @coral-xyz/anchor 0.29 that work without a network: Borsh (de)coding
// of accounts, types and instructions from the client's IDL, account resolution, method builder.
import { createHash } from 'crypto';
import { BN } from './bn';
import { b58dec, b58enc, PublicKey, SystemProgram, SYSVAR_CLOCK_PUBKEY, SYSVAR_RENT_PUBKEY, TransactionInstruction } from './web3';
export { BN };
const camel = (s: string): string => {
  s = s.replace(/_+([a-zA-Z0-9])/g, (_m, c) => c.toUpperCase());
  return s[0].toLowerCase() + s.slice(1);
};
const pascal = (s: string): string => {
  s = camel(s);
  return s[0].toUpperCase() + s.slice(1);
};
const snake = (s: string): string =>
  s
    .replace(/([a-z0-9])([A-Z])/g, '$1_$2')
    .replace(/([A-Z]+)([A-Z][a-z])/g, '$1_$2')
    .replace(/([a-zA-Z])([0-9]+)(?=[A-Z_]|$)/g, '$1$2')
    .toLowerCase();
export const sha8 = (s: string): Buffer => createHash('sha256').update(s).digest().subarray(0, 8);
const W: any = { u8: 1, i8: 1, u16: 2, i16: 2, u32: 4, i32: 4, u64: 8, i64: 8, u128: 16, i128: 16 };
class Rd {
  p = 0;
  constructor(public b: Buffer) {}
  take(n: number): Buffer {
    if (this.p + n > this.b.length) throw new RangeError('buffer too short');
    const r = this.b.subarray(this.p, this.p + n);
    this.p += n;
    return r;
  }
}
export class Types {
  map = new Map<string, any>();
  typeLayouts: any;
  constructor(public idl: any) {
    for (const t of [...(idl.accounts || []), ...(idl.types || [])]) {
      this.map.set(t.name, t.type);
      this.map.set(pascal(t.name), t.type);
    }
    const self = this;
    this.typeLayouts = {
      get(n: string): any {
        if (!self.map.has(n)) return undefined;
        // the client cuts order nodes 8 (reserved) bytes short; nothing it shows lies there
        return { decode: (b: any) => self.dec({ defined: n }, new Rd(Buffer.concat([Buffer.from(b), Buffer.alloc(8)]))), span: -1 };
      },
    };
  }
  dec(t: any, r: Rd): any {
    if (typeof t === 'string') {
      switch (t) {
        case 'bool':
          return r.take(1)[0] === 1;
        case 'u8':
          return r.take(1)[0];
        case 'i8':
          return r.take(1).readInt8();
        case 'u16':
          return r.take(2).readUInt16LE();
        case 'i16':
          return r.take(2).readInt16LE();
        case 'u32':
          return r.take(4).readUInt32LE();
        case 'i32':
          return r.take(4).readInt32LE();
        case 'u64':
        case 'u128':
          return new BN(r.take(W[t]), 'le');
        case 'i64':
        case 'i128':
          return new BN(r.take(W[t]), 'le').fromTwos(W[t] * 8);
        case 'f32':
          return r.take(4).readFloatLE();
        case 'f64':
          return r.take(8).readDoubleLE();
        case 'publicKey':
          return new PublicKey(r.take(32));
        case 'string':
          return r.take(r.take(4).readUInt32LE()).toString('utf8');
        case 'bytes':
          return Buffer.from(r.take(r.take(4).readUInt32LE()));
      }
      throw new Error('type ' + t);
    }
    if (t.option !== undefined) return r.take(1)[0] ? this.dec(t.option, r) : null;
    if (t.vec !== undefined) {
      const n = r.take(4).readUInt32LE();
      const o: any[] = [];
      for (let i = 0; i < n; i++) o.push(this.dec(t.vec, r));
      return o;
    }
    if (t.array !== undefined) {
      if (t.array[0] === 'u8') return Array.from(r.take(t.array[1]));
      const o: any[] = [];
      for (let i = 0; i < t.array[1]; i++) o.push(this.dec(t.array[0], r));
      return o;
    }
    if (t.defined !== undefined) {
      const d = this.map.get(t.defined);
      if (!d) throw new Error('undefined type ' + t.defined);
      if (d.kind === 'struct') {
        const o: any = {};
        for (const f of d.fields) o[camel(f.name)] = this.dec(f.type, r);
        return o;
      }
      const v = d.variants[r.take(1)[0]];
      if (!v) throw new Error('bad variant of ' + t.defined);
      const o: any = {};
      for (const [i, f] of (v.fields || []).entries()) {
        if (f.name) o[camel(f.name)] = this.dec(f.type, r);
        else o[i] = this.dec(f, r);
      }
      return { [camel(v.name)]: o };
    }
    throw new Error('type ' + JSON.stringify(t));
  }
  enc(t: any, v: any, out: Buffer[]): void {
    if (typeof t === 'string') {
      if (W[t] !== undefined) {
        const signed = t[0] === 'i';
        const w = W[t];
        if (w <= 4 && typeof v !== 'number') throw new TypeError('"value" argument is out of bounds');
        if (w > 4 && !(v instanceof BN)) throw new TypeError('src.toTwos is not a function');
        let n: bigint;
        if (w <= 4) {
          if (!Number.isInteger(v)) throw new RangeError('not an integer: ' + v);
          n = BigInt(v);
        } else n = v.n;
        const lo = signed ? -(1n << BigInt(w * 8 - 1)) : 0n;
        const hi = signed ? (1n << BigInt(w * 8 - 1)) - 1n : (1n << BigInt(w * 8)) - 1n;
        if (n < lo || n > hi) throw new RangeError('The value of "value" is out of range: ' + n + ' for ' + t);
        out.push(new BN(BigInt.asUintN(w * 8, n) as any).toArrayLike(Buffer, 'le', w));
        return;
      }
      const b = Buffer.alloc(8);
      switch (t) {
        case 'bool':
          out.push(Buffer.from([v ? 1 : 0]));
          return;
        case 'f32':
          if (typeof v !== 'number') throw new TypeError('f32 expected');
          b.writeFloatLE(v);
          out.push(b.subarray(0, 4));
          return;
        case 'f64':
          if (typeof v !== 'number') throw new TypeError('f64 expected');
          b.writeDoubleLE(v);
          out.push(b);
          return;
        case 'publicKey':
          out.push(v.toBuffer());
          return;
        case 'string':
        case 'bytes': {
          const s = t === 'string' ? Buffer.from(v, 'utf8') : Buffer.from(v);
          b.writeUInt32LE(s.length);
          out.push(b.subarray(0, 4), s);
          return;
        }
      }
      throw new Error('type ' + t);
    }
    if (t.option !== undefined) {
      if (v === null || v === undefined) out.push(Buffer.from([0]));
      else {
        out.push(Buffer.from([1]));
        this.enc(t.option, v, out);
      }
      return;
    }
    if (t.vec !== undefined) {
      const b = Buffer.alloc(4);
      b.writeUInt32LE(v.length);
      out.push(b);
      for (const x of v) this.enc(t.vec, x, out);
      return;
    }
    if (t.array !== undefined) {
      if (v.length !== t.array[1]) throw new RangeError('array length');
      for (const x of v) this.enc(t.array[0], x, out);
      return;
    }
    if (t.defined !== undefined) {
      const d = this.map.get(t.defined);
      if (!d) throw new Error('undefined type ' + t.defined);
      if (d.kind === 'struct') {
        for (const f of d.fields) this.enc(f.type, v[camel(f.name)], out);
        return;
      }
      const i = d.variants.findIndex((x: any) => v[camel(x.name)] !== undefined);
      if (i < 0) throw new Error('Unable to infer src variant');
      out.push(Buffer.from([i]));
      const o = v[camel(d.variants[i].name)];
      for (const [k, f] of (d.variants[i].fields || []).entries()) {
        if (f.name) this.enc(f.type, o[camel(f.name)], out);
        else this.enc(f, o[k], out);
      }
      return;
    }
    throw new Error('type ' + JSON.stringify(t));
  }
  size(t: any): number {
    if (typeof t === 'string') {
      const w: any = { bool: 1, f32: 4, f64: 8, publicKey: 32, ...W };
      return w[t] === undefined ? 1 : w[t];
    }
    if (t.array !== undefined) return this.size(t.array[0]) * t.array[1];
    if (t.vec !== undefined) return 1;
    if (t.option !== undefined) return 1 + this.size(t.option);
    const d = this.map.get(t.defined);
    if (d.kind === 'struct') return d.fields.reduce((s: number, f: any) => s + this.size(f.type), 0);
    return 1 + Math.max(0, ...d.variants.map((v: any) => (v.fields || []).reduce((s: number, f: any) => s + this.size(f.name ? f.type : f), 0)));
  }
}
export class BorshAccountsCoder<T = string> {
  t: Types;
  constructor(public idl: any) {
    this.t = new Types(idl);
  }
  static accountDiscriminator(name: string): Buffer {
    return sha8('account:' + pascal(name));
  }
  decode(name: string, data: Buffer): any {
    if (BorshAccountsCoder.accountDiscriminator(name).compare(data.subarray(0, 8))) throw new Error('Invalid account discriminator');
    return this.decodeUnchecked(name, data);
  }
  decodeUnchecked(name: string, data: Buffer): any {
    const n = pascal(name);
    return this.t.dec({ defined: n }, new Rd(data.subarray(8)));
  }
  memcmp(name: string): any {
    return { offset: 0, bytes: b58enc(BorshAccountsCoder.accountDiscriminator(name)) };
  }
  size(acc: any): number {
    return 8 + this.t.size({ defined: acc.name });
  }
}
export function encodeIx(t: Types, idl: any, name: string, args: any[]): Buffer {
  const ix = idl.instructions.find((i: any) => i.name === name);
  if (args.length !== ix.args.length) throw new Error(`provided too many or few arguments to instruction ${name}: ${args.length} / ${ix.args.length}`);
  const out: Buffer[] = [sha8('global:' + snake(name))];
  ix.args.forEach((a: any, i: number) => t.enc(a.type, args[i], out));
  return Buffer.concat(out);
}
export function decodeIx(t: Types, idl: any, name: string, data: Buffer): { args: any[]; used: number } {
  const ix = idl.instructions.find((i: any) => i.name === name);
  const r = new Rd(data.subarray(8));
  const args = ix.args.map((a: any) => t.dec(a.type, r));
  return { args, used: r.p + 8 };
}
export class Program<T = any> {
  account: any = {};
  methods: any = {};
  coder: any;
  _coder: any;
  rpc: any = {};
  types: Types;
  constructor(
    public idl: any,
    public programId: PublicKey,
    public provider: any,
  ) {
    this.types = new Types(idl);
    const ac = new BorshAccountsCoder(idl);
    this.coder = this._coder = { accounts: ac, types: this.types };
    for (const a of idl.accounts) {
      const name = camel(a.name);
      const get = async (k: PublicKey): Promise<any> => {
        const ai = await provider.connection.getAccountInfo(k);
        return ai ? ac.decode(name, ai.data) : null;
      };
      this.account[name] = {
        coder: this.coder,
        size: ac.size(a),
        idlAccount: a,
        _idlAccount: a,
        fetch: async (k: any) => {
          const r = await get(new PublicKey(k));
          if (!r) throw new Error('Account does not exist or has no data ' + k);
          return r;
        },
        fetchNullable: (k: any) => get(new PublicKey(k)),
        fetchMultiple: (ks: any[]) => Promise.all(ks.map((k) => get(new PublicKey(k)))),
        all: async (filters: any) => {
          const raw = await provider.connection.getProgramAccounts(programId, {
            filters: [{ memcmp: ac.memcmp(name) }, ...(Array.isArray(filters) ? filters : [])],
          });
          return raw.map((x: any) => ({ publicKey: x.pubkey, account: ac.decode(name, x.account.data) }));
        },
      };
    }
    for (const ix of idl.instructions) this.methods[ix.name] = (...args: any[]) => new Builder(this, ix, args);
  }
}
class Builder {
  acc: any = {};
  rem: any[] = [];
  pre: any[] = [];
  post: any[] = [];
  sgn: any[] = [];
  constructor(
    public p: Program,
    public ix: any,
    public args: any[],
  ) {}
  accounts(a: any): this {
    Object.assign(this.acc, a);
    return this;
  }
  accountsPartial(a: any): this {
    return this.accounts(a);
  }
  accountsStrict(a: any): this {
    return this.accounts(a);
  }
  remainingAccounts(r: any[]): this {
    this.rem = [...this.rem, ...r];
    return this;
  }
  preInstructions(i: any[]): this {
    this.pre = i;
    return this;
  }
  postInstructions(i: any[]): this {
    this.post = i;
    return this;
  }
  signers(s: any[]): this {
    this.sgn = s;
    return this;
  }
  private async resolve(): Promise<any> {
    const a: any = {};
    for (const k of Object.keys(this.acc)) if (this.acc[k] !== undefined) a[k] = this.acc[k];
    const conn = this.p.provider.connection;
    const c: any = {
      associatedTokenProgram: new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL'),
      rent: SYSVAR_RENT_PUBKEY,
      systemProgram: SystemProgram.programId,
      tokenProgram: new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA'),
    };
    const consts = (ds: any[], v: any): void => {
      for (const d of ds) {
        if (d.accounts) {
          v[d.name] = { ...(v[d.name] || {}) };
          consts(d.accounts, v[d.name]);
        } else if (v[d.name] === undefined) {
          if (d.isSigner && !d.isOptional) v[d.name] = this.p.provider.wallet.publicKey;
          else if (c[d.name]) v[d.name] = c[d.name];
        }
      }
    };
    consts(this.ix.accounts, a);
    for (let round = 0; round < 8; round++) {
      let found = 0;
      for (const d of this.ix.accounts) {
        if (a[d.name] !== undefined || !d.pda) continue;
        const seeds: Buffer[] = [];
        for (const s of d.pda.seeds) {
          let v: any;
          if (s.kind === 'const') v = s.value;
          else if (s.kind === 'arg') {
            const i = this.ix.args.findIndex((x: any) => x.name === camel(s.path));
            v = this.args[i];
          } else {
            const [n, ...rest] = s.path.split('.');
            v = a[camel(n)];
            if (v !== undefined && rest.length) {
              v = (await this.p.account[camel(s.account)].fetch(v))[camel(rest[0])];
            }
          }
          if (v === undefined) break;
          const out: Buffer[] = [];
          if (s.type === 'string') out.push(Buffer.from(v, 'utf8'));
          else this.p.types.enc(s.type, v, out);
          seeds.push(Buffer.concat(out));
        }
        if (seeds.length !== d.pda.seeds.length) continue;
        a[d.name] = PublicKey.findProgramAddressSync(seeds, this.p.programId)[0];
        found++;
      }
      for (const d of this.ix.accounts) {
        for (const rel of d.relations || []) {
          const r = camel(rel);
          if (a[r] !== undefined || a[d.name] === undefined) continue;
          const ai = await conn.getAccountInfo(a[d.name]);
          if (!ai) continue;
          const ty = this.p.idl.accounts.find((x: any) => !BorshAccountsCoder.accountDiscriminator(x.name).compare(ai.data.subarray(0, 8)));
          if (!ty) continue;
          a[r] = this.p.coder.accounts.decode(camel(ty.name), ai.data)[r];
          if (a[r] !== undefined) found++;
        }
      }
      if (!found) break;
    }
    return a;
  }
  async instruction(): Promise<TransactionInstruction> {
    const a = await this.resolve();
    const keys: any[] = [];
    const flat: any[] = [];
    const walk = (ds: any[], v: any): void => {
      for (const d of ds) {
        if (d.accounts) walk(d.accounts, v[d.name]);
        else flat.push([d, v[d.name]]);
      }
    };
    walk(this.ix.accounts, a);
    for (const [d, k0] of flat) {
      let k = k0;
      if (d.isOptional && (k === null || k === undefined)) {
        keys.push({ pubkey: this.p.programId, isWritable: false, isSigner: false });
        continue;
      }
      if (k === undefined || k === null) throw new Error(`Invalid arguments: ${d.name} not provided.`);
      k = new PublicKey(k.publicKey ? k.publicKey : k);
      keys.push({ pubkey: k, isWritable: !!d.isMut, isSigner: d.isOptional ? !!d.isSigner : !!d.isSigner });
    }
    return new TransactionInstruction({
      programId: this.p.programId,
      keys: [...keys, ...this.rem],
      data: encodeIx(this.p.types, this.p.idl, this.ix.name, this.args),
    });
  }
  async rpc(): Promise<string> {
    return this.p.provider.sendIxs([...this.pre, await this.instruction(), ...this.post]);
  }
}
export class AnchorProvider {
  constructor(
    public connection: any,
    public wallet: any,
    public opts: any,
  ) {}
  static defaultOptions(): any {
    return { commitment: 'processed' };
  }
}
export class Provider {}
export class Wallet {}
export const utils = { bytes: { utf8: { decode: (b: any) => Buffer.from(b).toString('utf8') }, bs58: { encode: b58enc, decode: b58dec } } };
export const web3 = {};
export default {};
