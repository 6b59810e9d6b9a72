// Stand-in for the few parts of @solana/web3.js that the client uses without a network.
import { createHash } from 'crypto';
import { BN } from './bn';
const AB = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function b58enc(b: Uint8Array): string {
  let z = 0;
  while (z < b.length && b[z] === 0) z++;
  let n = BigInt('0x' + (Buffer.from(b).toString('hex') || '0'));
  let s = '';
  while (n > 0n) {
    s = AB[Number(n % 58n)] + s;
    n /= 58n;
  }
  return '1'.repeat(z) + s;
}
export function b58dec(s: string): Buffer {
  let n = 0n;
  let z = 0;
  while (z < s.length && s[z] === '1') z++;
  for (const c of s) {
    const i = AB.indexOf(c);
    if (i < 0) throw new Error('Non-base58 character');
    n = n * 58n + BigInt(i);
  }
  let h = n === 0n ? '' : n.toString(16);
  if (h.length % 2) h = '0' + h;
  return Buffer.concat([Buffer.alloc(z), Buffer.from(h, 'hex')]);
}
const P = 2n ** 255n - 19n;
const mod = (x: bigint): bigint => ((x % P) + P) % P;
function pw(b: bigint, e: bigint): bigint {
  let r = 1n;
  b = mod(b);
  while (e > 0n) {
    if (e & 1n) r = mod(r * b);
    b = mod(b * b);
    e >>= 1n;
  }
  return r;
}
const D = mod(-121665n * pw(121666n, P - 2n));
function onCurve(bytes: Uint8Array): boolean {
  let y = 0n;
  for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(i === 31 ? bytes[i] & 127 : bytes[i]);
  y = mod(y);
  const u = mod(y * y - 1n);
  const v = mod(D * y * y + 1n);
  const w = mod(u * pw(v, P - 2n));
  if (w === 0n) return true;
  return pw(w, (P - 1n) / 2n) === 1n;
}
const cache58 = new Map<string, string>();
export class PublicKey {
  _b: number[]; // plain data, as the real class keeps (a BN): clones of structures reach it
  static get default(): PublicKey {
    return new PublicKey(new Uint8Array(32));
  }
  constructor(v: any) {
    if (v instanceof PublicKey) this._b = v._b;
    else if (typeof v === 'string') {
      const d = b58dec(v);
      if (d.length !== 32) throw new Error('Invalid public key input');
      this._b = Array.from(d);
    } else if (v instanceof BN) this._b = v.toArray("be", 32);
    else {
      if (v.length !== 32) throw new Error('Invalid public key input');
      this._b = Array.from(v as ArrayLike<number>);
    }
  }
  static unique(): PublicKey {
    return new PublicKey(createHash('sha256').update(String(Math.random())).digest());
  }
  equals(o: PublicKey): boolean {
    for (let i = 0; i < 32; i++) if (this._b[i] !== o._b[i]) return false;
    return true;
  }
  toBase58(): string {
    const k = Buffer.from(this._b).toString('latin1');
    let s = cache58.get(k);
    if (s === undefined) {
      s = b58enc(this._b).padStart(32, '1');
      s = b58enc(this._b);
      if (cache58.size > 20000) cache58.clear();
      cache58.set(k, s);
    }
    return s;
  }
  toString(): string {
    return this.toBase58();
  }
  toJSON(): string {
    return this.toBase58();
  }
  toBytes(): Uint8Array {
    return new Uint8Array(this._b);
  }
  toBuffer(): Buffer {
    return Buffer.from(this._b);
  }
  static isOnCurve(v: any): boolean {
    return onCurve(v instanceof PublicKey ? v._b : v);
  }
  static createProgramAddressSync(seeds: any[], pid: PublicKey): PublicKey {
    const h = createHash('sha256');
    for (const s of seeds) {
      if (s.length > 32) throw new TypeError('Max seed length exceeded');
      h.update(s);
    }
    h.update(Buffer.from(pid._b));
    h.update('ProgramDerivedAddress');
    const d = h.digest();
    if (onCurve(d)) throw new Error('Invalid seeds, address must fall off the curve');
    return new PublicKey(d);
  }
  static findProgramAddressSync(seeds: any[], pid: PublicKey): [PublicKey, number] {
    for (let n = 255; n > 0; n--) {
      try {
        return [PublicKey.createProgramAddressSync([...seeds, Buffer.from([n])], pid), n];
      } catch (e) {
        if (e instanceof TypeError) throw e;
      }
    }
    throw new Error('Unable to find a viable program address nonce');
  }
  static async findProgramAddress(seeds: any[], pid: PublicKey): Promise<[PublicKey, number]> {
    return PublicKey.findProgramAddressSync(seeds, pid);
  }
  static async createProgramAddress(seeds: any[], pid: PublicKey): Promise<PublicKey> {
    return PublicKey.createProgramAddressSync(seeds, pid);
  }
  static async createWithSeed(from: PublicKey, seed: string, pid: PublicKey): Promise<PublicKey> {
    return new PublicKey(createHash('sha256').update(Buffer.from(from._b)).update(seed).update(Buffer.from(pid._b)).digest());
  }
}
export class TransactionInstruction {
  keys: any[];
  programId: PublicKey;
  data: Buffer;
  constructor(o: any) {
    this.keys = o.keys;
    this.programId = o.programId;
    this.data = o.data || Buffer.alloc(0);
  }
}
export class Keypair {
  publicKey: PublicKey;
  secretKey = new Uint8Array(64);
  static n = 0;
  constructor() {
    const b = new Uint8Array(32);
    b.set(createHash('sha256').update('kp' + Keypair.n++).digest());
    this.publicKey = new PublicKey(b);
  }
  static generate(): Keypair {
    return new Keypair();
  }
}
const u64le = (n: any): Buffer => new BN(n.toString()).toArrayLike(Buffer, 'le', 8);
const u32 = (n: number): Buffer => {
  const b = Buffer.alloc(4);
  b.writeUInt32LE(n);
  return b;
};
export const SystemProgram = {
  programId: new PublicKey('11111111111111111111111111111111'),
  createAccount(p: any): TransactionInstruction {
    return new TransactionInstruction({
      programId: SystemProgram.programId,
      keys: [
        { pubkey: p.fromPubkey, isSigner: true, isWritable: true },
        { pubkey: p.newAccountPubkey, isSigner: true, isWritable: true },
      ],
      data: Buffer.concat([u32(0), u64le(p.lamports), u64le(p.space), p.programId.toBuffer()]),
    });
  },
  transfer(p: any): TransactionInstruction {
    return new TransactionInstruction({
      programId: SystemProgram.programId,
      keys: [
        { pubkey: p.fromPubkey, isSigner: true, isWritable: true },
        { pubkey: p.toPubkey, isSigner: false, isWritable: true },
      ],
      data: Buffer.concat([u32(2), u64le(p.lamports)]),
    });
  },
  createAccountWithSeed(p: any): TransactionInstruction {
    const seed = Buffer.from(p.seed, 'utf8');
    return new TransactionInstruction({
      programId: SystemProgram.programId,
      keys: [
        { pubkey: p.fromPubkey, isSigner: true, isWritable: true },
        { pubkey: p.newAccountPubkey, isSigner: false, isWritable: true },
      ],
      data: Buffer.concat([
        u32(3),
        p.basePubkey.toBuffer(),
        u32(seed.length),
        u32(0),
        seed,
        u64le(p.lamports),
        u64le(p.space),
        p.programId.toBuffer(),
      ]),
    });
  },
};
export const ComputeBudgetProgram = {
  programId: new PublicKey('ComputeBudget111111111111111111111111111111'),
  setComputeUnitPrice(p: any): TransactionInstruction {
    return new TransactionInstruction({ programId: ComputeBudgetProgram.programId, keys: [], data: Buffer.concat([Buffer.from([3]), u64le(p.microLamports)]) });
  },
  setComputeUnitLimit(p: any): TransactionInstruction {
    return new TransactionInstruction({ programId: ComputeBudgetProgram.programId, keys: [], data: Buffer.concat([Buffer.from([2]), u32(p.units)]) });
  },
  requestHeapFrame(p: any): TransactionInstruction {
    return new TransactionInstruction({ programId: ComputeBudgetProgram.programId, keys: [], data: Buffer.concat([Buffer.from([1]), u32(p.bytes)]) });
  },
};
export const SYSVAR_RENT_PUBKEY = new PublicKey('SysvarRent111111111111111111111111111111111');
export const SYSVAR_CLOCK_PUBKEY = new PublicKey('SysvarC1ock11111111111111111111111111111111');
export const SYSVAR_INSTRUCTIONS_PUBKEY = new PublicKey('Sysvar1nstructions1111111111111111111111111');
export const LAMPORTS_PER_SOL = 1000000000;
export class Connection {}
export class Transaction {}
export class VersionedTransaction {}
export class MessageV0 {}
export class TransactionMessage {}
export class AddressLookupTableAccount {}
export class TransactionExpiredBlockheightExceededError extends Error {}
export const AddressLookupTableProgram = { programId: new PublicKey('AddressLookupTab1e1111111111111111111111111') };
export const Ed25519Program = {};
export default {};
