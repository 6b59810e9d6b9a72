// Stand-in for bn.js 5 (not installed here): same observable arithmetic, on BigInt.
// In-place operations mutate; shifts work on the magnitude; division truncates towards zero.
const ABS = (x: bigint): bigint => (x < 0n ? -x : x);

function big(x: any, base?: any, endian?: any): bigint {
  if (base === 'le' || base === 'be') {
    endian = base;
    base = 10;
  }
  if (typeof x === 'bigint') return x;
  if (typeof x === 'number') {
    const m = Math.abs(x);
    if (!(m < 9007199254740992)) throw new Error('Assertion failed');
    return BigInt(Math.trunc(x));
  }
  if (x !== null && typeof x === 'object') {
    if (x instanceof BN) return x.n;
    if (typeof x.length === 'number') {
      let r = 0n;
      const le = endian === 'le';
      for (let i = 0; i < x.length; i++) r = (r << 8n) | BigInt(x[le ? x.length - 1 - i : i] & 255);
      return r;
    }
    throw new Error('BN: bad input');
  }
  if (typeof x === 'string') {
    let s = x.replace(/\s+/g, '');
    let neg = false;
    if (s[0] === '-') {
      neg = true;
      s = s.slice(1);
    }
    base = base || 10;
    if (base === 'hex') base = 16;
    let r = 0n;
    if (base === 10) {
      if (!/^[0-9]*$/.test(s)) throw new Error('Invalid character');
      r = BigInt(s || '0');
    } else {
      for (const c of s) {
        const d = parseInt(c, base);
        if (isNaN(d)) throw new Error('Invalid character');
        r = r * BigInt(base) + BigInt(d);
      }
    }
    return neg ? -r : r;
  }
  if (x === undefined || x === null || x === false || x === true) return 0n;
  throw new Error('BN: bad input');
}

export class BN {
  n: bigint;
  constructor(x?: any, base?: any, endian?: any) {
    this.n = x === undefined ? 0n : big(x, base, endian);
  }
  static isBN(x: any): boolean {
    return x instanceof BN;
  }
  static max(a: BN, b: BN): BN {
    return a.n > b.n ? a : b;
  }
  static min(a: BN, b: BN): BN {
    return a.n < b.n ? a : b;
  }
  static of(n: bigint): BN {
    const r = new BN(0);
    r.n = n;
    return r;
  }
  private set(n: bigint): this {
    this.n = n;
    return this;
  }
  clone(): BN {
    return BN.of(this.n);
  }
  get negative(): number {
    return this.n < 0n ? 1 : 0;
  }
  toString(base?: any, pad?: number): string {
    base = base === 'hex' ? 16 : base || 10;
    let s = ABS(this.n).toString(base);
    if (base === 10 && !pad) return this.n.toString();
    pad = pad || 1;
    while (s.length % pad !== 0) s = '0' + s;
    return this.n < 0n ? '-' + s : s;
  }
  toJSON(): string {
    return this.toString(16, 2);
  }
  toNumber(): number {
    if (ABS(this.n) >= 1n << 53n) throw new Error('Number can only safely store up to 53 bits');
    return Number(this.n);
  }
  bitLength(): number {
    return this.n === 0n ? 0 : ABS(this.n).toString(2).length;
  }
  byteLength(): number {
    return Math.ceil(this.bitLength() / 8);
  }
  toArray(endian?: any, length?: number): number[] {
    return Array.from(this.toArrayLike(Buffer as any, endian, length) as any);
  }
  toBuffer(endian?: any, length?: number): Buffer {
    return this.toArrayLike(Buffer as any, endian, length) as any;
  }
  toArrayLike(_T: any, endian?: any, length?: number): any {
    const bl = this.byteLength();
    const len = length || Math.max(1, bl);
    if (bl > len) throw new Error('byte array longer than desired length');
    const out = _T && _T.alloc ? _T.alloc(len) : new _T(len);
    let v = ABS(this.n);
    for (let i = 0; i < len; i++) {
      out[endian === 'le' ? i : len - 1 - i] = Number(v & 255n);
      v >>= 8n;
    }
    return out;
  }
  isNeg(): boolean {
    return this.n < 0n;
  }
  isZero(): boolean {
    return this.n === 0n;
  }
  isOdd(): boolean {
    return (this.n & 1n) !== 0n;
  }
  isEven(): boolean {
    return !this.isOdd();
  }
  cmp(x: BN): -1 | 0 | 1 {
    return this.n < x.n ? -1 : this.n > x.n ? 1 : 0;
  }
  ucmp(x: BN): -1 | 0 | 1 {
    const a = ABS(this.n);
    const b = ABS(x.n);
    return a < b ? -1 : a > b ? 1 : 0;
  }
  cmpn(x: number): -1 | 0 | 1 {
    return this.cmp(new BN(x));
  }
  gt(x: BN): boolean {
    return this.n > chk(x);
  }
  gte(x: BN): boolean {
    return this.n >= chk(x);
  }
  lt(x: BN): boolean {
    return this.n < chk(x);
  }
  lte(x: BN): boolean {
    return this.n <= chk(x);
  }
  eq(x: BN): boolean {
    return this.n === chk(x);
  }
  gtn(x: number): boolean {
    return this.cmpn(x) > 0;
  }
  gten(x: number): boolean {
    return this.cmpn(x) >= 0;
  }
  ltn(x: number): boolean {
    return this.cmpn(x) < 0;
  }
  lten(x: number): boolean {
    return this.cmpn(x) <= 0;
  }
  eqn(x: number): boolean {
    return this.cmpn(x) === 0;
  }
  neg(): BN {
    return BN.of(-this.n);
  }
  ineg(): this {
    return this.set(-this.n);
  }
  abs(): BN {
    return BN.of(ABS(this.n));
  }
  iabs(): this {
    return this.set(ABS(this.n));
  }
  add(x: BN): BN {
    return BN.of(this.n + chk(x));
  }
  iadd(x: BN): this {
    return this.set(this.n + chk(x));
  }
  sub(x: BN): BN {
    return BN.of(this.n - chk(x));
  }
  isub(x: BN): this {
    return this.set(this.n - chk(x));
  }
  mul(x: BN): BN {
    return BN.of(this.n * chk(x));
  }
  imul(x: BN): this {
    return this.set(this.n * chk(x));
  }
  div(x: BN): BN {
    if (chk(x) === 0n) throw new Error('Assertion failed');
    return BN.of(this.n / x.n);
  }
  mod(x: BN): BN {
    if (chk(x) === 0n) throw new Error('Assertion failed');
    return BN.of(this.n % x.n);
  }
  umod(x: BN): BN {
    const r = this.mod(x);
    return r.n < 0n ? BN.of(r.n + ABS(x.n)) : r;
  }
  divmod(x: BN): { div: BN; mod: BN } {
    return { div: this.div(x), mod: this.mod(x) };
  }
  divRound(x: BN): BN {
    const d = this.n / chk(x);
    const m = ABS(this.n % x.n);
    const half = ABS(x.n) >> 1n;
    const odd = ABS(x.n) & 1n;
    if (m < half || (odd && m === half)) return BN.of(d);
    if (m === 0n) return BN.of(d);
    return BN.of((this.n < 0n) !== (x.n < 0n) ? d - 1n : d + 1n);
  }
  addn(x: number): BN {
    return this.add(new BN(x));
  }
  iaddn(x: number): this {
    return this.iadd(new BN(x));
  }
  subn(x: number): BN {
    return this.sub(new BN(x));
  }
  isubn(x: number): this {
    return this.isub(new BN(x));
  }
  muln(x: number): BN {
    return this.mul(new BN(x));
  }
  imuln(x: number): this {
    return this.imul(new BN(x));
  }
  divn(x: number): BN {
    return this.div(new BN(x));
  }
  idivn(x: number): this {
    return this.set(this.div(new BN(x)).n);
  }
  modn(x: number): number {
    return Number(this.n % BigInt(x));
  }
  modrn(x: number): number {
    return Number(ABS(this.n) % BigInt(x));
  }
  sqr(): BN {
    return BN.of(this.n * this.n);
  }
  pow(x: BN): BN {
    if (x.n < 0n) throw new Error('BN: negative exponent');
    return BN.of(this.n ** x.n);
  }
  iushln(b: number): this {
    return this.set(this.n << BigInt(b));
  }
  ushln(b: number): BN {
    return BN.of(this.n << BigInt(b));
  }
  iushrn(b: number): this {
    const m = ABS(this.n) >> BigInt(b);
    return this.set(this.n < 0n ? -m : m);
  }
  ushrn(b: number): BN {
    return this.clone().iushrn(b);
  }
  private nonneg(): void {
    if (this.n < 0n) throw new Error('Assertion failed');
  }
  shln(b: number): BN {
    this.nonneg();
    return this.ushln(b);
  }
  ishln(b: number): this {
    this.nonneg();
    return this.iushln(b);
  }
  shrn(b: number): BN {
    this.nonneg();
    return this.ushrn(b);
  }
  ishrn(b: number): this {
    this.nonneg();
    return this.iushrn(b);
  }
  maskn(b: number): BN {
    this.nonneg();
    return BN.of(this.n & ((1n << BigInt(b)) - 1n));
  }
  imaskn(b: number): this {
    return this.set(this.maskn(b).n);
  }
  or(x: BN): BN {
    this.nonneg();
    x.nonneg();
    return BN.of(this.n | x.n);
  }
  ior(x: BN): this {
    return this.set(this.or(x).n);
  }
  uor(x: BN): BN {
    return this.or(x);
  }
  iuor(x: BN): this {
    return this.ior(x);
  }
  and(x: BN): BN {
    this.nonneg();
    x.nonneg();
    return BN.of(this.n & x.n);
  }
  iand(x: BN): this {
    return this.set(this.and(x).n);
  }
  uand(x: BN): BN {
    return this.and(x);
  }
  xor(x: BN): BN {
    this.nonneg();
    x.nonneg();
    return BN.of(this.n ^ x.n);
  }
  testn(b: number): boolean {
    return ((ABS(this.n) >> BigInt(b)) & 1n) === 1n;
  }
  setn(b: number, v: any): this {
    const bit = 1n << BigInt(b);
    return this.set(v ? this.n | bit : this.n & ~bit);
  }
  toTwos(w: number): BN {
    return this.n < 0n ? BN.of((1n << BigInt(w)) + this.n) : this.clone();
  }
  fromTwos(w: number): BN {
    return this.testn(w - 1) ? BN.of(this.n - (1n << BigInt(w))) : this.clone();
  }
}
function chk(x: any): bigint {
  if (!(x instanceof BN)) throw new TypeError('BN expected, got ' + typeof x);
  return x.n;
}
(BN as any).BN = BN;
export default BN;
