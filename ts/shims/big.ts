// Stand-in for big.js 6: exact decimals c * 10^e, DP = 20, RM = 1 (half up).
const p10 = (k: number): bigint => 10n ** BigInt(k);
function rnd(c: bigint, e: number, dp: number, rm: number): [bigint, number] {
  // keep dp decimal places
  if (-e <= dp) return [c, e];
  const k = -e - dp;
  const neg = c < 0n;
  const a = neg ? -c : c;
  const d = p10(k);
  let q = a / d;
  const r = a % d;
  const h = r * 2n;
  let up = false;
  if (rm === 1) up = h >= d;
  else if (rm === 2) up = h > d || (h === d && (q & 1n) === 1n);
  else if (rm === 3) up = r !== 0n;
  else if (rm !== 0) throw new Error('[big.js] Invalid rounding mode');
  if (up) q += 1n;
  return [neg ? -q : q, -dp];
}
export class Big {
  static DP = 20;
  static RM = 1;
  static NE = -7;
  static PE = 21;
  static roundDown = 0;
  static roundHalfUp = 1;
  static roundHalfEven = 2;
  static roundUp = 3;
  k!: bigint;
  x!: number;
  constructor(v: any) {
    if (v instanceof Big) {
      this.k = v.k;
      this.x = v.x;
      return;
    }
    const s = String(v);
    const m = /^(-?)(\d*)(?:\.(\d*))?(?:e([+-]?\d+))?$/i.exec(s);
    if (!m || (m[2] === '' && !m[3])) throw new Error('[big.js] Invalid number');
    const frac = m[3] || '';
    this.k = BigInt((m[2] || '0') + frac) * (m[1] ? -1n : 1n);
    this.x = Number(m[4] || 0) - frac.length;
    this.norm();
  }
  private norm(): void {
    if (this.k === 0n) {
      this.x = 0;
      return;
    }
    while (this.x < 0 && this.k % 10n === 0n) {
      this.k /= 10n;
      this.x += 1;
    }
  }
  static of(k: bigint, x: number): Big {
    const r = new Big(0);
    r.k = k;
    r.x = x;
    r.norm();
    return r;
  }
  private al(o: Big): [bigint, bigint, number] {
    const x = Math.min(this.x, o.x);
    return [this.k * p10(this.x - x), o.k * p10(o.x - x), x];
  }
  abs(): Big {
    return Big.of(this.k < 0n ? -this.k : this.k, this.x);
  }
  neg(): Big {
    return Big.of(-this.k, this.x);
  }
  plus(o: any): Big {
    const [a, b, x] = this.al(new Big(o));
    return Big.of(a + b, x);
  }
  add(o: any): Big {
    return this.plus(o);
  }
  minus(o: any): Big {
    const [a, b, x] = this.al(new Big(o));
    return Big.of(a - b, x);
  }
  sub(o: any): Big {
    return this.minus(o);
  }
  times(o: any): Big {
    const b = new Big(o);
    return Big.of(this.k * b.k, this.x + b.x);
  }
  mul(o: any): Big {
    return this.times(o);
  }
  div(o: any): Big {
    const b = new Big(o);
    if (b.k === 0n) throw new Error('[big.js] Division by zero');
    const [n, d] = this.al(b);
    const dp = Big.DP;
    const s = n < 0n !== d < 0n ? -1n : 1n;
    const an = n < 0n ? -n : n;
    const ad = d < 0n ? -d : d;
    const num = an * p10(dp);
    let q = num / ad;
    if ((num % ad) * 2n >= ad) q += 1n;
    return Big.of(s * q, -dp);
  }
  pow(n: number): Big {
    const r = Big.of(this.k ** BigInt(Math.abs(n)), this.x * Math.abs(n));
    return n < 0 ? new Big(1).div(r) : r;
  }
  round(dp?: number, rm?: number): Big {
    const [k, x] = rnd(this.k, this.x, dp === undefined ? 0 : dp, rm === undefined ? Big.RM : rm);
    return Big.of(k, x);
  }
  cmp(o: any): number {
    const [a, b] = this.al(new Big(o));
    return a < b ? -1 : a > b ? 1 : 0;
  }
  eq(o: any): boolean {
    return this.cmp(o) === 0;
  }
  gt(o: any): boolean {
    return this.cmp(o) > 0;
  }
  gte(o: any): boolean {
    return this.cmp(o) >= 0;
  }
  lt(o: any): boolean {
    return this.cmp(o) < 0;
  }
  lte(o: any): boolean {
    return this.cmp(o) <= 0;
  }
  toFixed(dp?: number, rm?: number): string {
    let k = this.k;
    let x = this.x;
    if (dp !== undefined) [k, x] = rnd(k, x, dp, rm === undefined ? Big.RM : rm);
    const want = dp === undefined ? Math.max(0, -x) : dp;
    const sc = k * p10(x + want);
    const neg = sc < 0n || (sc === 0n && this.k < 0n);
    let s = (sc < 0n ? -sc : sc).toString().padStart(want + 1, '0');
    if (want > 0) s = s.slice(0, -want) + '.' + s.slice(-want);
    return neg && sc !== 0n ? '-' + s : s;
  }
  toString(): string {
    return this.toFixed();
  }
  toNumber(): number {
    return Number(this.toFixed());
  }
  valueOf(): string {
    return this.toFixed();
  }
}
(Big as any).default = Big;
export default Big;
