// Stand-in for @project-serum/serum: market and open orders data structures only.
import { BN } from './bn';
import { PublicKey } from './web3';
const u64 = (b: Buffer, o: number): BN => new BN(b.subarray(o, o + 8), 'le');
const pk = (b: Buffer, o: number): PublicKey => new PublicKey(b.subarray(o, o + 32));
export class OpenOrders {
  constructor(
    public address: PublicKey,
    d: any,
  ) {
    Object.assign(this, d);
  }
  static fromAccountInfo(address: PublicKey, ai: any): OpenOrders {
    const b: Buffer = ai.data;
    // 5 padding, 8 flags, market, owner, base free/total, quote free/total, ...
    let o = 5 + 8;
    const d: any = { market: pk(b, o), owner: pk(b, o + 32) };
    o += 64;
    d.baseTokenFree = u64(b, o);
    d.baseTokenTotal = u64(b, o + 8);
    d.quoteTokenFree = u64(b, o + 16);
    d.quoteTokenTotal = u64(b, o + 24);
    d.freeSlotBits = new BN(b.subarray(o + 32, o + 48), 'le');
    d.isBidBits = new BN(b.subarray(o + 48, o + 64), 'le');
    o += 64;
    d.orders = Array.from({ length: 128 }, (_x, i) => new BN(b.subarray(o + 16 * i, o + 16 * i + 16), 'le'));
    o += 128 * 16;
    d.clientIds = Array.from({ length: 128 }, (_x, i) => u64(b, o + 8 * i));
    return new OpenOrders(address, d);
  }
}
const num = (n: BN, d: BN): number => {
  const q = n.div(d);
  const r = n.umod(d);
  let g = d;
  let x = r;
  while (x.gtn(0)) [g, x] = [x, g.umod(x)];
  return q.toNumber() + (g.isZero() ? 0 : r.div(g).toNumber() / d.div(g).toNumber());
};
export class Market {
  _decoded: any;
  constructor(
    decoded: any,
    public _b: number,
    public _q: number,
    _o: any,
    public programId: PublicKey,
  ) {
    this._decoded = decoded;
  }
  get address(): PublicKey {
    return this._decoded.ownAddress;
  }
  get publicKey(): PublicKey {
    return this._decoded.ownAddress;
  }
  get bidsAddress(): PublicKey {
    return this._decoded.bids;
  }
  get asksAddress(): PublicKey {
    return this._decoded.asks;
  }
  get baseMintAddress(): PublicKey {
    return this._decoded.baseMint;
  }
  get quoteMintAddress(): PublicKey {
    return this._decoded.quoteMint;
  }
  get decoded(): any {
    return this._decoded;
  }
  static async load(conn: any, address: PublicKey, opts: any, programId: PublicKey): Promise<Market> {
    const ai = await conn.getAccountInfo(address);
    if (!ai) throw new Error('Market not found');
    if (!ai.owner.equals(programId)) throw new Error('Address not owned by program: ' + ai.owner.toBase58());
    const d = Market.getLayout().decode(ai.data);
    const dec = async (m: PublicKey): Promise<number> => (await conn.getAccountInfo(m)).data[44];
    return new Market(d, await dec(d.baseMint), await dec(d.quoteMint), opts, programId);
  }
  static getLayout(): any {
    return {
      span: 388,
      decode: (b: Buffer): any => ({
        ownAddress: pk(b, 13),
        vaultSignerNonce: u64(b, 45),
        baseMint: pk(b, 53),
        quoteMint: pk(b, 85),
        baseVault: pk(b, 117),
        baseDepositsTotal: u64(b, 149),
        baseFeesAccrued: u64(b, 157),
        quoteVault: pk(b, 165),
        quoteDepositsTotal: u64(b, 197),
        quoteFeesAccrued: u64(b, 205),
        quoteDustThreshold: u64(b, 213),
        requestQueue: pk(b, 221),
        eventQueue: pk(b, 253),
        bids: pk(b, 285),
        asks: pk(b, 317),
        baseLotSize: u64(b, 349),
        quoteLotSize: u64(b, 357),
        feeRateBps: u64(b, 365),
        referrerRebatesAccrued: u64(b, 373),
      }),
    };
  }
  priceLotsToNumber(price: BN): number {
    return num(price.mul(this._decoded.quoteLotSize).mul(new BN(10).pow(new BN(this._b))), this._decoded.baseLotSize.mul(new BN(10).pow(new BN(this._q))));
  }
  priceNumberToLots(price: number): BN {
    return new BN(
      Math.round((price * Math.pow(10, this._q) * this._decoded.baseLotSize.toNumber()) / (Math.pow(10, this._b) * this._decoded.quoteLotSize.toNumber())),
    );
  }
  baseSizeLotsToNumber(size: BN): number {
    return num(size.mul(this._decoded.baseLotSize), new BN(10).pow(new BN(this._b)));
  }
  baseSizeNumberToLots(size: number): BN {
    return new BN(Math.round(size * Math.pow(10, this._b))).div(this._decoded.baseLotSize);
  }
  get minOrderSize(): number {
    return this.baseSizeLotsToNumber(new BN(1));
  }
  get tickSize(): number {
    return this.priceLotsToNumber(new BN(1));
  }
}
export class Orderbook {}
export const decodeEventQueue = (): never => {
  throw new Error('not modelled: decodeEventQueue');
};
