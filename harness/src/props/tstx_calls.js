// Body of async function(C, a): a = { name, d: instruction data, k: [[key, writable, signer]], v: variant, call: bool, w: wallet, gates }
// Finds the instruction in the IDL, decodes it, and asks the client to build the same thing.
const g = C.group, c = C.client;
const data = Buffer.from(a.d, 'hex');
const ix = C.IDL.instructions.find((i) => i.name === a.name);
if (!ix) return { missing: true };
const { args, used } = C.decodeIx(ix.name, data);
const again = C.encodeIx(ix.name, args).toString('hex');
const disc = again.slice(0, 16);
const flat = (xs) => xs.flatMap((x) => (x.accounts ? flat(x.accounts) : [x]));
const metas = flat(ix.accounts);
const A = {};
metas.forEach((m, i) => { if (i < a.k.length) A[m.name] = C.K(a.k[i][0]); });
const X = {};
ix.args.forEach((x, i) => { X[x.name] = args[i]; });
const r = {
  used, len: data.length, again, disc,
  metas: metas.map((m) => [m.name, m.isMut ? 1 : 0, m.isSigner ? 1 : 0, m.isOptional ? 1 : 0]),
  args: X,
};
if (!a.call) return r;

// other arguments than those of the example
let rs = a.m >>> 0;
const rnd = (n) => {
  rs = (rs + 0x6d2b79f5) >>> 0;
  let t = Math.imul(rs ^ (rs >>> 15), 1 | rs);
  t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
  return ((t ^ (t >>> 14)) >>> 0) % n;
};
const ints = { u8: 8, i8: 7, u16: 16, i16: 15, u32: 32, i32: 31, u64: 64, i64: 63, u128: 128 };
const other = (t, v) => {
  if (typeof t === 'string' && ints[t]) {
    const big = ints[t] > 32 || (v && v.isZero);
    const max = ints[t] > 31 ? 2000000000 : Math.pow(2, ints[t]) - 1;
    const old = v === null || v === undefined ? 0 : big ? (v.bitLength() > 50 ? 1000 : v.toNumber()) : v;
    let n = [1, 2, 3, old + 1, Math.max(old - 1, 0), Math.floor(old / 2), old * 2, rnd(100), rnd(100000), rnd(2000000000)][rnd(10)];
    n = Math.min(n, big ? 9e14 : max);
    return big ? C.N(String(n)) : n;
  }
  if (t === 'bool') return rnd(2) === 1;
  if (t === 'f32' || t === 'f64') {
    const n = [(v || 0.1) * (0.5 + rnd(1000) / 1000), rnd(100) / 100, 0, 1 + rnd(100) / 100, rnd(1000) / 1e5][rnd(5)];
    return t === 'f32' ? Math.fround(n) : n;
  }
  if (t === 'string') return ['A', 'MNGO', 'x'.repeat(32), '', 'some name'][rnd(5)];
  if (t === 'publicKey') return rnd(2) ? C.K(a.k[rnd(a.k.length)][0]) : Array.from(g.banksMapByTokenIndex.values())[rnd(g.banksMapByTokenIndex.size)][0].oracle;
  if (t.option) return rnd(3) === 0 ? null : other(t.option, v);
  if (t.defined) {
    const d = C.IDL.types.find((x) => x.name === t.defined);
    if (d.type.kind === 'enum') {
      const n = d.type.variants[rnd(d.type.variants.length)];
      const low = n.name[0].toLowerCase() + n.name.slice(1);
      return { [low]: {} };
    }
    if (v === null || v === undefined) {
      if (t.defined === 'InterestRateParams') return { util0: 0.3 + rnd(10) / 100, rate0: 0.1, util1: 0.8, rate1: 0.5, maxRate: 1.5, adjustmentFactor: 0.02 };
      if (t.defined === 'OracleConfigParams') return { confFilter: rnd(100) / 100, maxStalenessSlots: rnd(2) ? null : rnd(1000) };
      return v;
    }
    const o = { ...v };
    const f = d.type.fields[rnd(d.type.fields.length)];
    o[f.name] = other(f.type, v[f.name]);
    return o;
  }
  return v;
};
let changed = false;
if (a.m) {
  const n = 1 + rnd(4);
  for (let i = 0; i < n && args.length; i++) {
    const j = rnd(args.length);
    if (['ixGate', 'groupNum', 'tokenConditionalSwapIndex', 'tokenConditionalSwapId'].includes(ix.args[j].name)) continue;
    args[j] = other(ix.args[j].type, args[j]);
  }
  // settings that would be refused if they came alone
  ix.args.forEach((x, i) => { if (x.name === 'clientOrderId' && args[i].isZero()) args[i] = C.N(1 + rnd(1000)); });
  ix.args.forEach((x, i) => { X[x.name] = args[i]; });
  changed = true;
}
class Skip extends Error {}
const need = (b, why) => { if (!b) throw new Skip(why); };
const eq = (x, y) => x.toBase58() === y.toBase58();
const acc = (k) => c.getMangoAccount(k, true);
const bankAt = (k) => {
  for (const bs of g.banksMapByTokenIndex.values()) for (const b of bs) if (eq(b.publicKey, k)) { need(b === bs[0], 'not the first bank'); return b; }
  throw new Skip('bank not in the group');
};
const bankOf = (i) => { const b = g.banksMapByTokenIndex.get(i); need(b, 'token'); return b[0]; };
const perpAt = (k) => { for (const p of g.perpMarketsMapByMarketIndex.values()) if (eq(p.publicKey, k)) return p; throw new Skip('perp market'); };
const spotAt = (k) => { for (const s of g.serum3MarketsMapByMarketIndex.values()) if (eq(s.publicKey, k)) return s; throw new Skip('spot market'); };
const mintAt = (mi) => { for (const m of g.mintInfosMapByTokenIndex.values()) if (eq(m.publicKey, mi)) return m.mint; throw new Skip('mint info'); };
const opt = (x) => (x === null ? undefined : x);
const key = (o) => Object.keys(o)[0];
const U64 = C.N('18446744073709551615'), I64 = C.N('9223372036854775807');
const ui = (x, dec) => { need(x.lt(C.N('1000000000000000')), 'too large for a number'); return Number(x.toString()) / Math.pow(10, dec); };
const uiMax = (x, dec) => (x.eq(U64) ? Number.MAX_SAFE_INTEGER : ui(x, dec));
const num = (x) => { need(x.lt(C.N('9007199254740991')), 'too large for a number'); return Number(x.toString()); };
const nz = (x) => { need(!(x && x.isZero ? x.isZero() : x === 0), 'zero stands for unspecified'); return x; };
const strip = (skip = []) => { const o = {}; for (const k of Object.keys(X)) o[k.replace(/Opt$/, '')] = X[k]; return o; };
const ata = (mint, o) => C.utils.getAssociatedTokenAddress(mint, o, true);
const subst = {}; // accounts of the original that the client chooses by itself
const args2 = {}; // arguments that it chooses by itself, within limits checked here
const w = A.owner ?? A.liqorOwner ?? A.settlerOwner ?? A.liqorAuthority ?? A.authority ?? A.tokenAuthority ?? A.admin ?? A.creator ?? C.K(a.w);
C.provider.wallet.publicKey = w;
C.provider.publicKey = w;
C.sent.length = 0;
if (A.payer) subst.payer = w;
if (A.solDestination) subst.solDestination = w;
const close = (name, got, want) => { if (Math.abs(got - want) > 1e-12 * Math.abs(want)) throw new Error(`${name}: ${got} instead of ${want}`); };
const external = (s) => g.serum3ExternalMarketsMap.get(s.serumMarketExternal.toBase58());
const S = C.serum3, P = C.perp;
const rest = a.k.slice(metas.length).map((x) => C.K(x[0]));

const spotArgs = () => {
  const s = spotAt(A.serumMarket), e = external(s);
  const post = key(X.orderType) === 'postOnly';
  const price = e.priceLotsToNumber(X.limitPrice), size = e.baseSizeLotsToNumber(X.maxBaseQty);
  // enough to pay for all of it with the highest fee that can apply
  const whole = Number(e.decoded.quoteLotSize) * Number(X.maxBaseQty) * Number(X.limitPrice);
  need(whole < 1e14 && price * size < 1e14, 'too large for a number');
  args2.maxNativeQuoteQtyIncludingFees = (got) => {
    const want = whole * (1 + (post ? 0 : 0.0004));
    if (Number(got) < want * (1 - 1e-12) || Number(got) > want * (1 + 1e-9) + 1) throw new Error(`quote limit ${got} for an order that needs ${want}`);
  };
  return [s.serumMarketExternal, S.Serum3Side[key(X.side)], price, size, S.Serum3SelfTradeBehavior[key(X.selfTradeBehavior)], S.Serum3OrderType[key(X.orderType)], num(X.clientOrderId), X.limit];
};
const perpArgs = (p) => [
  X.maxQuoteLots.eq(I64) ? undefined : p.quoteLotsToUi(nz(X.maxQuoteLots)),
  num(nz(X.clientOrderId)),
  P.PerpOrderType[key(X.orderType)],
];
const firsts = new Set(), banks = new Set();
for (const bs of g.banksMapByTokenIndex.values()) bs.forEach((b, i) => { banks.add(b.publicKey.toBase58()); if (!i) firsts.add(b.publicKey.toBase58()); });
const all = ['tokenEdit', 'tokenDeregister', 'tokenUpdateIndexAndRate'].includes(ix.name);
const T = {
  adminTokenWithdrawFees: () => c.adminTokenWithdrawFees(g, bankAt(A.bank), A.tokenAccount),
  adminPerpWithdrawFees: () => c.adminPerpWithdrawFees(g, perpAt(A.perpMarket), A.tokenAccount),
  groupCreate: () => (need(X.testing < 2, 'a flag'), c.groupCreate(X.groupNum, X.testing === 1, X.version, A.insuranceMint)),
  groupEdit: () => c.groupEdit(g, opt(X.adminOpt), opt(X.fastListingAdminOpt), opt(X.securityAdminOpt), opt(X.testingOpt), opt(X.versionOpt), opt(X.depositLimitQuoteOpt), opt(X.buybackFeesOpt), opt(X.buybackFeesBonusFactorOpt), opt(X.buybackFeesSwapMangoAccountOpt), opt(X.mngoTokenIndexOpt), opt(X.buybackFeesExpiryIntervalOpt), opt(X.allowedFastListingsPerIntervalOpt), opt(X.collateralFeeIntervalOpt)),
  groupChangeInsuranceFund: () => c.groupChangeInsuranceFund(g, A.withdrawDestination, A.newInsuranceMint),
  ixGateSet: () => {
    const p = { ...C.builder.TrueIxGateParams };
    for (let b = 0; b < 128; b++) {
      if (!X.ixGate.testn(b)) continue;
      need(a.gates[b], 'no such gate');
      p[a.gates[b]] = false;
    }
    return c.ixGateSet(g, p);
  },
  groupClose: () => (need(eq(A.group, g.publicKey), 'another group'), c.groupClose(g)),
  tokenRegister: () => c.tokenRegister(g, A.mint, A.oracle, A.fallbackOracle, X.tokenIndex, X.name, { ...X, netBorrowLimitPerWindowQuote: num(X.netBorrowLimitPerWindowQuote), netBorrowLimitWindowSizeTs: num(X.netBorrowLimitWindowSizeTs) }),
  tokenRegisterTrustless: () => c.tokenRegisterTrustless(g, A.mint, A.oracle, X.tokenIndex, X.name),
  tokenEdit: () => {
    const p = strip();
    subst.oracle = X.oracleOpt ?? g.banksMapByMint.get(mintAt(A.mintInfo).toBase58())[0].oracle;
    if (p.netBorrowLimitPerWindowQuote !== null) p.netBorrowLimitPerWindowQuote = num(p.netBorrowLimitPerWindowQuote);
    if (p.netBorrowLimitWindowSizeTs !== null) p.netBorrowLimitWindowSizeTs = num(p.netBorrowLimitWindowSizeTs);
    p.fallbackOracle = X.setFallbackOracle ? A.fallbackOracle : null;
    return c.tokenEdit(g, mintAt(A.mintInfo), p);
  },
  tokenDeregister: async () => {
    const m = mintAt(A.mintInfo);
    subst.dustVault = await ata(m, w);
    return c.tokenDeregister(g, m);
  },
  tokenUpdateIndexAndRate: () => c.tokenUpdateIndexAndRate(g, mintAt(A.mintInfo)),
  accountCreate: () => c.createMangoAccount(g, X.accountNum, X.name, X.tokenCount, X.serum3Count, X.perpCount, X.perpOoCount),
  accountExpand: async () => c.expandMangoAccount(g, await acc(A.account), X.tokenCount, X.serum3Count, X.perpCount, X.perpOoCount),
  accountExpandV2: async () => c.accountExpandV2(g, await acc(A.account), X.tokenCount, X.serum3Count, X.perpCount, X.perpOoCount, X.tokenConditionalSwapCount),
  accountEdit: async () => c.editMangoAccount(g, await acc(A.account), opt(X.nameOpt), opt(X.delegateOpt), opt(X.temporaryDelegateOpt), X.temporaryDelegateExpiryOpt === null ? undefined : num(X.temporaryDelegateExpiryOpt)),
  accountToggleFreeze: async () => c.toggleMangoAccountFreeze(g, await acc(A.account), X.freeze),
  accountClose: async () => {
    const x = await acc(A.account);
    subst.solDestination = x.owner;
    return c.closeMangoAccount(g, x, X.forceClose);
  },
  accountBuybackFeesWithMngo: async () => c.accountBuybackFeesWithMngo(g, await acc(A.account), ui(X.maxBuybackUsd, 6)),
  sequenceCheck: async () => {
    const x = await acc(A.account);
    need(x.sequenceNumber === X.expectedSequenceNumber, 'another number');
    return c.sequenceCheckIx(g, x);
  },
  healthCheck: async () => c.healthCheckIx(g, await acc(A.account), X.minHealthValue, X.checkKind),
  stubOracleCreate: async () => {
    const p = C.I(X.price.val).toNumber();
    need(C.I80F48.fromNumber(p).getData().eq(X.price.val), 'not a number');
    await c.stubOracleCreate(g, A.mint, p);
    subst.oracle = C.sent[0].keys[1].pubkey;
  },
  stubOracleClose: () => c.stubOracleClose(g, A.oracle),
  stubOracleSet: () => {
    const p = C.I(X.price.val).toNumber();
    need(C.I80F48.fromNumber(p).getData().eq(X.price.val), 'not a number');
    return c.stubOracleSet(g, A.oracle, p);
  },
  tokenDeposit: async () => {
    const b = bankAt(A.bank), x = await acc(A.account);
    need(eq(await ata(b.mint, w), A.tokenAccount) && eq(x.owner, A.owner), 'other wallet');
    return a.v & 1 && X.amount.lt(C.N('1000000000000000')) ? c.tokenDeposit(g, x, b.mint, ui(X.amount, b.mintDecimals), X.reduceOnly) : c.tokenDepositNative(g, x, b.mint, X.amount, X.reduceOnly);
  },
  tokenDepositIntoExisting: async () => {
    const b = bankAt(A.bank);
    need(eq(await ata(b.mint, w), A.tokenAccount), 'other wallet');
    return c.tokenDepositNative(g, await acc(A.account), b.mint, X.amount, X.reduceOnly, true);
  },
  tokenWithdraw: async () => {
    const b = bankAt(A.bank), x = await acc(A.account);
    need(eq(x.owner, A.owner), 'delegate');
    subst.tokenAccount = await ata(b.mint, x.owner);
    if (X.amount.eq(U64) && !X.allowBorrow && a.v & 1 && x.getTokenBalance(b).isPos() && !x.getTokenBalance(b).isZero()) return c.tokenWithdrawAllDepositForMint(g, x, b.mint);
    return a.v & 1 && X.amount.lt(C.N('1000000000000000')) ? c.tokenWithdraw(g, x, b.mint, ui(X.amount, b.mintDecimals), X.allowBorrow) : c.tokenWithdrawNative(g, x, b.mint, X.amount, X.allowBorrow);
  },
  healthRegionBegin: async () => region('healthRegionBeginIx'),
  healthRegionEnd: async () => region('healthRegionEndIx'),
  serum3RegisterMarket: () => c.serum3RegisterMarket(g, A.serumMarketExternal, bankAt(A.baseBank), bankAt(A.quoteBank), X.marketIndex, X.name, X.oraclePriceBand),
  serum3EditMarket: () => c.serum3EditMarket(g, spotAt(A.market).marketIndex, X.reduceOnlyOpt, X.forceCloseOpt, X.nameOpt, X.oraclePriceBandOpt),
  serum3DeregisterMarket: () => c.serum3deregisterMarket(g, spotAt(A.serumMarket).serumMarketExternal),
  serum3CreateOpenOrders: async () => (a.v & 1 ? c.serum3CreateOpenOrders : c.serum3CreateOpenOrdersIx).call(c, g, await acc(A.account), spotAt(A.serumMarket).serumMarketExternal),
  serum3CloseOpenOrders: async () => c.serum3CloseOpenOrdersIx(g, await acc(A.account), spotAt(A.serumMarket).serumMarketExternal),
  serum3PlaceOrder: async () => c.serum3PlaceOrderV1Ix(g, await acc(A.account), ...spotArgs()),
  serum3PlaceOrderV2: async () => c.serum3PlaceOrderV2Ix(g, await acc(A.account), ...spotArgs()),
  serum3CancelOrder: async () => c.serum3CancelOrderIx(g, await acc(A.account), spotAt(A.serumMarket).serumMarketExternal, S.Serum3Side[key(X.side)], X.orderId),
  serum3CancelOrderByClientOrderId: async () => c.serum3CancelOrderByClientIdIx(g, await acc(A.account), spotAt(A.serumMarket).serumMarketExternal, X.clientOrderId),
  serum3CancelAllOrders: async () => c.serum3CancelAllOrdersIx(g, await acc(A.account), spotAt(A.serumMarket).serumMarketExternal, nz(X.limit)),
  serum3SettleFundsV2: async () => {
    c.openbookFeesToDao = X.feesToDao;
    return c.serum3SettleFundsV2Ix(g, await acc(A.account), spotAt(A.serumMarket).serumMarketExternal);
  },
  serum3LiqForceCancelOrders: async () => c.serum3LiqForceCancelOrders(g, await acc(A.account), spotAt(A.serumMarket).serumMarketExternal, X.limit),
  tokenLiqWithToken: async () => {
    const m = C.I(X.maxLiabTransfer.val).toNumber();
    need(C.I80F48.fromNumber(m).getData().eq(X.maxLiabTransfer.val), 'not a number');
    return c.liqTokenWithToken(g, await acc(A.liqor), await acc(A.liqee), bankOf(X.assetTokenIndex).mint, bankOf(X.liabTokenIndex).mint, m);
  },
  tokenForceCloseBorrowsWithToken: async () => c.tokenForceCloseBorrowsWithToken(g, await acc(A.liqor), await acc(A.liqee), X.assetTokenIndex, X.liabTokenIndex, X.maxLiabTransfer.eq(U64) ? undefined : ui(nz(X.maxLiabTransfer), bankOf(X.liabTokenIndex).mintDecimals)),
  tokenForceWithdraw: async () => {
    const x = await acc(A.account), b = bankAt(A.bank);
    subst.ownerAtaTokenAccount = subst.alternateOwnerTokenAccount = await ata(b.mint, x.owner);
    return c.tokenForceWithdraw(g, x, b.tokenIndex);
  },
  perpCreateMarket: async () => {
    await c.perpCreateMarket(g, A.oracle, X.perpMarketIndex, X.name, X.oracleConfig, X.baseDecimals, num(X.quoteLotSize), num(X.baseLotSize), X.maintBaseAssetWeight, X.initBaseAssetWeight, X.maintBaseLiabWeight, X.initBaseLiabWeight, X.maintOverallAssetWeight, X.initOverallAssetWeight, X.baseLiquidationFee, X.makerFee, X.takerFee, X.feePenalty, X.minFunding, X.maxFunding, num(X.impactQuantity), X.groupInsuranceFund, X.settleFeeFlat, X.settleFeeAmountThreshold, X.settleFeeFractionLowHealth, X.settleTokenIndex, X.settlePnlLimitFactor, num(X.settlePnlLimitWindowSizeTs), X.positivePnlLiquidationFee, X.platformLiquidationFee);
    const m = C.sent[C.sent.length - 1];
    metas.forEach((x, i) => { if (['bids', 'asks', 'eventQueue'].includes(x.name)) subst[x.name] = m.keys[i].pubkey; });
  },
  perpEditMarket: () => {
    const p = strip();
    subst.oracle = X.oracleOpt ?? perpAt(A.perpMarket).oracle;
    p.settlePnlLimitWindowSize = p.settlePnlLimitWindowSizeTs === null ? null : num(p.settlePnlLimitWindowSizeTs);
    if (p.impactQuantity !== null) p.impactQuantity = num(p.impactQuantity);
    return c.perpEditMarket(g, perpAt(A.perpMarket).perpMarketIndex, p);
  },
  perpCloseMarket: () => c.perpCloseMarket(g, perpAt(A.perpMarket).perpMarketIndex),
  perpDeactivatePosition: async () => c.perpDeactivatePosition(g, await acc(A.account), perpAt(A.perpMarket).perpMarketIndex),
  perpPlaceOrder: async () => {
    const p = perpAt(A.perpMarket);
    return c.perpPlaceOrderIx(g, await acc(A.account), p.perpMarketIndex, P.PerpOrderSide[key(X.side)], p.priceLotsToUi(X.priceLots), p.baseLotsToUi(X.maxBaseLots), ...perpArgs(p), X.reduceOnly, num(X.expiryTimestamp), nz(X.limit));
  },
  perpPlaceOrderV2: async () => {
    const p = perpAt(A.perpMarket);
    const ua = [p.priceLotsToUi(X.priceLots), p.baseLotsToUi(X.maxBaseLots)];
    if (a.v & 1 && key(X.selfTradeBehavior) === 'decrementTake') return c.perpPlaceOrder(g, await acc(A.account), p.perpMarketIndex, P.PerpOrderSide[key(X.side)], ...ua, ...perpArgs(p), X.reduceOnly, num(X.expiryTimestamp), X.limit);
    return c.perpPlaceOrderV2Ix(g, await acc(A.account), p.perpMarketIndex, P.PerpOrderSide[key(X.side)], ...ua, ...perpArgs(p), P.PerpSelfTradeBehavior[key(X.selfTradeBehavior)], X.reduceOnly, num(X.expiryTimestamp), X.limit);
  },
  perpPlaceOrderPegged: async () => {
    const p = perpAt(A.perpMarket);
    need(X.maxOracleStalenessSlots === -1, 'staleness');
    return c.perpPlaceOrderPeggedIx(g, await acc(A.account), p.perpMarketIndex, P.PerpOrderSide[key(X.side)], p.priceLotsToUi(X.priceOffsetLots), p.baseLotsToUi(X.maxBaseLots), X.pegLimit.isNeg() ? undefined : p.priceLotsToUi(nz(X.pegLimit)), ...perpArgs(p), X.reduceOnly, num(X.expiryTimestamp), nz(X.limit));
  },
  perpPlaceOrderPeggedV2: async () => {
    const p = perpAt(A.perpMarket);
    need(X.maxOracleStalenessSlots === -1, 'staleness');
    const ua = [p.priceLotsToUi(X.priceOffsetLots), p.baseLotsToUi(X.maxBaseLots), X.pegLimit.isNeg() ? undefined : p.priceLotsToUi(nz(X.pegLimit))];
    if (a.v & 1 && key(X.selfTradeBehavior) === 'decrementTake') return c.perpPlaceOrderPegged(g, await acc(A.account), p.perpMarketIndex, P.PerpOrderSide[key(X.side)], ...ua, ...perpArgs(p), X.reduceOnly, num(X.expiryTimestamp), X.limit);
    return c.perpPlaceOrderPeggedV2Ix(g, await acc(A.account), p.perpMarketIndex, P.PerpOrderSide[key(X.side)], ...ua, ...perpArgs(p), P.PerpSelfTradeBehavior[key(X.selfTradeBehavior)], X.reduceOnly, num(X.expiryTimestamp), X.limit);
  },
  perpCancelOrder: async () => (a.v & 1 ? c.perpCancelOrder : c.perpCancelOrderIx).call(c, g, await acc(A.account), perpAt(A.perpMarket).perpMarketIndex, X.orderId),
  perpCancelOrderByClientOrderId: async () => c.perpCancelOrderByClientOrderIdIx(g, await acc(A.account), perpAt(A.perpMarket).perpMarketIndex, X.clientOrderId),
  perpCancelAllOrders: async () => c.perpCancelAllOrders(g, await acc(A.account), perpAt(A.perpMarket).perpMarketIndex, X.limit),
  perpConsumeEvents: () => c.perpConsumeEvents(g, perpAt(A.perpMarket).perpMarketIndex, rest, num(X.limit)),
  perpUpdateFunding: () => c.perpUpdateFundingIx(g, perpAt(A.perpMarket)),
  perpSettlePnl: async () => {
    const ps = [await acc(A.accountA), await acc(A.accountB), await acc(A.settler), perpAt(A.perpMarket).perpMarketIndex];
    return a.v & 1 ? c.perpSettlePnl(g, ...ps) : c.perpSettlePnlIx(g, ...ps);
  },
  perpForceClosePosition: async () => c.perpForceClosePosition(g, perpAt(A.perpMarket).perpMarketIndex, await acc(A.accountA), await acc(A.accountB)),
  perpSettleFees: async () => c.perpSettleFees(g, await acc(A.account), perpAt(A.perpMarket).perpMarketIndex, X.maxSettleAmount.eq(U64) ? undefined : ui(nz(X.maxSettleAmount), 6)),
  tokenConditionalSwapCreateV2: async () => c.tokenConditionalSwapCreateRaw(g, await acc(A.account), bankAt(A.buyBank).mint, bankAt(A.sellBank).mint, X.maxBuy, X.maxSell, X.expiryTimestamp.eq(U64) ? null : num(X.expiryTimestamp), X.priceLowerLimit, X.priceUpperLimit, X.pricePremiumRate, X.allowCreatingDeposits, X.allowCreatingBorrows, C.ma.TokenConditionalSwapDisplayPriceStyle[key(X.displayPriceStyle)], C.ma.TokenConditionalSwapIntention[key(X.intention)]),
  tokenConditionalSwapCreatePremiumAuction: async () => {
    const s = bankAt(A.sellBank), b = bankAt(A.buyBank), t = key(X.intention);
    need(X.maxPricePremiumRate > 0, 'zero stands for unspecified');
    args2.maxPricePremiumRate = (got) => close('premium', got, X.maxPricePremiumRate);
    return c.tokenConditionalSwapCreatePremiumAuction(g, await acc(A.account), s, b, X.priceLowerLimit, X.priceUpperLimit, uiMax(X.maxBuy, b.mintDecimals), uiMax(X.maxSell, s.mintDecimals), { unknown: null, stopLoss: a.v & 1 ? 'StopLossOnBorrow' : 'StopLossOnDeposit', takeProfit: a.v & 1 ? 'TakeProfitOnBorrow' : 'TakeProfitOnDeposit' }[t], X.maxPricePremiumRate * 100, X.allowCreatingDeposits, X.allowCreatingBorrows, X.expiryTimestamp.eq(U64) ? null : num(X.expiryTimestamp), key(X.displayPriceStyle) === 'sellTokenPerBuyToken', num(X.durationSeconds));
  },
  tokenConditionalSwapCreateLinearAuction: async () => {
    const s = bankAt(A.sellBank), b = bankAt(A.buyBank);
    const sc = Math.pow(10, b.mintDecimals - s.mintDecimals);
    args2.priceStart = (got) => close('start price', got, X.priceStart);
    args2.priceEnd = (got) => close('end price', got, X.priceEnd);
    return c.tokenConditionalSwapCreateLinearAuction(g, await acc(A.account), s, b, X.priceStart * sc, X.priceEnd * sc, uiMax(X.maxBuy, b.mintDecimals), uiMax(X.maxSell, s.mintDecimals), X.allowCreatingDeposits, X.allowCreatingBorrows, key(X.displayPriceStyle) === 'sellTokenPerBuyToken', num(X.startTimestamp), num(X.durationSeconds), X.expiryTimestamp.eq(U64) ? null : num(X.expiryTimestamp));
  },
  tokenConditionalSwapCancel: async () => c.tokenConditionalSwapCancel(g, await acc(A.account), X.tokenConditionalSwapId),
  tokenConditionalSwapTrigger: async () => c.tokenConditionalSwapTrigger(g, await acc(A.liqee), await acc(A.liqor), X.tokenConditionalSwapId, num(X.maxBuyTokenToLiqee), num(X.maxSellTokenToLiqor)),
  altSet: () => c.altSet(g, A.addressLookupTable, X.index),
  altExtend: () => c.altExtend(g, A.addressLookupTable, X.index, X.newAddresses),
};
const region = async (f) => {
  const x = await acc(A.account);
  const banks = [], perps = [];
  for (const bs of g.banksMapByTokenIndex.values()) if (rest.some((k) => eq(k, bs[0].publicKey))) banks.push(bs[0]);
  for (const p of g.perpMarketsMapByMarketIndex.values()) if (rest.some((k) => eq(k, p.publicKey))) perps.push(p);
  return c[f](g, x, banks, perps);
};
const f = T[ix.name];
if (!f) return r;
let out;
try {
  // the client works with the first bank of each token
  if (!all) for (const x of a.k) need(firsts.has(x[0]) || !banks.has(x[0]), 'not the first bank');
  out = await f();
} catch (e) {
  if (e instanceof Skip) { r.skip = e.message; return r; }
  r.err = String(process.env.TS_TRACE ? e.stack : e.message);
}
const isIx = (x) => x && x.programId && x.keys;
r.ixs = C.sent.length ? C.sent.slice() : Array.isArray(out) ? out : isIx(out) ? [out] : [];
r.wallet = w;
// where the client chooses a value, take it over once it has been judged
const mine = r.ixs.find((i) => i.data.subarray(0, 8).toString('hex') === data.subarray(0, 8).toString('hex') || ix.name === 'tokenLiqWithToken');
if (changed) r.data = C.encodeIx(ix.name, args).toString('hex');
try {
if (mine && Object.keys(args2).length) {
  const got = C.decodeIx(ix.name, mine.data).args;
  ix.args.forEach((x, i) => { if (args2[x.name]) { args2[x.name](got[i]); args[i] = got[i]; } });
  r.data = C.encodeIx(ix.name, args).toString('hex');
}
} catch (e) {
  if (!(e instanceof Skip)) throw e;
  delete r.ixs;
  r.skip = e.message;
}
r.subst = metas.map((m, i) => (subst[m.name] ? [i, subst[m.name].toBase58()] : null)).filter((x) => x);
return r;
