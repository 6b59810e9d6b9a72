//! C26: the client's fixed-point numbers and unit conversions against an exact integer model.
use crate::ensure;
use crate::pbt::*;
use crate::ts::*;
use crate::world::*;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "suite `fixed`: every operation of the client's I80F48 on pairs of 128-bit values (small, half-unit, random widths, extremes, negative) against exact 256-bit integers; `text`: conversions from and to JS numbers, decimal strings, bytes, integers; `units`: native/ui amounts, prices and display rounding; `lots`: a perp market's lot conversions with random lot sizes and decimals. Every pair or number counts as non-trivial unless it is zero",
        assumptions: &["bn.js and big.js are stand-ins with the documented behaviour of the published packages", "lot sizes whose price tick is a multiple of 1e-6 (the client converts prices through quote-native integers)"],
        suites: vec![
            Suite { name: "fixed", quick: 12_000, thorough: 600_000, f: fixed },
            Suite { name: "text", quick: 12_000, thorough: 600_000, f: text },
            Suite { name: "units", quick: 12_000, thorough: 600_000, f: units },
            Suite { name: "lots", quick: 3_000, thorough: 60_000, f: lots },
        ],
    }
}

/// 256-bit magnitudes as (hi, lo)
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct U256(u128, u128);

fn mul256(a: u128, b: u128) -> U256 {
    let m = u64::MAX as u128;
    let (a1, a0, b1, b0) = (a >> 64, a & m, b >> 64, b & m);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
    U256(p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64), (p00 & m) | (mid << 64))
}

/// (magnitude >> 48), None if it needs more than 128 bits
fn shr48(x: U256) -> Option<u128> {
    if x.0 >> 48 != 0 {
        return None;
    }
    Some((x.0 << 80) | (x.1 >> 48))
}

/// floor((a << 48) / b), None if it needs more than 128 bits
fn div48(a: u128, b: u128) -> Option<u128> {
    let mut rem: u128 = 0;
    let mut q: u128 = 0;
    let mut over = false;
    for i in (0..176).rev() {
        let bit = if i >= 48 { (a >> (i - 48)) & 1 } else { 0 };
        let top = rem >> 127 != 0;
        rem = (rem << 1) | bit;
        if q >> 127 != 0 {
            over = true;
        }
        q <<= 1;
        if top || rem >= b {
            rem = rem.wrapping_sub(b);
            q |= 1;
        }
    }
    (!over).then_some(q)
}

/// apply a sign to a magnitude: a value in i128 range
fn signed(neg: bool, m: Option<u128>) -> Option<i128> {
    let m = m?;
    if neg {
        (m <= 1 << 127).then(|| (m as i128).wrapping_neg())
    } else {
        (m < 1 << 127).then_some(m as i128)
    }
}

fn raw(src: &mut Src) -> i128 {
    let one = 1i128 << 48;
    let v = match src.below(12) {
        0 => 0,
        1 => src.below(3) as i128 + 1,
        2 => one - 1 + src.below(3) as i128,
        3 => (src.below(1000) as i128) * one,
        4 => (src.below(1000) as i128) * one + one / 2,
        5 => (src.below(1000) as i128) * one + src.below(3) as i128 - 1,
        6 => src.log(1 << 62) as i128,
        7 => (src.log(1 << 62) as i128) << src.below(60),
        8 => src.log(1 << 62) as i128 * one / (1 + src.below(1_000_000) as i128),
        9 => {
            let hi = src.below(1 << 62) as i128;
            let lo = src.below(1 << 62) as i128;
            let s = src.below(126);
            ((hi << 64) | lo) >> s
        }
        10 => i128::MAX - src.log(1 << 60) as i128,
        _ => i128::MAX >> src.below(127),
    };
    match src.below(5) {
        0 | 1 => v.checked_neg().unwrap_or(v),
        2 if v > i128::MAX - 5 => i128::MIN + (i128::MAX - v),
        _ => v,
    }
}

const OPS: &str = "
  const o = [];
  for (const [x, y] of a.p) {
    const f = (g) => { const p = C.I(x), q = C.I(y); let r; try { r = g(p, q); } catch (e) { return 'E'; }
      if (p.data.toString() !== x || q.data.toString() !== y) return 'CHANGED'; return r; };
    const h = (g) => { const p = C.I(x), q = C.I(y); try { const r = g(p, q); return r === p && q.data.toString() === y ? p : 'CHANGED'; } catch (e) { return 'E'; } };
    o.push({
      add: f((p, q) => p.add(q)), sub: f((p, q) => p.sub(q)), mul: f((p, q) => p.mul(q)), div: f((p, q) => p.div(q)),
      iadd: h((p, q) => p.iadd(q)), isub: h((p, q) => p.isub(q)), imul: h((p, q) => p.imul(q)), idiv: h((p, q) => p.idiv(q)),
      cmp: f((p, q) => [p.cmp(q), p.lt(q), p.lte(q), p.gt(q), p.gte(q), p.eq(q)]),
      min: f((p, q) => p.min(q)), max: f((p, q) => p.max(q)),
      neg: f((p) => p.neg()), abs: f((p) => p.abs()), floor: f((p) => p.floor()), ceil: f((p) => p.ceil()), frac: f((p) => p.frac()),
      sgn: f((p) => [p.isPos(), p.isNeg(), p.isZero()]),
    });
  }
  return o;
";

/// the client's answer against the expected one; None: refused
fn same(v: &Value, want: Option<i128>, slack: i128) -> Result<(), String> {
    match (v.as_str(), want) {
        (Some("E"), None) => Ok(()),
        (Some("CHANGED"), _) => Err("operand changed".into()),
        (_, Some(w)) => match big(v) {
            Some(g) if g.abs_diff(w) <= slack as u128 => Ok(()),
            g => Err(format!("{g:?} expected {w}")),
        },
        (g, None) => Err(format!("{g:?} expected an error")),
    }
}

fn fixed(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let n = 24;
    let p: Vec<(i128, i128)> = (0..n)
        .map(|_| {
            let x = raw(src);
            let y = match src.below(6) {
                0 => x,
                1 => x.checked_neg().unwrap_or(x),
                _ => raw(src),
            };
            (x, y)
        })
        .collect();
    let mut ts = Ts::pure();
    ts.op(OPS, json!({"p": p.iter().map(|(x, y)| json!([x.to_string(), y.to_string()])).collect::<Vec<_>>()}));
    let out = ts.run()?;
    let o = out[0].as_ref().map_err(|e| format!("client: {e}"))?;
    let one = 1i128 << 48;
    for (k, (x, y)) in p.iter().enumerate() {
        let (x, y) = (*x, *y);
        if x != 0 && y != 0 {
            case.nontrivial();
        }
        let o = &o[k];
        let neg = (x < 0) != (y < 0);
        let mul = signed(neg, shr48(mul256(x.unsigned_abs(), y.unsigned_abs())));
        let div = if y == 0 { None } else { signed(neg, div48(x.unsigned_abs(), y.unsigned_abs())) };
        for (name, want) in [("add", x.checked_add(y)), ("sub", x.checked_sub(y)), ("mul", mul), ("div", div)] {
            same(&o[name], want, 0).map_err(|e| format!("{x} {name} {y}: {e}"))?;
            // the in-place forms give the same number (they do not check the range)
            if want.is_some() {
                let i = format!("i{name}");
                same(&o[&i], want, 0).map_err(|e| format!("{x} {i} {y}: {e}"))?;
            }
        }
        let c = x.cmp(&y) as i32;
        let want = json!([c, x < y, x <= y, x > y, x >= y, x == y]);
        ensure!(o["cmp"] == want, "comparison of {x} and {y}: {} expected {want}", o["cmp"]);
        ensure!(o["sgn"] == json!([x > 0, x < 0, x == 0]), "sign of {x}: {}", o["sgn"]);
        let fl = x.div_euclid(one).checked_mul(one);
        let fr = x.rem_euclid(one);
        let ce = if fr == 0 { Some(x) } else { fl.and_then(|f| f.checked_add(one)) };
        for (name, want) in [
            ("min", Some(x.min(y))),
            ("max", Some(x.max(y))),
            ("neg", x.checked_neg()),
            ("abs", x.checked_abs()),
            ("floor", fl),
            ("ceil", ce),
            ("frac", Some(fr)),
        ] {
            same(&o[name], want, 0).map_err(|e| format!("{name} of {x} ({y}): {e}"))?;
        }
        case.label(if mul.is_none() { "product out of range" } else { "product in range" });
    }
    Ok(())
}

const TEXT: &str = "
  const o = [];
  const I = C.I80F48;
  const t = (g) => { try { return g(); } catch (e) { return 'E'; } };
  for (const [x, n, s, i] of a.p) {
    const p = C.I(x);
    o.push({
      str: p.toString(), back: t(() => I.fromString(p.toString())), big: t(() => I.fromBig(p.toBig())),
      arr: t(() => Buffer.from(p.toArray()).toString('hex')), like: t(() => p.toArrayLike(Buffer, 'le', 16).toString('hex')),
      from: t(() => I.fromArray(new Uint8Array(p.toArray()))), bits: p.getBinaryLayout(), twos: p.toTwos(), num: p.toNumber(),
      fixed: p.toFixed(a.d), dto: I.from({ val: p.getData() }),
      fnum: t(() => I.fromNumber(n)), fnumu: t(() => I.fromNumberOrUndef(n)), fstr: t(() => I.fromString(s)), fopt: t(() => I.fromOptionalString(s)),
      i64: t(() => I.fromI64(C.N(i))), u64: t(() => I.fromU64(C.N(i))),
    });
  }
  const f = C.i80f48;
  o.push([f.ONE_I80F48(), f.MINUS_ONE_I80F48(), f.ZERO_I80F48(), f.HUNDRED_I80F48(), f.MAX_I80F48(), I.fromNumberOrUndef(undefined) === undefined, I.fromOptionalString(undefined) === undefined]);
  f.ONE_I80F48().iadd(f.ONE_I80F48());
  o.push(f.ONE_I80F48());
  return o;
";

/// v * 2^48 rounded to an integer, exact, for finite v
fn f64_raw(v: f64) -> Option<i128> {
    let b = v.abs().to_bits();
    let e = (b >> 52) as i32;
    let m = if e == 0 { b & ((1 << 52) - 1) } else { (b & ((1 << 52) - 1)) | (1 << 52) } as i128;
    let s = e.max(1) - 1075 + 48;
    let r = if s >= 0 {
        if s > 74 {
            return None;
        }
        m << s
    } else if s > -100 {
        m >> (-s)
    } else {
        0
    };
    Some(if v < 0.0 { -r } else { r })
}

fn number(src: &mut Src) -> f64 {
    let v = match src.below(9) {
        0 => src.below(1000) as f64,
        1 => src.log(1 << 53) as f64,
        2 => unit(src) * 10f64.powi(src.below(40) as i32 - 16),
        3 => src.log(1 << 53) as f64 / 10f64.powi(src.below(12) as i32),
        4 => (src.log(1 << 40) as f64 + 0.5) / 2f64.powi(src.below(20) as i32),
        5 => (1.0 + unit(src)) * 10f64.powi(18 + src.below(5) as i32),
        6 => src.below(1000) as f64 / 2f64.powi(48),
        7 => src.below(10_000) as f64 / 100.0,
        _ => (1.0 + unit(src)) * 10f64.powi(src.below(12) as i32),
    };
    if src.chance(30) {
        -v
    } else {
        v
    }
}

fn decimal(src: &mut Src) -> (String, i128, bool) {
    // a decimal with up to 20 places, below 2^70, and its raw value (half away from zero), exact below 14 places
    let int = src.log(1 << 60) as i128;
    let places = src.below(13) as u32;
    let frac = src.below(10u64.pow(places.min(12)).max(1)) as i128;
    let neg = src.chance(40);
    let s = format!("{}{int}{}", if neg { "-" } else { "" }, if places == 0 { String::new() } else { format!(".{:0w$}", frac, w = places as usize) });
    let d = 10i128.pow(places);
    let num = (frac << 48) * 2 + d;
    let r = (int << 48) + num / (2 * d);
    (s, if neg { -r } else { r }, neg)
}

fn text(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let n = 16;
    let mut p = vec![];
    for _ in 0..n {
        let x = raw(src);
        let v = number(src);
        let d = decimal(src);
        let i = match src.below(3) {
            0 => (src.log(1 << 62) as i128) * 2 + src.below(4) as i128,
            1 => -(src.log(1 << 62) as i128),
            _ => u64::MAX as i128 - src.below(3) as i128,
        };
        p.push((x, v, d, i));
    }
    let dec = src.below(10);
    let mut ts = Ts::pure();
    ts.op(TEXT, json!({"d": dec, "p": p.iter().map(|(x, v, d, i)| json!([x.to_string(), v, d.0, i.to_string()])).collect::<Vec<_>>()}));
    let out = ts.run()?;
    let o = out[0].as_ref().map_err(|e| format!("client: {e}"))?;
    let one = 1i128 << 48;
    for (k, (x, v, d, i)) in p.iter().enumerate() {
        let o = &o[k];
        if *x != 0 {
            case.nontrivial();
        }
        for name in ["back", "big", "from", "dto"] {
            same(&o[name], Some(*x), 0).map_err(|e| format!("{name} of {x}: {e}"))?;
        }
        let hex: String = x.to_le_bytes().iter().map(|b| format!("{b:02x}")).collect();
        ensure!(o["arr"] == json!(hex) && o["like"] == json!(hex), "bytes of {x}: {} {}", o["arr"], o["like"]);
        ensure!(o["bits"] == json!(format!("{:0128b}", *x as u128)), "binary layout of {x}: {}", o["bits"]);
        ensure!(o["twos"] == json!((*x as u128).to_string()), "two's complement of {x}: {}", o["twos"]);
        let want = *x as f64 / one as f64;
        let got = flt(&o["num"]).ok_or("toNumber")?;
        ensure!((got - want).abs() <= 1e-20 + want.abs() * 1e-15, "toNumber of {x}: {got} expected {want}");
        let got: f64 = o["fixed"].as_str().and_then(|s| s.parse().ok()).ok_or(format!("toFixed of {x}: {}", o["fixed"]))?;
        ensure!((got - want).abs() <= 0.5001 * 10f64.powi(-(dec as i32)) + 1e-14 + want.abs() * 1e-15, "toFixed({dec}) of {x}: {got} expected {want}");
        let w = o["fixed"].as_str().unwrap();
        ensure!(w.split('.').nth(1).map_or(0, |f| f.len()) == dec as usize, "toFixed({dec}) of {x}: {w}");
        // numbers: exact up to the last place, or refused when out of range
        match f64_raw(*v) {
            Some(r) => {
                for name in ["fnum", "fnumu"] {
                    same(&o[name], Some(r), 0).map_err(|e| format!("{name} of {v:e}: {e}"))?;
                }
            }
            None => ensure!(o["fnum"] == json!("E"), "fromNumber({v:e}): {}", o["fnum"]),
        }
        for name in ["fstr", "fopt"] {
            same(&o[name], Some(d.1), 0).map_err(|e| format!("{name} of {}: {e}", d.0))?;
        }
        for name in ["i64", "u64"] {
            same(&o[name], Some(i << 48), 0).map_err(|e| format!("{name} of {i}: {e}"))?;
        }
    }
    let c = &o[n];
    for (i, w) in [one, -one, 0, 100 * one, i128::MAX].iter().enumerate() {
        same(&c[i], Some(*w), 0).map_err(|e| format!("constant {i}: {e}"))?;
    }
    ensure!(c[5] == json!(true) && c[6] == json!(true), "undefined");
    same(&o[n + 1], Some(one), 0).map_err(|e| format!("constants are shared: {e}"))?;
    Ok(())
}

const UNITS: &str = "
  const o = [];
  const u = C.utils;
  const t = (g) => { try { return g(); } catch (e) { return 'E'; } };
  for (const [n, d, x, v, d2, r] of a.p) {
    const sell = { mintDecimals: d }, buy = { mintDecimals: d2 };
    o.push({
      bn: t(() => u.toUiDecimals(C.N(n), d)), fx: t(() => u.toUiDecimals(C.I(x), d)), nu: t(() => u.toUiDecimals(v, d)),
      q: t(() => u.toUiDecimalsForQuote(C.N(n))), ui: t(() => u.toUiI80F48(C.I(x), d)),
      back: t(() => u.toNative(u.toUiDecimals(C.N(n), d), d)), nat: t(() => u.toNative(v, d)), nfx: t(() => u.toNativeI80F48(v, d)), nq: t(() => u.toNativeI80F48ForQuote(v)),
      sb: t(() => u.toNativeSellPerBuyTokenPrice(v, sell, buy)), sbu: t(() => u.toUiSellPerBuyTokenPrice(v, sell, buy)),
      sbb: t(() => u.toUiSellPerBuyTokenPrice(u.toNativeSellPerBuyTokenPrice(v, sell, buy), sell, buy)),
      r5: t(() => u.roundTo5(r)), bps: u.bpsToDecimal(v), pc: u.percentageToDecimal(v),
    });
  }
  return o;
";

fn units(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let n = 20;
    let mut p = vec![];
    for _ in 0..n {
        let nat = src.log(1 << 52);
        let d = src.below(13) as i32;
        let x = (src.log(1 << 60) as i128) << src.below(40);
        let x = if src.bool() { -x } else { x };
        let v = match src.below(3) {
            0 => src.below(100_000) as f64 / 100.0,
            1 => unit(src) * 10f64.powi(src.below(14) as i32 - 8),
            _ => src.log(1 << 30) as f64 / 10f64.powi(src.below(9) as i32),
        };
        let d2 = src.below(13) as i32;
        let r = match src.below(5) {
            0 => unit(src) * 10f64.powi(src.below(24) as i32 - 14),
            1 => src.below(1000) as f64 + unit(src) * 10f64.powi(-(src.below(10) as i32)),
            2 => 10f64.powi(src.below(16) as i32 - 8),
            3 => src.below(1_000_000) as f64 / 10f64.powi(src.below(14) as i32),
            _ => src.flog(1e-9, 1e7),
        };
        p.push((nat, d, x, v, d2, r));
    }
    let mut ts = Ts::pure();
    ts.op(UNITS, json!({"p": p.iter().map(|(a, b, c, d, e, f)| json!([a.to_string(), b, c.to_string(), d, e, f])).collect::<Vec<_>>()}));
    let out = ts.run()?;
    let o = out[0].as_ref().map_err(|e| format!("client: {e}"))?;
    for (k, (nat, d, x, v, d2, r)) in p.iter().enumerate() {
        let o = &o[k];
        let g = |n: &str| flt(&o[n]).ok_or(format!("{n}({nat} {d} {x} {v} {d2} {r}): {}", o[n]));
        if *nat != 0 {
            case.nontrivial();
        }
        let sc = 10f64.powi(*d);
        let xf = *x as f64 / 2f64.powi(48);
        let near = |name: &str, got: f64, want: f64, abs: f64| -> Result<(), String> {
            ensure!((got - want).abs() <= abs + want.abs() * 1e-12, "{name}({nat} {d} {x} {v} {d2} {r}): {got} expected {want}");
            Ok(())
        };
        let ulp = 4e-15;
        near("toUiDecimals(BN)", g("bn")?, *nat as f64 / sc, ulp)?;
        near("toUiDecimals(I80F48)", g("fx")?, xf / sc, ulp)?;
        near("toUiDecimals(number)", g("nu")?, v / sc, 0.0)?;
        near("toUiDecimalsForQuote", g("q")?, *nat as f64 / 1e6, ulp)?;
        near("toUiI80F48", fix(&o["ui"]).ok_or("toUiI80F48")?, xf / sc, ulp)?;
        near("toNativeI80F48", fix(&o["nfx"]).ok_or(format!("toNativeI80F48({v}, {d}): {}", o["nfx"]))?, v * sc, ulp)?;
        near("toNativeI80F48ForQuote", fix(&o["nq"]).ok_or("toNativeI80F48ForQuote")?, v * 1e6, ulp)?;
        // back to the same integer (amounts that a double with 2^-48 resolution can tell apart)
        if *d <= 12 && (*nat as f64) < 2f64.powi(50) {
            ensure!(big(&o["back"]) == Some(*nat as i128), "toNative(toUiDecimals({nat}, {d}), {d}) = {}", o["back"]);
        }
        if v * sc < 1e20 {
            let got = big(&o["nat"]).ok_or(format!("toNative({v}, {d}): {}", o["nat"]))?;
            ensure!((got as f64 - v * sc).abs() <= 0.5 + v * sc * 1e-15, "toNative({v}, {d}) = {got}");
        }
        near("toNativeSellPerBuyTokenPrice", g("sb")?, v * 10f64.powi(d - d2), 0.0)?;
        near("toUiSellPerBuyTokenPrice", g("sbu")?, v / 10f64.powi(d - d2), 0.0)?;
        near("sell per buy price round trip", g("sbb")?, *v, 0.0)?;
        near("bpsToDecimal", g("bps")?, v / 1e4, 0.0)?;
        near("percentageToDecimal", g("pc")?, v / 1e2, 0.0)?;
        // five significant digits
        let got = g("r5")?;
        ensure!((got - r).abs() <= 1.001e-4 * r, "roundTo5({r:e}) = {got:e}");
        case.label(if *r < 1e-6 { "price in exponent notation" } else { "plain price" });
    }
    Ok(())
}

const LOTS: &str = "
  const g = C.group, o = [];
  for (const pm of Array.from(g.perpMarketsMapByMarketIndex.values())) {
    const t = (f) => { try { return f(); } catch (e) { return 'E ' + e; } };
    const r = { i: pm.perpMarketIndex, tick: pm.tickSize, min: pm.minOrderSize, one: t(() => pm.priceNativeToUi(a.native)), c: [] };
    for (const x of a.x) {
      const n = C.N(x);
      r.c.push({
        up: t(() => pm.priceLotsToUi(n)), ub: t(() => pm.baseLotsToUi(n)), uq: t(() => pm.quoteLotsToUi(n)),
        np: t(() => pm.priceLotsToNative(n)),
        bp: t(() => pm.uiPriceToLots(pm.priceLotsToUi(n))), bb: t(() => pm.uiBaseToLots(pm.baseLotsToUi(n))), bq: t(() => pm.uiQuoteToLots(pm.quoteLotsToUi(n))),
      });
    }
    o.push(r);
  }
  return o;
";

fn lots(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let w = World::new();
    let mut prm = vec![];
    for p in 0..w.perps.len() {
        // powers of ten, as the program's documentation requires
        let dec = src.below(10) as i32;
        let bls = 10i64.pow(src.below(10) as u32);
        // tick = 10^(dec-6) qls / bls, at least 1e-6
        let mut q = src.below(6) as i32;
        let lb = (bls as f64).log10().round() as i32;
        if dec - 6 + q - lb < -6 {
            q = lb - dec;
        }
        let qls = 10i64.pow(q.max(0) as u32);
        w.edit_perp(p, |m| {
            m.base_lot_size = bls;
            m.quote_lot_size = qls;
            m.base_decimals = dec as u8;
        });
        prm.push((dec, bls, qls));
    }
    let x: Vec<u64> = (0..12).map(|_| src.log(100_000_000)).collect();
    let native = src.flog(1e-9, 1e9);
    let mut ts = Ts::on(&w, &[]);
    ts.op(LOTS, json!({"native": native, "x": x.iter().map(|x| x.to_string()).collect::<Vec<_>>()}));
    let out = ts.run()?;
    let o = out[0].as_ref().map_err(|e| format!("client: {e}"))?;
    for (p, (dec, bls, qls)) in prm.iter().enumerate() {
        let idx = w.perp(p).perp_market_index;
        let o = o.as_array().unwrap().iter().find(|m| big(&m["i"]) == Some(idx as i128)).ok_or("market missing")?;
        let tick = 10f64.powi(dec - 6) * *qls as f64 / *bls as f64;
        let min = *bls as f64 / 10f64.powi(*dec);
        let ctx = format!("decimals {dec} base lot {bls} quote lot {qls}");
        ensure!(close(flt(&o["tick"]).unwrap_or(-1.0), tick, 1e-12, 0.0), "{ctx}: tick {} expected {tick}", o["tick"]);
        ensure!(close(flt(&o["min"]).unwrap_or(-1.0), min, 1e-12, 0.0), "{ctx}: min order size {} expected {min}", o["min"]);
        ensure!(close(flt(&o["one"]).unwrap_or(-1.0), native * 10f64.powi(dec - 6), 1e-12, 0.0), "{ctx}: native price {native} is ui {}", o["one"]);
        for (k, x) in x.iter().enumerate() {
            let c = &o["c"][k];
            if *x != 0 {
                case.nontrivial();
            }
            for (name, want) in [("up", *x as f64 * tick), ("ub", *x as f64 * min), ("uq", *x as f64 * *qls as f64 / 1e6)] {
                ensure!(close(flt(&c[name]).unwrap_or(-1.0), want, 1e-12, 0.0), "{ctx}: {name}({x}) = {} expected {want}", c[name]);
            }
            let want = f(w.perp(p).lot_to_native_price(*x as i64));
            let got = fix(&c["np"]).ok_or(format!("{ctx}: priceLotsToNative({x}): {}", c["np"]))?;
            ensure!(close(got, want, 1e-12, 1e-14), "{ctx}: priceLotsToNative({x}) = {got}, the program's is {want}");
            // within what a double can hold exactly
            let nat = [*x as f64 * tick * 1e6, *x as f64 * *bls as f64, *x as f64 * *qls as f64];
            for (name, nat) in ["bp", "bb", "bq"].into_iter().zip(nat) {
                if nat > 2f64.powi(51) {
                    continue;
                }
                ensure!(big(&c[name]) == Some(*x as i128), "{ctx}: {name}: {x} lots come back as {}", c[name]);
            }
        }
    }
    Ok(())
}

/// in [0, 1), all 53 bits
fn unit(src: &mut Src) -> f64 {
    src.below(1 << 53) as f64 / 2f64.powi(53)
}
