use crate::Exact;

/// Decompose: (neg, mantissa, exponent) with value = mantissa * 2^exponent. None for NaN/inf.
pub fn decompose(f: f64) -> Option<(bool, u64, i32)> {
    if !f.is_finite() {
        return None;
    }
    let bits = f.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1u64 << 52) - 1);
    if e == 0 {
        Some((neg, m, -1074))
    } else {
        Some((neg, m | (1u64 << 52), e - 1075))
    }
}

/// round-half-even of |f| * 2^frac; None if NaN/inf; Err(()) if it does not fit u128
pub fn to_mag(f: f64, frac: u32) -> Option<Result<(bool, u128), ()>> {
    let (neg, m, e) = decompose(f)?;
    if m == 0 {
        return Some(Ok((neg, 0)));
    }
    let s = e + frac as i32;
    if s >= 0 {
        let lz = (m as u128).leading_zeros() as i32;
        if s > lz {
            return Some(Err(()));
        }
        Some(Ok((neg, (m as u128) << s)))
    } else {
        let r = (-s) as u32;
        if r > 64 {
            return Some(Ok((neg, 0)));
        }
        let m = m as u128;
        let q = m >> r;
        let rem = m & ((1u128 << r) - 1);
        let half = 1u128 << (r - 1);
        let up = rem > half || (rem == half && q & 1 == 1);
        Some(Ok((neg, q + up as u128)))
    }
}

/// For exact comparison. Huge values saturate to int = MAX (beyond any fixed value).
pub fn exact(f: f64) -> Option<Exact> {
    if f.is_nan() {
        return None;
    }
    if f.is_infinite() {
        return Some(Exact { neg: f < 0.0, int: u128::MAX, frac: u128::MAX });
    }
    let (neg, m, e) = decompose(f)?;
    let m = m as u128;
    let (int, frac) = if e >= 0 {
        if e > 74 {
            if m == 0 { (0, 0) } else { (u128::MAX, u128::MAX) }
        } else {
            (m << e, 0)
        }
    } else {
        let r = (-e) as u32;
        if r < 128 {
            (m >> r, m << (128 - r))
        } else if r < 256 {
            // sticky bit so that nonzero stays nonzero
            let q = m >> (r - 128);
            (0, if q == 0 && m != 0 { 1 } else { q })
        } else {
            (0, if m != 0 { 1 } else { 0 })
        }
    };
    Some(Exact { neg, int, frac })
}
