/// 128x128 -> 256 (hi, lo)
pub fn mul_u128(a: u128, b: u128) -> (u128, u128) {
    const M: u128 = u64::MAX as u128;
    let (a1, a0) = (a >> 64, a & M);
    let (b1, b0) = (b >> 64, b & M);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & M) + (p10 & M);
    let lo = (p00 & M) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (hi, lo)
}

/// floor(a*b / 2^frac) for unsigned; second = remainder is nonzero; None on overflow
pub fn mul_shift_u(a: u128, b: u128, frac: u32) -> (u128, bool, bool) {
    let (hi, lo) = mul_u128(a, b);
    let rem = if frac == 0 { 0 } else { lo << (128 - frac) };
    let val = if frac == 0 { lo } else { (lo >> frac) | (hi << (128 - frac)) };
    let overflow = (hi >> frac) != 0;
    (val, rem != 0, overflow)
}

/// (a << frac) / b and whether it overflowed u128
pub fn div_shift_u(a: u128, b: u128, frac: u32) -> (u128, bool) {
    // 256 / 128 division by shift-subtract, with fast paths
    let hi = if frac == 0 { 0 } else { a >> (128 - frac) };
    let lo = a << frac;
    if hi == 0 {
        return (lo / b, false);
    }
    let overflow = hi >= b;
    // quotient modulo 2^128
    let mut rem = hi % b;
    if b <= u64::MAX as u128 {
        let n1 = (rem << 64) | (lo >> 64);
        let q1 = n1 / b;
        rem = n1 % b;
        let n0 = (rem << 64) | (lo & u64::MAX as u128);
        let q0 = n0 / b;
        return ((q1 << 64) | q0, overflow);
    }
    let mut q = 0u128;
    for i in (0..128).rev() {
        let carry = rem >> 127;
        rem = (rem << 1) | ((lo >> i) & 1);
        q <<= 1;
        if carry == 1 || rem >= b {
            rem = rem.wrapping_sub(b);
            q |= 1;
        }
    }
    (q, overflow)
}
