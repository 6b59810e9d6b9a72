#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ParseFixedError {
    pub(crate) overflow: bool,
}
impl core::fmt::Display for ParseFixedError {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str(if self.overflow { "overflow" } else { "invalid digit found in string" })
    }
}
impl std::error::Error for ParseFixedError {}

const INV: ParseFixedError = ParseFixedError { overflow: false };
const OVF: ParseFixedError = ParseFixedError { overflow: true };

/// Parse a decimal number into (neg, magnitude bits with `frac` fractional bits), nearest, ties to even.
pub fn parse(s: &str, frac: u32) -> Result<(bool, u128), ParseFixedError> {
    let (neg, body) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let (ip, fp) = match body.find('.') {
        Some(i) => (&body[..i], &body[i + 1..]),
        None => (body, ""),
    };
    if ip.is_empty() && fp.is_empty() {
        return Err(INV);
    }
    let mut int: u128 = 0;
    for c in ip.bytes() {
        if c == b'_' {
            continue;
        }
        if !c.is_ascii_digit() {
            return Err(INV);
        }
        int = int
            .checked_mul(10)
            .and_then(|v| v.checked_add((c - b'0') as u128))
            .ok_or(OVF)?;
    }
    let mut digits: Vec<u8> = vec![];
    for c in fp.bytes() {
        if c == b'_' {
            continue;
        }
        if !c.is_ascii_digit() {
            return Err(INV);
        }
        digits.push(c - b'0');
    }
    let mut bits: u128 = 0;
    for _ in 0..frac {
        let mut carry = 0u8;
        for d in digits.iter_mut().rev() {
            let v = *d * 2 + carry;
            *d = v % 10;
            carry = v / 10;
        }
        bits = (bits << 1) | carry as u128;
    }
    // compare the remainder with 0.5
    let first = digits.first().copied().unwrap_or(0);
    let rest = digits.iter().skip(1).any(|&d| d != 0);
    let up = first > 5 || (first == 5 && (rest || bits & 1 == 1));
    if frac < 128 && int >> (128 - frac) != 0 {
        return Err(OVF);
    }
    let mag = if frac == 128 { bits } else { (int << frac) | bits };
    let mag = mag.checked_add(up as u128).ok_or(OVF)?;
    Ok((neg, mag))
}

/// Format a magnitude with `frac` fractional bits.
pub fn format(
    neg: bool,
    int: u128,
    frac_part: u128, // left-aligned to 128 bits
    frac: u32,
    f: &mut core::fmt::Formatter,
) -> core::fmt::Result {
    // number of digits such that 10^-digits < delta; and nearest rounding
    let (prec, trim) = match f.precision() {
        Some(p) => (p, false),
        None => ((frac as f64 * 0.30103).ceil() as usize, true),
    };
    // decimal digits of frac_part, exact
    let mut digits = Vec::with_capacity(prec);
    let mut cur = frac_part;
    for _ in 0..prec {
        let (hi, lo) = crate::wide::mul_u128(cur, 10);
        digits.push(hi as u8);
        cur = lo;
    }
    let half = 1u128 << 127;
    let last_odd = digits.last().map(|d| d & 1 == 1).unwrap_or(int & 1 == 1);
    let mut int = int;
    if cur > half || (cur == half && last_odd) {
        let mut i = digits.len();
        let mut carry = true;
        while carry && i > 0 {
            i -= 1;
            if digits[i] == 9 {
                digits[i] = 0;
            } else {
                digits[i] += 1;
                carry = false;
            }
        }
        if carry {
            int += 1;
        }
    }
    if trim {
        while digits.last() == Some(&0) {
            digits.pop();
        }
    }
    let mut s = int.to_string();
    if !digits.is_empty() {
        s.push('.');
        s.extend(digits.iter().map(|d| (b'0' + d) as char));
    }
    let nonneg = !neg;
    f.pad_integral(nonneg, "", &s)
}
