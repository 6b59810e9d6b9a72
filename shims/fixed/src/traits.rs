use crate::Exact;

/// Something a fixed-point number can be made from.
pub trait ToFixed: Copy {
    /// magnitude scaled by 2^frac with the type's rounding: Ok((neg, mag)) ; Err(false)=not finite, Err(true)=overflow
    #[doc(hidden)]
    fn __scaled(self, frac: u32) -> Result<(bool, u128), bool>;
}
/// Something a fixed-point number can be converted to.
pub trait FromFixed: Sized {
    /// bits: two's complement magnitude representation (neg, mag) with frac bits
    #[doc(hidden)]
    fn __from_scaled(neg: bool, mag: u128, frac: u32) -> Option<Self>;
    #[doc(hidden)]
    fn __saturating_from_scaled(neg: bool, mag: u128, frac: u32) -> Self;
    #[doc(hidden)]
    fn __wrapping_from_scaled(neg: bool, mag: u128, frac: u32) -> Self;
}
#[doc(hidden)]
pub trait ToExact: Copy {
    fn __exact(self) -> Option<Exact>;
}
/// Marker for fixed-point numbers.
pub trait Fixed: Copy + FromFixed + ToFixed {}

/// floor((-1)^neg * mag / 2^frac) as (neg, mag)
pub(crate) fn floor_int(neg: bool, mag: u128, frac: u32) -> (bool, u128) {
    let q = if frac >= 128 { 0 } else { mag >> frac };
    let rem = if frac == 0 { 0 } else if frac >= 128 { mag } else { mag & ((1u128 << frac) - 1) };
    if neg && rem != 0 {
        (true, q + 1)
    } else {
        (neg && q != 0, q)
    }
}

/// rescale from `from` to `to` fractional bits, flooring
pub(crate) fn rescale(neg: bool, mag: u128, from: u32, to: u32) -> Option<(bool, u128)> {
    if to >= from {
        let s = to - from;
        if mag != 0 && s > mag.leading_zeros() {
            return None;
        }
        Some((neg, if s >= 128 { 0 } else { mag << s }))
    } else {
        Some(floor_int(neg, mag, from - to))
    }
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl ToFixed for $t {
            #[inline]
            fn __scaled(self, frac: u32) -> Result<(bool, u128), bool> {
                #[allow(unused_comparisons)]
                let neg = self < 0;
                let mag = if neg { (self as i128).unsigned_abs() } else { self as u128 };
                if mag != 0 && frac > mag.leading_zeros() { return Err(true); }
                Ok((neg, if mag == 0 { 0 } else { mag << frac }))
            }
        }
        impl FromFixed for $t {
            #[inline]
            fn __from_scaled(neg: bool, mag: u128, frac: u32) -> Option<Self> {
                let (neg, q) = floor_int(neg, mag, frac);
                if !neg { return <$t>::try_from(q).ok(); }
                if q > 1u128 << 127 { return None; }
                <$t>::try_from((q as i128).wrapping_neg()).ok()
            }
            #[inline]
            fn __saturating_from_scaled(neg: bool, mag: u128, frac: u32) -> Self {
                Self::__from_scaled(neg, mag, frac).unwrap_or(if neg { <$t>::MIN } else { <$t>::MAX })
            }
            #[inline]
            fn __wrapping_from_scaled(neg: bool, mag: u128, frac: u32) -> Self {
                let (neg, q) = floor_int(neg, mag, frac);
                if neg { q.wrapping_neg() as $t } else { q as $t }
            }
        }
        impl ToExact for $t {
            #[inline]
            fn __exact(self) -> Option<Exact> {
                #[allow(unused_comparisons)]
                let neg = self < 0;
                let int = if neg { (self as i128).unsigned_abs() } else { self as u128 };
                Some(Exact { neg, int, frac: 0 })
            }
        }
    )*};
}
ints!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

impl ToFixed for bool {
    fn __scaled(self, frac: u32) -> Result<(bool, u128), bool> {
        (self as u8).__scaled(frac)
    }
}
impl ToExact for bool {
    fn __exact(self) -> Option<Exact> {
        (self as u8).__exact()
    }
}

fn ldexp_mag(neg: bool, mag: u128, frac: u32) -> f64 {
    // u128 -> f64 rounds to nearest even; scaling by a power of two is exact in range
    let v = mag as f64 * (2f64).powi(-(frac as i32));
    if neg { -v } else { v }
}
impl ToFixed for f64 {
    #[inline]
    fn __scaled(self, frac: u32) -> Result<(bool, u128), bool> {
        match crate::float::to_mag(self, frac) {
            None => Err(false),
            Some(Err(())) => Err(true),
            Some(Ok(v)) => Ok(v),
        }
    }
}
impl FromFixed for f64 {
    #[inline]
    fn __from_scaled(neg: bool, mag: u128, frac: u32) -> Option<Self> {
        Some(ldexp_mag(neg, mag, frac))
    }
    fn __saturating_from_scaled(neg: bool, mag: u128, frac: u32) -> Self {
        ldexp_mag(neg, mag, frac)
    }
    fn __wrapping_from_scaled(neg: bool, mag: u128, frac: u32) -> Self {
        ldexp_mag(neg, mag, frac)
    }
}
impl ToExact for f64 {
    #[inline]
    fn __exact(self) -> Option<Exact> {
        crate::float::exact(self)
    }
}
impl ToFixed for f32 {
    #[inline]
    fn __scaled(self, frac: u32) -> Result<(bool, u128), bool> {
        (self as f64).__scaled(frac)
    }
}
fn f32_of(neg: bool, mag: u128, frac: u32) -> f32 {
    let v = mag as f32 * (2f32).powi(-(frac as i32));
    if neg { -v } else { v }
}
impl FromFixed for f32 {
    #[inline]
    fn __from_scaled(neg: bool, mag: u128, frac: u32) -> Option<Self> {
        Some(f32_of(neg, mag, frac))
    }
    fn __saturating_from_scaled(neg: bool, mag: u128, frac: u32) -> Self {
        f32_of(neg, mag, frac)
    }
    fn __wrapping_from_scaled(neg: bool, mag: u128, frac: u32) -> Self {
        f32_of(neg, mag, frac)
    }
}
impl ToExact for f32 {
    #[inline]
    fn __exact(self) -> Option<Exact> {
        crate::float::exact(self as f64)
    }
}

/// Lossless/lossy conversion trait pairs of the original crate.
pub trait LossyFrom<Src> {
    fn lossy_from(src: Src) -> Self;
}
pub trait LossyInto<Dst> {
    fn lossy_into(self) -> Dst;
}
impl<Src, Dst: LossyFrom<Src>> LossyInto<Dst> for Src {
    fn lossy_into(self) -> Dst {
        Dst::lossy_from(self)
    }
}
