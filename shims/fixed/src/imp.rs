pub use crate::traits::*;
pub use crate::Exact;

#[inline]
pub fn signed_from_mag_128(neg: bool, mag: u128) -> Option<i128> {
    if neg {
        if mag > 1u128 << 127 { None } else { Some((mag as i128).wrapping_neg()) }
    } else if mag > i128::MAX as u128 {
        None
    } else {
        Some(mag as i128)
    }
}

macro_rules! fixed_type {
    ($Name:ident, $Inner:ty, $sign:ident, $frac:expr, $int:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        #[repr(transparent)]
        pub struct $Name {
            bits: $Inner,
        }
        unsafe impl bytemuck::Zeroable for $Name {}
        unsafe impl bytemuck::Pod for $Name {}

        impl $Name {
            pub const ZERO: $Name = $Name { bits: 0 };
            pub const DELTA: $Name = $Name { bits: 1 };
            pub const MIN: $Name = $Name { bits: <$Inner>::MIN };
            pub const MAX: $Name = $Name { bits: <$Inner>::MAX };
            pub const ONE: $Name = $Name { bits: 1 << $frac };
            pub const INT_NBITS: u32 = $int;
            pub const FRAC_NBITS: u32 = $frac;
            pub const INT_BITS: u32 = $int;
            pub const FRAC_BITS: u32 = $frac;
            const FRAC_MASK: $Inner = (1 << $frac) - 1;

            #[inline] pub const fn from_bits(bits: $Inner) -> Self { $Name { bits } }
            #[inline] pub const fn to_bits(self) -> $Inner { self.bits }
            #[inline] pub const fn from_be_bytes(b: [u8; core::mem::size_of::<$Inner>()]) -> Self { Self { bits: <$Inner>::from_be_bytes(b) } }
            #[inline] pub const fn from_le_bytes(b: [u8; core::mem::size_of::<$Inner>()]) -> Self { Self { bits: <$Inner>::from_le_bytes(b) } }
            #[inline] pub const fn from_ne_bytes(b: [u8; core::mem::size_of::<$Inner>()]) -> Self { Self { bits: <$Inner>::from_ne_bytes(b) } }
            #[inline] pub const fn to_be_bytes(self) -> [u8; core::mem::size_of::<$Inner>()] { self.bits.to_be_bytes() }
            #[inline] pub const fn to_le_bytes(self) -> [u8; core::mem::size_of::<$Inner>()] { self.bits.to_le_bytes() }
            #[inline] pub const fn to_ne_bytes(self) -> [u8; core::mem::size_of::<$Inner>()] { self.bits.to_ne_bytes() }
            #[inline] pub const fn is_zero(self) -> bool { self.bits == 0 }
            #[inline] pub const fn count_ones(self) -> u32 { self.bits.count_ones() }
            #[inline] pub const fn count_zeros(self) -> u32 { self.bits.count_zeros() }
            #[inline] pub const fn leading_zeros(self) -> u32 { self.bits.leading_zeros() }
            #[inline] pub const fn leading_ones(self) -> u32 { self.bits.leading_ones() }
            #[inline] pub const fn trailing_zeros(self) -> u32 { self.bits.trailing_zeros() }
            #[inline] pub const fn trailing_ones(self) -> u32 { self.bits.trailing_ones() }

            #[inline]
            pub(crate) fn __parts(self) -> (bool, u128) {
                #[allow(unused_comparisons)]
                let neg = self.bits < 0;
                (neg, if neg { (self.bits as i128).unsigned_abs() } else { self.bits as u128 })
            }
            #[inline]
            pub(crate) fn __from_parts(neg: bool, mag: u128) -> Option<Self> {
                fixed_type!(@fromparts $sign, $Inner, neg, mag).map(Self::from_bits)
            }

            #[inline]
            #[track_caller]
            pub fn from_num<Src: ToFixed>(src: Src) -> Self {
                match src.__scaled($frac) {
                    Ok((neg, mag)) => match Self::__from_parts(neg && mag != 0, mag) {
                        Some(v) => v,
                        None => panic!("overflow"),
                    },
                    Err(true) => panic!("overflow"),
                    Err(false) => panic!("value is not finite"),
                }
            }
            #[inline]
            pub fn checked_from_num<Src: ToFixed>(src: Src) -> Option<Self> {
                let (neg, mag) = src.__scaled($frac).ok()?;
                Self::__from_parts(neg && mag != 0, mag)
            }
            #[inline]
            #[track_caller]
            pub fn saturating_from_num<Src: ToFixed + PartialOrd + Default>(src: Src) -> Self {
                let neg = src < Src::default();
                match src.__scaled($frac) {
                    Ok((n, mag)) => Self::__from_parts(n && mag != 0, mag).unwrap_or(if neg { Self::MIN } else { Self::MAX }),
                    Err(true) => if neg { Self::MIN } else { Self::MAX },
                    Err(false) => if src > Src::default() { Self::MAX } else if neg { Self::MIN } else { panic!("NaN") },
                }
            }
            #[inline]
            #[track_caller]
            pub fn unwrapped_from_num<Src: ToFixed>(src: Src) -> Self { Self::from_num(src) }
            #[inline]
            #[track_caller]
            pub fn to_num<Dst: FromFixed>(self) -> Dst {
                let (neg, mag) = self.__parts();
                match Dst::__from_scaled(neg, mag, $frac) {
                    Some(v) => v,
                    None => panic!("overflow"),
                }
            }
            #[inline]
            pub fn checked_to_num<Dst: FromFixed>(self) -> Option<Dst> {
                let (neg, mag) = self.__parts();
                Dst::__from_scaled(neg, mag, $frac)
            }
            #[inline]
            pub fn saturating_to_num<Dst: FromFixed>(self) -> Dst {
                let (neg, mag) = self.__parts();
                Dst::__saturating_from_scaled(neg, mag, $frac)
            }
            #[inline]
            pub fn wrapping_to_num<Dst: FromFixed>(self) -> Dst {
                let (neg, mag) = self.__parts();
                Dst::__wrapping_from_scaled(neg, mag, $frac)
            }
            #[inline]
            #[track_caller]
            pub fn unwrapped_to_num<Dst: FromFixed>(self) -> Dst { self.to_num() }

            // ---- rounding ----
            #[inline] pub const fn int(self) -> Self { Self { bits: self.bits & !Self::FRAC_MASK } }
            #[inline] pub const fn frac(self) -> Self { Self { bits: self.bits & Self::FRAC_MASK } }
            #[inline] pub const fn floor(self) -> Self { self.int() }
            #[inline]
            pub fn checked_floor(self) -> Option<Self> { Some(self.int()) }
            #[inline]
            pub fn checked_ceil(self) -> Option<Self> {
                if self.bits & Self::FRAC_MASK == 0 { return Some(self); }
                (self.int().bits).checked_add(1 << $frac).map(Self::from_bits)
            }
            #[inline]
            #[track_caller]
            pub fn ceil(self) -> Self { self.checked_ceil().expect("overflow") }
            #[inline]
            pub fn round_to_zero(self) -> Self {
                let (neg, mag) = self.__parts();
                let q = (mag >> $frac) << $frac;
                Self::__from_parts(neg && q != 0, q).unwrap()
            }
            /// ties away from zero
            #[inline]
            pub fn checked_round(self) -> Option<Self> {
                let (neg, mag) = self.__parts();
                let q = (mag.checked_add(1u128 << ($frac - 1))? >> $frac) << $frac;
                Self::__from_parts(neg && q != 0, q)
            }
            #[inline]
            #[track_caller]
            pub fn round(self) -> Self { self.checked_round().expect("overflow") }
            #[inline]
            pub fn checked_round_ties_to_even(self) -> Option<Self> {
                let (neg, mag) = self.__parts();
                let half = 1u128 << ($frac - 1);
                let rem = mag & ((1u128 << $frac) - 1);
                let mut q = mag >> $frac;
                if rem > half || (rem == half && q & 1 == 1) { q += 1; }
                if q != 0 && q.leading_zeros() < $frac { return None; }
                let q = q << $frac;
                Self::__from_parts(neg && q != 0, q)
            }
            #[inline]
            #[track_caller]
            pub fn round_ties_to_even(self) -> Self { self.checked_round_ties_to_even().expect("overflow") }

            // ---- checked ----
            #[inline] pub fn checked_add(self, r: Self) -> Option<Self> { self.bits.checked_add(r.bits).map(Self::from_bits) }
            #[inline] pub fn checked_sub(self, r: Self) -> Option<Self> { self.bits.checked_sub(r.bits).map(Self::from_bits) }
            #[inline] pub fn checked_neg(self) -> Option<Self> { self.bits.checked_neg().map(Self::from_bits) }
            #[inline]
            pub fn checked_mul(self, r: Self) -> Option<Self> {
                let (an, am) = self.__parts();
                let (bn, bm) = r.__parts();
                let neg = an ^ bn;
                let (v, rem, o) = crate::wide::mul_shift_u(am, bm, $frac);
                if o { return None; }
                let v = if neg && rem { v.checked_add(1)? } else { v };
                Self::__from_parts(neg && v != 0, v)
            }
            #[inline]
            pub fn checked_div(self, r: Self) -> Option<Self> {
                if r.bits == 0 { return None; }
                let (an, am) = self.__parts();
                let (bn, bm) = r.__parts();
                let (v, o) = crate::wide::div_shift_u(am, bm, $frac);
                if o { return None; }
                Self::__from_parts((an ^ bn) && v != 0, v)
            }
            #[inline] pub fn checked_rem(self, r: Self) -> Option<Self> { self.bits.checked_rem(r.bits).map(Self::from_bits) }
            #[inline] pub fn checked_mul_int(self, r: $Inner) -> Option<Self> { self.bits.checked_mul(r).map(Self::from_bits) }
            #[inline] pub fn checked_div_int(self, r: $Inner) -> Option<Self> { self.bits.checked_div(r).map(Self::from_bits) }
            #[inline] pub fn checked_shl(self, r: u32) -> Option<Self> { self.bits.checked_shl(r).map(Self::from_bits) }
            #[inline] pub fn checked_shr(self, r: u32) -> Option<Self> { self.bits.checked_shr(r).map(Self::from_bits) }
            #[inline]
            pub fn checked_recip(self) -> Option<Self> { Self::ONE.checked_div(self) }
            #[inline]
            #[track_caller]
            pub fn recip(self) -> Self { self.checked_recip().expect("overflow") }
            #[inline]
            pub fn checked_mul_add(self, m: Self, a: Self) -> Option<Self> { self.checked_mul(m)?.checked_add(a) }
            #[inline]
            #[track_caller]
            pub fn mul_add(self, m: Self, a: Self) -> Self { self.checked_mul_add(m, a).expect("overflow") }

            // ---- saturating ----
            #[inline] pub fn saturating_add(self, r: Self) -> Self { Self::from_bits(self.bits.saturating_add(r.bits)) }
            #[inline] pub fn saturating_sub(self, r: Self) -> Self { Self::from_bits(self.bits.saturating_sub(r.bits)) }
            #[inline]
            pub fn saturating_mul(self, r: Self) -> Self {
                self.checked_mul(r).unwrap_or(if self.__parts().0 ^ r.__parts().0 { Self::MIN } else { Self::MAX })
            }
            #[inline]
            #[track_caller]
            pub fn saturating_div(self, r: Self) -> Self {
                if r.bits == 0 { panic!("division by zero"); }
                self.checked_div(r).unwrap_or(if self.__parts().0 ^ r.__parts().0 { Self::MIN } else { Self::MAX })
            }
            #[inline] pub fn saturating_mul_int(self, r: $Inner) -> Self { Self::from_bits(self.bits.saturating_mul(r)) }

            // ---- wrapping / overflowing ----
            #[inline] pub const fn wrapping_add(self, r: Self) -> Self { Self::from_bits(self.bits.wrapping_add(r.bits)) }
            #[inline] pub const fn wrapping_sub(self, r: Self) -> Self { Self::from_bits(self.bits.wrapping_sub(r.bits)) }
            #[inline] pub const fn wrapping_neg(self) -> Self { Self::from_bits(self.bits.wrapping_neg()) }
            #[inline] pub const fn wrapping_mul_int(self, r: $Inner) -> Self { Self::from_bits(self.bits.wrapping_mul(r)) }
            #[inline]
            pub fn wrapping_mul(self, r: Self) -> Self { self.overflowing_mul(r).0 }
            #[inline]
            pub fn overflowing_mul(self, r: Self) -> (Self, bool) {
                let (an, am) = self.__parts();
                let (bn, bm) = r.__parts();
                let neg = an ^ bn;
                let (v, rem, _) = crate::wide::mul_shift_u(am, bm, $frac);
                let v = if neg && rem { v.wrapping_add(1) } else { v };
                let bits = if neg { v.wrapping_neg() as $Inner } else { v as $Inner };
                (Self::from_bits(bits), self.checked_mul(r).is_none())
            }
            #[inline]
            #[track_caller]
            pub fn overflowing_div(self, r: Self) -> (Self, bool) {
                if r.bits == 0 { panic!("division by zero"); }
                let (an, am) = self.__parts();
                let (bn, bm) = r.__parts();
                let neg = an ^ bn;
                let (v, _) = crate::wide::div_shift_u(am, bm, $frac);
                let bits = if neg { v.wrapping_neg() as $Inner } else { v as $Inner };
                (Self::from_bits(bits), self.checked_div(r).is_none())
            }
            #[inline]
            #[track_caller]
            pub fn wrapping_div(self, r: Self) -> Self { self.overflowing_div(r).0 }
            #[inline] pub const fn overflowing_add(self, r: Self) -> (Self, bool) { let (b, o) = self.bits.overflowing_add(r.bits); (Self::from_bits(b), o) }
            #[inline] pub const fn overflowing_sub(self, r: Self) -> (Self, bool) { let (b, o) = self.bits.overflowing_sub(r.bits); (Self::from_bits(b), o) }
            #[inline] #[track_caller] pub fn unwrapped_add(self, r: Self) -> Self { self + r }
            #[inline] #[track_caller] pub fn unwrapped_sub(self, r: Self) -> Self { self - r }
            #[inline] #[track_caller] pub fn unwrapped_mul(self, r: Self) -> Self { self * r }
            #[inline] #[track_caller] pub fn unwrapped_div(self, r: Self) -> Self { self / r }

            #[inline]
            pub fn checked_rem_euclid(self, r: Self) -> Option<Self> { self.bits.checked_rem_euclid(r.bits).map(Self::from_bits) }
            #[inline]
            #[track_caller]
            pub fn rem_euclid(self, r: Self) -> Self { Self::from_bits(self.bits.rem_euclid(r.bits)) }
            #[inline]
            #[track_caller]
            pub fn div_euclid(self, r: Self) -> Self {
                let q = (self / r).round_to_zero();
                #[allow(unused_comparisons)]
                let neg_rem = (self % r).bits < 0;
                if neg_rem { if r > Self::ZERO { q - Self::ONE } else { q + Self::ONE } } else { q }
            }
            #[inline]
            #[track_caller]
            pub fn from_str_binary(_s: &str) -> Result<Self, crate::ParseFixedError> { unimplemented!() }
        }

        fixed_type!(@signspecific $sign, $Name, $Inner, $frac);

        impl ToFixed for $Name {
            #[inline]
            fn __scaled(self, frac: u32) -> Result<(bool, u128), bool> {
                let (neg, mag) = self.__parts();
                crate::traits::rescale(neg, mag, $frac, frac).ok_or(true)
            }
        }
        impl FromFixed for $Name {
            #[inline]
            fn __from_scaled(neg: bool, mag: u128, frac: u32) -> Option<Self> {
                let (neg, mag) = crate::traits::rescale(neg, mag, frac, $frac)?;
                Self::__from_parts(neg && mag != 0, mag)
            }
            fn __saturating_from_scaled(neg: bool, mag: u128, frac: u32) -> Self {
                Self::__from_scaled(neg, mag, frac).unwrap_or(if neg { Self::MIN } else { Self::MAX })
            }
            fn __wrapping_from_scaled(neg: bool, mag: u128, frac: u32) -> Self {
                let mag = if $frac >= frac { mag.wrapping_shl($frac - frac) } else { crate::traits::floor_int(neg, mag, frac - $frac).1 };
                Self::from_bits(if neg { mag.wrapping_neg() as $Inner } else { mag as $Inner })
            }
        }
        impl Fixed for $Name {}
        impl ToExact for $Name {
            #[inline]
            fn __exact(self) -> Option<Exact> {
                let (neg, mag) = self.__parts();
                Some(Exact { neg, int: mag >> $frac, frac: mag << (128 - $frac) })
            }
        }

        fixed_type!(@cmp $Name: i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64);

        fixed_type!(@binop $Name, Add, add, AddAssign, add_assign, checked_add, "attempt to add with overflow");
        fixed_type!(@binop $Name, Sub, sub, SubAssign, sub_assign, checked_sub, "attempt to subtract with overflow");
        fixed_type!(@binop $Name, Mul, mul, MulAssign, mul_assign, checked_mul, "attempt to multiply with overflow");
        fixed_type!(@binop $Name, Div, div, DivAssign, div_assign, checked_div, "attempt to divide with overflow or by zero");
        fixed_type!(@binop $Name, Rem, rem, RemAssign, rem_assign, checked_rem, "attempt to calculate the remainder with a divisor of zero");

        impl core::ops::Mul<$Inner> for $Name { type Output = $Name; #[inline] #[track_caller] fn mul(self, r: $Inner) -> $Name { self.checked_mul_int(r).expect("attempt to multiply with overflow") } }
        impl core::ops::Mul<&$Inner> for $Name { type Output = $Name; #[inline] #[track_caller] fn mul(self, r: &$Inner) -> $Name { self * *r } }
        impl core::ops::Mul<$Name> for $Inner { type Output = $Name; #[inline] #[track_caller] fn mul(self, r: $Name) -> $Name { r * self } }
        impl core::ops::MulAssign<$Inner> for $Name { #[inline] #[track_caller] fn mul_assign(&mut self, r: $Inner) { *self = *self * r } }
        impl core::ops::Div<$Inner> for $Name { type Output = $Name; #[inline] #[track_caller] fn div(self, r: $Inner) -> $Name { self.checked_div_int(r).expect("attempt to divide with overflow or by zero") } }
        impl core::ops::Div<&$Inner> for $Name { type Output = $Name; #[inline] #[track_caller] fn div(self, r: &$Inner) -> $Name { self / *r } }
        impl core::ops::DivAssign<$Inner> for $Name { #[inline] #[track_caller] fn div_assign(&mut self, r: $Inner) { *self = *self / r } }
        impl core::ops::Not for $Name { type Output = $Name; #[inline] fn not(self) -> $Name { $Name { bits: !self.bits } } }
        impl core::ops::BitAnd for $Name { type Output = $Name; #[inline] fn bitand(self, r: Self) -> $Name { $Name { bits: self.bits & r.bits } } }
        impl core::ops::BitOr for $Name { type Output = $Name; #[inline] fn bitor(self, r: Self) -> $Name { $Name { bits: self.bits | r.bits } } }
        impl core::ops::BitXor for $Name { type Output = $Name; #[inline] fn bitxor(self, r: Self) -> $Name { $Name { bits: self.bits ^ r.bits } } }
        fixed_type!(@shift $Name: i8 i16 i32 i64 u8 u16 u32 u64 usize isize);

        impl core::iter::Sum for $Name { fn sum<I: Iterator<Item = $Name>>(it: I) -> $Name { it.fold($Name::ZERO, |a, b| a + b) } }
        impl<'a> core::iter::Sum<&'a $Name> for $Name { fn sum<I: Iterator<Item = &'a $Name>>(it: I) -> $Name { it.fold($Name::ZERO, |a, b| a + *b) } }
        impl core::iter::Product for $Name { fn product<I: Iterator<Item = $Name>>(it: I) -> $Name { it.fold($Name::ONE, |a, b| a * b) } }

        impl core::fmt::Display for $Name {
            fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
                let (neg, mag) = self.__parts();
                crate::text::format(neg, mag >> $frac, mag << (128 - $frac), $frac, f)
            }
        }
        impl core::fmt::Debug for $Name {
            fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Display::fmt(self, f) }
        }
        impl core::str::FromStr for $Name {
            type Err = crate::ParseFixedError;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                let (neg, mag) = crate::text::parse(s, $frac)?;
                Self::__from_parts(neg && mag != 0, mag).ok_or(crate::ParseFixedError { overflow: true })
            }
        }
        impl borsh_::BorshSerialize for $Name {
            fn serialize<W: borsh_::maybestd::io::Write>(&self, w: &mut W) -> borsh_::maybestd::io::Result<()> { borsh_::BorshSerialize::serialize(&self.bits, w) }
        }
        impl borsh_::BorshDeserialize for $Name {
            fn deserialize_reader<R: borsh_::maybestd::io::Read>(r: &mut R) -> borsh_::maybestd::io::Result<Self> { Ok(Self { bits: <$Inner as borsh_::BorshDeserialize>::deserialize_reader(r)? }) }
        }
        impl borsh_::BorshSchema for $Name {
            fn add_definitions_recursively(_: &mut std::collections::HashMap<borsh_::schema::Declaration, borsh_::schema::Definition>) {}
            fn declaration() -> borsh_::schema::Declaration { stringify!($Name).to_string() }
        }
        impl serde_::Serialize for $Name {
            fn serialize<S: serde_::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                if s.is_human_readable() {
                    s.serialize_str(&self.to_string())
                } else {
                    use serde_::ser::SerializeStruct;
                    let mut st = s.serialize_struct(stringify!($Name), 1)?;
                    st.serialize_field("bits", &self.bits)?;
                    st.end()
                }
            }
        }
        impl<'de> serde_::Deserialize<'de> for $Name {
            fn deserialize<D: serde_::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = <String as serde_::Deserialize>::deserialize(d)?;
                s.parse().map_err(serde_::de::Error::custom)
            }
        }
    };
    (@fromparts signed, $Inner:ty, $neg:expr, $mag:expr) => {
        $crate::imp::signed_from_mag_128($neg, $mag).and_then(|v| <$Inner>::try_from(v).ok())
    };
    (@fromparts unsigned, $Inner:ty, $neg:expr, $mag:expr) => {
        if $neg && $mag != 0 { None } else { <$Inner>::try_from($mag).ok() }
    };
    (@signspecific signed, $Name:ident, $Inner:ty, $frac:expr) => {
        impl $Name {
            pub const NEG_ONE: $Name = $Name { bits: -(1 << $frac) };
            #[inline] pub const fn is_negative(self) -> bool { self.bits < 0 }
            #[inline] pub const fn is_positive(self) -> bool { self.bits > 0 }
            #[inline] #[track_caller] pub fn abs(self) -> Self { Self::from_bits(self.bits.checked_abs().expect("overflow")) }
            #[inline] pub fn checked_abs(self) -> Option<Self> { self.bits.checked_abs().map(Self::from_bits) }
            #[inline] pub fn saturating_abs(self) -> Self { Self::from_bits(self.bits.saturating_abs()) }
            #[inline] pub fn wrapping_abs(self) -> Self { Self::from_bits(self.bits.wrapping_abs()) }
            #[inline] pub fn saturating_neg(self) -> Self { Self::from_bits(self.bits.saturating_neg()) }
            #[inline] pub fn signum(self) -> Self { if self.bits > 0 { Self::ONE } else if self.bits < 0 { Self::NEG_ONE } else { Self::ZERO } }
            #[inline] #[track_caller] pub fn dist(self, o: Self) -> Self { if self > o { self - o } else { o - self } }
            #[inline] #[track_caller] pub fn abs_sub(self, o: Self) -> Self { if self > o { self - o } else { Self::ZERO } }
        }
        impl core::ops::Neg for $Name { type Output = $Name; #[inline] #[track_caller] fn neg(self) -> $Name { self.checked_neg().expect("attempt to negate with overflow") } }
        impl core::ops::Neg for &$Name { type Output = $Name; #[inline] #[track_caller] fn neg(self) -> $Name { -*self } }
    };
    (@signspecific unsigned, $Name:ident, $Inner:ty, $frac:expr) => {
        impl $Name {
            #[inline] #[track_caller] pub fn dist(self, o: Self) -> Self { if self > o { self - o } else { o - self } }
            #[inline] pub const fn is_power_of_two(self) -> bool { self.bits.is_power_of_two() }
        }
    };
    (@cmp $Name:ident : $($t:ty)*) => {$(
        impl PartialEq<$t> for $Name {
            #[inline]
            fn eq(&self, o: &$t) -> bool { match (self.__exact(), o.__exact()) { (Some(a), Some(b)) => a.cmp(&b) == core::cmp::Ordering::Equal, _ => false } }
        }
        impl PartialEq<$Name> for $t {
            #[inline]
            fn eq(&self, o: &$Name) -> bool { o == self }
        }
        impl PartialOrd<$t> for $Name {
            #[inline]
            fn partial_cmp(&self, o: &$t) -> Option<core::cmp::Ordering> { Some(self.__exact()?.cmp(&o.__exact()?)) }
        }
        impl PartialOrd<$Name> for $t {
            #[inline]
            fn partial_cmp(&self, o: &$Name) -> Option<core::cmp::Ordering> { Some(self.__exact()?.cmp(&o.__exact()?)) }
        }
    )*};
    (@binop $Name:ident, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, $chk:ident, $msg:expr) => {
        impl core::ops::$Tr for $Name { type Output = $Name; #[inline] #[track_caller] fn $f(self, r: $Name) -> $Name { match self.$chk(r) { Some(v) => v, None => panic!($msg) } } }
        impl core::ops::$Tr<&$Name> for $Name { type Output = $Name; #[inline] #[track_caller] fn $f(self, r: &$Name) -> $Name { core::ops::$Tr::$f(self, *r) } }
        impl core::ops::$Tr<$Name> for &$Name { type Output = $Name; #[inline] #[track_caller] fn $f(self, r: $Name) -> $Name { core::ops::$Tr::$f(*self, r) } }
        impl core::ops::$Tr<&$Name> for &$Name { type Output = $Name; #[inline] #[track_caller] fn $f(self, r: &$Name) -> $Name { core::ops::$Tr::$f(*self, *r) } }
        impl core::ops::$TrA for $Name { #[inline] #[track_caller] fn $fa(&mut self, r: $Name) { *self = core::ops::$Tr::$f(*self, r) } }
        impl core::ops::$TrA<&$Name> for $Name { #[inline] #[track_caller] fn $fa(&mut self, r: &$Name) { *self = core::ops::$Tr::$f(*self, *r) } }
    };
    (@shift $Name:ident : $($t:ty)*) => {$(
        impl core::ops::Shl<$t> for $Name { type Output = $Name; #[inline] #[track_caller] fn shl(self, r: $t) -> $Name { $Name { bits: self.bits << r } } }
        impl core::ops::Shr<$t> for $Name { type Output = $Name; #[inline] #[track_caller] fn shr(self, r: $t) -> $Name { $Name { bits: self.bits >> r } } }
        impl core::ops::ShlAssign<$t> for $Name { #[inline] #[track_caller] fn shl_assign(&mut self, r: $t) { self.bits <<= r } }
        impl core::ops::ShrAssign<$t> for $Name { #[inline] #[track_caller] fn shr_assign(&mut self, r: $t) { self.bits >>= r } }
    )*};
}

macro_rules! lossless_ints {
    ($Name:ident : $($t:ty)*) => {$(
        impl From<$t> for $Name { #[inline] fn from(v: $t) -> $Name { $Name::from_num(v) } }
        impl LossyFrom<$t> for $Name { #[inline] fn lossy_from(v: $t) -> $Name { $Name::from_num(v) } }
    )*};
}
