use crate::imp::*;

fixed_type!(I80F48, i128, signed, 48, 80);
fixed_type!(I64F64, i128, signed, 64, 64);
fixed_type!(I96F32, i128, signed, 32, 96);
fixed_type!(I68F60, i128, signed, 60, 68);
fixed_type!(U80F48, u128, unsigned, 48, 80);
fixed_type!(U64F64, u128, unsigned, 64, 64);
fixed_type!(U96F32, u128, unsigned, 32, 96);
fixed_type!(I32F32, i64, signed, 32, 32);
fixed_type!(I16F48, i64, signed, 48, 16);
fixed_type!(U32F32, u64, unsigned, 32, 32);
fixed_type!(U16F48, u64, unsigned, 48, 16);

lossless_ints!(I80F48: i8 i16 i32 i64 u8 u16 u32 u64 bool);
lossless_ints!(I64F64: i8 i16 i32 i64 u8 u16 u32 bool);
lossless_ints!(I96F32: i8 i16 i32 i64 u8 u16 u32 u64 bool);
lossless_ints!(I68F60: i8 i16 i32 i64 u8 u16 u32 u64 bool);
lossless_ints!(U80F48: u8 u16 u32 u64 bool);
lossless_ints!(U64F64: u8 u16 u32 u64 bool);
lossless_ints!(U96F32: u8 u16 u32 u64 bool);
lossless_ints!(I32F32: i8 i16 i32 u8 u16 bool);
lossless_ints!(I16F48: i8 i16 u8 bool);
lossless_ints!(U32F32: u8 u16 u32 bool);
lossless_ints!(U16F48: u8 u16 bool);

pub mod extra {}
