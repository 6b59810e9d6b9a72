//! Offline stand-in for static_assertions 1.1 (const assertions only).
#[macro_export]
macro_rules! const_assert {
    ($x:expr $(,)?) => { const _: [(); 0 - !{ const ASSERT: bool = $x; ASSERT } as usize] = []; };
}
#[macro_export]
macro_rules! const_assert_eq {
    ($x:expr, $y:expr $(,)?) => { $crate::const_assert!($x == $y); };
}
#[macro_export]
macro_rules! const_assert_ne {
    ($x:expr, $y:expr $(,)?) => { $crate::const_assert!($x != $y); };
}
