#[macro_export]
macro_rules! security_txt {
    ($($name:ident: $value:expr),* $(,)?) => {};
}
