#[macro_export]
macro_rules! default_env {
    ($n:expr, $d:expr) => {
        match option_env!($n) {
            Some(v) => v,
            None => $d,
        }
    };
}
