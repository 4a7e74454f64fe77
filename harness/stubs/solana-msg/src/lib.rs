//! Stand-in for the logging crate: off chain it prints every program log line to stdout; here log
//! lines are formatted (so that formatting code still runs) and discarded.
#[macro_export]
macro_rules! msg {
    ($msg:expr) => {
        $crate::sol_log($msg)
    };
    ($($arg:tt)*) => ($crate::sol_log(&format!($($arg)*)));
}
#[inline]
pub fn sol_log(message: &str) {
    std::hint::black_box(message);
}
