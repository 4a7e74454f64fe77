//! Stand-in for agave's telemetry crate (which pulls in an HTTP client): metrics are discarded.
#[macro_export]
macro_rules! datapoint_trace {
    ($($t:tt)*) => {};
}
