//! Diagnostics become panics.
pub use proc_macro_error_attr::proc_macro_error;
#[macro_export] macro_rules! abort { ($s:expr, $($t:tt)*) => {{ let _ = &$s; panic!($($t)*) }}; }
#[macro_export] macro_rules! emit_error { ($s:expr, $($t:tt)*) => {{ let _ = &$s; panic!($($t)*); }}; }
#[macro_export] macro_rules! emit_warning { ($s:expr, $($t:tt)*) => {{ let _ = &$s; }}; }
pub fn abort_if_dirty() {}
