//! Logging with empty bodies. Arguments stay type-checked but are never evaluated.
#[macro_export] macro_rules! trace { ($($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } }; }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } }; }
#[macro_export] macro_rules! info { ($($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } }; }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } }; }
#[macro_export] macro_rules! error { ($($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } }; }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Level { Error = 1, Warn, Info, Debug, Trace }
#[macro_export] macro_rules! log { ($l:expr, $($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } }; }
#[macro_export] macro_rules! log_enabled { ($($t:tt)*) => { false }; }
