//! anyhow with a message only.
use std::fmt;
pub struct Error(pub String);
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl Error { pub fn msg<M: fmt::Display>(m: M) -> Self { Error(m.to_string()) } }
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl<E: std::error::Error> From<E> for Error { fn from(e: E) -> Self { Error(e.to_string()) } }
pub fn msg<M: fmt::Display>(m: M) -> Error { Error::msg(m) }
#[macro_export] macro_rules! anyhow { ($($t:tt)*) => { $crate::Error(format!($($t)*)) }; }
#[macro_export] macro_rules! bail { ($($t:tt)*) => { return ::core::result::Result::Err($crate::anyhow!($($t)*)) }; }
#[macro_export] macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { $crate::bail!(stringify!($c)) } };
    ($c:expr, $($t:tt)*) => { if !$c { $crate::bail!($($t)*) } };
}
#[allow(non_snake_case)]
pub fn Ok<T>(t: T) -> Result<T> { Result::Ok(t) }
