//! anyhow with the message formatting removed (formatting is outside every claim).
use std::fmt;
pub struct Error(pub &'static str);
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl Error {
    pub fn msg_static(m: &'static str) -> Self { Error(m) }
    pub fn msg<M>(_m: M) -> Self { Error("error") }
    pub fn new<E>(_e: E) -> Self { Error("error") }
    pub fn context<C>(self, _c: C) -> Self { self }
}
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }
impl<E: std::error::Error> From<E> for Error { fn from(_: E) -> Self { Error("error") } }
#[allow(non_snake_case)]
pub fn Ok<T>(t: T) -> Result<T> { Result::Ok(t) }
pub trait Context<T> {
    fn context<C>(self, c: C) -> Result<T>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
impl<T, E> Context<T> for core::result::Result<T, E> {
    fn context<C>(self, _c: C) -> Result<T> { self.map_err(|_| Error("error")) }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T> { self.map_err(|_| Error("error")) }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _c: C) -> Result<T> { self.ok_or(Error("none")) }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T> { self.ok_or(Error("none")) }
}
#[macro_export] macro_rules! anyhow { ($($t:tt)*) => { $crate::Error::msg_static("anyhow") }; }
#[macro_export] macro_rules! bail { ($($t:tt)*) => { return ::core::result::Result::Err($crate::Error::msg_static("bail")) }; }
#[macro_export] macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { return ::core::result::Result::Err($crate::Error::msg_static("ensure")) } };
    ($c:expr, $($t:tt)*) => { if !$c { return ::core::result::Result::Err($crate::Error::msg_static("ensure")) } };
}
