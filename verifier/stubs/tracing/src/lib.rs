//! Stand-in for the `tracing` crate used only while dumping MIR for verification.
//!
//! The real macros expand into call-site registration, level checks and formatting machinery. What matters to the
//! program is kept: whenever logging is enabled (`enabled()`, which the verifier treats as an arbitrary boolean)
//! every argument expression is evaluated. What is dropped is the output itself.

pub use tracing_core::{Level, Metadata, Event, Subscriber};

#[inline(never)]
pub fn enabled() -> bool { std::env::var_os("TRACING_STUB").is_some() }
#[inline(never)]
pub fn field<T: ?Sized>(_: &T) {}

#[doc(hidden)]
#[macro_export]
macro_rules! __args {
    () => {};
    ($(,)?) => {};
    ($fmt:literal $($rest:tt)*) => { { let _ = ::core::format_args!($fmt $($rest)*); } };
    ($($k:ident).+ = ?$e:expr, $($rest:tt)*) => { $crate::field(&$e); $crate::__args!($($rest)*); };
    ($($k:ident).+ = %$e:expr, $($rest:tt)*) => { $crate::field(&$e); $crate::__args!($($rest)*); };
    ($($k:ident).+ = $e:expr, $($rest:tt)*) => { $crate::field(&$e); $crate::__args!($($rest)*); };
    ($($k:ident).+ = ?$e:expr) => { $crate::field(&$e); };
    ($($k:ident).+ = %$e:expr) => { $crate::field(&$e); };
    ($($k:ident).+ = $e:expr) => { $crate::field(&$e); };
    (?$k:ident, $($rest:tt)*) => { $crate::field(&$k); $crate::__args!($($rest)*); };
    (%$k:ident, $($rest:tt)*) => { $crate::field(&$k); $crate::__args!($($rest)*); };
    ($k:ident, $($rest:tt)*) => { $crate::field(&$k); $crate::__args!($($rest)*); };
    (?$k:ident) => { $crate::field(&$k); };
    (%$k:ident) => { $crate::field(&$k); };
    ($k:ident) => { $crate::field(&$k); };
}
#[macro_export]
macro_rules! error { ($($t:tt)*) => { if $crate::enabled() { $crate::__args!($($t)*); } } }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { if $crate::enabled() { $crate::__args!($($t)*); } } }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { if $crate::enabled() { $crate::__args!($($t)*); } } }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { if $crate::enabled() { $crate::__args!($($t)*); } } }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => { if $crate::enabled() { $crate::__args!($($t)*); } } }
