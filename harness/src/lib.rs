//! Harnesses: each `h_*` function is one bounded space of inputs together with the assertions that must
//! hold for all of it.  The same functions replay concrete inputs natively (binary `replay`).
#![allow(clippy::all)]
pub mod api;
#[macro_use]
pub mod util;

/// Harness functions take four numbers (bounds, shards) and get their symbolic inputs from `api`.
macro_rules! harnesses {
    ($($name:ident |$a:ident, $b:ident, $c:ident, $d:ident| $body:block)*) => {
        $(#[allow(unused_variables)]
        pub fn $name($a: u64, $b: u64, $c: u64, $d: u64) $body)*
        #[cfg(feature = "sym")]
        mod exported { $(#[no_mangle] pub extern "C" fn $name(a: u64, b: u64, c: u64, d: u64) { super::$name(a, b, c, d) })* }
        #[cfg(not(feature = "sym"))]
        pub const TABLE: &[(&str, fn(u64, u64, u64, u64))] = &[$((stringify!($name), $name)),*];
    };
}
macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        #[cfg(not(feature = "sym"))]
        pub fn lookup(name: &str) -> Option<fn(u64, u64, u64, u64)> {
            #[cfg(feature = "cjk")]
            for &(n, f) in c23::TABLE { if n == name { return Some(f) } }
            #[cfg(feature = "blocks")]
            for &(n, f) in c24::TABLE { if n == name { return Some(f) } }
            $(for &(n, f) in $m::TABLE { if n == name { return Some(f) } })*
            None
        }
    };
}
pub mod tables;
pub mod langs;
pub mod json;
pub mod model;
pub mod testlang;
#[cfg(feature = "cjk")]
pub mod c23;
#[cfg(feature = "blocks")]
pub mod c24;
modules! { c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c26 }
