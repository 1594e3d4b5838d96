//! Harnesses: each entry drives sherman's public API with symbolic inputs and compares with an oracle.
#![allow(dead_code, unused_imports)]
pub mod sv;
pub mod model;

/// Declares the entries: exported for the symbolic executor, listed for the replay binary.
#[macro_export]
macro_rules! entries { ($($name:ident => $body:expr;)*) => {
    $( #[no_mangle] pub fn $name() { $body } )*
    pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
} }

#[cfg(feature = "c01")] #[path = "c01.rs"] pub mod cur;
#[cfg(feature = "c02")] #[path = "c02.rs"] pub mod cur;
#[cfg(feature = "c03")] #[path = "c03.rs"] pub mod cur;
#[cfg(feature = "c04")] #[path = "c04.rs"] pub mod cur;
#[cfg(feature = "c05")] #[path = "c05.rs"] pub mod cur;
#[cfg(feature = "c06")] #[path = "c06.rs"] pub mod cur;
#[cfg(feature = "c07")] #[path = "c07.rs"] pub mod cur;
#[cfg(feature = "c08")] #[path = "c08.rs"] pub mod cur;
#[cfg(feature = "c09")] #[path = "c09.rs"] pub mod cur;
#[cfg(feature = "c10")] #[path = "c10.rs"] pub mod cur;
#[cfg(feature = "c11")] #[path = "c11.rs"] pub mod cur;
#[cfg(feature = "c12")] #[path = "c12.rs"] pub mod cur;
#[cfg(feature = "c13")] #[path = "c13.rs"] pub mod cur;
#[cfg(feature = "c14")] #[path = "c14.rs"] pub mod cur;
#[cfg(feature = "c15")] #[path = "c15.rs"] pub mod cur;
#[cfg(feature = "c16")] #[path = "c16.rs"] pub mod cur;
#[cfg(feature = "c17")] #[path = "c17.rs"] pub mod cur;
#[cfg(feature = "c18")] #[path = "c18.rs"] pub mod cur;
#[cfg(feature = "c19")] #[path = "c19.rs"] pub mod cur;
#[cfg(feature = "c20")] #[path = "c20.rs"] pub mod cur;
