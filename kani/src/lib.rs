//! Contracts for /repo, one module per property; every harness is a precondition (`assume`), a call of the real
//! code and a postcondition (`assert`). See ../../DESIGN.md for the conventions.
#![cfg(kani)]
#![allow(dead_code, unused_macros, unused_imports, unused_mut, unused_variables)]

#[macro_use]
pub mod support;

macro_rules! modules {
    ($($f:literal $m:ident),*) => { $( #[cfg(feature = $f)] mod $m; )* };
}
modules!("c01" c01, "c02" c02, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c10" c10, "c12" c12, "c13" c13, "c15" c15);
