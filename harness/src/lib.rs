//! Solver-based checks of il2-iltags (see ../DESIGN.md).
#![allow(clippy::all)]
#[macro_use]
pub mod sym;
pub mod kit;
pub mod mocks;
pub mod refs;

macro_rules! modules {
    ($($m:ident),* $(,)?) => {
        $(pub mod $m;)*
        #[cfg(not(kani))]
        pub const TABLES: &[&[(&str, fn())]] = &[$($m::TABLE),*];
    };
}

modules!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27);
