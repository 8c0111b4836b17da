//! Symbolic harnesses for neure (see /verif/DESIGN.md).
#![allow(clippy::all)]
#[macro_use]
pub mod nd;
/// Harnesses over a boolean outcome that must be able to come out both ways.
macro_rules! hs {
    ($( $(#[$at:meta])* $name:ident [$q:literal, $t:literal] $e:expr ;)*) => {
        harnesses! { $( $(#[$at])* $name [$q, $t] { let ok = $e; cov!(ok, "outcome: true"); cov!(!ok, "outcome: false"); } )* }
    };
}
pub mod abs;
pub mod comb;
pub mod long;
pub mod text;
#[macro_use]
pub mod leaf;

// One module per property, compiled only for the check of that property.
macro_rules! modules {
    ($($m:ident $f:literal)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn all() -> Vec<(&'static str, &'static [(&'static str, fn())])> {
            vec![ $( #[cfg(feature = $f)] (stringify!($m), $m::REG), )* ]
        }
    };
}
modules! {
    p01 "p01" p02 "p02" p03 "p03" p04 "p04" p05 "p05" p06 "p06" p07 "p07" p08 "p08" p09 "p09" p10 "p10" p11 "p11" p12 "p12" p13 "p13" p14 "p14" p15 "p15" p16 "p16" p17 "p17" p18 "p18" p19 "p19" p20 "p20" p21 "p21" p22 "p22" p23 "p23" p24 "p24" p25 "p25" p26 "p26" p27 "p27"
}
