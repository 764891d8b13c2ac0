//! Harness crate: see /verif/DESIGN.md.
#[macro_use]
pub mod rt;
pub mod sig;
pub mod stub;
pub mod wire;
pub mod age;
#[cfg(any(feature = "c20", feature = "c21"))]
pub mod play;

macro_rules! props {
    ($($m:ident $f:literal),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(feature = "ir"))]
        pub fn table() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $( #[cfg(feature = $f)] v.extend_from_slice($m::TABLE); )*
            v
        }
    };
}
props!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24", c25 "c25", c26 "c26", c27 "c27", c28 "c28", c30 "c30", c31 "c31");
