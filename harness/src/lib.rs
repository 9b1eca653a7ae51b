#![allow(clippy::all)]
#[macro_use]
pub mod nd;
#[cfg(not(kani))]
pub mod native;
pub mod vt;

macro_rules! modules {
    ($($m:ident),*) => {
        $(pub mod $m;)*
        #[cfg(not(kani))]
        pub fn find(name: &str) -> Option<fn()> {
            $(for (n, f) in $m::TABLE { if *n == name { return Some(*f) } })*
            None
        }
    };
}
modules!(layout, any, mem, seq, life, init, gen, fault);
