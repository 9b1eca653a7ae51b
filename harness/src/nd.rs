//! Symbolic inputs, assumptions, assertions and memory-environment queries.
//! Under Kani these become solver variables; natively they replay recorded values.

/// Asserts a property.
#[macro_export]
macro_rules! vp {
    ($c:expr, $m:literal) => {{
        let c: bool = $c;
        #[cfg(kani)]
        kani::assert(c, concat!("VP: ", $m));
        #[cfg(not(kani))]
        if !c {
            $crate::native::finish(10, concat!("VP: ", $m));
        }
    }};
}
#[cfg(kani)]
mod imp {
    extern "C" {
        fn vp_log(v: u64);
        fn vp_live() -> u64;
        fn vp_allocs() -> u64;
        fn vp_last_size() -> u64;
        fn vp_last_align() -> u64;
        fn vp_last_addr() -> u64;
        fn vp_fail_at(n: u64);
        fn vp_failed() -> u64;
        fn vp_last_block() -> *mut u8;
    }
    pub fn u8() -> u8 {
        let v: u8 = kani::any();
        unsafe { vp_log(v as u64) };
        v
    }
    pub fn u16() -> u16 {
        let v: u16 = kani::any();
        unsafe { vp_log(v as u64) };
        v
    }
    pub fn u32() -> u32 {
        let v: u32 = kani::any();
        unsafe { vp_log(v as u64) };
        v
    }
    pub fn u64() -> u64 {
        let v: u64 = kani::any();
        unsafe { vp_log(v) };
        v
    }
    pub fn usize() -> usize {
        let v: usize = kani::any();
        unsafe { vp_log(v as u64) };
        v
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub fn live() -> usize {
        unsafe { vp_live() as usize }
    }
    pub fn allocs() -> usize {
        unsafe { vp_allocs() as usize }
    }
    pub fn last_size() -> usize {
        unsafe { vp_last_size() as usize }
    }
    pub fn last_align() -> usize {
        unsafe { vp_last_align() as usize }
    }
    pub fn last_addr() -> usize {
        unsafe { vp_last_addr() as usize }
    }
    /// The block most recently handed out, known to be exactly that to the solver.
    pub fn last_block() -> *mut u8 {
        unsafe { vp_last_block() }
    }
    /// The n-th allocator request from now on (1-based) fails; 0 = none.
    pub fn fail_at(n: usize) {
        unsafe { vp_fail_at(n as u64) }
    }
    /// Has that request been made, and refused?
    pub fn failed() -> bool {
        unsafe { vp_failed() != 0 }
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::{Cell, RefCell};
    thread_local! {
        pub static VALUES: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
        pub static POS: Cell<usize> = const { Cell::new(0) };
    }
    fn next() -> u64 {
        let i = POS.with(|p| {
            let i = p.get();
            p.set(i + 1);
            i
        });
        VALUES.with(|v| v.borrow().get(i).copied().unwrap_or(0))
    }
    pub fn u8() -> u8 {
        next() as u8
    }
    pub fn u16() -> u16 {
        next() as u16
    }
    pub fn u32() -> u32 {
        next() as u32
    }
    pub fn u64() -> u64 {
        next()
    }
    pub fn usize() -> usize {
        next() as usize
    }
    pub fn assume(c: bool) {
        if !c {
            crate::native::finish(20, "assumption does not hold for these values")
        }
    }
    pub fn last_block() -> *mut u8 {
        crate::native::last_addr() as *mut u8
    }
    pub use crate::native::{allocs, fail_at, failed, last_addr, last_align, last_size, live};
}

pub use imp::*;

pub fn bool() -> bool {
    u8() & 1 == 1
}
/// Any value below `n`.
pub fn below(n: usize) -> usize {
    let v = u8() as usize;
    assume(v < n);
    v
}
/// Any value in `lo..=hi`.
pub fn range(lo: usize, hi: usize) -> usize {
    let v = u16() as usize;
    assume(v >= lo && v <= hi);
    v
}
/// Any array of bytes.
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = u8();
        i += 1;
    }
    a
}
pub fn u16s<const N: usize>() -> [u16; N] {
    let mut a = [0u16; N];
    let mut i = 0;
    while i < N {
        a[i] = u16();
        i += 1;
    }
    a
}
pub fn u32s<const N: usize>() -> [u32; N] {
    let mut a = [0u32; N];
    let mut i = 0;
    while i < N {
        a[i] = u32();
        i += 1;
    }
    a
}
pub fn u64s<const N: usize>() -> [u64; N] {
    let mut a = [0u64; N];
    let mut i = 0;
    while i < N {
        a[i] = u64();
        i += 1;
    }
    a
}

/// A box of a value of nonzero size. (Going through the block itself tells symbolic execution that
/// the value is not at the fixed address used for values of size zero, which is much cheaper.)
pub fn vbox<T: varlen::VarLen>(init: impl varlen::Initializer<T>) -> varlen::vbox::VBox<T> {
    let b = varlen::vbox::VBox::new(init);
    unsafe {
        let raw = b.into_raw();
        let block = last_block() as *mut T;
        vp!(raw == block, "a box is the block the allocator handed out");
        varlen::vbox::VBox::from_raw(if cfg!(kani) { block } else { raw })
    }
}

/// Witness that a situation is reachable: the solver must find it, otherwise the check is vacuous.
#[macro_export]
macro_rules! reach {
    ($m:literal) => {
        $crate::reach!(true, $m)
    };
    ($c:expr, $m:literal) => {{
        let _c: bool = $c;
        #[cfg(kani)]
        kani::cover(_c, concat!("REACH: ", $m));
    }};
}
/// Marks code that must not be reached (used after calls that have to panic).
#[macro_export]
macro_rules! unreachable_vp {
    ($m:literal) => {
        $crate::vp!(false, $m)
    };
}
/// Declares harnesses: Kani proofs, and a table for native replay.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            $(#[$m])*
            pub fn $n() $b
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
    };
}
