//! Native replay: strict allocator and outcome reporting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static ALLOCS: AtomicUsize = AtomicUsize::new(0);
static REQS: AtomicUsize = AtomicUsize::new(0);
static FAIL_AT: AtomicUsize = AtomicUsize::new(0);
static L_SIZE: AtomicUsize = AtomicUsize::new(0);
static L_ALIGN: AtomicUsize = AtomicUsize::new(0);
static L_ADDR: AtomicUsize = AtomicUsize::new(0);
static FILL: AtomicUsize = AtomicUsize::new(0xA5);

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn allocs() -> usize {
    ALLOCS.load(Relaxed)
}
pub fn last_size() -> usize {
    L_SIZE.load(Relaxed)
}
pub fn last_align() -> usize {
    L_ALIGN.load(Relaxed)
}
pub fn last_addr() -> usize {
    L_ADDR.load(Relaxed)
}
pub fn fail_at(n: usize) {
    REQS.store(0, Relaxed);
    FAIL_AT.store(n, Relaxed);
}
pub fn failed() -> bool {
    let f = FAIL_AT.load(Relaxed);
    f != 0 && REQS.load(Relaxed) >= f
}
pub fn set_fill(b: u8) {
    FILL.store(b as usize, Relaxed);
}
/// Runs `f` with allocations made by the code under test observed.
pub fn observe(on: bool) -> bool {
    ON.swap(on, Relaxed)
}
pub fn finish(code: i32, msg: &str) -> ! {
    ON.store(false, Relaxed);
    println!("{}", msg);
    std::process::exit(code)
}

// Blocks are never reused. Each one is laid out as
//   [front guard][user bytes][back guard]
// with the user address aligned to exactly the requested alignment.
const GUARD: usize = 512;
const MAGIC: usize = 0x5650_4d45_4d00_0001;
/// Marks memory allocated while not observing (panic machinery, argument parsing).
const PLAIN: usize = 0x5650_4d45_4d00_0002;
#[repr(C)]
struct Head {
    magic: usize,
    size: usize,
    align: usize,
    freed: usize,
}

/// Blocks from this size on are reserved address space only, and neither filled nor scrubbed.
const BIG: usize = 1 << 24;
#[cfg(not(miri))]
unsafe fn reserve(n: usize) -> *mut u8 {
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    let p = mmap(core::ptr::null_mut(), n, 3, 0x4022, -1, 0); // read+write, private+anonymous+noreserve
    if p as isize == -1 { core::ptr::null_mut() } else { p }
}

pub struct Strict;

impl Strict {
    fn complain(msg: &str) -> ! {
        finish(10, msg)
    }
    #[cfg(not(miri))]
    unsafe fn check(p: *mut u8, layout: Layout) -> *mut Head {
        let head = (p as usize - GUARD) as *mut Head;
        let head = ((head as usize) & !15usize) as *mut Head;
        if (*head).magic == PLAIN {
            return core::ptr::null_mut();
        }
        if (*head).magic != MAGIC {
            Self::complain("VPMEM free or resize of an address the allocator did not hand out");
        }
        if (*head).freed != 0 {
            Self::complain("VPMEM freed twice");
        }
        if (*head).align != layout.align() {
            Self::complain("VPMEM free or resize with a different alignment");
        }
        if (*head).size != layout.size() {
            Self::complain("VPMEM free or resize with a different size");
        }
        let mut a = head.add(1) as *mut u8;
        while (a as usize) < p as usize {
            if *a != 0x5A {
                Self::complain("VPMEM write before the allocated range");
            }
            a = a.add(1);
        }
        for i in 0..GUARD {
            if *p.add((*head).size + i) != 0x5A {
                Self::complain("VPMEM write after the allocated range");
            }
        }
        head
    }
}

unsafe impl GlobalAlloc for Strict {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !ON.load(Relaxed) {
            return Self::plain(layout);
        }
        if layout.size() == 0 {
            Self::complain("VPMEM zero-size request to the allocator");
        }
        let n = REQS.fetch_add(1, Relaxed) + 1;
        if n == FAIL_AT.load(Relaxed) {
            return core::ptr::null_mut();
        }
        let p = Self::guarded(layout);
        if !p.is_null() {
            LIVE.fetch_add(1, Relaxed);
            Self::note(p, layout.size(), layout.align());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if !ON.load(Relaxed) {
            return; // replay processes are short-lived
        }
        #[cfg(miri)]
        {
            LIVE.fetch_sub(1, Relaxed);
            System.dealloc(p, layout);
        }
        #[cfg(not(miri))]
        {
            let head = Self::check(p, layout);
            if head.is_null() {
                return;
            }
            LIVE.fetch_sub(1, Relaxed);
            (*head).freed = 1;
            for i in 0..(*head).size.min(BIG) {
                *p.add(i) = 0xDD;
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if !ON.load(Relaxed) {
            let q = Self::plain(Layout::from_size_align_unchecked(new_size, layout.align()));
            core::ptr::copy_nonoverlapping(p, q, layout.size().min(new_size));
            return q;
        }
        let n = REQS.fetch_add(1, Relaxed) + 1;
        if n == FAIL_AT.load(Relaxed) {
            return core::ptr::null_mut();
        }
        #[cfg(miri)]
        {
            let q = System.realloc(p, layout, new_size);
            Self::note(q, new_size, layout.align());
            q
        }
        #[cfg(not(miri))]
        {
            let head = Self::check(p, layout);
            if head.is_null() {
                let q = Self::plain(Layout::from_size_align_unchecked(new_size, layout.align()));
                core::ptr::copy_nonoverlapping(p, q, layout.size().min(new_size));
                return q;
            }
            let q = Self::guarded(Layout::from_size_align_unchecked(new_size, layout.align()));
            if q.is_null() {
                return q;
            }
            // (of very large blocks, only both ends)
            let n = layout.size().min(new_size);
            core::ptr::copy_nonoverlapping(p, q, n.min(BIG));
            if n > BIG {
                core::ptr::copy_nonoverlapping(p.add(n - BIG), q.add(n - BIG), BIG);
            }
            (*head).freed = 1;
            for i in 0..(*head).size.min(BIG) {
                *p.add(i) = 0xDD;
            }
            Self::note(q, new_size, layout.align());
            q
        }
    }
}

impl Strict {
    fn note(p: *mut u8, size: usize, align: usize) {
        ALLOCS.fetch_add(1, Relaxed);
        L_SIZE.store(size, Relaxed);
        L_ALIGN.store(align, Relaxed);
        L_ADDR.store(p as usize, Relaxed);
    }
    unsafe fn plain(layout: Layout) -> *mut u8 {
        let p = Self::guarded(layout);
        #[cfg(not(miri))]
        if !p.is_null() {
            (*(((p as usize - GUARD) & !15usize) as *mut Head)).magic = PLAIN;
        }
        p
    }
    #[cfg(miri)]
    unsafe fn guarded(layout: Layout) -> *mut u8 {
        System.alloc(layout)
    }
    #[cfg(not(miri))]
    unsafe fn guarded(layout: Layout) -> *mut u8 {
        let align = layout.align();
        let Some(total) = layout.size().checked_add(3 * GUARD + 2 * align + 64) else {
            return core::ptr::null_mut();
        };
        if total > isize::MAX as usize {
            return core::ptr::null_mut();
        }
        let base = if layout.size() < BIG {
            System.alloc(Layout::from_size_align_unchecked(total, 16))
        } else {
            reserve(total)
        };
        if base.is_null() {
            return base;
        }
        // User address: aligned to `align` but not to `2 * align`.
        let mut user = (base as usize + 64 + GUARD + align - 1) & !(align - 1);
        if user & align == 0 {
            user += align;
        }
        let head = ((user - GUARD) & !15usize) as *mut Head;
        head.write(Head { magic: MAGIC, size: layout.size(), align, freed: 0 });
        let mut a = head.add(1) as *mut u8;
        while (a as usize) < user {
            *a = 0x5A;
            a = a.add(1);
        }
        let user = user as *mut u8;
        if layout.size() < BIG {
            core::ptr::write_bytes(user, FILL.load(Relaxed) as u8, layout.size());
        }
        core::ptr::write_bytes(user.add(layout.size()), 0x5A, GUARD);
        user
    }
}
pub fn fill() -> u8 {
    FILL.load(Relaxed) as u8
}
