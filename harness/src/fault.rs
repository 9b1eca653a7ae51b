//! C20 allocation failure, C21 panicking initializers, C23 arena values.
use crate::nd;
use crate::vt::*;
use core::marker::PhantomData;
use core::ptr::NonNull;
use varlen::array::SizedInit;
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, IndexableSeq, Indexing, Seq, UncheckedIndexing};
use varlen::tuple::*;
use varlen::{Initializer, Layout};

type U = UncheckedIndexing;
type X = CheckedIndexing;

fn at<T: ?Sized>(r: &T) -> usize {
    r as *const T as *const u8 as usize
}

// ---- C20
/// An initializer that must not be run once memory has been refused.
struct Watch<T: Blob>(T::Init);
fn watch<T: Blob>(id: u8, size: usize) -> Watch<T> {
    Watch(T::of(id, size))
}
unsafe impl<T: Blob> Initializer<T> for Watch<T> {
    fn calculate_layout_cautious(&self) -> Option<Size> {
        self.0.calculate_layout_cautious()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: Size) {
        vp!(!nd::failed(), "nothing is constructed after memory was refused");
        vp!(dst.as_ptr() as usize != 0, "nothing is constructed at the null address");
        self.0.initialize(dst, layout);
    }
}
fn refused_box<T: Blob>() {
    nd::fail_at(1);
    let size = any_size::<T>(40);
    reach!(size == 40, "asked");
    let b: VBox<T> = VBox::new(watch::<T>(1, size));
    vp!(!nd::failed(), "the operation stops when memory is refused");
    core::mem::forget(b);
}
fn refused_clone() {
    nd::fail_at(2);
    let n = nd::below(8);
    let b: VBox<Array<u8, u8>> = VBox::new(SizedInit(n as u8, Skip));
    reach!(n == 7, "asked");
    let c: VBox<Array<u8, u8>> = if nd::bool() { b.clone() } else { VBox::new(b.vcopy()) };
    vp!(false, "the operation stops when memory is refused");
    core::mem::forget((b, c));
}
/// A few pushes of any size, with the f-th allocator request refused.
fn refused_push<T: Blob, I: Indexing>(f: usize, a: usize, max: usize) {
    nd::fail_at(f);
    let mut s: Seq<T, I> = Seq::new();
    if f > 1 {
        s.push(watch::<T>(1, a));
        vp!(!nd::failed(), "the operation stops when memory is refused");
    }
    let size = any_size::<T>(max);
    reach!(size == max, "asked");
    s.push(watch::<T>(2, size));
    vp!(!nd::failed(), "the operation stops when memory is refused");
    core::mem::forget(s);
}
fn refused_extend<I: Indexing>(collect: bool) {
    nd::fail_at(2);
    let size = nd::range(2, 34);
    reach!(size == 34, "asked");
    let items = [watch::<Blob1>(1, 20), watch::<Blob1>(2, size)];
    if collect {
        let s: Seq<Blob1, I> = items.into_iter().collect();
        core::mem::forget(s);
    } else {
        let mut s: Seq<Blob1, I> = Seq::new();
        s.extend(items);
        core::mem::forget(s);
    }
    vp!(!nd::failed(), "the operation stops when memory is refused");
}

// ---- C21
/// What to do right after the panic has been caught. (The solver's paths end where they panic, so there
/// it is done at the place of the panic: the memory is the same.)
struct Boom<T, F: FnOnce()> {
    size: usize,
    /// 0: panics when asked for its size, 1: before writing, 2: after writing everything.
    when: u8,
    after: F,
    of: PhantomData<T>,
}
fn stop(after: impl FnOnce()) -> ! {
    #[cfg(kani)]
    {
        after();
        kani::assume(false);
        loop {}
    }
    #[cfg(not(kani))]
    {
        let _ = after;
        std::panic::panic_any(0u8)
    }
}
unsafe impl<T: Blob, F: FnOnce() + Copy> Initializer<T> for Boom<T, F> {
    fn calculate_layout_cautious(&self) -> Option<Size> {
        if self.when == 0 {
            stop(self.after)
        }
        Some(Size(self.size))
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: Size) {
        if self.when == 2 {
            T::of(15, self.size).initialize(dst, layout);
        }
        stop(self.after)
    }
}
/// Runs `during`, which panics at some point; then `after`.
fn around(during: impl FnOnce(), after: impl FnOnce()) {
    #[cfg(kani)]
    {
        let _ = after;
        during();
        unreachable_vp!("a panicking initializer's panic is not swallowed");
    }
    #[cfg(not(kani))]
    {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(during));
        match r {
            Err(p) if p.is::<u8>() => after(),
            Err(p) => std::panic::resume_unwind(p),
            Ok(()) => unreachable_vp!("a panicking initializer's panic is not swallowed"),
        }
    }
}
/// `s` gets elements of sizes `a` and (if given) `b`, then one whose initializer panics; then `check`.
fn boom_push<T: Blob, I: Indexing>(s: *mut Seq<T, I>, a: usize, b: Option<usize>, size: usize, when: u8, check: impl FnOnce() + Copy) {
    let s = unsafe { &mut *s };
    s.push(T::of(1, a));
    if let Some(b) = b {
        s.push(T::of(2, b));
    }
    around(|| s.push(Boom { size, when, after: check, of: PhantomData }), check);
}
fn units<T: Blob>(size: usize) -> usize {
    (size + T::ALIGN - 1) / T::ALIGN
}
/// The sequence still holds exactly what it held; so after another push; all are destroyed once.
fn boom_list<T: Blob, I: Indexing>(when: u8, a: usize, max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let p: *mut Seq<T, I> = &mut s;
    let (size, more) = (any_size::<T>(max), T::HDR + 1);
    boom_push(p, a, None, size, when, || {
        let s = unsafe { &mut *p };
        vp!(s.len() == 1 && s.iter().len() == 1, "the sequence has as many elements as before");
        vp!(s.offset() == units::<T>(a), "and the same offset");
        vp!(s.iter().next().unwrap().is(1, a), "and the same element");
        vp!(drops(1) == 0 && drops(15) == 0, "nothing is destroyed");
        s.push(T::of(3, more));
        vp!(s.len() == 2 && s.offset() == units::<T>(a) + units::<T>(more), "a later push adds one element, at the offset it would have");
        {
            let mut it = s.iter();
            vp!(it.next().unwrap().is(1, a), "first element");
            vp!(it.next().unwrap().is(3, more), "second element");
            vp!(it.next().is_none(), "no more");
        }
        unsafe { core::ptr::drop_in_place(p) };
        vp!(drops(1) == 1 && drops(3) == 1 && drops(15) == 0, "exactly the elements are destroyed, once each");
        #[cfg(kani)]
        vp!(nd::live() == 0, "storage is released");
        reach!(size == max, "largest");
        reach!(size == T::HDR, "smallest");
    });
    core::mem::forget(s);
}
/// The valid offsets are exactly those of the elements, also after another push.
fn boom_valid<T: Blob>(when: u8, a: usize, max: usize) {
    let mut s: IndexableSeq<T> = Seq::new();
    let p: *mut IndexableSeq<T> = &mut s;
    let (size, more) = (any_size::<T>(max), any_size::<T>(T::HDR + T::ALIGN + 1));
    let (k, j) = (nd::usize(), nd::usize());
    boom_push(p, a, None, size, when, || {
        let s = unsafe { &mut *p };
        vp!(s.is_offset_valid(k) == (k == 0), "the valid offsets are as before");
        let o = s.offset();
        vp!(o == units::<T>(a), "the offset is as before");
        s.push(T::of(3, more));
        vp!(s.is_offset_valid(j) == (j == 0 || j == o), "a later push makes just its offset valid");
        vp!(s.from_offset(o).is(3, more) && s.from_offset(0).is(1, a), "and lookup finds the elements");
        reach!(size == max, "largest");
        reach!(k == o, "first failed offset");
    });
    core::mem::forget(s);
}
/// Taking the elements after the panic, then reuse.
fn boom_take<T: Blob, I: Indexing>(when: u8, a: usize, b: usize, size: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let p: *mut Seq<T, I> = &mut s;
    let c = any_size::<T>(size);
    boom_push(p, a, Some(b), c, when, || {
        let s = unsafe { &mut *p };
        {
            let mut t = s.take_elems();
            vp!(t.len() == 2, "as many elements as before are taken");
            let e = t.next().unwrap();
            vp!(e.is(1, a), "first");
            drop(e);
            let e = t.next().unwrap();
            vp!(e.is(2, b), "second");
            drop(e);
            vp!(t.next().is_none(), "no more");
        }
        vp!(drops(1) == 1 && drops(2) == 1 && drops(15) == 0, "exactly the elements are destroyed, once each");
        vp!(s.len() == 0 && s.offset() == 0, "nothing is left");
        s.push(T::of(4, b));
        vp!(s.len() == 1 && s.iter().next().unwrap().is(4, b), "and it can be reused");
        unsafe { core::ptr::drop_in_place(p) };
        vp!(drops(4) == 1 && drops(1) == 1, "destroyed once");
        reach!(c == size, "largest");
    });
    core::mem::forget(s);
}

// ---- C23
fn in_arena<T: Blob>(b: &bumpalo::Bump, id: u8, size: usize) -> Owned<'_, T> {
    let o = Owned::<T>::new_in(T::of(id, size), b);
    let a = at(&*o);
    vp!(a % T::ALIGN == 0, "an arena value is aligned");
    vp!(a >= nd::last_addr() && a + size <= nd::last_addr() + nd::last_size(), "it lies inside the arena's storage");
    o
}
fn apart(a: usize, s: usize, b: usize, t: usize) -> bool {
    a + s <= b || b + t <= a
}
/// A value of size `c`, then one of any size, then (if given) one of size `e`.
fn arena<A: Blob, B: Blob, C: Blob>(c: usize, max: usize, e: Option<usize>) {
    let bump = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
    let t = any_size::<B>(max);
    {
        let a = in_arena::<A>(&bump, 1, c);
        let b = in_arena::<B>(&bump, 2, t);
        let (x, y) = (at(&*a), at(&*b));
        vp!(apart(x, c, y, t), "arena values do not overlap");
        if let Some(u) = e {
            let d = in_arena::<C>(&bump, 3, u);
            let z = at(&*d);
            vp!(apart(x, c, z, u) && apart(y, t, z, u), "arena values do not overlap");
            vp!(d.is(3, u), "it reads back what its initializer supplied");
            core::mem::forget(d);
        }
        vp!(a.is(1, c) && b.is(2, t), "each reads back what its initializer supplied, also after more are built");
        reach!(t == max, "largest");
        reach!(t == B::HDR, "smallest");
        vp!(drops(1) == 0 && drops(2) == 0, "nothing is destroyed early");
    }
    vp!(drops(1) == 1 && drops(2) == 1 && drops(3) == 0, "each is destroyed once");
}

harnesses! {
//@ C20 bank=48 defs=ALLOCFAIL panic=ok
fn c20_box_a1() { refused_box::<Blob1>() }
//@ C20 bank=48 defs=ALLOCFAIL panic=ok
fn c20_box_a8() { refused_box::<Blob8>() }
//@ C20 bank=48 defs=ALLOCFAIL panic=ok dbg=off
fn c20_box_a4_release() { refused_box::<Blob4>() }
//@ C20 bank=16 cpy=8 defs=ALLOCFAIL panic=ok
fn c20_clone() { refused_clone() }
//@ C20 bank=16 cpy=8 defs=ALLOCFAIL panic=ok dbg=off
fn c20_clone_release() { refused_clone() }
//@ C20 bank=80 defs=ALLOCFAIL panic=ok
fn c20_first_a1() { refused_push::<Blob1, U>(1, 0, 40) }
//@ C20 bank=80 defs=ALLOCFAIL panic=ok
fn c20_first_a16() { refused_push::<Blob16, U>(1, 0, 40) }
//@ C20 bank=80 cpy=12 defs=ALLOCFAIL panic=ok
fn c20_first_a2_idx() { refused_push::<Blob2, X>(1, 0, 40) }
//@ C20 bank=80 cpy=12 defs=ALLOCFAIL panic=ok dbg=off
fn c20_first_a8_idx_release() { refused_push::<Blob8, X>(1, 0, 40) }
//@ C20 bank=80 defs=ALLOCFAIL panic=ok
fn c20_growth_a1() { refused_push::<Blob1, U>(2, 20, 40) }
//@ C20 bank=80 defs=ALLOCFAIL panic=ok
fn c20_growth_a8() { refused_push::<Blob8, U>(2, 20, 40) }
//@ C20 bank=80 cpy=12 defs=ALLOCFAIL panic=ok
fn c20_growth_a4_idx() { refused_push::<Blob4, X>(2, 20, 40) }
//@ C20 bank=80 cpy=12 defs=ALLOCFAIL panic=ok
fn c20_growth_a1_idx() { refused_push::<Blob1, X>(2, 20, 40) }
//@ C20 bank=80 defs=ALLOCFAIL panic=ok dbg=off
fn c20_growth_a2_release() { refused_push::<Blob2, U>(2, 20, 40) }
//@ C20 bank=80 cpy=8 defs=ALLOCFAIL panic=ok
fn c20_extend() { refused_extend::<U>(false) }
//@ C20 bank=80 cpy=8 defs=ALLOCFAIL panic=ok
fn c20_collect() { refused_extend::<U>(true) }
/// With enough memory nothing stops.
//@ C20 bank=80 defs=ALLOCFAIL
fn c20_granted() {
    nd::fail_at(4);
    let b: VBox<Blob4> = VBox::new(watch::<Blob4>(1, 12));
    let mut s: Seq<Blob2> = Seq::new();
    s.push(watch::<Blob2>(2, 20));
    s.push(watch::<Blob2>(3, any_size::<Blob2>(40)));
    vp!(!nd::failed() && b.is(1, 12) && s.len() == 2, "done");
    reach!("done");
    core::mem::forget((b, s));
}

//@ C21 bank=80 cpy=8
fn c21_list_a1() { boom_list::<Blob1, U>(1, 12, 40) }
//@ C21 bank=80 cpy=8
fn c21_list_a4_written() { boom_list::<Blob4, U>(2, 12, 40) }
//@ C21 bank=80 cpy=8
fn c21_list_a8_early() { boom_list::<Blob8, U>(0, 10, 40) }
//@ C21 bank=90 cpy=12
fn c21_list_a2_idx() { boom_list::<Blob2, X>(1, 12, 40) }
//@ C21 bank=90 cpy=12
fn c21_list_a1_idx_written() { boom_list::<Blob1, X>(2, 20, 40) }
//@ C21 bank=90 cpy=12
fn c21_valid_a1() { boom_valid::<Blob1>(1, 12, 34) }
//@ C21 bank=90 cpy=12
fn c21_valid_a4_written() { boom_valid::<Blob4>(2, 12, 34) }
//@ C21 bank=90 cpy=12
fn c21_valid_a8_early() { boom_valid::<Blob8>(0, 12, 34) }
//@ C21 bank=40 cpy=8
fn c21_take_a1() { boom_take::<Blob1, U>(1, 6, 5, 12) }
//@ C21 bank=44 cpy=8
fn c21_take_a4_idx() { boom_take::<Blob4, X>(2, 6, 5, 12) }
//@ C21 bank=80 cpy=12
fn c21_take_a2_idx_growth() { boom_take::<Blob2, X>(1, 10, 5, 34) }
/// The very first push panics.
//@ C21 bank=80 cpy=8
fn c21_first() {
    let mut s: IndexableSeq<Blob2> = Seq::new();
    let p: *mut IndexableSeq<Blob2> = &mut s;
    let (size, k) = (any_size::<Blob2>(40), nd::usize());
    let check = || {
        let s = unsafe { &mut *p };
        vp!(s.len() == 0 && s.offset() == 0 && s.iter().next().is_none(), "the sequence is still empty");
        vp!(!s.is_offset_valid(k), "no offset is valid");
        s.push(Blob2::of(1, 5));
        vp!(s.len() == 1 && s.is_offset_valid(k) == (k == 0), "a later push works as on a new sequence");
        unsafe { core::ptr::drop_in_place(p) };
        vp!(drops(1) == 1 && drops(15) == 0, "destroyed once");
        reach!(k == 0, "zero");
    };
    around(|| unsafe { (*p).push(Boom { size, when: 2, after: check, of: PhantomData }) }, check);
    core::mem::forget(s);
}
/// A field of the element panics after other fields were written.
//@ C21 bank=64 cpy=8
fn c21_field() {
    type T = Tup3<FixedLen<u8>, Blob2, FixedLen<u16>>;
    let mut s: IndexableSeq<T> = Seq::new();
    let p: *mut IndexableSeq<T> = &mut s;
    let (size, k, x) = (any_size::<Blob2>(9), nd::usize(), nd::u8());
    let check = || {
        let s = unsafe { &mut *p };
        vp!(s.len() == 1, "the sequence has as many elements as before");
        vp!(s.is_offset_valid(k) == (k == 0), "the valid offsets are as before");
        vp!(s.from_offset(0).refs().0.0 == x && s.from_offset(0).refs().1.is(1, 4), "the same element");
        unsafe { core::ptr::drop_in_place(p) };
        vp!(drops(1) == 1 && drops(15) == 0, "destroyed once");
        reach!(k == 0 && size == 9, "zero");
    };
    s.push(tup3::Init(FixedLen(x), Blob2::of(1, 4), FixedLen(6u16)));
    around(|| unsafe { (*p).push(tup3::Init(FixedLen(2), Boom { size, when: 1, after: check, of: PhantomData }, FixedLen(7u16))) }, check);
    core::mem::forget(s);
}
/// The second of several initializers panics during bulk construction.
//@ C21 bank=64 cpy=8
fn c21_extend() {
    let mut s: IndexableSeq<Blob1> = Seq::new();
    let p: *mut IndexableSeq<Blob1> = &mut s;
    let (size, k) = (any_size::<Blob1>(12), nd::usize());
    let check = || {
        let s = unsafe { &mut *p };
        vp!(s.len() == 2, "the elements before the panic stay");
        vp!(s.is_offset_valid(k) == (k == 0 || k == 4), "with their offsets");
        vp!(s.from_offset(0).is(1, 4) && s.from_offset(4).is(2, 5), "and contents");
        unsafe { core::ptr::drop_in_place(p) };
        vp!(drops(1) == 1 && drops(2) == 1 && drops(15) == 0, "destroyed once");
        reach!(k == 4, "second");
    };
    s.push(Blob1::of(1, 4));
    around(|| unsafe { (*p).extend([Either(false, size, check), Either(true, size, check)]) }, check);
    core::mem::forget(s);
}

//@ C23 bank=560 cpy=8 t=60 unwind=2 objbits=14
fn c23_a8_a1() { arena::<Blob8, Blob1, Blob1>(10, 20, None) }
//@ C23 bank=560 cpy=8 t=60 unwind=2 objbits=14
fn c23_a1_a8() { arena::<Blob1, Blob8, Blob1>(3, 20, None) }
//@ C23 bank=560 cpy=8 t=60 unwind=2 objbits=14
fn c23_a2_a16() { arena::<Blob2, Blob16, Blob1>(5, 40, None) }
//@ C23 bank=560 cpy=8 t=130 unwind=2 objbits=14
fn c23_three() { arena::<Blob1, Blob2, Blob4>(3, 8, Some(6)) }
//@ C23 bank=560 cpy=10 t=60 unwind=4 objbits=14
fn c23_text() {
    let bump = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
    let n = 3;
    let a = Owned::<Str<u8>>::new_in(Str::<u8>::try_copy(&"abc"[..n]).unwrap(), &bump);
    let mut b = Owned::<Array<u16, u8>>::new_in(SizedInit(2, MoveFrom([7, 8])), &bump);
    vp!(a.len() == n && b.len() == 2, "lengths");
    vp!(at(&*b) % 2 == 0, "an arena value is aligned");
    vp!(apart(at(&*a), 1 + n, at(&*b), 6), "arena values do not overlap");
    b.as_mut().mut_slice()[0] = 0xffff;
    let k = nd::below(3);
    if k < n { vp!(a.as_bytes()[k] == b'a' + k as u8, "each reads back what its initializer supplied"); }
    vp!(b[0] == 0xffff && b[1] == 8, "contents");
    reach!("done");
    core::mem::forget((a, b));
}
//@ C23 bank=560 cpy=8 t=60 unwind=4 objbits=14
fn c23_tuple() {
    let bump = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
    let (n, x) = (3, nd::u32());
    let a = Owned::<Tup2<Array<u8, u8>, FixedLen<u32>>>::new_in(tup2::Init(SizedInit(n as u8, FillSequentially(|i| i as u8)), FixedLen(x)), &bump);
    let b = Owned::<FixedLen<u64>>::new_in(FixedLen(u64::MAX), &bump);
    vp!(at(&*a) % 4 == 0 && at(&*b) % 8 == 0, "an arena value is aligned");
    vp!(a.refs().0.len() == n && a.refs().1.0 == x && b.0 == u64::MAX, "each reads back what its initializer supplied");
    let k = nd::below(3);
    if k < n { vp!(a.refs().0[k] as usize == k, "elements"); }
    vp!(apart(at(&*a), round_up(1 + n, 4) + 4, at(&*b), 8), "arena values do not overlap");
    reach!("done");
    core::mem::forget((a, b));
}
//@ C23 bank=560 cpy=12 t=60 unwind=2 objbits=14
fn c23_moved_in() {
    let bump = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
    let t = 11;
    let v: VBox<Blob4> = nd::vbox(Blob4::of(1, t));
    let a = Owned::<Blob4>::new_in(v, &bump);
    vp!(a.is(1, t) && drops(1) == 0, "contents survive the move into the arena");
    vp!(at(&*a) % 4 == 0, "an arena value is aligned");
    reach!("done");
    drop(a);
    vp!(drops(1) == 1, "destroyed once");
}
//@ C23 bank=560 cpy=8 t=60 unwind=2 objbits=14 tier=thorough timeout=800
fn c23_three_more() { arena::<Blob16, Blob2, Blob8>(18, 40, Some(10)) }
/// The second value does not fit the first chunk.
//@ C23 bank=1100 cpy=8 t=60 unwind=3 objbits=14
fn c23_second_chunk() {
    let bump = core::mem::ManuallyDrop::new(bumpalo::Bump::new());
    let a = Owned::<Array<u8, u16>>::new_in(SizedInit(400, Skip), &bump);
    let b = Owned::<Array<u8, u16>>::new_in(SizedInit(100, Skip), &bump);
    vp!(a.len() == 400 && b.len() == 100, "lengths");
    vp!(at(&*b) % 2 == 0, "an arena value is aligned");
    vp!(apart(at(&*a), 402, at(&*b), 102), "arena values do not overlap");
    reach!("done");
    core::mem::forget((a, b));
}
}
/// The first of these is a value, the second panics.
struct Either<F>(bool, usize, F);
unsafe impl<F: FnOnce() + Copy> Initializer<Blob1> for Either<F> {
    fn calculate_layout_cautious(&self) -> Option<Size> {
        Some(Size(if self.0 { self.1 } else { 5 }))
    }
    unsafe fn initialize(self, dst: NonNull<Blob1>, layout: Size) {
        if self.0 {
            stop(self.2)
        }
        Blob1::of(2, 5).initialize(dst, layout)
    }
}
