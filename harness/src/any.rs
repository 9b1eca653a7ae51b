//! Lengths without limit: C02, C03, C10, C12, C14, C16, C17 for values whose arrays are of any length
//! whatsoever. Only headers exist in memory; the array parts are never touched.
use crate::nd;
use crate::vt::*;
use core::mem::{size_of, MaybeUninit};
use core::pin::Pin;
use core::ptr::NonNull;
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::ArrayInitializer;
use varlen::prelude::*;
use varlen::seq::Seq;
use varlen::tuple::*;
use varlen::{Initializer, Layout};

fn at<T: ?Sized>(r: &T) -> usize {
    r as *const T as *const u8 as usize
}
fn up(n: usize, a: usize) -> usize {
    (n + a - 1) & !(a - 1)
}

/// Remembers where the array it is asked to fill is, and of how many slots; writes nothing.
struct Probe(usize);
static mut SEEN: [(usize, usize); 3] = [(0, 0); 3];
unsafe impl<T> ArrayInitializer<T> for Probe {
    fn initialize(self, dst: &mut [MaybeUninit<T>]) {
        unsafe { SEEN[self.0] = (dst.as_ptr() as usize, dst.len()) }
    }
}
fn seen(i: usize) -> (usize, usize) {
    unsafe { SEEN[i] }
}
/// Constructs a value with the given initializer somewhere; gives the value and its computed size.
fn place<T: VarLen, I: Initializer<T>>(init: I) -> Option<(Pin<&'static mut T>, usize, usize)> {
    let l = init.calculate_layout_cautious()?;
    let size = l.size();
    if size >= 1 << 46 || size == 0 {
        return None;
    }
    unsafe {
        let dst = std::alloc::alloc(std::alloc::Layout::from_size_align(size, T::ALIGN).unwrap()) as *mut T;
        init.initialize(NonNull::new(dst).unwrap(), l);
        let v = &mut *dst;
        vp!(v.calculate_layout().size() == size, "the size reserved equals the size the value reports");
        Some((Pin::new_unchecked(v), dst as usize, size))
    }
}

fn any_len<T: 'static + Clone, L: ArrayLen + PartialEq>(len: L) {
    let n = len.as_usize();
    let o = up(size_of::<L>(), core::mem::align_of::<T>());
    if let Some((mut v, a, size)) = place::<Array<T, L>, _>(SizedInit(len, Probe(0))) {
        vp!(n < 1 << 46 && size == o + n * size_of::<T>() || size_of::<T>() == 0 && size == o, "the last element ends at the reported size");
        vp!(seen(0) == (a + o, n), "the initializer is asked for exactly the elements of the array");
        vp!(v.len_short() == len, "the short length is the length asked for");
        vp!(v.len() == n && v.is_empty() == (n == 0), "the length is the length asked for");
        vp!(v[..].len() == n && at(&v[..]) == a + o, "the elements are where they were constructed");
        let c = v.vclone().calculate_layout_cautious();
        vp!(c.is_some() && c.unwrap().size() == size, "a clone is as large as its source");
        let m = v.as_mut().mut_slice();
        vp!(m.len() == n && at(m) == a + o, "shared and mutable views are of the same elements");
        reach!(n > 200, "many");
        reach!(n == 0, "none");
    }
}
/// In a tuple, after a field of fixed size.
fn any_tail<A: 'static, T: 'static, L: ArrayLen + PartialEq>(x: A, len: L) {
    let n = len.as_usize();
    let o1 = up(size_of::<A>(), <Array<T, L> as VarLen>::ALIGN);
    let o = o1 + up(size_of::<L>(), core::mem::align_of::<T>());
    let init = tup2::Init(FixedLen(x), SizedInit(len, Probe(0)));
    if let Some((mut v, a, size)) = place::<Tup2<FixedLen<A>, Array<T, L>>, _>(init) {
        vp!(n < 1 << 46 && size == o + n * size_of::<T>() || size_of::<T>() == 0 && size == o, "the last field ends at the reported size");
        vp!(seen(0) == (a + o, n), "the initializer is asked for exactly the elements of the array");
        {
            let r = v.refs();
            vp!(at(r.0) == a && at(r.1) == a + o1, "fields are where they were constructed");
            vp!(r.1.len_short() == len && r.1.len() == n && at(&r.1[..]) == a + o, "the array is the one constructed");
        }
        let m = v.as_mut().muts();
        vp!(at(&*m.0) == a && at(&*m.1) == a + o1, "shared and mutable views are of the same fields");
        let s = m.1.mut_slice();
        vp!(s.len() == n && at(s) == a + o, "and of the same elements");
        reach!(n > 200, "many");
        core::mem::forget(v.as_mut());
    }
}

/// Arrays only, of any lengths.
#[define_varlen]
pub struct Long {
    #[controls_layout]
    pub n: u32,
    pub x: u8,
    #[controls_layout]
    pub m: usize,
    #[varlen_array]
    pub a: [u16; *n as usize],
    #[varlen_array]
    pub b: [u64; *m],
}
#[define_varlen]
pub struct LongTail {
    #[controls_layout]
    pub n: u64,
    #[varlen]
    pub k: FixedLen<u16>,
    #[varlen_array]
    pub a: [u32; *n as usize],
    #[varlen_array]
    pub b: [(); *n as usize],
}
fn any_struct() {
    let (n, m, x) = (nd::u32(), nd::usize(), nd::u8());
    nd::assume(m < 1 << 42);
    if let Some((mut v, a, size)) = place::<Long, _>(long::Init { n, x, m, a: Probe(0), b: Probe(1) }) {
        let (na, nb) = (n as usize, m);
        let oa = 16;
        let ob = up(oa + 2 * na, 8);
        vp!(size == ob + 8 * nb, "the last array ends at the reported size");
        vp!(seen(0) == (a + oa, na) && seen(1) == (a + ob, nb), "each initializer is asked for exactly the elements of its array");
        {
            let r = v.refs();
            vp!(*r.n == n && *r.m == m && *r.x == x, "the other fields are as constructed");
            vp!(r.a.len() == na && r.b.len() == nb, "lengths are as constructed");
            vp!(at(r.a) == a + oa && at(r.b) == a + ob, "arrays are where they were constructed");
        }
        let w = v.as_mut().muts();
        vp!(w.a.len() == na && w.b.len() == nb, "mutable views have the same lengths");
        vp!(at(w.a) == a + oa && at(w.b) == a + ob, "and are of the same arrays");
        reach!(m > 1 << 40 && n > 1 << 30, "many of each");
    }
}
fn any_struct_tail() {
    let (n, k) = (nd::u64(), nd::u16());
    let init = long_tail::Init { n, k: FixedLen(k), a: Probe(0), b: Probe(1) };
    if let Some((v, a, size)) = place::<LongTail, _>(init) {
        let n = n as usize;
        vp!(size == 12 + 4 * n, "the last array ends at the reported size");
        vp!(seen(0) == (a + 12, n) && seen(1) == (a + size, n), "each initializer is asked for exactly the elements of its array");
        let r = v.refs();
        vp!(r.k.0 == k && *r.n as usize == n, "the other fields are as constructed");
        vp!(r.a.len() == n && r.b.len() == n && at(r.a) == a + 12 && at(r.b) == a + size, "arrays are the ones constructed");
        reach!(n > 1 << 40, "many");
    }
}
/// Replacing length-controlling fields of any values, when arrays are of any length.
/// (No array is looked at, so only the header is there.)
fn any_set() {
    let (n, m, n2, m2) = (nd::u32(), nd::usize(), nd::u32(), nd::usize());
    nd::assume(m < 1 << 58 && m2 < 1 << 58);
    let mut buf = Buf::<64>::any();
    unsafe {
        let init = long::Init { n, x: 5, m, a: Probe(0), b: Probe(1) };
        let l = init.calculate_layout_cautious().unwrap();
        let size = l.size();
        let p = buf.0.as_mut_ptr() as *mut Long;
        core::ptr::write(p, core::mem::zeroed());
        (*p).n = n;
        (*p).m = m;
        (*p).x = 5;
        let mut v = Pin::new_unchecked(&mut *p);
        let ok = v.as_mut().try_set_layout_controllers(long::LayoutControllers { n: n2, m: m2 }).is_ok();
        vp!(ok == (n == n2 && m == m2), "replacement succeeds exactly when no length changes");
        vp!(v.n == n && v.m == m && v.x == 5, "and changes nothing otherwise");
        vp!(v.calculate_layout().size() == size, "the size never changes");
    }
    reach!(n != n2 && m == m2, "only the narrow one");
    reach!(n == n2 && m != m2 && m as u32 == m2 as u32, "the same modulo 2^32");
}
/// Boxes of any size.
fn any_box<T: 'static, L: ArrayLen + PartialEq>(len: L) {
    let n = len.as_usize();
    let o = up(size_of::<L>(), core::mem::align_of::<T>());
    nd::assume(n < (1 << 45) / size_of::<T>());
    let want = o + n * size_of::<T>();
    reach!(n > 300 || n > 200 && size_of::<L>() == 1, "many");
    let b: VBox<Array<T, L>> = VBox::new(SizedInit(len, Probe(0)));
    vp!(nd::last_size() == want && nd::last_align() == <Array<T, L> as VarLen>::ALIGN, "the box's block has exactly the size and alignment of the value");
    vp!(at(&*b) == nd::last_addr() && seen(0) == (nd::last_addr() + o, n), "the value is constructed in it");
    vp!(b.len() == n, "the length is the length asked for");
    drop(b);
    vp!(nd::live() == 0, "the block is released, as it was requested");
}

// ---- Sequences of values of any size.
/// A value of any size: header only, its tail is never touched.
pub trait Vast: VarLen<Layout = Size> {
    const HDR: usize;
    fn put(dst: *mut Self, id: u8, size: usize);
    fn id(&self) -> u8;
}
macro_rules! vast {
    ($name:ident, $align:literal, $rust:literal, $n:literal) => {
        #[repr(C, align($rust))]
        pub struct $name {
            id: u8,
            size: [u8; $n],
        }
        unsafe impl VarLen for $name {
            type Layout = Size;
            fn calculate_layout(&self) -> Size {
                let mut b = [0u8; 8];
                let mut i = 0;
                while i < $n {
                    b[i] = self.size[i];
                    i += 1;
                }
                Size(usize::from_le_bytes(b))
            }
            const ALIGN: usize = $align;
            const NEEDS_VDROP: bool = true;
            unsafe fn vdrop(self: Pin<&mut Self>, _: Size) {
                note_drop(self.id)
            }
        }
        impl Vast for $name {
            const HDR: usize = size_of::<$name>();
            fn put(dst: *mut Self, id: u8, size: usize) {
                let b = size.to_le_bytes();
                let mut s = [0u8; $n];
                let mut i = 0;
                while i < $n {
                    s[i] = b[i];
                    i += 1;
                }
                unsafe { dst.write($name { id, size: s }) }
            }
            fn id(&self) -> u8 {
                self.id
            }
        }
    };
}
vast!(Vast1, 1, 1, 6);
vast!(Vast4, 4, 1, 6);
vast!(Vast16, 16, 2, 7);
struct Of<T>(u8, usize, core::marker::PhantomData<T>);
fn vast<T>(id: u8, size: usize) -> Of<T> {
    Of(id, size, core::marker::PhantomData)
}
unsafe impl<T: Vast> Initializer<T> for Of<T> {
    fn calculate_layout_cautious(&self) -> Option<Size> {
        Some(Size(self.1))
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: Size) {
        vp!(layout.0 == self.1, "the initializer is given the layout it asked for");
        T::put(dst.as_ptr(), self.0, self.1)
    }
}
fn any_seq_one<T: Vast>() {
    let z = nd::usize();
    nd::assume(z >= T::HDR && z < 1 << 40);
    let mut s: Seq<T> = Seq::new();
    s.push(vast::<T>(1, z));
    let u = (z + T::ALIGN - 1) / T::ALIGN;
    vp!(s.offset() == u && s.capacity_in_offsets() >= u && s.len() == 1, "the element takes its size, rounded up");
    vp!(nd::last_size() == s.capacity_in_offsets() * T::ALIGN && nd::last_align() == T::ALIGN, "the storage is as large as the capacity says");
    let e = s.iter().next().unwrap();
    vp!(at(e) == nd::last_addr() && e.id() == 1 && e.calculate_layout().size() == z, "the element is there");
    reach!(z > 1 << 35, "large");
    drop(s);
    vp!(drops(1) == 1 && nd::live() == 0, "everything is released");
}
fn any_seq_two<T: Vast>(fit: bool) {
    let (z0, z1) = (nd::usize(), nd::usize());
    nd::assume(z0 >= T::HDR && z0 < 1 << 40 && z1 >= T::HDR && z1 < 1 << 40);
    let mut s: Seq<T> = Seq::new();
    s.push(vast::<T>(1, z0));
    let (u0, u1) = ((z0 + T::ALIGN - 1) / T::ALIGN, (z1 + T::ALIGN - 1) / T::ALIGN);
    let cap = s.capacity_in_offsets();
    nd::assume(fit == (u0 + u1 <= cap));
    s.push(vast::<T>(2, z1));
    vp!(s.offset() == u0 + u1 && s.len() == 2, "the elements take their sizes, rounded up");
    vp!(s.capacity_in_offsets() >= u0 + u1 && (fit == (nd::allocs() == 1)), "the storage grows exactly when it is too small");
    vp!(fit || s.capacity_in_offsets() >= 2 * cap, "and then at least doubles");
    vp!(nd::last_size() == s.capacity_in_offsets() * T::ALIGN && nd::last_align() == T::ALIGN, "the storage is as large as the capacity says");
    let base = nd::last_addr();
    let mut it = s.iter();
    let e = it.next().unwrap();
    vp!(at(e) == base && e.id() == 1 && e.calculate_layout().size() == z0, "the first element is there");
    let f = it.next().unwrap();
    vp!(at(f) == base + u0 * T::ALIGN && f.id() == 2 && f.calculate_layout().size() == z1, "the second element is there");
    vp!(s.offset_of(e) == 0 && s.offset_of(f) == u0, "their offsets are those at which they were pushed");
    vp!(it.next().is_none(), "and nothing else");
    reach!(!fit && z0 > 1 << 35 && z1 > 1 << 35 || fit && z1 > 15, "large");
    core::mem::forget(s);
}

harnesses! {
//@ C02,C14 defs=SYMSIZE
fn c02_any_u8_u8() { any_len::<u8, u8>(nd::u8()) }
//@ C02,C14 defs=SYMSIZE
fn c02_any_u32_u16() { any_len::<u32, u16>(nd::u16()) }
//@ C02,C14 defs=SYMSIZE
fn c02_any_u64_u32() { any_len::<u64, u32>(nd::u32()) }
//@ C02,C14 defs=SYMSIZE
fn c02_any_u16_u64() { any_len::<u16, u64>(nd::u64()) }
//@ C02,C14 defs=SYMSIZE
fn c02_any_u128_usize() { any_len::<u128, usize>(nd::usize()) }
//@ C02 defs=SYMSIZE
fn c02_any_u8x3_usize() { any_len::<[u8; 3], usize>(nd::usize()) }
//@ C02 defs=SYMSIZE
fn c02_any_1k_u64() { any_len::<[u64; 128], u64>(nd::u64()) }
//@ C02,C14 defs=SYMSIZE
fn c02_any_unit_u32() { any_len::<(), u32>(nd::u32()) }
//@ C02,C03 defs=SYMSIZE
fn c02_any_tail_u8() { any_tail::<u8, u16, usize>(1, nd::usize()) }
//@ C02,C03 defs=SYMSIZE
fn c02_any_tail_u32() { any_tail::<u32, [u8; 5], u16>(1, nd::u16()) }
//@ C02,C03 defs=SYMSIZE
fn c02_any_tail_unit() { any_tail::<(), u64, u32>((), nd::u32()) }
//@ C02,C17 defs=SYMSIZE
fn c02_any_struct() { any_struct() }
//@ C02,C17 defs=SYMSIZE
fn c02_any_struct_tail() { any_struct_tail() }
//@ C16
fn c16_any_set() { any_set() }
//@ C10 defs=SYMSIZE
fn c10_any_u8_u8() { any_box::<u8, u8>(nd::u8()) }
//@ C10 defs=SYMSIZE
fn c10_any_u16_u32() { any_box::<u16, u32>(nd::u32()) }
//@ C10 defs=SYMSIZE
fn c10_any_u64_usize() { any_box::<u64, usize>(nd::usize()) }
//@ C10 defs=SYMSIZE
fn c10_any_u8x3_u64() { any_box::<[u8; 3], u64>(nd::u64()) }
//@ C06,C09 defs=SYMSIZE unwind=9
fn c09_any_one_a1() { any_seq_one::<Vast1>() }
//@ C06,C09 defs=SYMSIZE unwind=9
fn c09_any_one_a16() { any_seq_one::<Vast16>() }
//@ C06,C09 defs=SYMSIZE unwind=9
fn c09_any_fit_a4() { any_seq_two::<Vast4>(true) }
//@ C06,C09 defs=SYMSIZE unwind=9 tier=thorough timeout=800
fn c09_any_fit_a1_deep() { any_seq_two::<Vast1>(true) }
//@ C06,C09 defs=SYMSIZE unwind=9 t=60
fn c09_any_grow_a4() { any_seq_two::<Vast4>(false) }
//@ C06,C09 defs=SYMSIZE unwind=9 tier=thorough timeout=800
fn c09_any_grow_a1_deep() { any_seq_two::<Vast1>(false) }
//@ C06,C09 defs=SYMSIZE unwind=9 tier=thorough timeout=800
fn c09_any_grow_a16_deep() { any_seq_two::<Vast16>(false) }
}
