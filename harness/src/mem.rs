//! C02 layout of constructed values, C03 contents, C04 footprint, C05 isolation of mutations.
use crate::nd;
use crate::vt::*;
use core::pin::Pin;
use core::ptr::NonNull;
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::ArrayInitializer;
use varlen::prelude::*;
use varlen::tuple::*;
use varlen::{Initializer, Layout};

fn at<T: ?Sized>(r: &T) -> usize {
    r as *const T as *const u8 as usize
}
/// Builds a box and compares the size reserved with the size reported; returns box, address, size.
fn boxed<T: VarLen>(init: impl Initializer<T>) -> (VBox<T>, usize, usize) {
    let reserved = init.calculate_layout_cautious().unwrap().size();
    let b: VBox<T> = nd::vbox(init);
    let reported = b.calculate_layout().size();
    vp!(reserved == reported, "the size reserved equals the size the value reports");
    let a = at(&*b);
    vp!(a % T::ALIGN == 0, "the value is aligned");
    (b, a, reported)
}

fn lay_array<T, L: ArrayLen>(max: usize) {
    let n = nd::below(max + 1);
    let (b, a, size) = boxed::<Array<T, L>>(SizedInit(L::from_usize(n).unwrap(), Skip));
    let o = round_up(core::mem::size_of::<L>(), core::mem::align_of::<T>());
    vp!(b.len() == n && b.len_short().as_usize() == n, "the array has the requested length");
    vp!(at(&b[..]) == a + o, "the elements start right after the length, aligned");
    vp!(size == o + n * core::mem::size_of::<T>(), "the last element ends at the reported size");
    reach!(n == 0, "empty");
    reach!(n == max, "full");
    let mut b = b;
    vp!(at(b.as_mut().mut_slice()) == a + o, "shared and mutable views start at the same place");
    core::mem::forget(b);
}

fn lay_pair<A, LA: ArrayLen, B, LB: ArrayLen>(max: usize) {
    let (n, m) = (nd::below(max + 1), nd::below(max + 1));
    let (mut b, a, size) = boxed::<Tup2<Array<A, LA>, Array<B, LB>>>(tup2::Init(
        SizedInit(LA::from_usize(n).unwrap(), Skip),
        SizedInit(LB::from_usize(m).unwrap(), Skip),
    ));
    let e0 = round_up(core::mem::size_of::<LA>(), core::mem::align_of::<A>()) + n * core::mem::size_of::<A>();
    let o1 = round_up(e0, <Array<B, LB> as VarLen>::ALIGN);
    let e1 = o1 + round_up(core::mem::size_of::<LB>(), core::mem::align_of::<B>()) + m * core::mem::size_of::<B>();
    {
        let r = b.refs();
        vp!(at(r.0) == a, "the first field starts at the value");
        vp!(at(r.1) == a + o1, "the second field starts right after the first, aligned");
        vp!(r.0.len() == n && r.1.len() == m, "the fields have the requested lengths");
    }
    vp!(size == e1, "the last field ends at the reported size");
    let mu = b.as_mut().muts();
    vp!(at(&*mu.0) == a && at(&*mu.1) == a + o1, "shared and mutable views start at the same place");
    reach!(n == 0 && m == max, "first empty");
    reach!(n == max && m == 0, "second empty");
    core::mem::forget(b);
}

#[define_varlen]
pub struct Mixed {
    pub x: u32,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub a: [u16; *n as usize],
    pub y: u8,
    #[varlen]
    pub s: Str<u8>,
    #[varlen_array]
    pub b: [u64; (*n / 2) as usize],
    #[varlen]
    pub t: Tup2<Array<u8, u16>, FixedLen<u32>>,
}

#[define_varlen]
pub struct Ctl2 {
    #[controls_layout]
    pub n: u8,
    #[controls_layout]
    pub m: u16,
    #[varlen_array]
    pub a: [u8; *n as usize],
    #[varlen_array]
    pub b: [u32; *m as usize + 1],
    #[varlen_array]
    pub c: [u16; *n as usize + *m as usize],
}

#[define_varlen]
pub struct NoLen {
    #[varlen]
    pub a: Array<u8, u8>,
    pub x: u64,
    #[varlen]
    pub b: Array<u32, u8>,
}

/// One field of each kind and type parameter, and enough of them.
#[define_varlen]
pub struct Wide<B, C, D, E, F, H> {
    pub a: u16,
    #[varlen]
    pub b: Array<B, u8>,
    #[varlen_array]
    pub c: [C; 1],
    #[varlen]
    pub d: Array<D, u8>,
    #[varlen_array]
    pub e: [E; 1],
    #[varlen]
    pub f: Tup2<FixedLen<u8>, FixedLen<F>>,
    #[controls_layout]
    pub g: u32,
    #[varlen]
    pub h: Array<H, u8>,
}
/// Every one of the types is as aligned as 16-byte integers.
fn all16(aligns: &[usize]) {
    let mut i = 0;
    while i < aligns.len() {
        vp!(aligns[i].is_power_of_two() && aligns[i] >= 16, "a type is at least as aligned as each of its parts");
        i += 1;
    }
}
fn wide<B: Default, C: Default, D: Default, E: Default, F: Default, H: Default>() {
    let n = nd::below(3) as u8;
    let (b, a, size) = boxed::<Wide<B, C, D, E, F, H>>(wide::Init {
        a: 3,
        b: SizedInit(n, Skip),
        c: FillWithDefault,
        d: SizedInit(1u8, Skip),
        e: FillWithDefault,
        f: tup2::Init(FixedLen(1u8), FixedLen(F::default())),
        g: 4,
        h: SizedInit(2u8, Skip),
    });
    let (sz, al) = (core::mem::size_of::<Wide<B, C, D, E, F, H>>(), <Wide<B, C, D, E, F, H> as VarLen>::ALIGN);
    fn s<T>() -> usize { core::mem::size_of::<T>() }
    fn l<T>() -> usize { core::mem::align_of::<T>() }
    let ob = round_up(sz, l::<B>());
    let oc = round_up(ob + round_up(1, l::<B>()) + n as usize * s::<B>(), l::<C>());
    let od = round_up(oc + s::<C>(), l::<D>());
    let oe = round_up(od + round_up(1, l::<D>()) + s::<D>(), l::<E>());
    let of = round_up(oe + s::<E>(), l::<F>());
    let oh = round_up(of + round_up(1, l::<F>()) + s::<F>(), l::<H>());
    let r = b.refs();
    vp!(at(r.b) == a + ob && at(r.c) == a + oc && at(r.d) == a + od && at(r.e) == a + oe && at(r.f) == a + of && at(r.h) == a + oh, "fields in order, each at the first aligned place");
    vp!(size == oh + round_up(1, l::<H>()) + 2 * s::<H>(), "the last field ends at the reported size");
    let all = [l::<u32>(), l::<B>(), l::<C>(), l::<D>(), l::<E>(), l::<F>(), l::<H>()];
    let k = nd::below(7);
    vp!(al % all[k] == 0, "a struct is at least as aligned as each of its fields");
    reach!(n == 2, "two");
    core::mem::forget(b);
}

fn mixed(n: u8, s: &[u8], k: u16) -> impl Initializer<Mixed> + '_ {
    mixed::Init {
        x: 7,
        n,
        a: Skip,
        y: 9,
        s: Str::<u8>::try_copy(unsafe { core::str::from_utf8_unchecked(s) }).unwrap(),
        b: Skip,
        t: tup2::Init(SizedInit(k, Skip), FixedLen(5u32)),
    }
}

type Pair = Tup2<Array<u16, u8>, Array<u8, u16>>;
fn pair(n: usize, m: usize) -> impl Initializer<Pair> {
    tup2::Init(SizedInit(n as u8, Skip), SizedInit(m as u16, Skip))
}

fn s_ptr(a: usize) -> *const u8 {
    a as *const u8
}
fn rt_array<T: Copy + PartialEq, L: ArrayLen, const N: usize>(src: [T; N]) {
    let n = nd::below(N + 1);
    let b: VBox<Array<T, L>> = nd::vbox(Array::try_copy(&src[..n]).unwrap());
    vp!(b.len() == n && b.len_short().as_usize() == n, "the array has the requested length");
    let k = nd::below(N);
    if k < n {
        vp!(b[k] == src[k], "element k is what the initializer supplied");
    }
    vp!(b.get(n).is_none(), "nothing beyond the length");
    reach!(n == N, "full");
    reach!(n == 0, "empty");
    drop(b);
    vp!(nd::live() == 0, "released");
}

const TEXT: [u8; 6] = *b"varlen";

/// A value of type T built by `init` at `off` in an otherwise arbitrary buffer.
fn in_buf<T: VarLen, const N: usize>(buf: &mut Buf<N>, off: usize, init: impl Initializer<T>) -> (&mut T, usize) {
    let layout = init.calculate_layout_cautious().unwrap();
    let size = layout.size();
    nd::assume(off + size <= N);
    unsafe {
        let p = NonNull::new_unchecked(buf.0.as_mut_ptr().add(off) as *mut T);
        init.initialize(p, layout);
        (&mut *p.as_ptr(), size)
    }
}
/// Builds T at `off`, leaves everything else alone; then destroys it, again leaving all else alone.
fn footprint<T: VarLen, const N: usize>(off: usize, init: impl Initializer<T>) {
    let mut buf = Buf::<N>::any();
    let old = buf.copy();
    let (v, size) = in_buf::<T, N>(&mut buf, off, init);
    let v = v as *mut T;
    unsafe {
        vp!((*v).calculate_layout().size() == size, "reported size");
        vp!(buf.same_outside(&old, off, off + size), "construction writes only the value's own bytes");
        T::vdrop(Pin::new_unchecked(&mut *v), (*v).calculate_layout());
    }
    vp!(buf.same_outside(&old, off, off + size), "destruction writes only the value's own bytes");
    reach!("done");
}
/// The same at the very end of the buffer, so that anything beyond it is out of bounds.
fn footprint_end<T: VarLen, const N: usize>(init: impl Initializer<T>) {
    let size = init.calculate_layout_cautious().unwrap().size();
    nd::assume(size <= N && (N - size) % T::ALIGN == 0);
    footprint::<T, N>(N - size, init);
}

harnesses! {
//@ C02 bank=40
fn c02_array_u8() { lay_array::<u8, usize>(20) }
//@ C02 bank=40
fn c02_array_u16_u8() { lay_array::<u16, u8>(12) }
//@ C02 bank=80
fn c02_array_u32_u16() { lay_array::<u32, u16>(12) }
//@ C02 bank=80
fn c02_array_u64_u32() { lay_array::<u64, u32>(6) }
//@ C02 bank=80
fn c02_array_u128_u64() { lay_array::<u128, u64>(3) }
//@ C02 bank=80
fn c02_array_u128_u8() { lay_array::<u128, u8>(3) }
//@ C02 bank=80
fn c02_array_u8x3_u16() { lay_array::<[u8; 3], u16>(12) }
//@ C02 bank=80
fn c02_array_tup_u8() { lay_array::<(u32, u8), u8>(6) }
//@ C02 bank=80
fn c02_array_unit() { lay_array::<(), u16>(40) }

//@ C02 bank=80
fn c02_pair_u8_u8() { lay_pair::<u8, u8, u8, u8>(20) }
//@ C02 bank=80
fn c02_pair_u8_u64() { lay_pair::<u8, u8, u64, u8>(5) }
//@ C02 bank=80
fn c02_pair_u16_usize() { lay_pair::<u16, u8, u8, usize>(10) }
//@ C02 bank=80
fn c02_pair_u32_u16() { lay_pair::<u32, usize, u16, u16>(8) }
//@ C02 bank=112
fn c02_pair_u8_u128() { lay_pair::<u8, u16, u128, u8>(3) }

//@ C02 bank=96
fn c02_tup3() {
    let (n, z, m) = (nd::below(9), any_size::<Blob4>(20), nd::below(5));
    let (mut b, a, size) = boxed::<Tup3<Array<u8, u8>, Blob4, Array<u64, u16>>>(
        tup3::Init(SizedInit(n as u8, Skip), Blob4::of(1, z), SizedInit(m as u16, Skip)));
    let o1 = round_up(1 + n, 4);
    let o2 = round_up(o1 + z, 8);
    {
        let r = b.refs();
        vp!(at(r.0) == a && at(r.1) == a + o1 && at(r.2) == a + o2, "fields in order, each at the first aligned place");
    }
    vp!(size == o2 + 8 + 8 * m, "the last field ends at the reported size");
    let mu = b.as_mut().muts();
    vp!(at(&*mu.0) == a && at(&*mu.1) == a + o1 && at(&*mu.2) == a + o2, "mutable views at the same places");
    reach!("done");
    core::mem::forget(b);
}
//@ C02 bank=96
fn c02_tup4() {
    let (z0, z1, n) = (any_size::<Blob1>(10), any_size::<Blob2>(10), nd::below(6));
    let (mut b, a, size) = boxed::<Tup4<Blob1, Array<u8, u16>, FixedLen<u64>, Blob2>>(
        tup4::Init(Blob1::of(1, z0), SizedInit(n as u16, Skip), FixedLen(3u64), Blob2::of(2, z1)));
    let o1 = round_up(z0, 2);
    let o2 = round_up(o1 + 2 + n, 8);
    let o3 = o2 + 8;
    {
        let r = b.refs();
        vp!(at(r.0) == a && at(r.1) == a + o1 && at(r.2) == a + o2 && at(r.3) == a + o3, "fields in order, each at the first aligned place");
    }
    vp!(size == o3 + z1, "the last field ends at the reported size");
    let mu = b.as_mut().muts();
    vp!(at(&*mu.0) == a && at(&*mu.1) == a + o1 && at(&*mu.2) == a + o2 && at(&*mu.3) == a + o3, "mutable views at the same places");
    reach!("done");
    core::mem::forget(b);
}
//@ C02 bank=96
fn c02_tup5() {
    let (z0, z1, z2) = (any_size::<Blob2>(10), any_size::<Blob8>(20), any_size::<Blob1>(10));
    let (mut b, a, size) = boxed::<Tup5<FixedLen<u8>, Blob2, Blob8, Blob1, FixedLen<u32>>>(
        tup5::Init(FixedLen(1), Blob2::of(1, z0), Blob8::of(2, z1), Blob1::of(3, z2), FixedLen(4)));
    let o1 = 2;
    let o2 = round_up(o1 + z0, 8);
    let o3 = o2 + z1;
    let o4 = round_up(o3 + z2, 4);
    {
        let r = b.refs();
        vp!(at(r.0) == a && at(r.1) == a + o1 && at(r.2) == a + o2 && at(r.3) == a + o3 && at(r.4) == a + o4, "fields in order, each at the first aligned place");
    }
    vp!(size == o4 + 4, "the last field ends at the reported size");
    let mu = b.as_mut().muts();
    vp!(at(&*mu.0) == a && at(&*mu.1) == a + o1 && at(&*mu.2) == a + o2 && at(&*mu.3) == a + o3 && at(&*mu.4) == a + o4, "mutable views at the same places");
    reach!("done");
    core::mem::forget(b);
}
//@ C02 bank=112
fn c02_nested() {
    let (n, z, m) = (nd::below(5), any_size::<Blob8>(20), nd::below(5));
    type In = Tup2<Array<u16, u8>, Blob8>;
    let (b, a, size) = boxed::<Tup3<Array<u8, u8>, In, FixedLen<u16>>>(
        tup3::Init(SizedInit(m as u8, Skip), tup2::Init(SizedInit(n as u8, Skip), Blob8::of(1, z)), FixedLen(1)));
    let o1 = round_up(1 + m, 8);
    let i1 = round_up(2 + 2 * n, 8);
    let o2 = round_up(o1 + i1 + z, 2);
    let r = b.refs();
    vp!(at(r.1) == a + o1 && at(r.2) == a + o2, "a nested value occupies exactly its own size");
    let q = r.1.refs();
    vp!(at(q.0) == a + o1 && at(q.1) == a + o1 + i1, "nested fields in order");
    vp!(r.1.calculate_layout().size() == i1 + z, "nested size");
    vp!(size == o2 + 2, "the last field ends at the reported size");
    reach!("done");
    core::mem::forget(b);
}
//@ C02 bank=112 cpy=8
fn c02_struct() {
    let (n, l, k) = (nd::below(7) as u8, nd::below(7), nd::below(5));
    let (mut b, a, size) = boxed::<Mixed>(mixed(n, &TEXT[..l], k as u16));
    let h = core::mem::size_of::<Mixed>();
    let oa = round_up(h, 2);
    let os = oa + 2 * n as usize;
    let ob = round_up(os + 1 + l, 8);
    let ot = round_up(ob + 8 * (n / 2) as usize, 4);
    let of = round_up(2 + k, 4);
    {
        let r = b.refs();
        vp!(at(r.a) == a + oa && at(r.s) == a + os && at(r.b) == a + ob && at(r.t) == a + ot, "fields in order, each at the first aligned place");
        vp!(at(r.t.refs().1) == a + ot + of, "nested field");
        vp!(r.a.len() == n as usize && r.b.len() == (n / 2) as usize && r.s.len() == l && r.t.refs().0.len() == k, "lengths");
    }
    vp!(size == ot + of + 4, "the last field ends at the reported size");
    let mu = b.as_mut().muts();
    vp!(at(&*mu.a) == a + oa && at(&*mu.s) == a + os && at(&*mu.b) == a + ob && at(&*mu.t) == a + ot, "mutable views at the same places");
    reach!("done");
    core::mem::forget(b);
}
//@ C02 bank=96
fn c02_struct2() {
    let (n, m) = (nd::below(6), nd::below(5));
    let (mut b, a, size) = boxed::<Ctl2>(ctl_2::Init { n: n as u8, m: m as u16, a: Skip, b: Skip, c: Skip });
    let oa = core::mem::size_of::<Ctl2>();
    let ob = round_up(oa + n, 4);
    let oc = ob + 4 * (m + 1);
    {
        let r = b.refs();
        vp!(at(r.a) == a + oa && at(r.b) == a + ob && at(r.c) == a + oc, "fields in order, each at the first aligned place");
        vp!(r.a.len() == n && r.b.len() == m + 1 && r.c.len() == n + m, "lengths");
    }
    vp!(size == oc + 2 * (n + m), "the last field ends at the reported size");
    let mu = b.as_mut().muts();
    vp!(at(&*mu.a) == a + oa && at(&*mu.b) == a + ob && at(&*mu.c) == a + oc, "mutable views at the same places");
    reach!("done");
    core::mem::forget(b);
}
//@ C02 bank=96
fn c02_struct_nolen() {
    let (n, m) = (nd::below(9), nd::below(6));
    let (b, a, size) = boxed::<NoLen>(no_len::Init { a: SizedInit(n as u8, Skip), x: 1, b: SizedInit(m as u8, Skip) });
    let ob = round_up(8 + 1 + n, 4);
    let r = b.refs();
    vp!(at(r.a) == a + 8 && at(r.b) == a + ob, "fields in order, each at the first aligned place");
    vp!(size == ob + 4 + 4 * m, "the last field ends at the reported size");
    reach!("done");
    core::mem::forget(b);
}
//@ C02
fn c02_aligns() {
    type P = Array<u8, u8>;
    type Q = Array<u128, u8>;
    all16(&[<Q as VarLen>::ALIGN, <Array<u128, u64> as VarLen>::ALIGN, <FixedLen<u128> as VarLen>::ALIGN]);
    all16(&[Tup2::<P, Q>::ALIGN, Tup2::<Q, P>::ALIGN, Tup3::<Q, P, P>::ALIGN, Tup3::<P, Q, P>::ALIGN, Tup3::<P, P, Q>::ALIGN]);
    all16(&[Tup4::<Q, P, P, P>::ALIGN, Tup4::<P, Q, P, P>::ALIGN, Tup4::<P, P, Q, P>::ALIGN, Tup4::<P, P, P, Q>::ALIGN]);
    all16(&[Tup5::<Q, P, P, P, P>::ALIGN, Tup5::<P, Q, P, P, P>::ALIGN, Tup5::<P, P, Q, P, P>::ALIGN, Tup5::<P, P, P, Q, P>::ALIGN, Tup5::<P, P, P, P, Q>::ALIGN]);
    all16(&[Tup2::<P, Tup2<P, Tup2<P, Q>>>::ALIGN, Tup5::<P, P, P, P, Tup5<P, P, P, P, Q>>::ALIGN]);
    all16(&[Wide::<u128, u8, u8, u8, u8, u8>::ALIGN, Wide::<u8, u128, u8, u8, u8, u8>::ALIGN, Wide::<u8, u8, u128, u8, u8, u8>::ALIGN]);
    all16(&[Wide::<u8, u8, u8, u128, u8, u8>::ALIGN, Wide::<u8, u8, u8, u8, u128, u8>::ALIGN, Wide::<u8, u8, u8, u8, u8, u128>::ALIGN]);
    let len = nd::below(3);
    vp!(Array::<u8, u64>::ALIGN % 8 == 0 && Array::<u16, u32>::ALIGN % 4 == 0 && Str::<u16>::ALIGN % 2 == 0, "an array is as aligned as its length");
    reach!(len == 0, "done");
}
//@ C02 bank=80
fn c02_wide_rising() { wide::<u8, u16, u16, u32, u32, u64>() }
//@ C02 bank=120
fn c02_wide_falling() { wide::<u64, u64, u32, u16, u16, u8>() }
//@ C02 bank=140
fn c02_wide_last() { wide::<u8, u16, u8, u32, u8, u128>() }
//@ C02 bank=140
fn c02_wide_fifth() { wide::<u8, u16, u8, u128, u64, u8>() }
// Every other kind of initializer reserves what the value it builds reports.
//@ C02 bank=24 cpy=14 t=30
fn c02_clone() {
    let (n, m) = (nd::below(3), nd::below(4));
    let (b, _, size) = boxed::<Pair>(pair(n, m));
    let (c, _, csize) = boxed::<Pair>(b.vclone());
    vp!(csize == size && nd::live() == 2, "a clone reserves its source's size");
    reach!(n == 2 && m == 0, "sizes");
    core::mem::forget((b, c));
}
//@ C02 bank=24 cpy=14 t=30
fn c02_copy() {
    let (n, m) = (nd::below(3), nd::below(4));
    let (b, _, size) = boxed::<Pair>(pair(n, m));
    let (c, _, csize) = boxed::<Pair>(b.vcopy());
    vp!(csize == size && nd::live() == 2, "a copy reserves its source's size");
    reach!(n == 2 && m == 0, "sizes");
    core::mem::forget((b, c));
}
//@ C02 bank=24 cpy=14 t=30
fn c02_move() {
    let (n, m) = (nd::below(3), nd::below(4));
    let (b, _, size) = boxed::<Pair>(pair(n, m));
    let (c, _, csize) = boxed::<Pair>(b);
    vp!(csize == size && nd::live() == 1, "a moved box reserves its source's size");
    reach!(n == 2 && m == 0, "sizes");
    core::mem::forget(c);
}
//@ C02 bank=16 cpy=8
fn c02_str() {
    let l = nd::below(7);
    let (b, a, size) = boxed::<Str<u16>>(Str::<u16>::try_copy(unsafe { core::str::from_utf8_unchecked(&TEXT[..l]) }).unwrap());
    vp!(size == 2 + l && at(&b[..]) == a + 2 && b.len() == l, "text right after the length");
    reach!("done");
    core::mem::forget(b);
}

// ---- C03
//@ C03 bank=24 cpy=8
fn c03_array_u8() { rt_array::<u8, usize, 7>(nd::bytes()) }
//@ C03 bank=24 cpy=10
fn c03_array_u16_u8() { rt_array::<u16, u8, 5>(nd::u16s()) }
//@ C03 bank=20 cpy=16
fn c03_array_u32_u16() { rt_array::<u32, u16, 4>(nd::u32s()) }
//@ C03 bank=24 cpy=16
fn c03_array_u64_u32() { rt_array::<u64, u32, 2>(nd::u64s()) }
//@ C03 bank=24 cpy=16
fn c03_array_u64_u64() { rt_array::<u64, u64, 2>(nd::u64s()) }
//@ C03 bank=24 cpy=12
fn c03_array_u8x3_u16() { rt_array::<[u8; 3], u16, 4>([nd::bytes(), nd::bytes(), nd::bytes(), nd::bytes()]) }
//@ C03 bank=24 cpy=16
fn c03_array_pair_u8() { rt_array::<(u16, u8), u8, 4>([(nd::u16(), nd::u8()), (nd::u16(), nd::u8()), (nd::u16(), nd::u8()), (nd::u16(), nd::u8())]) }
//@ C03 bank=64
fn c03_array_u128_u8() {
    let x: [u64; 3] = nd::u64s();
    let n = nd::below(4);
    let b: VBox<Array<u128, u8>> = nd::vbox(SizedInit(n as u8, FillSequentially(|i| (x[i] as u128) << 20)));
    vp!(b.len() == n, "the array has the requested length");
    let k = nd::below(3);
    if k < n { vp!(b[k] == (x[k] as u128) << 20, "element k is what the initializer supplied"); }
    reach!(n == 3, "full");
    core::mem::forget(b);
}
//@ C03 bank=24
fn c03_array_unit() { rt_array::<(), u16, 4>([(); 4]) }
//@ C03 bank=24 unwind=7
fn c03_array_seq_u16() {
    let n = nd::below(6);
    let b: VBox<Array<u16, u8>> = nd::vbox(SizedInit(n as u8, FillSequentially(|i| 100 + i as u16)));
    vp!(b.len() == n, "the array has the requested length");
    let k = nd::below(6);
    if k < n { vp!(b[k] == 100 + k as u16, "element k is what the initializer supplied"); }
    reach!(n == 5, "full");
    core::mem::forget(b);
}
//@ C03 bank=40 cpy=8 t=30
fn c03_pair() {
    let (x, y): ([u16; 4], [u8; 5]) = (nd::u16s(), nd::bytes());
    let (n, m) = (nd::below(5), nd::below(6));
    let b: VBox<Tup2<Array<u16, u8>, Array<u8, u16>>> =
        nd::vbox(tup2::Init(Array::try_copy(&x[..n]).unwrap(), Array::try_copy(&y[..m]).unwrap()));
    let r = b.refs();
    vp!(r.0.len() == n && r.1.len() == m, "lengths");
    let k = nd::below(5);
    if k < n { vp!(r.0[k] == x[k], "first array"); }
    if k < m { vp!(r.1[k] == y[k], "second array"); }
    reach!(n == 4 && m == 5, "full");
    core::mem::forget(b);
}
//@ C03 bank=48 cpy=8
fn c03_tup3() {
    let (x, y, z): ([u8; 3], u32, [u16; 3]) = (nd::bytes(), nd::u32(), nd::u16s());
    let (n, m) = (nd::below(4), nd::below(4));
    let b: VBox<Tup3<Array<u8, u8>, FixedLen<u32>, Array<u16, u16>>> =
        nd::vbox(tup3::Init(Array::try_copy(&x[..n]).unwrap(), FixedLen(y), Array::try_copy(&z[..m]).unwrap()));
    let r = b.refs();
    vp!(r.0.len() == n && r.1.0 == y && r.2.len() == m, "lengths and fixed field");
    let k = nd::below(3);
    if k < n { vp!(r.0[k] == x[k], "first array"); }
    if k < m { vp!(r.2[k] == z[k], "last array"); }
    reach!(n == 3 && m == 3, "full");
    core::mem::forget(b);
}
//@ C03 bank=48 cpy=4
fn c03_tup4() {
    let (x, z): ([u8; 3], [u8; 3]) = (nd::bytes(), nd::bytes());
    let (p, q) = (nd::u16(), nd::u64());
    let (n, m) = (nd::below(4), nd::below(4));
    let b: VBox<Tup4<Array<u8, u8>, FixedLen<u16>, Array<u8, u16>, FixedLen<u64>>> =
        nd::vbox(tup4::Init(Array::try_copy(&x[..n]).unwrap(), FixedLen(p), Array::try_copy(&z[..m]).unwrap(), FixedLen(q)));
    let r = b.refs();
    vp!(r.0.len() == n && r.1.0 == p && r.2.len() == m && r.3.0 == q, "lengths and fixed fields");
    let k = nd::below(3);
    if k < n { vp!(r.0[k] == x[k], "first array"); }
    if k < m { vp!(r.2[k] == z[k], "second array"); }
    reach!(n == 3 && m == 3, "full");
    core::mem::forget(b);
}
//@ C03 bank=48 cpy=4
fn c03_tup5() {
    let (x, z): ([u8; 3], [u8; 3]) = (nd::bytes(), nd::bytes());
    let (p, q, t) = (nd::u16(), nd::u32(), nd::u8());
    let (n, m) = (nd::below(4), nd::below(4));
    let b: VBox<Tup5<FixedLen<u8>, Array<u8, u8>, FixedLen<u16>, FixedLen<u32>, Array<u8, u8>>> =
        nd::vbox(tup5::Init(FixedLen(t), Array::try_copy(&x[..n]).unwrap(), FixedLen(p), FixedLen(q), Array::try_copy(&z[..m]).unwrap()));
    let r = b.refs();
    vp!(r.0.0 == t && r.1.len() == n && r.2.0 == p && r.3.0 == q && r.4.len() == m, "lengths and fixed fields");
    let k = nd::below(3);
    if k < n { vp!(r.1[k] == x[k], "first array"); }
    if k < m { vp!(r.4[k] == z[k], "last array"); }
    reach!(n == 3 && m == 3, "full");
    core::mem::forget(b);
}
//@ C03 bank=48 cpy=6
fn c03_nested() {
    let (x, z): ([u16; 3], [u8; 3]) = (nd::u16s(), nd::bytes());
    let (p, q) = (nd::u32(), nd::u8());
    let (n, m) = (nd::below(4), nd::below(4));
    let b: VBox<Tup3<FixedLen<u8>, Tup2<Array<u16, u8>, FixedLen<u32>>, Array<u8, u8>>> = nd::vbox(tup3::Init(
        FixedLen(q), tup2::Init(Array::try_copy(&x[..n]).unwrap(), FixedLen(p)), Array::try_copy(&z[..m]).unwrap()));
    let r = b.refs();
    let i = r.1.refs();
    vp!(r.0.0 == q && i.0.len() == n && i.1.0 == p && r.2.len() == m, "lengths and fixed fields");
    let k = nd::below(3);
    if k < n { vp!(i.0[k] == x[k], "inner array"); }
    if k < m { vp!(r.2[k] == z[k], "outer array"); }
    reach!(n == 3 && m == 3, "full");
    core::mem::forget(b);
}
//@ C03 bank=40 cpy=4 t=60
fn c03_struct() {
    let (x, z): ([u16; 2], [u8; 2]) = (nd::u16s(), nd::bytes());
    let (p, q, w) = (nd::u32(), nd::u8(), nd::u32());
    let n = nd::below(3);
    let l = nd::below(3);
    let u = nd::u64();
    let b: VBox<Mixed> = nd::vbox(mixed::Init {
        x: p, n: n as u8, a: CopyFrom(&x[..n]), y: q,
        s: Str::try_copy(unsafe { core::str::from_utf8_unchecked(&TEXT[..l]) }).unwrap(),
        b: FillSequentially(move |_| u),
        t: tup2::Init(Array::try_copy(&z[..]).unwrap(), FixedLen(w)),
    });
    let r = b.refs();
    vp!(*r.x == p && *r.n == n as u8 && *r.y == q, "fixed fields");
    vp!(b.x == p && b.n == n as u8 && b.y == q, "fixed fields, directly");
    vp!(r.a.len() == n && r.b.len() == n / 2 && r.s.len() == l, "lengths");
    let k = nd::below(2);
    if k < n { vp!(r.a[k] == x[k], "first array"); }
    if n >= 2 { vp!(r.b[0] == u, "second array"); }
    if k < l { vp!(r.s.as_bytes()[k] == TEXT[k], "string"); }
    let t = r.t.refs();
    vp!(t.0.len() == 2 && t.0[0] == z[0] && t.0[1] == z[1] && t.1.0 == w, "nested tuple");
    reach!(n == 2 && l == 2, "full");
    core::mem::forget(b);
}
//@ C03 bank=64 cpy=6
fn c03_struct2() {
    let (x, y, z): ([u8; 3], [u32; 3], [u16; 4]) = (nd::bytes(), nd::u32s(), nd::u16s());
    let (n, m) = (nd::below(3), nd::below(3));
    let b: VBox<Ctl2> = nd::vbox(ctl_2::Init {
        n: n as u8, m: m as u16,
        a: FillSequentially(|i| x[i]), b: FillSequentially(|i| y[i]), c: FillSequentially(|i| z[i]) });
    let r = b.refs();
    vp!(*r.n as usize == n && *r.m as usize == m, "length fields");
    vp!(r.a.len() == n && r.b.len() == m + 1 && r.c.len() == n + m, "lengths");
    let k = nd::below(4);
    if k < n { vp!(r.a[k] == x[k], "first array"); }
    if k < m + 1 { vp!(r.b[k] == y[k], "second array"); }
    if k < n + m { vp!(r.c[k] == z[k], "third array"); }
    reach!(n == 2 && m == 2, "full");
    core::mem::forget(b);
}
//@ C03 bank=16
fn c03_fixed() {
    let v = (nd::u32(), nd::u8(), nd::u16());
    let b: VBox<FixedLen<(u32, u8, u16)>> = nd::vbox(FixedLen(v));
    vp!(b.0 == v, "the value reads back");
    vp!(b.calculate_layout().size() == core::mem::size_of::<(u32, u8, u16)>(), "its size");
    reach!("done");
    core::mem::forget(b);
}

// ---- C04
//@ C04 cpy=8
fn c04_array_u8() { let n = nd::below(7); let x: [u8; 7] = nd::bytes(); footprint::<Array<u8, u8>, 32>(7, Array::try_copy(&x[..n]).unwrap()) }
//@ C04 cpy=12
fn c04_array_u16() { let n = nd::below(6); let x: [u16; 6] = nd::u16s(); footprint::<Array<u16, u8>, 32>(10, Array::try_copy(&x[..n]).unwrap()) }
//@ C04 cpy=16
fn c04_array_u32() { let n = nd::below(4); let x: [u32; 4] = nd::u32s(); footprint::<Array<u32>, 48>(8, Array::try_copy(&x[..n]).unwrap()) }
//@ C04 unwind=6
fn c04_array_fill() { let n = nd::below(5); footprint::<Array<u16, u8>, 32>(10, SizedInit(n as u8, FillSequentially(|i| i as u16))) }
//@ C04 cpy=8
fn c04_tup() {
    let (n, m) = (nd::below(3), nd::below(4));
    let (x, y): ([u16; 3], [u8; 4]) = (nd::u16s(), nd::bytes());
    footprint::<Tup3<Array<u16, u8>, FixedLen<u32>, Array<u8, u16>>, 48>(8,
        tup3::Init(Array::try_copy(&x[..n]).unwrap(), FixedLen(5), Array::try_copy(&y[..m]).unwrap()))
}
//@ C04
fn c04_tup_blobs() {
    footprint::<Tup4<Blob1, Blob8, Blob2, Blob1>, 80>(16,
        tup4::Init(Blob1::of(1, any_size::<Blob1>(9)), Blob8::of(2, any_size::<Blob8>(12)), Blob2::of(3, any_size::<Blob2>(9)), Blob1::of(4, any_size::<Blob1>(9))))
}
//@ C04 cpy=6
fn c04_struct() {
    let n = nd::below(4);
    let x: [u16; 4] = nd::u16s();
    footprint::<Mixed, 80>(8, mixed::Init {
        x: 1, n: n as u8, a: CopyFrom(&x[..n]), y: 2, s: Str::try_copy("ab").unwrap(), b: FillWithDefault,
        t: tup2::Init(SizedInit(3u16, FillWithDefault), FixedLen(4)) })
}
//@ C04 cpy=8
fn c04_str() { let n = nd::below(7); footprint::<Str<u16>, 32>(6, Str::try_copy(unsafe { core::str::from_utf8_unchecked(&TEXT[..n]) }).unwrap()) }
//@ C04 cpy=8
fn c04_end_array_u8() { let n = nd::below(7); let x: [u8; 7] = nd::bytes(); footprint_end::<Array<u8, u8>, 16>(Array::try_copy(&x[..n]).unwrap()) }
//@ C04 cpy=8 unwind=6
fn c04_end_array_u16() { let n = nd::below(4); footprint_end::<Array<u16, u8>, 16>(SizedInit(n as u8, FillSequentially(|i| i as u16))) }
//@ C04
fn c04_end_tup_blobs() {
    footprint_end::<Tup3<Blob1, Blob4, Blob1>, 40>(
        tup3::Init(Blob1::of(1, any_size::<Blob1>(9)), Blob4::of(2, any_size::<Blob4>(9)), Blob1::of(3, any_size::<Blob1>(9))))
}
// Moves and copies: the destination is written within its size, the source is not changed.
//@ C04 cpy=14
fn c04_move_owned() {
    let (n, m) = (nd::below(3), nd::below(4));
    let mut src = Buf::<32>::any();
    let (v, size) = in_buf::<Pair, 32>(&mut src, 8, pair(n, m));
    let o = unsafe { Owned::from_raw(NonNull::from(v)) };
    let mut dst = Buf::<32>::any();
    let (d0, s0) = (dst.copy(), src.copy());
    in_buf::<Pair, 32>(&mut dst, 6, o);
    vp!(dst.same_outside(&d0, 6, 6 + size), "a move writes only the destination's own bytes");
    vp!(src.same_outside(&s0, 0, 0), "a move leaves its source as it is");
    let k = nd::below(24);
    if k < size && k != 1 { vp!(dst.0[6 + k] == s0.0[8 + k], "a move transfers every byte"); }
    reach!(n == 2 && m == 3, "full");
}
//@ C04 cpy=14
fn c04_move_box() {
    let (n, m) = (nd::below(3), nd::below(4));
    let b: VBox<Pair> = nd::vbox(pair(n, m));
    let mut dst = Buf::<32>::any();
    let d0 = dst.copy();
    let (v, size) = in_buf::<Pair, 32>(&mut dst, 6, b);
    vp!(v.refs().0.len() == n && v.refs().1.len() == m, "moved");
    vp!(dst.same_outside(&d0, 6, 6 + size), "a move writes only the destination's own bytes");
    vp!(nd::live() == 0, "the box's storage is released");
    reach!(n == 2 && m == 3, "full");
}
//@ C04 cpy=14
fn c04_vcopy() {
    let (n, m) = (nd::below(3), nd::below(4));
    let b: VBox<Pair> = nd::vbox(pair(n, m));
    let mut dst = Buf::<32>::any();
    let d0 = dst.copy();
    let (_, size) = in_buf::<Pair, 32>(&mut dst, 6, b.vcopy());
    vp!(dst.same_outside(&d0, 6, 6 + size), "a copy writes only the destination's own bytes");
    drop(b);
    reach!(n == 2 && m == 3, "full");
}
//@ C04 cpy=14
fn c04_vclone() {
    let (n, m) = (nd::below(3), nd::below(4));
    let b: VBox<Pair> = nd::vbox(pair(n, m));
    let mut dst = Buf::<32>::any();
    let d0 = dst.copy();
    let (_, size) = in_buf::<Pair, 32>(&mut dst, 6, b.vclone());
    vp!(dst.same_outside(&d0, 6, 6 + size), "a clone writes only the destination's own bytes");
    drop(b);
    reach!(n == 2 && m == 3, "full");
}
// Neighbours in a sequence.
//@ C04 bank=84 cpy=16 t=30
fn c04_seq_neighbours() {
    let mut s: Seq<Blob2> = Seq::new();
    let (z0, z1) = (any_size::<Blob2>(20), any_size::<Blob2>(20));
    s.push(Blob2::of(1, z0));
    let a = at(s.iter().next().unwrap());
    let byte = |a: usize, k: usize| unsafe { *(s_ptr(a).add(k)) };
    let k = nd::below(20);
    nd::assume(k < z0);
    let same = nd::allocs();
    let old = byte(a, k);
    s.push(Blob2::of(2, z1));
    if nd::allocs() == same { vp!(byte(a, k) == old, "a push leaves every byte of the elements before it alone"); }
    let a2 = at(s.iter().next().unwrap());
    vp!(byte(a2, k) == old, "an element keeps every byte as the sequence grows");
    reach!(nd::allocs() == same, "no growth");
    reach!(nd::allocs() != same, "growth");
    drop(s);
}

// ---- C05
//@ C05 cpy=8
fn c05_array() {
    let x: [u16; 4] = nd::u16s();
    let n = nd::below(5);
    let mut b: VBox<Array<u16, u8>> = nd::vbox(Array::try_copy(&x[..n]).unwrap());
    let (i, k, v) = (nd::below(4), nd::below(4), nd::u16());
    nd::assume(i < n && k < n);
    b.as_mut().mut_slice()[i] = v;
    vp!(b.len() == n && b.len_short() as usize == n, "a write to an element keeps the length");
    vp!(b[k] == if k == i { v } else { x[k] }, "only the written element changes");
    reach!(n == 4, "full");
    drop(b);
    vp!(nd::live() == 0, "released");
}
//@ C05 bank=20 cpy=8 t=30 defs=NOGUARD
fn c05_tup() {
    let (x, y): ([u16; 3], [u8; 3]) = (nd::u16s(), nd::bytes());
    let (n, m, p) = (nd::below(4), nd::below(4), nd::u32());
    let mut b: VBox<Tup3<Array<u16, u8>, FixedLen<u32>, Array<u8, u16>>> =
        nd::vbox(tup3::Init(Array::try_copy(&x[..n]).unwrap(), FixedLen(p), Array::try_copy(&y[..m]).unwrap()));
    let size = b.calculate_layout().size();
    let (i, k, v, w) = (nd::below(3), nd::below(3), nd::u8(), nd::below(3));
    let mut p2 = p;
    {
        let mu = b.as_mut().muts();
        vp!(at(&*mu.0) + mu.0.calculate_layout().size() <= at(&*mu.1) && at(&*mu.1) + 4 <= at(&*mu.2), "mutable fields do not overlap");
        let (a, mut f, c) = (mu.0.mut_slice(), mu.1, mu.2.mut_slice());
        if w == 0 && i < n { a[i] = v as u16; }
        if w == 1 { f.0 = v as u32; p2 = v as u32; }
        if w == 2 && i < m { c[i] = v; }
    }
    vp!(b.calculate_layout().size() == size, "the size does not change");
    let r = b.refs();
    vp!(r.0.len() == n && r.2.len() == m, "the lengths do not change");
    vp!(r.1.0 == p2, "the fixed field changes only when written");
    if k < n { vp!(r.0[k] == if w == 0 && k == i { v as u16 } else { x[k] }, "the first array changes only where written"); }
    if k < m { vp!(r.2[k] == if w == 2 && k == i { v } else { y[k] }, "the last array changes only where written"); }
    reach!(n == 3 && m == 3 && w == 2, "full");
    core::mem::forget(b);
}
//@ C05 bank=64 cpy=6 t=30
fn c05_tup45() {
    let (p, q, t, u) = (nd::u16(), nd::u32(), nd::u8(), nd::u64());
    let (w, v) = (nd::below(9), nd::u8());
    let mut b: VBox<Tup4<FixedLen<u16>, FixedLen<u8>, FixedLen<u32>, FixedLen<u64>>> =
        nd::vbox(tup4::Init(FixedLen(p), FixedLen(t), FixedLen(q), FixedLen(u)));
    {
        let mut mu = b.as_mut().muts();
        if w == 0 { mu.0.0 = v as u16; }
        if w == 1 { mu.1.0 = v; }
        if w == 2 { mu.2.0 = v as u32; }
        if w == 3 { mu.3.0 = v as u64; }
    }
    let r = b.refs();
    vp!(r.0.0 == if w == 0 { v as u16 } else { p } && r.1.0 == if w == 1 { v } else { t }
        && r.2.0 == if w == 2 { v as u32 } else { q } && r.3.0 == if w == 3 { v as u64 } else { u }, "only the written field changes");
    let mut c: VBox<Tup5<FixedLen<u8>, FixedLen<u16>, FixedLen<u8>, FixedLen<u32>, FixedLen<u8>>> =
        nd::vbox(tup5::Init(FixedLen(t), FixedLen(p), FixedLen(t), FixedLen(q), FixedLen(t)));
    {
        let mut mu = c.as_mut().muts();
        if w == 4 { mu.0.0 = v; }
        if w == 5 { mu.1.0 = v as u16; }
        if w == 6 { mu.2.0 = v; }
        if w == 7 { mu.3.0 = v as u32; }
        if w == 8 { mu.4.0 = v; }
    }
    let r = c.refs();
    vp!(r.0.0 == if w == 4 { v } else { t } && r.1.0 == if w == 5 { v as u16 } else { p } && r.2.0 == if w == 6 { v } else { t }
        && r.3.0 == if w == 7 { v as u32 } else { q } && r.4.0 == if w == 8 { v } else { t }, "only the written field changes");
    reach!(w == 8, "last");
    core::mem::forget((b, c));
}
//@ C05 bank=40 cpy=6 t=90 defs=NOGUARD
fn c05_struct() {
    let (x, z): ([u16; 3], [u8; 2]) = ([0x101, 0x202, 0x303], [4, 5]);
    let (p, q, f, u) = (0x61626364u32, 9u8, 0x71727374u32, 0x8182838485868788u64);
    let n = nd::below(4);
    let mut b: VBox<Mixed> = nd::vbox(mixed::Init {
        x: p, n: n as u8, a: CopyFrom(&x[..n]), y: q, s: Str::try_copy("ab").unwrap(),
        b: FillSequentially(move |_| u), t: tup2::Init(Array::try_copy(&z[..]).unwrap(), FixedLen(f)) });
    let size = b.calculate_layout().size();
    let (w, v, i, k) = (nd::below(6), nd::u8(), nd::below(3), nd::below(3));
    {
        let mu = b.as_mut().muts();
        if w == 0 { *mu.x = v as u32; }
        if w == 1 && i < n { mu.a[i] = v as u16; }
        if w == 2 { *mu.y = v; }
        if w == 3 && n >= 2 { mu.b[0] = v as u64; }
        let mut t = mu.t.muts();
        if w == 4 && i < 2 { t.0.as_mut().mut_slice()[i] = v; }
        if w == 5 { t.1.0 = v as u32; }
    }
    vp!(b.calculate_layout().size() == size, "the size does not change");
    let r = b.refs();
    vp!(*r.n == n as u8 && r.a.len() == n && r.b.len() == n / 2 && &r.s[..] == "ab", "lengths and text do not change");
    vp!(*r.x == if w == 0 { v as u32 } else { p } && *r.y == if w == 2 { v } else { q }, "a fixed field changes only when written");
    if k < n { vp!(r.a[k] == if w == 1 && k == i { v as u16 } else { x[k] }, "the first array changes only where written"); }
    if n >= 2 { vp!(r.b[0] == if w == 3 { v as u64 } else { u }, "the second array changes only where written"); }
    let t = r.t.refs();
    if k < 2 { vp!(t.0[k] == if w == 4 && k == i { v } else { z[k] }, "the nested array changes only where written"); }
    vp!(t.1.0 == if w == 5 { v as u32 } else { f }, "the nested field changes only when written");
    reach!(n == 3 && w == 5, "full");
    core::mem::forget(b);
}
//@ C05 bank=64 cpy=6
fn c05_struct2() {
    let (n, m) = (nd::below(3), nd::below(3));
    let mut b: VBox<Ctl2> = nd::vbox(ctl_2::Init {
        n: n as u8, m: m as u16,
        a: FillSequentially(|i| i as u8), b: FillSequentially(|i| 10 + i as u32), c: FillSequentially(|i| 20 + i as u16) });
    let (w, v, i, k) = (nd::below(3), nd::u8(), nd::below(4), nd::below(4));
    {
        let mu = b.as_mut().muts();
        vp!(at(&mu.a[..]) + n <= at(&mu.b[..]) && at(&mu.b[..]) + 4 * (m + 1) <= at(&mu.c[..]), "mutable arrays do not overlap");
        vp!(*mu.n as usize == n && *mu.m as usize == m, "length fields read the same");
        if w == 0 && i < n { mu.a[i] = v; }
        if w == 1 && i < m + 1 { mu.b[i] = v as u32; }
        if w == 2 && i < n + m { mu.c[i] = v as u16; }
    }
    let r = b.refs();
    vp!(*r.n as usize == n && *r.m as usize == m, "length fields do not change");
    if k < n { vp!(r.a[k] == if w == 0 && k == i { v } else { k as u8 }, "first array"); }
    if k < m + 1 { vp!(r.b[k] == if w == 1 && k == i { v as u32 } else { 10 + k as u32 }, "second array"); }
    if k < n + m { vp!(r.c[k] == if w == 2 && k == i { v as u16 } else { 20 + k as u16 }, "third array"); }
    reach!(n == 2 && m == 2, "full");
    core::mem::forget(b);
}
//@ C05 bank=16 cpy=4
fn c05_str() {
    let mut b: VBox<Str<u8>> = nd::vbox(Str::try_copy("abc").unwrap());
    b.as_mut().mut_slice().make_ascii_uppercase();
    vp!(&b[..] == "ABC" && b.len() == 3, "in-place text mutation");
    reach!("done");
    core::mem::forget(b);
}
//@ C05 bank=84 cpy=16 t=30
fn c05_seq() {
    let mut s: Seq<Blob2> = Seq::new();
    let (z0, z1) = (any_size::<Blob2>(20), any_size::<Blob2>(20));
    s.push(Blob2::of(1, z0));
    s.push(Blob2::of(2, z1));
    let w = nd::below(3);
    let mut j = 0;
    for e in s.iter_mut() {
        if j == w { e.set_id(7); }
        j += 1;
    }
    let mut it = s.iter();
    vp!(it.next().unwrap().is(if w == 0 { 7 } else { 1 }, z0), "the first element changes only when written");
    vp!(it.next().unwrap().is(if w == 1 { 7 } else { 2 }, z1), "the second element changes only when written");
    reach!(w == 1, "second");
    core::mem::forget(s);
}
}
