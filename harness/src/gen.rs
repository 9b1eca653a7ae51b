//! C12 clones, C16 length-controlling fields, C17 generated structs, C18 newtypes.
use crate::nd;
use crate::vt::*;
use core::mem::size_of;
use varlen::array::{ArrayLen, SizedInit};
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, IndexableSeq, Indexing, Seq, UncheckedIndexing};
use varlen::tuple::*;
use varlen::{define_varlen_newtype, Initializer, Layout};

type X = CheckedIndexing;

fn at<T: ?Sized>(r: &T) -> usize {
    r as *const T as *const u8 as usize
}
fn ptr<T: ?Sized>(r: &T) -> *const u8 {
    r as *const T as *const u8
}

// ---- C12
fn dup<T: 'static + for<'a> VCopy<'a>>(b: &VBox<T>, copy: bool) -> VBox<T> {
    if copy {
        nd::vbox(b.vcopy())
    } else {
        nd::vbox(b.vclone())
    }
}
fn twin_array<T: Copy + PartialEq + 'static, L: ArrayLen + 'static, const N: usize>(copy: bool, src: [T; N], v: T) {
    let n = nd::below(N + 1);
    let mut b: VBox<Array<T, L>> = nd::vbox(Array::try_copy(&src[..n]).unwrap());
    let mut c = dup(&b, copy);
    vp!(c.len() == n && c.len_short().as_usize() == n, "a clone has the length of its source");
    vp!(c.calculate_layout().size() == b.calculate_layout().size(), "and its size");
    vp!(at(&*c) != at(&*b), "and storage of its own");
    let (k, j) = (nd::below(N), nd::below(N));
    if k < n && j < n {
        vp!(c[k] == src[k], "and its contents");
        if nd::bool() {
            b.as_mut().mut_slice()[k] = v;
            vp!(b[k] == v, "written");
            vp!(c[j] == src[j], "the clone does not see changes of its source");
        } else {
            c.as_mut().mut_slice()[k] = v;
            vp!(c[k] == v, "written");
            vp!(b[j] == src[j], "the source does not see changes of its clone");
        }
        if nd::bool() {
            let last = b[j] == src[j] || j == k;
            drop(c);
            vp!(last && (j == k || b[j] == src[j]), "the source survives its clone");
            drop(b);
        } else {
            drop(b);
            vp!(j == k || c[j] == src[j], "the clone survives its source");
            drop(c);
        }
        vp!(nd::live() == 0, "both are released");
        reach!(n == N && k == N - 1, "last");
    } else {
        vp!(n == 0 || n < N || k >= n || j >= n, "-");
        reach!(n == 0, "empty");
        core::mem::forget((b, c));
    }
}
/// A value that owns memory.
#[derive(Clone, PartialEq)]
pub struct Heap(Box<u8>);
impl Heap {
    fn new(x: u8) -> Heap {
        Heap(Box::new(x))
    }
}

fn heap_array(source_first: bool) {
    let (n, x) = (2, nd::bytes::<2>());
    let b: VBox<Array<Heap, u8>> = VBox::new(SizedInit(n as u8, FillSequentially(|i| Heap::new(x[i]))));
    let mut c: VBox<Array<Heap, u8>> = VBox::new(b.vclone());
    vp!(c.len() == n, "lengths are equal");
    vp!(*c[0].0 == x[0] && *c[1].0 == x[1], "what the elements own is equal");
    vp!(at(&*c[0].0) != at(&*b[0].0) && at(&*c[1].0) != at(&*b[1].0), "and not shared");
    *c.as_mut().mut_slice()[1].0 = 77;
    vp!(*b[1].0 == x[1] && *c[0].0 == x[0], "independent");
    if source_first {
        drop(b);
        vp!(*c[0].0 == x[0] && *c[1].0 == 77, "the clone survives its source");
        drop(c);
    } else {
        drop(c);
        vp!(*b[0].0 == x[0] && *b[1].0 == x[1], "the source survives its clone");
        drop(b);
    }
    vp!(nd::live() == 0, "everything is released");
    reach!(x[0] != x[1], "different");
}

// ---- C16
#[define_varlen]
pub struct Ctl3 {
    pub x: u32,
    #[controls_layout]
    pub n: u8,
    #[controls_layout]
    pub m: u16,
    #[varlen_array]
    pub a: [u8; *n as usize / 2],
    #[varlen_array]
    pub b: [u16; (*m % 4) as usize],
    #[varlen_array]
    pub c: [u8; (*n as usize / 2) ^ (*m % 4) as usize],
    #[varlen]
    pub d: FixedLen<u16>,
}
#[define_varlen]
pub struct One {
    #[controls_layout]
    pub h: u64,
    #[varlen_array]
    pub a: [u8; (*h % 4) as usize],
}
/// Only the sum of the controlling fields matters.
#[define_varlen]
pub struct Sum {
    #[controls_layout]
    pub n: u8,
    pub y: u8,
    #[controls_layout]
    pub m: u8,
    #[varlen_array]
    pub a: [u8; *n as usize + *m as usize],
}
/// Arrays of zero-size elements have any length whatsoever.
#[define_varlen]
pub struct Any3 {
    #[controls_layout]
    pub n: usize,
    #[controls_layout]
    pub m: u64,
    #[controls_layout]
    pub k: u32,
    #[varlen_array]
    pub a: [(); *n],
    #[varlen_array]
    pub b: [(); *m as usize],
    #[varlen_array]
    pub c: [(); *k as usize / 3],
}
/// Controlling fields that own something, and an array-typed one.
#[define_varlen]
pub struct TokCtl {
    #[controls_layout]
    pub t: Tok,
    #[varlen_array]
    pub a: [u8; (t.0 % 4) as usize],
    #[controls_layout]
    pub r: [u8; 2],
    #[varlen_array]
    pub b: [u16; (r[0] & 1) as usize],
}
/// A controlling field no array depends on.
#[define_varlen]
pub struct Loose {
    #[controls_layout]
    pub n: u32,
    pub x: u8,
    #[varlen]
    pub a: Array<u8, u8>,
}

// ---- C17
/// Fields of every kind in every order; the controlling field comes after its array.
#[define_varlen]
#[repr(C)]
pub struct Kinds {
    #[varlen]
    pub v: Array<u8, u8>,
    pub p: u8,
    #[varlen_array]
    pub a: [u32; 3 - *n as usize],
    #[controls_layout]
    pub n: u8,
    #[varlen]
    pub w: Blob2,
    pub q: u64,
    #[varlen_array]
    pub z: [u8; *n as usize * 2 + 1],
}
#[define_varlen]
pub struct Plain {
    pub p: u8,
    pub q: u32,
}
#[define_varlen]
pub struct Tail {
    #[varlen]
    pub k: Array<u16, u8>,
    #[varlen]
    pub s: Str<u16>,
}
#[define_varlen]
pub struct Nest {
    pub p: u16,
    #[varlen]
    pub k: Tail,
    #[varlen]
    pub l: Plain,
}
#[define_varlen]
pub struct Def<T = u16> {
    pub p: u8,
    #[varlen]
    pub a: Array<T, u8>,
}
const K: usize = 2;
#[define_varlen]
pub(crate) struct Consts {
    #[varlen_array]
    pub(crate) a: [u16; K + 1],
    #[varlen_array]
    pub(crate) b: [u8; size_of::<u32>()],
    #[controls_layout]
    pub(crate) on: bool,
    #[varlen_array]
    c: [u32; if *on { 2 } else { 0 }],
}
/// Every field owns something.
#[define_varlen]
pub struct Toks {
    pub x: Tok,
    #[controls_layout]
    pub n: Tok,
    #[varlen_array]
    pub a: [Tok; (n.0 - 8) as usize],
    #[varlen]
    pub f: FixedLen<Tok>,
    #[varlen_array]
    pub b: [Tok; 1],
    #[varlen]
    pub v: Array<Tok, u8>,
    pub y: Tok,
}
fn toks(n: usize, m: usize) -> impl Initializer<Toks> {
    toks::Init {
        x: Tok(6),
        n: Tok(8 + n as u8),
        a: FillSequentially(|i| Tok(i as u8)),
        f: FixedLen(Tok(7)),
        b: FillSequentially(|_| Tok(12)),
        v: SizedInit(m as u8, FillSequentially(|i| Tok(3 + i as u8))),
        y: Tok(13),
    }
}
/// Everything in a `toks(n, m)` was destroyed `times` times, nothing else was.
fn toks_gone(n: usize, m: usize, times: u8) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < 14 {
        let here = match i {
            0..=2 => i < n,
            3..=5 => i - 3 < m,
            6 | 7 | 12 | 13 => true,
            _ => i == 8 + n,
        };
        ok &= drops(i as u8) == if here { times } else { 0 };
        i += 1;
    }
    ok
}

// ---- C18
define_varlen_newtype! {
    #[repr(transparent)]
    /// A counted text.
    pub struct Counted(Tup2<FixedLen<u32>, Str<u8>>);
    with init: pub struct CountedInit<_>(_);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NewBlob(pub Blob4);
    with init: pub struct NewBlobInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NewToks(Array<Tok, u8>);
    with init: struct NewToksInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Two<(T: Copy), (U: Clone = u16)>(pub Tup2<Array<T, u8>, Array<U, u16>>);
    with signature: impl<(T: Copy), (U: Clone)> Two<(T), (U)> { _ }
    with init: pub struct TwoInit<_>(_);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrap<(T: VarLen)>(pub T);
    with signature: impl<(T: VarLen)> Wrap<(T)> { _ }
    with init: pub struct WrapInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
fn same_type<N: VarLen<Layout = I::Layout>, I: VarLen>() {
    vp!(N::ALIGN == I::ALIGN, "same alignment");
    vp!(N::NEEDS_VDROP == I::NEEDS_VDROP, "same need for destruction");
    vp!(size_of::<N>() == size_of::<I>(), "same header size");
}
type WB<T> = Wrap<T>;
fn wrapped_blob<T: Blob>(max: usize) {
    same_type::<WB<T>, T>();
    same_type::<WB<WB<T>>, T>();
    let size = any_size::<T>(max);
    let i = WrapInit(WrapInit(T::of(1, size)));
    vp!(Initializer::<WB<WB<T>>>::calculate_layout_cautious(&i).unwrap().size() == size, "size reserved is the inner one's");
    let mut b: VBox<WB<WB<T>>> = nd::vbox(i);
    let a = at(&*b);
    vp!(a % T::ALIGN == 0, "aligned");
    vp!(nd::last_size() == size && nd::last_align() == T::ALIGN, "allocated like the inner value");
    vp!(b.calculate_layout().size() == size, "size is the inner value's");
    vp!(b.inner().inner().is(1, size), "contents are the inner value's");
    vp!(at(b.inner().inner()) == a, "shared view is the value itself");
    let m = b.as_mut().inner_mut().inner_mut();
    vp!(at(&*m) == a, "mutable view is the value itself");
    m.set_id(2);
    vp!(b.inner().inner().is(2, size), "writes through the mutable view are seen through the shared one");
    drop(b);
    vp!(drops(2) == 1 && drops(1) == 0, "the inner value is destroyed once");
    vp!(nd::live() == 0, "released");
    reach!(size == max, "largest");
}
fn wrapped_seq<T: Blob, I: Indexing>(c: usize, max: usize) {
    let (s1, s2) = (any_size::<T>(max), any_size::<T>(max));
    let mut s: Seq<WB<T>, I> = Seq::new();
    s.push(WrapInit(T::of(3, c)));
    s.push(WrapInit(T::of(1, s1)));
    s.push(WrapInit(T::of(2, s2)));
    vp!(s.len() == 3, "counted");
    let o = round_up(c, T::ALIGN) + round_up(s1, T::ALIGN) + round_up(s2, T::ALIGN);
    vp!(s.offset() == o / T::ALIGN, "the elements take the room the inner values take");
    {
        let mut it = s.iter();
        vp!(it.next().unwrap().inner().is(3, c), "first");
        vp!(it.next().unwrap().inner().is(1, s1), "second");
        vp!(it.next().unwrap().inner().is(2, s2), "third");
    }
    drop(s);
    vp!(drops(1) == 1 && drops(2) == 1 && drops(3) == 1, "each is destroyed once");
    vp!(nd::live() == 0, "released");
    reach!(s1 == max && s2 == T::HDR, "mixed");
}

/// A controlling field whose value means nothing once it is destroyed.
pub struct Fade(u8);
impl Drop for Fade {
    fn drop(&mut self) {
        note_drop(15);
        self.0 = 0x7f;
    }
}
#[define_varlen]
pub struct Fading {
    #[controls_layout]
    pub n: Fade,
    #[varlen_array]
    pub a: [Tok; n.0 as usize],
    #[varlen]
    pub v: Array<Tok, u8>,
    #[varlen_array]
    pub b: [Tok; n.0 as usize / 2],
}
fn fading(n: usize, m: usize) -> fading::Init<impl varlen::array_init::ArrayInitializer<Tok>, impl Initializer<Array<Tok, u8>>, impl varlen::array_init::ArrayInitializer<Tok>> {
    fading::Init {
        n: Fade(n as u8),
        a: FillSequentially(|i| Tok(i as u8)),
        v: SizedInit(m as u8, FillSequentially(|i| Tok(4 + i as u8))),
        b: FillSequentially(|i| Tok(8 + i as u8)),
    }
}
/// Identities that exist have been destroyed `times`, others never.
fn fading_gone(n: usize, m: usize, times: u8) -> bool {
    let k = nd::below(16);
    let there = k == 15 || k < n || (k >= 4 && k < 4 + m) || (k >= 8 && k < 8 + n / 2);
    drops(k as u8) == if there { times } else { 0 }
}

/// Cloning is observable, although neither value needs dropping.
#[derive(PartialEq)]
struct Gen(u16);
impl Clone for Gen {
    fn clone(&self) -> Gen {
        Gen(self.0.wrapping_add(1))
    }
}

harnesses! {
//@ C17,C11 bank=32 unwind=17
fn c17_fading_box() {
    let (n, m) = (nd::below(4), nd::below(3));
    let b: VBox<Fading> = nd::vbox(fading(n, m));
    vp!(b.refs().a.len() == n && b.refs().v.len() == m && b.refs().b.len() == n / 2, "lengths");
    vp!(fading_gone(n, m, 0), "nothing is destroyed by construction");
    drop(b);
    vp!(fading_gone(n, m, 1), "each field and element is destroyed once");
    reach!(n == 3 && m == 2, "full");
    reach!(n == 0, "none");
}
//@ C17,C11 bank=32 cpy=8 unwind=17
fn c17_fading_seq() {
    let mut s: Seq<Fading> = Seq::new();
    s.push(fading(2, 1));
    drop(s);
    vp!(fading_gone(2, 1, 1), "each field and element is destroyed once");
    reach!("done");
}
//@ C17,C11 bank=32 cpy=8 unwind=17
fn c17_fading_taken() {
    let mut s: Seq<Fading> = Seq::new();
    s.push(fading(2, 1));
    let mut t = s.take_elems();
    drop(t.next().unwrap());
    vp!(fading_gone(2, 1, 1), "a taken element is destroyed once");
    drop(t);
    drop(s);
    vp!(fading_gone(2, 1, 1), "each field and element is destroyed once");
    reach!("done");
}
//@ C12,C15 bank=16 cpy=8 unwind=6
fn c12_calls() {
    let (n, x) = (nd::below(4), nd::u16s::<3>());
    let b: VBox<Tup2<Array<Gen, u8>, FixedLen<Gen>>> = VBox::new(tup2::Init(
        SizedInit(n as u8, FillSequentially(|i| Gen(x[i]))),
        FixedLen(Gen(x[0])),
    ));
    let c: VBox<Tup2<Array<Gen, u8>, FixedLen<Gen>>> = VBox::new(b.vclone());
    let k = nd::below(3);
    vp!(c.refs().0.len() == n && c.refs().1.0.0 == x[0].wrapping_add(1), "a clone is made by cloning");
    if k < n {
        vp!(c.refs().0[k].0 == x[k].wrapping_add(1), "and so is each element");
        vp!(b.refs().0[k].0 == x[k], "the source is as before");
    }
    reach!(n == 3 && k == 2, "last");
    core::mem::forget((b, c));
}
//@ C12 bank=8 cpy=8
fn c12_array_u8_clone() { twin_array::<u8, u8, 5>(false, nd::bytes(), nd::u8()) }
//@ C12 bank=8 cpy=8
fn c12_array_u8_copy() { twin_array::<u8, u8, 5>(true, nd::bytes(), nd::u8()) }
//@ C12 bank=10 cpy=10
fn c12_array_u16_clone() { twin_array::<u16, u16, 4>(false, nd::u16s(), nd::u16()) }
//@ C12 bank=10 cpy=10
fn c12_array_u16_copy() { twin_array::<u16, u8, 4>(true, nd::u16s(), nd::u16()) }
//@ C12 bank=24 cpy=24
fn c12_array_u64_clone() { twin_array::<u64, u8, 2>(false, nd::u64s(), nd::u64()) }
//@ C12 bank=16 cpy=16
fn c12_array_u64_copy() { twin_array::<u64, u64, 1>(true, nd::u64s(), nd::u64()) }
//@ C12 bank=32 cpy=32 tier=thorough
fn c12_array_u128_copy() { twin_array::<u128, u8, 1>(true, [nd::u64() as u128], nd::u64() as u128) }
//@ C12 bank=8 cpy=8 unwind=8
fn c12_str() {
    let src: [u8; 6] = *b"vArLen";
    let n = nd::below(7);
    let copy = nd::bool();
    let mut b: VBox<Str<u8>> = nd::vbox(Str::<u8>::try_copy(unsafe { core::str::from_utf8_unchecked(&src[..n]) }).unwrap());
    let mut c = if copy { nd::vbox(b.vcopy()) } else { nd::vbox(b.vclone()) };
    let k = nd::below(6);
    vp!(c.len() == n && b.len() == n, "a clone has the length of its source");
    if k < n {
        vp!(c.as_bytes()[k] == src[k], "and its contents");
        if nd::bool() {
            unsafe { b.as_mut().mut_slice().as_bytes_mut()[k] = b'!' };
            vp!(c.as_bytes()[k] == src[k], "the clone does not see changes of its source");
            drop(b);
            vp!(c.as_bytes()[k] == src[k], "the clone survives its source");
            core::mem::forget(c);
        } else {
            unsafe { c.as_mut().mut_slice().as_bytes_mut()[k] = b'!' };
            vp!(b.as_bytes()[k] == src[k], "the source does not see changes of its clone");
            drop(c);
            vp!(b.as_bytes()[k] == src[k], "the source survives its clone");
            core::mem::forget(b);
        }
        reach!(n == 6 && copy, "copy");
        reach!(n == 6 && !copy, "clone");
    } else { core::mem::forget((b, c)); }
}
//@ C12 bank=8
fn c12_fixed() {
    let (x, y) = (nd::u32(), nd::u32());
    let mut b: VBox<FixedLen<u32>> = nd::vbox(FixedLen(x));
    let mut c = dup(&b, nd::bool());
    vp!(c.0 == x, "equal");
    if nd::bool() {
        b.as_mut().0 = y;
        vp!(c.0 == x && b.0 == y, "independent");
    } else {
        c.as_mut().0 = y;
        vp!(b.0 == x && c.0 == y, "independent");
    }
    reach!(x != y, "changed");
}
//@ C12 bank=16 cpy=12
fn c12_tup2() {
    let (n, x, src) = (nd::below(4), nd::u32(), nd::bytes::<3>());
    let mut b: VBox<Tup2<Array<u8, u8>, FixedLen<u32>>> = nd::vbox(tup2::Init(Array::try_copy(&src[..n]).unwrap(), FixedLen(x)));
    let mut c = dup(&b, nd::bool());
    vp!(c.refs().0.len() == n && c.refs().1.0 == x, "lengths and fields are equal");
    vp!(b.calculate_layout().size() == c.calculate_layout().size(), "sizes are equal");
    let k = nd::below(3);
    if k < n {
        vp!(c.refs().0[k] == src[k], "elements are equal");
        if nd::bool() { b.as_mut().muts().0.mut_slice()[k] = 9; b.as_mut().muts().1.0 = 9; vp!(c.refs().0[k] == src[k] && c.refs().1.0 == x, "independent"); }
        else { c.as_mut().muts().0.mut_slice()[k] = 9; c.as_mut().muts().1.0 = 9; vp!(b.refs().0[k] == src[k] && b.refs().1.0 == x, "independent"); }
        reach!(n == 3 && k == 2, "last");
    }
    core::mem::forget((b, c));
}
//@ C12 bank=16 cpy=12
fn c12_tup3() {
    let (n, x, y) = (nd::below(4), nd::u8(), nd::u16());
    let b: VBox<Tup3<FixedLen<u8>, Str<u8>, FixedLen<u16>>> = nd::vbox(tup3::Init(FixedLen(x), Str::<u8>::try_copy(&"abc"[..n]).unwrap(), FixedLen(y)));
    let c = dup(&b, nd::bool());
    let r = c.refs();
    vp!(r.0.0 == x && r.2.0 == y && r.1.len() == n, "fields are equal");
    let k = nd::below(3);
    if k < n { vp!(r.1.as_bytes()[k] == b'a' + k as u8, "text is equal"); }
    drop(b);
    let r = c.refs();
    vp!(r.0.0 == x && r.2.0 == y && r.1.len() == n, "the clone survives its source");
    reach!(n == 3, "longest");
    core::mem::forget(c);
}
//@ C12 bank=8 cpy=4
fn c12_tup4() {
    let (w, x, y, z) = (nd::u8(), nd::u8(), nd::u8(), nd::u8());
    let mut b: VBox<Tup4<FixedLen<u8>, FixedLen<u8>, FixedLen<u8>, FixedLen<u8>>> = nd::vbox(tup4::Init(FixedLen(w), FixedLen(x), FixedLen(y), FixedLen(z)));
    let c = dup(&b, nd::bool());
    b.as_mut().muts().2.0 = 1;
    let r = c.refs();
    vp!(r.0.0 == w && r.1.0 == x && r.2.0 == y && r.3.0 == z, "fields are equal, each in its place");
    reach!(x == 1 && y == 2, "different");
    core::mem::forget((b, c));
}
//@ C12 bank=8 cpy=5
fn c12_tup5() {
    let (v, w, x, y, z) = (nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8());
    let b: VBox<Tup5<FixedLen<u8>, FixedLen<u8>, FixedLen<u8>, FixedLen<u8>, FixedLen<u8>>> =
        nd::vbox(tup5::Init(FixedLen(v), FixedLen(w), FixedLen(x), FixedLen(y), FixedLen(z)));
    let mut c = dup(&b, nd::bool());
    c.as_mut().muts().3.0 = 1;
    {
        let r = c.refs();
        vp!(r.0.0 == v && r.1.0 == w && r.2.0 == x && r.3.0 == 1 && r.4.0 == z, "fields are equal, each in its place");
    }
    let r = b.refs();
    vp!(r.0.0 == v && r.1.0 == w && r.2.0 == x && r.3.0 == y && r.4.0 == z, "source unchanged");
    reach!(x == 1 && y == 2, "different");
    core::mem::forget((b, c));
}
//@ C12 bank=16 cpy=12
fn c12_nested() {
    let (n, m, x) = (nd::below(3), nd::below(3), nd::u16());
    let src = nd::bytes::<2>();
    let b: VBox<Tup2<Tup2<Array<u8, u8>, FixedLen<u16>>, Array<u8, u8>>> =
        nd::vbox(tup2::Init(tup2::Init(Array::try_copy(&src[..n]).unwrap(), FixedLen(x)), Array::try_copy(&src[..m]).unwrap()));
    let c = dup(&b, nd::bool());
    let r = c.refs();
    let q = r.0.refs();
    vp!(q.0.len() == n && r.1.len() == m && q.1.0 == x, "lengths and fields are equal");
    let k = nd::below(2);
    if k < n { vp!(q.0[k] == src[k], "inner elements are equal"); }
    if k < m { vp!(r.1[k] == src[k], "outer elements are equal"); }
    reach!(n == 2 && m == 1, "mixed");
    core::mem::forget((b, c));
}
//@ C12 bank=24 cpy=8
fn c12_heap_array() { heap_array(true) }
//@ C12 bank=24 cpy=8
fn c12_heap_array_rev() { heap_array(false) }
//@ C12 bank=32 cpy=8
fn c12_heap_tuple() {
    let (x, y) = (nd::u8(), nd::u8());
    let b: VBox<Tup2<FixedLen<Heap>, FixedLen<Heap>>> = VBox::new(tup2::Init(FixedLen(Heap::new(x)), FixedLen(Heap::new(y))));
    let mut c: VBox<Tup2<FixedLen<Heap>, FixedLen<Heap>>> = VBox::new(b.vclone());
    *c.as_mut().muts().0.0.0 = 77;
    drop(b);
    vp!(*c.refs().0.0.0 == 77 && *c.refs().1.0.0 == y, "the clone survives its source");
    drop(c);
    vp!(nd::live() == 0, "everything is released");
    reach!(x != y, "different");
}
//@ C12 bank=16 cpy=8
fn c12_vbox_clone() {
    let (n, src) = (nd::below(4), nd::bytes::<3>());
    let b: VBox<Array<u8, u8>> = nd::vbox(Array::try_copy(&src[..n]).unwrap());
    let mut c = b.clone();
    vp!(c.len() == n, "lengths are equal");
    let k = nd::below(3);
    if k < n {
        vp!(c[k] == src[k], "elements are equal");
        c.as_mut().mut_slice()[k] = 1;
        vp!(b[k] == src[k], "independent");
    }
    drop(b);
    if k < n { vp!(c[k] == 1, "the clone survives its source"); }
    reach!(n == 3, "longest");
    core::mem::forget(c);
}
/// Clones are made by the elements' own clone.
//@ C12 cpy=8
fn c12_elements() {
    let n = nd::below(3);
    let b: VBox<Array<Tok, u8>> = nd::vbox(SizedInit(n as u8, FillSequentially(|i| Tok(4 * i as u8))));
    let c: VBox<Tup2<Array<Tok, u8>, FixedLen<Tok>>> = nd::vbox(tup2::Init(b.vclone(), FixedLen(Tok(9))));
    let d: VBox<Tup2<Array<Tok, u8>, FixedLen<Tok>>> = nd::vbox(c.vclone());
    let k = nd::below(2);
    if k < n {
        vp!(b[k].0 as usize == 4 * k, "source");
        vp!(c.refs().0[k].0 as usize == 4 * k + 1, "clone, as part of another value");
        vp!(d.refs().0[k].0 as usize == 4 * k + 2, "clone of the clone");
    }
    vp!(d.refs().1.0.0 == 10, "of a field");
    drop(c);
    let mut i = 0;
    while i < 2 {
        let want = if i < n { 1 } else { 0 };
        vp!(drops(4 * i as u8 + 1) == want && drops(4 * i as u8) == 0 && drops(4 * i as u8 + 2) == 0, "only the destroyed value's elements are destroyed");
        i += 1;
    }
    reach!(n == 2, "two");
    core::mem::forget((b, d));
}
//@ C12 bank=16 cpy=8
fn c12_seq() {
    let (n, src) = (nd::below(4), nd::bytes::<3>());
    let b: VBox<Array<u8, u8>> = nd::vbox(Array::try_copy(&src[..n]).unwrap());
    let mut s: Seq<Array<u8, u8>> = Seq::new();
    s.push(b.vclone());
    s.push(b.vcopy());
    drop(b);
    let k = nd::below(3);
    {
        let mut it = s.iter_mut();
        let (mut e, f) = (it.next().unwrap(), it.next().unwrap());
        vp!(e.len() == n && f.len() == n, "lengths are equal");
        if k < n {
            vp!(e[k] == src[k] && f[k] == src[k], "elements are equal");
            e.as_mut().mut_slice()[k] = 3;
            vp!(f[k] == src[k], "independent");
        }
    }
    reach!(n == 3, "longest");
    core::mem::forget(s);
}
//@ C12 bank=16 cpy=8
fn c12_field() {
    let (n, src, p) = (nd::below(4), nd::bytes::<3>(), nd::u8());
    let b: VBox<Def<u8>> = nd::vbox(def::Init { p, a: Array::try_copy(&src[..n]).unwrap() });
    let copy = nd::bool();
    let mut c: VBox<Def<u8>> = if copy { nd::vbox(def::Init { p: 4, a: b.refs().a.vcopy() }) } else { nd::vbox(def::Init { p: 4, a: b.refs().a.vclone() }) };
    vp!(c.refs().a.len() == n && *c.refs().p == 4, "lengths are equal");
    let k = nd::below(3);
    if k < n {
        vp!(c.refs().a[k] == src[k], "elements are equal");
        c.as_mut().muts().a.mut_slice()[k] = 8;
        vp!(b.refs().a[k] == src[k], "independent");
    }
    vp!(*b.refs().p == p, "source unchanged");
    reach!(n == 3, "longest");
    core::mem::forget((b, c));
}
//@ C12 bank=50 cpy=50
fn c12_long_copy() {
    let k = nd::below(48);
    let mut src = [0u8; 48];
    src[k] = 7;
    let b: VBox<Array<u8, u8>> = nd::vbox(SizedInit(48, CopyFrom(&src)));
    let c: VBox<Array<u8, u8>> = nd::vbox(b.vcopy());
    vp!(c.len() == 48, "lengths are equal");
    vp!(c[k] == 7, "elements are equal");
    reach!(k == 47, "last");
    core::mem::forget((b, c));
}

//@ C16 bank=56 cpy=8
fn c16_three() {
    let (n, m) = (nd::below(8) as u8, nd::u16());
    let mut b: VBox<Ctl3> = nd::vbox(ctl_3::Init { x: 5, n, m, a: Skip, b: Skip, c: Skip, d: FixedLen(9) });
    let size = b.calculate_layout().size();
    let p = ptr(&*b);
    let k = nd::below(56);
    nd::assume(k >= size_of::<Ctl3>() && k < size);
    let was = unsafe { *p.add(k) };
    let (n2, m2) = (nd::u8(), nd::u16());
    let same = n / 2 == n2 / 2 && m % 4 == m2 % 4;
    let r = b.as_mut().try_set_layout_controllers(ctl_3::LayoutControllers { n: n2, m: m2 });
    vp!(r.is_ok() == same, "replacing succeeds exactly when every array keeps its length");
    if same { vp!(b.n == n2 && b.m == m2, "the new values are stored"); }
    else { vp!(b.n == n && b.m == m, "the old values stay"); }
    vp!(b.x == 5, "other fields stay");
    vp!(b.calculate_layout().size() == size, "the size stays");
    vp!(unsafe { *p.add(k) } == was, "all of the tail stays");
    let r = b.refs();
    vp!(r.a.len() == n as usize / 2 && r.b.len() == (m % 4) as usize && r.c.len() == (n as usize / 2) ^ (m % 4) as usize, "lengths stay");
    vp!(r.d.0 == 9, "later fields stay");
    reach!(same && n != n2 && m != m2, "replaced");
    reach!(!same && n / 2 == n2 / 2, "only the second refuses");
    reach!(!same && m % 4 == m2 % 4, "only the first refuses");
    reach!(!same && ((n / 2) as u16 ^ (m % 4)) == ((n2 / 2) as u16 ^ (m2 % 4)), "only the third would agree");
    core::mem::forget(b);
}
//@ C16 bank=16 cpy=8
fn c16_one() {
    let (h, h2) = (nd::u64(), nd::u64());
    let src = nd::bytes::<3>();
    let n = (h % 4) as usize;
    let mut b: VBox<One> = nd::vbox(one::Init { h, a: CopyFrom(&src[..n]) });
    let r = b.as_mut().try_set_layout_controllers(one::LayoutControllers { h: h2 });
    vp!(r.is_ok() == (h % 4 == h2 % 4), "replacing succeeds exactly when the array keeps its length");
    vp!(b.h == if h % 4 == h2 % 4 { h2 } else { h }, "stored, or left alone");
    vp!(b.refs().a.len() == n, "length stays");
    let k = nd::below(3);
    if k < n { vp!(b.refs().a[k] == src[k], "elements stay"); }
    reach!(h % 4 == h2 % 4 && h2 > 1 << 40, "replaced");
    core::mem::forget(b);
}
//@ C16 bank=16 cpy=8
fn c16_sum() {
    let (n, m) = (nd::below(4) as u8, nd::below(4) as u8);
    let (n2, m2) = (nd::u8(), nd::u8());
    let mut b: VBox<Sum> = nd::vbox(sum::Init { n, y: 3, m, a: FillSequentially(|i| i as u8) });
    let same = n as usize + m as usize == n2 as usize + m2 as usize;
    let r = b.as_mut().try_set_layout_controllers(sum::LayoutControllers { n: n2, m: m2 });
    vp!(r.is_ok() == same, "replacing succeeds exactly when the array keeps its length");
    vp!(b.n == if same { n2 } else { n } && b.m == if same { m2 } else { m } && b.y == 3, "both stored, or both left alone");
    vp!(b.refs().a.len() == n as usize + m as usize, "length stays");
    let k = nd::below(6);
    if k < n as usize + m as usize { vp!(b.refs().a[k] as usize == k, "elements stay"); }
    reach!(same && n2 == m && n != m, "swapped");
    reach!(!same && n2 == n, "only one changed");
    // A second replacement starts from what is stored now.
    let (n3, m3) = (nd::u8(), nd::u8());
    let same2 = n as usize + m as usize == n3 as usize + m3 as usize;
    let (n1, m1) = (b.n, b.m);
    let r = b.as_mut().try_set_layout_controllers(sum::LayoutControllers { n: n3, m: m3 });
    vp!(r.is_ok() == same2, "also the second time");
    vp!(b.n == if same2 { n3 } else { n1 } && b.m == if same2 { m3 } else { m1 }, "also the second time");
    core::mem::forget(b);
}
//@ C16 bank=32 cpy=8
fn c16_any() {
    let (n, m, k) = (nd::usize(), nd::u64(), nd::u32());
    let (n2, m2, k2) = (nd::usize(), nd::u64(), nd::u32());
    let mut b: VBox<Any3> = nd::vbox(any_3::Init { n, m, k, a: Skip, b: Skip, c: Skip });
    let same = n == n2 && m == m2 && k / 3 == k2 / 3;
    let r = b.as_mut().try_set_layout_controllers(any_3::LayoutControllers { n: n2, m: m2, k: k2 });
    vp!(r.is_ok() == same, "replacing succeeds exactly when every array keeps its length");
    vp!(b.n == n && b.m == m && b.k == if same { k2 } else { k }, "stored, or left alone");
    vp!(b.refs().a.len() == n && b.refs().b.len() == m as usize && b.refs().c.len() == k as usize / 3, "lengths stay");
    reach!(same && k != k2, "replaced");
    reach!(!same && n == n2 && m == m2, "only the last refuses");
    reach!(!same && m == m2 && k == k2, "only the first refuses");
    reach!(!same && n != n2 && n as u32 == n2 as u32 && m == m2, "differs in the upper half");
    core::mem::forget(b);
}
//@ C16,C11 bank=24 cpy=8 unwind=16
fn c16_owning() {
    let (i, j) = (nd::below(8) as u8, 8 + nd::below(8) as u8);
    let (r0, r1) = (nd::u8(), nd::u8());
    let mut b: VBox<TokCtl> = nd::vbox(tok_ctl::Init { t: Tok(i), a: FillSequentially(|i| i as u8), r: [r0, 1], b: FillSequentially(|_| 500) });
    let same = i % 4 == j % 4 && r0 & 1 == r1 & 1;
    let r = b.as_mut().try_set_layout_controllers(tok_ctl::LayoutControllers { t: Tok(j), r: [r1, 2] });
    vp!(r.is_ok() == same, "replacing succeeds exactly when every array keeps its length");
    vp!(b.t.0 == if same { j } else { i }, "stored, or left alone");
    vp!(b.r[0] == if same { r1 } else { r0 } && b.r[1] == if same { 2 } else { 1 }, "stored, or left alone");
    vp!(drops(i) == same as u8 && drops(j) == !same as u8, "the replaced or refused value is destroyed, once");
    let k = nd::below(3);
    if k < (i % 4) as usize { vp!(b.refs().a[k] as usize == k, "elements stay"); }
    if r0 & 1 == 1 { vp!(b.refs().b[0] == 500, "elements stay"); }
    drop(b);
    vp!(drops(i) == 1 && drops(j) == 1, "and in the end each is destroyed once");
    reach!(same, "replaced");
    reach!(!same && i % 4 == j % 4, "refused");
}
//@ C16 bank=16 cpy=8
fn c16_loose() {
    let (n, n2, x, src) = (nd::u32(), nd::u32(), nd::u8(), nd::bytes::<2>());
    let mut b: VBox<Loose> = nd::vbox(loose::Init { n, x, a: Array::try_copy(&src).unwrap() });
    let r = b.as_mut().try_set_layout_controllers(loose::LayoutControllers { n: n2 });
    vp!(r.is_ok() && b.n == n2, "nothing depends on it");
    vp!(b.x == x && b.refs().a.len() == 2 && b.refs().a[1] == src[1], "the rest stays");
    reach!(n != n2, "replaced");
    core::mem::forget(b);
}
//@ C16 bank=40 cpy=8
fn c16_in_seq() {
    let mut s: Seq<Sum> = Seq::new();
    let (n, m) = (nd::below(4) as u8, nd::below(3) as u8);
    s.push(sum::Init { n: 1, y: 1, m: 0, a: MoveFrom([11]) });
    s.push(sum::Init { n, y: 2, m, a: Skip });
    s.push(sum::Init { n: 0, y: 3, m: 1, a: MoveFrom([33]) });
    let (n2, m2) = (nd::u8(), nd::u8());
    let same = n as usize + m as usize == n2 as usize + m2 as usize;
    {
        let mut it = s.iter_mut();
        it.next();
        let e = it.next().unwrap();
        vp!(e.try_set_layout_controllers(sum::LayoutControllers { n: n2, m: m2 }).is_ok() == same, "replacing succeeds exactly when the array keeps its length");
    }
    let mut it = s.iter();
    let (a, b, c) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    vp!(a.n == 1 && a.m == 0 && a.y == 1 && a.refs().a[0] == 11, "neighbour before");
    vp!(c.n == 0 && c.m == 1 && c.y == 3 && c.refs().a[0] == 33, "neighbour after");
    vp!(b.n == if same { n2 } else { n } && b.m == if same { m2 } else { m } && b.y == 2, "stored, or left alone");
    reach!(same && n != n2, "replaced");
    reach!(!same, "refused");
    core::mem::forget(s);
}

//@ C17 bank=64 cpy=8
fn c17_kinds() {
    let (n, k, w) = (nd::below(4), nd::below(4), nd::range(2, 5));
    let (x, y) = (nd::u8(), nd::u64());
    let mut b: VBox<Kinds> = nd::vbox(kinds::Init {
        v: SizedInit(k as u8, FillSequentially(|i| 10 + i as u8)),
        p: x,
        a: FillSequentially(|i| 20 + i as u32),
        n: n as u8,
        w: Blob2::of(1, w),
        q: y,
        z: FillSequentially(|i| 30 + i as u8),
    });
    let j = nd::below(7);
    {
        let r = b.refs();
        vp!(*r.p == x && *r.q == y && *r.n as usize == n && b.p == x && b.q == y && b.n as usize == n, "fixed-size fields hold what was supplied");
        vp!(r.v.len() == k && r.a.len() == 3 - n && r.z.len() == 2 * n + 1, "arrays have the lengths their expressions give");
        vp!(r.w.is(1, w), "nested field holds what was supplied");
        if j < k { vp!(r.v[j] as usize == 10 + j, "elements"); }
        if j < 3 - n { vp!(r.a[j] as usize == 20 + j, "elements"); }
        if j < 2 * n + 1 { vp!(r.z[j] as usize == 30 + j, "elements"); }
    }
    let (pv, pp, pa, pn, pw, pq, pz) = {
        let r = b.refs();
        (at(r.v), at(r.p), at(r.a), at(r.n), at(r.w), at(r.q), at(r.z))
    };
    vp!(pp == at(&b.p) && pn == at(&b.n) && pq == at(&b.q), "one by one and all at once are the same places");
    {
        let m = b.as_mut().muts();
        vp!(at(&*m.v) == pv && at(&*m.p) == pp && at(&*m.a) == pa && at(&*m.n) == pn && at(&*m.w) == pw && at(&*m.q) == pq && at(&*m.z) == pz,
            "shared and mutable views are the same places");
        vp!(m.a.len() == 3 - n && m.z.len() == 2 * n + 1 && m.v.len() == k, "and lengths");
    }
    reach!(n == 3 && k == 0, "last array empty");
    reach!(n == 0 && k == 3, "first array full");
    drop(b);
    vp!(drops(1) == 1, "nested field destroyed once");
}
//@ C17 bank=64 cpy=8
fn c17_kinds_writes() {
    let (n, k, w) = (nd::below(4), nd::below(3), nd::range(2, 5));
    let mut b: VBox<Kinds> = nd::vbox(kinds::Init { v: SizedInit(k as u8, FillSequentially(|i| 10 + i as u8)), p: 1, a: FillSequentially(|i| 20 + i as u32), n: n as u8,
        w: Blob2::of(1, w), q: 2, z: FillSequentially(|i| 30 + i as u8) });
    let (x, y) = (nd::u32(), nd::u8());
    let j = nd::below(3);
    {
        let m = b.as_mut().muts();
        *m.p = y;
        if j < 3 - n { m.a[j] = x; }
        m.z[2 * n] = y;
        m.w.set_id(3);
    }
    let r = b.refs();
    vp!(*r.p == y && *r.q == 2 && *r.n as usize == n && r.z[2 * n] == y && r.w.is(3, w), "each write reaches its field");
    if j < 3 - n { vp!(r.a[j] == x, "each write reaches its field"); }
    let i = nd::below(3);
    if i < 3 - n && i != j { vp!(r.a[i] as usize == 20 + i, "other elements stay"); }
    if i < k { vp!(r.v[i] as usize == 10 + i, "other fields stay"); }
    if i < 2 * n { vp!(r.z[i] as usize == 30 + i, "other elements stay"); }
    reach!(n == 1 && k == 2 && j == 1, "middle");
    core::mem::forget(b);
}
//@ C17 bank=32 cpy=12
fn c17_nest() {
    let (p, q, r, n, m) = (nd::u16(), nd::u8(), nd::u32(), nd::below(3), nd::below(4));
    let src = nd::u16s::<2>();
    let b: VBox<Nest> = nd::vbox(nest::Init {
        p,
        k: tail::Init { k: Array::try_copy(&src[..n]).unwrap(), s: Str::<u16>::try_copy(&"abc"[..m]).unwrap() },
        l: plain::Init { p: q, q: r },
    });
    let x = b.refs();
    let y = x.k.refs();
    vp!(*x.p == p && *x.l.refs().p == q && *x.l.refs().q == r && x.l.p == q && x.l.q == r, "fixed-size fields");
    vp!(y.k.len() == n && y.s.len() == m, "lengths of the nested struct's fields");
    let j = nd::below(3);
    if j < n { vp!(y.k[j] == src[j], "nested elements"); }
    if j < m { vp!(y.s.as_bytes()[j] == b'a' + j as u8, "nested text"); }
    reach!(n == 2 && m == 3, "full");
    core::mem::forget(b);
}
//@ C17 bank=16 cpy=12
fn c17_default_generic() {
    let (p, n, src) = (nd::u8(), nd::below(4), nd::u16s::<3>());
    let b: VBox<Def> = nd::vbox(def::Init { p, a: Array::try_copy(&src[..n]).unwrap() });
    vp!(*b.refs().p == p && b.p == p && b.refs().a.len() == n, "fields");
    let j = nd::below(3);
    if j < n { vp!(b.refs().a[j] == src[j], "elements"); }
    reach!(n == 3, "full");
    core::mem::forget(b);
}
//@ C17 bank=32 cpy=12
fn c17_consts() {
    let on = nd::bool();
    let a = nd::u16s::<3>();
    let b4 = nd::bytes::<4>();
    let b: VBox<Consts> = nd::vbox(consts::Init { a: MoveFrom(a), b: MoveFrom(b4), on, c: FillSequentially(|i| i as u32) });
    let r = b.refs();
    vp!(r.a.len() == 3 && r.b.len() == 4 && r.c.len() == if on { 2 } else { 0 } && *r.on == on, "lengths");
    let j = nd::below(4);
    if j < 3 { vp!(r.a[j] == a[j], "elements"); }
    vp!(r.b[j] == b4[j], "elements");
    if on && j < 2 { vp!(r.c[j] as usize == j, "elements"); }
    reach!(on, "on");
    reach!(!on, "off");
    core::mem::forget(b);
}
//@ C17 bank=32
fn c17_huge() {
    let (n, m, k) = (nd::usize(), nd::u64(), nd::u32());
    let mut b: VBox<Any3> = nd::vbox(any_3::Init { n, m, k, a: Skip, b: Skip, c: Skip });
    {
        let r = b.refs();
        vp!(r.a.len() == n && r.b.len() == m as usize && r.c.len() == k as usize / 3, "lengths of any magnitude");
    }
    let r = b.as_mut().muts();
    vp!(r.a.len() == n && r.b.len() == m as usize && r.c.len() == k as usize / 3, "lengths of any magnitude");
    reach!(n > 1 << 60 && k == u32::MAX, "huge");
    core::mem::forget(b);
}
//@ C17,C11 bank=32 unwind=16
fn c17_drop() {
    let (n, m) = (nd::below(4), nd::below(4));
    let b: VBox<Toks> = nd::vbox(toks(n, m));
    vp!(toks_gone(n, m, 0), "nothing is destroyed by construction");
    {
        let r = b.refs();
        vp!(r.a.len() == n && r.v.len() == m && r.b.len() == 1, "lengths");
        vp!(r.x.0 == 6 && r.n.0 as usize == 8 + n && r.f.0.0 == 7 && r.b[0].0 == 12 && r.y.0 == 13, "fields");
        let j = nd::below(3);
        if j < n { vp!(r.a[j].0 as usize == j, "elements"); }
        if j < m { vp!(r.v[j].0 as usize == 3 + j, "elements"); }
    }
    drop(b);
    vp!(toks_gone(n, m, 1), "each field and element is destroyed once");
    reach!(n == 3 && m == 0, "mixed");
    reach!(n == 0 && m == 3, "mixed");
}
//@ C17,C11 bank=24 cpy=8 unwind=16
fn c17_drop_seq() {
    let mut s: Seq<Toks> = Seq::new();
    let n = 2;
    s.push(toks(n, 1));
    vp!(toks_gone(n, 1, 0), "nothing is destroyed by pushing");
    drop(s);
    vp!(toks_gone(n, 1, 1), "each field and element is destroyed once");
    reach!("done");
}
//@ C17,C11 bank=24 cpy=8 unwind=16
fn c17_drop_taken() {
    let mut s: Seq<Toks> = Seq::new();
    let n = 2;
    s.push(toks(n, 1));
    let mut t = s.take_elems();
    let e = t.next().unwrap();
    vp!(e.refs().x.0 == 6 && e.refs().y.0 == 13 && e.refs().a.len() == n, "fields");
    drop(e);
    vp!(toks_gone(n, 1, 1), "taken elements are destroyed once");
    drop(t);
    drop(s);
    vp!(toks_gone(n, 1, 1), "each field and element is destroyed once");
    reach!("done");
}

//@ C18 bank=40 cpy=8
fn c18_blob1() { wrapped_blob::<Blob1>(34) }
//@ C18 bank=40 cpy=8
fn c18_blob8() { wrapped_blob::<Blob8>(34) }
//@ C18 bank=64 cpy=8
fn c18_seq_a1() { wrapped_seq::<Blob1, UncheckedIndexing>(3, 12) }
//@ C18 bank=96 cpy=8
fn c18_seq_a4_idx() { wrapped_seq::<Blob4, X>(5, 12) }
//@ C18 bank=24 cpy=8
fn c18_text() {
    same_type::<Counted, Tup2<FixedLen<u32>, Str<u8>>>();
    let (n, x) = (nd::below(4), nd::u32());
    let mut b: VBox<Counted> = nd::vbox(CountedInit(tup2::Init(FixedLen(x), Str::<u8>::try_copy(&"abc"[..n]).unwrap())));
    vp!(b.inner().refs().0.0 == x && b.inner().refs().1.len() == n, "contents");
    vp!(b.calculate_layout().size() == 4 + 1 + n, "size");
    vp!(at(b.inner()) == at(&*b), "the inner value is the value");
    b.as_mut().inner_mut().muts().0.0 = 1;
    vp!(b.inner().refs().0.0 == 1 && b.inner().refs().1.len() == n, "written through");
    let k = nd::below(3);
    if k < n { vp!(b.inner().refs().1.as_bytes()[k] == b'a' + k as u8, "contents"); }
    reach!(n == 3, "longest");
    core::mem::forget(b);
}
//@ C18 bank=24 cpy=8
fn c18_generic() {
    same_type::<Two<u8, u32>, Tup2<Array<u8, u8>, Array<u32, u16>>>();
    same_type::<Two<u8>, Tup2<Array<u8, u8>, Array<u16, u16>>>();
    let (n, m, src) = (nd::below(3), nd::below(3), nd::bytes::<2>());
    let mut b: VBox<Two<u8>> = nd::vbox(TwoInit(tup2::Init(Array::try_copy(&src[..n]).unwrap(), SizedInit(m as u16, FillSequentially(|i| i as u16)))));
    vp!(b.inner().refs().0.len() == n && b.inner().refs().1.len() == m, "lengths");
    let k = nd::below(2);
    if k < n { vp!(b.inner().refs().0[k] == src[k], "contents"); }
    if k < m { vp!(b.inner().refs().1[k] as usize == k, "contents"); }
    if k < m { b.as_mut().inner_mut().muts().1.mut_slice()[k] = 9; vp!(b.inner().refs().1[k] == 9, "written through"); }
    reach!(n == 2 && m == 1, "mixed");
    core::mem::forget(b);
}
//@ C18,C11 cpy=8 unwind=16
fn c18_drop() {
    same_type::<NewToks, Array<Tok, u8>>();
    same_type::<NewBlob, Blob4>();
    let n = nd::below(4);
    let init = || NewToksInit(SizedInit(n as u8, FillSequentially(|i| Tok(i as u8))));
    match nd::below(4) {
        0 => { let b: VBox<NewToks> = nd::vbox(init()); vp!(b.inner().len() == n, "length"); reach!(n == 3, "box"); }
        1 => { let b: VBox<Tup2<NewToks, FixedLen<u8>>> = nd::vbox(tup2::Init(init(), FixedLen(1))); vp!(b.refs().0.inner().len() == n, "length"); reach!(n == 3, "tuple"); }
        2 => {
            let b: VBox<NewToks> = nd::vbox(init());
            let c: VBox<Wrap<NewToks>> = nd::vbox(WrapInit(b));
            vp!(c.inner().inner().len() == n, "length");
            reach!(n == 3, "moved into a newtype");
        }
        _ => { let b: VBox<Wrap<Wrap<NewToks>>> = nd::vbox(WrapInit(WrapInit(init()))); vp!(at(b.inner().inner().inner()) == at(&*b), "place"); reach!(n == 3, "nested"); }
    }
    let mut i = 0;
    while i < 4 {
        vp!(drops(i) == if (i as usize) < n { 1 } else { 0 }, "each inner element is destroyed once");
        i += 1;
    }
    vp!(nd::live() == 0, "released");
}
//@ C18 bank=24 cpy=8
fn c18_in_tuple() {
    let (s, x) = (nd::range(4, 10), nd::u8());
    let mut b: VBox<Tup3<FixedLen<u8>, NewBlob, FixedLen<u8>>> = nd::vbox(tup3::Init(FixedLen(x), NewBlobInit(Blob4::of(1, s)), FixedLen(7)));
    let a = at(&*b);
    vp!(at(b.refs().1) == a + 4 && at(b.refs().2) == a + 4 + s, "placed like the inner value");
    vp!(b.refs().1.inner().is(1, s) && b.refs().0.0 == x && b.refs().2.0 == 7, "contents");
    b.as_mut().muts().1.inner_mut().set_id(5);
    vp!(b.refs().1.inner().is(5, s) && b.refs().0.0 == x && b.refs().2.0 == 7, "written through");
    reach!(s == 9, "odd");
    drop(b);
    vp!(drops(5) == 1 && drops(1) == 0, "destroyed once");
}
//@ C18 bank=48 cpy=12
fn c18_moves() {
    let s = nd::range(4, 12);
    let w: VBox<Wrap<Blob4>> = nd::vbox(WrapInit(Blob4::of(1, s)));
    let mut q: IndexableSeq<Wrap<Blob4>> = Seq::new();
    q.push(w);
    vp!(drops(1) == 0, "moving does not destroy");
    vp!(q.from_offset(0).inner().is(1, s), "contents survive the move");
    {
        let mut t = q.take_elems();
        let e = t.next().unwrap();
        vp!(e.inner().is(1, s), "contents survive");
        let b: VBox<Wrap<Blob4>> = nd::vbox(e);
        vp!(b.inner().is(1, s) && drops(1) == 0, "contents survive the move");
        drop(b);
        vp!(drops(1) == 1, "destroyed once");
    }
    drop(q);
    vp!(drops(1) == 1 && nd::live() == 0, "destroyed once");
    reach!(s == 11, "odd");
}
}
