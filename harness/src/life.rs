//! C10 boxes, C11 destruction, C24 moves, C25 zero-size values.
use crate::nd;
use crate::vt::*;
use core::pin::Pin;
use core::ptr::NonNull;
use varlen::array::{ArrayLen, SizedInit};
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, IndexableSeq, Indexing, Seq, UncheckedIndexing};
use varlen::tuple::*;
use varlen::{Initializer, Layout};

type U = UncheckedIndexing;
type X = CheckedIndexing;
type Toks = Array<Tok, u8>;

fn at<T: ?Sized>(r: &T) -> usize {
    r as *const T as *const u8 as usize
}
fn toks(base: u8, n: usize) -> impl Initializer<Toks> {
    SizedInit(n as u8, FillSequentially(move |i| Tok(base + i as u8)))
}
/// The values `base..base + n` have been destroyed exactly `times`; no other of `base..base + 4` has.
fn gone(base: u8, n: usize, times: u8) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < 4 {
        ok &= drops(base + i) == if (i as usize) < n { times } else { 0 };
        i += 1;
    }
    ok
}
fn alive(base: u8) -> bool {
    gone(base, 0, 0)
}

#[define_varlen]
pub struct Rec {
    pub head: Tok,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub a: [Tok; *n as usize],
    #[varlen]
    pub t: Array<Tok, u8>,
    pub tail: Tok,
}
fn rec(n: usize, m: usize) -> impl Initializer<Rec> {
    rec::Init { head: Tok(12), n: n as u8, a: FillSequentially(|i| Tok(i as u8)), t: toks(4, m), tail: Tok(13) }
}
fn rec_gone(n: usize, m: usize, times: u8) -> bool {
    gone(0, n, times) && gone(4, m, times) && drops(12) == times && drops(13) == times
}

#[define_varlen]
pub struct Holder {
    pub id: u16,
    #[varlen]
    pub v: Array<u16, u8>,
    #[varlen]
    pub w: Blob4,
}
#[define_varlen]
pub struct TokHolder {
    #[varlen]
    pub v: Array<Tok, u8>,
    pub z: u32,
}

// Structs of which exactly one part has a destructor.
#[define_varlen]
pub struct OnlyPlain {
    pub x: Tok,
    #[varlen]
    pub a: Array<u8, u8>,
}
#[define_varlen]
pub struct OnlyCtl {
    #[controls_layout]
    pub t: Tok,
    #[varlen_array]
    pub a: [u8; (t.0 % 4) as usize],
}
#[define_varlen]
pub struct OnlyNested {
    pub x: u8,
    #[varlen]
    pub a: Array<Tok, u8>,
}
#[define_varlen]
pub struct OnlyElems {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub a: [Tok; *n as usize],
}
#[define_varlen]
pub struct OnlySeventh {
    pub x: u8,
    #[varlen]
    pub a: Array<u8, u8>,
    #[varlen_array]
    pub b: [u8; 1],
    #[controls_layout]
    pub n: u8,
    #[varlen]
    pub c: FixedLen<u16>,
    #[varlen_array]
    pub d: [u8; *n as usize],
    #[varlen]
    pub e: FixedLen<Tok>,
}
#[define_varlen]
pub struct OnlyZero {
    pub x: u32,
    #[varlen_array]
    pub a: [Zst1; 2],
}
#[define_varlen]
pub struct Outer<T: VarLen> {
    pub x: u16,
    #[varlen]
    pub t: T,
    #[varlen]
    pub u: Array<u8, u8>,
}
varlen::define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrap<(T: VarLen)>(pub T);
    with signature: impl<(T: VarLen)> Wrap<(T)> { _ }
    with init: pub struct WrapInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
/// A value in every kind of owner, itself nested or not, is destroyed when its owner is: `done(k)`
/// says whether that has happened k times.
fn in_owner<T: VarLen>(init: impl Initializer<T>, done: impl Fn(u8) -> bool, how: usize) {
    type P = Array<u8, u8>;
    fn p() -> impl Initializer<P> { SizedInit(1u8, FillWithDefault) }
    fn gone<U: VarLen>(init: impl Initializer<U>, done: &impl Fn(u8) -> bool) {
        let b: VBox<U> = VBox::new(init);
        vp!(done(0), "construction destroys nothing");
        drop(b);
    }
    match how {
        0 => gone::<T>(init, &done),
        1 => gone::<Tup2<T, P>>(tup2::Init(init, p()), &done),
        2 => gone::<Tup3<P, P, T>>(tup3::Init(p(), p(), init), &done),
        3 => gone::<Wrap<T>>(WrapInit(init), &done),
        4 => gone::<Outer<T>>(outer::Init { x: 3, t: init, u: p() }, &done),
        5 => gone::<Tup4<P, Tup2<P, Wrap<T>>, P, P>>(tup4::Init(p(), tup2::Init(p(), WrapInit(init)), p(), p()), &done),
        6 => {
            let mut s: Seq<T> = Seq::new();
            s.push(init);
            vp!(done(0), "pushing destroys nothing");
            drop(s);
        }
        7 => {
            let mut s: IndexableSeq<Outer<T>> = Seq::new();
            s.push(outer::Init { x: 3, t: init, u: p() });
            {
                let mut o = s.take_elems();
                let e = o.next();
                vp!(done(0), "taking destroys nothing");
                drop(e);
            }
            vp!(done(1), "a taken element is destroyed by its owner");
            drop(s);
        }
        _ => {
            let mut s: Seq<Tup2<P, T>> = Seq::new();
            s.push(tup2::Init(p(), init));
            vp!(done(0), "pushing destroys nothing");
            drop(s.take_elems());
            vp!(done(1), "an element not taken is destroyed");
            drop(s);
        }
    }
    vp!(done(1), "the value is destroyed exactly once");
    vp!(nd::live() == 0, "storage is released");
    reach!("done");
}
/// `in_owner` for every kind of owner: one value, several values.
macro_rules! in_owners {
    ($($name:ident: $t:ty = $init:expr, $done:expr;)*) => { $(
        fn $name(how: usize) { in_owner::<$t>($init, $done, how) }
    )* }
}
fn small(n: usize) -> impl Initializer<Array<u8, u8>> { SizedInit(n as u8, FillWithDefault) }
in_owners! {
    only_plain: OnlyPlain = only_plain::Init { x: Tok(3), a: small(1) }, |k| drops(3) == k;
    only_ctl: OnlyCtl = only_ctl::Init { t: Tok(3), a: FillWithDefault }, |k| drops(3) == k;
    only_nested: OnlyNested = only_nested::Init { x: 1, a: toks(4, 2) }, |k| gone(4, 2, k);
    only_elems: OnlyElems = only_elems::Init { n: 2, a: FillSequentially(|i| Tok(i as u8)) }, |k| gone(0, 2, k);
    only_seventh: OnlySeventh = only_seventh::Init { x: 1, a: small(1), b: FillWithDefault, n: 2, c: FixedLen(4u16), d: FillWithDefault, e: FixedLen(Tok(3)) }, |k| drops(3) == k;
    only_zero: OnlyZero = only_zero::Init { x: 1, a: FillSequentially(|_| Zst1) }, |k| drops(15) == 2 * k;
    only_fixed: FixedLen<(u8, Tok)> = FixedLen((1u8, Tok(3))), |k| drops(3) == k;
    only_fixed_zero: FixedLen<Zst1> = FixedLen(Zst1), |k| drops(15) == k;
    only_array_zero: Array<Zst1, u8> = SizedInit(2u8, FillSequentially(|_| Zst1)), |k| drops(15) == 2 * k;
    only_array_pairs: Array<[Tok; 2], u8> = SizedInit(1u8, FillSequentially(|_| [Tok(3), Tok(4)])), |k| drops(3) == k && drops(4) == k;
    only_array_maybe: Array<Option<Tok>, u16> = SizedInit(2u16, FillSequentially(|i| if i == 1 { Some(Tok(3)) } else { None })), |k| drops(3) == k;
    only_blob: Blob2 = Blob2::of(3, 5), |k| drops(3) == k;
}

// ---- C10
fn own<T: VarLen>(init: impl Initializer<T>) {
    let size = init.calculate_layout_cautious().unwrap().size();
    let b: VBox<T> = nd::vbox(init);
    vp!(nd::allocs() == 1 && nd::live() == 1, "a box is one allocation");
    vp!(nd::last_size() == size, "of exactly the value's size");
    vp!(nd::last_align() == T::ALIGN, "with its type's alignment");
    vp!(at(&*b) == nd::last_addr(), "and the value is at its start");
    vp!(b.calculate_layout().size() == size, "the value reports that size");
    let a = at(&*b);
    let mut b = b;
    vp!(at(&*b.as_mut()) == a, "mutable access reaches the same value");
    let raw = unsafe { b.into_raw() };
    vp!(raw as usize == a && nd::live() == 1, "turning a box into a raw pointer keeps its allocation");
    let b = unsafe { VBox::from_raw(raw) };
    vp!(at(&*b) == a && nd::live() == 1 && nd::allocs() == 1, "and back");
    drop(b);
    vp!(nd::live() == 0 && nd::allocs() == 1, "dropping the box frees it");
    reach!("done");
}
/// Cloning and moving boxes.
fn own_two<T: VarLen + for<'a> VClone<'a>>(init: impl Initializer<T>) {
    let size = init.calculate_layout_cautious().unwrap().size();
    let b: VBox<T> = nd::vbox(init);
    let c = b.clone();
    vp!(nd::allocs() == 2 && nd::live() == 2, "a clone owns its own allocation");
    vp!(nd::last_size() == size && nd::last_align() == T::ALIGN, "of the same size and alignment");
    vp!(at(&*b) != at(&*c), "storage is not shared");
    if nd::bool() {
        drop(b);
        vp!(nd::live() == 1, "each box frees its own allocation");
        drop(c);
    } else {
        drop(c);
        vp!(nd::live() == 1, "each box frees its own allocation");
        drop(b);
    }
    vp!(nd::live() == 0, "each box frees its own allocation");
    reach!("done");
}

// ---- C24
/// A value, in a box or borrowed from a sequence.
fn blob<T: Blob>(id: u8, size: usize) -> VBox<T> {
    nd::vbox(T::of(id, size))
}
fn still<T: Blob>(v: &T, id: u8, size: usize) {
    vp!(v.is(id, size), "the moved value has the same contents");
    vp!(v.calculate_layout().size() == size, "and the same size");
    vp!(drops(id) == 0, "and was not destroyed by the move");
}
fn into_box<T: Blob>(max: usize) {
    let z = any_size::<T>(max);
    let b = blob::<T>(1, z);
    let c: VBox<T> = nd::vbox(b);
    vp!(nd::live() == 1, "the source's storage is released");
    still(&*c, 1, z);
    reach!(z == max, "largest");
    core::mem::forget(c);
}
fn into_tuple<T: Blob>(max: usize) {
    let (z, n) = (any_size::<T>(max), nd::below(4));
    let b = blob::<T>(1, z);
    let c: VBox<Tup3<Array<u8, u8>, T, FixedLen<u8>>> = nd::vbox(tup3::Init(SizedInit(n as u8, FillWithDefault), b, FixedLen(7u8)));
    vp!(nd::live() == 1, "the source's storage is released");
    let r = c.refs();
    still(r.1, 1, z);
    vp!(r.0.len() == n && r.2.0 == 7, "neighbours");
    reach!(z == max, "largest");
    core::mem::forget(c);
}
fn into_seq<T: Blob, I: Indexing>(c: usize, max: usize) {
    let z = any_size::<T>(max);
    let b = blob::<T>(1, z);
    let mut s: Seq<T, I> = Seq::new();
    s.push(T::of(2, c));
    s.push(b);
    vp!(nd::live() == 1, "the source's storage is released");
    let mut it = s.iter();
    vp!(it.next().unwrap().is(2, c), "earlier element");
    still(it.next().unwrap(), 1, z);
    vp!(s.len() == 2, "length");
    reach!(z == max, "largest");
    core::mem::forget(s);
}
/// Taken elements of one sequence, moved elsewhere; the sequence is then reused.
fn from_seq<T: Blob, I: Indexing>(c: usize, max: usize) {
    let z = any_size::<T>(max);
    let mut s: Seq<T, I> = Seq::new();
    s.push(T::of(1, c));
    s.push(T::of(2, z));
    let kept: VBox<T>;
    {
        let mut o = s.take_elems();
        vp!(o.len() == 2, "every element is there to take");
        {
            let e = o.next().unwrap();
            vp!(e.is(1, c), "elements come in order");
            vp!(drops(1) == 0, "not destroyed while owned");
        }
        vp!(drops(1) == 1, "an owned element not kept is destroyed");
        let e = o.next().unwrap();
        kept = nd::vbox(e);
        vp!(o.next().is_none(), "and no more");
    }
    still(&*kept, 2, z);
    vp!(s.len() == 0 && s.iter().next().is_none(), "taking leaves the sequence empty");
    vp!(drops(1) == 1, "destroyed once");
    s.push(T::of(3, c));
    vp!(s.len() == 1 && s.iter().next().unwrap().is(3, c), "and reusable");
    still(&*kept, 2, z);
    reach!("done");
    core::mem::forget((s, kept));
}
fn seq_to_seq<T: Blob, I: Indexing>(first: bool, c: usize, max: usize) {
    let z = any_size::<T>(max);
    let mut s: Seq<T, U> = Seq::new();
    let sizes = if first { [z, c] } else { [c, z] };
    s.push(T::of(1, sizes[0]));
    s.push(T::of(2, sizes[1]));
    let mut t: Seq<T, I> = Seq::new();
    t.push(T::of(3, T::HDR));
    {
        let mut o = s.take_elems();
        t.push(o.next().unwrap());
        t.push(o.next().unwrap());
        vp!(o.next().is_none(), "and no more");
        core::mem::forget(o);
    }
    vp!(drops(1) == 0 && drops(2) == 0, "moving destroys nothing");
    vp!(s.len() == 0 && t.len() == 3, "lengths");
    let mut it = t.iter();
    vp!(it.next().unwrap().is(3, T::HDR), "earlier element");
    still(it.next().unwrap(), 1, sizes[0]);
    still(it.next().unwrap(), 2, sizes[1]);
    reach!("done");
    core::mem::forget((s, t));
}
/// An owned reference into a buffer, moved into a container.
fn owned_in<'a, T: VarLen, const N: usize>(buf: &'a mut Buf<N>, init: impl Initializer<T>) -> Owned<'a, T> {
    let layout = init.calculate_layout_cautious().unwrap();
    nd::assume(layout.size() <= N);
    unsafe {
        let p = NonNull::new_unchecked(buf.0.as_mut_ptr() as *mut T);
        init.initialize(p, layout);
        Owned::from_raw(p)
    }
}
fn from_owned<T: Blob>(max: usize) {
    let z = any_size::<T>(max);
    let mut buf = Buf::<40>::any();
    let o = owned_in::<T, 40>(&mut buf, T::of(1, z));
    vp!(o.is(1, z), "an owned reference refers to the value");
    let c: VBox<T> = nd::vbox(o);
    still(&*c, 1, z);
    drop(c);
    vp!(drops(1) == 1, "destroyed once, by its last owner");
    reach!(z == max, "largest");
}
/// All contents, through arrays.
fn array_moves<T: Copy + PartialEq, const N: usize>(x: [T; N]) {
    let n = nd::below(N + 1);
    let b: VBox<Array<T, u8>> = nd::vbox(Array::try_copy(&x[..n]).unwrap());
    let k = nd::below(N);
    let c: VBox<Array<T, u8>> = nd::vbox(b);
    vp!(nd::live() == 1, "the source's storage is released");
    vp!(c.len() == n, "length");
    if k < n {
        vp!(c[k] == x[k], "contents");
    }
    reach!(n == N, "full");
    reach!(n == 0, "empty");
    core::mem::forget(c);
}
fn owned_array_moves<T: Copy + PartialEq, const N: usize>(x: [T; N]) {
    let n = nd::below(N + 1);
    let mut buf = Buf::<24>::any();
    let o = owned_in::<Array<T, u8>, 24>(&mut buf, Array::try_copy(&x[..n]).unwrap());
    let k = nd::below(N);
    let c: VBox<Array<T, u8>> = nd::vbox(o);
    vp!(c.len() == n, "length");
    if k < n {
        vp!(c[k] == x[k], "contents");
    }
    reach!(n == N, "full");
    core::mem::forget(c);
}

// ---- C25
/// A value of size zero whose destruction is counted (at index 15).
#[repr(align(8))]
pub struct Zst8;
impl Drop for Zst8 {
    fn drop(&mut self) {
        vp!(self as *const Self as usize % 8 == 0, "a zero-size value is aligned");
        note_drop(15)
    }
}
pub struct Zst1;
impl Drop for Zst1 {
    fn drop(&mut self) {
        note_drop(15)
    }
}
trait Zero {
    const NEW: Self;
}
impl Zero for Zst1 {
    const NEW: Self = Zst1;
}
impl Zero for Zst8 {
    const NEW: Self = Zst8;
}
fn zero_box<T: Zero>() {
    let b: VBox<FixedLen<T>> = VBox::new(FixedLen(T::NEW));
    vp!(nd::allocs() == 0, "nothing is requested from the allocator");
    vp!(at(&*b) % core::mem::align_of::<T>() == 0, "aligned");
    vp!(b.calculate_layout().size() == 0, "size");
    let c: VBox<FixedLen<T>> = VBox::new(b);
    vp!(drops(15) == 0, "moving destroys nothing");
    if nd::bool() {
        drop(c);
    } else {
        let raw = unsafe { c.into_raw() };
        vp!(drops(15) == 0, "a raw pointer keeps the value");
        drop(unsafe { VBox::from_raw(raw) });
    }
    vp!(drops(15) == 1, "destroyed exactly once");
    vp!(nd::allocs() == 0 && nd::live() == 0, "nothing is given back to the allocator");
    reach!("done");
}
/// Histories of pushes and takes of zero-size elements.
fn zero_seq<T: Zero, I: Indexing>(n: usize, m: usize) {
    let k = nd::below(4);
    let mut s: Seq<FixedLen<T>, I> = Seq::new();
    let mut offs = [0usize; 6];
    let mut i = 0;
    while i < n {
        offs[i] = s.offset();
        s.push(FixedLen(T::NEW));
        vp!(s.offset() <= s.capacity_in_offsets(), "within the capacity");
        vp!(s.offset() > offs[i], "distinct elements have distinct offsets");
        i += 1;
    }
    vp!(drops(15) == 0, "pushing destroys nothing");
    vp!(s.len() == n && s.iter().count() == n, "counted");
    let mut it = s.iter();
    i = 0;
    while i < n {
        let e = it.next().unwrap();
        vp!(s.offset_of(e) == offs[i], "offset identifies the element");
        i += 1;
    }
    vp!(it.next().is_none(), "iterated");
    vp!(s.iter_mut().count() == n, "iterated mutably");
    {
        let mut o = s.take_elems();
        i = 0;
        while i < k {
            vp!(o.next().is_some() == (i < n), "taken");
            i += 1;
        }
        vp!(drops(15) as usize == if k < n { k } else { n }, "each taken element is destroyed when dropped");
    }
    vp!(drops(15) as usize == n, "each element is destroyed exactly once");
    vp!(s.len() == 0 && s.offset() == 0, "empty again");
    i = 0;
    while i < m {
        s.push(FixedLen(T::NEW));
        i += 1;
    }
    vp!(s.len() == m, "reusable");
    drop(s);
    vp!(drops(15) as usize == n + m, "each element is destroyed exactly once");
    vp!(nd::live() == 0, "storage freed");
    reach!(k == 1, "one taken");
}

harnesses! {
//@ C10 bank=16
fn c10_array_u8() { own::<Array<u8>>(SizedInit(nd::below(9), Skip)) }
//@ C10 bank=40
fn c10_array_u16_u8() { own::<Array<u16, u8>>(SizedInit(nd::below(13) as u8, Skip)) }
//@ C10 bank=80
fn c10_array_u64_u16() { own::<Array<u64, u16>>(SizedInit(nd::below(7) as u16, Skip)) }
//@ C10 bank=80
fn c10_array_u128() { own::<Array<u128, u8>>(SizedInit(nd::below(4) as u8, Skip)) }
//@ C10 bank=40
fn c10_blob1() { own::<Blob1>(Blob1::of(1, any_size::<Blob1>(40))) }
//@ C10 bank=40
fn c10_blob8() { own::<Blob8>(Blob8::of(1, any_size::<Blob8>(40))) }
//@ C10 bank=64
fn c10_blob16() { own::<Blob16>(Blob16::of(1, any_size::<Blob16>(64))) }
//@ C10 bank=64
fn c10_tup() {
    own::<Tup3<Array<u8, u8>, Blob4, Array<u64, u8>>>(
        tup3::Init(SizedInit(nd::below(9) as u8, Skip), Blob4::of(1, any_size::<Blob4>(15)), SizedInit(nd::below(3) as u8, Skip)))
}
//@ C10 bank=40
fn c10_struct() {
    own::<Holder>(holder::Init { id: nd::u16(), v: SizedInit(nd::below(8) as u8, Skip), w: Blob4::of(1, any_size::<Blob4>(11)) })
}
//@ C10 bank=16 cpy=8
fn c10_str() { own::<Str<u16>>(Str::try_copy(&"varlen"[..nd::below(7)]).unwrap()) }
//@ C10 bank=16
fn c10_drops() { own::<Array<Tok, u8>>(toks(0, nd::below(4))) }
//@ C10 bank=8 cpy=7
fn c10_clone_u8() { own_two::<Array<u8, u8>>(SizedInit(nd::below(8) as u8, Skip)) }
//@ C10 bank=12 cpy=10
fn c10_clone_tup() { own_two::<Tup2<Array<u8, u8>, FixedLen<u32>>>(tup2::Init(SizedInit(nd::below(5) as u8, Skip), FixedLen(nd::u32()))) }
//@ C10 bank=8
fn c10_clone_tok() { own_two::<Toks>(toks(0, nd::below(4))) }
//@ C10 bank=10 cpy=10
fn c10_clone_str() { own_two::<Str<u8>>(Str::try_copy(&"varlen"[..nd::below(7)]).unwrap()) }
//@ C10 bank=40 cpy=34
fn c10_moved_box() {
    let z = any_size::<Blob2>(34);
    let b: VBox<Blob2> = nd::vbox(Blob2::of(1, z));
    let c: VBox<Blob2> = nd::vbox(b);
    vp!(nd::live() == 1 && nd::allocs() == 2, "moving frees the source's allocation");
    vp!(nd::last_size() == z && nd::last_align() == 2, "the new one has the right size and alignment");
    drop(c);
    vp!(nd::live() == 0, "freed");
    reach!("done");
}
//@ C10 bank=34 cpy=14
fn c10_moved_seq() {
    let z = any_size::<Blob1>(14);
    let b: VBox<Blob1> = nd::vbox(Blob1::of(1, z));
    let mut s: Seq<Blob1> = Seq::new();
    s.push(b);
    vp!(nd::live() == 1 && nd::allocs() == 2, "moving frees the source's allocation");
    drop(s);
    vp!(nd::live() == 0, "freed");
    reach!("done");
}
//@ C10 bank=34 cpy=14
fn c10_moved_tuple() {
    let z = any_size::<Blob1>(14);
    let b: VBox<Blob1> = nd::vbox(Blob1::of(1, z));
    let c: VBox<Tup2<FixedLen<u16>, Blob1>> = nd::vbox(tup2::Init(FixedLen(4u16), b));
    vp!(nd::live() == 1 && nd::allocs() == 2, "moving frees the source's allocation");
    drop(c);
    vp!(nd::live() == 0, "freed");
    reach!("done");
}

//@ C11
fn c11_box_array() {
    let n = nd::below(4);
    let mut b: VBox<Toks> = nd::vbox(toks(0, n));
    vp!(alive(0), "construction destroys nothing");
    vp!(b.iter().count() == n && b.as_mut().mut_slice().len() == n && alive(0), "access destroys nothing");
    drop(b);
    vp!(gone(0, n, 1), "dropping a box destroys every element exactly once");
    reach!(n == 3, "three");
    reach!(n == 0, "none");
}
//@ C11
fn c11_box_raw() {
    let n = nd::below(4);
    let b: VBox<Toks> = nd::vbox(toks(0, n));
    let raw = unsafe { b.into_raw() };
    vp!(alive(0), "a raw pointer keeps the value");
    if nd::bool() {
        drop(unsafe { VBox::from_raw(raw) });
        vp!(gone(0, n, 1), "destroyed exactly once");
        reach!(n == 3, "three");
    } else {
        vp!(alive(0), "ownership given away");
    }
}
//@ C11 cpy=8
fn c11_box_moves() {
    let n = nd::below(4);
    let b: VBox<Toks> = nd::vbox(toks(0, n));
    let c: VBox<Toks> = nd::vbox(b);
    vp!(alive(0), "moving destroys nothing");
    let d: VBox<Tup2<FixedLen<Tok>, Toks>> = nd::vbox(tup2::Init(FixedLen(Tok(5)), c));
    vp!(alive(0) && alive(4), "moving destroys nothing");
    drop(d);
    vp!(gone(0, n, 1) && drops(5) == 1, "destroyed exactly once");
    reach!(n == 3, "three");
}
//@ C11 cpy=8
fn c11_box_into_struct() {
    let n = nd::below(4);
    let b: VBox<Toks> = nd::vbox(toks(0, n));
    let c: VBox<TokHolder> = nd::vbox(tok_holder::Init { v: b, z: 3 });
    vp!(alive(0), "moving destroys nothing");
    drop(c);
    vp!(gone(0, n, 1), "destroyed exactly once");
    reach!(n == 3, "three");
}
//@ C11 bank=34 cpy=8
fn c11_box_into_seq() {
    let n = nd::below(4);
    let b: VBox<Toks> = nd::vbox(toks(0, n));
    let mut s: Seq<Toks> = Seq::new();
    s.push(b);
    vp!(alive(0), "moving destroys nothing");
    drop(s);
    vp!(gone(0, n, 1), "destroyed exactly once");
    reach!(n == 3, "three");
}
//@ C11
fn c11_tup2() {
    let (n, m) = (nd::below(4), nd::below(4));
    let b: VBox<Tup2<Toks, Toks>> = nd::vbox(tup2::Init(toks(0, n), toks(4, m)));
    drop(b);
    vp!(gone(0, n, 1) && gone(4, m, 1), "every field is destroyed exactly once");
    reach!(n == 3 && m == 1, "both");
}
//@ C11
fn c11_tup3() {
    let n = nd::below(4);
    let b: VBox<Tup3<FixedLen<Tok>, Toks, FixedLen<Tok>>> = nd::vbox(tup3::Init(FixedLen(Tok(8)), toks(0, n), FixedLen(Tok(9))));
    vp!(alive(0) && alive(8), "construction destroys nothing");
    drop(b);
    vp!(gone(0, n, 1) && gone(8, 2, 1), "every field is destroyed exactly once");
    reach!(n == 3, "three");
}
//@ C11
fn c11_tup4() {
    let (n, m) = (nd::below(4), nd::below(4));
    let b: VBox<Tup4<Toks, FixedLen<Tok>, Array<u8, u8>, Toks>> =
        nd::vbox(tup4::Init(toks(0, n), FixedLen(Tok(8)), SizedInit(2u8, FillWithDefault), toks(4, m)));
    drop(b);
    vp!(gone(0, n, 1) && gone(4, m, 1) && gone(8, 1, 1), "every field is destroyed exactly once");
    reach!(n == 3 && m == 1, "both");
}
//@ C11
fn c11_tup5() {
    let n = nd::below(4);
    let b: VBox<Tup5<FixedLen<Tok>, FixedLen<Tok>, Toks, FixedLen<Tok>, FixedLen<Tok>>> =
        nd::vbox(tup5::Init(FixedLen(Tok(4)), FixedLen(Tok(5)), toks(0, n), FixedLen(Tok(6)), FixedLen(Tok(7))));
    drop(b);
    vp!(gone(0, n, 1) && gone(4, 4, 1), "every field is destroyed exactly once");
    reach!(n == 3, "three");
}
// One destructor-carrying member in each place: none may be taken for trivial.
//@ C11
fn c11_tup_places() {
    type P = Array<u8, u8>;
    fn p() -> impl Initializer<P> { SizedInit(1u8, FillWithDefault) }
    let i = nd::below(5);
    match i {
        0 => drop(nd::vbox::<Tup5<Toks, P, P, P, P>>(tup5::Init(toks(0, 2), p(), p(), p(), p()))),
        1 => drop(nd::vbox::<Tup5<P, Toks, P, P, P>>(tup5::Init(p(), toks(0, 2), p(), p(), p()))),
        2 => drop(nd::vbox::<Tup5<P, P, Toks, P, P>>(tup5::Init(p(), p(), toks(0, 2), p(), p()))),
        3 => drop(nd::vbox::<Tup5<P, P, P, Toks, P>>(tup5::Init(p(), p(), p(), toks(0, 2), p()))),
        _ => drop(nd::vbox::<Tup5<P, P, P, P, Toks>>(tup5::Init(p(), p(), p(), p(), toks(0, 2)))),
    }
    vp!(gone(0, 2, 1), "the member is destroyed exactly once");
    reach!(i == 4, "last place");
}
//@ C11
fn c11_struct() {
    let (n, m) = (nd::below(4), nd::below(4));
    let b: VBox<Rec> = nd::vbox(rec(n, m));
    vp!(rec_gone(0, 0, 0), "construction destroys nothing");
    drop(b);
    vp!(rec_gone(n, m, 1), "every field is destroyed exactly once");
    reach!(n == 3 && m == 2, "both");
}
//@ C11
fn c11_owned() {
    let n = nd::below(4);
    let mut buf = Buf::<8>::any();
    let mut o = owned_in::<Toks, 8>(&mut buf, toks(0, n));
    vp!(o.len() == n && o.as_mut().mut_slice().len() == n && alive(0), "access destroys nothing");
    match nd::below(4) {
        0 => {
            drop(o);
            vp!(gone(0, n, 1), "dropping an owned reference destroys its value exactly once");
            reach!(n == 3, "dropped");
        }
        1 => {
            let l = o.leak();
            vp!(l.len() == n, "a leaked reference is usable");
            vp!(alive(0), "a leaked value is not destroyed");
            reach!(n == 3, "leaked");
        }
        2 => {
            let raw = unsafe { o.into_raw() };
            vp!(alive(0), "a raw pointer keeps the value");
            let o = unsafe { Owned::<Toks>::from_raw(raw) };
            vp!(alive(0), "a raw pointer keeps the value");
            drop(o);
            vp!(gone(0, n, 1), "destroyed exactly once");
        }
        _ => {
            let b: VBox<Toks> = nd::vbox(o);
            vp!(alive(0), "moving destroys nothing");
            drop(b);
            vp!(gone(0, n, 1), "destroyed exactly once");
        }
    }
}
//@ C11 bank=32
fn c11_seq() {
    let (n, m) = (nd::below(4), nd::below(3));
    let mut s: Seq<Toks> = Seq::new();
    s.push(toks(0, n));
    s.push(toks(4, m));
    vp!(s.iter().count() == 2 && s.iter().next().unwrap().len() == n, "elements");
    for e in s.iter_mut() { core::mem::drop(e) }
    vp!(alive(0) && alive(4), "access destroys nothing");
    drop(s);
    vp!(gone(0, n, 1) && gone(4, m, 1), "destroyed exactly once");
    reach!(n == 3 && m == 2, "both");
}
//@ C11 bank=36
fn c11_seq_idx() {
    let (n, m) = (nd::below(4), nd::below(3));
    let mut s: IndexableSeq<Toks> = Seq::new();
    s.push(toks(0, n));
    s.push(toks(4, m));
    drop(s);
    vp!(gone(0, n, 1) && gone(4, m, 1), "destroyed exactly once");
    reach!(n == 3 && m == 2, "both");
}
//@ C11 bank=72
fn c11_seq_growth() {
    let z = any_size::<Blob1>(34);
    let mut s: Seq<Blob1> = Seq::new();
    s.push(Blob1::of(1, 14));
    s.push(Blob1::of(2, z));
    s.push(Blob1::of(3, 2));
    vp!(drops(1) == 0 && drops(2) == 0 && drops(3) == 0, "growth destroys nothing");
    reach!(nd::allocs() > 1, "growth");
    drop(s);
    vp!(drops(1) == 1 && drops(2) == 1 && drops(3) == 1, "destroyed exactly once");
}
//@ C11 bank=32
fn c11_seq_take() {
    let (n, k, how) = (nd::below(3), nd::below(4), nd::below(3));
    let mut s: Seq<Toks> = Seq::new();
    s.push(toks(0, n));
    s.push(toks(4, 2));
    {
        let mut o = s.take_elems();
        let mut i = 0;
        while i < k {
            let e = o.next();
            vp!(e.is_some() == (i < 2), "each element is taken once");
            if let Some(e) = e {
                if i == 0 { vp!(alive(0), "not destroyed before its owner is dropped"); } else { vp!(alive(4), "not destroyed before its owner is dropped"); }
                if how == 0 { let _ = e.leak(); } else { drop(e); }
            }
            i += 1;
        }
        if how == 2 { core::mem::forget(o); }
    }
    let first = if how == 0 && k >= 1 || how == 2 && k == 0 { 0 } else { 1 };
    let second = if how == 0 && k >= 2 || how == 2 && k <= 1 { 0 } else { 1 };
    vp!(gone(0, n, first) && gone(4, 2, second), "destroyed exactly once, unless leaked");
    s.push(toks(8, n));
    vp!(alive(8), "pushing destroys nothing");
    drop(s);
    vp!(gone(0, n, first) && gone(4, 2, second) && gone(8, n, 1), "taken elements are not destroyed again");
    reach!(how == 0 && k == 1, "one leaked, one left");
    reach!(how == 1 && k == 2, "all taken");
}
//@ C11 bank=36
fn c11_seq_take_moved_idx() {
    let n = nd::below(4);
    let mut s: IndexableSeq<Toks> = Seq::new();
    s.push(toks(0, 1));
    s.push(toks(4, n));
    let kept: VBox<Toks>;
    {
        let mut o = s.take_elems();
        o.next();
        kept = nd::vbox(o.next().unwrap());
    }
    vp!(gone(0, 1, 1) && alive(4), "a kept element is not destroyed");
    drop(s);
    vp!(gone(0, 1, 1) && alive(4), "a kept element is not destroyed with the sequence");
    drop(kept);
    vp!(gone(0, 1, 1) && gone(4, n, 1), "destroyed exactly once");
    reach!(n == 3, "three");
}
//@ C11 bank=40
fn c11_seq_struct() {
    let (n, m) = (nd::below(4), nd::below(4));
    let mut s: Seq<Rec> = Seq::new();
    s.push(rec(n, m));
    vp!(rec_gone(0, 0, 0), "pushing destroys nothing");
    drop(s);
    vp!(rec_gone(n, m, 1), "destroyed exactly once");
    reach!(n == 3 && m == 3, "both");
}
//@ C11
fn c11_clone() {
    let n = nd::below(4);
    let b: VBox<Toks> = nd::vbox(SizedInit(n as u8, FillSequentially(|i| Tok(2 * i as u8))));
    let c = b.clone();
    vp!(alive(0) && alive(4), "cloning destroys nothing");
    drop(b);
    let mut i = 0;
    while i < 3 {
        vp!(drops(2 * i) == if (i as usize) < n { 1 } else { 0 } && drops(2 * i + 1) == 0, "the source is destroyed exactly once");
        i += 1;
    }
    drop(c);
    i = 0;
    while i < 3 {
        let d = if (i as usize) < n { 1 } else { 0 };
        vp!(drops(2 * i) == d && drops(2 * i + 1) == d, "source and clone are destroyed exactly once");
        i += 1;
    }
    reach!(n == 3, "three");
}
//@ C11
fn c11_move_from() {
    let b: VBox<Toks> = nd::vbox(SizedInit(3u8, MoveFrom([Tok(0), Tok(1), Tok(2)])));
    vp!(alive(0), "moved elements are not destroyed by the initializer");
    drop(b);
    vp!(gone(0, 3, 1), "destroyed exactly once");
    let a: [Tok; 3] = new_array(MoveFrom([Tok(4), Tok(5), Tok(6)]));
    vp!(alive(4), "moved elements are not destroyed by the initializer");
    vp!(a[0].0 == 4 && a[2].0 == 6, "contents");
    drop(a);
    vp!(gone(4, 3, 1), "destroyed exactly once");
    reach!("done");
}
//@ C11
fn c11_from_iter() {
    let (n, m) = (nd::below(4), nd::below(4));
    nd::assume(n <= m);
    struct Src { i: u8, m: u8 }
    impl Iterator for Src {
        type Item = Tok;
        fn next(&mut self) -> Option<Tok> {
            if self.i == self.m { return None }
            self.i += 1;
            Some(Tok(self.i - 1))
        }
    }
    let b: VBox<Toks> = nd::vbox(SizedInit(n as u8, FromIterPrefix(Src { i: 0, m: m as u8 })));
    vp!(alive(0), "consumed elements are not destroyed by the initializer");
    vp!(b.len() == n, "length");
    drop(b);
    vp!(gone(0, n, 1), "destroyed exactly once");
    reach!(n == 2 && m == 3, "prefix");
}
// The only part with a destructor, in every kind of owner.
//@ C11 bank=32 t=30
fn c11_only_plain() { only_plain(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_plain_deep() { only_plain(nd::below(9)) }
//@ C11 bank=32 t=30
fn c11_only_ctl() { only_ctl(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_ctl_deep() { only_ctl(nd::below(9)) }
//@ C11 bank=32 t=30
fn c11_only_nested() { only_nested(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_nested_deep() { only_nested(nd::below(9)) }
//@ C11 bank=32 t=30
fn c11_only_elems() { only_elems(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_elems_deep() { only_elems(nd::below(9)) }
//@ C11 bank=32 t=30
fn c11_only_seventh() { only_seventh(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_seventh_deep() { only_seventh(nd::below(9)) }
//@ C11 bank=32 t=30
fn c11_only_zero() { only_zero(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_zero_deep() { only_zero(nd::below(9)) }
//@ C11 bank=32 t=30
fn c11_only_fixed() { only_fixed(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_fixed_deep() { only_fixed(nd::below(9)) }
//@ C11 bank=32 t=60
fn c11_only_fixed_zero() { only_fixed_zero(nd::below(9)) }
//@ C11 bank=32 t=30
fn c11_only_array_zero() { only_array_zero(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_array_zero_deep() { only_array_zero(nd::below(9)) }
//@ C11 bank=32 t=30
fn c11_only_array_pairs() { only_array_pairs(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_array_pairs_deep() { only_array_pairs(nd::below(9)) }
//@ C11 bank=32 t=30
fn c11_only_array_maybe() { only_array_maybe(if nd::bool() { 1 } else { 6 }) }
//@ C11 bank=32 tier=thorough timeout=800
fn c11_only_array_maybe_deep() { only_array_maybe(nd::below(9)) }
//@ C11 bank=32 t=60
fn c11_only_blob() { only_blob(nd::below(9)) }
// A value whose construction is refused is destroyed with its initializer.
//@ C11
fn c11_unused_init() {
    let i = tup2::Init(FixedLen(Tok(0)), SizedInit(1u8, MoveFrom([Tok(1)])));
    let l = Initializer::<Tup2<FixedLen<Tok>, Toks>>::calculate_layout_cautious(&i);
    vp!(l.is_some() && alive(0), "asking for the layout destroys nothing");
    drop(i);
    vp!(gone(0, 2, 1), "an unused initializer still owns its values");
    reach!("done");
}
//@ C11 bank=56 tier=thorough timeout=800
fn c11_seq_take_deep() {
    let (n, m, k) = (nd::below(4), nd::below(4), nd::below(4));
    let mut s: Seq<Tup2<FixedLen<Tok>, Toks>> = Seq::new();
    s.push(tup2::Init(FixedLen(Tok(12)), toks(0, n)));
    s.push(tup2::Init(FixedLen(Tok(13)), toks(4, m)));
    s.push(tup2::Init(FixedLen(Tok(14)), toks(8, 1)));
    {
        let mut o = s.take_elems();
        let mut i = 0;
        while i < k { o.next(); i += 1; }
        vp!((drops(12) == 1) == (k > 0) && (drops(13) == 1) == (k > 1) && (drops(14) == 1) == (k > 2), "taken so far");
    }
    vp!(gone(0, n, 1) && gone(4, m, 1) && gone(8, 1, 1) && gone(12, 3, 1), "destroyed exactly once");
    drop(s);
    vp!(gone(0, n, 1) && gone(4, m, 1) && gone(8, 1, 1) && gone(12, 3, 1), "destroyed exactly once");
    reach!(n == 3 && m == 3 && k == 2, "all");
}

//@ C24 bank=76 cpy=34
fn c24_box_a2() { into_box::<Blob2>(34) }
//@ C24 bank=72 cpy=24
fn c24_tuple_a16() { into_tuple::<Blob16>(18) }
//@ C24 bank=100 cpy=18 t=40
fn c24_seq_a16() { into_seq::<Blob16, U>(18, 18) }
//@ C24 bank=100 cpy=18 t=40
fn c24_from_seq_a8() { from_seq::<Blob8, U>(9, 18) }
//@ C24 bank=100 cpy=18 t=40
fn c24_from_seq_a16_idx() { from_seq::<Blob16, X>(5, 18) }
//@ C24 bank=100 cpy=18 t=40
fn c24_seq_to_seq_a8() { seq_to_seq::<Blob8, U>(false, 3, 10) }
//@ C24 bank=40 cpy=34
fn c24_box_a1() { into_box::<Blob1>(34) }
//@ C24 bank=40 cpy=34
fn c24_box_a8() { into_box::<Blob8>(34) }
//@ C24 bank=48 cpy=20
fn c24_tuple_a1() { into_tuple::<Blob1>(20) }
//@ C24 bank=48 cpy=20
fn c24_tuple_a4() { into_tuple::<Blob4>(20) }
//@ C24 bank=64 cpy=14
fn c24_struct() {
    let (z, n) = (any_size::<Blob4>(14), nd::below(5));
    let x: [u16; 4] = nd::u16s();
    let b = blob::<Blob4>(1, z);
    let a: VBox<Array<u16, u8>> = nd::vbox(Array::try_copy(&x[..n]).unwrap());
    let c: VBox<Holder> = nd::vbox(holder::Init { id: 5, v: a, w: b });
    vp!(nd::live() == 1, "the sources' storage is released");
    let r = c.refs();
    still(r.w, 1, z);
    vp!(*r.id == 5 && r.v.len() == n, "fields");
    let k = nd::below(4);
    if k < n { vp!(r.v[k] == x[k], "contents"); }
    reach!(n == 4 && z == 14, "largest");
    core::mem::forget(c);
}
//@ C24 bank=40 cpy=14
fn c24_seq_a1() { into_seq::<Blob1, U>(12, 14) }
//@ C24 bank=48 cpy=14
fn c24_seq_a2_idx() { into_seq::<Blob2, X>(12, 14) }
//@ C24 bank=64 cpy=30
fn c24_seq_a8() { into_seq::<Blob8, U>(20, 30) }
//@ C24 bank=48 cpy=20
fn c24_from_seq_a1() { from_seq::<Blob1, U>(5, 20) }
//@ C24 bank=48 cpy=20
fn c24_from_seq_a4_idx() { from_seq::<Blob4, X>(6, 20) }
//@ C24 bank=36 cpy=8
fn c24_seq_to_seq_a1() { seq_to_seq::<Blob1, U>(false, 3, 8) }
//@ C24 bank=36 cpy=8
fn c24_seq_to_seq_a2_idx() { seq_to_seq::<Blob2, X>(false, 3, 8) }
//@ C24 bank=40 cpy=34
fn c24_owned_a1() { from_owned::<Blob1>(34) }
//@ C24 bank=40 cpy=34
fn c24_owned_a16() { from_owned::<Blob16>(34) }
//@ C24 bank=16 cpy=8
fn c24_array_u8() { array_moves::<u8, 7>(nd::bytes()) }
//@ C24 bank=16 cpy=16
fn c24_array_u16() { array_moves::<u16, 5>(nd::u16s()) }
//@ C24 bank=16 cpy=16
fn c24_owned_array_u32() { owned_array_moves::<u32, 3>(nd::u32s()) }
//@ C24 bank=16 cpy=8
fn c24_owned_array_u8() { owned_array_moves::<u8, 7>(nd::bytes()) }
//@ C24 bank=36 cpy=14 tier=thorough timeout=800
fn c24_seq_to_seq_a1_deep() { seq_to_seq::<Blob1, U>(true, 3, 10) }
//@ C24 bank=64 cpy=30 tier=thorough timeout=800
fn c24_seq_a1_deep() { into_seq::<Blob1, X>(12, 30) }
//@ C24 bank=64 cpy=34 tier=thorough timeout=800
fn c24_tuple_a8_deep() { into_tuple::<Blob8>(34) }

//@ C25
fn c25_box_a1() { zero_box::<Zst1>() }
//@ C25
fn c25_box_a8() { zero_box::<Zst8>() }
//@ C25 bank=32 t=40
fn c25_seq_a1() { zero_seq::<Zst1, U>(nd::below(3), 1) }
//@ C25 bank=40 t=40
fn c25_seq_a1_idx() { zero_seq::<Zst1, X>(2, 1) }
//@ C25 bank=32
fn c25_seq_a8() { zero_seq::<Zst8, U>(3, 2) }
//@ C25 bank=40
fn c25_seq_a8_idx() { zero_seq::<Zst8, X>(3, 1) }
//@ C25 bank=40
fn c25_seq_none() { zero_seq::<Zst8, U>(0, 0) }
//@ C25 bank=40
fn c25_seq_none_idx() { zero_seq::<Zst1, X>(0, 1) }
//@ C25 bank=32 tier=thorough timeout=800
fn c25_seq_a1_deep() { zero_seq::<Zst1, U>(nd::below(4), nd::below(3)) }
//@ C25 bank=72 unwind=7 tier=thorough timeout=800
fn c25_seq_a8_many_deep() { zero_seq::<Zst8, U>(6, 2) }
//@ C25 bank=80 unwind=7 tier=thorough timeout=800
fn c25_seq_a8_many_idx_deep() { zero_seq::<Zst8, X>(6, 2) }
//@ C25 bank=40
fn c25_seq_idx_offsets() {
    let mut s: IndexableSeq<FixedLen<Zst8>> = Seq::new();
    let n = nd::below(4);
    let mut i = 0;
    while i < n { s.push(FixedLen(Zst8)); i += 1; }
    let k = nd::usize();
    vp!(s.is_offset_valid(k) == (k < n), "an offset is valid exactly when an element starts there");
    if k < n {
        let p = at(s.from_offset(k));
        vp!(p % 8 == 0, "aligned");
        vp!(s.offset_of(s.from_offset(k)) == k, "offset identifies the element");
    }
    reach!(n == 3 && k == 2, "last");
    core::mem::forget(s);
}
//@ C25
fn c25_tuple() {
    let n = nd::below(3);
    let b: VBox<Tup4<FixedLen<Zst1>, Array<u8, u8>, FixedLen<Zst8>, FixedLen<u16>>> =
        nd::vbox(tup4::Init(FixedLen(Zst1), SizedInit(n as u8, FillSequentially(|i| i as u8)), FixedLen(Zst8), FixedLen(9u16)));
    let r = b.refs();
    vp!(at(r.2) % 8 == 0, "aligned");
    vp!(r.3.0 == 9 && r.1.len() == n, "neighbours");
    vp!(b.calculate_layout().size() == round_up(1 + n, 8) + 2, "a zero-size field takes no room");
    vp!(drops(15) == 0, "not destroyed");
    drop(b);
    vp!(drops(15) == 2, "each destroyed exactly once");
    reach!(n == 2, "done");
}
//@ C25
fn c25_empty_tuple() {
    let b: VBox<Tup2<FixedLen<Zst1>, FixedLen<Zst8>>> = VBox::new(tup2::Init(FixedLen(Zst1), FixedLen(Zst8)));
    vp!(b.calculate_layout().size() == 0 && nd::allocs() == 0, "nothing is requested from the allocator");
    drop(b);
    vp!(drops(15) == 2 && nd::live() == 0, "each destroyed exactly once");
    reach!("done");
}
//@ C25 bank=40
fn c25_empty_tuple_seq() {
    let n = nd::below(3);
    let mut s: Seq<Tup2<FixedLen<Zst1>, FixedLen<Zst8>>> = Seq::new();
    let mut i = 0;
    while i < n { s.push(tup2::Init(FixedLen(Zst1), FixedLen(Zst8))); i += 1; }
    vp!(s.iter().count() == n && s.len() == n && drops(15) == 0, "counted");
    drop(s);
    vp!(drops(15) as usize == 2 * n && nd::live() == 0, "each destroyed exactly once");
    reach!(n == 2, "two");
}
//@ C25
fn c25_array_elems() {
    let n = nd::below(4);
    let b: VBox<Array<Zst1, u8>> = nd::vbox(SizedInit(n as u8, FillSequentially(|_| Zst1)));
    vp!(b.len() == n && b.calculate_layout().size() == 1, "only the length takes room");
    vp!(drops(15) == 0, "not destroyed");
    drop(b);
    vp!(drops(15) as usize == n, "each destroyed exactly once");
    reach!(n == 3, "three");
}
//@ C25 bank=40
fn c25_moves() {
    let mut s: Seq<FixedLen<Zst8>> = Seq::new();
    s.push(FixedLen(Zst8));
    s.push(FixedLen(Zst8));
    let b: VBox<FixedLen<Zst8>> = VBox::new(FixedLen(Zst8));
    s.push(b);
    vp!(drops(15) == 0 && s.len() == 3, "moving destroys nothing");
    let mut t: IndexableSeq<FixedLen<Zst8>> = Seq::new();
    let k = nd::below(3);
    {
        let mut o = s.take_elems();
        let mut i = 0;
        while i < k { t.push(o.next().unwrap()); i += 1; }
    }
    vp!(t.len() == k && drops(15) as usize == 3 - k, "moved elements are not destroyed");
    drop(s);
    drop(t);
    vp!(drops(15) == 3 && nd::live() == 0, "each destroyed exactly once");
    reach!(k == 2, "two");
}
}
