//! C13 strings, C14 length types, C15 array initializers.
use crate::nd;
use crate::vt::*;
use core::mem::MaybeUninit;
use core::pin::Pin;
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::ArrayInitializer;
use varlen::prelude::*;
use varlen::tuple::*;
use varlen::{Initializer, Layout};

fn at<T: ?Sized>(r: &T) -> usize {
    r as *const T as *const u8 as usize
}

// ---- C13
/// Any valid text of up to two characters, in the first bytes of the buffer.
fn text(buf: &mut [u8; 8]) -> usize {
    let (a, b, k) = (nd::u32(), nd::u32(), nd::below(3));
    let mut n = 0;
    if k > 0 {
        let c = char::from_u32(a);
        nd::assume(c.is_some());
        n = put(buf, 0, a);
    }
    if k > 1 {
        let c = char::from_u32(b);
        nd::assume(c.is_some());
        n = put(buf, n, b);
    }
    n
}
fn put(buf: &mut [u8; 8], at: usize, c: u32) -> usize {
    let cont = |x: u32| 0x80 | (x & 0x3f) as u8;
    if c < 0x80 {
        buf[at] = c as u8;
        at + 1
    } else if c < 0x800 {
        buf[at] = 0xc0 | (c >> 6) as u8;
        buf[at + 1] = cont(c);
        at + 2
    } else if c < 0x10000 {
        buf[at] = 0xe0 | (c >> 12) as u8;
        buf[at + 1] = cont(c >> 6);
        buf[at + 2] = cont(c);
        at + 3
    } else {
        buf[at] = 0xf0 | (c >> 18) as u8;
        buf[at + 1] = cont(c >> 12);
        buf[at + 2] = cont(c >> 6);
        buf[at + 3] = cont(c);
        at + 4
    }
}
fn str_of(b: &[u8]) -> &str {
    #[cfg(not(kani))]
    assert!(core::str::from_utf8(b).is_ok());
    unsafe { core::str::from_utf8_unchecked(b) }
}
/// Is this exactly the source text?
fn same(s: &str, src: &[u8; 8], n: usize) -> bool {
    let k = nd::below(8);
    s.len() == n && (k >= n || s.as_bytes()[k] == src[k])
}
fn holds<L: ArrayLen>() {
    let mut buf = [0u8; 8];
    let n = text(&mut buf);
    let b: VBox<Str<L>> = nd::vbox(Str::<L>::try_copy(str_of(&buf[..n])).unwrap());
    vp!(same(&b, &buf, n), "the string has the bytes and length of its source");
    vp!(b.is_empty() == (n == 0), "empty exactly when the source is");
    vp!(b.calculate_layout().size() == core::mem::size_of::<L>() + n, "size");
    reach!(n == 8, "two four-byte characters");
    reach!(n == 0, "empty");
    core::mem::forget(b);
}
/// A text of n bytes, none of which is looked at.
fn long(n: usize) -> &'static str {
    // (Not built with the checked constructor: the solver's memory holds no block that large.)
    #[cfg(kani)]
    unsafe {
        core::mem::transmute::<[usize; 2], &str>([1, n])
    }
    #[cfg(not(kani))]
    unsafe {
        let p = std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align(n.max(1), 1).unwrap());
        assert!(!p.is_null());
        core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n))
    }
}
fn refused<L: ArrayLen>(max: u64, limit: usize) {
    let n = nd::usize();
    nd::assume(n <= limit);
    let i = Str::<L>::try_copy(long(n));
    vp!(i.is_some() == (n as u64 <= max), "refused exactly when the length does not fit the length type");
    reach!(n as u64 <= max, "fits");
    if let Some(i) = i {
        let l = i.calculate_layout_cautious();
        vp!(l.is_some() && l.unwrap().size() == core::mem::size_of::<L>() + n, "room for the whole text is reserved");
    }
}

// ---- C14
fn exact<L: ArrayLen>(max: u64) {
    let x = nd::usize();
    match L::from_usize(x) {
        Some(l) => {
            vp!(x as u64 <= max, "only lengths the type can represent are accepted");
            vp!(l.as_usize() == x, "an accepted length converts back to itself");
        }
        None => vp!(x as u64 > max, "every length the type can represent is accepted"),
    }
    reach!(x as u64 == max, "largest");
    reach!(x == 0, "zero");
}
fn unit_slice(n: usize) -> &'static [()] {
    unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), n) }
}
fn unit_arrays<L: ArrayLen>(max: u64) {
    let n = nd::usize();
    let i = Array::<(), L>::try_copy(unit_slice(n));
    let j = Array::<(), L>::try_clone_from_slice(unit_slice(n));
    vp!(i.is_some() == (n as u64 <= max), "copying succeeds exactly when the number of elements is representable");
    vp!(j.is_some() == (n as u64 <= max), "cloning succeeds exactly when the number of elements is representable");
    if let Some(j) = j {
        vp!(j.0.as_usize() == n, "the initializer records the number of elements");
    }
    if let Some(i) = i {
        let b: VBox<Array<(), L>> = nd::vbox(i);
        vp!(b.len_short().as_usize() == n, "short length is the number of elements");
        vp!(b.len() == n && b[..].len() == n, "slice length is the number of elements");
        vp!(b.is_empty() == (n == 0), "empty exactly when there are none");
        let mut b = b;
        vp!(b.as_mut().mut_slice().len() == n, "mutable slice length is the number of elements");
        vp!(b.iter().len() == n, "iterator length is the number of elements");
        core::mem::forget(b);
    }
    reach!(n as u64 == max, "largest");
}
static ZEROS: [u8; 300] = [0; 300];
fn byte_arrays<L: ArrayLen>(max: usize) {
    let n = nd::range(0, 300);
    let i = Array::<u8, L>::try_copy(&ZEROS[..n]);
    vp!(i.is_some() == (n <= max), "copying succeeds exactly when the number of elements is representable");
    if let Some(i) = i {
        let l = i.calculate_layout_cautious();
        vp!(l.is_some() && l.unwrap().size() == core::mem::size_of::<L>() + n, "room for every element");
    }
    let j = Array::<u8, L>::try_clone_from_slice(&ZEROS[..n]);
    vp!(j.is_some() == (n <= max), "cloning succeeds exactly when the number of elements is representable");
    reach!(n == 256, "just too long");
}

// ---- C15
const N: usize = 4;
type Slots = [MaybeUninit<u16>; N + 2];
/// Runs an initializer on slots lo..lo+n of a larger array; returns the array before and after.
fn run(init: impl ArrayInitializer<u16>, lo: usize, n: usize) -> ([u16; N + 2], [u16; N + 2]) {
    let mut old = [0u16; N + 2];
    let mut i = 0;
    while i < N + 2 {
        old[i] = nd::u16();
        i += 1;
    }
    let mut slots: Slots = unsafe { core::mem::transmute(old) };
    init.initialize(&mut slots[lo..lo + n]);
    (old, unsafe { core::mem::transmute(slots) })
}
fn slots_are(old: [u16; N + 2], new: [u16; N + 2], lo: usize, n: usize, want: impl Fn(usize) -> u16) {
    let k = nd::below(N + 2);
    if k >= lo && k < lo + n {
        vp!(new[k] == want(k - lo), "each slot holds the value its initializer names for it");
    } else {
        vp!(new[k] == old[k], "no other slot is written");
    }
}
fn place() -> (usize, usize) {
    let (lo, n) = (nd::below(2), nd::below(N + 1));
    (lo, n)
}
/// Yields 100, 101, ...: `left` of them; counts how often it is asked.
struct Src<'a> {
    i: u16,
    left: usize,
    asked: &'a mut usize,
}
impl Iterator for Src<'_> {
    type Item = u16;
    fn next(&mut self) -> Option<u16> {
        *self.asked += 1;
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.i += 1;
        Some(99 + self.i)
    }
}
#[derive(PartialEq)]
struct D(u8);
impl Default for D {
    fn default() -> D {
        D(77)
    }
}
/// Clones to its value plus a mark; cloning is counted, in order.
static mut CLONES: u8 = 0;
struct C(u8);
impl Clone for C {
    fn clone(&self) -> C {
        unsafe {
            CLONES += 1;
            C(self.0.wrapping_add(CLONES))
        }
    }
}

harnesses! {
//@ C13 cpy=9 unwind=10
fn c13_holds_u8() { holds::<u8>() }
//@ C13 cpy=9 unwind=10
fn c13_holds_u16() { holds::<u16>() }
//@ C13 cpy=9 unwind=10
fn c13_holds_u32() { holds::<u32>() }
//@ C13 cpy=9 unwind=10
fn c13_holds_usize() { holds::<usize>() }
//@ C13 cpy=9 unwind=10
fn c13_copy() {
    let mut buf = [0u8; 8];
    let n = text(&mut buf);
    let b: VBox<Str> = nd::vbox(Str::copy(str_of(&buf[..n])));
    vp!(same(&b, &buf, n), "the string has the bytes and length of its source");
    reach!(n == 8, "longest");
    core::mem::forget(b);
}
//@ C13
fn c13_refused_u8() { refused::<u8>(u8::MAX as u64, 1 << 33) }
//@ C13
fn c13_refused_u16() { refused::<u16>(u16::MAX as u64, 1 << 33) }
//@ C13
fn c13_refused_u32() { refused::<u32>(u32::MAX as u64, 1 << 33) }
//@ C13
fn c13_refused_u64() { refused::<u64>(u64::MAX, 1 << 33) }
//@ C13
fn c13_refused_usize() { refused::<usize>(u64::MAX, 1 << 33) }
//@ C13 bank=264 cpy=260 unwind=6
fn c13_longest_u8() {
    let mut t = [b'a'; 256];
    let (k, c) = (nd::u8() as usize, nd::u8());
    nd::assume(c < 128);
    t[k] = c;
    vp!(Str::<u8>::try_copy(str_of(&t[..])).is_none(), "256 bytes do not fit");
    let b: VBox<Str<u8>> = nd::vbox(Str::<u8>::try_copy(str_of(&t[..255])).unwrap());
    vp!(b.len() == 255, "the longest string keeps its length");
    if k < 255 { vp!(b.as_bytes()[k] == c, "and contents"); }
    reach!(k == 254, "last byte");
    core::mem::forget(b);
}
//@ C13 bank=24 cpy=8 unwind=8
fn c13_mutation() {
    let n = nd::below(7);
    let (x, y) = (nd::u8(), nd::u32());
    let src: [u8; 6] = *b"vArLen";
    let mut b: VBox<Tup3<FixedLen<u8>, Str<u8>, FixedLen<u32>>> =
        nd::vbox(tup3::Init(FixedLen(x), Str::<u8>::try_copy(str_of(&src[..n])).unwrap(), FixedLen(y)));
    let a = at(&b.refs().1[..]);
    let (k, c) = (nd::below(7), nd::u8());
    nd::assume(c < 128);
    {
        let m = b.as_mut().muts().1.mut_slice();
        vp!(m.len() == n && at(&*m) == a, "mutable and shared text are the same place and length");
        if k < n { unsafe { m.as_bytes_mut()[k] = c; } }
    }
    let r = b.refs();
    vp!(r.0.0 == x && r.2.0 == y, "neighbours are untouched");
    vp!(r.1.len() == n, "mutation keeps the length");
    let j = nd::below(6);
    if j < n { vp!(r.1.as_bytes()[j] == if j == k { c } else { src[j] }, "only the chosen byte changed"); }
    reach!(n == 6 && k == 5, "last byte");
    core::mem::forget(b);
}
//@ C13 bank=24 cpy=8 unwind=8
fn c13_upper() {
    let n = nd::below(7);
    let src: [u8; 6] = *b"vArLen";
    let mut b: VBox<Str<u16>> = nd::vbox(Str::<u16>::try_copy(str_of(&src[..n])).unwrap());
    b.as_mut().mut_slice().make_ascii_uppercase();
    vp!(b.len() == n, "mutation keeps the length");
    let j = nd::below(6);
    if j < n { vp!(b.as_bytes()[j] == src[j].to_ascii_uppercase(), "every byte was mutated"); }
    reach!(n == 6, "longest");
    core::mem::forget(b);
}
//@ C13 bank=24 cpy=8
fn c13_clone() {
    let n = nd::below(7);
    let src: [u8; 6] = *b"vArLen";
    let b: VBox<Str<u16>> = nd::vbox(Str::<u16>::try_copy(str_of(&src[..n])).unwrap());
    let c: VBox<Str<u16>> = if nd::bool() { nd::vbox(b.vclone()) } else { nd::vbox(b.vcopy()) };
    vp!(c.len() == n, "a clone has the same length");
    let j = nd::below(6);
    if j < n { vp!(c.as_bytes()[j] == src[j], "and the same bytes"); }
    reach!(n == 6, "longest");
    core::mem::forget((b, c));
}

//@ C14
fn c14_u8() { exact::<u8>(u8::MAX as u64) }
//@ C14
fn c14_u16() { exact::<u16>(u16::MAX as u64) }
//@ C14
fn c14_u32() { exact::<u32>(u32::MAX as u64) }
//@ C14
fn c14_u64() { exact::<u64>(u64::MAX) }
//@ C14
fn c14_usize() { exact::<usize>(u64::MAX) }
//@ C14
fn c14_back() {
    let (a, b, c, d, e) = (nd::u8(), nd::u16(), nd::u32(), nd::u64(), nd::usize());
    vp!(a.as_usize() == a as usize && u8::from_usize(a as usize) == Some(a), "u8 lengths");
    vp!(b.as_usize() == b as usize && u16::from_usize(b as usize) == Some(b), "u16 lengths");
    vp!(c.as_usize() == c as usize && u32::from_usize(c as usize) == Some(c), "u32 lengths");
    vp!(d.as_usize() == d as usize && u64::from_usize(d as usize) == Some(d), "u64 lengths");
    vp!(e.as_usize() == e && usize::from_usize(e) == Some(e), "usize lengths");
    reach!("done");
}
//@ C14 cpy=8
fn c14_units_u8() { unit_arrays::<u8>(u8::MAX as u64) }
//@ C14 cpy=8
fn c14_units_u16() { unit_arrays::<u16>(u16::MAX as u64) }
//@ C14 cpy=8
fn c14_units_u32() { unit_arrays::<u32>(u32::MAX as u64) }
//@ C14 cpy=8
fn c14_units_u64() { unit_arrays::<u64>(u64::MAX) }
//@ C14 cpy=8
fn c14_units_usize() { unit_arrays::<usize>(u64::MAX) }
//@ C14 cpy=8
fn c14_bytes_u8() { byte_arrays::<u8>(255) }
//@ C14 cpy=8
fn c14_bytes_u16() { byte_arrays::<u16>(65535) }
//@ C14 cpy=8
fn c14_copy() {
    let n = nd::usize();
    let i = Array::<()>::copy(unit_slice(n));
    vp!(i.0 == n, "copying records the number of elements");
    let j = Array::<()>::clone_from_slice(unit_slice(n));
    vp!(j.0 == n, "cloning records the number of elements");
    reach!(n == usize::MAX, "largest");
}
//@ C14 bank=264 cpy=260
fn c14_longest_u8() {
    let mut t = [0u8; 256];
    let k = nd::u8() as usize;
    t[k] = 9;
    let b: VBox<Array<u8, u8>> = nd::vbox(Array::try_copy(&t[..255]).unwrap());
    vp!(b.len() == 255 && b.len_short() == 255, "the longest array keeps its length");
    if k < 255 { vp!(b[k] == 9, "and contents"); }
    reach!(k == 254, "last");
    core::mem::forget(b);
}
//@ C14 bank=264 cpy=260 unwind=260 tier=thorough timeout=800
fn c14_longest_clone_u8() {
    let b: VBox<Array<u8, u8>> = nd::vbox(Array::try_copy(&ZEROS[..255]).unwrap());
    let c: VBox<Array<u8, u8>> = nd::vbox(b.vclone());
    vp!(c.len() == 255, "so does its clone");
    reach!("done");
    core::mem::forget((b, c));
}

//@ C15 unwind=7 cpy=14
fn c15_iter() {
    let ((lo, n), extra, mut asked) = (place(), nd::below(3), 0);
    let (old, new) = run(FromIterPrefix(Src { i: 0, left: n + extra, asked: &mut asked }), lo, n);
    slots_are(old, new, lo, n, |i| 100 + i as u16);
    vp!(asked == n, "the iterator is advanced by exactly the number of slots");
    reach!(n == N && extra == 2 && lo == 1, "all");
}
//@ C15 unwind=7 cpy=14 panic=ok
fn c15_iter_short() {
    let ((lo, n), left, mut asked) = (place(), nd::below(N), 0);
    nd::assume(left < n);
    reach!("asked");
    run(FromIterPrefix(Src { i: 0, left, asked: &mut asked }), lo, n);
    unreachable_vp!("an iterator with too few items panics");
}
//@ C15 unwind=7 cpy=14
fn c15_fill() {
    let ((lo, n), mut calls) = (place(), 0usize);
    let (old, new) = run(FillSequentially(|i| { calls += 1; 10 * i as u16 + calls as u16 }), lo, n);
    slots_are(old, new, lo, n, |i| 10 * i as u16 + i as u16 + 1);
    vp!(calls == n, "the function is called once per slot");
    reach!(n == N && lo == 1, "all");
}
//@ C15 unwind=7 cpy=14
fn c15_default() {
    let (lo, n) = place();
    let (old, new) = run(FillWithDefault, lo, n);
    slots_are(old, new, lo, n, |_| 0);
    reach!(n == N && lo == 1, "all");
}
//@ C15 unwind=7 cpy=14
fn c15_copy() {
    let (lo, n) = place();
    let (src, off) = (nd::u16s::<{ N + 1 }>(), nd::below(2));
    let (old, new) = run(CopyFrom(&src[off..off + n]), lo, n);
    slots_are(old, new, lo, n, |i| src[off + i]);
    reach!(n == N && lo == 1 && off == 1, "all");
}
//@ C15 unwind=7 cpy=14 panic=ok
fn c15_copy_mismatch() {
    let ((lo, n), m) = (place(), nd::below(N + 2));
    nd::assume(n != m);
    let src = [1u16; N + 1];
    reach!(m > n, "longer");
    reach!(m < n, "shorter");
    reach!(m == 0, "empty");
    run(CopyFrom(&src[..m]), lo, n);
    unreachable_vp!("copying from a source of a different length panics");
}
//@ C15 unwind=7 cpy=14
fn c15_clone() {
    let (lo, n) = place();
    let (src, off) = (nd::u16s::<{ N + 1 }>(), nd::below(2));
    let (old, new) = run(CloneFrom(&src[off..off + n]), lo, n);
    slots_are(old, new, lo, n, |i| src[off + i]);
    reach!(n == N && lo == 1 && off == 1, "all");
}
//@ C15 unwind=7 cpy=14 panic=ok
fn c15_clone_mismatch() {
    let ((lo, n), m) = (place(), nd::below(N + 2));
    nd::assume(n != m);
    let src = [1u16; N + 1];
    reach!(m > n, "longer");
    reach!(m < n, "shorter");
    run(CloneFrom(&src[..m]), lo, n);
    unreachable_vp!("cloning from a source of a different length panics");
}
//@ C15 unwind=7 cpy=14
fn c15_clone_calls() {
    let n = nd::below(N + 1);
    let src: [C; N] = [C(10), C(20), C(30), C(40)];
    let b: VBox<Array<C, u8>> = nd::vbox(Array::try_clone_from_slice(&src[..n]).unwrap());
    vp!(b.len() == n, "length");
    vp!(unsafe { CLONES } as usize == n, "each element is cloned once");
    let k = nd::below(N);
    if k < n { vp!(b[k].0 as usize == 10 * (k + 1) + k + 1, "in order"); }
    reach!(n == N, "all");
    core::mem::forget(b);
}
//@ C15 unwind=7 cpy=14
fn c15_move() {
    let lo = nd::below(2);
    let src: [u16; N] = nd::u16s();
    let (old, new) = run(MoveFrom(src), lo, N);
    slots_are(old, new, lo, N, |i| src[i]);
    reach!(lo == 1, "done");
}
//@ C15 unwind=7 cpy=14 panic=ok
fn c15_move_mismatch() {
    let (lo, n) = place();
    if nd::bool() {
        nd::assume(n != N);
        reach!(n < N, "shorter");
        run(MoveFrom([5u16; N]), lo, n);
    } else {
        nd::assume(n != N - 1);
        reach!(n == N, "longer");
        run(MoveFrom([5u16; N - 1]), lo, n);
    }
    unreachable_vp!("moving from an array of a different length panics");
}
//@ C15 unwind=7 cpy=14
fn c15_new_array() {
    let mut asked = 0;
    let k = nd::below(N);
    let x: [u16; N] = nd::u16s();
    let a: [u16; N] = new_array(FromIterPrefix(Src { i: 0, left: 9, asked: &mut asked }));
    vp!(a[k] == 100 + k as u16 && asked == N, "from an iterator");
    let b: [u16; N] = new_array(FillSequentially(|i| x[i]));
    vp!(b[k] == x[k], "from a function");
    let c: [D; N] = new_array(FillWithDefault);
    vp!(c[k].0 == 77, "defaults");
    let d: [u16; N] = new_array(CopyFrom(&x));
    vp!(d[k] == x[k], "copied");
    let e: [u16; N] = new_array(CloneFrom(&x));
    vp!(e[k] == x[k], "cloned");
    let f: [u16; N] = new_array(MoveFrom(x));
    vp!(f[k] == x[k], "moved");
    let g: [u16; 0] = new_array(FillWithDefault);
    vp!(g.len() == 0, "empty");
    reach!(k == N - 1, "last");
}
//@ C15 unwind=7 cpy=14
fn c15_array_iter() {
    let (n, extra, mut asked) = (nd::below(N + 1), nd::below(3), 0);
    let b: VBox<Array<u16, u8>> = nd::vbox(SizedInit(n as u8, FromIterPrefix(Src { i: 0, left: n + extra, asked: &mut asked })));
    let k = nd::below(N);
    vp!(b.len() == n && asked == n, "the iterator is advanced by exactly the number of slots");
    if k < n { vp!(b[k] == 100 + k as u16, "contents"); }
    reach!(n == N && extra == 2, "all");
    core::mem::forget(b);
}
//@ C15 unwind=7 cpy=14
fn c15_array_default() {
    let n = nd::below(N + 1);
    let b: VBox<Array<D, u16>> = nd::vbox(SizedInit(n as u16, FillWithDefault));
    let k = nd::below(N);
    if k < n { vp!(b[k].0 == 77, "contents"); }
    vp!(b.len() == n, "length");
    reach!(n == N, "all");
    core::mem::forget(b);
}
//@ C15 unwind=7 cpy=14 panic=ok
fn c15_array_mismatch() {
    let (n, m) = (nd::below(N + 1), nd::below(N + 2));
    nd::assume(n != m);
    let src = [3u16; N + 1];
    reach!(m > n, "longer");
    match nd::below(3) {
        0 => { let _ = nd::vbox::<Array<u16, u8>>(SizedInit(n as u8, CopyFrom(&src[..m]))); }
        1 => { let _ = nd::vbox::<Array<u16, u8>>(SizedInit(n as u8, CloneFrom(&src[..m]))); }
        _ => { nd::assume(n != 2); let _ = nd::vbox::<Array<u16, u8>>(SizedInit(n as u8, MoveFrom([1u16, 2]))); }
    }
    unreachable_vp!("an array initialized from a source of a different length panics");
}
//@ C15 unwind=12
fn c15_toks() {
    let mut slots = [const { MaybeUninit::<Tok>::uninit() }; 4];
    let n = nd::below(4);
    FillSequentially(|i| Tok(i as u8)).initialize(&mut slots[..n]);
    MoveFrom([Tok(9)]).initialize(&mut slots[3..]);
    let mut i = 0;
    while i < 10 { vp!(drops(i) == 0, "slots are written, not assigned"); i += 1; }
    reach!(n == 3, "done");
}
}
