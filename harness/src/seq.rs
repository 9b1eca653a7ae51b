//! C06 C07 C08 C09 C19 C22: histories of sequences of variable-size elements.
use crate::nd;
use crate::vt::*;
use core::pin::Pin;
use varlen::array::SizedInit;
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, IndexableSeq, Indexing, Seq, UncheckedIndexing};
use varlen::tuple::*;
use varlen::Layout;

type U = UncheckedIndexing;
type X = CheckedIndexing;

fn at<T>(r: &T) -> usize {
    r as *const T as usize
}
/// Offsets taken by an element of this size.
fn units<T: Blob>(size: usize) -> usize {
    (size + T::ALIGN - 1) / T::ALIGN
}

/// Iterates `s`, expecting exactly the elements `(id, size)`.
fn expect<T: Blob, I: Indexing>(s: &Seq<T, I>, want: &[(u8, usize)]) {
    vp!(s.len() == want.len(), "length is the number of elements pushed");
    let mut it = s.iter();
    let mut i = 0;
    while i < want.len() {
        match it.next() {
            None => vp!(false, "iteration ends early"),
            Some(e) => vp!(e.is(want[i].0, want[i].1), "iteration yields the pushed element"),
        }
        i += 1;
    }
    vp!(it.next().is_none(), "iteration yields nothing beyond the pushed elements");
}
/// The same through mutable iteration; sets the id of element `hit` to `id`.
fn mutate<T: Blob, I: Indexing>(s: &mut Seq<T, I>, want: &[(u8, usize)], hit: usize, id: u8) {
    let mut it = s.iter_mut();
    let mut i = 0;
    while i < want.len() {
        match it.next() {
            None => vp!(false, "mutable iteration ends early"),
            Some(e) => {
                vp!(e.is(want[i].0, want[i].1), "mutable iteration yields the pushed element");
                if i == hit {
                    e.set_id(id);
                }
            }
        }
        i += 1;
    }
    vp!(it.next().is_none(), "mutable iteration yields nothing beyond the pushed elements");
}

// ---- C06 ----
fn list_two<T: Blob, I: Indexing>(max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let (z0, z1) = (any_size::<T>(max), any_size::<T>(max));
    s.push(T::of(1, z0));
    vp!(s.len() == 1, "length is the number of elements pushed");
    s.push(T::of(2, z1));
    expect(&s, &[(1, z0), (2, z1)]);
    reach!(nd::allocs() == 1, "no growth");
    reach!(nd::allocs() == 2, "growth");
    core::mem::forget(s);
}
fn list_mut<T: Blob, I: Indexing>(max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let (z0, z1, h) = (any_size::<T>(max), any_size::<T>(max), nd::below(3));
    s.push(T::of(1, z0));
    s.push(T::of(2, z1));
    mutate(&mut s, &[(1, z0), (2, z1)], h, 9);
    expect(&s, &[(if h == 0 { 9 } else { 1 }, z0), (if h == 1 { 9 } else { 2 }, z1)]);
    reach!(h == 1, "second element mutated");
    core::mem::forget(s);
}
/// A first element of fixed size, then two of any size.
fn list_more<T: Blob, I: Indexing>(c: usize, max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let (z0, z1) = (any_size::<T>(max), any_size::<T>(max));
    s.push(T::of(3, c));
    s.push(T::of(1, z0));
    s.push(T::of(2, z1));
    expect(&s, &[(3, c), (1, z0), (2, z1)]);
    reach!(nd::allocs() > 1, "growth");
    core::mem::forget(s);
}
/// Fixed sizes: many elements, several growths; one of the sizes is arbitrary.
fn list_many<T: Blob, I: Indexing, const N: usize>(c: usize, at: usize, max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let z = any_size::<T>(max);
    let mut want = [(0u8, 0usize); N];
    let mut i = 0;
    while i < N {
        want[i] = (i as u8 + 1, if i == at { z } else { c });
        s.push(T::of(want[i].0, want[i].1));
        i += 1;
    }
    expect(&s, &want);
    reach!(nd::allocs() > 1, "growth");
    core::mem::forget(s);
}
fn list_three<T: Blob, I: Indexing>(max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let (z0, z1, z2) = (any_size::<T>(max), any_size::<T>(max), any_size::<T>(max));
    s.push(T::of(1, z0));
    s.push(T::of(2, z1));
    s.push(T::of(3, z2));
    expect(&s, &[(1, z0), (2, z1), (3, z2)]);
    reach!(nd::allocs() == 1, "no growth");
    reach!(nd::allocs() == 3, "two growths");
    core::mem::forget(s);
}
/// Elements pushed, taken (some of them looked at), and others pushed.
fn list_take<T: Blob, I: Indexing>(c: usize, max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    s.push(T::of(1, c));
    s.push(T::of(2, c));
    {
        let mut o = s.take_elems();
        if nd::bool() {
            vp!(o.next().unwrap().is(1, c), "taking yields the elements in order");
        }
    }
    expect(&s, &[]);
    let (z0, z1) = (any_size::<T>(max), any_size::<T>(max));
    s.push(T::of(3, z0));
    s.push(T::of(4, z1));
    expect(&s, &[(3, z0), (4, z1)]);
    reach!(nd::allocs() > 1, "growth after the take");
    core::mem::forget(s);
}
fn list_take_sym<T: Blob, I: Indexing>(c: usize, max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let z = any_size::<T>(max);
    s.push(T::of(1, z));
    drop(s.take_elems());
    expect(&s, &[]);
    s.push(T::of(3, c));
    s.push(T::of(4, c));
    expect(&s, &[(3, c), (4, c)]);
    core::mem::forget(s.take_elems());
    expect(&s, &[]);
    reach!("done");
    core::mem::forget(s);
}

// ---- C07 ----
/// Validity of an arbitrary offset, and checked access through it.
fn index<T: Blob>(s: &mut IndexableSeq<T>, starts: &[usize], want: &[(u8, usize)]) {
    let k = nd::usize();
    let mut hit = usize::MAX;
    let mut i = 0;
    while i < starts.len() {
        if starts[i] == k {
            hit = i;
        }
        i += 1;
    }
    vp!(s.is_offset_valid(k) == (hit != usize::MAX), "an offset is valid exactly when an element starts there");
    i = 0;
    while i < starts.len() {
        if hit == i {
            vp!(s.from_offset(k).is(want[i].0, want[i].1), "checked access returns the element that starts there");
            vp!(s.from_offset_mut(k).is(want[i].0, want[i].1), "mutable checked access returns the element that starts there");
        }
        i += 1;
    }
    reach!(starts.len() == 0 || hit == starts.len() - 1, "last element");
    reach!(hit == usize::MAX && k > 1 << 60, "far away");
}
fn index_two<T: Blob>(max: usize) {
    let mut s: IndexableSeq<T> = Seq::new();
    let (z0, z1) = (any_size::<T>(max), any_size::<T>(max));
    s.push(T::of(1, z0));
    s.push(T::of(2, z1));
    index(&mut s, &[0, units::<T>(z0)], &[(1, z0), (2, z1)]);
    reach!(nd::allocs() == 2, "growth");
    core::mem::forget(s);
}
fn index_one<T: Blob>(max: usize) {
    let mut s: IndexableSeq<T> = Seq::new_indexable();
    let z0 = any_size::<T>(max);
    index(&mut s, &[], &[]);
    s.push(T::of(1, z0));
    index(&mut s, &[0], &[(1, z0)]);
    core::mem::forget(s);
}
fn index_more<T: Blob>(c: usize, max: usize) {
    let mut s: IndexableSeq<T> = Seq::new();
    let (z0, z1) = (any_size::<T>(max), any_size::<T>(max));
    s.push(T::of(3, c));
    s.push(T::of(1, z0));
    s.push(T::of(2, z1));
    let a = units::<T>(c);
    let b = a + units::<T>(z0);
    index(&mut s, &[0, a, b], &[(3, c), (1, z0), (2, z1)]);
    reach!(nd::allocs() > 1, "growth");
    core::mem::forget(s);
}
/// `n` elements of fixed size c, then one of any size, then validity of any offset.
fn index_many<T: Blob, const N: usize>(c: usize, max: usize) {
    let mut s: IndexableSeq<T> = Seq::new();
    let u = units::<T>(c);
    let mut starts = [0; N];
    let mut want = [(0u8, 0usize); N];
    let z = any_size::<T>(max);
    let mut i = 0;
    while i < N {
        starts[i] = i * u;
        want[i] = (i as u8 + 1, if i == N - 1 { z } else { c });
        s.push(T::of(want[i].0, want[i].1));
        i += 1;
    }
    index(&mut s, &starts, &want);
    core::mem::forget(s);
}
fn index_take<T: Blob>(c: usize, max: usize) {
    let mut s: IndexableSeq<T> = Seq::new();
    s.push(T::of(1, c));
    s.push(T::of(2, c));
    s.push(T::of(3, c));
    {
        let mut o = s.take_elems();
        if nd::bool() {
            o.next();
        }
    }
    index(&mut s, &[], &[]);
    let (z0, z1) = (any_size::<T>(max), any_size::<T>(max));
    s.push(T::of(3, z0));
    s.push(T::of(4, z1));
    index(&mut s, &[0, units::<T>(z0)], &[(3, z0), (4, z1)]);
    core::mem::forget(s);
}
fn index_take_sym<T: Blob>(c: usize, max: usize) {
    let mut s: IndexableSeq<T> = Seq::new();
    let (z0, z1) = (any_size::<T>(max), any_size::<T>(max));
    s.push(T::of(1, z0));
    s.push(T::of(2, z1));
    drop(s.take_elems());
    index(&mut s, &[], &[]);
    s.push(T::of(3, c));
    index(&mut s, &[0], &[(3, c)]);
    core::mem::forget(s);
}
/// Checked access to anything but the start of an element panics.
fn index_bad<T: Blob>(c: usize, max: usize, mutable: bool) {
    let mut s: IndexableSeq<T> = Seq::new();
    let z0 = any_size::<T>(max);
    s.push(T::of(1, c));
    s.push(T::of(2, z0));
    let k = nd::usize();
    nd::assume(k != 0 && k != units::<T>(c));
    reach!(k < units::<T>(c), "inside an element");
    reach!(k > 1 << 62, "far away");
    if mutable {
        let _ = s.from_offset_mut(k);
    } else {
        let _ = s.from_offset(k);
    }
    unreachable_vp!("checked access to an invalid offset panics");
}

// ---- C08 ----
fn offsets<T: Blob, I: Indexing>(c: usize, max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let (z0, z1) = (any_size::<T>(max), any_size::<T>(max));
    let o0 = s.offset();
    s.push(T::of(1, c));
    let o1 = s.offset();
    s.push(T::of(2, z0));
    let o2 = s.offset();
    let same = |s: &mut Seq<T, I>, o: usize, i: usize| unsafe {
        let mut it = s.iter();
        let mut j = 0;
        while j < i {
            it.next();
            j += 1;
        }
        let e = it.next().unwrap();
        let p = at(e);
        vp!(s.offset_of(e) == o, "an element's offset is the sequence's offset before it was pushed");
        vp!(at(s.from_offset_unchecked(o)) == p, "looking an offset up returns the element");
        vp!(at(&*s.from_offset_unchecked_mut(o)) == p, "looking an offset up mutably returns the element");
    };
    same(&mut s, o1, 1);
    s.push(T::of(3, z1));
    let o3 = s.offset();
    same(&mut s, o0, 0);
    same(&mut s, o1, 1);
    same(&mut s, o2, 2);
    vp!(o0 < o1 && o1 < o2 && o2 < o3, "offsets of distinct elements are distinct and below the sequence's offset");
    reach!(nd::allocs() > 1, "growth");
    core::mem::forget(s);
}
/// Asking for the offset of an element of something else panics.
fn foreign<T: Blob, I: Indexing>(c: usize, max: usize) {
    let before: VBox<T> = VBox::new(T::of(7, T::HDR + 2));
    let mut s: Seq<T, I> = Seq::new();
    let z0 = any_size::<T>(max);
    s.push(T::of(1, c));
    s.push(T::of(2, z0));
    let mut other: Seq<T, I> = Seq::new();
    other.push(T::of(3, T::HDR));
    other.push(T::of(4, T::HDR));
    let after: VBox<T> = VBox::new(T::of(8, T::HDR + 1));
    reach!("asked");
    match nd::below(4) {
        0 => s.offset_of(&*before),
        1 => s.offset_of(&*after),
        2 => s.offset_of(other.iter().next().unwrap()),
        _ => {
            let mut it = other.iter();
            it.next();
            s.offset_of(it.next().unwrap())
        }
    };
    unreachable_vp!("asking for the offset of a foreign element panics");
}
fn foreign_empty<T: Blob, I: Indexing>() {
    let before: VBox<T> = VBox::new(T::of(7, T::HDR + 2));
    let s: Seq<T, I> = Seq::new();
    reach!("asked");
    s.offset_of(&*before);
    unreachable_vp!("asking an empty sequence for an offset panics");
}

// ---- C09 ----
fn storage<T: Blob, I: Indexing>(c: usize, max: usize, indexed: bool) {
    let mut s: Seq<T, I> = Seq::new();
    let z = [c, any_size::<T>(max), any_size::<T>(max)];
    vp!(s.capacity_in_offsets() == 0 && s.offset() == 0 && nd::allocs() == 0, "a new sequence owns no storage");
    let mut i = 0;
    while i < 3 {
        let (o, cap, n) = (s.offset(), s.capacity_in_offsets(), nd::allocs());
        s.push(T::of(i as u8 + 1, z[i]));
        vp!(s.offset() == o + units::<T>(z[i]), "the offset advances by the element's size rounded up to the alignment");
        vp!(s.offset() <= s.capacity_in_offsets(), "the used offset never exceeds the capacity");
        if nd::allocs() != n {
            vp!(s.capacity_in_offsets() >= 2 * cap, "the capacity at least doubles whenever it grows");
            vp!(nd::last_align() == T::ALIGN, "the storage is aligned for the element type");
        } else {
            vp!(s.capacity_in_offsets() == cap, "the capacity changes only when the storage does");
        }
        let bits = if indexed { (s.capacity_in_offsets() + 7) / 8 } else { 0 };
        vp!(nd::last_size() >= s.capacity_in_offsets() * T::ALIGN + bits, "the storage covers the capacity");
        i += 1;
    }
    let (base, size) = (nd::last_addr(), nd::last_size());
    let mut it = s.iter();
    let mut end = base;
    i = 0;
    while i < 3 {
        let a = at(it.next().unwrap());
        vp!(a % T::ALIGN == 0, "elements are aligned");
        vp!(a >= end, "elements do not overlap");
        vp!(a + z[i] <= base + size, "elements lie inside the storage");
        vp!(a + z[i] <= base + s.capacity_in_offsets() * T::ALIGN, "elements lie below the capacity");
        end = a + z[i];
        i += 1;
    }
    reach!(nd::allocs() == 3, "two growths");
    reach!(nd::allocs() == 2, "one growth");
    core::mem::forget(s);
}
fn freed<T: Blob, I: Indexing>(max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let (z0, z1) = (any_size::<T>(max), any_size::<T>(max));
    s.push(T::of(1, z0));
    s.push(T::of(2, z1));
    vp!(nd::live() == 1, "a sequence owns one block");
    reach!(nd::allocs() == 2, "growth");
    drop(s);
    vp!(nd::live() == 0, "the block is freed");
}
fn freed_more<T: Blob, I: Indexing>(c: usize, max: usize) {
    let mut s: Seq<T, I> = Seq::new();
    let z = any_size::<T>(max);
    s.push(T::of(1, c));
    s.push(T::of(2, c));
    s.push(T::of(3, z));
    drop(s.take_elems());
    vp!(nd::live() == 1, "taking keeps the block");
    s.push(T::of(2, z));
    vp!(nd::live() == 1, "a sequence owns one block");
    reach!(nd::allocs() >= 2, "growth");
    drop(s);
    vp!(nd::live() == 0, "the block is freed");
}
fn freed_empty<T: Blob, I: Indexing>() {
    let mut s: Seq<T, I> = Seq::new();
    drop(s.take_elems());
    vp!(nd::allocs() == 0, "an empty sequence owns nothing");
    drop(s);
    vp!(nd::allocs() == 0 && nd::live() == 0, "and frees nothing");
    reach!("done");
}

// ---- scale: many offsets, many elements.
trait Claim: VarLen<Layout = Size> {
    type Init: varlen::Initializer<Self>;
    fn claim(size: usize, id: u8) -> Self::Init;
}
impl Claim for Huge1 {
    type Init = Huge1Init;
    fn claim(size: usize, id: u8) -> Huge1Init {
        Huge1Init(Some(size), id)
    }
}
impl Claim for Huge8 {
    type Init = Huge8Init;
    fn claim(size: usize, id: u8) -> Huge8Init {
        Huge8Init(Some(size), id)
    }
}
/// A large element, then small ones; the index needs hundreds of bytes.
fn scale_large<T: Claim>(z0: usize, z1: usize) {
    let mut s: IndexableSeq<T> = Seq::new();
    s.push(T::claim(z0, 0));
    let u0 = (z0 + T::ALIGN - 1) / T::ALIGN;
    let u1 = (z1 + T::ALIGN - 1) / T::ALIGN;
    vp!(s.offset() == u0 && s.capacity_in_offsets() >= u0, "the element fits");
    let k = nd::usize();
    vp!(s.is_offset_valid(k) == (k == 0), "the only valid offset is the first");
    s.push(T::claim(z1, 1));
    vp!(s.offset() == u0 + u1, "offsets add up");
    let k = nd::usize();
    vp!(s.is_offset_valid(k) == (k == 0 || k == u0), "offsets are valid exactly where an element starts");
    reach!(k == u0, "second");
    if k == u0 {
        vp!(at(s.from_offset(k)) == at(s.from_offset(0)) + u0 * T::ALIGN, "and lead there");
    }
    drop(s.take_elems());
    let k = nd::usize();
    vp!(!s.is_offset_valid(k), "nothing is valid when all is taken");
    core::mem::forget(s);
}
/// Many elements of one byte, several bytes of index, growing on the way.
fn scale_bytes<const N: usize>() {
    let mut s: IndexableSeq<FixedLen<u8>> = Seq::new();
    let mut i = 0;
    while i < N {
        s.push(FixedLen(i as u8 ^ 0x55));
        i += 1;
    }
    vp!(s.len() == N && s.offset() == N, "all are there");
    let k = nd::usize();
    vp!(s.is_offset_valid(k) == (k < N), "every element has its offset");
    if k < N {
        vp!(s.from_offset(k).0 == k as u8 ^ 0x55, "where it is");
    }
    reach!(k == N - 1, "last");
    drop(s.take_elems());
    s.push(FixedLen(3));
    let k = nd::usize();
    vp!(s.is_offset_valid(k) == (k == 0), "taken elements have no offsets");
    core::mem::forget(s);
}

// ---- C19 ----
fn three<T: Blob, I: Indexing>() -> Seq<T, I> {
    let mut s: Seq<T, I> = Seq::new();
    s.push(T::of(1, T::HDR));
    s.push(T::of(2, T::HDR + 3));
    s.push(T::of(3, T::HDR + 1));
    s
}
/// Advances k times, checking the reported remaining counts all along.
fn counts<R>(it: &mut impl ExactSizeIterator<Item = R>, total: usize, k: usize, id: impl Fn(&R) -> u8) {
    let mut i = 0;
    while i < k {
        let left = if i < total { total - i } else { 0 };
        vp!(it.len() == left && it.size_hint() == (left, Some(left)), "remaining length and size hint are the number of elements to come");
        match it.next() {
            Some(e) => vp!(i < total && id(&e) == i as u8 + 1, "elements come in order"),
            None => vp!(i >= total, "nothing is left out"),
        }
        i += 1;
    }
    let left = if k < total { total - k } else { 0 };
    vp!(it.len() == left && it.size_hint() == (left, Some(left)), "remaining length and size hint are the number of elements to come");
    reach!(k == 5, "beyond the end");
}
fn count_iter<T: Blob, I: Indexing>() {
    let s = three::<T, I>();
    let k = nd::below(6);
    let mut it = s.iter();
    counts(&mut it, 3, k, |e| e.id());
    vp!(it.count() == if k < 3 { 3 - k } else { 0 }, "count is the number of elements to come");
    core::mem::forget(s);
}
fn count_iter_mut<T: Blob, I: Indexing>() {
    let mut s = three::<T, I>();
    let k = nd::below(6);
    let mut it = s.iter_mut();
    counts(&mut it, 3, k, |e| e.id());
    vp!(it.count() == if k < 3 { 3 - k } else { 0 }, "count is the number of elements to come");
    core::mem::forget(s);
}
fn count_owned<T: Blob, I: Indexing>() {
    let mut s = three::<T, I>();
    let k = nd::below(6);
    let mut it = s.take_elems();
    counts(&mut it, 3, k, |e| e.id());
    if nd::bool() {
        vp!(it.count() == if k < 3 { 3 - k } else { 0 }, "count is the number of elements to come");
    } else {
        core::mem::forget(it);
    }
    core::mem::forget(s);
}
fn limited_iter<T: Blob, I: Indexing>() {
    let s = three::<T, I>();
    let (k, n, m) = (nd::below(5), nd::usize(), nd::below(3));
    let mut it = s.iter();
    let mut i = 0;
    while i < k {
        it.next();
        i += 1;
    }
    let left = if k < 3 { 3 - k } else { 0 };
    let want = if n < left { n } else { left };
    let mut l = it.limited_to(n);
    i = 0;
    while i < m {
        let e = l.next();
        vp!(e.is_some() == (i < want), "a limited iterator yields the first n remaining elements");
        if let Some(e) = e {
            vp!(e.id() as usize == k + i + 1, "in order");
        }
        i += 1;
    }
    let w = if m < want { want - m } else { 0 };
    vp!(l.len() == w && l.size_hint() == (w, Some(w)), "remaining length of a limited iterator");
    vp!(l.count() == w, "count of a limited iterator");
    vp!(it.len() == left, "the iterator limited from is unaffected");
    reach!(n == usize::MAX, "no limit");
    reach!(want == 2 && m == 2 && k == 1, "all yielded");
    core::mem::forget(s);
}
fn limited_iter_mut<T: Blob, I: Indexing>() {
    let mut s = three::<T, I>();
    let (k, n, m) = (nd::below(5), nd::usize(), nd::below(3));
    let mut it = s.iter_mut();
    let mut i = 0;
    while i < k {
        it.next();
        i += 1;
    }
    let left = if k < 3 { 3 - k } else { 0 };
    let want = if n < left { n } else { left };
    let mut l = it.limited_to(n);
    i = 0;
    while i < m {
        let e = l.next();
        vp!(e.is_some() == (i < want), "a limited iterator yields the first n remaining elements");
        if let Some(e) = e {
            vp!(e.id() as usize == k + i + 1, "in order");
        }
        i += 1;
    }
    let w = if m < want { want - m } else { 0 };
    vp!(l.len() == w && l.size_hint() == (w, Some(w)), "remaining length of a limited iterator");
    vp!(l.count() == w, "count of a limited iterator");
    reach!(n == usize::MAX, "no limit");
    reach!(want == 2 && m == 2 && k == 1, "all yielded");
    core::mem::forget(s);
}

/// Every way of getting on, from any position, agrees with stepping.
/// ids of the elements are 1, 2, 3.
fn ways<R>(mut it: impl ExactSizeIterator<Item = R>, k: usize, way: u8, id: impl Fn(&R) -> u8) {
    let total = 3;
    let mut i = 0;
    while i < k {
        it.next();
        i += 1;
    }
    let left = total - k;
    match way {
        0 => {
            let j = nd::below(5);
            let e = it.nth(j);
            vp!(e.is_some() == (j < left), "nth gives the element that many steps on, if there is one");
            if let Some(e) = e {
                vp!(id(&e) as usize == k + j + 1, "nth gives the element that many steps on");
            }
            let rest = if j < left { left - j - 1 } else { 0 };
            vp!(it.len() == rest && it.size_hint() == (rest, Some(rest)), "the remaining length counts the elements to come");
            match it.next() {
                Some(e) => vp!(rest > 0 && id(&e) as usize == k + j + 2, "iteration goes on after the element given"),
                None => vp!(rest == 0, "iteration goes on after the element given"),
            }
        }
        1 => match it.last() {
            Some(e) => vp!(left > 0 && id(&e) as usize == total, "last gives the last element"),
            None => vp!(left == 0, "last gives the last element"),
        },
        2 => {
            let n = it.fold(0, |n, e| {
                vp!(id(&e) as usize == k + n + 1, "folding sees the elements in order");
                n + 1
            });
            vp!(n == left, "folding sees every element");
        }
        3 => {
            let j = nd::below(4);
            let mut n = 0;
            let r = it.try_for_each(|e| {
                vp!(id(&e) as usize == k + n + 1, "elements come in order");
                n += 1;
                if n > j { Err(()) } else { Ok(()) }
            });
            vp!(r.is_err() == (j < left), "stops where it is told to");
            let rest = if j < left { left - j - 1 } else { 0 };
            vp!(it.len() == rest, "and the remaining length counts the elements to come");
        }
        4 => {
            let mut s = it.step_by(2);
            let e = s.next();
            vp!(e.is_some() == (left > 0), "the first");
            if let Some(e) = &e {
                vp!(id(e) as usize == k + 1, "the first");
            }
            let e = s.next();
            vp!(e.is_some() == (left > 2), "every second");
            if let Some(e) = &e {
                vp!(id(e) as usize == k + 3, "every second");
            }
            vp!(s.next().is_none(), "no more");
        }
        _ => {
            let x = nd::u8();
            let p = it.position(|e| id(&e) == x);
            let here = x as usize > k && x as usize <= total;
            vp!(p.is_some() == here, "an element is found if it is to come");
            if let Some(p) = p {
                vp!(p == x as usize - k - 1, "where it is");
                vp!(it.len() == left - p - 1, "and the remaining length counts the elements to come");
            }
        }
    }
    reach!(k == 1, "from the second element on");
}
fn ways_iter<T: Blob, I: Indexing>(way: u8) {
    let s = three::<T, I>();
    ways(s.iter(), nd::below(4), way, |e| e.id());
    core::mem::forget(s);
}
fn ways_iter_mut<T: Blob, I: Indexing>(way: u8) {
    let mut s = three::<T, I>();
    ways(s.iter_mut(), nd::below(4), way, |e| e.id());
    core::mem::forget(s);
}
fn ways_owned<T: Blob, I: Indexing>(way: u8) {
    let mut s = three::<T, I>();
    ways(s.take_elems(), nd::below(4), way, |e| e.id());
    vp!(drops(1) == 1 && drops(2) == 1 && drops(3) == 1, "every taken element is destroyed exactly once");
    core::mem::forget(s);
}

// ---- C22 ----
/// Yields n blobs of the given sizes.
struct Feed<T> {
    z: [usize; 3],
    n: usize,
    i: usize,
    hint: (usize, Option<usize>),
    t: core::marker::PhantomData<T>,
}
impl<T: Blob> Iterator for Feed<T> {
    type Item = T::Init;
    fn next(&mut self) -> Option<T::Init> {
        if self.i < self.n {
            self.i += 1;
            Some(T::of(self.i as u8, self.z[self.i - 1]))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint.0.saturating_sub(self.i), self.hint.1.map(|h| h - self.i))
    }
}
fn feed<T: Blob>(z: [usize; 3], n: usize) -> Feed<T> {
    Feed { z, n, i: 0, hint: if nd::bool() { (0, None) } else { (n, Some(n)) }, t: core::marker::PhantomData }
}
/// The same with any honest hint.
fn feed_hinted<T: Blob>(z: [usize; 3], n: usize) -> Feed<T> {
    let lo = nd::range(0, n);
    let hi = match nd::below(3) {
        0 => None,
        1 => Some(nd::range(n, n + 3)),
        _ => Some(usize::MAX),
    };
    Feed { z, n, i: 0, hint: (lo, hi), t: core::marker::PhantomData }
}
/// `s` has the `kept` elements, then n fed ones; offsets and index as pushing would have made them.
fn as_pushed<T: Blob, I: Indexing>(s: &Seq<T, I>, kept: &[(u8, usize)], z: [usize; 3], n: usize) {
    vp!(s.len() == kept.len() + n, "every element is there");
    let mut it = s.iter();
    let (mut i, mut off) = (0, 0);
    while i < kept.len() + n {
        let (id, size) = if i < kept.len() { kept[i] } else { ((i - kept.len()) as u8 + 1, z[i - kept.len()]) };
        match it.next() {
            None => vp!(false, "an element is missing"),
            Some(e) => {
                vp!(e.is(id, size), "elements are as pushed, in order");
                vp!(s.offset_of(e) == off, "offsets are as pushed");
            }
        }
        off += units::<T>(size);
        i += 1;
    }
    vp!(it.next().is_none(), "nothing else is there");
    vp!(s.offset() == off, "the sequence's offset is as pushed");
}
fn extend_onto<T: Blob, I: Indexing>(c: usize, max: usize, least: usize, most: usize) {
    let mut s: Seq<T, I> = Seq::new();
    s.push(T::of(9, c));
    let z = [any_size::<T>(max), T::HDR + 1, T::HDR];
    let n = if least == most { most } else { nd::range(least, most) };
    s.extend(feed::<T>(z, n));
    as_pushed(&s, &[(9, c)], z, n);
    reach!(n == most, "most");
    reach!(n == least, "least");
    core::mem::forget(s);
}
/// n elements of fixed sizes, announced in whatever way.
fn extend_hinted<T: Blob, I: Indexing>(n: usize) {
    let mut s: Seq<T, I> = Seq::new();
    s.push(T::of(9, 7));
    let z = [20, T::HDR, T::HDR + 7];
    s.extend(feed_hinted::<T>(z, n));
    as_pushed(&s, &[(9, 7)], z, n);
    reach!("extended");
    let t: Seq<T, I> = feed_hinted::<T>(z, n).collect();
    as_pushed(&t, &[], z, n);
    reach!("collected");
    core::mem::forget((s, t));
}
fn collected<T: Blob, I: Indexing>(max: usize, least: usize, most: usize) {
    let z = [T::HDR + 5, any_size::<T>(max), T::HDR];
    let n = if least == most { most } else { nd::range(least, most) };
    let s: Seq<T, I> = feed::<T>(z, n).collect();
    as_pushed(&s, &[], z, n);
    reach!(n == most, "most");
    reach!(n == least, "least");
    core::mem::forget(s);
}
fn literal<T: Blob, I: Indexing>(max: usize) {
    let z = [T::HDR + 5, any_size::<T>(max), T::HDR];
    let s: Seq<T, I> = varlen::seq![T::of(1, z[0]), T::of(2, z[1]), T::of(3, z[2])];
    as_pushed(&s, &[], z, 3);
    let t: Seq<T, I> = varlen::seq![];
    vp!(t.len() == 0 && t.offset() == 0, "the empty literal is empty");
    let u: Seq<T, I> = varlen::seq![T::of(1, T::HDR),];
    as_pushed(&u, &[], [T::HDR; 3], 1);
    reach!("done");
    core::mem::forget((s, t, u));
}

harnesses! {
//@ C06 bank=76 cpy=8 t=30
fn c06_two_a1() { list_two::<Blob1, U>(34) }
//@ C06 bank=76 cpy=8 t=30
fn c06_two_a2() { list_two::<Blob2, U>(34) }
//@ C06 bank=76 cpy=8 t=30
fn c06_two_a8() { list_two::<Blob8, U>(34) }
//@ C06 bank=100 cpy=8 t=30
fn c06_two_a16() { list_two::<Blob16, U>(34) }
//@ C06 bank=84 cpy=12 t=60
fn c06_two_a1_idx() { list_two::<Blob1, X>(34) }
//@ C06 bank=84 cpy=12 t=40
fn c06_two_a8_idx() { list_two::<Blob8, X>(34) }
//@ C06 bank=72 cpy=8 t=30
fn c06_more_a1() { list_more::<Blob1, U>(20, 18) }
//@ C06 bank=80 cpy=8 t=30
fn c06_more_a4() { list_more::<Blob4, U>(20, 18) }
//@ C06 bank=72 cpy=12 t=50
fn c06_more_a1_idx() { list_more::<Blob1, X>(20, 18) }
//@ C06 bank=150 cpy=8 unwind=8 t=30
fn c06_many_a1() { list_many::<Blob1, U, 5>(11, 2, 40) }
//@ C06 bank=150 cpy=8 unwind=8 t=30
fn c06_many_a4() { list_many::<Blob4, U, 6>(13, 4, 40) }
//@ C06 bank=150 cpy=16 unwind=8 t=30
fn c06_many_a2_idx() { list_many::<Blob2, X, 5>(13, 3, 36) }
//@ C06 bank=76 cpy=8 t=30
fn c06_mut_a2() { list_mut::<Blob2, U>(34) }
//@ C06 bank=76 cpy=8 t=30
fn c06_take_a1() { list_take::<Blob1, U>(10, 30) }
//@ C06 bank=76 cpy=16 t=40
fn c06_take_a2_idx() { list_take::<Blob2, X>(10, 30) }
//@ C06 bank=76 cpy=8
fn c06_take_sym_a1() { list_take_sym::<Blob1, U>(10, 40) }
//@ C06 bank=84 cpy=12
fn c06_take_sym_a4_idx() { list_take_sym::<Blob4, X>(10, 40) }
//@ C06 bank=80 cpy=8 unwind=6
fn c06_arrays() {
    let mut s: Seq<Array<u16, u8>> = Seq::new();
    let (n, m) = (nd::below(5), nd::below(5));
    s.push(SizedInit(3u8, FillSequentially(|i| i as u16)));
    s.push(SizedInit(n as u8, FillSequentially(|i| 10 + i as u16)));
    s.push(SizedInit(m as u8, FillSequentially(|i| 20 + i as u16)));
    let k = nd::below(5);
    for (j, e) in s.iter().enumerate() {
        let len = if j == 0 { 3 } else if j == 1 { n } else { m };
        vp!(e.len() == len, "arrays keep their lengths");
        if k < len { vp!(e[k] as usize == 10 * j + k, "arrays keep their contents"); }
    }
    vp!(s.len() == 3 && s.iter().count() == 3, "three elements");
    reach!(n == 4 && m == 4, "longest");
    core::mem::forget(s);
}
//@ C06 bank=80 cpy=8
fn c06_strings() {
    let mut s: Seq<Str<u16>> = Seq::new_minimal();
    let n = nd::below(7);
    let text = &"varlen"[..n];
    s.push(Str::<u16>::try_copy("ab").unwrap());
    s.push(Str::<u16>::try_copy(text).unwrap());
    s.push(Str::<u16>::try_copy("c").unwrap());
    let mut it = s.iter();
    let (a, b, c) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    vp!(a.len() == 2 && a.as_bytes()[0] == b'a' && a.as_bytes()[1] == b'b', "first string");
    vp!(b.len() == n && (n == 0 || b.as_bytes()[n - 1] == text.as_bytes()[n - 1]), "second string");
    vp!(c.len() == 1 && c.as_bytes()[0] == b'c', "third string");
    vp!(it.next().is_none(), "no more");
    reach!(n == 6, "longest");
    core::mem::forget(s);
}
//@ C06 bank=96 cpy=8
fn c06_tuples_idx() {
    let mut s: IndexableSeq<Tup2<FixedLen<u32>, Array<u8, u8>>> = Seq::new();
    let (n, x) = (nd::below(6), nd::u32());
    s.push(tup2::Init(FixedLen(7), SizedInit(2u8, FillSequentially(|i| i as u8))));
    s.push(tup2::Init(FixedLen(x), SizedInit(n as u8, FillSequentially(|i| 10 + i as u8))));
    s.push(tup2::Init(FixedLen(8), SizedInit(1u8, FillSequentially(|_| 5u8))));
    let mut it = s.iter();
    let (a, b, c) = (it.next().unwrap().refs(), it.next().unwrap().refs(), it.next().unwrap().refs());
    vp!(a.0.0 == 7 && a.1.len() == 2 && a.1[1] == 1, "first tuple");
    vp!(b.0.0 == x && b.1.len() == n && (n == 0 || b.1[n - 1] as usize == 9 + n), "second tuple");
    vp!(c.0.0 == 8 && c.1.len() == 1 && c.1[0] == 5, "third tuple");
    vp!(it.next().is_none(), "no more");
    reach!(n == 5, "longest");
    core::mem::forget(s);
}
//@ C06 bank=168 cpy=8 tier=thorough timeout=800 t=200
fn c06_three_a1() { list_three::<Blob1, U>(34) }
//@ C06 bank=168 cpy=8 tier=thorough timeout=800 t=200
fn c06_three_a8() { list_three::<Blob8, U>(34) }
//@ C06 bank=150 cpy=20 tier=thorough timeout=800 t=150
fn c06_more_a1_idx_deep() { list_more::<Blob1, X>(5, 34) }
//@ C06 bank=150 cpy=8 tier=thorough timeout=800 t=100
fn c06_more_a16_deep() { list_more::<Blob16, U>(20, 34) }
//@ C06 bank=84 cpy=12 tier=thorough timeout=800 t=100
fn c06_take_a1_idx_deep() { list_take::<Blob1, X>(14, 34) }

//@ C07 bank=84 cpy=12 t=50
fn c07_two_a1() { index_two::<Blob1>(34) }
//@ C07 bank=84 cpy=12 t=40
fn c07_two_a4() { index_two::<Blob4>(34) }
//@ C07 bank=84 cpy=12 t=40
fn c07_two_a8() { index_two::<Blob8>(34) }
//@ C07 bank=44 cpy=8
fn c07_one_a1() { index_one::<Blob1>(34) }
//@ C07 bank=44 cpy=8
fn c07_one_a16() { index_one::<Blob16>(34) }
//@ C07 bank=72 cpy=12 t=60
fn c07_more_a1() { index_more::<Blob1>(20, 18) }
//@ C07 bank=72 cpy=12 t=50
fn c07_more_a2() { index_more::<Blob2>(20, 18) }
//@ C07 bank=144 cpy=20 unwind=9 t=50
fn c07_many_a1() { index_many::<Blob1, 6>(9, 20) }
//@ C07 bank=144 cpy=20 unwind=9 t=50
fn c07_many_a4() { index_many::<Blob4, 5>(9, 20) }
//@ C07 bank=72 cpy=12 t=60
fn c07_take_a1() { index_take::<Blob1>(9, 20) }
//@ C07 bank=72 cpy=12 t=60
fn c07_take_a4() { index_take::<Blob4>(9, 20) }
//@ C07 bank=84 cpy=12 t=60
fn c07_take_sym_a2() { index_take_sym::<Blob2>(9, 34) }
//@ C07 bank=72 cpy=12 panic=ok
fn c07_bad_a1() { index_bad::<Blob1>(9, 20, false) }
//@ C07 bank=72 cpy=12 panic=ok
fn c07_bad_a8() { index_bad::<Blob8>(9, 20, true) }
//@ C07 bank=72 cpy=12 panic=ok dbg=off
fn c07_bad_a4_release() { index_bad::<Blob4>(9, 20, false) }
//@ C07 bank=72 cpy=12 dbg=off t=50
fn c07_more_a8_release() { index_more::<Blob8>(20, 18) }
//@ C07 panic=ok
fn c07_bad_empty() {
    let s: IndexableSeq<Blob2> = Seq::new();
    reach!("asked");
    s.from_offset(nd::usize());
    unreachable_vp!("checked access to an empty sequence panics");
}
//@ C07 bank=150 cpy=20 tier=thorough timeout=800 t=200
fn c07_more_a1_deep() { index_more::<Blob1>(5, 34) }
//@ C07 bank=150 cpy=20 tier=thorough timeout=800 t=200
fn c07_more_a4_deep() { index_more::<Blob4>(14, 34) }
//@ C07 bank=144 cpy=20 unwind=13 tier=thorough timeout=800 t=200
fn c07_many_a1_deep() { index_many::<Blob1, 11>(9, 20) }
//@ C07 bank=84 cpy=12 tier=thorough timeout=800 t=100
fn c07_take_a1_deep() { index_take::<Blob1>(11, 34) }

//@ C08 bank=72 cpy=8 t=40
fn c08_offsets_a1() { offsets::<Blob1, U>(20, 18) }
//@ C08 bank=72 cpy=8 t=40
fn c08_offsets_a4() { offsets::<Blob4, U>(18, 18) }
//@ C08 bank=72 cpy=12 t=60
fn c08_offsets_a2_idx() { offsets::<Blob2, X>(19, 18) }
//@ C08 bank=150 cpy=8 t=40
fn c08_offsets_a16() { offsets::<Blob16, U>(18, 33) }
//@ C08 bank=72 cpy=8 panic=ok
fn c08_foreign_a1() { foreign::<Blob1, U>(10, 18) }
//@ C08 bank=72 cpy=12 panic=ok
fn c08_foreign_a8_idx() { foreign::<Blob8, X>(10, 18) }
//@ C08 bank=72 cpy=8 panic=ok dbg=off
fn c08_foreign_a4_release() { foreign::<Blob4, U>(10, 18) }
//@ C08 panic=ok
fn c08_foreign_zero_size() {
    let s: Seq<FixedLen<()>> = Seq::new();
    let b: VBox<FixedLen<()>> = VBox::new(FixedLen(()));
    reach!("asked");
    s.offset_of(&b);
    unreachable_vp!("asking for the offset of a foreign element panics");
}
//@ C08 panic=ok
fn c08_foreign_taken() {
    let mut s: IndexableSeq<Blob2> = Seq::new();
    s.push(Blob2::of(1, 8));
    let at = s.iter().next().unwrap() as *const Blob2;
    drop(s.take_elems());
    if nd::bool() {
        s.push(Blob2::of(2, 2));
        s.offset_of(unsafe { &*at });
    } else {
        reach!("asked");
        s.offset_of(unsafe { &*at });
        unreachable_vp!("asking for the offset of an element no longer there panics");
    }
}
//@ C08 panic=ok
fn c08_foreign_empty() { foreign_empty::<Blob2, U>() }
//@ C08 panic=ok dbg=off
fn c08_foreign_empty_release() { foreign_empty::<Blob1, X>() }
//@ C08 bank=150 cpy=8 tier=thorough timeout=800 t=100
fn c08_offsets_a1_deep() { offsets::<Blob1, U>(5, 40) }
//@ C08 bank=150 cpy=20 tier=thorough timeout=800 t=100
fn c08_offsets_a8_idx_deep() { offsets::<Blob8, X>(5, 34) }

//@ C06,C07,C09 bank=4800 cpy=600 pad=16 t=60
fn c07_large_first() { scale_large::<Huge1>(2100, 1) }
//@ C06,C07,C09 bank=4800 cpy=600 t=60
fn c07_large_first_a8() { scale_large::<Huge8>(2100, 9) }
//@ C06,C07,C09 bank=80 cpy=12 unwind=43 t=60
fn c07_many_bytes() { scale_bytes::<40>() }
//@ C06,C07,C09 bank=640 cpy=72 unwind=303 objbits=13 tier=thorough timeout=850
fn c07_many_bytes_deep() { scale_bytes::<300>() }
//@ C09 bank=140 cpy=8 t=50
fn c09_storage_a1() { storage::<Blob1, U>(20, 34, false) }
//@ C09 bank=140 cpy=8 t=50
fn c09_storage_a4() { storage::<Blob4, U>(20, 34, false) }
//@ C09 bank=150 cpy=8 t=50
fn c09_storage_a16() { storage::<Blob16, U>(20, 34, false) }
//@ C09 bank=150 cpy=20 t=70
fn c09_storage_a2_idx() { storage::<Blob2, X>(20, 34, true) }
//@ C09 bank=150 cpy=20 t=70
fn c09_storage_a8_idx() { storage::<Blob8, X>(20, 34, true) }
//@ C09 bank=76 cpy=8 t=30
fn c09_freed_a1() { freed::<Blob1, U>(34) }
//@ C09 bank=76 cpy=8 t=30
fn c09_freed_a8() { freed::<Blob8, U>(34) }
//@ C09 bank=84 cpy=12 t=50
fn c09_freed_a4_idx() { freed::<Blob4, X>(34) }
//@ C09 bank=84 cpy=12 t=50
fn c09_freed_a16_idx() { freed::<Blob16, X>(34) }
//@ C09 bank=140 cpy=8 t=50
fn c09_freed_more_a2() { freed_more::<Blob2, U>(30, 64) }
//@ C09 bank=90 cpy=12 t=50
fn c09_freed_more_a1_idx() { freed_more::<Blob1, X>(12, 30) }
//@ C09
fn c09_freed_empty() { freed_empty::<Blob8, U>() }
//@ C09
fn c09_freed_empty_idx() { freed_empty::<Blob2, X>() }
//@ C09 bank=168 cpy=24 tier=thorough timeout=800 t=100
fn c09_storage_a1_idx_deep() { storage::<Blob1, X>(5, 36, true) }
//@ C09 bank=168 cpy=24 tier=thorough timeout=800 t=100
fn c09_storage_a16_idx_deep() { storage::<Blob16, X>(5, 36, true) }

//@ C19 unwind=7
fn c19_iter_a1() { count_iter::<Blob1, U>() }
//@ C19 unwind=7
fn c19_iter_a8_idx() { count_iter::<Blob8, X>() }
//@ C19 unwind=7
fn c19_iter_mut_a2() { count_iter_mut::<Blob2, U>() }
//@ C19 unwind=7
fn c19_iter_mut_a4_idx() { count_iter_mut::<Blob4, X>() }
//@ C19 unwind=7
fn c19_owned_a1() { count_owned::<Blob1, U>() }
//@ C19 unwind=7
fn c19_owned_a4_idx() { count_owned::<Blob4, X>() }
//@ C19 unwind=7
fn c19_limited_a2() { limited_iter::<Blob2, U>() }
//@ C19 unwind=7
fn c19_limited_mut_a1() { limited_iter_mut::<Blob1, U>() }
//@ C19 unwind=7
fn c19_empty() {
    let mut s: Seq<Blob4> = Seq::new();
    vp!(s.iter().len() == 0 && s.iter().next().is_none() && s.iter().count() == 0, "an empty sequence has no elements");
    vp!(s.iter_mut().len() == 0 && s.iter_mut().next().is_none() && s.iter_mut().count() == 0, "nor mutably");
    vp!(s.take_elems().len() == 0 && s.take_elems().next().is_none() && s.take_elems().count() == 0, "nor owned");
    vp!(s.iter().limited_to(nd::usize()).next().is_none(), "nor limited");
    reach!("done");
}
//@ C19 unwind=8
fn c19_nth_iter() { ways_iter::<Blob2, U>(0) }
//@ C19 unwind=8
fn c19_nth_iter_mut() { ways_iter_mut::<Blob8, X>(0) }
//@ C19,C11 unwind=8 bank=100
fn c19_nth_owned() { ways_owned::<Blob16, U>(0) }
//@ C19 unwind=8
fn c19_last_iter() { ways_iter::<Blob8, U>(1) }
//@ C19 unwind=8
fn c19_last_iter_mut() { ways_iter_mut::<Blob1, X>(1) }
//@ C19,C11 unwind=8
fn c19_last_owned() { ways_owned::<Blob2, U>(1) }
//@ C19 unwind=8
fn c19_fold_iter() { ways_iter::<Blob2, U>(2) }
//@ C19 unwind=8
fn c19_fold_iter_mut() { ways_iter_mut::<Blob8, X>(2) }
//@ C19,C11 unwind=8 bank=100
fn c19_fold_owned() { ways_owned::<Blob16, U>(2) }
//@ C19 unwind=8
fn c19_try_iter() { ways_iter::<Blob8, U>(3) }
//@ C19 unwind=8
fn c19_try_iter_mut() { ways_iter_mut::<Blob1, X>(3) }
//@ C19,C11 unwind=8
fn c19_try_owned() { ways_owned::<Blob2, U>(3) }
//@ C19 unwind=8
fn c19_step_iter() { ways_iter::<Blob2, U>(4) }
//@ C19 unwind=8
fn c19_step_iter_mut() { ways_iter_mut::<Blob8, X>(4) }
//@ C19,C11 unwind=8 bank=100
fn c19_step_owned() { ways_owned::<Blob16, U>(4) }
//@ C19 unwind=8
fn c19_find_iter() { ways_iter::<Blob8, U>(5) }
//@ C19 unwind=8
fn c19_find_iter_mut() { ways_iter_mut::<Blob1, X>(5) }
//@ C19,C11 unwind=8
fn c19_find_owned() { ways_owned::<Blob2, U>(5) }
//@ C19 bank=76 cpy=8 unwind=6
fn c19_sizes_a1() {
    let mut s: Seq<Blob1> = Seq::new();
    let (z0, z1) = (any_size::<Blob1>(34), any_size::<Blob1>(34));
    s.push(Blob1::of(1, z0));
    s.push(Blob1::of(2, z1));
    let k = nd::below(4);
    counts_at(&mut s.iter(), 2, k);
    counts_at(&mut s.iter_mut(), 2, k);
    core::mem::forget(s);
}

//@ C22 bank=72 cpy=8 t=30
fn c22_extend_a1() { extend_onto::<Blob1, U>(10, 20, 2, 2) }
//@ C22 bank=72 cpy=8 t=30
fn c22_extend_a4() { extend_onto::<Blob4, U>(10, 20, 3, 3) }
//@ C22 bank=72 cpy=8 tier=thorough timeout=800
fn c22_extend_any_a1_deep() { extend_onto::<Blob1, U>(10, 20, 0, 3) }
//@ C22 bank=72 cpy=12
fn c22_hinted_none() { extend_hinted::<Blob1, X>(0) }
//@ C22 bank=72 cpy=8
fn c22_hinted_one() { extend_hinted::<Blob2, U>(1) }
//@ C22 bank=72 cpy=8 t=30
fn c22_hinted_three() { extend_hinted::<Blob1, U>(3) }
//@ C22 bank=72 cpy=12 t=30
fn c22_hinted_three_idx() { extend_hinted::<Blob4, X>(3) }
//@ C22 bank=72 cpy=12 t=30
fn c22_extend_a2_idx() { extend_onto::<Blob2, X>(10, 20, 2, 2) }
//@ C22 bank=72 cpy=8 t=30
fn c22_collect_a1() { collected::<Blob1, U>(24, 2, 2) }
//@ C22 bank=72 cpy=12 t=30
fn c22_collect_a8_idx() { collected::<Blob8, X>(24, 3, 3) }
//@ C22 bank=72 cpy=8
fn c22_literal_a2() { literal::<Blob2, U>(24) }
//@ C22 bank=72 cpy=12
fn c22_literal_a1_idx() { literal::<Blob1, X>(24) }
//@ C22 bank=72 cpy=12 t=30
fn c22_index_after_extend() {
    let mut s: IndexableSeq<Blob1> = Seq::new();
    s.push(Blob1::of(9, 6));
    let z = [any_size::<Blob1>(20), 3, 2];
    s.extend(feed::<Blob1>(z, 3));
    let k = nd::usize();
    vp!(s.is_offset_valid(k) == (k == 0 || k == 6 || k == 6 + z[0] || k == 9 + z[0]), "the index is as pushed");
    reach!(k == 9 + z[0], "last");
    core::mem::forget(s);
}
//@ C22 bank=150 cpy=8 tier=thorough timeout=800 t=100
fn c22_extend_a8_deep() { extend_onto::<Blob8, U>(20, 60, 0, 3) }
//@ C22 bank=150 cpy=20 tier=thorough timeout=800 t=100
fn c22_extend_a1_idx_deep() { extend_onto::<Blob1, X>(30, 50, 3, 3) }
}

fn counts_at<R>(it: &mut impl ExactSizeIterator<Item = R>, total: usize, k: usize) {
    let mut i = 0;
    while i < k {
        vp!(it.next().is_some() == (i < total), "elements come until none is left");
        i += 1;
    }
    let left = if k < total { total - k } else { 0 };
    vp!(it.len() == left && it.size_hint() == (left, Some(left)), "remaining length and size hint are the number of elements to come");
    reach!(k == 3, "beyond the end");
}
