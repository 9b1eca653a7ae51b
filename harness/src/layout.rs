//! C01: size arithmetic over the whole range. C02: reserved size, reported size and field placement.
use crate::nd;
use crate::vt::*;
use core::ptr::NonNull;
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::ArrayInitializer;
use varlen::prelude::*;
use varlen::tuple::*;
use varlen::{Initializer, Layout};

const MAX: u128 = isize::MAX as u128;

fn up(n: u128, a: usize) -> u128 {
    let a = a as u128;
    (n + a - 1) & !(a - 1)
}
/// Where an array of T with length type L puts its payload, and where it ends.
fn arr<T, L: ArrayLen>(n: u128) -> (u128, u128) {
    let o = up(core::mem::size_of::<L>() as u128, core::mem::align_of::<T>());
    // the header is the length padded to the array type's own alignment
    (o, o + n * core::mem::size_of::<T>() as u128)
}
/// Some(exact) when it fits; refusal only when it does not.
fn decide(got: Option<usize>, exact: u128) {
    match got {
        Some(s) => vp!(s as u128 == exact, "the computed size is the exact size"),
        None => vp!(exact > MAX - 64, "only sizes that do not fit are refused"),
    }
    reach!(got.is_some(), "accepted");
}

fn any_array<T, L: ArrayLen>(len: L) {
    let init = SizedInit(len, Skip);
    let got = Initializer::<Array<T, L>>::calculate_layout_cautious(&init).map(|l| l.size());
    let (_, end) = arr::<T, L>(len.as_usize() as u128);
    decide(got, end);
    reach!(got.is_none() || core::mem::size_of::<L>() < 8, "refused");
}

fn any_pair<A, B>() {
    let (n, m) = (nd::usize(), nd::usize());
    let init = tup2::Init(SizedInit(n, Skip), SizedInit(m, Skip));
    let got = Initializer::<Tup2<Array<A>, Array<B>>>::calculate_layout_cautious(&init).map(|l| l.size());
    let o1 = arr::<A, usize>(n as u128).1;
    let o2 = up(o1, <Array<B> as VarLen>::ALIGN) + arr::<B, usize>(m as u128).1;
    decide(got, o2);
    reach!(got.is_none(), "refused");
}

#[define_varlen]
pub struct Three {
    #[controls_layout]
    pub n: usize,
    #[controls_layout]
    pub m: usize,
    #[varlen_array]
    pub a: [u16; *n],
    #[varlen_array]
    pub b: [u32; *m],
    #[varlen]
    pub c: Array<u8>,
}

#[define_varlen]
pub struct WithHuge {
    pub x: u32,
    #[varlen]
    pub h: Huge8,
    #[varlen]
    pub t: Array<u8, u8>,
}

varlen::define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NewHuge(Huge8);
    with init: struct NewHugeInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}

fn any_opt() -> Option<usize> {
    let z = nd::usize();
    nd::assume(z >= 16); // at least the header
    if nd::bool() { Some(z) } else { None }
}

harnesses! {
//@ C01
fn c01_array_u8() { any_array::<u8, usize>(nd::usize()) }
//@ C01
fn c01_array_u16() { any_array::<u16, usize>(nd::usize()) }
//@ C01
fn c01_array_u8x3() { any_array::<[u8; 3], usize>(nd::usize()) }
//@ C01
fn c01_array_u64() { any_array::<u64, usize>(nd::usize()) }
//@ C01
fn c01_array_u32x3() { any_array::<[u32; 3], usize>(nd::usize()) }
//@ C01
fn c01_array_u128() { any_array::<u128, usize>(nd::usize()) }
//@ C01
fn c01_array_u8x7() { any_array::<[u8; 7], usize>(nd::usize()) }
//@ C01
fn c01_array_1k() { any_array::<[u64; 128], usize>(nd::usize()) }
//@ C01
fn c01_array_len_u64() { any_array::<u32, u64>(nd::u64()) }
//@ C01
fn c01_array_len_u32() { any_array::<[u64; 5], u32>(nd::u32()) }
//@ C01
fn c01_array_len_u16() { any_array::<u64, u16>(nd::u16()) }
//@ C01
fn c01_array_len_u8() { any_array::<u16, u8>(nd::u8()) }
//@ C01
fn c01_array_unit() { 
    let n = nd::usize();
    let got = Initializer::<Array<(), usize>>::calculate_layout_cautious(&SizedInit(n, Skip)).map(|l| l.size());
    vp!(got == Some(8), "an array of zero-size elements needs only its header");
    reach!("done");
}
//@ C01
fn c01_pair_u8_u8() { any_pair::<u8, u8>() }
//@ C01
fn c01_pair_u16_u32() { any_pair::<u16, u32>() }
//@ C01
fn c01_pair_u8_u128() { any_pair::<u8, u128>() }

//@ C01
fn c01_struct() {
    let (n, m, k) = (nd::usize(), nd::usize(), nd::usize());
    let init = three::Init { n, m, a: Skip, b: Skip, c: SizedInit(k, Skip) };
    let got = Initializer::<Three>::calculate_layout_cautious(&init).map(|l| l.size());
    let a = up(16, 2) + 2 * n as u128;
    let b = up(a, 4) + 4 * m as u128;
    let c = up(b, 8) + 8 + k as u128;
    decide(got, c);
    reach!(got.is_none(), "refused");
}

// Arbitrary claimed sizes of a member, in every kind of parent.
//@ C01
fn c01_member_tuple() {
    let z = any_opt();
    let y = any_opt();
    let init = tup3::Init(SizedInit(3u8, Skip), Huge8Init(z, 0), Huge16Init(y, 1));
    let got = Initializer::<Tup3<Array<u8, u8>, Huge8, Huge16>>::calculate_layout_cautious(&init).map(|l| l.size());
    match (z, y) {
        (Some(z), Some(y)) => decide(got, up(8 + z as u128, 16) + y as u128),
        _ => vp!(got.is_none(), "a member whose size is not representable makes the whole not representable"),
    }
}
//@ C01
fn c01_member_tuple45() {
    let z = any_opt();
    let init = tup4::Init(Huge1Init(z, 0), SizedInit(3u16, Skip), Huge8Init(Some(8), 2), Huge1Init(Some(1), 1));
    let got = Initializer::<Tup4<Huge1, Array<u8, u16>, Huge8, Huge1>>::calculate_layout_cautious(&init).map(|l| l.size());
    let init5 = tup5::Init(Huge1Init(z, 0), Huge1Init(Some(2), 0), Huge8Init(Some(8), 2), Huge1Init(Some(1), 1), Huge16Init(z, 0));
    let got5 = Initializer::<Tup5<Huge1, Huge1, Huge8, Huge1, Huge16>>::calculate_layout_cautious(&init5).map(|l| l.size());
    match z {
        Some(z) => {
            let z = z as u128;
            decide(got, up(up(z, 2) + 5, 8) + 9);
            decide(got5, up(up(z + 2, 8) + 9, 16) + z);
        }
        _ => vp!(got.is_none() && got5.is_none(), "a member whose size is not representable makes the whole not representable"),
    }
}
//@ C01
fn c01_member_struct() {
    let z = any_opt();
    let init = with_huge::Init { x: 1, h: Huge8Init(z, 0), t: SizedInit(3u8, Skip) };
    let got = Initializer::<WithHuge>::calculate_layout_cautious(&init).map(|l| l.size());
    match z {
        Some(z) => decide(got, up(up(4, 8) + z as u128, 1) + 4),
        _ => vp!(got.is_none(), "a member whose size is not representable makes the whole not representable"),
    }
}
//@ C01
fn c01_member_newtype() {
    let z = any_opt();
    let got = Initializer::<NewHuge>::calculate_layout_cautious(&NewHugeInit(Huge8Init(z, 0))).map(|l| l.size());
    vp!(got == z, "a newtype has exactly its inner value's size");
    reach!(z.is_some(), "some");
}

// Whatever is constructed has storage that is large enough; everything else is refused.
//@ C01 defs=NULLBIG panic=ok
fn c01_box_huge() {
    let z = any_opt();
    let b: VBox<Huge8> = VBox::new(Huge8Init(z, 0));
    vp!(z.is_some(), "refused when not representable");
    reach!("boxed");
    core::mem::forget(b);
}
//@ C01 defs=BIGOK panic=ok
fn c01_box_huge_big() {
    let z = any_opt();
    let b: VBox<Huge8> = VBox::new(Huge8Init(z, 0));
    vp!(z.is_some() && z.unwrap() as u128 <= MAX, "refused when it does not fit");
    vp!(nd::last_size() == z.unwrap(), "the storage has exactly the value's size");
    reach!(z.unwrap() > 1 << 40, "a huge box");
    core::mem::forget(b);
}
//@ C01 defs=BIGOK
fn c01_box_huge_accepts() {
    let z = nd::usize();
    nd::assume(z >= 16 && z as u128 <= MAX - 64);
    let b: VBox<Huge8> = VBox::new(Huge8Init(Some(z), 0));
    reach!("accepted");
    core::mem::forget(b);
}
//@ C01 defs=BIGOK panic=ok
fn c01_seq_huge1() {
    let (z, y) = (nd::usize(), any_opt());
    nd::assume(z >= 16);
    let mut s: Seq<Huge1> = Seq::new();
    s.push(Huge1Init(Some(z), 0));
    vp!(z as u128 <= MAX && nd::last_size() >= z, "storage holds the element");
    s.push(Huge1Init(y, 1));
    vp!(y.is_some(), "refused when not representable");
    let total = z as u128 + y.unwrap() as u128;
    vp!(total <= MAX && nd::last_size() as u128 >= total, "storage holds both elements");
    vp!(s.capacity_in_offsets() as u128 >= total, "capacity covers both elements");
    reach!(z > 1 << 60, "huge first element");
    reach!(nd::allocs() == 2, "growth");
    core::mem::forget(s);
}
//@ C01 defs=BIGOK panic=ok
fn c01_seq_huge16() {
    let (z, y) = (nd::usize(), any_opt());
    nd::assume(z >= 16);
    let mut s: Seq<Huge16> = Seq::new();
    s.push(Huge16Init(Some(z), 0));
    vp!(z as u128 <= MAX && nd::last_size() >= z, "storage holds the element");
    s.push(Huge16Init(y, 1));
    vp!(y.is_some(), "refused when not representable");
    let total = up(z as u128, 16) + y.unwrap() as u128;
    vp!(total <= MAX && nd::last_size() as u128 >= total, "storage holds both elements");
    vp!(s.capacity_in_offsets() as u128 * 16 >= total, "capacity covers both elements");
    reach!(z > 1 << 60, "huge first element");
    reach!(nd::allocs() == 2, "growth");
    core::mem::forget(s);
}
//@ C01 defs=BIGOK
fn c01_seq_accepts() {
    let (z, y) = (nd::usize(), nd::usize());
    nd::assume(z >= 16 && y >= 16 && z as u128 <= MAX / 4 && y as u128 <= MAX / 4);
    let mut s: Seq<Huge8> = Seq::new();
    s.push(Huge8Init(Some(z), 0));
    s.push(Huge8Init(Some(y), 1));
    vp!(s.len() == 2, "both elements are in the sequence");
    reach!(z > 1 << 60, "huge");
    core::mem::forget(s);
}
//@ C01 defs=NULLBIG panic=ok cpy=12 bank=80
fn c01_idx_huge8() {
    let (z, y) = (nd::usize(), any_opt());
    nd::assume(z >= 16);
    let mut s: varlen::seq::IndexableSeq<Huge8> = Seq::new();
    s.push(Huge8Init(Some(z), 0));
    let bits = |t: u128| up(t, 8) + (t / 8 + 7) / 8;
    vp!(nd::last_size() as u128 >= bits(z as u128), "storage holds the element and its index");
    s.push(Huge8Init(y, 1));
    vp!(y.is_some(), "refused when not representable");
    let total = up(z as u128, 8) + y.unwrap() as u128;
    vp!(nd::last_size() as u128 >= bits(total), "storage holds both elements and their index");
    reach!(nd::allocs() == 2, "growth");
    core::mem::forget(s);
}
//@ C01 defs=NULLBIG panic=ok
fn c01_seq_huge1_null() {
    let (z, y) = (nd::usize(), any_opt());
    nd::assume(z >= 16);
    let mut s: Seq<Huge1> = Seq::new();
    s.push(Huge1Init(Some(z), 0));
    vp!(nd::last_size() >= z, "storage holds the element");
    s.push(Huge1Init(y, 1));
    vp!(y.is_some(), "refused when not representable");
    vp!(nd::last_size() as u128 >= z as u128 + y.unwrap() as u128, "storage holds both elements");
    reach!(nd::allocs() == 2, "growth");
    core::mem::forget(s);
}
}
