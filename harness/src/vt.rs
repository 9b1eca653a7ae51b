//! Values used by the harnesses.
use crate::nd;
use core::pin::Pin;
use core::ptr::NonNull;
use varlen::{Initializer, Layout, VarLen};

/// How often the destructor of each identified value has run.
pub static mut DROPS: [u8; 16] = [0; 16];
pub fn drops(id: u8) -> u8 {
    unsafe { DROPS[(id & 15) as usize] }
}
pub fn note_drop(id: u8) {
    unsafe { DROPS[(id & 15) as usize] += 1 }
}

/// A value whose destructor is counted.
#[derive(PartialEq, Eq)]
pub struct Tok(pub u8);
impl Drop for Tok {
    fn drop(&mut self) {
        note_drop(self.0)
    }
}
/// Cloning gives the value with the next id.
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok(self.0 + 1)
    }
}

pub struct Size(pub usize);
impl Layout for Size {
    fn size(&self) -> usize {
        self.0
    }
}

// Some of these types are more aligned (`VarLen::ALIGN`) than their Rust header (`align_of`), as
// e.g. arrays of aligned elements with a short length field are.
/// A variable-length value of any byte size from its header size up to 255 bytes: a header that
/// records identity and size, and a tail byte that repeats the identity.
pub trait Blob: VarLen<Layout = Size> {
    type Init: Initializer<Self>;
    const HDR: usize;
    fn of(id: u8, size: usize) -> Self::Init;
    fn id(&self) -> u8;
    fn set_id(self: Pin<&mut Self>, id: u8);
    /// Is this the value built by `of(id, size)`?
    fn is(&self, id: u8, size: usize) -> bool;
}

macro_rules! blob {
    ($name:ident, $init:ident, $align:literal, $rust:literal) => {
        #[repr(C, align($rust))]
        pub struct $name {
            id: u8,
            size: u8,
        }
        pub struct $init {
            pub id: u8,
            pub size: usize,
        }
        unsafe impl VarLen for $name {
            type Layout = Size;
            fn calculate_layout(&self) -> Size {
                Size(self.size as usize)
            }
            const ALIGN: usize = $align;
            const NEEDS_VDROP: bool = true;
            unsafe fn vdrop(self: Pin<&mut Self>, layout: Size) {
                vp!(layout.0 == self.size as usize, "destructor is given the layout of its value");
                note_drop(self.id);
                // What a destroyed value holds is nobody's business any more.
                let s = self.get_unchecked_mut();
                s.id = 0xEE;
                s.size = 0xED;
            }
        }
        unsafe impl Initializer<$name> for $init {
            fn calculate_layout_cautious(&self) -> Option<Size> {
                Some(Size(self.size))
            }
            unsafe fn initialize(self, dst: NonNull<$name>, layout: Size) {
                vp!(layout.0 == self.size, "initializer is given back the layout it asked for");
                vp!(dst.as_ptr() as usize % $align == 0, "value is placed at an aligned address");
                dst.as_ptr().write($name { id: self.id, size: self.size as u8 });
                if self.size > core::mem::size_of::<$name>() {
                    *(dst.as_ptr() as *mut u8).add(self.size - 1) = self.id;
                }
            }
        }
        impl Blob for $name {
            type Init = $init;
            const HDR: usize = core::mem::size_of::<$name>();
            fn of(id: u8, size: usize) -> $init {
                $init { id, size }
            }
            fn id(&self) -> u8 {
                self.id
            }
            fn set_id(self: Pin<&mut Self>, id: u8) {
                unsafe {
                    let s = self.get_unchecked_mut();
                    s.id = id;
                    if s.size as usize > Self::HDR {
                        *(s as *mut Self as *mut u8).add(s.size as usize - 1) = id;
                    }
                }
            }
            fn is(&self, id: u8, size: usize) -> bool {
                if self.id != id || self.size as usize != size {
                    return false;
                }
                size <= Self::HDR
                    || unsafe { *(self as *const Self as *const u8).add(size - 1) == id }
            }
        }
    };
}
blob!(Blob1, Blob1Init, 1, 1);
blob!(Blob2, Blob2Init, 2, 1);
blob!(Blob4, Blob4Init, 4, 4);
blob!(Blob8, Blob8Init, 8, 1);
blob!(Blob16, Blob16Init, 16, 2);

/// Any size for a blob of type T up to `max`.
pub fn any_size<T: Blob>(max: usize) -> usize {
    nd::range(T::HDR, max)
}

pub fn round_up(n: usize, a: usize) -> usize {
    (n + a - 1) / a * a
}

/// A 16-aligned block of arbitrary bytes.
#[repr(C, align(16))]
pub struct Buf<const N: usize>(pub [u8; N]);
impl<const N: usize> Buf<N> {
    pub fn any() -> Self {
        #[cfg(kani)]
        {
            Buf(kani::any())
        }
        #[cfg(not(kani))]
        {
            Buf([crate::native::fill(); N])
        }
    }
    pub fn copy(&self) -> Self {
        Buf(self.0)
    }
    /// All bytes outside `lo..hi` are as in `old` (for an arbitrarily chosen byte).
    pub fn same_outside(&self, old: &Self, lo: usize, hi: usize) -> bool {
        let k = nd::below(N);
        (k >= lo && k < hi) || self.0[k] == old.0[k]
    }
}

/// Initializes nothing; the slots keep whatever the memory holds.
pub struct Skip;
unsafe impl<T> varlen::array_init::ArrayInitializer<T> for Skip {
    fn initialize(self, _dst: &mut [core::mem::MaybeUninit<T>]) {}
}

/// A value of any claimed size whatsoever, aligned to A; never touches memory, but checks that the
/// storage it is given is really that large. Its size is remembered in a static, by id.
pub static mut HUGE: [usize; 4] = [0; 4];
pub static mut HUGE_AT: [usize; 4] = [0; 4];
macro_rules! huge {
    ($name:ident, $init:ident, $align:literal, $rust:literal) => {
        #[repr(C, align($rust))]
        pub struct $name(u8);
        /// Size to claim (`None`: not representable) and id.
        pub struct $init(pub Option<usize>, pub u8);
        unsafe impl VarLen for $name {
            type Layout = Size;
            fn calculate_layout(&self) -> Size {
                let id = crate::vt::huge_id(self as *const Self as usize);
                Size(unsafe { HUGE[id] })
            }
            const ALIGN: usize = $align;
            const NEEDS_VDROP: bool = false;
            unsafe fn vdrop(self: Pin<&mut Self>, _: Size) {}
        }
        unsafe impl Initializer<$name> for $init {
            fn calculate_layout_cautious(&self) -> Option<Size> {
                self.0.map(Size)
            }
            unsafe fn initialize(self, dst: NonNull<$name>, layout: Size) {
                let want = self.0.unwrap_or(usize::MAX);
                vp!(self.0.is_some(), "a value whose size is not representable is never constructed");
                vp!(layout.0 == want, "initializer is given back the layout it asked for");
                let at = dst.as_ptr() as usize;
                vp!(at != 0, "nothing is written through a null pointer");
                vp!(at % $align == 0, "value is placed at an aligned address");
                let (base, size) = (nd::last_addr(), nd::last_size());
                // (addresses are modelled exactly for offsets below 2^53 only)
                if size < 1 << 50 {
                    vp!(at >= base, "value is placed inside the storage");
                    let off = (at - base) as u128;
                    vp!(off + want as u128 <= size as u128, "value is placed into storage that is large enough for it");
                }
                HUGE[self.1 as usize] = want;
                HUGE_AT[self.1 as usize] = at;
            }
        }
    };
}
pub fn huge_id(at: usize) -> usize {
    unsafe {
        let mut i = 0;
        while i < 3 {
            if HUGE_AT[i] == at {
                return i;
            }
            i += 1;
        }
        3
    }
}
huge!(Huge1, Huge1Init, 1, 1);
huge!(Huge8, Huge8Init, 8, 1);
huge!(Huge16, Huge16Init, 16, 16);
