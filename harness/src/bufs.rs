//! Buffer kinds supplied by the harness: what a user of the library would write.
use midi2::buffer::*;
use midi2::error::BufferOverflow;

/// User-defined growable buffer (also the workhorse when the `std` feature is off).
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct CVec<U>(pub Vec<U>);
impl<U: Unit> Buffer for CVec<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.0
    }
}
impl<U: Unit> BufferMut for CVec<U> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.0
    }
}
impl<U: Unit> BufferResize for CVec<U> {
    fn resize(&mut self, size: usize) {
        self.0.resize(size, fill())
    }
}
impl<U: Unit> BufferDefault for CVec<U> {
    fn default() -> Self {
        CVec(Vec::new())
    }
}
impl<U: Unit> FromBuffer<&[U]> for CVec<U> {
    fn from_buffer(v: &[U]) -> Self {
        CVec(v.to_vec())
    }
}

impl<U: Unit, const N: usize> FromBuffer<[U; N]> for CVec<U> {
    fn from_buffer(v: [U; N]) -> Self {
        CVec(v.to_vec())
    }
}

thread_local! {
    static FILL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// What the buffers defined here hold where they have grown, once they hold a message.
/// (A buffer that was just created by its `BufferDefault` is clear; `new` relies on that.)
pub fn set_fill(x: u32) {
    FILL.with(|c| c.set(x))
}
pub fn clear<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(u32);
    impl Drop for Reset {
        fn drop(&mut self) {
            set_fill(self.0)
        }
    }
    let _r = Reset(FILL.with(|c| c.replace(0)));
    f()
}
fn fill<U: Unit>() -> U {
    let x = FILL.with(|c| c.get());
    assert!(std::mem::size_of::<U>() <= 4);
    // a unit is u8 or u32
    unsafe { std::mem::transmute_copy(&x) }
}

/// Growable buffer that never shrinks its visible length (legal: only growth is promised).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sticky<U>(pub Vec<U>);
impl<U: Unit> Buffer for Sticky<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.0
    }
}
impl<U: Unit> BufferMut for Sticky<U> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.0
    }
}
impl<U: Unit> BufferResize for Sticky<U> {
    fn resize(&mut self, size: usize) {
        if self.0.len() < size {
            self.0.resize(size, fill())
        }
    }
}
impl<U: Unit> BufferDefault for Sticky<U> {
    fn default() -> Self {
        Sticky(Vec::new())
    }
}
impl<U: Unit> FromBuffer<&[U]> for Sticky<U> {
    fn from_buffer(v: &[U]) -> Self {
        Sticky(v.to_vec())
    }
}

/// Fixed-length buffer with fallible resize, of run-time capacity.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fixed<U>(pub Vec<U>);
impl<U: Unit> Buffer for Fixed<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.0
    }
}
impl<U: Unit> BufferMut for Fixed<U> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.0
    }
}
impl<U: Unit> BufferTryResize for Fixed<U> {
    fn try_resize(&mut self, size: usize) -> Result<(), BufferOverflow> {
        if size > self.0.len() {
            Err(BufferOverflow)
        } else {
            Ok(())
        }
    }
}

/// Array-backed buffer with a real length (like arrayvec/heapless), capacity limited
/// at run time by a thread-local so that a capacity can be chosen through `Default`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Lim<U, const N: usize> {
    pub data: [U; N],
    pub len: usize,
    pub cap: usize,
}
thread_local! {
    pub static LIM_CAP: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
pub fn with_lim_cap<T>(cap: usize, f: impl FnOnce() -> T) -> T {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            LIM_CAP.with(|c| c.set(self.0))
        }
    }
    let _r = Reset(LIM_CAP.with(|c| c.replace(cap)));
    f()
}
impl<U: Unit, const N: usize> Lim<U, N> {
    pub fn with_cap(cap: usize) -> Self {
        Lim { data: [U::zero(); N], len: 0, cap: cap.min(N) }
    }
}
impl<U: Unit, const N: usize> Buffer for Lim<U, N> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.data[..self.len]
    }
}
impl<U: Unit, const N: usize> BufferMut for Lim<U, N> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.data[..self.len]
    }
}
impl<U: Unit, const N: usize> BufferTryResize for Lim<U, N> {
    fn try_resize(&mut self, size: usize) -> Result<(), BufferOverflow> {
        if size > self.cap {
            return Err(BufferOverflow);
        }
        let old = self.len;
        self.len = size;
        if size > old {
            for x in &mut self.data[old..size] {
                *x = fill();
            }
        }
        Ok(())
    }
}
impl<U: Unit, const N: usize> BufferDefault for Lim<U, N> {
    fn default() -> Self {
        Self::with_cap(LIM_CAP.with(|c| c.get()))
    }
}
impl<U: Unit, const N: usize> TryFromBuffer<&[U]> for Lim<U, N> {
    fn try_from_buffer(v: &[U]) -> Result<Self, BufferOverflow> {
        let mut b = <Self as BufferDefault>::default();
        b.try_resize(v.len())?;
        b.data[..v.len()].copy_from_slice(v);
        Ok(b)
    }
}

/// The standard growable buffer, or its stand-in where the library has none
/// (so that the same cases are generated with and without the standard library).
#[cfg(feature = "std")]
pub type StdVec<U> = Vec<U>;
#[cfg(feature = "std")]
pub fn std_vec<U>(v: Vec<U>) -> StdVec<U> {
    v
}
#[cfg(not(feature = "std"))]
pub type StdVec<U> = CVec<U>;
#[cfg(not(feature = "std"))]
pub fn std_vec<U>(v: Vec<U>) -> StdVec<U> {
    CVec(v)
}
