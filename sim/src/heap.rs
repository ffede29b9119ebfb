//! The growable storage of the moment: the vector the library supports under `std`, and without `std`
//! the same behaviour supplied from outside through the library's buffer traits.
#[cfg(feature = "std")]
pub use with_std::*;
#[cfg(not(feature = "std"))]
pub use without_std::*;

#[cfg(feature = "std")]
mod with_std {
    pub type Heap<U> = Vec<U>;
    pub fn heap<U>(v: Vec<U>) -> Heap<U> {
        v
    }
}

#[cfg(not(feature = "std"))]
mod without_std {
    use crate::simbuf::SimUnit;
    use midi2::buffer::{
        Buffer, BufferDefault, BufferMut, BufferResize, FromBuffer, TryFromBuffer,
    };
    use midi2::error::BufferOverflow;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Heap<U>(pub Vec<U>);
    pub fn heap<U>(v: Vec<U>) -> Heap<U> {
        Heap(v)
    }
    impl<U: SimUnit> Buffer for Heap<U> {
        type Unit = U;
        fn buffer(&self) -> &[U] {
            &self.0
        }
    }
    impl<U: SimUnit> BufferMut for Heap<U> {
        fn buffer_mut(&mut self) -> &mut [U] {
            &mut self.0
        }
    }
    impl<U: SimUnit> BufferResize for Heap<U> {
        fn resize(&mut self, size: usize) {
            self.0.resize(size, U::from_u64(0))
        }
    }
    impl<U: SimUnit> BufferDefault for Heap<U> {
        fn default() -> Self {
            Heap(Vec::new())
        }
    }
    impl<U: SimUnit> Buffer for &mut Heap<U> {
        type Unit = U;
        fn buffer(&self) -> &[U] {
            &self.0
        }
    }
    impl<U: SimUnit> BufferMut for &mut Heap<U> {
        fn buffer_mut(&mut self) -> &mut [U] {
            &mut self.0
        }
    }
    impl<U: SimUnit> BufferResize for &mut Heap<U> {
        fn resize(&mut self, size: usize) {
            self.0.resize(size, U::from_u64(0))
        }
    }
    impl<U: SimUnit> FromBuffer<&[U]> for Heap<U> {
        fn from_buffer(v: &[U]) -> Self {
            Heap(v.to_vec())
        }
    }
    impl<U: SimUnit> FromBuffer<&mut [U]> for Heap<U> {
        fn from_buffer(v: &mut [U]) -> Self {
            Heap(v.to_vec())
        }
    }
    impl<U: SimUnit, const N: usize> FromBuffer<[U; N]> for Heap<U> {
        fn from_buffer(v: [U; N]) -> Self {
            Heap(v.to_vec())
        }
    }
    impl<U: SimUnit, const N: usize> TryFromBuffer<Heap<U>> for [U; N] {
        fn try_from_buffer(v: Heap<U>) -> Result<Self, BufferOverflow> {
            TryFromBuffer::<&[U]>::try_from_buffer(&v.0[..])
        }
        fn try_from_message_buffer(v: Heap<U>, n: usize) -> Result<Self, BufferOverflow> {
            TryFromBuffer::<&[U]>::try_from_message_buffer(&v.0[..], n)
        }
    }
}
