pub use digest::{self, Digest};
use digest::consts::*;

macro_rules! ideal_hash {
    ($n:ident, $tag:expr) => {
        #[derive(Clone, Default, Debug)]
        pub struct $n<O = U64> {
            buf: Vec<u8>,
            o: core::marker::PhantomData<O>,
        }
        impl<O> digest::HashMarker for $n<O> {}
        impl<O: digest::generic_array::ArrayLength<u8> + 'static> digest::OutputSizeUser for $n<O> {
            type OutputSize = O;
        }
        impl<O> digest::core_api::BlockSizeUser for $n<O> {
            type BlockSize = digest::consts::U64;
        }
        impl<O> digest::Update for $n<O> {
            fn update(&mut self, d: &[u8]) {
                self.buf.extend_from_slice(d)
            }
        }
        impl<O> digest::Reset for $n<O> {
            fn reset(&mut self) {
                self.buf.clear()
            }
        }
        impl<O: digest::generic_array::ArrayLength<u8> + 'static> digest::FixedOutput for $n<O> {
            fn finalize_into(self, out: &mut digest::Output<Self>) {
                ideal::hash($tag, &self.buf, out.as_mut_slice())
            }
        }
        impl<O: digest::generic_array::ArrayLength<u8> + 'static> digest::FixedOutputReset for $n<O> {
            fn finalize_into_reset(&mut self, out: &mut digest::Output<Self>) {
                ideal::hash($tag, &self.buf, out.as_mut_slice());
                self.buf.clear()
            }
        }
    };
}
ideal_hash!(Blake2b, b"bl2b");
ideal_hash!(Blake2s, b"bl2s");
pub type Blake2b512 = Blake2b<U64>;
pub type Blake2s256 = Blake2s<U32>;
