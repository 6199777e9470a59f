pub use digest::{self, Digest};
use digest::consts::*;

macro_rules! ideal_hash {
    ($n:ident, $o:ty, $tag:expr) => {
        #[derive(Clone, Default, Debug)]
        pub struct $n {
            buf: Vec<u8>,
        }
        impl digest::HashMarker for $n {}
        impl digest::OutputSizeUser for $n {
            type OutputSize = $o;
        }
        impl digest::core_api::BlockSizeUser for $n {
            type BlockSize = digest::consts::U64;
        }
        impl digest::Update for $n {
            fn update(&mut self, d: &[u8]) {
                self.buf.extend_from_slice(d)
            }
        }
        impl digest::Reset for $n {
            fn reset(&mut self) {
                self.buf.clear()
            }
        }
        impl digest::FixedOutput for $n {
            fn finalize_into(self, out: &mut digest::Output<Self>) {
                ideal::hash($tag, &self.buf, out.as_mut_slice())
            }
        }
        impl digest::FixedOutputReset for $n {
            fn finalize_into_reset(&mut self, out: &mut digest::Output<Self>) {
                ideal::hash($tag, &self.buf, out.as_mut_slice());
                self.buf.clear()
            }
        }
    };
}
ideal_hash!(Sha224, U28, b"sha2");
ideal_hash!(Sha256, U32, b"sha2");
ideal_hash!(Sha384, U48, b"sha2");
ideal_hash!(Sha512, U64, b"sha2");
ideal_hash!(Sha512_224, U28, b"s512");
ideal_hash!(Sha512_256, U32, b"s512");
