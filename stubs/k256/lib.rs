//! Ideal ECDSA over secp256k1: unique, unforgeable signatures (see ideal).
pub use ecdsa::{Signature, SigningKey, VerifyingKey};
pub type FieldBytes = generic_array::GenericArray<u8, generic_array::typenum::U32>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EncodedPoint(Vec<u8>);
impl EncodedPoint {
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
    pub fn to_bytes(&self) -> Box<[u8]> {
        self.0.clone().into_boxed_slice()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
impl EncodedPoint {
    pub fn from_bytes(b: impl AsRef<[u8]>) -> Result<Self, ::signature::Error> {
        let b = b.as_ref();
        match (b.first(), b.len()) {
            (Some(2 | 3), 33) | (Some(4), 65) => Ok(EncodedPoint(b.to_vec())),
            _ => Err(::signature::Error::new()),
        }
    }
    pub fn is_compressed(&self) -> bool {
        self.0.len() == 33
    }
    pub fn is_empty(&self) -> bool {
        false
    }
}
impl AsRef<[u8]> for EncodedPoint {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
const TAG: &[u8] = b"k256";
/// the group order: a private key is an integer in 1..n
const ORDER: (u128, u128) = (0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFE, 0xBAAEDCE6AF48A03BBFD25E8CD0364141);

pub mod ecdsa {
    use super::*;
    pub use ::signature::{self, Error};
    use ::signature::{RandomizedSigner, Signer, Verifier};
    pub type SignatureBytes = generic_array::GenericArray<u8, generic_array::typenum::U64>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Signature([u8; 64]);
    impl From<Signature> for SignatureBytes {
        fn from(s: Signature) -> Self {
            s.to_bytes()
        }
    }
    impl ::signature::SignatureEncoding for Signature {
        type Repr = SignatureBytes;
    }
    impl Signature {
        pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
            b.try_into().map(Signature).map_err(|_| Error::new())
        }
        pub fn from_bytes(b: &SignatureBytes) -> Result<Self, Error> {
            Self::from_slice(b.as_slice())
        }
        pub fn to_bytes(&self) -> SignatureBytes {
            *SignatureBytes::from_slice(&self.0)
        }
        pub fn split_bytes(&self) -> (FieldBytes, FieldBytes) {
            (*FieldBytes::from_slice(&self.0[..32]), *FieldBytes::from_slice(&self.0[32..]))
        }
        pub fn to_vec(&self) -> Vec<u8> {
            self.0.to_vec()
        }
        pub fn normalize_s(&self) -> Option<Self> {
            None
        }
    }
    impl TryFrom<&[u8]> for Signature {
        type Error = Error;
        fn try_from(b: &[u8]) -> Result<Self, Error> {
            Self::from_slice(b)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct VerifyingKey([u8; 33]);
    impl VerifyingKey {
        /// model: every compressed encoding with tag 2 or 3 decodes to a point
        pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
            let k: [u8; 33] = b.try_into().map_err(|_| Error::new())?;
            if k[0] & 0xfe != 2 {
                return Err(Error::new());
            }
            Ok(VerifyingKey(k))
        }
        pub fn to_encoded_point(&self, compress: bool) -> EncodedPoint {
            if compress {
                EncodedPoint(self.0.to_vec())
            } else {
                let mut y = [0u8; 32];
                ideal::uf(0x2100, TAG, &[&self.0], &mut y);
                let mut v = vec![4u8];
                v.extend_from_slice(&self.0[1..]);
                v.extend_from_slice(&y);
                EncodedPoint(v)
            }
        }
        /// in the default form of the curve
        pub fn to_sec1_bytes(&self) -> Box<[u8]> {
            self.to_encoded_point(true).to_bytes()
        }
        pub fn from_encoded_point(p: &EncodedPoint) -> Result<Self, Error> {
            Self::from_sec1_bytes(p.as_bytes())
        }
    }
    impl TryFrom<&[u8]> for VerifyingKey {
        type Error = Error;
        fn try_from(b: &[u8]) -> Result<Self, Error> {
            Self::from_sec1_bytes(b)
        }
    }
    impl Verifier<Signature> for VerifyingKey {
        fn verify(&self, m: &[u8], s: &Signature) -> Result<(), Error> {
            let mut o = [0u8; 64];
            ideal::sign(TAG, &self.0, m, &mut o);
            if ideal::same(&o, &s.0) {
                Ok(())
            } else {
                Err(Error::new())
            }
        }
    }
    impl From<VerifyingKey> for EncodedPoint {
        fn from(k: VerifyingKey) -> Self {
            k.to_encoded_point(true)
        }
    }
    impl From<&VerifyingKey> for EncodedPoint {
        fn from(k: &VerifyingKey) -> Self {
            k.to_encoded_point(true)
        }
    }
    impl TryFrom<&[u8]> for SigningKey {
        type Error = Error;
        fn try_from(b: &[u8]) -> Result<Self, Error> {
            Self::from_slice(b)
        }
    }
    impl AsRef<VerifyingKey> for SigningKey {
        fn as_ref(&self) -> &VerifyingKey {
            self.verifying_key()
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SigningKey([u8; 32]);
    impl SigningKey {
        pub fn random<R: rand_core::CryptoRng + rand_core::RngCore + ?Sized>(r: &mut R) -> Self {
            // rejection sampling: the last draw, assumed to be in range
            extern "C" {
                fn sym_assume(c: bool);
            }
            let mut b = [0u8; 32];
            r.fill_bytes(&mut b);
            unsafe { sym_assume(Self::in_range(&b)) }
            SigningKey(b)
        }
        fn in_range(k: &[u8; 32]) -> bool {
            let hi = u128::from_be_bytes(k[..16].try_into().unwrap());
            let lo = u128::from_be_bytes(k[16..].try_into().unwrap());
            let zero = (hi == 0) & (lo == 0);
            let less = (hi < ORDER.0) | ((hi == ORDER.0) & (lo < ORDER.1));
            !zero & less
        }
        pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
            let k: [u8; 32] = b.try_into().map_err(|_| Error::new())?;
            if !Self::in_range(&k) {
                return Err(Error::new());
            }
            Ok(SigningKey(k))
        }
        pub fn from_bytes(b: &FieldBytes) -> Result<Self, Error> {
            Self::from_slice(b.as_slice())
        }
        pub fn to_bytes(&self) -> FieldBytes {
            *FieldBytes::from_slice(&self.0)
        }
        pub fn verifying_key(&self) -> &VerifyingKey {
            Box::leak(Box::new(VerifyingKey::from(self)))
        }
    }
    impl From<&SigningKey> for VerifyingKey {
        fn from(k: &SigningKey) -> Self {
            let mut x = [0u8; 32];
            let mut y = [0u8; 1];
            ideal::public(TAG, &k.0, &mut x);
            // parity of the y coordinate: an arbitrary function of the key
            ideal::uf_any(TAG, &k.0, &mut y);
            let mut o = [0u8; 33];
            o[0] = 2 | (y[0] & 1);
            o[1..].copy_from_slice(&x);
            VerifyingKey(o)
        }
    }
    impl From<SigningKey> for VerifyingKey {
        fn from(k: SigningKey) -> Self {
            Self::from(&k)
        }
    }
    impl Signer<Signature> for SigningKey {
        fn try_sign(&self, m: &[u8]) -> Result<Signature, Error> {
            let mut o = [0u8; 64];
            ideal::sign(TAG, &VerifyingKey::from(self).0, m, &mut o);
            Ok(Signature(o))
        }
    }
    impl RandomizedSigner<Signature> for SigningKey {
        fn try_sign_with_rng(&self, _r: &mut impl rand_core::CryptoRngCore, m: &[u8]) -> Result<Signature, Error> {
            self.try_sign(m)
        }
    }
}
