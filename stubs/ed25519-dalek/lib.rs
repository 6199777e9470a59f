pub use signature::{self, Error as SignatureError, Signer, Verifier};
pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SECRET_KEY_LENGTH: usize = 32;
pub const SIGNATURE_LENGTH: usize = 64;
pub const KEYPAIR_LENGTH: usize = 64;
pub type SecretKey = [u8; 32];
pub use signature::SignatureEncoding;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Signature([u8; 64]);
impl Signature {
    pub const BYTE_SIZE: usize = 64;
    pub fn from_bytes(b: &[u8; 64]) -> Self {
        Signature(*b)
    }
    pub fn from_slice(b: &[u8]) -> Result<Self, SignatureError> {
        b.try_into().map(Signature).map_err(|_| SignatureError::new())
    }
    pub fn to_bytes(&self) -> [u8; 64] {
        self.0
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
}
impl Signature {
    pub fn from_components(r: [u8; 32], s: [u8; 32]) -> Self {
        let mut b = [0u8; 64];
        b[..32].copy_from_slice(&r);
        b[32..].copy_from_slice(&s);
        Signature(b)
    }
    pub fn r_bytes(&self) -> &[u8; 32] {
        self.0[..32].try_into().unwrap()
    }
    pub fn s_bytes(&self) -> &[u8; 32] {
        self.0[32..].try_into().unwrap()
    }
}
impl SignatureEncoding for Signature {
    type Repr = [u8; 64];
}
impl From<Signature> for [u8; 64] {
    fn from(s: Signature) -> Self {
        s.0
    }
}
impl From<&Signature> for [u8; 64] {
    fn from(s: &Signature) -> Self {
        s.0
    }
}
impl From<[u8; 64]> for Signature {
    fn from(b: [u8; 64]) -> Self {
        Signature(b)
    }
}
impl From<&[u8; 64]> for Signature {
    fn from(b: &[u8; 64]) -> Self {
        Signature(*b)
    }
}
impl TryFrom<&[u8]> for Signature {
    type Error = SignatureError;
    fn try_from(b: &[u8]) -> Result<Self, SignatureError> {
        Self::from_slice(b)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct VerifyingKey([u8; 32]);
impl VerifyingKey {
    /// model: every 32-byte string decodes to a point
    pub fn from_bytes(b: &[u8; 32]) -> Result<Self, SignatureError> {
        Ok(VerifyingKey(*b))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    /// model: generated keys are never weak
    pub fn is_weak(&self) -> bool {
        false
    }
    pub fn verify_strict(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> {
        self.verify(m, s)
    }
}
impl AsRef<[u8]> for VerifyingKey {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl TryFrom<&[u8]> for VerifyingKey {
    type Error = SignatureError;
    fn try_from(b: &[u8]) -> Result<Self, SignatureError> {
        b.try_into().map(VerifyingKey).map_err(|_| SignatureError::new())
    }
}
impl Verifier<Signature> for VerifyingKey {
    fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> {
        let mut o = [0u8; 64];
        ideal::sign(b"ed25", &self.0, m, &mut o);
        if ideal::same(&o, &s.0) {
            Ok(())
        } else {
            Err(SignatureError::new())
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SigningKey([u8; 32]);
impl SigningKey {
    pub fn generate<R: rand_core::CryptoRng + rand_core::RngCore + ?Sized>(r: &mut R) -> Self {
        let mut b = [0u8; 32];
        r.fill_bytes(&mut b);
        SigningKey(b)
    }
    pub fn from_bytes(b: &[u8; 32]) -> Self {
        SigningKey(*b)
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn verifying_key(&self) -> VerifyingKey {
        let mut o = [0u8; 32];
        ideal::public(b"ed25", &self.0, &mut o);
        VerifyingKey(o)
    }
}
impl SigningKey {
    pub fn to_keypair_bytes(&self) -> [u8; 64] {
        let mut b = [0u8; 64];
        b[..32].copy_from_slice(&self.0);
        b[32..].copy_from_slice(&self.verifying_key().0);
        b
    }
    pub fn from_keypair_bytes(b: &[u8; 64]) -> Result<Self, SignatureError> {
        let k = SigningKey(b[..32].try_into().unwrap());
        if ideal::same(&k.verifying_key().0, &b[32..]) {
            Ok(k)
        } else {
            Err(SignatureError::new())
        }
    }
    pub fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> {
        self.verifying_key().verify(m, s)
    }
    pub fn verify_strict(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> {
        self.verifying_key().verify(m, s)
    }
}
impl From<[u8; 32]> for SigningKey {
    fn from(b: [u8; 32]) -> Self {
        SigningKey(b)
    }
}
impl From<&[u8; 32]> for SigningKey {
    fn from(b: &[u8; 32]) -> Self {
        SigningKey(*b)
    }
}
impl AsRef<VerifyingKey> for SigningKey {
    fn as_ref(&self) -> &VerifyingKey {
        Box::leak(Box::new(self.verifying_key()))
    }
}
impl TryFrom<&[u8]> for SigningKey {
    type Error = SignatureError;
    fn try_from(b: &[u8]) -> Result<Self, SignatureError> {
        b.try_into().map(SigningKey).map_err(|_| SignatureError::new())
    }
}
impl From<&SigningKey> for VerifyingKey {
    fn from(k: &SigningKey) -> Self {
        k.verifying_key()
    }
}
impl Signer<Signature> for SigningKey {
    fn try_sign(&self, m: &[u8]) -> Result<Signature, SignatureError> {
        let mut o = [0u8; 64];
        ideal::sign(b"ed25", &self.verifying_key().0, m, &mut o);
        Ok(Signature(o))
    }
}
impl Verifier<Signature> for SigningKey {
    fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> {
        self.verifying_key().verify(m, s)
    }
}
