pub const OUT_LEN: usize = 32;
pub const KEY_LEN: usize = 32;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Hash([u8; 32]);
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn from_bytes(b: [u8; 32]) -> Self {
        Hash(b)
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> Self {
        h.0
    }
}
impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
fn block(msg: &[u8], n: u64) -> [u8; 32] {
    let mut o = [0u8; 32];
    if n == 0 {
        ideal::hash(b"bl3.", msg, &mut o);
    } else {
        let mut t = b"bl3x".to_vec();
        t.extend_from_slice(&n.to_le_bytes());
        ideal::hash(&t, msg, &mut o);
    }
    o
}
pub fn hash(input: &[u8]) -> Hash {
    Hash(block(input, 0))
}
#[derive(Clone, Debug, Default)]
pub struct Hasher {
    buf: Vec<u8>,
}
impl Hasher {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn update(&mut self, d: &[u8]) -> &mut Self {
        self.buf.extend_from_slice(d);
        self
    }
    pub fn reset(&mut self) -> &mut Self {
        self.buf.clear();
        self
    }
    pub fn count(&self) -> u64 {
        self.buf.len() as u64
    }
    pub fn finalize(&self) -> Hash {
        hash(&self.buf)
    }
    pub fn finalize_xof(&self) -> OutputReader {
        OutputReader { buf: self.buf.clone(), pos: 0 }
    }
}
#[derive(Clone, Debug)]
pub struct OutputReader {
    buf: Vec<u8>,
    pos: u64,
}
impl OutputReader {
    /// the first 32 bytes of the extended output are the plain digest
    pub fn fill(&mut self, out: &mut [u8]) {
        let mut cur = (u64::MAX, [0u8; 32]);
        for b in out.iter_mut() {
            let k = self.pos / 32;
            if cur.0 != k {
                cur = (k, block(&self.buf, k));
            }
            *b = cur.1[(self.pos % 32) as usize];
            self.pos += 1;
        }
    }
    pub fn position(&self) -> u64 {
        self.pos
    }
    pub fn set_position(&mut self, p: u64) {
        self.pos = p
    }
}
impl std::io::Write for Hasher {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        self.update(d);
        Ok(d.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Read for OutputReader {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.fill(out);
        Ok(out.len())
    }
}
impl From<[u8; 32]> for Hash {
    fn from(b: [u8; 32]) -> Self {
        Hash(b)
    }
}
