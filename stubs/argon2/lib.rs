//! Ideal Argon2: parameter and input validation as in argon2 0.5.3, the
//! function itself an injective uninterpreted function of everything.
use core::fmt;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    AdTooLong,
    AlgorithmInvalid,
    KeyIdTooLong,
    MemoryTooLittle,
    MemoryTooMuch,
    OutputTooShort,
    OutputTooLong,
    PwdTooLong,
    SaltTooShort,
    SaltTooLong,
    SecretTooLong,
    ThreadsTooFew,
    ThreadsTooMany,
    TimeTooSmall,
    VersionInvalid,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("argon2 error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = core::result::Result<T, Error>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Algorithm {
    Argon2d = 0,
    Argon2i = 1,
    #[default]
    Argon2id = 2,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Version {
    V0x10 = 0x10,
    #[default]
    V0x13 = 0x13,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Params {
    m_cost: u32,
    t_cost: u32,
    p_cost: u32,
    output_len: Option<usize>,
}
impl Params {
    pub const DEFAULT_M_COST: u32 = 19 * 1024;
    pub const MIN_M_COST: u32 = 8;
    pub const DEFAULT_T_COST: u32 = 2;
    pub const DEFAULT_P_COST: u32 = 1;
    pub const MIN_OUTPUT_LEN: usize = 4;
    pub const MAX_OUTPUT_LEN: usize = 0xFFFFFFFF;
    pub const DEFAULT_OUTPUT_LEN: usize = 32;
    pub const fn new(m_cost: u32, t_cost: u32, p_cost: u32, output_len: Option<usize>) -> Result<Self> {
        if m_cost < 8 {
            return Err(Error::MemoryTooLittle);
        }
        if m_cost < p_cost * 8 {
            return Err(Error::MemoryTooLittle);
        }
        if t_cost < 1 {
            return Err(Error::TimeTooSmall);
        }
        if p_cost < 1 {
            return Err(Error::ThreadsTooFew);
        }
        if p_cost > 0xFFFFFF {
            return Err(Error::ThreadsTooMany);
        }
        if let Some(len) = output_len {
            if len < 4 {
                return Err(Error::OutputTooShort);
            }
            if len > 0xFFFFFFFF {
                return Err(Error::OutputTooLong);
            }
        }
        Ok(Params { m_cost, t_cost, p_cost, output_len })
    }
    pub const fn m_cost(&self) -> u32 {
        self.m_cost
    }
    pub const fn t_cost(&self) -> u32 {
        self.t_cost
    }
    pub const fn p_cost(&self) -> u32 {
        self.p_cost
    }
    pub const fn output_len(&self) -> Option<usize> {
        self.output_len
    }
}
/// collects parameters; they are validated by `build`
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ParamsBuilder(Params);
impl ParamsBuilder {
    pub const fn new() -> Self {
        ParamsBuilder(Params { m_cost: 19 * 1024, t_cost: 2, p_cost: 1, output_len: None })
    }
    pub fn m_cost(&mut self, m: u32) -> &mut Self {
        self.0.m_cost = m;
        self
    }
    pub fn t_cost(&mut self, t: u32) -> &mut Self {
        self.0.t_cost = t;
        self
    }
    pub fn p_cost(&mut self, p: u32) -> &mut Self {
        self.0.p_cost = p;
        self
    }
    pub fn output_len(&mut self, l: usize) -> &mut Self {
        self.0.output_len = Some(l);
        self
    }
    pub fn build(&self) -> Result<Params> {
        Params::new(self.0.m_cost, self.0.t_cost, self.0.p_cost, self.0.output_len)
    }
}
impl Default for ParamsBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl Default for Params {
    fn default() -> Self {
        Params { m_cost: 19 * 1024, t_cost: 2, p_cost: 1, output_len: None }
    }
}
#[derive(Clone, Default)]
pub struct Argon2<'k> {
    algorithm: Algorithm,
    version: Version,
    params: Params,
    secret: Option<&'k [u8]>,
}
impl<'k> Argon2<'k> {
    pub fn new(algorithm: Algorithm, version: Version, params: Params) -> Self {
        Argon2 { algorithm, version, params, secret: None }
    }
    pub fn new_with_secret(secret: &'k [u8], algorithm: Algorithm, version: Version, params: Params) -> Result<Self> {
        Ok(Argon2 { algorithm, version, params, secret: Some(secret) })
    }
    pub fn params(&self) -> &Params {
        &self.params
    }
    pub fn hash_password_into(&self, pwd: &[u8], salt: &[u8], out: &mut [u8]) -> Result<()> {
        if out.len() < self.params.output_len().unwrap_or(4) {
            return Err(Error::OutputTooShort);
        }
        if out.len() > self.params.output_len().unwrap_or(0xFFFFFFFF) {
            return Err(Error::OutputTooLong);
        }
        if pwd.len() > 0xFFFFFFFF {
            return Err(Error::PwdTooLong);
        }
        if salt.len() < 8 {
            return Err(Error::SaltTooShort);
        }
        let mut tag = b"argn".to_vec();
        tag.push(self.algorithm as u8);
        tag.push(self.version as u8);
        for v in [self.params.m_cost, self.params.t_cost, self.params.p_cost] {
            tag.extend_from_slice(&v.to_le_bytes());
        }
        tag.push(self.secret.is_some() as u8);
        ideal::uf(0x4000 + out.len() as u32, &tag, &[self.secret.unwrap_or(&[]), pwd, salt], out);
        Ok(())
    }
}
impl From<Params> for Argon2<'_> {
    fn from(params: Params) -> Self {
        Argon2::new(Algorithm::default(), Version::default(), params)
    }
}
