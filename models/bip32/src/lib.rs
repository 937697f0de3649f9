//! Model of `bip32`: root and child derivation are uninterpreted functions.
use std::fmt;
use vrt::alg;
pub type Result<T> = core::result::Result<T, Error>;
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
#[non_exhaustive]
pub enum Error {
    Base58,
    Bip39,
    ChildNumber,
    Crypto,
    Decode,
    Depth,
    SeedLength,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("bip32 error")
    }
}
impl std::error::Error for Error {}

#[derive(Copy, Clone, Debug, Default, Eq, PartialEq, PartialOrd, Ord, Hash)]
pub struct ChildNumber(pub u32);
impl ChildNumber {
    pub const HARDENED_FLAG: u32 = 1 << 31;
    pub fn new(index: u32, hardened: bool) -> Result<Self> {
        if index & Self::HARDENED_FLAG == 0 {
            Ok(Self(index | if hardened { Self::HARDENED_FLAG } else { 0 }))
        } else {
            Err(Error::ChildNumber)
        }
    }
    pub fn index(self) -> u32 {
        self.0 & !Self::HARDENED_FLAG
    }
    pub fn is_hardened(self) -> bool {
        self.0 & Self::HARDENED_FLAG != 0
    }
    pub fn to_bytes(self) -> [u8; 4] {
        self.0.to_be_bytes()
    }
    pub fn from_bytes(b: [u8; 4]) -> Self {
        Self(u32::from_be_bytes(b))
    }
}
impl From<u32> for ChildNumber {
    fn from(n: u32) -> Self {
        Self(n)
    }
}
impl From<ChildNumber> for u32 {
    fn from(n: ChildNumber) -> Self {
        n.0
    }
}
impl fmt::Display for ChildNumber {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.index())?;
        if self.is_hardened() {
            f.write_str("'")?;
        }
        Ok(())
    }
}
impl std::str::FromStr for ChildNumber {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self> {
        let (num, hardened) = match s.strip_suffix('\'') {
            Some(n) => (n, true),
            None => (s, false),
        };
        let index: u32 = num.parse().map_err(|_| Error::Decode)?;
        Self::new(index, hardened)
    }
}
#[derive(Clone, Default, Eq, PartialEq, Debug)]
pub struct DerivationPath {
    path: Vec<ChildNumber>,
}
impl std::str::FromStr for DerivationPath {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self> {
        let mut it = s.split('/');
        if it.next() != Some("m") {
            return Err(Error::Decode);
        }
        Ok(Self { path: it.map(str::parse).collect::<Result<_>>()? })
    }
}
impl DerivationPath {
    pub fn iter(&self) -> impl Iterator<Item = ChildNumber> + '_ {
        self.path.iter().copied()
    }
    pub fn is_empty(&self) -> bool {
        self.path.is_empty()
    }
    pub fn len(&self) -> usize {
        self.path.len()
    }
    pub fn push(&mut self, c: ChildNumber) {
        self.path.push(c)
    }
    pub fn parent(&self) -> Option<Self> {
        let (_, rest) = self.path.split_last()?;
        Some(Self { path: rest.to_vec() })
    }
}
impl AsRef<[ChildNumber]> for DerivationPath {
    fn as_ref(&self) -> &[ChildNumber] {
        &self.path
    }
}
impl fmt::Display for DerivationPath {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("m")?;
        self.path.iter().try_for_each(|c| write!(f, "/{c}"))
    }
}
impl Extend<ChildNumber> for DerivationPath {
    fn extend<T: IntoIterator<Item = ChildNumber>>(&mut self, iter: T) {
        self.path.extend(iter);
    }
}
impl IntoIterator for DerivationPath {
    type Item = ChildNumber;
    type IntoIter = std::vec::IntoIter<ChildNumber>;
    fn into_iter(self) -> Self::IntoIter {
        self.path.into_iter()
    }
}

pub type PrivateKeyBytes = [u8; 32];
pub type PublicKeyBytes = [u8; 33];
pub type ChainCode = [u8; 32];
pub type Depth = u8;
pub type KeyFingerprint = [u8; 4];
/// The real crate's trait of this name, so that importing it compiles.
pub trait PrivateKey {
    fn to_bytes(&self) -> [u8; 32];
}
pub trait PublicKey {
    fn to_bytes(&self) -> [u8; 33];
}
impl PrivateKey for PrivateKeyModel {
    fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}
impl PublicKey for PublicKeyModel {
    fn to_bytes(&self) -> [u8; 33] {
        self.0
    }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct ExtendedKeyAttrs {
    pub depth: Depth,
    pub child_number: ChildNumber,
    pub chain_code: ChainCode,
}
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct PublicKeyModel([u8; 33]);
impl PublicKeyModel {
    pub fn to_bytes(&self) -> [u8; 33] {
        self.0
    }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PrivateKeyModel([u8; 32]);
impl PrivateKeyModel {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct XPrv {
    key: PrivateKeyModel,
    attrs: ExtendedKeyAttrs,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct XPub {
    key: PublicKeyModel,
    attrs: ExtendedKeyAttrs,
}
impl XPub {
    pub fn to_bytes(&self) -> [u8; 33] {
        self.key.0
    }
    pub fn public_key(&self) -> &PublicKeyModel {
        &self.key
    }
    pub fn attrs(&self) -> &ExtendedKeyAttrs {
        &self.attrs
    }
}
impl From<&XPrv> for XPub {
    fn from(x: &XPrv) -> Self {
        x.public_key()
    }
}
impl XPrv {
    fn from_uf(out: &[u8; 65], depth: u8, child: ChildNumber) -> Result<Self> {
        let mut k = [0u8; 32];
        k.copy_from_slice(&out[..32]);
        let mut c = [0u8; 32];
        c.copy_from_slice(&out[32..64]);
        if out[64] & 1 == 0 || secp256k1m::SecretKey::from_slice(&k).is_err() {
            return Err(Error::Crypto);
        }
        Ok(Self { key: PrivateKeyModel(k), attrs: ExtendedKeyAttrs { depth, child_number: child, chain_code: c } })
    }
    pub fn new<S: AsRef<[u8]>>(seed: S) -> Result<Self> {
        let s = seed.as_ref();
        if ![16, 32, 64].contains(&s.len()) {
            return Err(Error::SeedLength);
        }
        let mut out = [0u8; 65];
        vrt::uf(alg::BIP32_ROOT, s, &mut out);
        Self::from_uf(&out, 0, ChildNumber(0))
    }
    pub fn derive_child(&self, n: ChildNumber) -> Result<Self> {
        let depth = self.attrs.depth.checked_add(1).ok_or(Error::Depth)?;
        let mut inp = [0u8; 68];
        inp[..32].copy_from_slice(&self.key.0);
        inp[32..64].copy_from_slice(&self.attrs.chain_code);
        inp[64..].copy_from_slice(&n.0.to_be_bytes());
        let mut out = [0u8; 65];
        vrt::uf(alg::BIP32_CKD, &inp, &mut out);
        Self::from_uf(&out, depth, n)
    }
    pub fn derive_from_path<S: AsRef<[u8]>>(seed: S, path: &DerivationPath) -> Result<Self> {
        let mut k = Self::new(seed)?;
        for c in path.iter() {
            k = k.derive_child(c)?;
        }
        Ok(k)
    }
    pub fn private_key(&self) -> &PrivateKeyModel {
        &self.key
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.key.0
    }
    pub fn public_key(&self) -> XPub {
        XPub { key: PublicKeyModel(secp256k1m::__model_pubkey(&self.key.0)), attrs: self.attrs.clone() }
    }
    pub fn attrs(&self) -> &ExtendedKeyAttrs {
        &self.attrs
    }
}
