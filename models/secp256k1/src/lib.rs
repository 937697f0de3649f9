//! Model of the part of `secp256k1` 0.28 the repository can reach.
//!
//! * a secret key is 32 bytes, non-zero and below the group order (exact);
//! * `public_key` is an uninterpreted function of the secret key with prefix 2 or 3;
//! * point validity and signature-scalar validity are uninterpreted predicates;
//! * `sign` is an uninterpreted (deterministic) function of message and key whose
//!   result is well formed and for which `recover(msg, sig)` is the signer's key;
//! * `recover` on any other input is arbitrary but functional.
use std::fmt;
use vrt::alg;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct InvalidParityValue(pub i32);

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Error {
    IncorrectSignature,
    InvalidMessage,
    InvalidPublicKey,
    InvalidSignature,
    InvalidSecretKey,
    InvalidSharedSecret,
    InvalidRecoveryId,
    InvalidTweak,
    NotEnoughMemory,
    InvalidPublicKeySum,
    InvalidParityValue(InvalidParityValue),
    InvalidEllSwift,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("secp256k1 error")
    }
}
impl std::error::Error for Error {}

pub mod constants {
    pub const SECRET_KEY_SIZE: usize = 32;
    pub const PUBLIC_KEY_SIZE: usize = 33;
    pub const UNCOMPRESSED_PUBLIC_KEY_SIZE: usize = 65;
    pub const MESSAGE_SIZE: usize = 32;
    pub const CURVE_ORDER: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
        0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36,
        0x41, 0x41,
    ];
}

fn scalar_ok(b: &[u8; 32]) -> bool {
    let hi = u128::from_be_bytes(b[..16].try_into().unwrap());
    let lo = u128::from_be_bytes(b[16..].try_into().unwrap());
    let o = constants::CURVE_ORDER;
    let ohi = u128::from_be_bytes(o[..16].try_into().unwrap());
    let olo = u128::from_be_bytes(o[16..].try_into().unwrap());
    ((hi | lo) != 0) & ((hi < ohi) | ((hi == ohi) & (lo < olo)))
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum All {}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum SignOnly {}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum VerifyOnly {}
pub trait Context {}
pub trait Signing: Context {}
pub trait Verification: Context {}
impl Context for All {}
impl Context for SignOnly {}
impl Context for VerifyOnly {}
impl Signing for All {}
impl Signing for SignOnly {}
impl Verification for All {}
impl Verification for VerifyOnly {}

pub struct Secp256k1<C: Context> {
    _p: std::marker::PhantomData<C>,
}
impl<C: Context> Secp256k1<C> {
    pub fn seeded_randomize(&mut self, _seed: &[u8; 32]) {}
}
impl<C: Context> PartialEq for Secp256k1<C> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl<C: Context> Eq for Secp256k1<C> {}
impl<C: Context> fmt::Debug for Secp256k1<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("<secp256k1 context>")
    }
}
impl Secp256k1<All> {
    pub fn new() -> Self {
        Self { _p: std::marker::PhantomData }
    }
    pub fn gen_new() -> Self {
        Self::new()
    }
}
impl Default for Secp256k1<All> {
    fn default() -> Self {
        Self::new()
    }
}
impl<C: Context> Clone for Secp256k1<C> {
    fn clone(&self) -> Self {
        Self { _p: std::marker::PhantomData }
    }
}
impl Secp256k1<SignOnly> {
    pub fn signing_only() -> Self {
        Self { _p: std::marker::PhantomData }
    }
}
impl Secp256k1<VerifyOnly> {
    pub fn verification_only() -> Self {
        Self { _p: std::marker::PhantomData }
    }
}

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct SecretKey([u8; 32]);
impl fmt::Debug for SecretKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SecretKey(..)")
    }
}
impl SecretKey {
    pub fn from_slice(data: &[u8]) -> Result<Self, Error> {
        match <[u8; 32]>::try_from(data) {
            Ok(b) if scalar_ok(&b) => Ok(Self(b)),
            _ => Err(Error::InvalidSecretKey),
        }
    }
    pub fn public_key<C: Signing>(&self, secp: &Secp256k1<C>) -> PublicKey {
        PublicKey::from_secret_key(secp, self)
    }
    pub fn secret_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn display_secret(&self) -> String {
        hex(&self.0)
    }
    pub fn non_secure_erase(&mut self) {
        self.0 = [1; 32];
    }
}
impl AsRef<[u8; 32]> for SecretKey {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl<I> std::ops::Index<I> for SecretKey
where
    [u8]: std::ops::Index<I>,
{
    type Output = <[u8] as std::ops::Index<I>>::Output;
    fn index(&self, i: I) -> &Self::Output {
        &self.0[i]
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().flat_map(|x| [x >> 4, x & 15]).map(|d| char::from(b"0123456789abcdef"[usize::from(d)])).collect()
}
fn unhex<const N: usize>(s: &str) -> Option<[u8; N]> {
    let b = s.as_bytes();
    if b.len() != 2 * N {
        return None;
    }
    let mut out = [0u8; N];
    for i in 0..N {
        let h = |c: u8| (c as char).to_digit(16);
        out[i] = (h(b[2 * i])? * 16 + h(b[2 * i + 1])?) as u8;
    }
    Some(out)
}
impl std::str::FromStr for SecretKey {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        Self::from_slice(&unhex::<32>(s).ok_or(Error::InvalidSecretKey)?)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PublicKey([u8; 33]);
impl fmt::Debug for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("PublicKey(..)")
    }
}
/// Shared with the `bip32` model: compressed public key of a secret key.
#[doc(hidden)]
pub fn __model_pubkey(sk: &[u8; 32]) -> [u8; 33] {
    let mut b = [0u8; 33];
    vrt::uf(alg::PUBKEY, sk, &mut b);
    b[0] = 2 | (b[0] & 1);
    let mut v = [0u8; 1];
    vrt::uf(alg::PKVALID, &b, &mut v);
    vrt::assume(v[0] & 1 == 1);
    b
}
impl PublicKey {
    pub fn from_secret_key<C: Signing>(_: &Secp256k1<C>, sk: &SecretKey) -> Self {
        Self(__model_pubkey(&sk.0))
    }
    pub fn from_slice(data: &[u8]) -> Result<Self, Error> {
        match data.len() {
            33 => {
                let mut b = [0u8; 33];
                b.copy_from_slice(data);
                let mut v = [0u8; 1];
                vrt::uf(alg::PKVALID, &b, &mut v);
                if ((b[0] & 0xfe) == 2) & (v[0] & 1 == 1) {
                    Ok(Self(b))
                } else {
                    Err(Error::InvalidPublicKey)
                }
            }
            65 => {
                let mut v = [0u8; 34];
                vrt::uf(alg::PKUNCOMP, data, &mut v);
                if v[33] & 1 == 1 {
                    let mut b = [0u8; 33];
                    b.copy_from_slice(&v[..33]);
                    b[0] = 2 | (b[0] & 1);
                    Ok(Self(b))
                } else {
                    Err(Error::InvalidPublicKey)
                }
            }
            _ => Err(Error::InvalidPublicKey),
        }
    }
    pub fn serialize(&self) -> [u8; 33] {
        self.0
    }
    /// Prefix 4, the coordinate, and an uninterpreted function of both.
    pub fn serialize_uncompressed(&self) -> [u8; 65] {
        let mut out = [4u8; 65];
        out[1..33].copy_from_slice(&self.0[1..]);
        vrt::uf(alg::PKFULL, &self.0, &mut out[33..]);
        let mut v = [0u8; 34];
        vrt::uf(alg::PKUNCOMP, &out, &mut v);
        vrt::assume(v[33] & 1 == 1);
        v[0] = 2 | (v[0] & 1);
        vrt::assume(vrt::bytes_eq(&v[..33], &self.0));
        out
    }
    pub fn cmp_fast_unstable(&self, other: &Self) -> std::cmp::Ordering {
        self.cmp(other)
    }
    pub fn eq_fast_unstable(&self, other: &Self) -> bool {
        self == other
    }
    pub fn verify<C: Verification>(&self, secp: &Secp256k1<C>, msg: &Message, sig: &ecdsa::Signature) -> Result<(), Error> {
        secp.verify_ecdsa(msg, sig, self)
    }
}
impl fmt::LowerHex for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&hex(&self.0))
    }
}
impl fmt::Display for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerHex::fmt(self, f)
    }
}
impl std::str::FromStr for PublicKey {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        match s.len() {
            66 => Self::from_slice(&unhex::<33>(s).ok_or(Error::InvalidPublicKey)?),
            130 => Self::from_slice(&unhex::<65>(s).ok_or(Error::InvalidPublicKey)?),
            _ => Err(Error::InvalidPublicKey),
        }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Message([u8; 32]);
impl Message {
    pub fn from_digest(d: [u8; 32]) -> Self {
        Self(d)
    }
    pub fn from_digest_slice(d: &[u8]) -> Result<Self, Error> {
        match <[u8; 32]>::try_from(d) {
            Ok(b) => Ok(Self(b)),
            Err(_) => Err(Error::InvalidMessage),
        }
    }
    pub fn from_slice(d: &[u8]) -> Result<Self, Error> {
        Self::from_digest_slice(d)
    }
}
/// A 32-byte digest, as the real crate's trait of this name.
pub trait ThirtyTwoByteHash {
    fn into_32(self) -> [u8; 32];
}
impl<T: ThirtyTwoByteHash> From<T> for Message {
    fn from(t: T) -> Self {
        Self(t.into_32())
    }
}
impl AsRef<[u8; 32]> for Message {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl<I> std::ops::Index<I> for Message
where
    [u8]: std::ops::Index<I>,
{
    type Output = <[u8] as std::ops::Index<I>>::Output;
    fn index(&self, i: I) -> &Self::Output {
        &self.0[i]
    }
}
impl fmt::LowerHex for Message {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&hex(&self.0))
    }
}
impl fmt::Display for Message {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerHex::fmt(self, f)
    }
}

pub mod ecdsa {
    use super::*;
    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    pub struct RecoveryId(i32);
    impl RecoveryId {
        pub fn from_i32(id: i32) -> Result<Self, Error> {
            match id {
                0..=3 => Ok(Self(id)),
                _ => Err(Error::InvalidRecoveryId),
            }
        }
        pub fn to_i32(self) -> i32 {
            self.0
        }
    }
    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    pub struct RecoverableSignature {
        pub(crate) id: RecoveryId,
        pub(crate) sig: [u8; 64],
    }
    impl RecoverableSignature {
        pub fn from_compact(data: &[u8], id: RecoveryId) -> Result<Self, Error> {
            if data.len() != 64 {
                return Err(Error::InvalidSignature);
            }
            let mut sig = [0u8; 64];
            sig.copy_from_slice(data);
            let mut v = [0u8; 1];
            vrt::uf(alg::SIGOK, &sig, &mut v);
            if v[0] & 1 == 1 {
                Ok(Self { id, sig })
            } else {
                Err(Error::InvalidSignature)
            }
        }
        pub fn serialize_compact(&self) -> (RecoveryId, [u8; 64]) {
            (self.id, self.sig)
        }
        pub fn to_standard(&self) -> Signature {
            Signature { sig: self.sig }
        }
    }
    /// A plain signature.
    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    pub struct Signature {
        pub(crate) sig: [u8; 64],
    }
    impl Signature {
        pub fn from_compact(data: &[u8]) -> Result<Self, Error> {
            Ok(RecoverableSignature::from_compact(data, RecoveryId(0))?.to_standard())
        }
        pub fn serialize_compact(&self) -> [u8; 64] {
            self.sig
        }
    }
    /// A low-S signature from which some recovery id gives the key.
    fn verify_uf(msg: &Message, sig: &[u8; 64], pk: &[u8; 33]) -> bool {
        let mut v = [0u8; 1];
        vrt::uf(alg::SIGOK, sig, &mut v);
        let mut any = false;
        for id in 0..4 {
            let r = recover_uf(msg, id, sig);
            any |= (r[0] & 1 == 1) & vrt::bytes_eq(&r[1..], pk);
        }
        (v[0] & 2 == 2) & any
    }
    impl<C: Signing> Secp256k1<C> {
        pub fn sign_ecdsa(&self, msg: &Message, sk: &SecretKey) -> Signature {
            self.sign_ecdsa_recoverable(msg, sk).to_standard()
        }
    }
    impl<C: Verification> Secp256k1<C> {
        pub fn verify_ecdsa(&self, msg: &Message, sig: &Signature, pk: &PublicKey) -> Result<(), Error> {
            if verify_uf(msg, &sig.sig, &pk.0) {
                Ok(())
            } else {
                Err(Error::IncorrectSignature)
            }
        }
    }
    impl<C: Signing> Secp256k1<C> {
        pub fn sign_ecdsa_recoverable(&self, msg: &Message, sk: &SecretKey) -> RecoverableSignature {
            let mut inp = [0u8; 64];
            inp[..32].copy_from_slice(&msg.0);
            inp[32..].copy_from_slice(&sk.0);
            let mut out = [0u8; 65];
            vrt::uf(alg::SIGN, &inp, &mut out);
            let id = i32::from(out[0] & 3);
            let mut sig = [0u8; 64];
            sig.copy_from_slice(&out[1..]);
            let mut v = [0u8; 1];
            vrt::uf(alg::SIGOK, &sig, &mut v);
            vrt::assume(v[0] & 3 == 3);
            vrt::assume(!vrt::bytes_eq(&sig, &[0u8; 64]));
            let pk = __model_pubkey(&sk.0);
            let r = recover_uf(msg, id, &sig);
            vrt::assume(r[0] & 1 == 1);
            vrt::assume(vrt::bytes_eq(&r[1..], &pk));
            RecoverableSignature { id: RecoveryId(id), sig }
        }
    }
    fn recover_uf(msg: &Message, id: i32, sig: &[u8; 64]) -> [u8; 34] {
        let mut inp = [0u8; 97];
        inp[..32].copy_from_slice(&msg.0);
        inp[32] = id as u8;
        inp[33..].copy_from_slice(sig);
        let mut r = [0u8; 34];
        vrt::uf(alg::RECOVER, &inp, &mut r);
        r[1] = 2 | (r[1] & 1);
        r
    }
    impl<C: Verification> Secp256k1<C> {
        pub fn recover_ecdsa(&self, msg: &Message, sig: &RecoverableSignature) -> Result<PublicKey, Error> {
            let r = recover_uf(msg, sig.id.0, &sig.sig);
            if r[0] & 1 == 1 {
                let mut b = [0u8; 33];
                b.copy_from_slice(&r[1..]);
                Ok(PublicKey(b))
            } else {
                Err(Error::InvalidSignature)
            }
        }
    }
}
