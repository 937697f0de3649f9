//! Model of `bip39`: parsing and seed stretching are uninterpreted functions.
use std::fmt;
use vrt::alg;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Error {
    BadWordCount(usize),
    UnknownWord(usize),
    BadEntropyBitCount(usize),
    InvalidChecksum,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("bip39 error")
    }
}
impl std::error::Error for Error {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Mnemonic {
    id: [u8; 33],
    words: Vec<String>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[non_exhaustive]
pub enum Language {
    #[default]
    English,
}
impl Mnemonic {
    /// What matters is the words, not the white space around them.
    fn parsed(input: &[u8]) -> Result<Self, Error> {
        let mut words = Vec::new();
        let mut list = Vec::new();
        for w in input.split(u8::is_ascii_whitespace).filter(|w| !w.is_empty()) {
            words.extend_from_slice(w);
            words.push(b' ');
            list.push(w);
        }
        let mut out = [0u8; 34];
        vrt::uf(alg::BIP39_PARSE, &words, &mut out);
        if out[33] & 1 == 0 {
            return Err(Error::InvalidChecksum);
        }
        let mut id = [0u8; 33];
        id.copy_from_slice(&out[..33]);
        // a word is text: it was cut from text at ASCII characters
        let words = list.into_iter().map(|w| unsafe { String::from_utf8_unchecked(w.to_vec()) }).collect();
        Ok(Self { id, words })
    }
    pub fn parse<'a, S: Into<std::borrow::Cow<'a, str>>>(s: S) -> Result<Self, Error> {
        Self::parsed(s.into().as_bytes())
    }
    /// As `parse` on text that normalisation leaves alone; anything else is
    /// unrelated.
    pub fn parse_normalized(s: &str) -> Result<Self, Error> {
        if s.is_ascii() {
            Self::parsed(s.as_bytes())
        } else {
            Self::parsed(&[b"\xff", s.as_bytes()].concat())
        }
    }
    /// One word list is compiled in, so the language says nothing.
    pub fn parse_in<'a, S: Into<std::borrow::Cow<'a, str>>>(_: Language, s: S) -> Result<Self, Error> {
        Self::parse(s)
    }
    pub fn parse_in_normalized(_: Language, s: &str) -> Result<Self, Error> {
        Self::parse_normalized(s)
    }
    /// Accepts more than `parse_normalized`: unrelated to it.
    pub fn parse_in_normalized_without_checksum_check(_: Language, s: &str) -> Result<Self, Error> {
        Self::parsed(&[b"\xfe", s.as_bytes()].concat())
    }
    pub fn word_count(&self) -> usize {
        self.words.len()
    }
    pub fn words(&self) -> impl Iterator<Item = &str> + Clone + '_ {
        self.words.iter().map(String::as_str)
    }
    pub fn word_iter(&self) -> impl Iterator<Item = &str> + Clone + '_ {
        self.words()
    }
    pub fn language(&self) -> Language {
        Language::English
    }
    pub fn to_seed_normalized(&self, pass: &str) -> [u8; 64] {
        let mut inp = self.id.to_vec();
        inp.extend_from_slice(pass.as_bytes());
        let mut out = [0u8; 64];
        vrt::uf(alg::BIP39_SEED, &inp, &mut out);
        out
    }
    pub fn to_seed<'a, P: Into<std::borrow::Cow<'a, str>>>(&self, pass: P) -> [u8; 64] {
        self.to_seed_normalized(&pass.into())
    }
}
impl fmt::Display for Mnemonic {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, w) in self.words.iter().enumerate() {
            if i > 0 {
                f.write_str(" ")?;
            }
            f.write_str(w)?;
        }
        Ok(())
    }
}
impl std::str::FromStr for Mnemonic {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        Self::parse(s)
    }
}
