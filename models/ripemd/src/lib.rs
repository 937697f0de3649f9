//! Model of `ripemd::Ripemd160`: an uninterpreted function of the message.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Output([u8; 20]);
impl Output {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
}
impl std::ops::Deref for Output {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8; 20]> for Output {
    fn as_ref(&self) -> &[u8; 20] {
        &self.0
    }
}
impl IntoIterator for Output {
    type Item = u8;
    type IntoIter = std::array::IntoIter<u8, 20>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl From<Output> for [u8; 20] {
    fn from(o: Output) -> Self {
        o.0
    }
}
#[derive(Clone, Default, Debug)]
pub struct Ripemd160(Vec<u8>);
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn chain_update(self, data: impl AsRef<[u8]>) -> Self;
    fn finalize(self) -> Output;
    fn new_with_prefix(data: impl AsRef<[u8]>) -> Self {
        Self::new().chain_update(data)
    }
    fn finalize_reset(&mut self) -> Output
    where
        Self: Clone,
    {
        let out = self.clone().finalize();
        *self = Self::new();
        out
    }
    fn reset(&mut self) {
        *self = Self::new();
    }
    fn output_size() -> usize {
        20
    }
    fn finalize_into(self, out: &mut Output) {
        *out = self.finalize();
    }
    fn digest(data: impl AsRef<[u8]>) -> Output {
        let mut s = Self::new();
        s.update(data);
        s.finalize()
    }
}
impl Digest for Ripemd160 {
    fn new() -> Self {
        Self(Vec::new())
    }
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref());
    }
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data);
        self
    }
    fn finalize(self) -> Output {
        let mut o = [0u8; 20];
        vrt::uf(vrt::alg::RIPEMD160, &self.0, &mut o);
        Output(o)
    }
}
