//! Model of `ring::digest`: every digest is an uninterpreted function of the
//! whole message (chunking of `update` calls is irrelevant, as in the real one).
pub mod digest {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Algorithm {
        id: u32,
        len: usize,
    }
    impl Algorithm {
        pub fn output_len(&self) -> usize {
            self.len
        }
    }
    pub static SHA256: Algorithm = Algorithm { id: vrt::alg::SHA256, len: 32 };
    pub static SHA512_256: Algorithm = Algorithm { id: vrt::alg::SHA512_256, len: 32 };
    pub static SHA512: Algorithm = Algorithm { id: vrt::alg::SHA512, len: 64 };
    pub static SHA384: Algorithm = Algorithm { id: vrt::alg::SHA384, len: 48 };
    pub static SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm { id: vrt::alg::SHA1, len: 20 };
    pub const SHA256_OUTPUT_LEN: usize = 32;
    pub const SHA512_256_OUTPUT_LEN: usize = 32;
    pub const MAX_OUTPUT_LEN: usize = 64;

    #[derive(Clone)]
    pub struct Context {
        alg: &'static Algorithm,
        data: Vec<u8>,
    }
    impl Context {
        pub fn new(alg: &'static Algorithm) -> Self {
            Self { alg, data: Vec::new() }
        }
        pub fn update(&mut self, data: &[u8]) {
            self.data.extend_from_slice(data);
        }
        pub fn finish(self) -> Digest {
            digest(self.alg, &self.data)
        }
        pub fn algorithm(&self) -> &'static Algorithm {
            self.alg
        }
    }
    #[derive(Clone, Copy)]
    pub struct Digest {
        alg: &'static Algorithm,
        value: [u8; 64],
    }
    impl Digest {
        pub fn algorithm(&self) -> &'static Algorithm {
            self.alg
        }
    }
    impl std::fmt::Debug for Digest {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("digest:")?;
            self.as_ref().iter().try_for_each(|b| write!(f, "{b:02x}"))
        }
    }
    impl AsRef<[u8]> for Digest {
        fn as_ref(&self) -> &[u8] {
            &self.value[..self.alg.len]
        }
    }
    pub fn digest(alg: &'static Algorithm, data: &[u8]) -> Digest {
        let mut value = [0u8; 64];
        vrt::uf(alg.id, data, &mut value[..alg.len]);
        Digest { alg, value }
    }
}
