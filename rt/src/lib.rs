//! Verification runtime: the only interface between harness/model code and the
//! symbolic engine.  In the engine the `vsym_*` symbols are intrinsics; in the
//! native replay binary they are ordinary functions fed from a replay file.

extern "C" {
    fn vsym_bytes(ptr: *mut u8, len: usize);
    fn vsym_assume(c: bool);
    fn vsym_check(c: bool, id: *const u8, len: usize);
    fn vsym_reach(id: *const u8, len: usize);
    fn vsym_observe(ptr: *const u8, len: usize);
    fn vsym_uf(alg: u32, inp: *const u8, inlen: usize, out: *mut u8, outlen: usize);
    fn vsym_concretize(x: u64) -> u64;
    fn vsym_tier() -> u32;
    fn vsym_eq(a: *const u8, b: *const u8, len: usize) -> bool;
}

/// Fill `buf` with fresh arbitrary bytes.
pub fn fill(buf: &mut [u8]) {
    if !buf.is_empty() {
        unsafe { vsym_bytes(buf.as_mut_ptr(), buf.len()) }
    }
}
pub fn any_array<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn any_vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
/// `n` arbitrary 7-bit bytes as a `String` (no UTF-8 case split needed).
pub fn any_ascii(n: usize) -> String {
    let mut b = any_vec(n);
    for x in b.iter_mut() {
        *x &= 0x7f;
    }
    // every byte is < 0x80
    unsafe { String::from_utf8_unchecked(b) }
}
/// `n` arbitrary bytes that form a valid UTF-8 string.
pub fn any_utf8(n: usize) -> String {
    let b = any_vec(n);
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            loop {}
        }
    }
}
/// A string of `chars` arbitrary characters that each take `w` bytes in UTF-8
/// (`w` 1 to 4; the blocks U+0080-047F, U+1000-8FFF, U+40000-BFFFF), without a
/// case split on their values.
pub fn any_wide(chars: usize, w: usize) -> String {
    if w == 1 {
        return any_ascii(chars);
    }
    let mut b = any_vec(chars * w);
    for c in b.chunks_mut(w) {
        c[0] = match w {
            2 => 0xc2 + (c[0] & 15),
            3 => 0xe1 + (c[0] & 7),
            _ => 0xf1 + (c[0] & 1),
        };
        for x in &mut c[1..] {
            *x = 0x80 | (*x & 0x3f);
        }
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// `n` bytes: all arbitrary up to 300, else a fixed pattern with arbitrary bytes
/// at the ends, in the middle and at every power of two.
pub fn any_sparse(n: usize) -> Vec<u8> {
    if n <= 300 {
        return any_vec(n);
    }
    let mut b: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    let mut at = 1;
    while at < n {
        b[at] = any_u8();
        at *= 2;
    }
    b[0] = any_u8();
    b[n / 2] = any_u8();
    b[n - 1] = any_u8();
    b
}
pub fn any_u8() -> u8 {
    any_array::<1>()[0]
}
pub fn any_bool() -> bool {
    any_u8() & 1 == 1
}
pub fn any_u16() -> u16 {
    u16::from_be_bytes(any_array())
}
pub fn any_u32() -> u32 {
    u32::from_be_bytes(any_array())
}
pub fn any_u64() -> u64 {
    u64::from_be_bytes(any_array())
}
pub fn any_u128() -> u128 {
    u128::from_be_bytes(any_array())
}
pub fn any_i128() -> i128 {
    i128::from_be_bytes(any_array())
}
/// Arbitrary value in `0..n`, case-split (one path per value).
pub fn choose(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    let x = if n <= 256 {
        usize::from(any_u8())
    } else {
        usize::from(any_u16())
    };
    assume(x < n);
    unsafe { vsym_concretize(x as u64) as usize }
}
/// Case-split on the value of `x`.
pub fn concretize(x: usize) -> usize {
    unsafe { vsym_concretize(x as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { vsym_assume(c) }
}
/// Assert; `id` names the obligation.
pub fn check(c: bool, id: &'static str) {
    unsafe { vsym_check(c, id.as_ptr(), id.len()) }
}
/// Vacuity witness: the run must reach this point on a feasible path.
pub fn reach(id: &'static str) {
    unsafe { vsym_reach(id.as_ptr(), id.len()) }
}
/// Output compared between the engine and a native run of the same path.
pub fn observe(b: &[u8]) {
    unsafe { vsym_observe(b.as_ptr(), b.len()) }
}
/// Uninterpreted function `alg`: equal inputs give equal outputs, otherwise arbitrary.
pub fn uf(alg: u32, inp: &[u8], out: &mut [u8]) {
    unsafe { vsym_uf(alg, inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len()) }
}
/// Byte-wise equality without a case split.
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { vsym_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}

pub mod alg {
    pub const SHA256: u32 = 1;
    pub const SHA512_256: u32 = 2;
    pub const RIPEMD160: u32 = 3;
    pub const SHA512: u32 = 4;
    pub const SHA384: u32 = 5;
    pub const SHA1: u32 = 6;
    pub const PUBKEY: u32 = 16;
    pub const PKVALID: u32 = 17;
    pub const PKUNCOMP: u32 = 18;
    pub const SIGN: u32 = 19;
    pub const RECOVER: u32 = 20;
    pub const SIGOK: u32 = 21;
    pub const PKFULL: u32 = 22;
    pub const BIP32_ROOT: u32 = 32;
    pub const BIP32_CKD: u32 = 33;
    pub const BIP39_PARSE: u32 = 34;
    pub const BIP39_SEED: u32 = 35;
}

/// Bound that depends on the tier the check runs at.
pub fn bound(quick: usize, thorough: usize) -> usize {
    if unsafe { vsym_tier() } == 0 {
        quick
    } else {
        thorough
    }
}
