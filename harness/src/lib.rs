//! Property harnesses.  Every `pub extern "C" fn h_*` is an entry point of the
//! symbolic executor; the same functions are replayed natively (`bin/replay.rs`).
pub mod clar;
pub mod cry;
pub mod der;
pub mod gen;
#[cfg(feature = "rpc")]
pub mod rpc;
pub mod tx;
pub mod wal;
pub mod registry {
    include!(concat!(env!("OUT_DIR"), "/registry.rs"));
}

/// `{:02x}` on a `u8` without a case split on the value; any other format
/// specification goes through the ordinary `u16` formatting of the same value.
#[no_mangle]
pub fn vmodel_lower_hex_u8(x: &u8, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    const D: &[u8; 16] = b"0123456789abcdef";
    if f.width() == Some(2) && f.sign_aware_zero_pad() && !f.alternate() && !f.sign_plus() && f.precision().is_none() {
        let b = [D[usize::from(*x >> 4)], D[usize::from(*x & 15)]];
        f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
    } else {
        std::fmt::LowerHex::fmt(&u16::from(*x), f)
    }
}
#[no_mangle]
pub fn vmodel_lower_hex_ref_u8(x: &&u8, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    vmodel_lower_hex_u8(x, f)
}
/// `{:?}` of a byte slice or array without a case split per byte: the text, which
/// only appears in error messages, is abbreviated.
#[no_mangle]
pub fn vmodel_debug_bytes(_x: *const u8, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("[..]")
}
