//! C10..C16, C28: text encodings, digests, signer hashes.
use crate::gen::*;
use secp256k1::{PublicKey, Secp256k1, SecretKey};
use stacks_rs::crypto::c32::{hash_p2pkh, hash_p2sh, hash_p2wpkh, hash_p2wsh, Address};
use stacks_rs::crypto::*;
use std::str::FromStr;
use vrt::*;

// ---- c32 ------------------------------------------------------------------

/// Value of a character, 255 for none: digits, upper and lower case, O as 0, I and L as 1.
fn c32_values() -> [u8; 128] {
    let mut t = [255u8; 128];
    for (i, c) in C32.iter().enumerate() {
        t[usize::from(*c)] = i as u8;
        t[usize::from(c.to_ascii_lowercase())] = i as u8;
    }
    for (c, v) in [(b'O', 0), (b'I', 1), (b'L', 1)] {
        t[usize::from(c)] = v;
        t[usize::from(c.to_ascii_lowercase())] = v;
    }
    t
}
/// Big-endian bytes of a base-32 number without leading zero bytes, one zero
/// byte per leading zero digit.
fn ref_c32_value(d: &[u8]) -> Vec<u8> {
    let nb = (d.len() * 5 + 7) / 8;
    let mut out = vec![];
    for x in d {
        if *x != 0 {
            break;
        }
        out.push(0);
    }
    let byte = |k: usize| {
        let mut b = 0u8;
        for j in 0..8 {
            let bit = 8 * k + j;
            if bit / 5 < d.len() {
                b |= ((d[d.len() - 1 - bit / 5] >> (bit % 5)) & 1) << j;
            }
        }
        b
    };
    let mut k = nb;
    while k > 0 && byte(k - 1) == 0 {
        k -= 1;
    }
    while k > 0 {
        k -= 1;
        out.push(byte(k));
    }
    out
}
/// Digits of a string, if all its characters are c32 digits.
fn digits(s: &[u8]) -> Option<Vec<u8>> {
    let t = c32_values();
    let mut bad = false;
    let mut d = vec![];
    for c in s {
        let v = if *c < 128 { t[usize::from(*c & 127)] } else { 255 };
        bad |= v == 255;
        d.push(v);
    }
    if bad {
        None
    } else {
        Some(d)
    }
}
#[no_mangle]
pub extern "C" fn h_c10_bytes() {
    let b = any_vec(choose(bound(10, 16)));
    let e = must(c32_encode(&b), "encode-ok");
    check(bytes_eq(e.as_bytes(), &ref_c32(&b)), "encoding");
    let d = must(c32_decode(e.clone()), "decode-ok");
    check(bytes_eq(&d, &b), "round-trip");
    observe(e.as_bytes());
    reach("end");
}
/// Long inputs: every length to the bound, leading zeros or not.
#[no_mangle]
pub extern "C" fn h_c10_long() {
    let n = 9 + choose(bound(24, 56));
    let mut b = any_vec(n);
    let z = choose(3);
    for x in b.iter_mut().take(z) {
        *x = 0;
    }
    b[z] |= 0x40;
    let e = must(c32_encode(&b), "encode-ok");
    check(bytes_eq(e.as_bytes(), &ref_c32(&b)), "encoding");
    let d = must(c32_decode(e.clone()), "decode-ok");
    check(bytes_eq(&d, &b), "round-trip");
    reach("end");
}
/// Canonical text survives decode and encode.
#[no_mangle]
pub extern "C" fn h_c10_text() {
    let n = choose(bound(11, 16));
    let s: Vec<u8> = any_vec(n).iter().map(|x| C32[usize::from(*x & 31)]).collect();
    let s = unsafe { String::from_utf8_unchecked(s) };
    let d = must(c32_decode(s.clone()), "decode-ok");
    let e = must(c32_encode(&d), "encode-ok");
    check(same_str(&e, &s), "text-round-trip");
    reach("end");
}
/// One input after another.
#[no_mangle]
pub extern "C" fn h_c10_twice() {
    let (m, n) = ([0usize, 1, 3, 5, 20][choose(5)], [0usize, 1, 3, 5, 20][choose(5)]);
    let (mut a, mut b) = (any_vec(m), any_vec(n));
    for x in [&mut a, &mut b] {
        if x.len() > 1 {
            x[0] |= 0x40;
        }
    }
    for x in [&a, &b, &a] {
        let e = must(c32_encode(x), "encode-ok");
        check(bytes_eq(e.as_bytes(), &ref_c32(x)), "encoding");
        check(bytes_eq(&must(c32_decode(e), "decode-ok"), x), "round-trip");
    }
    reach("end");
}
/// Many leading zero bytes, and large inputs.
#[no_mangle]
pub extern "C" fn h_c10_zeros() {
    const Z: [usize; 15] = [41, 63, 64, 65, 127, 128, 255, 256, 257, 300, 512, 1000, 1024, 4096, 70000];
    let z = choose(56);
    let z = if z < 41 { z } else { Z[z - 41] };
    let n = [0usize, 1, 2, 5, 20][choose(5)];
    let mut b = vec![0u8; z];
    b.extend_from_slice(&any_vec(n));
    if n > 0 {
        b[z] |= 0x40;
    }
    let e = must(c32_encode(&b), "encode-ok");
    check(bytes_eq(e.as_bytes(), &ref_c32(&b)), "encoding");
    let d = must(c32_decode(e.clone()), "decode-ok");
    check(bytes_eq(&d, &b), "round-trip");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c10_large() {
    const N: [usize; 16] = [48, 63, 64, 65, 80, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1024];
    let n = N[choose(16)];
    let mut b = any_sparse(n);
    b[0] |= 0x40;
    let e = must(c32_encode(&b), "encode-ok");
    check(bytes_eq(e.as_bytes(), &ref_c32(&b)), "encoding");
    let d = must(c32_decode(e.clone()), "decode-ok");
    check(bytes_eq(&d, &b), "round-trip");
    let t = must(c32_encode(&d), "encode-ok");
    check(same_str(&t, &e), "text-round-trip");
    reach("end");
}
fn c32_text(s: String) {
    let r = c32_decode(s.clone());
    match digits(s.as_bytes()) {
        Some(d) => {
            let x = must(r, "valid-accepted");
            check(bytes_eq(&x, &ref_c32_value(&d)), "value");
            observe(&x);
            reach("valid");
        }
        None => {
            check(r.is_err(), "invalid-rejected");
            reach("invalid");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c11_ascii() {
    c32_text(any_ascii(choose(bound(6, 8))));
}
#[no_mangle]
pub extern "C" fn h_c11_twice() {
    let (a, b) = (any_ascii(choose(3)), any_ascii(choose(3)));
    c32_text(a.clone());
    c32_text(b);
    c32_text(a);
}
#[no_mangle]
pub extern "C" fn h_c11_utf8() {
    c32_text(any_utf8(choose(bound(5, 6))));
}
/// One arbitrary byte at any place of a long text of digits.
#[no_mangle]
pub extern "C" fn h_c11_long() {
    const N: [usize; 12] = [9, 16, 28, 32, 39, 40, 41, 64, 100, 128, 256, 300];
    let n = N[choose(12)];
    let at = match choose(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => n / 3,
        4 => n / 2,
        5 => n - 3,
        6 => n - 2,
        _ => n - 1,
    };
    let upper = choose(2) == 0;
    let mut s: Vec<u8> = (0..n)
        .map(|i| {
            let c = C32[(i * 7 + 11) % 32];
            if upper { c } else { c.to_ascii_lowercase() }
        })
        .collect();
    s[at] = any_u8() & 127;
    c32_text(unsafe { String::from_utf8_unchecked(s) });
}
/// Spellings: lower case and the look-alikes decode like the canonical digit.
#[no_mangle]
pub extern "C" fn h_c11_alias() {
    let n = 1 + choose(bound(8, 12));
    let s = any_ascii(n);
    let t = c32_values();
    let mut canon = vec![];
    for c in s.as_bytes() {
        let v = t[usize::from(*c)];
        assume(v < 32);
        canon.push(C32[usize::from(v & 31)]);
    }
    let canon = unsafe { String::from_utf8_unchecked(canon) };
    check(
        bytes_eq(&must(c32_decode(s), "alias-accepted"), &must(c32_decode(canon), "canonical-accepted")),
        "alias-same",
    );
    reach("end");
}

// ---- c32check and addresses ----------------------------------------------

fn ref_c32check(version: u8, data: &[u8]) -> Vec<u8> {
    let mut d = data.to_vec();
    d.extend_from_slice(&ref_checksum(version, data));
    let mut s = vec![C32[usize::from(version)]];
    s.extend_from_slice(&ref_c32(&d));
    s
}
#[no_mangle]
pub extern "C" fn h_c12_check() {
    let n = choose(bound(5, 8));
    let data = any_vec(n);
    let v = any_u8();
    let e = c32check_encode(&data, v);
    if v >= 32 {
        check(e.is_err(), "version-refused");
        reach("refused");
        return;
    }
    let e = must(e, "encode-ok");
    check(bytes_eq(e.as_bytes(), &ref_c32check(v, &data)), "encoding");
    let (d, w) = must(c32check_decode(e.clone()), "decode-ok");
    check(w == v, "version");
    check(bytes_eq(&d, &data), "data");
    observe(e.as_bytes());
    reach("end");
}
/// Every payload length, with leading zero bytes.
#[no_mangle]
pub extern "C" fn h_c12_sizes() {
    const N: [usize; 7] = [48, 64, 65, 100, 128, 255, 256];
    let n = choose(bound(41, 41) + 7);
    let n = if n < 41 { n } else { N[n - 41] };
    let z = choose(4).min(n);
    let mut data = any_vec(n);
    for x in data.iter_mut().take(z) {
        *x = 0;
    }
    if z < n {
        data[z] |= 0x40;
    } else {
        // the checksum's own leading zeros are h_c12_check's
        return;
    }
    let v = [0u8, 1, 20, 21, 22, 26, 31][choose(7)];
    let e = must(c32check_encode(&data, v), "encode-ok");
    check(bytes_eq(e.as_bytes(), &ref_c32check(v, &data)), "encoding");
    let (d, w) = must(c32check_decode(e.clone()), "decode-ok");
    check(w == v, "version");
    check(bytes_eq(&d, &data), "data");
    reach("end");
}
/// Whatever is accepted carries the right checksum and nothing else is.
#[no_mangle]
pub extern "C" fn h_c12_strict() {
    let s = any_ascii(choose(bound(9, 11)));
    let r = c32check_decode(s.clone());
    let want = (|| {
        let d = digits(s.as_bytes())?;
        let (v, d) = d.split_first()?;
        let x = ref_c32_value(d);
        if x.len() < 4 {
            return None;
        }
        let (data, sum) = x.split_at(x.len() - 4);
        if !bytes_eq(&ref_checksum(*v, data), sum) {
            return None;
        }
        Some((data.to_vec(), *v))
    })();
    match want {
        Some((d, v)) => {
            let (x, w) = must(r, "valid-accepted");
            check(bytes_eq(&x, &d) & (v == w), "meaning");
            reach("valid");
        }
        None => {
            check(r.is_err(), "invalid-rejected");
            reach("invalid");
        }
    }
}
/// A changed checksum, version digit or data digit is noticed (unless the
/// checksum happens to be the same).
#[no_mangle]
pub extern "C" fn h_c12_tamper() {
    let mut hash: [u8; 20] = any_array();
    hash[0] |= 0x40;
    let v = VERSIONS[choose(4)];
    let mut s = ref_c32check(v, &hash);
    let at = choose(s.len());
    let c = C32[usize::from(any_u8() & 31)];
    assume(c != s[at]);
    s[at] = c;
    let addr = choose(2) == 1;
    if addr {
        s.insert(0, b'S');
    }
    let s = unsafe { String::from_utf8_unchecked(s) };
    let d = digits(if addr { &s.as_bytes()[1..] } else { s.as_bytes() });
    let d = must_some(d, "digits");
    let x = ref_c32_value(&d[1..]);
    let (data, sum) = x.split_at(x.len() - 4);
    let good = bytes_eq(&ref_checksum(d[0], data), sum);
    if addr {
        if !good {
            check(c32_address_decode(s.clone()).is_err(), "bad-address-checksum");
            check(Address::from_str(&s).is_err(), "bad-address-checksum-parse");
            reach("address");
        }
    } else {
        check(c32check_decode(s).is_ok() == good, "bad-checksum");
        reach("check");
    }
}
#[no_mangle]
pub extern "C" fn h_c12_utf8() {
    let s = any_utf8(choose(bound(5, 6)));
    if !s.is_ascii() {
        check(c32check_decode(s.clone()).is_err(), "non-ascii-rejected");
        check(c32_address_decode(s.clone()).is_err(), "non-ascii-address-rejected");
        let mut t = String::from("S");
        t.push_str(&s);
        t.push_str("000000");
        check(c32_address_decode(t).is_err(), "non-ascii-long-rejected");
        reach("end");
    }
}
#[no_mangle]
pub extern "C" fn h_c12_address() {
    let hash: [u8; 20] = any_array();
    let v = any_u8();
    let r = c32_address(&hash, v);
    if !VERSIONS.contains(&v) {
        check(r.is_err(), "unknown-version-refused");
        reach("refused");
        return;
    }
    let s = must(r, "address-ok");
    let v = concretize(usize::from(v)) as u8;
    check(same_str(&s, &ref_address(v, &hash)), "address");
    let (h, w) = must(c32_address_decode(s.clone()), "address-decode");
    check(bytes_eq(&h, &hash) & (w == v), "address-round-trip");
    let a = must(Address::from_str(&s), "address-parse");
    check(bytes_eq(a.hash.as_bytes(), &hash) & (a.version == v), "address-parse-same");
    reach("end");
}
/// One address after another: nothing of the first is left in the second.
#[no_mangle]
pub extern "C" fn h_c12_twice() {
    let mut t = vec![];
    for _ in 0..2 {
        let mut h: [u8; 20] = any_array();
        h[0] |= 0x40;
        t.push((h, VERSIONS[choose(4)]));
    }
    let mut texts = vec![];
    for (h, v) in &t {
        let s = must(c32_address(h, *v), "address-ok");
        check(same_str(&s, &ref_address(*v, h)), "address");
        texts.push(s);
    }
    for i in [0, 1, 0] {
        let (h, w) = must(c32_address_decode(texts[i].clone()), "address-decode");
        check(bytes_eq(&h, &t[i].0) & (w == t[i].1), "address-round-trip");
    }
    check(same_str(&must(c32_address(&t[0].0, t[0].1), "address-ok"), &texts[0]), "address-again");
    reach("end");
}
/// Many addresses, all encoded, then all decoded; one of them arbitrary.
#[no_mangle]
pub extern "C" fn h_c12_many() {
    let n = [3usize, 9, 17, 65][choose(bound(2, 4))];
    let at = [0, n / 2, n - 1][choose(3)];
    let mut t = vec![];
    for i in 0..n {
        let mut h = [0x41u8; 20];
        if i == at {
            h[2] = any_u8();
            h[10] = any_u8();
        } else {
            h[1] = i as u8;
            h[19] = (i >> 8) as u8;
        }
        t.push((h, VERSIONS[i % 4]));
    }
    let texts: Vec<String> = t.iter().map(|(h, v)| must(c32_address(h, *v), "address-ok")).collect();
    for i in [0, at, n - 1] {
        check(same_str(&texts[i], &ref_address(t[i].1, &t[i].0)), "address");
    }
    for (s, (h, v)) in texts.iter().zip(&t) {
        let (g, w) = must(c32_address_decode(s.clone()), "address-decode");
        check(bytes_eq(&g, h) & (w == *v), "address-round-trip");
    }
    check(same_str(&must(c32_address(&t[at].0, t[at].1), "address-ok"), &texts[at]), "address-again");
    reach("end");
}
/// Well-formed c32check text that is not an address.
#[no_mangle]
pub extern "C" fn h_c12_notaddress() {
    let k = choose(3);
    // wrong version, wrong size, wrong first letter
    let n = if k == 1 { [0, 1, 2, 16, 18, 19, 21, 22, 32, 33][choose(10)] } else { 20 };
    let mut data = any_vec(n);
    if n > 0 {
        // zero bytes in front are kept as digits of their own
        let z = choose(n + 1);
        data[..z].fill(0);
        if z < n {
            data[z] |= 0x40;
        }
    }
    let v = if k == 0 { any_u8() & 31 } else { 22 };
    if k == 0 {
        assume(!VERSIONS.contains(&v));
    }
    let mut s = vec![b'S'];
    if k == 2 {
        s[0] = any_u8() & 127;
        assume(s[0] != b'S');
    }
    s.extend_from_slice(&ref_c32check(v, &data));
    let s = unsafe { String::from_utf8_unchecked(s) };
    check(c32_address_decode(s.clone()).is_err(), "not-an-address");
    check(Address::from_str(&s).is_err(), "not-an-address-parse");
    reach("end");
}
/// Short and arbitrary text.
#[no_mangle]
pub extern "C" fn h_c12_text() {
    let s = any_ascii(choose(bound(9, 10)));
    check(c32_address_decode(s.clone()).is_err(), "short-text-rejected");
    check(Address::from_str(&s).is_err(), "short-text-rejected-parse");
    reach("end");
}

// ---- base58 ---------------------------------------------------------------

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// Number with at most 8 digits or 5 bytes: schoolbook reference.
fn ref_b58(b: &[u8]) -> Vec<u8> {
    let mut z = 0;
    while z < b.len() && b[z] == 0 {
        z += 1;
    }
    let mut n = b.iter().fold(0u64, |a, x| (a << 8) | u64::from(*x));
    let mut s = vec![];
    while n > 0 {
        s.push(B58[(n % 58) as usize]);
        n /= 58;
    }
    for _ in 0..z {
        s.push(b'1');
    }
    s.reverse();
    s
}
fn b58_values() -> [u8; 256] {
    let mut t = [255u8; 256];
    for (i, c) in B58.iter().enumerate() {
        t[usize::from(*c)] = i as u8;
    }
    t
}
#[no_mangle]
pub extern "C" fn h_c13_bytes() {
    let b = any_vec(choose(bound(3, 4)));
    let e = b58_encode(&b);
    check(bytes_eq(e.as_bytes(), &ref_b58(&b)), "encoding");
    let d = must(b58_decode(e.clone()), "decode-ok");
    check(bytes_eq(&d, &b), "round-trip");
    observe(e.as_bytes());
    reach("end");
}
/// One input after another.
#[no_mangle]
pub extern "C" fn h_c13_twice() {
    let (a, b) = (any_vec(choose(2)), any_vec(choose(2)));
    let mut l = vec![a.clone(), b, a];
    if choose(2) == 1 {
        // same size, alike but for the last byte
        l[1] = [&[7; 20][..], &l[1]].concat();
        l[0] = [&[7; 20][..], &l[0]].concat();
        l[2] = l[0].clone();
        for x in &mut l {
            if let Some(y) = x.get_mut(20) {
                *y = (concretize(usize::from(*y & 3)) * 85) as u8;
            }
        }
    }
    for x in &l {
        let e = b58_encode(x);
        if x.len() < 8 {
            check(bytes_eq(e.as_bytes(), &ref_b58(x)), "encoding");
        }
        check(bytes_eq(&must(b58_decode(e), "decode-ok"), x), "round-trip");
    }
    reach("end");
}
/// Longer inputs: leading zeros, then one arbitrary byte among fixed ones.
#[no_mangle]
pub extern "C" fn h_c13_long() {
    let z = [0usize, 1, 2, 3, 4, 5, 8, 16, 20, 21, 32, 33, 40][choose(13)];
    let n = [0usize, 1, 2, 5, 25, 33, 64, 100][choose(8)];
    let fill = [0x01u8, 0x3a, 0x80, 0xff][choose(4)];
    let mut b = vec![0u8; z];
    b.resize(z + n, fill);
    if n > 0 {
        let at = [0, n - 1][choose(2)];
        b[z + at] = any_u8();
        // one path per value
        b[z + at] = concretize(usize::from(b[z + at] & bound(7, 31) as u8)) as u8;
    }
    let e = b58_encode(&b);
    check(e.bytes().all(|c| B58.contains(&c)), "alphabet");
    let mut lead = 0;
    while lead < b.len() && b[lead] == 0 {
        lead += 1;
    }
    check(e.bytes().take_while(|c| *c == b'1').count() == lead, "leading-ones");
    let d = must(b58_decode(e.clone()), "decode-ok");
    check(bytes_eq(&d, &b), "round-trip");
    observe(e.as_bytes());
    reach("end");
}
/// Very long texts: every byte of the value is produced.
#[no_mangle]
pub extern "C" fn h_c13_verylong() {
    // 58^n - 1 takes n log(58)/log(256) bytes
    const N: [usize; 4] = [500, 1000, 1365, 2700];
    let n = 1 + choose(160);
    let n = if n <= 156 { n } else { N[n - 157] };
    let len = n * 732247624390 / 1_000_000_000_000 + 1;
    let d = must(b58_decode("z".repeat(n)), "decode-ok");
    check(d.len() == len, "length");
    check(d[0] != 0, "no-leading-zero");
    // 58 is even: the last n bits are ones
    for i in 0..n / 8 {
        check(d[len - 1 - i] == 255, "value");
    }
    reach("end");
}
fn b58_text(s: String) {
    let t = b58_values();
    let r = b58_decode(s.clone());
    let mut bad = false;
    let mut n = 0u64;
    let mut lead = 0usize;
    let mut leading = true;
    for c in s.as_bytes() {
        let v = t[usize::from(*c)];
        bad |= v == 255;
        n = n.wrapping_mul(58).wrapping_add(u64::from(v));
        if leading && *c == b'1' {
            lead += 1;
        } else {
            leading = false;
        }
    }
    if bad {
        check(r.is_err(), "invalid-rejected");
        reach("invalid");
    } else {
        let d = must(r, "valid-accepted");
        check(d.len() >= lead, "leading-zeros");
        let mut ok = true;
        for x in d.iter().take(lead) {
            ok &= *x == 0;
        }
        if d.len() > lead {
            ok &= d[lead] != 0;
        }
        let m = d.iter().fold(0u64, |a, x| (a << 8) | u64::from(*x));
        check(ok, "leading-zeros-exact");
        check(m == n, "value");
        reach("valid");
    }
}
#[no_mangle]
pub extern "C" fn h_c13_ascii() {
    b58_text(any_ascii(choose(bound(4, 5))));
}
#[no_mangle]
pub extern "C" fn h_c13_utf8() {
    let s = any_utf8(choose(bound(4, 5)));
    if !s.is_ascii() {
        check(b58_decode(s).is_err(), "non-ascii-rejected");
        reach("end");
    }
}
/// Text of canonical digits survives decode and encode.
#[no_mangle]
pub extern "C" fn h_c13_text() {
    let n = choose(bound(3, 4));
    let s = any_ascii(n);
    let t = b58_values();
    for c in s.as_bytes() {
        assume(t[usize::from(*c)] != 255);
    }
    let d = must(b58_decode(s.clone()), "decode-ok");
    check(same_str(&b58_encode(&d), &s), "text-round-trip");
    reach("end");
}

// ---- base58check ----------------------------------------------------------

fn ref_sum(payload: &[u8]) -> [u8; 4] {
    let h = sha256(&sha256(payload));
    [h[0], h[1], h[2], h[3]]
}
/// Layout: version, data, first four bytes of the double SHA-256 of both.
#[no_mangle]
pub extern "C" fn h_c14_layout() {
    let mut p = vec![any_u8()];
    p.extend_from_slice(&any_vec(choose(bound(3, 4))));
    let mut all = p.clone();
    all.extend_from_slice(&ref_sum(&p));
    // concrete digits: one path per choice of the checksum's and data's bytes is
    // not needed, the same symbolic number goes through the same encoder
    assume(p[0] >= 0x40);
    let e = base58check_encode(&p[1..], p[0]);
    check(same_str(&e, &b58_encode(&all)), "layout");
    reach("end");
}
/// Accepted exactly when the last four bytes are the checksum of the rest.
#[no_mangle]
pub extern "C" fn h_c14_strict() {
    let n = bound(8, 9);
    let s = any_ascii(choose(n));
    let t = b58_values();
    for c in s.as_bytes() {
        assume(t[usize::from(*c)] != 255);
    }
    let d = must(b58_decode(s.clone()), "b58-ok");
    let r = base58check_decode(s);
    if d.len() < 5 {
        check(r.is_err(), "short-rejected");
        reach("short");
        return;
    }
    let (p, sum) = d.split_at(d.len() - 4);
    if bytes_eq(&ref_sum(p), sum) {
        let (x, v) = must(r, "valid-accepted");
        check(v == p[0], "version");
        check(bytes_eq(&x, &p[1..]), "data");
        reach("valid");
    } else {
        check(r.is_err(), "bad-checksum-rejected");
        reach("bad");
    }
}
/// Full-size payloads with concrete content: round trip, and every corruption of
/// one checksum byte is noticed.
#[no_mangle]
pub extern "C" fn h_c14_round() {
    let v = [0u8, 5, 111, 196, 1, 255][choose(6)];
    let n = [0usize, 1, 19, 20, 21, 32][choose(6)];
    let f = [0u8, 1, 0x7f, 0xff][choose(4)];
    let data: Vec<u8> = (0..n).map(|i| f.wrapping_mul(i as u8 + 1)).collect();
    let mut p = vec![v];
    p.extend_from_slice(&data);
    let sum = ref_sum(&p);
    // fix the checksum's value: the codec below is then concrete
    const S: [[u8; 4]; 4] = [[0, 0, 0, 0], [1, 2, 3, 4], [255, 254, 0, 253], [0x80, 0, 0, 1]];
    let k = S[choose(4)];
    assume(sum == k);
    let e = base58check_encode(&data, v);
    p.extend_from_slice(&k);
    check(same_str(&e, &b58_encode(&p)), "layout");
    let (d, w) = must(base58check_decode(e), "decode-ok");
    check(bytes_eq(&d, &data) & (v == w), "round-trip");
    let at = p.len() - 1 - choose(4);
    p[at] ^= 1 << choose(8);
    check(base58check_decode(b58_encode(&p)).is_err(), "bad-checksum-rejected");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c14_total() {
    let s = if choose(2) == 0 { any_utf8(choose(bound(4, 5))) } else { any_ascii(choose(bound(5, 6))) };
    let t = b58_values();
    let mut bad = false;
    for c in s.as_bytes() {
        bad |= t[usize::from(*c)] == 255;
    }
    let r = base58check_decode(s);
    if bad {
        check(r.is_err(), "invalid-rejected");
    }
    observe(&[r.is_ok() as u8]);
    reach("end");
}

// ---- hex ------------------------------------------------------------------

#[no_mangle]
pub extern "C" fn h_c15_bytes() {
    let b = any_vec(choose(bound(40, 100)));
    let h = bytes_to_hex(&b);
    check(same_str(&h, &ref_hex(&b)), "hex");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c15_round() {
    let b = any_vec(choose(bound(4, 5)));
    let h = bytes_to_hex(&b);
    check(bytes_eq(&must(hex_to_bytes(h), "decode-ok"), &b), "round-trip");
    reach("end");
}
/// One text after another.
#[no_mangle]
pub extern "C" fn h_c15_twice() {
    let (a, b) = (any_ascii(choose(3)), any_ascii(choose(3)));
    hex_text(a.clone());
    hex_text(b.clone());
    hex_text(a.clone());
    for x in [&a, &b] {
        check(same_str(&bytes_to_hex(x.as_bytes()), &ref_hex(x.as_bytes())), "hex");
    }
}
/// Long texts with one arbitrary byte anywhere; long round trips.
#[no_mangle]
pub extern "C" fn h_c15_long() {
    const N: [usize; 20] = [7, 8, 15, 16, 31, 32, 33, 40, 41, 63, 64, 65, 66, 128, 130, 256, 512, 2048, 10_000, 131_074];
    let n = N[choose(20)];
    let at = match if n > 2048 { 4 } else { choose(6) } {
        0 => 0,
        1 => 1,
        2 => n / 2,
        3 => n / 2 + 1,
        4 => n - 2,
        _ => n - 1,
    };
    let digits = [b"0123456789abcdef", b"FEDCBA9876543210"][if n > 2048 { 0 } else { choose(2) }];
    let mut s: Vec<u8> = (0..n).map(|i| digits[(i * 7 + 11 + i / 16) % 16]).collect();
    s[at] = any_u8() & 127;
    hex_text(unsafe { String::from_utf8_unchecked(s.clone()) });
    let mut b = s;
    b[at] = (concretize(usize::from(b[at] & 3)) * 85) as u8;
    let h = bytes_to_hex(&b);
    check(same_str(&h, &ref_hex(&b)), "hex");
    check(bytes_eq(&must(hex_to_bytes(h), "decode-ok"), &b), "round-trip");
}
fn hex_values() -> [u8; 256] {
    let mut t = [255u8; 256];
    for i in 0..10u8 {
        t[usize::from(b'0' + i)] = i;
    }
    for i in 0..6u8 {
        t[usize::from(b'a' + i)] = 10 + i;
        t[usize::from(b'A' + i)] = 10 + i;
    }
    t
}
#[no_mangle]
pub extern "C" fn h_c15_text() {
    hex_text(if choose(2) == 0 { any_utf8(choose(bound(5, 6))) } else { any_ascii(choose(bound(5, 7))) });
}
fn hex_text(s: String) {
    let t = hex_values();
    let mut bad = s.len() % 2 == 1;
    let v: Vec<u8> = s.bytes().map(|c| t[usize::from(c)]).collect();
    for x in &v {
        bad |= *x == 255;
    }
    let r = hex_to_bytes(s);
    if bad {
        check(r.is_err(), "invalid-rejected");
        reach("invalid");
    } else {
        let want: Vec<u8> = v.chunks(2).map(|c| (c[0] << 4) | c[1]).collect();
        check(bytes_eq(&must(r, "valid-accepted"), &want), "value");
        reach("valid");
    }
}
/// The hex views of digests, signatures and Clarity values agree with it.
#[no_mangle]
pub extern "C" fn h_c15_views() {
    let a = any_array::<32>();
    let b = any_array::<20>();
    let c = any_array::<65>();
    check(same_str(&Sha256Hash::from(a).hex(), &ref_hex(&a)), "sha256");
    check(same_str(&DSha256Hash::from(a).hex(), &ref_hex(&a)), "dsha256");
    check(same_str(&Sha512_256Hash::from(a).hex(), &ref_hex(&a)), "sha512-256");
    check(same_str(&SignatureHash::from(a).hex(), &ref_hex(&a)), "signature-hash");
    check(same_str(&Hash160::from(b).hex(), &ref_hex(&b)), "hash160");
    check(same_str(&MessageSignature::from(c).hex(), &ref_hex(&c)), "signature");
    check(same_str(&format!("{:?}", Sha256Hash::from(a)), &ref_hex(&a)), "debug");
    check(same_str(&format!("{:?}", MessageSignature::from(c)), &ref_hex(&c)), "debug-signature");
    reach("end");
}

// ---- signer hashes --------------------------------------------------------

pub fn any_key() -> SecretKey {
    let b: [u8; 32] = any_array();
    match SecretKey::from_slice(&b) {
        Ok(k) => k,
        Err(_) => {
            assume(false);
            loop {}
        }
    }
}
pub fn public(k: &SecretKey) -> PublicKey {
    PublicKey::from_secret_key(&Secp256k1::new(), k)
}
fn any_public() -> PublicKey {
    public(&any_key())
}
/// OP_m <33 key>* OP_n OP_CHECKMULTISIG
pub fn ref_script(m: usize, keys: &[PublicKey]) -> Vec<u8> {
    let mut s = vec![0x50 + m as u8];
    for k in keys {
        s.push(33);
        s.extend_from_slice(&k.serialize());
    }
    s.push(0x50 + keys.len() as u8);
    s.push(0xae);
    s
}
pub fn ref_p2wpkh(pk: &[u8]) -> [u8; 20] {
    let mut p = vec![0, 20];
    p.extend_from_slice(&hash160(pk));
    hash160(&p)
}
pub fn ref_p2sh(m: usize, keys: &[PublicKey]) -> [u8; 20] {
    hash160(&ref_script(m, keys))
}
pub fn ref_p2wsh(m: usize, keys: &[PublicKey]) -> [u8; 20] {
    let mut p = vec![0, 32];
    p.extend_from_slice(&sha256(&ref_script(m, keys)));
    hash160(&p)
}
#[no_mangle]
pub extern "C" fn h_c16_single() {
    let n = [33usize, 65, 0, 1, 2, 20, 32, 34, 64, 66, 255, 256][choose(12)];
    let b = any_vec(n);
    check(bytes_eq(hash_p2pkh(&b).as_bytes(), &hash160(&b)), "p2pkh");
    check(bytes_eq(hash_p2wpkh(&b).as_bytes(), &ref_p2wpkh(&b)), "p2wpkh");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c16_multi() {
    let (n, m);
    if choose(2) == 0 {
        n = choose(bound(17, 31));
        m = choose(n + 1);
    } else {
        n = [17, 20, 21, 32, 64, 100, 128, 175][choose(8)];
        m = [0, 1, n / 2, n][choose(4)];
    }
    // many keys: three arbitrary ones in turn
    let few: Vec<PublicKey> = (0..if n <= 16 { 0 } else { 3 }).map(|_| any_public()).collect();
    let key = |i: usize| if n <= 16 { any_public() } else { few[i % 3] };
    let keys: Vec<PublicKey> = (0..n).map(key).collect();
    check(bytes_eq(hash_p2sh(m as u8, &keys).as_bytes(), &ref_p2sh(m, &keys)), "p2sh");
    check(bytes_eq(hash_p2wsh(m as u8, &keys).as_bytes(), &ref_p2wsh(m, &keys)), "p2wsh");
    reach("end");
}

/// One group of keys after another.
#[no_mangle]
pub extern "C" fn h_c16_twice() {
    let a: Vec<PublicKey> = (0..1 + choose(2)).map(|_| any_public()).collect();
    let b: Vec<PublicKey> = (0..1 + choose(2)).map(|_| any_public()).collect();
    let (m, n) = (choose(3) as u8, choose(3) as u8);
    for (m, k) in [(m, &a), (n, &b), (m, &a)] {
        check(bytes_eq(hash_p2sh(m, k).as_bytes(), &ref_p2sh(usize::from(m), k)), "p2sh");
        check(bytes_eq(hash_p2wsh(m, k).as_bytes(), &ref_p2wsh(usize::from(m), k)), "p2wsh");
        let k = k[0].serialize();
        check(bytes_eq(hash_p2pkh(&k).as_bytes(), &hash160(&k)), "p2pkh");
        check(bytes_eq(hash_p2wpkh(&k).as_bytes(), &ref_p2wpkh(&k)), "p2wpkh");
    }
    reach("end");
}

// ---- digests and signatures ----------------------------------------------

#[no_mangle]
pub extern "C" fn h_c28_digests() {
    const N: [usize; 24] = [0, 1, 2, 3, 19, 20, 21, 31, 32, 33, 55, 56, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 1000];
    let b = any_vec(N[choose(24)]);
    check(bytes_eq(Sha256Hash::from_slice(&b).as_bytes(), &sha256(&b)), "sha256");
    check(bytes_eq(DSha256Hash::from_slice(&b).as_bytes(), &sha256(&sha256(&b))), "dsha256");
    check(bytes_eq(Sha512_256Hash::from_slice(&b).as_bytes(), &sha512_256(&b)), "sha512-256");
    check(bytes_eq(SignatureHash::from_slice(&b).as_bytes(), &sha512_256(&b)), "signature-hash");
    check(bytes_eq(Hash160::from_slice(&b).as_bytes(), &hash160(&b)), "hash160");
    let first = |x: &[u8]| [x[0], x[1], x[2], x[3]];
    check(bytes_eq(&Sha256Hash::from_slice(&b).checksum(), &first(&sha256(&b))), "sha256-checksum");
    check(bytes_eq(&DSha256Hash::from_slice(&b).checksum(), &first(&sha256(&sha256(&b)))), "dsha256-checksum");
    check(bytes_eq(&Sha512_256Hash::from_slice(&b).checksum(), &first(&sha512_256(&b))), "sha512-256-checksum");
    check(bytes_eq(&Hash160::from_slice(&b).checksum(), &first(&hash160(&b))), "hash160-checksum");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c28_large() {
    const N: [usize; 16] = [1023, 1024, 1025, 2048, 4095, 4096, 4097, 8193, 16384, 32769, 65535, 65536, 65537, 70000, 131073, 1048577];
    let b = any_sparse(N[choose(bound(14, 16))]);
    match choose(5) {
        0 => check(bytes_eq(Sha256Hash::from_slice(&b).as_bytes(), &sha256(&b)), "sha256"),
        1 => check(bytes_eq(DSha256Hash::from_slice(&b).as_bytes(), &sha256(&sha256(&b))), "dsha256"),
        2 => check(bytes_eq(Sha512_256Hash::from_slice(&b).as_bytes(), &sha512_256(&b)), "sha512-256"),
        3 => check(bytes_eq(SignatureHash::from_slice(&b).as_bytes(), &sha512_256(&b)), "signature-hash"),
        _ => check(bytes_eq(Hash160::from_slice(&b).as_bytes(), &hash160(&b)), "hash160"),
    }
    reach("end");
}
/// Inputs of the same or nearly the same length, alike but for one byte, in turn.
#[no_mangle]
pub extern "C" fn h_c28_twice() {
    const N: [usize; 14] = [1, 2, 20, 32, 33, 64, 65, 66, 100, 128, 129, 200, 256, 1000];
    let n = N[choose(14)];
    let a = any_vec(n);
    let mut b = a.clone();
    match choose(7) {
        0 => b[0] = any_u8(),
        1 => b[n / 4] = any_u8(),
        2 => b[n / 2] = any_u8(),
        3 => b[n * 3 / 4] = any_u8(),
        4 => b[n - 1] = any_u8(),
        5 => b.push(any_u8()),
        _ => {
            b.pop();
        }
    }
    macro_rules! t {
        ($t:ident, $f:expr, $id:expr) => {
            for x in [&a, &b, &a] {
                check(bytes_eq($t::from_slice(x).as_bytes(), &$f(x)), $id);
            }
        };
    }
    t!(Sha256Hash, sha256, "sha256");
    t!(DSha256Hash, |x: &[u8]| sha256(&sha256(x)), "dsha256");
    t!(Sha512_256Hash, sha512_256, "sha512-256");
    t!(SignatureHash, sha512_256, "signature-hash");
    t!(Hash160, hash160, "hash160");
    reach("end");
}
/// Bytes in, the same bytes out, through every conversion; equality and order.
#[no_mangle]
pub extern "C" fn h_c28_bytes() {
    macro_rules! t {
        ($t:ident, $n:expr, $id:expr) => {{
            let a = any_array::<$n>();
            let b = any_array::<$n>();
            let x = $t::from(a);
            check(bytes_eq(x.as_bytes(), &a), $id);
            check(bytes_eq(&x.into_bytes(), &a), $id);
            check(bytes_eq(&Vec::from(x), &a), $id);
            check(bytes_eq(AsRef::<[u8]>::as_ref(&x), &a), $id);
            check(bytes_eq(AsRef::<[u8; $n]>::as_ref(&x), &a), $id);
            check((x == $t::from(b)) == bytes_eq(&a, &b), $id);
            check(bytes_eq($t::default().as_bytes(), &[0; $n]), $id);
            let mut y = x;
            AsMut::<[u8]>::as_mut(&mut y).copy_from_slice(&b);
            check(bytes_eq(y.as_bytes(), &b), $id);
        }};
    }
    match choose(6) {
        0 => t!(Sha256Hash, 32, "sha256"),
        1 => t!(DSha256Hash, 32, "dsha256"),
        2 => t!(Sha512_256Hash, 32, "sha512-256"),
        3 => t!(SignatureHash, 32, "signature-hash"),
        4 => t!(Hash160, 20, "hash160"),
        _ => t!(MessageSignature, 65, "message-signature"),
    }
    let h = any_array::<20>();
    check(bytes_eq(Hash160::new(h).as_bytes(), &h), "hash160-new");
    let s = any_array::<65>();
    check(bytes_eq(MessageSignature::new(s).as_bytes(), &s), "signature-new");
    reach("end");
}
/// 65 bytes and nothing else; recovery id first; the way back is exact.
#[no_mangle]
pub extern "C" fn h_c28_signature() {
    let n = [65usize, 0, 1, 2, 32, 63, 64, 66, 67, 96, 128, 129, 130, 131, 195, 256, 321][choose(17)];
    let b = any_vec(n);
    let r = MessageSignature::from_slice(&b);
    if n != 65 {
        check(r.is_err(), "length-rejected");
        reach("rejected");
        return;
    }
    let m = must(r, "length-accepted");
    check(bytes_eq(m.as_bytes(), &b), "same");
    match m.into_recov() {
        Ok(r) => {
            check(b[0] < 4, "recovery-id-range");
            let (id, sig) = r.serialize_compact();
            check(id.to_i32() == i32::from(b[0]), "recovery-id");
            check(bytes_eq(&sig, &b[1..]), "compact");
            let back = must(MessageSignature::from_recov(r), "from-recov");
            check(bytes_eq(back.as_bytes(), &b), "recov-round-trip");
            reach("recov");
        }
        Err(_) => {
            if b[0] < 4 {
                // refused by the curve library only
                use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
                let id = must(RecoveryId::from_i32(i32::from(b[0])), "id");
                check(RecoverableSignature::from_compact(&b[1..], id).is_err(), "valid-signature-accepted");
            }
            reach("no-recov");
        }
    }
}
