//! C01..C09: Clarity values.
use crate::gen::*;
use stacks_rs::clarity::*;
use vrt::*;

/// encode -> decode gives the value back, by both decoders, with any trailing bytes.
fn round_trip(v: &V) {
    let c = build(v);
    let e = must(c.encode(), "encode-ok");
    let mut long = e.clone();
    long.extend_from_slice(&any_array::<2>());
    let d = must(decode_clarity_type(&e), "decode-ok");
    check(matches(d.as_ref(), v), "decode-same");
    let d = must(decode_clarity_type(&long), "decode-trailing-ok");
    check(matches(d.as_ref(), v), "decode-trailing-same");
    let d = must(decode_typed(v, &e), "decode-typed-ok");
    check(matches(d.as_ref(), v), "decode-typed-same");
    observe(&e);
    reach("end");
}
/// The encoding equals the reference, as do the views derived from it.
fn wire(v: &V) {
    let c = build(v);
    let r = reference(v);
    let e = must(c.encode(), "encode-ok");
    check(bytes_eq(&e, &r), "encoding");
    check(must(c.len(), "len-ok") == r.len(), "len");
    check(!must(c.is_empty(), "is-empty-ok"), "is-empty");
    if r.len() <= 300 {
        let h = ref_hex(&r);
        check(same_str(&must(c.hex(), "hex-ok"), &h), "hex");
        check(same_str(&must(c.hex_prefixed(), "hex-prefixed-ok"), &format!("0x{h}")), "hex-prefixed");
    }
    observe(&e);
    reach("end");
}
fn leaves() -> Shape {
    Shape { depth: 0, list: 0, tuple: 0, bytes: bound(4, 6), principals: false, few: false }
}
fn nested() -> Shape {
    Shape { depth: 1, list: bound(2, 3), tuple: bound(2, 2), bytes: 1, principals: true, few: false }
}
fn deep() -> Shape {
    Shape { depth: bound(3, 4), list: bound(1, 2), tuple: bound(1, 1), bytes: 1, principals: false, few: true }
}
#[no_mangle]
pub extern "C" fn h_c01_leaf() {
    round_trip(&any_leaf(leaves()));
}
#[no_mangle]
pub extern "C" fn h_c01_nested() {
    round_trip(&any_container(nested()));
}
#[no_mangle]
pub extern "C" fn h_c01_deep() {
    round_trip(&any_container(deep()));
}
fn any_principal() -> V {
    let a = any_addr(true);
    match choose(3) {
        0 => V::Std(a),
        1 => V::Con(a, any_ascii(choose(4))),
        _ => V::Con(a, any_utf8(choose(3))),
    }
}
#[no_mangle]
pub extern "C" fn h_c01_principal() {
    round_trip(&any_principal());
}
/// Every size to 40, then around every power of two and a few round numbers.
pub fn any_size(max: usize) -> usize {
    let n = choose(41 + 3 * 12 + 4);
    let n = match n {
        0..=40 => n,
        41..=76 => {
            let k = (n - 41) / 3;
            (1usize << (6 + k)) + (n - 41) % 3 - 1
        }
        77 => 100,
        78 => 1000,
        79 => 10_000,
        _ => 100_000,
    };
    assume(n <= max);
    n
}
pub fn any_sparse_text(n: usize) -> String {
    let mut b = any_sparse(n);
    for x in &mut b {
        *x &= 0x7f;
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// Sizes around every length-field boundary.
fn any_big() -> V {
    const M: [usize; 3] = [126, 127, 128];
    match choose(8) {
        0 => V::Buf(any_sparse(any_size(bound(70_000, 140_000)))),
        1 => V::Ascii(any_sparse_text(any_size(bound(70_000, 140_000)))),
        2 => V::Utf8(any_sparse_text(any_size(bound(70_000, 140_000)))),
        3 => V::Con(addr_with(20, false), any_ascii(M[choose(3)])),
        4 => V::Tuple(vec![(any_ascii(M[choose(3)]), V::True), (any_ascii(1), V::UInt(any_u128()))]),
        5 => {
            let n = any_size(bound(4_000, 70_000));
            let x = any_u8();
            V::List((0..n).map(|i| if i + 1 == n { V::Buf(vec![x]) } else { V::None }).collect())
        }
        6 => {
            let n = any_size(bound(300, 2_000));
            let x = any_u128();
            V::Tuple(
                (0..n)
                    .map(|i| {
                        let k = format!("k{i}");
                        (k, if i + 1 == n { V::UInt(x) } else { V::True })
                    })
                    .collect(),
            )
        }
        _ => {
            // a deep chain of wrappers
            let mut v = V::Int(any_i128());
            for i in 0..[1, 7, 15, 16, 17, 31, 32, 33, 40, 64, 65, bound(100, 200)][choose(12)] {
                v = match i % 5 {
                    0 => V::Some(Box::new(v)),
                    1 => V::Ok(Box::new(v)),
                    2 => V::List(vec![v]),
                    3 => V::Err(Box::new(v)),
                    _ => V::Tuple(vec![("a".to_string(), v)]),
                };
            }
            v
        }
    }
}
/// The largest values Clarity allows, a little over a mebibyte.
fn any_huge() -> V {
    let n = (1usize << 20) + choose(3) - 1;
    match choose(3) {
        0 => V::Buf(any_sparse(n)),
        1 => V::Ascii(any_sparse_text(n)),
        _ => V::Utf8(any_sparse_text(n)),
    }
}
#[no_mangle]
pub extern "C" fn h_c01_huge() {
    round_trip(&any_huge());
}
#[no_mangle]
pub extern "C" fn h_c02_huge() {
    wire(&any_huge());
}
/// More elements than 16 bits count.
fn any_crowd() -> V {
    let n = 65535 + choose(bound(2, 3));
    let x = any_u8();
    if choose(2) == 0 {
        V::List((0..n).map(|i| if i + 1 == n { V::Buf(vec![x]) } else { V::None }).collect())
    } else {
        let k = |i: usize| (0..4).map(|j| char::from(b'a' + ((i >> (4 * j)) & 15) as u8)).collect::<String>() + if i > 65535 { "z" } else { "" };
        V::Tuple((0..n).map(|i| (k(i), if i + 1 == n { V::Buf(vec![x]) } else { V::None })).collect())
    }
}
#[no_mangle]
pub extern "C" fn h_c01_crowd() {
    if choose(3) < 2 {
        let v = any_crowd();
        let e = must(build(&v).encode(), "encode-ok");
        let d = must(decode_clarity_type(&e), "decode-ok");
        check(matches(d.as_ref(), &v), "decode-same");
    } else {
        let n = 65535 + choose(bound(2, 3));
        let e = must(FnArguments::new((0..n).map(|_| build(&V::False)).collect()).encode(), "args-encode");
        let d = must(FnArguments::decode(&e), "args-decode");
        check(d.value().len() == n, "args-count");
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c02_crowd() {
    if choose(3) < 2 {
        let v = any_crowd();
        let c = build(&v);
        let r = reference(&v);
        check(bytes_eq(&must(c.encode(), "encode-ok"), &r), "encoding");
    } else {
        let n = 65535 + choose(bound(2, 3));
        let e = must(FnArguments::new((0..n).map(|_| build(&V::False)).collect()).encode(), "args-encode");
        let mut r = (n as u32).to_be_bytes().to_vec();
        r.resize(4 + n, 4);
        check(bytes_eq(&e, &r), "args-encoding");
    }
    reach("end");
}
/// Two values after one another: nothing of the first is left in the second.
fn any_other() -> V {
    match choose(6) {
        0 => V::UInt(any_u128()),
        1 => V::Buf(any_vec(2)),
        2 => V::Utf8(any_ascii(2)),
        3 => V::Std(any_addr(false)),
        4 => V::Con(any_addr(false), any_ascii(1)),
        _ => V::Tuple(vec![(any_ascii(1), V::List(vec![V::Int(any_i128())]))]),
    }
}
#[no_mangle]
pub extern "C" fn h_c01_twice() {
    let (a, b) = (any_other(), any_other());
    let (x, y) = (build(&a), build(&b));
    let (e, f) = (must(x.encode(), "encode-ok"), must(y.encode(), "encode-ok"));
    for (e, v) in [(&e, &a), (&f, &b), (&e, &a)] {
        let d = must(decode_clarity_type(e), "decode-ok");
        check(matches(d.as_ref(), v), "decode-same");
        let d = must(decode_typed(v, e), "decode-typed-ok");
        check(matches(d.as_ref(), v), "decode-typed-same");
    }
    reach("end");
}
/// A value after many refused ones.
fn after_refusals(property: u8) {
    let bad: [Vec<u8>; 9] = [
        vec![],
        vec![7],
        vec![11, 0, 0, 0, 2, 3],
        vec![12, 0, 0, 0, 1, 1, b'a', 10],
        vec![10, 7, 8, 10, 99],
        vec![13, 0, 0, 0, 1, 0x80],
        vec![14, 0, 0, 0, 1, 0xff],
        vec![6, 22, 1],
        vec![2, 0xff, 0xff, 0xff, 0xff],
    ];
    let n = [1usize, 40, 300][choose(3)];
    let k = choose(bad.len() + 2);
    for _ in 0..n {
        let refused = match bad.get(k) {
            Some(b) => decode_clarity_type(b).is_err(),
            None if k == bad.len() => List::new(vec![Box::new(StringAscii::new("é".to_string()))]).encode().is_err(),
            None => FnArguments::decode(&[0, 0, 0, 3, 3, 10]).is_err(),
        };
        if property == 4 {
            check(refused, "refused");
        }
    }
    let v = any_other();
    let x = build(&v);
    let e = must(x.encode(), "encode-ok");
    if property == 2 {
        check(bytes_eq(&e, &reference(&v)), "encoding");
    }
    check(matches(must(decode_clarity_type(&e), "decode-ok").as_ref(), &v), "decode-same");
    check(matches(must(decode_typed(&v, &e), "decode-typed-ok").as_ref(), &v), "decode-typed-same");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c01_after() {
    after_refusals(1);
}
#[no_mangle]
pub extern "C" fn h_c02_after() {
    after_refusals(2);
}
#[no_mangle]
pub extern "C" fn h_c04_after() {
    after_refusals(4);
}
#[no_mangle]
pub extern "C" fn h_c02_twice() {
    let (a, b) = (any_other(), any_other());
    let (x, y) = (build(&a), build(&b));
    for (c, v) in [(&x, &a), (&y, &b), (&x, &a)] {
        check(bytes_eq(&must(c.encode(), "encode-ok"), &reference(v)), "encoding");
    }
    reach("end");
}
/// Characters of 2 to 4 bytes in every place that holds text.
fn any_wide_value() -> V {
    let w = 1 + choose(4);
    match choose(5) {
        0 => V::Tuple(vec![(any_wide(1 + choose(2), w), V::UInt(any_u128())), (any_wide(1, 5 - w), V::Buf(any_vec(1)))]),
        1 => V::Con(addr_with(26, false), any_wide(choose(3), w)),
        2 => V::Utf8(any_wide([1, 2, 3, 31, 32, 64, 127, 128, 256, 16400][choose(bound(9, 10))], w)),
        3 => {
            let n = 128 / w;
            V::Tuple(vec![(any_wide(n, w), V::Some(Box::new(V::Utf8(any_wide(2, w))))), (any_wide(1, w), V::Int(any_i128()))])
        }
        _ => V::Con(addr_with(22, false), any_wide(128 / w, w)),
    }
}
#[no_mangle]
pub extern "C" fn h_c01_wide() {
    round_trip(&any_wide_value());
}
#[no_mangle]
pub extern "C" fn h_c02_wide() {
    wire(&any_wide_value());
}
#[no_mangle]
pub extern "C" fn h_c01_big() {
    round_trip(&any_big());
}
#[no_mangle]
pub extern "C" fn h_c02_leaf() {
    wire(&any_leaf(leaves()));
}
#[no_mangle]
pub extern "C" fn h_c02_nested() {
    wire(&any_container(nested()));
}
#[no_mangle]
pub extern "C" fn h_c02_deep() {
    wire(&any_container(deep()));
}
#[no_mangle]
pub extern "C" fn h_c02_principal() {
    wire(&any_principal());
}
#[no_mangle]
pub extern "C" fn h_c02_big() {
    wire(&any_big());
}

/// Names and function arguments, the two unframed encodings.
fn any_args() -> Vec<V> {
    let s = Shape { depth: 1, list: 1, tuple: 1, bytes: 1, principals: false, few: true };
    let n = choose(bound(3, 4));
    (0..n).map(|_| any_value(s)).collect()
}
fn any_name() -> String {
    const N: [usize; 4] = [5, 126, 127, 128];
    match choose(4) {
        0 => any_utf8(choose(5)),
        1 => any_ascii(choose(4)),
        2 => {
            let w = 2 + choose(3);
            any_wide([1, 2, 128 / w][choose(3)], w)
        }
        _ => any_ascii(N[choose(4)]),
    }
}
fn ref_args(a: &[V]) -> Vec<u8> {
    let mut r = vec![0, 0, 0, a.len() as u8];
    for x in a {
        ref_encode(x, &mut r);
    }
    r
}
#[no_mangle]
pub extern "C" fn h_c01_names() {
    if choose(2) == 0 {
        let n = any_name();
        let mut e = must(LengthPrefixedStr::new(n.clone()).encode(), "name-encode");
        e.extend_from_slice(&any_array::<2>());
        let d = must(LengthPrefixedStr::decode(&e), "name-decode");
        check(same_str(d.value(), &n), "name-same");
    } else {
        let a = any_args();
        let mut e = must(FnArguments::new(a.iter().map(build).collect()).encode(), "args-encode");
        e.extend_from_slice(&any_array::<2>());
        let d = must(FnArguments::decode(&e), "args-decode");
        check(d.value().len() == a.len(), "args-count");
        for (x, y) in d.value().iter().zip(&a) {
            check(matches(x.as_ref(), y), "args-same");
        }
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c02_names() {
    if choose(2) == 0 {
        let n = any_name();
        let mut r = vec![];
        ref_name(&n, &mut r);
        let e = must(LengthPrefixedStr::new(n).encode(), "name-encode");
        check(bytes_eq(&e, &r), "name-encoding");
    } else {
        let a = any_args();
        let e = must(FnArguments::new(a.iter().map(build).collect()).encode(), "args-encode");
        check(bytes_eq(&e, &ref_args(&a)), "args-encoding");
        observe(&e);
    }
    reach("end");
}

// ---- C03 / C04: arbitrary bytes ------------------------------------------

/// Up to `n` arbitrary bytes; with a fixed tag where `tags` is set.
fn any_input(n: usize) -> Vec<u8> {
    any_vec(choose(n + 1))
}
fn no_panic(b: &[u8]) {
    let r = decode_clarity_type(b);
    observe(&[r.is_ok() as u8]);
    if r.is_ok() {
        reach("accepted");
    } else {
        reach("rejected");
    }
}
#[no_mangle]
pub extern "C" fn h_c03_any() {
    no_panic(&any_input(bound(8, 10)));
}
/// Principals: up to 3 bytes more than a standard principal takes.
fn any_principal_bytes() -> Vec<u8> {
    let mut b = any_vec(choose(bound(27, 30)));
    if !b.is_empty() {
        b[0] = 5 + (b[0] & 1);
    }
    if b.len() > 2 {
        b[2] |= 0x40;
    }
    b
}
#[no_mangle]
pub extern "C" fn h_c03_principal() {
    no_panic(&any_principal_bytes());
}
/// A few arbitrary bytes inside a fixed frame: length fields, nested tags.
fn any_framed() -> Vec<u8> {
    let mut b = match choose(7) {
        // a tuple of one
        6 => vec![0x0c, 0, 0, 0, 1],
        // a list of two whose elements are arbitrary
        0 => vec![0x0b, 0, 0, 0, 2],
        // a tuple of two with arbitrary names and values
        1 => vec![0x0c, 0, 0, 0, 2],
        // nested lists
        2 => vec![0x0b, 0, 0, 0, 1, 0x0b],
        // a list in a tuple
        3 => vec![0x0c, 0, 0, 0, 1, 1, b'a', 0x0b],
        // tuple in optional
        4 => vec![0x0a, 0x0c],
        _ => vec![0x07, 0x0b, 0, 0, 0, 2, 0x0e],
    };
    b.extend_from_slice(&any_vec(choose(bound(6, 8))));
    b
}
#[no_mangle]
pub extern "C" fn h_c03_framed() {
    no_panic(&any_framed());
}
/// Truncations: a whole valid encoding cut anywhere.
#[no_mangle]
pub extern "C" fn h_c03_cut() {
    let v = if choose(2) == 0 {
        any_container(Shape { depth: bound(1, 2), list: 2, tuple: 1, bytes: 1, principals: true, few: false })
    } else {
        any_leaf(leaves())
    };
    let e = reference(&v);
    let n = choose(e.len());
    let r = decode_clarity_type(&e[..n]);
    check(r.is_err(), "truncated-rejected");
    check(decode_typed(&v, &e[..n]).is_err(), "truncated-rejected-typed");
    reach("end");
}
/// Names and argument lists.
#[no_mangle]
pub extern "C" fn h_c03_names() {
    let b = any_input(bound(7, 9));
    let r = LengthPrefixedStr::decode(&b);
    observe(&[r.is_ok() as u8]);
    let r = FnArguments::decode(&b);
    observe(&[r.is_ok() as u8]);
    reach("end");
}
/// Every typed decoder on arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_c03_typed() {
    let b = any_input(bound(6, 7));
    let v = any_kind();
    let r = decode_typed(&v, &b);
    observe(&[r.is_ok() as u8]);
    reach("end");
}
/// Claimed sizes far beyond the input.
#[no_mangle]
pub extern "C" fn h_c03_huge() {
    let tag = [0x02, 0x0b, 0x0c, 0x0d, 0x0e][choose(5)];
    let mut b = vec![tag];
    let mut n = any_array::<4>();
    n[0] |= 0x10;
    b.extend_from_slice(&n);
    b.extend_from_slice(&any_vec(choose(4)));
    check(decode_clarity_type(&b).is_err(), "oversized-rejected");
    let b = b[1..].to_vec();
    check(FnArguments::decode(&b).is_err(), "oversized-args-rejected");
    reach("end");
}
/// Deep nesting.
#[no_mangle]
pub extern "C" fn h_c03_stack() {
    let t = [0x07u8, 0x08, 0x0a][choose(3)];
    let mut b = vec![t; 120_000];
    b.push(0x09);
    let r = decode_clarity_type(&b);
    observe(&[r.is_ok() as u8]);
    std::mem::forget(r);
    reach("end");
}
/// One value of each type, only its type matters.
fn any_kind() -> V {
    match choose(15) {
        0 => V::Int(0),
        1 => V::UInt(0),
        2 => V::Buf(vec![]),
        3 => V::True,
        4 => V::False,
        5 => V::Std(Addr { version: 0, hash: [0; 20], text: String::new() }),
        6 => V::Con(Addr { version: 0, hash: [0; 20], text: String::new() }, String::new()),
        7 => V::Ok(Box::new(V::None)),
        8 => V::Err(Box::new(V::None)),
        9 => V::None,
        10 => V::Some(Box::new(V::None)),
        11 => V::List(vec![]),
        12 => V::Tuple(vec![]),
        13 => V::Ascii(String::new()),
        _ => V::Utf8(String::new()),
    }
}
fn tag(v: &V) -> u8 {
    match v {
        V::Int(_) => 0,
        V::UInt(_) => 1,
        V::Buf(_) => 2,
        V::True => 3,
        V::False => 4,
        V::Std(_) => 5,
        V::Con(..) => 6,
        V::Ok(_) => 7,
        V::Err(_) => 8,
        V::None => 9,
        V::Some(_) => 10,
        V::List(_) => 11,
        V::Tuple(_) => 12,
        V::Ascii(_) => 13,
        V::Utf8(_) => 14,
    }
}
/// The decoder accepts exactly what the reference parser accepts, with the same
/// meaning, and what it accepts re-encodes to the bytes read.
fn strict(b: &[u8]) {
    let d = decode_clarity_type(b);
    match ref_decode(b) {
        Some((v, n)) => {
            let c = must(d, "valid-accepted");
            check(matches(c.as_ref(), &v), "meaning");
            let e = must(c.encode(), "re-encode");
            check(bytes_eq(&e, &b[..n]), "re-encode-same");
            observe(&e);
            reach("valid");
        }
        None => {
            check(d.is_err(), "invalid-rejected");
            reach("invalid");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c04_any() {
    strict(&any_input(bound(7, 9)));
}
#[no_mangle]
pub extern "C" fn h_c04_principal() {
    strict(&any_principal_bytes());
}
#[no_mangle]
pub extern "C" fn h_c04_framed() {
    strict(&any_framed());
}
/// Typed decoders refuse every other tag and agree with the untyped one.
#[no_mangle]
pub extern "C" fn h_c04_typed() {
    let v = any_kind();
    let b = any_input(bound(6, 7));
    let r = decode_typed(&v, &b);
    if b.is_empty() || b[0] != tag(&v) {
        check(r.is_err(), "other-tag-rejected");
        reach("other");
    } else {
        let d = decode_clarity_type(&b);
        check(d.is_ok() == r.is_ok(), "typed-agrees");
        if let (Ok(x), Ok(y)) = (d, r) {
            check(
                bytes_eq(&must(x.encode(), "re-encode"), &must(y.encode(), "re-encode-typed")),
                "typed-same",
            );
            reach("same");
        }
    }
}
/// Names: at most 128 bytes, UTF-8, whole.
#[no_mangle]
pub extern "C" fn h_c04_names() {
    let b = match choose(2) {
        0 => any_input(bound(5, 6)),
        _ => {
            // a long name: every announced length
            let mut b = any_ascii([127, 128, 129, 130, 256][choose(5)]).into_bytes();
            b[0] = any_u8();
            b
        }
    };
    let ok = !b.is_empty() && {
        let n = usize::from(b[0]);
        n <= 128 && n < b.len() && std::str::from_utf8(&b[1..=n]).is_ok()
    };
    let d = LengthPrefixedStr::decode(&b);
    if ok {
        let d = must(d, "name-accepted");
        check(bytes_eq(d.value().as_bytes(), &b[1..=usize::from(b[0])]), "name-same");
        reach("valid");
    } else {
        check(d.is_err(), "name-rejected");
        reach("invalid");
    }
}
/// Long names inside tuples and contract principals.
#[no_mangle]
pub extern "C" fn h_c04_longnames() {
    let name = if choose(2) == 0 {
        any_ascii([127usize, 128, 129, 255][choose(4)])
    } else {
        let w = 2 + choose(3);
        any_wide([1, 2, 128 / w, 128 / w + 1, 63][choose(5)], w)
    };
    let n = name.len();
    let mut b;
    if choose(2) == 0 {
        b = vec![0x0c, 0, 0, 0, 1, n as u8];
        b.extend_from_slice(name.as_bytes());
        b.push(0x03);
    } else {
        b = vec![0x06, 22];
        let mut h = any_array::<20>();
        h[0] |= 0x40;
        b.extend_from_slice(&h);
        b.push(n as u8);
        b.extend_from_slice(name.as_bytes());
    }
    strict(&b);
}
#[no_mangle]
pub extern "C" fn h_c04_args() {
    let mut b = any_input(bound(7, 8));
    if choose(2) == 0 {
        let mut x = vec![0, 0, 0, 2];
        x.append(&mut b);
        b = x;
    }
    let d = FnArguments::decode(&b);
    let want = (|| {
        if b.len() < 4 {
            return None;
        }
        let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
        let mut at = 4;
        let mut l = vec![];
        for _ in 0..n {
            let (v, k) = ref_decode(&b[at..])?;
            at += k;
            l.push(v);
        }
        Some((l, at))
    })();
    match want {
        Some((l, n)) => {
            let d = must(d, "args-accepted");
            check(d.value().len() == l.len(), "args-count");
            for (x, y) in d.value().iter().zip(&l) {
                check(matches(x.as_ref(), y), "args-meaning");
            }
            check(bytes_eq(&must(d.encode(), "args-re-encode"), &b[..n]), "args-re-encode-same");
            reach("valid");
        }
        None => {
            check(d.is_err(), "args-rejected");
            reach("invalid");
        }
    }
}

// ---- C05: values with no encoding ----------------------------------------

/// A name of more than 128 bytes, by characters of 1 to 4 bytes.
fn any_long_name() -> String {
    const N: [usize; 7] = [129, 130, 255, 256, 257, 300, 512];
    let w = 1 + choose(4);
    if w == 1 {
        any_ascii(N[choose(7)])
    } else {
        any_wide([128 / w + 1, 64, 128, 129, 256][choose(5)] + usize::from(w == 2), w)
    }
}
/// A value that has no valid serialisation.
fn any_unencodable() -> V {
    match choose(6) {
        0 => {
            // some character outside ASCII
            let s = any_utf8(choose(bound(4, 5)));
            assume(!s.is_ascii());
            V::Ascii(s)
        }
        1 => {
            // a non-ASCII character somewhere in a longer string
            let n = bound(8, 16);
            let mut b = any_ascii(n).into_bytes();
            let at = choose(n - 1);
            b[at] = 0xc3;
            b[at + 1] = 0x80 | (b[at + 1] & 0x3f);
            V::Ascii(unsafe { String::from_utf8_unchecked(b) })
        }
        2 => V::Con(addr_with(22, false), any_long_name()),
        3 => V::Tuple(vec![(any_long_name(), V::True)]),
        4 => V::Std(bad_addr()),
        _ => V::Con(bad_addr(), any_ascii(1)),
    }
}
/// An address text that is not one: wrong first letter, wrong checksum, unknown
/// version, too short, not c32.
fn bad_addr() -> Addr {
    let version = [22u8, 20][choose(2)];
    let mut hash: [u8; 20] = any_array();
    hash[0] |= 0x40;
    let mut sum = ref_checksum(version, &hash);
    let mut first = b'S';
    let mut ver = version;
    match choose(5) {
        0 => {
            let d = any_array::<4>();
            assume(d != [0; 4]);
            for i in 0..4 {
                sum[i] ^= d[i];
            }
        }
        1 => {
            first = any_u8() & 0x7f;
            assume(first != b'S');
        }
        2 => {
            ver = any_u8() & 31;
            assume(!VERSIONS.contains(&ver));
            sum = ref_checksum(ver, &hash);
        }
        3 => {
            let s = any_ascii(choose(6));
            return Addr { version, hash, text: s };
        }
        _ => {}
    }
    let mut data = hash.to_vec();
    data.extend_from_slice(&sum);
    let mut s = vec![first, C32[usize::from(ver)]];
    s.extend_from_slice(&ref_c32(&data));
    // (the fifth case: a character that is not c32)
    if first == b'S' && ver == version && sum == ref_checksum(version, &hash) {
        let at = 2 + choose(bound(3, 30)) * bound(11, 1);
        let c = any_u8() & 0x7f;
        assume(!c.is_ascii_alphanumeric() || c == b'U' || c == b'u');
        s[at] = c;
    }
    Addr { version, hash, text: unsafe { String::from_utf8_unchecked(s) } }
}
#[no_mangle]
pub extern "C" fn h_c05_refused() {
    let v = any_unencodable();
    let v = match choose(7) {
        0 => v,
        1 => V::Ok(Box::new(v)),
        2 => V::Err(Box::new(v)),
        3 => V::Some(Box::new(v)),
        4 => V::List(vec![V::True, v, V::None]),
        5 => V::Tuple(vec![("a".into(), V::True), ("b".into(), v)]),
        _ => V::List(vec![V::Some(Box::new(V::Tuple(vec![("k".into(), v)])))]),
    };
    let c = build(&v);
    check(c.encode().is_err(), "encode-refused");
    check(c.len().is_err(), "len-refused");
    check(c.is_empty().is_err(), "is-empty-refused");
    check(c.hex().is_err(), "hex-refused");
    check(c.hex_prefixed().is_err(), "hex-prefixed-refused");
    let f = FnArguments::new(vec![build(&V::True), c]);
    check(f.encode().is_err(), "args-refused");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c05_name() {
    let name = if choose(2) == 0 {
        any_ascii([129, 130, 255, 256, 257, 300, 384, 512, 65536][choose(9)])
    } else {
        any_long_name()
    };
    check(LengthPrefixedStr::new(name).encode().is_err(), "name-refused");
    reach("end");
}

// ---- C06: equality --------------------------------------------------------

fn eq_same<T: PartialEq>(a: &T, b: &T, same: bool) {
    check((a == b) == same, "eq-iff-same");
    check((b == a) == same, "eq-symmetric");
    check((a != b) != same, "ne");
}
fn eq_pair(v: &V, w: &V) {
    let same = {
        let (x, y) = (reference(v), reference(w));
        bytes_eq(&x, &y)
    };
    let (a, b) = (build(v), build(w));
    macro_rules! t {
        ($t:ty) => {
            eq_same(must_some(a.as_any().downcast_ref::<$t>(), "built"), must_some(b.as_any().downcast_ref::<$t>(), "built"), same)
        };
    }
    match v {
        V::Int(_) => t!(Int),
        V::UInt(_) => t!(UInt),
        V::Buf(_) => t!(Buffer),
        V::True => t!(True),
        V::False => t!(False),
        V::Std(_) => t!(PrincipalStandard),
        V::Con(..) => t!(PrincipalContract),
        V::Ok(_) => t!(ResponseOk),
        V::Err(_) => t!(ResponseErr),
        V::None => t!(OptionalNone),
        V::Some(_) => t!(OptionalSome),
        V::List(_) => t!(List),
        V::Tuple(_) => t!(Tuple),
        V::Ascii(_) => t!(StringAscii),
        V::Utf8(_) => t!(StringUtf8),
    }
    // a copy is equal to the original
    let c = a.clone();
    check(bytes_eq(&must(c.encode(), "clone-encode"), &reference(v)), "clone-same");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c06_leaf() {
    let s = Shape { depth: 0, list: 0, tuple: 0, bytes: bound(2, 3), principals: true, few: false };
    let (v, w) = (any_leaf(s), any_leaf(s));
    if tag(&v) == tag(&w) {
        eq_pair(&v, &w);
    }
}
#[no_mangle]
pub extern "C" fn h_c06_container() {
    let s = Shape { depth: 1, list: 2, tuple: 1, bytes: 1, principals: false, few: bound(1, 0) == 1 };
    let (v, w) = (any_container(s), any_container(s));
    if tag(&v) == tag(&w) {
        eq_pair(&v, &w);
    }
}
/// Strings with the characters that renderings use.
#[no_mangle]
pub extern "C" fn h_c06_text() {
    let l = |n: usize| -> V {
        let k = choose(n);
        V::List((0..k).map(|_| if choose(2) == 0 { V::Ascii(any_ascii(choose(5))) } else { V::True }).collect())
    };
    eq_pair(&l(bound(3, 4)), &l(bound(3, 4)));
}

/// Large values that differ in one place or not at all.
#[no_mangle]
pub extern "C" fn h_c06_long() {
    let n = [16usize, 32, 33, 64, 65, 128, 129, 255, 256, 257, 1024, 4096][choose(bound(10, 12))];
    let at = match choose(5) {
        0 => 0,
        1 => n / 2,
        2 => n / 2 + 1,
        3 => n - 2,
        _ => n - 1,
    };
    let (x, y) = (any_u8() & 127, any_u8() & 127);
    let text = |z: u8| {
        let mut b = vec![b'a'; n];
        b[at] = z;
        unsafe { String::from_utf8_unchecked(b) }
    };
    let (v, w) = match choose(5) {
        0 => (V::Buf(text(x).into_bytes()), V::Buf(text(y).into_bytes())),
        1 => (V::Ascii(text(x)), V::Ascii(text(y))),
        2 => (V::Utf8(text(x)), V::Utf8(text(y))),
        3 => {
            let l = |z: u8| V::List((0..n).map(|i| if i == at { V::UInt(u128::from(z)) } else { V::True }).collect());
            (l(x), l(y))
        }
        _ => {
            let l = |z: u8| {
                let mut v = V::Buf(vec![z]);
                for i in 0..n.min(64) {
                    v = match i % 5 {
                        0 => V::Some(Box::new(v)),
                        1 => V::Ok(Box::new(v)),
                        2 => V::List(vec![v]),
                        3 => V::Err(Box::new(v)),
                        _ => V::Tuple(vec![("a".to_string(), v)]),
                    };
                }
                v
            };
            (l(x), l(y))
        }
    };
    eq_pair(&v, &w);
}
/// Contents without an encoding still differ from one another.
#[no_mangle]
pub extern "C" fn h_c06_unencodable() {
    // no separators: see DESIGN.md
    let n = choose(bound(3, 4));
    let m = choose(bound(3, 4));
    let (a, b) = if choose(2) == 0 { (any_utf8(n), any_utf8(m)) } else { (any_ascii(n) + "\u{e9}", any_ascii(m) + "\u{e9}") };
    for c in a.bytes().chain(b.bytes()) {
        assume(c != b'.');
    }
    let same = same_str(&a, &b);
    match choose(5) {
        0 => eq_same(&StringAscii::new(a), &StringAscii::new(b), same),
        1 => eq_same(&PrincipalStandard::new(a), &PrincipalStandard::new(b), same),
        2 => eq_same(&PrincipalContract::new((a, "c".to_string())), &PrincipalContract::new((b, "c".to_string())), same),
        3 => eq_same(&OptionalSome::new(Box::new(StringAscii::new(a))), &OptionalSome::new(Box::new(StringAscii::new(b))), same),
        _ => eq_same(&LengthPrefixedStr::new(a), &LengthPrefixedStr::new(b), same),
    }
    reach("end");
}

// ---- C07: tuples as maps --------------------------------------------------

#[no_mangle]
pub extern "C" fn h_c07_ops() {
    // an empty tuple, or one that already holds three entries
    let mut m: Vec<(String, u128)> = vec![];
    if choose(2) == 1 {
        for k in ["a", "b", "c"] {
            m.push((k.to_string(), any_u128()));
        }
    }
    let mut t = Tuple::new(m.iter().map(|(k, x)| (k.clone(), Box::new(UInt::new(*x)) as Box<dyn Clarity>)).collect());
    let pos = |m: &Vec<(String, u128)>, k: &str| m.iter().position(|(x, _)| same_str(x, k));
    let n = if m.is_empty() { bound(4, 5) } else { bound(3, 4) };
    let whole = |m: &Vec<(String, u128)>| V::Tuple(m.iter().map(|(k, x)| (k.clone(), V::UInt(*x))).collect());
    for _ in 0..n {
        check(bytes_eq(&must(t.encode(), "encode"), &reference(&whole(&m))), "encoding-between");
        let k = any_ascii(1);
        match choose(4) {
            0 => {
                let x = any_u128();
                t.insert(k.clone(), UInt::new(x));
                match pos(&m, &k) {
                    Some(i) => m[i].1 = x,
                    None => m.push((k, x)),
                }
            }
            1 => {
                let r = t.remove(&k);
                match pos(&m, &k) {
                    Some(i) => {
                        let (_, x) = m.remove(i);
                        check(matches(must_some(r, "remove-present").as_ref(), &V::UInt(x)), "removed-value");
                        reach("removed");
                    }
                    None => check(r.is_none(), "remove-absent"),
                }
            }
            2 => {
                let r = t.get(&k);
                match pos(&m, &k) {
                    Some(i) => {
                        check(matches(must_some(r, "get-present").as_ref(), &V::UInt(m[i].1)), "got-value");
                        reach("got");
                    }
                    None => check(r.is_none(), "get-absent"),
                }
            }
            _ => {
                let x = any_u128();
                let r = t.get_mut(&k);
                match pos(&m, &k) {
                    Some(i) => {
                        *must_some(r, "get-mut-present") = Box::new(UInt::new(x));
                        m[i].1 = x;
                        reach("set");
                    }
                    None => check(r.is_none(), "get-mut-absent"),
                }
            }
        }
    }
    // the whole content, in order of first insertion
    check(t.keys().count() == m.len() && t.values().count() == m.len(), "count");
    for (a, b) in t.keys().zip(&m) {
        check(same_str(a, &b.0), "keys");
    }
    for (a, b) in t.values().zip(&m) {
        check(matches(a.as_ref(), &V::UInt(b.1)), "values");
    }
    check(bytes_eq(&must(t.encode(), "encode"), &reference(&whole(&m))), "encoding");
    for (k, x) in &m {
        check(matches(must_some(t.get(k), "get-stored").as_ref(), &V::UInt(*x)), "stored-value");
    }
    reach("end");
}
/// Names of every content, the empty one included.
#[no_mangle]
pub extern "C" fn h_c07_keys() {
    let name = || match choose(4) {
        0 => String::new(),
        1 => any_ascii(1),
        2 => any_ascii(2),
        _ => any_wide(1, 2 + choose(3)),
    };
    let (a, x) = (name(), any_u128());
    let mut m = vec![(a.clone(), x)];
    let mut t = Tuple::new(vec![]);
    t.insert(a, UInt::new(x));
    let b = name();
    let found = same_str(&b, &m[0].0);
    let y = any_u128();
    match choose(3) {
        0 => {
            t.insert(b.clone(), UInt::new(y));
            if found {
                m[0].1 = y;
            } else {
                m.push((b.clone(), y));
            }
        }
        1 => {
            let r = t.remove(&b);
            check(r.is_some() == found, "removed");
            if found {
                m.remove(0);
            }
        }
        _ => match t.get_mut(&b) {
            Some(v) => {
                check(found, "get-mut-absent");
                *v = Box::new(UInt::new(y));
                m[0].1 = y;
            }
            None => check(!found, "get-mut-present"),
        },
    }
    check(t.keys().count() == m.len() && t.values().count() == m.len(), "count");
    for ((a, v), w) in t.keys().zip(t.values()).zip(&m) {
        check(same_str(a, &w.0), "keys");
        check(matches(v.as_ref(), &V::UInt(w.1)), "values");
    }
    match m.iter().find(|e| same_str(&e.0, &b)) {
        Some(e) => check(matches(must_some(t.get(&b), "get-present").as_ref(), &V::UInt(e.1)), "got-value"),
        None => check(t.get(&b).is_none(), "get-absent"),
    }
    reach("end");
}
/// Tuples of many entries, given or decoded: one operation, then all of it.
#[no_mangle]
pub extern "C" fn h_c07_large() {
    let n = [5usize, 8, 9, 16, 17, 32, 33, 64, 65, 128, 256, 257, 300][choose(bound(9, 13))];
    let long = choose(2) == 1;
    // short names, or names of every length to the limit
    let name = |i: usize| {
        let mut k = format!("k{}", (i * 7 + 3) % 1000);
        if long {
            k.extend(std::iter::repeat('x').take(i * 37 % 124));
        }
        k
    };
    let mut m: Vec<(String, V)> = (0..n).map(|i| (name(i), V::UInt(i as u128))).collect();
    let x = any_u128();
    let at = [0, 1, n / 2, n - 2, n - 1][choose(5)];
    m[at].1 = V::UInt(x);
    let mut t = Tuple::new(m.iter().map(|(k, v)| (k.clone(), build(v))).collect());
    if choose(2) == 1 {
        t = must(Tuple::decode(&must(t.encode(), "encode")), "decode");
    }
    let pick = choose(4);
    let i = match pick {
        0 => at,
        1 => 0,
        2 => n - 1,
        _ => n,
    };
    let k = if i < n { name(i) } else { String::from("other") };
    match choose(4) {
        0 => {
            let y = any_u128();
            t.insert(k.clone(), UInt::new(y));
            if i < n {
                m[i].1 = V::UInt(y);
            } else {
                m.push((k, V::UInt(y)));
            }
        }
        1 => {
            let r = t.remove(&k);
            if i < n {
                let (_, v) = m.remove(i);
                check(matches(must_some(r, "remove-present").as_ref(), &v), "removed-value");
            } else {
                check(r.is_none(), "remove-absent");
            }
        }
        2 => {
            let r = t.get(&k);
            if i < n {
                check(matches(must_some(r, "get-present").as_ref(), &m[i].1), "got-value");
            } else {
                check(r.is_none(), "get-absent");
            }
        }
        _ => {
            let y = any_u128();
            let r = t.get_mut(&k);
            if i < n {
                *must_some(r, "get-mut-present") = Box::new(UInt::new(y));
                m[i].1 = V::UInt(y);
            } else {
                check(r.is_none(), "get-mut-absent");
            }
        }
    }
    check(t.keys().count() == m.len() && t.values().count() == m.len(), "count");
    for (a, b) in t.keys().zip(&m) {
        check(same_str(a, &b.0), "keys");
    }
    for (a, b) in t.values().zip(&m) {
        check(matches(a.as_ref(), &b.1), "values");
    }
    for (k, v) in &m {
        check(matches(must_some(t.get(k), "get-stored").as_ref(), v), "stored-value");
    }
    check(bytes_eq(&must(t.encode(), "encode"), &reference(&V::Tuple(m.clone()))), "encoding");
    let c = t.clone();
    check(c.keys().count() == m.len(), "clone-count");
    for ((a, x), (b, y)) in c.keys().zip(c.values()).zip(&m) {
        check(same_str(a, b) & matches(x.as_ref(), y), "clone");
    }
    reach("end");
}
/// Tuples built in one go, longer keys.
#[no_mangle]
pub extern "C" fn h_c07_lookup() {
    let n = choose(bound(3, 4));
    let m: Vec<(String, u128)> = (0..n).map(|_| (any_ascii(choose(3)), any_u128())).collect();
    let t = Tuple::new(m.iter().map(|(k, x)| (k.clone(), Box::new(UInt::new(*x)) as Box<dyn Clarity>)).collect());
    let k = any_ascii(choose(3));
    let r = t.get(&k);
    match m.iter().find(|(x, _)| same_str(x, &k)) {
        Some((_, x)) => {
            check(matches(must_some(r, "get-present").as_ref(), &V::UInt(*x)), "got-value");
            reach("got");
        }
        None => {
            check(r.is_none(), "get-absent");
            reach("absent");
        }
    }
}

// ---- C08: casts and extraction -------------------------------------------

fn cast_to<T: Clarity>(v: &V, want: bool) {
    let c = build(v);
    match c.cast_as::<T>() {
        Ok(x) => {
            check(want, "cast-as-other-type");
            check(matches(x, v), "cast-as-same");
        }
        Err(_) => check(!want, "cast-as-own-type"),
    }
    match c.cast::<T>() {
        Ok(x) => {
            check(want, "cast-other-type");
            check(matches(&x, v), "cast-same");
        }
        Err(_) => check(!want, "cast-own-type"),
    }
    // through the three wrappers
    macro_rules! inner {
        ($w:ident) => {{
            let c = $w::new(build(v));
            match c.cast_as::<T>() {
                Ok(x) => {
                    check(want, "inner-cast-as-other-type");
                    check(matches(x, v), "inner-cast-as-same");
                }
                Err(_) => check(!want, "inner-cast-as-own-type"),
            }
            match c.cast::<T>() {
                Ok(x) => {
                    check(want, "inner-cast-other-type");
                    check(matches(&x, v), "inner-cast-same");
                }
                Err(_) => check(!want, "inner-cast-own-type"),
            }
        }};
    }
    inner!(ResponseOk);
    inner!(ResponseErr);
    inner!(OptionalSome);
}
#[no_mangle]
pub extern "C" fn h_c08_cast() {
    let s = Shape { depth: 1, list: 1, tuple: 1, bytes: 1, principals: true, few: false };
    let v = if choose(2) == 0 { any_leaf(s) } else { any_container(Shape { few: true, ..s }) };
    let t = choose(17) as u8;
    let want = t == tag(&v);
    match t {
        0 => cast_to::<Int>(&v, want),
        1 => cast_to::<UInt>(&v, want),
        2 => cast_to::<Buffer>(&v, want),
        3 => cast_to::<True>(&v, want),
        4 => cast_to::<False>(&v, want),
        5 => cast_to::<PrincipalStandard>(&v, want),
        6 => cast_to::<PrincipalContract>(&v, want),
        7 => cast_to::<ResponseOk>(&v, want),
        8 => cast_to::<ResponseErr>(&v, want),
        9 => cast_to::<OptionalNone>(&v, want),
        10 => cast_to::<OptionalSome>(&v, want),
        11 => cast_to::<List>(&v, want),
        12 => cast_to::<Tuple>(&v, want),
        13 => cast_to::<StringAscii>(&v, want),
        14 => cast_to::<StringUtf8>(&v, want),
        15 => cast_to::<LengthPrefixedStr>(&v, false),
        _ => cast_to::<FnArguments>(&v, false),
    }
    reach("end");
}
/// What goes in through any constructor comes out through any accessor.
#[no_mangle]
pub extern "C" fn h_c08_values() {
    match choose(9) {
        0 => {
            let x = any_i128();
            check(i128::from(Int::from(x)) == x && Int::new(x).into_value() == x && *Int::new(x).value() == x, "int");
        }
        1 => {
            let x = any_u128();
            check(u128::from(UInt::from(x)) == x && UInt::new(x).into_value() == x && *UInt::new(x).value() == x, "uint");
        }
        2 => {
            let b = any_vec(choose(bound(4, 6)));
            check(bytes_eq(&Vec::from(Buffer::from(b.clone())), &b), "buffer-vec");
            check(bytes_eq(&Buffer::from(&b[..]).into_value(), &b), "buffer-slice");
            check(bytes_eq(&Buffer::new(b.clone()).into_iter().collect::<Vec<u8>>(), &b), "buffer-iter");
        }
        3 => {
            let s = any_utf8(choose(bound(4, 5)));
            check(same_str(&String::from(PrincipalStandard::from(s.clone())), &s), "principal-string");
            check(same_str(PrincipalStandard::from(s.as_str()).value(), &s), "principal-str");
            check(same_str(LengthPrefixedStr::from(s.as_str()).value(), &s), "name-str");
            check(same_str(&LengthPrefixedStr::from(s.clone()).into_value(), &s), "name-string");
            check(same_str(&StringAscii::new(s.clone()).into_value(), &s), "ascii");
            check(same_str(&StringUtf8::new(s.clone()).into_value(), &s), "utf8");
        }
        4 => {
            let (a, n) = (any_ascii(choose(3)), any_ascii(choose(3)));
            let x = PrincipalContract::from((a.clone(), n.clone())).into_value();
            check(same_str(&x.0, &a) & same_str(&x.1, &n), "contract-string");
            let x = PrincipalContract::from((a.as_str(), n.as_str()));
            check(same_str(&x.value().0, &a) & same_str(&x.value().1, &n), "contract-str");
        }
        5 => {
            let l = any_args();
            let x: Vec<_> = List::new(l.iter().map(build).collect()).into_iter().collect();
            let y: Vec<_> = FnArguments::new(l.iter().map(build).collect()).into_iter().collect();
            check(x.len() == l.len() && y.len() == l.len(), "iter-count");
            for i in 0..l.len() {
                check(matches(x[i].as_ref(), &l[i]), "list-iter");
                check(matches(y[i].as_ref(), &l[i]), "args-iter");
            }
        }
        6 => {
            let l: Vec<_> = any_args().into_iter().map(|v| (any_ascii(1), v)).collect();
            let x: Vec<_> = Tuple::new(l.iter().map(|(k, v)| (k.clone(), build(v))).collect()).into_iter().collect();
            check(x.len() == l.len(), "tuple-iter-count");
            for i in 0..l.len() {
                check(same_str(&x[i].0, &l[i].0) & matches(x[i].1.as_ref(), &l[i].1), "tuple-iter");
            }
        }
        7 => {
            check(*True::new().value() && True::default().into_value(), "true");
            check(!*False::new().value() && !False::default().into_value(), "false");
            check(OptionalNone::new().value().is_none() && OptionalNone::default().into_value().is_none(), "none");
        }
        _ => {
            let s = Shape { depth: 1, list: 1, tuple: 1, bytes: 1, principals: false, few: false };
            let v = any_value(s);
            check(matches(ResponseOk::new(build(&v)).into_value().as_ref(), &v), "ok-inner");
            check(matches(ResponseErr::new(build(&v)).into_value().as_ref(), &v), "err-inner");
            check(matches(OptionalSome::new(build(&v)).into_value().as_ref(), &v), "some-inner");
            check(matches(build(&v).clone().as_ref(), &v), "clone");
        }
    }
    reach("end");
}

/// Many elements, long texts.
#[no_mangle]
pub extern "C" fn h_c08_large() {
    const N: [usize; 14] = [3, 7, 8, 9, 16, 17, 64, 100, 128, 255, 256, 257, 300, 1000];
    let n = N[choose(14)];
    let v = |i: usize| V::UInt(i as u128 * 3);
    let x = any_u128();
    let at = [0, n / 2, n - 1][choose(3)];
    let mut l: Vec<V> = (0..n).map(v).collect();
    l[at] = V::UInt(x);
    match choose(6) {
        0 => {
            let c: Box<dyn Clarity> = Box::new(List::new(l.iter().map(build).collect()));
            let y = must(c.clone().cast::<List>(), "cast");
            check(matches(&y, &V::List(l.clone())), "list-clone");
            check(y.value().len() == n, "list-value-count");
            let y: Vec<_> = y.into_iter().collect();
            check(y.len() == n, "list-iter-count");
            for i in 0..n {
                check(matches(y[i].as_ref(), &l[i]), "list-iter");
            }
            check(must(c.cast_as::<List>(), "cast-as").clone().into_value().len() == n, "list-into-value");
        }
        1 => {
            let c = FnArguments::new(l.iter().map(build).collect());
            let z = c.clone().into_value();
            let y: Vec<_> = c.clone().into_iter().collect();
            check(c.value().len() == n && z.len() == n && y.len() == n, "args-count");
            for i in 0..n {
                check(matches(y[i].as_ref(), &l[i]) & matches(z[i].as_ref(), &l[i]), "args");
            }
        }
        2 => {
            let k = |i: usize| format!("k{i}{}", "x".repeat(i * 37 % 120));
            let c = Tuple::new(l.iter().enumerate().map(|(i, v)| (k(i), build(v))).collect());
            let z = c.clone().into_value();
            let y: Vec<_> = c.clone().into_iter().collect();
            check(c.value().len() == n && z.len() == n && y.len() == n, "tuple-count");
            for i in 0..n {
                check(same_str(&y[i].0, &k(i)) & matches(y[i].1.as_ref(), &l[i]), "tuple-iter");
                check(same_str(&z[i].0, &k(i)) & matches(z[i].1.as_ref(), &l[i]), "tuple");
            }
        }
        3 => {
            let b = any_vec(n);
            let c: Box<dyn Clarity> = Box::new(Buffer::new(b.clone()));
            let y = must(c.clone().cast::<Buffer>(), "cast");
            check(bytes_eq(y.value(), &b), "buffer-clone");
            check(bytes_eq(&y.clone().into_iter().collect::<Vec<u8>>(), &b), "buffer-iter");
            check(bytes_eq(&Vec::from(y), &b), "buffer-vec");
            check(bytes_eq(&Buffer::from(&b[..]).into_value(), &b), "buffer-slice");
        }
        4 => {
            let s = any_ascii(n);
            check(same_str(StringAscii::new(s.clone()).clone().value(), &s), "ascii");
            check(same_str(StringUtf8::new(s.clone()).clone().value(), &s), "utf8");
            check(same_str(&String::from(PrincipalStandard::from(s.as_str()).clone()), &s), "principal");
            let c = PrincipalContract::from((s.as_str(), s.as_str())).clone();
            check(same_str(&c.value().0, &s) & same_str(&c.value().1, &s), "contract");
            check(same_str(&LengthPrefixedStr::from(s.clone()).clone().into_value(), &s), "name");
        }
        _ => {
            let s = any_wide(n, 2 + n % 3);
            check(same_str(StringUtf8::new(s.clone()).clone().value(), &s), "wide");
            let c: Box<dyn Clarity> = Box::new(StringUtf8::new(s.clone()));
            check(same_str(&must(c.cast::<StringUtf8>(), "cast").into_value(), &s), "wide-cast");
        }
    }
    reach("end");
}

// ---- C09: rendering -------------------------------------------------------

fn render(v: &V) {
    let mut r = String::new();
    ref_render(v, &mut r);
    let s = build(v).to_string();
    check(same_str(&s, &r), "rendering");
    observe(s.as_bytes());
    reach("end");
}
fn any_number() -> V {
    const B: [u128; 10] = [
        0,
        9,
        10,
        99_999,
        u64::MAX as u128,
        1 << 64,
        10_000_000_000_000_000_000,
        i128::MAX as u128,
        1 << 127,
        u128::MAX,
    ];
    match choose(3) {
        0 => V::UInt(u128::from(any_u8())),
        1 => V::Int(i128::from(any_u8() as i8)),
        _ => {
            let x = B[choose(10)];
            if choose(2) == 0 {
                V::UInt(x)
            } else {
                V::Int(x as i128)
            }
        }
    }
}
pub fn any_shown(depth: usize) -> V {
    match choose(if depth == 0 { 9 } else { 14 }) {
        0 => V::UInt(7),
        1 => V::Int(-12),
        2 => V::Buf(any_vec(choose(3))),
        3 => V::True,
        4 => V::False,
        5 => V::None,
        6 => V::Ascii(any_ascii(choose(3))),
        7 => V::Utf8(any_ascii(choose(3))),
        8 => V::Con(Addr { version: 22, hash: [0; 20], text: any_ascii(2) }, any_ascii(1)),
        9 => V::Ok(Box::new(any_shown(depth - 1))),
        10 => V::Err(Box::new(any_shown(depth - 1))),
        11 => V::Some(Box::new(any_shown(depth - 1))),
        12 => {
            let n = choose(3);
            V::List((0..n).map(|_| any_shown(depth - 1)).collect())
        }
        _ => {
            let n = choose(3);
            V::Tuple((0..n).map(|_| (any_ascii(1), any_shown(depth - 1))).collect())
        }
    }
}
/// The macro builds what it says.
#[no_mangle]
pub extern "C" fn h_c08_macro() {
    use stacks_rs::clarity;
    let a = addr_with(22, false);
    let t = any_ascii(choose(3));
    let b = any_vec(choose(3));
    let (i, u) = (any_i128(), any_u128());
    let (c, v): (Box<dyn Clarity>, V) = match choose(20) {
        0 => (Box::new(clarity!(Int, i)), V::Int(i)),
        1 => (Box::new(clarity!(UInt, u)), V::UInt(u)),
        2 => (Box::new(clarity!(Buffer, b)), V::Buf(b)),
        3 => (Box::new(clarity!(Buffer, &b[..])), V::Buf(b)),
        4 => (Box::new(clarity!(True)), V::True),
        5 => (Box::new(clarity!(False)), V::False),
        6 => (Box::new(clarity!(PrincipalStandard, a.text)), V::Std(a)),
        7 => (Box::new(clarity!(PrincipalContract, a.text, t)), V::Con(a, t)),
        8 => (Box::new(clarity!(ResponseOk, clarity!(Int, i))), V::Ok(Box::new(V::Int(i)))),
        9 => (Box::new(clarity!(ResponseErr, clarity!(UInt, u))), V::Err(Box::new(V::UInt(u)))),
        10 => (Box::new(clarity!(OptionalSome, clarity!(Buffer, b))), V::Some(Box::new(V::Buf(b)))),
        11 => (Box::new(clarity!(OptionalNone)), V::None),
        12 => (Box::new(clarity!(List)), V::List(vec![])),
        13 => (Box::new(clarity!(Tuple)), V::Tuple(vec![])),
        14 => (Box::new(clarity!(StringAscii, t)), V::Ascii(t)),
        15 => (Box::new(clarity!(StringUtf8, t)), V::Utf8(t)),
        16 => (Box::new(clarity!(List, clarity!(Int, i), clarity!(UInt, u), clarity!(True))), V::List(vec![V::Int(i), V::UInt(u), V::True])),
        17 => (
            Box::new(clarity!(Tuple, ("b", clarity!(Int, i)), (t, clarity!(UInt, u)), ("a", clarity!(True)))),
            V::Tuple(vec![("b".to_string(), V::Int(i)), (t, V::UInt(u)), ("a".to_string(), V::True)]),
        ),
        18 => {
            let x = clarity!(FnArguments, clarity!(Int, i), clarity!(UInt, u), clarity!(False)).into_value();
            check(x.len() == 3, "macro-arguments");
            (Box::new(List::new(x)), V::List(vec![V::Int(i), V::UInt(u), V::False]))
        }
        _ => {
            check(clarity!(FnArguments).value().is_empty(), "macro-no-arguments");
            (Box::new(StringAscii::new(clarity!(LengthPrefixedStr, t).into_value())), V::Ascii(t))
        }
    };
    check(matches(c.as_ref(), &v), "macro");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c09_number() {
    render(&any_number());
}
/// Long values.
#[no_mangle]
pub extern "C" fn h_c09_long() {
    let n = any_size(300);
    match choose(5) {
        0 => {
            let x = any_vec(1);
            let mut l: Vec<V> = (0..n).map(|_| V::True).collect();
            l.push(V::Buf(x));
            render(&V::List(l));
        }
        1 => {
            let x = any_vec(1);
            let mut l: Vec<(String, V)> = (0..n).map(|i| (format!("k{i}"), V::None)).collect();
            l.push((any_ascii(1), V::Buf(x)));
            render(&V::Tuple(l));
        }
        2 => render(&V::Buf(any_vec(n))),
        3 => render(&V::Ascii(any_ascii(n))),
        _ => render(&V::Utf8(any_wide(n, 1 + n % 4))),
    }
}
/// One after another.
#[no_mangle]
pub extern "C" fn h_c09_twice() {
    fn one() -> V {
        match choose(8) {
            0 => V::Ascii(any_ascii(choose(3))),
            1 => V::Utf8(any_ascii(choose(2))),
            2 => V::Buf(any_vec(choose(3))),
            3 => V::List((0..choose(3)).map(|_| V::True).collect()),
            4 => V::Tuple((0..choose(3)).map(|_| (any_ascii(1), V::None)).collect()),
            5 => V::Some(Box::new(V::Buf(any_vec(1)))),
            6 => V::Ok(Box::new(V::Ascii(any_ascii(1)))),
            _ => V::Int(-5),
        }
    }
    let (a, b) = (one(), one());
    render(&a);
    render(&b);
    render(&a);
}
#[no_mangle]
pub extern "C" fn h_c09_value() {
    render(&any_shown(bound(1, 2)));
}
#[no_mangle]
pub extern "C" fn h_c09_text() {
    match choose(6) {
        0 => render(&V::Ascii(any_utf8(choose(bound(4, 5))))),
        1 => render(&V::Utf8(any_utf8(choose(bound(4, 5))))),
        2 => render(&V::Std(Addr { version: 22, hash: [0; 20], text: any_ascii(choose(5)) })),
        3 => render(&V::Con(Addr { version: 22, hash: [0; 20], text: any_ascii(choose(3)) }, any_utf8(choose(3)))),
        4 => render(&V::Tuple((0..1 + choose(2)).map(|i| (any_utf8(choose(3)), V::UInt(i as u128))).collect())),
        _ => render(&V::Buf(any_vec(choose(bound(6, 40))))),
    }
}
