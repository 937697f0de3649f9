//! An independent description of Clarity values, written from SIP-005 and not
//! from the repository: generator, reference encoder, reference renderer, and
//! comparison with the repository's value types.
use stacks_rs::clarity::*;
use vrt::*;

#[derive(Clone)]
pub enum V {
    Int(i128),
    UInt(u128),
    Buf(Vec<u8>),
    True,
    False,
    Std(Addr),
    Con(Addr, String),
    Ok(Box<V>),
    Err(Box<V>),
    None,
    Some(Box<V>),
    List(Vec<V>),
    Tuple(Vec<(String, V)>),
    Ascii(String),
    Utf8(String),
}

#[derive(Clone)]
pub struct Addr {
    pub version: u8,
    pub hash: [u8; 20],
    pub text: String,
}

pub fn sha256(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    uf(alg::SHA256, b, &mut o);
    o
}
pub fn sha512_256(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    uf(alg::SHA512_256, b, &mut o);
    o
}
pub fn ripemd160(b: &[u8]) -> [u8; 20] {
    let mut o = [0u8; 20];
    uf(alg::RIPEMD160, b, &mut o);
    o
}
pub fn hash160(b: &[u8]) -> [u8; 20] {
    ripemd160(&sha256(b))
}

pub const C32: &[u8; 32] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
pub const VERSIONS: [u8; 4] = [22, 26, 20, 21];

/// The `k`-th base-32 digit (from the least significant) of a big-endian number.
fn digit(data: &[u8], k: usize) -> u8 {
    let n = data.len() * 8;
    let mut d = 0u8;
    for j in 0..5 {
        let bit = 5 * k + j;
        if bit < n {
            let byte = data[data.len() - 1 - bit / 8];
            d |= ((byte >> (bit % 8)) & 1) << j;
        }
    }
    d
}
/// Reference c32: the number in base 32 without leading zeros, preceded by one
/// `0` per leading zero byte.
pub fn ref_c32(data: &[u8]) -> Vec<u8> {
    let nd = (data.len() * 8 + 4) / 5;
    let mut out = vec![];
    for b in data {
        if *b != 0 {
            break;
        }
        out.push(b'0');
    }
    let mut k = nd;
    while k > 0 && digit(data, k - 1) == 0 {
        k -= 1;
    }
    while k > 0 {
        k -= 1;
        out.push(C32[usize::from(digit(data, k))]);
    }
    out
}
pub fn ref_checksum(version: u8, hash: &[u8]) -> [u8; 4] {
    let mut m = vec![version];
    m.extend_from_slice(hash);
    let h = sha256(&sha256(&m));
    [h[0], h[1], h[2], h[3]]
}
pub fn ref_address(version: u8, hash: &[u8]) -> String {
    let mut data = hash.to_vec();
    data.extend_from_slice(&ref_checksum(version, hash));
    let mut s = vec![b'S', C32[usize::from(version)]];
    s.extend_from_slice(&ref_c32(&data));
    unsafe { String::from_utf8_unchecked(s) }
}
/// An arbitrary address.  `full`: every hash; otherwise every hash whose first
/// byte is at least 64 (no case split on leading zeros).
pub fn any_addr(full: bool) -> Addr {
    let version = VERSIONS[choose(4)];
    addr_with(version, full)
}
pub fn addr_with(version: u8, full: bool) -> Addr {
    let mut hash: [u8; 20] = any_array();
    if !full {
        hash[0] |= 0x40;
    }
    let text = ref_address(version, &hash);
    Addr { version, hash, text }
}

/// Sizes and kinds explored by [`any_value`].
#[derive(Clone, Copy)]
pub struct Shape {
    /// maximum nesting of containers
    pub depth: usize,
    /// maximum number of list elements
    pub list: usize,
    /// maximum number of tuple entries
    pub tuple: usize,
    /// maximum buffer / string length
    pub bytes: usize,
    /// principals among the leaves
    pub principals: bool,
    /// only `Int`, `Buf`, `None` among the leaves
    pub few: bool,
}

pub fn any_leaf(s: Shape) -> V {
    if s.few {
        return match choose(3) {
            0 => V::UInt(any_u128()),
            1 => V::Buf(any_vec(choose(s.bytes + 1))),
            _ => V::None,
        };
    }
    match choose(if s.principals { 10 } else { 8 }) {
        0 => V::Int(any_i128()),
        1 => V::UInt(any_u128()),
        2 => V::Buf(any_vec(choose(s.bytes + 1))),
        3 => V::True,
        4 => V::False,
        5 => V::None,
        6 => V::Ascii(any_ascii(choose(s.bytes + 1))),
        7 => V::Utf8(any_utf8(choose(s.bytes + 1))),
        8 => V::Std(addr_with(22, false)),
        _ => V::Con(addr_with(26, false), any_ascii(choose(s.bytes + 1))),
    }
}
pub fn any_container(s: Shape) -> V {
    let t = Shape { depth: s.depth - 1, ..s };
    match choose(5) {
        0 => V::Ok(Box::new(any_value(t))),
        1 => V::Err(Box::new(any_value(t))),
        2 => V::Some(Box::new(any_value(t))),
        3 => {
            let n = choose(s.list + 1);
            V::List((0..n).map(|_| any_value(t)).collect())
        }
        _ => {
            let n = choose(s.tuple + 1);
            V::Tuple((0..n).map(|i| (any_ascii(1 + (i & 1)), any_value(t))).collect())
        }
    }
}
pub fn any_value(s: Shape) -> V {
    if s.depth > 0 && choose(2) == 0 {
        any_container(s)
    } else {
        any_leaf(s)
    }
}

fn be32(n: usize) -> [u8; 4] {
    [(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]
}
pub fn ref_name(s: &str, o: &mut Vec<u8>) {
    o.push(s.len() as u8);
    o.extend_from_slice(s.as_bytes());
}
fn ref_addr(a: &Addr, o: &mut Vec<u8>) {
    o.push(a.version);
    o.extend_from_slice(&a.hash);
}
fn be128(x: u128, o: &mut Vec<u8>) {
    let mut i = 16;
    while i > 0 {
        i -= 1;
        o.push((x >> (8 * i)) as u8);
    }
}
/// SIP-005 serialisation.
pub fn ref_encode(v: &V, o: &mut Vec<u8>) {
    match v {
        V::Int(x) => {
            o.push(0x00);
            be128(*x as u128, o);
        }
        V::UInt(x) => {
            o.push(0x01);
            be128(*x, o);
        }
        V::Buf(b) => {
            o.push(0x02);
            o.extend_from_slice(&be32(b.len()));
            o.extend_from_slice(b);
        }
        V::True => o.push(0x03),
        V::False => o.push(0x04),
        V::Std(a) => {
            o.push(0x05);
            ref_addr(a, o);
        }
        V::Con(a, n) => {
            o.push(0x06);
            ref_addr(a, o);
            ref_name(n, o);
        }
        V::Ok(x) => {
            o.push(0x07);
            ref_encode(x, o);
        }
        V::Err(x) => {
            o.push(0x08);
            ref_encode(x, o);
        }
        V::None => o.push(0x09),
        V::Some(x) => {
            o.push(0x0a);
            ref_encode(x, o);
        }
        V::List(l) => {
            o.push(0x0b);
            o.extend_from_slice(&be32(l.len()));
            for x in l {
                ref_encode(x, o);
            }
        }
        V::Tuple(l) => {
            o.push(0x0c);
            o.extend_from_slice(&be32(l.len()));
            for (k, x) in l {
                ref_name(k, o);
                ref_encode(x, o);
            }
        }
        V::Ascii(s) => {
            o.push(0x0d);
            o.extend_from_slice(&be32(s.len()));
            o.extend_from_slice(s.as_bytes());
        }
        V::Utf8(s) => {
            o.push(0x0e);
            o.extend_from_slice(&be32(s.len()));
            o.extend_from_slice(s.as_bytes());
        }
    }
}
pub fn reference(v: &V) -> Vec<u8> {
    let mut o = vec![];
    ref_encode(v, &mut o);
    o
}

/// The repository's value for `v`.
pub fn build(v: &V) -> Box<dyn Clarity> {
    match v {
        V::Int(x) => Box::new(Int::new(*x)),
        V::UInt(x) => Box::new(UInt::new(*x)),
        V::Buf(b) => Box::new(Buffer::new(b.clone())),
        V::True => Box::new(True::new()),
        V::False => Box::new(False::new()),
        V::Std(a) => Box::new(PrincipalStandard::new(a.text.clone())),
        V::Con(a, n) => Box::new(PrincipalContract::new((a.text.clone(), n.clone()))),
        V::Ok(x) => Box::new(ResponseOk::new(build(x))),
        V::Err(x) => Box::new(ResponseErr::new(build(x))),
        V::None => Box::new(OptionalNone::new()),
        V::Some(x) => Box::new(OptionalSome::new(build(x))),
        V::List(l) => Box::new(List::new(l.iter().map(build).collect())),
        V::Tuple(l) => Box::new(Tuple::new(l.iter().map(|(k, x)| (k.clone(), build(x))).collect())),
        V::Ascii(s) => Box::new(StringAscii::new(s.clone())),
        V::Utf8(s) => Box::new(StringUtf8::new(s.clone())),
    }
}
pub fn same_str(a: &str, b: &str) -> bool {
    bytes_eq(a.as_bytes(), b.as_bytes())
}
/// Does the repository's value `c` have exactly the type and content of `v`?
pub fn matches(c: &dyn Clarity, v: &V) -> bool {
    let a = c.as_any();
    match v {
        V::Int(x) => a.downcast_ref::<Int>().map_or(false, |y| *y.value() == *x),
        V::UInt(x) => a.downcast_ref::<UInt>().map_or(false, |y| *y.value() == *x),
        V::Buf(b) => a.downcast_ref::<Buffer>().map_or(false, |y| bytes_eq(y.value(), b)),
        V::True => a.is::<True>(),
        V::False => a.is::<False>(),
        V::Std(x) => a.downcast_ref::<PrincipalStandard>().map_or(false, |y| same_str(y.value(), &x.text)),
        V::Con(x, n) => a
            .downcast_ref::<PrincipalContract>()
            .map_or(false, |y| same_str(&y.value().0, &x.text) & same_str(&y.value().1, n)),
        V::Ok(x) => a.downcast_ref::<ResponseOk>().map_or(false, |y| matches(y.value().as_ref(), x)),
        V::Err(x) => a.downcast_ref::<ResponseErr>().map_or(false, |y| matches(y.value().as_ref(), x)),
        V::None => a.is::<OptionalNone>(),
        V::Some(x) => a.downcast_ref::<OptionalSome>().map_or(false, |y| matches(y.value().as_ref(), x)),
        V::List(l) => a.downcast_ref::<List>().map_or(false, |y| {
            y.value().len() == l.len() && y.value().iter().zip(l).fold(true, |r, (p, q)| r & matches(p.as_ref(), q))
        }),
        V::Tuple(l) => a.downcast_ref::<Tuple>().map_or(false, |y| {
            y.value().len() == l.len()
                && y.value().iter().zip(l).fold(true, |r, (p, q)| r & same_str(&p.0, &q.0) & matches(p.1.as_ref(), &q.1))
        }),
        V::Ascii(s) => a.downcast_ref::<StringAscii>().map_or(false, |y| same_str(y.value(), s)),
        V::Utf8(s) => a.downcast_ref::<StringUtf8>().map_or(false, |y| same_str(y.value(), s)),
    }
}
/// `T::decode` of the type of `v`, boxed.
pub fn decode_typed(v: &V, b: &[u8]) -> Result<Box<dyn Clarity>, Error> {
    fn d<T: Clarity>(b: &[u8]) -> Result<Box<dyn Clarity>, Error> {
        T::decode(b).map(|x| Box::new(x) as Box<dyn Clarity>)
    }
    match v {
        V::Int(_) => d::<Int>(b),
        V::UInt(_) => d::<UInt>(b),
        V::Buf(_) => d::<Buffer>(b),
        V::True => d::<True>(b),
        V::False => d::<False>(b),
        V::Std(_) => d::<PrincipalStandard>(b),
        V::Con(..) => d::<PrincipalContract>(b),
        V::Ok(_) => d::<ResponseOk>(b),
        V::Err(_) => d::<ResponseErr>(b),
        V::None => d::<OptionalNone>(b),
        V::Some(_) => d::<OptionalSome>(b),
        V::List(_) => d::<List>(b),
        V::Tuple(_) => d::<Tuple>(b),
        V::Ascii(_) => d::<StringAscii>(b),
        V::Utf8(_) => d::<StringUtf8>(b),
    }
}

/// Unwrap, or a named violation.
pub fn must<T, E>(r: Result<T, E>, id: &'static str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, id);
            std::process::abort()
        }
    }
}
pub fn must_some<T>(r: Option<T>, id: &'static str) -> T {
    must(r.ok_or(()), id)
}

/// SIP-005 parser: the value at the start of `b` and how many bytes it takes.
/// Lengths are case-split; principals carry the text the reference gives them.
pub fn ref_decode(b: &[u8]) -> Option<(V, usize)> {
    fn get(b: &[u8], at: usize, n: usize) -> Option<&[u8]> {
        if at <= b.len() && n <= b.len() - at {
            Some(&b[at..at + n])
        } else {
            None
        }
    }
    fn len32(b: &[u8], at: usize) -> Option<usize> {
        let x = get(b, at, 4)?;
        Some(((x[0] as usize) << 24) | ((x[1] as usize) << 16) | ((x[2] as usize) << 8) | x[3] as usize)
    }
    fn addr(b: &[u8], at: usize) -> Option<Addr> {
        let x = get(b, at, 21)?;
        let version = concretize(usize::from(x[0])) as u8;
        if !VERSIONS.contains(&version) {
            return None;
        }
        let mut hash = [0u8; 20];
        hash.copy_from_slice(&x[1..]);
        Some(Addr { version, hash, text: ref_address(version, &hash) })
    }
    fn name(b: &[u8], at: usize) -> Option<(String, usize)> {
        let n = usize::from(*b.get(at)?);
        if n > 128 {
            return None;
        }
        let x = get(b, at + 1, n)?;
        Some((std::str::from_utf8(x).ok()?.to_string(), 1 + n))
    }
    fn be(x: &[u8]) -> u128 {
        x.iter().fold(0, |a, y| (a << 8) | u128::from(*y))
    }
    match *b.first()? {
        0x00 => Some((V::Int(be(get(b, 1, 16)?) as i128), 17)),
        0x01 => Some((V::UInt(be(get(b, 1, 16)?)), 17)),
        0x02 => {
            let n = len32(b, 1)?;
            Some((V::Buf(get(b, 5, n)?.to_vec()), 5 + n))
        }
        0x03 => Some((V::True, 1)),
        0x04 => Some((V::False, 1)),
        0x05 => Some((V::Std(addr(b, 1)?), 22)),
        0x06 => {
            let (n, l) = name(b, 22)?;
            Some((V::Con(addr(b, 1)?, n), 22 + l))
        }
        0x09 => Some((V::None, 1)),
        t @ (0x07 | 0x08 | 0x0a) => {
            let (v, n) = ref_decode(&b[1..])?;
            let v = Box::new(v);
            let v = match t {
                0x07 => V::Ok(v),
                0x08 => V::Err(v),
                _ => V::Some(v),
            };
            Some((v, n + 1))
        }
        0x0b => {
            let n = len32(b, 1)?;
            let mut at = 5;
            let mut l = vec![];
            for _ in 0..n {
                let (v, k) = ref_decode(&b[at..])?;
                at += k;
                l.push(v);
            }
            Some((V::List(l), at))
        }
        0x0c => {
            let n = len32(b, 1)?;
            let mut at = 5;
            let mut l = vec![];
            for _ in 0..n {
                let (k, m) = name(b, at)?;
                at += m;
                let (v, m) = ref_decode(&b[at..])?;
                at += m;
                l.push((k, v));
            }
            Some((V::Tuple(l), at))
        }
        0x0d => {
            let n = len32(b, 1)?;
            let x = get(b, 5, n)?;
            if x.iter().any(|c| *c >= 0x80) {
                return None;
            }
            Some((V::Ascii(unsafe { String::from_utf8_unchecked(x.to_vec()) }), 5 + n))
        }
        0x0e => {
            let n = len32(b, 1)?;
            let x = get(b, 5, n)?;
            Some((V::Utf8(std::str::from_utf8(x).ok()?.to_string()), 5 + n))
        }
        _ => None,
    }
}

pub fn ref_hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = Vec::with_capacity(2 * b.len());
    for x in b {
        s.push(D[usize::from(*x >> 4)]);
        s.push(D[usize::from(*x & 15)]);
    }
    unsafe { String::from_utf8_unchecked(s) }
}
/// Decimal digits of `x`.
pub fn ref_dec(mut x: u128) -> String {
    let mut s = vec![];
    loop {
        s.push(b'0' + (x % 10) as u8);
        x /= 10;
        if x == 0 {
            break;
        }
    }
    s.reverse();
    unsafe { String::from_utf8_unchecked(s) }
}
/// Clarity literal syntax.
pub fn ref_render(v: &V, o: &mut String) {
    match v {
        V::Int(x) => {
            if *x < 0 {
                o.push('-');
            }
            o.push_str(&ref_dec(x.unsigned_abs()));
        }
        V::UInt(x) => {
            o.push('u');
            o.push_str(&ref_dec(*x));
        }
        V::Buf(b) => {
            o.push_str("0x");
            o.push_str(&ref_hex(b));
        }
        V::True => o.push_str("true"),
        V::False => o.push_str("false"),
        V::Std(a) => o.push_str(&a.text),
        V::Con(a, n) => {
            o.push_str(&a.text);
            o.push('.');
            o.push_str(n);
        }
        V::Ok(x) => {
            o.push_str("(ok ");
            ref_render(x, o);
            o.push(')');
        }
        V::Err(x) => {
            o.push_str("(err ");
            ref_render(x, o);
            o.push(')');
        }
        V::None => o.push_str("none"),
        V::Some(x) => {
            o.push_str("(some ");
            ref_render(x, o);
            o.push(')');
        }
        V::List(l) => {
            o.push_str("(list ");
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                ref_render(x, o);
            }
            o.push(')');
        }
        V::Tuple(l) => {
            o.push_str("(tuple ");
            for (i, (k, x)) in l.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                o.push('(');
                o.push_str(k);
                o.push(' ');
                ref_render(x, o);
                o.push(')');
            }
            o.push(')');
        }
        V::Ascii(s) => {
            o.push('"');
            o.push_str(s);
            o.push('"');
        }
        V::Utf8(s) => {
            o.push_str("u\"");
            o.push_str(s);
            o.push('"');
        }
    }
}
