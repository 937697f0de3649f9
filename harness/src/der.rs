//! C27: `derive(FromTuple)`.
use crate::clar::any_shown;
use crate::gen::*;
use stacks_rs::clarity::*;
use stacks_rs::derive::{Error, FromTuple};
use vrt::*;

#[derive(FromTuple)]
struct FInt {
    #[stacks(key = "the-key")]
    x: i128,
}
#[derive(FromTuple)]
struct FUInt {
    #[stacks(key = "the-key")]
    x: u128,
}
#[derive(FromTuple)]
struct FBool {
    #[stacks(key = "the-key")]
    x: bool,
}
#[derive(FromTuple)]
struct FBuf {
    #[stacks(key = "the-key")]
    x: Vec<u8>,
}
#[derive(FromTuple)]
struct FText {
    #[stacks(key = "the-key")]
    x: String,
}
#[derive(FromTuple)]
struct FTexts {
    #[stacks(key = "the-key")]
    x: Vec<String>,
}
#[derive(FromTuple)]
struct FOkInt {
    #[stacks(key = "the-key", response)]
    x: i128,
}
#[derive(FromTuple)]
struct FOkUInt {
    #[stacks(key = "the-key", response)]
    x: u128,
}
#[derive(FromTuple)]
struct FNested {
    #[stacks(key = "the-key")]
    x: FInt,
}
#[derive(FromTuple)]
struct FOptInt {
    #[stacks(key = "the-key")]
    x: Option<i128>,
}
#[derive(FromTuple)]
struct FOptUInt {
    #[stacks(key = "the-key")]
    x: Option<u128>,
}
#[derive(FromTuple)]
struct FOptText {
    #[stacks(key = "the-key")]
    x: Option<String>,
}

/// Wraps the field's value in a tuple with other entries around it.
fn around(v: Option<&V>) -> Tuple {
    let mut l: Vec<(String, Box<dyn Clarity>)> = vec![];
    let before = choose(2);
    let after = choose(2);
    if before == 1 {
        l.push(("x".to_string(), Box::new(Int::new(any_i128()))));
    }
    if let Some(v) = v {
        l.push(("the-key".to_string(), build(v)));
    }
    if after == 1 {
        l.push(("the-key2".to_string(), Box::new(UInt::new(any_u128()))));
    }
    Tuple::new(l)
}
fn expect<T>(r: Result<T, Error>, want: bool, ok: impl FnOnce(T) -> bool) {
    check(r.is_ok() == want, "converts-iff-types-match");
    match r {
        Ok(x) => {
            check(ok(x), "field-content");
            reach("converted");
        }
        Err(_) => reach("refused"),
    }
}
fn shape() -> Shape {
    Shape { depth: bound(1, 2), list: 1, tuple: 1, bytes: bound(2, 3), principals: false, few: false }
}
fn any_slot() -> V {
    match choose(4) {
        0 => V::Tuple(vec![("the-key".to_string(), any_leaf(shape()))]),
        1 => V::Std(addr_with(22, false)),
        _ => any_value(shape()),
    }
}
/// A field converts exactly when its key is there with a value of its type.
#[no_mangle]
pub extern "C" fn h_c27_plain() {
    let v = any_slot();
    let t = around(Some(&v));
    match choose(7) {
        0 => expect(FInt::try_from(t), matches!(v, V::Int(_)), |f| matches!(v, V::Int(x) if x == f.x)),
        1 => expect(FUInt::try_from(t), matches!(v, V::UInt(_)), |f| matches!(v, V::UInt(x) if x == f.x)),
        2 => expect(FBool::try_from(t), matches!(v, V::True | V::False), |f| f.x == matches!(v, V::True)),
        3 => expect(FBuf::try_from(t), matches!(v, V::Buf(_)), |f| matches!(&v, V::Buf(x) if bytes_eq(x, &f.x))),
        4 => {
            let want = match &v {
                V::Ok(x) => matches!(**x, V::Int(_)),
                _ => false,
            };
            expect(FOkInt::try_from(t), want, |f| matches!(&v, V::Ok(x) if matches!(**x, V::Int(y) if y == f.x)));
        }
        5 => {
            let want = match &v {
                V::Ok(x) => matches!(**x, V::UInt(_)),
                _ => false,
            };
            expect(FOkUInt::try_from(t), want, |f| matches!(&v, V::Ok(x) if matches!(**x, V::UInt(y) if y == f.x)));
        }
        _ => {
            // the nested key has to match too
            let inner = match &v {
                V::Tuple(l) => l.iter().find(|e| same_str(&e.0, "the-key")).map(|e| e.1.clone()),
                _ => None,
            };
            let want = matches!(inner, Some(V::Int(_)));
            expect(FNested::try_from(t), want, |f| matches!(inner, Some(V::Int(x)) if x == f.x.x));
        }
    }
}
/// Whatever the entries are called: only the one with exactly the key counts.
#[no_mangle]
pub extern "C" fn h_c27_key() {
    let n = 1 + choose(2);
    let ks: Vec<String> = (0..n).map(|i| any_ascii(if i == 0 { choose(12) } else { 5 + choose(4) })).collect();
    let at = ks.iter().position(|k| same_str(k, "the-key"));
    macro_rules! t {
        ($t:ident, $c:ident, $any:expr) => {{
            let vs: Vec<_> = (0..n).map(|_| $any).collect();
            let t = Tuple::new(ks.iter().zip(&vs).map(|(k, v)| (k.clone(), Box::new($c::new(v.clone())) as Box<dyn Clarity>)).collect());
            expect($t::try_from(t), at.is_some(), |f| f.x == vs[at.unwrap_or(0)]);
        }};
    }
    match choose(3) {
        0 => t!(FInt, Int, any_i128()),
        1 => t!(FUInt, UInt, any_u128()),
        _ => t!(FBuf, Buffer, any_vec(2)),
    }
}
/// One tuple after another, long lists and long texts.
#[no_mangle]
pub extern "C" fn h_c27_large() {
    let n = [3usize, 16, 17, 100, 255, 256, 257, 300][choose(8)];
    let l: Vec<String> = (0..n).map(|i| if i % 50 == 2 { any_ascii(2) } else { format!("v{i}") }).collect();
    let list = |l: &[String]| V::List(l.iter().map(|x| V::Ascii(x.clone())).collect());
    let text = any_ascii(n);
    let b = any_vec(n);
    let mut es: Vec<(String, V)> = (0..n).map(|i| (format!("k{i}"), V::True)).collect();
    let at = [0, n / 2, n - 1][choose(3)];
    match choose(3) {
        0 => {
            es[at] = ("the-key".to_string(), list(&l));
            let f = must(FTexts::try_from(tuple_of(&es)), "texts");
            check(f.x.len() == n, "texts-count");
            for (a, b) in f.x.iter().zip(&l) {
                let mut r = String::new();
                ref_render(&V::Ascii(b.clone()), &mut r);
                check(same_str(a, &r), "texts-content");
            }
        }
        1 => {
            es[at] = ("the-key".to_string(), V::Ascii(text.clone()));
            let f = must(FText::try_from(tuple_of(&es)), "text");
            let mut r = String::new();
            ref_render(&V::Ascii(text), &mut r);
            check(same_str(&f.x, &r), "text-content");
        }
        _ => {
            es[at] = ("the-key".to_string(), V::Buf(b.clone()));
            let f = must(FBuf::try_from(tuple_of(&es)), "buffer");
            check(bytes_eq(&f.x, &b), "buffer-content");
        }
    }
    let (x, y) = (any_i128(), any_i128());
    for z in [x, y] {
        es[at].1 = V::Int(z);
        check(must(FInt::try_from(tuple_of(&es)), "int").x == z, "int-content");
    }
    reach("end");
}
fn tuple_of(l: &[(String, V)]) -> Tuple {
    Tuple::new(l.iter().map(|(k, v)| (k.clone(), build(v))).collect())
}
/// A missing key is refused.
#[no_mangle]
pub extern "C" fn h_c27_missing() {
    let t = around(None);
    let r = match choose(11) {
        0 => FInt::try_from(t).is_err(),
        1 => FUInt::try_from(t).is_err(),
        2 => FBool::try_from(t).is_err(),
        3 => FBuf::try_from(t).is_err(),
        4 => FText::try_from(t).is_err(),
        5 => FTexts::try_from(t).is_err(),
        6 => FOkInt::try_from(t).is_err(),
        7 => FOkUInt::try_from(t).is_err(),
        8 => FNested::try_from(t).is_err(),
        9 => FOptInt::try_from(t).is_err(),
        _ => FOptUInt::try_from(t).is_err(),
    };
    check(r, "missing-key-refused");
    reach("end");
}
fn shown(v: &V) -> String {
    let mut r = String::new();
    ref_render(v, &mut r);
    r
}
/// Text fields hold the rendering of any value, lists of text that of every element.
#[no_mangle]
pub extern "C" fn h_c27_text() {
    match choose(3) {
        0 => {
            let v = any_shown(1);
            let f = must(FText::try_from(around(Some(&v))), "text");
            check(same_str(&f.x, &shown(&v)), "text-content");
        }
        1 => {
            let n = choose(bound(3, 4));
            let l: Vec<V> = (0..n).map(|_| any_shown(0)).collect();
            let f = must(FTexts::try_from(around(Some(&V::List(l.clone())))), "texts");
            check(f.x.len() == n, "texts-count");
            for (a, b) in f.x.iter().zip(&l) {
                check(same_str(a, &shown(b)), "texts-content");
            }
        }
        _ => {
            let v = any_shown(1);
            assume(!matches!(v, V::List(_)));
            check(FTexts::try_from(around(Some(&v))).is_err(), "not-a-list-refused");
        }
    }
    reach("end");
}
/// Optional fields: `some` gives the content, `none` gives nothing.
#[no_mangle]
pub extern "C" fn h_c27_option() {
    let none = choose(2) == 0;
    let wrap = |v: V| if none { V::None } else { V::Some(Box::new(v)) };
    match choose(3) {
        0 => {
            let x = any_i128();
            let f = must(FOptInt::try_from(around(Some(&wrap(V::Int(x))))), "option-int");
            check(f.x == if none { None } else { Some(x) }, "option-int-content");
        }
        1 => {
            let x = any_u128();
            let f = must(FOptUInt::try_from(around(Some(&wrap(V::UInt(x))))), "option-uint");
            check(f.x == if none { None } else { Some(x) }, "option-uint-content");
        }
        _ => {
            let v = any_shown(1);
            let f = must(FOptText::try_from(around(Some(&wrap(v.clone())))), "option-text");
            match f.x {
                None => check(none, "option-text-content"),
                Some(s) => check(!none && same_str(&s, &shown(&v)), "option-text-content"),
            }
        }
    }
    reach("end");
}

#[derive(FromTuple)]
struct Inner {
    #[stacks(key = "b")]
    b1: bool,
    #[stacks(key = "a")]
    a1: i128,
}
#[derive(FromTuple)]
struct Outer {
    #[stacks(key = "b")]
    a: i128,
    #[stacks(key = "a")]
    b: i128,
    #[stacks(key = "cc")]
    c: u128,
    #[stacks(key = "c")]
    cc: u128,
    #[stacks(key = "in")]
    inner: Inner,
    #[stacks(key = "r", response)]
    r: u128,
    #[stacks(key = "o")]
    o: Option<u128>,
    #[stacks(key = "t")]
    t: Vec<u8>,
    #[stacks(key = "u")]
    u: bool,
}
/// A whole struct: every field takes the entry of its own key, whatever the
/// order of the entries; one absent or ill-typed entry refuses the whole.
#[no_mangle]
pub extern "C" fn h_c27_struct() {
    let (a, b, a1) = (any_i128(), any_i128(), any_i128());
    let (c, cc, r, o) = (any_u128(), any_u128(), any_u128(), any_u128());
    let t = any_vec(2);
    let (u, b1) = (choose(2) == 1, choose(2) == 1);
    let bv = |x: bool| if x { V::True } else { V::False };
    let s = |x: &str| x.to_string();
    let mut l = vec![
        (s("b"), V::Int(a)),
        (s("a"), V::Int(b)),
        (s("cc"), V::UInt(c)),
        (s("c"), V::UInt(cc)),
        (s("in"), V::Tuple(vec![(s("a"), V::Int(a1)), (s("b"), bv(b1))])),
        (s("r"), V::Ok(Box::new(V::UInt(r)))),
        (s("o"), V::Some(Box::new(V::UInt(o)))),
        (s("t"), V::Buf(t.clone())),
        (s("u"), bv(u)),
    ];
    // any rotation, possibly reversed; possibly one entry dropped or replaced
    let n = l.len();
    l.rotate_left(choose(n));
    if choose(2) == 1 {
        l.reverse();
    }
    let fault = choose(3);
    let at = if fault == 0 { 0 } else { choose(n) };
    match fault {
        1 => {
            l.remove(at);
        }
        2 => {
            assume(!same_str(&l[at].0, "o"));
            l[at].1 = V::Utf8(s("no"));
        }
        _ => {}
    }
    let tuple = Tuple::new(l.iter().map(|(k, v)| (k.clone(), build(v))).collect());
    let r0 = Outer::try_from(tuple);
    if fault != 0 {
        check(r0.is_err(), "one-bad-field-refuses");
        reach("refused");
        return;
    }
    let f = must(r0, "struct");
    check(f.a == a && f.b == b, "ints");
    check(f.c == c && f.cc == cc && f.r == r && f.o == Some(o), "uints");
    check(f.inner.a1 == a1 && f.inner.b1 == b1, "nested");
    check(bytes_eq(&f.t, &t) && f.u == u, "rest");
    reach("end");
}
