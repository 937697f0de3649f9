//! C26: wallet.
use crate::cry::*;
use crate::gen::*;
use secp256k1::SecretKey;
use stacks_rs::crypto::c32::Version;
use stacks_rs::wallet::*;
use vrt::*;

/// Extended key of the reference derivation: key, chain code.
#[derive(Clone)]
struct X([u8; 32], [u8; 32]);
fn split(o: &[u8; 65]) -> Option<X> {
    let mut k = [0u8; 32];
    let mut c = [0u8; 32];
    k.copy_from_slice(&o[..32]);
    c.copy_from_slice(&o[32..64]);
    if (o[64] & 1 == 0) || SecretKey::from_slice(&k).is_err() {
        return None;
    }
    Some(X(k, c))
}
fn ckd(x: &X, n: u32) -> Option<X> {
    let mut i = x.0.to_vec();
    i.extend_from_slice(&x.1);
    i.extend_from_slice(&n.to_be_bytes());
    let mut o = [0u8; 65];
    uf(alg::BIP32_CKD, &i, &mut o);
    split(&o)
}
const H: u32 = 0x8000_0000;
/// Account indices: concrete, because the wallet hashes them into its map.
const I: [u32; 14] = [0, 1, 0x7fff_ffff, 0x8000_0000, 2, 19, 255, 256, 257, 65535, 65536, 0x0100_0000, 0x8000_0001, u32::MAX];
/// 0-99, 2^k - 1, 2^k, 2^k + 1 and a few of no special form.
const INDICES: usize = 204;
fn index(n: usize) -> u32 {
    match n {
        0..=99 => n as u32,
        100..=195 => (1u32 << ((n - 100) / 3)).wrapping_add(((n - 100) % 3) as u32).wrapping_sub(1),
        _ => [u32::MAX, u32::MAX - 1, 100, 1000, 5757, 10000, 1_000_000, 3_000_000_000][n - 196],
    }
}
/// m/44'/5757'/0'/0 of the seed of the phrase with an empty passphrase.
fn ref_root(phrase: &str) -> Option<X> {
    let mut p = [0u8; 34];
    let mut words = vec![];
    for w in phrase.as_bytes().split(u8::is_ascii_whitespace).filter(|w| !w.is_empty()) {
        words.extend_from_slice(w);
        words.push(b' ');
    }
    uf(alg::BIP39_PARSE, &words, &mut p);
    if p[33] & 1 == 0 {
        return None;
    }
    let mut seed = [0u8; 64];
    uf(alg::BIP39_SEED, &p[..33], &mut seed);
    let mut o = [0u8; 65];
    uf(alg::BIP32_ROOT, &seed, &mut o);
    let mut x = split(&o)?;
    for n in [H + 44, H + 5757, H, 0] {
        x = ckd(&x, n)?;
    }
    Some(x)
}
fn pubkey(x: &X) -> [u8; 33] {
    match SecretKey::from_slice(&x.0) {
        Ok(k) => public(&k).serialize(),
        Err(_) => [0; 33],
    }
}
fn account_is(a: &StacksAccount, x: &X) {
    check(bytes_eq(&must(a.private_key(), "private-key").secret_bytes(), &x.0), "private-key");
    check(bytes_eq(&must(a.public_key(), "public-key").serialize(), &pubkey(x)), "public-key");
}
/// The wallet and every account derive as the path says; errors only when the
/// derivation fails.
#[no_mangle]
pub extern "C" fn h_c26_derive() {
    let n = choose(bound(3, 4));
    let phrase = any_ascii(n);
    let w = StacksWallet::from_secret_key(phrase.clone());
    let x = match ref_root(&phrase) {
        None => {
            check(w.is_err(), "underivable-refused");
            reach("refused");
            return;
        }
        Some(x) => x,
    };
    let mut w = must(w, "wallet");
    check(bytes_eq(&must(w.private_key(), "wallet-private-key").secret_bytes(), &x.0), "wallet-private-key");
    check(bytes_eq(&must(w.public_key(), "wallet-public-key").serialize(), &pubkey(&x)), "wallet-public-key");
    let i = if n == 0 { index(choose(INDICES)) } else { I[choose(I.len())] };
    let a = w.get_account(i);
    match ckd(&x, i) {
        None => {
            check(a.is_err(), "underivable-account-refused");
            reach("refused-account");
        }
        Some(y) => {
            account_is(&must(a, "account"), &y);
            reach("end");
        }
    }
}
/// Phrases of 12 to 24 words with an arbitrary letter in three of them.
#[no_mangle]
pub extern "C" fn h_c26_phrase() {
    let n = [12, 15, 18, 21, 24, 25, 1][choose(7)];
    let mut phrase = String::new();
    for k in 0..n {
        let c = if k == 0 || k == n / 2 || k == n - 1 { any_u8() & 0x7f } else { b'a' + k as u8 };
        assume(!c.is_ascii_whitespace());
        phrase.push_str("word");
        phrase.push(char::from(c));
        phrase.push(if k % 5 == 3 { '\n' } else { ' ' });
    }
    let w = StacksWallet::from_secret_key(phrase.clone());
    match ref_root(&phrase) {
        None => check(w.is_err(), "underivable-refused"),
        Some(x) => {
            let w = must(w, "wallet");
            check(bytes_eq(&must(w.private_key(), "wallet-private-key").secret_bytes(), &x.0), "wallet-private-key");
            reach("end");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c26_address() {
    let phrase = "p";
    let x = match ref_root(phrase).and_then(|x| ckd(&x, 3)) {
        None => return,
        Some(x) => x,
    };
    let mut w = must(StacksWallet::from_secret_key(phrase), "wallet");
    let a = must(w.get_account(3), "account");
    let (ver, v) = [(Version::MainnetP2PKH, 22u8), (Version::MainnetP2SH, 20), (Version::TestnetP2PKH, 26), (Version::TestnetP2SH, 21)][choose(4)];
    let h = hash160(&pubkey(&x));
    assume(h[0] >= 64);
    check(same_str(&must(a.get_address(ver), "address"), &ref_address(v, &h)), "address");
    account_is(&a, &x);
    reach("end");
}
/// One wallet after another.
#[no_mangle]
pub extern "C" fn h_c26_twice() {
    let p = [any_ascii(1), any_ascii(1)];
    let i = [0, 1, 2, 19][choose(4)];
    for p in [&p[0], &p[1], &p[0]] {
        let w = StacksWallet::from_secret_key(p.clone());
        match ref_root(p) {
            None => check(w.is_err(), "underivable-refused"),
            Some(x) => {
                let mut w = must(w, "wallet");
                check(bytes_eq(&must(w.private_key(), "wallet-private-key").secret_bytes(), &x.0), "wallet-private-key");
                match ckd(&x, i) {
                    None => check(w.get_account(i).is_err(), "underivable-account-refused"),
                    Some(y) => {
                        account_is(&must(w.get_account(i), "account"), &y);
                        reach("end");
                    }
                }
            }
        }
    }
}
/// Many accounts of one wallet, most of them put there.
#[no_mangle]
pub extern "C" fn h_c26_crowd() {
    let n = [3u32, 5, 9, 17, 33, 65, 101, 129, 257, 513, 1025][choose(11)];
    let x = match ref_root("p") {
        None => return,
        Some(x) => x,
    };
    let (p, q, z) = match (ckd(&x, 1), ckd(&x, 2), ckd(&x, 5000)) {
        (Some(p), Some(q), Some(z)) => (p, q, z),
        _ => return,
    };
    let mut w = must(StacksWallet::from_secret_key("p"), "wallet");
    let (a, b) = (must(w.get_account(1), "account"), must(w.get_account(2), "account"));
    for i in 0..n {
        w.set_account(i + 3, if i % 2 == 0 { b.clone() } else { a.clone() });
    }
    account_is(&must(w.get_account(5000), "account"), &z);
    let mut c = w.clone();
    for w in [&mut w, &mut c] {
        for i in [n - 1, 0, n / 2, 1, n - 2] {
            account_is(&must(w.get_account(i + 3), "account"), if i % 2 == 0 { &q } else { &p });
        }
        account_is(&must(w.get_account(1), "account"), &p);
        account_is(&must(w.get_account(2), "account"), &q);
        account_is(&must(w.get_account(5000), "account"), &z);
    }
    reach("end");
}
/// Any order of requests gives each index its own account, the same every time.
#[no_mangle]
pub extern "C" fn h_c26_history() {
    let x = match ref_root("p") {
        None => return,
        Some(x) => x,
    };
    let mut w = must(StacksWallet::from_secret_key("p"), "wallet");
    let mut put: Vec<(u32, X)> = vec![];
    for _ in 0..bound(3, 5) {
        let i = I[choose(4)];
        let y = match ckd(&x, i) {
            None => return,
            Some(y) => y,
        };
        let want = put.iter().rev().find(|p| p.0 == i).map_or(y.clone(), |p| p.1.clone());
        match choose(3) {
            0 => {
                account_is(&must(w.get_account(i), "account"), &want);
                reach("get");
            }
            1 => {
                // store the account of another index under this one
                let j = I[choose(2)];
                let z = match ckd(&x, j) {
                    None => return,
                    Some(z) => z,
                };
                let z = put.iter().rev().find(|p| p.0 == j).map_or(z, |p| p.1.clone());
                let a = must(w.get_account(j), "account");
                w.set_account(i, a);
                put.push((i, z));
                reach("set");
            }
            _ => {
                let mut c = w.clone();
                account_is(&must(c.get_account(i), "account-clone"), &want);
            }
        }
    }
    check(bytes_eq(&must(w.private_key(), "wallet-private-key").secret_bytes(), &x.0), "wallet-private-key");
    reach("end");
}
