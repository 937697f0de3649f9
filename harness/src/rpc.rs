//! C29: the RPC client, over a recorded network (see models/ureq).
use crate::gen::*;
use crate::tx::*;
use stacks_rs::clarity::*;
use stacks_rs::crypto::c32::Address;
use stacks_rs::crypto::Hash160;
use stacks_rs::rpc::*;
use stacks_rs::transaction::*;
use ureq::net::net;
use ureq::{Body, Sent};
use vrt::*;

/// A client for any base URL.
fn client() -> (StacksRPC, String) {
    let mut base = String::from(["", "https://node:20443"][choose(2)]);
    base.push_str(&any_ascii(choose(3)));
    (StacksRPC::new(base.clone()), base)
}
fn reply(status: u16, body: &[u8]) {
    net().reply = Some((status, body.to_vec()));
}
/// The one request that was made.
fn sent(method: &'static str, url: &str) -> Sent {
    let mut v = std::mem::take(&mut net().sent);
    check(v.len() == 1, "one-request");
    let s = must_some(v.pop(), "request");
    check(same_str(&s.method, method), "method");
    check(same_str(&s.url, url), "url");
    s
}
fn header(s: &Sent, name: &str) -> String {
    let mut r = String::new();
    for (k, v) in &s.headers {
        if same_str(k, name) {
            r.push_str(v);
        }
    }
    r
}
fn json_body(s: &Sent) -> ureq::serde_json::Value {
    check(same_str(&header(s, "content-type"), "application/json"), "content-type");
    match &s.body {
        Body::Json(v) => v.clone(),
        Body::Bytes(b) => must(ureq::serde_json::from_slice(b), "json"),
        Body::Empty => must_some(None, "body"),
    }
}
/// A JSON object with the members in order or reversed, and maybe one more.
fn object(members: &[(&str, String)]) -> String {
    let mut m: Vec<(&str, String)> = members.to_vec();
    match choose(3) {
        0 => (),
        1 => m.reverse(),
        _ => m.insert(m.len() / 2, ("other", String::from("{\"x\":[1,null]}"))),
    }
    plain_object(&m)
}
fn plain_object(m: &[(&str, String)]) -> String {
    let mut s = String::from("{");
    for (i, (k, v)) in m.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push('"');
        s.push_str(k);
        s.push_str("\":");
        s.push_str(v);
    }
    s.push('}');
    s
}
/// A JSON string and what it says: arbitrary printable characters.
fn any_text(n: usize) -> (String, String) {
    let t = any_ascii(n);
    for c in t.as_bytes() {
        assume((*c >= 0x20) & (*c != b'"') & (*c != b'\\'));
    }
    (quoted(&t), t)
}
fn quoted(t: &str) -> String {
    let mut s = String::from("\"");
    s.push_str(t);
    s.push('"');
    s
}
/// A JSON number and its value.
fn any_number(max: u64) -> (String, u64) {
    match choose(4) {
        0 => (String::from("0"), 0),
        1 => (ref_dec(u128::from(max)), max),
        2 => {
            let d = digit(b'1');
            (unsafe { String::from_utf8_unchecked(vec![d]) }, u64::from(d - b'0'))
        }
        _ => {
            let (d, e) = (digit(b'1'), digit(b'0'));
            (unsafe { String::from_utf8_unchecked(vec![d, e]) }, u64::from(d - b'0') * 10 + u64::from(e - b'0'))
        }
    }
}
fn digit(from: u8) -> u8 {
    let d = any_u8();
    assume((d >= from) & (d <= b'9'));
    d
}
/// Members of a reply: numbers (with their largest value) and texts, all
/// different; one of them arbitrary.
struct Reply {
    members: Vec<(&'static str, String)>,
    nums: Vec<u64>,
    texts: Vec<String>,
}
fn any_reply(names: &[(&'static str, u64)]) -> Reply {
    let which = choose(names.len());
    let mut r = Reply { members: vec![], nums: vec![], texts: vec![] };
    for (i, (k, max)) in names.iter().enumerate() {
        if *max > 0 {
            let (s, v) = if i == which { any_number(*max) } else { (ref_dec(100 + i as u128), 100 + i as u64) };
            r.members.push((k, s));
            r.nums.push(v);
            r.texts.push(String::new());
        } else {
            let (s, v) = if i == which { any_text(choose(3)) } else { (quoted(k), k.to_string()) };
            r.members.push((k, s));
            r.nums.push(0);
            r.texts.push(v);
        }
    }
    r
}
/// The reply with one member missing, of another type, or out of range.
fn spoil(names: &[(&'static str, u64)]) -> String {
    let which = choose(names.len());
    let how = choose(3);
    let mut m = vec![];
    for (i, (k, max)) in names.iter().enumerate() {
        let good = if *max > 0 { String::from("1") } else { String::from("\"x\"") };
        if i != which {
            m.push((*k, good));
            continue;
        }
        match how {
            0 => (),
            1 => m.push((*k, String::from(if *max > 0 { "\"1\"" } else { "1" }))),
            _ => m.push((*k, String::from(if *max > 0 { "-1" } else { "null" }))),
        }
    }
    plain_object(&m)
}
/// Statuses that are not success, and one where nothing comes back.
fn failure() -> bool {
    if choose(2) == 0 {
        net().reply = None;
        false
    } else {
        let s = any_u16();
        assume((s >= 400) & (s < 600));
        reply(s, b"{\"error\":\"e\"}");
        true
    }
}
/// Bodies that are not JSON of any of the expected kinds.
fn garbage() -> String {
    match choose(4) {
        0 => {
            // no fractions: the parser's error message would print one
            let t = any_ascii(choose(bound(3, 4)));
            for c in t.as_bytes() {
                assume((*c != b'.') & (*c != b'-') & (*c | 0x20 != b'e'));
            }
            t
        }
        1 => String::from("[]"),
        2 => String::from("null"),
        _ => String::from("{\"okay\""),
    }
}
const OK: [u16; 3] = [200, 201, 299];
const INFO: [(&str, u64); 12] = [
    ("peer_version", u64::MAX),
    ("pox_consensus", 0),
    ("burn_block_height", u64::MAX),
    ("stable_pox_consensus", 0),
    ("stable_burn_block_height", u64::MAX),
    ("server_version", 0),
    ("network_id", u32::MAX as u64),
    ("parent_network_id", u32::MAX as u64),
    ("stacks_tip_height", u64::MAX),
    ("stacks_tip", 0),
    ("stacks_tip_consensus_hash", 0),
    ("genesis_chainstate_hash", 0),
];
#[no_mangle]
pub extern "C" fn h_c29_info() {
    let (c, base) = client();
    let url = base + "/v2/info";
    match choose(4) {
        0 => {
            let r = any_reply(&INFO);
            reply(OK[choose(3)], object(&r.members).as_bytes());
            let i = must(c.info(), "info");
            sent("GET", &url);
            let n = [
                (i.peer_version, 0),
                (i.burn_block_height, 2),
                (i.stable_burn_block_height, 4),
                (u64::from(i.network_id), 6),
                (u64::from(i.parent_network_id), 7),
                (i.stacks_tip_height, 8),
            ];
            for (x, k) in n {
                check(x == r.nums[k], "number");
            }
            let t = [
                (&i.pox_consensus, 1),
                (&i.stable_pox_consensus, 3),
                (&i.server_version, 5),
                (&i.stacks_tip, 9),
                (&i.stacks_tip_consensus_hash, 10),
                (&i.genesis_chainstate_hash, 11),
            ];
            for (x, k) in t {
                check(same_str(x, &r.texts[k]), "text");
            }
            reach("end");
        }
        1 => {
            failure();
            check(c.info().is_err(), "failure");
            sent("GET", &url);
            reach("failure");
        }
        2 => {
            reply(200, spoil(&INFO).as_bytes());
            check(c.info().is_err(), "incomplete-refused");
            reach("refused");
        }
        _ => {
            reply(200, garbage().as_bytes());
            check(c.info().is_err(), "garbage-refused");
            reach("refused");
        }
    }
}
const ACCOUNT: [(&str, u64); 6] =
    [("balance", 0), ("locked", 0), ("unlock_height", u64::MAX), ("nonce", u64::MAX), ("balance_proof", 0), ("nonce_proof", 0)];
#[no_mangle]
pub extern "C" fn h_c29_address() {
    let (c, base) = client();
    let who = if choose(2) == 0 { any_ascii(choose(4)) } else { addr_with(22, false).text };
    let url = base + "/v2/accounts/" + &who;
    match choose(4) {
        0 => {
            let r = any_reply(&ACCOUNT);
            reply(OK[choose(3)], object(&r.members).as_bytes());
            let i = must(c.address(who), "address");
            sent("GET", &url);
            check((i.unlock_height == r.nums[2]) & (i.nonce == r.nums[3]), "number");
            for (x, k) in [(&i.balance, 0), (&i.locked, 1), (&i.balance_proof, 4), (&i.nonce_proof, 5)] {
                check(same_str(x, &r.texts[k]), "text");
            }
            reach("end");
        }
        1 => {
            failure();
            check(c.address(who.as_str()).is_err(), "failure");
            sent("GET", &url);
            reach("failure");
        }
        2 => {
            reply(200, spoil(&ACCOUNT).as_bytes());
            check(c.address(who).is_err(), "incomplete-refused");
            reach("refused");
        }
        _ => {
            reply(200, garbage().as_bytes());
            check(c.address(who).is_err(), "garbage-refused");
            reach("refused");
        }
    }
}
fn any_tx() -> (Transaction, RTx) {
    let (c, r) = any_single(choose(2) == 1);
    tx_with(Auth::Standard(c), RAuth::Std(r))
}
#[no_mangle]
pub extern "C" fn h_c29_fee() {
    let (c, base) = client();
    let url = base + "/v2/fees/transaction";
    let (tx, r) = any_tx();
    let case = choose(5);
    let mut want = vec![];
    let (mut text, mut status) = (String::new(), false);
    match case {
        0 => {
            let n = choose(4);
            let mut s = String::from("{\"cost_scalar_change_by_byte\":0.5,\"estimations\":[");
            for i in 0..n {
                let (t, x) = if i == 1 { any_number(u64::MAX) } else { (ref_dec(180 + i as u128), 180 + i as u64) };
                let (f, y) = [("1.25", 1.25f64), ("1", 1.0), ("0.000125", 0.000_125)][i % 3];
                want.push((x, y));
                if i > 0 {
                    s.push(',');
                }
                s.push_str(&object(&[("fee", t), ("fee_rate", f.to_string())]));
            }
            s.push_str("]}");
            reply(OK[choose(3)], s.as_bytes());
        }
        1 => {
            let s = any_u16();
            assume((s >= 400) & (s < 600));
            text = any_ascii(choose(4));
            reply(s, text.as_bytes());
            status = true;
        }
        2 => net().reply = None,
        3 => reply(200, [&b"{\"estimations\":[{\"fee\":1}]}"[..], b"{}", b"{\"estimations\":[{\"fee\":-1,\"fee_rate\":1.0}]}"][choose(3)]),
        _ => reply(200, garbage().as_bytes()),
    }
    let got = c.estimate_fee(&tx);
    let s = sent("POST", &url);
    let b = json_body(&s);
    let p = must_some(b.get("transaction_payload").and_then(|x| x.as_str()), "payload");
    check(same_str(p, &ref_hex(&r.payload)), "payload");
    let n = must_some(b.get("estimated_len").and_then(|x| x.as_u64()), "length");
    check(n as usize == r.bytes().len(), "length");
    match case {
        0 => match must(got, "estimated") {
            EstimateFeeResponse::Ok(f) => {
                check(f.estimations.len() == want.len(), "count");
                for (a, b) in f.estimations.iter().zip(&want) {
                    check(a.fee == b.0, "fee");
                    check(a.fee_rate.to_bits() == b.1.to_bits(), "rate");
                }
                reach("end");
            }
            EstimateFeeResponse::Err(_) => check(false, "estimated-ok"),
        },
        1 => match must(got, "node-error") {
            EstimateFeeResponse::Err(t) => {
                check(status && same_str(&t, &text), "reason");
                reach("error");
            }
            EstimateFeeResponse::Ok(_) => check(false, "node-error-reported"),
        },
        _ => {
            check(got.is_err(), "failure");
            reach("failure");
        }
    }
}
const REFUSAL: [(&str, u64); 3] = [("error", 0), ("reason", 0), ("txid", 0)];
#[no_mangle]
pub extern "C" fn h_c29_broadcast() {
    let (c, base) = client();
    let url = base + "/v2/transactions";
    let (tx, r) = any_tx();
    let case = choose(4);
    let mut text = String::new();
    let mut rep = None;
    match case {
        0 => {
            text = any_ascii(choose(4));
            reply(OK[choose(3)], text.as_bytes());
        }
        1 => {
            let s = any_u16();
            assume((s >= 400) & (s < 600));
            let a = any_reply(&REFUSAL);
            reply(s, object(&a.members).as_bytes());
            rep = Some(a);
        }
        2 => net().reply = None,
        _ => {
            let b = if choose(2) == 0 { spoil(&REFUSAL) } else { garbage() };
            reply([400u16, 500, 503][choose(3)], b.as_bytes());
        }
    }
    let got = c.broadcast(&tx);
    let s = sent("POST", &url);
    check(same_str(&header(&s, "content-type"), "application/octet-stream"), "content-type");
    match &s.body {
        Body::Bytes(b) => check(bytes_eq(b, &r.bytes()), "transaction"),
        _ => check(false, "body"),
    }
    match case {
        0 => {
            let got = must(got, "accepted");
            check(same_str(&format!("{got}"), &text), "display");
            match got {
                BroadcastResponse::Ok(t) => check(same_str(&t, &text), "txid"),
                BroadcastResponse::Err(_) => check(false, "accepted-ok"),
            }
            reach("end");
        }
        1 => match must(got, "refusal") {
            BroadcastResponse::Err(e) => {
                let w = must_some(rep, "rep").texts;
                check(same_str(&e.error, &w[0]) & same_str(&e.reason, &w[1]) & same_str(&e.txid, &w[2]), "refusal");
                reach("refused");
            }
            BroadcastResponse::Ok(_) => check(false, "refusal-reported"),
        },
        _ => {
            check(got.is_err(), "failure");
            reach("failure");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c29_read() {
    let case = choose(5);
    let (c, base) = if case == 0 { client() } else { (StacksRPC::new("node"), String::from("node")) };
    let which = if case == 0 { choose(4) } else { 4 };
    let text = |i: usize, t: &str| if i == which { any_ascii(choose(3)) } else { String::from(t) };
    let (addr, name, func, sender) = (text(0, "SP0"), text(1, "token"), text(2, "get"), text(3, "SP1"));
    let url = base + "/v2/contracts/call-read/" + &addr + "/" + &name + "/" + &func;
    let n = if case == 0 { choose(4) } else { choose(2) };
    let args: Vec<V> = (0..n)
        .map(|i| match i {
            0 => V::UInt(any_u128()),
            1 => V::Some(Box::new(V::Buf(any_vec(2)))),
            _ => V::Std(addr_with(26, false)),
        })
        .collect();
    let okay = choose(2) == 1;
    let flag = String::from(if okay { "true" } else { "false" });
    let (t, text) = any_text(choose(3));
    match case {
        0 => reply(OK[choose(3)], object(&[("okay", flag), ("result", t)]).as_bytes()),
        1 => reply(200, object(&[("okay", flag), ("cause", t)]).as_bytes()),
        2 => {
            failure();
        }
        3 => reply(200, spoil(&[("okay", 1), ("result", 0)]).as_bytes()),
        _ => reply(200, garbage().as_bytes()),
    }
    let got = c.read_only(&addr, &name, &func, FnArguments::new(args.iter().map(build).collect()), &sender);
    let s = sent("POST", &url);
    let b = json_body(&s);
    check(same_str(must_some(b.get("sender").and_then(|x| x.as_str()), "sender"), &sender), "sender");
    let l = must_some(b.get("arguments").and_then(|x| x.as_array()), "arguments");
    check(l.len() == n, "argument-count");
    for (x, v) in l.iter().zip(&args) {
        let x = must_some(x.as_str(), "argument");
        check(same_str(x.strip_prefix("0x").unwrap_or(x), &ref_hex(&reference(v))), "argument");
    }
    match case {
        0 => match must(got, "read") {
            ReadOnlyResponse::Ok(r) => {
                check((r.okay == okay) & same_str(&r.result, &text), "result");
                reach("end");
            }
            ReadOnlyResponse::Err(_) => check(false, "read-ok"),
        },
        1 => match must(got, "cause") {
            ReadOnlyResponse::Err(r) => {
                check((r.okay == okay) & same_str(&r.cause, &text), "cause");
                reach("cause");
            }
            ReadOnlyResponse::Ok(_) => check(false, "cause-reported"),
        },
        _ => {
            check(got.is_err(), "failure");
            reach("failure");
        }
    }
}
/// A value that cannot be encoded is not sent.
#[no_mangle]
pub extern "C" fn h_c29_unencodable() {
    let (c, _) = client();
    let bad: Box<dyn Clarity> = match choose(3) {
        0 => Box::new(PrincipalStandard::new("S0".to_string())),
        1 => Box::new(StringAscii::new("\u{e9}".to_string())),
        _ => Box::new(PrincipalContract::new(("x".to_string(), "y".to_string()))),
    };
    reply(200, b"{\"okay\":true,\"result\":\"0x03\"}");
    let r = c.read_only("a", "b", "c", FnArguments::new(vec![Box::new(True::new()), bad]), "s");
    check(r.is_err(), "refused");
    check(net().sent.is_empty(), "nothing-sent");
    reach("end");
}
/// Transactions and argument lists of any size are sent whole.
#[no_mangle]
pub extern "C" fn h_c29_large() {
    let (c, base) = (StacksRPC::new("node"), String::from("node"));
    let n = [300usize, 33000, 70000][choose(3)];
    let mut b = vec![7u8; n];
    b[0] = any_u8();
    b[n - 1] = any_u8();
    let v = V::Buf(b);
    match choose(3) {
        k @ 0..=1 => {
            let (cond, r) = any_single(false);
            let p = ContractCallPayload::new(Address::new(Hash160::from([1; 20]), 22), "c", "fn", FnArguments::new(vec![build(&v)]));
            let mut o = vec![2, 22];
            o.extend_from_slice(&[1; 20]);
            ref_name("c", &mut o);
            ref_name("fn", &mut o);
            o.extend_from_slice(&[0, 0, 0, 1]);
            ref_encode(&v, &mut o);
            let (mut tx, mut r) = tx_with(Auth::Standard(cond), RAuth::Std(r));
            tx.payload = Box::new(p);
            r.payload = o;
            if k == 0 {
                reply(200, b"{\"estimations\":[]}");
                check(c.estimate_fee(&tx).is_ok(), "estimated");
                let b = json_body(&sent("POST", &(base + "/v2/fees/transaction")));
                let p = must_some(b.get("transaction_payload").and_then(|x| x.as_str()), "payload");
                check(same_str(p, &ref_hex(&r.payload)), "payload");
                let n = must_some(b.get("estimated_len").and_then(|x| x.as_u64()), "length");
                check(n as usize == r.bytes().len(), "length");
            } else {
                reply(200, b"txid");
                check(c.broadcast(&tx).is_ok(), "accepted");
                match &sent("POST", &(base + "/v2/transactions")).body {
                    Body::Bytes(b) => check(bytes_eq(b, &r.bytes()), "transaction"),
                    _ => check(false, "body"),
                }
            }
        }
        _ => {
            let k = [1usize, 17, 300][choose(3)];
            assume((n == 300) | (k == 1));
            let w = V::UInt(any_u128());
            let mut args: Vec<Box<dyn Clarity>> = (1..k).map(|_| build(&w)).collect();
            args.push(build(&v));
            reply(200, b"{\"okay\":true,\"result\":\"0x03\"}");
            check(c.read_only("a", "b", "f", FnArguments::new(args), "s").is_ok(), "read");
            let b = json_body(&sent("POST", &(base + "/v2/contracts/call-read/a/b/f")));
            let l = must_some(b.get("arguments").and_then(|x| x.as_array()), "arguments");
            check(l.len() == k, "argument-count");
            let (w, v) = (ref_hex(&reference(&w)), ref_hex(&reference(&v)));
            for (i, x) in l.iter().enumerate() {
                let x = must_some(x.as_str(), "argument");
                check(same_str(x.strip_prefix("0x").unwrap_or(x), if i + 1 < k { &w } else { &v }), "argument");
            }
        }
    }
    reach("end");
}
/// One request after another: each is its own.
#[no_mangle]
pub extern "C" fn h_c29_twice() {
    let c = StacksRPC::new("node");
    let d = StacksRPC::new("other");
    let ops: Vec<usize> = (0..bound(2, 3)).map(|_| choose(7)).collect();
    for (i, k) in ops.into_iter().enumerate() {
        let (c, base) = if choose(2) == 0 { (&c, "node") } else { (&d, "other") };
        let (t, text) = any_text(1);
        let addr = ["SP0", "SP1"][choose(2)];
        match k {
            0 => {
                let z = || quoted("z");
                let n = ref_dec(i as u128);
                reply(200, plain_object(&[("balance", t), ("locked", z()), ("unlock_height", n.clone()), ("nonce", n), ("balance_proof", z()), ("nonce_proof", z())]).as_bytes());
                let r = must(c.address(addr), "address");
                sent("GET", &format!("{base}/v2/accounts/{addr}"));
                check((r.nonce == i as u64) & same_str(&r.balance, &text), "account");
            }
            1 => {
                let (tx, r) = any_tx();
                reply(200, text.as_bytes());
                match must(c.broadcast(&tx), "accepted") {
                    BroadcastResponse::Ok(x) => check(same_str(&x, &text), "txid"),
                    BroadcastResponse::Err(_) => check(false, "accepted-ok"),
                }
                match &sent("POST", &format!("{base}/v2/transactions")).body {
                    Body::Bytes(b) => check(bytes_eq(b, &r.bytes()), "transaction"),
                    _ => check(false, "body"),
                }
            }
            2 => {
                let (tx, _) = any_tx();
                reply(500, text.as_bytes());
                match must(c.estimate_fee(&tx), "node-error") {
                    EstimateFeeResponse::Err(x) => check(same_str(&x, &text), "reason"),
                    EstimateFeeResponse::Ok(_) => check(false, "node-error-reported"),
                }
                sent("POST", &format!("{base}/v2/fees/transaction"));
            }
            3 => {
                let (tx, r) = any_tx();
                reply(200, b"{\"estimations\":[]}");
                check(matches!(c.estimate_fee(&tx), Ok(EstimateFeeResponse::Ok(_))), "estimated");
                let b = json_body(&sent("POST", &format!("{base}/v2/fees/transaction")));
                check(same_str(must_some(b.get("transaction_payload").and_then(|x| x.as_str()), "payload"), &ref_hex(&r.payload)), "payload");
            }
            4 => {
                reply(200, plain_object(&[("okay", String::from("true")), ("result", t)]).as_bytes());
                match must(c.read_only(addr, "b", "f", FnArguments::new(vec![]), "s"), "read") {
                    ReadOnlyResponse::Ok(r) => check(same_str(&r.result, &text), "result"),
                    ReadOnlyResponse::Err(_) => check(false, "read-ok"),
                }
                sent("POST", &format!("{base}/v2/contracts/call-read/{addr}/b/f"));
            }
            5 => {
                let mut m = vec![];
                for (k, max) in INFO {
                    m.push((k, if max > 0 { ref_dec(i as u128) } else { t.clone() }));
                }
                reply(200, plain_object(&m).as_bytes());
                let r = must(c.clone().info(), "info");
                sent("GET", &format!("{base}/v2/info"));
                check((r.burn_block_height == i as u64) & (r.stacks_tip_height == i as u64) & (r.network_id == i as u32), "info-number");
                check(same_str(&r.stacks_tip, &text) & same_str(&r.server_version, &text), "info-text");
                // and once more, answered differently
                m[8].1 = String::from("77");
                reply(200, plain_object(&m).as_bytes());
                check(must(c.info(), "info").stacks_tip_height == 77, "info-again");
                sent("GET", &format!("{base}/v2/info"));
                net().reply = None;
                check(c.info().is_err(), "info-failure");
                sent("GET", &format!("{base}/v2/info"));
            }
            _ => {
                net().reply = None;
                check(c.address(addr).is_err(), "failure");
                sent("GET", &format!("{base}/v2/accounts/{addr}"));
            }
        }
    }
    reach("end");
}
/// Long texts, each in one place of a request or reply.
#[no_mangle]
pub extern "C" fn h_c29_long() {
    let n = [8usize, 16, 32, 33, 41, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000][choose(bound(15, 16))];
    let mut b = vec![b'x'; n];
    for i in [0, n / 2, n - 1] {
        let c = any_u8();
        assume((c >= 0x20) & (c < 0x7f) & (c != b'"') & (c != b'\\'));
        b[i] = c;
    }
    let t = unsafe { String::from_utf8_unchecked(b) };
    let c = StacksRPC::new("node");
    let z = || quoted("z");
    let account = |b: String| plain_object(&[("balance", b), ("locked", z()), ("unlock_height", String::from("1")), ("nonce", String::from("2")), ("balance_proof", z()), ("nonce_proof", z())]);
    match choose(10) {
        0 => {
            reply(200, account(z()).as_bytes());
            check(StacksRPC::new(t.clone()).address("a").is_ok(), "address");
            sent("GET", &(t + "/v2/accounts/a"));
        }
        1 => {
            reply(200, account(z()).as_bytes());
            check(c.address(t.as_str()).is_ok(), "address");
            sent("GET", &(String::from("node/v2/accounts/") + &t));
        }
        2 => {
            reply(200, account(quoted(&t)).as_bytes());
            check(same_str(&must(c.address("a"), "address").balance, &t), "balance");
        }
        k @ 3..=6 => {
            let pick = |i: usize, d: &'static str| if i == k { t.as_str() } else { d };
            reply(200, b"{\"okay\":true,\"result\":\"0x03\"}");
            check(c.read_only(pick(3, "a"), pick(4, "b"), pick(5, "f"), FnArguments::new(vec![]), pick(6, "s")).is_ok(), "read");
            let url = String::from("node/v2/contracts/call-read/") + pick(3, "a") + "/" + pick(4, "b") + "/" + pick(5, "f");
            let b = json_body(&sent("POST", &url));
            check(same_str(must_some(b.get("sender").and_then(|x| x.as_str()), "sender"), pick(6, "s")), "sender");
        }
        7 => {
            reply(200, plain_object(&[("okay", String::from("true")), ("result", quoted(&t))]).as_bytes());
            match must(c.read_only("a", "b", "f", FnArguments::new(vec![]), "s"), "read") {
                ReadOnlyResponse::Ok(r) => check(r.okay & same_str(&r.result, &t), "result"),
                ReadOnlyResponse::Err(_) => check(false, "read-ok"),
            }
        }
        8 => {
            let (tx, _) = tx_with(Auth::Standard(Box::<SpendingConditionStandard>::default()), RAuth::Std(any_single(false).1));
            reply(200, t.as_bytes());
            match must(c.broadcast(&tx), "accepted") {
                BroadcastResponse::Ok(x) => check(same_str(&x, &t), "txid"),
                BroadcastResponse::Err(_) => check(false, "accepted-ok"),
            }
            reply(400, plain_object(&[("error", z()), ("reason", quoted(&t)), ("txid", quoted(&t))]).as_bytes());
            match must(c.broadcast(&tx), "refusal") {
                BroadcastResponse::Err(e) => check(same_str(&e.reason, &t) & same_str(&e.txid, &t), "refusal"),
                BroadcastResponse::Ok(_) => check(false, "refusal-reported"),
            }
        }
        _ => {
            let (tx, _) = tx_with(Auth::Standard(Box::<SpendingConditionStandard>::default()), RAuth::Std(any_single(false).1));
            reply(400, t.as_bytes());
            match must(c.estimate_fee(&tx), "node-error") {
                EstimateFeeResponse::Err(x) => check(same_str(&x, &t), "reason"),
                EstimateFeeResponse::Ok(_) => check(false, "node-error-reported"),
            }
        }
    }
    reach("end");
}
