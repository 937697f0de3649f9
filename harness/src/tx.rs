//! C17..C25 (and the payload part of C03): transactions.
use crate::clar::{any_size, any_sparse_text};
use crate::cry::*;
use crate::gen::*;
use secp256k1::{Message, PublicKey, Secp256k1, SecretKey};
use stacks_rs::clarity::*;
use stacks_rs::crypto::c32::{Address, Mode};
use stacks_rs::crypto::*;
use stacks_rs::transaction::*;
use vrt::*;

// ---- reference serialisation (SIP-005) --------------------------------------

/// Reference spending condition.
#[derive(Clone)]
pub struct RCond {
    mode: u8,
    signer: [u8; 20],
    nonce: u64,
    fee: u64,
    kind: RKind,
}
#[derive(Clone)]
pub enum RKind {
    Single([u8; 65]),
    /// fields (false: public key, true: signature) and the threshold
    Multi(Vec<(bool, Vec<u8>)>, u8),
}
#[derive(Clone)]
pub enum RAuth {
    Std(RCond),
    Spo(RCond, RCond),
}
#[derive(Clone)]
pub struct RTx {
    version: u8,
    chain: u32,
    auth: RAuth,
    anchor: u8,
    pmode: u8,
    conds: Vec<u8>,
    pub payload: Vec<u8>,
}
fn be64(x: u64, o: &mut Vec<u8>) {
    let mut i = 8;
    while i > 0 {
        i -= 1;
        o.push((x >> (8 * i)) as u8);
    }
}
impl RCond {
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(self.mode);
        o.extend_from_slice(&self.signer);
        be64(self.nonce, o);
        be64(self.fee, o);
        match &self.kind {
            RKind::Single(s) => {
                o.push(0);
                o.extend_from_slice(s);
            }
            RKind::Multi(f, r) => {
                o.extend_from_slice(&(f.len() as u32).to_be_bytes());
                for (sig, b) in f {
                    o.push(if *sig { 2 } else { 0 });
                    o.extend_from_slice(b);
                }
                o.push(0);
                o.push(*r);
            }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        self.enc(&mut o);
        o
    }
    /// no fee, no nonce, no signatures
    fn cleared(&self) -> RCond {
        RCond {
            mode: self.mode,
            signer: self.signer,
            nonce: 0,
            fee: 0,
            kind: match &self.kind {
                RKind::Single(_) => RKind::Single([0; 65]),
                RKind::Multi(_, r) => RKind::Multi(vec![], *r),
            },
        }
    }
    fn sigs(&self) -> usize {
        match &self.kind {
            RKind::Single(s) => usize::from(s.iter().fold(0, |a, b| a | b) != 0),
            RKind::Multi(f, _) => f.iter().filter(|x| x.0).count(),
        }
    }
    fn req(&self) -> usize {
        match &self.kind {
            RKind::Single(_) => 1,
            RKind::Multi(_, r) => usize::from(*r),
        }
    }
    fn multi(&self) -> bool {
        matches!(self.kind, RKind::Multi(..))
    }
    fn put(&mut self, sig: bool, b: &[u8]) {
        match &mut self.kind {
            RKind::Single(s) => s.copy_from_slice(b),
            RKind::Multi(f, _) => f.push((sig, b.to_vec())),
        }
    }
}
impl RAuth {
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            RAuth::Std(c) => {
                o.push(4);
                c.enc(o);
            }
            RAuth::Spo(c, s) => {
                o.push(5);
                c.enc(o);
                s.enc(o);
            }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        self.enc(&mut o);
        o
    }
    fn origin(&self) -> &RCond {
        match self {
            RAuth::Std(c) | RAuth::Spo(c, _) => c,
        }
    }
    fn origin_mut(&mut self) -> &mut RCond {
        match self {
            RAuth::Std(c) | RAuth::Spo(c, _) => c,
        }
    }
    fn cleared(&self) -> RAuth {
        match self {
            RAuth::Std(c) => RAuth::Std(c.cleared()),
            RAuth::Spo(c, _) => RAuth::Spo(c.cleared(), sentinel()),
        }
    }
}
/// What stands for the sponsor while the origin signs.
fn sentinel() -> RCond {
    RCond { mode: 0, signer: [0; 20], nonce: 0, fee: 0, kind: RKind::Single([0; 65]) }
}
impl RTx {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![self.version];
        o.extend_from_slice(&self.chain.to_be_bytes());
        self.auth.enc(&mut o);
        o.push(self.anchor);
        o.push(self.pmode);
        o.extend_from_slice(&self.conds);
        o.extend_from_slice(&self.payload);
        o
    }
    /// The hash that signing starts from.
    fn initial(&self) -> [u8; 32] {
        let mut t = self.clone();
        t.auth = self.auth.cleared();
        sha512_256(&t.bytes())
    }
}
fn presign(h: &[u8; 32], typ: u8, fee: u64, nonce: u64) -> [u8; 32] {
    let mut m = h.to_vec();
    m.push(typ);
    be64(fee, &mut m);
    be64(nonce, &mut m);
    sha512_256(&m)
}
fn postsign(pre: &[u8; 32], sig: &[u8; 65]) -> [u8; 32] {
    let mut m = pre.to_vec();
    m.push(0);
    m.extend_from_slice(sig);
    sha512_256(&m)
}
/// Reference signing step: signature in the wire layout and the next hash.
fn ref_sign(h: &[u8; 32], typ: u8, fee: u64, nonce: u64, k: &SecretKey) -> ([u8; 65], [u8; 32]) {
    let pre = presign(h, typ, fee, nonce);
    let msg = must(Message::from_digest_slice(&pre), "msg");
    let (id, s) = Secp256k1::new().sign_ecdsa_recoverable(&msg, k).serialize_compact();
    let mut sig = [0u8; 65];
    sig[0] = id.to_i32() as u8;
    sig[1..].copy_from_slice(&s);
    let next = postsign(&pre, &sig);
    (sig, next)
}
/// Reference verification step.
fn ref_recover(h: &[u8; 32], typ: u8, fee: u64, nonce: u64, sig: &[u8]) -> Option<(PublicKey, [u8; 32])> {
    use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
    let pre = presign(h, typ, fee, nonce);
    let id = RecoveryId::from_i32(i32::from(sig[0])).ok()?;
    let r = RecoverableSignature::from_compact(&sig[1..], id).ok()?;
    let msg = Message::from_digest_slice(&pre).ok()?;
    let pk = Secp256k1::new().recover_ecdsa(&msg, &r).ok()?;
    let mut s = [0u8; 65];
    s.copy_from_slice(sig);
    Some((pk, postsign(&pre, &s)))
}
/// Reference verification of a condition: `None` unless every signature present
/// recovers and the keys hash to the signer with enough signatures.
fn ref_verify(c: &RCond, h: &[u8; 32], typ: u8) -> Option<[u8; 32]> {
    match &c.kind {
        RKind::Single(s) => {
            let (pk, next) = ref_recover(h, typ, c.fee, c.nonce, s)?;
            let g = if c.mode == 0 { hash160(&pk.serialize()) } else { ref_p2wpkh(&pk.serialize()) };
            if bytes_eq(&g, &c.signer) {
                Some(next)
            } else {
                None
            }
        }
        RKind::Multi(f, r) => {
            let mut n = *h;
            let mut keys = vec![];
            for (sig, b) in f {
                if *sig {
                    let (pk, next) = ref_recover(&n, typ, c.fee, c.nonce, b)?;
                    keys.push(pk);
                    n = next;
                } else {
                    keys.push(PublicKey::from_slice(b).ok()?);
                }
            }
            if c.sigs() < usize::from(*r) {
                return None;
            }
            let m = usize::from(*r);
            let g = if c.mode == 1 { ref_p2sh(m, &keys) } else { ref_p2wsh(m, &keys) };
            if bytes_eq(&g, &c.signer) {
                Some(n)
            } else {
                None
            }
        }
    }
}

// ---- building both sides ------------------------------------------------------

fn single(k: &PublicKey, wpkh: bool, fee: u64, nonce: u64) -> (SpendingConditionStandard, RCond) {
    let b = k.serialize();
    let (m, mode, signer) = if wpkh { (Mode::P2WPKH, 2, ref_p2wpkh(&b)) } else { (Mode::P2PKH, 0, hash160(&b)) };
    (
        SpendingConditionStandard::new(*k, fee, nonce, m),
        RCond { mode, signer, nonce, fee, kind: RKind::Single([0; 65]) },
    )
}
fn multi(ks: &[PublicKey], r: usize, wsh: bool, fee: u64, nonce: u64) -> (SpendingConditionMultiSig, RCond) {
    let (m, mode, signer) = if wsh { (Mode::P2WSH, 3, ref_p2wsh(r, ks)) } else { (Mode::P2SH, 1, ref_p2sh(r, ks)) };
    (
        SpendingConditionMultiSig::new(ks, fee, nonce, r as u8, m),
        RCond { mode, signer, nonce, fee, kind: RKind::Multi(vec![], r as u8) },
    )
}
pub type Pair = (Box<dyn SpendingCondition>, RCond);
/// Any single-signature condition with an arbitrary signature.
pub fn any_single(signed: bool) -> Pair {
    let k = public(&any_key());
    let (mut c, mut r) = single(&k, choose(2) == 1, any_u64(), any_u64());
    if signed {
        let s = any_array::<65>();
        check(c.modify(Modification::SetSignature(MessageSignature::from(s))).is_ok(), "set-signature");
        r.put(true, &s);
    }
    (Box::new(c), r)
}
/// Any multi-signature condition of up to `n` keys with up to `f` arbitrary fields.
fn any_multi(n: usize, f: usize) -> Pair {
    let n = 1 + choose(n);
    let ks: Vec<PublicKey> = (0..n).map(|_| public(&any_key())).collect();
    let r = choose(n + 1);
    let (mut c, mut rc) = multi(&ks, r, choose(2) == 1, any_u64(), any_u64());
    for _ in 0..choose(f + 1) {
        if choose(2) == 0 {
            let k = public(&any_key());
            check(c.modify(Modification::AddPublicKey(k)).is_ok(), "add-key");
            rc.put(false, &k.serialize());
        } else {
            let s = any_array::<65>();
            check(c.modify(Modification::AddSignature(MessageSignature::from(s))).is_ok(), "add-signature");
            rc.put(true, &s);
        }
    }
    (Box::new(c), rc)
}
fn any_cond(f: usize) -> Pair {
    if choose(2) == 0 {
        any_single(choose(2) == 1)
    } else {
        any_multi(2, f)
    }
}
pub fn any_auth(f: usize) -> (Auth, RAuth) {
    let (c, r) = any_cond(f);
    if choose(2) == 0 {
        (Auth::Standard(c), RAuth::Std(r))
    } else {
        let (s, t) = any_cond(f);
        (Auth::Sponsored(c, s), RAuth::Spo(r, t))
    }
}
/// A small contract call with arbitrary address and argument.
pub fn call() -> (Box<dyn Payload>, Vec<u8>) {
    let h = any_array::<20>();
    let v = any_u8();
    let x = any_u128();
    let p = ContractCallPayload::new(Address::new(Hash160::from(h), v), "c", "fn", FnArguments::new(vec![Box::new(UInt::new(x))]));
    let mut o = vec![2, v];
    o.extend_from_slice(&h);
    ref_name("c", &mut o);
    ref_name("fn", &mut o);
    o.extend_from_slice(&[0, 0, 0, 1]);
    ref_encode(&V::UInt(x), &mut o);
    (Box::new(p), o)
}
pub fn tx_with(auth: Auth, r: RAuth) -> (Transaction, RTx) {
    let (p, pb) = call();
    (
        Transaction::new(
            TransactionVersion::Testnet,
            ChainID::Testnet,
            auth,
            AnchorMode::Any,
            PostConditionMode::Deny,
            PostConditions::default(),
            p,
        ),
        RTx { version: 0x80, chain: 0x8000_0000, auth: r, anchor: 3, pmode: 2, conds: vec![0; 4], payload: pb },
    )
}
fn enc<T: Codec + ?Sized>(c: &T, id: &'static str) -> Vec<u8> {
    must(c.encode(), id)
}

// ---- C17: transaction and authorization layout --------------------------------

#[no_mangle]
pub extern "C" fn h_c17_single() {
    let (c, r) = any_single(choose(2) == 1);
    check(bytes_eq(&enc(c.as_ref(), "encode"), &r.bytes()), "layout");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c17_multi() {
    let (c, r) = any_multi(bound(3, 4), bound(3, 4));
    check(bytes_eq(&enc(c.as_ref(), "encode"), &r.bytes()), "layout");
    reach("end");
}
/// Many keys, many fields.
#[no_mangle]
pub extern "C" fn h_c17_many() {
    let n = [3usize, 4, 5, 8, 15, 16, 20, 32][choose(bound(6, 8))];
    let ks: Vec<PublicKey> = (0..n).map(|_| public(&any_key())).collect();
    let (mut c, mut r) = multi(&ks, n - 1, choose(2) == 1, any_u64(), any_u64());
    for (i, k) in ks.iter().enumerate() {
        if i % 3 == 1 {
            check(c.modify(Modification::AddPublicKey(*k)).is_ok(), "add-key");
            r.put(false, &k.serialize());
        } else {
            let s = any_array::<65>();
            check(c.modify(Modification::AddSignature(MessageSignature::from(s))).is_ok(), "add-signature");
            r.put(true, &s);
        }
    }
    check(bytes_eq(&enc(&c, "encode"), &r.bytes()), "layout");
    reach("end");
}
/// Very many fields.
#[no_mangle]
pub extern "C" fn h_c17_crowd() {
    let (c, r) = crowded();
    check(bytes_eq(&enc(&c, "encode"), &r.bytes()), "layout");
    let a = if choose(2) == 0 {
        (Auth::Standard(Box::new(c)), RAuth::Std(r))
    } else {
        (Auth::Sponsored(Box::new(c.clone()), Box::new(c)), RAuth::Spo(r.clone(), r))
    };
    check(bytes_eq(&enc(&a.0, "encode-auth"), &a.1.bytes()), "auth-layout");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c17_auth() {
    let (a, r) = any_auth(bound(1, 2));
    check(bytes_eq(&enc(&a, "encode"), &r.bytes()), "layout");
    check(a.is_sponsored() == matches!(r, RAuth::Spo(..)), "is-sponsored");
    check(a.is_standard() == matches!(r, RAuth::Std(..)), "is-standard");
    check(bytes_eq(&enc(a.origin(), "encode-origin"), &r.origin().bytes()), "origin");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c17_transaction() {
    let (c, rc) = any_single(true);
    let (auth, ra) = if choose(2) == 0 {
        (Auth::Standard(c), RAuth::Std(rc))
    } else {
        let (s, rs) = any_multi(1, 1);
        (Auth::Sponsored(c, s), RAuth::Spo(rc, rs))
    };
    let (version, v) = [(TransactionVersion::Mainnet, 0u8), (TransactionVersion::Testnet, 0x80)][choose(2)];
    let (chain_id, chain) = [(ChainID::Mainnet, 1u32), (ChainID::Testnet, 0x8000_0000)][choose(2)];
    let (anchor_mode, anchor) = [(AnchorMode::Strict, 1u8), (AnchorMode::Micro, 2), (AnchorMode::Any, 3)][choose(3)];
    let (pm, pmode) = [(PostConditionMode::Allow, 1u8), (PostConditionMode::Deny, 2)][choose(2)];
    let (conds, cb) = match choose(2) {
        0 => (PostConditions::default(), vec![0; 4]),
        _ => {
            let a = addr_with(26, false);
            let n = any_u64();
            let p = STXPostCondition::new(PrincipalStandard::new(a.text.clone()), n, ConditionCode::LTE);
            let mut o = vec![0, 0, 0, 1, 0, 2, a.version];
            o.extend_from_slice(&a.hash);
            o.push(5);
            be64(n, &mut o);
            (PostConditions::new(vec![Box::new(p)]), o)
        }
    };
    let (p, payload) = call();
    let tx = Transaction::new(version, chain_id, auth, anchor_mode, pm, conds, p);
    let r = RTx { version: v, chain, auth: ra, anchor, pmode, conds: cb, payload };
    let b = enc(&tx, "encode");
    check(bytes_eq(&b, &r.bytes()), "layout");
    check(must(tx.len(), "len") == b.len(), "len");
    check(bytes_eq(must(tx.hash(), "hash").as_bytes(), &sha512_256(&r.bytes())), "transaction-hash");
    check(same_str(&must(tx.hex(), "hex"), &ref_hex(&b)), "hex");
    check(bytes_eq(&enc(&tx.clone(), "encode-clone"), &b), "clone");
    reach("end");
}

// ---- C18: payloads ---------------------------------------------------------------

fn any_principal(full: bool) -> (V, Vec<u8>) {
    let a = any_addr(full);
    let v = match choose(2) {
        0 => V::Std(a),
        _ => V::Con(a, any_ascii(choose(3))),
    };
    let e = reference(&v);
    (v, e)
}
fn transfer(v: &V, amount: u64, memo: &str) -> TokenTransferPayload {
    match v {
        V::Con(a, n) => TokenTransferPayload::new(PrincipalContract::new((a.text.clone(), n.clone())), amount, memo),
        V::Std(a) => TokenTransferPayload::new(PrincipalStandard::new(a.text.clone()), amount, memo),
        _ => loop {},
    }
}
fn memo_case(v: &V, e: &[u8], amount: u64, memo: &str) {
    let p = transfer(v, amount, memo);
    let r = p.encode();
    if memo.len() > 34 {
        check(r.is_err(), "long-memo-refused");
        reach("refused");
        return;
    }
    let b = must(r, "encode");
    let mut want = vec![0];
    want.extend_from_slice(e);
    be64(amount, &mut want);
    want.extend_from_slice(memo.as_bytes());
    want.resize(1 + e.len() + 8 + 34, 0);
    check(bytes_eq(&b, &want), "layout");
    let d = must(TokenTransferPayload::decode(&b), "decode");
    check(d.amount == amount, "amount");
    check(matches(d.address.as_ref(), v), "address");
    check(d.memo.len() >= memo.len() && bytes_eq(&d.memo.as_bytes()[..memo.len()], memo.as_bytes()), "memo");
    check(bytes_eq(&enc(&d, "re-encode"), &b), "re-encode");
    let g = must(<Box<dyn Payload> as Codec>::decode(&b), "decode-any");
    check(bytes_eq(&enc(&g, "re-encode"), &b), "re-encode-any");
    check(ContractCallPayload::decode(&b).is_err(), "other-type-rejected");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c18_transfer() {
    let (v, e) = any_principal(false);
    memo_case(&v, &e, any_u64(), &any_ascii(choose(4)));
}
/// Every memo length up to and beyond the limit.
#[no_mangle]
pub extern "C" fn h_c18_memo() {
    let a = addr_with(22, false);
    let v = V::Std(a);
    let e = reference(&v);
    let n = choose(40);
    let mut s = String::new();
    match choose(4) {
        0 => s = any_ascii(n),
        3 => {
            let w = 2 + n % 3;
            s = any_wide(n, w);
        }
        1 => {
            // the last characters are two bytes each
            while s.len() + 2 <= n {
                s.push('\u{e9}');
            }
            if s.len() < n {
                s.insert(0, 'm');
            }
        }
        _ => {
            while s.len() + 4 <= n {
                s.push('\u{1f600}');
            }
            let k = n - s.len();
            for _ in 0..k {
                s.insert(0, '\0');
            }
        }
    }
    memo_case(&v, &e, any_u64(), &s);
}
fn names_case(contract: String, name: String, args: Vec<V>) {
    let h = any_array::<20>();
    let ver = any_u8();
    let fa = FnArguments::new(args.iter().map(build).collect());
    let p = ContractCallPayload::new(Address::new(Hash160::from(h), ver), contract.as_str(), name.as_str(), fa);
    let r = p.encode();
    if contract.len() > 128 || name.len() > 128 {
        check(r.is_err(), "long-name-refused");
        reach("refused");
        return;
    }
    let b = must(r, "encode");
    let mut want = vec![2, ver];
    want.extend_from_slice(&h);
    ref_name(&contract, &mut want);
    ref_name(&name, &mut want);
    want.extend_from_slice(&(args.len() as u32).to_be_bytes());
    for a in &args {
        ref_encode(a, &mut want);
    }
    check(bytes_eq(&b, &want), "layout");
    let d = must(ContractCallPayload::decode(&b), "decode");
    check(d.address.version == ver, "version");
    check(bytes_eq(d.address.hash.as_bytes(), &h), "hash");
    check(same_str(d.contract.value(), &contract), "contract");
    check(same_str(d.name.value(), &name), "name");
    let got: Vec<Box<dyn Clarity>> = d.args.clone().into_iter().collect();
    check(got.len() == args.len(), "argument-count");
    for (g, a) in got.iter().zip(&args) {
        check(matches(g.as_ref(), a), "argument");
    }
    check(d == p, "equal");
    check(bytes_eq(&enc(&d, "re-encode"), &b), "re-encode");
    let g = must(<Box<dyn Payload> as Codec>::decode(&b), "decode-any");
    check(bytes_eq(&enc(&g, "re-encode"), &b), "re-encode-any");
    check(TokenTransferPayload::decode(&b).is_err(), "other-type-rejected");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c18_call() {
    let c = any_ascii(choose(3));
    let n = any_ascii(choose(3));
    let s = Shape { depth: 1, list: 1, tuple: 1, bytes: 1, principals: false, few: true };
    let args = match choose(bound(3, 4)) {
        0 => vec![],
        1 => vec![any_value(s)],
        2 => vec![any_leaf(s), V::Int(any_i128())],
        _ => vec![any_value(s), any_value(s), V::True],
    };
    names_case(c, n, args);
}
/// Every kind of argument, and many arguments.
#[no_mangle]
pub extern "C" fn h_c18_args() {
    let args = if choose(2) == 0 {
        vec![any_value(Shape { depth: 1, list: 1, tuple: 1, bytes: 1, principals: true, few: false }), V::Buf(any_vec(1))]
    } else {
        let n = [16, 127, 128, 255, 256, 257, 65535, 65536][choose(8)];
        (0..n).map(|i| if i + 1 == n { V::UInt(any_u128()) } else { V::True }).collect()
    };
    names_case("c".to_string(), "f".to_string(), args);
}
#[no_mangle]
pub extern "C" fn h_c18_names() {
    const N: [usize; 20] = [0, 1, 3, 4, 5, 6, 7, 8, 12, 16, 20, 32, 40, 64, 100, 127, 128, 129, 255, 256];
    let (c, n);
    if choose(2) == 0 {
        c = any_ascii(N[choose(20)]);
        n = any_ascii(N[choose(20)]);
    } else {
        let w = 2 + choose(3);
        c = any_wide([1, 128 / w, 128 / w + 1][choose(3)], w);
        n = any_wide([1, 128 / w, 128 / w + 1, 128][choose(4)], 6 - w);
    }
    names_case(c, n, vec![V::Int(any_i128())]);
}
/// Decoding rejects what no payload encodes to.
fn payload_strict(b: &[u8]) {
    let r = <Box<dyn Payload> as Codec>::decode(b);
    match b.first() {
        Some(0) => check(r.is_ok() == TokenTransferPayload::decode(b).is_ok(), "dispatch-transfer"),
        Some(2) => check(r.is_ok() == ContractCallPayload::decode(b).is_ok(), "dispatch-call"),
        _ => check(r.is_err(), "unknown-type-rejected"),
    }
    if let Ok(p) = r {
        // what was accepted is the beginning of the input, up to trailing bytes
        let e = must(p.encode(), "accepted-encodes");
        check(e.len() <= b.len() && bytes_eq(&e, &b[..e.len()]), "canonical");
        reach("accepted");
    } else {
        reach("rejected");
    }
}
#[no_mangle]
pub extern "C" fn h_c18_decode() {
    let mut b = vec![];
    match choose(3) {
        0 => {
            // a call: address, then names and arguments of every shape
            b.push(2);
            b.extend_from_slice(&any_array::<21>());
            if choose(2) == 0 {
                b.extend_from_slice(&any_vec(choose(bound(7, 8))));
            } else {
                b.extend_from_slice(&[1, b'c', 1, b'f', 0, 0, 0]);
                b.extend_from_slice(&any_vec(choose(bound(7, 8))));
            }
        }
        1 => {
            // a transfer to a principal with every amount and memo byte
            b.push(0);
            let (_, e) = any_principal(false);
            b.extend_from_slice(&e);
            b.extend_from_slice(&any_array::<8>());
            let mut m = any_ascii([0, 3, 33, 34, 35][choose(5)]).into_bytes();
            if m.len() >= 33 {
                // arbitrary bytes, not only text
                let at = [m.len(), 0, 16, 31][choose(4)];
                for i in at..m.len().min(at + 2) {
                    m[i] = any_u8();
                }
            }
            b.extend_from_slice(&m);
        }
        _ => b = any_vec(choose(bound(3, 4))),
    }
    payload_strict(&b);
}
/// C03 for payloads: any bytes, any prefix of an encoding, no panic.
#[no_mangle]
pub extern "C" fn h_c03_payload() {
    let b = match choose(4) {
        0 => any_vec(choose(bound(6, 7))),
        1 => {
            let mut b = vec![2];
            b.extend_from_slice(&any_vec(choose(bound(28, 30))));
            b
        }
        2 => {
            let mut b = vec![2];
            b.extend_from_slice(&[7; 21]);
            b.extend_from_slice(&[1, b'c', 1, b'f']);
            b.extend_from_slice(&any_vec(choose(bound(8, 10))));
            b
        }
        _ => {
            // every prefix of a transfer, with an arbitrary memo
            let mut b = vec![0, 5, 26];
            b.extend_from_slice(&[9; 20]);
            b.extend_from_slice(&any_array::<8>());
            let keep = choose(b.len() + 1);
            if keep < b.len() {
                b.truncate(keep);
            } else {
                let n = choose(36);
                let t = choose(4).min(n);
                b.extend_from_slice(&vec![b'm'; n - t]);
                b.extend_from_slice(&any_vec(t));
            }
            b
        }
    };
    let a = TokenTransferPayload::decode(&b).is_ok();
    let c = ContractCallPayload::decode(&b).is_ok();
    let d = <Box<dyn Payload> as Codec>::decode(&b).is_ok();
    observe(&[a as u8, c as u8, d as u8]);
    check(d == (a | c), "dispatch");
    if d {
        reach("accepted");
    } else {
        reach("rejected");
    }
}

// ---- C19: post-conditions ---------------------------------------------------------

const CODES: [(ConditionCode, u8); 7] = [
    (ConditionCode::EQ, 1),
    (ConditionCode::GT, 2),
    (ConditionCode::GTE, 3),
    (ConditionCode::LT, 4),
    (ConditionCode::LTE, 5),
    (ConditionCode::HasNot, 0x10),
    (ConditionCode::Has, 0x11),
];
fn ref_pc_principal(v: &V, o: &mut Vec<u8>) {
    match v {
        V::Std(_) => o.push(2),
        _ => o.push(3),
    }
    let e = reference(v);
    o.extend_from_slice(&e[1..]);
}
/// A post-condition and its reference encoding; `who` is the account.
fn condition(kind: usize, who: &V, code: (ConditionCode, u8)) -> (Box<dyn Condition>, Vec<u8>) {
    let amount = any_u64();
    let mut o = vec![kind as u8];
    ref_pc_principal(who, &mut o);
    macro_rules! with_who {
        (|$p:ident| $e:expr) => {
            match who {
                V::Con(a, n) => {
                    let $p = PrincipalContract::new((a.text.clone(), n.clone()));
                    $e
                }
                V::Std(a) => {
                    let $p = PrincipalStandard::new(a.text.clone());
                    $e
                }
                _ => loop {},
            }
        };
    }
    let c: Box<dyn Condition> = if kind == 0 {
        o.push(code.1);
        be64(amount, &mut o);
        with_who!(|p| Box::new(STXPostCondition::new(p, amount, code.0)))
    } else {
        let at = addr_with(21, false);
        let cn = any_ascii(choose(2));
        let an = any_ascii(choose(3));
        let info = AssetInfo::new(at.text.clone(), cn.clone(), an.clone());
        o.push(at.version);
        o.extend_from_slice(&at.hash);
        ref_name(&cn, &mut o);
        ref_name(&an, &mut o);
        if kind == 1 {
            o.push(code.1);
            be64(amount, &mut o);
            with_who!(|p| Box::new(FungiblePostCondition::new(p, amount, code.0, info)))
        } else {
            let x = any_u128();
            let b = any_vec(choose(3));
            let which = choose(3);
            let v = match which {
                0 => V::UInt(x),
                1 => V::Buf(b.clone()),
                _ => V::Tuple(vec![("id".to_string(), V::UInt(x))]),
            };
            ref_encode(&v, &mut o);
            o.push(code.1);
            match which {
                0 => with_who!(|p| Box::new(NonFungiblePostCondition::new(p, UInt::new(x), code.0, info))),
                1 => with_who!(|p| Box::new(NonFungiblePostCondition::new(p, Buffer::new(b), code.0, info))),
                _ => {
                    let t = Tuple::new(vec![("id".to_string(), Box::new(UInt::new(x)) as Box<dyn Clarity>)]);
                    with_who!(|p| Box::new(NonFungiblePostCondition::new(p, t, code.0, info)))
                }
            }
        }
    };
    (c, o)
}
fn some_principal() -> V {
    let a = addr_with(VERSIONS[choose(2)], false);
    match choose(3) {
        0 => V::Std(a),
        n => V::Con(a, any_ascii(n - 1)),
    }
}
#[no_mangle]
pub extern "C" fn h_c19_one() {
    let kind = choose(3);
    let who = some_principal();
    let (c, want) = condition(kind, &who, CODES[choose(7)]);
    let b = enc(c.as_ref(), "encode");
    check(bytes_eq(&b, &want), "layout");
    let all = enc(&PostConditions::new(vec![c]), "encode-list");
    let mut w = vec![0, 0, 0, 1];
    w.extend_from_slice(&want);
    check(bytes_eq(&all, &w), "list");
    reach("end");
}
/// Tokens named by values of every kind and size.
#[no_mangle]
pub extern "C" fn h_c19_token() {
    let v = match choose(4) {
        0 => any_leaf(Shape { depth: 0, list: 1, tuple: 2, bytes: 3, principals: true, few: false }),
        1 => any_container(Shape { depth: bound(1, 2), list: 2, tuple: 2, bytes: 1, principals: false, few: true }),
        2 => V::Buf(any_sparse(any_size(70_000))),
        _ => {
            let n = any_size(600);
            let a = any_sparse_text(n);
            match choose(3) {
                0 => V::Ascii(a),
                1 => V::Utf8(a),
                _ => V::Tuple(vec![("owner".to_string(), V::Std(addr_with(22, false))), ("uri".to_string(), V::Ascii(a)), ("n".to_string(), V::UInt(any_u128()))]),
            }
        }
    };
    let a = addr_with(22, false);
    let (code, c) = CODES[5 + choose(2)];
    let info = AssetInfo::new(a.text.clone(), "nft".to_string(), "token".to_string());
    let mut p = NonFungiblePostCondition::new(PrincipalStandard::new(a.text.clone()), UInt::new(0), code, info);
    p.name = build(&v);
    let who = V::Std(a);
    let mut o = vec![2];
    ref_pc_principal(&who, &mut o);
    o.extend_from_slice(&reference(&who)[1..]);
    ref_name("nft", &mut o);
    ref_name("token", &mut o);
    ref_encode(&v, &mut o);
    o.push(c);
    check(bytes_eq(&enc(&p, "encode"), &o), "layout");
    reach("end");
}
/// Several: the count, then each in the order given.
/// The macro builds the conditions it lists, in order.
#[no_mangle]
pub extern "C" fn h_c19_macro() {
    use stacks_rs::post_condition;
    let who = V::Std(addr_with(26, false));
    let (x, y) = (any_u64(), any_u64());
    let u = any_u128();
    let p = || PrincipalStandard::new(who_text(&who));
    let info = || AssetInfo::new(who_text(&who), "a".to_string(), "b".to_string());
    let asset = |o: &mut Vec<u8>| {
        o.extend_from_slice(&reference(&who)[1..]);
        ref_name("a", o);
        ref_name("b", o);
    };
    let mut stx = vec![0];
    ref_pc_principal(&who, &mut stx);
    stx.push(4);
    be64(x, &mut stx);
    let mut ft = vec![1];
    ref_pc_principal(&who, &mut ft);
    asset(&mut ft);
    ft.push(1);
    be64(y, &mut ft);
    let mut nft = vec![2];
    ref_pc_principal(&who, &mut nft);
    asset(&mut nft);
    ref_encode(&V::UInt(u), &mut nft);
    nft.push(0x11);
    let (got, parts): (PostConditions, Vec<&Vec<u8>>) = match choose(4) {
        0 => (post_condition!(), vec![]),
        1 => (post_condition!((STXCondition, p(), x, ConditionCode::LT)), vec![&stx]),
        2 => (
            post_condition!(
                (FungibleCondition, p(), y, ConditionCode::EQ, info()),
                (STXCondition, p(), x, ConditionCode::LT),
                (NonFungibleCondition, p(), UInt::new(u), ConditionCode::Has, info()),
            ),
            vec![&ft, &stx, &nft],
        ),
        _ => (
            PostConditions::new(vec![
                post_condition!(NonFungibleCondition, p(), UInt::new(u), ConditionCode::Has, info()),
                post_condition!(FungibleCondition, p(), y, ConditionCode::EQ, info()),
            ]),
            vec![&nft, &ft],
        ),
    };
    let mut o = (parts.len() as u32).to_be_bytes().to_vec();
    for x in parts {
        o.extend_from_slice(x);
    }
    check(bytes_eq(&enc(&got, "encode"), &o), "macro");
    check(bytes_eq(&enc(&got.clone(), "encode"), &o), "clone");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c19_many() {
    let n = choose(bound(4, 5));
    let mut l = vec![];
    let mut w = (n as u32).to_be_bytes().to_vec();
    for i in 0..n {
        let who = V::Std(addr_with(26, false));
        let kind = if i < 2 { choose(3).min(1) } else { 0 };
        let (c, o) = if kind == 0 {
            condition(0, &who, CODES[i])
        } else {
            let am = any_u64();
            let info = AssetInfo::new(who_text(&who), "a".to_string(), "b".to_string());
            let mut o = vec![1];
            ref_pc_principal(&who, &mut o);
            o.extend_from_slice(&reference(&who)[1..]);
            ref_name("a", &mut o);
            ref_name("b", &mut o);
            o.push(2);
            be64(am, &mut o);
            let c: Box<dyn Condition> = Box::new(FungiblePostCondition::new(PrincipalStandard::new(who_text(&who)), am, ConditionCode::GT, info));
            (c, o)
        };
        l.push(c);
        w.extend_from_slice(&o);
    }
    let p = PostConditions::new(l);
    check(bytes_eq(&enc(&p, "encode"), &w), "list");
    check(bytes_eq(&enc(&p.clone(), "encode-clone"), &w), "clone");
    check(p.into_iter().count() == n, "count");
    reach("end");
}
fn who_text(v: &V) -> String {
    match v {
        V::Std(a) | V::Con(a, _) => a.text.clone(),
        _ => loop {},
    }
}
/// 300 conditions: the count takes more than one byte.
/// A condition that encodes to one byte.
#[derive(Clone, Debug)]
struct Plain;
impl Codec for Plain {
    fn encode(&self) -> Result<Vec<u8>, stacks_rs::clarity::Error> {
        Ok(vec![0x77])
    }
    fn decode(_: &[u8]) -> Result<Self, stacks_rs::clarity::Error> {
        Ok(Plain)
    }
}
impl Condition for Plain {}
#[no_mangle]
pub extern "C" fn h_c19_count() {
    if choose(4) == 3 {
        // more than 16 bits count, of a condition of our own
        let n = 65535 + choose(3);
        let l: Vec<Box<dyn Condition>> = (0..n).map(|_| Box::new(Plain) as Box<dyn Condition>).collect();
        let mut r = (n as u32).to_be_bytes().to_vec();
        r.resize(4 + n, 0x77);
        check(bytes_eq(&enc(&PostConditions::new(l), "encode-list"), &r), "crowd");
        reach("end");
        return;
    }
    let n = [255usize, 256, 300][choose(3)];
    let a = addr_with(22, false);
    let c = STXPostCondition::new(PrincipalStandard::new(a.text.clone()), any_u64(), ConditionCode::EQ);
    let one = enc(&c, "encode");
    let l: Vec<Box<dyn Condition>> = (0..n).map(|_| Box::new(c.clone()) as Box<dyn Condition>).collect();
    let b = enc(&PostConditions::new(l), "encode-list");
    check(b.len() == 4 + n * one.len(), "length");
    check(b[..4] == (n as u32).to_be_bytes(), "count");
    for i in 0..n {
        check(bytes_eq(&b[4 + i * one.len()..4 + (i + 1) * one.len()], &one), "element");
    }
    reach("end");
}
/// The account of a condition has to be a principal with a valid address.
#[no_mangle]
pub extern "C" fn h_c19_refused() {
    let good = addr_with(22, false);
    let info = AssetInfo::new(good.text.clone(), "c".to_string(), "a".to_string());
    let kind = choose(3);
    macro_rules! with {
        ($x:expr) => {
            match kind {
                0 => STXPostCondition::new($x, any_u64(), ConditionCode::EQ).encode(),
                1 => FungiblePostCondition::new($x, any_u64(), ConditionCode::EQ, info).encode(),
                _ => NonFungiblePostCondition::new($x, UInt::new(any_u128()), ConditionCode::Has, info).encode(),
            }
        };
    }
    let r = match choose(8) {
        0 => with!(UInt::new(any_u128())),
        1 => with!(StringAscii::new(good.text.clone())),
        2 => with!(LengthPrefixedStr::new(good.text.clone())),
        3 => with!(OptionalSome::new(Box::new(PrincipalStandard::new(good.text.clone())))),
        4 => with!(PrincipalStandard::new(any_ascii(choose(3)))),
        5 => with!(PrincipalContract::new((any_ascii(choose(3)), "c".to_string()))),
        6 => with!(PrincipalContract::new((good.text.clone(), "n".repeat(129)))),
        _ => {
            let mut t = good.text.clone().into_bytes();
            t.pop();
            let t = String::from_utf8(t).unwrap_or_default();
            assume(c32_address_decode(t.clone()).is_err());
            with!(PrincipalStandard::new(t))
        }
    };
    check(r.is_err(), "refused");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c19_asset() {
    let a = any_addr(true);
    const N: [usize; 5] = [0, 1, 128, 129, 255];
    let (c, n) = if choose(2) == 0 {
        (any_ascii(N[choose(5)]), any_ascii(N[choose(5)]))
    } else {
        let w = 2 + choose(3);
        (any_wide([1, 128 / w, 128 / w + 1][choose(3)], w), any_wide([1, 128 / w, 128 / w + 1, 127][choose(4)], 6 - w))
    };
    let (i, j) = (c.len(), n.len());
    let r = AssetInfo::new(a.text.clone(), c.clone(), n.clone()).encode();
    if i > 128 || j > 128 {
        check(r.is_err(), "long-name-refused");
        reach("refused");
        return;
    }
    let mut o = vec![a.version];
    o.extend_from_slice(&a.hash);
    ref_name(&c, &mut o);
    ref_name(&n, &mut o);
    check(bytes_eq(&must(r, "encode"), &o), "layout");
    reach("end");
}

// ---- C20: what is signed -----------------------------------------------------------

#[no_mangle]
pub extern "C" fn h_c20_step() {
    let h = any_array::<32>();
    let (typ, fee, nonce) = (any_u8(), any_u64(), any_u64());
    let sh = SignatureHash::from(h);
    let pre = presign(&h, typ, fee, nonce);
    check(bytes_eq(SignatureHash::make_presign_hash(sh, typ, fee, nonce).as_bytes(), &pre), "presign");
    let s = any_array::<65>();
    check(bytes_eq(SignatureHash::make_postsign_hash(sh, MessageSignature::from(s)).as_bytes(), &postsign(&h, &s)), "postsign");
    let k = any_key();
    let (sig, next) = ref_sign(&h, typ, fee, nonce, &k);
    let (rs, rn) = must(SignatureHash::next_signature(sh, typ, fee, nonce, k), "next-signature");
    check(bytes_eq(rs.as_bytes(), &sig), "signature");
    check(bytes_eq(rn.as_bytes(), &next), "next-hash");
    let (pk, vn) = must(SignatureHash::next_verify(sh, typ, fee, nonce, rs), "next-verify");
    check(bytes_eq(&pk.serialize(), &public(&k).serialize()), "recovered-key");
    check(bytes_eq(vn.as_bytes(), &next), "verify-next-hash");
    reach("end");
}
/// Verification step on an arbitrary signature agrees with the reference.
#[no_mangle]
pub extern "C" fn h_c20_verify_step() {
    let h = any_array::<32>();
    let (typ, fee, nonce) = (any_u8(), any_u64(), any_u64());
    let s = any_array::<65>();
    let r = SignatureHash::next_verify(SignatureHash::from(h), typ, fee, nonce, MessageSignature::from(s));
    match ref_recover(&h, typ, fee, nonce, &s) {
        None => {
            check(r.is_err(), "rejected");
            reach("rejected");
        }
        Some((pk, next)) => {
            let (p, n) = must(r, "accepted");
            check(bytes_eq(&p.serialize(), &pk.serialize()), "key");
            check(bytes_eq(n.as_bytes(), &next), "next");
            reach("accepted");
        }
    }
}
/// Signing starts from the hash of the transaction with a cleared authorization,
/// whatever fees, nonces and signatures it carries.
#[no_mangle]
pub extern "C" fn h_c20_initial() {
    let (a, ra) = any_auth(1);
    let (tx, r) = tx_with(a, ra);
    let before = r.bytes();
    let s = must(TransactionSigner::new(tx), "signer");
    check(bytes_eq(s.hash.as_bytes(), &r.initial()), "initial-hash");
    check(bytes_eq(&enc(&s.tx, "encode"), &before), "transaction-unchanged");
    reach("end");
}
/// A transaction of up to 70000 bytes in its payload, or many post-conditions.
fn large_tx() -> (Transaction, RTx, SecretKey) {
    let k = any_key();
    let (c, rc) = single(&public(&k), choose(2) == 1, any_u64(), any_u64());
    let (mut tx, mut r) = tx_with(Auth::Standard(Box::new(c)), RAuth::Std(rc));
    if choose(3) < 2 {
        let b = any_sparse([300usize, 1000, 4096, 8200, 16384, 32768, 65536, 70000][choose(8)]);
        let (p, o) = large_call(&b);
        tx.payload = p;
        r.payload = o;
    } else {
        let n = [8u32, 16, 17, 64, 255, 256, 257, 1000][choose(8)];
        let a = addr_with(26, false);
        let mut v: Vec<Box<dyn Condition>> = vec![];
        r.conds = n.to_be_bytes().to_vec();
        for i in 0..n {
            let x = if i == 0 || i + 1 == n { any_u64() } else { u64::from(i) };
            v.push(Box::new(STXPostCondition::new(PrincipalStandard::new(a.text.clone()), x, ConditionCode::GT)));
            r.conds.extend_from_slice(&[0, 2, a.version]);
            r.conds.extend_from_slice(&a.hash);
            r.conds.push(2);
            be64(x, &mut r.conds);
        }
        tx.post_conditions = PostConditions::new(v);
    }
    (tx, r, k)
}
fn large_call(b: &[u8]) -> (Box<dyn Payload>, Vec<u8>) {
    let h = [7u8; 20];
    let p = ContractCallPayload::new(Address::new(Hash160::from(h), 22), "c", "fn", FnArguments::new(vec![Box::new(Buffer::new(b.to_vec()))]));
    let mut o = vec![2, 22];
    o.extend_from_slice(&h);
    ref_name("c", &mut o);
    ref_name("fn", &mut o);
    o.extend_from_slice(&[0, 0, 0, 1]);
    ref_encode(&V::Buf(b.to_vec()), &mut o);
    (Box::new(p), o)
}
#[no_mangle]
pub extern "C" fn h_c20_large() {
    let (tx, mut r, k) = large_tx();
    let mut s = must(TransactionSigner::new(tx), "signer");
    let h = r.initial();
    check(bytes_eq(s.hash.as_bytes(), &h), "initial-hash");
    let o = r.auth.origin();
    let (sig, next) = ref_sign(&h, 4, o.fee, o.nonce, &k);
    check(s.sign_origin(k).is_ok(), "sign-origin");
    check(bytes_eq(s.hash.as_bytes(), &next), "chain");
    r.auth.origin_mut().put(true, &sig);
    check(bytes_eq(&enc(&s.tx, "encode"), &r.bytes()), "signed");
    reach("end");
}
/// One transaction after another, alike but for one part.
#[no_mangle]
pub extern "C" fn h_c20_twice() {
    let k = any_key();
    let (c, rc) = single(&public(&k), choose(2) == 1, any_u64(), any_u64());
    let (mut tx, mut r) = tx_with(Auth::Standard(Box::new(c)), RAuth::Std(rc));
    for _ in 0..2 {
        let a = addr_with(26, false);
        let n = any_u64();
        tx.post_conditions = PostConditions::new(vec![Box::new(STXPostCondition::new(PrincipalStandard::new(a.text.clone()), n, ConditionCode::GT))]);
        r.conds = vec![0, 0, 0, 1, 0, 2, a.version];
        r.conds.extend_from_slice(&a.hash);
        r.conds.push(2);
        be64(n, &mut r.conds);
        match choose(7) {
            0 => (),
            1 => {
                tx.version = TransactionVersion::Mainnet;
                r.version = 0;
            }
            2 => {
                tx.chain_id = ChainID::Mainnet;
                r.chain = 1;
            }
            3 => {
                tx.anchor_mode = AnchorMode::Strict;
                r.anchor = 1;
            }
            4 => {
                tx.post_condition_mode = PostConditionMode::Allow;
                r.pmode = 1;
            }
            5 => {
                let (p, b) = call();
                tx.payload = p;
                r.payload = b;
            }
            _ => {
                let x = any_u64();
                tx.set_nonce(x);
                r.auth.origin_mut().nonce = x;
            }
        }
        let mut s = must(TransactionSigner::new(tx.clone()), "signer");
        let h = r.initial();
        check(bytes_eq(s.hash.as_bytes(), &h), "initial-hash");
        let o = r.auth.origin();
        let (sig, next) = ref_sign(&h, 4, o.fee, o.nonce, &k);
        check(s.sign_origin(k).is_ok(), "sign-origin");
        check(bytes_eq(s.hash.as_bytes(), &next), "chain");
        let mut w = r.clone();
        w.auth.origin_mut().put(true, &sig);
        let t = s.transaction();
        check(bytes_eq(&enc(&t, "encode"), &w.bytes()), "signed-transaction");
        check(bytes_eq(must(t.hash(), "hash").as_bytes(), &sha512_256(&w.bytes())), "transaction-hash");
    }
    reach("end");
}
/// The whole chain: each signature signs the reference chain.
#[no_mangle]
pub extern "C" fn h_c20_chain() {
    let n = 1 + choose(bound(2, 3));
    let ks: Vec<SecretKey> = (0..n).map(|_| any_key()).collect();
    let pks: Vec<PublicKey> = ks.iter().map(public).collect();
    let (c, rc): Pair = if choose(2) == 0 {
        let (c, r) = multi(&pks, n, choose(2) == 1, any_u64(), any_u64());
        (Box::new(c), r)
    } else {
        let (c, r) = single(&pks[0], choose(2) == 1, any_u64(), any_u64());
        (Box::new(c), r)
    };
    let sponsored = choose(2) == 1;
    let q = 1 + choose(2);
    let sks: Vec<SecretKey> = (0..if sponsored { q } else { 0 }).map(|_| any_key()).collect();
    let (a, ra) = if sponsored {
        let (s, rs): Pair = if q == 1 {
            let (s, rs) = single(&public(&sks[0]), choose(2) == 1, any_u64(), any_u64());
            (Box::new(s), rs)
        } else {
            let p: Vec<PublicKey> = sks.iter().map(public).collect();
            let (s, rs) = multi(&p, q, choose(2) == 1, any_u64(), any_u64());
            (Box::new(s), rs)
        };
        (Auth::Sponsored(c, s), RAuth::Spo(rc, rs))
    } else {
        assume(q == 1);
        (Auth::Standard(c), RAuth::Std(rc))
    };
    let (tx, mut r) = tx_with(a, ra);
    let mut h = r.initial();
    let mut s = must(TransactionSigner::new(tx), "signer");
    let m = if r.auth.origin().multi() { n } else { 1 };
    for k in ks.iter().take(m) {
        let (sig, next) = ref_sign(&h, 4, r.auth.origin().fee, r.auth.origin().nonce, k);
        r.auth.origin_mut().put(true, &sig);
        h = next;
        check(s.sign_origin(*k).is_ok(), "sign-origin");
        check(bytes_eq(s.hash.as_bytes(), &h), "chain");
    }
    for sk in &sks {
        if let RAuth::Spo(_, sp) = &mut r.auth {
            let (sig, next) = ref_sign(&h, 5, sp.fee, sp.nonce, sk);
            sp.put(true, &sig);
            h = next;
        }
        check(s.sign_sponsor(*sk).is_ok(), "sign-sponsor");
        check(bytes_eq(s.hash.as_bytes(), &h), "chain-sponsor");
    }
    check(bytes_eq(&enc(&s.transaction(), "encode"), &r.bytes()), "signed-transaction");
    reach("end");
}

// ---- C21: what was signed verifies ---------------------------------------------------

fn accepted(tx: &Transaction) {
    let h = must(TransactionSigner::new(tx.clone()), "signer").hash;
    check(tx.auth.verify(h).is_ok(), "verified");
    check(tx.auth.verify_origin(h).is_ok(), "origin-verified");
}
#[no_mangle]
pub extern "C" fn h_c21_single() {
    let k = any_key();
    let (c, r) = single(&public(&k), choose(2) == 1, any_u64(), any_u64());
    let (tx, _) = tx_with(Auth::Standard(Box::new(c)), RAuth::Std(r));
    let tx = must(tx.sign(k), "sign");
    accepted(&tx);
    reach("end");
}
fn sign_multi(s: &mut TransactionSigner, ks: &[SecretKey], required: usize) {
    // which keys sign: every subset of the required size, in key order
    let mut left = required;
    for (i, k) in ks.iter().enumerate() {
        let rest = ks.len() - i;
        let sign = if left == 0 {
            false
        } else if left == rest {
            true
        } else {
            choose(2) == 1
        };
        if sign {
            check(s.sign_origin(*k).is_ok(), "sign-origin");
            left -= 1;
        } else {
            check(s.append_origin(public(k)).is_ok(), "append-origin");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c21_multi() {
    let n = 1 + choose(bound(3, 4));
    let r = choose(n + 1);
    let ks: Vec<SecretKey> = (0..n).map(|_| any_key()).collect();
    let pks: Vec<PublicKey> = ks.iter().map(public).collect();
    let (c, rc) = multi(&pks, r, choose(2) == 1, any_u64(), any_u64());
    let (tx, _) = tx_with(Auth::Standard(Box::new(c)), RAuth::Std(rc));
    let mut s = must(TransactionSigner::new(tx), "signer");
    sign_multi(&mut s, &ks, r);
    accepted(&s.transaction());
    reach("end");
}
/// Many keys: the first, the last or every other one signs.
#[no_mangle]
pub extern "C" fn h_c21_many() {
    let n = [5usize, 8, 16, 17, 20, 64, 100, 175][choose(8)];
    // three different keys, over and over
    let ks: Vec<SecretKey> = (0..n).map(|i| must(SecretKey::from_slice(&[i as u8 % 3 + 1; 32]), "key")).collect();
    let three: Vec<PublicKey> = ks[..3].iter().map(public).collect();
    let pks: Vec<PublicKey> = (0..n).map(|i| three[i % 3]).collect();
    let which = if n <= bound(8, 16) { choose(5) } else { choose(2) };
    let signs = |i: usize| match which {
        0 => i + 1 >= n,
        1 => i == 0 || i == n / 2,
        2 => i % 2 == 0,
        3 => i < n / 2,
        _ => true,
    };
    let r = (0..n).filter(|i| signs(*i)).count();
    let (c, rc) = multi(&pks, r, choose(2) == 1, any_u64(), any_u64());
    let (tx, _) = tx_with(Auth::Standard(Box::new(c)), RAuth::Std(rc));
    let mut s = must(TransactionSigner::new(tx), "signer");
    for (i, k) in ks.iter().enumerate() {
        if signs(i) {
            check(s.sign_origin(*k).is_ok(), "sign-origin");
        } else {
            check(s.append_origin(pks[i]).is_ok(), "append-origin");
        }
    }
    accepted(&s.transaction());
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c21_sponsored() {
    let multi_origin = choose(2) == 1;
    let wide = choose(2) == 1;
    let n = if multi_origin { 2 } else { 1 };
    let ks: Vec<SecretKey> = (0..n).map(|_| any_key()).collect();
    let pks: Vec<PublicKey> = ks.iter().map(public).collect();
    let (c, rc): Pair = if multi_origin {
        let (c, r) = multi(&pks, 1, wide, any_u64(), any_u64());
        (Box::new(c), r)
    } else {
        let (c, r) = single(&pks[0], wide, any_u64(), any_u64());
        (Box::new(c), r)
    };
    let sk = any_key();
    let sk2 = any_key();
    let multi_sponsor = choose(2) == 1;
    let (sp, rsp): Pair = if multi_sponsor {
        let (c, r) = multi(&[public(&sk), public(&sk2)], 2, choose(2) == 1, any_u64(), any_u64());
        (Box::new(c), r)
    } else {
        let (c, r) = single(&public(&sk), choose(2) == 1, any_u64(), any_u64());
        (Box::new(c), r)
    };
    // one session, or the sponsor signs later what it received
    let later = choose(2) == 1;
    let first: Box<dyn SpendingCondition> = if later { Box::<SpendingConditionStandard>::default() } else { sp.clone() };
    let (tx, _) = tx_with(Auth::Sponsored(c, first), RAuth::Spo(rc, rsp));
    let mut s = must(TransactionSigner::new(tx), "signer");
    if multi_origin {
        sign_multi(&mut s, &ks, 1);
    } else {
        check(s.sign_origin(ks[0]).is_ok(), "sign-origin");
    }
    if later {
        let tx = s.transaction();
        s = must(TransactionSigner::new_sponser(&tx, sp), "new-sponsor");
    }
    check(s.sign_sponsor(sk).is_ok(), "sign-sponsor");
    if multi_sponsor {
        check(s.sign_sponsor(sk2).is_ok(), "sign-sponsor-2");
    }
    accepted(&s.transaction());
    reach("end");
}

// ---- C22: nothing else verifies --------------------------------------------------------

fn verify_case(c: Box<dyn SpendingCondition>, r: &RCond) {
    let h = any_array::<32>();
    if let RKind::Multi(_, q) = &r.kind {
        // more signatures than required: not decided here
        assume(r.sigs() <= usize::from(*q));
    }
    let typ = [4u8, 5, 0][choose(3)];
    let got = c.verify(SignatureHash::from(h), typ);
    match ref_verify(r, &h, typ) {
        Some(next) => {
            let n = must(got, "valid-accepted");
            check(bytes_eq(n.as_bytes(), &next), "next-hash");
            reach("accepted");
        }
        None => {
            check(got.is_err(), "invalid-rejected");
            reach("rejected");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c22_single() {
    let (c, r) = any_single(choose(2) == 1);
    verify_case(c, &r);
}
#[no_mangle]
pub extern "C" fn h_c22_multi() {
    let (c, r) = any_multi(bound(2, 3), bound(2, 3));
    verify_case(c, &r);
}
/// The same condition over one digest and then another.
#[no_mangle]
pub extern "C" fn h_c22_twice() {
    let (c, r) = if choose(2) == 0 { any_single(choose(2) == 1) } else { any_multi(1, 1) };
    if let RKind::Multi(_, q) = &r.kind {
        assume(r.sigs() <= usize::from(*q));
    }
    let (h, g) = (any_array::<32>(), any_array::<32>());
    for (x, t) in [(h, 4), (g, 4), (h, 5)] {
        let got = c.verify(SignatureHash::from(x), t);
        match ref_verify(&r, &x, t) {
            Some(next) => {
                let n = must(got, "valid-accepted");
                check(bytes_eq(n.as_bytes(), &next), "next-hash");
                reach("accepted");
            }
            None => {
                check(got.is_err(), "invalid-rejected");
                reach("rejected");
            }
        }
    }
}
/// A rightly signed condition of several keys in which one field is replaced,
/// dropped, doubled or moved.
#[no_mangle]
pub extern "C" fn h_c22_tamper() {
    let n = 2 + choose(bound(2, 3));
    let ks: Vec<SecretKey> = (0..n).map(|_| any_key()).collect();
    let pks: Vec<PublicKey> = ks.iter().map(public).collect();
    let r = 1 + choose(n);
    let (mut c, mut rc) = multi(&pks, r, choose(2) == 1, any_u64(), any_u64());
    let h0 = any_array::<32>();
    let mut h = h0;
    let mut f: Vec<(bool, Vec<u8>)> = vec![];
    for (i, k) in ks.iter().enumerate() {
        if i < r {
            let (sig, next) = ref_sign(&h, 4, rc.fee, rc.nonce, k);
            h = next;
            f.push((true, sig.to_vec()));
        } else {
            f.push((false, pks[i].serialize().to_vec()));
        }
    }
    let at = choose(n);
    match choose(6) {
        0 => (),
        1 => f[at] = (true, any_vec(65)),
        2 => f[at] = (false, public(&any_key()).serialize().to_vec()),
        3 => {
            f.remove(at);
        }
        4 => {
            let x = f[at].clone();
            f.push(x);
        }
        _ => f.swap(0, at),
    }
    for (sig, b) in &f {
        let m = if *sig {
            Modification::AddSignature(must(MessageSignature::from_slice(b), "sig"))
        } else {
            Modification::AddPublicKey(must(PublicKey::from_slice(b), "key"))
        };
        check(c.modify(m).is_ok(), "modify");
        rc.put(*sig, b);
    }
    assume(rc.sigs() <= r);
    let got = c.verify(SignatureHash::from(h0), 4);
    match ref_verify(&rc, &h0, 4) {
        Some(next) => {
            check(bytes_eq(must(got, "valid-accepted").as_bytes(), &next), "next-hash");
            reach("accepted");
        }
        None => {
            check(got.is_err(), "invalid-rejected");
            reach("rejected");
        }
    }
}
/// Exactly the keys of the account, one of the signatures replaced by anything.
/// Many keys of which one or two sign: enough, or too few.
#[no_mangle]
pub extern "C" fn h_c22_many() {
    let n = [3usize, 4, 8, 15, 16, 17, 20, 32, 64, 100, 128, 175][choose(12)];
    // three different keys, over and over
    let ks: Vec<SecretKey> = (0..n).map(|i| must(SecretKey::from_slice(&[i as u8 % 3 + 1; 32]), "key")).collect();
    let three: Vec<PublicKey> = ks[..3].iter().map(public).collect();
    let pks: Vec<PublicKey> = (0..n).map(|i| three[i % 3]).collect();
    let signed = 1 + choose(2);
    let r = [signed, signed + 1, n - 1, n][choose(4)];
    let (mut c, mut rc) = multi(&pks, r, choose(2) == 1, any_u64(), any_u64());
    let h0 = any_array::<32>();
    let mut h = h0;
    let from = [0, n - signed][choose(2)];
    for (i, k) in ks.iter().enumerate() {
        let (sig, b) = if i >= from && i < from + signed {
            let (sig, next) = ref_sign(&h, 4, rc.fee, rc.nonce, k);
            h = next;
            (true, sig.to_vec())
        } else {
            (false, pks[i].serialize().to_vec())
        };
        let m = if sig {
            Modification::AddSignature(must(MessageSignature::from_slice(&b), "sig"))
        } else {
            Modification::AddPublicKey(pks[i])
        };
        check(c.modify(m).is_ok(), "add");
        rc.put(sig, &b);
    }
    let got = c.verify(SignatureHash::from(h0), 4);
    if signed == r {
        let x = must(got, "valid-accepted");
        check(bytes_eq(x.as_bytes(), &h), "next-hash");
        reach("accepted");
    } else if signed < r {
        check(got.is_err(), "invalid-rejected");
        reach("rejected");
    }
}
#[no_mangle]
pub extern "C" fn h_c22_auth() {
    let (a, r) = match choose(3) {
        0 => {
            let (c, r) = any_single(true);
            (Auth::Standard(c), RAuth::Std(r))
        }
        1 => {
            let (c, r) = any_single(true);
            let (s, t) = any_single(true);
            (Auth::Sponsored(c, s), RAuth::Spo(r, t))
        }
        _ => {
            let (c, r) = any_multi(1, 1);
            assume(r.sigs() <= r.req());
            let (s, t) = any_single(true);
            (Auth::Sponsored(c, s), RAuth::Spo(r, t))
        }
    };
    let h = any_array::<32>();
    let got = a.verify(SignatureHash::from(h));
    let org = a.verify_origin(SignatureHash::from(h));
    let o = ref_verify(r.origin(), &h, 4);
    match &o {
        Some(n) => check(bytes_eq(must(org, "origin-accepted").as_bytes(), n), "origin-next"),
        None => check(org.is_err(), "origin-rejected"),
    }
    let ok = match (&r, o) {
        (_, None) => false,
        (RAuth::Std(_), Some(_)) => true,
        (RAuth::Spo(_, s), Some(n)) => ref_verify(s, &n, 5).is_some(),
    };
    check(got.is_ok() == ok, "verify");
    if ok {
        reach("accepted");
    } else {
        reach("rejected");
    }
}
/// A signed transaction in which anything that is signed was changed: the digest
/// the signature was made for is not the digest that is verified.
#[no_mangle]
pub extern "C" fn h_c22_changed() {
    let k = any_key();
    let (c, rc) = single(&public(&k), choose(2) == 1, any_u64(), any_u64());
    let (tx, mut r) = tx_with(Auth::Standard(Box::new(c)), RAuth::Std(rc));
    let mut tx = must(tx.sign(k), "sign");
    let (sig, _) = ref_sign(&r.initial(), 4, r.auth.origin().fee, r.auth.origin().nonce, &k);
    r.auth.origin_mut().put(true, &sig);
    match choose(7) {
        0 => {
            let f = any_u64();
            tx.set_fee(f);
            r.auth.origin_mut().fee = f;
        }
        1 => {
            let f = any_u64();
            tx.set_nonce(f);
            r.auth.origin_mut().nonce = f;
        }
        2 => {
            tx.version = TransactionVersion::Mainnet;
            r.version = 0;
        }
        3 => {
            tx.chain_id = ChainID::Mainnet;
            r.chain = 1;
        }
        4 => {
            tx.anchor_mode = AnchorMode::Strict;
            r.anchor = 1;
        }
        5 => {
            tx.post_condition_mode = PostConditionMode::Allow;
            r.pmode = 1;
        }
        _ => {
            let (p, b) = call();
            tx.payload = p;
            r.payload = b;
        }
    }
    let h = must(TransactionSigner::new(tx.clone()), "signer").hash;
    check(bytes_eq(h.as_bytes(), &r.initial()), "digest");
    let want = ref_verify(r.auth.origin(), &r.initial(), 4).is_some();
    check(tx.auth.verify(h).is_ok() == want, "verify");
    if want {
        reach("accepted");
    } else {
        reach("rejected");
    }
}
/// A signed transaction of a large payload of which one byte is changed.
#[no_mangle]
pub extern "C" fn h_c22_large() {
    let k = any_key();
    let (c, rc) = single(&public(&k), choose(2) == 1, any_u64(), any_u64());
    let (mut tx, mut r) = tx_with(Auth::Standard(Box::new(c)), RAuth::Std(rc));
    let mut b = any_sparse([300usize, 1000, 4096, 8200, 16384, 32768, 65536, 70000][choose(8)]);
    let (p, o) = large_call(&b);
    tx.payload = p;
    r.payload = o;
    let mut tx = must(tx.sign(k), "sign");
    let (sig, _) = ref_sign(&r.initial(), 4, r.auth.origin().fee, r.auth.origin().nonce, &k);
    r.auth.origin_mut().put(true, &sig);
    let n = b.len();
    b[[0, n / 2, n - 1][choose(3)]] = any_u8();
    let (p, o) = large_call(&b);
    tx.payload = p;
    r.payload = o;
    let h = must(TransactionSigner::new(tx.clone()), "signer").hash;
    check(bytes_eq(h.as_bytes(), &r.initial()), "digest");
    let want = ref_verify(r.auth.origin(), &r.initial(), 4).is_some();
    check(tx.auth.verify(h).is_ok() == want, "verify");
    if want {
        reach("accepted");
    } else {
        reach("rejected");
    }
}

// ---- C23: the signer's state machine ----------------------------------------------------

fn machine(mut s: TransactionSigner, mut r: RTx, mut h: [u8; 32], mut sponsor_signed: bool, steps: usize) {
    for _ in 0..steps {
        let op = choose(3);
        let (oversign, overlap) = (s.verify_oversign, s.verify_overlap);
        let k = any_key();
        let ok = match op {
            0 => {
                let o = r.auth.origin_mut();
                let ok = !(overlap && sponsor_signed) && !(oversign && o.sigs() >= o.req());
                if ok {
                    let (sig, next) = ref_sign(&h, 4, o.fee, o.nonce, &k);
                    o.put(true, &sig);
                    h = next;
                }
                check(s.sign_origin(k).is_ok() == ok, "sign-origin");
                ok
            }
            1 => {
                let ok = match &mut r.auth {
                    RAuth::Std(_) => false,
                    RAuth::Spo(_, p) => {
                        let ok = !(oversign && p.sigs() >= p.req());
                        if ok {
                            let (sig, next) = ref_sign(&h, 5, p.fee, p.nonce, &k);
                            p.put(true, &sig);
                            h = next;
                            sponsor_signed = true;
                        }
                        ok
                    }
                };
                check(s.sign_sponsor(k).is_ok() == ok, "sign-sponsor");
                ok
            }
            _ => {
                let o = r.auth.origin_mut();
                let ok = !(overlap && sponsor_signed) && o.multi();
                let pk = public(&k);
                if ok {
                    o.put(false, &pk.serialize());
                }
                check(s.append_origin(pk).is_ok() == ok, "append-origin");
                ok
            }
        };
        check(bytes_eq(s.hash.as_bytes(), &h), "hash");
        check(s.origin_signed == sponsor_signed, "origin-closed");
        check(bytes_eq(&enc(&s.tx, "encode"), &r.bytes()), "transaction");
        if ok {
            reach("allowed");
        } else {
            reach("refused");
        }
    }
    check(bytes_eq(&enc(&s.transaction(), "encode"), &r.bytes()), "result");
    reach("end");
}
fn fresh_cond() -> Pair {
    let k = public(&any_key());
    let r = choose(3);
    if r == 0 {
        let (c, r) = single(&k, false, any_u64(), any_u64());
        (Box::new(c), r)
    } else {
        let (c, r) = multi(&[k, public(&any_key())], r, false, any_u64(), any_u64());
        (Box::new(c), r)
    }
}
fn start() -> (TransactionSigner, RTx, [u8; 32]) {
    let (c, rc) = fresh_cond();
    let (a, ra) = if choose(2) == 0 {
        (Auth::Standard(c), RAuth::Std(rc))
    } else {
        let (s, rs) = fresh_cond();
        (Auth::Sponsored(c, s), RAuth::Spo(rc, rs))
    };
    let (tx, r) = tx_with(a, ra);
    let h = r.initial();
    let s = must(TransactionSigner::new(tx), "signer");
    check(!s.origin_signed & s.verify_oversign & s.verify_overlap, "checks-on");
    (s, r, h)
}
/// A 1-of-2, 2-of-2 or 0-of-2 condition carrying very many fields.
fn crowded() -> (SpendingConditionMultiSig, RCond) {
    const N: [usize; 17] = [3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 513];
    let n = N[choose(17)];
    let ks = [public(&any_key()), public(&any_key())];
    let (mut c, mut r) = multi(&ks, choose(3), choose(2) == 1, any_u64(), any_u64());
    let every = [1usize, 2, n + 1][choose(3)];
    for i in 0..n {
        if i % every == 0 && every <= n {
            let mut s = [7u8; 65];
            s[0] = any_u8();
            s[64] = i as u8;
            check(c.modify(Modification::AddSignature(MessageSignature::from(s))).is_ok(), "add-signature");
            r.put(true, &s);
        } else {
            check(c.modify(Modification::AddPublicKey(ks[i % 2])).is_ok(), "add-key");
            r.put(false, &ks[i % 2].serialize());
        }
    }
    (c, r)
}
/// No further signature over very many.
#[no_mangle]
pub extern "C" fn h_c23_many() {
    let (c, rc) = crowded();
    let (a, ra) = if choose(2) == 0 {
        (Auth::Standard(Box::new(c)), RAuth::Std(rc))
    } else {
        let (p, rp) = single(&public(&any_key()), false, 0, 0);
        if choose(2) == 0 {
            (Auth::Sponsored(Box::new(c), Box::new(p)), RAuth::Spo(rc, rp))
        } else {
            (Auth::Sponsored(Box::new(p), Box::new(c)), RAuth::Spo(rp, rc))
        }
    };
    let (tx, r) = tx_with(a, ra);
    let h = r.initial();
    let s = must(TransactionSigner::new(tx), "signer");
    machine(s, r, h, false, 1);
}
#[no_mangle]
pub extern "C" fn h_c23_machine() {
    let (s, r, h) = start();
    machine(s, r, h, false, bound(3, 4));
}
/// With the checks switched off by the caller.
#[no_mangle]
pub extern "C" fn h_c23_unchecked() {
    let (mut s, r, h) = start();
    s.verify_oversign = choose(2) == 1;
    s.verify_overlap = choose(2) == 1;
    machine(s, r, h, false, bound(2, 3));
}
/// Sessions over conditions that already carry something, and signing without one.
#[no_mangle]
pub extern "C" fn h_c23_resumed() {
    let (c, rc) = any_cond(bound(1, 2));
    let (a, ra) = match choose(3) {
        0 => (Auth::Standard(c), RAuth::Std(rc)),
        k => {
            let (p, rp) = any_single(choose(2) == 0);
            if k == 1 {
                (Auth::Sponsored(c, p), RAuth::Spo(rc, rp))
            } else {
                (Auth::Sponsored(p, c), RAuth::Spo(rp, rc))
            }
        }
    };
    let (tx, mut r) = tx_with(a, ra);
    let h = r.initial();
    if choose(2) == 0 {
        let s = must(TransactionSigner::new(tx), "signer");
        machine(s, r, h, false, 1);
        return;
    }
    let k = any_key();
    let o = r.auth.origin_mut();
    let ok = o.sigs() < o.req();
    let got = tx.sign(k);
    check(got.is_ok() == ok, "sign");
    if let Ok(t) = got {
        let (sig, _) = ref_sign(&h, 4, o.fee, o.nonce, &k);
        o.put(true, &sig);
        check(bytes_eq(&enc(&t, "encode"), &r.bytes()), "signed");
        reach("allowed");
    } else {
        reach("refused");
    }
    reach("end");
}
/// A sponsor takes over only a sponsored transaction whose origin verifies.
#[no_mangle]
pub extern "C" fn h_c23_sponsor() {
    let (c, rc) = match choose(3) {
        0 => any_single(true),
        1 => any_single(false),
        _ => any_multi(1, 1),
    };
    assume(rc.sigs() <= rc.req());
    let sponsored = choose(2) == 1;
    let (a, ra) = if sponsored {
        let (p, rp) = single(&public(&any_key()), false, any_u64(), any_u64());
        (Auth::Sponsored(c, Box::new(p)), RAuth::Spo(rc.clone(), rp))
    } else {
        (Auth::Standard(c), RAuth::Std(rc.clone()))
    };
    let (tx, mut r) = tx_with(a, ra);
    let before = r.bytes();
    let (p, rp) = fresh_cond();
    let got = TransactionSigner::new_sponser(&tx, p);
    check(bytes_eq(&enc(&tx, "encode"), &before), "given-transaction-unchanged");
    if !sponsored {
        check(got.is_err(), "standard-refused");
        reach("standard");
        return;
    }
    match ref_verify(&rc, &r.initial(), 4) {
        None => {
            check(got.is_err(), "unsigned-refused");
            reach("unsigned");
        }
        Some(next) => {
            let s = must(got, "signed-accepted");
            check(s.origin_signed & s.verify_oversign & s.verify_overlap, "origin-closed");
            r.auth = RAuth::Spo(rc, rp);
            check(bytes_eq(s.hash.as_bytes(), &next), "hash");
            machine(s, r, next, true, 1);
            reach("accepted");
        }
    }
}

// ---- C24: conditions and authorizations -------------------------------------------------

fn accessors(c: &dyn SpendingCondition, r: &RCond) {
    check(c.fee() == r.fee, "fee");
    check(c.nonce() == r.nonce, "nonce");
    check(c.mode() as u8 == r.mode, "mode");
    check(usize::from(c.req_signatures()) == r.req(), "required");
    check(usize::from(c.signatures()) == r.sigs(), "signatures");
}
#[no_mangle]
pub extern "C" fn h_c24_condition() {
    let (mut c, mut r) = any_cond(bound(2, 3));
    accessors(c.as_ref(), &r);
    check(bytes_eq(&enc(c.as_ref(), "encode"), &r.bytes()), "layout");
    let before = c.clone();
    let rb = r.clone();
    match choose(5) {
        0 => {
            let x = any_u64();
            c.set_fee(x);
            r.fee = x;
        }
        1 => {
            let x = any_u64();
            c.set_nonce(x);
            r.nonce = x;
        }
        2 => {
            c.reset();
            r = r.cleared();
        }
        3 => {
            // a modification of the other kind is refused and changes nothing
            let s = MessageSignature::from(any_array::<65>());
            let k = public(&any_key());
            let (x, y) = if r.multi() {
                (Modification::SetSignature(s), Modification::SetPublicKey(k))
            } else {
                (Modification::AddSignature(s), Modification::AddPublicKey(k))
            };
            check(c.modify(x).is_err(), "modification-refused");
            check(c.modify(y).is_err(), "modification-refused");
            check(c.modify(Modification::SetPublicKey(k)).is_err(), "set-key-refused");
        }
        _ => {
            let s = any_array::<65>();
            let m = MessageSignature::from(s);
            let x = if r.multi() { Modification::AddSignature(m) } else { Modification::SetSignature(m) };
            check(c.modify(x).is_ok(), "modification-accepted");
            r.put(true, &s);
        }
    }
    accessors(c.as_ref(), &r);
    check(bytes_eq(&enc(c.as_ref(), "encode"), &r.bytes()), "only-that");
    check(bytes_eq(&enc(before.as_ref(), "encode-clone"), &rb.bytes()), "clone-independent");
    reach("end");
}
/// Very many fields: counted and encoded one by one.
#[no_mangle]
pub extern "C" fn h_c24_many() {
    let (c, r) = crowded();
    accessors(&c, &r);
    check(bytes_eq(&enc(&c, "encode"), &r.bytes()), "layout");
    let mut d = c.clone();
    d.reset();
    accessors(&d, &r.cleared());
    check(bytes_eq(&enc(&d, "encode-reset"), &r.cleared().bytes()), "reset");
    accessors(&c, &r);
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c24_auth() {
    let (mut a, mut r) = any_auth(1);
    let spo = matches!(r, RAuth::Spo(..));
    check(a.sponsor().is_ok() == spo, "sponsor");
    check(a.sponsor_mut().is_ok() == spo, "sponsor-mut");
    check(bytes_eq(&enc(&a, "encode"), &r.bytes()), "layout");
    if let (Ok(s), RAuth::Spo(_, t)) = (a.sponsor(), &r) {
        accessors(s, t);
    }
    match choose(5) {
        0 => {
            let x = any_u64();
            a.set_fee(x);
            r.origin_mut().fee = x;
        }
        1 => {
            let x = any_u64();
            a.set_nonce(x);
            r.origin_mut().nonce = x;
        }
        2 => {
            let (s, t) = single(&public(&any_key()), choose(2) == 1, any_u64(), any_u64());
            check(a.set_sponsor(Box::new(s)).is_ok() == spo, "set-sponsor");
            if let RAuth::Spo(_, q) = &mut r {
                *q = t;
            }
        }
        3 => {
            a = a.reset();
            r = r.cleared();
        }
        _ => {
            let x = any_u64();
            a.origin_mut().set_fee(x);
            r.origin_mut().fee = x;
            if let (Ok(s), RAuth::Spo(_, t)) = (a.sponsor_mut(), &mut r) {
                s.set_nonce(x);
                t.nonce = x;
            }
        }
    }
    accessors(a.origin(), r.origin());
    check(bytes_eq(&enc(&a, "encode"), &r.bytes()), "only-that");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c24_transaction() {
    let (a, ra) = any_auth(1);
    let (mut tx, mut r) = tx_with(a, ra);
    let keep = tx.clone();
    let before = r.bytes();
    check(bytes_eq(&enc(&tx, "encode"), &before), "layout");
    let (f, n) = (any_u64(), any_u64());
    match choose(3) {
        0 => {
            tx.set_fee(f);
            r.auth.origin_mut().fee = f;
        }
        1 => {
            tx.set_nonce(n);
            r.auth.origin_mut().nonce = n;
        }
        _ => {
            tx.set_fee(f);
            tx.set_nonce(n);
            r.auth.origin_mut().fee = f;
            r.auth.origin_mut().nonce = n;
        }
    }
    check(bytes_eq(&enc(&tx, "encode"), &r.bytes()), "only-that");
    check(bytes_eq(&enc(&keep, "encode-clone"), &before), "clone-independent");
    reach("end");
}
/// A signer hash mode of the other kind is not accepted.
#[no_mangle]
pub extern "C" fn h_c24_default() {
    let d = SpendingConditionStandard::default();
    check(bytes_eq(&enc(&d, "encode"), &sentinel().bytes()), "default");
    accessors(&d, &sentinel());
    reach("end");
}

// ---- C25: builders and networks -----------------------------------------------------------

fn networks() -> (Box<dyn Network>, u8, u32, &'static str) {
    match choose(3) {
        0 => (Box::new(StacksMainnet::new()), 0, 1, "https://api.mainnet.hiro.so"),
        1 => (Box::new(StacksTestnet::new()), 0x80, 0x8000_0000, "https://api.testnet.hiro.so"),
        _ => (Box::new(StacksMocknet::new()), 0x80, 0x8000_0000, "http://localhost:3999"),
    }
}
#[no_mangle]
pub extern "C" fn h_c25_network() {
    let (n, v, c, u) = networks();
    check(n.version() as u8 == v, "version");
    check(n.chain_id() as u32 == c, "chain");
    check(same_str(&n.base_url(), u), "url");
    let m = n.clone();
    check((m.version() as u8 == v) & (m.chain_id() as u32 == c), "clone");
    check((StacksMainnet::default() == StacksMainnet::new()) & (StacksTestnet::default() == StacksTestnet::new()) & (StacksMocknet::default() == StacksMocknet::new()), "default");
    reach("end");
}
/// The fields every built transaction has; `opt`: optional ones given.
struct Opt {
    fee: u64,
    nonce: u64,
    anchor: (AnchorMode, u8),
    pmode: (PostConditionMode, u8),
    conds: PostConditions,
    cb: Vec<u8>,
}
fn options() -> Opt {
    let a = addr_with(26, false);
    let n = any_u64();
    let p = STXPostCondition::new(PrincipalStandard::new(a.text.clone()), n, ConditionCode::GT);
    let mut cb = vec![0, 0, 0, 1, 0, 2, a.version];
    cb.extend_from_slice(&a.hash);
    cb.push(2);
    be64(n, &mut cb);
    Opt {
        fee: any_u64(),
        nonce: any_u64(),
        anchor: [(AnchorMode::Strict, 1u8), (AnchorMode::Micro, 2), (AnchorMode::Any, 3)][choose(3)],
        pmode: [(PostConditionMode::Allow, 1u8), (PostConditionMode::Deny, 2)][choose(2)],
        conds: PostConditions::new(vec![Box::new(p)]),
        cb,
    }
}
macro_rules! each_network {
    (|$n:ident, $v:ident, $c:ident| $e:expr) => {
        match choose(3) {
            0 => {
                let ($n, $v, $c) = (StacksMainnet::new(), 0u8, 1u32);
                $e
            }
            1 => {
                let ($n, $v, $c) = (StacksTestnet::new(), 0x80u8, 0x8000_0000u32);
                $e
            }
            _ => {
                let ($n, $v, $c) = (StacksMocknet::new(), 0x80u8, 0x8000_0000u32);
                $e
            }
        }
    };
}
fn built(tx: &Transaction, k: &SecretKey, v: u8, chain: u32, o: Option<&Opt>, payload: Vec<u8>) {
    let (_, mut rc) = single(&public(k), false, 0, 0);
    let (mut anchor, mut pmode, mut conds) = (3, 1, vec![0; 4]);
    if let Some(o) = o {
        rc.fee = o.fee;
        rc.nonce = o.nonce;
        anchor = o.anchor.1;
        pmode = o.pmode.1;
        conds = o.cb.clone();
    }
    let r = RTx { version: v, chain, auth: RAuth::Std(rc), anchor, pmode, conds, payload };
    check(bytes_eq(&enc(tx, "encode"), &r.bytes()), "transaction");
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_c25_transfer() {
    let k = any_key();
    let to = some_principal();
    let amount = any_u64();
    let with = choose(2) == 1;
    let memo = if with { any_wide(choose(3), 1 + choose(2)) } else { String::new() };
    let mut payload = vec![0];
    ref_encode(&to, &mut payload);
    be64(amount, &mut payload);
    payload.extend_from_slice(memo.as_bytes());
    payload.resize(payload.len() + 34 - memo.len(), 0);
    macro_rules! go {
        ($p:expr) => {
            each_network!(|n, v, c| {
                if with {
                    let o = options();
                    let t = STXTokenTransfer::builder()
                        .recipient($p)
                        .amount(amount)
                        .sender(k)
                        .network(n)
                        .fee(o.fee)
                        .nonce(o.nonce)
                        .anchor_mode(o.anchor.0)
                        .post_condition_mode(o.pmode.0)
                        .post_conditions(o.conds.clone())
                        .memo(memo.clone())
                        .build()
                        .transaction();
                    built(&t, &k, v, c, Some(&o), payload);
                } else {
                    let t = STXTokenTransfer::builder().recipient($p).amount(amount).sender(k).network(n).build().transaction();
                    built(&t, &k, v, c, None, payload);
                }
            })
        };
    }
    match &to {
        V::Con(a, n) => go!(PrincipalContract::new((a.text.clone(), n.clone()))),
        V::Std(a) => go!(PrincipalStandard::new(a.text.clone())),
        _ => {}
    }
}
#[no_mangle]
pub extern "C" fn h_c25_call() {
    let k = any_key();
    let a = any_addr(false);
    let name = any_ascii(choose(3));
    let f = any_ascii(choose(2));
    let x = any_u128();
    let mut payload = vec![2, a.version];
    payload.extend_from_slice(&a.hash);
    ref_name(&name, &mut payload);
    ref_name(&f, &mut payload);
    payload.extend_from_slice(&[0, 0, 0, 1]);
    ref_encode(&V::UInt(x), &mut payload);
    let args = FnArguments::new(vec![Box::new(UInt::new(x))]);
    each_network!(|n, v, c| {
        let b = STXContractCall::builder().address(a.text.clone()).contract(name.clone()).fn_name(f.clone()).fn_args(args).sender(k).network(n);
        if choose(2) == 1 {
            let o = options();
            let t = b
                .fee(o.fee)
                .nonce(o.nonce)
                .anchor_mode(o.anchor.0)
                .post_condition_mode(o.pmode.0)
                .post_conditions(o.conds.clone())
                .build()
                .transaction();
            built(&must(t, "transaction-ok"), &k, v, c, Some(&o), payload);
        } else {
            built(&must(b.build().transaction(), "transaction-ok"), &k, v, c, None, payload);
        }
    });
}
/// Every choice of the optional inputs, with 0-2 conditions, 0-3 arguments and
/// memos and names of several sizes.
#[no_mangle]
pub extern "C" fn h_c25_mix() {
    let k = any_key();
    let a = addr_with(26, false);
    let which = choose(64);
    let pick = |i: usize| which >> i & 1 == 1;
    let (fee, nonce) = (if pick(0) { any_u64() } else { 0 }, if pick(1) { any_u64() } else { 0 });
    let anchor = if pick(2) { [(AnchorMode::Strict, 1u8), (AnchorMode::Micro, 2)][choose(2)] } else { (AnchorMode::Any, 3) };
    let pmode = if pick(3) { (PostConditionMode::Deny, 2u8) } else { (PostConditionMode::Allow, 1) };
    let n = if pick(4) { 1 + choose(2) } else { 0 };
    let mut conds = vec![];
    let mut cb = (n as u32).to_be_bytes().to_vec();
    for _ in 0..n {
        let x = any_u64();
        conds.push(Box::new(STXPostCondition::new(PrincipalStandard::new(a.text.clone()), x, ConditionCode::GT)) as Box<dyn Condition>);
        cb.extend_from_slice(&[0, 2, a.version]);
        cb.extend_from_slice(&a.hash);
        cb.push(2);
        be64(x, &mut cb);
    }
    let conds = PostConditions::new(conds);
    let size = if pick(5) { [1usize, 5, 33, 34][choose(4)] } else { 0 };
    let (_, mut rc) = single(&public(&k), false, fee, nonce);
    rc.fee = fee;
    let r = |payload| RTx { version: 0x80, chain: 0x8000_0000, auth: RAuth::Std(rc.clone()), anchor: anchor.1, pmode: pmode.1, conds: cb.clone(), payload };
    if choose(2) == 0 {
        let amount = any_u64();
        let memo = any_ascii(size);
        let mut t = STXTokenTransfer::builder().recipient(PrincipalStandard::new(a.text.clone())).amount(amount).sender(k).network(StacksTestnet::new()).build();
        t.fee = fee;
        t.nonce = nonce;
        t.anchor_mode = anchor.0;
        t.post_condition_mode = pmode.0;
        t.post_conditions = conds;
        t.memo = memo.clone();
        let mut payload = vec![0];
        ref_encode(&V::Std(a), &mut payload);
        be64(amount, &mut payload);
        payload.extend_from_slice(memo.as_bytes());
        payload.resize(payload.len() + 34 - memo.len(), 0);
        check(bytes_eq(&enc(&t.transaction(), "encode"), &r(payload).bytes()), "transfer");
    } else {
        let name = any_ascii([1, 40, 128][choose(3)]);
        let args: Vec<V> = (0..choose(4)).map(|_| V::UInt(any_u128())).collect();
        let mut payload = vec![2, a.version];
        payload.extend_from_slice(&a.hash);
        ref_name(&name, &mut payload);
        ref_name("f", &mut payload);
        payload.extend_from_slice(&(args.len() as u32).to_be_bytes());
        for x in &args {
            ref_encode(x, &mut payload);
        }
        let mut t = STXContractCall::builder()
            .address(a.text.clone())
            .contract(name)
            .fn_name("f")
            .fn_args(FnArguments::new(args.iter().map(build).collect()))
            .sender(k)
            .network(StacksTestnet::new())
            .build();
        t.fee = fee;
        t.nonce = nonce;
        t.anchor_mode = anchor.0;
        t.post_condition_mode = pmode.0;
        t.post_conditions = conds;
        check(bytes_eq(&enc(&must(t.transaction(), "transaction-ok"), "encode"), &r(payload).bytes()), "call");
    }
    reach("end");
}
/// What is built signs and verifies for the sender.
#[no_mangle]
pub extern "C" fn h_c25_sign() {
    let k = any_key();
    let to = addr_with(26, false);
    let t = STXTokenTransfer::builder()
        .recipient(PrincipalStandard::new(to.text.clone()))
        .amount(any_u64())
        .sender(k)
        .network(StacksTestnet::new())
        .fee(any_u64())
        .nonce(any_u64())
        .build()
        .transaction();
    accepted(&must(t.sign(k), "sign"));
    reach("end");
}
/// One builder after another, with keys that may be alike.
#[no_mangle]
pub extern "C" fn h_c25_twice() {
    let keys = [any_key(), any_key()];
    let to = addr_with(26, false);
    let other = addr_with(22, false);
    for (i, k) in [keys[0], keys[1], keys[0]].into_iter().enumerate() {
        let o = options();
        let a = if i == 1 { &other } else { &to };
        let amount = any_u64();
        let memo = any_ascii(i);
        let mut payload = vec![0];
        ref_encode(&V::Std(a.clone()), &mut payload);
        be64(amount, &mut payload);
        payload.extend_from_slice(memo.as_bytes());
        payload.resize(payload.len() + 34 - memo.len(), 0);
        let t = STXTokenTransfer::builder()
            .recipient(PrincipalStandard::new(a.text.clone()))
            .amount(amount)
            .sender(k)
            .network(StacksTestnet::new())
            .fee(o.fee)
            .nonce(o.nonce)
            .anchor_mode(o.anchor.0)
            .post_condition_mode(o.pmode.0)
            .post_conditions(o.conds.clone())
            .memo(memo)
            .build()
            .transaction();
        built(&t, &k, 0x80, 0x8000_0000, Some(&o), payload);
    }
}
/// Invalid inputs surface as errors when building or encoding.
#[no_mangle]
pub extern "C" fn h_c25_refused() {
    let k = any_key();
    let args = FnArguments::new(vec![]);
    match choose(3) {
        0 => {
            let s = any_ascii(choose(bound(5, 6)));
            let b = STXContractCall::builder().address(s).contract("c").fn_name("f").fn_args(args).sender(k).network(StacksTestnet::new());
            check(b.build().transaction().is_err(), "bad-address");
        }
        1 => {
            let a = addr_with(26, false);
            let t = STXTokenTransfer::builder().recipient(PrincipalStandard::new(a.text)).amount(1).sender(k).network(StacksTestnet::new()).memo("m".repeat(35 + choose(3))).build().transaction();
            check(t.encode().is_err(), "long-memo");
            check(t.sign(k).is_err(), "long-memo-sign");
        }
        _ => {
            let a = addr_with(26, false);
            let mut s = a.text.into_bytes();
            let at = 2 + choose(bound(3, 8));
            let old = s[at];
            s[at] = any_u8();
            assume((s[at] < 128) & (s[at] != old));
            let s = String::from_utf8(s).unwrap_or_default();
            // the checksum of the changed address is another one
            let b = STXContractCall::builder().address(s.clone()).contract("c").fn_name("f").fn_args(args).sender(k).network(StacksTestnet::new());
            let good = c32_address_decode(s).is_ok();
            check(b.build().transaction().is_ok() == good, "changed-address");
        }
    }
    reach("end");
}
