//! Parser for the textual LLVM IR that rustc emits (opaque pointers).
//! Function bodies are parsed lazily.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vector(u64, Rc<Ty>),
    Label,
    Meta,
    Opaque,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// alloc size (stride)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (offs, end) = self.layout();
                let _ = offs;
                let a = self.align();
                (end + a - 1) / a * a
            }
            Ty::Vector(n, t) => {
                let bits = match **t {
                    Ty::Int(w) => w as u64 * n,
                    Ty::Ptr => 64 * n,
                    Ty::Float(w) => w as u64 * n,
                    _ => panic!("vector elem"),
                };
                (bits + 7) / 8
            }
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut v = vec![];
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    v.push(o);
                    o += t.size();
                }
                (v, o)
            }
            _ => panic!("layout"),
        }
    }
    /// bits for a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn elem(&self) -> Ty {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("elem of {self:?}"),
        }
    }
}

/// Constant, before expression interning.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u32, u128),
    Undef(Ty),
    Zero(Ty),
    Agg(Ty, Rc<Vec<Const>>),
    Bytes(Rc<Vec<u8>>),
    Global(Rc<str>),
    Gep(Ty, Box<Const>, Vec<Const>),
    Cast(String, Box<Const>, Ty),
    Bin(String, Box<Const>, Box<Const>),
    Float(u32, u64),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Const(Const),
}
#[derive(Clone, Debug)]
pub struct TOpd {
    pub ty: Ty,
    pub v: Opd,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Opd, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    Cast(CastOp, Ty, Opd, Ty),
    Select(TOpd, Ty, Opd, Opd),
    Load(Ty, Opd),
    Store(TOpd, Opd),
    Alloca(Ty, Option<TOpd>),
    Gep(Ty, TOpd, Vec<TOpd>),
    Call { ret: Ty, callee: Opd, args: Vec<TOpd>, normal: Option<u32> },
    ExtractValue(TOpd, Vec<u32>),
    InsertValue(TOpd, TOpd, Vec<u32>),
    ExtractElement(TOpd, TOpd),
    InsertElement(TOpd, TOpd, TOpd),
    Shuffle(TOpd, TOpd, Vec<i64>),
    Freeze(TOpd),
    AtomicRmw(String, Opd, TOpd),
    CmpXchg(Opd, TOpd, TOpd),
    Fence,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(TOpd, u32, Vec<(u128, u32)>),
    Ret(Option<TOpd>),
    Unreachable,
    LandingPad,
    Resume,
    /// floating point on concrete values: operation or `cmp` predicate, type, operands
    Float(String, Ty, Vec<Opd>),
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Debug)]
pub struct Phi {
    pub dest: u32,
    pub inc: Vec<(Opd, u32)>,
}
#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub ins: Vec<(Option<u32>, Ins)>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub ninstr: usize,
}

pub struct GlobalDef {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    pub text: String,
    pub named: HashMap<String, Ty>,
    /// function name -> byte range of definition
    pub fn_text: HashMap<Rc<str>, (usize, usize)>,
    pub decls: Vec<Rc<str>>,
    pub globals: HashMap<Rc<str>, GlobalDef>,
    pub aliases: HashMap<Rc<str>, Const>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Local(String),
    Global(String),
    Word(&'a str),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Dots,
    Meta(&'a str),
    Attr,
    Label(String),
    Eof,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s.get(i + 1) == Some(&b'\\') {
                o.push(b'\\');
                i += 2;
            } else {
                let h = u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap();
                o.push(h);
                i += 3;
            }
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    tok: T<'a>,
}
fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'$' | b'-')
}
impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), i: 0, tok: T::Eof };
        l.next();
        l
    }
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            String::from_utf8_lossy(&unescape(&self.s[st..j])).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && idch(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn next(&mut self) -> T<'a> {
        let t = self.lex();
        std::mem::replace(&mut self.tok, t)
    }
    fn lex(&mut self) -> T<'a> {
        loop {
            if self.i >= self.s.len() {
                return T::Eof;
            }
            let c = self.s[self.i];
            if c.is_ascii_whitespace() {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                T::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                T::Global(self.name())
            }
            b'!' => {
                self.i += 1;
                let st = self.i;
                while self.i < self.s.len() && (idch(self.s[self.i]) || self.s[self.i] == b'\\') {
                    self.i += 1;
                }
                T::Meta(std::str::from_utf8(&self.s[st..self.i]).unwrap())
            }
            b'#' => {
                self.i += 1;
                while self.i < self.s.len() && idch(self.s[self.i]) {
                    self.i += 1;
                }
                T::Attr
            }
            b'"' => {
                let st = self.i + 1;
                let mut j = st;
                while self.s[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                if self.s.get(self.i) == Some(&b':') {
                    self.i += 1;
                    return T::Label(String::from_utf8_lossy(&unescape(&self.s[st..j])).into_owned());
                }
                T::Str(unescape(&self.s[st..j]))
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                let st = self.i + 2;
                let mut j = st;
                while self.s[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                T::CStr(unescape(&self.s[st..j]))
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                T::Dots
            }
            _ if idch(c) => {
                let st = self.i;
                let num = c.is_ascii_digit() || c == b'-';
                while self.i < self.s.len()
                    && (idch(self.s[self.i]) || (num && self.s[self.i] == b'+' && self.s[self.i - 1] == b'e'))
                {
                    self.i += 1;
                }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                if self.s.get(self.i) == Some(&b':') {
                    self.i += 1;
                    return T::Label(w.to_string());
                }
                T::Word(w)
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
    fn is(&self, p: u8) -> bool {
        self.tok == T::P(p)
    }
    fn eat(&mut self, p: u8) -> bool {
        if self.is(p) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, p: u8) {
        if !self.eat(p) {
            let st = self.i.saturating_sub(200);
            panic!(
                "expected '{}' got {:?} near: {}",
                p as char,
                self.tok,
                String::from_utf8_lossy(&self.s[st..(self.i + 100).min(self.s.len())])
            );
        }
    }
    fn word(&self) -> Option<&'a str> {
        if let T::Word(w) = self.tok {
            Some(w)
        } else {
            None
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_paren(&mut self) {
        // current token is '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::Eof => panic!("eof in paren"),
                _ => {}
            }
        }
    }
}

fn is_ty_word(w: &str) -> bool {
    matches!(
        w,
        "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "opaque" | "x86_mmx" | "fp128" | "x86_fp80"
    ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

struct P<'a, 'm> {
    l: Lex<'a>,
    m: &'m HashMap<String, Ty>,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
}

impl<'a, 'm> P<'a, 'm> {
    fn ty(&mut self) -> Ty {
        let t = match self.l.next() {
            T::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.l.eatw("addrspace") {
                        self.l.skip_paren();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "fp128" | "x86_fp80" => Ty::Float(128),
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" | "opaque" => Ty::Opaque,
                _ if is_ty_word(w) => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type word {w} near {}", self.near()),
            },
            T::P(b'[') => {
                let n: u64 = self.l.word().unwrap().parse().unwrap();
                self.l.next();
                assert!(self.l.eatw("x"));
                let t = self.ty();
                self.l.expect(b']');
                Ty::Array(n, Rc::new(t))
            }
            T::P(b'{') => {
                let f = self.fields();
                Ty::Struct(Rc::new(f), false)
            }
            T::P(b'<') => {
                if self.l.eat(b'{') {
                    let f = self.fields();
                    self.l.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u64 = self.l.word().unwrap().parse().unwrap();
                    self.l.next();
                    assert!(self.l.eatw("x"));
                    let t = self.ty();
                    self.l.expect(b'>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            T::Local(n) => self.m.get(&n).cloned().unwrap_or(Ty::Opaque),
            t => panic!("type {t:?} near {}", self.near()),
        };
        t
    }
    fn near(&self) -> String {
        let st = self.l.i.saturating_sub(200);
        String::from_utf8_lossy(&self.l.s[st..(self.l.i + 100).min(self.l.s.len())]).into_owned()
    }
    fn fields(&mut self) -> Vec<Ty> {
        let mut v = vec![];
        if self.l.eat(b'}') {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.l.eat(b'}') {
                return v;
            }
            self.l.expect(b',');
        }
    }
    fn at_type(&self) -> bool {
        match &self.l.tok {
            T::Word(w) => is_ty_word(w),
            T::P(b'[') | T::P(b'{') | T::P(b'<') => true,
            T::Local(n) => self.m.contains_key(n),
            _ => false,
        }
    }
    /// skip parameter/return attributes up to a type or value
    fn skip_attrs(&mut self) {
        loop {
            match &self.l.tok {
                T::Word(w) => {
                    if is_ty_word(w) || self.is_value_word(w) {
                        return;
                    }
                    let w = *w;
                    self.l.next();
                    if w == "align" || w == "alignstack" {
                        if self.l.is(b'(') {
                            self.l.skip_paren();
                        } else {
                            self.l.next();
                        }
                    } else if w == "cc" {
                        self.l.next();
                    } else if self.l.is(b'(') {
                        self.l.skip_paren();
                    } else if self.l.is(b'=') {
                        self.l.next();
                        self.l.next();
                    }
                }
                T::Str(_) => {
                    self.l.next();
                    if self.l.eat(b'=') {
                        self.l.next();
                    }
                }
                T::Attr => {
                    self.l.next();
                }
                _ => return,
            }
        }
    }
    fn is_value_word(&self, w: &str) -> bool {
        let b = w.as_bytes();
        if b[0].is_ascii_digit() || (b[0] == b'-' && b.len() > 1) {
            return true;
        }
        if (w.starts_with("u0x") || w.starts_with("s0x")) && w.len() > 3 {
            return true;
        }
        matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr"
                | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "mul" | "xor" | "shl" | "splat" | "asm" | "blockaddress"
                | "dso_local_equivalent" | "no_cfi" | "addrspacecast" | "zext" | "sext"
        )
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let k = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), k);
        k
    }
    fn parse_int(w: &str, bits: u32) -> u128 {
        let m = crate::expr::mask(bits);
        if let Some(h) = w.strip_prefix("u0x").or_else(|| w.strip_prefix("s0x")) {
            return u128::from_str_radix(h, 16).unwrap() & m;
        }
        if let Some(r) = w.strip_prefix('-') {
            let v: u128 = r.parse().unwrap_or_else(|_| panic!("int {w}"));
            v.wrapping_neg() & m
        } else {
            let v: u128 = w.parse().unwrap_or_else(|_| panic!("int {w}"));
            v & m
        }
    }
    fn value(&mut self, ty: &Ty) -> Opd {
        if let T::Local(n) = &self.l.tok {
            let n = n.clone();
            self.l.next();
            return Opd::Reg(self.reg(&n));
        }
        Opd::Const(self.constant(ty))
    }
    fn constant(&mut self, ty: &Ty) -> Const {
        match self.l.next() {
            T::Global(n) => Const::Global(n.as_str().into()),
            T::CStr(b) => Const::Bytes(Rc::new(b)),
            T::Word(w) => match w {
                "true" => Const::Int(1, 1),
                "false" => Const::Int(1, 0),
                "null" => Const::Int(64, 0),
                "undef" | "poison" => Const::Undef(ty.clone()),
                "zeroinitializer" => Const::Zero(ty.clone()),
                "none" => Const::Undef(ty.clone()),
                "dso_local_equivalent" | "no_cfi" => self.constant(ty),
                "blockaddress" => {
                    self.l.skip_paren();
                    Const::Undef(Ty::Ptr)
                }
                "splat" => {
                    self.l.expect(b'(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    self.l.expect(b')');
                    let n = match ty {
                        Ty::Vector(n, _) => *n,
                        _ => panic!("splat"),
                    };
                    Const::Agg(ty.clone(), Rc::new(vec![c; n as usize]))
                }
                "getelementptr" => {
                    while self.l.word().is_some() {
                        self.l.next();
                        if self.l.is(b'(') && self.l.s[..self.l.i].ends_with(b"inrange(") {
                            self.l.skip_paren();
                        }
                    }
                    self.l.expect(b'(');
                    let t = self.ty();
                    self.l.expect(b',');
                    let bt = self.ty();
                    let base = self.constant(&bt);
                    let mut idx = vec![];
                    while self.l.eat(b',') {
                        self.l.eatw("inrange");
                        let it = self.ty();
                        idx.push(self.constant(&it));
                    }
                    self.l.expect(b')');
                    Const::Gep(t, Box::new(base), idx)
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "sext" => {
                    while self.l.word().is_some() {
                        self.l.next();
                    }
                    self.l.expect(b'(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    assert!(self.l.eatw("to"));
                    let t2 = self.ty();
                    self.l.expect(b')');
                    Const::Cast(w.to_string(), Box::new(c), t2)
                }
                "add" | "sub" | "mul" | "xor" | "shl" | "and" | "or" | "lshr" => {
                    while self.l.word().is_some() {
                        self.l.next();
                    }
                    self.l.expect(b'(');
                    let t = self.ty();
                    let a = self.constant(&t);
                    self.l.expect(b',');
                    let t = self.ty();
                    let b = self.constant(&t);
                    self.l.expect(b')');
                    Const::Bin(w.to_string(), Box::new(a), Box::new(b))
                }
                _ => match ty {
                    Ty::Int(b) => Const::Int(*b, Self::parse_int(w, *b)),
                    Ty::Float(b) => {
                        let v = if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).unwrap_or(0)
                        } else if w == "-inf" {
                            f64::NEG_INFINITY.to_bits()
                        } else if w.contains("nan") {
                            f64::NAN.to_bits()
                        } else {
                            w.parse::<f64>().map(|x| x.to_bits()).unwrap_or(0)
                        };
                        // a float constant is written as the double of the same value
                        let v = if *b == 32 { u64::from((f64::from_bits(v) as f32).to_bits()) } else { v };
                        Const::Float(*b, v)
                    }
                    _ => panic!("constant {w} of {ty:?} near {}", self.near()),
                },
            },
            // +inf, +qnan, +1.5
            T::P(b'+') => self.constant(ty),
            T::P(b'[') => {
                let v = self.const_list(b']');
                Const::Agg(ty.clone(), Rc::new(v))
            }
            T::P(b'{') => {
                let v = self.const_list(b'}');
                Const::Agg(ty.clone(), Rc::new(v))
            }
            T::P(b'<') => {
                if self.l.eat(b'{') {
                    let v = self.const_list(b'}');
                    self.l.expect(b'>');
                    Const::Agg(ty.clone(), Rc::new(v))
                } else {
                    let v = self.const_list(b'>');
                    Const::Agg(ty.clone(), Rc::new(v))
                }
            }
            t => panic!("constant {t:?} near {}", self.near()),
        }
    }
    fn const_list(&mut self, end: u8) -> Vec<Const> {
        let mut v = vec![];
        if self.l.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.constant(&t));
            if self.l.eat(end) {
                return v;
            }
            self.l.expect(b',');
        }
    }
    fn tval(&mut self) -> TOpd {
        let ty = self.ty();
        self.skip_attrs();
        let v = self.value(&ty);
        TOpd { ty, v }
    }
    fn label(&mut self) -> u32 {
        assert!(self.l.eatw("label"), "label near {}", self.near());
        if let T::Local(n) = self.l.next() {
            self.blk(&n)
        } else {
            panic!()
        }
    }
    /// skip `, align N`, `, !meta !N`, trailing attributes
    fn trailer(&mut self) {
        loop {
            if self.l.is(b',') {
                self.l.next();
                match self.l.next() {
                    T::Word("align") => {
                        self.l.next();
                    }
                    T::Word("addrspace") => {
                        self.l.skip_paren();
                    }
                    T::Meta(_) => {
                        // metadata attachment value
                        match self.l.next() {
                            T::Meta(n) => {
                                if n.is_empty() {
                                    // !{...}
                                    if self.l.is(b'{') {
                                        let mut d = 0;
                                        loop {
                                            match self.l.next() {
                                                T::P(b'{') => d += 1,
                                                T::P(b'}') => {
                                                    d -= 1;
                                                    if d == 0 {
                                                        break;
                                                    }
                                                }
                                                _ => {}
                                            }
                                        }
                                    }
                                } else if self.l.is(b'(') {
                                    self.l.skip_paren();
                                }
                            }
                            t => panic!("meta attach {t:?}"),
                        }
                    }
                    t => panic!("trailer {t:?} near {}", self.near()),
                }
            } else if self.l.tok == T::Attr {
                self.l.next();
            } else {
                return;
            }
        }
    }
    fn call(&mut self, invoke: bool) -> Ins {
        // after 'call'/'invoke'
        self.skip_attrs();
        let ret = self.ty();
        // function type?
        if self.l.is(b'(') {
            self.l.skip_paren();
        }
        self.skip_attrs();
        let callee = if self.l.eatw("asm") {
            while self.l.word().is_some() {
                self.l.next();
            }
            self.l.next();
            self.l.expect(b',');
            self.l.next();
            Opd::Const(Const::Global("__inline_asm".into()))
        } else {
            self.value(&Ty::Ptr)
        };
        self.l.expect(b'(');
        let mut args = vec![];
        if !self.l.eat(b')') {
            loop {
                let ty = self.ty();
                if ty == Ty::Meta {
                    // metadata operand
                    let mut d = 0;
                    loop {
                        match &self.l.tok {
                            T::P(b'(') => d += 1,
                            T::P(b')') if d == 0 => break,
                            T::P(b')') => d -= 1,
                            T::P(b',') if d == 0 => break,
                            _ => {}
                        }
                        self.l.next();
                    }
                } else {
                    self.skip_attrs();
                    let v = self.value(&ty);
                    args.push(TOpd { ty, v });
                }
                if self.l.eat(b')') {
                    break;
                }
                self.l.expect(b',');
            }
        }
        // fn attrs, operand bundles
        loop {
            match &self.l.tok {
                T::Attr => {
                    self.l.next();
                }
                T::P(b'[') => {
                    let mut d = 0;
                    loop {
                        match self.l.next() {
                            T::P(b'[') => d += 1,
                            T::P(b']') => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                T::Word(w) if matches!(*w, "nounwind" | "noreturn" | "readnone" | "readonly" | "cold" | "willreturn" | "nocallback" | "nofree") => {
                    self.l.next();
                }
                T::Word("memory") => {
                    self.l.next();
                    self.l.skip_paren();
                }
                _ => break,
            }
        }
        let mut normal = None;
        if invoke {
            assert!(self.l.eatw("to"), "invoke near {}", self.near());
            normal = Some(self.label());
            assert!(self.l.eatw("unwind"));
            self.label();
        }
        self.trailer();
        Ins::Call { ret, callee, args, normal }
    }
    fn flags(&mut self) {
        while let Some(w) = self.l.word() {
            if matches!(
                w,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "samesign" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            ) {
                self.l.next();
                if w == "inrange" {
                    self.l.skip_paren();
                }
            } else if w == "inrange" {
                self.l.next();
                self.l.skip_paren();
            } else {
                break;
            }
        }
    }
    fn ins(&mut self) -> Ins {
        let w = match self.l.next() {
            T::Word(w) => w,
            t => panic!("instruction {t:?} near {}", self.near()),
        };
        let bin = match w {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(op) = bin {
            self.flags();
            let ty = self.ty();
            let a = self.value(&ty);
            self.l.expect(b',');
            let b = self.value(&ty);
            self.trailer();
            return Ins::Bin(op, ty, a, b);
        }
        let r = match w {
            "icmp" => {
                self.flags();
                let p = match self.l.word().unwrap() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {x}"),
                };
                self.l.next();
                let ty = self.ty();
                let a = self.value(&ty);
                self.l.expect(b',');
                let b = self.value(&ty);
                Ins::ICmp(p, ty, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" => {
                self.flags();
                let op = match w {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "bitcast" | "addrspacecast" => CastOp::BitCast,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fptrunc" => CastOp::FpTrunc,
                    _ => CastOp::FpExt,
                };
                let t = self.ty();
                let v = self.value(&t);
                assert!(self.l.eatw("to"));
                let t2 = self.ty();
                Ins::Cast(op, t, v, t2)
            }
            "select" => {
                self.flags();
                let c = self.tval();
                self.l.expect(b',');
                let a = self.tval();
                self.l.expect(b',');
                let b = self.tval();
                Ins::Select(c, a.ty, a.v, b.v)
            }
            "load" => {
                self.l.eatw("atomic");
                self.l.eatw("volatile");
                let t = self.ty();
                self.l.expect(b',');
                let p = self.tval();
                while let Some(w) = self.l.word() {
                    if matches!(w, "monotonic" | "acquire" | "seq_cst" | "unordered") {
                        self.l.next();
                    } else if w == "syncscope" {
                        self.l.next();
                        self.l.skip_paren();
                    } else {
                        break;
                    }
                }
                Ins::Load(t, p.v)
            }
            "store" => {
                self.l.eatw("atomic");
                self.l.eatw("volatile");
                let v = self.tval();
                self.l.expect(b',');
                let p = self.tval();
                while let Some(w) = self.l.word() {
                    if matches!(w, "monotonic" | "release" | "seq_cst" | "unordered") {
                        self.l.next();
                    } else if w == "syncscope" {
                        self.l.next();
                        self.l.skip_paren();
                    } else {
                        break;
                    }
                }
                Ins::Store(v, p.v)
            }
            "alloca" => {
                self.l.eatw("inalloca");
                let t = self.ty();
                let mut n = None;
                // optional ", ty n"
                if self.l.is(b',') {
                    let save = self.l.i;
                    let st = self.l.tok.clone();
                    self.l.next();
                    if self.at_type() {
                        n = Some(self.tval());
                    } else {
                        self.l.i = save;
                        self.l.tok = st;
                    }
                }
                Ins::Alloca(t, n)
            }
            "getelementptr" => {
                self.flags();
                let t = self.ty();
                self.l.expect(b',');
                let b = self.tval();
                let mut idx = vec![];
                while self.l.is(b',') {
                    let save = self.l.i;
                    let st = self.l.tok.clone();
                    self.l.next();
                    if self.at_type() {
                        idx.push(self.tval());
                    } else {
                        self.l.i = save;
                        self.l.tok = st;
                        break;
                    }
                }
                Ins::Gep(t, b, idx)
            }
            "tail" | "musttail" | "notail" => {
                assert!(self.l.eatw("call"));
                return self.call(false);
            }
            "call" => return self.call(false),
            "invoke" => return self.call(true),
            "extractvalue" => {
                let a = self.tval();
                let mut idx = vec![];
                while self.l.is(b',') {
                    let save = self.l.i;
                    let st = self.l.tok.clone();
                    self.l.next();
                    if let Some(w) = self.l.word() {
                        if let Ok(k) = w.parse() {
                            idx.push(k);
                            self.l.next();
                            continue;
                        }
                    }
                    self.l.i = save;
                    self.l.tok = st;
                    break;
                }
                Ins::ExtractValue(a, idx)
            }
            "insertvalue" => {
                let a = self.tval();
                self.l.expect(b',');
                let v = self.tval();
                let mut idx = vec![];
                while self.l.is(b',') {
                    let save = self.l.i;
                    let st = self.l.tok.clone();
                    self.l.next();
                    if let Some(w) = self.l.word() {
                        if let Ok(k) = w.parse() {
                            idx.push(k);
                            self.l.next();
                            continue;
                        }
                    }
                    self.l.i = save;
                    self.l.tok = st;
                    break;
                }
                Ins::InsertValue(a, v, idx)
            }
            "extractelement" => {
                let a = self.tval();
                self.l.expect(b',');
                let i = self.tval();
                Ins::ExtractElement(a, i)
            }
            "insertelement" => {
                let a = self.tval();
                self.l.expect(b',');
                let v = self.tval();
                self.l.expect(b',');
                let i = self.tval();
                Ins::InsertElement(a, v, i)
            }
            "shufflevector" => {
                let a = self.tval();
                self.l.expect(b',');
                let b = self.tval();
                self.l.expect(b',');
                let m = self.tval();
                let n = match &m.ty {
                    Ty::Vector(n, _) => *n as usize,
                    _ => panic!(),
                };
                let mask = match m.v {
                    Opd::Const(Const::Zero(_)) => vec![0; n],
                    Opd::Const(Const::Undef(_)) => vec![-1; n],
                    Opd::Const(Const::Agg(_, v)) => v
                        .iter()
                        .map(|c| match c {
                            Const::Int(_, v) => *v as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                Ins::Shuffle(a, b, mask)
            }
            "freeze" => Ins::Freeze(self.tval()),
            "atomicrmw" => {
                self.l.eatw("volatile");
                let op = self.l.word().unwrap().to_string();
                self.l.next();
                let p = self.tval();
                self.l.expect(b',');
                let v = self.tval();
                while self.l.word().is_some() {
                    let w = self.l.word().unwrap();
                    if matches!(w, "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst") {
                        self.l.next();
                    } else {
                        break;
                    }
                }
                Ins::AtomicRmw(op, p.v, v)
            }
            "cmpxchg" => {
                self.l.eatw("weak");
                self.l.eatw("volatile");
                let p = self.tval();
                self.l.expect(b',');
                let c = self.tval();
                self.l.expect(b',');
                let n = self.tval();
                while let Some(w) = self.l.word() {
                    if matches!(w, "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst") {
                        self.l.next();
                    } else {
                        break;
                    }
                }
                Ins::CmpXchg(p.v, c, n)
            }
            "fence" => {
                while let Some(w) = self.l.word() {
                    if matches!(w, "acquire" | "release" | "acq_rel" | "seq_cst") {
                        self.l.next();
                    } else if w == "syncscope" {
                        self.l.next();
                        self.l.skip_paren();
                    } else {
                        break;
                    }
                }
                Ins::Fence
            }
            "br" => {
                if self.l.word() == Some("label") {
                    let b = self.label();
                    Ins::Br(b)
                } else {
                    let c = self.tval();
                    self.l.expect(b',');
                    let a = self.label();
                    self.l.expect(b',');
                    let b = self.label();
                    Ins::CondBr(c.v, a, b)
                }
            }
            "switch" => {
                let v = self.tval();
                self.l.expect(b',');
                let d = self.label();
                self.l.expect(b'[');
                let mut cases = vec![];
                while !self.l.eat(b']') {
                    let t = self.ty();
                    let c = match self.constant(&t) {
                        Const::Int(_, v) => v,
                        _ => panic!("case"),
                    };
                    self.l.expect(b',');
                    let b = self.label();
                    cases.push((c, b));
                }
                Ins::Switch(v, d, cases)
            }
            "ret" => {
                if self.l.eatw("void") {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.tval()))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => {
                self.tval();
                Ins::Resume
            }
            "landingpad" => {
                self.ty();
                loop {
                    if self.l.eatw("cleanup") {
                        continue;
                    }
                    if self.l.eatw("catch") || self.l.eatw("filter") {
                        self.tval();
                        continue;
                    }
                    break;
                }
                Ins::LandingPad
            }
            "fcmp" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let mut op = w.to_string();
                if w == "fcmp" {
                    op = match self.l.next() {
                        T::Word(x) => format!("c{x}"),
                        _ => "c?".into(),
                    };
                }
                let ty = self.ty();
                let a = self.value(&ty);
                self.l.expect(b',');
                let b = self.value(&ty);
                Ins::Float(op, ty, vec![a, b])
            }
            "fneg" => {
                self.flags();
                let t = self.tval();
                Ins::Float("fneg".into(), t.ty, vec![t.v])
            }
            _ => panic!("instruction {w} near {}", self.near()),
        };
        self.trailer();
        r
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let mut m = Module {
            text: String::new(),
            named: HashMap::new(),
            fn_text: HashMap::new(),
            decls: vec![],
            globals: HashMap::new(),
            aliases: HashMap::new(),
        };
        let bytes = text.as_bytes();
        let mut i = 0;
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut tlines: Vec<(usize, usize)> = vec![];
        while i < bytes.len() {
            let e = text[i..].find('\n').map(|k| i + k).unwrap_or(bytes.len());
            let line = &text[i..e];
            if line.starts_with("define ") {
                let end = text[i..].find("\n}").map(|k| i + k + 2).unwrap();
                let at = line.find('@').unwrap();
                let mut l = Lex { s: line.as_bytes(), i: at + 1, tok: T::Eof };
                let name = l.name();
                m.fn_text.insert(name.as_str().into(), (i, end));
                i = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let mut l = Lex { s: line.as_bytes(), i: at + 1, tok: T::Eof };
                let name = l.name();
                m.decls.push(name.as_str().into());
            } else if line.starts_with('@') {
                glines.push((i, e));
            } else if line.starts_with('%') {
                tlines.push((i, e));
            }
            i = e + 1;
        }
        for (a, b) in tlines {
            let l = Lex::new(&text[a..b]);
            let mut p = P { l, m: &m.named, regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
            let n = match p.l.next() {
                T::Local(n) => n,
                _ => continue,
            };
            p.l.expect(b'=');
            p.l.eatw("type");
            let t = p.ty();
            m.named.insert(n, t);
        }
        let mut gl = vec![];
        let mut al = vec![];
        for (a, b) in glines {
            let l = Lex::new(&text[a..b]);
            let mut p = P { l, m: &m.named, regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
            let n: Rc<str> = match p.l.next() {
                T::Global(n) => n.as_str().into(),
                _ => unreachable!(),
            };
            p.l.expect(b'=');
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match p.l.next() {
                    T::Word("global") => break,
                    T::Word("constant") => {
                        constant = true;
                        break;
                    }
                    T::Word("alias") | T::Word("ifunc") => {
                        alias = true;
                        break;
                    }
                    T::Word("external") | T::Word("extern_weak") => external = true,
                    T::Word("thread_local") | T::Word("addrspace") => {
                        if p.l.is(b'(') {
                            p.l.skip_paren();
                        }
                    }
                    T::Word(_) => {}
                    t => panic!("global {t:?}: {}", &text[a..b.min(a + 200)]),
                }
            }
            let ty = p.ty();
            if alias {
                p.l.expect(b',');
                let t = p.ty();
                let c = p.constant(&t);
                al.push((n, c));
                continue;
            }
            let init = if external { None } else { Some(p.constant(&ty)) };
            let mut align = ty.align();
            while p.l.eat(b',') {
                if p.l.eatw("align") {
                    align = p.l.word().unwrap().parse().unwrap();
                }
                p.l.next();
            }
            gl.push(GlobalDef { name: n, ty, init, constant, align });
        }
        for g in gl {
            m.globals.insert(g.name.clone(), g);
        }
        for (n, c) in al {
            m.aliases.insert(n, c);
        }
        m.text = text;
        m
    }

    pub fn parse_fn(&self, name: &str) -> Option<Func> {
        let (a, b) = *self.fn_text.get(name)?;
        let txt = &self.text[a..b];
        let l = Lex::new(txt);
        let mut p = P { l, m: &self.named, regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
        // header: define ... ty @name(params) ... {
        assert!(p.l.eatw("define"));
        p.skip_attrs();
        let ret = p.ty();
        p.skip_attrs();
        match p.l.next() {
            T::Global(_) => {}
            t => panic!("fn header {t:?}"),
        }
        p.l.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !p.l.eat(b')') {
            loop {
                if p.l.tok == T::Dots {
                    p.l.next();
                    p.l.expect(b')');
                    break;
                }
                let t = p.ty();
                p.skip_attrs();
                let r = if let T::Local(n) = &p.l.tok {
                    let n = n.clone();
                    p.l.next();
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    p.reg(&n)
                } else {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    p.reg(&n)
                };
                params.push((r, t));
                if p.l.eat(b')') {
                    break;
                }
                p.l.expect(b',');
            }
        }
        while !p.l.is(b'{') {
            p.l.next();
        }
        p.l.next();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        let mut ninstr = 0;
        // an unlabelled entry block gets an implicit name
        if !matches!(p.l.tok, T::Label(_)) {
            let nm = unnamed.to_string();
            let id = p.blk(&nm);
            cur = Some((id, Block { name: nm, phis: vec![], ins: vec![] }));
        }
        loop {
            match &p.l.tok {
                T::P(b'}') => break,
                T::Label(n) => {
                    let n = n.clone();
                    p.l.next();
                    if let Some((id, b)) = cur.take() {
                        while blocks.len() <= id as usize {
                            blocks.push(None);
                        }
                        blocks[id as usize] = Some(b);
                    }
                    let id = p.blk(&n);
                    cur = Some((id, Block { name: n, phis: vec![], ins: vec![] }));
                }
                _ => {
                    let mut dest = None;
                    if let T::Local(n) = &p.l.tok {
                        let n = n.clone();
                        p.l.next();
                        p.l.expect(b'=');
                        dest = Some(p.reg(&n));
                    }
                    ninstr += 1;
                    if p.l.word() == Some("phi") {
                        p.l.next();
                        p.flags();
                        let ty = p.ty();
                        let mut inc = vec![];
                        loop {
                            p.l.expect(b'[');
                            let v = p.value(&ty);
                            p.l.expect(b',');
                            let bn = match p.l.next() {
                                T::Local(n) => p.blk(&n),
                                t => panic!("phi {t:?}"),
                            };
                            p.l.expect(b']');
                            inc.push((v, bn));
                            // another incoming?
                            if p.l.is(b',') {
                                let save = p.l.i;
                                let st = p.l.tok.clone();
                                p.l.next();
                                if p.l.is(b'[') {
                                    continue;
                                }
                                p.l.i = save;
                                p.l.tok = st;
                            }
                            break;
                        }
                        p.trailer();
                        cur.as_mut().unwrap().1.phis.push(Phi { dest: dest.unwrap(), inc });
                    } else {
                        let ins = p.ins();
                        cur.as_mut().unwrap().1.ins.push((dest, ins));
                    }
                }
            }
        }
        if let Some((id, b)) = cur.take() {
            while blocks.len() <= id as usize {
                blocks.push(None);
            }
            blocks[id as usize] = Some(b);
        }
        let blocks = blocks.into_iter().map(|b| b.unwrap_or_else(|| panic!("undefined block in {name}"))).collect();
        Some(Func { name: name.into(), params, ret, blocks, nregs: p.regs.len(), ninstr })
    }
}
