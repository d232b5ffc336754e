//! Parser for the textual LLVM IR that rustc emits, down to what the executor needs.
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Opaque,
}

pub struct Types {
    pub v: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
}

impl Types {
    pub fn new() -> Types {
        Types { v: vec![], map: HashMap::new(), named: HashMap::new() }
    }
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.v.len() as TyId;
        self.v.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.v[t as usize]
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(_, _) => self.size(t).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align(t);
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => match self.get(*e) {
                Ty::Int(b) => (n * (*b as u64) + 7) / 8,
                _ => n * self.size(*e),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for x in f {
                    if !*packed {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(*x);
                }
                if !*packed {
                    let a = self.align(t);
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, t: TyId, i: usize) -> u64 {
        match self.get(t) {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    if !*packed {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += self.size(*x);
                }
                panic!("field index")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => self.size(*e) * i as u64,
            _ => panic!("field_offset of scalar"),
        }
    }
    pub fn elem(&self, t: TyId, i: usize) -> TyId {
        match self.get(t) {
            Ty::Struct(f, _) => f[i],
            Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn nelem(&self, t: TyId) -> usize {
        match self.get(t) {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("nelem of scalar"),
        }
    }
    pub fn is_agg(&self, t: TyId) -> bool {
        matches!(self.get(t), Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
    /// Width in bits of a scalar type.
    pub fn bits(&self, t: TyId) -> u32 {
        match self.get(t) {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            x => panic!("bits of {:?}", x),
        }
    }
    pub fn is_float(&self, t: TyId) -> bool {
        matches!(self.get(t), Ty::F32 | Ty::F64)
    }
}

/// Constant expressions, kept symbolic until global addresses are known.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Float(u64), // raw bits in the type's own width
    Null,
    Zero,
    Undef,
    Global(String),
    Agg(Vec<(TyId, Const)>),
    Bytes(Vec<u8>),
    Gep { base_ty: TyId, base: Box<Const>, idx: Vec<(TyId, Const)> },
    Cast(String, Box<(TyId, Const)>, TyId),
    Bin(String, Box<(TyId, Const)>, Box<(TyId, Const)>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(u32), // index into the function's constant table
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, a: Opnd, b: Opnd, d: u32 },
    FNeg { ty: TyId, a: Opnd, d: u32 },
    ICmp { pred: IPred, ty: TyId, a: Opnd, b: Opnd, d: u32 },
    FCmp { pred: FPred, ty: TyId, a: Opnd, b: Opnd, d: u32 },
    Cast { op: CastOp, from: TyId, to: TyId, a: Opnd, d: u32 },
    Select { cty: TyId, ty: TyId, c: Opnd, a: Opnd, b: Opnd, d: u32 },
    Freeze { a: Opnd, d: u32 },
    Alloca { size: u64, align: u64, count: Option<Opnd>, d: u32 },
    Load { ty: TyId, p: Opnd, d: u32 },
    Store { ty: TyId, v: Opnd, p: Opnd },
    Gep { src: TyId, base: Opnd, idx: Vec<(TyId, Opnd)>, d: u32 },
    ExtractValue { ty: TyId, a: Opnd, idx: Vec<u32>, d: u32 },
    InsertValue { ty: TyId, a: Opnd, v: Opnd, idx: Vec<u32>, d: u32 },
    ExtractElem { ty: TyId, a: Opnd, i: Opnd, d: u32 },
    InsertElem { ty: TyId, a: Opnd, v: Opnd, i: Opnd, d: u32 },
    Shuffle { ty: TyId, a: Opnd, b: Opnd, mask: Vec<i64>, d: u32 },
    Call { callee: Callee, rty: TyId, args: Vec<(TyId, Opnd)>, d: Option<u32>, noreturn: bool },
    CmpXchg { ty: TyId, p: Opnd, cmp: Opnd, new: Opnd, d: u32 },
    AtomicRmw { op: String, ty: TyId, p: Opnd, v: Opnd, d: u32 },
    Nop,
    Br { t: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { ty: TyId, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret { ty: TyId, v: Option<Opnd> },
    Unreachable,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Named(String),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, BitCast, PtrToInt, IntToPtr, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }

pub struct Phi {
    pub d: u32,
    pub inc: Vec<(u32, Opnd)>,
}

pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    pub name: String,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub regty: Vec<TyId>,
    pub blocks: Vec<Block>,
    pub consts: Vec<(TyId, Const)>,
    /// immediate post-dominator over paths that reach a return; u32::MAX when none
    pub ipdom: Vec<u32>,
    /// block can reach a return
    pub live: Vec<bool>,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Const>,
    pub constant: bool,
    pub weak: bool,
    pub align: u64,
}

pub struct FuncIndex {
    pub name: String,
    pub start: usize, // byte offset of the define line
    pub end: usize,
    pub declared: bool,
    pub weak: bool,
    pub noreturn: bool,
}

pub struct Module {
    pub text: String,
    pub types: Types,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    pub funcs: Vec<FuncIndex>,
    pub fmap: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    pub noreturn_attrs: HashMap<u32, bool>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),     // bare word
    Local(String),  // %x
    GlobalN(String),// @x
    Num(String),    // integer or float literal
    Str(Vec<u8>),   // "..." or c"..."
    CStr(Vec<u8>),
    Meta,           // !...
    Attr(u32),      // #N
    P(char),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    end: usize,
    peeked: Option<Tok>,
    pstart: usize,
}

fn isid(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(s: &'a str, start: usize, end: usize) -> Lex<'a> {
        Lex { s: s.as_bytes(), i: start, end, peeked: None, pstart: start }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn lex(&mut self) -> Tok {
        loop {
            if self.i >= self.end {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
                continue;
            }
            if c == b'/' && self.i + 1 < self.end && self.s[self.i + 1] == b'*' {
                while self.i + 1 < self.end && !(self.s[self.i] == b'*' && self.s[self.i + 1] == b'/') {
                    self.i += 1;
                }
                self.i += 2;
                continue;
            }
            if c == b';' {
                while self.i < self.end && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let c = self.s[self.i];
        if c == b'%' || c == b'@' {
            self.i += 1;
            let name = if self.s[self.i] == b'"' {
                String::from_utf8_lossy(&self.quoted()).into_owned()
            } else {
                let st = self.i;
                while self.i < self.end && isid(self.s[self.i]) {
                    self.i += 1;
                }
                String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
            };
            return if c == b'%' { Tok::Local(name) } else { Tok::GlobalN(name) };
        }
        if c == b'"' {
            return Tok::Str(self.quoted());
        }
        if c == b'c' && self.i + 1 < self.end && self.s[self.i + 1] == b'"' {
            self.i += 1;
            return Tok::CStr(self.quoted());
        }
        if c == b'!' {
            self.i += 1;
            // swallow the metadata name / number / tuple
            if self.s[self.i] == b'{' || self.s[self.i] == b'"' {
                if self.s[self.i] == b'"' {
                    self.quoted();
                } else {
                    self.i += 1;
                    let mut d = 1;
                    while d > 0 {
                        match self.s[self.i] {
                            b'{' => d += 1,
                            b'}' => d -= 1,
                            b'"' => {
                                self.quoted();
                                continue;
                            }
                            _ => {}
                        }
                        self.i += 1;
                    }
                }
            } else {
                while self.i < self.end && isid(self.s[self.i]) {
                    self.i += 1;
                }
                if self.i < self.end && self.s[self.i] == b'(' {
                    // !DIExpression(...)
                    let mut d = 0;
                    loop {
                        match self.s[self.i] {
                            b'(' => d += 1,
                            b')' => d -= 1,
                            _ => {}
                        }
                        self.i += 1;
                        if d == 0 {
                            break;
                        }
                    }
                }
            }
            return Tok::Meta;
        }
        if c == b'#' {
            self.i += 1;
            let st = self.i;
            while self.i < self.end && self.s[self.i].is_ascii_digit() {
                self.i += 1;
            }
            let n = std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap_or(0);
            return Tok::Attr(n);
        }
        if c == b'.' && self.i + 2 < self.end && &self.s[self.i..self.i + 3] == b"..." {
            self.i += 3;
            return Tok::Dots;
        }
        if c.is_ascii_digit() || c == b'-' || c == b'+' {
            let st = self.i;
            self.i += 1;
            while self.i < self.end
                && (self.s[self.i].is_ascii_alphanumeric()
                    || self.s[self.i] == b'.'
                    || ((self.s[self.i] == b'+' || self.s[self.i] == b'-')
                        && (self.s[self.i - 1] == b'e' || self.s[self.i - 1] == b'E')
                        && !self.s[st..self.i].starts_with(b"0x")))
            {
                self.i += 1;
            }
            return Tok::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned());
        }
        if isid(c) {
            let st = self.i;
            while self.i < self.end && isid(self.s[self.i]) {
                self.i += 1;
            }
            return Tok::Id(String::from_utf8_lossy(&self.s[st..self.i]).into_owned());
        }
        self.i += 1;
        Tok::P(c as char)
    }
    fn next(&mut self) -> Tok {
        if let Some(t) = self.peeked.take() {
            return t;
        }
        self.lex()
    }
    fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            self.pstart = self.i;
            let t = self.lex();
            self.peeked = Some(t);
        }
        self.peeked.as_ref().unwrap()
    }
    fn is_p(&mut self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            let lo = self.i.saturating_sub(160);
            panic!("IR parse: expected {:?}, got {:?} near ...{}", c, t, String::from_utf8_lossy(&self.s[lo..(self.i + 40).min(self.s.len())]));
        }
    }
    fn is_id(&mut self, w: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == w)
    }
    fn eat_id(&mut self, w: &str) -> bool {
        if self.is_id(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // next token is '('
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("IR parse: eof in parens"),
                _ => {}
            }
        }
    }
    fn rest_near(&self) -> String {
        let lo = self.i.saturating_sub(200);
        String::from_utf8_lossy(&self.s[lo..(self.i + 80).min(self.s.len())]).into_owned()
    }
}

fn parse_type(l: &mut Lex, ts: &mut Types) -> TyId {
    let t = match l.next() {
        Tok::Id(w) => match w.as_str() {
            "void" => ts.intern(Ty::Void),
            "ptr" => {
                let t = ts.intern(Ty::Ptr);
                if l.is_id("addrspace") {
                    l.next();
                    l.skip_parens();
                }
                t
            }
            "float" => ts.intern(Ty::F32),
            "double" => ts.intern(Ty::F64),
            "label" => ts.intern(Ty::Label),
            "metadata" => ts.intern(Ty::Meta),
            "half" | "bfloat" => ts.intern(Ty::Int(16)),
            "fp128" => ts.intern(Ty::Int(128)),
            "opaque" => ts.intern(Ty::Opaque),
            _ => {
                if w.starts_with('i') {
                    if let Ok(n) = w[1..].parse::<u32>() {
                        ts.intern(Ty::Int(n))
                    } else {
                        panic!("IR parse: type {} near {}", w, l.rest_near())
                    }
                } else {
                    panic!("IR parse: type {} near {}", w, l.rest_near())
                }
            }
        },
        Tok::P('[') => {
            let n = num(l);
            assert!(l.eat_id("x"));
            let e = parse_type(l, ts);
            l.expect(']');
            ts.intern(Ty::Arr(n as u64, e))
        }
        Tok::P('<') => {
            if l.is_p('{') {
                l.next();
                let f = type_list(l, ts);
                l.expect('>');
                ts.intern(Ty::Struct(f, true))
            } else {
                let n = num(l);
                assert!(l.eat_id("x"));
                let e = parse_type(l, ts);
                l.expect('>');
                ts.intern(Ty::Vec(n as u64, e))
            }
        }
        Tok::P('{') => {
            let f = type_list(l, ts);
            ts.intern(Ty::Struct(f, false))
        }
        Tok::Local(n) => *ts.named.get(&n).unwrap_or_else(|| panic!("unknown named type {}", n)),
        x => panic!("IR parse: type token {:?} near {}", x, l.rest_near()),
    };
    t
}

fn type_list(l: &mut Lex, ts: &mut Types) -> Vec<TyId> {
    let mut f = vec![];
    if l.eat_p('}') {
        return f;
    }
    loop {
        f.push(parse_type(l, ts));
        if l.eat_p('}') {
            return f;
        }
        l.expect(',');
    }
}

fn num(l: &mut Lex) -> i128 {
    match l.next() {
        Tok::Num(s) => s.parse().unwrap_or_else(|_| panic!("IR parse: number {}", s)),
        x => panic!("IR parse: number expected, got {:?}", x),
    }
}

fn float_bits(s: &str, ty: &Ty) -> u64 {
    if let Some(h) = s.strip_prefix("0x") {
        let b = u64::from_str_radix(h, 16).unwrap();
        return match ty {
            Ty::F32 => (f64::from_bits(b) as f32).to_bits() as u64,
            _ => b,
        };
    }
    if let Some(h) = s.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).unwrap();
    }
    let neg = s.starts_with('-');
    let t = s.trim_start_matches(['+', '-']);
    let v: f64 = match t {
        "inf" => f64::INFINITY,
        "nan" | "qnan" => f64::NAN,
        _ => t.parse().unwrap_or_else(|_| panic!("IR parse: float {}", s)),
    };
    let v = if neg { -v } else { v };
    match ty {
        Ty::F32 => {
            // a decimal literal is printed only when exactly representable
            (v as f32).to_bits() as u64
        }
        _ => v.to_bits(),
    }
}

fn int_const(s: &str, bits: u32) -> u128 {
    let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
    if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
        return u128::from_str_radix(h, 16).unwrap() & m;
    }
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap().wrapping_neg()) & m
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("IR parse: int {}", s)) & m
    }
}

/// Parses a constant of type `ty` (not a local register).
fn parse_const(l: &mut Lex, ts: &mut Types, ty: TyId) -> Const {
    match l.next() {
        Tok::Num(s) => match ts.get(ty).clone() {
            Ty::Int(n) => Const::Int(int_const(&s, n)),
            t @ (Ty::F32 | Ty::F64) => Const::Float(float_bits(&s, &t)),
            t => panic!("number for type {:?}", t),
        },
        Tok::Id(w) => match w.as_str() {
            "true" => Const::Int(1),
            "false" => Const::Int(0),
            "null" => Const::Null,
            "zeroinitializer" => Const::Zero,
            "undef" | "poison" => Const::Undef,
            "inf" | "nan" | "qnan" => Const::Float(float_bits(&w, &ts.get(ty).clone())),
            "splat" => {
                l.expect('(');
                let et = parse_type(l, ts);
                let c = parse_const(l, ts, et);
                l.expect(')');
                let n = ts.nelem(ty);
                Const::Agg(vec![(et, c); n])
            }
            "getelementptr" => {
                while matches!(l.peek(), Tok::Id(_)) {
                    let Tok::Id(x) = l.next() else { unreachable!() };
                    if x == "inrange" {
                        l.skip_parens();
                    }
                }
                l.expect('(');
                let bt = parse_type(l, ts);
                l.expect(',');
                let pt = parse_type(l, ts);
                let base = parse_const(l, ts, pt);
                let mut idx = vec![];
                while l.eat_p(',') {
                    let it = parse_type(l, ts);
                    idx.push((it, parse_const(l, ts, it)));
                }
                l.expect(')');
                Const::Gep { base_ty: bt, base: Box::new(base), idx }
            }
            "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                while matches!(l.peek(), Tok::Id(_)) {
                    l.next();
                }
                l.expect('(');
                let ft = parse_type(l, ts);
                let c = parse_const(l, ts, ft);
                assert!(l.eat_id("to"));
                let tt = parse_type(l, ts);
                l.expect(')');
                Const::Cast(w, Box::new((ft, c)), tt)
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                while matches!(l.peek(), Tok::Id(_)) {
                    l.next();
                }
                l.expect('(');
                let at = parse_type(l, ts);
                let a = parse_const(l, ts, at);
                l.expect(',');
                let bt = parse_type(l, ts);
                let b = parse_const(l, ts, bt);
                l.expect(')');
                Const::Bin(w, Box::new((at, a)), Box::new((bt, b)))
            }
            "dso_local_equivalent" | "no_cfi" => parse_const(l, ts, ty),
            _ if w.starts_with("f0x") => Const::Float(float_bits(&w, &ts.get(ty).clone())),
            _ if w.starts_with("u0x") || w.starts_with("s0x") => {
                let n = ts.bits(ty);
                Const::Int(int_const(&w, n))
            }
            _ => panic!("IR parse: constant {} near {}", w, l.rest_near()),
        },
        Tok::GlobalN(n) => Const::Global(n),
        Tok::CStr(b) => Const::Bytes(b),
        Tok::P('[') => const_list(l, ts, ']'),
        Tok::P('{') => const_list(l, ts, '}'),
        Tok::P('<') => {
            if l.eat_p('{') {
                let c = const_list(l, ts, '}');
                l.expect('>');
                c
            } else {
                const_list(l, ts, '>')
            }
        }
        x => panic!("IR parse: constant token {:?} near {}", x, l.rest_near()),
    }
}

fn const_list(l: &mut Lex, ts: &mut Types, close: char) -> Const {
    let mut v = vec![];
    if l.eat_p(close) {
        return Const::Agg(v);
    }
    loop {
        let t = parse_type(l, ts);
        let c = parse_const(l, ts, t);
        v.push((t, c));
        if l.eat_p(close) {
            return Const::Agg(v);
        }
        l.expect(',');
    }
}

const VALUE_WORDS: &[&str] = &[
    "true", "false", "null", "zeroinitializer", "undef", "poison", "splat", "getelementptr", "ptrtoint", "ptrtoaddr",
    "inttoptr", "bitcast", "trunc", "zext", "sext", "add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "inf", "nan",
    "qnan", "asm", "dso_local_equivalent", "no_cfi", "addrspacecast",
];

fn is_value_word(w: &str) -> bool {
    VALUE_WORDS.contains(&w) || w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x")
}

/// Skips parameter / return attributes in front of a value or a type.
fn skip_attrs(l: &mut Lex, stop_at_type: bool) {
    loop {
        match l.peek().clone() {
            Tok::Id(w) => {
                if is_value_word(&w) {
                    return;
                }
                if stop_at_type && is_type_word(&w) {
                    return;
                }
                l.next();
                if l.is_p('(') {
                    l.skip_parens();
                } else if w == "align" {
                    if matches!(l.peek(), Tok::Num(_)) {
                        l.next();
                    }
                }
            }
            Tok::Str(_) => {
                l.next();
                if l.eat_p('=') {
                    l.next();
                }
            }
            Tok::Attr(_) => {
                l.next();
            }
            _ => return,
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" | "bfloat" | "fp128")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn parse(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            types: Types::new(),
            globals: vec![],
            gmap: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            aliases: HashMap::new(),
            noreturn_attrs: HashMap::new(),
        };
        let bytes = text.as_bytes();
        // first: attribute groups and named types
        let mut pos = 0;
        let mut lines: Vec<(usize, usize)> = vec![];
        while pos < bytes.len() {
            let e = bytes[pos..].iter().position(|&c| c == b'\n').map(|x| pos + x).unwrap_or(bytes.len());
            if e > pos {
                match bytes[pos] {
                    b'@' | b'd' | b'a' | b'%' | b'}' => lines.push((pos, e)),
                    _ => {}
                }
            }
            pos = e + 1;
        }
        for &(s, e) in &lines {
            if text[s..e].starts_with("attributes #") {
                let r = &text[s + 12..e];
                let n: u32 = r[..r.find(' ').unwrap()].parse().unwrap();
                let words: Vec<&str> = r.split_whitespace().collect();
                m.noreturn_attrs.insert(n, words.contains(&"noreturn"));
            } else if bytes[s] == b'%' {
                let mut l = Lex::new(&text, s, e);
                if let Tok::Local(n) = l.next() {
                    if l.eat_p('=') && l.eat_id("type") {
                        let t = parse_type(&mut l, &mut m.types);
                        m.types.named.insert(n, t);
                    }
                }
            }
        }
        let mut k = 0;
        while k < lines.len() {
            let (s, e) = lines[k];
            let line = &text[s..e];
            if bytes[s] == b'@' {
                m.parse_global(&text, s, e);
            } else if line.starts_with("declare ") || line.starts_with("define ") {
                let def = line.starts_with("define ");
                let at = line.find('@').unwrap();
                let mut l = Lex::new(&text, s + at, e);
                let Tok::GlobalN(name) = l.next() else { panic!() };
                let mut end = e;
                if def {
                    let mut q = k + 1;
                    while bytes[lines[q].0] != b'}' {
                        q += 1;
                    }
                    end = lines[q].1;
                    k = q;
                }
                // attribute groups after the parameter list
                let mut noret = false;
                let tail = &line[line.rfind(')').unwrap_or(0)..];
                for w in tail.split_whitespace() {
                    if let Some(n) = w.strip_prefix('#') {
                        if let Ok(n) = n.parse::<u32>() {
                            noret |= *m.noreturn_attrs.get(&n).unwrap_or(&false);
                        }
                    }
                    if w == "noreturn" {
                        noret = true;
                    }
                }
                let weak = !def && line.contains("extern_weak");
                m.fmap.insert(name.clone(), m.funcs.len());
                m.funcs.push(FuncIndex { name, start: s, end, declared: !def, weak, noreturn: noret });
            }
            k += 1;
        }
        m.text = text;
        m
    }

    fn parse_global(&mut self, text: &str, s: usize, e: usize) {
        let mut l = Lex::new(text, s, e);
        let Tok::GlobalN(name) = l.next() else { panic!() };
        l.expect('=');
        let mut weak = false;
        let constant;
        let mut external = false;
        loop {
            match l.next() {
                Tok::Id(w) => match w.as_str() {
                    "global" => {
                        constant = false;
                        break;
                    }
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" => {
                        let _ = parse_type(&mut l, &mut self.types);
                        l.expect(',');
                        let t = parse_type(&mut l, &mut self.types);
                        if let Const::Global(g) = parse_const(&mut l, &mut self.types, t) {
                            self.aliases.insert(name, g);
                        }
                        return;
                    }
                    "extern_weak" => {
                        weak = true;
                        external = true;
                    }
                    "external" => external = true,
                    "thread_local" | "addrspace" => {
                        if l.is_p('(') {
                            l.skip_parens();
                        }
                    }
                    _ => {}
                },
                x => panic!("IR parse: global {} {:?}", name, x),
            }
        }
        let ty = parse_type(&mut l, &mut self.types);
        let init = if external || l.is_p(',') || *l.peek() == Tok::Eof { None } else { Some(parse_const(&mut l, &mut self.types, ty)) };
        let mut align = self.types.align(ty).max(1);
        let line = &text[s..e];
        if let Some(p) = line.rfind(", align ") {
            let d: String = line[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(a) = d.parse() {
                align = a;
            }
        }
        self.gmap.insert(name.clone(), self.globals.len());
        self.globals.push(Global { name, ty, init, constant, weak, align });
    }

    pub fn parse_func(&mut self, fi: usize) -> Func {
        let (s, e) = (self.funcs[fi].start, self.funcs[fi].end);
        let text = std::mem::take(&mut self.text);
        let f = {
            let mut p = FP {
                l: Lex::new(&text, s, e),
                ts: &mut self.types,
                noret: &self.noreturn_attrs,
                regs: HashMap::new(),
                regty: vec![],
                blocks: HashMap::new(),
                nblocks: 0,
                consts: vec![],
            };
            p.func()
        };
        self.text = text;
        f
    }
}

struct FP<'a> {
    l: Lex<'a>,
    ts: &'a mut Types,
    noret: &'a HashMap<u32, bool>,
    regs: HashMap<String, u32>,
    regty: Vec<TyId>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
    consts: Vec<(TyId, Const)>,
}

impl<'a> FP<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regty.len() as u32;
        self.regs.insert(n.to_string(), r);
        self.regty.push(0);
        r
    }
    fn def(&mut self, n: &str, t: TyId) -> u32 {
        let r = self.reg(n);
        self.regty[r as usize] = t;
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&b) = self.blocks.get(n) {
            return b;
        }
        let b = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), b);
        b
    }
    fn ty(&mut self) -> TyId {
        parse_type(&mut self.l, self.ts)
    }
    fn opnd(&mut self, t: TyId) -> Opnd {
        if let Tok::Local(_) = self.l.peek() {
            let Tok::Local(n) = self.l.next() else { unreachable!() };
            return Opnd::Reg(self.reg(&n));
        }
        if matches!(self.ts.get(t), Ty::Meta) {
            // metadata operand: swallow
            if let Tok::Meta = self.l.peek() {
                self.l.next();
            }
            self.consts.push((t, Const::Undef));
            return Opnd::C(self.consts.len() as u32 - 1);
        }
        let c = parse_const(&mut self.l, self.ts, t);
        self.consts.push((t, c));
        Opnd::C(self.consts.len() as u32 - 1)
    }
    fn tyopnd(&mut self) -> (TyId, Opnd) {
        let t = self.ty();
        (t, self.opnd(t))
    }
    fn label(&mut self) -> u32 {
        assert!(self.l.eat_id("label"), "label expected near {}", self.l.rest_near());
        match self.l.next() {
            Tok::Local(n) => self.blk(&n),
            x => panic!("label {:?}", x),
        }
    }
    fn skip_to_eol(&mut self) {
        // everything up to the end of the line is metadata / alignment
        if self.l.peeked.take().is_some() {
            self.l.i = self.l.pstart;
        }
        while self.l.i < self.l.end && self.l.s[self.l.i] != b'\n' {
            self.l.i += 1;
        }
    }
    fn func(&mut self) -> Func {
        // header
        let name;
        let mut rty = None;
        loop {
            match self.l.peek().clone() {
                Tok::GlobalN(n) => {
                    name = n;
                    self.l.next();
                    break;
                }
                Tok::Id(w) if is_type_word(&w) => {
                    rty = Some(self.ty());
                }
                Tok::P('{') | Tok::P('[') | Tok::P('<') => {
                    rty = Some(self.ty());
                }
                Tok::Id(_) => {
                    self.l.next();
                    if self.l.is_p('(') {
                        self.l.skip_parens();
                    }
                }
                _ => {
                    self.l.next();
                }
            }
        }
        let _ = rty;
        self.l.expect('(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !self.l.eat_p(')') {
            loop {
                if *self.l.peek() == Tok::Dots {
                    self.l.next();
                } else {
                    let t = self.ty();
                    skip_attrs(&mut self.l, false);
                    match self.l.next() {
                        Tok::Local(n) => {
                            if n.parse::<u32>().is_ok() {
                                unnamed += 1;
                            }
                            let r = self.def(&n, t);
                            params.push(r);
                        }
                        x => panic!("param {:?} in {} near {}", x, name, self.l.rest_near()),
                    }
                }
                if self.l.eat_p(')') {
                    break;
                }
                self.l.expect(',');
            }
        }
        // unnamed parameters take %0.. so nothing to do; skip to body
        loop {
            // the body's brace is the last thing on the line
            let t = self.l.next();
            if t == Tok::P('{') {
                break;
            }
            if let Tok::Id(w) = &t {
                if w == "personality" || w == "prefix" || w == "prologue" {
                    let t = self.ty();
                    let _ = self.opnd(t);
                }
            }
        }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        loop {
            // label?
            match self.l.peek().clone() {
                Tok::P('}') => break,
                Tok::Eof => break,
                t => {
                    let save = (self.l.i, self.l.peeked.clone(), self.l.pstart);
                    let nm = match &t {
                        Tok::Id(w) => Some(w.clone()),
                        Tok::Num(w) => Some(w.clone()),
                        Tok::Str(b) => Some(String::from_utf8_lossy(b).into_owned()),
                        _ => None,
                    };
                    if let Some(n) = nm {
                        self.l.next();
                        if self.l.is_p(':') && self.l.s[self.l.i - 1] == b':' {
                            self.l.next();
                            if let Some((i, b)) = cur.take() {
                                place(&mut blocks, i, b);
                            }
                            let i = self.blk(&n);
                            cur = Some((i, Block { phis: vec![], insts: vec![], name: n }));
                            continue;
                        }
                        self.l.i = save.0;
                        self.l.peeked = save.1;
                        self.l.pstart = save.2;
                    }
                }
            }
            if cur.is_none() {
                // the implicit entry block takes the number after the unnamed parameters
                let en = unnamed.to_string();
                let i = self.blk(&en);
                cur = Some((i, Block { phis: vec![], insts: vec![], name: en }));
            }
            let (bi, mut b) = cur.take().unwrap();
            self.inst(&mut b);
            cur = Some((bi, b));
        }
        if let Some((i, b)) = cur.take() {
            place(&mut blocks, i, b);
        }
        let blocks: Vec<Block> = blocks.into_iter().map(|x| x.expect("missing block")).collect();
        let mut f = Func {
            name,
            params,
            nregs: self.regty.len(),
            regty: std::mem::take(&mut self.regty),
            blocks,
            consts: std::mem::take(&mut self.consts),
            ipdom: vec![],
            live: vec![],
        };
        postdom(&mut f);
        f
    }

    fn inst(&mut self, b: &mut Block) {
        let mut dst: Option<String> = None;
        if let Tok::Local(_) = self.l.peek() {
            let Tok::Local(n) = self.l.next() else { unreachable!() };
            dst = Some(n);
            self.l.expect('=');
        }
        let Tok::Id(mut op) = self.l.next() else { panic!("IR parse: instruction near {}", self.l.rest_near()) };
        if op == "tail" || op == "musttail" || op == "notail" {
            let Tok::Id(o) = self.l.next() else { panic!() };
            op = o;
        }
        let i1 = self.ts.intern(Ty::Int(1));
        let ptr = self.ts.intern(Ty::Ptr);
        let inst = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr"
            | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let ty = self.ty();
                let a = self.opnd(ty);
                self.l.expect(',');
                let bb = self.opnd(ty);
                let d = self.def(&dst.unwrap(), ty);
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                Inst::Bin { op: o, ty, a, b: bb, d }
            }
            "fneg" => {
                self.flags();
                let (ty, a) = self.tyopnd();
                let d = self.def(&dst.unwrap(), ty);
                Inst::FNeg { ty, a, d }
            }
            "icmp" => {
                let mut p = String::new();
                while let Tok::Id(w) = self.l.peek().clone() {
                    if is_type_word(&w) {
                        break;
                    }
                    self.l.next();
                    if w != "samesign" {
                        p = w;
                    }
                }
                let ty = self.ty();
                let a = self.opnd(ty);
                self.l.expect(',');
                let bb = self.opnd(ty);
                let rt = self.cmp_ty(ty, i1);
                let d = self.def(&dst.unwrap(), rt);
                let pred = match p.as_str() {
                    "eq" => IPred::Eq,
                    "ne" => IPred::Ne,
                    "ugt" => IPred::Ugt,
                    "uge" => IPred::Uge,
                    "ult" => IPred::Ult,
                    "ule" => IPred::Ule,
                    "sgt" => IPred::Sgt,
                    "sge" => IPred::Sge,
                    "slt" => IPred::Slt,
                    "sle" => IPred::Sle,
                    _ => panic!("icmp {}", p),
                };
                Inst::ICmp { pred, ty, a, b: bb, d }
            }
            "fcmp" => {
                let mut p = String::new();
                while let Tok::Id(w) = self.l.peek().clone() {
                    if is_type_word(&w) {
                        break;
                    }
                    self.l.next();
                    p = w;
                }
                let ty = self.ty();
                let a = self.opnd(ty);
                self.l.expect(',');
                let bb = self.opnd(ty);
                let rt = self.cmp_ty(ty, i1);
                let d = self.def(&dst.unwrap(), rt);
                let pred = match p.as_str() {
                    "false" => FPred::False,
                    "oeq" => FPred::Oeq,
                    "ogt" => FPred::Ogt,
                    "oge" => FPred::Oge,
                    "olt" => FPred::Olt,
                    "ole" => FPred::Ole,
                    "one" => FPred::One,
                    "ord" => FPred::Ord,
                    "ueq" => FPred::Ueq,
                    "ugt" => FPred::Ugt,
                    "uge" => FPred::Uge,
                    "ult" => FPred::Ult,
                    "ule" => FPred::Ule,
                    "une" => FPred::Une,
                    "uno" => FPred::Uno,
                    "true" => FPred::True,
                    _ => panic!("fcmp {}", p),
                };
                Inst::FCmp { pred, ty, a, b: bb, d }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptoui" | "fptosi" | "uitofp"
            | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" => {
                self.flags();
                let (from, a) = self.tyopnd();
                assert!(self.l.eat_id("to"));
                let to = self.ty();
                let d = self.def(&dst.unwrap(), to);
                let o = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" | "addrspacecast" => CastOp::BitCast,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fptrunc" => CastOp::FpTrunc,
                    _ => CastOp::FpExt,
                };
                Inst::Cast { op: o, from, to, a, d }
            }
            "select" => {
                self.flags();
                let (cty, c) = self.tyopnd();
                self.l.expect(',');
                let (ty, a) = self.tyopnd();
                self.l.expect(',');
                let (_, bb) = self.tyopnd();
                let d = self.def(&dst.unwrap(), ty);
                Inst::Select { cty, ty, c, a, b: bb, d }
            }
            "freeze" => {
                let (ty, a) = self.tyopnd();
                let d = self.def(&dst.unwrap(), ty);
                Inst::Freeze { a, d }
            }
            "alloca" => {
                self.l.eat_id("inalloca");
                let ty = self.ty();
                let mut count = None;
                let mut align = self.ts.align(ty);
                while self.l.eat_p(',') {
                    if self.l.eat_id("align") {
                        align = num(&mut self.l) as u64;
                    } else if let Tok::Meta = self.l.peek() {
                        self.l.next();
                        if let Tok::Meta = self.l.peek() {
                            self.l.next();
                        }
                    } else if self.l.is_id("addrspace") {
                        self.l.next();
                        self.l.skip_parens();
                    } else {
                        let (_, o) = self.tyopnd();
                        count = Some(o);
                    }
                }
                let size = self.ts.size(ty);
                let d = self.def(&dst.unwrap(), ptr);
                Inst::Alloca { size, align, count, d }
            }
            "load" => {
                self.l.eat_id("atomic");
                self.l.eat_id("volatile");
                let ty = self.ty();
                self.l.expect(',');
                let (_, p) = self.tyopnd();
                self.skip_to_eol();
                let d = self.def(&dst.unwrap(), ty);
                Inst::Load { ty, p, d }
            }
            "store" => {
                self.l.eat_id("atomic");
                self.l.eat_id("volatile");
                let (ty, v) = self.tyopnd();
                self.l.expect(',');
                let (_, p) = self.tyopnd();
                self.skip_to_eol();
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                while let Tok::Id(w) = self.l.peek().clone() {
                    if is_type_word(&w) {
                        break;
                    }
                    self.l.next();
                    if self.l.is_p('(') {
                        self.l.skip_parens();
                    }
                }
                let src = self.ty();
                self.l.expect(',');
                let (_, base) = self.tyopnd();
                let mut idx = vec![];
                while self.l.eat_p(',') {
                    if let Tok::Meta = self.l.peek() {
                        break;
                    }
                    idx.push(self.tyopnd());
                }
                self.skip_to_eol();
                let d = self.def(&dst.unwrap(), ptr);
                Inst::Gep { src, base, idx, d }
            }
            "extractvalue" => {
                let (ty, a) = self.tyopnd();
                let mut idx = vec![];
                let mut t = ty;
                while self.l.eat_p(',') {
                    if let Tok::Meta = self.l.peek() {
                        break;
                    }
                    let i = num(&mut self.l) as u32;
                    t = self.ts.elem(t, i as usize);
                    idx.push(i);
                }
                let d = self.def(&dst.unwrap(), t);
                Inst::ExtractValue { ty, a, idx, d }
            }
            "insertvalue" => {
                let (ty, a) = self.tyopnd();
                self.l.expect(',');
                let (_, v) = self.tyopnd();
                let mut idx = vec![];
                while self.l.eat_p(',') {
                    if let Tok::Meta = self.l.peek() {
                        break;
                    }
                    idx.push(num(&mut self.l) as u32);
                }
                let d = self.def(&dst.unwrap(), ty);
                Inst::InsertValue { ty, a, v, idx, d }
            }
            "extractelement" => {
                let (ty, a) = self.tyopnd();
                self.l.expect(',');
                let (_, i) = self.tyopnd();
                let et = self.ts.elem(ty, 0);
                let d = self.def(&dst.unwrap(), et);
                Inst::ExtractElem { ty, a, i, d }
            }
            "insertelement" => {
                let (ty, a) = self.tyopnd();
                self.l.expect(',');
                let (_, v) = self.tyopnd();
                self.l.expect(',');
                let (_, i) = self.tyopnd();
                let d = self.def(&dst.unwrap(), ty);
                Inst::InsertElem { ty, a, v, i, d }
            }
            "shufflevector" => {
                let (ty, a) = self.tyopnd();
                self.l.expect(',');
                let (_, bb) = self.tyopnd();
                self.l.expect(',');
                let mt = self.ty();
                let c = parse_const(&mut self.l, self.ts, mt);
                let n = self.ts.nelem(mt);
                let mask: Vec<i64> = match c {
                    Const::Agg(v) => v.iter().map(|x| if let Const::Int(k) = x.1 { k as i64 } else { -1 }).collect(),
                    Const::Zero => vec![0; n],
                    _ => vec![-1; n],
                };
                let et = self.ts.elem(ty, 0);
                let rt = self.ts.intern(Ty::Vec(n as u64, et));
                let d = self.def(&dst.unwrap(), rt);
                Inst::Shuffle { ty, a, b: bb, mask, d }
            }
            "phi" => {
                self.flags();
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.l.expect('[');
                    let o = self.opnd(ty);
                    self.l.expect(',');
                    let Tok::Local(n) = self.l.next() else { panic!() };
                    let bb = self.blk(&n);
                    self.l.expect(']');
                    inc.push((bb, o));
                    if !self.l.eat_p(',') {
                        break;
                    }
                    if let Tok::Meta = self.l.peek() {
                        break;
                    }
                }
                self.skip_to_eol();
                let d = self.def(&dst.unwrap(), ty);
                b.phis.push(Phi { d, inc });
                return;
            }
            "call" => {
                // flags, calling convention, return attributes
                skip_attrs(&mut self.l, true);
                let rty = self.ty();
                // optional function type "(...)"
                if self.l.is_p('(') {
                    self.l.skip_parens();
                }
                let callee = match self.l.next() {
                    Tok::GlobalN(n) => Callee::Named(n),
                    Tok::Local(n) => Callee::Ind(Opnd::Reg(self.reg(&n))),
                    Tok::Id(w) if w == "asm" => {
                        while !self.l.is_p('(') {
                            self.l.next();
                        }
                        Callee::Asm
                    }
                    x => panic!("callee {:?} near {}", x, self.l.rest_near()),
                };
                self.l.expect('(');
                let mut args = vec![];
                if !self.l.eat_p(')') {
                    loop {
                        let t = self.ty();
                        skip_attrs(&mut self.l, false);
                        let o = self.opnd(t);
                        args.push((t, o));
                        if self.l.eat_p(')') {
                            break;
                        }
                        self.l.expect(',');
                    }
                }
                // call-site attributes
                let mut noreturn = false;
                self.l.peeked = None;
                let st = self.l.i;
                let mut en = st;
                while en < self.l.end && self.l.s[en] != b'\n' {
                    en += 1;
                }
                let tail = std::str::from_utf8(&self.l.s[st..en]).unwrap();
                // operand bundles may span words only, so plain scanning is enough
                for w in tail.split(|c: char| c.is_whitespace() || c == ',') {
                    if let Some(n) = w.strip_prefix('#') {
                        if let Ok(n) = n.parse::<u32>() {
                            noreturn |= *self.noret.get(&n).unwrap_or(&false);
                        }
                    }
                    if w == "noreturn" {
                        noreturn = true;
                    }
                }
                self.l.i = en;
                let d = dst.map(|n| self.def(&n, rty));
                Inst::Call { callee, rty, args, d, noreturn }
            }
            "cmpxchg" => {
                self.l.eat_id("weak");
                self.l.eat_id("volatile");
                let (_, p) = self.tyopnd();
                self.l.expect(',');
                let (ty, cmp) = self.tyopnd();
                self.l.expect(',');
                let (_, new) = self.tyopnd();
                self.skip_to_eol();
                let rt = self.ts.intern(Ty::Struct(vec![ty, i1], false));
                let d = self.def(&dst.unwrap(), rt);
                Inst::CmpXchg { ty, p, cmp, new, d }
            }
            "atomicrmw" => {
                self.l.eat_id("volatile");
                let Tok::Id(o) = self.l.next() else { panic!() };
                let (_, p) = self.tyopnd();
                self.l.expect(',');
                let (ty, v) = self.tyopnd();
                self.skip_to_eol();
                let d = self.def(&dst.unwrap_or("$unused".into()), ty);
                Inst::AtomicRmw { op: o, ty, p, v, d }
            }
            "fence" => {
                self.skip_to_eol();
                Inst::Nop
            }
            "br" => {
                if self.l.is_id("label") {
                    let t = self.label();
                    self.skip_to_eol();
                    Inst::Br { t }
                } else {
                    let (_, c) = self.tyopnd();
                    self.l.expect(',');
                    let t = self.label();
                    self.l.expect(',');
                    let f = self.label();
                    self.skip_to_eol();
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.tyopnd();
                self.l.expect(',');
                let def = self.label();
                self.l.expect('[');
                let mut cases = vec![];
                while !self.l.eat_p(']') {
                    let t = self.ty();
                    let c = parse_const(&mut self.l, self.ts, t);
                    let k = match c {
                        Const::Int(k) => k,
                        _ => panic!("switch case"),
                    };
                    self.l.expect(',');
                    let bb = self.label();
                    cases.push((k, bb));
                }
                self.skip_to_eol();
                Inst::Switch { ty, v, def, cases }
            }
            "ret" => {
                let ty = self.ty();
                let v = if matches!(self.ts.get(ty), Ty::Void) { None } else { Some(self.opnd(ty)) };
                self.skip_to_eol();
                Inst::Ret { ty, v }
            }
            "unreachable" => {
                self.skip_to_eol();
                Inst::Unreachable
            }
            x => panic!("IR parse: unsupported instruction {} near {}", x, self.l.rest_near()),
        };
        // trailing metadata
        if !matches!(inst, Inst::Load { .. }) {
            while self.l.is_p(',') {
                self.skip_to_eol();
            }
        }
        b.insts.push(inst);
    }
    fn cmp_ty(&mut self, ty: TyId, i1: TyId) -> TyId {
        match self.ts.get(ty) {
            Ty::Vec(n, _) => {
                let n = *n;
                self.ts.intern(Ty::Vec(n, i1))
            }
            _ => i1,
        }
    }
    fn flags(&mut self) {
        while let Tok::Id(w) = self.l.peek().clone() {
            if is_type_word(&w) {
                break;
            }
            self.l.next();
            if self.l.is_p('(') {
                self.l.skip_parens();
            }
        }
    }
}

fn place(blocks: &mut Vec<Option<Block>>, i: u32, b: Block) {
    while blocks.len() <= i as usize {
        blocks.push(None);
    }
    blocks[i as usize] = Some(b);
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last() {
        Some(Inst::Br { t }) => vec![*t],
        Some(Inst::CondBr { t, f, .. }) => vec![*t, *f],
        Some(Inst::Switch { def, cases, .. }) => {
            let mut v: Vec<u32> = cases.iter().map(|c| c.1).collect();
            v.push(*def);
            v.sort();
            v.dedup();
            v
        }
        _ => vec![],
    }
}

fn postdom(f: &mut Func) {
    let n = f.blocks.len();
    let su: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    // live: reaches a ret
    let mut live: Vec<bool> = f.blocks.iter().map(|b| matches!(b.insts.last(), Some(Inst::Ret { .. }))).collect();
    loop {
        let mut ch = false;
        for i in 0..n {
            if !live[i] && su[i].iter().any(|&s| live[s as usize]) {
                live[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // iterative postdominators with a virtual exit n, over live blocks
    let exit = n;
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut rs: Vec<Vec<usize>> = vec![vec![]; n + 1]; // successors including exit
    for i in 0..n {
        if !live[i] {
            continue;
        }
        if matches!(f.blocks[i].insts.last(), Some(Inst::Ret { .. })) {
            rs[i].push(exit);
            preds[exit].push(i);
        }
        for &s in &su[i] {
            if live[s as usize] {
                rs[i].push(s as usize);
                preds[s as usize].push(i);
            }
        }
    }
    // order: reverse postorder on the reversed graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((v, k)) = st.pop() {
        if k < preds[v].len() {
            st.push((v, k + 1));
            let w = preds[v][k];
            if !seen[w] {
                seen[w] = true;
                st.push((w, 0));
            }
        } else {
            order.push(v);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, &v) in order.iter().enumerate() {
        num[v] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    loop {
        let mut ch = false;
        for &v in order.iter().skip(1) {
            let mut d = usize::MAX;
            for &s in &rs[v] {
                if idom[s] == usize::MAX {
                    continue;
                }
                if d == usize::MAX {
                    d = s;
                } else {
                    let (mut a, mut b) = (d, s);
                    while a != b {
                        while num[a] > num[b] {
                            a = idom[a];
                        }
                        while num[b] > num[a] {
                            b = idom[b];
                        }
                    }
                    d = a;
                }
            }
            if d != idom[v] {
                idom[v] = d;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    f.ipdom = (0..n).map(|i| if idom[i] >= n { u32::MAX } else { idom[i] as u32 }).collect();
    f.live = live;
}
