//! Hash-consed terms with local simplification.  Float terms have one meaning (IEEE single /
//! double, round to nearest); the SMT printer chooses how to encode them (bit-precise, or as
//! reals where the exactness analysis shows that no rounding can happen).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type T = u32;
pub const NONE: T = u32::MAX;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Bool,
    Bv(u32),
    F32,
    F64,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    CBool(bool),
    CBv(u128),
    CF(u64),
    Var(u32),
    Not,
    And,
    Or,
    Ite,
    Eq,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    BAnd,
    BOr,
    BXor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract(u32, u32),
    ZExt,
    SExt,
    Ult,
    Ule,
    Slt,
    Sle,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FNeg,
    FAbs,
    FSqrt,
    FMax,
    FMin,
    FEq,
    FLt,
    FLe,
    FNan,
    BitsToF,
    FToBits,
    UToF,
    SToF,
    FToU, // saturating
    FToS, // saturating
    FCvt,
    Exp,
    FSame, // the same float value (all NaN alike, zeros distinguished)
    FClose, // ideal equality: equality over the reals, tolerance natively
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub a: [T; 3],
    pub sort: Sort,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VarKind {
    Bv { lo: u128, hi: u128 },
    FInt { lo: i64, hi: i64 }, // integer-valued float
    FReal,                     // any finite float, to be read as a real
    Fresh,
}

pub struct Var {
    pub name: String,
    pub sort: Sort,
    pub kind: VarKind,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Real,
    Fp,
}

pub struct Terms {
    pub n: Vec<Node>,
    map: FxMap<Node, T>,
    pub vars: Vec<Var>,
    vmap: HashMap<String, T>,
    pub mode: Mode,
    pub inexact: u64,
    /// canonical sums and products in exact mode; off = left to the solver
    pub canon: bool,
    /// exactness domain per term: (max abs, log2 of the unit all values are multiples of)
    exact: FxMap<T, (f64, i32)>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

/// Concrete evaluation of one operation on raw values (bools as 0/1, floats as bits).
pub fn ev(op: Op, s: Sort, ss: [Sort; 3], a: [u128; 3]) -> u128 {
    let w = match s {
        Sort::Bool => 1,
        Sort::Bv(w) => w,
        Sort::F32 => 32,
        Sort::F64 => 64,
    };
    let aw = match ss[0] {
        Sort::Bool => 1,
        Sort::Bv(w) => w,
        Sort::F32 => 32,
        Sort::F64 => 64,
    };
    let (x, y, z) = (a[0], a[1], a[2]);
    let m = mask(w);
    let b = |c: bool| c as u128;
    let f = |v: u128| f32::from_bits(v as u32);
    let d = |v: u128| f64::from_bits(v as u64);
    macro_rules! fop {
        ($e32:expr, $e64:expr) => {
            if ss[0] == Sort::F32 {
                let r: f32 = $e32(f(x), f(y));
                r.to_bits() as u128
            } else {
                let r: f64 = $e64(d(x), d(y));
                r.to_bits() as u128
            }
        };
    }
    macro_rules! fcmp {
        ($o:tt) => {
            if ss[0] == Sort::F32 { b(f(x) $o f(y)) } else { b(d(x) $o d(y)) }
        };
    }
    match op {
        Op::CBool(v) => v as u128,
        Op::CBv(v) => v,
        Op::CF(v) => v as u128,
        Op::Var(_) => panic!(),
        Op::Not => 1 - x,
        Op::And => x & y,
        Op::Or => x | y,
        Op::Ite => {
            if x != 0 {
                y
            } else {
                z
            }
        }
        Op::Eq => b(x == y),
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (p, q) = (sext(x, w), sext(y, w));
            if q == 0 {
                if p < 0 {
                    1
                } else {
                    m
                }
            } else {
                (p.wrapping_div(q) as u128) & m
            }
        }
        Op::SRem => {
            let (p, q) = (sext(x, w), sext(y, w));
            if q == 0 {
                x
            } else {
                (p.wrapping_rem(q) as u128) & m
            }
        }
        Op::BAnd => x & y,
        Op::BOr => x | y,
        Op::BXor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let k = if y >= w as u128 { w - 1 } else { y as u32 };
            ((sext(x, w) >> k) as u128) & m
        }
        Op::Concat => {
            let lw = match ss[1] {
                Sort::Bv(w) => w,
                _ => 1,
            };
            (x << lw) | y
        }
        Op::Extract(h, l) => (x >> l) & mask(h - l + 1),
        Op::ZExt => x,
        Op::SExt => (sext(x, aw) as u128) & m,
        Op::Ult => b(x < y),
        Op::Ule => b(x <= y),
        Op::Slt => b(sext(x, aw) < sext(y, aw)),
        Op::Sle => b(sext(x, aw) <= sext(y, aw)),
        Op::FAdd => fop!(|p: f32, q: f32| p + q, |p: f64, q: f64| p + q),
        Op::FSub => fop!(|p: f32, q: f32| p - q, |p: f64, q: f64| p - q),
        Op::FMul => fop!(|p: f32, q: f32| p * q, |p: f64, q: f64| p * q),
        Op::FDiv => fop!(|p: f32, q: f32| p / q, |p: f64, q: f64| p / q),
        Op::FRem => fop!(|p: f32, q: f32| p % q, |p: f64, q: f64| p % q),
        Op::FNeg => {
            if ss[0] == Sort::F32 {
                x ^ 0x8000_0000
            } else {
                x ^ (1u128 << 63)
            }
        }
        Op::FAbs => {
            if ss[0] == Sort::F32 {
                x & 0x7fff_ffff
            } else {
                x & ((1u128 << 63) - 1)
            }
        }
        Op::FSqrt => fop!(|p: f32, _| p.sqrt(), |p: f64, _| p.sqrt()),
        Op::Exp => fop!(|p: f32, _| p.exp(), |p: f64, _| p.exp()),
        Op::FMax => fop!(fmax32, fmax64),
        Op::FMin => fop!(fmin32, fmin64),
        Op::FEq => fcmp!(==),
        Op::FLt => fcmp!(<),
        Op::FLe => fcmp!(<=),
        Op::FNan => {
            if ss[0] == Sort::F32 {
                b(f(x).is_nan())
            } else {
                b(d(x).is_nan())
            }
        }
        Op::BitsToF | Op::FToBits => x,
        Op::UToF => {
            if s == Sort::F32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::SToF => {
            let v = sext(x, aw);
            if s == Sort::F32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        Op::FToU => {
            let v = if ss[0] == Sort::F32 { f(x) as f64 } else { d(x) };
            let r = v as u128;
            r.min(m)
        }
        Op::FToS => {
            let v = if ss[0] == Sort::F32 { f(x) as f64 } else { d(x) };
            let hi = (1i128 << (w - 1)) - 1;
            let r = (v as i128).clamp(-hi - 1, hi);
            (r as u128) & m
        }
        Op::FCvt => {
            if s == ss[0] {
                x
            } else if s == Sort::F32 {
                (d(x) as f32).to_bits() as u128
            } else {
                (f(x) as f64).to_bits() as u128
            }
        }
        Op::FSame => {
            let (nx, ny) = if ss[0] == Sort::F32 { (f(x).is_nan(), f(y).is_nan()) } else { (d(x).is_nan(), d(y).is_nan()) };
            b(x == y || nx && ny)
        }
        Op::FClose => {
            let (p, q) = if ss[0] == Sort::F32 { (f(x) as f64, f(y) as f64) } else { (d(x), d(y)) };
            b(fclose(p, q))
        }
    }
}

/// The native meaning of "ideally equal".
pub fn fclose(p: f64, q: f64) -> bool {
    (p - q).abs() <= 1e-30 + 1e-3 * p.abs().max(q.abs())
}

fn fmax32(p: f32, q: f32) -> f32 {
    if p.is_nan() {
        q
    } else if q.is_nan() {
        p
    } else if p > q || (p == q && q.is_sign_negative()) {
        p
    } else {
        q
    }
}
fn fmin32(p: f32, q: f32) -> f32 {
    if p.is_nan() {
        q
    } else if q.is_nan() {
        p
    } else if p < q || (p == q && p.is_sign_negative()) {
        p
    } else {
        q
    }
}
fn fmax64(p: f64, q: f64) -> f64 {
    if p.is_nan() {
        q
    } else if q.is_nan() {
        p
    } else if p > q || (p == q && q.is_sign_negative()) {
        p
    } else {
        q
    }
}
fn fmin64(p: f64, q: f64) -> f64 {
    if p.is_nan() {
        q
    } else if q.is_nan() {
        p
    } else if p < q || (p == q && p.is_sign_negative()) {
        p
    } else {
        q
    }
}

pub fn arity(op: Op) -> usize {
    match op {
        Op::CBool(_) | Op::CBv(_) | Op::CF(_) | Op::Var(_) => 0,
        Op::Not | Op::Extract(..) | Op::ZExt | Op::SExt | Op::FNeg | Op::FAbs | Op::FSqrt | Op::FNan | Op::BitsToF | Op::FToBits
        | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FCvt | Op::Exp => 1,
        Op::Ite => 3,
        _ => 2,
    }
}

impl Terms {
    pub fn new(mode: Mode) -> Terms {
        let mut t = Terms {
            n: vec![],
            map: FxMap::default(),
            vars: vec![],
            vmap: HashMap::new(),
            mode,
            inexact: 0,
            canon: false,
            exact: FxMap::default(),
        };
        t.raw(Op::CBool(false), [NONE; 3], Sort::Bool);
        t.raw(Op::CBool(true), [NONE; 3], Sort::Bool);
        t
    }
    pub const FALSE: T = 0;
    pub const TRUE: T = 1;
    fn raw(&mut self, op: Op, a: [T; 3], sort: Sort) -> T {
        let n = Node { op, a, sort };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.n.len() as T;
        self.n.push(n.clone());
        self.map.insert(n, t);
        t
    }
    pub fn sort(&self, t: T) -> Sort {
        self.n[t as usize].sort
    }
    pub fn width(&self, t: T) -> u32 {
        match self.sort(t) {
            Sort::Bool => 1,
            Sort::Bv(w) => w,
            Sort::F32 => 32,
            Sort::F64 => 64,
        }
    }
    pub fn bool(&self, b: bool) -> T {
        b as T
    }
    pub fn bv(&mut self, v: u128, w: u32) -> T {
        self.raw(Op::CBv(v & mask(w)), [NONE; 3], Sort::Bv(w))
    }
    pub fn fc(&mut self, bits: u64, s: Sort) -> T {
        let mut bits = bits;
        if self.mode == Mode::Real && s == Sort::F32 && bits == 0x8000_0000 {
            bits = 0; // reals have one zero
        }
        self.raw(Op::CF(bits), [NONE; 3], s)
    }
    pub fn var(&mut self, name: &str, sort: Sort, kind: VarKind) -> T {
        let key = format!("{}:{:?}:{:?}", name, sort, kind);
        if let Some(&t) = self.vmap.get(&key) {
            return t;
        }
        let i = self.vars.len() as u32;
        self.vars.push(Var { name: format!("{}_{}", name, i), sort, kind });
        let t = self.raw(Op::Var(i), [NONE; 3], sort);
        self.vmap.insert(key, t);
        t
    }
    /// raw constant value if constant
    pub fn cv(&self, t: T) -> Option<u128> {
        match self.n[t as usize].op {
            Op::CBool(b) => Some(b as u128),
            Op::CBv(v) => Some(v),
            Op::CF(v) => Some(v as u128),
            _ => None,
        }
    }
    pub fn konst(&mut self, v: u128, s: Sort) -> T {
        match s {
            Sort::Bool => (v & 1) as T,
            Sort::Bv(w) => self.bv(v, w),
            _ => self.fc(v as u64, s),
        }
    }
    fn op(&self, t: T) -> Op {
        self.n[t as usize].op
    }
    fn arg(&self, t: T, i: usize) -> T {
        self.n[t as usize].a[i]
    }
    /// is `t` an ite tree whose leaves are constants, with at most `lim` leaves?
    fn const_tree(&self, t: T, lim: &mut i32) -> bool {
        match self.op(t) {
            Op::Ite => {
                let (a, b) = (self.arg(t, 1), self.arg(t, 2));
                self.const_tree(a, lim) && self.const_tree(b, lim)
            }
            _ => {
                *lim -= 1;
                *lim >= 0 && self.cv(t).is_some()
            }
        }
    }
    fn is_ctree(&self, t: T) -> bool {
        matches!(self.op(t), Op::Ite) && {
            let mut l = 24;
            self.const_tree(t, &mut l)
        }
    }
    /// Leaves of an ite tree over constants.
    pub fn leaves(&self, t: T, out: &mut Vec<u128>) -> bool {
        match self.op(t) {
            Op::Ite => {
                let (a, b) = (self.arg(t, 1), self.arg(t, 2));
                self.leaves(a, out) && self.leaves(b, out)
            }
            _ => {
                if let Some(v) = self.cv(t) {
                    if !out.contains(&v) {
                        out.push(v);
                    }
                    out.len() <= 64
                } else {
                    false
                }
            }
        }
    }
    fn map_tree(&mut self, t: T, f: &mut dyn FnMut(&mut Terms, T) -> T) -> T {
        if let Op::Ite = self.op(t) {
            let [c, a, b] = self.n[t as usize].a;
            let x = self.map_tree(a, f);
            let y = self.map_tree(b, f);
            return self.ite(c, x, y);
        }
        f(self, t)
    }
    pub fn not(&mut self, a: T) -> T {
        match self.op(a) {
            Op::CBool(b) => (!b) as T,
            Op::Not => self.arg(a, 0),
            _ => self.raw(Op::Not, [a, NONE, NONE], Sort::Bool),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 || a == b {
            return b;
        }
        if b == 1 {
            return a;
        }
        if self.not(a) == b {
            return 0;
        }
        // absorption with a nested conjunction
        if self.op(a) == Op::And && (self.arg(a, 0) == b || self.arg(a, 1) == b) {
            return a;
        }
        if self.op(b) == Op::And && (self.arg(b, 0) == a || self.arg(b, 1) == a) {
            return b;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::And, [a, b, NONE], Sort::Bool)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == 1 || b == 1 {
            return 1;
        }
        if a == 0 || a == b {
            return b;
        }
        if b == 0 {
            return a;
        }
        if self.not(a) == b {
            return 1;
        }
        // (c & x) | (!c & x) = x
        if self.op(a) == Op::And && self.op(b) == Op::And {
            let (a0, a1, b0, b1) = (self.arg(a, 0), self.arg(a, 1), self.arg(b, 0), self.arg(b, 1));
            for (p, q) in [(a0, a1), (a1, a0)] {
                for (r, s) in [(b0, b1), (b1, b0)] {
                    if q == s && self.not(p) == r {
                        return q;
                    }
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Or, [a, b, NONE], Sort::Bool)
    }
    pub fn imp(&mut self, a: T, b: T) -> T {
        let n = self.not(a);
        self.or(n, b)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == 1 || a == b {
            return a;
        }
        if c == 0 {
            return b;
        }
        if let Op::Not = self.op(c) {
            let c2 = self.arg(c, 0);
            return self.ite(c2, b, a);
        }
        let s = self.sort(a);
        debug_assert_eq!(s, self.sort(b));
        if s == Sort::Bool {
            if a == 1 && b == 0 {
                return c;
            }
            if a == 0 && b == 1 {
                return self.not(c);
            }
            if a == 1 {
                return self.or(c, b);
            }
            if a == 0 {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == 0 {
                return self.and(c, a);
            }
            if b == 1 {
                let n = self.not(c);
                return self.or(n, a);
            }
        }
        let mut a = a;
        let mut b = b;
        if self.op(a) == Op::Ite && self.arg(a, 0) == c {
            a = self.arg(a, 1);
        }
        if self.op(b) == Op::Ite && self.arg(b, 0) == c {
            b = self.arg(b, 2);
        }
        if a == b {
            return a;
        }
        if self.mode == Mode::Real && self.op(c) == Op::FLt && matches!(s, Sort::F32 | Sort::F64) {
            // one form for maxima and minima
            let (p, q) = (self.arg(c, 0), self.arg(c, 1));
            if p > q && self.sort(p) == s && (a, b) == (q, p) {
                let c2 = self.fcmp(Op::FLt, q, p);
                return self.raw(Op::Ite, [c2, p, q], s);
            }
            if p > q && self.sort(p) == s && (a, b) == (p, q) {
                let c2 = self.fcmp(Op::FLt, q, p);
                return self.raw(Op::Ite, [c2, q, p], s);
            }
        }
        self.raw(Op::Ite, [c, a, b], s)
    }
    /// the operands of a nested sum or product, in the order of the canonical form
    fn operands(&self, op: Op, t: T) -> Vec<T> {
        let mut v = vec![];
        let mut x = t;
        while self.op(x) == op {
            v.push(self.arg(x, 1));
            x = self.arg(x, 0);
        }
        v.push(x);
        v.reverse();
        v
    }
    /// Sums and products of exact numbers in one canonical form, so that two orders of
    /// evaluation of the same sum are the same term.
    fn ac(&mut self, op: Op, a: T, b: T) -> T {
        let s = self.sort(a);
        let mut v = self.operands(op, a);
        let w = self.operands(op, b);
        if v.len() + w.len() > 600 {
            let r = self.raw(op, [a.min(b), a.max(b), NONE], s);
            self.note_exact(r);
            return r;
        }
        v.extend(w);
        v.sort();
        if op == Op::FAdd {
            // opposite terms cancel
            let mut i = 0;
            while i < v.len() {
                if self.op(v[i]) == Op::FNeg {
                    let x = self.arg(v[i], 0);
                    if let Some(j) = v.iter().position(|&y| y == x) {
                        let (lo, hi) = (i.min(j), i.max(j));
                        v.remove(hi);
                        v.remove(lo);
                        i = lo;
                        continue;
                    }
                }
                i += 1;
            }
        }
        // gather the constants
        let mut k: Option<T> = None;
        let mut rest = vec![];
        for t in v {
            if self.cv(t).is_some() {
                k = Some(match k {
                    None => t,
                    Some(o) => self.fold(op, s, &[o, t]).unwrap(),
                });
            } else {
                rest.push(t);
            }
        }
        let unit = if op == Op::FAdd { 0.0 } else { 1.0 };
        if let Some(c) = k {
            if op == Op::FMul && self.fval(c) == Some(0.0) {
                return c;
            }
            if self.fval(c) != Some(unit) {
                rest.push(c);
            }
        }
        if rest.is_empty() {
            let z = self.fc(if op == Op::FAdd { 0 } else if s == Sort::F32 { 1f32.to_bits() as u64 } else { 1f64.to_bits() }, s);
            return z;
        }
        let mut r = rest[0];
        for &t in &rest[1..] {
            r = self.raw(op, [r, t, NONE], s);
        }
        self.note_exact(r);
        r
    }
    fn fold(&mut self, op: Op, s: Sort, a: &[T]) -> Option<T> {
        let mut v = [0u128; 3];
        let mut ss = [Sort::Bool; 3];
        for (i, &t) in a.iter().enumerate() {
            v[i] = self.cv(t)?;
            ss[i] = self.sort(t);
        }
        let r = ev(op, s, ss, v);
        Some(self.konst(r, s))
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return 1; // only used on non-floats
        }
        if let Some(r) = self.fold(Op::Eq, Sort::Bool, &[a, b]) {
            return r;
        }
        if self.sort(a) == Sort::Bool {
            if a == 1 {
                return b;
            }
            if b == 1 {
                return a;
            }
            if a == 0 {
                return self.not(b);
            }
            if b == 0 {
                return self.not(a);
            }
        }
        if self.is_ctree(a) && self.cv(b).is_some() {
            return self.map_tree(a, &mut |s, l| s.eq(l, b));
        }
        if self.is_ctree(b) && self.cv(a).is_some() {
            return self.map_tree(b, &mut |s, l| s.eq(l, a));
        }
        // zext(x) == c
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.cv(q) {
                match self.op(p) {
                    Op::ZExt => {
                        let x = self.arg(p, 0);
                        let w = self.width(x);
                        if c > mask(w) {
                            return 0;
                        }
                        let k = self.konst(c, self.sort(x));
                        return self.eq(x, k);
                    }
                    Op::Concat => {
                        let (h, l) = (self.arg(p, 0), self.arg(p, 1));
                        let lw = self.width(l);
                        let hw = self.width(h);
                        let kh = self.bv(c >> lw, hw);
                        let kl = self.bv(c, lw);
                        let e1 = self.eq(h, kh);
                        let e2 = self.eq(l, kl);
                        return self.and(e1, e2);
                    }
                    _ => {}
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Eq, [a, b, NONE], Sort::Bool)
    }
    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let s = self.sort(a);
        if s == Sort::Bool {
            return match op {
                Op::BAnd => self.and(a, b),
                Op::BOr => self.or(a, b),
                Op::BXor | Op::Add | Op::Sub => {
                    let n = self.not(b);
                    self.ite(a, n, b)
                }
                Op::Mul => self.and(a, b),
                _ => panic!("bool op {:?}", op),
            };
        }
        let w = self.width(a);
        if let Some(r) = self.fold(op, s, &[a, b]) {
            return r;
        }
        let ca = self.cv(a);
        let cb = self.cv(b);
        match op {
            Op::Add => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                // (x + k1) + k2
                if let Some(k2) = cb {
                    if self.op(a) == Op::Add {
                        if let Some(k1) = self.cv(self.arg(a, 1)) {
                            let k = self.bv(k1.wrapping_add(k2), w);
                            let x = self.arg(a, 0);
                            return self.bin(Op::Add, x, k);
                        }
                    }
                }
                if ca.is_some() {
                    return self.bin(Op::Add, b, a);
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.bv(0, w);
                }
                if let Some(k) = cb {
                    let nk = self.bv(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, nk);
                }
            }
            Op::Mul => {
                if ca == Some(0) || cb == Some(0) {
                    return self.bv(0, w);
                }
                if ca == Some(1) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            Op::URem => {
                if cb == Some(1) {
                    return self.bv(0, w);
                }
            }
            Op::BAnd => {
                if ca == Some(0) || cb == Some(0) {
                    return self.bv(0, w);
                }
                if ca == Some(mask(w)) || a == b {
                    return b;
                }
                if cb == Some(mask(w)) {
                    return a;
                }
                // low mask
                if let Some(k) = cb {
                    if k & (k + 1) == 0 {
                        let n = 128 - k.leading_zeros();
                        let e = self.extract(a, n - 1, 0);
                        return self.zext(e, w);
                    }
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
            }
            Op::BOr => {
                if ca == Some(0) || a == b {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(r) = self.or_concat(a, b) {
                    return r;
                }
                if let Some(r) = self.or_concat(b, a) {
                    return r;
                }
            }
            Op::BXor => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.bv(0, w);
                }
            }
            Op::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.bv(0, w);
                    }
                    let k = k as u32;
                    let e = self.extract(a, w - 1 - k, 0);
                    let z = self.bv(0, k);
                    return self.concat(e, z);
                }
            }
            Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.bv(0, w);
                    }
                    let e = self.extract(a, w - 1, k as u32);
                    return self.zext(e, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
            }
            _ => {}
        }
        if cb.is_some() && self.is_ctree(a) {
            return self.map_tree(a, &mut |s, l| s.bin(op, l, b));
        }
        if ca.is_some() && self.is_ctree(b) {
            return self.map_tree(b, &mut |s, l| s.bin(op, a, l));
        }
        self.raw(op, [a, b, NONE], s)
    }
    /// zext(x) | (y ++ 0..0) where they do not overlap
    fn or_concat(&mut self, hi: T, lo: T) -> Option<T> {
        if self.op(hi) != Op::Concat {
            return None;
        }
        let (h, l) = (self.arg(hi, 0), self.arg(hi, 1));
        if self.cv(l) != Some(0) {
            return None;
        }
        let lw = self.width(l);
        let w = self.width(hi);
        let top = self.extract(lo, w - 1, lw);
        if self.cv(top) == Some(0) {
            let bot = self.extract(lo, lw - 1, 0);
            return Some(self.concat(h, bot));
        }
        None
    }
    pub fn extract(&mut self, a: T, h: u32, l: u32) -> T {
        let w = self.width(a);
        if l == 0 && h + 1 == w {
            return a;
        }
        let s = Sort::Bv(h - l + 1);
        if let Some(v) = self.cv(a) {
            return self.bv(v >> l, h - l + 1);
        }
        match self.op(a) {
            Op::Extract(_, l2) => {
                let x = self.arg(a, 0);
                return self.extract(x, h + l2, l + l2);
            }
            Op::Concat => {
                let (x, y) = (self.arg(a, 0), self.arg(a, 1));
                let lw = self.width(y);
                if h < lw {
                    return self.extract(y, h, l);
                }
                if l >= lw {
                    return self.extract(x, h - lw, l - lw);
                }
                let p = self.extract(x, h - lw, 0);
                let q = self.extract(y, lw - 1, l);
                return self.concat(p, q);
            }
            Op::ZExt => {
                let x = self.arg(a, 0);
                let xw = self.width(x);
                if l >= xw {
                    return self.bv(0, h - l + 1);
                }
                if self.sort(x) == Sort::Bool {
                    return self.zext(x, h - l + 1);
                }
                if h < xw {
                    return self.extract(x, h, l);
                }
                let e = self.extract(x, xw - 1, l);
                return self.zext(e, h - l + 1);
            }
            Op::SExt => {
                let x = self.arg(a, 0);
                let xw = self.width(x);
                if self.sort(x) != Sort::Bool && h < xw {
                    return self.extract(x, h, l);
                }
            }
            Op::Ite if self.is_ctree(a) => {
                return self.map_tree(a, &mut |t, x| t.extract(x, h, l));
            }
            Op::Add | Op::Sub | Op::Mul | Op::BAnd | Op::BOr | Op::BXor if l == 0 => {
                // low bits only depend on low bits
                let (x, y) = (self.arg(a, 0), self.arg(a, 1));
                let op = self.op(a);
                let x = self.extract(x, h, 0);
                let y = self.extract(y, h, 0);
                return self.bin(op, x, y);
            }
            _ => {}
        }
        self.raw(Op::Extract(h, l), [a, NONE, NONE], s)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let w = self.width(h) + self.width(l);
        if let Some(r) = self.fold(Op::Concat, Sort::Bv(w), &[h, l]) {
            return r;
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Op::Extract(h1, l1), Op::Extract(h2, l2)) = (self.op(h), self.op(l)) {
            if self.arg(h, 0) == self.arg(l, 0) && h2 + 1 == l1 {
                let x = self.arg(h, 0);
                return self.extract(x, h1, l2);
            }
        }
        // h ++ (l1 ++ l2) with h,l1 adjacent extracts
        if self.op(l) == Op::Concat {
            let (l1, l2) = (self.arg(l, 0), self.arg(l, 1));
            if let (Op::Extract(_, a), Op::Extract(b, _)) = (self.op(h), self.op(l1)) {
                if self.arg(h, 0) == self.arg(l1, 0) && b + 1 == a {
                    let x = self.concat(h, l1);
                    return self.concat(x, l2);
                }
            }
        }
        self.raw(Op::Concat, [h, l, NONE], Sort::Bv(w))
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.width(a);
        if self.sort(a) != Sort::Bool && aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.bv(v, w);
        }
        if self.op(a) == Op::ZExt {
            let x = self.arg(a, 0);
            return self.zext(x, w);
        }
        if self.is_ctree(a) {
            return self.map_tree(a, &mut |t, x| t.zext(x, w));
        }
        self.raw(Op::ZExt, [a, NONE, NONE], Sort::Bv(w))
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.width(a);
        if self.sort(a) != Sort::Bool && aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.bv(sext(v, aw) as u128, w);
        }
        if self.is_ctree(a) {
            return self.map_tree(a, &mut |t, x| t.sext(x, w));
        }
        if self.op(a) == Op::ZExt {
            return self.zext(a, w);
        }
        self.raw(Op::SExt, [a, NONE, NONE], Sort::Bv(w))
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T {
        // to i1 gives a Bool
        if w == 1 {
            if self.op(a) == Op::ZExt && self.sort(self.arg(a, 0)) == Sort::Bool {
                return self.arg(a, 0);
            }
            let e = self.extract(a, 0, 0);
            if self.op(e) == Op::ZExt && self.sort(self.arg(e, 0)) == Sort::Bool {
                return self.arg(e, 0);
            }
            let one = self.bv(1, 1);
            return self.eq(e, one);
        }
        self.extract(a, w - 1, 0)
    }
    fn range(&self, t: T) -> (u128, u128) {
        // unsigned range, cheap
        let w = self.width(t);
        match self.op(t) {
            Op::CBv(v) => (v, v),
            Op::ZExt => self.range(self.arg(t, 0)),
            Op::Var(i) => match self.vars[i as usize].kind {
                VarKind::Bv { lo, hi } => (lo, hi),
                _ => (0, mask(w)),
            },
            Op::URem => {
                if let Some(k) = self.cv(self.arg(t, 1)) {
                    if k > 0 {
                        return (0, k - 1);
                    }
                }
                (0, mask(w))
            }
            Op::Add => {
                let (a, b) = (self.range(self.arg(t, 0)), self.range(self.arg(t, 1)));
                match (a.1).checked_add(b.1) {
                    Some(h) if h <= mask(w) => (a.0 + b.0, h),
                    _ => (0, mask(w)),
                }
            }
            Op::Mul => {
                let (a, b) = (self.range(self.arg(t, 0)), self.range(self.arg(t, 1)));
                match (a.1).checked_mul(b.1) {
                    Some(h) if h <= mask(w) => (a.0 * b.0, h),
                    _ => (0, mask(w)),
                }
            }
            Op::Ite => {
                let (a, b) = (self.arg(t, 1), self.arg(t, 2));
                if self.op(a) == Op::Ite && self.op(b) == Op::Ite {
                    return (0, mask(w));
                }
                let (x, y) = (self.range(a), self.range(b));
                (x.0.min(y.0), x.1.max(y.1))
            }
            _ => (0, mask(w)),
        }
    }
    pub fn cmp(&mut self, op: Op, a: T, b: T) -> T {
        if a == b {
            return matches!(op, Op::Ule | Op::Sle) as T;
        }
        if let Some(r) = self.fold(op, Sort::Bool, &[a, b]) {
            return r;
        }
        if self.sort(a) == Sort::Bool {
            return match op {
                Op::Ult => {
                    let n = self.not(a);
                    self.and(n, b)
                }
                Op::Ule => {
                    let n = self.not(a);
                    self.or(n, b)
                }
                _ => panic!("signed i1 compare"),
            };
        }
        if op == Op::Ult || op == Op::Ule {
            let (x, y) = (self.range(a), self.range(b));
            if op == Op::Ult {
                if x.1 < y.0 {
                    return 1;
                }
                if x.0 >= y.1 {
                    return 0;
                }
            } else {
                if x.1 <= y.0 {
                    return 1;
                }
                if x.0 > y.1 {
                    return 0;
                }
            }
        } else {
            // both known non-negative: unsigned comparison
            let h = mask(self.width(a)) >> 1;
            let (x, y) = (self.range(a), self.range(b));
            if x.1 <= h && y.1 <= h {
                return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
        }
        if self.is_ctree(a) && self.cv(b).is_some() {
            return self.map_tree(a, &mut |s, l| s.cmp(op, l, b));
        }
        if self.is_ctree(b) && self.cv(a).is_some() {
            return self.map_tree(b, &mut |s, l| s.cmp(op, a, l));
        }
        // canonical: only Ult / Slt
        if op == Op::Ule {
            let r = self.cmp(Op::Ult, b, a);
            return self.not(r);
        }
        if op == Op::Sle {
            let r = self.cmp(Op::Slt, b, a);
            return self.not(r);
        }
        if op == Op::Ult && self.cv(b) == Some(1) {
            let z = self.konst(0, self.sort(a));
            return self.eq(a, z);
        }
        if op == Op::Ult && self.cv(a) == Some(0) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        self.raw(op, [a, b, NONE], Sort::Bool)
    }
    // ---------------------------------------------------------------- floats
    fn fval(&self, t: T) -> Option<f64> {
        let v = self.cv(t)?;
        Some(if self.sort(t) == Sort::F32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) })
    }
    pub fn exactness(&mut self, t: T) -> (f64, i32) {
        if let Some(&e) = self.exact.get(&t) {
            return e;
        }
        let n = self.n[t as usize].clone();
        let r = match n.op {
            Op::CF(_) => {
                let v = self.fval(t).unwrap();
                if v == 0.0 || !v.is_finite() {
                    (0.0, 100)
                } else {
                    let b = v.to_bits();
                    let e = ((b >> 52) & 0x7ff) as i32 - 1075;
                    let man = (b & ((1 << 52) - 1)) | (1 << 52);
                    (v.abs(), e + man.trailing_zeros() as i32)
                }
            }
            Op::Var(i) => match self.vars[i as usize].kind {
                VarKind::FInt { lo, hi } => ((lo.abs().max(hi.abs())) as f64, 0),
                _ => (f64::INFINITY, -149),
            },
            Op::FAdd | Op::FSub => {
                let (a, b) = (self.exactness(n.a[0]), self.exactness(n.a[1]));
                (a.0 + b.0, a.1.min(b.1))
            }
            Op::FMul => {
                let (a, b) = (self.exactness(n.a[0]), self.exactness(n.a[1]));
                if a.0 == 0.0 || b.0 == 0.0 {
                    (0.0, 100)
                } else {
                    (a.0 * b.0, (a.1 + b.1).clamp(-2000, 100))
                }
            }
            Op::Ite => {
                let (a, b) = (self.exactness(n.a[1]), self.exactness(n.a[2]));
                (a.0.max(b.0), a.1.min(b.1))
            }
            Op::FMax | Op::FMin => {
                let (a, b) = (self.exactness(n.a[0]), self.exactness(n.a[1]));
                (a.0.max(b.0), a.1.min(b.1))
            }
            Op::FNeg | Op::FAbs | Op::FCvt => self.exactness(n.a[0]),
            Op::UToF | Op::SToF => (mask(self.width(n.a[0])) as f64, 0),
            _ => (f64::INFINITY, -149),
        };
        self.exact.insert(t, r);
        r
    }
    fn note_exact(&mut self, t: T) {
        if self.mode == Mode::Real {
            let fresh = !self.exact.contains_key(&t);
            let (m, l) = self.exactness(t);
            let p = if self.sort(t) == Sort::F32 { 24 } else { 53 };
            let ok = m == 0.0 || (m.is_finite() && m <= 2f64.powi(p + l.min(1000)) && m < 1e37 && l > -120);
            if fresh && !ok {
                self.inexact += 1;
            }
        }
    }
    fn nonfinite(&self, t: T) -> bool {
        self.fval(t).map(|v| !v.is_finite()).unwrap_or(false)
    }
    pub fn fbin(&mut self, op: Op, a: T, b: T) -> T {
        let s = self.sort(a);
        if let Some(r) = self.fold(op, s, &[a, b]) {
            return r;
        }
        let real = self.mode == Mode::Real;
        if real {
            let za = self.fval(a) == Some(0.0);
            let zb = self.fval(b) == Some(0.0);
            let oa = self.fval(a) == Some(1.0);
            let ob = self.fval(b) == Some(1.0);
            if (self.nonfinite(a) || self.nonfinite(b)) && !matches!(op, Op::FMax | Op::FMin) {
                panic!("UNSUPPORTED: arithmetic with a non-finite constant in exact mode");
            }
            match op {
                Op::FAdd => {
                    if za {
                        return b;
                    }
                    if zb {
                        return a;
                    }
                }
                Op::FSub => {
                    if zb {
                        return a;
                    }
                    if za {
                        return self.fun(Op::FNeg, b);
                    }
                    if a == b {
                        return self.fc(0, s);
                    }
                }
                Op::FMul => {
                    if za {
                        return a;
                    }
                    if zb {
                        return b;
                    }
                    if oa {
                        return b;
                    }
                    if ob {
                        return a;
                    }
                    if self.fval(a) == Some(-1.0) {
                        return self.fun(Op::FNeg, b);
                    }
                    if self.fval(b) == Some(-1.0) {
                        return self.fun(Op::FNeg, a);
                    }
                    // masks: ite(c,1,0) * x
                    for (p, q) in [(a, b), (b, a)] {
                        if self.op(p) == Op::Ite && self.is_ctree(p) {
                            return self.map_tree(p, &mut |t, l| t.fbin(Op::FMul, l, q));
                        }
                    }
                }
                Op::FDiv => {
                    if ob {
                        return a;
                    }
                }
                Op::FMax | Op::FMin => {
                    let c = self.fcmp(if op == Op::FMax { Op::FLt } else { Op::FLt }, a, b);
                    return if op == Op::FMax { self.ite(c, b, a) } else { self.ite(c, a, b) };
                }
                _ => {}
            }
        }
        if real && self.canon {
            match op {
                Op::FAdd => return self.ac(op, a, b),
                Op::FSub => {
                    let n = self.fun(Op::FNeg, b);
                    return self.ac(Op::FAdd, a, n);
                }
                Op::FMul => {
                    // signs are kept outside
                    let (na, nb) = (self.op(a) == Op::FNeg, self.op(b) == Op::FNeg);
                    let x = if na { self.arg(a, 0) } else { a };
                    let y = if nb { self.arg(b, 0) } else { b };
                    let r = self.ac(op, x, y);
                    return if na != nb { self.fun(Op::FNeg, r) } else { r };
                }
                _ => {}
            }
        }
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul) && b < a { (b, a) } else { (a, b) };
        let r = self.raw(op, [a, b, NONE], s);
        self.note_exact(r);
        r
    }
    pub fn fun(&mut self, op: Op, a: T) -> T {
        let s = self.sort(a);
        if let Some(r) = self.fold(op, s, &[a]) {
            return r;
        }
        if op == Op::FNeg && self.op(a) == Op::FNeg {
            return self.arg(a, 0);
        }
        if op == Op::FNeg && self.mode == Mode::Real && self.canon && self.op(a) == Op::FAdd {
            let v = self.operands(Op::FAdd, a);
            let v: Vec<T> = v.into_iter().map(|x| self.fun(Op::FNeg, x)).collect();
            let mut r = v[0];
            for &t in &v[1..] {
                r = self.ac(Op::FAdd, r, t);
            }
            return r;
        }
        if op == Op::FAbs && self.op(a) == Op::FAbs {
            return a;
        }
        if op == Op::FAbs && self.mode == Mode::Real {
            let z = self.fc(0, s);
            let c = self.fcmp(Op::FLt, a, z);
            let n = self.fun(Op::FNeg, a);
            return self.ite(c, n, a);
        }
        let r = self.raw(op, [a, NONE, NONE], s);
        self.note_exact(r);
        r
    }
    pub fn fcmp(&mut self, op: Op, a: T, b: T) -> T {
        if let Some(r) = self.fold(op, Sort::Bool, &[a, b]) {
            return r;
        }
        if a == b {
            if op == Op::FLt {
                return 0;
            }
            if self.mode == Mode::Real || op == Op::FSame {
                return 1;
            }
        }
        if self.mode == Mode::Real && op != Op::FClose {
            for (p, q, sw) in [(a, b, false), (b, a, true)] {
                if self.nonfinite(p) {
                    let v = self.fval(p).unwrap();
                    let _ = q;
                    if v.is_nan() {
                        return 0;
                    }
                    // p is +-inf, q finite
                    let less = (v < 0.0) != sw; // is "a < b"
                    return match op {
                        Op::FEq | Op::FSame => 0,
                        _ => less as T,
                    };
                }
            }
        }
        if self.is_ctree(a) && self.cv(b).is_some() {
            return self.map_tree(a, &mut |s, l| s.fcmp(op, l, b));
        }
        if self.is_ctree(b) && self.cv(a).is_some() {
            return self.map_tree(b, &mut |s, l| s.fcmp(op, a, l));
        }
        if self.mode == Mode::Real && op == Op::FLe {
            let r = self.fcmp(Op::FLt, b, a);
            return self.not(r);
        }
        let (a, b) = if matches!(op, Op::FEq | Op::FClose | Op::FSame) && b < a { (b, a) } else { (a, b) };
        self.raw(op, [a, b, NONE], Sort::Bool)
    }
    pub fn fnan(&mut self, a: T) -> T {
        if let Some(r) = self.fold(Op::FNan, Sort::Bool, &[a]) {
            return r;
        }
        if self.mode == Mode::Real {
            return 0;
        }
        if matches!(self.op(a), Op::FNeg | Op::FAbs) {
            let x = self.arg(a, 0);
            return self.fnan(x);
        }
        self.raw(Op::FNan, [a, NONE, NONE], Sort::Bool)
    }
    pub fn bits_to_f(&mut self, a: T, s: Sort) -> T {
        if let Some(v) = self.cv(a) {
            return self.fc(v as u64, s);
        }
        match self.op(a) {
            Op::FToBits => return self.arg(a, 0),
            Op::Ite => {
                let [c, x, y] = self.n[a as usize].a;
                let p = self.bits_to_f(x, s);
                let q = self.bits_to_f(y, s);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.raw(Op::BitsToF, [a, NONE, NONE], s)
    }
    pub fn f_to_bits(&mut self, a: T) -> T {
        let w = self.width(a);
        if let Some(v) = self.cv(a) {
            return self.bv(v, w);
        }
        match self.op(a) {
            Op::BitsToF => return self.arg(a, 0),
            Op::FNeg => {
                let x = self.arg(a, 0);
                let b = self.f_to_bits(x);
                let k = self.bv(1u128 << (w - 1), w);
                return self.bin(Op::BXor, b, k);
            }
            Op::Ite => {
                let [c, x, y] = self.n[a as usize].a;
                let p = self.f_to_bits(x);
                let q = self.f_to_bits(y);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.raw(Op::FToBits, [a, NONE, NONE], Sort::Bv(w))
    }
    pub fn conv(&mut self, op: Op, a: T, s: Sort) -> T {
        if let Some(r) = self.fold(op, s, &[a]) {
            return r;
        }
        if self.is_ctree(a) {
            return self.map_tree(a, &mut |t, x| t.conv(op, x, s));
        }
        if self.sort(a) == Sort::Bool && matches!(op, Op::UToF | Op::SToF) {
            let (y, n) = (self.bv(1, 1), self.bv(0, 1));
            let (y, n) = (self.conv(op, y, s), self.conv(op, n, s));
            return self.ite(a, y, n);
        }
        if self.op(a) == Op::ZExt && matches!(op, Op::UToF | Op::SToF) {
            let c = self.arg(a, 0);
            if self.sort(c) == Sort::Bool && self.width(a) > 1 {
                let (y, n) = (self.bv(1, self.width(a)), self.bv(0, self.width(a)));
                let (y, n) = (self.conv(op, y, s), self.conv(op, n, s));
                return self.ite(c, y, n);
            }
        }
        self.raw(op, [a, NONE, NONE], s)
    }
    /// Evaluates a term under an assignment of the variables (raw bits).
    pub fn eval(&self, t: T, asg: &dyn Fn(u32) -> u128, memo: &mut FxMap<T, u128>) -> u128 {
        if let Some(&v) = memo.get(&t) {
            return v;
        }
        // explicit stack to be safe on deep terms
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let n = &self.n[x as usize];
            let k = arity(n.op);
            if !done && k > 0 {
                st.push((x, true));
                if n.op == Op::Ite {
                    // evaluate lazily: the condition first
                    if let Some(&c) = memo.get(&n.a[0]) {
                        let pick = if c != 0 { n.a[1] } else { n.a[2] };
                        st.push((pick, false));
                    } else {
                        st.pop();
                        st.push((x, false));
                        st.push((n.a[0], false));
                    }
                    continue;
                }
                for i in 0..k {
                    st.push((n.a[i], false));
                }
                continue;
            }
            let v = match n.op {
                Op::Var(i) => asg(i),
                Op::Ite => {
                    let c = memo[&n.a[0]];
                    memo[&if c != 0 { n.a[1] } else { n.a[2] }]
                }
                op => {
                    let mut v = [0u128; 3];
                    let mut ss = [Sort::Bool; 3];
                    for i in 0..k {
                        v[i] = memo[&n.a[i]];
                        ss[i] = self.sort(n.a[i]);
                    }
                    ev(op, n.sort, ss, v)
                }
            };
            memo.insert(x, v);
        }
        memo[&t]
    }
    pub fn reaches(&self, roots: &[T], f: &dyn Fn(&Node) -> bool) -> bool {
        let mut seen: FxMap<T, ()> = FxMap::default();
        let mut st: Vec<T> = roots.to_vec();
        while let Some(t) = st.pop() {
            if seen.insert(t, ()).is_some() {
                continue;
            }
            let n = &self.n[t as usize];
            if f(n) {
                return true;
            }
            for i in 0..arity(n.op) {
                st.push(n.a[i]);
            }
        }
        false
    }
    pub fn vars_of(&self, roots: &[T]) -> Vec<u32> {
        let mut seen: FxMap<T, ()> = FxMap::default();
        let mut st: Vec<T> = roots.to_vec();
        let mut out = vec![];
        while let Some(t) = st.pop() {
            if seen.insert(t, ()).is_some() {
                continue;
            }
            let n = &self.n[t as usize];
            if let Op::Var(i) = n.op {
                out.push(i);
            }
            for i in 0..arity(n.op) {
                st.push(n.a[i]);
            }
        }
        out.sort();
        out.dedup();
        out
    }
}
