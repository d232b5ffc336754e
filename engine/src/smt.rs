//! SMT-LIB printing and the solver process.
use crate::term::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    Bits(u128),
    Real(f64),
}

pub enum Res {
    Unsat,
    Sat(HashMap<u32, Val>),
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub slowest: f64,
    pub cross: u64,
}

pub struct Solver {
    cmd: Vec<String>,
    proc: Option<(Child, ChildStdin, Receiver<String>)>,
    pub stats: Stats,
    pub dump: Option<String>,
}

fn pow2_dec(e: u32) -> String {
    let mut d: Vec<u8> = vec![1];
    for _ in 0..e {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}

fn real_lit(v: f64) -> String {
    if v == 0.0 {
        return "0.0".into();
    }
    let b = v.abs().to_bits();
    let mut e = ((b >> 52) & 0x7ff) as i32 - 1075;
    let mut m = (b & ((1 << 52) - 1)) | (1 << 52);
    while m & 1 == 0 {
        m >>= 1;
        e += 1;
    }
    let s = if e >= 0 && e < 64 {
        format!("{}.0", (m as u128) << e)
    } else if e >= 0 {
        format!("(* {}.0 {}.0)", m, pow2_dec(e as u32))
    } else {
        format!("(/ {}.0 {}.0)", m, pow2_dec((-e) as u32))
    };
    if v < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}

pub struct Printer<'a> {
    pub t: &'a Terms,
    pub decls: String,
    pub defs: String,
    pub side: String, // side assertions
    names: FxMap<T, String>,
    uses_exp: Vec<T>,
    uses_sqrt: Vec<T>,
    /// force integer sort for integer-valued floats (phase 3)
    pub ints: bool,
    /// IEEE divisions, sums and differences are replaced by arbitrary values that obey rounding-independent facts
    /// (a sound weakening: only "unsat" may be concluded)
    pub abs_div: bool,
    /// Likewise products, square roots and narrowing conversions.
    pub abs_all: bool,
    muls: Vec<T>,
    cvts: Vec<T>,
    divs: Vec<T>,
    adds: Vec<T>,
}

impl<'a> Printer<'a> {
    pub fn new(t: &'a Terms) -> Printer<'a> {
        Printer { t, decls: String::new(), defs: String::new(), side: String::new(), names: FxMap::default(), uses_exp: vec![], uses_sqrt: vec![], ints: false, abs_div: false, abs_all: false, muls: vec![], cvts: vec![], divs: vec![], adds: vec![] }
    }
    fn sort(&self, s: Sort) -> String {
        match s {
            Sort::Bool => "Bool".into(),
            Sort::Bv(w) => format!("(_ BitVec {})", w),
            Sort::F32 if self.t.mode == Mode::Real => "Real".into(),
            Sort::F64 if self.t.mode == Mode::Real => "Real".into(),
            Sort::F32 => "(_ FloatingPoint 8 24)".into(),
            Sort::F64 => "(_ FloatingPoint 11 53)".into(),
        }
    }
    fn fps(s: Sort) -> &'static str {
        if s == Sort::F32 {
            "8 24"
        } else {
            "11 53"
        }
    }
    fn bvlit(v: u128, w: u32) -> String {
        if w % 4 == 0 {
            format!("#x{:0width$x}", v, width = (w / 4) as usize)
        } else {
            format!("#b{:0width$b}", v, width = w as usize)
        }
    }
    fn as_bv(&self, t: T) -> String {
        // Bool terms in a bit-vector position
        let n = &self.names[&t];
        if self.t.sort(t) == Sort::Bool {
            format!("(ite {} #b1 #b0)", n)
        } else {
            n.clone()
        }
    }
    pub fn term(&mut self, root: T) -> String {
        let mut st = vec![(root, false)];
        while let Some((x, done)) = st.pop() {
            if self.names.contains_key(&x) {
                continue;
            }
            let n = self.t.n[x as usize].clone();
            let k = arity(n.op);
            if !done && k > 0 {
                st.push((x, true));
                for i in 0..k {
                    st.push((n.a[i], false));
                }
                continue;
            }
            let e = self.expr(x, &n);
            if k == 0 {
                self.names.insert(x, e);
            } else {
                let nm = format!("t{}", x);
                self.defs.push_str(&format!("(define-fun {} () {} {})\n", nm, self.sort(n.sort), e));
                self.names.insert(x, nm);
            }
            if n.op == Op::Exp {
                self.uses_exp.push(x);
            }
            if self.abs_div {
                match n.op {
                    Op::FDiv => self.divs.push(x),
                    Op::FAdd | Op::FSub => self.adds.push(x),
                    Op::FMul if self.abs_all => self.muls.push(x),
                    Op::FCvt if self.abs_all && n.sort == Sort::F32 => self.cvts.push(x),
                    _ => {}
                }
            }
            if n.op == Op::FSqrt {
                self.uses_sqrt.push(x);
            }
        }
        self.names[&root].clone()
    }
    fn expr(&mut self, x: T, n: &Node) -> String {
        let real = self.t.mode == Mode::Real;
        let nm = |i: usize| self.names[&n.a[i]].clone();
        let w = match n.sort {
            Sort::Bv(w) => w,
            _ => 0,
        };
        match n.op {
            Op::CBool(b) => b.to_string(),
            Op::CBv(v) => Self::bvlit(v, w),
            Op::CF(v) => {
                let f = if n.sort == Sort::F32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                if real {
                    if !f.is_finite() {
                        panic!("UNSUPPORTED: non-finite constant in exact mode");
                    }
                    real_lit(f)
                } else if n.sort == Sort::F32 {
                    format!("((_ to_fp 8 24) {})", Self::bvlit(v as u128, 32))
                } else {
                    format!("((_ to_fp 11 53) {})", Self::bvlit(v as u128, 64))
                }
            }
            Op::Var(i) => {
                let v = &self.t.vars[i as usize];
                match v.sort {
                    Sort::F32 | Sort::F64 if real && self.ints && matches!(v.kind, VarKind::FInt { .. }) => {
                        self.decls.push_str(&format!("(declare-const {} Int)\n", v.name));
                    }
                    s => self.decls.push_str(&format!("(declare-const {} {})\n", v.name, self.sort(s))),
                }
                match v.kind {
                    VarKind::Bv { lo, hi } => {
                        if let Sort::Bv(w) = v.sort {
                            if lo > 0 {
                                self.side.push_str(&format!("(assert (bvule {} {}))\n", Self::bvlit(lo, w), v.name));
                            }
                            if hi < mask(w) {
                                self.side.push_str(&format!("(assert (bvule {} {}))\n", v.name, Self::bvlit(hi, w)));
                            }
                        }
                    }
                    VarKind::FInt { lo, hi } => {
                        let l = |k: i64| if k < 0 { format!("(- {})", -k) } else { k.to_string() };
                        self.side.push_str(&format!("(assert (and (<= {} {}) (<= {} {})))\n", l(lo), v.name, v.name, l(hi)));
                        if self.ints {
                            return format!("(to_real {})", v.name);
                        }
                    }
                    // any finite single
                    VarKind::FReal if real => {
                        let m = "340282346638528859811704183484516925440.0";
                        self.side.push_str(&format!("(assert (and (<= (- {m}) {n}) (<= {n} {m})))\n", n = v.name));
                    }
                    _ => {}
                }
                v.name.clone()
            }
            Op::Not => format!("(not {})", nm(0)),
            Op::And => format!("(and {} {})", nm(0), nm(1)),
            Op::Or => format!("(or {} {})", nm(0), nm(1)),
            Op::Ite => format!("(ite {} {} {})", nm(0), nm(1), nm(2)),
            Op::Eq => format!("(= {} {})", nm(0), nm(1)),
            Op::Add => format!("(bvadd {} {})", nm(0), nm(1)),
            Op::Sub => format!("(bvsub {} {})", nm(0), nm(1)),
            Op::Mul => format!("(bvmul {} {})", nm(0), nm(1)),
            Op::UDiv => format!("(bvudiv {} {})", nm(0), nm(1)),
            Op::SDiv => format!("(bvsdiv {} {})", nm(0), nm(1)),
            Op::URem => format!("(bvurem {} {})", nm(0), nm(1)),
            Op::SRem => format!("(bvsrem {} {})", nm(0), nm(1)),
            Op::BAnd => format!("(bvand {} {})", nm(0), nm(1)),
            Op::BOr => format!("(bvor {} {})", nm(0), nm(1)),
            Op::BXor => format!("(bvxor {} {})", nm(0), nm(1)),
            Op::Shl => format!("(bvshl {} {})", nm(0), nm(1)),
            Op::LShr => format!("(bvlshr {} {})", nm(0), nm(1)),
            Op::AShr => format!("(bvashr {} {})", nm(0), nm(1)),
            Op::Concat => format!("(concat {} {})", self.as_bv(n.a[0]), self.as_bv(n.a[1])),
            Op::Extract(h, l) => format!("((_ extract {} {}) {})", h, l, self.as_bv(n.a[0])),
            Op::ZExt => format!("((_ zero_extend {}) {})", w - self.t.width(n.a[0]), self.as_bv(n.a[0])),
            Op::SExt => format!("((_ sign_extend {}) {})", w - self.t.width(n.a[0]), self.as_bv(n.a[0])),
            Op::Ult => format!("(bvult {} {})", nm(0), nm(1)),
            Op::Ule => format!("(bvule {} {})", nm(0), nm(1)),
            Op::Slt => format!("(bvslt {} {})", nm(0), nm(1)),
            Op::Sle => format!("(bvsle {} {})", nm(0), nm(1)),
            Op::FAdd if real => format!("(+ {} {})", nm(0), nm(1)),
            Op::FSub if real => format!("(- {} {})", nm(0), nm(1)),
            Op::FMul if real => format!("(* {} {})", nm(0), nm(1)),
            Op::FDiv if real => format!("(/ {} {})", nm(0), nm(1)),
            Op::FNeg if real => format!("(- {})", nm(0)),
            Op::FAbs if real => format!("(ite (< {0} 0.0) (- {0}) {0})", nm(0)),
            Op::FSqrt if real => format!("(usqrt {})", nm(0)),
            Op::Exp if real => format!("(uexp {})", nm(0)),
            Op::FEq | Op::FClose | Op::FSame if real => format!("(= {} {})", nm(0), nm(1)),
            Op::FLt if real => format!("(< {} {})", nm(0), nm(1)),
            Op::FLe if real => format!("(<= {} {})", nm(0), nm(1)),
            Op::FCvt if real => nm(0),
            Op::UToF if real => format!("(to_real (bv2nat {}))", self.as_bv(n.a[0])),
            Op::SToF if real => {
                let wv = self.t.width(n.a[0]);
                format!("(to_real (- (bv2nat (bvxor {0} {1})) (bv2nat {1})))", self.as_bv(n.a[0]), Self::bvlit(1u128 << (wv - 1), wv))
            }
            Op::FDiv | Op::FAdd | Op::FSub if self.abs_div => {
                let v = format!("dv{}", x);
                self.decls.push_str(&format!("(declare-const {} {})\n", v, self.sort(n.sort)));
                v
            }
            Op::FMul | Op::FSqrt if self.abs_all => {
                let v = format!("dv{}", x);
                self.decls.push_str(&format!("(declare-const {} {})\n", v, self.sort(n.sort)));
                v
            }
            Op::FCvt if self.abs_all && n.sort == Sort::F32 => {
                let v = format!("dv{}", x);
                self.decls.push_str(&format!("(declare-const {} {})\n", v, self.sort(n.sort)));
                v
            }
            Op::FAdd => format!("(fp.add RNE {} {})", nm(0), nm(1)),
            Op::FSub => format!("(fp.sub RNE {} {})", nm(0), nm(1)),
            Op::FMul => format!("(fp.mul RNE {} {})", nm(0), nm(1)),
            Op::FDiv => format!("(fp.div RNE {} {})", nm(0), nm(1)),
            Op::FNeg => format!("(fp.neg {})", nm(0)),
            Op::FAbs => format!("(fp.abs {})", nm(0)),
            Op::FSqrt => format!("(fp.sqrt RNE {})", nm(0)),
            Op::FMax => format!("(ite (fp.isNaN {0}) {1} (ite (fp.isNaN {1}) {0} (ite (or (fp.gt {0} {1}) (and (fp.eq {0} {1}) (fp.isNegative {1}))) {0} {1})))", nm(0), nm(1)),
            Op::FMin => format!("(ite (fp.isNaN {0}) {1} (ite (fp.isNaN {1}) {0} (ite (or (fp.lt {0} {1}) (and (fp.eq {0} {1}) (fp.isNegative {0}))) {0} {1})))", nm(0), nm(1)),
            Op::FSame => format!("(= {} {})", nm(0), nm(1)),
            Op::FEq => format!("(fp.eq {} {})", nm(0), nm(1)),
            Op::FLt => format!("(fp.lt {} {})", nm(0), nm(1)),
            Op::FLe => format!("(fp.leq {} {})", nm(0), nm(1)),
            Op::FNan => format!("(fp.isNaN {})", nm(0)),
            Op::Exp if n.sort == Sort::F64 => format!("(uexp64 {})", nm(0)),
            Op::Exp => format!("(uexp {})", nm(0)),
            Op::BitsToF if !real => format!("((_ to_fp {}) {})", Self::fps(n.sort), nm(0)),
            Op::FToBits if !real => {
                let v = format!("fb{}", x);
                let s = self.t.sort(n.a[0]);
                self.decls.push_str(&format!("(declare-const {} (_ BitVec {}))\n", v, w));
                self.side.push_str(&format!("(assert (= ((_ to_fp {}) {}) {}))\n", Self::fps(s), v, nm(0)));
                v
            }
            Op::UToF => format!("((_ to_fp_unsigned {}) RNE {})", Self::fps(n.sort), self.as_bv(n.a[0])),
            Op::SToF => format!("((_ to_fp {}) RNE {})", Self::fps(n.sort), self.as_bv(n.a[0])),
            Op::FCvt => format!("((_ to_fp {}) RNE {})", Self::fps(n.sort), nm(0)),
            Op::FToU if !real => {
                let s = self.t.sort(n.a[0]);
                let two = if s == Sort::F32 {
                    format!("((_ to_fp 8 24) {})", Self::bvlit((2f32.powi(w as i32)).to_bits() as u128, 32))
                } else {
                    format!("((_ to_fp 11 53) {})", Self::bvlit((2f64.powi(w as i32)).to_bits() as u128, 64))
                };
                format!(
                    "(ite (or (fp.isNaN {0}) (fp.isNegative {0})) {1} (ite (fp.geq {0} {2}) {3} ((_ fp.to_ubv {4}) RTZ {0})))",
                    nm(0),
                    Self::bvlit(0, w),
                    two,
                    Self::bvlit(mask(w), w),
                    w
                )
            }
            op => panic!("UNSUPPORTED: no SMT encoding for {:?} in {:?} mode", op, self.t.mode),
        }
    }
    /// Facts about correctly rounded sums and differences that do not depend on the rounding.
    fn add_facts(&mut self) {
        let xs: Vec<(String, String, String, Sort)> = self
            .adds
            .iter()
            .map(|&x| {
                let n = &self.t.n[x as usize];
                let b = self.names[&n.a[1]].clone();
                let b = if n.op == Op::FSub { format!("(fp.neg {})", b) } else { b };
                (self.names[&n.a[0]].clone(), b, self.names[&x].clone(), n.sort)
            })
            .collect();
        let zero = |s: Sort| format!("(_ +zero {})", Self::fps(s));
        for (a, b, r, s) in &xs {
            let z = zero(*s);
            let good = format!("(not (fp.isNaN {a})) (not (fp.isNaN {b})) (not (and (fp.isInfinite {a}) (fp.isInfinite {b}) (not (fp.eq {a} {b}))))");
            self.side.push_str(&format!("(assert (= (and {good}) (not (fp.isNaN {r}))))\n"));
            for (x, y) in [(a, b), (b, a)] {
                self.side.push_str(&format!("(assert (=> (and {good} (fp.geq {x} {z})) (fp.geq {r} {y})))\n"));
                self.side.push_str(&format!("(assert (=> (and {good} (fp.leq {x} {z})) (fp.leq {r} {y})))\n"));
            }
            self.side.push_str(&format!("(assert (=> (and {good} (fp.leq {a} (fp.neg {b}))) (fp.leq {r} {z})))\n"));
            self.side.push_str(&format!("(assert (=> (and {good} (fp.geq {a} (fp.neg {b}))) (fp.geq {r} {z})))\n"));
        }
        if xs.len() > 12 {
            return;
        }
        for (i, (a, b, r, s)) in xs.iter().enumerate() {
            for (j, (c, d, q, s2)) in xs.iter().enumerate() {
                if i != j && s == s2 {
                    self.side.push_str(&format!("(assert (=> (and (not (fp.isNaN {r})) (not (fp.isNaN {q})) (fp.leq {a} {c}) (fp.leq {b} {d})) (fp.leq {r} {q})))\n"));
                }
            }
        }
    }
    /// Facts about correctly rounded division that do not depend on the rounding itself.
    fn div_facts(&mut self) {
        let xs: Vec<(String, String, String, Sort)> = self
            .divs
            .iter()
            .map(|&x| {
                let n = &self.t.n[x as usize];
                (self.names[&n.a[0]].clone(), self.names[&n.a[1]].clone(), self.names[&x].clone(), n.sort)
            })
            .collect();
        let one = |s: Sort| {
            if s == Sort::F32 {
                format!("((_ to_fp 8 24) {})", Self::bvlit(1f32.to_bits() as u128, 32))
            } else {
                format!("((_ to_fp 11 53) {})", Self::bvlit(1f64.to_bits() as u128, 64))
            }
        };
        let zero = |s: Sort| format!("(_ +zero {})", Self::fps(s));
        for (a, b, r, s) in &xs {
            let (o, z) = (one(*s), zero(*s));
            let good = format!("(not (fp.isNaN {a})) (not (fp.isNaN {b})) (not (and (fp.isZero {a}) (fp.isZero {b}))) (not (and (fp.isInfinite {a}) (fp.isInfinite {b})))");
            self.side.push_str(&format!("(assert (= (and {good}) (not (fp.isNaN {r}))))\n"));
            self.side.push_str(&format!("(assert (=> (and {good} (fp.geq {a} {z}) (fp.gt {b} {z})) (fp.geq {r} {z})))\n"));
            self.side.push_str(&format!("(assert (=> (and {good} (fp.gt {b} {z}) (fp.leq {a} {b})) (fp.leq {r} {o})))\n"));
            self.side.push_str(&format!("(assert (=> (and {good} (fp.gt {b} {z}) (fp.geq {a} {b})) (fp.geq {r} {o})))\n"));
            self.side.push_str(&format!("(assert (=> (and {good} (fp.isZero {a})) (fp.isZero {r})))\n"));
        }
        for (i, (a, b, r, s)) in xs.iter().enumerate() {
            for (j, (c, d, q, s2)) in xs.iter().enumerate() {
                if i == j || s != s2 || xs.len() > 12 {
                    continue;
                }
                let z = zero(*s);
                self.side.push_str(&format!(
                    "(assert (=> (and (not (fp.isNaN {r})) (not (fp.isNaN {q})) (fp.geq {a} {z}) (fp.leq {a} {c}) (fp.gt {d} {z}) (fp.leq {d} {b})) (fp.leq {r} {q})))\n"
                ));
                if b == d {
                    self.side.push_str(&format!("(assert (=> (and (not (fp.isNaN {r})) (not (fp.isNaN {q})) (fp.leq {a} {c}) (fp.gt {d} {z})) (fp.leq {r} {q})))\n"));
                }
            }
        }
    }
    /// Facts about products, square roots and narrowing conversions that do not depend on the rounding.
    fn other_facts(&mut self) {
        if !self.abs_all {
            return;
        }
        for &x in &self.muls {
            let n = &self.t.n[x as usize];
            let (a, b, r) = (&self.names[&n.a[0]], &self.names[&n.a[1]], &self.names[&x]);
            let z = format!("(_ +zero {})", Self::fps(n.sort));
            let good = format!("(not (fp.isNaN {a})) (not (fp.isNaN {b})) (not (and (fp.isInfinite {a}) (fp.isZero {b}))) (not (and (fp.isZero {a}) (fp.isInfinite {b})))");
            self.side.push_str(&format!("(assert (= (and {good}) (not (fp.isNaN {r}))))\n"));
            self.side.push_str(&format!("(assert (=> (and {good} (or (and (fp.geq {a} {z}) (fp.geq {b} {z})) (and (fp.leq {a} {z}) (fp.leq {b} {z})))) (fp.geq {r} {z})))\n"));
            self.side.push_str(&format!("(assert (=> (and {good} (or (and (fp.geq {a} {z}) (fp.leq {b} {z})) (and (fp.leq {a} {z}) (fp.geq {b} {z})))) (fp.leq {r} {z})))\n"));
        }
        for &x in &self.uses_sqrt {
            let n = &self.t.n[x as usize];
            let (a, r) = (&self.names[&n.a[0]], &self.names[&x]);
            let z = format!("(_ +zero {})", Self::fps(n.sort));
            self.side.push_str(&format!("(assert (= (fp.geq {a} {z}) (fp.geq {r} {z})))\n"));
            self.side.push_str(&format!("(assert (= (not (fp.geq {a} {z})) (fp.isNaN {r})))\n"));
            self.side.push_str(&format!("(assert (= (fp.isZero {a}) (fp.isZero {r})))\n"));
            self.side.push_str(&format!("(assert (=> (fp.geq {a} {z}) (= (fp.isInfinite {a}) (fp.isInfinite {r}))))\n"));
        }
        for &x in &self.cvts {
            let n = &self.t.n[x as usize];
            let (a, r) = (&self.names[&n.a[0]], &self.names[&x]);
            let (za, zr) = (format!("(_ +zero {})", Self::fps(self.t.sort(n.a[0]))), format!("(_ +zero {})", Self::fps(n.sort)));
            self.side.push_str(&format!("(assert (= (fp.isNaN {a}) (fp.isNaN {r})))\n"));
            self.side.push_str(&format!("(assert (=> (fp.geq {a} {za}) (fp.geq {r} {zr})))\n"));
            self.side.push_str(&format!("(assert (=> (fp.leq {a} {za}) (fp.leq {r} {zr})))\n"));
        }
    }
    /// Contract axioms for the library functions that stay uninterpreted.
    fn axioms(&mut self) {
        self.div_facts();
        self.add_facts();
        self.other_facts();
        let real = self.t.mode == Mode::Real;
        if !self.uses_sqrt.is_empty() && real {
            self.decls.push_str("(declare-fun usqrt (Real) Real)\n");
            for &x in &self.uses_sqrt {
                let a = self.names[&self.t.n[x as usize].a[0]].clone();
                let n = self.names[&x].clone();
                self.side.push_str(&format!("(assert (=> (>= {0} 0.0) (and (>= {1} 0.0) (= (* {1} {1}) {0}))))\n", a, n));
            }
        }
        if !self.uses_exp.is_empty() {
            if real {
                self.decls.push_str("(declare-fun uexp (Real) Real)\n");
                for &x in &self.uses_exp {
                    let n = self.names[&x].clone();
                    self.side.push_str(&format!("(assert (> {} 0.0))\n", n));
                }
                // strictly increasing; equal differences of arguments give equal quotients
                let xs: Vec<(String, String)> = self
                    .uses_exp
                    .iter()
                    .map(|&x| (self.names[&self.t.n[x as usize].a[0]].clone(), self.names[&x].clone()))
                    .collect();
                let mut pairs = vec![];
                for i in 0..xs.len() {
                    for j in 0..xs.len() {
                        if i != j {
                            self.side.push_str(&format!("(assert (=> (< {} {}) (< {} {})))\n", xs[i].0, xs[j].0, xs[i].1, xs[j].1));
                            pairs.push((i, j));
                        }
                    }
                }
                if xs.len() <= 8 {
                    for (n, &(p, q)) in pairs.iter().enumerate() {
                        for &(r, s) in &pairs[n + 1..] {
                            if p == r || q == s || p > q && r > s || (p, q) == (s, r) {
                                continue;
                            }
                            self.side.push_str(&format!(
                                "(assert (=> (= (- {} {}) (- {} {})) (= (* {} {}) (* {} {}))))\n",
                                xs[p].0, xs[q].0, xs[r].0, xs[s].0, xs[p].1, xs[s].1, xs[q].1, xs[r].1
                            ));
                        }
                    }
                }
            } else {
                // contract of the exponential, over the relevant arguments:
                //   NaN in -> NaN out; never negative, never -0; monotone;
                //   single precision: exp(x) = +inf for x >= 88.73; finite for x <= 88.72; 1 at 0; <= 1 below 0;
                //   exp(x) = 0 for x < -104; > 0 for x >= -103 (double precision likewise, further out)
                for s in [Sort::F32, Sort::F64] {
                    let lit = |f: f64| {
                        if s == Sort::F32 {
                            format!("((_ to_fp 8 24) {})", Self::bvlit((f as f32).to_bits() as u128, 32))
                        } else {
                            format!("((_ to_fp 11 53) {})", Self::bvlit(f.to_bits() as u128, 64))
                        }
                    };
                    let xs: Vec<(String, String)> = self
                        .uses_exp
                        .iter()
                        .filter(|&&x| self.t.sort(x) == s)
                        .map(|&x| (self.names[&self.t.n[x as usize].a[0]].clone(), self.names[&x].clone()))
                        .collect();
                    if xs.is_empty() {
                        continue;
                    }
                    let (name, over, under, none, some) = if s == Sort::F32 { ("uexp", 88.73, 88.72, -104.0, -103.0) } else { ("uexp64", 709.79, 709.78, -746.0, -745.0) };
                    self.decls.push_str(&format!("(declare-fun {} ({1}) {1})\n", name, self.sort(s)));
                    let inf = lit(f64::INFINITY);
                    for (a, e) in &xs {
                        self.side.push_str(&format!("(assert (= (fp.isNaN {a}) (fp.isNaN {e})))\n"));
                        self.side.push_str(&format!("(assert (or (fp.isNaN {e}) (not (fp.isNegative {e}))))\n"));
                        self.side.push_str(&format!("(assert (=> (fp.geq {a} {}) (= {e} {inf})))\n", lit(over)));
                        self.side.push_str(&format!("(assert (=> (fp.leq {a} {}) (fp.lt {e} {inf})))\n", lit(under)));
                        self.side.push_str(&format!("(assert (=> (fp.isZero {a}) (= {e} {})))\n", lit(1.0)));
                        self.side.push_str(&format!("(assert (=> (fp.leq {a} {}) (fp.leq {e} {})))\n", lit(0.0), lit(1.0)));
                        self.side.push_str(&format!("(assert (=> (fp.geq {a} {}) (fp.geq {e} {})))\n", lit(0.0), lit(1.0)));
                        self.side.push_str(&format!("(assert (=> (fp.lt {a} {}) (fp.isZero {e})))\n", lit(none)));
                        self.side.push_str(&format!("(assert (=> (fp.geq {a} {}) (not (fp.isZero {e}))))\n", lit(some)));
                    }
                    for i in 0..xs.len() {
                        for j in 0..xs.len() {
                            if i != j {
                                self.side.push_str(&format!("(assert (=> (fp.leq {} {}) (fp.leq {} {})))\n", xs[i].0, xs[j].0, xs[i].1, xs[j].1));
                            }
                        }
                    }
                }
            }
        }
    }
    pub fn script(mut self, asserts: &[T], timeout: u64, want: bool, head: &str) -> (String, Vec<u32>) {
        let mut a = String::new();
        for &t in asserts {
            let n = self.term(t);
            a.push_str(&format!("(assert {})\n", n));
        }
        self.axioms();
        let vars = self.t.vars_of(asserts);
        let mut s = String::new();
        s.push_str("(reset)\n");
        s.push_str(&format!("(set-option :timeout {})\n", timeout));
        s.push_str(head);
        s.push_str(&self.decls);
        s.push_str(&self.defs);
        s.push_str(&self.side);
        s.push_str(&a);
        s.push_str("(check-sat)\n");
        if want && !vars.is_empty() {
            s.push_str("(get-value (");
            for v in &vars {
                s.push_str(&self.t.vars[*v as usize].name);
                s.push(' ');
            }
            s.push_str("))\n");
        }
        s.push_str("(echo \"DONE\")\n");
        (s, vars)
    }
}

impl Solver {
    pub fn new(cmd: &str) -> Solver {
        Solver { cmd: cmd.split_whitespace().map(|x| x.to_string()).collect(), proc: None, stats: Stats::default(), dump: None }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {:?}: {}", self.cmd, e));
        let i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(o);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.proc = Some((c, i, rx));
    }
    pub fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.proc.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    pub fn check(&mut self, t: &Terms, asserts: &[T], timeout: u64, want: bool, ints: bool) -> Res {
        // trivial cases without the solver
        if asserts.iter().any(|&a| a == Terms::FALSE) {
            return Res::Unsat;
        }
        let asserts: Vec<T> = asserts.iter().copied().filter(|&a| a != Terms::TRUE).collect();
        if asserts.is_empty() {
            return Res::Sat(HashMap::new());
        }
        self.stats.queries += 1;
        let st = Instant::now();
        let mut first = None;
        // cheaper over-approximations first: unsatisfiable there means unsatisfiable
        let divides = t.mode == Mode::Fp && t.reaches(&asserts, &|n| n.op == Op::FDiv);
        let rounds = t.mode == Mode::Fp && t.reaches(&asserts, &|n| matches!(n.op, Op::FSqrt | Op::FCvt));
        for (on, all) in [(divides, false), (rounds, true)] {
            if !on || first.is_some() {
                continue;
            }
            let mut p = Printer::new(t);
            p.abs_div = true;
            p.abs_all = all;
            let (script, vars) = p.script(&asserts, timeout, false, "");
            match self.run(&script, timeout, t, &vars, false) {
                Res::Unsat => first = Some(Res::Unsat),
                r => {
                    if let Some(d) = &self.dump {
                        let k = if let Res::Sat(_) = r { "sat" } else { "unk" };
                        let _ = std::fs::write(format!("{}/abs{}_{}_{:.1}.smt2", d, self.stats.queries, k, st.elapsed().as_secs_f64()), &script);
                    }
                }
            }
        }
        let mut p = Printer::new(t);
        p.ints = ints;
        let (script, vars) = p.script(&asserts, timeout, want, "");
        let r = match first {
            Some(r) => r,
            None => self.run(&script, timeout, t, &vars, want),
        };
        let el = st.elapsed().as_secs_f64();
        self.stats.secs += el;
        if el > self.stats.slowest {
            self.stats.slowest = el;
        }
        if let Some(d) = &self.dump {
            if el > 1.0 {
                let _ = std::fs::write(format!("{}/q{}_{:.1}.smt2", d, self.stats.queries, el), &script);
            }
        }
        match &r {
            Res::Unsat => self.stats.unsat += 1,
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }
    pub fn raw_script(t: &Terms, asserts: &[T], timeout: u64) -> String {
        let (s, _) = Printer::new(t).script(asserts, timeout, false, "");
        s
    }
    fn run(&mut self, script: &str, timeout: u64, t: &Terms, vars: &[u32], want: bool) -> Res {
        if self.proc.is_none() {
            self.start();
        }
        let ok = {
            let (_, i, _) = self.proc.as_mut().unwrap();
            i.write_all(script.as_bytes()).and_then(|_| i.flush()).is_ok()
        };
        if !ok {
            self.kill();
            return Res::Unknown("solver died".into());
        }
        let deadline = Instant::now() + Duration::from_millis(timeout + 10_000);
        let mut lines: Vec<String> = vec![];
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            let r = self.proc.as_ref().unwrap().2.recv_timeout(left);
            match r {
                Ok(l) => {
                    if l.trim_matches('"') == "DONE" {
                        break;
                    }
                    lines.push(l);
                }
                Err(_) => {
                    self.kill();
                    return Res::Unknown("hard timeout".into());
                }
            }
        }
        let verdict = lines.iter().find(|l| matches!(l.trim(), "sat" | "unsat" | "unknown" | "timeout")).cloned().unwrap_or_default();
        // an error before the verdict makes it unusable; get-value after unsat errs legitimately
        if let Some(e) = lines.iter().take_while(|l| **l != verdict).find(|l| l.starts_with("(error")) {
            return Res::Unknown(format!("solver error: {}", e));
        }
        match verdict.trim() {
            "unsat" => Res::Unsat,
            "sat" => {
                if !want {
                    return Res::Sat(HashMap::new());
                }
                let rest: String = lines.iter().skip_while(|l| **l != verdict).skip(1).cloned().collect::<Vec<_>>().join(" ");
                Res::Sat(parse_model(&rest, t, vars))
            }
            _ => Res::Unknown(lines.join(" ").chars().take(200).collect()),
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

#[derive(Debug)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}

fn sexp(s: &[u8], i: &mut usize) -> Sx {
    while *i < s.len() && s[*i].is_ascii_whitespace() {
        *i += 1;
    }
    if *i < s.len() && s[*i] == b'(' {
        *i += 1;
        let mut v = vec![];
        loop {
            while *i < s.len() && s[*i].is_ascii_whitespace() {
                *i += 1;
            }
            if *i >= s.len() {
                return Sx::L(v);
            }
            if s[*i] == b')' {
                *i += 1;
                return Sx::L(v);
            }
            v.push(sexp(s, i));
        }
    }
    let st = *i;
    while *i < s.len() && !s[*i].is_ascii_whitespace() && s[*i] != b'(' && s[*i] != b')' {
        *i += 1;
    }
    Sx::A(String::from_utf8_lossy(&s[st..*i]).into_owned())
}

fn sx_val(x: &Sx) -> Option<Val> {
    match x {
        Sx::A(s) => {
            if let Some(h) = s.strip_prefix("#x") {
                return u128::from_str_radix(h, 16).ok().map(Val::Bits);
            }
            if let Some(h) = s.strip_prefix("#b") {
                return u128::from_str_radix(h, 2).ok().map(Val::Bits);
            }
            if s == "true" {
                return Some(Val::Bits(1));
            }
            if s == "false" {
                return Some(Val::Bits(0));
            }
            s.trim_end_matches('?').parse::<f64>().ok().map(Val::Real)
        }
        Sx::L(v) => {
            let f = |i: usize| match v.get(i).and_then(sx_val) {
                Some(Val::Real(r)) => Some(r),
                _ => None,
            };
            match v.first() {
                Some(Sx::A(o)) if o == "-" && v.len() == 2 => f(1).map(|r| Val::Real(-r)),
                Some(Sx::A(o)) if o == "/" => Some(Val::Real(f(1)? / f(2)?)),
                Some(Sx::A(o)) if o == "to_real" => f(1).map(Val::Real),
                _ => None,
            }
        }
    }
}

fn parse_model(s: &str, t: &Terms, vars: &[u32]) -> HashMap<u32, Val> {
    let mut m = HashMap::new();
    let mut i = 0;
    let x = sexp(s.as_bytes(), &mut i);
    let names: HashMap<&str, u32> = vars.iter().map(|&v| (t.vars[v as usize].name.as_str(), v)).collect();
    if let Sx::L(l) = x {
        for p in l {
            if let Sx::L(kv) = p {
                if let (Some(Sx::A(k)), Some(v)) = (kv.first(), kv.get(1)) {
                    if let Some(&id) = names.get(k.as_str()) {
                        if let Some(v) = sx_val(v) {
                            m.insert(id, v);
                        }
                    }
                }
            }
        }
    }
    m
}
