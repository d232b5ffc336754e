//! The symbolic executor.
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub struct FuncX {
    pub f: Func,
    pub consts: Vec<V>,
    pub live: Vec<Vec<u32>>,
    pub idx: usize,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<FuncX>,
    pub block: u32,
    pub pc: usize,
    pub regs: Vec<V>,
    pub ret: Option<u32>,
    pub allocas: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Draw {
    Pick(u64),
    Sym(T),
}

#[derive(Clone, Default)]
pub struct Fs {
    pub files: BTreeMap<String, Rc<FileData>>,
    pub fds: BTreeMap<i64, (String, u64, bool)>,
    pub ops: u64,
    pub faults: Vec<(u64, u64)>,
    pub log: Vec<String>,
    pub hash_seed: u64,
    pub nseed: u64,
}
impl Fs {
    /// Takes a name away from its file; whoever has the file open keeps it.
    fn detach(&mut self, name: &str) {
        let Some(f) = self.files.remove(name) else {
            return;
        };
        if self.fds.values().any(|v| v.0 == name) {
            let mut n = 0;
            let mut other = String::new();
            while other.is_empty() || self.files.contains_key(&other) {
                other = format!("\0{}", n);
                n += 1;
            }
            for v in self.fds.values_mut() {
                if v.0 == name {
                    v.0 = other.clone();
                }
            }
            self.files.insert(other, f);
        }
    }
}
#[derive(Clone, Default)]
pub struct FileData {
    pub bytes: Vec<(u8, T, u8)>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: FxMap<u32, Rc<Obj>>,
    pub pc: Vec<T>,
    pub draws: Vec<Draw>,
    pub pending: Vec<(T, u64)>,
    pub obs: Vec<V>,
    pub covers: Vec<(T, u64)>,
    pub known: FxMap<T, u128>,
    pub fs: Rc<Fs>,
    pub model: Option<Rc<HashMap<u32, u128>>>,
    pub errno: u64,
    pub words: u64,
    pub keys: u64,
}

pub enum Exc {
    Fork(T),
    /// the path ends: panic, abort or undefined behaviour
    Dead(String, String),
    /// path dropped on purpose (assume false, other shard)
    Drop,
    Unsupported(String),
}

enum Flow {
    Next,
    Jump,
    Branch(T, u32, u32),
    Switch(T, u32, Vec<(u128, u32)>),
    Picks(Vec<u64>, u32),
    Done,
}

pub struct Violation {
    pub kind: String,
    pub check: u64,
    pub what: String,
    pub draws: Vec<u64>,
    pub exact: bool,
}

pub struct Sample {
    pub draws: Vec<u64>,
    pub obs: Vec<u64>,
}

#[derive(Clone)]
pub struct Cfg {
    pub tier: u64,
    pub shard: (u64, u64),
    pub qtimeout: u64,
    pub seed: u64,
    pub max_secs: f64,
    pub samples: usize,
    pub max_viol: usize,
    pub xsolver: Option<String>,
    pub verbose: bool,
}

pub struct Engine {
    pub m: Module,
    pub t: Terms,
    pub cfg: Cfg,
    pub s: Solver,
    pub x: Option<Solver>,
    fx: Vec<Option<Rc<FuncX>>>,
    gobj: FxMap<u32, Rc<Obj>>,
    gaddr: HashMap<String, u64>,
    faddr: HashMap<u64, String>,
    next: u32,
    pub start: Instant,
    pub first_viol: Option<Instant>,
    pub steps: u64,
    pub paths: u64,
    pub dead: u64,
    pub forks: u64,
    pub merges: u64,
    pub nomerge: u64,
    pub checks: u64,
    pub discharged: u64,
    pub trivially: u64,
    pub final_queries: u64,
    pub violations: Vec<Violation>,
    pub seen_viol: BTreeSet<String>,
    pub inconclusive: BTreeSet<String>,
    pub samples: Vec<Sample>,
    pub covered: BTreeMap<u64, u64>,
    pub cover_all: BTreeSet<u64>,
    /// situations for which the solver found no witness in time
    pub cover_open: BTreeSet<u64>,
    pub funcs_run: BTreeSet<usize>,
    pub picks_seen: BTreeSet<Vec<u64>>,
    pub rng: u64,
    depth: usize,
    pub xagree: u64,
    pub nonvacuous: u64,
}

fn f32ty(ts: &Types, t: TyId) -> Option<Sort> {
    match ts.get(t) {
        Ty::F32 => Some(Sort::F32),
        Ty::F64 => Some(Sort::F64),
        _ => None,
    }
}

impl Engine {
    pub fn new(m: Module, cfg: Cfg) -> Engine {
        let n = m.funcs.len();
        let s = Solver::new("z3-new -in -smt2");
        let x = cfg.xsolver.as_ref().map(|c| Solver::new(c));
        Engine {
            m,
            t: Terms::new(Mode::Fp),
            rng: 0x9e3779b97f4a7c15 ^ cfg.seed.wrapping_mul(0xbf58476d1ce4e5b9),
            cfg,
            s,
            x,
            fx: (0..n).map(|_| None).collect(),
            gobj: FxMap::default(),
            gaddr: HashMap::new(),
            faddr: HashMap::new(),
            next: 16,
            start: Instant::now(),
            first_viol: None,
            steps: 0,
            paths: 0,
            dead: 0,
            forks: 0,
            merges: 0,
            nomerge: 0,
            checks: 0,
            discharged: 0,
            trivially: 0,
            final_queries: 0,
            violations: vec![],
            seen_viol: BTreeSet::new(),
            inconclusive: BTreeSet::new(),
            samples: vec![],
            covered: BTreeMap::new(),
            cover_all: BTreeSet::new(),
            cover_open: BTreeSet::new(),
            funcs_run: BTreeSet::new(),
            picks_seen: BTreeSet::new(),
            depth: 0,
            xagree: 0,
            nonvacuous: 0,
        }
    }
    fn fresh_id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ------------------------------------------------------------ constants
    fn sym_addr(&mut self, name: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(name) {
            return a;
        }
        if let Some(al) = self.m.aliases.get(name).cloned() {
            let a = self.sym_addr(&al);
            self.gaddr.insert(name.into(), a);
            return a;
        }
        if let Some(&fi) = self.m.fmap.get(name) {
            if self.m.funcs[fi].declared && self.m.funcs[fi].weak {
                self.gaddr.insert(name.into(), 0);
                return 0;
            }
            let id = self.fresh_id();
            let a = (id as u64) << 32;
            self.gaddr.insert(name.into(), a);
            self.faddr.insert(a, name.into());
            return a;
        }
        let Some(&gi) = self.m.gmap.get(name) else { panic!("UNSUPPORTED: unknown symbol {}", name) };
        let (ty, weak, has, constant) = {
            let g = &self.m.globals[gi];
            (g.ty, g.weak, g.init.is_some(), g.constant)
        };
        if !has && weak {
            self.gaddr.insert(name.into(), 0);
            return 0;
        }
        let id = self.fresh_id();
        let a = (id as u64) << 32;
        self.gaddr.insert(name.into(), a);
        let size = self.m.types.size(ty);
        let mut o = Obj::new(size, Kind::Global);
        if has {
            let c = self.m.globals[gi].init.clone().unwrap();
            self.init(&mut o, 0, ty, &c);
        }
        o.constant = constant;
        self.gobj.insert(id, Rc::new(o));
        a
    }
    fn init(&mut self, o: &mut Obj, off: u64, ty: TyId, c: &Const) {
        match c {
            Const::Bytes(b) => o.data[off as usize..off as usize + b.len()].copy_from_slice(b),
            Const::Zero | Const::Undef | Const::Null => {}
            Const::Agg(v) => {
                for (i, (et, e)) in v.iter().enumerate() {
                    let fo = self.m.types.field_offset(ty, i);
                    self.init(o, off + fo, *et, e);
                }
            }
            _ => {
                let v = self.const_v(ty, c);
                if let V::C(k) = v {
                    let n = self.m.types.size(ty);
                    o.write_c(off, n, k);
                }
            }
        }
    }
    fn const_v(&mut self, ty: TyId, c: &Const) -> V {
        match c {
            Const::Int(v) => V::C(*v),
            Const::Float(b) => V::C(*b as u128),
            Const::Null => V::C(0),
            Const::Zero | Const::Undef => self.zero(ty),
            Const::Global(n) => V::C(self.sym_addr(n) as u128),
            Const::Agg(v) => V::A(Rc::new(v.iter().map(|(t, e)| self.const_v(*t, e)).collect())),
            Const::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            Const::Gep { base_ty, base, idx } => {
                let V::C(b) = self.const_v(ty, base) else { panic!() };
                let mut a = b as u64;
                let mut t = *base_ty;
                for (i, (it, e)) in idx.iter().enumerate() {
                    let V::C(k) = self.const_v(*it, e) else { panic!() };
                    let k = sext(k, self.m.types.bits(*it)) as i64;
                    if i == 0 {
                        a = a.wrapping_add((k * self.m.types.size(t) as i64) as u64);
                    } else {
                        a = a.wrapping_add(self.m.types.field_offset(t, k as usize));
                        t = self.m.types.elem(t, k as usize);
                    }
                }
                V::C(a as u128)
            }
            Const::Cast(op, x, tt) => {
                let V::C(k) = self.const_v(x.0, &x.1) else { panic!() };
                let w = self.m.types.bits(*tt);
                let fw = self.m.types.bits(x.0);
                let r = if op == "sext" { sext(k, fw) as u128 } else { k };
                V::C(r & mask(w))
            }
            Const::Bin(op, a, b) => {
                let V::C(x) = self.const_v(a.0, &a.1) else { panic!() };
                let V::C(y) = self.const_v(b.0, &b.1) else { panic!() };
                let w = self.m.types.bits(a.0);
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "shl" => x << y,
                    "lshr" => x >> y,
                    _ => panic!("UNSUPPORTED: constant {}", op),
                };
                V::C(r & mask(w))
            }
        }
    }
    fn zero(&self, ty: TyId) -> V {
        if self.m.types.is_agg(ty) {
            let n = self.m.types.nelem(ty);
            V::A(Rc::new((0..n).map(|i| self.zero(self.m.types.elem(ty, i))).collect()))
        } else {
            V::C(0)
        }
    }
    fn func(&mut self, fi: usize) -> Rc<FuncX> {
        if let Some(f) = &self.fx[fi] {
            return f.clone();
        }
        let f = self.m.parse_func(fi);
        let consts: Vec<(TyId, Const)> = f.consts.clone();
        let cv = consts.iter().map(|(t, c)| if matches!(self.m.types.get(*t), Ty::Meta) { V::C(0) } else { self.const_v(*t, c) }).collect();
        let live = liveness(&f);
        let r = Rc::new(FuncX { f, consts: cv, live, idx: fi });
        self.fx[fi] = Some(r.clone());
        self.funcs_run.insert(fi);
        r
    }

    // ------------------------------------------------------------ values
    fn val(&self, st: &State, o: &Opnd) -> V {
        let fr = st.frames.last().unwrap();
        match o {
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::C(c) => fr.f.consts[*c as usize].clone(),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
    }
    fn term(&mut self, v: &V, ty: TyId) -> T {
        match v {
            V::T(t) => {
                // coerce between float and bits as the type demands
                let s = self.t.sort(*t);
                match (f32ty(&self.m.types, ty), s) {
                    (Some(fs), Sort::Bv(_)) => self.t.bits_to_f(*t, fs),
                    (None, Sort::F32 | Sort::F64) => self.t.f_to_bits(*t),
                    (None, Sort::Bv(w)) if w > 1 && matches!(self.m.types.get(ty), Ty::Int(1)) => self.t.trunc(*t, 1),
                    _ => *t,
                }
            }
            V::C(c) => {
                if let Some(fs) = f32ty(&self.m.types, ty) {
                    self.t.fc(*c as u64, fs)
                } else {
                    let w = self.m.types.bits(ty);
                    if w == 1 {
                        (*c & 1) as T
                    } else {
                        self.t.bv(*c, w)
                    }
                }
            }
            V::A(_) => panic!("UNSUPPORTED: aggregate as scalar"),
        }
    }
    /// back to a value, concrete when constant
    fn wrap(&self, t: T) -> V {
        match self.t.cv(t) {
            Some(v) => V::C(v),
            None => V::T(t),
        }
    }
    fn conc(&mut self, st: &State, v: &V) -> Result<u128, Exc> {
        match v {
            V::C(c) => Ok(*c),
            V::T(t) => {
                if let Some(k) = st.known.get(t) {
                    return Ok(*k);
                }
                Err(Exc::Fork(*t))
            }
            _ => panic!("UNSUPPORTED: aggregate"),
        }
    }

    // ------------------------------------------------------------ memory
    pub fn obj(&self, st: &State, id: u32) -> Option<Rc<Obj>> {
        st.mem.get(&id).or_else(|| self.gobj.get(&id)).cloned()
    }
    fn obj_ref<'a>(&'a self, st: &'a State, id: u32) -> Option<&'a Rc<Obj>> {
        st.mem.get(&id).or_else(|| self.gobj.get(&id))
    }
    fn ub<X>(&self, m: String) -> Result<X, Exc> {
        Err(Exc::Dead("memory".into(), m))
    }
    fn locate(&self, st: &State, a: u64, n: u64) -> Result<(u32, u64), Exc> {
        let id = (a >> 32) as u32;
        let off = a & 0xffff_ffff;
        match self.obj_ref(st, id) {
            Some(o) if off + n <= o.data.len() as u64 => Ok((id, off)),
            Some(o) => self.ub(format!("out-of-bounds access of {} bytes at offset {} in an object of {}", n, off, o.data.len())),
            None => self.ub(format!("access to invalid address {:#x}", a)),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u32) -> Result<&'a mut Obj, Exc> {
        if !st.mem.contains_key(&id) {
            let g = match self.gobj.get(&id) {
                Some(g) => g.clone(),
                None => return self.ub("write to invalid object".into()),
            };
            if g.constant {
                return self.ub("write to constant memory".into());
            }
            st.mem.insert(id, g);
        }
        Ok(Rc::make_mut(st.mem.get_mut(&id).unwrap()))
    }
    fn load_raw(&mut self, st: &State, a: u64, n: u64) -> Result<V, Exc> {
        let (id, off) = self.locate(st, a, n)?;
        let o = match st.mem.get(&id) {
            Some(o) => o.clone(),
            None => self.gobj[&id].clone(),
        };
        Ok(o.read(&mut self.t, off, n))
    }
    fn store_raw(&mut self, st: &mut State, a: u64, n: u64, v: &V) -> Result<(), Exc> {
        let (id, off) = self.locate(st, a, n)?;
        let v = match v {
            V::T(t) => {
                let t = *t;
                let w = self.t.width(t);
                if self.t.sort(t) == Sort::Bool || (w as u64) < n * 8 && !matches!(self.t.sort(t), Sort::F32 | Sort::F64) {
                    let z = self.t.zext(t, (n * 8) as u32);
                    self.wrap(z)
                } else {
                    V::T(t)
                }
            }
            x => x.clone(),
        };
        let o = self.obj_mut(st, id)?;
        match v {
            V::C(c) => o.write_c(off, n, c),
            V::T(t) => o.write_t(off, n, t),
            V::A(_) => panic!("UNSUPPORTED"),
        }
        Ok(())
    }
    fn addrs(&mut self, st: &State, p: &V) -> Result<Vec<u64>, Exc> {
        match p {
            V::C(c) => Ok(vec![*c as u64]),
            V::T(t) => {
                if let Some(k) = st.known.get(t) {
                    return Ok(vec![*k as u64]);
                }
                let mut l = vec![];
                if self.t.leaves(*t, &mut l) && l.len() <= 32 {
                    // drop leaves that point nowhere if they are infeasible
                    let mut out = vec![];
                    for v in l {
                        let ok = self.obj_ref(st, ((v as u64) >> 32) as u32).is_some();
                        if ok || {
                            let k = self.t.bv(v, 64);
                            let e = self.t.eq(*t, k);
                            self.feasible(st, e)
                        } {
                            out.push(v as u64);
                        }
                    }
                    return Ok(out);
                }
                let v = self.enumerate(st, *t, 80)?;
                Ok(v.into_iter().map(|x| x as u64).collect())
            }
            _ => panic!(),
        }
    }
    fn load(&mut self, st: &State, p: &V, ty: TyId) -> Result<V, Exc> {
        if self.m.types.is_agg(ty) {
            let n = self.m.types.nelem(ty);
            let mut v = vec![];
            for i in 0..n {
                let et = self.m.types.elem(ty, i);
                let off = self.m.types.field_offset(ty, i);
                let q = self.padd(p, off);
                v.push(self.load(st, &q, et)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let n = match self.m.types.get(ty) {
            Ty::Int(b) => ((*b as u64) + 7) / 8,
            _ => self.m.types.size(ty),
        };
        let al = self.addrs(st, p)?;
        if al.is_empty() {
            return Err(Exc::Drop);
        }
        let mut acc: Option<V> = None;
        for a in al.into_iter().rev() {
            let v = self.load_raw(st, a, n)?;
            let v = self.norm(v, ty);
            acc = Some(match acc {
                None => v,
                Some(old) => {
                    let V::T(pt) = p else { panic!() };
                    let k = self.t.bv(a as u128, 64);
                    let c = self.t.eq(*pt, k);
                    let x = self.term(&v, ty);
                    let y = self.term(&old, ty);
                    let r = self.t.ite(c, x, y);
                    self.wrap(r)
                }
            });
        }
        Ok(acc.unwrap())
    }
    /// bring a loaded raw value to the sort its type wants
    fn norm(&mut self, v: V, ty: TyId) -> V {
        match v {
            V::T(_) => {
                let t = self.term(&v, ty);
                let t = match self.m.types.get(ty) {
                    Ty::Int(b) if *b > 1 && self.t.width(t) > *b => {
                        let b = *b;
                        self.t.extract(t, b - 1, 0)
                    }
                    _ => t,
                };
                self.wrap(t)
            }
            V::C(c) => match self.m.types.get(ty) {
                Ty::Int(b) => V::C(c & mask(*b)),
                _ => V::C(c),
            },
            x => x,
        }
    }
    fn padd(&mut self, p: &V, off: u64) -> V {
        match p {
            V::C(c) => V::C((*c as u64).wrapping_add(off) as u128),
            V::T(t) => {
                let k = self.t.bv(off as u128, 64);
                let r = self.t.bin(Op::Add, *t, k);
                self.wrap(r)
            }
            _ => panic!(),
        }
    }
    fn store(&mut self, st: &mut State, p: &V, ty: TyId, v: &V) -> Result<(), Exc> {
        if self.m.types.is_agg(ty) {
            let V::A(e) = v else { panic!("UNSUPPORTED: aggregate store") };
            for (i, x) in e.iter().enumerate() {
                let et = self.m.types.elem(ty, i);
                let off = self.m.types.field_offset(ty, i);
                let q = self.padd(p, off);
                self.store(st, &q, et, x)?;
            }
            return Ok(());
        }
        let n = match self.m.types.get(ty) {
            Ty::Int(b) => ((*b as u64) + 7) / 8,
            _ => self.m.types.size(ty),
        };
        let al = self.addrs(st, p)?;
        if al.len() == 1 {
            return self.store_raw(st, al[0], n, v);
        }
        let V::T(pt) = p else { return Err(Exc::Drop) };
        for a in al {
            let old = self.load_raw(st, a, n)?;
            let old = self.norm(old, ty);
            let k = self.t.bv(a as u128, 64);
            let c = self.t.eq(*pt, k);
            let x = self.term(v, ty);
            let y = self.term(&old, ty);
            let r = self.t.ite(c, x, y);
            let r = self.wrap(r);
            self.store_raw(st, a, n, &r)?;
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, kind: Kind) -> u64 {
        let id = self.fresh_id();
        st.mem.insert(id, Rc::new(Obj::new(size, kind)));
        (id as u64) << 32
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), Exc> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = self.locate(st, s, n)?;
        let (did, d_o) = self.locate(st, d, n)?;
        if sid == did {
            self.obj_mut(st, did)?.move_within(d_o, so, n);
        } else {
            let src = self.obj(st, sid).unwrap();
            self.obj_mut(st, did)?.copy_from(d_o, &src, so, n);
        }
        Ok(())
    }
    fn bytes(&mut self, st: &State, a: u64, n: u64) -> Result<Vec<u8>, Exc> {
        let mut v = vec![];
        for i in 0..n {
            match self.load_raw(st, a + i, 1)? {
                V::C(c) => v.push(c as u8),
                x => v.push(self.conc(st, &x)? as u8),
            }
        }
        Ok(v)
    }
    fn cstr(&mut self, st: &State, a: u64) -> Result<String, Exc> {
        let mut v = vec![];
        loop {
            let b = self.bytes(st, a + v.len() as u64, 1)?[0];
            if b == 0 {
                return Ok(String::from_utf8_lossy(&v).into_owned());
            }
            v.push(b);
        }
    }

    // ------------------------------------------------------------ solver
    fn complete(&self, roots: &[T], m: &HashMap<u32, Val>) -> HashMap<u32, u128> {
        let mut out = HashMap::new();
        for v in self.t.vars_of(roots) {
            let x = m.get(&v);
            out.insert(v, self.bits_of(v, x));
        }
        for (v, x) in m {
            out.entry(*v).or_insert_with(|| self.bits_of(*v, Some(x)));
        }
        out
    }
    fn bits_of(&self, v: u32, x: Option<&Val>) -> u128 {
        let var = &self.t.vars[v as usize];
        match (x, var.sort) {
            (Some(Val::Bits(b)), _) => *b,
            (Some(Val::Real(r)), s) => {
                let r = match var.kind {
                    VarKind::FInt { lo, hi } => r.round().clamp(lo as f64, hi as f64) + 0.0,
                    _ => *r,
                };
                if s == Sort::F64 {
                    r.to_bits() as u128
                } else {
                    (r as f32).to_bits() as u128
                }
            }
            (None, s) => self.default_bits(v, s),
        }
    }
    fn default_bits(&self, v: u32, s: Sort) -> u128 {
        match self.t.vars[v as usize].kind {
            VarKind::Bv { lo, .. } => lo,
            VarKind::FInt { lo, hi } => {
                let k = 0i64.clamp(lo, hi);
                if s == Sort::F64 {
                    (k as f64).to_bits() as u128
                } else {
                    (k as f32).to_bits() as u128
                }
            }
            _ => 0,
        }
    }
    fn evalb(&self, m: &HashMap<u32, u128>, ts: &[T]) -> bool {
        let mut memo = FxMap::default();
        let f = |i: u32| m.get(&i).copied().unwrap_or_else(|| self.default_bits(i, self.t.vars[i as usize].sort));
        ts.iter().all(|&t| self.t.eval(t, &f, &mut memo) != 0)
    }
    fn has_float(&self, t: T) -> bool {
        // does the condition depend on float arithmetic?
        let mut seen: FxMap<T, ()> = FxMap::default();
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            let n = &self.t.n[x as usize];
            if matches!(n.op, Op::FLt | Op::FLe | Op::FEq | Op::FNan | Op::FClose | Op::FSame) {
                return true;
            }
            for i in 0..arity(n.op) {
                st.push(n.a[i]);
            }
        }
        false
    }
    fn has_product(&self, q: &[T]) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut w: Vec<T> = q.to_vec();
        while let Some(t) = w.pop() {
            if t == NONE || !seen.insert(t) {
                continue;
            }
            let n = &self.t.n[t as usize];
            if matches!(n.op, Op::FMul | Op::FDiv | Op::FSqrt) {
                return true;
            }
            w.extend_from_slice(&n.a[..arity(n.op)]);
        }
        false
    }
    /// May `c` hold on this path?  `true` when the solver cannot tell.
    fn feasible(&mut self, st: &State, c: T) -> bool {
        if c == Terms::TRUE {
            return true;
        }
        if c == Terms::FALSE {
            return false;
        }
        let n = self.t.not(c);
        if st.pc.contains(&n) {
            return false;
        }
        if st.pc.contains(&c) {
            return true;
        }
        if let Some(m) = &st.model {
            if self.evalb(m, &[c]) {
                return true;
            }
        }
        if self.has_float(c) {
            return true;
        }
        // only the constraints that share variables matter
        let asserts = self.relevant(&st.pc, c);
        !matches!(self.s.check(&self.t, &asserts, 5000, false, false), Res::Unsat)
    }
    fn relevant(&self, pc: &[T], c: T) -> Vec<T> {
        let mut vs: BTreeSet<u32> = self.t.vars_of(&[c]).into_iter().collect();
        let pv: Vec<Vec<u32>> = pc.iter().map(|&p| self.t.vars_of(&[p])).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && pv[i].iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    vs.extend(pv[i].iter());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut a: Vec<T> = (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect();
        a.push(c);
        a
    }
    fn model_for(&mut self, asserts: &[T]) -> Option<HashMap<u32, u128>> {
        match self.s.check(&self.t, asserts, 20000, true, false) {
            Res::Sat(m) => Some(self.complete(asserts, &m)),
            _ => None,
        }
    }
    fn enumerate(&mut self, st: &State, t: T, lim: usize) -> Result<Vec<u128>, Exc> {
        let mut out = vec![];
        let s = self.t.sort(t);
        let mut cons = vec![];
        loop {
            let mut a = st.pc.clone();
            a.extend(cons.iter());
            match self.s.check(&self.t, &a, 20000, true, false) {
                Res::Unsat => break,
                Res::Unknown(m) => return Err(Exc::Unsupported(format!("cannot enumerate the values of an address or size: {}", m))),
                Res::Sat(m) => {
                    let mm = self.complete(&a, &m);
                    let mut memo = FxMap::default();
                    let f = |i: u32| mm.get(&i).copied().unwrap_or_else(|| self.default_bits(i, self.t.vars[i as usize].sort));
                    let v = self.t.eval(t, &f, &mut memo);
                    let k = self.t.konst(v, s);
                    let e = self.t.eq(t, k);
                    let n = self.t.not(e);
                    out.push(v);
                    cons.push(n);
                    if out.len() > lim {
                        return Err(Exc::Unsupported("too many values for an address or size".into()));
                    }
                }
            }
        }
        Ok(out)
    }

    // ------------------------------------------------------------ running
    pub fn run(&mut self, harness: &str) {
        let fi = *self.m.fmap.get(harness).unwrap_or_else(|| panic!("no harness {}", harness));
        let f = self.func(fi);
        let fr = Frame { regs: vec![V::C(0); f.f.nregs], f, block: 0, pc: 0, ret: None, allocas: vec![] };
        let st = State {
            frames: vec![Rc::new(fr)],
            mem: FxMap::default(),
            pc: vec![],
            draws: vec![],
            pending: vec![],
            obs: vec![],
            covers: vec![],
            known: FxMap::default(),
            fs: Rc::new(Fs::default()),
            model: Some(Rc::new(HashMap::new())),
            errno: 0,
            words: 0,
            keys: 0,
        };
        self.exec(st, None);
    }
    fn budget(&mut self) -> bool {
        if self.start.elapsed().as_secs_f64() > self.cfg.max_secs {
            self.inconclusive.insert("time budget of the harness exhausted".into());
            return false;
        }
        if !self.violations.is_empty() {
            // look a little further, in case this one does not reproduce
            let t = *self.first_viol.get_or_insert_with(Instant::now);
            if t.elapsed().as_secs_f64() > 15.0 {
                self.inconclusive.insert("stopped after a violation".into());
                return false;
            }
        }
        self.violations.len() < self.cfg.max_viol
    }
    fn exec(&mut self, st0: State, stop: Option<(usize, u32)>) -> Vec<State> {
        self.depth += 1;
        let mut work = vec![st0];
        let mut out = vec![];
        'w: while let Some(mut st) = work.pop() {
            if !self.budget() {
                break;
            }
            loop {
                if let Some((d, b)) = stop {
                    let fr = st.frames.last().unwrap();
                    if st.frames.len() == d && fr.block == b && fr.pc == 0 {
                        out.push(st);
                        continue 'w;
                    }
                }
                match self.step(&mut st) {
                    Ok(Flow::Next) | Ok(Flow::Jump) => {}
                    Ok(Flow::Done) => {
                        self.end_path(st);
                        continue 'w;
                    }
                    Ok(Flow::Picks(vals, d)) => {
                        for (k, v) in vals.iter().enumerate().rev() {
                            let mut s = if k == 0 { std::mem::replace(&mut st, dummy()) } else { st.clone() };
                            s.draws.push(Draw::Pick(*v));
                            self.set(&mut s, d, V::C(*v as u128));
                            let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                            fr.pc += 1;
                            work.push(s);
                        }
                        continue 'w;
                    }
                    Ok(Flow::Branch(c, t, f)) => {
                        let n = self.t.not(c);
                        let ft = self.feasible(&st, c);
                        let ff = if ft { self.feasible(&st, n) } else { true };
                        if !ft || !ff {
                            // only one side is possible; pc is unchanged because it is implied
                            if let Err(e) = self.jump(&mut st, if ft { t } else { f }) {
                                self.exc(st, e, &mut work);
                                continue 'w;
                            }
                            continue;
                        }
                        self.forks += 1;
                        let fr = st.frames.last().unwrap();
                        let depth = st.frames.len();
                        let fx = fr.f.clone();
                        let ip = fx.f.ipdom[fr.block as usize];
                        let mut s2 = st.clone();
                        let mut s1 = st;
                        s1.pc.push(c);
                        s2.pc.push(n);
                        self.keep_model(&mut s1, c);
                        self.keep_model(&mut s2, n);
                        let base = s1.pc.len() - 1;
                        let j1 = self.jump(&mut s1, t);
                        let j2 = self.jump(&mut s2, f);
                        if let Err(e) = j1 {
                            self.exc(s1, e, &mut work);
                            work.push(s2);
                            continue 'w;
                        }
                        if let Err(e) = j2 {
                            self.exc(s2, e, &mut work);
                            work.push(s1);
                            continue 'w;
                        }
                        let can = ip != u32::MAX && fx.f.live[t as usize] && fx.f.live[f as usize] && self.depth < 4000;
                        if can {
                            let mut r = self.exec(s1, Some((depth, ip)));
                            r.extend(self.exec(s2, Some((depth, ip))));
                            let r = self.merge_all(r, base);
                            for s in r.into_iter().rev() {
                                work.push(s);
                            }
                        } else {
                            work.push(s2);
                            work.push(s1);
                        }
                        continue 'w;
                    }
                    Ok(Flow::Switch(v, def, cases)) => {
                        // one state per feasible target
                        let srt = self.t.sort(v);
                        let mut targets: Vec<(u32, T)> = vec![];
                        let mut none = Terms::TRUE;
                        for (k, b) in cases {
                            let kt = self.t.konst(k, srt);
                            let e = self.t.eq(v, kt);
                            let ne = self.t.not(e);
                            none = self.t.and(none, ne);
                            if let Some(x) = targets.iter_mut().find(|x| x.0 == b) {
                                x.1 = self.t.or(x.1, e);
                            } else {
                                targets.push((b, e));
                            }
                        }
                        if let Some(x) = targets.iter_mut().find(|x| x.0 == def) {
                            x.1 = self.t.or(x.1, none);
                        } else {
                            targets.push((def, none));
                        }
                        let mut alive = vec![];
                        for (b, c) in targets {
                            if self.feasible(&st, c) {
                                alive.push((b, c));
                            }
                        }
                        self.forks += 1;
                        let depth = st.frames.len();
                        let fr = st.frames.last().unwrap();
                        let fx = fr.f.clone();
                        let ip = fx.f.ipdom[fr.block as usize];
                        let base = st.pc.len();
                        let can = ip != u32::MAX && alive.iter().all(|x| fx.f.live[x.0 as usize]) && alive.len() > 1;
                        let mut res = vec![];
                        for (b, c) in alive {
                            let mut s = st.clone();
                            if c != Terms::TRUE {
                                s.pc.push(c);
                                self.keep_model(&mut s, c);
                            }
                            if let Err(e) = self.jump(&mut s, b) {
                                self.exc(s, e, &mut work);
                                continue;
                            }
                            if can {
                                res.extend(self.exec(s, Some((depth, ip))));
                            } else {
                                work.push(s);
                            }
                        }
                        if can {
                            for s in self.merge_all(res, base) {
                                work.push(s);
                            }
                        }
                        continue 'w;
                    }
                    Err(e) => {
                        self.exc(st, e, &mut work);
                        continue 'w;
                    }
                }
            }
        }
        self.depth -= 1;
        out
    }
    fn keep_model(&mut self, st: &mut State, c: T) {
        if let Some(m) = &st.model {
            if !self.evalb(m, &[c]) {
                st.model = None;
            }
        }
    }
    fn exc(&mut self, st: State, e: Exc, work: &mut Vec<State>) {
        match e {
            Exc::Fork(t) => {
                let mut l = vec![];
                let vals = if self.t.leaves(t, &mut l) && l.len() <= 64 { Ok(l) } else { self.enumerate(&st, t, 80) };
                match vals {
                    Ok(vs) => {
                        let srt = self.t.sort(t);
                        for v in vs.into_iter().rev() {
                            let k = self.t.konst(v, srt);
                            let c = self.t.eq(t, k);
                            if !self.feasible(&st, c) {
                                continue;
                            }
                            let mut s = st.clone();
                            if c != Terms::TRUE {
                                s.pc.push(c);
                                self.keep_model(&mut s, c);
                            }
                            s.known.insert(t, v);
                            self.forks += 1;
                            work.push(s);
                        }
                    }
                    Err(Exc::Unsupported(m)) => {
                        let w = self.here(&st);
                        self.inconclusive.insert(format!("{} (at {})", m, w));
                    }
                    Err(_) => {}
                }
            }
            Exc::Dead(kind, what) => self.dead_path(st, kind, what),
            Exc::Drop => {}
            Exc::Unsupported(m) => {
                let w = self.here(&st);
                self.inconclusive.insert(format!("{} (at {})", m, w));
            }
        }
    }
    fn here(&self, st: &State) -> String {
        st.frames.iter().rev().take(4).map(|f| f.f.f.name.clone()).collect::<Vec<_>>().join(" < ")
    }

    // ------------------------------------------------------------ merging
    fn merge_all(&mut self, mut v: Vec<State>, base: usize) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        if v.len() > 1 {
            // merge neighbours first (inner branches come out in order)
            while let Some(s) = v.pop() {
                let mut cur = s;
                let mut i = 0;
                while i < out.len() {
                    if self.mergeable(&cur, &out[i], base) {
                        let o = out.remove(i);
                        cur = self.merge(cur, o, base);
                        self.merges += 1;
                        i = 0;
                    } else {
                        i += 1;
                    }
                }
                out.push(cur);
            }
            if out.len() > 1 {
                self.nomerge += 1;
            }
            return out;
        }
        v
    }
    fn looks_pointer(&self, a: &State, b: &State, v: u128) -> bool {
        let id = ((v as u64) >> 32) as u32;
        id != 0 && (self.obj_ref(a, id).is_some() || self.obj_ref(b, id).is_some() || self.faddr.contains_key(&(v as u64)))
    }
    fn v_mergeable(&self, x: &V, y: &V, ty: TyId) -> bool {
        match (x, y) {
            (V::C(p), V::C(q)) => {
                if p == q {
                    return true;
                }
                match self.m.types.get(ty) {
                    Ty::Int(w) => *w <= 32,
                    Ty::Ptr => false,
                    _ => true,
                }
            }
            (V::A(p), V::A(q)) => p.len() == q.len() && (0..p.len()).all(|i| self.v_mergeable(&p[i], &q[i], self.m.types.elem(ty, i))),
            (V::A(_), _) | (_, V::A(_)) => false,
            _ => true,
        }
    }
    fn mergeable(&self, a: &State, b: &State, _base: usize) -> bool {
        if a.frames.len() != b.frames.len() || a.draws != b.draws || !Rc::ptr_eq(&a.fs, &b.fs) || a.obs.len() != b.obs.len() || a.words != b.words || a.errno != b.errno {
            return false;
        }
        for i in 0..a.frames.len() - 1 {
            if !Rc::ptr_eq(&a.frames[i], &b.frames[i]) {
                return false;
            }
        }
        let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
        if !Rc::ptr_eq(&fa.f, &fb.f) || fa.block != fb.block || fa.pc != fb.pc {
            return false;
        }
        if a.obs.iter().zip(b.obs.iter()).any(|(x, y)| !veq(x, y)) {
            return false;
        }
        for &r in &fa.f.live[fa.block as usize] {
            let (x, y) = (&fa.regs[r as usize], &fb.regs[r as usize]);
            if !self.v_mergeable(x, y, fa.f.f.regty[r as usize]) {
                return false;
            }
        }
        for (id, oa) in &a.mem {
            if let Some(ob) = b.mem.get(id) {
                if Rc::ptr_eq(oa, ob) {
                    continue;
                }
                if oa.data.len() != ob.data.len() {
                    return false;
                }
                // differing concrete pointers: do not merge
                let n = oa.data.len();
                let mut o = 0;
                while o + 8 <= n {
                    if oa.data[o..o + 8] != ob.data[o..o + 8] && (o..o + 8).all(|k| !oa.is_sym(k) && !ob.is_sym(k)) {
                        let x = u64::from_le_bytes(oa.data[o..o + 8].try_into().unwrap()) as u128;
                        let y = u64::from_le_bytes(ob.data[o..o + 8].try_into().unwrap()) as u128;
                        if self.looks_pointer(a, b, x) || self.looks_pointer(a, b, y) {
                            return false;
                        }
                    }
                    o += 8;
                }
            }
        }
        true
    }
    fn merge_v(&mut self, g: T, x: &V, y: &V, ty: TyId) -> V {
        if veq(x, y) {
            return x.clone();
        }
        if let (V::A(p), V::A(q)) = (x, y) {
            let mut v = vec![];
            for i in 0..p.len() {
                let et = self.m.types.elem(ty, i);
                v.push(self.merge_v(g, &p[i], &q[i], et));
            }
            return V::A(Rc::new(v));
        }
        let p = self.term(x, ty);
        let q = self.term(y, ty);
        let r = self.t.ite(g, p, q);
        self.wrap(r)
    }
    fn merge(&mut self, mut a: State, b: State, base: usize) -> State {
        // guard for a: what its path condition adds beyond the common prefix
        let mut k = base.min(a.pc.len()).min(b.pc.len());
        while k < a.pc.len() && k < b.pc.len() && a.pc[k] == b.pc[k] {
            k += 1;
        }
        let mut ga = Terms::TRUE;
        for i in k..a.pc.len() {
            ga = self.t.and(ga, a.pc[i]);
        }
        let mut gb = Terms::TRUE;
        for i in k..b.pc.len() {
            gb = self.t.and(gb, b.pc[i]);
        }
        // prefer the simpler guard
        let ngb = self.t.not(gb);
        let g = if k + 1 == b.pc.len() && k + 1 < a.pc.len() { ngb } else { ga };
        let both = self.t.or(ga, gb);
        a.pc.truncate(k);
        if both != Terms::TRUE {
            a.pc.push(both);
        }
        // registers
        {
            let fa = a.frames.last().unwrap().clone();
            let fb = b.frames.last().unwrap().clone();
            let live = fa.f.live[fa.block as usize].clone();
            let mut nf = (*fa).clone();
            for r in live {
                let ty = fa.f.f.regty[r as usize];
                nf.regs[r as usize] = self.merge_v(g, &fa.regs[r as usize], &fb.regs[r as usize], ty);
            }
            for x in &fb.allocas {
                if !nf.allocas.contains(x) {
                    nf.allocas.push(*x);
                }
            }
            *a.frames.last_mut().unwrap() = Rc::new(nf);
        }
        // memory
        for (id, ob) in &b.mem {
            match a.mem.get(id).cloned() {
                None => {
                    if let Some(gl) = self.gobj.get(id).cloned() {
                        let m = self.merge_obj(g, &gl, ob);
                        a.mem.insert(*id, Rc::new(m));
                    } else {
                        a.mem.insert(*id, ob.clone());
                    }
                }
                Some(oa) => {
                    if !Rc::ptr_eq(&oa, ob) {
                        let m = self.merge_obj(g, &oa, ob);
                        a.mem.insert(*id, Rc::new(m));
                    }
                }
            }
        }
        let only_a: Vec<u32> = a.mem.keys().filter(|k| !b.mem.contains_key(k) && self.gobj.contains_key(k)).copied().collect();
        for id in only_a {
            let gl = self.gobj[&id].clone();
            let oa = a.mem[&id].clone();
            let m = self.merge_obj(g, &oa, &gl);
            a.mem.insert(id, Rc::new(m));
        }
        // pending checks
        let mut pend = vec![];
        let mut i = 0;
        while i < a.pending.len() && i < b.pending.len() && a.pending[i] == b.pending[i] {
            pend.push(a.pending[i]);
            i += 1;
        }
        for &(c, id) in &a.pending[i..] {
            let x = self.t.imp(ga, c);
            pend.push((x, id));
        }
        for &(c, id) in &b.pending[i..] {
            let x = self.t.imp(gb, c);
            pend.push((x, id));
        }
        a.pending = pend;
        let mut cov = vec![];
        let mut i = 0;
        while i < a.covers.len() && i < b.covers.len() && a.covers[i] == b.covers[i] {
            cov.push(a.covers[i]);
            i += 1;
        }
        for &(c, id) in &a.covers[i..] {
            let x = self.t.and(ga, c);
            cov.push((x, id));
        }
        for &(c, id) in &b.covers[i..] {
            let x = self.t.and(gb, c);
            cov.push((x, id));
        }
        a.covers = cov;
        let kb = b.known;
        a.known.retain(|t, v| kb.get(t) == Some(v));
        if a.model.is_none() {
            a.model = b.model.clone();
        }
        a
    }
    fn merge_obj(&mut self, g: T, a: &Obj, b: &Obj) -> Obj {
        let mut r = a.clone();
        let n = a.data.len();
        let mut o = 0usize;
        let differs = |o: usize| -> bool {
            let (sa, sb) = (a.is_sym(o), b.is_sym(o));
            if sa != sb {
                return true;
            }
            if sa {
                a.sym[o] != b.sym[o]
            } else {
                a.data[o] != b.data[o]
            }
        };
        while o < n {
            if !differs(o) {
                o += 1;
                continue;
            }
            // find the cell to merge
            let (mut lo, mut w) = (o & !3, 4usize);
            let mut f = None;
            for x in [a, b] {
                if x.is_sym(o) {
                    let (t, k) = x.sym[o];
                    let tw = (self.t.width(t) / 8).max(1) as usize;
                    if o >= k as usize && o - k as usize + tw <= n {
                        lo = o - k as usize;
                        w = tw;
                        f = match self.t.sort(t) {
                            s @ (Sort::F32 | Sort::F64) => Some(s),
                            _ => f,
                        };
                    }
                }
            }
            if lo + w > n || lo + w <= o {
                lo = o;
                w = 1;
            }
            let x = a.read(&mut self.t, lo as u64, w as u64);
            let y = b.read(&mut self.t, lo as u64, w as u64);
            let mut cv = |v: V| -> T {
                match (v, f) {
                    (V::C(c), Some(s)) => self.t.fc(c as u64, s),
                    (V::C(c), None) => self.t.bv(c, (w * 8) as u32),
                    (V::T(t), Some(s)) => {
                        if matches!(self.t.sort(t), Sort::F32 | Sort::F64) {
                            t
                        } else {
                            self.t.bits_to_f(t, s)
                        }
                    }
                    (V::T(t), None) => match self.t.sort(t) {
                        Sort::F32 | Sort::F64 => self.t.f_to_bits(t),
                        Sort::Bool => self.t.zext(t, 8),
                        _ => t,
                    },
                    _ => unreachable!(),
                }
            };
            let p = cv(x);
            let q = cv(y);
            let m = self.t.ite(g, p, q);
            match self.t.cv(m) {
                Some(c) => r.write_c(lo as u64, w as u64, c),
                None => r.write_t(lo as u64, w as u64, m),
            }
            o = lo + w;
        }
        r
    }

    // ------------------------------------------------------------ verdicts
    fn dead_path(&mut self, mut st: State, kind: String, what: String) {
        self.dead += 1;
        self.flush(&mut st);
        let key = format!("{}:{}", kind, what);
        if self.seen_viol.contains(&key) {
            return;
        }
        if st.pc.iter().any(|&c| c == Terms::FALSE) {
            return;
        }
        self.checks += 1;
        let pc = st.pc.clone();
        match self.decide(&st, &pc) {
            Verdict::Unsat => self.discharged += 1,
            Verdict::Model(m, exact) => {
                self.seen_viol.insert(key);
                let draws = self.draws_under(&st, &m);
                self.violations.push(Violation { kind, check: 0, what, draws, exact });
            }
            Verdict::Unknown(u) => {
                self.inconclusive.insert(format!("undecided whether a panic path is reachable: {} [{}]", what, u));
            }
        }
    }
    fn draws_under(&self, st: &State, m: &HashMap<u32, u128>) -> Vec<u64> {
        let mut memo = FxMap::default();
        let f = |i: u32| m.get(&i).copied().unwrap_or_else(|| self.default_bits(i, self.t.vars[i as usize].sort));
        st.draws
            .iter()
            .map(|d| match d {
                Draw::Pick(v) => *v,
                Draw::Sym(t) => self.t.eval(*t, &f, &mut memo) as u64,
            })
            .collect()
    }
    pub fn flush(&mut self, st: &mut State) {
        let pend: Vec<(T, u64)> = std::mem::take(&mut st.pending);
        let mut todo: Vec<(T, u64)> = vec![];
        for (c, id) in pend {
            self.checks += 1;
            if c == Terms::TRUE {
                self.discharged += 1;
                self.trivially += 1;
            } else if self.seen_viol.contains(&format!("check:{}", id)) {
                // one witness per check is enough
            } else {
                todo.push((c, id));
            }
        }
        if todo.is_empty() {
            return;
        }
        // batch first
        let mut all = Terms::TRUE;
        for &(c, _) in &todo {
            all = self.t.and(all, c);
        }
        let neg = self.t.not(all);
        let mut q = self.relevant(&st.pc, neg);
        self.final_queries += 1;
        let tmo = if todo.len() > 1 { self.cfg.qtimeout / 3 } else { self.cfg.qtimeout };
        match self.s.check(&self.t, &q, tmo, true, false) {
            Res::Unsat => {
                self.discharged += todo.len() as u64;
                self.cross_check(&q);
                return;
            }
            _ => {}
        }
        for (c, id) in todo {
            let neg = self.t.not(c);
            q = st.pc.clone();
            q.push(neg);
            match self.decide(st, &q) {
                Verdict::Unsat => self.discharged += 1,
                Verdict::Model(m, exact) => {
                    let key = format!("check:{}", id);
                    if self.seen_viol.insert(key) {
                        let draws = self.draws_under(st, &m);
                        self.violations.push(Violation { kind: "check".into(), check: id, what: format!("check {}", id), draws, exact });
                    }
                }
                Verdict::Unknown(u) => {
                    self.inconclusive.insert(format!("check {} undecided: {}", id, u));
                }
            }
        }
    }
    fn cross_check(&mut self, q: &[T]) {
        if let Some(x) = &mut self.x {
            match x.check(&self.t, q, 20000, false, false) {
                Res::Unsat => self.xagree += 1,
                Res::Sat(_) => {
                    self.inconclusive.insert("the two solvers disagree on a query".into());
                }
                Res::Unknown(_) => {}
            }
        }
    }
    /// Decides satisfiability of a conjunction and, if satisfiable, produces an assignment that
    /// satisfies it under the true float semantics.
    fn decide(&mut self, st: &State, q: &[T]) -> Verdict {
        self.final_queries += 1;
        // products of bit-precise numbers are slow to solve; a counterexample among small numbers is found at once
        if self.t.mode == Mode::Fp && self.has_product(q) {
            if let Some(m) = self.guess(q) {
                return Verdict::Model(m, true);
            }
        }
        let r = self.s.check(&self.t, q, self.cfg.qtimeout, true, false);
        let hint = match r {
            Res::Unsat => {
                self.cross_check(q);
                return Verdict::Unsat;
            }
            Res::Sat(m) => Some(self.complete(q, &m)),
            Res::Unknown(_) => None,
        };
        if let Some(m) = &hint {
            if self.evalb(m, q) {
                return Verdict::Model(m.clone(), true);
            }
        }
        // search near the solver's model / among small values with the real semantics
        let vars = self.t.vars_of(q);
        let t0 = Instant::now();
        for round in 0..40000u32 {
            if t0.elapsed().as_secs_f64() > 8.0 {
                break;
            }
            let mut m = HashMap::new();
            for &v in &vars {
                let (sort, kind) = {
                    let x = &self.t.vars[v as usize];
                    (x.sort, x.kind)
                };
                let r = self.rand();
                let keep = hint.is_some() && r % 4 < (round % 4) as u64;
                if keep {
                    m.insert(v, hint.as_ref().unwrap()[&v]);
                    continue;
                }
                let r2 = self.rand();
                let b = match kind {
                    VarKind::FInt { lo, hi } => {
                        let small = round % 2 == 0;
                        let (l, h) = if small { (lo.max(-3), hi.min(3)) } else { (lo, hi) };
                        let (l, h) = if l > h { (lo, hi) } else { (l, h) };
                        let k = l + (r2 % ((h - l + 1) as u64)) as i64;
                        if sort == Sort::F64 {
                            (k as f64).to_bits() as u128
                        } else {
                            (k as f32).to_bits() as u128
                        }
                    }
                    VarKind::FReal => ((((r2 % 2001) as f32) - 1000.0) / 100.0).to_bits() as u128,
                    VarKind::Bv { lo: 0, hi } if hi == mask(32) && round % 4 != 3 => small_float(r2 as usize),
                    VarKind::Bv { lo, hi } => lo + (r2 as u128) % (hi - lo + 1).max(1),
                    VarKind::Fresh => r2 as u128,
                };
                m.insert(v, b);
            }
            if self.evalb(&m, q) {
                return Verdict::Model(m, true);
            }
        }
        // with integer variables
        if self.t.mode == Mode::Real {
            match self.s.check(&self.t, q, self.cfg.qtimeout, true, true) {
                Res::Unsat => return Verdict::Unsat,
                Res::Sat(m) => {
                    let m = self.complete(q, &m);
                    if self.evalb(&m, q) {
                        return Verdict::Model(m, true);
                    }
                    return Verdict::Model(m, false);
                }
                Res::Unknown(u) => {
                    if let Some(m) = hint {
                        return Verdict::Model(m, false);
                    }
                    return Verdict::Unknown(u);
                }
            }
        }
        let _ = st;
        match hint {
            Some(m) => Verdict::Model(m, false),
            None => Verdict::Unknown("solver gave no answer".into()),
        }
    }
    fn end_path(&mut self, mut st: State) {
        self.paths += 1;
        self.flush(&mut st);
        let picks: Vec<u64> = st.draws.iter().filter_map(|d| if let Draw::Pick(v) = d { Some(*v) } else { None }).collect();
        let fresh = self.picks_seen.insert(picks);
        // reachability witnesses
        let covers = st.covers.clone();
        for (c, id) in covers {
            if *self.covered.get(&id).unwrap_or(&0) > 0 {
                continue;
            }
            let mut q = st.pc.clone();
            q.push(c);
            let m = match self.guess(&q) {
                Some(m) => Some(m),
                None => match self.s.check(&self.t, &q, 20000, true, false) {
                    Res::Sat(m) => Some(self.complete(&q, &m)),
                    Res::Unsat => None,
                    Res::Unknown(_) => {
                        self.cover_open.insert(id);
                        None
                    }
                },
            };
            if let Some(m) = m {
                *self.covered.entry(id).or_insert(0) += 1;
                if self.samples.len() < 2 * self.cfg.samples && self.evalb(&m, &q) {
                    self.sample(&st, &m);
                }
            }
        }
        let want = self.samples.len() < self.cfg.samples && (self.samples.is_empty() || self.rand() % if fresh { 3 } else { 8 } == 0);
        if want || self.nonvacuous == 0 {
            let mut roots = st.pc.clone();
            if roots.is_empty() {
                roots.push(Terms::TRUE);
            }
            let m = if st.pc.is_empty() { Some(HashMap::new()) } else { self.s_model(&roots) };
            if let Some(mut m) = m {
                self.nonvacuous += 1;
                // diversify the variables the path does not constrain
                let cons = self.t.vars_of(&st.pc);
                let mut all = vec![];
                for d in &st.draws {
                    if let Draw::Sym(t) = d {
                        all.push(*t);
                    }
                }
                for v in self.t.vars_of(&all) {
                    if !cons.contains(&v) {
                        let (r, r2) = (self.rand(), self.rand());
                        let kind = self.t.vars[v as usize].kind;
                        let b = match kind {
                            VarKind::FInt { lo, hi } => ((lo + (r % ((hi - lo + 1) as u64)) as i64) as f32).to_bits() as u128,
                            VarKind::Bv { lo, hi } if r2 % 2 == 0 => lo + (r as u128) % (hi - lo + 1).clamp(1, 4),
                            VarKind::Bv { lo, hi } => lo + (r as u128) % (hi - lo).max(1),
                            VarKind::FReal => ((r % 2001) as f32 / 100.0 - 10.0).to_bits() as u128,
                            VarKind::Fresh => 0,
                        };
                        m.insert(v, b);
                    }
                }
                if self.samples.len() < self.cfg.samples && self.evalb(&m, &st.pc) {
                    self.sample(&st, &m);
                }
            }
        }
    }
    fn sample(&mut self, st: &State, m: &HashMap<u32, u128>) {
        let draws = self.draws_under(st, m);
        let mut memo = FxMap::default();
        let f = |i: u32| m.get(&i).copied().unwrap_or_else(|| self.default_bits(i, self.t.vars[i as usize].sort));
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                V::C(c) => *c as u64,
                V::T(t) => self.t.eval(*t, &f, &mut memo) as u64,
                _ => 0,
            })
            .collect();
        self.samples.push(Sample { draws, obs });
    }
    /// A few extreme and random assignments, tried before the solver is asked for a witness.
    fn guess(&mut self, q: &[T]) -> Option<HashMap<u32, u128>> {
        let vars = self.t.vars_of(q);
        for round in 0..32u32 {
            let mut m = HashMap::new();
            for &v in &vars {
                let (sort, kind) = {
                    let x = &self.t.vars[v as usize];
                    (x.sort, x.kind)
                };
                let (r, r2) = (self.rand(), self.rand());
                let f = |k: f64| if sort == Sort::F64 { k.to_bits() as u128 } else { (k as f32).to_bits() as u128 };
                let b = match kind {
                    VarKind::FInt { lo, hi } => f((lo + (r2 % ((hi - lo + 1) as u64)) as i64) as f64),
                    VarKind::FReal => f((((r2 % 2001) as f64) - 1000.0) / 100.0),
                    VarKind::Bv { lo: 0, hi } if hi == mask(32) && round >= 16 => small_float(r2 as usize),
                    VarKind::Bv { lo, hi } => match if round < 2 { round as u64 } else { r % 5 } {
                        0 => lo,
                        1 => hi,
                        2 => lo + (r2 as u128) % (hi - lo + 1).max(1),
                        _ => lo + ((r2 >> (r % 61)) as u128) % (hi - lo + 1).max(1),
                    },
                    VarKind::Fresh => r2 as u128,
                };
                m.insert(v, b);
            }
            if self.evalb(&m, q) {
                return Some(m);
            }
        }
        None
    }
    fn s_model(&mut self, q: &[T]) -> Option<HashMap<u32, u128>> {
        self.model_for(q)
    }

    // ------------------------------------------------------------ stepping
    fn jump(&mut self, st: &mut State, b: u32) -> Result<(), Exc> {
        let fr = st.frames.last().unwrap();
        let fx = fr.f.clone();
        let from = fr.block;
        let blk = &fx.f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let o = &p.inc.iter().find(|x| x.0 == from).expect("phi without edge").1;
                vals.push((p.d, self.val(st, o)));
            }
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.block = b;
        fr.pc = 0;
        Ok(())
    }
    fn lanes(&self, ty: TyId) -> Option<(usize, TyId)> {
        match self.m.types.get(ty) {
            Ty::Vec(n, e) => Some((*n as usize, *e)),
            _ => None,
        }
    }
    fn lane(&self, v: &V, i: usize) -> V {
        match v {
            V::A(a) => a[i].clone(),
            x => x.clone(),
        }
    }
    fn binop(&mut self, op: BinOp, ty: TyId, a: &V, b: &V) -> Result<V, Exc> {
        if let Some((n, e)) = self.lanes(ty) {
            let mut v = vec![];
            for i in 0..n {
                let (x, y) = (self.lane(a, i), self.lane(b, i));
                v.push(self.binop(op, e, &x, &y)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let top = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::BAnd,
            BinOp::Or => Op::BOr,
            BinOp::Xor => Op::BXor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::FAdd => Op::FAdd,
            BinOp::FSub => Op::FSub,
            BinOp::FMul => Op::FMul,
            BinOp::FDiv => Op::FDiv,
            BinOp::FRem => Op::FRem,
        };
        let fs = f32ty(&self.m.types, ty);
        if let (V::C(x), V::C(y)) = (a, b) {
            let s = match fs {
                Some(s) => s,
                None => Sort::Bv(self.m.types.bits(ty)),
            };
            if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && *y == 0 {
                return Err(Exc::Dead("memory".into(), "division by zero".into()));
            }
            return Ok(V::C(ev(top, s, [s, s, s], [*x, *y, 0])));
        }
        let x = self.term(a, ty);
        let y = self.term(b, ty);
        let r = if fs.is_some() { self.t.fbin(top, x, y) } else { self.t.bin(top, x, y) };
        Ok(self.wrap(r))
    }
    fn icmp(&mut self, pred: IPred, ty: TyId, a: &V, b: &V) -> V {
        if let Some((n, e)) = self.lanes(ty) {
            let v = (0..n)
                .map(|i| {
                    let (x, y) = (self.lane(a, i), self.lane(b, i));
                    self.icmp(pred, e, &x, &y)
                })
                .collect();
            return V::A(Rc::new(v));
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            let w = self.m.types.bits(ty);
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            let r = match pred {
                IPred::Eq => x == y,
                IPred::Ne => x != y,
                IPred::Ugt => x > y,
                IPred::Uge => x >= y,
                IPred::Ult => x < y,
                IPred::Ule => x <= y,
                IPred::Sgt => sx > sy,
                IPred::Sge => sx >= sy,
                IPred::Slt => sx < sy,
                IPred::Sle => sx <= sy,
            };
            return V::C(r as u128);
        }
        let x = self.term(a, ty);
        let y = self.term(b, ty);
        let r = match pred {
            IPred::Eq => self.t.eq(x, y),
            IPred::Ne => {
                let e = self.t.eq(x, y);
                self.t.not(e)
            }
            IPred::Ugt => self.t.cmp(Op::Ult, y, x),
            IPred::Uge => self.t.cmp(Op::Ule, y, x),
            IPred::Ult => self.t.cmp(Op::Ult, x, y),
            IPred::Ule => self.t.cmp(Op::Ule, x, y),
            IPred::Sgt => self.t.cmp(Op::Slt, y, x),
            IPred::Sge => self.t.cmp(Op::Sle, y, x),
            IPred::Slt => self.t.cmp(Op::Slt, x, y),
            IPred::Sle => self.t.cmp(Op::Sle, x, y),
        };
        self.wrap(r)
    }
    fn fcmp(&mut self, pred: FPred, ty: TyId, a: &V, b: &V) -> V {
        if let Some((n, e)) = self.lanes(ty) {
            let v = (0..n)
                .map(|i| {
                    let (x, y) = (self.lane(a, i), self.lane(b, i));
                    self.fcmp(pred, e, &x, &y)
                })
                .collect();
            return V::A(Rc::new(v));
        }
        let x = self.term(a, ty);
        let y = self.term(b, ty);
        let t = &mut self.t;
        let r = match pred {
            FPred::False => 0,
            FPred::True => 1,
            FPred::Oeq => t.fcmp(Op::FEq, x, y),
            FPred::Olt => t.fcmp(Op::FLt, x, y),
            FPred::Ole => t.fcmp(Op::FLe, x, y),
            FPred::Ogt => t.fcmp(Op::FLt, y, x),
            FPred::Oge => t.fcmp(Op::FLe, y, x),
            FPred::Ord | FPred::Uno => {
                let p = t.fnan(x);
                let q = t.fnan(y);
                let r = t.or(p, q);
                if pred == FPred::Uno {
                    r
                } else {
                    t.not(r)
                }
            }
            FPred::Une => {
                let e = t.fcmp(Op::FEq, x, y);
                t.not(e)
            }
            FPred::Ult => {
                let e = t.fcmp(Op::FLe, y, x);
                t.not(e)
            }
            FPred::Ule => {
                let e = t.fcmp(Op::FLt, y, x);
                t.not(e)
            }
            FPred::Ugt => {
                let e = t.fcmp(Op::FLe, x, y);
                t.not(e)
            }
            FPred::Uge => {
                let e = t.fcmp(Op::FLt, x, y);
                t.not(e)
            }
            FPred::Ueq => {
                let p = t.fcmp(Op::FLt, x, y);
                let q = t.fcmp(Op::FLt, y, x);
                let r = t.or(p, q);
                t.not(r)
            }
            FPred::One => {
                let p = t.fcmp(Op::FLt, x, y);
                let q = t.fcmp(Op::FLt, y, x);
                t.or(p, q)
            }
        };
        self.wrap(r)
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: &V) -> Result<V, Exc> {
        if op == CastOp::BitCast {
            return self.bitcast(from, to, a);
        }
        if let Some((n, e)) = self.lanes(from) {
            let (_, te) = self.lanes(to).unwrap();
            let mut v = vec![];
            for i in 0..n {
                let x = self.lane(a, i);
                v.push(self.cast(op, e, te, &x)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let (fw, tw) = (self.m.types.bits(from), self.m.types.bits(to));
        let tf = f32ty(&self.m.types, to);
        let ff = f32ty(&self.m.types, from);
        if let V::C(c) = a {
            let ss = ff.unwrap_or(Sort::Bv(fw));
            let ds = tf.unwrap_or(Sort::Bv(tw));
            let r = match op {
                CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr => c & mask(tw),
                CastOp::ZExt => *c,
                CastOp::SExt => (sext(*c, fw) as u128) & mask(tw),
                CastOp::FpToUi => ev(Op::FToU, ds, [ss, ss, ss], [*c, 0, 0]),
                CastOp::FpToSi => ev(Op::FToS, ds, [ss, ss, ss], [*c, 0, 0]),
                CastOp::UiToFp => ev(Op::UToF, ds, [ss, ss, ss], [*c, 0, 0]),
                CastOp::SiToFp => ev(Op::SToF, ds, [ss, ss, ss], [*c, 0, 0]),
                CastOp::FpTrunc | CastOp::FpExt => ev(Op::FCvt, ds, [ss, ss, ss], [*c, 0, 0]),
                CastOp::BitCast => unreachable!(),
            };
            return Ok(V::C(r));
        }
        let x = self.term(a, from);
        let ds = tf.unwrap_or(Sort::Bv(tw));
        let r = match op {
            CastOp::Trunc => self.t.trunc(x, tw),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if tw < fw {
                    self.t.trunc(x, tw)
                } else {
                    self.t.zext(x, tw)
                }
            }
            CastOp::ZExt => self.t.zext(x, tw),
            CastOp::SExt => self.t.sext(x, tw),
            CastOp::FpToUi => self.t.conv(Op::FToU, x, ds),
            CastOp::FpToSi => self.t.conv(Op::FToS, x, ds),
            CastOp::UiToFp => self.t.conv(Op::UToF, x, ds),
            CastOp::SiToFp => self.t.conv(Op::SToF, x, ds),
            CastOp::FpTrunc | CastOp::FpExt => self.t.conv(Op::FCvt, x, ds),
            CastOp::BitCast => unreachable!(),
        };
        Ok(self.wrap(r))
    }
    fn bitcast(&mut self, from: TyId, to: TyId, a: &V) -> Result<V, Exc> {
        let fl = self.lanes(from);
        let tl = self.lanes(to);
        match (fl, tl) {
            (None, None) => {
                if let V::C(_) = a {
                    return Ok(a.clone());
                }
                let t = self.term(a, from);
                let r = self.term(&V::T(t), to);
                Ok(self.wrap(r))
            }
            (Some((n, e)), None) => {
                let ew = self.m.types.bits(e);
                let mut c = 0u128;
                let mut conc = true;
                for i in 0..n {
                    if let V::C(x) = self.lane(a, i) {
                        if (i as u32) * ew < 128 {
                            c |= (x & mask(ew)) << (i as u32 * ew);
                        }
                    } else {
                        conc = false;
                    }
                }
                if conc {
                    return Ok(V::C(c));
                }
                let mut acc: Option<T> = None;
                for i in 0..n {
                    let l = self.lane(a, i);
                    let mut t = self.term(&l, e);
                    if matches!(self.t.sort(t), Sort::F32 | Sort::F64) {
                        t = self.t.f_to_bits(t);
                    }
                    if self.t.sort(t) == Sort::Bool {
                        t = self.t.zext(t, 1);
                    }
                    acc = Some(match acc {
                        None => t,
                        Some(x) => self.t.concat(t, x),
                    });
                }
                let r = self.wrap(acc.unwrap());
                if let V::T(t) = r {
                    let x = self.term(&V::T(t), to);
                    return Ok(self.wrap(x));
                }
                Ok(r)
            }
            (None, Some((n, e))) => {
                let ew = self.m.types.bits(e);
                let mut v = vec![];
                for i in 0..n as u32 {
                    v.push(match a {
                        V::C(c) => V::C((c >> (i * ew)) & mask(ew)),
                        _ => {
                            let mut t = self.term(a, from);
                            if matches!(self.t.sort(t), Sort::F32 | Sort::F64) {
                                t = self.t.f_to_bits(t);
                            }
                            let x = self.t.extract(t, i * ew + ew - 1, i * ew);
                            let x = self.term(&V::T(x), e);
                            self.wrap(x)
                        }
                    });
                }
                Ok(V::A(Rc::new(v)))
            }
            (Some((n, e)), Some((n2, e2))) => {
                if n == n2 {
                    let mut v = vec![];
                    for i in 0..n {
                        let x = self.lane(a, i);
                        v.push(self.bitcast(e, e2, &x)?);
                    }
                    return Ok(V::A(Rc::new(v)));
                }
                let w = self.m.types.bits(e) * n as u32;
                let it = self.m.types.intern(Ty::Int(w));
                let x = self.bitcast(from, it, a)?;
                self.bitcast(it, to, &x)
            }
        }
    }
    fn gep(&mut self, src: TyId, base: &V, idx: &[(TyId, V)]) -> V {
        let mut p = base.clone();
        let mut t = src;
        for (i, (it, v)) in idx.iter().enumerate() {
            let scale;
            if i == 0 {
                scale = self.m.types.size(t);
            } else if let Ty::Struct(..) = self.m.types.get(t) {
                let V::C(k) = v else { panic!("struct index") };
                let off = self.m.types.field_offset(t, *k as usize);
                p = self.padd(&p, off);
                t = self.m.types.elem(t, *k as usize);
                continue;
            } else {
                t = self.m.types.elem(t, 0);
                scale = self.m.types.size(t);
            }
            let w = self.m.types.bits(*it);
            match v {
                V::C(k) => {
                    let k = sext(*k, w) as i64;
                    p = self.padd(&p, k.wrapping_mul(scale as i64) as u64);
                }
                _ => {
                    let x = self.term(v, *it);
                    let x = self.t.sext(x, 64);
                    let s = self.t.bv(scale as u128, 64);
                    let o = self.t.bin(Op::Mul, x, s);
                    let b = match &p {
                        V::C(c) => self.t.bv(*c, 64),
                        V::T(t) => *t,
                        _ => panic!(),
                    };
                    let r = self.t.bin(Op::Add, b, o);
                    p = self.wrap(r);
                }
            }
        }
        p
    }
    fn step(&mut self, st: &mut State) -> Result<Flow, Exc> {
        self.steps += 1;
        if self.steps & 0x3fff == 0 && !self.budget() {
            return Err(Exc::Drop);
        }
        let fr = st.frames.last().unwrap();
        let fx = fr.f.clone();
        let blk = &fx.f.blocks[fr.block as usize];
        let Some(inst) = blk.insts.get(fr.pc) else {
            panic!("past the end of block {} of {} ({} instructions)", blk.name, self.m.funcs[fx.idx].name, blk.insts.len());
        };
        let d;
        let v;
        match inst {
            Inst::Bin { op, ty, a, b, d: dd } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                v = self.binop(*op, *ty, &x, &y)?;
                d = *dd;
            }
            Inst::FNeg { ty, a, d: dd } => {
                let x = self.val(st, a);
                d = *dd;
                v = match (&x, self.lanes(*ty)) {
                    (_, None) => {
                        let t = self.term(&x, *ty);
                        let r = self.t.fun(Op::FNeg, t);
                        self.wrap(r)
                    }
                    _ => return Err(Exc::Unsupported("vector fneg".into())),
                };
            }
            Inst::ICmp { pred, ty, a, b, d: dd } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                v = self.icmp(*pred, *ty, &x, &y);
                d = *dd;
            }
            Inst::FCmp { pred, ty, a, b, d: dd } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                v = self.fcmp(*pred, *ty, &x, &y);
                d = *dd;
            }
            Inst::Cast { op, from, to, a, d: dd } => {
                let x = self.val(st, a);
                v = self.cast(*op, *from, *to, &x)?;
                d = *dd;
            }
            Inst::Select { cty, ty, c, a, b, d: dd } => {
                let cv = self.val(st, c);
                let (x, y) = (self.val(st, a), self.val(st, b));
                d = *dd;
                v = self.select(*cty, *ty, &cv, &x, &y)?;
            }
            Inst::Freeze { a, d: dd } => {
                v = self.val(st, a);
                d = *dd;
            }
            Inst::Alloca { size, count, d: dd, .. } => {
                let n = match count {
                    None => 1,
                    Some(o) => {
                        let x = self.val(st, o);
                        self.conc(st, &x)? as u64
                    }
                };
                let a = self.alloc(st, size * n, Kind::Stack);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push((a >> 32) as u32);
                v = V::C(a as u128);
                d = *dd;
            }
            Inst::Load { ty, p, d: dd } => {
                let pv = self.val(st, p);
                v = self.load(st, &pv, *ty)?;
                d = *dd;
            }
            Inst::Store { ty, v: x, p } => {
                let pv = self.val(st, p);
                let xv = self.val(st, x);
                self.store(st, &pv, *ty, &xv)?;
                return self.next(st);
            }
            Inst::Gep { src, base, idx, d: dd } => {
                let b = self.val(st, base);
                let ix: Vec<(TyId, V)> = idx.iter().map(|(t, o)| (*t, self.val(st, o))).collect();
                v = self.gep(*src, &b, &ix);
                d = *dd;
            }
            Inst::ExtractValue { a, idx, d: dd, .. } => {
                let mut x = self.val(st, a);
                for i in idx {
                    let V::A(e) = &x else { return Err(Exc::Unsupported("extractvalue".into())) };
                    let y = e[*i as usize].clone();
                    x = y;
                }
                v = x;
                d = *dd;
            }
            Inst::InsertValue { a, v: nv, idx, d: dd, .. } => {
                let x = self.val(st, a);
                let y = self.val(st, nv);
                v = insert(&x, idx, y);
                d = *dd;
            }
            Inst::ExtractElem { a, i, d: dd, .. } => {
                let x = self.val(st, a);
                let iv = self.val(st, i);
                let k = self.conc(st, &iv)? as usize;
                v = self.lane(&x, k);
                d = *dd;
            }
            Inst::InsertElem { a, v: nv, i, d: dd, .. } => {
                let x = self.val(st, a);
                let y = self.val(st, nv);
                let iv = self.val(st, i);
                let k = self.conc(st, &iv)? as u32;
                v = insert(&x, &[k], y);
                d = *dd;
            }
            Inst::Shuffle { ty, a, b, mask, d: dd } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let n = self.m.types.nelem(*ty) as i64;
                let e = self.m.types.elem(*ty, 0);
                let r = mask
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            self.zero(e)
                        } else if k < n {
                            self.lane(&x, k as usize)
                        } else {
                            self.lane(&y, (k - n) as usize)
                        }
                    })
                    .collect();
                v = V::A(Rc::new(r));
                d = *dd;
            }
            Inst::Call { callee, rty, args, d: dd, noreturn } => {
                return self.call(st, callee, *rty, args, *dd, *noreturn);
            }
            Inst::CmpXchg { ty, p, cmp, new, d: dd } => {
                let pv = self.val(st, p);
                let old = self.load(st, &pv, *ty)?;
                let c = self.val(st, cmp);
                let nv = self.val(st, new);
                let e = self.icmp(IPred::Eq, *ty, &old, &c);
                let k = self.conc(st, &e)?;
                if k != 0 {
                    self.store(st, &pv, *ty, &nv)?;
                }
                v = V::A(Rc::new(vec![old, V::C(k)]));
                d = *dd;
            }
            Inst::AtomicRmw { op, ty, p, v: x, d: dd } => {
                let pv = self.val(st, p);
                let old = self.load(st, &pv, *ty)?;
                let y = self.val(st, x);
                let nv = match op.as_str() {
                    "xchg" => y,
                    "add" => self.binop(BinOp::Add, *ty, &old, &y)?,
                    "sub" => self.binop(BinOp::Sub, *ty, &old, &y)?,
                    "or" => self.binop(BinOp::Or, *ty, &old, &y)?,
                    "and" => self.binop(BinOp::And, *ty, &old, &y)?,
                    "xor" => self.binop(BinOp::Xor, *ty, &old, &y)?,
                    _ => return Err(Exc::Unsupported(format!("atomicrmw {}", op))),
                };
                self.store(st, &pv, *ty, &nv)?;
                v = old;
                d = *dd;
            }
            Inst::Nop => return self.next(st),
            Inst::Br { t } => {
                let t = *t;
                self.jump(st, t)?;
                return Ok(Flow::Jump);
            }
            Inst::CondBr { c, t, f } => {
                let cv = self.val(st, c);
                match cv {
                    V::C(x) => {
                        let b = if x & 1 != 0 { *t } else { *f };
                        self.jump(st, b)?;
                        return Ok(Flow::Jump);
                    }
                    V::T(x) => {
                        if let Some(k) = st.known.get(&x) {
                            let b = if k & 1 != 0 { *t } else { *f };
                            self.jump(st, b)?;
                            return Ok(Flow::Jump);
                        }
                        return Ok(Flow::Branch(x, *t, *f));
                    }
                    _ => panic!(),
                }
            }
            Inst::Switch { ty, v: x, def, cases } => {
                let xv = self.val(st, x);
                match &xv {
                    V::C(k) => {
                        let b = cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, b)?;
                        return Ok(Flow::Jump);
                    }
                    V::T(_) => {
                        let t = self.term(&xv, *ty);
                        return Ok(Flow::Switch(t, *def, cases.clone()));
                    }
                    _ => panic!(),
                }
            }
            Inst::Ret { v: x, .. } => {
                let rv = x.as_ref().map(|o| self.val(st, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(a);
                }
                if st.frames.is_empty() {
                    return Ok(Flow::Done);
                }
                let top = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(v)) = (fr.ret, rv) {
                    top.regs[d as usize] = v;
                }
                top.pc += 1;
                return Ok(Flow::Next);
            }
            Inst::Unreachable => {
                return Err(Exc::Dead("memory".into(), format!("unreachable code reached in {}", fx.f.name)));
            }
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.pc += 1;
        Ok(Flow::Next)
    }
    fn next(&self, st: &mut State) -> Result<Flow, Exc> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.pc += 1;
        Ok(Flow::Next)
    }
    fn select(&mut self, cty: TyId, ty: TyId, c: &V, x: &V, y: &V) -> Result<V, Exc> {
        if let (V::A(cs), Some((n, e))) = (c, self.lanes(ty)) {
            let i1 = self.m.types.elem(cty, 0);
            let mut v = vec![];
            for i in 0..n {
                let (p, q) = (self.lane(x, i), self.lane(y, i));
                v.push(self.select(i1, e, &cs[i], &p, &q)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        match c {
            V::C(k) => Ok(if k & 1 != 0 { x.clone() } else { y.clone() }),
            V::T(_) => {
                let ct = self.term(c, cty);
                Ok(self.merge_v(ct, x, y, ty))
            }
            _ => Err(Exc::Unsupported("select".into())),
        }
    }
    fn ret(&mut self, st: &mut State, d: Option<u32>, v: V) -> Result<Flow, Exc> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if let Some(d) = d {
            fr.regs[d as usize] = v;
        }
        fr.pc += 1;
        Ok(Flow::Next)
    }
    fn location(&mut self, st: &State, args: &[V]) -> String {
        // a &'static Location: { file ptr, file len, line, col }
        for a in args.iter().rev() {
            if let V::C(p) = a {
                let p = *p as u64;
                if let Some(o) = self.obj(st, (p >> 32) as u32) {
                    if o.data.len() == 24 && o.constant && p & 0xffff_ffff == 0 {
                        let f = u64::from_le_bytes(o.data[0..8].try_into().unwrap());
                        let n = u64::from_le_bytes(o.data[8..16].try_into().unwrap());
                        let line = u32::from_le_bytes(o.data[16..20].try_into().unwrap());
                        if n > 0 && n < 300 {
                            if let Ok(b) = self.bytes(st, f, n) {
                                let s = String::from_utf8_lossy(&b).into_owned();
                                if s.ends_with(".rs") {
                                    return format!("{}:{}", s, line);
                                }
                            }
                        }
                    }
                }
            }
        }
        "?".into()
    }
    fn call(&mut self, st: &mut State, callee: &Callee, rty: TyId, args: &[(TyId, Opnd)], d: Option<u32>, noreturn: bool) -> Result<Flow, Exc> {
        let name: String = match callee {
            Callee::Named(n) => n.clone(),
            Callee::Ind(o) => {
                let p = self.val(st, o);
                let a = self.conc(st, &p)? as u64;
                match self.faddr.get(&a) {
                    Some(n) => n.clone(),
                    None => return self.ub(format!("indirect call to invalid address {:#x}", a)),
                }
            }
            Callee::Asm => return self.ret(st, d, V::C(0)),
        };
        let name = match self.m.aliases.get(&name) {
            Some(a) => a.clone(),
            None => name,
        };
        let av: Vec<V> = args.iter().map(|(_, o)| self.val(st, o)).collect();
        if let Some(r) = self.intercept(st, &name, rty, args, &av, d) {
            return r;
        }
        let fi = self.m.fmap.get(&name).copied();
        let nr = noreturn || fi.map(|f| self.m.funcs[f].noreturn).unwrap_or(false);
        if nr {
            let loc = self.location(st, &av);
            let w: Vec<String> = st.frames.iter().rev().take(3).map(|f| demangle(&f.f.f.name)).collect();
            return Err(Exc::Dead("panic".into(), format!("{} at {} in {}", demangle(&name), loc, w.join(" < "))));
        }
        match fi {
            Some(fi) if !self.m.funcs[fi].declared => {
                if st.frames.len() > 400 {
                    return Err(Exc::Unsupported("call depth".into()));
                }
                let f = self.func(fi);
                let mut regs = vec![V::C(0); f.f.nregs];
                for (i, p) in f.f.params.iter().enumerate() {
                    if i < av.len() {
                        regs[*p as usize] = av[i].clone();
                    }
                }
                st.frames.push(Rc::new(Frame { f, block: 0, pc: 0, regs, ret: d, allocas: vec![] }));
                Ok(Flow::Jump)
            }
            _ => Err(Exc::Unsupported(format!("call to external function {}", name))),
        }
    }
    fn t64(&mut self, v: &V) -> T {
        match v {
            V::C(c) => self.t.bv(*c, 64),
            V::T(t) => *t,
            _ => panic!(),
        }
    }
    fn draw_name(&self, st: &State) -> String {
        format!("v{}", st.draws.len())
    }
    fn intercept(&mut self, st: &mut State, name: &str, rty: TyId, args: &[(TyId, Opnd)], av: &[V], d: Option<u32>) -> Option<Result<Flow, Exc>> {
        macro_rules! ok {
            ($v:expr) => {{
                let v = $v;
                return Some(self.ret(st, d, v));
            }};
        }
        macro_rules! tr {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => return Some(Err(e)),
                }
            };
        }
        macro_rules! c {
            ($i:expr) => {
                tr!(self.conc(st, &av[$i]))
            };
        }
        if let Some(r) = name.strip_prefix("sx_") {
            return Some(self.sx(st, r, args, av, d));
        }
        if let Some(r) = name.strip_prefix("llvm.") {
            return Some(self.intrinsic(st, r, rty, args, av, d));
        }
        match name {
            "bcmp" | "memcmp" => {
                let n = c!(2) as u64;
                let (p, q) = (c!(0) as u64, c!(1) as u64);
                // concrete prefix decides early; otherwise build the result symbolically
                let mut res: Option<T> = None; // value for "all later bytes"
                let mut items = vec![];
                for i in 0..n {
                    let x = tr!(self.load_raw(st, p + i, 1));
                    let y = tr!(self.load_raw(st, q + i, 1));
                    match (&x, &y) {
                        (V::C(a), V::C(b)) if a == b => continue,
                        (V::C(a), V::C(b)) => {
                            let r = if a < b { 0xffff_ffffu128 } else { 1 };
                            res = Some(self.t.bv(r, 32));
                            break;
                        }
                        _ => items.push((x, y)),
                    }
                }
                let mut acc = match res {
                    Some(r) => r,
                    None => self.t.bv(0, 32),
                };
                let i8t = self.m.types.intern(Ty::Int(8));
                for (x, y) in items.into_iter().rev() {
                    let a = self.term(&x, i8t);
                    let b = self.term(&y, i8t);
                    let e = self.t.eq(a, b);
                    let l = self.t.cmp(Op::Ult, a, b);
                    let m1 = self.t.bv(0xffff_ffff, 32);
                    let p1 = self.t.bv(1, 32);
                    let ne = self.t.ite(l, m1, p1);
                    acc = self.t.ite(e, acc, ne);
                }
                ok!(self.wrap(acc));
            }
            "strlen" => {
                let p = c!(0) as u64;
                let s = tr!(self.cstr(st, p));
                ok!(V::C(s.len() as u128));
            }
            "__errno_location" => {
                if st.errno == 0 {
                    st.errno = self.alloc(st, 8, Kind::Heap);
                }
                ok!(V::C(st.errno as u128));
            }
            "pthread_key_create" => {
                let p = c!(0) as u64;
                st.keys += 1;
                tr!(self.store_raw(st, p, 4, &V::C(st.keys as u128)));
                ok!(V::C(0));
            }
            "__cxa_thread_atexit_impl" | "pthread_key_delete" | "pthread_setspecific" | "pthread_atfork" | "poll" => ok!(V::C(0)),
            "malloc" | "calloc" => {
                let n = if name == "malloc" { c!(0) as u64 } else { (c!(0) as u64).saturating_mul(c!(1) as u64) };
                if n > (1 << 31) {
                    ok!(V::C(0));
                }
                let a = self.alloc(st, n, Kind::Heap);
                ok!(V::C(a as u128));
            }
            "free" => {
                let p = c!(0) as u64;
                if p != 0 {
                    match self.obj_ref(st, (p >> 32) as u32) {
                        Some(o) if o.kind == Kind::Heap && p & 0xffff_ffff == 0 => {
                            st.mem.remove(&((p >> 32) as u32));
                        }
                        _ => return Some(self.ub(format!("invalid free of {:#x}", p))),
                    }
                }
                ok!(V::C(0));
            }
            "getenv" => ok!(V::C(0)),
            "gettid" => ok!(V::C(1)),
            "_Unwind_Backtrace" | "dl_iterate_phdr" => ok!(V::C(0)),
            "open64" | "read" | "write" | "writev" | "close" | "fstat64" | "statx" | "lseek64" | "syscall" | "getrandom" | "fcntl64" | "fsync" | "fdatasync" | "rename" | "unlink" | "stat64" | "lstat64" | "access" | "ftruncate64" | "pread64" | "pwrite64" => {
                return Some(self.posix(st, name, av, d));
            }
            "expf" => {
                let t = self.term(&av[0], rty);
                let r = self.t.fun(Op::Exp, t);
                ok!(self.wrap(r));
            }
            _ => {}
        }
        if name.contains("7___rustc") {
            if name.ends_with("12___rust_alloc") || name.ends_with("19___rust_alloc_zeroed") {
                let n = c!(0) as u64;
                if n > (1 << 31) {
                    // the model has no such memory: the allocator reports failure
                    ok!(V::C(0));
                }
                let a = self.alloc(st, n, Kind::Heap);
                ok!(V::C(a as u128));
            }
            if name.ends_with("14___rust_dealloc") {
                let p = c!(0) as u64;
                let id = (p >> 32) as u32;
                match self.obj_ref(st, id) {
                    Some(o) if o.kind == Kind::Heap && p & 0xffff_ffff == 0 => {
                        st.mem.remove(&id);
                    }
                    _ => return Some(self.ub(format!("invalid free of {:#x}", p))),
                }
                ok!(V::C(0));
            }
        }
        if name == "realloc" || name.contains("7___rustc") {
            if name == "realloc" || name.ends_with("14___rust_realloc") {
                let p = c!(0) as u64;
                let n = c!(if name == "realloc" { 1 } else { 3 }) as u64;
                let id = (p >> 32) as u32;
                let old = match self.obj(st, id) {
                    Some(o) if o.kind == Kind::Heap => o,
                    _ => return Some(self.ub("invalid realloc".into())),
                };
                if n > (1 << 31) {
                    ok!(V::C(0));
                }
                let a = self.alloc(st, n, Kind::Heap);
                let k = n.min(old.data.len() as u64);
                tr!(self.copy(st, a, p, k));
                st.mem.remove(&id);
                ok!(V::C(a as u128));
            }
            if name.contains("___rust_no_alloc_shim_is_unstable") {
                ok!(V::C(0));
            }
        }
        if name.contains("19hashmap_random_keys") {
            let fs = Rc::make_mut(&mut st.fs);
            fs.nseed += 1;
            // the same bytes as the native runtime's getrandom
            let byte = |i: u64| (fs.hash_seed.wrapping_mul(131).wrapping_add(i * 37 + 11) & 0xff) as u128;
            let k0 = (0..8).fold(0u128, |a, i| a | byte(i) << (8 * i));
            let k1 = (0..8).fold(0u128, |a, i| a | byte(8 + i) << (8 * i));
            ok!(V::A(Rc::new(vec![V::C(k0), V::C(k1)])));
        }
        if name.contains("rand_chacha") && name.contains("refill_wide") || name.contains("refill_wide_impl") {
            // the random word source: every word is arbitrary
            let out = c!(2) as u64;
            let id = (out >> 32) as u32;
            let len = self.obj_ref(st, id).map(|o| o.data.len() as u64 - (out & 0xffff_ffff)).unwrap_or(0);
            let n = 64.min(len / 4);
            for i in 0..n {
                let nm = format!("rw{}", st.words);
                st.words += 1;
                let t = self.t.var(&nm, Sort::Bv(32), VarKind::Bv { lo: 0, hi: mask(32) });
                st.draws.push(Draw::Sym(t));
                tr!(self.store_raw(st, out + 4 * i, 4, &V::T(t)));
            }
            ok!(V::C(0));
        }
        None
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, rty: TyId, args: &[(TyId, Opnd)], av: &[V], d: Option<u32>) -> Result<Flow, Exc> {
        let base: &str = name.split('.').next().unwrap();
        let ty = args.first().map(|a| a.0).unwrap_or(rty);
        match base {
            "lifetime" | "assume" | "experimental" | "dbg" | "prefetch" | "x86" | "donothing" | "invariant" | "sideeffect" => self.ret(st, d, V::C(0)),
            "trap" => Err(Exc::Dead("panic".into(), "trap".into())),
            "threadlocal" | "launder" | "strip" | "expect" | "ptrmask" if base != "ptrmask" => self.ret(st, d, av[0].clone()),
            "memcpy" | "memmove" => {
                let n = self.conc(st, &av[2])? as u64;
                let p = self.conc(st, &av[0])? as u64;
                let q = self.conc(st, &av[1])? as u64;
                self.copy(st, p, q, n)?;
                self.ret(st, d, V::C(0))
            }
            "memset" => {
                let n = self.conc(st, &av[2])? as u64;
                let p = self.conc(st, &av[0])? as u64;
                if n > 0 {
                    self.locate(st, p, n)?;
                    match &av[1] {
                        V::C(c) => {
                            let (id, off) = self.locate(st, p, n)?;
                            let o = self.obj_mut(st, id)?;
                            for i in 0..n {
                                o.write_c(off + i, 1, *c);
                            }
                        }
                        x => {
                            for i in 0..n {
                                self.store_raw(st, p + i, 1, x)?;
                            }
                        }
                    }
                }
                self.ret(st, d, V::C(0))
            }
            "load" => {
                // llvm.load.relative
                let p = self.conc(st, &av[0])? as u64;
                let o = self.conc(st, &av[1])? as u64;
                let v = self.load_raw(st, p.wrapping_add(o), 4)?;
                let k = sext(self.conc(st, &v)?, 32) as i64 as u64;
                self.ret(st, d, V::C(p.wrapping_add(k) as u128))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if name.contains("with.overflow") => {
                let w = self.m.types.bits(ty);
                let (x, y) = (self.term(&av[0], ty), self.term(&av[1], ty));
                let op = match &base[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.t.bin(op, x, y);
                let o = self.overflow(base, op, x, y, r, w);
                let v = V::A(Rc::new(vec![self.wrap(r), self.wrap(o)]));
                self.ret(st, d, v)
            }
            "uadd" | "usub" | "sadd" | "ssub" => {
                // saturating
                let w = self.m.types.bits(ty);
                let (x, y) = (self.term(&av[0], ty), self.term(&av[1], ty));
                let op = if base.ends_with("add") { Op::Add } else { Op::Sub };
                let r = self.t.bin(op, x, y);
                let o = self.overflow(base, op, x, y, r, w);
                let sat = match base {
                    "uadd" => self.t.bv(mask(w), w),
                    "usub" => self.t.bv(0, w),
                    _ => {
                        let z = self.t.bv(0, w);
                        let neg = self.t.cmp(Op::Slt, x, z);
                        let lo = self.t.bv(1u128 << (w - 1), w);
                        let hi = self.t.bv(mask(w) >> 1, w);
                        self.t.ite(neg, lo, hi)
                    }
                };
                let v = self.t.ite(o, sat, r);
                let v = self.wrap(v);
                self.ret(st, d, v)
            }
            "umax" | "umin" | "smax" | "smin" => {
                if let Some((n, e)) = self.lanes(ty) {
                    let mut v = vec![];
                    for i in 0..n {
                        let (p, q) = (self.lane(&av[0], i), self.lane(&av[1], i));
                        let (x, y) = (self.term(&p, e), self.term(&q, e));
                        let c = self.t.cmp(if base.starts_with('u') { Op::Ult } else { Op::Slt }, x, y);
                        let r = if base.ends_with("max") { self.t.ite(c, y, x) } else { self.t.ite(c, x, y) };
                        v.push(self.wrap(r));
                    }
                    return self.ret(st, d, V::A(Rc::new(v)));
                }
                let (x, y) = (self.term(&av[0], ty), self.term(&av[1], ty));
                let c = self.t.cmp(if base.starts_with('u') { Op::Ult } else { Op::Slt }, x, y);
                let r = if base.ends_with("max") { self.t.ite(c, y, x) } else { self.t.ite(c, x, y) };
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "abs" => {
                let w = self.m.types.bits(ty);
                let x = self.term(&av[0], ty);
                let z = self.t.bv(0, w);
                let c = self.t.cmp(Op::Slt, x, z);
                let n = self.t.bin(Op::Sub, z, x);
                let r = self.t.ite(c, n, x);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "ucmp" | "scmp" => {
                let (x, y) = (self.term(&av[0], ty), self.term(&av[1], ty));
                let lt = self.t.cmp(if base == "ucmp" { Op::Ult } else { Op::Slt }, x, y);
                let eq = self.t.eq(x, y);
                let w = self.m.types.bits(rty);
                let (m1, z, p1) = (self.t.bv(mask(w), w), self.t.bv(0, w), self.t.bv(1, w));
                let a = self.t.ite(eq, z, p1);
                let r = self.t.ite(lt, m1, a);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let w = self.m.types.bits(ty);
                if let V::C(x) = &av[0] {
                    let x = *x;
                    let r = match base {
                        "ctlz" => x.leading_zeros() as u128 - (128 - w) as u128,
                        "cttz" => {
                            if x == 0 {
                                w as u128
                            } else {
                                x.trailing_zeros() as u128
                            }
                        }
                        "ctpop" => x.count_ones() as u128,
                        "bswap" => x.swap_bytes() >> (128 - w),
                        _ => x.reverse_bits() >> (128 - w),
                    };
                    return self.ret(st, d, V::C(r));
                }
                let x = self.term(&av[0], ty);
                match base {
                    "bswap" => {
                        let mut acc: Option<T> = None;
                        for k in 0..w / 8 {
                            let b = self.t.extract(x, k * 8 + 7, k * 8);
                            acc = Some(match acc {
                                None => b,
                                Some(a) => self.t.concat(a, b),
                            });
                        }
                        let v = self.wrap(acc.unwrap());
                        self.ret(st, d, v)
                    }
                    "cttz" | "ctlz" => {
                        let mut r = self.t.bv(w as u128, w);
                        let one = self.t.bv(1, 1);
                        for k in 0..w {
                            let i = if base == "cttz" { w - 1 - k } else { k };
                            let b = self.t.extract(x, i, i);
                            let c = self.t.eq(b, one);
                            let n = self.t.bv(if base == "cttz" { i as u128 } else { (w - 1 - i) as u128 }, w);
                            r = self.t.ite(c, n, r);
                        }
                        let v = self.wrap(r);
                        self.ret(st, d, v)
                    }
                    _ => {
                        let k = self.conc(st, &av[0])?;
                        let _ = k;
                        let r = if base == "ctpop" { k.count_ones() as u128 } else { k.reverse_bits() >> (128 - w) };
                        self.ret(st, d, V::C(r))
                    }
                }
            }
            "fshl" | "fshr" => {
                let w = self.m.types.bits(ty);
                let s = self.conc(st, &av[2])? as u32 % w;
                let (x, y) = (self.term(&av[0], ty), self.term(&av[1], ty));
                let s = if base == "fshl" { s } else { (w - s) % w };
                let r = if s == 0 {
                    if base == "fshl" {
                        x
                    } else {
                        y
                    }
                } else {
                    let hi = self.t.extract(x, w - 1 - s, 0);
                    let lo = self.t.extract(y, w - 1, w - s);
                    self.t.concat(hi, lo)
                };
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "maximum" | "minimum" if self.t.mode == Mode::Real => {
                let (x, y) = (self.term(&av[0], ty), self.term(&av[1], ty));
                let r = self.t.fbin(if base.starts_with("max") { Op::FMax } else { Op::FMin }, x, y);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "maxnum" | "maximumnum" | "minnum" | "minimumnum" => {
                let (x, y) = (self.term(&av[0], ty), self.term(&av[1], ty));
                let r = self.t.fbin(if base.starts_with("max") { Op::FMax } else { Op::FMin }, x, y);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "fabs" | "sqrt" | "exp" => {
                let x = self.term(&av[0], ty);
                let op = match base {
                    "fabs" => Op::FAbs,
                    "sqrt" => Op::FSqrt,
                    _ => Op::Exp,
                };
                let r = self.t.fun(op, x);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "fmuladd" | "fma" => {
                let (x, y, z) = (self.term(&av[0], ty), self.term(&av[1], ty), self.term(&av[2], ty));
                if base == "fma" && self.t.mode == Mode::Fp {
                    return Err(Exc::Unsupported("fma in bit-precise mode".into()));
                }
                let p = self.t.fbin(Op::FMul, x, y);
                let r = self.t.fbin(Op::FAdd, p, z);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "powi" => {
                let n = sext(self.conc(st, &av[1])?, 32);
                let x = self.term(&av[0], ty);
                if !(0..=8).contains(&n) {
                    return Err(Exc::Unsupported("powi exponent".into()));
                }
                let s = self.t.sort(x);
                let one = if s == Sort::F32 { 1f32.to_bits() as u64 } else { 1f64.to_bits() };
                let mut r = self.t.fc(one, s);
                for i in 0..n {
                    r = if i == 0 { x } else { self.t.fbin(Op::FMul, r, x) };
                }
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "fptoui" | "fptosi" => {
                let x = self.term(&av[0], ty);
                let w = self.m.types.bits(rty);
                let r = self.t.conv(if base == "fptoui" { Op::FToU } else { Op::FToS }, x, Sort::Bv(w));
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "copysign" => {
                let (x, y) = (self.term(&av[0], ty), self.term(&av[1], ty));
                let r = if self.t.mode == Mode::Real {
                    let zero = self.t.fc(0, self.t.sort(x));
                    let below = self.t.fcmp(Op::FLt, y, zero);
                    let up = self.t.fun(Op::FAbs, x);
                    let down = self.t.fun(Op::FNeg, up);
                    self.t.ite(below, down, up)
                } else {
                    let w = self.m.types.bits(ty);
                    let (p, q) = (self.t.f_to_bits(x), self.t.f_to_bits(y));
                    let (low, top) = (self.t.extract(p, w - 2, 0), self.t.extract(q, w - 1, w - 1));
                    self.t.concat(top, low)
                };
                let r = self.term(&V::T(r), ty);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "is" if name.starts_with("is.fpclass") => {
                let x = self.term(&av[0], ty);
                let classes = self.conc(st, &av[1])? as u32;
                let r = self.fpclass(x, classes, ty);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "is" => {
                // llvm.is.constant
                self.ret(st, d, V::C(0))
            }
            _ => Err(Exc::Unsupported(format!("intrinsic llvm.{}", name))),
        }
    }
    /// Is the float in one of the classes (the bits of llvm.is.fpclass)?
    fn fpclass(&mut self, x: T, classes: u32, ty: TyId) -> T {
        let mut parts = vec![];
        if self.t.mode == Mode::Real {
            // neither NaN, infinite, subnormal nor a negative zero occurs
            let zero = self.t.fc(0, self.t.sort(x));
            parts.push((64, self.t.fcmp(Op::FEq, x, zero)));
            parts.push((256, self.t.fcmp(Op::FLt, zero, x)));
            parts.push((8, self.t.fcmp(Op::FLt, x, zero)));
        } else {
            let w = self.m.types.bits(ty);
            let e = if w == 32 { 8 } else { 11 };
            let m = w - 1 - e;
            let b = self.t.f_to_bits(x);
            let (sign, ex, man) = (self.t.extract(b, w - 1, w - 1), self.t.extract(b, w - 2, m), self.t.extract(b, m - 1, 0));
            let quiet = self.t.extract(b, m - 1, m - 1);
            let (z1, o1, ze, oe, zm) = (self.t.bv(0, 1), self.t.bv(1, 1), self.t.bv(0, e), self.t.bv(mask(e), e), self.t.bv(0, m));
            let (plus, minus, small, big, flat, loud) =
                (self.t.eq(sign, z1), self.t.eq(sign, o1), self.t.eq(ex, ze), self.t.eq(ex, oe), self.t.eq(man, zm), self.t.eq(quiet, z1));
            let (usual1, usual2, full) = (self.t.not(small), self.t.not(big), self.t.not(flat));
            let usual = self.t.and(usual1, usual2);
            let nan = self.t.and(big, full);
            let still = self.t.not(loud);
            parts.push((1, self.t.and(nan, loud)));
            parts.push((2, self.t.and(nan, still)));
            let inf = self.t.and(big, flat);
            let zero = self.t.and(small, flat);
            let sub = self.t.and(small, full);
            for (bit, c, s) in [(4, inf, minus), (8, usual, minus), (16, sub, minus), (32, zero, minus), (64, zero, plus), (128, sub, plus), (256, usual, plus), (512, inf, plus)] {
                parts.push((bit, self.t.and(c, s)));
            }
        }
        let mut r = Terms::FALSE;
        for (bit, c) in parts {
            if classes & bit != 0 {
                r = self.t.or(r, c);
            }
        }
        r
    }
    fn overflow(&mut self, base: &str, op: Op, x: T, y: T, r: T, w: u32) -> T {
        let signed = base.starts_with('s');
        match (signed, op) {
            (false, Op::Add) => self.t.cmp(Op::Ult, r, x),
            (false, Op::Sub) => self.t.cmp(Op::Ult, x, y),
            (false, _) => {
                let k = if self.t.cv(x).is_some() || self.t.cv(y).is_some() { w } else { w };
                let (a, b) = (self.t.zext(x, w + k), self.t.zext(y, w + k));
                let p = self.t.bin(Op::Mul, a, b);
                let m = self.t.bv(mask(w), w + k);
                self.t.cmp(Op::Ult, m, p)
            }
            (true, Op::Mul) => {
                let (a, b) = (self.t.sext(x, 2 * w), self.t.sext(y, 2 * w));
                let p = self.t.bin(Op::Mul, a, b);
                let back = self.t.sext(r, 2 * w);
                let e = self.t.eq(p, back);
                self.t.not(e)
            }
            (true, _) => {
                let (a, b) = (self.t.sext(x, w + 1), self.t.sext(y, w + 1));
                let p = self.t.bin(op, a, b);
                let back = self.t.sext(r, w + 1);
                let e = self.t.eq(p, back);
                self.t.not(e)
            }
        }
    }

    // ------------------------------------------------------------ harness interface
    fn sx(&mut self, st: &mut State, name: &str, args: &[(TyId, Opnd)], av: &[V], d: Option<u32>) -> Result<Flow, Exc> {
        let dn = self.draw_name(st);
        match name {
            "mode" => {
                let k = self.conc(st, &av[0])?;
                self.t.mode = if k == 1 { Mode::Real } else { Mode::Fp };
                self.ret(st, d, V::C(0))
            }
            "tier" => self.ret(st, d, V::C(self.cfg.tier as u128)),
            "symbolic" => self.ret(st, d, V::C(1)),
            "pick" => {
                let lo = self.conc(st, &av[0])? as u32;
                let hi = self.conc(st, &av[1])? as u32;
                if lo > hi {
                    return Err(Exc::Drop);
                }
                Ok(Flow::Picks((lo as u64..=hi as u64).collect(), d.unwrap_or(0)))
            }
            "u8" | "u32" | "u64" => {
                let w: u32 = name[1..].parse().unwrap();
                let lo = self.conc(st, &av[0])?;
                let hi = self.conc(st, &av[1])?;
                let t = self.t.var(&dn, Sort::Bv(w), VarKind::Bv { lo, hi });
                st.draws.push(Draw::Sym(t));
                // default value of the variable must agree with the cached model
                self.ret(st, d, V::T(t))
            }
            "fint" => {
                let lo = sext(self.conc(st, &av[0])?, 32) as i64;
                let hi = sext(self.conc(st, &av[1])?, 32) as i64;
                if self.t.mode != Mode::Real {
                    return Err(Exc::Unsupported("sx_fint needs the exact mode".into()));
                }
                let t = self.t.var(&dn, Sort::F32, VarKind::FInt { lo, hi });
                st.draws.push(Draw::Sym(t));
                self.ret(st, d, V::T(t))
            }
            "freal" => {
                let t = self.t.var(&dn, Sort::F32, VarKind::FReal);
                st.draws.push(Draw::Sym(t));
                self.ret(st, d, V::T(t))
            }
            "fbits" => {
                let b = self.t.var(&dn, Sort::Bv(32), VarKind::Bv { lo: 0, hi: mask(32) });
                let t = self.t.bits_to_f(b, Sort::F32);
                st.draws.push(Draw::Sym(b));
                self.ret(st, d, V::T(t))
            }
            "assume" => {
                self.flush(st);
                let c = self.term_bool(&av[0]);
                if c == Terms::FALSE {
                    return Err(Exc::Drop);
                }
                if c != Terms::TRUE {
                    st.pc.push(c);
                    self.keep_model(st, c);
                    if st.model.is_none() {
                        // find a model, so that later branches are cheap, and drop dead paths
                        let q = st.pc.clone();
                        match self.s.check(&self.t, &q, 10000, true, false) {
                            Res::Unsat => return Err(Exc::Drop),
                            Res::Sat(m) => {
                                let m = self.complete(&q, &m);
                                if self.evalb(&m, &q) {
                                    st.model = Some(Rc::new(m));
                                }
                            }
                            _ => {}
                        }
                    }
                }
                self.ret(st, d, V::C(0))
            }
            "check" => {
                let c = self.term_bool(&av[0]);
                let id = self.conc(st, &av[1])? as u64;
                st.pending.push((c, id));
                self.ret(st, d, V::C(0))
            }
            "cover" => {
                let c = self.term_bool(&av[0]);
                let id = self.conc(st, &av[1])? as u64;
                self.cover_all.insert(id);
                if c != Terms::FALSE {
                    st.covers.push((c, id));
                }
                self.ret(st, d, V::C(0))
            }
            "ite_f32" | "ite_u32" => {
                let c = self.term_bool(&av[0]);
                let (x, y) = (self.term(&av[1], args[1].0), self.term(&av[2], args[2].0));
                let r = self.t.ite(c, x, y);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "and" | "or" => {
                let (x, y) = (self.term_bool(&av[0]), self.term_bool(&av[1]));
                let r = if name == "and" { self.t.and(x, y) } else { self.t.or(x, y) };
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "close" | "same" => {
                let (x, y) = (self.term(&av[0], args[0].0), self.term(&av[1], args[1].0));
                let r = self.t.fcmp(if name == "same" { Op::FSame } else { Op::FClose }, x, y);
                let v = self.wrap(r);
                self.ret(st, d, v)
            }
            "obs_u64" => {
                st.obs.push(av[0].clone());
                self.ret(st, d, V::C(0))
            }
            "obs_f32" => {
                st.obs.push(av[0].clone());
                self.ret(st, d, V::C(0))
            }
            "shard" => {
                let (i, n) = self.cfg.shard;
                let mut h = 0x1234u64;
                for x in &st.draws {
                    if let Draw::Pick(v) = x {
                        h = (h ^ v).wrapping_mul(0x9e3779b97f4a7c15);
                        h ^= h >> 29;
                    }
                }
                if n > 1 && h % n != i {
                    return Err(Exc::Drop);
                }
                self.ret(st, d, V::C(0))
            }
            "fault" => {
                let n = self.conc(st, &av[0])? as u64;
                let k = self.conc(st, &av[1])? as u64;
                let fs = Rc::make_mut(&mut st.fs);
                fs.ops = 0;
                if k == 0 {
                    fs.faults.clear();
                } else {
                    fs.faults.push((n, k));
                }
                self.ret(st, d, V::C(0))
            }
            "hash_seed" => {
                let n = self.conc(st, &av[0])? as u64;
                Rc::make_mut(&mut st.fs).hash_seed = n;
                self.ret(st, d, V::C(0))
            }
            "fs_ops" => {
                let v = V::C(st.fs.ops as u128);
                self.ret(st, d, v)
            }
            "log" => {
                if self.cfg.verbose {
                    eprintln!("log: {:?} pc={} paths={}", av.iter().map(|v| self.show(v)).collect::<Vec<_>>(), st.pc.len(), self.paths);
                }
                self.ret(st, d, V::C(0))
            }
            _ => Err(Exc::Unsupported(format!("sx_{}", name))),
        }
    }
    fn show(&self, v: &V) -> String {
        match v {
            V::C(c) => format!("{}", c),
            V::T(t) => format!("t{}", t),
            V::A(a) => format!("[{}]", a.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(",")),
        }
    }
    fn term_bool(&mut self, v: &V) -> T {
        match v {
            V::C(c) => (*c & 1) as T,
            V::T(t) => {
                if self.t.sort(*t) == Sort::Bool {
                    *t
                } else {
                    self.t.trunc(*t, 1)
                }
            }
            _ => panic!(),
        }
    }

    // ------------------------------------------------------------ operating system model
    fn errno(&mut self, st: &mut State, e: u64) -> Result<(), Exc> {
        if st.errno == 0 {
            st.errno = self.alloc(st, 8, Kind::Heap);
        }
        let a = st.errno;
        self.store_raw(st, a, 4, &V::C(e as u128))
    }
    fn posix(&mut self, st: &mut State, name: &str, av: &[V], d: Option<u32>) -> Result<Flow, Exc> {
        const EIO: u64 = 5;
        const EINTR: u64 = 4;
        const ENOENT: u64 = 2;
        const ENOSPC: u64 = 28;
        const EACCES: u64 = 13;
        let m1_32 = V::C(0xffff_ffff);
        let m1_64 = V::C(0xffff_ffff_ffff_ffff);
        let mut fault = 0;
        let std_fd = name != "open64" && matches!(av[0], V::C(0..=2));
        if matches!(name, "open64" | "read" | "write" | "writev") && !std_fd {
            let fs = Rc::make_mut(&mut st.fs);
            let n = fs.ops;
            fs.ops += 1;
            if let Some(f) = fs.faults.iter().find(|f| f.0 == n) {
                fault = f.1;
            }
        }
        match name {
            "open64" => {
                let p = self.conc(st, &av[0])? as u64;
                let path = self.cstr(st, p)?;
                let flags = self.conc(st, &av[1])? as u64;
                if fault == 1 || fault == 5 {
                    self.errno(st, EACCES)?;
                    return self.ret(st, d, m1_32);
                }
                if fault == 2 {
                    self.errno(st, EINTR)?;
                    return self.ret(st, d, m1_32);
                }
                if path.contains('/') || path.is_empty() {
                    // the scratch directory has no subdirectories
                    self.errno(st, ENOENT)?;
                    return self.ret(st, d, m1_32);
                }
                let creat = flags & 0o100 != 0;
                let trunc = flags & 0o1000 != 0;
                let wr = flags & 3 != 0;
                let append = flags & 0o2000 != 0;
                if creat && flags & 0o200 != 0 && st.fs.files.contains_key(&path) {
                    self.errno(st, 17)?;
                    return self.ret(st, d, m1_32);
                }
                if !st.fs.files.contains_key(&path) {
                    if !creat {
                        self.errno(st, ENOENT)?;
                        return self.ret(st, d, m1_32);
                    }
                    Rc::make_mut(&mut st.fs).files.insert(path.clone(), Rc::new(FileData::default()));
                }
                let fs = Rc::make_mut(&mut st.fs);
                if trunc {
                    fs.files.insert(path.clone(), Rc::new(FileData::default()));
                }
                let pos = if append { fs.files[&path].bytes.len() as u64 } else { 0 };
                let mut fd = 3;
                while fs.fds.contains_key(&fd) {
                    fd += 1;
                }
                fs.fds.insert(fd, (path, pos, wr));
                self.ret(st, d, V::C(fd as u128))
            }
            "read" => {
                let fd = self.conc(st, &av[0])? as i64;
                let buf = self.conc(st, &av[1])? as u64;
                let mut n = self.conc(st, &av[2])? as u64;
                if fault == 1 || fault == 5 {
                    self.errno(st, EIO)?;
                    return self.ret(st, d, m1_64);
                }
                if fault == 2 {
                    self.errno(st, EINTR)?;
                    return self.ret(st, d, m1_64);
                }
                if fault == 3 {
                    n = n.min(1);
                }
                let Some((path, pos, _)) = st.fs.fds.get(&fd).cloned() else {
                    self.errno(st, 9)?;
                    return self.ret(st, d, m1_64);
                };
                let data = st.fs.files[&path].clone();
                let k = n.min((data.bytes.len() as u64).saturating_sub(pos));
                if k > 0 {
                    let (id, off) = self.locate(st, buf, k)?;
                    let o = self.obj_mut(st, id)?;
                    if o.sym.is_empty() && data.bytes[pos as usize..(pos + k) as usize].iter().any(|b| b.1 != NONE) {
                        o.sym = vec![(NONE, 0); o.data.len()];
                    }
                    for i in 0..k as usize {
                        let (b, t, x) = data.bytes[pos as usize + i];
                        o.data[off as usize + i] = b;
                        if !o.sym.is_empty() {
                            o.sym[off as usize + i] = (t, x);
                        }
                    }
                }
                Rc::make_mut(&mut st.fs).fds.get_mut(&fd).unwrap().1 = pos + k;
                self.ret(st, d, V::C(k as u128))
            }
            "write" => {
                let fd = self.conc(st, &av[0])? as i64;
                let buf = self.conc(st, &av[1])? as u64;
                let mut n = self.conc(st, &av[2])? as u64;
                if fd == 1 || fd == 2 {
                    return self.ret(st, d, V::C(n as u128));
                }
                if fault == 1 || fault == 5 {
                    self.errno(st, if fault == 1 { ENOSPC } else { EIO })?;
                    return self.ret(st, d, m1_64);
                }
                if fault == 2 {
                    self.errno(st, EINTR)?;
                    return self.ret(st, d, m1_64);
                }
                if fault == 4 {
                    return self.ret(st, d, V::C(0));
                }
                if fault == 3 {
                    n = n.min(1);
                }
                let Some((path, pos, true)) = st.fs.fds.get(&fd).cloned() else {
                    self.errno(st, 9)?;
                    return self.ret(st, d, m1_64);
                };
                let mut bytes = vec![];
                if n > 0 {
                    let (id, off) = self.locate(st, buf, n)?;
                    let o = self.obj(st, id).unwrap();
                    for i in off as usize..(off + n) as usize {
                        if o.is_sym(i) {
                            bytes.push((0, o.sym[i].0, o.sym[i].1));
                        } else {
                            bytes.push((o.data[i], NONE, 0));
                        }
                    }
                }
                let fs = Rc::make_mut(&mut st.fs);
                let f = Rc::make_mut(fs.files.get_mut(&path).unwrap());
                let pos_u = pos as usize;
                if f.bytes.len() < pos_u + bytes.len() {
                    f.bytes.resize(pos_u + bytes.len(), (0, NONE, 0));
                }
                f.bytes[pos_u..pos_u + bytes.len()].copy_from_slice(&bytes);
                fs.fds.get_mut(&fd).unwrap().1 = pos + n;
                self.ret(st, d, V::C(n as u128))
            }
            "close" => {
                let fd = self.conc(st, &av[0])? as i64;
                Rc::make_mut(&mut st.fs).fds.remove(&fd);
                self.ret(st, d, V::C(0))
            }
            "statx" => {
                self.errno(st, 38)?;
                self.ret(st, d, m1_32)
            }
            "fstat64" => {
                let fd = self.conc(st, &av[0])? as i64;
                let buf = self.conc(st, &av[1])? as u64;
                let size = match st.fs.fds.get(&fd) {
                    Some((p, _, _)) => st.fs.files.get(p).map(|f| f.bytes.len()).unwrap_or(0),
                    None => 0,
                };
                self.store_raw(st, buf + 24, 4, &V::C(0o100644))?;
                self.store_raw(st, buf + 48, 8, &V::C(size as u128))?;
                self.ret(st, d, V::C(0))
            }
            "lseek64" => {
                let fd = self.conc(st, &av[0])? as i64;
                let off = self.conc(st, &av[1])? as i64;
                let wh = self.conc(st, &av[2])?;
                let (len, pos) = match st.fs.fds.get(&fd) {
                    Some((p, pos, _)) => (st.fs.files.get(p).map(|f| f.bytes.len()).unwrap_or(0) as i64, *pos as i64),
                    None => (0, 0),
                };
                let np = match wh {
                    0 => off,
                    1 => pos + off,
                    _ => len + off,
                };
                if let Some(x) = Rc::make_mut(&mut st.fs).fds.get_mut(&fd) {
                    x.1 = np as u64;
                }
                self.ret(st, d, V::C(np as u64 as u128))
            }
            "getrandom" => {
                let buf = self.conc(st, &av[0])? as u64;
                let n = self.conc(st, &av[1])? as u64;
                for i in 0..n {
                    self.store_raw(st, buf + i, 1, &V::C((i as u128 * 37 + 11) & 0xff))?;
                }
                self.ret(st, d, V::C(n as u128))
            }
            "syscall" => {
                let n = self.conc(st, &av[0])?;
                if n == 318 {
                    let buf = self.conc(st, &av[1])? as u64;
                    let k = self.conc(st, &av[2])? as u64;
                    for i in 0..k {
                        self.store_raw(st, buf + i, 1, &V::C((i as u128 * 37 + 11) & 0xff))?;
                    }
                    return self.ret(st, d, V::C(k as u128));
                }
                if n == 332 {
                    // no statx: the standard library falls back to fstat
                    self.errno(st, 38)?;
                    return self.ret(st, d, m1_64);
                }
                Err(Exc::Unsupported(format!("syscall {}", n)))
            }
            "rename" => {
                let a = self.conc(st, &av[0])? as u64;
                let b = self.conc(st, &av[1])? as u64;
                let (a, b) = (self.cstr(st, a)?, self.cstr(st, b)?);
                if !st.fs.files.contains_key(&a) || b.is_empty() || b.contains('/') {
                    self.errno(st, ENOENT)?;
                    return self.ret(st, d, m1_32);
                }
                if a != b {
                    let fs = Rc::make_mut(&mut st.fs);
                    fs.detach(&b);
                    let f = fs.files.remove(&a).unwrap();
                    fs.files.insert(b.clone(), f);
                    for v in fs.fds.values_mut() {
                        if v.0 == a {
                            v.0 = b.clone();
                        }
                    }
                }
                self.ret(st, d, V::C(0))
            }
            "unlink" => {
                let a = self.conc(st, &av[0])? as u64;
                let a = self.cstr(st, a)?;
                if !st.fs.files.contains_key(&a) {
                    self.errno(st, ENOENT)?;
                    return self.ret(st, d, m1_32);
                }
                Rc::make_mut(&mut st.fs).detach(&a);
                self.ret(st, d, V::C(0))
            }
            "access" | "stat64" | "lstat64" => {
                let a = self.conc(st, &av[0])? as u64;
                let a = self.cstr(st, a)?;
                let Some(f) = st.fs.files.get(&a) else {
                    self.errno(st, ENOENT)?;
                    return self.ret(st, d, m1_32);
                };
                let size = f.bytes.len();
                if name != "access" {
                    let buf = self.conc(st, &av[1])? as u64;
                    self.store_raw(st, buf + 24, 4, &V::C(0o100644))?;
                    self.store_raw(st, buf + 48, 8, &V::C(size as u128))?;
                }
                self.ret(st, d, V::C(0))
            }
            "ftruncate64" => {
                let fd = self.conc(st, &av[0])? as i64;
                let n = self.conc(st, &av[1])? as usize;
                let Some((path, _, true)) = st.fs.fds.get(&fd).cloned() else {
                    self.errno(st, 9)?;
                    return self.ret(st, d, m1_32);
                };
                let f = Rc::make_mut(Rc::make_mut(&mut st.fs).files.get_mut(&path).unwrap());
                f.bytes.resize(n, (0, NONE, 0));
                self.ret(st, d, V::C(0))
            }
            "pread64" | "pwrite64" => {
                // the plain call at another position
                let fd = self.conc(st, &av[0])? as i64;
                let at = self.conc(st, &av[3])? as u64;
                let Some(old) = st.fs.fds.get(&fd).map(|f| f.1) else {
                    self.errno(st, 9)?;
                    return self.ret(st, d, m1_64);
                };
                Rc::make_mut(&mut st.fs).fds.get_mut(&fd).unwrap().1 = at;
                let r = self.posix(st, if name == "pread64" { "read" } else { "write" }, av, d);
                Rc::make_mut(&mut st.fs).fds.get_mut(&fd).unwrap().1 = old;
                r
            }
            "fdatasync" => self.ret(st, d, V::C(0)),
            "fsync" | "fcntl64" => self.ret(st, d, V::C(0)),
            _ => Err(Exc::Unsupported(format!("posix {}", name))),
        }
    }
    #[allow(dead_code)]
    fn unused(&mut self, v: &V) -> T {
        self.t64(v)
    }
}

pub enum Verdict {
    Unsat,
    Model(HashMap<u32, u128>, bool),
    Unknown(String),
}

/// Bits of some ordinary single-precision numbers.
fn small_float(r: usize) -> u128 {
    let v = [0.0f32, 1.0, -1.0, 2.0, -2.0, 1.0, 3.0, 0.5];
    v[r % v.len()].to_bits() as u128
}
fn dummy() -> State {
    State {
        frames: vec![],
        mem: FxMap::default(),
        pc: vec![],
        draws: vec![],
        pending: vec![],
        obs: vec![],
        covers: vec![],
        known: FxMap::default(),
        fs: Rc::new(Fs::default()),
        model: None,
        errno: 0,
        words: 0,
        keys: 0,
    }
}

fn veq(x: &V, y: &V) -> bool {
    match (x, y) {
        (V::C(a), V::C(b)) => a == b,
        (V::T(a), V::T(b)) => a == b,
        (V::A(a), V::A(b)) => Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| veq(p, q))),
        _ => false,
    }
}

fn insert(x: &V, idx: &[u32], y: V) -> V {
    let V::A(a) = x else { panic!("insertvalue into a scalar") };
    let mut v = (**a).clone();
    let i = idx[0] as usize;
    if idx.len() == 1 {
        v[i] = y;
    } else {
        v[i] = insert(&v[i], &idx[1..], y);
    }
    V::A(Rc::new(v))
}

/// A readable form of a mangled name, good enough for reports.
pub fn demangle(n: &str) -> String {
    let mut out: Vec<String> = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && k < 1000 {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k >= 2 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && !b[j].is_ascii_digit() {
                let id = String::from_utf8_lossy(&b[j..j + k]).into_owned();
                out.push(id);
                i = j + k;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    if out.is_empty() {
        n.to_string()
    } else {
        let l = out.len();
        out[l.saturating_sub(3)..].join("::")
    }
}

fn uses(i: &Inst, f: &mut dyn FnMut(&Opnd)) {
    match i {
        Inst::Bin { a, b, .. } | Inst::ICmp { a, b, .. } | Inst::FCmp { a, b, .. } | Inst::Shuffle { a, b, .. } => {
            f(a);
            f(b)
        }
        Inst::FNeg { a, .. } | Inst::Cast { a, .. } | Inst::Freeze { a, .. } | Inst::ExtractValue { a, .. } => f(a),
        Inst::Select { c, a, b, .. } => {
            f(c);
            f(a);
            f(b)
        }
        Inst::Alloca { count, .. } => {
            if let Some(c) = count {
                f(c)
            }
        }
        Inst::Load { p, .. } => f(p),
        Inst::Store { v, p, .. } => {
            f(v);
            f(p)
        }
        Inst::Gep { base, idx, .. } => {
            f(base);
            for x in idx {
                f(&x.1)
            }
        }
        Inst::InsertValue { a, v, .. } => {
            f(a);
            f(v)
        }
        Inst::ExtractElem { a, i, .. } => {
            f(a);
            f(i)
        }
        Inst::InsertElem { a, v, i, .. } => {
            f(a);
            f(v);
            f(i)
        }
        Inst::Call { callee, args, .. } => {
            if let Callee::Ind(o) = callee {
                f(o)
            }
            for x in args {
                f(&x.1)
            }
        }
        Inst::CmpXchg { p, cmp, new, .. } => {
            f(p);
            f(cmp);
            f(new)
        }
        Inst::AtomicRmw { p, v, .. } => {
            f(p);
            f(v)
        }
        Inst::CondBr { c, .. } => f(c),
        Inst::Switch { v, .. } => f(v),
        Inst::Ret { v, .. } => {
            if let Some(v) = v {
                f(v)
            }
        }
        Inst::Nop | Inst::Br { .. } | Inst::Unreachable => {}
    }
}

fn def(i: &Inst) -> Option<u32> {
    match i {
        Inst::Bin { d, .. }
        | Inst::FNeg { d, .. }
        | Inst::ICmp { d, .. }
        | Inst::FCmp { d, .. }
        | Inst::Cast { d, .. }
        | Inst::Select { d, .. }
        | Inst::Freeze { d, .. }
        | Inst::Alloca { d, .. }
        | Inst::Load { d, .. }
        | Inst::Gep { d, .. }
        | Inst::ExtractValue { d, .. }
        | Inst::InsertValue { d, .. }
        | Inst::ExtractElem { d, .. }
        | Inst::InsertElem { d, .. }
        | Inst::Shuffle { d, .. }
        | Inst::CmpXchg { d, .. }
        | Inst::AtomicRmw { d, .. } => Some(*d),
        Inst::Call { d, .. } => *d,
        _ => None,
    }
}

/// Registers live at the start of each block, after its phis have been assigned.
fn liveness(f: &Func) -> Vec<Vec<u32>> {
    let n = f.blocks.len();
    let words = (f.nregs + 63) / 64;
    let mut live = vec![vec![0u64; words]; n];
    let su: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut l = vec![0u64; words];
            for &s in &su[b] {
                let s = s as usize;
                for (x, y) in l.iter_mut().zip(live[s].iter()) {
                    *x |= *y;
                }
                // phi results of s are defined on the edge
                for p in &f.blocks[s].phis {
                    l[(p.d / 64) as usize] &= !(1 << (p.d % 64));
                }
                // a phi result is live at s's start only if used later; its inputs are live here
                for p in &f.blocks[s].phis {
                    for (from, o) in &p.inc {
                        if *from as usize == b {
                            if let Opnd::Reg(r) = o {
                                l[(*r / 64) as usize] |= 1 << (*r % 64);
                            }
                        }
                    }
                }
            }
            for i in f.blocks[b].insts.iter().rev() {
                if let Some(d) = def(i) {
                    l[(d / 64) as usize] &= !(1 << (d % 64));
                }
                uses(i, &mut |o| {
                    if let Opnd::Reg(r) = o {
                        l[(*r / 64) as usize] |= 1 << (*r % 64);
                    }
                });
            }
            if l != live[b] {
                live[b] = l;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    live.into_iter()
        .map(|l| {
            let mut v = vec![];
            for (w, x) in l.iter().enumerate() {
                for k in 0..64 {
                    if x >> k & 1 == 1 {
                        v.push((w * 64 + k) as u32);
                    }
                }
            }
            v
        })
        .collect()
}
