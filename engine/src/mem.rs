//! Byte memory with symbolic cells.  The object id is the upper half of an address.
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    T(T),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Stack,
    Heap,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// empty when the whole object is concrete
    pub sym: Vec<(T, u8)>,
    pub kind: Kind,
    pub constant: bool,
}

impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj {
        Obj { data: vec![0; size as usize], sym: vec![], kind, constant: false }
    }
    pub fn is_sym(&self, o: usize) -> bool {
        !self.sym.is_empty() && self.sym[o].0 != NONE
    }
    pub fn read(&self, t: &mut Terms, off: u64, n: u64) -> V {
        let o = off as usize;
        let n = n as usize;
        if self.sym.is_empty() || self.sym[o..o + n].iter().all(|c| c.0 == NONE) {
            let mut v = 0u128;
            for k in (0..n).rev() {
                v = (v << 8) | self.data[o + k] as u128;
            }
            return V::C(v);
        }
        let (t0, k0) = self.sym[o];
        if t0 != NONE && k0 == 0 && t.width(t0) as usize == n * 8 && (1..n).all(|k| self.sym[o + k] == (t0, k as u8)) {
            return V::T(t0);
        }
        let mut acc: Option<T> = None;
        for k in (0..n).rev() {
            let b = self.byte(t, o + k);
            acc = Some(match acc {
                None => b,
                Some(a) => t.concat(a, b),
            });
        }
        V::T(acc.unwrap())
    }
    fn byte(&self, t: &mut Terms, o: usize) -> T {
        if self.is_sym(o) {
            let (x, k) = self.sym[o];
            let b = match t.sort(x) {
                Sort::F32 | Sort::F64 => t.f_to_bits(x),
                Sort::Bool => t.zext(x, 8),
                _ => x,
            };
            let k = k as u32 * 8;
            t.extract(b, k + 7, k)
        } else {
            t.bv(self.data[o] as u128, 8)
        }
    }
    pub fn write_c(&mut self, off: u64, n: u64, v: u128) {
        let o = off as usize;
        for k in 0..n as usize {
            self.data[o + k] = (v >> (8 * k).min(127)) as u8;
            if k >= 16 {
                self.data[o + k] = 0;
            }
        }
        if !self.sym.is_empty() {
            for k in 0..n as usize {
                self.sym[o + k] = (NONE, 0);
            }
        }
    }
    pub fn write_t(&mut self, off: u64, n: u64, t: T) {
        let o = off as usize;
        if self.sym.is_empty() {
            self.sym = vec![(NONE, 0); self.data.len()];
        }
        for k in 0..n as usize {
            self.data[o + k] = 0;
            self.sym[o + k] = (t, k as u8);
        }
    }
    pub fn copy_from(&mut self, off: u64, src: &Obj, soff: u64, n: u64) {
        let (o, s, n) = (off as usize, soff as usize, n as usize);
        self.data[o..o + n].copy_from_slice(&src.data[s..s + n]);
        if !src.sym.is_empty() {
            if self.sym.is_empty() {
                self.sym = vec![(NONE, 0); self.data.len()];
            }
            self.sym[o..o + n].copy_from_slice(&src.sym[s..s + n]);
        } else if !self.sym.is_empty() {
            for c in &mut self.sym[o..o + n] {
                *c = (NONE, 0);
            }
        }
    }
    pub fn move_within(&mut self, off: u64, soff: u64, n: u64) {
        let (o, s, n) = (off as usize, soff as usize, n as usize);
        self.data.copy_within(s..s + n, o);
        if !self.sym.is_empty() {
            self.sym.copy_within(s..s + n, o);
        }
    }
}
