//! Interface to the symbolic executor.  In the native build the same functions are provided by
//! `bin/replay.rs`, which feeds recorded draws to the harness.
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::Tensor;

mod raw {
    extern "C" {
        pub fn sx_mode(k: u32);
        pub fn sx_tier() -> u32;
        pub fn sx_pick(lo: u32, hi: u32) -> u32;
        pub fn sx_u8(lo: u8, hi: u8) -> u8;
        pub fn sx_u32(lo: u32, hi: u32) -> u32;
        pub fn sx_u64(lo: u64, hi: u64) -> u64;
        pub fn sx_fint(lo: i32, hi: i32) -> f32;
        pub fn sx_freal() -> f32;
        pub fn sx_fbits() -> f32;
        pub fn sx_assume(c: bool);
        pub fn sx_check(c: bool, id: u32);
        pub fn sx_cover(c: bool, id: u32);
        pub fn sx_ite_f32(c: bool, a: f32, b: f32) -> f32;
        pub fn sx_ite_u32(c: bool, a: u32, b: u32) -> u32;
        pub fn sx_and(a: bool, b: bool) -> bool;
        pub fn sx_or(a: bool, b: bool) -> bool;
        pub fn sx_close(a: f32, b: f32) -> bool;
        pub fn sx_same(a: f32, b: f32) -> bool;
        pub fn sx_obs_u64(x: u64);
        pub fn sx_obs_f32(x: f32);
        pub fn sx_shard();
        pub fn sx_fault(n: u32, kind: u32);
        pub fn sx_hash_seed(n: u32);
        pub fn sx_fs_ops() -> u32;
    }
}
use raw::*;

/// Exact mode: floats are read as numbers (the engine shows that no rounding can occur).
pub fn exact() {
    unsafe { sx_mode(1) }
}
/// Bit-precise mode: floats are IEEE-754 singles.
pub fn precise() {
    unsafe { sx_mode(0) }
}
pub fn thorough() -> bool {
    unsafe { sx_tier() == 1 }
}
/// One of two bounds, by tier.
pub fn by_tier(q: u32, t: u32) -> u32 {
    if thorough() {
        t
    } else {
        q
    }
}
/// A value that is enumerated by forking (sizes, configurations).
pub fn pick(lo: u32, hi: u32) -> u32 {
    unsafe { sx_pick(lo, hi) }
}
pub fn pick_bool() -> bool {
    pick(0, 1) == 1
}
pub fn u8s(lo: u8, hi: u8) -> u8 {
    unsafe { sx_u8(lo, hi) }
}
pub fn u32s(lo: u32, hi: u32) -> u32 {
    unsafe { sx_u32(lo, hi) }
}
pub fn u64s(lo: u64, hi: u64) -> u64 {
    unsafe { sx_u64(lo, hi) }
}
pub fn fint(lo: i32, hi: i32) -> f32 {
    unsafe { sx_fint(lo, hi) }
}
pub fn freal() -> f32 {
    unsafe { sx_freal() }
}
pub fn fbits() -> f32 {
    unsafe { sx_fbits() }
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
pub fn check_raw(c: bool, id: u32) {
    unsafe { sx_check(c, id) }
}
pub fn cover(c: bool, id: u32) {
    unsafe { sx_cover(c, id) }
}
pub fn ite(c: bool, a: f32, b: f32) -> f32 {
    unsafe { sx_ite_f32(c, a, b) }
}
pub fn iteu(c: bool, a: u32, b: u32) -> u32 {
    unsafe { sx_ite_u32(c, a, b) }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { sx_and(a, b) }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { sx_or(a, b) }
}
pub fn not(a: bool) -> bool {
    a ^ true
}
pub fn imp(a: bool, b: bool) -> bool {
    or(not(a), b)
}
/// Equal as ideal numbers; natively within rounding error.
pub fn close(a: f32, b: f32) -> bool {
    unsafe { sx_close(a, b) }
}
/// The same float: identical value, zeros distinguished, all NaN alike.
pub fn same(a: f32, b: f32) -> bool {
    unsafe { sx_same(a, b) }
}
/// Identical bit patterns.
pub fn bits_eq(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}
pub fn obs(x: u64) {
    unsafe { sx_obs_u64(x) }
}
pub fn obs_f(x: f32) {
    unsafe { sx_obs_f32(x) }
}
/// Everything picked so far decides which shard this path belongs to.
pub fn shard() {
    unsafe { sx_shard() }
}
pub const F_NONE: u32 = 0;
pub const F_ERR: u32 = 1;
pub const F_EINTR: u32 = 2;
pub const F_SHORT: u32 = 3;
pub const F_ZERO: u32 = 4;
pub fn fault(n: u32, kind: u32) {
    unsafe { sx_fault(n, kind) }
}
pub fn hash_seed(n: u32) {
    unsafe { sx_hash_seed(n) }
}
pub fn fs_ops() -> u32 {
    unsafe { sx_fs_ops() }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $id:expr, $msg:expr) => {{
        let c: bool = $c;
        #[cfg(feature = "native")]
        if !c {
            println!("FAILED check {}: {} ({}:{})", $id, $msg, file!(), line!());
        }
        $crate::sx::check_raw(c, $id);
    }};
}
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( $(#[$m])* #[no_mangle] pub fn $name() $body )*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}

// ------------------------------------------------------------------ small helpers
pub fn ix(i: u32, j: u32, k: u32) -> TensorIndex {
    TensorIndex { i, j, k }
}
pub fn sh(i: u32, j: u32, k: u32) -> TensorShape {
    TensorShape { di: i, dj: j, dk: k }
}
pub fn shape_eq(a: &TensorShape, b: &TensorShape) -> bool {
    a.di == b.di && a.dj == b.dj && a.dk == b.dk
}
/// Shapes that differ from `s`: permutations and foldings with the same number of elements, and
/// larger ones.
pub fn misfits(s: TensorShape) -> Vec<TensorShape> {
    let (a, b, c) = (s.di, s.dj, s.dk);
    let n = a * b * c;
    let mut v: Vec<TensorShape> = vec![];
    for t in [
        sh(b, a, c), sh(a, c, b), sh(c, b, a), sh(b, c, a), sh(c, a, b), sh(n, 1, 1), sh(1, n, 1), sh(1, 1, n),
        sh(a + 1, b, c), sh(a, b + 1, c), sh(a, b, c + 1), sh(2 * a, b, c), sh(1, 1, n + 1),
    ] {
        if !shape_eq(&t, &s) && !v.iter().any(|u| shape_eq(u, &t)) {
            v.push(t);
        }
    }
    v
}
pub fn each(s: TensorShape) -> Vec<(u32, u32, u32)> {
    let mut v = Vec::new();
    for k in 0..s.dk {
        for j in 0..s.dj {
            for i in 0..s.di {
                v.push((i, j, k));
            }
        }
    }
    v
}
/// A tensor whose elements come from `f`, with its own copy of the values.
pub fn make(s: TensorShape, f: &mut dyn FnMut() -> f32) -> Tensor {
    let mut t = Tensor::new(s);
    for (i, j, k) in each(s) {
        t.set_item(&ix(i, j, k), f());
    }
    t
}
pub fn ints(s: TensorShape, m: i32) -> Tensor {
    make(s, &mut || fint(-m, m))
}
/// Units of the weights, inputs and gradients of the exact harnesses: whole numbers, or their
/// multiples of a tiny, a broken or a large unit (sums and products stay exact).
static mut UNITS: [f32; 3] = [1.0; 3];
pub fn scales(n: u32) -> u32 {
    let k = pick(0, n);
    let e: [i32; 3] = [[0, 0, 0], [-3, -2, -2], [-40, -42, -38], [24, 40, 36]][k as usize];
    for i in 0..3 {
        unsafe { UNITS[i] = f32::from_bits(((127 + e[i]) as u32) << 23) }
    }
    k
}
fn unit(i: usize) -> f32 {
    unsafe { UNITS[i] }
}
fn times(x: f32, u: f32) -> f32 {
    if u == 1.0 {
        x
    } else {
        x * u
    }
}
/// A weight, a bias, inputs and gradients in their units.
pub fn in_w(x: f32) -> f32 {
    times(x, unit(0))
}
pub fn in_wx(x: f32) -> f32 {
    times(times(x, unit(0)), unit(1))
}
pub fn in_x(x: f32) -> f32 {
    times(x, unit(1))
}
pub fn xs(s: TensorShape, m: i32) -> Tensor {
    make(s, &mut || in_x(fint(-m, m)))
}
pub fn gs(s: TensorShape, m: i32) -> Tensor {
    make(s, &mut || times(fint(-m, m), unit(2)))
}
pub fn anybits(s: TensorShape) -> Tensor {
    make(s, &mut fbits)
}
pub fn at(t: &Tensor, i: u32, j: u32, k: u32) -> f32 {
    t.get_item(&ix(i, j, k))
}
/// All elements and the shape are identical (as numbers in exact mode, bit for bit otherwise).
pub fn untouched(a: &Tensor, b: &Tensor) -> bool {
    if !shape_eq(&a.get_shape(), &b.get_shape()) {
        return false;
    }
    let mut ok = true;
    for (i, j, k) in each(a.get_shape()) {
        ok = and(ok, same(at(a, i, j, k), at(b, i, j, k)));
    }
    ok
}
pub fn untouched_bits(a: &Tensor, b: &Tensor) -> bool {
    if !shape_eq(&a.get_shape(), &b.get_shape()) {
        return false;
    }
    let mut ok = true;
    for (i, j, k) in each(a.get_shape()) {
        ok = and(ok, bits_eq(at(a, i, j, k), at(b, i, j, k)));
    }
    ok
}
/// The sum of the terms, last one first: a different order from the one the code is likely to
/// use, so that equality of the two sums is left to the solver.
pub fn total(v: &[f32]) -> f32 {
    let mut s = 0.0;
    for x in v.iter().rev() {
        s += *x;
    }
    s
}
pub fn relu(x: f32) -> f32 {
    ite(x > 0.0, x, 0.0)
}
