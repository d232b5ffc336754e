//! The same properties as in the other files on a list of larger sizes: long rows, columns and
//! depths, odd and even counts, and sizes just above powers of two, which loops that work in
//! blocks, special cases for small sizes and shortcuts for "large" data would treat differently.
use crate::lay::*;
use crate::sx::*;
use rusty_network::layer::Layer;
use rusty_network::tensor::helper::*;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

const LONG: [(u32, u32, u32); 16] = [
    (4, 1, 1), (5, 1, 1), (7, 1, 1), (8, 1, 1), (9, 1, 1), (17, 1, 1), (33, 1, 1), (1, 9, 1),
    (1, 1, 9), (3, 5, 1), (5, 3, 2), (4, 4, 1), (3, 3, 3), (2, 3, 4), (6, 1, 3), (1, 5, 4),
];
/// Sizes beyond the blocks and buffers that an implementation may treat differently.
const LARGE: [(u32, u32, u32); 11] = [(65, 1, 1), (129, 1, 1), (1, 70, 1), (1, 1, 67), (257, 1, 1), (16, 17, 1), (9, 10, 11), (33, 36, 1), (2, 33, 34), (67, 66, 1), (4099, 1, 1)];
static mut LARGE_ONES: bool = false;
fn large() -> bool {
    unsafe { LARGE_ONES }
}
fn large_ones() {
    unsafe { LARGE_ONES = true }
}
fn one<T: Copy>(few: &[T], many: &[T]) -> T {
    let l = if large() { many } else { few };
    l[pick(0, l.len() as u32 - 1) as usize]
}
fn units(n: u32) -> u32 {
    if large() { 0 } else { scales(n) }
}
fn long() -> TensorShape {
    let (a, b, c) = one(&LONG, &LARGE);
    sh(a, b, c)
}
fn some_long(n: u32) -> TensorShape {
    let (a, b, c) = LONG[pick(0, n) as usize];
    sh(a, b, c)
}
/// rows, shared dimension, columns, depth
const PRODUCTS: [(u32, u32, u32, u32); 12] = [
    (1, 5, 1, 1), (1, 9, 1, 1), (1, 17, 1, 1), (2, 4, 3, 1), (5, 2, 4, 1), (4, 1, 5, 2), (9, 1, 2, 1),
    (2, 1, 9, 1), (1, 1, 1, 5), (2, 2, 2, 4), (4, 4, 4, 1), (17, 2, 1, 1),
];
const LARGE_PRODUCTS: [(u32, u32, u32, u32); 15] = [
    (1, 33, 1, 1), (1, 65, 1, 1), (1, 130, 1, 1), (70, 1, 1, 1), (1, 1, 66, 1), (65, 2, 1, 1), (2, 2, 2, 33), (12, 12, 12, 1),
    (33, 2, 36, 1), (36, 2, 33, 1), (3, 33, 34, 1), (34, 35, 3, 1), (67, 1, 66, 1), (1, 300, 1, 1), (1, 17, 17, 17),
];
/// windows, positions, depth, channels, stride
const WINDOWS: [((u32, u32), (u32, u32), u32, u32, u32); 12] = [
    ((3, 3), (2, 2), 1, 2, 1), ((4, 1), (3, 1), 1, 1, 2), ((1, 4), (1, 4), 1, 1, 1), ((3, 2), (2, 3), 1, 3, 2),
    ((2, 3), (1, 4), 3, 1, 2), ((5, 1), (2, 1), 1, 2, 4), ((1, 1), (4, 3), 2, 1, 1), ((1, 1), (3, 2), 3, 3, 2),
    ((2, 2), (3, 3), 1, 1, 2), ((3, 1), (5, 1), 1, 1, 1), ((1, 2), (2, 5), 1, 1, 3), ((2, 1), (2, 2), 4, 4, 1),
];
const LARGE_WINDOWS: [((u32, u32), (u32, u32), u32, u32, u32); 11] = [
    ((3, 3), (26, 26), 1, 1, 1), ((5, 5), (8, 8), 1, 2, 2), ((2, 1), (65, 1), 1, 1, 1), ((1, 2), (1, 34), 1, 1, 2), ((2, 2), (2, 2), 17, 3, 1),
    ((1, 1), (2, 2), 2, 18, 1), ((6, 5), (2, 1), 1, 1, 1), ((1, 17), (1, 2), 1, 1, 3), ((9, 2), (1, 2), 1, 1, 1), ((2, 2), (3, 3), 3, 4, 7), ((2, 2), (12, 9), 3, 2, 2),
];
/// inputs, outputs, depth
const DENSE: [(u32, u32, u32); 10] = [
    (5, 1, 1), (9, 1, 1), (1, 5, 1), (1, 9, 1), (4, 3, 1), (3, 4, 1), (17, 1, 1), (1, 17, 1), (1, 1, 4), (2, 3, 3),
];
const LARGE_DENSE: [(u32, u32, u32); 9] = [(65, 2, 1), (2, 70, 1), (33, 34, 1), (130, 1, 1), (1, 257, 1), (2, 2, 17), (36, 33, 1), (300, 3, 1), (3, 300, 1)];
pub fn conv_config(f: &mut dyn FnMut() -> f32) -> Spec {
    let some = units(3) > 0;
    let (w, p, d, c, s) = one(if some { &WINDOWS[..3] } else { &WINDOWS }, &LARGE_WINDOWS);
    conv_spec(w, p, d, c, s, f)
}
pub fn dense_config(f: &mut dyn FnMut() -> f32) -> Spec {
    let some = units(3) > 0;
    let (n, m, d) = one(if some { &DENSE[..3] } else { &DENSE }, &LARGE_DENSE);
    fc_spec(n, m, d, f)
}
fn parts(b: &Spec) -> (Vec<Tensor>, Vec<Tensor>, TensorShape, u32) {
    match b {
        Spec::Conv(k, c, s, st) => (k.clone(), c.clone(), *s, *st),
        _ => (vec![], vec![], sh(1, 1, 1), 1),
    }
}

harnesses! {
fn t01_long() {
    precise();
    let s = long();
    shard();
    let mut t = Tensor::new(s);
    let idx = each(s);
    let mut model = vec![];
    for &(i, j, k) in &idx {
        let v = fbits();
        t.set_item(&ix(i, j, k), v);
        model.push(v);
    }
    // just outside in every direction
    for (i, j, k) in [(s.di, 0, 0), (0, s.dj, 0), (0, 0, s.dk), (s.di, s.dj - 1, s.dk - 1), (s.di - 1, s.dj, s.dk - 1), (s.di - 1, s.dj - 1, s.dk)] {
        t.set_item(&ix(i, j, k), fbits());
        check!(at(&t, i, j, k) == 0.0, 1, "reading outside is not zero");
    }
    for (n, &(i, j, k)) in idx.iter().enumerate() {
        check!(bits_eq(at(&t, i, j, k), model[n]), 2, "an element lost its value");
    }
    check!(t.total_items() as usize == idx.len(), 3, "number of items");
}
fn t03_long() {
    precise();
    let s = long();
    let op = pick(0, 5);
    shard();
    let (a, b, c) = (anybits(s), anybits(s), fbits());
    let mut o = anybits(s);
    let (a0, b0) = (a.clone(), b.clone());
    let mut sa = a.clone();
    match op {
        0 => Tensor::add(&a, &b, &mut o),
        1 => Tensor::multiply_elementwise(&a, &b, &mut o),
        2 => Tensor::scale(&a, c, &mut o),
        3 => Tensor::add_to_self(&mut sa, &b),
        4 => Tensor::multiply_elementwise_self(&mut sa, &b),
        _ => Tensor::scale_self(&mut sa, c),
    }
    let r = if op < 3 { &o } else { &sa };
    check!(shape_eq(&r.get_shape(), &s), 1, "shape of the result");
    for (i, j, k) in each(s) {
        let (x, y) = (at(&a0, i, j, k), at(&b0, i, j, k));
        let want = match op {
            0 | 3 => x + y,
            1 | 4 => x * y,
            _ => x * c,
        };
        check!(same(at(r, i, j, k), want), 2, "element result");
    }
    check!(and(untouched_bits(&a, &a0), untouched_bits(&b, &b0)), 3, "an operand changed");
}
fn t04_long() {
    exact();
    let some = units(3) > 0;
    let (r, n, c, d) = one(if some { &PRODUCTS[..1] } else { &PRODUCTS }, &LARGE_PRODUCTS);
    let form = pick(0, 3);
    shard();
    let (s1, s2) = match form {
        1 => (sh(n, r, d), sh(n, c, d)),
        2 => (sh(r, n, d), sh(c, n, d)),
        _ => (sh(r, n, d), sh(n, c, d)),
    };
    let (a, b) = (make(s1, &mut || in_w(fint(-31, 31))), xs(s2, 31));
    let bias = make(sh(r, c, d), &mut || in_wx(fint(-31, 31)));
    let mut o = ints(sh(r, c, d), 31);
    match form {
        0 => Tensor::matrix_multiply(&a, &b, &mut o),
        1 => check!(Tensor::matrix_multiply_transpose_first(&a, &b, &mut o).is_ok(), 1, "a compatible product was refused"),
        2 => check!(Tensor::matrix_multiply_transpose_second(&a, &b, &mut o).is_ok(), 1, "a compatible product was refused"),
        _ => Tensor::matrix_multiply_add_relu(&b, &a, &bias, &mut o),
    }
    for (i, j, k) in each(sh(r, c, d)) {
        let mut terms = vec![];
        for l in 0..n {
            let x = if form == 1 { at(&a, l, i, k) } else { at(&a, i, l, k) };
            let y = if form == 2 { at(&b, j, l, k) } else { at(&b, l, j, k) };
            terms.push(x * y);
        }
        if form == 3 {
            terms.push(at(&bias, i, j, k));
        }
        let s = total(&terms);
        check!(at(&o, i, j, k) == if form == 3 { relu(s) } else { s }, 2, "product element");
    }
}
fn t05_long() {
    precise();
    let s = long();
    shard();
    let a = anybits(s);
    let mut o = anybits(sh(s.dj, s.di, s.dk));
    check!(Tensor::transpose_ij(&a, &mut o).is_ok(), 1, "a fitting destination was refused");
    for (i, j, k) in each(s) {
        check!(bits_eq(at(&o, j, i, k), at(&a, i, j, k)), 2, "element at the transposed place");
    }
}
fn t06_long() {
    precise();
    let s = long();
    shard();
    let (mut x, mut k) = (anybits(s), anybits(s));
    let x0 = x.clone();
    check!(Tensor::relu_self_and_store_mask(&mut x, &mut k).is_ok(), 1, "matching shapes were refused");
    for (i, j, l) in each(s) {
        let v = at(&x0, i, j, l);
        let pos = v > 0.0;
        let got = at(&x, i, j, l);
        check!(or(and(pos, bits_eq(got, v)), and(not(pos), got == 0.0)), 2, "rectified element");
        check!(bits_eq(at(&k, i, j, l), ite(pos, 1.0, 0.0)), 3, "mask element");
    }
}
fn t07_long() {
    exact();
    let b = conv_config(&mut || fint(-31, 31));
    let relu_form = pick_bool();
    let (kernels, biases, ins, st) = parts(&b);
    let ch = pick(0, kernels.len() as u32 - 1);
    shard();
    let image = xs(ins, 31);
    let mut out = ints(b.outs(), 31);
    let o0 = out.clone();
    let (k, c) = (&kernels[ch as usize], &biases[ch as usize]);
    let r = if relu_form { convolution_bias_relu(&image, k, c, st, &mut out, ch) } else { convolution_bias(&image, k, c, st, &mut out, ch) };
    check!(r.is_ok(), 1, "a fitting convolution was refused");
    for (i, j, q) in each(b.outs()) {
        if q != ch {
            check!(same(at(&out, i, j, q), at(&o0, i, j, q)), 2, "another channel was written");
        } else {
            let s = b.pre(&image, i, j, q);
            check!(at(&out, i, j, q) == if relu_form { relu(s) } else { s }, 3, "convolution value");
        }
    }
}
fn t08_long() {
    exact();
    let b = conv_config(&mut || fint(-31, 31));
    let (kernels, _, ins, st) = parts(&b);
    shard();
    let grad = gs(b.outs(), 31);
    let mut out = ints(ins, 31);
    check!(convolution_backprop_outgoing_gradient(&grad, &kernels, st, &mut out).is_ok(), 1, "a fitting configuration was refused");
    let ks = kernels[0].get_shape();
    for (a, e, c) in each(ins) {
        let mut terms = vec![];
        for (i, j, k) in each(b.outs()) {
            if i * st <= a && a < i * st + ks.di && j * st <= e && e < j * st + ks.dj {
                terms.push(at(&grad, i, j, k) * at(&kernels[k as usize], a - i * st, e - j * st, c));
            }
        }
        check!(at(&out, a, e, c) == total(&terms), 2, "gradient handed to the image");
    }
}
fn t09_long() {
    exact();
    let b = conv_config(&mut || fint(-31, 31));
    let (kernels, _, ins, st) = parts(&b);
    let ch = pick(0, kernels.len() as u32 - 1);
    shard();
    let grad = gs(b.outs(), 31);
    let image = xs(ins, 31);
    let ks = kernels[0].get_shape();
    let mut out = ints(ks, 31);
    check!(convolution_backprop_kernel(&grad, &image, st, ch, &mut out).is_ok(), 1, "a fitting configuration was refused");
    let so = b.outs();
    for (a, e, c) in each(ks) {
        let mut terms = vec![];
        for (i, j, _) in each(sh(so.di, so.dj, 1)) {
            terms.push(at(&grad, i, j, ch) * at(&image, i * st + a, j * st + e, c));
        }
        check!(at(&out, a, e, c) == total(&terms), 2, "gradient of a kernel element");
    }
}
fn t10_long() {
    exact();
    let (w, p, d, _, st) = one(&WINDOWS, &LARGE_WINDOWS);
    shard();
    let Spec::Pool(ins, mask, _) = pool_spec(w, p, d, st) else { return };
    let so = sh(p.0, p.1, d);
    let image = make(ins, &mut freal);
    let (mut o1, mut o2) = (make(so, &mut freal), make(so, &mut freal));
    let mut origin: Vec<u32> = (0..so.di * so.dj * so.dk).map(|_| u32s(0, u32::MAX)).collect();
    Tensor::max_pool(&image, &mask, st, &mut o1);
    check!(Tensor::max_pool_track_origin(&image, &mask, st, &mut o2, &mut origin).is_ok(), 1, "a fitting configuration was refused");
    for (i, j, k) in each(so) {
        let (a, b) = (at(&o1, i, j, k), at(&o2, i, j, k));
        check!(a == b, 2, "both forms agree");
        let org = origin[o2.get_data_index(&ix(i, j, k)) as usize];
        let (mut found, mut largest, mut good) = (false, true, false);
        for (x, y, _) in each(sh(w.0, w.1, 1)) {
            let v = at(&image, i * st + x, j * st + y, k);
            found = or(found, v == a);
            largest = and(largest, v <= a);
            good = or(good, and(org == image.get_data_index(&ix(i * st + x, j * st + y, k)), v == a));
        }
        check!(and(found, largest), 3, "window maximum");
        check!(good, 4, "origin of the maximum");
    }
}
/// Softmax over more than one dimension: the same value at every element, and at one other.
fn t11_long() {
    exact();
    let s = match pick(0, 7) { 0 => sh(2, 2, 1), 1 => sh(2, 1, 2), 2 => sh(1, 2, 2), 3 => sh(5, 1, 1), 4 => sh(3, 2, 2), 5 => sh(1, 9, 1), 6 => sh(17, 1, 1), _ => sh(2, 2, 5) };
    let n = s.di * s.dj * s.dk;
    let odd = [0, n / 2, n - 1][pick(0, 2) as usize];
    shard();
    let (v, w) = (fint(-3, 3), fint(-3, 3));
    let mut q = 0;
    let x = make(s, &mut || {
        q += 1;
        if q - 1 == odd { w } else { v }
    });
    let mut o = ints(s, 6);
    Tensor::softmax(&x, &mut o);
    let mut out = vec![];
    for (i, j, k) in each(s) {
        out.push(at(&o, i, j, k));
    }
    check!(close(total(&out), 1.0), 1, "the elements sum to one");
    let other = if odd == 0 { 1 } else { 0 };
    for q in 0..n as usize {
        let partner = if q == odd as usize { other } else { odd } as usize;
        let (p, r) = if q == odd as usize { (w, v) } else { (v, w) };
        check!(out[q] > 0.0, 2, "every element of moderate inputs is positive");
        check!(close(out[q] * r.exp(), out[partner] * p.exp()), 3, "proportional to the exponentials");
    }
}
/// Long lists with repeated positions.
fn t12_long() {
    exact();
    let few = |n: usize| {
        let (a, b, c) = one(&LONG, &LARGE[..n]);
        sh(a, b, c)
    };
    let s = if units(3) > 0 { sh(5, 1, 1) } else { few(3) };
    let (n, t) = (s.di * s.dj * s.dk, few(4));
    let m = t.di * t.dj * t.dk;
    let (step, off) = ([1u32, 2, 5, 0][pick(0, 3) as usize], [0u32, 3][pick(0, 1) as usize]);
    let len = [n, n - 1, n / 2][pick(0, 2) as usize];
    shard();
    let (a, mut b) = (xs(s, 99), xs(t, 99));
    let b0 = b.clone();
    let list: Vec<u32> = (0..len).map(|q| (q * step + off) % m).collect();
    check!(Tensor::add_from_index_list(&a, &mut b, &list).is_ok(), 1, "a fitting list was refused");
    let src = each(s);
    for (i, j, k) in each(t) {
        let p = b0.get_data_index(&ix(i, j, k));
        let mut terms = vec![at(&b0, i, j, k)];
        for (q, x) in list.iter().enumerate() {
            if *x == p {
                let (e, f, g) = src[q];
                terms.push(at(&a, e, f, g));
            }
        }
        check!(at(&b, i, j, k) == total(&terms), 2, "sum at a destination position");
    }
}
fn t13_long() {
    exact();
    let s = if units(3) > 0 { some_long(5) } else { long() };
    shard();
    let a = xs(s, 3);
    let v = a.get_norm();
    let mut sq = vec![];
    for (i, j, k) in each(s) {
        sq.push(at(&a, i, j, k) * at(&a, i, j, k));
    }
    check!(close(v * v, total(&sq)), 1, "the square of the norm is the sum of the squares");
    check!(v >= 0.0, 2, "the norm is negative");
}
fn t14_long() {
    precise();
    let s = long();
    shard();
    let (a, b) = (anybits(s), anybits(s));
    let mut want = true;
    for (i, j, k) in each(s) {
        want = and(want, at(&a, i, j, k) == at(&b, i, j, k));
    }
    check!((a == b) == want, 1, "equality");
    check!((a != b) == not(want), 2, "inequality");
    let mut c = anybits(s);
    let list: Vec<f32> = each(s).iter().map(|_| fbits()).collect();
    let l0 = list.clone();
    check!(c.fill_with_vec(list).is_ok(), 3, "a list of the right length was refused");
    for (q, (i, j, k)) in each(s).into_iter().enumerate() {
        check!(bits_eq(at(&c, i, j, k), l0[q]), 4, "an element is not the listed one");
    }
    let v = fbits();
    c.fill_with_value(v);
    for (i, j, k) in each(s) {
        check!(bits_eq(at(&c, i, j, k), v), 5, "an element was not filled");
    }
}
fn t15_long() {
    precise();
    let s = if large() { [sh(257, 1, 1), sh(9, 10, 11), sh(2050, 1, 1), sh(4, 1, 4099)][pick(0, 3) as usize] } else { long() };
    shard();
    let a = anybits(s);
    let name = String::from("tensor.bin");
    check!(a.save_to_file(&name).is_ok(), 1, "saving failed");
    match Tensor::from_file(&name) {
        Ok(b) => check!(untouched_bits(&b, &a), 2, "the loaded tensor differs"),
        Err(_) => check!(false, 3, "loading failed"),
    }
}
fn t16_long() {
    precise();
    let (a, b, c) = one(&[LONG[1], LONG[2], LONG[3], LONG[4], LONG[9], LONG[12]], &[(65, 1, 1), (3, 9, 5)]);
    let s = sh(a, b, c);
    let (lo, hi) = [(0.0, 1.0), (-0.5, 0.5)][pick(0, 1) as usize];
    shard();
    let mut a = make(s, &mut || f32::NAN);
    a.fill_with_uniform(lo, hi);
    for (i, j, k) in each(s) {
        let v = at(&a, i, j, k);
        check!(and(v >= lo, v <= hi), 1, "an element is outside the range or was not overwritten");
    }
}
fn t01_large() {
    large_ones();
    t01_long();
}
fn t03_large() {
    large_ones();
    t03_long();
}
fn t04_large() {
    large_ones();
    t04_long();
}
fn t05_large() {
    large_ones();
    t05_long();
}
fn t06_large() {
    large_ones();
    t06_long();
}
fn t07_large() {
    large_ones();
    t07_long();
}
fn t08_large() {
    large_ones();
    t08_long();
}
fn t09_large() {
    large_ones();
    t09_long();
}
fn t10_large() {
    large_ones();
    t10_long();
}
fn t12_large() {
    large_ones();
    t12_long();
}
fn t13_large() {
    large_ones();
    t13_long();
}
fn t14_large() {
    large_ones();
    t14_long();
}
fn t15_large() {
    large_ones();
    t15_long();
}
fn t16_large() {
    large_ones();
    t16_long();
}
fn l02_large() {
    large_ones();
    l02_long();
}
fn l03_large() {
    large_ones();
    l03_long();
}
fn l04_large() {
    large_ones();
    l04_long();
}
fn l05_large() {
    large_ones();
    l05_long();
}
fn l06_large() {
    large_ones();
    l06_long();
}
fn l07_large() {
    large_ones();
    l07_long();
}
// ---------------------------------------------------------------- layers
/// Both modes compute the rectified affine map.
fn l03_long() {
    exact();
    let b = dense_config(&mut || fint(-9, 9));
    let trained = pick_bool();
    shard();
    values(&b, trained);
}
fn l04_long() {
    exact();
    let b = conv_config(&mut || fint(-9, 9));
    let trained = pick_bool();
    shard();
    values(&b, trained);
}
fn l02_long() {
    exact();
    let b = match pick(0, 2) {
        0 => dense_config(&mut || fint(-9, 9)),
        1 => conv_config(&mut || fint(-9, 9)),
        _ => {
            let (w, p, d, _, s) = one(&WINDOWS, &LARGE_WINDOWS);
            units(3);
            pool_spec(w, p, d, s)
        }
    };
    shard();
    let l = &mut *b.build("m");
    let x = xs(b.ins(), 9);
    let (mut y, mut z) = (ints(b.outs(), 9), ints(b.outs(), 9));
    check!(l.forward(&x, &mut y).is_ok(), 1, "inference failed");
    l.switch_to_training();
    check!(l.forward(&x, &mut z).is_ok(), 2, "training failed");
    for (i, j, k) in each(b.outs()) {
        check!(at(&y, i, j, k) == at(&z, i, j, k), 3, "the result depends on the mode");
    }
}
fn l05_long() {
    exact();
    let b = dense_config(&mut || fint(-9, 9));
    shard();
    handed_on(&b);
}
fn l06_long() {
    exact();
    let b = conv_config(&mut || fint(-9, 9));
    shard();
    handed_on(&b);
}
/// Pooling layers: inputs in any strict order by construction of the windows' maxima.
fn l07_long() {
    exact();
    let (w, p, d, _, st) = one(&WINDOWS, &LARGE_WINDOWS[1..]);
    units(3);
    // which element of every window is the largest
    let turn = pick(0, 3);
    shard();
    let b = pool_spec(w, p, d, st);
    let l = &mut *b.build("p");
    l.switch_to_training();
    let (i, o) = (b.ins(), b.outs());
    // increasing along the image in one of four directions, with symbolic increments
    let up = in_x(fint(1, 9));
    let x = Tensor::new(i);
    let mut x = x;
    for (a, e, c) in each(i) {
        let (u, v) = (if turn & 1 == 0 { a } else { i.di - 1 - a }, if turn & 2 == 0 { e } else { i.dj - 1 - e });
        x.set_item(&ix(a, e, c), up * (u + v * i.di) as f32);
    }
    let mut y = ints(o, 9);
    check!(l.forward(&x, &mut y).is_ok(), 1, "forward failed");
    let g = gs(o, 9);
    let mut h = ints(i, 9);
    check!(l.backward(&x, &y, &g, &mut h).is_ok(), 2, "backward failed");
    for (a, e, c) in each(i) {
        let mut t = vec![];
        for (q, r, _) in each(sh(o.di, o.dj, 1)) {
            let (m, n) = (q * st + if turn & 1 == 0 { w.0 - 1 } else { 0 }, r * st + if turn & 2 == 0 { w.1 - 1 } else { 0 });
            if (a, e) == (m, n) {
                t.push(at(&g, q, r, c));
            }
        }
        check!(at(&h, a, e, c) == total(&t), 3, "gradient at a position");
    }
    for (q, r, c) in each(o) {
        let (m, n) = (q * st + if turn & 1 == 0 { w.0 - 1 } else { 0 }, r * st + if turn & 2 == 0 { w.1 - 1 } else { 0 });
        check!(at(&y, q, r, c) == at(&x, m, n, c), 4, "window maximum");
    }
}
fn l08_long() {
    exact();
    let s = match pick(0, 4) { 0 => sh(5, 1, 1), 1 => sh(3, 2, 1), 2 => sh(1, 2, 2), 3 => sh(2, 1, 3), _ => sh(9, 1, 1) };
    units(3);
    shard();
    let mut l = rusty_network::layer::softmax::SoftmaxLayer::new(s, &nm("s")).unwrap();
    l.switch_to_training();
    let (x, y, g) = (ints(s, 3), xs(s, 3), gs(s, 3));
    let mut h = ints(s, 3);
    check!(l.backward(&x, &y, &g, &mut h).is_ok(), 1, "backward failed");
    let mut t = vec![];
    for (a, b, c) in each(s) {
        t.push(at(&g, a, b, c) * at(&y, a, b, c));
    }
    let t = total(&t);
    for (i, j, k) in each(s) {
        check!(at(&h, i, j, k) == at(&y, i, j, k) * (at(&g, i, j, k) - t), 2, "gradient of an element");
    }
}
}

fn values(b: &Spec, trained: bool) {
    let l = &mut *b.build("v");
    set_mode(l, trained);
    let x = xs(b.ins(), 9);
    let mut y = ints(b.outs(), 99);
    check!(l.forward(&x, &mut y).is_ok(), 1, "forward failed");
    for (a, q, c) in each(b.outs()) {
        check!(at(&y, a, q, c) == relu(b.pre(&x, a, q, c)), 2, "output value");
    }
    check!(all_same(&params_of(l), &b.params()), 3, "the parameters changed");
}
fn handed_on(b: &Spec) {
    let l = &mut *b.build("g");
    l.switch_to_training();
    let (i, o) = (b.ins(), b.outs());
    let x = xs(i, 9);
    let mut y = ints(o, 9);
    check!(l.forward(&x, &mut y).is_ok(), 1, "forward failed");
    let g = gs(o, 9);
    let mut h = ints(i, 9);
    check!(l.backward(&x, &y, &g, &mut h).is_ok(), 2, "backward failed");
    let mut masked = vec![];
    for (a, e, c) in each(o) {
        masked.push(ite(b.pre(&x, a, e, c) > 0.0, at(&g, a, e, c), 0.0));
    }
    for (p, q, r) in each(i) {
        let mut t = vec![];
        for (n, (a, e, c)) in each(o).into_iter().enumerate() {
            let m = masked[n];
            match b {
                Spec::Fc(w, _) if c == r => t.push(m * at(w, a, p, c)),
                Spec::Conv(k, _, _, st) => {
                    let ks = k[c as usize].get_shape();
                    if a * st <= p && p < a * st + ks.di && e * st <= q && q < e * st + ks.dj {
                        t.push(m * at(&k[c as usize], p - a * st, q - e * st, r));
                    }
                }
                _ => {}
            }
        }
        check!(at(&h, p, q, r) == total(&t), 3, "gradient handed on");
    }
}
