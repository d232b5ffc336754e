//! T11 - T16: softmax, scatter-add, norm, equality and filling, files, random filling.
use crate::sx::*;
use rusty_network::tensor::helper::*;
use rusty_network::tensor::Tensor;

fn shapes_of(n: u32) -> TensorShape {
    match pick(0, 2) {
        0 => sh(n, 1, 1),
        1 => sh(1, n, 1),
        _ => sh(1, 1, n),
    }
}
/// Seven different small shapes.
fn small_shape() -> TensorShape {
    let (a, b, c) = (pick(1, 2), pick(1, 2), pick(1, 2));
    sh(a, b, c)
}

harnesses! {
/// As real numbers: proportional to the exponentials and summing to one.
fn t11_proportion() {
    exact();
    let n = pick(1, 3);
    let s = shapes_of(n);
    // also far apart
    let far = [1.0, 25.0][pick(0, 1) as usize];
    shard();
    let x = make(s, &mut || if far == 1.0 { fint(-6, 6) } else { fint(-3, 3) * far });
    let x0 = x.clone();
    let mut o = ints(s, 6);
    Tensor::softmax(&x, &mut o);
    let mut out = vec![];
    let mut inp = vec![];
    for (i, j, k) in each(s) {
        out.push(at(&o, i, j, k));
        inp.push(at(&x0, i, j, k));
        obs_f(at(&x, i, j, k));
    }
    let m = n as usize;
    check!(close(total(&out), 1.0), 1, "the elements sum to one");
    for a in 0..m {
        check!(out[a] > 0.0, 4, "every element of moderate inputs is positive");
        for b in 0..a {
            check!(close(out[a] * inp[b].exp(), out[b] * inp[a].exp()), 2, "proportional to the exponentials");
        }
    }
    check!(untouched(&x, &x0), 3, "the input changed");
}
/// As IEEE floats: no NaN and in range for every finite input.
fn t11_range() {
    precise();
    let n = pick(1, by_tier(3, 4));
    let s = shapes_of(n);
    shard();
    let x = anybits(s);
    let mut o = anybits(s);
    for (i, j, k) in each(s) {
        assume(at(&x, i, j, k).is_finite());
    }
    Tensor::softmax(&x, &mut o);
    for (i, j, k) in each(s) {
        let v = at(&o, i, j, k);
        check!(not(v.is_nan()), 1, "an element is NaN");
        check!(v >= 0.0, 2, "an element is negative");
        check!(v <= 1.0, 3, "an element is larger than one");
    }
}
fn t11_order() {
    precise();
    let n = pick(2, by_tier(3, 4));
    let s = shapes_of(n);
    shard();
    let x = anybits(s);
    let mut o = anybits(s);
    for (i, j, k) in each(s) {
        assume(at(&x, i, j, k).is_finite());
    }
    Tensor::softmax(&x, &mut o);
    for (i, j, k) in each(s) {
        for (a, b, c) in each(s) {
            check!(imp(at(&x, i, j, k) <= at(&x, a, b, c), at(&o, i, j, k) <= at(&o, a, b, c)), 1, "a larger input got a smaller output");
        }
    }
}
fn t11_mismatch() {
    precise();
    let (s, t) = (small_shape(), small_shape());
    assume(!shape_eq(&s, &t));
    shard();
    let x = anybits(s);
    let mut o = anybits(t);
    let o0 = o.clone();
    Tensor::softmax(&x, &mut o);
    check!(untouched_bits(&o, &o0), 1, "the output changed although the shapes differ");
}
fn t12_scatter() {
    exact();
    let (s, t) = (sh(pick(1, 2), pick(1, 2), 1), sh(pick(1, 2), pick(1, 2), pick(1, 2)));
    let n = s.di * s.dj;
    let m = t.di * t.dj * t.dk;
    let len = pick(0, n + 1);
    shard();
    let a = ints(s, 99);
    let mut b = ints(t, 99);
    let (a0, b0) = (a.clone(), b.clone());
    let list: Vec<u32> = (0..len).map(|_| u32s(0, u32::MAX)).collect();
    let l0 = list.clone();
    let r = Tensor::add_from_index_list(&a, &mut b, &list);
    let mut valid = len <= n;
    for &x in &l0 {
        valid = and(valid, x < m);
    }
    check!(r.is_ok() == valid, 1, "accepts exactly the lists that fit");
    check!(untouched(&a, &a0), 2, "the source changed");
    check!(shape_eq(&b.get_shape(), &t), 5, "the destination's shape changed");
    if r.is_ok() && len <= n {
        for (i, j, k) in each(t) {
            let p = b0.get_data_index(&ix(i, j, k));
            let mut terms = vec![at(&b0, i, j, k)];
            let mut q = 0;
            for (x, y, z) in each(s) {
                if q < l0.len() {
                    terms.push(ite(l0[q] == p, at(&a0, x, y, z), 0.0));
                }
                q += 1;
            }
            check!(at(&b, i, j, k) == total(&terms), 3, "sum at a destination position");
            obs_f(at(&b, i, j, k));
        }
    }
    cover(valid, 1);
    cover(not(valid), 2);
}
fn t13_norm() {
    exact();
    let s = small_shape();
    shard();
    let a = ints(s, 7);
    let a0 = a.clone();
    let v = a.get_norm();
    let mut sq = vec![];
    let mut zero = true;
    for (i, j, k) in each(s) {
        sq.push(at(&a0, i, j, k) * at(&a0, i, j, k));
        zero = and(zero, at(&a0, i, j, k) == 0.0);
    }
    check!(close(v * v, total(&sq)), 1, "the square of the norm is the sum of the squares");
    check!(v >= 0.0, 2, "the norm is negative");
    check!((v == 0.0) == zero, 3, "zero exactly when all elements are zero");
    check!(untouched(&a, &a0), 4, "the tensor changed");
}
fn t13_sign() {
    precise();
    let s = match pick(0, 2) { 0 => sh(1, 1, 1), 1 => sh(2, 1, 1), _ => sh(1, 1, 2) };
    shard();
    let a = anybits(s);
    let a0 = a.clone();
    let mut finite = true;
    for (i, j, k) in each(s) {
        finite = and(finite, at(&a, i, j, k).is_finite());
    }
    let v = a.get_norm();
    check!(imp(finite, v >= 0.0), 1, "the norm of finite elements is negative or NaN");
    check!(untouched_bits(&a, &a0), 2, "the tensor changed");
}
fn t14_equality() {
    precise();
    let (s, t) = (small_shape(), small_shape());
    shard();
    let (a, b) = (anybits(s), anybits(t));
    let e = a == b;
    let n = a != b;
    let mut want = shape_eq(&s, &t);
    if want {
        for (i, j, k) in each(s) {
            want = and(want, at(&a, i, j, k) == at(&b, i, j, k));
        }
    }
    check!(e == want, 1, "equality");
    check!(n == not(want), 2, "inequality");
    check!((b == a) == want, 3, "symmetry");
    obs(e as u64);
    cover(want, 1);
    cover(not(want), 2);
}
fn t14_fill() {
    precise();
    let s = small_shape();
    let n = s.di * s.dj * s.dk;
    let len = pick(0, n + 2);
    shard();
    let mut a = anybits(s);
    let a0 = a.clone();
    let list: Vec<f32> = (0..len).map(|_| fbits()).collect();
    let l0 = list.clone();
    let r = a.fill_with_vec(list);
    check!(r.is_ok() == (len == n), 1, "accepts exactly the lists of the right length");
    check!(shape_eq(&a.get_shape(), &s), 2, "filling changed the shape");
    if len == n {
        let mut q = 0;
        // first dimension fastest
        for (i, j, k) in each(s) {
            check!(bits_eq(at(&a, i, j, k), l0[q]), 3, "an element is not the listed one");
            q += 1;
        }
    } else {
        check!(untouched_bits(&a, &a0), 4, "a list of the wrong length changed the tensor");
    }
    let v = fbits();
    a.fill_with_value(v);
    for (i, j, k) in each(s) {
        check!(bits_eq(at(&a, i, j, k), v), 5, "an element was not filled");
    }
    check!(shape_eq(&a.get_shape(), &s), 6, "filling changed the shape");
    let f = Tensor::new(s);
    for (i, j, k) in each(s) {
        check!(at(&f, i, j, k) == 0.0, 7, "a new tensor is not zero");
    }
    check!(a.total_items() == n, 8, "the number of items changed");
}
fn t15_roundtrip() {
    precise();
    let s = sh(pick(1, 2), pick(1, 2), pick(1, by_tier(2, 3)));
    shard();
    let a = anybits(s);
    let a0 = a.clone();
    let name = String::from("tensor.bin");
    check!(a.save_to_file(&name).is_ok(), 1, "saving failed");
    check!(untouched_bits(&a, &a0), 2, "saving changed the tensor");
    // an existing, longer or shorter file is replaced
    match Tensor::from_file(&name) {
        Ok(mut b) => {
            check!(untouched_bits(&b, &a0), 3, "the loaded tensor differs");
            // it behaves like the original afterwards
            let (i, j, k) = (u32s(0, s.di - 1), u32s(0, s.dj - 1), u32s(0, s.dk - 1));
            check!(b.get_data_index(&ix(i, j, k)) == a.get_data_index(&ix(i, j, k)), 4, "positions differ");
            check!(b.total_items() == a.total_items(), 5, "item counts differ");
            let v = fbits();
            b.set_item(&ix(i, j, k), v);
            check!(bits_eq(b.get_item(&ix(i, j, k)), v), 6, "a loaded tensor does not store");
            obs(b.get_data_index(&ix(i, j, k)) as u64);
        }
        Err(_) => check!(false, 7, "loading failed"),
    }
}
fn t15_overwrite() {
    precise();
    let (s, t) = (small_shape(), small_shape());
    shard();
    let (a, b) = (anybits(s), anybits(t));
    let name = String::from("tensor.bin");
    check!(a.save_to_file(&name).is_ok(), 1, "saving failed");
    check!(b.save_to_file(&name).is_ok(), 2, "saving over an existing file failed");
    match Tensor::from_file(&name) {
        Ok(c) => check!(untouched_bits(&c, &b), 3, "the loaded tensor differs from the last one saved"),
        Err(_) => check!(false, 4, "loading failed"),
    }
}
fn t15_faults() {
    precise();
    let s = sh(pick(1, 2), 1, pick(1, 2));
    let n = pick(0, 5);
    let kind = pick(1, 4);
    let on_save = pick_bool();
    shard();
    let a = anybits(s);
    let name = String::from("tensor.bin");
    if on_save {
        fault(n, kind);
        let r = a.save_to_file(&name);
        let hit = fs_ops() > n;
        fault(0, F_NONE);
        let hard = kind == F_ERR || kind == F_ZERO;
        if hit && kind == F_ERR {
            check!(r.is_err(), 1, "a failed system call was not reported by saving");
        }
        if !hit || !hard {
            check!(r.is_ok(), 2, "saving failed although every call succeeded or was retriable");
        }
        if r.is_ok() {
            match Tensor::from_file(&name) {
                Ok(b) => check!(untouched_bits(&b, &a), 3, "saving reported success but the file is not the tensor"),
                Err(_) => check!(false, 4, "saving reported success but the file cannot be loaded"),
            }
        }
        cover(hit, 1);
    } else {
        check!(a.save_to_file(&name).is_ok(), 5, "saving failed");
        fault(n, kind);
        let r = Tensor::from_file(&name);
        let hit = fs_ops() > n;
        fault(0, F_NONE);
        if hit && kind == F_ERR {
            check!(r.is_err(), 6, "a failed system call was not reported by loading");
        }
        if !hit || kind == F_EINTR || kind == F_SHORT {
            check!(r.is_ok(), 7, "loading failed although every call succeeded or was retriable");
        }
        if let Ok(b) = r {
            check!(untouched_bits(&b, &a), 8, "loading reported success but the tensor differs");
        }
        cover(hit, 2);
    }
}
fn t15_missing() {
    precise();
    check!(Tensor::from_file(&String::from("absent.bin")).is_err(), 1, "loading a file that does not exist succeeded");
    check!(Tensor::new(sh(1, 1, 1)).save_to_file(&String::from("no/such/dir/t.bin")).is_err(), 2, "saving into a directory that does not exist succeeded");
}
fn t16_uniform() {
    precise();
    let (lo, hi) = match pick(0, by_tier(7, 11)) {
        0 => (0.0, 1.0),
        1 => (-1.0, 1.0),
        2 => (-0.1, 0.1),
        3 => (5.0, 5.0),
        4 => (-3.0, -2.5),
        5 => (0.0, 1e-45),
        6 => (1e8, 1e8 + 64.0),
        7 => (-1e38, 1e38),
        8 => (1.0 / 3.0, 2.0 / 3.0),
        9 => (-1e-3, 1e30),
        10 => (0.0, f32::MAX),
        _ => (-7.0e-3, 0.1234567),
    };
    let s = match pick(0, 2) { 0 => sh(1, 1, 1), 1 => sh(2, 1, 1), _ => sh(1, 1, 2) };
    shard();
    let mut a = make(s, &mut || f32::NAN);
    a.fill_with_uniform(lo, hi);
    for (i, j, k) in each(s) {
        let v = at(&a, i, j, k);
        check!(v.is_finite(), 1, "an element is not finite or was not overwritten");
        check!(and(v >= lo, v <= hi), 2, "an element is outside the range");
        obs_f(v);
    }
    check!(shape_eq(&a.get_shape(), &s), 3, "filling changed the shape");
}
}
