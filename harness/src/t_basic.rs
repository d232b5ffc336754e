//! T01 - T06: element access, arithmetic, products, transposition, rectification.
use crate::sx::*;
use rusty_network::tensor::helper::*;
use rusty_network::tensor::Tensor;

harnesses! {
fn t01_elements() {
    precise();
    let m = by_tier(2, 3);
    let s = TensorShape::new(pick(1, m), pick(1, m), pick(1, 2));
    shard();
    let mut t = Tensor::new(s);
    // the model: one value per index, written through the public interface
    let idx = each(s);
    let mut model: Vec<f32> = Vec::new();
    for &(i, j, k) in &idx {
        let v = fbits();
        t.set_item(&ix(i, j, k), v);
        model.push(v);
    }
    for (n, &(i, j, k)) in idx.iter().enumerate() {
        check!(bits_eq(at(&t, i, j, k), model[n]), 1, "an element lost its value while the others were written");
    }
    // one write and one read at arbitrary indices
    let (a, b) = (ix(u32s(0, u32::MAX), u32s(0, u32::MAX), u32s(0, u32::MAX)), ix(u32s(0, u32::MAX), u32s(0, u32::MAX), u32s(0, u32::MAX)));
    let v = fbits();
    t.set_item(&a, v);
    let got = t.get_item(&b);
    let mut want = 0.0f32;
    for (n, &(i, j, k)) in idx.iter().enumerate() {
        let is_b = and(b.i == i, and(b.j == j, b.k == k));
        let is_a = and(a.i == i, and(a.j == j, a.k == k));
        let x = ite(is_a, v, model[n]);
        want = ite(is_b, x, want);
        check!(bits_eq(at(&t, i, j, k), x), 2, "a write changed another element or did not arrive");
    }
    check!(bits_eq(got, want), 3, "reading after one write");
    check!(shape_eq(&t.get_shape(), &s), 4, "shape changed");
    obs_f(got);
    cover(and(got.to_bits() == v.to_bits(), v.to_bits() != 0), 1);
}
fn t02_layout() {
    precise();
    // every 32-bit shape with a representable element count
    let (di, dj, dk) = (u32s(0, u32::MAX), u32s(0, u32::MAX), u32s(0, u32::MAX));
    let s = TensorShape::new(di, dj, dk);
    let (ei, ej, ek) = (iteu(di == 0, 1, di), iteu(dj == 0, 1, dj), iteu(dk == 0, 1, dk));
    check!(and(s.di == ei, and(s.dj == ej, s.dk == ek)), 1, "zero dimensions count as one, others are kept");
}
fn t02_position() {
    precise();
    // One dimension and the index along it are arbitrary 32-bit values; the other two dimensions
    // and indices run over small values, in each of the three arrangements.
    let w = pick(0, 2);
    let m = by_tier(3, 5);
    let (x, y) = (pick(1, m), pick(1, m));
    let (ax, ay, bx, by) = (pick(0, x - 1), pick(0, y - 1), pick(0, x - 1), pick(0, y - 1));
    shard();
    let n = u32s(1, u32::MAX);
    assume((n as u64) * ((x * y) as u64) <= u32::MAX as u64);
    let (na, nb) = (u32s(0, u32::MAX), u32s(0, u32::MAX));
    let (s, a, b) = match w {
        0 => (sh(n, x, y), ix(na, ax, ay), ix(nb, bx, by)),
        1 => (sh(x, n, y), ix(ax, na, ay), ix(bx, nb, by)),
        _ => (sh(x, y, n), ix(ax, ay, na), ix(bx, by, nb)),
    };
    let total = (n as u64) * ((x * y) as u64);
    check!(s.total_size() as u64 == total, 1, "the element count is the product of the dimensions");
    check!(s.fits_index(&a) == (na < n), 2, "an index fits exactly when every part is below its dimension");
    assume(and(na < n, nb < n));
    let st = TensorStride::new_from_shape(&s);
    let (pa, pb) = (&st * &a, &st * &b);
    check!((pa as u64) < total, 3, "an in-range index has a position below the element count");
    check!(imp(pa == pb, and(na == nb, ax == bx && ay == by)), 4, "different in-range indices have different positions");
    obs(pa as u64);
    obs(pb as u64);
}
fn t02_product() {
    precise();
    // all three dimensions symbolic: count, bounds and overflow freedom
    let l = [7u32, 15, 31][pick(0, by_tier(1, 2)) as usize];
    let (di, dj, dk) = (u32s(1, l), u32s(1, l), u32s(1, l));
    let s = sh(di, dj, dk);
    let total = di * dj * dk;
    check!(s.total_size() == total, 1, "the element count is the product of the dimensions");
    let a = ix(u32s(0, l), u32s(0, l), u32s(0, l));
    let inside = and(a.i < di, and(a.j < dj, a.k < dk));
    check!(s.fits_index(&a) == inside, 2, "an index fits exactly when every part is below its dimension");
    assume(inside);
    let st = TensorStride::new_from_shape(&s);
    let pa = &st * &a;
    check!(pa < total, 3, "an in-range index has a position below the element count");
    obs(pa as u64);
}
fn t02_tensor() {
    precise();
    let m = by_tier(3, 4);
    let (di, dj, dk) = (pick(0, m), pick(0, m), pick(0, m));
    shard();
    let s = TensorShape::new(di, dj, dk);
    let (di, dj, dk) = (di.max(1), dj.max(1), dk.max(1));
    let t = Tensor::new(s);
    check!(t.total_items() == di * dj * dk, 1, "total_items");
    check!(shape_eq(&t.get_shape(), &sh(di, dj, dk)), 2, "shape");
    check!(and(s.get() == (di, dj, dk), Tensor::empty().total_items() == 1), 5, "get / empty");
    let a = ix(u32s(0, di - 1), u32s(0, dj - 1), u32s(0, dk - 1));
    let b = ix(u32s(0, di - 1), u32s(0, dj - 1), u32s(0, dk - 1));
    let (pa, pb) = (t.get_data_index(&a), t.get_data_index(&b));
    check!(pa < t.total_items(), 3, "position below the element count");
    check!(imp(pa == pb, and(a.i == b.i, and(a.j == b.j, a.k == b.k))), 4, "positions are unique");
    obs(pa as u64);
}
fn t03_elementwise() {
    precise();
    let m = by_tier(2, 3);
    let s = sh(pick(1, m), pick(1, m), pick(1, 2));
    let op = pick(0, 5);
    shard();
    let a = anybits(s);
    let b = anybits(s);
    let c = fbits();
    let mut o = anybits(s);
    let (a0, b0) = (a.clone(), b.clone());
    let (mut sa, sb) = (a.clone(), b.clone());
    match op {
        0 => Tensor::add(&a, &b, &mut o),
        1 => Tensor::multiply_elementwise(&a, &b, &mut o),
        2 => Tensor::scale(&a, c, &mut o),
        3 => Tensor::add_to_self(&mut sa, &sb),
        4 => Tensor::multiply_elementwise_self(&mut sa, &sb),
        _ => Tensor::scale_self(&mut sa, c),
    }
    let r = if op < 3 { &o } else { &sa };
    check!(shape_eq(&r.get_shape(), &s), 1, "shape of the result");
    for (i, j, k) in each(s) {
        let (x, y) = (at(&a0, i, j, k), at(&b0, i, j, k));
        let want = match op {
            0 | 3 => x + y,
            1 | 4 => x * y,
            _ => x * c,
        };
        check!(same(at(r, i, j, k), want), 2, "element result");
        obs(same(at(r, i, j, k), want) as u64);
    }
    check!(and(untouched_bits(&a, &a0), and(untouched_bits(&b, &b0), untouched_bits(&sb, &b0))), 3, "an operand changed");
}
fn t03_mismatch() {
    precise();
    let shapes = [sh(1, 2, 1), sh(2, 1, 1), sh(1, 1, 2), sh(2, 2, 1), sh(2, 1, 2), sh(1, 1, 1), sh(4, 1, 1)];
    let (x, y, z) = (pick(0, 6), pick(0, 6), pick(0, 6));
    let op = pick(0, 4);
    assume(x != z || (y != z && op < 2));
    assume(!(op >= 2 && y != 0));
    shard();
    let (a, b) = (anybits(shapes[x as usize]), anybits(shapes[y as usize]));
    let mut o = anybits(shapes[z as usize]);
    let o0 = o.clone();
    match op {
        0 => Tensor::add(&a, &b, &mut o),
        1 => Tensor::multiply_elementwise(&a, &b, &mut o),
        2 => Tensor::scale(&a, fbits(), &mut o),
        3 => Tensor::add_to_self(&mut o, &a),
        _ => Tensor::multiply_elementwise_self(&mut o, &a),
    }
    check!(untouched_bits(&o, &o0), 1, "the destination changed although the shapes differ");
}
fn t04_product() {
    exact();
    let m = by_tier(2, 3);
    let (r, n, c, d) = (pick(1, m), pick(1, 3), pick(1, m), pick(1, 2));
    let form = pick(0, 3);
    shard();
    let (s1, s2) = match form {
        1 => (sh(n, r, d), sh(n, c, d)),
        2 => (sh(r, n, d), sh(c, n, d)),
        _ => (sh(r, n, d), sh(n, c, d)),
    };
    let a = ints(s1, 31);
    let b = ints(s2, 31);
    let bias = ints(sh(r, c, d), 31);
    let mut o = ints(sh(r, c, d), 31);
    let (a0, b0, bias0) = (a.clone(), b.clone(), bias.clone());
    let ok = match form {
        0 => {
            Tensor::matrix_multiply(&a, &b, &mut o);
            true
        }
        1 => Tensor::matrix_multiply_transpose_first(&a, &b, &mut o).is_ok(),
        2 => Tensor::matrix_multiply_transpose_second(&a, &b, &mut o).is_ok(),
        _ => {
            Tensor::matrix_multiply_add_relu(&b, &a, &bias, &mut o);
            true
        }
    };
    check!(ok, 3, "a compatible product was refused");
    for (i, j, k) in each(sh(r, c, d)) {
        let mut terms = vec![];
        for l in 0..n {
            let x = if form == 1 { at(&a0, l, i, k) } else { at(&a0, i, l, k) };
            let y = if form == 2 { at(&b0, j, l, k) } else { at(&b0, l, j, k) };
            terms.push(x * y);
        }
        let mut s = total(&terms);
        if form == 3 {
            s = relu(s + at(&bias0, i, j, k));
        }
        check!(at(&o, i, j, k) == s, 1, "product element");
        obs_f(at(&o, i, j, k));
    }
    check!(and(untouched(&a, &a0), and(untouched(&b, &b0), untouched(&bias, &bias0))), 2, "operands changed");
    check!(shape_eq(&o.get_shape(), &sh(r, c, d)), 4, "result shape changed");
}
fn t04_mismatch() {
    exact();
    let form = pick(0, 3);
    let m = 2;
    let s1 = sh(pick(1, m), pick(1, m), pick(1, 2));
    let s2 = sh(pick(1, m), pick(1, m), pick(1, 2));
    let so = sh(pick(1, m), pick(1, m), pick(1, 2));
    let sb = if form == 3 { sh(pick(1, m), pick(1, m), pick(1, 2)) } else { so };
    let (e1, e2) = match form {
        1 => (sh(s1.dj, s1.di, s1.dk), s2),
        2 => (s1, sh(s2.dj, s2.di, s2.dk)),
        _ => (s1, s2),
    };
    let fits = e1.dk == e2.dk && e1.dk == so.dk && e1.dj == e2.di && e1.di == so.di && e2.dj == so.dj && shape_eq(&sb, &so);
    assume(!fits);
    shard();
    let (a, b, bias) = (ints(s1, 9), ints(s2, 9), ints(sb, 9));
    let mut o = ints(so, 9);
    let o0 = o.clone();
    let refused = match form {
        0 => {
            Tensor::matrix_multiply(&a, &b, &mut o);
            true
        }
        1 => Tensor::matrix_multiply_transpose_first(&a, &b, &mut o).is_err(),
        2 => Tensor::matrix_multiply_transpose_second(&a, &b, &mut o).is_err(),
        _ => {
            Tensor::matrix_multiply_add_relu(&b, &a, &bias, &mut o);
            true
        }
    };
    check!(refused, 1, "a product of incompatible shapes was not refused");
    check!(untouched(&o, &o0), 2, "the result was touched although the shapes are incompatible");
}
fn t05_transpose() {
    precise();
    let m = by_tier(3, 4);
    let s = sh(pick(1, m), pick(1, m), pick(1, 2));
    shard();
    let a = anybits(s);
    let a0 = a.clone();
    let mut o = anybits(sh(s.dj, s.di, s.dk));
    check!(Tensor::transpose_ij(&a, &mut o).is_ok(), 1, "a fitting destination was refused");
    for (i, j, k) in each(s) {
        check!(bits_eq(at(&o, j, i, k), at(&a0, i, j, k)), 2, "element at the transposed place");
    }
    let mut b = anybits(s);
    check!(Tensor::transpose_ij(&o, &mut b).is_ok(), 3, "transposing back was refused");
    check!(and(untouched_bits(&b, &a0), untouched_bits(&a, &a0)), 4, "transposing twice restores");
    let st = s.transpose_ij();
    check!(shape_eq(&st, &sh(s.dj, s.di, s.dk)), 5, "transposed shape");
}
fn t05_mismatch() {
    precise();
    let m = by_tier(2, 3);
    let s = sh(pick(1, m), pick(1, m), pick(1, 2));
    let r = sh(pick(1, m), pick(1, m), pick(1, 2));
    assume(!(s.di == r.dj && s.dj == r.di && s.dk == r.dk));
    shard();
    let a = anybits(s);
    let mut o = anybits(r);
    let o0 = o.clone();
    check!(Tensor::transpose_ij(&a, &mut o).is_err(), 1, "a non-fitting destination was accepted");
    check!(untouched_bits(&o, &o0), 2, "the destination changed");
}
fn t06_relu() {
    precise();
    let m = by_tier(2, 3);
    let s = sh(pick(1, m), pick(1, m), pick(1, 2));
    shard();
    let mut x = anybits(s);
    let mut k = anybits(s);
    let x0 = x.clone();
    check!(Tensor::relu_self_and_store_mask(&mut x, &mut k).is_ok(), 1, "matching shapes were refused");
    for (i, j, l) in each(s) {
        let v = at(&x0, i, j, l);
        let pos = v > 0.0;
        let (got, mask) = (at(&x, i, j, l), at(&k, i, j, l));
        check!(or(and(pos, bits_eq(got, v)), and(not(pos), got == 0.0)), 2, "rectified element");
        check!(bits_eq(mask, ite(pos, 1.0, 0.0)), 3, "mask element");
        obs_f(got);
        obs_f(mask);
    }
    cover(and(at(&x0, 0, 0, 0) > 0.0, at(&k, 0, 0, 0) == 1.0), 1);
    cover(at(&x0, 0, 0, 0).is_nan(), 2);
}
fn t06_mismatch() {
    precise();
    let m = 2;
    let s = sh(pick(1, m), pick(1, m), pick(1, 2));
    let r = sh(pick(1, m), pick(1, m), pick(1, 2));
    assume(!shape_eq(&s, &r));
    shard();
    let (mut x, mut k) = (anybits(s), anybits(r));
    let (x0, k0) = (x.clone(), k.clone());
    check!(Tensor::relu_self_and_store_mask(&mut x, &mut k).is_err(), 1, "a mask of another shape was accepted");
    check!(and(untouched_bits(&x, &x0), untouched_bits(&k, &k0)), 2, "something changed although it was refused");
}
}
