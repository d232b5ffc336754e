//! T07 - T10, T17: convolution, its gradients, pooling and the fitting checks.
use crate::sx::*;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

/// A window size, a stride and the number of window positions in one direction.
fn fit(maxk: u32, maxn: u32, st: u32) -> (u32, u32) {
    let (k, n) = (pick(1, maxk), pick(1, maxn));
    (k, (n - 1) * st + k)
}
/// Number of window positions, if the window tiles the image.
fn positions(image: u32, window: u32, stride: u32) -> Option<u32> {
    if stride > 0 && window >= 1 && window <= image && (image - window) % stride == 0 {
        Some((image - window) / stride + 1)
    } else {
        None
    }
}

harnesses! {
fn t07_forward() {
    exact();
    let st = pick(1, 3);
    let mk = by_tier(2, 3);
    let (ki, ii) = fit(mk, by_tier(2, 3), st);
    let (kj, ij) = fit(mk, by_tier(2, 3), st);
    let dk = pick(1, 2);
    let (oc, ch) = { let o = pick(1, 2); (o, pick(0, o - 1)) };
    let relu_form = pick_bool();
    shard();
    let image = ints(sh(ii, ij, dk), 31);
    let kernel = ints(sh(ki, kj, dk), 31);
    let bias = ints(sh(1, 1, 1), 31);
    let so = sh((ii - ki) / st + 1, (ij - kj) / st + 1, oc);
    let mut out = ints(so, 31);
    let (i0, k0, b0, o0) = (image.clone(), kernel.clone(), bias.clone(), out.clone());
    let r = if relu_form {
        convolution_bias_relu(&image, &kernel, &bias, st, &mut out, ch)
    } else {
        convolution_bias(&image, &kernel, &bias, st, &mut out, ch)
    };
    check!(r.is_ok(), 1, "a fitting convolution was refused");
    check!(shape_eq(&out.get_shape(), &so), 2, "shape of the result");
    for (i, j, c) in each(so) {
        if c != ch {
            check!(same(at(&out, i, j, c), at(&o0, i, j, c)), 3, "another channel was written");
            continue;
        }
        let mut terms = vec![at(&b0, 0, 0, 0)];
        for (a, b, k) in each(sh(ki, kj, dk)) {
            terms.push(at(&i0, i * st + a, j * st + b, k) * at(&k0, a, b, k));
        }
        let mut s = total(&terms);
        if relu_form {
            s = relu(s);
        }
        check!(at(&out, i, j, c) == s, 4, "convolution value");
        obs_f(at(&out, i, j, c));
    }
    check!(and(untouched(&image, &i0), and(untouched(&kernel, &k0), untouched(&bias, &b0))), 5, "an operand changed");
}
fn t07_refuse() {
    exact();
    // start from a fitting configuration and disturb it
    let st = pick(1, 2);
    let (ki, ii) = fit(2, 2, st);
    let (kj, ij) = fit(2, 2, st);
    let dk = pick(1, 2);
    let relu_form = pick_bool();
    let mut image = sh(ii, ij, dk);
    let mut kernel = sh(ki, kj, dk);
    let mut bias = sh(1, 1, 1);
    let mut out = sh((ii - ki) / st + 1, (ij - kj) / st + 1, 2);
    let mut stride = st;
    let mut ch = pick(0, 1);
    match pick(0, 15) {
        0 => out.di += 1,
        1 => out.dj += 1,
        2 => image.dk += 1,
        3 => kernel.dk += 1,
        4 => ch = 2,
        5 => ch = u32s(2, u32::MAX),
        6 => bias.di = 2,
        7 => bias.dj = 2,
        8 => bias.dk = 2,
        9 => kernel.di += 1,
        10 => kernel.dj += 1,
        11 => stride += 1,
        12 => image.di += 1,
        13 => image.dj += 1,
        14 => {
            kernel.di = ii + 1;
            out.di = 1;
        }
        _ => stride = 0,
    }
    let fits = image.dk == kernel.dk
        && positions(image.di, kernel.di, stride) == Some(out.di)
        && positions(image.dj, kernel.dj, stride) == Some(out.dj)
        && ch < out.dk
        && shape_eq(&bias, &sh(1, 1, 1));
    assume(!fits);
    shard();
    let (ti, tk, tb) = (ints(image, 9), ints(kernel, 9), ints(bias, 9));
    let mut to = ints(out, 9);
    let o0 = to.clone();
    let r = if relu_form {
        convolution_bias_relu(&ti, &tk, &tb, stride, &mut to, ch)
    } else {
        convolution_bias(&ti, &tk, &tb, stride, &mut to, ch)
    };
    check!(r.is_err(), 1, "an inconsistent convolution was accepted");
    check!(untouched(&to, &o0), 2, "the output changed although the convolution was refused");
}
fn t08_input_gradient() {
    exact();
    let st = pick(1, 3);
    let mk = by_tier(3, 4);
    let (ki, ii) = fit(mk, 2 + by_tier(0, 1), st);
    let (kj, ij) = fit(mk, 2 + by_tier(0, 1), st);
    let (dk, nk) = (pick(1, 2), pick(1, 2));
    shard();
    let so = sh((ii - ki) / st + 1, (ij - kj) / st + 1, nk);
    let grad = ints(so, 31);
    let kernels: Vec<Tensor> = (0..nk).map(|_| ints(sh(ki, kj, dk), 31)).collect();
    let mut out = ints(sh(ii, ij, dk), 31);
    let (g0, k0) = (grad.clone(), kernels.clone());
    let r = convolution_backprop_outgoing_gradient(&grad, &kernels, st, &mut out);
    check!(r.is_ok(), 1, "a fitting configuration was refused");
    for (a, b, c) in each(sh(ii, ij, dk)) {
        let mut terms = vec![];
        for (i, j, k) in each(so) {
            if i * st <= a && a < i * st + ki && j * st <= b && b < j * st + kj {
                terms.push(at(&g0, i, j, k) * at(&k0[k as usize], a - i * st, b - j * st, c));
            }
        }
        check!(at(&out, a, b, c) == total(&terms), 2, "gradient handed to the image");
        obs_f(at(&out, a, b, c));
    }
    check!(untouched(&grad, &g0), 3, "the incoming gradient changed");
    for k in 0..nk as usize {
        check!(untouched(&kernels[k], &k0[k]), 4, "a kernel changed");
    }
}
fn t09_kernel_gradient() {
    exact();
    let st = pick(1, 3);
    let mk = by_tier(3, 4);
    let (ki, ii) = fit(mk, 2 + by_tier(0, 1), st);
    let (kj, ij) = fit(mk, 2 + by_tier(0, 1), st);
    let (dk, nk) = (pick(1, 2), pick(1, 3));
    let ch = pick(0, nk - 1);
    shard();
    let so = sh((ii - ki) / st + 1, (ij - kj) / st + 1, nk);
    let grad = ints(so, 31);
    let image = ints(sh(ii, ij, dk), 31);
    let mut out = ints(sh(ki, kj, dk), 31);
    let (g0, i0) = (grad.clone(), image.clone());
    let r = convolution_backprop_kernel(&grad, &image, st, ch, &mut out);
    check!(r.is_ok(), 1, "a fitting configuration was refused");
    for (a, b, c) in each(sh(ki, kj, dk)) {
        let mut terms = vec![];
        for (i, j, _) in each(sh(so.di, so.dj, 1)) {
            terms.push(at(&g0, i, j, ch) * at(&i0, i * st + a, j * st + b, c));
        }
        check!(at(&out, a, b, c) == total(&terms), 2, "gradient of a kernel element");
        obs_f(at(&out, a, b, c));
    }
    check!(and(untouched(&grad, &g0), untouched(&image, &i0)), 3, "an operand changed");
}
fn t10_max_pool() {
    // nothing is computed here, only compared, so finite floats may be read as real numbers
    exact();
    let st = pick(1, 3);
    let (ki, ii) = fit(by_tier(2, 3), 2, st);
    let (kj, ij) = fit(by_tier(2, 3), 2, st);
    let dk = pick(1, 2);
    shard();
    let so = sh((ii - ki) / st + 1, (ij - kj) / st + 1, dk);
    let image = make(sh(ii, ij, dk), &mut freal);
    let i0 = image.clone();
    let (mut o1, mut o2) = (make(so, &mut freal), make(so, &mut freal));
    let n = so.di * so.dj * so.dk;
    let mut origin: Vec<u32> = (0..n).map(|_| u32s(0, u32::MAX)).collect();
    let mask = sh(ki, kj, 1);
    Tensor::max_pool(&image, &mask, st, &mut o1);
    check!(Tensor::max_pool_track_origin(&image, &mask, st, &mut o2, &mut origin).is_ok(), 1, "a fitting configuration was refused");
    check!(origin.len() == n as usize, 2, "length of the record");
    for (i, j, k) in each(so) {
        let (a, b) = (at(&o1, i, j, k), at(&o2, i, j, k));
        check!(a == b, 3, "both forms agree");
        let mut found = false;
        let mut largest = true;
        let org = origin[o2.get_data_index(&ix(i, j, k)) as usize];
        let mut good_origin = false;
        for x in 0..ki {
            for y in 0..kj {
                let v = at(&i0, i * st + x, j * st + y, k);
                found = or(found, v == a);
                largest = and(largest, v <= a);
                let pos = i0.get_data_index(&ix(i * st + x, j * st + y, k));
                good_origin = or(good_origin, and(org == pos, v == b));
            }
        }
        check!(and(found, largest), 4, "window maximum");
        check!(good_origin, 5, "origin of the maximum");
        obs_f(a);
        obs(org as u64);
    }
    check!(untouched(&image, &i0), 6, "the image changed");
}
fn t10_refuse() {
    precise();
    let st = pick(1, 2);
    let (ki, ii) = fit(2, 2, st);
    let (kj, ij) = fit(2, 2, st);
    let dk = pick(1, 2);
    let mut image = sh(ii, ij, dk);
    let mut mask = sh(ki, kj, 1);
    let mut out = sh((ii - ki) / st + 1, (ij - kj) / st + 1, dk);
    let mut stride = st;
    let mut extra = 0;
    match pick(0, 12) {
        0 => out.di += 1,
        1 => out.dj += 1,
        2 => out.dk += 1,
        3 => image.dk += 1,
        4 => image.di += 1,
        5 => image.dj += 1,
        6 => mask.di += 1,
        7 => mask.dj += 1,
        8 => stride += 1,
        9 => extra = 1,
        10 => extra = -1,
        11 => {
            mask.dj = ij + 1;
            out.dj = 1;
        }
        _ => stride = 0,
    }
    let shapes_fit = image.dk == out.dk
        && positions(image.di, mask.di, stride) == Some(out.di)
        && positions(image.dj, mask.dj, stride) == Some(out.dj);
    assume(!shapes_fit || extra != 0);
    shard();
    let t = anybits(image);
    let n = (out.di * out.dj * out.dk) as i32 + extra;
    let mut o = anybits(out);
    let o0 = o.clone();
    let mut origin: Vec<u32> = (0..n).map(|_| u32s(0, u32::MAX)).collect();
    let g0 = origin.clone();
    let r = Tensor::max_pool_track_origin(&t, &mask, stride, &mut o, &mut origin);
    check!(r.is_err(), 1, "an inconsistent pooling was accepted");
    check!(untouched_bits(&o, &o0), 2, "the output changed although pooling was refused");
    let mut ok = origin.len() == g0.len();
    for i in 0..g0.len() {
        ok = and(ok, origin[i] == g0[i]);
    }
    check!(ok, 3, "the record changed although pooling was refused");
}
/// The full width of 32 bits; comparisons that the solver cannot decide at this width are decided
/// by the `_small` variants.
fn t17_fit() {
    fit_check(u32::MAX);
}
fn t17_fit_small() {
    fit_check(by_tier(31, 255));
}
fn t17_dim_fit() {
    precise();
    let (a, b) = (u32s(0, u32::MAX), u32s(0, u32::MAX));
    let (c, d) = (u32s(0, u32::MAX), u32s(0, u32::MAX));
    let st = u32s(0, u32::MAX);
    assume(and(st > 0, and(c >= 1, and(d >= 1, and(c <= a, d <= b)))));
    assume(and((a - c) % st == 0, (b - d) % st == 0));
    let (x, y) = Tensor::get_convolution_dim_fit(&sh(a, b, 1), &sh(c, d, 1), st);
    check!(and(x == (a - c) / st + 1, y == (b - d) / st + 1), 1, "number of window positions");
    obs(x as u64);
    obs(y as u64);
}
fn t17_dim_fit_small() {
    precise();
    let m = by_tier(31, 255);
    let st = u32s(1, m);
    // described from the other side: n positions of a window of size c
    let (c, d, n, o) = (u32s(1, m), u32s(1, m), u32s(1, m), u32s(1, m));
    let (x, y) = Tensor::get_convolution_dim_fit(&sh((n - 1) * st + c, (o - 1) * st + d, 1), &sh(c, d, 1), st);
    check!(and(x == n, y == o), 1, "number of window positions");
    obs(x as u64);
    obs(y as u64);
}
fn t17_pool_check() {
    shape_check(u32::MAX, false);
}
fn t17_pool_check_small() {
    shape_check(by_tier(15, 63), false);
}
fn t17_conv_check() {
    shape_check(u32::MAX, true);
}
fn t17_conv_check_small() {
    shape_check(by_tier(15, 63), true);
}
}

fn fit_check(m: u32) {
    precise();
    let (a, b) = (u32s(0, m), u32s(0, m));
    let (c, d) = (u32s(0, m), u32s(0, m));
    let st = u32s(0, m);
    let image = sh(a, b, u32s(0, m));
    let window = sh(c, d, u32s(0, m));
    let got = Tensor::does_kernel_stride_fit_image(&image, &window, st);
    obs(got as u64);
    cover(got, 1);
    cover(not(got), 2);
    if and(st > 0, and(c >= 1, and(d >= 1, and(c <= a, d <= b)))) {
        check!(got == and((a - c) % st == 0, (b - d) % st == 0), 1, "does_kernel_stride_fit_image answers wrongly");
    } else {
        check!(not(got), 2, "an impossible window was accepted");
    }
}
fn shape_check(m: u32, conv: bool) {
    precise();
    let (a, b, e) = (u32s(0, m), u32s(0, m), u32s(0, m));
    let (c, d, f) = (u32s(0, m), u32s(0, m), u32s(0, m));
    let st = u32s(0, m);
    let (x, y, z) = (u32s(0, m), u32s(0, m), u32s(0, m));
    let ch = u32s(0, m);
    let (image, window, result) = (sh(a, b, e), sh(c, d, f), sh(x, y, z));
    let got = if conv {
        check_convolution_dimensions(&image, &window, st, &result, ch).is_ok()
    } else {
        Tensor::check_max_pooling_dimensions(&image, &window, st, &result)
    };
    obs(got as u64);
    cover(got, 1);
    cover(not(got), 2);
    let depth = if conv { and(e == f, ch < z) } else { e == z };
    if and(and(st > 0, depth), and(c >= 1, and(d >= 1, and(c <= a, d <= b)))) {
        let tiles = and((a - c) % st == 0, (b - d) % st == 0);
        // the window count only matters when the window tiles the image
        let size = and(x == (a - c) / st + 1, y == (b - d) / st + 1);
        check!(imp(got, and(tiles, size)), 1, "a shape that does not fit was accepted");
        check!(imp(and(tiles, size), got), 2, "a fitting shape was refused");
    } else {
        check!(not(got), 3, "an impossible combination was accepted");
    }
}
