//! L01 - L10: the four kinds of layers.
use crate::lay::*;
use crate::sx::*;
use rusty_network::layer::convolutional::*;
use rusty_network::layer::fully_connected::*;
use rusty_network::layer::max_pool::*;
use rusty_network::layer::softmax::*;
use rusty_network::layer::*;
use rusty_network::network::NetworkRunState;
use rusty_network::tensor::helper::*;
use rusty_network::tensor::Tensor;

fn m9() -> impl FnMut() -> f32 {
    || fint(-9, 9)
}
fn picked_fc(f: &mut dyn FnMut() -> f32) -> Spec {
    fc_spec(pick(1, by_tier(2, 3)), pick(1, by_tier(2, 3)), pick(1, 2), f)
}
fn picked_conv(f: &mut dyn FnMut() -> f32) -> Spec {
    let t = by_tier(2, 3);
    conv_spec((pick(1, 2), pick(1, t)), (pick(1, 2), pick(1, t)), pick(1, 2), pick(1, 2), pick(1, t), f)
}
fn run(l: &mut dyn Layer, x: &Tensor, o: &mut Tensor) -> bool {
    l.forward(x, o).is_ok()
}
/// Every dimension of a picked size including zero.
fn odd(lo: u32, hi: u32) -> TensorShape {
    let (a, b, c) = (pick(lo, hi), pick(lo, hi), pick(lo, hi));
    sh(a, b, c)
}
/// The element count fits in 32 bits.
fn fits32(s: &TensorShape) -> bool {
    let p = s.di as u64 * s.dj as u64;
    let low = p & 0xffff_ffff;
    and(p == low, low * s.dk as u64 <= u32::MAX as u64)
}
/// The layer runs in both modes and fills an output of the shape it announces.
fn runs(l: &mut dyn Layer, base: u32) {
    let x = anybits(l.get_input_shape());
    runs_on(l, base, x);
}
/// Inputs of any bits while there are few of them, else fixed numbers.
fn runs_few(l: &mut dyn Layer, base: u32) {
    let i = l.get_input_shape();
    let x = few_bits(i);
    runs_on(l, base, x);
}
fn runs_on(l: &mut dyn Layer, base: u32, x: Tensor) {
    let (i, o) = (l.get_input_shape(), l.get_output_shape());
    for training in [false, true] {
        set_mode(l, training);
        let mut y = anybits(o);
        check!(run(l, &x, &mut y), base, "an accepted layer does not run");
        check!(shape_eq(&y.get_shape(), &o), base + 1, "the output's shape changed");
        if training {
            let g = anybits(o);
            let mut h = anybits(i);
            check!(l.backward(&x, &y, &g, &mut h).is_ok(), base + 2, "an accepted layer does not run backwards");
            check!(shape_eq(&h.get_shape(), &i), base + 3, "the outgoing gradient's shape changed");
        }
    }
}
fn dense(b: &Spec, base: u32, trained: bool) {
    let l = &mut *b.build("d");
    let (i, o) = (b.ins(), b.outs());
    set_mode(l, trained);
    check!(and(shape_eq(&l.get_input_shape(), &i), shape_eq(&l.get_output_shape(), &o)), base, "announced shapes");
    let mut y = ints(o, 99);
    if pick_bool() {
        let x0 = ints(i, 9);
        check!(run(l, &x0, &mut y), base + 1, "the first call failed");
        if pick_bool() {
            y = ints(o, 99);
        }
    }
    let x = ints(i, 9);
    let xc = x.clone();
    check!(run(l, &x, &mut y), base + 2, "the call failed");
    check!(untouched(&x, &xc), base + 3, "the input changed");
    check!(all_same(&params_of(l), &b.params()), base + 4, "the parameters changed");
    for (a, q, c) in each(o) {
        check!(at(&y, a, q, c) == relu(b.pre(&xc, a, q, c)), base + 5, "output value");
        obs_f(at(&y, a, q, c));
    }
}

harnesses! {
// ---------------------------------------------------------------- L01
fn l01_conv() {
    precise();
    // small kernels, any small image, including empty ones; refilled from a valid layer
    let ks = sh(pick(0, 2), pick(0, 2), pick(0, 2));
    let other = pick(0, 3);
    let nk = pick(0, 2);
    let nb = pick(0, 2);
    let ins = sh(pick(0, 3), pick(0, 3), pick(0, 2));
    let st = pick(0, 2);
    // most of the combinations say nothing new
    assume(nk == nb || ks.di == 1 && ks.dj == 1 && other == 0 && ins.di <= 1 && ins.dj <= 1);
    assume(other == 0 || nk == 2 && ins.dk == ks.dk && ins.di == 2 && ins.dj == 2);
    let training = pick_bool();
    shard();
    let mut kernels: Vec<Tensor> = (0..nk).map(|_| anybits(ks)).collect();
    let mut biases: Vec<Tensor> = (0..nb).map(|_| anybits(sh(1, 1, 1))).collect();
    match other {
        1 => kernels[1] = anybits(sh(ks.di + 1, ks.dj, ks.dk)),
        2 => kernels[1] = anybits(sh(ks.di, ks.dj, ks.dk + 1)),
        3 if nb > 0 => biases[nb as usize - 1] = anybits(sh(2, 1, 1)),
        _ => {}
    }
    let fit = nk >= 1 && nk == nb && other == 0 && ks.dk == ins.dk && positions(ins.di, ks.di, st).is_some() && positions(ins.dj, ks.dj, st).is_some();
    let old = conv_spec((1, 2), (2, 1), 1, 2, 1, &mut fbits);
    let mut l = ConvolutionalLayer::empty();
    let (k0, b0, i0, s0) = match &old { Spec::Conv(k, b, i, s) => (k.clone(), b.clone(), *i, *s), _ => return };
    check!(l.fill_from_state(k0, b0, i0, s0, &nm("old")).is_ok(), 1, "a fitting layer was refused");
    set_mode(&mut l, training);
    let before = show(&l);
    let all: Vec<Tensor> = kernels.iter().chain(biases.iter()).cloned().collect();
    let r = l.fill_from_state(kernels, biases, ins, st, &nm("new"));
    check!(r.is_ok() == fit, 2, "accepts exactly the parts that fit");
    if r.is_ok() {
        check!(all_same(&params_of(&l), &all), 3, "other parameters than the given ones");
        check!(shape_eq(&l.get_input_shape(), &ins), 4, "announced input shape");
        let want = sh(positions(ins.di, ks.di, st).unwrap_or(0), positions(ins.dj, ks.dj, st).unwrap_or(0), nk);
        check!(shape_eq(&l.get_output_shape(), &want), 5, "announced output shape");
        check!(l.get_name() == "new", 6, "name");
        check!((l.get_run_mode() == NetworkRunState::Training) == training, 7, "refilling changed the run mode");
        runs(&mut l, 10);
    } else {
        check!(same_opt(&before, &show(&l)), 8, "a refused refill changed the layer");
        check!(and(shape_eq(&l.get_input_shape(), &old.ins()), shape_eq(&l.get_output_shape(), &old.outs())), 9, "a refused refill changed the shapes");
        runs(&mut l, 20);
    }
    cover(fit, 1);
    cover(not(fit), 2);
}
/// Forward runs before and after a refused or accepted refill, without switching modes.
fn l01_refill_runs() {
    precise();
    let kind = pick(0, 3);
    let training = pick_bool();
    let good = pick_bool();
    let dirty = pick_bool();
    shard();
    let a = one_spec(kind, &mut fbits);
    // larger in every direction
    let b = match kind {
        0 => fc_spec(3, 3, 2, &mut fbits),
        1 => conv_spec((1, 2), (3, 2), 2, 3, 1, &mut fbits),
        2 => pool_spec((1, 2), (3, 2), 2, 1),
        _ => Spec::Soft(sh(3, 2, 2)),
    };
    match kind {
        0 => {
            let (Spec::Fc(w, c), Spec::Fc(w2, c2)) = (&a, &b) else { return };
            let mut l = FullyConnectedLayer::empty();
            check!(l.fill_from_state(w.clone(), c.clone(), &nm("a")).is_ok(), 1, "refused");
            set_mode(&mut l, training);
            if dirty { pass(&mut l, training); }
            let c2 = if good { c2.clone() } else { anybits(sh(3, 2, 2)) };
            check!(l.fill_from_state(w2.clone(), c2, &nm("b")).is_ok() == good, 2, "refill verdict");
            after(&mut l, if good { &b } else { &a }, training);
        }
        1 => {
            let (Spec::Conv(k, c, i, s), Spec::Conv(k2, c2, i2, s2)) = (&a, &b) else { return };
            let mut l = ConvolutionalLayer::empty();
            check!(l.fill_from_state(k.clone(), c.clone(), *i, *s, &nm("a")).is_ok(), 1, "refused");
            set_mode(&mut l, training);
            if dirty { pass(&mut l, training); }
            let mut c2 = c2.clone();
            if !good { c2.pop(); }
            check!(l.fill_from_state(k2.clone(), c2, *i2, *s2, &nm("b")).is_ok() == good, 2, "refill verdict");
            after(&mut l, if good { &b } else { &a }, training);
        }
        2 => {
            let (Spec::Pool(i, w, s), Spec::Pool(i2, w2, s2)) = (&a, &b) else { return };
            let mut l = MaxPoolLayer::empty();
            check!(l.fill_from_state(*i, *w, *s, &nm("a")).is_ok(), 1, "refused");
            set_mode(&mut l, training);
            if dirty { pass(&mut l, training); }
            let w2 = if good { *w2 } else { sh(w2.di, w2.dj + 9, w2.dk) };
            check!(l.fill_from_state(*i2, w2, *s2, &nm("b")).is_ok() == good, 2, "refill verdict");
            after(&mut l, if good { &b } else { &a }, training);
        }
        _ => {
            let (Spec::Soft(i), Spec::Soft(i2)) = (&a, &b) else { return };
            let mut l = SoftmaxLayer::empty();
            check!(l.fill_from_state(*i, &nm("a")).is_ok(), 1, "refused");
            set_mode(&mut l, training);
            if dirty { pass(&mut l, training); }
            let i2 = if good { *i2 } else { sh(65536, 65536, 1) };
            check!(l.fill_from_state(i2, &nm("b")).is_ok() == good, 2, "refill verdict");
            after(&mut l, if good { &b } else { &a }, training);
        }
    }
}
fn l01_dense() {
    precise();
    let w = sh(pick(0, 2), pick(0, 3), pick(0, 2));
    let b = odd(0, 2);
    // when two dimensions are off the third adds nothing
    assume((w.di != b.di) as u32 + (b.dj != 1) as u32 + (w.dk != b.dk) as u32 <= 1);
    let training = pick_bool();
    shard();
    let old = fc_spec(2, 1, 1, &mut fbits);
    let mut l = FullyConnectedLayer::empty();
    let (w0, b0) = match &old { Spec::Fc(w, b) => (w.clone(), b.clone()), _ => return };
    check!(l.fill_from_state(w0, b0, &nm("old")).is_ok(), 1, "a fitting layer was refused");
    set_mode(&mut l, training);
    let before = show(&l);
    let (wt, bt) = (anybits(w), anybits(b));
    let fit = w.di == b.di && b.dj == 1 && w.dk == b.dk;
    let r = l.fill_from_state(wt.clone(), bt.clone(), &nm("new"));
    check!(r.is_ok() == fit, 2, "accepts exactly the parts that fit");
    if r.is_ok() {
        check!(all_same(&params_of(&l), &[wt, bt]), 3, "other parameters than the given ones");
        check!(shape_eq(&l.get_input_shape(), &sh(w.dj, 1, w.dk)), 4, "announced input shape");
        check!(shape_eq(&l.get_output_shape(), &sh(w.di, 1, w.dk)), 5, "announced output shape");
        check!(l.get_name() == "new", 6, "name");
        check!((l.get_run_mode() == NetworkRunState::Training) == training, 7, "refilling changed the run mode");
        runs(&mut l, 10);
    } else {
        check!(same_opt(&before, &show(&l)), 8, "a refused refill changed the layer");
        runs(&mut l, 20);
    }
    cover(fit, 1);
    cover(not(fit), 2);
}
fn l01_pool() {
    precise();
    let ins = sh(pick(0, 4), pick(0, 3), pick(0, 2));
    let w = sh(pick(0, 3), pick(0, 2), pick(0, 2));
    let st = pick(0, 3);
    let training = pick_bool();
    shard();
    let mut l = MaxPoolLayer::empty();
    check!(l.fill_from_state(sh(3, 2, 1), sh(1, 2, 1), 2, &nm("old")).is_ok(), 1, "a fitting layer was refused");
    set_mode(&mut l, training);
    let before = show(&l);
    let fit = positions(ins.di, w.di, st).is_some() && positions(ins.dj, w.dj, st).is_some();
    let r = l.fill_from_state(ins, w, st, &nm("new"));
    check!(r.is_ok() == fit, 2, "accepts exactly the parts that fit");
    check!(MaxPoolLayer::new(w, ins, st, &nm("x")).is_ok() == fit, 3, "building and refilling disagree");
    if r.is_ok() {
        check!(shape_eq(&l.get_input_shape(), &ins), 4, "announced input shape");
        let want = sh(positions(ins.di, w.di, st).unwrap_or(0), positions(ins.dj, w.dj, st).unwrap_or(0), ins.dk);
        check!(shape_eq(&l.get_output_shape(), &want), 5, "announced output shape");
        check!(l.get_name() == "new", 6, "name");
        check!((l.get_run_mode() == NetworkRunState::Training) == training, 7, "refilling changed the run mode");
        runs_few(&mut l, 10);
    } else {
        check!(same_opt(&before, &show(&l)), 8, "a refused refill changed the layer");
        runs_few(&mut l, 20);
    }
    cover(fit, 1);
    cover(not(fit), 2);
}
/// Any 32-bit sizes (no tensors are allocated in inference mode).
fn l01_pool_sizes() {
    pool_sizes(u32::MAX);
}
fn l01_pool_sizes_small() {
    pool_sizes(by_tier(15, 63));
}
fn l01_conv_sizes() {
    conv_sizes(u32::MAX);
}
fn l01_conv_sizes_small() {
    conv_sizes(by_tier(15, 63));
}
fn l01_soft() {
    precise();
    let s = sh(u32s(0, u32::MAX), u32s(0, u32::MAX), u32s(1, u32::MAX));
    let r = SoftmaxLayer::new(s, &nm("s"));
    check!(r.is_ok() == fits32(&s), 1, "accepts exactly the representable shapes");
    cover(r.is_ok(), 1);
    cover(r.is_err(), 2);
}
fn l01_new() {
    precise();
    let kind = pick(0, 2);
    let (a, b, c, d, e, s) = (pick(1, 3), pick(1, 3), pick(1, 2), pick(1, 3), pick(1, 2), pick(1, 2));
    assume(kind != 0 || c == 1 && d == 1 && e == 1 && s == 1);
    shard();
    match kind {
        0 => {
            let mut l = FullyConnectedLayer::new(a, b, &nm("n"));
            check!(and(shape_eq(&l.get_input_shape(), &sh(a, 1, 1)), shape_eq(&l.get_output_shape(), &sh(b, 1, 1))), 1, "announced shapes");
            check!(and(l.get_name() == "n", l.get_run_mode() == NetworkRunState::Inference), 2, "name and mode");
            runs(&mut l, 10);
        }
        1 => {
            let r = ConvolutionalLayer::new(sh(c, d, e), sh(a, b, e), s, c, &nm("n"));
            check!(r.is_ok() == (positions(a, c, s).is_some() && positions(b, d, s).is_some()), 3, "accepts exactly the parts that fit");
            if let Ok(mut l) = r {
                check!(shape_eq(&l.get_output_shape(), &sh((a - c) / s + 1, (b - d) / s + 1, c)), 4, "announced shapes");
                runs(&mut l, 20);
            }
        }
        _ => {
            let r = MaxPoolLayer::new(sh(c, d, 1), sh(a, b, e), s, &nm("n"));
            check!(r.is_ok() == (positions(a, c, s).is_some() && positions(b, d, s).is_some()), 5, "accepts exactly the parts that fit");
            if let Ok(mut l) = r {
                check!(shape_eq(&l.get_output_shape(), &sh((a - c) / s + 1, (b - d) / s + 1, e)), 6, "announced shapes");
                runs(&mut l, 30);
            }
        }
    }
}
// ---------------------------------------------------------------- L02
fn l02_modes() {
    exact();
    let kind = pick(0, 3);
    let b = any_spec(kind, &mut m9());
    let steps = pick(0, by_tier(3, 5));
    let l = &mut *b.build("m");
    let mut seq = vec![];
    for _ in 0..steps {
        seq.push(pick_bool());
    }
    shard();
    let x = ints(b.ins(), 9);
    let mut first = ints(b.outs(), 9);
    check!(run(l, &x, &mut first), 1, "inference failed");
    for training in seq {
        set_mode(l, training);
        check!(and(shape_eq(&l.get_input_shape(), &b.ins()), shape_eq(&l.get_output_shape(), &b.outs())), 2, "switching changed the shapes");
        check!((l.get_run_mode() == NetworkRunState::Training) == training, 3, "the reported mode");
        let mut y = ints(b.outs(), 9);
        check!(run(l, &x, &mut y), 4, "forward failed");
        for (i, j, k) in each(b.outs()) {
            check!(close(at(&y, i, j, k), at(&first, i, j, k)), 5, "the result depends on the mode");
        }
    }
    check!(all_same(&params_of(l), &b.params()), 6, "switching changed the parameters");
}
fn l02_bits() {
    precise();
    let kind = pick(0, 3);
    let b = match kind {
        0 => fc_spec(1, pick(1, 2), 1, &mut fbits),
        1 => conv_spec((1, 1), (pick(1, 2), 1), 1, pick(1, 2), 1, &mut fbits),
        2 => pool_spec((pick(1, 2), pick(1, 2)), (2, 1), 1, pick(1, 2)),
        _ => Spec::Soft(sh(pick(1, 2), 1, 1)),
    };
    shard();
    let x = anybits(b.ins());
    for (i, j, k) in each(b.ins()) {
        assume(at(&x, i, j, k).is_finite());
    }
    for p in b.params() {
        for (i, j, k) in each(p.get_shape()) {
            assume(at(&p, i, j, k).is_finite());
        }
    }
    let l = &mut *b.build("m");
    let (mut y, mut z) = (anybits(b.outs()), anybits(b.outs()));
    check!(run(l, &x, &mut y), 1, "inference failed");
    l.switch_to_training();
    check!(run(l, &x, &mut z), 2, "training failed");
    for (i, j, k) in each(b.outs()) {
        let (p, q) = (at(&y, i, j, k), at(&z, i, j, k));
        check!(or(p == q, and(p.is_nan(), q.is_nan())), 3, "the result depends on the mode");
    }
    check!(shape_eq(&l.get_output_shape(), &b.outs()), 4, "shapes");
    for (p, q) in params_of(l).iter().zip(b.params().iter()) {
        check!(untouched_bits(p, q), 5, "the parameters changed");
    }
}
// ---------------------------------------------------------------- L03, L04
fn l03_dense() {
    exact();
    let trained = pick_bool();
    let b = picked_fc(&mut m9());
    shard();
    dense(&b, 1, trained);
}
fn l03_fill() {
    exact();
    let (n, m) = (pick(1, 3), pick(1, 3));
    let trained = pick_bool();
    shard();
    let (w, c) = (fint(-9, 9), fint(-9, 9));
    let mut l = FullyConnectedLayer::new(n, m, &nm("f"));
    set_mode(&mut l, trained);
    l.fill_weights_with_value(w);
    l.fill_bias_with_value(c);
    let x = ints(sh(n, 1, 1), 9);
    let mut y = ints(sh(m, 1, 1), 9);
    check!(run(&mut l, &x, &mut y), 1, "the call failed");
    let mut t = vec![c];
    for i in 0..n {
        t.push(w * at(&x, i, 0, 0));
    }
    for i in 0..m {
        check!(at(&y, i, 0, 0) == relu(total(&t)), 2, "output value");
    }
}
fn l04_conv() {
    exact();
    let trained = pick_bool();
    let b = picked_conv(&mut m9());
    shard();
    dense(&b, 1, trained);
}
// ---------------------------------------------------------------- L05, L06
fn l05_outgoing() {
    exact();
    let b = picked_fc(&mut m9());
    let extra = pick(0, 3);
    shard();
    outgoing(&b, extra, 1);
}
fn l06_outgoing() {
    exact();
    let t = by_tier(1, 2);
    let b = conv_spec((pick(1, 2), pick(1, 2)), (pick(1, 2), pick(1, t)), pick(1, t), pick(1, 2), pick(1, 2), &mut m9());
    let extra = pick(0, 3);
    shard();
    outgoing(&b, extra, 1);
}
/// Backward is refused in inference mode and changes no parameters in any mode.
fn l05_refuse() {
    exact();
    let b = picked_fc(&mut m9());
    shard();
    refused(&b, 1);
}
fn l06_refuse() {
    exact();
    let b = conv_spec((pick(1, 2), 1), (pick(1, 2), 1), pick(1, 2), pick(1, 2), 1, &mut m9());
    shard();
    refused(&b, 1);
}
// ---------------------------------------------------------------- L07
fn l07_routes() {
    exact();
    let t = by_tier(2, 3);
    let b = pool_spec((pick(1, t), pick(1, 2)), (pick(1, t), pick(1, 2)), pick(1, 2), pick(1, 2));
    let extra = pick(0, 3);
    shard();
    let l = &mut *b.build("p");
    l.switch_to_training();
    let (i, o) = (b.ins(), b.outs());
    if extra == 1 {
        // an earlier pass must not show
        let (x0, g0) = (ints(i, 9), ints(o, 9));
        let (mut y0, mut h0) = (ints(o, 9), ints(i, 9));
        check!(run(l, &x0, &mut y0), 1, "forward failed");
        check!(l.backward(&x0, &y0, &g0, &mut h0).is_ok(), 2, "backward failed");
    }
    let x = ints(i, 99);
    let mut y = ints(o, 9);
    check!(run(l, &x, &mut y), 3, "forward failed");
    if extra == 2 {
        l.clear_gradients();
    }
    let g = ints(o, 9);
    let mut h = ints(i, 9);
    check!(l.backward(&x, &y, &g, &mut h).is_ok(), 4, "backward failed");
    if extra == 3 {
        h = ints(i, 9);
        check!(l.backward(&x, &y, &g, &mut h).is_ok(), 5, "the second backward pass failed");
    }
    let Spec::Pool(_, w, st) = b else { return };
    // Each gradient lands on a position that holds the largest element of its window.  With ties
    // any of them may receive it, so the sums are compared wherever the maxima are unique.
    let (mut all_in, mut all_out) = (vec![], vec![]);
    let mut unique = true;
    let mut want = vec![];
    for (a, q, c) in each(o) {
        all_in.push(at(&g, a, q, c));
        let cells = each(sh(w.di, w.dj, 1));
        for (n, &(p, r, _)) in cells.iter().enumerate() {
            let v = at(&x, a * st + p, q * st + r, c);
            let mut largest = true;
            for (n2, &(p2, r2, _)) in cells.iter().enumerate() {
                let v2 = at(&x, a * st + p2, q * st + r2, c);
                largest = and(largest, v >= v2);
                if n2 < n {
                    unique = and(unique, v != v2);
                }
            }
            want.push(((a * st + p, q * st + r, c), largest, at(&g, a, q, c)));
        }
    }
    for (a, q, c) in each(i) {
        all_out.push(at(&h, a, q, c));
        let mut s = vec![];
        let mut any = false;
        for (pos, largest, v) in &want {
            if *pos == (a, q, c) {
                s.push(ite(*largest, *v, 0.0));
                any = or(any, *largest);
            }
        }
        check!(imp(unique, at(&h, a, q, c) == total(&s)), 6, "gradient at a position");
        check!(imp(not(any), at(&h, a, q, c) == 0.0), 7, "a position that is no maximum got a gradient");
        obs_f(at(&h, a, q, c));
    }
    if w.di * w.dj * all_in.len() as u32 <= 8 {
        check!(total(&all_in) == total(&all_out), 8, "the total gradient is not preserved");
    }
    cover(unique, 1);
    cover(not(unique), 2);
}
// ---------------------------------------------------------------- L08
fn l08_derivative() {
    exact();
    let s = match pick(0, 5) { 0 => sh(1, 1, 1), 1 => sh(2, 1, 1), 2 => sh(1, 2, 1), 3 => sh(1, 1, 2), 4 => sh(3, 1, 1), _ => sh(2, 2, by_tier(1, 2)) };
    let again = pick_bool();
    shard();
    let mut l = SoftmaxLayer::new(s, &nm("s")).unwrap();
    let (x, g) = (ints(s, 9), ints(s, 9));
    let y = ints(s, 9);
    let mut h = ints(s, 9);
    let h0 = h.clone();
    check!(l.backward(&x, &y, &g, &mut h).is_err(), 1, "backward is not refused in inference mode");
    check!(untouched(&h, &h0), 2, "a refused backward changed the outgoing gradient");
    l.switch_to_training();
    if again {
        check!(l.backward(&y, &x, &y, &mut h).is_ok(), 3, "backward failed");
    }
    check!(l.backward(&x, &y, &g, &mut h).is_ok(), 4, "backward failed");
    for (i, j, k) in each(s) {
        let mut t = vec![];
        for (a, b, c) in each(s) {
            t.push(at(&g, a, b, c) * at(&y, a, b, c));
        }
        let want = at(&y, i, j, k) * (at(&g, i, j, k) - total(&t));
        check!(at(&h, i, j, k) == want, 5, "gradient of an element");
        obs_f(at(&h, i, j, k));
    }
}
/// With the layer's own forward result.
fn l08_forward_backward() {
    exact();
    let s = match pick(0, 3) { 0 => sh(2, 1, 1), 1 => sh(1, 2, 1), 2 => sh(1, 1, 2), _ => sh(by_tier(2, 3), 1, 1) };
    shard();
    let mut l = SoftmaxLayer::new(s, &nm("s")).unwrap();
    l.switch_to_training();
    let (x, g) = (ints(s, 4), ints(s, 4));
    let (mut y, mut h) = (ints(s, 4), ints(s, 4));
    check!(run(&mut l, &x, &mut y), 1, "forward failed");
    let y0 = y.clone();
    check!(l.backward(&x, &y, &g, &mut h).is_ok(), 2, "backward failed");
    check!(untouched(&y, &y0), 3, "backward changed the output");
    // a softmax gradient sums to zero
    let mut t = vec![];
    for (i, j, k) in each(s) {
        t.push(at(&h, i, j, k));
    }
    check!((total(&t) < 0.01) & (total(&t) > -0.01), 4, "the gradients of a distribution do not cancel");
}
}

fn direction(i: u32, w: u32, st: u32) -> bool {
    and(and(w >= 1, w <= i), i.wrapping_sub(w).checked_rem(st) == Some(0))
}
fn pool_sizes(m: u32) {
    precise();
    let ins = sh(u32s(0, m), u32s(0, m), u32s(1, m));
    let w = sh(u32s(0, m), u32s(0, m), 1);
    let st = u32s(0, m);
    let r = MaxPoolLayer::new(w, ins, st, &nm("p"));
    let fit = and(st > 0, and(direction(ins.di, w.di, st), direction(ins.dj, w.dj, st)));
    check!(r.is_ok() == and(fit, fits32(&ins)), 1, "accepts exactly the parts that fit");
    cover(r.is_ok(), 1);
    cover(r.is_err(), 2);
}
fn conv_sizes(m: u32) {
    precise();
    let (a, b, n) = (pick(1, 2), pick(1, 3), pick(1, 2));
    let ins = sh(u32s(0, m), u32s(0, m), 1);
    let st = u32s(0, m);
    let mut l = ConvolutionalLayer::empty();
    let kernels = (0..n).map(|_| Tensor::new(sh(a, b, 1))).collect();
    let biases = (0..n).map(|_| Tensor::new(sh(1, 1, 1))).collect();
    let r = l.fill_from_state(kernels, biases, ins, st, &nm("c"));
    let fit = and(st > 0, and(direction(ins.di, a, st), direction(ins.dj, b, st)));
    if r.is_ok() {
        check!(and(fit, fits32(&ins)), 1, "accepted parts that do not fit");
        check!(shape_eq(&l.get_input_shape(), &ins), 2, "announced input shape");
    } else if m < 256 {
        // (at full width the output can be too large as well)
        check!(not(fit), 3, "refused parts that fit");
    }
    cover(r.is_ok(), 1);
    cover(r.is_err(), 2);
}
/// A forward (and, in training mode, backward) pass whose results are ignored.
fn pass(l: &mut dyn Layer, training: bool) {
    let (i, o) = (l.get_input_shape(), l.get_output_shape());
    let x = anybits(i);
    let mut y = anybits(o);
    check!(run(l, &x, &mut y), 40, "forward failed");
    if training {
        let g = anybits(o);
        let mut h = anybits(i);
        check!(l.backward(&x, &y, &g, &mut h).is_ok(), 41, "backward failed");
    }
}
/// After a refill the layer is the one described by `b`, in the mode it had.
fn after(l: &mut dyn Layer, b: &Spec, training: bool) {
    check!((l.get_run_mode() == NetworkRunState::Training) == training, 50, "the mode changed");
    check!(and(shape_eq(&l.get_input_shape(), &b.ins()), shape_eq(&l.get_output_shape(), &b.outs())), 51, "announced shapes");
    check!(all_same(&params_of(l), &b.params()), 52, "parameters");
    // behaves like a freshly built one
    let f = &mut *b.build("fresh");
    set_mode(f, training);
    let x = anybits(b.ins());
    let (mut y, mut z) = (anybits(b.outs()), anybits(b.outs()));
    check!(run(l, &x, &mut y), 53, "forward failed after a refill");
    check!(run(f, &x, &mut z), 54, "forward failed");
    check!(untouched(&y, &z), 55, "a refilled layer computes something else than a fresh one");
    if training {
        let g = anybits(b.outs());
        let (mut h, mut e) = (anybits(b.ins()), anybits(b.ins()));
        check!(l.backward(&x, &y, &g, &mut h).is_ok(), 56, "backward failed after a refill");
        check!(f.backward(&x, &z, &g, &mut e).is_ok(), 57, "backward failed");
        check!(untouched(&h, &e), 58, "a refilled layer propagates something else than a fresh one");
    }
}
/// The gradient handed on by a rectified linear layer.
fn outgoing(b: &Spec, extra: u32, base: u32) {
    let l = &mut *b.build("l");
    l.switch_to_training();
    let (i, o) = (b.ins(), b.outs());
    if extra == 1 {
        let (x0, g0) = (ints(i, 9), ints(o, 9));
        let (mut y0, mut h0) = (ints(o, 9), ints(i, 9));
        check!(run(l, &x0, &mut y0), base, "forward failed");
        check!(l.backward(&x0, &y0, &g0, &mut h0).is_ok(), base + 1, "backward failed");
    }
    let x = ints(i, 9);
    let mut y = ints(o, 9);
    check!(run(l, &x, &mut y), base + 2, "forward failed");
    if extra == 2 {
        l.clear_gradients();
    }
    let g = ints(o, 9);
    let mut h = ints(i, 9);
    let (x0, g0, y0) = (x.clone(), g.clone(), y.clone());
    check!(l.backward(&x, &y, &g, &mut h).is_ok(), base + 3, "backward failed");
    if extra == 3 {
        h = ints(i, 9);
        check!(l.backward(&x, &y, &g, &mut h).is_ok(), base + 4, "the second backward pass failed");
    }
    check!(and(untouched(&x, &x0), and(untouched(&g, &g0), untouched(&y, &y0))), base + 5, "an operand changed");
    check!(all_same(&params_of(l), &b.params()), base + 6, "backpropagation changed the parameters");
    for (p, q, r) in each(i) {
        let mut t = vec![];
        for (a, e, c) in each(o) {
            let m = ite(b.pre(&x, a, e, c) > 0.0, 1.0, 0.0) * at(&g, a, e, c);
            match b {
                Spec::Fc(w, _) => {
                    if c == r {
                        t.push(m * at(w, a, p, c));
                    }
                }
                Spec::Conv(k, _, _, st) => {
                    let ks = k[c as usize].get_shape();
                    for (ka, kb, _) in each(sh(ks.di, ks.dj, 1)) {
                        if a * st + ka == p && e * st + kb == q {
                            t.push(m * at(&k[c as usize], ka, kb, r));
                        }
                    }
                }
                _ => {}
            }
        }
        check!(at(&h, p, q, r) == total(&t), base + 7, "gradient handed on");
        obs_f(at(&h, p, q, r));
    }
}
fn refused(b: &Spec, base: u32) {
    let l = &mut *b.build("l");
    let (i, o) = (b.ins(), b.outs());
    if pick_bool() {
        l.switch_to_training();
        l.switch_to_inference();
    }
    let x = ints(i, 9);
    let mut y = ints(o, 9);
    check!(run(l, &x, &mut y), base, "forward failed");
    let g = ints(o, 9);
    let mut h = ints(i, 9);
    let h0 = h.clone();
    check!(l.backward(&x, &y, &g, &mut h).is_err(), base + 1, "backward is not refused in inference mode");
    check!(untouched(&h, &h0), base + 2, "a refused backward changed the outgoing gradient");
    check!(all_same(&params_of(l), &b.params()), base + 3, "a refused backward changed the parameters");
}
