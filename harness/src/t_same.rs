//! The same thing twice: one tensor as both operands, one function called again with slightly
//! different arguments (what a call remembers must not reach the next), files with similar names,
//! and files of more than a mebibyte.
use crate::lay::*;
use crate::sx::*;
use crate::t_file::*;
use crate::t_more::likeness;
use crate::t_net::*;
use rusty_network::layer::convolutional::*;
use rusty_network::layer::max_pool::*;
use rusty_network::layer::Layer;
use rusty_network::network::*;
use rusty_network::tensor::helper::*;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

/// A product in one of its four forms, and every element of it by definition.
fn product(form: u32, a: &Tensor, b: &Tensor, bias: &Tensor, id: u32) {
    let (s1, s2) = (a.get_shape(), b.get_shape());
    let (r, n) = if form == 1 { (s1.dj, s1.di) } else { (s1.di, s1.dj) };
    let c = if form == 2 { s2.di } else { s2.dj };
    let mut o = Tensor::new(sh(r, c, s1.dk));
    let ok = match form {
        0 => {
            Tensor::matrix_multiply(a, b, &mut o);
            true
        }
        1 => Tensor::matrix_multiply_transpose_first(a, b, &mut o).is_ok(),
        2 => Tensor::matrix_multiply_transpose_second(a, b, &mut o).is_ok(),
        _ => {
            Tensor::matrix_multiply_add_relu(b, a, bias, &mut o);
            true
        }
    };
    check!(ok, id, "a compatible product was refused");
    for (i, j, k) in each(sh(r, c, s1.dk)) {
        let mut t = vec![];
        for l in 0..n {
            let x = if form == 1 { at(a, l, i, k) } else { at(a, i, l, k) };
            let y = if form == 2 { at(b, j, l, k) } else { at(b, l, j, k) };
            t.push(x * y);
        }
        if form == 3 {
            t.push(at(bias, i, j, k));
        }
        let s = total(&t);
        check!(at(&o, i, j, k) == if form == 3 { relu(s) } else { s }, id + 1, "product element");
    }
}
/// A convolution with its own kernels, in one of its forms, by definition.
fn convolve(form: u32, s: &Spec, x: &Tensor, g: &Tensor, id: u32) {
    let Spec::Conv(k, b, ins, st) = s else { return };
    let so = s.outs();
    let c = so.dk - 1;
    match form {
        0 | 1 => {
            let f = if form == 1 { convolution_bias_relu } else { convolution_bias };
            let mut o = Tensor::new(so);
            check!(f(x, &k[c as usize], &b[c as usize], *st, &mut o, c).is_ok(), id, "a fitting convolution was refused");
            for (i, j, _) in each(sh(so.di, so.dj, 1)) {
                let v = s.pre(x, i, j, c);
                check!(at(&o, i, j, c) == if form == 1 { relu(v) } else { v }, id + 1, "convolution element");
            }
        }
        2 => {
            let mut h = Tensor::new(*ins);
            check!(convolution_backprop_outgoing_gradient(g, k, *st, &mut h).is_ok(), id, "a fitting convolution was refused");
            for (i, j, d) in each(*ins) {
                let mut t = vec![];
                for (p, q, c) in each(so) {
                    let w = k[c as usize].get_shape();
                    if i >= p * st && i < p * st + w.di && j >= q * st && j < q * st + w.dj {
                        t.push(at(&k[c as usize], i - p * st, j - q * st, d) * at(g, p, q, c));
                    }
                }
                check!(at(&h, i, j, d) == total(&t), id + 2, "input gradient element");
            }
        }
        _ => {
            let w = k[0].get_shape();
            let mut h = Tensor::new(w);
            check!(convolution_backprop_kernel(g, x, *st, c, &mut h).is_ok(), id, "a fitting convolution was refused");
            for (i, j, d) in each(w) {
                let mut t = vec![];
                for (p, q, _) in each(sh(so.di, so.dj, 1)) {
                    t.push(at(x, p * st + i, q * st + j, d) * at(g, p, q, c));
                }
                check!(at(&h, i, j, d) == total(&t), id + 3, "kernel gradient element");
            }
        }
    }
}
fn pooled(x: &Tensor, mask: &TensorShape, st: u32, so: TensorShape, track: bool, id: u32) {
    let mut o = Tensor::new(so);
    let mut origin = vec![0; so.total_size() as usize];
    if track {
        check!(Tensor::max_pool_track_origin(x, mask, st, &mut o, &mut origin).is_ok(), id, "a fitting configuration was refused");
    } else {
        Tensor::max_pool(x, mask, st, &mut o);
    }
    for (i, j, k) in each(so) {
        let v = at(&o, i, j, k);
        let (mut found, mut largest, mut good) = (false, true, not(track));
        for (c, d, _) in each(sh(mask.di, mask.dj, 1)) {
            let w = at(x, i * st + c, j * st + d, k);
            found = or(found, w == v);
            largest = and(largest, w <= v);
            if track {
                good = or(good, and(origin[o.get_data_index(&ix(i, j, k)) as usize] == x.get_data_index(&ix(i * st + c, j * st + d, k)), w == v));
            }
        }
        check!(and(found, largest), id + 1, "window maximum");
        check!(good, id + 2, "origin of the maximum");
    }
}
/// image, window, stride of layers that have much in common
const NEAR: [((u32, u32), (u32, u32), u32); 8] = [
    ((3, 3), (1, 1), 1), ((3, 3), (1, 1), 2), ((3, 3), (1, 3), 1), ((3, 3), (3, 1), 1), ((3, 3), (3, 1), 2), ((3, 3), (2, 2), 1), ((5, 3), (1, 1), 2), ((3, 5), (1, 1), 2),
];
const STEMS: [&str; 9] = ["net", "net.bin", "net.tmp", "net.bin.tmp", "net.bak", "net~", " net.bin", "net.bin ", ".net.bin"];
/// Fixed numbers with a few arbitrary ones: big enough to pass any buffer.
fn big(s: TensorShape) -> Tensor {
    let n = s.total_size();
    let mut v: Vec<f32> = (0..n).map(|q| q as f32).collect();
    for q in [0, 1, n / 2, n - 2, n - 1] {
        v[q as usize] = fbits();
    }
    let mut t = Tensor::new(s);
    check!(t.fill_with_vec(v).is_ok(), 900, "filling failed");
    t
}
fn same_big(a: &Tensor, b: &Tensor, id: u32) {
    check!(shape_eq(&a.get_shape(), &b.get_shape()), id, "the shapes differ");
    let mut ok = true;
    for (i, j, k) in each(a.get_shape()) {
        ok = and(ok, bits_eq(at(a, i, j, k), at(b, i, j, k)));
    }
    check!(ok, id + 1, "an element differs");
}
/// Tensor functions called again with arguments that have much in common, against the definition.
fn functions(lo: u32, hi: u32) {
    exact();
    let op = pick(lo, hi);
    let like = pick(0, 5);
    let keep = pick(0, 2);
    let big = pick_bool();
    assume(op != 10 || (keep == 0 && !big));
    shard();
    let mut f = || fint(-3, 3);
    let other = |t: &Tensor| if like == 5 { make(t.get_shape(), &mut || fint(-3, 3)) } else { likeness(t, like, &mut || fint(-3, 3)) };
    if op < 4 {
        let (r, n, c) = if big { (2, 2, 1) } else { (1, 1, 1) };
        let (s1, s2) = match op {
            1 => (sh(n, r, 1), sh(n, c, 1)),
            2 => (sh(r, n, 1), sh(c, n, 1)),
            _ => (sh(r, n, 1), sh(n, c, 1)),
        };
        let (a, b, bias) = (make(s1, &mut f), make(s2, &mut f), make(sh(r, c, 1), &mut f));
        let (a2, b2) = (if keep == 0 { a.clone() } else { other(&a) }, if keep == 1 { b.clone() } else { other(&b) });
        let bias2 = if keep == 2 { bias.clone() } else { other(&bias) };
        product(op, &a, &b, &bias, 10);
        product(op, &a2, &b2, &bias2, 20);
        product(op, &a, &b, &bias, 10);
    } else if op < 8 {
        let s = if big { conv_spec((2, 1), (2, 1), 1, 1, 1, &mut f) } else { conv_spec((1, 1), (1, 1), 1, 2, 1, &mut f) };
        let Spec::Conv(k, b, ins, st) = &s else { return };
        let (x, g) = (make(*ins, &mut f), make(s.outs(), &mut f));
        let (k2, b2) = (k.iter().map(|t| if keep == 0 { t.clone() } else { other(t) }).collect(), b.iter().map(other).collect());
        let (x2, g2) = (if keep == 1 { x.clone() } else { other(&x) }, if keep == 2 { g.clone() } else { other(&g) });
        let z = Spec::Conv(k2, b2, *ins, *st);
        convolve(op - 4, &s, &x, &g, 30);
        convolve(op - 4, &z, &x2, &g2, 40);
        convolve(op - 4, &s, &x, &g, 30);
    } else if op < 10 {
        let s = if big { sh(3, 1, 1) } else { sh(2, 1, 1) };
        let x = make(s, &mut f);
        let y = other(&x);
        for t in [&x, &y, &x] {
            pooled(t, &sh(2, 1, 1), 1, sh(s.di - 1, 1, 1), op == 9, 50);
        }
    } else {
        let x = make(sh(2, 1, 1), &mut f);
        let y = other(&x);
        for t in [&x, &y, &x] {
            let mut o = Tensor::new(t.get_shape());
            check!(o.get_shape() == t.get_shape(), 1, "shape");
            Tensor::softmax(t, &mut o);
            let mut v = vec![];
            for (i, j, k) in each(t.get_shape()) {
                v.push(at(&o, i, j, k));
                for (p, q, r) in each(t.get_shape()) {
                    let (a, b) = (at(t, i, j, k), at(t, p, q, r));
                    check!(close(at(&o, i, j, k) * b.exp(), at(&o, p, q, r) * a.exp()), 2, "proportional to the exponentials");
                }
            }
            check!(close(total(&v), 1.0), 3, "the elements sum to one");
        }
    }
}

harnesses! {
fn t03_same() {
    precise();
    let s = [sh(1, 1, 1), sh(2, 1, 1), sh(2, 2, 2), sh(9, 1, 1), sh(3, 3, 2)][pick(0, 4) as usize];
    let op = pick(0, 1);
    shard();
    let a = anybits(s);
    let a0 = a.clone();
    let mut o = anybits(s);
    match op {
        0 => Tensor::add(&a, &a, &mut o),
        _ => Tensor::multiply_elementwise(&a, &a, &mut o),
    }
    for (i, j, k) in each(s) {
        let x = at(&a0, i, j, k);
        check!(same(at(&o, i, j, k), if op == 0 { x + x } else { x * x }), 1, "element result");
    }
    check!(untouched_bits(&a, &a0), 2, "an operand changed");
}
/// A matrix and itself.
fn t04_same() {
    exact();
    let (r, n, d) = (pick(1, 3), pick(1, 3), pick(1, 2));
    let form = pick(0, 3);
    assume(form == 1 || form == 2 || r == n);
    let equal = pick_bool();
    shard();
    let a = ints(sh(r, n, d), 31);
    let b = a.clone();
    product(form, &a, if equal { &a } else { &b }, &a, 1);
    check!(untouched(&a, &b), 3, "an operand changed");
}
/// An image that is its own kernel, bias or gradient.
fn t07_same() {
    exact();
    let s = [sh(1, 1, 1), sh(2, 1, 1), sh(2, 2, 2), sh(1, 3, 1)][pick(0, 3) as usize];
    let relu_form = pick_bool();
    let st = pick(1, 2);
    shard();
    let a = ints(s, 31);
    let b = if s.total_size() == 1 { a.clone() } else { ints(sh(1, 1, 1), 31) };
    let bias = if s.total_size() == 1 { &a } else { &b };
    let mut o = ints(sh(1, 1, 1), 31);
    let f = if relu_form { convolution_bias_relu } else { convolution_bias };
    check!(f(&a, &a, bias, st, &mut o, 0).is_ok(), 1, "a fitting convolution was refused");
    let mut t = vec![at(&b, 0, 0, 0)];
    for (i, j, k) in each(s) {
        t.push(at(&a, i, j, k) * at(&a, i, j, k));
    }
    let v = total(&t);
    check!(at(&o, 0, 0, 0) == if relu_form { relu(v) } else { v }, 2, "convolution element");
}
fn t09_same() {
    exact();
    let s = [sh(1, 1, 1), sh(2, 1, 1), sh(2, 2, 2), sh(1, 3, 1)][pick(0, 3) as usize];
    let c = pick(0, s.dk - 1);
    shard();
    let a = ints(s, 31);
    let mut h = ints(sh(1, 1, s.dk), 31);
    check!(convolution_backprop_kernel(&a, &a, 1, c, &mut h).is_ok(), 1, "a fitting convolution was refused");
    for k in 0..s.dk {
        let t: Vec<f32> = each(sh(s.di, s.dj, 1)).iter().map(|(i, j, _)| at(&a, *i, *j, k) * at(&a, *i, *j, c)).collect();
        check!(at(&h, 0, 0, k) == total(&t), 2, "kernel gradient element");
    }
}
/// The fitting checks, asked twice with arguments that have much in common.
fn t17_twice() {
    precise();
    let m = by_tier(4, 12);
    let what = pick(0, 3);
    // which part of the question is a new one
    let new = pick(0, 5);
    shard();
    let mut q = vec![];
    for _ in 0..11 {
        q.push(u32s(0, m));
    }
    let p = q.clone();
    let range: std::ops::Range<usize> = [0..3, 3..6, 6..7, 7..10, 10..11, 0..11][new as usize].clone();
    for z in range {
        q[z] = u32s(0, m);
    }
    for v in [&p, &q, &p] {
        let (image, window, st, out, ch) = (sh(v[0], v[1], v[2]), sh(v[3], v[4], v[5]), v[6], sh(v[7], v[8], v[9]), v[10]);
        let sane = and(st > 0, and(and(window.di >= 1, window.dj >= 1), and(window.di <= image.di, window.dj <= image.dj)));
        match what {
            0 => {
                let got = Tensor::does_kernel_stride_fit_image(&image, &window, st);
                if sane {
                    check!(got == and((image.di - window.di) % st == 0, (image.dj - window.dj) % st == 0), 1, "does_kernel_stride_fit_image answers wrongly");
                } else {
                    check!(not(got), 2, "an impossible window was accepted");
                }
            }
            1 => {
                assume(sane);
                assume(and((image.di - window.di) % st == 0, (image.dj - window.dj) % st == 0));
                let (x, y) = Tensor::get_convolution_dim_fit(&image, &window, st);
                check!(and(x == (image.di - window.di) / st + 1, y == (image.dj - window.dj) / st + 1), 3, "number of window positions");
            }
            _ => {
                let got = if what == 2 { check_convolution_dimensions(&image, &window, st, &out, ch).is_ok() } else { Tensor::check_max_pooling_dimensions(&image, &window, st, &out) };
                let depth = if what == 2 { and(image.dk == window.dk, ch < out.dk) } else { image.dk == out.dk };
                if and(sane, depth) {
                    let tiles = and((image.di - window.di) % st == 0, (image.dj - window.dj) % st == 0);
                    let size = and(out.di == (image.di - window.di) / st + 1, out.dj == (image.dj - window.dj) / st + 1);
                    check!(got == and(tiles, size), 4, "a shape check answers wrongly");
                } else {
                    check!(not(got), 5, "an impossible combination was accepted");
                }
            }
        }
    }
}
fn n12_products() {
    functions(0, 3);
}
fn n12_convolutions() {
    functions(4, 7);
}
fn n12_pools() {
    functions(8, 9);
}
fn n12_softmaxes() {
    functions(10, 10);
}
/// Layers that share their image or their window, built and run by turns.
fn n12_sizes() {
    exact();
    let (a, b) = (pick(0, 7) as usize, pick(0, 7) as usize);
    let conv = pick_bool();
    let training = pick_bool();
    let built_first = pick_bool();
    assume(a != b);
    shard();
    let make_one = |q: usize| {
        let (i, w, st) = NEAR[q];
        if conv {
            let k = vec![make(sh(w.0, w.1, 1), &mut || fint(-3, 3))];
            Spec::Conv(k, vec![Tensor::new(sh(1, 1, 1))], sh(i.0, i.1, 1), st)
        } else {
            Spec::Pool(sh(i.0, i.1, 1), sh(w.0, w.1, 1), st)
        }
    };
    let specs = [make_one(a), make_one(b)];
    let create = |s: &Spec| -> Box<dyn Layer> {
        let l: Option<Box<dyn Layer>> = match s {
            Spec::Conv(k, c, i, st) => {
                let mut l = ConvolutionalLayer::empty();
                if l.fill_from_state(k.clone(), c.clone(), *i, *st, &nm("l")).is_ok() { Some(Box::new(l)) } else { None }
            }
            Spec::Pool(i, m, st) => match MaxPoolLayer::new(*m, *i, *st, &nm("l")) {
                Ok(l) => Some(Box::new(l)),
                Err(_) => None,
            },
            _ => None,
        };
        check!(l.is_some(), 1, "a fitting configuration was refused");
        l.unwrap()
    };
    let mut layers: Vec<Box<dyn Layer>> = vec![];
    if built_first {
        layers = specs.iter().map(create).collect();
    }
    for q in 0..2 {
        if !built_first {
            layers.push(create(&specs[q]));
        }
        let (s, l) = (&specs[q], &mut layers[q]);
        check!(and(shape_eq(&l.get_input_shape(), &s.ins()), shape_eq(&l.get_output_shape(), &s.outs())), 2, "a layer announces another layer's shapes");
        set_mode(&mut **l, training);
        // numbers that differ everywhere; one of them is arbitrary
        let mut n = 0.0;
        let x = make(s.ins(), &mut || {
            n += 1.0;
            if n == 5.0 { fint(-3, 3) } else { n }
        });
        let mut y = Tensor::new(s.outs());
        check!(l.forward(&x, &mut y).is_ok(), 3, "forward failed");
        for (i, j, k) in each(s.outs()) {
            match s {
                Spec::Pool(_, m, st) => {
                    let mut v = at(&x, i * st, j * st, k);
                    for (c, d, _) in each(sh(m.di, m.dj, 1)) {
                        let w = at(&x, i * st + c, j * st + d, k);
                        v = ite(w > v, w, v);
                    }
                    check!(at(&y, i, j, k) == v, 4, "a result depends on another layer");
                }
                _ => check!(at(&y, i, j, k) == relu(s.pre(&x, i, j, k)), 5, "a result depends on another layer"),
            }
        }
        let mut h = Tensor::new(s.ins());
        if training {
            check!(l.backward(&x, &y, &make(s.outs(), &mut || 1.0), &mut h).is_ok(), 6, "backward failed");
        }
    }
}
/// Two networks in files with similar names.
fn n12_stems() {
    precise();
    let (a, b) = (pick(0, 8) as usize, pick(0, 8) as usize);
    let again = pick_bool();
    assume(a != b);
    shard();
    let (v, w) = (chain(0, 1, &mut fbits), chain(2, 2, &mut fbits));
    let (p, q) = (network(&v, false), network(&w, true));
    check!(p.save_to_file(&nm(STEMS[a])).is_ok(), 1, "saving failed");
    check!(q.save_to_file(&nm(STEMS[b])).is_ok(), 2, "saving failed");
    if again {
        check!(q.save_to_file(&nm(STEMS[b])).is_ok(), 3, "saving failed");
    }
    for (name, v, id) in [(STEMS[a], &v, 10), (STEMS[b], &w, 20)] {
        let mut m = Network::new(NetworkRunState::Inference);
        check!(m.load_from_file(&nm(name)).is_ok(), id, "the file of a network is gone after another one was saved");
        is_made_of(&m, v, &NAMES, id + 1);
    }
}
/// Tensors in files with unusual and similar names.
fn t15_names() {
    precise();
    let (a, b) = (pick(0, 8) as usize, pick(0, 8) as usize);
    shard();
    let (x, y) = (anybits(sh(2, 1, 1)), anybits(sh(1, 2, 1)));
    check!(x.save_to_file(&nm(STEMS[a])).is_ok(), 1, "saving failed");
    check!(y.save_to_file(&nm(STEMS[b])).is_ok(), 2, "saving failed");
    for (name, t, id) in [(STEMS[b], &y, 10), (STEMS[a], if a == b { &y } else { &x }, 20)] {
        match Tensor::from_file(&nm(name)) {
            Ok(u) => check!(untouched_bits(&u, t), id, "the loaded tensor differs"),
            Err(_) => check!(false, id + 1, "loading failed"),
        }
    }
    for (q, name) in STEMS.iter().enumerate() {
        if q != a && q != b {
            check!(Tensor::from_file(&nm(name)).is_err(), 3, "a file appeared that nobody saved");
        }
    }
}
/// More than a mebibyte.
fn t15_big() {
    precise();
    let s = [sh(263000, 1, 1), sh(1, 1, 263000)][pick(0, by_tier(0, 1)) as usize];
    shard();
    let a = big(s);
    check!(a.save_to_file(&nm("big.bin")).is_ok(), 1, "saving failed");
    match Tensor::from_file(&nm("big.bin")) {
        Ok(b) => same_big(&b, &a, 2),
        Err(_) => check!(false, 4, "loading failed"),
    }
}
fn n07_big() {
    precise();
    let training = pick_bool();
    shard();
    let (w, b) = (big(sh(1, 263000, 1)), make(sh(1, 1, 1), &mut fbits));
    let mut n = Network::new(state(training));
    let v = Spec::Fc(w, b);
    check!(n.add_layer(Boxed(v.build("a"))).is_ok(), 1, "refused");
    check!(n.save_to_file(&file()).is_ok(), 2, "saving failed");
    let mut m = Network::new(NetworkRunState::Inference);
    check!(m.load_from_file(&file()).is_ok(), 3, "loading failed");
    is_made_of(&m, &[v], &NAMES, 10);
}
}
