//! Values at the edges: destinations that held anything before (NaN, infinities, subnormals),
//! a tensor compared with itself, any characters in names, any 32-bit sizes in stored layers.
use crate::lay::*;
use crate::sx::*;
use crate::t_serial::{empty, same_bits};
use rusty_network::layer::convolutional::*;
use rusty_network::layer::max_pool::*;
use rusty_network::layer::softmax::*;
use rusty_network::layer::Layer;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

fn nothing() -> f32 {
    0.0
}
fn finite() -> f32 {
    let x = fbits();
    assume((x.to_bits() >> 23) & 0xff != 0xff);
    x
}
/// A layer of every kind and its image; pooling images are few numbers.
fn subject(kind: u32) -> (Spec, Tensor) {
    let s = any_spec(kind, &mut fbits);
    let x = few_bits(s.ins());
    (s, x)
}
fn forwards(kind: u32) {
    precise();
    let training = pick_bool();
    let again = pick_bool();
    let (s, x) = subject(kind);
    shard();
    let (a, b) = (&mut *s.build("a"), &mut *s.build("b"));
    set_mode(a, training);
    set_mode(b, training);
    let (mut y, mut z) = (anybits(s.outs()), make(s.outs(), &mut nothing));
    if again {
        let w = few_bits(s.ins());
        check!(a.forward(&w, &mut y).is_ok(), 1, "forward failed");
    }
    check!(a.forward(&x, &mut y).is_ok(), 2, "forward failed");
    check!(b.forward(&x, &mut z).is_ok(), 3, "forward failed");
    check!(untouched(&y, &z), 4, "the output depends on what the tensor held before");
}
fn backwards(kind: u32) {
    precise();
    let again = pick(0, 2);
    let (s, x) = subject(kind);
    shard();
    let (a, b) = (&mut *s.build("a"), &mut *s.build("b"));
    a.switch_to_training();
    b.switch_to_training();
    let (mut y, mut z) = (anybits(s.outs()), make(s.outs(), &mut nothing));
    let (mut h, mut k) = (anybits(s.ins()), make(s.ins(), &mut nothing));
    if again > 0 {
        let w = few_bits(s.ins());
        check!(a.forward(&w, &mut y).is_ok(), 1, "forward failed");
        let g = anybits(s.outs());
        check!(a.backward(&w, &y, &g, &mut h).is_ok(), 2, "backward failed");
        if again == 2 {
            a.clear_gradients();
        }
    }
    check!(a.forward(&x, &mut y).is_ok(), 3, "forward failed");
    check!(b.forward(&x, &mut z).is_ok(), 4, "forward failed");
    let g = anybits(s.outs());
    check!(a.backward(&x, &y, &g, &mut h).is_ok(), 5, "backward failed");
    check!(b.backward(&x, &z, &g, &mut k).is_ok(), 6, "backward failed");
    check!(untouched(&h, &k), 7, "the gradient depends on what the tensor held before");
}
/// The same operation into two destinations that held different things.
fn twice(s: rusty_network::tensor::helper::TensorShape, id: u32, f: &mut dyn FnMut(&mut Tensor) -> bool) {
    let (mut a, mut b) = (anybits(s), make(s, &mut nothing));
    check!(f(&mut a), id, "a fitting operation was refused");
    check!(f(&mut b), id + 1, "a fitting operation was refused");
    check!(untouched(&a, &b), id + 2, "the result depends on what the destination held before");
}
/// Up to three characters of up to four bytes.
pub fn any_text(max: u32) -> String {
    let mut v: Vec<u8> = vec![];
    for _ in 0..pick(0, max) {
        match pick(0, 2) {
            0 => v.push(u8s(0, 127)),
            1 => v.extend([u8s(0xc2, 0xdf), u8s(0x80, 0xbf)]),
            _ => v.extend([u8s(0xe1, 0xec), u8s(0x80, 0xbf), u8s(0x80, 0xbf)]),
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn same_text(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (p, q) in a.bytes().zip(b.bytes()) {
        ok = and(ok, p == q);
    }
    ok
}
fn sizes(m: u32) {
    precise();
    let kind = pick(1, 3);
    shard();
    let mut dim = |lo: u32| u32s(lo, m);
    let a: Box<dyn Layer> = match kind {
        1 => {
            let (ins, st) = (sh(dim(1), dim(1), 1), dim(1));
            let k = vec![make(sh(1, 1, 1), &mut fbits)];
            let mut l = ConvolutionalLayer::empty();
            if l.fill_from_state(k.clone(), k, ins, st, &nm("big")).is_err() {
                return;
            }
            Box::new(l)
        }
        2 => match MaxPoolLayer::new(sh(dim(1), dim(1), 1), sh(dim(1), dim(1), dim(1)), dim(1), &nm("big")) {
            Ok(l) => Box::new(l),
            Err(_) => return,
        },
        _ => match SoftmaxLayer::new(sh(dim(1), dim(1), dim(1)), &nm("big")) {
            Ok(l) => Box::new(l),
            Err(_) => return,
        },
    };
    let mut b = empty(kind);
    let data = a.get_serialized();
    check!(b.load_from_serialized(&data).is_ok(), 1, "restoring failed");
    let (Some(x), Some(y)) = (show(&*a), show(&*b)) else {
        check!(false, 2, "a layer does not show its state");
        return;
    };
    check!(x.sizes.len() == y.sizes.len(), 3, "number of sizes");
    for (p, q) in x.sizes.iter().zip(&y.sizes) {
        check!(p == q, 4, "a size or stride differs");
    }
    check!(shape_eq(&a.get_input_shape(), &b.get_input_shape()), 5, "the input shapes differ");
    check!(shape_eq(&a.get_output_shape(), &b.get_output_shape()), 6, "the output shapes differ");
    check!(b.get_name() == "big", 7, "the names differ");
    cover(kind == 1, 1);
    cover(kind == 2, 2);
}

harnesses! {
fn t04_stale() {
    precise();
    let (r, n, c, d) = (pick(1, 2), pick(1, 2), pick(1, 2), pick(1, 2));
    let form = pick(0, 3);
    shard();
    let (s1, s2) = match form {
        1 => (sh(n, r, d), sh(n, c, d)),
        2 => (sh(r, n, d), sh(c, n, d)),
        _ => (sh(r, n, d), sh(n, c, d)),
    };
    let (a, b, bias) = (anybits(s1), anybits(s2), anybits(sh(r, c, d)));
    twice(sh(r, c, d), 1, &mut |o| match form {
        0 => {
            Tensor::matrix_multiply(&a, &b, o);
            true
        }
        1 => Tensor::matrix_multiply_transpose_first(&a, &b, o).is_ok(),
        2 => Tensor::matrix_multiply_transpose_second(&a, &b, o).is_ok(),
        _ => {
            Tensor::matrix_multiply_add_relu(&b, &a, &bias, o);
            true
        }
    });
}
/// All operations of a convolution.
fn t07_stale() {
    precise();
    let relu_form = pick_bool();
    let (s, _) = subject(1);
    shard();
    let Spec::Conv(k, b, ins, st) = &s else { return };
    let ch = k.len() as u32 - 1;
    let x = anybits(*ins);
    let f = if relu_form { convolution_bias_relu } else { convolution_bias };
    let (mut o, mut z) = (anybits(s.outs()), make(s.outs(), &mut nothing));
    let o0 = o.clone();
    for c in [ch, 0] {
        check!(f(&x, &k[c as usize], &b[c as usize], *st, &mut o, c).is_ok(), 1, "a fitting convolution was refused");
        check!(f(&x, &k[c as usize], &b[c as usize], *st, &mut z, c).is_ok(), 2, "a fitting convolution was refused");
    }
    check!(untouched(&o, &z), 3, "the result depends on what the destination held before");
    // the other channels keep their bits
    let mut p = o0.clone();
    check!(f(&x, &k[0], &b[0], *st, &mut p, 0).is_ok(), 4, "a fitting convolution was refused");
    for (i, j, c) in each(s.outs()) {
        check!(or(c == 0, bits_eq(at(&p, i, j, c), at(&o0, i, j, c))), 5, "another channel was written");
    }
}
fn t08_stale() {
    precise();
    let (s, _) = subject(1);
    shard();
    let Spec::Conv(k, _, ins, st) = &s else { return };
    let g = anybits(s.outs());
    twice(*ins, 1, &mut |o| convolution_backprop_outgoing_gradient(&g, k, *st, o).is_ok());
}
fn t09_stale() {
    precise();
    let (s, _) = subject(1);
    shard();
    let Spec::Conv(k, _, ins, st) = &s else { return };
    let (x, g) = (anybits(*ins), anybits(s.outs()));
    let ch = k.len() as u32 - 1;
    twice(k[0].get_shape(), 1, &mut |o| convolution_backprop_kernel(&g, &x, *st, ch, o).is_ok());
}
/// Small windows over any finite bits, into destinations that held anything.
fn t10_bits() {
    precise();
    let (w, p, st) = [((1, 1), (1, 1), 1), ((2, 1), (1, 1), 1), ((1, 2), (1, 1), 2), ((2, 2), (1, 1), 1), ((2, 1), (2, 1), 1), ((3, 1), (1, 1), 1), ((1, 2), (1, 2), 2), ((1, 1), (2, 2), 3)][pick(0, 7) as usize];
    shard();
    let Spec::Pool(ins, mask, _) = pool_spec(w, p, 1, st) else { return };
    let so = sh(p.0, p.1, 1);
    // what no window covers may be anything
    let mut x = anybits(ins);
    for (a, b, _) in each(ins) {
        if each(so).iter().any(|(i, j, _)| a >= i * st && a < i * st + w.0 && b >= j * st && b < j * st + w.1) {
            x.set_item(&ix(a, b, 0), finite());
        }
    }
    let (mut o1, mut o2) = (anybits(so), anybits(so));
    let mut origin: Vec<u32> = (0..so.di * so.dj).map(|_| u32s(0, u32::MAX)).collect();
    Tensor::max_pool(&x, &mask, st, &mut o1);
    check!(Tensor::max_pool_track_origin(&x, &mask, st, &mut o2, &mut origin).is_ok(), 1, "a fitting configuration was refused");
    for (i, j, k) in each(so) {
        let (a, b) = (at(&o1, i, j, k), at(&o2, i, j, k));
        check!(a == b, 2, "both forms agree");
        let org = origin[o2.get_data_index(&ix(i, j, k)) as usize];
        let (mut found, mut largest, mut good) = (false, true, false);
        for (c, d, _) in each(sh(w.0, w.1, 1)) {
            let v = at(&x, i * st + c, j * st + d, k);
            found = or(found, v == a);
            largest = and(largest, v <= a);
            good = or(good, and(org == x.get_data_index(&ix(i * st + c, j * st + d, k)), v == b));
        }
        check!(and(found, largest), 3, "window maximum");
        check!(good, 4, "origin of the maximum");
    }
}
fn t11_stale() {
    precise();
    let s = sh(pick(1, 2), pick(1, 2), pick(1, 2));
    shard();
    let x = anybits(s);
    twice(s, 1, &mut |o| {
        Tensor::softmax(&x, o);
        true
    });
}
/// A tensor compared with itself.
fn t14_self() {
    precise();
    let s = sh(pick(1, 2), pick(1, 2), pick(1, 2));
    let deep = pick_bool();
    shard();
    let a = anybits(s);
    let b = if deep { a.clone() } else { anybits(sh(1, 1, 1)) };
    let mut want = true;
    for (i, j, k) in each(s) {
        let v = at(&a, i, j, k);
        want = and(want, v == v);
    }
    let (p, q) = (&a, &a);
    check!((p == q) == want, 1, "equality with itself");
    check!((p != q) == not(want), 2, "inequality with itself");
    if deep {
        check!((a == b) == want, 3, "equality with a copy");
        check!((a != b) == not(want), 4, "inequality with a copy");
    }
    cover(want, 1);
    cover(not(want), 2);
}
fn l03_stale() {
    forwards(0);
}
fn l04_stale() {
    forwards(1);
}
fn l02_stale() {
    forwards(pick(2, 3));
}
fn l05_stale() {
    backwards(0);
}
fn l06_stale() {
    backwards(1);
}
fn l07_stale() {
    backwards(2);
}
fn l08_stale() {
    backwards(3);
}
fn l10_any_name() {
    precise();
    let kind = pick(0, 3);
    let training = pick_bool();
    let name = any_text(by_tier(2, 3));
    shard();
    let s = one_spec(kind, &mut fbits);
    let a = &mut *s.build(&name);
    check!(same_text(&a.get_name(), &name), 1, "the layer has another name");
    let b = &mut *empty(kind);
    set_mode(b, training);
    check!(b.load_from_serialized(&a.get_serialized()).is_ok(), 2, "restoring failed");
    check!(same_text(&b.get_name(), &name), 3, "the restored layer has another name");
    check!(same_text(&a.get_name(), &name), 4, "serializing changed the name");
    let (Some(mut x), Some(mut y)) = (show(a), show(b)) else {
        check!(false, 5, "a layer does not show its state");
        return;
    };
    check!(same_text(&x.name, &y.name), 6, "the stored names differ");
    x.name.clear();
    y.name.clear();
    check!(same_bits(&Some(x), &Some(y)), 7, "the restored layer differs");
}
/// Layers of any 32-bit sizes and strides, which need no memory before they run.
fn l10_sizes() {
    sizes(u32::MAX);
}
fn l10_sizes_small() {
    sizes(by_tier(511, 2047));
}
}
