//! L05, L06, L09: parameter gradients, seen through the guarded hooks.
use crate::lay::*;
use crate::sx::*;
use rusty_network::layer::convolutional::*;
use rusty_network::layer::fully_connected::*;
use rusty_network::layer::Layer;
use rusty_network::tensor::Tensor;

/// A layer whose parameter gradients can be read.
pub enum L {
    F(FullyConnectedLayer),
    C(ConvolutionalLayer),
}
impl L {
    pub fn new(b: &Spec) -> L {
        match b {
            Spec::Fc(w, c) => {
                let mut l = FullyConnectedLayer::empty();
                l.fill_from_state(w.clone(), c.clone(), &nm("f")).unwrap();
                L::F(l)
            }
            Spec::Conv(k, c, i, s) => {
                let mut l = ConvolutionalLayer::empty();
                l.fill_from_state(k.clone(), c.clone(), *i, *s, &nm("c")).unwrap();
                L::C(l)
            }
            _ => unreachable!(),
        }
    }
    pub fn l(&mut self) -> &mut dyn Layer {
        match self {
            L::F(l) => l,
            L::C(l) => l,
        }
    }
    /// In the order of `Spec::params`.
    fn grads(&self) -> Vec<Tensor> {
        match self {
            L::F(l) => {
                let (w, b) = l.verif_gradients();
                vec![w.clone(), b.clone()]
            }
            L::C(l) => {
                let (k, b) = l.verif_gradients();
                k.iter().chain(b.iter()).cloned().collect()
            }
        }
    }
}
/// What one pass adds to every element of every parameter gradient.
fn expected(b: &Spec, x: &Tensor, g: &Tensor, add: &mut Vec<Vec<Vec<f32>>>) {
    let o = b.outs();
    let mut masked = vec![];
    for (i, j, c) in each(o) {
        masked.push(((i, j, c), ite(b.pre(x, i, j, c) > 0.0, at(g, i, j, c), 0.0)));
    }
    for (p, t) in b.params().iter().enumerate() {
        for (q, (a, e, d)) in each(t.get_shape()).into_iter().enumerate() {
            for ((i, j, c), m) in &masked {
                let v = match b {
                    Spec::Fc(..) => {
                        if p == 0 {
                            if *i == a && *c == d { *m * at(x, e, *j, *c) } else { continue }
                        } else if *i == a && *c == d {
                            *m
                        } else {
                            continue;
                        }
                    }
                    Spec::Conv(k, _, _, s) => {
                        if p < k.len() {
                            if *c as usize == p { *m * at(x, i * s + a, j * s + e, d) } else { continue }
                        } else if *c as usize == p - k.len() {
                            *m
                        } else {
                            continue;
                        }
                    }
                    _ => continue,
                };
                add[p][q].push(v);
            }
        }
    }
}
pub fn none(b: &Spec) -> Vec<Vec<Vec<f32>>> {
    b.params().iter().map(|t| vec![vec![]; t.total_items() as usize]).collect()
}
pub fn compare(l: &L, b: &Spec, want: &[Vec<Vec<f32>>], id: u32) {
    let got = l.grads();
    let par = b.params();
    check!(got.len() == par.len(), id, "there is no gradient for some parameter");
    for (p, t) in par.iter().enumerate() {
        check!(shape_eq(&got[p].get_shape(), &t.get_shape()), id + 1, "the gradient's shape is not the parameter's");
        for (q, (a, e, d)) in each(t.get_shape()).into_iter().enumerate() {
            check!(at(&got[p], a, e, d) == total(&want[p][q]), id + 2, "parameter gradient");
            obs_f(at(&got[p], a, e, d));
        }
    }
}
pub fn one_pass(l: &mut L, b: &Spec, repeat: bool, want: &mut Vec<Vec<Vec<f32>>>) {
    let (i, o) = (b.ins(), b.outs());
    let x = xs(i, 5);
    let mut y = ints(o, 5);
    check!(l.l().forward(&x, &mut y).is_ok(), 30, "forward failed");
    let g = gs(o, 5);
    let mut h = ints(i, 5);
    check!(l.l().backward(&x, &y, &g, &mut h).is_ok(), 31, "backward failed");
    expected(b, &x, &g, want);
    if repeat {
        let g = gs(o, 5);
        check!(l.l().backward(&x, &y, &g, &mut h).is_ok(), 32, "backward failed");
        expected(b, &x, &g, want);
    }
}
fn params(b: &Spec) {
    let mut l = L::new(b);
    l.l().switch_to_training();
    let mut want = none(b);
    compare(&l, b, &want, 1);
    one_pass(&mut l, b, false, &mut want);
    compare(&l, b, &want, 5);
    check!(all_same(&params_of(l.l()), &b.params()), 9, "backpropagation changed the parameters");
}

harnesses! {
fn l05_parameters() {
    exact();
    let b = fc_spec(pick(1, by_tier(2, 3)), pick(1, by_tier(2, 3)), pick(1, 2), &mut || fint(-5, 5));
    shard();
    params(&b);
}
fn l06_parameters() {
    exact();
    let t = by_tier(1, 2);
    let b = conv_spec((pick(1, 2), pick(1, 2)), (pick(1, 2), pick(1, 2)), pick(1, 2), pick(1, t + 1), pick(1, 2), &mut || fint(-5, 5));
    shard();
    params(&b);
}
fn l05_long_parameters() {
    exact();
    let b = crate::t_long::dense_config(&mut || fint(-5, 5));
    shard();
    params(&b);
}
fn l06_long_parameters() {
    exact();
    let b = crate::t_long::conv_config(&mut || fint(-5, 5));
    shard();
    params(&b);
}
/// Many passes, with gradients cleared once or never, in every unit.
fn l09_long() {
    exact();
    scales(3);
    let b = match pick(0, 2) {
        0 => fc_spec(1, 1, 1, &mut || fint(1, 3)),
        1 => fc_spec(2, 1, 2, &mut || fint(1, 3)),
        _ => conv_spec((1, 2), (1, 1), 1, 2, 1, &mut || fint(1, 3)),
    };
    let passes = pick(3, by_tier(6, 12));
    let clear = pick(0, 3);
    let again = pick_bool();
    shard();
    let mut l = L::new(&b);
    l.l().switch_to_training();
    let mut want = none(&b);
    for q in 0..passes {
        one_pass(&mut l, &b, again, &mut want);
        if clear == q + 1 {
            l.l().clear_gradients();
            want = none(&b);
            compare(&l, &b, &want, 10);
        }
    }
    compare(&l, &b, &want, 1);
}
fn l09_history() {
    exact();
    let conv = pick_bool();
    let b = if conv { conv_spec((2, 1), (2, 1), 1, 2, 1, &mut || fint(-3, 3)) } else { fc_spec(2, 2, 1, &mut || fint(-3, 3)) };
    let n = pick(1, by_tier(3, 5));
    let seq: Vec<u32> = (0..n).map(|_| pick(0, 3)).collect();
    shard();
    let mut l = L::new(&b);
    l.l().switch_to_training();
    let mut want = none(&b);
    for s in seq {
        match s {
            0 => one_pass(&mut l, &b, false, &mut want),
            1 => one_pass(&mut l, &b, true, &mut want),
            2 => {
                l.l().clear_gradients();
                want = none(&b);
            }
            _ => {
                l.l().switch_to_inference();
                // a refused pass counts for nothing
                let (x, g) = (ints(b.ins(), 5), ints(b.outs(), 5));
                let (mut y, mut h) = (ints(b.outs(), 5), ints(b.ins(), 5));
                check!(l.l().forward(&x, &mut y).is_ok(), 33, "forward failed");
                check!(l.l().backward(&x, &y, &g, &mut h).is_err(), 34, "backward in inference mode succeeded");
                l.l().clear_gradients();
                l.l().switch_to_training();
                want = none(&b);
            }
        }
    }
    compare(&l, &b, &want, 1);
    check!(all_same(&params_of(l.l()), &b.params()), 9, "the parameters changed");
}
/// Very many passes.
fn l09_repeat() {
    exact();
    let conv = pick_bool();
    let clear = pick(0, 2);
    let again = pick_bool();
    shard();
    let b = if conv { conv_spec((1, 1), (1, 1), 1, 1, 1, &mut || fint(1, 3)) } else { fc_spec(1, 1, 1, &mut || fint(1, 3)) };
    let mut l = L::new(&b);
    l.l().switch_to_training();
    let mut want = none(&b);
    for q in 1..by_tier(150, 300) {
        one_pass(&mut l, &b, again, &mut want);
        if clear == 1 && q % 9 == 0 || clear == 2 && q % 2 == 0 {
            l.l().clear_gradients();
            want = none(&b);
        }
        compare(&l, &b, &want, 1);
    }
}
fn l05_large_parameters() {
    exact();
    let b = fc_spec(17, 18, 1, &mut || fint(-5, 5));
    shard();
    params(&b);
}
fn l06_large_parameters() {
    exact();
    let (w, p, d, c) = [((3, 3), (8, 8), 1, 1), ((1, 1), (33, 1), 1, 2), ((2, 2), (2, 2), 9, 2), ((1, 1), (1, 2), 2, 18)][pick(0, 3) as usize];
    let b = conv_spec(w, p, d, c, 1, &mut || fint(-5, 5));
    shard();
    params(&b);
}
/// Gradients of any bits (NaN, infinities) leave nothing behind when they are cleared.
fn l09_stale() {
    precise();
    let kind = pick(0, 1);
    let how = pick(0, 2);
    let b = any_spec(kind, &mut fbits);
    shard();
    let (mut p, mut q) = (L::new(&b), L::new(&b));
    p.l().switch_to_training();
    q.l().switch_to_training();
    let (mut y, mut h) = (anybits(b.outs()), anybits(b.ins()));
    let (w, e) = (anybits(b.ins()), anybits(b.outs()));
    check!(p.l().forward(&w, &mut y).is_ok() && p.l().backward(&w, &y, &e, &mut h).is_ok(), 1, "a pass failed");
    match how {
        0 => p.l().clear_gradients(),
        1 => {
            p.l().switch_to_inference();
            p.l().switch_to_training();
        }
        _ => {
            p.l().clear_gradients();
            p.l().switch_to_inference();
            p.l().switch_to_training();
        }
    }
    for t in p.grads() {
        for (i, j, k) in each(t.get_shape()) {
            check!(at(&t, i, j, k) == 0.0, 2, "a cleared gradient is not zero");
        }
    }
    let (x, g) = (anybits(b.ins()), anybits(b.outs()));
    for l in [&mut p, &mut q] {
        check!(l.l().forward(&x, &mut y).is_ok() && l.l().backward(&x, &y, &g, &mut h).is_ok(), 3, "a pass failed");
    }
    check!(all_same(&p.grads(), &q.grads()), 4, "gradients from before the clear are still there");
    check!(all_same(&params_of(p.l()), &b.params()), 5, "the parameters changed");
}
}
