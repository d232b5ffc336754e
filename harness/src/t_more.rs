//! N11, N12: saving observes a network without disturbing it; networks do not influence each other.
use crate::lay::*;
use crate::sx::*;
use crate::t_file::*;
use crate::t_net::*;
use rusty_network::layer::Layer;
use rusty_network::network::*;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::rc::Rc;

pub fn image(v: &[Spec]) -> Tensor {
    if matches!(v[0], Spec::Pool(..)) { few_bits(v[0].ins()) } else { anybits(v[0].ins()) }
}
/// A network whose input gradient can be seen.
fn probed(v: &[Spec], training: bool) -> (Network, Rc<RefCell<Option<Tensor>>>) {
    let mut n = Network::new(state(training));
    let (p, seen) = probe(v[0].ins());
    check!(n.add_layer(p).is_ok(), 900, "refused");
    for (q, s) in v.iter().enumerate() {
        check!(n.add_layer(Boxed(s.build(NAMES[q]))).is_ok(), 901, "refused");
    }
    (n, seen)
}
fn same_gradient(a: &Rc<RefCell<Option<Tensor>>>, b: &Rc<RefCell<Option<Tensor>>>) -> bool {
    match (&*a.borrow(), &*b.borrow()) {
        (Some(x), Some(y)) => equal_values(x, y),
        (None, None) => true,
        _ => false,
    }
}
/// Everything one network answers in a fixed sequence of calls.
#[derive(Default)]
struct Story {
    t: Vec<Tensor>,
    ok: Vec<bool>,
}
struct Actor {
    n: Network,
    seen: Rc<RefCell<Option<Tensor>>>,
    x: Vec<Tensor>,
    g: Vec<Tensor>,
    file: String,
    story: Story,
}
impl Actor {
    fn new(v: &[Spec], training: bool, x: &[Tensor], g: &[Tensor], file: &str) -> Actor {
        let (n, seen) = probed(v, training);
        Actor { n, seen, x: x.to_vec(), g: g.to_vec(), file: nm(file), story: Story::default() }
    }
    fn step(&mut self, what: u32, q: usize) {
        let s = &mut self.story;
        match what {
            0 => s.ok.push(self.n.infer(&self.x[q % 2]).is_ok()),
            1 => {
                s.ok.push(self.n.backward(&self.g[q % 2]).is_ok());
                if let Some(t) = &*self.seen.borrow() {
                    s.t.push(t.clone());
                }
            }
            2 => self.n.switch_to_training(),
            3 => self.n.switch_to_inference(),
            _ => {
                s.ok.push(self.n.save_to_file(&self.file).is_ok());
            }
        }
        let mut i = 0;
        while let Ok(t) = self.n.get_intermediate_state(i) {
            s.t.push(t.clone());
            i += 1;
        }
        s.ok.push(self.n.get_run_state() == NetworkRunState::Training);
    }
}
fn same_story(a: &Story, b: &Story, id: u32) {
    check!(a.ok == b.ok, id, "a call succeeds or fails depending on another network");
    check!(a.t.len() == b.t.len(), id + 1, "the number of results depends on another network");
    let mut ok = true;
    for (x, y) in a.t.iter().zip(&b.t) {
        ok = and(ok, equal_values(x, y));
    }
    check!(ok, id + 2, "a result depends on another network");
}

harnesses! {
/// Saving, well or failing, between an inference and a backward pass; a twin does not save.
fn n11_saving() {
    precise();
    let c = pick(0, 3);
    let (training, ran) = (pick_bool(), pick_bool());
    let how = pick(0, 4);
    let saves = pick(1, 2);
    shard();
    let v = chain(c, by_tier(3, 4), &mut fbits);
    let (mut n, seen) = probed(&v, training);
    let (mut m, twin) = probed(&v, training);
    let (x, g) = (image(&v), anybits(v.last().unwrap().outs()));
    if ran {
        check!(n.infer(&x).is_ok() && m.infer(&x).is_ok(), 1, "inference failed");
    }
    let before = snap(&n);
    for _ in 0..saves {
        let r = match how {
            0 => n.save_to_file(&file()),
            1 => n.save_to_file(&nm("missing/net.bin")),
            _ => {
                fault(how - 2, F_ERR);
                let r = n.save_to_file(&file());
                fault(0, F_NONE);
                r
            }
        };
        if how == 0 {
            check!(r.is_ok(), 2, "saving failed");
        }
        unchanged(&n, &before, 10);
    }
    if ran {
        check!(n.backward(&g).is_ok() == training, 3, "backward succeeds exactly in training mode");
        check!(m.backward(&g).is_ok() == training, 4, "backward succeeds exactly in training mode");
        check!(same_gradient(&seen, &twin), 5, "saving changed the gradient of the next backward pass");
    }
    let y = image(&v);
    check!(n.infer(&y).is_ok() && m.infer(&y).is_ok(), 6, "inference failed");
    check!(equal_values(n.get_output().unwrap(), m.get_output().unwrap()), 7, "saving changed later results");
    check!(n.backward(&g).is_ok() == m.backward(&g).is_ok(), 8, "saving changed whether backward succeeds");
    check!(same_gradient(&seen, &twin), 9, "saving changed later gradients");
}
/// Two saves in a row give files that load alike; a file may be loaded into many networks.
fn n11_again() {
    precise();
    let c = pick(0, 3);
    let (training, ran) = (pick_bool(), pick_bool());
    let second = pick_bool();
    shard();
    let v = chain(c, 3, &mut fbits);
    let mut n = network(&v, training);
    check!(n.save_to_file(&nm("one.bin")).is_ok(), 1, "saving failed");
    if ran {
        check!(n.infer(&image(&v)).is_ok(), 2, "inference failed");
        check!(n.backward(&anybits(n.get_output_shape())).is_ok() == training, 3, "backward succeeds exactly in training mode");
    }
    if second {
        switch(&mut n, !training);
    }
    check!(n.save_to_file(&nm("two.bin")).is_ok(), 4, "saving failed");
    let mut k = Network::new(NetworkRunState::Inference);
    let mut m = Network::new(NetworkRunState::Inference);
    check!(k.load_from_file(&nm("one.bin")).is_ok(), 5, "loading failed");
    check!(m.load_from_file(&nm("two.bin")).is_ok(), 6, "loading failed");
    is_made_of(&k, &v, &NAMES, 10);
    is_made_of(&m, &v, &NAMES, 20);
    is_made_of(&n, &v, &NAMES, 30);
    // the file that was loaded is still there
    let mut o = Network::new(NetworkRunState::Training);
    check!(o.load_from_file(&nm("one.bin")).is_ok(), 7, "loading failed");
    is_made_of(&o, &v, &NAMES, 40);
}
/// Saves that fail, then one that succeeds.
fn n11_failed() {
    precise();
    let c = pick(0, 3);
    let training = pick_bool();
    let (a, b) = (pick(0, by_tier(3, 6)), pick(0, by_tier(3, 6)));
    let older = pick_bool();
    shard();
    let v = chain(c, 2, &mut fbits);
    let mut n = network(&v, training);
    if older {
        check!(n.save_to_file(&file()).is_ok(), 1, "saving failed");
    }
    for how in [a, b] {
        if how == 0 {
            check!(n.save_to_file(&nm("missing/net.bin")).is_err(), 2, "saved into a directory that is not there");
            continue;
        }
        fault(how - 1, F_ERR);
        let _ = n.save_to_file(&file());
        fault(0, F_NONE);
    }
    check!(n.infer(&image(&v)).is_ok(), 3, "inference failed");
    check!(n.save_to_file(&file()).is_ok(), 4, "saving failed");
    let mut m = Network::new(state(not(training)));
    check!(m.load_from_file(&file()).is_ok(), 5, "loading failed");
    is_made_of(&m, &v, &NAMES, 10);
    is_made_of(&n, &v, &NAMES, 20);
}
/// Files written and read by several networks in turn.
fn n12_files() {
    precise();
    let (c, d) = (pick(0, 3), pick(0, 3));
    let (x, y) = (pick(0, 2), pick(0, 2));
    let training = pick_bool();
    let two = pick_bool();
    shard();
    let (v, w) = (chain(c, x, &mut fbits), chain(d, y, &mut fbits));
    let (a, b) = (network(&v, training), network(&w, not(training)));
    let other = if two { nm("other.bin") } else { file() };
    let load = |name: &String, v: &[Spec], id: u32| {
        let mut m = Network::new(state(training));
        check!(m.load_from_file(name).is_ok(), id, "loading failed");
        is_made_of(&m, v, &NAMES, id + 1);
    };
    check!(a.save_to_file(&file()).is_ok(), 1, "saving failed");
    load(&file(), &v, 10);
    check!(b.save_to_file(&other).is_ok(), 2, "saving failed");
    load(&other, &w, 20);
    if two {
        load(&file(), &v, 30);
    }
    check!(a.save_to_file(&other).is_ok(), 3, "saving failed");
    load(&other, &v, 40);
    check!(b.save_to_file(&other).is_ok(), 4, "saving failed");
    load(&other, &w, 50);
    is_made_of(&a, &v, &NAMES, 60);
    is_made_of(&b, &w, &NAMES, 70);
}
/// Two networks that are easily taken for each other.
fn n12_alike() {
    precise();
    let (c, len) = (pick(0, 3), pick(1, 2));
    let like = pick(0, 4);
    let training = pick_bool();
    let third = pick_bool();
    shard();
    let v = chain(c, len, &mut fbits);
    let w = resembling(&v, like);
    let (x, g) = (image(&v), anybits(v.last().unwrap().outs()));
    // the other network gets the same image, the same elements in another order, or a negative
    let u = if third { resemble(&x, like) } else { x.clone() };
    let go = |first: Option<&[Spec]>, v: &[Spec], id: u32| {
        let mut out = vec![];
        let mut before = first.map(|w| probed(w, training));
        let (mut n, seen) = probed(v, training);
        if let Some((m, _)) = &mut before {
            check!(m.infer(&u).is_ok(), id, "inference failed");
        }
        check!(n.infer(&x).is_ok(), id + 1, "inference failed");
        out.push(n.get_output().unwrap().clone());
        if let Some((m, _)) = &mut before {
            check!(m.infer(&u).is_ok(), id, "inference failed");
            check!(m.backward(&g).is_ok() == training, id + 2, "backward succeeds exactly in training mode");
        }
        check!(n.backward(&g).is_ok() == training, id + 2, "backward succeeds exactly in training mode");
        if let Some(h) = &*seen.borrow() {
            out.push(h.clone());
        }
        out
    };
    let alone = go(None, &v, 10);
    let beside = go(Some(&w), &v, 20);
    check!(alone.len() == beside.len(), 1, "the number of results depends on another network");
    for (a, b) in alone.iter().zip(&beside) {
        check!(equal_values(a, b), 2, "a result depends on another network");
    }
}
/// Two layers of one kind used in turn, against the definition.
fn n12_definition() {
    exact();
    let kind = pick(0, 2);
    let like = pick(0, 5);
    let (ta, tb) = (pick_bool(), pick_bool());
    let same_image = pick_bool();
    shard();
    let mut f = || fint(-3, 3);
    let v = match kind {
        0 => fc_spec(1, 1, 1, &mut f),
        1 => fc_spec(2, 1, 1, &mut f),
        _ => conv_spec((2, 1), (1, 1), 1, 2, 1, &mut f),
    };
    let other = |t: &Tensor| if like == 5 { make(t.get_shape(), &mut || fint(-3, 3)) } else { likeness(t, like, &mut || fint(-3, 3)) };
    let w = match &v {
        Spec::Fc(w, b) => Spec::Fc(other(w), other(b)),
        Spec::Conv(k, b, s, st) => {
            let mut k: Vec<Tensor> = k.iter().map(other).collect();
            if like == 4 {
                k.reverse();
            }
            Spec::Conv(k, b.iter().map(other).collect(), *s, *st)
        }
        s => s.clone(),
    };
    let x = ints(v.ins(), 3);
    let u = if same_image { x.clone() } else { other(&x) };
    let (mut a, mut b) = (v.build("l"), w.build("l"));
    set_mode(&mut *a, ta);
    set_mode(&mut *b, tb);
    let (mut y, mut z) = (make(v.outs(), &mut || 0.0), make(w.outs(), &mut || 0.0));
    for round in 0..2 {
        check!(a.forward(&x, &mut y).is_ok(), 1, "forward failed");
        check!(b.forward(&u, &mut z).is_ok(), 2, "forward failed");
        if round == 0 {
            check!(a.forward(&x, &mut y).is_ok(), 3, "forward failed");
        }
        for (i, j, k) in each(v.outs()) {
            check!(at(&y, i, j, k) == relu(v.pre(&x, i, j, k)), 4, "a result depends on another layer");
            check!(at(&z, i, j, k) == relu(w.pre(&u, i, j, k)), 5, "a result depends on another layer");
        }
    }
    let g = ints(v.outs(), 3);
    for turn in 0..3 {
        let (l, s, x, y, trained) = if turn == 1 { (&mut b, &w, &u, &z, tb) } else { (&mut a, &v, &x, &y, ta) };
        let mut h = make(s.ins(), &mut || 0.0);
        if !trained {
            continue;
        }
        check!(l.backward(x, y, &g, &mut h).is_ok(), 6, "backward failed");
        for (i, j, k) in each(s.ins()) {
            let mut t = vec![];
            for (p, q, c) in each(s.outs()) {
                let part = match s {
                    Spec::Fc(w, _) => at(w, p, i, k),
                    Spec::Conv(ker, _, _, _) => at(&ker[c as usize], i - p, j - q, k),
                    _ => 0.0,
                };
                t.push(ite(s.pre(x, p, q, c) > 0.0, part * at(&g, p, q, c), 0.0));
            }
            check!(at(&h, i, j, k) == total(&t), 7, "a gradient depends on another layer");
        }
    }
}
/// A network alone, and the same calls while another network is used in between.
fn n12_apart() {
    precise();
    let (c, d) = (pick(0, 3), pick(0, 3));
    let alike = pick_bool();
    let start = pick_bool();
    let order = pick(0, 5);
    assume(not(alike) || d == 0);
    shard();
    let v = chain(c, 2, &mut fbits);
    // of the same shapes with other parameters, or of other shapes
    let w = chain(if alike { c } else { d }, if alike { 2 } else { 3 }, &mut fbits);
    let (vx, wx) = ([image(&v), image(&v)], [image(&w), image(&w)]);
    let (vg, wg) = ([anybits(v[1].outs()), anybits(v[1].outs())], [anybits(w.last().unwrap().outs()), anybits(w.last().unwrap().outs())]);
    // with the same images, if they fit
    let wx = if alike { vx.clone() } else { wx };
    let seq: &[u32] = [&[0, 1, 0, 1][..], &[0, 0, 1, 1], &[0, 3, 0, 2, 0, 1], &[2, 0, 4, 1, 0], &[0, 1, 3, 2, 0, 1], &[4, 0, 1, 4, 0, 1]][order as usize];
    let mut alone = Actor::new(&v, start, &vx, &vg, "v.bin");
    for (q, s) in seq.iter().enumerate() {
        alone.step(*s, q);
    }
    let mut a = Actor::new(&v, start, &vx, &vg, "v.bin");
    let mut b = Actor::new(&w, start, &wx, &wg, "w.bin");
    for (q, s) in seq.iter().enumerate() {
        b.step(*s, q);
        a.step(*s, q);
        b.step(seq[seq.len() - 1 - q], q);
    }
    same_story(&alone.story, &a.story, 1);
    is_apart(&a.n, &v, 10);
    is_apart(&b.n, &w, 20);
}
/// Layers of one kind used in turn, without networks.
fn n12_layers() {
    precise();
    let kind = pick(0, 3);
    let training = pick_bool();
    let swap = pick_bool();
    let drop_one = pick_bool();
    shard();
    let p = one_spec(kind, &mut fbits);
    // of the same shapes, or larger
    let q = if swap {
        one_spec(kind, &mut fbits)
    } else {
        match kind {
            0 => fc_spec(3, 3, 2, &mut fbits),
            1 => conv_spec((1, 2), (3, 2), 2, 3, 1, &mut fbits),
            2 => pool_spec((1, 2), (3, 2), 2, 1),
            _ => Spec::Soft(sh(3, 2, 2)),
        }
    };
    let (x, g) = (anybits(p.ins()), anybits(p.outs()));
    let u = if swap { x.clone() } else { few_bits(q.ins()) };
    let e = anybits(q.outs());
    let run = |l: &mut dyn Layer, o: Option<&mut dyn Layer>| {
        let (mut y, mut h) = (make(p.outs(), &mut || 0.0), make(p.ins(), &mut || 0.0));
        let (mut z, mut k) = (make(q.outs(), &mut || 0.0), make(q.ins(), &mut || 0.0));
        set_mode(l, training);
        match o {
            Some(o) => {
                set_mode(o, training);
                check!(l.forward(&x, &mut y).is_ok(), 1, "forward failed");
                check!(o.forward(&u, &mut z).is_ok(), 2, "forward failed");
                if training {
                    check!(o.backward(&u, &z, &e, &mut k).is_ok(), 3, "backward failed");
                    o.clear_gradients();
                    o.switch_to_inference();
                    check!(l.backward(&x, &y, &g, &mut h).is_ok(), 4, "backward failed");
                }
            }
            None => {
                check!(l.forward(&x, &mut y).is_ok(), 5, "forward failed");
                if training {
                    check!(l.backward(&x, &y, &g, &mut h).is_ok(), 6, "backward failed");
                }
            }
        }
        (y, h)
    };
    let l = &mut *p.build("p");
    let (y, h) = run(l, None);
    let a = &mut *p.build("p");
    let mut b = q.build("q");
    let (z, k) = run(a, Some(&mut *b));
    check!(untouched(&y, &z), 7, "a result depends on another layer");
    check!(untouched(&h, &k), 8, "a gradient depends on another layer");
    if drop_one {
        drop(b);
    }
    check!(all_same(&params_of(a), &p.params()), 9, "the parameters changed");
}
}
fn is_apart(n: &Network, v: &[Spec], id: u32) {
    // after the probe
    check!(n.get_layers().len() == v.len() + 1, id, "number of layers");
    for (l, s) in n.get_layers().iter().skip(1).zip(v) {
        check!(all_same(&params_of(&**l), &s.params()), id + 1, "the parameters changed");
    }
}

fn resemble(t: &Tensor, like: u32) -> Tensor {
    likeness(t, like, &mut fbits)
}
pub fn likeness(t: &Tensor, like: u32, f: &mut dyn FnMut() -> f32) -> Tensor {
    let s = t.get_shape();
    let p = each(s);
    let mut r = Tensor::new(s);
    for (q, (i, j, k)) in p.iter().enumerate() {
        let from = if like == 1 { p[p.len() - 1 - q] } else { (*i, *j, *k) };
        let x = at(t, from.0, from.1, from.2);
        r.set_item(&ix(*i, *j, *k), match like {
            0 => -x,
            2 if q + 1 == p.len() => f(),
            3 if q == 0 => f(),
            _ => x,
        });
    }
    r
}
/// Layers of the same shapes whose parameters are the negatives, in reverse order, with another
/// last or first element, or the same in other layers.
fn resembling(v: &[Spec], like: u32) -> Vec<Spec> {
    let all = |t: &Vec<Tensor>| {
        let mut r: Vec<Tensor> = t.iter().map(|t| resemble(t, like)).collect();
        if like == 4 {
            r.reverse();
        }
        r
    };
    v.iter()
        .map(|s| match s {
            Spec::Fc(w, b) => Spec::Fc(resemble(w, like), resemble(b, if like == 4 { 0 } else { like })),
            Spec::Conv(k, b, s, st) => Spec::Conv(all(k), all(b), *s, *st),
            s => s.clone(),
        })
        .collect()
}
