//! Long histories: the same object is used many times, in patterns that counters, caches and
//! "every n-th time" shortcuts would show in; and networks with many layers or large files.
use crate::lay::*;
use crate::sx::*;
use crate::t_file::*;
use crate::t_net::*;
use rusty_network::layer::Layer;
use rusty_network::network::*;
use rusty_network::tensor::Tensor;

fn rounds() -> u32 {
    by_tier(150, 300)
}
/// The image of round `q`: small integers, or fixed numbers in a changing order for pooling.
fn image(b: &Spec, q: u32) -> Tensor {
    match b {
        Spec::Pool(s, _, _) => {
            let mut n = q;
            make(*s, &mut || {
                n += 1;
                (n * 5 % 7) as f32 - 2.5
            })
        }
        _ => ints(b.ins(), 3),
    }
}
/// The layer has been through many calls: it still does what a new one does.
fn forwards(kind: u32) {
    let pattern = pick(0, 4);
    shard();
    let b = one_spec(kind, &mut || fint(-3, 3));
    let l = &mut *b.build("old");
    let same_image = image(&b, 0);
    for q in 0..rounds() {
        // inference, training, in turn, training with backward passes, the same image
        let training = match pattern { 0 => false, 1 | 3 => true, 2 => q % 2 == 1, _ => q % 3 == 0 };
        set_mode(l, training);
        let x = if pattern == 4 { same_image.clone() } else { image(&b, q) };
        let (mut y, mut z) = (ints(b.outs(), 3), ints(b.outs(), 3));
        check!(l.forward(&x, &mut y).is_ok(), 1, "forward failed");
        let new = &mut *b.build("new");
        set_mode(new, training);
        check!(new.forward(&x, &mut z).is_ok(), 2, "forward failed");
        check!(untouched(&y, &z), 3, "a used layer gives another result than a new one");
        if pattern == 3 {
            let g = ints(b.outs(), 3);
            let mut h = ints(b.ins(), 3);
            check!(l.backward(&x, &y, &g, &mut h).is_ok(), 4, "backward failed");
        }
    }
    check!(all_same(&params_of(l), &b.params()), 5, "the parameters changed");
}
fn backwards(kind: u32) {
    let pattern = pick(0, 3);
    shard();
    let b = one_spec(kind, &mut || fint(-3, 3));
    let l = &mut *b.build("old");
    l.switch_to_training();
    for q in 0..rounds() {
        let x = image(&b, q);
        let (mut y, mut z) = (ints(b.outs(), 3), ints(b.outs(), 3));
        // once, twice, with inferences in between, with clears in between
        check!(l.forward(&x, &mut y).is_ok(), 1, "forward failed");
        let new = &mut *b.build("new");
        new.switch_to_training();
        check!(new.forward(&x, &mut z).is_ok(), 2, "forward failed");
        for _ in 0..if pattern == 1 { 2 } else { 1 } {
            let g = ints(b.outs(), 3);
            let (mut h, mut k) = (ints(b.ins(), 3), ints(b.ins(), 3));
            check!(l.backward(&x, &y, &g, &mut h).is_ok(), 3, "backward failed");
            check!(new.backward(&x, &z, &g, &mut k).is_ok(), 4, "backward failed");
            check!(untouched(&h, &k), 5, "a used layer hands on another gradient than a new one");
        }
        if pattern == 2 {
            l.switch_to_inference();
            let mut o = ints(b.outs(), 3);
            check!(l.forward(&image(&b, q + 1), &mut o).is_ok(), 6, "forward failed");
            l.switch_to_training();
        }
        if pattern == 3 {
            l.clear_gradients();
        }
    }
    check!(all_same(&params_of(l), &b.params()), 7, "the parameters changed");
}

harnesses! {
fn l02_repeat() {
    exact();
    forwards(pick(0, 3));
}
fn l05_repeat() {
    exact();
    backwards(0);
}
fn l06_repeat() {
    exact();
    backwards(1);
}
fn l07_repeat() {
    exact();
    backwards(2);
}
fn l08_repeat() {
    exact();
    backwards(3);
}
fn l08_large() {
    exact();
    let s = [sh(65, 1, 1), sh(1, 1, 33), sh(7, 6, 1)][pick(0, 2) as usize];
    shard();
    let mut l = rusty_network::layer::softmax::SoftmaxLayer::new(s, &nm("s")).unwrap();
    l.switch_to_training();
    let (x, y, g) = (ints(s, 3), ints(s, 3), ints(s, 3));
    let mut h = ints(s, 3);
    check!(l.backward(&x, &y, &g, &mut h).is_ok(), 1, "backward failed");
    let mut t = vec![];
    for (a, b, c) in each(s) {
        t.push(at(&g, a, b, c) * at(&y, a, b, c));
    }
    let t = total(&t);
    for (i, j, k) in each(s) {
        check!(at(&h, i, j, k) == at(&y, i, j, k) * (at(&g, i, j, k) - t), 2, "gradient of an element");
    }
}
/// Any layers restored from what large layers stored.
fn l10_large() {
    precise();
    let kind = pick(0, 3);
    let training = pick_bool();
    shard();
    let b = match kind {
        0 => fc_spec(33, 34, 1, &mut fbits),
        1 => conv_spec((3, 3), (2, 2), 5, 20, 1, &mut fbits),
        2 => pool_spec((2, 3), (300, 70), 1000, 2),
        _ => Spec::Soft(sh(65536, 3, 70)),
    };
    let name: String = (0..300).map(|q| (b'a' + (q % 26) as u8) as char).collect();
    let a = &mut *b.build(&name);
    set_mode(a, training);
    let before = show(a);
    let data = a.get_serialized();
    let c = &mut *crate::t_serial::empty(kind);
    check!(c.load_from_serialized(&data).is_ok(), 1, "restoring failed");
    check!(crate::t_serial::same_bits(&before, &show(c)), 2, "the restored layer differs");
    check!(c.get_name() == name, 3, "the name differs");
    for (p, q) in params_of(c).iter().zip(b.params().iter()) {
        check!(untouched_bits(p, q), 4, "a restored parameter differs");
    }
}
fn n01_deep() {
    precise();
    let len = [33u32, by_tier(70, 260)][pick(0, 1) as usize];
    let turn = pick(0, 1);
    shard();
    let log = Logs::default();
    let shapes: Vec<_> = (0..len + 1).map(|i| some_shape(i * turn % 3)).collect();
    let mut n = Network::new(state(false));
    for i in 0..len {
        check!(n.add_layer(mock(i, shapes[i as usize], shapes[i as usize + 1], &log)).is_ok(), 1, "a layer that chains was refused");
    }
    mock_infer(&mut n, &log, &shapes, 10);
    n.switch_to_training();
    mock_infer(&mut n, &log, &shapes, 30);
}
fn n03_deep() {
    precise();
    let len = by_tier(70, 260);
    let turn = pick(0, 1);
    shard();
    let log = Logs::default();
    let shapes: Vec<_> = (0..len + 1).map(|i| some_shape(i * turn % 3)).collect();
    let mut n = Network::new(state(true));
    for i in 0..len {
        check!(n.add_layer(mock(i, shapes[i as usize], shapes[i as usize + 1], &log)).is_ok(), 1, "a layer that chains was refused");
    }
    let s = mock_infer(&mut n, &log, &shapes, 10);
    mock_backward(&mut n, &log, &shapes, &s, 30);
    mock_backward(&mut n, &log, &shapes, &s, 50);
}
/// Many inferences of one network: each gives what its layers give.
fn n02_repeat() {
    precise();
    let c = pick(0, 3);
    let pattern = pick(0, 4);
    shard();
    let v = chain(c, 2, &mut fbits);
    let mut n = network(&v, pattern != 0);
    let pool = v.iter().any(|s| matches!(s, Spec::Pool(..)));
    let img = |q: u32| {
        let mut m = q;
        if pool {
            make(v[0].ins(), &mut || {
                m += 1;
                (m * 5 % 7) as f32 - 2.5
            })
        } else {
            anybits(v[0].ins())
        }
    };
    let again = img(3);
    for q in 0..rounds() {
        // inference, training, in turn, training with backward passes, often the same image
        let training = match pattern { 0 => false, 1 | 3 => true, 2 => q % 2 == 1, _ => q % 4 == 0 };
        switch(&mut n, training);
        let x = if pattern == 4 && q % 3 > 0 { again.clone() } else { img(q) };
        let want = by_hand(&v, &x, training);
        check!(n.infer(&x).is_ok(), 1, "inference failed");
        real_states(&n, &want, 10);
        if pattern == 3 {
            check!(n.backward(&anybits(n.get_output_shape())).is_ok(), 2, "backward failed");
        }
        if pattern == 1 && q % 5 == 4 {
            let i = v[0].ins();
            check!(n.infer(&anybits(sh(i.di + 1, i.dj, i.dk))).is_err(), 3, "a wrong shape was accepted");
        }
    }
    for (a, b) in n.get_layers().iter().zip(&v) {
        check!(all_same(&params_of(&**a), &b.params()), 4, "the parameters changed");
    }
}
fn n03_repeat() {
    precise();
    let pattern = pick(0, 3);
    shard();
    let log = Logs::default();
    let shapes = [some_shape(1), some_shape(2), some_shape(0), some_shape(1)];
    let mut n = Network::new(state(true));
    for i in 0..3 {
        check!(n.add_layer(mock(i as u32, shapes[i], shapes[i + 1], &log)).is_ok(), 1, "refused");
    }
    for q in 0..rounds() {
        let s = mock_infer(&mut n, &log, &shapes, 10);
        mock_backward(&mut n, &log, &shapes, &s, 30);
        match pattern {
            1 => mock_backward(&mut n, &log, &shapes, &s, 40),
            2 => {
                n.switch_to_inference();
                mock_infer(&mut n, &log, &shapes, 50);
                n.switch_to_training();
            }
            3 => {
                check!(n.backward(&anybits(sh(3, 3, 1 + q))).is_err(), 2, "a wrong gradient was accepted");
                mock_infer(&mut n, &log, &shapes, 70);
            }
            _ => {}
        }
    }
}
/// A network is switched many times while layers of either mode are added.
fn n05_repeat() {
    precise();
    let (a, b) = (pick(1, 4), pick(1, 4));
    shard();
    let log = Logs::default();
    let s = some_shape(0);
    let mut n = Network::new(state(false));
    let mut now = false;
    for q in 0..rounds() {
        if q % a == 0 {
            now = q % (2 * a) == 0;
            switch(&mut n, now);
        }
        if q % b == 0 {
            let mut m = mock(q, s, s, &log);
            set_mode(&mut m, q % (2 * b) == 0);
            check!(n.add_layer(m).is_ok(), 1, "refused");
        }
        modes(&n, now, 10);
    }
}
/// Large layers and many layers, in files longer than the buffers they may pass through.
fn n07_large() {
    precise();
    let c = pick(0, 3);
    let (from, to) = (pick_bool(), pick_bool());
    shard();
    let v: Vec<Spec> = match c {
        3 => vec![pool_spec((3, 1), (2, 1), 300, 300), Spec::Soft(sh(2, 1, 300))],
        0 => vec![fc_spec(65, 66, 1, &mut fbits), Spec::Soft(sh(66, 1, 1))],
        1 => vec![conv_spec((5, 5), (2, 1), 3, 30, 1, &mut fbits)],
        _ => (0..by_tier(131, 260)).map(|q| if q % 3 == 1 { Spec::Soft(sh(1, 1, 1)) } else { fc_spec(1, 1, 1, &mut fbits) }).collect(),
    };
    let names: Vec<String> = (0..v.len()).map(|q| format!("layer {}", q)).collect();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let mut n = Network::new(state(from));
    for (q, s) in v.iter().enumerate() {
        check!(n.add_layer(Boxed(s.build(names[q]))).is_ok(), 1, "a layer that chains was refused");
    }
    check!(n.save_to_file(&file()).is_ok(), 2, "saving failed");
    let mut m = Network::new(state(to));
    check!(m.load_from_file(&file()).is_ok(), 3, "loading failed");
    is_made_of(&m, &v, &names, 10);
    modes(&m, to, 20);
    // over what is there, and once more
    check!(m.save_to_file(&file()).is_ok(), 4, "saving failed");
    let mut k = Network::new(state(from));
    check!(k.load_from_file(&file()).is_ok(), 5, "loading failed");
    is_made_of(&k, &v, &names, 30);
}
/// Faults while a file of several buffers is written and read.
fn n10_large() {
    precise();
    let (k, kind) = (pick(0, 9), pick(1, 4));
    let on_save = pick_bool();
    shard();
    let v = vec![fc_spec(65, 70, 1, &mut fbits)];
    let n = network(&v, false);
    if on_save {
        fault(k, kind);
        let r = n.save_to_file(&file());
        let hit = fs_ops() > k;
        fault(0, F_NONE);
        if hit && kind == F_ERR {
            check!(r.is_err(), 1, "a failed system call was not reported by saving");
        }
        if !hit || kind == F_EINTR || kind == F_SHORT {
            check!(r.is_ok(), 2, "saving failed although every call succeeded or was retriable");
        }
        if r.is_ok() {
            let mut m = Network::new(NetworkRunState::Inference);
            check!(m.load_from_file(&file()).is_ok(), 3, "saving reported success but the file cannot be loaded");
            is_made_of(&m, &v, &NAMES, 10);
        }
    } else {
        check!(n.save_to_file(&file()).is_ok(), 4, "saving failed");
        let mut m = Network::new(NetworkRunState::Inference);
        fault(k, kind);
        let r = m.load_from_file(&file());
        let hit = fs_ops() > k;
        fault(0, F_NONE);
        if hit && kind == F_ERR {
            check!(r.is_err(), 5, "a failed system call was not reported by loading");
        }
        if !hit || kind == F_EINTR || kind == F_SHORT {
            check!(r.is_ok(), 6, "loading failed although every call succeeded or was retriable");
        }
        if r.is_ok() {
            is_made_of(&m, &v, &NAMES, 30);
        } else {
            check!(m.get_layers().is_empty(), 7, "a failed load left layers");
        }
    }
}
}
