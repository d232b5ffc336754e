//! N07 - N10: networks and tensors in files.
use crate::lay::*;
use crate::sx::*;
use crate::t_net::*;
use crate::t_serial::*;
use rusty_network::layer::max_pool::*;
use rusty_network::layer::softmax::*;
use rusty_network::layer::*;
use rusty_network::network::*;
use rusty_network::tensor::helper::*;
use rusty_network::tensor::Tensor;
use std::collections::HashMap;

pub fn file() -> String {
    nm("net.bin")
}
/// The bytes a network file has for these layers.
fn joined(parts: &[Vec<u8>]) -> Vec<u8> {
    let mut v = bincode::serialize(&(parts.len() as u64)).unwrap();
    for p in parts {
        v.extend(p);
    }
    v
}
fn put(bytes: &[u8]) {
    check!(std::fs::write("net.bin", bytes).is_ok(), 990, "the scratch file cannot be written");
}
fn saved() -> Vec<u8> {
    match std::fs::read("net.bin") {
        Ok(v) => v,
        Err(_) => {
            check!(false, 991, "the saved file cannot be read");
            vec![]
        }
    }
}
fn kind_of(s: &Spec) -> u32 {
    match s {
        Spec::Fc(..) => 0,
        Spec::Conv(..) => 1,
        Spec::Pool(..) => 2,
        Spec::Soft(..) => 3,
    }
}
/// The network consists of exactly these layers.
pub fn is_made_of(n: &Network, v: &[Spec], names: &[&str], id: u32) {
    check!(n.get_layers().len() == v.len(), id, "number of layers");
    if n.get_layers().len() != v.len() {
        return;
    }
    for (q, (l, s)) in n.get_layers().iter().zip(v).enumerate() {
        check!(l.get_name() == names[q], id + 1, "a layer's name");
        check!(and(shape_eq(&l.get_input_shape(), &s.ins()), shape_eq(&l.get_output_shape(), &s.outs())), id + 2, "a layer's shapes");
        match show(&**l) {
            Some(x) => {
                check!(x.kind == kind_of(s), id + 3, "a layer's kind");
                let p = s.params();
                check!(x.params.len() == p.len(), id + 4, "a layer's number of parameters");
                for (a, b) in x.params.iter().zip(&p) {
                    check!(untouched_bits(a, b), id + 5, "a parameter differs");
                }
            }
            None => check!(false, id + 6, "a layer does not show its state"),
        }
    }
    let (i, o) = if v.is_empty() { (sh(0, 0, 0), sh(0, 0, 0)) } else { (v[0].ins(), v[v.len() - 1].outs()) };
    check!(and(shape_eq(&n.get_input_shape(), &i), shape_eq(&n.get_output_shape(), &o)), id + 7, "the announced shapes");
}
pub fn modes(n: &Network, training: bool, id: u32) {
    let mut ok = n.get_run_state() == state(training);
    for l in n.get_layers() {
        ok &= l.get_run_mode() == state(training);
    }
    check!(ok, id, "the network or a layer is in another mode");
}
/// Runs like the layers by hand, in its mode; in training mode also backwards.
pub fn works(n: &mut Network, v: &[Spec], id: u32) {
    let training = n.get_run_state() == NetworkRunState::Training;
    if v.is_empty() {
        check!(n.infer(&Tensor::new(sh(1, 1, 1))).is_err(), id, "an empty network ran");
        return;
    }
    let x = anybits(v[0].ins());
    check!(n.infer(&x).is_ok(), id + 1, "inference failed");
    let want = by_hand(v, &x, training);
    match n.get_output() {
        Ok(y) => check!(equal_values(y, want.last().unwrap()), id + 2, "another output than the layers by hand"),
        Err(_) => check!(false, id + 3, "there is no output"),
    }
    let g = anybits(n.get_output_shape());
    check!(n.backward(&g).is_ok() == training, id + 4, "backward succeeds exactly in training mode");
}
/// The network that loads: empty, or some layers that end in the given shape.
fn receiver(kind: u32, ends: TensorShape, training: bool) -> (Network, Vec<Spec>) {
    let v = match kind {
        0 => vec![],
        1 => vec![Spec::Soft(ends)],
        _ => vec![pool_spec((1, 1), (ends.di, ends.dj), ends.dk, 1), Spec::Soft(ends)],
    };
    (network(&v, training), v)
}
pub const NAMES: [&str; 5] = ["a", "b", "c", "d", "e"];

/// A file whose loading fails leaves the network as it was; one that loads appends layers that run.
fn guarded(n: &mut Network, v: &[Spec], x: Option<Tensor>, id: u32) {
    let before = snap(n);
    let r = n.load_from_file(&file());
    let training = before.training;
    if r.is_err() {
        unchanged(n, &before, id);
        works(n, v, id + 10);
    } else {
        modes(n, training, id + 6);
        check!(n.get_layers().len() >= v.len(), id + 7, "layers were lost");
        // every announced shape is the one that is there
        let mut last: Option<TensorShape> = None;
        for l in n.get_layers() {
            if let Some(s) = last {
                check!(shape_eq(&s, &l.get_input_shape()), id + 8, "accepted layers do not chain");
            }
            last = Some(l.get_output_shape());
        }
        if let Some(s) = last {
            check!(shape_eq(&s, &n.get_output_shape()), id + 9, "the announced output shape");
            let x = x.unwrap_or_else(|| anybits(n.get_input_shape()));
            check!(n.infer(&x).is_ok(), id + 15, "an accepted network does not run");
            let o = n.get_output_shape();
            if let Ok(y) = n.get_output() {
                check!(shape_eq(&y.get_shape(), &o), id + 16, "the output has another shape");
            }
            let g = anybits(o);
            check!(n.backward(&g).is_ok() == training, id + 17, "an accepted network does not run backwards");
        }
    }
}
/// Sizes read from a damaged file stay within the bound of the check.
fn small_sizes(s: &SerializedLayer) {
    if let Some(x) = show_serial(s) {
        for z in &x.sizes {
            assume(*z <= 300);
        }
    }
}
fn structural(kind: u32, entry: u32, at: u32) -> bool {
    let b = |v: u32| copy_entry(&mut one_spec(kind, &mut || f32::from_bits(v)).build("k").get_serialized(), entry)[at as usize];
    b(0) == b(!0)
}
fn damaged_value(structure: bool) -> u8 {
    if structure {
        [0, 1, 2, 3, 7, 64, 128, 255][pick(0, 7) as usize]
    } else {
        u8s(0, 255)
    }
}
/// A tensor that was read from a file behaves as announced.
fn consistent(t: &mut Tensor, id: u32) {
    let s = t.get_shape();
    check!(t.total_items() as u64 == s.di as u64 * s.dj as u64 * s.dk as u64, id, "another number of items than the shape says");
    let i = ix(u32s(0, u32::MAX), u32s(0, u32::MAX), u32s(0, u32::MAX));
    let inside = and(and(i.i < s.di, i.j < s.dj), i.k < s.dk);
    let v = fbits();
    t.set_item(&i, v);
    let got = t.get_item(&i);
    check!(imp(inside, bits_eq(got, v)), id + 1, "an element inside the announced shape is not stored");
    check!(imp(not(inside), got == 0.0), id + 2, "an element outside the announced shape is read");
    let j = ix(u32s(0, u32::MAX), u32s(0, u32::MAX), u32s(0, u32::MAX));
    let other = or(or(i.i != j.i, i.j != j.j), i.k != j.k);
    let two = and(and(inside, other), and(and(j.i < s.di, j.j < s.dj), j.k < s.dk));
    t.set_item(&j, fbits());
    check!(imp(two, bits_eq(t.get_item(&i), v)), id + 3, "two elements share a place");
    t.fill_with_value(1.0);
    let w = t.get_item(&i);
    check!(imp(inside, w == 1.0), id + 4, "an element inside the announced shape is not filled");
}
fn tensor_file(strides: [u32; 3], shape: [u32; 3], len: u64, data: &[f32]) -> Vec<u8> {
    let mut v = vec![];
    v.extend(bincode::serialize(&strides).unwrap());
    v.extend(bincode::serialize(&shape).unwrap());
    v.extend(bincode::serialize(&len).unwrap());
    for x in data {
        v.extend(x.to_bits().to_le_bytes());
    }
    v
}
/// Whether tensor files have the layout that `tensor_file` writes.
fn known_layout(t: &Tensor) -> bool {
    let s = t.get_shape();
    let mut data = vec![];
    for (i, j, k) in each(s) {
        data.push(at(t, i, j, k));
    }
    let _ = t.save_to_file(&nm("layout.bin"));
    match std::fs::read("layout.bin") {
        Ok(v) => v[12..] == tensor_file([0; 3], [s.di, s.dj, s.dk], data.len() as u64, &data)[12..],
        Err(_) => false,
    }
}

harnesses! {
// ---------------------------------------------------------------- N07
fn n07_roundtrip() {
    precise();
    hash_seed(pick(0, by_tier(1, 3)));
    let c = pick(0, 3);
    let len = pick(0, 4);
    let (from, to) = (pick_bool(), pick_bool());
    let used = pick_bool();
    shard();
    let v = chain(c, len, &mut fbits);
    let mut n = network(&v, from);
    if used && len > 0 {
        check!(n.infer(&anybits(v[0].ins())).is_ok(), 1, "inference failed");
        if from {
            let g = anybits(n.get_output_shape());
            check!(n.backward(&g).is_ok(), 2, "backward failed");
        }
    }
    let before = snap(&n);
    check!(n.save_to_file(&file()).is_ok(), 3, "saving failed");
    unchanged(&n, &before, 10);
    let mut m = Network::new(state(to));
    check!(m.load_from_file(&file()).is_ok(), 4, "loading failed");
    is_made_of(&m, &v, &NAMES, 20);
    modes(&m, to, 30);
    works(&mut m, &v, 40);
    works(&mut n, &v, 50);
    // both give the bit-identical output in the same mode
    if len > 0 {
        switch(&mut m, from);
        let x = anybits(v[0].ins());
        check!(n.infer(&x).is_ok() & m.infer(&x).is_ok(), 5, "inference failed");
        check!(untouched(n.get_output().unwrap(), m.get_output().unwrap()), 6, "the loaded network gives another output");
        // and the copy of the copy is the same again
        check!(m.save_to_file(&nm("again.bin")).is_ok(), 7, "saving failed");
        let mut k = Network::new(state(from));
        check!(k.load_from_file(&nm("again.bin")).is_ok(), 8, "loading failed");
        is_made_of(&k, &v, &NAMES, 60);
    }
}
/// Every order of the stored entries of one layer in a chain of two.
fn n07_orders() {
    precise();
    let kind = pick(0, 3);
    let first = pick_bool();
    let order = pick(0, orders(kind) - 1);
    let training = pick_bool();
    shard();
    let s = one_spec(kind, &mut fbits);
    let v = if first { vec![s.clone(), Spec::Soft(s.outs())] } else { vec![Spec::Soft(s.ins()), s.clone()] };
    let at = not(first) as usize;
    let l: Vec<_> = v.iter().enumerate().map(|(q, s)| s.build(NAMES[q]).get_serialized()).collect();
    let parts: Vec<Vec<u8>> = l.iter().enumerate().map(|(q, d)| if q == at { bytes_in_order(d, order) } else { bincode::serialize(d).unwrap() }).collect();
    // (only meaningful while files are laid out like this)
    let whole = joined(&l.iter().map(|d| bincode::serialize(d).unwrap()).collect::<Vec<_>>());
    let mut own = network(&v, false);
    check!(own.save_to_file(&file()).is_ok(), 1, "saving failed");
    if saved().len() != whole.len() {
        return;
    }
    put(&joined(&parts));
    let mut m = Network::new(state(training));
    check!(m.load_from_file(&file()).is_ok(), 2, "loading failed");
    is_made_of(&m, &v, &NAMES, 10);
    modes(&m, training, 20);
    works(&mut m, &v, 30);
    works(&mut own, &v, 40);
}
/// Saving over an older, longer or shorter file.
fn n07_overwrite() {
    precise();
    let (a, b) = (pick(0, 3), pick(0, 3));
    let (x, y) = (pick(0, 4), pick(0, 4));
    shard();
    let (v, w) = (chain(a, x, &mut fbits), chain(b, y, &mut fbits));
    check!(network(&v, false).save_to_file(&file()).is_ok(), 1, "saving failed");
    check!(network(&w, true).save_to_file(&file()).is_ok(), 2, "saving over an existing file failed");
    let mut m = Network::new(NetworkRunState::Inference);
    check!(m.load_from_file(&file()).is_ok(), 3, "loading failed");
    is_made_of(&m, &w, &NAMES, 10);
}
/// Saved after every added layer and after another file was loaded into it.
fn n07_grow() {
    precise();
    let c = pick(0, 3);
    let same_file = pick_bool();
    let training = pick_bool();
    let ran = pick_bool();
    shard();
    let v = chain(c, by_tier(3, 4), &mut fbits);
    let name = |q: usize| if same_file { file() } else { nm(["0.bin", "1.bin", "2.bin", "3.bin", "4.bin", "5.bin"][q]) };
    let mut n = Network::new(state(training));
    let mut names = vec![];
    for q in 0..=v.len() {
        if q > 0 {
            check!(n.add_layer(Boxed(v[q - 1].build(NAMES[q - 1]))).is_ok(), 1, "a layer that chains was refused");
            names.push(NAMES[q - 1]);
        }
        if ran && q > 0 {
            check!(n.infer(&few_bits(v[0].ins())).is_ok(), 2, "inference failed");
        }
        check!(n.save_to_file(&name(q)).is_ok(), 3, "saving failed");
        let mut m = Network::new(state(not(training)));
        check!(m.load_from_file(&name(q)).is_ok(), 4, "loading failed");
        is_made_of(&m, &v[..q], &NAMES, 10);
    }
    // one more layer out of another file
    let more = Spec::Soft(v[v.len() - 1].outs());
    let mut one = Network::new(NetworkRunState::Inference);
    check!(one.add_layer(Boxed(more.build("last"))).is_ok(), 5, "a layer that chains was refused");
    check!(one.save_to_file(&nm("more.bin")).is_ok(), 6, "saving failed");
    check!(n.load_from_file(&nm("more.bin")).is_ok(), 7, "loading failed");
    check!(n.save_to_file(&name(5)).is_ok(), 8, "saving failed");
    let mut m = Network::new(state(training));
    check!(m.load_from_file(&name(5)).is_ok(), 9, "loading failed");
    let mut all = v.clone();
    all.push(more);
    names.push("last");
    is_made_of(&m, &all, &names, 20);
}
/// Names: repeated, empty, long and beyond ASCII, in chains that could be taken for each other.
fn n07_names() {
    precise();
    let len = pick(1, 4);
    let kind = pick(0, 2);
    let names: Vec<&str> = (0..len).map(|_| ["a", "b", "", "a name that is longer than any buffer of sixteen or thirty-two bytes; \u{e4}\u{20ac}\u{1f600}"][pick(0, by_tier(2, 3)) as usize]).collect();
    let training = pick_bool();
    shard();
    let v: Vec<Spec> = (0..len)
        .map(|q| match kind {
            0 => fc_spec(1, 1, 1, &mut fbits),
            1 => if q % 2 == 0 { Spec::Soft(sh(1, 1, 1)) } else { fc_spec(1, 1, 1, &mut fbits) },
            _ => match q { 0 => pool_spec((1, 1), (1, 1), 1, 1), 1 => conv_spec((1, 1), (1, 1), 1, 1, 1, &mut fbits), _ => Spec::Soft(sh(1, 1, 1)) },
        })
        .collect();
    let mut n = Network::new(state(training));
    for (q, s) in v.iter().enumerate() {
        check!(n.add_layer(Boxed(s.build(names[q]))).is_ok(), 1, "a layer that chains was refused");
    }
    check!(n.save_to_file(&file()).is_ok(), 2, "saving failed");
    is_made_of(&n, &v, &names, 10);
    let mut m = Network::new(state(not(training)));
    check!(m.load_from_file(&file()).is_ok(), 3, "loading failed");
    is_made_of(&m, &v, &names, 20);
    works(&mut m, &v, 30);
    // loading once more appends the same layers, whatever they are called
    check!(m.load_from_file(&file()).is_ok(), 4, "loading again failed");
    let mut w = v.clone();
    w.extend(v.iter().cloned());
    let mut twice = names.clone();
    twice.extend(names.iter());
    is_made_of(&m, &w, &twice, 40);
    modes(&m, not(training), 50);
}
/// Names with any ASCII characters.
fn n07_any_name() {
    precise();
    let kind = pick(0, 3);
    let len = pick(0, by_tier(3, 5));
    let two = pick_bool();
    shard();
    let name = |n: u32| {
        let v: Vec<u8> = (0..n).map(|_| u8s(0, 127)).collect();
        unsafe { String::from_utf8_unchecked(v) }
    };
    let s = one_spec(kind, &mut fbits);
    let mut v = vec![s.clone()];
    let mut names = vec![name(len)];
    if two {
        v.push(Spec::Soft(s.outs()));
        names.push(name(by_tier(1, 2)));
    }
    let mut n = Network::new(NetworkRunState::Inference);
    for (q, s) in v.iter().enumerate() {
        check!(n.add_layer(Boxed(s.build(&names[q]))).is_ok(), 1, "a layer that chains was refused");
    }
    check!(n.save_to_file(&file()).is_ok(), 2, "saving failed");
    let mut m = Network::new(NetworkRunState::Inference);
    check!(m.load_from_file(&file()).is_ok(), 3, "loading failed");
    check!(m.get_layers().len() == v.len(), 4, "number of layers");
    for (l, want) in m.get_layers().iter().zip(&names) {
        let got = l.get_name();
        check!(got.len() == want.len(), 5, "a name's length");
        if got.len() == want.len() {
            let mut ok = true;
            for (a, b) in got.bytes().zip(want.bytes()) {
                ok = and(ok, a == b);
            }
            check!(ok, 6, "a layer has another name");
        }
    }
    works(&mut m, &v, 10);
}
/// Longer chains and larger layers.
fn n07_long() {
    precise();
    let c = pick(0, 4);
    let (from, to) = (pick_bool(), pick_bool());
    shard();
    let v = long_chain(c, &mut fbits);
    let names: Vec<String> = (0..v.len()).map(|q| format!("layer {}", q)).collect();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let mut n = Network::new(state(from));
    for (q, s) in v.iter().enumerate() {
        check!(n.add_layer(Boxed(s.build(names[q]))).is_ok(), 1, "a layer that chains was refused");
    }
    check!(n.save_to_file(&file()).is_ok(), 2, "saving failed");
    let mut m = Network::new(state(to));
    check!(m.load_from_file(&file()).is_ok(), 3, "loading failed");
    is_made_of(&m, &v, &names, 10);
    modes(&m, to, 20);
    works(&mut m, &v, 30);
}
// ---------------------------------------------------------------- N08
/// A tensor file with any announced shape and strides, any announced length, and a few elements.
fn n08_tensor_shape() {
    precise();
    let have = pick(0, by_tier(4, 6));
    let len = match pick(0, 5) { 0 => have as u64, 1 => have as u64 + 1, 2 => (have as u64).saturating_sub(1), 3 => u64::MAX, 4 => 1 << 32, _ => 1 << 61 };
    let known = known_layout(&make(sh(1, 2, 1), &mut || 1.5));
    cover(known, 1);
    if !known {
        return;
    }
    let strides = [u32s(0, u32::MAX), u32s(0, u32::MAX), u32s(0, u32::MAX)];
    let m = by_tier(63, 255);
    let shape = [u32s(0, m), u32s(0, m), u32s(0, m)];
    let data: Vec<f32> = (0..have).map(|_| fbits()).collect();
    check!(std::fs::write("t.bin", tensor_file(strides, shape, len, &data)).is_ok(), 1, "the scratch file cannot be written");
    match Tensor::from_file(&nm("t.bin")) {
        Ok(t) => {
            check!(len <= have as u64, 2, "a tensor with missing elements was accepted");
            let s = t.get_shape();
            check!(shape_eq(&s, &sh(shape[0], shape[1], shape[2])), 3, "another shape than the file's");
            let p = shape[0] as u64 * shape[1] as u64;
            check!(and(p <= u32::MAX as u64, (p & 0xffff_ffff) * shape[2] as u64 == len), 4, "another number of elements than the shape says");
            cover(true, 2);
        }
        Err(_) => cover(true, 3),
    }
}
/// The same with shapes from a list, and used afterwards.
fn n08_tensor_use() {
    precise();
    let have = pick(0, by_tier(4, 6));
    let len = match pick(0, 3) { 0 => have as u64, 1 => have as u64 + 1, 2 => (have as u64).saturating_sub(1), _ => u64::MAX };
    let d = |n: u32| [0, 1, 2, 3, 4, 65536, 1 << 31, u32::MAX][n as usize];
    let shape = [d(pick(0, 7)), d(pick(0, 7)), d(pick(0, 7))];
    shard();
    let known = known_layout(&make(sh(1, 2, 1), &mut || 1.5));
    cover(known, 1);
    if !known {
        return;
    }
    let strides = [u32s(0, u32::MAX), u32s(0, u32::MAX), u32s(0, u32::MAX)];
    let data: Vec<f32> = (0..have).map(|_| fbits()).collect();
    check!(std::fs::write("t.bin", tensor_file(strides, shape, len, &data)).is_ok(), 1, "the scratch file cannot be written");
    if let Ok(mut t) = Tensor::from_file(&nm("t.bin")) {
        check!(len <= have as u64, 2, "a tensor with missing elements was accepted");
        check!(shape_eq(&t.get_shape(), &sh(shape[0], shape[1], shape[2])), 3, "another shape than the file's");
        consistent(&mut t, 10);
        cover(true, 2);
    }
}
/// Every truncation and every damaged byte of a tensor file.
fn n08_tensor_damaged() {
    precise();
    let s = [sh(1, 1, 1), sh(2, 1, 1), sh(1, 2, 2)][pick(0, 2) as usize];
    let name = nm("t.bin");
    let save = |v: u32| {
        let mut t = Tensor::new(s);
        t.fill_with_value(f32::from_bits(v));
        check!(t.save_to_file(&name).is_ok(), 1, "saving failed");
        std::fs::read("t.bin").unwrap_or_default()
    };
    let (zeros, ones) = (save(0), save(!0));
    let a = anybits(s);
    check!(a.save_to_file(&name).is_ok(), 2, "saving failed");
    let mut bytes = std::fs::read("t.bin").unwrap_or_default();
    let how = pick(0, 2);
    let at = pick(0, bytes.len() as u32 - 1) as usize;
    match how {
        0 => bytes.truncate(at),
        1 => bytes[at] = damaged_value(zeros[at] == ones[at]),
        _ => bytes.insert(at, damaged_value(true)),
    }
    shard();
    check!(std::fs::write("t.bin", &bytes).is_ok(), 3, "the scratch file cannot be written");
    if let Ok(mut t) = Tensor::from_file(&name) {
        let z = t.get_shape();
        assume(z.di <= 300 && z.dj <= 300 && z.dk <= 300);
        consistent(&mut t, 10);
    } else if how == 1 {
        check!(zeros[at] == ones[at], 4, "a file with other element values was refused");
    }
}
/// Every truncation and every damaged byte of any entry of one of two layers, or of the frame.
fn n08_network_damaged() {
    precise();
    let kind = pick(0, 3);
    let training = pick_bool();
    let first = pick_bool();
    let entry = pick(0, [3, 5, 4, 2][kind as usize]);
    let s = one_spec(kind, &mut fbits);
    let v = if first { vec![s.clone(), Spec::Soft(s.outs())] } else { vec![Spec::Soft(s.ins()), s.clone()] };
    let mut l: Vec<_> = v.iter().enumerate().map(|(q, s)| s.build(NAMES[q]).get_serialized()).collect();
    let d = &mut l[not(first) as usize];
    if entry == [3, 5, 4, 2][kind as usize] {
        // the bytes around the entries, or the whole
        let parts: Vec<Vec<u8>> = l.iter().map(|d| bincode::serialize(d).unwrap()).collect();
        let mut bytes = joined(&parts);
        let cut = pick_bool();
        let at = if cut { pick(0, bytes.len() as u32 - 1) } else { pick(0, by_tier(19, 39)) } as usize;
        if cut {
            bytes.truncate(at);
        } else {
            bytes[at] = damaged_value(true);
        }
        shard();
        put(&bytes);
    } else {
        let bytes = copy_entry(d, entry);
        let cut = pick_bool();
        let at = pick(0, bytes.len() as u32 - 1);
        let value = if cut { 0 } else { damaged_value(structural(kind, entry, at)) };
        shard();
        with_entry(d, entry, &mut |v| {
            if cut {
                v.truncate(at as usize);
            } else {
                v[at as usize] = value;
            }
            0
        });
        small_sizes(d);
        put(&joined(&l.iter().map(|d| bincode::serialize(d).unwrap()).collect::<Vec<_>>()));
    }
    let (mut n, have) = receiver(0, v[0].ins(), training);
    guarded(&mut n, &have, None, 10);
}
/// Layers whose parts are each fine but do not fit together.
fn n08_inconsistent() {
    precise();
    let which = pick(0, 3);
    let training = pick_bool();
    let small = |n: u32| sh(1 + n % 2, 1 + n / 2 % 2, 1 + n / 4 % 2);
    let data = match which {
        0 => {
            // weights and bias of any small shapes
            let (a, b) = (pick(0, 7), pick(0, 7));
            let mut m = HashMap::new();
            m.insert(rusty_network::layer::fully_connected::FullyConnectedSerialKeys::Weights, bincode::serialize(&anybits(small(a))).unwrap());
            m.insert(rusty_network::layer::fully_connected::FullyConnectedSerialKeys::Bias, bincode::serialize(&anybits(small(b))).unwrap());
            m.insert(rusty_network::layer::fully_connected::FullyConnectedSerialKeys::Name, bincode::serialize(&nm("x")).unwrap());
            SerializedLayer::SerialFullyConnectedLayer(m)
        }
        1 => {
            use rusty_network::layer::convolutional::ConvolutionalSerialKeys as K;
            let (nk, nb) = (pick(0, 2), pick(0, 2));
            let (k0, k1) = (pick(0, 7), if nk == 2 { pick(0, 7) } else { 0 });
            let odd_bias = nb == 2 && k0 == k1 && pick_bool();
            let st = pick(0, 2);
            let img = [sh(0, 0, 0), sh(1, 1, 1), sh(2, 2, 2), sh(3, 2, 1), sh(u32::MAX, 1, 1), sh(u32::MAX, u32::MAX, u32::MAX)][pick(0, 5) as usize];
            assume(nk == nb || k0 == 0 && k1 == 0);
            // (an image of this size is only refused when something else is wrong; too much memory)
            let w = small(k0);
            let fits = nk > 0 && nk == nb && k0 * (nk - 1) == k1 && not(odd_bias) && w.dk == img.dk && positions(img.di, w.di, st).is_some() && positions(img.dj, w.dj, st).is_some();
            assume(img.di < 4 || not(fits));
            let ks: Vec<Tensor> = (0..nk).map(|q| anybits(small(if q == 0 { k0 } else { k1 }))).collect();
            let bs: Vec<Tensor> = (0..nb).map(|q| anybits(if q == 1 && odd_bias { sh(1, 2, 1) } else { sh(1, 1, 1) })).collect();
            let mut m = HashMap::new();
            m.insert(K::Kernels, bincode::serialize(&ks).unwrap());
            m.insert(K::Biases, bincode::serialize(&bs).unwrap());
            m.insert(K::InputShape, bincode::serialize(&img).unwrap());
            m.insert(K::Stride, bincode::serialize(&st).unwrap());
            m.insert(K::Name, bincode::serialize(&nm("x")).unwrap());
            SerializedLayer::SerialConvolutionalLayer(m)
        }
        2 => {
            let st = [0, 1, 2, 3, u32::MAX][pick(0, 4) as usize];
            let z = [0, 1, 2, 3, u32::MAX];
            let img = sh(z[pick(0, 4) as usize], z[pick(0, 4) as usize], 1);
            let win = sh(z[pick(0, 4) as usize], [0, 1, 2][pick(0, 2) as usize], pick(0, 1));
            // (images of this size are only refused when something else is wrong; too much memory)
            assume(img.di < 4 || img.dj < 4);
            let fits = positions(img.di, win.di, st).is_some() && positions(img.dj, win.dj, st).is_some();
            assume(not(fits) || img.di < 4 && img.dj < 4);
            let mut m = HashMap::new();
            m.insert(MaxPoolSerialKeys::InputShape, bincode::serialize(&img).unwrap());
            m.insert(MaxPoolSerialKeys::MaskShape, bincode::serialize(&win).unwrap());
            m.insert(MaxPoolSerialKeys::Stride, bincode::serialize(&st).unwrap());
            m.insert(MaxPoolSerialKeys::Name, bincode::serialize(&nm("x")).unwrap());
            SerializedLayer::SerialMaxPoolLayer(m)
        }
        _ => {
            let s = [sh(0, 0, 0), sh(1, 0, 1), sh(2, 1, 1), sh(65536, 65536, 1), sh(u32::MAX, u32::MAX, u32::MAX), sh(1 << 31, 2, 1)][pick(0, 5) as usize];
            let mut m = HashMap::new();
            m.insert(SoftMaxSerialKeys::Shape, bincode::serialize(&s).unwrap());
            m.insert(SoftMaxSerialKeys::Name, bincode::serialize(&nm("x")).unwrap());
            SerializedLayer::SerialSoftMaxLayer(m)
        }
    };
    shard();
    put(&joined(&[bincode::serialize(&data).unwrap()]));
    let (mut n, have) = receiver(0, sh(1, 1, 1), training);
    guarded(&mut n, &have, None, 10);
}
/// Any few bytes.
fn n08_any_bytes() {
    precise();
    let n = pick(0, 35);
    let tensor = pick_bool();
    let mut v: Vec<u8> = (0..n).map(|_| u8s(0, 255)).collect();
    if tensor {
        // (30 bytes hold a tensor's frame, 36 an element as well)
        assume(n < 32);
        put(&v);
        check!(Tensor::from_file(&file()).is_err(), 1, "a file shorter than any tensor was accepted");
    } else {
        // the number of layers; anything but zero needs more bytes
        let count = [0, 1, 2, 255, 1 << 32, u64::MAX][pick(0, 5) as usize];
        let kind = [0, 1, 2, 3, 4, 1 << 24][pick(0, 5) as usize];
        let entries = [1, 2, 5, u64::MAX][pick(0, 3) as usize];
        let key = [0, 1, 2, 3, 4, 5, 1 << 16][pick(0, 6) as usize];
        assume(n > 8 || kind == 0 && entries == 1 && key == 0);
        assume(n > 12 || entries == 1 && key == 0);
        assume(n > 20 || key == 0);
        let mut frame = vec![];
        frame.extend(u64::to_le_bytes(count));
        frame.extend(u32::to_le_bytes(kind));
        frame.extend(u64::to_le_bytes(entries));
        frame.extend(u32::to_le_bytes(key));
        shard();
        for (a, b) in v.iter_mut().zip(frame) {
            *a = b;
        }
        for b in v.iter_mut().skip(24) {
            // the length of the entry: what is there is too short for it, or nothing
            *b = 1;
        }
        put(&v);
        let mut m = Network::new(NetworkRunState::Inference);
        let r = m.load_from_file(&file());
        check!(r.is_ok() == (n >= 8 && count == 0), 2, "a file without complete layers was accepted, or one without layers refused");
        check!(m.get_layers().is_empty(), 3, "layers appeared");
    }
}
// ---------------------------------------------------------------- N09
/// Loading into a network that has layers: appended when they chain, otherwise nothing happens.
fn n09_append() {
    precise();
    let c = pick(0, 3);
    let len = pick(0, 3);
    let have = pick(0, 2);
    let fits = pick_bool();
    let training = pick_bool();
    let used = pick_bool();
    shard();
    let v = chain(c, len, &mut fbits);
    check!(network(&v, false).save_to_file(&file()).is_ok(), 1, "saving failed");
    let i = if len > 0 { v[0].ins() } else { sh(1, 1, 1) };
    let (mut n, mut all) = receiver(have, if fits { i } else { sh(i.di, i.dj + 1, i.dk) }, training);
    if used && have > 0 {
        check!(n.infer(&anybits(all[0].ins())).is_ok(), 2, "inference failed");
    }
    let before = snap(&n);
    let r = n.load_from_file(&file());
    check!(r.is_ok() == (fits || have == 0 || len == 0), 3, "accepts exactly the files whose layers chain");
    if r.is_ok() {
        all.extend(v);
        let names: Vec<&str> = NAMES[..have as usize].iter().chain(NAMES.iter()).copied().collect();
        is_made_of(&n, &all, &names, 10);
        modes(&n, training, 20);
        works(&mut n, &all, 30);
    } else {
        unchanged(&n, &before, 40);
        works(&mut n, &all, 50);
        // it can still be extended
        let o = n.get_output_shape();
        check!(n.add_layer(Boxed(Spec::Soft(o).build("more"))).is_ok(), 4, "a layer that chains was refused");
        all.push(Spec::Soft(o));
        works(&mut n, &all, 60);
    }
}
/// A file whose first layers are fine.
fn n09_bad_tail() {
    precise();
    let good = pick(0, 2);
    let bad = pick(0, 5);
    let have = pick(0, 2);
    let training = pick_bool();
    let used = pick_bool();
    shard();
    let s = sh(2, 1, 1);
    let mut parts: Vec<Vec<u8>> = vec![];
    if good >= 1 {
        parts.push(bincode::serialize(&Spec::Soft(s).build("g").get_serialized()).unwrap());
    }
    if good >= 2 {
        parts.push(bincode::serialize(&fc_spec(2, 2, 1, &mut fbits).build("h").get_serialized()).unwrap());
    }
    let mut last = fc_spec(2, 1, 1, &mut fbits).build("bad").get_serialized();
    let mut tail = None;
    match bad {
        // does not chain
        0 => last = Spec::Soft(sh(2, 2, 1)).build("bad").get_serialized(),
        // an entry is missing or broken
        1 => {
            if let SerializedLayer::SerialFullyConnectedLayer(m) = &mut last {
                m.remove(&rusty_network::layer::fully_connected::FullyConnectedSerialKeys::Bias);
            }
        }
        2 => {
            with_entry(&mut last, 0, &mut |v| {
                v.truncate(7);
                0
            });
        }
        // the bias does not fit the weights
        3 => {
            let b = bincode::serialize(&anybits(sh(2, 1, 1))).unwrap();
            with_entry(&mut last, 1, &mut |v| {
                *v = b.clone();
                0
            });
        }
        // an unknown kind
        4 => tail = Some(vec![9u8, 0, 0, 0]),
        // the file ends early
        _ => {
            let mut v = bincode::serialize(&last).unwrap();
            v.truncate(v.len() - 3);
            tail = Some(v);
        }
    }
    parts.push(tail.unwrap_or_else(|| bincode::serialize(&last).unwrap()));
    let (mut n, all) = receiver(have, s, training);
    if used && have > 0 {
        check!(n.infer(&anybits(s)).is_ok(), 1, "inference failed");
    }
    // alone in an empty network, any valid layer is accepted
    if bad == 0 && good == 0 && have == 0 {
        return;
    }
    put(&joined(&parts));
    let before = snap(&n);
    check!(n.load_from_file(&file()).is_err(), 2, "a broken file was accepted");
    unchanged(&n, &before, 10);
    works(&mut n, &all, 20);
    if training && have > 0 {
        switch(&mut n, false);
        works(&mut n, &all, 30);
    }
    // a good file loads afterwards
    let good = vec![fc_spec(2, 1, 1, &mut fbits)];
    check!(network(&good, false).save_to_file(&file()).is_ok(), 3, "saving failed");
    check!(n.load_from_file(&file()).is_ok(), 4, "a good file was refused after a bad one");
    let mut all = all;
    all.extend(good);
    works(&mut n, &all, 40);
}
fn n09_damaged() {
    precise();
    let kind = pick(0, 3);
    let have = pick(1, 2);
    let training = pick_bool();
    let entry = pick(0, [3, 5, 4, 2][kind as usize] - 1);
    let s = one_spec(kind, &mut fbits);
    let mut l = s.build("l").get_serialized();
    let bytes = copy_entry(&mut l, entry);
    let cut = pick_bool();
    let at = pick(0, bytes.len() as u32 - 1);
    let value = if cut { 0 } else { damaged_value(structural(kind, entry, at)) };
    shard();
    with_entry(&mut l, entry, &mut |v| {
        if cut {
            v.truncate(at as usize);
        } else {
            v[at as usize] = value;
        }
        0
    });
    small_sizes(&l);
    put(&joined(&[bincode::serialize(&Spec::Soft(s.ins()).build("g").get_serialized()).unwrap(), bincode::serialize(&l).unwrap()]));
    let (mut n, all) = receiver(have, s.ins(), training);
    guarded(&mut n, &all, None, 10);
}
/// Faults while loading.
fn n09_faults() {
    precise();
    let have = pick(0, 2);
    let training = pick_bool();
    let (k, kind) = (pick(0, 5), pick(1, 4));
    shard();
    let v = vec![fc_spec(2, 1, 1, &mut fbits)];
    check!(network(&v, false).save_to_file(&file()).is_ok(), 1, "saving failed");
    let (mut n, mut all) = receiver(have, sh(2, 1, 1), training);
    let before = snap(&n);
    fault(k, kind);
    let r = n.load_from_file(&file());
    let hit = fs_ops() > k;
    fault(0, F_NONE);
    cover(hit, 1);
    if hit && kind == F_ERR {
        check!(r.is_err(), 2, "a failed system call was not reported by loading");
    }
    if not(hit) || kind == F_EINTR || kind == F_SHORT {
        check!(r.is_ok(), 3, "loading failed although every call succeeded or was retriable");
    }
    if r.is_err() {
        unchanged(&n, &before, 10);
        check!(n.load_from_file(&file()).is_ok(), 4, "loading failed after the fault was gone");
    }
    all.extend(v);
    let names: Vec<&str> = NAMES[..have as usize].iter().chain(NAMES.iter()).copied().collect();
    is_made_of(&n, &all, &names, 20);
    works(&mut n, &all, 30);
}
// ---------------------------------------------------------------- N10
/// Up to two faults while saving or loading a network.
fn n10_network() {
    precise();
    let (k, kind) = (pick(0, 5), pick(1, 4));
    let (k2, kind2) = (pick(1, 5), pick(0, 4));
    assume(kind2 == 0 && k2 == 1 || kind2 != 0 && k2 > k);
    let on_save = pick_bool();
    let old = pick_bool();
    shard();
    let v = vec![fc_spec(1, 2, 1, &mut fbits)];
    let w = vec![Spec::Soft(sh(2, 2, 2)), conv_spec((1, 1), (2, 2), 2, 1, 1, &mut fbits)];
    if old {
        check!(network(&w, false).save_to_file(&file()).is_ok(), 1, "saving failed");
    }
    let n = network(&v, false);
    let start = |k: u32, kind: u32, k2: u32, kind2: u32| {
        fault(k, kind);
        if kind2 != 0 {
            fault(k2, kind2);
        }
    };
    let worst = |ops: u32| {
        let a = if ops > k { kind } else { 0 };
        let b = if ops > k2 { kind2 } else { 0 };
        let hard = a == F_ERR || b == F_ERR;
        let zero = a == F_ZERO || b == F_ZERO;
        (hard, zero)
    };
    if on_save {
        start(k, kind, k2, kind2);
        let r = n.save_to_file(&file());
        let (hard, zero) = worst(fs_ops());
        fault(0, F_NONE);
        if hard {
            check!(r.is_err(), 2, "a failed system call was not reported by saving");
        }
        if not(hard) && not(zero) {
            check!(r.is_ok(), 3, "saving failed although every call succeeded or was retriable");
        }
        if r.is_ok() {
            let mut m = Network::new(NetworkRunState::Inference);
            check!(m.load_from_file(&file()).is_ok(), 4, "saving reported success but the file cannot be loaded");
            is_made_of(&m, &v, &NAMES, 10);
        }
        cover(hard, 1);
    } else {
        check!(n.save_to_file(&file()).is_ok(), 5, "saving failed");
        let mut m = Network::new(NetworkRunState::Inference);
        start(k, kind, k2, kind2);
        let r = m.load_from_file(&file());
        let (hard, zero) = worst(fs_ops());
        fault(0, F_NONE);
        if hard {
            check!(r.is_err(), 6, "a failed system call was not reported by loading");
        }
        if not(hard) && not(zero) {
            check!(r.is_ok(), 7, "loading failed although every call succeeded or was retriable");
        }
        if r.is_ok() {
            is_made_of(&m, &v, &NAMES, 30);
        } else {
            check!(m.get_layers().is_empty(), 8, "a failed load left layers");
        }
        cover(hard, 2);
    }
}
fn n10_tensor() {
    precise();
    let (k, kind) = (pick(0, 5), pick(1, 4));
    let (k2, kind2) = (pick(1, 5), pick(0, 4));
    assume(kind2 == 0 && k2 == 1 || kind2 != 0 && k2 > k);
    let on_save = pick_bool();
    let old = pick_bool();
    shard();
    let name = nm("t.bin");
    let a = anybits(sh(2, 1, 2));
    if old {
        check!(anybits(sh(3, 2, 1)).save_to_file(&name).is_ok(), 1, "saving failed");
    }
    if not(on_save) {
        check!(a.save_to_file(&name).is_ok(), 2, "saving failed");
    }
    fault(k, kind);
    if kind2 != 0 {
        fault(k2, kind2);
    }
    let (r, t) = if on_save { (a.save_to_file(&name).is_ok(), None) } else { let t = Tensor::from_file(&name).ok(); (t.is_some(), t) };
    let ops = fs_ops();
    fault(0, F_NONE);
    let (x, y) = (if ops > k { kind } else { 0 }, if ops > k2 { kind2 } else { 0 });
    let hard = x == F_ERR || y == F_ERR;
    let zero = x == F_ZERO || y == F_ZERO;
    if hard {
        check!(not(r), 3, "a failed system call was not reported");
    }
    if not(hard) && not(zero) {
        check!(r, 4, "failed although every call succeeded or was retriable");
    }
    if r {
        match t.or_else(|| Tensor::from_file(&name).ok()) {
            Some(b) => check!(untouched_bits(&a, &b), 5, "success was reported but the tensor differs"),
            None => check!(false, 6, "success was reported but the file cannot be loaded"),
        }
    }
    cover(hard, 1);
}
/// Files that cannot be opened.
fn n10_missing() {
    precise();
    let training = pick_bool();
    let empty = pick_bool();
    let v = if empty { vec![] } else { vec![fc_spec(1, 2, 1, &mut fbits)] };
    let mut n = network(&v, training);
    let before = snap(&n);
    check!(n.save_to_file(&nm("no/such/dir/n.bin")).is_err(), 1, "saving into a directory that does not exist succeeded");
    check!(n.load_from_file(&nm("absent.bin")).is_err(), 2, "loading a file that does not exist succeeded");
    check!(n.load_from_file(&nm("no/such/dir/n.bin")).is_err(), 3, "loading from a directory that does not exist succeeded");
    check!(n.save_to_file(&nm("")).is_err(), 6, "saving without a name succeeded");
    check!(n.load_from_file(&nm("")).is_err(), 7, "loading without a name succeeded");
    check!(n.load_from_file(&nm("a\0b")).is_err(), 8, "a name with a zero byte was accepted");
    unchanged(&n, &before, 10);
    works(&mut n, &v, 20);
}
}
