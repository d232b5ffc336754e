//! L10: layers and their serialized form.
use crate::lay::*;
use crate::sx::*;
use rusty_network::layer::convolutional::*;
use rusty_network::layer::fully_connected::*;
use rusty_network::layer::max_pool::*;
use rusty_network::layer::softmax::*;
use rusty_network::layer::*;
use rusty_network::network::NetworkRunState;
use rusty_network::tensor::Tensor;
use serde::Serialize;
use std::collections::HashMap;

pub fn empty(kind: u32) -> Box<dyn Layer> {
    match kind {
        0 => Box::new(FullyConnectedLayer::empty()),
        1 => Box::new(ConvolutionalLayer::empty()),
        2 => Box::new(MaxPoolLayer::empty()),
        _ => Box::new(SoftmaxLayer::empty()),
    }
}
/// The same bytes as the serialized form, with the entries in the n-th order.
fn ordered<K: Serialize + std::hash::Hash + Eq>(head: Vec<u8>, m: &HashMap<K, Vec<u8>>, keys: Vec<K>, mut n: u32) -> Vec<u8> {
    let mut left: Vec<Vec<u8>> = vec![];
    for k in keys {
        if let Some(v) = m.get(&k) {
            left.push(bincode::serialize(&(&k, v)).unwrap());
        }
    }
    let mut out = head;
    out.extend(bincode::serialize(&(left.len() as u64)).unwrap());
    while !left.is_empty() {
        let i = n as usize % left.len();
        n /= left.len() as u32;
        out.extend(left.remove(i));
    }
    out
}
pub fn orders(kind: u32) -> u32 {
    [6, 120, 24, 2][kind as usize]
}
pub fn bytes_in_order(s: &SerializedLayer, n: u32) -> Vec<u8> {
    let head = bincode::serialize(s).unwrap()[..4].to_vec();
    match s {
        SerializedLayer::SerialFullyConnectedLayer(m) => ordered(head, m, vec![FullyConnectedSerialKeys::Weights, FullyConnectedSerialKeys::Bias, FullyConnectedSerialKeys::Name], n),
        SerializedLayer::SerialConvolutionalLayer(m) => ordered(
            head,
            m,
            vec![ConvolutionalSerialKeys::Kernels, ConvolutionalSerialKeys::Biases, ConvolutionalSerialKeys::InputShape, ConvolutionalSerialKeys::Stride, ConvolutionalSerialKeys::Name],
            n,
        ),
        SerializedLayer::SerialMaxPoolLayer(m) => ordered(head, m, vec![MaxPoolSerialKeys::InputShape, MaxPoolSerialKeys::MaskShape, MaxPoolSerialKeys::Stride, MaxPoolSerialKeys::Name], n),
        SerializedLayer::SerialSoftMaxLayer(m) => ordered(head, m, vec![SoftMaxSerialKeys::Shape, SoftMaxSerialKeys::Name], n),
    }
}
fn without(s: &mut SerializedLayer, n: u32) {
    match s {
        SerializedLayer::SerialFullyConnectedLayer(m) => {
            m.remove(&[FullyConnectedSerialKeys::Weights, FullyConnectedSerialKeys::Bias, FullyConnectedSerialKeys::Name][n as usize]);
        }
        SerializedLayer::SerialConvolutionalLayer(m) => {
            let k = [ConvolutionalSerialKeys::Kernels, ConvolutionalSerialKeys::Biases, ConvolutionalSerialKeys::InputShape, ConvolutionalSerialKeys::Stride, ConvolutionalSerialKeys::Name];
            m.remove(&k[n as usize]);
        }
        SerializedLayer::SerialMaxPoolLayer(m) => {
            m.remove(&[MaxPoolSerialKeys::InputShape, MaxPoolSerialKeys::MaskShape, MaxPoolSerialKeys::Stride, MaxPoolSerialKeys::Name][n as usize]);
        }
        SerializedLayer::SerialSoftMaxLayer(m) => {
            m.remove(&[SoftMaxSerialKeys::Shape, SoftMaxSerialKeys::Name][n as usize]);
        }
    }
}
fn entries(kind: u32) -> u32 {
    [3, 5, 4, 2][kind as usize]
}
pub fn same_bits(a: &Option<Shown>, b: &Option<Shown>) -> bool {
    let (Some(a), Some(b)) = (a, b) else { return false };
    if a.kind != b.kind || a.sizes != b.sizes || a.name != b.name || a.params.len() != b.params.len() {
        return false;
    }
    let mut ok = true;
    for (p, q) in a.params.iter().zip(b.params.iter()) {
        ok = and(ok, untouched_bits(p, q));
    }
    ok
}
/// Both layers give the bit-identical output on any input, in the given mode.
fn same_behaviour(a: &mut dyn Layer, b: &mut dyn Layer, s: &Spec, training: bool, id: u32) {
    check!(and(shape_eq(&a.get_input_shape(), &b.get_input_shape()), shape_eq(&a.get_output_shape(), &b.get_output_shape())), id, "the shapes differ");
    check!(and(shape_eq(&a.get_input_shape(), &s.ins()), shape_eq(&a.get_output_shape(), &s.outs())), id + 1, "the shapes changed");
    check!(a.get_name() == b.get_name(), id + 2, "the names differ");
    set_mode(a, training);
    set_mode(b, training);
    let x = if matches!(s, Spec::Pool(..)) { few_bits(s.ins()) } else { anybits(s.ins()) };
    let (mut y, mut z) = (anybits(s.outs()), anybits(s.outs()));
    check!(a.forward(&x, &mut y).is_ok(), id + 3, "the layer does not run");
    check!(b.forward(&x, &mut z).is_ok(), id + 4, "the restored layer does not run");
    check!(untouched(&y, &z), id + 5, "the outputs differ");
    if training {
        let g = anybits(s.outs());
        let (mut h, mut e) = (anybits(s.ins()), anybits(s.ins()));
        check!(a.backward(&x, &y, &g, &mut h).is_ok() == b.backward(&x, &z, &g, &mut e).is_ok(), id + 6, "only one of them runs backwards");
        check!(untouched(&h, &e), id + 7, "the gradients differ");
    }
}

harnesses! {
fn l10_roundtrip() {
    precise();
    hash_seed(pick(0, by_tier(1, 3)));
    let kind = pick(0, 3);
    let s = any_spec(kind, &mut fbits);
    let used = pick_bool();
    let training = pick_bool();
    let name = if pick_bool() { "l\u{e4}yer 1" } else { "" };
    shard();
    let a = &mut *s.build(name);
    if used {
        let x = if kind == 2 { few_bits(s.ins()) } else { anybits(s.ins()) };
        let mut y = anybits(s.outs());
        a.switch_to_training();
        check!(a.forward(&x, &mut y).is_ok(), 1, "forward failed");
    }
    set_mode(a, training);
    let before = show(a);
    let data = a.get_serialized();
    check!(same_bits(&before, &show(a)), 2, "serializing changed the layer");
    check!((a.get_run_mode() == NetworkRunState::Training) == training, 3, "serializing changed the mode");
    let b = &mut *empty(kind);
    check!(b.load_from_serialized(&data).is_ok(), 4, "restoring failed");
    check!(same_bits(&before, &show(b)), 5, "the restored layer differs");
    check!(b.get_name() == name, 6, "the name differs");
    let got = params_of(b);
    for (p, q) in got.iter().zip(s.params().iter()) {
        check!(untouched_bits(p, q), 7, "a restored parameter differs");
    }
    check!(got.len() == s.params().len(), 8, "number of parameters");
    same_behaviour(a, b, &s, training, 10);
}
/// The serialized form as bytes, with the entries in every order; into a layer that was used for
/// something else before.
fn l10_orders() {
    precise();
    let kind = pick(0, 3);
    let n = pick(0, orders(kind) - 1);
    let training = pick_bool();
    shard();
    let s = one_spec(kind, &mut fbits);
    let a = &mut *s.build("a");
    let bytes = bytes_in_order(&a.get_serialized(), n);
    match bincode::deserialize::<SerializedLayer>(&bytes) {
        Ok(data) => {
            let o = match kind {
                0 => fc_spec(1, 3, 1, &mut fbits),
                1 => conv_spec((1, 1), (1, 2), 2, 1, 2, &mut fbits),
                2 => pool_spec((2, 2), (1, 1), 2, 2),
                _ => Spec::Soft(crate::sx::sh(1, 3, 1)),
            };
            let b = &mut *o.build("other");
            set_mode(b, training);
            check!(b.load_from_serialized(&data).is_ok(), 1, "restoring failed");
            check!(same_bits(&show(a), &show(b)), 2, "the restored layer differs");
            check!((b.get_run_mode() == NetworkRunState::Training) == training, 3, "restoring changed the mode");
            // without another switch, which would hide stale helper tensors
            let x = anybits(s.ins());
            let (mut y, mut z) = (anybits(s.outs()), anybits(s.outs()));
            set_mode(a, training);
            check!(a.forward(&x, &mut y).is_ok(), 4, "the layer does not run");
            check!(b.forward(&x, &mut z).is_ok(), 5, "the restored layer does not run");
            check!(untouched(&y, &z), 6, "the outputs differ");
            same_behaviour(a, b, &s, not(training), 10);
        }
        Err(_) => check!(false, 7, "the bytes cannot be read back"),
    }
}
fn l10_refuse() {
    precise();
    hash_seed(pick(0, 1));
    let (kind, other) = (pick(0, 3), pick(0, 3));
    let missing = if kind == other { pick(0, entries(kind) - 1) } else { pick(0, 0) };
    let training = pick_bool();
    shard();
    let s = one_spec(kind, &mut fbits);
    let l = &mut *s.build("kept");
    set_mode(l, training);
    let t = match other {
        0 => fc_spec(1, 1, 1, &mut fbits),
        1 => conv_spec((1, 1), (1, 1), 1, 1, 1, &mut fbits),
        2 => pool_spec((1, 1), (1, 1), 1, 1),
        _ => Spec::Soft(crate::sx::sh(1, 1, 1)),
    };
    let mut data = t.build("given").get_serialized();
    if kind == other {
        without(&mut data, missing);
    }
    let before = show(l);
    check!(l.load_from_serialized(&data).is_err(), 1, "incomplete or foreign data was accepted");
    check!(same_bits(&before, &show(l)), 2, "refused data changed the layer");
    check!((l.get_run_mode() == NetworkRunState::Training) == training, 3, "refused data changed the mode");
    same_behaviour(&mut *s.build("kept"), l, &s, training, 10);
}
/// Every truncation, and damage of every single byte of one entry (any value for a byte of a
/// number, one of several for a byte of a size, a tag or a text): an error leaves the layer as it
/// was, and a success gives a layer that runs.
fn l10_damaged() {
    precise();
    let kind = pick(0, 3);
    let entry = pick(0, entries(kind) - 1);
    let s = one_spec(kind, &mut fbits);
    let l = &mut *s.build("kept");
    let mut data = l.get_serialized();
    let bytes = copy_entry(&mut data, entry);
    let cut = pick_bool();
    let at = pick(0, bytes.len() as u32 - 1);
    let structural = copy_entry(&mut one_spec(kind, &mut || f32::from_bits(0)).build("kept").get_serialized(), entry)[at as usize]
        == copy_entry(&mut one_spec(kind, &mut || f32::from_bits(!0)).build("kept").get_serialized(), entry)[at as usize];
    let value = if cut {
        0
    } else if structural {
        [0, 1, 2, 3, 7, 64, 128, 255][pick(0, 7) as usize]
    } else {
        u8s(0, 255)
    };
    shard();
    with_entry(&mut data, entry, &mut |v| {
        if cut {
            v.truncate(at as usize);
        } else {
            v[at as usize] = value;
        }
        0
    });
    // sizes beyond this are outside the bound
    if let Some(x) = show_serial(&data) {
        for z in &x.sizes {
            assume(*z <= 300);
        }
    }
    let before = show(l);
    if l.load_from_serialized(&data).is_err() {
        check!(same_bits(&before, &show(l)), 1, "refused data changed the layer");
        same_behaviour(&mut *s.build("kept"), l, &s, false, 10);
    } else {
        let x = anybits(l.get_input_shape());
        let mut y: Tensor = anybits(l.get_output_shape());
        check!(l.forward(&x, &mut y).is_ok(), 2, "an accepted layer does not run");
    }
}
}
/// Applies a function to the bytes of one entry.
pub fn with_entry(s: &mut SerializedLayer, n: u32, f: &mut dyn FnMut(&mut Vec<u8>) -> u32) -> u32 {
    let v = match s {
        SerializedLayer::SerialFullyConnectedLayer(m) => m.get_mut(&[FullyConnectedSerialKeys::Weights, FullyConnectedSerialKeys::Bias, FullyConnectedSerialKeys::Name][n as usize]),
        SerializedLayer::SerialConvolutionalLayer(m) => {
            let k = [ConvolutionalSerialKeys::Kernels, ConvolutionalSerialKeys::Biases, ConvolutionalSerialKeys::InputShape, ConvolutionalSerialKeys::Stride, ConvolutionalSerialKeys::Name];
            m.get_mut(&k[n as usize])
        }
        SerializedLayer::SerialMaxPoolLayer(m) => m.get_mut(&[MaxPoolSerialKeys::InputShape, MaxPoolSerialKeys::MaskShape, MaxPoolSerialKeys::Stride, MaxPoolSerialKeys::Name][n as usize]),
        SerializedLayer::SerialSoftMaxLayer(m) => m.get_mut(&[SoftMaxSerialKeys::Shape, SoftMaxSerialKeys::Name][n as usize]),
    };
    match v {
        Some(v) => f(v),
        None => 0,
    }
}
pub fn copy_entry(s: &mut SerializedLayer, n: u32) -> Vec<u8> {
    let mut out = vec![];
    with_entry(s, n, &mut |v| {
        out = v.clone();
        0
    });
    out
}
