//! N01 - N06: networks.  Mock layers deliver arbitrary values and record their calls, so that what
//! the network does with its layers is decided for every behaviour of a layer; chains of the
//! library's own layers are compared with the same layers driven by hand.
use crate::lay::*;
use crate::sx::*;
use rusty_network::layer::*;
use rusty_network::network::*;
use rusty_network::tensor::helper::*;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Call {
    id: u32,
    forward: bool,
    /// forward: input, output; backward: input, output, incoming, outgoing
    t: Vec<Tensor>,
}
#[derive(Default)]
pub struct Log {
    calls: Vec<Call>,
    /// the layer whose next call fails
    fail: Option<u32>,
}
pub type Logs = Rc<RefCell<Log>>;
pub struct Mock {
    id: u32,
    ins: TensorShape,
    outs: TensorShape,
    mode: NetworkRunState,
    log: Logs,
}
pub fn mock(id: u32, ins: TensorShape, outs: TensorShape, log: &Logs) -> Mock {
    Mock { id, ins, outs, mode: NetworkRunState::Inference, log: log.clone() }
}
fn overwrite(t: &mut Tensor) {
    for (i, j, k) in each(t.get_shape()) {
        t.set_item(&ix(i, j, k), fbits());
    }
}
impl Layer for Mock {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        if self.log.borrow().fail == Some(self.id) {
            self.log.borrow_mut().fail = None;
            return Err("as told");
        }
        overwrite(output);
        self.log.borrow_mut().calls.push(Call { id: self.id, forward: true, t: vec![input.clone(), output.clone()] });
        Ok(())
    }
    fn backward(&mut self, input: &Tensor, output: &Tensor, incoming: &Tensor, outgoing: &mut Tensor) -> Result<(), &'static str> {
        if self.mode != NetworkRunState::Training {
            return Err("not in training mode");
        }
        overwrite(outgoing);
        self.log.borrow_mut().calls.push(Call { id: self.id, forward: false, t: vec![input.clone(), output.clone(), incoming.clone(), outgoing.clone()] });
        Ok(())
    }
    fn clear_gradients(&mut self) {}
    fn switch_to_training(&mut self) {
        self.mode = NetworkRunState::Training
    }
    fn switch_to_inference(&mut self) {
        self.mode = NetworkRunState::Inference
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.mode
    }
    fn get_input_shape(&self) -> TensorShape {
        self.ins
    }
    fn get_output_shape(&self) -> TensorShape {
        self.outs
    }
    fn get_name(&self) -> String {
        nm("mock")
    }
    fn get_serialized(&self) -> SerializedLayer {
        SerializedLayer::SerialSoftMaxLayer(HashMap::new())
    }
    fn load_from_serialized(&mut self, _: &SerializedLayer) -> Result<(), &'static str> {
        Err("a mock")
    }
}
/// Records the gradient at the network's input; passes everything through.
pub struct Probe {
    s: TensorShape,
    mode: NetworkRunState,
    seen: Rc<RefCell<Option<Tensor>>>,
}
pub fn probe(s: TensorShape) -> (Probe, Rc<RefCell<Option<Tensor>>>) {
    let seen = Rc::new(RefCell::new(None));
    (Probe { s, mode: NetworkRunState::Inference, seen: seen.clone() }, seen)
}
impl Layer for Probe {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        for (i, j, k) in each(self.s) {
            output.set_item(&ix(i, j, k), at(input, i, j, k));
        }
        Ok(())
    }
    fn backward(&mut self, _: &Tensor, _: &Tensor, incoming: &Tensor, outgoing: &mut Tensor) -> Result<(), &'static str> {
        for (i, j, k) in each(self.s) {
            outgoing.set_item(&ix(i, j, k), at(incoming, i, j, k));
        }
        *self.seen.borrow_mut() = Some(incoming.clone());
        Ok(())
    }
    fn clear_gradients(&mut self) {}
    fn switch_to_training(&mut self) {
        self.mode = NetworkRunState::Training
    }
    fn switch_to_inference(&mut self) {
        self.mode = NetworkRunState::Inference
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.mode
    }
    fn get_input_shape(&self) -> TensorShape {
        self.s
    }
    fn get_output_shape(&self) -> TensorShape {
        self.s
    }
    fn get_name(&self) -> String {
        nm("probe")
    }
    fn get_serialized(&self) -> SerializedLayer {
        SerializedLayer::SerialSoftMaxLayer(HashMap::new())
    }
    fn load_from_serialized(&mut self, _: &SerializedLayer) -> Result<(), &'static str> {
        Err("a probe")
    }
}
pub fn state(training: bool) -> NetworkRunState {
    if training {
        NetworkRunState::Training
    } else {
        NetworkRunState::Inference
    }
}
pub fn switch(n: &mut Network, training: bool) {
    if training {
        n.switch_to_training()
    } else {
        n.switch_to_inference()
    }
}
/// Layers that chain, of every kind; `len` of them.
pub fn chain(n: u32, len: u32, f: &mut dyn FnMut() -> f32) -> Vec<Spec> {
    let mut v = match n {
        0 => vec![fc_spec(2, 2, 1, f), fc_spec(2, 1, 1, f), Spec::Soft(sh(1, 1, 1)), fc_spec(1, 2, 1, f)],
        1 => vec![conv_spec((2, 1), (2, 1), 1, 2, 1, f), pool_spec((2, 1), (1, 1), 2, 1), Spec::Soft(sh(1, 1, 2)), fc_spec(1, 1, 2, f)],
        2 => vec![pool_spec((2, 1), (2, 1), 1, 2), fc_spec(2, 2, 1, f), Spec::Soft(sh(2, 1, 1)), conv_spec((1, 1), (2, 1), 1, 1, 1, f)],
        _ => vec![Spec::Soft(sh(2, 2, 1)), conv_spec((1, 2), (2, 1), 1, 1, 1, f), fc_spec(2, 1, 1, f), pool_spec((1, 1), (1, 1), 1, 1)],
    };
    v.truncate(len as usize);
    v
}
/// Longer chains: many layers, or layers with more elements.
pub fn long_chain(n: u32, f: &mut dyn FnMut() -> f32) -> Vec<Spec> {
    match n {
        0 => (0..9).map(|q| if q % 3 == 2 { Spec::Soft(sh(1, 1, 1)) } else { fc_spec(1, 1, 1, f) }).collect(),
        1 => vec![fc_spec(3, 5, 1, f), fc_spec(5, 4, 1, f), fc_spec(4, 2, 1, f), Spec::Soft(sh(2, 1, 1)), fc_spec(2, 1, 1, f), fc_spec(1, 3, 1, f)],
        2 => vec![conv_spec((2, 2), (4, 3), 1, 2, 1, f), pool_spec((2, 1), (2, 2), 2, 2), conv_spec((1, 2), (2, 1), 2, 3, 1, f), pool_spec((2, 1), (1, 1), 3, 1), fc_spec(1, 2, 3, f)],
        3 => vec![pool_spec((1, 1), (2, 2), 3, 1), conv_spec((1, 1), (2, 2), 3, 5, 1, f), Spec::Soft(sh(2, 2, 5)), conv_spec((2, 1), (1, 2), 5, 1, 1, f)],
        _ => vec![fc_spec(2, 17, 1, f), fc_spec(17, 1, 1, f)],
    }
}
pub fn network(v: &[Spec], training: bool) -> Network {
    let mut n = Network::new(state(training));
    for (i, s) in v.iter().enumerate() {
        check!(n.add_layer(Boxed(s.build(["a", "b", "c", "d", "e"][i]))).is_ok(), 900, "a layer that chains was refused");
    }
    n
}
/// What the layers give when they are run by hand.
pub fn by_hand(v: &[Spec], x: &Tensor, training: bool) -> Vec<Tensor> {
    let mut out = vec![x.clone()];
    for s in v {
        let mut y = Tensor::new(s.outs());
        let l = &mut *s.build("h");
        set_mode(l, training);
        check!(l.forward(out.last().unwrap(), &mut y).is_ok(), 901, "a layer failed");
        out.push(y);
    }
    out
}
/// Identical up to the sign of zero and NaN payloads.
pub fn equal_values(a: &Tensor, b: &Tensor) -> bool {
    if !shape_eq(&a.get_shape(), &b.get_shape()) {
        return false;
    }
    let mut ok = true;
    for (i, j, k) in each(a.get_shape()) {
        ok = and(ok, same(at(a, i, j, k), at(b, i, j, k)));
    }
    ok
}
pub fn finite(s: TensorShape) -> Tensor {
    let x = anybits(s);
    for (i, j, k) in each(s) {
        assume(at(&x, i, j, k).is_finite());
    }
    x
}
fn all_modes(n: &Network, training: bool) -> bool {
    let mut ok = n.get_run_state() == state(training);
    for l in n.get_layers() {
        ok &= l.get_run_mode() == state(training);
    }
    ok
}
/// The network shows the same layers, shapes, mode and states as before.
pub struct Snap {
    layers: Vec<Option<Shown>>,
    ins: TensorShape,
    outs: TensorShape,
    pub training: bool,
    states: Vec<Tensor>,
}
pub fn snap(n: &Network) -> Snap {
    let mut states = vec![];
    while let Ok(t) = n.get_intermediate_state(states.len()) {
        states.push(t.clone());
    }
    Snap { layers: n.get_layers().iter().map(|l| show(&**l)).collect(), ins: n.get_input_shape(), outs: n.get_output_shape(), training: n.get_run_state() == NetworkRunState::Training, states }
}
fn same_states(a: &[Tensor], b: &[Tensor]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        ok = and(ok, untouched_bits(x, y));
    }
    ok
}
pub fn unchanged(n: &Network, s: &Snap, id: u32) {
    let now = snap(n);
    check!(now.layers.len() == s.layers.len(), id, "the number of layers changed");
    let mut ok = true;
    for (a, b) in now.layers.iter().zip(&s.layers) {
        // (mocks show nothing of themselves)
        ok = and(ok, if a.is_none() && b.is_none() { true } else { same_opt(a, b) });
    }
    check!(ok, id + 1, "a layer changed");
    check!(and(shape_eq(&now.ins, &s.ins), shape_eq(&now.outs, &s.outs)), id + 2, "the announced shapes changed");
    check!(all_modes(n, s.training), id + 3, "the mode changed");
    check!(same_states(&now.states, &s.states), id + 4, "the last results changed");
}

/// One inference of a network of mocks (layers `ids`, shapes `shapes`), against the log.
pub fn mock_infer(n: &mut Network, log: &Logs, shapes: &[TensorShape], id: u32) -> Vec<Tensor> {
    let x = anybits(shapes[0]);
    log.borrow_mut().calls.clear();
    check!(n.infer(&x).is_ok(), id, "inference failed");
    let g = log.borrow();
    let c = &g.calls;
    check!(c.len() == shapes.len() - 1, id + 1, "not every layer was run exactly once");
    let mut states = vec![x];
    for (i, k) in c.iter().enumerate() {
        check!(k.forward && k.id == i as u32, id + 2, "the layers were not run in their order");
        check!(untouched_bits(&k.t[0], states.last().unwrap()), id + 3, "a layer did not get its predecessor's output");
        check!(shape_eq(&k.t[1].get_shape(), &shapes[i + 1]), id + 4, "a layer got an output of another shape");
        states.push(k.t[1].clone());
    }
    for (i, t) in states.iter().enumerate() {
        match n.get_intermediate_state(i) {
            Ok(s) => check!(untouched_bits(s, t), id + 5, "an intermediate state is not the layer's output"),
            Err(_) => check!(false, id + 6, "an intermediate state is missing"),
        }
    }
    check!(n.get_intermediate_state(states.len()).is_err(), id + 7, "there is a state too many");
    match n.get_output() {
        Ok(y) => check!(untouched_bits(y, states.last().unwrap()), id + 8, "the output is not the last layer's"),
        Err(_) => check!(false, id + 9, "there is no output"),
    }
    states
}
pub fn mock_backward(n: &mut Network, log: &Logs, shapes: &[TensorShape], states: &[Tensor], id: u32) {
    let last = shapes.len() - 1;
    let g = anybits(shapes[last]);
    log.borrow_mut().calls.clear();
    check!(n.backward(&g).is_ok(), id, "backward failed");
    let b = log.borrow();
    check!(b.calls.len() == last, id + 1, "not every layer was run backwards exactly once");
    let mut incoming = g;
    for (m, c) in b.calls.iter().enumerate() {
        let i = last - 1 - m;
        check!(!c.forward && c.id as usize == i, id + 2, "the layers were not run backwards in reverse order");
        check!(untouched_bits(&c.t[0], &states[i]), id + 3, "a layer got another input than in the forward pass");
        check!(untouched_bits(&c.t[1], &states[i + 1]), id + 4, "a layer got another output than it gave");
        check!(untouched_bits(&c.t[2], &incoming), id + 5, "a layer did not get its successor's gradient");
        check!(shape_eq(&c.t[3].get_shape(), &shapes[i]), id + 6, "a layer got an outgoing gradient of another shape");
        incoming = c.t[3].clone();
    }
    for (i, t) in states.iter().enumerate() {
        check!(untouched_bits(n.get_intermediate_state(i).unwrap(), t), id + 7, "backpropagation changed a state");
    }
}
pub fn some_shape(n: u32) -> TensorShape {
    [sh(1, 1, 1), sh(2, 1, 1), sh(1, 2, 2)][n as usize]
}
pub fn real_states(n: &Network, want: &[Tensor], id: u32) {
    for (i, t) in want.iter().enumerate() {
        match n.get_intermediate_state(i) {
            Ok(s) => check!(equal_values(s, t), id, "an intermediate state is not the output of that many layers"),
            Err(_) => check!(false, id + 1, "an intermediate state is missing"),
        }
    }
    check!(n.get_intermediate_state(want.len()).is_err(), id + 2, "there is a state too many");
    match n.get_output() {
        Ok(y) => {
            check!(equal_values(y, want.last().unwrap()), id + 3, "the output is not the last layer's");
            for (i, j, k) in each(y.get_shape()) {
                obs_f(at(y, i, j, k));
            }
        }
        Err(_) => check!(false, id + 4, "there is no output"),
    }
}

fn by_hand_backward(v: &[Spec], again: u32) {
    let seen = Rc::new(RefCell::new(None));
    let mut n = Network::new(NetworkRunState::Training);
    let i = v[0].ins();
    check!(n.add_layer(Probe { s: i, mode: NetworkRunState::Inference, seen: seen.clone() }).is_ok(), 1, "refused");
    for (q, s) in v.iter().enumerate() {
        check!(n.add_layer(Boxed(s.build(["a", "b", "c", "d"][q % 4]))).is_ok(), 2, "refused");
    }
    let o = n.get_output_shape();
    if again >= 1 {
        check!(n.infer(&anybits(i)).is_ok(), 3, "inference failed");
        check!(n.backward(&anybits(o)).is_ok(), 4, "backward failed");
    }
    if again == 2 {
        n.switch_to_inference();
        check!(n.infer(&anybits(i)).is_ok(), 5, "inference failed");
        n.switch_to_training();
    }
    let x = anybits(i);
    check!(n.infer(&x).is_ok(), 6, "inference failed");
    let mut g = anybits(o);
    if again == 3 {
        check!(n.backward(&g).is_ok(), 7, "backward failed");
        g = anybits(o);
    }
    check!(n.backward(&g).is_ok(), 8, "backward failed");
    let states = by_hand(v, &x, true);
    for (q, s) in v.iter().enumerate().rev() {
        let l = &mut *s.build("h");
        l.switch_to_training();
        let mut y = Tensor::new(s.outs());
        check!(l.forward(&states[q], &mut y).is_ok(), 9, "a layer failed");
        let mut h = Tensor::new(s.ins());
        check!(l.backward(&states[q], &y, &g, &mut h).is_ok(), 10, "a layer failed backwards");
        g = h;
    }
    let h: Option<Tensor> = seen.borrow().clone();
    match &h {
        Some(h) => {
            check!(equal_values(h, &g), 11, "the gradient at the input is not the layers' composed gradient");
            for (a, b, c) in each(h.get_shape()) {
                obs_f(at(h, a, b, c));
            }
        }
        None => check!(false, 12, "the first layer was not run backwards"),
    }
}

harnesses! {
// ---------------------------------------------------------------- N01
fn n01_mocks() {
    precise();
    let len = pick(1, by_tier(3, 4));
    let shapes: Vec<TensorShape> = (0..len + 1).map(|_| some_shape(pick(0, 2))).collect();
    let start = pick_bool();
    let flip = pick(0, 2);
    shard();
    let log = Logs::default();
    let mut n = Network::new(state(start));
    for i in 0..len {
        let m = mock(i, shapes[i as usize], shapes[i as usize + 1], &log);
        check!(n.add_layer(m).is_ok(), 1, "a layer that chains was refused");
        check!(shape_eq(&n.get_output_shape(), &shapes[i as usize + 1]), 2, "the announced output shape is not the last layer's");
        if flip == i {
            n.switch_to_training();
            n.switch_to_inference();
            switch(&mut n, !start);
        }
    }
    check!(n.get_layers().len() as u32 == len, 3, "number of layers");
    check!(shape_eq(&n.get_input_shape(), &shapes[0]), 4, "the announced input shape is not the first layer's");
    for r in 0..2 {
        mock_infer(&mut n, &log, &shapes, 10 + 20 * r);
    }
}
fn n01_layers() {
    precise();
    let c = pick(0, 3);
    let len = pick(1, 4);
    let training = pick_bool();
    shard();
    let v = chain(c, len, &mut fbits);
    let mut n = network(&v, training);
    check!(and(shape_eq(&n.get_input_shape(), &v[0].ins()), shape_eq(&n.get_output_shape(), &v[len as usize - 1].outs())), 1, "announced shapes");
    check!(n.get_layers().len() as u32 == len, 2, "number of layers");
    for (l, s) in n.get_layers().iter().zip(&v) {
        check!(and(shape_eq(&l.get_input_shape(), &s.ins()), shape_eq(&l.get_output_shape(), &s.outs())), 3, "the layers are in another order");
    }
    let x = anybits(v[0].ins());
    check!(n.infer(&x).is_ok(), 4, "inference failed");
    real_states(&n, &by_hand(&v, &x, training), 10);
    // and a second time
    let x = anybits(v[0].ins());
    check!(n.infer(&x).is_ok(), 5, "inference failed");
    real_states(&n, &by_hand(&v, &x, training), 20);
}
/// Deep chains of mock layers, built in one go or across switches.
fn n01_long() {
    precise();
    let len = pick(5, by_tier(9, 17));
    let turn = pick(0, 4);
    let start = pick_bool();
    shard();
    let log = Logs::default();
    let shapes: Vec<TensorShape> = (0..len + 1).map(|i| if turn == 0 { sh(1, 1, 1) } else { some_shape(i * turn % 3) }).collect();
    let mut n = Network::new(state(start));
    for i in 0..len {
        check!(n.add_layer(mock(i, shapes[i as usize], shapes[i as usize + 1], &log)).is_ok(), 1, "a layer that chains was refused");
        if turn == 4 && i % 3 == 1 {
            switch(&mut n, i % 2 == 0);
        }
    }
    check!(n.get_layers().len() as u32 == len, 2, "number of layers");
    check!(and(shape_eq(&n.get_input_shape(), &shapes[0]), shape_eq(&n.get_output_shape(), &shapes[len as usize])), 3, "the announced shapes");
    mock_infer(&mut n, &log, &shapes, 10);
    mock_infer(&mut n, &log, &shapes, 30);
    n.switch_to_training();
    let s = mock_infer(&mut n, &log, &shapes, 50);
    mock_backward(&mut n, &log, &shapes, &s, 70);
    mock_infer(&mut n, &log, &shapes, 90);
}
/// Longer chains and larger layers of the library.
fn n01_long_layers() {
    precise();
    let c = pick(0, 4);
    let training = pick_bool();
    shard();
    let v = long_chain(c, &mut fbits);
    let mut n = Network::new(state(training));
    for s in &v {
        check!(n.add_layer(Boxed(s.build("same"))).is_ok(), 1, "a layer that chains was refused");
    }
    for r in 0..2 {
        let x = anybits(v[0].ins());
        check!(n.infer(&x).is_ok(), 2, "inference failed");
        real_states(&n, &by_hand(&v, &x, training), 10 + 10 * r);
    }
}
// ---------------------------------------------------------------- N02
fn n02_history() {
    precise();
    let c = pick(0, 3);
    let len = pick(2, 3);
    let training = pick_bool();
    let steps = pick(0, by_tier(3, 4));
    let seq: Vec<u32> = (0..steps).map(|_| pick(0, 5)).collect();
    shard();
    let v = chain(c, len, &mut fbits);
    let mut n = network(&v, training);
    let x = anybits(v[0].ins());
    let (i, o) = (v[0].ins(), n.get_output_shape());
    check!(n.infer(&x).is_ok(), 1, "inference failed");
    let first = n.get_output().unwrap().clone();
    for s in seq {
        match s {
            0 => {
                let z = anybits(i);
                check!(n.infer(&z).is_ok(), 2, "inference failed");
            }
            1 => {
                let before = snap(&n);
                for m in misfits(i) {
                    check!(n.infer(&anybits(m)).is_err(), 3, "a wrong shape was accepted");
                }
                unchanged(&n, &before, 30);
            }
            2 => {
                let g = anybits(o);
                let _ = n.backward(&g);
            }
            3 => n.switch_to_training(),
            4 => n.switch_to_inference(),
            _ => {
                for m in misfits(o) {
                    check!(n.backward(&anybits(m)).is_err(), 5, "a wrong gradient was accepted");
                }
            }
        }
    }
    switch(&mut n, training);
    check!(n.infer(&x).is_ok(), 6, "inference failed");
    check!(untouched(n.get_output().unwrap(), &first), 7, "the same input gives another result");
    for (a, b) in n.get_layers().iter().zip(&v) {
        check!(all_same(&params_of(&**a), &b.params()), 8, "the parameters changed");
    }
}
/// Training and inference give the same result.
fn n02_modes() {
    exact();
    let c = pick(0, 3);
    let len = pick(2, 3);
    shard();
    let v = chain(c, len, &mut || fint(-3, 3));
    let mut n = network(&v, false);
    let x = ints(v[0].ins(), 3);
    check!(n.infer(&x).is_ok(), 1, "inference failed");
    let first = n.get_output().unwrap().clone();
    n.switch_to_training();
    check!(n.infer(&x).is_ok(), 2, "inference failed");
    let y = n.get_output().unwrap().clone();
    for (i, j, k) in each(y.get_shape()) {
        check!(close(at(&y, i, j, k), at(&first, i, j, k)), 3, "the result depends on the mode");
    }
}
fn n02_refusals() {
    precise();
    let training = pick_bool();
    let steps = pick(0, 2);
    shard();
    let mut e = Network::new(state(training));
    for _ in 0..steps {
        e.switch_to_training();
    }
    check!(e.infer(&Tensor::new(sh(0, 0, 0))).is_err(), 1, "an empty network ran");
    check!(e.infer(&anybits(sh(1, 1, 1))).is_err(), 2, "an empty network ran");
    check!(e.get_output().is_err(), 3, "an empty network has an output");
    check!(e.get_intermediate_state(0).is_err(), 4, "an empty network has a state");
    // any layer, any wrong shape
    let log = Logs::default();
    let (a, b) = (some_shape(pick(0, 2)), some_shape(pick(0, 2)));
    let x = sh(pick(1, 3), pick(1, 3), pick(1, 3));
    let mut n = Network::new(state(training));
    check!(n.add_layer(mock(0, a, b, &log)).is_ok(), 5, "the first layer was refused");
    mock_infer(&mut n, &log, &[a, b], 10);
    let before = snap(&n);
    let fit = shape_eq(&x, &a);
    check!(n.infer(&anybits(x)).is_ok() == fit, 6, "the verdict on the input's shape");
    if !fit {
        unchanged(&n, &before, 30);
    }
}
/// A layer that fails in the middle does no lasting damage.
fn n02_failing_layer() {
    precise();
    let len = pick(1, 3);
    let bad = pick(0, len - 1);
    let training = pick_bool();
    shard();
    let log = Logs::default();
    let shapes: Vec<TensorShape> = (0..len + 1).map(|i| some_shape(i % 3)).collect();
    let mut n = Network::new(state(training));
    for i in 0..len {
        check!(n.add_layer(mock(i, shapes[i as usize], shapes[i as usize + 1], &log)).is_ok(), 1, "refused");
    }
    mock_infer(&mut n, &log, &shapes, 10);
    log.borrow_mut().fail = Some(bad);
    check!(n.infer(&anybits(shapes[0])).is_err(), 2, "a layer's error was not reported");
    mock_infer(&mut n, &log, &shapes, 30);
}
// ---------------------------------------------------------------- N03
fn n03_mocks() {
    precise();
    let len = pick(1, by_tier(3, 4));
    let shapes: Vec<TensorShape> = (0..len + 1).map(|_| some_shape(pick(0, 2))).collect();
    let start = pick_bool();
    let late = pick(0, 2);
    shard();
    let log = Logs::default();
    let mut n = Network::new(state(start));
    for i in 0..len {
        check!(n.add_layer(mock(i, shapes[i as usize], shapes[i as usize + 1], &log)).is_ok(), 1, "refused");
        if late == i {
            // the rest is added in training mode
            switch(&mut n, !start);
            n.switch_to_training();
        }
    }
    n.switch_to_training();
    let s = mock_infer(&mut n, &log, &shapes, 10);
    mock_backward(&mut n, &log, &shapes, &s, 30);
    mock_backward(&mut n, &log, &shapes, &s, 40);
    let s = mock_infer(&mut n, &log, &shapes, 10);
    mock_backward(&mut n, &log, &shapes, &s, 30);
}
/// Any history between the passes.
fn n03_history() {
    precise();
    let len = pick(1, 3);
    let steps = pick(0, by_tier(3, 5));
    let seq: Vec<u32> = (0..steps).map(|_| pick(0, 5)).collect();
    // the first shape has others of the same size, or none
    let first = pick(0, 1);
    assume(steps > 0 || first == 0);
    shard();
    let log = Logs::default();
    let mut shapes: Vec<TensorShape> = (0..len + 1).map(|i| some_shape((i + first) % 3)).collect();
    let mut n = Network::new(NetworkRunState::Training);
    for i in 0..len {
        check!(n.add_layer(mock(i, shapes[i as usize], shapes[i as usize + 1], &log)).is_ok(), 1, "refused");
    }
    let mut last: Option<Vec<Tensor>> = None;
    for s in seq {
        let o = *shapes.last().unwrap();
        match s {
            0 => last = Some(mock_infer(&mut n, &log, &shapes, 10)),
            1 => {
                let training = n.get_run_state() == NetworkRunState::Training;
                match &last {
                    Some(st) if training => mock_backward(&mut n, &log, &shapes, st, 30),
                    _ => {
                        let _ = n.backward(&anybits(o));
                    }
                }
            }
            2 => n.switch_to_inference(),
            3 => n.switch_to_training(),
            5 => {
                // refused calls do no harm to a later backward pass
                for m in misfits(shapes[0]) {
                    check!(n.infer(&anybits(m)).is_err(), 3, "a wrong shape was accepted");
                }
                for m in misfits(o) {
                    check!(n.backward(&anybits(m)).is_err(), 4, "a wrong gradient was accepted");
                }
            }
            _ => {
                let i = n.get_layers().len() as u32;
                check!(n.add_layer(mock(i, o, some_shape(i % 3), &log)).is_ok(), 2, "refused");
                shapes.push(some_shape(i % 3));
                last = None;
            }
        }
    }
    let trained = n.get_run_state() == NetworkRunState::Training;
    if let (true, Some(s)) = (trained, &last) {
        mock_backward(&mut n, &log, &shapes, s, 30);
    }
    n.switch_to_training();
    let s = mock_infer(&mut n, &log, &shapes, 10);
    mock_backward(&mut n, &log, &shapes, &s, 30);
}
/// The gradient at the network's input, against the layers driven backwards by hand.
fn n03_layers() {
    precise();
    let c = pick(0, 3);
    let len = pick(1, 4);
    let again = pick(0, 3);
    shard();
    let v = chain(c, len, &mut fbits);
    by_hand_backward(&v, again);
}
/// Deep chains: the gradient reaches the first layer through all of them.
fn n03_long() {
    precise();
    let len = pick(4, by_tier(9, 17));
    let turn = pick(0, 2);
    let (start, again) = (pick_bool(), pick_bool());
    shard();
    let log = Logs::default();
    let shapes: Vec<TensorShape> = (0..len + 1).map(|i| some_shape(i * turn % 3)).collect();
    let mut n = Network::new(state(start));
    for i in 0..len {
        check!(n.add_layer(mock(i, shapes[i as usize], shapes[i as usize + 1], &log)).is_ok(), 1, "refused");
    }
    n.switch_to_training();
    let s = mock_infer(&mut n, &log, &shapes, 10);
    mock_backward(&mut n, &log, &shapes, &s, 30);
    if again {
        mock_backward(&mut n, &log, &shapes, &s, 40);
        n.switch_to_inference();
        mock_infer(&mut n, &log, &shapes, 50);
        n.switch_to_training();
        let s = mock_infer(&mut n, &log, &shapes, 70);
        mock_backward(&mut n, &log, &shapes, &s, 90);
    }
}
fn n03_long_layers() {
    precise();
    let c = pick(0, 4);
    let again = pick(0, 1);
    shard();
    let v = long_chain(c, &mut fbits);
    by_hand_backward(&v, again);
}
/// Two dense layers: the derivative, written out.
fn n03_derivative() {
    exact();
    let (a, b, c) = (pick(1, 2), pick(1, 2), pick(1, by_tier(1, 2)));
    let again = pick_bool();
    shard();
    let m = by_tier(3, 5) as i32;
    let (p, q) = (fc_spec(a, b, 1, &mut || fint(-m, m)), fc_spec(b, c, 1, &mut || fint(-m, m)));
    let seen = Rc::new(RefCell::new(None));
    let mut n = Network::new(NetworkRunState::Training);
    check!(n.add_layer(Probe { s: p.ins(), mode: NetworkRunState::Inference, seen: seen.clone() }).is_ok(), 1, "refused");
    check!(n.add_layer(Boxed(p.build("p"))).is_ok(), 2, "refused");
    check!(n.add_layer(Boxed(q.build("q"))).is_ok(), 3, "refused");
    if again {
        check!(n.infer(&ints(p.ins(), m)).is_ok(), 4, "inference failed");
        check!(n.backward(&ints(q.outs(), m)).is_ok(), 5, "backward failed");
    }
    let x = ints(p.ins(), m);
    check!(n.infer(&x).is_ok(), 6, "inference failed");
    let g = ints(q.outs(), m);
    check!(n.backward(&g).is_ok(), 7, "backward failed");
    let mut hid = Tensor::new(p.outs());
    for i in 0..b {
        hid.set_item(&ix(i, 0, 0), relu(p.pre(&x, i, 0, 0)));
    }
    let (Spec::Fc(w, _), Spec::Fc(u, _)) = (&p, &q) else { return };
    let h = seen.borrow().clone().unwrap();
    for r in 0..a {
        let mut t = vec![];
        for s in 0..b {
            for z in 0..c {
                let on = and(p.pre(&x, s, 0, 0) > 0.0, q.pre(&hid, z, 0, 0) > 0.0);
                t.push(ite(on, at(w, s, r, 0) * at(u, z, s, 0) * at(&g, z, 0, 0), 0.0));
            }
        }
        check!(at(&h, r, 0, 0) == total(&t), 8, "the gradient at the input is not the derivative");
        obs_f(at(&h, r, 0, 0));
    }
}
// ---------------------------------------------------------------- N04
fn n04_sequences() {
    precise();
    let training = pick_bool();
    let steps = pick(0, by_tier(4, 6));
    let seq: Vec<u32> = (0..steps).map(|_| pick(0, 5)).collect();
    let real = pick_bool();
    shard();
    let log = Logs::default();
    let mut n = Network::new(state(training));
    let mut inferred = false;
    for s in seq.into_iter().chain([9]) {
        let (k, o) = (n.get_layers().len() as u32, n.get_output_shape());
        let training = n.get_run_state() == NetworkRunState::Training;
        match s {
            0 => {
                let r = if real {
                    let b = if k == 0 { pool_spec((1, 1), (2, 1), 1, 1) } else if o.di == 2 { fc_spec(2, 1, 1, &mut || 1.0) } else { Spec::Soft(o) };
                    n.add_layer(Boxed(b.build("r")))
                } else {
                    n.add_layer(mock(k, if k == 0 { sh(2, 1, 1) } else { o }, some_shape(k % 3), &log))
                };
                check!(r.is_ok(), 1, "refused");
                inferred = false;
            }
            1 => {
                if k > 0 {
                    let x = if real { make(n.get_input_shape(), &mut || 0.5) } else { anybits(n.get_input_shape()) };
                    check!(n.infer(&x).is_ok(), 2, "inference failed");
                    inferred = true;
                }
            }
            2 => n.switch_to_training(),
            3 => n.switch_to_inference(),
            4 => {
                for m in misfits(o) {
                    check!(n.backward(&anybits(m)).is_err(), 3, "a gradient of the wrong shape was accepted");
                }
                for m in misfits(n.get_input_shape()) {
                    check!(n.infer(&anybits(m)).is_err(), 4, "an input of the wrong shape was accepted");
                }
                check!(n.add_layer(mock(9, sh(4, 4, 4), sh(1, 1, 1), &log)).is_ok() == (k == 0), 5, "a layer that does not chain was added, or the first was refused");
                if k == 0 {
                    inferred = false;
                }
            }
            _ => {
                let g = if k == 0 { Tensor::new(o) } else if real { make(o, &mut || 1.0) } else { anybits(o) };
                let r = n.backward(&g);
                if k == 0 || not(training) {
                    check!(r.is_err(), 6, "backward succeeded without layers or outside training mode");
                } else if inferred {
                    check!(r.is_ok(), 7, "backward was refused although everything fits");
                }
            }
        }
    }
}
// ---------------------------------------------------------------- N05
fn n05_sequences() {
    precise();
    let start = pick_bool();
    let steps = pick(0, by_tier(5, 7));
    let seq: Vec<u32> = (0..steps).map(|_| pick(0, 4)).collect();
    shard();
    let log = Logs::default();
    let mut n = Network::new(state(start));
    let mut mode = start;
    check!(all_modes(&n, mode), 1, "the mode of a new network");
    for s in seq {
        match s {
            0 => {
                n.switch_to_training();
                mode = true;
            }
            1 => {
                n.switch_to_inference();
                mode = false;
            }
            _ => {
                // a layer that was in either mode before
                let k = n.get_layers().len();
                let mut l: Box<dyn Layer> = match k {
                    0 => Box::new(mock(0, sh(2, 1, 1), sh(2, 1, 1), &log)),
                    1 => Spec::Soft(sh(2, 1, 1)).build("s"),
                    2 => pool_spec((1, 1), (2, 1), 1, 1).build("p"),
                    3 => conv_spec((1, 1), (2, 1), 1, 1, 1, &mut || 1.0).build("c"),
                    _ => fc_spec(2, 2, 1, &mut || 1.0).build("f"),
                };
                set_mode(&mut *l, s == 2);
                if s == 4 {
                    // refused
                    check!(n.add_layer(mock(9, sh(3, 1, 1), sh(3, 1, 1), &log)).is_ok() == (k == 0), 2, "the verdict on a layer that does not chain");
                    if k == 0 {
                        return;
                    }
                } else {
                    check!(n.add_layer(Boxed(l)).is_ok(), 3, "refused");
                }
            }
        }
        check!(all_modes(&n, mode), 4, "the network and its layers disagree on the mode");
    }
}
/// Layers added in either mode behave alike after the next switch.
fn n05_alike() {
    precise();
    let kind = pick(0, 3);
    let (first, next) = (pick_bool(), pick_bool());
    let lmode = pick_bool();
    let second = pick_bool();
    shard();
    let s = one_spec(kind, &mut fbits);
    let mut n = Network::new(state(first));
    let l = &mut *s.build("l");
    set_mode(l, lmode);
    if second {
        check!(n.add_layer(Boxed(pool_spec((1, 1), (s.ins().di, s.ins().dj), s.ins().dk, 1).build("id"))).is_ok(), 1, "refused");
    }
    let mut b = s.build("l");
    set_mode(&mut *b, lmode);
    check!(n.add_layer(Boxed(b)).is_ok(), 2, "refused");
    switch(&mut n, next);
    set_mode(l, next);
    let x = anybits(s.ins());
    let mut y = Tensor::new(s.outs());
    if second {
        for (i, j, k) in each(s.ins()) {
            assume(at(&x, i, j, k).is_finite());
        }
    }
    check!(n.infer(&x).is_ok(), 3, "inference failed");
    check!(l.forward(n.get_intermediate_state(second as usize).unwrap(), &mut y).is_ok(), 4, "the layer failed");
    check!(equal_values(n.get_output().unwrap(), &y), 5, "the layer behaves differently in the network");
    let g = anybits(s.outs());
    check!(n.backward(&g).is_ok() == next, 6, "backward succeeds exactly in training mode");
}
// ---------------------------------------------------------------- N06
fn n06_chain() {
    precise();
    let len = pick(0, by_tier(2, 3));
    let training = pick_bool();
    let shapes: Vec<TensorShape> = (0..len + 1).map(|i| some_shape((i + len) % 3)).collect();
    let out = some_shape(pick(0, 2));
    let ran = pick_bool();
    shard();
    let log = Logs::default();
    let mut n = Network::new(state(training));
    for i in 0..len {
        check!(n.add_layer(mock(i, shapes[i as usize], shapes[i as usize + 1], &log)).is_ok(), 1, "a layer that chains was refused");
    }
    let mut states = None;
    if ran && len > 0 {
        states = Some(mock_infer(&mut n, &log, &shapes, 10));
    }
    let before = snap(&n);
    // any 32-bit input shape
    let ins = if len == 0 { some_shape(pick(0, 2)) } else { sh(u32s(0, u32::MAX), u32s(0, u32::MAX), u32s(0, u32::MAX)) };
    let r = n.add_layer(mock(len, ins, out, &log));
    let fit = or(len == 0, shape_eq(&ins, &before.outs));
    check!(r.is_ok() == fit, 2, "accepts exactly the layers that chain");
    if r.is_ok() {
        check!(n.get_layers().len() as u32 == len + 1, 3, "number of layers");
        check!(shape_eq(&n.get_output_shape(), &out), 4, "the announced output shape");
        check!(shape_eq(&n.get_input_shape(), if len == 0 { &ins } else { &shapes[0] }), 5, "the announced input shape");
        let mut now = shapes.clone();
        if len == 0 {
            now[0] = ins;
        }
        now.push(out);
        let s = mock_infer(&mut n, &log, &now, 30);
        if training {
            mock_backward(&mut n, &log, &now, &s, 50);
        }
    } else {
        unchanged(&n, &before, 60);
        if training {
            if let Some(s) = &states {
                mock_backward(&mut n, &log, &shapes, s, 70);
            }
        }
        let s = mock_infer(&mut n, &log, &shapes, 80);
        if training {
            mock_backward(&mut n, &log, &shapes, &s, 100);
        }
    }
    cover(r.is_ok(), 1);
    cover(r.is_err(), 2);
}
/// The library's own layers, in every pairing.
fn n06_layers() {
    precise();
    let (a, b) = (pick(0, 3), pick(0, 3));
    let (x, y) = (pick(0, 2), pick(0, 2));
    let training = pick_bool();
    shard();
    let pick_spec = |kind: u32, v: u32| match kind {
        0 => [fc_spec(2, 2, 1, &mut fbits), fc_spec(2, 1, 2, &mut fbits), fc_spec(1, 2, 1, &mut fbits)][v as usize].clone(),
        1 => [conv_spec((1, 1), (2, 1), 1, 1, 1, &mut fbits), conv_spec((1, 2), (2, 1), 1, 2, 1, &mut fbits), conv_spec((2, 1), (1, 1), 2, 1, 2, &mut fbits)][v as usize].clone(),
        2 => [pool_spec((1, 1), (2, 1), 1, 1), pool_spec((2, 1), (1, 1), 1, 1), pool_spec((1, 1), (1, 2), 2, 3)][v as usize].clone(),
        _ => [Spec::Soft(sh(2, 1, 1)), Spec::Soft(sh(1, 1, 1)), Spec::Soft(sh(1, 1, 2))][v as usize].clone(),
    };
    let (p, q) = (pick_spec(a, x), pick_spec(b, y));
    let fit = shape_eq(&p.outs(), &q.ins());
    let mut n = Network::new(state(training));
    check!(n.add_layer(Boxed(p.build("p"))).is_ok(), 1, "the first layer was refused");
    let i = anybits(p.ins());
    check!(n.infer(&i).is_ok(), 2, "inference failed");
    let before = snap(&n);
    check!(n.add_layer(Boxed(q.build("q"))).is_ok() == fit, 3, "accepts exactly the layers that chain");
    if fit {
        check!(n.infer(&i).is_ok(), 4, "inference failed");
        real_states(&n, &by_hand(&[p, q], &i, training), 10);
    } else {
        unchanged(&n, &before, 20);
        check!(n.infer(&i).is_ok(), 5, "inference failed");
        unchanged(&n, &before, 30);
    }
    cover(fit, 1);
    cover(not(fit), 2);
}
}
