//! Builders and reference values for the layer and network harnesses.
use crate::sx::*;
use rusty_network::layer::convolutional::*;
use rusty_network::layer::fully_connected::*;
use rusty_network::layer::max_pool::*;
use rusty_network::layer::softmax::*;
use rusty_network::layer::*;
use rusty_network::tensor::helper::*;
use rusty_network::tensor::Tensor;

#[derive(Clone)]
pub enum Spec {
    /// weights, bias
    Fc(Tensor, Tensor),
    /// kernels, biases, input shape, stride
    Conv(Vec<Tensor>, Vec<Tensor>, TensorShape, u32),
    /// input shape, window, stride
    Pool(TensorShape, TensorShape, u32),
    Soft(TensorShape),
}
pub fn nm(s: &str) -> String {
    String::from(s)
}
/// Number of window positions, if the window tiles the image.
pub fn positions(image: u32, window: u32, stride: u32) -> Option<u32> {
    if stride > 0 && window >= 1 && window <= image && (image - window) % stride == 0 {
        Some((image - window) / stride + 1)
    } else {
        None
    }
}

impl Spec {
    pub fn ins(&self) -> TensorShape {
        match self {
            Spec::Fc(w, _) => sh(w.get_shape().dj, 1, w.get_shape().dk),
            Spec::Conv(_, _, s, _) => *s,
            Spec::Pool(s, _, _) => *s,
            Spec::Soft(s) => *s,
        }
    }
    pub fn outs(&self) -> TensorShape {
        match self {
            Spec::Fc(w, _) => sh(w.get_shape().di, 1, w.get_shape().dk),
            Spec::Conv(k, _, s, st) => {
                let ks = k[0].get_shape();
                sh((s.di - ks.di) / st + 1, (s.dj - ks.dj) / st + 1, k.len() as u32)
            }
            Spec::Pool(s, m, st) => sh((s.di - m.di) / st + 1, (s.dj - m.dj) / st + 1, s.dk),
            Spec::Soft(s) => *s,
        }
    }
    /// All parameters.
    pub fn params(&self) -> Vec<Tensor> {
        match self {
            Spec::Fc(w, b) => vec![w.clone(), b.clone()],
            Spec::Conv(k, b, _, _) => k.iter().chain(b.iter()).cloned().collect(),
            _ => vec![],
        }
    }
    pub fn build(&self, name: &str) -> Box<dyn Layer> {
        let n = nm(name);
        match self {
            Spec::Fc(w, b) => {
                let mut l = FullyConnectedLayer::empty();
                l.fill_from_state(w.clone(), b.clone(), &n).unwrap();
                Box::new(l)
            }
            Spec::Conv(k, b, s, st) => {
                let mut l = ConvolutionalLayer::empty();
                l.fill_from_state(k.clone(), b.clone(), *s, *st, &n).unwrap();
                Box::new(l)
            }
            Spec::Pool(s, m, st) => Box::new(MaxPoolLayer::new(*m, *s, *st, &n).unwrap()),
            Spec::Soft(s) => Box::new(SoftmaxLayer::new(*s, &n).unwrap()),
        }
    }
    /// The value before rectification (dense and convolutional layers).
    pub fn pre(&self, x: &Tensor, i: u32, j: u32, c: u32) -> f32 {
        match self {
            Spec::Fc(w, b) => {
                let mut t = vec![];
                for q in 0..w.get_shape().dj {
                    t.push(at(x, q, j, c) * at(w, i, q, c));
                }
                t.push(at(b, i, 0, c));
                total(&t)
            }
            Spec::Conv(k, b, _, st) => {
                let ker = &k[c as usize];
                let mut t = vec![at(&b[c as usize], 0, 0, 0)];
                for (p, q, r) in each(ker.get_shape()) {
                    t.push(at(x, i * st + p, j * st + q, r) * at(ker, p, q, r));
                }
                total(&t)
            }
            _ => 0.0,
        }
    }
}

pub fn fc_spec(n: u32, m: u32, k: u32, f: &mut dyn FnMut() -> f32) -> Spec {
    Spec::Fc(make(sh(m, n, k), &mut || in_w(f())), make(sh(m, 1, k), &mut || in_wx(f())))
}
/// windows, positions, depth, channels, stride
pub fn conv_spec(w: (u32, u32), p: (u32, u32), d: u32, ch: u32, st: u32, f: &mut dyn FnMut() -> f32) -> Spec {
    let k = (0..ch).map(|_| make(sh(w.0, w.1, d), &mut || in_w(f()))).collect();
    let b = (0..ch).map(|_| make(sh(1, 1, 1), &mut || in_wx(f()))).collect();
    Spec::Conv(k, b, sh((p.0 - 1) * st + w.0, (p.1 - 1) * st + w.1, d), st)
}
pub fn pool_spec(w: (u32, u32), p: (u32, u32), d: u32, st: u32) -> Spec {
    Spec::Pool(sh((p.0 - 1) * st + w.0, (p.1 - 1) * st + w.1, d), sh(w.0, w.1, 1), st)
}
/// A small layer of each kind, with its sizes picked.
pub fn any_spec(kind: u32, f: &mut dyn FnMut() -> f32) -> Spec {
    match kind {
        0 => fc_spec(pick(1, 2), pick(1, 2), pick(1, 2), f),
        1 => conv_spec((pick(1, 2), 1), (pick(1, 2), pick(1, 2)), pick(1, 2), pick(1, 2), pick(1, 2), f),
        2 => pool_spec((pick(1, 2), pick(1, 2)), (pick(1, 2), 1), pick(1, 2), pick(1, 2)),
        _ => Spec::Soft(sh(pick(1, 2), pick(1, 2), 1)),
    }
}
/// One fixed layer of each kind; together they chain: 4x1x1 -> 3x1x1 etc. is up to the caller.
pub fn one_spec(kind: u32, f: &mut dyn FnMut() -> f32) -> Spec {
    match kind {
        0 => fc_spec(2, 2, 1, f),
        1 => conv_spec((2, 1), (2, 1), 1, 2, 1, f),
        2 => pool_spec((2, 1), (2, 1), 1, 1),
        _ => Spec::Soft(sh(2, 1, 1)),
    }
}

/// Any bits where there are few elements, else fixed numbers: the image of a pooling layer, whose
/// comparisons fork.
pub fn few_bits(s: TensorShape) -> Tensor {
    if s.total_size() <= 4 {
        return anybits(s);
    }
    let mut x = Tensor::new(s);
    for (n, (i, j, k)) in each(s).into_iter().enumerate() {
        x.set_item(&ix(i, j, k), (n * 5 % 7) as f32 - 2.5);
    }
    x
}

// ------------------------------------------------------------------ what a layer shows of itself
fn de<T: serde::de::DeserializeOwned>(m: Option<&Vec<u8>>) -> Option<T> {
    m.and_then(|v| bincode::deserialize(v).ok())
}
/// The stored state of a layer: parameters, sizes and name.
pub struct Shown {
    pub kind: u32,
    pub params: Vec<Tensor>,
    pub sizes: Vec<u32>,
    pub name: String,
}
pub fn show_serial(s: &SerializedLayer) -> Option<Shown> {
    let shp = |s: TensorShape| vec![s.di, s.dj, s.dk];
    Some(match s {
        SerializedLayer::SerialFullyConnectedLayer(m) => {
            let (w, b): (Tensor, Tensor) = (de(m.get(&FullyConnectedSerialKeys::Weights))?, de(m.get(&FullyConnectedSerialKeys::Bias))?);
            Shown { kind: 0, params: vec![w, b], sizes: vec![], name: de(m.get(&FullyConnectedSerialKeys::Name))? }
        }
        SerializedLayer::SerialConvolutionalLayer(m) => {
            let mut k: Vec<Tensor> = de(m.get(&ConvolutionalSerialKeys::Kernels))?;
            let b: Vec<Tensor> = de(m.get(&ConvolutionalSerialKeys::Biases))?;
            let mut sizes = vec![k.len() as u32, b.len() as u32];
            sizes.extend(shp(de(m.get(&ConvolutionalSerialKeys::InputShape))?));
            sizes.push(de(m.get(&ConvolutionalSerialKeys::Stride))?);
            k.extend(b);
            Shown { kind: 1, params: k, sizes, name: de(m.get(&ConvolutionalSerialKeys::Name))? }
        }
        SerializedLayer::SerialMaxPoolLayer(m) => {
            let mut sizes = shp(de(m.get(&MaxPoolSerialKeys::InputShape))?);
            sizes.extend(shp(de(m.get(&MaxPoolSerialKeys::MaskShape))?));
            sizes.push(de(m.get(&MaxPoolSerialKeys::Stride))?);
            Shown { kind: 2, params: vec![], sizes, name: de(m.get(&MaxPoolSerialKeys::Name))? }
        }
        SerializedLayer::SerialSoftMaxLayer(m) => Shown { kind: 3, params: vec![], sizes: shp(de(m.get(&SoftMaxSerialKeys::Shape))?), name: de(m.get(&SoftMaxSerialKeys::Name))? },
    })
}
pub fn show(l: &dyn Layer) -> Option<Shown> {
    show_serial(&l.get_serialized())
}
pub fn params_of(l: &dyn Layer) -> Vec<Tensor> {
    show(l).map(|s| s.params).unwrap_or_default()
}
pub fn all_same(a: &[Tensor], b: &[Tensor]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        ok = and(ok, untouched(x, y));
    }
    ok
}
pub fn same_shown(a: &Shown, b: &Shown) -> bool {
    if a.kind != b.kind || a.sizes != b.sizes || a.name != b.name {
        return false;
    }
    all_same(&a.params, &b.params)
}
pub fn same_opt(a: &Option<Shown>, b: &Option<Shown>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => same_shown(x, y),
        _ => false,
    }
}
pub fn set_mode(l: &mut dyn Layer, training: bool) {
    if training {
        l.switch_to_training()
    } else {
        l.switch_to_inference()
    }
}
/// A layer of any kind behind the concrete type that `Network::add_layer` wants.
pub struct Boxed(pub Box<dyn Layer>);
impl Layer for Boxed {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        self.0.forward(input, output)
    }
    fn backward(&mut self, a: &Tensor, b: &Tensor, c: &Tensor, d: &mut Tensor) -> Result<(), &'static str> {
        self.0.backward(a, b, c, d)
    }
    fn apply_gradients(&mut self) {
        self.0.apply_gradients()
    }
    fn clear_gradients(&mut self) {
        self.0.clear_gradients()
    }
    fn switch_to_training(&mut self) {
        self.0.switch_to_training()
    }
    fn switch_to_inference(&mut self) {
        self.0.switch_to_inference()
    }
    fn get_run_mode(&self) -> rusty_network::network::NetworkRunState {
        self.0.get_run_mode()
    }
    fn get_input_shape(&self) -> TensorShape {
        self.0.get_input_shape()
    }
    fn get_output_shape(&self) -> TensorShape {
        self.0.get_output_shape()
    }
    fn get_name(&self) -> String {
        self.0.get_name()
    }
    fn get_serialized(&self) -> SerializedLayer {
        self.0.get_serialized()
    }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> {
        self.0.load_from_serialized(s)
    }
}
