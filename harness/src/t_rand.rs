//! T18: Gaussian filling.  The generator delivers listed words; the standard normal draws that
//! belong to them are taken from the `rand_distr` crate by a second generator that gets the same
//! words.  Mean and deviation are chosen by the solver.
use crate::sx::*;
use rand_chacha::ChaCha12Rng;
use rand_distr::{Distribution, StandardNormal};
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;

/// Words of which every pair gives a normal draw at once (no rejection), in strips 0 to 254.
fn words(n: u32, variant: u32) -> Vec<u32> {
    let mut v = vec![];
    for q in 0..(n + 8) / 8 * 8 {
        // strips with wide fast parts give draws between -3.3 and 3.3, the others between -1 and 1
        let wide = (q + variant) % 3 == 0;
        let (lo, width) = if wide { (0x0c000000, 0xe8000000u32) } else { (0x60000000, 0x40000000) };
        v.push((q * 7919 + variant) << 8 | if wide { 1 + (q * 5 + variant) % 60 } else { (q * 37 + variant * 101) % 255 });
        v.push(lo + q.wrapping_mul(0x51234567).wrapping_add(variant.wrapping_mul(0x72345671)) % width);
    }
    v
}
fn finite() -> f32 {
    let x = fbits();
    assume((x.to_bits() >> 23) & 0xff != 0xff);
    x
}
fn fills(shapes: &[TensorShape], params: &mut dyn FnMut() -> (f32, f32)) {
    let n: u32 = shapes.iter().map(|s| s.di * s.dj * s.dk).sum();
    let w = words(n, pick(0, by_tier(2, 7)));
    rand_chacha::script(w.clone());
    let mut done = vec![];
    for s in shapes {
        let (mean, std) = params();
        let mut t = make(*s, &mut fbits);
        t.fill_with_gaussian(mean, std);
        check!(shape_eq(&t.get_shape(), s), 1, "filling changed the shape");
        done.push((t, mean, std));
    }
    rand_chacha::script(w);
    let mut r: ChaCha12Rng = reader();
    for (t, mean, std) in &done {
        let s = t.get_shape();
        // The draws may be handed out in any order.
        let mut left = each(s);
        for _ in each(s) {
            let z: f32 = StandardNormal.sample(&mut r);
            let x = *mean + *std * z;
            let mut at_ = None;
            for (q, p) in left.iter().enumerate() {
                if same(at(t, p.0, p.1, p.2), x) {
                    at_ = Some(q);
                    break;
                }
            }
            check!(at_.is_some(), 2, "no element is the mean plus the deviation times this draw");
            left.remove(at_.unwrap());
        }
        for (i, j, k) in each(s) {
            obs_f(at(t, i, j, k));
        }
    }
}
fn reader() -> ChaCha12Rng {
    rand::SeedableRng::from_seed([0; 32])
}

harnesses! {
fn t18_gaussian() {
    precise();
    let s = sh(pick(1, 2), pick(1, 2), pick(1, 2));
    let twice = pick_bool();
    shard();
    let mut both = vec![s];
    if twice {
        both.push(sh(2, 1, 1));
    }
    fills(&both, &mut || (finite(), finite()));
}
fn t18_fixed() {
    precise();
    let (mean, std) = [(0.0, 1.0), (2.5, 0.5), (-1000.0, 0.001), (3.0, 0.0), (0.0, -2.0), (1e30, 1e-30), (-0.0, 1e-45)][pick(0, 6) as usize];
    shard();
    fills(&[sh(2, 2, 1)], &mut || (mean, std));
}
fn t18_long() {
    precise();
    let s = [sh(33, 1, 1), sh(1, 17, 1), sh(1, 1, 9), sh(3, 3, 3), sh(5, 3, 2), sh(65, 1, 3), sh(257, 2, 1)][pick(0, 6) as usize];
    shard();
    fills(&[s], &mut || (finite(), finite()));
}
}
