//! Stand-in for the ChaCha generators: every 32-bit word is an arbitrary value chosen by the
//! solver (symbolic build) or read from the replayed draws (native build).
pub use rand_core;
use rand_core::block::{BlockRng, BlockRngCore};
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};

extern "C" {
    fn sx_u32(lo: u32, hi: u32) -> u32;
}

static mut SCRIPT: Vec<u32> = Vec::new();
static mut NEXT: usize = 0;
/// The words the next generators deliver before they draw again.
pub fn script(v: Vec<u32>) {
    unsafe {
        SCRIPT = v;
        NEXT = 0;
    }
}
fn word() -> u32 {
    #[allow(static_mut_refs)]
    unsafe {
        if NEXT < SCRIPT.len() {
            NEXT += 1;
            return SCRIPT[NEXT - 1];
        }
        sx_u32(0, u32::MAX)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Words([u32; 8]);
impl Default for Words {
    fn default() -> Self {
        Words([0; 8])
    }
}
impl AsRef<[u32]> for Words {
    fn as_ref(&self) -> &[u32] {
        &self.0
    }
}
impl AsMut<[u32]> for Words {
    fn as_mut(&mut self) -> &mut [u32] {
        &mut self.0
    }
}

macro_rules! gen {
    ($core:ident, $rng:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $core;
        impl BlockRngCore for $core {
            type Item = u32;
            type Results = Words;
            fn generate(&mut self, r: &mut Words) {
                for w in r.0.iter_mut() {
                    *w = word();
                }
            }
        }
        impl SeedableRng for $core {
            type Seed = [u8; 32];
            fn from_seed(_: [u8; 32]) -> Self {
                $core
            }
        }
        impl CryptoRng for $core {}
        #[derive(Clone, Debug)]
        pub struct $rng {
            rng: BlockRng<$core>,
        }
        impl PartialEq for $rng {
            fn eq(&self, _: &$rng) -> bool {
                true
            }
        }
        impl Eq for $rng {}
        impl SeedableRng for $rng {
            type Seed = [u8; 32];
            fn from_seed(s: [u8; 32]) -> Self {
                $rng { rng: BlockRng::new($core::from_seed(s)) }
            }
        }
        impl RngCore for $rng {
            fn next_u32(&mut self) -> u32 {
                self.rng.next_u32()
            }
            fn next_u64(&mut self) -> u64 {
                self.rng.next_u64()
            }
            fn fill_bytes(&mut self, b: &mut [u8]) {
                self.rng.fill_bytes(b)
            }
            fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
                self.rng.try_fill_bytes(b)
            }
        }
        impl CryptoRng for $rng {}
    };
}
gen!(ChaCha20Core, ChaCha20Rng);
gen!(ChaCha12Core, ChaCha12Rng);
gen!(ChaCha8Core, ChaCha8Rng);
pub type ChaChaCore = ChaCha20Core;
pub type ChaChaRng = ChaCha20Rng;
