//! Property harnesses for rusty_network, executed symbolically by `rsx` and natively by `replay`.
#[macro_use]
pub mod sx;
pub mod lay;
pub mod t_basic;
pub mod t_conv;
pub mod t_edge;
#[cfg(feature = "hooks")]
pub mod t_grad;
pub mod t_file;
pub mod t_layer;
pub mod t_long;
pub mod t_misc;
pub mod t_more;
pub mod t_net;
pub mod t_rand;
pub mod t_repeat;
pub mod t_same;
pub mod t_serial;

#[cfg(feature = "native")]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut v = vec![];
    for t in [t_basic::TABLE, t_conv::TABLE, t_misc::TABLE, t_layer::TABLE, t_long::TABLE, t_serial::TABLE, t_net::TABLE, t_file::TABLE, t_repeat::TABLE, t_edge::TABLE, t_more::TABLE, t_rand::TABLE, t_same::TABLE] {
        v.extend_from_slice(t);
    }
    #[cfg(feature = "hooks")]
    v.extend_from_slice(t_grad::TABLE);
    v
}
