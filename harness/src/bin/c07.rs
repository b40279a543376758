//! C07: outputs that are too small.
use vcore::mon::{Cfg, Mon};
use vreg::codec;
pub fn run(cfg: &Cfg) -> Mon {
	codec::each(cfg, "C07", cfg.n(40, 1500), codec::too_small)
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
