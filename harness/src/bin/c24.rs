//! C24: heap use.
use vcore::mon::{Cfg, Mon};
use vreg::codec;
pub fn run(cfg: &Cfg) -> Mon {
	codec::each(cfg, "C24", cfg.n(150, 5000), codec::heap)
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
