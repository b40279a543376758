//! C08: truncated sources.
use vcore::mon::{Cfg, Mon};
use vreg::codec;
pub fn run(cfg: &Cfg) -> Mon {
	codec::each(cfg, "C08", cfg.n(40, 1500), codec::truncated)
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
