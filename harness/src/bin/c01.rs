//! C01: round trips.
use vcore::mon::{Cfg, Mon};
use vreg::codec;
pub fn run(cfg: &Cfg) -> Mon {
	let mut m = codec::each(cfg, "C01", cfg.n(120, 4000), codec::round_trip);
	m.merge(codec::chains(cfg, cfg.n(4000, 150_000)));
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
