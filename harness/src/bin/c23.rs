//! C23: varied surroundings.
use vcore::mon::{Cfg, Mon};
use vreg::codec;
pub fn run(cfg: &Cfg) -> Mon {
	let mut m = codec::each(cfg, "C23", cfg.n(80, 3000), codec::surroundings);
	if !cfg!(miri) {
		let mut t = codec::each(cfg, "C23 threads", cfg.n(1, 20), codec::threads);
		t.counters.retain(|k, _| !k.starts_with("types"));
		m.merge(t);
	}
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
