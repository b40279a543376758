//! C21: the data model in this configuration of features.
use vcore::mon::{Cfg, Mon};
use vreg::codec;

pub fn run(cfg: &Cfg) -> Mon {
	let mut m = codec::each(cfg, "C21 layout", cfg.n(25, 1500), codec::layout);
	m.merge(codec::each(cfg, "C21 trips", cfg.n(20, 1500), codec::round_trip));
	m.merge(codec::each(cfg, "C21 sources", cfg.n(200, 8000), codec::decode_hostile));
	m.merge(codec::each(cfg, "C21 values", cfg.n(25, 600), codec::unencodable));
	m.merge(codec::each(cfg, "C21 sizes", cfg.n(8, 200), codec::max_size));
	m.merge(codec::each(cfg, "C21 errors", cfg.n(30, 1500), codec::errors));
	m
}

fn main() {
	run(&Cfg::get()).finish()
}
