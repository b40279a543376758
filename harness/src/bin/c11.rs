//! C11: sized slices against bounded vectors.
use vcore::mon::{Cfg, Mon};
use vh::slices::{jobs, run_jobs, swept, Kind};
pub fn run(cfg: &Cfg) -> Mon {
	let mut m = run_jobs(cfg, "C11 sweep", &swept(), Kind::Content, if cfg!(miri) { 0 } else { cfg.n(10, 200) }, 0);
	m.merge(run_jobs(cfg, "C11", &jobs(), Kind::Content, cfg.n(60, 4000), if cfg!(miri) { 9 } else { 60 }));
	if !cfg!(miri) { m.merge(vh::observed::run(cfg, "C11", cfg.n(20, 2000))) }
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
