//! C12: consuming iteration.
use vcore::mon::{Cfg, Mon};
use vh::iters::{interleavings, jobs, nth, run_jobs};
use vh::slices::Kind;
pub fn run(cfg: &Cfg) -> Mon {
	let mut m = run_jobs(cfg, "C12", &jobs(), Kind::Content, cfg.n(400, 40_000), if cfg!(miri) { 10 } else { 24 });
	interleavings::<0>(&mut m);
	interleavings::<1>(&mut m);
	interleavings::<3>(&mut m);
	if !cfg!(miri) { interleavings::<6>(&mut m); }
	if !cfg!(miri) { interleavings::<11>(&mut m); }
	if !cfg!(miri) { m.merge(vh::observed::run(cfg, "C12", cfg.n(20, 2000))) }
	nth::probe(&mut m, "sized-iter-nth", false);
	m
}

#[allow(dead_code)]
fn main() {
	if let Ok(a) = std::env::var("VP_NTH") { nth::child(&a) }
	run(&Cfg::get()).finish()
}
