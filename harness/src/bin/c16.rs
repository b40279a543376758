//! C16: failing decodes.
use vcore::mon::{catch, parallel, Cfg, Mon};
use vcore::rng::Rng;
use vh::drops::{failing, shapes};
pub fn run(cfg: &Cfg) -> Mon {
	let n = cfg.n(4000, 200_000);
	let all = shapes();
	let mut m = parallel(&(0..all.len()).collect::<Vec<_>>(), |&j, m| {
		let s = &shapes()[j];
		if cfg.only.as_ref().is_some_and(|o| *o != s.name) { return }
		for i in 0..n {
			let mut r = Rng::sub(cfg.seed, &format!("C16 {} {i}", s.name));
			vcore::crumb!("C16: {} iteration {i}, seed {}", s.name, cfg.seed);
			match catch(|| failing(s, &mut r, m)) {
				Ok(Ok(())) => {}
				Ok(Err(d)) => m.violation(s.name, || format!("{} in iteration {i} (seed {}): {d}", s.name, cfg.seed)),
				Err(p) => m.violation(&format!("panic {}", s.name), || format!("{} in iteration {i} (seed {}): unexpected panic {p}", s.name, cfg.seed)),
			}
		}
		m.count("types", 1);
	});
	if !cfg!(miri) { m.merge(vreg::codec::each(cfg, "C16", cfg.n(100, 6000), vreg::codec::released)) }
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
