//! C13: ownership of elements.
use vcore::mon::{catch, parallel, Cfg, Mon};
use vcore::rng::Rng;
use vh::drops::{shapes, whole};
use vh::slices::Kind;
use vh::{iters, slices, unit};
pub fn run(cfg: &Cfg) -> Mon {
	let mut m = slices::run_jobs(cfg, "C13", &slices::tracked(), Kind::Owner, cfg.n(300, 20_000), if cfg!(miri) { 6 } else { 60 });
	let sw: Vec<_> = slices::swept().into_iter().filter(|j| slices::TRACKED.contains(&j.0)).collect();
	if !cfg!(miri) { m.merge(slices::run_jobs(cfg, "C13 sweep", &sw, Kind::Owner, cfg.n(10, 200), 0)); }
	let its: Vec<_> = iters::jobs().into_iter().filter(|j| slices::TRACKED.contains(&j.0)).collect();
	m.merge(iters::run_jobs(cfg, "C13", &its, Kind::Owner, cfg.n(400, 40_000), if cfg!(miri) { 6 } else { 24 }));
	let n = cfg.n(100, 8000);
	m.merge(parallel(&(0..shapes().len()).collect::<Vec<_>>(), |&j, m| {
		let s = &shapes()[j];
		if cfg.only.as_ref().is_some_and(|o| *o != s.name) { return }
		for i in 0..n {
			let mut r = Rng::sub(cfg.seed, &format!("C13 {} {i}", s.name));
			vcore::crumb!("C13: {} iteration {i}, seed {}", s.name, cfg.seed);
			match catch(|| whole(s, &mut r, m)) {
				Ok(Ok(())) => {}
				Ok(Err(d)) => m.violation(s.name, || format!("{} in iteration {i} (seed {}): {d}", s.name, cfg.seed)),
				Err(p) => m.violation(&format!("panic {}", s.name), || format!("{} in iteration {i} (seed {}): unexpected panic {p}", s.name, cfg.seed)),
			}
		}
		m.count("types", 1);
	}));
	let n = cfg.n(300, 20_000);
	m.merge(parallel(&unit::jobs().into_iter().enumerate().collect::<Vec<_>>(), |&(j, f), m| {
		for i in 0..n {
			let mut r = Rng::sub(cfg.seed, &format!("C13 unit {j} {i}"));
			match catch(|| f(&mut r, m, if cfg!(miri) { 12 } else { 40 })) {
				Ok(Ok(())) => {}
				Ok(Err(d)) => m.violation(&format!("unit {j}"), || format!("{d} (history {i}, seed {})", cfg.seed)),
				Err(p) => m.violation(&format!("unit panic {j}"), || format!("elements without a size: unexpected panic {p} (history {i}, seed {})", cfg.seed)),
			}
		}
	}));
	iters::nth::probe(&mut m, "sized-iter-nth", true);
	m
}

#[allow(dead_code)]
fn main() {
	if let Ok(a) = std::env::var("VP_NTH") { iters::nth::child(&a) }
	run(&Cfg::get()).finish()
}
