//! C17: undefined behaviour. The workloads of the other checks, run where an interpreter or a sanitizer watches.
use std::process::{Command, Stdio};
use vcore::mon::{Cfg, Mon};
use vreg::codec;
use oct::SizedSlice;

#[path = "c05.rs"] mod c05;
#[path = "c06.rs"] mod c06;
#[path = "c10.rs"] mod c10;
#[path = "c11.rs"] mod c11;
#[path = "c12.rs"] mod c12;
#[path = "c13.rs"] mod c13;
#[path = "c14.rs"] mod c14;
#[path = "c16.rs"] mod c16;
#[path = "c20.rs"] mod c20;

/// The iterator hands out an element twice; both are dropped.
fn nth_child() -> ! {
	let s: SizedSlice<String, 3> = ["first".to_string(), "second".to_string(), "third".to_string()].into();
	let mut i = s.into_iter();
	let a = i.nth(1);
	let b = i.next();
	drop(a);
	drop(b);
	std::process::exit(0)
}

fn nth(m: &mut Mon) {
	if cfg!(miri) || std::env::var("VP_LEG").as_deref() != Ok("asan") { return }
	let o = Command::new(std::env::current_exe().unwrap()).env("VP_NTH", "17").env_remove("VP_REPORT").env_remove("VP_CRUMB").stdin(Stdio::null()).output().unwrap();
	m.eval(None);
	m.count("nth probed", 1);
	let e = String::from_utf8_lossy(&o.stderr);
	if let Some(l) = e.lines().find(|l| l.contains("ERROR: AddressSanitizer")) {
		m.finding("sized-iter-nth", || format!("SizedIter<String, 3>: nth(1), then next: {}", l.split("ERROR: ").nth(1).unwrap_or(l).split(" on ").next().unwrap_or("")));
	}
}

pub fn run(cfg: &Cfg) -> Mon {
	let mut m = Mon::new();
	let mut go = |name: &str, native: f64, miri: f64, f: &dyn Fn(&Cfg) -> Mon| {
		if cfg.only.as_ref().is_some_and(|o| o != name) { return }
		let s = if cfg!(miri) { miri } else { native } * cfg.scale * if cfg.thorough { 40.0 } else { 1.0 };
		let t = std::time::Instant::now();
		let mut o = f(&Cfg { seed: cfg.seed, thorough: false, scale: s, only: None });
		{ eprintln!("[time] {name}: {:.1} s, {} evaluations", t.elapsed().as_secs_f64(), o.evals) }
		o.counters = [(format!("evaluations of {name}"), o.evals)].into();
		m.merge(o);
	};
	go("direct operations", 1.0, 1.0, &|_| vh::battery::run());
	go("output streams", 0.1, 0.002, &c05::run);
	go("input streams", 0.1, 0.002, &c06::run);
	go("slots", 0.5, 0.01, &c10::run);
	go("sized slices", 0.5, 0.01, &c11::run);
	go("iterators", 0.2, 0.005, &c12::run);
	go("ownership", 0.2, 0.005, &c13::run);
	go("sized strings", 0.5, 0.01, &c14::run);
	go("failing decodes", 0.2, 0.002, &c16::run);
	go("comparisons", 0.1, 0.002, &c20::run);
	go("round trips", 1.0, 1.0, &|c| codec::each(c, "C17", c.n(20, 20).min(if cfg!(miri) { 1 } else { 9999 }), codec::round_trip));
	go("hostile sources", 1.0, 1.0, &|c| codec::each(c, "C17", if cfg!(miri) { 2 } else { c.n(100, 100) }, codec::decode_hostile));
	go("small outputs", 1.0, 1.0, &|c| codec::each(c, "C17", c.n(4, 4).min(if cfg!(miri) { 1 } else { 9999 }), codec::too_small));
	go("truncated sources", 1.0, 1.0, &|c| codec::each(c, "C17", c.n(8, 8).min(if cfg!(miri) { 1 } else { 9999 }), codec::truncated));
	if !cfg!(miri) { go("surroundings", 1.0, 1.0, &|c| codec::each(c, "C17", c.n(8, 8).min(if cfg!(miri) { 1 } else { 9999 }), codec::surroundings)); }
	if !cfg!(miri) { go("unencodable values", 1.0, 1.0, &|c| codec::each(c, "C17", c.n(6, 6), codec::unencodable)); }
	nth(&mut m);
	m
}

fn main() {
	if let Ok(a) = std::env::var("VP_NTH") { if a == "17" { nth_child() } vh::iters::nth::child(&a) }
	if std::env::var("VP_SHARD").as_deref() == Ok("none") { return }
	run(&Cfg::get()).finish()
}
