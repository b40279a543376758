//! The monitor: counts what was observed, keeps samples, records violations and writes the report.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub const MAX_VIOLATIONS: usize = 20;

#[derive(Clone, Debug)]
pub struct Violation { pub what: String, pub detail: String }

pub struct Mon {
	pub evals:    u64,
	pub distinct: HashSet<u64>,
	pub counters: BTreeMap<String, u64>,
	pub samples:  Vec<String>,
	pub findings: BTreeMap<String, String>,
	pub viol:     Vec<Violation>,
	pub viol_n:   u64,
	seen:         HashSet<String>,
	max_samples:  usize,
}

impl Default for Mon { fn default() -> Self { Self::new() } }

impl Mon {
	pub fn new() -> Self {
		Self {
			evals: 0, distinct: HashSet::new(), counters: BTreeMap::new(), samples: Vec::new(),
			findings: BTreeMap::new(), viol: Vec::new(), viol_n: 0, seen: HashSet::new(), max_samples: 6,
		}
	}

	/// One oracle evaluation. `key` identifies the case; only non-trivial cases should be passed a key.
	pub fn eval(&mut self, key: Option<u64>) {
		tick();
		self.evals += 1;
		if let Some(k) = key { if self.distinct.len() < 4_000_000 { self.distinct.insert(k); } }
	}

	pub fn count(&mut self, name: &str, n: u64) {
		if let Some(c) = self.counters.get_mut(name) { *c += n } else { self.counters.insert(name.into(), n); }
	}

	pub fn max(&mut self, name: &str, n: u64) {
		let c = self.counters.entry(name.into()).or_insert(0);
		if *c < n { *c = n }
	}

	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.samples.len() < self.max_samples { let mut s = f(); trunc(&mut s, 400); self.samples.push(s) }
	}

	pub fn want_sample(&self) -> bool { self.samples.len() < self.max_samples }

	/// Records a violation; `class` deduplicates.
	pub fn violation(&mut self, class: &str, detail: impl FnOnce() -> String) {
		self.viol_n += 1;
		if self.viol.len() < MAX_VIOLATIONS && self.seen.insert(class.into()) {
			let mut d = detail();
			trunc(&mut d, 6000);
			eprintln!("[violation] {class}: {d}");
			crate::alloc_mon::paused(|| {
				let mut all = RECORDED.lock().unwrap_or_else(|e| e.into_inner());
				if all.len() < MAX_VIOLATIONS { all.push(Violation { what: class.into(), detail: d.clone() }) }
			});
			self.viol.push(Violation { what: class.into(), detail: d });
		}
	}

	/// An observation that matches a listed finding exactly.
	pub fn finding(&mut self, id: &str, what: impl FnOnce() -> String) {
		self.findings.entry(id.into()).or_insert_with(what);
	}

	pub fn merge(&mut self, o: Mon) {
		self.evals += o.evals;
		self.distinct.extend(o.distinct);
		for (k, v) in o.counters {
			if k.starts_with("max ") { self.max(&k, v) } else { self.count(&k, v) }
		}
		for s in o.samples { if self.samples.len() < 24 { self.samples.push(s) } }
		for (k, v) in o.findings { self.findings.entry(k).or_insert(v); }
		self.viol_n += o.viol_n;
		for v in o.viol {
			if self.viol.len() < MAX_VIOLATIONS && self.seen.insert(v.what.clone()) { self.viol.push(v) }
		}
	}

	pub fn to_json(&self) -> String {
		let mut s = String::new();
		let _ = write!(s, "{{\"evaluations\":{},\"distinct\":{},\"violation_count\":{},\"counters\":{{", self.evals, self.distinct.len(), self.viol_n);
		for (i, (k, v)) in self.counters.iter().enumerate() {
			let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
		}
		s.push_str("},\"samples\":[");
		for (i, v) in self.samples.iter().enumerate() { let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(v)); }
		s.push_str("],\"findings\":{");
		for (i, (k, v)) in self.findings.iter().enumerate() { let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), js(v)); }
		s.push_str("},\"violations\":[");
		for (i, v) in self.viol.iter().enumerate() {
			let _ = write!(s, "{}{{\"what\":{},\"detail\":{}}}", if i > 0 { "," } else { "" }, js(&v.what), js(&v.detail));
		}
		s.push_str("]}");
		s
	}

	/// Writes the report and ends the process.
	pub fn finish(self) -> ! {
		let j = self.to_json();
		match std::env::var("VP_REPORT") {
			Ok(p) if !p.is_empty() && !cfg!(miri) => std::fs::write(p, &j).unwrap(),
			_ => println!("VP_REPORT_JSON {j}"),
		}
		std::process::exit(i32::from(self.viol_n > 0))
	}
}

// What was recorded and how far the process has come, for the watchdog.

static RECORDED: std::sync::Mutex<Vec<Violation>> = std::sync::Mutex::new(Vec::new());
static TICKS: AtomicU64 = AtomicU64::new(0);

/// A sign of progress.
pub fn tick() { TICKS.fetch_add(1, Ordering::Relaxed); }

/// Ends the process, with what was recorded until then, when it makes no progress for too long: a call that never returns
/// gives no result either. Work that takes long between two signs of progress uses the processor but must end in time;
/// a deadlock uses none.
#[cfg(not(miri))]
fn watchdog() {
	fn cpu() -> f64 {
		let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
		let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
		let n = |i: usize| f.get(i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
		(n(11) + n(12)) / 100.0
	}
	let _ = std::thread::Builder::new().name("watchdog".into()).spawn(|| {
		let (mut last, mut since, mut used) = (0, std::time::Instant::now(), cpu());
		loop {
			std::thread::sleep(std::time::Duration::from_secs(2));
			let now = TICKS.load(Ordering::Relaxed);
			if std::env::var("VP_GAPS").is_ok() { eprintln!("[gap] {:.0} s, {:.0} s busy", since.elapsed().as_secs_f64(), cpu() - used) }
			if now != last { (last, since, used) = (now, std::time::Instant::now(), cpu()); continue }
			let (wall, busy) = (since.elapsed().as_secs_f64(), cpu() - used);
			let (idle, spins) = (wall > 60.0 && busy < 1.0, wall > 60.0 && busy > 240.0);
			if !idle && !spins { continue }
			let mut m = Mon::new();
			m.evals = now;
			m.viol = RECORDED.lock().unwrap_or_else(|e| e.into_inner()).clone();
			m.viol_n = m.viol.len() as u64;
			m.violation("no progress", || format!("nothing was finished for {wall:.0} s ({busy:.0} s of processor time): {}", if idle { "a deadlock" } else { "a call that does not end" }));
			m.finish()
		}
	});
}

pub fn trunc(s: &mut String, n: usize) {
	if s.len() > n {
		let mut i = n;
		while !s.is_char_boundary(i) { i -= 1 }
		s.truncate(i);
		s.push('…');
	}
}

pub fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || c as u32 == 0x7F => { let _ = write!(o, "\\u{:04x}", c as u32); }
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::with_capacity(b.len() * 2 + 8);
	for (i, v) in b.iter().enumerate() {
		if i == 200 { let _ = write!(s, "…({} bytes)", b.len()); break }
		let _ = write!(s, "{v:02x}");
	}
	s
}

// Panics are expected outcomes here; keep them quiet but remember their message.

thread_local! {
	static LAST: RefCell<String> = const { RefCell::new(String::new()) };
	static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn init() {
	static ONCE: AtomicBool = AtomicBool::new(false);
	if ONCE.swap(true, Ordering::SeqCst) { return }
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		if QUIET.with(|q| q.get()) > 0 {
			let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
			let msg = info.payload();
			let msg = msg.downcast_ref::<&str>().map(|s| (*s).to_string())
				.or_else(|| msg.downcast_ref::<String>().cloned())
				.unwrap_or_else(|| "<payload>".into());
			LAST.with(|l| *l.borrow_mut() = format!("{msg} @ {loc}"));
		} else {
			old(info);
		}
	}));
	crumb::init();
	#[cfg(not(miri))]
	watchdog();
}

/// The payload of panics that the harness itself injects.
pub struct Injected;

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	QUIET.with(|q| q.set(q.get() + 1));
	let r = catch_unwind(AssertUnwindSafe(f));
	QUIET.with(|q| q.set(q.get() - 1));
	r.map_err(|p: Box<dyn Any + Send>| {
		if p.is::<Injected>() { return "<injected>".into() }
		LAST.with(|l| std::mem::take(&mut *l.borrow_mut()))
	})
}

/// Whether this process should take part `i` of the work; `VP_SHARD` is `k/n`.
pub fn mine(i: usize) -> bool {
	static S: std::sync::OnceLock<Option<(usize, usize)>> = std::sync::OnceLock::new();
	let s = S.get_or_init(|| {
		let v = std::env::var("VP_SHARD").ok()?;
		let (k, n) = v.split_once('/')?;
		Some((k.parse().ok()?, n.parse().ok()?))
	});
	s.is_none_or(|(k, n)| i % n == k)
}

/// Whether the time that the check has been given is about to end; what has not begun by then is left out.
pub fn late() -> bool {
	static END: std::sync::OnceLock<Option<f64>> = std::sync::OnceLock::new();
	let Some(end) = *END.get_or_init(|| std::env::var("VP_DEADLINE").ok()?.parse().ok()) else { return false };
	std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).is_ok_and(|t| t.as_secs_f64() > end)
}

/// Splits jobs over threads, merging their monitors in order.
pub fn parallel<J: Sync>(jobs: &[J], f: impl Fn(&J, &mut Mon) + Sync) -> Mon {
	init();
	let n = if cfg!(miri) { 1 } else { std::env::var("VP_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8) };
	// A shard only takes its part of the jobs.
	static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
	let call = CALLS.fetch_add(1, Ordering::SeqCst);
	let jobs: Vec<&J> = jobs.iter().enumerate().filter(|(i, _)| mine(i + call)).map(|j| j.1).collect();
	let next = std::sync::atomic::AtomicUsize::new(0);
	let out: std::sync::Mutex<BTreeMap<usize, Mon>> = std::sync::Mutex::new(BTreeMap::new());
	let work = || {
		loop {
			let i = next.fetch_add(1, Ordering::SeqCst);
			if i >= jobs.len() { break }
			if late() { let mut m = Mon::new(); m.count("jobs left out for want of time", 1); out.lock().unwrap().insert(i, m); continue }
			let mut m = Mon::new();
			m.max_samples = 1;
			// No call outside of the oracle's guards ever panics on sound code.
			if let Err(p) = catch(|| f(jobs[i], &mut m)) { m.violation("unexpected panic", || format!("a call that always succeeds panicked: {p}; in progress: {}", crumb::get())) }
			tick();
			out.lock().unwrap().insert(i, m);
		}
	};
	if n <= 1 {
		work();
	} else {
		std::thread::scope(|s| {
			let hs: Vec<_> = (0..n).map(|_| s.spawn(work)).collect();
			for h in hs { if h.join().is_err() { eprintln!("harness thread panicked"); std::process::exit(70) } }
		});
	}
	let mut m = Mon::new();
	for (_, o) in out.into_inner().unwrap() { m.merge(o) }
	m
}

/// A shared-memory note of the case in progress, per thread; it survives a crash of the process.
pub mod crumb {
	#[cfg(not(miri))]
	mod imp {
		use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};
		extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
		static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
		static NEXT: AtomicUsize = AtomicUsize::new(0);
		const SLOT: usize = 4096;
		const N: usize = 64;
		thread_local! { static MY: usize = NEXT.fetch_add(1, Ordering::SeqCst) % N; }
		pub fn init() {
			use std::os::fd::AsRawFd;
			let Ok(p) = std::env::var("VP_CRUMB") else { return };
			let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
			f.set_len((SLOT * N) as u64).unwrap();
			let b = unsafe { mmap(std::ptr::null_mut(), SLOT * N, 3, 1, f.as_raw_fd(), 0) };
			if b as isize != -1 { BASE.store(b, Ordering::SeqCst) }
		}
		pub fn active() -> bool { !BASE.load(Ordering::Relaxed).is_null() }
		pub fn set(parts: &[&[u8]]) {
			crate::mon::tick();
			let b = BASE.load(Ordering::Relaxed);
			if b.is_null() { return }
			MY.with(|i| unsafe {
				let b = b.add(i * SLOT);
				let mut n = 0;
				for p in parts {
					let k = p.len().min(SLOT - 4 - n);
					std::ptr::copy_nonoverlapping(p.as_ptr(), b.add(4 + n), k);
					n += k;
				}
				b.cast::<u32>().write_unaligned(n as u32);
			})
		}
		/// This thread's note.
		pub fn get() -> String {
			let b = BASE.load(Ordering::Relaxed);
			if b.is_null() { return String::new() }
			MY.with(|i| unsafe {
				let b = b.add(i * SLOT);
				let n = b.cast::<u32>().read_unaligned() as usize;
				String::from_utf8_lossy(std::slice::from_raw_parts(b.add(4), n.min(SLOT - 4))).into_owned()
			})
		}
	}
	#[cfg(miri)]
	mod imp {
		pub fn init() {}
		pub fn active() -> bool { std::env::var("VP_TRACE").is_ok() }
		pub fn get() -> String { String::new() }
		pub fn set(parts: &[&[u8]]) {
			if !active() { return }
			use std::io::Write;
			let mut e = std::io::stderr().lock();
			let _ = e.write_all(b"[case] ");
			for p in parts { let _ = e.write_all(p); }
			let _ = e.write_all(b"\n");
		}
	}
	pub use imp::*;
}

/// Notes a step: with its history, or alone where formatting takes long.
#[macro_export]
macro_rules! step {
	($name:expr, $step:expr, $history:expr) => {
		if cfg!(miri) { $crate::mon::crumb::set(&[$name.as_bytes(), b": ", $step.as_bytes()]) } else { $crate::crumb!("{}: {} after {}", $name, $step, $history) }
	};
}

/// Notes the case in progress (only formatted when someone is listening).
#[macro_export]
macro_rules! crumb {
	($($t:tt)*) => { if $crate::mon::crumb::active() { $crate::mon::crumb::set(&[format!($($t)*).as_bytes()]) } };
}

pub fn clear_crumb() { crumb::set(&[b""]) }

pub struct Cfg { pub seed: u64, pub thorough: bool, pub scale: f64, pub only: Option<String> }

impl Cfg {
	pub fn get() -> Self {
		let v = |n: &str| std::env::var(n).ok().filter(|s| !s.is_empty());
		Self {
			seed:     v("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
			thorough: v("VERIF_TIER").as_deref() == Some("thorough"),
			scale:    v("VP_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
			only:     v("VP_ONLY"),
		}
	}
	/// Scales a case count: by tier and by leg.
	pub fn n(&self, quick: usize, thorough: usize) -> usize {
		let n = if self.thorough { thorough } else { quick };
		((n as f64 * self.scale).ceil() as usize).max(1)
	}
}
