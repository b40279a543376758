//! C18: shared state encoded while others change it.
use oct::encode::{Encode, Output};
use oct::SizedSlice;
use std::cell::{LazyCell, RefCell};
use std::collections::{HashMap, LinkedList};
use std::convert::Infallible;
use std::sync::atomic::*;
use std::sync::{mpsc, Arc, Barrier, LazyLock, Mutex, MutexGuard, PoisonError, RwLock, TryLockError};
use std::thread;
use std::time::{Duration, Instant};
use vcore::mon::{catch, hex, Cfg, Injected, Mon};
use vcore::rng::{hash_bytes, Rng};

const PATIENCE: Duration = Duration::from_secs(if cfg!(miri) { 120 } else { 20 });

// Injected delays.

thread_local! { static R: RefCell<Rng> = RefCell::new(Rng::new(1)); }
fn seed(s: u64) { R.with(|r| *r.borrow_mut() = Rng::new(s)) }
fn pause() {
	match R.with(|r| r.borrow_mut().below(12)) {
		0..=3 => thread::yield_now(),
		4..=6 => for _ in 0..if cfg!(miri) { 2 } else { 40 } { std::hint::spin_loop() },
		7 if !cfg!(miri) => thread::sleep(Duration::from_micros(20)),
		_ => {}
	}
}

/// A number that takes its time.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Slow(u64);
impl Encode for Slow {
	type Error = Infallible;
	fn encode(&self, o: &mut Output) -> Result<(), Infallible> { pause(); let r = self.0.encode(o); pause(); r }
}

// Contents that show a mixture of two versions.

trait Versions: Encode + Send + Sync + 'static {
	const NAME: &'static str;
	fn new() -> Self;
	fn version(&self) -> u64;
	/// Takes on the version, part by part.
	fn set(&mut self, n: u64);
	/// The version that was encoded, if it is one.
	fn read(b: &[u8]) -> Option<u64>;
}

fn words(b: &[u8]) -> Vec<u64> { b.chunks(8).map(|c| { let mut w = [0; 8]; w[..c.len()].copy_from_slice(c); u64::from_le_bytes(w) }).collect() }
fn all_same(w: &[u64]) -> Option<u64> { (!w.is_empty() && w.iter().all(|x| *x == w[0])).then(|| w[0]) }
fn counted(b: &[u8]) -> Option<(usize, &[u8])> { Some((usize::from(u16::from_le_bytes([*b.first()?, *b.get(1)?])), &b[2..])) }

impl Versions for [Slow; 5] {
	const NAME: &'static str = "[_; 5]";
	fn new() -> Self { [Slow(0); 5] }
	fn version(&self) -> u64 { self[0].0 }
	fn set(&mut self, n: u64) { for s in self { s.0 = n; pause() } }
	fn read(b: &[u8]) -> Option<u64> { (b.len() == 40).then(|| all_same(&words(b)))? }
}
fn spread(n: u64) -> usize { 1 + (n % 6) as usize }
impl Versions for Vec<Slow> {
	const NAME: &'static str = "Vec<_>";
	fn new() -> Self { vec![Slow(0)] }
	fn version(&self) -> u64 { self[0].0 }
	fn set(&mut self, n: u64) { self.clear(); pause(); for _ in 0..spread(n) { self.push(Slow(n)); pause() } }
	fn read(b: &[u8]) -> Option<u64> { let (c, b) = counted(b)?; let n = all_same(&words(b))?; (c == spread(n) && b.len() == c * 8).then_some(n) }
}
impl Versions for SizedSlice<Slow, 8> {
	const NAME: &'static str = "SizedSlice<_, 8>";
	fn new() -> Self { SizedSlice::new(&[Slow(0)]).unwrap() }
	fn version(&self) -> u64 { self[0].0 }
	fn set(&mut self, n: u64) { self.copy_from_slice(&[]); pause(); self.copy_from_slice(&vec![Slow(n); spread(n)]); pause() }
	fn read(b: &[u8]) -> Option<u64> { <Vec<Slow>>::read(b) }
}
impl Versions for LinkedList<Slow> {
	const NAME: &'static str = "LinkedList<_>";
	fn new() -> Self { [Slow(0)].into() }
	fn version(&self) -> u64 { self.front().unwrap().0 }
	fn set(&mut self, n: u64) { self.clear(); pause(); for _ in 0..spread(n) { self.push_back(Slow(n)); pause() } }
	fn read(b: &[u8]) -> Option<u64> { <Vec<Slow>>::read(b) }
}
impl Versions for HashMap<u64, Slow> {
	const NAME: &'static str = "HashMap<_, _>";
	fn new() -> Self { [(0, Slow(0))].into() }
	fn version(&self) -> u64 { self.values().next().unwrap().0 }
	fn set(&mut self, n: u64) { self.clear(); pause(); for i in 0..spread(n) { self.insert(i as u64, Slow(n)); pause() } }
	fn read(b: &[u8]) -> Option<u64> {
		let (c, b) = counted(b)?;
		let w = words(b);
		let n = all_same(&w.iter().copied().skip(1).step_by(2).collect::<Vec<_>>())?;
		let mut k: Vec<u64> = w.iter().copied().step_by(2).collect();
		k.sort();
		(c == spread(n) && k == (0..c as u64).collect::<Vec<_>>()).then_some(n)
	}
}
impl Versions for String {
	const NAME: &'static str = "String";
	fn new() -> Self { "0".into() }
	fn version(&self) -> u64 { self.split(' ').next().unwrap().parse().unwrap() }
	fn set(&mut self, n: u64) { self.clear(); pause(); for i in 0..spread(n) { if i > 0 { self.push(' ') } self.push_str(&n.to_string()); pause() } }
	fn read(b: &[u8]) -> Option<u64> {
		let (c, b) = counted(b)?;
		let s = std::str::from_utf8(b).ok()?;
		let w: Vec<u64> = s.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
		let n = all_same(&w)?;
		(c == b.len() && w.len() == spread(n)).then_some(n)
	}
}
#[derive(Encode)]
struct Record { first: Slow, half: u32, list: Vec<u64>, last: Option<Slow> }
impl Versions for Record {
	const NAME: &'static str = "a structure";
	fn new() -> Self { Self { first: Slow(0), half: 0, list: vec![0], last: Some(Slow(0)) } }
	fn version(&self) -> u64 { self.first.0 }
	fn set(&mut self, n: u64) { self.last = None; pause(); self.first.0 = n; pause(); self.half = n as u32; pause(); self.list = vec![n; spread(n)]; pause(); self.last = Some(Slow(n)) }
	fn read(b: &[u8]) -> Option<u64> {
		let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?);
		let mut want = n.to_le_bytes().to_vec();
		want.extend((n as u32).to_le_bytes());
		want.extend((spread(n) as u16).to_le_bytes());
		for _ in 0..spread(n) { want.extend(n.to_le_bytes()) }
		want.push(1);
		want.extend(n.to_le_bytes());
		(b == want).then_some(n)
	}
}

trait Shared: Send + Sync + 'static {
	type T: Versions;
	const HOW: &'static str;
	fn new() -> Self;
	fn update(&self, f: &mut dyn FnMut(&mut Self::T));
	fn enc(&self, o: &mut Output) -> bool;
}
fn open<T>(r: Result<T, PoisonError<T>>) -> T { r.unwrap_or_else(PoisonError::into_inner) }
macro_rules! shared { ($($how:literal $ty:ty: $new:expr, |$s:ident, $f:ident| $up:expr;)*) => { $(
	impl<T: Versions> Shared for $ty {
		type T = T;
		const HOW: &'static str = $how;
		fn new() -> Self { $new }
		fn update(&self, $f: &mut dyn FnMut(&mut T)) { let $s = self; $up }
		fn enc(&self, o: &mut Output) -> bool { self.encode(o).is_ok() }
	}
)* } }
shared! {
	"Mutex" Mutex<T>: Mutex::new(T::new()), |s, f| f(&mut *open(s.lock()));
	"RwLock" RwLock<T>: RwLock::new(T::new()), |s, f| f(&mut *open(s.write()));
	"Arc<Mutex>" Arc<Mutex<T>>: Arc::new(Mutex::new(T::new())), |s, f| f(&mut *open(s.lock()));
	"RwLock in Mutex" Mutex<RwLock<T>>: Mutex::new(RwLock::new(T::new())), |s, f| f(open(open(s.lock()).get_mut()));
	"Mutex in RwLock" Box<RwLock<Mutex<T>>>: Box::new(RwLock::new(Mutex::new(T::new()))), |s, f| f(&mut *open(open(s.read()).lock()));
}

/// Reports what was seen, or that nothing was in time.
fn watched<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
	let (tx, rx) = mpsc::channel();
	let t = thread::spawn(move || { let r = f(); let _ = tx.send(r); });
	let r = rx.recv_timeout(PATIENCE).ok()?;
	let _ = t.join();
	Some(r)
}

#[derive(Default)]
struct Seen { snapshots: u64, distinct: Vec<u64>, bad: Option<(String, String)>, repeats: u64 }

/// Some threads update, others encode; each snapshot must be a version between those that had been finished and begun.
fn snapshots<S: Shared>(m: &mut Mon, r: &mut Rng, updates: u64) {
	let name = format!("{} of {}", S::HOW, S::T::NAME);
	vcore::crumb!("C18: snapshots of {name}");
	let (writers, readers) = (1 + r.below(2), if cfg!(miri) { 2 } else { 3 });
	let seeds: Vec<u64> = (0..writers + readers).map(|_| r.u64()).collect();
	let got = watched(move || {
		let s = S::new();
		let (begun, done, left) = (AtomicU64::new(0), AtomicU64::new(0), AtomicUsize::new(writers));
		let mut out = Vec::new();
		thread::scope(|sc| {
			for i in 0..writers {
				let (s, begun, done, left, sd) = (&s, &begun, &done, &left, seeds[i]);
				sc.spawn(move || {
					seed(sd);
					for _ in 0..updates {
						s.update(&mut |t| {
							let n = t.version() + 1;
							begun.store(n, Ordering::SeqCst);
							t.set(n);
							done.store(n, Ordering::SeqCst);
						});
						pause();
					}
					left.fetch_sub(1, Ordering::SeqCst);
				});
			}
			let hs: Vec<_> = (0..readers).map(|i| {
				let (s, begun, done, left, sd) = (&s, &begun, &done, &left, seeds[writers + i]);
				sc.spawn(move || {
					seed(sd);
					let mut seen = Seen::default();
					let mut last = 0;
					let mut buf = [0u8; 512];
					loop {
						let over = left.load(Ordering::SeqCst) == 0;
						let lo = done.load(Ordering::SeqCst);
						let (ok, b) = match catch(|| { let mut o = Output::new(&mut buf); let ok = s.enc(&mut o); let n = o.position(); (ok, n) }) { Ok((ok, n)) => (ok, buf[..n].to_vec()), Err(p) => { seen.bad = Some(("panic".into(), p)); break } };
						let hi = begun.load(Ordering::SeqCst);
						seen.snapshots += 1;
						let v = S::T::read(&b);
						match v {
							_ if !ok => { seen.bad = Some(("refused".into(), "was refused".into())); break }
							None => { seen.bad = Some(("mixture".into(), format!("gave {}, which was never stored", hex(&b)))); break }
							Some(v) if v < lo || v > hi => { seen.bad = Some(("stale".into(), format!("gave version {v}, though {lo} had been stored before and only {hi} begun after"))); break }
							Some(v) if v < last => { seen.bad = Some(("order".into(), format!("gave version {v} after {last}"))); break }
							Some(v) => { if v == last { seen.repeats += 1 } else { seen.distinct.push(v) } last = v }
						}
						if over { break }
					}
					seen
				})
			}).collect();
			for h in hs { out.push(h.join().unwrap()) }
		});
		let total = updates * writers as u64;
		let mut fin = 0;
		s.update(&mut |t| fin = t.version());
		(out, fin == total)
	});
	let Some((seen, finished)) = got else { m.violation(&format!("stuck {name}"), || format!("{writers} writers and {readers} encoders of {name} were stuck for {PATIENCE:?}")); return };
	if !finished { m.violation(&format!("updates {name}"), || format!("updates of {name} were lost")) }
	for (i, s) in seen.into_iter().enumerate() {
		m.count("snapshots", s.snapshots);
		m.count("snapshots of a new version", s.distinct.len() as u64);
		m.count("snapshots of the same version again", s.repeats);
		m.evals += s.snapshots;
		let h = hash_bytes(&s.distinct.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>());
		m.eval(Some(hash_bytes(name.as_bytes()) ^ h));
		if m.want_sample() { m.sample(|| format!("{name}: an encoder next to {writers} writers saw versions {:?}", &s.distinct[..s.distinct.len().min(30)])) }
		if let Some((c, d)) = s.bad { m.violation(&format!("{c} {name}"), || format!("encoder {i} of {name} next to {writers} writers: a snapshot {d}")) }
	}
	m.count("histories of snapshots", readers as u64);
}

/// Atomics: no torn values, and each encoder sees versions in order.
fn atomics(m: &mut Mon, r: &mut Rng, updates: u64) {
	macro_rules! atomic { ($($a:ident $t:ident $w:literal $at:ident;)*) => { $( {
		let name = stringify!($a);
		vcore::crumb!("C18: {name}");
		// All bytes of a version are the same, and so show tearing.
		fn version(n: u64) -> $t { let mut v = 0u64; for i in 0..$w { v |= (n & 0xFF) << (i * 8) } v as $t }
		let a = $a::new(version(0));
		let done = AtomicU64::new(0);
		let seeds = [r.u64(), r.u64(), r.u64()];
		let updates = updates.min(250);
		let mut out = Vec::new();
		thread::scope(|sc| {
			let (a, done) = (&a, &done);
			sc.spawn(move || { seed(seeds[0]); for n in 1..=updates { a.store(version(n), Ordering::Release); done.store(n, Ordering::SeqCst); pause() } });
			let hs: Vec<_> = (1..3).map(|i| sc.spawn(move || {
				seed(seeds[i]);
				let mut seen = Seen::default();
				let mut last = 0;
				loop {
					let lo = done.load(Ordering::SeqCst);
					let mut buf = [0u8; $w];
					let ok = { let mut o = Output::new(&mut buf); a.encode(&mut o).is_ok() && o.position() == $w };
					seen.snapshots += 1;
					let v = u64::from(buf[0]);
					if !ok || buf.iter().any(|b| *b != buf[0]) { seen.bad = Some(("mixture".into(), format!("gave {}", hex(&buf)))); break }
					if v < lo || v < last || v > updates { seen.bad = Some(("order".into(), format!("gave version {v} after {last}, when {lo} had been stored"))); break }
					if v == last { seen.repeats += 1 } else { seen.distinct.push(v) }
					last = v;
					pause();
					if lo == updates { break }
				}
				seen
			})).collect();
			for h in hs { out.push(h.join().unwrap()) }
		});
		if a.load(Ordering::SeqCst) != version(updates) { m.violation(name, || format!("encoding changed an {name}")) }
		for s in out {
			m.count("snapshots of atomics", s.snapshots);
			m.evals += s.snapshots;
			m.eval(Some(hash_bytes(name.as_bytes()) ^ hash_bytes(&s.distinct.iter().map(|v| *v as u8).collect::<Vec<_>>())));
			if let Some((c, d)) = s.bad { m.violation(&format!("{c} {name}"), || format!("a snapshot of an {name} {d}")) }
		}
	} )* } }
	atomic! { AtomicU8 u8 1 x; AtomicI8 i8 1 x; AtomicU16 u16 2 x; AtomicI16 i16 2 x; AtomicU32 u32 4 x; AtomicI32 i32 4 x; AtomicU64 u64 8 x; AtomicI64 i64 8 x; }
	// Pointer-sized ones only hold what fits.
	let a = AtomicUsize::new(0);
	let stop = AtomicBool::new(false);
	let bad = thread::scope(|sc| {
		let (a, stop) = (&a, &stop);
		sc.spawn(move || { seed(5); for n in 0..updates as usize * 2 { a.store((n & 0xFF) * 0x101, Ordering::Relaxed); pause() } stop.store(true, Ordering::SeqCst) });
		sc.spawn(move || {
			seed(6);
			let mut last = 0;
			loop {
				let over = stop.load(Ordering::SeqCst);
				let mut buf = [0u8; 2];
				let ok = a.encode(&mut Output::new(&mut buf)).is_ok();
				if !ok || buf[0] != buf[1] { return Some(buf) }
				last = last.max(buf[0]);
				if over { return None }
			}
		}).join().unwrap()
	});
	m.eval(None);
	if let Some(b) = bad { m.violation("AtomicUsize", || format!("a snapshot of an AtomicUsize gave {b:02x?}")) }
	// A flag that is flipped is false or true.
	let f = AtomicBool::new(false);
	let bad = thread::scope(|sc| {
		let f = &f;
		let w = sc.spawn(move || for n in 0..updates { f.store(n % 2 == 0, Ordering::SeqCst) });
		let mut bad = None;
		loop {
			let over = w.is_finished();
			let mut buf = [7u8];
			let _ = f.encode(&mut Output::new(&mut buf));
			if buf[0] > 1 { bad = Some(buf[0]) }
			if over { break bad }
		}
	});
	m.eval(None);
	if let Some(b) = bad { m.violation("AtomicBool", || format!("an AtomicBool encoded as {b}")) }
}

// What is held during an encoding, and after it.

type Probe = Box<dyn Fn() + Send + Sync>;
static PROBES: Mutex<Vec<(u64, Arc<Probe>)>> = Mutex::new(Vec::new());
fn probes() -> MutexGuard<'static, Vec<(u64, Arc<Probe>)>> { open(PROBES.lock()) }

/// Runs a probe while it is encoded, and may fail.
struct Inside { id: u64, then: u8 }
#[derive(Debug)]
struct Refused;
impl Encode for Inside {
	type Error = Refused;
	fn encode(&self, o: &mut Output) -> Result<(), Refused> {
		let p = probes().iter().find(|p| p.0 == self.id).map(|p| p.1.clone());
		if let Some(p) = p { p() }
		match self.then {
			1 | 4 | 5 => return Err(Refused),
			6 => { let Ok(()) = 7u64.encode(o); return Err(Refused) }
			2 | 7 => std::panic::resume_unwind(Box::new(Injected)),
			_ => {}
		}
		let Ok(()) = self.id.encode(o);
		Ok(())
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum State { Free, Poisoned, Held }
fn state<T>(r: Result<T, TryLockError<T>>) -> State { match r { Ok(_) => State::Free, Err(TryLockError::Poisoned(_)) => State::Poisoned, Err(TryLockError::WouldBlock) => State::Held } }

fn holds(m: &mut Mon) {
	static ID: AtomicU64 = AtomicU64::new(1);
	for then in 0..10u8 {
		let what = ["succeeds", "fails", "panics", "finds too small an output", "fails without any room", "fails behind others, without any room left", "fails after filling the output", "panics without any room", "finds no room at all", "succeeds and fills the output"][usize::from(then)];
		let room = match then { 3 => 5, 4 | 7 | 8 => 0, 5 => 4, 6 | 9 => 8, _ => 40 };
		let before = if then == 5 { 4 } else { 0 };
		macro_rules! lock { ($name:literal, $mk:expr, |$l:ident| $look:expr, $during:expr) => {{
			vcore::crumb!("C18: {} whose encoding {what}", $name);
			let id = ID.fetch_add(1, Ordering::SeqCst);
			let l = Arc::new($mk(Inside { id, then }));
			let saw = Arc::new(Mutex::new(Vec::new()));
			{
				let (l, saw) = (Arc::downgrade(&l), saw.clone());
				// Looks at the lock from another thread.
				probes().push((id, Arc::new(Box::new(move || {
					let l = l.upgrade().unwrap();
					let s = thread::spawn(move || { let $l = &*l; $look }).join().unwrap();
					open(saw.lock()).push(s);
				}))));
			}
			let l2 = l.clone();
			let got = watched(move || { let mut buf = [0u8; 64]; catch(|| { let mut o = Output::new(&mut buf[..room]); o.write(&[1; 4][..before]).unwrap(); l2.encode(&mut o).is_ok() }) });
			probes().retain(|p| p.0 != id);
			m.count("holds observed", 1);
			m.eval(Some(hash_bytes(format!("{} {then}", $name).as_bytes())));
			match got {
				None => m.violation(concat!("stuck ", $name), || format!("encoding a {} whose content's encoding {what} was stuck", $name)),
				Some(g) => {
					let right = match (then, &g) { (0 | 9, Ok(true)) | (1 | 4 | 5 | 6, Ok(false)) | (2 | 7, Err(_)) | (3 | 8, Err(_) | Ok(false)) => true, _ => false };
					if !right { m.violation(concat!("outcome ", $name), || format!("encoding a {} whose content's encoding {what} gave {g:?}", $name)) }
				}
			}
			let saw = std::mem::take(&mut *open(saw.lock()));
			if saw != [$during] { m.violation(concat!("during ", $name), || format!("while a {} was encoded, others found it (exclusively, shared) {saw:?} instead of {:?}", $name, $during)) }
			let $l = &*l;
			let after = $look;
			if after.0 == State::Held || after.1 == State::Held { m.violation(concat!("after ", $name), || format!("after encoding a {} whose content's encoding {what}, others find it {after:?}", $name)) }
			if ![2, 3, 7, 8].contains(&then) && after != (State::Free, State::Free) { m.violation(concat!("poisoned ", $name), || format!("after encoding a {} whose content's encoding {what}, others find it {after:?}", $name)) }
			if after.1 == State::Held { continue }
			// It can still be encoded, poisoned or not.
			let mut buf = [0u8; 64];
			let again = catch(|| { let mut o = Output::new(&mut buf[..room]); o.write(&[1; 4][..before]).unwrap(); l.encode(&mut o).is_ok() });
			let right = match (then, &again) { (0 | 9, Ok(true)) | (1 | 4 | 5 | 6, Ok(false)) | (2 | 7, Err(_)) | (3 | 8, Err(_) | Ok(false)) => true, _ => false };
			if !right { m.violation(concat!("again ", $name), || format!("encoding a {} whose content's encoding {what} once more gave {again:?}", $name)) }
		}} }
		use State::*;
		lock!("Mutex", Mutex::new, |l| { let s = state(l.try_lock()); (s, s) }, (Held, Held));
		lock!("RwLock", RwLock::new, |l| (state(l.try_write()), state(l.try_read())), (Held, Free));
		// The same with a cell, on one thread.
		let id = ID.fetch_add(1, Ordering::SeqCst);
		let c = RefCell::new(Inside { id, then });
		struct P(*const RefCell<Inside>, Mutex<Vec<(bool, bool)>>);
		unsafe impl Send for P {}
		unsafe impl Sync for P {}
		let p = Arc::new(P(&c, Mutex::new(Vec::new())));
		let q = p.clone();
		probes().push((id, Arc::new(Box::new(move || { let c = unsafe { &*q.0 }; let s = (c.try_borrow_mut().is_ok(), c.try_borrow().is_ok()); open(q.1.lock()).push(s) }))));
		let mut buf = [0u8; 64];
		let _ = catch(|| { let mut o = Output::new(&mut buf[..room]); o.write(&[1; 4][..before]).unwrap(); c.encode(&mut o).is_ok() });
		probes().retain(|p| p.0 != id);
		let saw = open(p.1.lock()).clone();
		if saw != [(false, true)] { m.violation("during RefCell", || format!("while a RefCell was encoded, it could be borrowed (exclusively, shared) {saw:?}")) }
		if c.try_borrow_mut().is_err() { m.violation("after RefCell", || format!("after encoding a RefCell whose content's encoding {what}, it is still borrowed")) }
		m.count("holds observed", 1);
		m.eval(Some(hash_bytes(&[then])));
	}
}

/// Values that are refused, with all amounts of room; the lock must be free afterwards.
fn refusals(m: &mut Mon) {
	fn one<T: Encode + Clone>(name: &str, bad: T, m: &mut Mon) {
		for room in 0..24 {
			vcore::crumb!("C18: refused {name} with room for {room}");
			let (mx, rw, rc, both) = (Mutex::new(bad.clone()), RwLock::new(bad.clone()), RefCell::new(bad.clone()), RwLock::new(Mutex::new(bad.clone())));
			for _ in 0..2 {
				let mut enc = |e: &dyn Fn(&mut Output) -> bool| { let mut buf = [0u8; 24]; catch(|| e(&mut Output::new(&mut buf[..room]))) };
				let got = [enc(&|o| mx.encode(o).is_ok()), enc(&|o| rw.encode(o).is_ok()), enc(&|o| rc.encode(o).is_ok()), enc(&|o| both.encode(o).is_ok())];
				if got.iter().any(|g| matches!(g, Ok(true))) { m.violation(&format!("refused {name}"), || format!("{name} that cannot be encoded gave {got:?} (in a Mutex, an RwLock, a RefCell, and both locks)")) }
				let after = [state(mx.try_lock()), state(rw.try_write()), state(rw.try_read()), state(both.try_write())];
				let inner = both.try_read().map(|b| state(b.try_lock())).unwrap_or(State::Free);
				if after.contains(&State::Held) || inner == State::Held { m.violation(&format!("held after refusal of {name}"), || format!("after {name} was refused with room for {room}, a Mutex and an RwLock were found {after:?} and {inner:?}")); return }
				if rc.try_borrow_mut().is_err() { m.violation(&format!("borrowed after refusal of {name}"), || format!("after {name} was refused with room for {room}, a RefCell is still borrowed")); return }
				m.count("refusals behind locks", 4);
				m.evals += 4;
			}
		}
	}
	one("a usize of 70000", 70000usize, m);
	one("a pair with a bad usize", (7usize, 70000usize), m);
	one("a list with a bad usize", vec![1, 2, 70000usize], m);
	one("an array with a bad isize", [1, -40000isize], m);
	one("an optional bad usize", Some(70000usize), m);
	one("a list of 70000", vec![(); 70000], m);
	let held = std::rc::Rc::new(RefCell::new(1u8));
	let guard = held.borrow_mut();
	one("a cell held exclusively", (held.clone(), held.clone()), m);
	drop(guard);
}

/// Waits until two are inside at once.
struct Meet(Arc<(Mutex<u32>, std::sync::Condvar)>);
impl Encode for Meet {
	type Error = Refused;
	fn encode(&self, _: &mut Output) -> Result<(), Refused> {
		let (n, c) = &*self.0;
		let mut n = n.lock().unwrap();
		*n += 1;
		c.notify_all();
		let end = Instant::now() + PATIENCE / 2;
		while *n < 2 {
			let left = end.saturating_duration_since(Instant::now());
			if left.is_zero() { return Err(Refused) }
			n = c.wait_timeout(n, left).unwrap().0;
		}
		Ok(())
	}
}

fn together(m: &mut Mon) {
	let l = Arc::new(RwLock::new(Meet(Arc::default())));
	let hs: Vec<_> = (0..2).map(|_| { let l = l.clone(); thread::spawn(move || { let mut b = [0; 8]; l.encode(&mut Output::new(&mut b)).is_ok() }) }).collect();
	let met: Vec<bool> = hs.into_iter().map(|h| h.join().unwrap_or(false)).collect();
	m.eval(Some(1));
	m.count("concurrent encoders", 2);
	if met != [true, true] { m.violation("concurrent encoders", || "two encoders of one RwLock did not get into it at the same time".into()) }
	// Next to someone who reads.
	let l = Arc::new(RwLock::new(0xABu8));
	let g = l.read().unwrap();
	let l2 = l.clone();
	let got = watched(move || { let mut b = [0; 8]; let ok = l2.encode(&mut Output::new(&mut b)).is_ok(); (ok, b[0]) });
	drop(g);
	m.eval(Some(2));
	if got != Some((true, 0xAB)) { m.violation("encoder next to a reader", || format!("encoding a RwLock that is being read gave {got:?}")) }
	// Waiting for someone who writes, not failing.
	for kind in 0..2 {
		let mu = Arc::new(Mutex::new(1u32));
		let rw = Arc::new(RwLock::new(1u32));
		let bar = Arc::new(Barrier::new(2));
		let (mu2, rw2, bar2) = (mu.clone(), rw.clone(), bar.clone());
		let w = thread::spawn(move || {
			if kind == 0 { let mut g = mu2.lock().unwrap(); bar2.wait(); thread::sleep(Duration::from_millis(20)); *g = 2 } else { let mut g = rw2.write().unwrap(); bar2.wait(); thread::sleep(Duration::from_millis(20)); *g = 2 }
		});
		bar.wait();
		let got = watched(move || catch(|| { let mut b = [0; 8]; let ok = { let mut o = Output::new(&mut b); if kind == 0 { mu.encode(&mut o).is_ok() } else { rw.encode(&mut o).is_ok() } }; (ok, b[0]) }));
		w.join().unwrap();
		m.eval(Some(10 + kind));
		m.count("encoders that waited for a writer", 1);
		if got != Some(Ok((true, 2))) { m.violation(&format!("waiting {kind}"), || format!("encoding a {} that is being written gave {got:?}", ["Mutex", "RwLock"][kind as usize])) }
	}
}

fn poisoned(m: &mut Mon, r: &mut Rng) {
	for i in 0..if cfg!(miri) { 2 } else { 30 } {
		let v = [r.u64(), r.u64()];
		let mut want = Vec::new();
		for x in v { want.extend(x.to_le_bytes()) }
		let mu = Arc::new(Mutex::new([0u64; 2]));
		let rw = Arc::new(RwLock::new([0u64; 2]));
		let (mu2, rw2) = (mu.clone(), rw.clone());
		// The panic comes at different places of the update.
		let early = i % 2 == 0;
		let _ = thread::spawn(move || {
			let _ = catch(|| { let mut g = mu2.lock().unwrap(); *g = v; if early { std::panic::resume_unwind(Box::new(Injected)) } let mut h = rw2.write().unwrap(); *h = v; std::panic::resume_unwind(Box::new(Injected)) });
			let _ = catch(|| { let mut h = rw2.write().unwrap_or_else(PoisonError::into_inner); *h = v; std::panic::resume_unwind(Box::new(Injected)) });
		}).join();
		let is = (mu.is_poisoned(), rw.is_poisoned());
		assert_eq!(is, (true, true));
		macro_rules! look { ($what:literal, $v:expr) => {{
			let mut buf = [0u8; 32];
			let got = catch(|| { let mut o = Output::new(&mut buf); let ok = $v.encode(&mut o).is_ok(); (ok, o.as_slice().to_vec()) });
			m.eval(Some(hash_bytes(format!("{} {v:?}", $what).as_bytes())));
			m.count("poisoned locks encoded", 1);
			if got != Ok((true, want.clone())) { m.violation(concat!("poisoned ", $what), || format!("a poisoned {} holding {v:x?} encoded as {got:x?}", $what)) }
		}} }
		look!("Mutex", mu);
		look!("RwLock", rw);
		look!("Mutex again", &*mu);
		look!("RwLock again", &&rw);
		look!("Mutex in a tuple", (&mu,));
		look!("RwLock in an array", [&rw]);
		if (mu.is_poisoned(), rw.is_poisoned()) != (true, true) { m.violation("unpoisoned", || "encoding removed the poison of a lock".into()) }
	}
}

static INITS: AtomicU64 = AtomicU64::new(0);
thread_local! { static MY_INITS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
fn init() -> [Slow; 3] { let n = INITS.fetch_add(1, Ordering::SeqCst); pause(); thread::yield_now(); [Slow(n); 3] }
fn my_init() -> Vec<u16> { MY_INITS.with(|c| c.set(c.get() + 1)); vec![1, 2, 3] }
fn bad_init() -> u8 { MY_INITS.with(|c| c.set(c.get() + 1)); std::panic::resume_unwind(Box::new(Injected)) }

fn lazies(m: &mut Mon, r: &mut Rng, rounds: usize) {
	for _ in 0..rounds {
		let l: LazyLock<[Slow; 3]> = LazyLock::new(init);
		let before = INITS.load(Ordering::SeqCst);
		let n = if cfg!(miri) { 2 } else { 4 };
		let bar = Barrier::new(n);
		let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
		let got: Vec<Vec<u8>> = thread::scope(|s| {
			let (l, bar) = (&l, &bar);
			let hs: Vec<_> = seeds.iter().map(|sd| s.spawn(move || {
				seed(*sd);
				bar.wait();
				let mut out = Vec::new();
				for _ in 0..2 { let mut b = [0u8; 24]; let ok = l.encode(&mut Output::new(&mut b)).is_ok(); out.push(u8::from(ok)); out.extend(b) }
				out
			})).collect();
			hs.into_iter().map(|h| h.join().unwrap()).collect()
		});
		let inits = INITS.load(Ordering::SeqCst) - before;
		let mut one = vec![1];
		for _ in 0..3 { one.extend(before.to_le_bytes()) }
		let want = [one.clone(), one].concat();
		m.eval(Some(before));
		m.count("lazies initialised among threads", 1);
		if inits != 1 || got.iter().any(|g| *g != want) { m.violation("LazyLock", || format!("{n} encoders of a LazyLock initialised it {inits} times and gave {}", got.iter().map(|g| hex(g)).collect::<Vec<_>>().join(", "))) }
	}
	let c: LazyCell<Vec<u16>> = LazyCell::new(my_init);
	MY_INITS.with(|c| c.set(0));
	let mut outs = Vec::new();
	for _ in 0..3 { let mut b = [0u8; 8]; let ok = c.encode(&mut Output::new(&mut b)).is_ok(); outs.push((ok, b)) }
	let inits = MY_INITS.with(|c| c.get());
	m.eval(Some(1));
	if inits != 1 || outs.iter().any(|o| *o != (true, [3, 0, 1, 0, 2, 0, 3, 0])) { m.violation("LazyCell", || format!("encoding a LazyCell thrice initialised it {inits} times and gave {outs:?}")) }
	// One that was forced before is not initialised again.
	let c: LazyCell<Vec<u16>> = LazyCell::new(my_init);
	LazyCell::force(&c);
	let mut b = [0u8; 8];
	let _ = c.encode(&mut Output::new(&mut b));
	let inits = MY_INITS.with(|c| c.get());
	if inits != 2 { m.violation("forced LazyCell", || format!("a forced LazyCell was initialised {} times", inits - 1)) }
	// One that cannot be initialised has no encoding.
	MY_INITS.with(|c| c.set(0));
	let l: LazyLock<u8> = LazyLock::new(bad_init);
	for _ in 0..2 { let mut b = [0u8; 8]; if let Ok(true) = catch(|| l.encode(&mut Output::new(&mut b)).is_ok()) { m.violation("failed LazyLock", || "a LazyLock whose initialiser panicked was encoded".into()) } }
	if MY_INITS.with(|c| c.get()) > 1 { m.violation("failed LazyLock", || "a LazyLock whose initialiser panicked was initialised again".into()) }
	m.eval(Some(2));
}

/// Values that have nothing to do with one another, coded by several threads at once.
fn independent(m: &mut Mon, r: &mut Rng, rounds: usize) {
	type Code = Box<dyn Fn() -> Result<(), String> + Send>;
	/// Encodes and decodes one value; how it should come out was found when nobody else was at it.
	fn task<T: Encode<Error: std::fmt::Debug> + oct::decode::Decode<Error: std::fmt::Debug> + std::fmt::Debug + Send + 'static>(v: T) -> Code {
		fn once<T: Encode<Error: std::fmt::Debug> + oct::decode::Decode<Error: std::fmt::Debug> + std::fmt::Debug>(v: &T) -> (String, Vec<u8>) {
			let mut b = [0; 300];
			let mut o = Output::new(&mut b);
			let e = v.encode(&mut o).map_err(|e| format!("{e:?}"));
			let n = o.position();
			let d = oct::decode::Input::new(&b[..n]);
			let mut d = d;
			let back = e.is_ok().then(|| format!("{:?}", T::decode(&mut d)));
			(format!("{e:?} {back:?} {}", d.position()), b[..n].to_vec())
		}
		let want = once(&v);
		Box::new(move || { let got = once(&v); if got == want { Ok(()) } else { Err(format!("{v:?}: {} {} instead of {} {}", got.0, hex(&got.1), want.0, hex(&want.1))) } })
	}
	type Make = fn(&mut Rng) -> Code;
	macro_rules! all { ($($n:literal: |$r:ident| $e:expr;)*) => { [$(($n, (|$r: &mut Rng| task($e)) as Make)),*] } }
	fn text(r: &mut Rng) -> String { (0..r.below(12)).map(|_| *r.pick(&['a', 'ø', '∂', '\u{1F600}'])).collect() }
	let kinds: &[(&str, Make)] = &all! {
		"Duration": |r| Duration::new(r.u64(), r.below(1_000_000_000) as u32);
		"SystemTime": |r| std::time::UNIX_EPOCH + Duration::from_secs(r.u64() >> 20);
		"earlier SystemTime": |r| std::time::UNIX_EPOCH - Duration::from_secs(r.u64() >> 40);
		"u8": |r| r.u64() as u8; "u16": |r| r.u64() as u16; "u32": |r| r.u64() as u32; "u64": |r| r.u64(); "u128": |r| u128::from(r.u64()) << 64 | u128::from(r.u64());
		"i64": |r| r.u64() as i64; "i128": |r| (r.u64() as i128) << 60; "usize": |r| r.below(70_000); "isize": |r| r.below(70_000) as isize - 35_000;
		"f32": |r| r.u64() as f32; "f64": |r| r.u64() as f64; "bool": |r| r.chance(1, 2); "char": |r| *r.pick(&['a', 'ø', '∂', '\u{1F600}']);
		"NonZero": |r| std::num::NonZero::<u64>::new(r.u64() | 1).unwrap();
		"String": |r| text(r); "SizedStr": |r| oct::SizedStr::<60>::new(&text(r)).unwrap(); "CString": |r| std::ffi::CString::new(text(r)).unwrap();
		"Box": |r| Box::new(text(r)); "Arc": |r| Arc::new(Duration::from_secs(r.u64()));
		"array": |r| { let x = r.u64(); [x, x + 1, !x] }; "tuple": |r| (r.u64() as u8, r.u64(), r.u64() as i16, r.chance(1, 2));
		"Vec": |r| (0..r.below(20)).map(|_| r.u64() as u16).collect::<Vec<_>>(); "SizedSlice": |r| (0..r.below(20)).map(|_| r.u64()).collect::<SizedSlice<_, 20>>();
		"LinkedList": |r| (0..r.below(20)).map(|_| r.u64() as u16).collect::<LinkedList<_>>(); "HashMap": |r| HashMap::from([(r.u64(), r.u64() as u16)]);
		"HashSet": |r| std::collections::HashSet::from([r.u64()]);
		"Option": |r| r.chance(2, 3).then(|| r.u64()); "Result": |r| if r.chance(1, 2) { Ok::<u64, u32>(r.u64()) } else { Err(r.u64() as u32) };
		"Range": |r| r.u64()..r.u64(); "RangeInclusive": |r| r.u64()..=r.u64(); "Bound": |r| std::ops::Bound::Excluded(r.u64()); "Wrapping": |r| std::num::Wrapping(r.u64());
		"Ipv4Addr": |r| std::net::Ipv4Addr::from(r.u64() as u32); "Ipv6Addr": |r| std::net::Ipv6Addr::from(u128::from(r.u64()) << 70);
		"SocketAddr": |r| if r.chance(1, 2) { std::net::SocketAddr::from(([r.u64() as u8, 2, 3, 4], r.u64() as u16)) } else { std::net::SocketAddr::from(([r.u64() as u16; 8], r.u64() as u16)) };
		"RefCell": |r| RefCell::new(r.u64()); "Cell": |r| std::cell::Cell::new(r.u64()); "AtomicU64": |r| AtomicU64::new(r.u64()); "AtomicIsize": |r| AtomicIsize::new(r.below(1000) as isize);
		"Mutex<Duration>": |r| Mutex::new(Duration::from_secs(r.u64())); "RwLock<Duration>": |r| RwLock::new(Duration::from_secs(r.u64()));
		"Mutex<String>": |r| Mutex::new(text(r)); "Arc<Mutex<_>>": |r| Arc::new(Mutex::new((r.u64(), r.u64() as u8))); "RwLock<Vec>": |r| RwLock::new((0..r.below(20)).map(|_| r.u64()).collect::<Vec<_>>());
		"Mutex<SystemTime>": |r| Mutex::new(std::time::UNIX_EPOCH + Duration::from_secs(r.u64() >> 20)); "RwLock<usize>": |r| RwLock::new(r.below(70_000));
		"structure": |r| Own { a: r.u64(), b: text(r), c: vec![r.u64() as usize % 65536] }; "enumeration": |r| match r.below(3) { 0 => Kind::A, 1 => Kind::B(r.u64()), _ => Kind::C { x: text(r) } };
	};
	for (j, (name, make)) in kinds.iter().enumerate() {
		if !vcore::mon::mine(j) { continue }
		let threads = 4;
		let values = if cfg!(miri) { 1 } else { 4 };
		let work: Vec<Vec<Code>> = (0..threads).map(|_| (0..values).map(|_| make(r)).collect()).collect();
		let gate = Arc::new(Barrier::new(threads));
		let all: Vec<_> = work.into_iter().map(|w| {
			let gate = gate.clone();
			thread::spawn(move || {
				gate.wait();
				for _ in 0..rounds { for f in &w { match catch(f) { Ok(Ok(())) => {} Ok(Err(e)) => return Err(e), Err(p) => return Err(format!("unexpected panic {p}")) } } }
				Ok(())
			})
		}).collect();
		for t in all {
			match t.join() {
				Ok(Ok(())) => m.count("codings next to other threads", (rounds * values) as u64),
				Ok(Err(e)) => m.violation(&format!("independent {name}"), || format!("{name}, while other threads code values of their own: {e}")),
				Err(_) => m.violation(&format!("independent {name}"), || format!("a thread that codes {name} died")),
			}
		}
		m.eval(Some(vcore::hash_fmt!("independent {name}")));
	}
}
#[derive(Debug, Encode, oct::decode::Decode)]
struct Own { a: u64, b: String, c: Vec<usize> }
#[derive(Debug, Encode, oct::decode::Decode)]
#[repr(u8)]
enum Kind { A, B(u64), C { x: String } = 9 }

pub fn run(cfg: &Cfg) -> Mon {
	vcore::mon::init();
	let mut m = Mon::new();
	let mut r = Rng::sub(cfg.seed, &format!("C18 {}", std::env::var("VP_SHARD").unwrap_or_default()));
	seed(r.u64());
	let (rounds, updates) = if cfg!(miri) { (1, 5) } else { (cfg.n(6, 60), cfg.n(600, 3000) as u64) };
	let mut k = 0;
	for _ in 0..rounds {
		macro_rules! all { ($($how:ident<$($in:ident)?>: $($t:ty),*;)*) => { $( $( k += 1; if vcore::mon::mine(k) { snapshots::<all!(@ $how $t)>(&mut m, &mut r, updates); } )* )* };
			(@ Mutex $t:ty) => { Mutex<$t> }; (@ RwLock $t:ty) => { RwLock<$t> }; (@ ArcMutex $t:ty) => { Arc<Mutex<$t>> }; (@ RwInMu $t:ty) => { Mutex<RwLock<$t>> }; (@ MuInRw $t:ty) => { Box<RwLock<Mutex<$t>>> }; }
		all! {
			Mutex<>: [Slow; 5], Vec<Slow>, SizedSlice<Slow, 8>, LinkedList<Slow>, HashMap<u64, Slow>, String, Record;
			RwLock<>: [Slow; 5], Vec<Slow>, SizedSlice<Slow, 8>, LinkedList<Slow>, HashMap<u64, Slow>, String, Record;
			ArcMutex<>: [Slow; 5], Record;
			RwInMu<>: Vec<Slow>, Record;
			MuInRw<>: Vec<Slow>, String;
		}
		if vcore::mon::mine(1) { atomics(&mut m, &mut r, if cfg!(miri) { 20 } else { updates }) }
	}
	if vcore::mon::mine(2) { holds(&mut m); refusals(&mut m); }
	if vcore::mon::mine(3) { together(&mut m); }
	if vcore::mon::mine(4) { poisoned(&mut m, &mut r); }
	if vcore::mon::mine(5) { lazies(&mut m, &mut r, if cfg!(miri) { 3 } else { cfg.n(200, 5000) }); }
	independent(&mut m, &mut r, if cfg!(miri) { 2 } else { cfg.n(300, 6000) });
	m
}

#[allow(dead_code)]
fn main() {
	if std::env::var("VP_SHARD").as_deref() == Ok("none") { return }
	run(&Cfg::get()).finish()
}
