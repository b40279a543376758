//! Consuming iteration against the iteration of vectors.

use crate::elem::{ids, keys, ledger, make, Elem};
use crate::slices::Kind;
use crate::track::{self, Tiny, Track, Wide};
use oct::{SizedIter, SizedSlice};
use std::cmp::Ordering;
use std::collections::VecDeque;
use vcore::mon::{catch, Cfg, Mon};
use vcore::rng::{hash_bytes, Rng};

struct Obj<T: Elem, const N: usize> { it: SizedIter<T, N>, k: VecDeque<T::K>, ids: VecDeque<u64> }

struct Machine<'a, T: Elem, const N: usize> { r: &'a mut Rng, m: &'a mut Mon, kind: Kind, objs: Vec<Obj<T, N>>, trace: Vec<String>, dead: bool, start: String }

/// Everything that can be derived from an iterator (except by way of `nth`), in a comparable form.
fn derived<T: Elem, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(op: usize, a: usize, pivot: &T::K, other: &[T::K], mut it: I) -> String {
	let k = |v: T| v.k();
	match op {
		0 => format!("{}", it.count()),
		1 => format!("{:?}", it.last().map(k)),
		2 => format!("{:?}", it.fold(Vec::new(), |mut v, x| { v.push(x.k()); v })),
		3 => format!("{:?}", it.rfold(Vec::new(), |mut v, x| { v.push(x.k()); v })),
		4 => format!("{:?}", it.rev().map(k).collect::<Vec<_>>()),
		5 => { let f = it.find(|x| x.k() == *pivot).map(k); format!("{f:?} {:?}", it.map(k).collect::<Vec<_>>()) }
		6 => { let f = it.rfind(|x| x.k() == *pivot).map(k); format!("{f:?} {:?}", it.map(k).collect::<Vec<_>>()) }
		7 => { let f = it.position(|x| x.k() == *pivot); format!("{f:?} {}", it.len()) }
		8 => { let f = it.rposition(|x| x.k() == *pivot); format!("{f:?} {}", it.len()) }
		9 => format!("{} {}", it.any(|x| x.k() == *pivot), it.len()),
		10 => format!("{} {}", it.all(|x| x.k() != *pivot), it.len()),
		11 => format!("{:?}", it.max().map(k)),
		12 => format!("{:?}", it.min().map(k)),
		13 => { let (x, y): (Vec<T>, Vec<T>) = it.partition(|x| x.k() < *pivot); format!("{:?} {:?}", keys(&x), keys(&y)) }
		14 => format!("{:?}", it.zip(other.iter()).map(|(x, y)| (x.k(), y.clone())).collect::<Vec<_>>()),
		15 => format!("{:?}", it.map(k).chain(other.iter().cloned()).collect::<Vec<_>>()),
		16 => format!("{:?}", it.enumerate().map(|(i, x)| (i, x.k())).collect::<Vec<_>>()),
		17 => { let mut p = it.peekable(); let x = p.peek().map(T::k); let n = p.len(); format!("{x:?} {n} {:?}", p.map(k).collect::<Vec<_>>()) }
		18 => format!("{:?}", it.filter(|x| x.k() != *pivot).map(k).collect::<Vec<_>>()),
		19 => { let mut v = Vec::new(); it.for_each(|x| v.push(x.k())); format!("{v:?}") }
		20 => { let f = it.try_fold(0usize, |n, x| if x.k() == *pivot { Err(n) } else { Ok(n + 1) }); format!("{f:?} {}", it.len()) }
		21 => { let f = it.try_rfold(0usize, |n, x| if x.k() == *pivot { Err(n) } else { Ok(n + 1) }); format!("{f:?} {}", it.len()) }
		22 => format!("{:?} {:?}", it.by_ref().take(a).map(k).collect::<Vec<_>>(), it.map(k).collect::<Vec<_>>()),
		23 => format!("{:?}", it.skip_while(|x| x.k() != *pivot).map(k).collect::<Vec<_>>()),
		24 => { let v: Vec<_> = it.by_ref().take_while(|x| x.k() != *pivot).map(k).collect(); format!("{v:?} {:?}", it.map(k).collect::<Vec<_>>()) }
		25 => format!("{:?}", it.map(k).cmp(other.iter().cloned())),
		26 => format!("{:?}", it.map(k).eq(other.iter().cloned())),
		27 => format!("{:?}", it.map(k).partial_cmp(other.iter().cloned()) == Some(Ordering::Less)),
		28 => format!("{:?}", keys(&it.collect::<VecDeque<_>>().into_iter().collect::<Vec<_>>())),
		29 => format!("{:?} {:?}", it.by_ref().rev().take(a).map(k).collect::<Vec<_>>(), it.map(k).collect::<Vec<_>>()),
		30 => format!("{:?}", it.reduce(|x, y| if y.k() > x.k() { y } else { x }).map(k)),
		31 => format!("{:?}", it.inspect(|_| ()).map(k).collect::<Vec<_>>()),
		32 => format!("{:?}", it.scan(0, |n, x| { *n += 1; (*n <= a).then(|| x.k()) }).collect::<Vec<_>>()),
		33 => format!("{:?}", it.map(|x| x.k()).is_sorted()),
		34 => { let (x, y): (Vec<_>, Vec<_>) = it.map(|x| (x.k(), 1)).unzip(); format!("{x:?} {}", y.len()) }
		35 => { let v: Option<Vec<_>> = it.map(|x| (x.k() != *pivot).then(|| x.k())).collect(); format!("{v:?}") }
		36 => format!("{:?} {:?}", it.nth_back(a).map(k), it.map(k).collect::<Vec<_>>()),
		37 => format!("{:?}", it.max_by_key(|x| std::cmp::Reverse(x.k())).map(k)),
		38 => format!("{:?}", it.flat_map(|x| [x.k(), x.k()]).collect::<Vec<_>>()),
		39 => format!("{:?}", it.rev().skip(a).map(k).collect::<Vec<_>>()),
		40 => format!("{:?}", it.rev().step_by(a + 1).map(k).collect::<Vec<_>>()),
		41 => { let mut f = it.fuse(); let mut v = Vec::new(); for x in f.by_ref() { v.push(x.k()) } format!("{v:?} {:?}", f.next().map(k)) }
		42 => format!("{:?}", it.find_map(|x| (x.k() == *pivot).then(|| x.k()))),
		43 => format!("{:?}", it.map_while(|x| (x.k() != *pivot).then(|| x.k())).collect::<Vec<_>>()),
		44 => format!("{:?}", keys(&it.collect::<Box<[T]>>())),
		45 => { let mut v = make::<T>(other); v.extend(it); format!("{:?}", keys(&v)) }
		_ => unreachable!(),
	}
}
const DERIVED: usize = 46;

/// Only steps, so that whatever else an iterator does is left to the defaults.
struct Plain<I>(I);
impl<I: Iterator> Iterator for Plain<I> {
	type Item = I::Item;
	fn next(&mut self) -> Option<I::Item> { self.0.next() }
	fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Plain<I> { fn next_back(&mut self) -> Option<I::Item> { self.0.next_back() } }
impl<I: ExactSizeIterator> ExactSizeIterator for Plain<I> {}

impl<T: Elem, const N: usize> Machine<'_, T, N> {
	fn fail(&mut self, kind: Kind, class: &str, d: String) {
		self.dead = true;
		if kind != self.kind { return }
		let t = self.trace.join("; ");
		let s = self.start.clone();
		self.m.violation(&format!("{class} SizedIter<{}, {N}>", T::NAME), || format!("SizedIter<{}, {N}> over {s}: {d}; history: {t}", T::NAME));
	}
	fn note(&mut self, s: String) {
		vcore::step!(T::NAME, s, format!("SizedIter<_, {N}> over {}: {}", self.start, self.trace.join("; ")));
		self.trace.push(s);
	}
	fn misuse(&mut self, what: &str) { let e = ledger::<T>(); if !e.is_empty() { self.fail(Kind::Owner, "misuse", format!("{what}: {}", e.join(", "))) } }

	fn check(&mut self, i: usize) {
		let Obj { it, k, ids: want } = &self.objs[i];
		let n = k.len();
		let mut bad = Vec::new();
		if it.len() != n { bad.push(format!("len is {}", it.len())) }
		if it.size_hint() != (n, Some(n)) { bad.push(format!("size_hint is {:?}", it.size_hint())) }
		let s = it.as_slice();
		if s.len() != n { bad.push(format!("as_slice has {} elements", s.len())) }
		else {
			if !s.iter().map(T::k).eq(k.iter().cloned()) { bad.push(format!("as_slice is {s:?}")) }
			if !AsRef::<[T]>::as_ref(it).iter().map(T::k).eq(k.iter().cloned()) { bad.push("as_ref differs".into()) }
		}
		let own = if bad.is_empty() { ids(s) } else { Vec::new() };
		let want: Vec<u64> = want.iter().copied().collect();
		let k = format!("{k:?}");
		if !bad.is_empty() { self.fail(Kind::Content, "view", format!("{} where {k} remain", bad.join(", "))); return }
		self.m.eval((n > 0).then(|| vcore::hash_fmt!("{}{N}{}{}", T::NAME, self.start, self.trace.join(";"))));
		if T::TRACKED && own != want { self.fail(Kind::Owner, "moved", format!("elements {want:?} remain but the iterator holds {own:?}")) }
		self.misuse("reading");
	}

	fn step(&mut self) {
		let i = self.r.below(self.objs.len());
		let n = self.objs[i].k.len();
		let c = self.r.below(16);
		if T::TRACKED { track::take_log(); }
		match c {
			0..=4 | 5..=9 => {
				let front = c < 5;
				self.note(format!("{} of {i}", if front { "next" } else { "next_back" }));
				let o = &mut self.objs[i];
				let got = catch(|| if front { o.it.next() } else { o.it.next_back() });
				let want = if front { o.k.pop_front() } else { o.k.pop_back() };
				let id = if front { o.ids.pop_front() } else { o.ids.pop_back() };
				if want.is_none() { self.m.count("steps after exhaustion", 1) }
				match got {
					Ok(got) => {
						if got.as_ref().map(T::k) != want { let d = format!("gave {got:?} for {want:?}"); std::mem::forget(got); self.fail(Kind::Content, "step", d); return }
						if let (true, Some(g)) = (T::TRACKED, &got) {
							if Some(g.id()) != id { let d = format!("gave element {} for {id:?}", g.id()); self.fail(Kind::Owner, "moved", d) }
							if !track::delta().drops.is_empty() { self.fail(Kind::Owner, "dropped", "a step dropped elements".into()) }
						}
						drop(got);
						self.misuse("dropping what a step gave");
					}
					Err(p) => { self.fail(Kind::Content, "panic", format!("a step panicked: {p}")); return }
				}
			}
			10 if n > 0 => {
				let j = self.r.below(n);
				let k = T::key(self.r);
				self.note(format!("put {k:?} at {i}[{j}]"));
				let o = &mut self.objs[i];
				let s = if self.r.chance(1, 2) { o.it.as_mut_slice() } else { o.it.as_mut() };
				if s.len() == n { s[j].put(&k) }
				o.k[j] = k;
			}
			11 | 12 => {
				self.note(format!("clone of {i}"));
				let it = self.objs[i].it.clone();
				if it.len() != n { self.fail(Kind::Content, "clone", format!("the clone of an iterator with {n} elements left has {}", it.len())); std::mem::forget(it); return }
				let own: VecDeque<u64> = ids(it.as_slice()).into();
				if T::TRACKED {
					let d = track::delta();
					if !d.drops.is_empty() || d.clones.len() != n || own.iter().any(|x| self.objs[i].ids.contains(x)) { self.fail(Kind::Owner, "clone", format!("a clone of {n} elements copied {} and dropped {}", d.clones.len(), d.drops.len())) }
				}
				let k = self.objs[i].k.clone();
				self.objs.push(Obj { it, k, ids: own });
				let j = self.objs.len() - 1;
				self.m.count("clones", 1);
				self.check(j);
				if self.objs.len() > 3 { let j = self.r.below(3); self.discard(j) }
				return;
			}
			13 | 14 => {
				// All that derives from stepping, on the remaining elements.
				if self.dead { return }
				let op = self.r.below(DERIVED);
				let a = self.r.range(0, n + 1);
				let pivot = if n > 0 && self.r.chance(3, 4) { self.objs[i].k[self.r.below(n)].clone() } else { T::key(self.r) };
				let cut = self.r.range(0, n);
				let mut other: Vec<T::K> = self.objs[i].k.iter().take(cut).cloned().collect();
				if self.r.chance(1, 2) { other.push(T::key(self.r)) }
				self.note(format!("derived operation {op} ({a}, {pivot:?}, {other:?}) on a clone of {i}"));
				let model = make::<T>(&self.objs[i].k.iter().cloned().collect::<Vec<_>>());
				let want = derived(op, a, &pivot, &other, model.into_iter());
				let plain = if T::TRACKED && self.kind == Kind::Owner {
					// What the same operation drops if it can only step.
					let it = Plain(self.objs[i].it.clone());
					track::take_log();
					let _ = catch(|| derived(op, a, &pivot, &other, it));
					Some(track::delta().drops.len())
				} else { None };
				let it = self.objs[i].it.clone();
				if T::TRACKED { track::take_log(); }
				let got = catch(|| derived(op, a, &pivot, &other, it));
				if let Some(want) = plain {
					let d = track::delta().drops;
					if d.len() < want || d.values().any(|n| *n != 1) { self.fail(Kind::Owner, &format!("derived {op} drops"), format!("derived operation {op} on {n} elements dropped {} of them, but {want} if it only steps: {d:?}", d.len())); return }
					self.m.count("derived operations whose drops were judged", 1);
				}
				self.m.count("derived operations", 1);
				if got.as_ref() != Ok(&want) { self.fail(Kind::Content, &format!("derived {op}"), format!("derived operation {op} gave {got:?} instead of {want:?}")); return }
				self.misuse(&format!("derived operation {op}"));
			}
			_ if self.objs.len() > 1 => { self.note(format!("drop of {i}")); self.discard(i); return }
			_ => return,
		}
		if !self.dead { self.check(i) }
	}

	fn discard(&mut self, i: usize) {
		let o = self.objs.swap_remove(i);
		if self.dead { std::mem::forget(o); return }
		if T::TRACKED { track::take_log(); }
		drop(o.it);
		if !T::TRACKED { return }
		let d = track::delta();
		let n = d.drops.len();
		if !(d.drops.values().all(|n| *n == 1) && d.drops.keys().all(|i| o.ids.contains(i)) && (n == 0 || n == o.ids.len())) {
			self.fail(Kind::Owner, "drop", format!("dropping an iterator that holds {:?} dropped {:?}", o.ids, d.drops));
		}
		if n == 0 && !o.ids.is_empty() && self.kind == Kind::Owner { self.m.finding("sized-slice-drop", || format!("dropping an iterator that holds {} elements dropped none of them", o.ids.len())) }
		self.misuse("dropping an iterator");
		self.m.count("iterators dropped", 1);
	}
}

pub fn history<T: Elem, const N: usize>(r: &mut Rng, m: &mut Mon, kind: Kind, steps: usize) {
	if T::TRACKED { track::reset() }
	let n = match r.below(4) { 0 => N, 1 => N.min(1), _ => r.range(0, N) };
	let k: Vec<T::K> = (0..n).map(|_| T::key(r)).collect();
	let s: SizedSlice<T, N> = make::<T>(&k).into_iter().collect();
	if s.len() != n { return }
	let own: VecDeque<u64> = ids(s.as_slice()).into();
	let start = format!("{k:?}");
	let mut x = Machine::<T, N> { r, m, kind, objs: vec![Obj { it: s.into_iter(), k: k.into(), ids: own }], trace: Vec::new(), dead: false, start };
	x.check(0);
	for _ in 0..steps { if x.dead { break } x.step() }
	x.m.count("histories", 1);
	if x.m.want_sample() { let (s, t) = (x.start.clone(), x.trace.join("; ")); x.m.sample(|| format!("SizedIter<{}, {N}> over {s}: {t}", T::NAME)) }
	while !x.objs.is_empty() { x.discard(0) }
	if T::TRACKED { track::reset() }
}

/// Every interleaving of steps from both ends, once beyond exhaustion.
pub fn interleavings<const N: usize>(m: &mut Mon) {
	for bits in 0u32..1 << (N + 1) {
		let s = SizedSlice::<u8, N>::from(core::array::from_fn(|i| i as u8));
		let mut it = s.into_iter();
		let mut want: VecDeque<u8> = (0..N as u8).collect();
		for j in 0..=N {
			let front = bits >> j & 1 == 0;
			let (g, w) = if front { (it.next(), want.pop_front()) } else { (it.next_back(), want.pop_back()) };
			if g != w || it.len() != want.len() || !it.as_slice().iter().eq(want.iter()) {
				m.violation(&format!("interleaving {N}"), || format!("SizedIter<u8, {N}>: steps {bits:#b} (0: front): step {j} gave {g:?} instead of {w:?}, leaving {:?} instead of {want:?}", it.as_slice()));
				return;
			}
		}
		m.eval(Some(vcore::hash_fmt!("interleaving {N} {bits}")));
		m.count("interleavings swept", 1);
	}
}

pub type Job = (&'static str, usize, fn(&mut Rng, &mut Mon, Kind, usize));
macro_rules! jobs { ($($t:ty: $($n:literal),*;)*) => { vec![$($((<$t as Elem>::NAME, $n, history::<$t, $n> as fn(&mut Rng, &mut Mon, Kind, usize))),*),*] } }
pub fn jobs() -> Vec<Job> {
	jobs! { u8: 0, 1, 2, 3, 5, 8, 20, 300; u64: 3; (): 0, 4; (u8, u32): 4; String: 0, 1, 4, 9; Track: 0, 1, 2, 3, 5, 9, 24; Tiny: 1, 4, 7; Wide: 3; u128: 2; }
}
pub fn run_jobs(cfg: &Cfg, prop: &str, jobs: &[Job], kind: Kind, n: usize, steps: usize) -> Mon {
	vcore::mon::parallel(jobs, |&(name, cap, f), m| {
		if cfg.only.as_ref().is_some_and(|o| *o != format!("{name}/{cap}")) { return }
		for i in 0..n {
			let mut r = Rng::sub(cfg.seed, &format!("{prop} iter {name} {cap} {i}"));
			if let Err(p) = catch(|| f(&mut r, m, kind, steps)) {
				if kind == Kind::Content { m.violation(&format!("panic SizedIter<{name}, {cap}>"), || format!("SizedIter<{name}, {cap}>: unexpected panic in history {i} (seed {}): {p}", cfg.seed)) }
			}
		}
	})
}

/// What `nth` does: it is known to be wrong, so it is tried in processes of its own, and judged on its own.
///
/// A case is a capacity, a length, steps taken from both ends, and the argument; the outcome is what it gave, the
/// values that it dropped, and what could be taken afterwards.
pub mod nth {
	use super::*;
	use std::process::{Command, Stdio};

	pub type Case = (usize, usize, usize, usize);

	fn cases(cap: usize) -> Vec<Case> {
		let mut v = Vec::new();
		for len in [0, 1, cap / 2, cap] {
			for front in 0..=len.min(2) {
				for back in 0..=(len - front).min(1) {
					for k in 0..=len - front - back + 1 { let c = (len, front, back, k); if !v.contains(&c) { v.push(c) } }
				}
			}
		}
		v
	}

	fn outcome<const N: usize>((len, front, back, k): Case) -> String {
		track::reset();
		let s: SizedSlice<Track, N> = (0..len as u32).map(|v| Track::new(100 + v)).collect();
		let mut it = s.into_iter();
		for _ in 0..front { drop(it.next()) }
		for _ in 0..back { drop(it.next_back()) }
		track::take_log();
		let base = if len > 0 { it.as_slice().first().map_or(0, |t| t.id() - u64::from(t.val() - 100)) } else { 0 };
		match catch(|| it.nth(k)) {
			Ok(got) => {
				let dropped: Vec<u64> = track::delta().drops.keys().map(|i| i.wrapping_sub(base)).collect();
				let g = got.as_ref().map(|t| t.id().wrapping_sub(base));
				std::mem::forget(got);
				let rest: Vec<u64> = it.map(|t| { let i = t.id().wrapping_sub(base); std::mem::forget(t); i }).collect();
				let junk = track::errors().iter().any(|e| e.contains("never"));
				if junk { "gave something that never was an element".into() } else { format!("gave {g:?}, dropped {dropped:?}, left {rest:?}") }
			}
			Err(_) => "panicked".into(),
		}
	}

	/// What an iterator should do.
	pub fn right((len, front, back, k): Case) -> String {
		let (a, b) = (front, len - back);
		if k >= b - a { format!("gave None, dropped {:?}, left []", (a..b).collect::<Vec<_>>()) }
		else { format!("gave Some({}), dropped {:?}, left {:?}", a + k, (a..a + k).collect::<Vec<_>>(), (a + k + 1..b).collect::<Vec<_>>()) }
	}

	/// What the pinned implementation does.
	pub fn known(cap: usize, (len, front, back, k): Case) -> String {
		let (a, b) = (front, len - back);
		let n = b - a;
		if k > n { return format!("gave None, dropped [], left {:?}", (a..b).collect::<Vec<_>>()) }
		if k == 0 { return if a == 0 { "panicked".into() } else { "aborted".into() } }
		if k >= cap { return "aborted".into() }
		if k >= len { return "gave something that never was an element".into() }
		format!("gave Some({k}), dropped {:?}, left {:?}", (a..a + k - 1).collect::<Vec<_>>(), (a + k..b).collect::<Vec<_>>())
	}

	/// Reading what was never written gives anything.
	fn is_known(cap: usize, c: Case, g: &str) -> bool {
		let w = known(cap, c);
		let died = |s: &str| s == "panicked" || s == "aborted";
		if w.contains("never") { g.starts_with("gave") } else { g == w || died(&w) && died(g) }
	}

	const CAPS: [usize; 3] = [1, 3, 6];

	/// The child's part: prints the outcomes of the cases from the given one on.
	pub fn child(arg: &str) -> ! {
		vcore::mon::init();
		let mut p = arg.split(',').map(|v| v.parse::<usize>().unwrap());
		let (cap, from) = (p.next().unwrap(), p.next().unwrap());
		for c in cases(cap).into_iter().skip(from) {
			let o = match cap { 1 => outcome::<1>(c), 3 => outcome::<3>(c), _ => outcome::<6>(c) };
			println!("{o}");
		}
		std::process::exit(0)
	}

	/// Judges `nth`; needs assertions to be on, since the outcome is otherwise unpredictable.
	pub fn probe(m: &mut Mon, id: &str, owner: bool) {
		if cfg!(miri) || !cfg!(debug_assertions) { return }
		for cap in CAPS {
			let cs = cases(cap);
			let mut got: Vec<String> = Vec::new();
			while got.len() < cs.len() {
				let out = Command::new(std::env::current_exe().unwrap()).env("VP_NTH", format!("{cap},{}", got.len())).env_remove("VP_REPORT").env_remove("VP_CRUMB").stderr(Stdio::null()).output().unwrap();
				got.extend(String::from_utf8_lossy(&out.stdout).lines().map(String::from));
				if !out.status.success() { got.push("aborted".into()) }
			}
			for (c, g) in cs.iter().zip(&got) {
				m.eval(Some(vcore::hash_fmt!("nth {cap} {c:?}")));
				m.count("nth probed", 1);
				if *g == right(*c) { continue }
				let (len, front, back, k) = *c;
				let what = format!("SizedIter<Track, {cap}> over {len} elements, after {front} from the front and {back} from the back: nth({k}) {g}; right would be: {}", right(*c));
				if is_known(cap, *c, g) { m.finding(id, || what) }
				else if !owner || g.contains("never") || g == "aborted" { m.violation(&format!("nth {cap}"), || what) }
			}
		}
	}
}
