//! Random histories over sized slices, judged by bounded vectors (content) and by the ledger (ownership).

use crate::elem::{ids, keys, ledger, make, Elem};
use crate::track::{self, Tiny, Track, Wide};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::error::LengthError;
use oct::SizedSlice;
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;
use std::panic::resume_unwind;
use vcore::mon::{catch, Injected, Mon};
use vcore::rng::{hash_bytes, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Content, Owner }

pub struct Obj<T: Elem, const N: usize> { pub s: SizedSlice<T, N>, pub k: Vec<T::K> }

pub struct Machine<'a, T: Elem, const N: usize> {
	pub r:     &'a mut Rng,
	pub m:     &'a mut Mon,
	pub kind:  Kind,
	pub objs:  Vec<Obj<T, N>>,
	pub trace: Vec<String>,
	pub dead:  bool,
	/// The length of what is built next, and the operation that is done next, where these are not left to chance.
	force_len: Option<usize>,
	force_op:  Option<usize>,
}

/// An iterator that is watched, not fused, and lies about its size.
pub struct Source<'a, T> { items: std::vec::IntoIter<T>, calls: &'a Cell<usize>, ended: bool, again: Option<T>, hint: (usize, Option<usize>), fuse: Option<usize> }
impl<T> Iterator for Source<'_, T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		self.calls.set(self.calls.get() + 1);
		if self.fuse == Some(self.calls.get() - 1) { resume_unwind(Box::new(Injected)) }
		if self.ended { return self.again.take() }
		let v = self.items.next();
		if v.is_none() { self.ended = true }
		v
	}
	fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

pub fn std_hash<T: Hash + ?Sized>(v: &T) -> u64 { let mut h = DefaultHasher::new(); v.hash(&mut h); h.finish() }

impl<'a, T: Elem, const N: usize> Machine<'a, T, N> {
	pub fn new(r: &'a mut Rng, m: &'a mut Mon, kind: Kind) -> Self {
		if T::TRACKED { track::reset() }
		Self { r, m, kind, objs: Vec::new(), trace: Vec::new(), dead: false, force_len: None, force_op: None }
	}

	fn op(&mut self, n: usize) -> usize { match self.force_op.take() { Some(c) => c, None => self.r.below(n) } }

	pub fn fail(&mut self, kind: Kind, class: &str, detail: String) {
		self.dead = true;
		if kind != self.kind { return }
		let n = self.trace.len();
		let t = self.trace[n.saturating_sub(14)..].join("; ");
		self.m.violation(&format!("{class} SizedSlice<{}, {N}>", T::NAME), || format!("SizedSlice<{}, {N}>: {detail}; history (last {} of {n} steps): {t}", T::NAME, n.min(14)));
	}

	pub fn note(&mut self, s: String) {
		self.m.count(&format!("op {}", s.split([' ', '(']).next().unwrap()), 1);
		vcore::step!(T::NAME, s, format!("SizedSlice<_, {N}>, {} steps: {}", self.trace.len(), self.trace[self.trace.len().saturating_sub(30)..].join("; ")));
		self.trace.push(s);
	}

	/// Starts a step whose effects on tracked elements will be judged by `settle`.
	fn begin(&mut self) { if T::TRACKED { track::take_log(); } }

	/// `result` holds the elements that the step left somewhere; those in `dropped` (and only those) should be gone.
	fn settle(&mut self, op: &str, result: &[u64], dropped: &[u64]) {
		if !T::TRACKED { return }
		let d = track::delta();
		let created: BTreeSet<u64> = d.new.iter().copied().chain(d.clones.iter().map(|c| c.1)).collect();
		let want: BTreeSet<u64> = dropped.iter().copied().collect();
		let errs = track::errors();
		if !errs.is_empty() { self.fail(Kind::Owner, "misuse", format!("{op}: {}", errs.join(", "))) }
		for (id, n) in &d.drops {
			if *n > 1 { self.fail(Kind::Owner, "dropped twice", format!("{op} dropped element {id} {n} times")) }
			if !want.contains(id) && !created.contains(id) { self.fail(Kind::Owner, "dropped", format!("{op} dropped element {id}, which should have stayed alive")) }
		}
		for id in &want { if !d.drops.contains_key(id) { self.fail(Kind::Owner, "kept", format!("{op} did not drop element {id}")) } }
		let kept: BTreeSet<u64> = result.iter().copied().collect();
		if kept.len() != result.len() { self.fail(Kind::Owner, "duplicated", format!("{op} left an element in two places: {result:?}")) }
		for id in &created { if !kept.contains(id) && !d.drops.contains_key(id) { self.fail(Kind::Owner, "lost", format!("{op} lost element {id}, which it had created")) } }
		for id in &kept { if !track::is_live(*id) { self.fail(Kind::Owner, "dead", format!("{op} left element {id}, which is dropped")) } }
		self.m.count("steps whose drops were judged", 1);
	}

	/// Drops a container that may leak its elements, but nothing else.
	fn discard<C>(&mut self, what: &str, c: C, own: &[u64]) {
		self.begin();
		drop(c);
		if !T::TRACKED { return }
		let d = track::delta();
		let errs = track::errors();
		if !errs.is_empty() { self.fail(Kind::Owner, "misuse", format!("dropping {what}: {}", errs.join(", "))) }
		let n = d.drops.len();
		let ok = d.drops.values().all(|n| *n == 1) && d.drops.keys().all(|i| own.contains(i)) && (n == 0 || n == own.len());
		if !ok { self.fail(Kind::Owner, "drop", format!("dropping {what} with elements {own:?} dropped {:?}", d.drops)) }
		if n == 0 && !own.is_empty() { self.m.count("containers that leaked their elements when dropped", 1); if self.kind == Kind::Owner { self.m.finding("sized-slice-drop", || format!("dropping {what} of capacity {N} with {} elements dropped none of them", own.len())) } }
		if n > 0 { self.m.count("containers that dropped their elements when dropped", 1) }
	}

	fn gen(&mut self, n: usize) -> Vec<T::K> { (0..n).map(|_| T::key(self.r)).collect() }

	fn len(&mut self) -> usize {
		if let Some(n) = self.force_len { return n }
		match self.r.below(8) { 0 => 0, 1 => N, 2 => N.saturating_sub(1), 3 => N.min(1), _ => self.r.range(0, N) }
	}
	fn long(&mut self) -> usize { if self.force_len.is_none() && self.r.chance(1, 5) { N + 1 + self.r.below(3) } else { self.len() } }

	fn push(&mut self, s: SizedSlice<T, N>, k: Vec<T::K>) {
		self.objs.push(Obj { s, k });
		let i = self.objs.len() - 1;
		self.check(i);
		if self.objs.len() > 4 {
			let i = self.r.below(self.objs.len());
			let o = self.objs.swap_remove(i);
			let own = ids(o.s.as_slice());
			self.note("discard".into());
			self.discard("a sized slice", o.s, &own);
		}
	}

	/// Every view against the model.
	pub fn check(&mut self, i: usize) {
		if self.dead { return }
		let Obj { s, k } = &self.objs[i];
		let mut bad: Vec<String> = Vec::new();
		let n = k.len();
		let own = make::<T>(k);
		// Formatting takes the interpreter long.
		let (text, misindex) = (!cfg!(miri) || self.r.chance(1, 8), !cfg!(miri) || self.r.chance(1, 4));
		{
			let mut want = |ok: bool, what: &str| if !ok { bad.push(what.into()) };
			want(s.len() == n, "len");
			want(s.capacity() == N, "capacity");
			want(s.is_empty() == (n == 0), "is_empty");
			want(s.is_full() == (n == N), "is_full");
			want(s.as_ptr() == s.as_slice().as_ptr(), "as_ptr");
			want(s.as_slice().len() == n, "length of as_slice");
		}
		if bad.is_empty() {
			let mut want = |ok: bool, what: &str| if !ok { bad.push(what.into()) };
			want(keys(s.as_slice()) == *k, "as_slice");
			want(keys(AsRef::<[T]>::as_ref(s)) == *k, "as_ref");
			want(keys(Borrow::<[T]>::borrow(s)) == *k, "borrow");
			want(keys::<T>(s) == *k, "deref");
			want((&s[..]).len() == n && keys(&s[..]) == *k, "index by ..");
			want(s.iter().map(T::k).eq(k.iter().cloned()), "iter");
			want(s.into_iter().map(T::k).eq(k.iter().cloned()), "into_iter of a reference");
			want(s.first().map(T::k).as_ref() == k.first() && s.last().map(T::k).as_ref() == k.last(), "first and last");
			want(!text || format!("{s:?}") == format!("{own:?}"), "Debug");
			want(!text || format!("{s:#?}") == format!("{own:#?}"), "alternate Debug");
			want(std_hash(s) == std_hash(&own[..]), "hash");
			want(*s == &own[..] && *s == own && !(*s != own), "equality with its content");
		}
		self.m.count("views compared", 14);
		if bad.is_empty() && misindex {
			let s = &self.objs[i].s;
			let k = &self.objs[i].k;
			let a = self.r.range(0, n + 1);
			let b = self.r.range(0, n + 2);
			let mut want = |ok: bool, what: &str| if !ok { bad.push(what.to_string()) };
			let got = catch(|| s[a].k());
			want(if a < n { got.as_ref().ok() == Some(&k[a]) } else { got.is_err() }, &format!("index by {a}: {got:?}"));
			let got = catch(|| keys(&s[a..b]));
			want(if a <= b && b <= n { got.as_deref().ok() == Some(&k[a..b]) } else { got.is_err() }, &format!("index by {a}..{b}: {got:?}"));
			let got = catch(|| keys(&s[a..]));
			want(if a <= n { got.as_deref().ok() == Some(&k[a..]) } else { got.is_err() }, &format!("index by {a}..: {got:?}"));
			let got = catch(|| keys(&s[..=b]));
			want(if b < n { got.as_deref().ok() == Some(&k[..=b]) } else { got.is_err() }, &format!("index by ..={b}: {got:?}"));
			want(s.get(a).map(T::k).as_ref() == k.get(a), "get");
		}
		drop(own);
		let o = &self.objs[i];
		let key = vcore::hash_fmt!("{}{N}{:?}", T::NAME, o.k);
		self.m.eval((!o.k.is_empty()).then_some(key));
		if !bad.is_empty() {
			let d = format!("{} of a sized slice that should hold {:?} (is {} long)", bad.join(", "), self.objs[i].k, self.objs[i].s.len());
			self.fail(Kind::Content, &format!("view {}", bad[0].split(':').next().unwrap()), d);
		}
		let e = ledger::<T>();
		if !e.is_empty() { self.fail(Kind::Owner, "misuse", format!("reading: {}", e.join(", "))) }
		self.begin();
	}

	fn construct(&mut self) {
		match self.op(8) {
			c @ 0..=1 => {
				let n = self.long();
				let k = self.gen(n);
				let src = make::<T>(&k);
				let from = ids(&src);
				self.note(format!("{} of {k:?}", if c == 0 { "new" } else { "try_from" }));
				self.begin();
				let got = catch(|| if c == 0 { SizedSlice::<T, N>::new(&src) } else { SizedSlice::<T, N>::try_from(&src[..]) });
				let res = match &got { Ok(Ok(s)) => ids(s.as_slice()), _ => Vec::new() };
				self.settle("construction from a slice", &res, &[]);
				for (a, b) in from.iter().zip(&res) { if a == b { self.fail(Kind::Owner, "duplicated", "construction from a slice took elements it does not own".into()) } }
				drop(src);
				if T::TRACKED { track::take_log(); }
				match got {
					Ok(Ok(s)) if n <= N => self.push(s, k),
					Ok(Err(LengthError { capacity, len })) if n > N => {
						self.m.count("long sources refused", 1);
						if (capacity, len) != (N, n) { self.fail(Kind::Content, "error", format!("a slice of {n} elements was refused with capacity {capacity} and length {len}")) }
					}
					x => self.fail(Kind::Content, "construct", format!("from a slice of {n} elements gave {:?}", x.map(|r| r.map(|s| s.len())))),
				}
			}
			2 => {
				let k = self.gen(N);
				let Ok(arr) = <[T; N]>::try_from(make::<T>(&k)) else { unreachable!() };
				let from = ids(&arr);
				self.note(format!("from of an array {k:?}"));
				self.begin();
				let s = SizedSlice::<T, N>::from(arr);
				if s.len() == N {
					let res = ids(s.as_slice());
					self.settle("conversion from an array", &res, &[]);
					if res != from { self.fail(Kind::Owner, "moved", format!("elements {from:?} of an array became {res:?}")) }
				}
				self.push(s, k);
			}
			3..=4 => {
				let n = self.long() + if self.force_len.is_none() && self.r.chance(1, 4) { 3 } else { 0 };
				let k = self.gen(n);
				let hint = *self.r.pick(&[(0, None), (n, Some(n)), (usize::MAX, None), (usize::MAX, Some(usize::MAX)), (0, Some(0)), (1, Some(2))]);
				let calls = Cell::new(0);
				let fuse = (self.force_len.is_none() && self.r.chance(1, 10)).then(|| self.r.range(0, n));
				let again = Some(T::mk(&T::key(self.r)));
				let mut src = Source { items: make::<T>(&k).into_iter(), calls: &calls, ended: false, again, hint, fuse };
				let from = ids(src.items.as_slice());
				self.note(format!("collect of {n} elements {k:?} with hint {hint:?}{}", fuse.map_or(String::new(), |f| format!(" that panics at {f}"))));
				self.begin();
				let got = catch(|| src.by_ref().collect::<SizedSlice<T, N>>());
				let took = n.min(N);
				match got {
					Ok(s) => {
						let res = if s.len() <= N { ids(s.as_slice()) } else { Vec::new() };
						self.settle("collection", &res, &[]);
						if T::TRACKED && res[..] != from[..took] { self.fail(Kind::Owner, "moved", format!("collecting elements {from:?} gave {res:?}")) }
						if n >= N && calls.get() != N { self.fail(Kind::Content, "collect", format!("collecting into a capacity of {N} asked the iterator {} times", calls.get())) }
						if keys(src.items.as_slice()) != k[took..] { self.fail(Kind::Content, "collect", format!("collecting into a capacity of {N} left {} of {n} elements in the iterator", src.items.len())) }
						if n > N { self.m.count("iterators longer than the capacity", 1) }
						drop(src);
						if T::TRACKED { track::take_log(); }
						self.push(s, k[..took].to_vec());
					}
					Err(p) => {
						let f = fuse.unwrap_or(usize::MAX);
						if p != "<injected>" || f >= N { self.fail(Kind::Content, "collect", format!("collecting panicked: {p}")) }
						self.m.count("iterators that panicked", 1);
						// What had been taken may leak, but no more than that.
						let d = track::delta();
						for (id, c) in &d.drops { if *c > 1 || !from[..f.min(from.len())].contains(id) { self.fail(Kind::Owner, "dropped", format!("a panicking collection dropped element {id} {c} times")) } }
						drop(src);
						let e = ledger::<T>();
						if !e.is_empty() { self.fail(Kind::Owner, "misuse", format!("after a panicking collection: {}", e.join(", "))) }
					}
				}
			}
			5 => {
				let n = self.len();
				let k = self.gen(n);
				let mut buf = [const { MaybeUninit::<T>::uninit() }; N];
				for (b, v) in buf.iter_mut().zip(make::<T>(&k)) { b.write(v); }
				self.note(format!("from_raw_parts of {k:?}"));
				self.begin();
				// SAFETY: The first `n` elements are initialised.
				let s = unsafe { SizedSlice::from_raw_parts(buf, n) };
				let res = ids(s.as_slice());
				self.settle("from_raw_parts", &res, &[]);
				self.push(s, k);
			}
			6 => {
				self.note("default".into());
				let s = SizedSlice::<T, N>::default();
				self.push(s, Vec::new());
			}
			_ => {
				// Cloned, possibly with a copy that panics.
				if self.objs.is_empty() { return }
				let i = self.r.below(self.objs.len());
				let n = self.objs[i].k.len();
				let fuse = (T::TRACKED && self.r.chance(1, 6)).then(|| self.r.below(n + 1));
				self.note(format!("clone of {i}{}", fuse.map_or(String::new(), |f| format!(" panicking at copy {f}"))));
				self.begin();
				track::set_fuse(fuse);
				let s = &self.objs[i].s;
				let got = catch(|| s.clone());
				track::set_fuse(None);
				let from = ids(self.objs[i].s.as_slice());
				match got {
					Ok(s) => {
						let res = if s.len() == n { ids(s.as_slice()) } else { Vec::new() };
						self.settle("clone", &res, &[]);
						if res.iter().any(|i| from.contains(i)) { self.fail(Kind::Owner, "duplicated", format!("a clone shares elements with its original: {from:?} and {res:?}")) }
						self.check(i);
						let k = self.objs[i].k.clone();
						self.push(s, k);
					}
					Err(p) => {
						if p != "<injected>" { self.fail(Kind::Content, "clone", format!("cloning panicked: {p}")) }
						self.m.count("copies that panicked", 1);
						let d = track::delta();
						for id in d.drops.keys() { if from.contains(id) { self.fail(Kind::Owner, "dropped", format!("a failed clone dropped element {id} of the original")) } }
						let e = ledger::<T>();
						if !e.is_empty() { self.fail(Kind::Owner, "misuse", format!("failed clone: {}", e.join(", "))) }
						self.check(i);
					}
				}
			}
		}
	}

	fn mutate(&mut self, i: usize) {
		let n = self.objs[i].k.len();
		match self.op(12) {
			0 => {
				let len = self.long();
				let k = self.gen(len);
				let src = make::<T>(&k);
				let s = &mut self.objs[i].s;
				let got = catch(|| T::copy_into(s, &src));
				match got {
					Ok(false) => return,
					Ok(true) if len <= N => { self.note(format!("copy_from_slice {k:?} into {i}")); self.objs[i].k = k }
					Err(_) if len > N => { self.note(format!("copy_from_slice refused {len} into {i}")); self.m.count("long copies refused", 1) }
					x => { let d = format!("copy_from_slice of {len} elements gave {x:?}"); self.fail(Kind::Content, "copy_from_slice", d) }
				}
			}
			1 if n > 0 => {
				let j = self.r.below(n);
				let k = T::key(self.r);
				self.note(format!("put {k:?} at {i}[{j}]"));
				self.begin();
				let o = &mut self.objs[i];
				match self.r.below(5) {
					0 => o.s.as_mut_slice()[j].put(&k),
					1 => o.s[j].put(&k),
					2 => AsMut::<[T]>::as_mut(&mut o.s)[j].put(&k),
					3 => BorrowMut::<[T]>::borrow_mut(&mut o.s)[j].put(&k),
					_ => (&mut o.s).into_iter().nth(j).unwrap().put(&k),
				}
				o.k[j] = k;
				let own = ids(o.s.as_slice());
				self.settle("change in place", &own, &[]);
			}
			2 if n > 0 => {
				let j = self.r.below(n);
				let k = T::key(self.r);
				self.note(format!("replace {i}[{j}] by {k:?}"));
				let old = ids(&self.objs[i].s[j..=j]);
				let v = T::mk(&k);
				self.begin();
				self.objs[i].s[j] = v;
				self.objs[i].k[j] = k;
				let own = ids(self.objs[i].s.as_slice());
				self.settle("replacement", &own, &old);
			}
			3 => {
				// Out of range.
				let j = n + self.r.below(3);
				self.note(format!("misindex {i}[{j}]"));
				let s = &mut self.objs[i].s;
				let one = catch(|| { let _ = &mut s[j]; });
				let more = catch(|| { let _ = &mut s[j..j + 1]; });
				if one.is_ok() || more.is_ok() { self.fail(Kind::Content, "index_mut", format!("mutable index {j} of {n} elements did not panic")) }
			}
			4 => {
				self.note(format!("reorder {i}"));
				self.begin();
				let c = self.r.below(4);
				let mid = self.r.range(0, n);
				let o = &mut self.objs[i];
				match c {
					0 => { o.s.sort(); o.k.sort() }
					1 => { o.s.reverse(); o.k.reverse() }
					2 => { o.s.rotate_left(mid); o.k.rotate_left(mid) }
					_ => if n > 1 { o.s.swap(0, n - 1); o.k.swap(0, n - 1) },
				}
				let own = ids(o.s.as_slice());
				self.settle("reordering", &own, &[]);
			}
			5 => {
				self.note(format!("each_ref {i}"));
				self.begin();
				let e = self.objs[i].s.each_ref();
				let mut ok = e.len() == n && e.capacity() == N;
				if ok { ok = e.as_slice().iter().zip(self.objs[i].s.as_slice()).all(|(a, b)| std::ptr::eq(*a, b)) && e.iter().map(|x| x.k()).eq(self.objs[i].k.iter().cloned()) }
				drop(e);
				let own = ids(self.objs[i].s.as_slice());
				self.settle("each_ref", &own, &[]);
				if !ok { self.fail(Kind::Content, "each_ref", "each_ref does not refer to each element in turn".into()) }
			}
			6 => {
				let k = self.gen(n);
				self.note(format!("each_mut {i}"));
				self.begin();
				let o = &mut self.objs[i];
				let base = o.s.as_ptr();
				let mut e = o.s.each_mut();
				let mut ok = e.len() == n && e.capacity() == N;
				if ok {
					for (j, x) in e.as_mut_slice().iter_mut().enumerate() { ok &= std::ptr::eq(&raw const **x, base.wrapping_add(j)); }
					// All at once, so that overlapping borrows would show.
					for (x, k) in e.into_iter().zip(&k) { x.put(k) }
				}
				o.k = k;
				let own = ids(o.s.as_slice());
				self.settle("each_mut", &own, &[]);
				if !ok { self.fail(Kind::Content, "each_mut", "each_mut does not refer to each element in turn".into()) }
			}
			7 => {
				let to = self.r.range(0, n);
				self.note(format!("set_len {i} to {to} and back"));
				self.begin();
				// SAFETY: Shorter, then as before: always initialised.
				unsafe { self.objs[i].s.set_len(to) };
				let ok = self.objs[i].s.len() == to && keys(self.objs[i].s.as_slice()) == self.objs[i].k[..to];
				unsafe { self.objs[i].s.set_len(n) };
				let own = ids(self.objs[i].s.as_slice());
				self.settle("set_len", &own, &[]);
				if !ok { self.fail(Kind::Content, "set_len", format!("set_len to {to} did not leave the first {to} elements")) }
			}
			8 if n > 0 && !T::TRACKED => {
				// Truncated for good.
				let to = self.r.range(0, n);
				self.note(format!("set_len {i} to {to}"));
				unsafe { self.objs[i].s.set_len(to) };
				self.objs[i].k.truncate(to);
			}
			9 => {
				let p = self.objs[i].s.as_mut_ptr();
				if p.cast_const() != self.objs[i].s.as_ptr() { self.fail(Kind::Content, "as_mut_ptr", "as_mut_ptr and as_ptr differ".into()) }
			}
			_ => self.compare(i),
		}
		if !self.dead { self.check(i) }
	}

	fn compare(&mut self, i: usize) {
		let ka = self.objs[i].k.clone();
		let mut kb = if self.r.chance(1, 2) { ka.clone() } else { let j = self.r.below(self.objs.len()); self.objs[j].k.clone() };
		match self.r.below(4) {
			0 => kb.truncate(self.r.range(0, kb.len())),
			1 if !kb.is_empty() => { let j = self.r.below(kb.len()); kb[j] = T::key(self.r) }
			2 => kb.push(T::key(self.r)),
			_ => {}
		}
		self.note(format!("compare {i} with {kb:?}"));
		let b = make::<T>(&kb);
		let s = &self.objs[i].s;
		let a = make::<T>(&ka);
		let (a, bs) = (&a[..], &b[..]);
		let mut bad = Vec::new();
		let mut want = |ok: bool, what: &'static str| if !ok { bad.push(what) };
		want((*s == bs) == (a == bs), "eq with a slice");
		want((*s == b) == (*a == *b), "eq with a vector");
		want(s.partial_cmp(&bs) == a.partial_cmp(bs), "partial_cmp with a slice");
		want(s.partial_cmp(&b) == a.partial_cmp(bs), "partial_cmp with a vector");
		if bs.len() >= 2 {
			let Ok(arr) = <[T; 2]>::try_from(make::<T>(&kb[..2])) else { unreachable!() };
			want((*s == arr) == (*a == arr[..]), "eq with an array");
			want(s.partial_cmp(&arr) == a.partial_cmp(&arr[..]), "partial_cmp with an array");
		}
		if bs.len() <= 5 {
			let o = SizedSlice::<T, 5>::new(bs).unwrap();
			want((*s == o) == (a == bs), "eq with another capacity");
			want((o == *s) == (a == bs), "eq from another capacity");
			want(s.partial_cmp(&o) == a.partial_cmp(bs), "partial_cmp with another capacity");
		}
		if bs.len() <= N {
			let o = SizedSlice::<T, N>::new(bs).unwrap();
			want(s.cmp(&o) == a.cmp(bs), "cmp");
			want((*s == o) == (a == bs), "eq");
			want((std_hash(s) == std_hash(&o)) == (std_hash(a) == std_hash(bs)), "hash");
		}
		self.m.count("comparisons", 1);
		if !bad.is_empty() { self.fail(Kind::Content, bad[0], format!("{} of {ka:?} and {kb:?} differ from those of slices", bad.join(", "))) }
		drop(b);
		self.begin();
	}

	fn consume(&mut self, i: usize) {
		let c = self.op(9);
		let Obj { s, k } = self.objs.swap_remove(i);
		let n = k.len();
		let from = ids(s.as_slice());
		match c {
			0..=3 => {
				self.note(format!("{} of {i}", ["into_vec", "into_boxed_slice", "Vec::from", "Box::from"][c]));
				self.begin();
				let v: Vec<T> = match c {
					0 => s.into_vec(),
					1 => s.into_boxed_slice().into_vec(),
					2 => Vec::from(s),
					_ => { let b: Box<[T]> = s.into(); b.into_vec() }
				};
				if v.len() != n || v.capacity() < n { self.fail(Kind::Content, "convert", format!("{n} elements became a vector of {}", v.len())); std::mem::forget(v); return }
				if keys(&v) != k { self.fail(Kind::Content, "convert", format!("{k:?} became {:?}", keys(&v))) }
				let res = ids(&v);
				self.settle("conversion to a vector", &res, &[]);
				if res != from { self.fail(Kind::Owner, "moved", format!("elements {from:?} became {res:?} in a vector")) }
				if self.dead { std::mem::forget(v); return }
				if self.r.chance(1, 2) && n == N {
					self.begin();
					let Ok(a) = <[T; N]>::try_from(v) else { unreachable!() };
					let s = SizedSlice::from(a);
					self.push(s, k);
				} else {
					self.begin();
					drop(v);
					self.settle("dropping the vector", &[], &from);
				}
			}
			4 => {
				self.note(format!("into_raw_parts of {i}"));
				self.begin();
				let (buf, len) = s.into_raw_parts();
				if len != n { self.fail(Kind::Content, "into_raw_parts", format!("into_raw_parts gave length {len} for {n} elements")); return }
				// SAFETY: These came from a sized slice.
				let s = unsafe { SizedSlice::from_raw_parts(buf, len) };
				let res = ids(s.as_slice());
				self.settle("passage through raw parts", &res, &[]);
				if res != from { self.fail(Kind::Owner, "moved", format!("elements {from:?} became {res:?} through raw parts")) }
				self.push(s, k);
			}
			5 => {
				self.note(format!("into_iter of {i} collected"));
				self.begin();
				let v: Vec<T> = s.into_iter().collect();
				if keys(&v) != k { self.fail(Kind::Content, "into_iter", format!("{k:?} was iterated as {:?}", keys(&v))) }
				let res = ids(&v);
				self.settle("iteration", &res, &[]);
				if res != from { self.fail(Kind::Owner, "moved", format!("elements {from:?} were iterated as {res:?}")) }
				self.begin();
				drop(v);
				self.settle("dropping the vector", &[], &from);
			}
			6 => {
				self.note(format!("into_iter of {i} recollected"));
				self.begin();
				let s: SizedSlice<T, N> = s.into_iter().collect();
				let res = if s.len() == n { ids(s.as_slice()) } else { Vec::new() };
				self.settle("iteration and collection", &res, &[]);
				if res != from { self.fail(Kind::Owner, "moved", format!("elements {from:?} were recollected as {res:?}")) }
				self.push(s, k);
			}
			_ => {
				// Iterated in part; the rest leaks with the iterator, or is dropped.
				let a = self.r.range(0, n);
				let b = self.r.range(0, n - a);
				self.note(format!("into_iter of {i}: {a} from the front, {b} from the back"));
				self.begin();
				let mut it = s.into_iter();
				let mut got: Vec<T> = it.by_ref().take(a).collect();
				let mut back: Vec<T> = it.by_ref().rev().take(b).collect();
				if keys(&got) != k[..a] || keys(&back) != k[n - b..].iter().rev().cloned().collect::<Vec<_>>() { self.fail(Kind::Content, "into_iter", format!("{a} from the front and {b} from the back of {k:?} gave {got:?} and {back:?}")) }
				let rest = ids(it.as_slice());
				let mut all = ids(&got);
				all.extend(&rest);
				let mut bi = ids(&back);
				bi.reverse();
				all.extend(bi);
				self.settle("partial iteration", &all, &[]);
				if all != from { self.fail(Kind::Owner, "moved", format!("elements {from:?} were iterated as {all:?}")) }
				self.discard("a partly consumed iterator", it, &rest);
				self.begin();
				let mut taken = ids(&got);
				taken.extend(ids(&back));
				got.clear();
				back.clear();
				self.settle("dropping what was taken", &[], &taken);
			}
		}
	}

	pub fn step(&mut self) {
		let n = self.objs.len();
		if n == 0 || self.r.chance(1, 4) { self.construct() }
		else if self.r.chance(1, 4) { let i = self.r.below(n); self.consume(i) }
		else { let i = self.r.below(n); self.mutate(i) }
	}

	pub fn run(&mut self, steps: usize) {
		for _ in 0..steps {
			if self.dead { break }
			self.step();
		}
		self.m.count("histories", 1);
		self.m.count("steps", self.trace.len() as u64);
		if self.m.want_sample() { let t = self.trace.iter().take(6).cloned().collect::<Vec<_>>().join("; "); self.m.sample(|| format!("SizedSlice<{}, {N}>: {t}; …", T::NAME)) }
		// Elements of a broken container must not be touched again.
		if self.dead { for o in self.objs.drain(..) { std::mem::forget(o) } }
		while let Some(o) = self.objs.pop() {
			let own = ids(o.s.as_slice());
			self.discard("a sized slice", o.s, &own);
		}
		if T::TRACKED { track::reset() }
	}
}

/// Encoding and decoding within a history.
pub fn recode<T: Elem + Encode + Decode, const N: usize>(x: &mut Machine<T, N>) {
	if x.objs.is_empty() || x.dead { return }
	let i = x.r.below(x.objs.len());
	let k = x.objs[i].k.clone();
	x.note(format!("encode of {i} and decode"));
	x.begin();
	let mut buf = vec![0u8; 16 + 32 * N];
	let mut out = Output::new(&mut buf);
	if !matches!(catch(|| x.objs[i].s.encode(&mut out).is_ok()), Ok(true)) { x.fail(Kind::Content, "encode", format!("encoding {k:?} failed")); return }
	let own = ids(x.objs[i].s.as_slice());
	x.settle("encoding", &own, &[]);
	let n = out.position();
	let mut input = Input::new(&buf[..n]);
	x.begin();
	match catch(|| SizedSlice::<T, N>::decode(&mut input)) {
		Ok(Ok(s)) => {
			let res = if s.len() <= N { ids(s.as_slice()) } else { Vec::new() };
			x.settle("decoding", &res, &[]);
			x.push(s, k);
		}
		_ => x.fail(Kind::Content, "decode", format!("decoding the encoding of {k:?} failed")),
	}
}

pub fn history<T: Elem + Encode + Decode, const N: usize>(r: &mut Rng, m: &mut Mon, kind: Kind, steps: usize) {
	let mut x = Machine::<T, N>::new(r, m, kind);
	for _ in 0..3 {
		x.run_part(steps / 3);
		recode(&mut x);
	}
	x.run(0);
}

impl<T: Elem, const N: usize> Machine<'_, T, N> {
	fn run_part(&mut self, steps: usize) { for _ in 0..steps { if self.dead { break } self.step() } }
}

/// Every operation at least once, on an empty, a partly filled and a full slice.
pub fn sweep<T: Elem + Encode + Decode, const N: usize>(r: &mut Rng, m: &mut Mon, kind: Kind, _: usize) {
	let mut lens = vec![0, N / 2, N];
	lens.dedup();
	let full = T::NAME == "Track" || T::NAME == "u8" || !cfg!(miri);
	for n in lens {
		let mut x = Machine::<T, N>::new(r, m, kind);
		x.force_len = Some(n);
		// Under the interpreter, one way to build stands for the others after the first types.
		for c in if full { 0..8 } else { 7..8 } {
			if x.dead { break }
			x.force_op = Some(if c == 7 && x.objs.is_empty() { 3 } else { c });
			x.construct();
		}
		for c in 0..12 {
			if x.dead { break }
			x.force_op = Some(c);
			x.mutate(0);
		}
		if !x.dead { recode(&mut x) }
		for c in 0..9 {
			if x.dead { break }
			if x.objs.is_empty() || x.objs[x.objs.len() - 1].k.len() != n { x.force_op = Some(3); x.construct() }
			if x.dead || x.objs.is_empty() { break }
			let i = x.objs.len() - 1;
			x.force_op = Some(c);
			x.consume(i);
		}
		x.m.count("sweeps", 1);
		x.run(0);
	}
}

pub type Job = (&'static str, usize, fn(&mut Rng, &mut Mon, Kind, usize));

macro_rules! jobs { ($f:ident; $($t:ty: $($n:literal),*;)*) => { vec![$($((<$t as Elem>::NAME, $n, $f::<$t, $n> as fn(&mut Rng, &mut Mon, Kind, usize))),*),*] } }

/// The element types and capacities that histories run over.
pub fn jobs() -> Vec<Job> {
	jobs! {
		history;
		u8: 0, 1, 2, 3, 4, 5, 8, 17, 64, 300;
		u16: 1, 3, 9;
		u64: 0, 2, 7;
		i32: 4;
		u128: 3;
		(): 0, 1, 4, 300;
		bool: 5;
		char: 6;
		[u8; 3]: 5;
		(u8, u32): 4, 6;
		String: 0, 1, 3, 4, 8, 20;
		Track: 0, 1, 2, 3, 4, 5, 8, 13, 40;
		Tiny: 1, 3, 6, 17;
		Wide: 0, 2, 4, 9;
	}
}

/// Those that are swept.
pub fn swept() -> Vec<Job> {
	jobs! { sweep; Track: 4; u8: 5; u64: 3; String: 2; Tiny: 3; Wide: 2; (): 4; u128: 2; [u8; 3]: 3; (u8, u32): 2; char: 1; bool: 0; }
}

pub const TRACKED: [&str; 3] = ["Track", "Tiny", "Wide"];
pub fn tracked() -> Vec<Job> { jobs().into_iter().filter(|j| TRACKED.contains(&j.0)).collect() }

/// The interpreter leaves out large capacities.
pub fn run_jobs(cfg: &vcore::mon::Cfg, prop: &str, jobs: &[Job], kind: Kind, n: usize, steps: usize) -> Mon {
	vcore::mon::parallel(jobs, |&(name, cap, f), m| {
		if cfg!(miri) && cap > 13 { return }
		if cfg.only.as_ref().is_some_and(|o| *o != format!("{name}/{cap}")) { return }
		for i in 0..n {
			let mut r = Rng::sub(cfg.seed, &format!("{prop} {name} {cap} {i}"));
			if let Err(p) = catch(|| f(&mut r, m, kind, steps)) {
				if kind == Kind::Content { m.violation(&format!("panic SizedSlice<{name}, {cap}>"), || format!("SizedSlice<{name}, {cap}>: unexpected panic in history {i} (seed {}): {p}", cfg.seed)) }
			}
		}
	})
}
