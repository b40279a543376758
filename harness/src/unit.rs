//! Elements without a size: they cannot be told apart, so they are counted.

use crate::track::TrackError;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::SizedSlice;
use std::cell::Cell;
use vcore::mon::{catch, Injected, Mon};
use vcore::rng::Rng;

thread_local! {
	static MADE: Cell<usize> = const { Cell::new(0) };
	static GONE: Cell<usize> = const { Cell::new(0) };
	static FUSE: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn up(c: &'static std::thread::LocalKey<Cell<usize>>) { c.with(|c| c.set(c.get() + 1)) }
fn counts() -> (usize, usize) { (MADE.with(Cell::get), GONE.with(Cell::get)) }

pub struct Unit(());
impl Unit { fn new() -> Self { up(&MADE); Self(()) } }
impl Drop for Unit { fn drop(&mut self) { up(&GONE) } }
impl Clone for Unit {
	fn clone(&self) -> Self {
		let f = FUSE.with(|f| f.replace(f.get().wrapping_sub(1)));
		if f == 0 { FUSE.with(|f| f.set(usize::MAX)); std::panic::resume_unwind(Box::new(Injected)) }
		if f == usize::MAX { FUSE.with(|f| f.set(usize::MAX)) }
		Self::new()
	}
}
impl Encode for Unit { type Error = TrackError; fn encode(&self, _: &mut Output) -> Result<(), TrackError> { Ok(()) } }
impl SizedEncode for Unit { const MAX_ENCODED_SIZE: usize = 0; }
impl Decode for Unit { type Error = TrackError; fn decode(_: &mut Input) -> Result<Self, TrackError> { Ok(Self::new()) } }

/// What is held, how many elements it should hold.
enum Held<const N: usize> { Slice(SizedSlice<Unit, N>, usize), Vec(Vec<Unit>, usize), Box(Box<[Unit]>, usize), Iter(oct::SizedIter<Unit, N>, usize), Raw([std::mem::MaybeUninit<Unit>; N], usize) }

pub fn history<const N: usize>(r: &mut Rng, m: &mut Mon, steps: usize) -> Result<(), String> {
	let mut trace: Vec<String> = Vec::new();
	let mut held: Vec<Held<N>> = Vec::new();
	let (mut made, mut gone) = counts();
	for _ in 0..steps {
		// How many elements the step should make and drop.
		let (mut make, mut end) = (0, 0);
		let mut note = |s: String| { vcore::step!("Unit", s, trace.join("; ")); trace.push(s) };
		let mut bad: Option<String> = None;
		if held.is_empty() || r.chance(1, 3) {
			let n = match r.below(4) { 0 => 0, 1 => N, _ => r.range(0, N) };
			match r.below(5) {
				0 => { note(format!("new of {n}")); let v: Vec<Unit> = (0..n).map(|_| Unit::new()).collect(); let s = SizedSlice::new(&v).map_err(|_| format!("new of {n} refused"))?; drop(v); make = 2 * n; end = n; held.push(Held::Slice(s, n)) }
				1 => { note("from an array".into()); held.push(Held::Slice(SizedSlice::from(core::array::from_fn(|_| Unit::new())), N)); make = N }
				2 => { note(format!("collect of {n}")); held.push(Held::Slice((0..n).map(|_| Unit::new()).collect(), n)); make = n }
				3 => { let k = n + r.below(3); note(format!("collect of {k}")); let t = k.min(N); held.push(Held::Slice((0..k).map(|_| Unit::new()).collect(), t)); make = t }
				_ => {
					note(format!("decode of {n}"));
					let mut buf = [0; 2];
					let Ok(()) = (n as u16).encode(&mut Output::new(&mut buf));
					match SizedSlice::<Unit, N>::decode(&mut Input::new(&buf)) { Ok(s) => { held.push(Held::Slice(s, n)); make = n } Err(_) => return Err(format!("decoding {n} elements failed")) }
				}
			}
		} else {
			let i = r.below(held.len());
			let c = r.below(9);
			match (held.swap_remove(i), c) {
				(Held::Slice(s, n), 0) => { note("into_vec".into()); held.push(Held::Vec(s.into_vec(), n)) }
				(Held::Slice(s, n), 1) => { note("into_boxed_slice".into()); held.push(Held::Box(s.into_boxed_slice(), n)) }
				(Held::Slice(s, n), 2) => { note("into_iter".into()); held.push(Held::Iter(s.into_iter(), n)) }
				(Held::Slice(s, n), 3) => { note("into_raw_parts".into()); let (b, l) = s.into_raw_parts(); if l != n { bad = Some(format!("length {l} for {n}")) } held.push(Held::Raw(b, l)) }
				(Held::Slice(s, n), 4) => { note("into a vector".into()); held.push(Held::Vec(s.into(), n)) }
				(Held::Slice(s, n), 5) => { note("into a box".into()); held.push(Held::Box(s.into(), n)) }
				(Held::Slice(s, n), 6) => {
					let fuse = if r.chance(1, 3) { r.range(0, n) } else { usize::MAX };
					note(format!("clone{}", if fuse < n { format!(" that panics at {fuse}") } else { String::new() }));
					FUSE.with(|f| f.set(fuse));
					let got = catch(|| s.clone());
					FUSE.with(|f| f.set(usize::MAX));
					match got {
						Ok(c) if fuse >= n => { make = n; held.push(Held::Slice(c, n)) }
						// Copies made before the panic may leak.
						Err(p) if p == "<injected>" && fuse < n => { make = fuse; end = counts().1 - gone; if end > fuse { bad = Some(format!("{end} of {fuse} copies were dropped")) } m.count("copies of units that panicked", 1) }
						_ => bad = Some("did not panic as its elements did".into()),
					}
					held.push(Held::Slice(s, n));
				}
				(Held::Slice(s, n), 7) => {
					note("replace".into());
					let mut s = s;
					if n > 0 { s[r.below(n)] = Unit::new(); make = 1; end = 1 }
					if s.iter().count() != n { bad = Some("iterated as fewer".into()) }
					held.push(Held::Slice(s, n));
				}
				(Held::Slice(s, n), _) => { note("drop of a slice".into()); drop(s); end = counts().1 - gone; if end != 0 && end != n { bad = Some(format!("{end} of {n} were dropped")) } if end == 0 && n > 0 { m.finding("sized-slice-drop", || format!("dropping a sized slice of {n} elements without a size dropped none of them")) } }
				(Held::Vec(v, n), _) => { note("drop of a vector".into()); if v.len() != n { bad = Some(format!("has {} elements instead of {n}", v.len())) } drop(v); end = n }
				(Held::Box(v, n), _) => { note("drop of a box".into()); if v.len() != n { bad = Some(format!("has {} elements instead of {n}", v.len())) } drop(v); end = n }
				(Held::Raw(b, n), _) => { note("from_raw_parts".into()); held.push(Held::Slice(unsafe { SizedSlice::from_raw_parts(b, n) }, n)) }
				(Held::Iter(mut it, n), 0..=4) => {
					note(format!("step {c}"));
					let x = if c % 2 == 0 { it.next() } else { it.next_back() };
					if x.is_some() != (n > 0) { bad = Some(format!("{} of {n} gave {}", if c % 2 == 0 { "next" } else { "next_back" }, if x.is_some() { "one" } else { "none" })) }
					if it.len() != n.saturating_sub(1) { bad = Some(format!("a step from {n} left {}", it.len())) }
					end = n.min(1);
					drop(x);
					held.push(Held::Iter(it, n.saturating_sub(1)));
				}
				(Held::Iter(it, n), 5) => { note("clone of an iterator".into()); let c = it.clone(); make = n; held.push(Held::Iter(c, n)); held.push(Held::Iter(it, n)) }
				(Held::Iter(it, n), 6) => { note("count".into()); let k = it.count(); end = n; if k != n { bad = Some(format!("count of {n} gave {k}")) } }
				(Held::Iter(it, n), 7) => { note("collect from an iterator".into()); held.push(Held::Vec(it.collect(), n)) }
				(Held::Iter(it, n), _) => { note("drop of an iterator".into()); drop(it); end = counts().1 - gone; if end != 0 && end != n { bad = Some(format!("{end} of {n} were dropped")) } }
			}
			if held.len() > 4 && bad.is_none() {
				// Only what surely drops its elements.
				if let Some(j) = held.iter().position(|h| matches!(h, Held::Vec(..) | Held::Box(..))) { if let Held::Vec(_, n) | Held::Box(_, n) = &held[j] { end += n } drop(held.swap_remove(j)) }
			}
		}
		let now = counts();
		if bad.is_none() && (now.0 - made, now.1 - gone) != (make, end) { bad = Some(format!("made {} elements and dropped {}, instead of {make} and {end}", now.0 - made, now.1 - gone)) }
		if bad.is_none() { if let Some(Held::Slice(s, n)) = held.last() { if s.len() != *n || s.as_slice().len() != *n || s.is_full() != (*n == N) || s.is_empty() != (*n == 0) { bad = Some(format!("holds {} elements instead of {n}", s.len())) } } }
		if let Some(b) = bad { std::mem::forget(held); return Err(format!("SizedSlice<Unit, {N}>: {}: {b}; history: {}", trace.last().unwrap(), trace[trace.len().saturating_sub(12)..].join("; "))) }
		(made, gone) = now;
		m.eval(Some(vcore::hash_fmt!("{N} {}", trace[trace.len().saturating_sub(6)..].join(";"))));
		m.count("steps over elements without a size", 1);
	}
	std::mem::forget(held);
	Ok(())
}

pub type Job = fn(&mut Rng, &mut Mon, usize) -> Result<(), String>;
pub fn jobs() -> Vec<Job> { vec![history::<0>, history::<1>, history::<2>, history::<3>, history::<7>, history::<300>] }
