//! Decoding of every composite type over tracked elements: what is decoded, dropped and kept.

use crate::track::{self, Track, BAD, PANIC};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedSlice, Slot};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, LinkedList};
use std::num::{Saturating, Wrapping};
use std::ops::{Bound, Range, RangeFrom, RangeInclusive, RangeTo, RangeToInclusive};
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};
use vcore::alloc_mon::window;
use vcore::mon::{catch, hex, Mon};
use vcore::rng::{hash_bytes, Rng};

/// An element that is equal to each second other one, so that as a key it meets itself.
#[derive(Debug)]
pub struct Alike(pub Track);
impl PartialEq for Alike { fn eq(&self, o: &Self) -> bool { self.0.val() % 2 == o.0.val() % 2 } }
impl Eq for Alike {}
impl std::hash::Hash for Alike { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.0.val() % 2).hash(h) } }
impl Decode for Alike { type Error = <Track as Decode>::Error; fn decode(i: &mut Input) -> Result<Self, Self::Error> { Track::decode(i).map(Self) } }
impl Encode for Alike { type Error = <Track as Encode>::Error; fn encode(&self, o: &mut Output) -> Result<(), Self::Error> { self.0.encode(o) } }

#[derive(Debug, Decode, Encode)]
pub struct Named { pub a: Track, pub b: u8, pub c: Vec<Track>, pub d: Track }
#[derive(Debug, Decode, Encode)]
pub struct Unnamed(pub Track, pub [Track; 2], pub Box<Track>);
#[derive(Debug, Decode, Encode)]
#[repr(u8)]
pub enum Choice { None, One(Track), Many { a: Vec<Track>, b: Track } }
#[derive(Debug, Decode, Encode)]
pub struct Held<T: Decode + Encode>(pub T, pub Track)
where oct::error::GenericDecodeError: From<<T as Decode>::Error>, oct::error::GenericEncodeError: From<<T as Encode>::Error>;

/// How the encoding of a shape is put together.
#[derive(Clone, Copy, Debug)]
pub enum S {
	/// An element.
	T,
	/// Fixed bytes.
	B(&'static [u8]),
	/// A count, and so many of the items (at most the bound).
	N(usize, &'static [S]),
	/// So many of the items.
	A(usize, &'static [S]),
	/// Any one of these.
	Any(&'static [&'static [S]]),
}

/// One piece of an encoding: bytes, or an element.
#[derive(Clone, Debug)]
pub enum Piece { Bytes(Vec<u8>), Elem(u32) }

fn build(s: &[S], r: &mut Rng, distinct: &mut u32, out: &mut Vec<Piece>) {
	for s in s {
		match *s {
			S::T => { *distinct += 1; out.push(Piece::Elem(*distinct)) }
			S::B(b) => out.push(Piece::Bytes(b.to_vec())),
			S::N(max, items) => {
				let n = if r.chance(1, 8) { max } else { r.range(0, max) };
				out.push(Piece::Bytes((n as u16).to_le_bytes().to_vec()));
				for _ in 0..n { build(items, r, distinct, out) }
			}
			S::A(n, items) => for _ in 0..n { build(items, r, distinct, out) },
			S::Any(v) => { let i = r.below(v.len()); build(v[i], r, distinct, out) }
		}
	}
}

/// An operation on one composite type: decodes and returns how it went, keeping the value for later.
pub struct Shape {
	pub name:  &'static str,
	pub shape: &'static [S],
	/// Elements may leak when the value is dropped: it is a sized slice (1), or holds some of its own (2).
	pub leaks: u8,
	/// Elements may replace one another while decoding.
	pub alike: bool,
	pub decode: fn(&mut Input) -> Outcome,
	/// Decodes, encodes again, and passes through a slot.
	pub again:  fn(&[u8], &mut Mon) -> Result<(), String>,
}

pub enum Outcome { Value(Box<dyn std::any::Any>), Error(String), Panic(String) }

fn decode<T: Decode<Error: std::fmt::Debug> + 'static>(i: &mut Input) -> Outcome {
	match catch(|| T::decode(i)) {
		Ok(Ok(v)) => Outcome::Value(Box::new(v)),
		Ok(Err(e)) => Outcome::Error(format!("{e:?}")),
		Err(p) => Outcome::Panic(p),
	}
}

/// Encoding neither creates nor drops elements; a slot takes a value by itself or by reference, and gives a new one.
fn again<T: Decode<Error: std::fmt::Debug> + Encode<Error: std::fmt::Debug> + 'static>(b: &[u8], m: &mut Mon) -> Result<(), String> {
	let v = T::decode(&mut Input::new(b)).map_err(|e| format!("decoding failed: {e:?}"))?;
	track::take_log();
	let live = track::live_set();
	let mut buf = vec![0; b.len() + 4];
	let mut out = Output::new(&mut buf);
	v.encode(&mut out).map_err(|e| format!("encoding failed: {e:?}"))?;
	let log = track::take_log();
	if !log.is_empty() { return Err(format!("encoding did {log:?}")) }
	let mut slot = Slot::<T>::with_capacity(b.len() + 4);
	slot.write(&v).map_err(|e| format!("writing by reference failed: {e:?}"))?;
	let log = track::take_log();
	if !log.is_empty() { return Err(format!("writing to a slot by reference did {log:?}")) }
	let w = slot.read().map_err(|e| format!("reading failed: {e:?}"))?;
	let d = track::delta();
	if d.drops.keys().any(|i| live.contains(i)) || !d.clones.is_empty() { return Err(format!("reading from a slot did {d:?}")) }
	let mid = track::live();
	slot.write(v).map_err(|e| format!("writing by value failed: {e:?}"))?;
	let d = track::delta();
	if d.drops.values().any(|n| *n != 1) || d.drops.keys().any(|i| !live.contains(i)) || !d.new.is_empty() || !d.clones.is_empty() { return Err(format!("writing to a slot by value did {d:?} with {mid} alive")) }
	drop(w);
	m.count("encodings watched", 3);
	Ok(())
}

macro_rules! shapes {
	(#) => { 0 };
	(#alike) => { 0 };
	(?alike) => { true };
	(?$($l:ident)?) => { false };
	(#leaks) => { 1 };
	(#nested) => { 2 };
	($($(@$l:ident)? $t:ty = $s:expr;)*) => { vec![$(Shape { name: stringify!($t), shape: &$s, leaks: shapes!(#$($l)?), alike: shapes!(?$($l)?), decode: decode::<$t>, again: again::<$t> }),*] };
}

pub fn shapes() -> Vec<Shape> {
	use S::*;
	shapes! {
		Track = [T];
		[Track; 0] = [];
		[Track; 1] = [T];
		[Track; 5] = [A(5, &[T])];
		[[Track; 2]; 3] = [A(6, &[T])];
		[Vec<Track>; 3] = [A(3, &[N(4, &[T])])];
		Vec<Track> = [N(9, &[T])];
		Vec<Vec<Track>> = [N(4, &[N(4, &[T])])];
		Vec<[Track; 3]> = [N(4, &[A(3, &[T])])];
		Vec<Option<Track>> = [N(6, &[Any(&[&[B(&[0])], &[B(&[1]), T]])])];
		Vec<(Track, Track)> = [N(5, &[T, T])];
		LinkedList<Track> = [N(7, &[T])];
		LinkedList<[Track; 2]> = [N(4, &[A(2, &[T])])];
		HashMap<Track, Track> = [N(6, &[T, T])];
		HashSet<Track> = [N(7, &[T])];
		@alike HashMap<Alike, Track> = [N(6, &[T, T])];
		@alike HashMap<Alike, Alike> = [N(6, &[T, T])];
		@alike HashSet<Alike> = [N(7, &[T])];
		@alike Vec<HashMap<Alike, Track>> = [N(3, &[N(4, &[T, T])])];
		Box<Track> = [T];
		Box<[Track; 3]> = [A(3, &[T])];
		Rc<Track> = [T];
		Arc<Vec<Track>> = [N(5, &[T])];
		RefCell<Track> = [T];
		RefCell<[Track; 2]> = [T, T];
		Mutex<Vec<Track>> = [N(5, &[T])];
		RwLock<[Track; 2]> = [T, T];
		Option<Track> = [Any(&[&[B(&[0])], &[B(&[1]), T]])];
		Option<[Track; 4]> = [Any(&[&[B(&[0])], &[B(&[1]), A(4, &[T])]])];
		Result<Track, Track> = [Any(&[&[B(&[0])], &[B(&[1])]]), T];
		Result<Vec<Track>, Vec<Track>> = [Any(&[&[B(&[0])], &[B(&[1])]]), N(4, &[T])];
		Bound<Track> = [Any(&[&[B(&[0]), T], &[B(&[1]), T], &[B(&[2])]])];
		Range<Track> = [T, T];
		RangeInclusive<Track> = [T, T];
		RangeFrom<Track> = [T];
		RangeTo<Track> = [T];
		RangeToInclusive<Track> = [T];
		Wrapping<Track> = [T];
		Saturating<Track> = [T];
		Cow<'static, Track> = [T];
		(Track,) = [T];
		(Track, Track) = [T, T];
		(Track, Track, Track, Track, Track) = [A(5, &[T])];
		(Track, Track, Track, Track, Track, Track, Track, Track, Track, Track, Track, Track) = [A(12, &[T])];
		(Vec<Track>, Vec<Track>) = [N(3, &[T]), N(3, &[T])];
		Named = [T, B(&[7]), N(4, &[T]), T];
		Unnamed = [T, T, T, T];
		Choice = [Any(&[&[B(&[0])], &[B(&[1]), T], &[B(&[2]), N(3, &[T]), T]])];
		Held<u32> = [B(&[1, 2, 3, 4]), T];
		Held<Named> = [T, B(&[7]), N(4, &[T]), T, T];
		Vec<Choice> = [N(4, &[Any(&[&[B(&[0])], &[B(&[1]), T], &[B(&[2]), N(3, &[T]), T]])])];
		[Named; 2] = [A(2, &[T, B(&[7]), N(4, &[T]), T])];
		Vec<Box<[Track; 2]>> = [N(4, &[T, T])];
		@leaks SizedSlice<Track, 0> = [N(0, &[T])];
		@leaks SizedSlice<Track, 1> = [N(1, &[T])];
		@leaks SizedSlice<Track, 6> = [N(6, &[T])];
		@leaks SizedSlice<[Track; 2], 3> = [N(3, &[T, T])];
		@leaks SizedSlice<Vec<Track>, 3> = [N(3, &[N(3, &[T])])];
		@nested [SizedSlice<Track, 3>; 3] = [A(3, &[N(3, &[T])])];
		@nested Vec<SizedSlice<Track, 2>> = [N(4, &[N(2, &[T])])];
		@nested SizedSlice<SizedSlice<Track, 2>, 2> = [N(2, &[N(2, &[T])])];
		@nested Held<SizedSlice<Track, 3>> = [N(3, &[T]), T];
		@nested (SizedSlice<Track, 2>, SizedSlice<Track, 2>) = [N(2, &[T]), N(2, &[T])];
	}
}

pub fn pieces(s: &Shape, r: &mut Rng) -> Vec<Piece> {
	let mut d = 0;
	let mut v = Vec::new();
	build(s.shape, r, &mut d, &mut v);
	v
}

pub fn bytes(p: &[Piece]) -> Vec<u8> {
	let mut v = Vec::new();
	for p in p { match p { Piece::Bytes(b) => v.extend(b), Piece::Elem(e) => v.extend(e.to_le_bytes()) } }
	v
}

/// Decoding that succeeds: each element is decoded once, lives in the value, and is dropped once with it.
pub fn whole(s: &Shape, r: &mut Rng, m: &mut Mon) -> Result<(), String> {
	track::reset();
	let p = pieces(s, r);
	let n = p.iter().filter(|p| matches!(p, Piece::Elem(_))).count();
	let b = bytes(&p);
	m.eval((n > 0).then(|| hash_bytes(s.name.as_bytes()) ^ hash_bytes(&b)));
	let mut i = Input::new(&b);
	let out = (s.decode)(&mut i);
	let Outcome::Value(v) = out else { return Err(format!("{} did not decode", hex(&b))) };
	let dec = track::decodes();
	let d = track::delta();
	let replaced = s.alike && d.drops.values().all(|n| *n == 1) && d.drops.keys().all(|i| d.new.contains(i));
	if replaced { m.count("elements replaced while decoding", d.drops.len() as u64) }
	if dec != n || d.new.len() != n || !(d.drops.is_empty() || replaced) || !d.clones.is_empty() { return Err(format!("decoding {n} elements ({}) decoded {dec}, created {} and dropped {:?}", hex(&b), d.new.len(), d.drops)) }
	drop(v);
	let e = track::delta();
	let errs = track::errors();
	if !errs.is_empty() { return Err(format!("dropping what was decoded from {}: {}", hex(&b), errs.join(", "))) }
	let n = n - d.drops.len();
	let all = e.drops.len() == n && e.drops.values().all(|c| *c == 1);
	if !all && !(s.leaks > 0 && e.drops.len() < n && e.drops.values().all(|c| *c == 1)) { return Err(format!("dropping what was decoded from {} dropped {:?} of {:?}", hex(&b), e.drops, d.new)) }
	if !all { m.finding("sized-slice-drop", || format!("dropping a {} decoded from {} dropped {} of its {n} elements", s.name, hex(&b), e.drops.len())) }
	m.count(if all { "decoded values dropped" } else { "decoded values that leaked" }, 1);
	track::reset();
	(s.again)(&b, m)?;
	let errs = track::errors();
	if !errs.is_empty() { return Err(format!("encoding and reading {}: {}", hex(&b), errs.join(", "))) }
	if track::live() != 0 && s.leaks == 0 { return Err(format!("{} elements of {} were lost on the way through a slot", track::live(), hex(&b))) }
	if m.want_sample() && n > 1 { m.sample(|| format!("{}: {}", s.name, hex(&b))) }
	Ok(())
}

/// Decoding that is made to fail at some element, or cut short, or whose count is too large.
pub fn failing(s: &Shape, r: &mut Rng, m: &mut Mon) -> Result<(), String> {
	track::reset();
	let mut p = pieces(s, r);
	let elems: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Piece::Elem(_))).collect();
	if elems.is_empty() { return Ok(()) }
	let at = r.below(elems.len());
	let how = r.below(3);
	let mut b;
	// Decodings begun, and how it should end.
	let begun;
	let end;
	match how {
		0 => { p[elems[at]] = Piece::Elem(BAD | at as u32); b = bytes(&p); begun = at + 1; end = "error" }
		1 => { p[elems[at]] = Piece::Elem(PANIC | at as u32); b = bytes(&p); begun = at + 1; end = "panic" }
		_ => {
			b = bytes(&p);
			let cut = r.below(b.len());
			b.truncate(cut);
			let mut pos = 0;
			let mut k = 0;
			for q in &p {
				match q {
					Piece::Bytes(x) => { pos += x.len(); if pos > cut { break } }
					Piece::Elem(_) => { k += 1; pos += 4; if pos > cut { break } }
				}
			}
			begun = k;
			end = "end";
		}
	}
	m.eval(Some(hash_bytes(s.name.as_bytes()) ^ hash_bytes(&b)));
	let before = track::live();
	let one = |b: &[u8]| window(|| { let mut i = Input::new(b); match (s.decode)(&mut i) { Outcome::Value(_) => "value", Outcome::Error(e) => { drop(e); "error" } Outcome::Panic(q) => if q == "<injected>" { "panic" } else { "end" } } });
	let (got, mem) = one(&b);
	let dec = track::decodes();
	let d = track::delta();
	let errs = track::errors();
	let desc = |what: String| format!("source {} ({end} at element {at} of {}): {what}", hex(&b), elems.len());
	if got != end && !(end == "end" && (got == "panic" || got == "error")) { return Err(desc(format!("ended with {got}"))) }
	if dec != begun { return Err(desc(format!("{dec} elements were asked for, rather than {begun}"))) }
	if !errs.is_empty() { return Err(desc(errs.join(", "))) }
	let all = d.new.iter().all(|i| d.drops.get(i) == Some(&1)) && d.drops.len() == d.new.len();
	let leaked = d.new.iter().filter(|i| !d.drops.contains_key(i)).count();
	if !all && !(s.leaks == 2 && d.drops.values().all(|c| *c == 1)) { return Err(desc(format!("{} elements were decoded but {:?} dropped", d.new.len(), d.drops))) }
	if !all { m.finding("sized-slice-drop", || format!("{}: {}", s.name, desc(format!("{leaked} elements of finished sized slices were not dropped")))) }
	if !all { m.count("failures in which a finished sized slice leaked", 1) }
	// A finished sized slice may leak its elements, and those of vectors within.
	if leaked == 0 && track::live() != before { return Err(desc(format!("{} elements stayed alive", track::live() - before))) }
	if leaked == 0 && !cfg!(miri) && mem.live != 0 { return Err(desc(format!("{} bytes in {} blocks stayed allocated", mem.live, mem.blocks))) }
	m.max("max bytes obtained and released", mem.bytes);
	m.count(&format!("failures by {end}"), 1);
	m.max("max elements released", d.new.len() as u64);
	if m.want_sample() && d.new.len() > 2 { m.sample(|| format!("{}: {}", s.name, desc(format!("released {} elements and {} bytes", d.new.len(), mem.bytes)))) }
	Ok(())
}
