//! Owning elements whose every creation, copy and drop is entered in a ledger.

use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::{GenericDecodeError, GenericEncodeError, NonZeroDecodeError, UsizeEncodeError};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::hash::{Hash, Hasher};
use vcore::mon::Injected;
use vcore::rng::mix;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev { New(u64), Clone(u64, u64), Drop(u64) }

#[derive(Default)]
struct Ledger {
	next:      u64,
	live:      BTreeSet<u64>,
	dead:      BTreeSet<u64>,
	log:       Vec<Ev>,
	errors:    Vec<String>,
	fuse:      Option<usize>,
	decodes:   usize,
	encodes:   usize,
	/// The values of elements that are too small to hold theirs.
	vals:      BTreeMap<u64, u32>,
}

thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()); }

fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R { vcore::alloc_mon::paused(|| L.with(|l| f(&mut l.borrow_mut()))) }

/// Forgets everything; elements that are still alive must not be touched afterwards.
pub fn reset() { with(|l| { let next = l.next; *l = Ledger { next, ..Ledger::default() } }) }
pub fn errors() -> Vec<String> { with(|l| std::mem::take(&mut l.errors)) }
pub fn is_live(id: u64) -> bool { with(|l| l.live.contains(&id)) }
pub fn live() -> usize { with(|l| l.live.len()) }
pub fn live_set() -> BTreeSet<u64> { with(|l| l.live.clone()) }
pub fn take_log() -> Vec<Ev> { with(|l| std::mem::take(&mut l.log)) }
/// Makes the `n`th next copy panic.
pub fn set_fuse(n: Option<usize>) { with(|l| l.fuse = n) }
pub fn decodes() -> usize { with(|l| std::mem::take(&mut l.decodes)) }
pub fn encodes() -> usize { with(|l| std::mem::take(&mut l.encodes)) }

/// What a step did to the elements.
#[derive(Default, Debug)]
pub struct Delta { pub new: Vec<u64>, pub clones: Vec<(u64, u64)>, pub drops: BTreeMap<u64, u32> }

pub fn delta() -> Delta {
	let mut d = Delta::default();
	for e in take_log() {
		match e {
			Ev::New(i) => d.new.push(i),
			Ev::Clone(a, b) => d.clones.push((a, b)),
			Ev::Drop(i) => *d.drops.entry(i).or_insert(0) += 1,
		}
	}
	d
}

pub struct Track { id: u64, val: u32, chk: u32 }

fn chk(id: u64, val: u32) -> u32 { mix(id ^ (u64::from(val) << 24) ^ 0x0C7) as u32 }

impl Track {
	pub fn new(val: u32) -> Self {
		let id = with(|l| { l.next += 1; let id = l.next; l.live.insert(id); l.log.push(Ev::New(id)); id });
		Self { id, val, chk: chk(id, val) }
	}
	fn check(&self, what: &str) {
		with(|l| {
			if self.chk != chk(self.id, self.val) { l.errors.push(format!("{what} of something that never was an element (id {:#x})", self.id)) }
			else if !l.live.contains(&self.id) { l.errors.push(format!("{what} of element {} after its drop", self.id)) }
		})
	}
	pub fn val(&self) -> u32 { self.check("use"); self.val }
	pub fn id(&self) -> u64 { self.check("use"); self.id }
	/// Changes the value in place.
	pub fn set(&mut self, val: u32) { self.check("use"); self.val = val; self.chk = chk(self.id, val) }
}

impl Drop for Track {
	fn drop(&mut self) {
		if self.chk != chk(self.id, self.val) { with(|l| l.errors.push(format!("drop of something that never was an element (id {:#x})", self.id))); return }
		with(|l| {
			l.log.push(Ev::Drop(self.id));
			if l.live.remove(&self.id) { l.dead.insert(self.id); }
			else { l.errors.push(format!("element {} was dropped {}", self.id, if l.dead.contains(&self.id) { "twice" } else { "after the ledger was reset" })) }
		})
	}
}

impl Clone for Track {
	fn clone(&self) -> Self {
		self.check("copy");
		if with(|l| match &mut l.fuse { Some(0) => { l.fuse = None; true } Some(n) => { *n -= 1; false } None => false }) {
			std::panic::resume_unwind(Box::new(Injected));
		}
		let id = with(|l| { l.next += 1; let id = l.next; l.live.insert(id); l.log.push(Ev::Clone(self.id, id)); id });
		Self { id, val: self.val, chk: chk(id, self.val) }
	}
}

impl fmt::Debug for Track { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.val()) } }
impl PartialEq for Track { fn eq(&self, o: &Self) -> bool { self.val() == o.val() } }
impl Eq for Track {}
impl PartialOrd for Track { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Track { fn cmp(&self, o: &Self) -> Ordering { self.val().cmp(&o.val()) } }
impl Hash for Track { fn hash<H: Hasher>(&self, h: &mut H) { self.val().hash(h) } }

/// The error of a tracked element; it converts to the generic ones so that types can be derived.
#[derive(Debug)]
pub struct TrackError(#[allow(dead_code)] pub u32, #[allow(dead_code)] Box<u64>);
impl TrackError { pub fn new(v: u32) -> Self { Self(v, Box::new(0)) } }
impl fmt::Display for TrackError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "injected {}", self.0) } }
impl std::error::Error for TrackError {}
impl From<TrackError> for GenericDecodeError { fn from(_: TrackError) -> Self { GenericDecodeError::NullInteger(NonZeroDecodeError) } }
impl From<TrackError> for GenericEncodeError { fn from(e: TrackError) -> Self { GenericEncodeError::LargeUsize(UsizeEncodeError(e.0 as usize)) } }
impl From<std::convert::Infallible> for TrackError { fn from(e: std::convert::Infallible) -> Self { match e {} } }

/// A value of `BAD` stands for an error and one of `PANIC` for a panic, in both directions.
pub const BAD: u32 = 0xBAD0_0000;
pub const PANIC: u32 = 0xDEAD_0000;

impl Encode for Track {
	type Error = TrackError;
	fn encode(&self, out: &mut Output) -> Result<(), TrackError> {
		with(|l| l.encodes += 1);
		let v = self.val();
		if v & 0xFFFF_0000 == BAD { return Err(TrackError::new(v)) }
		if v & 0xFFFF_0000 == PANIC { std::panic::resume_unwind(Box::new(Injected)) }
		let Ok(()) = v.encode(out);
		Ok(())
	}
}
impl SizedEncode for Track { const MAX_ENCODED_SIZE: usize = 4; }
impl Decode for Track {
	type Error = TrackError;
	fn decode(i: &mut Input) -> Result<Self, TrackError> {
		with(|l| l.decodes += 1);
		let Ok(v) = u32::decode(i);
		if v & 0xFFFF_0000 == BAD { return Err(TrackError::new(v)) }
		if v & 0xFFFF_0000 == PANIC { std::panic::resume_unwind(Box::new(Injected)) }
		Ok(Track::new(v))
	}
}

macro_rules! like_track {
	($($t:ident)*) => { $(
		impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.val()) } }
		impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.val() == o.val() } }
		impl Eq for $t {}
		impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
		impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.val().cmp(&o.val()) } }
		impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { self.val().hash(h) } }
		impl Encode for $t { type Error = TrackError; fn encode(&self, out: &mut Output) -> Result<(), TrackError> { encode(self.val(), out) } }
		impl SizedEncode for $t { const MAX_ENCODED_SIZE: usize = 4; }
		impl Decode for $t { type Error = TrackError; fn decode(i: &mut Input) -> Result<Self, TrackError> { decode(i).map($t::new) } }
	)* };
}
like_track! { Tiny Wide }

fn encode(v: u32, out: &mut Output) -> Result<(), TrackError> {
	with(|l| l.encodes += 1);
	if v & 0xFFFF_0000 == BAD { return Err(TrackError::new(v)) }
	if v & 0xFFFF_0000 == PANIC { std::panic::resume_unwind(Box::new(Injected)) }
	let Ok(()) = v.encode(out);
	Ok(())
}
fn decode(i: &mut Input) -> Result<u32, TrackError> {
	with(|l| l.decodes += 1);
	let Ok(v) = u32::decode(i);
	if v & 0xFFFF_0000 == BAD { return Err(TrackError::new(v)) }
	if v & 0xFFFF_0000 == PANIC { std::panic::resume_unwind(Box::new(Injected)) }
	Ok(v)
}

/// A tracked element of a large alignment, with padding on both sides of its content.
#[repr(C, align(64))]
#[derive(Clone)]
pub struct Wide { pad: u8, t: Track }
impl Wide {
	pub fn new(v: u32) -> Self { Self { pad: 7, t: Track::new(v) } }
	pub fn val(&self) -> u32 { self.placed(); self.t.val() }
	pub fn id(&self) -> u64 { self.placed(); self.t.id() }
	pub fn set(&mut self, v: u32) { self.placed(); self.t.set(v) }
	/// An element that lies where none of its type may lie.
	fn placed(&self) { if (&raw const *self).addr() % 64 != 0 || self.pad != 7 { with(|l| l.errors.push(format!("an element at {:p}, which is not aligned to 64", self))) } }
}

/// A tracked element that is as small as an integer: its value is kept in the ledger.
pub struct Tiny(u32);
impl Tiny {
	pub fn new(v: u32) -> Self { let id = with(|l| { l.next += 1; let id = l.next; l.live.insert(id); l.vals.insert(id, v); l.log.push(Ev::New(id)); id }); Self(id as u32) }
	fn check(&self, what: &str) {
		with(|l| {
			let id = u64::from(self.0);
			if !l.vals.contains_key(&id) { l.errors.push(format!("{what} of something that never was an element (id {id:#x})")) }
			else if !l.live.contains(&id) { l.errors.push(format!("{what} of element {id} after its drop")) }
		})
	}
	pub fn val(&self) -> u32 { self.check("use"); with(|l| l.vals.get(&u64::from(self.0)).copied().unwrap_or(0)) }
	pub fn id(&self) -> u64 { self.check("use"); self.0.into() }
	pub fn set(&mut self, v: u32) { self.check("use"); with(|l| { l.vals.insert(self.0.into(), v); }) }
}
impl Drop for Tiny {
	fn drop(&mut self) {
		with(|l| {
			let id = u64::from(self.0);
			if !l.vals.contains_key(&id) { l.errors.push(format!("drop of something that never was an element (id {id:#x})")); return }
			l.log.push(Ev::Drop(id));
			if l.live.remove(&id) { l.dead.insert(id); } else { l.errors.push(format!("element {id} was dropped {}", if l.dead.contains(&id) { "twice" } else { "after the ledger was reset" })) }
		})
	}
}
impl Clone for Tiny {
	fn clone(&self) -> Self {
		self.check("copy");
		if with(|l| match &mut l.fuse { Some(0) => { l.fuse = None; true } Some(n) => { *n -= 1; false } None => false }) { std::panic::resume_unwind(Box::new(Injected)); }
		let from = u64::from(self.0);
		let id = with(|l| { l.next += 1; let id = l.next; l.live.insert(id); let v = l.vals.get(&from).copied().unwrap_or(0); l.vals.insert(id, v); l.log.push(Ev::Clone(from, id)); id });
		Self(id as u32)
	}
}
