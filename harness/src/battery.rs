//! Every operation, directly and without models, for the interpreter: it is the one that judges, so that what runs
//! beside the code itself is kept small.

use oct::decode::{Decode, DecodeBorrowed, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr, Slot};
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::collections::{HashSet, LinkedList};
use std::fmt::Debug;
use std::hash::Hash;
use std::hint::black_box;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::rc::Rc;
use std::sync::Arc;
use vcore::mon::{catch, Injected, Mon};

thread_local! {
	static FUSE: Cell<u32> = const { Cell::new(u32::MAX) };
	static OPS: Cell<u64> = const { Cell::new(0) };
}
fn burn() { FUSE.with(|f| match f.get() { u32::MAX => {} 0 => { f.set(u32::MAX); std::panic::resume_unwind(Box::new(Injected)) } n => f.set(n - 1) }) }
fn op(n: u64) { OPS.with(|o| o.set(o.get() + n)) }
/// Operations since the last call.
pub fn ops() -> u64 { OPS.with(|o| o.replace(0)) }

/// Owns memory; its copies can panic, and so can its decoding, which can also fail.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Own(Box<u32>);
impl Clone for Own { fn clone(&self) -> Self { burn(); Self(self.0.clone()) } }
impl Encode for Own { type Error = crate::track::TrackError; fn encode(&self, o: &mut Output) -> Result<(), Self::Error> { burn(); let Ok(()) = self.0.encode(o); Ok(()) } }
impl SizedEncode for Own { const MAX_ENCODED_SIZE: usize = 4; }
impl Decode for Own {
	type Error = crate::track::TrackError;
	fn decode(i: &mut Input) -> Result<Self, Self::Error> {
		burn();
		let Ok(v) = u32::decode(i);
		if v == crate::track::BAD { return Err(Self::Error::new(v)) }
		Ok(Self(Box::new(v)))
	}
}
/// Has padding, and owns memory behind it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(32))]
pub struct Spaced(u8, Own);
impl Encode for Spaced { type Error = crate::track::TrackError; fn encode(&self, o: &mut Output) -> Result<(), Self::Error> { let Ok(()) = self.0.encode(o); self.1.encode(o) } }
impl SizedEncode for Spaced { const MAX_ENCODED_SIZE: usize = 5; }
impl Decode for Spaced { type Error = crate::track::TrackError; fn decode(i: &mut Input) -> Result<Self, Self::Error> { let Ok(a) = u8::decode(i); Ok(Self(a, Own::decode(i)?)) } }

pub trait Any: Clone + Debug + Ord + Hash + Encode + Decode + 'static { fn mk(n: usize) -> Self; }
macro_rules! any { ($($t:ty: |$n:ident| $e:expr;)*) => { $(impl Any for $t { fn mk($n: usize) -> Self { $e } })* } }
any! {
	u8: |n| n as u8 ^ 0xA5; u16: |n| n as u16 ^ 0x5AA5; u32: |n| n as u32 ^ 0x5AA5_A55A; u64: |n| n as u64 ^ 0x5AA5_0FF0_A55A; u128: |n| !(n as u128);
	i8: |n| -(n as i8); (): |_n| (); bool: |n| n & 1 == 0; char: |n| ['a', 'é', '漢', '\u{10FFFF}'][n & 3]; [u8; 3]: |n| [n as u8, 1, 2]; (u8, u32): |n| (n as u8, 7); (u8, u64, u16): |n| (1, n as u64, 3);
	String: |n| "xyz".repeat(n & 3); Own: |n| Own(Box::new(n as u32)); Spaced: |n| Spaced(n as u8, Own::mk(n)); Box<u16>: |n| Box::new(n as u16); Option<Box<u8>>: |n| (n & 1 == 1).then(|| Box::new(n as u8));
	SizedStr<5>: |n| SizedStr::new(["", "a", "é", "漢a"][n & 3]).unwrap();
}

fn touch<T: Any>(s: &[T]) {
	op(1);
	for (i, e) in s.iter().enumerate() { black_box(e.cmp(&s[s.len() - 1 - i])); }
}
fn fill<T: Any>(n: usize) -> Vec<T> { (0..n).map(T::mk).collect() }
fn full<T: Any, const N: usize>(n: usize) -> SizedSlice<T, N> { (0..n).map(T::mk).collect() }

/// Elements of a container that might not drop them, moved to where they are dropped.
fn free<T: Any, const N: usize>(s: SizedSlice<T, N>) { drop(s.into_vec()) }

pub fn slice<T: Any, const N: usize>(n: usize) {
	// Construction.
	let v = fill::<T>(n);
	if let Ok(s) = SizedSlice::<T, N>::new(&v) { touch(&s); free(s) }
	if let Ok(s) = SizedSlice::<T, N>::try_from(&v[..]) { touch(&s); free(s) }
	let a: [T; N] = core::array::from_fn(T::mk);
	let s = SizedSlice::from(a);
	touch(&s);
	free(s);
	let mut it = (0..N + 2).map(T::mk);
	let s: SizedSlice<T, N> = it.by_ref().collect();
	touch(&s);
	free(s);
	let mut b = [const { MaybeUninit::<T>::uninit() }; N];
	for (b, v) in b.iter_mut().zip(v.clone()) { b.write(v); }
	let s = unsafe { SizedSlice::<T, N>::from_raw_parts(b, n) };
	touch(&s);
	let (b, l) = s.into_raw_parts();
	op(2);
	let mut s = unsafe { SizedSlice::<T, N>::from_raw_parts(b, l) };
	// Views.
	touch(&s);
	touch(s.as_slice());
	touch(AsRef::<[T]>::as_ref(&s));
	touch(Borrow::<[T]>::borrow(&s));
	touch(&s[..]);
	touch(unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) });
	for e in &s { black_box(e.clone()); }
	let r = s.each_ref();
	for (a, b) in r.iter().zip(s.iter()) { black_box(a.cmp(&b)); }
	black_box(r.get(n));
	drop(r);
	op(3);
	// Changes.
	for (i, e) in s.as_mut_slice().iter_mut().enumerate() { *e = T::mk(i + 1) }
	for (i, e) in AsMut::<[T]>::as_mut(&mut s).iter_mut().enumerate() { *e = T::mk(i + 2) }
	for (i, e) in BorrowMut::<[T]>::borrow_mut(&mut s).iter_mut().enumerate() { *e = T::mk(i + 3) }
	for e in &mut s { *e = T::mk(4) }
	for i in 0..n { s[i] = T::mk(i); unsafe { *s.as_mut_ptr().add(i) = T::mk(i + 1); } }
	{
		let m = s.each_mut();
		let mut all: Vec<&mut T> = m.into_iter().collect();
		for (i, e) in all.iter_mut().enumerate() { **e = T::mk(i + 5) }
		for e in &mut all { **e = T::mk(6) }
	}
	{ let mut m = s.each_mut(); for e in m.as_mut_slice() { **e = T::mk(7) } black_box(m.len()); }
	s.reverse();
	s.sort();
	if n > 1 { s.swap(0, n - 1); let (a, b) = s.split_at_mut(n / 2); std::mem::swap(&mut a[0], &mut b[0]) }
	if n > 0 {
		unsafe { s.set_len(n - 1) };
		touch(&s);
		unsafe { s.set_len(n) };
		// Moved out of and back in.
		let p = s.as_mut_ptr();
		unsafe { let x = p.add(n - 1).read(); s.set_len(n - 1); touch(&s); s.as_mut_ptr().add(n - 1).write(x); s.set_len(n) };
	}
	op(12);
	let _ = catch(|| black_box(&s[n]).clone());
	let _ = catch(|| black_box(&s[n..=n]).len());
	touch(&s);
	// Comparisons.
	let o = full::<T, N>(n);
	black_box((s == o, s.partial_cmp(&o), s.cmp(&o), s == &v[..], s == v, s.partial_cmp(&v), crate::slices::std_hash(&s)));
	op(7);
	if !cfg!(miri) { black_box(format!("{s:?}")); }
	free(o);
	// Copies.
	let c = s.clone();
	touch(&c);
	free(c);
	if std::any::type_name::<T>().ends_with("Own") {
		for f in 0..n as u32 {
			FUSE.with(|x| x.set(f));
			black_box(catch(|| free(s.clone())).is_err());
			FUSE.with(|x| x.set(f));
			black_box(catch(|| SizedSlice::<T, N>::new(&v).map(free).is_ok()).is_err());
			FUSE.with(|x| x.set(u32::MAX));
			op(2);
			touch(&s);
		}
		let _ = catch(|| (0..N + 1).map(|i| if i + 1 >= n { std::panic::resume_unwind(Box::new(Injected)) } else { T::mk(i) }).collect::<SizedSlice<T, N>>());
	}
	// Ways out.
	let c = || s.clone();
	touch(&c().into_vec());
	let mut w = c().into_vec();
	w.push(T::mk(1));
	w.reserve(9);
	touch(&w);
	drop(w);
	touch(&c().into_boxed_slice());
	touch(&Vec::from(c()));
	touch(&Box::<[T]>::from(c()));
	op(5);
	// Iteration.
	for f in 0..=n {
		for b in [0, n - f] {
			let mut it = c().into_iter();
			for _ in 0..f { black_box(it.next()); }
			for _ in 0..b { black_box(it.next_back()); }
			touch(it.as_slice());
			touch(AsRef::<[T]>::as_ref(&it));
			for e in it.as_mut_slice() { *e = T::mk(9) }
			for e in AsMut::<[T]>::as_mut(&mut it) { *e = T::mk(8) }
			let mut d = it.clone();
			black_box((d.next(), it.next_back(), d.next_back(), it.next()));
			touch(d.as_slice());
			op(8);
			match (f + b) % 4 { 0 => { black_box(it.count()); } 1 => { black_box(it.last()); } 2 => { black_box(it.rev().collect::<Vec<_>>()); } _ => drop(it) }
			drop(d.collect::<Vec<_>>());
		}
	}
	let mut it = c().into_iter();
	while it.next().is_some() {}
	black_box((it.next(), it.next_back(), it.next()));
	touch(it.as_slice());
	if n > 0 { let mut it = c().into_iter(); black_box((it.nth_back(n - 1), it.next())); }
	let s2: SizedSlice<T, N> = c().into_iter().rev().collect();
	free(s2);
	drop(c().into_iter());
	drop(c());
	free(SizedSlice::<T, N>::default());
	op(8);
	// The stream.
	let mut buf = vec![0u8; 24 * N + 2];
	let mut out = Output::new(&mut buf);
	let ok = s.encode(&mut out).is_ok();
	let len = out.position();
	if ok {
		if let Ok(t) = SizedSlice::<T, N>::decode(&mut Input::new(&buf[..len])) { touch(&t); free(t) }
		if let Ok(t) = Vec::<T>::decode(&mut Input::new(&buf[..len])) { touch(&t) }
		if n == N { if let Ok(t) = <[T; N]>::decode(&mut Input::new(&buf[2..len])) { touch(&t) } }
		for cut in [len / 2, len.saturating_sub(1)] {
			let _ = catch(|| SizedSlice::<T, N>::decode(&mut Input::new(&buf[..cut])).map(free).is_ok());
			let _ = catch(|| <[T; N]>::decode(&mut Input::new(&buf[..cut])).is_ok());
			let mut small = vec![0u8; cut];
			let _ = catch(|| s.encode(&mut Output::new(&mut small)).is_ok());
		}
		op(9);
	}
	free(s);
}

pub fn copies<T: Any + Copy, const N: usize>(n: usize) {
	let v = fill::<T>(n);
	let mut s = SizedSlice::<T, N>::default();
	s.copy_from_slice(&v);
	touch(&s);
	s.copy_from_slice(&v[n / 2..]);
	touch(&s);
	let _ = catch(|| s.copy_from_slice(&fill::<T>(N + 1)));
	touch(&s);
	op(3);
}

pub fn string<const N: usize>(t: &str) {
	let fits = t.len() <= N;
	let see = |s: &SizedStr<N>| {
		op(6);
		black_box((s.as_str() == t, s.as_bytes().len(), s.chars().count(), s.char_indices().last(), crate::slices::std_hash(s), s.is_full()));
		black_box(unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) } == t.as_bytes());
		black_box((AsRef::<str>::as_ref(s).len(), AsRef::<[u8]>::as_ref(s).len(), Borrow::<str>::borrow(s).len(), AsRef::<std::path::Path>::as_ref(s).as_os_str().len()));
	};
	for s in [SizedStr::<N>::new(t), t.parse(), SizedStr::try_from(t), SizedStr::try_from(t.to_string()), SizedStr::from_utf8(t.as_bytes())] { if let Ok(s) = s { see(&s) } }
	see(&t.chars().collect());
	if let Some(c) = t.chars().next() { if let Ok(s) = SizedStr::<N>::try_from(c) { see(&s) } }
	let mut bad = t.as_bytes().to_vec();
	for i in 0..bad.len() { bad[i] ^= 0x80; if let Ok(s) = SizedStr::<N>::from_utf8(&bad) { see(&s) } bad[i] ^= 0x80; }
	op(bad.len() as u64 + 7);
	if !fits { return }
	let mut s = unsafe { SizedStr::<N>::from_utf8_unchecked(t.as_bytes()) };
	see(&s);
	s.as_mut_str().make_ascii_uppercase();
	AsMut::<str>::as_mut(&mut s).make_ascii_lowercase();
	BorrowMut::<str>::borrow_mut(&mut s).make_ascii_uppercase();
	s[..].make_ascii_lowercase();
	for i in 0..s.len() { unsafe { let p = s.as_mut_ptr().add(i); if *p < 0x80 { *p = b'q' } } }
	see(&s);
	let _ = catch(|| black_box(&s[s.len()..s.len() + 1]).len());
	let (b, n) = s.into_raw_parts();
	let s = unsafe { SizedStr::<N>::from_raw_parts(b, n) };
	see(&s);
	let mut buf = vec![0u8; N + 2];
	let mut out = Output::new(&mut buf);
	let Ok(()) = s.encode(&mut out).map_err(|_| ()) else { return };
	let len = out.position();
	if let Ok(s) = SizedStr::<N>::decode(&mut Input::new(&buf[..len])) { see(&s) }
	if let Ok(s) = String::decode(&mut Input::new(&buf[..len])) { black_box(s.len()); }
	fn borrowed<B: DecodeBorrowed<str>>(b: &[u8]) { if let Ok(s) = B::decode(&mut Input::new(b)) { black_box(s.borrow().len()); } }
	borrowed::<SizedStr<N>>(&buf[..len]);
	borrowed::<String>(&buf[..len]);
	black_box((s == t, s == t.to_string(), s.cmp(&s.clone()), s.partial_cmp(&t)));
	let v = s.clone().into_bytes();
	touch(&v);
	free(v);
	black_box((s.clone().into_string(), s.clone().into_boxed_str(), String::from(s.clone()), Box::<str>::from(s.clone())));
	let mut w = s.into_string();
	w.push('x');
	black_box(w);
	op(15);
}

pub fn slot<T: Any + SizedEncode>(n: usize) {
	let mut s = Slot::<T>::new();
	black_box((s.as_slice().len(), s.is_full(), s.capacity()));
	let v = T::mk(n);
	let ok = s.write(&v).is_ok();
	black_box(s.as_slice().iter().map(|b| u32::from(*b)).sum::<u32>());
	if ok { let _ = black_box(s.read().is_ok()); }
	for b in s.as_mut_slice() { *b ^= 1 }
	for b in AsMut::<[u8]>::as_mut(&mut s) { *b ^= 1 }
	for i in 0..s.len() { unsafe { *s.as_mut_ptr().add(i) ^= 3; *s.as_mut_ptr().add(i) ^= 3; black_box(*s.as_ptr().add(i)); } }
	if ok { let _ = black_box(s.read().is_ok()); }
	let cap = s.capacity();
	s.set_len(cap);
	black_box(s.as_slice().iter().map(|b| u32::from(*b)).sum::<u32>());
	s.set_len(cap / 2);
	let half = s.as_slice().to_vec();
	s.copy_from_slice(&half);
	let _ = catch(|| s.read().is_ok());
	let _ = catch(|| s.copy_from_slice(&vec![0; cap + 1]));
	let _ = catch(|| s.set_len(cap + 1));
	black_box((s == half[..], s.len()));
	FUSE.with(|f| f.set(0));
	let _ = catch(|| s.write(&v).is_ok());
	FUSE.with(|f| f.set(u32::MAX));
	black_box(s.as_slice().iter().map(|b| u32::from(*b)).sum::<u32>());
	op(16);
	drop(s);
	drop(Slot::<T>::default());
}

pub fn streams(n: usize) {
	let mut buf = vec![0u8; n];
	let src: Vec<u8> = (0..n as u8 + 3).collect();
	let mut o = Output::new(&mut buf);
	for k in [1, 0, 3, n, 2] { black_box((o.write(&src[..k]).is_ok(), o.position(), o.remaining(), o.capacity(), o.as_slice().len())); op(2) }
	black_box(format!("{:?}", o.as_slice()).len());
	let b: &[u8] = o.as_ref();
	black_box(b.to_vec());
	let mut i = Input::new(&src);
	let held: Vec<&[u8]> = [1, 0, 2, n, 1].into_iter().filter_map(|k| i.read(k).ok()).collect();
	black_box((i.position(), i.remaining(), i.capacity()));
	let mut to = vec![0u8; n + 5];
	for k in [0, 1, n + 5] { black_box(i.read_into(&mut to[..k]).is_ok()); op(2) }
	for h in held { black_box(h.to_vec()); }
	black_box(i.remaining());
}

/// Decoding into composites where an element fails, panics or is missing.
pub fn composites() {
	let good: Vec<u8> = [1u32, 2, 3, 4, 5].iter().flat_map(|v| v.to_le_bytes()).collect();
	for bad in [usize::MAX, 0, 1, 2, 3] {
		for fuse in [u32::MAX, 0, 1, 2, 3] {
			if bad != usize::MAX && fuse != u32::MAX { continue }
			for cut in [usize::MAX, 3, 8, 11] {
				if cut != usize::MAX && (bad != usize::MAX || fuse != u32::MAX) { continue }
				let mut body = good.clone();
				if bad != usize::MAX { body[bad * 4..bad * 4 + 4].copy_from_slice(&crate::track::BAD.to_le_bytes()) }
				body.truncate(cut);
				let mut listed = vec![4, 0];
				listed.extend(&body);
				macro_rules! all { ($b:ident: $($t:ty),*) => { $( {
					FUSE.with(|f| f.set(fuse));
					let r = catch(|| <$t>::decode(&mut Input::new(&$b)).map(ManuallyDrop::new));
					FUSE.with(|f| f.set(u32::MAX));
					if let Ok(Ok(v)) = r { drop(ManuallyDrop::into_inner(v)) }
					op(1);
				} )* } }
				all!(body: [Own; 1], [Own; 4], [[Own; 2]; 2], [Box<Own>; 3], (Own, Own, Own), Box<[Own; 3]>, Rc<Own>, Arc<[Own; 2]>, [(); 3], Option<Own>, std::cell::Cell<Own>, std::sync::Mutex<Own>);
				all!(listed: Vec<Own>, LinkedList<Own>, Box<Vec<Own>>, HashSet<Own>, SizedSlice<Own, 4>, SizedSlice<Own, 3>, SizedSlice<Box<Own>, 9>);
			}
		}
	}
}

#[derive(Debug, Decode, Encode, Clone)]
enum Derived { A, B(u8, Box<u16>), C { text: String, n: std::num::NonZeroU32 } }
#[derive(Debug, Decode, Encode, SizedEncode)]
struct Plain { a: u8, b: [u16; 2], c: Option<Box<u32>>, d: SizedSlice<u8, 2>, e: SizedStr<4> }

/// Texts, characters and numbers of which not all bytes are values, from every kind of source.
pub fn texts(part: usize) {
	let mut sources: Vec<Vec<u8>> = (0..=255).step_by(if cfg!(miri) { 17 } else { 1 }).map(|b| vec![b, 0, 0, 0, 0]).collect();
	for text in [&b""[..], b"a", b"\0", b"a\0b", b"\xC3\xA9", b"\xC3", b"\xE6\xBC", b"\xED\xA0\x80", b"\xF0\x9D\x84\x9E", b"\xF4\x90\x80\x80", b"\xC0\x80", b"\xFF\xFE", b"ab\xE6\xBC\xA2"] {
		let mut b = (text.len() as u16).to_le_bytes().to_vec();
		b.extend(text);
		sources.push(b.clone());
		b.push(7);
		sources.push(b.clone());
		b[0] = b[0].wrapping_add(3);
		sources.push(b);
	}
	for c in [0u32, 0x41, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10_FFFF, 0x11_0000, u32::MAX] { let mut b = c.to_le_bytes().to_vec(); sources.push(b.clone()); b.extend([1; 20]); sources.push(b) }
	sources.push(vec![2, 0, 1, 0, b'x', 9, 0, 0, 0]);
	sources.push(vec![2, 0, 1, 0, b'x', 0, 0, 0, 0]);
	sources.push(vec![1, 0, 1, 2, 3]);
	for b in sources.iter().skip(part).step_by(8) {
		macro_rules! all { ($($t:ty: $e:ident),*) => { $(
			let r = catch(|| { let r = <$t>::decode(&mut Input::new(b)); match r { Ok(v) => { let mut out = [0; 64]; let _ = black_box(v.encode(&mut Output::new(&mut out)).is_ok()); } Err(e) => { let e = $e::from(e); black_box(std::error::Error::source(&e).is_some()); if !cfg!(miri) { black_box(e.to_string()); } } } });
			black_box(r.is_ok());
			op(1);
		)* } }
		all!(String: G, SizedStr<4>: G, std::ffi::CString: G, std::num::NonZeroU8: G, std::num::NonZeroU16: G, std::num::NonZeroI64: G, Option<std::num::NonZeroU8>: G, bool: G, Box<String>: G, Vec<bool>: G,
			usize: G, isize: G, std::time::Duration: G, [String; 1]: G, Derived: G, Plain: G, std::net::IpAddr: G, std::ops::Bound<u8>: G, Option<String>: G);
		if let Ok(Ok(c)) = catch(|| char::decode(&mut Input::new(b))) { black_box(char::from_u32(c as u32)); }
		if let Ok(Ok(v)) = catch(|| Vec::<char>::decode(&mut Input::new(b))) { black_box(v.iter().copied().max()); }
		if let Ok(Ok(v)) = catch(|| LinkedList::<char>::decode(&mut Input::new(b))) { black_box(v.iter().copied().max()); }
		if let Ok(Ok(v)) = catch(|| <[char; 2]>::decode(&mut Input::new(b))) { black_box(v.iter().copied().max()); }
		if let Ok(Ok(v)) = catch(|| SizedSlice::<char, 2>::decode(&mut Input::new(b))) { black_box(v.iter().copied().max()); }
		op(5);
	}
	if part != 0 { return }
	// Refusals of the encoder, as generic errors.
	let mut out = [0; 8];
	let big = vec![(); 70_000];
	type H = oct::error::GenericEncodeError;
	macro_rules! refused { ($($v:expr),*) => { $( if let Ok(Err(e)) = catch(|| $v.encode(&mut Output::new(&mut out))) { let e = H::from(e); black_box(std::error::Error::source(&e).is_some()); } op(1); )* } }
	refused!(70_000usize, -70_000isize, big, [usize::MAX; 1], std::cell::Cell::new(usize::MAX), Some(usize::MAX), "x".repeat(if cfg!(miri) { 3 } else { 70_000 }));
}
type G = oct::error::GenericDecodeError;

pub fn small() -> Vec<(&'static str, fn())> {
	macro_rules! slices { ($($t:ty: $($n:literal)*;)*) => { vec![$($((concat!("SizedSlice<", stringify!($t), ", ", $n, ">"), (|| { let mut l = vec![0, 1, $n / 2, $n]; l.retain(|n| *n <= $n); l.dedup(); for n in l { slice::<$t, $n>(n) } }) as fn())),*),*] } }
	let mut v = slices! { u8: 0 1 3 9; u16: 3; u32: 2; u64: 3; u128: 2; i8: 4; (): 2; bool: 3; char: 2; [u8; 3]: 3; (u8, u32): 2; (u8, u64, u16): 2; String: 0 1 3; Own: 1 2 4 7; Spaced: 2 3; Box<u16>: 3; Option<Box<u8>>: 3; SizedStr<5>: 2; };
	macro_rules! copied { ($($t:ty: $n:literal;)*) => { $(v.push((concat!("copies of ", stringify!($t)), || for n in [0, 1, $n] { copies::<$t, $n>(n) }));)* } }
	copied! { u8: 5; u16: 3; u64: 2; u128: 2; (): 2; (u8, u32): 3; (u8, u64, u16): 2; [u8; 3]: 2; char: 2; }
	v.push(("strings", || for t in ["", "a", "zß", "漢", "a漢𝄞", "qwertyuiop"] { string::<0>(t); string::<1>(t); string::<4>(t); string::<8>(t); string::<12>(t) }));
	macro_rules! slots { ($($t:ty;)*) => { $(v.push((concat!("slots of ", stringify!($t)), || for n in 0..3 { slot::<$t>(n) }));)* } }
	slots! { u8; u32; u128; (); char; (u8, u64, u16); Own; Spaced; SizedStr<5>; Box<u16>; Option<Box<u8>>; }
	v.push(("streams", || for n in [0, 1, 4, 30] { streams(n) }));
	v.push(("composites", composites));
	macro_rules! parts { ($($k:literal)*) => { $(v.push((concat!("texts ", $k), || texts($k)));)* } }
	parts!(0 1 2 3 4 5 6 7);
	v
}

pub fn run() -> Mon {
	vcore::mon::parallel(&small(), |&(name, f), m| {
		vcore::crumb!("{name}");
		let r = catch(f);
		let n = ops();
		m.eval(Some(vcore::rng::hash_bytes(name.as_bytes())));
		m.evals += n;
		m.count("direct operations", n);
		if let Err(p) = r { m.violation(&format!("battery {name}"), || format!("{name}: unexpected panic {p}")) }
	})
}
