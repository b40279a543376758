//! Random histories over sized strings, judged by plain strings.

use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::error::StringError;
use oct::{SizedSlice, SizedStr};
use std::borrow::{Borrow, BorrowMut};
use std::ffi::OsStr;
use std::net::ToSocketAddrs;
use std::path::Path;
use vcore::mon::{catch, hex, Mon};
use vcore::rng::{hash_bytes, Rng};

use crate::slices::std_hash;

/// A source's text or its refusal, in comparable form.
#[derive(Debug, PartialEq, Clone)]
pub enum Made { Text(String), Long { cap: usize, len: usize }, Bad { value: u8, index: usize }, Other(String) }

pub fn made<const N: usize>(r: Result<SizedStr<N>, StringError>) -> Made {
	match r {
		Ok(s) => Made::Text(s.as_str().into()),
		Err(e) => refused(e),
	}
}
pub fn refused(e: StringError) -> Made {
	match e {
		StringError::SmallBuffer(e) => Made::Long { cap: e.capacity, len: e.len },
		StringError::BadUtf8(e) => Made::Bad { value: e.value, index: e.index },
		e => Made::Other(format!("{e:?}")),
	}
}
pub fn want_text(s: &str, cap: usize) -> Made { if s.len() > cap { Made::Long { cap, len: s.len() } } else { Made::Text(s.into()) } }

pub fn text(r: &mut Rng, max: usize) -> String {
	let mut s = String::new();
	let want = match r.below(6) { 0 => 0, 1 => max, 2 => max + 1 + r.below(3), 3 => max.saturating_sub(1), _ => r.range(0, max) };
	let wide = r.chance(1, 2);
	while s.len() < want {
		let c = match r.below(if wide { 10 } else { 4 }) {
			0 => 'a', 1 => (r.below(26) as u8 + b'a') as char, 2 => *r.pick(&[' ', '\t', '0', 'Z', '"', '\\', '\n', '\u{0}', '\u{7F}']), 3 => (r.below(94) as u8 + b'!') as char,
			4 => *r.pick(&['é', 'ß', 'Ж', '\u{80}', '\u{7FF}']), 5 => *r.pick(&['漢', 'ﬀ', '\u{800}', '\u{FFFF}', '\u{D7FF}', '\u{E000}']), 6 => *r.pick(&['𝄞', '\u{10000}', '\u{10FFFF}', '😀']),
			7 => *r.pick(&['İ', 'ı', 'ſ', 'K', '\u{301}', '\u{200D}']),
			_ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'),
		};
		s.push(c);
	}
	s
}

/// The oracle for byte sources, written without `str::from_utf8`: the first malformed position.
pub fn malformed(b: &[u8]) -> Option<usize> {
	let mut i = 0;
	while i < b.len() {
		let c = b[i];
		let (n, lo, hi) = match c {
			0..=0x7F => (0, 0, 0),
			0xC2..=0xDF => (1, 0x80, 0xBF),
			0xE0 => (2, 0xA0, 0xBF),
			0xED => (2, 0x80, 0x9F),
			0xE1..=0xEF => (2, 0x80, 0xBF),
			0xF0 => (3, 0x90, 0xBF),
			0xF4 => (3, 0x80, 0x8F),
			0xF1..=0xF3 => (3, 0x80, 0xBF),
			_ => return Some(i),
		};
		for j in 0..n {
			let Some(&x) = b.get(i + 1 + j) else { return Some(i) };
			let (lo, hi) = if j == 0 { (lo, hi) } else { (0x80, 0xBF) };
			if x < lo || x > hi { return Some(i) }
		}
		i += 1 + n;
	}
	None
}

pub struct Machine<'a, const N: usize> { r: &'a mut Rng, m: &'a mut Mon, objs: Vec<(SizedStr<N>, String)>, trace: Vec<String>, bad: Option<(String, String)> }

macro_rules! all_eq { ($bad:ident; $($what:literal: $a:expr, $b:expr;)*) => { $( { let (a, b) = (catch(|| $a), catch(|| $b)); let same = match (&a, &b) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false }; if !same { $bad.push(format!("{}: {:?} instead of {:?}", $what, a, b)) } } )* } }

impl<const N: usize> Machine<'_, N> {
	fn note(&mut self, s: String) { vcore::step!("SizedStr", s, format!("{N}: {}", self.trace.join("; "))); self.trace.push(s) }
	fn fail(&mut self, class: &str, d: String) { if self.bad.is_none() { self.bad = Some((class.into(), d)) } }

	fn got(&mut self, what: &str, got: Result<Made, String>, want: Made, s: Option<SizedStr<N>>) {
		match got {
			Ok(g) if g == want => {
				match want {
					Made::Text(t) => { self.m.count("sources accepted", 1); if let Some(s) = s { self.push(s, t) } }
					Made::Long { .. } => self.m.count("long sources refused", 1),
					_ => self.m.count("malformed sources refused", 1),
				}
			}
			g => self.fail(what, format!("{what} gave {g:?} instead of {want:?}")),
		}
	}

	fn push(&mut self, s: SizedStr<N>, t: String) {
		self.objs.push((s, t));
		let i = self.objs.len() - 1;
		self.check(i);
		if self.objs.len() > 3 { let i = self.r.below(3); self.objs.swap_remove(i); }
	}

	fn construct(&mut self) {
		let keep = |r: Result<SizedStr<N>, StringError>| match r { Ok(s) => (Made::Text(s.as_str().to_string()), Some(s)), Err(e) => (refused(e), None) };
		let c = self.r.below(13);
		match c {
			0..=3 => {
				let t = text(self.r, N);
				let what = ["new", "from_str", "try_from a string slice", "try_from a string"][c];
				self.note(format!("{what} {t:?}"));
				let got = catch(|| match c { 0 => SizedStr::new(&t), 1 => t.parse(), 2 => SizedStr::try_from(&t[..]), _ => SizedStr::try_from(t.clone()) });
				let (g, s) = match got { Ok(r) => { let (g, s) = keep(r); (Ok(g), s) } Err(p) => (Err(p), None) };
				self.got(what, g, want_text(&t, N), s);
			}
			4 | 5 => {
				let mut b = text(self.r, N).into_bytes();
				for _ in 0..self.r.below(3) {
					if b.is_empty() { break }
					let i = self.r.below(b.len());
					match self.r.below(4) {
						0 => b[i] = *self.r.pick(&[0x80, 0xBF, 0xC0, 0xC1, 0xE0, 0xED, 0xF0, 0xF4, 0xF5, 0xFF]),
						1 => { b.remove(i); }
						2 => b.truncate(i),
						_ => b[i] ^= 1 << self.r.below(8),
					}
				}
				self.note(format!("from_utf8 {}", hex(&b)));
				let want = if b.len() > N { Made::Long { cap: N, len: b.len() } } else if let Some(i) = malformed(&b) { Made::Bad { value: b[i], index: i } } else { Made::Text(String::from_utf8(b.clone()).unwrap()) };
				let (g, s) = match catch(|| SizedStr::<N>::from_utf8(&b)) { Ok(r) => { let (g, s) = keep2(r); (Ok(g), s) } Err(p) => (Err(p), None) };
				self.got("from_utf8", g, want, s);
			}
			6 => {
				let t = text(self.r, 1);
				let ch = t.chars().next().unwrap_or('\u{0}');
				self.note(format!("try_from {ch:?}"));
				let (g, s) = match catch(|| SizedStr::<N>::try_from(ch)) { Ok(r) => { let (g, s) = keep2(r); (Ok(g), s) } Err(p) => (Err(p), None) };
				self.got("try_from a character", g, want_text(&ch.to_string(), N), s);
			}
			7 | 8 => {
				let mut t = text(self.r, N);
				if self.r.chance(1, 3) { t.push_str(&text(self.r, 6)) }
				let mut want = String::new();
				for c in t.chars() { if want.len() + c.len_utf8() > N { break } want.push(c) }
				self.note(format!("collect {t:?}"));
				if want.len() < t.len() { self.m.count("character sources cut", 1) }
				match catch(|| t.chars().collect::<SizedStr<N>>()) {
					Ok(s) => { if s.as_bytes() != want.as_bytes() { let d = format!("collecting {t:?} gave {} instead of {want:?}", hex(s.as_bytes())); self.fail("collect", d) } else { self.push(s, want) } }
					Err(p) => self.fail("collect", format!("collecting {t:?} panicked: {p}")),
				}
			}
			9 => {
				let t: String = text(self.r, N);
				if t.len() > N { return }
				let mut buf = [0u8; N];
				self.r.fill(&mut buf);
				buf[..t.len()].copy_from_slice(t.as_bytes());
				self.note(format!("from_raw_parts {t:?}"));
				// SAFETY: The first bytes are valid text.
				let s = unsafe { SizedStr::from_raw_parts(buf, t.len()) };
				self.push(s, t);
			}
			10 => {
				let t: String = text(self.r, N);
				if t.len() > N { return }
				self.note(format!("from_utf8_unchecked {t:?}"));
				// SAFETY: Valid text that fits.
				let s = unsafe { SizedStr::from_utf8_unchecked(t.as_bytes()) };
				self.push(s, t);
			}
			11 => { self.note("default".into()); self.push(SizedStr::default(), String::new()) }
			_ => {
				let t = text(self.r, N);
				self.note(format!("decode {t:?}"));
				let mut b = (t.len() as u16).to_le_bytes().to_vec();
				b.extend(t.as_bytes());
				let (g, s) = match catch(|| SizedStr::<N>::decode(&mut Input::new(&b))) {
					Ok(Ok(s)) => (Ok(Made::Text(s.as_str().into())), Some(s)),
					Ok(Err(e)) => (Ok(match e { oct::error::CollectionDecodeError::BadLength(e) => Made::Long { cap: e.capacity, len: e.len }, oct::error::CollectionDecodeError::BadItem(e) => Made::Bad { value: e.value, index: e.index } }), None),
					Err(p) => (Err(p), None),
				};
				self.got("decode", g, want_text(&t, N), s);
			}
		}
	}

	fn check(&mut self, i: usize) {
		if self.bad.is_some() { return }
		let (s, t) = &self.objs[i];
		let mut bad = Vec::new();
		if malformed(s.as_bytes()).is_some() || s.as_bytes() != t.as_bytes() { bad.push(format!("as_bytes: {} instead of {}", hex(s.as_bytes()), hex(t.as_bytes()))) }
		all_eq! { bad;
			"capacity": s.capacity(), N;
			"len": s.len(), t.len();
			"is_empty": s.is_empty(), t.is_empty();
			"is_full": s.is_full(), t.len() == N;
			"as_ptr": s.as_ptr(), s.as_bytes().as_ptr();
		}
		if bad.is_empty() {
			all_eq! { bad;
				"as_str": s.as_str(), &t[..];
				"as_ref str": AsRef::<str>::as_ref(s), &t[..];
				"as_ref bytes": AsRef::<[u8]>::as_ref(s), t.as_bytes();
				"as_ref OsStr": AsRef::<OsStr>::as_ref(s), OsStr::new(t);
				"as_ref Path": AsRef::<Path>::as_ref(s), Path::new(t);
				"borrow": Borrow::<str>::borrow(s), &t[..];
				"deref": &**s, &t[..];
				"chars": s.chars().collect::<Vec<_>>(), t.chars().collect::<Vec<_>>();
				"chars reversed": s.chars().rev().collect::<Vec<_>>(), t.chars().rev().collect::<Vec<_>>();
				"char_indices": s.char_indices().collect::<Vec<_>>(), t.char_indices().collect::<Vec<_>>();
				"Display": format!("{s}"), format!("{t}");
				"Debug": format!("{s:?}"), format!("{t:?}");
				"hash": std_hash(s), std_hash(&t[..]);
				"index by ..": &s[..], &t[..];
				"to_string": s.to_string(), t.clone();
				"eq": *s == &t[..], true;
				"eq with a string": *s == *t, true;
			}
		}
		if bad.is_empty() {
			let (a, b) = (self.r.range(0, t.len() + 2), self.r.range(0, t.len() + 2));
			let (w, p) = (self.r.below(12), self.r.below(6));
			let n = self.r.below(5);
			all_eq! { bad;
				"index by a range": s[a..b].to_string(), t[a..b].to_string();
				"index from": s[a..].to_string(), t[a..].to_string();
				"index to": s[..b].to_string(), t[..b].to_string();
				"inclusive index": s[a..=b].to_string(), t[a..=b].to_string();
				"get": s.get(a..b).map(String::from), t.get(a..b).map(String::from);
				"padded": format!("{s:>w$}"), format!("{t:>w$}");
				"cut": format!("{s:*^w$.p$}"), format!("{t:*^w$.p$}");
				"cut left": format!("{s:-<w$.p$}"), format!("{t:-<w$.p$}");
				"alternate": format!("{s:#}|{s:#?}"), format!("{t:#}|{t:#?}");
				"padded Debug": format!("{s:w$?}"), format!("{t:w$?}");
				"parse": s.parse::<i32>().ok(), t.parse::<i32>().ok();
				"find": s.find('a'), t.find('a');
				"nth character": s.chars().nth(n), t.chars().nth(n);
				"case": s.to_uppercase(), t.to_uppercase();
			}
			self.m.count("views compared", 36);
		}
		let key = vcore::hash_fmt!("{N} {t}");
		self.m.eval((!t.is_empty()).then_some(key));
		if !bad.is_empty() { let d = format!("of a sized string that should be {t:?}: {}", bad.join("; ")); let c = format!("view {}", bad[0].split(':').next().unwrap()); self.fail(&c, d) }
	}

	fn mutate(&mut self, i: usize) {
		match self.r.below(9) {
			0 => {
				let how = self.r.below(5);
				self.note(format!("change the case of {i} ({how})"));
				let (s, t) = &mut self.objs[i];
				match how {
					0 => s.make_ascii_uppercase(),
					1 => s.as_mut_str().make_ascii_uppercase(),
					2 => AsMut::<str>::as_mut(s).make_ascii_uppercase(),
					3 => BorrowMut::<str>::borrow_mut(s).make_ascii_uppercase(),
					_ => s[..].make_ascii_uppercase(),
				}
				t.make_ascii_uppercase();
			}
			1 => {
				let n = self.objs[i].1.len();
				let (a, b) = (self.r.range(0, n + 1), self.r.range(0, n + 1));
				self.note(format!("lower {i} in {a}..{b}"));
				let (s, t) = &mut self.objs[i];
				let x = catch(|| s[a..b].make_ascii_lowercase());
				let y = catch(|| t[a..b].make_ascii_lowercase());
				if x.is_ok() != y.is_ok() { let d = format!("a mutable index by {a}..{b} of {t:?} gave {x:?} instead of {y:?}"); self.fail("index_mut", d) }
			}
			2 => {
				self.note(format!("clone {i}"));
				let (s, t) = &self.objs[i];
				let (s, t) = (s.clone(), t.clone());
				self.push(s, t);
			}
			3 => {
				let c = self.r.below(5);
				self.note(format!("convert {i} ({c})"));
				let (s, t) = self.objs.swap_remove(i);
				let got: String = match c { 0 => s.into_string(), 1 => s.into_boxed_str().into_string(), 2 => String::from(s), 3 => Box::<str>::from(s).into_string(), _ => String::from_utf8_lossy(&s.into_bytes().into_vec()).into_owned() };
				if got != t { self.fail("convert", format!("{t:?} became {got:?} (conversion {c})")) }
				return;
			}
			4 => {
				self.note(format!("into_raw_parts of {i}"));
				let (s, t) = self.objs.swap_remove(i);
				let (buf, len) = s.into_raw_parts();
				if len != t.len() || &buf[..len] != t.as_bytes() { self.fail("into_raw_parts", format!("{t:?} became {} and {len}", hex(&buf))); return }
				// Every byte is initialised.
				let sum: u64 = buf.iter().map(|b| u64::from(*b)).sum();
				self.m.count("bytes of raw parts read", sum.min(1) + buf.len() as u64);
				// SAFETY: These came from a sized string.
				self.push(unsafe { SizedStr::from_raw_parts(buf, len) }, t);
				return;
			}
			5 => {
				self.note(format!("into_bytes of {i}"));
				let (s, t) = self.objs.swap_remove(i);
				let b: SizedSlice<u8, N> = s.into_bytes();
				if b.as_slice() != t.as_bytes() || b.capacity() != N { self.fail("into_bytes", format!("{t:?} became {b:?}")); return }
				match made(SizedStr::<N>::from_utf8(&b)) { Made::Text(x) if x == t => {} x => self.fail("from_utf8", format!("the bytes of {t:?} gave {x:?}")) }
				return;
			}
			6 => {
				self.note(format!("encode {i}"));
				let (s, t) = &self.objs[i];
				let mut buf = vec![0; N + 4];
				let mut o = Output::new(&mut buf);
				let ok = matches!(catch(|| s.encode(&mut o).is_ok()), Ok(true));
				let mut want = (t.len() as u16).to_le_bytes().to_vec();
				want.extend(t.as_bytes());
				if !ok || o.as_slice() != want { let d = format!("{t:?} was encoded as {}", hex(o.as_slice())); self.fail("encode", d) }
			}
			7 => {
				let p = self.objs[i].0.as_mut_ptr();
				if p.cast_const() != self.objs[i].0.as_ptr() { self.fail("as_mut_ptr", "as_mut_ptr and as_ptr differ".into()) }
				self.compare(i);
			}
			_ => self.compare(i),
		}
		if self.bad.is_none() && i < self.objs.len() { self.check(i) }
	}

	fn compare(&mut self, i: usize) {
		let (s, t) = &self.objs[i];
		let mut o = t.clone();
		match self.r.below(5) { 0 => { o.pop(); } 1 => o.push('a'), 2 => o = text(self.r, N.min(8)), 3 => { let c = o.pop(); o.push(if c == Some('b') { 'c' } else { 'b' }) } _ => {} }
		let (a, b) = (&t[..], &o[..]);
		let mut bad = Vec::new();
		all_eq! { bad;
			"eq with text": *s == b, a == b;
			"eq with a string": *s == o, a == b;
			"partial_cmp with text": s.partial_cmp(&b), a.partial_cmp(b);
			"partial_cmp with a string": s.partial_cmp(&o), a.partial_cmp(b);
		}
		if b.len() <= N {
			let x = SizedStr::<N>::new(b).unwrap();
			all_eq! { bad; "cmp": s.cmp(&x), a.cmp(b); "eq": *s == x, a == b; "partial_cmp": s.partial_cmp(&x), a.partial_cmp(b); }
		}
		if b.len() <= 21 {
			let x = SizedStr::<21>::new(b).unwrap();
			all_eq! { bad; "eq with another capacity": *s == x, a == b; "eq from another capacity": x == *s, a == b; "partial_cmp with another capacity": s.partial_cmp(&x), a.partial_cmp(b); "equal hashes": std_hash(s) == std_hash(&x), std_hash(a) == std_hash(b); }
		}
		self.m.count("comparisons", 1);
		if !bad.is_empty() { let d = format!("{t:?} and {o:?}: {}", bad.join("; ")); self.fail("compare", d) }
	}
}

fn keep2<const N: usize>(r: Result<SizedStr<N>, StringError>) -> (Made, Option<SizedStr<N>>) {
	match r { Ok(s) => (Made::Text(String::from_utf8_lossy(s.as_bytes()).into_owned()), Some(s)), Err(e) => (refused(e), None) }
}

pub fn history<const N: usize>(r: &mut Rng, m: &mut Mon, steps: usize) -> Option<(String, String)> {
	let mut x = Machine::<N> { r, m, objs: Vec::new(), trace: Vec::new(), bad: None };
	for _ in 0..steps {
		if x.bad.is_some() { break }
		if x.objs.is_empty() || x.r.chance(2, 5) { x.construct() } else { let i = x.r.below(x.objs.len()); x.mutate(i) }
	}
	x.m.count("histories", 1);
	x.m.count("steps", x.trace.len() as u64);
	if x.m.want_sample() { let t = x.trace.iter().take(5).cloned().collect::<Vec<_>>().join("; "); x.m.sample(|| format!("SizedStr<{N}>: {t}; …")) }
	let n = x.trace.len();
	x.bad.map(|(c, d)| (format!("{c} SizedStr<{N}>"), format!("SizedStr<{N}>: {d}; history (last of {n} steps): {}", x.trace[n.saturating_sub(10)..].join("; "))))
}

/// Addresses, without any name to resolve.
pub fn sockets(m: &mut Mon) {
	for t in ["127.0.0.1:80", "[::1]:65535", "0.0.0.0:0", "255.255.255.255:1", "[2001:db8::1]:443"] {
		let s = SizedStr::<40>::new(t).unwrap();
		let got = s.to_socket_addrs().map(|i| i.collect::<Vec<_>>()).map_err(|e| e.kind());
		let want = t.to_socket_addrs().map(|i| i.collect::<Vec<_>>()).map_err(|e| e.kind());
		m.eval(Some(hash_bytes(t.as_bytes())));
		if got != want { m.violation("to_socket_addrs", || format!("{t:?} resolved to {got:?} instead of {want:?}")) }
	}
}

pub type Job = (usize, fn(&mut Rng, &mut Mon, usize) -> Option<(String, String)>);
pub fn jobs() -> Vec<Job> {
	macro_rules! j { ($($n:literal),*) => { vec![$(($n, history::<$n> as _)),*] } }
	j!(0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 21, 64, 255, 256, 300)
}

pub fn run_jobs(cfg: &vcore::mon::Cfg, prop: &str, n: usize, steps: usize) -> Mon {
	vcore::mon::parallel(&jobs(), |&(cap, f), m| {
		if cfg!(miri) && cap > 20 { return }
		if cfg.only.as_ref().is_some_and(|o| *o != cap.to_string()) { return }
		for i in 0..n {
			let mut r = Rng::sub(cfg.seed, &format!("{prop} str {cap} {i}"));
			match catch(|| f(&mut r, m, steps)) {
				Ok(None) => {}
				Ok(Some((c, d))) => m.violation(&c, || d),
				Err(p) => m.violation(&format!("panic SizedStr<{cap}>"), || format!("SizedStr<{cap}>: unexpected panic in history {i} (seed {}): {p}", cfg.seed)),
			}
		}
	})
}
