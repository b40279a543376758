//! C10: slots.
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr, Slot};
use std::borrow::{Borrow, BorrowMut};
use std::fmt::Debug;
use vcore::mon::{catch, hex, parallel, Cfg, Mon};
use vcore::rng::{hash_bytes, Rng};

/// A value with its own idea of its bytes; some fail or panic half-way when encoded.
trait Content: Encode<Error: Debug> + Decode<Error: Debug> + Debug + 'static {
	const NAME: &'static str;
	fn gen(r: &mut Rng) -> Self;
	/// The encoding; `None` for what encoding refuses.
	fn bytes(&self) -> Option<Vec<u8>>;
	/// Whether the bytes should be read as a value, and its encoding (a prefix of them, in canonical form).
	fn parse(b: &[u8]) -> Parsed;
	fn reader(b: &[u8]) -> String { format!("{:?}", catch(|| Self::decode(&mut Input::new(b)).map_err(|e| format!("{e:?}")))) }
}
#[derive(Debug, PartialEq)]
enum Parsed { Value(Vec<u8>), Refused, Short }

/// The number of bytes that the content writes is its first one; it fails on 250 and above.
#[derive(Debug)]
struct Odd(Vec<u8>);
#[derive(Debug)]
struct OddError;
impl Encode for Odd {
	type Error = OddError;
	fn encode(&self, o: &mut Output) -> Result<(), OddError> {
		for b in &self.0 {
			if *b == 250 { return Err(OddError) }
			if *b == 251 { std::panic::resume_unwind(Box::new(vcore::mon::Injected)) }
			let Ok(()) = b.encode(o);
		}
		Ok(())
	}
}
impl Decode for Odd {
	type Error = OddError;
	fn decode(i: &mut Input) -> Result<Self, OddError> {
		// Takes everything that is there.
		let b = i.read(i.remaining()).unwrap();
		if b.iter().any(|b| matches!(b, 250 | 251)) { return Err(OddError) }
		Ok(Self(b.to_vec()))
	}
}
impl Content for Odd {
	const NAME: &'static str = "Odd";
	fn gen(r: &mut Rng) -> Self { let n = r.below(12); Self((0..n).map(|_| if r.chance(1, 20) { 250 + r.below(2) as u8 } else { r.below(240) as u8 }).collect()) }
	fn bytes(&self) -> Option<Vec<u8>> { (!self.0.iter().any(|b| *b == 250 || *b == 251)).then(|| self.0.clone()) }
	fn parse(b: &[u8]) -> Parsed { if b.iter().any(|b| matches!(b, 250 | 251)) { Parsed::Refused } else { Parsed::Value(b.to_vec()) } }
}

fn short(b: &[u8], n: usize) -> Parsed { if b.len() < n { Parsed::Short } else { Parsed::Value(b[..n].to_vec()) } }

impl Content for u32 {
	const NAME: &'static str = "u32";
	fn gen(r: &mut Rng) -> Self { r.edgy(32) as u32 }
	fn bytes(&self) -> Option<Vec<u8>> { Some(self.to_le_bytes().to_vec()) }
	fn parse(b: &[u8]) -> Parsed { short(b, 4) }
}
impl Content for () {
	const NAME: &'static str = "()";
	fn gen(_: &mut Rng) -> Self {}
	fn bytes(&self) -> Option<Vec<u8>> { Some(Vec::new()) }
	fn parse(b: &[u8]) -> Parsed { short(b, 0) }
}
impl Content for char {
	const NAME: &'static str = "char";
	fn gen(r: &mut Rng) -> Self { *r.pick(&['a', '\u{0}', '漢', '\u{10FFFF}', 'ß']) }
	fn bytes(&self) -> Option<Vec<u8>> { Some((*self as u32).to_le_bytes().to_vec()) }
	fn parse(b: &[u8]) -> Parsed {
		if b.len() < 4 { return Parsed::Short }
		let v = u32::from_le_bytes(b[..4].try_into().unwrap());
		if char::from_u32(v).is_some() { short(b, 4) } else { Parsed::Refused }
	}
}
impl Content for usize {
	const NAME: &'static str = "usize";
	fn gen(r: &mut Rng) -> Self { if r.chance(1, 4) { 65_536 + r.below(10) } else { r.below(65_536) } }
	fn bytes(&self) -> Option<Vec<u8>> { u16::try_from(*self).ok().map(|v| v.to_le_bytes().to_vec()) }
	fn parse(b: &[u8]) -> Parsed { short(b, 2) }
}
impl Content for String {
	const NAME: &'static str = "String";
	fn gen(r: &mut Rng) -> Self { let n = r.below(9); (0..n).map(|_| *r.pick(&['a', 'b', 'ç', '漢', '𝄞'])).collect() }
	fn bytes(&self) -> Option<Vec<u8>> { let mut v = (self.len() as u16).to_le_bytes().to_vec(); v.extend(self.as_bytes()); Some(v) }
	fn parse(b: &[u8]) -> Parsed {
		if b.len() < 2 { return Parsed::Short }
		let n = u16::from_le_bytes([b[0], b[1]]) as usize;
		if b.len() < 2 + n { return Parsed::Short }
		if std::str::from_utf8(&b[2..2 + n]).is_err() { Parsed::Refused } else { short(b, 2 + n) }
	}
}
impl Content for SizedStr<6> {
	const NAME: &'static str = "SizedStr<6>";
	fn gen(r: &mut Rng) -> Self { let s = String::gen(r); s.chars().collect() }
	fn bytes(&self) -> Option<Vec<u8>> { self.as_str().to_string().bytes() }
	fn parse(b: &[u8]) -> Parsed {
		// A count that exceeds the capacity as well as the source may be refused for either reason.
		match String::parse(b) { Parsed::Value(v) if v.len() > 8 => Parsed::Refused, p => p }
	}
}
impl Content for Vec<u16> {
	const NAME: &'static str = "Vec<u16>";
	fn gen(r: &mut Rng) -> Self { let n = r.below(7); (0..n).map(|_| r.edgy(16) as u16).collect() }
	fn bytes(&self) -> Option<Vec<u8>> { let mut v = (self.len() as u16).to_le_bytes().to_vec(); for x in self { v.extend(x.to_le_bytes()) } Some(v) }
	fn parse(b: &[u8]) -> Parsed { if b.len() < 2 { Parsed::Short } else { short(b, 2 + 2 * u16::from_le_bytes([b[0], b[1]]) as usize) } }
}
impl Content for SizedSlice<u64, 3> {
	const NAME: &'static str = "SizedSlice<u64, 3>";
	fn gen(r: &mut Rng) -> Self { let n = r.below(4); (0..n).map(|_| r.edgy(64) as u64).collect() }
	fn bytes(&self) -> Option<Vec<u8>> { let mut v = (self.len() as u16).to_le_bytes().to_vec(); for x in self { v.extend(x.to_le_bytes()) } Some(v) }
	fn parse(b: &[u8]) -> Parsed {
		if b.len() < 2 { return Parsed::Short }
		let n = u16::from_le_bytes([b[0], b[1]]) as usize;
		match short(b, 2 + 8 * n) { Parsed::Value(_) if n > 3 => Parsed::Refused, p => p }
	}
}
impl Content for Option<u16> {
	const NAME: &'static str = "Option<u16>";
	fn gen(r: &mut Rng) -> Self { r.chance(1, 2).then(|| r.u64() as u16) }
	fn bytes(&self) -> Option<Vec<u8>> { Some(match self { None => vec![0], Some(v) => vec![1, *v as u8, (*v >> 8) as u8] }) }
	fn parse(b: &[u8]) -> Parsed { match b.first() { None => Parsed::Short, Some(0) => short(b, 1), Some(_) => match short(b, 3) { Parsed::Value(mut v) => { v[0] = 1; Parsed::Value(v) } x => x } } }
}

/// What is known about a slot.
struct Model { buf: Vec<u8>, len: usize }

struct Machine<'a, T: Content> { r: &'a mut Rng, m: &'a mut Mon, s: Slot<T>, k: Model, trace: Vec<String>, base: *const u8 }

type Fault = (String, String);

impl<T: Content> Machine<'_, T> {
	fn note(&mut self, s: String) { vcore::step!(T::NAME, s, format!("slot: {}", self.trace.join("; "))); self.trace.push(s) }

	/// Every view against the model. `loose` is the range of bytes that a refused write may have changed.
	fn check(&mut self) -> Result<(), Fault> {
		let Model { buf, len } = &self.k;
		let (len, cap) = (*len, buf.len());
		let s = &mut self.s;
		macro_rules! want { ($e:expr, $($f:tt)*) => { if !$e { return Err(({ let s = format!($($f)*); s.split(" is").next().unwrap().to_string() }, format!($($f)*))) } } }
		want!(s.capacity() == cap, "capacity is {} instead of {cap}", s.capacity());
		want!(s.len() == len, "len is {} instead of {len}", s.len());
		want!(s.is_empty() == (len == 0), "is_empty is {}", s.is_empty());
		want!(s.is_full() == (len == cap), "is_full is {}", s.is_full());
		let used = &buf[..len];
		want!(s.as_slice() == used, "as_slice is {} instead of {}", hex(s.as_slice()), hex(used));
		want!(s.as_ptr() == self.base && s.as_mut_ptr().cast_const() == self.base, "as_ptr is elsewhere");
		want!(AsRef::<[u8]>::as_ref(s) == used, "as_ref is {}", hex(s.as_ref()));
		want!(Borrow::<[u8]>::borrow(s) == used, "borrow is another");
		want!(**s == *used, "deref is {}", hex(s));
		want!(&s[..] == used, "index by .. is {}", hex(&s[..]));
		want!(format!("{s:?}") == format!("{used:?}"), "Debug is {s:?} instead of {used:?}");
		let mut o = used.to_vec();
		match self.r.below(4) { 0 => { o.pop(); } 1 => o.push(0), 2 => if let Some(x) = o.last_mut() { *x ^= 1 }, _ => {} }
		let eq = o == used;
		want!((*s == *o.as_slice()) == eq && (*s == o.as_slice()) == eq && (*s == o.as_mut_slice()) == eq, "comparison is not {eq} for {} and {}", hex(used), hex(&o));
		want!(s.as_mut_slice() == &buf[..], "as_mut_slice is {} instead of {}", hex(s.as_mut_slice()), hex(buf));
		want!(AsMut::<[u8]>::as_mut(s) == &buf[..], "as_mut is another");
		want!(BorrowMut::<[u8]>::borrow_mut(s) == &buf[..], "borrow_mut is another");
		want!((&mut s[..]) == &buf[..], "mutable index by .. is another");
		{ let d: &mut [u8] = &mut *s; want!(d == &buf[..], "deref_mut is another"); }
		let (a, b) = (self.r.range(0, cap + 1), self.r.range(0, cap + 2));
		let g = catch(|| s[a]);
		want!(if a < len { g == Ok(buf[a]) } else { g.is_err() }, "index is {g:?} at {a} of {len}");
		let g = catch(|| s[a..b].to_vec());
		want!(if a <= b && b <= len { g.as_deref() == Ok(&buf[a..b]) } else { g.is_err() }, "range is {g:?} at {a}..{b} of {len}");
		let g = catch(|| { let x: &mut u8 = &mut s[a]; *x });
		want!(if a < cap { g == Ok(buf[a]) } else { g.is_err() }, "mutable index is {g:?} at {a} of {cap}");
		let g = catch(|| { let x: &mut [u8] = &mut s[a..b]; x.to_vec() });
		want!(if a <= b && b <= cap { g.as_deref() == Ok(&buf[a..b]) } else { g.is_err() }, "mutable range is {g:?} at {a}..{b} of {cap}");
		self.m.count("views compared", 17);
		Ok(())
	}

	fn step(&mut self) -> Result<(), Fault> {
		let cap = self.k.buf.len();
		match self.r.below(10) {
			0..=3 => {
				let v = T::gen(self.r);
				let how = self.r.below(3);
				self.note(format!("write {v:?}{}", ["", " by reference", " boxed"][how]));
				let bytes = v.bytes();
				let text = format!("{v:?}");
				let s = &mut self.s;
				let got = match how {
					0 => catch(|| s.write(v).map_err(|e| format!("{e:?}"))),
					1 => catch(|| s.write(&v).map_err(|e| format!("{e:?}"))),
					_ => catch(|| s.write(Box::new(v)).map_err(|e| format!("{e:?}"))),
				};
				match (&got, bytes) {
					(Ok(Ok(())), Some(b)) if b.len() <= cap => {
						self.m.count("writes accepted", 1);
						self.k.buf[..b.len()].copy_from_slice(&b);
						self.k.len = b.len();
						// What was written can be read.
						let got = T::reader(&b);
						let s = &self.s;
						let own = format!("{:?}", catch(|| s.read().map_err(|e| format!("{e:?}"))));
						if !own.contains(&text) || own != got { return Err(("read".into(), format!("{text} was written but {own} was read"))) }
					}
					(Ok(Err(_)) | Err(_), b) if b.as_ref().is_none_or(|b| b.len() > cap) => {
						self.m.count("writes refused", 1);
						if self.s.len() != self.k.len || self.s.capacity() != cap { return Err(("refused write".into(), format!("a refused write of {text} left length {} of {} (before: {} of {cap})", self.s.len(), self.s.capacity(), self.k.len))) }
						// The bytes themselves are unspecified, but all initialised.
						self.k.buf = self.s.as_mut_slice().to_vec();
						if self.k.buf.len() != cap { return Err(("refused write".into(), "a refused write left a view of another length".into())) }
					}
					(g, b) => return Err(("write".into(), format!("writing {text} ({:?} bytes) to a slot of {cap} gave {g:?}", b.map(|b| b.len())))),
				}
			}
			4 => {
				self.note("read".into());
				let used = self.k.buf[..self.k.len].to_vec();
				let s = &self.s;
				let got = format!("{:?}", catch(|| s.read().map_err(|e| format!("{e:?}"))));
				// The same bytes in a source of exactly that size; and what they should mean.
				let want = T::reader(&used);
				let panics = |s: &str| s.starts_with("Err(");
				if panics(&got) != panics(&want) || (!panics(&got) && got != want) { return Err(("read".into(), format!("{} was read as {got} rather than {want}", hex(&used)))) }
				let p = T::parse(&used);
				let ok = match &p { Parsed::Value(_) => got.starts_with("Ok(Ok("), Parsed::Refused => got.starts_with("Ok(Err("), Parsed::Short => !got.starts_with("Ok(Ok(") };
				if !ok { return Err(("read".into(), format!("{} was read as {got} rather than {p:?}", hex(&used)))) }
				self.m.count(match p { Parsed::Value(_) => "reads of values", Parsed::Refused => "reads refused", Parsed::Short => "reads beyond the used bytes" }, 1);
				// And what was read can be written again.
				if let (Parsed::Value(b), Ok(Ok(v))) = (&p, catch(|| self.s.read())) {
					self.note("write what was read".into());
					match catch(|| self.s.write(v)) { Ok(Ok(())) => { self.k.buf[..b.len()].copy_from_slice(b); self.k.len = b.len() } x => return Err(("write".into(), format!("writing what was read gave {x:?}"))) }
				}
			}
			5 => {
				let n = match self.r.below(4) { 0 => cap, 1 => cap + 1 + self.r.below(3), _ => self.r.range(0, cap) };
				// Often something that has a meaning.
				let mut d = self.r.bytes(n);
				if self.r.chance(2, 3) { if let Some(b) = T::gen(self.r).bytes() { let k = b.len().min(n); d[..k].copy_from_slice(&b[..k]) } }
				self.note(format!("copy_from_slice {}", hex(&d)));
				let s = &mut self.s;
				match catch(|| s.copy_from_slice(&d)) {
					Ok(()) if n <= cap => { self.k.buf[..n].copy_from_slice(&d); self.k.len = n }
					Err(_) if n > cap => self.m.count("long copies refused", 1),
					x => return Err(("copy_from_slice".into(), format!("copying {n} bytes into a slot of {cap} gave {x:?}"))),
				}
			}
			6 | 7 => {
				let n = match self.r.below(6) { 0 => cap, 1 => cap + 1 + self.r.below(3), 2 => usize::MAX, _ => self.r.range(0, cap) };
				self.note(format!("set_len {n}"));
				let s = &mut self.s;
				match catch(|| s.set_len(n)) {
					Ok(()) if n <= cap => self.k.len = n,
					Err(_) if n > cap => self.m.count("long lengths refused", 1),
					x => return Err(("set_len".into(), format!("setting a length of {n} on a slot of {cap} gave {x:?}"))),
				}
			}
			8 => {
				let n = self.r.range(0, cap);
				self.note(format!("set_len_unchecked {n}"));
				// SAFETY: Within the capacity.
				unsafe { self.s.set_len_unchecked(n) };
				self.k.len = n;
			}
			_ => {
				if cap == 0 { return Ok(()) }
				let i = self.r.below(cap);
				let v = self.r.u64() as u8;
				let how = self.r.below(7);
				self.note(format!("change byte {i} to {v} ({how})"));
				let s = &mut self.s;
				match how {
					0 => s.as_mut_slice()[i] = v,
					1 => s[i] = v,
					2 => s[i..=i][0] = v,
					3 => AsMut::<[u8]>::as_mut(s)[i] = v,
					4 => BorrowMut::<[u8]>::borrow_mut(s)[i] = v,
					5 => { let d: &mut [u8] = &mut *s; d[i] = v }
					// SAFETY: Within the buffer.
					_ => unsafe { *s.as_mut_ptr().add(i) = v },
				}
				self.k.buf[i] = v;
			}
		}
		Ok(())
	}
}

fn history<T: Content>(r: &mut Rng, m: &mut Mon, steps: usize, long: bool) -> Option<(Fault, String)> {
	let cap = if long { m.count("large slots", 1); match r.below(4) { 0 => r.range(65, 300), 1 => r.range(250, 5000), _ => *r.pick(&[127, 128, 255, 256, 257, 511, 1000, 1025, 4095, 4097]) } }
		else { match r.below(5) { 0 => r.below(3), 1 => r.below(8), 2 => 64, _ => r.below(24) } };
	let (s, k, how): (Slot<T>, Model, String) = if r.chance(2, 3) {
		(Slot::with_capacity(cap), Model { buf: vec![0; cap], len: 0 }, format!("with_capacity {cap}"))
	} else {
		let buf = r.bytes(cap);
		let len = r.range(0, cap);
		let how = format!("from_raw_parts {} {len}", hex(&buf));
		let p = Box::into_raw(buf.clone().into_boxed_slice());
		// SAFETY: This is the allocation of a boxed slice, and all is initialised.
		(unsafe { Slot::from_raw_parts(p.cast(), cap, len) }, Model { buf, len }, how)
	};
	let base = s.as_ptr();
	let mut x = Machine { r, m, s, k, trace: vec![how], base };
	for _ in 0..steps {
		let r = x.step().and_then(|()| x.check());
		let h = hash_bytes(&x.k.buf) ^ vcore::hash_fmt!("{} {}", T::NAME, x.k.len);
		x.m.eval((x.k.len > 0).then_some(h));
		if let Err(f) = r { return Some((f, x.trace.join("; "))) }
	}
	x.m.count("histories", 1);
	let t = x.trace.join("; ");
	x.m.sample(|| format!("Slot<{}>: {t}", T::NAME));
	None
}

/// Exactly as many bytes as were asked for.
fn capacities(m: &mut Mon) {
	for c in (0..if cfg!(miri) { 20 } else { 2100 }).chain([4095, 4096, 4097, 65534, 65535, 65536, 65537, 100_003, 1_000_001]) {
		if cfg!(miri) && c > 5000 { break }
		let mut s = Slot::<u32>::with_capacity(c);
		m.eval(Some(c as u64));
		let got = (s.capacity(), s.len(), s.as_mut_slice().len(), s.as_mut_slice().iter().all(|b| *b == 0), s.is_full());
		if got != (c, 0, c, true, c == 0) { m.violation("with_capacity", || format!("a slot made for {c} bytes has (capacity, length, bytes, zero, full) {got:?}")) }
		let all = vec![7; c];
		s.copy_from_slice(&all);
		let over = catch(|| s.copy_from_slice(&vec![8; c + 1]));
		if s.as_slice() != all || !s.is_full() || over.is_ok() { m.violation("exact capacity", || format!("a slot made for {c} bytes that was filled holds {} of them; one more: {over:?}", s.len())) }
		m.count("capacities swept", 1);
	}
}

/// The capacity that a type advertises.
fn advertised<T: SizedEncode + Encode>(m: &mut Mon, name: &str, want: usize) {
	for s in [Slot::<T>::new(), Slot::default()] {
		m.eval(Some(hash_bytes(name.as_bytes())));
		if s.capacity() != want || !s.is_empty() || s.len() != 0 { m.violation(&format!("new {name}"), || format!("Slot::<{name}>::new() has capacity {} (instead of {want}) and length {}", s.capacity(), s.len())) }
	}
}

pub fn run(cfg: &Cfg) -> Mon {
	type F = fn(&mut Rng, &mut Mon, usize, bool) -> Option<(Fault, String)>;
	fn job<T: Content>() -> (&'static str, F) { (T::NAME, history::<T>) }
	let kinds = [job::<u32>(), job::<()>(), job::<char>(), job::<usize>(), job::<String>(), job::<SizedStr<6>>(), job::<Vec<u16>>(), job::<SizedSlice<u64, 3>>(), job::<Option<u16>>(), job::<Odd>()];
	let jobs: Vec<((&str, F), usize)> = kinds.iter().flat_map(|k| (0..8).map(move |i| (*k, i))).collect();
	let n = cfg.n(60, 4000);
	let mut m = parallel(&jobs, |&((name, f), j), m| {
		for i in 0..n {
			let mut r = Rng::sub(cfg.seed, &format!("C10 {name} {j} {i}"));
			match catch(|| f(&mut r, m, if cfg!(miri) { 8 } else { 30 }, i % 12 == 11 && !cfg!(miri))) {
				Ok(None) => {}
				Ok(Some(((c, d), t))) => m.violation(&format!("{c} Slot<{name}>"), || format!("Slot<{name}>: {d}; history: {t}")),
				Err(p) => m.violation(&format!("panic Slot<{name}>"), || format!("Slot<{name}>, history {j}/{i} (seed {}): unexpected panic {p}", cfg.seed)),
			}
		}
	});
	advertised::<u32>(&mut m, "u32", 4);
	advertised::<()>(&mut m, "()", 0);
	advertised::<SizedStr<6>>(&mut m, "SizedStr<6>", 8);
	advertised::<Option<u16>>(&mut m, "Option<u16>", 3);
	advertised::<[u16; 3]>(&mut m, "[u16; 3]", 6);
	capacities(&mut m);
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
