//! C20: equality, ordering and hashing.
use oct::{SizedSlice, SizedStr};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use vcore::mon::{catch, parallel, Cfg, Mon};
use vcore::rng::{hash_bytes, Rng};
use vh::slices::std_hash;
use vh::strs::text;

/// Order matters, also of the kinds and borders of what is hashed.
#[derive(Default)]
struct Recorder(Vec<u8>);
impl Hasher for Recorder {
	fn finish(&self) -> u64 { hash_bytes(&self.0) }
	fn write(&mut self, b: &[u8]) { self.0.push(0xB0); self.0.extend((b.len() as u32).to_le_bytes()); self.0.extend(b) }
	fn write_u8(&mut self, v: u8) { self.0.push(0xB1); self.0.push(v) }
	fn write_usize(&mut self, v: usize) { self.0.push(0xB2); self.0.extend(v.to_le_bytes()) }
}
fn recorded<T: Hash + ?Sized>(v: &T) -> Vec<u8> { let mut r = Recorder::default(); v.hash(&mut r); r.0 }

/// A hasher that puts everything into few places, so that equality decides.
#[derive(Default)]
struct Weak(u64);
impl Hasher for Weak { fn finish(&self) -> u64 { self.0 & 3 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x)) } } }

macro_rules! same { ($m:ident, $ctx:expr; $($what:literal: $a:expr, $b:expr;)*) => { $( { let (a, b) = ($a, $b); if a != b { let c = $ctx; $m.violation(&format!("{} {}", $what, c.0), || format!("{}: {}: {} gave {a:?} instead of {b:?}", c.0, c.1, $what)) } } )* } }

fn pair<T: PartialEq + PartialOrd + Clone + Debug, const N: usize, const M: usize>(name: &str, a: &[T], b: &[T], m: &mut Mon) {
	let (Ok(x), Ok(y)) = (SizedSlice::<T, N>::new(a), SizedSlice::<T, M>::new(b)) else { return };
	let ctx = || (format!("SizedSlice<{name}, {N}> and <{name}, {M}>"), format!("{a:?} and {b:?}"));
	same! { m, ctx();
		"==": x == y, a == b;
		"!=": x != y, a != b;
		"== swapped": y == x, b == a;
		"partial_cmp": x.partial_cmp(&y), a.partial_cmp(b);
		"<": x < y, a < b;
		"<=": x <= y, a <= b;
		">": x > y, a > b;
		">=": x >= y, a >= b;
		"== slice": x == b, a == b;
		"partial_cmp slice": x.partial_cmp(&b), a.partial_cmp(b);
		"== vector": x == b.to_vec(), a == b;
		"partial_cmp vector": x.partial_cmp(&b.to_vec()), a.partial_cmp(b);
	}
	// Compared with itself, in place, also with parts of itself; the wrapper may not take identity for equality.
	let s = x.as_slice();
	same! { m, ctx();
		"== itself": x == x, a == a; "!= itself": x != x, a != a; "partial_cmp itself": x.partial_cmp(&x), a.partial_cmp(a);
		"== its slice": x == s, a == a; "partial_cmp its slice": x.partial_cmp(&s), a.partial_cmp(a);
		"== another in its place": x == x.clone(), a == a;
	}
	if let Some(p) = a.len().checked_sub(1) { same! { m, ctx(); "== its prefix": x == &s[..p], false; "partial_cmp its prefix": x.partial_cmp(&&s[..p]), a.partial_cmp(&a[..p]); "partial_cmp its end": x.partial_cmp(&&s[1..]), a.partial_cmp(&a[1..]); } }
	macro_rules! arr { ($($k:literal)*) => { $( if let Ok(r) = <[T; $k]>::try_from(b.to_vec()) { same! { m, ctx(); "== array": x == r, a == b; "partial_cmp array": x.partial_cmp(&r), a.partial_cmp(b); } } )* } }
	arr!(0 1 2 3 4 5);
	m.eval(Some(vcore::hash_fmt!("{name} {N} {M} {a:?} {b:?}")));
	m.count("pairs compared", 1);
	match a.partial_cmp(b) { Some(Ordering::Equal) => m.count("equal pairs", 1), None => m.count("unordered pairs", 1), _ => {} }
}

fn keys<T: Eq + Ord + Hash + Clone + Debug, const N: usize, const M: usize>(name: &str, a: &[T], b: &[T], m: &mut Mon) {
	let (Ok(x), Ok(y)) = (SizedSlice::<T, N>::new(a), SizedSlice::<T, M>::new(b)) else { return };
	let ctx = || (format!("SizedSlice<{name}, {N}> and <{name}, {M}>"), format!("{a:?} and {b:?}"));
	same! { m, ctx();
		"recorded hash": recorded(&x), recorded(a);
		"hash": std_hash(&x), std_hash(a);
		"hash of the borrowed form": std_hash::<[T]>(x.borrow()), std_hash(&x);
		"hash of another capacity": std_hash(&y) == std_hash(&x), std_hash(b) == std_hash(a);
	}
	if let Ok(z) = SizedSlice::<T, N>::new(b) {
		same! { m, ctx(); "cmp": x.cmp(&z), a.cmp(b); "max": x.clone().max(z.clone()).to_vec(), a.max(b).to_vec(); "min": x.clone().min(z).to_vec(), a.min(b).to_vec(); }
	}
	m.count("hashes compared", 3);
}

/// Collections keyed by sized slices against those keyed by vectors.
fn maps<T: Eq + Ord + Hash + Clone + Debug, const N: usize>(name: &str, pool: &[Vec<T>], r: &mut Rng, m: &mut Mon) {
	let mut h: HashMap<SizedSlice<T, N>, usize> = HashMap::new();
	let mut w: HashMap<SizedSlice<T, N>, usize, BuildHasherDefault<Weak>> = HashMap::default();
	let mut b: BTreeMap<SizedSlice<T, N>, usize> = BTreeMap::new();
	let mut hs: HashSet<SizedSlice<T, N>> = HashSet::new();
	let mut bs: BTreeSet<SizedSlice<T, N>> = BTreeSet::new();
	let mut k: BTreeMap<Vec<T>, usize> = BTreeMap::new();
	for i in 0..if cfg!(miri) { 3 } else { 40 } {
		let key = &pool[r.below(pool.len())][..];
		let Ok(s) = SizedSlice::<T, N>::new(key) else { continue };
		let ctx = || (format!("collections keyed by SizedSlice<{name}, {N}>"), format!("step {i}, key {key:?}"));
		if r.chance(3, 5) {
			let old = k.insert(key.to_vec(), i);
			same! { m, ctx(); "insert": [h.insert(s.clone(), i), w.insert(s.clone(), i), b.insert(s.clone(), i)], [old; 3]; "set insert": [hs.insert(s.clone()), bs.insert(s)], [old.is_none(); 2]; }
		} else if r.chance(1, 2) {
			let old = k.remove(key);
			same! { m, ctx(); "remove": [h.remove(key), w.remove(key), b.remove(key)], [old; 3]; "set remove": [hs.remove(key), bs.remove(key)], [old.is_some(); 2]; }
		}
		let want = k.get(key);
		same! { m, ctx(); "get": [h.get(key), w.get(key), b.get(key)], [want; 3]; "contains": [hs.contains(key), bs.contains(key)], [want.is_some(); 2]; "len": [h.len(), w.len(), b.len(), hs.len(), bs.len()], [k.len(); 5]; }
		m.count("lookups", 5);
		m.eval(Some(vcore::hash_fmt!("map {name} {N} {key:?} {}", k.len())));
	}
	let order: Vec<Vec<T>> = b.keys().map(|s| s.to_vec()).collect();
	same! { m, (format!("collections keyed by SizedSlice<{name}, {N}>"), "at the end".to_string()); "order": order, k.keys().cloned().collect::<Vec<_>>(); }
}

fn strings<const N: usize, const M: usize>(a: &str, b: &str, m: &mut Mon) {
	let (Ok(x), Ok(y)) = (SizedStr::<N>::new(a), SizedStr::<M>::new(b)) else { return };
	let ctx = || (format!("SizedStr<{N}> and <{M}>"), format!("{a:?} and {b:?}"));
	let t = x.as_str();
	same! { m, ctx(); "== itself": x == x, true; "partial_cmp itself": x.partial_cmp(&x), Some(Ordering::Equal); "cmp itself": x.cmp(&x), Ordering::Equal; "== its text": x == t, true; "partial_cmp its text": x.partial_cmp(&t), Some(Ordering::Equal); }
	for k in (0..t.len()).filter(|&k| t.is_char_boundary(k)) { same! { m, ctx(); "== its prefix": x == &t[..k], false; "partial_cmp its prefix": x.partial_cmp(&&t[..k]), Some(Ordering::Greater); } }
	let o = b.to_string();
	same! { m, ctx();
		"==": x == y, a == b; "!=": x != y, a != b; "partial_cmp": x.partial_cmp(&y), a.partial_cmp(b);
		"<": x < y, a < b; "<=": x <= y, a <= b; ">": x > y, a > b; ">=": x >= y, a >= b;
		"== text": x == b, a == b; "!= text": x != b, a != b; "partial_cmp text": x.partial_cmp(&b), a.partial_cmp(b);
		"== string": x == o, a == b; "partial_cmp string": x.partial_cmp(&o), a.partial_cmp(b);
		"recorded hash": recorded(&x), recorded(a); "hash": std_hash(&x), std_hash(a); "hash of the borrowed form": std_hash::<str>(x.borrow()), std_hash(&x);
	}
	if let Ok(z) = SizedStr::<N>::new(b) { same! { m, ctx(); "cmp": x.cmp(&z), a.cmp(b); } }
	m.eval((!a.is_empty()).then(|| vcore::hash_fmt!("str {N} {M} {a} {b}")));
	m.count("pairs of text", 1);
}

fn string_maps<const N: usize>(pool: &[String], r: &mut Rng, m: &mut Mon) {
	let mut h: HashMap<SizedStr<N>, usize> = HashMap::new();
	let mut w: HashMap<SizedStr<N>, usize, BuildHasherDefault<Weak>> = HashMap::default();
	let mut b: BTreeMap<SizedStr<N>, usize> = BTreeMap::new();
	let mut k: BTreeMap<String, usize> = BTreeMap::new();
	for i in 0..if cfg!(miri) { 3 } else { 40 } {
		let key = &pool[r.below(pool.len())][..];
		let Ok(s) = SizedStr::<N>::new(key) else { continue };
		let ctx = || (format!("collections keyed by SizedStr<{N}>"), format!("step {i}, key {key:?}"));
		if r.chance(2, 3) { let old = k.insert(key.into(), i); same! { m, ctx(); "insert": [h.insert(s.clone(), i), w.insert(s.clone(), i), b.insert(s, i)], [old; 3]; } }
		else { let old = k.remove(key); same! { m, ctx(); "remove": [h.remove(key), w.remove(key), b.remove(key)], [old; 3]; } }
		same! { m, ctx(); "get": [h.get(key), w.get(key), b.get(key)], [k.get(key); 3]; }
		m.count("lookups", 3);
	}
	let order: Vec<String> = b.keys().map(|s| s.as_str().into()).collect();
	same! { m, (format!("collections keyed by SizedStr<{N}>"), "at the end".to_string()); "order": order, k.keys().cloned().collect::<Vec<_>>(); }
}

/// A partner that often is equal, a prefix, or differs in one place.
fn other<T: Clone>(a: &[T], r: &mut Rng, g: impl Fn(&mut Rng) -> T) -> Vec<T> {
	let mut b = a.to_vec();
	match r.below(6) {
		0 => { b.pop(); }
		1 => b.push(g(r)),
		2 if !b.is_empty() => { let i = r.below(b.len()); b[i] = g(r) }
		3 => { let n = r.below(6); b = (0..n).map(|_| g(r)).collect() }
		4 if b.len() > 1 => b.swap(0, 1),
		_ => {}
	}
	b
}

fn round(r: &mut Rng, m: &mut Mon) {
	macro_rules! kind { ($t:ty, $r:ident, $g:expr, $($eq:ident)?) => { if !cfg!(miri) || r.chance(1, 6) {
		let g = |$r: &mut Rng| -> $t { $g };
		let n = r.below(6);
		let a: Vec<$t> = (0..n).map(|_| g(r)).collect();
		let b = other(&a, r, g);
		let name = stringify!($t);
		pair::<$t, 5, 5>(name, &a, &b, m);
		pair::<$t, 5, 9>(name, &a, &b, m);
		pair::<$t, 9, 5>(name, &a, &b, m);
		pair::<$t, 6, 2>(name, &a, &b, m);
		pair::<$t, 1, 300>(name, &a, &b, m);
		pair::<$t, 0, 3>(name, &a, &b, m);
		if r.chance(1, 8) {
			let n = *r.pick(&[7, 9, 16, 17, 31, 33, 64, 65, 128, 255, 256, 257, 290]);
			let a: Vec<$t> = { let some: Vec<$t> = (0..5).map(|_| g(r)).collect(); (0..n).map(|_| r.pick(&some).clone()).collect() };
			let mut b = a.clone();
			for _ in 0..r.below(3) { let i = r.below(n); b[*r.pick(&[0, i, n - 1])] = g(r) }
			if r.chance(1, 2) { b.truncate(n - r.below(n.min(20))) }
			let (a, b) = if r.chance(1, 2) { (b, a) } else { (a, b) };
			pair::<$t, 300, 301>(name, &a, &b, m);
			pair::<$t, 300, 300>(name, &a, &b, m);
			pair::<$t, 40, 66>(name, &a, &b, m);
			m.count("pairs of long lists", 1);
			$( let _ = stringify!($eq); keys::<$t, 300, 301>(name, &a, &b, m); )?
		}
		$(
			let _ = stringify!($eq);
			keys::<$t, 5, 5>(name, &a, &b, m);
			keys::<$t, 5, 40>(name, &a, &b, m);
			keys::<$t, 2, 6>(name, &a, &b, m);
			let mut pool = vec![a, b];
			for _ in 0..6 { let i = r.below(pool.len()); let c = other(&pool[i].clone(), r, g); pool.push(c) }
			maps::<$t, 6>(name, &pool, r, m);
		)?
	} } }
	kind!(u8, r, r.edgy(8) as u8, eq);
	kind!(i8, r, r.edgy(8) as i8, eq);
	kind!(u16, r, r.edgy(16) as u16, eq);
	kind!(i32, r, r.edgy(32) as i32, eq);
	kind!(u64, r, r.edgy(64) as u64, eq);
	kind!(u128, r, r.edgy(128), eq);
	kind!((), _r, (), eq);
	kind!(bool, r, r.chance(1, 2), eq);
	kind!(char, r, *r.pick(&['a', '\u{0}', '漢', '𝄞']), eq);
	kind!(String, r, text(r, 4), eq);
	kind!((u8, u32), r, (r.below(2) as u8, r.below(3) as u32), eq);
	kind!(f32, r, *r.pick(&[0.0, -0.0, 1.0, f32::NAN, f32::INFINITY, -1.0]),);
	kind!(f64, r, *r.pick(&[0.0, -0.0, 1.0, f64::NAN, f64::NEG_INFINITY, 1e-300]),);
	let a = text(r, 9);
	let mut b = a.clone();
	match r.below(6) { 0 => { b.pop(); } 1 => b.push('a'), 2 => b = text(r, 9), 3 => { let c = b.pop(); b.push(if c == Some('\u{FFFF}') { '𐀀' } else { '\u{FFFF}' }) } 4 => b = b.to_uppercase(), _ => {} }
	strings::<12, 12>(&a, &b, m);
	strings::<12, 40>(&a, &b, m);
	strings::<300, 9>(&a, &b, m);
	strings::<3, 10>(&a, &b, m);
	strings::<0, 4>(&a, &b, m);
	// Long ones, in which what differs, and where, may go against the lengths.
	if r.chance(1, if cfg!(miri) { 8 } else { 3 }) {
		let want = *r.pick(&[17, 33, 65, 129, 256, 280]);
		let mut a = text(r, want);
		while a.len() < want - 8 { let t = text(r, 30); a.push_str(&t) }
		while a.len() > 297 { a.pop(); }
		let mut c: Vec<char> = a.chars().collect();
		for _ in 0..r.below(3) { let i = r.below(c.len()); let i = *r.pick(&[0, i, c.len() - 1]); c[i] = *r.pick(&['\u{0}', 'a', '~', 'é', '\u{FFFF}', '𐀀']) }
		if r.chance(1, 2) { let k = r.below(20).min(c.len() - 1); c.truncate(c.len() - k) }
		let mut b: String = c.into_iter().collect();
		while b.len() > 299 { b.pop(); }
		let (a, b) = if r.chance(1, 2) { (b, a) } else { (a, b) };
		strings::<300, 301>(&a, &b, m);
		strings::<300, 70_000>(&a, &b, m);
		strings::<40, 66>(&a, &b, m);
		strings::<300, 300>(&a, &b, m);
		m.count("pairs of long text", 1);
	}
	let mut pool = vec![a, b];
	for _ in 0..6 { let t = text(r, 5); pool.push(t) }
	string_maps::<10>(&pool, r, m);
	// Sorting many at once.
	let mut v: Vec<SizedStr<12>> = pool.iter().filter_map(|s| SizedStr::new(s).ok()).collect();
	let mut w: Vec<String> = v.iter().map(|s| s.as_str().into()).collect();
	v.sort();
	w.sort();
	same! { m, ("sorted SizedStr<12>".to_string(), format!("{w:?}")); "sort": v.iter().map(|s| s.as_str()).collect::<Vec<_>>(), w.iter().map(|s| &s[..]).collect::<Vec<_>>(); }
	// Elements of different types.
	let p = SizedSlice::<String, 4>::new(&w[..w.len().min(4)]).unwrap();
	let q: SizedSlice<&str, 7> = w.iter().map(|s| &s[..]).take(7).collect();
	same! { m, ("SizedSlice<String, 4> and <&str, 7>".to_string(), format!("{w:?}")); "== across element types": p == q, w.len() <= 4; "== slice of another type": p == &q[..], w.len() <= 4; }
	if m.want_sample() { m.sample(|| format!("{pool:?}")) }
}

pub fn run(cfg: &Cfg) -> Mon {
	let n = cfg.n(60, 4000);
	parallel(&(0..32).collect::<Vec<_>>(), |&j, m| {
		for i in 0..n {
			vcore::crumb!("C20: round {j}/{i}, seed {}", cfg.seed);
			let mut r = Rng::sub(cfg.seed, &format!("C20 {j} {i}"));
			if let Err(p) = catch(|| round(&mut r, m)) { m.violation("panic", || format!("round {j}/{i} (seed {}): unexpected panic {p}", cfg.seed)) }
		}
	})
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
