//! C09: unencodable values.
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, LinkedList};
use vcore::mon::{catch, Cfg, Mon};
use vcore::rng::{hash_bytes, Rng};
use vcore::schema::E;
use vreg::codec;
use vtyp::err::View;

fn outcome<T: Encode<Error: View> + ?Sized>(v: &T, cap: usize) -> Result<Result<usize, E>, String> {
	let mut buf = vec![0; cap];
	let mut s = Output::new(&mut buf);
	let r = catch(|| v.encode(&mut s).map_err(|e| e.view()));
	let n = s.position();
	r.map(|r| r.map(|()| n))
}

fn expect<T: Encode<Error: View> + ?Sized>(m: &mut Mon, name: &str, v: &T, cap: usize, want: Result<usize, E>) {
	let got = outcome(v, cap);
	m.eval(Some(vcore::hash_fmt!("{name} {want:?}")));
	if m.want_sample() { m.sample(|| format!("{name}: {got:?}")) }
	if got != Ok(want.clone()) { m.violation(&format!("special {name}"), || format!("{name} should give {want:?} but gave {got:?}")) }
}

fn item(i: usize, e: E) -> E { E::Item(i, Box::new(e)) }
fn held() -> E { E::Cell(Box::new(E::Borrow)) }
fn long(n: usize) -> E { E::Len(Box::new(E::USize(n as u128))) }

#[derive(oct::encode::Encode)]
struct Holder<'a> { a: u8, c: &'a Cell2 }
#[derive(oct::encode::Encode)]
struct Cell2 { x: u16 }

/// Maps want one error type for keys and values.
#[derive(PartialEq, Eq, Hash)]
struct Key(usize);
impl Encode for Key {
	type Error = oct::error::RefCellEncodeError<std::convert::Infallible>;
	fn encode(&self, o: &mut Output) -> Result<(), Self::Error> { let Ok(()) = (self.0 as u16).encode(o); Ok(()) }
}

/// Exclusively borrowed cells.
fn borrowed(m: &mut Mon, r: &mut Rng, rounds: usize) {
	for _ in 0..rounds {
		let c = RefCell::new(r.u64() as u32);
		{
			let _g = c.borrow_mut();
			expect(m, "borrowed cell", &c, 40, Err(held()));
			expect(m, "borrowed cell behind references", &&&c, 40, Err(held()));
			expect(m, "option of borrowed cell", &Some(&c), 40, Err(held()));
			expect(m, "boxed borrowed cell", &Box::new(&c), 40, Err(held()));
			expect(m, "tuple with borrowed cell", &(&c, &c), 40, Err(held()));
			let cc = RefCell::new(&c);
			expect(m, "cell of borrowed cell", &cc, 40, Err(E::Cell(Box::new(held()))));
		}
		expect(m, "released cell", &c, 40, Ok(4));
		{
			let _g = c.borrow();
			let _h = c.borrow();
			expect(m, "shared cell", &c, 40, Ok(4));
			expect(m, "many shared cells", &[&c, &c, &c], 40, Ok(12));
		}
		if c.try_borrow_mut().is_err() { m.violation("borrow left", || "a cell is still borrowed after encoding".into()) }
		// The index is that of the first such item.
		let n = r.range(1, 9);
		let v: Vec<RefCell<u8>> = (0..n).map(|i| RefCell::new(i as u8)).collect();
		let hold: Vec<bool> = (0..n).map(|_| r.chance(1, 3)).collect();
		let guards: Vec<_> = v.iter().zip(&hold).filter(|x| *x.1).map(|x| x.0.borrow_mut()).collect();
		let first = hold.iter().position(|h| *h);
		let want = |len: usize| match first { Some(i) => Err(item(i, held())), None => Ok(len) };
		expect(m, "vector of cells", &v, 60, want(n + 2));
		expect(m, "slice of cells", v.as_slice(), 60, want(n + 2));
		expect(m, "list of cells", &v.iter().collect::<LinkedList<_>>(), 60, want(n + 2));
		expect(m, "sized slice of cells", &v.iter().collect::<SizedSlice<_, 9>>(), 60, want(n + 2));
		expect(m, "boxed slice of cells", &v.iter().collect::<Box<[_]>>(), 60, want(n + 2));
		let m1: HashMap<Key, &RefCell<u8>> = v.iter().enumerate().map(|(i, c)| (Key(i), c)).collect();
		let at = m1.keys().position(|k| hold[k.0]);
		expect(m, "map of cells", &m1, 60, match at { Some(i) => Err(item(i, held())), None => Ok(3 * n + 2) });
		if n >= 3 {
			let a = [&v[0], &v[1], &v[2]];
			expect(m, "array of cells", &a, 60, match first.filter(|i| *i < 3) { Some(i) => Err(item(i, held())), None => Ok(3) });
		}
		drop(guards);
		expect(m, "released vector of cells", &v, 60, Ok(n + 2));
		m.count("borrowed cells met", hold.iter().filter(|h| **h).count() as u64 + 6);
	}
	let x = Cell2 { x: 1 };
	expect(m, "struct of references", &Holder { a: 1, c: &x }, 9, Ok(3));
}

/// The index of the first unencodable item, in the order that the collection itself gives.
fn unordered(m: &mut Mon, r: &mut Rng, rounds: usize) {
	for i in 0..rounds {
		let n = match i % 8 { 0 => r.range(200, 700), _ => r.range(1, 30) };
		let odds = if n > 100 { 150 } else { 5 };
		let any = |r: &mut Rng| if r.chance(1, odds) { 65536 + r.below(9) } else { r.below(65536) };
		let keys: Vec<usize> = (0..n).map(|_| any(r)).collect();
		let set: HashSet<usize> = keys.iter().copied().collect();
		let cause = |k: usize| E::USize(k as u128);
		let first = set.iter().enumerate().find(|x| *x.1 > 65535).map(|(i, k)| item(i, cause(*k)));
		expect(m, "set of integers", &set, 9000, first.map_or(Ok(2 + 2 * set.len()), Err));
		let map: HashMap<usize, usize> = keys.iter().map(|k| (*k, any(r))).collect();
		let first = map.iter().enumerate().find(|(_, (k, v))| **k > 65535 || **v > 65535).map(|(i, (k, v))| item(i, cause(if *k > 65535 { *k } else { *v })));
		expect(m, "map of integers", &map, 9000, first.map_or(Ok(2 + 4 * map.len()), Err));
		let list: LinkedList<usize> = keys.iter().copied().collect();
		let first = keys.iter().position(|k| *k > 65535).map(|i| item(i, cause(keys[i])));
		expect(m, "list of integers", &list, 9000, first.clone().map_or(Ok(2 + 2 * n), Err));
		expect(m, "slice of integers", keys.as_slice(), 9000, first.map_or(Ok(2 + 2 * n), Err));
		m.count("collections judged by their own order", 4);
	}
}

/// The limits themselves.
fn limits(m: &mut Mon) {
	for n in [0usize, 1, 255, 256, 65533, 65534, 65535, 65536, 65537, 65540, 70000, 131_071, 131_072, 131_073, 196_608] {
		let w = |size: usize| if n > 65535 { Err(long(n)) } else { Ok(2 + n * size) };
		let cap = 2 + n * 8 + 8;
		let v = vec![0x41u8; n];
		let t = String::from_utf8(v.clone()).unwrap();
		let c = std::ffi::CString::new(v.clone()).unwrap();
		expect(m, &format!("{n} bytes in a vector"), &v, cap, w(1));
		expect(m, &format!("{n} bytes in a slice"), v.as_slice(), cap, w(1));
		expect(m, &format!("{n} bytes in a string"), &t, cap, w(1));
		expect(m, &format!("{n} bytes of text"), t.as_str(), cap, w(1));
		expect(m, &format!("{n} bytes in a C string"), &c, cap, w(1));
		expect(m, &format!("{n} bytes of a C string"), c.as_c_str(), cap, w(1));
		expect(m, &format!("{n} bytes of shared text"), &std::sync::Arc::<str>::from(t.as_str()), cap, w(1));
		expect(m, &format!("{n} borrowed bytes"), &std::borrow::Cow::Borrowed(v.as_slice()), cap, w(1));
		expect(m, &format!("{n} list nodes"), &v.iter().copied().collect::<LinkedList<u8>>(), cap, w(1));
		expect(m, &format!("{n} units"), &vec![(); n], cap, w(0));
		expect(m, &format!("{n} words"), &vec![7u64; n], cap, w(8));
		expect(m, &format!("{n} map entries"), &(0..n as u32).map(|i| (i, 1u8)).collect::<HashMap<u32, u8>>(), cap, w(5));
		expect(m, &format!("{n} set items"), &(0..n as u32).collect::<HashSet<u32>>(), cap, w(4));
		// The length is judged before the items.
		expect(m, &format!("{n} large integers"), &vec![1usize << 20; n], cap, if n > 65535 { Err(long(n)) } else if n == 0 { Ok(2) } else { Err(item(0, E::USize(1 << 20))) });
		if n <= 70000 {
			expect(m, &format!("{n} bytes in a sized slice"), &v.iter().copied().collect::<SizedSlice<u8, 70000>>(), cap, w(1));
			expect(m, &format!("{n} bytes in a sized string"), &SizedStr::<70000>::new(&t).unwrap(), cap, w(1));
		}
		expect(m, &format!("{n} as usize"), &n, 9, if n > 65535 { Err(E::USize(n as u128)) } else { Ok(2) });
		for k in [n as isize, -(n as isize), n as isize / 2, -(n as isize) / 2] {
			expect(m, &format!("{k} as isize"), &k, 9, if (-32768..=32767).contains(&k) { Ok(2) } else { Err(E::ISize(k as i128)) });
		}
		let x = std::sync::atomic::AtomicUsize::new(n);
		expect(m, &format!("{n} as atomic"), &x, 9, if n > 65535 { Err(E::USize(n as u128)) } else { Ok(2) });
		m.count("lengths tried at the limits", 1);
	}
	for n in [1usize << 20, 1 << 32, (1 << 32) + 5, usize::MAX] { expect(m, &format!("{n} units"), &vec![(); n], 9, Err(long(n))) }
	expect(m, "an array beyond 65535", &[3u8; 70_000], 70_000, Ok(70_000));
	let mut a = Box::new([3usize; 70_000]);
	a[69_999] = 1 << 16;
	expect(m, "a late item", &*a, 140_000, Err(item(69_999, E::USize(1 << 16))));
}

pub fn run(cfg: &Cfg) -> Mon {
	let mut m = codec::each(cfg, "C09", cfg.n(150, 4000), codec::unencodable);
	let mut r = Rng::sub(cfg.seed, "C09 cells");
	let res = catch(|| { borrowed(&mut m, &mut r, cfg.n(100, 5000)); unordered(&mut m, &mut r, cfg.n(400, 20_000)); limits(&mut m) });
	if let Err(p) = res { m.violation("panic", || format!("unexpected panic: {p}")) }
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
