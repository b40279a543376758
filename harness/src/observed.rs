//! Elements that nothing drops, but whose copies can be told from the original.

use oct::{SizedSlice, SizedIter};
use std::cell::Cell;
use vcore::mon::{catch, parallel, Cfg, Mon};
use vcore::rng::Rng;

thread_local!(static CLONES: Cell<u64> = const { Cell::new(0) });
fn clones() -> u64 { CLONES.with(Cell::get) }
fn cloned() { CLONES.with(|c| c.set(c.get() + 1)) }

pub trait Copied: Clone + 'static {
	const NAME: &'static str;
	fn mk(k: u32) -> Self;
	fn show(&self) -> (u32, u32);
}

/// Counts its generations.
pub struct Gen { key: u32, gen: u32 }
impl Clone for Gen { fn clone(&self) -> Self { cloned(); Gen { key: self.key, gen: self.gen + 1 } } }
impl Copied for Gen { const NAME: &'static str = "Gen"; fn mk(key: u32) -> Self { Gen { key, gen: 0 } } fn show(&self) -> (u32, u32) { (self.key, self.gen) } }

/// The same in one byte.
pub struct Small(u8);
impl Clone for Small { fn clone(&self) -> Self { cloned(); Small(self.0 ^ 0x80) } }
impl Copied for Small { const NAME: &'static str = "Small"; fn mk(k: u32) -> Self { Small(k as u8 & 0x7F) } fn show(&self) -> (u32, u32) { (u32::from(self.0 & 0x7F), u32::from(self.0 >> 7)) } }

/// Without a size.
pub struct Nought;
impl Clone for Nought { fn clone(&self) -> Self { cloned(); Nought } }
impl Copied for Nought { const NAME: &'static str = "Nought"; fn mk(_: u32) -> Self { Nought } fn show(&self) -> (u32, u32) { (0, 0) } }

/// `Copy`, though its `Clone` does more than copying.
#[derive(Copy)]
pub struct Both(u16, u16);
#[allow(clippy::expl_impl_clone_on_copy, clippy::non_canonical_clone_impl)]
impl Clone for Both { fn clone(&self) -> Self { Both(self.0, self.1) } }
impl Copied for Both { const NAME: &'static str = "Both"; fn mk(k: u32) -> Self { Both(k as u16, 7) } fn show(&self) -> (u32, u32) { (u32::from(self.0), u32::from(self.1)) } }

/// With a destructor.
pub struct Owned(Gen, #[allow(dead_code)] Box<u8>);
impl Clone for Owned { fn clone(&self) -> Self { Owned(self.0.clone(), Box::new(1)) } }
impl Copied for Owned { const NAME: &'static str = "Owned"; fn mk(k: u32) -> Self { Owned(Gen::mk(k), Box::new(0)) } fn show(&self) -> (u32, u32) { self.0.show() } }

fn show<T: Copied>(s: &[T]) -> Vec<(u32, u32)> { s.iter().map(T::show).collect() }

fn case<T: Copied, const N: usize>(r: &mut Rng, m: &mut Mon) {
	let n = match r.below(4) { 0 => N, 1 => 0, _ => r.below(N + 1) };
	let mk = || -> Vec<T> { (0..n).map(|i| T::mk(i as u32 + 3)).collect() };
	let src = mk();
	let name = T::NAME;
	let counts = !matches!(name, "Both");
	let mut check = |what: &str, got: (Vec<(u32, u32)>, u64), want: (Vec<(u32, u32)>, u64)| {
		m.eval(Some(vcore::hash_fmt!("observed {name} {N} {n} {what}")));
		m.count("copies told from the original", 1);
		// How often a type without effects is copied is nobody's business.
		if got.0 != want.0 || (counts && got.1 != want.1) { m.violation(&format!("copies {what} {name}"), || format!("SizedSlice<{name}, {N}> of {n} elements: {what}: elements and generations, calls of `clone`: {got:?} instead of {want:?}")) }
	};
	macro_rules! both { ($what:literal, $a:expr, $b:expr) => {{
		let c = clones(); let a = { let v = $a; (show(&v[..]), clones() - c, v) };
		let c = clones(); let b = { let v = $b; (show(&v[..]), clones() - c, v) };
		check($what, (a.0.clone(), a.1), (b.0.clone(), b.1));
		(a.2, b.2)
	}} }
	let (s, v) = both!("new", SizedSlice::<T, N>::new(&src).ok().unwrap(), src.to_vec());
	both!("try_from", SizedSlice::<T, N>::try_from(&src[..]).ok().unwrap(), src.to_vec());
	let (c, d) = both!("clone", s.clone(), v.clone());
	both!("to_vec", c.to_vec(), d.to_vec());
	both!("clone of a clone", c.clone(), d.clone());
	let (mut c, mut d) = both!("from an iterator", SizedSlice::<T, N>::from_iter(mk()), Vec::from_iter(mk()));
	c.clone_from(&s);
	d.clone_from(&v);
	check("clone_from", (show(&c), 0), (show(&d), 0));
	check("each_ref", (c.each_ref().iter().map(|x| x.show()).collect(), 0), (show(&d), 0));
	check("clone of each_ref", (c.each_ref().clone().iter().map(|x| x.show()).collect(), 0), (show(&d), 0));
	both!("into_vec", c.into_vec(), d);
	both!("boxed", s.clone().into_boxed_slice(), v.clone().into_boxed_slice());
	let (mut i, mut j): (SizedIter<T, N>, _) = (s.into_iter(), v.into_iter());
	for _ in 0..r.below(n + 1) {
		let (a, b) = if r.chance(1, 2) { (i.next(), j.next()) } else { (i.next_back(), j.next_back()) };
		check("step", (a.iter().map(T::show).collect(), 0), (b.iter().map(T::show).collect(), 0));
	}
	let c = clones();
	let a = i.clone();
	let used = clones() - c;
	let c = clones();
	let b = j.clone();
	check("clone of an iterator", (show(a.as_slice()), used), (show(b.as_slice()), clones() - c));
	check("the cloned iterator", (show(i.as_slice()), 0), (show(j.as_slice()), 0));
	both!("collected", a.collect::<Vec<T>>(), b.collect::<Vec<T>>());
}

pub fn run(cfg: &Cfg, prop: &str, n: usize) -> Mon {
	let jobs: Vec<usize> = (0..8).collect();
	parallel(&jobs, |&j, m| for i in 0..n {
		let mut r = Rng::sub(cfg.seed, &format!("{prop} observed {j} {i}"));
		vcore::crumb!("{prop}: observed copies, case {j}/{i}, seed {}", cfg.seed);
		let res = catch(|| {
			macro_rules! all { ($($t:ty: $($n:literal)*;)*) => { $( $( case::<$t, $n>(&mut r, m); )* )* } }
			all! { Gen: 0 1 2 4 9; Small: 1 3 8 300; Nought: 0 3 40; Both: 2 5; Owned: 1 4; }
		});
		if let Err(p) = res { m.violation("panic observed", || format!("{prop}: observed copies, case {j}/{i} (seed {}): unexpected panic {p}", cfg.seed)) }
	})
}
