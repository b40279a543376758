//! Element types for the containers.

use crate::track::{self, Tiny, Track, Wide};
use oct::SizedSlice;
use std::fmt::Debug;
use std::hash::Hash;
use vcore::rng::Rng;

/// `K` is what the model holds in place of an element.
pub trait Elem: Clone + Debug + Eq + Ord + Hash + Sized + 'static {
	type K: Clone + Debug + Eq + Ord + Hash;
	const NAME: &'static str;
	const TRACKED: bool = false;
	fn key(r: &mut Rng) -> Self::K;
	fn mk(k: &Self::K) -> Self;
	fn k(&self) -> Self::K;
	/// Replaces the content of an element without dropping it.
	fn put(&mut self, k: &Self::K);
	fn id(&self) -> u64 { 0 }
	/// Copies into a sized slice, if the type can.
	fn copy_into<const N: usize>(_: &mut SizedSlice<Self, N>, _: &[Self]) -> bool { false }
}

macro_rules! copies {
	($($t:ty: |$r:ident| $e:expr;)*) => { $(
		impl Elem for $t {
			type K = $t;
			const NAME: &'static str = stringify!($t);
			fn key($r: &mut Rng) -> $t { $e }
			fn mk(k: &$t) -> $t { *k }
			fn k(&self) -> $t { *self }
			fn put(&mut self, k: &$t) { *self = *k }
			fn copy_into<const N: usize>(s: &mut SizedSlice<Self, N>, d: &[Self]) -> bool { s.copy_from_slice(d); true }
		}
	)* };
}
copies! {
	u8: |r| r.edgy(8) as u8;
	u16: |r| r.edgy(16) as u16;
	u64: |r| r.edgy(64) as u64;
	i32: |r| r.edgy(32) as i32;
	u128: |r| r.edgy(128);
	(): |_r| ();
	bool: |r| r.chance(1, 2);
	char: |r| *r.pick(&['a', 'ß', '\u{0}', '\u{10FFFF}', '漢']);
	[u8; 3]: |r| { let v = r.edgy(24) as u32; let b = v.to_le_bytes(); [b[0], b[1], b[2]] };
	(u8, u32): |r| (r.below(4) as u8, r.edgy(32) as u32);
}

impl Elem for String {
	type K = String;
	const NAME: &'static str = "String";
	fn key(r: &mut Rng) -> String { let n = r.below(4); (0..n).map(|_| *r.pick(&['a', 'z', 'é', '\u{0}'])).collect() }
	fn mk(k: &String) -> String { k.clone() }
	fn k(&self) -> String { self.clone() }
	fn put(&mut self, k: &String) { k.clone_into(self) }
}

macro_rules! tracked { ($($t:ident)*) => { $(
	impl Elem for $t {
		type K = u32;
		const NAME: &'static str = stringify!($t);
		const TRACKED: bool = true;
		fn key(r: &mut Rng) -> u32 { r.below(1000) as u32 }
		fn mk(k: &u32) -> Self { $t::new(*k) }
		fn k(&self) -> u32 { self.val() }
		fn put(&mut self, k: &u32) { self.set(*k) }
		fn id(&self) -> u64 { $t::id(self) }
	}
)* } }
tracked! { Track Tiny Wide }

/// Identities of tracked elements, or nothing.
pub fn ids<T: Elem>(s: &[T]) -> Vec<u64> { if T::TRACKED { s.iter().map(|e| e.id()).collect() } else { Vec::new() } }
pub fn keys<T: Elem>(s: &[T]) -> Vec<T::K> { s.iter().map(T::k).collect() }
pub fn make<T: Elem>(k: &[T::K]) -> Vec<T> { k.iter().map(T::mk).collect() }
/// Errors of the ledger, if it is in use.
pub fn ledger<T: Elem>() -> Vec<String> { if T::TRACKED { track::errors() } else { Vec::new() } }
