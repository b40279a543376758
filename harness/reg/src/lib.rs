//! One table of operations per concrete type under test.

pub mod codec;

use vcore::alloc_mon::{window, Stats};
use vtyp::err::spec::*;
use vtyp::err::{chain, Report, View};
use vcore::mon::catch;
use vcore::schema::{Schema, Val, E};
use vtyp::typ::Typ;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
#[allow(unused_imports)]
use std::marker::PhantomData;

pub struct EncOut {
	/// `Err` is a panic.
	pub res:       Result<Result<(), E>, String>,
	pub alloc:     Stats,
	pub unchanged: bool,
}

pub struct DecOut {
	pub res:   Result<Result<Val, E>, String>,
	pub alloc: Stats,
	/// Live bytes after the result has been dropped.
	pub leak:  i64,
}

type EncFn = Box<dyn Fn(&Val, &mut Output) -> EncOut + Send + Sync>;
type DecFn = Box<dyn Fn(&mut Input) -> DecOut + Send + Sync>;
type EncRep = Box<dyn Fn(&Val, &mut Output) -> Option<Result<(E, Report), String>> + Send + Sync>;
type DecRep = Box<dyn Fn(&mut Input) -> Option<Result<(E, Report), String>> + Send + Sync>;
#[allow(dead_code)]
type SlotRt = Box<dyn Fn(&Val, usize) -> SlotOut + Send + Sync>;

/// Outcome of writing to a slot and reading from it again.
pub struct SlotOut { pub write: Result<Result<(), E>, String>, pub bytes: Vec<u8>, pub cap: usize, pub read: Option<Result<Result<Val, E>, String>> }

pub struct Ops {
	pub name:     String,
	pub schema:   Schema,
	pub max:      Option<usize>,
	pub slot_cap: fn() -> Option<usize>,
	pub enc:      EncFn,
	pub enc_rep:  EncRep,
	pub dec:      Option<DecFn>,
	pub dec_rep:  Option<DecRep>,
	pub slot:     Option<SlotRt>,
	/// Size of the type itself.
	pub size:     usize,
}

#[doc(hidden)]
pub fn enc_out<R: Encode<Error: View> + ?Sized>(v: &R, out: &mut Output) -> (Result<Result<(), E>, String>, Stats) {
	let (r, alloc) = window(|| catch(|| v.encode(out)));
	(r.map(|r| r.map_err(|e| e.view())), alloc)
}

#[doc(hidden)]
pub fn enc_of<T: Typ + Encode<Error: View> + 'static>() -> EncFn {
	Box::new(|v, out| {
		let t = T::from_val(v);
		let (res, alloc) = enc_out(&t, out);
		let unchanged = t.to_val() == *v;
		EncOut { res, alloc, unchanged }
	})
}

#[doc(hidden)]
pub fn dec_of<T: Typ + Decode<Error: View> + 'static>() -> DecFn {
	Box::new(|input| {
		let (r, alloc) = window(|| catch(|| T::decode(input)));
		let live = alloc.live;
		match r {
			Ok(Ok(t)) => {
				let v = t.to_val();
				let ((), d) = window(|| drop(t));
				DecOut { res: Ok(Ok(v)), alloc, leak: live + d.live }
			}
			Ok(Err(e)) => {
				let v = e.view();
				let ((), d) = window(|| drop(e));
				DecOut { res: Ok(Err(v)), alloc, leak: live + d.live }
			}
			Err(p) => { let leak = live - p.capacity() as i64; DecOut { res: Err(p), alloc, leak } }
		}
	})
}

#[cfg(feature = "alloc")]
#[doc(hidden)]
pub fn slot_of<T: Typ + Encode<Error: View> + Decode<Error: View> + 'static>() -> Option<SlotRt> {
	Some(Box::new(|v, cap| {
		let t = T::from_val(v);
		let mut s = oct::Slot::<T>::with_capacity(cap);
		let write = catch(|| s.write(&t)).map(|r| r.map_err(|e| e.view()));
		let read = matches!(write, Ok(Ok(()))).then(|| catch(|| s.read()).map(|r| r.map(|t| t.to_val()).map_err(|e| e.view())));
		SlotOut { write, bytes: s.as_slice().to_vec(), cap: s.capacity(), read }
	}))
}
#[cfg(not(feature = "alloc"))]
#[doc(hidden)]
pub fn slot_of<T>() -> Option<SlotRt> { None }

#[doc(hidden)]
pub fn enc_rep_of<T: Typ + Encode<Error: View> + 'static>(f: fn(T::Error) -> Report) -> EncRep {
	Box::new(move |v, out| {
		let t = T::from_val(v);
		match catch(|| t.encode(out)) { Ok(Err(e)) => { let v = e.view(); Some(catch(|| (v, f(e)))) } _ => None }
	})
}
#[doc(hidden)]
pub fn dec_rep_of<T: Typ + Decode<Error: View> + 'static>(f: fn(T::Error) -> Report) -> DecRep {
	Box::new(move |i| match catch(|| T::decode(i)) { Ok(Err(e)) => { let v = e.view(); Some(catch(|| (v, f(e)))) } _ => None })
}

#[doc(hidden)]
pub use vtyp;

/// Describes an error of a concrete type.
#[macro_export]
macro_rules! report {
	($e:ident, $conv:ident) => {{
		#[allow(unused_imports)]
		use $crate::vtyp::err::{chain, spec::*, Report, View};
		let mut r = Report::default();
		if let Some(d) = (&P(&$e)).dynerr() {
			r.debug = format!("{d:?}");
			r.display = Some(d.to_string());
			let (s, l) = chain(d);
			r.sources = Some(s);
			r.leaf = l;
		}
		let q = Q(std::cell::Cell::new(Some($e)));
		if let Some(g) = (&q).$conv() {
			r.generic = Some(g.view());
			r.generic_display = Some(g.to_string());
			r.generic_sources = Some(chain(&g).0);
		}
		r
	}};
}

#[doc(hidden)]
pub mod parts {
	pub use super::{dec_of, enc_of, slot_of};
	pub use oct::{decode::Decode, encode::Encode};
	pub use vtyp::err::{spec::*, Report, View};
	pub use vtyp::typ::Typ;
	pub use std::marker::PhantomData;
}

#[macro_export]
macro_rules! ty {
	($v:ident: $($t:ty),+ $(,)?) => { $(
		if $v.wants(stringify!($t)) {
			#[allow(unused_imports)]
			use $crate::parts::*;
			fn er(e: <$t as Encode>::Error) -> Report { $crate::report!(e, ge) }
			fn dr(e: <$t as Decode>::Error) -> Report { $crate::report!(e, gd) }
			fn sc() -> Option<usize> { (&M::<$t>(PhantomData)).slot_cap() }
			$v.v.push($crate::Ops {
				name: stringify!($t).replace('\n', " "), schema: <$t as Typ>::schema(),
				max: (&M::<$t>(PhantomData)).max(), slot_cap: sc,
				enc: enc_of::<$t>(), enc_rep: $crate::enc_rep_of::<$t>(er),
				dec: Some(dec_of::<$t>()), dec_rep: Some($crate::dec_rep_of::<$t>(dr)),
				slot: slot_of::<$t>(), size: std::mem::size_of::<$t>(),
			});
		}
	)+ };
}

/// Types that are only encoded: `build` makes the owner, `get` the encoded form.
#[macro_export]
macro_rules! form {
	($v:ident: $($n:literal as $o:ty => $r:ty, |$b:ident| $build:expr, |$g:ident| $get:expr;)+) => { $(
		if $v.wants($n) {
			#[allow(unused_imports)]
			use $crate::parts::*;
			fn sc() -> Option<usize> { None }
			$v.v.push($crate::Ops {
				name: $n.into(), schema: <$o as Typ>::schema(), max: (&M::<$r>(PhantomData)).max(), slot_cap: sc,
				enc: Box::new(|v, out| {
					#[allow(unused_mut)]
					let mut $b = <$o as Typ>::from_val(v);
					let mut $g = $build;
					let _ = &mut $g;
					let f: $r = $get;
					let (res, alloc) = $crate::enc_out::<$r>(&f, out);
					$crate::EncOut { res, alloc, unchanged: true }
				}),
				enc_rep: Box::new(|_, _| None), dec: None, dec_rep: None, slot: None, size: std::mem::size_of::<$r>(),
			});
		}
	)+ };
}

pub struct Builder { pub v: Vec<Ops>, pub only: Option<String> }
impl Builder {
	pub fn wants(&self, n: &str) -> bool { self.only.as_ref().map_or(true, |o| n.contains(o.as_str())) }
}

#[cfg(feature = "proc-macro")]
pub mod derived {
	use super::*;
	use vcore::schema::int;

	macro_rules! list { ($v:ident) => { match $v { Val::List(l) => l, v => panic!("{v:?}") } } }

	#[derive(oct::decode::Decode, oct::encode::Encode, oct::encode::SizedEncode)]
	pub struct Empty;
	impl Typ for Empty {
		fn schema() -> Schema { Schema::Struct(vec![]) }
		fn from_val(_: &Val) -> Self { Self }
		fn to_val(&self) -> Val { Val::List(vec![]) }
	}

	#[derive(oct::decode::Decode, oct::encode::Encode, oct::encode::SizedEncode)]
	pub struct Pair(pub u16, pub usize);
	impl Typ for Pair {
		fn schema() -> Schema { Schema::Struct(vec![u16::schema(), usize::schema()]) }
		fn from_val(v: &Val) -> Self { let l = list!(v); Self(Typ::from_val(&l[0]), Typ::from_val(&l[1])) }
		fn to_val(&self) -> Val { Val::List(vec![self.0.to_val(), self.1.to_val()]) }
	}

	#[derive(oct::decode::Decode, oct::encode::Encode)]
	pub struct Named<T: Encode<Error: Into<oct::error::GenericEncodeError>> + Decode<Error: Into<oct::error::GenericDecodeError>>> { pub a: T, pub b: Option<isize>, pub c: oct::SizedStr<12>, pub d: std::num::NonZero<u16> }
	impl<T: Typ + Encode<Error: Into<oct::error::GenericEncodeError>> + Decode<Error: Into<oct::error::GenericDecodeError>>> Typ for Named<T> {
		fn schema() -> Schema { Schema::Struct(vec![T::schema(), Option::<isize>::schema(), oct::SizedStr::<12>::schema(), std::num::NonZero::<u16>::schema()]) }
		fn from_val(v: &Val) -> Self { let l = list!(v); Self { a: Typ::from_val(&l[0]), b: Typ::from_val(&l[1]), c: Typ::from_val(&l[2]), d: Typ::from_val(&l[3]) } }
		fn to_val(&self) -> Val { Val::List(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) }
	}

	#[derive(oct::decode::Decode, oct::encode::Encode, oct::encode::SizedEncode)]
	#[repr(i16)]
	pub enum Signed { A = 300, B(u8), C { x: u32, y: isize } = 7, D, E((u8, u16), Option<oct::SizedSlice<u16, 5>>) }
	impl Typ for Signed {
		fn schema() -> Schema {
			Schema::Enum(Box::new(int(16, true)), vec![
				(300, vec![]), (301, vec![u8::schema()]), (7, vec![u32::schema(), isize::schema()]), (8, vec![]),
				(9, vec![<(u8, u16)>::schema(), Option::<oct::SizedSlice<u16, 5>>::schema()]),
			])
		}
		fn from_val(v: &Val) -> Self {
			let Val::Enum(i, l) = v else { panic!() };
			match i {
				0 => Self::A, 1 => Self::B(Typ::from_val(&l[0])), 2 => Self::C { x: Typ::from_val(&l[0]), y: Typ::from_val(&l[1]) },
				3 => Self::D, _ => Self::E(Typ::from_val(&l[0]), Typ::from_val(&l[1])),
			}
		}
		fn to_val(&self) -> Val {
			match self {
				Self::A => Val::Enum(0, vec![]), Self::B(a) => Val::Enum(1, vec![a.to_val()]),
				Self::C { x, y } => Val::Enum(2, vec![x.to_val(), y.to_val()]), Self::D => Val::Enum(3, vec![]),
				Self::E(a, b) => Val::Enum(4, vec![a.to_val(), b.to_val()]),
			}
		}
	}

	/// Without a representation the discriminant is an `isize`.
	#[derive(oct::decode::Decode, oct::encode::Encode, oct::encode::SizedEncode)]
	pub enum Plain { X, Y(std::num::NonZero<i8>), Z }
	impl Typ for Plain {
		fn schema() -> Schema { Schema::Enum(Box::new(Schema::ISize), vec![(0, vec![]), (1, vec![std::num::NonZero::<i8>::schema()]), (2, vec![])]) }
		fn from_val(v: &Val) -> Self { let Val::Enum(i, l) = v else { panic!() }; match i { 0 => Self::X, 1 => Self::Y(Typ::from_val(&l[0])), _ => Self::Z } }
		fn to_val(&self) -> Val { match self { Self::X => Val::Enum(0, vec![]), Self::Y(a) => Val::Enum(1, vec![a.to_val()]), Self::Z => Val::Enum(2, vec![]) } }
	}

	#[cfg(all(feature = "alloc", feature = "std"))]
	#[derive(oct::decode::Decode, oct::encode::Encode)]
	#[repr(u8)]
	pub enum Tree { Leaf(String), Node(Vec<Tree>) = 0x80, Time { at: std::time::SystemTime, by: std::ffi::CString }, Map(std::collections::HashMap<u8, u16>) }
	#[cfg(all(feature = "alloc", feature = "std"))]
	impl Typ for Tree {
		fn schema() -> Schema {
			Schema::Enum(Box::new(int(8, false)), vec![
				(0, vec![String::schema()]), (0x80, vec![Schema::Seq(None, Box::new(Schema::Lazy(Tree::schema)))]),
				(0x81, vec![std::time::SystemTime::schema(), std::ffi::CString::schema()]), (0x82, vec![std::collections::HashMap::<u8, u16>::schema()]),
			])
		}
		fn from_val(v: &Val) -> Self {
			let Val::Enum(i, l) = v else { panic!() };
			match i {
				0 => Self::Leaf(Typ::from_val(&l[0])),
				1 => { let c = &l[0]; let c = list!(c); Self::Node(c.iter().map(Self::from_val).collect()) }
				2 => Self::Time { at: Typ::from_val(&l[0]), by: Typ::from_val(&l[1]) },
				_ => Self::Map(Typ::from_val(&l[0])),
			}
		}
		fn to_val(&self) -> Val {
			match self {
				Self::Leaf(s) => Val::Enum(0, vec![s.to_val()]),
				Self::Node(c) => Val::Enum(1, vec![Val::List(c.iter().map(Self::to_val).collect())]),
				Self::Time { at, by } => Val::Enum(2, vec![at.to_val(), by.to_val()]),
				Self::Map(m) => Val::Enum(3, vec![m.to_val()]),
			}
		}
	}
}

pub fn all(only: Option<String>) -> Vec<Ops> {
	use oct::{SizedSlice, SizedStr};
	#[allow(unused_imports)]
	use std::{
		borrow::Cow, cell::*, collections::*, convert::Infallible, ffi::*, marker::*, net::*, num::*, ops::*, rc::Rc,
		sync::{atomic::*, *}, time::*,
	};
	let mut v = Builder { v: Vec::new(), only };
	ty! { v:
		(), bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, char,
		NonZero<u8>, NonZero<u16>, NonZero<u32>, NonZero<u64>, NonZero<u128>, NonZero<usize>,
		NonZero<i8>, NonZero<i16>, NonZero<i32>, NonZero<i64>, NonZero<i128>, NonZero<isize>,
		PhantomData<u64>, PhantomPinned, RangeFull, Duration,
		Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr,
		AtomicBool, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize,
		Wrapping<u32>, Wrapping<isize>, Saturating<i64>, Saturating<u8>,
		Cell<u16>, Cell<char>, Cell<Option<bool>>, RefCell<u32>, RefCell<usize>, RefCell<char>,
		Option<()>, Option<u8>, Option<usize>, Option<char>, Option<f64>, Option<Option<bool>>, Option<NonZero<u16>>, Option<Infallible>, Option<[u16; 3]>,
		Result<u8, u64>, Result<u64, u8>, Result<(), ()>, Result<char, char>, Result<usize, usize>, Result<u8, Infallible>, Result<Infallible, u16>,
		Result<[u8; 2], [u8; 9]>, Result<(u8, u128), bool>, Option<Result<u8, u16>>,
		Bound<u8>, Bound<i64>, Bound<char>, Bound<usize>, Bound<[u8; 4]>,
		Range<u8>, Range<i64>, Range<char>, Range<usize>, RangeInclusive<u16>, RangeInclusive<char>, RangeFrom<u32>, RangeFrom<isize>,
		RangeTo<u64>, RangeTo<char>, RangeToInclusive<u128>, RangeToInclusive<f32>,
		(Bound<u8>, Bound<u8>),
		[u8; 0], [char; 0], [(); 5], [u8; 1], [u16; 3], [u32; 2], [u8; 33], [char; 4], [bool; 8], [usize; 3], [f32; 3], [NonZero<u8>; 4], [i128; 2],
		[[u16; 2]; 3], [Option<u8>; 5], [(u8, u16); 3], [SizedStr<4>; 3], [SizedSlice<u8, 3>; 4], [IpAddr; 3], [Infallible; 0],
		(u8,), (char,), (usize,), (SizedStr<3>,),
		(u8, u16), (char, char), (usize, usize), (NonZero<u8>, NonZero<u8>),
		(u8, u16, u32), (u8, (), bool, i64), (u8, i8, u16, i16, u32), (u8, i8, u16, i16, u32, i32), (u8, u16, u32, u64, u128, i8, i16),
		(u8, u16, u32, u64, u128, i8, i16, i32), (u8, u16, u32, u64, u128, i8, i16, i32, i64), (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128),
		(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32), (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64),
		(char, char, char), (usize, usize, usize, usize), ((u8, u16), (u32, (u8, bool))), ([u8; 3], [u16; 2]), (Option<u8>, Duration, Ipv6Addr),
		SizedSlice<u8, 0>, SizedSlice<u8, 1>, SizedSlice<u8, 4>, SizedSlice<u8, 300>, SizedSlice<(), 3>, SizedSlice<u16, 0>, SizedSlice<u16, 7>, SizedSlice<u64, 2>,
		SizedSlice<char, 5>, SizedSlice<usize, 4>, SizedSlice<bool, 9>, SizedSlice<Option<u8>, 6>, SizedSlice<NonZero<i16>, 5>, SizedSlice<[u8; 3], 4>,
		SizedSlice<SizedSlice<u8, 3>, 4>, SizedSlice<SizedStr<5>, 3>, SizedSlice<(u16, u8), 4>, SizedSlice<Duration, 3>, SizedSlice<u8, 70000>, SizedSlice<(), 70000>,
		SizedStr<0>, SizedStr<1>, SizedStr<2>, SizedStr<3>, SizedStr<4>, SizedStr<7>, SizedStr<16>, SizedStr<255>, SizedStr<256>, SizedStr<300>, SizedStr<66000>,
		Option<SizedStr<6>>, Option<SizedSlice<u32, 3>>, Result<SizedStr<3>, SizedStr<9>>, RefCell<SizedStr<8>>, Bound<SizedStr<2>>,
		Option<RefCell<Option<char>>>, [RefCell<usize>; 2], Wrapping<[u8; 2]>, Cell<(u8, u16)>, RefCell<RefCell<u8>>,
		[u8; 300], [u64; 257], [u16; 1024], [u8; 1500], [[u8; 40]; 40], [(u8, u16); 500], [char; 260], [usize; 258], SizedSlice<u64, 1024>, SizedSlice<u16, 5000>, SizedSlice<char, 700>,
		SizedStr<31>, SizedStr<32>, SizedStr<1024>, SizedStr<5000>, [SizedStr<300>; 5], (SizedSlice<u8, 300>, SizedSlice<u8, 301>), SizedSlice<SizedSlice<u8, 300>, 3>,
		Saturating<usize>, Wrapping<char>, Cell<isize>, Cell<NonZero<u8>>, RangeFrom<char>, RangeTo<usize>, RangeToInclusive<char>, Range<SizedStr<2>>, RangeInclusive<usize>, RangeInclusive<Option<NonZero<u8>>>,
		Option<IpAddr>, Option<SocketAddr>, Option<Bound<u8>>, Bound<Option<char>>, Bound<Bound<u8>>, Bound<NonZero<u16>>, [Bound<char>; 2], [SocketAddr; 2], Result<IpAddr, IpAddr>, Result<NonZero<u8>, NonZero<u64>>,
		Result<Option<char>, char>, (IpAddr, IpAddr), (Bound<char>, Bound<char>), (Duration, Duration), SizedSlice<IpAddr, 3>, SizedSlice<Bound<char>, 2>, SizedSlice<Result<u8, u32>, 3>, SizedSlice<f64, 3>, SizedSlice<i8, 11>,
		[Result<char, char>; 2], [Duration; 2], [[char; 2]; 2], [(usize, usize); 2], RefCell<Option<usize>>, RefCell<[char; 2]>, RefCell<IpAddr>, (RefCell<u8>, RefCell<u16>), Option<RefCell<usize>>,
	}
	#[cfg(feature = "alloc")]
	ty! { v:
		Vec<()>, Vec<u8>, Vec<u16>, Vec<u64>, Vec<u128>, Vec<char>, Vec<bool>, Vec<usize>, Vec<isize>, Vec<f32>, Vec<f64>, Vec<NonZero<u32>>, Vec<Infallible>,
		Vec<Vec<u8>>, Vec<Vec<char>>, Vec<Vec<Vec<u16>>>, Vec<String>, Vec<Option<u16>>, Vec<[u8; 3]>, Vec<(u8, u16)>, Vec<Box<u16>>, Vec<SizedStr<4>>,
		Vec<SizedSlice<u16, 2>>, Vec<Duration>, Vec<IpAddr>, Vec<SocketAddr>, Vec<CString>, Vec<Result<u8, u32>>, Vec<Bound<u8>>, Vec<RefCell<u8>>,
		String, CString, Option<String>, [String; 3], [Vec<u8>; 2], (String, String), (Vec<u8>, Vec<u8>), Result<String, String>, Option<Vec<Option<char>>>,
		LinkedList<()>, LinkedList<u8>, LinkedList<char>, LinkedList<usize>, LinkedList<String>, LinkedList<Vec<u8>>, LinkedList<LinkedList<u16>>, Vec<LinkedList<u8>>,
		SizedSlice<String, 3>, SizedSlice<Vec<u8>, 4>, SizedSlice<Box<u32>, 2>, SizedSlice<LinkedList<u8>, 2>, [SizedSlice<Box<u8>, 2>; 2],
		Box<u8>, Box<char>, Box<String>, Box<Vec<usize>>, Box<[u16; 5]>, Box<Box<u8>>, Rc<u32>, Rc<String>, Rc<RefCell<char>>, Arc<i128>, Arc<Vec<char>>, Arc<AtomicU16>,
		Cow<'static, u32>, Cow<'static, char>, Cow<'static, [u8; 3]>, Cow<'static, usize>, RefCell<Vec<usize>>, RefCell<String>, Wrapping<Box<u8>>, Option<Box<Option<Rc<u8>>>>, [Box<char>; 4], Vec<Arc<NonZero<u8>>>, Range<Box<u16>>, Bound<String>, Result<Vec<u16>, Vec<u16>>,
		Option<CString>, [CString; 2],
		Vec<NonZero<i64>>, Vec<i8>, Vec<i128>, Vec<Ipv6Addr>, Vec<Bound<char>>, Vec<SizedSlice<char, 3>>, Vec<[char; 2]>, Vec<Cell<u16>>, Vec<Option<Vec<usize>>>, Vec<Range<u8>>, Vec<Box<[u16; 2]>>, Vec<SizedStr<300>>,
		LinkedList<NonZero<u8>>, LinkedList<Option<char>>, LinkedList<IpAddr>, LinkedList<CString>, LinkedList<SizedStr<3>>, LinkedList<[u8; 2]>, LinkedList<Box<u8>>, Rc<char>, Rc<Vec<u8>>, Arc<NonZero<u8>>, Arc<CString>, Box<NonZero<u16>>, Box<IpAddr>, Box<CString>,
		Cow<'static, SizedStr<5>>, Cow<'static, IpAddr>, SizedSlice<CString, 3>, SizedSlice<Rc<char>, 3>, SizedSlice<Option<String>, 2>, (Vec<u8>, Vec<u16>, Vec<u8>), (CString, CString), Range<String>, RangeInclusive<Vec<u8>>, Bound<Vec<char>>, Result<CString, CString>, [LinkedList<u8>; 2],
	}
	#[cfg(feature = "std")]
	ty! { v:
		SystemTime, Option<SystemTime>, [SystemTime; 2], Mutex<u8>, Mutex<char>, Mutex<usize>, RwLock<u16>, RwLock<char>, RwLock<[u8; 3]>, Mutex<RwLock<RefCell<usize>>>,
		HashMap<u8, u8>, HashMap<u16, u64>, HashMap<char, char>, HashMap<usize, usize>, HashMap<(), ()>, HashMap<u8, (u16, Option<bool>)>, HashMap<NonZero<u8>, NonZero<u16>>, HashMap<[u8; 2], [u8; 3]>,
		HashMap<u32, Duration, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>,
		HashSet<u8>, HashSet<u32>, HashSet<char>, HashSet<()>, HashSet<usize>, HashSet<(u8, bool)>, HashSet<u64, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>, HashSet<SizedStr<3>>, HashSet<SizedSlice<u8, 3>>,
		HashSet<NonZero<u8>>, HashSet<Option<char>>, HashSet<IpAddr>, HashSet<isize>, HashMap<NonZero<u16>, NonZero<u8>>, HashMap<char, Option<char>>, HashMap<i128, (u8, u8, u8)>, HashMap<IpAddr, IpAddr>, HashMap<usize, (usize, usize)>, Mutex<NonZero<u8>>, RwLock<usize>, RwLock<IpAddr>, Bound<SystemTime>, Range<SystemTime>, SizedSlice<SystemTime, 2>, Result<SystemTime, SystemTime>,
		Option<HashMap<u8, u16>>, [HashSet<u16>; 2], RefCell<HashSet<char>>, RwLock<HashMap<u8, bool>>,
	}
	#[cfg(all(feature = "std", feature = "alloc"))]
	ty! { v:
		HashMap<Vec<u16>, Vec<u8>>, HashMap<CString, CString>, HashSet<CString>, HashSet<Box<u8>>, HashSet<Vec<char>>, Mutex<CString>, RwLock<Option<String>>, Rc<Mutex<u8>>, LinkedList<SystemTime>,
		HashMap<String, String>, HashMap<Vec<u8>, Vec<u16>>, HashSet<String>, HashSet<Vec<u8>>, Vec<HashMap<u8, u8>>, HashMap<u8, Box<u16>>, Mutex<String>, Mutex<Vec<usize>>, RwLock<Vec<u8>>, Arc<Mutex<u64>>, Arc<RwLock<String>>, Vec<SystemTime>, Vec<HashSet<char>>, Box<SystemTime>, LinkedList<HashSet<u8>>,
	}
	#[cfg(feature = "proc-macro")]
	{
		use derived::*;
		ty! { v: Empty, Pair, Named<u8>, Named<SizedSlice<usize, 2>>, Named<Signed>, Signed, Plain, Option<Signed>, [Plain; 3], (Pair, Named<Empty>), Bound<Signed>, RefCell<Pair> }
		#[cfg(all(feature = "alloc", feature = "std"))]
		ty! { v: Tree, Vec<Tree>, Named<Vec<String>>, Named<Box<Tree>>, Vec<Pair>, HashMap<Wrapping<u8>, Wrapping<u8>> }
	}
	form! { v:
		"&u32" as u32 => &u32, |b| b, |g| &g;
		"&&char" as char => &&char, |b| b, |g| &&g;
		"&mut usize" as usize => &mut usize, |b| b, |g| &mut g;
		"&SizedStr<9>" as SizedStr<9> => &SizedStr<9>, |b| b, |g| &g;
		"&str (sized)" as SizedStr<40> => &str, |b| b, |g| &g;
		"&[u8] (sized)" as SizedSlice<u8, 40> => &[u8], |b| b, |g| &g;
		"&mut [usize] (sized)" as SizedSlice<usize, 9> => &mut [usize], |b| b, |g| &mut g;
		"LazyCell<u16>" as u16 => LazyCell<u16, fn() -> u16>, |b| { thread_local! { static V: Cell<u16> = const { Cell::new(0) } } V.with(|c| c.set(b)); V.with(|c| c.get()) }, |g| { thread_local! { static W: Cell<u16> = const { Cell::new(0) } } W.with(|c| c.set(g)); LazyCell::new(|| W.with(|c| c.get())) };
		"Option<&u8>" as Option<u8> => Option<&u8>, |b| b, |g| g.as_ref();
		"[&usize; 3]" as [usize; 3] => [&usize; 3], |b| b, |g| g.each_ref();
		"(&char, &char)" as (char, char) => (&char, &char), |b| b, |g| (&g.0, &g.1);
		"Result<&u8, &mut u64>" as Result<u8, u64> => Result<&u8, &mut u64>, |b| b, |g| match &mut g { Ok(a) => Ok(&*a), Err(e) => Err(e) };
		"Range<&u16>" as Range<u16> => Range<&u16>, |b| b, |g| &g.start..&g.end;
		"&RefCell<[u16]>" as RefCell<[u16; 0]> => &RefCell<[u16; 0]>, |b| b, |g| &g;
		"SizedSlice<&u16, 6>" as SizedSlice<u16, 6> => SizedSlice<&u16, 6>, |b| b, |g| g.each_ref();
		"SizedSlice<&mut char, 6>" as SizedSlice<char, 6> => SizedSlice<&mut char, 6>, |b| b, |g| g.each_mut();
		"&CStr (bytes)" as CString => &CStr, |b| b, |g| g.as_c_str();
		"&[u16]" as Vec<u16> => &[u16], |b| b, |g| g.as_slice();
		"&[Option<usize>]" as Vec<Option<usize>> => &[Option<usize>], |b| b, |g| g.as_slice();
		"&str" as String => &str, |b| b, |g| g.as_str();
		"&mut str" as String => &mut str, |b| b, |g| g.as_mut_str();
	}
	#[cfg(feature = "alloc")]
	form! { v:
		"Box<[u16]>" as Vec<u16> => Box<[u16]>, |b| b, |g| g.into_boxed_slice();
		"Box<str>" as String => Box<str>, |b| b, |g| g.into_boxed_str();
		"Box<CStr>" as CString => Box<CStr>, |b| b, |g| g.into_boxed_c_str();
		"Rc<[char]>" as Vec<char> => Rc<[char]>, |b| b, |g| g.into();
		"Arc<[usize]>" as Vec<usize> => Arc<[usize]>, |b| b, |g| g.into();
		"Rc<str>" as String => Rc<str>, |b| b, |g| g.into();
		"Arc<str>" as String => Arc<str>, |b| b, |g| g.into();
		"Cow<str> (borrowed)" as String => Cow<str>, |b| b, |g| Cow::Borrowed(g.as_str());
		"Cow<str> (owned)" as String => Cow<'static, str>, |b| b, |g| Cow::Owned(g);
		"Cow<[isize]> (borrowed)" as Vec<isize> => Cow<[isize]>, |b| b, |g| Cow::Borrowed(g.as_slice());
		"Cow<[u8]> (owned)" as Vec<u8> => Cow<'static, [u8]>, |b| b, |g| Cow::Owned(g);
		"Cow<CStr>" as CString => Cow<CStr>, |b| b, |g| Cow::Borrowed(g.as_c_str());
		"Cow<u64> (borrowed)" as u64 => Cow<u64>, |b| b, |g| Cow::Borrowed(&g);
		"Rc<RefCell<[u8]>>" as RefCell<Vec<u8>> => Rc<RefCell<Vec<u8>>>, |b| b, |g| Rc::new(g);
		"Box<&mut Vec<u8>>" as Vec<u8> => Box<&mut Vec<u8>>, |b| b, |g| Box::new(&mut g);
		"LinkedList<&u8>" as LinkedList<u8> => LinkedList<&u8>, |b| b, |g| g.iter().collect();
		"Vec<&str>" as Vec<String> => Vec<&str>, |b| b, |g| g.iter().map(String::as_str).collect();
	}
	#[cfg(feature = "std")]
	form! { v:
		"LazyLock<char>" as char => LazyLock<char, fn() -> char>, |b| b, |g| { thread_local! { static W: Cell<char> = const { Cell::new('a') } } W.with(|c| c.set(g)); LazyLock::new(|| W.with(|c| c.get())) };
		"&Mutex<u64>" as Mutex<u64> => &Mutex<u64>, |b| b, |g| &g;
		"&RwLock<Mutex<i8>>" as RwLock<Mutex<i8>> => &RwLock<Mutex<i8>>, |b| b, |g| &g;
		"HashMap<&u8, &u16>" as HashMap<u8, u16> => HashMap<&u8, &u16>, |b| b, |g| g.iter().collect();
	}
	#[cfg(all(feature = "std", feature = "proc-macro"))]
	form! { v:
		"Result<Pair, u8>" as Result<derived::Pair, u8> => Result<derived::Pair, u8>, |b| b, |g| g;
		"Result<usize-struct, usize>" as Result<derived::Pair, usize> => Result<derived::Pair, usize>, |b| b, |g| g;
	}
	v.v
}
