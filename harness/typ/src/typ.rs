//! Conversions between concrete types and reference values.

use vcore::schema::{int, Schema, Val};
use oct::{SizedSlice, SizedStr};
use std::cell::{Cell, RefCell};
use std::convert::Infallible;
use std::marker::{PhantomData, PhantomPinned};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use std::sync::atomic::*;
use std::time::Duration;

pub trait Typ: Sized {
	fn schema() -> Schema;
	fn from_val(v: &Val) -> Self;
	fn to_val(&self) -> Val;
}

fn bad<T>(v: &Val) -> T { panic!("unexpected reference value {v:?}") }
fn list(v: &Val) -> &[Val] { match v { Val::List(l) => l, v => bad(v) } }
fn bx(v: Val) -> Box<Val> { Box::new(v) }

macro_rules! ints {
	($($t:ident $w:ident $s:expr, $bits:literal;)*) => { $(
		impl Typ for $t {
			fn schema() -> Schema { int($bits, $s) }
			fn from_val(v: &Val) -> Self { match v { Val::$w(x) => *x as $t, v => bad(v) } }
			fn to_val(&self) -> Val { Val::$w(*self as _) }
		}
		impl Typ for NonZero<$t> {
			fn schema() -> Schema { Schema::NonZero(Box::new($t::schema())) }
			fn from_val(v: &Val) -> Self { NonZero::new($t::from_val(v)).unwrap() }
			fn to_val(&self) -> Val { self.get().to_val() }
		}
	)* };
}
ints! {
	u8 U false, 8; u16 U false, 16; u32 U false, 32; u64 U false, 64; u128 U false, 128;
	i8 I true, 8; i16 I true, 16; i32 I true, 32; i64 I true, 64; i128 I true, 128;
}
macro_rules! sizes {
	($($t:ident $w:ident $s:ident;)*) => { $(
		impl Typ for $t {
			fn schema() -> Schema { Schema::$s }
			fn from_val(v: &Val) -> Self { match v { Val::$w(x) => *x as $t, v => bad(v) } }
			fn to_val(&self) -> Val { Val::$w(*self as _) }
		}
		impl Typ for NonZero<$t> {
			fn schema() -> Schema { Schema::NonZero(Box::new(Schema::$s)) }
			fn from_val(v: &Val) -> Self { NonZero::new($t::from_val(v)).unwrap() }
			fn to_val(&self) -> Val { self.get().to_val() }
		}
	)* };
}
sizes! { usize U USize; isize I ISize; }
macro_rules! atomics {
	($($a:ident $t:ident;)*) => { $(
		impl Typ for $a {
			fn schema() -> Schema { $t::schema() }
			fn from_val(v: &Val) -> Self { $a::new($t::from_val(v)) }
			fn to_val(&self) -> Val { self.load(Ordering::SeqCst).to_val() }
		}
	)* };
}
atomics! {
	AtomicBool bool; AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize;
	AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize;
}
macro_rules! units {
	($([$($g:tt)*] $t:ty = $e:expr;)*) => { $(
		impl $($g)* Typ for $t {
			fn schema() -> Schema { Schema::Unit }
			fn from_val(_: &Val) -> Self { $e }
			fn to_val(&self) -> Val { Val::Unit }
		}
	)* };
}
units! { [] () = (); [<T>] PhantomData<T> = PhantomData; [] PhantomPinned = PhantomPinned; [] RangeFull = RangeFull; }

impl Typ for Infallible {
	fn schema() -> Schema { Schema::Never }
	fn from_val(v: &Val) -> Self { bad(v) }
	fn to_val(&self) -> Val { match *self {} }
}
impl Typ for bool {
	fn schema() -> Schema { Schema::Bool }
	fn from_val(v: &Val) -> Self { match v { Val::Bool(b) => *b, v => bad(v) } }
	fn to_val(&self) -> Val { Val::Bool(*self) }
}
impl Typ for f32 {
	fn schema() -> Schema { Schema::F32 }
	fn from_val(v: &Val) -> Self { match v { Val::F32(b) => f32::from_bits(*b), v => bad(v) } }
	fn to_val(&self) -> Val { Val::F32(self.to_bits()) }
}
impl Typ for f64 {
	fn schema() -> Schema { Schema::F64 }
	fn from_val(v: &Val) -> Self { match v { Val::F64(b) => f64::from_bits(*b), v => bad(v) } }
	fn to_val(&self) -> Val { Val::F64(self.to_bits()) }
}
impl Typ for char {
	fn schema() -> Schema { Schema::Char }
	fn from_val(v: &Val) -> Self { match v { Val::Char(c) => char::from_u32(*c).unwrap(), v => bad(v) } }
	fn to_val(&self) -> Val { Val::Char(*self as u32) }
}

macro_rules! wrap {
	($($(#[$m:meta])* $w:ident, $new:expr, |$s:ident| $get:expr;)*) => { $(
		$(#[$m])*
		impl<T: Typ> Typ for $w<T> {
			fn schema() -> Schema { T::schema() }
			fn from_val(v: &Val) -> Self { $new(T::from_val(v)) }
			fn to_val(&self) -> Val { let $s = self; $get }
		}
	)* };
}
use std::{rc::Rc, sync::{Arc, Mutex, RwLock}};
wrap! {
	Wrapping, Wrapping, |s| s.0.to_val();
	Saturating, Saturating, |s| s.0.to_val();
	Box, Box::new, |s| (**s).to_val();
	Rc, Rc::new, |s| (**s).to_val();
	Arc, Arc::new, |s| (**s).to_val();
	Mutex, Mutex::new, |s| s.lock().unwrap_or_else(|e| e.into_inner()).to_val();
	RwLock, RwLock::new, |s| s.read().unwrap_or_else(|e| e.into_inner()).to_val();
}
impl<T: Typ + Copy> Typ for Cell<T> {
	fn schema() -> Schema { T::schema() }
	fn from_val(v: &Val) -> Self { Cell::new(T::from_val(v)) }
	fn to_val(&self) -> Val { self.get().to_val() }
}
impl<T: Typ> Typ for RefCell<T> {
	fn schema() -> Schema { Schema::RefCell(Box::new(T::schema())) }
	fn from_val(v: &Val) -> Self { RefCell::new(T::from_val(v)) }
	fn to_val(&self) -> Val { self.borrow().to_val() }
}
impl<T: Typ + Clone> Typ for std::borrow::Cow<'static, T> {
	fn schema() -> Schema { T::schema() }
	fn from_val(v: &Val) -> Self { std::borrow::Cow::Owned(T::from_val(v)) }
	fn to_val(&self) -> Val { (**self).to_val() }
}
impl<T: Typ> Typ for Option<T> {
	fn schema() -> Schema { Schema::Opt(Box::new(T::schema())) }
	fn from_val(v: &Val) -> Self { match v { Val::Opt(o) => o.as_ref().map(|v| T::from_val(v)), v => bad(v) } }
	fn to_val(&self) -> Val { Val::Opt(self.as_ref().map(|v| bx(v.to_val()))) }
}
impl<T: Typ, X: Typ> Typ for Result<T, X> {
	fn schema() -> Schema { Schema::Res(Box::new(T::schema()), Box::new(X::schema())) }
	fn from_val(v: &Val) -> Self { match v { Val::Res(false, v) => Ok(T::from_val(v)), Val::Res(true, v) => Err(X::from_val(v)), v => bad(v) } }
	fn to_val(&self) -> Val { match self { Ok(v) => Val::Res(false, bx(v.to_val())), Err(v) => Val::Res(true, bx(v.to_val())) } }
}
impl<T: Typ> Typ for Bound<T> {
	fn schema() -> Schema { Schema::Bound(Box::new(T::schema())) }
	fn from_val(v: &Val) -> Self {
		match v {
			Val::Bound(0, Some(v)) => Bound::Included(T::from_val(v)),
			Val::Bound(1, Some(v)) => Bound::Excluded(T::from_val(v)),
			Val::Bound(2, None) => Bound::Unbounded,
			v => bad(v),
		}
	}
	fn to_val(&self) -> Val {
		match self {
			Bound::Included(v) => Val::Bound(0, Some(bx(v.to_val()))),
			Bound::Excluded(v) => Val::Bound(1, Some(bx(v.to_val()))),
			Bound::Unbounded => Val::Bound(2, None),
		}
	}
}
macro_rules! ranges {
	($($r:ident [$($f:ident),*] |$l:ident| $new:expr;)*) => { $(
		impl<T: Typ> Typ for $r<T> {
			fn schema() -> Schema { Schema::Tuple(vec![$({ let _ = stringify!($f); T::schema() }),*]) }
			fn from_val(v: &Val) -> Self { let $l = list(v); $new }
			fn to_val(&self) -> Val { Val::List(vec![$(self.$f.to_val()),*]) }
		}
	)* };
}
ranges! {
	Range [start, end] |l| T::from_val(&l[0])..T::from_val(&l[1]);
	RangeFrom [start] |l| T::from_val(&l[0])..;
	RangeTo [end] |l| ..T::from_val(&l[0]);
	RangeToInclusive [end] |l| ..=T::from_val(&l[0]);
}
impl<T: Typ> Typ for RangeInclusive<T> {
	fn schema() -> Schema { Schema::Tuple(vec![T::schema(), T::schema()]) }
	fn from_val(v: &Val) -> Self { let l = list(v); T::from_val(&l[0])..=T::from_val(&l[1]) }
	fn to_val(&self) -> Val { Val::List(vec![self.start().to_val(), self.end().to_val()]) }
}
macro_rules! tuples {
	($(($($t:ident $i:tt),+);)*) => { $(
		impl<$($t: Typ),+> Typ for ($($t,)+) {
			fn schema() -> Schema { Schema::Tuple(vec![$($t::schema()),+]) }
			fn from_val(v: &Val) -> Self { let l = list(v); ($($t::from_val(&l[$i]),)+) }
			fn to_val(&self) -> Val { Val::List(vec![$(self.$i.to_val()),+]) }
		}
	)* };
}
tuples! {
	(A 0);
	(A 0, B 1);
	(A 0, B 1, C 2);
	(A 0, B 1, C 2, D 3);
	(A 0, B 1, C 2, D 3, E 4);
	(A 0, B 1, C 2, D 3, E 4, F 5);
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
}
impl<T: Typ, const N: usize> Typ for [T; N] {
	fn schema() -> Schema { Schema::Array(N, Box::new(T::schema())) }
	fn from_val(v: &Val) -> Self { let l = list(v); assert_eq!(l.len(), N); std::array::from_fn(|i| T::from_val(&l[i])) }
	fn to_val(&self) -> Val { Val::List(self.iter().map(Typ::to_val).collect()) }
}
impl<T: Typ> Typ for Vec<T> {
	fn schema() -> Schema { Schema::Seq(None, Box::new(T::schema())) }
	fn from_val(v: &Val) -> Self { list(v).iter().map(T::from_val).collect() }
	fn to_val(&self) -> Val { Val::List(self.iter().map(Typ::to_val).collect()) }
}
impl<T: Typ> Typ for std::collections::LinkedList<T> {
	fn schema() -> Schema { Schema::Seq(None, Box::new(T::schema())) }
	fn from_val(v: &Val) -> Self { list(v).iter().map(T::from_val).collect() }
	fn to_val(&self) -> Val { Val::List(self.iter().map(Typ::to_val).collect()) }
}
impl<T: Typ, const N: usize> Typ for SizedSlice<T, N> {
	fn schema() -> Schema { Schema::Seq(Some(N), Box::new(T::schema())) }
	fn from_val(v: &Val) -> Self { let l = list(v); assert!(l.len() <= N); l.iter().map(T::from_val).collect() }
	fn to_val(&self) -> Val { Val::List(self.as_slice().iter().map(Typ::to_val).collect()) }
}
fn text(v: &Val) -> &str { match v { Val::Bytes(b) => std::str::from_utf8(b).unwrap(), v => bad(v) } }
impl Typ for String {
	fn schema() -> Schema { Schema::Str(None) }
	fn from_val(v: &Val) -> Self { text(v).into() }
	// The text itself is validated, as it may come from a faulty decoder.
	fn to_val(&self) -> Val { Val::Bytes(self.as_bytes().to_vec()) }
}
impl<const N: usize> Typ for SizedStr<N> {
	fn schema() -> Schema { Schema::Str(Some(N)) }
	fn from_val(v: &Val) -> Self { Self::new(text(v)).unwrap() }
	fn to_val(&self) -> Val { Val::Bytes(self.as_bytes().to_vec()) }
}
impl Typ for std::ffi::CString {
	fn schema() -> Schema { Schema::CStr }
	fn from_val(v: &Val) -> Self { match v { Val::Bytes(b) => Self::new(b.clone()).unwrap(), v => bad(v) } }
	fn to_val(&self) -> Val {
		let b = self.as_bytes_with_nul();
		assert_eq!(b.last(), Some(&0), "C string is not terminated");
		Val::Bytes(b[..b.len() - 1].to_vec())
	}
}
impl Typ for Ipv4Addr {
	fn schema() -> Schema { Schema::Ip4 }
	fn from_val(v: &Val) -> Self { match v { Val::Ip(4, x) => Self::from_bits(*x as u32), v => bad(v) } }
	fn to_val(&self) -> Val { Val::Ip(4, u128::from(self.to_bits())) }
}
impl Typ for Ipv6Addr {
	fn schema() -> Schema { Schema::Ip6 }
	fn from_val(v: &Val) -> Self { match v { Val::Ip(6, x) => Self::from_bits(*x), v => bad(v) } }
	fn to_val(&self) -> Val { Val::Ip(6, self.to_bits()) }
}
impl Typ for IpAddr {
	fn schema() -> Schema { Schema::Ip }
	fn from_val(v: &Val) -> Self { match v { Val::Ip(4, _) => Self::V4(Typ::from_val(v)), _ => Self::V6(Typ::from_val(v)) } }
	fn to_val(&self) -> Val { match self { Self::V4(a) => a.to_val(), Self::V6(a) => a.to_val() } }
}
impl Typ for SocketAddrV4 {
	fn schema() -> Schema { Schema::Sock4 }
	fn from_val(v: &Val) -> Self { match v { Val::Sock(4, ip, p, _, _) => Self::new(Ipv4Addr::from_bits(*ip as u32), *p), v => bad(v) } }
	fn to_val(&self) -> Val { Val::Sock(4, u128::from(self.ip().to_bits()), self.port(), 0, 0) }
}
impl Typ for SocketAddrV6 {
	fn schema() -> Schema { Schema::Sock6 }
	fn from_val(v: &Val) -> Self { match v { Val::Sock(6, ip, p, f, s) => Self::new(Ipv6Addr::from_bits(*ip), *p, *f, *s), v => bad(v) } }
	fn to_val(&self) -> Val { Val::Sock(6, self.ip().to_bits(), self.port(), self.flowinfo(), self.scope_id()) }
}
impl Typ for SocketAddr {
	fn schema() -> Schema { Schema::Sock }
	fn from_val(v: &Val) -> Self { match v { Val::Sock(4, ..) => Self::V4(Typ::from_val(v)), _ => Self::V6(Typ::from_val(v)) } }
	fn to_val(&self) -> Val { match self { Self::V4(a) => a.to_val(), Self::V6(a) => a.to_val() } }
}
impl Typ for Duration {
	fn schema() -> Schema { Schema::Dur }
	fn from_val(v: &Val) -> Self { match v { Val::Dur(s, n) => Self::new(*s, *n), v => bad(v) } }
	fn to_val(&self) -> Val { Val::Dur(self.as_secs(), self.subsec_nanos()) }
}
impl Typ for std::time::SystemTime {
	fn schema() -> Schema { Schema::Time }
	fn from_val(v: &Val) -> Self {
		let Val::Time(t) = v else { return bad(v) };
		let d = Duration::from_secs(t.unsigned_abs());
		if *t < 0 { Self::UNIX_EPOCH.checked_sub(d).unwrap() } else { Self::UNIX_EPOCH.checked_add(d).unwrap() }
	}
	fn to_val(&self) -> Val {
		match self.duration_since(Self::UNIX_EPOCH) {
			Ok(d) => { assert_eq!(d.subsec_nanos(), 0); Val::Time(i64::try_from(d.as_secs()).unwrap()) }
			Err(e) => { let d = e.duration(); assert_eq!(d.subsec_nanos(), 0); Val::Time((-i128::from(d.as_secs())) as i64) }
		}
	}
}
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
impl<K: Typ + Eq + Hash, V: Typ, S: BuildHasher + Default> Typ for HashMap<K, V, S> {
	fn schema() -> Schema { Schema::Map(Box::new(K::schema()), Box::new(V::schema())) }
	fn from_val(v: &Val) -> Self { match v { Val::Map(m) => m.iter().map(|(k, v)| (K::from_val(k), V::from_val(v))).collect(), v => bad(v) } }
	fn to_val(&self) -> Val { let mut m: Vec<_> = self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect(); m.sort(); Val::Map(m) }
}
impl<K: Typ + Eq + Hash, S: BuildHasher + Default> Typ for HashSet<K, S> {
	fn schema() -> Schema { Schema::Set(Box::new(K::schema())) }
	fn from_val(v: &Val) -> Self { match v { Val::Set(m) => m.iter().map(K::from_val).collect(), v => bad(v) } }
	fn to_val(&self) -> Val { let mut m: Vec<_> = self.iter().map(Typ::to_val).collect(); m.sort(); Val::Set(m) }
}
