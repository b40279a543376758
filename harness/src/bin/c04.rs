//! C04: maximum sizes.
use vcore::mon::{Cfg, Mon};
use vreg::codec;

/// Forms that encode as their content do, of contents whose size in memory is less than, equal to and greater than the encoded one.
mod forms {
	use oct::encode::{Encode, Output, SizedEncode};
	use oct::{SizedSlice, SizedStr};
	use std::any::Any;
	use std::borrow::Cow;
	use std::cell::{Cell, LazyCell, RefCell};
	use std::fmt::Debug;
	use std::net::*;
	use std::num::*;
	use std::ops::*;
	use std::rc::Rc;
	use std::sync::{Arc, LazyLock, Mutex, RwLock};
	use std::time::{Duration, SystemTime};
	use vcore::mon::{catch, hex, Mon};

	fn one<F: SizedEncode + ?Sized>(form: &str, name: &str, max: usize, v: &F, want: &[u8], m: &mut Mon) {
		let n = form.replace('_', name);
		m.count("forms around contents", 1);
		m.eval(Some(vcore::hash_fmt!("{n} {want:?}")));
		if F::MAX_ENCODED_SIZE != max { m.violation(&format!("form {n}"), || format!("`{n}`: MAX_ENCODED_SIZE is {} instead of {max}", F::MAX_ENCODED_SIZE)) }
		// The advertised room, whatever it is, has to do.
		let mut b = vec![0xA5u8; F::MAX_ENCODED_SIZE];
		let got = catch(|| { let mut o = Output::new(&mut b); let ok = v.encode(&mut o).is_ok(); (ok, o.position()) });
		match got {
			Ok((true, k)) if k == want.len() && b[..k] == *want => {}
			x => m.violation(&format!("form room {n}"), || format!("`{n}`: in {} bytes, the advertised room, a value whose encoding is {} gave {x:?}", F::MAX_ENCODED_SIZE, hex(want))),
		}
	}

	// The lazy ones can be encoded only with plain functions, which find the value here.
	thread_local! { static LAST: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) } }
	fn last<T: Clone + 'static>() -> T { LAST.with(|l| l.borrow().as_ref().unwrap().downcast_ref::<T>().unwrap().clone()) }
	fn leaked<T: Clone + 'static>() -> &'static mut T { Box::leak(Box::new(last())) }

	fn all<T: SizedEncode + Clone + Debug + 'static>(name: &str, max: usize, v: T, m: &mut Mon) where T::Error: Debug {
		vcore::crumb!("C04: forms around {name}");
		LAST.with(|l| *l.borrow_mut() = Some(Box::new(v.clone())));
		let mut b = vec![0u8; max + 64];
		let k = { let mut o = Output::new(&mut b); v.encode(&mut o).unwrap(); o.position() };
		let w = &b[..k];
		if k > max { m.violation(&format!("form exceeds {name}"), || format!("`{name}`: {v:?} took {k} bytes, by the data model it takes at most {max}")) }
		one("_", name, max, &v, w, m);
		one("&_", name, max, &&v, w, m);
		one("&&_", name, max, &&&v, w, m);
		one("&mut _", name, max, &&mut v.clone(), w, m);
		one("&mut &mut _", name, max, &&mut &mut v.clone(), w, m);
		one("&mut &_", name, max, &&mut &v, w, m);
		one("Box<_>", name, max, &Box::new(v.clone()), w, m);
		one("Box<&mut _>", name, max, &Box::new(&mut v.clone()), w, m);
		one("Rc<_>", name, max, &Rc::new(v.clone()), w, m);
		one("Arc<_>", name, max, &Arc::new(v.clone()), w, m);
		one("RefCell<_>", name, max, &RefCell::new(v.clone()), w, m);
		one("Cell<&_>", name, max, &Cell::new(&v), w, m);
		one("Mutex<_>", name, max, &Mutex::new(v.clone()), w, m);
		one("RwLock<_>", name, max, &RwLock::new(v.clone()), w, m);
		one("Cow<_> (borrowed)", name, max, &Cow::Borrowed(&v), w, m);
		one("Cow<_> (owned)", name, max, &Cow::<T>::Owned(v.clone()), w, m);
		one("Wrapping<_>", name, max, &Wrapping(v.clone()), w, m);
		one("Saturating<_>", name, max, &Saturating(v.clone()), w, m);
		one("LazyCell<_>", name, max, &LazyCell::<T>::new(last), w, m);
		one("LazyLock<_>", name, max, &LazyLock::<T>::new(last), w, m);
		one("LazyCell<&mut _>", name, max, &LazyCell::<&mut T>::new(leaked), w, m);
		one("Arc<Mutex<_>>", name, max, &Arc::new(Mutex::new(v.clone())), w, m);
		one("(_,)", name, max, &(v.clone(),), w, m);
		one("RangeTo<&_>", name, max, &(..&v), w, m);
		one("RangeToInclusive<_>", name, max, &(..=v.clone()), w, m);
		one("RangeFrom<&mut _>", name, max, &(&mut v.clone()..), w, m);
		// And forms of several, or behind a discriminant.
		let (d, t) = ([w, w].concat(), |x: u8| [&[x][..], w].concat());
		one("[&_; 2]", name, max * 2, &[&v, &v], &d, m);
		one("Range<&_>", name, max * 2, &(&v..&v), &d, m);
		one("RangeInclusive<&mut _>", name, max * 2, &(&mut v.clone()..=&mut v.clone()), &d, m);
		one("Option<&_>", name, max + 1, &Some(&v), &t(1), m);
		one("Option<&mut _>", name, max + 1, &Some(&mut v.clone()), &t(1), m);
		one("Option<Option<&_>>", name, max + 2, &Some(Some(&v)), &t(1).iter().fold(vec![1], |mut a, x| { a.push(*x); a }), m);
		one("Bound<&mut _>", name, max + 1, &Bound::Included(&mut v.clone()), &t(0), m);
		one("SizedSlice<&_, 2>", name, max * 2 + 2, &SizedSlice::<&T, 2>::new(&[&v, &v]).unwrap(), &[&[2, 0][..], &d].concat(), m);
		one("SizedSlice<&_, 0>", name, 2, &SizedSlice::<&T, 0>::new(&[]).unwrap(), &[0, 0], m);
		one("[&_; 0]", name, 0, &[&v; 0], &[], m);
	}

	#[derive(Clone, Debug, Encode, SizedEncode)]
	enum Chosen { _A, _B(u16, bool), C { x: u32, y: Option<u8> } }

	pub fn run(m: &mut Mon) {
		macro_rules! t { ($($t:ty: $max:expr, $($v:expr),+;)*) => { $( $( all::<$t>(stringify!($t), $max, $v, m); )+ )* } }
		t! {
			(): 0, ();
			Chosen: 8, Chosen::C { x: 1, y: Some(2) };
			bool: 1, true;
			u8: 1, 255;
			u16: 2, 1;
			u32: 4, u32::MAX;
			i64: 8, -1;
			u128: 16, u128::MAX;
			f64: 8, f64::NAN;
			usize: 2, 0, 65535;
			isize: 2, -32768, 32767;
			char: 4, '\u{10FFFF}';
			NonZero<u8>: 1, NonZero::new(7).unwrap();
			NonZero<usize>: 2, NonZero::new(65535).unwrap();
			Option<NonZero<u8>>: 2, None, NonZero::new(7u8);
			Option<Option<bool>>: 3, Some(Some(true));
			[Option<bool>; 7]: 14, [Some(true); 7];
			Option<u64>: 9, Some(1), None;
			Option<usize>: 3, Some(65535);
			[u64; 4]: 32, [u64::MAX; 4];
			[usize; 5]: 10, [65535; 5];
			[u8; 0]: 0, [];
			(u8, u32, u8): 6, (1, 2, 3);
			(bool, Option<bool>, Option<Option<bool>>): 6, (true, Some(true), Some(Some(true)));
			Result<u8, u64>: 9, Ok(1), Err(2);
			Bound<u16>: 3, Bound::Excluded(9), Bound::Unbounded;
			Range<usize>: 4, 1..2;
			RangeFull: 0, ..;
			Duration: 12, Duration::new(1, 999_999_999);
			SystemTime: 8, SystemTime::UNIX_EPOCH;
			Ipv4Addr: 4, Ipv4Addr::BROADCAST;
			Ipv6Addr: 16, Ipv6Addr::LOCALHOST;
			IpAddr: 17, IpAddr::V6(Ipv6Addr::LOCALHOST), IpAddr::V4(Ipv4Addr::BROADCAST);
			SocketAddrV6: 26, SocketAddrV6::new(Ipv6Addr::LOCALHOST, 1, 2, 3);
			SocketAddr: 27, SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::LOCALHOST, 1, 2, 3));
			SizedStr<40>: 42, SizedStr::new(&"x".repeat(40)).unwrap(), SizedStr::new("").unwrap();
			SizedStr<0>: 2, SizedStr::new("").unwrap();
			SizedSlice<u16, 300>: 602, SizedSlice::new(&[7; 300]).unwrap();
			SizedSlice<Option<NonZero<u8>>, 9>: 20, SizedSlice::new(&[NonZero::new(7); 9]).unwrap();
			SizedSlice<(), 9>: 2, SizedSlice::new(&[(); 9]).unwrap();
		}
	}
}

pub fn run(cfg: &Cfg) -> Mon {
	let mut m = codec::each(cfg, "C04", cfg.n(600, 8000), codec::max_size);
	forms::run(&mut m);
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
