//! C22: errors.
use oct::error::*;
use std::error::Error;
use std::fmt;
use vcore::mon::{catch, Cfg, Mon};
use vcore::rng::{hash_bytes, Rng};
use vreg::{codec, report};
use vtyp::err::View;

/// Errors put together by hand, as manual implementors would.
macro_rules! by_hand {
	($m:ident, $conv:ident: $($e:expr),+ $(,)?) => { $({
		let e = $e;
		let v = e.view();
		let r = catch(|| { let x = e; (x.view(), report!(x, $conv)) });
		$m.count("errors put together by hand", 1);
		codec::judge_report(stringify!($e), &v, r, $m);
	})+ };
}

fn combos(m: &mut Mon, r: &mut Rng) {
	let n = r.u64() as usize >> r.below(64);
	let i = r.below(70_000);
	let s = (r.u64() as isize) >> r.below(64);
	let a = r.below(70_000);
	let l = LengthError { capacity: a, len: n };
	let l2 = || LengthError { capacity: a, len: n };
	let u = || Utf8Error { value: i as u8, index: n };
	by_hand! { m, ge:
		UsizeEncodeError(n), IsizeEncodeError(s),
		ItemEncodeError { index: i, error: UsizeEncodeError(n) },
		CollectionEncodeError::<UsizeEncodeError, ItemEncodeError<usize, IsizeEncodeError>>::BadLength(UsizeEncodeError(n)),
		CollectionEncodeError::<UsizeEncodeError, ItemEncodeError<usize, IsizeEncodeError>>::BadItem(ItemEncodeError { index: i, error: IsizeEncodeError(s) }),
		EnumEncodeError::<usize, IsizeEncodeError>::BadDiscriminant(UsizeEncodeError(n)),
		EnumEncodeError::<usize, IsizeEncodeError>::BadField(IsizeEncodeError(s)),
		EnumEncodeError::<isize, GenericEncodeError>::BadField(GenericEncodeError::LargeUsize(UsizeEncodeError(n))),
		GenericEncodeError::LargeUsize(UsizeEncodeError(n)),
		GenericEncodeError::LargeIsize(IsizeEncodeError(s)),
		std::cell::RefCell::new(0u8).try_borrow_mut().map(|g| { let c = std::cell::RefCell::new(0u8); let _h = c.borrow_mut(); let e = c.try_borrow().unwrap_err(); drop(g); e }).unwrap(),
		{ let c = std::cell::RefCell::new(0u8); let _h = c.borrow_mut(); let e = c.try_borrow().unwrap_err(); RefCellEncodeError::<UsizeEncodeError>::BadBorrow(e) },
		{ let c = std::cell::RefCell::new(0u8); let _h = c.borrow_mut(); let e = c.try_borrow().unwrap_err(); GenericEncodeError::BadBorrow(e) },
		RefCellEncodeError::<UsizeEncodeError>::BadValue(UsizeEncodeError(n)),
		ItemEncodeError { index: i, error: RefCellEncodeError::<IsizeEncodeError>::BadValue(IsizeEncodeError(s)) },
	}
	by_hand! { m, gd:
		l, u(), NonZeroDecodeError, CharDecodeError { code_point: n as u32 }, CStringDecodeError { index: n }, SystemTimeDecodeError { timestamp: s as i64 },
		ItemDecodeError { index: i, error: l2() }, ItemDecodeError { index: i, error: ItemDecodeError { index: n, error: u() } },
		CollectionDecodeError::<LengthError, ItemDecodeError<usize, Utf8Error>>::BadLength(l2()),
		CollectionDecodeError::<LengthError, ItemDecodeError<usize, Utf8Error>>::BadItem(ItemDecodeError { index: i, error: u() }),
		CollectionDecodeError::<LengthError, Utf8Error>::BadItem(u()),
		EnumDecodeError::<u8, NonZeroDecodeError>::BadField(NonZeroDecodeError),
		EnumDecodeError::<std::num::NonZero<u8>, NonZeroDecodeError2>::InvalidDiscriminant(NonZeroDecodeError).erase(),
		EnumDecodeError::<u8, Utf8Error>::UnassignedDiscriminant { value: i as u8 },
		EnumDecodeError::<u16, Utf8Error>::UnassignedDiscriminant { value: n as u16 },
		EnumDecodeError::<u32, Utf8Error>::UnassignedDiscriminant { value: n as u32 },
		EnumDecodeError::<u64, Utf8Error>::UnassignedDiscriminant { value: n as u64 },
		EnumDecodeError::<u128, Utf8Error>::UnassignedDiscriminant { value: r.u128() },
		EnumDecodeError::<usize, Utf8Error>::UnassignedDiscriminant { value: n },
		EnumDecodeError::<i8, Utf8Error>::UnassignedDiscriminant { value: s as i8 },
		EnumDecodeError::<i16, Utf8Error>::UnassignedDiscriminant { value: s as i16 },
		EnumDecodeError::<i32, Utf8Error>::UnassignedDiscriminant { value: s as i32 },
		EnumDecodeError::<i64, Utf8Error>::UnassignedDiscriminant { value: s as i64 },
		EnumDecodeError::<i128, Utf8Error>::UnassignedDiscriminant { value: r.u128() as i128 },
		EnumDecodeError::<isize, Utf8Error>::UnassignedDiscriminant { value: s },
		EnumDecodeError::<u8, EnumDecodeError<i16, Utf8Error>>::BadField(EnumDecodeError::UnassignedDiscriminant { value: s as i16 }),
		GenericDecodeError::BadString(u()), GenericDecodeError::NullString(CStringDecodeError { index: n }), GenericDecodeError::NullInteger(NonZeroDecodeError),
		GenericDecodeError::SmallBuffer(l2()), GenericDecodeError::UnassignedDiscriminant { value: r.u128() }, GenericDecodeError::NarrowSystemTime(SystemTimeDecodeError { timestamp: s as i64 }),
	}
	// The remaining errors have no normal form; they are judged by their words.
	let (c, p, k) = (r.below(1 << 20), r.below(1 << 20), n);
	words(m, &InputError { capacity: c, position: p, count: k }, &[k, p, c], None, &["read"]);
	words(m, &OutputError { capacity: c, position: p, count: k }, &[k, p, c], None, &["write"]);
	words(m, &StringError::BadUtf8(u()), &[i as u8 as usize, n], Some("Utf8Error"), &["utf", "8"]);
	words(m, &StringError::SmallBuffer(l2()), &[a, n], Some("LengthError"), &[]);
	words(m, &StringError::BadUtf16(Utf16Error { value: i as u16, index: n }), &[i as u16 as usize, n], Some("Utf16Error"), &["utf", "16"]);
	words(m, &Utf16Error { value: i as u16, index: n }, &[i as u16 as usize, n], None, &["utf", "16"]);
}

fn words<T: Error + 'static>(m: &mut Mon, e: &T, nums: &[usize], source: Option<&str>, kind: &[&str]) {
	let r = catch(|| (e.to_string(), format!("{e:?}"), e.source().map(|s| (format!("{s:?}"), s.to_string(), s.source().is_some()))));
	m.count("errors judged by their words", 1);
	let (d, g, s) = match r { Ok(x) => x, Err(p) => { m.violation("words panic", || format!("describing an error panicked: {p}")); return } };
	m.eval(Some(hash_bytes(g.as_bytes())));
	let facts: Vec<Vec<String>> = nums.iter().map(|n| vec![n.to_string(), format!("{n:#x}"), format!("{n:x}"), format!("{n:04x}")]).collect();
	let has = |d: &str| codec::in_order(d, &facts) && kind.iter().all(|k| codec::split(d).iter().any(|w| w == k));
	if !has(&d) { m.violation(&format!("words {}", g.split([' ', '(']).next().unwrap()), || format!("{g} describes itself as {d:?}")) }
	let ok = match (source, &s) { (None, None) => true, (Some(w), Some((g, d, more))) => g.starts_with(w) && has(d) && !more, _ => false };
	if !ok { m.violation(&format!("words source {}", g.split([' ', '(']).next().unwrap()), || format!("{g} has the source {s:?}")) }
}

// `NonZero<u8>` has no place as a discriminant in the generic conversion; erase it.
#[derive(Debug)]
struct NonZeroDecodeError2;
impl fmt::Display for NonZeroDecodeError2 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("x") } }
impl Error for NonZeroDecodeError2 {}
trait Erase { fn erase(self) -> NonZeroDecodeError; }
impl Erase for EnumDecodeError<std::num::NonZero<u8>, NonZeroDecodeError2> {
	fn erase(self) -> NonZeroDecodeError {
		let s = self.source().expect("the cause is the source");
		assert!(s.is::<NonZeroDecodeError>(), "the cause is another: {s:?}");
		assert!(!self.to_string().is_empty());
		match self { Self::InvalidDiscriminant(e) => e, _ => unreachable!() }
	}
}

/// An error of a user's own, with a chain of its own.
#[derive(Debug)]
struct Root(u32);
impl fmt::Display for Root { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "root {}", self.0) } }
impl Error for Root {}
#[derive(Debug)]
struct Mid(Root);
impl fmt::Display for Mid { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "mid of {}", self.0) } }
impl Error for Mid { fn source(&self) -> Option<&(dyn Error + 'static)> { Some(&self.0) } }

fn foreign(m: &mut Mon, n: u32) {
	fn walk(m: &mut Mon, n: u32, e: &(dyn Error + 'static)) {
		let mut c = Some(e);
		let mut k = 0;
		let mut found = false;
		while let Some(x) = c {
			if let Some(Root(v)) = x.downcast_ref::<Root>() { found = *v == n; }
			if !x.to_string().contains(&n.to_string()) { m.violation("foreign words", || format!("{x:?} describes itself as {x}")) }
			k += 1;
			if k > 40 { break }
			c = x.source();
		}
		m.count("foreign causes", 1);
		m.eval(Some(vcore::hash_fmt!("{e:?}")));
		if !found || k > 40 { m.violation("foreign cause", || format!("the sources of {e:?} do not lead to its cause ({k} links)")) }
	}
	let mid = || Mid(Root(n));
	walk(m, n, &ItemDecodeError { index: 3usize, error: mid() });
	walk(m, n, &ItemEncodeError { index: 3usize, error: mid() });
	walk(m, n, &CollectionDecodeError::<Mid, Root>::BadLength(mid()));
	walk(m, n, &CollectionDecodeError::<Root, ItemDecodeError<usize, Mid>>::BadItem(ItemDecodeError { index: 3, error: mid() }));
	walk(m, n, &CollectionEncodeError::<Mid, Root>::BadLength(mid()));
	walk(m, n, &CollectionEncodeError::<Root, ItemEncodeError<usize, Mid>>::BadItem(ItemEncodeError { index: 3, error: mid() }));
	walk(m, n, &EnumDecodeError::<u8, Mid>::BadField(mid()));
	walk(m, n, &EnumEncodeError::<u8, Mid>::BadField(mid()));
	walk(m, n, &RefCellEncodeError::<Mid>::BadValue(mid()));
	walk(m, n, &ItemDecodeError { index: 1usize, error: CollectionDecodeError::<Root, EnumDecodeError<i8, ItemDecodeError<u64, Mid>>>::BadItem(EnumDecodeError::BadField(ItemDecodeError { index: 2, error: mid() })) });
}

pub fn run(cfg: &Cfg) -> Mon {
	let mut m = codec::each(cfg, "C22", cfg.n(250, 8000), codec::errors);
	let mut r = Rng::sub(cfg.seed, "C22 by hand");
	let res = catch(|| for _ in 0..cfg.n(300, 20_000) { combos(&mut m, &mut r); foreign(&mut m, r.u64() as u32) });
	if let Err(p) = res { m.violation("panic", || format!("unexpected panic: {p}")) }
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
