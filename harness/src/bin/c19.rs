//! C19: all forms of the same content share one encoding.
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, LazyCell, RefCell};
use std::collections::LinkedList;
use std::ffi::{CStr, CString};
use std::fmt::Debug;
use std::num::{NonZero, Saturating, Wrapping};
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, LazyLock, Mutex, RwLock};
use vcore::mon::{catch, hex, parallel, Cfg, Mon};
use vcore::rng::{hash_bytes, Rng};
use vcore::schema::E;
use vh::strs::text;
use vtyp::err::View;

type Got<T> = Result<Result<T, E>, String>;

fn enc<T: Encode<Error: View> + ?Sized>(v: &T, room: usize) -> Got<Vec<u8>> {
	let mut buf = vec![0x5A; room];
	catch(|| { let mut o = Output::new(&mut buf); v.encode(&mut o).map(|()| o.as_slice().to_vec()).map_err(|e| e.view()) })
}

/// Decodes from in front of other bytes; gives what was left, too.
fn dec<T: Decode<Error: View>>(b: &[u8]) -> Got<(T, usize)> {
	let mut src = b.to_vec();
	src.extend([0, 1, 0xFF]);
	catch(|| { let mut i = Input::new(&src); T::decode(&mut i).map(|v| (v, i.remaining() - 3)).map_err(|e| e.view()) })
}

struct Group<'a> { name: String, what: String, want: Vec<u8>, room: usize, m: &'a mut Mon }

impl Group<'_> {
	fn form<T: Encode<Error: View> + ?Sized>(&mut self, form: &str, v: &T) {
		self.m.count("forms encoded", 1);
		self.m.eval((self.want.len() > 2).then(|| hash_bytes(self.name.as_bytes()) ^ hash_bytes(form.as_bytes()) ^ hash_bytes(&self.want)));
		let got = enc(v, self.room);
		if got != Ok(Ok(self.want.clone())) {
			let got = got.map(|r| r.map(|b| hex(&b)));
			let (name, what, want) = (&self.name, &self.what, hex(&self.want));
			self.m.violation(&format!("{name} as {form}"), || format!("{name} {what} as {form} encodes as {got:?} instead of {want}"));
		}
	}
	/// Decodes as `T`, of which `see` should say yes.
	fn back<T: Decode<Error: View>>(&mut self, form: &str, see: impl FnOnce(&T) -> bool) {
		self.m.count("forms decoded", 1);
		let got = dec::<T>(&self.want);
		let bad = match &got { Ok(Ok((v, 0))) => if catch(|| see(v)) == Ok(true) { return } else { "something else".to_string() }, Ok(Ok((_, n))) => format!("something, but left {n} bytes"), Ok(Err(e)) => format!("{e:?}"), Err(p) => format!("a panic: {p}") };
		let (name, what, want) = (&self.name, &self.what, hex(&self.want));
		self.m.violation(&format!("{name} into {form}"), || format!("{name} {what}: {want} decoded as {form} gave {bad}"));
	}
	/// Decodes as `T`, which has too little room.
	fn long<T: Decode<Error: View>>(&mut self, form: &str, cap: usize, len: usize) {
		self.m.count("long counts refused", 1);
		let got = dec::<T>(&self.want).map(|r| r.map(|_| ()));
		let e = E::Len(Box::new(E::Cap { cap, len }));
		if got != Ok(Err(e.clone())) {
			let (name, what) = (&self.name, &self.what);
			self.m.violation(&format!("{name} into {form}"), || format!("{name} {what}: decoding {len} items as {form} gave {got:?} instead of {e:?}"));
		}
	}
}

fn sequence<T>(name: &str, v: Vec<T>, m: &mut Mon) where T: Encode<Error: View> + Decode<Error: View> + Clone + PartialEq + Debug {
	// The count and the items.
	let n = v.len();
	let mut want = (n as u16).to_le_bytes().to_vec();
	for x in &v { want.extend(enc(x, 4096).unwrap().unwrap()) }
	let mut w = v.clone();
	let room = want.len() + 7;
	let mut what = format!("{v:?}");
	vcore::mon::trunc(&mut what, 300);
	let mut g = Group { name: format!("[{name}]"), what, want, room, m };
	g.form("a slice", &v[..]);
	g.form("a reference to a slice", &&v[..]);
	g.form("a mutable reference to a slice", &&mut w[..]);
	g.form("Vec", &v);
	g.form("&Vec", &&v);
	g.form("Box<[_]>", &v.clone().into_boxed_slice());
	g.form("Box<Vec>", &Box::new(v.clone()));
	g.form("Rc<[_]>", &Rc::<[T]>::from(v.clone()));
	g.form("Arc<[_]>", &Arc::<[T]>::from(v.clone()));
	g.form("LinkedList", &v.iter().cloned().collect::<LinkedList<T>>());
	g.form("LinkedList of references", &v.iter().collect::<LinkedList<&T>>());
	g.form("Cow::Borrowed", &Cow::Borrowed(&v[..]));
	g.form("Cow::Owned", &Cow::<[T]>::Owned(v.clone()));
	g.form("Mutex<Vec>", &Mutex::new(v.clone()));
	g.form("RwLock<Vec>", &RwLock::new(v.clone()));
	g.form("RefCell<Vec>", &RefCell::new(v.clone()));
	g.form("Vec of references", &v.iter().collect::<Vec<_>>());
	g.form("Vec of boxes", &v.iter().cloned().map(Box::new).collect::<Vec<_>>());
	macro_rules! sized { ($($n:literal)*) => { $(
		if let Ok(s) = SizedSlice::<T, $n>::new(&v) {
			g.form(concat!("SizedSlice of ", $n), &s);
			g.form(concat!("&SizedSlice of ", $n), &&s);
			g.form(concat!("its slice of ", $n), s.as_slice());
			g.form(concat!("Box of SizedSlice of ", $n), &Box::new(s.clone()));
			g.form(concat!("SizedSlice of references of ", $n), &s.each_ref());
			g.back::<SizedSlice<T, $n>>(concat!("SizedSlice of ", $n), |x| x.as_slice() == v);
			g.back::<Rc<SizedSlice<T, $n>>>(concat!("Rc of SizedSlice of ", $n), |x| x.as_slice() == v);
		} else {
			g.long::<SizedSlice<T, $n>>(concat!("SizedSlice of ", $n), $n, n);
			g.long::<Box<SizedSlice<T, $n>>>(concat!("Box of SizedSlice of ", $n), $n, n);
		}
	)* } }
	sized!(0 1 3 4 7 16 41 255 256 300);
	g.back::<Vec<T>>("Vec", |x| *x == v);
	g.back::<LinkedList<T>>("LinkedList", |x| x.iter().eq(v.iter()));
	g.back::<Box<Vec<T>>>("Box<Vec>", |x| **x == v);
	g.back::<Rc<Vec<T>>>("Rc<Vec>", |x| **x == v);
	g.back::<Arc<LinkedList<T>>>("Arc<LinkedList>", |x| x.iter().eq(v.iter()));
	g.back::<Mutex<Vec<T>>>("Mutex<Vec>", |x| *x.lock().unwrap() == v);
	g.back::<RwLock<Vec<T>>>("RwLock<Vec>", |x| *x.read().unwrap() == v);
	g.back::<RefCell<LinkedList<T>>>("RefCell<LinkedList>", |x| x.borrow().iter().eq(v.iter()));
	g.back::<Vec<Box<T>>>("Vec of boxes", |x| x.iter().map(|b| &**b).eq(v.iter()));
	g.back::<Vec<(T,)>>("Vec of tuples", |x| x.iter().map(|b| &b.0).eq(v.iter()));
	if g.m.want_sample() { let s = format!("{} {} in 50 forms: {}", g.name, g.what, hex(&g.want)); g.m.sample(|| s) }
}

/// Text and the bytes of it.
fn texts(s: &str, m: &mut Mon) {
	let mut want = (s.len() as u16).to_le_bytes().to_vec();
	want.extend(s.as_bytes());
	let mut t = s.to_string();
	let room = want.len() + 5;
	let mut what = format!("{s:?}");
	vcore::mon::trunc(&mut what, 300);
	let mut g = Group { name: "text".into(), what, want, room, m };
	let owned = s.to_string();
	g.form("str", s);
	g.form("&str", &s);
	g.form("&mut str", &t.as_mut_str());
	g.form("String", &owned);
	g.form("Box<str>", &owned.clone().into_boxed_str());
	g.form("Rc<str>", &Rc::<str>::from(s));
	g.form("Arc<str>", &Arc::<str>::from(s));
	g.form("Cow::Borrowed", &Cow::Borrowed(s));
	g.form("Cow::Owned", &Cow::<str>::Owned(owned.clone()));
	g.form("Mutex<String>", &Mutex::new(owned.clone()));
	g.form("a slice of bytes", s.as_bytes());
	g.form("Vec<u8>", &s.as_bytes().to_vec());
	g.form("LinkedList<u8>", &s.bytes().collect::<LinkedList<u8>>());
	g.back::<String>("String", |x| x == s);
	g.back::<Box<String>>("Box<String>", |x| **x == *s);
	g.back::<Vec<u8>>("Vec<u8>", |x| x == s.as_bytes());
	g.back::<LinkedList<u8>>("LinkedList<u8>", |x| x.iter().copied().eq(s.bytes()));
	if let Ok(c) = CString::new(s) {
		g.form("CString", &c);
		g.form("CStr", &*c as &CStr);
		g.form("Box<CStr>", &c.clone().into_boxed_c_str());
		g.form("Cow<CStr>", &Cow::Borrowed(&*c));
		g.back::<CString>("CString", |x| x.as_bytes() == s.as_bytes());
		g.back::<Arc<CString>>("Arc<CString>", |x| x.as_bytes() == s.as_bytes());
	}
	macro_rules! sized { ($($n:literal)*) => { $(
		if let Ok(x) = SizedStr::<$n>::new(s) {
			g.form(concat!("SizedStr of ", $n), &x);
			g.form(concat!("&SizedStr of ", $n), &&x);
			g.form(concat!("bytes of SizedStr of ", $n), x.as_bytes());
			g.back::<SizedStr<$n>>(concat!("SizedStr of ", $n), |x| x.as_str() == s);
			g.back::<SizedSlice<u8, $n>>(concat!("SizedSlice of bytes of ", $n), |x| x.as_slice() == s.as_bytes());
			g.back::<RefCell<SizedStr<$n>>>(concat!("RefCell of SizedStr of ", $n), |x| x.borrow().as_str() == s);
		} else {
			g.long::<SizedStr<$n>>(concat!("SizedStr of ", $n), $n, s.len());
			g.long::<SizedSlice<u8, $n>>(concat!("SizedSlice of bytes of ", $n), $n, s.len());
		}
	)* } }
	sized!(0 1 2 5 8 13 40 255 256 300);
	if g.m.want_sample() { let s = format!("text {} in 40 forms: {}", g.what, hex(&g.want)); g.m.sample(|| s) }
}

/// Bytes that need not be text.
fn bytes(b: &[u8], m: &mut Mon) {
	let mut want = (b.len() as u16).to_le_bytes().to_vec();
	want.extend(b);
	let mut g = Group { name: "bytes".into(), what: hex(b), room: want.len() + 5, want, m };
	g.form("a slice", b);
	if let Ok(c) = CString::new(b) {
		g.form("CString", &c);
		g.form("CStr", &*c as &CStr);
		g.back::<CString>("CString", |x| x.as_bytes() == b);
	}
	g.back::<Vec<u8>>("Vec<u8>", |x| x == b);
}

fn scalar<T>(name: &str, v: T, m: &mut Mon) where T: Encode<Error: View> + Decode<Error: View> + Copy + PartialEq + Debug {
	let want = enc(&v, 64).unwrap().unwrap();
	let mut w = v;
	let mut g = Group { name: name.into(), what: format!("{v:?}"), room: want.len() + 3, want, m };
	g.form("&_", &&v);
	g.form("&&mut _", &&&mut w);
	g.form("Box", &Box::new(v));
	g.form("Rc", &Rc::new(v));
	g.form("Arc", &Arc::new(v));
	g.form("Cell", &Cell::new(v));
	g.form("RefCell", &RefCell::new(v));
	g.form("Mutex", &Mutex::new(v));
	g.form("RwLock", &RwLock::new(v));
	g.form("Wrapping", &Wrapping(v));
	g.form("Saturating", &Saturating(v));
	g.form("Cow::Borrowed", &Cow::Borrowed(&v));
	g.form("Cow::Owned", &Cow::<T>::Owned(v));
	g.form("(_,)", &(v,));
	g.form("[_; 1]", &[v]);
	g.form("boxes in locks", &Mutex::new(Box::new(RwLock::new(Rc::new(Cell::new(Wrapping(v)))))));
	let r = RefCell::new(v);
	{ let _b = r.borrow(); g.form("RefCell that is being read", &r); }
	g.back::<Box<T>>("Box", |x| **x == v);
	g.back::<Rc<T>>("Rc", |x| **x == v);
	g.back::<Arc<T>>("Arc", |x| **x == v);
	g.back::<Cell<T>>("Cell", |x| x.get() == v);
	g.back::<RefCell<T>>("RefCell", |x| *x.borrow() == v);
	g.back::<Mutex<T>>("Mutex", |x| *x.lock().unwrap() == v);
	g.back::<RwLock<T>>("RwLock", |x| *x.read().unwrap() == v);
	g.back::<Wrapping<T>>("Wrapping", |x| x.0 == v);
	g.back::<Saturating<T>>("Saturating", |x| x.0 == v);
	g.back::<Cow<T>>("Cow", |x| **x == v);
	g.back::<(T,)>("(_,)", |x| x.0 == v);
	g.back::<[T; 1]>("[_; 1]", |x| x[0] == v);
	g.back::<Mutex<Box<RwLock<Rc<Cell<Wrapping<T>>>>>>>("boxes in locks", |x| x.lock().unwrap().read().unwrap().get().0 == v);
}

/// The initialisers of lazies take no captures.
fn lazies(m: &mut Mon) {
	let want = enc(&(0xABCDu16, 'ß'), 64).unwrap().unwrap();
	let mut g = Group { name: "(u16, char)".into(), what: "lazily".into(), room: want.len() + 3, want, m };
	let c: LazyCell<(u16, char)> = LazyCell::new(|| (0xABCD, 'ß'));
	g.form("LazyCell", &c);
	g.form("LazyCell, forced", &c);
	let c: LazyLock<(u16, char)> = LazyLock::new(|| (0xABCD, 'ß'));
	g.form("LazyLock", &c);
	g.form("LazyLock, forced", &c);
}

fn round(r: &mut Rng, m: &mut Mon) {
	macro_rules! ints { ($($t:ident $a:ident $w:literal)*) => { $( {
		let v = r.edgy($w) as $t;
		scalar(stringify!($t), v, m);
		let want = v.to_le_bytes().to_vec();
		let mut g = Group { name: stringify!($t).into(), what: v.to_string(), room: want.len() + 3, want, m };
		g.form("itself", &v);
		g.form(stringify!($a), &$a::new(v));
		g.back::<$a>(stringify!($a), |x| x.load(Ordering::SeqCst) == v);
		if let Some(z) = NonZero::new(v) { g.form("NonZero", &z); g.back::<NonZero<$t>>("NonZero", |x| *x == z); }
	} )* } }
	ints!(u8 AtomicU8 8 u16 AtomicU16 16 u32 AtomicU32 32 u64 AtomicU64 64 i8 AtomicI8 8 i16 AtomicI16 16 i32 AtomicI32 32 i64 AtomicI64 64);
	scalar("u128", r.edgy(128), m);
	scalar("i128", r.edgy(128) as i128, m);
	scalar("char", *r.pick(&['a', '\0', 'ß', '漢', '\u{10FFFF}']), m);
	scalar("(u8, Option<i16>)", (r.u64() as u8, r.chance(1, 2).then_some(r.u64() as i16)), m);
	scalar("()", (), m);
	{
		let (v, i, b) = (r.edgy(16) as u16, r.edgy(16) as i16, r.chance(1, 2));
		scalar("usize", usize::from(v), m);
		scalar("isize", isize::from(i), m);
		scalar("bool", b, m);
		let mut g = Group { name: "usize".into(), what: v.to_string(), room: 4, want: v.to_le_bytes().to_vec(), m };
		g.form("usize", &usize::from(v));
		g.form("u16", &v);
		g.form("AtomicUsize", &AtomicUsize::new(v.into()));
		g.back::<AtomicUsize>("AtomicUsize", |x| x.load(Ordering::SeqCst) == usize::from(v));
		if let Some(z) = NonZero::new(usize::from(v)) { g.form("NonZero<usize>", &z); g.back::<NonZero<usize>>("NonZero<usize>", |x| *x == z); }
		let mut g = Group { name: "isize".into(), what: i.to_string(), room: 4, want: i.to_le_bytes().to_vec(), m };
		g.form("isize", &isize::from(i));
		g.form("AtomicIsize", &AtomicIsize::new(i.into()));
		g.back::<AtomicIsize>("AtomicIsize", |x| x.load(Ordering::SeqCst) == isize::from(i));
		let mut g = Group { name: "bool".into(), what: b.to_string(), room: 4, want: vec![b.into()], m };
		g.form("AtomicBool", &AtomicBool::new(b));
		g.back::<AtomicBool>("AtomicBool", |x| x.load(Ordering::SeqCst) == b);
	}
	let n = match r.below(12) { 0 => 0, 1 => 255, 2 => 256, 3 => 300, 4 => r.range(0, 400), 5 => 41, 6 => 16, _ => r.below(9) };
	macro_rules! seqs { ($($t:ty: $e:expr;)*) => { $( { let v: Vec<$t> = (0..n).map(|_| $e(r)).collect(); sequence(stringify!($t), v, m) } )* } }
	seqs! {
		u8: |r: &mut Rng| r.u64() as u8;
		u16: |r: &mut Rng| r.edgy(16) as u16;
		i64: |r: &mut Rng| r.edgy(64) as i64;
		(): |_: &mut Rng| ();
		bool: |r: &mut Rng| r.chance(1, 2);
		char: |r: &mut Rng| *r.pick(&['a', 'é', '漢', '𝄞']);
		usize: |r: &mut Rng| r.edgy(16) as usize;
		Option<u32>: |r: &mut Rng| r.chance(1, 2).then_some(r.u64() as u32);
		[u16; 2]: |r: &mut Rng| [r.u64() as u16, 7];
		(u8, u16): |r: &mut Rng| (r.u64() as u8, r.edgy(16) as u16);
		String: |r: &mut Rng| text(r, 6);
		Vec<u8>: |r: &mut Rng| { let n = r.below(5); r.bytes(n) };
		SizedStr<8>: |r: &mut Rng| { let t = text(r, 2); SizedStr::new(&t).unwrap() };
		SizedSlice<u16, 3>: |r: &mut Rng| { let n = r.below(4); (0..n).map(|_| r.u64() as u16).collect() };
	}
	let n = match r.below(8) { 0 => 0, 1 => 300, 2 => 80, _ => r.below(14) };
	let t = text(r, n);
	texts(&t, m);
	let n = match r.below(8) { 0 => 0, 1 => 700, _ => r.below(20) };
	let b = r.bytes(n);
	bytes(&b, m);
	let b: Vec<u8> = b.into_iter().filter(|b| *b != 0).collect();
	bytes(&b, m);
}

pub fn run(cfg: &Cfg) -> Mon {
	let n = cfg.n(12, 600);
	let mut m = parallel(&(0..32).collect::<Vec<_>>(), |&j, m| {
		for i in 0..n {
			vcore::crumb!("C19: round {j}/{i}, seed {}", cfg.seed);
			let mut r = Rng::sub(cfg.seed, &format!("C19 {j} {i}"));
			if let Err(p) = catch(|| round(&mut r, m)) { m.violation("panic", || format!("round {j}/{i} (seed {}): unexpected panic {p}", cfg.seed)) }
		}
	});
	// The largest count.
	for n in [65_534, 65_535] {
		let mut r = Rng::sub(cfg.seed, "C19 large");
		sequence("u8", r.bytes(n), &mut m);
		sequence("u16", (0..n).map(|i| i as u16).collect::<Vec<_>>(), &mut m);
		sequence("()", vec![(); n], &mut m);
		texts(&"z".repeat(n), &mut m);
		texts(&format!("{}é", "z".repeat(n - 2)), &mut m);
	}
	lazies(&mut m);
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
