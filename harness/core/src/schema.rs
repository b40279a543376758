//! The reference data model: an independent description of what bytes mean.
//!
//! Nothing here uses the library under test.

use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Schema {
	Unit,
	Never,
	Bool,
	Int { bits: u32, signed: bool },
	USize,
	ISize,
	NonZero(Box<Schema>),
	F32,
	F64,
	Char,
	/// Tuples and ranges: fields chained, errors passed through.
	Tuple(Vec<Schema>),
	Array(usize, Box<Schema>),
	/// Counted sequence, optionally bounded.
	Seq(Option<usize>, Box<Schema>),
	/// Counted UTF-8, optionally bounded.
	Str(Option<usize>),
	CStr,
	Opt(Box<Schema>),
	Res(Box<Schema>, Box<Schema>),
	Bound(Box<Schema>),
	Ip4,
	Ip6,
	Ip,
	Sock4,
	Sock6,
	Sock,
	Dur,
	Time,
	Map(Box<Schema>, Box<Schema>),
	Set(Box<Schema>),
	RefCell(Box<Schema>),
	Struct(Vec<Schema>),
	/// Representation and variants (discriminant bit pattern, fields).
	Enum(Box<Schema>, Vec<(i128, Vec<Schema>)>),
	/// A recursive type.
	Lazy(fn() -> Schema),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
	Unit,
	Bool(bool),
	U(u128),
	I(i128),
	F32(u32),
	F64(u64),
	Char(u32),
	List(Vec<Val>),
	Bytes(Vec<u8>),
	Opt(Option<Box<Val>>),
	Res(bool, Box<Val>),
	Bound(u8, Option<Box<Val>>),
	Ip(u8, u128),
	Sock(u8, u128, u16, u32, u32),
	Dur(u64, u32),
	Time(i64),
	Map(Vec<(Val, Val)>),
	Set(Vec<Val>),
	Enum(usize, Vec<Val>),
}

/// A normalised error.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum E {
	USize(u128),
	ISize(i128),
	Len(Box<E>),
	Item(usize, Box<E>),
	Cap { cap: usize, len: usize },
	Utf8 { value: u8, index: usize },
	CStr(usize),
	Char(u32),
	NonZero,
	Time(i64),
	Borrow,
	Cell(Box<E>),
	Discr(Box<E>),
	/// Value and width of an unassigned discriminant.
	Unassigned(i128, u32),
	Field(Box<E>),
	Gen(Box<E>),
	/// An unassigned discriminant within a generic error: zero-extended.
	GUnassigned(u128),
	Custom(u64),
	Other(String),
}

/// Why the reference decoder gives no value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
	Err(E),
	/// The source ends within the value.
	Trunc,
	/// Truncated, but an error may be found first.
	TruncOr(E),
	/// Seconds plus carried nanoseconds exceed the representable durations.
	DurOverflow,
	/// The type has no values.
	Never,
}

pub fn int(bits: u32, signed: bool) -> Schema { Schema::Int { bits, signed } }

pub fn mask(bits: u32) -> u128 { if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 } }

pub fn sign_extend(v: u128, bits: u32) -> i128 { if bits >= 128 { v as i128 } else { ((v << (128 - bits)) as i128) >> (128 - bits) } }

impl Schema {
	pub fn has_unordered(&self) -> bool {
		use Schema::*;
		match self {
			Map(..) | Set(..) | Lazy(_) => true,
			NonZero(s) | Array(_, s) | Seq(_, s) | Opt(s) | Bound(s) | RefCell(s) => s.has_unordered(),
			Res(a, b) => a.has_unordered() || b.has_unordered(),
			Tuple(v) | Struct(v) => v.iter().any(Self::has_unordered),
			Enum(_, v) => v.iter().any(|(_, f)| f.iter().any(Self::has_unordered)),
			_ => false,
		}
	}

	/// Whether short sources can call for long values.
	pub fn inflates(&self) -> bool {
		use Schema::*;
		match self {
			Seq(c, s) => c.map_or(true, |c| c > 1000) && s.max() == Some(0),
			Map(k, v) => k.max() == Some(0) && v.max() == Some(0),
			Set(s) => s.max() == Some(0),
			_ => false,
		}
	}

	/// Whether only long values of this type are unencodable.
	pub fn bad_if_long(&self) -> bool {
		use Schema::*;
		match self {
			Seq(_, s) => !s.can_be_bad() || s.bad_if_long(),
			Str(_) | CStr => true,
			Array(_, s) | Opt(s) | Bound(s) | RefCell(s) => s.bad_if_long(),
			Res(a, b) => a.bad_if_long() || b.bad_if_long(),
			Tuple(v) | Struct(v) => v.iter().any(Self::bad_if_long),
			Enum(_, v) => v.iter().any(|(_, f)| f.iter().any(Self::bad_if_long)),
			_ => false,
		}
	}

	/// Whether values of this type exist.
	pub fn inhabited(&self) -> bool {
		use Schema::*;
		match self {
			Never => false,
			Tuple(v) | Struct(v) => v.iter().all(Self::inhabited),
			Array(n, s) => *n == 0 || s.inhabited(),
			Res(a, b) => a.inhabited() || b.inhabited(),
			Enum(r, v) => v.iter().any(|(d, f)| r.has_discr(*d) && f.iter().all(Self::inhabited)),
			NonZero(s) | RefCell(s) => s.inhabited(),
			_ => true,
		}
	}

	/// Whether this representation can encode the discriminant.
	fn has_discr(&self, d: i128) -> bool {
		match self { Schema::USize => u16::try_from(d).is_ok(), Schema::ISize => i16::try_from(d).is_ok(), _ => true }
	}

	/// The largest encoding, if bounded by the type.
	pub fn max(&self) -> Option<usize> {
		use Schema::*;
		Some(match self {
			Unit | Never => 0,
			Bool => 1,
			Int { bits, .. } => *bits as usize / 8,
			USize | ISize => 2,
			NonZero(s) | RefCell(s) => s.max()?,
			F32 | Char | Ip4 => 4,
			F64 | Time => 8,
			Ip6 => 16,
			Ip => 17,
			Sock4 => 6,
			Sock6 => 26,
			Sock => 27,
			Dur => 12,
			Tuple(v) | Struct(v) => { let mut n = 0; for s in v { n += s.max()? } n }
			Array(n, s) => n * s.max()?,
			Seq(c, s) => 2 + (*c)? * s.max()?,
			Str(c) => 2 + (*c)?,
			CStr | Map(..) | Set(..) | Lazy(_) => return None,
			Opt(s) => 1 + s.max()?,
			Bound(s) => 1 + s.max()?,
			Res(a, b) => 1 + a.max()?.max(b.max()?),
			Enum(r, v) => {
				let mut n = 0;
				for (_, f) in v {
					let mut k = r.max()?;
					for s in f { k += s.max()? }
					n = n.max(k);
				}
				n
			}
		})
	}

	pub fn gen(&self, r: &mut Rng) -> Val { self.gen_d(r, 0, &mut if cfg!(miri) { 40 } else { 3000 }) }

	fn len(&self, r: &mut Rng, cap: Option<usize>, depth: u32, budget: &mut isize) -> usize {
		let cap = cap.unwrap_or(65535).min(65535);
		let left = (*budget).max(0) as usize;
		let n = match r.below(20) {
			0..=3 => 0,
			4..=6 => 1,
			7..=12 => r.range(0, 6),
			13..=15 => r.range(0, 40),
			16 => *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127, 128]),
			17 => *r.pick(&[254, 255, 256, 257, 511, 512]),
			18 => cap,
			_ => cap.saturating_sub(1),
		};
		let n = if cap <= 300 || matches!(self, Schema::Unit) { n } else { n.min(if r.chance(1, 60) { 65535 } else { 600 }) };
		let lim = if matches!(self, Schema::Unit) { 65535 }
			else if depth == 0 && matches!(self, Schema::Int { bits: 8, .. } | Schema::Bool) { 65535 } else { left / 2 + 1 };
		let lim = if cfg!(miri) { lim.min(260) } else { lim };
		let n = n.min(cap).min(lim);
		*budget -= n as isize;
		n
	}

	fn text(r: &mut Rng, n: usize, out: &mut Vec<u8>) {
		let ascii = r.chance(1, 3);
		// Characters that some code gives a meaning, at either end in particular.
		let odd = |r: &mut Rng| *r.pick(&['\u{FEFF}', '\0', ' ', '\t', '\n', '\r', '\u{A0}', '\u{301}', '\u{200B}', '\u{200D}', '\u{202E}', '\u{2028}', '\u{FFFD}', '\u{FFFE}', '\u{FFFF}',
			'\u{DF}', '\u{130}', '\u{1F600}', '\u{10FFFF}', '"', '\\', '{', '%', '\x1B', '\x7F', '\u{80}', '\u{85}', 'A', '0', '-', '.', '/', ':']);
		let put = |c: char, n: usize, out: &mut Vec<u8>| { if out.len() + c.len_utf8() <= n { out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()) } };
		if r.chance(1, 3) { for _ in 0..r.range(1, 2) { put(odd(r), n, out) } }
		let last = if r.chance(1, 3) { Some(odd(r)) } else { None };
		let full = n;
		let n = n.saturating_sub(last.map_or(0, char::len_utf8)).max(out.len());
		Self::body(r, n, ascii, out);
		if let Some(c) = last { put(c, full, out) }
		while out.len() < full { out.push(b'y') }
	}

	fn body(r: &mut Rng, n: usize, ascii: bool, out: &mut Vec<u8>) {
		while out.len() < n {
			let c = if ascii || r.chance(1, 2) {
				r.below(0x80) as u32
			} else {
				match r.below(8) {
					0 => r.range(0x80, 0x7FF) as u32,
					1 => r.range(0x800, 0xD7FF) as u32,
					2 => r.range(0xE000, 0xFFFF) as u32,
					3 => r.range(0x10000, 0x10FFFF) as u32,
					4 => *r.pick(&[0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF]),
					_ => r.range(0x41, 0x3FF) as u32,
				}
			};
			let c = char::from_u32(c).unwrap();
			let mut b = [0; 4];
			let s = c.encode_utf8(&mut b).as_bytes();
			if out.len() + s.len() > n { out.push(b'x') } else { out.extend_from_slice(s) }
		}
	}

	fn ip4(r: &mut Rng) -> u128 {
		match r.below(4) {
			// Addresses with a meaning.
			0 => *r.pick(&[0x7F00_0001, 0x7F00_0000, 0x0A00_0001, 0xC0A8_0001, 0xAC10_0001, 0xA9FE_0001, 0xE000_0001, 0xEFFF_FFFF, 0xF000_0000, 0xFFFF_FFFF, 0, 0xC000_0201, 0x6440_0001]),
			1 => r.u128() & 0xFF00_00FF,
			_ => r.edgy(32),
		}
	}

	fn ip6(r: &mut Rng) -> u128 {
		match r.below(8) {
			0 => (0xFFFF << 32) | Self::ip4(r),
			1 => Self::ip4(r),
			2 => *r.pick(&[0, 1, 0xFE80 << 112 | 1, 0xFC00 << 112 | 1, 0xFF02 << 112 | 1, 0x2001_0DB8 << 96, 0x2002 << 112 | 0xC000_0201 << 80, 0x64_FF9B << 96 | 0xC000_0201, 0x2001 << 112]),
			3 => (0xFE80 << 112) | u128::from(r.u64()),
			_ => r.edgy(128),
		}
	}

	/// Elements; at times with repetitions.
	fn many(&self, n: usize, r: &mut Rng, d: u32, budget: &mut isize) -> Vec<Val> {
		let same = r.chance(1, 8);
		let mut o: Vec<Val> = Vec::with_capacity(n);
		for i in 0..n {
			let v = if same && i > 0 && r.chance(2, 3) { o[if r.chance(1, 2) { i - 1 } else { r.below(i) }].clone() } else { self.gen_d(r, d + 1, budget) };
			o.push(v);
		}
		o
	}

	/// Whether both are the same type without parts.
	fn plainly_same(&self, other: &Self) -> bool {
		use Schema::*;
		match (self, other) {
			(Int { bits: a, signed: b }, Int { bits: c, signed: d }) => (a, b) == (c, d),
			(Str(a), Str(b)) => a == b,
			(Unit | Never | Bool | USize | ISize | F32 | F64 | Char | CStr | Ip4 | Ip6 | Ip | Sock4 | Sock6 | Sock | Dur | Time, _) => std::mem::discriminant(self) == std::mem::discriminant(other),
			(NonZero(a), NonZero(b)) | (Opt(a), Opt(b)) | (Seq(None, a), Seq(None, b)) | (Bound(a), Bound(b)) => a.plainly_same(b),
			_ => false,
		}
	}

	/// A value with a collection of about `n` elements in it.
	pub fn gen_long(&self, r: &mut Rng, n: usize) -> Option<Val> {
		use Schema::*;
		let fields = |v: &[Schema], r: &mut Rng| -> Option<Vec<Val>> {
			if !v.iter().all(Self::inhabited) { return None }
			let k = r.below(v.len());
			let mut hit = false;
			let mut o = Vec::new();
			for i in 0..v.len() {
				let i = (i + k) % v.len();
				let w = if hit { None } else { v[i].gen_long(r, n) };
				hit |= w.is_some();
				o.push(w.unwrap_or_else(|| v[i].gen_d(r, 9, &mut 0)));
			}
			if !hit { return None }
			o.rotate_right(k);
			Some(o)
		};
		Some(match self {
			Seq(cap, s) => {
				let n = n.min(cap.unwrap_or(65535));
				if !s.inhabited() || n < 2 { return None }
				if n > 2000 && s.heavy() { return None }
				Val::List(s.many(n, r, 9, &mut 0))
			}
			Str(cap) => {
				let n = n.min(cap.unwrap_or(65535));
				if n < 2 { return None }
				let mut v = Vec::new();
				Self::text(r, n, &mut v);
				Val::Bytes(v)
			}
			CStr => { let mut v = r.bytes(n.min(65535)); for b in &mut v { if *b == 0 { *b = 0xFF } } Val::Bytes(v) }
			Map(k, v) => {
				if n > 2000 && (k.heavy() || v.heavy()) { return None }
				let mut m = std::collections::BTreeMap::new();
				for _ in 0..n + n / 8 { if m.len() >= n { break } m.insert(k.gen_d(r, 9, &mut 0), v.gen_d(r, 9, &mut 0)); }
				Val::Map(m.into_iter().collect())
			}
			Set(k) => {
				if n > 2000 && k.heavy() { return None }
				let mut m = std::collections::BTreeSet::new();
				for _ in 0..n + n / 8 { if m.len() >= n { break } m.insert(k.gen_d(r, 9, &mut 0)); }
				Val::Set(m.into_iter().collect())
			}
			Tuple(v) | Struct(v) => Val::List(fields(v, r)?),
			Array(k, s) => {
				if *k == 0 || *k > 8 { return None }
				let at = r.below(*k);
				let mut o = Vec::new();
				for i in 0..*k { o.push(if i == at { s.gen_long(r, n)? } else { s.gen_d(r, 9, &mut 0) }) }
				Val::List(o)
			}
			Opt(s) => Val::Opt(Some(Box::new(s.gen_long(r, n)?))),
			Bound(s) => Val::Bound(r.below(2) as u8, Some(Box::new(s.gen_long(r, n)?))),
			RefCell(s) => s.gen_long(r, n)?,
			Res(a, b) => {
				if r.chance(1, 2) { if let Some(v) = a.gen_long(r, n) { return Some(Val::Res(false, Box::new(v))) } }
				Val::Res(true, Box::new(b.gen_long(r, n)?))
			}
			Enum(rp, v) => {
				let k = r.below(v.len());
				for i in 0..v.len() {
					let i = (i + k) % v.len();
					if !rp.has_discr(v[i].0) || v[i].1.is_empty() { continue }
					if let Some(f) = fields(&v[i].1, r) { return Some(Val::Enum(i, f)) }
				}
				return None
			}
			_ => return None,
		})
	}

	/// Whether a great many of these would take long.
	fn heavy(&self) -> bool {
		use Schema::*;
		match self {
			Array(n, s) => *n > 4 || s.heavy(),
			Seq(..) | Str(_) | CStr | Map(..) | Set(_) | Struct(_) | Lazy(_) | Enum(..) => true,
			Tuple(v) => v.len() > 4 || v.iter().any(Self::heavy),
			NonZero(s) | Opt(s) | Bound(s) | RefCell(s) => s.heavy(),
			Res(a, b) => a.heavy() || b.heavy(),
			_ => false,
		}
	}

	fn gen_d(&self, r: &mut Rng, d: u32, budget: &mut isize) -> Val {
		use Schema::*;
		*budget -= 1;
		let b1 = |s: &Schema, r: &mut Rng, budget: &mut isize| Box::new(s.gen_d(r, d + 1, budget));
		match self {
			Never => panic!("no values"),
			Lazy(f) => f().gen_d(r, d, budget),
			Unit => Val::Unit,
			Bool => Val::Bool(r.chance(1, 2)),
			Int { bits, signed } => { let v = r.edgy(*bits); if *signed { Val::I(sign_extend(v, *bits)) } else { Val::U(v) } }
			USize => Val::U(r.edgy(16)),
			ISize => Val::I(sign_extend(r.edgy(16), 16)),
			NonZero(s) => loop {
				let v = s.gen_d(r, d, budget);
				if v != Val::U(0) && v != Val::I(0) { break v }
			},
			F32 => Val::F32(match r.below(8) {
				0 => *r.pick(&[0, 0x8000_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0xFFC0_1234, 0x7F80_0001, 0x0000_0001, 0x007F_FFFF]),
				_ => r.u64() as u32,
			}),
			F64 => Val::F64(match r.below(8) {
				0 => *r.pick(&[0, 1 << 63, 0x7FF0 << 48, 0xFFF0 << 48, 0x7FF8 << 48, (0x7FF0 << 48) | 1, 1, (1 << 52) - 1]),
				_ => r.u64(),
			}),
			Char => Val::Char(loop {
				let c = match r.below(6) {
					0 => r.below(0x80),
					1 => *r.pick(&[0, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]),
					2 => r.range(0xD700, 0xE100),
					_ => r.below(0x110000),
				} as u32;
				if !(0xD800..0xE000).contains(&c) { break c }
			}),
			Tuple(v) | Struct(v) => {
				let same = r.chance(1, 8);
				let mut o: Vec<Val> = Vec::new();
				for (i, s) in v.iter().enumerate() {
					// Members of one type are equal at times.
					let w = if same && i > 0 && s.plainly_same(&v[i - 1]) { o[i - 1].clone() } else { s.gen_d(r, d + 1, budget) };
					o.push(w);
				}
				Val::List(o)
			}
			Array(n, s) => Val::List(s.many(*n, r, d, budget)),
			Seq(cap, s) => {
				let n = if !s.inhabited() || d > 8 { 0 } else { s.len(r, *cap, d, budget) };
				Val::List(s.many(n, r, d, budget))
			}
			Str(cap) => {
				let n = int(8, false).len(r, *cap, d, budget);
				let mut v = Vec::new();
				Self::text(r, n, &mut v);
				Val::Bytes(v)
			}
			CStr => {
				let n = int(8, false).len(r, None, d, budget);
				let mut v = r.bytes(n);
				for b in &mut v { if *b == 0 { *b = 1 } }
				Val::Bytes(v)
			}
			Opt(s) => Val::Opt(if r.chance(2, 3) && s.inhabited() { Some(b1(s, r, budget)) } else { None }),
			Res(a, b) => {
				let e = if !a.inhabited() { true } else if !b.inhabited() { false } else { r.chance(1, 2) };
				Val::Res(e, b1(if e { b } else { a }, r, budget))
			}
			Bound(s) => match r.below(3) as u8 {
				k @ 0..=1 => Val::Bound(k, Some(b1(s, r, budget))),
				k => Val::Bound(k, None),
			},
			Ip4 => Val::Ip(4, Self::ip4(r)),
			Ip6 => Val::Ip(6, Self::ip6(r)),
			Ip => if r.chance(1, 2) { Ip4.gen_d(r, d, budget) } else { Ip6.gen_d(r, d, budget) },
			Sock4 => Val::Sock(4, Self::ip4(r), r.edgy(16) as u16, 0, 0),
			Sock6 => Val::Sock(6, Self::ip6(r), r.edgy(16) as u16, r.edgy(32) as u32, r.edgy(32) as u32),
			Sock => if r.chance(1, 2) { Sock4.gen_d(r, d, budget) } else { Sock6.gen_d(r, d, budget) },
			Dur => Val::Dur(r.edgy(64) as u64, if r.chance(1, 4) { *r.pick(&[0, 1, 999_999_999]) } else { r.below(1_000_000_000) as u32 }),
			Time => Val::Time(match r.below(4) {
				0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MIN + 1, 1_730_631_721, 13_258_800, -778_231_800]),
				1 => r.edgy(64) as u64 as i64,
				_ => r.range(0, 1 << 34) as i64 - (1 << 33),
			}),
			Map(k, v) => {
				let n = k.len(r, None, d.max(1), budget).min(60);
				let mut m = std::collections::BTreeMap::new();
				for _ in 0..n { m.insert(k.gen_d(r, d + 1, budget), v.gen_d(r, d + 1, budget)); }
				Val::Map(m.into_iter().collect())
			}
			Set(k) => {
				let n = k.len(r, None, d.max(1), budget).min(60);
				let mut m = std::collections::BTreeSet::new();
				for _ in 0..n { m.insert(k.gen_d(r, d + 1, budget)); }
				Val::Set(m.into_iter().collect())
			}
			RefCell(s) => s.gen_d(r, d, budget),
			Enum(r_, v) => {
				let ok: Vec<usize> = (0..v.len()).filter(|&i| r_.has_discr(v[i].0) && v[i].1.iter().all(Self::inhabited)).collect();
				let i = *r.pick(&ok);
				Val::Enum(i, v[i].1.iter().map(|s| s.gen_d(r, d + 1, budget)).collect())
			}
		}
	}

	/// A value with the largest encoding, if there is one.
	pub fn gen_max(&self, r: &mut Rng) -> Option<Val> {
		use Schema::*;
		Some(match self {
			Never | Lazy(_) => return None,
			Tuple(v) | Struct(v) => { let mut o = Vec::new(); for s in v { o.push(s.gen_max(r)?) } Val::List(o) }
			Array(n, s) => { let mut o = Vec::new(); for _ in 0..*n { o.push(s.gen_max(r)?) } Val::List(o) }
			Seq(cap, s) => {
				let n = (*cap)?;
				if n > 65535 { return None }
				let mut o = Vec::new();
				for _ in 0..n { o.push(s.gen_max(r)?) }
				Val::List(o)
			}
			Str(cap) => {
				let n = (*cap)?;
				if n > 65535 { return None }
				let mut v = Vec::new();
				Self::text(r, n, &mut v);
				Val::Bytes(v)
			}
			Opt(s) => Val::Opt(Some(Box::new(s.gen_max(r)?))),
			Bound(s) => Val::Bound(r.below(2) as u8, Some(Box::new(s.gen_max(r)?))),
			Res(a, b) => {
				let (x, y) = (a.max()?, b.max()?);
				let e = if !a.inhabited() { true } else if !b.inhabited() { false } else { y > x || (x == y && r.chance(1, 2)) };
				Val::Res(e, Box::new(if e { b } else { a }.gen_max(r)?))
			}
			Ip => Ip6.gen(r),
			Sock => Sock6.gen(r),
			RefCell(s) => s.gen_max(r)?,
			Enum(rp, v) => {
				let size = |f: &[Schema]| f.iter().try_fold(0, |n, s| s.max().map(|k| n + k));
				let (mut best, mut lost) = (None, 0);
				for (i, (d, f)) in v.iter().enumerate() {
					let Some(k) = size(f) else { return None };
					// A variant that cannot be encoded may still count for the maximum.
					if !rp.has_discr(*d) { lost = lost.max(k); continue }
					if !f.iter().all(Self::inhabited) { continue }
					if best.map_or(true, |(_, b)| k > b) { best = Some((i, k)) }
				}
				let (i, k) = best?;
				if lost > k { return None }
				let mut o = Vec::new();
				for s in &v[i].1 { o.push(s.gen_max(r)?) }
				Val::Enum(i, o)
			}
			s if s.max().is_some() => s.gen(r),
			_ => return None,
		})
	}

	/// Whether this type has unencodable values that `gen_bad` can make.
	pub fn can_be_bad(&self) -> bool {
		use Schema::*;
		match self {
			USize | ISize => true,
			NonZero(s) => s.can_be_bad(),
			Array(n, s) => *n > 0 && s.can_be_bad(),
			Seq(c, s) => s.inhabited() && (c.map_or(true, |c| c > 65535) || c.map_or(true, |c| c > 0) && s.can_be_bad()),
			Str(c) => c.map_or(true, |c| c > 65535),
			CStr => true,
			Opt(s) | Bound(s) | RefCell(s) | Set(s) => s.can_be_bad(),
			Map(a, b) => a.can_be_bad() || b.can_be_bad(),
			Res(a, b) => a.can_be_bad() || b.can_be_bad(),
			Tuple(v) | Struct(v) => v.iter().all(Self::inhabited) && v.iter().any(Self::can_be_bad),
			Enum(r, v) => v.iter().any(|(d, f)| f.iter().all(Self::inhabited) && (!r.has_discr(*d) || f.iter().any(Self::can_be_bad))),
			_ => false,
		}
	}

	/// A value with at least one unencodable part.
	pub fn gen_bad(&self, r: &mut Rng) -> Val {
		use Schema::*;
		match self {
			USize => Val::U(match r.below(6) {
				0 => 65536, 1 => u128::from(u64::MAX), 2 => 65537, 3 => 1 << 32, 4 => 1 << 63,
				_ => 65536 + u128::from(r.u64() >> r.range(1, 47)),
			}),
			ISize => Val::I(match r.below(8) {
				0 => 32768, 1 => -32769, 2 => i128::from(i64::MAX), 3 => i128::from(i64::MIN), 4 => 65535, 5 => 65536, 6 => -65536,
				_ => { let v = 32768 + i128::from(r.u64() >> r.range(1, 47)); let v = v.min(i128::from(i64::MAX)); if r.chance(1, 2) { v } else { -v - 1 } }
			}),
			NonZero(s) => s.gen_bad(r),
			Array(n, s) => { let k = r.below(*n); Val::List((0..*n).map(|i| if i == k || i > k && r.chance(1, 4) { s.gen_bad(r) } else { s.gen(r) }).collect()) }
			Seq(c, s) => {
				let long = c.map_or(true, |c| c > 65535);
				let cheap = matches!(**s, Unit | Bool | Int { .. } | USize | Char | Tuple(_));
				if long && (!s.can_be_bad() || cheap && r.chance(1, 3)) {
					let max = c.unwrap_or(usize::MAX);
					let n = if r.chance(1, 8) { 131_072 } else { *r.pick(&[65536, 65537, 66000]) }.min(max);
					let v = s.gen_d(r, 9, &mut 0);
					Val::List((0..n).map(|_| v.clone()).collect())
				} else {
					let far = cheap && !cfg!(miri) && c.map_or(true, |c| c > 300) && r.chance(1, 6);
					let n = if far { let top = c.unwrap_or(3000).min(3000); if r.chance(1, 2) { r.range(257, 300) } else { r.range(257, top) } } else { r.range(1, c.unwrap_or(9).min(9)) };
					let k = if far && r.chance(3, 4) { n - 1 - r.below(3) } else { r.below(n) };
					Val::List((0..n).map(|i| if i == k || i > k && r.chance(1, 4) { s.gen_bad(r) } else { s.gen(r) }).collect())
				}
			}
			Str(c) => { let n = (*r.pick(&[65536, 65537, 100_000])).min(c.unwrap_or(usize::MAX)); Val::Bytes(vec![b'a'; n]) }
			CStr => { let n = *r.pick(&[65536, 65537, 100_000]); Val::Bytes(vec![b'a'; n]) }
			Opt(s) => Val::Opt(Some(Box::new(s.gen_bad(r)))),
			Bound(s) => Val::Bound(r.below(2) as u8, Some(Box::new(s.gen_bad(r)))),
			RefCell(s) => s.gen_bad(r),
			Res(a, b) => { let e = if !a.can_be_bad() { true } else if !b.can_be_bad() { false } else { r.chance(1, 2) }; Val::Res(e, Box::new(if e { b } else { a }.gen_bad(r))) }
			Set(s) => Val::Set(vec![s.gen_bad(r)]),
			Map(a, b) => {
				let (x, y) = (a.can_be_bad(), b.can_be_bad());
				let k = r.chance(1, 2);
				Val::Map(vec![(if x && (k || !y) { a.gen_bad(r) } else { a.gen(r) }, if y && (!k || !x) { b.gen_bad(r) } else { b.gen(r) })])
			}
			Tuple(v) | Struct(v) => Val::List(Self::bad_fields(v, r)),
			Enum(rp, v) => {
				let ok: Vec<usize> = (0..v.len()).filter(|&i| v[i].1.iter().all(Self::inhabited) && (!rp.has_discr(v[i].0) || v[i].1.iter().any(Self::can_be_bad))).collect();
				let i = *r.pick(&ok);
				if !v[i].1.iter().any(Self::can_be_bad) { return Val::Enum(i, v[i].1.iter().map(|s| s.gen(r)).collect()) }
				Val::Enum(i, Self::bad_fields(&v[i].1, r))
			}
			_ => unreachable!(),
		}
	}

	fn bad_fields(v: &[Schema], r: &mut Rng) -> Vec<Val> {
		let ok: Vec<usize> = (0..v.len()).filter(|&i| v[i].can_be_bad()).collect();
		let k = *r.pick(&ok);
		v.iter().enumerate().map(|(i, s)| if i == k || i > k && s.can_be_bad() && r.chance(1, 4) { s.gen_bad(r) } else { s.gen(r) }).collect()
	}

	/// Reference encoder.
	pub fn enc(&self, v: &Val, out: &mut Vec<u8>) -> Result<(), E> {
		use Schema::*;
		let count = |n: usize, out: &mut Vec<u8>| -> Result<(), E> {
			if n > 65535 { return Err(E::Len(Box::new(E::USize(n as u128)))) }
			out.push((n & 255) as u8);
			out.push((n >> 8) as u8);
			Ok(())
		};
		let le = |v: u128, n: usize, out: &mut Vec<u8>| for i in 0..n { out.push((v >> (8 * i)) as u8) };
		match (self, v) {
			(Lazy(f), v) => f().enc(v, out)?,
			(Unit, _) => {}
			(Bool, Val::Bool(b)) => out.push(u8::from(*b)),
			(Int { bits, .. }, Val::U(x)) => le(*x, *bits as usize / 8, out),
			(Int { bits, .. }, Val::I(x)) => le(*x as u128, *bits as usize / 8, out),
			(USize, Val::U(x)) => { if *x > 65535 { return Err(E::USize(*x)) } le(*x, 2, out) }
			(ISize, Val::I(x)) => { if *x > 32767 || *x < -32768 { return Err(E::ISize(*x)) } le(*x as u128, 2, out) }
			(NonZero(s), v) => s.enc(v, out)?,
			(F32, Val::F32(x)) => le(u128::from(*x), 4, out),
			(F64, Val::F64(x)) => le(u128::from(*x), 8, out),
			(Char, Val::Char(x)) => le(u128::from(*x), 4, out),
			(Tuple(s), Val::List(l)) => for (s, v) in s.iter().zip(l) { s.enc(v, out)? },
			(Array(_, s), Val::List(l)) => for (i, v) in l.iter().enumerate() { s.enc(v, out).map_err(|e| E::Item(i, Box::new(e)))? },
			(Seq(_, s), Val::List(l)) => {
				count(l.len(), out)?;
				for (i, v) in l.iter().enumerate() { s.enc(v, out).map_err(|e| E::Item(i, Box::new(e)))? }
			}
			(Str(_) | CStr, Val::Bytes(b)) => { count(b.len(), out)?; out.extend_from_slice(b) }
			(Opt(_), Val::Opt(None)) => out.push(0),
			(Opt(s), Val::Opt(Some(v))) => { out.push(1); s.enc(v, out)? }
			(Res(a, b), Val::Res(e, v)) => { out.push(u8::from(*e)); if *e { b.enc(v, out).map_err(|e| if let Struct(_) = **a { gen(e) } else { e })? } else { a.enc(v, out)? } }
			(Bound(s), Val::Bound(k, v)) => {
				out.push(*k);
				if let Some(v) = v { s.enc(v, out).map_err(|e| E::Field(Box::new(e)))? }
			}
			(Ip4, Val::Ip(_, x)) => le(*x, 4, out),
			(Ip6, Val::Ip(_, x)) => le(*x, 16, out),
			(Ip, Val::Ip(k, x)) => { out.push(*k); le(*x, if *k == 4 { 4 } else { 16 }, out) }
			(Sock4, Val::Sock(_, ip, port, ..)) => { le(*ip, 4, out); le(u128::from(*port), 2, out) }
			(Sock6, Val::Sock(_, ip, port, flow, scope)) => {
				le(*ip, 16, out);
				le(u128::from(*port), 2, out);
				le(u128::from(*flow), 4, out);
				le(u128::from(*scope), 4, out);
			}
			(Sock, v @ Val::Sock(k, ..)) => { out.push(*k); if *k == 4 { Sock4.enc(v, out)? } else { Sock6.enc(v, out)? } }
			(Dur, Val::Dur(s, n)) => { le(u128::from(*s), 8, out); le(u128::from(*n), 4, out) }
			(Time, Val::Time(t)) => le(*t as u64 as u128, 8, out),
			(Map(k, x), Val::Map(l)) => {
				count(l.len(), out)?;
				for (i, (a, b)) in l.iter().enumerate() {
					k.enc(a, out).map_err(|e| E::Item(i, Box::new(e)))?;
					x.enc(b, out).map_err(|e| E::Item(i, Box::new(e)))?;
				}
			}
			(Set(k), Val::Set(l)) => {
				count(l.len(), out)?;
				for (i, a) in l.iter().enumerate() { k.enc(a, out).map_err(|e| E::Item(i, Box::new(e)))? }
			}
			(RefCell(s), v) => s.enc(v, out).map_err(|e| E::Cell(Box::new(e)))?,
			(Struct(f), Val::List(l)) => for (s, v) in f.iter().zip(l) { s.enc(v, out).map_err(gen)? },
			(Enum(r, vs), Val::Enum(i, l)) => {
				let (d, f) = &vs[*i];
				let dv = match **r { Int { signed: false, .. } | USize => Val::U(*d as u128), _ => Val::I(*d) };
				r.enc(&dv, out).map_err(|e| E::Discr(Box::new(e)))?;
				for (s, v) in f.iter().zip(l) { s.enc(v, out).map_err(|e| E::Field(Box::new(gen(e))))? }
			}
			(s, v) => panic!("value {v:?} does not fit schema {s:?}"),
		}
		Ok(())
	}

	/// Reference decoder; advances `p`. `need` accumulates how much heap the declared
	/// counts could call for.
	pub fn dec(&self, b: &[u8], p: &mut usize, need: &mut Need) -> Result<Val, Stop> {
		use Schema::*;
		fn le(b: &[u8], p: &mut usize, n: usize) -> Result<u128, Stop> {
			if b.len() - *p < n { return Err(Stop::Trunc) }
			let mut v = 0;
			for i in 0..n { v |= u128::from(b[*p + i]) << (8 * i) }
			*p += n;
			Ok(v)
		}
		let item = |i: usize| move |s: Stop| s.wrap(|e| E::Item(i, Box::new(e)));
		Ok(match self {
			Lazy(f) => f().dec(b, p, need)?,
			Unit => Val::Unit,
			Never => return Err(Stop::Never),
			Bool => Val::Bool(le(b, p, 1)? != 0),
			Int { bits, signed } => { let v = le(b, p, *bits as usize / 8)?; if *signed { Val::I(sign_extend(v, *bits)) } else { Val::U(v) } }
			USize => Val::U(le(b, p, 2)?),
			ISize => Val::I(sign_extend(le(b, p, 2)?, 16)),
			NonZero(s) => {
				let v = s.dec(b, p, need)?;
				if v == Val::U(0) || v == Val::I(0) { return Err(Stop::Err(E::NonZero)) }
				v
			}
			F32 => Val::F32(le(b, p, 4)? as u32),
			F64 => Val::F64(le(b, p, 8)? as u64),
			Char => {
				let c = le(b, p, 4)? as u32;
				if c > 0x10FFFF || (0xD800..0xE000).contains(&c) { return Err(Stop::Err(E::Char(c))) }
				Val::Char(c)
			}
			Tuple(v) => { let mut o = Vec::new(); for s in v { o.push(s.dec(b, p, need)?) } Val::List(o) }
			Array(n, s) => { let mut o = Vec::new(); for i in 0..*n { o.push(s.dec(b, p, need).map_err(item(i))?) } Val::List(o) }
			Seq(cap, s) => {
				let n = le(b, p, 2)? as usize;
				if let Some(c) = *cap { if n > c { return Err(Stop::Err(E::Len(Box::new(E::Cap { cap: c, len: n })))) } }
				need.add(self.heap_bound(n, cap.is_some()), n);
				let mut o = Vec::new();
				for i in 0..n { o.push(s.dec(b, p, need).map_err(item(i))?) }
				Val::List(o)
			}
			Str(cap) => {
				let n = le(b, p, 2)? as usize;
				let over = cap.and_then(|c| (n > c).then(|| E::Len(Box::new(E::Cap { cap: c, len: n }))));
				if b.len() - *p < n { return Err(match over { Some(e) => Stop::TruncOr(e), None => Stop::Trunc }) }
				if let Some(e) = over { return Err(Stop::Err(e)) }
				need.add(self.heap_bound(n, cap.is_some()), n);
				let d = &b[*p..*p + n];
				if let Some(i) = utf8_bad(d) { return Err(Stop::Err(E::Item2(i, d[i]))) }
				*p += n;
				Val::Bytes(d.to_vec())
			}
			CStr => {
				let n = le(b, p, 2)? as usize;
				if b.len() - *p < n { return Err(Stop::Trunc) }
				need.add(n + 1, n + 1);
				let d = &b[*p..*p + n];
				if let Some(i) = d.iter().position(|c| *c == 0) { return Err(Stop::Err(E::CStr(i))) }
				*p += n;
				Val::Bytes(d.to_vec())
			}
			Opt(s) => if le(b, p, 1)? != 0 { Val::Opt(Some(Box::new(s.dec(b, p, need)?))) } else { Val::Opt(None) },
			Res(x, y) => {
				let e = le(b, p, 1)? != 0;
				Val::Res(e, Box::new(if e { y } else { x }.dec(b, p, need).map_err(|s| s.wrap(|e| E::Field(Box::new(e))))?))
			}
			Bound(s) => match le(b, p, 1)? as u8 {
				k @ 0..=1 => Val::Bound(k, Some(Box::new(s.dec(b, p, need).map_err(|s| s.wrap(|e| E::Field(Box::new(e))))?))),
				2 => Val::Bound(2, None),
				k => return Err(Stop::Err(E::Unassigned(i128::from(k), 8))),
			},
			Ip4 => Val::Ip(4, le(b, p, 4)?),
			Ip6 => Val::Ip(6, le(b, p, 16)?),
			Ip => match le(b, p, 1)? { 4 => Ip4.dec(b, p, need)?, 6 => Ip6.dec(b, p, need)?, k => return Err(Stop::Err(E::Unassigned(k as i128, 8))) },
			Sock4 => { let ip = le(b, p, 4)?; Val::Sock(4, ip, le(b, p, 2)? as u16, 0, 0) }
			Sock6 => { let ip = le(b, p, 16)?; let port = le(b, p, 2)? as u16; let f = le(b, p, 4)? as u32; Val::Sock(6, ip, port, f, le(b, p, 4)? as u32) }
			Sock => match le(b, p, 1)? { 4 => Sock4.dec(b, p, need)?, 6 => Sock6.dec(b, p, need)?, k => return Err(Stop::Err(E::Unassigned(k as i128, 8))) },
			Dur => {
				let s = le(b, p, 8)? as u64;
				let n = le(b, p, 4)? as u32;
				let Some(s) = s.checked_add(u64::from(n / 1_000_000_000)) else { return Err(Stop::DurOverflow) };
				Val::Dur(s, n % 1_000_000_000)
			}
			Time => Val::Time(le(b, p, 8)? as u64 as i64),
			Map(k, v) => {
				let n = le(b, p, 2)? as usize;
				need.add(self.heap_bound(n, false), n);
				let mut m = std::collections::BTreeMap::new();
				for i in 0..n {
					let a = k.dec(b, p, need).map_err(item(i))?;
					let c = v.dec(b, p, need).map_err(item(i))?;
					m.insert(a, c);
				}
				Val::Map(m.into_iter().collect())
			}
			Set(k) => {
				let n = le(b, p, 2)? as usize;
				need.add(self.heap_bound(n, false), n);
				let mut m = std::collections::BTreeSet::new();
				for i in 0..n { m.insert(k.dec(b, p, need).map_err(item(i))?); }
				Val::Set(m.into_iter().collect())
			}
			RefCell(s) => s.dec(b, p, need)?,
			Struct(f) => { let mut o = Vec::new(); for s in f { o.push(s.dec(b, p, need).map_err(|s| s.wrap(gen))?) } Val::List(o) }
			Enum(r, vs) => {
				let (bits, d) = match (&**r, r.dec(b, p, need)?) {
					(Int { bits, .. }, Val::U(v)) => (*bits, v as i128),
					(Int { bits, .. }, Val::I(v)) => (*bits, v),
					(_, Val::U(v)) => (64, v as i128),
					(_, Val::I(v)) => (64, v),
					_ => unreachable!(),
				};
				let Some(i) = vs.iter().position(|(x, _)| *x == d) else { return Err(Stop::Err(E::Unassigned(d, bits))) };
				let mut o = Vec::new();
				for s in &vs[i].1 { o.push(s.dec(b, p, need).map_err(|s| s.wrap(|e| E::Field(Box::new(gen(e)))))?) }
				Val::Enum(i, o)
			}
		})
	}

	/// Normal form of a value, for comparison (hash collections are unordered).
	pub fn canon(&self, v: Val) -> Val {
		if !self.has_unordered() { return v }
		fn go(v: Val) -> Val {
			match v {
				Val::List(l) => Val::List(l.into_iter().map(go).collect()),
				Val::Opt(Some(v)) => Val::Opt(Some(Box::new(go(*v)))),
				Val::Res(e, v) => Val::Res(e, Box::new(go(*v))),
				Val::Bound(k, Some(v)) => Val::Bound(k, Some(Box::new(go(*v)))),
				Val::Enum(i, l) => Val::Enum(i, l.into_iter().map(go).collect()),
				Val::Map(m) => { let mut m: Vec<_> = m.into_iter().map(|(k, v)| (go(k), go(v))).collect(); m.sort(); Val::Map(m) }
				Val::Set(m) => { let mut m: Vec<_> = m.into_iter().map(go).collect(); m.sort(); Val::Set(m) }
				v => v,
			}
		}
		go(v)
	}

	/// Whether two byte strings encode the same value (equal but for the order of hash collections).
	pub fn same_bytes(&self, a: &[u8], b: &[u8]) -> bool {
		if !self.has_unordered() { return a == b }
		if a.len() != b.len() { return false }
		let (mut p, mut q) = (0, 0);
		let (x, y) = (self.dec(a, &mut p, &mut Need::default()), self.dec(b, &mut q, &mut Need::default()));
		match (x, y) { (Ok(x), Ok(y)) => p == a.len() && q == b.len() && x == y, _ => false }
	}
}

impl Stop {
	pub fn wrap(self, f: impl FnOnce(E) -> E) -> Self {
		match self { Self::Err(e) => Self::Err(f(e)), Self::TruncOr(e) => Self::TruncOr(f(e)), s => s }
	}
}

impl E {
	/// Malformed UTF-8, as collections of bytes report it.
	#[allow(non_snake_case)]
	pub fn Item2(index: usize, value: u8) -> Self { E::Utf8 { value, index } }

	/// The innermost cause.
	pub fn leaf(&self) -> &E {
		match self {
			E::Len(e) | E::Item(_, e) | E::Cell(e) | E::Discr(e) | E::Field(e) | E::Gen(e) => e.leaf(),
			e => e,
		}
	}
}

/// What derived implementations make of a field's error.
pub fn gen(e: E) -> E {
	match e {
		E::Gen(_) => e,
		E::Len(e) | E::Item(_, e) | E::Field(e) | E::Discr(e) => gen(*e),
		E::Unassigned(v, bits) => E::Gen(Box::new(E::GUnassigned(v as u128 & mask(bits)))),
		e => E::Gen(Box::new(e)),
	}
}

/// The offset of the first octet that is not part of well-formed UTF-8 (Unicode 15, table 3-7).
pub fn utf8_bad(d: &[u8]) -> Option<usize> {
	let mut i = 0;
	while i < d.len() {
		let c = d[i];
		let (n, lo, hi) = match c {
			0x00..=0x7F => { i += 1; continue }
			0xC2..=0xDF => (1, 0x80, 0xBF),
			0xE0 => (2, 0xA0, 0xBF),
			0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
			0xED => (2, 0x80, 0x9F),
			0xF0 => (3, 0x90, 0xBF),
			0xF1..=0xF3 => (3, 0x80, 0xBF),
			0xF4 => (3, 0x80, 0x8F),
			_ => return Some(i),
		};
		for k in 1..=n {
			let Some(&x) = d.get(i + k) else { return Some(i) };
			let ok = if k == 1 { (lo..=hi).contains(&x) } else { (0x80..=0xBF).contains(&x) };
			if !ok { return Some(i) }
		}
		i += n + 1;
	}
	None
}

impl Schema {
	/// Roughly the size of the type in memory, never less.
	pub fn mem(&self) -> usize {
		use Schema::*;
		let up = |n: usize| (n + 15) / 8 * 8;
		match self {
			Unit | Never => 0,
			Bool => 1,
			Int { bits, .. } => *bits as usize / 8,
			USize | ISize | F64 => 8,
			NonZero(s) => s.mem(),
			F32 | Char | Ip4 => 4,
			Ip6 => 16,
			Ip => 17,
			Sock4 => 6,
			Sock6 => 28,
			Sock => 32,
			Dur | Time => 16,
			Tuple(v) | Struct(v) => up(v.iter().map(|s| (s.mem() + 15) / 16 * 16).sum()),
			Array(n, s) => n * s.mem(),
			Seq(None, _) | Str(None) | CStr | Lazy(_) => 32,
			Seq(Some(n), s) => up(n * s.mem() + 8),
			Str(Some(n)) => up(n + 8),
			Opt(s) | Bound(s) | RefCell(s) => up(s.mem() + 16),
			Res(a, b) => up(a.mem().max(b.mem()) + 16),
			Map(..) | Set(..) => 64,
			Enum(_, v) => up(v.iter().map(|(_, f)| f.iter().map(|s| (s.mem() + 15) / 16 * 16).sum::<usize>()).max().unwrap_or(0) + 16),
		}
	}

	/// Bytes of heap that `n` elements of a collection of this kind can need.
	fn heap_bound(&self, n: usize, bounded: bool) -> usize {
		use Schema::*;
		if bounded { return 0 }
		let table = |e: usize| if n == 0 { 0 } else { let b = (n * 8 / 7 + 1).next_power_of_two().max(4); b * (e + 1) + 64 };
		match self {
			Seq(_, s) => n * s.mem(),
			Str(_) => n,
			CStr => n + 1,
			Map(k, v) => table((k.mem() + 15) / 16 * 16 + (v.mem() + 15) / 16 * 16),
			Set(k) => table((k.mem() + 15) / 16 * 16),
			_ => 0,
		}
	}
}

/// What the declared counts of a source call for: bytes of flat storage, and elements.
#[derive(Default, Debug, Clone, Copy)]
pub struct Need { pub bytes: usize, pub elems: usize }
impl Need { fn add(&mut self, b: usize, n: usize) { self.bytes += b; self.elems += n } }
