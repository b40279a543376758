"""Generates a crate of random types that derive the traits, with reference descriptions of them.

The types only use what the macros document and accept; see DESIGN.md for the forms that they refuse.
"""
import os, random

# Field types whose errors convert to the generic ones; whether they have a maximum size.
LEAVES = [(t, True) for t in """() bool u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 NonZero<u8> NonZero<u16> NonZero<i64> NonZero<usize>
PhantomData<u64> RangeFull Duration Ipv4Addr Ipv6Addr IpAddr SocketAddrV4 SocketAddr Wrapping<u32> Saturating<i64> Cell<u16> Range<usize> RangeInclusive<u16> RangeTo<u64>
SizedStr<5> SizedStr<0> SizedStr<33> AtomicU16 AtomicIsize""".split()] + [(t, False) for t in "PhantomPinned String CString".split()] + [("SystemTime", True)]
FIELD_NAMES = """a b c x y z stream value value0 value1 value2 this discriminant current_size total_size r#type r#fn r#match r#struct error e t len input output Encode decode result
some_longer_name _private ünïcode camelCase T0 out""".split()
VARIANT_NAMES = "A B C D E F G H Ok Err Some None Error Self_ r#Try Variant Infallible Value Stream InvalidDiscriminant UnassignedDiscriminant BadField Überraschung Last".split()
REPRS = "u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize".split()
BOUND = "Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>>"
SIZED = " + SizedEncode"


def limit(r):
	if r in ("u128", "i128"):
		return 2 ** 127 - 1
	bits = 64 if r.endswith("size") else int(r[1:])
	return 2 ** (bits - (r[0] == "i")) - 1


class Gen:
	def __init__(self, seed, count):
		self.r = random.Random(seed)
		self.out, self.types, self.enums, self.forms = [], [], [], []
		self.made = []  # (type, sized) usable as fields
		self.n = 0
		for i in range(count):
			self.n = i
			k = self.r.random()
			if i == 0: self.fixed()
			elif k < 0.34: self.struct()
			elif k < 0.78: self.enum()
			elif k < 0.93: self.generic()
			else: self.borrowed()

	# Types.

	def leaf(self, sized):
		while True:
			if self.made and self.r.random() < 0.15:
				t = self.r.choice(self.made[-20:])
			else:
				t = self.r.choice(LEAVES)
			if t[1] or not sized:
				return t

	def ty(self, sized=False, depth=0, param=None):
		r = self.r
		if depth > 2 or r.random() < 0.62:
			if param and r.random() < 0.6:
				return param
			return self.leaf(sized)
		inner, s = self.ty(sized, depth + 1, param)
		forms = [f"Option<{inner}>", f"[{inner}; {r.randint(0, 4)}]", f"SizedSlice<{inner}, {r.choice([0, 1, 3, 7])}>", f"({inner},)", f"({inner}, {inner})", f"Bound<{inner}>"]
		if not param:
			forms += [f"Box<{inner}>"]
		if not sized:
			forms += [f"Vec<{inner}>"] * 2
			if not param and s and r.random() < 0.3:
				return f"HashMap<{r.choice(['u8', 'u16'])}, {r.choice(['i32', 'u8', 'f32', 'bool'])}>", False
		f = r.choice(forms)
		return f, s and not f.startswith("Vec")

	def fields(self, n, sized, param=None):
		"""(kind, [(name, type)], sized): kind is unit, tuple or named."""
		fs = [self.ty(sized, 0, param) for _ in range(n)]
		kind = self.r.choice(["tuple", "named"]) if n else self.r.choice(["unit", "unit", "tuple", "named"])
		names = self.r.sample(FIELD_NAMES, n) if n <= len(FIELD_NAMES) else [f"f{i}" for i in range(n)]
		return kind, [(names[i], fs[i][0]) for i in range(n)], all(f[1] for f in fs)

	def size(self):
		return self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 13])

	def attrs(self):
		return self.r.choice(["", "", "/// Documented.\n", "#[allow(dead_code)]\n", "#[must_use]\n", "#[non_exhaustive]\n", "#[allow(clippy::all)]\n/** Documented. */\n"])

	def vis(self):
		return self.r.choice(["pub ", "pub(crate) ", "pub(super) "])

	def body(self, kind, fs, vis=""):
		if kind == "unit": return ""
		if kind == "tuple": return "(" + ", ".join(vis + t for _, t in fs) + ")"
		return " { " + ", ".join(f"{vis}{n}: {t}" for n, t in fs) + " }"

	def make(self, path, kind, fs):
		if kind == "unit": return path
		vals = [f"Typ::from_val(&l[{i}])" for i in range(len(fs))]
		if kind == "tuple": return path + "(" + ", ".join(vals) + ")"
		return path + " { " + ", ".join(f"{n}: {v}" for (n, _), v in zip(fs, vals)) + " }"

	def take(self, path, kind, fs):
		b = [f"w{i}" for i in range(len(fs))]
		if kind == "unit": p = path
		elif kind == "tuple": p = path + "(" + ", ".join(b) + ")"
		else: p = path + " { " + ", ".join(f"{n}: {x}" for (n, _), x in zip(fs, b)) + " }"
		return p, "vec![" + ", ".join(f"{x}.to_val()" for x in b) + "]"

	def schemas(self, fs):
		return "vec![" + ", ".join(f"<{t} as Typ>::schema()" for _, t in fs) + "]"

	def derives(self, sized):
		d = [self.r.choice(["Encode", "oct::encode::Encode", "::oct::encode::Encode"]), self.r.choice(["Decode", "oct::decode::Decode"])]
		if sized: d.append(self.r.choice(["SizedEncode", "oct::encode::SizedEncode"]))
		self.r.shuffle(d)
		if self.r.random() < 0.3:
			return "".join(f"#[derive({x})]\n" for x in d)
		return f"#[derive({', '.join(d)})]\n"

	def add(self, name, sized):
		self.types.append(name)
		self.made.append((name, sized))

	def typ_struct(self, ty, head, kind, fs):
		p, v = self.take("Self", kind, fs)
		self.out.append(f"""impl{head} Typ for {ty} {{
	fn schema() -> Schema {{ Schema::Struct({self.schemas(fs)}) }}
	fn from_val(v: &Val) -> Self {{ let Val::List(l) = v else {{ panic!() }}; let _ = l; {self.make("Self", kind, fs)} }}
	fn to_val(&self) -> Val {{ let {p} = self; Val::List({v}) }}
}}""")

	def struct(self):
		name = f"S{self.n}"
		kind, fs, sized = self.fields(self.size() if self.r.random() < 0.95 else 40, self.r.random() < 0.5)
		semi = "" if kind == "named" else ";"
		self.out.append(f"{self.attrs()}{self.derives(sized)}pub struct {name}{self.body(kind, fs, self.vis())}{semi}")
		self.typ_struct(name, "", kind, fs)
		self.add(name, sized)

	# Enumerations.

	def literal(self, d, repr_):
		s = self.r.choice([str(d), str(d), hex(d), f"0x{d:X}", oct(d), bin(d), f"{d:_}"])
		if repr_ and self.r.random() < 0.25:
			s += self.r.choice(["", "_"]) + repr_
		return s

	def discriminants(self, n, repr_, explicit):
		top = limit(repr_ or "isize")
		while True:
			out, prev, p = [], -1, self.r.choice([0, 0.2, 0.5, 1]) if explicit else 0
			for _ in range(n):
				if self.r.random() < p:
					d = self.r.choice([self.r.randint(0, min(top, 40)), self.r.randint(0, min(top, 300)), self.r.randint(0, top), top, top - self.r.randint(0, n + 3), 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000])
					e = True
				else:
					d, e = prev + 1, False
				out.append((d, e))
				prev = d
			ds = [d for d, _ in out]
			# At least one must be encodable.
			most = {"usize": 0xFFFF, "isize": 0x7FFF, None: 0x7FFF}.get(repr_, top)
			if len(set(ds)) == n and all(0 <= d <= top for d in ds) and min(ds) <= most:
				return out

	def enum(self):
		name = f"E{self.n}"
		r = self.r
		repr_ = r.choice(REPRS + [None] * 4)
		n = r.choice([1, 1, 2, 3, 4, 5, 8, 20])
		if r.random() < 0.04: n = 300 if repr_ not in ("u8", "i8") else 100
		plain = r.random() < 0.25
		sized = r.random() < 0.5
		vs = []
		for i in range(n):
			k = 0 if plain else r.choice([0, 0, 1, 1, 2, 3, 6]) if n < 50 else r.choice([0, 0, 0, 1])
			kind, fs, s = self.fields(k, sized)
			if plain and not r.random() < 0.2: kind = "unit"
			vs.append((kind, fs, s))
		fieldless = all(k == "unit" for k, _, _ in vs)
		ds = self.discriminants(n, repr_, repr_ is not None or fieldless)
		names = r.sample(VARIANT_NAMES, n) if n <= len(VARIANT_NAMES) else [f"V{i}" for i in range(n)]
		text = []
		for nm, (kind, fs, _), (d, e) in zip(names, vs, ds):
			text.append("\t" + r.choice(["", "", "", "/// A variant.\n\t", "#[allow(dead_code)] "]) + nm + self.body(kind, fs) + (f" = {self.literal(d, repr_)}" if e else "") + ",")
		sized = all(s for _, _, s in vs)
		rep = f"#[repr({repr_})]\n" if repr_ else ""
		head = self.attrs()
		der = self.derives(sized)
		order = [rep, der, "#[allow(non_camel_case_types)]\n"]
		r.shuffle(order)
		if fieldless and not repr_: order.append("#[derive(Clone, Copy)]\n")
		self.out.append(f"{head}{''.join(order)}pub enum {name} {{\n" + "\n".join(text) + "\n}")
		ri = {"usize": "Schema::USize", "isize": "Schema::ISize", None: "Schema::ISize"}.get(repr_) or f"int({repr_[1:]}, {'true' if repr_[0] == 'i' else 'false'})"
		sch = ", ".join(f"({d}, {self.schemas(fs)})" for (d, _), (_, fs, _) in zip(ds, vs))
		frm = " ".join(f"{i} => {self.make('Self::' + nm, kind, fs)}," for i, (nm, (kind, fs, _)) in enumerate(zip(names, vs)))
		to = []
		for i, (nm, (kind, fs, _)) in enumerate(zip(names, vs)):
			p, v = self.take("Self::" + nm, kind, fs)
			to.append(f"{p} => Val::Enum({i}, {v}),")
		if repr_: lang = f"unsafe {{ *(self as *const Self).cast::<{repr_}>() as i128 }}"
		elif fieldless: lang = "*self as isize as i128"
		else: lang = "match self { " + " ".join(f"Self::{nm} {{ .. }} => {i}," for i, nm in enumerate(names)) + " }"
		self.out.append(f"""impl Typ for {name} {{
	fn schema() -> Schema {{ Schema::Enum(Box::new({ri}), vec![{sch}]) }}
	fn from_val(v: &Val) -> Self {{ let Val::Enum(i, l) = v else {{ panic!() }}; let _ = l; match *i {{ {frm} _ => panic!() }} }}
	fn to_val(&self) -> Val {{ match self {{ {' '.join(to)} }} }}
}}
impl Lang for {name} {{ const WIDTH: usize = {2 if (repr_ or 'isize').endswith('size') else int(repr_[1:]) // 8}; fn lang(&self) -> i128 {{ {lang} }} }}""")
		self.enums.append(name)
		self.add(name, sized)

	# Generic types.

	def generic(self):
		name = f"G{self.n}"
		r = self.r
		sized = r.random() < 0.5
		bound = BOUND + (SIZED if sized else "")
		life, const, two, where = r.random() < 0.3, r.random() < 0.5, r.random() < 0.3, r.random() < 0.5
		params = (["'a"] if life else []) + ([f"T: {bound}" if not where else "T"]) + ([f"U: {bound}"] if two else []) + (["const N: usize"] if const else [])
		clause = f" where T: {bound}" if where else ""
		if r.random() < 0.3 and where: clause += ","
		decl = "<" + ", ".join(params) + r.choice(["", ","] if not life else [""]) + ">"
		fs = []
		for i in range(r.choice([1, 2, 3, 4])):
			fs.append((FIELD_NAMES[i], self.ty(sized, 0, ("T", True))[0]))
		fs.append(("first", "T"))
		if two: fs.insert(r.randint(0, len(fs)), ("second", r.choice(["U", "Option<U>"])))
		if const: fs.insert(r.randint(0, len(fs)), ("third", r.choice(["[T; N]", "[u8; N]", "SizedSlice<T, N>", "SizedStr<N>", "SizedSlice<u16, N>"])))
		if life: fs.insert(r.randint(0, len(fs)), ("life", "PhantomData<&'a u8>"))
		kind = r.choice(["tuple", "named"])
		enum = r.random() < 0.4
		der = self.derives(sized)
		ilife = "'static" if life else None
		args = lambda t, u, n: f"{name}<" + ", ".join(x for x in [ilife, t, u if two else None, n if const else None] if x) + ">"
		head = "<" + ", ".join([f"T: Typ + {bound}"] + ([f"U: Typ + {bound}"] if two else []) + (["const N: usize"] if const else [])) + ">"
		fs = [(n, t.replace("&'a", "&'static")) for n, t in fs]
		shown = [(n, t.replace("&'static", "&'a")) for n, t in fs]
		if not enum:
			tail = f"{clause} {{ {', '.join(f'pub {n}: {t}' for n, t in shown)} }}" if kind == "named" else f"({', '.join('pub ' + t for _, t in shown)}){clause};"
			self.out.append(f"{self.attrs()}{der}pub struct {name}{decl}{tail}")
			self.typ_struct(args("T", "U", "N"), head, kind, fs)
		else:
			repr_ = r.choice(["u8", "i16", "u64"])
			d = r.randint(1, 100)
			self.out.append(f"{self.attrs()}{der}#[repr({repr_})]\npub enum {name}{decl}{clause} {{ Nothing, All{self.body(kind, shown)} = {d}, One(T) }}")
			p, v = self.take("Self::All", kind, fs)
			self.out.append(f"""impl{head} Typ for {args("T", "U", "N")} {{
	fn schema() -> Schema {{ Schema::Enum(Box::new(int({repr_[1:]}, {'true' if repr_[0] == 'i' else 'false'})), vec![(0, vec![]), ({d}, {self.schemas(fs)}), ({d + 1}, vec![T::schema()])]) }}
	fn from_val(v: &Val) -> Self {{ let Val::Enum(i, l) = v else {{ panic!() }}; match *i {{ 0 => Self::Nothing, 1 => {self.make("Self::All", kind, fs)}, _ => Self::One(Typ::from_val(&l[0])) }} }}
	fn to_val(&self) -> Val {{ match self {{ Self::Nothing => Val::Enum(0, vec![]), {p} => Val::Enum(1, {v}), Self::One(w) => Val::Enum(2, vec![w.to_val()]) }} }}
}}""")
		for _ in range(2):
			t = self.leaf(sized)[0]
			u = self.leaf(sized)[0]
			x = args(t, u, str(r.choice([0, 1, 2, 5])))
			if x not in self.types:
				self.add(x, sized)

	# Types that borrow, next to ones that own the same.

	def borrowed(self):
		name, own = f"B{self.n}", f"O{self.n}"
		r = self.r
		kinds = [("&'a str", "String", "g.{0}.as_str()"), ("&'a [u16]", "Vec<u16>", "g.{0}.as_slice()"), ("&'a u32", "u32", "&g.{0}"), ("&'a &'a isize", "isize", None),
			("Option<&'a u8>", "Option<u8>", "g.{0}.as_ref()"), ("&'a CStr", "CString", "g.{0}.as_c_str()"), ("&'a SizedStr<9>", "SizedStr<9>", "&g.{0}"), ("u64", "u64", "g.{0}"), ("&'a [usize]", "SizedSlice<usize, 9>", "g.{0}.as_slice()"),
			("Cow<'a, str>", "String", "Cow::Borrowed(g.{0}.as_str())"), ("[&'a u16; 2]", "[u16; 2]", "g.{0}.each_ref()"), ("Box<[bool]>", "Vec<bool>", "g.{0}.clone().into_boxed_slice()"), ("&'a dyn Marker", None, None)]
		kinds = [k for k in kinds if k[2]]
		fs = [r.choice(kinds) for _ in range(r.randint(1, 6))]
		names = r.sample(FIELD_NAMES, len(fs))
		self.out.append(f"#[derive(Encode)]\npub struct {name}<'a> {{ " + ", ".join(f"pub {n}: {k[0]}" for n, k in zip(names, fs)) + ", pub last: PhantomData<&'a ()> }")
		of = [(n, k[1]) for n, k in zip(names, fs)] + [("last", "PhantomData<u8>")]
		self.out.append(f"#[derive(Encode, Decode)]\npub struct {own}{self.body('named', of, 'pub ')}")
		self.typ_struct(own, "", "named", of)
		self.types.append(own)
		init = ", ".join(f"{n}: {k[2].format(n)}" for n, k in zip(names, fs))
		self.forms.append(f'"{name}<\'_>" as {own} => {name}, |b| b, |g| {name} {{ {init}, last: PhantomData }};')

	# One of each unusual kind.

	def fixed(self):
		self.out.append("""
#[derive(Encode, Decode, SizedEncode)]
pub struct Unit;
#[derive(Encode, Decode, SizedEncode)]
pub struct Braces {}
#[derive(Encode, Decode, SizedEncode)]
pub struct Parens();
macro_rules! nothing { ($($t:ident $e:expr;)*) => { $(impl Typ for $t { fn schema() -> Schema { Schema::Struct(vec![]) } fn from_val(_: &Val) -> Self { $e } fn to_val(&self) -> Val { Val::List(vec![]) } })* } }
nothing! { Unit Unit; Braces Braces {}; Parens Parens(); }

#[derive(Encode, Decode, SizedEncode)]
pub enum Void {}
impl Typ for Void {
	fn schema() -> Schema { Schema::Enum(Box::new(Schema::ISize), vec![]) }
	fn from_val(_: &Val) -> Self { panic!() }
	fn to_val(&self) -> Val { match *self {} }
}

/// Recursive, by two ways.
#[derive(Encode, Decode)]
pub struct Node { id: u8, kids: Vec<Node>, next: Option<Box<Link>> }
#[derive(Encode, Decode)]
#[repr(i8)]
pub enum Link { End = 5, To(Box<Node>), Both { a: Box<Link>, b: Box<Link> } = 1 }
impl Typ for Node {
	fn schema() -> Schema { Schema::Struct(vec![u8::schema(), Schema::Seq(None, Box::new(Schema::Lazy(Node::schema))), Schema::Opt(Box::new(Schema::Lazy(Link::schema)))]) }
	fn from_val(v: &Val) -> Self { let Val::List(l) = v else { panic!() }; Self { id: Typ::from_val(&l[0]), kids: Typ::from_val(&l[1]), next: Typ::from_val(&l[2]) } }
	fn to_val(&self) -> Val { Val::List(vec![self.id.to_val(), self.kids.to_val(), self.next.to_val()]) }
}
impl Typ for Link {
	fn schema() -> Schema { Schema::Enum(Box::new(int(8, true)), vec![(5, vec![]), (6, vec![Schema::Lazy(Node::schema)]), (1, vec![Schema::Lazy(Link::schema), Schema::Lazy(Link::schema)])]) }
	fn from_val(v: &Val) -> Self { let Val::Enum(i, l) = v else { panic!() }; match i { 0 => Self::End, 1 => Self::To(Typ::from_val(&l[0])), _ => Self::Both { a: Typ::from_val(&l[0]), b: Typ::from_val(&l[1]) } } }
	fn to_val(&self) -> Val { match self { Self::End => Val::Enum(0, vec![]), Self::To(a) => Val::Enum(1, vec![a.to_val()]), Self::Both { a, b } => Val::Enum(2, vec![a.to_val(), b.to_val()]) } }
}

/// Made by another macro.
macro_rules! made {
	($s:ident { $($f:ident: $t:ty),* } $e:ident: $r:ident { $($v:ident($($u:ty),*)),* }) => {
		#[derive(Encode, Decode, SizedEncode)]
		pub struct $s { $(pub $f: $t),* }
		impl Typ for $s {
			fn schema() -> Schema { Schema::Struct(vec![$(<$t as Typ>::schema()),*]) }
			fn from_val(v: &Val) -> Self { let Val::List(l) = v else { panic!() }; let mut l = l.iter(); Self { $($f: Typ::from_val(l.next().unwrap())),* } }
			fn to_val(&self) -> Val { Val::List(vec![$(self.$f.to_val()),*]) }
		}
		#[derive(Encode, Decode, SizedEncode)]
		#[repr($r)]
		pub enum $e { $($v($($u),*)),* }
	};
}
made! { Made { one: u16, two: Option<usize>, three: [u8; 3] } Made2: u16 { X(u8), Y(), Z(u32, Made) } }
impl Typ for Made2 {
	fn schema() -> Schema { Schema::Enum(Box::new(int(16, false)), vec![(0, vec![u8::schema()]), (1, vec![]), (2, vec![u32::schema(), Made::schema()])]) }
	fn from_val(v: &Val) -> Self { let Val::Enum(i, l) = v else { panic!() }; match i { 0 => Self::X(Typ::from_val(&l[0])), 1 => Self::Y(), _ => Self::Z(Typ::from_val(&l[0]), Typ::from_val(&l[1])) } }
	fn to_val(&self) -> Val { match self { Self::X(a) => Val::Enum(0, vec![a.to_val()]), Self::Y() => Val::Enum(1, vec![]), Self::Z(a, b) => Val::Enum(2, vec![a.to_val(), b.to_val()]) } }
}

/// Discriminants that the data model cannot count.
#[derive(Encode, Decode, SizedEncode)]
#[repr(usize)]
pub enum Wide { A(u8), B = 65535, C(u16), D = 0x1_0000_0000, E(NonZero<u8>) = 7 }
impl Typ for Wide {
	fn schema() -> Schema { Schema::Enum(Box::new(Schema::USize), vec![(0, vec![u8::schema()]), (65535, vec![]), (65536, vec![u16::schema()]), (1 << 32, vec![]), (7, vec![NonZero::<u8>::schema()])]) }
	fn from_val(v: &Val) -> Self { let Val::Enum(i, l) = v else { panic!() }; match i { 0 => Self::A(Typ::from_val(&l[0])), 1 => Self::B, 2 => Self::C(Typ::from_val(&l[0])), 3 => Self::D, _ => Self::E(Typ::from_val(&l[0])) } }
	fn to_val(&self) -> Val { match self { Self::A(a) => Val::Enum(0, vec![a.to_val()]), Self::B => Val::Enum(1, vec![]), Self::C(a) => Val::Enum(2, vec![a.to_val()]), Self::D => Val::Enum(3, vec![]), Self::E(a) => Val::Enum(4, vec![a.to_val()]) } }
}

/// Within a function, and next to names like those of the prelude.
pub mod shadowed {
	#![allow(dead_code)]
	use super::{int, Schema, Typ, Val};
	pub struct Result; pub struct Option; pub struct Infallible; pub struct GenericDecodeError; pub struct Input; pub struct Output;
	pub mod core {} pub mod std {} pub mod error {}
	#[derive(oct::decode::Decode, oct::encode::Encode, oct::encode::SizedEncode)]
	pub struct Shadow { pub result: u8, pub option: ::core::option::Option<u16> }
	#[derive(oct::decode::Decode, oct::encode::Encode, oct::encode::SizedEncode)]
	#[repr(u16)]
	pub enum Shade { Result(u8) = 256, Option { v: ::core::num::NonZero<u16> } }
	impl Typ for Shadow {
		fn schema() -> Schema { Schema::Struct(vec![u8::schema(), ::core::option::Option::<u16>::schema()]) }
		fn from_val(v: &Val) -> Self { let Val::List(l) = v else { panic!() }; Self { result: Typ::from_val(&l[0]), option: Typ::from_val(&l[1]) } }
		fn to_val(&self) -> Val { Val::List(vec![self.result.to_val(), self.option.to_val()]) }
	}
	impl Typ for Shade {
		fn schema() -> Schema { Schema::Enum(Box::new(int(16, false)), vec![(256, vec![u8::schema()]), (257, vec![::core::num::NonZero::<u16>::schema()])]) }
		fn from_val(v: &Val) -> Self { let Val::Enum(i, l) = v else { panic!() }; match i { 0 => Self::Result(Typ::from_val(&l[0])), _ => Self::Option { v: Typ::from_val(&l[0]) } } }
		fn to_val(&self) -> Val { match self { Self::Result(a) => Val::Enum(0, vec![a.to_val()]), Self::Option { v } => Val::Enum(1, vec![v.to_val()]) } }
	}
}
/// Only one direction.
#[derive(Encode)] pub struct OnlyEncode(u8, String);
#[derive(Decode)] pub struct OnlyDecode(u8, String);
pub fn one_way() -> bool {
	let mut b = [0; 8];
	let n = { let mut o = oct::encode::Output::new(&mut b); OnlyEncode(7, "ab".into()).encode(&mut o).is_ok().then(|| o.position()) };
	let d = OnlyDecode::decode(&mut oct::decode::Input::new(&[7, 2, 0, 97, 98]));
	n == Some(5) && b == [7, 2, 0, 97, 98, 0, 0, 0] && d.is_ok_and(|d| d.0 == 7 && d.1 == "ab")
}
""")
		self.types += ["Unit", "Braces", "Parens", "Void", "Node", "Link", "Made", "Made2", "Wide", "shadowed::Shadow", "shadowed::Shade", "Option<Link>", "Vec<Wide>"]
		self.made += [("Made", True), ("Made2", True), ("Wide", True), ("Unit", True)]

	def text(self):
		types = ",\n\t\t".join(self.types)
		forms = "\n\t\t".join(self.forms)
		langs = "\n\t".join(f"lang::<{e}>(\"{e}\", r, m);" for e in self.enums)
		return f"""// Generated.
#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, uncommon_codepoints, mixed_script_confusables, unused_must_use, unreachable_code, mismatched_lifetime_syntaxes)]
use oct::decode::Decode;
use oct::encode::{{Encode, SizedEncode}};
use oct::error::{{GenericDecodeError, GenericEncodeError}};
use oct::{{SizedSlice, SizedStr}};
use std::{{borrow::Cow, cell::*, collections::*, ffi::*, marker::*, net::*, num::*, ops::*, sync::atomic::*, time::*}};
use vcore::schema::{{int, Schema, Val}};
use vcore::{{mon::Mon, rng::Rng}};
use vreg::vtyp::typ::Typ;
use crate::{{lang, Lang}};

""" + "\n\n".join(self.out) + f"""

pub fn table() -> Vec<vreg::Ops> {{
	let mut v = vreg::Builder {{ v: Vec::new(), only: None }};
	vreg::ty! {{ v:
		{types}
	}}
	{"vreg::form! { v:" if forms else ""}
		{forms}
	{"}" if forms else ""}
	v.v
}}

pub fn langs(r: &mut Rng, m: &mut Mon) {{
	{langs}
}}
"""


CARGO = """[package]
name    = "vderive-%(edition)s"
version = "0.0.0"
edition = "%(edition)s"
publish = false

[workspace]

[[bin]]
name = "c15"
path = "src/main.rs"

[dependencies]
oct   = { path = "/repo/oct", default-features = false, features = ["alloc", "proc-macro", "std"] }
vcore = { path = "%(harness)s/core" }
vreg  = { path = "%(harness)s/reg", features = ["alloc", "proc-macro", "std"] }

[profile.dev]
opt-level        = 0
debug            = "line-tables-only"
debug-assertions = true
overflow-checks  = true
incremental      = false

[profile.plain]
inherits         = "dev"
debug-assertions = false
overflow-checks  = false

[profile.release]
opt-level     = 3
debug         = false
codegen-units = 16

[profile.dev.package.vcore]
opt-level = 2

[profile.plain.package.vcore]
opt-level = 2
"""


def write(path, text):
	os.makedirs(os.path.dirname(path), exist_ok=True)
	try:
		with open(path) as f:
			if f.read() == text: return
	except OSError:
		pass
	with open(path, "w") as f:
		f.write(text)


def generate(dir_, harness, edition, seed, count):
	g = Gen(f"{seed} {edition}", count)
	write(os.path.join(dir_, "Cargo.toml"), CARGO % {"edition": edition, "harness": harness})
	with open(os.path.join(harness, "Cargo.lock")) as f:
		lock = f.read()
	write(os.path.join(dir_, "src", "types.rs"), g.text())
	with open(os.path.join(harness, "derive_main.rs")) as f:
		write(os.path.join(dir_, "src", "main.rs"), f.read())
	return len(g.types) + len(g.forms)


if __name__ == "__main__":
	import sys
	here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
	print(generate(sys.argv[1], os.path.join(here, "harness"), sys.argv[2], sys.argv[3], int(sys.argv[4])))
