//! Workloads and oracles over the table of types.

use crate::{EncOut, Ops};
use oct::decode::Input;
use oct::encode::Output;
use vcore::mon::{catch, hex, parallel, trunc, Cfg, Mon};
use vcore::rng::{hash_bytes, Rng};
use vcore::schema::{Schema, Stop, Val, E};

pub fn show(v: &Val) -> String { let mut s = format!("{v:?}"); trunc(&mut s, 700); s }

/// Runs `f` `n` times per type, each with its own random stream; unexpected panics are violations.
pub fn each(cfg: &Cfg, prop: &str, n: usize, f: impl Fn(&Ops, &mut Rng, &mut Mon, usize) + Sync) -> Mon {
	vcore::mon::init();
	static ALL: std::sync::OnceLock<Vec<Ops>> = std::sync::OnceLock::new();
	let one;
	let ops = if cfg.only.is_some() { one = crate::all(cfg.only.clone()); &one } else { ALL.get_or_init(|| crate::all(None)) };
	each_in(ops, cfg, prop, n, f)
}

/// The same with a table of one's own.
pub fn each_in(ops: &[Ops], cfg: &Cfg, prop: &str, n: usize, f: impl Fn(&Ops, &mut Rng, &mut Mon, usize) + Sync) -> Mon {
	vcore::mon::init();
	let mut m = parallel(ops, |o, m| {
		let start = m.evals;
		for i in 0..n {
			// Each iteration has its own stream, so that one can be repeated alone.
			let mut r = Rng::new(cfg.seed ^ vcore::hash_fmt!("{prop} {} {i}", o.name));
			vcore::crumb!("{prop}: type `{}`, iteration {i}, seed {}", o.name, cfg.seed);
			if let Err(p) = catch(|| f(o, &mut r, m, i)) {
				m.violation(&format!("panic {}", o.name), || format!("unexpected panic with `{}` in iteration {i} (seed {}): {p}", o.name, cfg.seed));
			}
		}
		if m.evals > start { m.count("types exercised", 1) }
	});
	m.count("types in the table", ops.len() as u64);
	m
}

/// Encodes behind `at` earlier bytes into a buffer of `cap` bytes.
pub struct Enc { pub out: EncOut, pub buf: Vec<u8>, pub start: usize, pub end: usize }

pub fn encode_at(o: &Ops, v: &Val, prefix: &[u8], cap: usize, fill: u8) -> Enc {
	let mut buf = vec![fill; cap];
	let mut s = Output::new(&mut buf);
	s.write(prefix).expect("prefix fits");
	let start = s.position();
	let out = (o.enc)(v, &mut s);
	let end = s.position();
	Enc { out, buf, start, end }
}

/// The reference encoding.
pub fn reference(o: &Ops, v: &Val) -> Result<Vec<u8>, E> { let mut b = Vec::new(); o.schema.enc(v, &mut b).map(|()| b) }

pub fn value(o: &Ops, r: &mut Rng, i: usize) -> Option<Val> {
	if !o.schema.inhabited() { return None }
	if i % 16 == 3 && !cfg!(miri) { if let Some(v) = o.schema.gen_max(r) { return Some(v) } }
	Some(o.schema.gen(r))
}

const LONG: [usize; 16] = [65535, 255, 32768, 1000, 256, 4096, 65534, 16384, 257, 8192, 32767, 512, 65535, 2048, 1024, 128];

/// The same, at times with a long collection.
fn value_or_long(o: &Ops, r: &mut Rng, i: usize) -> Option<Val> {
	if i % 16 == 9 && !cfg!(miri) && o.schema.inhabited() { if let Some(v) = o.schema.gen_long(r, LONG[i / 16 % 16]) { return Some(v) } }
	value(o, r, i)
}

fn key(o: &Ops, b: &[u8]) -> Option<u64> { (!b.is_empty()).then(|| hash_bytes(o.name.as_bytes()) ^ hash_bytes(b)) }

/// C01: round trip, alone and in its own slot.
pub fn round_trip(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let Some(v) = value_or_long(o, r, i) else { return };
	let Some(dec) = &o.dec else { return };
	let want = reference(o, &v).expect("generated values are encodable");
	let pre = r.below(9);
	let prefix = r.bytes(pre);
	let slack = r.below(5);
	let fill = r.u64() as u8;
	let e = encode_at(o, &v, &prefix, pre + want.len() + slack + 64, fill);
	if !matches!(e.out.res, Ok(Ok(()))) {
		m.violation(&format!("encode {}", o.name), || format!("`{}`: encoding {} gave {:?}", o.name, show(&v), e.out.res));
		return;
	}
	let bytes = &e.buf[e.start..e.end];
	// The source has the encoding at an offset and other bytes behind it.
	let mut src = prefix.clone();
	src.extend_from_slice(bytes);
	let tail = r.below(9);
	src.extend_from_slice(&r.bytes(tail));
	let mut input = Input::new(&src);
	input.read(pre).expect("prefix is there");
	let d = dec(&mut input);
	m.eval(key(o, bytes));
	m.max("max encoding in bytes", bytes.len() as u64);
	match d.res {
		Ok(Ok(ref got)) if o.schema.canon(got.clone()) == o.schema.canon(v.clone()) => {}
		ref x => { m.violation(&format!("value {}", o.name), || format!("`{}`: {} was encoded as {} and decoded as {}", o.name, show(&v), hex(bytes), { let mut s = format!("{x:?}"); trunc(&mut s, 900); s })); return }
	}
	if input.position() != pre + bytes.len() {
		m.violation(&format!("consumed {}", o.name), || format!("`{}`: {} was encoded in {} bytes but decoding consumed {}", o.name, show(&v), bytes.len(), input.position() - pre));
	}
	if m.want_sample() && bytes.len() > 2 { m.sample(|| format!("`{}` {} -> {}", o.name, show(&v), hex(bytes))) }
	if let Some(slot) = &o.slot {
		if r.chance(1, 4) {
			let s = slot(&v, bytes.len() + r.below(3));
			m.count("round trips through a slot", 1);
			let ok = matches!(s.write, Ok(Ok(()))) && matches!(s.read, Some(Ok(Ok(ref g))) if o.schema.canon(g.clone()) == o.schema.canon(v.clone()));
			if !ok { m.violation(&format!("slot {}", o.name), || format!("`{}`: {} through a slot of {} bytes: write {:?}, content {}, read {:?}", o.name, show(&v), s.cap, s.write, hex(&s.bytes), s.read)) }
		}
	}
}

/// C01: values of different types chained in one stream.
pub fn chains(cfg: &Cfg, n: usize) -> Mon {
	let ops: Vec<Ops> = crate::all(cfg.only.clone()).into_iter().filter(|o| o.dec.is_some() && o.schema.inhabited()).collect();
	let jobs: Vec<usize> = (0..n).collect();
	parallel(&jobs, |&j, m| {
		let mut r = Rng::sub(cfg.seed, &format!("chain {j}"));
		vcore::crumb!("C01: chain {j}, seed {}", cfg.seed);
		let res = catch(|| {
			let k = r.range(2, 14);
			let items: Vec<(usize, Val)> = (0..k).map(|_| { let i = r.below(ops.len()); (i, ops[i].schema.gen(&mut r)) }).collect();
			let total: usize = items.iter().map(|(i, v)| reference(&ops[*i], v).unwrap().len()).sum();
			let mut buf = vec![0xA5; total];
			let mut s = Output::new(&mut buf);
			for (i, v) in &items {
				let e = (ops[*i].enc)(v, &mut s);
				if !matches!(e.res, Ok(Ok(()))) { m.violation("chain encode", || format!("chain {j}: `{}` {} gave {:?} at {} of {total}", ops[*i].name, show(v), e.res, s.position())); return }
			}
			let end = s.position();
			if end != total { m.violation("chain length", || format!("chain {j} of {:?}: {end} bytes instead of {total}", items.iter().map(|(i, _)| &ops[*i].name).collect::<Vec<_>>())) }
			let mut input = Input::new(&buf);
			for (n, (i, v)) in items.iter().enumerate() {
				let o = &ops[*i];
				let d = (o.dec.as_ref().unwrap())(&mut input);
				match d.res {
					Ok(Ok(g)) if o.schema.canon(g.clone()) == o.schema.canon(v.clone()) => {}
					x => { m.violation("chain decode", || format!("chain {j} of {:?}: item {n} (`{}`, {}) was decoded as {x:?} at {}", items.iter().map(|(i, _)| &ops[*i].name).collect::<Vec<_>>(), o.name, show(v), input.position())); return }
				}
			}
			if input.remaining() != 0 { m.violation("chain rest", || format!("chain {j}: {} bytes left over", input.remaining())) }
			m.eval(Some(hash_bytes(&buf)));
			m.count("chained values", k as u64);
			if j == 3 { m.sample(|| format!("chain {:?} in {total} bytes", items.iter().map(|(i, _)| &ops[*i].name).collect::<Vec<_>>())) }
		});
		if let Err(p) = res { m.violation("chain panic", || format!("unexpected panic in chain {j} (seed {}): {p}", cfg.seed)) }
	})
}

/// C02: bytes against the reference encoder.
pub fn layout(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let Some(v) = value_or_long(o, r, i) else { return };
	let want = reference(o, &v).expect("generated values are encodable");
	let pre = if r.chance(1, 2) { 0 } else { r.below(17) };
	let prefix = r.bytes(pre);
	let fill = r.u64() as u8;
	// Room to spare, so that a longer encoding is seen as such.
	let e = encode_at(o, &v, &prefix, pre + want.len() + 48, fill);
	m.eval(key(o, &want));
	if o.dec.is_none() { m.count("encodings of borrowed or unsized forms", 1) }
	m.max("max encoding in bytes", want.len() as u64);
	let bad = |what: &str| format!("`{}`: {what}: value {}, expected bytes {}, got {} ({:?})", o.name, show(&v), hex(&want), hex(&e.buf[e.start..e.end]), e.out.res);
	match e.out.res {
		Ok(Ok(())) => {
			if !o.schema.same_bytes(&e.buf[e.start..e.end], &want) { m.violation(&format!("bytes {}", o.name), || bad("wrong bytes")) }
			else if e.buf[..pre] != prefix[..] { m.violation(&format!("before {}", o.name), || bad("earlier output changed")) }
		}
		_ => m.violation(&format!("refused {}", o.name), || bad("encodable value refused")),
	}
	if !e.out.unchanged { m.violation(&format!("changed {}", o.name), || bad("the value was changed by encoding")) }
	if m.want_sample() && want.len() > 2 { m.sample(|| format!("`{}` {} -> {}", o.name, show(&v), hex(&want))) }
}

/// Adversarial sources for a schema.
pub fn hostile(o: &Ops, r: &mut Rng) -> Vec<u8> {
	let s = &o.schema;
	let mut b = Vec::new();
	let valid = |r: &mut Rng| -> Vec<u8> { let mut b = Vec::new(); if s.inhabited() { let v = s.gen(r); let _ = s.enc(&v, &mut b); } b };
	match r.below(12) {
		0 => { let n = r.below(24); b = r.bytes(n) }
		1 => { let n = r.below(300); b = r.bytes(n) }
		2 => { let n = r.below(40); let c = *r.pick(&[0u8, 1, 2, 0x7F, 0x80, 0xC0, 0xFF]); b = vec![c; n] }
		3 => { // few distinct small bytes: plausible counts and signs
			let n = r.below(64);
			b = (0..n).map(|_| *r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4, 6, 0x41, 0x80, 0xFF])).collect();
		}
		4..=8 => { // a valid encoding with some damage
			b = valid(r);
			for _ in 0..r.range(1, 3) {
				if b.is_empty() { break }
				let i = if r.chance(1, 2) { r.below(b.len().min(6)) } else { r.below(b.len()) };
				match r.below(5) {
					0 => b[i] ^= 1 << r.below(8),
					1 => b[i] = r.u64() as u8,
					2 => { b.insert(i, r.u64() as u8) }
					3 => { b.remove(i); }
					_ => b[i] = *r.pick(&[0u8, 1, 2, 0x7F, 0x80, 0xD8, 0xDE, 0xED, 0xF5, 0xFF]),
				}
			}
		}
		9 => { b = valid(r); let n = r.below(b.len() + 1); b.truncate(n) }
		10 => { b = valid(r); let n = r.below(30); b.extend(r.bytes(n)) }
		_ => { // several encodings spliced
			b = valid(r);
			let c = valid(r);
			let i = r.below(b.len() + 1);
			let j = r.below(c.len() + 1);
			b.truncate(i);
			b.extend_from_slice(&c[j..]);
		}
	}
	b
}

/// C03 (and the consumption part of C04): one source against the reference decoder.
pub fn judge_decode(o: &Ops, src: &[u8], pre: usize, m: &mut Mon) {
	let Some(dec) = &o.dec else { return };
	let mut p = pre;
	let want = o.schema.dec(src, &mut p, &mut vcore::schema::Need::default());
	let mut input = Input::new(src);
	if input.read(pre).is_err() { m.violation("skip", || format!("reading {pre} of {} bytes failed", src.len())); return }
	let d = dec(&mut input);
	let pos = input.position();
	let n = &o.name;
	m.eval(key(o, &src[pre..]));
	if pos > src.len() { m.violation(&format!("past end {n}"), || format!("`{n}`: position {pos} past the end of {}", hex(src))) }
	let got = |x: &Result<Result<Val, E>, String>| { let mut s = format!("{x:?}"); trunc(&mut s, 900); s };
	match want {
		Ok(v) => {
			m.count("sources the model accepts", 1);
			match d.res {
				Ok(Ok(ref g)) if o.schema.canon(g.clone()) == v => {
					if pos != p { m.violation(&format!("consumed {n}"), || format!("`{n}`: decoding {} consumed {} bytes instead of {}", hex(&src[pre..]), pos - pre, p - pre)) }
				}
				ref x => m.violation(&format!("value {n}"), || format!("`{n}`: {} should decode as {} but gave {}", hex(&src[pre..]), show(&v), got(x))),
			}
		}
		Err(Stop::Err(e)) => {
			m.count("sources the model refuses", 1);
			match d.res {
				Ok(Err(ref g)) if *g == e => { if m.want_sample() { m.sample(|| format!("`{n}` {} -> {e:?}", hex(&src[pre..]))) } }
				ref x => m.violation(&format!("error {n}"), || format!("`{n}`: {} should be refused with {e:?} but gave {}", hex(&src[pre..]), got(x))),
			}
		}
		Err(Stop::Trunc) => {
			m.count("sources that end early", 1);
			if let Ok(Ok(_)) = d.res { m.violation(&format!("truncated {n}"), || format!("`{n}`: the incomplete source {} decoded as {}", hex(&src[pre..]), got(&d.res))) }
		}
		Err(Stop::TruncOr(e)) => {
			m.count("sources that end early", 1);
			match d.res {
				Err(_) => {}
				Ok(Err(ref g)) if *g == e => {}
				ref x => m.violation(&format!("truncated {n}"), || format!("`{n}`: the incomplete source {} gave {} rather than a panic or {e:?}", hex(&src[pre..]), got(x))),
			}
		}
		Err(Stop::DurOverflow) => match d.res {
			Err(ref p) if (p.contains("Duration") || p.contains("u64::MAX")) => m.finding("duration-overflow", || format!("decoding `{n}` from {} panics: {p}", hex(&src[pre..]))),
			// A proper refusal would be fine, too.
			Ok(Err(_)) => {}
			ref x => m.violation(&format!("duration {n}"), || format!("`{n}`: the unrepresentable duration in {} gave {}", hex(&src[pre..]), got(x))),
		},
		Err(Stop::Never) => if let Ok(Ok(_)) = d.res { m.violation(&format!("never {n}"), || format!("`{n}`: a value of an uninhabited type came out of {}", hex(src))) },
	}
}

/// A long encoding, with damage far from its begin, or none.
fn hostile_long(o: &Ops, r: &mut Rng, i: usize) -> Option<Vec<u8>> {
	let v = o.schema.gen_long(r, LONG[i / 16 % 16])?;
	let mut b = Vec::new();
	o.schema.enc(&v, &mut b).ok()?;
	let n = b.len();
	for _ in 0..r.below(3) {
		let i = match r.below(4) { 0 => n - 1 - r.below(n.min(5)), 1 => (r.below(n) & !0xF).max(1) - r.below(2), _ => r.below(n) };
		b[i] = *r.pick(&[0u8, 1, 2, 0x7F, 0x80, 0xC3, 0xD8, 0xED, 0xF0, 0xFF, 0xFF]);
	}
	if r.chance(1, 8) { let k = r.below(n.min(9)); b.truncate(n - k) }
	Some(b)
}

pub fn decode_hostile(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let long = if i % 16 == 9 && !cfg!(miri) && o.schema.inhabited() { hostile_long(o, r, i) } else { None };
	if long.is_some() { m.count("long sources", 1) }
	let b = long.unwrap_or_else(|| hostile(o, r));
	let pre = r.below(4);
	let mut src = r.bytes(pre);
	src.extend_from_slice(&b);
	judge_decode(o, &src, pre, m);
}

/// C04: bound, tightness and slots.
pub fn max_size(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let Some(max) = o.max else { return };
	let n = &o.name;
	if i == 0 {
		m.count("types with a maximum size", 1);
		match o.schema.max() {
			Some(w) if w == max => {}
			w => m.violation(&format!("constant {n}"), || format!("`{n}`: MAX_ENCODED_SIZE is {max}, by the data model it is {w:?}")),
		}
		match catch(o.slot_cap) {
			Ok(Some(c)) if c != max => m.violation(&format!("slot {n}"), || format!("Slot::<{n}>::new() has capacity {c} instead of {max}")),
			Ok(_) => {}
			Err(p) => m.violation(&format!("slot {n}"), || format!("Slot::<{n}>::new() panicked: {p}")),
		}
	}
	if o.schema.inhabited() {
		let big = i % 3 == 0;
		let v = if big { match o.schema.gen_max(r) { Some(v) => v, None => o.schema.gen(r) } } else { o.schema.gen(r) };
		let want = reference(o, &v).expect("generated values are encodable");
		// More room than advertised, so that longer encodings are seen.
		let e = encode_at(o, &v, &[], max + want.len() + 64, 0);
		m.eval(key(o, &want));
		match e.out.res {
			Ok(Ok(())) => {
				if e.end > max { m.violation(&format!("exceeds {n}"), || format!("`{n}`: {} was encoded in {} bytes, more than the advertised {max}", show(&v), e.end)) }
				if e.end == max { m.count("encodings of exactly the maximum size", 1) }
				if big && o.schema.gen_max(&mut r.clone()).is_some() && e.end != max { m.violation(&format!("loose {n}"), || format!("`{n}`: the largest encoding has {} bytes instead of the advertised {max}", e.end)) }
				if m.want_sample() && max > 2 && e.end == max { m.sample(|| format!("`{n}`: {} in exactly {max} bytes", show(&v))) }
			}
			ref x => m.violation(&format!("encode {n}"), || format!("`{n}`: {} gave {x:?}", show(&v))),
		}
		if let Some(slot) = &o.slot {
			let s = slot(&v, max);
			m.count("slots filled", 1);
			if !matches!(s.write, Ok(Ok(()))) { m.violation(&format!("slot write {n}"), || format!("a slot of the advertised {max} bytes cannot hold {} of `{n}`: {:?}", show(&v), s.write)) }
			else if s.bytes != e.buf[..e.end] && !o.schema.has_unordered() { m.violation(&format!("slot bytes {n}"), || format!("`{n}`: a slot holds {} for {}", hex(&s.bytes), show(&v))) }
		} else {
			// Encode-only forms: a buffer of exactly that size.
			let e = encode_at(o, &v, &[], max, 0);
			if !matches!(e.out.res, Ok(Ok(()))) { m.violation(&format!("buffer {n}"), || format!("a buffer of the advertised {max} bytes cannot hold {} of `{n}`: {:?}", show(&v), e.out.res)) }
		}
	}
	if let Some(dec) = &o.dec {
		let mut b = hostile(o, r);
		let k = r.below(max.min(400) + 8);
		b.extend(r.bytes(k));
		let mut input = Input::new(&b);
		let d = dec(&mut input);
		m.count("consumptions measured", 1);
		if let Ok(Ok(_)) = d.res {
			if input.position() > max { m.violation(&format!("consumes {n}"), || format!("`{n}`: decoding {} consumed {} bytes, more than the advertised {max}", hex(&b), input.position())) }
		}
	}
}

const CANARY: u8 = 0xC7;

/// How many bytes lie before an encoding in its stream.
fn before(r: &mut Rng) -> usize {
	if !cfg!(miri) && r.chance(1, 48) { return *r.pick(&[255usize, 256, 4096, 32767, 65535, 65536, 70000, 131072]) - r.below(4) }
	if r.chance(1, 2) { 0 } else { r.below(6) }
}

/// C07: every buffer that is too small (all sizes if short, some otherwise).
pub fn too_small(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let Some(v) = value_or_long(o, r, i) else { return };
	let want = reference(o, &v).expect("generated values are encodable");
	let n = &o.name;
	let mut caps: Vec<usize> = if cfg!(miri) && want.len() > 2 { vec![want.len() - 1, r.below(want.len())] } else if want.len() <= 40 { (0..want.len()).collect() } else {
		let mut c = vec![0, 1, 2, 3, want.len() - 1, want.len() - 2, want.len() / 2];
		for _ in 0..if want.len() > 4000 { 3 } else { 12 } { c.push(r.below(want.len())) }
		c
	};
	caps.push(want.len());
	for cap in caps {
		const PAD: usize = 24;
		let pre = before(r);
		let mut buf = vec![CANARY; PAD + pre + cap + PAD];
		let (out, end) = {
			let mut s = Output::new(&mut buf[PAD..PAD + pre + cap]);
			s.write(&vec![0x11; pre]).expect("prefix fits");
			let out = (o.enc)(&v, &mut s);
			let end = s.position();
			if s.capacity() != pre + cap || end > pre + cap { m.violation(&format!("accounting {n}"), || format!("`{n}`: position {end}, capacity {} in a buffer of {}", s.capacity(), pre + cap)) }
			(out, end)
		};
		m.eval(key(o, &want).map(|k| k ^ cap as u64));
		let bad = |what: &str| format!("`{n}`: {what}: {} ({} bytes) into {cap} bytes gave {:?}, position {end}, buffer {}", show(&v), want.len(), out.res, hex(&buf));
		if buf[..PAD].iter().chain(&buf[PAD + pre + cap..]).any(|b| *b != CANARY) { m.violation(&format!("outside {n}"), || bad("bytes outside the buffer were changed")) }
		if buf[PAD..PAD + pre].iter().any(|b| *b != 0x11) { m.violation(&format!("before {n}"), || bad("earlier output was changed")) }
		if cap == want.len() {
			m.count("exactly fitting buffers", 1);
			if !matches!(out.res, Ok(Ok(()))) { m.violation(&format!("fits {n}"), || bad("an exactly fitting buffer was refused")) }
			continue;
		}
		match out.res {
			Ok(Ok(())) => m.violation(&format!("success {n}"), || bad("reported success")),
			Ok(Err(_)) => m.count("refused with an error", 1),
			Err(_) => m.count("refused by a panic", 1),
		}
		if end >= pre && end <= pre + cap && !o.schema.has_unordered() && buf[PAD + pre..PAD + end] != want[..end - pre] {
			m.violation(&format!("content {n}"), || bad("the accepted part is not a prefix of the encoding"));
		}
		if !out.unchanged { m.violation(&format!("changed {n}"), || bad("the value was changed")) }
		if m.want_sample() && cap > 3 { m.sample(|| format!("`{n}` of {} bytes into {cap}: {:?} at {end}", want.len(), out.res)) }
	}
}

/// C08: every strict prefix (all if short, some otherwise).
pub fn truncated(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let Some(v) = value_or_long(o, r, i) else { return };
	let Some(dec) = &o.dec else { return };
	let full = reference(o, &v).expect("generated values are encodable");
	let n = &o.name;
	let cuts: Vec<usize> = if cfg!(miri) && full.len() > 2 { vec![full.len() - 1, r.below(full.len())] } else if full.len() <= 64 { (0..full.len()).collect() } else {
		let mut c: Vec<usize> = vec![0, 1, 2, 3, full.len() - 1, full.len() - 2, full.len() / 2];
		for _ in 0..if full.len() > 4000 { 4 } else { 16 } { c.push(r.below(full.len())) }
		c
	};
	// The prefix is followed by live memory in one allocation, so that reading on would be possible.
	for cut in cuts {
		let pre = before(r);
		let mut mem = r.bytes(pre);
		mem.extend_from_slice(&full);
		let src = &mem[..pre + cut];
		let mut input = Input::new(src);
		input.read(pre).expect("prefix is there");
		let d = dec(&mut input);
		m.eval(key(o, &full[..cut]).or(Some(0)).map(|k| k ^ hash_bytes(n.as_bytes())));
		match d.res {
			Ok(Ok(ref g)) => m.violation(&format!("success {n}"), || format!("`{n}`: {cut} of the {} bytes {} of {} decoded as {}", full.len(), hex(&full), show(&v), show(g))),
			Ok(Err(_)) => m.count("refused with an error", 1),
			Err(_) => m.count("refused by a panic", 1),
		}
		if input.position() > src.len() || input.remaining() != src.len() - input.position() { m.violation(&format!("position {n}"), || format!("`{n}`: position {} in {} bytes", input.position(), src.len())) }
		if m.want_sample() && cut > 2 { m.sample(|| format!("`{n}` {} cut at {cut}: {:?}", hex(&full), d.res)) }
	}
}

/// C09: unencodable values, and the limits.
pub fn unencodable(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	if !o.schema.inhabited() { return }
	let n = &o.name;
	let bad = o.schema.can_be_bad() && i % 4 != 0 && (i < 24 || i % 16 == 1 || !o.schema.bad_if_long());
	let v = if bad { o.schema.gen_bad(r) } else { match value_or_long(o, r, if i % 8 == 4 { 16 * (i / 8) + 9 } else { 0 }) { Some(v) => v, None => return } };
	let mut b = Vec::new();
	let want = o.schema.enc(&v, &mut b);
	let e = encode_at(o, &v, &[], b.len() + 64, 0);
	m.eval(Some(hash_bytes(n.as_bytes()) ^ hash_bytes(&b) ^ vcore::hash_fmt!("{want:?}")));
	match (&want, &e.out.res) {
		(Ok(()), Ok(Ok(()))) => m.count("encodable values accepted", 1),
		(Err(w), Ok(Err(g))) if w == g => {
			m.count("unencodable values refused", 1);
			m.count(&format!("cause: {}", leaf_name(w)), 1);
			if m.want_sample() { m.sample(|| format!("`{n}`: {w:?}")) }
		}
		_ => m.violation(&format!("outcome {n}"), || format!("`{n}`: encoding {} should give {want:?} but gave {:?}", show(&v), e.out.res)),
	}
	if !e.out.unchanged { m.violation(&format!("changed {n}"), || format!("`{n}`: {} was changed by encoding", show(&v))) }
}

pub fn leaf_name(e: &E) -> String { let s = format!("{:?}", e.leaf()); s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").into() }

/// C22: what errors say about themselves.
pub fn errors(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let n = &o.name;
	if o.schema.can_be_bad() && i % 3 == 0 && (i < 24 || i % 16 == 1 || !o.schema.bad_if_long()) {
		let v = o.schema.gen_bad(r);
		let mut b = Vec::new();
		let Err(w) = o.schema.enc(&v, &mut b) else { return };
		let mut buf = vec![0; b.len() + 64];
		if let Some(x) = (o.enc_rep)(&v, &mut Output::new(&mut buf)) { judge_report(n, &w, x, m) }
	} else if let Some(rep) = &o.dec_rep {
		for _ in 0..6 {
			let long = if i % 16 == 9 && !cfg!(miri) && o.schema.inhabited() { hostile_long(o, r, i) } else { None };
			let b = long.unwrap_or_else(|| hostile(o, r));
			let Err(Stop::Err(w)) = o.schema.dec(&b, &mut 0, &mut vcore::schema::Need::default()) else { continue };
			if let Some(x) = rep(&mut Input::new(&b)) { judge_report(n, &w, x, m) }
			break;
		}
	}
}

/// Words that a description of the cause must contain, in this order: every number the error carries.
fn facts(e: &E) -> Vec<Vec<String>> {
	let num = |v: u128| vec![v.to_string(), format!("{v:#x}"), format!("{v:#X}"), format!("{v:#02X}"), format!("{v:04X}"), format!("{v:X}")];
	let int = |v: i128| { let mut x = vec![v.to_string()]; if v >= 0 { x.extend(num(v as u128)) } x };
	match e {
		E::USize(v) => vec![num(*v)],
		E::ISize(v) => vec![int(*v)],
		E::Cap { cap, len } => vec![num(*cap as u128), num(*len as u128)],
		E::Utf8 { value, index } => vec![num(u128::from(*value)), num(*index as u128)],
		E::CStr(i) => vec![num(*i as u128)],
		E::Char(c) => vec![num(u128::from(*c))],
		E::Time(t) => vec![int(i128::from(*t))],
		E::Unassigned(v, w) => { let mut x = int(*v); x.extend(num(*v as u128 & vcore::schema::mask(*w))); if *v == 0 || *v == 1 { x.push("false".into()); x.push("true".into()) } vec![x] }
		E::GUnassigned(v) => vec![num(*v)],
		E::Item(i, e) => { let mut f = vec![num(*i as u128)]; f.extend(facts(e)); f }
		E::Len(e) | E::Cell(e) | E::Discr(e) | E::Field(e) | E::Gen(e) => facts(e),
		_ => vec![],
	}
}

/// The words of a text; a sign belongs to the number behind it.
pub fn split(text: &str) -> Vec<String> {
	let mut out: Vec<String> = Vec::new();
	let mut word = String::new();
	let mut last = ' ';
	for c in text.chars() {
		if c.is_alphanumeric() { if word.is_empty() && last == '-' { word.push('-') } word.push(c.to_ascii_lowercase()); last = c; continue }
		if !word.is_empty() { out.push(std::mem::take(&mut word)) }
		// As in `utf-8`.
		last = if c == '-' && last.is_alphanumeric() { ' ' } else { c };
	}
	if !word.is_empty() { out.push(word) }
	out
}

/// Whether the text has one word of each list, in this order.
pub fn in_order(text: &str, facts: &[Vec<String>]) -> bool {
	let words = split(text);
	let mut at = 0;
	facts.iter().all(|f| match words[at..].iter().position(|w| f.iter().any(|x| x.eq_ignore_ascii_case(w))) { Some(i) => { at += i + 1; true } None => false })
}

/// What sets one kind of cause apart from others, in any wording.
fn kind(e: &E) -> &'static [&'static str] {
	match e {
		E::USize(_) => &["unsigned", "65535"], E::ISize(_) => &["signed", "-32768", "32767"], E::Utf8 { .. } => &["utf"], E::CStr(_) => &["null"], E::NonZero => &["zero"], E::Char(_) => &["code"],
		E::Time(_) => &["timestamp"], E::Unassigned(..) | E::GUnassigned(_) => &["discriminant"], E::Discr(_) => &["discriminant"], E::Len(_) => &["length"], E::Item(..) => &["item"],
		_ => &[],
	}
}

fn says(text: &str, e: &E) -> bool {
	let words = split(text);
	let mut k: Vec<&str> = kind(e).to_vec();
	let mut c = e;
	while let E::Item(_, i) | E::Len(i) | E::Cell(i) | E::Discr(i) | E::Field(i) | E::Gen(i) = c { c = i; k.extend(kind(c)) }
	in_order(text, &facts(e)) && k.iter().all(|k| words.iter().any(|w| w == k))
}

pub fn judge_report(n: &str, want: &E, got: Result<(E, vtyp::err::Report), String>, m: &mut Mon) {
	let (e, rep) = match got { Ok(x) => x, Err(p) => { m.violation(&format!("panic {n}"), || format!("`{n}`: describing or converting {want:?} panicked: {p}")); return } };
	m.eval(Some(vcore::hash_fmt!("{n} {e:?}")));
	m.count(&format!("cause: {}", leaf_name(&e)), 1);
	if e != *want { m.violation(&format!("fields {n}"), || format!("`{n}`: expected {want:?}, got {e:?}")) }
	if let Some(d) = &rep.display {
		m.count("descriptions", 1);
		if d.is_empty() || !says(d, &e) { m.violation(&format!("display {n}"), || format!("`{n}`: {e:?} describes itself as {d:?}")) }
		if rep.debug.is_empty() { m.violation(&format!("debug {n}"), || format!("`{n}`: {e:?} has no debug output")) }
	}
	if let Some(s) = &rep.sources {
		m.count("source chains", 1);
		m.max("max links in a source chain", s.len() as u64);
		// Unassigned discriminants are leaves of their own.
		let own = matches!(e.leaf(), E::Unassigned(..) | E::GUnassigned(_));
		if s.len() > 32 { m.violation(&format!("cycle {n}"), || format!("`{n}`: the chain of sources of {e:?} does not end")) }
		else if !own && rep.leaf.as_ref() != Some(e.leaf()) { m.violation(&format!("chain {n}"), || format!("`{n}`: the chain of sources of {e:?} ends with {:?} ({s:?})", rep.leaf)) }
		// Each link states the cause, too.
		for d in s { if !says(d, e.leaf()) { m.violation(&format!("link {n}"), || format!("`{n}`: a source of {e:?} describes itself as {d:?}")) } }
	}
	if let Some(g) = &rep.generic {
		m.count("conversions to the generic error", 1);
		let w = vcore::schema::gen(e.clone());
		if *g != w { m.violation(&format!("generic {n}"), || format!("`{n}`: {e:?} was converted to {g:?} instead of {w:?}")) }
		if let Some(d) = &rep.generic_display { if !says(d, &w) { m.violation(&format!("generic display {n}"), || format!("`{n}`: {w:?} describes itself as {d:?}")) } }
	}
	if m.want_sample() { m.sample(|| format!("`{n}`: {:?} / {:?} / generic {:?}", rep.display, rep.sources, rep.generic)) }
}

/// C23: the same value under different surroundings.
pub fn surroundings(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let n = &o.name;
	let bad = o.schema.can_be_bad() && i % 5 == 4 && (i < 20 || !o.schema.bad_if_long());
	if o.schema.inhabited() {
		let v = if bad { o.schema.gen_bad(r) } else { match value_or_long(o, r, if i % 16 == 9 { i } else { 0 }) { Some(v) => v, None => return } };
		let mut want = Vec::new();
		let wr = o.schema.enc(&v, &mut want);
		let mut first: Option<Vec<u8>> = None;
		for k in 0..4 {
			let far = i % 8 == 3 && k == 2 && !cfg!(miri);
			let pre = if far { *r.pick(&[255, 256, 4095, 32768, 65534, 65535, 65536, 65537, 70_000, 131_072]) } else { [0, r.below(16), r.below(70), 1][k] };
			let prefix = r.bytes(pre);
			let fill = r.u64() as u8;
			let off = r.below(16);
			let total = pre + want.len() + 40;
			let mut mem = vec![0; off + total];
			if k % 2 == 0 { r.fill(&mut mem) } else { mem.fill(fill) }
			let before = mem.clone();
			let (out, start, end) = {
				let mut s = Output::new(&mut mem[off..]);
				s.write(&prefix).expect("prefix fits");
				if k == 3 {
					// A failure beforehand leaves no trace.
					let _ = catch(|| s.write(&vec![1; total + 1]));
				}
				let a = s.position();
				let out = (o.enc)(&v, &mut s);
				(out, a, s.position())
			};
			m.eval(key(o, &want).map(|x| x ^ (pre as u64) << 32 ^ off as u64));
			let d = |what: &str| format!("`{n}`: {what}: {} at position {pre}, alignment {off}: {:?}, bytes {}", show(&v), out.res, hex(&mem[off + start..off + end]));
			if out.res != Ok(wr.clone()) { m.violation(&format!("result {n}"), || d("result differs")) }
			if start != pre { m.violation(&format!("start {n}"), || d("position is off")) }
			if mem[..off] != before[..off] || mem[off..off + pre] != prefix[..] { m.violation(&format!("before {n}"), || d("earlier bytes changed")) }
			if mem[off + end..] != before[off + end..] { m.violation(&format!("behind {n}"), || d("bytes behind the new position changed")) }
			if !out.unchanged { m.violation(&format!("changed {n}"), || d("the value changed")) }
			let bytes = mem[off + start..off + end].to_vec();
			match &first {
				Some(f) if *f != bytes && !o.schema.has_unordered() => m.violation(&format!("bytes {n}"), || format!("{}; elsewhere {}", d("bytes depend on the surroundings"), hex(f))),
				Some(_) => {}
				None => first = Some(bytes),
			}
		}
		m.count("encodings under varied surroundings", 4);
	}
	let Some(dec) = &o.dec else { return };
	let b = hostile(o, r);
	let mut p = 0;
	let ok = o.schema.dec(&b, &mut p, &mut vcore::schema::Need::default()).is_ok();
	let consumed = if ok { p } else { b.len() };
	let b = &b[..consumed];
	let mut first: Option<(Result<Result<Val, E>, ()>, usize)> = None;
	for k in 0..3 {
		let far = i % 8 == 5 && k == 1 && !cfg!(miri);
		let pre = if far { *r.pick(&[255, 256, 32768, 65535, 65536, 65537, 131_072]) } else { [0, r.below(40), 1][k] };
		let tail = [0, r.below(40), 3][k];
		let mut src = r.bytes(pre);
		src.extend_from_slice(b);
		// What follows is only irrelevant if the value is complete.
		if ok { src.extend(r.bytes(tail)) }
		let mut input = Input::new(&src);
		input.read(pre).expect("prefix is there");
		if k == 2 { let _ = input.read(src.len() + 1); }
		let copy = src.clone();
		let d = dec(&mut input);
		let x = (d.res.map(|r| r.map(|v| o.schema.canon(v))).map_err(|_| ()), input.position().wrapping_sub(pre));
		if copy != src { m.violation(&format!("source {n}"), || format!("`{n}`: the source was changed")) }
		match &first {
			Some(f) if *f != x => m.violation(&format!("decode {n}"), || format!("`{n}`: {} decoded as {f:?} but behind {pre} and before {tail} other bytes as {x:?}", hex(b))),
			Some(_) => {}
			None => first = Some(x),
		}
	}
	m.count("decodings under varied surroundings", 3);
	if m.want_sample() && b.len() > 3 { m.sample(|| format!("`{n}` from {} thrice: {:?}", hex(b), first)) }
}

/// Whether decoding may allocate at all.
pub fn may_allocate(s: &Schema, name: &str) -> bool {
	use Schema::*;
	fn has(s: &Schema) -> bool {
		match s {
			Seq(None, _) | Str(None) | CStr | Map(..) | Set(..) | Lazy(_) => true,
			NonZero(s) | Array(_, s) | Seq(_, s) | Opt(s) | Bound(s) | RefCell(s) => has(s),
			Res(a, b) => has(a) || has(b),
			Tuple(v) | Struct(v) => v.iter().any(has),
			Enum(_, v) => v.iter().any(|(_, f)| f.iter().any(has)),
			_ => false,
		}
	}
	has(s) || ["Box<", "Rc<", "Arc<"].iter().any(|w| name.contains(w))
}

/// C23: the same while other threads code values of the same type.
pub fn threads(o: &Ops, r: &mut Rng, m: &mut Mon, _i: usize) {
	if !o.schema.inhabited() { return }
	let n = &o.name;
	let rounds = 60;
	let sets: Vec<Vec<(Val, Vec<u8>)>> = (0..3).map(|_| (0..2).filter_map(|k| { let v = value(o, r, 9 + k)?; let b = reference(o, &v).ok()?; Some((v, b)) }).collect()).collect();
	let gate = std::sync::Barrier::new(sets.len());
	let bad: Vec<String> = std::thread::scope(|s| {
		let all: Vec<_> = sets.iter().map(|set| { let gate = &gate; s.spawn(move || {
			gate.wait();
			for _ in 0..rounds {
				for (v, want) in set {
					let e = encode_at(o, v, &[], want.len() + 8, 0);
					let got = &e.buf[e.start..e.end.min(e.buf.len())];
					if e.out.res != Ok(Ok(())) || !o.schema.has_unordered() && got != want { return Some(format!("encoding {} gave {:?} {}", show(v), e.out.res, hex(got))) }
					let Some(dec) = &o.dec else { continue };
					let mut i = Input::new(want);
					let d = dec(&mut i);
					match d.res { Ok(Ok(ref g)) if o.schema.canon(g.clone()) == o.schema.canon(v.clone()) && i.position() == want.len() => {} x => return Some(format!("decoding {} gave {x:?}", hex(want))) }
				}
			}
			None
		}) }).collect();
		all.into_iter().filter_map(|t| t.join().unwrap_or_else(|_| Some("a thread died".into()))).collect()
	});
	m.eval(sets[0].first().and_then(|x| key(o, &x.1)));
	m.count("codings next to other threads", (rounds * sets.iter().map(Vec::len).sum::<usize>()) as u64);
	for b in bad { m.violation(&format!("threads {n}"), || format!("`{n}`: while other threads code values of the same type, {b}")) }
}

/// Whether a sized slice of what allocates is within; dropping it is known to leak.
pub fn leaks_when_dropped(s: &Schema, name: &str) -> bool {
	use Schema::*;
	match s {
		Seq(Some(_), s) => may_allocate(s, name),
		NonZero(s) | Array(_, s) | Seq(None, s) | Opt(s) | Bound(s) | RefCell(s) | Set(s) => leaks_when_dropped(s, name),
		Res(a, b) | Map(a, b) => leaks_when_dropped(a, name) || leaks_when_dropped(b, name),
		Tuple(v) | Struct(v) => v.iter().any(|s| leaks_when_dropped(s, name)),
		Enum(_, v) => v.iter().any(|(_, f)| f.iter().any(|s| leaks_when_dropped(s, name))),
		_ => false,
	}
}

/// C16: that what a decoding obtained is released, however it ends.
pub fn released(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let Some(dec) = &o.dec else { return };
	let n = &o.name;
	let b = match i % 8 {
		3 if o.schema.inhabited() && !cfg!(miri) => hostile_long(o, r, 2 * i),
		5 => { let c = *r.pick(&[0u16, 1, 2, 40, 255, 256, 4000, 65535]); let x = r.below(400); let mut b = c.to_le_bytes().to_vec(); b.extend(r.bytes(x)); Some(b) }
		_ => None,
	}.unwrap_or_else(|| hostile(o, r));
	let once = || dec(&mut Input::new(&b));
	let d = once();
	m.eval(key(o, &b));
	m.max("max bytes obtained and released", d.alloc.bytes);
	let end = match &d.res { Ok(Ok(_)) => "values dropped", Ok(Err(_)) => "refusals watched for leaks", Err(_) => "aborted decodings watched for leaks" };
	if d.leak != 0 && leaks_when_dropped(&o.schema, n) { m.count("sized slices that leak when dropped", 1); return }
	// What is only initialised once is none the second time.
	if d.leak != 0 && once().leak != 0 && once().leak != 0 {
		m.violation(&format!("kept {n}"), || format!("`{n}`: decoding {} and dropping the outcome leaves {} bytes allocated; the outcome: {}", hex(&b), d.leak, { let mut s = format!("{:?}", d.res); trunc(&mut s, 300); s }));
		return;
	}
	m.count(end, 1);
	if !matches!(d.res, Ok(Ok(_))) && d.alloc.bytes > 0 { m.count("failures that had obtained memory", 1) }
}

/// C24: what coding obtains from the heap.
pub fn heap(o: &Ops, r: &mut Rng, m: &mut Mon, i: usize) {
	let n = &o.name;
	if o.schema.inhabited() {
		let bad = o.schema.can_be_bad() && i % 4 == 3 && (i < 20 || i % 32 == 3 || !o.schema.bad_if_long());
		let v = if bad { o.schema.gen_bad(r) } else { match value_or_long(o, r, i) { Some(v) => v, None => return } };
		let mut want = Vec::new();
		let ok = o.schema.enc(&v, &mut want).is_ok();
		let e = encode_at(o, &v, &[], want.len() + 64, 0);
		if let Ok(res) = &e.out.res {
			m.eval(key(o, &want));
			m.count(if ok { "encodings watched" } else { "refused encodings watched" }, 1);
			if e.out.alloc.calls != 0 { m.violation(&format!("encode {n}"), || format!("`{n}`: encoding {} ({res:?}) allocated {} times, {} bytes", show(&v), e.out.alloc.calls, e.out.alloc.bytes)) }
		}
	}
	let Some(dec) = &o.dec else { return };
	let stack = !may_allocate(&o.schema, n);
	let indirect = ["Box<", "Rc<", "Arc<", "LinkedList<"].iter().any(|w| n.contains(w));
	for k in 0..3 {
		// Counts far beyond what follows are the most telling.
		let b = if k == 1 && i % 16 == 9 && o.schema.inhabited() { let mut b = Vec::new(); if let Some(v) = value_or_long(o, r, i) { let _ = o.schema.enc(&v, &mut b); } b } else if k == 2 { let c = *r.pick(&[0u16, 1, 2, 40, 255, 256, 4000, 65535]); let x = r.below(90); let mut b = c.to_le_bytes().to_vec(); b.extend(r.bytes(x)); if r.chance(1, 3) { b.insert(0, 1) } b } else { hostile(o, r) };
		let mut need = vcore::schema::Need::default();
		let want = o.schema.dec(&b, &mut 0, &mut need);
		let mut input = Input::new(&b);
		let d = dec(&mut input);
		let a = d.alloc;
		let panicked = d.res.is_err();
		m.eval(key(o, &b));
		if stack {
			// Unwinding itself obtains memory, and so does its description.
			if !panicked { m.count("stack-only decodings watched", 1); if a.calls != 0 { m.violation(&format!("stack {n}"), || format!("`{n}`: decoding {} allocated {} times, {} bytes", hex(&b), a.calls, a.bytes)) } }
			else if a.bytes > 4096 { m.violation(&format!("stack {n}"), || format!("`{n}`: aborted decoding of {} obtained {} bytes", hex(&b), a.bytes)) }
			continue;
		}
		m.count("heap-backed decodings watched", 1);
		m.max("max bytes live in a decoding", a.peak as u64);
		let bound = 2 * need.bytes + if indirect { 160 * need.elems + 256 } else { 0 } + 512 + if panicked { 4096 } else { 0 };
		if a.peak as usize > bound { m.violation(&format!("heap {n}"), || format!("`{n}`: decoding {} (counts call for {need:?}) had {} bytes live, {} obtained; result {}", hex(&b), a.peak, a.bytes, { let mut s = format!("{:?}", d.res); trunc(&mut s, 300); s })) }
		if want.is_ok() && m.want_sample() && need.elems > 3 { m.sample(|| format!("`{n}` from {}: {need:?}, peak {} bytes", hex(&b), a.peak)) }
	}
}
