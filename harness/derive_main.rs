//! C15: generated types against their reference descriptions.
mod types;
use oct::encode::{Encode, Output};
use vcore::mon::{catch, hex, Cfg, Mon};
use vcore::rng::Rng;
use vcore::schema::{Schema, Val};
use vreg::codec;
use vreg::vtyp::typ::Typ;

/// An enumeration's discriminant as the language has it.
pub trait Lang { const WIDTH: usize; fn lang(&self) -> i128; }

/// Compares the encoded discriminant of every variant with the language's.
pub fn lang<T: Typ + Encode + Lang>(n: &str, r: &mut Rng, m: &mut Mon) {
	let Schema::Enum(_, vs) = T::schema() else { panic!() };
	for (i, (d, f)) in vs.iter().enumerate() {
		if !f.iter().all(|s| s.inhabited()) { continue }
		let v = Val::Enum(i, f.iter().map(|s| s.r#gen(r)).collect());
		let t = T::from_val(&v);
		let l = t.lang();
		assert_eq!(l, *d, "{n}: the generator numbers variants otherwise than the language");
		let mut want = Vec::new();
		let _ = T::schema().enc(&v, &mut want);
		let mut buf = vec![0; want.len() + 64];
		let out = catch(|| { let mut o = Output::new(&mut buf); let ok = t.encode(&mut o).is_ok(); (ok, o.position()) });
		let got = (out.as_ref().is_ok_and(|o| o.0 && o.1 >= T::WIDTH)).then(|| {
			let mut b = [if buf[T::WIDTH - 1] & 0x80 != 0 && l < 0 { 0xFF } else { 0 }; 16];
			b[..T::WIDTH].copy_from_slice(&buf[..T::WIDTH]);
			i128::from_le_bytes(b)
		});
		m.eval(Some(vcore::hash_fmt!("{n} {i}")));
		m.count("variants whose discriminant was compared", 1);
		let fits = T::WIDTH != 2 || l <= 0xFFFF;
		if got != Some(l) && (fits && !matches!(out, Ok((false, _)))) { m.violation(&format!("discriminant {n}"), || format!("`{n}`: variant {i} has discriminant {l} but is encoded as {} ({out:?})", hex(&buf[..out.as_ref().map_or(0, |o| o.1).min(40)]))) }
	}
}

fn main() {
	if std::env::var("VP_SHARD").as_deref() == Ok("none") { return }
	let cfg = Cfg::get();
	vcore::mon::init();
	let ops = types::table();
	let mut m = Mon::new();
	m.merge(codec::each_in(&ops, &cfg, "C15 layout", cfg.n(60, 600), codec::layout));
	m.merge(codec::each_in(&ops, &cfg, "C15 trips", cfg.n(60, 600), codec::round_trip));
	m.merge(codec::each_in(&ops, &cfg, "C15 sources", cfg.n(400, 4000), codec::decode_hostile));
	m.merge(codec::each_in(&ops, &cfg, "C15 sizes", cfg.n(12, 100), codec::max_size));
	m.merge(codec::each_in(&ops, &cfg, "C15 values", cfg.n(40, 300), codec::unencodable));
	m.merge(codec::each_in(&ops, &cfg, "C15 errors", cfg.n(60, 600), codec::errors));
	m.merge(codec::each_in(&ops, &cfg, "C15 cuts", cfg.n(6, 40), codec::truncated));
	m.merge(codec::each_in(&ops, &cfg, "C15 room", cfg.n(4, 20), codec::too_small));
	types::langs(&mut Rng::sub(cfg.seed, "C15 lang"), &mut m);
	m.count("types that derive", ops.len() as u64);
	if !types::one_way() { m.violation("one way", || "types that only derive one trait do not agree".into()) }
	// Every discriminant of one octet, and around those of the variants.
	for o in &ops {
		let Schema::Enum(rep, vs) = &o.schema else { continue };
		let Some(w) = rep.max() else { continue };
		let mut ds: Vec<i128> = if cfg!(miri) { vec![0, 1] } else { (-3..300).collect() };
		for (d, _) in vs { for k in [-1, 0, 1, 0x100, -0x100, 0x1_0000, 1 << 31, 1 << 32, 1 << 63] { ds.push(d.wrapping_add(k)) } }
		for d in ds {
			let mut b = d.to_le_bytes()[..w].to_vec();
			b.extend([1u8; 40]);
			m.count("discriminants swept", 1);
			if let Err(p) = catch(|| codec::judge_decode(o, &b, 0, &mut m)) { m.violation(&format!("panic {}", o.name), || format!("unexpected panic with `{}`: {p}", o.name)) }
		}
	}
	m.finish()
}
