//! C03: arbitrary sources, some of them exhaustively.
use std::sync::atomic::{AtomicU64, Ordering};
use vcore::mon::{catch, parallel, Cfg, Mon};
use vcore::rng::Rng;
use vreg::{codec, Ops};

fn judge(o: &Ops, b: &[u8], m: &mut Mon) {
	if let Err(p) = catch(|| codec::judge_decode(o, b, 0, m)) { m.violation(&format!("panic {}", o.name), || format!("unexpected panic with `{}` and {}: {p}", o.name, vcore::mon::hex(b))) }
}

pub fn run(cfg: &Cfg) -> Mon {
	let mut m = codec::each(cfg, "C03", cfg.n(300, 12_000), codec::decode_hostile);
	let ops: Vec<Ops> = vreg::all(cfg.only.clone()).into_iter().filter(|o| o.dec.is_some()).collect();
	let swept = AtomicU64::new(0);

	// All sources of up to two bytes, alone and in front of others.
	m.merge(parallel(&ops, |o, m| {
		let mut r = Rng::sub(cfg.seed, &format!("C03 sweep {}", o.name));
		judge(o, &[], m);
		let tail = r.bytes(40);
		for a in 0..=255u8 {
			judge(o, &[a], m);
			let mut b = vec![a];
			b.extend_from_slice(&tail);
			judge(o, &b, m);
			b[1..].fill(0);
			judge(o, &b, m);
			// Every value at the other positions of a plausible source.
			let mut b = Vec::new();
			if o.schema.inhabited() { let _ = o.schema.enc(&o.schema.gen(&mut r), &mut b); }
			if !b.is_empty() { let i = r.below(b.len()); b[i] = a; judge(o, &b, m) }
		}
		let deep = o.size <= 64 && !o.schema.inflates() && (cfg.thorough || cfg.scale >= 1.0);
		let step = if deep { if cfg.thorough { 1 } else { 5 } } else { 97 };
		for x in (0..=65535u32).step_by(step) {
			// Small counts are all covered.
			let c = (x as u16).to_le_bytes();
			judge(o, &c, m);
		}
		for x in (0..=700u16).chain((0..=65535).rev().step_by(step * 16)) {
			let mut b = x.to_le_bytes().to_vec();
			b.extend_from_slice(&tail);
			judge(o, &b, m);
		}
		swept.fetch_add(1, Ordering::Relaxed);
	}));
	m.count("types swept", swept.load(Ordering::Relaxed));

	let get = |n: &str| ops.iter().find(|o| o.name == n);
	let step = if cfg.scale < 1.0 { 37 } else { 1 };
	// Every code point, and beyond.
	if let Some(o) = get("char") {
		let jobs: Vec<u32> = (0..0x112).collect();
		m.merge(parallel(&jobs, |&j, m| {
			for c in ((j << 12)..((j + 1) << 12)).step_by(step) { judge(o, &c.to_le_bytes(), m) }
			for k in 1..32 { judge(o, &((1u32 << k) | j).to_le_bytes(), m) }
			for c in 0xD7F0..0xE010u32 { if c % 0x112 == j { judge(o, &c.to_le_bytes(), m) } }
		}));
		m.count("code points swept", 0x112_000 / step as u64);
	}
	// UTF-8: all leads and seconds, boundary thirds and fourths.
	const EDGE: [u8; 12] = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xED, 0xFF];
	for name in ["String", "SizedStr<4>", "SizedStr<7>"] {
		let Some(o) = get(name) else { continue };
		let jobs: Vec<u8> = (0..=255).collect();
		m.merge(parallel(&jobs, |&a, m| {
			let full = cfg.thorough && name == "String";
			let put = |s: &[u8], m: &mut Mon| { let mut b = vec![s.len() as u8, 0]; b.extend_from_slice(s); judge(o, &b, m) };
			for x in (0..=255u8).step_by(step) {
				put(&[a, x], m);
				put(&[x, a], m);
				if full { for y in 0..=255 { put(&[a, x, y], m) } } else { for y in EDGE { put(&[a, x, y], m) } }
				if a >= 0xE0 { for y in EDGE { for z in if full { &EDGE[..] } else { &[0x7F, 0x80, 0xBF, 0xC0] } { put(&[a, x, y, *z], m) } } }
			}
		}));
		m.count("UTF-8 sweeps", 1);
	}
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
