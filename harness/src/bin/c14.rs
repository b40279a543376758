//! C14: sized strings.
use oct::SizedStr;
use vcore::mon::{mine, Cfg, Mon};
use vcore::rng::hash_bytes;
use vh::strs::{made, malformed, run_jobs, sockets, want_text, Made};

// Made in constants.
const HELLO: SizedStr<8> = match SizedStr::new("héllo") { Ok(s) => s, Err(_) => panic!() };
const BYTES: SizedStr<4> = match SizedStr::from_utf8(b"\xF0\x9F\x98\x80") { Ok(s) => s, Err(_) => panic!() };

pub fn run(cfg: &Cfg) -> Mon {
	let mut m = run_jobs(cfg, "C14", cfg.n(250, 20_000), if cfg!(miri) { 12 } else { 40 });
	if !cfg!(miri) { sockets(&mut m); }
	if HELLO != "héllo" || BYTES != "😀" || HELLO.len() != 6 { m.violation("const", || format!("constants are {HELLO:?} and {BYTES:?}")) }
	// Every character into every capacity around its length; every lead with every second byte.
	let step = if cfg!(miri) { 9001 } else if cfg.thorough { 1 } else { 7 };
	for c in (0..0x11_0000u32).step_by(step).chain([0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x1_0000, 0x10_FFFF]).filter_map(char::from_u32) {
		if !mine(c as usize) { continue }
		let t = c.to_string();
		macro_rules! one { ($($n:literal)*) => { $(
			let (g, w) = (made(SizedStr::<$n>::try_from(c)), want_text(&t, $n));
			let h = [c].into_iter().collect::<SizedStr<$n>>();
			let hw = if t.len() <= $n { &t[..] } else { "" };
			if g != w || h.as_bytes() != hw.as_bytes() { m.violation(concat!("character ", $n), || format!("{c:?} as a SizedStr<{}>: {g:?} instead of {w:?}; collected: {:?} instead of {hw:?}", $n, h.as_bytes())) }
		)* } }
		one!(0 1 2 3 4 5);
		m.eval((c as u32 > 0).then(|| hash_bytes(t.as_bytes())));
		m.count("characters swept", 1);
	}
	if !mine(3) { return m }
	for a in if cfg!(miri) { 0xDFu8..=0xE1 } else { 0u8..=255 } {
		for b in if cfg!(miri) { 0x9Fu8..=0xA0 } else { 0u8..=255 } {
			for tail in [&[][..], &[0x80], &[0xBF, 0xBF], &[0x7F], &[0x80, 0xC0]] {
				let mut s = vec![b'x', a, b];
				s.extend(tail);
				let got = made(SizedStr::<5>::from_utf8(&s));
				let want = match malformed(&s) { Some(i) => Made::Bad { value: s[i], index: i }, None => Made::Text(String::from_utf8(s.clone()).unwrap()) };
				if got != want { m.violation("from_utf8 sweep", || format!("{s:02x?} gave {got:?} instead of {want:?}")) }
				m.count("byte sequences swept", 1);
				m.eval(Some(hash_bytes(&s)));
			}
		}
	}
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
