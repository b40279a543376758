//! C05: output streams.
use oct::encode::Output;
use std::borrow::Borrow;
use vcore::mon::{catch, hex, parallel, Cfg, Mon};
use vcore::rng::{hash_bytes, Rng};

const MARGIN: usize = 40;

struct Trace(Vec<String>);

fn history(r: &mut Rng, m: &mut Mon, steps: usize) -> Result<(), (String, String)> {
	let big = 70_000;
	let cap = match if cfg!(miri) { 2 } else { r.below(60) } { 50 => r.range(65_530, big), x => match x % 6 { 0 => 0, 1 => 1, 2 => r.range(2, 16), 3 => r.range(0, 300), 4 => 256, _ => r.range(0, 64) } };
	let off = r.below(9);
	// The buffer lies between canaries, at any alignment.
	let mut mem = r.bytes(MARGIN * 2 + off + cap);
	let before = mem.clone();
	let (a, b) = (MARGIN + off, MARGIN + off + cap);
	let mut want: Vec<u8> = Vec::new();
	let mut t = Trace(Vec::new());
	macro_rules! bad { ($c:expr, $($f:tt)*) => { return Err(($c.to_string(), format!("capacity {cap}: {}; writes: {}", format!($($f)*), t.0.join(", ")))) } }
	{
		let base = mem[a..b].as_ptr();
		let mut s = Output::new(&mut mem[a..b]);
		for _ in 0..steps {
			// A write to a clone of the model decides what should happen.
			let free = cap - want.len();
			let n = match r.below(12) { 0 => 0, 1 => free, 2 => free + 1, 3 => free + r.range(1, 70), 4 => 1, 5 => free.saturating_sub(1), 7 => r.range(0, free), _ => r.below(12) };
			let data = r.bytes(n);
			t.0.push(n.to_string());
			let fits = n <= free;
			match catch(|| s.write(&data)) {
				Ok(Ok(())) if fits => { want.extend_from_slice(&data); m.count("writes accepted", 1) }
				Ok(Err(e)) if !fits => {
					m.count("writes refused", 1);
					if (e.capacity, e.position, e.count) != (cap, want.len(), n) { bad!("error", "a write of {n} at {} was refused with {e:?}", want.len()) }
					let d = e.to_string();
					for v in [cap, want.len(), n] { if !d.contains(&v.to_string()) { bad!("description", "{d:?} does not state {v}") } }
				}
				x => bad!("write", "a write of {n} at {} gave {x:?}", want.len()),
			}
			if s.position() != want.len() { bad!("position", "position is {} after {} bytes", s.position(), want.len()) }
			if s.capacity() != cap { bad!("capacity", "capacity became {}", s.capacity()) }
			if s.remaining() != cap - want.len() { bad!("remaining", "remaining is {} after {} bytes", s.remaining(), want.len()) }
			if s.as_ptr() != base { bad!("as_ptr", "as_ptr moved") }
			if s.as_slice() != want { bad!("as_slice", "as_slice is {} instead of {}", hex(s.as_slice()), hex(&want)) }
			if AsRef::<[u8]>::as_ref(&s) != want { bad!("as_ref", "as_ref is {}", hex(s.as_ref())) }
			if Borrow::<[u8]>::borrow(&s) != want { bad!("borrow", "borrow is {}", hex(s.borrow())) }
			// Comparisons, with the same content, a prefix, and a changed one.
			let mut o = want.clone();
			match r.below(4) { 0 => { o.pop(); } 1 => o.push(0), 2 => if let Some(x) = o.last_mut() { *x ^= 1 }, _ => {} }
			let eq = o == want;
			if (s == *o.as_slice()) != eq || (s == o.as_slice()) != eq || (s == o.clone().as_mut_slice()) != eq { bad!("eq", "comparison of {} with {} is not {eq}", hex(&want), hex(&o)) }
			let mut m2 = vec![0u8; o.len() + r.below(3)];
			let mut s2 = Output::new(&mut m2);
			let _ = s2.write(&o);
			if (s == s2) != eq || (s2 == s) != eq { bad!("eq", "comparison of streams with {} and {} is not {eq}", hex(&want), hex(&o)) }
			m.count("comparisons", 5);
			m.eval((n > 0).then(|| hash_bytes(&[want.len() as u64, cap as u64, n as u64].map(u64::to_le_bytes).concat())));
		}
	}
	if mem[a..a + want.len()] != want[..] { bad!("content", "the buffer holds {} instead of {}", hex(&mem[a..a + want.len()]), hex(&want)) }
	if mem[a + want.len()..b] != before[a + want.len()..b] { bad!("unwritten", "bytes of the buffer behind the {} written ones changed", want.len()) }
	if mem[..a] != before[..a] || mem[b..] != before[b..] { bad!("canary", "bytes outside the buffer changed") }
	m.count("canaries checked", 1);
	if m.want_sample() { m.sample(|| format!("capacity {cap}, writes of {}", t.0.join(", "))) }
	Ok(())
}

pub fn run(cfg: &Cfg) -> Mon {
	let jobs: Vec<usize> = (0..cfg.n(1000, 40_000)).collect();
	let mut m = parallel(&jobs, |&j, m| {
		for i in 0..if cfg!(miri) { 4 } else { 20 } {
			let mut r = Rng::sub(cfg.seed, &format!("C05 {j} {i}"));
			vcore::crumb!("C05: history {j}/{i}, seed {}", cfg.seed);
			match catch(|| history(&mut r, m, 24)) {
				Ok(Ok(())) => {}
				Ok(Err((c, d))) => m.violation(&c, || d),
				Err(p) => m.violation("panic", || format!("history {j}/{i} (seed {}) panicked: {p}", cfg.seed)),
			}
		}
	});
	// Also usable in constants.
	const C: ([u8; 4], usize, usize, bool) = {
		let mut b = [9u8; 4];
		let (p, q, refused);
		{
			let mut s = Output::new(&mut b);
			assert!(s.write(&[1, 2, 3]).is_ok());
			refused = s.write(&[4, 5]).is_err();
			p = s.position();
			q = s.remaining();
		}
		(b, p, q, refused)
	};
	m.eval(Some(1));
	if C != ([1, 2, 3, 9], 3, 1, true) { m.violation("const", || format!("in a constant: {C:?}")) }
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
