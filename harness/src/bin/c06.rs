//! C06: input streams.
use oct::decode::Input;
use vcore::mon::{catch, hex, parallel, Cfg, Mon};
use vcore::rng::{hash_bytes, Rng};

fn history(r: &mut Rng, m: &mut Mon, steps: usize) -> Result<(), (String, String)> {
	let big = 70_000;
	let cap = match if cfg!(miri) { 2 } else { r.below(60) } { 50 => r.range(65_530, big), x => match x % 6 { 0 => 0, 1 => 1, 2 => r.range(2, 16), 3 => r.range(0, 300), 4 => 256, _ => r.range(0, 64) } };
	let off = r.below(9);
	// The source lies within other bytes, at any alignment.
	let mem = r.bytes(off + cap + 64);
	let src = &mem[off..off + cap];
	let mut pos = 0;
	let mut t: Vec<String> = Vec::new();
	macro_rules! bad { ($c:expr, $($f:tt)*) => { return Err(($c.to_string(), format!("source of {cap}: {}; reads: {}", format!($($f)*), t.join(", ")))) } }
	let mut s = Input::new(src);
	let mut kept: Vec<(usize, &[u8])> = Vec::new();
	for _ in 0..steps {
		let left = cap - pos;
		let copying = r.chance(1, 2);
		let n = match r.below(12) {
			0 => 0, 1 => left, 2 => left + 1, 3 => left + r.range(1, 70), 4 => 1, 5 => left.saturating_sub(1),
			6 if !copying => *r.pick(&[usize::MAX, usize::MAX - pos, (usize::MAX - pos).wrapping_add(1), isize::MAX as usize, usize::MAX - cap, usize::MAX / 2]),
			8 => r.range(0, left),
			_ => r.below(12),
		};
		t.push(format!("{}{n}", if copying { "into " } else { "" }));
		let fits = n <= left;
		let err = if copying {
			let mut buf = r.bytes(n + 32);
			let was = buf.clone();
			let at = 16;
			let res = catch(|| s.read_into(&mut buf[at..at + n]));
			if buf[..at] != was[..at] || buf[at + n..] != was[at + n..] { bad!("canary", "a read of {n} at {pos} wrote outside its destination") }
			match res {
				Ok(Ok(())) if fits => {
					if buf[at..at + n] != src[pos..pos + n] { bad!("content", "a read of {n} at {pos} gave {} instead of {}", hex(&buf[at..at + n]), hex(&src[pos..pos + n])) }
					pos += n;
					None
				}
				Ok(Err(e)) if !fits => {
					if buf != was { bad!("destination", "a refused read of {n} at {pos} changed its destination") }
					Some(e)
				}
				x => bad!("read_into", "a read of {n} at {pos} gave {x:?}"),
			}
		} else {
			match catch(|| s.read(n)) {
				Ok(Ok(b)) if fits => {
					if b.len() != n || b != &src[pos..pos + n] { bad!("content", "a read of {n} at {pos} gave {} instead of {}", hex(b), hex(&src[pos..pos + n])) }
					if n > 0 && !std::ptr::eq(b.as_ptr(), &src[pos]) { bad!("borrow", "a read of {n} at {pos} does not lie in the source at its position") }
					kept.push((pos, b));
					pos += n;
					None
				}
				Ok(Err(e)) if !fits => Some(e),
				x => bad!("read", "a read of {n} at {pos} gave {x:?}"),
			}
		};
		if let Some(e) = err {
			m.count("reads refused", 1);
			if (e.capacity, e.position, e.count) != (cap, pos, n) { bad!("error", "a read of {n} at {pos} was refused with {e:?}") }
			let d = e.to_string();
			for v in [cap, pos, n] { if !d.contains(&v.to_string()) { bad!("description", "{d:?} does not state {v}") } }
		} else {
			m.count("reads accepted", 1);
		}
		if s.position() != pos { bad!("position", "position is {} instead of {pos}", s.position()) }
		if s.capacity() != cap { bad!("capacity", "capacity became {}", s.capacity()) }
		if s.remaining() != cap - pos { bad!("remaining", "remaining is {} at {pos}", s.remaining()) }
		m.eval((n > 0).then(|| hash_bytes(&[pos as u64, cap as u64, n as u64, u64::from(copying)].map(u64::to_le_bytes).concat())));
	}
	drop(s);
	// What was borrowed outlives the stream.
	for (p, b) in kept { if b != &src[p..p + b.len()] { bad!("content", "what was read at {p} changed") } }
	if m.want_sample() { m.sample(|| format!("source of {cap}, reads of {}", t.join(", "))) }
	Ok(())
}

pub fn run(cfg: &Cfg) -> Mon {
	let jobs: Vec<usize> = (0..cfg.n(1000, 40_000)).collect();
	parallel(&jobs, |&j, m| {
		for i in 0..if cfg!(miri) { 4 } else { 20 } {
			let mut r = Rng::sub(cfg.seed, &format!("C06 {j} {i}"));
			vcore::crumb!("C06: history {j}/{i}, seed {}", cfg.seed);
			match catch(|| history(&mut r, m, 24)) {
				Ok(Ok(())) => {}
				Ok(Err((c, d))) => m.violation(&c, || d),
				Err(p) => m.violation("panic", || format!("history {j}/{i} (seed {}) panicked: {p}", cfg.seed)),
			}
		}
	})
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
