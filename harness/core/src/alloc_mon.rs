//! A counting global allocator, per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Stats {
	/// Calls that obtain memory.
	pub calls: u64,
	/// Bytes obtained (growth counted in full).
	pub bytes: u64,
	/// Live bytes relative to the start of the thread.
	pub live:  i64,
	/// Live blocks relative to the start of the thread.
	pub blocks: i64,
	/// Highest number of live bytes since the last reset.
	pub peak:  i64,
}

thread_local! {
	static S: Cell<Stats> = const { Cell::new(Stats { calls: 0, bytes: 0, live: 0, blocks: 0, peak: 0 }) };
}

thread_local! { static OFF: Cell<u32> = const { Cell::new(0) }; }

/// Runs `f` without counting; for what the monitors themselves keep.
pub fn paused<R>(f: impl FnOnce() -> R) -> R {
	struct On;
	impl Drop for On { fn drop(&mut self) { let _ = OFF.try_with(|o| o.set(o.get() - 1)); } }
	let _ = OFF.try_with(|o| o.set(o.get() + 1));
	let _on = On;
	f()
}

fn upd(f: impl FnOnce(&mut Stats)) {
	if OFF.try_with(|o| o.get() > 0).unwrap_or(true) { return }
	let _ = S.try_with(|c| { let mut s = c.get(); f(&mut s); if s.live > s.peak { s.peak = s.live } c.set(s) });
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let p = System.alloc(l);
		upd(|s| { s.calls += 1; s.bytes += l.size() as u64; s.live += l.size() as i64; s.blocks += 1 });
		p
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		let p = System.alloc_zeroed(l);
		upd(|s| { s.calls += 1; s.bytes += l.size() as u64; s.live += l.size() as i64; s.blocks += 1 });
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		System.dealloc(p, l);
		upd(|s| { s.live -= l.size() as i64; s.blocks -= 1 });
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		let q = System.realloc(p, l, n);
		upd(|s| { s.calls += 1; s.bytes += n as u64; s.live += n as i64 - l.size() as i64 });
		q
	}
}

#[global_allocator]
static A: Counting = Counting;

pub fn stats() -> Stats { S.with(|s| s.get()) }

/// Runs `f` and returns what it obtained; `live`, `blocks` and `peak` are relative to the start.
pub fn window<R>(f: impl FnOnce() -> R) -> (R, Stats) {
	let a = S.with(|c| { let mut s = c.get(); s.peak = s.live; c.set(s); s });
	let r = f();
	let b = stats();
	(r, Stats { calls: b.calls - a.calls, bytes: b.bytes - a.bytes, live: b.live - a.live, blocks: b.blocks - a.blocks, peak: b.peak - a.live })
}
