//! C28: what decoding costs. Memory is counted by the allocator, steps are the program's instructions
//! counted under the trap flag, so both are exact and repeatable. What the C library does (copying) is only seen by
//! the time that very long inputs take.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

use crate::judge::{decode, guard, J};
use crate::model;
use crate::threads::count_steps;

struct Counting;

thread_local! {
	static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
	let _ = BYTES.try_with(|b| b.set(b.get().wrapping_add(n as u64)));
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		add(l.size());
		unsafe { System.alloc(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		unsafe { System.dealloc(p, l) }
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		add(l.size());
		unsafe { System.alloc_zeroed(l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		add(n);
		unsafe { System.realloc(p, l, n) }
	}
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Bytes asked for (all requests added up) per byte of input, and besides
const MEMORY: (u64, u64) = (2048, 16384);
/// Instructions per byte of input, and besides
const STEPS: (u64, u64) = (2000, 50_000);

/// [sub, n] + bytes
pub fn memory(d: &[u8]) -> J {
	let before = BYTES.get();
	let r = guard(|| decode(d[0], d[1].into(), &d[2..], false).is_ok());
	let used = BYTES.get().wrapping_sub(before);
	let n = d.len() as u64 - 2;
	match r {
		Err(j) => j,
		Ok(_) if used > MEMORY.0 * n + MEMORY.1 => {
			J::Bad(format!("{used} bytes of memory asked for while decoding {n} bytes"))
		}
		Ok(true) => J::Accept(u64::from(d[0]) << 40 ^ used),
		Ok(false) => J::Reject,
	}
}

/// [sub, n] + bytes
pub fn work(d: &[u8]) -> J {
	let (r, steps) = count_steps(|| guard(|| decode(d[0], d[1].into(), &d[2..], false).is_ok()));
	let n = d.len() as u64 - 2;
	match r {
		Err(j) => j,
		Ok(_) if steps > STEPS.0 * n + STEPS.1 => {
			J::Bad(format!("{steps} instructions executed while decoding {n} bytes"))
		}
		Ok(true) => J::Accept(u64::from(d[0]) << 40 ^ steps),
		Ok(false) => J::Reject,
	}
}

#[repr(C)]
struct Timespec {
	seconds: i64,
	nanoseconds: i64,
}

extern "C" {
	fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Of this thread; what else the machine does isn't counted
fn processor_time() -> u64 {
	const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
	let mut t = Timespec { seconds: 0, nanoseconds: 0 };
	unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &raw mut t) };
	t.seconds as u64 * 1_000_000_000 + t.nanoseconds as u64
}

/// Nanoseconds per byte of input, and besides. (For inputs of several 100000 bytes, where what grows with the square
/// needs a thousand times as much.)
const TIME: (u64, u64) = (3000, 500_000_000);

/// [sub, n, repetitions (3), unit length] + unit + suffix: decodes unit x repetitions + suffix
pub fn long(d: &[u8]) -> J {
	let k = usize::from(d[2]) << 16 | usize::from(d[3]) << 8 | usize::from(d[4]);
	let (unit, suffix) = d[6..].split_at(d[5].into());
	let mut v = unit.repeat(k);
	v.extend(suffix);
	let n = v.len() as u64;
	let mut least = u64::MAX;
	for _ in 0..3 {
		let (before, t) = (BYTES.get(), processor_time());
		let accepted = match guard(|| decode(d[0], d[1].into(), &v, false).is_ok()) {
			Err(j) => return j,
			Ok(a) => a,
		};
		least = least.min(processor_time() - t);
		let used = BYTES.get().wrapping_sub(before);
		if used > MEMORY.0 * n + MEMORY.1 {
			return J::Bad(format!("{used} bytes of memory asked for while decoding {n} bytes"));
		}
		if least <= TIME.0 * n + TIME.1 {
			return if accepted { J::Accept(n) } else { J::Reject };
		}
	}
	J::Bad(format!("{least} ns of processor time taken (three times) by decoding {n} bytes"))
}

/// [sub, n, wrapped in a long frame (1) or length of the repeated in the last byte of the prefix (2), repetitions (2), unit length, prefix length] + unit + prefix + suffix:
/// decodes prefix + unit x k + suffix for k = repetitions x 1, 2, 4, 8. The growth of
/// effort must not grow more than that of the input does.
pub fn growth(d: &[u8]) -> J {
	let (sub, n, wrapped) = (d[0], usize::from(d[1]), d[2] == 1);
	let k = usize::from(d[3]) << 8 | usize::from(d[4]);
	let (unit, rest) = d[7..].split_at(d[5].into());
	let (prefix, suffix) = rest.split_at(d[6].into());
	let mut got = vec![];
	let mut values = 0;
	for m in [1, 2, 4, 8] {
		let mut v = prefix.to_vec();
		if d[2] == 2 {
			*v.last_mut().unwrap() = (unit.len() * k * m) as u8;
		}
		v.extend(unit.repeat(k * m));
		v.extend(suffix);
		if wrapped {
			v = model::wrap_long(0x08, 1, &v);
		}
		let before = BYTES.get();
		let (r, steps) = count_steps(|| guard(|| decode(sub, n, &v, false).is_ok()));
		match r {
			Err(j) => return j,
			Ok(a) => values += u64::from(a),
		}
		got.push((steps, BYTES.get().wrapping_sub(before)));
	}
	// where the input grows twice as much, so does the effort, if it is proportional
	for i in 2..4 {
		for (which, f, slack) in [
			// buffers that grow are moved now and then
			("instructions", (|g| g.0) as fn(&(u64, u64)) -> u64, 3000 + got[i].0 / 16),
			("bytes of memory", |g| g.1, 4096 + got[i].1 / 8),
		] {
			let grown = |i: usize| f(&got[i]).saturating_sub(f(&got[i - 1]));
			if grown(i) > grown(i - 1) * 11 / 5 + slack {
				let l: Vec<u64> = got.iter().map(f).collect();
				return J::Bad(format!("{which} for 1, 2, 4, 8 times as much input: {l:?}"));
			}
		}
	}
	match values {
		0 => J::Reject,
		_ => J::Accept(got[3].0),
	}
}
