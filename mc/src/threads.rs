//! A controlled scheduler for threads that decode: every thread is single-stepped by the processor (trap flag),
//! so that it can be stopped before any of its instructions and another one be run instead. Exactly one thread
//! runs at a time, unless the running one blocks (on a lock that a stopped one holds): then the next one goes on.
//! Only instructions of this program count (not those of the C library).

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};

use crate::judge::{baseline, call, items, schedule, scheduled_baseline, J};
use crate::run::{hash, hex, STACK};

const MAX: usize = 8;
/// To the end, without being stepped
pub const FOREVER: u32 = u32::MAX;

extern "C" {
	fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
	fn gettid() -> i32;
	fn open(path: *const u8, flags: i32, ...) -> i32;
	fn read(fd: i32, b: *mut u8, n: usize) -> isize;
	fn close(fd: i32) -> i32;
	fn sched_yield() -> i32;
	static __executable_start: u8;
	static etext: u8;
}

#[repr(C)]
struct Action {
	handler: usize,
	mask: [u64; 16],
	flags: i32,
	restorer: usize,
}

const SIGTRAP: i32 = 5;
const TRAP_FLAG: u64 = 0x100;
// in ucontext_t: uc_flags, uc_link and uc_stack come before the registers
const REG_RIP: usize = 5 + 16;
const REG_EFLAGS: usize = 5 + 17;

/// A thread that is being stepped
struct Me {
	on: AtomicBool,
	steps: u32,
	what: What,
}

enum What {
	/// Thread number, steps left in this turn, schedule
	Turns(usize, u32, *const Sched),
	/// After every step, the other one decodes everything
	Gaps(*const Gaps),
	/// Instructions of the program are counted
	Count(u64),
}

thread_local! {
	static ME: Cell<*mut Me> = const { Cell::new(std::ptr::null_mut()) };
}

/// No stepping from here on (what follows isn't the code under test)
pub fn pause() {
	let me = ME.get();
	if !me.is_null() {
		unsafe { &*me }.on.store(false, Relaxed);
	}
}

fn step_from_here() {
	static INSTALL: Once = Once::new();
	INSTALL.call_once(|| {
		let a = Action {
			handler: trap as *const () as usize,
			mask: [0; 16],
			flags: 4, // SA_SIGINFO
			restorer: 0,
		};
		assert!(unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) } == 0);
	});
	unsafe {
		std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
	}
}

extern "C" fn trap(_: i32, _: *const u8, context: *mut u64) {
	let me = ME.get();
	unsafe {
		let flags = &mut *context.add(REG_EFLAGS);
		if me.is_null() || !(*me).on.load(Relaxed) {
			*flags &= !TRAP_FLAG;
			return;
		}
		let at = *context.add(REG_RIP);
		let text = &raw const __executable_start as u64..&raw const etext as u64;
		if text.contains(&at) {
			(*me).steps += 1;
			match &mut (*me).what {
				What::Turns(t, left, s) => {
					let s = &**s;
					s.beats.fetch_add(1, Relaxed);
					// (it may have lost its turn while it was blocked)
					if s.turn.load(Acquire) != *t {
						s.wait(*t);
					}
					*left -= u32::from(*left != FOREVER);
					if *left == 0 {
						*left = s.rest[*t];
						s.pass(*t);
						s.wait(*t);
					}
					if *left == FOREVER {
						// nothing more to decide
						(*me).on.store(false, Relaxed);
						*flags &= !TRAP_FLAG;
						return;
					}
				}
				What::Gaps(g) => (**g).run((*me).steps),
				What::Count(n) => *n += 1,
			}
		}
		*flags |= TRAP_FLAG;
	}
}

/// Does the thread sleep (in a system call)?
fn asleep(tid: i32) -> bool {
	let mut path = *b"/proc/self/task/0000000000/stat\0";
	let mut n = tid;
	for i in (16..26).rev() {
		path[i] = b'0' + (n % 10) as u8;
		n /= 10;
	}
	// the number is without leading zeros
	let digits = path[16..26].iter().position(|b| *b != b'0').unwrap_or(9);
	let mut short = [0u8; 32];
	short[..16].copy_from_slice(&path[..16]);
	let rest = &path[16 + digits..];
	short[16..16 + rest.len()].copy_from_slice(rest);
	let mut b = [0u8; 256];
	let n = unsafe {
		let fd = open(short.as_ptr(), 0);
		if fd < 0 {
			return true;
		}
		let n = read(fd, b.as_mut_ptr(), b.len());
		close(fd);
		n
	};
	let b = &b[..n.max(0) as usize];
	match b.iter().rposition(|c| *c == b')') {
		Some(p) => !matches!(b.get(p + 2), Some(b'R')),
		None => true,
	}
}

/// Waits for something; false: the thread it depends on is blocked
fn spin_until(done: impl Fn() -> bool, depends_on: impl Fn() -> i32) -> bool {
	let mut n = 0u32;
	let mut sleeping = 0;
	loop {
		if done() {
			return true;
		}
		n += 1;
		std::hint::spin_loop();
		if n % 256 == 0 {
			unsafe { sched_yield() };
		}
		if n % 65536 == 0 {
			let tid = depends_on();
			if tid != 0 && asleep(tid) {
				sleeping += 1;
				if sleeping == 3 && !done() {
					return false;
				}
			} else {
				sleeping = 0;
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Turns
// ---------------------------------------------------------------------------------------------

struct Sched {
	turn: AtomicUsize,
	beats: AtomicU64,
	n: usize,
	tid: [AtomicI32; MAX],
	done: [AtomicBool; MAX],
	rest: [u32; MAX],
}

impl Sched {
	/// Hands over the turn to the next one, if it has it
	fn pass(&self, t: usize) {
		for k in 1..=self.n {
			let o = (t + k) % self.n;
			if !self.done[o].load(Acquire) || o == t {
				let _ = self.turn.compare_exchange(t, o, AcqRel, Relaxed);
				return;
			}
		}
	}
	fn wait(&self, t: usize) {
		loop {
			let holder = self.turn.load(Acquire);
			if holder == t {
				return;
			}
			let beats = self.beats.load(Relaxed);
			let moved = spin_until(
				|| self.turn.load(Acquire) != holder || self.beats.load(Relaxed) != beats,
				|| self.tid[holder].load(Relaxed),
			);
			if !moved {
				// blocked: the one after it goes on
				let mut o = (holder + 1) % self.n;
				while self.done[o].load(Acquire) {
					o = (o + 1) % self.n;
				}
				let _ = self.turn.compare_exchange(holder, o, AcqRel, Relaxed);
			}
		}
	}
}

pub struct Turn {
	/// Steps in the first turn and in every later one
	pub first: u32,
	pub rest: u32,
}

/// Every thread makes its call; the results (as in `baseline`) and the numbers of steps
pub fn run_turns(calls: &[&[u8]], turns: &[Turn]) -> Vec<(u64, u32)> {
	let s = Sched {
		turn: AtomicUsize::new(0),
		beats: AtomicU64::new(0),
		n: calls.len(),
		tid: Default::default(),
		done: Default::default(),
		rest: [FOREVER; MAX],
	};
	let mut s = s;
	for (i, t) in turns.iter().enumerate() {
		s.rest[i] = t.rest;
	}
	let s = &s;
	// nobody starts before all are there
	let ready = AtomicUsize::new(0);
	let ready = &ready;
	std::thread::scope(|scope| {
		let h: Vec<_> = (0..calls.len())
			.map(|t| {
				let body = move || {
					let mut me = Me {
						on: AtomicBool::new(true),
						steps: 0,
						what: What::Turns(t, turns[t].first, s),
					};
					ready.fetch_add(1, AcqRel);
					while ready.load(Acquire) < s.n {
						unsafe { sched_yield() };
					}
					s.tid[t].store(unsafe { gettid() }, Relaxed);
					s.wait(t);
					if turns[t].first == 0 {
						if let What::Turns(_, left, _) = &mut me.what {
							*left = turns[t].rest;
						}
						s.pass(t);
						s.wait(t);
					}
					let endless = matches!(me.what, What::Turns(_, FOREVER, _));
					let me = &raw mut me;
					if !endless {
						ME.set(me);
						step_from_here();
					}
					let text = call(calls[t]);
					pause();
					ME.set(std::ptr::null_mut());
					s.done[t].store(true, Release);
					s.pass(t);
					(hash(text.as_bytes()), unsafe { (*me).steps })
				};
				std::thread::Builder::new()
					.stack_size(STACK)
					.spawn_scoped(scope, body)
					.expect("thread")
			})
			.collect();
		h.into_iter().map(|h| h.join().expect("thread")).collect()
	})
}

/// How many instructions the call takes
pub fn steps(call: &[u8]) -> u32 {
	run_turns(&[call], &[Turn { first: FOREVER - 1, rest: FOREVER }])[0].1
}

/// How many instructions of the program (not those of the C library, where the allocator's depend on its past) it takes
pub fn count_steps<T>(f: impl FnOnce() -> T) -> (T, u64) {
	let mut me = Me {
		on: AtomicBool::new(true),
		steps: 0,
		what: What::Count(0),
	};
	ME.set(&raw mut me);
	step_from_here();
	let r = f();
	pause();
	ME.set(std::ptr::null_mut());
	match me.what {
		What::Count(n) => (r, n),
		_ => unreachable!(),
	}
}

// ---------------------------------------------------------------------------------------------
// Gaps
// ---------------------------------------------------------------------------------------------

/// What the other thread decodes whenever the first one has made a step
struct Gaps {
	asked: AtomicU32,
	answered: AtomicU32,
	tid: AtomicI32,
	blocked: AtomicU32,
}

impl Gaps {
	fn run(&self, step: u32) {
		if self.asked.load(Relaxed) != self.answered.load(Acquire) {
			// still blocked
			return;
		}
		self.asked.store(step, Release);
		let ok = spin_until(
			|| self.answered.load(Acquire) == step,
			|| self.tid.load(Relaxed),
		);
		if !ok {
			self.blocked.fetch_add(1, Relaxed);
		}
	}
}

/// One thread makes the first call; between any two of its instructions another one makes all the others
fn gaps(calls: &[&[u8]], expected: &[u64]) -> Result<u64, String> {
	let g = Gaps {
		asked: AtomicU32::new(0),
		answered: AtomicU32::new(0),
		tid: AtomicI32::new(0),
		blocked: AtomicU32::new(0),
	};
	let wrong: Mutex<Option<String>> = Mutex::new(None);
	let text = std::thread::scope(|scope| {
		let (g, wrong) = (&g, &wrong);
		let other = move || {
			g.tid.store(unsafe { gettid() }, Relaxed);
			let mut last = 0;
			let mut n = 0u32;
			loop {
				let step = g.asked.load(Acquire);
				if step == FOREVER {
					break;
				}
				if step == last {
					n += 1;
					std::hint::spin_loop();
					if n % 4096 == 0 {
						unsafe { sched_yield() };
					}
					continue;
				}
				last = step;
				for (c, e) in calls[1..].iter().zip(&expected[1..]) {
					let text = call(c);
					if hash(text.as_bytes()) != *e {
						wrong.lock().unwrap().get_or_insert_with(|| {
							format!(
								"while another thread is stopped after {step} instructions, decoding {} gives {text}",
								hex(&c[2..])
							)
						});
					}
				}
				g.answered.store(step, Release);
			}
		};
		std::thread::Builder::new()
			.stack_size(STACK)
			.spawn_scoped(scope, other)
			.expect("thread");
		while g.tid.load(Relaxed) == 0 {
			unsafe { sched_yield() };
		}
		let mut me = Me {
			on: AtomicBool::new(true),
			steps: 0,
			what: What::Gaps(g),
		};
		ME.set(&raw mut me);
		step_from_here();
		let text = call(calls[0]);
		pause();
		ME.set(std::ptr::null_mut());
		let t0 = Instant::now();
		while g.asked.load(Relaxed) != g.answered.load(Acquire) {
			if t0.elapsed() > Duration::from_secs(10) {
				// the supervisor finds this case hung
				std::thread::sleep(Duration::from_secs(3600));
			}
			unsafe { sched_yield() };
		}
		g.asked.store(FOREVER, Release);
		text
	});
	if let Some(w) = wrong.into_inner().unwrap() {
		return Err(w);
	}
	if hash(text.as_bytes()) != expected[0] {
		return Err(format!(
			"decoding {} while another thread decodes gives {text}",
			hex(&calls[0][2..])
		));
	}
	Ok(expected[0])
}

// ---------------------------------------------------------------------------------------------
// Cases
// ---------------------------------------------------------------------------------------------

/// [0] + calls: gaps
/// [1 or 2 (in a process that has decoded nothing before), n] + n x (first turn, later turns: 4 + 4 bytes) + calls
pub fn threads(d: &[u8]) -> J {
	if d[0] == 0 {
		let expected: Vec<u64> = items(&d[1..]).into_iter().map(baseline).collect();
		return schedule(d, &expected);
	}
	let (turns, calls) = parse(d);
	let expected: Vec<u64> = calls.iter().map(|c| baseline(c)).collect();
	if d[0] == 1 {
		return schedule(d, &expected);
	}
	match compare(&turns, &calls, &expected, &scheduled_baseline(d)) {
		Ok(h) => J::Accept(h),
		Err(s) => J::Bad(format!("{s} (in a process that has decoded nothing before)")),
	}
}

/// Runs it in this process
pub fn judge_here(d: &[u8], expected: &[u64]) -> Result<u64, String> {
	if d[0] == 0 {
		return gaps(&items(&d[1..]), expected);
	}
	let (turns, calls) = parse(d);
	let got: Vec<u64> = run_turns(&calls, &turns).iter().map(|r| r.0).collect();
	compare(&turns, &calls, expected, &got)
}

fn compare(turns: &[Turn], calls: &[&[u8]], expected: &[u64], got: &[u64]) -> Result<u64, String> {
	for (t, c) in calls.iter().enumerate() {
		if got[t] != expected[t] {
			return Err(format!(
				"thread {t} of {}, decoding {}, gets something else than alone, with these turns: {:?}",
				calls.len(),
				hex(&c[2..]),
				turns.iter().map(|t| (t.first, t.rest)).collect::<Vec<_>>()
			));
		}
	}
	let h: Vec<u8> = got.iter().flat_map(|h| h.to_le_bytes()).collect();
	Ok(hash(&h))
}

pub fn parse(d: &[u8]) -> (Vec<Turn>, Vec<&[u8]>) {
	let n = usize::from(d[1]);
	let word = |i: usize| u32::from_be_bytes(d[i..i + 4].try_into().unwrap());
	let turns = (0..n).map(|t| Turn { first: word(2 + 8 * t), rest: word(6 + 8 * t) }).collect();
	let calls = items(&d[2 + 8 * n..]);
	assert!(calls.len() == n && n <= MAX);
	(turns, calls)
}

pub fn case(v: &mut Vec<u8>, cold: bool, turns: &[(u32, u32)], calls: &[&[u8]]) {
	v.clear();
	v.extend([1 + u8::from(cold), turns.len() as u8]);
	for (a, b) in turns {
		v.extend(a.to_be_bytes());
		v.extend(b.to_be_bytes());
	}
	for c in calls {
		crate::judge::push_item(v, c);
	}
}
