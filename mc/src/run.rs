//! Exploration engine: parallel enumeration of finite domains, breadth-first search of model states,
//! counters, replays and evidence.
//!
//! The code under test runs in a child process. Every worker publishes the case it is about to execute in a
//! shared memory slot, so that the parent can name the case that killed or hung the child.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::judge::{Entry, J};

// ---------------------------------------------------------------------------------------------
// Shared slots
// ---------------------------------------------------------------------------------------------

pub const SLOT: usize = 4 << 20;
pub const SLOTS: usize = 16;
const SLOT_HEADER: usize = 32;

extern "C" {
	fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
	fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

#[derive(Clone, Copy)]
pub struct Slots(*mut u8);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
	pub fn open(path: &str, create: bool) -> Slots {
		use std::os::fd::AsRawFd;
		let f = std::fs::OpenOptions::new()
			.read(true)
			.write(true)
			.create(create)
			.truncate(create)
			.open(path)
			.expect("slot file");
		if create {
			f.set_len((SLOT * SLOTS) as u64).expect("slot file size");
		}
		let p = unsafe {
			mmap(
				std::ptr::null_mut(),
				SLOT * SLOTS,
				3, // READ | WRITE
				1, // SHARED
				f.as_raw_fd(),
				0,
			)
		};
		assert!(p as isize != -1, "mmap");
		Slots(p)
	}
	fn word(self, slot: usize, i: usize) -> &'static AtomicU64 {
		unsafe { &*(self.0.add(slot * SLOT + 8 * i) as *const AtomicU64) }
	}
	/// busy = 1 while a case runs
	pub fn publish(self, slot: usize, entry: u16, data: &[u8]) {
		let n = data.len().min(SLOT - SLOT_HEADER);
		unsafe {
			std::ptr::copy_nonoverlapping(
				data.as_ptr(),
				self.0.add(slot * SLOT + SLOT_HEADER),
				n,
			);
		}
		self.word(slot, 1)
			.store((entry as u64) << 32 | n as u64, Relaxed);
		let c = self.word(slot, 0);
		c.store(c.load(Relaxed) + 1, Relaxed);
		self.word(slot, 2).store(1, Relaxed);
	}
	pub fn idle(self, slot: usize) {
		self.word(slot, 2).store(0, Relaxed);
	}
	/// (beat, busy)
	pub fn beat(self, slot: usize) -> (u64, bool) {
		(
			self.word(slot, 0).load(Relaxed),
			self.word(slot, 2).load(Relaxed) == 1,
		)
	}
	pub fn case(self, slot: usize) -> (u16, Vec<u8>) {
		let w = self.word(slot, 1).load(Relaxed);
		let n = ((w & 0xFFFF_FFFF) as usize).min(SLOT - SLOT_HEADER);
		let d = unsafe {
			std::slice::from_raw_parts(self.0.add(slot * SLOT + SLOT_HEADER), n).to_vec()
		};
		((w >> 32) as u16, d)
	}
}

pub fn limit_memory(bytes: u64) {
	unsafe {
		setrlimit(9 /* AS */, &[bytes, bytes]);
		setrlimit(4 /* CORE */, &[0, 0]);
	}
}

// ---------------------------------------------------------------------------------------------
// Context
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
	Exploration,
	Fault,
	Model,
}

pub struct Violation {
	pub entry: u16,
	pub data: Vec<u8>,
	pub what: String,
}

#[derive(Default, Clone)]
pub struct DomainStat {
	pub size: u64,
	pub cases: u64,
	pub accepted: u64,
	pub rejected: u64,
	pub skipped: u64,
	pub states: u64,
	pub transitions: u64,
	pub complete: bool,
	pub wall: f64,
}

pub struct Ctx {
	pub property: &'static str,
	pub tier: Tier,
	pub threads: usize,
	pub slots: Slots,
	pub start: Instant,
	pub stop: AtomicBool,
	pub violations: Mutex<Vec<Violation>>,
	pub domains: Mutex<Vec<(String, DomainStat)>>,
	pub samples: Mutex<Vec<String>>,
	pub notes: Mutex<Vec<String>>,
	pub only: Option<String>,
	outcomes: Vec<AtomicU64>,
	distinct: AtomicU64,
}

const OUTCOME_BITS: usize = 1 << 26;
const MAX_VIOLATIONS: usize = 20;

pub fn hex(d: &[u8]) -> String {
	let mut s = String::with_capacity(2 * d.len());
	for b in d {
		let _ = write!(s, "{b:02x}");
	}
	s
}

pub fn unhex(s: &str) -> Vec<u8> {
	let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
	s.chunks(2)
		.map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
		.collect()
}

pub fn hash(b: &[u8]) -> u64 {
	let mut h: u64 = 0xcbf2_9ce4_8422_2325;
	for c in b.chunks(8) {
		let mut w = [0u8; 8];
		w[..c.len()].copy_from_slice(c);
		h = (h ^ u64::from_le_bytes(w) ^ (c.len() as u64) << 60).wrapping_mul(0x9E37_79B9_7F4A_7C15);
		h ^= h >> 29;
	}
	h
}

impl Ctx {
	pub fn new(property: &'static str, tier: Tier, slots: Slots, only: Option<String>) -> Ctx {
		let threads = std::thread::available_parallelism()
			.map(|n| n.get())
			.unwrap_or(4)
			.clamp(1, 8);
		Ctx {
			property,
			tier,
			threads,
			slots,
			start: Instant::now(),
			stop: AtomicBool::new(false),
			violations: Mutex::default(),
			domains: Mutex::default(),
			samples: Mutex::default(),
			notes: Mutex::default(),
			only,
			outcomes: (0..OUTCOME_BITS / 64).map(|_| AtomicU64::new(0)).collect(),
			distinct: AtomicU64::new(0),
		}
	}

	/// Whether to explore the large domains: always for the properties for which they take only seconds
	pub fn thorough(&self) -> bool {
		self.beyond() || ["C10", "C11", "C12", "C13", "C16", "C19", "C21", "C22"].contains(&self.property)
	}

	/// The thorough tier
	pub fn beyond(&self) -> bool {
		self.tier == Tier::Thorough
	}

	pub fn q<T>(&self, quick: T, thorough: T) -> T {
		if self.thorough() {
			thorough
		} else {
			quick
		}
	}

	fn outcome(&self, h: u64) {
		let i = (h as usize) & (OUTCOME_BITS - 1);
		let bit = 1u64 << (i & 63);
		let w = &self.outcomes[i >> 6];
		if w.load(Relaxed) & bit == 0 && w.fetch_or(bit, Relaxed) & bit == 0 {
			self.distinct.fetch_add(1, Relaxed);
		}
	}

	/// Is there anything to do in this domain?
	pub fn wants(&self, name: &str) -> bool {
		!self.skip_domain(name)
	}

	fn skip_domain(&self, name: &str) -> bool {
		self.stop.load(Relaxed) || self.only.as_ref().is_some_and(|o| o != name)
	}

	/// Enumerates 0..size completely; `f` executes the case(s) that belong to an index
	pub fn par(&self, name: &str, size: u64, f: impl Fn(&mut W, u64) + Sync) {
		self.par_on(if size <= 16 { 1 } else { self.threads }, name, size, f);
	}

	/// The same with a number of workers
	pub fn par_on(&self, workers: usize, name: &str, size: u64, f: impl Fn(&mut W, u64) + Sync) {
		if self.skip_domain(name) {
			return;
		}
		let t0 = Instant::now();
		let next = AtomicU64::new(0);
		let total = Mutex::new(DomainStat {
			size,
			..Default::default()
		});
		let chunk = (size / (self.threads as u64 * 64)).clamp(1, 1 << 14);
		let sample_at = [0, size / 3, size / 2, size.saturating_sub(1)];
		let work = |slot: usize| {
			let mut w = W::new(self, slot);
			'all: loop {
				let from = next.fetch_add(chunk, Relaxed);
				if from >= size {
					break;
				}
				for i in from..(from + chunk).min(size) {
					if self.stop.load(Relaxed) {
						break 'all;
					}
					w.sample = sample_at.contains(&i).then(|| name.to_string());
					f(&mut w, i);
				}
			}
			self.slots.idle(slot);
			let mut t = total.lock().unwrap();
			t.cases += w.stat.cases;
			t.accepted += w.stat.accepted;
			t.rejected += w.stat.rejected;
			t.skipped += w.stat.skipped;
		};
		std::thread::scope(|s| {
			for slot in 0..workers.min(size as usize) {
				let work = &work;
				std::thread::Builder::new()
					.stack_size(STACK)
					.spawn_scoped(s, move || work(slot))
					.unwrap();
			}
		});
		let mut t = total.into_inner().unwrap();
		t.complete = !self.stop.load(Relaxed);
		t.wall = t0.elapsed().as_secs_f64();
		self.domains.lock().unwrap().push((name.to_string(), t));
	}

	/// Enumerates a product of alphabets completely (first position varies slowest)
	pub fn product(&self, name: &str, alphabets: &[&[u8]], f: impl Fn(&mut W, &mut Vec<u8>) + Sync) {
		let size = alphabets.iter().map(|a| a.len() as u64).product();
		self.par(name, size, |w, mut i| {
			let mut v = std::mem::take(&mut w.scratch);
			v.clear();
			v.resize(alphabets.len(), 0);
			for (p, a) in alphabets.iter().enumerate().rev() {
				v[p] = a[(i % a.len() as u64) as usize];
				i /= a.len() as u64;
			}
			f(w, &mut v);
			w.scratch = v;
		});
	}

	/// Breadth-first search of the model's abstract states, replaying every transition
	pub fn graph<M: Machine>(
		&self,
		name: &str,
		start: Vec<(M, Vec<u8>)>,
		max_depth: usize,
		letters: impl Fn(&M) -> Vec<u8> + Sync,
		f: impl Fn(&mut W, &Trace) + Sync,
	) {
		if self.skip_domain(name) {
			return;
		}
		let t0 = Instant::now();
		let mut seen = std::collections::HashSet::new();
		let mut frontier: Vec<(M, Vec<u8>)> = vec![];
		for s in start {
			if seen.insert(s.0.key()) {
				frontier.push(s);
			}
		}
		let total = Mutex::new(DomainStat::default());
		let mut depth = 0;
		let mut exhausted = false;
		while !self.stop.load(Relaxed) {
			if frontier.is_empty() {
				exhausted = true;
				break;
			}
			if depth == max_depth {
				break;
			}
			depth += 1;
			let next = AtomicU64::new(0);
			let found: Mutex<Vec<(Vec<u8>, Vec<u8>, M)>> = Mutex::default();
			let (frontier_ref, seen_ref) = (&frontier, &seen);
			let work = |slot: usize| {
				let mut w = W::new(self, slot);
				let mut mine = vec![];
				loop {
					let i = next.fetch_add(1, Relaxed) as usize;
					if i >= frontier_ref.len() || self.stop.load(Relaxed) {
						break;
					}
					let (m, witness) = &frontier_ref[i];
					for b in letters(m) {
						let mut path = witness.clone();
						path.push(b);
						let mut n = m.clone();
						let alive = n.push(b);
						w.stat.transitions += 1;
						w.sample = (i == 0 && b == 1).then(|| name.to_string());
						let t = Trace {
							path: &path,
							alive,
							suffix: if alive { n.completion() } else { None },
						};
						f(&mut w, &t);
						if alive {
							let k = n.key();
							if !seen_ref.contains(&k) {
								mine.push((k, path, n));
							}
						}
					}
				}
				self.slots.idle(slot);
				found.lock().unwrap().extend(mine);
				let mut t = total.lock().unwrap();
				t.cases += w.stat.cases;
				t.accepted += w.stat.accepted;
				t.rejected += w.stat.rejected;
				t.skipped += w.stat.skipped;
				t.transitions += w.stat.transitions;
			};
			std::thread::scope(|s| {
				for slot in 0..self.threads.min(frontier.len()) {
					let work = &work;
					std::thread::Builder::new()
						.stack_size(STACK)
						.spawn_scoped(s, move || work(slot))
						.unwrap();
				}
			});
			let found = found.into_inner().unwrap();
			// prefer witnesses that can be completed
			let mut found: Vec<_> = found
				.into_iter()
				.map(|(k, path, m)| (k, m.completion().is_none(), path, m))
				.collect();
			found.sort_by(|a, b| (&a.0, a.1, &a.2).cmp(&(&b.0, b.1, &b.2)));
			frontier = vec![];
			for (k, _, path, m) in found {
				if seen.insert(k) {
					frontier.push((m, path));
				}
			}
		}
		let mut t = total.into_inner().unwrap();
		t.states = seen.len() as u64;
		t.size = t.transitions;
		t.complete = exhausted;
		t.wall = t0.elapsed().as_secs_f64();
		self.domains
			.lock()
			.unwrap()
			.push((format!("{name} (depth {depth})"), t));
	}

	pub fn note(&self, s: impl Into<String>) {
		self.notes.lock().unwrap().push(s.into());
	}

	pub fn report(&self, v: Violation) {
		let mut l = self.violations.lock().unwrap();
		if l.len() < MAX_VIOLATIONS {
			l.push(v);
		}
		if l.len() >= MAX_VIOLATIONS {
			self.stop.store(true, Relaxed);
		}
	}
}

pub struct Trace<'a> {
	pub path: &'a [u8],
	/// The model can still accept some continuation (or has accepted)
	pub alive: bool,
	/// Bytes that lead from here to acceptance
	pub suffix: Option<Vec<u8>>,
}

pub trait Machine: Clone + Send + Sync {
	fn key(&self) -> Vec<u8>;
	/// false: rejected
	fn push(&mut self, b: u8) -> bool;
	fn completion(&self) -> Option<Vec<u8>>;
}

pub struct W<'a> {
	pub ctx: &'a Ctx,
	slot: usize,
	pub stat: DomainStat,
	pub scratch: Vec<u8>,
	pub buf: Vec<u8>,
	sample: Option<String>,
}

impl<'a> W<'a> {
	fn new(ctx: &'a Ctx, slot: usize) -> Self {
		W {
			ctx,
			slot,
			stat: Default::default(),
			scratch: vec![],
			buf: vec![],
			sample: None,
		}
	}

	pub fn case(&mut self, e: Entry, d: &[u8]) {
		self.ctx.slots.publish(self.slot, e as u16, d);
		self.stat.cases += 1;
		let j = e.judge(d);
		if let Some(s) = self.sample.take() {
			let shown = &d[..d.len().min(96)];
			self.ctx.samples.lock().unwrap().push(format!(
				"{s}: {}({}{}) -> {j:?}",
				e.name(),
				hex(shown),
				if shown.len() < d.len() { "..." } else { "" },
			));
		}
		match j {
			J::Accept(h) => {
				self.stat.accepted += 1;
				self.ctx.outcome(h);
			}
			J::Reject => self.stat.rejected += 1,
			J::Skip => self.stat.skipped += 1,
			J::Bad(what) => self.ctx.report(Violation {
				entry: e as u16,
				data: d.to_vec(),
				what,
			}),
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Results
// ---------------------------------------------------------------------------------------------

pub fn verif_dir() -> String {
	std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn json_string(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || (c as u32) == 0x7F => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

pub fn write_replay(property: &str, v: &Violation) -> String {
	let dir = format!("{}/replays", verif_dir());
	std::fs::create_dir_all(&dir).expect("replays directory");
	let name = Entry::from_index(v.entry).map_or("?", |e| e.name());
	let path = format!(
		"{dir}/{property}-{name}-{:016x}.txt",
		hash(&v.data) ^ v.entry as u64
	);
	let text = format!(
		"property: {property}\nentry: {name}\ninput: {}\nwhat: {}\n\nReplay with: {} replay {path}\n",
		hex(&v.data),
		v.what,
		std::env::current_exe()
			.map(|p| p.display().to_string())
			.unwrap_or_else(|_| "mc".into()),
	);
	std::fs::write(&path, text).expect("replay file");
	path
}

/// Prints the violations; the exit code
pub fn conclude(property: &str, mut v: Vec<Violation>) -> i32 {
	v.sort_by_key(|v| (v.data.len(), v.entry, v.data.clone()));
	for v in v.iter().take(5) {
		let path = write_replay(property, v);
		println!(
			"{}: {} input {}\n  {}",
			property,
			Entry::from_index(v.entry).map_or("?", |e| e.name()),
			hex(&v.data[..v.data.len().min(128)]),
			v.what
		);
		println!("VIOLATION property={property} replay={path}");
	}
	i32::from(!v.is_empty())
}

pub struct Meta {
	pub level: Level,
	pub rule: &'static str,
	pub assumptions: &'static [&'static str],
}

pub fn write_evidence(ctx: &Ctx, meta: &Meta) {
	let domains = ctx.domains.lock().unwrap();
	let mut sum = DomainStat::default();
	for (_, d) in domains.iter() {
		sum.cases += d.cases;
		sum.accepted += d.accepted;
		sum.rejected += d.rejected;
		sum.skipped += d.skipped;
		sum.states += d.states;
		sum.transitions += d.transitions;
	}
	let complete = domains.iter().all(|d| d.1.complete);
	let mut cov: BTreeMap<&str, String> = BTreeMap::new();
	match meta.level {
		Level::Model => {
			cov.insert("states", sum.states.to_string());
			cov.insert("transitions", sum.transitions.to_string());
			cov.insert(
				"traces_validated_against_impl",
				(sum.cases - sum.skipped).to_string(),
			);
		}
		_ => {
			cov.insert("evaluations", sum.cases.to_string());
		}
	}
	cov.insert("distinct_nontrivial", ctx.distinct.load(Relaxed).to_string());
	cov.insert("rule", json_string(meta.rule));
	cov.insert("accepted", sum.accepted.to_string());
	cov.insert("rejected", sum.rejected.to_string());
	cov.insert("outside_property", sum.skipped.to_string());
	cov.insert("domains_completed", complete.to_string());
	let list: Vec<String> = domains
		.iter()
		.map(|(n, d)| {
			let mut s = format!(
				"{{\"domain\": {}, \"size\": {}, \"cases\": {}, \"accepted\": {}, \"rejected\": {}, \"outside_property\": {}, ",
				json_string(n), d.size, d.cases, d.accepted, d.rejected, d.skipped
			);
			if d.states > 0 {
				let _ = write!(s, "\"states\": {}, \"transitions\": {}, ", d.states, d.transitions);
			}
			let _ = write!(s, "\"completed\": {}, \"wall_s\": {:.2}}}", d.complete, d.wall);
			s
		})
		.collect();
	cov.insert("domains", format!("[\n   {}\n  ]", list.join(",\n   ")));
	let samples: Vec<String> = ctx
		.samples
		.lock()
		.unwrap()
		.iter()
		.map(|s| json_string(&s.chars().take(600).collect::<String>()))
		.collect();
	cov.insert("samples", format!("[\n   {}\n  ]", samples.join(",\n   ")));
	let notes: Vec<String> = ctx.notes.lock().unwrap().iter().map(|s| json_string(s)).collect();
	if !notes.is_empty() {
		cov.insert("notes", format!("[{}]", notes.join(", ")));
	}
	let cov: Vec<String> = cov.iter().map(|(k, v)| format!("  \"{k}\": {v}")).collect();
	let assumptions: Vec<String> = meta.assumptions.iter().map(|s| json_string(s)).collect();
	let seed: i64 = std::env::var("VERIF_SEED")
		.ok()
		.and_then(|s| s.parse().ok())
		.unwrap_or(0);
	let text = format!(
		"{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
		json_string(ctx.property),
		json_string(ctx.q("quick", "thorough")),
		json_string(match meta.level {
			Level::Exploration => "exploration",
			Level::Fault => "fault_enumeration",
			Level::Model => "model_checking",
		}),
		cov.join(",\n"),
		assumptions.join(", "),
		ctx.start.elapsed().as_secs_f64(),
		ctx.violations.lock().unwrap().len(),
	);
	let dir = format!("{}/evidence", verif_dir());
	std::fs::create_dir_all(&dir).expect("evidence directory");
	std::fs::write(format!("{dir}/{}.json", ctx.property), text).expect("evidence file");
}

// ---------------------------------------------------------------------------------------------
// Supervision
// ---------------------------------------------------------------------------------------------

/// Stack of the threads that run the code under test: that of a Rust thread by default
pub const STACK: usize = 2 << 20;

const HANG: Duration = Duration::from_secs(30);

/// Does executing this one case in a fresh process kill or hang it?
pub fn dies_alone(entry: u16, data: &[u8]) -> Option<String> {
	let exe = std::env::current_exe().unwrap();
	let mut child = std::process::Command::new(exe)
		.args(["eval", &entry.to_string()])
		.stdin(std::process::Stdio::piped())
		.stdout(std::process::Stdio::null())
		.stderr(std::process::Stdio::null())
		.spawn()
		.expect("child");
	let mut stdin = child.stdin.take().unwrap();
	let _ = stdin.write_all(hex(data).as_bytes());
	drop(stdin);
	let t0 = Instant::now();
	loop {
		match child.try_wait().expect("wait") {
			Some(st) if matches!(st.code(), Some(0) | Some(1)) => return None,
			Some(st) => return Some(format!("the process died: {st}")),
			None => {
				if t0.elapsed() > HANG {
					let _ = child.kill();
					let _ = child.wait();
					return Some(format!("no result after {HANG:?}"));
				}
				std::thread::sleep(Duration::from_millis(5));
			}
		}
	}
}

/// Runs `args` as a child that publishes its cases in slots
pub fn supervise(property: &'static str, args: &[String]) -> i32 {
	let path = std::env::temp_dir().join(format!("mc-{}-{property}.slots", std::process::id()));
	let path = path.to_str().unwrap().to_string();
	let slots = Slots::open(&path, true);
	let mut child = std::process::Command::new(std::env::current_exe().unwrap())
		.arg("run")
		.arg(&path)
		.args(args)
		.spawn()
		.expect("child");
	let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
	let mut hung = vec![];
	let status = loop {
		if let Some(st) = child.try_wait().expect("wait") {
			break Some(st);
		}
		for (i, l) in last.iter_mut().enumerate() {
			let (beat, busy) = slots.beat(i);
			if !busy || beat != l.0 {
				*l = (beat, Instant::now());
			} else if l.1.elapsed() > HANG {
				hung.push(i);
			}
		}
		if !hung.is_empty() {
			let _ = child.kill();
			let _ = child.wait();
			break None;
		}
		std::thread::sleep(Duration::from_millis(20));
	};
	let code = match status.and_then(|s| s.code()) {
		Some(c @ (0 | 1)) => c,
		Some(c) => {
			eprintln!("{property}: internal error, exit code {c}");
			2
		}
		None => {
			let suspects: Vec<usize> = if hung.is_empty() {
				(0..SLOTS).filter(|i| slots.beat(*i).1).collect()
			} else {
				hung
			};
			let mut found = vec![];
			for s in suspects {
				let (entry, data) = slots.case(s);
				if let Some(what) = dies_alone(entry, &data) {
					found.push(Violation { entry, data, what });
				}
			}
			if found.is_empty() {
				eprintln!("{property}: the exploration died ({status:?}) but no single case does");
				2
			} else {
				conclude(property, found)
			}
		}
	};
	let _ = std::fs::remove_file(&path);
	code
}
