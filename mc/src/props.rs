//! The explored spaces, per property.

use std::sync::OnceLock;

use crate::judge::{push_item, Entry, FrameG, LinkG, MsgG, ShallowG, RecG};
use crate::model::{self, LLoc, MLoc, RLoc};
use crate::products;
use crate::run::{unhex, Ctx, Level, Meta, Trace, W};

pub struct Prop {
	pub id: &'static str,
	pub run: fn(&Ctx),
	pub meta: Meta,
}

pub fn find(id: &str) -> Option<&'static Prop> {
	PROPS.iter().find(|p| p.id == id)
}

const CODE: &str = "The model in mc/src/model.rs states the property; the code is executed with overflow checks and debug assertions.";

macro_rules! props {
	($($id:literal $level:ident $f:ident $rule:literal [$($a:expr),*];)*) => {
		static PROPS: &[Prop] = &[$(Prop {
			id: $id,
			run: $f,
			meta: Meta { level: Level::$level, rule: $rule, assumptions: &[CODE, $($a),*] },
		},)*];
	};
}

props! {
	"C01" Model c01 "Every byte string of the listed spaces is decoded by the listed functions (and the error rendered). A case is non-trivial if something was decoded; distinct_nontrivial counts distinct (function, first byte) pairs with a decoded value." [];
	"C02" Model c02 "Byte strings around the frame automaton: every transition of its state graph with shortest completion, and products of field domains. distinct_nontrivial counts distinct decoded packets." ["Which payloads are decodable messages is taken from the code's own message decoder (other properties judge it)."];
	"C03" Fault c03 "Every single-byte fault (replace, delete, insert, truncate, append) at every position of every listed valid frame. distinct_nontrivial counts distinct (fault kind, position modulo 64) pairs that were rejected." ["Valid frames are those the code accepts; the listed frames are accepted (cases on other frames count as outside_property)."];
	"C04" Exploration c04 "All 256 control bytes x all 256 addresses in short and long frames with correct structure. distinct_nontrivial counts distinct decoded controls." [];
	"C05" Model c05 "All 256 CI fields x header forms x bodies (lengths and contents). distinct_nontrivial counts distinct decoded messages." ["The contents of headers, records, error and select bodies are taken from the code's own decoders for them (other properties judge those)."];
	"C06" Exploration c06 "Headers: every pair of byte positions takes all 65536 values against several backgrounds, plus truncations. distinct_nontrivial counts distinct decoded headers." [];
	"C07" Exploration c07 "Manufacturer x version x device type x identification. distinct_nontrivial counts distinct product names and manufacturers." [];
	"C08" Model c08 "Frame bodies: all transitions of the frame automaton, all item sequences up to a depth, all short strings. distinct_nontrivial counts distinct decoded frames." ["What a single record decodes to is taken from the code's own record decoder on that record's bytes alone (other properties judge it)."];
	"C09" Exploration c09 "All sequences of decode calls up to a depth over an alphabet of inputs, all pairs over a wider set, every truncation of one before every other, and every single byte replacement between two calls of the original, executed in one process; every result is compared with that of a process that has decoded nothing before. Records in all contexts of the listed kinds. distinct_nontrivial counts distinct result histories." ["Global state is only observable through results; the alphabet reaches every decoder and every kind of rejection."];
	"C10" Model c10 "Data information blocks: all transitions of the block automaton, all pairs of positions x all values, all chains over an alphabet. distinct_nontrivial counts distinct decoded blocks." [];
	"C11" Exploration c11 "All triples of bytes as value information. distinct_nontrivial counts distinct quantities." ["The tables of EN 13757-3 are transcribed in the model from the code's documentation of them and the standard's numbering; see DESIGN.md."];
	"C12" Model c12 "Value information blocks: all transitions of the block automaton, extension chains of all lengths, all plain texts of up to 3 bytes and classes of longer ones. distinct_nontrivial counts distinct blocks." [];
	"C13" Model c13 "Data type x value information x remaining length, and all transitions of the record automaton. distinct_nontrivial counts distinct (class, length, kind) of data." [];
	"C14" Exploration c14 "Integers of 0 to 8 bytes. distinct_nontrivial counts distinct values." [];
	"C15" Exploration c15 "BCD numbers of 0 to 9 bytes. distinct_nontrivial counts distinct values." [];
	"C16" Model c16 "Length byte x contents x remaining length, and all transitions of the automaton after the length byte. distinct_nontrivial counts distinct values." [];
	"C17" Exploration c17 "All bit patterns of the listed spaces. distinct_nontrivial counts distinct values (at most 2^26 are told apart)." [];
	"C18" Exploration c18 "All two byte dates; four byte date-times of the listed spaces. distinct_nontrivial counts distinct accepted values (at most 2^26 are told apart)." [];
	"C19" Exploration c19 "All three byte times; six byte date-times of the listed spaces. distinct_nontrivial counts distinct accepted values." [];
	"C20" Exploration c20 "Four byte daylight saving rules of the listed spaces. distinct_nontrivial counts distinct accepted values (at most 2^26 are told apart)." [];
	"C21" Model c21 "CI x header x subcode sequences. distinct_nontrivial counts distinct decoded messages." [];
	"C22" Model c22 "CI x header x error code x following bytes. distinct_nontrivial counts distinct decoded errors." ["What the record of a dynamic error decodes to is taken from the code's own record decoder."];
	"C23" Model c23 "All prefixes of the listed frames and strings, offered as partial input. distinct_nontrivial counts distinct packets." [];
	"C24" Exploration c24 "All sequences of contexts up to a depth over an alphabet of kinds, with and without a cause. distinct_nontrivial counts distinct rendered texts." [];
	"C25" Exploration c25 "Every well-formed pattern is expanded by the compiler, as a match pattern and (without wildcards) as a constant; all byte values are matched. distinct_nontrivial counts patterns that match." ["Only the u8 use of the patterns is compiled."];
	"C26" Exploration c26 "Dump files and command lines. distinct_nontrivial counts distinct outcomes." [];
	"C27" Exploration c27 "Threads are stepped instruction by instruction by a controlled scheduler. Between any two instructions of one thread's decode, another thread makes complete decodes; and schedules with the listed turns. distinct_nontrivial counts distinct results." ["A thread is stopped only before instructions of the program, not inside of the C library (allocator, memory copies).", "Sequential consistency: one thread runs at a time."];
	"C28" Exploration c28 "Memory requested by every decode of the spaces of C01; instructions executed by every listed decode; and how both grow when a part of the input is repeated 1, 2, 4 and 8 times as often. distinct_nontrivial counts distinct (function, effort) pairs." ["Effort of instructions is measured in a build with overflow checks and debug assertions.", "Proportional means: at most 2048 bytes of memory and 2000 instructions per byte of input (besides 16 KiB and 50000 instructions); 3 microseconds of processor time per byte for very long inputs; and growth by at most 2.2 times when the growth of the input doubles."];
	"C29" Model c29 "Rejected inputs of the listed spaces: the labels of the error against the part at fault according to the automaton. Cases that are accepted count as outside_property. distinct_nontrivial counts distinct (function, labels) pairs." ["Labels that the property does not list are ignored."];
	"C30" Exploration c30 "Inputs of the listed spaces for every decoder whose input says where it ends: an accepted input is decoded again alone, cut at every position, and with other bytes behind it. distinct_nontrivial counts distinct (function, bytes consumed, first byte)." [];
	"C31" Exploration c31 "All sequences of steps (adding contexts of each kind in each way, conversions, copies, passing through parsers) up to a depth from all kinds of new errors. distinct_nontrivial counts distinct errors." ["Of an error of the parser library with its own kind of contexts only the contexts can be taken over."];
}

// ---------------------------------------------------------------------------------------------
// Material
// ---------------------------------------------------------------------------------------------

pub fn all() -> &'static [u8] {
	static A: OnceLock<Vec<u8>> = OnceLock::new();
	A.get_or_init(|| (0..=255).collect())
}

fn range(n: u8) -> Vec<u8> {
	(0..n).collect()
}

pub fn corpus() -> &'static Vec<(String, Vec<u8>)> {
	static C: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
	C.get_or_init(|| {
		include_str!("corpus.txt")
			.lines()
			.map(|l| {
				let (n, h) = l.split_once(' ').unwrap();
				(n.to_string(), unhex(h))
			})
			.collect()
	})
}

/// Payloads of the corpus' long frames
fn payloads() -> &'static Vec<Vec<u8>> {
	static P: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
	P.get_or_init(|| {
		corpus()
			.iter()
			.filter(|c| c.1.len() > 9 && c.1[0] == 0x68)
			.map(|c| c.1[6..c.1.len() - 2].to_vec())
			.collect()
	})
}

/// Record areas of the corpus' variable data frames
fn bodies() -> Vec<Vec<u8>> {
	payloads()
		.iter()
		.filter(|p| p.len() > 13 && p[0] == 0x72)
		.map(|p| p[13..].to_vec())
		.collect()
}

const SHORT_HEADER: [u8; 4] = [0x2A, 0x00, 0x00, 0x00];
const LONG_HEADER: [u8; 12] = [
	0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00,
];
const LONG_HEADER_2: [u8; 12] = [
	0x99, 0x00, 0x10, 0x99, 0xAE, 0x4C, 0x08, 0x02, 0xFF, 0xFF, 0x34, 0x3F,
];
const SHORT_HEADER_2: [u8; 4] = [0xFF, 0xE7, 0x21, 0x06];

/// CI with a valid header
fn opening(ci: u8, variant: u8) -> Vec<u8> {
	let mut v = vec![ci];
	match (model::ci_kind(ci).map_or(0, |k| k.0), variant) {
		(4, 0) => v.extend(SHORT_HEADER),
		(4, _) => v.extend(SHORT_HEADER_2),
		(12, 0) => v.extend(LONG_HEADER),
		(12, _) => v.extend(LONG_HEADER_2),
		_ => {}
	}
	v
}

fn pattern(kind: u8, n: usize) -> Vec<u8> {
	(0..n)
		.map(|i| match kind {
			0 => 0x00,
			1 => 0x11,
			2 => 0xFF,
			3 => i as u8,
			4 => 0x99,
			5 => 0x2F,
			6 => [0x01, 0x13, 0x2A][i % 3],
			7 => 0x80,
			8 => (255 - i) as u8,
			9 => [0x68, 0x16, 0x10, 0xE5][i % 4],
			10 => (i * 7 + 3) as u8,
			_ => [0x0F, 0x1F][i % 2],
		})
		.collect()
}

fn valid_controls() -> Vec<u8> {
	(0..=255).filter(|c| model::control(*c).is_some()).collect()
}

/// Every value information head: the block with its extension bits clear at the end, its length
fn vib_heads() -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![];
	for c in 0..=0x7Fu8 {
		if c != 0x7C {
			v.push(vec![c]);
		}
		if c != 0x7D {
			v.push(vec![0xFD, c]);
		}
		v.push(vec![0xFB, c]);
		v.push(vec![0xFD, 0xFD, c]);
	}
	v.push(vec![0x7C, 0]);
	v.push(vec![0x7C, 1, b'm']);
	v.push(vec![0x7C, 4, b'%', 0xC2, 0xB0, b'C']);
	v
}

/// The same with an extension byte
fn extended(head: &[u8], vife: &[u8]) -> Vec<u8> {
	let mut v = head.to_vec();
	let at = if v[0] == 0x7C || v[0] == 0xFC { 0 } else { v.len() - 1 };
	v[at] |= 0x80;
	v.extend(vife);
	v
}

/// Bytes of data that are valid for every quantity of that data type
fn width(dif: u8) -> Option<usize> {
	model::Raw::of(dif).and_then(|r| r.width())
}

/// A variety of complete records
fn records() -> &'static Vec<Vec<u8>> {
	static R: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
	R.get_or_init(|| {
		[
			"0013",
			"0113FF",
			"02 6C 8C 11",
			"02 FD 17 00 80",
			"03 13 FF FF FF",
			"04 6D 0B 0B CD 13",
			"04 13 00 00 00 80",
			"04 FD 72 11 11 11 11",
			"05 2B 00 00 C0 7F",
			"06 6D 11 11 11 11 11 11",
			"06 13 00 00 00 00 00 80",
			"07 06 88 77 66 55 44 33 22 11",
			"09 13 99",
			"0A 13 34 F2",
			"0B 13 AB CD EF",
			"0C 78 78 56 34 12",
			"0D 13 03 63 62 61",
			"0D 13 C2 34 12",
			"0D 13 D1 01",
			"0D 13 E2 00 80",
			"0D 13 E9 01 02 03 04 05 06 07 08 09",
			"0D 13 00",
			"0E 13 12 90 78 56 34 F2",
			"84 10 13 01 00 00 00",
			"C4 8F 7F 13 01 00 00 00",
			"81 00 13 2F",
			"01 93 3B 0F",
			"01 93 BB 80 01 1F",
			"01 FD 08 2F",
			"02 FB 1A 11 11",
			"01 FD FD 02 05",
			"01 FC 03 25 52 48 74 2F",
			"01 7C 02 C2 B0 01",
			"11 FF 01 02",
			"21 7F 02",
			"31 7E 02",
			"03 6D 11 11 11",
			"02 6D 11 11",
			"0D 6D 02 2F 0F",
			"41 7B 33",
		]
		.iter()
		.map(|s| unhex(s))
		.collect()
	})
}

/// Pieces that are not records
fn broken() -> Vec<Vec<u8>> {
	[
		"08 13",
		"3F",
		"01",
		"0113",
		"04 6C FF FF FF",
		"02 6C FF FF",
		"81",
		"FF FF FF FF",
		"04 13 01 02 03",
		"0D 13 F7",
		"01 FD 7D 01",
		"01 7C 02 FF FF 01",
		"0D 13 C1 AA",
		"80 80 80 80 80 80 80 80 80 80 80 00 13",
	]
	.iter()
	.map(|s| unhex(s))
	.collect()
}

fn pairs(n: usize) -> Vec<(usize, usize)> {
	let mut v = vec![];
	for i in 0..n {
		for j in i + 1..n {
			v.push((i, j));
		}
	}
	v
}

/// All values of all pairs of positions against backgrounds
fn pairwise(ctx: &Ctx, name: &str, backgrounds: &[Vec<u8>], f: impl Fn(&mut W, &[u8]) + Sync) {
	let n = backgrounds[0].len();
	let ps = pairs(n);
	let size = (ps.len() * backgrounds.len()) as u64 * 65536;
	ctx.par(name, size, |w, i| {
		let (a, b) = (i as u8, (i >> 8) as u8);
		let k = (i >> 16) as usize;
		let (p, q) = ps[k % ps.len()];
		let mut v = std::mem::take(&mut w.scratch);
		v.clear();
		v.extend(&backgrounds[k / ps.len()]);
		v[p] = a;
		v[q] = b;
		f(w, &v);
		w.scratch = v;
	});
}

/// Classes of values of all triples of positions against backgrounds
fn triples(ctx: &Ctx, name: &str, backgrounds: &[Vec<u8>], class: &[u8], f: impl Fn(&mut W, &[u8]) + Sync) {
	let n = backgrounds[0].len();
	let mut ts = vec![];
	for i in 0..n {
		for j in i + 1..n {
			for k in j + 1..n {
				ts.push([i, j, k]);
			}
		}
	}
	let c = class.len();
	ctx.par(name, (ts.len() * backgrounds.len() * c * c * c) as u64, |w, i| {
		let mut i = i as usize;
		let mut next = |n: usize| {
			let v = i % n;
			i /= n;
			v
		};
		let vals = [class[next(c)], class[next(c)], class[next(c)]];
		let at = ts[next(ts.len())];
		let mut v = backgrounds[next(backgrounds.len())].clone();
		for (p, b) in at.iter().zip(vals) {
			v[*p] = b;
		}
		f(w, &v);
	});
}

/// All byte strings of exactly n bytes
fn strings(ctx: &Ctx, name: &str, n: u32, f: impl Fn(&mut W, &[u8]) + Sync) {
	ctx.par(name, 256u64.pow(n), |w, i| {
		let b = i.to_be_bytes();
		f(w, &b[8 - n as usize..]);
	});
}

pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
	parts.concat()
}

/// [tag..] + bytes in the worker's buffer
fn tagged(w: &mut W, e: Entry, tag: &[u8], d: &[u8]) {
	let mut b = std::mem::take(&mut w.buf);
	b.clear();
	b.extend(tag);
	b.extend(d);
	w.case(e, &b);
	w.buf = b;
}

// ---------------------------------------------------------------------------------------------
// Graphs
// ---------------------------------------------------------------------------------------------

/// Plain text lengths that are expanded
fn text_lengths(thorough: bool) -> Vec<u8> {
	if thorough {
		(0..=255).collect()
	} else {
		vec![0, 1, 2, 3, 4, 5, 8, 255]
	}
}

/// Record automaton from the start; letters restricted only where the alphabet of lengths is
fn record_graph(ctx: &Ctx, name: &str, f: impl Fn(&mut W, &Trace) + Sync) {
	let lens = text_lengths(ctx.thorough());
	ctx.graph(
		name,
		vec![(RecG(model::RecM::new()), vec![])],
		10_000,
		|m| match m.0.loc {
			RLoc::Done => vec![],
			RLoc::PlainLen => lens.clone(),
			// within long texts only representatives of every class of bytes
			RLoc::Plain(n) if n > 5 => vec![
				b'a', 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF,
				0xF0, 0xF1, 0xF4, 0xF5, 0xFF,
			],
			RLoc::Data(n) if n > 8 => vec![0x11, 0x00, 0xFF, 0x0F],
			_ => all().to_vec(),
		},
		f,
	);
}

// ---------------------------------------------------------------------------------------------
// C01
// ---------------------------------------------------------------------------------------------

const PACKET: u8 = 0;
const MESSAGE: u8 = 1;
const FRAME: u8 = 2;
const RECORD: u8 = 3;

fn c01(ctx: &Ctx) {
	everything(ctx, Entry::Total);
}

/// All kinds of input for all decoders
fn everything(ctx: &Ctx, e: Entry) {
	let t = |w: &mut W, sub: u8, n: u8, d: &[u8]| tagged(w, e, &[sub, n], d);
	let subs = u64::from(crate::judge::SUBS);

	ctx.par("empty input and one byte", subs * 257, |w, i| {
		let (sub, k) = ((i % subs) as u8, i / subs);
		for n in [0u8, 1, 2, 3, 8, 9, 17, 255] {
			if k == 0 {
				t(w, sub, n, &[]);
			} else {
				t(w, sub, n, &[(k - 1) as u8]);
			}
		}
	});
	strings(ctx, "all strings of 2 bytes, every decoder", 2, |w, d| {
		for sub in 0..subs as u8 {
			for n in [1, 2, 3] {
				t(w, sub, n, d);
			}
		}
	});
	strings(ctx, "all strings of 3 bytes", 3, |w, d| {
		for sub in [PACKET, MESSAGE, FRAME, RECORD, 4, 8, 9] {
			t(w, sub, 0, d);
		}
	});
	if ctx.thorough() {
		strings(ctx, "all strings of 4 bytes as record", 4, |w, d| {
			t(w, RECORD, 0, d);
		});
	} else {
		// every data type, with and without extension
		ctx.par("strings of 4 bytes as record, for every data type", 32 << 24, |w, i| {
			let d = (i >> 24) as u8;
			t(w, RECORD, 0, &[d & 0x0F | (d & 0x10) << 3, i as u8, (i >> 8) as u8, (i >> 16) as u8]);
		});
	}
	strings(ctx, "all payloads of 2 bytes in long frames", 2, |w, d| {
		let f = model::wrap_long(0x08, 1, d);
		t(w, PACKET, 0, &f);
		t(w, 26, 0, &f);
	});
	ctx.par("all structured long frames of 0 to 9 bytes", 10 * 65536, |w, i| {
		// 68 a b 68 c 01 51 s 16, cut
		let (n, a, b) = ((i % 10) as usize, (i / 10) as u8, (i / 2560) as u8);
		for (l1, l2, c) in [(a, b, 0x53), (a, a, b), (3, 3, a)] {
			let f = [0x68, l1, l2, 0x68, c, 1, b, a, 0x16];
			t(w, PACKET, 0, &f[..n.min(9)]);
			t(w, 26, 0, &f[..n.min(9)]);
		}
	});
	ctx.par("length byte x number of bytes present", 256 * 262, |w, i| {
		let (l, n) = ((i % 256) as u8, (i / 256) as usize);
		for (p, c) in [(0, 0x53), (9, 0x08), (2, 0x53)] {
			let mut f = vec![0x68, l, l, 0x68, c, 1];
			f.extend(pattern(p, n));
			t(w, PACKET, 0, &f);
			let sum = f[4..].iter().fold(0u8, |a, b| a.wrapping_add(*b));
			f.extend([sum, 0x16]);
			t(w, PACKET, 0, &f);
			t(w, 26, 0, &f);
		}
	});
	record_graph(ctx, "record automaton", |w, tr| {
		t(w, RECORD, 0, tr.path);
		let mut p = tr.path.to_vec();
		if let Some(s) = &tr.suffix {
			p.extend(s);
		} else {
			p.extend([0; 12]);
		}
		t(w, RECORD, 0, &p);
		p.extend([0x2F, 0x01, 0x13]);
		t(w, FRAME, 0, &p);
		p.push(0x11);
		t(w, FRAME, 0, &p);
		p.splice(0..0, [0x70, 0xF0]);
		t(w, MESSAGE, 0, &p);
	});
	ctx.par("CI x header x body", 256 * 4 * 44, |w, i| {
		let (ci, h, n) = (i as u8, (i / 256 % 4) as u8, (i / 1024) as usize);
		for p in 0..12 {
			let v = match h {
				0 | 1 => cat(&[&opening(ci, h), &pattern(p, n)]),
				2 => cat(&[&[ci], &LONG_HEADER, &pattern(p, n)]),
				_ => cat(&[&[ci], &pattern(p, n)]),
			};
			t(w, MESSAGE, 0, &v);
			if h == 0 {
				t(w, PACKET, 0, &model::wrap_long(0x08, 1, &v));
			}
		}
	});
	ctx.par("CI x configuration field", 256 * 65536, |w, i| {
		let ci = i as u8;
		let (lo, hi) = ((i >> 8) as u8, (i >> 16) as u8);
		let mut v = opening(ci, 0);
		let n = v.len();
		if n > 1 {
			v[n - 2] = lo;
			v[n - 1] = hi;
			v.push(0x2F);
			t(w, MESSAGE, 0, &v);
		}
	});
	ctx.par("variable length x bytes present", 256 * 265, |w, i| {
		let (l, n) = (i as u8, (i / 256) as usize);
		for vib in [&[0x13][..], &[0x6D], &[0xFD, 0x72], &[0xFD, 0x11]] {
			for p in [0, 1, 2, 4, 7, 3] {
				t(w, RECORD, 0, &cat(&[&[0x0D], vib, &[l], &pattern(p, n)]));
			}
		}
	});
	ctx.par("numbers and strings of every width", 256 * 260, |w, i| {
		let (n, have) = (i as u8, (i / 256) as usize);
		for sub in 13..=17 {
			for p in [0, 1, 2, 4, 7] {
				t(w, sub, n, &pattern(p, have));
			}
		}
	});
	let chains: &[usize] = &[1, 9, 10, 11, 12, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 1_000_000];
	ctx.par("long chains", chains.len() as u64, |w, i| {
		let n = chains[i as usize];
		let rep = |b: u8| vec![b; n];
		t(w, RECORD, 0, &rep(0x80));
		t(w, RECORD, 0, &rep(0xFF));
		t(w, 8, 0, &rep(0x81));
		for first in [0x93u8, 0xFF, 0xFC] {
			let v = cat(&[&[0x01, first], if first == 0xFC { &[0] } else { &[] }, &rep(0x80)]);
			t(w, RECORD, 0, &v);
			t(w, RECORD, 0, &cat(&[&v, &[0x00, 0x00]]));
			t(w, 10, 0, &v[2..]);
		}
		for b in [0x2F, 0x0F, 0x1F, 0x00, 0x7F] {
			t(w, FRAME, 0, &rep(b));
			t(w, MESSAGE, 0, &cat(&[&[0x78], &rep(b)]));
			t(w, MESSAGE, 0, &cat(&[&[0x70, 0xF0], &rep(b)]));
			t(w, MESSAGE, 0, &cat(&[&[0x70, 0xFF], &rep(b)]));
			t(w, MESSAGE, 0, &cat(&[&[0x50], &rep(b)]));
			t(w, MESSAGE, 0, &cat(&[&[0xA0], &rep(b)]));
			t(w, PACKET, 0, &rep(b));
			t(w, PACKET, 0, &cat(&[&[0x68, 0xFF, 0xFF, 0x68, 0x53, 0x01], &rep(b)]));
		}
		let recs: Vec<u8> = [0x00, 0x13].repeat(n.min(300_000));
		t(w, FRAME, 0, &recs);
		let recs: Vec<u8> = [0x01, 0x13, 0x2F, 0x2F].repeat(n.min(300_000));
		t(w, FRAME, 0, &recs);
	});
	let ps = payloads();
	let sites: Vec<(usize, usize)> = ps
		.iter()
		.enumerate()
		.flat_map(|(i, p)| (0..p.len()).map(move |k| (i, k)))
		.collect();
	ctx.par("meter data, every byte replaced by every value, and cut", sites.len() as u64, |w, i| {
		let (p, k) = sites[i as usize];
		let mut v = ps[p].clone();
		t(w, MESSAGE, 0, &v[..k]);
		for b in 0..=255u8 {
			v[k] = b;
			t(w, MESSAGE, 0, &v);
		}
	});
	if ctx.thorough() {
		let every: Vec<(usize, usize)> =
			sites.iter().copied().filter(|s| s.0 % 4 == 0 && s.1 + 1 < ps[s.0].len()).collect();
		ctx.par("meter data, every adjacent pair of bytes replaced by classes", every.len() as u64, |w, i| {
			let (p, k) = every[i as usize];
			let mut v = ps[p].clone();
			let class = [
				0x00, 0x01, 0x0D, 0x0F, 0x13, 0x1F, 0x2F, 0x6C, 0x6D, 0x7B, 0x7C, 0x7D, 0x7F, 0x80,
				0x8D, 0xBF, 0xC0, 0xC9, 0xCA, 0xD9, 0xE8, 0xEF, 0xF6, 0xF7, 0xFB, 0xFC, 0xFD, 0xFF,
			];
			for a in class {
				for b in class {
					v[k] = a;
					v[k + 1] = b;
					t(w, MESSAGE, 0, &v);
				}
			}
		});
	}
}

// ---------------------------------------------------------------------------------------------
// C02
// ---------------------------------------------------------------------------------------------

fn c02(ctx: &Ctx) {
	for n in 0..=3 {
		strings(ctx, &format!("all strings of {n} bytes"), n, |w, d| w.case(Entry::Link, d));
	}
	strings(ctx, "short frames: control x address x checksum", 3, |w, d| {
		w.case(Entry::Link, &[0x10, d[0], d[1], d[2], 0x16]);
	});
	strings(ctx, "short frames: start x tail", 2, |w, d| {
		for c in [0x40, 0x53, 0x7B, 0x08, 0x18] {
			for a in [0, 1, 0xFE, 0xFF] {
				let f = [d[0], c, a, c.wrapping_add(a), d[1]];
				w.case(Entry::Link, &f);
				for n in 0..5 {
					w.case(Entry::Link, &f[..n]);
				}
				w.case(Entry::Link, &cat(&[&f, &[d[1]]]));
				w.case(Entry::Link, &cat(&[&f, &f]));
			}
		}
	});
	ctx.par("long frames: every length x every value of the structure bytes", 254 * 256, |w, i| {
		let (l, b) = (2 + (i % 254) as usize, (i / 254) as u8);
		for (ci, p) in [(0x51, 3), (0xA0, 2), (0x00, 0), (0x51, 9)] {
			let mut payload = vec![ci];
			payload.extend(pattern(p, 255));
			payload.truncate(l - 2);
			let f = model::wrap_long(0x08, 0x55, &payload);
			let n = f.len();
			for pos in [0, 1, 2, 3, n - 2, n - 1] {
				let mut g = f.clone();
				g[pos] = b;
				w.case(Entry::Link, &g);
			}
			let mut g = f.clone();
			(g[1], g[2]) = (b, b);
			w.case(Entry::Link, &g);
		}
	});
	ctx.par("long frames: length byte x bytes present", 256 * 260, |w, i| {
		let (l, n) = (i as u8, (i / 256) as usize);
		for p in [0, 3] {
			let mut f = vec![0x68, l, l, 0x68, 0x08, 0x01, 0x51];
			f.extend(pattern(p, 255));
			f.truncate(4 + n);
			let sum = f[4..].iter().fold(0u8, |a, b| a.wrapping_add(*b));
			f.push(sum);
			w.case(Entry::Link, &f);
			f.push(0x16);
			w.case(Entry::Link, &f);
			// a checksum in the announced place
			let at = 4 + usize::from(l);
			if at < f.len() {
				f[at] = f[4..at].iter().fold(0u8, |a, b| a.wrapping_add(*b));
				w.case(Entry::Link, &f);
				if at + 1 < f.len() {
					f[at + 1] = 0x16;
					w.case(Entry::Link, &f);
				}
			}
		}
	});
	ctx.par("long frames: every length x every payload position", 253 * 253, |w, i| {
		let (l, pos) = (3 + (i % 253) as usize, (i / 253) as usize);
		if pos + 2 >= l {
			return;
		}
		for v in [0x01, 0x80, 0xFF] {
			let mut payload = vec![0; l - 2];
			payload[0] = 0x51;
			if pos > 0 {
				payload[pos] = v;
			}
			let mut f = model::wrap_long(0x08, 0x01, &payload);
			w.case(Entry::Link, &f);
			// the checksum without this byte
			let n = f.len();
			f[n - 2] = f[n - 2].wrapping_sub(v);
			w.case(Entry::Link, &f);
		}
	});
	strings(ctx, "long frames: control x address", 2, |w, d| {
		for p in [&[0x51][..], &[0x51, 0xFF, 0x00], &[0xFF], &[0x72], &[]] {
			let mut f = model::wrap_long(d[0], d[1], p);
			w.case(Entry::Link, &f);
			let n = f.len();
			f[n - 2] = f[n - 2].wrapping_sub(d[0]);
			w.case(Entry::Link, &f);
			f[n - 2] = f[n - 2].wrapping_add(d[0]).wrapping_sub(d[1]);
			w.case(Entry::Link, &f);
		}
	});
	strings(ctx, "long frames: control x address x checksum", 3, |w, d| {
		w.case(Entry::Link, &[0x68, 3, 3, 0x68, d[0], d[1], 0x51, d[2], 0x16]);
		w.case(Entry::Link, &[0x68, 4, 4, 0x68, d[0], d[1], 0xB8, 0x95, d[2], 0x16]);
	});
	strings(ctx, "long frames: both length bytes x one more byte", 3, |w, d| {
		w.case(Entry::Link, &[0x68, d[0], d[1], 0x68, 0x08, 1, 0x51, 0x5A, d[2]]);
		w.case(Entry::Link, &[0x68, d[0], d[1], d[2], 0x08, 1, 0x51, 0x5A, 0x16]);
	});
	strings(ctx, "long frames: payload bytes that make up the checksum", 3, |w, d| {
		let sum = 0x59u8.wrapping_add(d[0]).wrapping_add(d[1]);
		w.case(Entry::Link, &[0x68, 5, 5, 0x68, 0x08, 0, 0x51, d[0], d[1], sum.wrapping_add(d[2] % 4), 0x16]);
	});
	let ps = payloads();
	ctx.par("meter frames: payloads decodable or not", ps.len() as u64, |w, i| {
		let p = &ps[i as usize];
		for k in 0..=p.len() {
			w.case(Entry::Link, &model::wrap_long(0x08, 0x01, &p[..k]));
		}
	});
	strings(ctx, "long frames: every payload of 2 bytes", 2, |w, d| {
		w.case(Entry::Link, &model::wrap_long(0x73, 0xFD, d));
	});
	ctx.graph(
		"link layer automaton",
		vec![(LinkG(model::LinkM::new()), vec![])],
		10_000,
		|m| match m.0.loc {
			LLoc::Done => vec![],
			_ => all().to_vec(),
		},
		|w, t| {
			w.case(Entry::Link, t.path);
			if let Some(s) = &t.suffix {
				let mut v = cat(&[t.path, s]);
				w.case(Entry::Link, &v);
				v.push(0x16);
				w.case(Entry::Link, &v);
			} else {
				w.case(Entry::Link, &cat(&[t.path, &[0x16]]));
			}
		},
	);
}

// ---------------------------------------------------------------------------------------------
// C03
// ---------------------------------------------------------------------------------------------

fn damage_all(ctx: &Ctx, name: &str, frames: &[Vec<u8>]) {
	let sites: Vec<(usize, usize)> = frames
		.iter()
		.enumerate()
		.flat_map(|(i, p)| (0..=p.len()).map(move |k| (i, k)))
		.collect();
	ctx.par(name, sites.len() as u64, |w, i| {
		let (f, k) = sites[i as usize];
		let f = &frames[f];
		let (hi, lo) = ((k >> 8) as u8, k as u8);
		for b in 0..=255u8 {
			if k < f.len() && b != f[k] {
				tagged(w, Entry::Damage, &[0, hi, lo, b], f);
			}
			tagged(w, Entry::Damage, &[2, hi, lo, b], f);
		}
		if k < f.len() {
			tagged(w, Entry::Damage, &[1, hi, lo, 0], f);
			tagged(w, Entry::Damage, &[3, hi, lo, 0], f);
		}
	});
}

/// Frames the code has to accept
fn valid_frames(lengths: &[usize], patterns: &[u8]) -> Vec<Vec<u8>> {
	let mut v = vec![];
	for l in lengths {
		for p in patterns {
			for (c, a) in [(0x08, 0x01), (0x73, 0xFE), (0x53, 0x68)] {
				let mut payload = vec![if *p == 9 { 0x10 } else { 0x51 }];
				payload.extend(pattern(*p, l - 3));
				v.push(model::wrap_long(c, a, &payload));
			}
		}
	}
	v
}

fn short_frames(addresses: &[u8]) -> Vec<Vec<u8>> {
	let mut v = vec![vec![0xE5]];
	for c in valid_controls() {
		for a in addresses {
			v.push(vec![0x10, c, *a, c.wrapping_add(*a), 0x16]);
		}
	}
	v
}

fn c03(ctx: &Ctx) {
	let meters: Vec<Vec<u8>> = corpus().iter().map(|c| c.1.clone()).collect();
	damage_all(ctx, "frames of real meters", &meters);
	damage_all(ctx, "short frames and acknowledgement", &short_frames(all()));
	let lengths: Vec<usize> = (3..=255).collect();
	let patterns: &[u8] = ctx.q(&[0, 2, 3, 9, 10][..], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
	damage_all(ctx, "long frames of every kind of length", &valid_frames(&lengths, patterns));
	let mut addressed = vec![];
	for a in 0..=255u8 {
		for c in valid_controls() {
			addressed.push(model::wrap_long(c, a, &[0x51, a]));
		}
	}
	damage_all(ctx, "long frames to every address", &addressed);
	let mut controls = vec![];
	for c in valid_controls() {
		for ci in 0..=255u8 {
			if let Some((_, body)) = model::ci_kind(ci) {
				let mut p = opening(ci, 0);
				if body == model::Body::Selected {
					p.push(0x10);
				}
				controls.push(model::wrap_long(c, 1, &p));
			}
		}
	}
	damage_all(ctx, "long frames of every CI and control", &controls);
	// Bodies in which one byte more or less is still well-formed
	let mut tricky = vec![];
	for p in ["78", "7801131178", "780113117F", "70", "70F5", "7001", "50", "5010", "50101111", "A0", "AF00", "B8", "5C", "66F0", "71", "7100", "780F", "781F", "782F2F", "78001300130013"] {
		for a in [0u8, 1, 0xFF] {
			let mut body = unhex(p);
			for fill in 0..4 {
				tricky.push(model::wrap_long(0x08, a, &body));
				body.push(if fill % 2 == 0 { 0x0F } else { 0x00 });
			}
		}
	}
	damage_all(ctx, "long frames with extensible bodies", &tricky);
}

// ---------------------------------------------------------------------------------------------
// C04
// ---------------------------------------------------------------------------------------------

fn c04(ctx: &Ctx) {
	strings(ctx, "short frames: control x address", 2, |w, d| {
		w.case(Entry::Control, &[0x10, d[0], d[1], d[0].wrapping_add(d[1]), 0x16]);
	});
	strings(ctx, "long frames: control x address", 2, |w, d| {
		w.case(Entry::Control, &model::wrap_long(d[0], d[1], &[0x51]));
		w.case(Entry::Control, &model::wrap_long(d[0], d[1], &[0xA0, d[1], d[0]]));
	});
	ctx.par("long frames: control x payload", 256 * 253, |w, i| {
		let (c, n) = (i as u8, 1 + (i / 256) as usize);
		for p in [0, 2, 3] {
			let mut payload = vec![0x51];
			payload.extend(pattern(p, n - 1));
			w.case(Entry::Control, &model::wrap_long(c, 1, &payload));
		}
	});
	ctx.par("long frames: control x CI", 65536, |w, i| {
		let (c, ci) = (i as u8, (i >> 8) as u8);
		if let Some((_, body)) = model::ci_kind(ci) {
			let mut p = opening(ci, 0);
			if body == model::Body::Selected {
				p.push(0x10);
			}
			w.case(Entry::Control, &model::wrap_long(c, 1, &p));
		}
	});
}

// ---------------------------------------------------------------------------------------------
// C05
// ---------------------------------------------------------------------------------------------

fn c05(ctx: &Ctx) {
	w_empty(ctx, Entry::Message);
	ctx.par("CI x body length x contents", 256 * 254, |w, i| {
		let (ci, n) = (i as u8, (i / 256) as usize);
		for p in 0..12 {
			for h in 0..2 {
				w.case(Entry::Message, &cat(&[&opening(ci, h), &pattern(p, n)]));
			}
		}
		// without regard to the header's form
		w.case(Entry::Message, &cat(&[&[ci], &pattern(3, n)]));
	});
	ctx.par("CI x header cut short", 256 * 13, |w, i| {
		let (ci, n) = (i as u8, (i / 256) as usize);
		for h in [&LONG_HEADER, &LONG_HEADER_2] {
			w.case(Entry::Message, &cat(&[&[ci], &h[..n.min(12)]]));
		}
		for h in [&SHORT_HEADER, &SHORT_HEADER_2] {
			w.case(Entry::Message, &cat(&[&[ci], &h[..n.min(4)]]));
		}
	});
	strings(ctx, "all payloads of 2 bytes", 2, |w, d| w.case(Entry::Message, d));
	ctx.par("CI x all bodies of 2 bytes", 256 * 65536, |w, i| {
		let (ci, a, b) = (i as u8, (i >> 8) as u8, (i >> 16) as u8);
		if model::ci_kind(ci).is_some() {
			let mut v = opening(ci, 0);
			v.extend([a, b]);
			w.case(Entry::Message, &v);
		}
	});
	if ctx.thorough() {
		let some = [0x50u8, 0x54, 0x66, 0x6E, 0x70, 0x78, 0x7A, 0x52];
		ctx.par("structured CIs x all bodies of 3 bytes", some.len() as u64 * (1 << 24), |w, i| {
			let ci = some[(i >> 24) as usize];
			w.case(Entry::Message, &cat(&[&opening(ci, 0), &[i as u8, (i >> 8) as u8, (i >> 16) as u8]]));
		});
	}
	let positions = 240u64;
	ctx.par("CI x body position x value", 256 * positions, |w, i| {
		let (ci, at) = (i as u8, (i / 256) as usize);
		if model::ci_kind(ci).is_none() {
			return;
		}
		let mut v = opening(ci, 1);
		let n = v.len();
		v.extend(pattern(3, positions as usize));
		for b in 0..=255 {
			v[n + at] = b;
			w.case(Entry::Message, &v);
		}
	});
	for n in [1000usize, 70_000] {
		ctx.par(&format!("CI x {n} bytes"), 256, |w, i| {
			for p in [0, 3] {
				w.case(Entry::Message, &cat(&[&opening(i as u8, 0), &pattern(p, n)]));
			}
		});
	}
	let vals = |bg: &[u8], n: usize| {
		let mut v = vec![bg.get(n).copied().unwrap_or(0)];
		v.extend([0x00, 0x01, 0x15, 0x06, 0x1F, 0x41, 0x99, 0xFF]);
		v.dedup();
		v
	};
	ctx.graph(
		"message automaton",
		vec![(ShallowG(model::MsgM::new(), 0), vec![])],
		40,
		|m| match &m.0.loc {
			MLoc::Header(left) => {
				let n = m.0.header_len();
				let bg: &[u8] = if n == 4 { &SHORT_HEADER } else { &LONG_HEADER };
				// one deviation at the last positions is enough: earlier ones are products of C06
				if *left > 3 {
					vec![bg[n - left]]
				} else {
					vals(bg, n - left)
				}
			}
			_ => all().to_vec(),
		},
		|w, t| {
			w.case(Entry::Message, t.path);
			if let Some(s) = &t.suffix {
				w.case(Entry::Message, &cat(&[t.path, s]));
			}
		},
	);
}

fn w_empty(ctx: &Ctx, e: Entry) {
	ctx.par("empty input", 1, |w, _| w.case(e, &[]));
}

// ---------------------------------------------------------------------------------------------
// C06
// ---------------------------------------------------------------------------------------------

fn c06(ctx: &Ctx) {
	let short: Vec<Vec<u8>> = [SHORT_HEADER, SHORT_HEADER_2, [0, 0xFF, 0xFF, 0x1F], [9, 3, 0, 0x0E]]
		.iter()
		.map(|b| cat(&[&[0], b, &[0x5A]]))
		.collect();
	// the first position is the kind
	let with_kind = |kind: u8, v: &[u8]| {
		let mut v = v.to_vec();
		v[0] = kind;
		v
	};
	let strip: Vec<Vec<u8>> = short.iter().map(|s| s[1..5].to_vec()).collect();
	pairwise(ctx, "short header, pairs of bytes", &strip, |w, d| {
		tagged(w, Entry::Header, &[0], &cat(&[d, &[0x5A]]));
		for n in 0..4 {
			tagged(w, Entry::Header, &[0], &d[..n]);
		}
	});
	let mut long: Vec<Vec<u8>> = vec![LONG_HEADER.to_vec(), LONG_HEADER_2.to_vec()];
	long.push(vec![0, 0, 0, 0, 0x21, 0x04, 0, 0, 0, 0, 0, 0]);
	long.push(vec![0x99, 0x99, 0x99, 0x99, 0x5A, 0x6B, 0xFF, 0xFF, 0xFF, 0x03, 0xFF, 0x1F]);
	long.push(vec![0x10, 0x32, 0x54, 0x76, 0x41, 0x84, 0x80, 0x3F, 0x80, 0x80, 0x00, 0x10]);
	pairwise(ctx, "long header, pairs of bytes", &long, |w, d| {
		tagged(w, Entry::Header, &[1], d);
	});
	let classes: &[u8] = &[0x00, 0x01, 0x09, 0x10, 0x42, 0x7F, 0x80, 0x99, 0xA0, 0xF0, 0xFE, 0xFF];
	triples(ctx, "long header, classes of triples of bytes", &long, classes, |w, d| {
		tagged(w, Entry::Header, &[1], d);
	});
	ctx.par("long header cut short or followed by data", 32, |w, i| {
		for h in [LONG_HEADER, LONG_HEADER_2] {
			let v = cat(&[&[1], &h, &pattern(2, 20)]);
			w.case(Entry::Header, &v[..1 + i as usize]);
			w.case(Entry::Header, &with_kind(0, &v[..1 + i as usize]));
		}
	});
	strings(ctx, "status x access number x low bits of the configuration", 3, |w, d| {
		tagged(w, Entry::Header, &[0], &[d[0], d[1], d[2], 0]);
		tagged(w, Entry::Header, &[0], &[0, d[0], d[1], d[2]]);
	});
	let digits: Vec<u8> = vec![
		0x00, 0x01, 0x09, 0x10, 0x19, 0x42, 0x90, 0x99, 0x0A, 0xA0, 0x9F, 0xF9, 0xF0, 0x0F, 0xFF, 0xAA,
		0x12, 0x78,
	];
	ctx.product("identification: byte classes", &[&digits, &digits, &digits, &digits], |w, v| {
		let mut h = LONG_HEADER;
		h[..4].copy_from_slice(v);
		tagged(w, Entry::Header, &[1], &h);
	});
	strings(ctx, "manufacturer x version and type classes", 2, |w, d| {
		for (ver, dev) in [(0, 0), (0xFF, 0xFF), (0x20, 0x0E), (0x40, 0x2A)] {
			let mut h = LONG_HEADER;
			(h[4], h[5], h[6], h[7]) = (d[0], d[1], ver, dev);
			tagged(w, Entry::Header, &[1], &h);
		}
	});
	if ctx.thorough() {
		strings(ctx, "short header, all of access parity x status x configuration", 3, |w, d| {
			for a in [0, 1, 0x7F, 0xFF] {
				tagged(w, Entry::Header, &[0], &[a, d[0], d[1], d[2]]);
			}
		});
		let sys: Vec<u8> = (0..=255).collect();
		ctx.product(
			"type x status x mode",
			&[&sys, &sys, &sys],
			|w, v| {
				let mut h = LONG_HEADER;
				(h[7], h[9], h[11]) = (v[0], v[1], v[2]);
				tagged(w, Entry::Header, &[1], &h);
			},
		);
	}
}

// ---------------------------------------------------------------------------------------------
// C07
// ---------------------------------------------------------------------------------------------

fn c07(ctx: &Ctx) {
	strings(ctx, "every manufacturer field", 2, |w, d| {
		for (id3, v, dev) in [(0, 0, 0), (0x99, 0xFF, 0xFF), (0x30, 0x02, 0x02), (0x10, 0x09, 0x06)] {
			w.case(Entry::Manufacturer, &[d[0], d[1], id3, v, dev]);
		}
	});
	let listed = products::manufacturers();
	let ids: Vec<u8> = if ctx.thorough() {
		all().to_vec()
	} else {
		vec![0x00, 0x02, 0x10, 0x11, 0x19, 0x30, 0x99, 0xFF]
	};
	ctx.par(
		"listed manufacturers x version x type x identification",
		(listed.len() * ids.len()) as u64 * 65536,
		|w, i| {
			let (v, dev) = (i as u8, (i >> 8) as u8);
			let k = (i >> 16) as usize;
			let (m, id) = (listed[k / ids.len()].to_le_bytes(), ids[k % ids.len()]);
			w.case(Entry::Product, &[0x11, 0x22, 0x33, id, m[0], m[1], v, dev]);
		},
	);
	let odd: Vec<u16> = [b"SBC", b"SEO", b"GTE"].iter().map(|c| products::pack(c)).collect();
	ctx.par("manufacturers with the version elsewhere", 3 * 256 * 256, |w, i| {
		let m = odd[(i % 3) as usize].to_le_bytes();
		let (id3, v) = ((i / 3) as u8, (i / 768) as u8);
		for dev in [0x00, 0x02, 0x06, 0x0F, 0xFF] {
			for rest in [[0, 0, 0], [0x99, 0x99, 0x99], [0x30, 0x41, 0x45]] {
				w.case(
					Entry::Product,
					&[rest[0], rest[1], rest[2], id3, m[0], m[1], v, dev],
				);
			}
		}
	});
	let (devs, ids): (Vec<u8>, Vec<u8>) = if ctx.thorough() {
		(vec![0x00, 0x02, 0x04, 0x06, 0x07, 0x0D, 0x0F, 0x16], vec![0x00, 0x11, 0x30, 0x99])
	} else {
		(vec![0x02, 0x06, 0x0F], vec![0x10])
	};
	ctx.par("every manufacturer field x version x type classes", 65536 * 256, |w, i| {
		let (v, lo, hi) = (i as u8, (i >> 8) as u8, (i >> 16) as u8);
		for dev in &devs {
			for id in &ids {
				w.case(Entry::Product, &[0, 0, 0, *id, lo, hi, v, *dev]);
			}
		}
	});
}

// ---------------------------------------------------------------------------------------------
// C08
// ---------------------------------------------------------------------------------------------

fn c08(ctx: &Ctx) {
	let e = Entry::FrameBody;
	for n in 0..=3 {
		strings(ctx, &format!("all bodies of {n} bytes"), n, |w, d| w.case(e, d));
	}
	if ctx.thorough() {
		strings(ctx, "bodies of 4 bytes", 4, |w, d| {
			if matches!(d[0], 0x00 | 0x01 | 0x02 | 0x09 | 0x0D | 0x0F | 0x1F | 0x2F | 0x7F | 0x80 | 0x81) {
				w.case(e, d);
			}
		});
	}
	let mut items: Vec<Vec<u8>> = records().clone();
	for s in ["2F", "2F2F2F", "0F", "1F"] {
		items.push(unhex(s));
	}
	let mut last: Vec<Vec<u8>> = items.clone();
	last.extend(broken());
	let k = items.len() as u64;
	let depth = ctx.q(3, 4);
	for d in 0..=depth {
		ctx.par(
			&format!("all sequences of {d} items and a last one"),
			k.pow(d) * last.len() as u64,
			|w, mut i| {
				let mut v = std::mem::take(&mut w.scratch);
				v.clear();
				let l = (i % last.len() as u64) as usize;
				i /= last.len() as u64;
				for _ in 0..d {
					v.extend(&items[(i % k) as usize]);
					i /= k;
				}
				v.extend(&last[l]);
				w.case(e, &v);
				w.scratch = v;
			},
		);
	}
	ctx.graph(
		"frame automaton",
		vec![(FrameG(model::FrameM::new()), vec![])],
		10_000,
		|m| match m.0.cur.as_ref().map(|r| r.loc) {
			Some(RLoc::PlainLen) => vec![0, 1, 2, 3, 5, 255],
			Some(RLoc::Plain(n)) if n > 3 => vec![b'a', 0x80, 0xC2, 0xE2, 0xF0, 0xFF],
			Some(RLoc::Data(n)) if n > 8 => vec![0x11, 0x0F, 0x1F, 0x2F],
			_ => all().to_vec(),
		},
		|w, t| {
			w.case(e, t.path);
			if let Some(s) = &t.suffix {
				let p = cat(&[t.path, s]);
				w.case(e, &p);
				w.case(e, &cat(&[&p, &[0x2F, 0x01, 0x13, 0x2F, 0x2F]]));
				w.case(e, &cat(&[&p, &[0x1F, 0x2F, 0x0F]]));
				w.case(e, &cat(&[&[0x01, 0x93, 0x01, 0x0F], &p[..], &[0x0F]]));
			}
		},
	);
	let n = ctx.q(600u64, 3000);
	ctx.par("number of records, fillers and trailing bytes", n, |w, i| {
		let n = i as usize;
		for p in [0, 2, 3, 5, 11] {
			for marker in [0x0F, 0x1F] {
				w.case(e, &cat(&[&[marker], &pattern(p, n)]));
				w.case(e, &cat(&[&[0x01, 0x13, 0x05, marker], &pattern(p, n)]));
			}
		}
		let rec = &records()[n % records().len()];
		w.case(e, &rec.repeat(n));
		w.case(e, &cat(&[&[0x2F].repeat(n), rec, &[0x2F].repeat(n)]));
		w.case(e, &cat(&[rec, &[0x2F].repeat(n), rec, &[0x1F, 0x2F]]));
		let mut v = vec![];
		for k in 0..n {
			v.extend(&records()[k % records().len()]);
			v.extend([0x2F].repeat(k % 3));
		}
		w.case(e, &v);
		v.push(0x1F);
		w.case(e, &v);
		v.pop();
		v.push(0x01);
		w.case(e, &v);
	});
	ctx.par("very long bodies", 4, |w, i| {
		let n = [10_000, 65_535, 65_536, 200_000][i as usize];
		w.case(e, &[0x00, 0x13].repeat(n));
		w.case(e, &[0x2F].repeat(n));
		w.case(e, &cat(&[&[0x1F], &pattern(3, n)]));
		w.case(e, &cat(&[&[0x0F], &pattern(5, n)]));
	});
	strings(ctx, "every pair of trailing bytes", 2, |w, d| {
		for m in [0x0F, 0x1F] {
			w.case(e, &cat(&[&[0x01, 0x13, 0x05, m], d]));
			w.case(e, &cat(&[&[0x2F, m], d, &[0x2F, d[0]]]));
		}
	});
	let bs = bodies();
	ctx.par("bodies of real meters, cut and with a marker or filler put in", bs.len() as u64, |w, i| {
		let b = &bs[i as usize];
		for k in 0..=b.len() {
			w.case(e, &b[..k]);
			for x in [0x2F, 0x0F, 0x1F, 0x00, 0x3F] {
				w.case(e, &cat(&[&b[..k], &[x], &b[k..]]));
			}
		}
	});
}

// ---------------------------------------------------------------------------------------------
// C09
// ---------------------------------------------------------------------------------------------

fn calls(thorough: bool) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![];
	let mut add = |sub: u8, n: u8, d: &[u8]| {
		let mut c = vec![sub, n];
		c.extend(d);
		v.push(c);
	};
	add(0, 0, &[0xE5]);
	add(0, 0, &[]);
	add(0, 0, &[0x10, 0x7B, 0x01, 0x7C, 0x16]);
	add(0, 0, &[0x10, 0x40, 0x01, 0x41, 0x16]);
	add(0, 0, &[0x10, 0x40, 0x01, 0x42, 0x16]);
	add(0, 0, &[0x10, 0x02, 0x01, 0x03, 0x16]);
	add(0, 0, &model::wrap_long(0x08, 0x01, &[0x70, 0x08]));
	add(0, 0, &model::wrap_long(0x08, 0x01, &cat(&[&opening(0x72, 0), &unhex("0113FF046D0B0BCD130DFD1102C1C21F2F")])));
	add(0, 0, &model::wrap_long(0x18, 0x02, &cat(&[&opening(0x72, 1), &unhex("02FD17008001FC0325524874 2F 0C78785634 12")])));
	add(0, 0, &model::wrap_long(0x73, 0xFE, &[0x50, 0x10, 0x01]));
	add(0, 0, &model::wrap_long(0x73, 0xFE, &[0x51, 0x01, 0x13]));
	add(0, 0, &[0x68, 1, 1, 0x68, 0, 0, 0, 0x16]);
	add(1, 0, &cat(&[&opening(0x7A, 0), &unhex("0B13ABCDEF")]));
	add(1, 0, &cat(&[&opening(0x75, 0), &[1, 2, 3]]));
	add(1, 0, &cat(&[&[0x72], &[0xAA; 12]]));
	add(1, 0, &[0x20]);
	add(1, 0, &[0xBB]);
	add(2, 0, &unhex("0113FF2F02FD1700801F0102"));
	add(2, 0, &unhex("0113FF2F02FD17008013"));
	add(3, 0, &unhex("81828384048D0113FF"));
	add(3, 0, &unhex("8080808080808080808080001301"));
	add(3, 0, &unhex("0193BB8001FF"));
	add(3, 0, &unhex("046DFFFFFFFF"));
	add(3, 0, &unhex("0D1303636261"));
	add(3, 0, &unhex("0D13F7"));
	add(6, 0, &SHORT_HEADER_2);
	add(15, 3, &[0xAB, 0xCD, 0xEF]);
	if thorough {
		for r in records() {
			add(3, 0, r);
		}
		add(13, 3, &[0x80, 0x81, 0xFF]);
		add(14, 4, &[0x12, 0x34, 0x56, 0xF1]);
		add(16, 6, &[0, 0, 0, 0, 0, 0x80]);
		add(17, 3, &[0, 0, 0x80]);
		add(7, 0, &LONG_HEADER);
		add(7, 0, &LONG_HEADER_2);
		add(23, 0, &[0x11; 4]);
	}
	v
}

/// Calls that are varied: every kind of record, header, message and packet
fn bases() -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![];
	let mut add = |sub: u8, d: &[u8]| v.push(cat(&[&[sub, 0], d]));
	for r in records().iter().chain(&broken()) {
		add(3, r);
	}
	for h in [&LONG_HEADER, &LONG_HEADER_2] {
		add(7, h);
	}
	for (m, version, device) in crate::products::examples() {
		let m = m.to_le_bytes();
		add(7, &[version, 0x00, 0x10, version, m[0], m[1], version, device, 0x55, 0, 0, 0]);
	}
	add(6, &SHORT_HEADER);
	add(6, &SHORT_HEADER_2);
	for d in [&[][..], &[0x10], &[0x1F, 0x02, 0x0A], &[0xFF, 0xFF], &[0x01; 10]] {
		add(5, d);
	}
	for d in [&[][..], &[0x08], &[0xF0, 0x01, 0x13, 0x05], &[0xF3, 1, 2, 3], &[0x07]] {
		add(4, d);
	}
	for ci in [0x72, 0x7A, 0x78] {
		for b in ["0113FF2F02FD1700801F0102", "01 93 BB 80 01 2F 0D 13 03 63 62 61 0F FF", "41 7B 33 81 00 13 01"] {
			add(1, &cat(&[&opening(ci, 0), &unhex(b)]));
		}
	}
	for ci in [0x00, 0x50, 0x53, 0x5A, 0x66, 0x6F, 0x75, 0x90, 0xA5, 0xBC, 0xC4, 0x5C, 0x52, 0x81, 0x69] {
		add(1, &cat(&[&opening(ci, 1), &[0x01, 0x02, 0x03]]));
	}
	add(0, &[0xE5]);
	add(0, &[0x10, 0x7B, 0x01, 0x7C, 0x16]);
	add(0, &model::wrap_long(0x08, 0x01, &[0x70, 0x08]));
	add(0, &model::wrap_long(0x18, 0x02, &cat(&[&opening(0x72, 1), &unhex("02FD17008001FC0325524874 2F")])));
	v
}

fn c09(ctx: &Ctx) {
	let c = calls(ctx.thorough());
	for item in &c {
		crate::judge::baseline(item);
	}
	let k = c.len() as u64;
	ctx.note(format!("alphabet of {k} calls"));
	for depth in 1..=4u32 {
		// with the larger alphabet one step less
		if depth == 4 && ctx.thorough() {
			break;
		}
		ctx.par(&format!("all sequences of {depth} calls"), k.pow(depth), |w, mut i| {
			let mut v = std::mem::take(&mut w.scratch);
			v.clear();
			for _ in 0..depth {
				push_item(&mut v, &c[(i % k) as usize]);
				i /= k;
			}
			w.case(Entry::History, &v);
			w.scratch = v;
		});
	}
	ctx.par("repetitions of one call", k, |w, i| {
		let mut v = vec![];
		for _ in 0..ctx.q(20_000, 70_000) {
			push_item(&mut v, &c[i as usize]);
		}
		w.case(Entry::History, &v);
	});
	ctx.par("one call after many others", k * k, |w, i| {
		let mut v = vec![];
		for _ in 0..ctx.q(300, 1000) {
			push_item(&mut v, &c[(i % k) as usize]);
		}
		push_item(&mut v, &c[(i / k) as usize]);
		w.case(Entry::History, &v);
	});
	let x = bases();
	let k = x.len() as u64;
	ctx.note(format!("{k} inputs that are varied"));
	ctx.par("all pairs of inputs", k * k, |w, i| {
		let mut v = vec![];
		push_item(&mut v, &x[(i / k) as usize]);
		push_item(&mut v, &x[(i % k) as usize]);
		w.case(Entry::History, &v);
	});
	if ctx.thorough() {
		ctx.par("all triples of inputs", k * k * k, |w, i| {
			let mut v = std::mem::take(&mut w.scratch);
			v.clear();
			for i in [i / k / k, i / k % k, i % k] {
				push_item(&mut v, &x[i as usize]);
			}
			w.case(Entry::History, &v);
			w.scratch = v;
		});
	}
	ctx.par("an input cut short before another", k * k, |w, i| {
		let (a, b) = (&x[(i / k) as usize], &x[(i % k) as usize]);
		for n in 2..a.len() {
			let mut v = vec![];
			push_item(&mut v, &a[..n]);
			push_item(&mut v, b);
			w.case(Entry::History, &v);
		}
	});
	// A result that is remembered for an input that differs in one byte, and one that is remembered for
	// the changed input
	let mut at = vec![];
	for (i, b) in x.iter().enumerate() {
		for p in 2..b.len().min(ctx.q(18, 40)) {
			at.push((i, p));
		}
	}
	ctx.par("an input next to itself with one byte replaced", at.len() as u64 * 256, |w, i| {
		let (n, p) = at[(i >> 8) as usize];
		let mut changed = x[n].clone();
		changed[p] = i as u8;
		let mut v = vec![];
		for item in [&x[n], &changed, &x[n]] {
			push_item(&mut v, item);
		}
		w.case(Entry::History, &v);
	});
	let mut items: Vec<Vec<u8>> = records().clone();
	for s in ["2F", "2F2F2F"] {
		items.push(unhex(s));
	}
	let k = items.len() as u64;
	for depth in 1..=ctx.q(4u32, 5) {
		if depth == 5 && k.pow(5) > 1 << 28 {
			ctx.note("depth 5 of records left out");
			break;
		}
		ctx.par(&format!("all sequences of {depth} records in a frame"), k.pow(depth), |w, mut i| {
			let mut v = std::mem::take(&mut w.scratch);
			v.clear();
			for _ in 0..depth {
				push_item(&mut v, &items[(i % k) as usize]);
				i /= k;
			}
			w.case(Entry::FrameItems, &v);
			w.scratch = v;
		});
	}
	// Every kind of record next to a few others
	let heads = vib_heads();
	ctx.par("every record type around a record", heads.len() as u64 * 16, |w, i| {
		let (h, dif) = (&heads[(i / 16) as usize], (i % 16) as u8);
		let Some(n) = width(dif) else { return };
		let rec = cat(&[&[dif], h, &vec![0x11; n]]);
		for other in [&records()[1], &records()[5], &records()[13], &records()[27], &records()[31]] {
			let mut v = vec![];
			push_item(&mut v, other);
			push_item(&mut v, &rec);
			push_item(&mut v, other);
			push_item(&mut v, &[0x2F]);
			push_item(&mut v, &rec);
			w.case(Entry::FrameItems, &v);
		}
	});
}

// ---------------------------------------------------------------------------------------------
// C10
// ---------------------------------------------------------------------------------------------

fn c10(ctx: &Ctx) {
	let e = Entry::Dib;
	for n in 0..=2 {
		strings(ctx, &format!("all strings of {n} bytes"), n, |w, d| {
			w.case(e, d);
			w.case(e, &cat(&[d, &[0x13, 0x01]]));
		});
	}
	strings(ctx, "all strings of 3 bytes", 3, |w, d| w.case(e, d));
	// the function does not depend on the data type: the types in the thorough tier
	ctx.par("strings of 4 bytes by classes of DIFs", 6 << 24, |w, i| {
		let dif = [0x80u8, 0xC4, 0xB1, 0xDD, 0x8F, 0xE8][(i >> 24) as usize];
		w.case(e, &[dif, i as u8, (i >> 8) as u8, (i >> 16) as u8]);
	});
	if ctx.beyond() {
		ctx.par("all strings of 4 bytes with extension", 128 << 24, |w, i| {
			w.case(e, &[0x80 | (i >> 24) as u8, i as u8, (i >> 8) as u8, (i >> 16) as u8]);
		});
	}
	ctx.par("DIF x number of extensions x final byte", 256 * 14 * 256, |w, i| {
		let (dif, last, n) = (i as u8, (i >> 8) as u8, (i >> 16) as usize);
		for bg in [0x80, 0xFF, 0x81, 0xC0] {
			let v = cat(&[&[dif | 0x80], &vec![bg; n], &[last], &[0x13, 0x2A, 0x05]]);
			w.case(e, &v);
			w.case(e, &v[..n + 1]);
		}
	});
	for n in [2usize, 5, 9, 10, 11] {
		let mut bgs: Vec<Vec<u8>> = vec![];
		for bg in [0x80u8, 0xFF, 0x96] {
			let mut v = vec![bg; n];
			v[n - 1] &= 0x7F;
			v.insert(0, 0x84);
			bgs.push(v);
		}
		pairwise(ctx, &format!("{n} extensions, pairs of bytes"), &bgs, |w, d| {
			w.case(e, &cat(&[d, &[0x13, 0x00]]));
		});
	}
	let letters = [0x80u8, 0x81, 0x88, 0x90, 0xA0, 0xC0, 0xFF];
	let ends = [0x00u8, 0x01, 0x08, 0x10, 0x20, 0x40, 0x7F];
	for n in 1..=ctx.q(6u32, 8) {
		let k = 7u64;
		ctx.par(&format!("all chains of {n} representative extensions"), k.pow(n), |w, mut i| {
			let mut v = vec![0xC4];
			for p in 0..n {
				let l = (i % k) as usize;
				v.push(if p + 1 == n { ends[l] } else { letters[l] });
				i /= k;
			}
			v.extend([0x13, 0x80]);
			w.case(e, &v);
		});
	}
	let two = [0x80u8, 0xFF];
	ctx.par("chains of 10 with every subset of full extensions", 1 << 11, |w, i| {
		for last in [0x00, 0x7F, 0x55] {
			for dif in [0x80, 0xC7, 0xFD] {
				let mut v = vec![dif];
				for p in 0..9 {
					v.push(two[(i >> p & 1) as usize]);
				}
				v.push(last);
				w.case(e, &v);
				let mut x = v.clone();
				x[10] |= 0x80;
				x.push(last);
				w.case(e, &x);
			}
		}
	});
	ctx.graph(
		"data information automaton",
		vec![(RecG(model::RecM::new()), vec![])],
		13,
		|m| match m.0.loc {
			RLoc::Dif | RLoc::Dife | RLoc::Vif => all().to_vec(),
			_ => vec![],
		},
		|w, t| w.case(e, t.path),
	);
}

// ---------------------------------------------------------------------------------------------
// C11, C12
// ---------------------------------------------------------------------------------------------

fn c11(ctx: &Ctx) {
	let e = Entry::VibQuantity;
	w_empty(ctx, e);
	strings(ctx, "all strings of 1 byte", 1, |w, d| w.case(e, d));
	strings(ctx, "all strings of 2 bytes", 2, |w, d| {
		w.case(e, d);
		w.case(e, &cat(&[d, &[0x80, 0x01, 0x00]]));
	});
	strings(ctx, "all triples of bytes", 3, |w, d| {
		w.case(e, &cat(&[d, &[0x7F, 0x01, 0x00]]));
	});
	let heads = vib_heads();
	ctx.par("every code x every first extension", heads.len() as u64 * 256, |w, i| {
		let h = &heads[(i / 256) as usize];
		let b = i as u8;
		w.case(e, &extended(h, &[b, 0x80, 0x05]));
		w.case(e, &extended(h, &[b | 0x80, b]));
		w.case(e, &extended(h, &[b | 0x80, b & 0x7F]));
	});
	ctx.par("every code after every data type", heads.len() as u64 * 16, |w, i| {
		let h = &heads[(i / 16) as usize];
		let dif = (i % 16) as u8;
		for hh in [h.clone(), extended(h, &[0x3B]), extended(h, &[0xFD, 0x01])] {
			let mut v = cat(&[&[dif], &hh]);
			match width(dif) {
				Some(n) => v.extend(vec![0x11; n]),
				None => v.extend([0xE2, 0x11, 0x11]),
			}
			w.case(Entry::RecordQuantity, &v);
		}
	});
}

fn c12(ctx: &Ctx) {
	let e = Entry::VibExtent;
	w_empty(ctx, e);
	for n in 1..=2 {
		strings(ctx, &format!("all strings of {n} bytes"), n, |w, d| {
			w.case(e, d);
			w.case(e, &cat(&[d, &[0x80, 0x01, 0x00]]));
		});
	}
	strings(ctx, "all strings of 3 bytes", 3, |w, d| w.case(e, d));
	ctx.par("strings of 4 bytes by classes of VIFs", 8 << 24, |w, i| {
		let vif = [0x93u8, 0xFB, 0xFC, 0x7C, 0xFD, 0xFE, 0xFF, 0xEF][(i >> 24) as usize];
		w.case(e, &[vif, i as u8, (i >> 8) as u8, (i >> 16) as u8]);
	});
	if ctx.beyond() {
		ctx.par("all strings of 4 bytes with extension", 128 << 24, |w, i| {
			w.case(e, &[0x80 | (i >> 24) as u8, i as u8, (i >> 8) as u8, (i >> 16) as u8]);
		});
	}
	let heads = vib_heads();
	let mut lens: Vec<usize> = (0..=ctx.q(300, 1100)).collect();
	lens.extend([1000, 2047, 4096, 65_535, 65_536, 65_537]);
	ctx.par("number of extensions", lens.len() as u64, |w, i| {
		let n = lens[i as usize];
		for h in [&heads[0][..], &[0x7F], &[0x7E], &[0xFD, 0x17], &[0xFB, 0x01], &[0xFD, 0xFD, 0x02], &[0x7C, 0x00], &[0x7C, 0x02, 0xC3, 0xA9], &[0x7B], &[0x7A]] {
			for p in [0u8, 3, 2] {
				let mut chain: Vec<u8> = pattern(p, n).iter().map(|b| b | 0x80).collect();
				if let Some(l) = chain.last_mut() {
					*l &= 0x7F;
				}
				if n == 0 {
					w.case(e, h);
					w.case(e, &cat(&[h, &[0x05]]));
				} else {
					w.case(e, &extended(h, &chain));
					w.case(e, &extended(h, &cat(&[&chain, &[0x81, 0x00]])));
					w.case(e, &extended(h, &chain[..n - 1]));
				}
			}
		}
	});
	ctx.par("every code with extensions", heads.len() as u64 * 256, |w, i| {
		let h = &heads[(i / 256) as usize];
		let b = i as u8;
		w.case(e, &extended(h, &[b, 0x80, 0x05]));
		w.case(e, &extended(h, &[0x80, b, 0x7F, 0x00]));
		w.case(e, &cat(&[h, &[b]]));
	});
	strings(ctx, "every pair of extension bytes", 2, |w, d| {
		for h in [&[0x13][..], &[0xFD, 0x17], &[0x7C, 0x01, b'x']] {
			w.case(e, &extended(h, &cat(&[d, &[0x81, 0x00]])));
			w.case(e, &extended(h, &cat(&[&[0x80; 9], d, &[0x81, 0x00]])));
		}
	});
	strings(ctx, "plain texts of 3 bytes", 3, |w, d| {
		w.case(e, &cat(&[&[0x7C, 3], d]));
	});
	strings(ctx, "plain texts of 2 bytes, and extensions", 2, |w, d| {
		w.case(e, &cat(&[&[0x7C, 2], d]));
		w.case(e, &cat(&[&[0xFC, 2], d, &[0x81, 0x01]]));
		w.case(e, &cat(&[&[0xFC, 1], d, &[0x01]]));
		w.case(e, &cat(&[&[0x7C, 4, b'a'], d, b"b"]));
	});
	let classes = [
		0x00u8, b'a', 0x7F, 0x80, 0x82, 0x8F, 0x90, 0x9F, 0xA0, 0xAC, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xDF,
		0xE0, 0xE1, 0xE2, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF,
	];
	let c: &[u8] = &classes;
	ctx.product("plain texts of 4 bytes by classes", &[c, c, c, c], |w, v| {
		w.case(e, &cat(&[&[0x7C, 4], v, &[0x01]]));
	});
	if ctx.thorough() {
		ctx.product("plain texts of 5 bytes by classes", &[c, c, c, c, c], |w, v| {
			w.case(e, &cat(&[&[0xFC, 5], v, &[0x01]]));
		});
	}
	ctx.par("plain text length x bytes present", 256 * 260, |w, i| {
		let (l, n) = (i as u8, (i / 256) as usize);
		let mut text: Vec<u8> = (0..n).map(|k| b'0' + (k % 75) as u8).collect();
		w.case(e, &cat(&[&[0x7C, l], &text]));
		w.case(e, &cat(&[&[0xFC, l], &text, &[0x05]]));
		// accented letters throughout
		for (k, b) in text.iter_mut().enumerate() {
			*b = [0xC3, 0xA9][k % 2];
		}
		w.case(e, &cat(&[&[0x7C, l], &text]));
		w.case(e, &cat(&[&[0xFC, l], &text, &[0x85, 0x05]]));
	});
	record_graph(ctx, "value information automaton", |w, t| {
		// the record with data type 00 only: what follows the DIF is the block
		if t.path[0] == 0 {
			w.case(e, &t.path[1..]);
			if let Some(s) = &t.suffix {
				let p = cat(&[&t.path[1..], s]);
				w.case(e, &p);
				w.case(e, &cat(&[&p, &[0x80, 0x05]]));
			}
		}
	});
}

// ---------------------------------------------------------------------------------------------
// C13
// ---------------------------------------------------------------------------------------------

fn c13(ctx: &Ctx) {
	let e = Entry::RecordExtent;
	let heads = vib_heads();
	let types: Vec<u8> = (0..32).map(|d| d & 0x0F | (d & 0x10) << 3).collect();
	ctx.par("strings of 4 bytes for every data type by classes", 32 * 16 << 16, |w, i| {
		let class = [0x00u8, 0x13, 0x6C, 0x6D, 0x7B, 0x7C, 0x7D, 0x7F, 0x80, 0x93, 0xED, 0xFB, 0xFC, 0xFD, 0xFF, 0xF2];
		let (d, v) = (types[(i >> 20) as usize], class[(i >> 16) as usize & 15]);
		w.case(e, &[d, v, i as u8, (i >> 8) as u8]);
	});
	if ctx.beyond() {
		ctx.par("all strings of 4 bytes for every data type", 32 << 24, |w, i| {
			w.case(e, &[types[(i >> 24) as usize], i as u8, (i >> 8) as u8, (i >> 16) as u8]);
		});
	}
	ctx.par("data type x quantity x bytes present", heads.len() as u64 * 256, |w, i| {
		let h = &heads[(i / 256) as usize];
		let dif = i as u8 & 0x7F;
		let ext = i as u8 & 0x80 != 0;
		let vib = if ext { extended(h, &[0xBB, 0x3C]) } else { h.clone() };
		let lead = cat(&[&[dif], &vib]);
		let n = width(dif).unwrap_or(0);
		for fill in [0x11u8, 0x00, 0xFF, 0x2F] {
			for have in (0..=n + 2).chain([n + 20]) {
				w.case(e, &cat(&[&lead, &vec![fill; have]]));
			}
		}
		if dif & 15 == 13 {
			for l in [0x00, 0x01, 0x05, 0xC0, 0xC1, 0xC9, 0xD1, 0xE0, 0xE1, 0xE4, 0xE8, 0xE9, 0xF0, 0xF6, 0xF7, 0xFF] {
				for have in [0, 1, 4, 8, 9, 16, 64, 65] {
					w.case(e, &cat(&[&lead, &[l], &vec![0x11; have]]));
				}
			}
		} else if let (Some(n), 0x00..=0x7F) = (width(dif), h[0]) {
			// as the first of two records in a frame
			let mut v = vec![];
			push_item(&mut v, &cat(&[&lead, &vec![0x11; n]]));
			push_item(&mut v, &[0x01, 0x13, 0x42]);
			w.case(Entry::FrameItems, &v);
		}
	});
	ctx.par("variable length x bytes present x quantity", 256 * 262, |w, i| {
		let (l, have) = (i as u8, (i / 256) as usize);
		for vib in [&[0x13][..], &[0x6C], &[0x6D], &[0xFD, 0x72], &[0xFD, 0x11], &[0x93, 0x01], &[0x7C, 1, b'x']] {
			for fill in [0x11, 0x00] {
				w.case(e, &cat(&[&[0x0D], vib, &[l], &vec![fill; have]]));
			}
		}
	});
	ctx.par("extensions before the data", 256 * 12, |w, i| {
		let (dif, n) = (i as u8 | 0x80, (i / 256) as usize);
		for vib in [&[0x13][..], &[0x6C], &[0x6D], &[0xFD, 0x72]] {
			let wd = width(dif).unwrap_or(2);
			let mut v = cat(&[&[dif], &vec![0x81; n], &[0x01], vib]);
			if dif & 15 == 13 {
				v.push(0x02);
			}
			let at = v.len();
			v.extend(vec![0x11; wd + 3]);
			for k in at..v.len() {
				w.case(e, &v[..k]);
			}
		}
	});
	record_graph(ctx, "record automaton", |w, t| {
		w.case(e, t.path);
		if let Some(s) = &t.suffix {
			let p = cat(&[t.path, s]);
			w.case(e, &p);
			w.case(e, &cat(&[&p, &[0x11, 0x2F]]));
			if !s.is_empty() {
				w.case(e, &p[..p.len() - 1]);
			}
		} else if t.alive {
			w.case(e, &cat(&[t.path, &[0x11; 9]]));
		} else {
			w.case(e, &cat(&[t.path, &[0x01; 12]]));
		}
	});
}

// ---------------------------------------------------------------------------------------------
// C14 - C17
// ---------------------------------------------------------------------------------------------

fn c14(ctx: &Ctx) {
	let e = Entry::Int;
	ctx.par("width x bytes present", 9 * 12, |w, i| {
		let (n, have) = ((i % 9) as u8, (i / 9) as usize);
		for p in 0..11 {
			tagged(w, e, &[n], &pattern(p, have));
		}
	});
	for n in 1..=3u32 {
		strings(ctx, &format!("all values of {n} bytes"), n, |w, d| {
			tagged(w, e, &[n as u8], d);
		});
	}
	strings(ctx, "all values of 4 bytes", 4, |w, d| tagged(w, e, &[4], d));
	if ctx.thorough() {
		strings(ctx, "all values of 4 bytes in signed records", 4, |w, d| tagged(w, Entry::RecordData, &[0x04, 0x13], d));
		strings(ctx, "all values of 4 bytes in unsigned records", 4, |w, d| tagged(w, Entry::RecordData, &[0x04, 0xFD, 0x08], d));
	}
	let small: &[u8] = &[0x00, 0x01, 0x7F, 0x80, 0x81, 0xFE, 0xFF];
	for n in 4..=8usize {
		let a: Vec<&[u8]> = vec![small; n];
		ctx.product(&format!("{n} bytes, boundary bytes"), &a, |w, v| {
			tagged(w, e, &[n as u8], v);
		});
	}
	for n in 4..=8usize {
		let bgs: Vec<Vec<u8>> = ctx
			.q(&[0x00u8, 0xFF][..], &[0x00, 0xFF, 0x7F, 0x80, 0x55])
			.iter()
			.map(|b| vec![*b; n])
			.collect();
		pairwise(ctx, &format!("{n} bytes, all values of pairs of bytes"), &bgs, |w, v| {
			tagged(w, e, &[n as u8], v);
		});
	}
	let class: Vec<u8> = (0..8).flat_map(|k| [1u8 << k, (1u16 << k).wrapping_sub(1) as u8, !(1u8 << k), !((1u16 << k) as u8).wrapping_sub(1)]).chain([0, 0xFF, 0x55]).collect();
	let class: Vec<u8> = class.into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
	for n in 5..=8usize {
		let bgs: Vec<Vec<u8>> = [0x00u8, 0xFF].iter().map(|b| vec![*b; n]).collect();
		triples(ctx, &format!("{n} bytes, classes of triples of bytes"), &bgs, &class, |w, v| {
			tagged(w, e, &[n as u8], v);
		});
	}
	let heads = vib_heads();
	let types: Vec<Vec<u8>> = [0x00u8, 0x01, 0x02, 0x03, 0x04, 0x06, 0x07]
		.iter()
		.map(|d| vec![*d])
		.chain((0xE0..=0xE8).map(|l| vec![0x0D, l]))
		.collect();
	ctx.par("every quantity x width", (heads.len() * types.len()) as u64, |w, i| {
		let h = &heads[i as usize / types.len()];
		let ty = &types[i as usize % types.len()];
		let n = if ty[0] == 0x0D {
			usize::from(ty[1] - 0xE0)
		} else {
			width(ty[0]).unwrap()
		};
		for vib in [h.clone(), extended(h, &[0x3B]), extended(h, &[0xFC, 0x01])] {
			let lead = if ty[0] == 0x0D {
				cat(&[&[0x0D], &vib, &[ty[1]]])
			} else {
				cat(&[&[ty[0]], &vib])
			};
			let mut values: Vec<Vec<u8>> = [0x00u8, 0x01, 0x7F, 0x80, 0xFF, 0x11]
				.iter()
				.map(|b| vec![*b; n])
				.collect();
			for p in 0..n {
				for b in [0x01, 0x80, 0xFF] {
					let mut v = vec![0; n];
					v[p] = b;
					values.push(v);
				}
			}
			for v in values {
				let mut r = cat(&[&lead, &v]);
				w.case(Entry::RecordInt, &r);
				r.push(0xFF);
				w.case(Entry::RecordInt, &r);
				if n > 0 {
					r.truncate(r.len() - 2);
					w.case(Entry::RecordInt, &r);
				}
			}
		}
	});
}

fn c15(ctx: &Ctx) {
	let e = Entry::Bcd;
	ctx.par("width x bytes present", 10 * 12, |w, i| {
		let (n, have) = ((i % 10) as u8, (i / 10) as usize);
		for p in 0..11 {
			tagged(w, e, &[n], &pattern(p, have));
		}
	});
	for n in 1..=3u32 {
		strings(ctx, &format!("all values of {n} bytes"), n, |w, d| {
			tagged(w, e, &[n as u8], d);
			tagged(w, e, &[n as u8], &cat(&[d, &[0x99]]));
			let dif = [0x09, 0x0A, 0x0B][n as usize - 1];
			tagged(w, Entry::RecordData, &[dif, 0x13], d);
		});
	}
	if ctx.thorough() {
		strings(ctx, "all values of 4 bytes", 4, |w, d| tagged(w, e, &[4], d));
	}
	let classes: &[u8] = &[
		0x00, 0x01, 0x09, 0x10, 0x90, 0x99, 0x42, 0x0A, 0xA0, 0x0F, 0xF0, 0xF9, 0x9F, 0xFF,
	];
	for n in 4..=ctx.q(5usize, 6) {
		let a: Vec<&[u8]> = vec![classes; n];
		ctx.product(&format!("{n} bytes by classes"), &a, |w, v| tagged(w, e, &[n as u8], v));
	}
	let few: &[u8] = &[0x00, 0x99, 0x1A, 0xF5];
	for n in [6usize, 7, 8, 9] {
		let a: Vec<&[u8]> = vec![few; n];
		ctx.product(&format!("{n} bytes by few classes"), &a, |w, v| {
			tagged(w, e, &[n as u8], v);
		});
	}
	for n in 4..=9usize {
		let bgs: Vec<Vec<u8>> = ctx
			.q(&[0x00u8, 0x99][..], &[0x00, 0x99, 0x15, 0xF1])
			.iter()
			.map(|b| vec![*b; n])
			.collect();
		pairwise(ctx, &format!("{n} bytes, all values of pairs of bytes"), &bgs, |w, v| {
			tagged(w, e, &[n as u8], v);
		});
	}
	let class: Vec<u8> = (0..10u8).flat_map(|k| [k << 4 | (9 - k), k << 4, k]).chain([0x99, 0x0A, 0xA0, 0xF0, 0x0F, 0xFF, 0xF9]).collect();
	let class: Vec<u8> = class.into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
	for n in 5..=9usize {
		let bgs: Vec<Vec<u8>> = [0x00u8, 0x99].iter().map(|b| vec![*b; n]).collect();
		triples(ctx, &format!("{n} bytes, classes of triples of bytes"), &bgs, &class, |w, v| {
			tagged(w, e, &[n as u8], v);
		});
	}
	// Records
	for (dif, n) in [(0x0Cu8, 4usize), (0x0E, 6)] {
		let bgs: Vec<Vec<u8>> = [0x00u8, 0x99].iter().map(|b| vec![*b; n]).collect();
		pairwise(ctx, &format!("records of {n} bytes, pairs of bytes"), &bgs, |w, v| {
			tagged(w, Entry::RecordData, &[dif, 0x13], v);
		});
	}
	let heads = vib_heads();
	ctx.par("every quantity x width", heads.len() as u64 * 5, |w, i| {
		let h = &heads[(i / 5) as usize];
		let dif = [0x09, 0x0A, 0x0B, 0x0C, 0x0E][(i % 5) as usize];
		let n = width(dif).unwrap();
		for vib in [h.clone(), extended(h, &[0x3B])] {
			for top in [0x00, 0x12, 0x99, 0xF0, 0xF9, 0xFA, 0xFF, 0xA1, 0x1F] {
				for rest in [0x00, 0x34, 0x99, 0xF0, 0xBC] {
					let mut v = cat(&[&[dif], &vib, &vec![rest; n]]);
					*v.last_mut().unwrap() = top;
					w.case(Entry::RecordData, &v);
					w.case(Entry::RecordData, &v[..v.len() - 1]);
					v.push(0x99);
					w.case(Entry::RecordData, &v);
				}
			}
		}
	});
}

fn c16(ctx: &Ctx) {
	let e = Entry::RecordData;
	let vibs: [&[u8]; 6] = [&[0x13], &[0xFD, 0x11], &[0x6D], &[0x6C], &[0xFD, 0x72], &[0x93, 0x3B]];
	ctx.par("length byte x bytes present x contents", 257 * 262, |w, i| {
		let (l, have) = ((i % 257) as usize, (i / 257) as usize);
		for vib in &vibs[..2] {
			for p in [0, 1, 2, 3, 4, 7, 10] {
				let mut v = cat(&[&[0x0D], *vib]);
				if l < 256 {
					v.push(l as u8);
					v.extend(pattern(p, have));
				}
				w.case(e, &v);
			}
		}
	});
	ctx.par("length byte x quantity", 256 * vib_heads().len() as u64, |w, i| {
		let heads = vib_heads_static();
		let (l, h) = (i as u8, &heads[(i / 256) as usize]);
		for p in [1, 2] {
			for have in [64, 200] {
				w.case(e, &cat(&[&[0x0D], h, &[l], &pattern(p, have)]));
			}
		}
	});
	if ctx.beyond() {
		for l in [0xC4, 0xD4, 0xE4] {
			strings(ctx, &format!("numbers of 4 bytes, length {l:02X}"), 4, |w, d| tagged(w, e, &[0x0D, 0x13, l], d));
		}
		strings(ctx, "texts of 4 bytes", 4, |w, d| tagged(w, e, &[0x0D, 0x13, 4], d));
	}
	for n in 1..=3u32 {
		strings(ctx, &format!("all texts of {n} bytes"), n, |w, d| {
			tagged(w, e, &[0x0D, 0x13, n as u8], d);
			tagged(w, Entry::Latin, &[n as u8], d);
		});
	}
	ctx.par("texts: length x position x value", 191 * 191, |w, i| {
		let (l, at) = (1 + (i % 191) as usize, (i / 191) as usize);
		if at >= l {
			return;
		}
		let mut text = vec![b'-'; l];
		let step = if ctx.thorough() || at < 4 || at + 4 > l { 1 } else { 15 };
		for b in (0..=255u8).step_by(step) {
			text[at] = b;
			tagged(w, e, &[0x0D, 0x13, l as u8], &text);
		}
	});
	strings(ctx, "all pairs of bytes around a text", 2, |w, d| {
		tagged(w, e, &[0x0D, 0x13, 5], &[d[0], d[1], b'a', 0xE9, b'b']);
		tagged(w, e, &[0x0D, 0x13, 5], &[b'a', 0xE9, b'b', d[0], d[1]]);
		tagged(w, e, &[0x0D, 0x13, 4], &[0xEF, 0xBB, d[0], d[1]]);
		tagged(w, Entry::Latin, &[200], &cat(&[d, &pattern(8, 198)]));
	});
	for l in 0..=9u8 {
		for base in [0xC0u8, 0xD0] {
			let n = usize::from(l);
			let name = format!("BCD of length byte {:02x}", base + l);
			if n <= 2 {
				strings(ctx, &name, n as u32, |w, d| tagged(w, e, &[0x0D, 0x13, base + l], d));
			} else {
				let bgs: Vec<Vec<u8>> = [0x00u8, 0x99].iter().map(|b| vec![*b; n]).collect();
				pairwise(ctx, &name, &bgs, |w, d| tagged(w, e, &[0x0D, 0x13, base + l], d));
			}
		}
	}
	for l in 1..=8u8 {
		let n = usize::from(l);
		for (vname, vib) in [("signed", &[0x0D, 0x13][..]), ("unsigned", &[0x0D, 0xFD, 0x11])] {
			let name = format!("{vname} integer of length byte {:02x}", 0xE0 + l);
			let lead = cat(&[vib, &[0xE0 + l]]);
			if n <= 2 {
				strings(ctx, &name, n as u32, |w, d| tagged(w, e, &lead, d));
			} else if ctx.thorough() || n == 3 || n == 8 {
				let bgs: Vec<Vec<u8>> = [0x00u8, 0xFF].iter().map(|b| vec![*b; n]).collect();
				pairwise(ctx, &name, &bgs, |w, d| tagged(w, e, &lead, d));
			}
		}
	}
	ctx.par("big numbers: length byte x position x value", 14 * 64, |w, i| {
		let l = 0xE9 + (i % 14) as u8;
		let at = (i / 14) as usize;
		let n = match l {
			0xE9..=0xEF => usize::from(l) - 0xE0,
			0xF0..=0xF4 => 4 * (usize::from(l) - 0xEC),
			0xF5 => 48,
			_ => 64,
		};
		if at >= n {
			return;
		}
		let mut v = pattern(10, n);
		for b in 0..=255 {
			v[at] = b;
			for vib in vibs {
				w.case(e, &cat(&[&[0x0D], vib, &[l], &v, &[0x77]]));
			}
		}
	});
	let mut start = model::RecM::new();
	for b in [0x0D, 0x13] {
		start.push(b).expect("a record");
	}
	ctx.graph(
		"automaton after the length byte",
		vec![(RecG(start), vec![0x0D, 0x13])],
		300,
		|m| match m.0.loc {
			RLoc::LvarLen => all().to_vec(),
			RLoc::Data(n) if n > 10 => vec![0x00, 0x11, 0x80, 0xFF],
			RLoc::Data(_) => all().to_vec(),
			_ => vec![],
		},
		|w, t| {
			w.case(e, t.path);
			if let Some(s) = &t.suffix {
				w.case(e, &cat(&[t.path, s, &[0x01]]));
			} else if t.alive {
				w.case(e, &cat(&[t.path, &[0x11; 10]]));
			}
		},
	);
}

fn vib_heads_static() -> &'static Vec<Vec<u8>> {
	static H: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
	H.get_or_init(vib_heads)
}

fn c17(ctx: &Ctx) {
	let e = Entry::Real;
	for n in 0..=3 {
		strings(ctx, &format!("{n} bytes only"), n, |w, d| {
			if n < 3 || d[2] == 0xC0 || d[0] == d[1] {
				w.case(e, d);
			}
		});
	}
	strings(ctx, "all bit patterns", 4, |w, d| w.case(e, d));
	if ctx.thorough() {
		strings(ctx, "all bit patterns in records", 4, |w, d| tagged(w, Entry::RecordData, &[0x05, 0x13], d));
	}
	let heads = vib_heads_static();
	ctx.par("every quantity", heads.len() as u64, |w, i| {
		let h = &heads[i as usize];
		for vib in [h.clone(), extended(h, &[0x3B])] {
			for v in [0x0000_0000u32, 0x8000_0000, 0x3F80_0000, 0x7F80_0000, 0x0000_0001, 0xFF7F_FFFF, 0x4049_0FDB] {
				let r = cat(&[&[0x05], &vib, &v.to_le_bytes()]);
				w.case(Entry::RecordData, &r);
				w.case(Entry::RecordData, &cat(&[&r, &[0x80]]));
				w.case(Entry::RecordData, &r[..r.len() - 1]);
			}
		}
	});
}

// ---------------------------------------------------------------------------------------------
// C18 - C20
// ---------------------------------------------------------------------------------------------

fn cut(w: &mut W, e: Entry, d: &[u8]) {
	for n in 0..d.len() {
		w.case(e, &d[..n]);
	}
	w.case(e, &cat(&[d, &[0x11]]));
}

fn c18(ctx: &Ctx) {
	strings(ctx, "all dates", 2, |w, d| {
		w.case(Entry::Date, d);
		cut(w, Entry::Date, d);
		tagged(w, Entry::RecordData, &[0x02, 0x6C], d);
		tagged(w, Entry::RecordData, &[0x42, 0xEC, 0x7E], d);
		tagged(w, Entry::RecordData, &[0x82, 0x01, 0x6C], d);
	});
	let e = Entry::DateTimeF;
	// byte 0 all; byte 1 all; dates by classes of their fields
	let mut dates: Vec<[u8; 2]> = vec![];
	for day in [0u8, 1, 15, 28, 30, 31] {
		for month in [0u8, 1, 2, 11, 12, 13, 14, 15] {
			for year in [0u8, 1, 7, 8, 64, 79, 80, 81, 99, 100, 119, 126, 127] {
				dates.push([day | (year & 7) << 5, month | (year >> 3) << 4]);
			}
		}
	}
	ctx.par("all times x classes of dates", 65536 * dates.len() as u64, |w, i| {
		let d = dates[(i >> 16) as usize];
		w.case(e, &[i as u8, (i >> 8) as u8, d[0], d[1]]);
	});
	strings(ctx, "classes of times x all dates", 2, |w, d| {
		for m in [0u8, 1, 30, 59, 60, 62, 63, 0x40, 0x80, 0xC0, 0xBF] {
			for h in [0u8, 1, 12, 23, 24, 30, 31, 0x20, 0x40, 0x60, 0x7F, 0x80, 0x97, 0xFF] {
				w.case(e, &[m, h, d[0], d[1]]);
			}
		}
		let v = [0x1E, 0x0C, d[0], d[1]];
		cut(w, e, &v);
		for h in [0x0C, 0x2C, 0xEC, 0x1F] {
			tagged(w, Entry::RecordData, &[0x04, 0x6D], &[0x1E, h, d[0], d[1]]);
			tagged(w, Entry::RecordData, &[0x84, 0x40, 0xED, 0x7E], &[0x3F, h, d[0], d[1]]);
		}
	});
	strings(ctx, "all date-times", 4, |w, d| w.case(e, d));
	if ctx.thorough() {
		strings(ctx, "all date-times in records", 4, |w, d| tagged(w, Entry::RecordData, &[0x04, 0x6D], d));
	}
}

fn c19(ctx: &Ctx) {
	strings(ctx, "all times", 3, |w, d| w.case(Entry::Time, d));
	strings(ctx, "times cut short and in records", 2, |w, d| {
		for h in [0, 12, 23, 24, 31, 32, 0xFF] {
			let v = [d[0], d[1], h];
			cut(w, Entry::Time, &v);
			tagged(w, Entry::RecordData, &[0x03, 0x6D], &v);
		}
	});
	let e = Entry::DateTimeI;
	let bgs: Vec<Vec<u8>> = [
		"000000000000", "111111111111", "FB7BFFFF7FB5", "3B3B171F0C35", "FFFF5F9FC8FF", "7F3FDFFFFF75", "80408A6D15C3",
	]
	.iter()
	.map(|s| unhex(s))
	.collect();
	pairwise(ctx, "all values of pairs of bytes", &bgs, |w, d| {
		w.case(e, d);
	});
	let seconds: &[u8] = &[0, 1, 59, 60, 62, 63, 0x40, 0x80, 0xC0 | 59, 0xFF, 0x7C, 0x9E];
	let minutes: &[u8] = &[0, 1, 59, 60, 62, 63, 0x40, 0x40 | 59, 0x7F, 0x80, 0xBF, 0x5E];
	let hours: &[u8] = &[0, 1, 23, 24, 30, 31, 0x20, 0x40, 0x80, 0xE0 | 23, 0xFF, 0xAC];
	let d0: &[u8] = &[0x00, 0x01, 0x1F, 0x7F, 0x80, 0x9F, 0xE1, 0xFF, 0x2D];
	let d1: &[u8] = &[0x00, 0x01, 0x0C, 0x0D, 0x0F, 0xC1, 0xCC, 0xC2, 0xF1, 0xFF, 0xFC, 0x1A];
	let weeks: &[u8] = &[0, 1, 53, 54, 63, 0x40, 0x80, 0xC0 | 53, 0xF6, 0xFF, 0x6A];
	ctx.product("classes of all six bytes", &[seconds, minutes, hours, d0, d1, weeks], |w, v| {
		w.case(e, v);
	});
	ctx.product("records and cuts", &[seconds, minutes, hours, &[0x21, 0xFF], &[0x1C, 0xFF], weeks], |w, v| {
		let v = &v[..];
		tagged(w, Entry::RecordData, &[0x06, 0x6D], v);
		tagged(w, Entry::RecordData, &[0xC6, 0x00, 0xED, 0xFE, 0x01], v);
		cut(w, e, v);
	});
	let bgs: Vec<Vec<u8>> = ["000000211C05", "FB7BFFFF7FB5", "850000211C00"].iter().map(|s| unhex(s)).collect();
	for i in 0..6usize {
		for j in i + 1..6 {
			for k in j + 1..6 {
				strings(ctx, &format!("all of bytes {i}, {j}, {k}"), 3, |w, d| {
					for bg in &bgs {
						let mut v = [0; 6];
						v.copy_from_slice(bg);
						(v[i], v[j], v[k]) = (d[0], d[1], d[2]);
						w.case(e, &v);
					}
				});
			}
		}
	}
	if ctx.beyond() {
		for at in [[0usize, 1, 2, 5], [0, 2, 3, 4], [1, 2, 3, 4], [2, 3, 4, 5], [0, 1, 3, 4]] {
			strings(ctx, &format!("all of bytes {at:?}"), 4, |w, d| {
				let mut v = [0x00, 0x00, 0x00, 0x21, 0x1C, 0x05];
				for (p, b) in at.iter().zip(d) {
					v[*p] = *b;
				}
				w.case(e, &v);
			});
		}
	}
}

fn c20(ctx: &Ctx) {
	let e = Entry::Dst;
	let bgs: Vec<Vec<u8>> = ["11111111", "E2E3FF3A", "1F9FFFAC", "E0FFFFC1", "02411F93", "17010101"]
		.iter()
		.map(|s| unhex(s))
		.collect();
	pairwise(ctx, "all values of pairs of bytes", &bgs, |w, d| w.case(e, d));
	let b0: Vec<u8> = (0..8u8).flat_map(|u| [0u8, 1, 2, 23, 24, 30, 31].map(|l| u << 5 | l)).collect();
	let b1: Vec<u8> = (0..8u8).flat_map(|u| [0u8, 1, 25, 31].map(|l| u << 5 | l)).collect();
	let b2: Vec<u8> = (0..8u8).flat_map(|u| [0u8, 1, 25, 31].map(|l| u << 5 | l)).collect();
	ctx.product("classes of bytes x all months", &[&b0, &b1, &b2, all()], |w, v| w.case(e, v));
	ctx.product("records and cuts", &[&b0, &b1, &b2, &[0x3A, 0xA3, 0x0C, 0xD1]], |w, v| {
		let v = &v[..];
		tagged(w, Entry::RecordData, &[0x04, 0xFD, 0x72], v);
		tagged(w, Entry::RecordData, &[0xC4, 0x01, 0xFD, 0xF2, 0x01], v);
		cut(w, e, v);
	});
	strings(ctx, "all of begin hour, begin day, end day", 3, |w, d| {
		w.case(e, &[d[0], d[1], d[2], 0xA3]);
	});
	strings(ctx, "all values", 4, |w, d| w.case(e, d));
	if ctx.thorough() {
		strings(ctx, "all values in records", 4, |w, d| tagged(w, Entry::RecordData, &[0x04, 0xFD, 0x72], d));
	}
}

// ---------------------------------------------------------------------------------------------
// C21, C22
// ---------------------------------------------------------------------------------------------

fn c21(ctx: &Ctx) {
	let e = Entry::AppSelect;
	let cis = [0x50u8, 0x53, 0x54, 0x55, 0x66, 0x67, 0x68];
	let leads: Vec<Vec<u8>> = cis
		.iter()
		.flat_map(|c| [opening(*c, 0), opening(*c, 1)])
		.collect();
	ctx.par("no subcode", leads.len() as u64, |w, i| w.case(e, &leads[i as usize]));
	ctx.par("one subcode", leads.len() as u64 * 256, |w, i| {
		tagged(w, e, &leads[i as usize / 256], &[i as u8]);
	});
	let low = range(16);
	ctx.par("two subcodes", leads.len() as u64 * 65536, |w, i| {
		tagged(w, e, &leads[(i >> 16) as usize], &[i as u8, (i >> 8) as u8]);
	});
	ctx.product("three and four subcodes", &[&cis, all(), &low, &low, &low], |w, v| {
		let lead = opening(v[0], 0);
		tagged(w, e, &lead, &v[1..4]);
		tagged(w, e, &lead, &v[1..5]);
	});
	let lead50 = opening(0x50, 0);
	strings(ctx, "three subcodes", 3, |w, d| tagged(w, e, &lead50, d));
	if ctx.beyond() {
		for ci in [0x50, 0x66] {
			strings(ctx, &format!("four subcodes, CI {ci:02X}"), 4, |w, d| {
				if d[1] | d[2] | d[3] < 16 {
					tagged(w, e, &opening(ci, 0), d);
				}
			});
		}
		let low: Vec<u8> = range(16);
		ctx.product("six subcodes", &[&[0x50], all(), &low, &low, &low, &low, &low], |w, v| {
			tagged(w, e, &opening(v[0], 0), &v[1..]);
		});
	}
	let few: &[u8] = &[0, 1, 8, 15];
	let two: &[u8] = &[0, 15];
	let tens: Vec<u8> = (0..16u8).flat_map(|a| [a << 4, a << 4 | 0x0F, a << 4 | 0x06]).collect();
	for n in 5..=10usize {
		let mut a: Vec<&[u8]> = vec![&cis, &tens];
		for k in 1..n {
			a.push(if k + ctx.q(4, 6) >= n { few } else { two });
		}
		ctx.product(&format!("{n} subcodes"), &a, |w, v| {
			let lead = opening(v[0], 0);
			tagged(w, e, &lead, &v[1..]);
		});
	}
	ctx.par("position x low nibble in every number of subcodes", 7 * 10 * 10 * 16, |w, i| {
		let ci = cis[(i % 7) as usize];
		let (n, at, v) = (1 + (i / 7 % 10) as usize, (i / 70 % 10) as usize, (i / 700) as u8);
		if at < n {
			for bg in [0u8, 5, 15] {
				for first in 0..16u8 {
					let mut s = vec![bg; n];
					s[at] = v;
					s[0] |= first << 4;
					tagged(w, e, &opening(ci, 0), &s);
				}
			}
		}
	});
	ctx.graph(
		"select automaton",
		cis.iter()
			.map(|c| {
				let v = opening(*c, 0);
				let mut m = model::MsgM::new();
				for b in &v {
					m.push(*b).expect("a header");
				}
				(MsgG(m), v)
			})
			.collect(),
		12,
		|m| if m.0.unspecified { vec![] } else { all().to_vec() },
		|w, t| w.case(e, t.path),
	);
}

fn c22(ctx: &Ctx) {
	let e = Entry::AppError;
	let leads: Vec<Vec<u8>> = [0x6Eu8, 0x6F, 0x70]
		.iter()
		.flat_map(|c| [opening(*c, 0), opening(*c, 1)])
		.collect();
	ctx.par("no code", leads.len() as u64, |w, i| w.case(e, &leads[i as usize]));
	ctx.par("code x following bytes", leads.len() as u64 * 256 * 250, |w, i| {
		let code = i as u8;
		let k = (i >> 8) as usize;
		let (lead, n) = (&leads[k % leads.len()], k / leads.len());
		for p in [0, 3, 6] {
			w.case(e, &cat(&[lead, &[code], &pattern(p, n)]));
		}
	});
	ctx.par("manufacturer specific: code x position x value", 15 * 40, |w, i| {
		let (code, at) = (0xF1 + (i % 15) as u8, (i / 15) as usize);
		let mut v = pattern(3, 40);
		for b in 0..=255 {
			v[at] = b;
			tagged(w, e, &cat(&[&leads[4], &[code]]), &v);
		}
	});
	ctx.par("manufacturer specific: many bytes", 15, |w, i| {
		for n in [255, 256, 1000, 65_536] {
			let code = 0xF1 + i as u8;
			w.case(e, &cat(&[&leads[4], &[code], &pattern(3, n)]));
		}
	});
	for n in 1..=ctx.q(2u32, 3) {
		strings(ctx, &format!("all bodies of {n} bytes"), n, |w, d| {
			for l in &leads {
				tagged(w, e, l, d);
			}
		});
		strings(ctx, &format!("dynamic errors, all of {n} bytes"), n, |w, d| {
			tagged(w, e, &[0x70, 0xF0], d);
		});
	}
	let all_records: Vec<Vec<u8>> = records().iter().cloned().chain(broken()).collect();
	ctx.par("dynamic errors with records", (all_records.len() * leads.len()) as u64, |w, i| {
		let r = &all_records[i as usize / leads.len()];
		let lead = &leads[i as usize % leads.len()];
		for k in 0..=r.len() {
			w.case(e, &cat(&[lead, &[0xF0], &r[..k]]));
		}
		w.case(e, &cat(&[lead, &[0xF0], r, &[0x01, 0x13, 0x05]]));
	});
	record_graph(ctx, "dynamic errors, record automaton", |w, t| {
		tagged(w, e, &[0x70, 0xF0], t.path);
		if let Some(s) = &t.suffix {
			tagged(w, e, &[0x70, 0xF0], &cat(&[t.path, s]));
		}
	});
}

// ---------------------------------------------------------------------------------------------
// C23
// ---------------------------------------------------------------------------------------------

fn c23(ctx: &Ctx) {
	let f = Entry::PartialFrame;
	let a = Entry::PartialAny;
	let meters = corpus();
	ctx.par("frames of real meters", meters.len() as u64, |w, i| {
		w.case(f, &meters[i as usize].1);
		w.case(a, &meters[i as usize].1);
	});
	let shorts = short_frames(all());
	ctx.par("short frames and acknowledgement", shorts.len() as u64, |w, i| {
		w.case(f, &shorts[i as usize]);
		w.case(a, &shorts[i as usize]);
	});
	let lengths: Vec<usize> = (3..=255).collect();
	let longs = valid_frames(&lengths, &[0, 2, 3, 9]);
	ctx.par("long frames of every length", longs.len() as u64, |w, i| {
		w.case(f, &longs[i as usize]);
	});
	ctx.par("long frames of every CI", 512, |w, i| {
		let ci = i as u8;
		let mut p = opening(ci, (i >> 8) as u8);
		for _ in 0..4 {
			w.case(f, &model::wrap_long(0x08, 1, &p));
			w.case(a, &model::wrap_long(0x08, 1, &p));
			p.push(0x10);
		}
	});
	for n in 0..=2 {
		strings(ctx, &format!("all strings of {n} bytes"), n, |w, d| w.case(a, d));
	}
	strings(ctx, "all strings of 3 bytes", 3, |w, d| {
		w.case(a, d);
	});
	strings(ctx, "frames with two wrong bytes", 2, |w, d| {
		let (x, y) = (d[0], d[1]);
		w.case(a, &[0x10, x, 0x01, y, 0x16]);
		w.case(a, &[0x10, 0x53, x, 0x53u8.wrapping_add(x), y]);
		w.case(a, &[0x68, x, y, 0x68, 0x53, 0x01, 0x51, 0xA5, 0x16]);
		w.case(a, &[0x68, 3, 3, x, y, 0x01, 0x51, 0xA5, 0x16]);
		w.case(a, &[0x68, 3, 3, 0x68, x, y, 0x51, x.wrapping_add(y).wrapping_add(0x51), 0x16]);
		w.case(a, &[0x68, 3, 3, 0x68, 0x53, 0x01, x, y, 0x16]);
		w.case(a, &[0x68, 3, 3, 0x68, 0x53, 0x01, 0x51, x, y]);
		w.case(a, &[0x68, 3, 3, 0x68, 0x53, 0x01, 0x51, 0xA5, 0x16, x, y]);
		w.case(a, &[0xE5, x, y]);
	});
	let small: Vec<&Vec<u8>> = meters.iter().map(|m| &m.1).filter(|m| m.len() < ctx.q(90, 300)).collect();
	let sites: Vec<(usize, usize)> = small
		.iter()
		.enumerate()
		.flat_map(|(i, m)| (0..m.len()).map(move |k| (i, k)))
		.collect();
	ctx.par("frames of real meters with a wrong byte", sites.len() as u64, |w, i| {
		let (m, k) = sites[i as usize];
		let mut v = small[m].clone();
		let old = v[k];
		for b in [0x00, 0x01, 0x10, 0x16, 0x68, 0xE5, 0xFF, !old, old ^ 1, old ^ 0x80, old.wrapping_add(1)] {
			v[k] = b;
			w.case(a, &v);
		}
	});
	ctx.graph(
		"link layer automaton",
		vec![(LinkG(model::LinkM::new()), vec![])],
		ctx.q(16, 24),
		|m| match m.0.loc {
			LLoc::Len => ctx.q(vec![2, 3, 4, 5, 6, 1, 0], (0..14).collect()),
			LLoc::Done => vec![],
			LLoc::LongAddr(_) | LLoc::Payload(_) if !ctx.thorough() => {
				vec![0x51, 0x01, 0x80, 0xFF, 0x16, 0x68, 0x78]
			}
			_ => all().to_vec(),
		},
		|w, t| {
			w.case(a, t.path);
			if let Some(s) = &t.suffix {
				w.case(f, &cat(&[t.path, s]));
				w.case(a, &cat(&[t.path, s, &[0x16]]));
			}
		},
	);
}

// ---------------------------------------------------------------------------------------------
// C24
// ---------------------------------------------------------------------------------------------

fn c24(ctx: &Ctx) {
	let e = Entry::ErrorText;
	let k = u64::from(crate::judge::CONTEXTS);
	let causes = u64::from(crate::judge::CAUSES);
	for depth in 0..=ctx.q(4u32, 5) {
		ctx.par(&format!("all sequences of {depth} contexts"), k.pow(depth), |w, i| {
			for how in 0..3u8 {
				for cause in 0..causes as u8 {
					let mut v = vec![how, cause];
					let mut j = i;
					for _ in 0..depth {
						v.push((j % k) as u8);
						j /= k;
					}
					w.case(e, &v);
				}
			}
		});
	}
	let kinds = [0u8, 2, 3];
	for depth in 5..=ctx.q(11u32, 13) {
		ctx.par(&format!("all sequences of {depth} kinds of context"), 3u64.pow(depth), |w, i| {
			for cause in 0..2 {
				let mut v = vec![(i % 3) as u8, cause];
				let mut j = i;
				for _ in 0..depth {
					v.push(kinds[(j % 3) as usize]);
					j /= 3;
				}
				if v[0] == 2 {
					v[0] = 0;
				}
				w.case(e, &v);
			}
		});
	}
	ctx.par("long chains", 400, |w, i| {
		let n = i as usize;
		for how in 0..3 {
			for c in 0..k as u8 {
				w.case(e, &cat(&[&[how, 0], &vec![c; n]]));
			}
			let v: Vec<u8> = (0..n).map(|i| (i % k as usize) as u8).collect();
			w.case(e, &cat(&[&[how, 1], &v]));
			let v: Vec<u8> = (0..n).map(|i| if i % 2 == 0 { 3 } else { 0 }).collect();
			w.case(e, &cat(&[&[how, 0], &v]));
		}
	});
}

fn c26(ctx: &Ctx) {
	crate::files::explore(ctx);
}

fn c25(ctx: &Ctx) {
	crate::pats::explore(ctx);
}

// ---------------------------------------------------------------------------------------------
// C27
// ---------------------------------------------------------------------------------------------

/// Calls of all kinds that take few steps
fn short_calls() -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![];
	let mut add = |sub: u8, n: u8, d: &[u8]| v.push(cat(&[&[sub, n], d]));
	add(0, 0, &[0xE5]);
	add(0, 0, &[0x10, 0x7B, 0x01, 0x7C, 0x16]);
	add(0, 0, &[0x10, 0x18, 0x02, 0x1A, 0x16]);
	add(0, 0, &[0x10, 0x02, 0x01, 0x03, 0x16]);
	add(0, 0, &model::wrap_long(0x08, 0x01, &[0xBB]));
	add(0, 0, &model::wrap_long(0x18, 0xFD, &[0x51, 0x02, 0x03]));
	add(1, 0, &[0x50, 0x10]);
	add(1, 0, &[0x70, 0x08]);
	add(1, 0, &[0x70, 0xF0, 0x01, 0x13, 0x05]);
	add(1, 0, &cat(&[&opening(0x5A, 0), &[1]]));
	add(2, 0, &unhex("0113050F11"));
	add(2, 0, &unhex("811302 2F 0113 06 1F"));
	for r in ["0113FF", "84501301000000", "8180401305", "02 FD17 0080", "01 93BB05 07", "01 FC03 254852 74 2F", "01 7C 02 6261 08", "0D1303636261", "0D13E2 0080", "0D13EB 112233 445566778899AABB", "052B0000C07F", "04 FD72 11111111", "066D 111111111111", "036D 111111", "026C 8C11", "046D 0B0BCD13", "0A13 3412", "0A13 34F2", "0A13 BBFA"] {
		add(3, 0, &unhex(r));
	}
	add(6, 0, &SHORT_HEADER);
	add(6, 0, &SHORT_HEADER_2);
	add(7, 0, &LONG_HEADER);
	add(7, 0, &LONG_HEADER_2);
	v
}

/// Each of these follows another path through the number, text and date decoders in not many steps
fn tiny_calls() -> Vec<Vec<u8>> {
	[
		"08 00 04", "08 00 C40100", "09 00 13", "09 00 FD08", "09 00 937B", "0C 00 0161", "0D 02 E961", "0E 01 42", "0F 01 BA",
		"10 02 FF80", "11 02 FF80", "12 00 0000803F", "13 00 0B0BCD13", "14 00 8C11", "16 00 111111", "19 00 2440", "05 00 10",
		"04 00 08", "00 00 E5", "03 00 0013", "02 00 0013",
	]
	.iter()
	.map(|s| unhex(s))
	.collect()
}

/// The call with each one of its bytes replaced, where that has another result and as much of it is accepted
fn siblings(a: &[u8], each: usize) -> Vec<Vec<u8>> {
	let result = crate::judge::call(a);
	let accepted = |t: &str| t.starts_with("ok");
	let mut v = vec![];
	for at in 2..a.len() {
		let mut n = 0;
		for x in [0x01, 0x80, 0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0x21, 0x11, 0x03, 0xFF] {
			let mut b = a.to_vec();
			b[at] ^= x;
			let r = crate::judge::call(&b);
			if r != result && accepted(&r) == accepted(&result) && n < each {
				v.push(b);
				n += 1;
			}
		}
	}
	v
}

fn c27(ctx: &Ctx) {
	use crate::judge::first_steps as steps;
	use crate::threads::{case, FOREVER};
	let gap = |w: &mut W, calls: &[&Vec<u8>]| {
		let mut v = std::mem::take(&mut w.buf);
		v.clear();
		v.push(0);
		for c in calls {
			push_item(&mut v, c);
		}
		w.case(Entry::Threads, &v);
		w.buf = v;
	};
	let turns = |w: &mut W, cold: bool, turns: &[(u32, u32)], calls: &[&[u8]]| {
		let mut v = std::mem::take(&mut w.buf);
		case(&mut v, cold, turns, calls);
		w.case(Entry::Threads, &v);
		w.buf = v;
	};
	// (every worker needs two processors)
	let workers = ctx.threads.div_ceil(2);
	let x = bases();
	let s = short_calls();
	let y = tiny_calls();
	ctx.par_on(workers, "all others between any two steps of an input", x.len() as u64, |w, i| {
		let a = &x[i as usize];
		gap(w, &[a, a]);
		for other in s.chunks(4) {
			let l: Vec<&Vec<u8>> = [a].into_iter().chain(other).collect();
			gap(w, &l);
		}
	});
	let k = s.len() as u64;
	ctx.par_on(workers, "one other between any two steps", k * k, |w, i| {
		let (a, b) = (&s[(i % k) as usize], &s[(i / k) as usize]);
		gap(w, &[a, b]);
		if ctx.thorough() {
			gap(w, &[a, b, a]);
			gap(w, &[a, a, b]);
		}
	});
	let k = y.len() as u64;
	ctx.par_on(workers, "one other between any two steps of a part", k * k, |w, i| {
		let (a, b) = (&y[(i % k) as usize], &y[(i / k) as usize]);
		gap(w, &[a, b]);
		gap(w, &[a, b, a]);
		gap(w, &[a, a, b]);
	});
	// The same path with other data: state that both write with the same value would not show
	let a: Vec<&Vec<u8>> = s.iter().chain(&y).collect();
	ctx.par_on(workers, "the same part with another byte between any two steps", a.len() as u64, |w, i| {
		let a = a[i as usize];
		for b in siblings(a, ctx.q(8, 12)) {
			gap(w, &[a, &b]);
			gap(w, &[&b, a]);
		}
	});
	// Schedules are listed one by one: needs the number of steps
	let number = |calls: &[Vec<u8>]| -> Vec<u32> { calls.iter().map(|c| steps(c)).collect() };
	let listed = |calls: &[Vec<u8>]| -> Vec<(usize, u32)> {
		number(calls)
			.iter()
			.enumerate()
			.flat_map(|(c, n)| (0..=*n).map(move |i| (c, i)))
			.collect()
	};
	let name = "first use: stopped at any step while another decodes";
	if ctx.wants(name) {
		let some: Vec<Vec<u8>> = ctx.q(s.iter().step_by(2).chain(&y).cloned().collect(), s.iter().chain(&y).cloned().collect());
		let l = listed(&some);
		ctx.par_on(workers, name, l.len() as u64, |w, i| {
			let (a, at) = l[i as usize];
			turns(w, true, &[(at, FOREVER), (FOREVER, FOREVER)], &[&some[a], &some[a]]);
		});
	}
	let quanta = ctx.q(40u64, 150);
	let k = s.len() as u64;
	ctx.par_on(workers, "two threads taking turns, length of turns", quanta * k * 3, |w, i| {
		let q = 1 + (i % quanta) as u32;
		let a = &s[(i / quanta % k) as usize];
		let b = &s[((i / quanta + [0, 1, 7][(i / quanta / k) as usize]) % k) as usize];
		turns(w, false, &[(q, q), (q, q)], &[a, b]);
	});
	let calls8 = &y;
	ctx.par_on(workers, "up to eight threads taking turns", 6 * calls8.len() as u64, |w, i| {
		let n = 3 + (i % 6) as usize;
		let a = (i / 6) as usize;
		for different in ctx.q(0..2, 0..3) {
			let calls: Vec<&[u8]> = (0..n).map(|t| &calls8[(a + different * t) % calls8.len()][..]).collect();
			for q in [1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610] {
				turns(w, false, &vec![(q, q); n], &calls);
			}
		}
	});
	let name = "two threads, both stopped at any step";
	if ctx.wants(name) {
		let n = number(&y);
		// As many of the shortest calls as there's time for all pairs of their steps
		let budget = ctx.q(210_000, 1_000_000);
		let mut few: Vec<(&Vec<u8>, u64)> = y.iter().zip(&n).map(|c| (c.0, u64::from(*c.1) + 1)).collect();
		few.sort_by_key(|c| c.1);
		let mut sum = 0;
		few.retain(|c| {
			sum += c.1;
			sum * sum <= budget
		});
		ctx.note(format!("{name}: {} calls of at most {} steps", few.len(), few.last().map_or(0, |c| c.1)));
		let mut l = vec![];
		for a in &few {
			for b in &few {
				for i in 0..a.1 {
					for j in 0..b.1 {
						l.push((a.0, b.0, i as u32, j as u32));
					}
				}
			}
		}
		ctx.par_on(workers, name, l.len() as u64, |w, i| {
			let (a, b, i, j) = l[i as usize];
			turns(w, false, &[(i, FOREVER), (j, FOREVER)], &[a, b]);
		});
	}
}

// ---------------------------------------------------------------------------------------------
// C28
// ---------------------------------------------------------------------------------------------

fn c28(ctx: &Ctx) {
	everything(ctx, Entry::Memory);
	let x = bases();
	let k = records().len() as u64;
	// Far more input than any frame has: what isn't proportional takes a thousand times as long
	let n = ctx.q(300_000, 1_000_000);
	let long = |w: &mut W, u: &[u8], end: &[u8]| {
		let r = n / u.len();
		let lead = [FRAME, 0, (r >> 16) as u8, (r >> 8) as u8, r as u8, u.len() as u8];
		w.case(Entry::Long, &cat(&[&lead, u, end]));
	};
	ctx.par("a record repeated very often", k * 2, |w, i| {
		long(w, &records()[(i / 2) as usize], &[[0x1F, 0x02], [0x08, 0x13]][(i % 2) as usize]);
	});
	ctx.par("a pair of records repeated very often", ctx.q(k * 4, k * k), |w, i| {
		let other = &records()[((i / k) * ctx.q(9, 1) % k) as usize];
		long(w, &cat(&[&records()[(i % k) as usize], other, &[0x2F]]), &[]);
	});
	ctx.par("a byte repeated very often", 256, |w, i| {
		long(w, &[i as u8], &[0x00, 0x13]);
		long(w, &[i as u8], &[]);
	});
	let work = |w: &mut W, sub: u8, d: &[u8]| tagged(w, Entry::Work, &[sub, 3], d);
	let mut at = vec![];
	for (i, b) in x.iter().enumerate() {
		for p in 2..b.len().min(ctx.q(14, 40)) {
			at.push((i, p));
		}
	}
	let values: &[u8] = ctx.q(&[0xFF, 0x80][..], &[0x00, 0x0D, 0x6D, 0x7F, 0x80, 0xBF, 0xEF, 0xFF]);
	let k = values.len() as u64;
	ctx.par("instructions: every byte replaced by great values", at.len() as u64 * k, |w, i| {
		let (n, p) = at[(i / k) as usize];
		let mut v = x[n].clone();
		v[p] = values[(i % k) as usize];
		work(w, v[0], &v[2..]);
	});
	ctx.par("instructions: variable length", 256, |w, i| {
		work(w, RECORD, &cat(&[&[0x0D, 0x13, i as u8], &pattern(1, 200)]));
		if ctx.thorough() {
			work(w, RECORD, &cat(&[&[0x0D, 0xFD, 0x11, i as u8], &pattern(4, 70)]));
			work(w, RECORD, &cat(&[&[0x00, 0xFC, i as u8], &pattern(1, 255), &[0x01]]));
		}
	});
	ctx.par("instructions: data information", 12 * 4, |w, i| {
		let (b, n) = ([0xFFu8, 0x8F, 0xB0, 0xC0][(i % 4) as usize], (i / 4) as usize);
		for end in [b & 0x7F, 0x00] {
			work(w, RECORD, &cat(&[&[0xC0], &vec![b; n], &[end, 0x13]]));
		}
		work(w, FRAME, &cat(&[&[0xC1], &vec![b; n], &[b & 0x7F, 0x7B, 0x01, 0x2F, 0x0F, b]]));
	});
	ctx.par("instructions: CI x body length", 256 * 2, |w, i| {
		let (ci, n) = (i as u8, [3, 60][(i >> 8) as usize]);
		work(w, MESSAGE, &cat(&[&opening(ci, 0), &pattern(3, n)]));
	});
	// Growth
	let size = ctx.q(8usize, 24);
	let grow = |w: &mut W, sub: u8, wrapped: bool, unit: &[u8], prefix: &[u8], suffix: &[u8]| {
		let k = (size / unit.len()).max(3);
		let lead = [sub, 0, wrapped as u8, (k >> 8) as u8, k as u8, unit.len() as u8, prefix.len() as u8];
		if wrapped && 8 * k * unit.len() + prefix.len() + suffix.len() > 253 {
			return;
		}
		w.case(Entry::Growth, &cat(&[&lead, unit, prefix, suffix]));
	};
	let mut parts: Vec<Vec<u8>> = records().clone();
	parts.push(unhex("2F"));
	let k = parts.len() as u64;
	const END: &[&[u8]] = &[&[0x0F, 0x05]];
	const ENDS: &[&[u8]] = &[&[], &[0x2F], &[0x0F, 0x05], &[0x1F], &[0x01], &[0x08, 0x13]];
	let ends = ctx.q(END, ENDS);
	ctx.par("growth: repeated record, ends", k * ends.len() as u64, |w, i| {
		let (u, end) = (&parts[(i % k) as usize], ends[(i / k) as usize]);
		grow(w, FRAME, false, u, &[], end);
		if ctx.thorough() {
			grow(w, PACKET, true, u, &[0x78], end);
		}
	});
	let letters: &[u8] = ctx.q(&[0x80, 0x2F][..], &[0x00, 0x2F, 0x41, 0x80, 0x99, 0xC3, 0xFF]);
	let k = letters.len() as u64;
	ctx.par("growth: repeated byte in every place", k * 22, |w, i| {
		let (b, place) = (letters[(i % k) as usize], i / k);
		let lead: &[u8] = match place {
			0 => &[0x01, 0x93],
			1 => &[0x01, 0xFF],
			2 => &[0x01, 0xFC, 0x00],
			3 => &[0x0F],
			4 => &[0x1F],
			5 => &[0x01, 0x13, 0x05, 0x0F],
			6 => &[0x81],
			_ => &[],
		};
		match place {
			0..=6 => {
				grow(w, FRAME, false, &[b], lead, &[0x00, 0x13]);
			}
			7 => {
				for sub in [PACKET, MESSAGE, FRAME, RECORD, 4, 5, 26] {
					grow(w, sub, false, &[b], &[], &[]);
				}
			}
			_ => {
				let ci = [0x00, 0x50, 0x51, 0x5A, 0x5F, 0x66, 0x6F, 0x70, 0x72, 0x75, 0x90, 0xA0, 0xB8, 0xC0][place as usize - 8];
				let mut lead = opening(ci, 0);
				grow(w, PACKET, true, &[b], &lead, &[]);
				lead.push(0xF1);
				grow(w, MESSAGE, false, &[b], &lead, &[]);
			}
		}
	});
	ctx.par("growth: texts of variable length", k * 6, |w, i| {
		let b = letters[(i % k) as usize];
		let (at, lead, end): (usize, &[u8], &[u8]) = [
			(23, &[0x0D, 0x13, 0][..], &[][..]),
			(11, &[0x0D, 0xFD, 0x11, 0], &[]),
			(5, &[0x0D, 0x93, 0x3B, 0], &[]),
			(31, &[0x01, 0x7C, 0], &[0x01]),
			(31, &[0x01, 0xFC, 0], &[0x3B, 0x01]),
			(9, &[0x8D, 0x01, 0xFC, 0], &[0x3B, 0x03, 0x41, 0x42, 0x43]),
		][(i / k) as usize];
		let head = [RECORD, 0, 2, 0, at as u8, 1, lead.len() as u8];
		w.case(Entry::Growth, &cat(&[&head, &[b], lead, end]));
	});
}

// ---------------------------------------------------------------------------------------------
// C29
// ---------------------------------------------------------------------------------------------

fn c29(ctx: &Ctx) {
	let e = Entry::Blame;
	let t = |w: &mut W, sub: u8, d: &[u8]| tagged(w, e, &[sub], d);
	for n in 0..=2 {
		strings(ctx, &format!("all strings of {n} bytes"), n, |w, d| {
			for sub in 0..4 {
				t(w, sub, d);
			}
		});
	}
	strings(ctx, "all strings of 3 bytes", 3, |w, d| {
		for sub in [PACKET, FRAME, RECORD] {
			t(w, sub, d);
		}
	});
	// wrong in any one place, and in what comes after it
	strings(ctx, "structure of frames: pairs of bytes", 2, |w, d| {
		for f in ["105301541620", "1053015416", "6803036808015059162020", "68030368080150591616", "680303680801505916", "680404680801501F7816"] {
			let f = unhex(f);
			for p in 0..f.len() {
				for q in [p + 1, f.len() - 2, f.len() - 1] {
					if q < f.len() && q != p {
						let mut v = f.clone();
						v[p] = d[0];
						v[q] = d[1];
						t(w, PACKET, &v);
					}
				}
			}
		}
	});
	ctx.graph(
		"link layer automaton",
		vec![(LinkG(model::LinkM::new()), vec![])],
		10_000,
		|m| match m.0.loc {
			LLoc::Len => (0..12).collect(),
			LLoc::Done => vec![],
			LLoc::LongAddr(_) => vec![0, 1, 0x55, 0x80, 0xFD, 0xFE, 0xFF],
			_ => all().to_vec(),
		},
		|w, tr| {
			t(w, PACKET, tr.path);
			for junk in [&[0x16][..], &[0x16, 0x16], &[0, 0x16, 0x16, 0x16], &[0; 20]] {
				t(w, PACKET, &cat(&[tr.path, junk]));
			}
			if let Some(s) = &tr.suffix {
				for extra in [&[][..], &[0x16], &[0, 0]] {
					t(w, PACKET, &cat(&[tr.path, s, extra]));
				}
			}
		},
	);
	ctx.par("long frames: length byte x bytes present", 256 * 260, |w, i| {
		let (l, n) = ((i % 256) as u8, (i / 256) as usize);
		let mut f = vec![0x68, l, l, 0x68, 0x08, 1];
		f.extend(pattern(0, n));
		t(w, PACKET, &f);
		let sum = f[4..].iter().fold(0u8, |a, b| a.wrapping_add(*b));
		f.push(sum);
		t(w, PACKET, &f);
		f.push(0x16);
		t(w, PACKET, &f);
	});
	let meters: Vec<&[u8]> = corpus().iter().map(|c| &c.1[..]).filter(|f| f.len() < ctx.q(140, 300)).collect();
	let sites: Vec<(usize, usize)> =
		meters.iter().enumerate().flat_map(|(i, f)| (0..=f.len()).map(move |k| (i, k))).collect();
	ctx.par("meter frames: every byte replaced, inserted and removed, and cut", sites.len() as u64, |w, i| {
		let (f, k) = sites[i as usize];
		let f = meters[f];
		t(w, PACKET, &f[..k]);
		for b in 0..=255u8 {
			t(w, PACKET, &cat(&[&f[..k], &[b], &f[k..]]));
			if k < f.len() {
				t(w, PACKET, &cat(&[&f[..k], &[b], &f[k + 1..]]));
			}
		}
		if k < f.len() {
			t(w, PACKET, &cat(&[&f[..k], &f[k + 1..]]));
		}
	});
	let ps = payloads();
	let sites: Vec<(usize, usize)> = ps.iter().enumerate().flat_map(|(i, p)| (0..p.len()).map(move |k| (i, k))).collect();
	ctx.par("meter data, every byte replaced by every value, and cut", sites.len() as u64, |w, i| {
		let (p, k) = sites[i as usize];
		let mut v = ps[p].clone();
		t(w, MESSAGE, &v[..k]);
		for b in 0..=255u8 {
			v[k] = b;
			t(w, MESSAGE, &v);
			if b % 17 == 0 {
				t(w, PACKET, &model::wrap_long(0x08, b, &v));
			}
		}
	});
	ctx.par("CI x header cut short x first bytes of the body", 256 * 16 * 8, |w, i| {
		let (ci, n, p) = (i as u8, (i / 256 % 16) as usize, (i / 4096) as u8);
		for (h, bg) in [LONG_HEADER, LONG_HEADER_2, [0xFF; 12]].iter().enumerate() {
			let mut v = if h == 2 { cat(&[&[ci], bg]) } else { opening(ci, h as u8) };
			v.extend(pattern(p, 4));
			v.truncate(n + 1);
			t(w, MESSAGE, &v);
			t(w, PACKET, &model::wrap_long(0x08, 1, &v));
		}
	});
	for (name, ci, bgs) in [
		("short header, pairs of bytes", 0x7A, vec![SHORT_HEADER.to_vec(), SHORT_HEADER_2.to_vec()]),
		("long header, pairs of bytes", 0x72, vec![LONG_HEADER.to_vec(), LONG_HEADER_2.to_vec()]),
	] {
		pairwise(ctx, name, &bgs, |w, d| t(w, MESSAGE, &cat(&[&[ci], d])));
	}
	ctx.par("CI x header position x value", 256 * 12 * 256, |w, i| {
		let (ci, b, k) = (i as u8, (i >> 8) as u8, (i >> 16) as usize);
		let mut v = opening(ci, 0);
		if v.len() > k + 1 {
			v[k + 1] = b;
			t(w, MESSAGE, &v);
		}
	});
	ctx.par("error messages: code x following bytes", 256 * 3 * 65536, |w, i| {
		let (code, k, a, b) = (i as u8, (i >> 8) / 65536, (i >> 8) as u8, (i >> 16) as u8);
		let lead = opening([0x70, 0x6E, 0x6F][k as usize], 0);
		if code == 0xF0 || a == b {
			t(w, MESSAGE, &cat(&[&lead, &[code, a, b]]));
			t(w, MESSAGE, &cat(&[&lead, &[code, a]]));
			t(w, MESSAGE, &cat(&[&lead, &[code]]));
		}
	});
	record_graph(ctx, "record automaton", |w, tr| {
		let mut p = tr.path.to_vec();
		t(w, RECORD, &p);
		t(w, FRAME, &cat(&[&[0x2F, 0x01, 0x13, 0x2A], &p]));
		t(w, MESSAGE, &cat(&[&[0x70, 0xF0], &p]));
		t(w, MESSAGE, &cat(&[&opening(0x72, 0), &p]));
		if p.len() < 200 {
			t(w, PACKET, &model::wrap_long(0x08, 1, &cat(&[&[0x78, 0x00, 0x13], &p])));
		}
		p.extend([0xFF; 12]);
		t(w, RECORD, &p);
		t(w, FRAME, &p);
	});
	let rs = records();
	let bs = broken();
	ctx.par("records, then a broken one", (rs.len() * rs.len() * bs.len()) as u64, |w, i| {
		let i = i as usize;
		let (a, b, c) = (&rs[i % rs.len()], &rs[i / rs.len() % rs.len()], &bs[i / rs.len() / rs.len()]);
		let v = cat(&[a, &[0x2F], b, c]);
		t(w, FRAME, &v);
		t(w, MESSAGE, &cat(&[&opening(0x7A, 0), &v]));
		t(w, FRAME, &cat(&[&v, a]));
	});
	ctx.par("chains of extensions, cut", 260 * 4, |w, i| {
		let (n, k) = ((i / 4) as usize, i % 4);
		let mut v = match k {
			0 => vec![],
			1 => vec![0x01, 0x93],
			2 => vec![0x01, 0xFD, 0x88],
			_ => vec![0x01, 0xFC, 0x01, b'a'],
		};
		v.extend(vec![0x81; n]);
		for _ in 0..3 {
			t(w, RECORD, &v);
			t(w, FRAME, &v);
			v.push(0x01);
		}
	});
	ctx.par("data type x quantity x bytes present", 256 * vib_heads().len() as u64, |w, i| {
		let heads = vib_heads_shared();
		let (dif, head) = (i as u8, &heads[(i / 256) as usize]);
		for n in 0..=9 {
			for p in [0, 2] {
				let v = cat(&[&[dif], if dif & 0x80 != 0 { &[0x01] } else { &[] }, head, &pattern(p, n)]);
				t(w, RECORD, &v);
			}
		}
	});
	ctx.par("variable length x bytes present", 256 * 262, |w, i| {
		let (l, n) = (i as u8, (i / 256) as usize);
		for vib in [&[0x13][..], &[0x6D], &[0xFD, 0x11]] {
			for p in [0, 2] {
				t(w, RECORD, &cat(&[&[0x0D], vib, &[l], &pattern(p, n)]));
			}
		}
	});
	strings(ctx, "dates", 2, |w, d| {
		t(w, RECORD, &cat(&[&[0x02, 0x6C], d]));
		t(w, FRAME, &cat(&[&[0x02, 0xEC, 0x00], d]));
	});
	strings(ctx, "times", 3, |w, d| t(w, RECORD, &[0x03, 0x6D, d[0], d[1], d[2]]));
	for (name, lead, bgs) in [
		("date-times, pairs of bytes", &[0x04, 0x6D][..], vec!["00000000", "3B370C1A", "FFFFFFFF", "BFBF9FC8"]),
		("six byte date-times, pairs of bytes", &[0x06, 0x6D], vec!["000000000000", "FB7BFFFF7FB5", "FFFFFFFFFFFF"]),
		("daylight saving, pairs of bytes", &[0x04, 0xFD, 0x72], vec!["11111111", "E0FFFFC1", "00000000", "FFFFFFFF"]),
	] {
		let bgs: Vec<Vec<u8>> = bgs.iter().map(|s| unhex(s)).collect();
		pairwise(ctx, name, &bgs, |w, d| t(w, RECORD, &cat(&[lead, d])));
	}
	if ctx.thorough() {
		for (name, lead) in [("date-times", &[0x04, 0x6D][..]), ("daylight saving", &[0x04, 0xFD, 0x72])] {
			strings(ctx, &format!("{name}, all of three bytes"), 3, |w, d| {
				for x in [0x00, 0x0C, 0x21, 0x3C, 0x40, 0x80, 0xFF] {
					t(w, RECORD, &cat(&[lead, &[x], d]));
					t(w, RECORD, &cat(&[lead, &[d[0], d[1], x, d[2]]]));
				}
			});
		}
		strings(ctx, "records of 4 bytes", 4, |w, d| {
			if matches!(d[0], 0x01 | 0x04 | 0x0D | 0x80..=0x82 | 0x8D) {
				t(w, RECORD, d);
			}
		});
	}
}

fn vib_heads_shared() -> &'static Vec<Vec<u8>> {
	static H: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
	H.get_or_init(vib_heads)
}

// ---------------------------------------------------------------------------------------------
// C30
// ---------------------------------------------------------------------------------------------

fn c30(ctx: &Ctx) {
	let e = Entry::Extent;
	// decoders, and the number of bytes of those that have a fixed size
	let fixed: [(u8, u8, usize); 8] =
		[(6, 0, 4), (7, 0, 12), (18, 0, 4), (19, 0, 4), (20, 0, 2), (21, 0, 6), (22, 0, 3), (23, 0, 4)];
	let subs: Vec<u8> = (3..=26).filter(|s| ![4, 5, 24, 25].contains(s)).collect();
	ctx.par("empty input and one byte", subs.len() as u64 * 257, |w, i| {
		let (sub, k) = (subs[i as usize % subs.len()], i / subs.len() as u64);
		for n in 0..=20u8 {
			if k == 0 {
				tagged(w, e, &[1, sub, n], &[]);
			} else {
				tagged(w, e, &[1, sub, n], &[(k - 1) as u8]);
			}
		}
	});
	strings(ctx, "all strings of 2 bytes, every decoder", 2, |w, d| {
		for sub in &subs {
			for n in 0..3 {
				tagged(w, e, &[1, *sub, n], d);
			}
		}
	});
	strings(ctx, "all strings of 3 bytes, decoders of blocks, records and texts", 3, |w, d| {
		for sub in [3, 8, 9, 12, 22] {
			tagged(w, e, &[0, sub, 0], d);
		}
	});
	strings(ctx, "all strings of 3 bytes as the start of zeros", 3, |w, d| {
		let mut v = [0; 16];
		v[..3].copy_from_slice(d);
		for sub in [3, 9] {
			tagged(w, e, &[2, sub, 0], &v);
		}
	});
	record_graph(ctx, "record automaton", |w, t| {
		let mut p = t.path.to_vec();
		if let Some(s) = &t.suffix {
			p.extend(s);
		} else {
			p.extend([0; 12]);
		}
		tagged(w, e, &[ctx.q(0, 1), 3, 0], &p);
		tagged(w, e, &[0, 8, 0], &p);
	});
	for (sub, n, len) in fixed {
		let backgrounds: Vec<Vec<u8>> = [0u8, 1, 2, 3]
			.iter()
			.map(|p| {
				if sub == 7 {
					LONG_HEADER.iter().map(|b| b ^ p).collect()
				} else {
					pattern(*p, len)
				}
			})
			.collect();
		pairwise(ctx, &format!("decoder {sub}, every pair of bytes"), &backgrounds, |w, d| {
			tagged(w, e, &[0, sub, n], d);
		});
	}
	ctx.par("numbers and strings of every width, bytes present", 256 * 260, |w, i| {
		let (n, have) = (i as u8, (i / 256) as usize);
		for sub in 12..=17 {
			for p in [0, 1, 2, 4, 7, 10] {
				let mut v = pattern(p, have);
				if sub == 12 {
					v.insert(0, n);
				}
				tagged(w, e, &[0, sub, n], &v);
			}
		}
	});
	ctx.par("variable length x bytes present", 256 * 265, |w, i| {
		let (l, n) = (i as u8, (i / 256) as usize);
		for vib in [&[0x13][..], &[0x6D], &[0xFD, 0x72], &[0xFD, 0x11]] {
			for p in [0, 1, 2, 4, 7, 3] {
				tagged(w, e, &[2, 3, 0], &cat(&[&[0x0D], vib, &[l], &pattern(p, n)]));
			}
		}
	});
	let heads = vib_heads();
	ctx.par("data type x value information x data", (256 * heads.len()) as u64, |w, i| {
		let (dif, head) = (i as u8, &heads[i as usize / 256]);
		for h in [head.clone(), extended(head, &[0x3A]), extended(head, &[0xBA, 0xBC, 0x3C])] {
			let dib: &[u8] = if dif & 0x80 == 0 { &[dif] } else { &[dif, 0x81, 0x40] };
			for p in [0, 1, 2, 4, 10] {
				tagged(w, e, &[2, 3, 0], &cat(&[dib, &h, &pattern(p, 12)]));
			}
			tagged(w, e, &[0, 9, 0], &h);
		}
	});
	let chains: &[usize] = &[1, 2, 3, 8, 9, 10, 11, 12, 13, 16, 17, 32, 33, 64, 65, 100, 127, 128, 255, 256, 257, 600];
	ctx.par("chains", chains.len() as u64 * 256, |w, i| {
		let (n, last) = (chains[i as usize / 256], i as u8);
		for b in [0x80u8, 0xFF, 0x91, 0xAF] {
			let v = cat(&[&vec![b; n], &[last, 0x13, 0x01, 0x02]]);
			for k in 0..=4 {
				tagged(w, e, &[0, 8, 0], &v[..n + k]);
				tagged(w, e, &[0, 10, 0], &v[..n + k]);
			}
			tagged(w, e, &[0, 9, 0], &v);
			tagged(w, e, &[0, 10, 0], &v);
			tagged(w, e, &[0, 3, 0], &cat(&[&[0x01, 0x93], &v]));
			tagged(w, e, &[0, 3, 0], &cat(&[&[0x81], &v]));
		}
	});
	strings(ctx, "short frames: control x address, and acknowledgements", 2, |w, d| {
		tagged(w, e, &[0, 26, 0], &[0x10, d[0], d[1], d[0].wrapping_add(d[1]), 0x16]);
		tagged(w, e, &[0, 26, 0], &[0xE5, d[0], d[1]]);
	});
	let ps = payloads();
	let sites: Vec<(usize, usize)> = ps
		.iter()
		.enumerate()
		.flat_map(|(i, p)| (0..p.len()).map(move |k| (i, k)))
		.collect();
	ctx.par("meter data, from every position", sites.len() as u64, |w, i| {
		let (p, k) = sites[i as usize];
		for sub in &subs {
			for n in ctx.q(vec![1, 4, 8], (0..=20).collect()) {
				tagged(w, e, &[1, *sub, n], &ps[p][k..]);
			}
		}
	});
	ctx.par("meter data, from every position, one of the next bytes replaced", sites.len() as u64, |w, i| {
		let (p, k) = sites[i as usize];
		for at in k..(k + ctx.q(4, 8)).min(ps[p].len()) {
			let mut v = ps[p][k..].to_vec();
			for b in 0..=255u8 {
				v[at - k] = b;
				tagged(w, e, &[2, 3, 0], &v);
			}
		}
	});
	if ctx.beyond() {
		strings(ctx, "all strings of 4 bytes as record", 4, |w, d| {
			tagged(w, e, &[2, 3, 0], d);
		});
		strings(ctx, "all strings of 3 bytes as the start of other bytes", 3, |w, d| {
			for p in [1, 2, 3, 4] {
				let mut v = pattern(p, 16);
				v[..3].copy_from_slice(d);
				tagged(w, e, &[2, 3, 0], &v);
			}
		});
	}
}

// ---------------------------------------------------------------------------------------------
// C31
// ---------------------------------------------------------------------------------------------

fn c31(ctx: &Ctx) {
	let (starts, steps) = (u64::from(crate::judge::STARTS), u64::from(crate::judge::STEPS));
	for depth in 0..=ctx.q(5u32, 6) {
		ctx.par(&format!("all sequences of {depth} steps"), starts * steps.pow(depth), |w, i| {
			let mut v = vec![(i % starts) as u8];
			let mut j = i / starts;
			for _ in 0..depth {
				v.push((j % steps) as u8);
				j /= steps;
			}
			w.case(Entry::ErrorHistory, &v);
		});
	}
	// long ones: a step that is repeated with another one in between
	ctx.par("long sequences", starts * steps * steps * 6, |w, i| {
		let (s, i) = ((i % starts) as u8, i / starts);
		let (a, i) = ((i % steps) as u8, i / steps);
		let (b, n) = ((i % steps) as u8, [7usize, 8, 16, 33, 100, 300][(i / steps) as usize]);
		for every in [1, 2, 3, 7] {
			let mut v = vec![s];
			v.extend((0..n).map(|k| if k % every == every - 1 { b } else { a }));
			w.case(Entry::ErrorHistory, &v);
		}
	});
}
