//! Executing one case on the real code and comparing it with the model, scoped to one property.

use crate::blame::blame;
use crate::effort::{growth, long, memory, work};
use crate::files::{cli, hex_file};
use crate::pats::pattern;
use crate::threads::{pause, threads};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{Read as _, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::dib::DataInfoBlock;
use libmbus::parse::application_layer::frame::Frame;
#[cfg(feature = "helpers")]
use libmbus::parse::application_layer::record::parse_binary;
use libmbus::parse::application_layer::record::Record;
use libmbus::parse::application_layer::vib::ValueInfoBlock;
#[cfg(feature = "helpers")]
use libmbus::parse::application_layer::vib::{dump_remaining_vifes, parse_vif_byte};
use libmbus::parse::error::{MBusContext, MBusError};
use libmbus::parse::link_layer::Packet;
#[cfg(feature = "manufacturer")]
use libmbus::parse::transport_layer::header::DeviceType;
use libmbus::parse::transport_layer::header::{LongHeader, ShortHeader, TPLHeader};
#[cfg(feature = "manufacturer")]
use libmbus::parse::transport_layer::manufacturer::{device_name, unpack_manufacturer_code};
use libmbus::parse::transport_layer::MBusMessage;
use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};
use libmbus::parse::types::number::{
	parse_bcd, parse_binary_signed, parse_binary_unsigned, parse_invalid_bcd, parse_real,
};
#[cfg(feature = "helpers")]
use libmbus::parse::types::string::{parse_latin1, parse_length_prefix_ascii};
use libmbus::parse::types::DataType;
use winnow::error::{AddContext, ContextError, ErrMode, ErrorConvert, FromExternalError, ParserError, StrContext, StrContextValue};
use winnow::stream::Stream;
use winnow::{Bytes, LocatingSlice, Parser, Partial};

use crate::model::{self, LLoc, LinkM, RLoc, RecM, Step};
use crate::products;
use crate::run::{hash, hex, Machine};

#[derive(Debug)]
pub enum J {
	/// The code agrees with the model: a value (hash of what was reported)
	Accept(u64),
	/// The code agrees with the model: rejected
	Reject,
	/// The property says nothing about this input (the code returned, without a panic)
	Skip,
	Bad(String),
}

fn accept(text: &str) -> J {
	J::Accept(hash(text.as_bytes()))
}
fn bad(s: impl Into<String>) -> J {
	J::Bad(s.into())
}

thread_local! {
	static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
	static LAST_VALID: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
	static GUARDED: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		if GUARDED.with(|g| *g.borrow()) {
			PANIC.with(|p| *p.borrow_mut() = Some(info.to_string().replace('\n', " ")));
		} else {
			old(info);
		}
	}));
}

/// Calls into the code under test
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, J> {
	GUARDED.with(|g| *g.borrow_mut() = true);
	let r = catch_unwind(AssertUnwindSafe(f));
	GUARDED.with(|g| *g.borrow_mut() = false);
	r.map_err(|_| {
		J::Bad(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into()))
	})
}

/// `?` on J
fn run(f: impl FnOnce() -> Result<J, J>) -> J {
	match f() {
		Ok(j) | Err(j) => j,
	}
}

macro_rules! entries {
	($($id:ident = $name:literal => $f:ident,)*) => {
		#[allow(non_camel_case_types)]
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		#[repr(u16)]
		pub enum Entry { $($id,)* }
		const ALL: &[Entry] = &[$(Entry::$id,)*];
		impl Entry {
			pub fn name(self) -> &'static str {
				match self { $(Entry::$id => $name,)* }
			}
			pub fn judge(self, d: &[u8]) -> J {
				match self { $(Entry::$id => $f(d),)* }
			}
			pub fn from_index(i: u16) -> Option<Entry> {
				ALL.get(usize::from(i)).copied()
			}
			pub fn from_name(s: &str) -> Option<Entry> {
				ALL.iter().copied().find(|e| e.name() == s)
			}
		}
	};
}

entries! {
	Total = "total" => total,
	Link = "link" => link,
	Damage = "damage" => damage,
	Control = "control" => control,
	Message = "message" => message,
	Header = "header" => header,
	Product = "product" => product,
	Manufacturer = "manufacturer" => manufacturer,
	FrameBody = "frame" => frame_body,
	FrameItems = "frame-items" => frame_items,
	History = "history" => history,
	Dib = "dib" => dib,
	VibQuantity = "vib-quantity" => vib_quantity,
	VibExtent = "vib-extent" => vib_extent,
	RecordExtent = "record-extent" => record_extent,
	Int = "int" => int,
	Bcd = "bcd" => bcd,
	RecordData = "record-data" => record_data,
	RecordInt = "record-int" => record_int,
	RecordQuantity = "record-quantity" => record_quantity,
	Latin = "latin" => latin,
	Real = "real" => real,
	Date = "date" => date,
	DateTimeF = "date-time-f" => date_time_f,
	Time = "time" => time_j,
	DateTimeI = "date-time-i" => date_time_i,
	Dst = "dst" => dst,
	AppSelect = "app-select" => app_select,
	AppError = "app-error" => app_error,
	PartialFrame = "partial-frame" => partial_frame,
	PartialAny = "partial-any" => partial_any,
	ErrorText = "error-text" => error_text,
	HexFile = "hex-file" => hex_file,
	Cli = "cli" => cli,
	Pattern = "pattern" => pattern,
	Threads = "threads" => threads,
	Memory = "memory" => memory,
	Work = "work" => work,
	Long = "long" => long,
	Growth = "growth" => growth,
	Blame = "blame" => blame,
	Extent = "extent" => extent,
	ErrorHistory = "error-history" => error_history,
}

fn by(b: &[u8]) -> &Bytes {
	Bytes::new(b)
}

/// value and number of bytes consumed
fn prefix<T>(
	b: &[u8],
	f: impl FnOnce(&mut &Bytes) -> Result<T, MBusError>,
) -> Result<Result<(T, usize), MBusError>, J> {
	guard(|| {
		let mut input = by(b);
		let r = f(&mut input);
		r.map(|v| (v, b.len() - input.len()))
	})
}

fn bits_prefix<T>(
	b: &[u8],
	f: impl FnOnce(&mut (&Bytes, usize)) -> Result<T, MBusError>,
) -> Result<Result<(T, usize), MBusError>, J> {
	guard(|| {
		let mut input = (by(b), 0usize);
		let r = f(&mut input);
		r.map(|v| (v, 8 * (b.len() - input.0.len()) + input.1))
	})
}

fn dbg(v: &impl std::fmt::Debug) -> String {
	let mut s = String::with_capacity(160);
	let _ = write!(s, "{v:?}");
	s
}

pub fn packet(b: &[u8]) -> Result<Result<Packet, MBusError>, J> {
	guard(|| Packet::parse.parse(by(b)).map_err(|e| e.into_inner()))
}

// ---------------------------------------------------------------------------------------------
// C01
// ---------------------------------------------------------------------------------------------

pub const SUBS: u8 = 27;

/// Runs one decoding function; its result as text
pub fn decode(sub: u8, n: usize, b: &[u8], text: bool) -> Result<String, String> {
	fn fin<T: std::fmt::Debug>(text: bool, r: Result<T, MBusError>) -> Result<String, String> {
		match r {
			Ok(v) if text => shown(&v),
			Ok(_) => Ok(String::new()),
			Err(e) => Err(e.to_string()),
		}
	}
	fn shown(v: &impl std::fmt::Debug) -> Result<String, String> {
		pause();
		Ok(dbg(v))
	}
	let i = &mut by(b);
	let bi = &mut (by(b), 0usize);
	match sub {
		0 => match Packet::parse.parse(by(b)) {
			Ok(v) if text => shown(&v),
			Ok(_) => Ok(String::new()),
			Err(e) => Err(format!("{} {}", e.offset(), e.into_inner())),
		},
		1 => fin(text, MBusMessage::parse(i)),
		2 => fin(text, Frame::parse(i)),
		3 => fin(text, Record::parse(i)),
		4 => fin(text, ApplicationErrorMessage::parse(i)),
		5 => fin(text, ApplicationMessage::parse(i)),
		6 => fin(text, ShortHeader::parse(i)),
		7 => fin(text, LongHeader::parse(i)),
		8 => fin(text, DataInfoBlock::parse(bi)),
		9 => fin(text, ValueInfoBlock::parse(bi)),
		#[cfg(feature = "helpers")]
		10 => fin(text, dump_remaining_vifes(bi)),
		#[cfg(feature = "helpers")]
		11 => fin(text, parse_vif_byte(bi)),
		#[cfg(feature = "helpers")]
		12 => fin(text, parse_length_prefix_ascii(i)),
		#[cfg(feature = "helpers")]
		13 => fin(text, parse_latin1(n).parse_next(i)),
		14 => fin(text, parse_bcd(n.min(9)).parse_next(i)),
		15 => fin(text, parse_invalid_bcd(n).parse_next(i)),
		16 => fin(text, parse_binary_signed(n.min(8)).parse_next(i)),
		17 => fin(text, parse_binary_unsigned(n.min(8)).parse_next(i)),
		18 => fin(text, parse_real(i)),
		19 => fin(text, TypeFDateTime::parse(i)),
		20 => fin(text, TypeGDate::parse(i)),
		21 => fin(text, TypeIDateTime::parse(i)),
		22 => fin(text, TypeJTime::parse(i)),
		23 => fin(text, TypeKDST::parse(i)),
		#[cfg(feature = "helpers")]
		24 => fin(text, parse_binary(n & 1 == 1, (n >> 1).min(8)).parse_next(i)),
		#[cfg(feature = "manufacturer")]
		25 => {
			let code = b.iter().take(2).fold(0u16, |a, b| a << 8 | u16::from(*b));
			match unpack_manufacturer_code(code) {
				Ok(s) => Ok(s),
				Err(e) => Err(e.to_string()),
			}
		}
		_ => {
			// the bare packet parser on an input that is not required to end there
			match Packet::parse(i) {
				Ok(v) if text => shown(&v),
				Ok(_) => Ok(String::new()),
				Err(e) => Err(e.to_string()),
			}
		}
	}
}

/// [sub, n] + bytes
fn total(d: &[u8]) -> J {
	match guard(|| decode(d[0], d[1].into(), &d[2..], false).is_ok()) {
		Ok(true) => J::Accept(u64::from(d[0]) << 8 | d.get(2).map_or(0, |b| u64::from(*b))),
		Ok(false) => J::Reject,
		Err(j) => j,
	}
}

// ---------------------------------------------------------------------------------------------
// C30
// ---------------------------------------------------------------------------------------------

/// Decoders whose input says itself where it ends: value and bytes consumed
fn delimited(sub: u8, n: usize, b: &[u8]) -> Result<Option<(String, usize)>, J> {
	fn fin<T: std::fmt::Debug>(
		r: Result<Result<(T, usize), MBusError>, J>,
		unit: usize,
	) -> Result<Option<(String, usize)>, J> {
		Ok(match r? {
			Ok((_, k)) if k % unit != 0 => {
				return Err(bad(format!("stopped within a byte, after {k} bits")))
			}
			Ok((v, k)) => Some((dbg(&v), k / unit)),
			Err(_) => None,
		})
	}
	match sub {
		3 => fin(prefix(b, Record::parse), 1),
		6 => fin(prefix(b, ShortHeader::parse), 1),
		7 => fin(prefix(b, LongHeader::parse), 1),
		8 => fin(bits_prefix(b, DataInfoBlock::parse), 8),
		9 => fin(bits_prefix(b, ValueInfoBlock::parse), 8),
		#[cfg(feature = "helpers")]
		10 => fin(bits_prefix(b, dump_remaining_vifes), 8),
		#[cfg(feature = "helpers")]
		11 => fin(bits_prefix(b, parse_vif_byte), 8),
		#[cfg(feature = "helpers")]
		12 => fin(prefix(b, parse_length_prefix_ascii), 1),
		#[cfg(feature = "helpers")]
		13 => fin(prefix(b, |i| parse_latin1(n).parse_next(i)), 1),
		14 => fin(prefix(b, |i| parse_bcd(n.min(9)).parse_next(i)), 1),
		15 => fin(prefix(b, |i| parse_invalid_bcd(n).parse_next(i)), 1),
		16 => fin(prefix(b, |i| parse_binary_signed(n.min(8)).parse_next(i)), 1),
		17 => fin(prefix(b, |i| parse_binary_unsigned(n.min(8)).parse_next(i)), 1),
		18 => fin(prefix(b, parse_real), 1),
		19 => fin(prefix(b, TypeFDateTime::parse), 1),
		20 => fin(prefix(b, TypeGDate::parse), 1),
		21 => fin(prefix(b, TypeIDateTime::parse), 1),
		22 => fin(prefix(b, TypeJTime::parse), 1),
		23 => fin(prefix(b, TypeKDST::parse), 1),
		// a long frame has to be the end of the input
		26 if b.first() != Some(&0x68) => fin(
			prefix(b, |i| Packet::parse(i).map_err(|e| e.into_inner().expect("a verdict"))),
			1,
		),
		_ => Ok(None),
	}
}

/// Strings that may follow: nothing, everything that means something somewhere
const AFTER: [&[u8]; 12] = [
	&[0x00],
	&[0xFF],
	&[0x2F],
	&[0x0F, 0x00],
	&[0x1F],
	&[0x16],
	&[0x80, 0x80, 0x00],
	&[0x01, 0x13, 0x05],
	&[0x99, 0x99, 0x99, 0x99],
	&[0xE5],
	&[0x68, 0x03, 0x03, 0x68, 0x53, 0x01, 0x51, 0xA5, 0x16],
	&[0x31; 300],
];

/// [how, sub, n] + bytes; how 0: the listed strings follow, 1: each byte value follows as well,
/// 2: only the bytes as they are (what follows is in them)
fn extent(d: &[u8]) -> J {
	run(|| {
		let (how, sub, n, b) = (d[0], d[1], usize::from(d[2]), &d[3..]);
		let Some((value, k)) = delimited(sub, n, b)? else {
			for j in (0..b.len()).filter(|j| *j < 40 || j + 8 > b.len()) {
				if let Some(short) = delimited(sub, n, &b[..j])? {
					return Ok(bad(format!(
						"rejected, but the first {j} bytes alone are {short:?}"
					)));
				}
			}
			return Ok(J::Reject);
		};
		if k > b.len() {
			return Ok(bad(format!("{k} bytes consumed of {}", b.len())));
		}
		match delimited(sub, n, &b[..k])? {
			Some((v, l)) if v == value && l == k => {}
			other => {
				return Ok(bad(format!(
					"{value}, {k} bytes consumed, but these bytes alone are {other:?}"
				)))
			}
		}
		for j in 0..k {
			if let Some(short) = delimited(sub, n, &b[..j])? {
				return Ok(bad(format!(
					"{value}, {k} bytes consumed, but the first {j} are enough for {short:?}"
				)));
			}
		}
		let mut v = b[..k].to_vec();
		let mut follow = |s: &[u8]| -> Result<Option<J>, J> {
			v.truncate(k);
			v.extend(s);
			Ok(match delimited(sub, n, &v)? {
				Some((w, l)) if w == value && l == k => None,
				other => Some(bad(format!(
					"{value}, {k} bytes consumed, but followed by {} it is {other:?}",
					hex(s)
				))),
			})
		};
		if how < 2 {
			for s in AFTER {
				if let Some(j) = follow(s)? {
					return Ok(j);
				}
			}
		}
		if how == 1 {
			for s in 0..=255 {
				if let Some(j) = follow(&[s])? {
					return Ok(j);
				}
			}
		}
		Ok(J::Accept(u64::from(sub) << 32 | (k as u64) << 8 | u64::from(b.first().copied().unwrap_or(0))))
	})
}

// ---------------------------------------------------------------------------------------------
// C02, C03, C04
// ---------------------------------------------------------------------------------------------

fn link(d: &[u8]) -> J {
	run(|| {
		let mut m = LinkM::new();
		let mut structure = Ok(());
		for b in d {
			if m.done() {
				structure = Err("trailing data");
			} else if let Err(e) = m.push(*b) {
				structure = Err(e.0);
			}
			if structure.is_err() {
				break;
			}
		}
		if structure.is_ok() && !m.done() {
			structure = Err("cut short");
		}
		// what the payload says is the business of other properties
		let expected = match structure {
			Err(e) => Err(e.to_string()),
			Ok(()) => match d[0] {
				0xE5 => Ok("ack".to_string()),
				0x10 => Ok(format!("short {}", m.address)),
				_ => match prefix(&m.payload, MBusMessage::parse)? {
					Ok((msg, _)) => Ok(format!("long {} {msg:?}", m.address)),
					Err(_) => Err("payload".into()),
				},
			},
		};
		let got = packet(d)?.map(|p| match &p {
			Packet::Ack => "ack".to_string(),
			Packet::Short { address, .. } => format!("short {address}"),
			Packet::Long {
				address, message, ..
			} => format!("long {address} {message:?}"),
		});
		Ok(match (expected, got) {
			(Ok(e), Ok(g)) if e == g => accept(&e),
			(Err(_), Err(_)) => J::Reject,
			(e, g) => bad(format!("expected {e:?}, got {:?}", g.map_err(|e| e.to_string()))),
		})
	})
}

/// [op, position (2), value] + original
fn damage(d: &[u8]) -> J {
	run(|| {
		let (op, pos, val) = (d[0], usize::from(d[1]) << 8 | usize::from(d[2]), d[3]);
		let orig = &d[4..];
		// (the same original comes many times in a row)
		let known = LAST_VALID.with(|l| *l.borrow() == orig);
		if !known {
			if packet(orig)?.is_err() {
				return Ok(J::Skip);
			}
			LAST_VALID.with(|l| *l.borrow_mut() = orig.to_vec());
		}
		let mut v = orig.to_vec();
		let what = match op {
			0 => {
				if v[pos] == val {
					return Ok(J::Skip);
				}
				v[pos] = val;
				format!("byte {pos} replaced by {val:#04x}")
			}
			1 => {
				v.remove(pos);
				format!("byte {pos} deleted")
			}
			2 => {
				v.insert(pos, val);
				format!("{val:#04x} inserted at {pos}")
			}
			3 => {
				v.truncate(pos);
				format!("truncated to {pos} bytes")
			}
			_ => unreachable!(),
		};
		if v == orig {
			return Ok(J::Skip);
		}
		Ok(match packet(&v)? {
			Err(_) => J::Accept(hash(&[op, (pos & 63) as u8])),
			Ok(p) => bad(format!("{what} of {} still decodes: {p:?}", hex(orig))),
		})
	})
}

/// A frame of the right structure, the control byte being the only thing that can be wrong
fn control(d: &[u8]) -> J {
	run(|| {
		let c = if d[0] == 0x10 { d[1] } else { d[4] };
		let got = packet(d)?.map(|p| match p {
			Packet::Ack => "ack".into(),
			Packet::Short { control, .. } => format!("short {control:?}"),
			Packet::Long { control, .. } => format!("long {control:?}"),
		});
		let kind = if d[0] == 0x10 { "short" } else { "long" };
		Ok(match (model::control(c), got) {
			(Some(e), Ok(g)) if g == format!("{kind} {e}") => accept(&g),
			(None, Err(_)) => J::Reject,
			(e, g) => bad(format!("expected {e:?}, got {:?}", g.map_err(|e| e.to_string()))),
		})
	})
}

// ---------------------------------------------------------------------------------------------
// C05, C06, C07
// ---------------------------------------------------------------------------------------------

/// What the message with this CI must be, given what the code makes of header and structured bodies
fn expected_message(d: &[u8]) -> Result<Option<String>, J> {
	use model::Body;
	let Some((&ci, rest)) = d.split_first() else {
		return Ok(None);
	};
	let Some((n, body)) = model::ci_kind(ci) else {
		return Ok(None);
	};
	if rest.len() < n {
		return Ok(None);
	}
	let (h, b) = rest.split_at(n);
	let h = match n {
		0 => "None".to_string(),
		_ => {
			let r = if n == 4 {
				prefix(h, ShortHeader::parse)?
			} else {
				prefix(h, LongHeader::parse)?
			};
			match r {
				Ok((h, used)) if used == n => dbg(&h),
				Ok((_, used)) => return Err(bad(format!("header of {n} bytes consumed {used}"))),
				Err(_) => return Ok(None),
			}
		}
	};
	let select = |b: &[u8]| prefix(b, ApplicationMessage::parse);
	Ok(match body {
		Body::Raw(name, with_ci, with_h) => {
			let mut s = format!("{name}(");
			if with_ci {
				let _ = write!(s, "{ci}, ");
			}
			if with_h {
				let _ = write!(s, "{h}, ");
			}
			let _ = write!(s, "{b:?})");
			Some(s)
		}
		Body::Fixed(name, false, false) => Some(name.into()),
		Body::Fixed(name, true, true) => Some(format!("{name}({ci}, {h})")),
		Body::Fixed(name, ..) => Some(format!("{name}({h})")),
		Body::Baud(rate) => Some(format!("SetBaudRate({rate})")),
		Body::Select => match select(b)? {
			Ok((Some(m), _)) => Some(format!("ApplicationSelect({h}, {m:?})")),
			Ok((None, _)) => Some(format!("ApplicationReset({h})")),
			Err(_) => None,
		},
		Body::Selected => match select(b)? {
			Ok((Some(m), _)) => Some(format!("SelectedApplicationResponse({h}, {m:?})")),
			_ => None,
		},
		Body::Error => prefix(b, ApplicationErrorMessage::parse)?
			.ok()
			.map(|(e, _)| format!("ApplicationErrorFromDevice({h}, {e:?})")),
		Body::Frame => prefix(b, Frame::parse)?
			.ok()
			.map(|(f, _)| format!("ResponseFromDevice({h}, {f:?})")),
	})
}

/// A payload
fn message(d: &[u8]) -> J {
	run(|| {
		let expected = expected_message(d)?;
		let got = prefix(d, MBusMessage::parse)?;
		Ok(match (expected, got) {
			(Some(e), Ok((m, _))) => {
				let g = dbg(&m);
				if e == g {
					accept(&g)
				} else {
					bad(format!("expected {e}, got {g}"))
				}
			}
			(None, Err(_)) => J::Reject,
			(e, g) => bad(format!("expected {e:?}, got {:?}", g.map_err(|e| e.to_string()))),
		})
	})
}

/// [0: short, 1: long] + bytes
fn header(d: &[u8]) -> J {
	run(|| {
		let (kind, b) = (d[0], &d[1..]);
		let n = if kind == 0 { 4 } else { 12 };
		let expected = if b.len() < n {
			None
		} else if kind == 0 {
			model::short_header(&b[..n])
		} else {
			// the product name belongs to another property
			model::long_header(&b[..n]).map(|t| blank_name(&t))
		};
		let got = if kind == 0 {
			prefix(b, ShortHeader::parse)?
		} else {
			prefix(b, LongHeader::parse)?
		};
		Ok(match (expected, got) {
			(None, Err(_)) => J::Reject,
			(Some(e), Ok((h, used))) => {
				let h = match h {
					TPLHeader::Long(mut l) => {
						l.device_name = None;
						TPLHeader::Long(l)
					}
					h => h,
				};
				let g = dbg(&h);
				if e != g {
					bad(format!("expected {e}, got {g}"))
				} else if used != n {
					bad(format!("{n} byte header consumed {used} bytes"))
				} else {
					accept(&g)
				}
			}
			(e, g) => bad(format!("expected {e:?}, got {:?}", g.map_err(|e| e.to_string()))),
		})
	})
}

fn blank_name(t: &str) -> String {
	match t.find("device_name: Some(") {
		None => t.into(),
		Some(i) => {
			let end = i + t[i..].find("\"), ").expect("name ends") + 2;
			format!("{}device_name: None{}", &t[..i], &t[end..])
		}
	}
}

fn plain_header(id: &[u8], man: u16, version: u8, device: u8) -> [u8; 12] {
	let m = man.to_le_bytes();
	[
		id[0], id[1], id[2], id[3], m[0], m[1], version, device, 0, 0, 0, 0,
	]
}

/// The decoded device type of every code
#[cfg(feature = "manufacturer")]
fn device_types() -> &'static Vec<DeviceType> {
	static T: OnceLock<Vec<DeviceType>> = OnceLock::new();
	T.get_or_init(|| {
		(0..=255u8)
			.map(|c| {
				let h = plain_header(&[0, 0, 0, 0], products::pack(b"AAA"), 0, c);
				match LongHeader::parse(&mut by(&h)) {
					Ok(TPLHeader::Long(l)) => l.device_type,
					_ => DeviceType::Other,
				}
			})
			.collect()
	})
}

/// [id (4), manufacturer low, high, version, device type]
fn product(d: &[u8]) -> J {
	run(|| {
		let man = u16::from(d[5]) << 8 | u16::from(d[4]);
		let expected = products::product(d[3], man, d[6], d[7]);
		#[cfg(feature = "manufacturer")]
		{
			let types = guard(device_types)?;
			let direct = guard(|| device_name(&d[..4], man, d[6], types[usize::from(d[7])]))?;
			if direct != expected {
				return Ok(bad(format!("expected product {expected:?}, got {direct:?}")));
			}
		}
		let digits = d[..4].iter().all(|b| b >> 4 < 10 && b & 15 < 10);
		if digits && model::manufacturer(d[4], d[5]).is_some() {
			let h = plain_header(&d[..4], man, d[6], d[7]);
			match prefix(&h, LongHeader::parse)? {
				Ok((TPLHeader::Long(l), _)) if l.device_name == expected => {}
				Ok((h, _)) => return Ok(bad(format!("expected product {expected:?}, got {h:?}"))),
				Err(e) => return Ok(bad(format!("header rejected: {e}"))),
			}
		}
		Ok(match expected {
			Some(n) => accept(n),
			None => J::Accept(0),
		})
	})
}

/// [low, high, id3, version, device type]
fn manufacturer(d: &[u8]) -> J {
	run(|| {
		let man = u16::from(d[1]) << 8 | u16::from(d[0]);
		let expected = model::manufacturer(d[0], d[1]);
		let h = plain_header(&[0, 0, 0, d[2]], man, d[3], d[4]);
		let got = match prefix(&h, LongHeader::parse)? {
			Ok((TPLHeader::Long(l), _)) => Some(l.manufacturer),
			_ => None,
		};
		if got != expected {
			return Ok(bad(format!("expected manufacturer {expected:?}, got {got:?}")));
		}
		let Some(e) = expected else {
			return Ok(J::Reject);
		};
		#[cfg(feature = "manufacturer")]
		{
			let b = e.as_bytes();
			let packed = products::pack(&[b[0], b[1], b[2]]);
			let un = guard(|| unpack_manufacturer_code(packed).ok())?;
			if un.as_ref() != Some(&e) {
				return Ok(bad(format!("{e} packs to {packed:#06x}, which unpacks to {un:?}")));
			}
		}
		Ok(accept(&e))
	})
}

// ---------------------------------------------------------------------------------------------
// C08, C09
// ---------------------------------------------------------------------------------------------

struct Split {
	records: Vec<String>,
	more: bool,
	trailer: Vec<u8>,
}

/// Splits a body with nothing but the rules for fillers and end markers; None: malformed record
fn split_frame(mut b: &[u8]) -> Result<Option<Split>, J> {
	let mut s = Split {
		records: vec![],
		more: false,
		trailer: vec![],
	};
	loop {
		match b.first() {
			None => return Ok(Some(s)),
			Some(0x2F) => b = &b[1..],
			Some(m @ (0x0F | 0x1F)) => {
				s.more = *m == 0x1F;
				s.trailer = b[1..].to_vec();
				return Ok(Some(s));
			}
			Some(_) => match prefix(b, Record::parse)? {
				Err(_) => return Ok(None),
				Ok((_, 0)) => return Err(bad("a record of no bytes")),
				Ok((_, n)) => {
					// its own bytes alone
					match prefix(&b[..n], Record::parse)? {
						Ok((r, k)) if k == n => s.records.push(dbg(&r)),
						Ok((_, k)) => {
							return Err(bad(format!(
								"{} consumes {n} bytes followed by others, {k} alone",
								hex(&b[..n])
							)))
						}
						Err(e) => {
							return Err(bad(format!(
								"{} is accepted followed by others, rejected alone: {e}",
								hex(&b[..n])
							)))
						}
					}
					b = &b[n..];
				}
			},
		}
	}
}

fn compare_frame(d: &[u8], expected: Option<Split>) -> Result<J, J> {
	let got = prefix(d, Frame::parse)?;
	Ok(match (expected, got) {
		(None, Err(_)) => J::Reject,
		(Some(e), Ok((f, used))) => {
			let records: Vec<String> = f.records.iter().map(dbg).collect();
			if records != e.records {
				bad(format!("expected records {:?}, got {records:?}", e.records))
			} else if f.more_data_follows != e.more {
				bad(format!("expected more_data_follows {}", e.more))
			} else if f.manufacturer_specific != e.trailer {
				bad(format!(
					"expected trailer {:?}, got {:?}",
					e.trailer, f.manufacturer_specific
				))
			} else if used != d.len() {
				bad(format!("consumed {used} of {} bytes", d.len()))
			} else {
				let mut h = hash(&f.manufacturer_specific) ^ u64::from(e.more);
				for r in &records {
					h = hash(&[h.to_le_bytes(), hash(r.as_bytes()).to_le_bytes()].concat());
				}
				J::Accept(h)
			}
		}
		(None, Ok((f, _))) => bad(format!("a malformed record is accepted: {f:?}")),
		(Some(e), Err(g)) => bad(format!("rejected ({g}), expected records {:?}", e.records)),
	})
}

/// A frame body
fn frame_body(d: &[u8]) -> J {
	run(|| {
		let expected = split_frame(d)?;
		compare_frame(d, expected)
	})
}

/// Items (length (2), bytes), each a record or fillers: a frame lists exactly the records
fn frame_items(d: &[u8]) -> J {
	run(|| {
		let mut body = vec![];
		let mut records = vec![];
		for item in items(d) {
			body.extend(item);
			if item.first() != Some(&0x2F) {
				match prefix(item, Record::parse)? {
					Ok((r, n)) if n == item.len() => records.push(dbg(&r)),
					Ok((_, n)) => return Ok(bad(format!("{} consumed {n} bytes", hex(item)))),
					Err(_) => return Ok(J::Skip),
				}
			}
		}
		compare_frame(
			&body,
			Some(Split {
				records,
				more: false,
				trailer: vec![],
			}),
		)
	})
}

pub fn push_item(v: &mut Vec<u8>, item: &[u8]) {
	v.extend((item.len() as u16).to_be_bytes());
	v.extend(item);
}

pub fn items(mut d: &[u8]) -> Vec<&[u8]> {
	let mut v = vec![];
	while d.len() >= 2 {
		let n = usize::from(d[0]) << 8 | usize::from(d[1]);
		v.push(&d[2..2 + n]);
		d = &d[2 + n..];
	}
	v
}

/// The result of one decode call as text; item: [sub, n] + bytes
pub fn call(item: &[u8]) -> String {
	match guard(|| decode(item[0], item[1].into(), &item[2..], true)) {
		Ok(Ok(s)) => format!("ok {s}"),
		Ok(Err(s)) => format!("err {s}"),
		Err(j) => format!("{j:?}"),
	}
}

/// A process that answers requests
struct Server {
	child: std::process::Child,
	to: std::process::ChildStdin,
	from: std::process::ChildStdout,
}

impl Server {
	fn new(what: &str) -> Self {
		use std::process::{Command, Stdio};
		let mut child = Command::new(std::env::current_exe().unwrap())
			.arg(what)
			.stdin(Stdio::piped())
			.stdout(Stdio::piped())
			.stderr(Stdio::null())
			.spawn()
			.expect("child");
		let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
		Self { child, to, from }
	}
	/// None: it died
	fn ask(&mut self, request: &[u8]) -> Option<Vec<u8>> {
		let mut b = (request.len() as u32).to_le_bytes().to_vec();
		b.extend(request);
		self.to.write_all(&b).ok()?;
		let mut n = [0; 4];
		self.from.read_exact(&mut n).ok()?;
		let mut reply = vec![0; u32::from_le_bytes(n) as usize];
		self.from.read_exact(&mut reply).ok()?;
		Some(reply)
	}
}

impl Drop for Server {
	fn drop(&mut self) {
		let _ = self.child.kill();
		let _ = self.child.wait();
	}
}

fn serve(mut answer: impl FnMut(&[u8]) -> Option<Vec<u8>>) -> i32 {
	extern "C" {
		fn prctl(option: i32, ...) -> i32;
	}
	// (a hung one doesn't notice that nobody asks any more)
	unsafe { prctl(1 /* PDEATHSIG */, 9u64) };
	let (mut stdin, mut stdout) = (std::io::stdin().lock(), std::io::stdout().lock());
	let mut n = [0; 4];
	while stdin.read_exact(&mut n).is_ok() {
		let mut request = vec![0; u32::from_le_bytes(n) as usize];
		stdin.read_exact(&mut request).expect("request");
		if let Some(reply) = answer(&request) {
			let mut b = (reply.len() as u32).to_le_bytes().to_vec();
			b.extend(reply);
			stdout.write_all(&b).and_then(|_| stdout.flush()).expect("reply");
		}
	}
	0
}

/// Every request is answered by a fork of this process, which never decodes anything itself.
/// Request: one call, or FF and a schedule of calls (as in `threads`), or FE and a call whose steps are counted
pub fn pristine() -> i32 {
	extern "C" {
		fn fork() -> i32;
		fn waitpid(p: i32, status: *mut i32, options: i32) -> i32;
		fn alarm(seconds: u32) -> u32;
		fn _exit(code: i32) -> !;
		fn write(fd: i32, b: *const u8, n: usize) -> isize;
	}
	serve(|request| {
		let results = if request[0] == 0xFF { usize::from(request[2]) } else { 1 };
		let mut status = 0;
		unsafe {
			match fork() {
				0 => {
					alarm(20);
					let mut h = (8 * results as u32).to_le_bytes().to_vec();
					if request[0] == 0xFE {
						h.extend(u64::from(crate::threads::steps(&request[1..])).to_le_bytes());
					} else if request[0] == 0xFF {
						let (turns, calls) = crate::threads::parse(&request[1..]);
						for r in crate::threads::run_turns(&calls, &turns) {
							h.extend(r.0.to_le_bytes());
						}
					} else {
						h.extend(hash(call(request).as_bytes()).to_le_bytes());
					}
					let ok = write(1, h.as_ptr(), h.len()) == h.len() as isize;
					_exit(i32::from(!ok))
				}
				p => assert!(p > 0 && waitpid(p, &mut status, 0) == p),
			}
		}
		// died: differs from every result
		(status != 0).then(|| vec![0; 8 * results])
	})
}

/// Schedules are run by a process of their own, in which nobody else decodes
pub fn scheduler() -> i32 {
	serve(|request| {
		let n = usize::from(request[0]);
		let expected: Vec<u64> = request[1..1 + 8 * n]
			.chunks(8)
			.map(|b| u64::from_le_bytes(b.try_into().unwrap()))
			.collect();
		Some(match crate::threads::judge_here(&request[1 + 8 * n..], &expected) {
			Ok(h) => cat_result(0, &h.to_le_bytes()),
			Err(s) => cat_result(1, s.as_bytes()),
		})
	})
}

fn cat_result(code: u8, b: &[u8]) -> Vec<u8> {
	[&[code], b].concat()
}

pub fn schedule(case: &[u8], expected: &[u64]) -> J {
	thread_local! {
		static S: RefCell<Option<Server>> = const { RefCell::new(None) };
	}
	let mut r = vec![expected.len() as u8];
	for e in expected {
		r.extend(e.to_le_bytes());
	}
	r.extend(case);
	S.with_borrow_mut(|s| match s.get_or_insert_with(|| Server::new("scheduler")).ask(&r) {
		Some(reply) if reply[0] == 0 => J::Accept(u64::from_le_bytes(reply[1..].try_into().unwrap())),
		Some(reply) => bad(String::from_utf8_lossy(&reply[1..])),
		None => {
			*s = None;
			bad("the process dies")
		}
	})
}

fn ask_pristine(request: &[u8]) -> Vec<u64> {
	thread_local! {
		static P: RefCell<Option<Server>> = const { RefCell::new(None) };
	}
	let reply = P.with_borrow_mut(|p| p.get_or_insert_with(|| Server::new("pristine")).ask(request));
	reply
		.expect("the server doesn't decode itself")
		.chunks(8)
		.map(|b| u64::from_le_bytes(b.try_into().unwrap()))
		.collect()
}

/// How many steps a call takes in a process that hasn't decoded anything before
pub fn first_steps(item: &[u8]) -> u32 {
	ask_pristine(&[&[0xFE], item].concat())[0] as u32
}

/// The results of calls in several threads (case as in `threads`) of a process that hasn't decoded anything before
pub fn scheduled_baseline(case: &[u8]) -> Vec<u64> {
	ask_pristine(&[&[0xFF], case].concat())
}

/// The result that a process gets that hasn't decoded anything before
pub fn baseline(item: &[u8]) -> u64 {
	use std::collections::HashMap;
	use std::sync::RwLock;
	static B: OnceLock<RwLock<HashMap<Vec<u8>, u64>>> = OnceLock::new();
	let b = B.get_or_init(Default::default);
	if let Some(h) = b.read().unwrap().get(item) {
		return *h;
	}
	let h = ask_pristine(item)[0];
	b.write().unwrap().insert(item.to_vec(), h);
	h
}

/// A sequence of calls
fn history(d: &[u8]) -> J {
	let mut h = 0;
	for (k, item) in items(d).into_iter().enumerate() {
		let text = call(item);
		let got = hash(text.as_bytes());
		if got != baseline(item) {
			return bad(format!(
				"call {k}, decoding {}, gives something else than in a fresh process: {text}",
				hex(&item[2..])
			));
		}
		h = hash(&[(h as u64).to_le_bytes(), got.to_le_bytes()].concat());
	}
	J::Accept(h)
}

// ---------------------------------------------------------------------------------------------
// C10, C11, C12, C13
// ---------------------------------------------------------------------------------------------

fn dib(d: &[u8]) -> J {
	run(|| {
		let mut m = RecM::new();
		let mut used = 0;
		let mut expected = Err("cut short");
		for b in d {
			used += 1;
			if let Err(e) = m.push(*b) {
				expected = Err(e.0);
				break;
			}
			if m.loc == RLoc::Vif {
				expected = Ok(m.dib_text());
				break;
			}
		}
		let got = bits_prefix(d, DataInfoBlock::parse)?;
		let e = match (expected, got) {
			(Err(_), Err(_)) => {
				return Ok(match prefix(d, Record::parse)? {
					Err(_) => J::Reject,
					Ok((r, _)) => bad(format!("the record is accepted: {r:?}")),
				})
			}
			(Ok(e), Ok((v, bits))) => {
				let g = dbg(&v);
				if e != g {
					return Ok(bad(format!("expected {e}, got {g}")));
				}
				if bits != 8 * used {
					return Ok(bad(format!("consumed {bits} bits of {used} bytes")));
				}
				e
			}
			(e, g) => {
				return Ok(bad(format!(
					"expected {e:?}, got {:?}",
					g.map_err(|e| e.to_string())
				)))
			}
		};
		// The same block within a record (of any volume)
		let mut rec = d[..used].to_vec();
		let mut step = m.push(0x13);
		rec.push(0x13);
		while let Ok(Step::More) = step {
			let b = m.closing_byte();
			rec.push(b);
			step = m.push(b);
		}
		Ok(match prefix(&rec, Record::parse)? {
			Ok((r, _)) if dbg(&r.dib) == e => accept(&e),
			Ok((r, _)) => bad(format!("expected {e} in {}, got {r:?}", hex(&rec))),
			Err(g) => bad(format!("expected {e} in {}, got {g}", hex(&rec))),
		})
	})
}

/// Model of a value information block; Ok: machine and length
fn model_vib(d: &[u8]) -> Result<(RecM, usize), &'static str> {
	let mut m = RecM::new();
	m.push(0x00).expect("DIF 00");
	for (i, b) in d.iter().enumerate() {
		match m.push(*b) {
			Err(e) => return Err(e.0),
			Ok(Step::Done) => return Ok((m, i + 1)),
			Ok(Step::More) => {}
		}
	}
	Err("cut short")
}

fn vib_quantity(d: &[u8]) -> J {
	run(|| {
		let expected = model_vib(d);
		let got = bits_prefix(d, ValueInfoBlock::parse)?;
		let e = match (&expected, got) {
			(Err(_), Err(_)) => return Ok(J::Reject),
			(Ok((m, _)), Ok((v, _))) => {
				let (e, g) = (m.quantity_alone(), dbg(&v.value_type));
				if e != g {
					return Ok(bad(format!("expected {e}, got {g}")));
				}
				e
			}
			(e, g) => {
				return Ok(bad(format!(
					"expected {:?}, got {:?}",
					e.as_ref().map(|e| e.0.quantity_alone()),
					g.map_err(|e| e.to_string())
				)))
			}
		};
		// The same block in a record with a one byte integer
		let (_, n) = expected.expect("accepted");
		let mut rec = vec![0x01];
		rec.extend(&d[..n]);
		rec.push(0x11);
		let er = model::record(&rec).map(|m| m.quantity_text());
		match (er, prefix(&rec, Record::parse)?) {
			(Ok(e), Ok((r, _))) if dbg(&r.vib.value_type) == e => {}
			(e, g) => {
				return Ok(bad(format!(
					"in record {}: expected {e:?}, got {:?}",
					hex(&rec),
					g.map_err(|e| e.to_string())
				)))
			}
		}
		Ok(accept(&e))
	})
}

fn vib_extent(d: &[u8]) -> J {
	run(|| {
		let expected = model_vib(d);
		let got = bits_prefix(d, ValueInfoBlock::parse)?;
		let rec: Vec<u8> = [&[0x00], d].concat();
		let in_record = prefix(&rec, Record::parse)?;
		Ok(match (expected, got, in_record) {
			(Err(_), Err(_), Err(_)) => J::Reject,
			(Ok((m, n)), Ok((v, bits)), Ok((r, used))) => {
				let vifes = m.vifes();
				let text = m.plain_text();
				if v.extra_vifes != vifes || r.vib.extra_vifes != vifes {
					bad(format!(
						"expected extensions {vifes:?}, got {:?}, in a record {:?}",
						v.extra_vifes, r.vib.extra_vifes
					))
				} else if bits != 8 * n || used != 1 + n {
					bad(format!(
						"expected {n} bytes, consumed {bits} bits, the record {used} bytes"
					))
				} else if let Some(t) = text {
					if dbg(&v.value_type) != t || dbg(&r.vib.value_type) != t {
						bad(format!("expected {t}, got {:?}", v.value_type))
					} else {
						J::Accept(hash(t.as_bytes()) ^ hash(&vifes.unwrap_or_default()))
					}
				} else {
					J::Accept(hash(&vifes.map_or(vec![1, 2, 3], |v| v)) ^ 1)
				}
			}
			(e, g, r) => bad(format!(
				"expected {:?}, got {:?}, in a record {:?}",
				e.map(|e| e.0.vib_text_alone()),
				g.map_err(|e| e.to_string()),
				r.map_err(|e| e.to_string()),
			)),
		})
	})
}

fn class(d: &DataType) -> &'static str {
	match d {
		DataType::DateTimeF(_) => "F",
		DataType::DateTimeI(_) => "I",
		DataType::Date(_) => "G",
		DataType::Time(_) => "J",
		DataType::DST(_) => "K",
		_ => "plain",
	}
}

/// A record and what follows it
fn record_extent(d: &[u8]) -> J {
	run(|| {
		let expected = model::record(d);
		let got = prefix(d, Record::parse)?;
		Ok(match (expected, got) {
			(Err(_), Err(_)) => J::Reject,
			(Ok(m), Ok((r, used))) => {
				let (ec, gc) = (m.class(), class(&r.data));
				if used != m.consumed {
					bad(format!("expected {} bytes, consumed {used}: {r:?}", m.consumed))
				} else if ec != gc {
					bad(format!("expected data of class {ec}, got {r:?}"))
				} else if ec == "plain" && m.plain_kind() != kind(&r.data) {
					bad(format!("expected plain data ({}), got {r:?}", m.plain_kind()))
				} else {
					J::Accept(hash(format!("{ec}{used}{}", kind(&r.data)).as_bytes()))
				}
			}
			(e, g) => bad(format!(
				"expected {:?}, got {:?}",
				e.map(|m| format!("{} ({} bytes)", m.text(), m.consumed)),
				g.map_err(|e| e.to_string())
			)),
		})
	})
}

/// Plain data, integers of either signedness and BCD errors being the business of other properties
fn kind(d: &DataType) -> &'static str {
	match d {
		DataType::None => "none",
		DataType::Signed(_) | DataType::Unsigned(_) | DataType::ErrorValue(_) => "number",
		DataType::Real(_) => "real",
		DataType::String(_) => "string",
		DataType::VariableLengthNumber(_) => "big",
		_ => "other",
	}
}

// ---------------------------------------------------------------------------------------------
// C14, C15, C16, C17
// ---------------------------------------------------------------------------------------------

/// [n] + bytes: both decoders, on their own and through `parse_binary`
fn int(d: &[u8]) -> J {
	run(|| {
		let (n, b) = (usize::from(d[0]), &d[1..]);
		let signed = prefix(b, |i| parse_binary_signed(n).parse_next(i))?;
		let unsigned = prefix(b, |i| parse_binary_unsigned(n).parse_next(i))?;
		let any = |f: &dyn Fn(&mut &Bytes) -> Result<DataType, MBusError>| prefix(b, f);
		#[cfg(feature = "helpers")]
		let (ps, pu) = (
			any(&|i| parse_binary(false, n).parse_next(i))?,
			any(&|i| parse_binary(true, n).parse_next(i))?,
		);
		#[cfg(not(feature = "helpers"))]
		let (ps, pu) = (
			any(&|i| parse_binary_signed(n).map(DataType::Signed).parse_next(i))?,
			any(&|i| parse_binary_unsigned(n).map(DataType::Unsigned).parse_next(i))?,
		);
		Ok(if b.len() < n {
			if signed.is_ok() || unsigned.is_ok() || ps.is_ok() || pu.is_ok() {
				bad("accepted with too few bytes")
			} else {
				J::Reject
			}
		} else {
			let (s, u) = (model::signed_le(&b[..n]), model::unsigned_le(&b[..n]));
			if signed != Ok((s, n)) {
				bad(format!("signed: expected {s}, got {signed:?}"))
			} else if unsigned != Ok((u, n)) {
				bad(format!("unsigned: expected {u}, got {unsigned:?}"))
			} else if ps != Ok((DataType::Signed(s), n)) {
				bad(format!("signed data: expected {s}, got {ps:?}"))
			} else if pu != Ok((DataType::Unsigned(u), n)) {
				bad(format!("unsigned data: expected {u}, got {pu:?}"))
			} else {
				J::Accept(u ^ (n as u64) << 57)
			}
		})
	})
}

/// [n] + bytes
fn bcd(d: &[u8]) -> J {
	run(|| {
		let (n, b) = (usize::from(d[0]), &d[1..]);
		let number = prefix(b, |i| parse_bcd(n).parse_next(i))?;
		if b.len() < n {
			return Ok(match number {
				Ok(_) => bad("accepted with too few bytes"),
				Err(_) => J::Reject,
			});
		}
		Ok(match model::bcd(&b[..n]) {
			Some(v) => {
				if number != Ok((v, n)) {
					bad(format!("expected {v}, got {number:?}"))
				} else {
					J::Accept(v as u64 ^ (n as u64) << 57)
				}
			}
			None => {
				if number.is_ok() {
					return Ok(bad(format!("expected an error, got {number:?}")));
				}
				let text = prefix(b, |i| parse_invalid_bcd(n).parse_next(i))?;
				let e = model::bcd_text(&b[..n]);
				match text {
					Ok((t, k)) if t == e && k == n => J::Reject,
					g => bad(format!("expected {e}, got {g:?}")),
				}
			}
		})
	})
}

/// A record: its data
fn record_data(d: &[u8]) -> J {
	run(|| {
		let expected = model::record(d);
		let got = prefix(d, Record::parse)?;
		Ok(match (expected, got) {
			(Err(_), Err(_)) => J::Reject,
			(Ok(m), Ok((r, used))) => {
				let (e, g) = (m.data_text().expect("accepted"), dbg(&r.data));
				if e != g {
					bad(format!("expected {e}, got {g}"))
				} else if used != m.consumed {
					bad(format!("expected {} bytes, consumed {used}", m.consumed))
				} else {
					accept(&g)
				}
			}
			(e, g) => bad(format!(
				"expected {:?}, got {:?}",
				e.map(|m| m.text()),
				g.map_err(|e| e.to_string())
			)),
		})
	})
}

/// A record with an integer type: its value and signedness (dates being other properties' business)
fn record_int(d: &[u8]) -> J {
	if model::record(d).is_ok_and(|m| m.class() != "plain") {
		return J::Skip;
	}
	record_data(d)
}

/// A record: its quantity
fn record_quantity(d: &[u8]) -> J {
	run(|| {
		let expected = model::record(d).map(|m| m.quantity_text());
		let got = prefix(d, Record::parse)?.map(|(r, _)| dbg(&r.vib.value_type));
		Ok(match (expected, got) {
			(Err(_), Err(_)) => J::Reject,
			(Ok(e), Ok(g)) if e == g => accept(&g),
			(e, g) => bad(format!("expected {e:?}, got {:?}", g.map_err(|e| e.to_string()))),
		})
	})
}

#[cfg(not(feature = "helpers"))]
fn latin(_: &[u8]) -> J {
	J::Skip
}

/// [n] + bytes
#[cfg(feature = "helpers")]
fn latin(d: &[u8]) -> J {
	run(|| {
		let (n, b) = (usize::from(d[0]), &d[1..]);
		let got = prefix(b, |i| parse_latin1(n).parse_next(i))?;
		Ok(if b.len() < n {
			match got {
				Ok(_) => bad("accepted with too few bytes"),
				Err(_) => J::Reject,
			}
		} else {
			let e = model::latin(&b[..n]);
			match got {
				Ok((s, k)) if s == e && k == n => accept(&s),
				g => bad(format!("expected {e:?}, got {g:?}")),
			}
		})
	})
}

/// 4 bytes (or fewer)
fn real(d: &[u8]) -> J {
	run(|| {
		let direct = prefix(d, parse_real)?.map(|(v, n)| (v.to_bits(), n));
		let mut rec = [0u8; 6];
		rec[..2].copy_from_slice(&[0x05, 0x13]);
		rec[2..2 + d.len()].copy_from_slice(d);
		let in_record = match prefix(&rec[..2 + d.len()], Record::parse)? {
			Ok((r, n)) => match r.data {
				DataType::Real(v) => Ok((v.to_bits(), n - 2)),
				ref v => return Ok(bad(format!("not a real: {v:?}"))),
			},
			Err(e) => Err(e),
		};
		if d.len() < 4 {
			return Ok(if direct.is_ok() || in_record.is_ok() {
				bad("accepted with too few bytes")
			} else {
				J::Reject
			});
		}
		let e = u32::from(d[0])
			| u32::from(d[1]) << 8
			| u32::from(d[2]) << 16
			| u32::from(d[3]) << 24;
		Ok(if direct != Ok((e, 4)) || in_record != Ok((e, 4)) {
			bad(format!(
				"expected bits {e:#x}, got {direct:x?}, in a record {in_record:x?}"
			))
		} else {
			J::Accept(e.into())
		})
	})
}

// ---------------------------------------------------------------------------------------------
// C18, C19, C20
// ---------------------------------------------------------------------------------------------

fn fields<E: PartialEq + std::fmt::Debug>(
	d: &[u8],
	n: usize,
	model: impl FnOnce(&[u8]) -> Option<E>,
	got: Result<(E, usize), MBusError>,
	h: impl FnOnce(&E) -> u64,
) -> J {
	let expected = if d.len() < n { None } else { model(&d[..n]) };
	match (expected, got) {
		(None, Err(_)) => J::Reject,
		(Some(e), Ok((g, used))) if e == g && used == n => J::Accept(h(&e)),
		(e, g) => bad(format!("expected {e:?}, got {g:?}")),
	}
}

fn date(d: &[u8]) -> J {
	run(|| {
		let got = prefix(d, TypeGDate::parse)?;
		Ok(fields(
			d,
			2,
			|b| model::date(b[0], b[1]).map(|(day, month, year)| TypeGDate { day, month, year }),
			got,
			|e| u64::from(e.day) << 16 | u64::from(e.month) << 8 | u64::from(e.year),
		))
	})
}

fn date_time_f(d: &[u8]) -> J {
	run(|| {
		let got = prefix(d, TypeFDateTime::parse)?;
		Ok(fields(
			d,
			4,
			|b| {
				model::datetime_f([b[0], b[1], b[2], b[3]]).map(
					|(minute, hour, day, month, year, hundred_year, in_dst)| TypeFDateTime {
						minute,
						hour,
						day,
						month,
						year,
						hundred_year,
						in_dst,
					},
				)
			},
			got,
			|_| u64::from(u32::from_le_bytes([d[0], d[1], d[2], d[3]])),
		))
	})
}

fn time_j(d: &[u8]) -> J {
	run(|| {
		let got = prefix(d, TypeJTime::parse)?;
		Ok(fields(
			d,
			3,
			|b| {
				model::time_j([b[0], b[1], b[2]]).map(|(second, minute, hour)| TypeJTime {
					second,
					minute,
					hour,
				})
			},
			got,
			|_| u64::from(u32::from_le_bytes([d[0], d[1], d[2], 0])),
		))
	})
}

fn date_time_i(d: &[u8]) -> J {
	run(|| {
		let got = prefix(d, TypeIDateTime::parse)?;
		Ok(fields(
			d,
			6,
			|b| {
				model::datetime_i([b[0], b[1], b[2], b[3], b[4], b[5]]).map(|v| TypeIDateTime {
					second: v.second,
					minute: v.minute,
					hour: v.hour,
					day: v.day,
					month: v.month,
					year: v.year,
					day_of_week: v.day_of_week,
					week: v.week,
					in_dst: v.in_dst,
					leap_year: v.leap_year,
					dst_offset: v.dst_offset,
				})
			},
			got,
			|_| hash(d),
		))
	})
}

fn dst(d: &[u8]) -> J {
	run(|| {
		let got = prefix(d, TypeKDST::parse)?;
		Ok(fields(
			d,
			4,
			|b| {
				model::dst_k([b[0], b[1], b[2], b[3]]).map(|v| TypeKDST {
					starts_hour: v.starts_hour,
					starts_day: v.starts_day,
					starts_month: v.starts_month,
					ends_day: v.ends_day,
					ends_month: v.ends_month,
					enable: v.enable,
					dst_deviation: v.dst_deviation,
					local_deviation: v.local_deviation,
				})
			},
			got,
			|_| u64::from(u32::from_le_bytes([d[0], d[1], d[2], d[3]])),
		))
	})
}

// ---------------------------------------------------------------------------------------------
// C21, C22
// ---------------------------------------------------------------------------------------------

/// The values of a derived Debug text without the names of the fields
fn nameless(s: &str) -> String {
	s.split(' ').filter(|w| !w.ends_with(':')).collect::<Vec<_>>().join(" ")
}

/// A payload with CI 50, 53-55, 66-68 and a valid header
fn app_select(d: &[u8]) -> J {
	run(|| {
		let mut m = model::MsgM::new();
		for b in d {
			if m.push(*b).is_err() {
				return Ok(J::Skip);
			}
		}
		let expected = m.eof();
		let got = prefix(d, MBusMessage::parse)?;
		if m.unspecified {
			return Ok(J::Skip);
		}
		Ok(match (expected, got) {
			(Err(_), Err(_)) => J::Reject,
			(Ok(e), Ok((g, _))) => {
				let g = dbg(&g);
				if nameless(&e) == nameless(&g) {
					accept(&g)
				} else {
					bad(format!("expected {e}, got {g}"))
				}
			}
			(e, g) => bad(format!("expected {e:?}, got {:?}", g.map_err(|e| e.to_string()))),
		})
	})
}

/// A payload with CI 6E, 6F, 70 and a valid header
fn app_error(d: &[u8]) -> J {
	run(|| {
		let (n, body) = model::ci_kind(d[0]).expect("an error CI");
		assert_eq!(body, model::Body::Error);
		let (h, b) = d[1..].split_at(n);
		let h = match n {
			0 => "None".into(),
			4 => model::short_header(h).expect("a valid header"),
			_ => model::long_header(h).expect("a valid header"),
		};
		let expected = match b.first() {
			None => Some("Unspecified".into()),
			Some(0xF0) => prefix(&b[1..], Record::parse)?
				.ok()
				.map(|(r, _)| format!("DynamicError({r:?})")),
			Some(c @ 0xF1..) => Some(format!("ManufacturerSpecific({c}, {:?})", &b[1..])),
			Some(c) => model::ERROR_NAMES
				.iter()
				.find(|e| e.0 == *c)
				.map(|e| e.1.to_string()),
		};
		let direct = prefix(b, ApplicationErrorMessage::parse)?;
		let got = prefix(d, MBusMessage::parse)?;
		Ok(match (expected, direct, got) {
			(None, Err(_), Err(_)) => J::Reject,
			(Some(e), Ok((a, _)), Ok((g, _))) => {
				let (a, g) = (dbg(&a), dbg(&g));
				if a != e {
					bad(format!("expected {e}, got {a}"))
				} else if g != format!("ApplicationErrorFromDevice({h}, {e})") {
					bad(format!("expected {e}, got {g}"))
				} else {
					accept(&e)
				}
			}
			(e, a, g) => bad(format!(
				"expected {e:?}, got {:?}, as a message {:?}",
				a.map_err(|e| e.to_string()),
				g.map_err(|e| e.to_string())
			)),
		})
	})
}

// ---------------------------------------------------------------------------------------------
// C23
// ---------------------------------------------------------------------------------------------

#[derive(Debug, PartialEq)]
enum Verdict {
	Incomplete,
	Reject,
	Accept(String),
}

fn verdict(r: Result<Packet, ErrMode<MBusError>>) -> Verdict {
	match r {
		Ok(p) => Verdict::Accept(dbg(&p)),
		Err(ErrMode::Incomplete(_)) => Verdict::Incomplete,
		Err(_) => Verdict::Reject,
	}
}

fn partial(d: &[u8]) -> Result<(Verdict, usize), J> {
	guard(|| {
		let mut i = Partial::new(by(d));
		let v = verdict(Packet::parse(&mut i));
		(v, d.len() - i.len())
	})
}

/// Verdicts of the other kinds of stream on the whole input, trailing bytes not being looked at
fn streams_agree(d: &[u8]) -> Result<(), J> {
	let complete = guard(|| {
		let mut i = by(d);
		let v = verdict(Packet::parse(&mut i));
		(v, d.len() - i.len())
	})?;
	let slice = guard(|| {
		let mut i = d;
		let v = verdict(Packet::parse(&mut i));
		(v, d.len() - i.len())
	})?;
	let located = guard(|| {
		let mut i = LocatingSlice::new(d);
		let v = verdict(Packet::parse(&mut i));
		(v, d.len() - i.eof_offset())
	})?;
	let finished = guard(|| {
		use winnow::stream::StreamIsPartial;
		let mut i = Partial::new(d);
		let _ = i.complete();
		let v = verdict(Packet::parse(&mut i));
		(v, d.len() - i.len())
	})?;
	let partial_slice = guard(|| {
		let mut i = Partial::new(d);
		verdict(Packet::parse(&mut i))
	})?;
	let partial_bytes = partial(d)?.0;
	let same = |a: &(Verdict, usize), b: &(Verdict, usize)| {
		a.0 == b.0 && (a.1 == b.1 || !matches!(a.0, Verdict::Accept(_)))
	};
	for (name, other) in [("slice", slice), ("located", located), ("finished", finished)] {
		if !same(&complete, &other) {
			return Err(bad(format!(
				"a {name} stream gives {other:?}, a byte stream {complete:?}"
			)));
		}
	}
	if partial_slice != partial_bytes {
		return Err(bad(format!(
			"a partial slice gives {partial_slice:?}, partial bytes {partial_bytes:?}"
		)));
	}
	Ok(())
}

/// A frame: if it is acceptable, all its prefixes ask for more
fn partial_frame(d: &[u8]) -> J {
	run(|| {
		let whole = match packet(d)? {
			Ok(p) => dbg(&p),
			Err(_) => return Ok(J::Skip),
		};
		for k in 0..d.len() {
			let v = partial(&d[..k])?.0;
			if v != Verdict::Incomplete {
				return Ok(bad(format!("the first {k} bytes give {v:?}")));
			}
		}
		let (v, used) = partial(d)?;
		if v != Verdict::Accept(whole.clone()) || used != d.len() {
			return Ok(bad(format!(
				"complete input gives {whole}, partial {v:?} after {used} bytes"
			)));
		}
		streams_agree(d)?;
		Ok(accept(&whole))
	})
}

/// Anything: a prefix that is rejected stays rejected; the kinds of streams agree
fn partial_any(d: &[u8]) -> J {
	run(|| {
		let mut rejected = None;
		let mut accepted = None;
		for k in 0..=d.len() {
			let v = partial(&d[..k])?.0;
			if let Some(at) = rejected {
				if v != Verdict::Reject {
					return Ok(bad(format!("rejected after {at} bytes, but {v:?} after {k}")));
				}
			}
			match v {
				Verdict::Reject => {
					if rejected.is_none() {
						rejected = Some(k);
					}
				}
				Verdict::Accept(_) => {
					accepted = Some(k);
				}
				Verdict::Incomplete if accepted.is_some() => {
					return Ok(bad(format!("accepted, but incomplete after {k} bytes")))
				}
				_ => {}
			}
		}
		if let (Some(k), Ok(p)) = (rejected, packet(d)?) {
			return Ok(bad(format!("rejected after {k} bytes, but complete input is {p:?}")));
		}
		streams_agree(d)?;
		Ok(match (rejected, accepted) {
			(None, Some(k)) => J::Accept(k as u64),
			(Some(_), _) => J::Reject,
			_ => J::Accept(1 << 20),
		})
	})
}

// ---------------------------------------------------------------------------------------------
// C24
// ---------------------------------------------------------------------------------------------

#[derive(Debug)]
struct Cause(&'static str);
impl std::fmt::Display for Cause {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(self.0)
	}
}
impl std::error::Error for Cause {}

pub const CONTEXTS: u8 = 10;
pub const CAUSES: u8 = 4;

fn context(c: u8, k: usize) -> (MBusContext, Option<StrContext>, String, bool) {
	const LABELS: [&str; 4] = ["alpha", "checksum", "long frame header", "x"];
	let l = LABELS[k % 4];
	match c {
		0 => (
			MBusContext::Label(l),
			Some(StrContext::Label(l)),
			format!("invalid {l}"),
			true,
		),
		1 => {
			let s = format!("{k} bit thing");
			(
				MBusContext::ComputedLabel(s.clone()),
				None,
				format!("invalid {s}"),
				true,
			)
		}
		2 => (
			MBusContext::Assertion(l),
			None,
			format!("assertion failed: {l}"),
			true,
		),
		3 => {
			let v = StrContextValue::Description(l);
			let t = format!("expected {v}");
			(
				MBusContext::Expected(v.clone()),
				Some(StrContext::Expected(v)),
				t,
				false,
			)
		}
		4 => {
			let v = StrContextValue::CharLiteral('h');
			let t = format!("expected {v}");
			(
				MBusContext::Expected(v.clone()),
				Some(StrContext::Expected(v)),
				t,
				false,
			)
		}
		5 => {
			let v = StrContextValue::StringLiteral("16");
			let t = format!("expected {v}");
			(
				MBusContext::Expected(v.clone()),
				Some(StrContext::Expected(v)),
				t,
				false,
			)
		}
		6 => (
			MBusContext::ComputedLabel(String::new()),
			None,
			"invalid ".into(),
			true,
		),
		7 => (
			MBusContext::Label("é 中"),
			Some(StrContext::Label("é 中")),
			"invalid é 中".into(),
			true,
		),
		8 => {
			let v = StrContextValue::CharLiteral('\n');
			let t = format!("expected {v}");
			(MBusContext::Expected(v.clone()), Some(StrContext::Expected(v)), t, false)
		}
		_ => (
			MBusContext::ComputedLabel("x".repeat(k % 7 * 11)),
			None,
			format!("invalid {}", "x".repeat(k % 7 * 11)),
			true,
		),
	}
}

/// [how, cause, contexts...]
fn error_text(d: &[u8]) -> J {
	run(|| {
		let causes: [Option<&'static str>; 4] =
			[None, Some("out of range"), Some(""), Some("two words é")];
		let cause = causes[usize::from(d[1])];
		let how = d[0];
		let mut expected = String::new();
		if let Some(c) = cause {
			expected.push_str(c);
			expected.push('\n');
		}
		let mut indent = 0;
		let mut first = true;
		let mut list = vec![];
		for (k, c) in d[2..].iter().enumerate() {
			let (ctx, strctx, text, heading) = context(*c, k);
			if heading {
				if !first {
					indent += 1;
				}
				first = false;
			}
			for _ in 0..indent {
				expected.push(' ');
			}
			expected.push_str(&text);
			expected.push('\n');
			list.push((ctx, strctx));
		}
		if how == 2 && (cause.is_some() || list.iter().any(|l| l.1.is_none())) {
			return Ok(J::Skip);
		}
		let got = guard(|| {
			let input = by(b"input");
			let cp = input.checkpoint();
			let mut e = match cause {
				None => MBusError::new(),
				Some(c) => FromExternalError::from_external_error(&input, Cause(c)),
			};
			match how {
				// one by one, as they are
				0 => {
					for (c, _) in list {
						e = e.add_context(&input, &cp, c);
					}
				}
				// one by one, with the library's own kind of context where there is one
				1 => {
					for (c, s) in list {
						e = match s {
							Some(s) => e.add_context(&input, &cp, s),
							None => e.add_context(&input, &cp, c),
						};
					}
				}
				// converted
				_ => {
					let mut c = winnow::error::ContextError::<StrContext>::new();
					for (_, s) in list {
						c = c.add_context(&input, &cp, s.expect("checked"));
					}
					e = c.convert();
				}
			}
			e.to_string()
		})?;
		Ok(if got == expected {
			accept(&got)
		} else {
			bad(format!("expected {expected:?}, got {got:?}"))
		})
	})
}

// ---------------------------------------------------------------------------------------------
// C31
// ---------------------------------------------------------------------------------------------

pub const STARTS: u8 = 14;
pub const STEPS: u8 = 16;

/// [start, steps..]: an error is made, extended, converted and copied; it has to keep everything
fn error_history(d: &[u8]) -> J {
	type Mode = ErrMode<MBusError>;
	const NUMBER: [usize; 4] = [0, 1, 3, 40];
	run(|| {
		let start = d[0];
		let causes = ["out of range", "", "two words é"];
		// what it ought to be
		let cause = match start {
			3..=5 => Some(causes[usize::from(start) - 3]),
			10..=12 => Some(causes[usize::from(start) - 10]),
			_ => None,
		};
		let mut list: Vec<MBusContext> = vec![];
		if let 6..=9 = start {
			for k in 0..NUMBER[usize::from(start - 6)] {
				list.push(context([0, 3, 4][k % 3], k).0);
			}
		}
		if let 11 | 12 = start {
			for k in 0..NUMBER[usize::from(start - 9)] {
				list.push(context(k as u8 % 3, k).0);
			}
		}
		for (k, step) in d[1..].iter().enumerate() {
			match step {
				0 | 1 | 10 | 11 => list.push(context(0, k).0),
				2 | 12 => list.push(context(1, k).0),
				3 => list.push(context(2, k).0),
				4 | 5 => list.push(context(3, k).0),
				13 | 14 => list.push(context(7, k).0),
				_ => {}
			}
		}
		let (got, wrong) = guard(|| {
			let input = by(b"input");
			let cp = input.checkpoint();
			let mut wrong = None;
			let mut e: MBusError = match start {
				0 => MBusError::new(),
				1 => MBusError::default(),
				2 => <MBusError as ParserError<&Bytes>>::from_input(&input),
				3..=5 => {
					FromExternalError::from_external_error(&input, Cause(causes[usize::from(start) - 3]))
				}
				6..=9 => {
					let mut c = ContextError::<StrContext>::new();
					for k in 0..NUMBER[usize::from(start - 6)] {
						let s = context([0, 3, 4][k % 3], k).1.expect("one");
						c = c.add_context(&input, &cp, s);
					}
					c.convert()
				}
				10..=12 => {
					let c = Cause(causes[usize::from(start) - 10]);
					let mut c: ContextError<MBusContext> =
						FromExternalError::from_external_error(&input, c);
					if start > 10 {
						for k in 0..NUMBER[usize::from(start - 9)] {
							c.push(context(k as u8 % 3, k).0);
						}
					}
					c.convert()
				}
				_ => {
					let m: Mode = MBusError::new().convert();
					m.into_inner().expect("an error")
				}
			};
			for (k, step) in d[1..].iter().enumerate() {
				let as_str = |c: u8| context(c, k).1.expect("one");
				e = match step {
					0 => e.add_context(&input, &cp, context(0, k).0),
					1 => e.add_context(&input, &cp, as_str(0)),
					2 => e.add_context(&input, &cp, context(1, k).0),
					3 => e.add_context(&input, &cp, context(2, k).0),
					4 => e.add_context(&input, &cp, context(3, k).0),
					5 => e.add_context(&input, &cp, as_str(3)),
					6 => <MBusError as ErrorConvert<MBusError>>::convert(e),
					7 => {
						let m: Mode = e.convert();
						if !matches!(m, ErrMode::Backtrack(_)) {
							wrong = Some("is no longer one that can be recovered from");
						}
						m.into_inner().expect("an error")
					}
					8 => {
						let c = <MBusError as ParserError<&Bytes>>::into_inner(e).expect("an error");
						c.convert()
					}
					9 => {
						let copy = e.clone();
						if copy != e {
							wrong = Some("its copy differs");
						}
						copy
					}
					10 => ErrMode::Backtrack(e)
						.add_context(&input, &cp, as_str(0))
						.into_inner()
						.expect("an error"),
					11 => ErrMode::Cut(e)
						.add_context(&input, &cp, as_str(0))
						.into_inner()
						.expect("an error"),
					12 => {
						let mut e = Some(e);
						(move |_: &mut &Bytes| -> Result<(), MBusError> { Err(e.take().expect("once")) })
							.context_with(move || [context(1, k).0].into_iter())
							.parse_next(&mut by(b"input"))
							.unwrap_err()
					}
					// out of a parser of bits
					13 => {
						let mut e = Some(e);
						winnow::binary::bits::bits::<_, (), MBusError, MBusError, _>(
							move |_: &mut (&Bytes, usize)| Err(e.take().expect("once")),
						)
						.context(as_str(7))
						.parse_next(&mut by(b"input"))
						.unwrap_err()
					}
					// out of a parser of bytes within one of bits
					14 => {
						let mut e = Some(e);
						winnow::binary::bits::bytes::<_, (), MBusError, MBusError, _>(
							move |_: &mut &Bytes| Err(e.take().expect("once")),
						)
						.context(as_str(7))
						.parse_next(&mut (by(b"input"), 3))
						.unwrap_err()
					}
					_ => {
						// an alternative that fails doesn't remain
						let other = MBusError::new().add_context(&input, &cp, MBusContext::Label("first"));
						ParserError::<&Bytes>::or(other, e)
					}
				};
			}
			(e, wrong)
		})?;
		if let Some(w) = wrong {
			return Ok(bad(w));
		}
		let kept: Vec<MBusContext> = got.context().cloned().collect();
		if kept != list {
			return Ok(bad(format!("recorded {list:?}, kept {kept:?}")));
		}
		let because = got.cause().map(|c| c.to_string());
		if because.as_deref() != cause {
			return Ok(bad(format!("cause {cause:?}, kept {because:?}")));
		}
		Ok(accept(&format!("{kept:?} {because:?}")))
	})
}

// ---------------------------------------------------------------------------------------------
// Machines for the graph search
// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct RecG(pub RecM);

impl Machine for RecG {
	fn key(&self) -> Vec<u8> {
		self.0.key()
	}
	fn push(&mut self, b: u8) -> bool {
		self.0.loc != RLoc::Done && self.0.push(b).is_ok()
	}
	fn completion(&self) -> Option<Vec<u8>> {
		let mut m = self.0.clone();
		let mut v = vec![];
		while m.loc != RLoc::Done {
			let b = m.closing_byte();
			v.push(b);
			m.push(b).ok()?;
		}
		Some(v)
	}
}

#[derive(Clone)]
pub struct FrameG(pub model::FrameM);

impl Machine for FrameG {
	fn key(&self) -> Vec<u8> {
		self.0.key()
	}
	fn push(&mut self, b: u8) -> bool {
		self.0.push(b).is_ok()
	}
	fn completion(&self) -> Option<Vec<u8>> {
		match &self.0.cur {
			None => Some(vec![]),
			Some(r) => RecG((**r).clone()).completion(),
		}
	}
}

#[derive(Clone)]
pub struct MsgG(pub model::MsgM);

impl Machine for MsgG {
	fn key(&self) -> Vec<u8> {
		self.0.key()
	}
	fn push(&mut self, b: u8) -> bool {
		self.0.push(b).is_ok()
	}
	fn completion(&self) -> Option<Vec<u8>> {
		let mut m = self.0.clone();
		let mut v = vec![];
		while m.eof().is_err() {
			let b = m.closing_byte();
			v.push(b);
			m.push(b).ok()?;
			if v.len() > 1000 {
				return None;
			}
		}
		Some(v)
	}
}

/// A message whose body is only told apart by its kind and length: what a record body means is
/// not the concern of the CI field (the judge asks the real body parsers)
#[derive(Clone)]
pub struct ShallowG(pub model::MsgM, pub usize);

impl Machine for ShallowG {
	fn key(&self) -> Vec<u8> {
		match self.0.loc {
			model::MLoc::Body => vec![2, self.0.ci, self.1.min(16) as u8],
			_ => self.0.key(),
		}
	}
	fn push(&mut self, b: u8) -> bool {
		if let model::MLoc::Body = self.0.loc {
			self.1 += 1;
		}
		self.0.push(b).is_ok()
	}
	fn completion(&self) -> Option<Vec<u8>> {
		MsgG(self.0.clone()).completion()
	}
}

#[derive(Clone)]
pub struct LinkG(pub LinkM);

impl Machine for LinkG {
	fn key(&self) -> Vec<u8> {
		self.0.key()
	}
	fn push(&mut self, b: u8) -> bool {
		!self.0.done() && self.0.push(b).is_ok()
	}
	/// Payloads are completed as user data with CI 51
	fn completion(&self) -> Option<Vec<u8>> {
		let mut m = self.0.clone();
		let mut v = vec![];
		while !m.done() {
			let b = match m.loc {
				LLoc::Start => 0xE5,
				LLoc::Len => 3,
				LLoc::Len2(l) => l,
				LLoc::Start2(_) => 0x68,
				LLoc::LongControl(_) | LLoc::ShortControl => 0x53,
				LLoc::LongAddr(_) | LLoc::ShortAddr => 1,
				LLoc::Payload(_) => 0x51,
				LLoc::LongSum => m.sum(),
				LLoc::ShortSum => m.control.wrapping_add(m.address),
				LLoc::LongTail | LLoc::ShortTail => 0x16,
				LLoc::Done => unreachable!(),
			};
			v.push(b);
			m.push(b).ok()?;
		}
		Some(v)
	}
}
