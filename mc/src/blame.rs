//! C29: the labels of a rejection against the part of the input that is at fault.
//!
//! `Blame` walks the input with the reference automaton and says which chains of labels (innermost first) are
//! right for it. Only labels of the stated vocabulary count; others may be there.

use crate::judge::{guard, J};
use crate::model::{self, LLoc, LinkM, RLoc, RecM, Step};
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::Record;
use libmbus::parse::error::{MBusContext, MBusError};
use libmbus::parse::link_layer::Packet;
use libmbus::parse::transport_layer::MBusMessage;
use winnow::{Bytes, Parser};

type Chain = Vec<&'static str>;

/// Labels of parts
const PARTS: &[&str] = &[
	"long frame header", "short frame header", "length", "length confirmation", "frame marker", "control byte",
	"address byte", "packet data", "checksum", "frame tail", "checksum verify",
	"CI field", "reserved CI field", "unsupported CI field", "short header", "long header", "device identifier",
	"manufacturer", "version", "device type", "access number", "status", "tpl configuration field",
	"Error Code", "reserved error code", "frame record",
	"DIF byte", "DIFE byte", "initial VIF", "VIF extension byte", "VIF extension layer 2 byte",
	"vife missing for vif extension", "vife missing for vif extension level 2", "plain text VIF data", "VIFE",
	"LVAR value", "Type F Date/Time", "Type G Date", "Type I Date/Time", "Type J Time", "Daylight Savings Type K",
];

/// Labels of the components of dates and times
const COMPONENTS: &[&str] = &[
	"invalid bit", "reserved", "minute", "in_dst", "hundred year", "hour", "invalid check", "day", "month", "year",
	"year (upper)", "year (lower)", "second", "leap year", "in dst", "dst ±", "day of week", "dst offset", "week",
	"padding", "hour begins", "day begins", "day ends", "month begins", "month ends", "enable",
	"gmt deviation upper", "gmt deviation lower", "dst deviation hours",
];

#[derive(Debug, Clone, Default)]
pub struct Blame {
	/// any of these
	chains: Vec<Chain>,
	/// an assertion has to be there (in case of the first chain)
	assertion: bool,
	/// components that are invalid, if the part at fault is a complete date or time
	components: Option<Vec<&'static str>>,
}

impl Blame {
	fn of(l: &'static str) -> Self {
		Blame { chains: vec![vec![l]], ..Self::default() }
	}
	fn nothing() -> Self {
		Blame { chains: vec![vec![]], ..Self::default() }
	}
	fn within(mut self, l: &'static str) -> Self {
		for c in &mut self.chains {
			c.push(l);
		}
		self
	}
	fn or(mut self, other: Self) -> Self {
		self.chains.extend(other.chains);
		self
	}
}

/// What is wrong, or nothing
type Walk<T> = Result<T, Blame>;

fn bad_date(b0: u8, b1: u8) -> Vec<&'static str> {
	let mut v = vec![];
	if b0 & b1 == 0xFF {
		v.push("invalid check");
	}
	if matches!(b1 & 15, 13 | 14) {
		v.push("month");
	}
	let year = b0 >> 5 | b1 >> 4 << 3;
	if year > 99 && year != 127 {
		v.push("year");
	}
	v
}

fn sixty(v: u8) -> bool {
	v < 60 || v == 63
}
fn hours(v: u8) -> bool {
	v < 24 || v == 31
}

fn invalid_components(kind: &str, d: &[u8]) -> Vec<&'static str> {
	let mut v = vec![];
	let mut unless = |ok: bool, l: &'static str| {
		if !ok {
			v.push(l);
		}
	};
	match kind {
		"G" => v.extend(bad_date(d[0], d[1])),
		"F" => {
			unless(d[0] & 0x80 == 0, "invalid bit");
			unless(d[0] & 0x40 == 0, "reserved");
			unless(sixty(d[0] & 63), "minute");
			unless(hours(d[1] & 31), "hour");
			v.extend(bad_date(d[2], d[3]));
		}
		"I" => {
			unless(sixty(d[0] & 63), "second");
			unless(d[1] & 0x80 == 0, "invalid check");
			unless(sixty(d[1] & 63), "minute");
			unless(hours(d[2] & 31), "hour");
			unless(d[5] & 63 <= 53, "week");
			v.extend(bad_date(d[3], d[4]));
		}
		"J" => {
			unless(d != [0xFF; 3], "invalid check");
			unless(d[0] < 64 && d[1] < 64 && d[2] < 32, "padding");
			unless(sixty(d[0] & 63), "second");
			unless(sixty(d[1] & 63), "minute");
			unless(hours(d[2] & 31), "hour");
		}
		"K" => {
			unless(hours(d[0] & 31), "hour begins");
			unless(d[1] & 31 != 0, "day begins");
			unless(d[2] & 31 != 0, "day ends");
			unless((1..=12).contains(&(d[3] & 15)), "month begins");
			unless((1..=12).contains(&(d[3] >> 4)), "month ends");
		}
		_ => {}
	}
	v
}

/// Bytes taken by the record
fn record(d: &[u8]) -> Walk<usize> {
	let mut m = RecM::new();
	for (i, b) in d.iter().enumerate() {
		let at = m.loc.clone();
		match m.push(*b) {
			Ok(Step::Done) => return Ok(i + 1),
			Ok(Step::More) => {}
			Err(_) => return Err(record_at(&m, &at, true)),
		}
	}
	Err(record_at(&m, &m.loc, false))
}

fn record_at(m: &RecM, at: &RLoc, invalid: bool) -> Blame {
	Blame::of(match at {
		RLoc::Dif => "DIF byte",
		RLoc::Dife if m.difes == 10 => {
			let b = Blame { assertion: true, ..Blame::nothing() };
			// which of them is reported if there is no 11th byte is left open
			return if invalid { b } else { b.or(Blame::of("DIFE byte")) };
		}
		RLoc::Dife => "DIFE byte",
		RLoc::Vif => "initial VIF",
		RLoc::VifExt(_) if invalid => "vife missing for vif extension level 2",
		RLoc::VifExt(_) => "VIF extension byte",
		RLoc::VifExt2 => "VIF extension layer 2 byte",
		RLoc::PlainLen | RLoc::Plain(_) => "plain text VIF data",
		RLoc::Vife => "VIFE",
		RLoc::LvarLen => "LVAR value",
		RLoc::Data(_) | RLoc::Done => {
			let part = match m.class() {
				"F" => "Type F Date/Time",
				"G" => "Type G Date",
				"I" => "Type I Date/Time",
				"J" => "Type J Time",
				"K" => "Daylight Savings Type K",
				_ => return Blame::nothing(),
			};
			let mut b = Blame::of(part);
			if invalid {
				b.components = Some(invalid_components(m.class(), &m.data));
			}
			return b;
		}
	})
}

fn frame(mut d: &[u8]) -> Walk<()> {
	loop {
		match d.first() {
			None | Some(0x0F | 0x1F) => return Ok(()),
			Some(0x2F) => d = &d[1..],
			_ => {
				let n = record(d).map_err(|b| b.within("frame record"))?;
				d = &d[n..];
			}
		}
	}
}

fn header(d: &[u8], n: usize) -> Walk<()> {
	let mut d = d;
	let mut field = |n: usize, l: &'static str, ok: &dyn Fn(&[u8]) -> bool| {
		if d.len() < n || !ok(&d[..n]) {
			return Err(Blame::of(l));
		}
		d = &d[n..];
		Ok(())
	};
	let r = (|| {
		if n == 12 {
			field(4, "device identifier", &|b| b.iter().all(|x| x & 15 < 10 && x >> 4 < 10))?;
			field(2, "manufacturer", &|b| model::manufacturer(b[0], b[1]).is_some())?;
			field(1, "version", &|_| true)?;
			field(1, "device type", &|_| true)?;
		}
		field(1, "access number", &|_| true)?;
		field(1, "status", &|_| true)?;
		field(2, "tpl configuration field", &|b| model::config_text(b[0], b[1]).is_some())
	})();
	r.map_err(|b| b.within(if n == 12 { "long header" } else { "short header" }))
}

fn message(d: &[u8]) -> Walk<()> {
	let Some((&ci, rest)) = d.split_first() else {
		return Err(Blame::of("CI field"));
	};
	let unsupported = match ci {
		0x69 | 0x79 => Some(0),
		0x65 | 0x6A | 0x7B => Some(4),
		0x64 | 0x6B | 0x73 | 0x84 | 0x85 => Some(12),
		_ => None,
	};
	if let Some(n) = unsupported {
		let b = Blame::of("unsupported CI field");
		return Err(match header(rest, n) {
			Err(h) if n > 0 => b.or(h),
			_ => b,
		});
	}
	let Some((n, body)) = model::ci_kind(ci) else {
		return Err(Blame::of("reserved CI field"));
	};
	if n > 0 {
		header(rest, n)?;
	}
	let rest = &rest[n..];
	match body {
		model::Body::Frame => frame(rest),
		model::Body::Error => match rest.first() {
			Some(0xF0) => record(&rest[1..]).map(|_| ()),
			Some(0xF1..) | None => Ok(()),
			Some(c) if model::error_code(*c) => Ok(()),
			Some(_) => Err(Blame::of("reserved error code")),
		},
		// whatever may be wrong with subcodes has no name
		model::Body::Select | model::Body::Selected => Err(Blame::nothing()),
		_ => Ok(()),
	}
}

fn packet(d: &[u8]) -> Walk<()> {
	let mut m = LinkM::new();
	let mut at = LLoc::Start;
	let mut invalid = false;
	let mut n = 0;
	for b in d {
		at = m.loc.clone();
		if m.done() || m.push(*b).is_err() {
			invalid = true;
			break;
		}
		n += 1;
	}
	if !invalid {
		if m.done() {
			return if d[0] == 0x68 {
				message(&m.payload).map_err(|b| b.within("long frame header"))
			} else {
				Ok(())
			};
		}
		at = m.loc.clone();
	}
	let part = match at {
		LLoc::Start => return Err(Blame::nothing()),
		LLoc::Done if d[0] == 0x68 => return Err(Blame::nothing().within("long frame header")),
		LLoc::Done => return Err(Blame::nothing()),
		LLoc::Len => "length",
		LLoc::Len2(_) => "length confirmation",
		LLoc::Start2(_) => "frame marker",
		LLoc::LongControl(_) | LLoc::ShortControl => "control byte",
		LLoc::LongAddr(_) | LLoc::ShortAddr => "address byte",
		LLoc::Payload(_) => "packet data",
		LLoc::LongSum | LLoc::ShortSum if !invalid => "checksum",
		LLoc::LongSum | LLoc::ShortSum => "checksum verify",
		LLoc::LongTail | LLoc::ShortTail => "frame tail",
	};
	let mut b = Blame::of(part);
	if part == "checksum verify" {
		// what follows a wrong checksum may be wrong, too
		let after = &d[n + 1..];
		if after.first() != Some(&0x16) {
			b = b.or(Blame::of("frame tail"));
		} else if after.len() > 1 && d[0] == 0x68 {
			b = b.or(Blame::nothing());
		}
	}
	Err(b.within(if d[0] == 0x10 { "short frame header" } else { "long frame header" }))
}

fn labels(e: &MBusError) -> (Vec<String>, bool) {
	let mut v = vec![];
	let mut assertion = false;
	for c in e.context() {
		match c {
			MBusContext::Label(l) => v.push((*l).to_string()),
			MBusContext::ComputedLabel(l) => v.push(l.clone()),
			MBusContext::Assertion(_) => assertion = true,
			_ => {}
		}
	}
	(v, assertion)
}

/// [sub] + bytes
pub fn blame(d: &[u8]) -> J {
	let (sub, d) = (d[0], &d[1..]);
	let by = Bytes::new(d);
	let got = guard(|| {
		let mut i = by;
		match sub {
			0 => Packet::parse.parse(by).map(|_| ()).map_err(|e| e.into_inner()),
			1 => MBusMessage::parse(&mut i).map(|_| ()),
			2 => Frame::parse(&mut i).map(|_| ()),
			_ => Record::parse(&mut i).map(|_| ()),
		}
	});
	let expected = match sub {
		0 => packet(d),
		1 => message(d),
		2 => frame(d),
		_ => record(d).map(|_| ()),
	};
	// whether it is to be rejected is for other properties to say
	let (e, b) = match (got, expected) {
		(Err(j), _) => return j,
		(Ok(Err(e)), Err(b)) => (e, b),
		_ => return J::Skip,
	};
	let (all, assertion) = labels(&e);
	let parts: Vec<&str> = all.iter().map(|s| s.as_str()).filter(|s| PARTS.contains(s)).collect();
	let Some(k) = b.chains.iter().position(|c| *c == parts) else {
		return J::Bad(format!("labels {all:?}, expected the parts {:?}", b.chains));
	};
	if b.assertion && k == 0 && !assertion {
		return J::Bad(format!("labels {all:?} and no assertion"));
	}
	if let Some(invalid) = &b.components {
		let named: Vec<&str> = all.iter().map(|s| s.as_str()).filter(|s| COMPONENTS.contains(s)).collect();
		let dated = invalid.iter().any(|i| matches!(*i, "invalid check" | "month" | "year"));
		let right = |c: &&str| invalid.contains(c);
		if !invalid.is_empty() && !named.first().is_some_and(|c| right(c)) {
			return J::Bad(format!("labels {all:?}, but the invalid components are {invalid:?}"));
		}
		// the parts of a date are labelled as being in its year
		if let Some(c) = named.iter().find(|c| !right(c) && !(dated && **c == "year")) {
			return J::Bad(format!("labels {all:?} name {c:?}, the invalid components are {invalid:?}"));
		}
	}
	J::Accept(crate::run::hash(format!("{sub}{parts:?}{all:?}").as_bytes()))
}
