//! Reference model: an explicit-state push automaton for M-Bus telegrams.
//!
//! Every machine consumes one byte per transition (`push`), and has an end-of-input transition (`eof`).
//! Results are rendered in the textual form that the real decoder's `Debug` output has.
//! No code is shared with /repo.

use std::sync::OnceLock;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Rej(pub &'static str);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Step {
	More,
	Done,
}

// ---------------------------------------------------------------------------------------------
// Value information tables
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Special {
	Plain,
	DateG,
	DateTime,
	Dst,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Vt {
	pub text: String,
	pub unsigned: bool,
	pub special: Special,
}

const NN: [&str; 4] = ["Seconds", "Minutes", "Hours", "Days"];
const PP: [&str; 4] = ["Hours", "Days", "Months", "Years"];

/// Names of the quantities that carry unsigned integers
const UNSIGNED: &[&str] = &[
	"UniqueMessageIdentification",
	"DeviceType",
	"Manufacturer",
	"ParameterSetIdentification",
	"ModelVersion",
	"HardwareVersionNumber",
	"MetrologyFirmwareVersionNumber",
	"OtherSoftwareVersionNumber",
	"CustomerLocation",
	"Customer",
	"AccessCodeUser",
	"AccessCodeOperator",
	"AccessCodeDeveloper",
	"Password",
	"ErrorMask",
	"SecurityKey",
	"BaudRate",
	"ResponseDelayTime",
	"FirstStorageNumberForCyclicStorage",
	"LastStorageNumberForCyclicStorage",
	"SizeOfStorageBlock",
	"DescriptorForTariffAndSubunit",
	"TimePointSecond",
	"DurationSinceLastReadout",
	"DurationOfTariff",
	"PeriodOfTarrif",
	"PeriodOfNominalDataTransmissions",
	"DayOfWeek",
	"WeekNumber",
	"StateOfParameterActivation",
	"SpecialSupplierInformation",
	"DurationSinceLastCumulation",
	"RemainingBatteryLife",
	"NumberTimesMeterStopped",
	"RelativeHumidity",
	"ResultingPowerFactorK",
	"ThermalCouplingRatingFactorHeaterSideKch",
	"ThermalCouplingRatingFactorOverallKc",
	"ThermalCouplingRatingFactorRoomSideKcr",
	"ThermalOutputRatingFactorKq",
];

/// One row: first code, last code, text with {x} (exponent of first code given), {nn} or {pp} durations
type Row = (u8, u8, &'static str, i32);

const T10: &[Row] = &[
	(0x00, 0x07, "Energy(Wh, {x})", -3),
	(0x08, 0x0F, "Energy(J, {x})", 0),
	(0x10, 0x17, "Volume(M3, {x})", -6),
	(0x18, 0x1F, "Mass(Kg, {x})", -3),
	(0x20, 0x23, "OnTime({nn})", 0),
	(0x24, 0x27, "OperatingTime({nn})", 0),
	(0x28, 0x2F, "Power(W, {x})", -3),
	(0x30, 0x37, "Power(Jph, {x})", 0),
	(0x38, 0x3F, "VolumeFlow(Hours, {x})", -6),
	(0x40, 0x47, "VolumeFlow(Minutes, {x})", -7),
	(0x48, 0x4F, "VolumeFlow(Seconds, {x})", -9),
	(0x50, 0x57, "MassFlow(Hours, {x})", -3),
	(0x58, 0x5B, "FlowTemperature({x})", -3),
	(0x5C, 0x5F, "ReturnTemperature({x})", -3),
	(0x60, 0x63, "TemperatureDifference({x})", -3),
	(0x64, 0x67, "ExternalTemperature({x})", -3),
	(0x68, 0x6B, "Pressure({x})", -3),
	(0x6C, 0x6C, "TypeGDate", 0),
	(0x6D, 0x6D, "VariableDateTime", 0),
	(0x6E, 0x6E, "HCA", 0),
	(0x70, 0x73, "AveragingDuration({nn})", 0),
	(0x74, 0x77, "ActualityDuration({nn})", 0),
	(0x78, 0x78, "FabricationNumber", 0),
	(0x79, 0x79, "EnhancedIdentification", 0),
	(0x7A, 0x7A, "Address", 0),
];

const T12: &[Row] = &[
	(0x00, 0x03, "Credit({x})", -3),
	(0x04, 0x07, "Debit({x})", -3),
	(0x08, 0x08, "UniqueMessageIdentification", 0),
	(0x09, 0x09, "DeviceType", 0),
	(0x0A, 0x0A, "Manufacturer", 0),
	(0x0B, 0x0B, "ParameterSetIdentification", 0),
	(0x0C, 0x0C, "ModelVersion", 0),
	(0x0D, 0x0D, "HardwareVersionNumber", 0),
	(0x0E, 0x0E, "MetrologyFirmwareVersionNumber", 0),
	(0x0F, 0x0F, "OtherSoftwareVersionNumber", 0),
	(0x10, 0x10, "CustomerLocation", 0),
	(0x11, 0x11, "Customer", 0),
	(0x12, 0x12, "AccessCodeUser", 0),
	(0x13, 0x13, "AccessCodeOperator", 0),
	(0x14, 0x14, "AccessCodeSystemOperator", 0),
	(0x15, 0x15, "AccessCodeDeveloper", 0),
	(0x16, 0x16, "Password", 0),
	(0x17, 0x17, "ErrorFlags", 0),
	(0x18, 0x18, "ErrorMask", 0),
	(0x19, 0x19, "SecurityKey", 0),
	(0x1A, 0x1A, "DigitalOutput", 0),
	(0x1B, 0x1B, "DigitalInput", 0),
	(0x1C, 0x1C, "BaudRate", 0),
	(0x1D, 0x1D, "ResponseDelayTime", 0),
	(0x1E, 0x1E, "Retry", 0),
	(0x1F, 0x1F, "RemoteControl", 0),
	(0x20, 0x20, "FirstStorageNumberForCyclicStorage", 0),
	(0x21, 0x21, "LastStorageNumberForCyclicStorage", 0),
	(0x22, 0x22, "SizeOfStorageBlock", 0),
	(0x23, 0x23, "DescriptorForTariffAndSubunit", 0),
	(0x24, 0x27, "StorageInterval({nn})", 0),
	(0x28, 0x28, "StorageInterval(Months)", 0),
	(0x29, 0x29, "StorageInterval(Years)", 0),
	(0x2A, 0x2A, "OperatorSpecific", 0),
	(0x2B, 0x2B, "TimePointSecond", 0),
	(0x2C, 0x2F, "DurationSinceLastReadout({nn})", 0),
	(0x30, 0x30, "StartDateTimeOfTariff", 0),
	(0x31, 0x31, "DurationOfTariff(Minutes)", 0),
	(0x32, 0x32, "DurationOfTariff(Hours)", 0),
	(0x33, 0x33, "DurationOfTariff(Days)", 0),
	(0x34, 0x37, "PeriodOfTarrif({nn})", 0),
	(0x38, 0x38, "PeriodOfTarrif(Months)", 0),
	(0x39, 0x39, "PeriodOfTarrif(Years)", 0),
	(0x3A, 0x3A, "Dimensionless", 0),
	(0x3B, 0x3B, "WirelessContainer", 0),
	(0x3C, 0x3F, "PeriodOfNominalDataTransmissions({nn})", 0),
	(0x40, 0x4F, "Volts({x})", -9),
	(0x50, 0x5F, "Amperes({x})", -12),
	(0x60, 0x60, "ResetCounter", 0),
	(0x61, 0x61, "CumulationCounter", 0),
	(0x62, 0x62, "ControlSignal", 0),
	(0x63, 0x63, "DayOfWeek", 0),
	(0x64, 0x64, "WeekNumber", 0),
	(0x65, 0x65, "TimePointOfDayChange", 0),
	(0x66, 0x66, "StateOfParameterActivation", 0),
	(0x67, 0x67, "SpecialSupplierInformation", 0),
	(0x68, 0x6B, "DurationSinceLastCumulation({pp})", 0),
	(0x6C, 0x6F, "OperatingTimeBattery({pp})", 0),
	(0x70, 0x70, "DateAndTimeOfBatteryChange", 0),
	(0x71, 0x71, "RFLevel", 0),
	(0x72, 0x72, "DSTTypeK", 0),
	(0x73, 0x73, "ListeningWindowManagement", 0),
	(0x74, 0x74, "RemainingBatteryLife(Days)", 0),
	(0x75, 0x75, "NumberTimesMeterStopped", 0),
	(0x76, 0x76, "ManufacturerSpecificContainer", 0),
];

const T13: &[Row] = &[
	(0x00, 0x00, "CurrentlySelectedApplication", 0),
	(0x02, 0x02, "RemainingBatteryLife(Months)", 0),
	(0x03, 0x03, "RemainingBatteryLife(Years)", 0),
];

const T14: &[Row] = &[
	(0x00, 0x01, "Energy(MWh, {x})", -1),
	(0x02, 0x03, "ReactiveEnergy({x})", 0),
	(0x04, 0x05, "ApparentEnergy({x})", 0),
	(0x08, 0x09, "Energy(GJ, {x})", -1),
	(0x0C, 0x0F, "Energy(MCal, {x})", -1),
	(0x10, 0x11, "Volume(M3, {x})", 2),
	(0x14, 0x17, "ReactivePower({x})", -3),
	(0x18, 0x19, "Mass(T, {x})", 2),
	(0x1A, 0x1B, "RelativeHumidity({x})", -1),
	(0x20, 0x20, "Volume(Feet3, 0)", 0),
	(0x21, 0x21, "Volume(Feet3, -1)", 0),
	(0x22, 0x26, "RetiredCode(Table14, {c})", 0),
	(0x28, 0x29, "Power(MW, {x})", -1),
	(0x2A, 0x2A, "PhaseUU", 0),
	(0x2B, 0x2B, "PhaseUI", 0),
	(0x2C, 0x2F, "Frequency({x})", -3),
	(0x30, 0x31, "Power(GJph, {x})", -1),
	(0x34, 0x37, "ApparentPower({x})", -1),
	(0x58, 0x67, "RetiredCode(Table14, {c})", 0),
	(0x68, 0x68, "ResultingPowerFactorK", 0),
	(0x69, 0x69, "ThermalOutputRatingFactorKq", 0),
	(0x6A, 0x6A, "ThermalCouplingRatingFactorOverallKc", 0),
	(0x6B, 0x6B, "ThermalCouplingRatingFactorRoomSideKcr", 0),
	(0x6C, 0x6C, "ThermalCouplingRatingFactorHeaterSideKch", 0),
	(0x6D, 0x6D, "LowTemperatureRatingFactorKt", 0),
	(0x6E, 0x6E, "DisplayOutputScalingFactorKD", 0),
	(0x70, 0x73, "RetiredCode(Table14, {c})", 0),
	(0x74, 0x77, "ColdWarmTemperatureLimit({x})", -3),
	(0x78, 0x7F, "CumulativeMaxOfActivePower({x})", -3),
];

fn build(table: &str, rows: &[Row]) -> Vec<Vt> {
	(0u8..128)
		.map(|code| {
			let hits: Vec<&Row> = rows.iter().filter(|r| r.0 <= code && code <= r.1).collect();
			assert!(hits.len() <= 1, "model table {table} overlaps at {code:#x}");
			let text = match hits.first() {
				None => format!("ReservedCode({table}, {code})"),
				Some(&&(first, _, template, base)) => {
					let off = i32::from(code) - i32::from(first);
					template
						.replace("{x}", &(base + off).to_string())
						.replace("{nn}", NN[(off & 3) as usize])
						.replace("{pp}", PP[(off & 3) as usize])
						.replace("{c}", &code.to_string())
				}
			};
			let name = text.split('(').next().unwrap();
			let special = match text.as_str() {
				"TypeGDate" => Special::DateG,
				"VariableDateTime" => Special::DateTime,
				"DSTTypeK" => Special::Dst,
				_ => Special::Plain,
			};
			Vt {
				unsigned: UNSIGNED.contains(&name),
				special,
				text,
			}
		})
		.collect()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Table {
	T10,
	T12,
	T13,
	T14,
}

pub fn vt(table: Table, code: u8) -> &'static Vt {
	static TABLES: OnceLock<[Vec<Vt>; 4]> = OnceLock::new();
	let t = TABLES.get_or_init(|| {
		[
			build("Table10", T10),
			build("Table12", T12),
			build("Table13", T13),
			build("Table14", T14),
		]
	});
	&t[table as usize][usize::from(code)]
}

fn vt_const(text: String) -> Vt {
	Vt {
		text,
		unsigned: false,
		special: Special::Plain,
	}
}

// ---------------------------------------------------------------------------------------------
// Numbers, strings and dates
// ---------------------------------------------------------------------------------------------

pub fn unsigned_le(b: &[u8]) -> u64 {
	b.iter()
		.enumerate()
		.map(|(i, x)| u64::from(*x) << (8 * i))
		.sum()
}

pub fn signed_le(b: &[u8]) -> i64 {
	// arithmetic on the mathematical value
	let mut v: i128 = 0;
	let mut weight: i128 = 1;
	for x in b {
		v += i128::from(*x) * weight;
		weight *= 256;
	}
	if let Some(top) = b.last() {
		if *top >= 0x80 {
			v -= weight;
		}
	}
	v as i64
}

/// None if a nibble is not a decimal digit (the top one may be F for a minus sign)
pub fn bcd(b: &[u8]) -> Option<i64> {
	let mut digits = Vec::new(); // least significant first
	for x in b {
		digits.push(x % 16);
		digits.push(x / 16);
	}
	let mut negative = false;
	if let Some(top) = digits.last_mut() {
		if *top == 15 {
			negative = true;
			*top = 0;
		}
	}
	let mut v: i64 = 0;
	let mut weight: i64 = 1;
	for (i, d) in digits.iter().enumerate() {
		if *d > 9 {
			return None;
		}
		if i > 0 {
			weight *= 10;
		}
		v += i64::from(*d) * weight;
	}
	Some(if negative { -v } else { v })
}

pub fn bcd_text(b: &[u8]) -> String {
	let mut s = String::new();
	for (i, x) in b.iter().rev().enumerate() {
		for (j, n) in [x >> 4, x & 15].into_iter().enumerate() {
			s.push(if i == 0 && j == 0 && n == 15 {
				'-'
			} else {
				b"0123456789ABCDEF"[usize::from(n)] as char
			});
		}
	}
	s
}

/// Windows-1252 0x80..=0x9F
const CP1252: [u32; 32] = [
	0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039,
	0x0152, 0x8D, 0x017D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014,
	0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178,
];

pub fn latin(b: &[u8]) -> String {
	let mut s = String::new();
	for x in b.iter().rev() {
		let cp = match *x {
			0x80..=0x9F => CP1252[usize::from(*x - 0x80)],
			x => u32::from(x),
		};
		s.push(char::from_u32(cp).unwrap());
	}
	s
}

/// UTF-8 by its definition, independent of std's validation; characters in reverse order
pub fn utf8_reversed(b: &[u8]) -> Option<String> {
	let mut cps: Vec<u32> = Vec::new();
	let mut i = 0;
	while i < b.len() {
		let (len, min, mut cp) = match b[i] {
			x @ 0x00..=0x7F => (0, 0, u32::from(x)),
			x @ 0xC0..=0xDF => (1, 0x80, u32::from(x & 0x1F)),
			x @ 0xE0..=0xEF => (2, 0x800, u32::from(x & 0x0F)),
			x @ 0xF0..=0xF7 => (3, 0x10000, u32::from(x & 0x07)),
			_ => return None,
		};
		for k in 0..len {
			let x = *b.get(i + 1 + k)?;
			if x & 0xC0 != 0x80 {
				return None;
			}
			cp = (cp << 6) | u32::from(x & 0x3F);
		}
		if cp < min || cp > 0x10FFFF || (0xD800..=0xDFFF).contains(&cp) {
			return None;
		}
		cps.push(cp);
		i += 1 + len;
	}
	cps.reverse();
	Some(cps.into_iter().map(|c| char::from_u32(c).unwrap()).collect())
}

/// What decides about the bytes that may follow: 0 between characters, 0xFF after an error
fn utf8_state(b: &[u8]) -> u8 {
	let mut i = 0;
	while i < b.len() {
		let len = match b[i] {
			0x00..=0x7F => 1,
			0xC2..=0xDF => 2,
			0xE0..=0xEF => 3,
			0xF0..=0xF4 => 4,
			_ => return 0xFF,
		};
		let have = (b.len() - i).min(len);
		for k in 1..have {
			let (lo, hi) = match (k, b[i]) {
				(1, 0xE0) => (0xA0, 0xBF),
				(1, 0xED) => (0x80, 0x9F),
				(1, 0xF0) => (0x90, 0xBF),
				(1, 0xF4) => (0x80, 0x8F),
				_ => (0x80, 0xBF),
			};
			if b[i + k] < lo || b[i + k] > hi {
				return 0xFF;
			}
		}
		if have < len {
			// bytes missing, and the first byte while it restricts the second
			return match (have, b[i]) {
				(1, l @ (0xE0 | 0xED | 0xF0 | 0xF4)) => l,
				_ => (len - have) as u8,
			};
		}
		i += len;
	}
	0
}

/// (day, month, year)
pub fn date(b0: u8, b1: u8) -> Option<(u8, u8, u8)> {
	if b0 == 0xFF && b1 == 0xFF {
		return None;
	}
	let day = b0 % 32;
	let month = b1 % 16;
	let year = b0 / 32 + (b1 / 16) * 8;
	if !(month <= 12 || month == 15) || !(year <= 99 || year == 127) {
		return None;
	}
	Some((day, month, year))
}

fn sexagesimal(v: u8) -> bool {
	v < 60 || v == 63
}
fn hours(v: u8) -> bool {
	v < 24 || v == 31
}

/// minute, hour, day, month, year, hundred_year, in_dst
pub fn datetime_f(b: [u8; 4]) -> Option<(u8, u8, u8, u8, u8, u8, bool)> {
	let (day, month, year) = date(b[2], b[3])?;
	if b[0] > 63 || !sexagesimal(b[0]) {
		return None;
	}
	let hour = b[1] & 0x1F;
	if !hours(hour) {
		return None;
	}
	let mut hundred = (b[1] >> 5) & 3;
	if hundred == 0 && year <= 80 {
		hundred = 1;
	}
	Some((b[0], hour, day, month, year, hundred, b[1] >= 0x80))
}

pub fn time_j(b: [u8; 3]) -> Option<(u8, u8, u8)> {
	if b[0] > 63 || b[1] > 63 || b[2] > 31 {
		return None;
	}
	if !sexagesimal(b[0]) || !sexagesimal(b[1]) || !hours(b[2]) {
		return None;
	}
	Some((b[0], b[1], b[2]))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct DtI {
	pub second: u8,
	pub minute: u8,
	pub hour: u8,
	pub day: u8,
	pub month: u8,
	pub year: u8,
	pub day_of_week: u8,
	pub week: u8,
	pub in_dst: bool,
	pub leap_year: bool,
	pub dst_offset: i8,
}

pub fn datetime_i(b: [u8; 6]) -> Option<DtI> {
	let (day, month, year) = date(b[3], b[4])?;
	let (second, minute, hour, week) = (b[0] & 63, b[1] & 63, b[2] & 31, b[5] & 63);
	if !sexagesimal(second) || !sexagesimal(minute) || !hours(hour) || week > 53 || b[1] >= 0x80 {
		return None;
	}
	let off = (b[5] >> 6) as i8;
	Some(DtI {
		second,
		minute,
		hour,
		day,
		month,
		year,
		day_of_week: b[2] >> 5,
		week,
		in_dst: b[0] & 0x40 != 0,
		leap_year: b[0] & 0x80 != 0,
		dst_offset: if b[1] & 0x40 != 0 { off } else { -off },
	})
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Dst {
	pub starts_hour: u8,
	pub starts_day: u8,
	pub starts_month: u8,
	pub ends_day: u8,
	pub ends_month: u8,
	pub enable: bool,
	pub dst_deviation: i8,
	pub local_deviation: u8,
}

pub fn dst_k(b: [u8; 4]) -> Option<Dst> {
	let (sh, sd, ed) = (b[0] & 31, b[1] & 31, b[2] & 31);
	let (em, sm) = (b[3] >> 4, b[3] & 15);
	let month = |m: u8| m >= 1 && m <= 12;
	let local = (b[0] >> 5) + 8 * ((b[1] >> 5) & 3);
	if !hours(sh) || sd == 0 || ed == 0 || !month(em) || !month(sm) || !hours(local) {
		return None;
	}
	let dev = ((b[2] >> 5) & 3) as i8;
	Some(Dst {
		starts_hour: sh,
		starts_day: sd,
		starts_month: sm,
		ends_day: ed,
		ends_month: em,
		enable: b[1] & 0x80 != 0,
		dst_deviation: if b[2] & 0x80 != 0 { dev } else { -dev },
		local_deviation: local,
	})
}

// ---------------------------------------------------------------------------------------------
// Records
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Raw {
	None,
	Binary(usize),
	Real,
	Bcd(usize),
	Lvar,
}

impl Raw {
	pub fn of(nibble: u8) -> Option<Raw> {
		Some(match nibble & 15 {
			0 => Raw::None,
			1 => Raw::Binary(1),
			2 => Raw::Binary(2),
			3 => Raw::Binary(3),
			4 => Raw::Binary(4),
			5 => Raw::Real,
			6 => Raw::Binary(6),
			7 => Raw::Binary(8),
			9 => Raw::Bcd(1),
			10 => Raw::Bcd(2),
			11 => Raw::Bcd(3),
			12 => Raw::Bcd(4),
			13 => Raw::Lvar,
			14 => Raw::Bcd(6),
			_ => return None,
		})
	}
	pub fn width(self) -> Option<usize> {
		match self {
			Raw::None => Some(0),
			Raw::Binary(n) | Raw::Bcd(n) => Some(n),
			Raw::Real => Some(4),
			Raw::Lvar => None,
		}
	}
	fn text(self) -> String {
		match self {
			Raw::None => "None".into(),
			Raw::Binary(n) => format!("Binary({n})"),
			Raw::Real => "Real".into(),
			Raw::Bcd(n) => format!("BCD({n})"),
			Raw::Lvar => "LVAR".into(),
		}
	}
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum RLoc {
	Dif,
	Dife,
	Vif,
	VifExt(u8),
	VifExt2,
	PlainLen,
	Plain(usize),
	Vife,
	LvarLen,
	Data(usize),
	Done,
}

#[derive(Debug, Clone)]
pub struct RecM {
	pub loc: RLoc,
	raw: Raw,
	function: u8,
	storage: u128,
	tariff: u64,
	device: u64,
	obis: bool,
	pub difes: usize,
	vt: Option<Vt>,
	vif_ext: bool,
	vifes: Vec<u8>,
	has_vifes: bool,
	text: Vec<u8>,
	lvar: Option<u8>,
	pub data: Vec<u8>,
	pub consumed: usize,
}

impl Default for RecM {
	fn default() -> Self {
		Self::new()
	}
}

impl RecM {
	pub fn new() -> Self {
		RecM {
			loc: RLoc::Dif,
			raw: Raw::None,
			function: 0,
			storage: 0,
			tariff: 0,
			device: 0,
			obis: false,
			difes: 0,
			vt: None,
			vif_ext: false,
			vifes: vec![],
			has_vifes: false,
			text: vec![],
			lvar: None,
			data: vec![],
			consumed: 0,
		}
	}

	/// Abstract state: everything the future acceptance and length depend on, nothing that only
	/// shows up in the reported value. Bytes collected so far matter only where they are validated
	/// as a whole (dates, BCD in LVAR, UTF-8 text).
	pub fn key(&self) -> Vec<u8> {
		let mut k = Vec::new();
		let (tag, arg) = match self.loc {
			RLoc::Dif => (0, 0),
			RLoc::Dife => (1, self.difes),
			RLoc::Vif => (2, 0),
			RLoc::VifExt(t) => (3, usize::from(t)),
			RLoc::VifExt2 => (4, 0),
			RLoc::PlainLen => (5, usize::from(self.vif_ext)),
			RLoc::Plain(n) => (6, n * 2 + usize::from(self.vif_ext)),
			RLoc::Vife => (7, 0),
			RLoc::LvarLen => (8, 0),
			RLoc::Data(n) => (9, n),
			RLoc::Done => (10, 0),
		};
		k.push(tag);
		k.extend((arg as u16).to_le_bytes());
		if self.loc != RLoc::Dif && self.loc != RLoc::Done {
			k.extend(format!("{:?}", self.raw).bytes());
		}
		let special = self.vt.as_ref().map(|v| v.special);
		if matches!(self.loc, RLoc::Vife | RLoc::LvarLen | RLoc::Data(_)) {
			k.extend(format!("{special:?}").bytes());
		}
		if let RLoc::Plain(_) = self.loc {
			k.push(utf8_state(&self.text));
		}
		if let (RLoc::Data(_), Some(l)) = (self.loc, self.lvar) {
			k.push(l);
			if (0xC0..0xE0).contains(&l) {
				let digits = self.data.iter().all(|b| b >> 4 < 10 && b & 15 < 10);
				k.push(digits.into());
			}
		}
		k
	}

	pub fn push(&mut self, b: u8) -> Result<Step, Rej> {
		self.consumed += 1;
		match self.loc {
			RLoc::Dif => {
				self.raw = Raw::of(b).ok_or(Rej("data type"))?;
				self.function = (b >> 4) & 3;
				self.storage = u128::from((b >> 6) & 1);
				self.loc = if b & 0x80 != 0 { RLoc::Dife } else { RLoc::Vif };
				Ok(Step::More)
			}
			RLoc::Dife => {
				if self.difes == 10 {
					return Err(Rej("more than 10 DIFEs"));
				}
				if b == 0 {
					self.obis = true;
				} else {
					self.storage |= u128::from(b & 15) << (1 + 4 * self.difes);
					self.tariff |= u64::from((b >> 4) & 3) << (2 * self.difes);
					self.device |= u64::from((b >> 6) & 1) << self.difes;
				}
				self.difes += 1;
				if b & 0x80 == 0 {
					self.loc = RLoc::Vif;
				}
				Ok(Step::More)
			}
			RLoc::Vif => {
				let (ext, code) = (b & 0x80 != 0, b & 0x7F);
				self.vif_ext = ext;
				match code {
					0x00..=0x7A => self.end_of_value(vt(Table::T10, code).clone(), ext),
					0x7B | 0x7D if ext => {
						self.loc = RLoc::VifExt(code);
						Ok(Step::More)
					}
					0x7C => {
						self.loc = RLoc::PlainLen;
						Ok(Step::More)
					}
					0x7E => self.end_of_value(vt_const("Any".into()), ext),
					0x7F => self.end_of_value(vt_const("ManufacturerSpecific".into()), ext),
					_ => self.end_of_value(vt_const(format!("Invalid({code})")), ext),
				}
			}
			RLoc::VifExt(first) => {
				let (ext, code) = (b & 0x80 != 0, b & 0x7F);
				if first == 0x7B {
					self.end_of_value(vt(Table::T14, code).clone(), ext)
				} else if code == 0x7D {
					if !ext {
						return Err(Rej("second level extension missing"));
					}
					self.loc = RLoc::VifExt2;
					Ok(Step::More)
				} else {
					self.end_of_value(vt(Table::T12, code).clone(), ext)
				}
			}
			RLoc::VifExt2 => {
				self.end_of_value(vt(Table::T13, b & 0x7F).clone(), b & 0x80 != 0)
			}
			RLoc::PlainLen => {
				if b == 0 {
					self.end_of_text()
				} else {
					self.loc = RLoc::Plain(b.into());
					Ok(Step::More)
				}
			}
			RLoc::Plain(n) => {
				self.text.push(b);
				if n == 1 {
					self.end_of_text()
				} else {
					self.loc = RLoc::Plain(n - 1);
					Ok(Step::More)
				}
			}
			RLoc::Vife => {
				self.vifes.push(b & 0x7F);
				if b & 0x80 == 0 {
					self.end_of_vib()
				} else {
					Ok(Step::More)
				}
			}
			RLoc::LvarLen => {
				self.lvar = Some(b);
				let n = match b {
					0x00..=0xBF => usize::from(b),
					0xC0..=0xC9 => usize::from(b) - 0xC0,
					0xD0..=0xD9 => usize::from(b) - 0xD0,
					0xE0..=0xEF => usize::from(b) - 0xE0,
					0xF0..=0xF4 => 4 * (usize::from(b) - 0xEC),
					0xF5 => 48,
					0xF6 => 64,
					_ => return Err(Rej("reserved LVAR")),
				};
				self.data_begins(n)
			}
			RLoc::Data(n) => {
				self.data.push(b);
				if n == 1 {
					self.data_ends()
				} else {
					self.loc = RLoc::Data(n - 1);
					Ok(Step::More)
				}
			}
			RLoc::Done => unreachable!("push after the end of a record"),
		}
	}

	fn end_of_text(&mut self) -> Result<Step, Rej> {
		let text = utf8_reversed(&self.text).ok_or(Rej("plain text is not UTF-8"))?;
		let ext = self.vif_ext;
		self.end_of_value(vt_const(format!("PlainText({text:?})")), ext)
	}

	fn end_of_value(&mut self, vt: Vt, ext: bool) -> Result<Step, Rej> {
		self.vt = Some(vt);
		if ext {
			self.has_vifes = true;
			self.loc = RLoc::Vife;
			Ok(Step::More)
		} else {
			self.end_of_vib()
		}
	}

	fn end_of_vib(&mut self) -> Result<Step, Rej> {
		match self.raw.width() {
			Some(n) => self.data_begins(n),
			None => {
				self.loc = RLoc::LvarLen;
				Ok(Step::More)
			}
		}
	}

	fn data_begins(&mut self, n: usize) -> Result<Step, Rej> {
		if n == 0 {
			self.data_ends()
		} else {
			self.loc = RLoc::Data(n);
			Ok(Step::More)
		}
	}

	fn data_ends(&mut self) -> Result<Step, Rej> {
		self.loc = RLoc::Done;
		self.data_text().map(|_| Step::Done)
	}

	/// Quantity as finally reported, after matching dates with the data type
	fn quantity(&self) -> (String, Option<char>) {
		let vt = self.vt.as_ref().unwrap();
		match (vt.special, self.raw) {
			(Special::Plain, _) => (vt.text.clone(), None),
			(Special::DateG, Raw::Binary(2)) => ("TypeGDate".into(), Some('G')),
			(Special::DateG, _) => ("Invalid(108)".into(), None),
			(Special::DateTime, Raw::Binary(3)) => ("TypeJTime".into(), Some('J')),
			(Special::DateTime, Raw::Binary(4)) => ("TypeFDateTime".into(), Some('F')),
			(Special::DateTime, Raw::Binary(6)) => ("TypeIDateTime".into(), Some('I')),
			(Special::DateTime, Raw::Lvar) => ("TypeMDatetime".into(), None),
			(Special::DateTime, _) => ("Invalid(109)".into(), None),
			(Special::Dst, Raw::Binary(4)) => ("DSTTypeK".into(), Some('K')),
			(Special::Dst, _) => ("Invalid(114)".into(), None),
		}
	}

	pub fn data_text(&self) -> Result<String, Rej> {
		let d = &self.data[..];
		if let (_, Some(kind)) = self.quantity() {
			return datelike(kind, d).ok_or(Rej("date or time field out of range"));
		}
		let unsigned = self.vt.as_ref().unwrap().unsigned;
		let integer = |d: &[u8]| {
			if unsigned {
				format!("Unsigned({})", unsigned_le(d))
			} else {
				format!("Signed({})", signed_le(d))
			}
		};
		Ok(match (self.raw, self.lvar) {
			(Raw::None, _) => "None".into(),
			(Raw::Binary(_), _) => integer(d),
			(Raw::Real, _) => format!("Real({:?})", f32::from_bits(unsigned_le(d) as u32)),
			(Raw::Bcd(_), _) => match bcd(d) {
				Some(v) => format!("Signed({v})"),
				None => format!("ErrorValue({:?})", bcd_text(d)),
			},
			(Raw::Lvar, Some(l)) => match l {
				0x00..=0xBF => format!("String({:?})", latin(d)),
				0xC0..=0xCF => match bcd(d) {
					Some(v) if v >= 0 => format!("Signed({v})"),
					_ => return Err(Rej("LVAR BCD")),
				},
				0xD0..=0xDF => match bcd(d) {
					Some(v) => format!("Signed({})", -v.abs()),
					None => return Err(Rej("LVAR BCD")),
				},
				0xE0..=0xE8 => integer(d),
				_ => format!("VariableLengthNumber({d:?})"),
			},
			(Raw::Lvar, None) => unreachable!(),
		})
	}

	pub fn dib_text(&self) -> String {
		let function = [
			"InstantaneousValue",
			"MaximumValue",
			"MinimumValue",
			"ValueDuringErrorState",
		][usize::from(self.function)];
		format!(
			"DataInfoBlock {{ raw_type: {}, function: {function}, storage: {}, tariff: {}, device: {}, is_obis: {} }}",
			self.raw.text(),
			self.storage,
			self.tariff,
			self.device,
			self.obis
		)
	}

	fn vib_with(&self, quantity: &str) -> String {
		let vifes = if self.has_vifes {
			format!("Some({:?})", self.vifes)
		} else {
			"None".into()
		};
		format!("ValueInfoBlock {{ value_type: {quantity}, extra_vifes: {vifes} }}")
	}

	/// The block as found in a record
	pub fn vib_text(&self) -> String {
		self.vib_with(&self.quantity().0)
	}

	/// The block as decoded on its own, without regard to the data type
	pub fn vib_text_alone(&self) -> String {
		self.vib_with(&self.vt.as_ref().unwrap().text)
	}

	pub fn text(&self) -> String {
		format!(
			"Record {{ dib: {}, vib: {}, data: {} }}",
			self.dib_text(),
			self.vib_text(),
			self.data_text().unwrap()
		)
	}

	/// The quantity of the block decoded on its own
	pub fn quantity_alone(&self) -> String {
		self.vt.as_ref().unwrap().text.clone()
	}

	/// The quantity as reported in a record
	pub fn quantity_text(&self) -> String {
		self.quantity().0
	}

	pub fn vifes(&self) -> Option<Vec<u8>> {
		self.has_vifes.then(|| self.vifes.clone())
	}

	pub fn plain_text(&self) -> Option<String> {
		let q = self.quantity_alone();
		q.starts_with("PlainText(").then_some(q)
	}

	/// Which kind of date or time the data is
	pub fn class(&self) -> &'static str {
		match self.quantity().1 {
			Some('F') => "F",
			Some('G') => "G",
			Some('I') => "I",
			Some('J') => "J",
			Some('K') => "K",
			_ => "plain",
		}
	}

	pub fn plain_kind(&self) -> &'static str {
		match (self.raw, self.lvar) {
			(Raw::None, _) => "none",
			(Raw::Real, _) => "real",
			(Raw::Lvar, Some(0x00..=0xBF)) => "string",
			(Raw::Lvar, Some(0xE9..)) => "big",
			_ => "number",
		}
	}

	/// A byte that leads towards the end of the record on a short path
	pub fn closing_byte(&self) -> u8 {
		match self.loc {
			RLoc::Dif => 0x01,
			RLoc::Dife => 0x01,
			RLoc::Vif => 0x13,
			RLoc::VifExt(0x7B) => 0x00,
			RLoc::VifExt(_) => 0x08,
			RLoc::VifExt2 => 0x00,
			RLoc::PlainLen => 0,
			RLoc::Plain(_) => b'a',
			RLoc::Vife => 0x01,
			RLoc::LvarLen => 0x00,
			RLoc::Data(_) => 0x11,
			RLoc::Done => unreachable!(),
		}
	}
}

pub fn datelike(kind: char, d: &[u8]) -> Option<String> {
	Some(match kind {
		'G' => {
			let (day, month, year) = date(d[0], d[1])?;
			format!("Date(TypeGDate {{ day: {day}, month: {month}, year: {year} }})")
		}
		'J' => {
			let (second, minute, hour) = time_j([d[0], d[1], d[2]])?;
			format!("Time(TypeJTime {{ second: {second}, minute: {minute}, hour: {hour} }})")
		}
		'F' => {
			let (minute, hour, day, month, year, hundred, dst) =
				datetime_f([d[0], d[1], d[2], d[3]])?;
			format!(
				"DateTimeF(TypeFDateTime {{ minute: {minute}, hour: {hour}, day: {day}, month: {month}, year: {year}, hundred_year: {hundred}, in_dst: {dst} }})"
			)
		}
		'I' => {
			let v = datetime_i([d[0], d[1], d[2], d[3], d[4], d[5]])?;
			format!("DateTimeI(TypeIDateTime {})", &format!("{v:?}")[4..])
		}
		'K' => {
			let v = dst_k([d[0], d[1], d[2], d[3]])?;
			format!("DST(TypeKDST {})", &format!("{v:?}")[4..])
		}
		_ => unreachable!(),
	})
}

/// Runs a record machine over a prefix of `b`: the machine at completion
pub fn record(b: &[u8]) -> Result<RecM, Rej> {
	let mut m = RecM::new();
	for x in b {
		if m.push(*x)? == Step::Done {
			return Ok(m);
		}
	}
	Err(Rej("record cut short"))
}

// ---------------------------------------------------------------------------------------------
// Frame body
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct FrameM {
	pub records: Vec<RecM>,
	pub cur: Option<Box<RecM>>,
	pub ended: bool,
	pub more: bool,
	pub trailer: Vec<u8>,
}

impl Default for FrameM {
	fn default() -> Self {
		Self::new()
	}
}

impl FrameM {
	pub fn new() -> Self {
		FrameM {
			records: vec![],
			cur: None,
			ended: false,
			more: false,
			trailer: vec![],
		}
	}
	pub fn push(&mut self, b: u8) -> Result<(), Rej> {
		if self.ended {
			self.trailer.push(b);
			return Ok(());
		}
		if self.cur.is_none() {
			match b {
				0x0F | 0x1F => {
					self.ended = true;
					self.more = b == 0x1F;
					return Ok(());
				}
				0x2F => return Ok(()),
				_ => self.cur = Some(Box::default()),
			}
		}
		let cur = self.cur.as_mut().unwrap();
		if cur.push(b)? == Step::Done {
			self.records.push(*self.cur.take().unwrap());
		}
		Ok(())
	}
	pub fn eof(&self) -> Result<(), Rej> {
		match self.cur {
			Some(_) => Err(Rej("record cut short")),
			None => Ok(()),
		}
	}
	pub fn key(&self) -> Vec<u8> {
		if self.ended {
			return vec![1, self.more.into()];
		}
		match &self.cur {
			None => vec![0],
			Some(r) => {
				let mut k = vec![2];
				k.extend(r.key());
				k
			}
		}
	}
	pub fn text(&self) -> String {
		let recs: Vec<String> = self.records.iter().map(|r| r.text()).collect();
		format!(
			"Frame {{ records: [{}], more_data_follows: {}, manufacturer_specific: {:?} }}",
			recs.join(", "),
			self.more,
			self.trailer
		)
	}
}

pub fn frame(b: &[u8]) -> Result<FrameM, Rej> {
	let mut m = FrameM::new();
	for x in b {
		m.push(*x)?;
	}
	m.eof()?;
	Ok(m)
}

// ---------------------------------------------------------------------------------------------
// Headers
// ---------------------------------------------------------------------------------------------

pub fn device_type(code: u8) -> &'static str {
	const NAMES: [&str; 0x40] = [
		"Other",
		"OilMeter",
		"ElectricityMeter",
		"GasMeter",
		"ThermalEnergyMeter(OutletHeat)",
		"SteamMeter",
		"WaterMeter(Warm)",
		"WaterMeter(Potable)",
		"HeatCostAllocator",
		"CompressedAir",
		"ThermalEnergyMeter(OutletCooling)",
		"ThermalEnergyMeter(InletCooling)",
		"ThermalEnergyMeter(InletHeat)",
		"ThermalEnergyMeter(Combined)",
		"BusOrSystemComponent",
		"Unknown",
		"WaterMeter(Irrigation)",
		"WaterDataLogger",
		"GasDataLogger",
		"GasConverter",
		"CalorificValue",
		"WaterMeter(Hot)",
		"WaterMeter(Cold)",
		"WaterMeter(DualRegister)",
		"PressureMeter",
		"ADConverter",
		"SmokeDetector",
		"RoomSensor",
		"GasDetector",
		"ReservedSensor",
		"ReservedSensor",
		"ReservedSensor",
		"ElectricalBreaker",
		"Valve",
		"ReservedSwitchingDevice",
		"ReservedSwitchingDevice",
		"ReservedSwitchingDevice",
		"CustomerUnit",
		"ReservedCustomerUnit",
		"ReservedCustomerUnit",
		"WaterMeter(Waste)",
		"Garbage",
		"ReservedCO2",
		"ReservedEnvironmental",
		"ReservedEnvironmental",
		"ReservedEnvironmental",
		"ReservedEnvironmental",
		"ReservedEnvironmental",
		"ServiceTool",
		"CommunicationController",
		"UnidirectionalRepeater",
		"BidirectionalRepeater",
		"ReservedSystemDevice",
		"ReservedSystemDevice",
		"RadioConverterSystemSide",
		"RadioConverterMeterSide",
		"BusConverterMeterSide",
		"ReservedSystemDevice",
		"ReservedSystemDevice",
		"ReservedSystemDevice",
		"ReservedSystemDevice",
		"ReservedSystemDevice",
		"ReservedSystemDevice",
		"ReservedSystemDevice",
	];
	match code {
		0xFF => "Wildcard",
		c if c < 0x40 => NAMES[usize::from(c)],
		_ => "Reserved",
	}
}

pub fn status_text(s: u8) -> String {
	let bit = |n: u8| s & (1 << n) != 0;
	format!(
		"MeterStatus {{ manufacturer_2: {}, manufacturer_1: {}, manufacturer_0: {}, temporary_error: {}, permanent_error: {}, power_low: {}, application: {} }}",
		bit(7), bit(6), bit(5), bit(4), bit(3), bit(2),
		["None", "Busy", "Error", "Alarm"][usize::from(s & 3)]
	)
}

pub fn config_text(lo: u8, hi: u8) -> Option<String> {
	match hi & 0x1F {
		0 if lo == 0 && hi == 0 => Some("None".into()),
		6 | 11 | 12 | 14 | 16..=31 => {
			Some(format!("Reserved({})", u16::from(hi) * 256 + u16::from(lo)))
		}
		_ => None,
	}
}

/// The tail that both headers share, from 4 bytes
fn short_fields(b: &[u8]) -> Option<String> {
	Some(format!(
		"access_number: {}, status: {}, configuration_field: {}, extra_header: None",
		b[0],
		status_text(b[1]),
		config_text(b[2], b[3])?
	))
}

pub fn short_header(b: &[u8]) -> Option<String> {
	Some(format!("Short(ShortHeader {{ {} }})", short_fields(b)?))
}

pub fn manufacturer(lo: u8, hi: u8) -> Option<String> {
	let v = u32::from(hi) * 256 + u32::from(lo);
	let mut s = String::new();
	for shift in [10, 5, 0] {
		let c = (v >> shift) % 32;
		if !(1..=26).contains(&c) {
			return None;
		}
		s.push((b'A' + (c as u8) - 1) as char);
	}
	Some(s)
}

pub fn long_header(b: &[u8]) -> Option<String> {
	let id = bcd(&b[0..4])?;
	if b[3] >= 0xF0 {
		// minus sign: not a digit
		return None;
	}
	let man = manufacturer(b[4], b[5])?;
	let name = crate::products::product(b[3], u16::from(b[5]) * 256 + u16::from(b[4]), b[6], b[7]);
	let short = short_fields(&b[8..12])?;
	Some(format!(
		"Long(LongHeader {{ identifier: {id}, manufacturer: {man:?}, device_name: {name:?}, version: {}, device_type: {}, {short} }})",
		b[6],
		device_type(b[7]),
	))
}

// ---------------------------------------------------------------------------------------------
// Messages
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Body {
	/// All remaining bytes; name, CI is part of the value, header is part of the value
	Raw(&'static str, bool, bool),
	/// Nothing of what follows is reported
	Fixed(&'static str, bool, bool),
	Baud(&'static str),
	Select,
	Selected,
	Error,
	Frame,
}

/// (header length, body)
pub fn ci_kind(ci: u8) -> Option<(usize, Body)> {
	use Body::*;
	const BAUD: [&str; 8] = [
		"Rate300", "Rate600", "Rate1200", "Rate2400", "Rate4800", "Rate9600", "Rate19200",
		"Rate38400",
	];
	Some(match ci {
		0x00..=0x1F => (0, Raw("Dlms", true, true)),
		0x50 => (0, Select),
		0x51 => (0, Raw("CommandToDevice", false, true)),
		0x52 => (0, Raw("SelectionOfDevice", false, false)),
		0x53 => (12, Select),
		0x54 => (0, Fixed("SelectedApplicationRequest", false, true)),
		0x55 => (12, Fixed("SelectedApplicationRequest", false, true)),
		0x5A => (4, Raw("CommandToDevice", false, true)),
		0x5B => (12, Raw("CommandToDevice", false, true)),
		0x5C => (0, Fixed("SynchroniseAction", false, false)),
		0x5F => (12, Raw("SpecificUsage", true, true)),
		0x60 => (12, Raw("Dlms", true, true)),
		0x61 => (4, Raw("Dlms", true, true)),
		0x66 => (0, Selected),
		0x67 => (4, Selected),
		0x68 => (12, Selected),
		0x6C => (12, Raw("TimeSyncToDevice", false, true)),
		0x6D => (12, Raw("TimeAdjustmentToDevice", false, true)),
		0x6E => (4, Error),
		0x6F => (12, Error),
		0x70 => (0, Error),
		0x71 => (0, Raw("AlarmFromDevice", false, true)),
		0x72 => (12, Frame),
		0x74 => (4, Raw("AlarmFromDevice", false, true)),
		0x75 => (12, Raw("AlarmFromDevice", false, true)),
		0x78 => (0, Frame),
		0x7A => (4, Frame),
		0x7C => (12, Raw("Dlms", true, true)),
		0x7D => (4, Raw("Dlms", true, true)),
		0x80 | 0x82 | 0x87 | 0x8B => (12, Fixed("Wireless", true, true)),
		0x88 | 0x8A => (4, Fixed("Wireless", true, true)),
		0x81 | 0x83 | 0x86 | 0x89 | 0x8C..=0x8F => (0, Fixed("Wireless", true, true)),
		0x90 => (0, Raw("AuthenticationAndFrgamentation", false, false)),
		0x9E => (4, Raw("SpecificUsage", true, true)),
		0x9F => (12, Raw("SpecificUsage", true, true)),
		0xA0..=0xB7 => (0, Raw("ManufacturerSpecific", true, false)),
		0xB8..=0xBF => (0, Baud(BAUD[usize::from(ci - 0xB8)])),
		0xC0 | 0xC2 => (12, Raw("ImageTransfer", true, true)),
		0xC1 => (4, Raw("ImageTransfer", true, true)),
		0xC3 | 0xC5 => (12, Raw("SecurityTransfer", true, true)),
		0xC4 => (4, Raw("SecurityTransfer", true, true)),
		_ => return None,
	})
}

pub fn application(n: u8) -> Option<String> {
	const NAMES: [&str; 16] = [
		"All",
		"UserData",
		"SimpleBilling",
		"EnhancedBilling",
		"MultiTariffBilling",
		"InstantaneousValues",
		"LoadProfileValuesForManagement",
		"StaticContent",
		"InstallationAndStartup",
		"Testing",
		"Calibration",
		"Manufacturing",
		"Development",
		"SelfTest",
		"ConfigurationData",
		"UserDefinedData",
	];
	NAMES.get(usize::from(n)).map(|s| s.to_string())
}

pub const ERROR_NAMES: &[(u8, &str)] = &[
	(0x00, "Unspecified"),
	(0x01, "CIFieldError"),
	(0x02, "BufferOverflow"),
	(0x03, "RecordOverflow"),
	(0x04, "RecordError"),
	(0x05, "DIFEOverflow"),
	(0x06, "VIFEOverflow"),
	(0x08, "ApplicationBusy"),
	(0x09, "CreditOverflow"),
	(0x11, "NoFunction"),
	(0x12, "DataError"),
	(0x13, "RoutingOrRelayingError"),
	(0x14, "AccessViolation"),
	(0x15, "ParameterError"),
	(0x16, "SizeError"),
	(0x20, "SecurityError"),
	(0x21, "SecurityMechanismNotSupported"),
	(0x22, "InadequateSecurityMethod"),
];

pub fn error_code(c: u8) -> bool {
	ERROR_NAMES.iter().any(|e| e.0 == c)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MLoc {
	Ci,
	Header(usize),
	/// nothing of the body seen yet, then its contents
	Body,
}

#[derive(Debug, Clone)]
pub struct MsgM {
	pub loc: MLoc,
	pub ci: u8,
	pub body: Option<Body>,
	hdr_len: usize,
	hdr: Vec<u8>,
	hdr_text: String,
	bytes: Vec<u8>,
	frame: FrameM,
	rec: Option<RecM>,
	rec_done: bool,
	/// The input goes beyond what the properties define (surplus bytes after a complete
	/// fixed-form body, applications spread over several subcode bytes)
	pub unspecified: bool,
}

impl Default for MsgM {
	fn default() -> Self {
		Self::new()
	}
}

impl MsgM {
	pub fn new() -> Self {
		MsgM {
			loc: MLoc::Ci,
			ci: 0,
			body: None,
			hdr_len: 0,
			hdr: vec![],
			hdr_text: "None".into(),
			bytes: vec![],
			frame: FrameM::new(),
			rec: None,
			rec_done: false,
			unspecified: false,
		}
	}

	pub fn push(&mut self, b: u8) -> Result<(), Rej> {
		match self.loc {
			MLoc::Ci => {
				let (n, body) = ci_kind(b).ok_or(Rej("CI"))?;
				self.ci = b;
				self.hdr_len = n;
				self.body = Some(body);
				self.loc = if n == 0 { MLoc::Body } else { MLoc::Header(n) };
				Ok(())
			}
			MLoc::Header(n) => {
				self.hdr.push(b);
				if n > 1 {
					self.loc = MLoc::Header(n - 1);
					return Ok(());
				}
				self.hdr_text = if self.hdr_len == 4 {
					short_header(&self.hdr)
				} else {
					long_header(&self.hdr)
				}
				.ok_or(Rej("header"))?;
				self.loc = MLoc::Body;
				Ok(())
			}
			MLoc::Body => match self.body.unwrap() {
				Body::Raw(..) => {
					self.bytes.push(b);
					Ok(())
				}
				Body::Fixed(..) | Body::Baud(_) => {
					self.unspecified = true;
					Ok(())
				}
				Body::Select | Body::Selected => {
					self.bytes.push(b);
					if self.bytes.len() > 10 || (self.bytes.len() > 1 && b >= 0x10) {
						self.unspecified = true;
					}
					Ok(())
				}
				Body::Frame => self.frame.push(b),
				Body::Error => {
					if self.bytes.is_empty() {
						self.bytes.push(b);
						return match b {
							0xF0 => {
								self.rec = Some(RecM::new());
								Ok(())
							}
							0xF1..=0xFF => Ok(()),
							b if ERROR_NAMES.iter().any(|e| e.0 == b) => Ok(()),
							_ => Err(Rej("error code")),
						};
					}
					match self.bytes[0] {
						0xF0 => {
							if self.rec_done {
								self.unspecified = true;
								Ok(())
							} else {
								let step = self.rec.as_mut().unwrap().push(b)?;
								self.rec_done = step == Step::Done;
								Ok(())
							}
						}
						0xF1..=0xFF => {
							self.bytes.push(b);
							Ok(())
						}
						_ => {
							self.unspecified = true;
							Ok(())
						}
					}
				}
			},
		}
	}

	fn application_message(&self) -> String {
		let app = application(self.bytes[0] >> 4).unwrap();
		let block = self
			.bytes
			.iter()
			.fold(0u64, |acc, b| acc * 16 + u64::from(b % 16));
		format!("ApplicationMessage {{ message_application: {app}, block_number: {block} }}")
	}

	/// The value if the input ends here. Meaningless if `unspecified`.
	pub fn eof(&self) -> Result<String, Rej> {
		match self.loc {
			MLoc::Ci => return Err(Rej("no CI")),
			MLoc::Header(_) => return Err(Rej("header cut short")),
			MLoc::Body => {}
		}
		if self.unspecified {
			return Ok("?".into());
		}
		let h = &self.hdr_text;
		let ci = self.ci;
		Ok(match self.body.unwrap() {
			Body::Raw(name, with_ci, with_hdr) => {
				let mut parts = vec![];
				if with_ci {
					parts.push(ci.to_string());
				}
				if with_hdr {
					parts.push(h.clone());
				}
				parts.push(format!("{:?}", self.bytes));
				format!("{name}({})", parts.join(", "))
			}
			Body::Fixed(name, with_ci, with_hdr) => {
				let mut parts = vec![];
				if with_ci {
					parts.push(ci.to_string());
				}
				if with_hdr {
					parts.push(h.clone());
				}
				if parts.is_empty() {
					name.to_string()
				} else {
					format!("{name}({})", parts.join(", "))
				}
			}
			Body::Baud(rate) => format!("SetBaudRate({rate})"),
			Body::Select if self.bytes.is_empty() => format!("ApplicationReset({h})"),
			Body::Select => format!("ApplicationSelect({h}, {})", self.application_message()),
			Body::Selected if self.bytes.is_empty() => return Err(Rej("no subcode")),
			Body::Selected => format!(
				"SelectedApplicationResponse({h}, {})",
				self.application_message()
			),
			Body::Frame => {
				self.frame.eof()?;
				format!("ResponseFromDevice({h}, {})", self.frame.text())
			}
			Body::Error => {
				let e = match self.bytes.first() {
					None => "Unspecified".into(),
					Some(0xF0) => {
						if !self.rec_done {
							return Err(Rej("record cut short"));
						}
						format!("DynamicError({})", self.rec.as_ref().unwrap().text())
					}
					Some(c @ 0xF1..=0xFF) => {
						format!("ManufacturerSpecific({c}, {:?})", &self.bytes[1..])
					}
					Some(c) => ERROR_NAMES.iter().find(|e| e.0 == *c).unwrap().1.into(),
				};
				format!("ApplicationErrorFromDevice({h}, {e})")
			}
		})
	}

	/// Abstract state
	pub fn key(&self) -> Vec<u8> {
		let mut k = match self.loc {
			MLoc::Ci => return vec![0],
			MLoc::Header(n) => vec![1, n as u8],
			MLoc::Body => vec![2],
		};
		k.push(self.ci);
		if let MLoc::Header(_) = self.loc {
			k.extend(&self.hdr);
			return k;
		}
		match self.body.unwrap() {
			Body::Frame => k.extend(self.frame.key()),
			Body::Select | Body::Selected => k.push(self.bytes.len().min(11) as u8),
			Body::Error => {
				k.extend(self.bytes.first());
				if let Some(r) = &self.rec {
					k.extend(r.key());
				}
			}
			_ => {}
		}
		k.push(self.unspecified.into());
		k
	}
	pub fn header_len(&self) -> usize {
		self.hdr_len
	}
	/// A byte that leads towards acceptance
	pub fn closing_byte(&self) -> u8 {
		match self.loc {
			MLoc::Ci => 0x51,
			MLoc::Header(_) => match (self.hdr_len, self.hdr.len()) {
				(12, 4) => 0x2D,
				(12, 5) => 0x2C,
				_ => 0,
			},
			MLoc::Body => match (&self.rec, &self.frame.cur) {
				(Some(r), _) if !self.rec_done => r.closing_byte(),
				(_, Some(r)) => r.closing_byte(),
				_ => 0,
			},
		}
	}
}

pub fn message(b: &[u8]) -> Result<MsgM, Rej> {
	let mut m = MsgM::new();
	for x in b {
		m.push(*x)?;
	}
	m.eof()?;
	Ok(m)
}

// ---------------------------------------------------------------------------------------------
// Link layer
// ---------------------------------------------------------------------------------------------

pub fn control(c: u8) -> Option<String> {
	if c & 0x80 != 0 {
		return None;
	}
	let (b5, b4, f) = (c & 0x20 != 0, c & 0x10 != 0, c & 15);
	if c & 0x40 != 0 {
		let m = match (f, b4) {
			(0, false) => "ResetRemoteLink",
			(1, false) => "ResetUserProcess",
			(3, true) => "SendUserDataConfirmed",
			(4, false) => "SendUserDataUnconfirmed",
			(8, false) => "RequestAccessDemand",
			(9, false) => "RequestLinkStatus",
			(10, true) => "RequestUserData1",
			(11, true) => "RequestUserData2",
			_ => return None,
		};
		Some(format!("Primary {{ frame_count_bit: {b5}, message: {m} }}"))
	} else {
		let m = match f {
			0 => "ACK",
			1 => "NACK",
			8 => "UserData",
			9 => "UserDataUnavailable",
			11 => "Status",
			14 => "LinkNotFunctioning",
			15 => "LinkNotImplemented",
			_ => return None,
		};
		let dfc = if b4 { "Pause" } else { "Continue" };
		Some(format!(
			"Secondary {{ access_demand: {b5}, data_flow_control: {dfc}, message: {m} }}"
		))
	}
}

/// Link layer automaton. Its payload is checked when the frame is complete.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum LLoc {
	Start,
	Len,
	Len2(u8),
	Start2(u8),
	LongControl(u8),
	LongAddr(u8),
	Payload(u8),
	LongSum,
	LongTail,
	ShortControl,
	ShortAddr,
	ShortSum,
	ShortTail,
	Done,
}

#[derive(Debug, Clone)]
pub struct LinkM {
	pub loc: LLoc,
	sum: u8,
	pub control: u8,
	pub address: u8,
	pub payload: Vec<u8>,
}

impl Default for LinkM {
	fn default() -> Self {
		Self::new()
	}
}

impl LinkM {
	pub fn new() -> Self {
		LinkM {
			loc: LLoc::Start,
			sum: 0,
			control: 0,
			address: 0,
			payload: vec![],
		}
	}

	/// Structure only: the payload's own acceptance is left to `eof`
	pub fn push(&mut self, b: u8) -> Result<(), Rej> {
		self.loc = match self.loc {
			LLoc::Start => match b {
				0xE5 => LLoc::Done,
				0x10 => LLoc::ShortControl,
				0x68 => LLoc::Len,
				_ => return Err(Rej("start byte")),
			},
			LLoc::Len => {
				if b < 2 {
					return Err(Rej("length"));
				}
				LLoc::Len2(b)
			}
			LLoc::Len2(l) if b == l => LLoc::Start2(l),
			LLoc::Start2(l) if b == 0x68 => LLoc::LongControl(l),
			LLoc::LongControl(l) => {
				control(b).ok_or(Rej("control"))?;
				self.control = b;
				self.sum = b;
				LLoc::LongAddr(l)
			}
			LLoc::LongAddr(l) => {
				self.address = b;
				self.sum = self.sum.wrapping_add(b);
				match l - 2 {
					0 => LLoc::LongSum,
					n => LLoc::Payload(n),
				}
			}
			LLoc::Payload(n) => {
				self.payload.push(b);
				self.sum = self.sum.wrapping_add(b);
				match n - 1 {
					0 => LLoc::LongSum,
					n => LLoc::Payload(n),
				}
			}
			LLoc::LongSum if b == self.sum => LLoc::LongTail,
			LLoc::LongTail if b == 0x16 => LLoc::Done,
			LLoc::ShortControl => {
				control(b).ok_or(Rej("control"))?;
				self.control = b;
				LLoc::ShortAddr
			}
			LLoc::ShortAddr => {
				self.address = b;
				LLoc::ShortSum
			}
			LLoc::ShortSum if b == self.control.wrapping_add(self.address) => LLoc::ShortTail,
			LLoc::ShortTail if b == 0x16 => LLoc::Done,
			_ => return Err(Rej("link layer")),
		};
		Ok(())
	}

	pub fn done(&self) -> bool {
		self.loc == LLoc::Done
	}
	pub fn sum(&self) -> u8 {
		self.sum
	}
	fn short_like(&self) -> bool {
		matches!(
			self.loc,
			LLoc::ShortControl | LLoc::ShortAddr | LLoc::ShortSum | LLoc::ShortTail
		)
	}

	pub fn key(&self) -> Vec<u8> {
		let mut k = format!("{:?}", self.loc).into_bytes();
		if !matches!(self.loc, LLoc::Done | LLoc::LongTail | LLoc::ShortTail) {
			k.push(self.sum);
			if self.short_like() {
				k.push(self.control.wrapping_add(self.address));
			}
		}
		k
	}
}

pub enum Verdict {
	Accept(String),
	Unspecified,
	Reject(Rej),
}

/// The whole telegram
pub fn packet(b: &[u8]) -> Verdict {
	let mut m = LinkM::new();
	for x in b {
		if m.done() {
			return Verdict::Reject(Rej("trailing data"));
		}
		if let Err(e) = m.push(*x) {
			return Verdict::Reject(e);
		}
	}
	if !m.done() {
		return Verdict::Reject(Rej("cut short"));
	}
	match b[0] {
		0xE5 => Verdict::Accept("Ack".into()),
		0x10 => Verdict::Accept(format!(
			"Short {{ control: {}, address: {} }}",
			control(m.control).unwrap(),
			m.address
		)),
		_ => match message(&m.payload) {
			Err(e) => Verdict::Reject(e),
			Ok(msg) if msg.unspecified => Verdict::Unspecified,
			Ok(msg) => Verdict::Accept(format!(
				"Long {{ control: {}, address: {}, message: {} }}",
				control(m.control).unwrap(),
				m.address,
				msg.eof().unwrap()
			)),
		},
	}
}

/// Builds a long frame around a payload
pub fn wrap_long(control: u8, address: u8, payload: &[u8]) -> Vec<u8> {
	let l = (payload.len() + 2) as u8;
	let mut v = vec![0x68, l, l, 0x68, control, address];
	v.extend(payload);
	let sum = v[4..].iter().fold(0u8, |a, b| a.wrapping_add(*b));
	v.push(sum);
	v.push(0x16);
	v
}
