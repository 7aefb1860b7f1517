//! Product names as an explicit table (first match wins). Written independently of the code's own match.

/// manufacturer, first version, last version, device type code (None: any), name
type Row = (&'static [u8; 3], u8, u8, Option<u8>, &'static str);

const ELECTRICITY: Option<u8> = Some(0x02);
const WARM_WATER: Option<u8> = Some(0x06);
const UNKNOWN: Option<u8> = Some(0x0F);

const ROWS: &[Row] = &[
	(b"ABB", 0x02, 0x02, None, "ABB Delta-Meter"),
	(b"ABB", 0x20, 0x20, None, "ABB B21 113-100"),
	(b"ACW", 0x09, 0x09, None, "Itron CF Echo 2"),
	(b"ACW", 0x0A, 0x0A, None, "Itron CF 51"),
	(b"ACW", 0x0B, 0x0B, None, "Itron CF 55"),
	(b"ACW", 0x0E, 0x0E, None, "Itron BM +m"),
	(b"ACW", 0x0F, 0x0F, None, "Itron CF 800"),
	(b"ACW", 0x14, 0x14, None, "Itron CYBLE M-Bus 1.4"),
	(b"AMT", 0x00, 0x3F, None, "Aquametro AMTRON"),
	(b"AMT", 0x40, 0x7F, None, "Aquametro SAPHIR"),
	(b"AMT", 0x80, 0xBF, None, "Aquametro CALEC MB"),
	(b"AMT", 0xC0, 0xFF, None, "Aquametro CALEC ST"),
	(b"BEC", 0x00, 0x00, ELECTRICITY, "Berg DCMi"),
	(b"BEC", 0x07, 0x07, ELECTRICITY, "Berg BLMi"),
	(b"BEC", 0x71, 0x71, UNKNOWN, "Berg BMB-10S0"),
	(b"EFE", 0x00, 0x00, WARM_WATER, "Engelmann WaterStar"),
	(b"EFE", 0x00, 0x00, None, "Engelmann / Elster SensoStar 2"),
	(b"EFE", 0x01, 0x01, None, "Engelmann SensoStar 2C"),
	(b"ELS", 0x02, 0x02, None, "Elster TMP-A"),
	(b"ELS", 0x0A, 0x0A, None, "Elster Falcon"),
	(b"ELS", 0x2F, 0x2F, None, "Elster F96 Plus"),
	(b"ELV", 0x14, 0x1D, None, "Elvaco CMa10"),
	(b"ELV", 0x32, 0x3B, None, "Elvaco CMa11"),
	(b"EMH", 0x00, 0x00, None, "EMH DIZ"),
	(b"EMU", 0x10, 0x10, ELECTRICITY, "EMU Professional 3/75 M-Bus"),
	(b"GAV", 0x2D, 0x30, ELECTRICITY, "Carlo Gavazzi EM24"),
	(b"GAV", 0x39, 0x3A, ELECTRICITY, "Carlo Gavazzi EM21"),
	(b"GAV", 0x40, 0x40, ELECTRICITY, "Carlo Gavazzi EM33"),
	(b"GMC", 0xE6, 0xE6, None, "GMC-I A230 EMMOD 206"),
	(b"GTE", 0x30, 0x30, None, "Sensoco PT100"),
	(b"GTE", 0x41, 0x41, None, "Sensoco 2-NTC"),
	(b"GTE", 0x45, 0x45, None, "Sensoco Laser Light"),
	(b"GTE", 0x48, 0x48, None, "Sensoco ADIO"),
	(b"GTE", 0x51, 0x51, None, "Sensoco THU"),
	(b"GTE", 0x61, 0x61, None, "Sensoco THU"),
	(b"GTE", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
	(b"HYD", 0x28, 0x28, None, "ABB F95 Typ US770"),
	(b"HYD", 0x2F, 0x2F, None, "Hydrometer Sharky 775"),
	(b"JAN", 0x09, 0x09, ELECTRICITY, "Janitza UMG 96S"),
	(b"KAM", 0x01, 0x01, None, "Kamstrup 382 (6850-005)"),
	(b"KAM", 0x08, 0x08, None, "Kamstrup Multical 601"),
	(b"LSE", 0x99, 0x99, None, "Siemens WFH21"),
	(b"LUG", 0x02, 0x02, None, "Landis & Gyr Ultraheat 2WR5"),
	(b"LUG", 0x03, 0x03, None, "Landis & Gyr Ultraheat 2WR6"),
	(b"LUG", 0x04, 0x04, None, "Landis & Gyr Ultraheat UH50"),
	(b"LUG", 0x07, 0x07, None, "Landis & Gyr Ultraheat T230"),
	(b"NZR", 0x01, 0x01, None, "NZR DHZ 5/63"),
	(b"NZR", 0x50, 0x50, None, "NZR IC-M2"),
	(b"RAM", 0x03, 0x03, None, "Rossweiner ETK/ETW Modularis"),
	(b"REL", 0x08, 0x08, None, "Relay PadPuls M1"),
	(b"REL", 0x12, 0x12, None, "Relay PadPuls M4"),
	(b"REL", 0x20, 0x20, None, "Relay Padin 4"),
	(b"REL", 0x30, 0x30, None, "Relay AnDi 4"),
	(b"REL", 0x40, 0x40, None, "Relay PadPuls M2"),
	(b"RKE", 0x69, 0x69, None, "Ista sensonic II mbus"),
	(b"SBC", 0x10, 0x10, None, "Saia-Burgess ALE3"),
	(b"SBC", 0x19, 0x19, None, "Saia-Burgess ALE3"),
	(b"SBC", 0x11, 0x11, None, "Saia-Burgess AWD3"),
	(b"SEN", 0x08, 0x08, None, "Sensus PolluCom E"),
	(b"SEN", 0x19, 0x19, None, "Sensus PolluCom E"),
	(b"SEN", 0x0B, 0x0B, None, "Sensus PolluTherm"),
	(b"SEN", 0x0E, 0x0E, None, "Sensus PolluStat E"),
	(b"SEO", 0x30, 0x30, None, "Sensoco PT100"),
	(b"SEO", 0x41, 0x41, None, "Sensoco 2-NTC"),
	(b"SEO", 0x45, 0x45, None, "Sensoco Laser Light"),
	(b"SEO", 0x48, 0x48, None, "Sensoco ADIO"),
	(b"SEO", 0x51, 0x51, None, "Sensoco THU"),
	(b"SEO", 0x61, 0x61, None, "Sensoco THU"),
	(b"SEO", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
	(b"SLB", 0x02, 0x02, None, "Allmess Megacontrol CF-50"),
	(b"SLB", 0x06, 0x06, None, "CF Compact / Integral MK MaXX"),
	(b"SON", 0x0D, 0x0D, None, "Sontex Supercal 531"),
	(b"SPX", 0x31, 0x31, None, "Sensus PolluTherm"),
	(b"SPX", 0x34, 0x34, None, "Sensus PolluTherm"),
	(b"SVM", 0x08, 0x08, None, "Elster F2 / Deltamess F2"),
	(b"SVM", 0x09, 0x09, None, "Elster F4 / Kamstrup SVM F22"),
	(b"TCH", 0x26, 0x26, None, "Techem m-bus S"),
	(b"TCH", 0x40, 0x40, None, "Techem ultra S3"),
	(b"WZG", 0x03, 0x03, None, "Modularis ETW-EAX"),
	(b"ZRM", 0x81, 0x81, None, "Minol Minocal C2"),
	(b"ZRM", 0x82, 0x82, None, "Minol Minocal WR3"),
];

pub const fn pack(code: &[u8; 3]) -> u16 {
	((code[0] - 64) as u16) << 10 | ((code[1] - 64) as u16) << 5 | (code[2] - 64) as u16
}

pub fn manufacturers() -> Vec<u16> {
	let mut v: Vec<u16> = ROWS.iter().map(|r| pack(r.0)).collect();
	v.sort();
	v.dedup();
	v
}

/// Rows by manufacturer code
fn index() -> &'static Vec<Vec<Row>> {
	static INDEX: std::sync::OnceLock<Vec<Vec<Row>>> = std::sync::OnceLock::new();
	INDEX.get_or_init(|| {
		let mut v = vec![Vec::new(); 1 << 16];
		for r in ROWS {
			v[usize::from(pack(r.0))].push(*r);
		}
		v
	})
}

/// The identification's most significant byte, the manufacturer field, the version, the type code
pub fn product(id3: u8, manufacturer: u16, version: u8, device: u8) -> Option<&'static str> {
	let rows = &index()[usize::from(manufacturer)];
	if rows.is_empty() {
		return None;
	}
	let version = if [pack(b"SBC"), pack(b"SEO"), pack(b"GTE")].contains(&manufacturer) {
		id3
	} else {
		version
	};
	rows.iter()
		.find(|r| r.1 <= version && version <= r.2 && r.3.is_none_or(|d| d == device))
		.map(|r| r.4)
}

/// Manufacturer field, version and type code of one header for each row
pub fn examples() -> Vec<(u16, u8, u8)> {
	ROWS.iter().map(|r| (pack(r.0), r.1, r.3.unwrap_or(0x04))).collect()
}
