//! C25: every well-formed pattern of vif!, expanded by the compiler in the program /verif/pats.

use std::process::{Command, Stdio};
use std::sync::OnceLock;

use crate::judge::J;
use crate::run::{hash, verif_dir, Ctx};
use crate::Entry;

pub struct Row {
	pub text: String,
	hits: Result<Vec<bool>, String>,
	value: Option<String>,
}

/// Builds and runs the program. Patterns that do not compile are told by the line of the error.
pub fn table() -> &'static Vec<Row> {
	static T: OnceLock<Vec<Row>> = OnceLock::new();
	T.get_or_init(|| {
		let dir = format!("{}/pats", verif_dir());
		let src = std::fs::read_to_string(format!("{dir}/src/main.rs")).expect("pats source");
		let target = std::env::current_exe()
			.expect("exe")
			.ancestors()
			.nth(2)
			.expect("target directory")
			.to_path_buf();
		let o = Command::new("cargo")
			.args(["build", "--offline", "--locked", "--message-format=short"])
			.current_dir(&dir)
			.env("CARGO_TARGET_DIR", &target)
			.stdin(Stdio::null())
			.output()
			.expect("cargo");
		if !o.status.success() {
			let err = String::from_utf8_lossy(&o.stderr).to_string();
			let broken: Vec<(usize, &str)> = err
				.lines()
				.filter(|l| l.contains(": error"))
				.filter_map(|l| {
					let l = l.strip_prefix("src/main.rs:")?;
					Some((l.split(':').next()?.parse().ok()?, l))
				})
				.collect();
			let rows: Vec<Row> = src
				.lines()
				.enumerate()
				.filter(|(_, l)| l.starts_with("\t(\""))
				.map(|(n, l)| Row {
					text: l.split('"').nth(1).expect("pattern").into(),
					hits: Err(broken
						.iter()
						.find(|b| b.0 == n + 1)
						.map_or(String::new(), |b| b.1.to_string())),
					value: None,
				})
				.collect();
			let on_patterns = rows
				.iter()
				.any(|r| matches!(&r.hits, Err(e) if !e.is_empty()));
			assert!(on_patterns, "pats does not compile: {err}");
			return rows;
		}
		let o = Command::new(target.join("debug/pats"))
			.stdin(Stdio::null())
			.output()
			.expect("pats");
		assert!(o.status.success(), "pats failed");
		String::from_utf8(o.stdout)
			.expect("text")
			.lines()
			.map(|l| {
				let mut f = l.split('|');
				Row {
					text: f.next().expect("pattern").into(),
					hits: Ok(f.next().expect("hits").bytes().map(|b| b == b'1').collect()),
					value: f.next().filter(|v| *v != "-").map(|v| v.into()),
				}
			})
			.collect()
	})
}

/// What the pattern's text says about a code
fn says(text: &str, code: u8) -> bool {
	code < 128
		&& text
			.bytes()
			.filter(|c| *c != b'E' && *c != b' ')
			.enumerate()
			.all(|(i, c)| match c {
				b'0' => code >> (6 - i) & 1 == 0,
				b'1' => code >> (6 - i) & 1 == 1,
				_ => true,
			})
}

/// [pattern (2 bytes), code]
pub fn pattern(d: &[u8]) -> J {
	let row = &table()[usize::from(d[0]) << 8 | usize::from(d[1])];
	let code = d[2];
	let hits = match &row.hits {
		Ok(h) => h,
		Err(e) if e.is_empty() => return J::Skip,
		Err(e) => return J::Bad(format!("vif!({}) does not compile: {e}", row.text)),
	};
	let expected = says(&row.text, code);
	if hits[usize::from(code)] != expected {
		return J::Bad(format!("vif!({}) matches {code:#04x}: {}", row.text, !expected));
	}
	let wild = row.text.contains(['n', 'p']);
	if !wild && expected && row.value.as_deref() != Some(code.to_string().as_str()) {
		return J::Bad(format!("vif!({}) is {:?}, not {code}", row.text, row.value));
	}
	if expected {
		J::Accept(hash(&d[..2]))
	} else {
		J::Reject
	}
}

pub fn explore(ctx: &Ctx) {
	assert_eq!(table().len(), 640);
	ctx.par("every well-formed pattern x every byte", 640 * 256, |w, i| {
		let p = (i / 256) as u16;
		w.case(Entry::Pattern, &[(p >> 8) as u8, p as u8, i as u8]);
	});
}
