//! C26: dump files and the command line tool.
//!
//! Everything is read from files in a scratch directory of this process.

use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

use libmbus::utils::read_test_file;

use crate::judge::{guard, packet, J};
use crate::props::{all, cat, corpus};
use crate::run::{hash, Ctx, W};
use crate::Entry;

/// Created once per process and removed by `remove_scratch`
static DIR: OnceLock<PathBuf> = OnceLock::new();

fn scratch() -> &'static PathBuf {
	DIR.get_or_init(|| {
		let base = ["/dev/shm", "/tmp"]
			.into_iter()
			.map(PathBuf::from)
			.find(|p| std::fs::write(p.join(format!("mc-probe-{}", std::process::id())), "").is_ok())
			.unwrap_or_else(std::env::temp_dir);
		let _ = std::fs::remove_file(base.join(format!("mc-probe-{}", std::process::id())));
		let d = base.join(format!("mc-files-{}", std::process::id()));
		std::fs::create_dir_all(&d).expect("scratch directory");
		d
	})
}

pub fn remove_scratch() {
	if let Some(d) = DIR.get() {
		let _ = std::fs::remove_dir_all(d);
	}
}

fn file(name: &str) -> String {
	let t = format!("{:?}", std::thread::current().id());
	let n: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
	let d = scratch().join(format!("t{n}"));
	let _ = std::fs::create_dir_all(&d);
	d.join(name).to_str().expect("path").to_string()
}

/// What a .hex file says. Outer None: the property leaves it open
fn hex_text(text: &[u8]) -> Option<Option<Vec<u8>>> {
	let is_ws = |b: &u8| matches!(b, b' ' | b'\t' | b'\r' | b'\n' | 0x0B | 0x0C);
	let Ok(_) = std::str::from_utf8(text) else {
		return Some(None);
	};
	let from = text.iter().position(|b| !is_ws(b));
	let to = text.iter().rposition(|b| !is_ws(b));
	let (Some(from), Some(to)) = (from, to) else {
		return None; // no numbers at all
	};
	// other white space that str::trim knows
	if text[from] >= 0x80 || text[to] >= 0x80 {
		return None;
	}
	let mut v = vec![];
	let mut open = false;
	for token in text[from..=to].split(|b| *b == b' ') {
		let digits: Option<Vec<u8>> = token.iter().map(|b| digit(*b)).collect();
		match digits {
			Some(d) if d.len() == 2 => v.push(d[0] << 4 | d[1]),
			// not a byte
			Some(d) if d.is_empty() => return Some(None),
			Some(d) if d.len() > 2 && d[..d.len() - 2].iter().any(|d| *d != 0) => return Some(None),
			// another way of writing a byte
			Some(_) => open = true,
			None => return Some(None),
		}
	}
	(!open).then_some(Some(v))
}

fn digit(b: u8) -> Option<u8> {
	match b {
		b'0'..=b'9' => Some(b - b'0'),
		b'a'..=b'f' => Some(b - b'a' + 10),
		b'A'..=b'F' => Some(b - b'A' + 10),
		_ => None,
	}
}

const NAMES: [&str; 6] = ["a.hex", "dump of meter.hex", "x.y.hex", "a.bin", "hex", "a.hex.raw"];

/// [name] + content
pub fn hex_file(d: &[u8]) -> J {
	let (name, content) = (NAMES[usize::from(d[0])], &d[1..]);
	let path = file(name);
	std::fs::write(&path, content).expect("scratch file");
	let expected = if name.ends_with(".hex") {
		hex_text(content)
	} else {
		Some(Some(content.to_vec()))
	};
	let got = match guard(|| read_test_file(&path).map_err(|e| e.to_string())) {
		Ok(g) => g,
		Err(j) => return j,
	};
	match (expected, got) {
		(None, _) => J::Skip,
		(Some(None), Err(_)) => J::Reject,
		(Some(Some(e)), Ok(g)) if e == g => J::Accept(hash(&g)),
		(Some(e), g) => J::Bad(format!(
			"{name:?} with {:?}: expected {e:02x?}, got {g:02x?}",
			String::from_utf8_lossy(content)
		)),
	}
}

/// (name, content, bytes it stands for; None: cannot be read)
fn dumps() -> &'static Vec<(String, Vec<u8>, Option<Vec<u8>>)> {
	static D: OnceLock<Vec<(String, Vec<u8>, Option<Vec<u8>>)>> = OnceLock::new();
	D.get_or_init(|| {
		let text = |b: &[u8]| -> Vec<u8> {
			let t: Vec<String> = b.iter().map(|b| format!("{b:02x}")).collect();
			t.join(" ").into_bytes()
		};
		let upper = |b: &[u8]| -> Vec<u8> {
			let t: Vec<String> = b.iter().map(|b| format!("{b:02X}")).collect();
			format!("\n  {}\r\n", t.join(" ")).into_bytes()
		};
		let ack = vec![0xE5];
		let short = vec![0x10, 0x5B, 0x07, 0x62, 0x16];
		let meter = corpus()
			.iter()
			.map(|(_, b)| b.clone())
			.find(|b| matches!(packet(b), Ok(Ok(_))) && b.len() < 120)
			.expect("a meter's frame");
		let user = vec![0x68, 5, 5, 0x68, 0x53, 1, 0x51, 0xAB, 0xCD, 0x1D, 0x16];
		let sum = vec![0x10, 0x5B, 0x07, 0x63, 0x16];
		let mut cut = meter.clone();
		cut.truncate(meter.len() / 2);
		let mut v = vec![
			("ack.hex".to_string(), text(&ack), Some(ack.clone())),
			("bad sum.hex".into(), text(&sum), Some(sum.clone())),
			("meter.hex".into(), upper(&meter), Some(meter.clone())),
			("meter.bin".into(), meter.clone(), Some(meter.clone())),
			("cut.bin".into(), cut.clone(), Some(cut)),
			("empty.bin".into(), vec![], Some(vec![])),
			("short.raw".into(), short.clone(), Some(short)),
			("user.hex".into(), text(&user), Some(user)),
			// a hex dump under another name is not decoded as one
			("ack.txt".into(), text(&ack), Some(text(&ack))),
		];
		v.push(("text.hex".into(), b"68 zz".to_vec(), None));
		v
	})
}
const READABLE: u8 = 9;

/// The words of a report, without regard to its layout
fn squeeze(s: &str) -> String {
	s.chars()
		.filter(|c| !c.is_whitespace() && *c != ',')
		.collect()
}

/// Indices of the files the tool is called with
pub fn cli(d: &[u8]) -> J {
	let exe = std::env::current_exe().expect("exe").with_file_name("test_parse");
	let mut paths = vec![];
	for i in d {
		let (name, content, _) = &dumps()[usize::from(*i)];
		let p = file(name);
		if std::fs::read(&p).ok().as_ref() != Some(content) {
			std::fs::write(&p, content).expect("scratch file");
		}
		paths.push(p);
	}
	let o = Command::new(exe)
		.args(&paths)
		.stdin(Stdio::null())
		.output()
		.expect("test_parse could not be started");
	let out = String::from_utf8_lossy(&o.stdout).to_string();
	let err = String::from_utf8_lossy(&o.stderr).to_string();
	let (gout, mut gerr) = (squeeze(&out), squeeze(&err));
	let mut at = 0;
	for (i, p) in d.iter().zip(&paths) {
		let (_, _, bytes) = &dumps()[usize::from(*i)];
		// the announcement: the name and whatever is around it up to the end of its line
		let name = squeeze(p);
		let Some(n) = gout[at..].find(&name) else {
			if bytes.is_none() {
				return J::Skip;
			}
			return J::Bad(format!("{p} was not announced: {out:?} / {err:?}"));
		};
		let n = at + n + name.len();
		let Some(bytes) = bytes else {
			// what a file that cannot be read does to the ones after it is left open
			return J::Skip;
		};
		match packet(bytes) {
			Err(j) => return j,
			Ok(Ok(p2)) => {
				let e = squeeze(&format!("{p2:?}"));
				let rest = &gout[n..];
				match rest.find(&e) {
					Some(k) if k <= 8 => at = n + k + e.len(),
					_ => return J::Bad(format!("{p}: packet not reported: {out:?} / {err:?}")),
				}
			}
			Ok(Err(e)) => {
				at = n;
				let e = squeeze(&e.to_string());
				match gerr.find(&e) {
					Some(0) => gerr = gerr[e.len()..].to_string(),
					_ => return J::Bad(format!("{p}: error not reported: {out:?} / {err:?}")),
				}
			}
		}
	}
	// every packet reported belongs to a file
	let reported = ["Short{control", "Long{control", "Ack"]
		.iter()
		.map(|s| gout.matches(s).count())
		.sum::<usize>();
	let accepted: usize = d
		.iter()
		.filter_map(|i| dumps()[usize::from(*i)].2.as_ref())
		.map(|b| match packet(b) {
			Ok(Ok(p)) => {
				let e = squeeze(&format!("{p:?}"));
				["Short{control", "Long{control", "Ack"]
					.iter()
					.map(|s| e.matches(s).count())
					.sum()
			}
			_ => 0,
		})
		.sum();
	if reported != accepted {
		return J::Bad(format!("{reported} packets reported instead of {accepted}: {out:?} / {err:?}"));
	}
	if !gerr.is_empty() {
		return J::Bad(format!("unexpected errors: {err:?}"));
	}
	J::Accept(hash(format!("{d:?}").as_bytes()))
}

fn hex_case(w: &mut W, name: u8, content: &[u8]) {
	w.case(Entry::HexFile, &cat(&[&[name], content]));
}

pub fn explore(ctx: &Ctx) {
	let b = all();
	ctx.product("hex dumps: all texts of 2 characters", &[b, b], |w, v| {
		hex_case(w, 0, v);
	});
	ctx.par("hex dumps: every byte in every case and position", 256 * 4, |w, i| {
		let (v, p) = (i as u8, i / 256);
		let styles = [
			format!("{v:02x}"),
			format!("{v:02X}"),
			format!("{:x}{:X}", v >> 4, v & 15),
			format!("{:X}{:x}", v >> 4, v & 15),
		];
		for s in &styles {
			let t = match p {
				0 => s.clone(),
				1 => format!("{s} 68 {s}"),
				2 => format!("0a {s} B1"),
				_ => format!("\t\r\n {s} {s} \n\n"),
			};
			for n in 0..NAMES.len() as u8 {
				hex_case(w, n, t.as_bytes());
			}
		}
	});
	let tokens: &[&str] = &["00", "ff", "Ab", "0g", "", "100", "+1", "-1", "0x", "1 ", "\t", "\n", "fé", "68"];
	let n = tokens.len() as u64;
	ctx.par("hex dumps: all sequences of up to 4 tokens", n + n * n + n.pow(3) + n.pow(4), |w, mut i| {
		let mut len = 1;
		while i >= n.pow(len) {
			i -= n.pow(len);
			len += 1;
		}
		let mut v = vec![];
		for _ in 0..len {
			v.push(tokens[(i % n) as usize]);
			i /= n;
		}
		hex_case(w, 0, v.join(" ").as_bytes());
	});
	let letters: &[u8] = b"09afAFgGxXhHbo+-_.,;:#/%&$\\'\"()[]{}<>=!?|*~@ \t\n\r\0\x0B\x0C\x1A\x7F";
	ctx.product("hex dumps: all texts of 3 characters of all kinds", &[letters, letters, letters], |w, v| {
		hex_case(w, 0, v);
	});
	let few: &[u8] = b"0aFx#+-, \n\r\t";
	ctx.product("hex dumps: all texts of 5 characters of some kinds", &[few, few, few, few, few], |w, v| {
		hex_case(w, 0, v);
	});
	let lines: [&str; 12] = ["68", "68 E5 0a", "68 e5\n", " 68 E5", "\r\n00 01 02 03\r\n", "E5 ", "0a 0b 0c 0d 0e 0f 10", "7f 80 ff", "00", "0b 10", "10 5B 07 62 16", "\t0A 0D\t"];
	let odd: Vec<String> = (0..128u8)
		.map(|c| (c as char).to_string())
		.chain(
			[
				"0x", "0X", "0b", "0o", "\\x", "x", "#", "# end", "#end", "\n# end", "\n#", "\r\n# end", "# a\n", "//", "// 1", "\n// 1",
				"/*", "/**/", "/* 1 */", ";", "; 1", "\n; 1", "--", "-- 1", "\n-- 1", "\n", "\r\n", "\n\n", "\t", "  ", ", ", "h", "H", "$",
				"%", "_", "\u{FEFF}", "\u{A0}", "\u{2003}", "é", "１", "\0", "\n16", "\n16\n", "0000: ", "0000  ", "|..|", "EOF", "\x1A", "\x0C", "\x0B",
				"nn", "??", "..", "...", "+", "-", "1_", "1e5", "u8", "<", ">", "[", "]", "hex:", "\"", "'",
			]
			.iter()
			.map(ToString::to_string),
		)
		.collect();
	ctx.par("hex dumps: something odd at every position", (lines.len() * odd.len()) as u64, |w, i| {
		let (l, o) = (lines[i as usize % lines.len()], &odd[i as usize / lines.len()]);
		for k in 0..=l.len() {
			hex_case(w, 0, format!("{}{o}{}", &l[..k], &l[k..]).as_bytes());
			// before each number at once
			if k < l.len() {
				hex_case(w, 0, format!("{}{o}{}", &l[..k], &l[k + 1..]).as_bytes());
			}
		}
		for by in [format!(" {o}"), format!("{o} "), o.clone()] {
			hex_case(w, 0, l.replace(' ', &by).as_bytes());
		}
	});
	let meters = corpus();
	ctx.par("hex dumps of real meters: something odd at the end and in between", (meters.len() * odd.len()) as u64, |w, i| {
		let (m, o) = (&meters[i as usize % meters.len()].1, &odd[i as usize / meters.len()]);
		let l: Vec<String> = m.iter().map(|b| format!("{b:02x}")).collect();
		let t = l.join(" ");
		hex_case(w, 0, format!("{t}{o}").as_bytes());
		hex_case(w, 0, format!("{t} {o}").as_bytes());
		hex_case(w, 0, format!("{o}{t}").as_bytes());
		let at = (l.len() / 2) * 3;
		hex_case(w, 0, format!("{}{o} {}", &t[..at], &t[at..]).as_bytes());
	});
	ctx.product("raw files: every pair of bytes at the start and at the end", &[b, b], |w, v| {
		hex_case(w, 3, v);
		hex_case(w, 3, &cat(&[v, &[0x68, 0x00]]));
		hex_case(w, 3, &cat(&[&[0x68, 0x16], v]));
	});
	ctx.par("raw files: what could be something else", odd.len() as u64, |w, i| {
		let o = odd[i as usize].as_bytes();
		for n in 3..NAMES.len() as u8 {
			for m in [&[][..], &[0xE5], &[0x10, 0x5B, 0x07, 0x62, 0x16], b"68 E5", b"\xFF\xFE", b"\xEF\xBB\xBF", b"\x7FELF", b"\x1F\x8B\x08"] {
				hex_case(w, n, &cat(&[m, o]));
				hex_case(w, n, &cat(&[o, m]));
				hex_case(w, n, &cat(&[m, o, m]));
				hex_case(w, n, &cat(&[m, o, o]));
			}
		}
	});
	let pads = ["", " ", "\n", "\r\n", "\t", "  \n "];
	ctx.par("hex dumps: white space around 0 to 300 bytes", 301, |w, i| {
		let t: Vec<String> = (0..i).map(|k| format!("{:02x}", (k * 7 + i) as u8)).collect();
		for a in pads {
			for b in pads {
				hex_case(w, 0, format!("{a}{}{b}", t.join(" ")).as_bytes());
			}
		}
	});
	ctx.par("raw files: every byte value, every length up to 600", 600, |w, i| {
		for n in 3..NAMES.len() as u8 {
			let v: Vec<u8> = (0..i).map(|k| (k * 31 + i) as u8).collect();
			hex_case(w, n, &v);
			if i < 256 {
				hex_case(w, n, &[i as u8]);
				hex_case(w, n, &[b' ', i as u8, b'\n']);
				hex_case(w, n, &[i as u8, 0xFF]);
			}
		}
	});
	ctx.par("dumps of real meters", corpus().len() as u64, |w, i| {
		let b = &corpus()[i as usize].1;
		let l: Vec<String> = b.iter().map(|b| format!("{b:02x}")).collect();
		let u: Vec<String> = b.iter().map(|b| format!("{b:02X}")).collect();
		hex_case(w, 0, l.join(" ").as_bytes());
		hex_case(w, 1, format!("{}\n", u.join(" ")).as_bytes());
		hex_case(w, 3, b);
		hex_case(w, 4, l.join(" ").as_bytes());
	});
	ctx.par("hex dumps: 70000 bytes", 2, |w, i| {
		let t: Vec<String> = (0..70_000u32).map(|k| format!("{:02x}", (k * 7) as u8)).collect();
		hex_case(w, if i == 0 { 0 } else { 3 }, t.join(" ").as_bytes());
	});
	let k: Vec<u8> = (0..=READABLE).collect();
	for n in 1..=ctx.q(3, 4) {
		let a: Vec<&[u8]> = (0..n).map(|_| &k[..]).collect();
		ctx.product(&format!("tool called with every sequence of {n} files"), &a, |w, v| {
			w.case(Entry::Cli, v)
		});
	}
	ctx.par("tool called with 40 files", 3, |w, i| {
		let v: Vec<u8> = (0..40).map(|k| ((k * (i + 1) + i) % u64::from(READABLE)) as u8).collect();
		w.case(Entry::Cli, &v);
	});
}
