mod blame;
mod effort;
mod files;
mod judge;
mod model;
mod pats;
mod products;
mod props;
mod run;
mod threads;

use judge::{Entry, J};
use run::{Ctx, Slots, Tier};
use std::io::Read as _;

fn usage() -> ! {
	eprintln!("usage: mc check PROPERTY quick|thorough [DOMAIN] | mc replay FILE");
	std::process::exit(2)
}

fn show(entry: Entry, data: &[u8]) -> i32 {
	let j = entry.judge(data);
	println!("{} {} -> {j:?}", entry.name(), run::hex(data));
	i32::from(matches!(j, J::Bad(_)))
}

fn main() {
	judge::install_panic_hook();
	let args: Vec<String> = std::env::args().skip(1).collect();
	let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or_else(|| usage());
	let code = match arg(0) {
		"check" => {
			let p = props::find(arg(1)).unwrap_or_else(|| usage());
			run::supervise(p.id, &args[1..])
		}
		// run SLOTS PROPERTY TIER [DOMAIN]
		"run" => {
			run::limit_memory(16 << 30);
			let slots = Slots::open(arg(1), false);
			let p = props::find(arg(2)).unwrap_or_else(|| usage());
			let tier = match arg(3) {
				"quick" => Tier::Quick,
				"thorough" => Tier::Thorough,
				_ => usage(),
			};
			let ctx = Ctx::new(p.id, tier, slots, args.get(4).cloned());
			(p.run)(&ctx);
			if std::env::var_os("MC_NO_EVIDENCE").is_none() {
				if let Ok(n) = std::env::var("MC_NOTE") {
					ctx.note(n);
				}
				run::write_evidence(&ctx, &p.meta);
			}
			for (name, d) in ctx.domains.lock().unwrap().iter() {
				println!(
					"{} {name}: {} cases, {} accepted, {} rejected, {} outside, {} states, {} transitions, {:.1} s{}",
					p.id,
					d.cases,
					d.accepted,
					d.rejected,
					d.skipped,
					d.states,
					d.transitions,
					d.wall,
					if d.complete { "" } else { " (not exhausted)" }
				);
			}
			let v = std::mem::take(&mut *ctx.violations.lock().unwrap());
			run::conclude(p.id, v)
		}
		// eval ENTRY < hex
		"eval" => {
			run::limit_memory(16 << 30);
			let e = arg(1)
				.parse()
				.ok()
				.and_then(Entry::from_index)
				.unwrap_or_else(|| usage());
			let mut s = String::new();
			std::io::stdin().read_to_string(&mut s).expect("stdin");
			// on a thread with the same stack as in a run
			std::thread::Builder::new()
				.stack_size(run::STACK)
				.spawn(move || show(e, &run::unhex(&s)))
				.unwrap()
				.join()
				.unwrap_or(2)
		}
		"pristine" => judge::pristine(),
		"scheduler" => judge::scheduler(),
		// what the model says about a telegram
		"model" => {
			match model::packet(&run::unhex(arg(1))) {
				model::Verdict::Accept(t) => println!("accept {t}"),
				model::Verdict::Unspecified => println!("unspecified"),
				model::Verdict::Reject(r) => println!("reject {}", r.0),
			}
			0
		}
		"replay" => {
			let s = std::fs::read_to_string(arg(1)).expect("replay file");
			let field = |n: &str| {
				s.lines()
					.find_map(|l| l.strip_prefix(n))
					.unwrap_or_else(|| usage())
					.trim()
			};
			let e = Entry::from_name(field("entry:")).unwrap_or_else(|| usage());
			show(e, &run::unhex(field("input:")))
		}
		_ => usage(),
	};
	files::remove_scratch();
	std::process::exit(code)
}
