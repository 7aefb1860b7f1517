#!/usr/bin/env python3
"""Writes pats/src/main.rs: one line per well-formed pattern of vif!, used as a match pattern and, without
wildcards, as a value. The line number identifies the pattern when it does not compile."""
import itertools, os

pats = []
for w in range(5):
    for up in range(8):
        for low in range(1 << (4 - w)):
            for ns in itertools.product("np", repeat=w):
                fixed = format(low, "b").zfill(4 - w) if w < 4 else ""
                pats.append((f"E{up:03b} {fixed}{''.join(ns)}", w))
assert len(set(pats)) == 640
L = []
L.append("// Generated by tools/gen_patterns.py")
L.append("use libmbus_macros::vif;")
L.append("type Row = (&'static str, fn(u8) -> bool, Option<u8>);")
L.append("const P: &[Row] = &[")
for p, w in pats:
    v = f"Some(vif!({p}))" if w == 0 else "None"
    L.append(f'\t("{p}", |b| matches!(b, vif!({p})), {v}),')
L.append("];")
L.append("""
fn main() {
	for (text, m, value) in P {
		let hits: String = (0..=255u8).map(|b| if m(b) { '1' } else { '0' }).collect();
		println!("{text}|{hits}|{}", value.map_or("-".to_string(), |v| v.to_string()));
	}
}
""")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pats/src/main.rs")
open(out, "w").write("\n".join(L))
