#!/usr/bin/env python3
"""Compares the reference model with what the C library libmbus says about the same meters
(/repo/libmbus_test_data/*/*.xml and *.norm.xml). Prints every difference and a count.

Neither /repo's code nor its tests take part: `mc model` only runs the model."""
import glob, os, re, struct, subprocess
import xml.etree.ElementTree as ET

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mc = os.path.join(root, "target/release/mc")
data = "/repo/libmbus_test_data/test-frames"


def split(s):
    """Splits a Debug text at top level commas"""
    out, depth, cur, q = [], 0, "", False
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == "\\":
                i += 1
                cur += s[i]
            elif c == '"':
                q = False
        elif c == '"':
            q = True
            cur += c
        elif c in "([{":
            depth += 1
            cur += c
        elif c in ")]}":
            depth -= 1
            cur += c
        elif c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def inner(s, name):
    """The text between the brackets after `name`"""
    i = s.index(name) + len(name)
    while s[i] not in "([{":
        i += 1
    j, depth, q = i, 0, False
    while True:
        c = s[j]
        if q:
            if c == "\\":
                j += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                return s[i + 1 : j]
        j += 1


def fields(s):
    return dict(f.split(": ", 1) for f in split(s) if ": " in f)


def f32(s):
    return struct.unpack("<f", struct.pack("<f", float(s)))[0]


FUNCTION = {
    "Instantaneous value": "InstantaneousValue",
    "Maximum value": "MaximumValue",
    "Minimum value": "MinimumValue",
    "Value during error state": "ValueDuringErrorState",
}
count = {}
diffs = []


def same(what, where, model, xml):
    count[what] = count.get(what, 0) + 1
    if model != xml:
        diffs.append(f"{where}: {what}: model {model}, libmbus {xml}")


for path in sorted(glob.glob(data + "/*.hex")):
    name = os.path.basename(path)[:-4]
    raw = path[:-4] + ".xml"
    norm = path[:-4] + ".norm.xml"
    if not os.path.exists(raw):
        continue
    out = subprocess.run([mc, "model", open(path).read()], capture_output=True, text=True).stdout.strip()
    if not out.startswith("accept"):
        print(f"{name}: model says {out[:80]}")
        continue
    if "ResponseFromDevice(Long(" not in out:
        print(f"{name}: other kind: {out[:200]}")
        continue
    h = fields(inner(out, "LongHeader"))
    x = ET.parse(raw).getroot()
    s = x.find("SlaveInformation")
    same("id", name, int(h["identifier"]), int(s.findtext("Id")))
    same("manufacturer", name, h["manufacturer"].strip('"'), s.findtext("Manufacturer"))
    same("version", name, int(h["version"]), int(s.findtext("Version")))
    same("access number", name, int(h["access_number"]), int(s.findtext("AccessNumber")))
    product = s.findtext("ProductName") or ""
    if product:
        m = re.match(r'Some\("(.*)"\)', h["device_name"])
        same("product", name, m.group(1) if m else None, product)
    f = fields(inner(out, "Frame"))
    recs = [fields(inner(r, "Record")) for r in split(f["records"][1:-1])]
    xr = x.findall("DataRecord")
    nr = ET.parse(norm).getroot().findall("DataRecord") if os.path.exists(norm) else [None] * len(xr)
    # libmbus lists trailer and more records follow as records
    plain = [(a, b) for a, b in zip(xr, nr) if a.findtext("Function") not in ("Manufacturer specific", "More records follow")]
    same("records", name, len(recs), len(plain))
    same("more records", name, f["more_data_follows"] == "true", any(a.findtext("Function") == "More records follow" for a in xr))
    tr = [a for a in xr if a.findtext("Function") == "Manufacturer specific"]
    if tr:
        t = [int(b) for b in split(f["manufacturer_specific"][1:-1])]
        same("trailer", name, t, [int(b, 16) for b in (tr[0].findtext("Value") or "").split()])
    for i, (r, (a, n)) in enumerate(zip(recs, plain)):
        where = f"{name}[{i}]"
        dib, vib = fields(inner(r["dib"], "")), fields(inner(r["vib"], ""))
        same("function", where, dib["function"], FUNCTION.get(a.findtext("Function"), a.findtext("Function")))
        for k, t in (("storage", "StorageNumber"), ("tariff", "Tariff"), ("device", "Device")):
            v = a.findtext(t)
            if v is not None:
                same(k, where, int(dib[k]), int(v))
        v = a.findtext("Value") or ""
        d = r["data"]
        kind = d.split("(")[0]
        arg = inner(d, "") if "(" in d else ""
        if kind in ("Signed", "Unsigned"):
            try:
                x1 = float(v)
                same("value", where, float(arg), x1)
            except ValueError:
                same("value", where, d, v)
        elif kind == "String":
            same("text", where, arg.strip('"').rstrip("\\0 "), v.rstrip())
        elif kind == "Real":
            same("real", where, f32(arg), f32(v))
        elif kind.startswith("DateTime") or kind == "Date":
            g = {k: int(x) for k, x in re.findall(r"(\w+): (\d+)", d)}
            m = re.match(r"(\d+)-(\d+)-(\d+)(?:T(\d+):(\d+)(?::(\d+))?)?", v)
            if m:
                y, mo, da = int(m[1]) % 100, int(m[2]), int(m[3])
                same("date", where, (g["year"], g["month"], g["day"]), (y, mo, da))
                if m[4] and "hour" in g:
                    same("time", where, (g["hour"], g["minute"]), (int(m[4]), int(m[5])))
        else:
            count[kind] = count.get(kind, 0) + 1
        # exponent: normalized value / raw value
        e = re.search(r"(-?\d+)\)?$", vib["value_type"])
        if n is not None and e and kind in ("Signed", "Unsigned") and n.findtext("Unit") and vib["extra_vifes"] == "None":
            try:
                nv, rv = float(n.findtext("Value")), float(arg)
            except (TypeError, ValueError):
                continue
            if "MWh" in vib["value_type"]:
                rv *= 1e6
            if "ReservedCode" in vib["value_type"]:
                continue
            if rv:
                same("unit and exponent", f"{where} {vib['value_type']} {n.findtext('Unit')}", f"{rv * 10.0 ** int(e[1]):.5g}", f"{nv:.5g}")
print("\n".join(diffs))
print({k: v for k, v in sorted(count.items())}, len(diffs), "differences")
