"""A06: the XML description and the function list against the function tables."""
import os, re
import xml.etree.ElementTree as ET
import vlib

FUNC_FLAGS = {0x01000000: "Overlap", 0x04000000: "Volume", 0x08000000: "Unstable Period", 0x10000000: "Candlestick"}
OUT_FLAGS = {0x1: "Line", 0x2: "Dotted Line", 0x4: "Dashed Line", 0x8: "Dot", 0x10: "Histogram", 0x20: "Pattern Bool",
             0x40: "Pattern Bull Bear", 0x80: "Pattern Strength", 0x100: "Positive", 0x200: "Negative", 0x400: "Zero",
             0x800: "Upper Limit", 0x1000: "Lower Limit"}
PRICES = [(1, "Open"), (2, "High"), (4, "Low"), (8, "Close"), (16, "Volume"), (32, "Open Interest"), (64, "Timestamp")]
SHAPE = {"Lookback": "", "Regular": "_", "StateInit": "", "State": "", "BatchState": "", "StateFree": "", "StateSave": "", "StateLoad": ""}


def txt(e, path):
    x = e.find(path)
    return (x.text or "").strip() if x is not None else None


def run(work, tier, spec):
    r = vlib.analyse("registry", work)
    reg = {f["name"]: f for f in r["extra"]["registry"]}
    viol = []
    counts = {"table_functions": len(reg), "source_files": r["files"]}
    path = "ta-lib-rt/ta_func_api.xml"

    def V(rule, fn, inst, msg, line=0):
        viol.append({"rule": rule, "func": fn, "instance": inst, "msg": msg, "file": path, "line": line})

    def cnt(k, n=1):
        counts[k] = counts.get(k, 0) + n
    try:
        root = ET.parse(os.path.join(vlib.REPO, path)).getroot()
    except ET.ParseError as e:
        V("malformed", "-", "xml", "the XML description is not well-formed: %s" % e)
        return viol, counts, {}
    seen = {}
    for g in root:
        n = txt(g, "Abbreviation")
        seen[n] = seen.get(n, 0) + 1
        f = reg.get(n)
        if f is None:
            V("unknown", n or "-", "entry", "describes a function that does not exist")
            continue
        cnt("xml_functions")
        for tag, key in (("CamelCaseName", "camel"), ("ShortDescription", "hint"), ("GroupId", "group")):
            cnt("facts")
            if txt(g, tag) != f[key].strip():
                V("mismatch", n, tag, "%s is \"%s\", the function table says \"%s\"" % (tag, txt(g, tag), f[key]))
        want = sorted(s for b, s in FUNC_FLAGS.items() if f["flags"] & b)
        got = sorted(x.text for x in g.findall("Flags/Flag"))
        cnt("facts")
        if want != got:
            V("mismatch", n, "Flags", "flags are %s, the function table says %s" % (got, want))
        fns = {}
        for x in g.findall("Functions/Function"):
            fns.setdefault(txt(x, "Type"), []).append(x)
        for kind in SHAPE:
            xs = fns.pop(kind, [])
            cnt("facts")
            if len(xs) != 1:
                V("mismatch", n, kind, "describes %d %s functions" % (len(xs), kind))
                continue
            x = xs[0]
            w = "TA_" + n + ("" if kind == "Regular" else "_" + kind)
            if txt(x, "Name") != w:
                V("mismatch", n, kind, "the %s function is named %s, not %s" % (kind, txt(x, "Name"), w))
            if kind in ("Lookback", "Regular", "StateInit"):
                opts = x.findall("OptionalInputArguments/OptionalInputArgument")
                if len(opts) != len(f["opt"]):
                    V("mismatch", n, kind + ".options", "%d options described, the function takes %d" % (len(opts), len(f["opt"])))
                for i, (o, d) in enumerate(zip(opts, f["opt"])):
                    t = txt(o, "Type")
                    cnt("options")
                    if (t == "Double") != d["real"] or (t == "MA Type") != (d["list"] and not d["real"]):
                        V("mismatch", n, "%s.option%d" % (kind, i), "option %d is described as %s" % (i + 1, t))
                        continue
                    try:
                        df = float(txt(o, "DefaultValue"))
                        lo = float(txt(o, "Range/Minimum")) if o.find("Range") is not None else None
                        hi = float(txt(o, "Range/Maximum")) if o.find("Range") is not None else None
                    except (TypeError, ValueError):
                        V("mismatch", n, "%s.option%d" % (kind, i), "option %d has no readable range or default" % (i + 1))
                        continue

                    def near(a, b):
                        return abs(a - b) <= 1e-5 * max(1e-30, abs(b)) if d["real"] else a == b
                    if not near(df, d["def"]):
                        V("mismatch", n, "%s.option%d" % (kind, i), "default of option %d is %g, the table says %g" % (i + 1, df, d["def"]))
                    if lo is not None and not (near(lo, d["lo"]) and near(hi, d["hi"])):
                        V("mismatch", n, "%s.option%d" % (kind, i), "range of option %d is [%g,%g], the table says [%g,%g]" % (i + 1, lo, hi, d["lo"], d["hi"]))
            if kind in ("Regular", "State", "BatchState"):
                names = []
                for d in f["in"]:
                    names += [s for b, s in PRICES if d["flags"] & b] if d["type"] == 0 else [d["name"]]
                got = [txt(a, "Name") for a in x.findall("RequiredInputArguments/RequiredInputArgument")]
                got = [a for a in got if a not in ("startIdx", "endIdx")]
                cnt("inputs", len(names))
                if got != names:
                    V("mismatch", n, kind + ".inputs", "inputs are %s, the function table says %s" % (got, names))
                outs = [a for a in x.findall("OutputArguments/OutputArgument") if txt(a, "Name") not in ("outBegIdx", "outNBElement")]
                cnt("outputs", len(outs))
                if [txt(a, "Name") for a in outs] != [d["name"] for d in f["out"]]:
                    V("mismatch", n, kind + ".outputs", "outputs are %s, the function table says %s" % ([txt(a, "Name") for a in outs], [d["name"] for d in f["out"]]))
                    continue
                for a, d in zip(outs, f["out"]):
                    t = txt(a, "Type").replace(" Array", "")
                    if (t == "Integer") != (d["type"] == 1):
                        V("mismatch", n, kind + "." + d["name"], "output %s is described as %s" % (d["name"], t))
                    fl = sorted(y.text for y in a.findall("Flags/Flag"))
                    w = sorted(s for b, s in OUT_FLAGS.items() if d["flags"] & b)
                    if fl != w:
                        V("mismatch", n, kind + "." + d["name"], "flags of %s are %s, the function table says %s" % (d["name"], fl, w))
        for k in fns:
            V("unknown", n, str(k), "describes an unknown kind of function")
    for n in reg:
        if seen.get(n, 0) != 1:
            V("missing", n, "entry", "is described %d times in the XML description" % seen.get(n, 0))
    path = "ta-lib-rt/ta_func_list.txt"
    lst = {}
    for line in open(os.path.join(vlib.REPO, path)):
        if line.strip():
            a, _, b = line.rstrip("\n").partition(" ")
            lst.setdefault(a, []).append(b.strip())
    for n, f in reg.items():
        cnt("list_entries")
        if [x.strip() for x in lst.get(n, [])] != [f["hint"].strip()]:
            V("list", n, "entry", "function list has %s, the function table says \"%s\"" % (lst.get(n), f["hint"]))
    for n in lst:
        if n not in reg:
            V("list", n, "entry", "function list names an unknown function")
    return viol, counts, {}
