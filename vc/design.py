#!/usr/bin/env python3
"""Fills the generated part of DESIGN.md: functions, units and bounds per property, and which check catches which planted bug."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vc"))
sys.argv = ["driver"]
g = {"__name__": "drv", "__file__": os.path.join(V, "vc", "driver.py")}
exec(compile(open(g["__file__"]).read(), g["__file__"], "exec"), g)
sys.modules["__main__"].Unit = g["Unit"]
r = {"__name__": "reg"}
exec(open(os.path.join(V, "units", "registry.py")).read(), r)
out = ["## Functions under contract, per property\n"]
built = json.load(open(os.path.join(V, "vc", "built.json")))
for p in built:
    us = [u for u in r["UNITS"] if p in u.props]
    fns = sorted({f for u in us if not u.bounded for f in u.functions})
    out.append("* **%s** - %d units. Proved: %s." % (p, len(us), ", ".join("`%s`" % f for f in fns)))
    b = [u for u in us if u.bounded]
    if b:
        out.append("  Bounded: " + "; ".join("`%s` (%s)" % (u.name, u.bounded) for u in b) + ".")
    ev = os.path.join(V, "evidence", p + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e["violations"] == 0: out.append("  Last run: %d obligations, %d discharged, %.0f s wall on 8 cores." % (e["coverage"]["obligations"], e["coverage"]["discharged"], e["wall_s"]))
out.append("\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
res = json.load(open(os.path.join(V, "vc", "caught.json"))) if os.path.exists(os.path.join(V, "vc", "caught.json")) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    k = os.path.basename(d)
    out.append("| %s | %s | %s | %s |" % (k, m["property"], m["needs"].replace("|", "/"), res.get(k, "?").replace("|", "/")))
s = open(os.path.join(V, "DESIGN.md")).read()
s = re.sub(r"(<!-- generated: vc/design.py -->\n).*?(<!-- end generated -->)", lambda m: m.group(1) + "\n".join(out) + "\n" + m.group(2), s, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(s)
