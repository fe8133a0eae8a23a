#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md. Usage: design.py DESCRIBE.json (output of 'mc describe')."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *p: json.load(open(os.path.join(R, *p)))
desc = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
man = {c["property"]: c for c in J("MANIFEST.json")["checks"]}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
fixes = "\n".join("- " + f.replace("fixed: property=", "") for f in J("known_findings.json")["fixed"])
out = []
for p in props:
    i = p["id"]
    c, d = man[i], desc.get(i, {})
    out.append("### %s %s" % (i, p["title"]))
    out.append("*Method:* %s. %s.  " % (c["technique"], d.get("rule", "").rstrip(".")))
    out.append("*Oracle and reach:* %s  " % c["level_note"])
    ev = {}
    try:
        e = J("evidence", i + ".json")
        if e.get("tier") == "quick" and not e.get("violations"):
            ev = {x["program"]: x for x in e["coverage"]["explored"]}
        if not d.get("rule"):
            pass
    except Exception:
        pass
    progs = d.get("programs", [])
    if i in ("P02", "P03", "C01", "C02") and ev:      # linked with generated copies only in check.sh
        progs = [dict(Name=x["program"], Bounds=x["bounds"], ThoroughOnly=False) for x in ev.values()]
    out.append("")
    out.append("| program | bounds | quick tier |\n|---|---|---|")
    for q in progs:
        x = ev.get(q["Name"])
        t = "thorough only" if q["ThoroughOnly"] else ("%s executions, %s states, %.1f s" % (f'{x["executions"]:,}', f'{x["distinct_states"]:,}', x["wall_s"]) if x else "")
        out.append("| %s | %s | %s |" % (q["Name"], q["Bounds"].replace("|", "\\|"), t))
    out.append("")
caught = J("tools", "caught.json") if os.path.exists(os.path.join(R, "tools", "caught.json")) else {}  # filled from runs of detect.sh
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(os.path.join(R, "seeded"))):
    f = os.path.join(R, "seeded", n, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), caught.get(n, "?")))
f = os.path.join(R, "DESIGN.md")
s = open(f).read()
for k, v in (("fixes", fixes), ("properties", "\n".join(out)), ("seeded", "\n".join(rows))):
    s = re.sub(r"(<!-- generated:%s -->\n).*?(<!-- end -->)" % k, lambda m: m.group(1) + v + "\n" + m.group(2), s, flags=re.S)
open(f, "w").write(s)
