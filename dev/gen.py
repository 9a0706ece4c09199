#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and known_findings.json from the
tables in dev/props.py (run after editing them)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        assert p["id"] not in ids and len(p["title"]) <= 80, p["id"]
        ids.add(p["id"])
        mech = [{"name": n, "where": w} for n, w in p["mech"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["qtext"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"], "mechanism": mech}}) + "\n")
checks, na = [], []
for p in props.P:
    if p.get("na"):
        na.append({"property": p["id"], "reason": " ".join(p["na"].split())})
        continue
    if not os.path.exists(V + "/rules/%s.py" % p["id"].lower()):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
        "technique": "static analysis: " + " ".join(p["tech"].split()), "level": "other", "level_note": " ".join(p["note"].split())})
json.dump({"version": 1, "setup_cmd": "python3 -c 'from engine import ir; ir.build_tool()'", "checks": checks, "not_applicable": na,
    "notes": "No hooks: the checks only read /repo's current source (clang AST/CFG extraction, tool/extract.cc) and decide the rules in rules/ on it."},
    open(V + "/MANIFEST.json", "w"), indent=1)
json.dump({"findings": props.KNOWN, "fixed": props.FIXED}, open(V + "/known_findings.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")

# DESIGN.md
import ast, glob
out = []
for p in props.P:
    out.append("## %s %s" % (p["id"], p["title"]))
    if p.get("na"):
        out.append("Not applicable: " + " ".join(p["na"].split()) + "\n")
        continue
    out.append("*Decided by* " + " ".join(p["tech"].split()) + ".")
    out.append("*Anchors*: " + "; ".join("%s: %s" % x for x in p["mech"]) + ".")
    for f in (p["id"].lower(), "tablelib"):
        src = open(V + "/rules/%s.py" % f).read()
        rs = [c for c in ast.walk(ast.parse(src)) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "rule" and len(c.args) == 2 and all(isinstance(a, ast.Constant) for a in c.args)]
        for c in sorted(rs, key=lambda c: c.lineno):
            out.append("* rule %s: %s" % (c.args[0].value, c.args[1].value))
        if rs:
            break
    out.append("*Why not tests*: " + " ".join(p["why"].split()))
    out.append("*Bounds and trust*: " + " ".join(p["note"].split()) + "\n")
seeds = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append("* `%s` - caught by %s: %s. Needs: %s." % (f.split("/")[-2], m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
n = 0
for f in glob.glob(V + "/dev/m_*.py"):
    g = {}
    try:
        exec(compile(open(f).read(), f, "exec"), g)
        n += len(g["M"])
    except Exception as x:
        print(f, x)
d = open(V + "/dev/design.md.in").read()
d = d.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@MUT@@", str(n))
d = d.replace("@@FIXED@@", "\n".join("* " + x[len("fixed: property="):] for x in props.FIXED)).replace("@@KNOWN@@", "\n".join("* %s `%s`: %s (%s)" % (k["property"], k["key"], k["what"], k["history"]) for k in props.KNOWN))
open(V + "/DESIGN.md", "w").write(d)
