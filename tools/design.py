#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md.in, with a section per property and the table of planted bugs."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
M = json.load(open("MANIFEST.json"))
note = {c["property"]: c["level_note"] for c in M["checks"]}
na = {c["property"] for c in M["not_applicable"]}
known = json.load(open("known_findings.json"))
G = [("Front end", "C20 C19 C28 C21 C23 C25 C30"), ("Semantic analysis", "C01 C02 C07 C08 C09 C10 C03 C04 C05 C11 C24 C27 C29"),
     ("LLVM back end", "C12 C13 C14 C15 C31 C32"), ("C back end and run-time helpers", "C17 C18 C26"), ("Driver", "C06 C16 C22")]
props = {}
for l in open("properties.jsonl"):
    p = json.loads(l)
    props[p["id"]] = p
seen = set(na)
out = []
for title, ids in G:
    out += ["### " + title, ""]
    for i in ids.split():
        seen.add(i)
        p = props[i]
        out += ["**%s %s** (`%s`)" % (i, p["title"], "`, `".join(f[6:] for f in p["anchors"]["files"]))]
        e = "evidence/%s.json" % i
        if os.path.exists(e):
            e = json.load(open(e))
            c = e["coverage"]
            n = ", ".join("%s %s" % (v, k.replace("_", " ")) for k, v in c.items() if type(v) is int)
            out += ["- *Decided:* " + c["explanation"], "- *Analysed:* %s; about %d s." % (n, max(1, round(e["wall_s"])))]
            if e.get("assumptions"):
                out += ["- *Assumed:* " + "; ".join(e["assumptions"]) + "."]
        out += ["- *Quantifies over:* " + p["quantifier"]["text"] + ".", "- *Beyond tests:* " + p["why_tests_cant"]]
        if note.get(i):
            out += ["- *Limits:* " + note[i].strip()]
        f = [x for x in known["findings"] if x["property"] == i]
        if f:
            out += ["- *Known findings:* " + "; ".join("`%s`" % x["key"] for x in f) + "."]
        out.append("")
assert seen == set(props), set(props) ^ seen
rows = ["", "| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], m["property"], m["needs"], m["what_it_breaks"]))
s = open("tools/design.md.in").read()
s = s.replace("PROPERTYSECTIONS", "\n".join(out)).replace("BUGTABLE", "\n".join(rows))
s = s.replace("FIXEDLIST", "\n".join("- " + (x if type(x) is str else str(x)).replace("fixed: property=", "") for x in known["fixed"]))
open("DESIGN.md", "w").write(s)
