#!/usr/bin/env python3
"""usage: mut.py FILE.muts  -- apply one textual mutation at a time to /repo, run the named checks, undo.
Each mutation: `@@ checks file` line, then `- old` / `+ new` lines (joined by newlines)."""
import subprocess, sys
def run(check):
    r = subprocess.run(["python3", "/verif/check.py", check], capture_output=True, text=True)
    return r.returncode, [l for l in r.stdout.splitlines() if l.startswith("  violation") or "BROKEN" in l]
muts, cur = [], None
for l in open(sys.argv[1]).read().split("\n"):
    if l.startswith("@@ "):
        _, c, f = l.split()
        cur = [c.split(","), f, [], []]
        muts.append(cur)
    elif l.startswith("- "):
        cur[2].append(l[2:])
    elif l.startswith("+ "):
        cur[3].append(l[2:])
    elif l == "-" or l == "+":
        cur[2 if l == "-" else 3].append("")
for cs, f, old, new in muts:
    p = "/repo/skull/" + f
    s = open(p).read()
    old, new = ("\n".join(x).replace("\\t", "\t") for x in (old, new))
    if s.count(old) < 1:
        print("NOMATCH", f, repr(old)); continue
    try:
        open(p, "w").write(s.replace(old, new, 1))
        for c in cs:
            rc, v = run(c)
            print({0: "MISSED ", 1: "caught ", 2: "BROKEN "}.get(rc, "?"), c, f, "|", new.strip()[:60].replace("\n", " "), "|", (v or [""])[0][:150], flush=True)
    finally:
        open(p, "w").write(s)
