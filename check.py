#!/usr/bin/env python3
"""Run one property check against the current tree of dosisod/skull.

usage: check.py <property id> [--list]

exit 0: the property holds on everything analysed
exit 1: a violation not listed in known_findings.json (prints VIOLATION line)
exit 2: the analysis could not give an answer (anchor vanished, budget exceeded)
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)

from extract import AnalysisBroken, extract  # noqa: E402
import absint  # noqa: E402


class Ctx:
    def __init__(self, pid, P):
        self.pid = pid
        self.P = P
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = {}
        self.counts = {}
        self.funcs = set()
        self.calls = set()
        self.blocks = set()
        self.notes = []
        self.rule = ""
        self.assumptions = []
        self.samples = []

    def violation(self, key, text):
        self.viol.setdefault(key, text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def used(self, E):
        """merge what an engine run covered"""
        self.funcs |= {f for f in E.stat_funcs}
        self.calls |= E.stat_calls
        self.blocks |= E.stat_blocks

    def require(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)


def load_checks():
    reg = {}
    d = os.path.join(HERE, "checks")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            m = importlib.import_module("checks." + f[:-3])
            for pid, fn in getattr(m, "CHECKS", {}).items():
                reg[pid] = fn
    return reg


# contracts a property's own analysis assumes and that are part of what it promises: verified along with it
RELIES = {
    "C05": ["unused.reports"],
    "C06": ["source.reading", "source.opening"],
    "C07": ["names.redeclare", "names.classified"],
    "C09": ["names.classified", "names.nested"],
    "C15": ["source.names"],
    "C16": ["source.names"],
    "C18": ["operators.constness"],
    "C28": ["source.decoding"],
    "C30": ["driver.files_"],
}


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    if pid == "--list":
        for k, v in load_checks().items():
            print(k, (v.__doc__ or "").strip().split("\n")[0])
        return 0
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = {(f["property"], f["key"]): f for f in kf["findings"]}
    try:
        reg = load_checks()
        if pid not in reg:
            raise AnalysisBroken("no check for property " + pid)
        P = absint.Program(extract())
        ctx = Ctx(pid, P)
        try:
            reg[pid](ctx)
        except AnalysisBroken as e:
            # violations found before the analysis got stuck still stand
            if not any((pid, k) not in known for k in ctx.viol):
                raise
            ctx.notes.append("incomplete: %s" % e)
        for part in RELIES.get(pid, ()):
            m, f = part.split(".")
            rule, asm = ctx.rule, list(ctx.assumptions)
            try:
                getattr(importlib.import_module("checks." + m), f)(ctx)
            except AnalysisBroken as e:
                # the check that owns this part gives no answer; what this one decided stands
                ctx.notes.append("%s: %s" % (part, e))
            ctx.rule, ctx.assumptions = rule, asm
        if not ctx.counts or not any(ctx.counts.values()):
            raise AnalysisBroken("nothing was analysed")
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    new = {}
    for k, t in sorted(ctx.viol.items()):
        f = known.get((pid, k))
        if f:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        else:
            new[k] = t
    counts = dict(ctx.counts)
    cov = {
        "explanation": ctx.rule,
        "functions_analysed": len(ctx.funcs),
        "call_sites": len(ctx.calls),
        "flow_graph_blocks": len(ctx.blocks),
    }
    cov.update(counts)
    if ctx.notes:
        cov["notes"] = ctx.notes
    if ctx.samples:
        cov["samples"] = ctx.samples[:20]
    cov["functions"] = sorted(ctx.funcs)[:120]
    evidence = {
        "property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": "other",
        "coverage": cov, "wall_s": round(time.time() - t0, 2),
        "assumptions": ctx.assumptions,
        "violations": len(new),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s: analysed %d functions, %d call sites, %d blocks; %s; %.1f s" % (
        pid, len(ctx.funcs), len(ctx.calls), len(ctx.blocks),
        ", ".join("%s=%s" % kv for kv in sorted(counts.items())), time.time() - t0))
    if new:
        rp = os.path.join(ev, pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (pid, ctx.rule))
            for k, t in sorted(new.items()):
                f.write("[%s]\n%s\n\n" % (k, t))
        for k, t in sorted(new.items())[:40]:
            print("  violation [%s] %s" % (k, t.split("\n")[0]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
