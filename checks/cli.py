"""The command line: which options exist, what each one sets, what is refused."""
from itertools import combinations

from absint import Outcome
from models import ret
from checks.driver import BD, Drv, FLAGS, evs, lit, value
from checks.source import H

SHORT = {"c": "compile_only", "S": "asm_backend", "E": "preprocess", "g": "debug", "q": "quiet"}
OPT = {"1": "optimize1", "2": "optimize2", "3": "optimize3"}
LONG = {"c-backend": "c_backend", "werror": "werror", "llvm-no-verify": "llvm_no_verify", "color": "color"}
SETTABLE = sorted(set(SHORT.values()) | set(OPT.values()) | set(LONG.values()) - {"color"})


def conflict(on):
    on = set(on)
    if len(on & {"optimize1", "optimize2", "optimize3"}) > 1:
        return "several optimisation levels"
    if {"c_backend", "llvm_no_verify"} <= on:
        return "LLVM options with the C back end"
    if {"quiet", "werror"} <= on:
        return "-q with --werror"
    if {"asm_backend", "c_backend"} <= on:
        return "-S with the C back end"
    if len(on & {"preprocess", "asm_backend", "compile_only"}) > 1:
        return "several of -E, -S and -c"
    return None


def one(ctx, on, nargs, named, outset, env):
    """main() on one more argument, after options that set `on`"""
    P = ctx.P
    D = Drv(P, **{f: int(f in on) for f in FLAGS})
    E, M, st = D.E, D.M, D.st
    D.flag("filename", D.obj("src") if named else 0)
    D.flag("out_file", D.obj("oldout") if outset else 0)
    D.flag("extra_args", 0)
    argv = E.new_obj(st, "lazy", "harness", 8 * (nargs + 2), "u", None, "argv")
    args = []
    E.store_cell(st, argv, 0, 8, D.obj("prog"))
    for i in range(nargs):
        a = D.obj("arg%d" % i)
        args.append(a)
        if i:
            # the operand of an option
            E.store_cell(st, a[1], 0, 1, ord("x"))
        E.store_cell(st, argv, 8 * (i + 1), 8, a)
    E.store_cell(st, argv, 8 * (nargs + 1), 8, 0)
    a0 = args[0][1]
    E.rec_limit["*"] = 6

    def strcmp(E, st, a, ins, fr):
        x, y = E.res(st, a[0]), E.res(st, a[1])
        for p, q in ((x, y), (y, x)):
            s = lit(P, st, E, q)
            if s is not None and type(p) is tuple and p[:1] == ("p",) and p[1] == a0:
                known = st.props.get("long")
                if known is not None:
                    return ret(st, int(known != (p[2], s)))
                if (p[2], s) in st.props.get("notlong", ()):
                    return ret(st, 1)
                eq, ne = st.fork(), st
                eq.props["long"] = (p[2], s)
                ne.props["notlong"] = tuple(sorted(ne.props.get("notlong", ()) + ((p[2], s),)))
                return [Outcome("ret", eq, 0), Outcome("ret", ne, 1)]
        return ret(st, E.fresh(st))
    M["strcmp"] = strcmp

    def getenv(E, st, a, ins, fr):
        if lit(P, st, E, a[0]) != "COLOR":
            return ret(st, E.fresh(st))
        return ret(st, {None: 0}.get(env, D_env))
    D_env = 0
    if env is not None:
        D_env = D.obj("COLOR")
        E.store_cell(st, D_env[1], 0, 1, ord(env))
    M["getenv"] = getenv

    def rstr(E, st, a, ins, fr):
        if lit(P, st, E, a[1]) != ".sk":
            return ret(st, E.fresh(st))
        n = D.name(st, a[0])
        outs = []
        for ok in (0, 1):
            if st.props.get(("sk", n), ok) != ok:
                continue
            s = st.fork()
            s.props[("sk", n)] = ok
            p = E.res(s, a[0])
            outs.append(Outcome("ret", s, (p[0], p[1], p[2] + 3) if ok else 0))
        return outs
    M["strrstr"] = rstr
    M["strdup"] = lambda E, st, a, i, f: ret(st, D.fresh(st, D.name(st, a[0])))

    def rmain(E, st, a, ins, fr):
        p = E.res(st, a[1])
        t = None
        n = E.res(st, a[0])
        if type(p) is tuple and p[0] == "p":
            t = D.name(st, E.load_cell(st, p[1], p[2] + 8, 8)[0] if isinstance(E.load_cell(st, p[1], p[2] + 8, 8), list) else
                       E.load_cell(st, p[1], p[2] + 8, 8))
        outs = []
        for v in (0, 1):
            s = st.fork()
            D.ev(s, "compile", (n, t), not v)
            s.props["rv"] = v
            s.props["flags"] = tuple(value(E, s, E.get(s, BD, "BuildData", f)) for f in FLAGS)
            s.props["names"] = (D.name(s, E.get(s, BD, "BuildData", "filename")), D.name(s, E.get(s, BD, "BuildData", "out_file")),
                                value(E, s, E.get(s, BD, "BuildData", "extra_args")))
            outs.append(Outcome("ret", s, v))
        return outs
    M["real_main"] = rmain
    so, se = D.obj("stdout"), D.obj("stderr")
    for g, o in (("stdout", so), ("stderr", se)):
        if g in P.globals:
            E.store_cell(st, E.gobj(st, g), 0, 8, o)

    def say(i):
        def m(E, st, a, ins, fr):
            t = D.name(st, a[i]) if i is not None else "stdout"
            D.ev(st, "say", (t,))
            return ret(st, E.fresh(st))
        return m
    M["fprintf"], M["fputs"], M["printf"], M["puts"], M["perror"] = say(0), say(1), say(None), say(None), lambda E, st, a, i, f: (
        D.ev(st, "say", ("stderr",)), ret(st))[1]
    outs = D.run("main", [nargs + 1, ("p", argv, 0)])
    ctx.used(E)
    ctx.count("command_lines")
    ctx.count("paths", len(outs))
    pre = "+".join(sorted(on)) or "nothing"
    for o in outs:
        s = o.state
        b = []
        for i in range(3):
            c = E.load_cell(s, a0, i, 1)
            c = c[0] if isinstance(c, list) else c
            b.append(E.res(s, c))
        long = s.props.get("long")
        rv = value(E, s, o.ret)
        compiled = evs(s, "compile")
        said = {e[1][0] for e in evs(s, "say")}
        ch = lambda x: chr(x) if type(x) is int else None
        # which argument is this?
        want, newflag, what = "any", None, None
        after = set(on)
        after.discard("color")
        if env == "1":
            after.add("color")
        fname, oname, extra = ("src" if named else 0), ("oldout" if outset else 0), 0
        if b[0] != ord("-"):
            what, fname = "a file name", "arg0"
            if nargs > 1:
                fname = "arg1"
        elif ch(b[1]) == "-" and b[2] == 0:
            what = "--"
            if nargs == 1:
                want = "refuse"
            extra = 1
        elif ch(b[1]) == "-":
            if long and long[0] == 2:
                what = "--" + long[1]
                if long[1] in LONG:
                    newflag = LONG[long[1]]
                elif long[1] in ("help", "version"):
                    want = "info"
                else:
                    what, want = "the undocumented option --" + long[1], "refuse"
                if nargs > 1:
                    fname = "arg1"
            else:
                what, want = "an unknown long option", "refuse"
        elif ch(b[1]) == "O":
            what = "-O" + (ch(b[2]) or "?")
            if ch(b[2]) in OPT:
                newflag = OPT[ch(b[2])]
                if nargs > 1:
                    fname = "arg1"
            else:
                want = "refuse"
        elif b[2] != 0 and b[1] != 0:
            what, want = "-%s followed by more characters" % (ch(b[1]) or "?"), "refuse"
            if type(b[2]) is not int and not (0 in (E.con(s, b[2]) or P_NONE).ne):
                # the code did not look: whatever it does, it does for longer text too
                what, want = "-%s, whatever follows," % (ch(b[1]) or "?"), "refuse" if compiled else "any"
        elif ch(b[1]) in SHORT:
            what, newflag = "-" + ch(b[1]), SHORT[ch(b[1])]
            if nargs > 1:
                fname = "arg1"
        elif ch(b[1]) in ("h", "v"):
            what, want = "-" + ch(b[1]), "info"
        elif ch(b[1]) == "o":
            what = "-o"
            if nargs == 1 or outset:
                want = "refuse"
            oname = "arg1"
        else:
            what, want = "an unknown option", "refuse"
        if newflag:
            if newflag in after and newflag != "color" or (newflag == "color" and env is not None):
                want = "refuse"
            after.add(newflag)
        key = "%s/%s" % (what, pre)
        if o.kind not in ("ret", "exit"):
            ctx.violation(key + "/" + o.kind, "%s after %s: the driver ends in %s" % (what, pre, o.kind))
            continue
        if want == "info":
            if compiled or rv != 0 and what not in ("-v", "--version"):
                ctx.violation(key, "%s after %s: %s" % (what, pre, "compiles" if compiled else "fails"))
            elif not said:
                ctx.violation(key, "%s prints nothing" % what)
            continue
        if what is None or want == "any" and b[0] == ord("-") and newflag is None and what not in ("-o", "--"):
            continue
        c = conflict(after)
        ok = want != "refuse" and not c and fname != 0 and s.props.get(("sk", fname), 1)
        why = "it is not allowed" if want == "refuse" else c or ("no source file is named" if fname == 0 else "the source file has no .sk extension")
        if not ok:
            if compiled:
                ctx.violation(key, "%s after %s: compilation starts although %s" % (what, pre, why))
            elif rv == 0:
                ctx.violation(key, "%s after %s: exit status is 0 although %s" % (what, pre, why))
            elif "stderr" not in said:
                ctx.violation(key + "/silent", "%s after %s: refused without a message (%s)" % (what, pre, why))
            continue
        if len(compiled) != 1:
            ctx.violation(key, "%s after %s: nothing is compiled" % (what, pre))
            continue
        if rv != s.props["rv"]:
            ctx.violation(key + "/status", "the exit status differs from the outcome of the compilation")
        got = {f for f, v in zip(FLAGS, s.props["flags"]) if v}
        if got != after:
            ctx.violation(key + "/flags", "%s after %s: in effect are %s instead of %s" % (what, pre, sorted(got), sorted(after)))
        n = s.props["names"]
        if n[0] != fname or n[1] != oname or (n[2] or 0) != extra:
            ctx.violation(key + "/names", "%s after %s: source, output and extra arguments are %s instead of %s" % (what, pre, n, (fname, oname, extra)))
        if compiled[0][1] != (2, fname):
            ctx.violation(key + "/file", "%s: %s is compiled instead of %s" % (what, compiled[0][1][1], fname))


class P_NONE:
    ne = frozenset()


def cli(ctx):
    """every option sets its own flag, conflicts and unknown options are refused"""
    ctx.rule = ("main() is analysed on one argument of unknown text (every character class the code distinguishes becomes a case), after every set of at most two "
                "options already in effect, with and without a following operand, a source file, an output file and the COLOR variable; what is in "
                "effect when compilation starts, refusals, messages and exit status are compared with the documented option table.")
    ctx.assumptions = ["longer command lines repeat the same step (options are processed one by one)"]
    pres = [()] + [(f,) for f in SETTABLE] + list(combinations(SETTABLE, 2))
    for on in pres:
        full = len(on) < 2
        for nargs in (1, 2):
            if nargs == 2 and len(on) == 2:
                continue
            one(ctx, on, nargs, nargs == 1, 0, None)
        if not on:
            one(ctx, on, 1, 0, 0, None)
            one(ctx, on, 2, 1, 1, None)
        if full:
            one(ctx, on, 1, 1, 0, "1")
            one(ctx, on, 1, 1, 1, "0")


# whole command lines: (arguments, what is refused or (source, output file, words for the linker, options))
LINES = [
    (["a.sk"], ("a.sk", None, None, ())),
    (["dir.d/a b.sk"], ("dir.d/a b.sk", None, None, ())),
    (["a.sk", "b.sk"], ("b.sk", None, None, ())),
    (["b", "a.sk"], ("a.sk", None, None, ())),
    (["a.sk", "b"], None),
    (["a.sk", "-E"], ("a.sk", None, None, ("preprocess",))),
    (["-E", "-o", "-", "a.sk"], ("a.sk", "-", None, ("preprocess",))),
    (["a.sk", "-o", "-E"], ("a.sk", "-E", None, ())),
    (["a.sk", "-o", "--"], ("a.sk", "--", None, ())),
    (["-o", "x", "-c", "-g", "-q", "-O2", "a.sk"], ("a.sk", "x", None, ("compile_only", "debug", "quiet", "optimize2"))),
    (["-o", "some/where/a long name.ll", "-S", "-O3", "--werror", "a.sk"], ("a.sk", "some/where/a long name.ll", None, ("asm_backend", "optimize3", "werror"))),
    (["a.sk", "--c-backend", "-E", "--color", "-g"], ("a.sk", None, None, ("c_backend", "preprocess", "color", "debug"))),
    (["a.sk", "--llvm-no-verify", "-O1", "--", "-lm"], ("a.sk", None, ["-lm"], ("llvm_no_verify", "optimize1"))),
    (["a.sk", "--", "-lm"], ("a.sk", None, ["-lm"], ())),
    (["a.sk", "--", "-lone", "-ltwo", "x.o", "-L."], ("a.sk", None, ["-lone", "-ltwo", "x.o", "-L."], ())),
    (["a.sk", "--", "", "-lm"], ("a.sk", None, ["-lm"], ())),
    (["a.sk", "--", "-lone", "", "-ltwo"], ("a.sk", None, ["-lone", "-ltwo"], ())),
    (["a.sk", "--", "-lm", ""], ("a.sk", None, ["-lm"], ())),
    (["a.sk", "--", ""], ("a.sk", None, [], ())),
    (["a.sk", "--", "--", "-x"], ("a.sk", None, ["--", "-x"], ())),
    (["a.sk", "-E", "--", "-E", "-o", "x", "b.sk"], ("a.sk", None, ["-E", "-o", "x", "b.sk"], ("preprocess",))),
    (["a.sk", "-o", "x", "--", "-lm"] + ["-l%d" % i for i in range(9)], ("a.sk", "x", ["-lm"] + ["-l%d" % i for i in range(9)], ())),
    (["a.sk", "--", "-l" + "long" * 12, "y"], ("a.sk", None, ["-l" + "long" * 12, "y"], ())),
    (["--", "a.sk"], None), (["-o", "a.sk"], None), (["a.sk", "--"], None), (["a.sk", "-o"], None), (["a.sk", "-o", "x", "-o", "x"], None),
    (["a.sk", "-c", "-c"], None), (["a.sk", "-E", "-c"], None), (["a.sk", "-S", "-E"], None), (["a.sk", "-c", "-S"], None), (["a.sk", "-O"], None), (["a.sk", "-O0"], None),
    (["a.sk", "-O4"], None), (["a.sk", "-O1", "-g", "-O3"], None), (["a.sk", "-"], None), (["a.sk", "-x"], None), (["a.sk", "-gq"], None),
    (["a.sk", "--wer"], None), (["a.sk", "--werrors"], None), (["a.sk", "--c-backend", "--c-backend"], None), (["a.sk", "---"], None),
    (["--llvm-no-verify", "a.sk", "--c-backend"], None), (["-q", "a.sk", "--werror"], None), (["-S", "a.sk", "--c-backend"], None), (["-E"], None), ([""], None), (["a"], None),
    (["asl"], None), (["-E", "-g", "-x", "a.sk"], None), (["a.sk", "--werror", "--", "x", "--werror"], ("a.sk", None, ["x", "--werror"], ("werror",))),
]


def lines(ctx):
    """whole command lines, character by character"""
    P = ctx.P
    for args, want in LINES:
        h = H(ctx)
        E, st, M = h.E, h.st, h.E.models
        argv = E.new_obj(st, "lazy", "harness", 8 * (len(args) + 2), "u", None, "argv")
        for i, a in enumerate(["skull"] + args):
            E.store_cell(st, argv, 8 * i, 8, h.text(a))
        E.store_cell(st, argv, 8 * (len(args) + 1), 8, 0)
        for f in FLAGS:
            E.put(st, BD, "BuildData", f, 0)
        for f in ("filename", "out_file", "extra_args"):
            E.put(st, BD, "BuildData", f, 0)
        E.rec_limit["*"] = 40
        for g in ("stdout", "stderr"):
            if g in P.globals:
                E.store_cell(st, E.gobj(st, g), 0, 8, h.obj(g))
        M["getenv"] = lambda E, st, a, i, f: ret(st, 0)
        M.pop("strrstr", None)

        def rmain(E, st, a, ins, fr):
            s = lambda f: h.str(st, E.get(st, BD, "BuildData", f)) if value(E, st, E.get(st, BD, "BuildData", f)) != 0 else None
            p = E.res(st, a[1])
            av = E.load_cell(st, p[1], p[2] + 8, 8)
            st.props["compiled"] = st.props.get("compiled", ()) + ((h.str(st, av), s("filename"), s("out_file"), s("extra_args"), tuple(
                f for f in FLAGS if value(E, st, E.get(st, BD, "BuildData", f)) != 0)),)
            return ret(st, 0)
        M["real_main"] = rmain
        shown = " ".join(repr(a) if " " in a or not a else a for a in args)
        for o in h.run("main", [len(args) + 1, ("p", argv, 0)]):
            ctx.count("whole_lines")
            got = o.state.props.get("compiled", ())
            rv = value(E, o.state, o.ret) if o.ret is not None else None
            if want is None:
                if got:
                    ctx.violation("line:accepts", "`skull %s` compiles %s instead of being refused" % (shown, got[0][0]))
                elif o.kind not in ("ret", "exit") or rv != 1:
                    ctx.violation("line:status", "`skull %s` is refused without a failing exit status" % shown)
                elif not o.state.props.get("said"):
                    ctx.violation("line:silent", "`skull %s` is refused without a message" % shown)
                continue
            if len(got) != 1 or rv != 0:
                ctx.violation("line:refuses", "`skull %s` compiles %d files and exits with %s" % (shown, len(got), "0" if rv == 0 else "a failing status"))
                continue
            src, file, out, extra, flags = got[0]
            src2, out2, extra2, flags2 = want
            for what, a, b in (("source", src, src2), ("source", file, src2), ("output file", out, out2), ("options", sorted(flags), sorted(flags2)),
                               ("arguments for the linker", None if extra is None else extra.split(), extra2)):
                if a != b:
                    ctx.violation("line:" + what, "`skull %s`: the %s %s %r instead of %r" % (shown, what, "are" if what.endswith("s") else "is", a, b))


def check(ctx):
    """every option sets its own flag, conflicts and unknown options are refused; whole command lines mean what they say"""
    cli(ctx)
    lines(ctx)
    ctx.rule += (" In addition %d whole command lines are followed character by character through main(): the source, output file, options and the words handed to the "
                 "linker in effect when compilation starts, or the refusal." % len(LINES))


CHECKS = {"C22": check}
