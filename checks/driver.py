"""The compiler driver: pipeline stages, exit status, output selection, command line."""
from absint import Engine, Outcome, State
from extract import AnalysisBroken
from models import base_models, diag_model, ret
import cstr

BD = ("p", "@BUILD_DATA", 0)
FLAGS = ["quiet", "c_backend", "llvm_backend", "asm_backend", "debug", "preprocess", "compile_only", "werror",
         "optimize1", "optimize2", "optimize3", "llvm_no_verify", "color"]


def lit(P, st, E, v):
    """text of a constant string"""
    v = E.res(st, v)
    if type(v) is tuple and v[0] == "p" and type(v[1]) is str and v[1].startswith("@") and v[2] == 0:
        b = P.global_bytes(v[1][1:])
        if b and 0 in b[1]:
            return bytes(b[1][:b[1].index(0)]).decode("latin1")
    return None


class Drv:
    def __init__(self, P, **flags):
        self.P = P
        m = base_models()
        m["fmt_message"] = diag_model
        self.E = Engine(P, m)
        self.st = State()
        self.M = m = self.E.models
        for n, f in P.funcs.items():
            if n.startswith("LLVM"):
                m[n] = self.llvm(n, f)
        for f in FLAGS:
            # flags the situation does not fix may be set or not
            self.flag(f, flags[f] if f in flags else self.E.fresh(self.st, lo=0, hi=1))
        self.flag("filename", self.obj("srcname"))
        self.flag("out_file", self.obj("outname") if flags.get("out") else 0)
        self.flag("extra_args", self.obj("extra") if flags.get("extra") else 0)

    def flag(self, f, v):
        self.E.put(self.st, BD, "BuildData", f, v)

    def obj(self, tag, typ=None):
        return ("p", self.E.new_obj(self.st, "lazy", "harness", None, "u", typ, tag), 0)

    def name(self, st, v):
        """what an argument is, as far as the analysis knows"""
        E = self.E
        v = E.res(st, v)
        if type(v) is not tuple:
            return v
        s = lit(self.P, st, E, v)
        if s is not None:
            return repr(s)
        if v[0] == "p":
            if v[1] in st.meta and st.meta[v[1]].tag:
                return st.meta[v[1]].tag
            if type(v[1]) is str and v[1].startswith("@"):
                return v[1]
        return "?"

    def ev(self, st, *e):
        st.props["ev"] = st.props.get("ev", ()) + (e,)

    def fresh(self, st, tag):
        return ("p", self.E.new_obj(st, "alloc", tag, None, "u", None, tag), 0)

    def event(self, name, results=None, keep=None):
        """model: record the call, return one of `results` (value, failed) or a fresh object"""
        def m(E, st, a, ins, fr):
            args = tuple(self.name(st, x) for x in a)
            if results is None:
                self.ev(st, name, args)
                return ret(st, self.fresh(st, keep) if keep else None)
            outs = []
            for v, failed in results:
                s = st.fork()
                self.ev(s, name, args, not failed)
                if failed:
                    s.props["failed"] = s.props.get("failed", ()) + (name,)
                outs.append(Outcome("ret", s, self.fresh(s, v[1:]) if isinstance(v, str) else v))
            return outs
        return m

    STATUS = {"LLVMVerifyModule": 2, "LLVMGetTargetFromTriple": 2, "LLVMTargetMachineEmitToFile": 4, "LLVMPrintModuleToFile": 2,
              "LLVMParseIRInContext": 3, "LLVMLinkModules2": None}

    def llvm(self, n, f):
        def m(E, st, a, ins, fr):
            args = tuple(self.name(st, x) for x in a)
            if n in self.STATUS:
                i = self.STATUS[n]
                outs = []
                for failed in (0, 1):
                    s = st.fork()
                    self.ev(s, n, args, not failed)
                    if n == "LLVMGetTargetFromTriple" and not failed:
                        p = E.res(s, a[1])
                        E.store_cell(s, p[1], p[2], 8, self.fresh(s, "target"))
                    if n == "LLVMParseIRInContext" and not failed:
                        p = E.res(s, a[2])
                        E.store_cell(s, p[1], p[2], 8, self.fresh(s, "shim module"))
                    if i is not None and len(a) > i and E.res(s, a[i]) != 0:
                        p = E.res(s, a[i])
                        if failed or n == "LLVMVerifyModule":
                            E.store_cell(s, p[1], p[2], 8, self.fresh(s, "message"))
                    if failed:
                        s.props["failed"] = s.props.get("failed", ()) + (n,)
                    outs.append(Outcome("ret", s, failed))
                return outs
            if n == "LLVMCreateTargetMachine":
                ok, bad = st.fork(), st
                self.ev(ok, n, args, True)
                self.ev(bad, n, args, False)
                bad.props["failed"] = bad.props.get("failed", ()) + (n,)
                return [Outcome("ret", ok, self.fresh(ok, "machine")), Outcome("ret", bad, 0)]
            self.ev(st, n, args)
            if f.ret == "void":
                return ret(st)
            return ret(st, self.fresh(st, n))
        return m

    def run(self, fn, args):
        return self.E.exec(self.st.fork(), self.P.func(fn), args)


def value(E, st, v):
    """0, 1 (definitely not zero) or None"""
    v = E.res(st, v)
    if type(v) is int:
        return int(v != 0)
    if type(v) is tuple and v[0] == "p":
        return 1
    c = E.con(st, v)
    if c is not None and (c.lo > 0 or 0 in c.ne):
        return 1
    a = st.fork()
    r = E.assume(a, v, True)
    b = st.fork()
    q = E.assume(b, v, False)
    if r is False and q is not False:
        return 0
    if q is False and r is not False:
        return 1
    return None


def evs(st, *names):
    return [e for e in st.props.get("ev", ()) if e[0] in names]


def idx(st, name):
    return [i for i, e in enumerate(st.props.get("ev", ())) if e[0] == name]


# ---------------------------------------------------------------------------------------------- pipeline
STAGES = ["mbstoc32s", "tokenize", "parse_ast_tree", "validate_ast_tree"]


def pipeline_(ctx):
    P = ctx.P
    for cback in (0, 1):
        D = Drv(P, c_backend=cback)
        E, M = D.E, D.M
        M["mbstoc32s"] = D.event("mbstoc32s", [("*text", False), (0, True)])
        M["tokenize"] = D.event("tokenize", [("*tokens", False), (0, True)])
        M["classify_tokens"] = D.event("classify_tokens")
        M["setup_semantic_state"] = D.event("setup_semantic_state", keep="semantic")
        M["validate_ast_tree"] = D.event("validate_ast_tree", [(1, False), (0, True)])
        for n in ("free_ast_tree", "free_tokens", "free_semantic_state", "gen_module", "gen_module_c", "free_llvm_state", "free_c_state"):
            M[n] = D.event(n)
        M["setup_llvm_state"] = D.event("setup_llvm_state", keep="llvm state")
        M["setup_c_state"] = D.event("setup_c_state", keep="c state")
        M["write_llvm"] = D.event("write_llvm", [(0, False), (1, True)])
        M["write_file_c"] = D.event("write_file_c", [(0, False), (1, True)])
        M["free"] = lambda E, st, a, i, f: (D.ev(st, "free", (D.name(st, a[0]),)), ret(st))[1]

        def parse(E, st, a, ins, fr):
            outs = []
            for kind in ("program", "empty", "fail"):
                s = st.fork()
                D.ev(s, "parse_ast_tree", tuple(D.name(s, x) for x in a), kind == "program")
                if kind == "fail":
                    s.props["failed"] = ("parse_ast_tree",)
                    outs.append(Outcome("ret", s, 0))
                    continue
                o = E.obj(s, "AstNode", "tree")
                if kind == "empty":
                    s.props["failed"] = ("parse_ast_tree",)
                    E.put(s, o, "AstNode", "type", P.enum("AST_NODE_UNKNOWN"))
                    E.put(s, o, "AstNode", "child", 0)
                    s.props["empty"] = 1
                    outs.append(Outcome("ret", s, ("p", o, 0)))
                else:
                    # a program: a first statement of any kind
                    E.put(s, o, "AstNode", "child", 0)
                    t = s.fork()
                    v = E.fresh(s, ne=frozenset({P.enum("AST_NODE_UNKNOWN")}))
                    E.put(s, o, "AstNode", "type", v)
                    outs.append(Outcome("ret", s, ("p", o, 0)))
                    E.put(t, o, "AstNode", "type", P.enum("AST_NODE_UNKNOWN"))
                    E.put(t, o, "AstNode", "child", ("p", E.obj(t, "AstNode", "block"), 0))
                    outs.append(Outcome("ret", t, ("p", o, 0)))
            return outs
        M["parse_ast_tree"] = parse
        outs = D.run("run_pipeline", [D.obj("srcname"), D.obj("contents")])
        ctx.used(E)
        ctx.count("pipeline_paths", len(outs))
        be = "C" if cback else "LLVM"
        mine = ("setup_c_state", "gen_module_c", "write_file_c", "free_c_state") if cback else \
               ("setup_llvm_state", "gen_module", "write_llvm", "free_llvm_state")
        other = ("setup_c_state", "gen_module_c", "write_file_c") if not cback else ("setup_llvm_state", "gen_module", "write_llvm")
        for o in outs:
            st = o.state
            key = "pipeline/" + be
            if o.kind != "ret":
                ctx.violation(key + "/" + o.kind, "run_pipeline ends in %s" % o.kind)
                continue
            failed = st.props.get("failed", ())
            if ctx.pid == "C16":
                ran = {e[0] for e in st.props.get("ev", ())}
                if ran & set(other):
                    ctx.violation(key + "/backend", "%s runs although the %s back end was selected" % (sorted(ran & set(other))[0], be))
                continue
            front = [f for f in failed if not f.startswith("write")]
            rv = value(E, st, o.ret)
            if failed and rv == 0:
                ctx.violation(key + "/status", "compilation reports success although %s failed" % failed[0])
            if not failed and rv != 0:
                ctx.violation(key + "/fails", "compilation of a valid program is reported as failed")
            ran = {e[0] for e in st.props.get("ev", ())}
            if front and ran & set(mine + other):
                ctx.violation(key + "/front", "%s runs although %s failed" % (sorted(ran & set(mine + other))[0], front[0]))
            if ran & set(other):
                ctx.violation(key + "/backend", "%s runs although the %s back end was selected" % (sorted(ran & set(other))[0], be))
            if not front:
                pos = [idx(st, n) for n in ("mbstoc32s", "tokenize", "classify_tokens", "parse_ast_tree", "validate_ast_tree") + mine[:3]]
                if any(len(p) != 1 for p in pos):
                    ctx.violation(key + "/once", "a stage does not run exactly once: %s" % [len(p) for p in pos])
                elif pos != sorted(pos):
                    ctx.violation(key + "/order", "the stages run in the wrong order")
                else:
                    e = st.props["ev"]
                    g = lambda n: evs(st, n)[0][1]
                    if g("tokenize") != ("text",) or g("classify_tokens") != ("tokens",) or g("parse_ast_tree") != ("tokens",) \
                            or g("validate_ast_tree") != ("semantic", "tree") or g(mine[1])[0] != "tree":
                        ctx.violation(key + "/flow", "a stage does not work on the result of the previous one")
                    if g(mine[0]) != ("semantic",) or g(mine[1])[1] != g(mine[2])[1]:
                        ctx.violation(key + "/state", "the back end's stages do not share one state")
                    if g(mine[2])[0] != "srcname":
                        ctx.violation(key + "/file", "output is written for %s" % g(mine[2])[0])
                    # nothing is released while it is still needed
                    w = idx(st, mine[2])[0]
                    for i, x in enumerate(e[:w]):
                        if x[0].startswith("free") and x[1] and x[1][0] in ("tree", "tokens", "text", "semantic", "contents"):
                            ctx.violation(key + "/early", "%s is released before the output is written" % x[1][0])
            if st.props.get("empty") and not st.props.get("err") and not st.props.get("warn"):
                ctx.violation(key + "/silent", "an empty program is rejected without a message")


# what a source file may be called
GOODNAMES = ["a.sk", "d/a.sk", "/a.sk", "a.b.sk", ".a.sk", "a.sk.sk", "d.sk/a.sk", "d/.skel/a.sk", "../a.sk"]
BADNAMES = ["a", "a.txt", "a.s", "a.sk.bak", "a.skull", "d.sk/a", "d.sk/x.txt", ".sk", "d/.sk", "/.sk", ""]


def files_(ctx):
    """compile_file / real_main: every readable source goes through the pipeline, failures surface"""
    import itertools
    P = ctx.P
    one = [(n,) for n in GOODNAMES + BADNAMES]
    two = [(a, b) for a in ("a.sk", "d/b.sk") for b in ("c.sk",) + tuple(BADNAMES)]
    for names in [()] + one + two:
        argc = len(names) + 1
        D = Drv(P)
        E, M, st = D.E, D.M, D.st
        M["open_file"] = D.event("open_file", [("*stream", False), (0, True)])
        M["setup_locale"] = lambda E, st, a, i, f: ret(st)
        M["write_and_free_errors"] = D.event("write_and_free_errors")
        M["fclose"] = lambda E, st, a, i, f: ret(st, E.fresh(st))
        M["run_pipeline"] = D.event("run_pipeline", [(0, False), (1, True)])
        cstr.install(E, st)
        eno = E.new_obj(st, "lazy", "errno", 4, "u", None, "errno")
        M["__errno_location"] = lambda E, st, a, i, f: ret(st, ("p", eno, 0))


        def content(E, st, a, ins, fr):
            ok, empty, bad = st.fork(), st.fork(), st
            D.ev(ok, "read", (), True)
            D.ev(empty, "read", (), True)
            D.ev(bad, "read", (), False)
            empty.props["sourceempty"] = 1
            bad.props["failed"] = bad.props.get("failed", ()) + ("reading the file",)
            E.store_cell(ok, eno, 0, 4, E.fresh(ok))
            E.store_cell(empty, eno, 0, 4, 0)
            E.store_cell(bad, eno, 0, 4, E.fresh(bad, lo=1, hi=200))
            return [Outcome("ret", ok, D.fresh(ok, "contents")), Outcome("ret", empty, 0), Outcome("ret", bad, 0)]
        M["file_to_string"] = content
        argv = E.new_obj(st, "lazy", "harness", 8 * (argc + 1), "u", None, "argv")
        E.store_cell(st, argv, 0, 8, 0)
        for i in range(1, argc):
            f = ("p", cstr.make(E, st, [ord(c) for c in names[i - 1]], "harness"), 0)
            st.meta[f[1]].tag = "file%d" % i
            E.store_cell(st, argv, 8 * i, 8, f)
        E.store_cell(st, argv, 8 * argc, 8, 0)
        outs = D.run("real_main", [argc, ("p", argv, 0)])
        ctx.used(E)
        ctx.count("file_paths", len(outs))
        for o in outs:
            s = o.state
            if o.kind != "ret":
                ctx.violation("files/" + o.kind, "real_main ends in %s" % o.kind)
                continue
            rv = value(E, s, o.ret)
            failed = list(s.props.get("failed", ()))
            if argc == 1:
                failed.append("no file was named")
            for i in range(1, argc):
                if names[i - 1] in BADNAMES and all(e[2] for e in s.props.get("ev", ()) if len(e) > 2):
                    failed.append("the file name \"%s\" is not valid" % names[i - 1])
            we = E.get(s, BD, "BuildData", "werror")
            if s.props.get("sourceempty") and value(E, s, we) == 1:
                failed.append("a warning was reported with --werror")
            if failed and rv == 0:
                ctx.violation("files/status/" + failed[0].split()[0], "exit status reports success although %s" % failed[0])
            if not failed and rv == 1 and not (s.props.get("sourceempty") and value(E, s, we) is None):
                ctx.violation("files/fails", "exit status reports a failure although everything succeeded (%s)" % ", ".join(names))
            if not failed:
                need = ["file%d" % i for i in range(1, argc)]
                got = [e[1][0] for e in evs(s, "open_file")]
                if got != need:
                    ctx.violation("files/all", "of the files %s only %s are compiled" % (need, got))
                if not s.props.get("sourceempty"):
                    p = evs(s, "run_pipeline")
                    if [e[1][0] for e in p] != need or any(e[1][1] != "contents" for e in p):
                        ctx.violation("files/pipe", "a source file is not compiled")
            # diagnostics are always shown
            seq = s.props.get("ev", ())
            last = max([i for i, e in enumerate(seq) if e[0] == "run_pipeline"], default=-1)
            if last >= 0 and not any(e[0] == "write_and_free_errors" for e in seq[last:]):
                ctx.violation("files/diag", "the diagnostics of a compilation are not written")
            if s.props.get("sourceempty") and not s.props.get("warn"):
                ctx.violation("files/empty", "an empty file is not reported")


def modes():
    for mode in ("binary", "compile_only", "asm_backend", "preprocess"):
        for opt in (None, "optimize1", "optimize2", "optimize3"):
            for nv in (0, 1):
                for out in (0, 1):
                    for dbg in (0, 1):
                        f = {"llvm_no_verify": nv, "out": out, "debug": dbg, "extra": out, "c_backend": 0}
                        for x in ("compile_only", "asm_backend", "preprocess", "optimize1", "optimize2", "optimize3"):
                            f[x] = 0
                        if mode != "binary":
                            f[mode] = 1
                        if opt:
                            f[opt] = 1
                        yield mode, opt, nv, out, dbg, f


WAITS = [("linker succeeded", 0, True), ("linker exited with 1", 0x100, False), ("linker exited with 127", 0x7f00, False),
         ("linker killed by a signal", 9, False), ("linker dumped core", 0x8b, False)]


def write_run(P, f):
    D = Drv(P, **f)
    E, M, st = D.E, D.M, D.st
    eno = E.new_obj(st, "lazy", "errno", 4, "u", None, "errno")
    M["__errno_location"] = lambda E, st, a, i, f: ret(st, ("p", eno, 0))

    def fork(E, st, a, ins, fr):
        outs = []
        for nm, pid in (("parent", 1234), ("child", 0), ("error", 0xffffffff)):
            s = st.fork()
            s.props["proc"] = nm
            E.store_cell(s, eno, 0, 4, 11 if nm == "error" else 0)
            if nm == "error":
                s.props["failed"] = s.props.get("failed", ()) + ("fork",)
            outs.append(Outcome("ret", s, pid))
        return outs
    M["fork"] = M["vfork"] = fork

    def execvp(E, st, a, ins, fr):
        D.ev(st, "exec", ())
        E.store_cell(st, eno, 0, 4, 2)
        bad = st.fork()
        return [Outcome("ret", bad, 0xffffffff), Outcome("exit", st, 0)]
    for n in ("execvp", "execv", "execl", "execlp", "execve"):
        M[n] = execvp

    def wait(E, st, a, ins, fr):
        outs = []
        p = E.res(st, a[0 if len(a) == 1 else 1])
        for nm, v, ok in WAITS:
            s = st.fork()
            if type(p) is tuple:
                E.store_cell(s, p[1], p[2], 4, v)
            D.ev(s, "link", (nm,), ok)
            if not ok:
                s.props["failed"] = s.props.get("failed", ()) + (nm,)
            outs.append(Outcome("ret", s, 1234))
        return outs
    M["wait"] = M["waitpid"] = wait

    def system(E, st, a, ins, fr):
        outs = []
        for nm, v, ok in WAITS:
            s = st.fork()
            D.ev(s, "link", (nm,), ok)
            s.props["cmd"] = D.name(s, a[0])
            if not ok:
                s.props["failed"] = s.props.get("failed", ()) + (nm,)
            outs.append(Outcome("ret", s, v))
        return outs
    M["system"] = system
    M["is_directory"] = D.event("is_directory", [(0, False), (1, True)])

    def gen_filename(E, st, a, ins, fr):
        return ret(st, D.fresh(st, "%s.%s" % (D.name(st, a[0]), str(D.name(st, a[1])).strip("'"))))
    M["gen_filename"] = gen_filename

    def dup(E, st, a, ins, fr):
        s = lit(P, st, E, a[0])
        o = D.fresh(st, D.name(st, a[0]) if s is None else s)
        return ret(st, o)
    M["strdup"] = dup

    def rchr(E, st, a, ins, fr):
        p = E.res(st, a[0])
        return ret(st, ("p", p[1], 7) if type(p) is tuple and p[0] == "p" else E.fresh(st))
    M["strrchr"] = rchr

    def sprintf(E, st, a, ins, fr):
        t = "%s<%s>" % (lit(P, st, E, a[0]), ", ".join(str(D.name(st, x)) for x in a[1:]))
        D.ev(st, "format", (lit(P, st, E, a[0]),) + tuple(D.name(st, x) for x in a[1:]))
        return ret(st, D.fresh(st, t))
    M["uvsnprintf"] = sprintf

    def strcmp(E, st, a, ins, fr):
        x, y = D.name(st, a[0]), D.name(st, a[1])
        x, y = (z[1:-1] if isinstance(z, str) and z[:1] == "'" else z for z in (x, y))
        if "-" in (x, y):
            z = y if x == "-" else x
            if z == "-":
                return ret(st, 0)
            if st.props.get(("dash", z)) is not None:
                return ret(st, 0 if st.props[("dash", z)] else 1)
            if isinstance(z, str) and "." in z:      # a generated file name
                return ret(st, 1)
            outs = []
            for v in (0, 1):
                s = st.fork()
                s.props[("dash", z)] = v == 0
                outs.append(Outcome("ret", s, v))
            return outs
        return ret(st, E.fresh(st))
    M["strcmp"] = strcmp
    M["remove"] = lambda E, st, a, i, f: (D.ev(st, "remove", (D.name(st, a[0]),)), ret(st, E.fresh(st)))[1]
    M["unlink"] = M["remove"]
    fd = D.E.obj(st, "FunctionDeclaration", "mainfd")
    E.put(st, fd, "FunctionDeclaration", "ref", D.obj("main function"))
    E.put(st, fd, "FunctionDeclaration", "type", D.obj("main type"))
    ms = D.E.obj(st, "Symbol", "main")
    E.put(st, ms, "Symbol", "func", ("p", fd, 0))
    state = E.obj(st, "SkullStateLLVM", "state")
    for k, v in (("module", D.obj("module")), ("ctx", D.obj("ctx")), ("builder", D.obj("builder")),
                 ("main_func", ("p", ms, 0)), ("current_func", ("p", ms, 0)), ("target_machine", 0)):
        E.put(st, state, "SkullStateLLVM", k, v)
    if P.has("type_to_llvm_func_type"):
        M["type_to_llvm_func_type"] = lambda E, st, a, i, f: ret(st, D.fresh(st, "function type"))
    return D, D.run("write_llvm", [D.obj("srcname"), ("p", state, 0)])


EMIT = ("LLVMTargetMachineEmitToFile", "LLVMPrintModuleToFile", "LLVMPrintModuleToString", "LLVMTargetMachineEmitToMemoryBuffer",
        "LLVMWriteBitcodeToFile")


def write_(ctx, want):
    P = ctx.P
    for mode, opt, nv, out, dbg, f in modes():
        D, outs = write_run(P, f)
        E = D.E
        ctx.used(E)
        ctx.count("output_cases")
        ctx.count("output_paths", len(outs))
        what = "%s%s%s" % (mode, " with " + opt if opt else "", " without verification" if nv else "")
        key = "%s/%s" % (mode, opt or "O0")
        good = 0
        for o in outs:
            st = o.state
            if st.props.get("proc") == "child":
                # the child must not go on compiling
                if o.kind == "ret" and want == "C06":
                    ctx.violation("child", "the process forked for the linker goes on as a second compiler when exec fails")
                elif o.kind == "exit" and st.props.get("ev", ()) and st.props["ev"][-1][0] == "exec":
                    pass
                continue
            if o.kind == "exit" and value(E, st, o.ret) == 1:
                continue
            if o.kind != "ret":
                ctx.violation(key + "/" + o.kind, "%s: write_llvm ends in %s (%s)" % (what, o.kind, o.ret))
                continue
            ev = st.props.get("ev", ())
            failed = list(st.props.get("failed", ()))
            rv = value(E, st, o.ret)
            emits = [e for e in ev if e[0] in EMIT]
            links = [e for e in ev if e[0] == "link"]
            dash = [z for z in st.props if isinstance(z, tuple) and z[0] == "dash" and st.props[z]]
            refused = mode in ("binary", "compile_only") and dash
            pos = lambda *n: [i for i, e in enumerate(ev) if e[0] in n]
            if want == "C06":
                if failed and rv == 0:
                    ctx.violation("status/" + failed[0].replace(" ", "-"), "%s: success is reported although %s failed" % (what, failed[0]))
                if not failed and not refused and rv != 0:
                    ctx.violation(key + "/fails", "%s: a failure is reported although everything succeeded" % what)
                if not failed and refused and rv != 1:
                    ctx.violation(key + "/dash", "%s: binary output to the terminal is reported as success" % what)
                ver = [e for e in ev if e[0] == "LLVMVerifyModule"]
                if emits and not nv and not (ver and ver[0][2] and pos("LLVMVerifyModule")[0] < pos(*EMIT)[0]):
                    ctx.violation("verify", "%s: code is emitted that was not verified first" % what)
                if emits and ver and ver[0][1][0] != "module":
                    ctx.violation("verify/module", "another module than the emitted one is verified")
                last = [i for i in pos("LLVMBuildCall2", "LLVMAddFunction", "LLVMLinkModules2", "LLVMBuildRetVoid")]
                if ver and last and max(last) > pos("LLVMVerifyModule")[0]:
                    ctx.violation("verify/late", "%s: the module is changed after it was verified" % what)
                bad = [i for i, e in enumerate(ev) if len(e) > 2 and e[2] is False and e[0] != "is_directory"]
                later = [i for i in pos(*EMIT, "link") if bad and i > bad[0]]
                if later:
                    ctx.violation("after/" + str(ev[bad[0]][0]), "%s: output is produced although %s failed" % (what, ev[bad[0]][0]))
                if links and not any(e[0] == "LLVMTargetMachineEmitToFile" and e[2] for e in ev):
                    ctx.violation("link/order", "linking starts without an object file")
            else:
                if failed or refused or rv != 0:
                    continue
                good += 1
                # exactly the documented product
                names = [e[0] for e in emits]
                if mode == "preprocess":
                    if len(emits) != 1 or not names[0].startswith("LLVMPrintModuleTo"):
                        ctx.violation(key + "/product", "%s: produces %s instead of LLVM IR" % (what, names))
                    elif names[0] == "LLVMPrintModuleToFile":
                        w = "outname" if out else "-"
                        if emits[0][1][1] not in (w, repr(w)) and not dash:
                            ctx.violation(key + "/file", "%s: LLVM IR is written to %s instead of %s" % (what, emits[0][1][1], w))
                else:
                    kind = P.enum("LLVMAssemblyFile") if mode == "asm_backend" else P.enum("LLVMObjectFile")
                    if names != ["LLVMTargetMachineEmitToFile"]:
                        ctx.violation(key + "/product", "%s: produces %s" % (what, names))
                    else:
                        a = emits[0][1]
                        if a[1] != "module" or a[3] != kind:
                            ctx.violation(key + "/kind", "%s: emits file kind %s" % (what, a[3]))
                        w = "outname" if out else "srcname." + ("s" if mode == "asm_backend" else "o")
                        if a[2] != w:
                            ctx.violation(key + "/file", "%s: output goes to %s instead of %s" % (what, a[2], w))
                if (mode == "binary") != (len(links) == 1):
                    ctx.violation(key + "/link", "%s: the linker runs %d times" % (what, len(links)))
                starts = [e for e in ev if e[0] == "LLVMAddFunction" and e[1][1] == "'_start'"]
                if (mode == "binary") != bool(starts):
                    ctx.violation(key + "/start", "%s: the program entry point is %s" % (what, "added" if starts else "missing"))
                if mode == "binary":
                    if not [e for e in ev if e[0] == "LLVMLinkModules2"]:
                        ctx.violation(key + "/builtins", "%s: the runtime helpers are not linked in" % what)
                    obj = emits[0][1][2] if emits else None
                    cmd = [e[1] for e in ev if e[0] == "format" and obj in e[1]]
                    if not cmd or (out and "extra" not in cmd[-1]) or "srcname" not in cmd[-1]:
                        ctx.violation(key + "/cmd", "%s: the linker command lacks the object, the program name or the extra arguments: %s" % (what, cmd))
                    calls = [e[1] for e in ev if e[0] == "LLVMBuildCall2"]
                    if [c[2] for c in calls[:1]] != ["main function"] or len(calls) != 2:
                        ctx.violation(key + "/entry", "%s: the entry point does not call the program and then exit" % what)
                machines = [e[1] for e in ev if e[0] == "LLVMCreateTargetMachine" and e[2]]
                fixed = any("-no-pie" in str(e[1]) for e in ev if e[0] == "format")
                if mode != "preprocess" and not fixed and any(len(m) > 5 and m[5] != P.enum("LLVMRelocPIC") for m in machines):
                    ctx.violation("machine/reloc", "%s: the object code is not position independent, and the system's linker builds "
                                  "position independent programs: programs that take a string's address fail to link" % what)
                passes = [e[1][1] for e in ev if e[0] == "LLVMRunPasses"]
                w = ["'default<O%s>'" % opt[-1]] if opt else []
                if passes != w:
                    ctx.violation(key + "/passes", "%s: runs passes %s instead of %s" % (what, passes, w))
                if passes and emits and pos("LLVMRunPasses")[0] > pos(*EMIT)[0]:
                    ctx.violation(key + "/late", "%s: optimisation runs after the output was written" % what)
                fin = pos("LLVMDIBuilderFinalize")
                if dbg and not (fin and fin[0] < min(pos("LLVMVerifyModule", *EMIT))):
                    ctx.violation(key + "/debug", "%s: debug information is not finalised before the module is used" % what)
                if not nv and not pos("LLVMVerifyModule"):
                    ctx.violation(key + "/verify", "%s: the module is not verified" % what)
                if nv and pos("LLVMVerifyModule"):
                    ctx.violation(key + "/noverify", "%s: the module is verified" % what)
        if want != "C06" and not good:
            ctx.violation(key + "/never", "%s: never succeeds" % what)


def cwrite_(ctx):
    """write_file_c: the file is opened before it is written, failures are reported"""
    P = ctx.P
    for out in (0, 1):
        for pre in (0, 1):
            D = Drv(P, c_backend=1, out=out, preprocess=pre, asm_backend=0, llvm_no_verify=0)
            E, M, st = D.E, D.M, D.st
            M["open_file"] = D.event("open_file", [("*stream", False), (0, True)])

            def closes(nm):
                return lambda E, st, a, i, f: [Outcome("ret", s, v) for v, s in
                                               ((0, mark(st.fork(), nm, a, True)), (0xffffffff, mark(st.fork(), nm, a, False)))]

            def mark(s, nm, a, ok):
                D.ev(s, nm, tuple(D.name(s, x) for x in a), ok)
                if not ok:
                    s.props["failed"] = s.props.get("failed", ()) + (nm,)
                return s
            M["fclose"], M["fflush"] = closes("fclose"), closes("fflush")
            M["gen_filename"] = lambda E, st, a, i, f: ret(st, D.fresh(st, "%s.%s" % (D.name(st, a[0]), str(D.name(st, a[1])).strip("'"))))
            M["create_main_func_name"] = lambda E, st, a, i, f: ret(st, D.fresh(st, "mainname"))
            M["strdup"] = lambda E, st, a, i, f: ret(st, D.fresh(st, D.name(st, a[0])))

            def strcmp(E, st, a, ins, fr):
                x, y = (str(D.name(st, z)).strip("'") for z in a)
                if x == y:
                    return ret(st, 0)
                z = y if x == "-" else x
                if z == "outname":
                    s = st.fork()
                    s.props["dash"] = 1
                    return [Outcome("ret", s, 0), Outcome("ret", st, 1)]
                return ret(st, 1)
            M["strcmp"] = strcmp

            def wr(nm):
                def m(E, st, a, ins, fr):
                    t = E.res(st, a[1] if nm in ("fputs",) else a[0])
                    if t == 0:
                        ctx.violation("c/null", "C output is written to a file that could not be opened")
                    D.ev(st, "write", (D.name(st, t),))
                    return ret(st, E.fresh(st))
                return m
            for n in ("fprintf", "fputs", "vfprintf"):
                M[n] = wr(n)
            if "stdout" in P.globals:
                E.store_cell(st, E.gobj(st, "stdout"), 0, 8, D.obj("stdout"))
            cs = E.obj(st, "SkullStateC", "cstate")
            outs = D.run("write_file_c", [D.obj("srcname"), ("p", cs, 0)])
            ctx.used(E)
            ctx.count("output_paths", len(outs))
            for o in outs:
                s = o.state
                if o.kind != "ret":
                    ctx.violation("c/" + o.kind, "write_file_c ends in %s" % o.kind)
                    continue
                failed = s.props.get("failed", ())
                rv = value(E, s, o.ret)
                ops = evs(s, "open_file")
                if ctx.pid == "C06":
                    if failed and rv == 0:
                        ctx.violation("c/status/" + failed[0], "C output: success is reported although %s failed" % failed[0])
                    if not failed and rv != 0:
                        ctx.violation("c/fails", "C output: a failure is reported although everything succeeded")
                    if not failed and ops and not evs(s, "fclose"):
                        ctx.violation("c/close", "C output is not closed, so write errors go unnoticed")
                    if not failed and not ops and not evs(s, "fflush") and not evs(s, "fclose"):
                        ctx.violation("c/flush", "C output to the terminal is not flushed, so write errors go unnoticed")
                else:
                    std = s.props.get("dash") or (pre and not out)
                    w = [] if std else ["outname" if out else "srcname.c"]
                    got = [e[1][0] for e in ops]
                    if [str(g).strip("'") for g in got] != w:
                        ctx.violation("c/file", "C output goes to %s instead of %s" % (got or "the terminal", w or "the terminal"))


def staging(ctx):
    """nothing is produced unless every earlier stage succeeded, and the exit status says so"""
    ctx.rule = ("Every path of run_pipeline (both back ends), real_main (0-2 files), write_llvm (all combinations of "
                "output mode, optimisation, verification, debug, -o) and write_file_c is enumerated with each stage, LLVM call, file operation and "
                "child process both succeeding and failing; recorded event sequences must respect the stage order, stop at a "
                "failure, and the returned status must be zero exactly when nothing failed.")
    ctx.assumptions = ["stages report failure as their own checks establish; library calls fail as documented"]
    pipeline_(ctx)
    files_(ctx)
    write_(ctx, "C06")
    cwrite_(ctx)


def products(ctx):
    """build options select exactly the documented product"""
    ctx.rule = ("For every combination of -E/-S/-c/none, -O level, --llvm-no-verify, -g and -o, every successful path through write_llvm "
                "and write_file_c must emit exactly the documented kind of output to the documented place, with the passes, "
                "verification, entry point and linking that belong to it.")
    ctx.assumptions = ["LLVM's emission functions and the system linker do what they are asked to"]
    pipeline_(ctx)
    write_(ctx, "C16")
    cwrite_(ctx)


CHECKS = {"C06": staging, "C16": products}
