"""Debug information: what -g says about the program, and that nothing is said without it."""
import cstr
from absint import Outcome
from checks.flowgen import Flow
from gen import Gen, show
from models import ret
from sem import NAMES, where

DI = ("p", "@DEBUG_INFO", 0)
OUTER = ("main code",)
FILE = ("difile", "prog.sk")
UNIT = ("dicu", FILE)
LINE, COL = 100, 10


class D:
    """recording models of LLVM's debug information API, on top of a Gen harness"""

    def __init__(self, ctx, G, debug, start=True):
        self.ctx, self.G = ctx, G
        self.P, self.E, self.S, self.L = G.P, G.E, G.S, G.L
        E, st = self.E, G.S.st
        cstr.install(E, st)
        E.sym_iters = E.k_dist = 99
        self.debug = debug
        E.put(st, ("p", "@BUILD_DATA", 0), "BuildData", "debug", debug)
        for f in ("builder", "file", "scope", "compile_unit"):
            E.put(st, DI, "DebugInfo", f, 0)
        for n, f in self.P.funcs.items():
            if f.decl and (n.startswith("LLVMDI") or n in ("LLVMInstructionSetDebugLoc", "LLVMSetSubprogram", "LLVMGlobalSetMetadata",
                                                           "LLVMCreateDIBuilder", "LLVMAddModuleFlag", "LLVMSetCurrentDebugLocation2")):
                E.models[n] = self.model(n, f)
        self.outer = OUTER
        setup_types(self)
        if debug and start:
            outs = [o for o in self.run_setup() if o.kind == "ret"]
            ctx.require(outs, "setup_debug_info does not return")
            G.S.st = outs[-1].state
            G.S.st.props.pop("di", None)
            E.put(G.S.st, DI, "DebugInfo", "scope", self.L.v(OUTER))

    def run_setup(self, cwd=True):
        E, st, S = self.E, self.G.S.st, self.S

        def getcwd(E, st, a, i, f):
            if not cwd:
                return ret(st, 0)
            p = E.res(st, a[0])
            for k, c in enumerate(b"/dir\0"):
                E.store_cell(st, p[1], p[2] + k, 1, c)
            return ret(st, p)
        E.models["getcwd"] = getcwd
        E.models["perror"] = lambda E, st, a, i, f: ret(st)
        E.models["create_main_func_name"] = lambda E, st, a, i, f: ret(st, d_copy(E, st, ".prog"))
        E.put(st, self.G.main, "Symbol", "name", self.str(".prog"))
        E.put(st, ("p", "@BUILD_DATA", 0), "BuildData", "filename", self.str("prog.sk"))
        return self.G.run("setup_debug_info", [self.str("prog.sk"), S.ptr(self.G.state)])

    # -------------------------------------------------------------- reading arguments
    def text(self, st, p, n):
        t = cstr.text(self.E, st, p, 256)
        s = "".join(chr(c) for c in t) if t is not None and all(type(c) is int for c in t) else None
        n = self.E.res(st, n)
        return s if s is None or type(n) is not int else s[:n] if n <= len(s) else s + "+%d" % (n - len(s))

    def num(self, st, v):
        v = self.E.res(st, v)
        return v if type(v) is int else self.L.desc(st, v)

    def model(self, name, f):
        op = name[4:]

        def m(E, st, a, ins, fr):
            if not self.debug:
                self.ctx.violation("off/" + name, "without -g, %s is called" % name)
            T = lambda i: self.L.t(st, a[i])
            N = lambda i: self.num(st, a[i])
            X = lambda i: self.text(st, a[i], a[i + 1])
            ev = lambda *e: st.props.__setitem__("di", st.props.get("di", ()) + (e,))
            r = None
            if op == "CreateDIBuilder":
                r = ("dib",)
            elif op == "DIBuilderCreateFile":
                r = ("difile", X(1))
            elif op == "DIBuilderCreateCompileUnit":
                r = ("dicu", T(2))
            elif op == "DIBuilderCreateDebugLocation":
                r = ("diloc", N(1), N(2), T(3))
            elif op == "DIBuilderCreateLexicalBlock":
                r = ("diblock", T(1), N(3), N(4), T(2))
            elif op == "DIBuilderCreateExpression":
                r = ("diexpr",) if N(2) == 0 else ("diexpr", "?")
            elif op == "DIBuilderCreateAutoVariable":
                r = ("divar", T(1), X(2), T(4), N(5), T(6))
            elif op == "DIBuilderCreateParameterVariable":
                r = ("diparam", T(1), X(2), N(4), T(5), N(6), T(7))
            elif op == "DIBuilderCreateGlobalVariableExpression":
                r = ("diglobal", T(1), X(2), T(6), N(7), T(8), N(9))
            elif op == "DIBuilderCreateFunction":
                r = ("difn", T(1), X(2), T(6), N(7), T(8), N(10), N(11))
            elif op == "DIBuilderCreateSubroutineType":
                n, ts = N(3), ()
                p = E.res(st, a[2])
                if type(n) is int and n < 16 and type(p) is tuple and p[0] == "p":
                    ts = tuple(self.L.t(st, E.load_cell(st, p[1], p[2] + 8 * i, 8)) for i in range(n))
                r = ("disub", ts)
            elif op == "DIBuilderCreatePointerType":
                r = ("diptr", T(1), N(2))
            elif op == "DIBuilderCreateBasicType":
                size = N(3)
                if type(size) is int and 0 < size < 8:
                    self.ctx.violation("type/%s/bits" % X(1), "%s is described as %d bit wide, which debuggers take for a size of no bytes" % (X(1), size))
                    size = 8
                r = ("dibasic", size, N(4)) if X(1) == "char" else ("dibasic", X(1), size, N(4))
            elif op in ("DIBuilderInsertDeclareRecordAtEnd", "DIBuilderInsertDeclareAtEnd"):
                ev("declare", T(1), T(2), T(3), T(4), T(5))
            elif op in ("DIBuilderInsertDbgValueRecordAtEnd", "DIBuilderInsertDbgValueAtEnd"):
                ev("value", T(1), T(2), T(3), T(4), T(5))
            elif op == "InstructionSetDebugLoc":
                t = T(0)
                if type(t) is not tuple or t[0] in ("const", "param", "fn", "gvar", "str") or t[0] == "in" and t[2] == "literal":
                    self.ctx.violation("loc/noinst", "a source position is given to %s, which is not an instruction" % show(t))
                ev("loc", t, T(1))
            elif op == "SetSubprogram":
                ev("subprogram", T(0), T(1))
            elif op == "GlobalSetMetadata":
                ev("metadata", T(0), N(1), T(2))
            elif op == "AddModuleFlag":
                ev("flag", X(2))
            if "id" not in ins:
                return ret(st)
            return ret(st, self.L.v(r) if r else E.fresh_nn(st))
        return m

    # -------------------------------------------------------------- expectations
    def type(self, t):
        """what a type is described as: kind, size and encoding"""
        if t == "STR":
            return ("diptr", ("dibasic", 8, 6), 64)
        if t[0] == "&":
            return ("diptr", self.type(t[1:]), 64)
        return {"BOOL": ("dibasic", "Bool", 8, 2), "INT": ("dibasic", "Int", 64, 5), "FLOAT": ("dibasic", "Float", 64, 4),
                "RUNE": ("dibasic", "Rune", 32, 16), "VOID": ("dibasic", "Void", 0, 5)}[t]

    def at(self, obj, typ, k):
        """give a token or symbol its own position"""
        self.E.put(self.G.S.st, obj, typ, "location.line", LINE + k)
        self.E.put(self.G.S.st, obj, typ, "location.column", COL + k)

    def loc(self, k, scope=OUTER):
        return ("diloc", LINE + k, COL + k, scope)

    def scope(self, st):
        return self.L.t(st, self.E.get(st, DI, "DebugInfo", "scope"))

    def str(self, s):
        return ("p", cstr.make(self.E, self.G.S.st, [ord(c) for c in s], "harness"), 0)


def types(ctx):
    """every type is described with its name, size and encoding"""
    P = ctx.P
    for t in ("BOOL", "INT", "FLOAT", "RUNE", "STR", "&INT", "&BOOL", "&FLOAT", "&RUNE", "&STR", "&&INT"):
        d = D(ctx, Gen(P), 1)
        outs = d.G.run("type_to_di_type", [d.S.T(t)])
        ctx.used(d.E)
        ctx.require(outs, "no path for type " + t)
        for o in outs:
            ctx.count("type_paths")
            got = d.L.t(o.state, o.ret) if o.kind == "ret" else o.kind
            if got != d.type(t):
                ctx.violation("type/" + t, "%s is described as %s instead of %s" % (NAMES[t], show(got), show(d.type(t))))


def setup_types(d):
    """names of the built-in types, as the program starts with them"""
    E, st = d.E, d.G.S.st
    for t in list(d.S.tobj):
        E.put(st, d.S.T(t), "Type", "name", d.str(NAMES[t]))


def setup(ctx):
    """the module is described: its file, its main function, and the version of the description"""
    P = ctx.P
    for cwd in (True, False):
        d = D(ctx, Gen(P), 1, start=False)
        E, S = d.E, d.S
        outs = d.run_setup(cwd)
        ctx.used(E)
        ctx.require(outs, "no path through setup_debug_info")
        for o in outs:
            ctx.count("setup_paths")
            s = o.state
            if o.kind != "ret":
                ctx.violation("setup/" + o.kind, "setting up debug information ends in %s" % o.kind)
                continue
            if not cwd:
                continue
            g = lambda f: d.L.t(s, E.get(s, DI, "DebugInfo", f))
            ev = s.props.get("di", ())
            if g("file") != FILE:
                ctx.violation("setup/file", "the described file is %s" % show(g("file")))
            if g("compile_unit") != UNIT:
                ctx.violation("setup/unit", "the described compile unit is %s" % show(g("compile_unit")))
            sc = g("scope")
            if not (type(sc) is tuple and sc[0] == "difn" and sc[2] == ".prog" and sc[3] == FILE and sc[6] == 1):
                ctx.violation("setup/main", "the program's main code is described as %s" % show(sc))
            if ("subprogram", ("fn", "main"), sc) not in ev:
                ctx.violation("setup/subprogram", "the description of the main code is not attached to it")
            if not any(e[0] == "flag" and e[1] == "Debug Info Version" for e in ev):
                ctx.violation("setup/version", "the module does not say it has debug information, so all of it is dropped")
            for t in ("BOOL", "INT", "FLOAT", "RUNE", "STR"):
                for o2 in d.G.run("type_to_di_type", [S.T(t)], s):
                    got = d.L.t(o2.state, o2.ret) if o2.kind == "ret" else o2.kind
                    if got != d.type(t):
                        ctx.violation("type/" + t, "%s is described as %s instead of %s" % (NAMES[t], show(got), show(d.type(t))))


def d_copy(E, st, s):
    return ("p", cstr.make(E, st, [ord(c) for c in s]), 0)


STMTS = [
    [("return", "r")], [("return", None)], [("assign", "a")], [("call", "f")], [("define", "d")], [("noop",)], [("comment",)],
    [("unreachable",)], [("alias",)],
    [("while", "c0", "b0")], [("ns", "b0")],
    [("if", (("c0", "b0", 0),))],
    [("if", (("c0", "b0", 0), (None, "b1", 0)))],
    [("if", (("c0", "b0", 1), ("c1", "b1", 0)))],
    [("if", (("c0", "b0", 0), ("c1", "b1", 1), (None, "b2", 0)))],
    [("assign", "a"), ("call", "f"), ("return", "r")],
    [("while", "c0", "b0"), ("assign", "a")],
    [("if", (("c0", "b0", 0), (None, "b1", 0))), ("call", "f")],
    [("ns", "b0"), ("define", "d"), ("while", "c1", "b1")],
    [("while", "c0", "b0"), ("while", "c1", "b1"), ("return", None)],
]


def statements(ctx):
    """the code of each statement carries the statement's position and block"""
    P = ctx.P
    for stmts, form in [(x, f) for x in STMTS for f in ("dyn", "literal")]:
        for debug in (1, 0):
            F = Flow(P, stmts, bodies=("fall", "fallnew", "ret"), debug=debug)
            d = D(ctx, F.G, debug)
            E, st, S = d.E, F.G.S.st, F.G.S
            want, blocks = {}, {}
            for i, n in enumerate(F.nodes):
                k = E.res(st, E.get(st, n, "AstNode", "type"))
                d.at(E.res(st, E.get(st, n, "AstNode", "token"))[1], "Token", 5 * i)
                kind = [x for x in P.enums["NodeType"] if P.enum(x) == k and x.startswith("AST_NODE")] if "NodeType" in P.enums else []
                blk = E.res(st, E.get(st, n, "AstNode", "child"))
                if blk != 0:
                    blocks[F.bodytags[blk[1]][0]] = ("diblock", OUTER, LINE + 5 * i, COL + 5 * i, FILE)
                if k == P.enum("AST_NODE_RETURN"):
                    want[("ret", i)] = d.loc(5 * i)
                elif k == P.enum("AST_NODE_VAR_ASSIGN"):
                    want[("store", i)] = d.loc(5 * i)
                    va = E.res(st, E.get(st, n, "AstNode", "var_assign"))
                    d.at(E.res(st, E.get(st, va, "AstNodeVarAssign", "symbol"))[1], "Symbol", 900)
                elif k == P.enum("AST_NODE_NOOP") and debug:
                    want[("store", i)] = d.loc(5 * i)
                elif k == P.enum("AST_NODE_VAR_DEF"):
                    vd = E.res(st, E.get(st, n, "AstNode", "var_def"))
                    sy = E.res(st, E.get(st, vd, "AstNodeVarDef", "symbol"))
                    if sy != 0:
                        d.at(sy[1], "Symbol", 5 * i + 1)
                        v = E.res(st, E.get(st, sy, "Symbol", "var"))
                        E.put(st, v, "Variable", "name", d.str("vname"))
                elif k == P.enum("AST_NODE_EXPR"):
                    e = E.res(st, E.get(st, n, "AstNode", "expr"))
                    fc = E.res(st, E.get(st, e, "AstNodeExpr", "lhs.func_call"))
                    d.at(E.res(st, E.get(st, fc, "AstNodeFunctionCall", "func_name_tok"))[1], "Token", 5 * i + 2)
                    want[("call", i)] = d.loc(5 * i + 2)
            conds = {}
            if form == "literal" and not any(t[0] == "c" and t[1:].isdigit() for t, _, _ in F.G.exprs.values()):
                continue
            for o, (tag, typ, _) in list(F.G.exprs.items()):
                if tag[0] == "c" and tag[1:].isdigit():
                    F.G.exprs[o] = (tag, typ, form)
                    l = S.new("Token", "where " + tag)
                    d.at(l, "Token", 300 + int(tag[1:]))
                    conds[o] = ("p", l, P.field("Token", "location")[0] // 8)
                    want[("cond", tag)] = d.loc(300 + int(tag[1:])) if form == "dyn" else None

            def place(E, st, a, i, f, conds=conds):
                e = E.res(st, a[0])
                o = E.robj(st, e)[0] if e != 0 else None
                return ret(st, conds[o]) if o in conds else ret(st, E.fresh_nn(st, "Location"))
            E.models["find_expr_node_location"] = place
            old = E.recursion

            def rec(E, st, fn, args, old=old, F=F, d=d, blocks=blocks):
                if fn.src == "gen_tree":
                    o = E.robj(st, E.res(st, args[0]))[0]
                    tag = F.bodytags.get(o, (None,))[0]
                    if tag is not None and d.debug and d.scope(st) != blocks[tag]:
                        d.ctx.violation("block", "the code of a block is described as part of %s instead of %s" % (
                            show(d.scope(st)), show(blocks[tag])))
                return old(E, st, fn, args)
            E.recursion = rec
            what = "`%s`%s" % ("; ".join(name(x) for x in stmts), " with -g" if debug else "")
            outs = F.run()
            ctx.used(E)
            ctx.require(outs, "no path for " + what)
            for o in outs:
                ctx.count("statement_paths")
                s = o.state
                if o.kind != "ret":
                    ctx.violation("stmt/" + o.kind, "%s: generation ends in %s (%s)" % (what, o.kind, where(E, o)))
                    continue
                if not debug:
                    continue
                if d.scope(s) != OUTER:
                    ctx.violation("scope", "%s: what follows is described as part of %s" % (what, show(d.scope(s))))
                # a list ends at its return: nothing is wanted of what is not generated
                locs = {}
                for e in s.props.get("di", ()):
                    if e[0] == "loc":
                        locs.setdefault(e[1], []).append(e[2])
                seen = {"ret": 0, "store": 0, "call": 0}
                for j, (bb, ins) in enumerate(F.G.L.code(s)):
                    if ins[0] in seen:
                        if ins[0] == "ret" and "result" in str(ins):
                            continue
                        if ins[0] == "ret" and any(s.props.get(("body", b)) == "ret" for b in blocks) and bb and bb[2] == "inner":
                            continue
                        left = [w for (kk, i), w in sorted(want.items(), key=str) if kk == ins[0]]
                        if seen[ins[0]] < len(left):
                            w = left[seen[ins[0]]]
                            got = locs.get(("ins", j), [None])[-1]
                            if got != w:
                                ctx.violation("at/" + ins[0], "%s: its %s instruction is placed at %s instead of %s" % (
                                    what, ins[0], show(got), show(w)))
                        seen[ins[0]] += 1
                for (kk, tag), w in want.items():
                    if kk == "cond" and form == "dyn" and any(i == ("eval", tag) for b, i in F.G.L.code(s)):
                        got = locs.get(("in", tag, "dyn"), [None])[-1]
                        if got != w:
                            ctx.violation("at/cond", "%s: its condition is placed at %s instead of %s" % (what, show(got), show(w)))


def name(x):
    return x[0] if x[0] != "if" else "if" + "/elif" * (len([c for c in x[1] if c[0]]) - 1) + "/else" * (x[1][-1][0] is None)


def variables(ctx):
    """variables are described by name, type, line and where they are kept"""
    P = ctx.P
    for func in ("main", "function"):
        for const in (1, 0):
            for form in ("literal", "dyn"):
                for t in ("INT", "STR", "&INT"):
                    for exp in ((0, 1) if func == "main" else (0,)):
                        for debug in (1, 0):
                            variable(ctx, P, func, const, form, t, exp, debug)


def variable(ctx, P, func, const, form, t, exp, debug):
    G = Gen(P, func=func)
    d = D(ctx, G, debug)
    S, E, st = G.S, G.E, G.S.st
    E.models["gen_expr"] = G.m_expr
    v = S.new("Variable", "x", type=S.T(t), is_const=const, is_exported=exp, is_global=0, is_const_lit=0, name=d.str("vname"),
              linkage_name=d.str("lname"), ref=0)
    sy = S.new("Symbol", "x.sym", type=P.enum("SYMBOL_VAR"), var=S.ptr(v), name=d.str("vname"))
    d.at(sy, "Symbol", 7)
    vd = S.new("AstNodeVarDef", "vd", symbol=S.ptr(sy), expr=S.ptr(G.expr("init", t, form)))
    tok = S.new("Token", "tok")
    d.at(tok, "Token", 6)
    n = S.new("AstNode", "n", type=P.enum("AST_NODE_VAR_DEF"), var_def=S.ptr(vd), next=0, last=0, child=0, token=S.ptr(tok))
    what = "%s%s `%s` of type %s, %s value, %s" % ("exported " if exp else "", "constant" if const else "mutable variable", "vname", NAMES[t],
                                                "constant" if form == "literal" else "computed", "in main" if func == "main" else "in a function")
    key = "var/%s/%s" % (func, "const" if const else "mut")
    outs = G.run("gen_tree", [S.ptr(n), S.ptr(G.state)])
    ctx.used(E)
    ctx.require(outs, "no path for " + what)
    for o in outs:
        ctx.count("variable_paths")
        s = o.state
        if o.kind != "ret":
            ctx.violation(key + "/" + o.kind, "%s: generation ends in %s (%s)" % (what, o.kind, where(E, o)))
            continue
        if not debug:
            continue
        ev = [e for e in s.props.get("di", ()) if e[0] in ("declare", "value", "metadata")]
        ref = d.L.t(s, E.get(s, v, "Variable", "ref"))
        if len(ev) != 1:
            ctx.violation(key + "/once", "%s is described %d times" % (what, len(ev)))
            continue
        e = ev[0]
        if func == "main":
            w = ("metadata", ("gvar", 0), 0, ("diglobal", UNIT, "vname", FILE, LINE + 7, d.type(t), 1 - exp))
            if e != w:
                ctx.violation(key, "%s is described as %s instead of %s" % (what, show(e), show(w)))
            continue
        var = ("divar", OUTER, "vname", FILE, LINE + 7, d.type(t))
        kind = "value" if const else "declare"
        if e[0] != kind:
            ctx.violation(key + "/kind", "%s is described by its %s" % (what, "address, although it has none" if const else "first value only"))
        elif e[1] != ref or ref is None:
            ctx.violation(key + "/ref", "%s is described as %s instead of %s" % (what, show(e[1]), show(ref)))
        if e[2] != var:
            ctx.violation(key, "%s is described as %s instead of %s" % (what, show(e[2]), show(var)))
        if e[4] != d.loc(7):
            ctx.violation(key + "/at", "%s is placed at %s instead of %s" % (what, show(e[4]), show(d.loc(7))))
        if e[3] != ("diexpr",):
            ctx.violation(key + "/expr", "%s is described by another expression than itself" % what)
        if e[5] != s.props.get("bb"):
            ctx.violation(key + "/block", "%s is described in block %s instead of the current one" % (what, show(e[5])))


def functions(ctx):
    """functions and parameters are described by name, line and types, and their code belongs to them"""
    P = ctx.P
    for n in (0, 1, 2, 3):
        for rt in ("INT", "VOID", "STR"):
            for kind in ("plain", "export", "external"):
                for debug in (1, 0):
                    if n == 3 and rt == "STR":
                        continue
                    function(ctx, P, n, rt, kind, debug)


def function(ctx, P, n, rt, kind, debug):
    G = Gen(P, func="main")
    d = D(ctx, G, debug)
    S, E, st = G.S, G.E, G.S.st
    ptypes = ["INT", "&BOOL", "STR"][:n]
    fd = S.new("FunctionDeclaration", "fd", num_params=n, return_type=S.T(rt), is_external=int(kind == "external"),
               is_export=int(kind == "export"), ref=0, type=0)
    sym = S.new("Symbol", "f", func=S.ptr(fd), type=P.enum("SYMBOL_FUNC"), linkage_name=d.str("lname"), name=d.str("fname"))
    d.at(sym, "Symbol", 3)
    vs = []
    if n:
        tarr = E.new_obj(st, "lazy", "harness", 8 * n, "u", None, "ptypes")
        parr = E.new_obj(st, "lazy", "harness", 8 * n, "u", None, "params")
        for i, t in enumerate(ptypes):
            nm = d.str("par%d" % i)
            v = S.new("Variable", "p%d" % i, type=S.T(t), is_const=1, is_global=0, is_const_lit=0, ref=0, name=nm)
            ps = S.new("Symbol", "p%d.sym" % i, var=S.ptr(v), type=P.enum("SYMBOL_VAR"), name=nm)
            d.at(ps, "Symbol", 30 + i)
            p = S.new("AstNodeFunctionParam", "p%d.param" % i, symbol=S.ptr(ps), param_name=S.ptr(S.new_str("par%d" % i, None)))
            E.store_cell(st, tarr, 8 * i, 8, S.T(t))
            E.store_cell(st, parr, 8 * i, 8, S.ptr(p))
            vs.append(v)
        E.put(st, fd, "FunctionDeclaration", "param_types", S.ptr(tarr))
        E.put(st, fd, "FunctionDeclaration", "params", S.ptr(parr))
    else:
        E.put(st, fd, "FunctionDeclaration", "param_types", 0)
        E.put(st, fd, "FunctionDeclaration", "params", 0)

    def mb(E, st, a, i, f):
        t = E.meta_tag(st, E.res(st, a[0]))
        return ret(st, d_copy(E, st, t if t and t.startswith("par") else "?"))
    E.models["c32stombs"] = mb
    child = S.new("AstNode", "body")
    proto = S.new("AstNodeFunctionProto", "proto", symbol=S.ptr(sym), num_params=n)
    tok = S.new("Token", "tok")
    d.at(tok, "Token", 3)
    node = S.new("AstNode", "node", type=P.enum("AST_NODE_FUNCTION_PROTO"), func_proto=S.ptr(proto), next=0, last=0,
                 child=0 if kind == "external" else S.ptr(child), token=S.ptr(tok))
    G.scope_chain(1)
    what = "%s function returning %s with %d parameter%s%s" % (kind, NAMES[rt], n, "s" * (n != 1), " with -g" if debug else "")
    key = "func/" + kind
    me = ("fn", ("obj", "lname"))
    old = E.recursion

    def tree(E, st, fn, a):
        if fn.src != "gen_tree":
            return old(E, st, fn, a)
        st.props["inside"] = d.scope(st) if debug else None
        st.props["at"] = st.props["bb"]
        if rt == "VOID":
            return ret(st, ("agg", ((0, 0), (1, 0))))
        v = G.L.inst(st, "ret", ("in", "r", "dyn"))
        return ret(st, ("agg", ((0, v), (1, S.T(rt)))))
    E.recursion = tree
    outs = G.run("gen_tree", [S.ptr(node), S.ptr(G.state)])
    ctx.used(E)
    ctx.require(outs, "no path for " + what)
    for o in outs:
        ctx.count("function_paths")
        s = o.state
        if o.kind != "ret":
            ctx.violation(key + "/" + o.kind, "%s: generation ends in %s (%s)" % (what, o.kind, where(E, o)))
            continue
        if not debug:
            continue
        if d.scope(s) != OUTER:
            ctx.violation(key + "/after", "%s: what follows is described as part of %s" % (what, show(d.scope(s))))
        if kind == "external":
            continue
        ev = s.props.get("di", ())
        sig = ("disub", tuple((d.type(x) if x != "VOID" else "void") for x in [rt] + ptypes))
        sub = [e for e in ev if e[0] == "subprogram"]
        sc = s.props.get("inside")
        ok = type(sc) is tuple and sc[0] == "difn" and sc[2] == "fname" and sc[3] == FILE and sc[4] == LINE + 3 and sc[6] == 1 and sc[7] == LINE + 3
        if not ok:
            ctx.violation(key, "%s is described as %s" % (what, show(sc)))
            continue
        got = ("disub", tuple("void" if x in (None, ("dibasic", "Void", 0, 5)) else x for x in sc[5][1]))
        if got != sig:
            ctx.violation(key + "/type", "%s is described with the types %s instead of %s" % (what, show(got), show(sig)))
        if len(sub) != 1 or sub[0][2] != sc or sub[0][1] is None or sub[0][1][0] != "fn":
            ctx.violation(key + "/attach", "%s: its description is not attached to it" % what)
        decl = [e for e in ev if e[0] in ("declare", "value")]
        if len(decl) != n:
            ctx.violation(key + "/params", "%s: %d parameters are described" % (what, len(decl)))
            continue
        for i, e in enumerate(decl):
            w = ("diparam", sc, "par%d" % i, i + 1, FILE, LINE + 3, d.type(ptypes[i]))
            alt = w[:5] + (LINE + 30 + i,) + w[6:]
            if e[2] not in (w, alt):
                ctx.violation(key + "/param", "%s: parameter %d is described as %s instead of %s" % (what, i + 1, show(e[2]), show(w)))
            if e[0] != "declare" or e[1] != d.L.t(s, E.get(s, vs[i], "Variable", "ref")) or e[1] is None or e[1][0] != "ins":
                ctx.violation(key + "/paramref", "%s: parameter %d is described as %s, which is not where it is kept" % (what, i + 1, show(e[1])))
            if type(e[4]) is not tuple or e[4][0] != "diloc" or e[4][3] != sc:
                ctx.violation(key + "/paramscope", "%s: parameter %d is described in another function" % (what, i + 1))


def check(ctx):
    """debug information describes the program it comes with"""
    ctx.rule = ("The LLVM debug information API is replaced by recording models; every path of the set-up, of the type descriptions, of statement lists "
                "of every kind, of variable definitions (main or function, constant or mutable, exported or not, computed or constant) and of function "
                "definitions with 0-3 parameters is enumerated with -g and without: names, lines, columns, types, blocks and places recorded must be "
                "those of the source construct, the enclosing description must be back in force after each block and function, and without -g nothing is recorded.")
    ctx.assumptions = ["LLVM's debug information API records what it is given", "locations of expressions are those of their tokens (C24)"]
    types(ctx)
    setup(ctx)
    statements(ctx)
    variables(ctx)
    functions(ctx)


CHECKS = {"C31": check}
