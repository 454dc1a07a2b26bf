"""Unused and needlessly mutable variables, functions nobody calls."""
import itertools
from absint import Outcome
from models import diag_model, ret
from sem import Sem, fail
from stmt import Case, short
from checks.statements import body

FLAGS = ("is_const", "was_reassigned", "was_read", "is_exported")
NOTCONST, UNUSED, FUNC = "WARN_VAR_NOT_CONST", "WARN_VAR_UNUSED", "WARN_FUNC_UNUSED"


def sink(S, names):
    """the message sink: remembers what was warned about, in order"""
    P = S.P

    def m(E, st, a, ins, fr):
        kind, code = E.res(st, a[0]), E.res(st, a[1])
        msg = E.res(st, a[2])
        about = None
        v = E.res(st, E.get(st, msg, "Message", "var"))
        s = E.res(st, E.get(st, msg, "Message", "str"))
        loc = E.res(st, E.get(st, msg, "Message", "loc"))
        for n, (sym, var, text) in names.items():
            at = P.field("Symbol", "location")[0] // 8
            if (v == ("p", var, 0) or (v == 0 and s == text)) and loc == ("p", sym, at):
                about = n
        k = {P.enum("ERROR_WARN"): "warning", P.enum("ERROR_FATAL"): "error"}.get(kind, "?")
        c = next((n for n in (NOTCONST, UNUSED, FUNC) if code == P.enum(n)), code)
        st.props["said"] = st.props.get("said", ()) + ((k, c, about),)
        return diag_model(E, st, a, ins, fr)
    S.E.models["fmt_message"] = m


class Tree:
    def __init__(self, P):
        self.P = P
        self.S = Sem(P)
        self.names = {}
        sink(self.S, self.names)
        self.S.E.rec_limit["*"] = 8
        self.S.E.sym_iters = self.S.E.k_dist = 99
        self.n = 0

    def node(self, kind, **kw):
        self.n += 1
        return self.S.new("AstNode", "n%d" % self.n, type=self.P.enum(kind), next=0, last=0, child=0, **kw)

    def var(self, name, flags, alias=False):
        S = self.S
        var = S.new("Variable", "var:" + name, **dict(zip(FLAGS, flags)))
        text = S.ptr(S.new_str("name:" + name, 8))
        S.E.put(S.st, var, "Variable", "name", text)
        sym = S.new("Symbol", "sym:" + name, type=self.P.enum("SYMBOL_VAR"), name=text, var=S.ptr(var))
        vd = S.new("AstNodeVarDef", "def:" + name, symbol=0 if alias else S.ptr(sym))
        n = self.node("AST_NODE_VAR_DEF", var_def=S.ptr(vd))
        self.names[name] = (sym, var, text)
        return n

    def func(self, name, called, child=None):
        S = self.S
        fd = S.new("FunctionDeclaration", "fd:" + name, was_called=called)
        text = S.ptr(S.new_str("name:" + name, 8))
        sym = S.new("Symbol", "sym:" + name, type=self.P.enum("SYMBOL_FUNC"), name=text, func=S.ptr(fd))
        fp = S.new("AstNodeFunctionProto", "proto:" + name, symbol=S.ptr(sym))
        n = self.node("AST_NODE_FUNCTION_PROTO", func_proto=S.ptr(fp))
        if child is not None:
            S.E.put(S.st, n, "AstNode", "child", S.ptr(child))
        self.names[name] = (sym, None, text)
        return n

    def block(self, kind, *stmts):
        n = self.node(kind)
        if stmts:
            self.S.E.put(self.S.st, n, "AstNode", "child", self.S.ptr(self.seq(*stmts)))
        return n

    def seq(self, *stmts):
        E, st = self.S.E, self.S.st
        for a, b in zip(stmts, stmts[1:]):
            E.put(st, a, "AstNode", "next", self.S.ptr(b))
            E.put(st, b, "AstNode", "last", self.S.ptr(a))
        return stmts[0]

    def run(self, root, quiet=0, werror=0):
        S = self.S
        g = ("p", "@BUILD_DATA", 0)
        S.E.put(S.st, g, "BuildData", "quiet", quiet)
        S.E.put(S.st, g, "BuildData", "werror", werror)
        return S.run(self.P.func("check_unused_symbols"), [S.ptr(root)])


def expected(flags):
    c, w, r, x = flags
    out = []
    if not c and not w:
        out.append(NOTCONST)
    if not r and not x:
        out.append(UNUSED)
    return out


def say(ws):
    t = {NOTCONST: "should be constant", UNUSED: "is unused", FUNC: "is unused (function)"}
    return ", ".join("%s %s" % (n, t.get(c, "code %s" % (c,))) for k, c, n in ws) or "nothing"


def judge(ctx, T, outs, want, key, what, werror, quiet=0):
    """want: [(code, name)] as a multiset"""
    E = T.S.E
    ctx.used(E)
    ctx.require(outs, "no outcome for " + what)
    for o in outs:
        ctx.count("report_paths")
        if o.kind != "ret":
            ctx.violation(key + ":" + o.kind, "check_unused_symbols: %s may end in %s" % (what, o.kind))
            continue
        said = o.state.props.get("said", ())
        if any(k != "warning" for k, c, n in said):
            ctx.violation(key + ":kind", "check_unused_symbols: %s: reported as an error instead of a warning" % what)
        if sorted((str(c), str(n)) for k, c, n in said) != sorted((c, n) for c, n in want):
            ctx.violation(key, "check_unused_symbols: %s: warns about %s where the source calls for %s" % (
                what, say(said), say([(None, c, n) for c, n in want])))
        rv = E.res(o.state, o.ret)
        if rv not in (0, 1) or rv != (0 if want and werror else 1):
            ctx.violation(key + ":verdict", "check_unused_symbols: %s: yields %s %s --werror and %d warnings" % (
                what, rv, "with" if werror else "without", len(want)))


def reports(ctx):
    P = ctx.P
    P.func("check_unused_symbols")
    for flags in itertools.product((0, 1), repeat=4):
        for werror in (0, 1):
            for quiet in (0, 1):
                T = Tree(P)
                outs = T.run(T.var("x", flags), quiet, werror)
                want = [] if quiet else [(c, "x") for c in expected(flags)]
                judge(ctx, T, outs, want, "var:%d%d%d%d" % flags, "a variable (%s)%s" % (
                    ", ".join("%s=%d" % x for x in zip(FLAGS, flags)), " under --quiet" if quiet else ""), werror)
                ctx.count("flag_cases")
    for called in (0, 1):
        for werror in (0, 1):
            for quiet in (0, 1):
                T = Tree(P)
                outs = T.run(T.func("f", called), quiet, werror)
                judge(ctx, T, outs, [] if called or quiet else [(FUNC, "f")], "func:%d" % called,
                      "a function that is %scalled" % ("" if called else "never "), werror)
                ctx.count("flag_cases")
    BAD, GOOD = (0, 0, 0, 0), (1, 0, 1, 0)
    both = lambda n: [(NOTCONST, n), (UNUSED, n)]
    # a type alias declares no variable
    T = Tree(P)
    a, b = T.var("t", BAD, alias=True), T.var("x", BAD)
    judge(ctx, T, T.run(T.seq(a, b)), both("x"), "alias", "a type alias followed by an unused variable", 0)
    # statements of every kind around the declarations, blocks at any depth
    blocks = ["AST_NODE_IF", "AST_NODE_ELIF", "AST_NODE_ELSE", "AST_NODE_WHILE", "AST_NODE_NAMESPACE"]
    plain = [k for k in ("AST_NODE_VAR_ASSIGN", "AST_NODE_EXPR", "AST_NODE_RETURN", "AST_NODE_UNREACHABLE", "AST_NODE_IMPORT",
                         "AST_NODE_COMMENT", "AST_NODE_NOOP", "AST_NODE_BREAK", "AST_NODE_CONTINUE")]
    for k in plain + blocks:
        for werror in (0, 1):
            T = Tree(P)
            x, n, z = T.var("x", BAD), T.node(k), T.var("z", BAD)
            judge(ctx, T, T.run(T.seq(x, n, z), 0, werror), both("x") + both("z"), "around:" + short(k),
                  "unused variables before and after a %s statement" % short(k), werror)
            ctx.count("shape_cases")
    for k in blocks:
        for werror in (0, 1):
            T = Tree(P)
            r = T.seq(T.var("x", GOOD), T.block(k, T.var("y", BAD)), T.var("z", GOOD))
            judge(ctx, T, T.run(r, 0, werror), both("y"), "inside:" + short(k), "an unused variable in a %s block" % short(k), werror)
            T = Tree(P)
            r = T.seq(T.block(k, T.var("x", GOOD), T.var("y", BAD), T.node("AST_NODE_COMMENT")), T.var("z", BAD))
            judge(ctx, T, T.run(r, 0, werror), both("y") + both("z"), "inside-after:" + short(k),
                  "unused variables in and after a %s block" % short(k), werror)
            T = Tree(P)
            r = T.block("AST_NODE_WHILE", T.node("AST_NODE_NOOP"), T.block(k, T.var("y", BAD), T.block("AST_NODE_IF", T.var("w", BAD)), T.var("v", BAD)))
            judge(ctx, T, T.run(r, 0, werror), both("y") + both("w") + both("v"), "deep:" + short(k),
                  "unused variables in nested %s blocks" % short(k), werror)
            T = Tree(P)
            r = T.seq(T.var("x", BAD), T.block(k, T.var("y", GOOD)), T.block("AST_NODE_IF", T.var("w", GOOD)), T.var("z", GOOD))
            judge(ctx, T, T.run(r, 0, werror), both("x"), "before:" + short(k), "an unused variable before a %s block" % short(k), werror)
            T = Tree(P)
            r = T.seq(T.block(k, T.func("f", 0), T.func("g", 1)), T.func("h", 0))
            judge(ctx, T, T.run(r, 0, werror), [(FUNC, "f"), (FUNC, "h")], "funcs:" + short(k),
                  "functions in and after a %s block" % short(k), werror)
            ctx.count("shape_cases", 4)
    # a function does not hide what follows it
    T = Tree(P)
    r = T.seq(T.func("f", 1, T.node("AST_NODE_RETURN")), T.var("x", BAD), T.func("g", 0, T.node("AST_NODE_RETURN")), T.var("y", BAD))
    judge(ctx, T, T.run(r), both("x") + both("y") + [(FUNC, "g")], "after-func", "variables after functions", 0)


def marks(ctx):
    """what counts as a use"""
    P = ctx.P
    # reading
    for before in (0, 1):
        S = Sem(P)
        E = S.E

        def found(E, st, a, i, f, S=S):
            outs = S.m_scope_find_var(E, st, a, i, f)
            for o in outs[1:]:
                v = o.state.props["foundvar"]
                for k in ("was_read", "was_reassigned"):
                    E.put(o.state, v, "Variable", k, before)
            return outs
        P.func("scope_find_var")
        E.models["scope_find_var"] = found
        e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_IDENTIFIER"))
        acc = 0
        for o in S.run(P.func("validate_expr"), [S.ptr(S.state()), S.ptr(e)]):
            if o.kind == "ret" and E.res(o.state, o.ret) == 1 and "foundvar" in o.state.props:
                acc += 1
                ctx.count("mark_paths")
                v = o.state.props["foundvar"]
                get = lambda k: E.res(o.state, E.get(o.state, v, "Variable", k))
                if get("was_read") != 1:
                    ctx.violation("mark:read", "validate_expr: a variable used in an expression is not marked as read")
                if get("was_reassigned") != before:
                    ctx.violation("mark:read-assign", "validate_expr: reading a variable changes whether it counts as reassigned")
        ctx.require(acc, "no accepting path for a name")
        ctx.used(E)
    # calling
    for before in (0, 1):
        for args in (0, 1):
            S = Sem(P)
            E = S.E
            S.contracts("scope_find_name")
            fd = S.new("FunctionDeclaration", "fd", return_type=S.T("INT"), num_params=args, was_called=before)
            sym = S.new("Symbol", "fsym", func=S.ptr(fd), type=P.enum("SYMBOL_FUNC"))
            E.models["scope_find_name"] = lambda E, st, a, i, f, sym=sym: ret(st, ("p", sym, 0))
            call = S.new("AstNodeFunctionCall", "call", num_values=0)
            e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_FUNC"), lhs__func_call=S.ptr(call))
            for o in S.run(P.func("validate_expr"), [S.ptr(S.state()), S.ptr(e)]):
                if o.kind == "ret" and E.res(o.state, o.ret) == 1:
                    ctx.count("mark_paths")
                    if E.res(o.state, E.get(o.state, fd, "FunctionDeclaration", "was_called")) != 1:
                        ctx.violation("mark:call", "validate_expr: a called function is not marked as called")
            ctx.used(E)
    # assigning
    for before in (0, 1):
        C = Case(P, "AST_NODE_VAR_ASSIGN")
        E = C.E

        def find(E, st, a, i, f, C=C):
            outs = C.S.m_scope_find_var(E, st, a, i, f)
            for o in outs[1:]:
                v = o.state.props["foundvar"]
                for k in ("was_read", "was_reassigned"):
                    E.put(o.state, v, "Variable", k, before)
            return outs
        E.models["scope_find_var"] = find
        acc = 0
        for o in C.run():
            if o.kind == "ret" and E.res(o.state, o.ret) == 1:
                acc += 1
                ctx.count("mark_paths")
                v = o.state.props["foundvar"]
                get = lambda k: E.res(o.state, E.get(o.state, v, "Variable", k))
                if get("was_reassigned") != 1:
                    ctx.violation("mark:assign", "an assigned variable is not marked as reassigned")
                if get("was_read") != before:
                    ctx.violation("mark:assign-read", "assigning a variable makes it count as read")
        ctx.require(acc, "no accepting path for an assignment")
        ctx.used(E)
    # defining
    for lead in (None, "TOKEN_KW_MUT", "TOKEN_KW_EXPORT"):
        for explicit in (False, True):
            C = Case(P, "AST_NODE_VAR_DEF", lead=lead, explicit=explicit)
            E = C.E
            acc = 0
            for o in C.run():
                if o.kind != "ret" or E.res(o.state, o.ret) != 1:
                    continue
                st = o.state
                sym = E.res(st, E.get(st, C.vd, "AstNodeVarDef", "symbol"))
                added = [e[1] for e in C.events(st, "add")]
                ctx.count("mark_paths")
                isvar = [s for s in added if E.res(st, E.get(st, s, "Symbol", "type")) == P.enum("SYMBOL_VAR")]
                if not isvar:
                    if sym != 0:
                        ctx.violation("define:alias", "a type alias is recorded as a variable definition")
                    continue
                acc += 1
                if sym not in isvar:
                    ctx.violation("define:symbol", "a definition does not remember the variable it declares")
                    continue
                v = E.res(st, E.get(st, sym, "Symbol", "var"))
                for k, want in (("was_read", 0), ("was_reassigned", 0), ("is_exported", int(lead == "TOKEN_KW_EXPORT")),
                                ("is_const", int(lead != "TOKEN_KW_MUT"))):
                    if E.res(st, E.get(st, v, "Variable", k)) != want:
                        ctx.violation("define:%s:%s" % (k, lead), "a variable defined with %s starts with %s %s" % (
                            lead, k, E.res(st, E.get(st, v, "Variable", k))))
            ctx.require(acc, "no accepting path for a definition")
            ctx.used(E)
    # declaring
    for lead in (None, "TOKEN_KW_EXPORT", "TOKEN_KW_EXTERNAL"):
        C = Case(P, "AST_NODE_FUNCTION_PROTO", lead=lead, child=lead != "TOKEN_KW_EXTERNAL", rtok=False)
        E = C.E
        acc = 0
        for o in C.run():
            if o.kind != "ret" or E.res(o.state, o.ret) != 1:
                continue
            st = o.state
            acc += 1
            ctx.count("mark_paths")
            sym = E.res(st, E.get(st, C.fp, "AstNodeFunctionProto", "symbol"))
            if type(sym) is not tuple or sym[0] != "p":
                ctx.violation("declare:symbol", "a function declaration does not remember its function")
                continue
            fd = E.res(st, E.get(st, sym, "Symbol", "func"))
            if E.res(st, E.get(st, fd, "FunctionDeclaration", "was_called")) != 0:
                ctx.violation("declare:called:%s" % lead, "a function counts as called by being declared")
        ctx.require(acc, "no accepting path for a function")
        ctx.used(E)
    # the report covers the whole program, after all of it was validated
    shapes = [Case(P, "AST_NODE_NOOP", nexts=n) for n in ((), ("AST_NODE_VAR_ASSIGN",), ("AST_NODE_VAR_ASSIGN", "AST_NODE_VAR_ASSIGN"))]
    shapes += [Case(P, k) for k in ("AST_NODE_VAR_DEF", "AST_NODE_VAR_ASSIGN", "AST_NODE_COMMENT", "AST_NODE_IMPORT", "AST_NODE_UNREACHABLE", "AST_NODE_RETURN")]
    shapes += [Case(P, k, child=True) for k in ("AST_NODE_IF", "AST_NODE_WHILE", "AST_NODE_NAMESPACE")]
    shapes += [body(Case(P, "AST_NODE_FUNCTION_PROTO", rtok=False), "no return")]
    shapes += [Case(P, "AST_NODE_VAR_DEF", nexts=("AST_NODE_VAR_ASSIGN",), lead="TOKEN_KW_MUT"), Case(P, "AST_NODE_RETURN", nexts=("AST_NODE_COMMENT",))]
    for C in shapes:
        acc = 0
        for o in C.run():
            if o.kind == "ret" and C.E.res(o.state, o.ret) == 1:
                acc += 1
                ctx.count("mark_paths")
                ev = o.state.props.get("ev", ())
                us = [i for i, e in enumerate(ev) if e[0] == "unused"]
                if C.E.res(o.state, C.E.get(o.state, ("p", "@BUILD_DATA", 0), "BuildData", "quiet")) == 1:
                    continue
                if [ev[i][1] for i in us] != ["n"]:
                    ctx.violation("whole", "the unused check looks at %s instead of the whole program once (a program that is a %s)" % (
                        [ev[i][1] for i in us], C.label()))
                elif any(e[0] == "expr" for e in ev[us[0]:]):
                    ctx.violation("early", "the unused check runs before all statements are validated")
        ctx.require(acc, "no accepting path for %s" % C.label())
        ctx.used(C.E)


def check(ctx):
    """variables never read, needlessly mutable, and functions never called are warned about, and nothing else"""
    ctx.rule = ("All paths of check_unused_symbols over every combination of a variable's flags, every statement kind around and blocks "
                "of every kind nested to depth 3, with and without --quiet and --werror: the multiset of warnings, each with its "
                "declaration's place, and the verdict equal the specified ones. The flags are shown to be right by analysing "
                "validation: a use in an expression marks read, an assignment marks reassigned (and not read), a call marks called, "
                "definitions and declarations start unmarked, and the report is made once over the whole program after validation.")
    ctx.assumptions = ["names resolve to their declaration (C10)", "the text of the warnings is C24's",
                       "variables local to a function body are not reported by the compiler; that is left unspecified"]
    reports(ctx)
    marks(ctx)


CHECKS = {"C27": check}
