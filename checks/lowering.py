"""What the LLVM code generator emits for each construct of the language."""
from absint import Outcome
from gen import LLTY, Gen, show
from llvmir import Mem, mk
from models import ret
from sem import NAMES, where
from checks.operators import LEAF, PRETTY, SPEC, label

L, R = ("in", "lhs", "dyn"), ("in", "rhs", "dyn")
Z = ("const", "i64", 0)


def fzeros():
    return [("const", "double", ("f", x)) for x in ("0x0p+0", "-0x0p+0")] + [("const", "double", 0)]


def call(name):
    return ("call", name)


def expected(op, t):
    """acceptable lowered forms of `lhs op rhs` on operands of type t"""
    f = t == "FLOAT"
    arith = {"EXPR_ADD": ("add", "fadd"), "EXPR_SUB": ("sub", "fsub"), "EXPR_MULT": ("mul", "fmul"),
             "EXPR_DIV": ("sdiv", "fdiv"), "EXPR_MOD": ("srem", "frem"), "EXPR_LSHIFT": ("shl", None),
             "EXPR_RSHIFT": ("lshr", None), "EXPR_AND": ("and", None), "EXPR_OR": ("or", None),
             "EXPR_LESS_THAN": ("slt", "olt"), "EXPR_GTR_THAN": ("sgt", "ogt"), "EXPR_LESS_THAN_EQ": ("sle", "ole"),
             "EXPR_GTR_THAN_EQ": ("sge", "oge")}
    if op in arith:
        return [mk(arith[op][1 if f else 0], L, R)]
    if op == "EXPR_XOR":
        return [mk("xor", L, R), mk("ne", L, R)]
    if op == "EXPR_POW":
        return [call("_float_pow" if f else "_int_pow")]
    if op == "EXPR_NOT":
        return [mk("not", R), mk("eq", R, ("const", "i1", 0))]
    if op == "EXPR_UNARY_NEG":
        if f:
            return [("fneg", R)] + [mk("fsub", z, R) for z in fzeros()]
        return [mk("sub", Z, R), mk("mul", R, ("const", "i64", (1 << 64) - 1))]
    if op in ("EXPR_IS", "EXPR_ISNT"):
        if t == "STR":
            return [call("_strcmp")] if op == "EXPR_IS" else [("not", call("_strcmp"))]
        e = mk("oeq" if f else "eq", L, R)
        return [e] if op == "EXPR_IS" else [mk("not", e)]
    return None


SIG = {"_int_pow": ("fnty", "i64", ("i64", "i64")), "_float_pow": ("fnty", "double", ("double", "double")),
       "_strcmp": ("fnty", "i1", ("ptr", "ptr"))}


def operators(ctx):
    P = ctx.P
    ops = [o for o in P.enums["ExprType"] if o not in LEAF and o not in ("EXPR_REF", "EXPR_DEREF")]
    for op in ops:
        ctx.require(op in SPEC, "operator %s has no lowering rule" % op)
        kind, types, result = SPEC[op]
        for t in sorted(types):
            for declared in ((), ("_int_pow", "_float_pow", "_strcmp")):
                G = Gen(P)
                S, E, st = G.S, G.E, G.S.st
                st.props["fns"] = tuple(("fn", n) for n in declared)
                l, r = G.expr("lhs", t), G.expr("rhs", t)
                rt = "BOOL" if result == "BOOL" else t
                e = S.new("AstNodeExpr", "e", oper=P.enum(op), rhs=S.ptr(r), type=S.T(rt),
                          lhs__expr=S.ptr(l) if kind == "bin" else 0)
                outs = G.run("gen_expr", [S.ptr(e), S.ptr(G.state)])
                ctx.used(E)
                ctx.count("operator_type_cases")
                ctx.count("paths", len(outs))
                name = label(op, kind, t, t)
                key = "%s/%s" % (op, t)
                ctx.require(outs, "no path for " + name)
                want = expected(op, t)
                ctx.require(want is not None, "no lowering rule for " + op)
                for o in outs:
                    s = o.state
                    if o.kind != "ret":
                        ctx.violation(key + "/" + o.kind, "`%s` is legal but its lowering ends in %s (%s)" % (name, o.kind, o.ret))
                        continue
                    v = G.L.t(s, G.field(s, o.ret, 0))
                    got = v
                    code = G.L.code(s)
                    evals = [i[1] for b, i in code if i[0] == "eval"]
                    rest = [(n, i) for n, (b, i) in enumerate(code) if i[0] != "eval"]
                    calls = [(n, i) for n, i in rest if i[0] == "call"]
                    if calls and len(rest) == 1:
                        n, i = calls[0]
                        sym = i[1]
                        fname = sym[1] if type(sym) is tuple and sym[0] == "fn" else show(sym)
                        ok = i[2] == (L, R) and SIG.get(fname) == i[3]
                        cn = call(fname) if ok else ("call", fname, i[2], i[3])
                        got = subst(v, ("ins", n), cn)
                        rest = []
                    if got not in want:
                        ctx.violation(key, "`%s` is lowered to %s, expected %s (gen_expr, %s)" % (
                            name, show(got), " or ".join(show(w) for w in want[:2]), where(E, o)))
                    if rest:
                        ctx.violation(key + "/effects", "`%s` also emits %s" % (name, ", ".join(show(i) for n, i in rest)))
                    if evals != (["lhs", "rhs"] if kind == "bin" else ["rhs"]):
                        ctx.violation(key + "/eval", "`%s` evaluates its operands as %s" % (name, evals))
                    if s.props["bb"] != ("bb", "start", None):
                        ctx.violation(key + "/bb", "`%s` leaves code generation in another block" % name)
                    gt = S.tname(s, G.field(s, o.ret, 1))
                    if gt != rt:
                        ctx.violation(key + "/type", "`%s` yields a value labelled %s instead of %s" % (name, gt and NAMES[gt], NAMES[rt]))


def subst(t, a, b):
    if t == a:
        return b
    if type(t) is tuple:
        return tuple(subst(x, a, b) for x in t)
    return t


LITF = {"INT": "value._int", "FLOAT": "value._float", "BOOL": "value._bool", "RUNE": "value.rune", "STR": "value.str"}


def literals(ctx):
    P = ctx.P
    for t, f in LITF.items():
        vals = [0, 1] if t == "BOOL" else [None]
        for val in vals:
            G = Gen(P)
            S, E, st = G.S, G.E, G.S.st
            e = S.new("AstNodeExpr", "e", oper=P.enum("EXPR_CONST"), type=S.T(t))
            if t == "STR":
                x = S.ptr(S.new_str("lit", None))
            elif val is not None:
                x = val
            else:
                x = E.fresh(st, tag="lit")
            E.put(st, e, "AstNodeExpr", f, x)
            outs = G.run("gen_expr", [S.ptr(e), S.ptr(G.state)])
            ctx.used(E)
            ctx.count("literal_cases")
            ctx.require(outs, "no path for literals")
            for o in outs:
                s = o.state
                name = "%s literal" % NAMES[t]
                if o.kind != "ret":
                    ctx.violation("lit/" + t, "%s: lowering ends in %s" % (name, o.kind))
                    continue
                v = G.L.t(s, G.field(s, o.ret, 0))
                want = ("str", ("obj", "lit")) if t == "STR" else \
                    ("const", LLTY[t], val if val is not None else ("val", "lit"))
                if not same_const(v, want):
                    ctx.violation("lit/" + t, "%s is lowered to %s instead of %s" % (name, show(v), show(want)))
                if S.tname(s, G.field(s, o.ret, 1)) != t:
                    ctx.violation("lit/" + t + "/type", "%s is labelled with another type" % name)
                if G.L.code(s):
                    ctx.violation("lit/" + t + "/effects", "%s emits code" % name)


def same_const(v, want):
    if v == want:
        return True
    if type(v) is tuple and type(want) is tuple and v[:2] == want[:2] and len(v) == 3:
        return strip(v[2]) == strip(want[2])
    return False


def strip(d):
    """look through width changes that keep a value"""
    while type(d) is tuple and d[0] == "t" and d[1] in ("zext", "trunc", "sext") and len(d) > 2:
        d = d[2]
    return d


def calls(ctx):
    """arguments are evaluated once each, in order, and passed in order"""
    P = ctx.P
    for n in range(0, 4):
        for rt in ("INT", "VOID"):
            G = Gen(P)
            S, E, st = G.S, G.E, G.S.st
            fd = S.new("FunctionDeclaration", "fd", num_params=n, return_type=S.T(rt), ref=G.L.v(("fn", "callee")),
                       type=G.L.v(("fnty", "callee")))
            sym = S.new("Symbol", "fs", func=S.ptr(fd), type=P.enum("SYMBOL_FUNC"))
            tok = S.new("Token", "ftok")
            nodes = [S.new("AstNode", "arg%d.node" % i, expr=S.ptr(G.expr("arg%d" % i, "INT"))) for i in range(n)]
            for i, x in enumerate(nodes):
                E.put(st, x, "AstNode", "next", S.ptr(nodes[i + 1]) if i + 1 < n else 0)
            fc = S.new("AstNodeFunctionCall", "fc", func_name_tok=S.ptr(tok), symbol=S.ptr(sym), num_values=n,
                       params=S.ptr(nodes[0]) if n else (S.ptr(S.new("AstNode", "noarg", expr=0, next=0))))
            e = S.new("AstNodeExpr", "e", oper=P.enum("EXPR_FUNC"), type=S.T(rt), lhs__func_call=S.ptr(fc))
            E.models["gen_expr"] = G.m_expr
            outs = G.run("gen_expr", [S.ptr(e), S.ptr(G.state)])
            ctx.used(E)
            ctx.count("call_cases")
            ctx.require(outs, "no path for calls")
            for o in outs:
                s = o.state
                if o.kind != "ret":
                    ctx.violation("call/%d" % n, "call with %d arguments: lowering ends in %s" % (n, o.kind))
                    continue
                code = [i for b, i in G.L.code(s)]
                args = ["arg%d" % i for i in range(n)]
                want = [("eval", a) for a in args] + [("call", ("fn", "callee"), tuple(("in", a, "dyn") for a in args), ("fnty", "callee"))]
                if code != want:
                    ctx.violation("call/%d" % n, "call with %d arguments emits %s, expected %s" % (
                        n, "; ".join(show(c) for c in code), "; ".join(show(c) for c in want)))
                v = G.L.t(s, G.field(s, o.ret, 0))
                if v != ("ins", len(code) - 1):
                    ctx.violation("call/%d/value" % n, "the value of a call is %s" % show(v))
                if S.tname(s, G.field(s, o.ret, 1)) != rt:
                    ctx.violation("call/%d/type" % n, "the result of a call is labelled with another type")


def expressions(ctx):
    """every legal expression is lowered to LLVM code that computes its meaning"""
    ctx.rule = ("The LLVM API is replaced by a recording model and every path of gen_expr is enumerated for each "
                "operator and operand type, each literal type, and calls with 0-3 arguments; the emitted term, up to "
                "the algebraic identities LLVM guarantees, must be the one the language defines, operands must be "
                "evaluated once each, left to right, and the result must carry the expression's type.")
    ctx.assumptions = ["LLVM's builder functions emit the instruction they are named after",
                       "sub-expressions obey the same contract (induction over expression depth)",
                       "the runtime helpers _int_pow, _float_pow and _strcmp do what they are named after"]
    operators(ctx)
    literals(ctx)
    calls(ctx)


class Vars:
    """a program fragment built from definitions, assignments and reads, generated step by step"""

    def __init__(self, P, func, loop):
        self.G = Gen(P, func=func, loop=loop)
        self.P = P
        self.G.E.models["gen_expr"] = self.G.m_expr
        self.states = [(self.G.S.st.fork(), {})]
        self.n = 0

    def var(self, tag, typ, const, exported=False):
        S, P = self.G.S, self.P
        v = S.new("Variable", tag, type=S.T(typ), is_const=int(const), is_exported=int(exported), is_global=0, is_const_lit=0,
                  name=S.ptr(S.new_str(tag + ".name", None)), linkage_name=S.ptr(S.new_str(tag + ".link", None)), ref=0)
        s = S.new("Symbol", tag + ".sym", type=P.enum("SYMBOL_VAR"), var=S.ptr(v))
        return s, v

    def ident(self, sym, typ):
        return self.G.S.new("AstNodeExpr", "id", oper=self.P.enum("EXPR_IDENTIFIER"), symbol=self.G.S.ptr(sym),
                            type=self.G.S.T(typ))

    def unary(self, op, e, typ):
        return self.G.S.new("AstNodeExpr", "un", oper=self.P.enum(op), rhs=self.G.S.ptr(e), type=self.G.S.T(typ), lhs__expr=0)

    def vardef(self, sym, e):
        S = self.G.S
        d = S.new("AstNodeVarDef", "vd", symbol=S.ptr(sym), expr=S.ptr(e))
        return self.stmt("AST_NODE_VAR_DEF", var_def=S.ptr(d))

    def stmt(self, kind, **kw):
        S = self.G.S
        return S.new("AstNode", "stmt", type=self.P.enum(kind), next=0, last=0, child=0, token=S.ptr(S.new("Token", "stmttok")), **kw)

    def assign(self, sym, e):
        S = self.G.S
        return self.stmt("AST_NODE_VAR_ASSIGN", var_assign=S.ptr(S.new("AstNodeVarAssign", "va", symbol=S.ptr(sym), expr=S.ptr(e))))

    def start(self):
        self.states = [(self.G.S.st.fork(), {})]

    def step(self, fn, obj, mark=None, read=None):
        """run one generator function; `read` names the value it returns"""
        new = []
        G = self.G
        bad = []
        for st, info in self.states:
            for o in G.run(fn, [G.S.ptr(obj), G.S.ptr(G.state)], st):
                if o.kind != "ret":
                    bad.append(o)
                    continue
                i2 = dict(info)
                n = len(G.L.code(o.state))
                if read:
                    i2[read] = (G.L.t(o.state, G.field(o.state, o.ret, 0)), n, G.S.tname(o.state, G.field(o.state, o.ret, 1)))
                new.append((o.state, i2))
        self.states = new
        return bad


def vartypes(t):
    return t


def variables_(ctx):
    P = ctx.P
    for func in ("main", "function"):
        for loop in (False, True):
            for const in (True, False):
                for form in ("literal", "dyn"):
                    for t in ("INT", "BOOL", "FLOAT", "RUNE", "STR", "&INT"):
                        for exported in ((False, True) if func == "main" and t == "INT" else (False,)):
                            one_variable(ctx, P, func, loop, const, form, t, exported)


def one_variable(ctx, P, func, loop, const, form, t, exported):
    X = Vars(P, func, loop)
    G = X.G
    S, E, st = G.S, G.E, G.S.st
    sym, var = X.var("x", t, const, exported)
    what = "%s %s of type %s initialised with a %s value in %s%s" % (
        "exported" if exported else "local" if func != "main" else "module-level",
        "constant" if const else "mutable variable", NAMES[t], "constant" if form == "literal" else "computed",
        "main" if func == "main" else "a function", " inside a loop" if loop else "")
    key = "var/%s/%s/%s/%s/%s%s" % (func, "loop" if loop else "once", "const" if const else "mut", form, t, "/exp" if exported else "")
    init, new = G.expr("init", t, form), G.expr("new", t, "dyn")
    rid = X.ident(sym, t)
    vd, va = X.vardef(sym, init), X.assign(sym, new)
    # a reference to it, and reads through the reference
    reft = "&" + t
    steps = [("gen_tree", vd, None), ("gen_expr", rid, "read1")]
    if not const:
        steps += [("gen_tree", va, None), ("gen_expr", rid, "read2")]
    refs = []
    if not t.startswith("&") or func != "main":
        for rconst in (True, False):
            rs, rv = X.var("r%d" % rconst, reft, rconst)
            rexp = X.unary("EXPR_REF", X.ident(sym, t), reft)
            rd = X.vardef(rs, rexp)
            de = X.unary("EXPR_DEREF", X.ident(rs, reft), t)
            new2 = G.expr("newer%d" % rconst, t, "dyn")
            steps += [("gen_tree", rd, None), ("gen_expr", de, "deref%d" % rconst)]
            if not const:
                steps += [("gen_tree", X.assign(sym, new2), None), ("gen_expr", de, "deref%d.after" % rconst)]
    X.start()
    for fn, obj, read in steps:
        bad = X.step(fn, obj, read=read)
        for o in bad:
            ctx.violation(key + "/" + o.kind, "%s: generating it ends in %s (%s)" % (what, o.kind, where(E, o)))
        if bad:
            break
    ctx.used(E)
    ctx.count("variable_cases")
    ctx.count("paths", len(X.states))
    init_v, new_v = ("in", "init", form), ("in", "new", "dyn")
    for s, info in X.states:
        mem = Mem(s)
        n = len(mem.code)
        rounds = 2 if (loop or func != "main") else 1
        for r in range(rounds):
            want = {"read1": init_v}
            if not const:
                want["read2"] = new_v
            for rc in (1, 0):
                want["deref%d" % rc] = init_v if const else (new_v if rc else ("in", "newer1", "dyn"))
                want["deref%d.after" % rc] = ("in", "newer%d" % rc, "dyn")
            pos = 0
            for nm, (term, at, rt) in info.items():
                mem.run(pos, at)
                pos = at
                got = mem.resolve(term)
                w = want[nm]
                w = w + (r,) if w[2] == "dyn" else w
                if got != w:
                    ctx.violation(key + "/" + nm.split(".")[0].rstrip("01"), "%s: %s%s yields %s instead of %s" % (
                        what, {"read": "reading it", "dere": "reading it through a reference"}[nm[:4]],
                        " the second time round" if r else "", show(got), show(w)))
                if rt != t:
                    ctx.violation(key + "/type", "%s: reading it gives a value labelled %s" % (what, rt))
            mem.run(pos, n)
            mem.again()
        for p in mem.bad[:1]:
            ctx.violation(key + "/address", "%s: the emitted code reads or writes memory at %s, which is no address" % (what, show(p)))
        # loads and slots have the variable's machine type
        for b, i in mem.code:
            if i[0] in ("load", "alloca"):
                ty = i[-1][1] if type(i[-1]) is tuple else i[-1]
                if ty not in (LLTY[t], "ptr"):
                    ctx.violation(key + "/llty", "%s: %s of type %s instead of %s" % (what, i[0], ty, LLTY[t]))
        g = s.props.get(("gvar", 0))
        if func == "main":
            if g is None:
                ctx.violation(key + "/global", "%s: no global is created, so other functions cannot see it" % what)
            else:
                if g != (("obj", "x.link"), LLTY[t]):
                    ctx.violation(key + "/global", "%s: global is named %s with type %s" % (what, show(g[0]), g[1]))
                lk = s.props.get(("linkage", ("gvar", 0)), 0)
                if (lk == 0) != exported:
                    ctx.violation(key + "/linkage", "%s: the symbol is %s" % (what, "visible to other modules" if lk == 0 else "not exported"))
                iv = s.props.get(("init", ("gvar", 0)))
                if iv is None or not (iv == ("in", "init", "literal") or iv == ("const", LLTY[t], 0)):
                    ctx.violation(key + "/init", "%s: the global's static initialiser is %s" % (what, show(iv)))


def cross_function(ctx):
    """a module-level variable read or assigned inside another function"""
    P = ctx.P
    for const in (True, False):
        for form in ("literal", "dyn"):
            X = Vars(P, "main", False)
            G = X.G
            S, E, st = G.S, G.E, G.S.st
            sym, var = X.var("x", "INT", const)
            init = G.expr("init", "INT", form)
            rid = X.ident(sym, "INT")
            fd = S.new("FunctionDeclaration", "otherfd", ref=G.L.v(("fn", "other")))
            other = S.new("Symbol", "other", func=S.ptr(fd), type=P.enum("SYMBOL_FUNC"))
            va = X.assign(sym, G.expr("new", "INT", "dyn"))
            vd = X.vardef(sym, init)
            X.start()
            bad = X.step("gen_tree", vd)
            for s, i in X.states:
                E.put(s, G.state, "SkullStateLLVM", "current_func", S.ptr(other))
                s.props["bb"] = s.props[("entry", ("fn", "other"))] = ("bb", "otherentry", ("fn", "other"))
            bad += X.step("gen_expr", rid, read="read1")
            if not const:
                bad += X.step("gen_tree", va)
                bad += X.step("gen_expr", rid, read="read2")
            ctx.used(E)
            ctx.count("variable_cases")
            key = "xfunc/%s/%s" % ("const" if const else "mut", form)
            for o in bad:
                ctx.violation(key, "module-level variable used in a function: %s" % o.kind)
            for s, info in X.states:
                mem = Mem(s)
                pos = 0
                for nm, w in (("read1", ("in", "init", form)), ("read2", ("in", "new", "dyn"))):
                    if nm not in info:
                        continue
                    term, at, rt = info[nm]
                    mem.run(pos, at)
                    pos = at
                    # a value computed in main is not available in another function: it has to come from memory
                    if form == "dyn" and not (type(term) is tuple and term[0] == "ins"):
                        ctx.violation(key, "a module-level variable read in a function is %s, a value of another function" % show(term))
                    got = mem.resolve(term)
                    w = w + (0,) if w[2] == "dyn" else w
                    if got != w:
                        ctx.violation(key, "a module-level variable read in a function yields %s instead of %s" % (show(got), show(w)))


# ------------------------------------------------------------ storage
def programs():
    """where a statement that needs storage can stand in a loop"""
    for d in ("mut", "ref", "refdef", "noop", "assignref", "cond"):
        for shape in (("while", "D"), ("while", ("if", "D")), ("while", ("else", "D")), ("while", ("elif", "D")), ("while", ("while", "D")),
                      ("if", ("while", "D")), ("ns", ("while", "D")), ("while", ("ns", "D")), ("while", ("ifbreak", "D")),
                      ("while", ("after", "D"))):
            yield d, shape


class Quiet:
    """what debug information says is not judged here"""

    def violation(self, key, text):
        pass

    require = count = violation


class Store(Vars):
    """a function whose body contains loops"""

    def __init__(self, P, func, debug):
        self.G = Gen(P, func=func, debug=debug)
        self.P = P
        G = self.G
        G.E.recursion = G.rec
        G.E.rec_limit["*"] = 12
        G.E.models["gen_expr"] = G.m_expr
        self.n = 0
        self.inner = {}
        self.states = []

    def scopes(self, nodes, parent):
        """the scopes semantic analysis leaves for the blocks of a list: one before, between and after them"""
        S, E = self.G.S, self.G.E
        blocks = [self.inner[n] for n in nodes if n in self.inner]
        chain = []
        for i in range(len(blocks) + 1):
            c = S.new("Scope", "scope", parent=parent if i == 0 else 0, last=S.ptr(chain[-1]) if i else 0, next=0, child=0)
            if i:
                E.put(S.st, ("p", chain[-1], 0), "Scope", "next", S.ptr(c))
            chain.append(c)
        for c, b in zip(chain, blocks):
            E.put(S.st, ("p", c, 0), "Scope", "child", S.ptr(self.scopes(b, S.ptr(c))))
        return chain[0]

    def list(self, nodes):
        S, E = self.G.S, self.G.E
        for a, b in zip(nodes, nodes[1:]):
            E.put(S.st, ("p", a, 0), "AstNode", "next", S.ptr(b))
            E.put(S.st, ("p", b, 0), "AstNode", "last", S.ptr(a))
        return nodes[0]

    def block(self, kind, nodes, **kw):
        n = self.stmt(kind, **kw)
        S, E = self.G.S, self.G.E
        E.put(S.st, ("p", n, 0), "AstNode", "child", S.ptr(self.list(nodes)))
        self.inner[n] = nodes
        return n

    def cond(self):
        self.n += 1
        return self.G.S.ptr(self.G.expr("c%d" % self.n, "BOOL"))

    def build(self, shape, d):
        """-> nodes"""
        if shape == "D":
            return self.needs(d)
        k, inner = shape
        b = self.build(inner, d)
        if k == "while":
            return [self.block("AST_NODE_WHILE", b, expr=self.cond())]
        if k == "if":
            return [self.block("AST_NODE_IF", b, expr=self.cond())]
        if k == "else":
            return [self.block("AST_NODE_IF", [self.stmt("AST_NODE_NOOP")], expr=self.cond()), self.block("AST_NODE_ELSE", b)]
        if k == "elif":
            return [self.block("AST_NODE_IF", [self.stmt("AST_NODE_NOOP")], expr=self.cond()), self.block("AST_NODE_ELIF", b, expr=self.cond())]
        if k == "ns":
            return [self.block("AST_NODE_NAMESPACE", b)]
        if k == "ifbreak":
            return [self.block("AST_NODE_IF", [self.stmt("AST_NODE_BREAK")], expr=self.cond())] + b
        if k == "after":
            return [self.block("AST_NODE_WHILE", [self.stmt("AST_NODE_NOOP")], expr=self.cond())] + b
        raise KeyError(k)

    def needs(self, d):
        """statements that need storage"""
        G, S = self.G, self.G.S
        if d == "noop":
            return [self.stmt("AST_NODE_NOOP")]
        if d == "mut":
            out = []
            for t, form in (("INT", "dyn"), ("STR", "literal")):
                sym, v = self.var("m" + t, t, False)
                out.append(self.vardef(sym, G.expr("i" + t, t, form)))
            return out
        k, kv = self.var("k", "INT", True)
        G.E.put(S.st, ("p", kv, 0), "Variable", "ref", G.L.v(("param", S.st.props["infn"], 0)))
        ref = self.unary("EXPR_REF", self.ident(k, "INT"), "&INT")
        if d == "ref":
            fd = S.new("FunctionDeclaration", "gd", num_params=1, return_type=S.T("VOID"), ref=G.L.v(("fn", "g")), type=G.L.v(("fnty", "g")))
            sym = S.new("Symbol", "gs", func=S.ptr(fd), type=self.P.enum("SYMBOL_FUNC"))
            arg = S.new("AstNode", "arg", expr=S.ptr(ref), next=0)
            fc = S.new("AstNodeFunctionCall", "fc", func_name_tok=S.ptr(S.new("Token", "t")), symbol=S.ptr(sym), num_values=1,
                       params=S.ptr(arg))
            e = S.new("AstNodeExpr", "e", oper=self.P.enum("EXPR_FUNC"), type=S.T("VOID"), lhs__func_call=S.ptr(fc))
            return [self.stmt("AST_NODE_EXPR", expr=S.ptr(e))]
        if d == "cond":
            return [self.block("AST_NODE_WHILE", [self.stmt("AST_NODE_COMMENT")], expr=S.ptr(ref))]
        r, rv = self.var("r", "&INT", d == "refdef")
        if d == "refdef":
            return [self.vardef(r, ref)]
        G.E.put(S.st, ("p", rv, 0), "Variable", "ref", G.L.v(("place", "r")))
        return [self.assign(r, ref)]


def storage(ctx):
    """a call of a function takes its stack space once, whatever loops it runs"""
    ctx.rule = ("Loops containing each construct that needs stack space (mutable variables, addresses of constants, the markers of -g) at "
                "every position (directly, in branches, nested loops, namespaces, after a break or another loop) are pushed through "
                "gen_tree with the real code for every nested block; in the emitted block graph no stack allocation may stand in a block "
                "that can reach itself.")
    ctx.assumptions = ["an alloca executed again takes new stack space, which is released when the function returns (LLVM language reference)"]
    P = ctx.P
    found = 0
    for func in ("function", "main"):
        for debug in (0, 1):
            for d, shape in programs():
                if func == "main" and d not in ("noop", "mut"):
                    continue
                X = Store(P, func, debug)
                G, E = X.G, X.G.E
                if debug:
                    from checks.debuginfo import D
                    D(Quiet(), G, debug)
                nodes = X.build(shape, d)
                top = X.scopes(nodes, 0)
                E.put(G.S.st, G.sem, "SemanticState", "scope", G.S.ptr(top))
                outs = G.run("gen_tree", [G.S.ptr(X.list(nodes)), G.S.ptr(G.state)])
                ctx.used(E)
                what = "%s in %s%s (%s)" % ({"mut": "mutable variables", "ref": "an argument that is a reference to a constant", "refdef": "a constant reference",
                                           "noop": "a block without statements", "assignref": "an assigned reference", "cond": "a reference in a condition"}[d],
                                          "main" if func == "main" else "a function", " with -g" if debug else "", str(shape).replace("'", ""))
                ctx.require(outs, "no path for " + what)
                for o in outs:
                    ctx.count("paths")
                    if o.kind != "ret":
                        ctx.violation("storage/" + o.kind, "%s: generation ends in %s (%s)" % (what, o.kind, where(E, o)))
                        continue
                    edges, allocs = {}, []
                    for bb, i in G.L.code(o.state):
                        if i[0] == "br":
                            edges.setdefault(bb, set()).add(i[1])
                        elif i[0] == "condbr":
                            edges.setdefault(bb, set()).update(i[2:4])
                        elif i[0] == "alloca":
                            allocs.append(bb)
                            found += 1
                    if not any(b in reach(edges, b) for b in edges):
                        ctx.violation("storage/loop", "%s: no loop is generated" % what)
                    for bb in allocs:
                        if bb in reach(edges, bb):
                            ctx.violation("storage/%s/%s%s" % (d, func, "/g" if debug else ""),
                                          "%s: each iteration takes stack space that is not released before the function returns" % what)
    ctx.count("allocations", found)
    ctx.require(found, "no allocation was generated")


def reach(edges, b):
    seen, todo = set(), list(edges.get(b, ()))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += edges.get(x, ())
    return seen


def variables(ctx):
    """variables, constants and references hold the value the program gave them"""
    ctx.rule = ("Sequences define / read / assign / read / take a reference / read through it / assign again / read through "
                "it are pushed through the generator functions (main or function, inside or outside a loop, constant or mutable, "
                "static or computed initialiser, all types, debug information on or off); the emitted loads and stores "
                "are interpreted over an abstract memory, twice where the code can run twice, and each read must "
                "yield the value most recently given to the variable.")
    ctx.assumptions = ["LLVM's load, store, alloca and global variables behave as documented",
                       "a function or loop body is straight-line between the definition and its uses (joins are covered by the control-flow property)"]
    variables_(ctx)
    cross_function(ctx)


CHECKS = {"C12": expressions, "C14": variables, "C32": storage}
