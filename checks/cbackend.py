"""The C back end: the text it writes, read back as C."""
import json
import math
import os
import struct
import subprocess
import tempfile

import ctext
import cstr
import text
from absint import Outcome, Program
from extract import CLANG, OPT, AnalysisBroken, irdump_bin, run
from models import ret
from sem import Sem, where
from checks.operators import LEAF, PRETTY, SPEC, label

CTYPE = {"BOOL": ("bool", 0), "INT": ("int64_t", 0), "FLOAT": ("double", 0), "RUNE": ("char32_t", 0), "STR": ("char", 1), "VOID": ("void", 0),
         "&INT": ("int64_t", 1), "&BOOL": ("bool", 1)}
SAME = {"_Bool": "bool"}


class C:
    """one analysis of the C back end"""

    def __init__(self, P, debug=0):
        self.P = P
        S = self.S = Sem(P)
        E, st = self.E, self.st = S.E, S.st
        cstr.install(E, st)
        E.models["uvsnprintf"] = text.m_format
        E.models["strdup"] = text.m_strdup
        E.sym_iters = E.k_dist = 99
        E.rec_limit["*"] = 8
        E.put(st, ("p", "@BUILD_DATA", 0), "BuildData", "debug", debug)
        E.put(st, ("p", "@BUILD_DATA", 0), "BuildData", "filename", self.str("FILE"))
        r = E.exec(st, P.func("setup_c_state"), [0])
        if len(r) != 1 or r[0].kind != "ret":
            raise AnalysisBroken("setup_c_state")
        S.st = self.st = st = r[0].state
        self.state = r[0].ret

    def str(self, tag):
        return ("p", self.E.new_obj(self.st, "lazy", "harness", 64, "u", "#str", tag), 0)

    def m_expr(self, E, st, a, ins, fr):
        """contract of gen_expr_c (C17): a C unary expression for the expression it is given"""
        t = E.meta_tag(st, a[0])
        st.props["generated"] = st.props.get("generated", ()) + (t,)
        return ret(st, text.make(E, st, (("s", "e:%s" % t),)))

    def m_type(self, E, st, a, ins, fr):
        """contract of skull_type_to_c_type (C17)"""
        t = self.S.tname(st, a[0])
        return ret(st, text.make(E, st, (("s", "type:%s" % t),)))


def norm(e):
    """equivalent C expressions in one form"""
    if e is None:
        return None
    k = e[0]
    if k == "cast":
        if e[1][:2] in (("int64_t", 0), ("double", 0), ("bool", 0), ("_Bool", 0)):
            return norm(e[2])
        return (k, e[1], norm(e[2]))
    if k == "un":
        x = norm(e[2])
        if e[1] == "!":
            if x[0] == "un" and x[1] == "!":
                return x[2]
            if x[0] == "bin" and x[1] in ("==", "!="):
                return ("bin", "!=" if x[1] == "==" else "==") + x[2:]
        return (k, e[1], x)
    if k == "bin":
        l, r = norm(e[2]), norm(e[3])
        if e[1] == "==" and r in (("num", "0"), ("name", "false")):
            return norm(("un", "!", l))
        if e[1] == ">":
            return (k, "<", r, l)
        if e[1] == ">=":
            return (k, "<=", r, l)
        return (k, e[1], l, r)
    if k == "call":
        return (k, norm(e[1]), tuple(norm(x) for x in e[2]))
    return e


L, R = ("hole", "e:lhs"), ("hole", "e:rhs")


def b(op):
    return norm(("bin", op, L, R))


def call(name):
    return ("call", ("name", name), (L, R))


def expected(op, t):
    """-> acceptable trees, helper flag that has to be set"""
    f = t == "FLOAT"
    plain = {"EXPR_ADD": "+", "EXPR_SUB": "-", "EXPR_MULT": "*", "EXPR_DIV": "/", "EXPR_LSHIFT": "<<", "EXPR_LESS_THAN": "<", "EXPR_GTR_THAN": ">",
             "EXPR_LESS_THAN_EQ": "<=", "EXPR_GTR_THAN_EQ": ">="}
    if op in plain:
        return [b(plain[op])], None
    if op == "EXPR_RSHIFT":
        return [("bin", ">>", ("cast", ("uint64_t", 0, False), L), R)], None
    if op == "EXPR_MOD":
        return ([call("__builtin_fmod"), call("fmod")] if f else [b("%")]), None
    if op == "EXPR_POW":
        return ([call("_float_pow")], "called_float_pow") if f else ([call("_int_pow")], "called_int_pow")
    if op == "EXPR_AND":
        return [b("&")], None
    if op == "EXPR_OR":
        return [b("|")], None
    if op == "EXPR_XOR":
        return [b("^"), b("!=")], None
    if op in ("EXPR_IS", "EXPR_ISNT"):
        if t == "STR":
            c = call("_strcmp")
            return ([c] if op == "EXPR_IS" else [("un", "!", c)]), "called_strcmp"
        return [b("==" if op == "EXPR_IS" else "!=")], None
    if op == "EXPR_NOT":
        return [("un", "!", R)], None
    if op == "EXPR_UNARY_NEG":
        return [("un", "-", R)], None
    return None


def operators(ctx):
    P = ctx.P
    for op in P.enums["ExprType"]:
        if op in LEAF or op in ("EXPR_REF", "EXPR_DEREF"):
            continue
        ctx.require(op in SPEC, "operator %s has no rule" % op)
        kind, types, result = SPEC[op]
        for t in sorted(types):
            H = C(P)
            S, E, st = H.S, H.E, H.st
            E.models["gen_expr_c"] = H.m_expr
            rt = {"same": t, "bool": "BOOL", "int": "INT"}.get(result, t)
            leaf = [S.ptr(S.new("AstNodeExpr", x, type=S.T(t))) for x in ("lhs", "rhs")]
            e = S.new("AstNodeExpr", "expr", oper=P.enum(op), rhs=leaf[1], type=S.T(rt), lhs__expr=leaf[0] if kind == "bin" else 0)
            want, flag = expected(op, t)
            lab = "`%s` on %s" % (label(op, kind, t, t), t)
            judge(ctx, H, E, E.exec(st.fork(), P.func("gen_expr_c"), [S.ptr(e), H.state]), op, lab, want, flag, kind)
    for op, tag in (("EXPR_REF", "&"), ("EXPR_DEREF", "*")):
        H = C(P)
        S, E, st = H.S, H.E, H.st
        E.models["gen_expr_c"] = H.m_expr
        e = S.new("AstNodeExpr", "expr", oper=P.enum(op), lhs__expr=0, type=S.T("INT"),
                  rhs=S.ptr(S.new("AstNodeExpr", "rhs", oper=P.enum("EXPR_IDENTIFIER") if op == "EXPR_REF" else E.fresh(st))))
        if op == "EXPR_REF":        # the operand is always a name
            E.models["gen_expr_c"] = lambda E, st, a, i, f: ret(st, text.make(E, st, (("s", "name"),)))
        judge(ctx, H, E, E.exec(st.fork(), P.func("gen_expr_c"), [S.ptr(e), H.state]), op, "`%sx`" % tag,
              [("un", tag, ("hole", "name" if op == "EXPR_REF" else "e:rhs"))], None, "un")


def judge(ctx, H, E, outs, key, lab, want, flag, kind):
    ctx.used(E)
    ctx.count("operator_cases")
    ctx.require(outs, "no path for %s" % lab)
    for o in outs:
        if o.kind != "ret":
            ctx.violation(key + ":end", "%s: generation ends in %s at %s" % (lab, o.kind, where(E, o)))
            continue
        t = text.parts(E, o.state, o.ret)
        try:
            got = norm(ctext.expression(t))
        except ctext.Bad as e:
            ctx.violation(key + ":syntax", "%s is written as `%s`: %s" % (lab, text.show(t), e))
            continue
        if got not in want:
            lazy = {"EXPR_AND": "&&", "EXPR_OR": "||"}.get(key)
            if lazy and got == b(lazy):
                ctx.violation("lazy:" + key, "%s is written as `%s`, which does not evaluate its right operand when the left one decides" % (lab, text.show(t)))
            elif key == "EXPR_RSHIFT" and got == b(">>"):
                ctx.violation("shift:" + key, "%s is written as `%s`, which shifts in copies of the sign bit" % (lab, text.show(t)))
            else:
                ctx.violation(key + ":meaning", "%s is written as `%s`" % (lab, text.show(t)))
        for f in ("called_strcmp", "called_int_pow", "called_float_pow"):
            v = E.res(o.state, E.get(o.state, H.state, "SkullStateC", f))
            if (v == 1) != (f == flag) and (f == flag or v != 0):
                ctx.violation(key + ":helper", "%s: %s is %s afterwards" % (lab, f, "not set" if f == flag else "set"))


def leaves(ctx):
    P = ctx.P
    # names
    H = C(P)
    S, E, st = H.S, H.E, H.st
    var = S.new("Variable", "var", name=H.str("NAME"), linkage_name=H.str("LINK"))
    e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_IDENTIFIER"), symbol=S.ptr(S.new("Symbol", "sym", name=H.str("SYM"), var=S.ptr(var))))
    for o in E.exec(st.fork(), P.func("gen_expr_c"), [S.ptr(e), H.state]):
        ctx.used(E)
        ctx.count("leaf_cases")
        t = text.parts(E, o.state, o.ret) if o.kind == "ret" else o.kind
        if t not in ((("s", "NAME"),),):
            ctx.violation("name", "a name is written as `%s`, expected the variable's name" % text.show(t))
    # calls
    for n in (0, 1, 2, 3, 4):
        H = C(P)
        S, E, st = H.S, H.E, H.st
        E.models["gen_expr_c"] = H.m_expr
        fd = S.new("FunctionDeclaration", "fd", num_params=n)
        nxt = 0
        for i in reversed(range(n)):
            nxt = S.ptr(S.new("AstNode", "arg%d.node" % i, type=P.enum("AST_NODE_EXPR"), expr=S.ptr(S.new("AstNodeExpr", "arg%d" % i)), next=nxt))
        fc = S.new("AstNodeFunctionCall", "call", params=nxt, num_values=n, symbol=S.ptr(S.new("Symbol", "fsym", name=H.str("F"), linkage_name=H.str("LINK"), func=S.ptr(fd))))
        e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_FUNC"), lhs__func_call=S.ptr(fc))
        want = ("call", ("hole", "F"), tuple(("hole", "e:arg%d" % i) for i in range(n)))
        judge(ctx, H, E, E.exec(st.fork(), P.func("gen_expr_c"), [S.ptr(e), H.state]), "call", "a call with %d arguments" % n, [want], None, "call")
    # constants
    num = {"INT": "_int", "BOOL": "_bool", "RUNE": "rune"}
    for t, f in num.items():
        H = C(P)
        S, E, st = H.S, H.E, H.st
        e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_CONST"), type=S.T(t))
        v = E.get(st, e, "AstNodeExpr", "value." + f)
        for o in E.exec(st.fork(), P.func("gen_expr_c"), [S.ptr(e), H.state]):
            ctx.used(E)
            ctx.count("leaf_cases")
            if o.kind != "ret":
                ctx.violation("const:%s:end" % t, "writing a constant %s ends in %s" % (t, o.kind))
                continue
            p = text.parts(E, o.state, o.ret)
            try:
                got = ctext.expression(p)
            except ctext.Bad as x:
                ctx.violation("const:%s:syntax" % t, "a constant %s is written as `%s`: %s" % (t, text.show(p), x))
                continue
            x = E.res(o.state, v)
            c = E.con(o.state, x) if type(x) is tuple else None
            sh = "a constant %s%s is written as `%s`" % (t, " between %s and %s" % (c.lo, c.hi) if c and c.hi is not None else "", text.show(p))
            if t == "BOOL":
                if not (type(x) is int and got in (("num", str(x & 1)), ("name", "true" if x & 1 else "false"))):
                    ctx.violation("const:BOOL", sh)
            elif t == "RUNE":
                if got[0] != "n" or got[1][:2] not in (("hex", x), ("%u", x), ("%d", x)):
                    ctx.violation("const:RUNE", sh)
            else:
                if got[0] != "n" or got[1][1] != x or got[1][0] not in ("%li", "%ld", "%lli", "%lld"):
                    ctx.violation("const:INT", sh)
                elif "l" not in "".join(got[1][2:]).lower():
                    ctx.violation("const:INT:narrow", sh + ", an expression of type int")
    floats(ctx)
    strings(ctx)


def bits(f):
    return struct.unpack("<Q", struct.pack("<d", f))[0]


def value(e):
    """the bit pattern of a floating constant read back, None when it is not one"""
    if e[0] == "un" and e[1] in "+-":
        v = value(e[2])
        return None if v is None else v if e[1] == "+" else v ^ 1 << 63
    if e[0] == "num":
        w = e[1].lower()
        try:
            if "x" in w:
                return bits(float.fromhex(w)) if "p" in w else None
            return bits(float(w)) if "." in w or "e" in w else None
        except ValueError:
            return None
    if e[0] == "n":
        return e[1][1] if e[1][0] in ("%a", "%A", "%.17e", "%.17E") and len(e[1]) == 2 and type(e[1][1]) is int else None
    if e == ("call", ("name", "__builtin_inf"), ()) or e == ("call", ("name", "__builtin_huge_val"), ()):
        return bits(math.inf)
    if e[0] == "call" and e[1] == ("name", "__builtin_nan") and e[2] == (("str", ()),):
        return bits(math.nan)
    if e in (("name", "NAN"), ("name", "INFINITY")):
        return None             # the generated file includes no <math.h>
    return None


def floats(ctx):
    P = ctx.P
    for f in (0.0, -0.0, 1.0, 1.5, 0.1, -3.25, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, math.inf, -math.inf, math.nan):
        H = C(P)
        S, E, st = H.S, H.E, H.st
        e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_CONST"), type=S.T("FLOAT"))
        E.put(st, e, "AstNodeExpr", "value._float", bits(f))
        outs = E.exec(st.fork(), P.func("gen_expr_c"), [S.ptr(e), H.state])
        ctx.used(E)
        ctx.require(outs, "no path for the constant %r" % f)
        for o in outs:
            ctx.count("leaf_cases")
            if o.kind != "ret":
                ctx.violation("const:FLOAT:end", "writing the constant %r ends in %s" % (f, o.kind))
                continue
            p = text.parts(E, o.state, o.ret)
            try:
                got = value(ctext.expression(p))
            except ctext.Bad as x:
                ctx.violation("const:FLOAT:syntax", "the constant %r is written as `%s`: %s" % (f, text.show(p), x))
                continue
            if got is None and any(q[0] == "n" for q in p if not isinstance(q, str)) or got != bits(f) or \
                    ("n",) == tuple(q[0] for q in p if not isinstance(q, str)) and not math.isfinite(f):
                ctx.violation("const:FLOAT", "the constant %r is written as `%s`" % (f, text.show(p)))


def strings(ctx):
    P = ctx.P
    samples = [[], [65]] + [[97, c, 55] for c in range(1, 256)] + [[c] for c in (34, 92, 10, 37)] + [[92, 34, 92], [63, 63, 47], [37, 115, 37]]
    for chars in samples:
        H = C(P)
        S, E, st = H.S, H.E, H.st
        e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_CONST"), type=S.T("STR"))
        E.put(st, e, "AstNodeExpr", "value.str", ("p", cstr.make(E, st, chars), 0))
        outs = E.exec(st.fork(), P.func("gen_expr_c"), [S.ptr(e), H.state])
        ctx.used(E)
        lab = "the string constant with the bytes %s" % " ".join("%02x" % c for c in chars)
        ctx.require(outs, "no path for %s" % lab)
        for o in outs:
            ctx.count("string_cases")
            if o.kind != "ret":
                ctx.violation("const:STR:end", "%s: generation ends in %s at %s" % (lab, o.kind, where(E, o)))
                continue
            p = text.parts(E, o.state, o.ret)
            try:
                got = ctext.expression(p)
            except ctext.Bad as x:
                ctx.violation("const:STR:syntax", "%s is written as `%s`: %s" % (lab, text.show(p), x))
                continue
            if got[0] != "str" or [ord(c) for c in got[1]] != chars:
                ctx.violation("const:STR", "%s is written as `%s`" % (lab, text.show(p)))


def types(ctx):
    P = ctx.P
    H = C(P)
    S, E = H.S, H.E
    E.sym_iters = 99
    E.bounds = True
    cases = [(t, S.T(t)) for t in ("BOOL", "INT", "FLOAT", "RUNE", "STR", "VOID")]
    for t in ("BOOL", "INT", "FLOAT", "RUNE", "STR"):
        r = S.new("Type", "&" + t, name=H.str("&" + t), inner=S.T(t))
        cases.append(("&" + t, S.ptr(r)))
        cases.append(("&&" + t, S.ptr(S.new("Type", "&&" + t, name=H.str("&&" + t), inner=S.ptr(r)))))
    for t, v in cases:
        outs = E.exec(H.st.fork(), P.func("skull_type_to_c_type"), [v])
        ctx.used(E)
        ctx.require(outs, "no path for type %s" % t)
        base, stars = CTYPE[t.lstrip("&")]
        want = (base, stars + t.count("&"), False)
        for k, x in E.reports.items():
            ctx.violation("type:memory/%s/%s" % k[:2], "writing the C type of %s: %s" % (t, x))
        for o in outs:
            ctx.count("type_cases")
            if o.kind != "ret":
                ctx.violation("type:end", "the C type of %s: ends in %s at %s" % (t, o.kind, where(E, o)))
                continue
            p = text.parts(E, o.state, o.ret)
            try:
                r = ctext.Reader(p)
                got = r.type()
                if not r.end():
                    raise ctext.Bad("not a single type")
            except ctext.Bad as x:
                ctx.violation("type:syntax", "the C type of %s is written as `%s`: %s" % (t, text.show(p), x))
                continue
            if (SAME.get(got[0], got[0]),) + got[1:] != want:
                ctx.violation("type:%s" % t, "the C type of %s is written as `%s`" % (t, text.show(p)))


def expressions(ctx):
    """every expression is written as the C expression that means the same"""
    ctx.rule = ("gen_expr_c is analysed for every operator and operand type, names, calls with up to four arguments and constants; the text it returns is read back with C's grammar and precedence, its operands "
                "standing for arbitrary unary expressions, and has to be a single C operand that applies the operator's own operation to the operands in order")
    operators(ctx)
    leaves(ctx)
    types(ctx)



# ------------------------------------------------------------------ statements
LATER = ("alias", "cmt", "noop", "set", "retv")
CONSTANT = ("EXPR_CONST", "EXPR_ADD", "EXPR_UNARY_NEG", "EXPR_REF")


class Prog:
    """a program made of statements, and what its C text has to be"""

    def __init__(self, H):
        self.H, self.P, self.S = H, H.P, H.S
        self.n = 0
        self.globals = []

    def tag(self, k):
        self.n += 1
        return "%s%d" % (k, self.n)

    def expr(self, tag, **kw):
        return self.S.ptr(self.S.new("AstNodeExpr", tag, **kw))

    def node(self, typ, line, **kw):
        S, E, st = self.S, self.H.E, self.H.st
        tok = S.new("Token", self.tag("tok"))
        E.put(st, tok, "Token", "location.line", line)
        return S.new("AstNode", self.tag("n"), type=self.P.enum("AST_NODE_" + typ), token=S.ptr(tok), **kw)

    def var(self, t, ty, **kw):
        S = self.S
        v = S.new("Variable", t + ".var", name=self.H.str(t), linkage_name=self.H.str(t + ".link"), type=S.T(ty), **kw)
        return S.ptr(S.new("Symbol", t + ".sym", var=S.ptr(v), name=self.H.str(t + ".s"), linkage_name=self.H.str(t + ".slink")))

    def block(self, stmts, level):
        """-> (first node, expected statements)"""
        S, E, st = self.S, self.H.E, self.H.st
        nodes, want = [], []
        for s in stmts:
            nd, w = self.stmt(s, level)
            nodes.append(nd)
            want += w
        for a, b in zip(nodes, nodes[1:]):
            E.put(st, a, "AstNode", "next", S.ptr(b))
            E.put(st, b, "AstNode", "last", S.ptr(a))
        if nodes:
            E.put(st, nodes[-1], "AstNode", "next", 0)
            E.put(st, nodes[0], "AstNode", "last", 0)
        return (S.ptr(nodes[0]) if nodes else 0), want

    def stmt(self, s, level):
        S, P = self.S, self.P
        k = s[0]
        self.n += 1
        line = 100 + self.n
        if k == "def":
            o = dict(s[1]) if len(s) > 1 else {}
            t, ty = self.tag("v"), o.get("type", "INT")
            ce = o.get("const_expr", 0)
            e = self.expr("init." + t, is_const_expr=ce, oper=P.enum(o.get("oper", "EXPR_CONST" if ce else "EXPR_FUNC")), type=S.T(ty),
                          **({"lhs__expr": self.expr("lhs." + t, type=S.T("STR"))} if o.get("oper") == "EXPR_IS" else {}))
            sym = self.var(t, ty, is_const=o.get("const", 1), is_exported=o.get("export", 0), expr=e, is_global=int(level == "top"))
            nd = self.node("VAR_DEF", line, child=0, var_def=S.ptr(S.new("AstNodeVarDef", t + ".def", symbol=sym, expr=e, is_const=o.get("const", 1), is_exported=o.get("export", 0))))
            h = ("hole", "e:init." + t)
            if level != "top":
                return nd, [(("local", ty, bool(o.get("const", 1)), t, h), line)]
            self.globals.append(("global", ty, o, t, h))
            return nd, [(("init", t, h), line)]
        if k == "alias":
            return self.node("VAR_DEF", line, child=0, var_def=S.ptr(S.new("AstNodeVarDef", self.tag("alias"), symbol=0, expr=0))), []
        if k == "set":
            t = self.tag("w")
            sym = self.var(t, "INT", is_const=0)
            nd = self.node("VAR_ASSIGN", line, child=0, var_assign=S.ptr(S.new("AstNodeVarAssign", t + ".set", symbol=sym, expr=self.expr("val." + t))))
            return nd, [(("set", ("hole", t), ("hole", "e:val." + t)), line)]
        if k in ("ret", "retv", "call"):
            t = self.tag("e")
            e = 0 if k == "ret" else self.expr(t, oper=P.enum("EXPR_FUNC")) if k == "call" else self.expr(t)
            w = ("return", None) if k == "ret" else ("return" if k == "retv" else "expr", ("hole", "e:" + t))
            return self.node("EXPR" if k == "call" else "RETURN", line, child=0, expr=e), [(w, line)]
        if k in ("noop", "unr", "brk", "cont", "cmt"):
            nd = self.node({"noop": "NOOP", "unr": "UNREACHABLE", "brk": "BREAK", "cont": "CONTINUE", "cmt": "COMMENT"}[k], line, child=0, expr=0)
            return nd, {"unr": [(("unreachable",), line)], "brk": [(("break",), line)], "cont": [(("continue",), line)]}.get(k, [])
        if k in ("if", "elif", "while"):
            t = self.tag("cond")
            e = self.expr(t, type=S.T("BOOL"))
            first, want = self.block(s[1], "local")
            return self.node(k.upper(), line, child=first, expr=e), [((k, ("hole", "e:" + t), tuple(want)), line)]
        if k == "else":
            first, want = self.block(s[1], "local")
            return self.node("ELSE", line, child=first, expr=0), [(("else", tuple(want)), line)]
        if k == "ns":
            first, want = self.block(s[1], "local")
            return self.node("NAMESPACE", line, child=first, symbol=S.ptr(S.new("Symbol", self.tag("ns"), name=self.H.str(self.tag("nsname"))))), [(("block", tuple(want)), line)]
        if k == "fn":
            return self.function(s, line)
        raise AnalysisBroken(k)

    def function(self, s, line):
        S, E, st = self.S, self.H.E, self.H.st
        o = dict(s[1])
        t = self.tag("f")
        kind, n, rt = o.get("kind", "plain"), o.get("n", 0), o.get("ret", "VOID")
        fd = S.new("FunctionDeclaration", t + ".fd", num_params=n, return_type=S.T(rt), is_external=int(kind == "external"), is_export=int(kind == "export"))
        params = []
        arr = 0
        if n:
            arr = E.new_obj(st, "lazy", "harness", 8 * n, "u", None, t + ".params")
            for i in range(n):
                ty = ("INT", "BOOL", "STR")[i % 3]
                p = S.new("AstNodeFunctionParam", "%s.p%d" % (t, i), symbol=self.var("%s.a%d" % (t, i), ty, is_const=1))
                E.store_cell(st, arr, 8 * i, 8, S.ptr(p))
                params.append((ty, "%s.a%d" % (t, i)))
            arr = ("p", arr, 0)
        E.put(st, fd, "FunctionDeclaration", "params", arr)
        sym = S.new("Symbol", t + ".sym", name=self.H.str(t), linkage_name=self.H.str(t + ".link"), func=S.ptr(fd))
        first, want = self.block(s[2], "local") if kind != "external" else (0, [])
        nd = self.node("FUNCTION_PROTO", line, child=first, func_proto=S.ptr(S.new("AstNodeFunctionProto", t + ".proto", symbol=S.ptr(sym), num_params=n)))
        self.globals.append(("function", kind, rt, t, params, want, line))
        return nd, []


def bare(ty):
    return ty[:2]


def match(got, want, debug):
    """None, or what is wrong"""
    if len(got) != len(want):
        return "%d statements where %d belong" % (len(got), len(want))
    for (g, gl), (w, wl) in zip(got, want):
        k = w[0]
        bad = "a %s statement is written as %s" % (k, say(g))
        if k == "local":
            _, ty, const, t, h = w
            if g[0] != "var" or bare(g[2]) != (ty, 0) or g[3] != t or g[5] != h or g[4] or g[1] or g[2][2] and not const:
                return "the definition of a local variable is written as %s" % say(g)
        elif k == "unreachable":
            if not (g[0] == "while" and g[1] in (("num", "1"), ("name", "true")) and not g[2] or
                    g[0] == "expr" and g[1] in (("call", ("name", "__builtin_unreachable"), ()), ("call", ("name", "__builtin_trap"), ()))):
                return bad
        elif k in ("if", "elif", "while"):
            if g[0] != k or g[1] != w[1]:
                return bad
            r = match(g[2], w[2], debug)
            if r:
                return "in the body of %s: %s" % (k, r)
        elif k in ("else", "block"):
            if g[0] != k:
                return bad
            r = match(g[1], w[1], debug)
            if r:
                return "in the body of %s: %s" % ("else" if k == "else" else "a namespace", r)
        elif g != w:
            return bad
        if debug and not line_ok(gl, wl):
            return "a %s statement of line %d is marked %s" % (k, wl, gl)
        if not debug and gl:
            return "a #line directive without -g"
    return None


def line_ok(gl, wl):
    return gl is not None and gl[0] == str(wl) and gl[1] == '"FILE'


def say(g):
    return str(g)[:160]


def match_globals(got, want, debug):
    """-> what is wrong or None, and the names of the variables that are still to be initialised by the entry function"""
    got = list(got)
    late = set()
    i = 0
    for w in want:
        if w[0] == "global":
            _, ty, o, t, h = w
            lab = "the global variable %s" % {k: v for k, v in o.items()} if o else "a global variable"
            if i >= len(got):
                return "%s is not declared" % lab, late, None
            (g, gl), i = got[i], i + 1
            exp = bool(o.get("export"))
            if g[0] != "var" or bare(g[2]) != (ty, 0) or g[3] != t or g[1] == exp or g[4] != (t + ".link" if exp else None):
                return "%s is declared as %s" % (lab, say(g)), late, None
            if g[5] is None:
                late.add(t)
                if g[2][2]:
                    return "%s is const, but has no initialiser" % lab, late, None
            elif g[5] != h or g[2][2] and not o.get("const", 1):
                return "%s is declared as %s" % (lab, say(g)), late, None
            elif not o.get("const_expr"):
                return "%s has a static initialiser that is not a constant expression" % lab, late, None
            elif o.get("oper", "EXPR_CONST") not in CONSTANT:
                return "%s is initialised statically by %s, which is not a constant expression in C" % (lab, PRETTY.get(o["oper"], o["oper"])), late, "static-init:" + o["oper"]
        else:
            _, kind, rt, t, params, body, line = w
            lab = "%s function" % kind
            want_params = tuple(((p, 0), n) for p, n in params)
            first = None
            proto = False
            while i < len(got) and got[i][0][0] == "proto" and got[i][0][3] == t:
                g, gl = got[i]
                first = first or gl
                if bare(g[2]) != (rt, 0) or tuple((bare(a), b) for a, b in g[4]) != want_params or g[1] != (kind == "plain"):
                    return "the prototype of a %s is %s" % (lab, say(g)), late, None
                if kind == "export" and g[5] != t + ".link" or kind != "export" and g[5]:
                    return "the linkage name of a %s is %s" % (lab, g[5]), late, None
                proto = True
                i += 1
            if kind == "external":
                if not proto:
                    return "an external function is not declared", late, None
                continue
            if kind == "export" and not proto:
                return "an exported function has no linkage name", late, None
            if i >= len(got):
                return "a %s is not defined" % lab, late, None
            (g, gl), i = got[i], i + 1
            first = first or gl
            if g[0] != "func" or bare(g[2]) != (rt, 0) or g[3] != t or tuple((bare(a), b) for a, b in g[4]) != want_params or g[1] != (kind == "plain") or any(a[2] for a, _ in g[4]):
                return "a %s is defined as %s" % (lab, say(g)), late, None
            r = match(g[6], body, debug)
            if r:
                return "in the body of a function: %s" % r, late, None
            if debug and not line_ok(first, line):
                return "a function of line %d is marked %s" % (line, first), late, None
    if i < len(got):
        return "%s is declared without need" % say(got[i][0]), late, None
    return None, late, None


def resolve(want, late):
    """the initialisations left to the entry function"""
    out = []
    for w, l in want:
        if w[0] == "init":
            if w[1] in late:
                out.append((("set", ("hole", w[1]), w[2]), l))
        else:
            out.append((w, l))
    return out


def shape(prog):
    return "; ".join(s[0] + (" {%s}" % shape(s[-1]) if isinstance(s[-1], list) else " %s" % (s[1],) if len(s) > 1 and s[1] else "") for s in prog)


def programs():
    body = [("noop",)]
    small = [("def",), ("def", {"const": 0}), ("def", {"const_expr": 1}), ("def", {"const_expr": 1, "const": 0}), ("alias",), ("set",), ("ret",), ("retv",), ("call",), ("noop",), ("unr",), ("cmt",),
             ("if", body), ("if", []), ("while", body), ("while", []), ("ns", body), ("ns", []), ("fn", {}, body), ("fn", {}, [])]
    for ty in ("INT", "BOOL", "FLOAT", "RUNE", "STR", "&INT"):
        for c in (0, 1):
            yield [("def", {"type": ty, "const": c})]
            yield [("def", {"type": ty, "const": c, "const_expr": 1})]
            yield [("if", [("def", {"type": ty, "const": c})])]
        yield [("fn", {"ret": ty}, [("retv",)])]
    yield [("def", {"export": 1})]
    yield [("def", {"export": 1, "const_expr": 1})]
    yield [("call",), ("def", {"export": 1}), ("def", {"export": 1, "const_expr": 1}), ("def", {})]
    for op in ("EXPR_CONST", "EXPR_ADD", "EXPR_UNARY_NEG", "EXPR_REF", "EXPR_POW", "EXPR_DEREF", "EXPR_IDENTIFIER", "EXPR_IS"):
        yield [("def", {"const_expr": 1, "oper": op})]
    for kind in ("plain", "export", "external"):
        for n in (0, 1, 2, 3, 4):
            yield [("fn", {"kind": kind, "n": n, "ret": "INT"}, [("retv",)])]
            yield [("set",), ("fn", {"kind": kind, "n": n}, [("set",), ("call",)]), ("set",)]
    inner = small + [("brk",), ("cont",)]
    for wrap in (lambda b: [("if", b)], lambda b: [("while", b)], lambda b: [("ns", b)], lambda b: [("fn", {}, b)], lambda b: [("if", [("noop",)]), ("else", b)],
                 lambda b: [("if", [("call",)]), ("elif", b)], lambda b: [("fn", {}, [("fn", {}, b)])], lambda b: [("fn", {}, [("while", b)])], lambda b: [("while", [("fn", {}, b)])],
                 lambda b: [("ns", [("if", b)])], lambda b: [("ns", [("fn", {}, b)])]):
        for s in inner:
            yield wrap([s])
            yield [("def", {})] + wrap([s]) + [("def", {"const_expr": 1}), ("def", {})]
            yield wrap([("call",), s, ("def", {"const_expr": 1}), ("set",)])
    for a in small:
        for b in small:
            yield [a, b]
            yield [("fn", {}, [a, b]), b]
    for chain in ([("if", [("set",)]), ("elif", [("call",)]), ("else", [("noop",)])],
                  [("if", [("set",)]), ("elif", [("call",)]), ("elif", [("set",)]), ("else", [("call",)])],
                  [("if", [("set",)]), ("cmt",), ("elif", [("call",)]), ("cmt",), ("cmt",), ("else", [("noop",)])],
                  [("if", []), ("elif", []), ("else", [])],
                  [("if", [("if", [("set",)]), ("else", [("call",)])]), ("else", [("if", [("set",)])])],
                  [("while", [("if", [("brk",)]), ("elif", [("cont",)]), ("else", [("while", [("brk",), ("cont",)]), ("cont",)]), ("brk",)])]):
        yield chain
        yield [("call",)] + chain + [("call",)]
        yield [("fn", {}, chain)]
        yield chain + chain
    deep = [("set",)]
    for k in ("if", "while", "if", "while", "if", "while"):
        deep = [("call",), (k, deep), ("set",)]
    yield deep
    yield [("fn", {"n": 2}, [("def", {}), ("fn", {"n": 1}, [("def", {}), ("fn", {}, [("def", {"const_expr": 1})]), ("def", {})]), ("def", {})]), ("def", {})]


def namespaces(ctx):
    """members of a namespace are used outside of it"""
    P = ctx.P
    H = C(P)
    E = H.E
    E.models["gen_expr_c"] = H.m_expr
    E.models["skull_type_to_c_type"] = H.m_type
    G = Prog(H)
    first, want = G.block([("ns", [("def", {})]), ("call",)], "top")
    for o in E.exec(H.st.fork(), P.func("gen_module_c"), [first, H.state]):
        ctx.count("programs")
        if o.kind != "ret":
            continue
        try:
            t = ctext.statements(text.parts(E, o.state, E.get(o.state, H.state, "SkullStateC", "tree")))
        except ctext.Bad:
            continue
        if any(s[0] == "block" and any(x[0][0] == "var" for x in s[1]) for s, _ in t):
            ctx.violation("namespace:scope", "a variable of a namespace is declared inside a C block, where the statements after the namespace cannot see it")


# ------------------------------------------------------------------ the whole file
HELPERS = ("called_strcmp", "called_int_pow", "called_float_pow")
USES = {"called_strcmp": 'static int MARK_1(char *a) { return _strcmp(a, "b"); }', "called_int_pow": "static int64_t MARK_2(int64_t a) { return _int_pow(a, 3); }",
        "called_float_pow": "static double MARK_3(double a) { return _float_pow(a, 2.0); }"}
BASE = "static int64_t MARK_i = 1;\nstatic double MARK_d = 1.5;\nstatic char32_t MARK_c = 0x61;\nstatic char* MARK_s;\n"


def written(ctx, P, flags, debug, glob, tree):
    """[(kind, text of the file)] of write_file_c"""
    H = C(P, debug)
    S, E, st = H.S, H.E, H.st
    M = E.models
    f = ("p", E.new_obj(st, "lazy", "harness", 256, "u", None, "file"), 0)
    so = ("p", E.new_obj(st, "lazy", "harness", 256, "u", None, "stdout"), 0)
    if "stdout" in P.globals:
        E.store_cell(st, E.gobj(st, "stdout"), 0, 8, so)
    M["open_file"] = M["fopen"] = lambda E, st, a, i, fr: ret(st, f)
    M["get_new_filename"] = lambda E, st, a, i, fr: ret(st, ("p", cstr.make(E, st, [ord(c) for c in "o.c"]), 0))
    M["create_main_func_name"] = lambda E, st, a, i, fr: ret(st, ("p", cstr.make(E, st, [ord(c) for c in "MAIN"]), 0))
    for n in ("fclose", "fflush"):
        M[n] = lambda E, st, a, i, fr: ret(st, 0)

    def put(st, fv, t):
        if E.res(st, fv) == f:
            st.props["out"] = st.props.get("out", ()) + tuple(t)

    def m_fprintf(E, st, a, ins, fr):
        fmt = text.literal(E, st, a[1])
        try:
            put(st, a[0], (("s?", 0),) if fmt is None else text.render(E, st, fmt, a[2:]))
        except text.Fault as e:
            ctx.violation("file:format", str(e))
            return [Outcome("null", st, str(e))]
        return ret(st, E.fresh(st, lo=0))

    def m_fputs(E, st, a, ins, fr):
        put(st, a[1], text.parts(E, st, a[0]))
        return ret(st, E.fresh(st, lo=0))

    def m_fputc(E, st, a, ins, fr):
        c = E.res(st, a[0])
        put(st, a[1], (chr(c & 255),) if type(c) is int else (("s?", 0),))
        return ret(st, E.fresh(st, lo=0))

    def m_fwrite(E, st, a, ins, fr):
        n = [E.res(st, x) for x in a[1:3]]
        t = text.literal(E, st, a[0])
        put(st, a[3], (t[:n[0] * n[1]],) if t is not None and all(type(x) is int for x in n) else (("s?", 0),))
        return ret(st, n[1])
    M["fprintf"], M["fputs"], M["fwrite"] = m_fprintf, m_fputs, m_fwrite
    M["fputc"] = M["putc"] = m_fputc
    E.put(st, ("p", "@BUILD_DATA", 0), "BuildData", "filename", ("p", cstr.make(E, st, [ord(c) for c in "f.sk"]), 0))
    for h in HELPERS:
        E.put(st, H.state, "SkullStateC", h, int(h in flags))
    for k, v in (("globals", glob), ("tree", tree)):
        E.put(st, H.state, "SkullStateC", k, 0 if v is None else ("p", cstr.make(E, st, [ord(c) for c in v]), 0))
    outs = E.exec(st.fork(), P.func("write_file_c"), [("p", cstr.make(E, st, [ord(c) for c in "f.sk"]), 0), H.state])
    ctx.used(E)
    ctx.require(outs, "no path through write_file_c")
    r = []
    for o in outs:
        t = text.norm(o.state.props.get("out", ()))
        if not all(isinstance(x, str) for x in t):
            raise AnalysisBroken("the text written by write_file_c is not known: %s" % text.show(t))
        r.append((o, E, "".join(t)))
    return r


def accepted(src):
    """does C's grammar and type system accept the file? -> None or the complaint"""
    with tempfile.TemporaryDirectory(prefix="skull-c-") as d:
        fn = os.path.join(d, "a.c")
        open(fn, "w").write(src)
        p = subprocess.run([CLANG, "-std=gnu17", "-fsyntax-only", "-Werror=implicit-function-declaration", "-w", fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            return None
        return p.stdout.decode("utf-8", "replace").replace(fn, "file").split("\n")[0]


def whole(ctx):
    P = ctx.P
    sets = [tuple(h for i, h in enumerate(HELPERS) if n >> i & 1) for n in range(8)]
    for flags in sets:
        for debug in (0, 1):
            for tree in (None, "\tMARK_i = 2;\n\tMARK_d = 3.0;"):
                glob = "\n" + BASE + "\n".join(USES[h] for h in flags)
                for o, E, t in written(ctx, P, flags, debug, glob, tree):
                    ctx.count("files")
                    lab = "a file that needs %s%s" % (", ".join(h[7:] for h in flags) or "no helper", " with -g" if debug else "")
                    if o.kind != "ret":
                        ctx.violation("file:end", "%s: writing ends in %s at %s" % (lab, o.kind, where(E, o)))
                        continue
                    if t.count(glob.strip()) != 1 or tree and t.count(tree.strip()) != 1:
                        ctx.violation("file:parts", "%s: the declarations or statements of the program are not written exactly once" % lab)
                        continue
                    x = accepted(t)
                    if x:
                        ctx.violation("file:compile", "%s: a C compiler rejects it: %s" % (lab, x))
                        continue
                    rest = t[t.index(glob.strip()) + len(glob.strip()):]
                    try:
                        r = entry(ctext.statements((rest,)), tree, debug)
                    except ctext.Bad as e:
                        r = str(e)
                    if r:
                        ctx.violation("file:entry", "%s: %s" % (lab, r))
            if flags and not debug:
                continue
        for o, E, t in written(ctx, P, flags, 0, None, None):
            x = accepted(t)
            ctx.count("files")
            if x:
                ctx.violation("file:compile", "a file without declarations: a C compiler rejects it: %s" % x)
    ty = text.literal(*types_text(P, "BOOL"))
    for o, E, t in written(ctx, P, (), 0, BASE + "static %s MARK_b = 1;\nstatic %s *MARK_p = &MARK_b;" % (ty, ty), "\tMARK_i = 2;"):
        x = accepted(t)
        if x:
            ctx.violation("type:bool-header" if ty == "bool" else "file:compile", "a file with a Bool variable, written as `%s`: a C compiler rejects it: %s" % (ty, x))


def types_text(P, t):
    H = C(P)
    o = H.E.exec(H.st.fork(), P.func("skull_type_to_c_type"), [H.S.T(t)])
    if len(o) != 1 or o[0].kind != "ret":
        raise AnalysisBroken("C type of " + t)
    return H.E, o[0].state, o[0].ret


def entry(decls, tree, debug):
    """what follows the program's declarations: the entry function and main"""
    decls = [d for d, _ in decls]
    funcs = [d for d in decls if d[0] == "func"]
    protos = [d for d in decls if d[0] == "proto"]
    if len(funcs) != 2 or len(protos) + len(funcs) != len(decls):
        return "the end of the file is not the entry function and main: %s" % say(tuple(d[0] for d in decls))
    init, main = funcs
    link = [p[5] for p in protos if p[3] == init[3] and p[5]]
    if link != ["'MAIN"]:
        return "the entry function has the linkage name %s instead of the module's" % (link or "of its own")
    body = [s for s, _ in init[6]]
    want = [("set", ("name", "MARK_i"), ("num", "2")), ("set", ("name", "MARK_d"), ("num", "3.0"))] if tree else []
    if body != want + [("return", ("num", "0"))]:
        return "the entry function does not consist of the program's statements and `return 0`: %s" % say(tuple(body))
    if main[3] != "'main" or main[1] or main[2][:2] != ("int", 0) or [s for s, _ in main[6]] != [("return", ("call", ("name", init[3][1:]), ()))]:
        return "main does not return what the entry function returns: %s" % say(main)
    return None


# ------------------------------------------------------------------ runtime helpers
def compiled(src, suffix):
    with tempfile.TemporaryDirectory(prefix="skull-h-") as d:
        fn = os.path.join(d, "a." + suffix)
        open(fn, "w").write(src)
        if suffix == "c":
            run([CLANG, "-std=gnu17", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-c", "-emit-llvm", fn, "-o", fn + ".bc"])
            fn += ".bc"
        run([OPT, "-passes=mem2reg", fn, "-o", os.path.join(d, "s.bc")])
        data = json.loads(run([irdump_bin(), os.path.join(d, "s.bc")]))
    data["units"] = []
    return Program(data)


def helpers(ctx):
    """the helpers linked into programs compute string equality and powers"""
    ctx.rule = ("The helpers are taken from their two sources: the module skull/shim.ll that the LLVM back end links in, and the C text that write_file_c puts in front of the program. Both are translated to IR and interpreted "
                "abstractly: string comparison on all pairs of strings up to three bytes over an alphabet with and without the top bit, integer powers over bases and exponents whose power fits 64 bits, "
                "and float powers must pass both operands in order to pow")
    P = ctx.P
    (o, E, t), = written(ctx, P, HELPERS, 0, "int GLOB_MARK;", None)
    x = accepted(t)
    if x:
        ctx.violation("C:compile", "the C helpers: a C compiler rejects them: %s" % x)
    else:
        judge_helpers(ctx, compiled(t, "c"), "C", True)
    judge_helpers(ctx, compiled(P.data["shim_ll"], "ll"), "LLVM", False)


def judge_helpers(ctx, Q, who, ptr):
    from absint import Engine, State
    from models import base_models
    for n in ("_strcmp", "_int_pow"):
        if not Q.has(n):
            ctx.violation("%s:%s:missing" % (who, n), "%s back end: the helper %s is not defined" % (who, n))
            return

    def run_(fn, mk):
        M = base_models()
        E = Engine(Q, M)
        E.sym_iters = E.k_dist = 999
        st = State()
        r = E.exec(st, Q.func(fn), mk(E, st))
        ctx.used(E)
        return E, r
    import itertools as it
    words = [w for n in range(4) for w in it.product((0x61, 0x62, 0xE1), repeat=n)]
    for a in words:
        for b_ in words:
            if len(a) == len(b_) == 3 and a[0] != b_[0] and a[1] != b_[1]:
                continue
            E, outs = run_("_strcmp", lambda E, st: [("p", cstr.make(E, st, list(x)), 0) for x in (a, b_)])
            ctx.count("helper_cases")
            for o in outs:
                v = E.res(o.state, o.ret) if o.kind == "ret" else None
                if v != int(a == b_):
                    ctx.violation("%s:strcmp" % who, "%s back end: comparing the strings [%s] and [%s] gives %s" % (who, bytes(a).hex(" "), bytes(b_).hex(" "), v if o.kind == "ret" else o.kind))
    for base in (0, 1, -1, 2, -2, 3, -3, 7, 10, -10, 1 << 31, 3037000499, (1 << 62), -(1 << 63)):
        for ex in tuple(range(0, 8)) + (13, 18, 30, 39, 62):
            if not -(1 << 63) <= base ** ex < 1 << 63:
                continue
            E, outs = run_("_int_pow", lambda E, st: [base & (1 << 64) - 1, ex])
            ctx.count("helper_cases")
            for o in outs:
                v = E.res(o.state, o.ret) if o.kind == "ret" else None
                if v is None or type(v) is not int or (v - base ** ex) & (1 << 64) - 1:
                    ctx.violation("%s:int_pow" % who, "%s back end: %d ^ %d gives %s" % (who, base, ex, v if o.kind == "ret" else o.kind))
    if Q.has("_float_pow"):
        M = base_models()
        def m(E, st, a, ins, fr):
            st.props["pow"] = st.props.get("pow", ()) + (tuple(a),)
            return ret(st, ("t", "pow", a[0], a[1]))
        for n in ("pow", "llvm.pow.f64"):
            M[n] = m
        E = Engine(Q, M)
        st = State()
        args = [E.fresh(st), E.fresh(st)]
        for o in E.exec(st, Q.func("_float_pow"), args):
            ctx.count("helper_cases")
            if o.kind != "ret" or o.ret != ("t", "pow", args[0], args[1]):
                ctx.violation("%s:float_pow" % who, "%s back end: float powers are not pow of both operands in order" % who)
        ctx.used(E)
    else:
        g = Q.globals.get("_float_pow")
        ctx.count("helper_cases")
        if g is None:
            ctx.violation("%s:float_pow:missing" % who, "%s back end: the helper _float_pow is not defined" % who)
        elif not ptr:
            ctx.violation("%s:float_pow:variable" % who, "%s back end: _float_pow is called as a function, but is a variable" % who)
        elif g.get("init") != ["fn", "pow"]:
            ctx.violation("%s:float_pow" % who, "%s back end: _float_pow is not pow: %s" % (who, g.get("init")))


def depth(ctx):
    """a statement at any depth of nesting is written inside the program's memory, and means the same"""
    P = ctx.P
    for lvl in list(range(0, 140)) + [255, 256, 1023, 65535, 0x7FFFFFFF]:
        H = C(P, 0)
        E = H.E
        E.bounds = True
        G = Prog(H)
        first, want = G.block([("brk",)], "loop")
        E.put(H.st, H.state, "SkullStateC", "indent_lvl", lvl)
        outs = E.exec(H.st.fork(), P.func("gen_tree_c"), [first, H.state])
        ctx.used(E)
        ctx.count("depths")
        for k, x in E.reports.items():
            ctx.violation("depth:memory/%s/%s" % k[:2], "a statement nested %d blocks deep: %s" % (lvl, x))
        for o in outs:
            if o.kind != "ret":
                ctx.violation("depth:end", "a statement nested %d blocks deep: generation ends in %s at %s" % (lvl, o.kind, where(E, o)))
                continue
            t = text.parts(E, o.state, o.ret)
            try:
                r = match(ctext.statements(t), want, 0)
            except ctext.Bad as x:
                r = "`%s`: %s" % (text.show(t), x)
            if r:
                ctx.violation("depth:meaning", "a statement nested %d blocks deep: %s" % (lvl, r))


def statements(ctx):
    """every program is written as the C program that does the same"""
    ctx.rule = ("gen_module_c is analysed on programs made of every kind of statement alone, in pairs and inside every kind of block, with expressions, types and names standing for arbitrary ones; the text of the entry "
                "function and of the file scope is read back with C's grammar and compared, statement by statement, with what the program says")
    P = ctx.P
    namespaces(ctx)
    whole(ctx)
    depth(ctx)
    for debug in (0, 1):
        for prog in programs():
            if debug and len(prog) == 2 and len(prog[0]) < 3 and len(prog[1]) < 3 and (prog[0][0] in LATER or prog[1][0] in LATER):
                continue
            H = C(P, debug)
            E = H.E
            E.models["gen_expr_c"] = H.m_expr
            E.models["skull_type_to_c_type"] = H.m_type
            G = Prog(H)
            first, want = G.block(prog, "top")
            outs = E.exec(H.st.fork(), P.func("gen_module_c"), [first, H.state])
            ctx.used(E)
            ctx.count("programs")
            lab = "program `%s`%s" % (shape(prog), " with -g" if debug else "")
            ctx.require(outs, "no path for %s" % lab)
            for o in outs:
                if o.kind != "ret":
                    ctx.violation("stmt:end", "%s: generation ends in %s at %s" % (lab, o.kind, where(E, o)))
                    continue
                st = o.state
                tree, glob = (text.parts(E, st, E.get(st, H.state, "SkullStateC", f)) for f in ("tree", "globals"))
                if glob == (("null",),):
                    glob = ()
                if tree == (("null",),):
                    tree = ()
                try:
                    t, g = ctext.statements(tree), ctext.statements(glob)
                except ctext.Bad as x:
                    ctx.violation("stmt:syntax", "%s is written as `%s` in the entry function and `%s` outside: %s" % (lab, text.show(tree), text.show(glob), x))
                    continue
                r, late, key = match_globals(g, G.globals, debug)
                if r is None:
                    r = match(t, resolve(want, late), debug)
                if r:
                    ctx.violation(key or "stmt:meaning", "%s: %s" % (lab, r))


CHECKS = {"C17": expressions, "C18": statements, "C26": helpers}
