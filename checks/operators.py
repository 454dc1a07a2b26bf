"""Operator typing: which operands an operator accepts, and what type it yields."""
from absint import Outcome
from sem import ALLT as BASET, NAMES, Sem, explained, where, fail

ALLT = BASET + ["&&INT"]
NUM = {"INT", "FLOAT"}
BOOL = {"BOOL"}
INT = {"INT"}
VALUES = set(ALLT) - {"VOID"}
# operator -> (kind, operand types accepted, result: "same" | "BOOL" | "ref" | "inner")
SPEC = {
    "EXPR_ADD": ("bin", NUM, "same"), "EXPR_SUB": ("bin", NUM, "same"), "EXPR_MULT": ("bin", NUM, "same"),
    "EXPR_DIV": ("bin", NUM, "same"), "EXPR_MOD": ("bin", NUM, "same"), "EXPR_POW": ("bin", NUM, "same"),
    "EXPR_LSHIFT": ("bin", INT, "same"), "EXPR_RSHIFT": ("bin", INT, "same"),
    "EXPR_LESS_THAN": ("bin", NUM, "BOOL"), "EXPR_GTR_THAN": ("bin", NUM, "BOOL"),
    "EXPR_LESS_THAN_EQ": ("bin", NUM, "BOOL"), "EXPR_GTR_THAN_EQ": ("bin", NUM, "BOOL"),
    "EXPR_AND": ("bin", BOOL, "BOOL"), "EXPR_OR": ("bin", BOOL, "BOOL"), "EXPR_XOR": ("bin", BOOL, "BOOL"),
    "EXPR_IS": ("bin", VALUES, "BOOL"), "EXPR_ISNT": ("bin", VALUES, "BOOL"),
    "EXPR_NOT": ("un", BOOL, "BOOL"), "EXPR_UNARY_NEG": ("un", NUM, "same"),
    "EXPR_REF": ("un", None, "ref"), "EXPR_DEREF": ("un", {"&INT", "&BOOL", "&&INT"}, "inner"),
}
LEAF = {"EXPR_UNKNOWN", "EXPR_IDENTIFIER", "EXPR_CONST", "EXPR_FUNC"}
PRETTY = {"EXPR_ADD": "+", "EXPR_SUB": "-", "EXPR_MULT": "*", "EXPR_DIV": "/", "EXPR_MOD": "mod", "EXPR_POW": "^",
          "EXPR_LSHIFT": "<<", "EXPR_RSHIFT": ">>", "EXPR_LESS_THAN": "<", "EXPR_GTR_THAN": ">",
          "EXPR_LESS_THAN_EQ": "<=", "EXPR_GTR_THAN_EQ": ">=", "EXPR_IS": "is", "EXPR_ISNT": "isnt",
          "EXPR_AND": "and", "EXPR_OR": "or", "EXPR_XOR": "xor", "EXPR_NOT": "not", "EXPR_UNARY_NEG": "unary -",
          "EXPR_REF": "unary &", "EXPR_DEREF": "unary *"}


def eval_contract(E, st, a, ins, fr):
    """literal evaluators: a value, or *err set together with an error diagnostic"""
    f = fail(E, st, E.fresh(st))
    p = E.res(f.state, a[1])
    E.store_cell(f.state, p[1], p[2], 1, 1)
    f.state.props["badlit"] = 1
    z, n = st.fork(), st.fork()
    n.props["nz"] = 1
    return [f, Outcome("ret", z, 0), Outcome("ret", n, E.fresh_nn(n))]


LIT = {"INT": "TOKEN_INT_CONST", "FLOAT": "TOKEN_FLOAT_CONST", "BOOL": "TOKEN_BOOL_CONST",
       "RUNE": "TOKEN_RUNE_CONST", "STR": "TOKEN_STR_CONST"}


def rhs_forms(t):
    """syntactic forms the right operand can have when its type is t"""
    f = ["name", "compound"]
    if t == "INT":
        f += ["zero", "nonzero"]
    elif t in LIT:
        f += ["literal"]
    return f


def analyse(P, op, lt, rt, form, consts=None):
    """all outcomes of validating `lhs op rhs` with operand types lt, rt"""
    S = Sem(P)
    E, st = S.E, S.st
    state = S.state()
    l = S.new("AstNodeExpr", "lhs")
    r = S.new("AstNodeExpr", "rhs")
    e = S.new("AstNodeExpr", "expr", oper=P.enum(op), lhs__expr=S.ptr(l), rhs=S.ptr(r))
    tok = S.new("Token", "rhstok")
    val = None
    if form == "name":
        E.put(st, r, "AstNodeExpr", "oper", P.enum("EXPR_IDENTIFIER"))
    elif form == "compound":
        E.put(st, r, "AstNodeExpr", "oper",
              E.fresh(st, ne=frozenset([P.enum("EXPR_IDENTIFIER"), P.enum("EXPR_CONST"), P.enum("EXPR_UNKNOWN")])))
    else:
        E.put(st, r, "AstNodeExpr", "oper", P.enum("EXPR_CONST"))
        E.put(st, r, "AstNodeExpr", "lhs.tok", S.ptr(tok))
        E.put(st, tok, "Token", "type", P.enum(LIT[rt]))
        val = 0 if form == "zero" else E.fresh_nn(st)

    def lit(E, st, a, ins, fr):
        # the operand was validated already: evaluating its token again cannot fail
        o = E.robj(st, E.res(st, a[0]))[0]
        if o == tok:
            return [Outcome("ret", st, val)]
        return eval_contract(E, st, a, ins, fr)
    E.models["eval_integer"] = lit
    E.models["eval_float"] = eval_contract

    def rec(E, st, fn, args):
        if fn.src != "validate_expr":
            return None
        a = E.res(st, args[1])
        o = E.robj(st, a)[0]
        if o not in (l, r):
            return [Outcome("stop", st)]
        s = st.fork()
        E.put(s, o, "AstNodeExpr", "type", S.T(lt if o == l else rt))
        if consts:
            E.put(s, o, "AstNodeExpr", "is_const_expr", consts[0 if o == l else 1])
        if o == r and form in ("zero", "nonzero"):
            E.put(s, o, "AstNodeExpr", "value._int", val)
        s.props["seen"] = tuple(sorted(s.props.get("seen", ()) + ("lhs" if o == l else "rhs",)))
        f = fail(E, st, 0)
        f.state.props["operand_failed"] = 1
        return [f, Outcome("ret", s, 1)]
    E.recursion = rec
    outs = S.run(P.func("validate_expr"), [S.ptr(state), S.ptr(e)])
    return S, outs, e, l, r


def cases(ctx, each):
    P = ctx.P
    ops = [o for o in P.enums["ExprType"] if o not in LEAF]
    for o in ops:
        ctx.require(o in SPEC, "operator %s is not covered by the typing table" % o)
    ctx.require(len(ops) == len(SPEC), "operators vanished: %s" % (set(SPEC) - set(ops)))
    for op in ops:
        kind = SPEC[op][0]
        for lt in (ALLT if kind == "bin" else ["INT"]):
            for rt in ALLT:
                for form in rhs_forms(rt):
                    S, outs, e, l, r = analyse(P, op, lt, rt, form)
                    ctx.used(S.E)
                    ctx.count("operator_type_cases")
                    ctx.count("paths", len(outs))
                    ctx.require(outs, "no outcome for %s" % op)
                    each(op, kind, lt, rt, form, S, outs, e, l, r)


def label(op, kind, lt, rt):
    return ("%s %s %s" % (NAMES[lt], PRETTY[op], NAMES[rt])) if kind == "bin" else "%s %s" % (PRETTY[op], NAMES[rt])


def acceptance(ctx):
    """operands accepted by each operator are exactly those the language allows"""
    ctx.rule = ("For every operator and every pair of operand types, all paths of expression validation are "
                "enumerated by abstract interpretation (operand validation replaced by its contract); the accepting "
                "paths must be exactly the pairs in the language's operator table, with both operands validated "
                "first; integer division/modulo by a literal zero, references to non-identifiers and operands "
                "that failed are rejected.")
    ctx.assumptions = ["operand sub-expressions obey the same contract (induction over expression depth)",
                       "two reference types stand for all reference types"]
    P = ctx.P

    def each(op, kind, lt, rt, form, S, outs, e, l, r):
        E = S.E
        want_t = SPEC[op][1]
        lab = label(op, kind, lt, rt)
        legal = (kind == "un" or lt == rt) and (want_t is None or rt in want_t)
        if op in ("EXPR_REF", "EXPR_DEREF") and form != "name":
            legal = False
        if op in ("EXPR_DIV", "EXPR_MOD") and form == "zero":
            legal = False
        if form not in ("compound",):
            lab += " (right operand a %s)" % form
        need = ("lhs", "rhs") if kind == "bin" else ("rhs",)
        any_ok = False
        for o in outs:
            if o.kind in ("stop",):
                continue
            if o.kind != "ret":
                ctx.violation("%s:%s" % (op, o.kind), "%s: validating %s may end in %s" % (where(E, o), lab, o.kind))
                continue
            st = o.state
            rv = E.res(st, o.ret)
            if rv == 1:
                any_ok = True
                if not legal:
                    ctx.violation("accept:%s:%s:%s" % (op, "%s,%s" % (lt, rt) if kind == "bin" else rt, form),
                                  "validate_expr accepts `%s` on a path through %s" % (lab, " > ".join(sorted(f for f in E.stat_funcs))))
                if st.props.get("operand_failed"):
                    ctx.violation("operand:%s" % op, "`%s` accepted although an operand was rejected" % lab)
                for n in need:
                    if n not in st.props.get("seen", ()):
                        ctx.violation("unchecked:%s:%s" % (op, n), "`%s` accepted without validating its %s" % (lab, n))
            elif rv == 0:
                if legal and not st.props.get("operand_failed"):
                    ctx.violation("reject:%s:%s" % (op, rt), "validate_expr rejects `%s`, which the language allows" % lab)
            else:
                ctx.violation("undecided:%s" % op, "result of validating `%s` is not a definite verdict" % lab)
        if legal and not any_ok:
            ctx.violation("reject:%s:%s" % (op, rt), "validate_expr has no accepting path for `%s`" % lab)
        ctx.count("legal_pairs", 1 if legal else 0)

    cases(ctx, each)


def result_types(ctx):
    """the type an accepted expression carries"""
    ctx.rule = ("On every accepting path of expression validation, for every operator and operand type, the type "
                "recorded on the expression is the one the language gives: operand type for arithmetic and shifts, "
                "Bool for logic and comparison, &T for references, T for dereferences; a literal has the type of "
                "its token kind, a name the type of its variable, a call the return type of its function.")
    P = ctx.P

    def each(op, kind, lt, rt, form, S, outs, e, l, r):
        E = S.E
        legal = (kind == "un" or lt == rt) and (SPEC[op][1] is None or rt in SPEC[op][1])
        legal = legal and (form == "name" or op not in ("EXPR_REF", "EXPR_DEREF"))
        if not legal:
            return
        for o in outs:
            if o.kind == "ret" and E.res(o.state, o.ret) == 1:
                st = o.state
                t = E.res(st, E.get(st, e, "AstNodeExpr", "type"))
                want = SPEC[op][2]
                if want == "same":
                    ok = t == S.T(rt)
                elif want == "BOOL":
                    ok = t == S.T("BOOL")
                elif want == "inner":
                    ok = t == S.T(rt[1:])
                else:
                    ok = type(t) is tuple and t[0] == "p" and t[2] == 0 and t[1] in st.meta and \
                        st.meta[t[1]].typ == "Type" and E.res(st, E.get(st, t, "Type", "inner")) == S.T(rt)
                ctx.count("accepting_paths")
                if not ok:
                    ctx.violation("type:%s:%s" % (op, rt), "`%s` gets type %s" % (label(op, kind, lt, rt), S.tname(st, t) or t))
    cases(ctx, each)

    references(ctx)

    # literals
    lit = {"TOKEN_INT_CONST": "INT", "TOKEN_FLOAT_CONST": "FLOAT", "TOKEN_BOOL_CONST": "BOOL",
           "TOKEN_RUNE_CONST": "RUNE", "TOKEN_STR_CONST": "STR"}
    for tk in P.enums["TokenType"]:
        S = Sem(P)
        E = S.E
        for n in ("eval_integer", "eval_float", "eval_rune"):
            E.models[n] = eval_contract
        E.models["eval_str"] = lambda E, st, a, i, f: [fail(E, st, 0)] + S_str(E, st)
        tok = S.new("Token", "tok", type=P.enum(tk))
        e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_CONST"), lhs__tok=S.ptr(tok))
        outs = S.run(P.func("validate_expr"), [S.ptr(S.state()), S.ptr(e)])
        ctx.used(E)
        ctx.count("literal_cases")
        acc = 0
        for o in outs:
            if o.kind != "ret":
                ctx.violation("lit:%s:%s" % (tk, o.kind), "validating a %s literal may end in %s" % (tk, o.kind))
                continue
            rv = E.res(o.state, o.ret)
            if rv not in (0, 1):
                rv = 1
            if rv:
                acc += 1
                t = S.tname(o.state, E.get(o.state, e, "AstNodeExpr", "type"))
                if tk not in lit:
                    ctx.violation("lit:%s" % tk, "a %s token is accepted as a literal" % tk)
                elif t != lit[tk]:
                    ctx.violation("lit:%s" % tk, "literal token %s gets type %s" % (tk, t))
                if o.state.props.get("badlit") or o.state.props.get("err"):
                    ctx.violation("badlit:%s" % tk, "literal %s accepted although its value was rejected" % tk)
        if tk in lit and not acc:
            ctx.violation("lit:%s" % tk, "literal token %s is never accepted" % tk)

    # names
    for t in ALLT:
        S = Sem(P)
        E = S.E

        def found(E, st, a, i, f, S=S, t=t):
            outs = S.m_scope_find_var(E, st, a, i, f)
            for o in outs[1:]:
                E.put(o.state, o.state.props["foundvar"], "Variable", "type", S.T(t))
            return outs
        S.P.func("scope_find_var")
        E.models["scope_find_var"] = found
        e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_IDENTIFIER"))
        outs = S.run(P.func("validate_expr"), [S.ptr(S.state()), S.ptr(e)])
        ctx.used(E)
        ctx.count("name_cases")
        acc = 0
        for o in outs:
            if o.kind == "ret" and E.res(o.state, o.ret) == 1:
                acc += 1
                st = o.state
                if st.props.get("notfound"):
                    ctx.violation("name:undef", "an undefined name is accepted in an expression")
                    continue
                if S.tname(st, E.get(st, e, "AstNodeExpr", "type")) != t:
                    ctx.violation("name:type", "a name of type %s gets type %s" % (NAMES[t], S.tname(st, E.get(st, e, "AstNodeExpr", "type"))))
                if E.res(st, E.get(st, e, "AstNodeExpr", "symbol")) != E.res(st, st.props["found"]):
                    ctx.violation("name:symbol", "a name expression is not bound to the variable that was looked up")
        if not acc:
            ctx.violation("name:none", "no accepting path for a variable name of type %s" % NAMES[t])

    # calls
    for t in ALLT:
        S = Sem(P)
        E = S.E
        S.contracts("scope_find_name")
        fd = S.new("FunctionDeclaration", "fd", return_type=S.T(t), num_params=0)
        sym = S.new("Symbol", "fsym", func=S.ptr(fd), type=P.enum("SYMBOL_FUNC"))
        E.models["scope_find_name"] = lambda E, st, a, i, f, sym=sym: ret1(st, ("p", sym, 0))
        call = S.new("AstNodeFunctionCall", "call", num_values=0)
        e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_FUNC"), lhs__func_call=S.ptr(call))
        outs = S.run(P.func("validate_expr"), [S.ptr(S.state()), S.ptr(e)])
        ctx.used(E)
        ctx.count("call_cases")
        acc = 0
        for o in outs:
            if o.kind == "ret" and E.res(o.state, o.ret) == 1:
                acc += 1
                st = o.state
                if S.tname(st, E.get(st, e, "AstNodeExpr", "type")) != t:
                    ctx.violation("call:type", "a call of a function returning %s gets type %s" % (
                        NAMES[t], S.tname(st, E.get(st, e, "AstNodeExpr", "type"))))
                if E.res(st, E.get(st, call, "AstNodeFunctionCall", "symbol")) != ("p", sym, 0):
                    ctx.violation("call:symbol", "a call is not bound to the function that was looked up")
        if not acc:
            ctx.violation("call:none", "no accepting path for a call returning %s" % NAMES[t])


def references(ctx):
    """&T: one type per T, whatever was asked for before"""
    import itertools
    import cstr
    P = ctx.P
    base = ["INT", "FLOAT", "BOOL", "STR"]
    # a history of requests: a base type, or the result of an earlier request (by its number)
    hists = [(a, b, a) for a in base for b in base]
    hists += [(a, 0, b, a, 0) for a in base[:3] for b in base[:3]]
    hists += [(a, 0, 1, b, 0, 1, 3) for a in base[:2] for b in base[:2]]
    for h in hists:
        S = Sem(P)
        E, st = S.E, S.st
        cstr.install(E, st)
        E.models.pop("get_reference_type", None)
        E.sym_iters = E.k_dist = 99

        def make_ht(E, st, a, i, f):
            return ret1(st, ("p", E.new_obj(st, "alloc", "ht", None, 0, "HashTable", "ht"), 0))

        def key(E, st, v):
            t = cstr.text(E, st, v)
            return None if t is None or not all(type(c) is int for c in t) else bytes(t).decode()

        def ht_get(E, st, a, i, f):
            t, k = E.res(st, a[0]), key(E, st, a[1])
            if t == 0:
                return ret1(st, 0)
            if k is None:
                return ret1(st, E.fresh(st))
            return ret1(st, dict(st.props.get("ht", ())).get((t, k), 0))

        def ht_add(E, st, a, i, f):
            t, k, v = E.res(st, a[0]), key(E, st, a[1]), E.res(st, a[2])
            if k is None:
                return ret1(st, E.fresh(st))
            if t == 0 or v == 0 or (t, k) in dict(st.props.get("ht", ())):
                return ret1(st, 0)
            st.props["ht"] = st.props.get("ht", ()) + (((t, k), v),)
            return ret1(st, 1)
        for n, m in (("make_ht", make_ht), ("ht_get", ht_get), ("ht_add", ht_add)):
            P.func(n)
            E.models[n] = m
        sem = S.state(dynamic_refs=0)
        states = [(st, [])]
        for step in h:
            nxt = []
            for s, res in states:
                arg = res[step][0] if type(step) is int else S.T(step)
                name = "&" + (res[step][1] if type(step) is int else NAMES[step])
                for o in E.exec(s.fork(), P.func("get_reference_type"), [S.ptr(sem), arg]):
                    ctx.count("reference_paths")
                    if o.kind != "ret":
                        ctx.violation("ref:" + o.kind, "get_reference_type may end in %s" % o.kind)
                        continue
                    v = E.res(o.state, o.ret)
                    if type(v) is not tuple or v[0] != "p":
                        ctx.violation("ref:none", "get_reference_type yields no type for %s" % name[1:])
                        continue
                    if E.res(o.state, E.get(o.state, v, "Type", "inner")) != arg:
                        ctx.violation("ref:inner", "the reference type %s does not refer to %s" % (name, name[1:]))
                    if key(E, o.state, E.get(o.state, v, "Type", "name")) != name:
                        ctx.violation("ref:name", "the reference type %s is named %s" % (name, key(E, o.state, E.get(o.state, v, "Type", "name"))))
                    for w, n in res:
                        if (w == v) != (n == name):
                            ctx.violation("ref:identity", "%s and %s are %s type" % (n, name, "the same" if w == v else "not one"))
                    nxt.append((o.state, res + [(v, name)]))
            states = nxt
            ctx.require(states or ctx.viol, "no reference type outcome")
        ctx.used(E)
    S = Sem(P)
    S.E.models.pop("get_reference_type", None)
    for o in S.run(P.func("get_reference_type"), [S.ptr(S.state()), 0]):
        if o.kind != "ret" or S.E.res(o.state, o.ret) != 0:
            ctx.violation("ref:unknown", "a reference to an unknown type is a type")


def ret1(st, v):
    return [Outcome("ret", st, v)]


def S_str(E, st):
    from models import m_fresh_str
    return m_fresh_str(E, st.fork(), [], {}, None)


def constness(ctx):
    """an expression counts as constant only if everything in it is"""
    P = ctx.P
    n = 0

    def flag(E, st, e):
        return E.res(st, E.get(st, e, "AstNodeExpr", "is_const_expr"))
    for op, (kind, types, _) in SPEC.items():
        t = sorted(types)[0] if types else "INT"
        for a in ((0, 1) if kind == "bin" else (1,)):
            for b in (0, 1):
                if a and b:
                    continue
                S, outs, e, l, r = analyse(P, op, t, t, "name", (a, b))
                ctx.used(S.E)
                for o in outs:
                    if o.kind == "ret" and S.E.res(o.state, o.ret) == 1:
                        n += 1
                        ctx.count("const_cases")
                        if flag(S.E, o.state, e) != 0:
                            ctx.violation("const:" + op, "`%s` counts as a constant expression although an operand is not constant" % label(op, kind, t, t))
    for const in (0, 1):
        for init in (0, 1, None):
            if const and init:
                continue
            S = Sem(P)

            def found(E, st, a, i, f, S=S):
                outs = S.m_scope_find_var(E, st, a, i, f)
                for o in outs[1:]:
                    v = o.state.props["foundvar"]
                    x = E.obj(o.state, "AstNodeExpr", "init")
                    E.put(o.state, v, "Variable", "is_const", const)
                    E.put(o.state, v, "Variable", "expr", 0 if init is None else ("p", x, 0))
                    E.put(o.state, x, "AstNodeExpr", "is_const_expr", init or 0)
                return outs
            S.contracts("scope_find_var")
            S.E.models["scope_find_var"] = found
            e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_IDENTIFIER"), lhs__tok=S.ptr(S.new("Token", "t")), is_const_expr=0)
            for o in S.run(P.func("validate_expr"), [S.ptr(S.state()), S.ptr(e)]):
                if o.kind == "ret" and S.E.res(o.state, o.ret) == 1:
                    n += 1
                    ctx.count("const_cases")
                    if flag(S.E, o.state, e) != 0:
                        ctx.violation("const:name", "a %s counts as a constant expression" % (
                            "mutable variable" if not const else "parameter" if init is None else "constant with a value known only at run time"))
            ctx.used(S.E)
    from checks.statements import call_stmt
    for np in (0, 1):
        c = call_stmt(P, np)
        c.E.put(c.S.st, c.expr, "AstNodeExpr", "is_const_expr", 0)
        c.E.put(c.S.st, c.expr, "AstNodeExpr", "oper", P.enum("EXPR_FUNC"))
        for o in c.run():
            if o.kind == "ret" and c.E.res(o.state, o.ret) == 1:
                n += 1
                ctx.count("const_cases")
                if flag(c.E, o.state, c.expr) != 0:
                    ctx.violation("const:call", "a call counts as a constant expression")
        ctx.used(c.E)
    ctx.require(n > 30, "no accepting path")


CHECKS = {"C01": acceptance, "C02": result_types}
