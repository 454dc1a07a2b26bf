"""Verdicts and diagnostics agree; warnings are errors exactly with --werror; context is restored."""
from absint import Outcome
from models import ret
from sem import ALLT, Sem, explained, fail, where
from stmt import KINDS, Case, short
from checks import operators as ops
from checks.statements import (accepted, keyof, body, runs, same, sit_flow, sit_func, sit_misc, sit_return, sit_vars, tagged)

ALLSIT = (sit_vars, sit_flow, sit_return, sit_func, sit_misc)


# ---------------------------------------------------------------- every verdict of the semantic analyser
def verdicts(ctx):
    """yield (key, label, engine, outcome, accepted?) for every analysed path of the semantic analyser"""
    P = ctx.P
    for c in runs(ctx, *ALLSIT):
        for o in c.outs:
            if o.kind == "ret":
                yield "stmt:" + keyof(c), c.label(), c.E, o, verdict(c.E, o)
    for op in ops.SPEC:
        kind = ops.SPEC[op][0]
        for lt in ALLT:
            for rt in ALLT:
                if kind == "un" and lt != "INT":
                    continue
                for form in ops.rhs_forms(rt):
                    S, outs, e, l, r = ops.analyse(P, op, lt, rt, form)
                    ctx.used(S.E)
                    ctx.count("operator_type_cases")
                    for o in outs:
                        if o.kind == "ret":
                            yield "expr:" + op, "`%s`" % ops.label(op, kind, lt, rt), S.E, o, verdict(S.E, o)
    for key, lab, S, outs in leaves(ctx):
        ctx.used(S.E)
        ctx.count("leaf_cases")
        for o in outs:
            if o.kind == "ret":
                yield key, lab, S.E, o, verdict(S.E, o)


def verdict(E, o):
    v = E.res(o.state, o.ret)
    if type(v) is int:
        return bool(v & 1) if v in (0, 1) else True
    if type(v) is tuple and v[0] == "p":
        return True
    return None


def leaves(ctx):
    P = ctx.P
    for tk in P.enums["TokenType"]:
        S = Sem(P)
        for n in ("eval_integer", "eval_float", "eval_rune"):
            P.func(n)
            S.E.models[n] = ops.eval_contract
        P.func("eval_str")
        S.E.models["eval_str"] = lambda E, st, a, i, f: [fail(E, st, 0)] + ops.S_str(E, st)
        tok = S.new("Token", "tok", type=P.enum(tk))
        e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_CONST"), lhs__tok=S.ptr(tok))
        if tk in ("TOKEN_INT_CONST", "TOKEN_FLOAT_CONST", "TOKEN_BOOL_CONST", "TOKEN_RUNE_CONST", "TOKEN_STR_CONST"):
            yield "literal", "a literal", S, S.run(P.func("validate_expr"), [S.ptr(S.state()), S.ptr(e)])
    S = Sem(P)
    S.contracts("scope_find_var", "token_to_type")
    e = S.new("AstNodeExpr", "expr", oper=P.enum("EXPR_IDENTIFIER"))
    yield "name", "a name in an expression", S, S.run(P.func("validate_expr"), [S.ptr(S.state()), S.ptr(e)])
    S = Sem(P)
    S.contracts("scope_find_name")
    tok = S.new("Token", "use")
    yield "lookup", "looking up a variable", S, S.run(P.func("scope_find_var"), [S.ptr(S.state()), S.ptr(tok)])
    # a call inside an expression
    for np in (0, 1, 2):
        c = Case(P, "AST_NODE_EXPR")
        S, E, st = c.S, c.E, c.S.st
        S.types = ["BOOL", "INT", "VOID"]
        call = S.new("AstNodeFunctionCall", "call", num_values=np)
        E.put(st, c.expr, "AstNodeExpr", "oper", P.enum("EXPR_FUNC"))
        E.put(st, c.expr, "AstNodeExpr", "lhs.func_call", S.ptr(call))
        prev = None
        first = None
        for i in range(max(np, 1)):
            a = S.new("AstNode", "arg%d" % i, next=0)
            if np:
                E.put(st, a, "AstNode", "expr", S.ptr(S.new("AstNodeExpr", "arg%d.expr" % i)))
            else:
                E.put(st, a, "AstNode", "token", 0)
            if prev:
                E.put(st, prev, "AstNode", "next", S.ptr(a))
            first = first or a
            prev = a
        E.put(st, call, "AstNodeFunctionCall", "params", S.ptr(first))
        del E.models["validate_expr"]
        me = c.m_expr

        def rec(E, st, fn, args, me=me):
            if fn.src == "validate_expr":
                return me(E, st, args, None, None)
            return None
        E.recursion = rec
        yield "call", "a call with %d arguments" % np, S, S.run(P.func("validate_expr"), [S.ptr(c.state), S.ptr(c.expr)])
    # module import
    S = Sem(P)
    E, st = S.E, S.st
    err = ("p", E.new_obj(st, "lazy", "errno", 4, "u"), 0)
    E.models["__errno_location"] = lambda E, st, a, i, f: ret(st, err)
    for n in ("open", "openat"):
        def op(E, st, a, i, f):
            bad = st.fork()
            E.store_cell(bad, err[1], 0, 4, E.fresh_nn(bad))
            bad.props["oserr"] = 1
            v = E.fresh(st, lo=3, hi=1000)
            return [Outcome("ret", bad, (1 << 32) - 1), Outcome("ret", st, v)]
        E.models[n] = op
    for n in ("strrchr", "strlen", "strncpy", "close"):
        E.models[n] = lambda E, st, a, i, f: ret(st, E.fresh(st)) if "id" in i else ret(st)
    n = S.new("AstNode", "import", type=P.enum("AST_NODE_IMPORT"))
    yield "import", "an import", S, S.run(P.func("validate_stmt_import"), [S.ptr(n)])
    # unused symbols: one list of each shape
    for kind in KINDS:
        for child in (False, True):
            S = Sem(P)
            n, nxt = unused_case(P, S, kind, child)
            yield "unused", "unused-symbol check of a `%s` statement" % short(kind), S, S.run(P.func("check_unused_symbols"), [S.ptr(n)])
    # assert_sane_child and blocks
    for child in (False, True):
        c = Case(P, "AST_NODE_VAR_DEF", child=child)
        del c.E.models["setup_and_validate_ast_sub_tree"]
        yield "block", "a block", c.S, c.S.run(P.func("setup_and_validate_ast_sub_tree"), [c.S.ptr(c.state), c.S.ptr(c.node)])
    # redeclaration
    for new in ("SYMBOL_VAR", "SYMBOL_FUNC", "SYMBOL_ALIAS", "SYMBOL_NAMESPACE"):
        S = Sem(P)
        S.contracts("scope_find_name")
        S.E.models["find_builtin_type"] = lambda E, st, a, i, f: [Outcome("ret", st.fork(), 0), Outcome("ret", st, ("p", "@TYPE_INT", 0))]
        S.E.models["ht_add"] = lambda E, st, a, i, f: ret(st, 1)
        S.E.models["make_ht"] = lambda E, st, a, i, f: ret(st, ("p", E.new_obj(st, "alloc", "ht", None, 0, "HashTable", "newht"), 0))
        scope = S.new("Scope", "scope", parent=0, last=0)
        sym = S.new("Symbol", "newsym", name=S.ptr(S.new_str("text:new", 8)), type=P.enum(new))
        yield "declare", "declaring a symbol", S, S.run(P.func("scope_add_symbol"), [S.ptr(S.state(scope=S.ptr(scope))), S.ptr(sym)])


def unused_case(P, S, kind, child, nextkind="AST_NODE_VAR_DEF"):
    """node(kind) [child: var def] -> next: var def; variables and functions fully open"""
    E, st = S.E, S.st

    def mk(tag, kind):
        n = S.new("AstNode", tag, type=P.enum(kind), child=0, next=0)
        if kind == "AST_NODE_VAR_DEF":
            var = S.new("Variable", tag + ".var")
            sym = S.new("Symbol", tag + ".sym", var=S.ptr(var), type=P.enum("SYMBOL_VAR"))
            vd = S.new("AstNodeVarDef", tag + ".vd", symbol=S.ptr(sym))
            E.put(st, n, "AstNode", "var_def", S.ptr(vd))
        elif kind == "AST_NODE_FUNCTION_PROTO":
            fn = S.new("FunctionDeclaration", tag + ".fn")
            sym = S.new("Symbol", tag + ".sym", func=S.ptr(fn), type=P.enum("SYMBOL_FUNC"))
            fp = S.new("AstNodeFunctionProto", tag + ".fp", symbol=S.ptr(sym))
            E.put(st, n, "AstNode", "func_proto", S.ptr(fp))
        return n
    n = mk("n", kind)
    if child:
        E.put(st, n, "AstNode", "child", S.ptr(mk("c", "AST_NODE_VAR_DEF")))
    nxt = mk("x", nextkind)
    E.put(st, n, "AstNode", "next", S.ptr(nxt))
    E.rec_limit["*"] = 4
    return n, nxt


# ---------------------------------------------------------------- C03, C04, C05
def explained_rejection(ctx):
    """nothing is rejected without a reason"""
    ctx.rule = ("On every path of the semantic analyser that rejects (over all statement, expression, lookup, declaration, "
                "import and unused-symbol cases) an error diagnostic was issued, or a warning while --werror is on. "
                "Callee failures obey the same rule (induction).")
    n = 0
    for key, lab, E, o, v in verdicts(ctx):
        if v is False:
            n += 1
            if not explained(E, o.state):
                ctx.violation("silent:%s" % key, "%s is rejected without any diagnostic; path ends at %s" % (lab, where(E, o)))
        elif v is None:
            ctx.violation("undecided:%s" % key, "%s: verdict undetermined" % lab)
    ctx.count("rejecting_paths", n)
    ctx.require(n, "no rejecting path")


LISTED = {"AST_NODE_WHILE": "se", "AST_NODE_IF": "se", "AST_NODE_ELIF": "se", "AST_NODE_ELSE": "s", "AST_NODE_VAR_ASSIGN": "e",
          "AST_NODE_VAR_DEF": "e", "AST_NODE_RETURN": "e", "AST_NODE_NAMESPACE": "s", "AST_NODE_FUNCTION_PROTO": "s"}


def S_expr(c):
    return c.S.ptr(c.S.new("AstNodeExpr", "bodyexpr"))


def error_fails(ctx):
    """an issued error always makes the compilation fail"""
    ctx.rule = ("On every accepting path of the semantic analyser no error diagnostic was issued and no callee failed, and "
                "every statement of a two-statement list, and every block, was visited.")
    P = ctx.P
    n = 0
    for key, lab, E, o, v in verdicts(ctx):
        if v is True:
            n += 1
            if o.state.props.get("err"):
                ctx.violation("dropped:%s" % key, "%s is accepted although an error was reported or a part of it was rejected; path ends at %s" % (
                    lab, where(E, o)))
    ctx.count("accepting_paths", n)
    ctx.require(n, "no accepting path")
    # every statement in a list is visited
    for k in KINDS:
        if k in ("AST_NODE_RETURN", "AST_NODE_BREAK", "AST_NODE_CONTINUE", "AST_NODE_UNREACHABLE"):
            continue
        child = k in ("AST_NODE_IF", "AST_NODE_ELIF", "AST_NODE_ELSE", "AST_NODE_WHILE", "AST_NODE_NAMESPACE", "AST_NODE_FUNCTION_PROTO")
        if k == "AST_NODE_EXPR":
            continue
        nexts = [(n,) for n in LISTED] + [("AST_NODE_COMMENT", "AST_NODE_WHILE"), ("AST_NODE_VAR_ASSIGN", "AST_NODE_IF", "AST_NODE_WHILE")]
        for n in nexts:
            if n[0] in ("AST_NODE_ELIF", "AST_NODE_ELSE") and k not in ("AST_NODE_IF", "AST_NODE_ELIF"):
                continue
            c = Case(P, k, child=child, nexts=n, next_child=True,
                     lasts=("AST_NODE_IF",) if k in ("AST_NODE_ELIF", "AST_NODE_ELSE") else (), rtok=False)
            c.S.types = ["BOOL", "INT"]
            E, st = c.E, c.S.st
            protos = ([c.node] if k == "AST_NODE_FUNCTION_PROTO" else []) + [x for x, q in zip(c.nextnodes, n) if q == "AST_NODE_FUNCTION_PROTO"]
            for x in protos:
                b = E.res(st, E.get(st, x, "AstNode", "child"))
                E.put(st, b, "AstNode", "type", P.enum("AST_NODE_RETURN"))
                E.put(st, b, "AstNode", "expr", S_expr(c))
                E.put(st, b, "AstNode", "next", 0)
                fp = E.res(st, E.get(st, x, "AstNode", "func_proto"))
                E.put(st, fp, "AstNodeFunctionProto", "return_type_token", c.S.ptr(c.tok("rt")))
            E.rec_limit["*"] = 6
            c.run()
            ctx.used(E)
            hit = 0
            for st in accepted(c):
                hit += 1
                ctx.count("list_paths")
                subs = [e[1] for e in c.events(st, "sub")]
                ex = [e[1] for e in c.events(st, "expr")]
                un = [e[1] for e in c.events(st, "unused")]
                for i, q in enumerate(n):
                    alias = q == "AST_NODE_VAR_DEF" and c.events(st, "add")
                    bad = q in LISTED and "s" in LISTED[q] and "next%d.child" % i not in subs
                    bad = bad or q in LISTED and "e" in LISTED[q] and "next%d.expr" % i not in ex and not alias
                    if bad:
                        ctx.violation("list:" + short(k) + (":" + short(q) if q != "AST_NODE_WHILE" else ""),
                                      "a `%s` statement following a `%s` statement is not validated" % (short(q), short(k)))
                if un[:1] != ["n"]:
                    ctx.violation("list:unused", "a statement list is accepted without the unused-symbol check starting at its first statement")
            ctx.require(hit, "no accepting list for %s, %s" % (k, n))


def werror(ctx):
    """warnings fail the compilation exactly with --werror"""
    ctx.rule = ("On every path that issued a warning and no error, the verdict is rejection when --werror is known to be on and "
                "acceptance when it is known to be off; a path that issued a warning without consulting --werror is a violation. "
                "Lookup, declaration, operator, statement, unused-symbol and tokenizer warnings are covered.")
    P = ctx.P
    n = 0
    W = P.field("BuildData", "werror")
    for key, lab, E, o, v in verdicts(ctx):
        st = o.state
        if not st.props.get("warn") or st.props.get("err"):
            continue
        n += 1
        w = E.res(st, E.get(st, ("p", "@BUILD_DATA", 0), "BuildData", "werror"))
        if w == 1 and v is True:
            ctx.violation("ignored:" + key, "%s: a warning does not fail the compilation under --werror" % lab)
        elif w == 0 and v is False:
            ctx.violation("promoted:" + key, "%s: a warning fails the compilation without --werror" % lab)
        elif w not in (0, 1):
            ctx.violation("unaware:" + key, "%s: a warning is issued without consulting --werror" % lab)
    # byte order mark
    S = Sem(P)
    E, st = S.E, S.st
    src = S.new_str("src", 8)
    E.store_cell(st, src, 0, 4, 0xFEFF)
    E.store_cell(st, src, 4, 4, 0)
    outs = S.run(P.func("tokenize"), [S.ptr(src)])
    ctx.used(E)
    for o in outs:
        st = o.state
        if o.kind != "ret":
            ctx.violation("bom:" + o.kind, "tokenizing a lone byte order mark may end in %s" % o.kind)
            continue
        v = E.res(st, o.ret) != 0
        w = E.res(st, E.get(st, ("p", "@BUILD_DATA", 0), "BuildData", "werror"))
        n += 1
        if not st.props.get("warn"):
            ctx.violation("bom:quiet", "a byte order mark is not warned about")
        elif w not in (0, 1) or v != (w == 0):
            ctx.violation("bom:verdict", "a byte order mark %s with --werror %s" % ("passes" if v else "fails", w))
    ctx.count("warning_paths", n)
    ctx.require(n > 5, "warnings vanished")


# ---------------------------------------------------------------- C11
def sit_followed(P):
    """statements with blocks of their own, followed by each kind of statement"""
    after = [k for k in KINDS if k not in ("AST_NODE_UNKNOWN", "AST_NODE_VAR_DEF", "AST_NODE_BREAK", "AST_NODE_CONTINUE", "AST_NODE_RETURN", "AST_NODE_EXPR")]

    def small(c):
        c.S.types = ["BOOL", "INT"]
        E, st = c.E, c.S.st
        for x, k in zip(c.nextnodes, c.cfg["nexts"]):
            if k == "AST_NODE_FUNCTION_PROTO":
                b = E.res(st, E.get(st, x, "AstNode", "child"))
                E.put(st, b, "AstNode", "type", P.enum("AST_NODE_NOOP"))
                E.put(st, b, "AstNode", "next", 0)
                E.put(st, E.res(st, E.get(st, x, "AstNode", "func_proto")), "AstNodeFunctionProto", "return_type_token", 0)
        return c
    for k in after:
        for me in ("AST_NODE_WHILE", "AST_NODE_IF", "AST_NODE_NAMESPACE"):
            c = Case(P, me, child=True, nexts=(k,), next_child=True, depth=1, top=False, func="f", rtype="BOOL")
            yield small(c)
        for lead in (None, "TOKEN_KW_EXTERNAL"):
            c = Case(P, "AST_NODE_FUNCTION_PROTO", lead=lead, nexts=(k,), next_child=True, rtok=False)
            yield small(body(c, "no return") if not lead else c)


def context(ctx):
    """each statement leaves the context as it found it"""
    ctx.rule = ("On every accepting path over one statement, the loop depth, the enclosing function and the current scope's "
                "visibility are what they were before the statement (a block's own scope is left; loops and functions "
                "restore what they set).")
    P = ctx.P
    from checks.names import chain
    n = 0
    for c in runs(ctx, sit_followed, *ALLSIT):
        E = c.E
        for st in accepted(c):
            n += 1
            if not same(c, st, c.statef(st, "while_loop_depth"), c.depth) is True:
                ctx.violation("depth:" + keyof(c), "%s changes the loop depth seen by the statements after it" % c.label())
            if not same(c, st, c.statef(st, "current_func"), c.S.ptr(c.cur)) is True:
                ctx.violation("func:" + keyof(c), "%s changes the function the statements after it belong to" % c.label())
            if not same(c, st, c.statef(st, "main_func"), c.S.ptr(c.main)) is True:
                ctx.violation("main:" + keyof(c), "%s changes the main function" % c.label())
    ctx.count("accepting_paths", n)
    ctx.require(n, "no accepting path")


CHECKS = {"C03": explained_rejection, "C04": error_fails, "C05": werror, "C11": context}
