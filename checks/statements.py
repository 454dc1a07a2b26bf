"""Which statements the semantic analyser accepts, and what it records about them."""
from sem import NAMES, explained, where
from stmt import INERT, KINDS, Case, all3, dead_ok, short

ANY = "any"
BLOCK = ("AST_NODE_IF", "AST_NODE_ELIF", "AST_NODE_ELSE", "AST_NODE_WHILE", "AST_NODE_FUNCTION_PROTO",
         "AST_NODE_NAMESPACE")


# ---------------------------------------------------------------- situations
def sit_vars(P):
    for lead in (None, "TOKEN_KW_MUT", "TOKEN_KW_EXPORT"):
        for explicit in (False, True):
            yield Case(P, "AST_NODE_VAR_DEF", lead=lead, explicit=explicit)
    yield Case(P, "AST_NODE_VAR_DEF", child=True)
    yield Case(P, "AST_NODE_VAR_DEF", top=False, depth=1, func="f", rtype="BOOL")
    yield Case(P, "AST_NODE_VAR_ASSIGN")
    yield Case(P, "AST_NODE_VAR_ASSIGN", top=False, depth=1, func="f")
    yield Case(P, "AST_NODE_VAR_ASSIGN", child=True)


def sit_flow(P):
    for k in ("AST_NODE_IF", "AST_NODE_ELIF", "AST_NODE_ELSE", "AST_NODE_WHILE"):
        for child in (False, True):
            for depth in (0, 1):
                befores = [("AST_NODE_IF",)]
                if k in ("AST_NODE_ELIF", "AST_NODE_ELSE"):
                    befores = [()] + [(x,) for x in KINDS] + [("AST_NODE_COMMENT", x) for x in KINDS] + \
                        [("AST_NODE_COMMENT", "AST_NODE_COMMENT", x) for x in KINDS] + \
                        [("AST_NODE_COMMENT",) * 4 + ("AST_NODE_IF",), ("AST_NODE_COMMENT",) * 4, ("AST_NODE_NOOP", "AST_NODE_IF")]
                    if depth or not child:
                        befores = [(), ("AST_NODE_IF",), ("AST_NODE_NOOP",)]
                elif not depth:
                    befores = [(), ("AST_NODE_NOOP",)]
                for b in befores:
                    yield Case(P, k, child=child, lasts=b, depth=depth, top=not depth)
    for k in ("AST_NODE_BREAK", "AST_NODE_CONTINUE"):
        for depth in (0, 1):
            for child in (False, True):
                for n in nextcases() if not child else [()]:
                    yield Case(P, k, depth=depth, nexts=n, child=child, top=False)
    for n in nextcases():
        yield Case(P, "AST_NODE_UNREACHABLE", nexts=n)
    for k in ("AST_NODE_UNREACHABLE", "AST_NODE_COMMENT", "AST_NODE_NOOP", "AST_NODE_UNKNOWN", "AST_NODE_IMPORT"):
        for child in (False, True):
            yield Case(P, k, child=child)


def nextcases():
    real = [k for k in KINDS if k != "AST_NODE_UNKNOWN"]
    return [()] + [(k,) for k in real] + [(i, k) for i in INERT for k in real] + \
        [("AST_NODE_NOOP", "AST_NODE_UNREACHABLE", "AST_NODE_IMPORT"), ("AST_NODE_COMMENT",) * 3 + ("AST_NODE_RETURN",),
         ("AST_NODE_VAR_ASSIGN", "AST_NODE_COMMENT"), ("AST_NODE_UNREACHABLE", "AST_NODE_COMMENT", "AST_NODE_NOOP")]


def sit_return(P):
    for func, rts in (("main", ["INT"]), ("f", ["VOID", "INT", "BOOL", "&INT", "STR"])):
        for rt in rts:
            for expr in (False, True):
                for depth in (0, 1):
                    yield Case(P, "AST_NODE_RETURN", func=func, rtype=rt, expr=expr, depth=depth, top=(func == "main"))
    for n in nextcases():
        yield Case(P, "AST_NODE_RETURN", func="f", rtype="INT", nexts=n)
        yield Case(P, "AST_NODE_RETURN", func="f", rtype="VOID", expr=False, nexts=n)
    yield Case(P, "AST_NODE_RETURN", child=True)


BODIES = {
    "no return": ["AST_NODE_NOOP"],
    "return value": ["=RETURN"],
    "bare return": ["AST_NODE_RETURN"],
    "nested statements then return value": ["AST_NODE_IF", "AST_NODE_WHILE", "=RETURN"],
    "nested statements only": ["AST_NODE_IF", "AST_NODE_ELSE"],
    "unreachable": ["AST_NODE_UNREACHABLE"],
    "return value then comment": ["=RETURN", "AST_NODE_COMMENT"],
}


def body(c, name):
    """give the function a concrete top-level statement list"""
    S, E, st = c.S, c.E, c.S.st
    prev = None
    for i, k in enumerate(BODIES[name]):
        ret = k == "=RETURN"
        kk = "AST_NODE_RETURN" if ret else k
        n = S.new("AstNode", "n.child" if i == 0 else "n.body%d" % i, type=c.P.enum(kk))
        if kk == "AST_NODE_RETURN":
            E.put(st, n, "AstNode", "expr", S.ptr(S.new("AstNodeExpr", "retexpr")) if ret else 0)
        if i == 0:
            E.put(st, c.node, "AstNode", "child", S.ptr(n))
        else:
            E.put(st, prev, "AstNode", "next", S.ptr(n))
        E.put(st, n, "AstNode", "next", 0)
        prev = n
    c.body = name
    return c


def sit_func(P):
    for top in (True, False):
        for lead in (None, "TOKEN_KW_EXPORT", "TOKEN_KW_EXTERNAL"):
            for np in (0, 1, 2, 3):
                for rtok in (False, True):
                    if np >= 2 and not (rtok and top) or np == 3 and lead == "TOKEN_KW_EXPORT":
                        continue
                    c = Case(P, "AST_NODE_FUNCTION_PROTO", lead=lead, nparams=np, top=top, rtok=rtok,
                             depth=0 if top else 1, func="main" if top else "f")
                    if lead != "TOKEN_KW_EXTERNAL":
                        body(c, "return value" if rtok else "no return")
                    yield c
    for b in BODIES:
        for rtok in (False, True):
            yield body(Case(P, "AST_NODE_FUNCTION_PROTO", rtok=rtok), b)


def sit_misc(P):
    yield Case(P, "AST_NODE_NAMESPACE", child=True)
    yield Case(P, "AST_NODE_NAMESPACE", child=True, top=False, depth=1, func="f")
    for np in (0, 1, 2):
        yield call_stmt(P, np)
    yield call_stmt(P, 0, True)


def call_stmt(P, np, child=False):
    """an expression statement; when it is a call, one with np arguments"""
    c = Case(P, "AST_NODE_EXPR", nparams=np, child=child)
    S, E, st = c.S, c.E, c.S.st
    c.call = S.new("AstNodeFunctionCall", "call", num_values=np)
    E.put(st, c.expr, "AstNodeExpr", "lhs.func_call", S.ptr(c.call))
    c.args = []
    prev = None
    for i in range(np):
        a = S.new("AstNode", "arg%d" % i, next=0)
        ex = S.new("AstNodeExpr", "arg%d.expr" % i)
        E.put(st, a, "AstNode", "expr", S.ptr(ex))
        if prev is None:
            E.put(st, c.call, "AstNodeFunctionCall", "params", S.ptr(a))
        else:
            E.put(st, prev, "AstNode", "next", S.ptr(a))
        prev = a
        c.args.append(ex)
    if not np:
        a = S.new("AstNode", "noarg", token=0, next=0)
        E.put(st, c.call, "AstNodeFunctionCall", "params", S.ptr(a))
    return c


_memo = {}


def runs(ctx, *gens):
    """analyse each situation once per process"""
    P = ctx.P
    for g in gens:
        if g not in _memo:
            lst = []
            for c in g(P):
                c.E.rec_limit["*"] = 6
                c.run()
                lst.append(c)
            _memo[g] = lst
        for c in _memo[g]:
            ctx.used(c.E)
            ctx.count("situations")
            ctx.count("paths", len(c.outs))
            ctx.require(c.outs, "no outcome for " + c.label())
            yield c


# ---------------------------------------------------------------- the language rules
def same(c, st, a, b):
    r = c.E.cmp(st, "eq", c.E.res(st, a), c.E.res(st, b), 64)
    return bool(r) if type(r) is int else None


def neg(x):
    return None if x is None else not x


def istype(c, st, t):
    return same(c, st, c.E.get(st, c.expr, "AstNodeExpr", "type"), c.S.T(t))


def legal(c, st):
    """three-valued: does the language allow this statement in this situation?
    -> list of (name, True|False|None|ANY)"""
    p = st.props
    k = c.kind
    cfg = c.cfg
    r = []
    if cfg["child"] and k not in BLOCK and k != "AST_NODE_EXPR":
        r.append(("a block is attached to it", False))
    if k == "AST_NODE_VAR_DEF":
        alias = p.get(("ttt", "n.value"), 0)
        if alias == 0:
            # a violation can be found before it is known whether the value is a type
            pass
        if alias:
            r.append(("a type alias is mutable", c.flag(st, c.vd, "AstNodeVarDef", "is_const")))
            i, f = c.oper(st, "EXPR_IDENTIFIER"), c.oper(st, "EXPR_REF")
            r.append(("a type alias must name a type", True if (i or f) else (False if i is False and f is False else None)))
            r.append(("the name is taken", not p.get("dup")))
        else:
            r += exprok(c, st)
            void, fn = istype(c, st, "VOID"), c.oper(st, "EXPR_FUNC")
            if void is not False:
                r.append(("the value is a Void call", False if void and fn else (ANY if void and fn is False else None)))
            if cfg["explicit"]:
                t = p.get(("ttt", "n.type"), 0)
                r.append(("the type is unknown", None if t == 0 else t is not None))
                if t:
                    r.append(("the value has another type", istype(c, st, t)))
            r.append(("the name is taken", not p.get("dup")))
    elif k == "AST_NODE_VAR_ASSIGN":
        r.append(("the variable is not defined", not p.get("notfound")))
        if not p.get("notfound"):
            if "foundvar" not in p:
                r.append(("the variable was looked up", None))
            else:
                v = p["foundvar"]
                r.append(("the variable is constant", neg(c.flag(st, v, "Variable", "is_const"))))
                r.append(("the value has another type",
                          same(c, st, c.E.get(st, c.expr, "AstNodeExpr", "type"), c.E.get(st, v, "Variable", "type"))))
                ident = c.oper(st, "EXPR_IDENTIFIER")
                if ident is not False:
                    s = same(c, st, c.E.get(st, c.expr, "AstNodeExpr", "symbol"), p["found"])
                    r.append(("it assigns the variable to itself", True if s is False else (None if ident is None or s is None else False)))
        r += exprok(c, st)
    elif k in ("AST_NODE_IF", "AST_NODE_ELIF", "AST_NODE_ELSE", "AST_NODE_WHILE"):
        r.append(("its block is missing", bool(cfg["child"])))
        if k in ("AST_NODE_ELIF", "AST_NODE_ELSE"):
            r.append(("it does not follow an if or elif", after_if(cfg["lasts"])))
        if k != "AST_NODE_ELSE":
            r += exprok(c, st)
            r.append(("its condition is not a Bool", istype(c, st, "BOOL")))
        r.append(("its block is invalid", not p.get("subfail")))
    elif k in ("AST_NODE_BREAK", "AST_NODE_CONTINUE"):
        r.append(("it is not inside a loop", bool(cfg["depth"])))
        r.append(("it is followed by unreachable code", dead_ok(cfg["nexts"])))
    elif k == "AST_NODE_UNREACHABLE":
        r.append(("it is followed by unreachable code", dead_ok(cfg["nexts"])))
    elif k == "AST_NODE_RETURN":
        rt = "INT" if cfg["func"] == "main" else cfg["rtype"]
        if cfg["expr"]:
            r += exprok(c, st)
            if rt == "VOID":
                r.append(("a value is returned from a function without return type", False))
            else:
                r.append(("the value has another type than the function returns", istype(c, st, rt)))
        else:
            r.append(("no value is returned from a function with a return type", rt == "VOID"))
        r.append(("it is followed by unreachable code", dead_ok(cfg["nexts"])))
    elif k == "AST_NODE_FUNCTION_PROTO":
        ext = cfg["lead"] == "TOKEN_KW_EXTERNAL"
        if cfg["lead"]:
            r.append(("an %s function is nested" % cfg["lead"][9:].lower(), cfg["top"]))
        if c.rt is not None:
            rt = p.get(("ttt", "n.rtype"), 0)
            r.append(("its return type is unknown", None if rt == 0 else rt is not None))
        else:
            rt = "VOID"
        for i, (pp, pt) in enumerate(c.params):
            t = p.get(("ttt", "n.ptype%d" % i), 0)
            r.append(("a parameter type is unknown", None if t == 0 else t is not None))
            r.append(("a parameter is Void", None if t == 0 else t != "VOID"))
        r.append(("its name or a parameter name is taken", not p.get("dup") and p.get("named") is None))
        r.append(("its body is invalid", not p.get("subfail")))
        if not ext and rt:
            b = c.body
            if b == "unreachable" and rt != "VOID":
                r.append(("body", ANY))
            elif "return value" in b:
                r.append(("it returns a value without a return type", rt != "VOID"))
            else:
                r.append(("its body does not end in a return with value", rt == "VOID"))
    elif k == "AST_NODE_NAMESPACE":
        r.append(("the name is taken", not p.get("dup")))
        r.append(("its body is invalid", not p.get("subfail")))
    elif k == "AST_NODE_IMPORT":
        r.append(("the module cannot be loaded", not p.get("importfail")))
    elif k == "AST_NODE_EXPR":
        f = c.oper(st, "EXPR_FUNC")
        if cfg["child"]:
            r.append(("", ANY))
        r.append(("it is not a call", f))
        if f:
            r += callok(c, st)
    if p.get("unusedfail"):
        r.append(("warnings are errors", False))
    return r


def callok(c, st):
    p, E = st.props, c.E
    r = []
    if "named" not in p:
        return [("the function was looked up", None)]
    if p["named"] != "SYMBOL_FUNC":
        return [("the function is not declared", False)]
    sym = p["namedsym"]
    fn = E.res(st, E.get(st, sym, "Symbol", "func"))
    if not hasattr(c, "args"):
        return [("", ANY)]
    np = len(c.args)
    n = E.cmp(st, "eq", E.res(st, E.get(st, fn, "FunctionDeclaration", "num_params")), np, 16)
    r.append(("the number of arguments differs from the declaration", bool(n) if type(n) is int else None))
    r += [("an argument is invalid", not p.get("exprfail"))]
    if n == 1 and np:
        pt = E.res(st, E.get(st, fn, "FunctionDeclaration", "param_types"))
        ot = E.robj(st, pt)[0]
        for i, ex in enumerate(c.args):
            ok = ("expr", "arg%d.expr" % i, 0) in st.props.get("ev", ())
            want = E.load_cell(st, ot, 8 * i, 8)
            got = E.get(st, ex, "AstNodeExpr", "type")
            r.append(("argument %d has another type than the parameter" % i,
                      same(c, st, want, got) if ok else None))
    return r


def after_if(lasts):
    for k in lasts:
        if k == "AST_NODE_COMMENT":
            continue
        return k in ("AST_NODE_IF", "AST_NODE_ELIF")
    return False


def exprok(c, st):
    if st.props.get("exprfail"):
        return [("its expression is invalid", False)]
    ok = any(e[1] == "n.expr" for e in c.events(st, "expr"))
    return [("its expression was validated", True if ok else None)]


def judge(ctx, c):
    """compare every outcome with the language rules"""
    E = c.E
    acc = 0
    lab = c.label()
    base = keyof(c)
    possible = True
    for o in c.outs:
        st = o.state
        if o.kind in ("stop", "exit"):
            continue
        if o.kind != "ret":
            ctx.violation("%s:%s:%s" % (base, o.kind, str(o.ret).split(":")[0]), "%s may end in %s at %s" % (lab, o.kind, o.ret))
            continue
        rv = E.res(st, o.ret)
        if type(rv) is not int:
            ctx.violation(base + ":undecided", "%s: verdict does not depend on anything the language knows" % lab)
            continue
        ls = legal(c, st)
        if any(x is ANY for _, x in ls) and not any(x is False for _, x in ls):
            continue
        if any(x is ANY for _, x in ls):
            ls = [(n, x) for n, x in ls if x is not ANY]
        verdict = all3([x for _, x in ls])
        if rv & 1:
            acc += 1
            if verdict is not True:
                bad = [n for n, x in ls if x is not True]
                ctx.violation("%s:accept:%s" % (base, bad[0]), "%s is accepted although %s%s" % (
                    lab, bad[0], "" if verdict is False else " (or the analyser never established otherwise)"))
        else:
            if verdict is not False and not (st.props.get("warn") and explained(E, st)):
                ctx.violation(base + ":reject", "%s is rejected although the language allows it; last seen at %s" % (lab, where(E, o)))
    return acc


def keyof(c):
    g = c.cfg
    return short(c.kind).replace(" ", "_") + ("+" + g["lead"][9:].lower() if g["lead"] else "")


def tagged(c, st, v, field=None):
    v = c.E.res(st, v)
    if type(v) is tuple and v[0] == "p" and v[1] in st.meta:
        return st.meta[v[1]].tag
    return None


def accepted(c):
    for o in c.outs:
        if o.kind == "ret" and c.E.res(o.state, o.ret) == 1:
            yield o.state


# ---------------------------------------------------------------- checks
def variables(ctx):
    """definitions and assignments"""
    ctx.rule = ("Every path of the tree validator over one definition/assignment statement (value expression, name lookup "
                "and redeclaration replaced by their contracts) is enumerated; accepting paths must establish every "
                "language rule, rejecting paths must have found a broken one; on accepting paths the recorded variable has "
                "the right type, constness, visibility and binding, and is invisible to its own initialiser.")
    P = ctx.P
    total = 0
    for c in runs(ctx, sit_vars):
        total += judge(ctx, c)
        E = c.E
        for st in accepted(c):
            ctx.count("accepting_paths")
            adds = c.events(st, "add")
            if c.kind == "AST_NODE_VAR_DEF":
                if len(adds) != 1:
                    ctx.violation("def:declare", "%s declares %d symbols" % (c.label(), len(adds)))
                    continue
                sym = adds[0][1]
                if not same(c, st, adds[0][2], c.S.ptr(c.scope)):
                    ctx.violation("def:scope", "%s is declared in another scope than the current one" % c.label())
                nm = c.S.textof(st, E.get(st, sym, "Symbol", "name"))
                if nm != "n.name":
                    ctx.violation("def:name:%s%s" % (c.cfg["lead"], ":alias" if st.props.get(("ttt", "n.value")) else ""),
                                  "%s is declared under the text of %s instead of its name" % (c.label(), nm))
                alias = st.props.get(("ttt", "n.value"))
                kind = E.res(st, E.get(st, sym, "Symbol", "type"))
                if alias:
                    if kind != P.enum("SYMBOL_ALIAS"):
                        ctx.violation("alias:kind", "a type alias is recorded as another kind of symbol")
                    if c.S.tname(st, E.get(st, sym, "Symbol", "expr_type")) != alias:
                        ctx.violation("alias:type%s" % (":explicit" if c.cfg["explicit"] else ":" + str(c.cfg["lead"])),
                                      "%s: a type alias for %s stands for %s" % (
                            c.label(), NAMES[alias], c.S.tname(st, E.get(st, sym, "Symbol", "expr_type"))))
                    continue
                if kind != P.enum("SYMBOL_VAR"):
                    ctx.violation("def:kind", "a variable is recorded as another kind of symbol")
                    continue
                v = E.res(st, E.get(st, sym, "Symbol", "var"))
                want = st.props.get(("ttt", "n.type")) if c.cfg["explicit"] else c.etype(st)
                if c.S.tname(st, E.get(st, v, "Variable", "type")) != want:
                    ctx.violation("def:type", "%s: variable gets type %s instead of %s" % (
                        c.label(), c.S.tname(st, E.get(st, v, "Variable", "type")), want))
                if c.S.tname(st, E.get(st, sym, "Symbol", "expr_type")) != want:
                    ctx.violation("def:symtype", "%s: symbol gets another type than its variable" % c.label())
                for f, w in (("is_const", c.cfg["lead"] != "TOKEN_KW_MUT"), ("is_exported", c.cfg["lead"] == "TOKEN_KW_EXPORT"),
                             ("is_defined", True), ("was_read", False), ("was_reassigned", False)):
                    if c.flag(st, v, "Variable", f) is not w:
                        ctx.violation("def:" + f, "%s: %s is %s" % (c.label(), f, c.flag(st, v, "Variable", f)))
                if not same(c, st, E.get(st, c.vd, "AstNodeVarDef", "symbol"), sym):
                    ctx.violation("def:bind", "%s is not bound to the symbol it declared" % c.label())
                if any(e[2] for e in c.events(st, "expr")):
                    ctx.violation("def:self", "%s: the variable is visible in its own initialiser" % c.label())
            else:
                if not same(c, st, E.get(st, c.va, "AstNodeVarAssign", "symbol"), st.props["found"]):
                    ctx.violation("assign:bind", "an assignment is bound to another symbol than the one looked up")
                if c.flag(st, st.props["foundvar"], "Variable", "was_reassigned") is not True:
                    ctx.violation("assign:mark", "an assignment does not count as reassigning its variable")
                if adds:
                    ctx.violation("assign:declare", "an assignment declares a symbol")
    ctx.require(total, "no accepting path")


def flow(ctx):
    """control-flow statements"""
    ctx.rule = ("Every path of the tree validator over one control-flow statement in every surrounding (loop depth zero or "
                "positive, preceding and following statement kinds, block present or not, condition of every type) is "
                "enumerated; it must be accepted exactly when the language rules allow it.")
    total = 0
    for c in runs(ctx, sit_flow):
        total += judge(ctx, c)
        for st in accepted(c):
            if c.kind in ("AST_NODE_IF", "AST_NODE_ELIF", "AST_NODE_ELSE", "AST_NODE_WHILE"):
                subs = c.events(st, "sub")
                if [e[1] for e in subs] != ["n.child"]:
                    ctx.violation(keyof(c) + ":body", "%s: its block is validated %d times" % (c.label(), len(subs)))
                elif c.kind == "AST_NODE_WHILE" and inside(c, st, subs[0][2]) is not True:
                    ctx.violation("while:depth", "%s: its body does not count as being inside a loop" % c.label())
                elif c.kind != "AST_NODE_WHILE" and not same(c, st, subs[0][2], c.depth):
                    ctx.violation(keyof(c) + ":depth", "%s: its body has another loop depth" % c.label())
    ctx.require(total, "no accepting path")


def inside(c, st, d):
    E = c.E
    d = E.res(st, d)
    if type(d) is int:
        return d == 1
    return d == ("t", "arith", "add", E.res(st, c.depth), 1, 32) or None


def functions(ctx):
    """functions: declarations, returns and calls"""
    ctx.rule = ("Every path over a function declaration, return statement or call statement in every surrounding is "
                "enumerated; it must be accepted exactly when the rules on arity, argument types, return types, nesting of "
                "export/external, missing returns and main's Int result allow it; the recorded declaration and parameter "
                "symbols carry the declared types and are visible to the body.")
    P = ctx.P
    total = 0
    for c in runs(ctx, sit_return, sit_func, sit_misc):
        if c.kind == "AST_NODE_NAMESPACE":
            continue
        total += judge(ctx, c)
        E = c.E
        if c.kind == "AST_NODE_EXPR":
            for st in accepted(c):
                if not hasattr(c, "call"):
                    continue
                sym = st.props.get("namedsym")
                if not same(c, st, E.get(st, c.call, "AstNodeFunctionCall", "symbol"), sym):
                    ctx.violation("call:bind", "a call is not bound to the function that was looked up")
                fn = E.res(st, E.get(st, sym, "Symbol", "func"))
                if c.flag(st, fn, "FunctionDeclaration", "was_called") is not True:
                    ctx.violation("call:mark", "a call does not count as using its function")
        if c.kind != "AST_NODE_FUNCTION_PROTO":
            continue
        for st in accepted(c):
            ctx.count("accepting_paths")
            adds = c.events(st, "add")
            subs = c.events(st, "sub")
            if len(adds) != 1 + len(c.params) or len(subs) != 1:
                ctx.violation("proto:declare", "%s declares %d symbols and validates its body %d times" % (c.label(), len(adds), len(subs)))
                continue
            sym = adds[0][1]
            ev = [e for e in st.props["ev"] if e[0] in ("add", "sub")]
            if ev[-1][0] != "sub":
                ctx.violation("proto:order", "%s: a symbol is declared after the body was validated" % c.label())
            if E.res(st, E.get(st, sym, "Symbol", "type")) != P.enum("SYMBOL_FUNC"):
                ctx.violation("proto:kind", "%s: recorded as another kind of symbol" % c.label())
                continue
            if c.S.textof(st, E.get(st, sym, "Symbol", "name")) != "n.name":
                ctx.violation("proto:name", "%s: declared under another name" % c.label())
            if not same(c, st, adds[0][2], c.S.ptr(c.scope)):
                ctx.violation("proto:scope", "%s: not declared in the enclosing scope" % c.label())
            fn = E.res(st, E.get(st, sym, "Symbol", "func"))
            rt = st.props.get(("ttt", "n.rtype")) if c.rt is not None else "VOID"
            if c.S.tname(st, E.get(st, fn, "FunctionDeclaration", "return_type")) != rt:
                ctx.violation("proto:rtype", "%s: recorded return type is not the declared one" % c.label())
            if E.res(st, E.get(st, fn, "FunctionDeclaration", "num_params")) != len(c.params):
                ctx.violation("proto:arity", "%s: recorded number of parameters differs" % c.label())
            for f, w in (("is_external", "TOKEN_KW_EXTERNAL"), ("is_export", "TOKEN_KW_EXPORT")):
                if c.flag(st, fn, "FunctionDeclaration", f) is not (c.cfg["lead"] == w):
                    ctx.violation("proto:" + f, "%s: %s recorded wrongly" % (c.label(), f))
            if not same(c, st, E.get(st, c.fp, "AstNodeFunctionProto", "symbol"), sym):
                ctx.violation("proto:bind", "%s: not bound to the symbol it declared" % c.label())
            if not same(c, st, subs[0][3], sym):
                ctx.violation("proto:current", "%s: its body is validated as if it belonged to another function" % c.label())
            if E.res(st, subs[0][2]) != 0:
                ctx.violation("proto:loop", "%s: its body counts as being inside the loop around the declaration" % c.label())
            if not same(c, st, subs[0][4], c.S.ptr(c.scope)):
                ctx.violation("proto:bodyscope", "%s: its body is validated from another scope" % c.label())
            for i, (pp, pt) in enumerate(c.params):
                psym = adds[1 + i][1]
                t = st.props.get(("ttt", "n.ptype%d" % i))
                v = E.res(st, E.get(st, psym, "Symbol", "var"))
                types = E.res(st, E.get(st, fn, "FunctionDeclaration", "param_types"))
                if c.S.tname(st, E.load_cell(st, E.robj(st, types)[0], 8 * i, 8)) != t:
                    ctx.violation("proto:ptype", "%s: recorded type of parameter %d is not the declared one" % (c.label(), i))
                if E.res(st, E.get(st, psym, "Symbol", "type")) != P.enum("SYMBOL_VAR") or \
                        c.S.tname(st, E.get(st, v, "Variable", "type")) != t:
                    ctx.violation("proto:pvar", "%s: parameter %d is not a variable of its declared type" % (c.label(), i))
                    continue
                if c.flag(st, v, "Variable", "is_const") is not True or c.flag(st, v, "Variable", "is_defined") is not True:
                    ctx.violation("proto:pconst", "%s: parameter %d is not a defined constant" % (c.label(), i))
                if not same(c, st, E.get(st, pp, "AstNodeFunctionParam", "symbol"), psym):
                    ctx.violation("proto:pbind", "%s: parameter %d is not bound to its symbol" % (c.label(), i))
                par = E.get(st, adds[1 + i][2], "Scope", "parent")
                if not same(c, st, par, c.S.ptr(c.scope)) or \
                        not same(c, st, E.get(st, c.scope, "Scope", "child"), adds[1 + i][2]):
                    ctx.violation("proto:pscope", "%s: parameter %d is not declared in the scope of the body" % (c.label(), i))
    ctx.require(total, "no accepting path")


CHECKS = {"C07": variables, "C08": flow, "C09": functions}
