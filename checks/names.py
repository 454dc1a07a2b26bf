"""Names: declaration, lookup, scoping."""
from absint import Outcome
from models import ret
from sem import BASIC, NAMES, Sem, explained, fail, where
from stmt import Case

KN = {"SYMBOL_VAR": "variable", "SYMBOL_FUNC": "function", "SYMBOL_ALIAS": "type alias", "SYMBOL_NAMESPACE": "namespace"}


def cstr(P, name):
    b = P.global_bytes(name)
    if not b or b[0] != 1:
        return None
    return bytes(x for x in b[1]).split(b"\0")[0].decode("latin1")


def lookup(ctx):
    """scope_find_name returns the first declaration on the way outwards"""
    P = ctx.P
    shapes = {
        "block alone": [("S", None)],
        "block in block": [("S", None), ("P", "parent")],
        "after an earlier block": [("S", None), ("L", "last")],
        "after an earlier block in a block": [("S", None), ("L", "last"), ("P", "parent")],
        "two blocks deep": [("S", None), ("P", "parent"), ("Q", "parent")],
        "after two earlier blocks": [("S", None), ("L", "last"), ("M", "last")],
    }
    P.func("scope_find_name")
    for shape, chain in shapes.items():
        n = len(chain)
        for tables in range(1 << n):            # which scopes have a symbol table
            for hits in range(1 << n):          # which tables hold the name
                if hits & ~tables:
                    continue
                S = Sem(P)
                E, st = S.E, S.st
                name = S.new_str("name", 8)
                objs, syms = [], []
                for i, (tag, link) in enumerate(chain):
                    o = S.new("Scope", tag, parent=0, last=0)
                    if i:
                        E.put(st, objs[-1], "Scope", link, S.ptr(o))
                    objs.append(o)
                    syms.append(S.new("Symbol", "sym" + tag))
                    if tables >> i & 1:
                        E.put(st, o, "Scope", "symbols", S.ptr(S.new("HashTable", "ht%d" % i)))
                    else:
                        E.put(st, o, "Scope", "symbols", 0)
                E.models["strchr"] = lambda E, st, a, i, f: ret(st, 0)

                def ht_get(E, st, a, ins, fr, syms=syms, hits=hits):
                    t = E.res(st, a[0])
                    if t == 0:
                        return ret(st, 0)
                    i = int(st.meta[t[1]].tag[2:])
                    return ret(st, ("p", syms[i], 0) if hits >> i & 1 else 0)
                P.func("ht_get")
                E.models["ht_get"] = ht_get
                E.rec_limit["*"] = 5
                outs = S.run(P.func("scope_find_name"), [S.ptr(objs[0]), S.ptr(name)])
                ctx.used(E)
                ctx.count("lookup_cases")
                want = next((("p", syms[i], 0) for i in range(n) if hits >> i & 1), 0)
                ctx.require(outs, "scope_find_name has no outcome")
                for o in outs:
                    if o.kind != "ret" or E.res(o.state, o.ret) != want:
                        ctx.violation("lookup:" + shape, "scope_find_name: looking a name up from a %s yields %s instead of %s" % (
                            shape, tagof(E, o), E.meta_tag(o.state, want)))
    # qualified names
    places = [(shape, chain, tables) for shape, chain in shapes.items() for tables in range(1 << (len(chain) - 1))]
    for kind, inner, (shape, chain, tables) in [(k, i, p) for k in ("none", "SYMBOL_VAR", "SYMBOL_FUNC", "SYMBOL_ALIAS", "SYMBOL_NAMESPACE")
                                                for i in (0, 1) for p in places]:
        if True:
            S = Sem(P)
            E, st = S.E, S.st
            name = S.new_str("name", 8)
            for i, ch in enumerate(b"abc.xyz\0"):
                E.store_cell(st, name, i, 1, ch)
            # the namespace is declared in the outermost block of the chain
            objs = []
            for i, (tag, link) in enumerate(chain):
                table = "outer" if i == len(chain) - 1 else "other%d" % i if tables >> i & 1 else None
                o = S.new("Scope", tag, parent=0, last=0, symbols=S.ptr(S.new("HashTable", table)) if table else 0)
                if i:
                    E.put(st, objs[-1], "Scope", link, S.ptr(o))
                objs.append(o)
            S0 = objs[0]
            ns = S.new("Scope", "NS", parent=0, last=0, symbols=S.ptr(S.new("HashTable", "inner")))
            sym = S.new("Symbol", "abc", scope=S.ptr(ns))
            if kind != "none":
                E.put(st, sym, "Symbol", "type", P.enum(kind))
            x = S.new("Symbol", "xyz")
            bad = S.new("Symbol", "wrong")

            def strchr(E, st, a, ins, fr):
                p = E.res(st, a[0])
                dot = E.load_cell(st, name, 3, 1)
                if type(p) is tuple and p[1] == name and p[2] is not None and p[2] <= 3 and dot == ord("."):
                    return ret(st, ("p", name, 3))
                return ret(st, 0)

            def ht_get(E, st, a, ins, fr):
                t, k = E.res(st, a[0]), E.res(st, a[1])
                dot = E.load_cell(st, name, 3, 1)
                part = "head" if k == ("p", name, 0) and dot == 0 else "tail" if k == ("p", name, 4) else "whole"
                tag = st.meta[t[1]].tag
                if (tag, part) == ("outer", "head"):
                    return ret(st, ("p", sym, 0) if kind != "none" else 0)
                if (tag, part) == ("inner", "tail"):
                    return ret(st, ("p", x, 0) if inner else 0)
                if (tag, part) == ("outer", "tail"):
                    return ret(st, ("p", bad, 0))
                return ret(st, 0)
            E.models["strchr"] = strchr
            E.models["ht_get"] = ht_get
            E.rec_limit["*"] = 5
            outs = S.run(P.func("scope_find_name"), [S.ptr(S0), S.ptr(name)])
            ctx.used(E)
            ctx.count("qualified_cases")
            want = ("p", x, 0) if kind == "SYMBOL_NAMESPACE" and inner else 0
            for o in outs:
                if o.kind != "ret" or E.res(o.state, o.ret) != want:
                    ctx.violation("qualified:" + kind, "scope_find_name: `a.x` where a is %s, looked up from a %s, yields %s" % (
                        "undeclared" if kind == "none" else "a " + KN[kind], shape, tagof(E, o)))
                elif E.load_cell(o.state, name, 3, 1) != ord("."):
                    ctx.violation("qualified:restore", "scope_find_name leaves the looked-up name modified")


def tagof(E, o):
    if o.kind != "ret":
        return "%s (%s)" % (o.kind, o.ret)
    return E.meta_tag(o.state, E.res(o.state, o.ret))


def redeclare(ctx):
    """adding a symbol fails, explained, exactly when the name is visible or built in"""
    P = ctx.P
    for new in KN:
        S = Sem(P)
        E, st = S.E, S.st
        S.contracts("scope_find_name")
        P.func("find_builtin_type")

        def builtin(E, st, a, ins, fr):
            s = st.fork()
            if "bt" in st.props:
                return ret(st, st.props["bt"])
            st.props["bt"] = 0
            s.props["bt"] = ("p", "@TYPE_INT", 0)
            return [Outcome("ret", st, 0), Outcome("ret", s, ("p", "@TYPE_INT", 0))]
        E.models["find_builtin_type"] = builtin
        P.func("ht_add")

        def ht_add(E, st, a, ins, fr):
            st.props["ht"] = st.props.get("ht", ()) + (tuple(E.res(st, x) for x in a),)
            return ret(st, 1)
        E.models["ht_add"] = ht_add
        E.models["make_ht"] = lambda E, st, a, i, f: ret(st, ("p", E.new_obj(st, "alloc", "ht", None, 0, "HashTable", "newht"), 0))
        nm = S.new_str("text:new", 8)
        scope = S.new("Scope", "scope", parent=0, last=0)
        E.nullable.add(("Scope", "symbols"))
        sym = S.new("Symbol", "newsym", name=S.ptr(nm), type=P.enum(new))
        state = S.state(scope=S.ptr(scope))
        outs = S.run(P.func("scope_add_symbol"), [S.ptr(state), S.ptr(sym)])
        ctx.used(E)
        acc = 0
        for o in outs:
            ctx.count("declaration_paths")
            st = o.state
            if o.kind != "ret":
                ctx.violation("declare:%s:%s" % (new, o.kind), "declaring a %s may end in %s at %s" % (KN[new], o.kind, o.ret))
                continue
            named = st.props.get("named", "?")
            taken = True if named not in (None, "?") or st.props.get("bt", 0) != 0 else (
                False if named is None and "bt" in st.props else None)
            if E.res(st, o.ret) == 1:
                acc += 1
                if taken is not False:
                    ctx.violation("declare:%s:%s" % (new, named), "a %s can be declared under a name already taken by a %s" % (
                        KN[new], KN.get(named, "built-in type or unknown symbol")))
                ht = st.props.get("ht", ())
                if len(ht) != 1 or ht[0][0] != E.res(st, E.get(st, scope, "Scope", "symbols")) or \
                        ht[0][1] != S.ptr(nm) or ht[0][2] != S.ptr(sym):
                    ctx.violation("declare:where", "a declared %s is not recorded under its own name in the current scope" % KN[new])
            else:
                if taken is not True:
                    ctx.violation("declare:free:%s" % new, "declaring a %s under a free name is rejected" % KN[new])
                if not explained(E, st):
                    ctx.violation("declare:silent:%s:%s" % (new, named), "redeclaring a %s as a %s fails without a diagnostic" % (
                        KN.get(named, "?"), KN[new]))
        ctx.require(acc, "scope_add_symbol never succeeds")


def classified(ctx):
    """lookups by kind only ever yield that kind"""
    P = ctx.P
    # variables
    S = Sem(P)
    E = S.E
    S.contracts("scope_find_name")
    tok = S.new("Token", "use")
    outs = S.run(P.func("scope_find_var"), [S.ptr(S.state()), S.ptr(tok)])
    ctx.used(E)
    hit = 0
    for o in outs:
        ctx.count("kind_paths")
        st = o.state
        if o.kind != "ret":
            ctx.violation("var:" + o.kind, "looking up a variable may end in %s" % o.kind)
            continue
        named = st.props.get("named", "?")
        v = E.res(st, o.ret)
        ok = None
        if named == "SYMBOL_VAR":
            ok = Case.flag(_H(E), st, E.res(st, E.get(st, st.props["namedsym"], "Symbol", "var")), "Variable", "is_defined")
        else:
            ok = False
        if v != 0:
            hit += 1
            if named != "SYMBOL_VAR" or v != st.props["namedsym"]:
                ctx.violation("var:kind:%s" % named, "scope_find_var yields a %s as a variable" % KN.get(named, named))
            elif ok is not True:
                ctx.violation("var:undefined", "scope_find_var yields a variable that is still being defined")
        else:
            if ok is not False:
                ctx.violation("var:miss", "scope_find_var does not find a defined variable")
            if not explained(E, st):
                ctx.violation("var:silent", "an undefined variable is not reported")
        key = st.props.get("lookupname")
        if key != "use":
            ctx.violation("var:name", "scope_find_var looks up another name than its token's")
    ctx.require(hit, "scope_find_var never succeeds")
    # functions
    S = Sem(P)
    E = S.E
    S.contracts("scope_find_name")
    nm = S.new_str("text:use", 8)
    for o in S.run(P.func("find_func_by_name"), [S.ptr(S.state()), S.ptr(nm)]):
        ctx.count("kind_paths")
        st = o.state
        v = E.res(st, o.ret)
        named = st.props.get("named", "?")
        want = st.props["namedsym"] if named == "SYMBOL_FUNC" else 0
        if v != want:
            ctx.violation("func:" + str(named), "looking up a function named like a %s yields %s" % (KN.get(named, named), E.meta_tag(st, v)))
    ctx.used(E)
    # types
    S = Sem(P)
    E = S.E
    S.contracts("scope_find_name")
    E.models["find_builtin_type"] = lambda E, st, a, i, f: ret(st, ("p", "@TYPE_INT", 0))
    nm = S.new_str("text:use", 8)
    for o in S.run(P.func("find_type"), [S.ptr(S.state()), S.ptr(nm)]):
        ctx.count("kind_paths")
        st = o.state
        v = E.res(st, o.ret)
        named = st.props.get("named", "?")
        if named == "SYMBOL_ALIAS":
            want = E.res(st, E.get(st, st.props["namedsym"], "Symbol", "expr_type"))
        else:
            want = ("p", "@TYPE_INT", 0)
        if v != want:
            ctx.violation("type:" + str(named), "looking up a type named like a %s yields %s" % (KN.get(named, named), E.meta_tag(st, v)))
    ctx.used(E)
    # built-in type names
    S = Sem(P)
    E = S.E

    def strcmp(E, st, a, ins, fr):
        lit = None
        for x in a:
            x = E.res(st, x)
            if type(x) is tuple and x[0] == "p" and isinstance(x[1], str) and x[2] == 0:
                lit = cstr(P, x[1][1:])
        s = st.fork()
        s.props["eq"] = s.props.get("eq", ()) + (lit,)
        st.props["ne"] = st.props.get("ne", ()) + (lit,)
        return [Outcome("ret", s, 0), Outcome("ret", st, E.fresh_nn(st))]
    E.models["strcmp"] = strcmp
    nm = S.new_str("text:use", 8)
    outs = S.run(P.func("find_builtin_type"), [S.ptr(nm)])
    ctx.used(E)
    seen = {}
    for o in outs:
        ctx.count("builtin_paths")
        st = o.state
        eq = st.props.get("eq", ())
        v = E.res(st, o.ret)
        if len(eq) > 1:
            continue
        if eq:
            seen[eq[0]] = v
        elif v != 0:
            ctx.violation("builtin:none", "a name that is no built-in type resolves to one")
        elif set(st.props.get("ne", ())) != set(NAMES[t] for t in BASIC):
            ctx.violation("builtin:missing", "only %s are compared with built-in type names" % (st.props.get("ne", ()),))
    for t in BASIC:
        if seen.get(NAMES[t]) != ("p", "@TYPE_" + t, 0):
            ctx.violation("builtin:" + t, "the type name %s resolves to %s" % (NAMES[t], seen.get(NAMES[t])))
    # tokens
    for tk in P.enums["TokenType"]:
        S = Sem(P)
        E, st = S.E, S.st
        P.func("find_type")
        E.models["find_type"] = lambda E, st, a, i, f, S=S: ret(setp(st, "asked", S.textof(st, a[1])), S.T("FLOAT"))
        inner = S.new("Token", "inner", type=P.enum("TOKEN_IDENTIFIER"))
        tok = S.new("Token", "use", type=P.enum(tk), next=S.ptr(inner))
        E.rec_limit["*"] = 3
        for o in S.run(P.func("token_to_type"), [S.ptr(S.state()), S.ptr(tok)]):
            ctx.count("kind_paths")
            v = E.res(o.state, o.ret)
            if tk in ("TOKEN_IDENTIFIER", "TOKEN_DOT_IDENTIFIER"):
                ok = v == S.T("FLOAT") and o.state.props.get("asked") == "use"
            elif tk == "TOKEN_OPER_REF":
                ok = type(v) is tuple and v[0] == "p" and E.res(o.state, E.get(o.state, v, "Type", "inner")) == S.T("FLOAT") \
                    and o.state.props.get("asked") == "inner"
            else:
                ok = v == 0
            if not ok:
                ctx.violation("typetoken:" + tk, "a %s token in type position stands for %s" % (tk, E.meta_tag(o.state, v)))
        ctx.used(E)


def setp(st, k, v):
    st.props[k] = v
    return st


class _H:
    def __init__(self, E):
        self.E = E


def chain(E, st, sc):
    """scopes visible from sc"""
    out = []
    sc = E.res(st, sc)
    while type(sc) is tuple and sc[0] == "p" and sc not in out and len(out) < 12:
        out.append(sc)
        p = E.res(st, E.get(st, sc, "Scope", "parent"))
        sc = p if p != 0 else E.res(st, E.get(st, sc, "Scope", "last"))
    return out


def blocks(ctx):
    """a block gets a scope of its own that is gone afterwards"""
    P = ctx.P
    for pre in (False, True):
        for shape in ("head", "adjacent"):
            c = Case(P, "AST_NODE_VAR_DEF")
            S, E, st = c.S, c.E, c.S.st
            del E.models["setup_and_validate_ast_sub_tree"]
            params = None
            if pre:
                params = S.new("Scope", "params", parent=S.ptr(c.scope), last=0, next=0, child=0)
                E.put(st, c.scope, "Scope", "child", S.ptr(params))
            if shape == "adjacent":
                e = S.new("Scope", "earlier", next=S.ptr(c.scope), last=0, parent=0)
                E.put(st, c.scope, "Scope", "last", S.ptr(e))
                E.put(st, c.scope, "Scope", "parent", 0)
            outs = S.run(P.func("setup_and_validate_ast_sub_tree"), [S.ptr(c.state), S.ptr(c.node)])
            ctx.used(E)
            ok = 0
            for o in outs:
                ctx.count("block_paths")
                st = o.state
                if o.kind != "ret":
                    ctx.violation("block:" + o.kind, "validating a block may end in %s at %s" % (o.kind, o.ret))
                    continue
                if E.res(st, o.ret) != 1:
                    continue
                adds = c.events(st, "add")
                if not adds:
                    ctx.violation("block:skip", "a block is accepted without validating its statement")
                    continue
                ok += 1
                a = E.res(st, adds[0][2])
                vis = chain(E, st, a)
                after = chain(E, st, c.statef(st, "scope"))
                if a == S.ptr(c.scope):
                    ctx.violation("block:same", "declarations in a block go into the surrounding scope")
                    continue
                if S.ptr(c.scope) not in vis:
                    ctx.violation("block:outer", "the surrounding scope is not visible inside a block")
                if pre and S.ptr(params) not in vis:
                    ctx.violation("block:params", "parameters are not visible inside the body")
                if a in after:
                    ctx.violation("block:leak", "declarations in a block stay visible after it")
                if S.ptr(c.scope) not in after:
                    ctx.violation("block:lost", "the surrounding scope is not visible any more after a block")
                if shape == "adjacent" and S.ptr(e) not in after:
                    ctx.violation("block:lost2", "earlier declarations are not visible any more after a block")
                if any(c.statef(st, "scope") == x for x in vis if x != S.ptr(c.scope)):
                    ctx.violation("block:level", "after a block, the current scope is still the block's")
                # a second block right after it: nothing of the first is visible there
                for o2 in S.run(P.func("setup_and_validate_ast_sub_tree"), [S.ptr(c.state), S.ptr(c.node)], st.fork()):
                    st2 = o2.state
                    if o2.kind != "ret":
                        ctx.violation("block:second", "validating a second block may end in %s at %s" % (o2.kind, o2.ret))
                    elif E.res(st2, o2.ret) == 1:
                        ctx.count("block_pairs")
                        adds2 = c.events(st2, "add")[len(adds):]
                        a2 = E.res(st2, adds2[0][2]) if adds2 else None
                        if a in chain(E, st2, a2):
                            ctx.violation("block:sibling", "declarations in a block are visible in the block after it")
                        if a2 is not None and S.ptr(c.scope) not in chain(E, st2, a2):
                            ctx.violation("block:outer2", "the surrounding scope is not visible inside a second block")
                        if a2 in chain(E, st2, c.statef(st2, "scope")):
                            ctx.violation("block:leak2", "declarations in a second block stay visible after it")
            ctx.require(ok, "no accepting path through a block")


def nested(ctx):
    """a declaration after any number of nested blocks, and what follows the whole"""
    P = ctx.P
    for n in range(0, 4):
        for pre in (False, True):
            kinds = ["AST_NODE_IF"] * n + ["AST_NODE_VAR_DEF"]
            c = Case(P, kinds[0], child=n > 0, nexts=tuple(kinds[1:]), next_child=True)
            S, E, st = c.S, c.E, c.S.st
            S.types = ["BOOL", "INT"]
            E.sym_iters = E.k_dist = 99
            del E.models["setup_and_validate_ast_sub_tree"]
            E.recursion = lambda E, st, fn, a: c.m_sub(E, st, a, None, None) \
                if fn.src == "setup_and_validate_ast_sub_tree" else None
            if pre:
                p = S.new("Scope", "params", parent=S.ptr(c.scope), last=0, next=0, child=0)
                E.put(st, c.scope, "Scope", "child", S.ptr(p))
            outs = S.run(P.func("setup_and_validate_ast_sub_tree"), [S.ptr(c.state), S.ptr(c.node)])
            ctx.used(E)
            ok = 0
            for o in outs:
                ctx.count("nested_block_paths")
                st = o.state
                if o.kind != "ret":
                    ctx.violation("nested:" + o.kind, "validating a block with %d nested blocks may end in %s at %s" % (n, o.kind, o.ret))
                    continue
                if E.res(st, o.ret) != 1:
                    continue
                ok += 1
                adds = c.events(st, "add")
                if len(adds) != 1:
                    ctx.violation("nested:skip", "a declaration after %d nested blocks is not validated once" % n)
                    continue
                a = E.res(st, adds[0][2])
                vis = chain(E, st, a)
                after = chain(E, st, c.statef(st, "scope"))
                if S.ptr(c.scope) not in vis:
                    ctx.violation("nested:outer", "after %d nested blocks, the surrounding scope is not visible inside a block" % n)
                if pre and S.ptr(p) not in vis:
                    ctx.violation("nested:params", "after %d nested blocks, parameters are not visible inside the body" % n)
                if a in after:
                    ctx.violation("nested:leak", "a declaration after %d nested blocks stays visible after the enclosing block" % n)
                if S.ptr(c.scope) not in after:
                    ctx.violation("nested:lost", "after a block with %d nested blocks, the surrounding scope is lost" % n)
                for x in vis:
                    if x not in chain(E, st, S.ptr(c.scope)) and x in after:
                        ctx.violation("nested:level", "a scope of a block with %d nested blocks stays visible after it" % n)
            ctx.require(ok, "no accepting path through a block with %d nested blocks" % n)
        # is a statement after n blocks at top level still at top level?
        for top in (True, False) if P.has("is_top_lvl_scope") else ():
            c = Case(P, "AST_NODE_COMMENT", top=top)
            S, E, st = c.S, c.E, c.S.st
            head = c.scope
            for i in range(n):
                d = S.new("Scope", "adj%d" % i, last=S.ptr(head), parent=0, next=0)
                E.put(st, head, "Scope", "next", S.ptr(d))
                head = d
            E.put(st, c.state, "SemanticState", "scope", S.ptr(head))
            for o in S.run(P.func("is_top_lvl_scope"), [S.ptr(c.state)]):
                ctx.count("level_cases")
                if o.kind != "ret" or E.res(o.state, o.ret) != (1 if top else 0):
                    ctx.violation("level", "after %d blocks, a %s scope is taken for a %s one" % (
                        n, "top-level" if top else "nested", "nested" if top else "top-level"))


def namespaces(ctx):
    """everything declared in a namespace is reachable through it, and only that"""
    P = ctx.P
    n = 0
    for top, adj in ((True, 0), (True, 1), (True, 2), (True, 3), (False, 0), (False, 1), (False, 3)):
        c = Case(P, "AST_NODE_NAMESPACE", child=True, top=top, lead="TOKEN_KW_NAMESPACE", adjacent=adj)
        c.run()
        E = c.E
        ctx.used(E)
        for o in c.outs:
            st = o.state
            if o.kind != "ret" or E.res(st, o.ret) != 1:
                continue
            n += 1
            ctx.count("namespace_paths")
            adds = c.events(st, "add")
            if len(adds) != 1:
                ctx.violation("namespace:declare", "a namespace declares %d symbols" % len(adds))
                continue
            sym = adds[0][1]
            if E.res(st, E.get(st, sym, "Symbol", "type")) != P.enum("SYMBOL_NAMESPACE"):
                ctx.violation("namespace:kind", "a namespace is recorded as another kind of symbol")
            if c.S.textof(st, E.get(st, sym, "Symbol", "name")) != "n.name":
                ctx.violation("namespace:name", "a namespace is declared under the text of another token")
            if E.res(st, adds[0][2]) != c.S.ptr(c.scope):
                ctx.violation("namespace:scope", "a namespace is not declared in the surrounding scope")
            if [e[1] for e in c.events(st, "sub")] != ["n.child"]:
                ctx.violation("namespace:body", "the body of a namespace is not validated exactly once")
            vis = chain(E, st, E.get(st, sym, "Symbol", "scope"))
            for i, x in enumerate(st.props.get("childscopes", ())):
                if E.res(st, x) not in vis:
                    ctx.violation("namespace:members", "declarations of a namespace%s cannot be reached through it" % (
                        " after %d nested blocks" % i if i else ""))
    ctx.require(n, "no accepting path through a namespace")


def names(ctx):
    """name resolution and redeclaration"""
    ctx.rule = ("Lookup is analysed over every shape of scope chain (up to three links) and every combination of tables that "
                "hold the name: the result must be the nearest declaration. Declaration is analysed against every kind of "
                "visible symbol: it must fail with an error exactly when the name is visible or a built-in type, and otherwise "
                "record the symbol in the current scope. Lookups by kind yield only that kind; a block's scope sees the "
                "surrounding one and is not visible after the block.")
    ctx.assumptions = ["the symbol table maps equal names to equal symbols (strcmp on the stored key)"]
    lookup(ctx)
    redeclare(ctx)
    classified(ctx)
    blocks(ctx)
    nested(ctx)
    namespaces(ctx)


CHECKS = {"C10": names}
