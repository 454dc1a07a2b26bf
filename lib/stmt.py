"""Harness: one statement, validated through the public tree validator.

Every run is `validate_ast_tree` on a list of statement nodes with everything it
depends on (operand types, surrounding function, loop depth, scope level, earlier
and later statements) left as open as the case allows.
"""
from absint import Outcome
from models import ret
from sem import Sem, explained, fail, truth

KINDS = ["AST_NODE_UNKNOWN", "AST_NODE_VAR_DEF", "AST_NODE_VAR_ASSIGN", "AST_NODE_FUNCTION_PROTO", "AST_NODE_EXPR",
         "AST_NODE_RETURN", "AST_NODE_UNREACHABLE", "AST_NODE_IF", "AST_NODE_ELIF", "AST_NODE_ELSE",
         "AST_NODE_WHILE", "AST_NODE_IMPORT", "AST_NODE_NAMESPACE", "AST_NODE_COMMENT", "AST_NODE_NOOP",
         "AST_NODE_BREAK", "AST_NODE_CONTINUE"]
INERT = ("AST_NODE_COMMENT", "AST_NODE_UNREACHABLE", "AST_NODE_NOOP")


def short(k):
    return k.replace("AST_NODE_", "").lower().replace("_", " ")


class Case:
    """one abstract situation"""

    def __init__(self, P, kind, child=False, nexts=(), lasts=(), func="main", rtype="INT", depth=0, top=True,
                 expr=True, nparams=0, explicit=False, lead=None, next_child=False, rtok=True, prior_last=None, adjacent=1):
        self.P = P
        self.kind = kind
        self.adjacent = adjacent
        S = self.S = Sem(P)
        if nparams >= 2:
            S.types = ["BOOL", "INT", "VOID"]
        E, st = S.E, S.st
        self.E = E
        self.cfg = dict(kind=kind, child=child, nexts=nexts, lasts=lasts, func=func, rtype=rtype, depth=depth,
                        top=top, expr=expr, nparams=nparams, explicit=explicit, lead=lead)
        # --- analyser state
        mainf = S.new("FunctionDeclaration", "mainfunc", return_type=S.T("INT"))
        self.main = S.new("Symbol", "main", func=S.ptr(mainf), type=P.enum("SYMBOL_FUNC"))
        if func == "main":
            self.cur = self.main
        else:
            f = S.new("FunctionDeclaration", "curfunc", return_type=S.T(rtype))
            self.cur = S.new("Symbol", "cur", func=S.ptr(f), type=P.enum("SYMBOL_FUNC"))
        self.depth = 0 if depth == 0 else E.fresh(st, lo=1, hi=(1 << 30), tag="depth")
        self.scope = S.new("Scope", "scope0", last=0, next=0, child=0)
        if top:
            E.put(st, self.scope, "Scope", "parent", 0)
        else:
            E.put(st, self.scope, "Scope", "parent", S.ptr(S.new("Scope", "parent0", last=0, parent=0)))
        self.state = S.state(scope=S.ptr(self.scope), main_func=S.ptr(self.main), current_func=S.ptr(self.cur),
                             while_loop_depth=self.depth)
        # --- the statement
        self.toks = []
        self.node = self.mknode("n", kind, child=child, expr=expr, nparams=nparams, explicit=explicit, lead=lead, rtok=rtok)
        prev = self.node
        self.nextnodes = []
        for i, k in enumerate(nexts):
            n = self.mknode("next%d" % i, k, child=(next_child and k in
                            ("AST_NODE_IF", "AST_NODE_ELIF", "AST_NODE_ELSE", "AST_NODE_WHILE",
                             "AST_NODE_FUNCTION_PROTO", "AST_NODE_NAMESPACE")))
            E.put(st, prev, "AstNode", "next", S.ptr(n))
            E.put(st, n, "AstNode", "last", S.ptr(prev))
            self.nextnodes.append(n)
            prev = n
        E.put(st, prev, "AstNode", "next", 0)
        prev = self.node
        for i, k in enumerate(lasts):
            n = self.mknode("last%d" % i, k, child=True)
            E.put(st, prev, "AstNode", "last", S.ptr(n))
            E.put(st, n, "AstNode", "next", S.ptr(prev))
            prev = n
        E.put(st, prev, "AstNode", "last", 0)
        # --- contracts
        S.contracts("validate_expr", "scope_find_var", "token_to_type", "setup_and_validate_ast_sub_tree",
                    "scope_add_symbol", "scope_find_name")
        E.models["validate_expr"] = self.m_expr
        E.models["token_to_type"] = self.m_ttt
        E.models["setup_and_validate_ast_sub_tree"] = self.m_sub
        E.models["scope_add_symbol"] = self.m_add
        P.func("check_unused_symbols")
        E.models["check_unused_symbols"] = self.m_unused
        P.func("validate_stmt_import")
        E.models["validate_stmt_import"] = self.m_import

    # ------------------------------------------------------------ construction
    def tok(self, name, typ=None, **kw):
        t = self.S.new("Token", name, **kw)
        if typ:
            self.E.put(self.S.st, t, "Token", "type", self.P.enum(typ))
        return t

    def mknode(self, tag, kind, child=False, expr=True, nparams=0, explicit=False, lead=None, rtok=True):
        S, E, st, P = self.S, self.E, self.S.st, self.P
        n = S.new("AstNode", tag, type=P.enum(kind))
        if child:
            c = S.new("AstNode", tag + ".child")
            E.put(st, n, "AstNode", "child", S.ptr(c))
        else:
            c = None
            E.put(st, n, "AstNode", "child", 0)
        mine = tag == "n"
        if mine:
            self.child = c
        # name [type] op value
        value = self.tok(tag + ".value")
        op = self.tok(tag + ".op", "TOKEN_OPER_EQUAL" if explicit else "TOKEN_OPER_AUTO_EQUAL", next=S.ptr(value))
        if explicit:
            ty = self.tok(tag + ".type", next=S.ptr(op))
            name = self.tok(tag + ".name", "TOKEN_NEW_IDENTIFIER", next=S.ptr(ty))
        else:
            ty = None
            name = self.tok(tag + ".name", "TOKEN_IDENTIFIER", next=S.ptr(op))
        first = name
        if lead:
            first = self.tok(tag + ".lead", lead, next=S.ptr(name))
        E.put(st, n, "AstNode", "token", S.ptr(first))
        E.put(st, n, "AstNode", "token_end", S.ptr(op))
        if mine:
            self.t_value, self.t_type, self.t_name = value, ty, name
        ex = None
        if expr:
            ex = S.new("AstNodeExpr", tag + ".expr")
        if kind == "AST_NODE_VAR_DEF":
            vd = S.new("AstNodeVarDef", tag + ".vardef", name_tok=S.ptr(name), expr=S.ptr(ex), symbol=0,
                       is_implicit=0 if explicit else 1, is_const=0 if lead == "TOKEN_KW_MUT" else 1,
                       is_exported=1 if lead == "TOKEN_KW_EXPORT" else 0)
            E.put(st, n, "AstNode", "var_def", S.ptr(vd))
            if mine:
                self.vd = vd
        elif kind == "AST_NODE_VAR_ASSIGN":
            va = S.new("AstNodeVarAssign", tag + ".varassign", expr=S.ptr(ex), symbol=0)
            E.put(st, n, "AstNode", "var_assign", S.ptr(va))
            if mine:
                self.va = va
        elif kind == "AST_NODE_FUNCTION_PROTO":
            fp = S.new("AstNodeFunctionProto", tag + ".proto", name_tok=S.ptr(name), num_params=nparams, symbol=0)
            ext = 1 if lead == "TOKEN_KW_EXTERNAL" else 0
            E.put(st, fp, "AstNodeFunctionProto", "is_external", ext)
            E.put(st, fp, "AstNodeFunctionProto", "is_export", 1 if lead == "TOKEN_KW_EXPORT" else 0)
            rt = self.tok(tag + ".rtype") if rtok else None
            E.put(st, fp, "AstNodeFunctionProto", "return_type_token", S.ptr(rt) if rt else 0)
            E.put(st, n, "AstNode", "func_proto", S.ptr(fp))
            base = P.field("AstNodeFunctionProto", "params")[0] // 8
            ps = []
            for i in range(nparams):
                pt = self.tok("%s.ptype%d" % (tag, i))
                p = S.new("AstNodeFunctionParam", "%s.param%d" % (tag, i), type_name=S.ptr(pt), symbol=0)
                E.store_cell(st, fp, base + 8 * i, 8, S.ptr(p))
                ps.append((p, pt))
            if mine:
                self.fp, self.rt, self.params = fp, rt, ps
        elif kind in ("AST_NODE_EXPR", "AST_NODE_RETURN", "AST_NODE_IF", "AST_NODE_ELIF", "AST_NODE_WHILE"):
            E.put(st, n, "AstNode", "expr", S.ptr(ex) if ex else 0)
        if mine:
            self.expr = ex
        return n

    # ------------------------------------------------------------ contracts
    def ev(self, st, *e):
        st.props["ev"] = st.props.get("ev", ()) + (e,)

    def m_expr(self, E, st, a, ins, fr):
        f = fail(E, st, 0)
        f.state.props["exprfail"] = 1
        outs = [f]
        e = E.res(st, a[1])
        o = E.robj(st, e)[0]
        tag = st.meta[o].tag
        for t in self.S.types:
            s = st.fork()
            E.put(s, e, "AstNodeExpr", "type", self.S.T(t))
            # is the variable being defined already visible to its own initialiser?
            vis = 0
            for sym in [x[1] for x in s.props.get("ev", ()) if x[0] == "add"]:
                v = E.res(s, E.get(s, sym, "Symbol", "var"))
                if E.res(s, E.get(s, sym, "Symbol", "type")) == self.P.enum("SYMBOL_VAR") and \
                        E.res(s, E.get(s, v, "Variable", "is_defined")) != 0:
                    vis = 1
            self.ev(s, "expr", tag, vis)
            outs.append(Outcome("ret", s, 1))
        return outs

    def m_ttt(self, E, st, a, ins, fr):
        """a token names a type or not, and always the same one"""
        t = E.res(st, a[1])
        if t == 0:
            return [Outcome("null", st, "token_to_type(NULL) from %s" % fr.fn.src)]
        o = E.robj(st, t)[0]
        key = ("ttt", st.meta[o].tag or str(o))
        if key in st.props:
            v = st.props[key]
            return ret(st, 0 if v is None else self.S.T(v))
        outs = []
        s = st.fork()
        s.props[key] = None
        outs.append(Outcome("ret", s, 0))
        ty = E.res(st, E.get(st, t, "Token", "type"))
        names = [self.P.enum(x) for x in ("TOKEN_IDENTIFIER", "TOKEN_DOT_IDENTIFIER", "TOKEN_OPER_REF")]
        if type(ty) is int and ty not in names:
            return outs
        for k in self.S.types:
            s = st.fork()
            s.props[key] = k
            outs.append(Outcome("ret", s, self.S.T(k)))
        return outs

    def m_sub(self, E, st, a, ins, fr):
        n = E.res(st, a[1])
        tag = None
        if n != 0:
            tag = st.meta[E.robj(st, n)[0]].tag
        sv = self.S.ptr(self.state)
        d = E.res(st, E.get(st, sv, "SemanticState", "while_loop_depth"))
        cf = E.res(st, E.get(st, sv, "SemanticState", "current_func"))
        sc = E.res(st, E.get(st, sv, "SemanticState", "scope"))
        f = fail(E, st, 0)
        f.state.props["subfail"] = 1
        s = st
        self.ev(s, "sub", tag, d, cf, sc)
        nxt = E.new_obj(s, "alloc", "adjacent", self.P.structs["Scope"]["size"], 0, "Scope")
        E.put(s, nxt, "Scope", "last", sc)
        E.put(s, sc, "Scope", "next", ("p", nxt, 0))
        ch = E.res(s, E.get(s, sc, "Scope", "child"))
        if ch == 0:
            c = E.new_obj(s, "alloc", "childscope", self.P.structs["Scope"]["size"], 0, "Scope")
            E.put(s, c, "Scope", "parent", sc)
            E.put(s, sc, "Scope", "child", ("p", c, 0))
            ch = ("p", c, 0)
        # the block may have gone on in an adjacent scope after a block of its own
        scopes = [ch]
        if E.res(s, E.get(s, ch, "Scope", "next")) == 0:
            for i in range(self.adjacent):
                d = E.new_obj(s, "alloc", "childscope%d" % (i + 2), self.P.structs["Scope"]["size"], 0, "Scope")
                E.put(s, d, "Scope", "last", scopes[-1])
                E.put(s, scopes[-1], "Scope", "next", ("p", d, 0))
                scopes.append(("p", d, 0))
        s.props["childscopes"] = tuple(scopes)
        E.put(s, sv, "SemanticState", "scope", ("p", nxt, 0))
        return [f, Outcome("ret", s, 1)]

    def m_add(self, E, st, a, ins, fr):
        f = fail(E, st, 0)
        f.state.props["dup"] = 1
        sym = E.res(st, a[1])
        sv = self.S.ptr(self.state)
        sc = E.res(st, E.get(st, sv, "SemanticState", "scope"))
        self.ev(st, "add", sym, sc)
        return [f, Outcome("ret", st, 1)]

    def m_unused(self, E, st, a, ins, fr):
        s = st.fork()
        self.ev(st, "unused", st.meta[E.robj(st, E.res(st, a[0]))[0]].tag)
        s.props["warn"] = 1
        s.props["unusedfail"] = 1
        if not E.unify(s, E.get(s, ("p", "@BUILD_DATA", 0), "BuildData", "werror"), 1):
            return ret(st, 1)
        return [Outcome("ret", st, 1), Outcome("ret", s, 0)]

    def m_import(self, E, st, a, ins, fr):
        f = fail(E, st, 0)
        f.state.props["importfail"] = 1
        return [f, Outcome("ret", st, 1)]

    # ------------------------------------------------------------ run and read back
    def run(self):
        self.outs = self.S.run(self.P.func("validate_ast_tree"), [self.S.ptr(self.state), self.S.ptr(self.node)])
        return self.outs

    def etype(self, st):
        return self.S.tname(st, self.E.get(st, self.expr, "AstNodeExpr", "type"))

    def oper(self, st, name, e=None):
        """True/False/None: is the expression's operator `name`?"""
        E = self.E
        v = E.res(st, E.get(st, e or self.expr, "AstNodeExpr", "oper"))
        r = E.cmp(st, "eq", v, self.P.enum(name), 32)
        return bool(r) if type(r) is int else None

    def flag(self, st, obj, struct, field):
        v = self.E.res(st, self.E.get(st, obj, struct, field))
        return bool(v & 1) if type(v) is int else None

    def events(self, st, kind):
        return [e for e in st.props.get("ev", ()) if e[0] == kind]

    def statef(self, st, field):
        return self.E.res(st, self.E.get(st, self.state, "SemanticState", field))

    def label(self):
        c = self.cfg
        s = "`%s` statement" % short(self.kind)
        ex = []
        if c["lead"]:
            ex.append(c["lead"].replace("TOKEN_KW_", "").lower())
        if self.kind in ("AST_NODE_RETURN",):
            ex.append("with value" if c["expr"] else "without value")
            ex.append("in main" if c["func"] == "main" else "in function returning %s" % c["rtype"])
        if c["child"]:
            ex.append("with block")
        if c["lasts"]:
            ex.append("after " + ", ".join(short(k) for k in c["lasts"]))
        if c["nexts"]:
            ex.append("followed by " + ", ".join(short(k) for k in c["nexts"]))
        if c["depth"]:
            ex.append("inside a loop")
        if not c["top"]:
            ex.append("nested")
        if c["explicit"]:
            ex.append("explicitly typed")
        if c["nparams"]:
            ex.append("%d parameters" % c["nparams"])
        return s + (" (" + "; ".join(ex) + ")" if ex else "")


def all3(xs):
    """three-valued conjunction"""
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def dead_ok(nexts):
    return all(k in INERT for k in nexts)
