"""Harness for the semantic analyser: contracts of the functions it is built from.

Every function given a contract here is itself analysed against that contract by
one of the checks (see CONTRACTS), so that the modular argument closes.
"""
from absint import Engine, Outcome, State
from extract import AnalysisBroken
from models import base_models, diag_model, m_bool, m_fresh_str, m_unknown, ret

BASIC = ["BOOL", "INT", "FLOAT", "RUNE", "STR", "VOID"]
REFS = ["&INT", "&BOOL"]
ALLT = BASIC + REFS
NAMES = {"BOOL": "Bool", "INT": "Int", "FLOAT": "Float", "RUNE": "Rune", "STR": "Str", "VOID": "Void",
         "&INT": "&Int", "&BOOL": "&Bool", "&&INT": "&&Int", "&FLOAT": "&Float", "&RUNE": "&Rune", "&STR": "&Str"}


def fail(E, st, v=0):
    """an explained failure"""
    s = st.fork()
    s.props["err"] = 1
    s.props["sub"] = 1
    return Outcome("ret", s, v)


class Sem:
    """one analysis universe: engine, initial state, type domain"""

    def __init__(self, P, types=ALLT):
        self.P = P
        self.types = types
        m = base_models()
        m["fmt_message"] = diag_model
        m["token_to_mbs_str"] = m["token_to_string"] = self.m_tokname
        for n in ("uvsnprintf", "c32sdup", "c32stombs_", "mangle_name",
                  "create_main_func_name", "strndup"):
            m[n] = m_fresh_str
        m["c32stombs"] = self.m_c32stombs
        m["mbstoc32s"] = self.m_mbs
        for n in ("c32slen", "c32schr", "strrstr", "c32isdigit", "c32isxdigit", "c32isalnum"):
            m[n] = m_unknown
        for n in ("c32sncmp", "c32scmp", "token_cmp"):
            m[n] = m_bool
        m["c32sncpy"] = m_unknown
        m["is_valid_identifier_str"] = lambda E, st, a, i, f: ret(st, 1)
        m["find_expr_node_location"] = self.m_place("at:", "Location")
        m["find_expr_node_token"] = self.m_place("of:", "Token")
        m["get_reference_type"] = self.m_get_ref
        for n in ("free_ast_tree", "free_variable", "free_scope", "free_tokens", "free_function_declaration"):
            m[n] = lambda E, st, a, i, f: ret(st)
        if Engine.diag_hook:
            m["strdup"] = self.m_copy
        self.E = Engine(P, m)
        self.st = State()
        self.tobj = {}
        for t in REFS + ["&&INT"]:
            self.T(t)
        for t in BASIC:
            if "TYPE_" + t not in P.globals:
                raise AnalysisBroken("global TYPE_%s not found" % t)

    # ------------------------------------------------------------- helpers
    def T(self, t):
        if t[0] == "&" and t not in self.tobj:
            inner = self.T(t[1:])
            self.tobj[t] = o = self.E.obj(self.st, "Type", t)
            self.E.put(self.st, o, "Type", "inner", inner)
        return ("p", self.tobj[t], 0) if t in self.tobj else ("p", "@TYPE_" + t, 0)

    def tname(self, st, v):
        """which type does v denote? name, or None when the analysis does not know"""
        v = self.E.res(st, v)
        for t in BASIC + list(self.tobj):
            if v == self.T(t):
                return t
        return None

    def state(self, **kw):
        """a SemanticState object with its two functions"""
        E, st = self.E, self.st
        s = E.obj(st, "SemanticState", "state")
        for k, v in kw.items():
            E.put(st, s, "SemanticState", k, v)
        return s

    def new(self, typ, tag, **kw):
        o = self.E.obj(self.st, typ, tag)
        for k, v in kw.items():
            self.E.put(self.st, o, typ, k.replace("__", "."), v)
        return o

    def new_str(self, tag, n):
        """a character string of n bytes whose contents are tracked"""
        o = self.E.new_obj(self.st, "lazy", "harness", n, "u", "#str", tag)
        return o

    def en(self, name):
        return self.P.enum(name)

    def ptr(self, o):
        return ("p", o, 0)

    def run(self, fn, args, st=None):
        return self.E.exec((st or self.st).fork(), fn, args)

    # ------------------------------------------------------------- contracts
    def m_place(self, what, typ):
        """the token (or its location) an expression is reported at: remembered by the expression"""
        def m(E, st, a, ins, fr):
            v = E.res(st, a[0])
            r = E.fresh_nn(st, typ)
            if type(v) is tuple and v[0] == "p" and v[1] in st.meta and isinstance(st.meta[v[1]].tag, str):
                o = E.robj(st, r)[0]
                st.meta[o].tag = what + st.meta[v[1]].tag
            return ret(st, r)
        return m

    def m_copy(self, E, st, a, ins, fr):
        """a copy of a string: remembered by where the original was found"""
        v = E.res(st, a[0])
        o = E.new_obj(st, "alloc", "copy", None, "u")
        if type(v) is tuple:
            from checks.messages import field_str
            st.meta[o].tag = "copy:" + field_str(E, st, v)
        return ret(st, ("p", o, 0))

    def m_tokname(self, E, st, a, ins, fr):
        """the text of a token: remembered by the token it came from"""
        t = E.res(st, a[0])
        o = E.new_obj(st, "alloc", "text", None, "u")
        if type(t) is tuple and t[0] == "p" and t[1] in st.meta and st.meta[t[1]].tag:
            st.meta[o].tag = "text:" + st.meta[t[1]].tag
        return ret(st, ("p", o, 0))

    def textof(self, st, v):
        """tag of the token a string was made from"""
        v = self.E.res(st, v)
        if type(v) is tuple and v[0] == "p" and v[1] in st.meta:
            t = st.meta[v[1]].tag
            return t[5:] if t and t.startswith("text:") else t
        return None

    def m_c32stombs(self, E, st, a, ins, fr):
        out = m_fresh_str(E, st.fork(), a, ins, fr)
        src = E.res(st, a[0])
        if type(src) is tuple and src[0] == "p" and src[1] in st.meta and st.meta[src[1]].tag:
            o = E.res(out[0].state, out[0].ret)[1]
            out[0].state.meta[o].tag = st.meta[src[1]].tag
        elif Engine.diag_hook and type(src) is tuple:
            from checks.messages import field_str
            out[0].state.meta[E.res(out[0].state, out[0].ret)[1]].tag = "copy:" + field_str(E, st, src)
        loc = E.res(st, a[1]) if len(a) > 1 else 0
        if loc != 0:
            out.append(fail(E, st, 0))
        return out

    def m_mbs(self, E, st, a, ins, fr):
        out = m_fresh_str(E, st.fork(), a, ins, fr)
        out.append(fail(E, st, 0))
        return out

    def m_get_ref(self, E, st, a, ins, fr):
        t = self.tname(st, a[1])
        if E.res(st, a[1]) == 0:
            return ret(st, 0)
        if t and "&" + t in self.tobj:
            return ret(st, self.T("&" + t))
        o = E.new_obj(st, "lazy", "ref", None, "u", "Type", "&" + str(t))
        E.put(st, o, "Type", "inner", a[1])
        return ret(st, ("p", o, 0))

    def m_validate_expr(self, E, st, a, ins, fr):
        """(false, explained) or (true, unexplained, type set)"""
        outs = [fail(E, st, 0)]
        e = E.res(st, a[1])
        for t in self.types:
            s = st.fork()
            E.put(s, e, "AstNodeExpr", "type", self.T(t))
            s.props["validated"] = s.props.get("validated", ()) + (E.robj(s, e)[0],)
            outs.append(Outcome("ret", s, 1))
        return outs

    def m_scope_find_var(self, E, st, a, ins, fr):
        outs = [fail(E, st, 0)]
        outs[0].state.props["notfound"] = 1
        s = st.fork()
        sym = E.obj(s, "Symbol", "found")
        var = E.obj(s, "Variable", "foundvar")
        E.put(s, sym, "Symbol", "type", self.en("SYMBOL_VAR"))
        E.put(s, sym, "Symbol", "var", ("p", var, 0))
        E.put(s, var, "Variable", "is_defined", 1)
        s.props["found"] = ("p", sym, 0)
        s.props["foundvar"] = ("p", var, 0)
        outs.append(Outcome("ret", s, ("p", sym, 0)))
        return outs

    def m_token_to_type(self, E, st, a, ins, fr):
        outs = [Outcome("ret", st.fork(), 0)]
        for t in self.types:
            outs.append(Outcome("ret", st.fork(), self.T(t)))
        n = st.props.get("ttt", 0)
        for o in outs:
            o.state.props["ttt"] = n + 1
            o.state.props[("ttt", n)] = (o.ret, E.res(o.state, a[1]))
        return outs

    def m_sub_tree(self, E, st, a, ins, fr):
        s = st.fork()
        s.props["subtree"] = 1
        f = fail(E, st, 0)
        return [f, Outcome("ret", s, 1)]

    def m_scope_add_symbol(self, E, st, a, ins, fr):
        s = st.fork()
        sym = E.res(s, a[1])
        s.props["added"] = s.props.get("added", ()) + (sym,)
        f = fail(E, st, 0)
        f.state.props["dup"] = 1
        return [f, Outcome("ret", s, 1)]

    def m_find_name(self, E, st, a, ins, fr):
        """well-formed symbol of each kind, or none; the same answer for the same name"""
        text = self.textof(st, a[1])
        st.props["lookupname"] = text
        key = ("name", text)
        if text is not None and key in st.props:
            return ret(st, st.props[key])
        outs = []
        for k, f, t in ((None, None, None), ("SYMBOL_VAR", "var", "Variable"), ("SYMBOL_FUNC", "func", "FunctionDeclaration"),
                        ("SYMBOL_ALIAS", None, None), ("SYMBOL_NAMESPACE", "scope", "Scope")):
            s = st.fork()
            v = 0
            if k:
                sym = E.obj(s, "Symbol", "named")
                v = ("p", sym, 0)
                E.put(s, sym, "Symbol", "type", self.en(k))
                if f and k != "SYMBOL_NAMESPACE":
                    E.put(s, sym, "Symbol", f, ("p", E.obj(s, t, "named." + f), 0))
                elif k == "SYMBOL_ALIAS":
                    E.put(s, sym, "Symbol", "var", 0)
                    E.put(s, sym, "Symbol", "expr_type", self.T("FLOAT"))
            s.props["named"] = k
            s.props["namedsym"] = v
            s.props[key] = v
            outs.append(Outcome("ret", s, v))
        return outs

    def contracts(self, *names):
        tab = {
            "validate_expr": self.m_validate_expr,
            "scope_find_var": self.m_scope_find_var,
            "token_to_type": self.m_token_to_type,
            "setup_and_validate_ast_sub_tree": self.m_sub_tree,
            "scope_add_symbol": self.m_scope_add_symbol,
            "scope_find_name": self.m_find_name,
        }
        for n in names:
            self.P.func(n)
            self.E.models[n] = tab[n]


def explained(E, st):
    """did this path print an error, or a warning that --werror turns into one?"""
    if st.props.get("err"):
        return True
    if st.props.get("warn"):
        w = E.get(st, ("p", "@BUILD_DATA", 0), "BuildData", "werror")
        return E.res(st, w) == 1
    return False


def truth(E, st, v):
    """1, 0 or None (unknown) of a C boolean"""
    v = E.res(st, v)
    if type(v) is int:
        return 1 if v & 1 else 0
    return None


def where(E, o):
    if o.where:
        fn, b = o.where
        for ins in reversed(fn.blocks[b]):
            if ins.get("line"):
                return "%s:%s (%s)" % (fn.file, ins["line"], fn.src)
        return "%s (%s)" % (fn.file, fn.src)
    return "?"
