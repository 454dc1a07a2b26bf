"""Harness for the LLVM code generator: state object, contracts, read-back."""
from absint import Outcome
from extract import AnalysisBroken
from llvmir import LL
from models import ret
from sem import NAMES, Sem

LLTY = {"BOOL": "i1", "INT": "i64", "FLOAT": "double", "RUNE": "i32", "STR": "ptr", "VOID": "void",
        "&INT": "ptr", "&BOOL": "ptr", "&FLOAT": "ptr", "&RUNE": "ptr", "&STR": "ptr", "&&INT": "ptr"}


class Gen:
    def __init__(self, P, func="main", loop=None, debug=None):
        self.P = P
        S = self.S = Sem(P)
        E, st = S.E, S.st
        self.E = E
        self.L = LL(P, E)
        L = self.L
        mainfd = S.new("FunctionDeclaration", "mainfd", return_type=S.T("INT"), ref=L.v(("fn", "main")))
        self.main = S.new("Symbol", "main", func=S.ptr(mainfd), type=P.enum("SYMBOL_FUNC"))
        self.cur = self.main
        if func != "main":
            fd = S.new("FunctionDeclaration", "curfd", return_type=S.T("INT"), ref=L.v(("fn", "cur")))
            self.cur = S.new("Symbol", "cur", func=S.ptr(fd), type=P.enum("SYMBOL_FUNC"))
        self.scopes = []
        self.sem = S.new("SemanticState", "sem")
        self.state = S.new("SkullStateLLVM", "gen", builder=L.v(("builder",)), ctx=L.v(("ctx",)),
                           module=L.v(("module",)), current_func=S.ptr(self.cur), main_func=S.ptr(self.main),
                           target_machine=0, semantic=S.ptr(self.sem),
                           current_while_cond=L.v(("bb", "loopcond", None)) if loop else 0,
                           current_while_end=L.v(("bb", "loopend", None)) if loop else 0)
        st.props["bb"] = ("bb", "start", None)
        # a loop is not entered before the function is
        st.props["infn"] = ("fn", "main" if func == "main" else "cur")
        st.props["before"] = ("bb", "fnentry", None)
        st.props[("entry", st.props["infn"])] = st.props["before"] if loop else st.props["bb"]
        if debug is not None:
            E.put(st, ("p", "@BUILD_DATA", 0), "BuildData", "debug", debug)
        self.exprs = {}
        E.models["find_expr_node_location"] = lambda E, st, a, i, f: ret(st, E.fresh_nn(st, "Location"))
        P.func("gen_expr")
        self.gen_expr = P.func("gen_expr")
        E.recursion = self.rec
        E.rec_limit["*"] = 4

    # ------------------------------------------------------------ scopes
    def scope_chain(self, nblocks):
        """the scopes semantic analysis left for `nblocks` consecutive blocks"""
        S, E, st = self.S, self.E, self.S.st
        parent = S.new("Scope", "outer", last=0)
        chain = [S.new("Scope", "s%d" % i, parent=S.ptr(parent) if i == 0 else 0) for i in range(nblocks + 1)]
        self.kids = []
        for i, c in enumerate(chain):
            E.put(st, c, "Scope", "last", S.ptr(chain[i - 1]) if i else 0)
            E.put(st, c, "Scope", "next", S.ptr(chain[i + 1]) if i < nblocks else 0)
            if i < nblocks:
                k = S.new("Scope", "s%d.child" % i, parent=S.ptr(c), last=0)
                k2 = S.new("Scope", "s%d.child2" % i, parent=0, last=S.ptr(k), next=0, child=0)
                E.put(st, k, "Scope", "next", S.ptr(k2))
                E.put(st, c, "Scope", "child", S.ptr(k))
                self.kids.append((k, k2))
            else:
                E.put(st, c, "Scope", "child", 0)
        E.put(st, self.sem, "SemanticState", "scope", S.ptr(chain[0]))
        self.chain = chain
        return chain

    def scope_tag(self, st):
        return self.E.meta_tag(st, self.E.get(st, self.sem, "SemanticState", "scope"))

    # ------------------------------------------------------------ expressions
    def expr(self, tag, typ, form="dyn"):
        """an expression whose lowering is left to the contract"""
        e = self.S.new("AstNodeExpr", tag, type=self.S.T(typ))
        self.exprs[e] = (tag, typ, form)
        return e

    def m_expr(self, E, st, a, ins, fr):
        """gen_expr: a value of the expression's type, evaluated here and now"""
        e = E.res(st, a[0])
        if e == 0:
            return [Outcome("null", st, "gen_expr(NULL)")]
        o = E.robj(st, e)[0]
        if o not in self.exprs:
            return None
        tag, typ, form = self.exprs[o]
        self.L.emit(st, "eval", tag)
        v = self.L.v(("in", tag, form))
        return ret(st, ("agg", ((0, v), (1, self.S.T(typ)))))

    def rec(self, E, st, fn, args):
        if fn.src == "gen_expr":
            return self.m_expr(E, st, args, {}, None)
        return None

    # ------------------------------------------------------------ reading results
    def field(self, st, agg, i):
        agg = self.E.res(st, agg) if type(agg) is tuple and agg[0] == "s" else agg
        if type(agg) is tuple and agg[0] == "agg":
            for j, v in agg[1]:
                if j == i:
                    return v
            return 0
        raise AnalysisBroken("expression result is not a value/type pair: %s" % (agg,))

    def run(self, fn, args, st=None):
        return self.E.exec((st or self.S.st).fork(), self.P.func(fn), args)


def show(t):
    """readable form of a term"""
    if type(t) is not tuple:
        return str(t)
    if t[0] == "in":
        return "<%s>" % t[1]
    if t[0] == "const":
        return "%s %s" % (t[1], show(t[2]))
    if t[0] == "bb":
        return "block %s" % (t[1],)
    if t[0] == "fn":
        return "@%s" % (t[1],)
    return "%s(%s)" % (t[0], ", ".join(show(x) for x in t[1:]))
