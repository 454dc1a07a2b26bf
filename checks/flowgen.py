"""Control flow of the LLVM code the generator emits: the emitted block graph, walked."""
from absint import Outcome
from gen import Gen, show
from sem import where

FUEL = 3     # loop conditions evaluated per trace
BODY = ("fall", "fallnew", "ret", "retvoid", "break", "continue")


class Flow:
    """a statement list over gen_tree, with nested blocks left to the contract"""

    def __init__(self, P, stmts, loop=True, bodies=BODY, debug=None, func="function"):
        self.P = P
        G = self.G = Gen(P, func=func, loop=loop, debug=debug)
        self.stmts = stmts
        self.loop = loop
        self.bodies = bodies
        S, E, st = G.S, G.E, G.S.st
        self.bodytags = {}
        self.nblocks = 0
        self.nodes = []
        E.models["gen_expr"] = G.m_expr
        P.func("gen_tree")
        old = E.recursion

        def rec(E, st, fn, args):
            if fn.src == "gen_tree":
                return self.m_tree(E, st, args)
            return old(E, st, fn, args)
        E.recursion = rec
        E.rec_limit["*"] = 8
        for x in stmts:
            self.build(x)
        for i, n in enumerate(self.nodes):
            E.put(st, n, "AstNode", "next", S.ptr(self.nodes[i + 1]) if i + 1 < len(self.nodes) else 0)
            E.put(st, n, "AstNode", "last", S.ptr(self.nodes[i - 1]) if i else 0)
        G.scope_chain(self.nblocks)

    def node(self, kind, **kw):
        S = self.G.S
        n = S.new("AstNode", "n%d" % len(self.nodes), type=self.P.enum(kind), token=S.ptr(S.new("Token", "tok")), child=0, **kw)
        self.nodes.append(n)
        return n

    def block(self, n, tag):
        c = self.G.S.new("AstNode", tag)
        self.bodytags[c] = (tag, self.nblocks)
        self.nblocks += 1
        self.G.E.put(self.G.S.st, n, "AstNode", "child", self.G.S.ptr(c))

    def build(self, x):
        G, S, P, E = self.G, self.G.S, self.P, self.G.E
        k = x[0]
        if k == "if":
            for i, (cond, body, comments) in enumerate(x[1]):
                kind = "AST_NODE_IF" if i == 0 else ("AST_NODE_ELIF" if cond else "AST_NODE_ELSE")
                n = self.node(kind, expr=S.ptr(G.expr(cond, "BOOL")) if cond else 0)
                self.block(n, body)
                for _ in range(comments):
                    self.node("AST_NODE_COMMENT")
        elif k == "while":
            self.block(self.node("AST_NODE_WHILE", expr=S.ptr(G.expr(x[1], "BOOL"))), x[2])
        elif k == "ns":
            self.block(self.node("AST_NODE_NAMESPACE"), x[1])
        elif k == "return":
            self.node("AST_NODE_RETURN", expr=S.ptr(G.expr(x[1], "INT")) if x[1] else 0)
        elif k in ("break", "continue", "unreachable", "comment", "noop", "import"):
            self.node("AST_NODE_" + k.upper())
        elif k == "assign":
            v = S.new("Variable", "v", is_const=0, is_global=0, ref=G.L.v(("place", x[1])), type=S.T("INT"))
            s = S.new("Symbol", "vs", var=S.ptr(v), type=P.enum("SYMBOL_VAR"))
            va = S.new("AstNodeVarAssign", "va", symbol=S.ptr(s), expr=S.ptr(G.expr(x[1], "INT")))
            self.node("AST_NODE_VAR_ASSIGN", var_assign=S.ptr(va))
        elif k == "define":
            v = S.new("Variable", "v", is_const=1, is_global=0, type=S.T("INT"), is_const_lit=0,
                      linkage_name=S.ptr(S.new_str("link", None)), name=S.ptr(S.new_str("name", None)))
            s = S.new("Symbol", "vs", var=S.ptr(v), type=P.enum("SYMBOL_VAR"))
            vd = S.new("AstNodeVarDef", "vd", symbol=S.ptr(s), expr=S.ptr(G.expr(x[1], "INT")))
            self.node("AST_NODE_VAR_DEF", var_def=S.ptr(vd))
        elif k == "alias":
            vd = S.new("AstNodeVarDef", "vd", symbol=0, expr=0)
            self.node("AST_NODE_VAR_DEF", var_def=S.ptr(vd))
        elif k == "call":
            fd = S.new("FunctionDeclaration", "fd", num_params=1, return_type=S.T("VOID"), ref=G.L.v(("fn", x[1])),
                       type=G.L.v(("fnty", x[1])))
            sym = S.new("Symbol", "fs", func=S.ptr(fd), type=P.enum("SYMBOL_FUNC"))
            arg = S.new("AstNode", "arg", expr=S.ptr(G.expr(x[1] + ".arg", "INT")), next=0)
            fc = S.new("AstNodeFunctionCall", "fc", func_name_tok=S.ptr(S.new("Token", "t")), symbol=S.ptr(sym), num_values=1,
                       params=S.ptr(arg))
            e = S.new("AstNodeExpr", "e", oper=P.enum("EXPR_FUNC"), type=S.T("VOID"), lhs__func_call=S.ptr(fc))
            self.node("AST_NODE_EXPR", expr=S.ptr(e))
        else:
            raise KeyError(k)

    # ------------------------------------------------------------ nested blocks
    def m_tree(self, E, st, a):
        G = self.G
        n = E.res(st, a[0])
        o = E.robj(st, n)[0]
        tag, i = self.bodytags.get(o, (None, None))
        if tag is None:
            return None
        G.L.emit(st, "tree", tag)
        sc = E.res(st, E.get(st, G.sem, "SemanticState", "scope"))
        k, k2 = G.kids[i]
        if sc != ("p", k, 0):
            st.props["badscope"] = (tag, G.scope_tag(st))
        cf = E.res(st, E.get(st, G.state, "SkullStateLLVM", "current_func"))
        if cf != ("p", G.cur, 0):
            st.props["badfunc"] = tag
        st.props["order"] = st.props.get("order", ()) + (tag,)
        outs = []
        inloop = E.res(st, E.get(st, G.state, "SkullStateLLVM", "current_while_end")) != 0
        for b in self.bodies:
            if b in ("break", "continue") and not inloop:
                continue
            s = st.fork()
            s.props[("body", tag)] = b
            v, t = 0, 0
            if b == "fallnew":
                m = s.props.get("nbb", 0)
                s.props["nbb"] = m + 1
                nb = ("bb", m, "inner")
                G.L.v(nb)
                G.L.emit(s, "br", nb)
                s.props["bb"] = nb
                E.put(s, G.sem, "SemanticState", "scope", ("p", k2, 0))
            elif b in ("ret", "retvoid"):
                v = G.L.inst(s, "ret", ("in", tag + " result", "dyn") if b == "ret" else None)
                t = G.S.T("INT" if b == "ret" else "VOID")
            elif b in ("break", "continue"):
                f = "current_while_end" if b == "break" else "current_while_cond"
                v = G.L.inst(s, "br", G.L.t(s, E.get(s, G.state, "SkullStateLLVM", f)))
                t = G.S.T("VOID")
            outs.append(Outcome("ret", s, ("agg", ((0, v), (1, t)))))
        return outs

    def run(self):
        return self.G.run("gen_tree", [self.G.S.ptr(self.nodes[0]), self.G.S.ptr(self.G.state)])

    # ------------------------------------------------------------ emitted graph
    def traces(self, st):
        blocks = {}
        for bb, ins in self.G.L.code(st):
            blocks.setdefault(bb, []).append(ins)
        final = st.props["bb"]
        out = set()
        noop = self.noops(st)

        def walk(bb, ev, tests, steps):
            if steps > 200:
                out.add(ev + (("endless",),))
                return
            if bb is None:
                out.add(ev + (("jump to nowhere",),))
                return
            if bb[1] in ("loopcond", "loopend"):
                out.add(ev + (("goto", bb[1]),))
                return
            ins_l = blocks.get(bb, [])
            for i, ins in enumerate(ins_l):
                k = ins[0]
                if k in ("br", "condbr", "ret", "unreachable"):
                    if i + 1 < len(ins_l):
                        out.add(ev + (("code after a terminator", ins_l[i + 1][0]),))
                        return
                if k == "br":
                    return walk(ins[1], ev, tests, steps + 1)
                if k == "condbr":
                    c = ins[1]
                    if tests >= FUEL:
                        out.add(ev + (("more",),))
                        return
                    walk(ins[2], ev + (("test", c, True),), tests + 1, steps + 1)
                    walk(ins[3], ev + (("test", c, False),), tests + 1, steps + 1)
                    return
                if k == "ret":
                    out.add(ev + (("ret", ins[1]),))
                    return
                if k == "unreachable":
                    out.add(ev + (("unreachable",),))
                    return
                if k == "tree":
                    ev = ev + (("tree", ins[1]),)
                elif k == "eval":
                    ev = ev + (("eval", ins[1]),)
                elif k == "store" and ins[2] not in noop:
                    ev = ev + (("store", ins[1], ins[2]),)
                elif k == "call":
                    ev = ev + (("call", ins[1], ins[2]),)
            if bb == final and not self.ended(st):
                out.add(ev + (("END",),))
            else:
                out.add(ev + (("block without terminator",),))
        walk(("bb", "start", None), (), 0, 0)
        return out

    def ended(self, st):
        return st.props.get("ended", False)

    @staticmethod
    def noops(st):
        """slots that are written but never read and never escape"""
        code = st.props.get("code", ())
        slots = {("ins", n) for n, (b, i) in enumerate(code) if i[0] == "alloca"}

        def uses(t):
            if t in slots:
                yield t
            elif type(t) is tuple:
                for x in t:
                    yield from uses(x)
        for b, i in code:
            if i[0] == "store":
                slots -= set(uses(i[1]))
            else:
                slots -= set(uses(i[1:]))
        return slots

    # ------------------------------------------------------------ reference semantics
    def expected(self, st):
        """-> (traces, the list ends in a terminating statement)"""
        out = set()
        term = [False]

        def body(tag, ev, cont, brk, con):
            b = st.props.get(("body", tag))
            ev = ev + (("tree", tag),)
            if b in ("fall", "fallnew"):
                cont(ev)
            elif b == "ret":
                out.add(ev + (("ret", ("in", tag + " result", "dyn")),))
            elif b == "retvoid":
                out.add(ev + (("ret", None),))
            elif b == "break":
                brk(ev)
            elif b == "continue":
                con(ev)
            else:
                out.add(ev + (("block never generated", tag),))

        def obrk(ev):
            out.add(ev + (("goto", "loopend"),))

        def ocon(ev):
            out.add(ev + (("goto", "loopcond"),))

        def tests(ev):
            return sum(1 for e in ev if e[0] == "test")

        def test(cond, ev, yes, no):
            ev = ev + (("eval", cond),)
            if tests(ev) >= FUEL:
                out.add(ev + (("more",),))
                return
            c = ("in", cond, "dyn")
            yes(ev + (("test", c, True),))
            no(ev + (("test", c, False),))

        def go(i, ev):
            if i == len(self.stmts):
                out.add(ev + (("END",),))
                return
            x = self.stmts[i]
            k = x[0]
            nxt = lambda e: go(i + 1, e)
            if k == "if":
                def arm(j, ev):
                    if j == len(x[1]):
                        return nxt(ev)
                    cond, bt, _ = x[1][j]
                    if cond is None:
                        return body(bt, ev, nxt, obrk, ocon)
                    test(cond, ev, lambda e: body(bt, e, nxt, obrk, ocon), lambda e: arm(j + 1, e))
                arm(0, ev)
            elif k == "while":
                def loop(ev):
                    test(x[1], ev, lambda e: body(x[2], e, loop, nxt, loop), nxt)
                loop(ev)
            elif k == "ns":
                body(x[1], ev, nxt, obrk, ocon)
            elif k == "return":
                if x[1]:
                    out.add(ev + (("eval", x[1]), ("ret", ("in", x[1], "dyn"))))
                else:
                    out.add(ev + (("ret", None),))
            elif k == "break":
                obrk(ev)
            elif k == "continue":
                ocon(ev)
            elif k == "unreachable":
                out.add(ev + (("unreachable",),))
            elif k == "assign":
                nxt(ev + (("eval", x[1]), ("store", ("in", x[1], "dyn"), ("place", x[1]))))
            elif k == "define":
                nxt(ev + (("eval", x[1]),))
            elif k == "call":
                nxt(ev + (("eval", x[1] + ".arg"), ("call", ("fn", x[1]), (("in", x[1] + ".arg", "dyn"),))))
            else:
                nxt(ev)
        go(0, ())
        return out

    def ends(self, st):
        """does the list itself stop at a terminating statement?"""
        for x in self.stmts:
            if x[0] in ("return", "break", "continue", "unreachable"):
                return True
            if x[0] == "ns" and st.props.get(("body", x[1])) not in ("fall", "fallnew"):
                return True
        return False


def name_of(stmts):
    parts = []
    for x in stmts:
        if x[0] == "if":
            parts.append("/".join("if" if i == 0 else ("elif" if c else "else") for i, (c, b, m) in enumerate(x[1])) +
                         (" with comments" if any(m for _, _, m in x[1]) else ""))
        else:
            parts.append({"ns": "namespace"}.get(x[0], x[0]) + (" value" if x[0] == "return" and x[1] else ""))
    return "; ".join(parts)


def ev_text(ev):
    out = []
    for e in ev:
        if e[0] == "tree":
            out.append("run " + e[1])
        elif e[0] == "test":
            out.append("%s is %s" % (show(e[1]), str(e[2]).lower()))
        else:
            out.append(" ".join(show(x) for x in e))
    return " > ".join(out)


def judge(ctx, P, stmts, **kw):
    F = Flow(P, stmts, **kw)
    G, E = F.G, F.G.E
    outs = F.run()
    ctx.used(E)
    ctx.count("statement_lists")
    ctx.count("paths", len(outs))
    nm = name_of(stmts)
    key = nm.replace(" ", "-")
    ctx.require(outs, "no path for " + nm)
    for o in outs:
        st = o.state
        if o.kind != "ret":
            ctx.violation(key + "/" + o.kind, "generating `%s` ends in %s (%s)" % (nm, o.kind, o.ret))
            continue
        v = G.L.t(st, G.field(st, o.ret, 0))
        tv = E.res(st, G.field(st, o.ret, 1))
        ended = v is not None or tv != 0
        st.props["ended"] = ended
        chosen = ", ".join("%s: %s" % (k[1], b) for k, b in sorted(st.props.items(), key=str) if isinstance(k, tuple) and k[0] == "body")
        want, got = F.expected(st), F.traces(st)
        ctx.count("traces", len(got))
        if ended != F.ends(st):
            ctx.violation(key + "/end", "`%s`%s: the generator %s" % (nm, " (%s)" % chosen if chosen else "",
                          "believes the block ended although it goes on" if ended else "does not know that the block ended"))
        elif got != want:
            bad = sorted(got - want, key=str)
            miss = sorted(want - got, key=str)
            ctx.violation(key, "`%s`%s: emitted code can %s%s" % (
                nm, " with blocks (%s)" % chosen if chosen else "",
                ev_text(bad[0]) if bad else "never " + ev_text(miss[0]),
                "; expected " + ev_text(miss[0]) if bad and miss else ""))
        if ended and v is None:
            ctx.violation(key + "/value", "`%s`: a terminated block is reported without a value" % nm)
        for f in ("current_while_cond", "current_while_end"):
            x = G.L.t(st, E.get(st, G.state, "SkullStateLLVM", f))
            w = ("bb", {"current_while_cond": "loopcond", "current_while_end": "loopend"}[f], None) if F.loop else None
            if x != w:
                ctx.violation(key + "/" + f, "`%s` leaves the enclosing loop's %s changed, so a later break or continue goes astray" % (nm, f))
        if E.res(st, E.get(st, G.state, "SkullStateLLVM", "current_func")) != ("p", G.cur, 0):
            ctx.violation(key + "/func", "`%s` changes the function being generated" % nm)
        if "badscope" in st.props:
            ctx.violation(key + "/scope", "`%s`: block %s is generated in scope %s" % ((nm,) + st.props["badscope"]))
        elif G.scope_tag(st) != "s%d" % scopes_done(F, st):
            ctx.violation(key + "/scopeafter", "`%s`: generation goes on in scope %s instead of s%d, out of step with semantic analysis" % (
                nm, G.scope_tag(st), scopes_done(F, st)))


def scopes_done(F, st):
    n = 0
    for x in F.stmts:
        if x[0] == "if":
            n += len(x[1])
        elif x[0] == "while":
            n += 1
        elif x[0] == "ns":
            n += 1
            if st.props.get(("body", x[1])) not in ("fall", "fallnew"):
                return n
        elif x[0] in ("return", "break", "continue", "unreachable"):
            return n
    return n


def control(ctx):
    """emitted control flow follows the statements: conditions, branches, loops, break, continue, return"""
    ctx.rule = ("gen_tree is analysed on statement lists (if chains with and without elif/else and interleaved comments, loops, "
                "namespaces, return/break/continue/unreachable, assignments, calls and pairs of these) with every behaviour of "
                "the nested blocks (fall through in the same or another block, return, break, continue); the recorded block graph "
                "is walked and its traces compared with those of the source statements; loop targets, current function and scope "
                "position must be restored.")
    ctx.assumptions = ["nested blocks obey the contract checked here (induction over nesting depth)",
                       "if chains of up to four arms stand for longer ones; traces with up to %d tests" % FUEL]
    P = ctx.P
    three = ("fall", "ret", "fallnew")
    I = lambda *arms: ("if", list(arms))
    # single statements, everything nested blocks can do
    judge(ctx, P, [I(("c0", "b0", 0))])
    judge(ctx, P, [I(("c0", "b0", 0))], loop=False, func="main")
    judge(ctx, P, [I(("c0", "b0", 0), (None, "b1", 0))])
    judge(ctx, P, [I(("c0", "b0", 1), (None, "b1", 0))], bodies=three)
    judge(ctx, P, [I(("c0", "b0", 0), ("c1", "b1", 0))], bodies=BODY[:3] + ("break",))
    judge(ctx, P, [I(("c0", "b0", 2), ("c1", "b1", 0))], bodies=three)
    judge(ctx, P, [I(("c0", "b0", 0), ("c1", "b1", 0), (None, "b2", 0))], bodies=three, debug=0)
    judge(ctx, P, [I(("c0", "b0", 1), ("c1", "b1", 2), (None, "b2", 0))], bodies=three, debug=0)
    judge(ctx, P, [I(("c0", "b0", 0), ("c1", "b1", 0), ("c2", "b2", 0))], bodies=three, debug=0)
    judge(ctx, P, [I(("c0", "b0", 0), ("c1", "b1", 0), ("c2", "b2", 0), (None, "b3", 0))], bodies=("fallnew", "ret"), debug=0)
    judge(ctx, P, [("while", "c0", "b0")])
    judge(ctx, P, [("while", "c0", "b0")], loop=False, func="main")
    judge(ctx, P, [("ns", "b0")])
    judge(ctx, P, [("ns", "b0")], loop=False, func="main")
    for x in (("return", "v"), ("return", None), ("unreachable",), ("assign", "a"), ("define", "d"), ("alias",), ("call", "f"),
              ("comment",), ("noop",), ("import",), ("break",), ("continue",)):
        judge(ctx, P, [x])
        judge(ctx, P, [("assign", "a0"), x])
        judge(ctx, P, [x, ("assign", "a1")])
        judge(ctx, P, [("while", "c0", "b0"), x], bodies=("fallnew", "break"))
        judge(ctx, P, [I(("c0", "b0", 0)), x], bodies=("fallnew", "ret"))
        judge(ctx, P, [I(("c0", "b0", 1)), x], bodies=("fallnew", "ret"))
        judge(ctx, P, [I(("c0", "b0", 0), (None, "b1", 1)), x], bodies=("fall", "ret"))
    judge(ctx, P, [("while", "c0", "b0"), ("while", "c1", "b1")], bodies=("fall", "fallnew", "break", "continue"))
    judge(ctx, P, [I(("c0", "b0", 0)), I(("c1", "b1", 0))], bodies=three)
    judge(ctx, P, [I(("c0", "b0", 0), (None, "b1", 0)), ("while", "c1", "b2")], bodies=("fallnew", "ret"))
    judge(ctx, P, [("while", "c1", "b2"), I(("c0", "b0", 0), (None, "b1", 0))], bodies=("fallnew", "ret", "break"), debug=0)
    judge(ctx, P, [("ns", "b0"), ("while", "c0", "b1")], bodies=("fall", "fallnew", "ret"))


CHECKS = {"C13": control}
