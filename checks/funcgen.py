"""Functions and the module entry as the LLVM generator emits them."""
from absint import Outcome
from gen import LLTY, Gen, show
from llvmir import Mem
from models import ret
from sem import NAMES, where

BODIES = ("fall", "fallnew", "value", "void", "none")


def functions_(ctx):
    P = ctx.P
    for n in (0, 1, 2, 3):
        for rt in (("INT", "VOID") if n else ("INT", "VOID", "BOOL", "FLOAT", "RUNE", "STR", "&INT")):
            for kind in ("plain", "export", "external"):
                for outer in ("main", "function"):
                    if n == 3 and outer == "function":
                        continue
                    one(ctx, P, n, rt, kind, outer)


def one(ctx, P, n, rt, kind, outer):
    G = Gen(P, func=outer)
    S, E, st = G.S, G.E, G.S.st
    ptypes = ["INT", "BOOL", "STR"][:n]
    fd = S.new("FunctionDeclaration", "fd", num_params=n, return_type=S.T(rt), is_external=int(kind == "external"),
               is_export=int(kind == "export"), ref=0, type=0)
    sym = S.new("Symbol", "f", func=S.ptr(fd), type=P.enum("SYMBOL_FUNC"), linkage_name=S.ptr(S.new_str("f.link", None)),
                name=S.ptr(S.new_str("f.name", None)))
    pvars = []
    if n:
        tarr = E.new_obj(st, "lazy", "harness", 8 * n, "u", None, "ptypes")
        parr = E.new_obj(st, "lazy", "harness", 8 * n, "u", None, "params")
        for i, t in enumerate(ptypes):
            v = S.new("Variable", "p%d" % i, type=S.T(t), is_const=1, is_global=0, is_const_lit=0, ref=0,
                      name=S.ptr(S.new_str("p%d.name" % i, None)))
            ps = S.new("Symbol", "p%d.sym" % i, var=S.ptr(v), type=P.enum("SYMBOL_VAR"))
            p = S.new("AstNodeFunctionParam", "p%d.param" % i, symbol=S.ptr(ps), param_name=S.ptr(S.new_str("p%d.n" % i, None)))
            E.store_cell(st, tarr, 8 * i, 8, S.T(t))
            E.store_cell(st, parr, 8 * i, 8, S.ptr(p))
            pvars.append((ps, t))
        E.put(st, fd, "FunctionDeclaration", "param_types", S.ptr(tarr))
        E.put(st, fd, "FunctionDeclaration", "params", S.ptr(parr))
    else:
        E.put(st, fd, "FunctionDeclaration", "param_types", 0)
        E.put(st, fd, "FunctionDeclaration", "params", 0)
    child = S.new("AstNode", "body")
    proto = S.new("AstNodeFunctionProto", "proto", symbol=S.ptr(sym), num_params=n)
    node = S.new("AstNode", "node", type=P.enum("AST_NODE_FUNCTION_PROTO"), func_proto=S.ptr(proto), next=0, last=0,
                 child=0 if kind == "external" else S.ptr(child), token=S.ptr(S.new("Token", "tok")))
    G.scope_chain(1)
    ids = [S.new("AstNodeExpr", "id%d" % i, oper=P.enum("EXPR_IDENTIFIER"), symbol=S.ptr(ps), type=S.T(t))
           for i, (ps, t) in enumerate(pvars)]
    me = ("fn", ("obj", "f.link"))
    what = "%s function returning %s with %d parameter%s declared in %s" % (kind, NAMES[rt], n, "s" * (n != 1),
                                                                         "the module" if outer == "main" else "a function")
    key = "func/%s/%s/%d/%s" % (kind, rt, n, outer)
    V = lambda k, t: ctx.violation(key + "/" + k, "%s: %s" % (what, t))
    E.models["gen_expr"] = G.m_expr
    oldrec = E.recursion

    def tree(E, st, fn, a):
        if fn.src != "gen_tree":
            return oldrec(E, st, fn, a)
        if E.res(st, a[0]) != ("p", child, 0):
            V("body", "the generated body is not the function's own block")
        st.props["bodies"] = st.props.get("bodies", 0) + 1
        if E.res(st, E.get(st, G.state, "SkullStateLLVM", "current_func")) != ("p", sym, 0):
            V("curfunc", "its body is generated as part of another function")
        bb = st.props["bb"]
        if not (bb and bb[0] == "bb" and bb[2] == me):
            V("block", "its body is generated into block %s" % show(bb))
        if G.scope_tag(st) != "s0.child":
            V("scope", "its body is generated in scope %s" % G.scope_tag(st))
        if G.L.t(st, E.get(st, fd, "FunctionDeclaration", "ref")) != me or E.res(st, E.get(st, fd, "FunctionDeclaration", "type")) == 0:
            V("recursive", "not yet callable inside its own body")
        # what does reading each parameter give here?
        sts = [st]
        for i, e in enumerate(ids):
            new = []
            for s in sts:
                for o in read(e, s):
                    if o.kind != "ret":
                        V("param", "reading parameter %d ends in %s" % (i + 1, o.kind))
                        continue
                    t = G.L.t(o.state, G.field(o.state, o.ret, 0))
                    m = Mem(o.state)
                    m.run(0, len(m.code))
                    got = m.resolve(t)
                    if got != ("param", me, i):
                        V("param", "parameter %d reads as %s" % (i + 1, show(got)))
                    new.append(o.state)
            sts = new
        outs = []
        for s0 in sts:
            for b in BODIES:
                if b == "none" and rt != "VOID":
                    continue
                if b in ("fall", "fallnew") and rt != "VOID":
                    continue    # semantic analysis rejects it
                s = s0.fork()
                s.props["body"] = b
                v, t = 0, 0
                G.L.emit(s, "tree", "body")
                if b == "fallnew":
                    nb = ("bb", "innerend", me)
                    G.L.emit(s, "br", nb)
                    s.props["bb"] = nb
                    E.put(s, G.sem, "SemanticState", "scope", ("p", G.kids[0][1], 0))
                elif b == "value":
                    if rt == "VOID":
                        continue
                    v, t = G.L.inst(s, "ret", ("in", "result", "dyn")), S.T(rt)
                elif b == "void":
                    v, t = G.L.inst(s, "unreachable" if rt != "VOID" else "ret", *(() if rt != "VOID" else (None,))), S.T("VOID")
                outs.append(Outcome("ret", s, ("agg", ((0, v), (1, t)))))
        return outs

    def read(e, s):
        m = E.models.pop("gen_expr")
        try:
            return E.exec(s.fork(), P.func("gen_expr"), [S.ptr(e), S.ptr(G.state)])
        finally:
            E.models["gen_expr"] = m
    E.recursion = tree
    outs = G.run("gen_tree", [S.ptr(node), S.ptr(G.state)])
    ctx.used(E)
    ctx.count("function_cases")
    ctx.count("paths", len(outs))
    ctx.require(outs, "no path for " + what)
    for o in outs:
        s = o.state
        if o.kind != "ret":
            V(o.kind, "generating it ends in %s (%s)" % (o.kind, o.ret))
            continue
        if G.L.t(s, G.field(s, o.ret, 0)) is not None or E.res(s, G.field(s, o.ret, 1)) != 0:
            V("ends", "the statements after it are not generated")
        ty = s.props.get(("fnty", me))
        if ty is None:
            V("declared", "no function is declared under its linkage name")
        elif ty != ("fnty", LLTY[rt], tuple(LLTY[t] for t in ptypes)):
            V("type", "declared with type %s" % show(ty))
        if E.res(s, E.get(s, fd, "FunctionDeclaration", "type")) != G.L.v(("fnty", LLTY[rt], tuple(LLTY[t] for t in ptypes))):
            V("calltype", "calls will not use its type")
        if G.L.t(s, E.get(s, fd, "FunctionDeclaration", "ref")) != me:
            V("ref", "calls will not reach it")
        lk = s.props.get(("linkage", me), 0)
        if (lk == 0) != (kind != "plain"):
            V("linkage", "its symbol is %s" % ("visible to other modules" if lk == 0 else "not visible to other modules"))
        if s.props["bb"] != ("bb", "start", None):
            V("position", "code after it is put into %s" % show(s.props["bb"]))
        if E.res(s, E.get(s, G.state, "SkullStateLLVM", "current_func")) != ("p", G.cur, 0):
            V("outer", "code after it is generated as part of another function")
        if G.scope_tag(s) != "s1":
            V("scopeafter", "generation goes on in scope %s, out of step with semantic analysis" % G.scope_tag(s))
        nb = s.props.get("bodies", 0)
        if nb != (0 if kind == "external" else 1):
            V("bodies", "its body is generated %d times" % nb)
        if kind == "external":
            if any(t[0] == "bb" and t[2] == me for t in G.L.keys):
                V("extern", "an external function is given a body")
            continue
        # blocks of the function: where does the body's end lead?
        b = s.props.get("body")
        tail = [i for bb, i in G.L.code(s) if bb and bb[0] == "bb" and bb[2] == me]
        k = next((j for j, i in enumerate(tail) if i[0] == "tree"), None)
        after = [i for i in tail[k + 1:] if i[0] != "eval"] if k is not None else []
        terms = [i for i in after if i[0] in ("ret", "unreachable")]
        stray = [i for bb, i in G.L.code(s) if not (bb and bb[0] == "bb" and bb[2] == me)]
        if stray:
            V("stray", "emits %s outside the function" % show(stray[0]))
        if rt == "VOID":
            if len(terms) != 1 or terms[0] != ("ret", None):
                V("ret", "when its block %s, it ends with %s" % ("falls through" if b != "void" else "returns", [show(t) for t in terms]))
        elif len(terms) != 1:
            V("ret", "its block is terminated %d times" % len(terms))
        first = ("bb", 0, me)
        if tail and not any(bb == first for bb, i in G.L.code(s)):
            V("entry", "its entry block is empty")


def module_(ctx):
    """gen_module: implicit `return 0` exactly when the program falls off its end"""
    P = ctx.P
    G = Gen(P)
    S, E, st = G.S, G.E, G.S.st
    node = S.new("AstNode", "root", token=S.ptr(S.new("Token", "tok")))

    def tree(E, st, a, ins, fr):
        if E.res(st, a[0]) != ("p", node, 0):
            ctx.violation("module/root", "the generated program is not the whole module")
        outs = []
        for b in ("fall", "value", "void"):
            s = st.fork()
            s.props["body"] = b
            G.L.emit(s, "tree", "program")
            v, t = 0, 0
            if b != "fall":
                v = G.L.inst(s, "ret", ("in", "r", "dyn"))
                t = S.T("INT" if b == "value" else "VOID")
            outs.append(Outcome("ret", s, ("agg", ((0, v), (1, t)))))
        return outs
    E.models["gen_tree"] = tree
    outs = G.run("gen_module", [S.ptr(node), S.ptr(G.state)])
    ctx.used(E)
    ctx.count("module_paths", len(outs))
    ctx.require(outs, "gen_module has no path")
    for o in outs:
        if o.kind != "ret":
            ctx.violation("module/" + o.kind, "gen_module ends in %s" % o.kind)
            continue
        code = [i for b, i in G.L.code(o.state)]
        after = [i for i in code[1:]]
        if code[:1] != [("tree", "program")]:
            ctx.violation("module/order", "the program is not generated first")
        if o.state.props["body"] == "fall":
            if after != [("ret", ("const", "i64", 0))]:
                ctx.violation("module/implicit", "a program that falls off its end is finished with %s instead of returning 0" % [show(x) for x in after])
        elif len(after) != 1:
            ctx.violation("module/explicit", "a program that ends with a return is given further code: %s" % [show(x) for x in after[1:]])


def types_(ctx):
    """every type has the machine type the C interface documents"""
    P = ctx.P
    for t, want in LLTY.items():
        G = Gen(P)
        outs = G.run("type_to_llvm_type", [G.S.T(t), G.S.ptr(G.state)])
        ctx.used(G.E)
        ctx.count("type_cases")
        for o in outs:
            got = G.L.t(o.state, o.ret) if o.kind == "ret" else o.kind
            if got != ("ty", want):
                ctx.violation("type/" + t, "%s is given machine type %s instead of %s" % (NAMES[t], show(got), want))


def setup_(ctx):
    """initial generator state: an empty main function of type i64()"""
    P = ctx.P
    G = Gen(P)
    S, E, st = G.S, G.E, G.S.st
    fd = S.new("FunctionDeclaration", "m.fd", return_type=S.T("INT"), ref=0, type=0)
    ms = S.new("Symbol", "m", func=S.ptr(fd), type=P.enum("SYMBOL_FUNC"), linkage_name=S.ptr(S.new_str("m.link", None)))
    sem = S.new("SemanticState", "sem2", main_func=S.ptr(ms))
    st.props.pop("bb", None)
    if P.has("setup_debug_info"):
        E.models["setup_debug_info"] = lambda E, st, a, i, f: ret(st, E.fresh_nn(st))
    outs = G.run("setup_llvm_state", [S.ptr(sem)])
    ctx.used(E)
    ctx.count("setup_paths", len(outs))
    ctx.require(outs, "setup_llvm_state has no path")
    me = ("fn", ("obj", "m.link"))
    for o in outs:
        s = o.state
        if o.kind != "ret":
            ctx.violation("setup/" + o.kind, "setup_llvm_state ends in %s" % o.kind)
            continue
        r = o.ret
        f = lambda n: E.res(s, E.get(s, r, "SkullStateLLVM", n))
        if s.props.get(("fnty", me)) != ("fnty", "i64", ()):
            ctx.violation("setup/type", "the module's main function has type %s" % show(s.props.get(("fnty", me))))
        if G.L.t(s, E.get(s, fd, "FunctionDeclaration", "ref")) != me or \
                G.L.t(s, E.get(s, fd, "FunctionDeclaration", "type")) != ("fnty", "i64", ()):
            ctx.violation("setup/ref", "the main symbol does not refer to the generated main function")
        if f("main_func") != ("p", ms, 0) or f("current_func") != ("p", ms, 0):
            ctx.violation("setup/cur", "generation does not start in the main function")
        if f("current_while_cond") != 0 or f("current_while_end") != 0:
            ctx.violation("setup/loop", "generation starts inside a loop")
        if f("semantic") != ("p", sem, 0):
            ctx.violation("setup/sem", "the generator does not refer to the semantic state")
        for n in ("builder", "ctx", "module"):
            if f(n) == 0:
                ctx.violation("setup/" + n, "%s is not set" % n)
        bb = s.props.get("bb")
        if not (bb and bb[0] == "bb" and bb[2] == me):
            ctx.violation("setup/block", "the builder is not positioned in the main function")


def functions(ctx):
    """functions, parameters, linkage and implicit returns are generated as declared"""
    ctx.rule = ("Every path of gen_tree on a function declaration (0-3 parameters, all return types, plain/exported/external, nested or "
                "not, debug information on or off, every way its block can end), of gen_module and of setup_llvm_state is enumerated "
                "over the recording model of the LLVM API; declared type, linkage, parameter binding, body placement, implicit returns "
                "and the restored generator position are compared with the declaration.")
    ctx.assumptions = ["bodies obey the statement contract of C13; semantic analysis rejects a value-returning function without a final return (C09)"]
    functions_(ctx)
    module_(ctx)
    types_(ctx)
    setup_(ctx)


CHECKS = {"C15": functions}
