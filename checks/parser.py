"""The parser: which token lists are statements, and the tree each one stands for."""
import multiprocessing
import os

import absint
from absint import Engine, State
from extract import AnalysisBroken
from models import base_models, diag_model
from sem import where

T = "TOKEN_"
BIN = {"OPER_PLUS": ("EXPR_ADD", 5), "OPER_DASH": ("EXPR_SUB", 5), "OPER_STAR": ("EXPR_MULT", 4), "OPER_DIV": ("EXPR_DIV", 4),
       "OPER_MOD": ("EXPR_MOD", 4), "OPER_LSHIFT": ("EXPR_LSHIFT", 6), "OPER_RSHIFT": ("EXPR_RSHIFT", 6), "OPER_POW": ("EXPR_POW", 2),
       "OPER_IS": ("EXPR_IS", 7), "OPER_ISNT": ("EXPR_ISNT", 7), "OPER_LESS_THAN": ("EXPR_LESS_THAN", 7),
       "OPER_GTR_THAN": ("EXPR_GTR_THAN", 7), "OPER_LESS_THAN_EQ": ("EXPR_LESS_THAN_EQ", 7),
       "OPER_GTR_THAN_EQ": ("EXPR_GTR_THAN_EQ", 7), "OPER_AND": ("EXPR_AND", 6), "OPER_OR": ("EXPR_OR", 6), "OPER_XOR": ("EXPR_XOR", 6)}
UN = {"OPER_DASH": ("EXPR_UNARY_NEG", 3), "OPER_STAR": ("EXPR_DEREF", 3), "OPER_NOT": ("EXPR_NOT", 3), "OPER_REF": ("EXPR_REF", 0)}
IDENT = {"IDENTIFIER", "DOT_IDENTIFIER"}
CONST = {"INT_CONST", "FLOAT_CONST", "BOOL_CONST", "RUNE_CONST", "STR_CONST"}
ONE = {"KW_UNREACHABLE": "UNREACHABLE", "KW_NOOP": "NOOP", "KW_BREAK": "BREAK", "KW_CONTINUE": "CONTINUE", "KW_ELSE": "ELSE",
       "COMMENT": "COMMENT"}
COND = {"KW_IF": "IF", "KW_ELIF": "ELIF", "KW_WHILE": "WHILE"}
SHOW = {"IDENTIFIER": "x", "NEW_IDENTIFIER": "x:", "DOT_IDENTIFIER": "a.b", "NEWLINE": "\\n", "COMMA": ",", "BRACKET_OPEN": "{",
        "BRACKET_CLOSE": "}", "PAREN_OPEN": "(", "PAREN_CLOSE": ")", "OPER_EQUAL": "=", "OPER_PLUS": "+", "OPER_DASH": "-",
        "OPER_STAR": "*", "OPER_DIV": "/", "OPER_AUTO_EQUAL": ":=", "OPER_LESS_THAN": "<", "OPER_GTR_THAN": ">",
        "OPER_LESS_THAN_EQ": "<=", "OPER_GTR_THAN_EQ": ">=", "OPER_LSHIFT": "<<", "OPER_RSHIFT": ">>", "OPER_POW": "^",
        "OPER_REF": "&", "INT_CONST": "1", "FLOAT_CONST": "1.0", "BOOL_CONST": "true", "RUNE_CONST": "'a'", "STR_CONST": '"a"',
        "COMMENT": "#c", "UNKNOWN": "?!"}


def show(n):
    if n.startswith("KW_") or n.startswith("OPER_") and n not in SHOW:
        return n.split("_", 1)[1].lower()
    return SHOW.get(n, n)


class Reject(Exception):
    pass


class Ref:
    """The grammar, as a recursive descent over token kinds that may still be open."""

    def __init__(self, dom, choices):
        self.dom = [set(d) for d in dom]      # kinds each token may have
        self.choices = list(choices)          # decisions to replay
        self.taken = []
        self.open = []                        # decisions with an unexplored side
        self.loose = False
        self.i = 0

    def more(self):
        return self.i < len(self.dom)

    def at(self, kinds, j=None):
        j = self.i if j is None else j
        if j >= len(self.dom):
            return False
        yes = self.dom[j] & set(kinds)
        no = self.dom[j] - set(kinds)
        if not no or not yes:
            return bool(yes)
        n = len(self.taken)
        if n < len(self.choices):
            c = self.choices[n]
        else:
            c = True
            self.open.append(n)
        self.taken.append(c)
        self.dom[j] = yes if c else no
        return c

    def kind(self, table):
        """decide which key of table the current token is"""
        for k in table:
            if self.at({k}):
                return k
        return None

    # ------------------------------------------------------- expressions
    def expr(self, prec=8):
        """None when no expression starts here"""
        if not self.more():
            return None
        e = self.single()
        if e is None:
            return None
        while self.more():
            if self.at({"OPER_NOT", "OPER_REF"}):
                raise Reject("unary operator after an operand")
            k = None
            for c, (_o, p) in BIN.items():
                if self.at({c}):
                    k = c
                    break
            if k is None or BIN[k][1] >= prec:
                return e
            self.i += 1
            r = self.expr(BIN[k][1])
            if r is None:
                raise Reject("operand missing")
            e = (BIN[k][0], e, r)
        return e

    def single(self):
        k = self.kind(UN)
        if k:
            self.i += 1
            if not self.more() or self.at(set(UN)):
                raise Reject("unary operator without operand")
            r = self.expr(UN[k][1])
            if r is None:
                raise Reject("unary operator without operand")
            return (UN[k][0], None, r)
        if self.at({"PAREN_OPEN"}):
            self.i += 1
            e = self.expr()
            if e is None or not self.at({"PAREN_CLOSE"}):
                raise Reject("parenthesis")
            self.i += 1
            return e
        if self.at(IDENT):
            n = self.i
            if self.at({"PAREN_OPEN"}, n + 1):
                return self.call()
            self.i += 1
            return ("EXPR_IDENTIFIER", n)
        if self.at(CONST):
            self.i += 1
            return ("EXPR_CONST", self.i - 1)
        return None

    def call(self):
        name = self.i
        self.i += 2
        args = []
        while True:
            if not self.more() or self.at({"COMMA"}):
                raise Reject("call")
            first = self.i
            a = self.expr()
            if a is not None:
                args.append(("EXPR", first, a, None))
            elif args and self.at({"PAREN_CLOSE"}):
                self.loose = True                # trailing comma
            if self.at({"PAREN_CLOSE"}):
                break
            if not self.at({"COMMA"}):
                raise Reject("call arguments")
            if a is None:
                raise Reject("call arguments")
            self.i += 1
        self.i += 1
        return ("EXPR_FUNC", name, tuple(args))

    # -------------------------------------------------------- statements
    def typ(self, j):
        """index after the type starting at j, None when there is none"""
        while self.at({"OPER_REF"}, j):
            j += 1
        return j + 1 if self.at(IDENT, j) else None

    def program(self):
        nodes = self.block(0)
        if self.more():
            raise Reject("closing bracket")
        return nodes

    def block(self, depth):
        nodes = []
        stray = False
        newline = True
        while self.more():
            if self.at({"BRACKET_CLOSE"}):
                if not depth:
                    raise Reject("closing bracket")
                break
            if self.at({"BRACKET_OPEN"}):
                if nodes and nodes[-1][3] is not None:
                    raise Reject("second block")
                self.i += 1
                kids = self.block(depth + 1)
                if not self.more():
                    raise Reject("open block")
                if not kids:
                    raise Reject("empty block")
                self.i += 1
                if nodes:
                    nodes[-1] = nodes[-1][:3] + (tuple(kids),)
                else:
                    stray = True
                newline = True
                continue
            if self.at({"NEWLINE"}):
                self.i += 1
                newline = True
                continue
            if self.at({"COMMA"}):
                self.i += 1
                self.loose = True
                continue
            if not newline and not self.at({"COMMENT"}):
                self.loose = True                # two statements on one line
            nodes.append(self.stmt())
            newline = False
        if not self.more() and depth:
            raise Reject("open block")
        if stray:
            raise Reject("block without statement")
        return nodes

    def stmt(self):
        i = self.i
        k = self.kind(ONE)
        if k:
            self.i += 1
            return (ONE[k], i, None, None)
        if self.at({"KW_RETURN"}):
            self.i += 1
            return ("RETURN", i, self.expr(), None)
        k = self.kind(COND)
        if k:
            self.i += 1
            e = self.expr()
            if e is None:
                raise Reject("condition")
            return (COND[k], i, e, None)
        for k, n in (("KW_IMPORT", "IMPORT"), ("KW_NAMESPACE", "NAMESPACE")):
            if self.at({k}):
                if not self.at({"IDENTIFIER"}, i + 1):
                    raise Reject("name")
                self.i += 2
                return (n, i, None, None)
        ext = self.at({"KW_EXTERNAL"})
        exp = not ext and self.at({"KW_EXPORT"})
        mut = not ext and not exp and self.at({"KW_MUT"})
        j = i + (ext or exp or mut)
        if not mut and self.at({"IDENTIFIER"}, j) and self.at({"PAREN_OPEN"}, j + 1):
            p = self.proto(i, j, ext, exp)
            if p:
                return p
            if ext or exp:
                raise Reject("modifier")
        if not ext:
            d = self.vardef(i, j, mut, exp)
            if d:
                return d
        if ext or exp or mut:
            raise Reject("modifier")
        if self.at(IDENT) and self.at({"OPER_EQUAL"}, i + 1):
            self.i += 2
            e = self.expr()
            if e is None:
                raise Reject("value")
            return ("VAR_ASSIGN", i, e, None)
        e = self.expr()
        if e is None:
            raise Reject("statement")
        return ("EXPR", i, e, None)

    def vardef(self, i, j, mut, exp):
        if self.at({"NEW_IDENTIFIER"}, j):
            e = self.typ(j + 1)
            if e is None:
                return None
            if not self.at({"OPER_EQUAL"}, e):
                raise Reject("equal sign")
            self.i = e + 1
            imp = False
        elif self.at({"IDENTIFIER"}, j) and self.at({"OPER_AUTO_EQUAL"}, j + 1):
            self.i = j + 2
            imp = True
        else:
            return None
        e = self.expr()
        if e is None:
            raise Reject("value")
        if self.more() and not self.at({"NEWLINE"}):
            if self.at({"COMMENT", "BRACKET_CLOSE"}):
                self.loose = True
            else:
                raise Reject("end of line")
        return ("VAR_DEF", i, (j, not mut, imp, bool(exp), e), None)

    def proto(self, i, j, ext, exp):
        """None when this is a call"""
        k = j + 2
        params = []
        while self.at({"NEW_IDENTIFIER"}, k):
            e = self.typ(k + 1)
            if e is None:
                break
            params.append((k, k + 1))
            k = e
            if not self.at({"COMMA"}, k):
                break
            k += 1
            if self.at({"PAREN_CLOSE"}, k):
                self.loose = True                # trailing comma
        end = {"NEWLINE"} if ext else {"BRACKET_OPEN"}
        if not self.at({"PAREN_CLOSE"}, k):
            if params or k >= len(self.dom):
                raise Reject("parameters")
            if not (ext or exp):
                return None
            raise Reject("parameters")
        e = self.typ(k + 1)
        rt = None
        if e is not None:
            rt = k + 1
            k = e - 1
        if not self.at(end, k + 1):
            if ext and k + 1 >= len(self.dom):
                self.loose = True                # no line break at the end of the file
            elif rt is not None or params or ext or exp:
                raise Reject("end of declaration")
            else:
                return None
        self.i = k + 1
        return ("FUNCTION_PROTO", i, (j, rt, bool(ext), bool(exp), tuple(params)), None)


def verdicts(dom):
    """every way to decide the open token kinds: (kinds, tree or None, loose, reason)"""
    todo = [[]]
    while todo:
        ch = todo.pop()
        r = Ref(dom, ch)
        try:
            t, why = tuple(r.program()), None
        except Reject as e:
            t, why = None, str(e)
        yield r.dom, t, r.loose, why
        for n in r.open:
            todo.append(r.taken[:n] + [False])


# ------------------------------------------------------------------ trees
class Bad(Exception):
    pass


class Reader:
    def __init__(self, P, E, st, toks):
        self.P, self.E, self.st = P, E, st
        self.idx = {o: i for i, o in enumerate(toks)}

    def g(self, o, s, f):
        return self.E.res(self.st, self.E.get(self.st, o, s, f))

    def tok(self, v, what):
        if v == 0:
            raise Bad("%s is missing" % what)
        o = v[1] if type(v) is tuple and v[0] == "p" and v[2] == 0 else None
        if o not in self.idx:
            raise Bad("%s is not a token of the program" % what)
        return self.idx[o]

    def nn(self, v, what):
        if type(v) is not tuple or v[0] != "p":
            raise Bad("%s is missing" % what)
        return v

    def flag(self, o, s, f):
        v = self.g(o, s, f)
        if type(v) is not int:
            raise Bad("%s of %s is not set" % (f, s))
        return bool(v & 1)

    def expr(self, v, what="expression"):
        v = self.nn(v, what)
        op = self.g(v, "AstNodeExpr", "oper")
        n = self.P.enum_name("ExprType", op) if type(op) is int else None
        if n is None:
            raise Bad("operator of %s is not set" % what)
        if n in ("EXPR_IDENTIFIER", "EXPR_CONST"):
            return (n, self.tok(self.g(v, "AstNodeExpr", "lhs.tok"), "token of " + what))
        if n == "EXPR_FUNC":
            c = self.nn(self.g(v, "AstNodeExpr", "lhs.func_call"), "call")
            t = self.tok(self.g(c, "AstNodeFunctionCall", "func_name_tok"), "function name")
            args = self.nodes(self.g(c, "AstNodeFunctionCall", "params"), None, arglist=True)
            k = self.g(c, "AstNodeFunctionCall", "num_values")
            if k != len(args):
                raise Bad("a call with %d arguments counts %s" % (len(args), k))
            return (n, t, tuple(args))
        if self.g(v, "AstNodeExpr", "lhs.expr") == 0:
            return (n, None, self.expr(self.g(v, "AstNodeExpr", "rhs"), "operand"))
        return (n, self.expr(self.g(v, "AstNodeExpr", "lhs.expr"), "operand"), self.expr(self.g(v, "AstNodeExpr", "rhs"), "operand"))

    def nodes(self, v, parent, arglist=False, empty_ok=False):
        A = "AstNode"
        out = []
        prev = 0
        first = True
        while v != 0:
            v = self.nn(v, "statement")
            t = self.g(v, A, "type")
            n = self.P.enum_name("NodeType", t) if type(t) is int else None
            if n is None:
                raise Bad("kind of a statement is not set")
            n = n.replace("AST_NODE_", "")
            nxt = self.g(v, A, "next")
            if n == "UNKNOWN":
                if nxt != 0 or not (arglist or empty_ok and first):
                    raise Bad("the list contains an empty statement")
                if self.g(v, A, "child") != 0:
                    raise Bad("a block belongs to no statement")
                return out
            if self.g(v, A, "last") != prev:
                raise Bad("the link to the previous statement is wrong")
            if parent is not None and first and self.g(v, A, "parent") != parent:
                raise Bad("the link from a block to its statement is wrong")
            tk = self.tok(self.g(v, A, "token"), "token of a statement")
            if n in ("IF", "ELIF", "WHILE", "EXPR"):
                p = self.expr(self.g(v, A, "expr"))
            elif n == "RETURN":
                e = self.g(v, A, "expr")
                p = None if e == 0 else self.expr(e)
            elif n == "VAR_DEF":
                d = self.nn(self.g(v, A, "var_def"), "definition")
                p = (self.tok(self.g(d, "AstNodeVarDef", "name_tok"), "name"), self.flag(d, "AstNodeVarDef", "is_const"),
                     self.flag(d, "AstNodeVarDef", "is_implicit"), self.flag(d, "AstNodeVarDef", "is_exported"),
                     self.expr(self.g(d, "AstNodeVarDef", "expr"), "value"))
            elif n == "VAR_ASSIGN":
                d = self.nn(self.g(v, A, "var_assign"), "assignment")
                p = self.expr(self.g(d, "AstNodeVarAssign", "expr"), "value")
            elif n == "FUNCTION_PROTO":
                F = "AstNodeFunctionProto"
                d = self.nn(self.g(v, A, "func_proto"), "function")
                rt = self.g(d, F, "return_type_token")
                k = self.g(d, F, "num_params")
                if type(k) is not int or k > 50:
                    raise Bad("number of parameters is not set")
                ps = []
                base = self.E.robj(self.st, d)
                off = self.P.field(F, "params")[0] // 8
                for i in range(k):
                    q = self.E.load_cell(self.st, base[0], base[1] + off + 8 * i, 8)
                    q = self.nn(self.E.res(self.st, q[0] if isinstance(q, list) else q), "parameter")
                    nm = self.nn(self.g(q, "AstNodeFunctionParam", "param_name"), "parameter name")
                    tag = self.st.meta[nm[1]].tag if nm[1] in self.st.meta else None
                    if not tag or not tag.startswith("text:t"):
                        raise Bad("parameter name is not the text of a token")
                    ps.append((int(tag[6:]), self.tok(self.g(q, "AstNodeFunctionParam", "type_name"), "parameter type")))
                p = (self.tok(self.g(d, F, "name_tok"), "function name"), None if rt == 0 else self.tok(rt, "return type"),
                     self.flag(d, F, "is_external"), self.flag(d, F, "is_export"), tuple(ps))
            else:
                p = None
            c = self.g(v, A, "child")
            kids = None
            if c != 0:
                kids = tuple(self.nodes(c, v))
                if not kids:
                    raise Bad("a block is empty")
            out.append((n, tk, p, kids))
            prev, v, first = v, nxt, False
        return out


def text(dom):
    return " ".join(show(sorted(d, key=lambda k: (k == "UNKNOWN", len(k)))[0]) for d in dom)


def etext(e):
    if e is None:
        return ""
    if e[0] in ("EXPR_IDENTIFIER", "EXPR_CONST"):
        return "#%d" % (e[1] + 1)
    if e[0] == "EXPR_FUNC":
        return "#%d(%s)" % (e[1] + 1, ", ".join(etext(a[2]) for a in e[2]))
    o = e[0][5:].lower()
    return "(%s %s)" % (o, etext(e[2])) if e[1] is None else "(%s %s %s)" % (etext(e[1]), o, etext(e[2]))


def ttext(t):
    if t is None:
        return "rejected"
    r = []
    for n, k, p, kids in t:
        s = "%s@%d" % (n, k + 1)
        if n in ("EXPR", "RETURN", "IF", "ELIF", "WHILE", "VAR_ASSIGN") and p:
            s += " " + etext(p)
        elif n == "VAR_DEF":
            s += " name=#%d const=%d implicit=%d export=%d value=%s" % (p[0] + 1, p[1], p[2], p[3], etext(p[4]))
        elif n == "FUNCTION_PROTO":
            s += " name=#%d ret=%s ext=%d export=%d params=%s" % (p[0] + 1, p[1] and p[1] + 1, p[2], p[3], [(a + 1, b + 1) for a, b in p[4]])
        if kids is not None:
            s += " {%s}" % ttext(kids)
        r.append(s)
    return "; ".join(r) or "empty program"


def setup(P, kinds):
    """parse a token list whose kinds may be open -> engine, tokens, outcomes"""
    allk = [n[len(T):] for n in P.enums["TokenType"]]
    m = base_models()
    m["fmt_message"] = diag_model

    def tstr(E, st, a, ins, fr):
        v = E.res(st, a[0])
        o = E.new_obj(st, "alloc", "text", None, "u")
        if type(v) is tuple and v[0] == "p" and v[1] in st.meta and st.meta[v[1]].tag:
            st.meta[o].tag = "text:" + st.meta[v[1]].tag
        return [absint.Outcome("ret", st, ("p", o, 0))]
    m["token_to_string"] = m["token_to_mbs_str"] = tstr
    E = Engine(P, m)
    st = State()
    E.rec_limit["*"] = 3 * len(kinds) + 12
    E.track_free = True
    E.max_states = 400000
    E.sym_iters = E.k_dist = 99       # everything here is bounded by the list
    toks = []
    start = []
    for i, k in enumerate(kinds):
        o = E.obj(st, "Token", "t%d" % i)
        toks.append(o)
        if k is None:
            E.put(st, o, "Token", "type", E.fresh(st, lo=0, hi=len(allk) - 1))
        else:
            E.put(st, o, "Token", "type", P.enum(T + k))
    for i, o in enumerate(toks):
        E.put(st, o, "Token", "next", ("p", toks[i + 1], 0) if i + 1 < len(toks) else 0)
    return E, toks, E.exec(st.fork(), P.func("parse_ast_tree"), [("p", toks[0], 0)])


def domains(P, E, s, toks):
    """the kinds each token may have on a path"""
    allk = [n[len(T):] for n in P.enums["TokenType"]]
    dom = []
    for t in toks:
        v = E.res(s, E.get(s, t, "Token", "type"))
        if type(v) is int:
            dom.append({allk[v]} if v < len(allk) else {"UNKNOWN"})
        else:
            c = E.con(s, v)
            hi = len(allk) - 1 if c is None or c.hi is None else c.hi
            dom.append({allk[x] for x in range(c.lo if c else 0, hi + 1) if x not in (c.ne if c else ())})
    return dom


def analyse(P, kinds, mode):
    """-> (violations, paths, spec cases, engine)"""
    allk = [n[len(T):] for n in P.enums["TokenType"]]
    E, toks, outs = setup(P, kinds)
    bad = {}
    cases = 0
    covered = 0
    for key, t in E.reports.items():
        if mode == "safe":
            bad["memory/%s/%s" % (key[0], key[1])] = "%s (tokens: %s)" % (t, text([{k or "UNKNOWN"} for k in kinds]))
    for o in outs:
        s = o.state
        dom = domains(P, E, s, toks)
        n = 1
        for d in dom:
            n *= len(d)
        covered += n
        rv = E.res(s, o.ret) if o.kind == "ret" else None
        if o.kind != "ret":
            if mode == "safe":
                bad["end/%s/%s" % (o.kind, text(dom))] = "%s: parsing ends in %s at %s" % (text(dom), o.kind, where(E, o))
            continue
        err = bool(s.props.get("err"))
        tree, why = None, None
        if rv != 0:
            try:
                tree = tuple(Reader(P, E, s, toks).nodes(rv, None, empty_ok=True))
            except Bad as e:
                why = str(e)
        if mode == "safe":
            cases += 1
            if rv == 0 and not err:
                bad["silent/" + text(dom)] = "%s: rejected without a message" % text(dom)
            if rv != 0 and err:
                bad["both/" + text(dom)] = "%s: an error is reported but parsing succeeds" % text(dom)
            if why:
                bad["tree/" + text(dom)] = "%s: %s" % (text(dom), why)
            continue
        if why:
            bad["tree/" + text(dom)] = "%s: %s" % (text(dom), why)
            continue
        for d, want, loose, reason in verdicts(dom):
            cases += 1
            if tree == want or loose and rv == 0:
                continue
            k = text(d)
            bad["parse/" + k] = "%s: parsed as %s, expected %s" % (k, ttext(tree), ttext(want) if want is not None else "an error (%s)" % reason)
    if covered < len(allk) ** kinds.count(None) and mode == "safe":
        k = " ".join(show(k) if k else "_" for k in kinds)
        bad["hang/" + k] = "%s: parsing never ends for some of these programs (%d of %d end)" % (k, covered, len(allk) ** kinds.count(None))
    return bad, len(outs), cases, E


P_ = None


def work(job):
    kinds, mode = job
    try:
        b, n, c, E = analyse(P_, kinds, mode)
    except AnalysisBroken as e:
        return kinds, str(e), 0, 0, (), (), ()
    return kinds, b, n, c, E.stat_funcs, E.stat_calls, E.stat_blocks


def run(ctx, jobs, mode):
    global P_
    P_ = ctx.P
    ctx.P.func("parse_ast_tree")
    jobs = [(j, mode) for j in jobs]
    broken = []
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for kinds, b, n, c, f, ca, bl in pool.imap_unordered(work, jobs, chunksize=1):
            if isinstance(b, str):
                broken.append("%s: %s" % (kinds, b))
                continue
            for k, t in b.items():
                ctx.violation(k, t)
            ctx.count("token_lists")
            ctx.count("paths", n)
            ctx.count("cases_judged", c)
            ctx.funcs |= f
            ctx.calls |= ca
            ctx.blocks |= bl
    if broken:
        raise AnalysisBroken("; ".join(broken[:3]))


def tpl(s):
    """template: names of token kinds, ? for any kind"""
    rev = {v: k for k, v in SHOW.items()}
    kw = {w: "KW_" + w.upper() for w in ("mut return unreachable if elif else while external export noop break continue import namespace").split()}
    kw.update({w: "OPER_" + w.upper() for w in "mod not is isnt and or xor".split()})
    out = []
    for w in s.split():
        if w == "?":
            out.append(None)
        elif w == ";":
            out.append("NEWLINE")
        elif w in kw:
            out.append(kw[w])
        elif w == "f":
            out.append("IDENTIFIER")
        else:
            out.append(rev[w])
    return tuple(out)


REP = ["^", "*", "+", "and", "is"]


def expr_jobs(thorough):
    j = ["return x ? x", "x = x ? x ;", "x := ? x ;", "if ? x { noop }", "return ( x ? x ) ? x", "return x ? ( x ? x )", "return ? x ? x",
         "return x ? ? x", "return x ? x ( x )", "return f ( x ? x )", "return f ( x , x ? x )", "return f ( ) ? x", "return ( ? )", "return ( x ) ?",
         "return a.b ? 1", "return f ( x ) ( x )", "return ? ? x", "x := ( ? ? x ) ;", "return ? ( ? x )", "return x ? - ? x", "return ? 1", "return 1 ? ( ? )", "return f ( ( x ) , ( x ) , - ( x ) )",
         "return a.b ( ? ) ? a.b", "return f ( f ( x ) ? f ( ? ) )", "if ? ( x ) ? x { noop }", "return ( ( ( x ? x ) ) ) ? x", "return ? f ( x ) ? x"]
    j += ["return x %s x ? x" % o for o in ("^ * / mod + - and or xor << >> is isnt < > <= >=").split()]
    for a in REP:
        for b in REP:
            for c in REP:
                j.append("return x %s x %s x %s x" % (a, b, c))
            for u in ("-", "not", "*", "&"):
                j += ["return %s x %s x %s x" % (u, a, b), "return x %s %s x %s x" % (a, u, b), "return x %s x %s %s x" % (a, b, u)]
            j += ["return ( x %s x ) %s x" % (a, b), "return x %s ( x %s x )" % (a, b), "return x %s ( x ) %s x" % (a, b),
                  "return ( x %s ( x %s x ) )" % (a, b)]
            if thorough:
                j += ["return x %s x ? x %s x" % (a, b), "return ( x %s x ) ? ( x %s x )" % (a, b)]
    return j


STMT = ["noop", "#c", "break", "x = 1", "f ( )", "x := 1", "mut x := 1", "x: x = 1", "return", "return x", "if x { noop }", "while x { ; noop ; }",
        "f ( ) { noop }", "external f ( )", "namespace x { noop }", "import x", "else { noop }", "elif x { noop }"]


def stmt_jobs(thorough):
    j = ["x: ? = 1 ;", "x: x ? 1 ;", "x: & ? = 1 ;", "x: & & x = 1 ;", "mut x: ? = 1 ;", "export x: x = ? ;", "? x := 1 ;", "? x: x = 1 ;", "x := 1 ?", "mut x := x ? x ?",
         "x: x = f ( x ) ?", "a.b = ? ;", "x = ? ?", "? = 1 ;", "? := 1 ;", "mut ? := 1",
         "f ( ? x ) { noop }", "f ( x: ? ) { noop }", "f ( x: x ? { noop }", "f ( x: x ) ? noop }", "f ( x: x ) ? ? noop }",
         "f ( x: x , ? x ) { noop }", "f ( x: x , x: ? ) { noop }", "f ( x: x , x: x ? x { noop }", "f ( x: & x , x: & & x ) & x { noop }",
         "f ( x: x , x: x , x: x , x: x ) { noop }", "f ( x: x , x: x , x: x ) x {  noop }", "external f ( x: x , x: & x , x: x ) x ;", "export f ( x: x , x: x ) & x { return x }",
         "f ( ) ? noop }", "f ( ) x ? noop }", "f ( ) & x { noop }", "? f ( ) x { noop }", "? f ( x: x ) ;", "? f ( ) ;", "external f ( ) ? ?", "external f ( x: ? ) ;", "export f ( ) ? ?",
         "external f ( x: x ? x ;", "f ( x ) ?", "f ( ? ) ;", "f ( x ? x ) ;", "f ( x , x , x ) ;", "f ( x , 1 , x , x , x ) ;", "if x { if x { noop } { noop } ; }", "f ( x , ? ) ;", "f ( f ( x ) , f ( ) ) ;", "f ( - x , ( x ) ) ;",
         "if x ? noop }", "if x { ? }", "if x { noop ? ?", "if x { ; ? ; }", "if x ; { noop ; } ; ? ;", "if x { noop } ? { noop }", "if x { noop } elif x { noop } else { noop } ; ? ;",
         "while x { while x { break } ; continue ; } ; noop", "while f ( x ) { ? ; }", "if ( x ) { noop }", "{ noop } ?", "{ ? }", "noop { noop } ?", "if x { if x { ? } ; }", "if x { { noop } }", "if x { { noop } ? }", "if x { if x { { noop } ; noop } }", "f ( ) { ; { noop } ; noop ; }", "if x { if x { noop ; }", "f ( ) { while x { if x { ? }", "if x { noop } }",
         "import x ? ; noop", "import x #c ; noop", "noop #c ; noop", "break ? ;", "namespace x { namespace x { x := 1 ; } ? } ; noop", "if x { #c ; } ; noop", "if x { x := 1 ; #c ; }", "a.b ( x ) ;", "a.b = a.b ( a.b ) ;",
         "mut x: & & x = x ;", "mut x := f ( x , x ) ; x = x ;", "external f ( x: x , x: x ) & & x ;", "f ( x: x , x: x , x: x , x: x , x: x , x: x ) & & x { return }",
         "f ( ) { f ( ) { noop } ; ? ; } ; noop", "namespace x ? noop }", "namespace ? { noop }", "import ? ;", "noop ? noop", "return ? ;", "return ? noop", "return x ? noop", "x = 1 ? noop",
         "f ( ) ; ? ; f ( )", "if x { noop } #c ; else { noop }", "if x { noop } ; #c ; #c ; else { noop } ; noop", "unreachable ; ? ;"]
    for a in STMT:
        for b in STMT:
            j.append("%s ; %s ;" % (a, b))
        j += ["if x { %s ; }" % a, "if x { ; %s ; noop ; } ; %s" % (a, a), "? ; %s ;" % a, "%s ; ?" % a]
        if thorough:
            j += ["%s ; ? ; %s ;" % (a, b) for b in STMT]
            j += ["%s ? ?" % a]
    return j


def uniq(jobs):
    return list(dict.fromkeys(tpl(x) if isinstance(x, str) else x for x in jobs))


def parse_expr(ctx):
    """operators bind as documented; parentheses group; calls take their arguments"""
    ctx.rule = ("parse_ast_tree is analysed on lists of tokens whose kinds are partly left open (every kind the code distinguishes becomes a case); the tree of every path is "
                "compared with a reference grammar whose operator table is the documented precedence, over every kind an open token may still have")
    ctx.assumptions = ["expressions of up to four operands and two levels of grouping stand for deeper ones"]
    run(ctx, uniq(expr_jobs(ctx.tier == "thorough")), "tree")
    ctx.require(ctx.counts["cases_judged"] > 1000, "too few cases")


def parse_stmt(ctx):
    """every statement form becomes the node that stands for it, in order, with its parts"""
    ctx.rule = ("parse_ast_tree is analysed on statement templates with open token kinds, alone, in pairs and inside blocks; kind, tokens, parts, blocks and links of every "
                "statement of the resulting tree are compared with the reference grammar, and everything else must be rejected")
    ctx.assumptions = ["pairs of statements and two levels of blocks stand for longer programs"]
    run(ctx, uniq(stmt_jobs(ctx.tier == "thorough")), "tree")
    ctx.require(ctx.counts["cases_judged"] > 1000, "too few cases")


CUTS = ["f ( x ) ;", "f ( x , x )", "external f ( x: & x , x: x ) x ;", "export f ( x: x ) x { return x }", "f ( x: x , x: x ) { noop ; }", "mut x: & x = - x + x",
        "export x: x = ( x )", "x = f ( x , ( x + x ) )", "if ( x and not x ) { noop ; } elif x { x = 1 ; } else { noop }", "while not x { if x { break } ; }",
        "namespace x { x := 1 ; }", "import x", "return ( - x * ( x + f ( x ) ) )"]


def parse_safe(ctx):
    """no token list makes the parser misbehave or fail silently"""
    ctx.rule = ("parse_ast_tree is analysed on every list of up to three tokens of any kind, and on longer lists that cut statements off at every point; no path may dereference NULL or "
                "freed memory, free twice, run past the list, succeed after an error, fail without one, or return a malformed tree")
    ctx.assumptions = ["token lists end with a NULL link (guaranteed by the tokenizer)"]
    kinds = [n[len(T):] for n in ctx.P.enums["TokenType"]]
    jobs = [(None,), (None, None)] + [(k, None, None) for k in kinds]
    for s in CUTS:
        t = tpl(s)
        for n in range(1, len(t) + 1):
            jobs += [t[:n], t[:n] + (None,)]
        for n in range(len(t)):
            jobs.append(t[:n] + (None,) + t[n + 1:])
            jobs.append(t[:n] + t[n + 1:])
        if ctx.tier == "thorough":
            for n in range(1, len(t)):
                jobs.append(t[:n] + (None, None))
    run(ctx, uniq(jobs), "safe")
    ctx.require(ctx.counts["cases_judged"] > 1000, "too few cases")


CHECKS = {"C21": parse_expr, "C23": parse_stmt, "C25": parse_safe}
