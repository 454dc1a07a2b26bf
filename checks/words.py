"""The classifier: what kind of token every word is; and the value every literal stands for."""
import cstr
from absint import Engine, State
from checks.lexer import DOM, Lazy, chars, pool_run, text
from extract import AnalysisBroken
from models import base_models, diag_model
from sem import where

KW = {"mut": "KW_MUT", "return": "KW_RETURN", "unreachable": "KW_UNREACHABLE", "if": "KW_IF", "elif": "KW_ELIF", "else": "KW_ELSE", "while": "KW_WHILE",
      "external": "KW_EXTERNAL", "export": "KW_EXPORT", "noop": "KW_NOOP", "break": "KW_BREAK", "continue": "KW_CONTINUE", "import": "KW_IMPORT",
      "namespace": "KW_NAMESPACE", "mod": "OPER_MOD", "not": "OPER_NOT", "is": "OPER_IS", "isnt": "OPER_ISNT", "and": "OPER_AND", "or": "OPER_OR", "xor": "OPER_XOR",
      ":=": "OPER_AUTO_EQUAL", "<=": "OPER_LESS_THAN_EQ", ">=": "OPER_GTR_THAN_EQ", "<<": "OPER_LSHIFT", ">>": "OPER_RSHIFT", "=": "OPER_EQUAL", "+": "OPER_PLUS",
      "-": "OPER_DASH", "*": "OPER_STAR", "/": "OPER_DIV", "<": "OPER_LESS_THAN", ">": "OPER_GTR_THAN", "^": "OPER_POW",
      "true": "BOOL_CONST", "false": "BOOL_CONST", "NaN": "FLOAT_CONST", "Infinity": "FLOAT_CONST", "-Infinity": "FLOAT_CONST"}
TYPES = ["Bool", "Int", "Float", "Rune", "Str", "Void"]
RESERVED = [k for k in KW if k[0].isalpha()] + TYPES
DIG = "0123456789"
HEX = DIG + "abcdefABCDEF"
ALPHA = "".join(chr(c) for c in range(65, 91)) + "".join(chr(c) for c in range(97, 123))
SEP = " \t\r\n{}(),&#'\""          # never inside a word


class Loose(Exception):
    pass


class Word(Lazy):
    """kind of a word and number of characters that belong to it"""

    def is_word(self, w, i=0, n=None):
        n = len(self.dom) - i if n is None else n
        return n == len(w) and all(self.at(i + k, c) for k, c in enumerate(w))

    def digits(self, i, n, ds):
        """digits with single underscores between them"""
        if i >= n:
            return False
        last = False
        for k in range(i, n):
            if self.at(k, "_"):
                if not last:
                    return False
                last = False
            elif self.at(k, ds):
                last = True
            else:
                return False
        return last

    def kind(self):
        n = len(self.dom)
        if self.at(0, "\""):
            return ("STR_CONST", n) if n >= 2 and self.at(n - 1, "\"") else ("UNKNOWN", n)
        if self.at(0, "'"):
            if not self.at(n - 1, "'") or n < 3:
                return ("UNKNOWN", n)
            if n == 3:
                if self.at(1, "\\"):
                    raise Loose
                return ("RUNE_CONST", n)
            return ("RUNE_CONST" if n <= 12 and self.at(1, "\\") else "UNKNOWN", n)
        for w, k in KW.items():
            if self.is_word(w):
                return (k, n)
        neg = self.at(0, "-")
        i = 1 if neg else 0
        if self.at(i, "0") and self.at(i + 1, "xbo"):
            ds = HEX if self.at(i + 1, "x") else "01" if self.at(i + 1, "b") else "01234567"
            if self.digits(i + 2, n, ds):
                if neg:
                    raise Loose
                return ("INT_CONST", n)
            return ("UNKNOWN", n)
        if self.at(i, DIG):
            if self.at(i, "0") and self.at(i + 1, "_"):
                raise Loose
            dot = next((k for k in range(i, n) if self.at(k, ".")), None)
            if dot is None:
                return ("INT_CONST" if self.digits(i, n, DIG) else "UNKNOWN", n)
            if not self.digits(i, dot, DIG) or dot + 1 >= n:
                return ("UNKNOWN", n)
            for k in range(dot + 1, n):
                if not self.at(k, DIG):
                    if self.at(k, "_"):
                        raise Loose
                    return ("UNKNOWN", n)
            return ("FLOAT_CONST", n)
        if neg or not self.at(0, ALPHA):
            return ("UNKNOWN", n)
        dots = False
        k = 1
        while k < n:
            if self.at(k, "."):
                dots = True
                if k + 1 >= n:
                    return ("UNKNOWN", n)
                if self.at(k + 1, "." + DIG + "_"):
                    raise Loose
            elif self.at(k, ":"):
                if k + 1 < n or dots:
                    return ("UNKNOWN", n)
                if any(self.is_word(w, 0, n - 1) for w in RESERVED):
                    return ("UNKNOWN", n)
                return ("NEW_IDENTIFIER", n - 1)
            elif not self.at(k, ALPHA + DIG + "_"):
                return ("UNKNOWN", n)
            k += 1
        return ("DOT_IDENTIFIER" if dots else "IDENTIFIER", n)


def verdicts(dom):
    todo = [[]]
    while todo:
        r = Word(dom, todo.pop())
        try:
            t = r.kind()
        except Loose:
            t = None
        yield r.dom, t
        for n in r.open:
            todo.append(r.taken[:n] + [False])


def token(E, st, arr, off, n, tag, kind=0):
    t = E.obj(st, "Token", tag)
    E.put(st, t, "Token", "begin", ("p", arr, 4 * off))
    E.put(st, t, "Token", "len", n)
    E.put(st, t, "Token", "type", kind)
    E.put(st, t, "Token", "next", 0)
    E.put(st, t, "Token", "location.line", 3)
    E.put(st, t, "Token", "location.column", 7)
    return t


def place(E, st, s, after=True, sep=SEP):
    """a word in the middle of a text -> (array, offset, open characters)"""
    o = E.new_obj(st, "alloc", "harness", 4 * (len(s) + 4), 0, None, "text")
    cells = E.wcells(st, o)
    quoted = s and s[0] in ("'", "\"")
    ne = frozenset(ord(c) for c in (s[0] if quoted else sep))
    syms = []
    cells[0] = (4, E.fresh(st, lo=1, hi=0x10FFFF))
    for i, c in enumerate(s):
        v = E.fresh(st, lo=1, hi=0x10FFFF, ne=ne) if c is None else ord(c)
        cells[4 * (i + 1)] = (4, v)
        syms.append(v)
    n = len(s) + 1
    if after:
        # what follows a word is a separator or another token
        cells[4 * n] = (4, E.fresh(st, lo=1, hi=0x10FFFF))
        cells[4 * n + 4] = (4, E.fresh(st, lo=1, hi=0x10FFFF))
        n += 2
    cells[4 * n] = (4, 0)
    return o, syms


def show(s):
    return repr("".join(c or "?" for c in s))


def engine(P):
    m = base_models()
    m["fmt_message"] = diag_model
    E = Engine(P, m)
    E.track_free = E.bounds = True
    E.max_states = 400000
    E.sym_iters = E.k_dist = 99
    st = State()
    cstr.install(E, st)
    return E, st


def analyse(P, s):
    E, st = engine(P)
    arr, syms = place(E, st, s)
    pre = P.enum("TOKEN_BRACKET_OPEN")
    a = token(E, st, arr, 0, 1, "before", pre)
    t = token(E, st, arr, 1, len(s), "word")
    b = token(E, st, arr, len(s) + 1, 1, "after", P.enum("TOKEN_COMMENT"))
    E.put(st, a, "Token", "next", ("p", t, 0))
    E.put(st, t, "Token", "next", ("p", b, 0))
    outs = E.exec(st.fork(), P.func("classify_tokens"), [("p", a, 0)])
    bad, cases, ended = {}, 0, 0
    for key, x in E.reports.items():
        bad["memory/%s/%s" % (key[0], key[1])] = "%s (word: %s)" % (x, show(s))
    for o in outs:
        q = o.state
        dom = [chars(E, q, v) for v in syms]
        if any(not d for d in dom):
            continue
        n = 1
        for d in dom:
            n *= len(d)
        ended += n
        if o.kind != "ret":
            bad["end/%s/%s" % (o.kind, text(dom))] = "%s: classification ends in %s at %s" % (text(dom), o.kind, where(E, o))
            continue

        def g(x, f):
            return E.res(q, E.get(q, x, "Token", f))
        if q.props.get("err"):
            bad["error/" + text(dom)] = "%s: classification reports an error" % text(dom)
        if g(a, "type") != pre or g(b, "type") != P.enum("TOKEN_COMMENT") or g(a, "len") != 1 or g(b, "len") != 1:
            bad["other/" + text(dom)] = "%s: a token that already has a kind is changed" % text(dom)
        if g(t, "begin") != ("p", arr, 4) or g(t, "next") != ("p", b, 0) or g(t, "location.line") != 3 or g(t, "location.column") != 7:
            bad["moved/" + text(dom)] = "%s: the place of the token is changed" % text(dom)
        ty, ln = g(t, "type"), g(t, "len")
        for d, want in verdicts(dom):
            cases += 1
            if want is None:
                continue
            k = text(d)
            got = P.enum_name("TokenType", ty) if type(ty) is int else None
            if got != "TOKEN_" + want[0]:
                bad["kind/" + k] = "%s is classified as %s, expected TOKEN_%s" % (k, got, want[0])
            elif ln != want[1]:
                bad["len/" + k] = "%s keeps %s characters, expected %d" % (k, ln, want[1])
    total = 1
    for c in s:
        if c is None:
            total *= len([x for x in DOM if chr(x) not in (s[0] if s[0] in ("'", "\"") else SEP)])
    if ended < total:
        bad["hang/" + show(s)] = "%s: classification never ends for some of these words" % show(s)
    return bad, len(outs), cases, E


def work(s):
    from checks import lexer
    try:
        b, n, c, E = analyse(lexer.P_, s)
    except AnalysisBroken as e:
        return s, str(e), 0, 0, (), (), ()
    return s, b, n, c, E.stat_funcs, E.stat_calls, E.stat_blocks


def tpl(s):
    return tuple(None if c == "?" else c for c in s)


def word_jobs(thorough):
    j = ["?", "??", "???", "?:", "??:", "a???"]
    for w in list(KW) + TYPES:
        j += [w, w + "?", "?" + w]
        for i in range(len(w)):
            j.append(w[:i] + "?" + w[i + 1:])
            j.append(w[:i] + w[i + 1:])
        if w[0].isalpha():
            j += [w + ":", w + "?:", w + ":?", w + ".?", "a." + w, w + "s:", w[:-1] + ":", w + ".a:", "?" + w + ":"]
            j += [w[:i] + "?" + w[i + 1:] + ":" for i in range(len(w))]
    j += ["0x??", "0b??", "0o??", "0???", "0?1", "0x1??", "0b1?1", "0o7?7", "0x", "0b", "0o", "-??", "-1?", "-1?2", "1?", "1??", "12?4", "1_?", "1_?_1", "1?.5", "1.?", "1.5?", "1.??", "-1.?", "-?.5", "?1.5", "1_0.5?", "1_?.5",
          "-0x1", "123456789?", "1234_5678_?", "00?", "0.?", "0.0?", "-0.?", "1e?", "1.5.?", ".5", "_1?", "_?", "a_?", "a?b", "a.?b", "a.b?", "a.b.?", "a?b:", "ab?:", "a1?", "a.b:", "aA?zZ", "Z9_?", "a-?", "é?", "a\u00e9?", "?=", ":?", "<?", ">?", "=?",
          "-?", "*?", "/=", "!=", "==", "a::", "a:?", "-a", "-Infinit?", "-Na?", "-NaN", "+1", "1+?"]
    j = [x for x in j if x]
    for q in ("'", "\""):
        body = ["", "?", "??", "\\?", "a?", "\\??", "???"] + ["\\x" + "0" * k + "?" for k in range(0, 10)] + ["a" * k + "?" for k in range(2, 12)] + [" ", "a b", "# a", "\\\\", "\\" + q]
        j += [q + b + q for b in body]
    if thorough:
        j += ["????", "-????", "0x???", "1???", "a????", "a???:", "??.??"]
    return list(dict.fromkeys(tpl(x) for x in j))


def classify(ctx):
    """every word has the documented kind"""
    ctx.rule = ("classify_tokens is analysed on a token whose characters are partly left open, surrounded by other tokens (every character class the code distinguishes becomes a case); the kind and "
                "length of every path are compared with the documented keywords, operators, literals and names over every character an open position may still hold")
    ctx.assumptions = ["words of up to three arbitrary characters, and templates around every keyword, operator, type name and literal form, stand for longer words", "the character encoding is UTF-8"]
    ctx.P.func("classify_tokens")
    E, st = engine(ctx.P)
    t = E.obj(st, "Token", "empty", 0)
    for o in E.exec(st.fork(), ctx.P.func("classify_tokens"), [("p", t, 0)]):
        if o.kind != "ret" or E.res(o.state, E.get(o.state, t, "Token", "type")) != ctx.P.enum("TOKEN_NEWLINE"):
            ctx.violation("empty", "the single token of a program without text is not an empty line (%s)" % (o.kind if o.kind != "ret" else "kind"))
    for key, x in E.reports.items():
        ctx.violation("memory/%s/%s" % (key[0], key[1]), x)
    pool_run(ctx, work, word_jobs(ctx.tier == "thorough"), "words")
    ctx.require(ctx.counts["cases_judged"] > 1000, "too few cases")


# ---------------------------------------------------------------- literals
ESC = {"\\": 92, "\"": 34, "'": 39, "0": 0, "e": 27, "t": 9, "r": 13, "n": 10}
SEPS = ["", " 1", ",9", ")7", "}1", "\n1", "*1", "# 1", "&1"]


class Err(Exception):
    pass


class Chars(Lazy):
    """the characters a quoted literal stands for: code points, ("pos", j) for an open character"""

    def value(self, j):
        return ("pos", j)

    def one(self, j):
        """-> (code point, next position)"""
        if not self.at(j, "\\"):
            return self.value(j), j + 1
        for c, v in ESC.items():
            if self.at(j + 1, c):
                return v, j + 2
        if not self.at(j + 1, "x"):
            raise Err("ERR_BAD_ESCAPE")
        k, v = j + 2, 0
        while k < len(self.dom) and k < j + 10 and self.at(k, HEX):
            d = next(c for c in HEX if self.at(k, c))
            v = v * 16 + int(d, 16)
            k += 1
        if k == j + 2:
            raise Err("ERR_BAD_ESCAPE")
        return v, k

    def legal(self, v):
        if type(v) is int:
            if 0xD800 <= v < 0xE000 or v > 0x10FFFF:
                raise Err("ERR_ILLEGAL_SEQ")

    def rune(self):
        if self.at(1, [chr(c) for c in list(range(1, 32)) + [127]]):
            raise Err("ERR_NO_CONTROL_CHAR")
        v, j = self.one(1)
        if j != len(self.dom) - 1:
            raise Err("ERR_RUNE_TOO_LONG")
        self.legal(v)
        return [v]

    def string(self):
        out, j, end = [], 1, len(self.dom) - 1
        while j < end:
            v, j = self.one(j)
            out.append(v)
        cut = out[:out.index(0)] if 0 in out else out
        for v in cut:
            self.legal(v)
        return cut


def char_verdicts(dom, rune):
    todo = [[]]
    while todo:
        r = Chars(dom, todo.pop())
        try:
            t = ("ok", r.rune() if rune else r.string())
        except Err as e:
            t = ("err", str(e))
        yield r.dom, t
        for n in r.open:
            todo.append(r.taken[:n] + [False])


def scan(E, st, v, base):
    """digits strtoll takes from a string: (base, negative, digits) or None"""
    t = cstr.text(E, st, v, 96)
    if t is None:
        return None

    def ch(i):
        d = chars(E, st, t[i]) if i < len(t) and (type(t[i]) is int or t[i][0] == "s") else set()
        return {chr(c) for c in d if c < 0x110000}
    i, neg = 0, False
    while ch(i) and ch(i) <= set(" \t\n\v\f\r"):
        i += 1
    if ch(i) in ({"-"}, {"+"}):
        neg = ch(i) == {"-"}
        i += 1
    if base in (0, 16) and ch(i) == {"0"} and ch(i + 1) and ch(i + 1) <= {"x", "X"} and ch(i + 2) and ch(i + 2) <= set(HEX):
        base, i = 16, i + 2
    elif base == 0:
        base = 8 if ch(i) == {"0"} else 10
    ds = HEX if base == 16 else DIG[:base]
    out = []
    while ch(i) and ch(i) <= set(ds):
        out.append(t[i])
        i += 1
    if ch(i) & set(ds):
        return None
    return base, neg, tuple(out)


def m_strtoll(E, st, a, ins, fr):
    base = E.res(st, a[2])
    r = scan(E, st, a[0], base) if type(base) is int else None
    s = st.fork()
    v = E.fresh(s)
    s.props["num"] = ("int", r, v[1])
    o = st.fork()
    E.store_cell(o, E.errno, 0, 4, cstr.ERANGE)
    o.props["num"] = ("int", r, "overflow")
    from absint import Outcome
    return [Outcome("ret", s, v), Outcome("ret", o, (1 << 63) - 1 if not (r and r[1]) else 1 << 63)]


def m_strtod(E, st, a, ins, fr):
    from absint import Outcome
    t = cstr.text(E, st, a[0], 96)
    s = st.fork()
    v = E.fresh(s)
    s.props["num"] = ("float", None if t is None else tuple(t), v[1])
    o = st.fork()
    E.store_cell(o, E.errno, 0, 4, cstr.ERANGE)
    o.props["num"] = ("float", None if t is None else tuple(t), "overflow")
    return [Outcome("ret", s, v), Outcome("ret", o, E.fresh(o))]


def decoded(E, st, v):
    """code points of an UTF-8 string the analysis built"""
    t = cstr.text(E, st, v, 96)
    if t is None:
        return None
    out, i = [], 0
    while i < len(t):
        c = t[i]
        if type(c) is tuple and c[0] == "t" and c[1] == "utf8":
            n = c[4]
            if c[3] != 0 or i + n > len(t) or any(type(t[i + k]) is not tuple or t[i + k][:2] != ("t", "utf8") or t[i + k][3] != k or E.res(st, t[i + k][2]) != E.res(st, c[2]) for k in range(n)):
                return None
            out.append(E.res(st, c[2]))
            i += n
        else:
            out.append(c)
            i += 1
    return out


def literal(P, job):
    kind, s, after = job
    E, st = engine(P)
    E.models.update({"strtoll": m_strtoll, "__isoc23_strtoll": m_strtoll, "strtol": m_strtoll, "__isoc23_strtol": m_strtoll, "strtod": m_strtod})
    if P.has("c32sunescape"):
        E.models["c32sunescape"] = cstr.splitting(P.func("c32sunescape"))
    E.nullable_all = False
    E.deep_arith = True
    arr, syms = place(E, st, s, after=False)
    cells = E.wcells(st, arr)
    n = len(s) + 1
    st.meta[arr].size = 4 * (n + len(after) + 3)
    for c in after:
        cells[4 * n] = (4, ord(c))
        n += 1
    if after:
        cells[4 * n] = (4, E.fresh(st, lo=1, hi=0xD7FF, ne=frozenset([95])))     # no token starts with _
        n += 1
    cells[4 * n] = (4, 0)
    if kind in ("INT", "FLOAT"):
        for c, v in zip(s, syms):
            if c is None:
                base = {"0x": 10, "0b": 2, "0o": 8}.get("".join(x or "?" for x in s[:2]), 10)
                st.cons[v[1]] = st.cons[v[1]].copy(lo=48, hi=47 + base, ne=frozenset())
    elif kind in ("RUNE", "STR"):
        for j, v in enumerate(syms):
            if type(v) is tuple and s[j - 1] == "\\":
                st.cons[v[1]] = st.cons[v[1]].copy(ne=frozenset())
    t = token(E, st, arr, 1, len(s), "literal", P.enum("TOKEN_%s_CONST" % kind))
    x = E.obj(st, "AstNodeExpr", "expr", 0)
    E.put(st, x, "AstNodeExpr", "oper", P.enum("EXPR_CONST"))
    E.put(st, x, "AstNodeExpr", "lhs.tok", ("p", t, 0))
    state = E.obj(st, "SemanticState", "state")
    outs = E.exec(st.fork(), P.func("validate_expr"), [("p", state, 0), ("p", x, 0)])
    bad, cases, ended = {}, 0, 0
    name = show(s) if s[0] in ("'", "\"") else "".join(c or "?" for c in s)
    for key, r in E.reports.items():
        bad["memory/%s/%s" % (key[0], key[1])] = "%s (literal: %s)" % (r, name)
    typ = {"INT": "TYPE_INT", "FLOAT": "TYPE_FLOAT", "BOOL": "TYPE_BOOL", "RUNE": "TYPE_RUNE", "STR": "TYPE_STR"}[kind]
    codes = {P.enum(c): c for c in P.enums["ErrorCode"] if c.startswith("ERR_")}
    for o in outs:
        q = o.state
        dom = [chars(E, q, v) for v in syms]
        if any(not d for d in dom):
            continue
        m = 1
        for d in dom:
            m *= len(d)
        ended += m
        k = text(dom)
        if o.kind != "ret":
            bad["end/%s/%s" % (o.kind, k)] = "%s: evaluation ends in %s at %s" % (k, o.kind, where(E, o))
            continue
        ok = E.res(q, o.ret)
        err = [codes.get(c) for c in q.props.get("codes", ())]
        if type(ok) is not int or bool(ok & 1) == bool(err):
            bad["silent/" + k] = "%s: %s" % (k, "rejected without a message" if not err else "accepted although an error is reported")
            continue
        ok = bool(ok & 1)
        if ok:
            ty = E.res(q, E.get(q, x, "AstNodeExpr", "type"))
            if ty != ("p", "@" + typ, 0):
                bad["type/" + k] = "%s: the type is not that of the literal" % k
            c = E.res(q, E.get(q, x, "AstNodeExpr", "is_const_expr"))
            if type(c) is not int or not c & 1:
                bad["const/" + k] = "%s: a literal is not a constant" % k
        num = q.props.get("num")
        if kind == "BOOL":
            cases += 1
            v = E.res(q, E.get(q, x, "AstNodeExpr", "value._bool"))
            if not ok or type(v) is not int or bool(v & 1) != (s[0] == "t"):
                bad["value/" + k] = "%s has the value %s" % (k, v)
        elif kind in ("INT", "FLOAT"):
            cases += 1
            if num and num[2] == "overflow":
                if ok:
                    bad["overflow/" + k] = "%s: accepted although the value does not fit" % k
                elif err != ["ERR_OVERFLOW"]:
                    bad["overflow/" + k] = "%s: an overflow is reported as %s" % (k, err)
                continue
            if not ok:
                bad["reject/" + k] = "%s: rejected (%s)" % (k, err)
                continue
            if kind == "INT":
                v = E.res(q, E.get(q, x, "AstNodeExpr", "value._int"))
                neg = s[0] == "-"
                base = {"0x": 16, "0b": 2, "0o": 8}.get("".join(c or "?" for c in s[:2]), 10)
                i = 1 if neg else 2 if base != 10 else 0
                want = (base, neg, tuple(E.res(q, syms[j]) for j in range(i, len(s)) if s[j] != "_"))
                if num is None:
                    if type(v) is int and all(type(d) is int for d in want[2]):
                        w = int("".join(chr(d) for d in want[2]), base) * (-1 if neg else 1) & (1 << 64) - 1
                        if v != w:
                            bad["value/" + k] = "%s has the value %d" % (k, v)
                    continue
                if v != E.res(q, ("s", num[2])):
                    bad["value/" + k] = "%s: the value is not the converted number" % k
                elif num[1] is not None:
                    got = (num[1][0], num[1][1], tuple(E.res(q, d) for d in num[1][2]))
                    if got != want:
                        bad["digits/" + k] = "%s is converted from %s%s in base %d" % (k, "-" if got[1] else "", text([chars(E, q, d) for d in got[2]]), got[0])
                else:
                    bad["digits/" + k] = "%s: digits of the following text become part of the number" % k
            else:
                v = E.res(q, E.get(q, x, "AstNodeExpr", "value._float"))
                w = "".join(c or "?" for c in s)
                if w in ("NaN", "Infinity", "-Infinity"):
                    want = {"NaN": "nan", "Infinity": "inf", "-Infinity": "-inf"}[w]
                    if num is None:
                        if not (type(v) is tuple and v[0] == "f" and v[1].lstrip("+").startswith(want)):
                            bad["value/" + k] = "%s has the value %s" % (k, v)
                    elif num[1] is not None and text([chars(E, q, d) for d in num[1]]).strip("'").lower() not in (w.lower(),):
                        bad["value/" + k] = "%s is converted from another text" % k
                    continue
                if num is None:
                    continue
                want = tuple(E.res(q, syms[j]) for j in range(len(s)) if s[j] != "_")
                if v != E.res(q, ("s", num[2])):
                    bad["value/" + k] = "%s: the value is not the converted number" % k
                elif num[1] is not None and tuple(E.res(q, d) for d in num[1]) != want:
                    bad["digits/" + k] = "%s is converted from %s" % (k, text([chars(E, q, d) for d in num[1]]))
        else:
            if kind == "RUNE":
                got = [E.res(q, E.get(q, x, "AstNodeExpr", "value.rune"))]
            else:
                got = decoded(E, q, E.get(q, x, "AstNodeExpr", "value.str")) if ok else None
            for d, want in char_verdicts(dom, kind == "RUNE"):
                cases += 1
                k = text(d)
                if want[0] == "err":
                    if ok:
                        bad["accept/" + k] = "%s: accepted, expected %s" % (k, want[1])
                    elif want[1] not in err:
                        bad["code/" + k] = "%s: %s is reported, expected %s" % (k, err, want[1])
                    continue
                if not ok:
                    bad["reject/" + k] = "%s: rejected (%s)" % (k, err)
                    continue
                w = [v if type(v) is int else E.res(q, syms[v[1]]) for v in want[1]]
                if got != w:
                    bad["value/" + k] = "%s stands for %s, expected %s" % (k, got, w)
    total = 1
    for c, v in zip(s, syms):
        if c is None:
            total *= len(chars(E, st, v))
    if ended < total:
        bad["hang/" + name] = "%s: evaluation never ends for some of these literals" % name
    return bad, len(outs), cases, E


def work_lit(job):
    from checks import lexer
    try:
        b, n, c, E = literal(lexer.P_, job)
    except AnalysisBroken as e:
        return job, str(e), 0, 0, (), (), ()
    return job, b, n, c, E.stat_funcs, E.stat_calls, E.stat_blocks


def lit_jobs(thorough):
    j = []
    ints = ["?", "??", "1_?", "?_?_?", "-?", "-?_?", "0", "00?", "0?", "1234567890?", "0x?", "0xaF0?", "0x?_?", "0xDEAD_BEE?", "0xB?", "0b1", "0b?", "0b?_?", "0b??_??", "0o?", "0o?_?", "0o7?", "-0", "0x0b1", "0xb", "0b0_1",
            "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1_000_000_00?", "0o0?", "0b0?"]
    for w in ints:
        for a in SEPS:
            j.append(("INT", tpl(w), a))
    for w in ["?.?", "??.??", "-?.?", "1_?.?", "?_?_?.??", "-1_?.0?", "0.?", "00.5", "NaN", "Infinity", "-Infinity", "1234567.125?"]:
        for a in SEPS:
            j.append(("FLOAT", tpl(w), a))
    for w in ("true", "false"):
        j += [("BOOL", tpl(w), a) for a in SEPS]
    body = ["?", "\\?", "\\x?", "\\x??", "\\x4?", "\\x0000004?", "\\x00000041", "\\x10FFF?", "\\x110000", "\\xD80?", "\\xDFFF", "\\xE000", "\\xFFFFFFFF", "??", "a?", "\\na", "\\0", "\\00", "é", "\\\\", "\\'" , "\\e?", "\\x", "\\X41", "\\u0041"]
    for b in body:
        if "\\x" in b or len(b.replace("?", "a")) + 2 == 3 or b[0] == "\\":
            j.append(("RUNE", tpl("'" + b + "'"), ""))
    strs = ["", "a\\?b", "\\n\\?", "a\nb", "ab?d", "?\\t?", "\\x41?", "\\x4?z", "\\x000000411", "a\\x0?", "\\\\n", "\\\"", "é?", "\\x7?\\x8?", "abc\\", "%?", "\\xe9\\?"]
    for b in body + strs:
        if b == "abc\\":
            continue
        j += [("STR", tpl("\"" + b + "\""), ""), ("STR", tpl("\"" + b + "\""), " \"x\"")]
    if thorough:
        j += [("STR", tpl("\"" + b + "\""), "") for b in ("???", "\\??", "\\x???", "?\\?", "\\?\\?", "a\\x?\\?")]
    return list(dict.fromkeys(j))


def literals(ctx):
    """every literal stands for its documented value"""
    ctx.rule = ("validate_expr is analysed on a literal whose characters are partly left open, followed by other text; type, value and error of every path are compared with the value the literal "
                "denotes: the digits and base handed to the C library's conversion, the escape table, code points and their UTF-8 bytes, and range errors")
    ctx.assumptions = ["strtoll, strtod and c32rtomb follow the C standard; the character encoding is UTF-8", "characters of a string after a NUL are unspecified"]
    ctx.P.func("validate_expr")
    pool_run(ctx, work_lit, lit_jobs(ctx.tier == "thorough"), "literals")
    ctx.require(ctx.counts["cases_judged"] > 300, "too few cases")


CHECKS = {"C19": classify, "C28": literals}
