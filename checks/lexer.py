"""The tokenizer: how every program text is cut into tokens, and where each one is."""
import multiprocessing
import os

import absint
from absint import Engine, State
from extract import AnalysisBroken
from models import base_models, diag_model
from sem import where

DOM = list(range(1, 128)) + [0xE9, 0x2028, 0xFEFF, 0x1F600]
DELIM = {"{": "TOKEN_BRACKET_OPEN", "}": "TOKEN_BRACKET_CLOSE", "(": "TOKEN_PAREN_OPEN", ")": "TOKEN_PAREN_CLOSE", ",": "TOKEN_COMMA",
         "\n": "TOKEN_NEWLINE", "&": "TOKEN_OPER_REF", "*": None}
WS = " \t\r"
QUOTES = "'\""


class Reject(Exception):
    def __init__(self, code, line, col):
        self.code, self.line, self.col = code, line, col


class Loose(Exception):
    pass


class Lazy:
    """a text whose characters are decided only as far as the reference looks"""

    def __init__(self, dom, choices):
        self.dom = [set(d) for d in dom]
        self.choices = list(choices)
        self.taken, self.open = [], []

    def at(self, j, chars):
        if j >= len(self.dom):
            return False
        s = {ord(c) for c in chars}
        yes, no = self.dom[j] & s, self.dom[j] - s
        if not yes or not no:
            return bool(yes)
        n = len(self.taken)
        if n < len(self.choices):
            c = self.choices[n]
        else:
            c = True
            self.open.append(n)
        self.taken.append(c)
        self.dom[j] = yes if c else no
        return c


class Lex(Lazy):
    """what the tokens of a text are: (begin, length, kind, line, column)"""

    def run(self):
        n = len(self.dom)
        i, line, bol = 0, 1, -1
        self.bom = self.at(0, "\ufeff")
        if self.bom:
            i, bol = 1, 0
        out = []
        while i < n:
            col = i - bol
            if self.at(i, "#"):
                if self.at(i + 1, " \t"):
                    j = i + 2
                    while j < n and not self.at(j, "\n"):
                        j += 1
                    out.append((i, j - i, "TOKEN_COMMENT", line, col))
                    i = j
                    continue
                if not self.at(i + 1, "{"):
                    raise Reject("ERR_INVALID_COMMENT_START", line, col)
                j, l0 = i + 2, line
                while True:
                    if j >= n:
                        raise Reject("ERR_NO_CLOSING_COMMENT", l0, col)
                    if self.at(j, "#"):
                        if self.at(j + 1, "}"):
                            break
                        if self.at(j + 1, "{"):
                            raise Reject("ERR_NESTED_BLOCK_COMMENT", line, None)
                    if self.at(j, "\n"):
                        line += 1
                        bol = j
                    j += 1
                out.append((i, j + 2 - i, "TOKEN_COMMENT", l0, col))
                i = j + 2
                continue
            q = next((c for c in QUOTES if self.at(i, c)), None)
            if q:
                j, l0 = i + 1, line
                while True:
                    if j >= n:
                        raise Reject("ERR_NO_CLOSING_QUOTE", l0, col)
                    if self.at(j, "\n"):
                        line += 1
                        bol = j
                    elif self.at(j, "\\"):
                        if self.at(j + 1, "\\" + q):
                            j += 1
                    elif self.at(j, q):
                        break
                    j += 1
                out.append((i, j + 1 - i, None, l0, col))
                i = j + 1
                if i < n and not self.at(i, WS + "#" + "".join(DELIM)):
                    raise Loose
                continue
            d = next((c for c in DELIM if self.at(i, c)), None)
            if d:
                out.append((i, 1, DELIM[d], line, None if d == "\n" else col))
                if d == "\n":
                    line += 1
                    bol = i
                i += 1
                continue
            if self.at(i, WS):
                i += 1
                continue
            j = i + 1
            while j < n and not self.at(j, WS + "#" + QUOTES + "".join(DELIM)):
                j += 1
            if j < n and self.at(j, QUOTES):
                raise Loose
            out.append((i, j - i, None, line, col))
            i = j
        return out


def verdicts(dom):
    todo = [[]]
    while todo:
        r = Lex(dom, todo.pop())
        base = r.taken
        try:
            t = ("ok", tuple(r.run()))
        except Reject as e:
            t = ("reject", e.code, e.line, e.col)
        except Loose:
            t = ("loose",)
        yield r.dom, t, r.bom
        for n in r.open:
            todo.append(base[:n] + [False])


def chars(E, st, v):
    """characters a value may be"""
    v = E.res(st, v)
    if type(v) is int:
        return {v}
    c = E.con(st, v)
    if c is None:
        return set(DOM)
    hi = 0x10FFFF if c.hi is None else c.hi
    return {x for x in DOM if c.lo <= x <= hi and x not in c.ne}


def text(dom):
    """one text of the set"""
    def key(x):
        return (not chr(x).isalnum(), x != 32, not 32 < x < 127, x)
    return repr("".join(chr(min(d, key=key)) if d else "?" for d in dom))


def put_text(E, st, s, tag):
    """char32_t array: characters of s, None for an open one"""
    o = E.new_obj(st, "alloc", "harness", 4 * (len(s) + 1), 0, None, tag)
    cells = E.wcells(st, o)
    syms = []
    for i, c in enumerate(s):
        v = E.fresh(st, lo=1, hi=0x10FFFF) if c is None else ord(c)
        cells[4 * i] = (4, v)
        syms.append(v)
    cells[4 * len(s)] = (4, 0)
    return o, syms


def loc_of(E, st, v):
    """(line, column) a diagnostic carries"""
    v = E.res(st, v)
    if type(v) is not tuple or v[0] != "p":
        return None
    l = E.res(st, E.get(st, v, "Message", "loc"))
    t = E.res(st, E.get(st, v, "Message", "tok"))
    if type(l) is tuple and l[0] == "p":
        return tuple(E.res(st, E.get(st, l, "Location", f)) for f in ("line", "column"))
    if type(t) is tuple and t[0] == "p":
        return tuple(E.res(st, E.get(st, t, "Token", "location." + f)) for f in ("line", "column"))
    return None


def located(E, st, args, ins, fr):
    if E.res(st, args[0]) == E.p.enum("ERROR_FATAL"):
        st.props["loc"] = loc_of(E, st, args[2])
    return diag_model(E, st, args, ins, fr)


class Bad(Exception):
    pass


def read(P, E, st, v, arr):
    """tokens of the list starting at v"""
    out = []
    seen = set()
    while v != 0:
        if type(v) is not tuple or v[0] != "p":
            raise Bad("the token list is not linked")
        if v[1] in seen:
            raise Bad("the token list is circular")
        seen.add(v[1])
        if v[1] in st.freed:
            raise Bad("a token of the list has been freed")
        b = E.res(st, E.get(st, v, "Token", "begin"))
        ln = E.res(st, E.get(st, v, "Token", "len"))
        ty = E.res(st, E.get(st, v, "Token", "type"))
        l = E.res(st, E.get(st, v, "Token", "location.line"))
        c = E.res(st, E.get(st, v, "Token", "location.column"))
        if b == 0:
            out.append((None, ln, ty, l, c))
        elif type(b) is tuple and b[0] == "p" and b[1] == arr and type(b[2]) is int:
            out.append((b[2] // 4, ln, ty, l, c))
        else:
            raise Bad("a token does not point into the text")
        v = E.res(st, E.get(st, v, "Token", "next"))
    return out


def compare(P, got, want):
    if not want:
        if len(got) != 1 or got[0][0] is not None:
            return "%d tokens, expected an empty list" % len(got)
        return None
    if len(got) != len(want):
        return "%d tokens, expected %d" % (len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        n = "token %d " % (k + 1)
        if g[0] != w[0]:
            return n + "starts at character %s, expected %d" % (g[0] if g[0] is None else g[0] + 1, w[0] + 1)
        if w[1] is not None and g[1] != w[1]:
            return n + "has length %s, expected %d" % (g[1], w[1])
        t = P.enum(w[2]) if w[2] else P.enum("TOKEN_UNKNOWN")
        if g[2] != t:
            return n + "is a %s, expected %s" % (P.enum_name("TokenType", g[2]) if type(g[2]) is int else g[2], w[2] or "no kind yet")
        if g[3] != w[3]:
            return n + "is on line %s, expected %d" % (g[3], w[3])
        if w[4] is not None and g[4] != w[4]:
            return n + "is in column %s, expected %d" % (g[4], w[4])
    return None


def covered(got, dom):
    """whatever the tokens are: they follow each other and contain every character"""
    end = 0
    for k, g in enumerate(got):
        if type(g[0]) is not int or type(g[1]) is not int:
            return None
        if g[0] < end:
            return "token %d starts inside of the one before it" % (k + 1)
        if any(not dom[i] <= {9, 10, 13, 32} for i in range(end, g[0])):
            return "the text before token %d is lost" % (k + 1)
        end = g[0] + g[1]
        if end > len(dom):
            return "token %d ends after the text" % (k + 1)
    if any(not dom[i] <= {9, 10, 13, 32} for i in range(end, len(dom))):
        return "the text after the last token is lost"
    return None


def analyse(P, s):
    m = base_models()
    m["fmt_message"] = located
    E = Engine(P, m)
    E.track_free = E.bounds = True
    E.max_states = 400000
    E.sym_iters = E.k_dist = 99
    st = State()
    arr, syms = put_text(E, st, s, "text")
    bd = ("p", E.gobj(st, "BUILD_DATA"), 0)
    outs = E.exec(st.fork(), P.func("tokenize"), [("p", arr, 0)])
    bad = {}
    cases = 0
    ended = 0
    for key, t in E.reports.items():
        bad["memory/%s/%s" % (key[0], key[1])] = "%s (text: %s)" % (t, "".join(c or "?" for c in s).encode("unicode_escape").decode())
    for o in outs:
        q = o.state
        dom = [chars(E, q, v) for v in syms]
        if any(not d for d in dom):
            continue
        n = 1
        for d in dom:
            n *= len(d)
        ended += n
        if o.kind != "ret":
            bad["end/%s/%s" % (o.kind, text(dom))] = "%s: tokenizing ends in %s at %s" % (text(dom), o.kind, where(E, o))
            continue
        rv = E.res(q, o.ret)
        err = bool(q.props.get("err"))
        werr = E.res(q, E.get(q, bd, "BuildData", "werror"))
        got, why = None, None
        if rv != 0:
            try:
                got = read(P, E, q, rv, arr)
            except Bad as e:
                why = str(e)
        for d, want, bom in verdicts(dom):
            cases += 1
            k = text(d)
            if bom and (not q.props.get("warn") or type(werr) is not int):
                bad["bom/" + k] = "%s: no warning about the byte order mark" % k
                continue
            if bom and werr & 1:
                if rv != 0:
                    bad["bom/" + k] = "%s: accepted although warnings are errors" % k
                continue
            if not bom and q.props.get("warn"):
                bad["warn/" + k] = "%s: unexpected warning" % k
            if why:
                bad["list/" + k] = "%s: %s" % (k, why)
            elif (rv == 0) != err:
                bad["silent/" + k] = "%s: %s" % (k, "rejected without a message" if rv == 0 else "an error is reported but tokenizing succeeds")
            elif want[0] == "loose":
                w = got is not None and covered(got, d)
                if w:
                    bad["lost/" + k] = "%s: %s" % (k, w)
            elif want[0] == "reject":
                if rv != 0:
                    bad["accept/" + k] = "%s: accepted, expected %s" % (k, want[1])
                    continue
                if P.enum(want[1]) not in q.props.get("codes", ()):
                    bad["code/" + k] = "%s: another error than %s is reported" % (k, want[1])
                loc = q.props.get("loc")
                if not loc or loc[0] != want[2] or want[3] is not None and loc[1] != want[3]:
                    bad["loc/" + k] = "%s: %s is reported at %s, expected line %d%s" % (k, want[1], loc and "line %s column %s" % loc, want[2], "" if want[3] is None else " column %d" % want[3])
            elif got is None:
                bad["reject/" + k] = "%s: rejected, expected %d tokens" % (k, len(want[1]))
            else:
                w = compare(P, got, want[1])
                if w:
                    bad["token/" + k] = "%s: %s" % (k, w)
    if ended < len(DOM) ** s.count(None):
        k = "".join(c or "?" for c in s).encode("unicode_escape").decode()
        bad["hang/" + k] = "%s: tokenizing never ends for some of these texts" % k
    return bad, len(outs), cases, E


P_ = None


def work(s):
    try:
        b, n, c, E = analyse(P_, s)
    except AnalysisBroken as e:
        return s, str(e), 0, 0, (), (), ()
    return s, b, n, c, E.stat_funcs, E.stat_calls, E.stat_blocks


def pool_run(ctx, fn, jobs, name):
    global P_
    P_ = ctx.P
    broken = []
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for s, b, n, c, f, ca, bl in pool.imap_unordered(fn, jobs, chunksize=1):
            if isinstance(b, str):
                broken.append("%s: %s" % (s, b))
                continue
            for k, t in b.items():
                ctx.violation(k, t)
            ctx.count(name)
            ctx.count("paths", n)
            ctx.count("cases_judged", c)
            ctx.funcs |= f
            ctx.calls |= ca
            ctx.blocks |= bl
    if broken:
        raise AnalysisBroken("; ".join(broken[:3]))


def tpl(s):
    """? stands for any character"""
    return tuple(None if c == "?" else c for c in s)


def lex_jobs(thorough):
    j = ["", "?", "??"]
    first = "a\n \t\r{*,#'\"\\\ufeff"
    j += [c + "??" for c in first] + ["a" + c + "??" for c in first] + ["???"]
    for a in ("a", "ab", "\"x\"", "'x'", "# c", "#{ c #}", "#{\n#}", "\"\n\"", "{", ",", "\n", "*", "&", "\r\n", " ", "\t"):
        for b in ("a", "\"x\"", "#{ c #}", "# c", "\n", "\r\n", "(", " "):
            j += [a + "?" + b, a + b + "?"]
            if thorough:
                j += [a + "?" + b + "?", "?" + a + b + "\na", "a\n" + a + "?" + b + "?a", " " + a + "??" + b]
    for q in "'\"":
        j += ["%s?%s" % (q, q), "%s??%s" % (q, q), "%s\\?%s" % (q, q), "%s\\?%s a" % (q, q), "%sa\\?%s\na" % (q, q), "%s\\\\?%s" % (q, q), "a %s?\n?%s b" % (q, q),
              "%s\\\n%s a" % (q, q), "%s?%s,%s?%s" % (q, q, q, q), "%s# %s a" % (q, q), "%s#{%s a" % (q, q), "%sab" % q, "a\n %sab?" % q, "%s%s ?" % (q, q)]
    j += ["#?", "#??", "#{?", "#{?#}", "#{??#}", "#{#?", "#{##?", "#{#}?", "#{ a\n?#} b", "#{ a\n\n #}?b", "a\n #{ a", "a #{ #{?", "# a\n?", "# a?b\nc", "#\ta?\n?", "# '?\na", "#{ '?#} a",
          "#{ \" #} a", "# #{\na?", "a# b", "a#{ b #}c", "a#?", "(# b\n)", "#{ a #}#{ b #}", "#{ a #}# b", "#{ a #}\"b\" c", "a #{\n\n#} b\nc", "\n\n#a", "a\n  #{ b\n #{", "# a\r\n?", "a\r\n?\r\nb", "a\rb",
          "f(a,b)?", "f ( a , b )?{\n?}", "x: &int?= 1", "a*b?", "a * b?", "a&b", "&&?", "**?", "{}?", "a{?b}", "\ufeffab ?", "\ufeff\na?", "a\ufeff ?", "\ufeff# a\n?", "\ufeff'a' ?", "\ufeff{?", "a  ?", "  a?", "\ta\t?\t",
          "\n\n a?", "a\n\n\nb?", "a b c d e ?", "a\x0bb", "a\x0cb ?", "a;b", "abc\n?def\n ?"]
    for q in "'\"":
        j += ["ab%sc%s" % (q, q), "ab%sc%s d" % (q, q), "%sc%sab" % (q, q), "%sc%sab d" % (q, q), "%sa%s%sb%s e" % (q, q, q, q), "a%sb%sc%sd%s" % (q, q, q, q), "ab%s?%s?" % (q, q),
              "a.%s\n%s b" % (q, q)]
    return list(dict.fromkeys(tpl(x) for x in j))


def tokens(ctx):
    """every text is cut into its tokens, each at its line and column; broken texts are rejected"""
    ctx.rule = ("tokenize is analysed on texts whose characters are partly left open (every character the code distinguishes becomes a case); the token list of every path is compared - extent, "
                "kind, line and column - with a reference scanner over every character an open position may still hold; no access may leave the text or touch freed tokens")
    ctx.assumptions = ["texts of up to three arbitrary characters and templates around words, quotes, escapes, comments, line breaks and delimiters stand for longer texts",
                       "a quote directly next to a word is unspecified"]
    ctx.P.func("tokenize")
    pool_run(ctx, work, lex_jobs(ctx.tier == "thorough"), "texts")
    ctx.require(ctx.counts["cases_judged"] > 1000, "too few cases")


CHECKS = {"C20": tokens}
