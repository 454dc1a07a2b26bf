"""Reads C text that contains holes (see text.py): tokens, expressions, statements.

Holes are written ("s", tag) in the text. A tag starting with "e:" stands for an expression that is at least
a C unary expression; any other hole stands for one word (a name, a file).
"""
import re

WORD = re.compile(r"[A-Za-z_$][A-Za-z_0-9$.]*")
NUM = re.compile(r"(?:0[xX][0-9A-Fa-f]+(?:\.[0-9A-Fa-f]*)?(?:[pP][-+]?\d+)?|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)[uUlLfF]*")
PUNCT = ["<<=", ">>=", "...", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "++", "--", "->", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="] + list("+-*/%<>=!&|^~()[]{};,.?:#")
TYPES = {"int64_t", "uint64_t", "double", "char32_t", "char", "bool", "_Bool", "void", "int", "unsigned", "long", "signed"}
KEYWORDS = {"if", "else", "while", "return", "break", "continue", "static", "const", "extern", "do", "for", "switch", "case", "goto", "sizeof"} | TYPES


class Bad(Exception):
    pass


def scan(parts):
    """-> list of (kind, value, first on its line)"""
    out = []
    glue = None                 # the token that ends exactly here
    line = True
    for p in parts:
        if not isinstance(p, str):
            if p[0] == "s":
                e = p[1].startswith("e:")
                if glue and (glue[0] in ("word", "num", "hole", "n") or e and glue[1] in ("-", "+", "&")):
                    raise Bad("%s runs into %s" % (show([glue]), show([("hole", p[1])])))
                out.append(("hole", p[1], line))
                glue = ("hole", p[1])
            elif p[0] == "n":
                if glue and glue[0] == "num" and glue[1] in ("0x", "0X") and p[1][-1] in "xX":
                    out.pop()
                    out.append(("n", ("hex", p[2]), line))
                elif glue and glue[0] in ("word", "num", "hole", "n") or glue and glue[1] == "-":
                    raise Bad("a number runs into %s" % show([glue]))
                else:
                    out.append(("n", (p[1], p[2]), line))
                glue = out[-1][:2]
            else:
                raise Bad("unknown text %s" % (p,))
            line = False
            continue
        i = 0
        while i < len(p):
            c = p[i]
            if c.isspace():
                line = line or c == "\n"
                glue = None
                i += 1
                continue
            m = WORD.match(p, i)
            if m:
                w = m.group()
                if glue and glue[0] == "n" and set(w.lower()) <= set("lu"):
                    out[-1] = ("n", out[-1][1] + (w,), out[-1][2])
                    glue = out[-1][:2]
                elif glue and glue[0] in ("word", "num", "hole", "n"):
                    raise Bad("%s runs into %s" % (show([glue]), w))
                else:
                    out.append(("word", w, line))
                    glue = out[-1][:2]
                i = m.end()
                line = False
                continue
            if c in "'\"":
                j = i + 1
                chars = []
                while j < len(p) and p[j] != c:
                    if p[j] == "\n":
                        raise Bad("line break in a string")
                    n, ch = escape(p, j)
                    chars.append(ch)
                    j += n
                if j >= len(p):
                    # the text goes on in a hole
                    rest = p[i + 1:]
                    if rest:
                        raise Bad("unclosed string \"%s" % rest)
                    out.append(("open", c, line))
                    i = len(p)
                    line = False
                    glue = None
                    continue
                if out and out[-1][0] == "hole" and len(out) > 1 and out[-2][0] == "open":
                    raise Bad("quotes")
                out.append(("str", tuple(chars), line))
                glue = None
                i = j + 1
                line = False
                continue
            m = NUM.match(p, i)
            if m or p[i:i + 2] in ("0x", "0X"):
                w = m.group() if m else p[i:i + 2]
                if p[i:i + 2] in ("0x", "0X") and i + 2 == len(p):
                    w = p[i:i + 2]
                if glue and glue[0] in ("word", "num", "hole", "n"):
                    raise Bad("%s runs into %s" % (show([glue]), w))
                out.append(("num", w, line))
                glue = out[-1][:2]
                i += len(w)
                line = False
                continue
            for q in PUNCT:
                if p.startswith(q, i):
                    out.append(("p", q, line))
                    glue = out[-1][:2]
                    i += len(q)
                    line = False
                    break
            else:
                raise Bad("stray character %r" % c)
    # a quoted hole arrives as: open, hole, and a str that starts with the closing quote
    return fix(out)


def fix(toks):
    out = []
    i = 0
    while i < len(toks):
        if toks[i][0] == "open":
            raise Bad("unclosed string")
        out.append(toks[i])
        i += 1
    return out


def escape(p, j):
    """-> (length, byte) of one character of a string literal"""
    if p[j] != "\\":
        return 1, p[j]
    if j + 1 >= len(p):
        raise Bad("escape at the end of a string")
    m = re.compile(r"[0-7]{1,3}").match(p, j + 1)
    if m:
        return 1 + len(m.group()), chr(int(m.group(), 8))
    if p[j + 1] in "xX":
        m = re.compile(r"[0-9a-fA-F]+").match(p, j + 2)
        if not m:
            raise Bad("bad escape")
        return 2 + len(m.group()), chr(int(m.group(), 16))
    t = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", '"': '"', "'": "'", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "?": "?"}
    if p[j + 1] not in t:
        raise Bad("bad escape \\%s" % p[j + 1])
    return 2, t[p[j + 1]]


def show(toks):
    return " ".join("<%s>" % t[1] if t[0] == "hole" else '"%s"' % "".join(map(str, t[1])) if t[0] == "str" else str(t[1]) for t in toks)


def quoted(parts):
    """replaces `"` hole `"` by a string token hole: done on the parts before scanning"""
    out = list(parts)
    i = 1
    while i < len(out) - 1:
        a, h, b = out[i - 1], out[i], out[i + 1]
        if not isinstance(h, str) and h[0] == "s" and isinstance(a, str) and isinstance(b, str) and a.endswith('"') and b.startswith('"') and a.count('"') % 2:
            out[i - 1], out[i], out[i + 1] = a[:-1] + " ", ("s", '"' + h[1]), " " + b[1:]
        i += 1
    return out


LEVEL = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8,
         "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}


class Reader:
    def __init__(self, parts):
        self.t = scan(quoted(parts))
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "end of text", False)

    def at(self, v, k=0):
        t = self.peek(k)
        return t[0] in ("p", "word") and t[1] == v

    def eat(self, v):
        if not self.at(v):
            raise Bad("`%s` where `%s` belongs" % (show([self.peek()]), v))
        self.i += 1

    def end(self):
        return self.i >= len(self.t)

    # ------------------------------------------------------------ expressions
    def expr(self, lvl=1):
        e = self.unary()
        while True:
            t = self.peek()
            n = LEVEL.get(t[1]) if t[0] == "p" else None
            if n is None or n < lvl:
                return e
            self.i += 1
            e = ("bin", t[1], e, self.expr(n + 1))

    def unary(self):
        t = self.peek()
        if t[0] == "p" and t[1] in ("-", "+", "!", "~", "*", "&"):
            self.i += 1
            return ("un", t[1], self.unary())
        if self.at("(") and self.peek(1)[0] == "word" and self.peek(1)[1] in TYPES:
            self.i += 1
            ty = self.type()
            self.eat(")")
            return ("cast", ty, self.unary())
        return self.postfix()

    def postfix(self):
        t = self.peek()
        if self.at("("):
            self.i += 1
            e = self.expr()
            self.eat(")")
        elif t[0] == "hole":
            self.i += 1
            e = ("hole", t[1])
        elif t[0] in ("num", "n", "str"):
            self.i += 1
            return (t[0], t[1])
        elif t[0] == "word" and t[1] not in KEYWORDS:
            self.i += 1
            e = ("name", t[1])
        else:
            raise Bad("`%s` where an expression belongs" % show([t]))
        while self.at("("):
            self.i += 1
            args = []
            if not self.at(")"):
                args.append(self.expr())
                while self.at(","):
                    self.i += 1
                    args.append(self.expr())
            self.eat(")")
            e = ("call", e, tuple(args))
        return e

    # ------------------------------------------------------------ declarations
    def type(self):
        """-> (base, number of stars, const)"""
        const = False
        while self.at("const"):
            const = True
            self.i += 1
        t = self.peek()
        if not (t[0] == "word" and t[1] in TYPES or t[0] == "hole" and t[1].startswith("type:")):
            raise Bad("`%s` where a type belongs" % show([t]))
        self.i += 1
        n = 0
        while self.at("*") or self.at("const"):
            if self.at("const"):
                const = const or n == 0
            else:
                n += 1
            self.i += 1
        return (t[1] if t[0] == "word" else t[1][5:], n, const)

    def is_type(self):
        t = self.peek()
        return t[0] == "word" and (t[1] in TYPES or t[1] in ("const", "static", "extern")) or t[0] == "hole" and t[1].startswith("type:")

    def name(self):
        t = self.peek()
        if t[0] == "hole" and not t[1].startswith("e:") or t[0] == "word" and t[1] not in KEYWORDS:
            self.i += 1
            return t[1] if t[0] == "hole" else "'" + t[1]
        raise Bad("`%s` where a name belongs" % show([t]))

    def decl(self):
        """a declaration or function definition"""
        static = False
        while self.at("static") or self.at("extern"):
            static = static or self.at("static")
            self.i += 1
        ty = self.type()
        n = self.name()
        params = link = None
        if self.at("("):
            self.i += 1
            params = []
            if self.at("void") and self.at(")", 1):
                self.i += 1
            elif not self.at(")"):
                while True:
                    pt = self.type()
                    params.append((pt, self.name()))
                    if not self.at(","):
                        break
                    self.i += 1
            self.eat(")")
            params = tuple(params)
        if self.at("__asm__") or self.at("asm"):
            self.i += 1
            self.eat("(")
            t = self.peek()
            self.i += 1
            if t[0] == "hole" and t[1].startswith('"'):
                link = t[1][1:]
            elif t[0] == "str":
                link = "'" + "".join(t[1])
            else:
                raise Bad("`%s` where a linkage name belongs" % show([t]))
            self.eat(")")
        if params is not None:
            if self.at("{"):
                return ("func", static, ty, n, params, link, self.block())
            self.eat(";")
            return ("proto", static, ty, n, params, link)
        init = None
        if self.at("="):
            self.i += 1
            init = self.expr()
        self.eat(";")
        return ("var", static, ty, n, link, init)

    # ------------------------------------------------------------ statements
    def block(self):
        self.eat("{")
        b = self.stmts("}")
        self.eat("}")
        return b

    def line(self):
        """#line directives before the next statement -> last of them"""
        got = None
        while self.at("#"):
            if not self.peek()[2]:
                raise Bad("a #line directive inside a line")
            self.i += 1
            self.eat("line")
            n = self.peek()
            self.i += 1
            f = self.peek()
            self.i += 1
            if n[0] not in ("n", "num") or not (f[0] == "str" or f[0] == "hole" and f[1].startswith('"')):
                raise Bad("malformed #line directive")
            if not self.peek()[2] and not self.end():
                raise Bad("text after a #line directive")
            got = (n[1], f[1])
        return got

    def stmts(self, stop=None):
        out = []
        prev = pending = None
        while True:
            ln = self.line() or pending
            if self.end() or stop and self.at(stop):
                return tuple(out)
            s = self.stmt()
            if s is not None:
                if s[0] in ("elif", "else") and prev not in ("if", "elif"):
                    raise Bad("else without an if")
                out.append((s, ln))
                pending = None
            else:
                pending = ln
            prev = s and s[0]

    def body(self):
        if not self.at("{"):
            raise Bad("a statement without braces")
        return self.block()

    def stmt(self):
        if self.at(";"):
            self.i += 1
            return None
        if self.at("{"):
            return ("block", self.block())
        for k in ("if", "while"):
            if self.at(k):
                self.i += 1
                self.eat("(")
                e = self.expr()
                self.eat(")")
                return (k, e, self.body())
        if self.at("else"):
            self.i += 1
            if self.at("if"):
                self.i += 1
                self.eat("(")
                e = self.expr()
                self.eat(")")
                return ("elif", e, self.body())
            return ("else", self.body())
        if self.at("return"):
            self.i += 1
            e = None if self.at(";") else self.expr()
            self.eat(";")
            return ("return", e)
        for k in ("break", "continue"):
            if self.at(k):
                self.i += 1
                self.eat(";")
                return (k,)
        if self.is_type():
            return self.decl()
        e = self.expr()
        if self.at("="):
            self.i += 1
            v = self.expr()
            self.eat(";")
            return ("set", e, v)
        self.eat(";")
        if e[0] in ("str", "num") or e[0] == "cast" and e[1][0] == "void" and e[2][0] in ("num", "hole"):
            return None
        if e[0] == "hole" and e[1].startswith('"'):
            return None
        return ("expr", e)


def expression(parts):
    """the tree of a text that has to be a C unary expression"""
    r = Reader(parts)
    e = r.unary()
    if not r.end():
        raise Bad("`%s` after `%s`: not a single operand" % (show(r.t[r.i:]), show(r.t[:r.i])))
    return e


def statements(parts):
    r = Reader(parts)
    return r.stmts()
