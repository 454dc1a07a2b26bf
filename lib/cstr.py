"""Abstract effects of the C library's string functions on texts whose characters are known or open."""
from absint import Outcome
from models import ret, site


def split(E, st, a, b, w=8):
    """[(state, a == b)] for every case still possible"""
    t = E.cmp(st, "eq", E.res(st, a), E.res(st, b), w)
    if type(t) is int:
        return [(st, bool(t))]
    out = []
    for truth in (True, False):
        s = st.fork()
        if E.assume(s, t, truth):
            out.append((s, truth))
    return out


def known(E, st, o, off, size=1):
    """the character at an address, None when nothing is known about that memory"""
    m = E.metaof(st, o)
    if m is None:
        return None
    c = st.heap.get(o, {})
    if off in c or any(off - k in c and c[off - k][0] > k for k in range(1, 8)):
        return E.load_cell(st, o, off, size)
    if m.fill == 0 and (m.size is None or 0 <= off < m.size):
        return 0
    if m.kind == "global":
        g = E.p.globals[m.site]
        if g["const"] or not E.mutable_global(m.site):
            v = E.ginit(m.site, off, size)
            return v
    return None


def ptr(E, st, v):
    v = E.res(st, v)
    if type(v) is tuple and v[0] == "p" and v[2] is not None:
        if isinstance(v[1], str) and v[1] not in st.meta:
            E.gobj(st, v[1][1:])
        return v
    return None


def nonzero(E, st, v):
    v = E.res(st, v)
    if type(v) is int:
        return v != 0
    if v[0] == "t" and v[1] == "utf8":
        return True
    c = E.con(st, v) if v[0] == "s" else None
    return c is not None and (0 in c.ne or c.lo > 0)


def text(E, st, v, limit=256):
    """characters of a terminated string, None when not known"""
    p = ptr(E, st, v)
    if p is None:
        return None
    out = []
    for i in range(limit):
        c = known(E, st, p[1], p[2] + i)
        if c is None:
            return None
        c = E.res(st, c)
        if c == 0:
            return out
        if not nonzero(E, st, c):
            return None
        out.append(c)
    return None


def unknown(E, st, ins):
    return ret(st, E.fresh(st)) if "id" in ins else ret(st)


def m_strlen(E, st, a, ins, fr):
    t = text(E, st, a[0])
    return ret(st, len(t)) if t is not None else unknown(E, st, ins)


def compare(E, st, a, b):
    """[(state, equal)]"""
    if len(a) != len(b):
        # equal only over the common part: different in any case
        return [(st, False)]
    todo, out = [(st, 0)], []
    while todo:
        s, i = todo.pop()
        if i == len(a):
            out.append((s, True))
            continue
        for s2, eq in split(E, s, a[i], b[i]):
            if eq:
                todo.append((s2, i + 1))
            else:
                out.append((s2, False))
    return out


def m_strcmp(E, st, a, ins, fr):
    x, y = text(E, st, a[0]), text(E, st, a[1])
    if x is None or y is None:
        return unknown(E, st, ins)
    return [Outcome("ret", s, 0 if eq else E.fresh(s, ne=frozenset([0]))) for s, eq in compare(E, st, x, y)]


def m_strncmp(E, st, a, ins, fr):
    x, y, n = text(E, st, a[0]), text(E, st, a[1]), E.res(st, a[2])
    if x is None or y is None or type(n) is not int:
        return unknown(E, st, ins)
    return [Outcome("ret", s, 0 if eq else E.fresh(s, ne=frozenset([0]))) for s, eq in compare(E, st, x[:n], y[:n])]


def m_memcmp(E, st, a, ins, fr):
    p, q, n = ptr(E, st, a[0]), ptr(E, st, a[1]), E.res(st, a[2])
    if p is None or q is None or type(n) is not int or n > 256:
        return unknown(E, st, ins)
    x, y = ([known(E, st, v[1], v[2] + i) for i in range(n)] for v in (p, q))
    if None in x or None in y:
        return unknown(E, st, ins)
    return [Outcome("ret", s, 0 if eq else E.fresh(s, ne=frozenset([0]))) for s, eq in compare(E, st, x, y)]


def m_strstr(E, st, a, ins, fr):
    x, y, p = text(E, st, a[0]), text(E, st, a[1]), ptr(E, st, a[0])
    if x is None or y is None:
        return unknown(E, st, ins)
    out, cur = [], [st]
    for i in range(len(x) - len(y) + 1):
        nxt = []
        for s in cur:
            for s2, eq in compare(E, s, x[i:i + len(y)], y):
                if eq:
                    out.append(Outcome("ret", s2, ("p", p[1], p[2] + i)))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [Outcome("ret", s, 0) for s in cur]


def find(E, st, p, t, c, last=False):
    """outcomes of a search for character c in the text t at p"""
    order = range(len(t) - 1, -1, -1) if last else range(len(t))
    out, cur = [], [st]
    for i in order:
        nxt = []
        for s in cur:
            for s2, eq in split(E, s, t[i], c):
                if eq:
                    out.append(Outcome("ret", s2, ("p", p[1], p[2] + i)))
                else:
                    nxt.append(s2)
        cur = nxt
    return out, cur


def m_strchr(E, st, a, ins, fr, last=False):
    t, p = text(E, st, a[0]), ptr(E, st, a[0])
    c = E.res(st, a[1])
    if t is None:
        return unknown(E, st, ins)
    if type(c) is int:
        c &= 0xFF
    out, rest = find(E, st, p, t + [0], c, last)
    return out + [Outcome("ret", s, 0) for s in rest]


def m_strrchr(E, st, a, ins, fr):
    return m_strchr(E, st, a, ins, fr, True)


def m_memchr(E, st, a, ins, fr):
    p, n, c = ptr(E, st, a[0]), E.res(st, a[2]), E.res(st, a[1])
    if p is None or type(n) is not int or n > 64:
        return unknown(E, st, ins)
    t = [known(E, st, p[1], p[2] + i) for i in range(n)]
    if None in t:
        return unknown(E, st, ins)
    out, rest = find(E, st, p, t, c)
    return out + [Outcome("ret", s, 0) for s in rest]


def m_strdup(E, st, a, ins, fr, n=None):
    t = text(E, st, a[0])
    if n is not None:
        n = E.res(st, n)
    if t is None or n is not None and type(n) is not int:
        return ret(st, ("p", E.new_obj(st, "alloc", site(ins, fr), None, "u"), 0))
    return ret(st, ("p", make(E, st, t if n is None else t[:n], site(ins, fr)), 0))


def m_strndup(E, st, a, ins, fr):
    return m_strdup(E, st, a, ins, fr, a[1])


def make(E, st, t, where="text"):
    o = E.new_obj(st, "alloc", where, len(t) + 1, 0)
    cells = E.wcells(st, o)
    for i, c in enumerate(t):
        cells[i] = (1, c)
    cells[len(t)] = (1, 0)
    return o


def m_copy(E, st, a, ins, fr, n=None, cat=False):
    """strcpy, strncpy, strcat"""
    d, t = ptr(E, st, a[0]), text(E, st, a[1])
    if n is not None:
        n = E.res(st, n)
    if d is None or t is None or n is not None and type(n) is not int:
        if d is not None and st.meta[d[1]].kind in ("alloca", "alloc"):
            E.havoc(st, d[1])
        return ret(st, a[0])
    off = d[2]
    if cat:
        old = text(E, st, a[0])
        if old is None:
            E.havoc(st, d[1])
            return ret(st, a[0])
        off += len(old)
        if n is not None:
            t, n = t[:n], None
    w = t + [0] if n is None else (t + [0] * n)[:n]
    if E.bounds and E.outside(st, fr, ins, ("p", d[1], off), len(w), "write"):
        return [Outcome("null", st)]
    for i, c in enumerate(w):
        E.store_cell(st, d[1], off + i, 1, c)
    return ret(st, a[0])


def m_strcpy(E, st, a, ins, fr):
    return m_copy(E, st, a, ins, fr)


def m_strncpy(E, st, a, ins, fr):
    return m_copy(E, st, a, ins, fr, a[2])


def m_stpcpy(E, st, a, ins, fr):
    t, d = text(E, st, a[1]), ptr(E, st, a[0])
    if t is None or d is None:
        return unknown(E, st, ins)
    return [Outcome("ret", o.state, ("p", d[1], d[2] + len(t))) if o.kind == "ret" else o for o in m_copy(E, st, a, ins, fr)]


def m_strncat(E, st, a, ins, fr):
    return m_copy(E, st, a, ins, fr, a[2], True)


def m_strnlen(E, st, a, ins, fr):
    t, n = text(E, st, a[0]), E.res(st, a[1])
    return ret(st, min(len(t), n)) if t is not None and type(n) is int else unknown(E, st, ins)


def m_strcat(E, st, a, ins, fr):
    return m_copy(E, st, a, ins, fr, None, True)


# ------------------------------------------------------------- characters
EILSEQ = 84
ERANGE = 34


def errno_obj(E, st):
    if "errno" not in E.__dict__:
        E.errno = E.new_obj(st, "lazy", "errno", 4, "u")
    return E.errno


def m_errno(E, st, a, ins, fr):
    return ret(st, ("p", E.errno, 0))


def in_range(E, st, v, lo, hi, w=32):
    """[(state, lo <= v <= hi)]"""
    v = E.res(st, v)
    if type(v) is int:
        return [(st, lo <= v <= hi)]
    out = []
    s = st.fork()
    if E.assume(s, ("t", "ule", lo, v, w), True) and E.assume(s, ("t", "ule", v, hi, w), True):
        out.append((s, True))
    if lo > 0:
        s = st.fork()
        if E.assume(s, ("t", "ult", v, lo, w), True):
            out.append((s, False))
    s = st.fork()
    if E.assume(s, ("t", "ult", hi, v, w), True):
        out.append((s, False))
    return out


def syms_of(v, out):
    if type(v) is tuple:
        if v and v[0] == "s":
            out.append(v)
        else:
            for x in v:
                syms_of(x, out)
    return out


def spread(E, st, v, limit=16):
    """states in which a term over a few characters has one value: its characters are enumerated"""
    v = E.res(st, v)
    if type(v) is not tuple or v[0] != "t":
        return [st]
    work = [st]
    for y in dict.fromkeys(syms_of(v, [])):
        nxt = []
        for q in work:
            c = E.con(q, y) if type(E.res(q, y)) is tuple else None
            if c is None or c.hi is None or c.hi - c.lo >= limit:
                nxt.append(q)
                continue
            for x in range(c.lo, c.hi + 1):
                if x not in c.ne:
                    f = q.fork()
                    if E.assume(f, ("t", "eq", y, x, 32), True):
                        nxt.append(f)
        work = nxt
    return work


def splitting(f):
    """the function's own body, its result enumerated when it is a term over a few characters"""
    def m(E, st, a, ins, fr):
        out = []
        for o in E.exec(st, f, list(a)):
            if o.kind != "ret" or o.ret is None:
                out.append(o)
                continue
            out += [Outcome("ret", q, E.res(q, o.ret)) for q in spread(E, o.state, o.ret)]
        return out
    return m


def m_c32rtomb(E, st, a, ins, fr):
    out = []
    for q in spread(E, st, a[1]):
        out += rtomb(E, q, a, ins, fr)
    return out


def rtomb(E, st, a, ins, fr):
    """UTF-8 encoder: ASCII as it is, other code points as opaque bytes, surrogates and values past 10FFFF fail"""
    out = []
    d = ptr(E, st, a[0])
    c = E.res(st, a[1])
    for lo, hi, n in ((0, 0x7F, 1), (0x80, 0x7FF, 2), (0x800, 0xD7FF, 3), (0xD800, 0xDFFF, None), (0xE000, 0xFFFF, 3), (0x10000, 0x10FFFF, 4), (0x110000, 0xFFFFFFFF, None)):
        for s, yes in in_range(E, st, c, lo, hi):
            if not yes:
                continue
            if n is None:
                E.store_cell(s, E.errno, 0, 4, EILSEQ)
                out.append(Outcome("ret", s, (1 << 64) - 1))
                continue
            if d is not None:
                if E.bounds and E.outside(s, fr, ins, d, n, "write"):
                    continue
                v = E.res(s, c)
                for i in range(n):
                    b = v if n == 1 else ("t", "utf8", v, i, n)
                    E.store_cell(s, d[1], d[2] + i, 1, b)
            out.append(Outcome("ret", s, n))
    return out


def m_mbcurmax(E, st, a, ins, fr):
    return ret(st, 6)


def char_class(name, pred):
    def f(E, st, a, ins, fr):
        v = E.res(st, a[0])
        if not name.startswith("isw"):
            lo, hi = E.rng(st, v, 32)
            if hi > 255 and lo <= 0xFFFFFFFE:
                E.report(("ctype", fr.fn.src, name), fr, ins, "%s is given a character outside of its range" % name)
        if type(v) is int:
            return ret(st, 1 if v < 128 and pred(chr(v)) else 0)
        cur, out = [st], []
        runs, c = [], 0
        while c < 128:
            if pred(chr(c)):
                d = c
                while d + 1 < 128 and pred(chr(d + 1)):
                    d += 1
                runs.append((c, d))
                c = d
            c += 1
        for lo, hi in runs:
            nxt = []
            for s in cur:
                for s2, yes in in_range(E, s, v, lo, hi):
                    (out if yes else nxt).append(Outcome("ret", s2, 1) if yes else s2)
            cur = nxt
        return out + [Outcome("ret", s, 0) for s in cur]
    return f


CLASSES = {"digit": lambda c: c in "0123456789", "xdigit": lambda c: c in "0123456789abcdefABCDEF", "alpha": lambda c: c.isalpha(), "alnum": lambda c: c.isalnum(),
           "space": lambda c: c in " \t\n\v\f\r", "upper": lambda c: c.isupper(), "lower": lambda c: c.islower(), "cntrl": lambda c: ord(c) < 32 or ord(c) == 127,
           "print": lambda c: 32 <= ord(c) < 127, "punct": lambda c: 32 < ord(c) < 127 and not c.isalnum(), "blank": lambda c: c in " \t"}


def install(E, st):
    """let an engine follow texts through the C library"""
    errno_obj(E, st)
    E.models.update({
        "strlen": m_strlen, "strcmp": m_strcmp, "strncmp": m_strncmp, "strchr": m_strchr, "strrchr": m_strrchr, "memchr": m_memchr, "strdup": m_strdup,
        "strndup": m_strndup, "strcpy": m_strcpy, "strncpy": m_strncpy, "strcat": m_strcat, "strncat": m_strncat, "stpcpy": m_stpcpy, "memcmp": m_memcmp, "bcmp": m_memcmp, "strstr": m_strstr,
        "strnlen": m_strnlen, "c32rtomb": m_c32rtomb, "__errno_location": m_errno,
        "__ctype_get_mb_cur_max": m_mbcurmax})
    for n, p in CLASSES.items():
        for w in ("is" + n, "isw" + n):
            E.models[w] = char_class(w, p)
