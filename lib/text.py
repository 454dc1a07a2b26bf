"""Texts assembled by formatting: literal pieces and the values put between them.

A text is a tuple of parts: a str (literal characters) or a tuple
  ("s", tag)            a string of the harness, or the result of a contract
  ("n", conv, value)    a number printed with a conversion
  ("s?", value)         a string about which nothing is known
"""
import re
import cstr
from absint import Outcome
from models import ret, site

CONV = re.compile(r"%(?:%|[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z])")


class Fault(Exception):
    pass


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return tuple(out)


def parts(E, st, v):
    """the text a pointer leads to"""
    v = E.res(st, v)
    if v == 0:
        return (("null",),)
    if type(v) is tuple and v[0] == "s":
        c = E.con(st, v)
        if c is not None and c.tag and isinstance(c.tag, tuple) and c.tag[0] == "text":
            return c.tag[1]
        return (("s?", c.tag if c is not None and c.tag else v),)
    p = cstr.ptr(E, st, v)
    if p is None:
        return (("s?", v),)
    m = st.meta.get(p[1])
    if m is not None and isinstance(m.tag, tuple) and m.tag[0] == "text" and p[2] == 0:
        return m.tag[1]
    t = cstr.text(E, st, v, 4096)
    if t is not None and all(type(c) is int for c in t):
        return norm(("".join(chr(c) for c in t),))
    if m is not None and m.tag and p[2] == 0:
        return (("s", m.tag if not str(m.tag).startswith("text:") else m.tag[5:]),)
    return (("s?", v),)


def literal(E, st, v):
    t = parts(E, st, v)
    if all(isinstance(x, str) for x in t):
        return "".join(t)
    return None


def render(E, st, fmt, args):
    """parts of a formatted text; Fault when the arguments do not fit the format"""
    out, i, at = [], 0, 0
    for m in CONV.finditer(fmt):
        out.append(fmt[at:m.start()])
        at = m.end()
        if m.group() == "%%":
            out.append("%")
            continue
        for g in (1, 2):
            if m.group(g) == "*":
                i += 1
        if i >= len(args):
            raise Fault("format \"%s\" is given %d arguments" % (fmt, len(args)))
        a = E.res(st, args[i])
        i += 1
        c = m.group()[-1]
        if c == "s":
            t = parts(E, st, a)
            if t == (("null",),):
                raise Fault("format \"%s\" prints a null string" % fmt)
            out.extend(t)
        elif c == "c" and type(a) is int:
            out.append(chr(a & 0xff))
        elif c in "diuzl" and type(a) is int:
            out.append(str(a if a < 1 << 63 else a - (1 << 64)))
        else:
            out.append(("n", m.group(), a))
    out.append(fmt[at:])
    return norm(out)


def make(E, st, t, where="text"):
    o = E.new_obj(st, "alloc", where, None, "u", None, ("text", norm(t)))
    return ("p", o, 0)


def m_format(E, st, a, ins, fr):
    """uvsnprintf(fmt, ...)"""
    fmt = literal(E, st, a[0])
    if fmt is None:
        return ret(st, make(E, st, (("s?", E.res(st, a[0])),)))
    try:
        t = render(E, st, fmt, a[1:])
    except Fault as e:
        E.report(("format", fr.fn.src if fr else "?", fmt), fr, ins, str(e))
        return [Outcome("null", st, str(e))]
    return ret(st, make(E, st, t, site(ins, fr)))


def m_strdup(E, st, a, ins, fr):
    p = E.res(st, a[0])
    if p == 0:
        return [Outcome("null", st, "strdup(NULL)")]
    t = parts(E, st, p)
    if all(isinstance(x, str) for x in t):
        return ret(st, ("p", cstr.make(E, st, [ord(c) for x in t for c in x]), 0))
    return ret(st, make(E, st, t))


def show(t):
    return "".join(x if isinstance(x, str) else "<%s>" % (x[1],) if x[0] in ("s", "s?") else "<%s %s>" % (x[1], x[2]) for x in t)
