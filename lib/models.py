"""Abstract effects of library functions and of the diagnostic sink."""
from absint import Outcome, Meta

PURE = """strlen strcmp strncmp strchr strrchr printf fprintf putchar perror getenv setlocale
__ctype_b_loc __ctype_get_mb_cur_max strerror strtod __isoc23_strtoll strtoll close fclose fseek ftell
wait fork execvp remove iscntrl fputs fputc puts isatty getpid memcmp
snprintf vfprintf fflush ferror""".split()


def ret(st, v=None):
    return [Outcome("ret", st, v)]


def m_malloc(E, st, args, ins, fr):
    n = E.res(st, args[0])
    o = E.new_obj(st, "alloc", site(ins, fr), n if type(n) is int else None, "uninit")
    return ret(st, ("p", o, 0))


def m_calloc(E, st, args, ins, fr):
    a, b = E.res(st, args[0]), E.res(st, args[1])
    n = a * b if type(a) is int and type(b) is int else None
    o = E.new_obj(st, "alloc", site(ins, fr), n, 0)
    return ret(st, ("p", o, 0))


def m_realloc(E, st, args, ins, fr):
    p = E.res(st, args[0])
    if type(p) is tuple and p[0] == "p" and p[1] in st.meta:
        m = st.meta[p[1]]
        n = E.res(st, args[1])
        st.meta[p[1]] = Meta(m.kind, m.site, n if type(n) is int else None, m.fill, m.typ, m.tag, m.n)
        return ret(st, p)
    o = E.new_obj(st, "alloc", site(ins, fr), None, "u")
    return ret(st, ("p", o, 0))


def m_free(E, st, args, ins, fr):
    if E.track_free:
        p = E.res(st, args[0])
        if type(p) is tuple and p[0] == "p":
            if p[1] in st.freed:
                E.report(("dfree", fr.fn.src, ins.get("line")), fr, ins, "object freed twice")
            st.freed = st.freed | {p[1]}
    return ret(st)


def site(ins, fr):
    return (fr.fn.name if fr else "?", ins.get("line"))


def m_strdup(E, st, args, ins, fr):
    o = E.new_obj(st, "alloc", site(ins, fr), None, "u")
    return ret(st, ("p", o, 0))


def m_exit(E, st, args, ins, fr):
    return [Outcome("exit", st, args[0])]


def m_abort(E, st, args, ins, fr):
    E.last_abort = "%s:%s" % (fr.fn.file if fr else "?", ins.get("line"))
    return [Outcome("abort", st, E.last_abort)]


def m_errno(E, st, args, ins, fr):
    return ret(st, ("p", E.new_obj(st, "lazy", "errno", 4, "u"), 0))


def m_pure(E, st, args, ins, fr):
    if "id" in ins:
        return ret(st, E.fresh(st))
    return ret(st)


def m_fabs(E, st, a, ins, fr):
    v = E.res(st, a[0])
    return ret(st, v & (1 << 63) - 1 if type(v) is int else E.fresh(st))


def m_fpclass(E, st, a, ins, fr):
    v, m = E.res(st, a[0]), E.res(st, a[1])
    if type(v) is not int or type(m) is not int:
        return ret(st, E.fresh(st, lo=0, hi=1))
    neg, ex, fr_ = v >> 63 & 1, v >> 52 & 0x7ff, v & (1 << 52) - 1
    if ex == 0x7ff:
        c = (2 if neg else 9) if not fr_ else (1 if fr_ >> 51 else 0)
    elif ex:
        c = 3 if neg else 8
    elif fr_:
        c = 4 if neg else 7
    else:
        c = 5 if neg else 6
    return ret(st, m >> c & 1)


def base_models():
    m = {n: m_pure for n in PURE}
    m.update({
        "malloc": m_malloc, "calloc": m_calloc, "realloc": m_realloc, "free": m_free,
        "strdup": m_strdup, "strndup": m_strdup, "exit": m_exit, "_exit": m_exit,
        "abort": m_abort, "__assert_fail": m_abort, "__errno_location": m_errno,
        "llvm.fabs.f64": m_fabs, "llvm.is.fpclass.f64": m_fpclass,
    })
    return m


def message_fault(E, st, v):
    """a field of a message that is an address derived from null"""
    v = E.res(st, v)
    if type(v) is not tuple or v[0] != "p" or v[2] is None or "Message" not in E.p.structs:
        return None
    size = E.p.structs["Message"]["size"]
    for i in range(4):
        at = ("p", v[1], v[2] + i * size)
        if v[1] not in st.meta or (st.meta[v[1]].size or 1 << 30) < at[2] + size:
            return None
        for f in ("tok", "loc", "var", "type", "str", "str32"):
            x = E.res(st, E.get(st, at, "Message", f))
            if type(x) is int and 0 < x < 4096:
                return f
        if i == 0:
            continue
        if all(E.res(st, E.get(st, at, "Message", f)) == 0 for f in ("tok", "var", "type", "str", "str32")):
            return None
    return None


def diag_model(E, st, args, ins, fr):
    """fmt_message(kind, code, messages): the only diagnostic sink"""
    kind = E.res(st, args[0])
    code = E.res(st, args[1])
    if E.diag_hook is not None:
        E.diag_hook(E, st, kind, code, args[2], ins, fr)
    bad = message_fault(E, st, args[2]) if len(args) > 2 else None
    if bad:
        E.report(("diag", fr.fn.src if fr else "?", bad), fr, ins, "the %s of a message is taken from a null pointer" % bad)
        return [Outcome("null", st)]
    fatal = E.p.enum("ERROR_FATAL")
    if kind == fatal:
        st.props["err"] = 1
        st.props["codes"] = tuple(sorted(set(st.props.get("codes", ())) | {code if type(code) is int else -1}))
    elif kind == E.p.enum("ERROR_WARN"):
        st.props["warn"] = 1
        st.props["wcodes"] = tuple(sorted(set(st.props.get("wcodes", ())) | {code if type(code) is int else -1}))
    else:
        st.props["err"] = 1
        st.props["warn"] = 1
    return ret(st)


def m_fresh_str(E, st, args, ins, fr):
    """returns a freshly allocated string"""
    return ret(st, ("p", E.new_obj(st, "alloc", site(ins, fr), None, "u"), 0))


def m_unknown(E, st, args, ins, fr):
    return ret(st, E.fresh(st)) if "id" in ins else ret(st)


def m_bool(E, st, args, ins, fr):
    return ret(st, E.fresh(st, lo=0, hi=1))
