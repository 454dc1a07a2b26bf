"""Files: finding them, reading them whole, decoding them, naming what is derived from them."""
import itertools
import posixpath
import cstr
from absint import Outcome
from models import ret
from sem import Sem, explained
from stmt import Case, short
from checks.driver import GOODNAMES

EACCES, ENOENT, EIO = 13, 2, 5
BD = ("p", "@BUILD_DATA", 0)


class H:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = Sem(ctx.P)
        self.E, self.st, self.P = self.S.E, self.S.st, ctx.P
        cstr.install(self.E, self.st)
        E = self.E
        E.sym_iters = E.k_dist = 999
        E.bounds = True
        for n in ("fprintf", "fputs", "perror", "fwrite", "puts", "printf"):
            E.models[n] = self.say

    @staticmethod
    def say(E, st, a, i, f):
        st.props["said"] = 1
        return ret(st, 1) if "id" in i else ret(st)

    def text(self, s, site="harness"):
        return ("p", cstr.make(self.E, self.st, [ord(c) for c in s], site), 0)

    def obj(self, tag, typ=None):
        return ("p", self.E.new_obj(self.st, "lazy", "harness", None, "u", typ, tag), 0)

    def errno(self, st, v=None):
        if v is not None:
            self.E.store_cell(st, self.E.errno, 0, 4, v)
        return self.E.res(st, self.E.load_cell(st, self.E.errno, 0, 4))

    def run(self, fn, args):
        outs = self.E.exec(self.st.fork(), self.P.func(fn), args)
        self.ctx.require(outs, "no outcome of " + fn)
        self.ctx.count("paths", len(outs))
        self.ctx.used(self.E)
        for k, t in self.E.reports.items():
            self.ctx.violation("memory:%s" % ":".join(str(x) for x in k[:3]), t)
        return outs

    def str(self, st, v):
        t = cstr.text(self.E, st, v, 256)
        return None if t is None or not all(type(c) is int for c in t) else "".join(chr(c) for c in t)


def reading(ctx):
    """file_to_string"""
    for L in (0, 1, 7, 33):
        h = H(ctx)
        E = h.E
        fd = h.obj("stream")
        h.errno(h.st, E.fresh(h.st))            # whatever happened before
        h.st.props["pos"] = 0

        def fails(st, what, E=E, h=h):
            s = st.fork()
            s.props["failed"] = what
            h.errno(s, EIO)
            return s

        def seek(E, st, a, i, f, L=L):
            bad = fails(st, "seeking")
            off, wh = E.res(st, a[1]), E.res(st, a[2])
            st.props["pos"] = {0: 0, 1: st.props["pos"], 2: L}.get(wh, 0) + (off if type(off) is int else 0)
            return [Outcome("ret", bad, 0xffffffff), Outcome("ret", st, 0)]

        def rewind(E, st, a, i, f):
            st.props["pos"] = 0
            return ret(st)

        def tell(E, st, a, i, f):
            bad = fails(st, "finding the length")
            return [Outcome("ret", bad, (1 << 64) - 1), Outcome("ret", st, st.props["pos"])]

        def read(E, st, a, i, f, L=L):
            p, size, n = E.res(st, a[0]), E.res(st, a[1]), E.res(st, a[2])
            if type(size) is not int or type(n) is not int:
                ctx.violation("read:size", "file_to_string reads an amount that does not follow from the file's length")
                return [Outcome("stop", st)]
            outs = []
            left = L - st.props["pos"]
            want = min(size * n, left)
            for k, bad in sorted({(want, 0), (0, 1), (want // 2, 1), (want // 2, 0)}):
                s = fails(st, "reading") if bad else st.fork()
                if not bad and k < want:
                    s.props["short"] = k
                if E.bounds and k and E.outside(s, f, i, p, k, "fread"):
                    continue
                for j in range(k):
                    E.store_cell(s, p[1], p[2] + j, 1, ("t", "utf8", ("t", "byte", s.props["pos"] + j), 0, 1))
                s.props["pos"] += k
                s.props["ferr"] = bad
                outs.append(Outcome("ret", s, k // size if size else 0))
            return outs
        E.models.update({"fseek": seek, "fseeko": seek, "ftell": tell, "ftello": tell, "rewind": rewind, "fread": read,
                         "ferror": lambda E, st, a, i, f: ret(st, st.props.get("ferr", 0)),
                         "feof": lambda E, st, a, i, f: ret(st, 0 if st.props.get("ferr") else 1)})
        for o in h.run("file_to_string", [fd]):
            st = o.state
            ctx.count("read_cases")
            if o.kind in ("exit", "stop"):
                continue
            if o.kind != "ret":
                ctx.violation("read:" + o.kind, "file_to_string may end in %s" % o.kind)
                continue
            v = E.res(st, o.ret)
            e = h.errno(st)
            bad = st.props.get("failed")
            nz = not (e == 0) and (type(e) is int or E.rng(st, e, 32)[0] > 0)
            if bad:
                if v != 0:
                    ctx.violation("read:partial", "file_to_string hands on a part of the file although %s it failed" % bad)
                elif not nz:
                    ctx.violation("read:errno", "after %s a file failed it is taken for an empty file" % bad)
                elif not st.props.get("said"):
                    ctx.violation("read:silent", "%s a file fails without a message" % bad)
            elif "short" in st.props:
                # the file shrank meanwhile: nothing, or what was there
                k = st.props["short"]
                p = cstr.ptr(E, st, v)
                if v != 0 and (p is None or [cstr.known(E, st, p[1], p[2] + j) for j in range(k + 1)] !=
                               [("t", "utf8", ("t", "byte", j), 0, 1) for j in range(k)] + [0]):
                    ctx.violation("read:short", "the text of a file that shrank to %d bytes is not what was read" % k)
            elif L == 0:
                if v != 0 or e != 0:
                    ctx.violation("read:empty", "an empty file is not told apart from a failure")
            else:
                if v == 0:
                    ctx.violation("read:none", "a file of %d bytes is not read" % L)
                    continue
                p = cstr.ptr(E, st, v)
                got = [cstr.known(E, st, p[1], p[2] + j) for j in range(L + 1)]
                if got[:L] != [("t", "utf8", ("t", "byte", j), 0, 1) for j in range(L)]:
                    ctx.violation("read:content", "the text of a file of %d bytes is not the file's content" % L)
                elif E.res(st, got[L]) != 0:
                    ctx.violation("read:end", "the text of a file of %d bytes does not end after it" % L)


def opening(ctx):
    """open_file"""
    for ro in (0, 1):
        h = H(ctx)
        E = h.E
        name = h.text("d/a.sk")

        def fopen(E, st, a, i, f):
            st.props["open"] = st.props.get("open", ()) + ((E.res(st, a[0]), h.str(st, a[1])),)
            outs = []
            for e in (EACCES, ENOENT, EIO):
                s = st.fork()
                h.errno(s, e)
                s.props["failed"] = e
                outs.append(Outcome("ret", s, 0))
            return outs + [Outcome("ret", st, ("p", E.new_obj(st, "alloc", "stream", None, "u", None, "stream"), 0))]
        E.models["fopen"] = E.models["fopen64"] = fopen
        for o in h.run("open_file", [name, ro]):
            st = o.state
            ctx.count("open_cases")
            if o.kind != "ret":
                ctx.violation("open:" + o.kind, "open_file may end in %s" % o.kind)
                continue
            v = E.res(st, o.ret)
            op = st.props.get("open", ())
            if len(op) != 1 or op[0][0] != name or not op[0][1] or op[0][1][0] != ("r" if ro else "w") or "+" in op[0][1]:
                ctx.violation("open:mode:%d" % ro, "a file to be %s is opened as %s" % ("read" if ro else "written", [x[1] for x in op]))
            if st.props.get("failed"):
                if v != 0:
                    ctx.violation("open:fail", "open_file reports success for a file it could not open")
                if not st.props.get("said"):
                    ctx.violation("open:silent", "a file that cannot be opened is not reported")
            elif type(v) is not tuple or v[0] != "p" or st.meta[v[1]].tag != "stream":
                ctx.violation("open:result", "open_file does not hand on the opened file")


def mbrtoc32(E, st, a, ins, fr):
    """UTF-8 decoder over known, open and invalid bytes"""
    d, s, n = cstr.ptr(E, st, a[0]), cstr.ptr(E, st, a[1]), E.res(st, a[2])
    if s is None or type(n) is not int:
        return ret(st, E.fresh(st))
    c = cstr.known(E, st, s[1], s[2])
    c = E.res(st, c) if c is not None else None

    def put(v):
        if d is not None:
            if E.bounds and E.outside(st, fr, ins, d, 4, "write"):
                return False
            E.store_cell(st, d[1], d[2], 4, v)
        return True
    if c is None:
        return ret(st, E.fresh(st))
    c = E.bytesof.get(c, c)
    if type(c) is tuple and c[0] == "t" and c[1] == "bad":
        E.store_cell(st, E.errno, 0, 4, cstr.EILSEQ)
        return ret(st, (1 << 64) - 1)
    if type(c) is tuple and c[0] == "t" and c[1] == "utf8":
        if c[3] != 0:
            E.store_cell(st, E.errno, 0, 4, cstr.EILSEQ)
            return ret(st, (1 << 64) - 1)
        if n < c[4]:
            return ret(st, (1 << 64) - 2)
        return ret(st, c[4]) if put(c[2]) else [Outcome("null", st)]
    if n < 1:
        return ret(st, (1 << 64) - 2)
    if not put(c):
        return [Outcome("null", st)]
    return ret(st, 0 if c == 0 else 1)


def decoding(ctx):
    """mbstoc32s, and back through c32stombs"""
    kinds = {"a": 1, "2": 2, "3": 3, "4": 4, "!": None}
    RNG = {1: (1, 0x7f), 2: (0x80, 0x7ff), 3: (0x800, 0xd7ff), 4: (0x10000, 0x10ffff)}
    words = [w for k in range(0, 4) for w in itertools.product(kinds, repeat=k)]
    words += [tuple("aaaaaaaa2"), tuple("44444444"), tuple("3a3a3a3a!")]
    for w in words:
        h = H(ctx)
        E, st = h.E, h.st
        E.models["mbrtoc32"] = mbrtoc32
        for n in ("mbstoc32s", "c32stombs", "c32slen", "c32sncpy", "c32schr"):
            E.models.pop(n, None)
        bytes_, chars, bad = [], [], None
        E.bytesof = {}

        def byte(what, E=E, st=st):
            b = E.fresh(st, lo=0x80, hi=0xff)
            E.bytesof[b] = what
            return b
        for i, k in enumerate(w):
            n = kinds[k]
            if n is None:
                if bad is None:
                    bad = i
                bytes_.append(byte(("t", "bad", i)))
                chars.append(None)
                continue
            lo, hi = RNG[n]
            c = E.fresh(st, lo=lo, hi=hi)
            chars.append(c)
            bytes_ += [c] if n == 1 else [byte(("t", "utf8", c, j, n)) for j in range(n)]
        src = ("p", cstr.make(E, st, bytes_, "harness"), 0)

        def length(E, st, a, i, f, src=src, n=len(bytes_)):
            p = E.res(st, a[0])
            return ret(st, n - p[2]) if type(p) is tuple and p[0] == "p" and p[1] == src[1] else cstr.m_strlen(E, st, a, i, f)
        E.models["strlen"] = length
        h.errno(st, 0)

        def diag(E, st, a, i, f):
            st.props["err"] = 1
            st.props["at"] = E.res(st, E.get(st, E.res(st, a[2]), "Message", "i"))
            st.props["code"] = E.res(st, a[1])
            return ret(st)
        E.models["fmt_message"] = diag
        label = "".join(w) or "empty"
        for o in h.run("mbstoc32s", [src]):
            ctx.count("decode_cases")
            s = o.state
            if o.kind != "ret":
                ctx.violation("decode:" + o.kind, "mbstoc32s may end in %s" % o.kind)
                continue
            v = E.res(s, o.ret)
            if bad is not None:
                if v != 0:
                    ctx.violation("decode:invalid", "invalid UTF-8 at character %d is accepted (text shape %s)" % (bad + 1, label))
                elif not s.props.get("err"):
                    ctx.violation("decode:silent", "invalid UTF-8 is rejected without a message")
                elif s.props.get("at") != bad + 1:
                    ctx.violation("decode:place", "invalid UTF-8 at character %d is reported at %s" % (bad + 1, s.props.get("at")))
                continue
            if v == 0 or s.props.get("err"):
                ctx.violation("decode:reject", "valid UTF-8 is rejected (text shape %s)" % label)
                continue
            p = cstr.ptr(E, s, v)
            got = [cstr.known(E, s, p[1], p[2] + 4 * j, 4) for j in range(len(chars) + 1)]
            got = [E.res(s, x) if x is not None else None for x in got]
            if got[:-1] != [E.res(s, c) for c in chars] or got[-1] != 0:
                ctx.violation("decode:text", "the decoded text of shape %s is not the characters of the file" % label)
                continue
            if len(w) > 3:
                continue
            # and back
            s2 = s.fork()
            for q in E.exec(s2, ctx.P.func("c32stombs"), [v, 0]):
                ctx.count("decode_cases")
                if q.kind != "ret" or E.res(q.state, q.ret) == 0:
                    ctx.violation("encode", "text decoded from a file cannot be encoded again (shape %s)" % label)
                    continue
                p2 = cstr.ptr(E, q.state, q.ret)
                back = [cstr.known(E, q.state, p2[1], p2[2] + j) for j in range(len(bytes_) + 1)]
                back = [E.res(q.state, b) if b is not None else None for b in back]
                if back[:-1] != [E.bytesof.get(b) or E.res(q.state, b) for b in bytes_] or back[-1] != 0:
                    ctx.violation("encode", "text decoded from a file is encoded differently (shape %s)" % label)


def names(ctx):
    """names derived from the source file's name"""
    for n in GOODNAMES:
        d, b = posixpath.split(n)
        d = d + "/" if d and d != "/" else d
        for ext in ("o", "s", "ll", "c"):
            h = H(ctx)
            for o in h.run("gen_filename", [h.text(n), h.text(ext)]):
                ctx.count("name_cases")
                got = h.str(o.state, o.ret) if o.kind == "ret" else o.kind
                want = "%s.%s.%s" % (d, b, ext)
                if got != want:
                    ctx.violation("name:file", "the %s file made for %s is called %s instead of %s" % (ext, n, got, want))
        h = H(ctx)
        h.E.models.pop("create_main_func_name", None)
        for o in h.run("create_main_func_name", [h.text(n)]):
            ctx.count("name_cases")
            got = h.str(o.state, o.ret) if o.kind == "ret" else o.kind
            if got != "." + b[:-3]:
                ctx.violation("name:main", "the main function of %s is called %s" % (n, got))
        for nm in ("f", "x_1", "longer_name", "\xc3\xa9"):
            h = H(ctx)
            h.E.models.pop("mangle_name", None)
            h.E.put(h.st, BD, "BuildData", "filename", h.text(n))
            for o in h.run("mangle_name", [h.text(nm)]):
                ctx.count("name_cases")
                got = h.str(o.state, o.ret) if o.kind == "ret" else o.kind
                if got != b[:-3] + "." + nm:
                    ctx.violation("name:mangle", "the linkage name of %s in %s is %s" % (nm, n, got))


def imports(ctx):
    """import: the module beside the importing file"""
    P = ctx.P
    for n in GOODNAMES:
        for mod in ("m", "other_module"):
            h = H(ctx)
            E, st, S = h.E, h.st, h.S
            h.E.put(st, BD, "BuildData", "filename", h.text(n))
            E.models["token_to_mbs_str"] = lambda E, st, a, i, f, mod=mod: ret(st, ("p", cstr.make(E, st, [ord(c) for c in mod]), 0)) \
                if E.meta_tag(st, E.res(st, a[0])) == "module" else ret(st, E.fresh_nn(st))

            def opn(E, st, base, path, h=h):
                bad = st.fork()
                h.errno(bad, ENOENT)
                bad.props["failed"] = 1
                p = h.str(st, path)
                full = None
                if p is not None:
                    b = dict(st.props.get("fds", ())).get(base) if base is not None else "."
                    full = None if b is None else posixpath.normpath(posixpath.join(b, p))
                fd = 3 + len(st.props.get("fds", ()))
                st.props["fds"] = st.props.get("fds", ()) + ((fd, full),)
                return [Outcome("ret", bad, 0xffffffff), Outcome("ret", st, fd)]
            E.models["open"] = E.models["open64"] = lambda E, st, a, i, f: opn(E, st, None, a[0])
            E.models["openat"] = E.models["openat64"] = lambda E, st, a, i, f: opn(E, st, E.res(st, a[0]), a[1])
            E.models["access"] = lambda E, st, a, i, f: [Outcome("ret", o.state, o.ret if o.ret == 0xffffffff else 0) for o in opn(E, st, None, a[0])]
            E.models["close"] = lambda E, st, a, i, f: ret(st, 0)
            E.models["strerror"] = lambda E, st, a, i, f: ret(st, E.fresh_nn(st))
            h.errno(st, E.fresh(st))
            name = S.new("Token", "module")
            first = S.new("Token", "import", next=S.ptr(name))
            node = S.new("AstNode", "n", type=P.enum("AST_NODE_IMPORT"), token=S.ptr(first))
            want = posixpath.normpath(posixpath.join(posixpath.dirname(n) or ".", mod + ".sk"))
            acc = 0
            for o in h.run("validate_stmt_import", [S.ptr(node)]):
                ctx.count("import_cases")
                s = o.state
                if o.kind != "ret":
                    ctx.violation("import:" + o.kind, "an import may end in %s" % o.kind)
                    continue
                v = E.res(s, o.ret)
                if s.props.get("failed"):
                    if v != 0 or not s.props.get("err"):
                        ctx.violation("import:missing", "an import of a module that cannot be opened is %s" % (
                            "accepted" if v != 0 else "rejected without a message"))
                    continue
                acc += 1
                fds = s.props.get("fds", ())
                if not fds or fds[-1][1] != want:
                    ctx.violation("import:path", "`import %s` in %s looks for %s instead of %s" % (mod, n, fds[-1][1] if fds else None, want))
                if v != 1 or s.props.get("err"):
                    ctx.violation("import:reject", "an import of a module that exists is rejected")
            ctx.require(acc or ctx.viol, "no successful import")


def dispatched(ctx):
    """every import of a program is looked for, wherever it stands"""
    P = ctx.P
    P.func("validate_stmt_import")
    I, others = "AST_NODE_IMPORT", ("AST_NODE_COMMENT", "AST_NODE_VAR_DEF", "AST_NODE_IF", "AST_NODE_WHILE", "AST_NODE_NAMESPACE",
                                    "AST_NODE_NOOP", "AST_NODE_VAR_ASSIGN")
    lists = [(I,), (I, I), (I, I, I)] + [(I, k) for k in others] + [(k, I) for k in others] + \
        [(I, "AST_NODE_COMMENT", I), ("AST_NODE_COMMENT", I, "AST_NODE_VAR_DEF")]
    for kinds in lists:
        for block in (False, True):
            c = Case(P, kinds[0], child=kinds[0] in ("AST_NODE_IF", "AST_NODE_WHILE", "AST_NODE_NAMESPACE"), nexts=kinds[1:], next_child=True)
            c.S.types = ["BOOL", "INT"]
            E = c.E

            def imp(E, st, a, i, f):
                bad = st.fork()
                bad.props["err"] = 1
                bad.props["unfound"] = 1
                st.props["imports"] = st.props.get("imports", ()) + (E.meta_tag(st, E.res(st, a[0])),)
                return [Outcome("ret", bad, 0), Outcome("ret", st, 1)]
            E.models["validate_stmt_import"] = imp
            E.recursion = lambda E, st, fn, a: c.m_sub(E, st, a, None, None) \
                if fn.src == "setup_and_validate_ast_sub_tree" else None
            if block:
                E.models.pop("setup_and_validate_ast_sub_tree", None)
                fn = "setup_and_validate_ast_sub_tree"
            else:
                fn = "validate_ast_tree"
            want = tuple(t for t, k in zip(["n"] + ["next%d" % i for i in range(9)], kinds) if k == I)
            name = "; ".join(short(k) for k in kinds)
            acc = 0
            for o in c.S.run(P.func(fn), [c.S.ptr(c.state), c.S.ptr(c.node)]):
                ctx.count("import_lists")
                s = o.state
                if o.kind != "ret":
                    ctx.violation("imports:" + o.kind, "`%s` may end in %s" % (name, o.kind))
                    continue
                v = E.res(s, o.ret)
                if v == 0:
                    continue
                acc += 1
                if s.props.get("unfound"):
                    ctx.violation("imports:unfound", "`%s` is accepted although a module was not found" % name)
                elif tuple(x for x in s.props.get("imports", ())) != want:
                    ctx.violation("imports:skipped", "`%s` is accepted without looking for each imported module" % name)
            ctx.used(E)
            ctx.require(acc or ctx.viol, "no accepting path for `%s`" % name)


def formatting(ctx):
    """uvsnprintf: room for the whole text"""
    P = ctx.P
    for L in (0, 1, 37):
        h = H(ctx)
        E, st = h.E, h.st
        E.models.pop("uvsnprintf", None)
        fmt = h.text("%s")

        def vs(E, st, a, i, f, L=L):
            p, n = E.res(st, a[0]), E.res(st, a[1])
            if p != 0 and type(n) is int and n:
                k = min(n, L + 1)
                if E.outside(st, f, i, p, k, "write"):
                    return [Outcome("null", st)]
                st.props["wrote"] = (p, k == L + 1, E.res(st, a[2]))
            return ret(st, L)
        E.models["vsnprintf"] = vs
        E.models["llvm.va_start"] = E.models["llvm.va_copy"] = E.models["llvm.va_end"] = lambda E, st, a, i, f: ret(st)
        E.models["llvm.va_start.p0"] = E.models["llvm.va_copy.p0"] = E.models["llvm.va_end.p0"] = lambda E, st, a, i, f: ret(st)
        for o in h.run("uvsnprintf", [fmt]):
            ctx.count("format_cases")
            w = o.state.props.get("wrote")
            if o.kind != "ret" or w is None or w[0] != E.res(o.state, o.ret) or not w[1] or w[2] != fmt:
                ctx.violation("format", "uvsnprintf does not return the whole text of %d characters" % L)


def locales(ctx):
    """setup_locale: UTF-8, or stop"""
    P = ctx.P
    h = H(ctx)
    E, st = h.E, h.st

    def setl(E, st, a, i, f):
        asked = h.str(st, a[1])
        outs = []
        if asked == "":
            cur = dict(st.props.get("env", ()))
            for r in ("none", "C", "other") if not cur else (cur["r"],):
                s = st.fork()
                s.props["env"] = (("r", r),)
                if r != "none":
                    s.props["locale"] = r
                outs.append(Outcome("ret", s, 0 if r == "none" else ("p", cstr.make(E, s, [ord(c) for c in ("C" if r == "C" else "xx_YY.UTF-8")]), 0)))
            return outs
        st.props["tried"] = 1
        s = st.fork()
        s.props["locale"] = asked
        return [Outcome("ret", s, ("p", cstr.make(E, s, [ord(c) for c in asked or "?"]), 0)), Outcome("ret", st, 0)]
    E.models["setlocale"] = setl
    E.models["nl_langinfo"] = lambda E, st, a, i, f: ret(st, E.fresh_nn(st))
    for o in h.run("setup_locale", []):
        ctx.count("locale_cases")
        loc = o.state.props.get("locale")
        if o.kind == "ret" and (loc in (None, "C") or loc != "other" and "UTF-8" not in str(loc) and "utf8" not in str(loc)):
            ctx.violation("locale", "the compiler goes on in the locale %s, which cannot decode UTF-8" % (loc or "C"))
        if o.kind == "exit" and not o.state.props.get("tried"):
            ctx.violation("locale:fallback", "without a usable locale in the environment no UTF-8 locale is tried")
        if o.kind == "exit" and (E.res(o.state, o.ret) == 0 or not o.state.props.get("said")):
            ctx.violation("locale:exit", "giving up on the locale is not reported as a failure")


def check(ctx):
    """source files are found, read whole and decoded exactly"""
    ctx.rule = ("All paths of file_to_string (every call failing or not, files of 0, 1, 7 and 33 bytes), open_file, mbstoc32s and c32stombs (all "
                "texts of up to 3 characters of open value and every encoded length, and invalid sequences, plus longer ones), setup_locale, "
                "the import statement, uvsnprintf and the functions deriving names from the source name: contents complete and terminated, "
                "failures reported and told apart from empty files, characters exact, derived names as documented, all accesses inside "
                "their objects.")
    ctx.assumptions = ["the C library's decoder implements UTF-8", "a file that shrinks while it is read may be taken as it is then"]
    reading(ctx)
    opening(ctx)
    decoding(ctx)
    names(ctx)
    imports(ctx)
    dispatched(ctx)
    formatting(ctx)
    locales(ctx)


CHECKS = {"C30": check}
