"""Symbol tables and lists keep what they are given."""
import cstr
from sem import Sem

# spellings that differ in one place, at one end, in length, in letter case, in order, or in non-ASCII bytes
NAMES = ["", "a", "b", "A", "ab", "ba", "aa", "abc", "abd", "bbc", "acb", "x1", "x2", "x10", "x_1", "n.x", "n.y", "m.x", "nx",
         "\xc3\xa9", "\xc3\xa8", "\xc3\xa9x", "Int", "Float", "&Int", "&&Int", "q" * 40, "q" * 39, "q" * 41, "q" * 39 + "r", "r" + "q" * 39]


# spellings that also share their hash: far apart in the text, or one the beginning of the other
NAMES += ["a" + "q" * 40, "b" + "q" * 40] + ["q" * i + c for i, cs in ((8, ("", "h", "p")), (16, ("", "d", "h", "l")), (32, ("", "b", "d")), (64, ("", "a", "b")), (128, ("", "a", "b")))
                                             for c in cs]


class Run:
    def __init__(self, ctx, bounds=True):
        self.ctx = ctx
        self.S = Sem(ctx.P)
        self.E = self.S.E
        self.st = self.S.st
        cstr.install(self.E, self.st)
        self.E.sym_iters = self.E.k_dist = 999
        self.E.bounds = bounds
        self.E.track_free = True

    def text(self, s):
        return ("p", cstr.make(self.E, self.st, [ord(c) for c in s]), 0)

    def thing(self, tag):
        return self.S.ptr(self.E.new_obj(self.st, "lazy", "harness", 8, "u", "#thing", tag))

    def call(self, fn, *args):
        """the only outcome of a call in a concrete history"""
        outs = self.E.exec(self.st.fork(), self.ctx.P.func(fn), list(args))
        self.ctx.count("calls_analysed")
        bad = [o for o in outs if o.kind != "ret"]
        if bad or not outs:
            self.ctx.violation("%s:end" % fn, "%s may end in %s" % (fn, bad[0].kind if bad else "no way"))
            raise Stop()
        if len(outs) > 1:
            vs = {repr(self.E.res(o.state, o.ret)) for o in outs if o.ret is not None}
            if len(vs) > 1:
                self.ctx.violation("%s:depends" % fn, "the result of %s does not follow from what was stored" % fn)
                raise Stop()
        self.st = outs[0].state
        return self.E.res(self.st, outs[0].ret) if outs[0].ret is not None else None

    def done(self):
        for k, t in self.E.reports.items():
            self.ctx.violation("memory:%s" % ":".join(str(x) for x in k[:3]), t)
        self.ctx.used(self.E)


class Stop(Exception):
    pass


def truth(v):
    return bool(v & 1) if type(v) is int else None


def tables(ctx):
    def history(keys, ask, key):
        R = Run(ctx)
        try:
            ht = R.call("make_ht")
            have = {}
            for n, k in enumerate(keys):
                v = R.thing("entry%d" % n)
                ok = truth(R.call("ht_add", ht, R.text(k), v))
                if ok != (k not in have):
                    ctx.violation(key + ":add", "ht_add %s \"%s\" after %s" % ("refuses" if not ok else "accepts", k, sorted(have)))
                have.setdefault(k, v)
            for k in ask:
                got = R.call("ht_get", ht, R.text(k))
                if got != have.get(k, 0):
                    what = "nothing" if got == 0 else "what was stored under %s" % next((repr(a) for a, b in have.items() if b == got), "?")
                    ctx.violation(key + ":get", "ht_get yields %s for \"%s\" with %s in the table" % (what, k, sorted(have)))
            ctx.count("table_histories")
        except Stop:
            pass
        R.done()
    for a in NAMES:
        history([a], NAMES, "one")
    for i, a in enumerate(NAMES):
        for b in [x for x in NAMES[i:] if max(len(a), len(x)) < 5 or abs(len(a) - len(x)) < 2]:
            history([a, b], [a, b], "two")
    history(NAMES, NAMES, "many")
    history(NAMES[::-1], NAMES, "many")
    history(NAMES[:9] + NAMES[:9], NAMES, "again")
    # more entries than a slot's list starts with, all with the same hash as far as possible
    same = [chr(c) for c in range(ord("a"), ord("z") + 1)]
    history(same, same + ["aa", ""], "crowded")
    for n in (64, 65, 130):
        many = ["v%d" % k for k in range(n)]
        history(many, many[::7] + many[-1:] + ["v%d" % n, "v"], "full")
    # nothing to look in, nothing to store
    R = Run(ctx)
    try:
        if R.call("ht_get", 0, R.text("a")) != 0:
            ctx.violation("null:get", "ht_get finds something in no table")
        ht = R.call("make_ht")
        if truth(R.call("ht_add", ht, R.text("a"), 0)) is not False:
            ctx.violation("null:add", "ht_add reports success for storing nothing")
        if R.call("ht_get", ht, R.text("a")) != 0:
            ctx.violation("null:stored", "ht_get finds a name that was never stored")
    except Stop:
        pass
    R.done()
    # release: every entry once
    for keys in ([], ["a"], same, NAMES):
        R = Run(ctx)
        try:
            ht = R.call("make_ht")
            for k in keys:
                R.call("ht_add", ht, R.text(k), R.thing("entry"))
            R.call("free_ht", ht, 0)
            ctx.count("table_histories")
        except Stop:
            pass
        R.done()
    R = Run(ctx)
    try:
        R.call("free_ht", 0, 0)
    except Stop:
        pass
    R.done()


def lists(ctx):
    P = ctx.P
    for n in list(range(0, 20)) + [31, 32, 33, 64, 65, 100]:
        for end in ("at", "pop", "freeze", "free"):
            R = Run(ctx)
            try:
                v = R.call("make_vector")
                items = []
                for k in range(n):
                    x = R.thing("item%d" % k)
                    R.call("vector_push", v, x)
                    items.append(x)
                if end == "at":
                    for k in range(n + 3):
                        got = R.call("vector_at", v, k)
                        if got != (items[k] if k < n else 0):
                            ctx.violation("list:at", "entry %d of a list of %d is %s" % (k, n, "missing" if got == 0 else "another one"))
                    ln = R.E.res(R.st, R.E.get(R.st, v, "Vector", "length"))
                    if ln != n:
                        ctx.violation("list:length", "a list of %d entries has length %s" % (n, ln))
                elif end == "pop":
                    for k in range(n, -1, -1):
                        got = R.call("vector_pop", v)
                        if got != (items[k - 1] if k else 0):
                            ctx.violation("list:pop", "taking the last of %d entries yields %s" % (k, "nothing" if got == 0 else "another one"))
                        if k and R.call("vector_at", v, k - 1) != 0:
                            ctx.violation("list:stale", "an entry taken off a list of %d is still found in it" % k)
                    if n:
                        R.call("vector_push", v, items[0])
                        if R.call("vector_at", v, 0) != items[0]:
                            ctx.violation("list:reuse", "an emptied list loses what is added to it")
                elif end == "freeze":
                    arr = R.call("vector_freeze", v)
                    R.call("free_vector", v, 0)
                    for k in range(n):
                        if type(arr) is not tuple or arr[0] != "p" or R.E.res(R.st, R.E.load_cell(R.st, arr[1], arr[2] + 8 * k, 8)) != items[k]:
                            ctx.violation("list:freeze", "entry %d of the %d entries a list hands over is missing" % (k, n))
                    if type(arr) is tuple and arr[0] == "p" and arr[1] in R.st.freed:
                        ctx.violation("list:freed", "the entries a list hands over are released with it")
                else:
                    R.call("free_vector", v, 0)
                    if type(v) is tuple and v[1] not in R.st.freed:
                        ctx.violation("list:leak", "releasing a list keeps its memory")
                ctx.count("list_histories")
            except Stop:
                pass
            R.done()


def memory(ctx):
    """no memory: a message and exit status 1, never a null pointer"""
    from absint import Outcome
    P = ctx.P
    for fn, lib, args in (("Malloc", "malloc", [16]), ("Calloc", "calloc", [2, 8]), ("Realloc", "realloc", None)):
        for ok in (0, 1):
            R = Run(ctx)
            E = R.E
            block = R.thing("block")
            asked = []

            def alloc(E, st, a, i, f, ok=ok, block=block):
                asked.append(tuple(E.res(st, x) for x in a))
                return [Outcome("ret", st, block if ok else 0)]

            def say(E, st, a, i, f):
                st.props["said"] = 1
                return [Outcome("ret", st, E.fresh(st))]
            E.models[lib] = alloc
            for x in ("fprintf", "fputs", "perror", "fwrite"):
                E.models[x] = say
            given = args or [R.thing("old"), 16]
            outs = E.exec(R.st.fork(), P.func(fn), given)
            ctx.require(outs, "no outcome of " + fn)
            for o in outs:
                ctx.count("allocation_paths")
                if ok and (o.kind != "ret" or E.res(o.state, o.ret) != block):
                    ctx.violation("alloc:%s" % fn, "%s does not hand on the memory it was given" % fn)
                if not ok and not (o.kind == "exit" and E.res(o.state, o.ret) not in (0, None) and o.state.props.get("said")):
                    ctx.violation("alloc:%s:fail" % fn, "%s without memory does not stop with a message and a failing status" % fn)
            for a in asked:
                if a != tuple(given) and not (lib == "calloc" and a == tuple(given[::-1])):
                    ctx.violation("alloc:%s:size" % fn, "%s asks for %s where %s was wanted" % (fn, a, given))
            ctx.require(asked, "%s asks for no memory" % fn)
            ctx.used(E)


def check(ctx):
    """symbol tables and lists return exactly what was put in them"""
    ctx.rule = ("Abstract interpretation of make_ht/ht_add/ht_get/free_ht over histories of up to 130 entries with spellings chosen to differ "
                "in one place, one end, case, order or non-ASCII bytes, to share a hash, or to fill every slot, and of make_vector/"
                "vector_push/at/pop/freeze/free for lengths 0..100: every lookup yields exactly the first entry of that spelling or nothing, "
                "lists keep order and length, every access stays inside its object, nothing is released twice, and the allocation "
                "wrappers never return null.")
    ctx.assumptions = ["histories beyond the analysed lengths behave like them (no code depends on a larger constant)"]
    tables(ctx)
    lists(ctx)
    memory(ctx)


CHECKS = {"C29": check}
