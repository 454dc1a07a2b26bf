"""Disjunctive abstract interpretation over the whole-program SSA form.

What this is: a worklist dataflow analysis (ESP-style property simulation).
At every program point it keeps a *set* of abstract states; states are
compared after canonical renaming, so states that agree are joined, and at loop
heads the analysis widens (changing integers go to "unknown", heap cells further
than a few links from any live variable are forgotten), which makes the state space
finite and the fixpoint terminate.  Calls are analysed by inlining the
callee's flow graph; recursive calls are resolved with outcome summaries that are
computed as a least fixpoint.  No path is ever handed to a solver and no code
of the repository is executed.

Abstract values
  int                       a known constant (unsigned; the null pointer is 0)
  ("p", obj, off)           address inside an abstract object (off None: unknown)
  ("fn", name)              address of a function
  ("f", str)                a float constant
  ("s", n)                  unknown value number n, with a constraint
  ("b", (bit, ...))         a byte of bit-fields, each bit 0, 1 or an unknown
  ("t", op, ...)            comparison / logical combination of the above
  ("agg", ((i, v), ...))    first-class aggregate
"""
import heapq
import itertools
import struct
import sys

from extract import AnalysisBroken

sys.setrecursionlimit(20000)

CHARS = ("char", "unsigned int", "signed char")   # pointees treated as character data


def mask(w):
    return (1 << w) - 1


class Con:
    """constraint of one unknown: excluded values and an unsigned interval"""
    __slots__ = ("ne", "lo", "hi", "typ", "tag")

    def __init__(self, ne=frozenset(), lo=0, hi=None, typ=None, tag=None):
        self.ne = ne
        self.lo = lo
        self.hi = hi
        self.typ = typ      # pointee type (struct name) or None
        self.tag = tag      # harness label (stable across canonical renaming)

    def copy(self, **kw):
        c = Con(self.ne, self.lo, self.hi, self.typ, self.tag)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


NOCON = Con()


class Meta:
    __slots__ = ("kind", "site", "size", "fill", "typ", "tag", "n")

    def __init__(self, kind, site, size, fill, typ=None, tag=None, n=0):
        self.kind = kind    # alloca | alloc | lazy | global
        self.site = site
        self.size = size
        self.fill = fill    # what a missing cell holds: 0 | "u" (unknown, cached)
        self.typ = typ
        self.tag = tag
        self.n = n


class State:
    __slots__ = ("heap", "own", "meta", "cons", "bind", "props", "frames", "alias",
                 "objne", "splits", "trace", "freed", "path")

    def __init__(self):
        self.heap = {}
        self.own = set()
        self.meta = {}
        self.cons = {}
        self.bind = {}
        self.props = {}
        self.frames = []
        self.alias = {}
        self.objne = frozenset()
        self.splits = {}
        self.trace = ()
        self.freed = frozenset()
        self.path = ()

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        self.own = set()
        s.meta = dict(self.meta)
        s.cons = dict(self.cons)
        s.bind = dict(self.bind)
        s.props = dict(self.props)
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = s.frames[-1].fork()
        s.alias = dict(self.alias)
        s.objne = self.objne
        s.splits = dict(self.splits)
        s.trace = self.trace
        s.freed = self.freed
        s.path = self.path
        return s


class Frame:
    __slots__ = ("fn", "regs", "loops", "live")

    def __init__(self, fn, regs):
        self.fn = fn
        self.regs = regs
        self.loops = {}
        self.live = None   # registers live across the pending call (callers only)

    def fork(self):
        f = Frame(self.fn, dict(self.regs))
        f.loops = dict(self.loops)
        f.live = self.live
        return f


class Func:
    """One function of the program, with the CFG facts the analysis needs."""

    def __init__(self, d):
        self.name = d["name"]
        self.src = d.get("src", d["name"])
        self.file = d.get("file", "?")
        self.line = d.get("line", 0)
        self.internal = d["internal"]
        self.decl = d["decl"]
        self.params = d["params"]
        self.ret = d["ret"]
        self.vararg = d["vararg"]
        self.ditypes = d.get("ditypes", [])
        self.blocks = d["blocks"]
        self.ninst = sum(len(b) for b in self.blocks)
        if not self.decl:
            self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        self.succ = []
        for b in self.blocks:
            t = b[-1]
            if t["op"] == "br":
                s = t["succ"]
            elif t["op"] == "switch":
                s = [t["default"]] + [c[1] for c in t["cases"]]
            else:
                s = []
            self.succ.append(list(dict.fromkeys(s)))
        self.pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(i)
        # reverse post order
        seen, post = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        self.reach = seen
        # dominators (simple iterative)
        order = sorted(seen, key=lambda b: self.rpo[b])
        dom = {b: set(seen) for b in seen}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in seen]
                nd = set.intersection(*[dom[p] for p in ps]) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.dom = dom
        # natural loops
        self.loops = {}
        for b in seen:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.pred[x] if p in seen)
        # liveness
        def uses(v, out):
            if v[0] == "v":
                out.add(v[1])
            elif v[0] in ("gep",):
                usesg(v[1], out)
            elif v[0] == "ce":
                for x in v[2]:
                    uses(x, out)
            elif v[0] == "agg":
                for x in v[2]:
                    uses(x[2], out)

        def usesg(g, out):
            uses(g[0], out)
            for x in g[2]:
                uses(x[0], out)
        self.inst_uses = []
        gen, kill, phiuse = [], [], [dict() for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            us, ds = set(), set()
            lst = []
            for ins in b:
                u = set()
                if ins["op"] == "phi":
                    for pb, v in ins["inc"]:
                        x = set()
                        uses(v, x)
                        phiuse[bi].setdefault(pb, set()).update(x)
                else:
                    for v in ins.get("ops", []):
                        uses(v, u)
                    for v in ins.get("args", []):
                        uses(v, u)
                    if "callee" in ins:
                        uses(ins["callee"], u)
                    if "cond" in ins:
                        uses(ins["cond"], u)
                    if "gep" in ins:
                        usesg(ins["gep"], u)
                us |= u - ds
                if "id" in ins:
                    ds.add(ins["id"])
                lst.append(u)
            self.inst_uses.append(lst)
            gen.append(us)
            kill.append(ds)
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in sorted(seen, key=lambda x: -self.rpo[x]):
                out = set()
                for s in self.succ[b]:
                    out |= livein[s] | phiuse[s].get(b, set())
                li = gen[b] | (out - kill[b])
                if li != livein[b]:
                    livein[b] = li
                    ch = True
        self.livein = livein
        self.liveout = []
        for b in range(n):
            out = set()
            for s in self.succ[b]:
                out |= livein[s] | phiuse[s].get(b, set())
            self.liveout.append(out)
        self._lac = {}
        self.defs = {i["id"]: i for b in self.blocks for i in b if "id" in i}
        self.phidefs = [set(i["id"] for i in b if i["op"] == "phi") for b in self.blocks]

    def live_after(self, b, idx):
        k = (b, idx)
        if k not in self._lac:
            l = set(self.liveout[b])
            for j in range(len(self.blocks[b]) - 1, idx, -1):
                ins = self.blocks[b][j]
                if "id" in ins:
                    l.discard(ins["id"])
                l |= self.inst_uses[b][j]
            self._lac[k] = frozenset(l)
        return self._lac[k]


class Program:
    def __init__(self, data):
        self.data = data
        self.units = data["units"]
        self.funcs = {f["name"]: Func(f) for f in data["functions"]}
        self.bysrc = {}
        for f in self.funcs.values():
            self.bysrc.setdefault(f.src, []).append(f)
        self.globals = {g["name"]: g for g in data["globals"]}
        self.structs = data["structs"]
        self.enums = {}
        self.enumval = {}
        for en, es in data["enums"].items():
            self.enums[en] = {k: v for k, v in es}
            for k, v in es:
                self.enumval.setdefault(k, v)
        self._fieldat = {}
        self._refd = None

    def func(self, src, file=None):
        c = [f for f in self.bysrc.get(src, []) if not f.decl and (file is None or f.file == file)]
        if len(c) != 1:
            raise AnalysisBroken("anchor function %s%s: %d definitions" % (src, " in " + file if file else "", len(c)))
        return c[0]

    def has(self, src):
        return any(not f.decl for f in self.bysrc.get(src, []))

    def enum(self, name):
        if name not in self.enumval:
            raise AnalysisBroken("anchor enumerator %s not found" % name)
        return self.enumval[name]

    def enum_name(self, en, v):
        for k, x in self.enums.get(en, {}).items():
            if x == v:
                return k
        return str(v)

    def field(self, struct, name):
        """-> (bit offset, bit size, type)"""
        s = self.structs.get(struct)
        if s is None:
            raise AnalysisBroken("anchor struct %s not found" % struct)
        for m in s["members"]:
            if m["name"] == name:
                return m["bit"], m["bits"], m["type"]
        raise AnalysisBroken("anchor field %s.%s not found" % (struct, name))

    def fields_at(self, struct, off, size):
        k = (struct, off, size)
        if k not in self._fieldat:
            s = self.structs.get(struct)
            self._fieldat[k] = [m for m in (s["members"] if s else [])
                                if m["bit"] == off * 8 and m["bits"] == size * 8 and m["type"]]
        return self._fieldat[k]

    def global_bytes(self, name):
        g = self.globals[name]
        i = g.get("init")
        if i and i[0] == "da":
            return i[1], i[2]
        if i and i[0] == "z":
            return 1, [0] * i[1]
        return None

    def address_taken(self):
        """names of functions whose address escapes into data or arguments"""
        if self._refd is None:
            out = set()

            def walk(v):
                if v[0] == "fn":
                    out.add(v[1])
                elif v[0] == "agg":
                    for e in v[2]:
                        walk(e[2])
                elif v[0] == "gep":
                    walk(v[1][0])
                elif v[0] == "ce":
                    for e in v[2]:
                        walk(e)
            for g in self.globals.values():
                if "init" in g:
                    walk(g["init"])
            for f in self.funcs.values():
                for b in f.blocks:
                    for i in b:
                        for v in i.get("ops", []) + i.get("args", []):
                            walk(v)
                        if i["op"] == "phi":
                            for _, v in i["inc"]:
                                walk(v)
            self._refd = out
        return self._refd


def fval(v):
    """the number a constant of type double is, or None"""
    if type(v) is int:
        return struct.unpack("<d", struct.pack("<Q", v & (1 << 64) - 1))[0]
    if type(v) is tuple and v[0] == "f":
        try:
            return float.fromhex(v[1])
        except ValueError:
            return None
    return None


class Outcome:
    """how an analysed call ended in one abstract state"""
    __slots__ = ("kind", "state", "ret", "where")

    def __init__(self, kind, state, ret=None, where=None):
        self.kind = kind     # ret | exit | abort | null | stop
        self.state = state
        self.ret = ret
        self.where = where


class Engine:
    diag_hook = None        # called for every diagnostic issued

    def __init__(self, prog, models=None, policy=None):
        self.p = prog
        self.models = dict(models or {})
        self.counter = itertools.count(1)
        self.max_states = 400000
        self.steps = 0
        self.k_dist = 3            # heap distance kept by loop widening
        self.deep_arith = False
        self.sym_iters = 3
        self.nullable = set()      # (struct, field) whose pointer may be null
        self.nullable_all = False
        self.on_null = "report"    # how to treat dereference of a may-be-null pointer
        self.recursion = None      # callable(engine, state, fn, args, inst) -> outcomes | None
        self.trace_filter = None   # callable(name) -> bool: record external call in trace
        self.reports = {}          # violations found during the walk: key -> text
        self.uninit = False
        self.stat_funcs = set()
        self.stat_calls = set()
        self.stat_blocks = set()
        self.max_depth = 60
        self.merge_key = None
        self.lazy_hook = None      # callable(engine,state,obj,typ) when a lazy object appears
        self.stack = []
        self.track_free = False
        self.bounds = False        # report accesses outside objects of known size
        self.widen_limit = 300
        self.after_call = None
        self.rec_limit = {}

    # ---------------------------------------------------------------- values
    def fresh(self, st, typ=None, tag=None, ne=frozenset(), lo=0, hi=None):
        n = next(self.counter)
        if typ or tag or ne or lo or hi is not None:
            st.cons[n] = Con(ne, lo, hi, typ, tag)
        return ("s", n)

    def fresh_nn(self, st, typ=None, tag=None):
        return self.fresh(st, typ, tag, ne=frozenset([0]))

    def res(self, st, v):
        """resolve bindings"""
        while True:
            if type(v) is int:
                return v
            k = v[0]
            if k == "s":
                b = st.bind.get(v[1])
                if b is None:
                    return v
                v = b
                continue
            if k == "p":
                a = st.alias.get(v[1])
                if a is None:
                    return v
                o2, d = a
                v = ("p", o2, None if v[2] is None else v[2] + d)
                continue
            if k == "b":
                bits = tuple(self.res(st, b) for b in v[1])
                if all(type(b) is int for b in bits):
                    return sum(b << i for i, b in enumerate(bits))
                return ("b", bits)
            if k == "t":
                return self.simp(st, v)
            return v

    def simp(self, st, t):
        op = t[1]
        if op in ("eq", "ult", "ule", "slt", "sle"):
            a, b = self.res(st, t[2]), self.res(st, t[3])
            r = self.cmp(st, op, a, b, t[4])
            return r
        if op == "not":
            a = self.res(st, t[2])
            return self.tnot(a)
        if op in ("and", "or"):
            a, b = self.res(st, t[2]), self.res(st, t[3])
            return self.tlog(op, a, b)
        if op == "xor":
            a, b = self.res(st, t[2]), self.res(st, t[3])
            return self.txor(a, b)
        if op == "ite":
            c = self.res(st, t[2])
            if type(c) is int:
                return self.res(st, t[3] if c else t[4])
            return ("t", "ite", c, t[3], t[4])
        if op == "arith":
            a, b = self.res(st, t[3]), self.res(st, t[4])
            if type(a) is int and type(b) is int:
                return self.const_arith(t[2], a, b, t[5])
            return ("t", "arith", t[2], a, b, t[5])
        return t

    @staticmethod
    def tnot(a):
        if type(a) is int:
            return 1 - (a & 1)
        if a[0] == "t" and a[1] == "not":
            return a[2]
        return ("t", "not", a)

    @staticmethod
    def tlog(op, a, b):
        for x, y in ((a, b), (b, a)):
            if type(x) is int:
                if op == "and":
                    return y if x & 1 else 0
                return 1 if x & 1 else y
        if a == b:
            return a
        return ("t", op, a, b)

    def txor(self, a, b):
        for x, y in ((a, b), (b, a)):
            if type(x) is int:
                return self.tnot(y) if x & 1 else y
        if a == b:
            return 0
        return ("t", "xor", a, b)

    def const_arith(self, op, a, b, w):
        m = mask(w)

        def sg(x):
            return x - (1 << w) if x >> (w - 1) else x
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (sg(a) >> min(b, w - 1)) & m
        if op == "udiv" and b:
            return a // b
        if op == "urem" and b:
            return a % b
        if op == "sdiv" and b:
            q = abs(sg(a)) // abs(sg(b))
            return (q if (sg(a) < 0) == (sg(b) < 0) else -q) & m
        if op == "srem" and b:
            r = abs(sg(a)) % abs(sg(b))
            return (r if sg(a) >= 0 else -r) & m
        return None

    def con(self, st, v):
        return st.cons.get(v[1], NOCON)

    def older(self, st, v, obj):
        """unknown v was created before object obj existed, so cannot point into it"""
        m = st.meta.get(obj)
        return m is not None and m.kind in ("alloca", "alloc") and v[1] < m.n

    # compare resolved values; -> 0/1 or a term
    def cmp(self, st, op, a, b, w):
        if op == "eq":
            if a == b:
                if type(a) is tuple and a[0] == "p" and a[2] is None:
                    return ("t", "eq", a, b, w)
                return 1
            if type(a) is int and type(b) is int:
                return 0
            if type(a) is int:
                a, b = b, a
            # a is not int
            ka = a[0]
            if ka == "p" or ka == "fn":
                if type(b) is int:
                    return 0
                if b[0] in ("p", "fn"):
                    if ka == "fn" or b[0] == "fn":
                        return 0
                    if a[1] == b[1]:
                        if a[2] is None or b[2] is None:
                            return ("t", "eq", a, b, w)
                        return 0
                    ma, mb = self.metaof(st, a[1]), self.metaof(st, b[1])
                    la = ma is not None and ma.kind == "lazy"
                    lb = mb is not None and mb.kind == "lazy"
                    if not (la or lb):
                        return 0
                    # objects set up by a harness are distinct from globals and from each other
                    ha = la and ma.site == "harness"
                    hb = lb and mb.site == "harness"
                    if (ha and (hb or mb is None or mb.kind == "global")) or (hb and (ma is None or ma.kind == "global")):
                        return 0
                    if frozenset((a[1], b[1])) in st.objne:
                        return 0
                    if ma and mb and ma.typ and mb.typ and ma.typ != mb.typ:
                        return 0
                    if a[2] is None or b[2] is None:
                        return ("t", "eq", a, b, w)
                    # a lazy object is older than any allocation made since
                    for x, y in ((ma, mb), (mb, ma)):
                        if x is not None and y is not None and x.kind == "lazy" and \
                                y.kind in ("alloc", "alloca") and x.n < y.n:
                            return 0
                    if la and lb and ma.tag and mb.tag and ma.tag != mb.tag:
                        return 0
                    return ("t", "eq", a, b, w)
                if b[0] == "s":
                    a, b = b, a
                    ka = "s"
            if ka == "s":
                c = self.con(st, a)
                if type(b) is int:
                    if b in c.ne:
                        return 0
                    if b < c.lo or (c.hi is not None and b > c.hi):
                        return 0
                else:
                    if b in c.ne:
                        return 0
                    if b[0] == "s":
                        if a in self.con(st, b).ne:
                            return 0
                        cb = self.con(st, b)
                        if c.typ and cb.typ and c.typ != cb.typ:
                            return 0
                        if a[1] < b[1]:
                            a, b = b, a
                    elif b[0] == "p":
                        if self.older(st, a, b[1]):
                            return 0
                        mb = self.metaof(st, b[1])
                        if c.typ and mb is not None and mb.typ and mb.typ != c.typ:
                            return 0
                return ("t", "eq", a, b, w)
            if ka == "b" and type(b) is int:
                unk = None
                for i, bit in enumerate(a[1]):
                    want = (b >> i) & 1
                    if type(bit) is int:
                        if bit != want:
                            return 0
                    else:
                        t = ("t", "eq", bit, want, 1)
                        unk = t if unk is None else ("t", "and", unk, t)
                if b >> len(a[1]):
                    return 0
                return self.res(st, unk) if unk is not None and unk[1] == "eq" else (unk if unk is not None else 1)
            if ka == "t" and type(b) is int:
                if a[1] in ("eq", "ult", "ule", "slt", "sle", "not", "and", "or", "xor"):
                    if b == 1:
                        return a
                    if b == 0:
                        return self.tnot(a)
                    return 0
                if a[1] == "sext":
                    lowm = b & mask(a[3])
                    ext = lowm | (mask(a[4]) & ~mask(a[3])) if lowm >> (a[3] - 1) else lowm
                    if ext != b:
                        return 0
                    return self.cmp(st, "eq", self.res(st, a[2]), lowm, a[3])
                if a[1] == "ite":
                    x = self.cmp(st, "eq", self.res(st, a[3]), b, w)
                    y = self.cmp(st, "eq", self.res(st, a[4]), b, w)
                    return self.res(st, self.tlog("or", self.tlog("and", a[2], x),
                                                  self.tlog("and", self.tnot(a[2]), y)))
                if a[1] == "arith" and a[2] in ("add", "sub") and type(a[4]) is int:
                    c = (b - a[4]) & mask(w) if a[2] == "add" else (b + a[4]) & mask(w)
                    return self.cmp(st, "eq", a[3], c, w)
                if a[1] == "arith" and a[2] == "xor" and type(a[4]) is int:
                    return self.cmp(st, "eq", a[3], b ^ a[4], w)
            return ("t", "eq", a, b, w)
        # orderings
        if type(a) is int and type(b) is int:
            if op[0] == "s":
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            return int(a < b if op[1:] == "lt" else a <= b)
        if a == b and not (type(a) is tuple and a[0] == "p" and a[2] is None):
            return int(op[1:] == "le")
        if type(a) is tuple and type(b) is tuple and a[0] == "p" and b[0] == "p" and a[1] == b[1] \
                and a[2] is not None and b[2] is not None:
            return int(a[2] < b[2] if op[1:] == "lt" else a[2] <= b[2])
        # interval reasoning, unsigned (and signed when both are known non-negative)
        la, ha = self.rng(st, a, w)
        lb, hb = self.rng(st, b, w)
        if op[0] == "u" or (ha < (1 << (w - 1)) and hb < (1 << (w - 1))):
            if op[1:] == "lt":
                if ha < lb:
                    return 1
                if la >= hb:
                    return 0
            else:
                if ha <= lb:
                    return 1
                if la > hb:
                    return 0
        return ("t", op, a, b, w)

    def rng(self, st, v, w):
        if type(v) is int:
            return v, v
        if v[0] == "s":
            c = self.con(st, v)
            lo, hi = c.lo, (mask(w) if c.hi is None else c.hi)
            while lo in c.ne and lo < hi:
                lo += 1
            while hi in c.ne and lo < hi:
                hi -= 1
            return lo, hi
        if v[0] == "t" and v[1] in ("eq", "ult", "ule", "slt", "sle", "not", "and", "or", "xor"):
            return 0, 1
        if v[0] == "b":
            return 0, mask(len(v[1]))
        return 0, mask(w)

    # assume boolean value v is `truth`; -> True if still feasible (state mutated)
    def assume(self, st, v, truth):
        v = self.res(st, v)
        if type(v) is int:
            return bool(v & 1) == truth
        if v[0] == "s":
            # boolean unknown
            c = self.con(st, v)
            want = 1 if truth else 0
            if want in c.ne:
                return False
            st.bind[v[1]] = want
            return True
        if v[0] != "t":
            return True
        op = v[1]
        if op == "not":
            return self.assume(st, v[2], not truth)
        if op == "and":
            if truth:
                return self.assume(st, v[2], True) and self.assume(st, v[3], True)
            return True
        if op == "or":
            if not truth:
                return self.assume(st, v[2], False) and self.assume(st, v[3], False)
            return True
        if op == "eq":
            a, b = v[2], v[3]
            if truth:
                return self.unify(st, a, b)
            return self.diseq(st, a, b)
        if op in ("ult", "ule"):
            a, b = v[2], v[3]
            strict = op == "ult"
            if not truth:
                a, b = b, a
                strict = not strict
            # a < b or a <= b
            la, ha = self.rng(st, a, v[4])
            lb, hb = self.rng(st, b, v[4])
            d = 1 if strict else 0
            if type(a) is tuple and a[0] == "s":
                nh = hb - d
                if nh < la:
                    return False
                c = self.con(st, a)
                if c.hi is None or nh < c.hi:
                    if nh < mask(v[4]):
                        st.cons[a[1]] = c.copy(hi=nh)
                        self.pin(st, a, v[4])
            if type(b) is tuple and b[0] == "s":
                nl = la + d
                if nl > hb:
                    return False
                c = self.con(st, b)
                if nl > c.lo:
                    st.cons[b[1]] = c.copy(lo=nl)
                    self.pin(st, b, v[4])
            return True
        if op in ("slt", "sle"):
            a, b = v[2], v[3]
            strict = op == "slt"
            if not truth:
                a, b = b, a
                strict = not strict
            d = 1 if strict else 0
            half = 1 << (v[4] - 1)
            la, ha = self.rng(st, a, v[4])
            lb, hb = self.rng(st, b, v[4])
            # only refine within the non-negative half
            if type(a) is int and a < half and type(b) is tuple and b[0] == "s":
                c = self.con(st, b)
                lo, hi = max(c.lo, a + d), half - 1 if c.hi is None else min(c.hi, half - 1)
                if lo > hi:
                    return False
                st.cons[b[1]] = c.copy(lo=lo, hi=hi)
            elif type(b) is int and b < half and type(a) is tuple and a[0] == "s" and ha < half:
                c = self.con(st, a)
                hi = b - d
                if hi < c.lo:
                    return False
                st.cons[a[1]] = c.copy(hi=hi)
            return True
        return True

    def pin(self, st, a, w):
        lo, hi = self.rng(st, a, w)
        if lo == hi:
            st.bind[a[1]] = lo

    def unify(self, st, a, b):
        a, b = self.res(st, a), self.res(st, b)
        if a == b:
            return True
        r = self.cmp(st, "eq", a, b, 64)
        if r == 0:
            return False
        if r == 1:
            return True
        if type(r) is tuple and (r[1] != "eq" or (r[2] == r[3])):
            return True if r[1] == "eq" else self.assume(st, r, True)
        if type(a) is int:
            a, b = b, a
        if a[0] != "s" and type(b) is tuple and b[0] == "s":
            a, b = b, a
        if a[0] == "s":
            if type(b) is tuple and b[0] == "s":
                ca, cb = self.con(st, a), self.con(st, b)
                his = [x for x in (ca.hi, cb.hi) if x is not None]
                st.cons[b[1]] = Con(ca.ne | cb.ne, max(ca.lo, cb.lo), min(his) if his else None,
                                    ca.typ or cb.typ, cb.tag or ca.tag)
                st.bind[a[1]] = b
                return True
            st.bind[a[1]] = b
            return True
        if a[0] == "p" and type(b) is tuple and b[0] == "p":
            if a[2] is None or b[2] is None:
                return True
            ma = self.metaof(st, a[1])
            if ma.kind != "lazy" or ma.site == "harness":
                a, b = b, a
            return self.merge_obj(st, a, b)
        if a[0] == "t" and a[1] == "arith":
            return True
        return True

    def merge_obj(self, st, a, b):
        """lazy object of pointer a turns out to be the object of b"""
        oa, ob, d = a[1], b[1], b[2] - a[2]
        st.alias[oa] = (ob, d)
        cells = st.heap.get(oa, {})
        for off, (size, v) in list(cells.items()):
            v2 = self.load_cell(st, ob, off + d, size)
            if not self.unify(st, v, v2):
                return False
        return True

    def diseq(self, st, a, b):
        a, b = self.res(st, a), self.res(st, b)
        r = self.cmp(st, "eq", a, b, 64)
        if r == 1:
            return False
        if r == 0:
            return True
        if type(r) is tuple and r[1] != "eq":
            return self.assume(st, r, False)
        if type(a) is int or (a[0] != "s" and type(b) is tuple and b[0] == "s"):
            a, b = b, a
        if a[0] == "s":
            c = self.con(st, a)
            ne = c.ne | {b}
            lo, hi = c.lo, c.hi
            c2 = c.copy(ne=ne)
            st.cons[a[1]] = c2
            if hi is not None:
                if lo == hi and lo in ne:
                    return False
                if hi - lo < 64:
                    left = [x for x in range(lo, hi + 1) if x not in ne]
                    if not left:
                        return False
                    if len(left) == 1:
                        st.bind[a[1]] = left[0]
            return True
        if a[0] == "p" and type(b) is tuple and b[0] == "p":
            st.objne = st.objne | {frozenset((a[1], b[1]))}
        return True

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, kind, site, size=None, fill="u", typ=None, tag=None):
        n = next(self.counter)
        o = (kind, n)
        st.meta[o] = Meta(kind, site, size, fill, typ, tag, n)
        st.heap[o] = {}
        st.own.add(o)
        return o

    def gobj(self, st, name):
        """object for a global variable"""
        o = "@" + name
        if o not in st.meta:
            g = self.p.globals.get(name)
            if g is None:
                raise AnalysisBroken("global %s" % name)
            t = g.get("ditype")
            st.meta[o] = Meta("global", name, g["size"], "g", t if t in self.p.structs else None)
            st.heap[o] = {}
        return o

    def metaof(self, st, o):
        m = st.meta.get(o)
        if m is None and isinstance(o, str) and o[1:] in self.p.globals:
            self.gobj(st, o[1:])
            m = st.meta[o]
        return m

    def ginit(self, name, off, size):
        g = self.p.globals[name]
        if "init" not in g:
            return None

        def look(v, off, size, total):
            k = v[0]
            if k == "z":
                return 0
            if k == "da":
                es = v[1]
                if off % es == 0 and size == es:
                    i = off // es
                    return self.big(v[2][i]) if 0 <= i < len(v[2]) else None
                if size < es or off % es:
                    return None
                r = 0
                for j in range(size // es):
                    i = off // es + j
                    if i >= len(v[2]):
                        return None
                    r |= self.big(v[2][i]) << (8 * es * j)
                return r
            if k == "agg":
                for eo, es, ev in v[2]:
                    if eo <= off and off + size <= eo + es:
                        return look(ev, off - eo, size, es)
                return 0 if not any(eo < off + size and off < eo + es for eo, es, ev in v[2]) else None
            if off == 0:
                if k == "i":
                    c = self.big(v[1])
                    return c & mask(size * 8) if size * 8 <= max(v[2], 8) else c
                if k == "n":
                    return 0
                if k == "fn":
                    return ("fn", v[1])
                if k == "g":
                    return ("p", "@" + v[1], 0)
                if k == "gep":
                    b = v[1][0]
                    if b[0] == "g" and not v[1][2]:
                        return ("p", "@" + b[1], v[1][1])
                if k == "f":
                    return ("f", v[1])
            elif k == "i":
                return (self.big(v[1]) >> (8 * off)) & mask(size * 8)
            return None
        return look(g["init"], off, size, g["size"])

    @staticmethod
    def big(x):
        return int(x["big"]) if isinstance(x, dict) else x

    def wcells(self, st, o):
        if o not in st.own:
            st.heap[o] = dict(st.heap.get(o, {}))
            st.own.add(o)
        return st.heap[o]

    def load_cell(self, st, o, off, size, lty=None):
        cells = st.heap.get(o)
        if cells is None:
            cells = {}
        if size <= 4:
            m = st.meta.get(o)
            if m is not None and m.size is None and m.typ in (None, "#str") and m.kind in ("alloc", "lazy") and not m.tag:
                return self.fresh(st)
        c = cells.get(off)
        if c is not None:
            if c[0] == size:
                return self.res(st, c[1])
            v = self.res(st, c[1])
            if c[0] > size:
                return self.sub(st, v, 0, size)
        # contained in a larger cell?
        for back in range(1, 32):
            c = cells.get(off - back)
            if c is not None:
                if c[0] >= back + size:
                    return self.sub(st, self.res(st, c[1]), back, size)
                break
        # made of smaller cells?
        smaller = [(k, c) for k, c in cells.items() if off <= k < off + size]
        m = st.meta.get(o)
        if smaller:
            if size <= 16:
                if size == 8 or size == 4 or size == 2:
                    parts, pos, ok = 0, off, True
                    while pos < off + size:
                        c = cells.get(pos)
                        if c is None:
                            if m is not None and m.fill == 0:
                                pos += 1
                                continue
                            ok = False
                            break
                        v = self.res(st, c[1])
                        if type(v) is not int:
                            ok = False
                            break
                        parts |= v << (8 * (pos - off))
                        pos += c[0]
                    if ok:
                        return parts
                # remember the compound so that a copy can be taken apart again
                return ("t", "cells", tuple(sorted((k - off, c[0], c[1]) for k, c in smaller)),
                        0 if (m is not None and m.fill == 0) else None)
            return self.fresh(st)
        if m is None:
            return self.fresh(st)
        if m.fill == 0:
            return 0
        if m.kind == "global":
            g = self.p.globals[m.site]
            v = self.ginit(m.site, off, size)
            if v is not None and (g["const"] or not self.mutable_global(m.site)):
                return v
            v = self.fresh(st, typ=self.ptype(m.typ, off, size))
            self.wcells(st, o)[off] = (size, v)
            return v
        v = self.fresh(st, typ=self.ptype(m.typ, off, size))
        if m.fill == "uninit" and self.uninit:
            self.uninit_read = True
        self.wcells(st, o)[off] = (size, v)
        return v

    _mutg = None

    def mutable_global(self, name):
        """a non-const global some function stores to (or whose address escapes)"""
        if self._mutg is None:
            mut = set()
            for f in self.p.funcs.values():
                for b in f.blocks:
                    addr = {}
                    for i in b:
                        def base(v):
                            if v[0] == "g":
                                return v[1]
                            if v[0] == "gep":
                                return base(v[1][0])
                            if v[0] == "v":
                                return addr.get(v[1])
                            return None
                        if i["op"] == "getelementptr":
                            bb = base(i["gep"][0])
                            if bb:
                                addr[i["id"]] = bb
                        elif i["op"] == "store":
                            bb = base(i["ops"][1])
                            if bb:
                                mut.add(bb)
                        elif i["op"] == "call":
                            cal = i["callee"]
                            if cal[0] == "fn" and cal[1].startswith("llvm.mem"):
                                bb = base(i["args"][0])
                                if bb:
                                    mut.add(bb)
            self._mutg = mut
        return name in self._mutg

    def ptype(self, typ, off, size):
        if typ is None or size != 8:
            return None
        if isinstance(typ, tuple):
            return None
        c = set()
        for m in self.p.fields_at(typ, off, size):
            if m["type"].endswith("*"):
                c.add(m["type"][:-1])
        if len(c) == 1:
            t = c.pop()
            if t in CHARS:
                return "#str"
            return t if t in self.p.structs else None
        return None

    def sub(self, st, v, byteoff, size):
        v = self.res(st, v)
        if type(v) is int:
            return (v >> (8 * byteoff)) & mask(8 * size)
        if v[0] == "t" and v[1] == "cells":
            for k, sz, x in v[2]:
                if k == byteoff and sz == size:
                    return self.res(st, x)
            if v[3] == 0 and not any(k < byteoff + size and byteoff < k + sz for k, sz, x in v[2]):
                return 0
            return self.fresh(st)
        if v[0] == "s":
            key = (v[1], byteoff, size)
            if key not in st.splits:
                st.splits[key] = self.fresh(st)
            return self.res(st, st.splits[key])
        return self.fresh(st)

    def store_cell(self, st, o, off, size, v):
        m = st.meta.get(o)
        if size <= 4 and m is not None and m.size is None and m.typ in (None, "#str") and \
                m.kind in ("alloc", "lazy") and not m.tag:
            return
        cells = self.wcells(st, o)
        for k in [k for k, c in cells.items() if k < off + size and off < k + c[0] and not (k == off and c[0] == size)]:
            c = cells[k]
            # keep the untouched parts of a partially overwritten cell
            del cells[k]
            if k < off:
                cells[k] = (off - k, self.sub(st, c[1], 0, off - k))
            if k + c[0] > off + size:
                nk = off + size
                cells[nk] = (k + c[0] - nk, self.sub(st, c[1], nk - k, k + c[0] - nk))
        if type(v) is tuple and v[0] == "t" and v[1] == "cells":
            for k, sz, x in v[2]:
                cells[off + k] = (sz, x)
            if v[3] == 0:
                pos = 0
                covered = sorted((k, sz) for k, sz, x in v[2])
                for k, sz in covered + [(size, 0)]:
                    if k > pos:
                        cells[off + pos] = (k - pos, 0)
                    pos = k + sz
            return
        cells[off] = (size, v)

    # dereference: -> list of (state, ("p",obj,off)) ; reports null
    def deref(self, st, v, fr, ins, what):
        v = self.res(st, v)
        if type(v) is int:
            if v < 4096:
                self.null_report(st, fr, ins, what, definite=True)
                return None
            return ("p", self.new_obj(st, "lazy", "int", None), 0)
        k = v[0]
        if k == "p":
            if v[1] in st.freed:
                self.report(("uaf", fr.fn.src, ins.get("line")), fr, ins, "use of freed object " + what)
            if isinstance(v[1], str) and v[1] not in st.meta:
                self.gobj(st, v[1][1:])
            return v
        if k == "s":
            c = self.con(st, v)
            if 0 not in c.ne and c.lo == 0 and c.tag == "nullable":
                self.null_report(st, fr, ins, what)
                if self.on_null == "stop":
                    return None
            o = self.new_obj(st, "lazy", "lazy", None, "u", c.typ, None if c.tag == "nullable" else c.tag)
            # a lazy object existed before everything allocated since the unknown appeared
            st.meta[o].n = v[1]
            st.bind[v[1]] = ("p", o, 0)
            for x in c.ne:
                if type(x) is tuple and x[0] == "p":
                    st.objne = st.objne | {frozenset((o, x[1]))}
            if self.lazy_hook:
                self.lazy_hook(self, st, o, c.typ)
            return ("p", o, 0)
        if k == "fn":
            return ("p", self.new_obj(st, "lazy", "fn", None), 0)
        # unknown address
        return ("p", self.new_obj(st, "lazy", "term", None), 0)

    def null_report(self, st, fr, ins, what, definite=False):
        self.report(("null", fr.fn.src, fr.fn.file, what), fr, ins,
                    "%s null pointer dereference" % ("certain" if definite else "possible"), st)

    def report(self, key, fr, ins, text, st=None):
        if key not in self.reports:
            self.reports[key] = "%s:%s: in %s: %s%s" % (
                ins.get("file", fr.fn.file), ins.get("line", "?"), fr.fn.src, text,
                (" [call path: " + " > ".join(self.stack) + "]") if self.stack else "")

    # ---------------------------------------------------------------- harness API
    def get(self, st, obj, struct, field):
        bit, bits, typ = self.p.field(struct, field)
        o, d = self.robj(st, obj)
        if bits % 8 or bit % 8 or bits < 8:
            v = self.load_cell(st, o, bit // 8 + d, 1)
            return self.bit(st, v, bit % 8)
        return self.load_cell(st, o, bit // 8 + d, bits // 8)

    def robj(self, st, obj):
        if isinstance(obj, tuple) and obj[0] in ("p", "s"):
            v = self.res(st, obj)
            if v[0] == "p":
                if isinstance(v[1], str) and v[1] not in st.meta:
                    self.gobj(st, v[1][1:])
                return v[1], v[2]
            if v[0] == "s":
                o = self.new_obj(st, "lazy", "lazy", None, "u", self.con(st, v).typ, self.con(st, v).tag)
                st.meta[o].n = v[1]
                st.bind[v[1]] = ("p", o, 0)
                return o, 0
        d = 0
        while obj in st.alias:
            obj, dd = st.alias[obj]
            d += dd
        return obj, d

    def put(self, st, obj, struct, field, v):
        bit, bits, typ = self.p.field(struct, field)
        o, d = self.robj(st, obj)
        if bits % 8 or bit % 8 or bits < 8:
            cur = self.load_cell(st, o, bit // 8 + d, 1)
            b = list(self.tobits(st, cur, 8))
            b[bit % 8] = v
            self.store_cell(st, o, bit // 8 + d, 1, ("b", tuple(b)))
            return
        self.store_cell(st, o, bit // 8 + d, bits // 8, v)

    def meta_tag(self, st, v):
        v = self.res(st, v)
        if v == 0:
            return "nothing"
        if type(v) is tuple and v[0] == "p":
            m = st.meta.get(v[1])
            return "%s" % ((m.tag or m.typ or m.kind) if m else v[1])
        return str(v)

    def ptr(self, obj, off=0):
        return ("p", obj, off)

    def obj(self, st, struct, tag=None, fill="u"):
        o = self.new_obj(st, "lazy", "harness", self.p.structs[struct]["size"] if struct in self.p.structs else None,
                         fill, struct, tag)
        return o

    # ---------------------------------------------------------------- bits
    def tobits(self, st, v, w):
        v = self.res(st, v)
        if type(v) is int:
            return tuple((v >> i) & 1 for i in range(w))
        if v[0] == "b":
            b = v[1]
            return tuple(b[:w]) + (0,) * (w - len(b))
        if v[0] == "s":
            c = self.con(st, v)
            if c.hi == 1:
                return (v,) + (0,) * (w - 1)
            if w > 8:
                return None
            bits = tuple(self.fresh(st, lo=0, hi=1) for _ in range(w))
            st.bind[v[1]] = ("b", bits)
            return bits
        if v[0] == "t" and v[1] in ("eq", "ult", "ule", "slt", "sle", "not", "and", "or", "xor"):
            return (v,) + (0,) * (w - 1)
        return None

    def bit(self, st, v, i):
        b = self.tobits(st, v, 8)
        if b is None:
            return self.fresh(st, lo=0, hi=1)
        return self.res(st, b[i])

    def frombits(self, st, bits):
        if all(type(b) is int for b in bits):
            return sum(b << i for i, b in enumerate(bits))
        # single boolean in bit 0
        if all(type(b) is int and b == 0 for b in bits[1:]):
            return bits[0]
        return ("b", tuple(bits))

    def arith(self, st, op, a, b, w):
        a, b = self.res(st, a), self.res(st, b)
        if type(a) is int and type(b) is int:
            r = self.const_arith(op, a, b, w)
            return self.fresh(st) if r is None else r
        if w == 1:
            if op in ("and", "or"):
                return self.tlog(op, a, b)
            if op == "xor":
                return self.txor(a, b)
            if op == "add":
                return self.txor(a, b)
        if op in ("and", "or", "xor", "shl", "lshr") and (w <= 8 or self.smallbits(st, a) or self.smallbits(st, b)):
            if op in ("shl", "lshr"):
                if type(b) is int:
                    ba = self.tobits(st, a, w)
                    if ba is not None:
                        if op == "shl":
                            return self.frombits(st, (0,) * min(b, w) + ba[:w - b])
                        return self.frombits(st, ba[b:] + (0,) * min(b, w))
            else:
                ba, bb = self.tobits(st, a, w), self.tobits(st, b, w)
                if ba is not None and bb is not None:
                    out = []
                    for x, y in zip(ba, bb):
                        if op == "xor":
                            out.append(self.txor(x, y))
                        else:
                            out.append(self.tlog(op, x, y))
                    return self.frombits(st, tuple(out))
        if op == "sub" and type(a) is tuple and type(b) is tuple and a[0] == "p" and b[0] == "p" and a[1] == b[1] \
                and a[2] is not None and b[2] is not None:
            return (a[2] - b[2]) & mask(w)
        if op == "and" and type(b) is int and b == mask(w):
            return a
        if type(b) is int and b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
            return a
        if op in ("add", "sub", "xor") and type(b) is int and not (type(a) is tuple and a[0] == "t" and a[1] == "arith"):
            return ("t", "arith", op, a, b, w)
        if op in ("add", "sub") and type(b) is int and type(a) is tuple and a[0] == "t" and a[1] == "arith" \
                and a[2] in ("add", "sub") and type(a[4]) is int:
            c1 = a[4] if a[2] == "add" else -a[4]
            c2 = b if op == "add" else -b
            c = (c1 + c2) & mask(w)
            if c == 0:
                return a[3]
            return ("t", "arith", "add", a[3], c, w)
        if self.deep_arith and all(type(x) is int or x[0] == "s" or x[:2] == ("t", "arith") for x in (a, b)):
            return ("t", "arith", op, a, b, w)
        return self.fresh(st)

    def smallbits(self, st, v):
        if type(v) is not tuple:
            return False
        if v[0] == "b":
            return True
        if v[0] == "t" and v[1] in ("eq", "ult", "ule", "slt", "sle", "not", "and", "or", "xor"):
            return True
        if v[0] == "s":
            return self.con(st, v).hi == 1
        return False

    # ---------------------------------------------------------------- operands
    def val(self, st, fr, v):
        k = v[0]
        if k == "v":
            x = fr.regs.get(v[1])
            if x is None:
                return self.fresh(st)
            return self.res(st, x)
        if k == "i":
            return self.big(v[1])
        if k == "n":
            return 0
        if k == "fn":
            return ("fn", v[1])
        if k == "g":
            return ("p", "@" + v[1], 0)
        if k == "gep":
            return self.gep(st, fr, v[1])
        if k == "f":
            return ("f", v[1])
        if k == "u":
            return 0
        if k == "z":
            return ("agg", ())
        if k == "agg":
            return ("agg", tuple((i, self.val(st, fr, e[2])) for i, e in enumerate(v[2])))
        if k == "ce":
            if v[1] in ("bitcast", "addrspacecast", "ptrtoint", "inttoptr"):
                return self.val(st, fr, v[2][0])
        if k == "md":
            return 0
        return self.fresh(st)

    def gep(self, st, fr, g):
        base = self.val(st, fr, g[0])
        off = g[1]
        for iv, scale in g[2]:
            i = self.val(st, fr, iv)
            if type(i) is int:
                if i >> 63:
                    i -= 1 << 64
                elif i >> 31 and i < (1 << 32):
                    i -= 1 << 32
                off += i * scale
            else:
                off = None
                break
        if type(base) is int:
            if off == 0:
                return base
            if off is None:
                return self.fresh(st)
            # &null->field: an invalid address derived from null
            return base + off
        if base[0] == "p":
            if off is None or base[2] is None:
                return ("p", base[1], None)
            return ("p", base[1], base[2] + off)
        if base[0] == "s":
            if off == 0:
                return base
            c = self.con(st, base)
            if c.tag == "nullable" and 0 not in c.ne and c.lo == 0:
                return ("t", "fieldof", base, off)
            p = self.deref(st, base, fr, {}, "gep")
            return self.gep_off(p, off)
        return self.fresh(st)

    @staticmethod
    def gep_off(p, off):
        if off is None or p[2] is None:
            return ("p", p[1], None)
        return ("p", p[1], p[2] + off)

    # ---------------------------------------------------------------- calls
    def call(self, st, fn, args, ins=None, caller=None):
        """analyse a call; -> list of Outcome"""
        if fn.name in self.models:
            m = self.models[fn.name]
        elif fn.src in self.models:
            m = self.models[fn.src]
        else:
            m = None
        if m is not None:
            r = m(self, st, args, ins or {}, caller)
            if r is not None:
                return r
        if fn.decl:
            return self.extern(st, fn, args, ins or {}, caller)
        return self.exec(st, fn, args)

    def extern(self, st, fn, args, ins, caller):
        if self.trace_filter and self.trace_filter(fn.name):
            st.trace = st.trace + ((fn.name, tuple(self.res(st, a) for a in args)),)
        # an unknown library function may write through pointers to local objects
        for a in args:
            a = self.res(st, a)
            if type(a) is tuple and a[0] == "p" and a[1] in st.meta and st.meta[a[1]].kind == "alloca":
                self.havoc(st, a[1])
        if fn.ret == "void":
            return [Outcome("ret", st, None)]
        r = self.fresh(st)
        if self.trace_filter and self.trace_filter(fn.name):
            st.trace = st.trace[:-1] + (st.trace[-1] + (r,),)
        return [Outcome("ret", st, r)]

    def havoc(self, st, o):
        st.heap[o] = {}
        st.own.add(o)
        m = st.meta[o]
        st.meta[o] = Meta(m.kind, m.site, m.size, "u", m.typ, m.tag, m.n)

    def exec(self, st, fn, args):
        if fn.name in [f for f in self.stack_names()]:
            r = self.recursion(self, st, fn, args) if self.recursion else None
            if r is None and self._sn.count(fn.name) < self.rec_limit.get(fn.src, self.rec_limit.get("*", 0)):
                # the harness bounds the structure this function recurses over
                return self.exec_body(st, fn, args)
            if r is None:
                raise AnalysisBroken("recursive call of %s not summarised" % fn.src)
            return r
        if len(self.stack) > self.max_depth:
            raise AnalysisBroken("call depth")
        return self.exec_body(st, fn, args)

    def stack_names(self):
        return self._sn

    _sn = ()

    roots = ()

    def exec_body(self, st, fn, args):
        self.stat_funcs.add(fn.name)
        if not self.stack:
            # what the harness set up is observable at the end, reachable from the program or not
            self.roots = sorted((o for o, m in st.meta.items() if m.site == "harness"), key=lambda o: st.meta[o].n)
        self.stack.append(fn.src)
        old = self._sn
        self._sn = old + (fn.name,)
        try:
            return self._exec(st, fn, args)
        finally:
            self.stack.pop()
            self._sn = old

    def _exec(self, st, fn, args):
        fr = Frame(fn, {})
        for (pid, _t), a in zip(fn.params, args):
            fr.regs[pid] = a
        fr.regs["va"] = tuple(args[len(fn.params):])
        st.frames.append(fr)
        outs = []
        work = []
        seq = itertools.count()
        seen = {}
        heapq.heappush(work, (0, next(seq), 0, st))
        while work:
            _, _, b, s = heapq.heappop(work)
            self.steps += 1
            if self.steps > self.max_states:
                raise AnalysisBroken("state budget exceeded in %s" % fn.src)
            if len(fn.pred[b]) > 1:
                f = s.frames[-1]
                live = fn.livein[b] | fn.phidefs[b]
                f.regs = {k: v for k, v in f.regs.items() if k in live or k == "va"}
                key = self.canon(s)
                sb = seen.setdefault(b, set())
                if key in sb:
                    continue
                sb.add(key)
            self.stat_blocks.add((fn.name, b))
            for kind, s2, x in self.run_block(s, fn, b):
                if kind == "goto":
                    s3 = self.edge(s2, fn, b, x)
                    if s3 is not None:
                        heapq.heappush(work, (fn.rpo[x], next(seq), x, s3))
                else:
                    s2.frames = s2.frames[:-1]
                    outs.append(Outcome(kind, s2, x, (fn, b)))
        return self.dedup(outs)

    def dedup(self, outs):
        if len(outs) < 2:
            return outs
        res, seen = [], set()
        for o in outs:
            rv = o.ret
            if o.kind != "ret":
                k = (o.kind, self.canon(o.state, None if o.kind == "ret" else rv))
            else:
                k = ("ret", self.canon(o.state, rv))
            if k in seen:
                continue
            seen.add(k)
            res.append(o)
        return res

    # traverse edge b -> x: evaluate phis, loop bookkeeping, widening
    def edge(self, s, fn, b, x):
        f = s.frames[-1]
        new = {}
        for ins in fn.blocks[x]:
            if ins["op"] != "phi":
                break
            for pb, v in ins["inc"]:
                if pb == b:
                    new[ins["id"]] = self.val(s, f, v)
                    break
        f.regs.update(new)
        if x in fn.loops:
            if b in fn.loops[x]:
                it, snap, const, oldphis = f.loops.get(x, (0, None, False, {}))
                it += 1
                limit = self.widen_limit if const else self.sym_iters
                if it >= limit and it >= 1:
                    self.widen(s, fn, x, oldphis, new, snap)
                f.loops[x] = (it, s.heap.copy() if it + 1 >= self.sym_iters else None, False,
                              {k: f.regs[k] for k in new})
                s.own = set()
            else:
                f.loops[x] = (0, None, False, new)
                # inner loops restart
            for h in list(f.loops):
                if h != x and h in fn.loops[x]:
                    del f.loops[h]
        return s

    def note_exit(self, s, fn, b, decided):
        """terminator of b tests whether to leave a loop"""
        f = s.frames[-1]
        for h, body in fn.loops.items():
            if b in body and h in f.loops and any(t not in body for t in fn.succ[b]):
                it, snap, const, old = f.loops[h]
                if decided:
                    f.loops[h] = (it, snap, True, old)

    def widen(self, s, fn, x, oldphis, new, snap):
        f = s.frames[-1]
        for k, v in new.items():
            o = oldphis.get(k)
            if o is None:
                continue
            o, v = self.res(s, o), self.res(s, v)
            if o == v:
                continue
            if self.is_num(v) and self.is_num(o):
                f.regs[k] = self.fresh(s)
            elif type(v) is tuple and type(o) is tuple and v[0] == "p" and o[0] == "p" and v[1] == o[1]:
                f.regs[k] = ("p", v[1], None)
        if snap:
            for o, cells in list(s.heap.items()):
                old = snap.get(o)
                if old is None or old is cells:
                    continue
                ch = None
                for off, (size, v) in cells.items():
                    ov = old.get(off)
                    if ov is None or ov[0] != size:
                        continue
                    a, b = self.res(s, ov[1]), self.res(s, v)
                    if a != b and self.is_num(a) and self.is_num(b) and (
                            (type(a) is int and type(b) is int and a > 1 and b > 1) or
                            (type(a) is tuple and a[0] == "t") or (type(b) is tuple and b[0] == "t")):
                        ch = ch or {}
                        ch[off] = (size, self.fresh(s))
                    elif a != b and type(a) is tuple and type(b) is tuple and a[0] == "p" and b[0] == "p" \
                            and a[1] == b[1]:
                        ch = ch or {}
                        ch[off] = (size, ("p", b[1], None))
                if ch:
                    self.wcells(s, o).update(ch)
        self.limit_heap(s)

    @staticmethod
    def is_num(v):
        return type(v) is int or (v[0] == "t" and v[1] == "arith")

    def limit_heap(self, s):
        """forget heap structure further than k_dist links from any live variable"""
        dist = {}
        q = []

        def addv(v, d):
            v = self.res(s, v)
            if type(v) is not tuple:
                return
            if v[0] == "p":
                o = v[1]
                m = s.meta.get(o)
                if o not in dist or dist[o] > d:
                    dist[o] = d
                    q.append((d, o))
            elif v[0] == "t" and v[1] == "fieldof":
                addv(v[2], d)
            elif v[0] == "agg":
                for _, x in v[1]:
                    addv(x, d)
        for f in s.frames:
            for k, v in f.regs.items():
                if k == "va":
                    for y in v:
                        addv(y, 0)
                elif f.live is None or k in f.live:
                    addv(v, 0)
        for o in s.heap:
            if isinstance(o, str):
                addv(("p", o, 0), 0)
        for o, m in s.meta.items():
            if m.tag:
                addv(("p", o, 0), 0)
        i = 0
        q.sort(key=lambda t: t[0])
        while i < len(q):
            d, o = q[i]
            i += 1
            if dist[o] < d:
                continue
            m = s.meta.get(o)
            # stack objects and tagged harness objects do not count as a link
            nd = d if (m and m.kind == "alloca") else d + 1
            for off, (size, v) in s.heap.get(o, {}).items():
                before = len(q)
                addv(v, nd)
                if len(q) > before:
                    pass
            # keep BFS order approximately sorted
            q[i:] = sorted(q[i:], key=lambda t: t[0])
        # cut links from kept frontier objects to objects beyond k_dist
        for o, d in dist.items():
            if d > self.k_dist:
                continue
            cells = s.heap.get(o, {})
            for off, (size, v) in list(cells.items()):
                rv = self.res(s, v)
                if type(rv) is tuple and rv[0] == "p" and dist.get(rv[1], 99) > self.k_dist:
                    m = s.meta.get(rv[1])
                    w = self.wcells(s, o)
                    w[off] = (size, self.fresh_nn(s, m.typ if m else None))

    # ---------------------------------------------------------------- canonical form
    def canon(self, s, ret=None):
        objs, syms = {}, {}
        out = []
        queue = []
        res = self.res
        alias = s.alias

        def enc(v):
            if type(v) is int:
                return v
            v = res(s, v)
            if type(v) is int:
                return v
            k = v[0]
            if k == "s":
                n = v[1]
                i = syms.get(n)
                if i is None:
                    i = syms[n] = len(syms)
                    c = s.cons.get(n)
                    if c is not None:
                        nes = []
                        for x in c.ne:
                            if type(x) is int:
                                nes.append(x)
                            elif x[0] == "p" and isinstance(x[1], str):
                                nes.append(x[1])
                            elif x[0] == "p" and x[1] in objs:
                                nes.append(("o", objs[x[1]]))
                        return ("s", i, tuple(sorted(map(str, nes))), c.lo, c.hi, c.tag, c.typ)
                return ("s", i)
            if k == "p":
                o = v[1]
                if isinstance(o, str):
                    return ("p", o, v[2])
                i = objs.get(o)
                if i is None:
                    i = objs[o] = len(objs)
                    queue.append(o)
                return ("p", i, v[2])
            if k == "t":
                if v[1] == "cells":
                    return ("t", "cells", tuple((a, b, enc(c)) for a, b, c in v[2]), v[3])
                return ("t", v[1]) + tuple(enc(x) if type(x) is tuple else x for x in v[2:])
            if k == "b":
                return ("b",) + tuple(enc(x) for x in v[1])
            if k == "agg":
                return ("agg",) + tuple((i, enc(x)) for i, x in v[1])
            return v
        if ret is not None:
            out.append(enc(ret) if type(ret) in (tuple, int) else ret)
        for f in s.frames:
            regs = f.regs
            live = f.live
            for k in sorted((k for k in regs if k != "va" and (live is None or k in live))):
                out.append((k, enc(regs[k])))
            if regs.get("va"):
                out.append(tuple(enc(x) for x in regs["va"]))
        for k in sorted(s.props, key=str):
            v = s.props[k]
            out.append((k, enc(v) if isinstance(v, tuple) and v and v[0] in ("s", "p", "t") else v))
        if s.trace:
            out.append(tuple((e[0],) + tuple(enc_any(x, enc) for x in e[1:]) for e in s.trace))
        for o in sorted(o for o in s.heap if isinstance(o, str)):
            cells = s.heap[o]
            if cells:
                out.append((o, tuple((off, sz, enc(v)) for off, (sz, v) in sorted(cells.items()))))
        for o in self.roots:
            if o not in objs and s.heap.get(o):
                objs[o] = len(objs)
                queue.append(o)
                out.append(("root", o, objs[o]))
        i = 0
        while i < len(queue):
            o = queue[i]
            i += 1
            cells = s.heap.get(o, {})
            m = s.meta.get(o)
            out.append((objs[o], m.kind if m else None, m.fill if m else None, m.tag if m else None,
                        tuple((off, sz, enc(v)) for off, (sz, v) in sorted(cells.items())),
                        o in s.freed))
        for pr in s.objne:
            a, b = tuple(pr) if len(pr) == 2 else (None, None)
            if (a in objs or isinstance(a, str)) and (b in objs or isinstance(b, str)):
                out.append(("ne",) + tuple(sorted((str(objs.get(a, a)), str(objs.get(b, b))))))
        return tuple(out)

    # ---------------------------------------------------------------- blocks
    def run_block(self, st, fn, b):
        """-> list of (kind, state, x): ("goto", s, block) or outcome kinds"""
        res = []
        block = fn.blocks[b]
        stack = [(st, 0)]
        n = len(block)
        while stack:
            s, i = stack.pop()
            fr = s.frames[-1]
            dead = False
            while i < n:
                ins = block[i]
                op = ins["op"]
                if op == "phi":
                    i += 1
                    continue
                if op == "load":
                    a = self.val(s, fr, ins["ops"][0])
                    r = self.do_load(s, fr, ins, a)
                    if r is None:
                        res.append(("null", s, "%s:%s" % (fn.src, ins.get("line"))))
                        dead = True
                        break
                    fr.regs[ins["id"]] = r
                elif op == "store":
                    v = self.val(s, fr, ins["ops"][0])
                    a = self.val(s, fr, ins["ops"][1])
                    if not self.do_store(s, fr, ins, a, v):
                        res.append(("null", s, "%s:%s" % (fn.src, ins.get("line"))))
                        dead = True
                        break
                elif op == "getelementptr":
                    forks = self.gep_forks(s, fr, ins)
                    if forks:
                        for s2 in forks:
                            stack.append((s2, i + 1))
                        dead = True
                        break
                    fr.regs[ins["id"]] = self.gep(s, fr, ins["gep"])
                elif op == "icmp":
                    fr.regs[ins["id"]] = self.icmp(s, fr, ins)
                elif op in ("br", "switch"):
                    self.term(s, fn, fr, b, ins, res)
                    dead = True
                    break
                elif op == "ret":
                    v = self.val(s, fr, ins["ops"][0]) if ins["ops"] else None
                    res.append(("ret", s, v))
                    dead = True
                    break
                elif op == "unreachable":
                    res.append(("stop", s, None))
                    dead = True
                    break
                elif op == "call":
                    cal = ins["callee"]
                    outs = self.do_call(s, fn, fr, b, i, ins)
                    nxt = []
                    for o in outs:
                        if o.kind == "ret":
                            f2 = o.state.frames[-1]
                            if "id" in ins and o.ret is not None:
                                f2.regs[ins["id"]] = o.ret
                            nxt.append((o.state, i + 1))
                        else:
                            res.append((o.kind, o.state, o.ret))
                    if len(nxt) == 1:
                        s = nxt[0][0]
                        fr = s.frames[-1]
                        i += 1
                        continue
                    stack.extend(nxt)
                    dead = True
                    break
                elif op == "select":
                    c = self.val(s, fr, ins["ops"][0])
                    if type(c) is int:
                        fr.regs[ins["id"]] = self.val(s, fr, ins["ops"][1 if c & 1 else 2])
                    else:
                        s2 = s.fork()
                        if self.assume(s2, c, False):
                            f2 = s2.frames[-1]
                            f2.regs[ins["id"]] = self.val(s2, f2, ins["ops"][2])
                            stack.append((s2, i + 1))
                        if not self.assume(s, c, True):
                            dead = True
                            break
                        fr.regs[ins["id"]] = self.val(s, fr, ins["ops"][1])
                elif op == "alloca":
                    cnt = self.val(s, fr, ins["ops"][0])
                    size = ins["esize"] * cnt if type(cnt) is int else None
                    o = self.new_obj(s, "alloca", (fn.name, ins["id"]), size, "uninit")
                    fr.regs[ins["id"]] = ("p", o, 0)
                else:
                    fr.regs[ins["id"]] = self.simple(s, fr, ins)
                i += 1
            if not dead:
                raise AnalysisBroken("block fell through")
        return res

    def gep_forks(self, s, fr, ins):
        """index into a constant table with an unknown but bounded index: one state per entry"""
        g = ins["gep"]
        if len(g[2]) != 1:
            return None
        base = self.val(s, fr, g[0])
        if type(base) is not tuple or base[0] != "p" or not isinstance(base[1], str):
            return None
        iv, scale = g[2][0]
        idx = self.val(s, fr, iv)
        if type(idx) is int or base[2] is None:
            return None
        raw = idx
        if idx[0] == "t" and idx[1] == "sext":
            idx = self.res(s, idx[2])
        if type(idx) is int or idx[0] != "s":
            return None
        name = base[1][1:]
        gl = self.p.globals.get(name)
        if gl is None or self.mutable_global(name) or scale <= 0:
            return None
        nent = (gl["size"] - base[2] - g[1]) // scale
        if nent <= 0 or nent > 160:
            return None
        lo, hi = self.rng(s, idx, 32)
        outs = []
        for k in range(max(lo, 0), min(hi, nent - 1) + 1):
            s2 = s.fork()
            if not self.unify(s2, idx, k):
                continue
            s2.frames[-1].regs[ins["id"]] = ("p", base[1], base[2] + g[1] + k * scale)
            outs.append(s2)
        return outs or None

    def icmp(self, s, fr, ins):
        a = self.val(s, fr, ins["ops"][0])
        b = self.val(s, fr, ins["ops"][1])
        w = ins["oty"] if isinstance(ins["oty"], int) else 64
        p = ins["pred"]
        if p == "eq":
            return self.cmp(s, "eq", a, b, w)
        if p == "ne":
            return self.tnot(self.cmp(s, "eq", a, b, w))
        sg = "s" if p[0] == "s" else "u"
        if p[1:] == "lt":
            return self.cmp(s, sg + "lt", a, b, w)
        if p[1:] == "le":
            return self.cmp(s, sg + "le", a, b, w)
        if p[1:] == "gt":
            return self.cmp(s, sg + "lt", b, a, w)
        return self.cmp(s, sg + "le", b, a, w)

    def simple(self, s, fr, ins):
        op = ins["op"]
        ops = ins["ops"]
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            w = ins["ty"]
            return self.arith(s, op, self.val(s, fr, ops[0]), self.val(s, fr, ops[1]), w)
        if op == "zext":
            return self.val(s, fr, ops[0])
        if op == "sext":
            v = self.val(s, fr, ops[0])
            w1, w2 = ins["oty"], ins["ty"]
            if type(v) is int:
                return v | (mask(w2) & ~mask(w1)) if v >> (w1 - 1) else v
            lo, hi = self.rng(s, v, w1)
            if hi < (1 << (w1 - 1)) and w1 > 1:
                return v
            return ("t", "sext", v, w1, w2)
        if op == "trunc":
            v = self.val(s, fr, ops[0])
            w = ins["ty"]
            if type(v) is int:
                return v & mask(w)
            if v[0] == "b":
                return self.frombits(s, v[1][:w])
            if v[0] == "t":
                if v[1] in ("eq", "ult", "ule", "slt", "sle", "not", "and", "or", "xor"):
                    return v
                if v[1] == "sext":
                    if w == v[3]:
                        return v[2]
                return self.fresh(s)
            if w == 1 and ins["oty"] == 8:
                if v[0] == "s":
                    c = self.con(s, v)
                    s.cons[v[1]] = c.copy(hi=1)
                    return self.cmp(s, "eq", v, 1, 8)
                return self.fresh(s, lo=0, hi=1)
            if v[0] == "s":
                lo, hi = self.rng(s, v, ins["oty"])
                if hi <= mask(w):
                    return v
                key = (v[1], "trunc", w)
                if key not in s.splits:
                    s.splits[key] = self.fresh(s)
                return self.res(s, s.splits[key])
            return self.fresh(s)
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            return self.val(s, fr, ops[0])
        if op == "extractvalue":
            v = self.val(s, fr, ops[0])
            if type(v) is tuple and v[0] == "agg" and len(ins["idx"]) == 1:
                for i, x in v[1]:
                    if i == ins["idx"][0]:
                        return self.res(s, x)
                return 0
            return self.fresh(s)
        if op == "insertvalue":
            v = self.val(s, fr, ops[0])
            x = self.val(s, fr, ops[1])
            d = dict(v[1]) if type(v) is tuple and v[0] == "agg" else {}
            d[ins["idx"][0]] = x
            return ("agg", tuple(sorted(d.items(), key=lambda t: t[0])))
        if op == "fcmp":
            x, y = (fval(self.val(s, fr, o)) for o in ops[:2])
            if x is None or y is None:
                return self.fresh(s, lo=0, hi=1)
            p = ins["pred"]
            if p in ("true", "false"):
                return int(p == "true")
            un = x != x or y != y
            if p in ("ord", "uno"):
                return int(un == (p == "uno"))
            if un:
                return int(p[0] == "u")
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]])
        return self.fresh(s)

    def do_load(self, s, fr, ins, a):
        a = self.res(s, a)
        if type(a) is tuple and a[0] == "t" and a[1] == "fieldof":
            p = self.deref(s, a[2], fr, ins, "load")
            if p is None:
                return None
            p = self.gep_off(p, a[3])
        else:
            p = self.deref(s, a, fr, ins, "load")
        if p is None:
            return None
        if p[2] is None:
            m = s.meta.get(p[1])
            return self.fresh(s)
        ty = ins.get("ty")
        if isinstance(ty, dict):
            # aggregate load
            if "struct" in ty:
                return ("agg", tuple((i, self.load_cell(s, p[1], p[2] + o, self.tsz(t)))
                                     for i, (o, t) in enumerate(ty["struct"])))
            return self.fresh(s)
        if self.bounds and self.outside(s, fr, ins, p, ins["size"], "read"):
            return None
        v = self.load_cell(s, p[1], p[2], ins["size"])
        if ty == "ptr" and type(v) is tuple and v[0] == "s":
            c = self.con(s, v)
            if c.tag is None and 0 not in c.ne:
                m = s.meta.get(p[1])
                if m is not None and m.typ is not None:
                    for f in self.p.fields_at(m.typ, p[2], ins["size"]):
                        if self.nullable_all or (m.typ, f["name"]) in self.nullable:
                            s.cons[v[1]] = c.copy(tag="nullable")
                            break
        return v

    @staticmethod
    def tsz(t):
        if t == "ptr" or t == "fp":
            return 8
        if isinstance(t, int):
            return (t + 7) // 8
        return t["size"]

    def do_store(self, s, fr, ins, a, v):
        a = self.res(s, a)
        if type(a) is tuple and a[0] == "t" and a[1] == "fieldof":
            p = self.deref(s, a[2], fr, ins, "store")
            if p is None:
                return False
            p = self.gep_off(p, a[3])
        else:
            p = self.deref(s, a, fr, ins, "store")
        if p is None:
            return False
        if p[2] is None:
            # weak update: forget what the object holds (constants stay)
            if ins["size"] <= 4 and p[1] in s.meta and s.meta[p[1]].size is None and s.meta[p[1]].typ in (None, "#str"):
                return True
            if p[1] in s.meta and s.meta[p[1]].kind in ("alloca", "alloc"):
                self.havoc(s, p[1])
            return True
        if type(v) is tuple and v[0] == "agg":
            ty = ins.get("oty")
            if isinstance(ty, dict) and "struct" in ty:
                d = dict(v[1])
                for i, (o, t) in enumerate(ty["struct"]):
                    self.store_cell(s, p[1], p[2] + o, self.tsz(t), d.get(i, 0))
            return True
        if self.bounds and self.outside(s, fr, ins, p, ins["size"], "write"):
            return False
        self.store_cell(s, p[1], p[2], ins["size"], v)
        return True

    def outside(self, s, fr, ins, p, n, what):
        m = s.meta.get(p[1])
        if m is None or m.size is None or p[2] is None or m.kind == "lazy" or 0 <= p[2] and p[2] + n <= m.size:
            return False
        self.report(("bounds", fr.fn.src, what), fr, ins, "%s outside of its object (offset %d, %d bytes)" % (what, p[2], m.size))
        return True

    def term(self, s, fn, fr, b, ins, res):
        if ins["op"] == "br":
            succ = ins["succ"]
            if "cond" not in ins:
                res.append(("goto", s, succ[0]))
                return
            c = self.val(s, fr, ins["cond"])
            if type(c) is int:
                self.note_exit(s, fn, b, self.concrete(s, fr, fn, ins["cond"]))
                res.append(("goto", s, succ[0] if c & 1 else succ[1]))
                return
            s2 = s.fork()
            if self.assume(s2, c, True):
                res.append(("goto", s2, succ[0]))
            if self.assume(s, c, False):
                res.append(("goto", s, succ[1]))
            return
        c = self.val(s, fr, ins["cond"])
        if type(c) is int:
            self.note_exit(s, fn, b, True)
            for cv, t in ins["cases"]:
                if self.big(cv) == c:
                    res.append(("goto", s, t))
                    return
            res.append(("goto", s, ins["default"]))
            return
        d = s.fork()
        ok = True
        for cv, t in ins["cases"]:
            cv = self.big(cv)
            s2 = s.fork()
            if self.assume(s2, self.cmp(s2, "eq", c, cv, ins["bits"]), True):
                res.append(("goto", s2, t))
            if ok:
                ok = self.assume(d, self.cmp(d, "eq", self.res(d, c), cv, ins["bits"]), False)
        if ok:
            res.append(("goto", d, ins["default"]))

    def concrete(self, s, fr, fn, cond, depth=0):
        """was this branch condition decided by constants alone (not by constraints)?"""
        if cond[0] != "v":
            return True
        d = fn.defs.get(cond[1])
        if d is None or depth > 4:
            return False
        if d["op"] == "icmp":
            for o in d["ops"]:
                v = self.val(s, fr, o)
                if type(v) is not int and not (v[0] == "p" and v[2] is not None):
                    return False
            return True
        if d["op"] in ("xor", "and", "or", "zext", "trunc"):
            return all(self.concrete(s, fr, fn, o, depth + 1) for o in d["ops"])
        return False

    def do_call(self, s, fn, fr, b, i, ins):
        cal = ins["callee"]
        if cal[0] == "fn":
            target = cal[1]
        else:
            v = self.val(s, fr, cal)
            if type(v) is tuple and v[0] == "fn":
                target = v[1]
            else:
                return self.indirect(s, fr, ins, v)
        args = [self.val(s, fr, a) for a in ins["args"]]
        if "byval" in ins:
            for k, size in ins["byval"].items():
                k = int(k)
                o = self.new_obj(s, "alloca", (fn.name, "byval"), size, "uninit")
                self.memcpy(s, ("p", o, 0), args[k], size, fr, ins)
                args[k] = ("p", o, 0)
        if target.startswith("llvm.") and target not in self.models:
            return self.intrinsic(s, fr, ins, target, args)
        if target.startswith("llvm."):
            return self.models[target](self, s, args, ins, fr)
        f = self.p.funcs.get(target)
        if f is None:
            raise AnalysisBroken("call of unknown function " + target)
        self.stat_calls.add((fn.name, ins.get("line"), target))
        fr.live = fn.live_after(b, i)
        depth = len(s.frames)
        outs = self.call(s, f, args, ins, fr)
        if self.after_call:
            outs = self.after_call(self, f, args, outs, fr, ins)
        for o in outs:
            if len(o.state.frames) == depth:
                nf = o.state.frames[-1] = o.state.frames[-1].fork()
                nf.live = None
                # keep only live registers
        return outs

    def indirect(self, s, fr, ins, v):
        if "*indirect" in self.models:
            r = self.models["*indirect"](self, s, v, ins, fr)
            if r is not None:
                return r
        ret = None
        if "id" in ins:
            ret = self.fresh(s)
        return [Outcome("ret", s, ret)]

    def intrinsic(self, s, fr, ins, name, args):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            ok = self.memcpy(s, args[0], args[1], args[2], fr, ins)
            return [Outcome("ret", s, None)] if ok else [Outcome("null", s, "%s:%s" % (fr.fn.src, ins.get("line")))]
        if name.startswith("llvm.memset"):
            ok = self.memset(s, args[0], args[1], args[2], fr, ins)
            return [Outcome("ret", s, None)] if ok else [Outcome("null", s, "%s:%s" % (fr.fn.src, ins.get("line")))]
        if name.startswith("llvm.va_"):
            return [Outcome("ret", s, None)]
        ret = self.fresh(s) if "id" in ins else None
        return [Outcome("ret", s, ret)]

    def memset(self, s, dst, val, n, fr, ins):
        p = self.deref(s, dst, fr, ins, "memset")
        if p is None:
            return False
        n = self.res(s, n)
        val = self.res(s, val)
        o, off = p[1], p[2]
        m = s.meta[o]
        if self.bounds and type(n) is int and self.outside(s, fr, ins, p, n, "memset"):
            return False
        if type(n) is int and off is not None and type(val) is int and val & 255 and n <= 256:
            for i in range(n):
                self.store_cell(s, o, off + i, 1, val & 255)
            return True
        if type(n) is not int or off is None or val != 0:
            self.havoc(s, o)
            return True
        if off == 0 and (m.size is None or n >= m.size) and m.kind in ("alloca", "alloc"):
            s.heap[o] = {}
            s.own.add(o)
            s.meta[o] = Meta(m.kind, m.site, m.size if m.size is not None else n, 0, m.typ, m.tag, m.n)
            return True
        pos = off
        while pos < off + n:
            c = min(8, off + n - pos)
            self.store_cell(s, o, pos, c, 0)
            pos += c
        return True

    def memcpy(self, s, dst, src, n, fr, ins):
        pd = self.deref(s, dst, fr, ins, "memcpy dst")
        if pd is None:
            return False
        ps = self.deref(s, src, fr, ins, "memcpy src")
        if ps is None:
            return False
        n = self.res(s, n)
        if type(n) is not int or pd[2] is None or ps[2] is None:
            if s.meta[pd[1]].kind in ("alloca", "alloc"):
                self.havoc(s, pd[1])
            return True
        so, sof, do, dof = ps[1], ps[2], pd[1], pd[2]
        sm, dm = s.meta[so], s.meta[do]
        if self.bounds and (self.outside(s, fr, ins, pd, n, "memcpy") or self.outside(s, fr, ins, ps, n, "memcpy")):
            return False
        cells = []
        if sm.kind == "global":
            g = self.p.globals[sm.site]
            offs = self.init_layout(g["init"]) if "init" in g else []
            for o, sz in offs:
                if sof <= o and o + sz <= sof + n:
                    cells.append((o - sof, sz, self.load_cell(s, so, o, sz)))
            fill = 0
        else:
            for o, (sz, v) in list(s.heap.get(so, {}).items()):
                if sof <= o and o + sz <= sof + n:
                    cells.append((o - sof, sz, v))
                elif o < sof + n and sof < o + sz:
                    lo, hi = max(o, sof), min(o + sz, sof + n)
                    cells.append((lo - sof, hi - lo, self.sub(s, v, lo - o, hi - lo)))
            fill = sm.fill
        # unknown remainder of the source: name it word by word so both copies agree
        if fill not in (0,):
            covered = sorted((o, sz) for o, sz, v in cells)
            pos = 0
            gaps = []
            for o, sz in covered + [(n, 0)]:
                if o > pos:
                    gaps.append((pos, o - pos))
                pos = max(pos, o + sz)
            typ = sm.typ or dm.typ
            for go, gs in gaps:
                at = go
                while at < go + gs:
                    c = None
                    if typ in self.p.structs:
                        for mm in self.p.structs[typ]["members"]:
                            if mm["bit"] == (at + (sof if sm.typ else dof)) * 8 and mm["bits"] % 8 == 0 and mm["bits"] and mm["bits"] <= 64:
                                c = mm["bits"] // 8
                                break
                    if c is None or c > go + gs - at:
                        c = min(8 - (at % 8), go + gs - at)
                    cells.append((at, c, self.load_cell(s, so, sof + at, c)))
                    at += c
            fill = "named"
        if dof == 0 and (dm.size is None or n >= dm.size) and fill == 0 and dm.kind in ("alloca", "alloc"):
            s.heap[do] = {o: (sz, v) for o, sz, v in cells}
            s.own.add(do)
            s.meta[do] = Meta(dm.kind, dm.site, dm.size, 0, dm.typ, dm.tag, dm.n)
            return True
        if fill == 0:
            pos = 0
            for o, sz, v in sorted(cells, key=lambda t: t[0]) + [(n, 0, 0)]:
                while pos < o:
                    c = min(8 - (pos % 8), o - pos)
                    self.store_cell(s, do, dof + pos, c, 0)
                    pos += c
                pos = max(pos, o + sz)
        for o, sz, v in cells:
            self.store_cell(s, do, dof + o, sz, v)
        return True

    def init_layout(self, v, base=0, size=None):
        k = v[0]
        if k == "agg":
            out = []
            for eo, es, ev in v[2]:
                out += self.init_layout(ev, base + eo, es)
            return out
        if k == "da":
            return [(base + i * v[1], v[1]) for i in range(len(v[2]))]
        if k == "z":
            return []
        return [(base, size)] if size else []


def enc_any(x, enc):
    if isinstance(x, tuple) and x and x[0] in ("s", "p", "t", "b", "agg"):
        return enc(x)
    if isinstance(x, tuple):
        return tuple(enc_any(y, enc) for y in x)
    return x
