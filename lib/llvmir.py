"""Abstract model of the LLVM C API, for judging what the code generator emits.

LLVM values, types and blocks are terms (nested tuples), interned per term, so two
API calls that build the same thing give the same value.  Instructions with an effect
(load, store, call, alloca, terminators) are appended to an ordered list in the
abstract state together with the block they were put in; pure instructions are just
terms.  Nothing of LLVM is run: the model only records what the code generator asked
for, on every path through it.
"""
from absint import Outcome
from models import ret

PURE_OPS = {"Add": "add", "NSWAdd": "add", "Sub": "sub", "NSWSub": "sub", "Mul": "mul", "NSWMul": "mul",
            "FAdd": "fadd", "FSub": "fsub", "FMul": "fmul", "FDiv": "fdiv", "FRem": "frem", "SDiv": "sdiv",
            "SRem": "srem", "Shl": "shl", "LShr": "lshr", "AShr": "ashr", "And": "and", "Or": "or", "Xor": "xor",
            "UDiv": "udiv", "URem": "urem", "ExactSDiv": "exact sdiv", "ExactUDiv": "exact udiv",
            "NUWAdd": "nuw add", "NUWSub": "nuw sub", "NUWMul": "nuw mul"}
COMM = {"add", "mul", "fadd", "fmul", "and", "or", "xor", "eq", "ne", "oeq", "une"}
BINOPS = {8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
          17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FPRED = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
         10: "ugt.f", 11: "uge.f", 12: "ult.f", 13: "ule.f", 14: "une", 15: "true"}
SWAP = {"sgt": "slt", "sge": "sle", "ugt": "ult", "uge": "ule", "ogt": "olt", "oge": "ole",
        "ugt.f": "ult.f", "uge.f": "ule.f"}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle",
       "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
       "oeq": "une", "une": "oeq", "olt": "uge.f", "uge.f": "olt", "ole": "ugt.f", "ugt.f": "ole",
       "ogt": "ule.f", "ule.f": "ogt", "oge": "ult.f", "ult.f": "oge"}
SWAPR = {v: k for k, v in SWAP.items()}
TRUE = ("const", "i1", 1)


def mk(op, *a):
    """normal form of a pure operation"""
    if op == "xor" and TRUE in a:
        x = a[0] if a[1] == TRUE else a[1]
        return mk("not", x)
    if op == "not":
        x = a[0]
        if type(x) is tuple and x[0] == "not":
            return x[1]
        if type(x) is tuple and x[0] in NEG:
            return mk(NEG[x[0]], x[1], x[2])
        return ("not", x)
    if op in SWAP:
        return (SWAP[op], a[1], a[0])
    if op in COMM:
        return (op,) + tuple(sorted(a, key=repr))
    return (op,) + a


class LL:
    """model of the LLVM C API attached to an engine"""

    def __init__(self, P, E):
        self.P = P
        self.E = E
        self.terms = {}
        self.keys = {}
        for n, f in P.funcs.items():
            if n.startswith("LLVM") and f.decl:
                E.models[n] = self.dispatch(n)
            elif n.startswith("LLVMInitializeAll"):
                E.models[n] = lambda E, st, a, i, f: ret(st)

    # ------------------------------------------------------------ terms and values
    def v(self, term):
        k = self.keys.get(term)
        if k is None:
            k = self.keys[term] = "%%%d" % len(self.keys)
            self.terms[k] = term
        return ("p", k, 0)

    def t(self, st, v):
        """term of an abstract value (None: null)"""
        v = self.E.res(st, v)
        if v == 0:
            return None
        if type(v) is tuple and v[0] == "p" and v[1] in self.terms:
            return self.terms[v[1]]
        return ("?",) + (self.desc(st, v),)

    def desc(self, st, v):
        """a printable, rename-stable description of any abstract value"""
        E = self.E
        v = E.res(st, v)
        if type(v) is int:
            return v
        if v[0] == "s":
            c = E.con(st, v)
            return ("val", c.tag) if c.tag else "unknown"
        if v[0] == "p":
            if v[1] in self.terms:
                return self.terms[v[1]]
            m = st.meta.get(v[1])
            if isinstance(v[1], str):
                s = self.cstr(v)
                return s if s is not None else v[1]
            return ("obj", m.tag) if m and m.tag else "object"
        if v[0] == "t":
            return ("t", v[1]) + tuple(self.desc(st, x) if type(x) is tuple else x for x in v[2:])
        if v[0] == "b":
            return ("bits",) + tuple(self.desc(st, x) for x in v[1])
        if v[0] == "f":
            return v
        return str(v)

    def cstr(self, v):
        """text of a constant string"""
        if type(v) is tuple and v[0] == "p" and isinstance(v[1], str) and v[1].startswith("@"):
            try:
                b = self.P.global_bytes(v[1][1:])
            except KeyError:
                return None
            if b and b[0] == 1 and v[2] is not None:
                bs = bytes(x & 255 for x in b[1][v[2]:])
                return bs.split(b"\0")[0].decode("utf-8", "replace")
        return None

    # ------------------------------------------------------------ code
    def emit(self, st, *ins):
        code = st.props.get("code", ())
        st.props["code"] = code + ((st.props.get("bb"), ins),)
        return len(code)

    def inst(self, st, *ins):
        n = self.emit(st, *ins)
        return self.v(("ins", n))

    def terminated(self, st, bb):
        return any(b == bb and i[0] in ("br", "condbr", "ret", "unreachable", "term") for b, i in st.props.get("code", ()))

    def dispatch(self, name):
        if name.startswith("LLVMBuild"):
            op = name[len("LLVMBuild"):]
            h = getattr(self, "b_" + op, None)
            if h is None:
                h = lambda st, a: self.generic(op, st, a)
        else:
            h = getattr(self, "x_" + name[4:], None)
        if h is None:
            if name.startswith(("LLVMDI", "LLVMDispose", "LLVMInitialize")) or name in (
                    "LLVMMoveBasicBlockBefore", "LLVMMoveBasicBlockAfter", "LLVMInstructionSetDebugLoc",
                    "LLVMSetSubprogram", "LLVMAddModuleFlag", "LLVMGlobalSetMetadata", "LLVMValueAsMetadata",
                    "LLVMContextDispose", "LLVMSetCurrentDebugLocation2", "LLVMSetCurrentDebugLocation", "LLVMSetValueName2",
                    "LLVMSetValueName", "LLVMSetTarget", "LLVMSetDataLayout", "LLVMSetModuleDataLayout"):
                h = lambda st, a: None

        def model(E, st, a, ins, fr):
            if h is None:
                st.props["other"] = st.props.get("other", ()) + (name,)
                return ret(st, E.fresh_nn(st) if "id" in ins else None)
            b = self.t(st, a[0]) if name.startswith(("LLVMBuild", "LLVMPosition", "LLVMGetInsertBlock")) and a else None
            if type(b) is tuple and b[0] == "builder" and len(b) > 1:
                # a second builder has a position of its own
                here, st.props["bb"] = st.props.get("bb"), st.props.get(b)
                r = h(st, a)
                st.props[b], st.props["bb"] = st.props["bb"], here
            else:
                r = h(st, a)
            if isinstance(r, list):
                return r
            if r is None and "id" in ins:
                r = E.fresh_nn(st)
            return ret(st, r)
        return model

    def generic(self, op, st, a):
        T = [self.t(st, x) for x in a[1:]]
        if op in PURE_OPS:
            return self.v(mk(PURE_OPS[op], T[0], T[1]))
        return self.v(("Build" + op,) + tuple(T))

    # ---- pure
    def b_BinOp(self, st, a):
        o = self.E.res(st, a[1])
        return self.v(mk(BINOPS.get(o, "op%s" % (o,)), self.t(st, a[2]), self.t(st, a[3])))

    def b_Not(self, st, a):
        return self.v(mk("not", self.t(st, a[1])))

    def b_Neg(self, st, a):
        return self.v(mk("sub", ("const", "i64", 0), self.t(st, a[1])))
    b_NSWNeg = b_Neg

    def b_FNeg(self, st, a):
        return self.v(("fneg", self.t(st, a[1])))

    def b_ICmp(self, st, a):
        p = self.E.res(st, a[1])
        return self.v(mk(IPRED.get(p, "icmp%s" % (p,)), self.t(st, a[2]), self.t(st, a[3])))

    def b_FCmp(self, st, a):
        p = self.E.res(st, a[1])
        return self.v(mk(FPRED.get(p, "fcmp%s" % (p,)), self.t(st, a[2]), self.t(st, a[3])))

    def b_BitCast(self, st, a):
        return a[1]     # only ever between pointer types, which are all the same
    b_PointerCast = b_BitCast

    def b_GlobalString(self, st, a):
        return self.v(("str", self.desc(st, a[1])))
    b_GlobalStringPtr = b_GlobalString

    def b_Select(self, st, a):
        return self.v(("select", self.t(st, a[1]), self.t(st, a[2]), self.t(st, a[3])))

    # ---- effects
    def b_Load2(self, st, a):
        return self.inst(st, "load", self.t(st, a[2]), self.t(st, a[1]))

    def b_Store(self, st, a):
        return self.inst(st, "store", self.t(st, a[1]), self.t(st, a[2]))

    def b_Alloca(self, st, a):
        return self.inst(st, "alloca", self.t(st, a[1]))

    def b_Call2(self, st, a):
        n = self.E.res(st, a[4])
        args = ()
        if type(n) is int and n:
            p = self.E.res(st, a[3])
            if type(p) is tuple and p[0] == "p":
                args = tuple(self.t(st, self.E.load_cell(st, p[1], p[2] + 8 * i, 8, "ptr")) for i in range(n))
            else:
                args = ("?",) * n
        elif type(n) is not int:
            args = ("?n",)
        return self.inst(st, "call", self.t(st, a[2]), args, self.t(st, a[1]))

    def b_Br(self, st, a):
        return self.inst(st, "br", self.t(st, a[1]))

    def b_CondBr(self, st, a):
        return self.inst(st, "condbr", self.t(st, a[1]), self.t(st, a[2]), self.t(st, a[3]))

    def b_Ret(self, st, a):
        return self.inst(st, "ret", self.t(st, a[1]))

    def b_RetVoid(self, st, a):
        return self.inst(st, "ret", None)

    def b_Unreachable(self, st, a):
        return self.inst(st, "unreachable")

    # ---- blocks and position
    def x_AppendBasicBlockInContext(self, st, a):
        n = st.props.get("nbb", 0)
        st.props["nbb"] = n + 1
        bb = ("bb", n, self.t(st, a[1]))
        st.props.setdefault(("entry", bb[2]), bb)
        return self.v(bb)

    def x_AppendBasicBlock(self, st, a):
        return self.x_AppendBasicBlockInContext(st, [0] + list(a))

    def x_InsertBasicBlockInContext(self, st, a):
        n = st.props.get("nbb", 0)
        st.props["nbb"] = n + 1
        t = self.t(st, a[1])
        return self.v(("bb", n, t[2] if t and t[0] == "bb" else None))

    def x_PositionBuilderAtEnd(self, st, a):
        st.props["bb"] = self.t(st, a[1])

    def x_GetInsertBlock(self, st, a):
        bb = st.props.get("bb")
        return self.v(bb) if bb else 0

    def x_CreateBuilderInContext(self, st, a):
        if "bb" not in st.props:
            return self.v(("builder",))
        n = st.props.get("nbuilder", 0)
        st.props["nbuilder"] = n + 1
        return self.v(("builder", n))

    def x_GetFirstInstruction(self, st, a):
        bb = self.t(st, a[0])
        for n, (b, i) in enumerate(st.props.get("code", ())):
            if b == bb:
                return self.v(("ins", n))
        return self.v(("firstof", bb)) if bb == st.props.get("before") else 0

    def x_PositionBuilderBefore(self, st, a):
        i = self.t(st, a[1])
        if i is None:
            return [Outcome("null", st, "LLVMPositionBuilderBefore(NULL)")]
        bb = i[1] if i[0] in ("firstof", "termof") else st.props["code"][i[1]][0] if i[0] == "ins" else None
        # what is put there comes before anything else of the block
        st.props["bb"] = ("bb", "front", bb)

    def x_PositionBuilder(self, st, a):
        # before an instruction, or at the end when there is none
        if self.t(st, a[2]) is None:
            st.props["bb"] = self.t(st, a[1])
            return None
        return self.x_PositionBuilderBefore(st, a[1:])

    def x_GetEntryBasicBlock(self, st, a):
        bb = st.props.get(("entry", self.t(st, a[0])))
        return self.v(bb) if bb else self.E.fresh_nn(st)

    def x_GetBasicBlockTerminator(self, st, a):
        return self.v(("termof", self.t(st, a[0]))) if self.terminated(st, self.t(st, a[0])) else 0

    def x_GetBasicBlockParent(self, st, a):
        t = self.t(st, a[0])
        return self.v(t[2] if t and type(t[2]) is tuple else st.props.get("infn"))

    # ---- types
    def x_Int1TypeInContext(self, st, a):
        return self.v(("ty", "i1"))

    def x_Int8TypeInContext(self, st, a):
        return self.v(("ty", "i8"))

    def x_Int16TypeInContext(self, st, a):
        return self.v(("ty", "i16"))

    def x_Int32TypeInContext(self, st, a):
        return self.v(("ty", "i32"))

    def x_Int64TypeInContext(self, st, a):
        return self.v(("ty", "i64"))

    def x_IntTypeInContext(self, st, a):
        n = self.E.res(st, a[1])
        return self.v(("ty", "i%s" % (n,)))

    def x_DoubleTypeInContext(self, st, a):
        return self.v(("ty", "double"))

    def x_FloatTypeInContext(self, st, a):
        return self.v(("ty", "float"))

    def x_VoidTypeInContext(self, st, a):
        return self.v(("ty", "void"))

    def x_PointerType(self, st, a):
        return self.v(("ty", "ptr"))

    def x_PointerTypeInContext(self, st, a):
        return self.v(("ty", "ptr"))

    def x_FunctionType(self, st, a):
        n = self.E.res(st, a[2])
        args = ("?n",)
        if type(n) is int:
            p = self.E.res(st, a[1])
            args = ()
            if n:
                args = tuple(self.tyname(self.t(st, self.E.load_cell(st, p[1], p[2] + 8 * i, 8, "ptr"))) for i in range(n)) \
                    if type(p) is tuple and p[0] == "p" else ("?",) * n
        va = self.E.res(st, a[3])
        return self.v(("fnty", self.tyname(self.t(st, a[0])), args) + (("...",) if va != 0 else ()))

    @staticmethod
    def tyname(t):
        return t[1] if type(t) is tuple and t[0] == "ty" else t

    # ---- constants
    def x_ConstInt(self, st, a):
        ty = self.tyname(self.t(st, a[0]))
        d = self.desc(st, a[1])
        if ty == "i1" and type(d) is int:
            d &= 1
        return self.v(("const", ty, d))

    def x_ConstReal(self, st, a):
        return self.v(("const", self.tyname(self.t(st, a[0])), self.desc(st, a[1])))

    def x_ConstNull(self, st, a):
        return self.v(("const", self.tyname(self.t(st, a[0])), 0))

    def x_IsConstant(self, st, a):
        t = self.t(st, a[0])
        return int(self.isconst(t))

    def isconst(self, t):
        if type(t) is not tuple:
            return False
        if t[0] in ("const", "str", "fn", "fn-renamed", "gvar"):
            return True
        if t[0] == "in":
            return t[2] == "literal"
        if t[0] in ("ins", "param", "bb", "?"):
            return False
        return all(self.isconst(x) for x in t[1:] if type(x) is tuple)

    # ---- module
    def x_AddGlobal(self, st, a):
        n = st.props.get("ngv", 0)
        st.props["ngv"] = n + 1
        g = ("gvar", n)
        st.props[("gvar", n)] = (self.desc(st, a[2]), self.tyname(self.t(st, a[1])))
        return self.v(g)

    def x_SetInitializer(self, st, a):
        st.props[("init", self.t(st, a[0]))] = self.t(st, a[1])

    def x_SetLinkage(self, st, a):
        st.props[("linkage", self.t(st, a[0]))] = self.E.res(st, a[1])

    def x_SetGlobalConstant(self, st, a):
        st.props[("constant", self.t(st, a[0]))] = self.E.res(st, a[1])

    def x_AddFunction(self, st, a):
        name = self.desc(st, a[1])
        ty = self.t(st, a[2])
        if ("fn", name) in st.props.get("fns", ()):
            return self.v(("fn-renamed", name))
        st.props["fns"] = st.props.get("fns", ()) + (("fn", name),)
        st.props[("fnty", ("fn", name))] = ty
        return self.v(("fn", name))

    def x_GetNamedFunction(self, st, a):
        name = self.desc(st, a[1])
        if ("fn", name) in st.props.get("fns", ()):
            return self.v(("fn", name))
        return 0

    def x_GetFirstParam(self, st, a):
        f = self.t(st, a[0])
        return self.v(("param", f, 0))

    def x_GetNextParam(self, st, a):
        t = self.t(st, a[0])
        return self.v(("param", t[1], t[2] + 1)) if t and t[0] == "param" else self.E.fresh_nn(st)

    def x_GetParam(self, st, a):
        return self.v(("param", self.t(st, a[0]), self.E.res(st, a[1])))

    # ------------------------------------------------------------ reading back
    @staticmethod
    def code(st):
        return st.props.get("code", ())


class Mem:
    """memory behaviour of a straight-line piece of recorded code, run any number of times"""

    def __init__(self, st):
        self.st = st
        self.code = st.props.get("code", ())
        self.mem = {}
        self.val = {}
        self.cur = {}
        self.epoch = 0
        self.bad = []         # accesses through something that is not an address
        for k, v in st.props.items():
            if isinstance(k, tuple) and k[0] == "init":
                self.mem[k[1]] = v

    def again(self):
        self.epoch += 1

    def run(self, lo, hi):
        for n in range(lo, hi):
            ins = self.code[n][1]
            if ins[0] == "load":
                p = self.address(ins[1])
                self.val[n] = self.mem.get(p, ("no value in", p))
            elif ins[0] == "store":
                self.mem[self.address(ins[2])] = self.resolve(ins[1])
            elif ins[0] == "alloca":
                self.val[n] = ("slot", n, self.epoch)
            elif ins[0] == "eval":
                self.cur[ins[1]] = self.epoch
            else:
                self.val[n] = ("ins", n)

    def address(self, t):
        p = self.resolve(t)
        if type(p) is not tuple or p[0] not in ("slot", "gvar", "in", "param"):
            self.bad.append(p)
        return p

    def resolve(self, t):
        if type(t) is not tuple:
            return t
        if t[0] == "ins":
            return self.val.get(t[1], ("not yet computed", t[1]))
        if t[0] == "in":
            if t[2] == "dyn":
                return t + (self.cur.get(t[1], "never evaluated"),)
            return t
        if t[0] in ("const", "str", "gvar", "param", "fn"):
            return t
        return tuple(self.resolve(x) for x in t)
