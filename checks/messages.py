"""Diagnostics say what they are about, where, and in which words."""
import itertools
import re
import text
import cstr
from absint import Engine, Outcome, State
from models import base_models, ret
from extract import AnalysisBroken

FIELDS = ("var", "type", "str32", "i", "tok", "real", "str")
ANSI = re.compile("\x1b\\[[0-9;]*m")

# words the text of a code has to contain for the message to be about what happened
WORDS = {
    "ERR_UNEXPECTED_TOKEN": "unexpected", "ERR_EOF_NO_BRACKET": "bracket", "ERR_NOT_INT": "integer",
    "ERR_FUNC_TYPE_MISMATCH": "type", "ERR_EXPECTED_SAME_TYPE": "type", "ERR_RUNE_TOO_LONG": "rune",
    "ERR_BAD_ESCAPE": "escape", "ERR_VAR_NOT_FOUND": "not found", "ERR_OVERFLOW": "overflow",
    "ERR_MISSING_OPEN_BRAK": "opening bracket", "ERR_MISSING_CLOSING_PAREN": "closing paren",
    "ERR_MISSING_DECLARATION": "declaration", "ERR_MISSING_BLOCK": "block", "ERR_NO_CLOSING_COMMENT": "comment",
    "ERR_NO_CLOSING_QUOTE": "quote", "ERR_NO_VOID_ASSIGN": "void", "ERR_IMPORT_IDENT": "import",
    "ERR_VAR_ALREADY_DEFINED": "variable already defined", "ERR_NON_INT_MAIN": "main", "ERR_NON_BOOL_EXPR": "bool",
    "ERR_NO_REDEFINE_FUNC": "function", "ERR_ZERO_PARAM_FUNC": "zero param", "ERR_SHADOW_VAR": "shadow",
    "ERR_EXPECTED_RETURN": "return", "ERR_NO_VOID_RETURN": "void return", "ERR_ELSE_ELIF_MISSING_IF": "else if",
    "ERR_UNEXPECTED_CODE_BLOCK": "unexpected block", "ERR_EMPTY_BLOCK": "block empty", "ERR_UNREACHABLE_CODE": "unreachable",
    "ERR_REASSIGN_CONST": "const", "ERR_INVALID_EXPR": "expression", "ERR_NO_DANGLING_EXPR": "expression",
    "ERR_REDUNDANT_REASSIGN": "redundant", "ERR_DIV_BY_ZERO": "zero", "ERR_NO_NESTED": "nested",
    "ERR_EXPECTED_COMMA": "comma", "ERR_UNCLOSED_FUNC_CALL": "call paren", "ERR_TYPE_NOT_FOUND": "type",
    "ERR_ALIAS_ALREADY_DEFINED": "alias defined", "ERR_ASSIGN_MISSING_EXPR": "assign", "ERR_RETURN_MISSING_EXPR": "return",
    "ERR_EXPECTED_EXPR": "expression", "ERR_NO_CONTROL_CHAR": "control", "ERR_INVALID_NUM_PARAMS": "number param",
    "ERR_INVALID_COMMENT_START": "comment", "ERR_ILLEGAL_SEQ_AT": "UTF", "ERR_ILLEGAL_SEQ": "UTF",
    "ERR_POW_BAD_TYPE": "power", "ERR_EXPECTED_NEWLINE": "newline", "WARN_VAR_NOT_CONST": "const",
    "WARN_VAR_UNUSED": "variable unused", "WARN_FUNC_UNUSED": "function unused", "WARN_COND_ALWAYS_TRUE": "true",
    "WARN_COND_ALWAYS_FALSE": "false", "WARN_FILE_EMPTY": "empty", "ERR_NESTED_BLOCK_COMMENT": "comment",
    "WARN_TRIVIAL_TYPE": "type", "ERR_NOT_NUMERIC": "numeric", "WARN_NO_BOM": "BOM",
    "ERR_BREAK_NOT_IN_WHILE": "break while", "ERR_CONTINUE_NOT_IN_WHILE": "continue while",
    "ERR_NO_MUT_TYPE_ALIAS": "alias mut", "ERR_NO_TYPE_EXPR": "type expr", "ERR_NO_DOUBLE_UNARY": "unary twice",
    "ERR_UNEXPECTED_UNARY_EXPR": "unary", "ERR_REF_IDENT_ONLY": "reference", "ERR_MISSING_ASSIGNMENT": "assignment",
    "ERR_UNEXPECTED_COMMA": "comma", "ERR_CANNOT_DEREF": "dereference", "ERR_LOAD_MODULE": "module",
    "ERR_NO_REDEFINE_X_AS_Y": "redeclare",
}


def codes(P):
    for n, names in P.enums.items():
        if "ERR_UNEXPECTED_TOKEN" in names:
            return [c for c in names if c.startswith(("ERR_", "WARN_"))]
    raise AnalysisBroken("enumeration of diagnostics not found")


class Msg:
    """one analysis of fmt_message"""
    line, col = 12, 34

    def __init__(self, P, color):
        self.P = P
        m = base_models()
        m["uvsnprintf"] = text.m_format
        m["strdup"] = text.m_strdup
        m["c32stombs"] = self.m_conv
        m["token_to_mbs_str"] = self.m_conv
        self.out = []
        E = self.E = Engine(P, m)
        E.sym_iters = E.k_dist = 99
        st = self.st = State()
        cstr.install(E, st)
        E.models["strdup"] = text.m_strdup
        self.bd = ("p", "@BUILD_DATA", 0)
        E.put(st, self.bd, "BuildData", "color", color)
        E.put(st, self.bd, "BuildData", "filename", self.str("FILE"))
        E.models["vector_push"] = self.m_push
        E.models["make_vector"] = lambda E, st, a, i, f: ret(st, ("p", E.new_obj(st, "alloc", "vec", None, 0, None, "queue"), 0))

    def str(self, tag):
        return ("p", self.E.new_obj(self.st, "lazy", "harness", 64, "u", "#str", tag), 0)

    def m_conv(self, E, st, a, ins, fr):
        """the text of a token or of a UTF-32 string"""
        t = E.meta_tag(st, a[0])
        return ret(st, text.make(E, st, (("s", t),)))

    def m_push(self, E, st, a, ins, fr):
        t = text.parts(E, st, a[1])
        st.props["pushed"] = st.props.get("pushed", ()) + (t,)
        return ret(st)

    def messages(self, slots, loc):
        """an array of messages: kind of each slot and where the first is located"""
        P, E, st = self.P, self.E, self.st
        size = P.structs["Message"]["size"]
        o = E.new_obj(st, "lazy", "harness", size * 4, 0, None, "msgs")
        want = []
        for k, f in enumerate(slots):
            at = ("p", o, k * size)
            tag = "arg%d" % k
            if f == "var":
                v = E.obj(st, "Variable", tag + ".var")
                E.put(st, v, "Variable", "name", self.str(tag))
            elif f == "type":
                v = E.obj(st, "Type", tag + ".type")
                E.put(st, v, "Type", "name", self.str(tag))
            elif f == "i":
                E.put(st, at, "Message", "i", 8)
                want.append("7")
                continue
            elif f == "tok":
                v = E.obj(st, "Token", tag)
            else:
                v = self.str(tag)[1]
            E.put(st, at, "Message", f, ("p", v, 0))
            want.append(("s", tag))
            if f == "tok" and k == 0:
                loc = "tok"
                E.put(st, v, "Token", "location.line", ("p", "@LINE", 0))
                E.put(st, v, "Token", "location.column", ("p", "@COLUMN", 0))
        first = ("p", o, 0)
        if loc == "loc":
            l = E.obj(st, "Location", "loc")
            E.put(st, l, "Location", "line", self.line)
            E.put(st, l, "Location", "column", self.col)
            E.put(st, first, "Message", "loc", ("p", l, 0))
        elif loc == "tok":
            t = E.res(st, E.get(st, first, "Message", "tok"))
            if t == 0:
                t = ("p", E.obj(st, "Token", "at"), 0)
                E.put(st, first, "Message", "tok", t)
            E.put(st, t, "Token", "location.line", self.line)
            E.put(st, t, "Token", "location.column", self.col)
        return first, want, loc


def table(ctx, P):
    """what each code prints when its arguments are <arg0>, <arg1>, ...: {code: number of arguments}"""
    need = {}
    for code in codes(P):
        for n in range(4):
            M = Msg(P, 0)
            first, want, loc = M.messages(("str",) * n, None)
            outs = M.E.exec(M.st.fork(), P.func("fmt_message"), [P.enum("ERROR_FATAL"), P.enum(code), first])
            ctx.used(M.E)
            ctx.count("code_cases")
            ok = [o for o in outs if o.kind == "ret" and o.state.props.get("pushed")]
            if len(ok) == len(outs) and ok and "%s" not in text.show(ok[0].state.props["pushed"][0]):
                t = ok[0].state.props["pushed"][0]
                need[code] = sum(1 for k in range(3) if ("s", "arg%d" % k) in t)
                words = text.show(t).lower()
                for w in WORDS.get(code, "").split():
                    if w.lower() not in words:
                        ctx.violation("words:" + code, "%s prints `%s`, which does not mention \"%s\"" % (code, text.show(t).strip(), w))
                break
        else:
            ctx.violation("text:" + code, "%s has no usable message text" % code)
    return need


def shape(ctx, P, need):
    """prefix, position, arguments in order, end of line"""
    byneed = {}
    for c, n in need.items():
        byneed.setdefault(n, c)
    for n, code in sorted(byneed.items()):
        for slots in itertools.product(FIELDS, repeat=n) if n < 3 else [("str", "real", "str"), ("type", "tok", "i"), ("var", "str32", "tok")]:
            for kind in ("ERROR_FATAL", "ERROR_WARN"):
                for color in (0, 1):
                    for at, line, col in (("tok", 12, 34), ("loc", 12, 34), ("loc", 1, 1), ("tok", 1, 7), ("loc", 4000000000, 1), (None, 12, 34)):
                        if n > 1 and (line == 1 or line > 99):
                            continue
                        M = Msg(P, color)
                        M.line, M.col = line, col
                        first, want, loc = M.messages(slots, at)
                        if n == 0 and at == "tok":
                            continue            # a token is an argument as well
                        outs = M.E.exec(M.st.fork(), P.func("fmt_message"), [P.enum(kind), P.enum(code), first])
                        ctx.used(M.E)
                        ctx.count("message_cases")
                        what = "%s%s with arguments (%s)%s" % (
                            "error" if kind == "ERROR_FATAL" else "warning", " in colour" if color else "", ", ".join(slots),
                            " located by %s" % loc if loc else " without a position")
                        for o in outs:
                            if o.kind != "ret":
                                ctx.violation("shape:end", "%s: formatting ends in %s" % (what, o.kind))
                                continue
                            got = o.state.props.get("pushed", ())
                            if len(got) != 1:
                                ctx.violation("shape:count", "%s: %d messages are queued" % (what, len(got)))
                                continue
                            t = text.norm([ANSI.sub("", x) if isinstance(x, str) else x for x in got[0]])
                            body = need_text(ctx, P, code)
                            exp = [("s", "FILE"), ": Compilation error: " if kind == "ERROR_FATAL" else ": Warning: "]
                            if loc:
                                exp.append("line %d column %d: " % (M.line, M.col))
                            k = 0
                            for x in body:
                                if isinstance(x, str):
                                    exp.append(x)
                                else:
                                    exp.append(want[k])
                                    k += 1
                            exp.append("\n")
                            if t != text.norm(exp):
                                ctx.violation("shape:text", "%s prints `%s`, expected `%s`" % (
                                    what, text.show(t).strip(), text.show(text.norm(exp)).strip()))


def need_text(ctx, P, code):
    c = ctx.__dict__.setdefault("bodies", {})
    if code not in c:
        M = Msg(P, 0)
        n = ctx.need[code]
        first, want, loc = M.messages(("str",) * n, None)
        o = M.E.exec(M.st.fork(), P.func("fmt_message"), [P.enum("ERROR_FATAL"), P.enum(code), first])[0]
        t = o.state.props["pushed"][0]
        head = ": Compilation error: "
        if t[0] != ("s", "FILE") or not isinstance(t[1], str) or not t[1].startswith(head) or not str(t[-1]).endswith("\n"):
            raise AnalysisBroken("message of %s is `%s`" % (code, text.show(t)))
        b = [t[1][len(head):]] + list(t[2:])
        b[-1] = b[-1][:-1] if isinstance(b[-1], str) else b[-1]
        c[code] = text.norm(b)
    return c[code]






# ---------------------------------------------------------------- what is passed at the places that issue diagnostics
def origin(E, st, v, depth=4, width=8):
    """name of the place a pointer was found in, starting from an object the harness named"""
    o = v[1] if v[0] == "p" else None
    if o is not None and o in st.meta and isinstance(st.meta[o].tag, str):
        return st.meta[o].tag
    if depth == 0:
        return None
    for owner, cells in st.heap.items():
        m = st.meta.get(owner)
        if m is None or m.kind == "alloca" or owner == o or m.typ == "Message":
            continue
        for off, (size, x) in cells.items():
            if size != width:
                continue
            x = E.res(st, x)
            if not (x == v if o is None else type(x) is tuple and x[0] == "p" and x[1] == o and x[2] == 0):
                continue
            base = origin(E, st, ("p", owner, 0), depth - 1)
            if base is None:
                continue
            fs = E.p.fields_at(m.typ, off, width) if m.typ else ()
            return "%s.%s" % (base, "/".join(x["name"] for x in fs) if fs else off)
    return None


def field(E, st, at, f):
    """None: certainly absent; "?": perhaps absent; else what it holds"""
    v = E.res(st, E.get(st, at, "Message", f))
    if v == 0:
        return None
    if type(v) is int:
        return "%d" % v
    if type(v) is tuple and v[0] == "p":
        b = E.res(st, v)
        m = st.meta.get(b[1])
        if m is not None and isinstance(m.tag, str):
            return m.tag
        if f in ("str", "real"):
            t = text.parts(E, st, v)
            if all(isinstance(x, str) for x in t):
                return "'%s'" % "".join(t)
            if len(t) == 1 and t[0][0] == "s":
                return "text:" + t[0][1]
        if isinstance(b[1], str):
            return b[1]
        n = origin(E, st, b)
        if n is None and f == "loc":            # a copy: known by what its line was copied from
            x = E.res(st, E.get(st, b, "Location", "line"))
            n = origin(E, st, x, 4, 4) if type(x) is tuple and x[0] != "p" else None
        if n is None and f == "var":
            x = E.res(st, E.get(st, b, "Variable", "name"))
            n = "named " + field_str(E, st, x) if x != 0 else None
        return n or "+"
    c = E.con(st, v)
    nn = c is not None and (0 in c.ne or c.lo > 0)
    if nn and isinstance(c.tag, str):
        return c.tag
    n = origin(E, st, v)
    return n or ("+" if nn else "?")


def field_str(E, st, x):
    if type(x) is tuple and x[0] == "p" and x[1] in st.meta and isinstance(st.meta[x[1]].tag, str):
        return st.meta[x[1]].tag
    return str(type(x) is tuple and origin(E, st, x))


def record(E, st, kind, code, msgs, ins, fr):
    v = E.res(st, msgs)
    slots, loc = [], None
    size = E.p.structs["Message"]["size"]
    if type(v) is tuple and v[0] == "p" and v[2] is not None:
        m = st.meta[v[1]]
        for k in range(4):
            at = ("p", v[1], v[2] + k * size)
            if m.size is not None and at[2] + size > m.size:
                break
            fs = [(f, field(E, st, at, f)) for f in FIELDS]
            fs = [(f, x) for f, x in fs if x is not None]
            if k == 0:
                loc = field(E, st, at, "loc")
                if loc is None and fs and fs[0][0] == "tok" or any(f == "tok" for f, x in fs):
                    loc = [x for f, x in fs if f == "tok"][0]
            if not fs:
                break
            slots.append(fs[0] if fs[0][1] != "?" or len(fs) == 1 else next((x for x in fs if x[1] != "?"), fs[0]))
    st.props["diag"] = st.props.get("diag", ()) + ((kind, code, tuple(slots), loc, "%s:%s" % (fr.fn.src if fr else "?", ins.get("line"))),)



def ty(t):
    """a type descriptor as the harness names it"""
    return t[6:] if t.startswith("@TYPE_") else t


KEYWORD = {"if": "if", "elif": "elif", "else": "else", "while": "while", "namespace": "namespace"}
# statements whose own first token is the place of the error
OWN = {"ERR_BREAK_NOT_IN_WHILE", "ERR_CONTINUE_NOT_IN_WHILE", "ERR_ELSE_ELIF_MISSING_IF", "ERR_MISSING_BLOCK",
       "ERR_NO_DANGLING_EXPR", "ERR_RETURN_MISSING_EXPR", "ERR_REASSIGN_CONST", "ERR_NO_NESTED"}
COND = {"ERR_NON_BOOL_EXPR", "WARN_COND_ALWAYS_TRUE", "WARN_COND_ALWAYS_FALSE"}
# what is not tied to one place of the program
NOWHERE = {"ERR_EXPECTED_RETURN", "ERR_NO_VOID_RETURN", "ERR_POW_BAD_TYPE", "ERR_LOAD_MODULE", "WARN_TRIVIAL_TYPE",
           "ERR_EOF_NO_BRACKET", "WARN_FILE_EMPTY", "ERR_ILLEGAL_SEQ_AT", "WARN_NO_BOM", "ERR_ILLEGAL_SEQ"}
KINDWORD = {"SYMBOL_VAR": "variable", "SYMBOL_FUNC": "function", "SYMBOL_ALIAS": "alias", "SYMBOL_NAMESPACE": "namespace"}


def judge(P, need, key, d, facts):
    """-> what is wrong with one diagnostic, or None"""
    kind, code, slots, loc, at = d
    if type(code) is not int:
        return "its code is not determined"
    name = P.enum_name(ctx_enum(P), code)
    if name is None or name not in need:
        return "it has no message text"
    fatal = kind == P.enum("ERROR_FATAL")
    if fatal != name.startswith("ERR_"):
        return "%s is issued as %s" % (name, "an error" if fatal else "a warning")
    if len(slots) < need[name]:
        return "%s needs %d values in its text and gets %d" % (name, need[name], len(slots))
    if loc is None and name not in NOWHERE:
        return "%s has no position" % name
    n = need[name]
    vals = [x for f, x in slots[:n]]
    kinds = [f for f, x in slots[:n]]

    def bad(what, want):
        return "%s: %s, expected %s" % (name, what, want)
    if name in ("ERR_EXPECTED_SAME_TYPE", "ERR_FUNC_TYPE_MISMATCH"):
        if kinds != ["type", "type"]:
            return bad("its values are not two types", "the expected and the actual type")
        exp, got = ty(vals[0]), ty(vals[1])
        if exp == got and exp not in ("?", "+"):
            return bad("expected and actual type are the same", "different types")
        if "lt" in facts and not ((exp, got) == (facts["lt"], facts["rt"]) or exp == "BOOL" and got in (facts["lt"], facts["rt"])):
            return bad("reports expected %s, got %s" % (exp, got), "expected %s, got %s" % (facts["lt"], facts["rt"]))
        if facts.get("got") and got != facts["got"]:
            return bad("reports %s as the actual type" % got, "%s, the type of the value" % facts["got"])
        if facts.get("expected") and exp != facts["expected"]:
            return bad("reports %s as the expected type" % exp, facts["expected"])
    if key.startswith("expr:"):
        lhs = {"at:expr", "at:lhs", "of:expr", "of:lhs", "lhstok"} if "lt" in facts else {"at:expr", "at:rhs", "of:expr", "of:rhs", "rhstok"}
        rhs = {"at:rhs", "of:rhs", "rhstok"}
        if name == "ERR_POW_BAD_TYPE":
            if ty(vals[0]) not in (facts["lt"], facts["rt"]):
                return bad("names the type %s" % vals[0], "the type of an operand")
        elif name == "ERR_EXPECTED_SAME_TYPE" and "lt" in facts and vals[0] != "@TYPE_BOOL" or name in ("ERR_INVALID_EXPR", "ERR_DIV_BY_ZERO"):
            if loc not in rhs and not (name == "ERR_EXPECTED_SAME_TYPE" and exp == "BOOL" and loc in lhs):
                return bad("points at %s" % loc, "the right operand")
        elif name != "ERR_EXPECTED_SAME_TYPE" and loc not in lhs:
            return bad("points at %s" % loc, "the start of the expression")
        if name == "ERR_INVALID_EXPR" and vals[0] not in rhs:
            return bad("names %s" % vals[0], "the right operand")
    if key.startswith("stmt:") or key in ("block", "call"):
        k = key[5:].split("+")[0]
        called = {"call.func_name_tok", "n.expr.lhs.tok/lhs.expr/lhs.func_call.%d" % (P.field("AstNodeFunctionCall", "func_name_tok")[0] // 8)}
        value = {"n.expr.lhs.tok/lhs.expr/lhs.func_call", "of:n.expr", "at:n.expr"}
        want = None
        if name in OWN:
            want = {"n.name"}, "the statement itself"
        elif name == "ERR_UNEXPECTED_CODE_BLOCK":
            want = {"n.child.token"}, "the block"
        elif name in COND or name in ("ERR_EXPECTED_SAME_TYPE", "ERR_NON_INT_MAIN", "ERR_REDUNDANT_REASSIGN"):
            want = value, "the value"
        elif name in ("ERR_NO_VOID_ASSIGN", "ERR_INVALID_NUM_PARAMS", "ERR_MISSING_DECLARATION"):
            want = called, "the name of the function called"
        if want and loc not in want[0]:
            return bad("points at %s" % loc, want[1])
        if name == "ERR_FUNC_TYPE_MISMATCH":
            i = [x for x in range(9) if loc == "arg%d.token" % x]
            if not i or vals[0] != "named.func.param_types.%d" % (8 * i[0]):
                return bad("at %s, the expected type is %s" % (loc, vals[0]), "the type of the parameter the argument is for")
        if name == "ERR_MISSING_BLOCK" and k in KEYWORD and vals[0] != "'%s'" % KEYWORD[k]:
            return bad("names %s" % vals[0], "`%s`" % KEYWORD[k])
        if name.startswith("WARN_COND_ALWAYS") and facts.get("bool") is not None and facts["bool"] != name.endswith("TRUE"):
            return bad("reported", "the value the condition has")
        if name == "ERR_UNREACHABLE_CODE" and not loc.startswith("next"):
            return bad("points at %s" % loc, "the statement that is not reached")
        if name == "ERR_TYPE_NOT_FOUND" and not (vals[0] == loc and facts["ttt"].get(loc, 1) is None):
            return bad("names %s at %s" % (vals[0], loc), "the unknown type")
        if name == "ERR_UNEXPECTED_TOKEN" and not (vals[0] == loc and facts["ttt"].get(loc) == "VOID"):
            return bad("names %s at %s" % (vals[0], loc), "the type that cannot be used")
        if name in ("ERR_REASSIGN_CONST", "ERR_NO_NESTED", "ERR_NO_VOID_ASSIGN") and vals[0] not in ("n.name", "text:n.name"):
            return bad("names %s" % vals[0], "the declared name")
        if name in ("ERR_NON_INT_MAIN", "ERR_REDUNDANT_REASSIGN") and vals[0] not in value:
            return bad("names %s" % vals[0], "the value")
        if name == "ERR_MISSING_DECLARATION" and vals[0] not in called:
            return bad("names %s" % vals[0], "the function called")
        if name in ("ERR_EXPECTED_RETURN", "ERR_NO_VOID_RETURN") and vals[0] not in ("copy:text:n.name", "text:n.name", "n.name", "copy:cur.name", "cur.name"):
            return bad("names %s" % vals[0], "the function")
        if name == "ERR_SHADOW_VAR" and not (loc.split(".")[:2] == vals[0].split(":")[-1].split(".")[:2] and "param" in loc):
            return bad("names %s at %s" % (vals[0], loc), "the parameter")
        if name == "WARN_TRIVIAL_TYPE" and facts.get("got") and ty(vals[0]) != facts["got"]:
            return bad("names the type %s" % vals[0], "the type of the value")
        if k == "var_assign" and name == "ERR_EXPECTED_SAME_TYPE" and vals[0] != "foundvar.type":
            return bad("reports %s as the expected type" % vals[0], "the type of the variable")
    if key == "declare":
        if loc != "newsym":
            return bad("points at %s" % loc, "the new declaration")
        if "text:new" not in vals:
            return bad("does not name the symbol", "its name")
        w = KINDWORD[facts["new"]]
        if name == "ERR_NO_REDEFINE_X_AS_Y":
            if w not in vals[2]:
                return bad("says it is redeclared as %s" % vals[2], w)
            if vals[1] != "text:new":
                return bad("the name is not its second value", "the name")
            if w in vals[0] and facts["new"] not in ("SYMBOL_NAMESPACE", "SYMBOL_ALIAS"):
                return bad("says it was %s" % vals[0], "another kind")
        elif {"ERR_VAR_ALREADY_DEFINED": "SYMBOL_VAR", "ERR_ALIAS_ALREADY_DEFINED": "SYMBOL_ALIAS",
              "ERR_NO_REDEFINE_FUNC": "SYMBOL_FUNC"}.get(name) != facts["new"]:
            return bad("reported", "a message about a %s" % w)
    if key == "lookup" and name == "ERR_VAR_NOT_FOUND" and (vals[0] not in ("text:use", "use") or loc != "use"):
        return bad("names %s at %s" % (vals[0], loc), "the name looked up")
    if key == "unused":
        who = loc.split(".")[0]
        if vals[0] not in (who + ".var", who + ".sym.name"):
            return bad("names %s at %s" % (vals[0], loc), "the declaration it is about")
    return None


def ctx_enum(P):
    return next(n for n, names in P.enums.items() if "ERR_UNEXPECTED_TOKEN" in names)


def semantic(ctx, need):
    """everything the semantic analyser can say"""
    from sem import ALLT, truth
    from checks import diagnostics, operators as ops
    from checks.statements import keyof, runs
    P = ctx.P
    seen = 0

    def look(key, lab, E, st, facts):
        nonlocal seen
        for d in st.props.get("diag", ()):
            seen += 1
            w = judge(P, need, key, d, facts)
            if w:
                ctx.violation("site:%s:%s" % (key, w.split(":")[0][:60]), "%s, diagnostic issued at %s: %s" % (lab, d[4], w))
    for c in runs(ctx, *diagnostics.ALLSIT):
        for o in c.outs:
            if o.kind != "ret":
                continue
            facts = {"ttt": {k[1]: v for k, v in o.state.props.items() if type(k) is tuple and k[0] == "ttt"}}
            if getattr(c, "expr", None):
                facts["bool"] = truth(c.E, o.state, c.E.get(o.state, c.expr, "AstNodeExpr", "value._bool"))
            k = keyof(c).split("+")[0]
            t = c.etype(o.state) if k in ("return", "var_assign", "var_def") and getattr(c, "expr", None) else None
            if t:
                facts["got"] = t
            if k == "return" and c.cfg["func"] != "main":
                facts["expected"] = c.cfg["rtype"]
            look("stmt:" + keyof(c), c.label(), c.E, o.state, facts)
    for op in ops.SPEC:
        kind = ops.SPEC[op][0]
        for lt in ALLT:
            for rt in ALLT:
                if kind == "un" and lt != "INT":
                    continue
                for form in ops.rhs_forms(rt):
                    S, outs, e, l, r = ops.analyse(P, op, lt, rt, form)
                    ctx.used(S.E)
                    for o in outs:
                        if o.kind == "ret":
                            look("expr:" + op, "`%s`" % ops.label(op, kind, lt, rt), S.E, o.state, {"lt": lt, "rt": rt} if kind == "bin" else {})
    for key, lab, S, outs in diagnostics.leaves(ctx):
        ctx.used(S.E)
        for o in outs:
            if o.kind == "ret":
                f = {}
                if key == "declare":
                    s = next(x for x, m in o.state.meta.items() if m.tag == "newsym")
                    f["new"] = P.enum_name("SymbolType", S.E.res(o.state, S.E.get(o.state, s, "Symbol", "type")))
                look(key, lab, S.E, o.state, f)
    ctx.count("diagnostics_judged", seen)
    ctx.require(seen, "no diagnostic reached")


# what is wrong with a token list, and which of its tokens the message points at
WRONG = """
x: x ; | MISSING_ASSIGNMENT 0
x: & x ; | MISSING_ASSIGNMENT 0
x := ; | ASSIGN_MISSING_EXPR 2
x: x = ; | ASSIGN_MISSING_EXPR 3
mut x := ; | ASSIGN_MISSING_EXPR 3
x := 1 x ; | EXPECTED_NEWLINE 3
x: x = 1 x ; | EXPECTED_NEWLINE 4
x = ; | ASSIGN_MISSING_EXPR 2
x = if ; | ASSIGN_MISSING_EXPR 2
f ( x: x x: x ) { noop } | EXPECTED_COMMA 4
f ( x: x = x: x ) { noop } | EXPECTED_COMMA 4
f ( x: x , x: x x: x ) { noop } | EXPECTED_COMMA 7
f ( ) x noop | MISSING_OPEN_BRAK 3
return + x | UNEXPECTED_TOKEN 1
return x + ; | EXPECTED_EXPR 2
return x + x * ; | EXPECTED_EXPR 4
return x + if | EXPECTED_EXPR 2
return - - x | NO_DOUBLE_UNARY 2
return not not x | NO_DOUBLE_UNARY 2
return x + - - x | NO_DOUBLE_UNARY 4
return - ; | EXPECTED_EXPR 1
return - if | EXPECTED_EXPR 1
return x not x | UNEXPECTED_UNARY_EXPR 2
return x & x | UNEXPECTED_UNARY_EXPR 2
return x + x not x | UNEXPECTED_UNARY_EXPR 4
return ( x ; | MISSING_CLOSING_PAREN 1
return ( x + ( x + x ) ; | MISSING_CLOSING_PAREN 1
return ( x + ( x + x ; | MISSING_CLOSING_PAREN 4
return ( ) | INVALID_EXPR 1
return ( if ) | INVALID_EXPR 1
return f ( x ; | MISSING_CLOSING_PAREN 4
return f ( , ) | UNEXPECTED_COMMA 3
return f ( x x ) | EXPECTED_COMMA 4
return f ( x , x x ) | EXPECTED_COMMA 6
return f ( x , , x ) | UNEXPECTED_COMMA 5
f ( x ; | MISSING_CLOSING_PAREN 3
f ( , ) | UNEXPECTED_COMMA 2
if ; | INVALID_EXPR 1
if if | INVALID_EXPR 1
if x { } | EMPTY_BLOCK 3
while x { } | EMPTY_BLOCK 3
import 1 ; | IMPORT_IDENT 1
import ; | IMPORT_IDENT 1
external x ; | UNEXPECTED_TOKEN 0
export 1 ; | UNEXPECTED_TOKEN 0
mut x ; | UNEXPECTED_TOKEN 0
mut 1 ; | UNEXPECTED_TOKEN 0
namespace 1 ; | UNEXPECTED_TOKEN 1
+ ; | UNEXPECTED_TOKEN 0
?! ; | UNEXPECTED_TOKEN 0
"""


P_ = need_ = None


def work_wrong(job):
    from checks import parser
    row, before, after = job
    t, want = row.split("|")
    code, at = want.split()
    t = (before + " " + t + " " + after).strip()
    at = int(at) + len(before.split())
    E, toks, outs = parser.setup(P_, parser.tpl(t))
    bad = {}
    for o in outs:
        ds = o.state.props.get("diag", ())
        got = [(P_.enum_name(ctx_enum(P_), d[1]), d[3]) for d in ds] if o.kind == "ret" else o.kind
        if not ds or got[0] != ("ERR_" + code, "t%d" % at):
            bad["wrong/message/" + row.strip()] = "`%s`: reports %s, expected ERR_%s at token %d" % (t, got, code, at + 1)
        elif need_[got[0][0]] and ds[0][2][0][1] != "t%d" % at:
            bad["wrong/message/" + row.strip()] = "`%s`: names %s, expected token %d" % (t, ds[0][2][0][1], at + 1)
    return job, bad, len(outs), 1, E.stat_funcs, E.stat_calls, E.stat_blocks


class Only:
    """forwards only violations about diagnostics to a check"""

    def __init__(self, ctx):
        self.__dict__["c"] = ctx

    def __getattr__(self, n):
        return getattr(self.c, n)

    def __setattr__(self, n, v):
        setattr(self.c, n, v)

    def violation(self, k, t):
        if "/message/" in k:
            self.c.violation(k, t)


def front(ctx, need):
    """everything the parser and the evaluation of literals can say"""
    import absint
    from checks import lexer, parser, words
    P = ctx.P

    def hook(key):
        def h(E, st, kind, code, msgs, ins, fr):
            record(E, st, kind, code, msgs, ins, fr)
            d = st.props.pop("diag")[-1]
            w = judge(P, need, key, d, {})
            if not w and any(x == "?" for f, x in d[2][:need[P.enum_name(ctx_enum(P), d[1])]]):
                w = "a value of its text may be missing"
            if w:
                E.report(("message", d[4].split(":")[0] + "/" + w.split(":")[0][:50], ""), fr, ins, w)
        return staticmethod(h)
    global P_, need_
    P_, need_ = P, need
    o = Only(ctx)
    absint.Engine.diag_hook = staticmethod(record)
    lexer.pool_run(o, work_wrong, [(r, b, a) for r in WRONG.strip().split("\n") for b, a in (("", ""), ("noop ; x := 1 ;", "; noop ;"), ("if x { noop ;", "} ; noop"))], "rejected_programs")
    absint.Engine.diag_hook = hook("parse")
    kinds = [n[len(parser.T):] for n in P.enums["TokenType"]]
    jobs = [(None,), (None, None)] + [(k, None, None) for k in kinds]
    for s in parser.CUTS:
        t = parser.tpl(s)
        for n in range(1, len(t) + 1):
            jobs.append(t[:n] + (None,))
    parser.run(o, parser.uniq(jobs), "safe")
    absint.Engine.diag_hook = hook("literal")
    lexer.pool_run(o, words.work_lit, words.lit_jobs(False), "literals")
    absint.Engine.diag_hook = None


def leftmost(ctx):
    """an expression is reported at one of its own tokens"""
    from sem import Sem
    from checks.operators import LEAF, SPEC
    P = ctx.P
    for op in P.enums["ExprType"]:
        if op == "EXPR_UNKNOWN":
            continue
        for fn in ("find_expr_node_token", "find_expr_node_location"):
            S = Sem(P)
            E, st = S.E, S.st
            for n in ("find_expr_node_token", "find_expr_node_location"):
                E.models.pop(n)
            E.rec_limit["*"] = 4

            def leaf(tag):
                return S.ptr(S.new("AstNodeExpr", tag, oper=P.enum("EXPR_IDENTIFIER"), lhs__tok=S.ptr(S.new("Token", tag + ".tok"))))
            e = S.new("AstNodeExpr", "e", oper=P.enum(op), rhs=0)
            own = {"e.tok"}
            if op in ("EXPR_CONST", "EXPR_IDENTIFIER"):
                E.put(st, e, "AstNodeExpr", "lhs.tok", S.ptr(S.new("Token", "e.tok")))
            elif op == "EXPR_FUNC":
                E.put(st, e, "AstNodeExpr", "lhs.func_call", S.ptr(S.new("AstNodeFunctionCall", "call", func_name_tok=S.ptr(S.new("Token", "e.tok")), params=0)))
            else:
                own = {"r.tok"} if SPEC[op][0] != "bin" else set()
                E.put(st, e, "AstNodeExpr", "rhs", leaf("r"))
                if SPEC[op][0] == "bin":
                    E.put(st, e, "AstNodeExpr", "lhs.expr", leaf("l"))
                    own.add("l.tok")
                else:
                    E.put(st, e, "AstNodeExpr", "lhs.expr", 0)
            for o in S.run(P.func(fn), [S.ptr(e)]):
                ctx.used(E)
                ctx.count("expression_places")
                got = E.meta_tag(o.state, o.ret) if o.kind == "ret" else o.kind
                if got not in own:
                    ctx.violation("place:" + op, "%s of a %s expression gives %s, expected one of its tokens" % (fn, op[5:], got))


def queue(ctx):
    """what is queued is printed, once and in order"""
    P = ctx.P
    for n in (0, 1, 2, 3):
        for quiet in (0, 1):
            m = base_models()
            E = Engine(P, m)
            E.sym_iters = E.k_dist = 99
            st = State()
            cstr.install(E, st)
            E.put(st, ("p", "@BUILD_DATA", 0), "BuildData", "quiet", quiet)

            def out(nm, fmtat, strm):
                def f(E, st, a, ins, fr):
                    if nm == "fprintf":
                        fmt = text.literal(E, st, a[1])
                        t = text.render(E, st, fmt, a[2:]) if fmt is not None else (("s?", "unknown format"),)
                    else:
                        t = text.parts(E, st, a[fmtat])
                    st.props["printed"] = st.props.get("printed", ()) + ((t, E.res(st, a[strm])),)
                    return ret(st, 1) if "id" in ins else ret(st)
                return f
            for nm, fa, sa in (("fprintf", 1, 0), ("fputs", 0, 1)):
                E.models[nm] = out(nm, fa, sa)
            vals = [text.make(E, st, (("s", "message %d" % k),), "harness") for k in range(n)]
            q = E.exec(st, P.func("make_vector"), [])
            st = q[0].state
            vec = q[0].ret
            for v in vals:
                r = E.exec(st, P.func("vector_push"), [vec, v])
                st = r[0].state
            if "error_msgs" not in P.globals:
                raise AnalysisBroken("queue of messages not found")
            E.gobj(st, "error_msgs")
            E.store_cell(st, "@error_msgs", 0, 8, vec)
            for o in E.exec(st.fork(), P.func("write_and_free_errors"), []):
                ctx.used(E)
                ctx.count("queue_cases")
                got = [x[0] for x in o.state.props.get("printed", ())]
                want = [(("s", "message %d" % k),) for k in range(n)]
                if o.kind != "ret":
                    ctx.violation("queue:end", "printing %d messages ends in %s" % (n, o.kind))
                elif got != want and not quiet:
                    ctx.violation("queue:print", "%d queued messages are printed as %s" % (n, [text.show(t) for t in got]))
                elif quiet and got:
                    ctx.violation("queue:quiet", "messages are printed although -q was given")
                if o.kind == "ret" and E.res(o.state, E.load_cell(o.state, "@error_msgs", 0, 8)) != 0:
                    ctx.violation("queue:again", "messages stay queued after they were printed")


def messages(ctx):
    """diagnostics are complete, placed and worded for what happened"""
    import absint
    P = ctx.P
    ctx.rule = ("fmt_message is analysed for every code, severity, colour setting, kind of value and kind of position: prefix, position, text with its values in order, newline. Every diagnostic on every "
                "analysed path of the parser, literal evaluation and semantic analyser must carry as many values as its text has places, a position unless it belongs to no place, the severity of its code, "
                "expected/actual types in that order, and the name and place of the construct it is about; the queue is printed once and in order")
    need = ctx.need = table(ctx, P)
    shape(ctx, P, need)
    queue(ctx)
    leftmost(ctx)
    absint.Engine.diag_hook = staticmethod(record)
    semantic(ctx, need)
    front(ctx, need)


CHECKS = {"C24": messages}
