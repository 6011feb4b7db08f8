"""Contracts for lib/field.c: values of the three types and their conversions."""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
from strs import *
from stringy import CS, MAXS
import util as U_
from builtins_c import num_end, num_val, num_inrange, flt_val
import stringview

FILE = ["lib/field.c", "util/util.c", "util/stringview.c", "util/stringy.c", "util/vec.c"]
DEPS = ["util", "stringview", "stringy"]
UNDEF, INT_, FLOAT_, STRING_ = -1, 0, 1, 2
FAIL, NULL_, GOOD = -5, -1, 0
TYPES = {"INT": 0, "FLOAT": 1, "STRING": 2}


@contract
class field_determine_type(Contract):
    name = "field_determine_type"
    props = ("C17",)

    def setup(self, c, st):
        a, b = c.ex.fresh_iv(st, 32, "t0", True), c.ex.fresh_iv(st, 32, "t1", True)
        return [a, b]

    def pre(self, c):
        a, b = (c.ex.S(c.old, x) for x in c.args)
        return [("two types", And(a >= 0, a <= 2, b >= 0, b <= 2))]

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "type", True)

    def post(self, c):
        a, b = (c.ex.S(c.old, x) for x in c.args)
        r = c.ex.S(c.new, c.ret)
        return [("the higher type: string below integer below float", r == higher(a, b))]


def higher(a, b):
    rank = lambda t: z3.If(t == STRING_, I(0), z3.If(t == INT_, I(1), I(2)))
    return z3.If(rank(a) >= rank(b), a, b)


@lemma
def the_higher_type_does_not_depend_on_order():
    a, b, d = z3.Ints("a b d")
    h = [And(x >= 0, x <= 2) for x in (a, b, d)]
    return [("commutative", h, higher(a, b) == higher(b, a)), ("associative", h, higher(a, higher(b, d)) == higher(higher(a, b), d)),
            ("one of the two", h, Or(higher(a, b) == a, higher(a, b) == b)), ("equal types stay", h, higher(a, a) == a),
            ("text only for two texts", h, Imp(higher(a, b) == STRING_, And(a == STRING_, b == STRING_))),
            ("float if either is", h, Imp(Or(a == FLOAT_, b == FLOAT_), higher(a, b) == FLOAT_))]


field_determine_type.lemmas = ("the_higher_type_does_not_depend_on_order",)


def mk_field(c, st, t, s=None):
    """a union field holding a value of type t"""
    r = c.ex.new_region(st, "cell", "field", size=8)
    if t == INT_:
        r.cells[0] = (8, c.ex.fresh_iv(st, 64, "value", True))
    elif t == FLOAT_:
        r.cells[0] = (8, FV(z3.Const(fresh_name("value"), FS)))
    elif t == STRING_:
        r.cells[0] = (8, s if s is not None else mk_str(c, st, "s", ro=True, heap=True, text=True))
    else:
        r.cells[0] = (8, c.ex.fresh_iv(st, 64, "value", True))
    return PV(r.rid)


class Conv(Contract):
    props = ("C16", "C17")
    cases = [(k, {"t": v}) for k, v in TYPES.items()] + [("no type", {"t": None})]
    inline = True

    def setup(self, c, st):
        t = c.case["t"]
        r = c.ex.new_region(st, "cell", "ret", size=8)
        ty = c.ex.new_region(st, "cell", "type", size=4)
        if t is None:
            v = c.ex.fresh_iv(st, 32, "type", True)
            s = c.ex.S(st, v)
            st.assume(Or(s < 0, s > 2))
        else:
            v = IV(32, t)
        ty.cells[0] = (4, v)
        return [PV(r.rid), mk_field(c, st, t), PV(ty.rid)]

    def fval(self, st, p):
        v = st.regions[p.rid].cells.get(p.off.const())
        return v[1] if v else IV(64, z3.Int(fresh_name("unset")))

    def effect(self, c):
        st = c.new
        for i, n in ((0, 8), (1, 8), (2, 4)):
            r = st.regions[c.args[i].rid]
            r.cells[0] = (n, c.ex.fresh_iv(st, 8 * n, "out"))
        return c.ex.fresh_iv(st, 32, "rc", True)

    def post(self, c):
        t = c.case["t"]
        rc = c.ex.S(c.new, c.ret)
        if t is None:
            return [("a value without type fails", rc == FAIL)]
        v0 = self.fval(c.old, c.args[1])
        out, v1, ty = self.fval(c.new, c.args[0]), self.fval(c.new, c.args[1]), c.ex.S(c.new, self.fval(c.new, c.args[2]))
        ok, want = self.want(c, t, v0)
        same = self.same
        return [("succeeds exactly when convertible", And((rc == GOOD) == ok, Or(rc == GOOD, rc == FAIL))), ("yields the converted value", Imp(ok, same(c, out, want))),
                ("the value itself is converted", Imp(ok, same(c, v1, want))), ("its type is the new type", Imp(ok, ty == self.to)),
                ("a value that cannot be converted keeps its type and value", Imp(Not(ok), And(ty == t, c.peq(v1, v0) if isinstance(v0, PV) and isinstance(v1, PV) else z3.BoolVal(t != STRING_))))]

    def strval(self, c, v0, base):
        s = Str(c, c.old, v0)
        A = s.r.fields[0][2].z3(c.new.hyps)
        b = base(s)
        return And(num_end(A, I(0), b) == s.size, num_inrange(A, I(0), b)), A, b


@contract
class field_to_int(Conv):
    name = "field_to_int"
    to = INT_

    def same(self, c, v, w):
        return c.ex.S(c.new, v) == w if isinstance(v, IV) else z3.BoolVal(False)

    def want(self, c, t, v0):
        if t == INT_:
            return z3.BoolVal(True), c.ex.S(c.old, v0)
        if t == FLOAT_:
            return z3.BoolVal(True), uf("f2i_s64", FS, INT)(v0.t)
        ok, A, b = self.strval(c, v0, lambda s: z3.If(And(s.at(0) == 48, s.at(1) == 120), I(16), I(10)))
        return ok, num_val(A, I(0), b)


@contract
class field_to_float(Conv):
    name = "field_to_float"
    to = FLOAT_

    def same(self, c, v, w):
        return v.t == w if isinstance(v, FV) else z3.BoolVal(False)

    def want(self, c, t, v0):
        if t == INT_:
            return z3.BoolVal(True), uf("i2f", INT, FS)(c.ex.S(c.old, v0))
        if t == FLOAT_:
            return z3.BoolVal(True), v0.t
        ok, A, b = self.strval(c, v0, lambda s: I(-1))
        return ok, flt_val(A, I(0))


class ToText(Contract):
    props = ("C17",)
    cases = [(k, {"t": v}) for k, v in TYPES.items()] + [("no type", {"t": None})]
    inline = True
    limited = False

    def setup(self, c, st):
        t = c.case["t"]
        r = c.ex.new_region(st, "cell", "ret", size=c.ex.prog.sizeof("stringview"))
        dest = mk_str(c, st, "dest", heap=True)
        ty = c.ex.new_region(st, "cell", "type", size=4)
        if t is None:
            v = c.ex.fresh_iv(st, 32, "type", True)
            s = c.ex.S(st, v)
            st.assume(Or(s < 0, s > 2))
        else:
            v = IV(32, t)
        ty.cells[0] = (4, v)
        f = mk_field(c, st, t, dest)       # a text is already in dest
        return [PV(r.rid), dest, f, PV(ty.rid)] + ([c.ex.fresh_iv(st, 32, "limit")] if self.limited else [])

    def pre(self, c):
        s = Str(c, c.old, c.args[1])
        return s.oks("dest: ") + [("text below 4 GB", s.size < 2 ** 32)]

    def effect(self, c):
        st = c.new
        V = __import__("vec")
        V.havoc_contents(c, st, c.args[1])
        V.replace_data(c, st, c.args[1])
        c.havoc_int(st, c.args[1], "vec", "_alloc")
        c.havoc_int(st, c.args[1], "vec", "size")
        c.set(st, c.args[0], "stringview", "data", c.get(st, c.args[1], "vec", "data"))
        c.havoc_int(st, c.args[0], "stringview", "len")
        for i, n in ((2, 8), (3, 4)):
            r = st.regions[c.args[i].rid]
            r.cells[0] = (n, c.ex.fresh_iv(st, 8 * n, "out"))
        return c.ex.fresh_iv(st, 32, "rc", True)

    def post(self, c):
        t = c.case["t"]
        rc = c.ex.S(c.new, c.ret)
        if t is None:
            return [("a value without type fails", rc == FAIL)]
        o, n = Str(c, c.old, c.args[1]), Str(c, c.new, c.args[1])
        v0 = c.old.regions[c.args[2].rid].cells[0][1]
        v1 = c.new.regions[c.args[2].rid].cells[0][1]
        ty = c.ex.S(c.new, c.new.regions[c.args[3].rid].cells[0][1])
        lim = c.ex.U(c.old, c.args[4]) if self.limited else None
        cut = lambda L: z3.If(L > lim, lim, L) if self.limited else L
        out = [("succeeds", rc == GOOD), ("its type is text", ty == STRING_), ("the value is the text", c.peq(v1, c.args[1]))] + n.oks("text still valid: ")
        if t == STRING_:
            L = cut(o.size)
            out += [("length", n.size == L), ("bytes of the text", forall(0, L, lambda j: n.at(j) == o.at(j)))]
        else:
            L, txt, args = fmt_of(c)
            if L is None:
                return out + [("formatted", z3.BoolVal(False))]
            fm = {INT_: ("%ld", "%li"), FLOAT_: ("%lf", "%f", "%F")}[t]
            good = args is not None and args[0] in fm and len(args) == 2
            out += [("formatted as %s" % fm[0], z3.BoolVal(good))]
            if good:
                out += [("of this value", c.ex.S(c.new, args[1]) == c.ex.S(c.old, v0) if t == INT_ else (args[1].t == v0.t if isinstance(args[1], FV) else z3.BoolVal(False)))]
            out += [("length", n.size == cut(L)), ("bytes of the formatted number", forall(0, cut(L), lambda j: n.at(j) == txt.get(j)))]
        out += [("view of the text", And(c.peq(c.get(c.new, c.args[0], "stringview", "data"), n.data), c.u(c.new, c.args[0], "stringview", "len") == n.size))]
        return out


def fmt_of(c):
    L = txt = args = None
    for k, v in c.new.ghost.items():
        if isinstance(k, tuple) and k[0] == "fmt":
            L, txt, args = v
    return L, txt, args


@contract
class field_to_stringview(ToText):
    name = "field_to_stringview"


@contract
class field_to_stringview_limited(ToText):
    name = "field_to_stringview_limited"
    limited = True


@contract
class field_description(Contract):
    name = "field_description"
    inline = True
    props = ("C17",)

    def setup(self, c, st):
        return [c.ex.fresh_iv(st, 32, "type", True)]

    def effect(self, c):
        return NULL

    def post(self, c):
        if not isinstance(c.ret, PV) or c.ret.rid is None:
            return [("returns a text", z3.BoolVal(False))]
        t = Txt(c, c.new, c.ret)
        ty = c.ex.S(c.old, c.args[0])
        eq = lambda w: And(*[t.at(i) == b for i, b in enumerate(w.encode() + b"\0")])
        return [("name of the type", And(Imp(ty == 0, eq("INT")), Imp(ty == 1, eq("FLOAT")), Imp(ty == 2, eq("STRING")), Imp(Or(ty < 0, ty > 2), eq("<unknown>"))))]
