"""Contracts for util/util.c: text helpers."""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
from strs import *
from stringy import CS, cs_arg, MAXS
import strs
import builtins_c
from builtins_c import low, num_end, num_val, num_inrange, flt_val

FILE = ["util/util.c", "util/stringy.c", "util/vec.c"]
DEPS = ["stringy"]


# ------------------------------------------------------------ numbers (C16)
class Num(Contract):
    props = ("C16",)

    def setup(self, c, st):
        r = c.ex.new_region(st, "cell", "ret", size=8)
        return [PV(r.rid), cs_arg(c, st)] + self.more(c, st)

    def more(self, c, st):
        return []

    def pre(self, c):
        return CS(c, c.args[1]).ok("text: ")

    def base(self, c, t):
        return I(10)

    def val(self, A, k, b):
        return num_val(A, k, b)

    def effect(self, c):
        st = c.new
        t = CS(c, c.args[1])
        A = t.arr.z3(st.hyps)
        self.store(c, st, A, t.k, self.base(c, t))
        return c.ex.fresh_iv(st, 32, "failed", True)

    def store(self, c, st, A, k, b):
        v = num_val(A, k, b)
        st.assume(And(v >= -2 ** 63, v < 2 ** 63))
        c.ex.store_cell(st, st.regions[c.args[0].rid], c.args[0].off.const(), 8, IV(64, v, s=True))

    def stored(self, c):
        r = c.new.regions[c.args[0].rid]
        return c.ex.S(c.new, r.cells[c.args[0].off.const()][1])

    def post(self, c):
        t = CS(c, c.args[1])
        if c.mode == "call":
            c.new.assume(t.define())
        A = t.arr.z3(c.new.hyps)
        b = self.base(c, t)
        whole = And(num_end(A, t.k, b) == t.len, num_inrange(A, t.k, b))
        r = c.ex.S(c.new, c.ret)
        return [("succeeds exactly when the whole text is a number in range", (r == 0) == whole),
                ("yields that number", Imp(r == 0, self.stored(c) == self.val(A, t.k, b)))]


@contract
class str2longbase(Num):
    name = "str2longbase"

    def more(self, c, st):
        return [c.ex.fresh_iv(st, 32, "base", True)]

    def base(self, c, t):
        return c.ex.S(c.old, c.args[2])


@contract
class str2long10(Num):
    name = "str2long10"


@contract
class str2long(Num):
    name = "str2long"

    def base(self, c, t):
        return z3.If(And(t.at(0) == 48, t.at(1) == 120), I(16), I(10))


@contract
class str2double(Num):
    name = "str2double"

    def base(self, c, t):
        return I(-1)

    def val(self, A, k, b):
        return flt_val(A, k)

    def store(self, c, st, A, k, b):
        c.ex.store_cell(st, st.regions[c.args[0].rid], c.args[0].off.const(), 8, FV(flt_val(A, k)))

    def stored(self, c):
        v = c.new.regions[c.args[0].rid].cells[c.args[0].off.const()][1]
        return v.t if isinstance(v, FV) else z3.Const(fresh_name("notfloat"), flt_val(z3.Const("A", IA), I(0)).sort())


# ------------------------------------------------------------ characters (C29)
def CNT(A, k, ch, i):
    """how many of A[k..k+i) equal ch"""
    return uf("cnt", IA, INTS, INTS, INTS, INTS)(A, k, ch, i)


def cnt_step(A, k, ch, i):
    return CNT(A, k, ch, i + 1) == CNT(A, k, ch, i) + z3.If(z3.Select(A, k + i) == ch, I(1), I(0))


class Count(Contract):
    props = ("C29",)

    def setup(self, c, st):
        return [cs_arg(c, st), c.ex.fresh_iv(st, 8, "ch")]

    def lim(self, c, t):
        return t.len

    def pre(self, c):
        t = CS(c, c.args[0])
        return t.ok("text: ") + [("text below 2 GB", t.len < MAXS)]

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "count", True)

    def post(self, c):
        t = CS(c, c.args[0])
        A = t.arr.z3(c.new.hyps)
        ch = c.ex.U(c.old, c.args[1])
        c.new.assume(CNT(A, t.k, ch, I(0)) == 0)
        return [("number of equal characters", c.ex.S(c.new, c.ret) == CNT(A, t.k, ch, self.lim(c, t)))]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            t = CS(c, c.args[0])
            A = t.arr.z3(lp.st.hyps)
            ch = c.ex.U(c.old, c.args[1])
            i = lp.K
            n = self.lim(c, t)
            lp.st.assume(CNT(A, t.k, ch, I(0)) == 0, cnt_step(A, t.k, ch, i))
            return [("counted so far", And(i >= 0, i <= n, *[lp.ex.S(lp.st, v) == i if v is not cnt else lp.ex.S(lp.st, v) == CNT(A, t.k, ch, i) for cnt in [lp.val("count")] for v in lp.ints(32)])),
                    ("count bounded", And(CNT(A, t.k, ch, i) >= 0, CNT(A, t.k, ch, i) <= i)), ("variant", n - i)]
        return [l0]


@contract
class charcount(Count):
    name = "charcount"


@contract
class charncount(Count):
    name = "charncount"

    def setup(self, c, st):
        r, a = mk_bytes(c, st, "text")
        n = c.ex.fresh_iv(st, 32, "n")
        u = c.ex.U(st, n)
        m = z3.Int(fresh_name("tlen"))
        c.aux["tlen"] = m
        st.assume(And(m >= 0, m <= u, m <= r.count, Or(m == u, And(m < r.count, a.get(m) == 0))), forall(0, m, lambda i: a.get(i) != 0))
        return [PV(r.rid), c.ex.fresh_iv(st, 8, "ch"), n]

    def pre(self, c):
        return [("text below 2 GB", c.aux["tlen"] < MAXS)]

    def post(self, c):
        t = Txt(c, c.old, c.args[0])
        A = t.arr.z3(c.new.hyps)
        ch = c.ex.U(c.old, c.args[1])
        c.new.assume(CNT(A, t.k, ch, I(0)) == 0)
        return [("number of equal characters within the limit", c.ex.S(c.new, c.ret) == CNT(A, t.k, ch, c.aux["tlen"]))]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            t = Txt(c, c.old, c.args[0])
            A = t.arr.z3(lp.st.hyps)
            ch = c.ex.U(c.old, c.args[1])
            i, n = lp.K, c.aux["tlen"]
            cnt = lp.val("count")
            lp.st.assume(CNT(A, t.k, ch, I(0)) == 0, cnt_step(A, t.k, ch, i))
            return [("counted so far", And(i >= 0, i <= n, *[(lp.ex.S(lp.st, v) == CNT(A, t.k, ch, i)) if v is cnt else lp.ex.U(lp.st, v) == i for v in lp.ints(32)])),
                    ("count bounded", And(CNT(A, t.k, ch, i) >= 0, CNT(A, t.k, ch, i) <= i)), ("variant", n - i)]
        return [l0]


@contract
class strhaschar(Contract):
    name = "strhaschar"
    props = ("C29",)

    def setup(self, c, st):
        return [cs_arg(c, st), c.ex.fresh_iv(st, 8, "ch")]

    def pre(self, c):
        t = CS(c, c.args[0])
        return t.ok("text: ") + [("text below 2 GB", t.len < MAXS)]

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "has", True)

    def post(self, c):
        t = CS(c, c.args[0])
        if c.mode == "call":
            c.new.assume(t.define())
        ch = c.ex.U(c.old, c.args[1])
        r = c.ex.S(c.new, c.ret)
        w = c.aux.setdefault("w", fint("where"))
        if c.mode == "call":
            c.new.assume(Imp(r != 0, And(w >= 0, w < t.len, t.at(w) == ch)))
            return [("no such character", Imp(r == 0, forall(0, t.len, lambda j: t.at(j) != ch)))]
        return [("0 only if there is none", Imp(r == 0, forall(0, t.len, lambda j: t.at(j) != ch))),
                ("nonzero only if there is one", Imp(r != 0, z3.Exists([w], And(w >= 0, w < t.len, t.at(w) == ch))))]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            t = CS(c, c.args[0])
            ch = c.ex.U(c.old, c.args[1])
            i = lp.K
            return [("none so far", And(i >= 0, i <= t.len, forall(0, i, lambda j: t.at(j) != ch), *[lp.ex.S(lp.st, v) == i for v in lp.ints(32)])), ("variant", t.len - i)]
        return [l0]


@contract
class removecharat(Contract):
    name = "removecharat"
    props = ("C29",)

    def setup(self, c, st):
        p, a, L = mk_cstr(c, st, "text", ro=False)
        return [p, c.ex.fresh_iv(st, 32, "i", True)]

    def pre(self, c):
        t = CS(c, c.args[0])
        i = c.ex.S(c.old, c.args[1])
        return t.ok("text: ") + [("text below 2 GB", t.len < MAXS - 1), ("position within the text", And(i >= 0, i <= t.len))]

    def effect(self, c):
        V = __import__("vec")
        r = c.new.regions[c.args[0].rid]
        r.fields[0] = (1, "int", Base("removed"))

    def post(self, c):
        o, n = CS(c, c.args[0]), Txt(c, c.new, c.args[0])
        i = c.ex.S(c.old, c.args[1])
        L = o.len
        return [("before the position unchanged", forall(0, i, lambda j: n.at(j) == o.at(j))),
                ("after it moved down by one", forall(i, L, lambda j: n.at(j) == o.at(j + 1))),
                ("still terminated", n.at(L) == 0), ("rest unchanged", forall(L + 1, o.r.count, lambda j: n.at(j) == o.at(j)))]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            o, n = CS(c, c.args[0]), Txt(c, lp.st, c.args[0])
            i0 = c.ex.S(c.old, c.args[1])
            i = i0 + lp.K
            return [("position", And(lp.K >= 0, i <= o.len, *[lp.ex.S(lp.st, v) == i for v in lp.ints(32)])),
                    ("before unchanged", forall(0, i0, lambda j: n.at(j) == o.at(j))),
                    ("moved so far", forall(i0, i, lambda j: n.at(j) == o.at(j + 1))),
                    ("rest unchanged", forall(i, o.r.count, lambda j: n.at(j) == o.at(j))), ("variant", o.len - i)]
        return [l0]


def alnum(x):
    return Or(And(x >= 48, x <= 57), And(x >= 65, x <= 90), And(x >= 97, x <= 122))


@contract
class randstr(Contract):
    name = "randstr"
    props = ("C29",)

    def setup(self, c, st):
        r, a = mk_bytes(c, st, "dest", ro=False)
        return [PV(r.rid), c.ex.fresh_iv(st, 32, "len", True)]

    def pre(self, c):
        t = Txt(c, c.old, c.args[0])
        n = c.ex.S(c.old, c.args[1])
        return [("room for the text and its terminator", And(n >= 0, t.k >= 0, t.k + n + 1 <= t.r.count))]

    def effect(self, c):
        c.new.regions[c.args[0].rid].fields[0] = (1, "int", Base("random"))
        return c.args[0]

    def post(self, c):
        o, n = Txt(c, c.old, c.args[0]), Txt(c, c.new, c.args[0])
        L = c.ex.S(c.old, c.args[1])
        return [("alphanumeric", forall(0, L, lambda j: alnum(n.at(j)))), ("terminated", n.at(L) == 0),
                ("rest unchanged", forall(o.k + L + 1, o.r.count, lambda j: n.arr.get(j) == o.arr.get(j))), ("returns the buffer", c.peq(c.ret, c.args[0]))]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            o, n = Txt(c, c.old, c.args[0]), Txt(c, lp.st, c.args[0])
            L = c.ex.S(c.old, c.args[1])
            i = lp.K
            return [("position", And(i >= 0, i <= L, *[lp.ex.S(lp.st, v) == i for v in lp.ints(32)])),
                    ("alphanumeric so far", forall(0, i, lambda j: alnum(n.at(j)))),
                    ("rest unchanged", forall(i, o.r.count, lambda j: n.at(j) == o.at(j))), ("variant", L - i)]
        return [l0]


@contract
class string_to_lower(Contract):
    name = "string_to_lower"
    props = ("C29",)

    def setup(self, c, st):
        p, a, L = mk_cstr(c, st, "text", ro=False)
        return [p]

    def pre(self, c):
        return CS(c, c.args[0]).ok("text: ")

    def effect(self, c):
        c.new.regions[c.args[0].rid].fields[0] = (1, "int", Base("lowered"))

    def post(self, c):
        o, n = CS(c, c.args[0]), Txt(c, c.new, c.args[0])
        return [("each letter lower-cased", forall(0, o.len, lambda j: n.at(j) == low(o.at(j)))),
                ("rest unchanged", forall(o.len, o.r.count, lambda j: n.at(j) == o.at(j)))]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            o, n = CS(c, c.args[0]), Txt(c, lp.st, c.args[0])
            i = lp.K
            ps = [Txt(c, lp.st, p).k == o.k + i for p in lp.ptrs(c.args[0].rid)]
            return [("position", And(i >= 0, i <= o.len, *ps)), ("lowered so far", forall(0, i, lambda j: n.at(j) == low(o.at(j)))),
                    ("rest unchanged", forall(i, o.r.count, lambda j: n.at(j) == o.at(j))), ("variant", o.len - i)]
        return [l0]


def lastpos(c, st, t, ch, key):
    """position of the last ch in text t, or -1 (definition)"""
    d = c.aux.get(key)
    if d is None:
        d = c.aux[key] = fint(key)
        st.assume(And(d >= -1, d < t.len, Imp(d >= 0, t.at(d) == ch)), forall(0, t.len, lambda j: Imp(j > d, t.at(j) != ch), pats=lambda j: t.at(j)))
    return d


@contract
class getnoext(Contract):
    name = "getnoext"
    props = ("C29",)
    cases = [("", {}), ("no file name", {"null": 1})]

    def setup(self, c, st):
        r, a = mk_bytes(c, st, "dest", ro=False)
        return [PV(r.rid), NULL if c.case.get("null") else cs_arg(c, st)]

    def pre(self, c):
        d = Txt(c, c.old, c.args[0])
        if c.args[1].rid is None:
            return [("room", And(d.k >= 0, d.k < d.r.count))]
        t = CS(c, c.args[1])
        return t.ok("file name: ") + [("room for the file name", And(d.k >= 0, d.k + t.len < d.r.count)), ("buffers differ", z3.BoolVal(d.r.rid != t.r.rid))]

    def effect(self, c):
        r = c.new.regions[c.args[0].rid]
        r.fields[0] = (1, "int", Base("noext"))
        r.ghost["nul"] = [c.aux.setdefault("newnul", fint("nul"))]

    def post(self, c):
        n, o = Txt(c, c.new, c.args[0]), Txt(c, c.old, c.args[0])
        if c.args[1].rid is None:
            return [("empty text", n.at(0) == 0)]
        t = CS(c, c.args[1])
        if c.mode == "call":
            c.new.assume(t.define())
        dot, sep = lastpos(c, c.new, t, 46, "dot"), lastpos(c, c.new, t, 47, "sep")
        L = z3.If(And(dot >= 0, sep < dot), dot, t.len)
        if c.mode == "call":
            c.new.assume(c.aux["newnul"] == n.k + L)
        return [("file name up to the last dot of its last component", forall(0, L, lambda j: n.at(j) == t.at(j))), ("terminated there", n.at(L) == 0),
                ("rest of the buffer unchanged", forall(n.k + t.len + 1, o.r.count, lambda j: n.arr.get(j) == o.arr.get(j)))]


@contract
class getext(Contract):
    name = "getext"
    props = ("C29",)

    def setup(self, c, st):
        p, a, L = mk_cstr(c, st, "filename", ro=False)
        return [p]

    def pre(self, c):
        t = CS(c, c.args[0])
        return t.ok("file name: ") + [("ends in a file name", And(t.len > 0, t.at(t.len - 1) != 47))]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("getext is not called from verified code")
        return NULL

    def post(self, c):
        t = CS(c, c.args[0])
        dot, sep = lastpos(c, c.new, t, 46, "dot"), lastpos(c, c.new, t, 47, "sep")
        has = dot > sep + 1
        if not isinstance(c.ret, PV) or c.ret.rid is None:
            return [("returns a text", z3.BoolVal(False))]
        n = Txt(c, c.new, c.ret)
        if not n.r.heap:
            return [("empty text only without extension", Not(has)), ("empty text", n.at(0) == 0)]
        return [("a copy only with extension", has), ("start of a block", n.k == 0),
                ("the text from the last dot", forall(0, t.len - dot, lambda j: n.at(j) == t.at(dot + j))), ("terminated", n.at(t.len - dot) == 0)]


# ------------------------------------------------------------ equality (C10)
class EqC(Contract):
    props = ("C10",)
    nc = False

    def setup(self, c, st):
        return [cs_arg(c, st, "a"), cs_arg(c, st, "b")]

    def pre(self, c):
        return CS(c, c.args[0]).ok("first: ") + CS(c, c.args[1]).ok("second: ")

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "eq", True)

    def post(self, c):
        a, b = CS(c, c.args[0]), CS(c, c.args[1])
        if c.mode == "call":
            c.new.assume(a.define(), b.define())
        f = low if self.nc else (lambda x: x)
        r = c.ex.S(c.new, c.ret)
        return [("nonzero only for equal texts", Imp(r != 0, And(a.len == b.len, forall(0, a.len, lambda j: f(a.at(j)) == f(b.at(j)))))),
                ("0 only for different texts", Imp(r == 0, Or(a.len != b.len, Not(forall(0, a.len, lambda j: f(a.at(j)) == f(b.at(j)))))))]


@contract
class string_eq(EqC):
    name = "string_eq"


@contract
class istring_eq(EqC):
    name = "istring_eq"
    nc = True


# ------------------------------------------------------------ bounded search (C09)
@contract
class strnstr(Contract):
    name = "strnstr"
    props = ("C09",)

    def setup(self, c, st):
        r, a = mk_bytes(c, st, "text")
        n = c.ex.fresh_iv(st, 64, "n")
        u = c.ex.U(st, n)
        m = z3.Int(fresh_name("tlen"))
        c.aux["tlen"] = m
        st.assume(And(m >= 0, m <= u, m <= r.count, Or(m == u, And(m < r.count, a.get(m) == 0))), forall(0, m, lambda i: a.get(i) != 0))
        r.ghost["nul"] = [m]
        strs.use_occ(st, False)
        return [PV(r.rid), cs_arg(c, st, "needle"), n]

    def pre(self, c):
        return CS(c, c.args[1]).ok("needle: ")

    def occ(self, c, st):
        t, d = Txt(c, c.old, c.args[0]), CS(c, c.args[1])
        A, D = t.arr.z3(st.hyps), d.arr.z3(st.hyps)
        return t, d, lambda i: strs.OCC(False)(A, t.k + i, D, d.k, d.len)

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("strnstr is not called from verified code")
        return NULL

    def post(self, c):
        t, d, O = self.occ(c, c.new)
        m = c.aux["tlen"]
        q = z3.Int(fresh_name("q"))
        if isinstance(c.ret, PV) and c.ret.rid is None:
            return [("none only if the needle does not occur within the bound", z3.ForAll([q], Imp(And(q >= 0, q + d.len <= m), Not(O(q))), patterns=[O(q)]))]
        p = Txt(c, c.new, c.ret).k - t.k
        return [("found within the bound", And(p >= 0, p + d.len <= m)), ("the needle occurs there", O(p)),
                ("nowhere earlier", z3.ForAll([q], Imp(And(q >= 0, q < p), Not(O(q))), patterns=[O(q)]))]

    @property
    def loops(self):
        def inv(lp):
            c = lp.root
            t, d, O = self.occ(c, lp.st)
            m = c.aux["tlen"]
            q = z3.Int(fresh_name("q"))
            n0 = c.ex.U(c.old, c.args[2])
            sl = [lp.ex.U(lp.st, v) for v in lp.ints(64)]
            ps = [Txt(c, lp.st, p).k - t.k for p in lp.ptrs(t.r.rid)]
            p = ps[0]
            return [("position", And(p >= 0, p <= m, *[x == n0 - p for x in sl])),
                    ("not found so far", z3.ForAll([q], Imp(And(q >= 0, q < p), Not(O(q))), patterns=[O(q)])), ("variant", m - p)]
        return [inv, inv]
