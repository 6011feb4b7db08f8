"""Contracts for util/stringview.c."""
from contract import *
from contract import And, Or, Not, Imp, forall
from strs import *
from stringy import SV, mk_sv, CS, cs_arg, MAXS
from builtins_c import is_space, low
import builtins_c

FILE = ["util/stringview.c", "util/stringy.c", "util/vec.c"]
DEPS = ["stringy"]


class SetSv(Contract):
    props = ("C08",)

    def setup(self, c, st):
        r = c.ex.new_region(st, "cell", "sv", size=c.ex.prog.sizeof("stringview"))
        return [PV(r.rid)] + self.more(c, st)

    def effect(self, c):
        st, p = c.new, c.args[0]
        d, n = self.want(c)
        c.set(st, p, "stringview", "data", d)
        c.havoc_int(st, p, "stringview", "len")
        return p if self.returns else None

    returns = False

    def post(self, c):
        d, n = self.want(c)
        p = c.args[0]
        out = [("data is the given text", c.peq(c.get(c.new, p, "stringview", "data"), d)), ("length is the given length", c.u(c.new, p, "stringview", "len") == n)]
        return out + ([("returns the view", c.peq(c.ret, p))] if self.returns else [])


class NSet(SetSv):
    def more(self, c, st):
        r, _ = mk_bytes(c, st, "text")
        return [PV(r.rid), c.ex.fresh_iv(st, 32, "n")]

    def want(self, c):
        return c.args[1], c.ex.U(c.old, c.args[2])


@contract
class stringview_nset(NSet):
    name = "stringview_nset"


@contract
class stringview_construct(NSet):
    name = "stringview_construct"
    returns = True


@contract
class stringview_set(SetSv):
    name = "stringview_set"

    def more(self, c, st):
        return [cs_arg(c, st)]

    def pre(self, c):
        t = CS(c, c.args[1])
        return t.ok("text: ") + [("text below 4 GB", t.len < 2 ** 32)] if c.mode != "call" else t.ok("text: ")

    def want(self, c):
        t = CS(c, c.args[1])
        if c.mode == "call":
            c.new.assume(t.define())
        return c.args[1], t.len


@contract
class stringview_set_string(SetSv):
    name = "stringview_set_string"

    def more(self, c, st):
        return [mk_str(c, st, "s", ro=True)]

    def pre(self, c):
        s = Str(c, c.old, c.args[1])
        return s.ok("string: ") + [("text below 4 GB", s.size < 2 ** 32)]

    def want(self, c):
        s = Str(c, c.old, c.args[1])
        return s.data, s.size


def cmpf(A, i, n, B, j, m):
    """the sign of the comparison (case folded, trailing blanks ignored): the sign function of Cmp.spec by name"""
    return z3.Function("CMP_NOCASE_RTRIM", IA, z3.IntSort(), z3.IntSort(), IA, z3.IntSort(), z3.IntSort(), z3.IntSort())(A, i, n, B, j, m)


class Cmp(Contract):
    props = ("C10",)
    nc = False
    rtrim = False
    notext = False

    def setup(self, c, st):
        return [mk_sv(c, st, "a"), mk_sv(c, st, "b")]

    def views(self, c):
        return SV(c, c.old, c.args[0]), SV(c, c.old, c.args[1])

    def pre(self, c):
        a, b = self.views(c)
        out = a.ok("first: ") + b.ok("second: ") + [("texts below 2 GB", And(a.len < MAXS, b.len < MAXS))]
        if not self.rtrim:
            out += [("texts have no NUL byte", And(forall(0, a.len, lambda i: a.at(i) != 0), forall(0, b.len, lambda i: b.at(i) != 0)))]
        return out

    def f(self, x):
        return low(x) if self.nc else x

    def diff(self, c):
        """D: the first position where the common part differs (its length if it does not)"""
        a, b = self.views(c)
        m = z3.If(a.len < b.len, a.len, b.len)
        if "D" not in c.aux:
            D = c.aux["D"] = fint("firstdiff")
            c.aux["Ddef"] = And(D >= 0, D <= m, forall(0, D, lambda j: self.f(a.at(j)) == self.f(b.at(j))), Imp(D < m, self.f(a.at(D)) != self.f(b.at(D))))
            if self.rtrim:
                W = c.aux["W"] = fint("firstnonblank")
                lg = lambda j: z3.If(a.len > b.len, a.at(j), b.at(j))
                M = z3.If(a.len < b.len, b.len, a.len)
                c.aux["Ddef"] = And(c.aux["Ddef"], W >= m, W <= M, forall(m, W, lambda j: Imp(a.len > b.len, is_space(a.at(j)))),
                                    forall(m, W, lambda j: Imp(a.len <= b.len, is_space(b.at(j)))), Imp(W < M, Not(is_space(lg(W)))))
        return c.aux["D"], m

    def assume_only(self, c):
        self.diff(c)
        return [c.aux["Ddef"]]

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "cmp", True)

    def spec(self, c):
        """the sign the comparison must have, as an integer"""
        a, b = self.views(c)
        D, m = self.diff(c)
        byl = z3.If(a.len > b.len, I(1), z3.If(a.len < b.len, I(-1), I(0)))
        if self.rtrim:
            M = z3.If(a.len < b.len, b.len, a.len)
            byl = z3.If(c.aux["W"] == M, I(0), byl)
        return z3.If(D < m, z3.If(self.f(a.at(D)) < self.f(b.at(D)), I(-1), I(1)), byl)

    def post(self, c):
        if c.mode == "call":
            self.diff(c)
            c.new.assume(c.aux["Ddef"])
        r = c.ex.S(c.new, c.ret)
        s = self.spec(c)
        if c.mode == "call" and self.rtrim and self.nc:
            a, b = self.views(c)
            if not a.null and not b.null:      # definition of the name
                c.new.assume(cmpf(a.t.arr.z3(c.new.hyps), a.t.k, a.len, b.t.arr.z3(c.new.hyps), b.t.k, b.len) == s)
        out = [("negative exactly when the first text orders before", (r < 0) == (s < 0)), ("positive exactly when it orders after", (r > 0) == (s > 0))]
        return out + ([("can be negated", r > -2 ** 31)] if self.rtrim else [])

    @property
    def loops(self):
        if not self.rtrim:
            return None

        def pre(lp):
            c = lp.root
            a, b = self.views(c)
            return c, a, b, z3.If(a.len < b.len, a.len, b.len)

        def iv(lp):
            return pick(lp, "i", 0, True), pick(lp, "ret", 1, False)

        def common(lp):
            c, a, b, m = pre(lp)
            i, r = iv(lp)
            df = lambda j: self.f(a.at(j)) - self.f(b.at(j))
            return [("position", And(i >= 0, i <= m)), ("equal so far", Imp(r == 0, forall(0, i, lambda j: self.f(a.at(j)) == self.f(b.at(j))))),
                    ("stopped at the first difference", Imp(r != 0, And(i >= 1, r == df(i - 1), forall(0, i - 1, lambda j: self.f(a.at(j)) == self.f(b.at(j)))))),
                    ("variant", m - i)]

        def tail(lp):
            c, a, b, m = pre(lp)
            i, r = iv(lp)
            df = lambda j: self.f(a.at(j)) - self.f(b.at(j))
            M = z3.If(a.len < b.len, b.len, a.len)
            lg = lambda j: z3.If(a.len > b.len, a.at(j), b.at(j))
            D, _ = self.diff(c)
            return [("difference in the common part keeps the result", Imp(D < m, And(r != 0, r == df(D)))),
                    ("position", Imp(D == m, And(i >= m, i <= M))),
                    ("tail blank so far (first longer)", Imp(And(D == m, r == 0), forall(m, i, lambda j: Imp(a.len > b.len, is_space(a.at(j)))))),
                    ("tail blank so far (second longer)", Imp(And(D == m, r == 0), forall(m, i, lambda j: Imp(a.len <= b.len, is_space(b.at(j)))))),
                    ("stopped at a non-blank", Imp(And(D == m, r != 0), And(i > m, r == a.len - b.len, Not(is_space(lg(i - 1)))))),
                    ("variant", z3.If(i > M, I(0), M - i))]
        return [common, tail]


def pick(lp, name, n, unsigned):
    v = lp.val(name) if lp.has(name) else None
    if v is None:
        xs = lp.ints(32)
        v = xs[n] if n < len(xs) else lp.val(name)
    return lp.ex.U(lp.st, v) if unsigned else lp.ex.S(lp.st, v)


@contract
class stringview_compare(Cmp):
    name = "stringview_compare"


@contract
class stringview_compare_nocase(Cmp):
    name = "stringview_compare_nocase"
    nc = True


@contract
class stringview_compare_rtrim(Cmp):
    name = "stringview_compare_rtrim"
    rtrim = True


@contract
class stringview_compare_nocase_rtrim(Cmp):
    name = "stringview_compare_nocase_rtrim"
    rtrim = True
    nc = True


@lemma
def comparison_specification_is_antisymmetric():
    """the sign function the four comparisons are verified against changes sign when the texts are swapped,
    is 0 exactly for texts equal under the variant, and orders a proper prefix first"""
    a, b = z3.Const("a", IA), z3.Const("b", IA)
    out = []
    for nc in (0, 1):
        f = low if nc else (lambda x: x)
        la, lb, D, E, j = z3.Ints("la lb D E j")
        S = z3.Select
        m = z3.If(la < lb, la, lb)
        dd = lambda x, y, D: And(D >= 0, D <= m, forall(0, D, lambda j: f(S(x, j)) == f(S(y, j)), pats=lambda j: [S(x, j), S(y, j)]), Imp(D < m, f(S(x, D)) != f(S(y, D))))
        sg = lambda x, y, lx, ly, D: z3.If(D < m, z3.If(f(S(x, D)) < f(S(y, D)), I(-1), I(1)), z3.If(lx > ly, I(1), z3.If(lx < ly, I(-1), I(0))))
        h = [la >= 0, lb >= 0, dd(a, b, D), dd(b, a, E)]
        out += [("swapping flips the sign %d" % nc, h, sg(a, b, la, lb, D) == -sg(b, a, lb, la, E)),
                ("0 only for equal texts %d" % nc, h + [sg(a, b, la, lb, D) == 0, 0 <= j, j < la], And(la == lb, f(S(a, j)) == f(S(b, j)))),
                ("equal texts give 0 %d" % nc, h + [la == lb, forall(0, la, lambda j: f(S(a, j)) == f(S(b, j)), pats=lambda j: [S(a, j)])], sg(a, b, la, lb, D) == 0),
                ("a proper prefix orders first %d" % nc, h + [la < lb, forall(0, la, lambda j: f(S(a, j)) == f(S(b, j)), pats=lambda j: [S(a, j)])], sg(a, b, la, lb, D) == -1)]
    return out


stringview_compare.lemmas = ("comparison_specification_is_antisymmetric",)
