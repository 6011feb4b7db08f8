"""Contracts for lib/fqllogic.c: the predicates of WHERE, ON, HAVING and CASE.

A predicate's operands are expressions of one pool (see expression.py).  Numbers
compare as their type does, texts as CMPF says: the sign for which property C10's
contract of stringview_compare_nocase_rtrim is verified.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
from strs import *
from expression import mk_row, STAT, IVAL, FVAL, TARR, TLEN, mk_exprs, FAIL, NULL_, GOOD, EXPR_CONST
from vec import Vec, mk_vec
from stringview import cmpf
import stringview

FILE = ["lib/fqllogic.c", "util/stringview.c", "util/stringy.c", "util/vec.c"]
DEPS = ["stringview", "expression"]
INT = z3.IntSort()


def flt(op, a, b):
    """IEEE comparison: with a NaN all but <> are false"""
    lt, eq, un = uf("f_lt", FS, FS, BOOL), uf("f_eq", FS, FS, BOOL), uf("f_nan", FS, BOOL)
    L, G, E = lt(a, b), lt(b, a), eq(a, b)
    return {"eq": E, "ne": Not(E), "lt": L, "gt": G, "le": Or(L, E), "ge": Or(G, E)}[op]


def flt_ax(a, b):
    lt, eq, un = uf("f_lt", FS, FS, BOOL), uf("f_eq", FS, FS, BOOL), uf("f_nan", FS, BOOL)
    u, L, G, E = Or(un(a), un(b)), lt(a, b), lt(b, a), eq(a, b)
    return [Imp(u, And(Not(L), Not(G), Not(E))), Imp(Not(u), z3.PbEq([(L, 1), (G, 1), (E, 1)], 1)), E == eq(b, a)]


def rel(op, a, b):
    return {"eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}[op]


class Pred(Contract):
    props = ("C21",)
    kind = "i"

    def setup(self, c, st):
        e = mk_exprs(c, st)
        r = c.ex.new_region(st, "cell", "logic", size=c.ex.prog.sizeof("logic"), ro=True)
        o, _ = c.fo("logic", "expr")
        live = e.ghost["live"]
        es = []
        for i in (0, 1):
            k = fint("operand")
            st.assume(And(k >= 1, k < e.count, live.get(k) != 0))
            r.cells[o + 8 * i] = (8, PV(e.rid, Off(0, {e.stride: k})))
            es.append(k)
        c.aux["e"] = es
        self.more(c, st, r, e)
        rg = mk_row(c, st)
        return [PV(r.rid), PV(rg.rid)]

    def more(self, c, st, r, e):
        pass

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("predicates are called through their condition")
        return c.ex.fresh_iv(c.new, 32, "result", True)

    def st_(self, e):
        return STAT[self.kind](e)

    def cmp(self, op, a, b):
        """the relation between the values of expressions a and b"""
        if self.kind == "i":
            return rel(op, IVAL(a), IVAL(b))
        if self.kind == "f":
            return flt(op, FVAL(a), FVAL(b))
        return rel(op, cmpf(TARR(a), I(0), TLEN(a), TARR(b), I(0), TLEN(b)), I(0))

    def facts(self, st, a, b):
        if self.kind == "f":
            st.assume(*flt_ax(FVAL(a), FVAL(b)))
        if self.kind == "s":
            x = (TARR(a), I(0), TLEN(a))
            y = (TARR(b), I(0), TLEN(b))
            st.assume(cmpf(*x, *y) == -cmpf(*y, *x))     # lemma comparison_specification_is_antisymmetric


class Compare(Pred):
    op = None

    def post(self, c):
        a, b = c.aux["e"]
        sa, sb = self.st_(a), self.st_(b)
        rc = c.ex.S(c.new, c.ret)
        self.facts(c.new, a, b)
        good = And(sa == GOOD, sb == GOOD)
        val = self.cmp(self.op, a, b)
        return [("the relation holds: true", Imp(And(good, val), rc == 1)), ("the relation does not hold: false", Imp(And(good, Not(val)), rc == 0)),
                ("a comparison with NULL is not true", Imp(Or(sa == NULL_, sb == NULL_), Or(rc == 0, And(rc == FAIL, Or(sa == FAIL, sb == FAIL))))),
                ("errors are reported", Imp(And(Or(sa == FAIL, sb == FAIL), sa != NULL_, sb != NULL_), rc == FAIL))]


def _cmp(op_, k_):
    @contract
    class X(Compare):
        name = "fql_logic_%s_%s" % (op_, k_)
        op, kind = op_, k_
        lemmas = ("comparison_specification_is_antisymmetric",) if k_ == "s" else ()


for _op in ("eq", "ne", "gt", "ge", "lt", "le"):
    for _k in "ifs":
        _cmp(_op, _k)


class In(Pred):
    def more(self, c, st, r, e):
        vp, _ = mk_vec(c, st, "list", S=8, fields={0: 8}, ro=True)
        d = st.regions[c.get(st, vp, "vec", "data").rid]
        d.fields[0] = (8, ("ptr", e.rid), d.fields[0][2])
        a = d.fields[0][2]
        n = c.u(st, vp, "vec", "size")
        st.assume(n < 2 ** 31)
        live = e.ghost["live"]
        st.assume(forall(0, n, lambda i: And(a.get(i) >= 1, a.get(i) < e.count, live.get(a.get(i)) != 0), pats=lambda i: a.get(i)))
        il = c.ex.new_region(st, "cell", "inlist", size=c.ex.prog.sizeof("inlist"), ro=True)
        o, sz = c.ex.prog.member("inlist", "expressions")
        il.cells[o] = (sz, vp)
        o, sz = c.ex.prog.member("logic", "in_data")
        r.cells[o] = (sz, PV(il.rid))
        c.aux["list"] = (a, n)

    def hit(self, c, j):
        a, n = c.aux["list"]
        x = c.aux["e"][0]
        return And(self.st_(a.get(j)) == GOOD, self.cmp("eq", x, a.get(j)))

    def inst(self, c, st, j):
        a, n = c.aux["list"]
        self.facts(st, c.aux["e"][0], a.get(j))

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            a, n = c.aux["list"]
            self.inst(c, lp.st, lp.K)
            return [("items looked at", And(lp.K >= 0, lp.K <= n)), ("no match so far", forall(0, lp.K, lambda j: And(Not(self.hit(c, j)), self.st_(a.get(j)) != FAIL), pats=lambda j: a.get(j))),
                    ("variant", n - lp.K)]
        return [l0]

    def post(self, c):
        a, n = c.aux["list"]
        x = c.aux["e"][0]
        s = self.st_(x)
        rc = c.ex.S(c.new, c.ret)
        j = z3.Int("in_j")
        any_ = lambda f: z3.Exists([j], And(j >= 0, j < n, f(j)))
        return [("true, false or an error", Or(rc == 0, rc == 1, rc == FAIL)),
                ("NULL is in no list", Imp(s == NULL_, rc == 0)), ("errors are reported", Imp(s == FAIL, rc == FAIL)),
                ("true only when an item equals the value", Imp(And(s == GOOD, rc == 1), any_(lambda j: self.hit(c, j)))),
                ("false only when none does, whatever items are NULL", Imp(And(s == GOOD, rc == 0), forall(0, n, lambda j: And(Not(self.hit(c, j)), self.st_(a.get(j)) != FAIL), pats=lambda j: a.get(j)))),
                ("an error only for an item that fails", Imp(And(s == GOOD, rc == FAIL), any_(lambda j: self.st_(a.get(j)) == FAIL)))]


def _in(k_):
    @contract
    class X(In):
        name = "fql_logic_in_" + k_
        kind = k_
        lemmas = ("comparison_specification_is_antisymmetric",) if k_ == "s" else ()


for _k in "ifs":
    _in(_k)


# ------------------------------------------------------------ IN (SELECT ...): a set of values
@contract
class set_nhas(Contract):
    """whether a set has a value (property C03)"""
    name = "set_nhas"
    trusted = True
    spec_only = True

    def pre(self, c):
        p, n = c.args[1], c.ex.U(c.old, c.args[2])
        r = c.ex.getr(c.old, p, "value looked up in a set")
        out = [("the set of the list", c.peq(c.args[0], c.ex.root.aux["set"]))]
        if r.kind == "cell":
            return out + [("value: bytes", And(p.off.z() >= 0, p.off.z() + n <= r.size))]
        k, _ = c.ex.resolve(c.old, r, p.off)
        return out + [("value: bytes", And(k >= 0, k + n <= r.count))]

    def effect(self, c):
        p, n = c.args[1], c.ex.U(c.old, c.args[2])
        r = c.old.regions[p.rid]
        has = z3.Bool(fresh_name("has"))
        if r.kind == "cell":
            v = r.cells.get(p.off.const(), (0, None))
            x = ("num", v[0], v[1], n)
        else:
            x = ("text", r.fields[0][2], c.ex.resolve(c.old, r, p.off)[0], n)
        c.new.ghost["asked"] = c.new.ghost.get("asked", ()) + (x + (has,),)
        return has


class SubIn(Pred):
    """the answer is whether the set of the subquery's values has this one"""
    props = ("C30",)

    def more(self, c, st, r, e):
        s = c.ex.new_region(st, "cell", "set", size=c.ex.prog.sizeof("hashmap"))
        il = c.ex.new_region(st, "cell", "inlist", size=c.ex.prog.sizeof("inlist"), ro=True)
        o, sz = c.ex.prog.member("inlist", "list_data")
        il.cells[o] = (sz, PV(s.rid))
        o, sz = c.ex.prog.member("logic", "in_data")
        r.cells[o] = (sz, PV(il.rid))
        c.aux["set"] = PV(s.rid)

    def post(self, c):
        k = c.aux["e"][0]
        s = self.st_(k)
        rc = c.ex.S(c.new, c.ret)
        a = c.new.ghost.get("asked", ())
        out = [("NULL is in no list", Imp(s == NULL_, rc == 0)), ("errors are reported", Imp(s == FAIL, rc == FAIL)), ("asked at most once", z3.BoolVal(len(a) <= 1))]
        if len(a) != 1:
            return out + [("a value is looked up", s != GOOD)]
        kind, p, q, n, has = a[0]
        v = z3.BoolVal(False)
        if kind == "text" and self.kind == "s":
            v = And(n == TLEN(k), forall(0, n, lambda i: p.get(q + i) == TARR(k)[i]))
        elif kind == "num" and p == 8 and self.kind == "f" and isinstance(q, FV):
            v = And(n == 8, q.t == uf("fadd", FS, FS, FS)(FVAL(k), c.ex.fconst(0.0)))     # equal floats have the same bits then
        elif kind == "num" and p == 8 and self.kind == "i" and isinstance(q, IV):
            v = And(n == 8, c.ex.S(c.new, q) == IVAL(k))
        return out + [("the value is looked up", Imp(s == GOOD, v)), ("the answer is the set's", Imp(s == GOOD, rc == z3.If(has, I(1), I(0))))]


def _subin(k_):
    @contract
    class X(SubIn):
        name = "fql_logic_subin_" + k_
        kind = k_


for _k in "ifs":
    _subin(_k)


@contract
class fql_logic_is_null(Pred):
    name = "fql_logic_is_null"
    kind = "s"

    def post(self, c):
        s = self.st_(c.aux["e"][0])
        rc = c.ex.S(c.new, c.ret)
        return [("true exactly for NULL, errors reported", rc == z3.If(s == NULL_, I(1), z3.If(s == GOOD, I(0), I(FAIL))))]
