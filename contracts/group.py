"""Contracts for GROUP BY and the aggregates (lib/group.c, lib/aggregatefn.c, lib/aggregate.c).

A group is an item of a composite map (property C05): its number among the groups.  The packed
store has one text per key and group.  An aggregate keeps one result per group: `qty` counts the
rows of the group whose value was not NULL, `data` is the aggregate of them so far.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
import sx
from strs import *
from vec import Vec, mk_vec
from flex import Flex, mk_flex
from stringview import cmpf
from stringy import MAXS
from expression import STAT, IVAL, FVAL, TARR, TLEN, FAIL, NULL_, GOOD, EXPR_CONST, T_INT, T_FLOAT, T_STRING, mk_exprs

FILE = ["lib/group.c", "lib/record.c", "lib/aggregatefn.c", "lib/aggregate.c", "util/flex.c", "util/vec.c", "util/stringview.c", "util/stringy.c", "util/util.c"]
DEPS = ["flex", "expression", "stringview"]
INT = z3.IntSort()
LT = uf("f_lt", FS, FS, BOOL)
LMAX, LMIN = 2 ** 63 - 1, -2 ** 63


# ------------------------------------------------------------ the aggregates
class Agg1(Contract):
    """one row more goes into the aggregate of its group"""
    props = ("C27",)
    kind = "i"
    aux = False         # whether the running total is kept beside the value

    def setup(self, c, st):
        X = mk_exprs(c, st)
        vp, _ = mk_vec(c, st, "args", S=8, fields={0: 8}, ro=True)
        D = st.regions[c.get(st, vp, "vec", "data").rid]
        D.fields[0] = (8, ("ptr", X.rid), D.fields[0][2])
        D.ro = True
        k = D.fields[0][2].get(I(0))
        st.assume(c.u(st, vp, "vec", "size") >= 1, k >= 1, k < X.count, X.ghost["live"].get(k) != 0)
        ag = c.ex.new_region(st, "cell", "aggregate", size=c.ex.prog.sizeof("aggregate"), ro=True)
        o, sz = c.fo("aggregate", "args")
        ag.cells[o] = (sz, vp)
        r = c.ex.new_region(st, "cell", "result", size=c.ex.prog.sizeof("aggresult"))
        if self.kind == "s":
            sp = mk_str(c, st, "so_far")
            for o, v in st.regions[sp.rid].cells.items():
                r.cells[o] = v
            del st.regions[sp.rid]
            st.assume(Str(c, st, PV(r.rid)).size < MAXS)
        else:
            for m in ("data", "auxdata"):
                o, _ = c.fo("aggresult", m)
                r.cells[o] = (8, c.ex.fresh_iv(st, 64, m, True) if self.kind in "in" else FV(z3.Const(fresh_name(m), FS)))
        o, sz = c.fo("aggresult", "qty")
        r.cells[o] = (sz, c.ex.fresh_iv(st, 32, "qty"))
        st.assume(c.ex.U(st, r.cells[o][1]) < 2 ** 32 - 1)
        row = c.ex.new_region(st, "cell", "rg", size=c.ex.prog.sizeof("node"), ro=True)
        st.ghost["row"] = PV(row.rid)
        grp = c.ex.new_region(st, "cell", "group", size=c.ex.prog.sizeof("group"), ro=True)
        c.aux.update(k=k, r=r.rid)
        return [PV(ag.rid), PV(grp.rid), PV(r.rid), PV(row.rid)]

    def val(self, c, st, m="data"):
        v = st.regions[c.aux["r"]].cells[c.fo("aggresult", m)[0]][1]
        return (v.t if isinstance(v, FV) else z3.Const(fresh_name("no_float"), FS)) if self.kind == "f" else c.ex.S(st, v) if isinstance(v, IV) else fint("no_number")

    def qty(self, c, st):
        return c.u(st, PV(c.aux["r"]), "aggresult", "qty")

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("an aggregate function seen from a caller")
        st = c.new
        r = st.regions[c.aux["r"]]
        if self.kind == "s":
            from vec import havoc_contents, replace_data
            p = PV(r.rid)
            havoc_contents(c, st, p)
            replace_data(c, st, p)
            c.havoc_int(st, p, "vec", "_alloc")
            c.havoc_int(st, p, "vec", "size")
        else:
            for m in ("data", "auxdata") if self.aux else ("data",):
                o, _ = c.fo("aggresult", m)
                r.cells[o] = (8, c.ex.fresh_iv(st, 64, m, True) if self.kind in "in" else FV(z3.Const(fresh_name(m), FS)))
        return c.ex.fresh_iv(st, 32, "status", True)

    def first(self, c):
        """the row is the first of the group with a value"""
        return self.qty(c, c.old) == 0

    def same(self, c):
        return And(*[(self.val(c, c.new, m) == self.val(c, c.old, m)) for m in ("data", "auxdata")])

    def value(self, c):
        return IVAL(c.aux["k"]) if self.kind == "i" else FVAL(c.aux["k"])

    def evil(self, c):
        """a value for which there is no result: the aggregate is an error"""
        return z3.BoolVal(False)

    def post(self, c):
        s, rc = STAT[self.kind](c.aux["k"]), c.ex.S(c.new, c.ret)
        bad = self.evil(c)
        return [("an error exactly of the value", (rc == FAIL) == Or(s == FAIL, And(s == GOOD, bad))), ("NULL counts for nothing", (rc == NULL_) == (s == NULL_)),
                ("good otherwise", Or(rc == GOOD, rc == FAIL, rc == NULL_)), ("a NULL changes nothing", Imp(s == NULL_, self.same(c)))] + \
            [(nm, Imp(And(s == GOOD, Not(bad)), f)) for nm, f in self.result(c)]

    def pre(self, c):
        return []


@contract
class fql_count(Agg1):
    """counts the rows"""
    name = "fql_count"
    kind = "n"

    def setup(self, c, st):
        a = super().setup(c, st)
        v = self.val(c, st)
        st.assume(v >= 0, v < 2 ** 62)
        return a

    def post(self, c):
        return [("always good", c.ex.S(c.new, c.ret) == GOOD), ("one row more", self.val(c, c.new) == self.val(c, c.old) + 1)]


def _extreme(name_, kind_, less_):
    @contract
    class X(Agg1):
        __doc__ = "the %s of the values" % ("least" if less_ else "greatest")
        name = name_
        kind = kind_

        def result(self, c):
            o, n, v = self.val(c, c.old), self.val(c, c.new), self.value(c)
            lt = (lambda a, b: a < b) if kind_ == "i" else (lambda a, b: LT(a, b))
            better = lt(v, o) if less_ else lt(o, v)
            return [("the first value, and every %s one" % ("lesser" if less_ else "greater"), n == z3.If(Or(self.first(c), better), v, o))]
    return X


def _extreme_s(name_, less_):
    @contract
    class X(Agg1):
        __doc__ = "the %s of the texts" % ("least" if less_ else "greatest")
        name = name_
        kind = "s"

        def same(self, c):
            o, n = Str(c, c.old, PV(c.aux["r"])), Str(c, c.new, PV(c.aux["r"]))
            return And(n.size == o.size, forall(0, o.size, lambda i: n.at(i) == o.at(i)))

        def result(self, c):
            o, n, k = Str(c, c.old, PV(c.aux["r"])), Str(c, c.new, PV(c.aux["r"])), c.aux["k"]
            d = cmpf(TARR(k), I(0), TLEN(k), o.r.fields[0][2].z3(c.old.hyps), I(0), o.size)
            take = Or(self.first(c), d < 0 if less_ else d > 0)
            return [("the first text, and every %s one" % ("lesser" if less_ else "greater"), Imp(take, And(n.size == TLEN(k), forall(0, TLEN(k), lambda i: n.at(i) == TARR(k)[i], pats=lambda i: n.at(i))))),
                    ("else the one before", Imp(Not(take), self.same(c)))] + n.oks("still a text: ")

        def post(self, c):
            return super().post(c)
    return X


for _n, _l in (("min", True), ("max", False)):
    _extreme("fql_%s_i" % _n, "i", _l)
    _extreme("fql_%s_f" % _n, "f", _l)
    _extreme_s("fql_%s_s" % _n, _l)


class Total(Agg1):
    total = "data"

    def sum(self, c):
        o = self.val(c, c.old, self.total)
        return o + IVAL(c.aux["k"]) if self.kind == "i" else uf("fadd", FS, FS, FS)(o, FVAL(c.aux["k"]))

    def evil(self, c):
        return Or(self.sum(c) > LMAX, self.sum(c) < LMIN) if self.kind == "i" else z3.BoolVal(False)

    def result(self, c):
        n = self.val(c, c.new, self.total)
        return [("the sum of the values", n == self.sum(c) if self.kind == "i" else Or(n == self.sum(c), n == uf("fadd", FS, FS, FS)(FVAL(c.aux["k"]), self.val(c, c.old, self.total))))]


class Average(Total):
    total = "auxdata"
    aux = True

    def result(self, c):
        n, q, t = self.val(c, c.new), self.qty(c, c.old) + 1, self.val(c, c.new, "auxdata")
        r = t - n * q if self.kind == "i" else None
        of = And(r < q, -r < q, Imp(t >= 0, r >= 0), Imp(t <= 0, r <= 0)) if self.kind == "i" else n == uf("fdiv", FS, FS, FS)(t, uf("i2f", INT, FS)(q))
        return super().result(c) + [("the sum by the number of values", of)]


for _n, _b, _k in (("fql_sum_i", Total, "i"), ("fql_sum_f", Total, "f"), ("fql_avg_i", Average, "i"), ("fql_avg_f", Average, "f")):
    contract(type(_n, (_b,), {"name": _n, "kind": _k, "__doc__": "the %s of the values" % ("sum" if _b is Total else "average")}))


# ------------------------------------------------------------ every aggregate gets the row
# the answer of aggregate number j (in the query's order), what it makes of the result, and the number of values before
ANS, RESULT, VALUES = uf("AGGREGATE_ANSWERS", INT, INT), uf("AGGREGATE_RESULT", INT, INT, INT), uf("VALUES_SO_FAR", INT, INT)


def n_of(c, st, x):
    return c.ex.U(st, st.regions[c.ex.root.aux[x]].cells[0][1])


def set_n(c, st, x, v):
    st.regions[c.ex.root.aux[x]].cells[0] = (8, IV(64, v, u=True))


def pooled(c, st, p):
    return isinstance(p, PV) and p.rid in st.regions and st.regions[p.rid].ghost.get("aggregates")


def agg_index(c, st, p, member="results"):
    """the aggregate whose results p is"""
    r = st.regions[p.rid]
    k, o = c.ex.resolve(st, r, p.off)
    return k, o == c.fo("aggregate", member)[0]


class AddOne(type(REG["vec_add_one"])):
    """a new result for the aggregate in turn"""

    def pre(self, c):
        if not pooled(c, c.old, c.args[0]):
            return super().pre(c)
        k, o = agg_index(c, c.old, c.args[0])
        a = c.ex.root.aux
        return [("a result for the aggregate in turn", And(o, z3.BoolVal(a["new"]), n_of(c, c.old, "step") == 0, n_of(c, c.old, "done") < a["n"], k == a["e"](n_of(c, c.old, "done"))))]

    def effect(self, c):
        if not pooled(c, c.old, c.args[0]):
            return super().effect(c)
        set_n(c, c.new, "step", I(1))
        put_result(c, c.new)
        return PV(c.ex.root.aux["result"])

    def post(self, c):
        return [] if pooled(c, c.old, c.args[0]) else super().post(c)


class At(type(REG["vec_at"])):
    """the result an aggregate has for a group; any other vec's element"""
    inline = False

    def pre(self, c):
        if not pooled(c, c.old, c.args[0]):
            return []
        k, o = agg_index(c, c.old, c.args[0])
        a, i = c.ex.root.aux, c.ex.U(c.old, c.args[1])
        if "dump" in a:
            return [("the result of the group in turn", And(o, k == a["agg"], i == a["dump"]))]
        d = n_of(c, c.old, "done")
        return [("the result of the aggregate in turn for the row's group", And(o, z3.BoolVal(not a["new"]), n_of(c, c.old, "step") == 0, d < a["n"], k == a["e"](d), i == a["group"]))]

    def effect(self, c):
        if not pooled(c, c.old, c.args[0]):
            v = Vec(c, c.old, c.args[0])
            return v.ptr(c.ex.U(c.old, c.args[1]))
        if "dump" in c.ex.root.aux:
            return PV(c.ex.root.aux["result"])
        set_n(c, c.new, "step", I(1))
        put_result(c, c.new)
        q = c.new.regions[c.ex.root.aux["result"]]
        o, sz = c.fo("aggresult", "qty")
        q.cells[o] = (sz, IV(32, VALUES(n_of(c, c.new, "done")), u=True))
        c.new.assume(VALUES(n_of(c, c.new, "done")) >= 0, VALUES(n_of(c, c.new, "done")) < 2 ** 32 - 1)
        return PV(c.ex.root.aux["result"])

    def post(self, c):
        return []


REG["vec_add_one"] = AddOne()
REG["vec_at"] = At()


class Construct(type(REG["string_construct"])):
    """a text result starts empty"""

    def mine(self, c):
        a = c.ex.root.aux if c.ex.root is not None else {}
        return "result" in a and "step" in a and isinstance(c.args[0], PV) and c.args[0].rid == a["result"]

    def pre(self, c):
        if self.made(c):
            v = c.ex.root.con.vec(c.ex.root, c.old)
            return [("the string just added", And(z3.BoolVal(v is not None), c.peq(c.args[0], v.ptr(v.size - 1))))]
        return [("the text of a new result", And(z3.BoolVal(c.args[0].off.const() == 0 and c.ex.root.aux["new"]), n_of(c, c.old, "step") == 1, zeroed(c, c.old)))] if self.mine(c) else super().pre(c)

    def effect(self, c):
        if self.made(c):
            set_n(c, c.new, "made", n_of(c, c.new, "made") + 1)
            return c.args[0]
        if not self.mine(c):
            return super().effect(c)
        set_n(c, c.new, "step", I(2))
        return c.args[0]

    def made(self, c):
        """one more of a record's strings"""
        return c.ex.root is not None and "made" in c.ex.root.aux and isinstance(c.args[0], PV) and c.old.regions[c.args[0].rid].kind == "arr"

    def post(self, c):
        return [] if self.mine(c) or self.made(c) else super().post(c)


REG["string_construct"] = Construct()


def result_region(c, st):
    r = c.ex.new_region(st, "cell", "result", size=c.ex.prog.sizeof("aggresult"))
    c.aux["result"] = r.rid
    return r


def put_result(c, st, f=None):
    r = st.regions[c.ex.root.aux["result"]]
    for o in range(0, 64, 8):
        r.cells[o] = (8, IV(64, f(o), u=True) if f else c.ex.fresh_iv(st, 64, "old"))
        if f:
            st.assume(f(o) >= 0, f(o) < 2 ** 64)
    if f is None:
        o, sz = c.fo("aggresult", "qty")
        r.cells[o] = (sz, c.ex.fresh_iv(st, 32, "old"))


def zeroed(c, st):
    r = st.regions[c.ex.root.aux["result"]]
    return And(*[c.ex.U(st, v) == 0 for o, (n, v) in r.cells.items() if isinstance(v, IV)], z3.BoolVal(all(isinstance(v, IV) for n, v in r.cells.values())))


@contract
class aggregate_call(Contract):
    """an aggregate function (its contract is above)"""
    name = "aggregate_call"
    trusted = True
    spec_only = True
    implemented_by = ("fql_count",) + tuple("fql_%s_%s" % (a, b) for a in ("min", "max") for b in "ifs") + tuple("fql_%s_%s" % (a, b) for a in ("sum", "avg") for b in "if")

    def pre(self, c):
        a, d = c.ex.root.aux, n_of(c, c.old, "done")
        k, o = agg_index(c, c.old, c.args[0], "call__") if pooled(c, c.old, c.args[0]) else (I(-1), z3.BoolVal(False))
        text = c.old.regions[c.ex.root.aux["aggs"]].fields[c.fo("aggregate", "data_type")[0]][2].get(k) == T_STRING
        step = n_of(c, c.old, "step")
        ready = And(step == z3.If(text, I(2), I(1)), zeroed(c, c.old)) if a["new"] else step == 1
        return [("of the aggregate in turn", And(o, d < a["n"], k == a["e"](d))), ("on the row", And(c.peq(c.args[1], c.ex.root.args[0]), c.peq(c.args[3], c.ex.root.args[1]))),
                ("with the result of the row's group, a new one for a new group", And(ready, c.peq(c.args[2], PV(a["result"]))))]

    def effect(self, c):
        st = c.new
        d = n_of(c, st, "done")
        set_n(c, st, "done", d + 1)
        set_n(c, st, "step", I(0))
        put_result(c, st, lambda o: RESULT(d, I(o)))
        rc = c.ex.fresh_iv(st, 32, "answer", True)
        s = c.ex.S(st, rc)
        st.assume(s == ANS(d), Or(s == GOOD, s == NULL_, s == FAIL))
        return rc


class Results(Contract):
    props = ("C27",)
    new = False

    def setup(self, c, st):
        m = c.ex.prog.member
        sz = c.ex.prog.sizeof("aggregate")
        A = builtins_c.mk_pool(c.ex, st, "aggs", sz, {m("aggregate", "call__")[0]: (8, ("fn", "aggregate_call")), m("aggregate", "data_type")[0]: (4, "int")})
        A.ghost["aggregates"] = True
        c.ex.pools.clear()
        dt = A.fields[m("aggregate", "data_type")[0]][2].get
        st.assume(forall(0, A.count, lambda i: And(dt(i) >= 0, dt(i) < 2 ** 32), pats=lambda i: dt(i)))
        r = c.ex.new_region(st, "cell", "group", size=c.ex.prog.sizeof("group"), ro=True)
        vp, _ = mk_vec(c, st, "aggregates", S=8, fields={0: 8})
        D = st.regions[c.get(st, vp, "vec", "data").rid]
        D.fields[0] = (8, ("ptr", A.rid), D.fields[0][2])
        D.ro = True
        for o, v in st.regions[vp.rid].cells.items():
            r.cells[m("group", "aggregates")[0] + o] = v
        n, e, live = c.u(st, vp, "vec", "size"), D.fields[0][2].get, A.ghost["live"].get
        del st.regions[vp.rid]
        st.assume(n < 2 ** 15, forall(0, n, lambda i: And(e(i) >= 1, e(i) < A.count, live(e(i)) != 0), pats=lambda i: e(i)))
        row = c.ex.new_region(st, "cell", "rg", size=c.ex.prog.sizeof("node"), ro=True)
        for x in ("done", "step"):
            q = c.ex.new_region(st, "cell", x, size=8)
            q.cells[0] = (8, IV(64, 0))
            c.aux[x] = q.rid
        q = result_region(c, st)
        for o in range(0, 64, 8):
            q.cells[o] = (8, c.ex.fresh_iv(st, 64, "old"))
        o, s4 = c.fo("aggresult", "qty")
        q.cells[o] = (s4, c.ex.fresh_iv(st, 32, "old"))
        c.aux.update(n=n, e=e, aggs=A.rid, new=self.new, D=D.rid)
        args = [PV(r.rid), PV(row.rid)]
        if not self.new:
            args.append(c.ex.fresh_iv(st, 32, "group"))
            c.aux["group"] = c.ex.U(st, args[2])
        return args

    def kept(self, c, st, d):
        """the last result counts its value and is left as the aggregate made it"""
        q = st.regions[c.ex.root.aux["result"]]
        j = d - 1
        qty = c.u(st, PV(q.rid), "aggresult", "qty")
        was = I(0) if self.new else VALUES(j)
        return [("every value is counted, a NULL is not", Imp(d > 0, qty == was + z3.If(ANS(j) == NULL_, I(0), I(1)))),
                ("the result is the aggregate's", Imp(d > 0, And(*[c.ex.U(st, q.cells[o][1]) == RESULT(j, I(o)) if isinstance(q.cells[o][1], IV) else z3.BoolVal(False) for o in range(0, 64, 8)])))]

    @property
    def loops(self):
        def l0(lp):
            c, a = lp.root, lp.root.aux
            d = n_of(c, lp.st, "done")
            out = [("aggregates done", And(d == lp.K, d <= a["n"], n_of(c, lp.st, "step") == 0)), ("variant", a["n"] - lp.K), ("none failed", forall(0, d, lambda j: Or(ANS(j) == GOOD, ANS(j) == NULL_), pats=lambda j: ANS(j)))]
            S = lp.st.regions[a["D"]].stride
            for p in lp.ptrs(a["D"]):
                out.append(("aggregate reached", c.peq(p, PV(a["D"], Off(0, {S: lp.K})), lp.st)))
            for nm, v in lp.intphis():
                out.append(("maybe", "counter (%s)" % nm, c.ex.U(lp.st, v) == lp.K))
            return out + self.kept(c, lp.st, d)
        return [l0]

    def pre(self, c):
        if c.mode == "verify":
            return []
        a = c.ex.root.aux
        return [("on the row", And(c.peq(c.args[0], c.ex.root.args[0]), c.peq(c.args[1], c.ex.root.args[1])))] + self.where(c, a)

    def where(self, c, a):
        return []

    def effect(self, c):
        if c.mode == "call":
            g = c.new.ghost.get("aggregated", ())
            c.new.ghost["aggregated"] = g + ((self.name, None if self.new else c.ex.U(c.new, c.args[2])),)
            rc = c.ex.fresh_iv(c.new, 32, "aggregates", True)
            c.new.assume(c.ex.S(c.new, rc) == ANS(I(-1)), Or(ANS(I(-1)) == GOOD, ANS(I(-1)) == FAIL))
            return rc
        for x in ("done", "step"):
            set_n(c, c.new, x, fint(x))
        put_result(c, c.new)
        return c.ex.fresh_iv(c.new, 32, "status", True)

    def post(self, c):
        if c.mode == "call":
            return []
        rc, d, n = c.ex.S(c.new, c.ret), n_of(c, c.new, "done"), c.aux["n"]
        return [("good or an error", Or(rc == GOOD, rc == FAIL)), ("every aggregate gets the row", Imp(rc == GOOD, And(d == n, n_of(c, c.new, "step") == 0, forall(0, n, lambda j: ANS(j) != FAIL, pats=lambda j: ANS(j))))),
                ("an error exactly of an aggregate", Imp(rc == FAIL, And(d > 0, ANS(d - 1) == FAIL)))] + [(nm, Imp(rc == GOOD, f)) for nm, f in self.kept(c, c.new, d)]


@contract
class _add_agg_result(Results):
    """every aggregate gets a result for a new group and its first row"""
    name = "_add_agg_result"
    new = True


@contract
class _update_agg_result(Results):
    """every aggregate's result for the group gets the row"""
    name = "_update_agg_result"


# ------------------------------------------------------------ a row finds its group
# how many of the first j expressions are keys (no aggregate, no row number)
KEYS = uf("KEYS_AMONG", INT, INT)
DECLEN, DECTXT, FLTLEN, FLTTXT = uf("DECIMAL_LENGTH", INT, INT), uf("DECIMAL", INT, IA), uf("FLOAT_TEXT_LENGTH", FS, INT), uf("FLOAT_TEXT", FS, IA)
AGGREGATE, ROWNUM = 12, 3


class PushInt(type(REG["flex_push_back_str_int"])):
    def data(self, c):
        if c.mode != "call" or c.ex.root.con.name != "group_record":
            return super().data(c)
        v = c.ex.S(c.new, c.args[1])
        c.new.assume(DECLEN(v) >= 1, DECLEN(v) < 32)
        return DECLEN(v), lambda j: DECTXT(v)[j]


class PushFloat(type(REG["flex_push_back_str_float"])):
    def data(self, c):
        if c.mode != "call" or c.ex.root.con.name != "group_record":
            return super().data(c)
        v = c.args[1].t
        c.new.assume(FLTLEN(v) >= 1, FLTLEN(v) < 400)
        return FLTLEN(v), lambda j: FLTTXT(v)[j]


REG["flex_push_back_str_int"], REG["flex_push_back_str_float"] = PushInt(), PushFloat()


def view_of(c, st, f, i):
    """the view of the i-th packed text: where it lies in this version of the bytes"""
    return PV("packed", Off(0, {1: f.idx(i) + z3.Int("VERSION_" + f.raw.r.rid)}))


class PairAt(type(REG["flex_pair_at"])):
    """a view of a packed text: the bytes by their place in this version of the store"""

    def effect(self, c):
        if c.ex.root is None or "packed" not in c.ex.root.aux:
            return super().effect(c)
        f = Flex(c, c.old, c.args[0])
        i = c.ex.U(c.old, c.args[1])
        v = view_of(c, c.old, f, i)
        return Agg([PV(c.ex.root.aux["packed"], v.off), IV(32, f.len(i), u=True)])

    def post(self, c):
        return [] if c.ex.root is not None and "packed" in c.ex.root.aux else super().post(c)


REG["flex_pair_at"] = PairAt()


def mk_group(c, st, items=True, ro=False):
    """a group: expressions, the texts of the groups found so far, room for the keys of a row"""
    m = lambda x: c.ex.prog.member("group", x)[0]
    r = c.ex.new_region(st, "cell", "group", size=c.ex.prog.sizeof("group"), ro=ro)
    X = mk_exprs(c, st)
    ft, kind = X.fields[c.fo("expression", "field_type")[0]][2].get, X.fields[c.fo("expression", "expr")[0]][2].get

    def embed(name, vp, heap=True):
        d = st.regions[c.get(st, vp, "vec", "data").rid]
        d.heap = heap
        for o, v in st.regions[vp.rid].cells.items():
            r.cells[m(name) + o] = v
        n = c.u(st, vp, "vec", "size")
        del st.regions[vp.rid]
        return d, n
    d, n = embed("expressions", mk_vec(c, st, "expressions", S=8, fields={0: 8})[0])
    d.fields[0] = (8, ("ptr", X.rid), d.fields[0][2])
    d.ro = True
    e, live = d.fields[0][2].get, X.ghost["live"].get
    st.assume(forall(0, n, lambda i: And(e(i) >= 1, e(i) < X.count, live(e(i)) != 0), pats=lambda i: e(i)), n < 2 ** 15)
    key = lambda j: And(kind(e(j)) != AGGREGATE, kind(e(j)) != ROWNUM)
    i, j = z3.Int("gk_i"), z3.Int("gk_j")
    st.assume(KEYS(0) == 0, forall(0, n, lambda j: KEYS(j + 1) == KEYS(j) + z3.If(key(j), I(1), I(0)), pats=lambda j: e(j)),
              # by induction from the line before (lemma keys_are_numbered_in_order)
              z3.ForAll([i, j], Imp(And(0 <= i, i <= j, j <= n), And(KEYS(i) <= KEYS(j), KEYS(j) - KEYS(i) <= j - i)), patterns=[z3.MultiPattern(KEYS(i), KEYS(j))]),
              z3.ForAll([i, j], Imp(And(0 <= i, i < j, j <= n, key(i)), KEYS(i) < KEYS(j)), patterns=[z3.MultiPattern(e(i), KEYS(j))]))
    B = c.ex.new_region(st, "arr", "packed", stride=1, count=z3.Int("packed_n"), ro=True)
    B.opaque = True
    so, sl = c.fo("stringview", "data"), c.fo("stringview", "len")
    C, cn = embed("_composite", mk_vec(c, st, "composite", S=c.ex.prog.sizeof("stringview"), fields={so[0]: so[1], sl[0]: sl[1]})[0])
    C.fields[so[0]] = (so[1], ("ptr", B.rid), C.fields[so[0]][2])
    st.assume(cn == KEYS(n))
    vals = c.ex.new_region(st, "cell", "values", size=c.ex.prog.sizeof("vec"))
    o, sz = c.fo("vec", "size")
    g = fint("groups")
    vals.cells[o] = (sz, IV(64, g, u=True))
    st.assume(g >= 0, g < 2 ** 32 - 1)
    r.cells[m("val_map") + c.fo("hashmap", "values")[0]] = (8, PV(vals.rid))
    fp = mk_flex(c, st, "group_data")
    for o, v in st.regions[fp.rid].cells.items():
        r.cells[m("group_data") + o] = v
    del st.regions[fp.rid]
    c.aux.update(X=X.rid, e=e, n=n, ft=lambda j: ft(e(j)), key=key, packed=B.rid, D=d.rid, C=C.rid, vals=vals.rid, groups=g)
    return PV(r.rid)


@lemma
def keys_are_numbered_in_order():
    """a count that goes up by one at the keys and not else: monotone, and strictly so across a key"""
    i, j = z3.Ints("i j")
    key = z3.Function("is_key", INT, BOOL)
    step = KEYS(j + 1) == KEYS(j) + z3.If(key(j), I(1), I(0))
    return [("monotone: step", [step, KEYS(i) <= KEYS(j), KEYS(j) - KEYS(i) <= j - i], And(KEYS(i) <= KEYS(j + 1), KEYS(j + 1) - KEYS(i) <= j + 1 - i)),
            ("strictly across a key: first", [step, key(j)], KEYS(j) < KEYS(j + 1)), ("strictly across a key: step", [step, KEYS(i) < KEYS(j)], KEYS(i) < KEYS(j + 1))]


def store(c, st, p):
    return Flex(c, st, PV(p.rid, Off(c.ex.prog.member("group", "group_data")[0])))


def groups(c, st):
    return c.u(st, PV(c.ex.root.aux["vals"]), "vec", "size")


def evaluated(c, j):
    k, ft = c.aux["e"](j), c.aux["ft"](j)
    ok = lambda t: Or(STAT[t](k) == GOOD, STAT[t](k) == NULL_)
    return Imp(c.aux["key"](j), And(Imp(ft == T_INT, ok("i")), Imp(ft == T_FLOAT, ok("f")), Imp(ft == T_STRING, ok("s"))))


# the text of the key that is expression number j: a number as printed, 0 or empty for NULL
KEYLEN, KEYTXT = uf("KEY_TEXT_LENGTH", INT, INT), uf("KEY_TEXT", INT, IA)


ITEM = uf("ITEM_OF_KEY", INT, INT)       # where the text of the key that is expression number j is packed


def define_keys(c, st, org):
    e, ft, zero = c.aux["e"], c.aux["ft"], c.ex.fconst(0.0)

    def d(j):
        k = e(j)
        w = lambda t, g, n, x: Imp(And(ft(j) == t, g), And(KEYLEN(j) == n, *([] if x is None else [KEYTXT(j) == x])))
        i, f, s = STAT["i"](k), STAT["f"](k), STAT["s"](k)
        return And(ITEM(j) == org + KEYS(j), w(T_INT, i == GOOD, DECLEN(IVAL(k)), DECTXT(IVAL(k))), w(T_INT, i != GOOD, DECLEN(0), DECTXT(0)), w(T_FLOAT, f == GOOD, FLTLEN(FVAL(k)), FLTTXT(FVAL(k))), w(T_FLOAT, f != GOOD, FLTLEN(zero), FLTTXT(zero)),
                   w(T_STRING, s == GOOD, TLEN(k), TARR(k)), w(T_STRING, s != GOOD, I(0), None))
    st.assume(forall(0, c.aux["n"], d, pats=lambda j: e(j)))


def key_bytes(c, f, hi, org):
    """the packed texts from org on are those of the keys among the first hi expressions"""
    j, b = z3.Int(fresh_name("j")), z3.Int(fresh_name("b"))
    k = c.aux["e"](j)
    at = And(0 <= j, j < hi, c.aux["key"](j))
    it = ITEM(j)
    x = f.byte(f.idx(it) + b)
    return [("length", z3.ForAll([j], Imp(at, f.len(it) == KEYLEN(j)), patterns=[k])),
            ("text", forall_m([j, b], Imp(And(at, 0 <= b, b < KEYLEN(j)), x == KEYTXT(j)[b]), k, x))]


class MapCall(Contract):
    trusted = True
    spec_only = True

    def pre(self, c):
        a, p = c.ex.root.aux, c.ex.root.args[0]
        m = lambda x: PV(p.rid, Off(c.ex.prog.member("group", x)[0]))
        f, old = store(c, c.old, p), store(c, c.ex.root.old, p)
        org, n = old.n, a["n"]
        R = c.ex.root
        C = c.old.regions[a["C"]]
        (so, _), (sl, _) = c.fo("stringview", "data"), c.fo("stringview", "len")
        pt, ln = C.fields[so][2].get, C.fields[sl][2].get
        nk = KEYS(n)
        return [("the map of the groups", c.peq(c.args[0], m("val_map"))), ("the keys", c.peq(c.args[1], m("_composite"))), ("a text per key", f.n == org + nk),
                ("every key is the view of its packed text", forall(0, nk, lambda i: And(pt(i) == f.idx(org + i) + z3.Int("VERSION_" + f.raw.r.rid), ln(i) == f.len(org + i)), pats=lambda i: pt(i)))] + \
            [("the row's keys: " + nm, x) for nm, x in key_bytes(R, f, n, org)]


@contract
class compositemap_get(MapCall):
    """the number of the group with these keys, NULL if there is none (property C05)"""
    name = "compositemap_get"

    def effect(self, c):
        st = c.new
        c.ex.oblige(st, z3.BoolVal("found" not in st.ghost), "pre", "looks its group up once {C27}")
        none = st.copy()
        none.ghost["found"] = "no"
        q = c.ex.new_region(st, "cell", "its_group", size=4)
        q.cells[0] = (4, c.ex.fresh_iv(st, 32, "its_group"))
        v = c.ex.U(st, q.cells[0][1])
        st.assume(v < c.ex.root.aux["groups"])
        st.ghost["found"] = "yes"
        st.ghost["group"] = v
        return [(st, PV(q.rid)), (none, NULL)]


@contract
class compositemap_set(MapCall):
    """the keys get the next number (property C05)"""
    name = "compositemap_set"

    def pre(self, c):
        q = c.old.regions.get(c.args[2].rid) if isinstance(c.args[2], PV) else None
        v = q.cells.get(c.args[2].off.const()) if q is not None and q.kind == "cell" else None
        ok = v is not None and v[0] == 4 and isinstance(v[1], IV)
        return super().pre(c) + [("only a group not there yet", z3.BoolVal(c.old.ghost.get("found") == "no" and "put" not in c.old.ghost)), ("numbered by its place", c.ex.U(c.old, v[1]) == c.ex.root.aux["groups"] if ok else z3.BoolVal(False))]

    def effect(self, c):
        c.new.ghost["put"] = "yes"
        c.set(c.new, PV(c.ex.root.aux["vals"]), "vec", "size", IV(64, c.ex.root.aux["groups"] + 1, u=True))
        return None


@contract
class group_record(Contract):
    """a row goes to the group of its keys: 1 if it is the group's first"""
    name = "group_record"
    props = ("C27",)
    lemmas = ("keys_are_numbered_in_order",)

    def setup(self, c, st):
        p = mk_group(c, st)
        f = store(c, st, p)
        st.assume(f.raw.size < 2 ** 40, f.n < 2 ** 40)
        ft = c.aux["ft"]
        st.assume(forall(0, c.aux["n"], lambda j: Imp(c.aux["key"](j), Or(ft(j) == T_INT, ft(j) == T_FLOAT, ft(j) == T_STRING)), pats=lambda j: c.aux["e"](j)))
        define_keys(c, st, f.n)
        row = c.ex.new_region(st, "cell", "rg", size=c.ex.prog.sizeof("node"), ro=True)
        st.ghost["row"] = PV(row.rid)
        return [p, PV(row.rid)]

    @property
    def loops(self):
        def keys(lp):
            c = lp.root
            p, K = c.args[0], lp.K
            o, n = store(c, c.old, p), store(c, lp.st, p)
            out = [("expressions so far", And(K >= 0, K <= c.aux["n"])), ("variant", c.aux["n"] - K)]
            for nm, v in lp.intphis():
                x = c.ex.U(lp.st, v)
                out += [("maybe", "counter (%s)" % nm, x == K), ("maybe", "keys so far (%s)" % nm, x == KEYS(K))]
            for q in lp.ptrs(c.aux["D"]):
                out.append(("expression reached", c.peq(q, PV(c.aux["D"], Off(0, {8: K})), lp.st)))
            return out + n.ok("still valid: ") + [
                ("a text per key", n.n == o.n + KEYS(K)), ("bytes so far", n.raw.size <= o.raw.size + K * 2 ** 31),
                ("texts before: length", forall(0, o.n, lambda k: n.len(k) == o.len(k))), ("texts before: place", forall(0, o.n, lambda k: n.idx(k) == o.idx(k))),
                ("texts before: bytes", forall(0, o.raw.size, lambda k: n.byte(k) == o.byte(k))), ("bytes", n.raw.size >= o.raw.size),
                ("none failed", forall(0, K, lambda j: evaluated(c, j), pats=lambda j: c.aux["e"](j)))] + [("the keys: " + nm, f) for nm, f in key_bytes(c, n, K, o.n)]

        def views(lp):
            c = lp.root
            p, K = c.args[0], lp.K
            org, f = store(c, c.old, p).n, store(c, lp.st, p)
            C = lp.st.regions[c.aux["C"]]
            (so, _), (sl, _) = c.fo("stringview", "data"), c.fo("stringview", "len")
            pt, ln = C.fields[so][2].get, C.fields[sl][2].get
            nk = KEYS(c.aux["n"])
            out = [("views so far", And(K >= 0, K <= nk)), ("variant", nk - K)]
            for nm, v in lp.intphis():
                out += [("maybe", "counter (%s)" % nm, c.ex.U(lp.st, v) == K)]
            return out + [("every key is the view of its packed text", forall(0, K, lambda i: And(pt(i) == f.idx(org + i) + z3.Int("VERSION_" + f.raw.r.rid), ln(i) == f.len(org + i)), pats=lambda i: pt(i)))]
        return [keys, views]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("grouping a row seen from a caller")
        st, p = c.new, c.args[0]
        from vec import havoc_contents, replace_data
        f = store(c, st, p)
        for v in (f.rp, f.pp):
            havoc_contents(c, st, v)
            replace_data(c, st, v)
            c.havoc_int(st, v, "vec", "_alloc")
            c.havoc_int(st, v, "vec", "size")
        havoc_contents(c, st, PV(p.rid, Off(c.ex.prog.member("group", "_composite")[0])))
        c.havoc_int(st, PV(c.aux["vals"]), "vec", "size")
        return c.ex.fresh_iv(st, 32, "status", True)

    def post(self, c):
        p = c.args[0]
        rc = c.ex.S(c.new, c.ret)
        o, n = store(c, c.old, p), store(c, c.new, p)
        G, nk, N = c.aux["groups"], KEYS(c.aux["n"]), c.aux["n"]
        j = z3.Int("gr_j")
        found, put, agg = c.new.ghost.get("found"), c.new.ghost.get("put"), c.new.ghost.get("aggregated", ())
        bad = And(z3.BoolVal(found is None), z3.Exists([j], And(j >= 0, j < N, Not(evaluated(c, j)))))
        one = z3.BoolVal(len(agg) == 1)
        upd = And(one, z3.BoolVal(bool(agg) and agg[0][0] == "_update_agg_result"), agg[0][1] == c.new.ghost["group"] if agg and agg[0][1] is not None and "group" in c.new.ghost else z3.BoolVal(False))
        add = And(one, z3.BoolVal(bool(agg) and agg[0][0] == "_add_agg_result"))
        inval = ANS(I(-1)) == FAIL if agg else z3.BoolVal(False)
        new = z3.BoolVal(found == "no")
        out = [("first of its group, another of it, or an error", Or(rc == 0, rc == 1, rc == FAIL)), ("an error exactly of a key or an aggregate", (rc == FAIL) == Or(bad, inval)),
               ("no key failed", Imp(rc != FAIL, forall(0, N, lambda j: evaluated(c, j), pats=lambda j: c.aux["e"](j)))),
               ("its group is looked up", Imp(rc != FAIL, z3.BoolVal(found is not None))), ("1 exactly for a group not there before", Imp(rc != FAIL, (rc == 1) == new)),
               ("a new group gets the keys and results", Imp(And(rc != FAIL, new), And(z3.BoolVal(put is not None), add))), ("else the results of its group get the row", Imp(And(rc != FAIL, Not(new)), And(z3.BoolVal(put is None), upd))),
               ("a group more exactly for a new one", Imp(rc != FAIL, groups(c, c.new) == G + rc)),
               ("the texts of the groups before stay: number", Imp(rc != FAIL, n.n == o.n + z3.If(rc == 1, nk, I(0))))]
        return out + n.ok("still valid: ") + [(nm, Imp(rc != FAIL, f)) for nm, f in REG["flex_resize"].items(c, o, n, I(0), o.n, 0, "the texts of the groups before stay")] + \
            [("a text for every group and key", Imp(And(o.n == nk * G, rc != FAIL), n.n == nk * groups(c, c.new)))] + [("its keys: " + nm, Imp(rc == 1, f)) for nm, f in key_bytes(c, n, N, o.n)]


# ------------------------------------------------------------ the groups come out
AGGTEXT, AGGLEN = uf("AGGREGATE_TEXT", INT, INT, INT), uf("AGGREGATE_TEXT_LENGTH", INT, INT, INT)      # of an aggregate for a group


@contract
class _read_aggregate(Contract):
    """the result an aggregate has for a group, as text"""
    name = "_read_aggregate"
    props = ("C27",)
    cases = [(x, {"t": t}) for t, x in ((T_INT, "integers"), (T_FLOAT, "floats"), (T_STRING, "texts"))]

    def setup(self, c, st):
        m = c.ex.prog.member
        t = c.case["t"]
        A = builtins_c.mk_pool(c.ex, st, "aggs", c.ex.prog.sizeof("aggregate"), {m("aggregate", "data_type")[0]: (4, "int")})
        A.ghost["aggregates"] = True
        c.ex.pools.clear()
        k = fint("agg")
        st.assume(k >= 1, k < A.count, A.ghost["live"].get(k) != 0, A.fields[m("aggregate", "data_type")[0]][2].get(k) == t)
        x = c.ex.new_region(st, "cell", "agg_expr", size=c.ex.prog.sizeof("expression"), ro=True)
        o, sz = c.fo("expression", "field")
        x.cells[o] = (8, PV(A.rid, Off(0, {A.stride: k})))
        q = result_region(c, st)
        if t == T_STRING:
            sp = mk_str(c, st, "so_far")
            for o, v in st.regions[sp.rid].cells.items():
                q.cells[o] = v
            del st.regions[sp.rid]
            st.assume(Str(c, st, PV(q.rid)).size < MAXS)
        else:
            q.cells[0] = (8, c.ex.fresh_iv(st, 64, "data", True) if t == T_INT else FV(z3.Const("data", FS)))
        q.ro = True
        raw = mk_str(c, st, "raw")
        sv = c.ex.new_region(st, "cell", "sv", size=c.ex.prog.sizeof("stringview"))
        i = c.ex.fresh_iv(st, 64, "idx")
        c.aux.update(agg=k, dump=c.ex.U(st, i), sv=sv.rid)
        return [PV(x.rid), raw, PV(sv.rid), i]

    def pre(self, c):
        if c.mode == "verify":
            return []
        a = c.ex.root.aux
        X = c.old.regions[a["X"]]
        k, o = c.ex.resolve(c.old, X, c.args[0].off) if c.args[0].rid == a["X"] else (I(-1), I(-1))
        s = c.args[1]
        g = n_of(c, c.old, "strings")
        f = fields_of(c, c.old)
        j = fint("slot")
        q, w = (c.ex.resolve(c.old, f.r, c.args[2].off) if isinstance(c.args[2], PV) and c.args[2].rid == f.r.rid else (I(-1), I(-1)))
        return [("an aggregate, for its own place in the record", And(o == 0, w == 0, q >= 0, q < a["n"], k == a["e"](q), X.fields[c.fo("expression", "expr")[0]][2].get(k) == AGGREGATE)),
                ("into a string of its own", And(z3.BoolVal(isinstance(s, PV) and s.rid == a["texts"]), n_of(c, c.old, "used") == g - 1, c.peq(s, PV(a["texts"], Off(0, {32: g})))) if isinstance(s, PV) else z3.BoolVal(False)),
                ("of the group in turn", c.ex.U(c.old, c.args[3]) == c.u(c.ex.root.old, c.ex.root.args[0], "group", "_dump_idx"))]

    def effect(self, c):
        st = c.new
        if c.mode == "call":
            a = c.ex.root.aux
            k, _ = c.ex.resolve(st, st.regions[a["X"]], c.args[0].off)
            i = c.ex.U(st, c.args[3])
            set_n(c, st, "used", n_of(c, st, "strings"))
            st.assume(AGGLEN(k, i) >= 0, AGGLEN(k, i) < 2 ** 31)
            c.set(st, c.args[2], "stringview", "data", PV(a["packed"], Off(0, {1: AGGTEXT(k, i)})))
            c.set(st, c.args[2], "stringview", "len", IV(32, AGGLEN(k, i), u=True))
            return None
        from vec import havoc_contents, replace_data
        raw = c.args[1]
        if c.case["t"] != T_STRING:
            havoc_contents(c, st, raw)
            replace_data(c, st, raw)
            c.havoc_int(st, raw, "vec", "_alloc")
            c.havoc_int(st, raw, "vec", "size")
        else:
            c.set(st, c.args[2], "stringview", "data", c.get(st, PV(c.aux["result"]), "vec", "data"))
            c.set(st, c.args[2], "stringview", "len", c.ex.fresh_iv(st, 32, "len"))
            return None
        c.set(st, c.args[2], "stringview", "data", c.get(st, raw, "vec", "data"))
        c.set(st, c.args[2], "stringview", "len", c.ex.fresh_iv(st, 32, "len"))
        return None

    def post(self, c):
        if c.mode == "call":
            return []
        t, st = c.case["t"], c.new
        d, l = c.get(st, c.args[2], "stringview", "data"), c.u(st, c.args[2], "stringview", "len")
        if t == T_STRING:
            s = Str(c, st, PV(c.aux["result"]))
            return [("the result itself", And(c.peq(d, s.data), l == s.size))]
        s = Str(c, st, c.args[1])
        fm = [v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == "fmt"]
        if len(fm) != 1:
            return [("formats the result once", z3.BoolVal(False))]
        L, txt, args = fm[0]
        v = c.old.regions[c.aux["result"]].cells[0][1]
        ok = args[0] in (("%ld",) if t == T_INT else ("%f", "%lf")) and len(args) == 2 and isinstance(args[1], IV if t == T_INT else FV)
        same = z3.BoolVal(False) if not ok else c.ex.S(st, args[1]) == c.ex.S(st, v) if t == T_INT else args[1].t == v.t
        return [("the result as a number is printed", And(same, s.size == L, forall(0, L, lambda j: s.at(j) == txt.get(j)))), ("the view is that text", And(c.peq(d, s.data), l == s.size))]


def fields_of(c, st):
    return Vec(c, st, PV(c.ex.root.args[1].rid, Off(c.ex.prog.member("record", "fields")[0])))


class Strings(Contract):
    props = ("C27",)
    cases = [("", {"none": False}), ("none yet", {"none": True})]

    def setup(self, c, st):
        r = c.ex.new_region(st, "cell", "record", size=c.ex.prog.sizeof("record"))
        o, sz = c.fo("record", "group_strings")
        mo, ms = c.fo("record", "max_group_count")
        vp, n, rid = NULL, I(0), None
        if not c.case["none"]:
            vp, _ = mk_vec(c, st, "group_strings", S=32, fields={0: 8}, heap=True)
            n, rid = c.u(st, vp, "vec", "size"), c.get(st, vp, "vec", "data").rid
            st.regions[rid].heap = True
        r.cells[o] = (sz, vp)
        m = IV(32, 0) if c.case["none"] else c.ex.fresh_iv(st, 32, "max")
        r.cells[mo] = (ms, m)
        st.assume(n <= c.ex.U(st, m), n < 2 ** 31)          # strings beyond the most there were are not made yet
        q = c.ex.new_region(st, "cell", "made", size=8)
        q.cells[0] = (8, IV(64, 0))
        c.aux.update(made=q.rid, strings=True, was=n, max=c.ex.U(st, m), vp=vp)
        return [PV(r.rid)] + self.more(c, st, vp)

    def more(self, c, st, vp):
        return []

    def vec(self, c, st):
        p = c.get(st, c.args[0], "record", "group_strings")
        return Vec(c, st, p) if isinstance(p, PV) and p.rid in st.regions else None


@contract
class record_clear_strings(Strings):
    """the record's strings are free to use again"""
    name = "record_clear_strings"

    def more(self, c, st, vp):
        return [vp]

    def pre(self, c):
        if c.mode == "verify":
            return []
        R = c.ex.root
        return [("the record's group strings", And(c.peq(c.args[0], R.args[1]), c.peq(c.args[1], PV(R.aux["strvec"])), n_of(c, c.old, "strings") == R.aux["before"]))]

    def effect(self, c):
        if c.mode == "call":
            set_n(c, c.new, "strings", I(0))
            set_n(c, c.new, "used", I(0))
        elif not c.case["none"]:
            c.havoc_int(c.new, c.args[1], "vec", "size")
        return None

    def post(self, c):
        if c.mode == "call" or c.case["none"]:
            return []
        return [("none in use", self.vec(c, c.new).size == 0)]


@contract
class record_generate_groupby_string(Strings):
    """another of the record's strings, made when there was none before"""
    name = "record_generate_groupby_string"

    def pre(self, c):
        if c.mode == "verify":
            return []
        return [("the record's", c.peq(c.args[0], c.ex.root.args[1])), ("the one before is used", n_of(c, c.old, "used") == n_of(c, c.old, "strings"))]

    def alloc_hook(self, *a):
        return None

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            v = self.vec(c, lp.st)
            m = n_of(c, lp.st, "made")
            out = [("strings made", And(m == lp.K, c.aux["max"] + m <= v.size)), ("variant", v.size - c.aux["max"] - lp.K)]
            for nm, x in lp.intphis():
                out.append(("maybe", "counter (%s)" % nm, c.ex.U(lp.st, x) == c.aux["max"] + lp.K))
            return out
        return [l0]

    def effect(self, c):
        st = c.new
        if c.mode == "call":
            n = n_of(c, st, "strings") + 1
            set_n(c, st, "strings", n)
            return PV(c.ex.root.aux["texts"], Off(0, {32: n}))
        from vec import havoc_contents, replace_data
        set_n(c, st, "made", fint("made"))
        c.havoc_int(st, c.args[0], "record", "max_group_count")
        if c.case["none"]:
            from vec import mk_vec
            vp, _ = mk_vec(c, st, "group_strings", S=32, fields={0: 8}, heap=True)
            st.regions[c.get(st, vp, "vec", "data").rid].heap = True
            c.set(st, c.args[0], "record", "group_strings", vp)
        else:
            vp = c.aux["vp"]
            havoc_contents(c, st, vp)
            replace_data(c, st, vp)
            c.havoc_int(st, vp, "vec", "_alloc")
            c.havoc_int(st, vp, "vec", "size")
        return c.get(st, vp, "vec", "data")

    def post(self, c):
        if c.mode == "call":
            return []
        v, n = self.vec(c, c.new), c.aux["was"]
        if v is None:
            return [("the record has strings", z3.BoolVal(False))]
        m = c.u(c.new, c.args[0], "record", "max_group_count")
        fresh = n == c.aux["max"]
        return [("one string more, the one returned", And(v.size == n + 1, c.peq(c.ret, v.ptr(n)))), ("made when there was none before, and only then", n_of(c, c.new, "made") == z3.If(fresh, I(1), I(0))),
                ("the most strings there were", m == z3.If(fresh, n + 1, c.aux["max"]))] + v.ok("strings still valid: ")


@lemma
def groups_lie_one_after_another():
    """the texts of group d end where those of group d + 1 begin, not after the last group's"""
    n, d, g = z3.Ints("n d g")
    return [("", [n >= 0, d >= 0, d < g], And(n * d + n <= n * g, n * d >= 0))]


@contract
class group_dump_record(Contract):
    """the next group's row: its keys and results by their places"""
    name = "group_dump_record"
    props = ("C27",)
    lemmas = ("groups_lie_one_after_another", "keys_are_numbered_in_order")
    exact_mul = True

    def setup(self, c, st):
        p = mk_group(c, st)
        f = store(c, st, p)
        st.assume(f.raw.size < 2 ** 40, f.n < 2 ** 40)
        d = c.ex.fresh_iv(st, 64, "dump_idx")
        o, sz = c.fo("group", "_dump_idx")
        st.regions[p.rid].cells[o] = (sz, d)
        D, G, nk = c.ex.U(st, d), c.aux["groups"], KEYS(c.aux["n"])
        st.assume(f.n == nk * G, D <= G, D < 2 ** 31, Imp(D < G, And(nk * D + nk <= nk * G, nk * D >= 0)))
        kind = st.regions[c.aux["X"]].fields[c.fo("expression", "expr")[0]][2].get
        st.assume(forall(0, c.aux["n"], lambda j: kind(c.aux["e"](j)) != ROWNUM, pats=lambda j: c.aux["e"](j)))
        so, sl = c.fo("stringview", "data"), c.fo("stringview", "len")
        vp, _ = mk_vec(c, st, "fields", S=c.ex.prog.sizeof("stringview"), fields={so[0]: so[1], sl[0]: sl[1]})
        F = st.regions[c.get(st, vp, "vec", "data").rid]
        F.fields[so[0]] = (so[1], ("ptr", c.aux["packed"]), F.fields[so[0]][2])
        F.heap = True
        r = c.ex.new_region(st, "cell", "record", size=c.ex.prog.sizeof("record"))
        for o, v in st.regions[vp.rid].cells.items():
            r.cells[c.ex.prog.member("record", "fields")[0] + o] = v
        del st.regions[vp.rid]
        S = c.ex.new_region(st, "cell", "group_strings", size=c.ex.prog.sizeof("vec"), ro=True)
        S.opaque = True
        o, sz = c.fo("record", "group_strings")
        r.cells[o] = (sz, PV(S.rid))
        T = c.ex.new_region(st, "arr", "texts", stride=32, count=I(2 ** 40), ro=True)
        T.opaque = True
        for x in ("strings", "used"):
            q = c.ex.new_region(st, "cell", x, size=8)
            q.cells[0] = (8, c.ex.fresh_iv(st, 64, x))
            c.aux[x] = q.rid
        b = c.ex.U(st, st.regions[c.aux["strings"]].cells[0][1])
        st.assume(b < 2 ** 31)
        c.aux.update(texts=T.rid, strvec=S.rid, before=b)
        return [p, PV(r.rid)]

    def filled(self, c, st, hi):
        """the places of the first hi expressions are filled"""
        f, s, g = fields_of(c, st), store(c, st, c.ex.root.args[0]), c.ex.root.args[0]
        (so, _), (sl, _) = c.fo("stringview", "data"), c.fo("stringview", "len")
        pt, ln, e, key = f.r.fields[so][2].get, f.r.fields[sl][2].get, c.ex.root.aux["e"], c.ex.root.aux["key"]
        d = c.u(c.ex.root.old, g, "group", "_dump_idx")
        b = KEYS(c.ex.root.aux["n"]) * d
        v = z3.Int("VERSION_" + s.raw.r.rid)
        return [("a key is the group's", forall(0, hi, lambda j: Imp(key(j), And(pt(j) == s.idx(b + KEYS(j)) + v, ln(j) == s.len(b + KEYS(j)))), pats=lambda j: e(j))),
                ("an aggregate is its result for the group", forall(0, hi, lambda j: Imp(Not(key(j)), And(pt(j) == AGGTEXT(e(j), d), ln(j) == AGGLEN(e(j), d))), pats=lambda j: e(j)))]

    @property
    def loops(self):
        def l0(lp):
            c, K = lp.root, lp.K
            nk, d = KEYS(c.aux["n"]), c.u(c.old, c.args[0], "group", "_dump_idx")
            out = [("places so far", And(K >= 0, K <= c.aux["n"])), ("variant", c.aux["n"] - K), ("every string is used", And(n_of(c, lp.st, "used") == n_of(c, lp.st, "strings"), n_of(c, lp.st, "strings") <= K))]
            for nm, v in lp.intphis():
                x = c.ex.U(lp.st, v)
                out += [("maybe", "counter (%s)" % nm, x == K), ("maybe", "texts so far (%s)" % nm, x == nk * d + KEYS(K))]
            for q in lp.ptrs(c.aux["D"]):
                out.append(("expression reached", c.peq(q, PV(c.aux["D"], Off(0, {8: K})), lp.st)))
            return out + self.filled(c, lp.st, K)
        return [l0]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("dumping a group seen from a caller")
        st, p, rec = c.new, c.args[0], c.args[1]
        from vec import havoc_contents, replace_data
        v = PV(rec.rid, Off(c.ex.prog.member("record", "fields")[0]))
        havoc_contents(c, st, v)
        replace_data(c, st, v)
        c.havoc_int(st, v, "vec", "_alloc")
        c.havoc_int(st, v, "vec", "size")
        c.havoc_int(st, p, "group", "_dump_idx")
        for x in ("strings", "used"):
            set_n(c, st, x, fint(x))
        return c.ex.fresh_iv(st, 32, "status", True)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        d, n = c.u(c.old, c.args[0], "group", "_dump_idx"), c.u(c.new, c.args[0], "group", "_dump_idx")
        more = d < c.aux["groups"]
        f = fields_of(c, c.new)
        return [("a row while there are groups", And(Or(rc == 0, rc == -1), (rc == 0) == more)), ("each group once", n == d + z3.If(more, I(1), I(0))), ("a place per expression", Imp(more, f.size == c.aux["n"]))] + \
            f.ok("fields still valid: ") + [(nm, Imp(more, x)) for nm, x in self.filled(c, c.new, c.aux["n"])]


# ------------------------------------------------------------ a query that runs again
class Destroyed(type(REG["vec_destroy"])):
    """a text result gives its memory back: each once, in order"""

    def mine(self, c):
        return c.ex.root is not None and isinstance(c.args[0], PV) and c.args[0].rid == c.ex.root.aux.get("results")

    def pre(self, c):
        if not self.mine(c):
            return super().pre(c)
        k, o = c.ex.resolve(c.old, c.old.regions[c.args[0].rid], c.args[0].off)
        return [("the next text result", And(o == 0, k == n_of(c, c.old, "freed"), k < c.ex.root.aux["count"], z3.BoolVal(c.ex.root.case["t"])))]

    def effect(self, c):
        if not self.mine(c):
            return super().effect(c)
        set_n(c, c.new, "freed", n_of(c, c.new, "freed") + 1)
        return None

    def post(self, c):
        return [] if self.mine(c) else super().post(c)


REG["vec_destroy"] = Destroyed()


@contract
class aggregate_reset(Contract):
    """an aggregate forgets its results"""
    name = "aggregate_reset"
    props = ("C27",)
    cases = [("texts", {"t": True}), ("", {"t": False})]

    def setup(self, c, st):
        r = c.ex.new_region(st, "cell", "aggregate", size=c.ex.prog.sizeof("aggregate"))
        vp, _ = mk_vec(c, st, "results", S=c.ex.prog.sizeof("aggresult"), fields={c.fo("aggresult", "qty")[0]: 4})
        for o, v in st.regions[vp.rid].cells.items():
            r.cells[c.ex.prog.member("aggregate", "results")[0] + o] = v
        d = st.regions[c.get(st, vp, "vec", "data").rid]
        d.heap = True
        n = c.u(st, vp, "vec", "size")
        del st.regions[vp.rid]
        o, sz = c.fo("aggregate", "data_type")
        t = c.ex.fresh_iv(st, 32, "data_type", True)
        r.cells[o] = (sz, t)
        st.assume((c.ex.U(st, t) == T_STRING) == z3.BoolVal(c.case["t"]))
        q = c.ex.new_region(st, "cell", "freed", size=8)
        q.cells[0] = (8, IV(64, 0))
        c.aux.update(results=d.rid, count=n, freed=q.rid)
        return [PV(r.rid)]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            f = n_of(c, lp.st, "freed")
            out = [("results so far", And(f == lp.K, f <= c.aux["count"])), ("variant", c.aux["count"] - lp.K)]
            for p in lp.ptrs(c.aux["results"]):
                out.append(("result reached", c.peq(p, PV(c.aux["results"], Off(0, {lp.st.regions[c.aux["results"]].stride: lp.K})), lp.st)))
            for nm, v in lp.intphis():
                out.append(("maybe", "counter (%s)" % nm, c.ex.U(lp.st, v) == lp.K))
            return out
        return [l0]

    def res(self, c):
        return PV(c.args[0].rid, Off(c.ex.prog.member("aggregate", "results")[0]))

    def effect(self, c):
        if c.mode == "call":
            a, d = c.ex.root.aux, n_of(c, c.new, "done")
            k, o = c.ex.resolve(c.new, c.new.regions[c.args[0].rid], c.args[0].off) if pooled(c, c.new, c.args[0]) else (I(-1), I(-1))
            c.ex.oblige(c.new, And(o == 0, d < a["n"], k == a["e"](d)), "pre", "the aggregate in turn is reset {C27}")
            set_n(c, c.new, "done", d + 1)
            return None
        set_n(c, c.new, "freed", fint("freed"))
        c.havoc_int(c.new, self.res(c), "vec", "size")
        return None

    def post(self, c):
        if c.mode == "call":
            return []
        v = Vec(c, c.new, self.res(c))
        return [("no results left", v.size == 0), ("every text's memory given back", n_of(c, c.new, "freed") == (c.aux["count"] if c.case["t"] else I(0)))]


@contract
class compositemap_clear(Contract):
    """no groups (property C05)"""
    name = "compositemap_clear"
    trusted = True
    spec_only = True

    def pre(self, c):
        return [("the map of the groups", c.peq(c.args[0], PV(c.ex.root.args[0].rid, Off(c.ex.prog.member("group", "val_map")[0]))))]

    def effect(self, c):
        set_n(c, c.new, "cleared", n_of(c, c.new, "cleared") + 1)
        return None


@contract
class group_reset(Contract):
    """no groups, no results: the query can run again"""
    name = "group_reset"
    props = ("C27",)
    cases = [("", {}), ("no group", {"none": True})]

    def setup(self, c, st):
        if c.case.get("none"):
            return [NULL]
        a = Results.setup(self, c, st)
        r = st.regions[a[0].rid]
        r.ro = False
        fp = mk_flex(c, st, "group_data")
        for o, v in st.regions[fp.rid].cells.items():
            r.cells[c.ex.prog.member("group", "group_data")[0] + o] = v
        del st.regions[fp.rid]
        o, sz = c.fo("group", "_dump_idx")
        r.cells[o] = (sz, c.ex.fresh_iv(st, 64, "dump_idx"))
        q = c.ex.new_region(st, "cell", "cleared", size=8)
        q.cells[0] = (8, IV(64, 0))
        c.aux["cleared"] = q.rid
        return [a[0]]

    new = True

    @property
    def loops(self):
        def l0(lp):
            c, a = lp.root, lp.root.aux
            out = [("aggregates so far", And(n_of(c, lp.st, "done") == lp.K, lp.K <= a["n"])), ("variant", a["n"] - lp.K)]
            for p in lp.ptrs(a["D"]):
                out.append(("aggregate reached", c.peq(p, PV(a["D"], Off(0, {8: lp.K})), lp.st)))
            for nm, v in lp.intphis():
                out.append(("maybe", "counter (%s)" % nm, c.ex.U(lp.st, v) == lp.K))
            return out
        return [l0]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("resetting a group seen from a caller")
        st = c.new
        rc = c.ex.fresh_iv(st, 32, "status", True)
        if c.case.get("none"):
            return rc
        f = store(c, st, c.args[0])
        for v in (f.rp, f.pp):
            c.havoc_int(st, v, "vec", "size")
        c.havoc_int(st, c.args[0], "group", "_dump_idx")
        for x in ("done", "cleared"):
            set_n(c, st, x, fint(x))
        return rc

    def post(self, c):
        out = [("good", c.ex.S(c.new, c.ret) == GOOD)]
        if c.case.get("none"):
            return out
        f = store(c, c.new, c.args[0])
        return out + [("every aggregate is reset", n_of(c, c.new, "done") == c.aux["n"]), ("the groups are forgotten", n_of(c, c.new, "cleared") >= 1), ("no packed texts", f.n == 0),
                      ("the next group to come out is the first", c.u(c.new, c.args[0], "group", "_dump_idx") == 0)] + f.ok("still valid: ")


@contract
class group_add_expression(Contract):
    """an expression more to group by or to show: room for its key exactly if it is one"""
    name = "group_add_expression"
    props = ("C27",)

    def setup(self, c, st):
        p = mk_group(c, st)
        a = c.aux
        st.regions[a["D"]].ro = False
        k = fint("expr")
        X = st.regions[a["X"]]
        st.assume(k >= 1, k < X.count, X.ghost["live"].get(k) != 0)
        io, isz = c.fo("expression", "index")
        X.fields[io] = (isz, "int", Base("index"))
        a["k"] = k
        return [p, PV(X.rid, Off(0, {X.stride: k}))]

    def vecs(self, c, st):
        return [Vec(c, st, PV(c.args[0].rid, Off(c.ex.prog.member("group", x)[0]))) for x in ("expressions", "_composite")]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("adding an expression seen from a caller")
        st = c.new
        from vec import havoc_contents, replace_data
        for x in ("expressions", "_composite"):
            v = PV(c.args[0].rid, Off(c.ex.prog.member("group", x)[0]))
            havoc_contents(c, st, v)
            replace_data(c, st, v)
            c.havoc_int(st, v, "vec", "_alloc")
            c.havoc_int(st, v, "vec", "size")
        X = st.regions[c.aux["X"]]
        io, isz = c.fo("expression", "index")
        f = X.fields[io]
        X.fields[io] = (f[0], f[1], St(f[2], c.aux["k"], fint("index")))
        return None

    def post(self, c):
        (oe, oc), (ne, nc) = self.vecs(c, c.old), self.vecs(c, c.new)
        k = c.aux["k"]
        X, N = c.old.regions[c.aux["X"]], c.new.regions[c.aux["X"]]
        kind = X.fields[c.fo("expression", "expr")[0]][2].get(k)
        key = And(kind != AGGREGATE, kind != ROWNUM)
        return [("one expression more, the last", And(ne.size == oe.size + 1, ne.at(oe.size) == k)), ("the others stay", forall(0, oe.size, lambda i: ne.at(i) == oe.at(i))),
                ("room for its key exactly if it is one", nc.size == oc.size + z3.If(key, I(1), I(0))), ("it knows its place", N.fields[c.fo("expression", "index")[0]][2].get(k) == oe.size)] + ne.ok("expressions still valid: ") + nc.ok("keys still valid: ")


# ------------------------------------------------------------ which function an aggregate is
COUNT_, MAX_, MIN_, SUM_, AVG_ = 3, 7, 8, 11, 1
FUNCTION = {(COUNT_, None): "fql_count"}
for _a, _n, _t in ((MAX_, "max", "ifs"), (MIN_, "min", "ifs"), (SUM_, "sum", "if"), (AVG_, "avg", "if")):
    for _k in _t:
        FUNCTION[_a, {"i": T_INT, "f": T_FLOAT, "s": T_STRING}[_k]] = "fql_%s_%s" % (_n, _k)


@contract
class aggregate_resolve(Contract):
    """the function of an aggregate, by its name and the type of what it aggregates"""
    name = "aggregate_resolve"
    props = ("C27",)
    cases = [("", {"done": False}), ("resolved before", {"done": True})]

    def setup(self, c, st):
        X = mk_exprs(c, st)
        vp, _ = mk_vec(c, st, "args", S=8, fields={0: 8}, ro=True)
        D = st.regions[c.get(st, vp, "vec", "data").rid]
        D.fields[0] = (8, ("ptr", X.rid), D.fields[0][2])
        D.ro = True
        k = D.fields[0][2].get(I(0))
        ag = c.ex.new_region(st, "cell", "aggregate", size=c.ex.prog.sizeof("aggregate"))
        t = c.ex.fresh_iv(st, 32, "agg_type")
        a = c.ex.U(st, t)
        st.assume(a >= 0, a < 14, Imp(a != COUNT_, And(c.u(st, vp, "vec", "size") >= 1, k >= 1, k < X.count, X.ghost["live"].get(k) != 0)))
        for m, v in (("args", vp), ("agg_type", t), ("data_type", c.ex.fresh_iv(st, 32, "data_type")), ("call__", FnP("fql_count") if c.case["done"] else NULL)):
            o, sz = c.fo("aggregate", m)
            ag.cells[o] = (sz, v)
        x = c.ex.new_region(st, "cell", "col", size=c.ex.prog.sizeof("expression"))
        o, sz = c.fo("expression", "field_type")
        x.cells[o] = (sz, c.ex.fresh_iv(st, 32, "field_type"))
        c.aux.update(a=a, t=X.fields[o][2].get(k))
        return [PV(ag.rid), PV(x.rid)]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("resolving an aggregate seen from a caller")
        if not c.case["done"]:
            for m in ("data_type",):
                c.havoc_int(c.new, c.args[0], "aggregate", m)
            c.set(c.new, c.args[0], "aggregate", "call__", FnP("fql_count"))
            c.havoc_int(c.new, c.args[1], "expression", "field_type")
        return c.ex.fresh_iv(c.new, 32, "status", True)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        if c.case["done"]:
            return [("good", rc == GOOD)]
        a, t = c.aux["a"], c.aux["t"]
        f = c.get(c.new, c.args[0], "aggregate", "call__")
        f = getattr(f, "name", None)
        here = lambda k: And(a == k[0], z3.BoolVal(True) if k[1] is None else t == k[1])
        known = Or(*[here(k) for k in FUNCTION])
        ty = z3.If(a == COUNT_, I(T_INT), t)
        return [("an error exactly for a function or type there is not", (rc == FAIL) == Not(known)), ("good otherwise", Or(rc == GOOD, rc == FAIL)),
                ("the function of that name for that type", Imp(known, Or(*[And(here(k), z3.BoolVal(f == n)) for k, n in FUNCTION.items()]))),
                ("the type of its value", Imp(known, And(c.u(c.new, c.args[0], "aggregate", "data_type") == ty, c.u(c.new, c.args[1], "expression", "field_type") == ty)))]
