"""Contracts for lib/schema.c: which tables the operands of an equality use, and the choice
of an equality for a hash join.

USES_LEFT / USES_RIGHT are spec functions of an expression: whether its value depends on a
table before / from the table being joined.  They are defined for columns, whole records,
constants and function calls; for every other kind nothing is known, so code that relies on
anything about those cannot be proved.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
from vec import mk_vec
from logic import mk_groups, pool_key, HEIGHT, VAL, TREEV, LG_PREDICATE, Groups

FILE = ["lib/schema.c", "lib/table.c", "lib/logic.c", "lib/field.c", "util/vec.c"]
DEPS = ["logic", "field"]
INT = z3.IntSort()
COLUMN, REC, EXPR_CONST, NULLEX, FUNCTION = 1, 4, 8, 9, 11
UNDEF, LEFT, RIGHT, MIXED = range(4)
USES = {LEFT: z3.Function("USES_LEFT", INT, BOOL), RIGHT: z3.Function("USES_RIGHT", INT, BOOL)}
WIT = {LEFT: z3.Function("WHICH_ARGUMENT_LEFT", INT, INT), RIGHT: z3.Function("WHICH_ARGUMENT_RIGHT", INT, INT)}
EHEIGHT = z3.Function("EXPRESSION_HEIGHT", INT, INT)


class Const(Arr):
    def __init__(self, v):
        self.v = v

    def get(self, i):
        return I(self.v)

    def z3(self, hyps):
        return z3.K(INT, I(self.v))


class Exprs:
    """expressions, the functions they call and the vectors of their arguments"""

    def __init__(self, c, st):
        m = c.ex.prog.member
        E = c.ex.prog.sizeof("expression")
        mk = lambda n, s, f: builtins_c.mk_pool(c.ex, st, n, s, f)
        o = lambda s, x: m(s, x)[0]
        S = mk("slots", 8, {0: (8, "int")})
        V = mk("argvecs", c.ex.prog.sizeof("vec"), {o("vec", "data"): (8, ("ptr", S.rid)), o("vec", "size"): (8, "int"), o("vec", "_elem_size"): (8, "int")})
        F = mk("functions", c.ex.prog.sizeof("function"), {o("function", "args"): (8, ("ptr", V.rid))})
        X = mk("exprs", E, {o("expression", "data_source"): (8, "self"), o("expression", "field"): (8, ("ptr", F.rid)),
                            **{o("expression", x): (4, "int") for x in ("expr", "src_idx", "subquery_src_idx", "field_type")}})
        S.fields[0] = (8, ("ptr", X.rid), S.fields[0][2])
        es = o("vec", "_elem_size")
        V.fields[es] = (8, "int", Const(8))
        S.ghost["live"] = Const(1)
        f = lambda r, s, x: r.fields[o(s, x)][2].get
        self.kind, self.src, self.sub, self.ds, self.fn, self.ft = (f(X, "expression", x) for x in ("expr", "src_idx", "subquery_src_idx", "data_source", "field", "field_type"))
        self.args, self.data, self.size, self.slot = f(F, "function", "args"), f(V, "vec", "data"), f(V, "vec", "size"), S.fields[0][2].get
        self.X, self.S, self.V, self.F = X.rid, S.rid, V.rid, F.rid
        live = lambda r: r.ghost["live"].get
        ok = lambda r: (lambda k: And(k >= 1, k < r.count, live(r)(k) != 0))
        self.ok, okf, okv = ok(X), ok(F), ok(V)
        st.assume(forall(0, X.count, lambda i: And(self.kind(i) >= 0, self.kind(i) < 2 ** 32, self.ft(i) >= 0, self.ft(i) < 2 ** 32, self.src(i) >= 0, self.src(i) < 2 ** 32, self.sub(i) >= 0, self.sub(i) < 2 ** 32, EHEIGHT(i) >= 0), pats=lambda i: self.kind(i)),
                  forall(0, X.count, lambda i: Imp(Or(self.kind(i) == COLUMN), self.ok(self.ds(i))), pats=lambda i: self.ds(i)),
                  forall(0, X.count, lambda i: Imp(self.kind(i) == FUNCTION, And(okf(self.fn(i)), okv(self.args(self.fn(i))), self.size(self.args(self.fn(i))) >= 0,
                                                                               self.data(self.args(self.fn(i))) >= 1, self.data(self.args(self.fn(i))) + self.size(self.args(self.fn(i))) < S.count)), pats=lambda i: self.fn(i)))

    def at(self, e, j):
        """the j-th argument of the function e calls"""
        return self.slot(self.data(self.args(self.fn(e))) + j)

    def n(self, e):
        return self.size(self.args(self.fn(e)))

    def define(self, e, right):
        """what expression e uses, seen from the join of table number `right`"""
        sg = lambda v: z3.If(v >= 2 ** 31, v - 2 ** 32, v)
        srct = z3.If(self.kind(e) == REC, sg(self.src(e)), z3.If(sg(self.sub(e)) == -1, sg(self.src(self.ds(e))), sg(self.sub(e))))
        out = [Imp(Or(self.kind(e) == REC, self.kind(e) == COLUMN), And(USES[LEFT](e) == (srct < right), USES[RIGHT](e) == (srct >= right))),
               Imp(Or(self.kind(e) == EXPR_CONST, self.kind(e) == NULLEX), And(Not(USES[LEFT](e)), Not(USES[RIGHT](e))))]
        n = self.n(e)
        for s in (LEFT, RIGHT):
            w = WIT[s](e)
            out.append(Imp(And(self.kind(e) == FUNCTION, USES[s](e)), And(w >= 0, w < n, USES[s](self.at(e, w)))))
        out.append(Imp(self.kind(e) == FUNCTION, forall(0, n, lambda j: And(self.ok(self.at(e, j)), EHEIGHT(self.at(e, j)) < EHEIGHT(e)), pats=lambda j: self.at(e, j))))
        return out


def right_side(c, st):
    """the number of the table that is joined"""
    r = c.ex.fresh_iv(st, 32, "right_idx", True)
    st.ghost["right"] = c.ex.S(st, r)
    return r


def fits_side(rc, e):
    """what the answer rc promises about expression e"""
    return [("one of the sides", And(rc >= UNDEF, rc <= MIXED)),
            ("left: the joined table is not used", Imp(rc == LEFT, Not(USES[RIGHT](e)))),
            ("right: no table before it is used", Imp(rc == RIGHT, Not(USES[LEFT](e)))),
            ("no side: no table is used", Imp(rc == UNDEF, And(Not(USES[LEFT](e)), Not(USES[RIGHT](e)))))]


@contract
class _get_join_side(Contract):
    """tells which side of a join an expression belongs to"""
    name = "_get_join_side"
    props = ("C22",)

    def setup(self, c, st):
        x = Exprs(c, st)
        k = fint("expr")
        r = right_side(c, st)
        st.assume(x.ok(k), *x.define(k, st.ghost["right"]))
        c.aux["x"], c.aux["k"] = x, k
        X = st.regions[x.X]
        return [PV(X.rid, Off(0, {X.stride: k})), r]

    def pre(self, c):
        p = c.args[0]
        r = c.old.regions.get(p.rid) if isinstance(p, PV) and p.rid is not None else None
        if r is None or "live" not in r.ghost or r.stride != c.ex.prog.sizeof("expression"):
            return [("an expression", z3.BoolVal(False))]
        k, o = c.ex.resolve(c.old, r, p.off)
        out = [("an expression", And(o == 0, k >= 1, k < r.count, r.ghost["live"].get(k) != 0))]
        if c.mode == "call":
            out.append(("seen from the same join", c.ex.S(c.old, c.args[1]) == c.old.ghost["right"]))
        return out

    def measure(self, c):
        return EHEIGHT(pool_key(c, c.old, c.args[0]))

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "side")

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            x, k = c.aux["x"], c.aux["k"]
            out = [("arguments passed", And(lp.K >= 0, lp.K <= x.n(k))), ("variant", x.n(k) - lp.K)]
            S = lp.st.regions[x.S]
            for p in lp.ptrs(x.S):
                out.append(("argument reached", c.peq(p, PV(S.rid, Off(0, {S.stride: x.data(x.args(x.fn(k))) + lp.K})), lp.st)))
            no = lambda d: forall(0, lp.K, lambda j: Not(USES[d](x.at(k, j))), pats=lambda j: x.at(k, j))
            for nm, v in lp.intphis():
                if v.bits == 32:
                    s = c.ex.U(lp.st, v)
                    out += [("maybe", "side so far (%s)" % nm, And(s >= UNDEF, s <= MIXED)), ("maybe", "left so far (%s)" % nm, Imp(s == LEFT, no(RIGHT))),
                            ("maybe", "right so far (%s)" % nm, Imp(s == RIGHT, no(LEFT))), ("maybe", "none so far (%s)" % nm, Imp(s == UNDEF, And(no(LEFT), no(RIGHT)))),
                            ("maybe", "counter (%s)" % nm, s == lp.K)]
            return out
        return [l0]

    def post(self, c):
        rc = c.ex.U(c.new, c.ret)
        return fits_side(rc, pool_key(c, c.old, c.args[0]))


@contract
class _resolve_join_conditions(Contract):
    """picks an equality that the join condition requires and whose operands belong to the two sides"""
    name = "_resolve_join_conditions"
    props = ("C22",)
    cases = [("condition", {"cond": True}), ("no condition", {"cond": False})]

    def setup(self, c, st):
        m = c.ex.prog.member
        x = Exprs(c, st)
        G, L, g = mk_groups(c, st)
        X = st.regions[x.X]
        e = m("logic", "expr")[0]
        for o in (e, e + 8):
            L.fields[o] = (8, ("ptr", X.rid), Base("operand"))
        ops = [L.fields[e][2].get, L.fields[e + 8][2].get]
        live = L.ghost["live"].get
        r = right_side(c, st)
        right = st.ghost["right"]
        i = z3.Int("sj_i")
        st.assume(forall(0, L.count, lambda i: Imp(live(i) != 0, And(x.ok(ops[0](i)), x.ok(ops[1](i)), *[And(x.ft(o(i)) >= 0, x.ft(o(i)) <= 2) for o in ops])), pats=lambda i: live(i)))
        # the equalities found when the condition was parsed
        T = builtins_c.mk_pool(c.ex, st, "joinslots", 8, {0: (8, ("ptr", L.rid))})
        V = builtins_c.mk_pool(c.ex, st, "joinvecs", c.ex.prog.sizeof("vec"), {m("vec", "data")[0]: (8, ("ptr", T.rid)), m("vec", "size")[0]: (8, "int"), m("vec", "_elem_size")[0]: (8, "int")})
        V.fields[m("vec", "_elem_size")[0]] = (8, "int", Const(8))
        T.ghost["live"] = Const(1)
        c.ex.pools.clear()              # what is allocated is a hash join, not one of these
        data, size, slot = V.fields[m("vec", "data")[0]][2].get, V.fields[m("vec", "size")[0]][2].get, T.fields[0][2].get
        G.fields[m("logicgroup", "joinable")[0]] = (8, ("ptr", V.rid), Base("joinable"))
        G.fields[m("logicgroup", "join_logic")[0]] = (8, ("ptr", L.rid), Base("join_logic"))
        jo = G.fields[m("logicgroup", "joinable")[0]][2].get
        k = fint("condition")
        t = c.ex.new_region(st, "cell", "table", size=c.ex.prog.sizeof("table"))
        put = lambda x, v: t.cells.__setitem__(m("table", x)[0], (8, v))
        put("join_data", c.ex.fresh_iv(st, 64, "join_data"))
        c.aux.update(x=x, g=g, ops=ops, k=k, G=G.rid, L=L.rid)
        if c.case["cond"]:
            v = jo(k)
            st.assume(k >= 1, k < G.count, g.live(k) != 0, *g.define(k))
            st.assume(Or(v == 0, And(v >= 1, v < V.count, V.ghost["live"].get(v) != 0)))
            st.assume(Imp(v != 0, And(data(v) >= 1, size(v) >= 0, data(v) + size(v) < T.count, forall(0, size(v), lambda j: And(slot(data(v) + j) >= 1, slot(data(v) + j) < L.count, live(slot(data(v) + j)) != 0), pats=lambda j: slot(data(v) + j)))))
            put("condition", PV(G.rid, Off(0, {G.stride: k})))
            c.aux.update(first=data(v), n=size(v), slot=slot, T=T.rid, v=v)
        else:
            put("condition", NULL)
        return [PV(t.rid), r]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            T = lp.st.regions[c.aux["T"]]
            out = [("equalities passed", And(lp.K >= 0, lp.K <= c.aux["n"])), ("variant", c.aux["n"] - lp.K)]
            for p in lp.ptrs(T.rid):
                out.append(("equality reached", c.peq(p, PV(T.rid, Off(0, {T.stride: c.aux["first"] + lp.K})), lp.st)))
            return out
        return [l0]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("the choice of a hash join seen from a caller")
        p = c.args[0]
        m = c.ex.prog.member
        c.set(c.new, p, "table", "join_data", c.ex.fresh_iv(c.new, 64, "join_data"))
        if c.case["cond"]:
            f = c.new.regions[c.aux["G"]].fields
            o = m("logicgroup", "join_logic")[0]
            f[o] = (8, f[o][1], St(f[o][2], c.aux["k"], fint("join_logic")))
        return None

    def post(self, c):
        m = c.ex.prog.member
        t = c.args[0]
        hj = c.new.regions[t.rid].cells[m("table", "join_data")[0]][1]
        old = c.old.regions[t.rid].cells[m("table", "join_data")[0]][1]
        if hj is old or not isinstance(hj, PV):
            same = hj is old or c.ex.U(c.new, hj) == c.ex.U(c.old, old)
            out = [("no hash join unless one is set up", same if z3.is_expr(same) else z3.BoolVal(bool(same)))]
            if c.case["cond"]:
                o = m("logicgroup", "join_logic")[0]
                k = c.aux["k"]
                out.append(("no equality is taken out of the condition", c.new.regions[c.aux["G"]].fields[o][2].get(k) == c.old.regions[c.aux["G"]].fields[o][2].get(k)))
            return out
        if not c.case["cond"] or hj.rid is None:
            return [("no hash join without a condition", z3.BoolVal(False))]
        x, k, ops = c.aux["x"], c.aux["k"], c.aux["ops"]
        jl = c.new.regions[c.aux["G"]].fields[m("logicgroup", "join_logic")[0]][2].get(k)
        re, le = (pool_key(c, c.new, c.get(c.new, hj, "hashjoin", f)) for f in ("right_expr", "left_expr"))
        ct = c.u(c.new, hj, "hashjoin", "comp_type")
        j = z3.Int("sj_j")
        a, b = x.ft(re), x.ft(le)
        return [("the equality is one of the condition's", z3.Exists([j], And(j >= 0, j < c.aux["n"], c.aux["slot"](c.aux["first"] + j) == jl))),
                ("the condition is false whenever the equality is", Imp(Not(VAL(jl)), Not(TREEV(k)))),
                ("its operands are those of the hash join", Or(And(re == ops[0](jl), le == ops[1](jl)), And(re == ops[1](jl), le == ops[0](jl)))),
                ("the operand of the joined table uses no table before it", Not(USES[LEFT](re))),
                ("the other operand does not use the joined table", Not(USES[RIGHT](le))),
                ("compared as the higher of their types", ct == z3.If(a == b, a, z3.If(a == 2, b, z3.If(b == 2, a, I(1))))),
                ("the join starts by reading the joined table", c.u(c.new, hj, "hashjoin", "state") == RIGHT)]
