"""Contracts for lib/logic.c: condition trees.

A tree of condition groups denotes a truth value (or an error) on a row: EVAL, a
spec function defined from the answers LEAF of its predicates.  Groups and
predicates are two pools of objects.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c

FILE = ["lib/logic.c"]
DEPS = []
FAIL = -5
INT = z3.IntSort()
LG_AND, LG_OR, LG_PREDICATE = 0, 1, 2
LEAF = z3.Function("PREDICATE_ANSWER", INT, INT)                 # predicate -> 0, 1 or FAIL on the row at hand
EVAL = z3.Function("CONDITION_VALUE", INT, INT, INT)             # group, predicate taken as true -> 0, 1 or FAIL
TREEV = z3.Function("CONDITION_TRUTH", INT, BOOL)                # group -> its truth value under VAL
VAL = z3.Function("PREDICATE_TRUTH", INT, BOOL)                  # any assignment of truth values to predicates
HEIGHT = z3.Function("CONDITION_HEIGHT", INT, INT)
COUNT = z3.Function("CONDITION_COUNT", INT, INT)


class Groups:
    """the pool of condition groups and what its trees mean"""

    def __init__(self, c, st, rid):
        m = c.ex.prog.member
        self.r = r = st.regions[rid]
        f = lambda x, o=0: r.fields[m("logicgroup", x)[0] + o][2].get
        self.type, self.i0, self.i1, self.cond, self.neg = f("type"), f("items"), f("items", 8), f("condition"), f("negation")
        self.live = r.ghost["live"].get

    def define(self, g):
        """the definitions of EVAL, TREEV, HEIGHT and COUNT at group g"""
        s = z3.Int("skip")
        pred = self.type(g) == LG_PREDICATE
        not_ = lambda v: z3.If(self.neg(g) != 0, 1 - v, v)
        nz = lambda v: z3.If(v == FAIL, I(FAIL), not_(v))
        a, b = EVAL(self.i0(g), s), EVAL(self.i1(g), s)
        both = z3.If(Or(a == FAIL, And(self.type(g) == LG_AND, a == 0), And(self.type(g) == LG_OR, a == 1)), a, b)
        ta, tb = TREEV(self.i0(g)), TREEV(self.i1(g))
        return [z3.ForAll([s], EVAL(g, s) == z3.If(pred, z3.If(self.cond(g) == s, I(1), nz(LEAF(self.cond(g)))), nz(both)), patterns=[EVAL(g, s)]),
                TREEV(g) == z3.Xor(self.neg(g) != 0, z3.If(pred, VAL(self.cond(g)), z3.If(self.type(g) == LG_AND, And(ta, tb), Or(ta, tb)))),
                COUNT(0) == 0, COUNT(g) == z3.If(pred, I(1), I(0)) + COUNT(self.i0(g)) + COUNT(self.i1(g))]


def mk_groups(c, st, names=("logicgroups", "logics")):
    m = c.ex.prog.member
    L = builtins_c.mk_pool(c.ex, st, names[1], c.ex.prog.sizeof("logic"), {m("logic", "logic__")[0]: (8, ("fn", "predicate"))})
    it = m("logicgroup", "items")[0]
    G = builtins_c.mk_pool(c.ex, st, names[0], c.ex.prog.sizeof("logicgroup"),
                           {m("logicgroup", "type")[0]: (4, "int"), it: (8, "self"), it + 8: (8, "self"), m("logicgroup", "condition")[0]: (8, ("ptr", L.rid)), m("logicgroup", "negation")[0]: (1, "int")})
    g = Groups(c, st, G.rid)
    i = z3.Int("lg_i")
    k = lambda x: And(x >= 1, x < G.count, g.live(x) != 0)
    st.assume(forall(0, G.count, lambda i: Imp(And(i >= 1, g.live(i) != 0),
                     And(g.type(i) >= 0, g.type(i) <= 2, g.neg(i) >= 0, g.neg(i) <= 1, HEIGHT(i) >= 0,
                         Imp(g.type(i) == LG_PREDICATE, And(g.cond(i) >= 1, g.cond(i) < L.count, L.ghost["live"].get(g.cond(i)) != 0, g.i0(i) == 0, g.i1(i) == 0)),
                         Imp(g.type(i) != LG_PREDICATE, And(k(g.i0(i)), k(g.i1(i)), HEIGHT(g.i0(i)) < HEIGHT(i), HEIGHT(g.i1(i)) < HEIGHT(i))))), pats=lambda i: g.type(i)),
              forall(0, L.count, lambda i: Or(LEAF(i) == 0, LEAF(i) == 1, LEAF(i) == FAIL), pats=lambda i: LEAF(i)),
              COUNT(0) == 0)
    return G, L, g


def mk_row(c, st):
    """the row conditions and expressions are evaluated on"""
    rg = c.ex.new_region(st, "cell", "rg", size=8, ro=True)
    st.ghost["row"] = PV(rg.rid)
    return rg


def about_row(c, i):
    """argument i is the row the caller was given"""
    row = c.old.ghost.get("row")
    return [("evaluated on the row at hand", c.peq(c.args[i], row))] if c.mode == "call" and row is not None else []


def pool_key(c, st, p):
    """the index of the object p points to, NULL = 0"""
    if p is NULL or (isinstance(p, PV) and p.rid is None):
        return I(0)
    if not isinstance(p, PV):
        raise Unsupported("not a pointer")
    k, o = c.ex.resolve(st, st.regions[p.rid], p.off)
    return k


@contract
class predicate(Contract):
    """the answer of a predicate: true, false or an error (property C21)"""
    name = "predicate"
    trusted = True
    spec_only = True

    def pre(self, c):
        return about_row(c, 1)

    def effect(self, c):
        rc = c.ex.fresh_iv(c.new, 32, "answer", True)
        k = pool_key(c, c.new, c.args[0])
        c.new.assume(c.ex.S(c.new, rc) == LEAF(k), Or(LEAF(k) == 0, LEAF(k) == 1, LEAF(k) == FAIL))
        return rc


class Tree(Contract):
    props = ("C22",)

    def mk(self, c, st):
        G, L, g = mk_groups(c, st)
        k = fint("group")
        st.assume(And(k >= 1, k < G.count, g.live(k) != 0), *g.define(k))
        return G, L, g, k

    def ok(self, c):
        p = c.args[0]
        r = c.old.regions.get(p.rid) if isinstance(p, PV) and p.rid is not None else None
        if r is None or "live" not in r.ghost or r.stride != c.ex.prog.sizeof("logicgroup"):
            return [("a condition", z3.BoolVal(False))]
        k, o = c.ex.resolve(c.old, r, p.off)
        return [("a condition", And(o == 0, k >= 1, k < r.count, r.ghost["live"].get(k) != 0))]

    def pre(self, c):
        return self.ok(c)

    def key(self, c):
        return pool_key(c, c.old, c.args[0])

    def measure(self, c):
        return HEIGHT(pool_key(c, c.old, c.args[0]))


@contract
class logicgroup_eval(Tree):
    """a condition evaluates to the value of its AND/OR/NOT expression, errors passed on"""
    name = "logicgroup_eval"
    lemmas = ("a_condition_without_errors_is_its_boolean_expression",)

    def setup(self, c, st):
        G, L, g, k = self.mk(c, st)
        s = fint("skip")
        st.assume(Or(s == 0, And(s >= 1, s < L.count, L.ghost["live"].get(s) != 0)))
        rg = mk_row(c, st)
        return [PV(G.rid, Off(0, {G.stride: k})), PV(rg.rid), PV(L.rid, Off(0, {L.stride: s}))]

    def pre(self, c):
        return self.ok(c) + about_row(c, 1)

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "value", True)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        s = pool_key(c, c.old, c.args[2])
        return [("true, false or an error", Or(rc == 0, rc == 1, rc == FAIL)), ("the value of the expression", rc == EVAL(self.key(c), s))]


@lemma
def a_condition_without_errors_is_its_boolean_expression():
    """one step of the induction over trees: if no operand fails, AND, OR and NOT mean what they say"""
    a, b, ty, neg = z3.Ints("a b type neg")
    h = [Or(a == 0, a == 1), Or(b == 0, b == 1), Or(ty == LG_AND, ty == LG_OR), Or(neg == 0, neg == 1)]
    both = z3.If(Or(And(ty == LG_AND, a == 0), And(ty == LG_OR, a == 1)), a, b)
    v = z3.If(neg != 0, 1 - both, both)
    return [("AND and OR", h, (v == 1) == z3.Xor(neg == 1, z3.If(ty == LG_AND, And(a == 1, b == 1), Or(a == 1, b == 1)))), ("two values", h, Or(v == 0, v == 1))]


@contract
class logic_can_be_false(Tree):
    """0 only if the condition cannot hold without the predicate"""
    name = "logic_can_be_false"

    def setup(self, c, st):
        G, L, g, k = self.mk(c, st)
        s = fint("check")
        st.assume(And(s >= 1, s < L.count, L.ghost["live"].get(s) != 0))
        c.aux["g"] = g
        return [PV(G.rid, Off(0, {G.stride: k})), PV(L.rid, Off(0, {L.stride: s}))]

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "can", True)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        s = pool_key(c, c.old, c.args[1])
        out = [("0 or 1", Or(rc == 0, rc == 1)), ("0 only if the condition is false whenever the predicate is false, whatever the other predicates are", Imp(And(rc == 0, Not(VAL(s))), Not(TREEV(self.key(c)))))]
        if c.mode == "verify":
            # a plain AND of predicates is recognised
            g, k = c.aux["g"], self.key(c)
            out.append(("an equality on its own, not negated, is found", Imp(And(g.type(k) == LG_PREDICATE, g.cond(k) == s, g.neg(k) == 0), rc == 0)))
        return out


@contract
class _get_condition_count(Tree):
    """the number of predicates of the condition is added to *count"""
    name = "_get_condition_count"

    def setup(self, c, st):
        G, L, g, k = self.mk(c, st)
        r = c.ex.new_region(st, "cell", "count", size=4)
        r.cells[0] = (4, c.ex.fresh_iv(st, 32, "count"))
        return [PV(G.rid, Off(0, {G.stride: k})), PV(r.rid)]

    def val(self, c, st):
        p = c.args[1]
        return c.ex.U(st, c.ex.load_cell(st, st.regions[p.rid], p.off.const(), 4, "i32"))

    def effect(self, c):
        p = c.args[1]
        c.ex.store_cell(c.new, c.new.regions[p.rid], p.off.const(), 4, c.ex.fresh_iv(c.new, 32, "count"))
        return None

    def post(self, c):
        return [("one for each predicate", self.val(c, c.new) == (self.val(c, c.old) + COUNT(self.key(c))) % 2 ** 32)]


@contract
class logicgroup_get_condition_count(Tree):
    """the number of predicates of the condition"""
    name = "logicgroup_get_condition_count"

    def setup(self, c, st):
        G, L, g, k = self.mk(c, st)
        return [PV(G.rid, Off(0, {G.stride: k}))]

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "count")

    def post(self, c):
        return [("the number of its predicates", c.ex.U(c.new, c.ret) == COUNT(self.key(c)) % 2 ** 32)]
