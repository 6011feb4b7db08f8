"""Contracts for util/dgraph.c: the plan graph.

All graph nodes are objects of one pool (object 0 is NULL).  A graph is the
sequence of its nodes (no node twice, ghost `pos` is the inverse), the list of
roots found last, and the traversal state: visit counts, the ring buffer of
pending nodes, how many roots were entered.

Spec functions (definitional): NOIN(.., i, x): none of the first i nodes points
to x.  RIDX(.., i): how many of the first i nodes are selected as roots.
CNT / SUM: number of visited nodes / sum of visit counts over a prefix.
PEND: the node is in the
ring buffer.  REACH: any set of nodes that contains the roots and every follower of a member.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, forall_m
import builtins_c
from vec import Vec, mk_vec, havoc_contents, replace_data, posidx
from fifo import Fifo, mk_fifo

FILE = ["util/dgraph.c", "util/fifo.c", "util/vec.c"]
DEPS = ["vec", "fifo"]
BIG = 2 ** 28
INT = z3.IntSort()
BOOL = z3.BoolSort()

NOIN = z3.Function("NOIN", IA, IA, IA, INT, INT, BOOL)     # out0, out1, nodes, prefix, x
WIN = z3.Function("WIN", IA, IA, IA, INT, INT, INT)        # a position pointing to x
RROOT = z3.Function("RROOT", IA, IA, INT, INT)             # is_root marks, nodes, prefix
RNOIN = z3.Function("RNOIN", IA, IA, IA, INT, INT, INT)    # out0, out1, nodes, all, prefix
CNT = z3.Function("CNT", IA, IA, INT, INT)                 # visit counts, nodes, prefix
SUM = z3.Function("SUM", IA, IA, INT, INT)
PEND = z3.Function("PEND", IA, INT, INT, INT, INT, BOOL)   # items, head, tail, slots, node: is pending
PSLOT = z3.Function("PSLOT", IA, INT, INT, INT, INT, INT)  # a slot that holds it
REACH = z3.Function("REACH", INT, BOOL)
Sel = z3.Select


def noin_def(a, b, at, i):
    """definition of NOIN for the prefix i"""
    x, j = z3.Ints("nx nj")
    N = NOIN(a, b, at, i, x)
    w = WIN(a, b, at, i, x)
    return And(z3.ForAll([x, j], Imp(And(N, j >= 0, j < i), And(Sel(a, Sel(at, j)) != x, Sel(b, Sel(at, j)) != x)), patterns=[z3.MultiPattern(N, Sel(at, j))]),
               z3.ForAll([x], Imp(Not(N), And(w >= 0, w < i, Or(Sel(a, Sel(at, w)) == x, Sel(b, Sel(at, w)) == x))), patterns=[N]))


def rroot_def(rt, at, i):
    """RROOT at 0 and from i to i + 1"""
    return And(RROOT(rt, at, I(0)) == 0, Imp(i >= 0, RROOT(rt, at, i + 1) == RROOT(rt, at, i) + z3.If(Sel(rt, Sel(at, i)) != 0, I(1), I(0))))


def rnoin_def(a, b, at, n, i):
    return And(RNOIN(a, b, at, n, I(0)) == 0, Imp(i >= 0, RNOIN(a, b, at, n, i + 1) == RNOIN(a, b, at, n, i) + z3.If(NOIN(a, b, at, n, Sel(at, i)), I(1), I(0))))


def cnt_def(v, at, i):
    return And(CNT(v, at, I(0)) == 0, Imp(i >= 0, CNT(v, at, i + 1) == CNT(v, at, i) + z3.If(Sel(v, Sel(at, i)) > 0, I(1), I(0))))


def sum_def(v, at, i):
    return And(SUM(v, at, I(0)) == 0, Imp(i >= 0, SUM(v, at, i + 1) == SUM(v, at, i) + Sel(v, Sel(at, i))))


# -- lemma instances -------------------------------------------------------
def L_range(v, at, n):
    return Imp(n >= 0, And(CNT(v, at, n) >= 0, CNT(v, at, n) <= n))


def L_two(v, at, n):
    """two unvisited positions leave at most n - 2 visited ones"""
    p, q = z3.Ints("lp lq")
    return z3.ForAll([p, q], Imp(And(p >= 0, p < q, q < n, Sel(v, Sel(at, p)) <= 0, Sel(v, Sel(at, q)) <= 0), CNT(v, at, n) <= n - 2),
                     patterns=[z3.MultiPattern(Sel(at, p), Sel(at, q))])


def nonneg(v, at, n):
    return forall(0, n, lambda j: Sel(v, Sel(at, j)) >= 0)


def L_sum(v, at, n):
    p = z3.Int("lp")
    return Imp(nonneg(v, at, n), z3.ForAll([p], Imp(And(p >= 0, p < n), Sel(v, Sel(at, p)) <= SUM(v, at, n)), patterns=[Sel(at, p)]))


def L_upd(v, x, w, at, p, n):
    """changing the count of the node at position p (and nowhere else)"""
    v2 = z3.Store(v, x, w)
    here = And(p >= 0, p < n, forall(0, n, lambda j: (Sel(at, j) == x) == (j == p)))
    return Imp(here, And(CNT(v2, at, n) == CNT(v, at, n) + z3.If(w > 0, I(1), I(0)) - z3.If(Sel(v, x) > 0, I(1), I(0)),
                         SUM(v2, at, n) == SUM(v, at, n) + w - Sel(v, x)))


def L_zero(v, at, n):
    return Imp(And(n >= 0, forall(0, n, lambda j: Sel(v, Sel(at, j)) == 0)), And(CNT(v, at, n) == 0, SUM(v, at, n) == 0))


@lemma
def visit_counting():
    v, at = z3.Const("v", IA), z3.Const("at", IA)
    n, x, w, p, q = z3.Ints("n x w p q")
    d = [cnt_def(v, at, n), sum_def(v, at, n)]
    v2 = z3.Store(v, x, w)
    d2 = d + [cnt_def(v2, at, n), sum_def(v2, at, n)]
    un = lambda p: Sel(v, Sel(at, p)) <= 0
    one = lambda n: forall(0, n, lambda p: Imp(un(p), CNT(v, at, n) <= n - 1), pats=lambda p: Sel(at, p))
    only = lambda n: forall(0, n, lambda j: (Sel(at, j) == x) == (j == p))
    D = lambda n: And(CNT(v2, at, n) == CNT(v, at, n) + z3.If(p < n, z3.If(w > 0, I(1), I(0)) - z3.If(Sel(v, x) > 0, I(1), I(0)), I(0)),
                      SUM(v2, at, n) == SUM(v, at, n) + z3.If(p < n, w - Sel(v, x), I(0)))
    return [("range base", d, L_range(v, at, I(0))), ("range step", d + [n >= 0, L_range(v, at, n)], L_range(v, at, n + 1)),
            ("one unvisited base", d, one(I(0))), ("one unvisited step", d + [n >= 0, L_range(v, at, n), one(n)], one(n + 1)),
            ("two unvisited base", d, L_two(v, at, I(0))), ("two unvisited step", d + [n >= 0, one(n), L_two(v, at, n)], L_two(v, at, n + 1)),
            ("sum base", d, And(L_sum(v, at, I(0)), SUM(v, at, I(0)) >= 0)),
            ("sum step", d + [n >= 0, Imp(nonneg(v, at, n), SUM(v, at, n) >= 0), L_sum(v, at, n)], And(L_sum(v, at, n + 1), Imp(nonneg(v, at, n + 1), SUM(v, at, n + 1) >= 0))),
            ("update base", d2 + [p >= 0], D(I(0))), ("update step", d2 + [n >= 0, p >= 0, D(n), only(n + 1), Imp(p <= n, Sel(at, p) == x)], D(n + 1)),
            ("zero base", d, L_zero(v, at, I(0))), ("zero step", d + [n >= 0, L_zero(v, at, n)], L_zero(v, at, n + 1))]


# -- the graph --------------------------------------------------------------
class G:
    def __init__(self, c, st, p, gh="pos"):
        self.c, self.st, self.p, self.gh = c, st, p, gh
        self.pool = st.regions[c.ex.pool_of["dnodes"]]
        self.np, self.rp, self.tp = [c.get(st, p, "dgraph", m) for m in ("nodes", "_roots", "_trav")]
        self.ri, self.good = c.u(st, p, "dgraph", "_root_idx"), c.u(st, p, "dgraph", "_roots_good")

    @property
    def nodes(self):
        return Vec(self.c, self.st, self.np)

    @property
    def roots(self):
        return Vec(self.c, self.st, self.rp)

    @property
    def trav(self):
        return Fifo(self.c, self.st, self.tp)

    @property
    def n(self):
        return self.nodes.size

    @property
    def m(self):
        return self.roots.size

    def at(self, i):
        return self.nodes.at(i)

    def root(self, i):
        return self.roots.at(i)

    def pos(self, x):
        return self.pool.ghost[self.gh].get(x)

    def fld(self, name, i=0):
        o, n = self.c.fo("dnode", name)
        return self.pool.fields[o + 8 * i][2]

    def out(self, i, x):
        return self.fld("out", i).get(x)

    def vc(self, x):
        return self.fld("visit_count").get(x)

    def live(self, x):
        return And(x >= 1, x < self.pool.count, self.pool.ghost["live"].get(x) == 1)

    def has(self, x, pos=None):
        p = (pos or self.pos)(x)
        return And(x >= 1, p >= 0, p < self.n, self.at(p) == x)

    def z(self, a):
        return a.z3(self.st.hyps)

    @property
    def atz(self):
        return self.z(self.nodes.r.fields[0][2])

    @property
    def o0(self):
        return self.z(self.fld("out", 0))

    @property
    def o1(self):
        return self.z(self.fld("out", 1))

    @property
    def rt(self):
        return self.z(self.fld("is_root"))

    @property
    def vz(self):
        return self.z(self.fld("visit_count"))

    def parts(self, tag=""):
        ok = [z3.BoolVal(isinstance(x, PV) and x.rid in self.st.regions) for x in (self.np, self.rp, self.tp)]
        if not all(z3.is_true(x) for x in ok):
            return [(tag + "the graph has its node list, root list and ring buffer", z3.BoolVal(False))]
        return self.nodes.ok(tag + "nodes: ") + self.roots.ok(tag + "roots: ") + self.trav.ok(tag + "traversal: ")

    def wf(self, tag="", pos=None):
        P = pos or self.pos
        out = self.parts(tag)
        if len(out) < 8:
            return out
        return out + [(tag + "nodes are allocated", forall(0, self.n, lambda i: self.live(self.at(i)))),
                      (tag + "root marks are booleans", forall(0, self.n, lambda i: And(self.fld("is_root").get(self.at(i)) >= 0, self.fld("is_root").get(self.at(i)) <= 1))),
                      (tag + "no node occurs twice", forall(0, self.n, lambda i: P(self.at(i)) == i))]

    def closed(self, tag=""):
        return [(tag + "edges stay inside the graph", forall(0, self.n, lambda i: And(*[Or(self.out(e, self.at(i)) == 0, self.has(self.out(e, self.at(i)))) for e in (0, 1)])))]

    # traversal state
    def active(self, s):
        f = self.trav
        return And(s >= 0, s < f.n, z3.If(f.head >= f.tail, And(s >= f.tail, s < f.head), Or(s >= f.tail, s < f.head)))

    def item(self, s):
        return self.trav.buf.at(s)

    def pend_args(self):
        f = self.trav
        return self.z(f.buf.r.fields[0][2]), f.head, f.tail, f.n

    def pend_def(self):
        """definition of PEND for the current ring buffer"""
        a, h, t, n = self.pend_args()
        x, s = z3.Ints("px ps")
        P = lambda x: PEND(a, h, t, n, x)
        w = PSLOT(a, h, t, n, x)
        return And(z3.ForAll([s], Imp(self.active(s), P(Sel(a, s))), patterns=[Sel(a, s)]),
                   z3.ForAll([x], Imp(P(x), And(self.active(w), Sel(a, w) == x)), patterns=[P(x)]))

    def pending(self, x):
        return PEND(*self.pend_args(), x)

    def visited(self, x):
        return self.vc(x) > 0

    def ti(self, tag=""):
        self.st.assume(self.pend_def())
        n, m, at, V, S = self.n, self.m, self.at, None, None
        V, S = CNT(self.vz, self.atz, n), SUM(self.vz, self.atz, n)
        f = self.trav
        seen = lambda x: Or(self.visited(x), self.pending(x))
        return [(tag + "visit counts are not negative", forall(0, n, lambda i: And(self.vc(at(i)) >= 0, self.vc(at(i)) < 2 ** 31))),
                (tag + "roots are nodes of the graph", forall(0, m, lambda r: self.has(self.root(r)))),
                (tag + "pending nodes are nodes of the graph", forall(0, f.n, lambda s: Imp(self.active(s), self.has(self.item(s))))),
                (tag + "followers of visited nodes are visited or pending", forall(0, n, lambda i: Imp(self.visited(at(i)), And(*[Or(self.out(e, at(i)) == 0, seen(self.out(e, at(i)))) for e in (0, 1)])))),
                (tag + "roots entered are visited or pending", forall(0, m, lambda r: Imp(r < self.ri, seen(self.root(r))))),
                (tag + "room for every pending node", And(f.n == z3.If(n + 1 < 2, I(2), n + 1), f.avail <= V + 1, f.avail + S <= 2 * V + self.ri, self.ri >= 1, self.ri <= z3.If(m > 1, m, I(1)))),
                (tag + "visited nodes can be reached", forall(0, n, lambda i: Imp(self.visited(at(i)), REACH(at(i))))),
                (tag + "pending nodes can be reached", forall(0, f.n, lambda s: Imp(self.active(s), REACH(self.item(s)))))]

    def reach_def(self):
        """REACH is any set containing the roots and the followers of its members"""
        return [("roots can be reached", forall(0, self.m, lambda r: REACH(self.root(r)))),
                ("followers of reachable nodes can be reached", forall(0, self.n, lambda i: Imp(REACH(self.at(i)), And(*[Or(self.out(e, self.at(i)) == 0, REACH(self.out(e, self.at(i)))) for e in (0, 1)]))))]


def mk_pool(c, st, allocs=False):
    po = c.ex.prog
    o = {m: c.fo("dnode", m)[0] for m in ("data", "out", "visit_count", "is_root")}
    r = builtins_c.mk_pool(c.ex, st, "dnodes", po.sizeof("dnode"),
                           {o["data"]: (8, "int"), o["out"]: (8, "self"), o["out"] + 8: (8, "self"), o["visit_count"]: (4, "int"), o["is_root"]: (1, "int")})
    r.ghost["pos"], r.ghost["pos2"] = Base("pos"), Base("pos2")
    st.assume(r.count < 2 ** 40)
    if not allocs:
        c.ex.pools.clear()
    return r


def mk_ptrvec(c, st, name, pool):
    v, _ = mk_vec(c, st, name, 8, heap=True)
    d = st.regions[c.get(st, v, "vec", "data").rid]
    d.fields[0] = (8, ("ptr", pool.rid), Base(name + "_items"))
    return v


def mk_graph(c, st, pool, name="g", heap=False, gh="pos"):
    r = c.ex.new_region(st, "cell", name, size=c.ex.prog.sizeof("dgraph"), heap=heap)
    p = PV(r.rid)
    nv, rv = mk_ptrvec(c, st, name + "_nodes", pool), mk_ptrvec(c, st, name + "_roots", pool)
    f, _ = mk_fifo(c, st, name + "_trav", S=8, ftype=("ptr", pool.rid), heap=True)
    vals = dict(nodes=nv, newest=PV(pool.rid, Off(0, {pool.stride: fint("newest")})), _trav=f, _roots=rv, _root_idx=c.ex.fresh_iv(st, 32, "root_idx"), _roots_good=c.ex.fresh_iv(st, 8, "good"))
    for m, x in vals.items():
        o, n = c.fo("dgraph", m)
        r.cells[o] = (n, x)
    g = G(c, st, p, gh)
    st.assume(*[x for _, x in g.wf()])
    st.assume(g.n < BIG, g.m < BIG, g.good <= 1)
    return p


def node_idx(c, st, p):
    if isinstance(p, IV) and p.const() == 0 or isinstance(p, PV) and p.rid is None:
        return I(0)
    if not isinstance(p, PV) or p.rid != c.ex.pool_of["dnodes"]:
        raise Unsupported("not a graph node")
    k, o = c.ex.resolve(st, st.regions[p.rid], p.off)
    if o:
        raise Unsupported("pointer into a graph node")
    return k


def addr(c, v):
    if isinstance(v, IV):
        return c.ex.U(c.new, v)
    if v.rid is None:
        return I(0)
    if v.rid != "opq":
        raise Unsupported("not a data pointer")
    return v.off.z()


class GC(Contract):
    props = ("C14",)
    changes = ()            # pool members that change
    closed = False
    trav = False            # needs the traversal state
    roots = fifo = nodes = alloc = False     # which parts change
    cells = ()              # members of the graph that change
    lemmas = ("visit_counting",)

    def setup(self, c, st):
        pool = mk_pool(c, st, self.alloc)
        return [mk_graph(c, st, pool)] + self.more(c, st, pool)

    def more(self, c, st, pool):
        return []

    def pre(self, c):
        g = G(c, c.old, c.args[0])
        out = g.wf("graph: ")
        if len(out) < 8:
            return out
        out += [("fewer than 2^28 nodes and roots", And(g.n < BIG, g.m < BIG))]
        if self.closed:
            out += g.closed()
        if self.trav:
            cnt_facts(c, c.old, g)
            if c.mode == "call" and c.ex.root.con is self:
                out.append(keep_pending(G(c.ex.root, c.ex.root.old, c.ex.root.args[0]), g))
            out += g.ti() + g.reach_def()
        return out + self.pre2(c, g)

    def pre2(self, c, g):
        return []

    def effect(self, c):
        st, p = c.new, c.args[0]
        g = G(c, st, p)
        r = g.pool
        for m, i in self.changes:
            o = c.fo("dnode", m)[0] + 8 * i
            f = r.fields[o]
            r.fields[o] = (f[0], f[1], Base(m + "_n"))
        if self.alloc:
            r.ghost["live"] = Base("live")
        for part, v in (("nodes", g.np), ("roots", g.rp)):
            if getattr(self, part):
                havoc_contents(c, st, v)
                replace_data(c, st, v)
                c.havoc_int(st, v, "vec", "_alloc")
                c.havoc_int(st, v, "vec", "size")
        if self.nodes:
            r.ghost["pos"] = Base("pos")
        if self.fifo:
            havoc_contents(c, st, g.trav.bp)
            if self.fifo == "resize":
                replace_data(c, st, g.trav.bp)
                c.havoc_int(st, g.trav.bp, "vec", "_alloc")
                c.havoc_int(st, g.trav.bp, "vec", "size")
            for m in ("head", "tail"):
                c.havoc_int(st, g.tp, "fifo", m)
            c.set(st, g.tp, "fifo", "shared_mutex_fifo", NULL)
        for m in self.cells:
            if m == "newest":
                c.set(st, p, "dgraph", m, PV(r.rid, Off(0, {r.stride: fint("newest")})))
            else:
                c.havoc_int(st, p, "dgraph", m)
        return self.ret(c)

    def ret(self, c):
        return None

    def node_ret(self, c):
        r = G(c, c.new, c.args[0]).pool
        return PV(r.rid, Off(0, {r.stride: fint("ret")}))

    def post(self, c):
        o, n = G(c, c.old, c.args[0]), G(c, c.new, c.args[0])
        return [x for x in self.post2(c, o, n) if x]

    def kept(self, c, o, n, *names, but=None):
        """node members unchanged (except for node `but`)"""
        return [("%s of every node kept" % m if i == 0 else "second edge of every node kept",
                 forall(1, o.pool.count, lambda x: Or(x == but, n.fld(m, i).get(x) == o.fld(m, i).get(x)) if but is not None else n.fld(m, i).get(x) == o.fld(m, i).get(x)))
                for m, i in names]


def cnt_facts(c, st, g):
    """lemma instances linking the counts along the updates of the visit counts"""
    at, n = g.atz, g.n
    a = g.fld("visit_count")
    st.assume(L_range(g.vz, at, n))
    while isinstance(a, St):
        v = a.p.z3(st.hyps)
        st.assume(L_upd(v, a.i, a.v, at, g.pos(a.i), n))
        a = a.p
    v = g.z(a)
    st.assume(L_range(v, at, n), L_two(v, at, n), L_sum(v, at, n))


ALLF = (("data", 0), ("out", 0), ("out", 1), ("is_root", 0), ("visit_count", 0))


# ------------------------------------------------------------------ building
@contract
class dnode_construct(Contract):
    name = "dnode_construct"
    inline = True
    props = ("C14",)

    def setup(self, c, st):
        pool = mk_pool(c, st)
        k = fint("node")
        st.assume(And(k >= 1, k < pool.count, pool.ghost["live"].get(k) == 1))
        return [PV(pool.rid, Off(0, {pool.stride: k})), PV(c.ex.opq(st), Off(0, {1: fint("data")}))]

    def effect(self, c):
        r = c.new.regions[c.args[0].rid]
        for o, f in list(r.fields.items()):
            r.fields[o] = (f[0], f[1], Base("n"))
        return c.args[0]

    def post(self, c):
        k = node_idx(c, c.new, c.args[0])
        r, r0 = c.new.regions[c.args[0].rid], c.old.regions[c.args[0].rid]
        F = lambda m, i=0: r.fields[c.fo("dnode", m)[0] + 8 * i][2].get(k)
        return [("holds the data, has no edges, is no root", And(F("data") == addr(c, c.args[1]), F("out") == 0, F("out", 1) == 0, F("visit_count") == 0, F("is_root") == 0)),
                ("returns the node", c.peq(c.ret, c.args[0])),
                ("other nodes kept", forall(1, r.count, lambda x: Or(x == k, *[r.fields[o][2].get(x) == r0.fields[o][2].get(x) for o in r.fields])) if False else
                 forall(1, r.count, lambda x: Or(x == k, And(*[r.fields[o][2].get(x) == r0.fields[o][2].get(x) for o in r.fields]))))]


@contract
class dgraph_construct(Contract):
    name = "dgraph_construct"
    props = ("C14",)

    def setup(self, c, st):
        mk_pool(c, st)
        r = c.ex.new_region(st, "cell", "g", size=c.ex.prog.sizeof("dgraph"))
        return [PV(r.rid)]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("dgraph_construct in a caller")
        r = c.new.regions[c.args[0].rid]
        r.cells.clear()
        r.zero = []
        return c.args[0]

    frame_check = False

    def post(self, c):
        g = G(c, c.new, c.args[0])
        out = g.parts("constructed: ")
        if len(out) < 8:
            return out
        return out + [("no nodes, no roots, nothing pending", And(g.n == 0, g.m == 0, g.trav.avail == 0)), ("roots not yet determined", And(g.good == 0, g.ri == 0)),
                      ("returns self", c.peq(c.ret, c.args[0]))]


class AddN(GC):
    nodes = True
    cells = ("newest", "_roots_good")

    def ret(self, c):
        return self.node_ret(c)

    def added(self, c, o, n, k):
        P = lambda x: z3.If(x == k, o.n, o.pos(x))
        out = n.wf("afterwards: ", P if c.mode == "verify" else None)
        if len(out) < 8:
            return out
        if c.mode != "verify":
            out.append(("ghost", forall(1, o.pool.count, lambda x: n.pos(x) == P(x))))
        return out + [("one node more", n.n == o.n + 1), ("the new node comes last", n.at(o.n) == k), ("other nodes stay in order", forall(0, o.n, lambda i: n.at(i) == o.at(i))),
                      ("it is the newest", node_idx(c, c.new, c.get(c.new, c.args[0], "dgraph", "newest")) == k), ("roots have to be determined anew", n.good == 0),
                      ("returns the node", node_idx(c, c.new, c.ret) == k)]


@contract
class dgraph_add_node(AddN):
    name = "dgraph_add_node"

    def more(self, c, st, pool):
        k = fint("node")
        g = G(c, st, PV(next(r for r, x in st.regions.items() if x.name == "g")))
        m = g.fld("is_root").get(k)
        st.assume(And(g.live(k), m >= 0, m <= 1))
        return [PV(pool.rid, Off(0, {pool.stride: k}))]

    def pre2(self, c, g):
        k = node_idx(c, c.old, c.args[1])
        m = g.fld("is_root").get(k)
        return [("the node is allocated and initialised", And(g.live(k), m >= 0, m <= 1)), ("the node is not in the graph", Not(g.has(k)))]

    def post2(self, c, o, n):
        return self.added(c, o, n, node_idx(c, c.old, c.args[1]))


@contract
class dgraph_add_data(AddN):
    name = "dgraph_add_data"
    changes = ALLF
    alloc = True

    def more(self, c, st, pool):
        return [PV(c.ex.opq(st), Off(0, {1: fint("data")}))]

    def post2(self, c, o, n):
        k = node_idx(c, c.new, c.ret)
        return self.added(c, o, n, k) + [
            ("the node is new", And(k >= 1, k < o.pool.count, o.pool.ghost["live"].get(k) == 0)),
            ("which nodes are allocated", forall(1, o.pool.count, lambda x: n.pool.ghost["live"].get(x) == z3.If(x == k, I(1), o.pool.ghost["live"].get(x)))),
            ("the node holds the data, has no edges, is no root", And(n.fld("data").get(k) == addr(c, c.args[1]), n.out(0, k) == 0, n.out(1, k) == 0, n.fld("is_root").get(k) == 0)),
        ] + self.kept(c, o, n, *ALLF, but=k)


@contract
class dgraph_consume(GC):
    name = "dgraph_consume"
    nodes = True
    cells = ("_roots_good",)

    def more(self, c, st, pool):
        return [mk_graph(c, st, pool, "src", heap=True, gh="pos2")]

    def pre2(self, c, g):
        h = G(c, c.old, c.args[1], "pos2")
        return h.wf("source: ") + [("no node is in both", forall(0, h.n, lambda i: Not(g.has(h.at(i))))), ("fewer than 2^28 nodes", h.n < BIG)]

    def effect(self, c):
        GC.effect(self, c)
        h = G(c, c.new, c.args[1], "pos2")
        for v in (h.nodes, h.roots, h.trav.buf):
            c.new.regions[v.data.rid].alive = False
            c.new.regions[v.p.rid].alive = False
        for q in (h.np, h.rp):
            c.set(c.new, q, "vec", "data", NULL)
        c.new.regions[h.tp.rid].alive = False
        c.new.regions[c.args[1].rid].alive = False
        for m in ("nodes", "_roots", "_trav"):
            c.set(c.new, c.args[1], "dgraph", m, NULL)
        c.set(c.new, h.tp, "fifo", "buf", NULL)

    def post2(self, c, o, n):
        h = G(c, c.old, c.args[1], "pos2")
        P = lambda x: z3.If(o.has(x), o.pos(x), o.n + h.pos(x))
        out = n.wf("afterwards: ", P if c.mode == "verify" else None)
        if len(out) < 8:
            return out
        if c.mode != "verify":
            out.append(("ghost", forall(1, o.pool.count, lambda x: n.pos(x) == P(x))))
        return out + [("all nodes of both", n.n == o.n + h.n), ("own nodes stay in order", forall(0, o.n, lambda i: n.at(i) == o.at(i))),
                      ("the source's nodes follow in order", forall(0, h.n, lambda i: n.at(o.n + i) == h.at(i))), ("roots have to be determined anew", n.good == 0),
                      ("the source is freed", And(*[c.deadp(c.new, q) for q in (c.args[1], h.np, h.rp, h.tp, h.nodes.data, h.roots.data, h.trav.bp, h.trav.buf.data)]))]


@contract
class dgraph_remove(GC):
    name = "dgraph_remove"
    nodes = alloc = True
    cells = ("_roots_good",)
    changes = (("out", 0), ("out", 1))

    def more(self, c, st, pool):
        g = G(c, st, PV(next(r for r, x in st.regions.items() if x.name == "g")))
        j = fint("which")
        st.assume(j >= 0, j < g.n)
        return [g.nodes.ptr(j)]

    def pre2(self, c, g):
        j = posidx(c, c.old, g.nodes, c.args[1])
        return [("the node is one of the list", And(j >= 0, j < g.n) if j is not None else z3.BoolVal(False))]

    def ret(self, c):
        return PV(c.ex.opq(c.new), Off(0, {1: fint("data")}))

    def post2(self, c, o, n):
        j = posidx(c, c.old, o.nodes, c.args[1])
        k = o.at(j)
        P = lambda x: z3.If(o.pos(x) > j, o.pos(x) - 1, o.pos(x))
        out = n.wf("afterwards: ", P if c.mode == "verify" else None)
        if len(out) < 8:
            return out
        if c.mode != "verify":
            out.append(("ghost", forall(1, o.pool.count, lambda x: n.pos(x) == P(x))))
        inn = lambda x: And(o.has(x), x != k)
        return out + [("one node fewer", n.n == o.n - 1), ("the other nodes stay in order", forall(0, o.n - 1, lambda i: n.at(i) == z3.If(i < j, o.at(i), o.at(i + 1)))),
                      ("edges to the node are gone, others kept", forall(0, o.n, lambda i: Imp(i != j, And(*[n.out(e, o.at(i)) == z3.If(o.out(e, o.at(i)) == k, I(0), o.out(e, o.at(i))) for e in (0, 1)])))),
                      ("edges of nodes outside the graph kept", forall(1, o.pool.count, lambda x: Imp(Not(o.has(x)), And(*[n.out(e, x) == o.out(e, x) for e in (0, 1)])))),
                      ("the node is freed, others are not", forall(1, o.pool.count, lambda x: (n.pool.ghost["live"].get(x) == 1) == And(o.pool.ghost["live"].get(x) == 1, x != k))),
                      ("returns its data", addr(c, c.ret) == o.fld("data").get(k)), ("roots have to be determined anew", n.good == 0)]

    def inv(self, lp):
        c = lp.root
        o, n = G(c, c.old, c.args[0]), G(c, lp.st, c.args[0])
        k = o.at(posidx(c, c.old, o.nodes, c.args[1]))
        K = here(lp, n)
        new = lambda e, x: z3.If(o.out(e, x) == k, I(0), o.out(e, x))
        return [("inside the list", And(K >= 0, K <= o.n)),
                ("nodes passed lost their edges to the node", forall(0, o.n, lambda i: And(*[n.out(e, o.at(i)) == z3.If(i < K, new(e, o.at(i)), o.out(e, o.at(i))) for e in (0, 1)]))),
                ("edges of nodes outside the graph kept", forall(1, o.pool.count, lambda x: Imp(Not(o.has(x)), And(*[n.out(e, x) == o.out(e, x) for e in (0, 1)])))),
                ("variant", o.n - K)]

    loops = property(lambda self: [self.inv])


def here(lp, g):
    """position of the walk through the node list"""
    ps = lp.ptrs(g.nodes.data.rid)
    if len(ps) == 1:
        k = posidx(lp.root, lp.st, g.nodes, ps[0])
        if k is not None:
            return k
    if not ps:
        return lp.K
    raise Unsupported("the loop does not carry one node list position")


# ------------------------------------------------------------------ roots
def listing(o, n, m, ridx, sel):
    """the root list holds exactly the selected nodes, in node order"""
    return [("as many roots as selected", n.m == ridx(o.n)),
            ("every selected node is listed in its place", forall(0, o.n, lambda i: Imp(sel(o.at(i)), And(ridx(i) >= 0, ridx(i) < n.m, n.root(ridx(i)) == o.at(i))))),
            ("only selected nodes are listed, each once", forall(0, n.m, lambda r: And(o.has(n.root(r)), sel(n.root(r)), ridx(o.pos(n.root(r))) == r)))]


class NoIn:
    """roots found by in-edges"""
    def __init__(self, o):
        self.o = o
        self.a, self.b, self.at = o.o0, o.o1, o.atz

    def sel(self, x, i=None):
        return NOIN(self.a, self.b, self.at, self.o.n if i is None else i, x)

    def ridx(self, i):
        return RNOIN(self.a, self.b, self.at, self.o.n, i)


@contract
class _assume_roots(GC):
    name = "_assume_roots"
    closed = True
    roots = True
    changes = (("visit_count", 0), ("is_root", 0))

    def pre2(self, c, g):
        return [("no roots yet", g.m == 0)]

    def ret(self, c):
        return c.ex.fresh_iv(c.new, 32, "count", True)

    def post2(self, c, o, n):
        s = NoIn(o)
        for i in (I(0), o.n):
            c.new.assume(noin_def(s.a, s.b, s.at, i))
        c.new.assume(rnoin_def(s.a, s.b, s.at, o.n, o.n))
        return n.wf("afterwards: ") + listing(o, n, n.m, s.ridx, s.sel) + [
            ("roots are marked, other marks kept", forall(1, o.pool.count, lambda x: n.fld("is_root").get(x) == z3.If(And(o.has(x), s.sel(x)), I(1), o.fld("is_root").get(x)))),
            ("visit counts are zero", forall(0, o.n, lambda i: n.vc(o.at(i)) == 0)),
            ("visit counts outside the graph kept", forall(1, o.pool.count, lambda x: Imp(Not(o.has(x)), n.vc(x) == o.vc(x)))),
            ("fewer than 2^28 roots", n.m <= o.n), ("returns their number", c.ex.S(c.new, c.ret) == n.m)]

    def outside(self, o, n):
        return ("visit counts outside the graph kept", forall(1, o.pool.count, lambda x: Imp(Not(o.has(x)), n.vc(x) == o.vc(x))))

    def cx(self, lp):
        c = lp.root
        return c, G(c, c.old, c.args[0]), G(c, lp.st, c.args[0])

    def reset(self, lp):
        c, o, n = self.cx(lp)
        K = here(lp, n)
        return [("inside the list", And(K >= 0, K <= o.n)), ("nodes passed have no visits", forall(0, K, lambda i: n.vc(o.at(i)) == 0)), self.outside(o, n), ("variant", o.n - K)]

    def count(self, lp):
        c, o, n = self.cx(lp)
        K = here(lp, n)
        s = NoIn(o)
        lp.st.assume(noin_def(s.a, s.b, s.at, K))
        return [("inside the list", And(K >= 0, K <= o.n)),
                ("a node counts no visit iff no node passed points to it", forall(0, o.n, lambda i: (n.vc(o.at(i)) == 0) == s.sel(o.at(i), K))),
                ("counts are small", forall(0, o.n, lambda i: And(n.vc(o.at(i)) >= 0, n.vc(o.at(i)) <= 2 * K))), self.outside(o, n), ("variant", o.n - K)]

    def collect(self, lp):
        c, o, n = self.cx(lp)
        K = here(lp, n)
        s = NoIn(o)
        lp.st.assume(rnoin_def(s.a, s.b, s.at, o.n, K))
        lp.st.assume(noin_def(s.a, s.b, s.at, o.n))
        return n.roots.ok("roots: ") + [
            ("inside the list", And(K >= 0, K <= o.n)), ("as many roots as selected so far", And(n.m == s.ridx(K), n.m >= 0, n.m <= K)),
            ("every selected node is listed in its place", forall(0, K, lambda i: Imp(s.sel(o.at(i)), And(s.ridx(i) >= 0, s.ridx(i) < n.m, n.root(s.ridx(i)) == o.at(i))))),
            ("only selected nodes are listed, each once", forall(0, n.m, lambda r: And(o.has(n.root(r)), o.pos(n.root(r)) < K, s.sel(n.root(r)), s.ridx(o.pos(n.root(r))) == r))),
            ("marks", forall(1, o.pool.count, lambda x: n.fld("is_root").get(x) == z3.If(And(o.has(x), o.pos(x) < K, s.sel(x)), I(1), o.fld("is_root").get(x)))),
            ("nodes passed have no visits", forall(0, o.n, lambda i: z3.If(i < K, n.vc(o.at(i)) == 0, (n.vc(o.at(i)) == 0) == s.sel(o.at(i))))), self.outside(o, n), ("variant", o.n - K)]

    loops = property(lambda self: [self.reset, self.count, self.collect])


def marked(g):
    rt, at = g.rt, g.atz
    return (lambda x: Sel(rt, x) != 0), (lambda i: RROOT(rt, at, i))


def roots_found(c, o, n, done):
    """what determining the roots leaves behind: `done` = they were known already"""
    sel, ridx = marked(o)
    s = NoIn(o)
    any_ = ridx(o.n) > 0
    c.new.assume(rroot_def(o.rt, o.atz, o.n), noin_def(s.a, s.b, s.at, o.n))
    same = And(n.m == o.m, forall(0, o.m, lambda r: n.root(r) == o.root(r)))
    unm = forall(1, o.pool.count, lambda x: n.fld("is_root").get(x) == o.fld("is_root").get(x))
    cases = [("known roots are kept", Imp(done, And(same, unm)))]
    for nm, f in listing(o, n, n.m, ridx, sel):
        cases.append(("marked nodes: " + nm, Imp(And(Not(done), any_), f)))
    cases.append(("marked nodes: marks kept", Imp(And(Not(done), any_), unm)))
    for nm, f in listing(o, n, n.m, s.ridx, s.sel):
        cases.append(("nothing marked, nodes no other points to: " + nm, Imp(And(Not(done), Not(any_)), f)))
    return cases + [("nothing marked: the roots are marked now", Imp(And(Not(done), Not(any_)), forall(0, o.n, lambda i: (n.fld("is_root").get(o.at(i)) != 0) == s.sel(o.at(i))))),
                    ("marks outside the graph kept", forall(1, o.pool.count, lambda x: Imp(Not(o.has(x)), n.fld("is_root").get(x) == o.fld("is_root").get(x)))),
                    ("roots are determined", n.good != 0), ("no more roots than nodes", Or(done, n.m <= o.n))]


@contract
class dgraph_get_roots(GC):
    name = "dgraph_get_roots"
    closed = True
    roots = True
    changes = (("visit_count", 0), ("is_root", 0))
    cells = ("_roots_good",)

    def ret(self, c):
        return G(c, c.new, c.args[0]).rp

    def post2(self, c, o, n):
        return n.wf("afterwards: ") + roots_found(c, o, n, o.good != 0) + [
            ("visit counts outside the graph kept", forall(1, o.pool.count, lambda x: Imp(Not(o.has(x)), n.vc(x) == o.vc(x)))), ("returns the root list", c.peq(c.ret, o.rp))]

    def inv(self, lp):
        c = lp.root
        o, n = G(c, c.old, c.args[0]), G(c, lp.st, c.args[0])
        K = here(lp, n)
        sel, ridx = marked(o)
        lp.st.assume(rroot_def(o.rt, o.atz, K), rroot_def(o.rt, o.atz, K - 1))
        return n.roots.ok("roots: ") + [
            ("inside the list", And(K >= 0, K <= o.n)), ("as many roots as marked so far", And(n.m == ridx(K), n.m >= 0, n.m <= K)),
            ("nothing marked so far iff no root", Or(n.m > 0, forall(0, K, lambda i: Not(sel(o.at(i)))))),
            ("every marked node is listed in its place", forall(0, K, lambda i: Imp(sel(o.at(i)), And(ridx(i) >= 0, ridx(i) < n.m, n.root(ridx(i)) == o.at(i))))),
            ("only marked nodes are listed, each once", forall(0, n.m, lambda r: And(o.has(n.root(r)), o.pos(n.root(r)) < K, sel(n.root(r)), ridx(o.pos(n.root(r))) == r))), ("variant", o.n - K)]

    loops = property(lambda self: [self.inv])


@contract
class dgraph_root_count(GC):
    name = "dgraph_root_count"

    def ret(self, c):
        return c.ex.fresh_iv(c.new, 32, "count")

    def post2(self, c, o, n):
        return [("number of roots", c.ex.U(c.new, c.ret) == o.m)]


# ------------------------------------------------------------------ traversal
@contract
class dgraph_traverse_reset(GC):
    name = "dgraph_traverse_reset"
    closed = True
    roots = True
    fifo = "resize"
    changes = (("visit_count", 0), ("is_root", 0))
    cells = ("_roots_good", "_root_idx")

    def pre2(self, c, g):
        return [("known roots are nodes of the graph", Imp(g.good != 0, forall(0, g.m, lambda r: g.has(g.root(r)))))]

    def post2(self, c, o, n):
        c.new.assume(L_zero(n.vz, n.atz, n.n))
        rd = And(*[f for _, f in n.reach_def()])
        out = n.wf("afterwards: ")
        if len(out) < 8:
            return out
        return out + roots_found(c, o, n, o.good != 0) + [
            ("nothing is visited", forall(0, n.n, lambda i: n.vc(n.at(i)) == 0)),
            ("only the first root is pending", And(n.trav.avail == z3.If(n.m > 0, I(1), I(0)), Imp(n.m > 0, n.item(n.trav.tail) == n.root(0)), n.ri == 1)),
            ("fewer than 2^28 roots", n.m < BIG)] + [
            (nm, Imp(rd, f) if "reached" in nm else f) for nm, f in n.ti("traversal state: ")]

    def inv(self, lp):
        c = lp.root
        o, n = G(c, c.old, c.args[0]), G(c, lp.st, c.args[0])
        K = here(lp, n)
        return [("inside the list", And(K >= 0, K <= o.n)), ("nodes passed are not visited", forall(0, K, lambda i: n.vc(o.at(i)) == 0)), ("variant", o.n - K)]

    loops = property(lambda self: [self.inv])


def direct(o, n):
    """the node taken from the ring buffer was visited in this very call"""
    a = n.fld("visit_count")
    while isinstance(a, St):
        if a.p is o.fld("visit_count"):
            return True
        a = a.p
    return False


def keep_pending(o, n):
    sv = z3.Int("ps")
    n.st.assume(n.pend_def(), o.pend_def())
    return ("nodes pending before stay pending, except the one whose turn it was",
            forall_m([sv], Imp(And(o.active(sv), sv != o.trav.tail), And(n.active(sv), n.item(sv) == o.item(sv), n.pending(o.item(sv)))), o.item(sv)))


@contract
class dgraph_traverse(GC):
    """visits the next node; counted as one step of the traversal"""
    name = "dgraph_traverse"
    closed = True
    trav = True
    fifo = True
    changes = (("visit_count", 0),)
    cells = ("_root_idx",)

    def measure(self, c):
        g = G(c, c.old, c.args[0])
        return 2 * (z3.If(g.m > 1, g.m, I(1)) - g.ri) + g.trav.avail

    def effect(self, c):
        s2 = c.new.copy()
        r = GC.effect(self, c)
        c2 = Ctx(c.ex, self, c.old, s2, c.args, c.mode)
        GC.effect(self, c2)
        return [(c.new, self.node_ret(c)), (s2, NULL)]

    def post2(self, c, o, n):
        cnt_facts(c, c.new, n)
        end = isinstance(c.ret, PV) and c.ret.rid is None
        out = n.wf("afterwards: ")
        if len(out) < 8:
            return out
        if direct(o, n):
            t = o.trav.tail
            out += [keep_pending(o, n),
                    ("the followers of the one whose turn it was are visited or pending", And(*[Or(o.out(e, o.item(t)) == 0, n.visited(o.out(e, o.item(t))), n.pending(o.out(e, o.item(t)))) for e in (0, 1)]))]
        out += n.ti("traversal state: ")
        if end:
            return out + [("no node's visit is forgotten or made up", forall(0, o.n, lambda i: o.visited(o.at(i)) == n.visited(o.at(i)))),
                          ("the end is reported only when every root was visited", forall(0, o.m, lambda r: n.visited(o.root(r)))),
                          ("the end is reported only when every follower of a visited node was visited",
                           forall(0, o.n, lambda i: Imp(n.visited(o.at(i)), And(*[Or(o.out(e, o.at(i)) == 0, n.visited(o.out(e, o.at(i)))) for e in (0, 1)]))))]
        k = node_idx(c, c.new, c.ret)
        return out + [("returns a node of the graph that was not visited before", And(o.has(k), o.vc(k) == 0)), ("it is visited now", n.visited(k)),
                      ("it can be reached", REACH(k)),
                      ("no other node's visit is forgotten or made up", forall(0, o.n, lambda i: Or(o.at(i) == k, o.visited(o.at(i)) == n.visited(o.at(i))))),
                      ("visits outside the graph kept", forall(1, o.pool.count, lambda x: Imp(Not(o.has(x)), n.vc(x) == o.vc(x))))]

    def inv(self, lp):
        c = lp.root
        o, n = G(c, c.old, c.args[0]), G(c, lp.st, c.args[0])
        return [("nothing pending means only visited roots are skipped", And(n.ri >= o.ri, n.ri <= z3.If(o.m > 1, o.m, I(1)), Or(n.ri == o.ri, o.trav.avail == 0))),
                ("roots passed were visited", forall(0, o.m, lambda r: Imp(r < n.ri, Or(o.visited(o.root(r)), o.pending(o.root(r)))))),
                ("variant", o.m - n.ri)]

    loops = property(lambda self: [self.inv])


# ------------------------------------------------------------------ freeing
class Destroy(GC):
    own = False

    def setup(self, c, st):
        pool = mk_pool(c, st)
        return [mk_graph(c, st, pool, heap=self.own)]

    def pre(self, c):
        g = G(c, c.old, c.args[0])
        return g.wf("graph: ") if self.alloc else g.parts("graph: ")

    def effect(self, c):
        g = G(c, c.new, c.args[0])
        for v in (g.nodes, g.roots, g.trav.buf):
            c.new.regions[v.data.rid].alive = False
            c.new.regions[v.p.rid].alive = False
        c.new.regions[g.tp.rid].alive = False
        if self.own:
            c.new.regions[c.args[0].rid].alive = False
        if self.alloc:
            g.pool.ghost["live"] = Base("live")
        for m in ("nodes", "_roots", "_trav"):
            c.set(c.new, c.args[0], "dgraph", m, NULL)
        for q in (g.np, g.rp):
            c.set(c.new, q, "vec", "data", NULL)
        c.set(c.new, g.tp, "fifo", "buf", NULL)

    def post(self, c):
        o = G(c, c.old, c.args[0])
        out = [("the lists and the ring buffer are freed", And(*[c.deadp(c.new, q) for q in (o.np, o.rp, o.tp, o.nodes.data, o.roots.data, o.trav.bp, o.trav.buf.data)]))]
        lv = c.new.regions[o.pool.rid].ghost["live"]
        if self.own:
            out.append(("the graph is freed", c.deadp(c.new, c.args[0])))
        if self.alloc:
            return out + [("exactly the graph's nodes are freed", forall(1, o.pool.count, lambda x: (lv.get(x) == 1) == And(o.pool.ghost["live"].get(x) == 1, Not(o.has(x)))))]
        return out + [("no node is freed", z3.BoolVal(lv is o.pool.ghost["live"]) if c.mode == "verify" else z3.BoolVal(True))]


@contract
class dgraph_shallow_destroy(Destroy):
    name = "dgraph_shallow_destroy"


@contract
class dgraph_shallow_free(Destroy):
    name = "dgraph_shallow_free"
    own = True


@contract
class dgraph_destroy(Destroy):
    name = "dgraph_destroy"
    alloc = True

    def inv(self, lp):
        c = lp.root
        o, n = G(c, c.old, c.args[0]), G(c, lp.st, c.args[0])
        K = lp.K
        lv = n.pool.ghost["live"]
        return [("inside the list", K <= o.n),
                ("nodes passed are freed", forall(1, o.pool.count, lambda x: (lv.get(x) == 1) == And(o.pool.ghost["live"].get(x) == 1, Not(And(o.has(x), o.pos(x) < K))))),
                ("nodes ahead are still listed", forall(K, o.n, lambda i: n.at(i) == o.at(i))), ("variant", o.n - K)]

    loops = property(lambda self: [self.inv])
