"""Contracts for util/node.c: the doubly linked list.

All nodes are objects of one pool; object 0 is NULL.  Ghost state of the pool:
one list as the sequence seq[0..n) of its nodes with its inverse pos.
Representation invariant: the nodes of the sequence are allocated and
different, each node's next is the following node (NULL at the tail) and its
prev the preceding one (NULL at the head).  An operation is described by the
sequence it leaves, and leaves all nodes that are in other lists alone.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, forall_m
import builtins_c

FILE = "util/node.c"


class Seq:
    """a list: its nodes (index -> node), their inverse, its length"""
    def __init__(self, at, pos, n):
        self.at, self.pos, self.n = at, pos, n

    def has(self, k):
        return And(k > 0, self.pos(k) >= 0, self.pos(k) < self.n, self.at(self.pos(k)) == k)


class Pool:
    def __init__(self, c, st):
        self.c, self.st = c, st
        self.r = st.regions[c.ex.pools[24]]

    def f(self, name, k):
        o, n = self.c.fo("node", name)
        return self.r.fields[o][2].get(k)

    def live(self, k):
        return And(k >= 1, k < self.r.count, self.r.ghost["live"].get(k) == 1)

    @property
    def seq(self):
        g = self.r.ghost
        return Seq(g["seq"].get, g["pos"].get, g["n"])

    def wf(self, s, tag=""):
        """the pool holds list s"""
        return [(tag + "nodes are allocated", forall(0, s.n, lambda i: self.live(s.at(i)))),
                (tag + "no node occurs twice", forall(0, s.n, lambda i: s.pos(s.at(i)) == i)),
                (tag + "next is the following node", forall(0, s.n, lambda i: self.f("next", s.at(i)) == z3.If(i + 1 < s.n, s.at(i + 1), I(0)))),
                (tag + "prev is the preceding node", forall(0, s.n, lambda i: self.f("prev", s.at(i)) == z3.If(i > 0, s.at(i - 1), I(0))))]

    def ptr(self, k):
        return PV(self.r.rid, Off(0, {24: I(k)}))


def idx(c, st, p):
    """object number of a node pointer; NULL is 0"""
    if isinstance(p, IV) and p.const() == 0:
        return I(0)
    if not isinstance(p, PV):
        raise Unsupported("not a node pointer")
    if p.rid is None:
        return I(0)
    r = st.regions[p.rid]
    if p.rid != c.ex.pools.get(24):
        raise Unsupported("not a node pointer")
    k, o = c.ex.resolve(st, r, p.off)
    if o:
        raise Unsupported("pointer into a node")
    return k


def mk_nodes(c, st):
    r = builtins_c.mk_pool(c.ex, st, "nodes", c.ex.prog.sizeof("node"),
                           {c.fo("node", "data")[0]: (8, "int"), c.fo("node", "prev")[0]: (8, "self"), c.fo("node", "next")[0]: (8, "self")})
    r.ghost["seq"], r.ghost["pos"], r.ghost["n"] = Base("seq"), Base("pos"), fint("listlen")
    p = Pool(c, st)
    st.assume(p.seq.n >= 0, *[f for _, f in p.wf(p.seq)])
    return p


def mk_member(c, st, p, name="self"):
    """a pointer to a node of the list, or NULL"""
    k = fint(name)
    st.assume(Or(k == 0, And(k >= 1, p.seq.has(k))))
    return p.ptr(k)


def mk_head(c, st, p, any=False):
    """a node* variable holding the head (or, with any, some node) of the list"""
    r = c.ex.new_region(st, "cell", "head", size=8)
    if any:
        v = mk_member(c, st, p, "start")
    else:
        v = p.ptr(z3.If(p.seq.n > 0, p.seq.at(I(0)), I(0)))
    r.cells[0] = (8, v)
    return PV(r.rid)


def deref(c, st, p):
    r = st.regions[p.rid]
    return idx(c, st, r.cells[p.off.const()][1])


def set_head(c, st, p, name="newhead"):
    st.regions[p.rid].cells[p.off.const()] = (8, Pool(c, st).ptr(fint(name)))


class NC(Contract):
    props = ("C11",)
    any = False          # self may be any node of the list
    hd = True            # first argument: address of the list head (else a node)
    changes = True

    def setup(self, c, st):
        p = mk_nodes(c, st)
        return [mk_head(c, st, p, self.any) if self.hd else mk_member(c, st, p)] + self.more(c, st, p)

    def more(self, c, st, p):
        return []

    def start(self, c, st=None):
        """where in the list the first argument points: a node or 0"""
        st = st or c.old
        return deref(c, st, c.args[0]) if self.hd else idx(c, st, c.args[0])

    def pre(self, c):
        p = Pool(c, c.old)
        s = p.seq
        h = self.start(c)
        out = p.wf(s, "list: ") + [("list length", s.n >= 0)]
        if self.hd and not self.any:
            out.append(("the variable holds the head", h == z3.If(s.n > 0, s.at(I(0)), I(0))))
        else:
            out.append(("a node of the list or NULL", Or(h == 0, s.has(h))))
        return out + self.pre2(c, p, s, h)

    def pre2(self, c, p, s, h):
        return []

    def effect(self, c):
        st = c.new
        if self.changes:
            r = Pool(c, st).r
            for o, f in r.fields.items():
                r.fields[o] = (f[0], f[1], Base(r.name + "_n"))
            for g in ("live", "seq", "pos"):
                r.ghost[g] = Base(g)
            r.ghost["n"] = fint("listlen")
            if self.hd:
                set_head(c, st, c.args[0])
        return self.ret(c)

    def ret(self, c):
        return None

    def node_ret(self, c):
        return Pool(c, c.new).ptr(fint("ret"))

    def post(self, c):
        o, n = Pool(c, c.old), Pool(c, c.new)
        return [x for x in self.post2(c, o, n, o.seq) if x]

    def leaves(self, c, o, n, new, live, touched=None, head=True):
        """the pool now holds the list `new`; live(k): which nodes are allocated now;
        nodes outside both lists are untouched and no node's data changes"""
        s = o.seq
        t = touched or (lambda k: z3.BoolVal(False))
        N = o.r.count
        out = n.wf(new, "afterwards: ") + [
            ("length", new.n >= 0),
            ("other nodes keep their links", forall(1, N, lambda k: Imp(And(Not(s.has(k)), Not(t(k))), And(n.f("next", k) == o.f("next", k), n.f("prev", k) == o.f("prev", k))))),
            ("which nodes are allocated", forall(1, N, lambda k: (n.r.ghost["live"].get(k) == 1) == live(k))),
            ("data kept", forall(1, N, lambda k: Imp(Not(t(k)), n.f("data", k) == o.f("data", k))))]
        if self.hd and head:
            out.append(("the head is the first node", deref(c, c.new, c.args[0]) == z3.If(new.n > 0, new.at(I(0)), I(0))))
        if c.mode != "verify":
            g = n.seq
            out += [("ghost", g.n == new.n), ("ghost", forall(0, new.n, lambda i: g.at(i) == new.at(i))),
                    ("ghost", forall(1, N, lambda k: g.pos(k) == new.pos(k)))]
        return out

    def was(self, o):
        return lambda k: o.r.ghost["live"].get(k) == 1


class Query(NC):
    hd = False
    changes = False
    frame_check = True

    def ret(self, c):
        return self.node_ret(c)


def at_or_0(s, i):
    return z3.If(And(i >= 0, i < s.n), s.at(i), I(0))


class Walk(Query):
    """walks from the start to one end"""
    def post2(self, c, o, n, s):
        h = self.start(c)
        return [("returns that end of the list, or NULL for NULL", idx(c, c.new, c.ret) == z3.If(h == 0, I(0), self.end(s)))]

    def inv(self, lp):
        c = lp.root
        s = Pool(c, c.old).seq
        h = idx(c, c.old, c.args[0])
        me = lp.ptrs(c.ex.pools[24])
        if len(me) != 1:
            raise Unsupported("the walk does not carry one node")
        k = idx(c, lp.st, me[0])
        return [("at a node of the list", And(h != 0, s.has(k))), ("variant", self.left(s, k))]

    loops = property(lambda self: [self.inv])


class ToFront(Walk):
    def end(self, s):
        return s.at(I(0))

    def left(self, s, k):
        return s.pos(k) + 1


class ToBack(Walk):
    def end(self, s):
        return s.at(s.n - 1)

    def left(self, s, k):
        return s.n - s.pos(k)


@contract
class node_top(ToFront):
    name = "node_top"


@contract
class node_front(ToFront):
    name = "node_front"


@contract
class node_bottom(ToBack):
    name = "node_bottom"


@contract
class node_back(ToBack):
    name = "node_back"


class At(Query):
    def more(self, c, st, p):
        return [c.ex.fresh_iv(st, 32, "idx")]

    def want(self, c, s):
        h = self.start(c)
        return z3.If(h == 0, I(0), at_or_0(s, s.pos(h) + c.ex.U(c.old, c.args[1])))


@contract
class node_at(At):
    name = "node_at"

    def post2(self, c, o, n, s):
        return [("returns the node that many places behind, or NULL", idx(c, c.new, c.ret) == self.want(c, s))]

    def inv(self, lp):
        c = lp.root
        s = Pool(c, c.old).seq
        h = idx(c, c.old, c.args[0])
        me = lp.ptrs(c.ex.pools[24])
        if len(me) != 1:
            raise Unsupported("the walk does not carry one node")
        return [("at the node as many places behind as steps taken", idx(c, lp.st, me[0]) == z3.If(h == 0, I(0), at_or_0(s, s.pos(h) + lp.K))),
                ("not past the end", lp.K <= z3.If(h == 0, I(0), s.n - s.pos(h))),
                ("variant", z3.If(h == 0, I(0), s.n) - lp.K)]

    loops = property(lambda self: [self.inv])


@contract
class node_data_at(At):
    name = "node_data_at"

    def ret(self, c):
        return PV(c.ex.opq(c.new), Off(0, {1: fint("data")}))

    def post2(self, c, o, n, s):
        w = self.want(c, s)
        r = addr(c, c.ret)
        return [("returns the data of the node that many places behind, or NULL", r == z3.If(w == 0, I(0), o.f("data", w)))]


def addr(c, v):
    """a data pointer as a number"""
    if isinstance(v, IV):
        return c.ex.U(c.new, v)
    if v.rid is None:
        return I(0)
    if v.rid != "opq":
        raise Unsupported("not a data pointer")
    return v.off.z()


@contract
class node_count(Query):
    name = "node_count"

    def pre2(self, c, p, s, h):
        return [("fewer than 2^31 nodes", s.n < 2 ** 31)]

    def ret(self, c):
        return c.ex.fresh_iv(c.new, 32, "count", True)

    def post2(self, c, o, n, s):
        h = self.start(c)
        return [("number of nodes from here to the tail", c.ex.S(c.new, c.ret) == z3.If(h == 0, I(0), s.n - s.pos(h)))]

    def inv(self, lp):
        c = lp.root
        s = Pool(c, c.old).seq
        h = idx(c, c.old, c.args[0])
        me = lp.ptrs(c.ex.pools[24])
        if len(me) != 1:
            raise Unsupported("the walk does not carry one node")
        k = idx(c, lp.st, me[0])
        n = lp.ints(32)
        if len(n) != 1:
            raise Unsupported("the walk does not carry one count")
        return [("at a node of the list", And(h != 0, s.has(k))), ("counted the nodes from the start to here", lp.ex.S(lp.st, n[0]) == s.pos(k) - s.pos(h) + 1),
                ("variant", s.n - s.pos(k))]

    loops = property(lambda self: [self.inv])


# ------------------------------------------------------------------ growing
def alone(k):
    return lambda x: x == k


class Push(NC):
    def new_list(self, s, k):
        return Seq(lambda i: z3.If(i == 0, k, s.at(i - 1)), lambda x: z3.If(x == k, I(0), s.pos(x) + 1), s.n + 1)


class Enqueue(NC):
    any = True

    def pre2(self, c, p, s, h):
        return [("NULL stands for the empty list", Imp(h == 0, s.n == 0))]

    def new_list(self, s, k):
        return Seq(lambda i: z3.If(i == s.n, k, s.at(i)), lambda x: z3.If(x == k, s.n, s.pos(x)), s.n + 1)

    def head_kept(self, c, o, n, k):
        h = self.start(c)
        return ("the list variable still holds the same node, or the new one if the list was empty", deref(c, c.new, c.args[0]) == z3.If(h == 0, k, h))


class Makes:
    def more(self, c, st, p):
        return [PV(c.ex.opq(st), Off(0, {1: fint("data")}))]

    def ret(self, c):
        return self.node_ret(c)

    def post2(self, c, o, n, s):
        k = idx(c, c.new, c.ret)
        d = addr(c, c.args[1])
        return self.leaves(c, o, n, self.new_list(s, k), lambda x: Or(x == k, self.was(o)(x)), alone(k), head=not self.any) + [
            ("returns a new node", And(k >= 1, k < o.r.count, Not(self.was(o)(k)))), ("which holds the data", n.f("data", k) == d)] + (
            [self.head_kept(c, o, n, k)] if self.any else [])


class Takes:
    """puts a given node into the list"""
    def more(self, c, st, p):
        k = fint("import")
        st.assume(p.live(k))
        return [p.ptr(k)]

    def pre2(self, c, p, s, h):
        k = idx(c, c.old, c.args[1])
        out = [("the node is allocated", p.live(k)), ("the node is not in the list", Not(s.has(k)))]
        if self.any:
            out += Enqueue.pre2(self, c, p, s, h) + [("the node follows no other", p.f("prev", k) == 0)]
        return out

    def ret(self, c):
        return c.args[1]

    def post2(self, c, o, n, s):
        k = idx(c, c.old, c.args[1])
        return self.leaves(c, o, n, self.new_list(s, k), self.was(o), alone(k), head=not self.any) + [
            ("returns the node", idx(c, c.new, c.ret) == k), ("which keeps its data", n.f("data", k) == o.f("data", k))] + (
            [self.head_kept(c, o, n, k)] if self.any else [])


@contract
class node_push(Makes, Push):
    name = "node_push"


@contract
class node_push_import(Takes, Push):
    name = "node_push_import"


@contract
class node_enqueue(Makes, Enqueue):
    name = "node_enqueue"


@contract
class node_enqueue_import(Takes, Enqueue):
    name = "node_enqueue_import"


# ------------------------------------------------------------------ shrinking
def without(s, j):
    return Seq(lambda i: z3.If(i < j, s.at(i), s.at(i + 1)), lambda x: z3.If(s.pos(x) < j, s.pos(x), s.pos(x) - 1), s.n - 1)


class Pop(NC):
    free = True

    def ret(self, c):
        return PV(c.ex.opq(c.new), Off(0, {1: fint("data")})) if self.free else self.node_ret(c)

    def post2(self, c, o, n, s):
        k = at_or_0(s, I(0))
        none = s.n == 0
        new = without(s, I(0))
        new = Seq(new.at, new.pos, z3.If(none, I(0), s.n - 1))
        was = self.was(o)
        out = self.leaves(c, o, n, new, lambda x: And(was(x), Or(none, x != k)) if self.free else was(x), lambda x: And(Not(none), x == k))
        if self.free:
            return out + [("returns the head's data, or NULL if there is none", addr(c, c.ret) == z3.If(none, I(0), o.f("data", k)))]
        return out + [("returns the head, or NULL if there is none", idx(c, c.new, c.ret) == k),
                      ("which is linked to nothing and keeps its data", Or(none, And(n.f("next", k) == 0, n.f("prev", k) == 0, n.f("data", k) == o.f("data", k))))]


@contract
class node_pop(Pop):
    name = "node_pop"


@contract
class node_pop_export(Pop):
    name = "node_pop_export"
    free = False


@contract
class node_export(NC):
    """unlinks a node; the list keeps the others"""
    name = "node_export"
    hd = False

    def ret(self, c):
        return c.args[0]

    def post2(self, c, o, n, s):
        k = self.start(c)
        none = k == 0
        new = without(s, s.pos(k))
        new = Seq(lambda i: z3.If(none, s.at(i), new0.at(i)), lambda x: z3.If(none, s.pos(x), new0.pos(x)), z3.If(none, s.n, s.n - 1)) if (new0 := new) else None
        return self.leaves(c, o, n, new, self.was(o), lambda x: And(Not(none), x == k)) + [
            ("returns the node", idx(c, c.new, c.ret) == k),
            ("which is linked to nothing and keeps its data", Or(none, And(n.f("next", k) == 0, n.f("prev", k) == 0, n.f("data", k) == o.f("data", k))))]


class Remove(NC):
    def more(self, c, st, p):
        return [mk_member(c, st, p, "node")]

    def pre2(self, c, p, s, h):
        k = idx(c, c.old, c.args[1])
        return [("the node is in the list or NULL", Or(k == 0, s.has(k)))]

    def ret(self, c):
        return PV(c.ex.opq(c.new), Off(0, {1: fint("data")}))

    def post2(self, c, o, n, s):
        k = idx(c, c.old, c.args[1])
        none = k == 0
        w = without(s, s.pos(k))
        new = Seq(lambda i: z3.If(none, s.at(i), w.at(i)), lambda x: z3.If(none, s.pos(x), w.pos(x)), z3.If(none, s.n, s.n - 1))
        was = self.was(o)
        return self.leaves(c, o, n, new, lambda x: And(was(x), Or(none, x != k)), lambda x: And(Not(none), x == k)) + self.result(c, o, k)

    def result(self, c, o, k):
        return [("returns the node's data, or NULL for NULL", addr(c, c.ret) == z3.If(k == 0, I(0), o.f("data", k)))]


@contract
class node_remove(Remove):
    name = "node_remove"


@contract
class node_delete(Remove):
    name = "node_delete"

    def ret(self, c):
        return None

    def result(self, c, o, k):
        return []


# ------------------------------------------------------------------ freeing
@contract
class data_fn(Contract):
    """any function called with a node's data; it does not touch the list"""
    name = "data_fn"
    props = ()
    trusted = True
    spec_only = True

    def effect(self, c):
        st = c.new
        st.ghost["given"] = St(st.ghost.get("given") or Base("given"), st.ghost["ngiven"], addr(c, c.args[0]))
        st.ghost["ngiven"] = st.ghost["ngiven"] + 1
        return None


class Free(NC):
    any = True

    def pre2(self, c, p, s, h):
        return [("NULL stands for the empty list", Imp(h == 0, s.n == 0))]

    def post2(self, c, o, n, s):
        was = self.was(o)
        new = Seq(s.at, s.pos, I(0))
        return self.leaves(c, o, n, new, lambda x: And(was(x), Not(s.has(x))), lambda x: s.has(x))

    def inv(self, lp):
        c = lp.root
        o, n = Pool(c, c.old), Pool(c, lp.st)
        s, g = o.seq, n.seq
        K = lp.K
        return n.wf(g) + [
            ("as many nodes removed as steps taken", And(K <= s.n, g.n == s.n - K)),
            ("the rest is the old list's rest", forall(0, g.n, lambda i: g.at(i) == s.at(i + K))),
            ("the variable holds the head", deref(c, lp.st, c.args[0]) == z3.If(g.n > 0, g.at(I(0)), I(0))),
            ("which nodes are allocated", forall(1, o.r.count, lambda k: (n.r.ghost["live"].get(k) == 1) == And(o.r.ghost["live"].get(k) == 1, Not(And(s.has(k), s.pos(k) < K))))),
            ("other nodes keep their links", forall(1, o.r.count, lambda k: Imp(Not(s.has(k)), And(n.f("next", k) == o.f("next", k), n.f("prev", k) == o.f("prev", k), n.f("data", k) == o.f("data", k))))),
            ("remaining nodes keep their data", forall(0, g.n, lambda i: n.f("data", g.at(i)) == o.f("data", g.at(i)))),
            ("variant", g.n)] + self.inv2(lp, o, s, K)

    def inv2(self, lp, o, s, K):
        return []

    loops = property(lambda self: [self.inv])


@contract
class node_free(Free):
    name = "node_free"


@contract
class node_free_data(Free):
    name = "node_free_data"


@contract
class node_free_func(Free):
    name = "node_free_func"

    def more(self, c, st, p):
        st.ghost["given"], st.ghost["ngiven"] = Base("given"), I(0)
        return [FnP(contract="data_fn")]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("node_free_func in a caller")
        return Free.effect(self, c)

    def given(self, st, o, s, K):
        g = st.ghost["given"]
        return [("the function was given each node's data once, in order", And(st.ghost["ngiven"] == K, forall(0, K, lambda i: g.get(i) == o.f("data", s.at(i)))))]

    def post2(self, c, o, n, s):
        return Free.post2(self, c, o, n, s) + self.given(c.new, o, s, s.n)

    def inv2(self, lp, o, s, K):
        return self.given(lp.st, o, s, K)
