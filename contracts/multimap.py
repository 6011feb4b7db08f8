"""Contracts for the multimap of util/hashmap.c: a map whose values are vecs.

The values array is an array of vec structs.  The block an inner vec owns is named by a
handle kept in its `data` member (0 = none); INNER(h, i) is element i of block h.  Appending
to an inner vec gives it a new handle.  The contracts of vec_push_back and vec_destroy are
verified for a vec at an arbitrary address (contracts/vec.py); here they are restated for a
vec that lies inside an array, with the handle in place of the block.
"""
import z3
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import vec as V
import hashmap as H
from hashmap import all1

FILE = H.FILE
DEPS = ["hashmap"]

INTS = z3.IntSort()
INNER = uf("inner", INTS, INTS, INTS)


def is_inner(st, p):
    return isinstance(p, PV) and p.rid in st.regions and st.regions[p.rid].kind == "arr"


class Inner:
    """the vec struct p points at, inside an array of vecs"""
    def __init__(self, c, st, p):
        self.c, self.st = c, st
        self.r = st.regions[p.rid]
        self.k, off = c.ex.resolve(st, self.r, p.off)
        if off != 0 or self.r.stride != c.ex.prog.sizeof("vec"):
            raise Unsupported("vec inside an array of something else")
        g = lambda m: c.u(st, p, "vec", m)
        self.data, self.size, self.alloc, self.E = g("data"), g("size"), g("_alloc"), g("_elem_size")

    def ok(self, S=None, tag="inner vec: "):
        return [(tag + "element of the array", And(self.k >= 0, self.k < self.r.count)),
                (tag + "owns a block", self.data > 0), (tag + "size < capacity", And(self.size >= 0, self.size < self.alloc)),
                (tag + "capacity within the address space", self.alloc <= V.capof(S) if S is not None else z3.BoolVal(True)),
                (tag + "element size", self.E == (S.t if isinstance(S, Stride) else I(S)) if S is not None else z3.BoolVal(True))]


class PushBack(type(REG["vec_push_back"])):
    def inner(self, c):
        return is_inner(c.old, c.args[0])

    def item_stride(self, c):
        return c.old.regions[c.args[1].rid].stride

    def pre(self, c):
        if not self.inner(c):
            return super().pre(c)
        b = V.Buf(c, c.old, c.args[1])
        return Inner(c, c.old, c.args[0]).ok(self.item_stride(c)) + [("item readable", And(b.k >= 0, b.k < b.r.count))]

    def effect(self, c):
        st, p = c.new, c.args[0]
        if self.inner(c):
            for m in ("data", "size", "_alloc"):
                c.havoc_int(st, p, "vec", m)
            return None
        q = c.args[1]
        if c.mode == "call" and st.regions[q.rid].kind == "cell":
            # a vec moves into the array: its block gets a handle and is no longer reachable through the item
            r = st.regions[q.rid]
            for o, (n, v) in r.cells.items():
                if isinstance(v, PV) and v.rid in st.regions and st.regions[v.rid].heap and st.regions[v.rid].kind == "arr" and v.off.const() == 0:
                    b = st.regions[v.rid]
                    h = fint("handle")
                    c.ex.handles[v.rid] = h
                    f = b.fields[0][2]
                    i = z3.Int(fresh_name("i"))
                    st.assume(h > 0, z3.ForAll([i], INNER(h, i) == f.get(i), patterns=[INNER(h, i)]))
                    b.alive = False
        return super().effect(c)

    def post(self, c):
        if not self.inner(c):
            return super().post(c)
        o, n = Inner(c, c.old, c.args[0]), Inner(c, c.new, c.args[0])
        b = V.Buf(c, c.old, c.args[1])
        return n.ok(self.item_stride(c)) + [
            ("one element more", n.size == o.size + 1),
            ("item stored last", INNER(n.data, o.size) == b.at(0)),
            ("existing elements kept", forall(0, o.size, lambda i: INNER(n.data, i) == INNER(o.data, i)))]


class Destroyed(type(REG["vec_destroy"])):
    def pre(self, c):
        if not is_inner(c.old, c.args[0]):
            return super().pre(c)
        o = Inner(c, c.old, c.args[0])
        return [("inner vec: element of the array", And(o.k >= 0, o.k < o.r.count)), ("inner vec: owns a block", o.data > 0)]

    def effect(self, c):
        if not is_inner(c.old, c.args[0]):
            return super().effect(c)
        c.set(c.new, c.args[0], "vec", "data", IV(64, 0))

    def post(self, c):
        if not is_inner(c.old, c.args[0]):
            return super().post(c)
        return [("inner vec: block given back", Inner(c, c.new, c.args[0]).data == 0)]


REG["vec_push_back"] = PushBack()
REG["vec_destroy"] = Destroyed()

VOFF = ("data", "size", "_alloc", "_elem_size")


def mk_mm(c, st, mode):
    """a multimap; returns (pointer, stride of the stored elements)"""
    p = H.mk_map(c, st, False, mode, elem=c.ex.prog.sizeof("vec"))
    S = V.mk_stride(c, st, "ME")
    st.assume(S.t < 2 ** 32)
    c.aux["ME"] = S
    c.set(st, p, "hashmap", "elem_size", IV(32, None, lin=Off(0, {S: I(1)})))
    d = c.get(st, c.get(st, p, "hashmap", "values"), "vec", "data")
    r = st.regions[d.rid]
    for m in VOFF:
        o, n = c.fo("vec", m)
        r.fields[o] = (n, "int", Base("vals_" + m))
    return p, S


class MM(H.HM):
    def __init__(self, c, st, p):
        H.HM.__init__(self, c, st, p, False)
        e = c.get(st, p, "hashmap", "elem_size")
        self.ME = None
        if e.lin is not None and e.lin.c == 0 and len(e.lin.ts) == 1 and not isinstance(list(e.lin.ts)[0], int):
            self.ME = list(e.lin.ts)[0]

    def f(self, m, v):
        return self.vals.at(v, self.c.fo("vec", m)[0])

    def inner(self, n=None, tag="every key has a value list: "):
        if self.ME is None:
            return [(tag + "element size known", z3.BoolVal(False))]
        pat = lambda v: [self.f("size", v), self.f("data", v)]
        return [(tag + "valid vec", all1(0, self.n if n is None else n, lambda v: And(self.f("data", v) > 0, self.f("size", v) >= 1, self.f("size", v) < self.f("_alloc", v), self.f("_alloc", v) <= V.capof(self.ME),
                                                                self.f("_elem_size", v) == self.ME.t), pat))]

    def wf(self):
        return H.HM.wf(self) + self.inner()


@contract
class multimap_nset(H.Adds):
    name = "multimap_nset"
    props = ("C04",)

    def setup(self, c, st):
        p, S = mk_mm(c, st, c.case["mode"])
        k, n = H.mk_key(c, st)
        d = V.mk_arr(c, st, "data", S, fint("data_n"), ro=True)
        st.assume(d.count >= 1)
        return [p, k, PV(d.rid), n]

    def hm(self, c, st):
        return MM(c, st, c.args[0])

    def pre(self, c):
        b = V.Buf(c, c.old, c.args[2])
        return H.MapOp.pre(self, c) + [("data is one element", And(b.k >= 0, b.k < b.r.count) if not b.cell else z3.BoolVal(True))]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("call of multimap_nset")
        return H.MapOp.effect(self, c)

    def post(self, c):
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        key = self.key(c)
        oh, mh = self.has(o, key), self.has(m, key)
        d = V.Buf(c, c.old, c.args[2])
        pat = lambda v: [m.t.S.get(v), m.f("data", v), m.f("size", v)]
        return m.wf() + self.added(c, o, m) + [
            ("other keys keep their values and their order", all1(0, o.n, lambda v: Imp(Not(oh(v)), And(m.f("data", v) == o.f("data", v), m.f("size", v) == o.f("size", v))), pat)),
            ("a new key has exactly the one value", Imp(m.n == o.n + 1, And(m.f("size", o.n) == 1, INNER(m.f("data", o.n), 0) == d.at(0)))),
            ("a known key gets one value more", all1(0, o.n, lambda v: Imp(oh(v), m.f("size", v) == o.f("size", v) + 1), pat)),
            ("the new value comes last", all1(0, o.n, lambda v: Imp(oh(v), INNER(m.f("data", v), o.f("size", v)) == d.at(0)), pat)),
            ("its earlier values keep their order", forall_m(vs2(), Imp(And(0 <= VV, VV < o.n, oh(VV), 0 <= II, II < o.f("size", VV)),
                                                                     INNER(m.f("data", VV), II) == INNER(o.f("data", VV), II)), INNER(m.f("data", VV), II)))]


VV, II = z3.Ints("mm_v mm_i")


def vs2():
    return [VV, II]


def forall_m(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats)) if H.okpat(pats) else z3.ForAll(vs, body)


@contract
class multimap_construct(H.hashmap_construct if isinstance(H.hashmap_construct, type) else type(REG["hashmap_construct"])):
    name = "multimap_construct"
    props = ("C04",)

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("call of multimap_construct")
        return super().effect(c)

    def post(self, c):
        m = MM(c, c.new, c.args[0])
        S = c.aux.get("S") if "S" in c.aux else list(c.args[1].lin.ts)[0]
        return H.HM.wf(m) + [("no entries", m.n == 0), ("returns self", c.peq(c.ret, c.args[0])),
                         ("values are lists", z3.BoolVal(m.vals.stride() == c.ex.prog.sizeof("vec"))),
                         ("lists hold elements of the given size", z3.BoolVal(m.ME is S)),
                         ("keys compared as the properties ask", H.is_mode(c, m.fn, c.ex.U(c.old, c.args[3])))]


class Drop(Contract):
    """frees every value list"""
    props = ("C04",)
    cases = [("", {"mode": "exact"})]
    destroy = False

    def setup(self, c, st):
        return [mk_mm(c, st, "exact")[0]]

    def pre(self, c):
        return MM(c, c.old, c.args[0]).wf()

    def loops_inv(self, lp):
        c = Ctx(lp.ex, self, lp.root.old, lp.st, lp.args, "loop")
        o, m = MM(c, c.old, c.args[0]), MM(c, c.new, c.args[0])
        pat = lambda v: [m.f("data", v)]
        ps = lp.ptrs(m.vals.r.rid)
        out = [("lists before the position freed", all1(0, lp.K, lambda v: m.f("data", v) == 0, pat)),
               ("lists from the position on untouched", all1(lp.K, o.n, lambda v: m.f("data", v) == o.f("data", v), pat)),
               ("variant", o.n - lp.K)]
        if ps:
            out.insert(0, ("position", And(V.posidx(c, lp.st, m.vals, ps[0]) == lp.K, lp.K <= o.n)))
        return out

    @property
    def loops(self):
        return [self.loops_inv]

    def freed(self, c):
        o = MM(c, c.old, c.args[0])
        r = c.new.regions[o.vals.data.rid]
        f = r.fields[c.fo("vec", "data")[0]][2]
        return ("every value list freed", all1(0, o.n, lambda v: f.get(v) == 0, lambda v: [f.get(v)]))


@contract
class multimap_clear(Drop):
    name = "multimap_clear"

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("call of multimap_clear")
        REG["hashmap_clear"].effect.__func__(_NoSet, c)
        V.havoc_contents(c, c.new, c.get(c.new, c.args[0], "hashmap", "values"))

    def post(self, c):
        m = MM(c, c.new, c.args[0])
        return m.wf() + [("no entries", m.n == 0), self.freed(c)]


class _NoSet:
    isset = False

    @staticmethod
    def hm(c, st):
        return H.HM(c, st, c.args[0], False)


@contract
class multimap_destroy(Drop):
    name = "multimap_destroy"

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("call of multimap_destroy")
        V.havoc_contents(c, c.new, c.get(c.new, c.args[0], "hashmap", "values"))
        REG["hashmap_destroy"].effect(c)

    def post(self, c):
        o = MM(c, c.old, c.args[0])
        return [self.freed(c), ("entries freed", c.deadp(c.new, o.entries)), ("key buffer freed", c.deadp(c.new, o.keybuf)),
                ("value vector freed", And(c.deadp(c.new, o.vp), c.deadp(c.new, o.vals.data)))]
