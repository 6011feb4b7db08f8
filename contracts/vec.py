"""Contracts for util/vec.c: a vec is a sequence of elements.

Representation invariant (ok): data is the start of a live heap block of
exactly _alloc elements of _elem_size bytes, and size < _alloc (one spare slot
for the end iterator).  Abstract value: the sequence data[0..size).
"""
from contract import *
from contract import And, Or, Not, Imp, forall

FILE = "util/vec.c"


def capof(S):
    return S.cap if isinstance(S, Stride) else I(2 ** 47 // S)


def fits(S, n):
    """n elements' byte size cannot wrap (n is far below 2^64/elem size)"""
    return And(n >= 0, n <= 4000 * (capof(S) + 1))


class Vec:
    def __init__(self, c, st, p):
        self.c, self.st, self.p = c, st, p
        self.data = c.get(st, p, "vec", "data")
        self.size = c.u(st, p, "vec", "size")
        self.alloc = c.u(st, p, "vec", "_alloc")
        self.E = c.get(st, p, "vec", "_elem_size")

    @property
    def r(self):
        if not isinstance(self.data, PV) or self.data.rid not in self.st.regions:
            raise Unsupported("vec data is not a block")
        return self.st.regions[self.data.rid]

    def stride(self):
        return self.r.stride

    def at(self, i, o=0):
        f = self.r.fields.get(o)
        if f is None:
            f = builtins_getfield(self.c.ex, self.r, o)
        return f[2].get(i)

    def ptr(self, i):
        return PV(self.data.rid, Off(0, {self.r.stride: I(i)}))

    def ok(self, tag=""):
        if not isinstance(self.data, PV) or self.data.rid is None or self.data.rid == "opq":
            return [(tag + "data is a block", z3.BoolVal(False))]
        r = self.r
        S = r.stride
        if r.kind != "arr":
            return [(tag + "data is an array block", z3.BoolVal(False))]
        if isinstance(S, Stride):
            if self.E.lin is not None:
                es = z3.BoolVal(list(self.E.lin.ts) == [S] and zc(self.E.lin.ts[S]) == 1 and self.E.lin.c == 0)
            else:
                es = self.c.ex.U(self.st, self.E) == S.t
        else:
            es = self.c.ex.U(self.st, self.E) == S
        return [(tag + "block alive", z3.BoolVal(bool(r.alive and r.heap))),
                (tag + "data is block start", And(*[t == 0 for t in self.data.off.ts.values()]) if self.data.off.c == 0 else z3.BoolVal(False)),
                (tag + "capacity within the allocation", r.count >= self.alloc),
                (tag + "size < capacity", self.size < self.alloc),
                (tag + "element size", es)]

    def okw(self, tag=""):
        """ok, except that the spare slot may be missing"""
        return [(nm, f) if not nm.endswith("size < capacity") else (tag + "size <= capacity", self.size <= self.alloc)
                for nm, f in self.ok(tag)]


def builtins_getfield(ex, r, o):
    import builtins_c
    return builtins_c.getfield(ex, r, o, r.stride if not isinstance(r.stride, int) else r.stride, "int")


def offs(*vs):
    """the member offsets that make up an element"""
    s = set()
    for v in vs:
        r = v.r if isinstance(v, (Vec, Buf)) else v
        if r.kind == "arr" and not getattr(v, "member", False):
            s |= {o for o in r.fields if isinstance(o, int)}
    if not s:
        for v in vs:
            if isinstance(v, Buf) and v.cell:
                s |= {o - v.c0 for o in v.r.cells if o >= v.c0}
    return sorted(s) or [0]


def eqel(a, i, b, j):
    return And(*[a.at(i, o) == b.at(j, o) for o in offs(a, b)])


class Buf:
    """an external buffer of elements (same interface as Vec for reading)"""
    def __init__(self, c, st, p):
        self.c, self.st, self.p = c, st, p
        self.r = st.regions[p.rid]
        self.k, cc = c.ex.resolve(st, self.r, p.off) if self.r.kind == "arr" else (I(0), p.off.c)
        # one element kept in a struct (a variable or a member of a pooled object)
        self.cell = self.r.kind == "cell"
        self.member = self.r.kind == "arr" and (self.r.nullable or cc != 0)
        self.single = self.cell or self.member
        self.c0 = cc

    def at(self, i, o=0):
        if self.cell:
            oo = self.c0 + o
            v = self.r.cells.get(oo)
            if v is None:
                raise Unsupported("element member at +%d of %s not initialised" % (o, self.r.name))
            x = v[1]
            if isinstance(x, IV):
                return self.c.ex.U(self.st, x)
            if isinstance(x, PV) and x.rid is None:
                return I(0)
            if isinstance(x, PV) and self.st.regions[x.rid].nullable:
                k, o2 = self.c.ex.resolve(self.st, self.st.regions[x.rid], x.off)
                if o2 == 0:
                    return k
            if isinstance(x, PV) and x.rid in self.c.ex.handles:
                return self.c.ex.handles[x.rid]
            raise Unsupported("pointer member in element")
        if self.member:
            return self.r.fields[self.c0 + o][2].get(self.k)
        f = self.r.fields.get(o)
        if f is None:
            f = builtins_getfield(self.c.ex, self.r, o)
        return f[2].get(self.k + i)


def mk_stride(c, st, name="E"):
    S = Stride(name)
    st.assume(*S.axioms())
    return S


def mk_arr(c, st, name, S, count, heap=True, ro=False, fields=None):
    r = c.ex.new_region(st, "arr", name, stride=S, count=count, heap=heap, ro=ro)
    st.assume(And(count >= 0, count <= capof(S)))
    for o, n in (fields or {0: S}).items():
        r.fields[o] = (n, "int", Base(name + "_f%s" % o))
    return r


def mk_vec(c, st, name, S=None, fields=None, ro=False, heap=False):
    """a vec satisfying ok; returns (pointer, Stride)"""
    S = S or mk_stride(c, st, name + "_E")
    n, al = z3.Int(fresh_name(name + "_size")), z3.Int(fresh_name(name + "_alloc"))
    d = mk_arr(c, st, name + "_data", S, z3.Int(fresh_name(name + "_block")), fields=fields)
    r = c.ex.new_region(st, "cell", name, size=c.ex.prog.sizeof("vec"), heap=heap, ro=ro)
    p = PV(r.rid)
    ev = IV(64, None, lin=Off(0, {S: I(1)})) if isinstance(S, Stride) else IV(64, S)
    for m, v in (("data", PV(d.rid)), ("size", IV(64, n, u=True)), ("_alloc", IV(64, al, u=True)), ("_elem_size", ev)):
        o, sz = c.fo("vec", m)
        r.cells[o] = (sz, v)
    st.assume(And(n >= 0, n < al, al <= d.count))
    return p, S


def replace_data(c, st, p, nfields=None):
    """effect: the vec's block is replaced by a block of unknown contents"""
    d = c.get(st, p, "vec", "data")
    r = st.regions[d.rid]
    r2 = r.copy()
    r2.rid = fresh_name(r.name)
    r2.count = fint("alloc")
    st.regions[r2.rid] = r2
    for o, f in r2.fields.items():
        r2.fields[o] = (f[0], f[1], Base(r.name + "_n"))
    if not r2.fields and isinstance(r2.stride, Stride):
        r2.fields[0] = (r2.stride, "int", Base(r.name + "_n"))
    st.assume(And(r2.count >= 1, r2.count <= capof(r2.stride)))
    r.alive = False
    c.set(st, p, "vec", "data", PV(r2.rid))
    return r2


def havoc_contents(c, st, p):
    d = c.get(st, p, "vec", "data")
    r = st.regions[d.rid]
    for o, f in r.fields.items():
        r.fields[o] = (f[0], f[1], Base(r.name + "_n"))
    if not r.fields:
        r.fields[0] = (r.stride, "int", Base(r.name + "_n"))
    return r


class VC(Contract):
    """common shape: first argument is a valid vec"""
    props = ("C06",)
    grows = True      # may move the block
    sizes = True      # may change size
    writes = True     # may change contents

    def setup(self, c, st):
        p, S = mk_vec(c, st, "v")
        c.aux["S"] = S
        return [p] + self.more(c, st, p, S)

    def more(self, c, st, p, S):
        return []

    def pre(self, c):
        v = Vec(c, c.old, c.args[0])
        return v.ok("vec: ") + self.pre2(c, v)

    def pre2(self, c, v):
        return []

    def effect(self, c):
        st, p = c.new, c.args[0]
        if self.grows:
            havoc_contents(c, st, p)
            replace_data(c, st, p)
            c.havoc_int(st, p, "vec", "_alloc")
        elif self.writes:
            havoc_contents(c, st, p)
        if self.sizes:
            c.havoc_int(st, p, "vec", "size")
        return self.ret(c)

    def ret(self, c):
        return None

    def post(self, c):
        o, n = Vec(c, c.old, c.args[0]), Vec(c, c.new, c.args[0])
        return n.ok("vec still valid: ") + [x for x in self.post2(c, o, n) if x]

    def keep(self, c, o, n, upto, name="existing elements kept"):
        return (name, forall(0, upto, lambda i: eqel(n, i, o, i)))


def arg_n(c, i, bits=64):
    return c.ex.U(c.old, c.args[i])


def fresh_n(c, st, name, bits=64):
    return c.ex.fresh_iv(st, bits, name)


@contract
class vec_construct(Contract):
    name = "vec_construct"
    props = ("C06",)

    def setup(self, c, st):
        S = mk_stride(c, st)
        r = c.ex.new_region(st, "cell", "v", size=c.ex.prog.sizeof("vec"))
        return [PV(r.rid), IV(64, None, lin=Off(0, {S: I(1)}))]

    def effect(self, c):
        st, p = c.new, c.args[0]
        e = c.args[1]
        if e.lin is not None and len(e.lin.ts) == 1 and e.lin.c == 0 and not isinstance(list(e.lin.ts)[0], int):
            S = list(e.lin.ts)[0]
            f = {0: S}
        else:
            S = e.const()
            f = {}
            if S is None:
                raise Unsupported("vec of unknown element size")
        cnt = fint("alloc")
        r = c.ex.new_region(st, "arr", "vdata", stride=S, count=cnt, heap=True)
        st.assume(And(cnt >= 1, cnt <= capof(S)))
        for o, n in f.items():
            r.fields[o] = (n, "int", Base("vdata"))
        if S == 1:
            r.fields[0] = (1, "int", Base("vdata"))
        c.set(st, p, "vec", "data", PV(r.rid))
        c.set(st, p, "vec", "size", IV(64, 0))
        c.set(st, p, "vec", "_alloc", IV(64, cnt, u=True))
        c.set(st, p, "vec", "_elem_size", e)
        return p

    def post(self, c):
        n = Vec(c, c.new, c.args[0])
        return n.ok("constructed vec valid: ") + [("empty", n.size == 0), ("returns self", c.peq(c.ret, c.args[0])),
                                                    ("room for two", n.alloc >= 2)]


@contract
class vec_destroy(VC):
    name = "vec_destroy"

    def pre(self, c):
        return [x for x in Vec(c, c.old, c.args[0]).ok("vec: ") if not x[0].endswith("size < capacity")]

    def effect(self, c):
        d = c.get(c.new, c.args[0], "vec", "data")
        c.new.regions[d.rid].alive = False
        c.set(c.new, c.args[0], "vec", "data", NULL)

    def post(self, c):
        o = Vec(c, c.old, c.args[0])
        return [("block freed", c.deadp(c.new, o.data)), ("data NULL", c.peq(c.get(c.new, c.args[0], "vec", "data"), NULL))]


class Pure(VC):
    grows = sizes = writes = False


@contract
class vec_empty(Pure):
    name = "vec_empty"
    inline = True

    def ret(self, c):
        return Vec(c, c.new, c.args[0]).size == 0

    def post2(self, c, o, n):
        return [("true iff no elements", c.ret == (o.size == 0))]


@contract
class vec_at(Pure):
    name = "vec_at"
    inline = True

    def more(self, c, st, p, S):
        return [fresh_n(c, st, "index")]

    def pre2(self, c, v):
        return [("index within capacity", arg_n(c, 1) <= v.alloc)]

    def post2(self, c, o, n):
        return [("address of element", c.peq(c.ret, o.ptr(arg_n(c, 1))))]


@contract
class vec_begin(Pure):
    name = "vec_begin"
    inline = True

    def post2(self, c, o, n):
        return [("address of first element", c.peq(c.ret, o.ptr(0)))]


@contract
class vec_back(Pure):
    name = "vec_back"
    inline = True

    def post2(self, c, o, n):
        return [("address of last element", c.peq(c.ret, o.ptr(z3.If(o.size == 0, I(0), o.size - 1))))]


@contract
class vec_end(Pure):
    name = "vec_end"
    inline = True

    def post2(self, c, o, n):
        return [("address one past the last element", c.peq(c.ret, o.ptr(o.size)))]


class Room(VC):
    """makes room; the block moves only when the capacity does not suffice"""
    def more(self, c, st, p, S):
        return [fresh_n(c, st, "n")]

    def pre2(self, c, v):
        return [("requested size representable", fits(v.stride(), arg_n(c, 1)))]

    def grow_effect(self, c, need, extra=lambda st: None):
        """two outcomes: block kept (need <= capacity) / block moved"""
        st, p = c.new, c.args[0]
        o = Vec(c, c.old, p)
        out = []
        if not c.ex.infeasible(st, need <= o.alloc):
            s1 = st.copy()
            s1.assume(need <= o.alloc)
            extra(s1)
            out.append(s1)
        if not c.ex.infeasible(st, need > o.alloc):
            st.assume(need > o.alloc)
            replace_data(c, st, p)
            c.havoc_int(st, p, "vec", "_alloc")
            extra(st)
            out.append(st)
        return [(x, self.ret_in(c, x)) for x in out]

    def ret_in(self, c, st):
        return None

    def moved(self, c, o, n, need):
        if o.data.rid == n.data.rid:
            return [("capacity kept", n.alloc == o.alloc)]
        return [("block moves only when the capacity does not suffice", need > o.alloc), ("capacity grows", n.alloc > o.alloc)]


@contract
class vec_reserve(Room):
    name = "vec_reserve"
    sizes = False

    def pre(self, c):
        v = Vec(c, c.old, c.args[0])
        return v.okw("vec: ") + self.pre2(c, v)

    def effect(self, c):
        return self.grow_effect(c, arg_n(c, 1) + 1)

    def post(self, c):
        o, n = Vec(c, c.old, c.args[0]), Vec(c, c.new, c.args[0])
        return n.okw("vec still valid: ") + [("room for n elements and the end", n.alloc > arg_n(c, 1)),
                                             self.keep(c, o, n, o.alloc)] + self.moved(c, o, n, arg_n(c, 1) + 1)


@contract
class vec_resize(Room):
    name = "vec_resize"

    def effect(self, c):
        return self.grow_effect(c, arg_n(c, 1) + 1, lambda st: c.havoc_int(st, c.args[0], "vec", "size"))

    def post2(self, c, o, n):
        return [("size is n", n.size == arg_n(c, 1)), ("capacity never shrinks", n.alloc >= o.alloc),
                self.keep(c, o, n, o.alloc)] + self.moved(c, o, n, arg_n(c, 1) + 1)


@contract
class vec_resize_and_zero(vec_resize):
    name = "vec_resize_and_zero"

    def effect(self, c):
        def ex(st):
            c.havoc_int(st, c.args[0], "vec", "size")
            havoc_contents(c, st, c.args[0])
        return self.grow_effect(c, arg_n(c, 1) + 1, ex)

    def post2(self, c, o, n):
        m = arg_n(c, 1)
        return [("size is n", n.size == m), ("capacity never shrinks", n.alloc >= o.alloc),
                self.keep(c, o, n, z3.If(m < o.size, m, o.size)),
                ("new elements are zero", forall(o.size, m, lambda i: And(*[n.at(i, f) == 0 for f in offs(n)])))] + self.moved(c, o, n, m + 1)


@contract
class vec_clear(VC):
    name = "vec_clear"
    grows = writes = False

    def post2(self, c, o, n):
        return [("empty", n.size == 0), ("capacity kept", n.alloc == o.alloc)]


@contract
class vec_shrink_to_fit(VC):
    name = "vec_shrink_to_fit"
    sizes = False

    def post2(self, c, o, n):
        return [("capacity is size + end", n.alloc == o.size + 1), self.keep(c, o, n, o.size), ("size kept", n.size == o.size)]


@contract
class vec_pop_back(VC):
    name = "vec_pop_back"
    grows = writes = False

    def ret(self, c):
        o = Vec(c, c.old, c.args[0])
        return Choice(o.size == 0, NULL, o.ptr(o.size - 1))

    def post2(self, c, o, n):
        if isinstance(c.ret, Choice):
            return [("size", n.size == z3.If(o.size == 0, I(0), o.size - 1))]
        if isinstance(c.ret, PV) and c.ret.rid is None:
            return [("NULL only when empty", o.size == 0), ("still empty", n.size == 0)]
        return [("not empty", o.size > 0), ("one element fewer", n.size == o.size - 1), ("returns the removed element", c.peq(c.ret, o.ptr(o.size - 1)))]


@contract
class vec_add_one(VC):
    name = "vec_add_one"

    def ret(self, c):
        o = Vec(c, c.old, c.args[0])
        n = Vec(c, c.new, c.args[0])
        return n.ptr(o.size)

    def post2(self, c, o, n):
        return [("one element more", n.size == o.size + 1), ("returns the new last element", c.peq(c.ret, n.ptr(o.size))),
                ("capacity never shrinks", n.alloc >= o.alloc), self.keep(c, o, n, o.alloc)]


@contract
class vec_add_one_front(VC):
    name = "vec_add_one_front"

    def ret(self, c):
        return Vec(c, c.new, c.args[0]).ptr(0)

    def post2(self, c, o, n):
        return [("one element more", n.size == o.size + 1), ("returns the first element", c.peq(c.ret, n.ptr(0))),
                ("old elements follow", forall(1, o.size + 1, lambda i: eqel(n, i, o, i - 1)))]


class WithItem(VC):
    """one external element as last argument"""
    nitem = 1

    def item(self, c, st, S, n=None):
        r = mk_arr(c, st, "item", S, z3.Int(fresh_name("nitem")) if n is None else n, heap=False, ro=True)
        return r


@contract
class vec_push_back(WithItem):
    name = "vec_push_back"

    def more(self, c, st, p, S):
        return [PV(self.item(c, st, S, I(1)).rid)]

    def post2(self, c, o, n):
        b = Buf(c, c.old, c.args[1])
        return [("one element more", n.size == o.size + 1), ("item stored last", eqel(n, o.size, b, 0)), ("capacity never shrinks", n.alloc >= o.alloc),
                self.keep(c, o, n, o.size)]


def mk_pos(c, st, p, S, name="pos"):
    d = c.get(st, p, "vec", "data")
    i = z3.Int(fresh_name(name))
    st.assume(i >= 0)
    return PV(d.rid, Off(0, {S: i})), i


def posidx(c, st, v, p):
    """index of a pointer into the vec's block (None if it is not)"""
    if not isinstance(p, PV) or p.rid != v.data.rid:
        return None
    k, cc = c.ex.resolve(st, v.r, p.off)
    return k if cc == 0 else None


class SetC(WithItem):
    grows = sizes = False


@contract
class vec_set_one(SetC):
    name = "vec_set_one"

    def more(self, c, st, p, S):
        q, i = mk_pos(c, st, p, S)
        return [q, PV(self.item(c, st, S, I(1)).rid)]

    def pre2(self, c, v):
        i = posidx(c, c.old, v, c.args[1])
        return [("position inside the vec", And(i >= 0, i < v.alloc) if i is not None else z3.BoolVal(False))]

    def post2(self, c, o, n):
        i = posidx(c, c.old, o, c.args[1])
        b = Buf(c, c.old, c.args[2])
        return [("element overwritten", eqel(n, i, b, 0)),
                ("others kept", forall(0, o.alloc, lambda j: Or(j == i, eqel(n, j, o, j))))]


class SetRange(SetC):
    def rng(self, c, v):
        raise NotImplementedError

    def pre2(self, c, v):
        i, m, b = self.rng(c, v)
        if i is None:
            return [("position inside the vec", z3.BoolVal(False))]
        return [("position inside the vec", And(i >= 0, m >= 0, i + m <= v.alloc)),
                ("source long enough", Or(m == 0, b.k + m <= b.r.count) if not b.single else m <= 1)]

    def post2(self, c, o, n):
        i, m, b = self.rng(c, o)
        return [("elements overwritten", forall(i, i + m, lambda j: eqel(n, j, b, j - i))),
                ("others kept", forall(0, o.alloc, lambda j: Or(And(j >= i, j < i + m), eqel(n, j, o, j))))]


@contract
class vec_set_at(SetRange):
    name = "vec_set_at"

    def more(self, c, st, p, S):
        return [fresh_n(c, st, "idx"), PV(self.item(c, st, S).rid), fresh_n(c, st, "len")]

    def rng(self, c, v):
        return arg_n(c, 1), arg_n(c, 3), Buf(c, c.old, c.args[2])


@contract
class vec_set(SetRange):
    name = "vec_set"

    def more(self, c, st, p, S):
        return [mk_pos(c, st, p, S)[0], PV(self.item(c, st, S).rid), fresh_n(c, st, "len")]

    def rng(self, c, v):
        return posidx(c, c.old, v, c.args[1]), arg_n(c, 3), Buf(c, c.old, c.args[2])


@contract
class vec_set_iter(SetRange):
    name = "vec_set_iter"

    def more(self, c, st, p, S):
        r = self.item(c, st, S)
        k, j = z3.Int(fresh_name("b")), z3.Int(fresh_name("e"))
        st.assume(And(k >= 0, j >= k, j < r.count))
        return [mk_pos(c, st, p, S)[0], PV(r.rid, Off(0, {S: k})), PV(r.rid, Off(0, {S: j}))]

    def rng(self, c, v):
        b, e = Buf(c, c.old, c.args[2]), Buf(c, c.old, c.args[3])
        return posidx(c, c.old, v, c.args[1]), e.k - b.k + 1, b


class Insert(WithItem):
    def rng(self, c, v):
        raise NotImplementedError

    def pre2(self, c, v):
        i, m, b = self.rng(c, v)
        if i is None:
            return [("position inside the vec", z3.BoolVal(False))]
        return [("position inside the sequence", And(i >= 0, i <= v.size)), ("length", And(m >= self.minlen)),
                ("result representable", fits(v.stride(), v.size + m)),
                ("source long enough", Or(m == 0, b.k + m <= b.r.count) if not b.single else m <= 1),
                ("source is another block", z3.BoolVal(b.r.rid != v.r.rid))]

    minlen = 0
    endslot = True

    def post2(self, c, o, n):
        i, m, b = self.rng(c, o)
        return [("size grows by the inserted length", n.size == o.size + m),
                ("elements before kept", forall(0, i, lambda j: eqel(n, j, o, j))),
                ("elements inserted", forall(i, i + m, lambda j: eqel(n, j, b, j - i))),
                ("elements after shifted", forall(i + m, o.size + m, lambda j: eqel(n, j, o, j - m))),
                ("the end slot keeps what followed the last element {C08,C09}", eqel(n, o.size + m, o, o.size)) if self.endslot else None]


@contract
class vec_insert_iter(Insert):
    name = "vec_insert_iter"
    minlen = 1

    def more(self, c, st, p, S):
        r = self.item(c, st, S)
        k, j = z3.Int(fresh_name("b")), z3.Int(fresh_name("e"))
        st.assume(And(k >= 0, j >= k, j < r.count))
        return [mk_pos(c, st, p, S)[0], PV(r.rid, Off(0, {S: k})), PV(r.rid, Off(0, {S: j}))]

    def rng(self, c, v):
        b, e = Buf(c, c.old, c.args[2]), Buf(c, c.old, c.args[3])
        return posidx(c, c.old, v, c.args[1]), e.k - b.k + 1, b


@contract
class vec_insert_one(Insert):
    name = "vec_insert_one"

    def more(self, c, st, p, S):
        return [mk_pos(c, st, p, S)[0], PV(self.item(c, st, S, I(1)).rid)]

    def rng(self, c, v):
        return posidx(c, c.old, v, c.args[1]), I(1), Buf(c, c.old, c.args[2])


@contract
class vec_insert_at(Insert):
    name = "vec_insert_at"

    def more(self, c, st, p, S):
        return [fresh_n(c, st, "idx"), PV(self.item(c, st, S).rid), fresh_n(c, st, "len")]

    def rng(self, c, v):
        return arg_n(c, 1), arg_n(c, 3), Buf(c, c.old, c.args[2])


@contract
class vec_insert(Insert):
    name = "vec_insert"

    def more(self, c, st, p, S):
        return [mk_pos(c, st, p, S)[0], PV(self.item(c, st, S).rid), fresh_n(c, st, "len")]

    def rng(self, c, v):
        return posidx(c, c.old, v, c.args[1]), arg_n(c, 3), Buf(c, c.old, c.args[2])


class Erase(VC):
    grows = False
    minlen = 0

    def pre2(self, c, v):
        i, m = self.rng(c, v)
        if i is None:
            return [("position inside the vec", z3.BoolVal(False))]
        return [("range inside the sequence", And(i >= 0, m >= self.minlen, i + m <= v.size))]

    def post2(self, c, o, n):
        i, m = self.rng(c, o)
        return [("size shrinks by the erased length", n.size == o.size - m),
                ("elements before kept", forall(0, i, lambda j: eqel(n, j, o, j))),
                ("elements after move up", forall(i, o.size - m, lambda j: eqel(n, j, o, j + m))),
                ("the end slot keeps what followed the last element {C08,C09}", eqel(n, o.size - m, o, o.size))]


@contract
class vec_erase_iter(Erase):
    name = "vec_erase_iter"
    minlen = 1

    def more(self, c, st, p, S):
        return [mk_pos(c, st, p, S)[0], mk_pos(c, st, p, S)[0]]

    def rng(self, c, v):
        i, j = posidx(c, c.old, v, c.args[1]), posidx(c, c.old, v, c.args[2])
        return i, (j - i + 1 if i is not None and j is not None else I(-1))


@contract
class vec_erase_one(Erase):
    name = "vec_erase_one"

    def more(self, c, st, p, S):
        return [mk_pos(c, st, p, S)[0]]

    def rng(self, c, v):
        return posidx(c, c.old, v, c.args[1]), I(1)


@contract
class vec_erase_at(Erase):
    name = "vec_erase_at"

    def more(self, c, st, p, S):
        return [fresh_n(c, st, "idx"), fresh_n(c, st, "len")]

    def rng(self, c, v):
        return arg_n(c, 1), arg_n(c, 2)


@contract
class vec_erase(Erase):
    name = "vec_erase"

    def more(self, c, st, p, S):
        return [mk_pos(c, st, p, S)[0], fresh_n(c, st, "len")]

    def rng(self, c, v):
        return posidx(c, c.old, v, c.args[1]), arg_n(c, 2)


@contract
class vec_append(WithItem):
    name = "vec_append"

    def more(self, c, st, p, S):
        return [PV(self.item(c, st, S).rid), fresh_n(c, st, "n")]

    def rng(self, c, v):
        if isinstance(c.args[1], PV) and (c.args[1].rid is None or c.args[1].rid == "opq"):
            return arg_n(c, 2), None
        return arg_n(c, 2), Buf(c, c.old, c.args[1])

    def pre2(self, c, v):
        m, b = self.rng(c, v)
        if b is None:
            return [("source readable", m == 0)]
        return [("result representable", fits(v.stride(), v.size + m)),
                ("source long enough", Or(m == 0, And(b.k >= 0, b.k + m <= b.r.count)) if not b.single else m <= 1),
                ("source is another block", z3.BoolVal(b.r.rid != v.r.rid))]

    def post2(self, c, o, n):
        m, b = self.rng(c, o)
        return [("size grows by n", n.size == o.size + m), ("capacity never shrinks", n.alloc >= o.alloc),
                self.keep(c, o, n, o.size),
                ("source appended", forall(o.size, o.size + m, lambda j: eqel(n, j, b, j - o.size))) if b is not None else None]


@contract
class vec_extend(VC):
    name = "vec_extend"

    def more(self, c, st, p, S):
        q, _ = mk_vec(c, st, "src", S, ro=True)
        return [q]

    def pre2(self, c, v):
        w = Vec(c, c.old, c.args[1])
        return w.ok("source: ") + [("result representable", fits(v.stride(), v.size + w.size)),
                                   ("same element size", z3.BoolVal(v.stride() is w.stride() or v.stride() == w.stride())),
                                   ("different vecs", z3.BoolVal(v.r.rid != w.r.rid))]

    def post2(self, c, o, n):
        w = Vec(c, c.old, c.args[1])
        w2 = Vec(c, c.new, c.args[1])
        return [("size grows by the source size", n.size == o.size + w.size), ("capacity never shrinks", n.alloc >= o.alloc),
                self.keep(c, o, n, o.size),
                ("source appended", forall(o.size, o.size + w.size, lambda j: eqel(n, j, w, j - o.size)))]


@contract
class vec_sort_r(VC):
    name = "vec_sort_r"
    grows = sizes = False

    def more(self, c, st, p, S):
        return [PV("opq", Off(0, {1: fint("cmp")})), PV("opq", Off(0, {1: fint("ctx")}))]

    def effect(self, c):
        v = Vec(c, c.new, c.args[0])
        builtins_c_sort(c.ex, c.new, v, c.args)

    def post2(self, c, o, n):
        g = c.new.ghost.get("sorted")
        if g is None:
            return [("the elements are sorted", z3.BoolVal(False))]
        rid, k, m, f, x = g
        return [("exactly the elements of the sequence are sorted", And(z3.BoolVal(rid == o.data.rid), k == 0, m == o.size)),
                ("sorted by the given comparator and context", And(c.peq(f, c.args[1]), c.peq(x, c.args[2]))),
                ("size kept", n.size == o.size)]


def builtins_c_sort(ex, st, v, args):
    import builtins_c
    st.assume(z3.BoolVal(True))
    builtins_c.qsort_r(ex, st, [v.data, IV(64, v.size, u=True), v.E, args[1], args[2]], None)
