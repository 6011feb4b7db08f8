"""Contracts for util/fifo.c: the ring buffer.

Representation invariant: buf is a valid vec of n >= 2 elements, head and tail
are below n.  Abstract value: the sequence of items, item k = element
(tail + k) mod n for k < available, available = (head - tail) mod n; one slot
always stays empty, so a fifo holds at most n - 1 items.
Every operation is verified as one uninterrupted step.
"""
from contract import *
from contract import And, Or, Not, Imp, forall
from vec import Vec, Buf, mk_arr, mk_vec, mk_stride, eqel, fits, arg_n, fresh_n, replace_data, havoc_contents

FILE = ["util/fifo.c", "util/vec.c"]
DEPS = ["vec"]


def rem(c, a, b):
    """a mod b for b > 0 (definition of the machine's remainder at that point)"""
    r = uf("urem", INT, INT, INT)(a, b)
    c.new.assume(Imp(And(a >= 0, b > 0), And(r >= 0, r < b, r <= a, Imp(a < b, r == a), Imp(a == b, r == 0), Imp(And(a > b, a < 2 * b), r == a - b))))
    return r


class Fifo:
    def __init__(self, c, st, p):
        self.c, self.st, self.p = c, st, p
        self.bp = c.get(st, p, "fifo", "buf")
        self.head, self.tail = c.u(st, p, "fifo", "head"), c.u(st, p, "fifo", "tail")
        self.inputs = c.u(st, p, "fifo", "input_count")

    @property
    def buf(self):
        return Vec(self.c, self.st, self.bp)

    @property
    def n(self):
        return self.buf.size

    @property
    def avail(self):
        return z3.If(self.head >= self.tail, self.head - self.tail, self.head - self.tail + self.n)

    @property
    def room(self):
        """how many items a bulk transfer may add"""
        i = z3.If(self.inputs == 0, I(1), self.inputs)
        r = self.n - self.avail - i
        return z3.If(r > 0, r, I(0))

    def wrap(self, k):
        return z3.If(k >= self.n, k - self.n, k)

    def pos(self, k):
        return self.wrap(self.tail + k)

    def ok(self, tag=""):
        if not isinstance(self.bp, PV) or self.bp.rid is None or self.bp.rid == "opq":
            return [(tag + "buffer is a vec", z3.BoolVal(False))]
        v = self.buf.ok(tag + "buffer: ")
        return v + [(tag + "at least two slots", And(self.n >= 2, self.n < 2 ** 31)), (tag + "head and tail inside the buffer", And(self.head < self.n, self.tail < self.n, self.head >= 0, self.tail >= 0))]


def shared(c, st, p):
    """the fifo object another thread waits on, or NULL"""
    v = c.get(st, p, "fifo", "shared_mutex_fifo")
    return NULL if isinstance(v, IV) and v.const() == 0 else v


def mk_fifo(c, st, name="f", case=None, S=None, ftype=None, heap=False):
    v, S = mk_vec(c, st, name + "_buf", S, heap=True)
    if ftype:
        d = st.regions[c.get(st, v, "vec", "data").rid]
        d.fields[0] = (S, ftype, Base(name + "_items"))
    r = c.ex.new_region(st, "cell", name, size=c.ex.prog.sizeof("fifo"), heap=heap)
    p = PV(r.rid)
    vals = dict(buf=v, shared_mutex_fifo=NULL, is_open=c.ex.fresh_iv(st, 8, "is_open"))
    for m in ("input_count", "head", "tail", "_iter_head"):
        vals[m] = c.ex.fresh_iv(st, 32, m)
    if (case or c.case).get("shared"):
        q = c.ex.new_region(st, "cell", name + "_other", size=c.ex.prog.sizeof("fifo"))
        vals["shared_mutex_fifo"] = PV(q.rid)
    for m, x in vals.items():
        o, n = c.fo("fifo", m)
        r.cells[o] = (n, x)
    f = Fifo(c, st, p)
    st.assume(*[x for _, x in f.ok()])
    st.assume(c.u(st, p, "fifo", "is_open") <= 1, f.inputs < 2 ** 31)
    return p, S


class FF(Contract):
    props = ("C12",)
    moves = ()          # which of head, tail, _iter_head change
    writes = False      # buffer contents change
    signals = False     # may clear shared_mutex_fifo
    preavail = None     # (name, condition on the fifo)

    def setup(self, c, st):
        p, S = mk_fifo(c, st)
        c.aux["S"] = S
        return [p] + self.more(c, st, p, S)

    def more(self, c, st, p, S):
        return []

    def pre(self, c):
        f = Fifo(c, c.old, c.args[0])
        out = f.ok("fifo: ")
        if len(out) > 1:
            out += [("fifo: producers", f.inputs < 2 ** 31)]
        return out + self.pre2(c, f)

    def pre2(self, c, f):
        return []

    def effect(self, c):
        st, p = c.new, c.args[0]
        if self.writes:
            havoc_contents(c, st, Fifo(c, st, p).bp)
        for m in self.moves:
            c.havoc_int(st, p, "fifo", m)
        if self.signals:
            c.set(st, p, "fifo", "shared_mutex_fifo", NULL)
        return self.ret(c)

    def ret(self, c):
        return None

    def post(self, c):
        o, n = Fifo(c, c.old, c.args[0]), Fifo(c, c.new, c.args[0])
        v = n.ok("still valid: ")
        if len(v) < 4:
            return v
        held = c.mode == "verify" and [k for k, x in c.new.ghost.items() if isinstance(k, tuple) and k[0] == "mutex" and x]
        return v + [("every lock taken is released", z3.BoolVal(not held))] + [x for x in self.post2(c, o, n) if x]

    def keep(self, o, n, lo, hi, d=0, name="items keep their order"):
        """item k of n is item k + d of o"""
        return (name, forall(lo, hi, lambda k: eqel(n.buf, n.pos(k), o.buf, o.pos(k + d))))

    def slot(self, f, k):
        return f.buf.ptr(f.pos(k))


@contract
class fifo_construct(Contract):
    name = "fifo_construct"
    props = ("C12",)

    def setup(self, c, st):
        S = mk_stride(c, st)
        r = c.ex.new_region(st, "cell", "f", size=c.ex.prog.sizeof("fifo"))
        return [PV(r.rid), IV(64, None, lin=Off(0, {S: I(1)})), c.ex.fresh_iv(st, 32, "size")]

    def pre(self, c):
        m = c.ex.U(c.old, c.args[2])
        e = c.args[1]
        S = list(e.lin.ts)[0] if e.lin is not None and e.lin.ts else e.const()
        return [("size representable", And(m < 2 ** 31, fits(S, m + 1)))]

    def effect(self, c):
        st, p = c.new, c.args[0]
        r = st.regions[p.rid]
        r.cells.clear()
        r.zero = []
        if c.mode == "call":
            e = c.args[1]
            S = list(e.lin.ts)[0] if e.lin is not None and e.lin.ts else e.const()
            v, _ = mk_vec(c, st, "fifo_buf", S, heap=True)
            for m, x in dict(buf=v, shared_mutex_fifo=NULL, is_open=c.ex.fresh_iv(st, 8, "is_open")).items():
                c.set(st, p, "fifo", m, x)
            for m in ("input_count", "head", "tail", "_iter_head"):
                c.havoc_int(st, p, "fifo", m)
        return p

    frame_check = False

    def post(self, c):
        p = c.args[0]
        f = Fifo(c, c.new, p)
        m = c.ex.U(c.old, c.args[2])
        out = f.ok("constructed: ")
        if len(out) < 4:
            return out
        return out + [("as many slots as asked, at least two", f.n == z3.If(m < 2, I(2), m)), ("empty", f.avail == 0), ("open", c.u(c.new, p, "fifo", "is_open") == 1),
                      ("no producers yet", f.inputs == 0), ("nobody waits", c.peq(shared(c, c.new, p), NULL)), ("returns self", c.peq(c.ret, p)),
                      ("iteration ended", c.u(c.new, p, "fifo", "_iter_head") == 0)]


@contract
class fifo_destroy(FF):
    name = "fifo_destroy"

    def effect(self, c):
        f = Fifo(c, c.new, c.args[0])
        c.new.regions[f.buf.data.rid].alive = False
        c.new.regions[f.bp.rid].alive = False
        c.set(c.new, c.args[0], "fifo", "buf", NULL)

    def post(self, c):
        o = Fifo(c, c.old, c.args[0])
        return [("items freed", c.deadp(c.new, o.buf.data)), ("buffer freed", c.deadp(c.new, o.bp))]


@contract
class fifo_reset(FF):
    name = "fifo_reset"
    moves = ("head", "tail", "_iter_head", "is_open")

    def post2(self, c, o, n):
        return [("empty", n.avail == 0), ("open", c.u(c.new, c.args[0], "fifo", "is_open") != 0), ("same slots", n.n == o.n),
                ("iteration end inside the buffer", c.u(c.new, c.args[0], "fifo", "_iter_head") < n.n)]


@contract
class fifo_resize(FF):
    name = "fifo_resize"
    moves = ("head", "tail")

    def more(self, c, st, p, S):
        return [c.ex.fresh_iv(st, 32, "n")]

    def pre2(self, c, f):
        m = arg_n(c, 1)
        return [("size representable", And(m < 2 ** 31, fits(f.buf.stride(), m + 1)))]

    def effect(self, c):
        st = c.new
        bp = Fifo(c, st, c.args[0]).bp
        havoc_contents(c, st, bp)
        replace_data(c, st, bp)
        c.havoc_int(st, bp, "vec", "_alloc")
        c.havoc_int(st, bp, "vec", "size")
        return FF.effect(self, c)

    def post2(self, c, o, n):
        m = arg_n(c, 1)
        return [("empty", n.avail == 0), ("as many slots as asked, at least two", n.n == z3.If(m < 2, I(2), m))]


@contract
class fifo_set_open(FF):
    name = "fifo_set_open"
    cases = [("alone", {}), ("awaited", {"shared": True})]
    moves = ("is_open",)
    signals = True

    def more(self, c, st, p, S):
        return [c.ex.fresh_iv(st, 32, "is_open")]

    def post2(self, c, o, n):
        return [("open as asked", (c.u(c.new, c.args[0], "fifo", "is_open") != 0) == (arg_n(c, 1) != 0)), ("items kept", And(n.head == o.head, n.tail == o.tail))]


class Query(FF):
    def more(self, c, st, p, S):
        return []


@contract
class fifo_available(Query):
    name = "fifo_available"

    def ret(self, c):
        return c.ex.fresh_iv(c.new, 32, "avail")

    def post2(self, c, o, n):
        return [("number of items", c.ex.U(c.new, c.ret) == o.avail)]


@contract
class fifo_is_empty(Query):
    name = "fifo_is_empty"

    def ret(self, c):
        return z3.Bool(fresh_name("empty"))

    def post2(self, c, o, n):
        return [("true iff no items", c.ret == (o.avail == 0))]


@contract
class fifo_is_full(Query):
    name = "fifo_is_full"

    def ret(self, c):
        return z3.Bool(fresh_name("full"))

    def post2(self, c, o, n):
        return [("true iff one slot is left", c.ret == (o.avail == o.n - 1))]


@contract
class fifo_receivable(Query):
    name = "fifo_receivable"

    def ret(self, c):
        return c.ex.fresh_iv(c.new, 32, "room")

    def post2(self, c, o, n):
        r = c.ex.U(c.new, c.ret)
        return [("never more than the free slots", r + o.avail <= o.n - 1), ("room beyond what the producers may still add", r == o.room)]


@contract
class fifo_set_full(FF):
    name = "fifo_set_full"
    moves = ("head", "tail")

    def post2(self, c, o, n):
        return [("full", n.avail == n.n - 1), ("starts at the first slot", n.tail == 0)]


class Nonempty(FF):
    def pre2(self, c, f):
        return [("not empty", f.avail > 0)]


class Get(Nonempty):
    moves = ("tail",)
    ptr = True

    def ret(self, c):
        return self.slot(Fifo(c, c.old, c.args[0]), 0) if self.ptr else None

    def post2(self, c, o, n):
        return ([("returns the oldest item", c.peq(c.ret, self.slot(o, 0)))] if self.ptr else []) + \
               [("one item fewer", n.avail == o.avail - 1), self.keep(o, n, I(0), n.avail, 1), ("head kept", n.head == o.head)]


@contract
class fifo_get(Get):
    name = "fifo_get"


@contract
class fifo_get_or_wait(Get):
    name = "fifo_get_or_wait"
    loops = property(lambda self: [lambda lp: [("has items", Fifo(lp.root, lp.st, lp.root.args[0]).avail > 0)]])


@contract
class fifo_consume(Get):
    name = "fifo_consume"
    ptr = False


@contract
class fifo_peek(FF):
    name = "fifo_peek"

    def ret(self, c):
        return self.slot(Fifo(c, c.old, c.args[0]), 0)

    def post2(self, c, o, n):
        return [("address of the oldest item's slot", c.peq(c.ret, self.slot(o, 0)))]


@contract
class fifo_safe_peek(FF):
    name = "fifo_safe_peek"

    def ret(self, c):
        f = Fifo(c, c.old, c.args[0])
        return Choice(f.avail == 0, NULL, self.slot(f, 0))

    def post2(self, c, o, n):
        if isinstance(c.ret, Choice):
            return []
        if isinstance(c.ret, PV) and c.ret.rid is None:
            return [("NULL only when empty", o.avail == 0)]
        return [("only when not empty", o.avail > 0), ("address of the oldest item", c.peq(c.ret, self.slot(o, 0)))]


@contract
class fifo_look_ahead(FF):
    name = "fifo_look_ahead"

    def ret(self, c):
        f = Fifo(c, c.old, c.args[0])
        return Choice(f.avail < 2, NULL, self.slot(f, 1))

    def post2(self, c, o, n):
        if isinstance(c.ret, Choice):
            return []
        if isinstance(c.ret, PV) and c.ret.rid is None:
            return [("NULL only when there is no second item", o.avail < 2)]
        return [("only when there is a second item", o.avail >= 2), ("address of the second item", c.peq(c.ret, self.slot(o, 1)))]


@contract
class fifo_nget(FF):
    name = "fifo_nget"
    moves = ("tail",)

    def more(self, c, st, p, S):
        q, _ = mk_vec(c, st, "buffer", S)
        return [q, c.ex.fresh_iv(st, 32, "block_size"), c.ex.fresh_iv(st, 32, "max")]

    def pre2(self, c, f):
        v = Vec(c, c.old, c.args[1])
        return v.ok("destination: ") + [("block size", arg_n(c, 2) >= 1), ("destination representable", fits(f.buf.stride(), v.size + f.n)),
                                        ("destination is another vec", z3.BoolVal(v.r.rid != f.buf.r.rid and (v.stride() is f.buf.stride() or v.stride() == f.buf.stride())))]

    def effect(self, c):
        st, q = c.new, c.args[1]
        havoc_contents(c, st, q)
        replace_data(c, st, q)
        c.havoc_int(st, q, "vec", "_alloc")
        c.havoc_int(st, q, "vec", "size")
        return FF.effect(self, c)

    def ret(self, c):
        return c.ex.fresh_iv(c.new, 32, "left")

    def post2(self, c, o, n):
        a, b = Vec(c, c.old, c.args[1]), Vec(c, c.new, c.args[1])
        B, M = arg_n(c, 2), arg_n(c, 3)
        t = b.size - a.size
        most = z3.If(o.avail > M, M, o.avail)
        return b.ok("destination: ") + [
            ("moves some items", And(t >= 0, t <= most)),
            ("as many whole blocks as possible", t == most - rem(c, most, B)),
            ("earlier contents of the destination kept", forall(0, a.size, lambda i: eqel(b, i, a, i))),
            ("the oldest items are delivered in order", forall(a.size, b.size, lambda i: eqel(b, i, o.buf, o.pos(i - a.size)))),
            ("they leave the fifo", n.avail == o.avail - t), self.keep(o, n, I(0), n.avail, t), ("head kept", n.head == o.head),
            ("returns how many are left", c.ex.U(c.new, c.ret) == o.avail - t)]


class Add(FF):
    cases = [("alone", {}), ("awaited", {"shared": True})]
    moves = ("head",)
    writes = True
    signals = True

    def more(self, c, st, p, S):
        return [PV(mk_arr(c, st, "item", S, I(1), heap=False, ro=True).rid)]

    def src(self, c):
        return Buf(c, c.old, c.args[1])

    def pre2(self, c, f):
        b = self.src(c)
        return [("not full", f.avail < f.n - 1), ("item readable", (b.k < b.r.count) if not b.cell else z3.BoolVal(True)), ("item is outside the fifo", z3.BoolVal(b.r.rid != f.buf.r.rid))]

    def added(self, c, o, n):
        b = self.src(c)
        return [("one item more", n.avail == o.avail + 1), ("the item comes last", eqel(n.buf, n.pos(o.avail), b, 0)), self.keep(o, n, I(0), o.avail), ("tail kept", n.tail == o.tail), ("other slots kept", forall(0, o.n, lambda k: Or(k == o.head, eqel(n.buf, k, o.buf, k))))]

    def post2(self, c, o, n):
        return self.added(c, o, n)


@contract
class fifo_add(Add):
    name = "fifo_add"


class Try:
    """0 and the item added, or the lock's error code and nothing changed"""
    def effect(self, c):
        s2 = c.new.copy()
        e = c.ex.fresh_iv(s2, 32, "err", True)
        s2.assume(c.ex.S(s2, e) != 0)
        super().effect(c)
        return [(c.new, IV(32, 0)), (s2, e)]

    def post2(self, c, o, n):
        r = c.ex.S(c.new, c.ret)
        done = self.added(c, o, n)
        same = And(n.head == o.head, n.tail == o.tail, z3.BoolVal(n.buf.data.rid == o.buf.data.rid), forall(0, o.n, lambda k: eqel(n.buf, k, o.buf, k)))
        if c.ex.infeasible(c.new, r == 0):
            return [("nothing changed when the lock was taken", same)] + self.unmoved(c)
        return [("reports success", r == 0)] + done

    def unmoved(self, c):
        return []


@contract
class fifo_add_try(Try, Add):
    name = "fifo_add_try"


class NAdd(Add):
    def more(self, c, st, p, S):
        return [mk_vec(c, st, "src", S)[0]]

    def pre2(self, c, f):
        v = Vec(c, c.old, c.args[1])
        return v.ok("source: ") + [("source below 2^32 items", v.size < 2 ** 32),
                                   ("source is another vec", z3.BoolVal(v.r.rid != f.buf.r.rid and (v.stride() is f.buf.stride() or v.stride() == f.buf.stride())))]

    def effect(self, c):
        st, q = c.new, c.args[1]
        havoc_contents(c, st, q)
        c.havoc_int(st, q, "vec", "size")
        return FF.effect(self, c)

    def added(self, c, o, n):
        a, b = Vec(c, c.old, c.args[1]), Vec(c, c.new, c.args[1])
        t = z3.If(a.size < o.room, a.size, o.room)
        return b.ok("source: ") + [
            ("as many items as fit, never overwriting one", n.avail == o.avail + t), ("tail kept", n.tail == o.tail),
            self.keep(o, n, I(0), o.avail),
            ("the source's first items come last, in order", forall(o.avail, o.avail + t, lambda k: eqel(n.buf, n.pos(k), a, k - o.avail))),
            ("the source keeps the rest in order", And(b.size == a.size - t, forall(0, b.size, lambda i: eqel(b, i, a, i + t))))]

    def unmoved(self, c):
        a, b = Vec(c, c.old, c.args[1]), Vec(c, c.new, c.args[1])
        return [("the source keeps its items", And(b.size == a.size, forall(0, a.size, lambda i: eqel(b, i, a, i))))]


@contract
class fifo_nadd(NAdd):
    name = "fifo_nadd"


@contract
class fifo_nadd_try(Try, NAdd):
    name = "fifo_nadd_try"

    def effect(self, c):
        s2 = c.new.copy()
        e = c.ex.fresh_iv(s2, 32, "err", True)
        s2.assume(c.ex.S(s2, e) != 0)
        NAdd.effect(self, c)
        return [(c.new, IV(32, 0)), (s2, e)]


@contract
class fifo_advance(FF):
    name = "fifo_advance"
    moves = ("head",)

    def pre2(self, c, f):
        return [("not full", f.avail < f.n - 1)]

    def post2(self, c, o, n):
        return [("one item more", n.avail == o.avail + 1), self.keep(o, n, I(0), o.avail), ("tail kept", n.tail == o.tail)]


@contract
class fifo_begin(FF):
    name = "fifo_begin"
    moves = ("_iter_head",)

    def ret(self, c):
        return self.slot(Fifo(c, c.old, c.args[0]), 0)

    def post2(self, c, o, n):
        return [("iteration ends behind the newest item", c.u(c.new, c.args[0], "fifo", "_iter_head") == o.head), ("address of the oldest item's slot", c.peq(c.ret, self.slot(o, 0)))]


@contract
class fifo_iter(Nonempty):
    name = "fifo_iter"
    moves = ("tail",)

    def ret(self, c):
        return self.slot(Fifo(c, c.new, c.args[0]), 0)

    def post2(self, c, o, n):
        return [("one item fewer", n.avail == o.avail - 1), self.keep(o, n, I(0), n.avail, 1), ("head kept", n.head == o.head), ("address of the next item's slot", c.peq(c.ret, self.slot(n, 0)))]


@contract
class fifo_end(FF):
    name = "fifo_end"

    def pre2(self, c, f):
        return [("iteration end inside the buffer", c.u(c.old, c.args[0], "fifo", "_iter_head") < f.n)]

    def ret(self, c):
        f = Fifo(c, c.old, c.args[0])
        return f.buf.ptr(c.u(c.old, c.args[0], "fifo", "_iter_head"))

    def post2(self, c, o, n):
        return [("slot where the iteration ends", c.peq(c.ret, o.buf.ptr(c.u(c.old, c.args[0], "fifo", "_iter_head"))))]


class Untouched(FF):
    def post2(self, c, o, n):
        return [("items kept", And(n.head == o.head, n.tail == o.tail))]


@contract
class fifo_update(Untouched):
    name = "fifo_update"


@contract
class fifo_update_try(Untouched):
    name = "fifo_update_try"

    def ret(self, c):
        return c.ex.fresh_iv(c.new, 32, "err", True)


@contract
class _fifo_signal_shared(FF):
    name = "_fifo_signal_shared"
    cases = [("alone", {}), ("awaited", {"shared": True})]
    signals = True

    def ret(self, c):
        return z3.Bool(fresh_name("signalled"))

    def post2(self, c, o, n):
        was = c.peq(shared(c, c.old, c.args[0]), NULL, c.old)
        return [("true iff someone waited", c.ret == Not(was)), ("nobody waits any more", c.peq(shared(c, c.new, c.args[0]), NULL))]


def is_open(c, st, p):
    return c.u(st, p, "fifo", "is_open") != 0


@contract
class fifo_free(FF):
    name = "fifo_free"

    def setup(self, c, st):
        p, S = mk_fifo(c, st)
        st.regions[p.rid].heap = True
        return [p]

    def effect(self, c):
        f = Fifo(c, c.new, c.args[0])
        c.new.regions[f.buf.data.rid].alive = False
        c.new.regions[f.bp.rid].alive = False
        c.set(c.new, c.args[0], "fifo", "buf", NULL)
        c.new.regions[c.args[0].rid].alive = False

    def post(self, c):
        o = Fifo(c, c.old, c.args[0])
        return [("items freed", c.deadp(c.new, o.buf.data)), ("buffer freed", c.deadp(c.new, o.bp)), ("fifo freed", c.deadp(c.new, c.args[0]))]


class Wait(Untouched):
    """verified where the awaited condition already holds: returns at once, nothing changes"""
    def ready(self, c, f):
        return Or(Not(is_open(c, f.st, f.p)), f.avail > 0)

    def pre2(self, c, f):
        return [("what is waited for holds", self.ready(c, f))]

    @property
    def loops(self):
        return [lambda lp: [("what is waited for holds", self.ready(lp.root, Fifo(lp.root, lp.st, lp.root.args[0])))]]


@contract
class fifo_wait_for_add(Wait):
    name = "fifo_wait_for_add"


@contract
class fifo_wait_for_get(Wait):
    name = "fifo_wait_for_get"

    def ready(self, c, f):
        return f.room > 0


class Wait2(Wait):
    def setup(self, c, st):
        return [mk_fifo(c, st, "f0")[0], mk_fifo(c, st, "f1")[0]]

    def pre2(self, c, f):
        g = Fifo(c, c.old, c.args[1])
        return g.ok("other fifo: ") + [("what is waited for holds", self.ready2(c, c.old))]

    def ready2(self, c, st):
        f, g = Fifo(c, st, c.args[0]), Fifo(c, st, c.args[1])
        a, b = Wait.ready(self, c, f), Wait.ready(self, c, g)
        return Or(a, b)

    @property
    def loops(self):
        return [lambda lp: [("what is waited for holds", self.ready2(lp.root, lp.st))]]


@contract
class fifo_wait_for_add_either(Wait2):
    name = "fifo_wait_for_add_either"


@contract
class fifo_wait_for_add_both(Wait2):
    name = "fifo_wait_for_add_both"

    def ready2(self, c, st):
        f, g = Fifo(c, st, c.args[0]), Fifo(c, st, c.args[1])
        return Or(Not(is_open(c, st, f.p)), Not(is_open(c, st, g.p)), And(f.avail > 0, g.avail > 0))
