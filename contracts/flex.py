"""Contracts for util/flex.c: the packed store.

Representation invariant: two valid vecs, _raw of bytes and _pairs of (idx, len);
the bytes of every non-empty item lie inside _raw's sequence, no two overlap, and
an empty item's idx lies inside _raw's capacity.
Abstract value: the sequence of items, item i = bytes _raw[idx_i .. idx_i+len_i).
"""
from contract import *
from contract import And, Or, Not, Imp, forall
from vec import Vec, Buf, mk_arr, fits, arg_n, fresh_n, replace_data, havoc_contents
from strs import mk_bytes, Txt
import builtins_c
import sx

FILE = ["util/flex.c", "util/vec.c"]
DEPS = ["vec"]


class Flex:
    def __init__(self, c, st, p):
        self.c, self.st, self.p = c, st, p
        o = p.off.const()
        self.rp = PV(p.rid, p.off + Off(c.fo("flex", "_raw")[0]))
        self.pp = PV(p.rid, p.off + Off(c.fo("flex", "_pairs")[0]))
        self.raw, self.pairs = Vec(c, st, self.rp), Vec(c, st, self.pp)
        self.n = self.pairs.size
        self.oi, self.ol = c.fo("_pair", "idx")[0], c.fo("_pair", "len")[0]

    def idx(self, i):
        return self.pairs.at(i, self.oi)

    def len(self, i):
        return self.pairs.at(i, self.ol)

    def byte(self, k):
        return self.raw.at(k)

    def vecs(self, tag=""):
        return self.raw.ok(tag + "bytes: ") + self.pairs.ok(tag + "items: ")

    def item_ok(self, i):
        I_, n = self.idx(i), self.len(i)
        return And(I_ >= 0, n >= 0, n < 2 ** 32, I_ < self.raw.alloc, Imp(n > 0, I_ + n <= self.raw.size))

    def ok(self, tag="", upto=None):
        m = self.n if upto is None else upto
        v = self.vecs(tag)
        if any(z3.is_false(f) for _, f in v):
            return v
        def apart(i, j):
            return Or(self.len(i) == 0, self.len(j) == 0, self.idx(i) + self.len(i) <= self.idx(j), self.idx(j) + self.len(j) <= self.idx(i))
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        return v + [(tag + "every item inside the bytes", forall(0, m, self.item_ok, pats=lambda i: self.idx(i))),
                    (tag + "no two items overlap", forall_m([i, j], Imp(And(0 <= i, i < j, j < m), apart(i, j)), self.idx(i), self.idx(j)))]


def mk_flex(c, st, name="f"):
    r = c.ex.new_region(st, "cell", name, size=c.ex.prog.sizeof("flex"))
    sp = c.ex.prog.sizeof("_pair")
    (oi, ni), (ol, nl) = c.fo("_pair", "idx"), c.fo("_pair", "len")
    for m, S, fields in (("_raw", 1, {0: 1}), ("_pairs", sp, {oi: ni, ol: nl})):
        b = c.fo("flex", m)[0]
        n, al = z3.Int(fresh_name(name + m + "_size")), z3.Int(fresh_name(name + m + "_alloc"))
        d = c.ex.new_region(st, "arr", name + m, stride=S, count=z3.Int(fresh_name(name + m + "_block")), heap=True)
        st.assume(And(d.count >= 0, d.count <= 2 ** 47 // S))
        for o, w in fields.items():
            d.fields[o] = (w, "int", Base("%s%s_f%d" % (name, m, o)))
        for mm, v in (("data", PV(d.rid)), ("size", IV(64, n, u=True)), ("_alloc", IV(64, al, u=True)), ("_elem_size", IV(64, S))):
            o, sz = c.fo("vec", mm)
            r.cells[b + o] = (sz, v)
        st.assume(And(n >= 0, n < al, al <= d.count))
        if S == 1:
            st.assume(forall(0, d.count, lambda i: And(d.fields[0][2].get(i) >= 0, d.fields[0][2].get(i) < 256), pats=lambda i: d.fields[0][2].get(i)))
    p = PV(r.rid)
    st.assume(*[f for _, f in Flex(c, st, p).ok()])
    return p


class FC(Contract):
    props = ("C13",)
    raw = pairs = False     # which vec may change: False / "size" / "write" / "grow"

    def setup(self, c, st):
        p = mk_flex(c, st)
        return [p] + self.more(c, st, p)

    def more(self, c, st, p):
        return []

    def pre(self, c):
        f = Flex(c, c.old, c.args[0])
        return f.ok("store: ") + self.pre2(c, f)

    def pre2(self, c, f):
        return []

    def effect(self, c):
        st, p = c.new, c.args[0]
        for v, how in ((Flex(c, st, p).rp, self.raw), (Flex(c, st, p).pp, self.pairs)):
            if how == "grow":
                havoc_contents(c, st, v)
                r = replace_data(c, st, v)
                c.havoc_int(st, v, "vec", "_alloc")
            elif how == "write":
                havoc_contents(c, st, v)
            if how:
                c.havoc_int(st, v, "vec", "size")
        return self.ret(c)

    def ret(self, c):
        return None

    def post(self, c):
        o, n = Flex(c, c.old, c.args[0]), Flex(c, c.new, c.args[0])
        v = n.ok("still valid: ")
        if any(z3.is_false(f) for _, f in v):
            return v
        return v + [x for x in self.post2(c, o, n) if x]

    def items(self, c, o, n, lo, hi, d=0, name="items keep their bytes and lengths"):
        """items lo..hi of n are items lo-d..hi-d of o"""
        i, b = z3.Int(fresh_name("i")), z3.Int(fresh_name("b"))
        return [(name + ": length", forall(lo, hi, lambda k: n.len(k) == o.len(k - d))),
                (name + ": place", forall(lo, hi, lambda k: n.idx(k) == o.idx(k - d))),
                (name + ": bytes", forall_m([i, b], Imp(And(lo <= i, i < hi, 0 <= b, b < n.len(i)), n.byte(n.idx(i) + b) == o.byte(o.idx(i - d) + b)),
                                          n.idx(i), n.byte(n.idx(i) + b)))]

    def kept(self, o, n, hi):
        return ("bytes in place", forall(0, hi, lambda k: n.byte(k) == o.byte(k)))


@contract
class flex_construct(Contract):
    name = "flex_construct"
    props = ("C13",)

    def setup(self, c, st):
        return [PV(c.ex.new_region(st, "cell", "f", size=c.ex.prog.sizeof("flex")).rid)]

    def effect(self, c):
        st, p = c.new, c.args[0]
        (oi, ni), (ol, nl) = c.fo("_pair", "idx"), c.fo("_pair", "len")
        for m, S, fields in (("_raw", 1, {0: 1}), ("_pairs", c.ex.prog.sizeof("_pair"), {oi: ni, ol: nl})):
            v = PV(p.rid, p.off + Off(c.fo("flex", m)[0]))
            cnt = fint("alloc")
            r = c.ex.new_region(st, "arr", m, stride=S, count=cnt, heap=True)
            st.assume(And(cnt >= 1, cnt <= 2 ** 47 // S))
            for o, w in fields.items():
                r.fields[o] = (w, "int", Base(m))
            c.set(st, v, "vec", "data", PV(r.rid))
            c.set(st, v, "vec", "size", IV(64, 0))
            c.set(st, v, "vec", "_alloc", IV(64, cnt, u=True))
            c.set(st, v, "vec", "_elem_size", IV(64, S))
        return p

    def post(self, c):
        f = Flex(c, c.new, c.args[0])
        return f.vecs("constructed: ") + [("no items", f.n == 0), ("no bytes", f.raw.size == 0), ("returns self", c.peq(c.ret, c.args[0]))]


@contract
class flex_destroy(FC):
    name = "flex_destroy"

    def effect(self, c):
        f = Flex(c, c.new, c.args[0])
        for v, p in ((f.raw, f.rp), (f.pairs, f.pp)):
            c.new.regions[v.data.rid].alive = False
            c.set(c.new, p, "vec", "data", NULL)

    def post(self, c):
        o = Flex(c, c.old, c.args[0])
        return [("bytes freed", c.deadp(c.new, o.raw.data)), ("items freed", c.deadp(c.new, o.pairs.data)),
                ("bytes NULL", c.peq(c.get(c.new, o.rp, "vec", "data"), NULL)), ("items NULL", c.peq(c.get(c.new, o.pp, "vec", "data"), NULL))]


@contract
class flex_empty(FC):
    name = "flex_empty"

    def ret(self, c):
        return z3.Bool(fresh_name("empty"))

    def post2(self, c, o, n):
        return [("true iff no items", c.ret == (o.n == 0))]


@contract
class flex_size(FC):
    name = "flex_size"

    def ret(self, c):
        return fresh_n(c, c.new, "n")

    def post2(self, c, o, n):
        return [("number of items", c.ex.U(c.new, c.ret) == o.n)]


class At(FC):
    def more(self, c, st, p):
        return [fresh_n(c, st, "idx")]

    def pre2(self, c, f):
        return [("index of an item", arg_n(c, 1) < f.n)]


@contract
class flex_at(At):
    name = "flex_at"

    def ret(self, c):
        f = Flex(c, c.new, c.args[0])
        return f.raw.ptr(f.idx(arg_n(c, 1)))

    def post2(self, c, o, n):
        return [("address of the item's bytes", c.peq(c.ret, o.raw.ptr(o.idx(arg_n(c, 1)))))]


@contract
class flex_pair_at(At):
    name = "flex_pair_at"

    def ret(self, c):
        f = Flex(c, c.new, c.args[0])
        return Agg([f.raw.ptr(f.idx(arg_n(c, 1))), IV(32, f.len(arg_n(c, 1)), u=True)])

    def post2(self, c, o, n):
        if not isinstance(c.ret, Agg):
            return [("returns a view", z3.BoolVal(False))]
        d, l = c.ret.v
        return [("view of the item's bytes", c.peq(d, o.raw.ptr(o.idx(arg_n(c, 1))))), ("view of the item's length", c.ex.U(c.new, l) == o.len(arg_n(c, 1)))]


@contract
class flex_reserve(FC):
    name = "flex_reserve"
    raw = pairs = "grow"

    def more(self, c, st, p):
        return [fresh_n(c, st, "n")]

    def pre2(self, c, f):
        m = arg_n(c, 1)
        return [("representable", And(fits(f.raw.stride(), m), fits(f.pairs.stride(), m)))]

    def post2(self, c, o, n):
        return [("same number of items", n.n == o.n), ("raw size", n.raw.size == o.raw.size), ("room", And(n.raw.alloc > arg_n(c, 1), n.pairs.alloc > arg_n(c, 1)))] + self.items(c, o, n, I(0), o.n)


class Push(FC):
    raw = pairs = "grow"

    def data(self, c):
        """(length, byte function) of the new item"""
        raise NotImplementedError

    def at_idx(self, c, o):
        return o.n

    def post2(self, c, o, n):
        L, b = self.data(c)
        i = self.at_idx(c, o)
        if isinstance(b, tuple):
            given = forall(0, I(b[0]), lambda j: n.byte(n.idx(i) + j) == sx.byte(b[1], j))
        else:
            given = forall(0, L, lambda j: n.byte(n.idx(i) + j) == b(j))
        return [("one item more", n.n == o.n + 1), ("the item has the given length", n.len(i) == L),
                ("the item has the given bytes", given),
                ("it ends the bytes", And(n.idx(i) == o.raw.size, n.raw.size == o.raw.size + L)), self.kept(o, n, o.raw.size)] \
            + self.items(c, o, n, I(0), i, 0, "items before keep their bytes and lengths") \
            + (self.items(c, o, n, i + 1, o.n + 1, 1, "items after keep their bytes and lengths") if i is not o.n else [])


class PushData(Push):
    k = 1

    def more(self, c, st, p):
        r, a = mk_bytes(c, st, "item")
        return [PV(r.rid), c.ex.fresh_iv(st, 32, "len")]

    def pre2(self, c, f):
        L = c.ex.U(c.old, c.args[self.k + 1])
        p = c.args[self.k]
        out = [("representable", And(fits(f.raw.stride(), f.raw.size + L), fits(f.pairs.stride(), f.n + 1)))]
        if isinstance(p, PV) and (p.rid is None or p.rid == "opq"):
            return out + [("source readable", L == 0)]
        b = Buf(c, c.old, p)
        return out + [("source long enough", Or(L == 0, And(b.k >= 0, b.k + L <= b.r.count)) if not b.cell else L == b.r.size - b.c0),
                      ("source is another block", z3.BoolVal(b.r.rid not in (f.raw.r.rid, f.pairs.r.rid)))]

    def data(self, c):
        L = c.ex.U(c.old, c.args[self.k + 1])
        p = c.args[self.k]
        if isinstance(p, PV) and (p.rid is None or p.rid == "opq"):
            return L, lambda j: I(0)
        b = Buf(c, c.old, p)
        if b.cell:      # the bytes of one number kept in a variable
            cell = b.r.cells.get(b.c0)
            if cell is None or cell[0] not in (4, 8) or isinstance(cell[1], PV):
                raise Unsupported("item bytes of a typed object")
            sz, v = cell
            if isinstance(v, FV):
                x = uf("f2bits", FS, z3.IntSort())(v.t)
                c.new.assume(And(x >= 0, x < 2 ** 64, uf("bits2f", z3.IntSort(), FS)(x) == v.t))
            else:
                x = c.ex.U(c.new, v)
            return L, (sz, x)
        return L, lambda j: b.at(j)


@contract
class flex_push_back(PushData):
    name = "flex_push_back"


@contract
class flex_insert(PushData):
    name = "flex_insert"
    k = 2

    def more(self, c, st, p):
        r, a = mk_bytes(c, st, "item")
        return [fresh_n(c, st, "idx"), PV(r.rid), c.ex.fresh_iv(st, 32, "len")]

    def pre2(self, c, f):
        return [("position inside the sequence", arg_n(c, 1) <= f.n)] + PushData.pre2(self, c, f)

    def at_idx(self, c, o):
        return arg_n(c, 1)


class PushNum(Push):
    def pre2(self, c, f):
        return [("representable", And(fits(f.raw.stride(), f.raw.size + 2 ** 31), fits(f.pairs.stride(), f.n + 1)))]

    def data(self, c):
        x = c.args[1]
        key = ("fmt", self.fmt, (builtins_c.fmt_arg(c.ex, c.new, x),))
        if c.mode == "call" and key not in c.new.ghost:
            L = fint("fmtlen")
            c.new.assume(And(L >= 0, L < 2 ** 31))
            c.new.ghost[key] = (L, Base("fmttxt"))
        L, t = c.new.ghost.get(key, (None, None))
        if L is None:
            return I(-1), lambda j: I(0)
        return L, lambda j: t.get(j)


@contract
class flex_push_back_str_int(PushNum):
    name = "flex_push_back_str_int"
    fmt = "%ld"

    def more(self, c, st, p):
        return [c.ex.fresh_iv(st, 64, "num", True)]


@contract
class flex_push_back_str_float(PushNum):
    name = "flex_push_back_str_float"
    fmt = "%f"

    def more(self, c, st, p):
        return [FV(z3.Const(fresh_name("num"), FS))]


@contract
class flex_pop_back(FC):
    name = "flex_pop_back"
    raw = pairs = "size"

    def pre2(self, c, f):
        return [("not empty", f.n > 0)]

    def post2(self, c, o, n):
        return [("one item fewer", n.n == o.n - 1), ("bytes never grow", n.raw.size <= o.raw.size)] + self.items(c, o, n, I(0), o.n - 1)


@contract
class flex_resize(FC):
    name = "flex_resize"
    raw = pairs = "grow"

    def more(self, c, st, p):
        return [fresh_n(c, st, "n")]

    def pre2(self, c, f):
        m = arg_n(c, 1)
        return [("representable", And(fits(f.raw.stride(), f.raw.size), fits(f.pairs.stride(), m + 1)))]

    def post2(self, c, o, n):
        m = arg_n(c, 1)
        return [("size is n", n.n == m)] + self.items(c, o, n, I(0), z3.If(m < o.n, m, o.n), 0, "remaining items keep their bytes and lengths") \
            + [("new items are empty", forall(o.n, m, lambda i: n.len(i) == 0))]

    @property
    def loops(self):
        def common(lp):
            c = lp.root
            o, n = Flex(c, c.old, c.args[0]), Flex(c, lp.st, c.args[0])
            m = arg_n(c, 1)
            top = z3.If(m < o.n, m, o.n)
            return o, n, m, top, n.ok("still valid: ") + self.items(c, o, n, I(0), top)

        def grow(lp):
            o, n, m, top, out = common(lp)
            e = Flex(lp.root, lp.entry, lp.root.args[0]).n
            return out + [("raw size", n.raw.size <= o.raw.size), ("between", And(n.n >= e, n.n <= z3.If(m < e, e, m))), ("new items are empty", forall(o.n, n.n, lambda i: n.len(i) == 0)),
                          ("variant", z3.If(n.n < m, m - n.n, I(0)))]

        def shrink(lp):
            o, n, m, top, out = common(lp)
            e = Flex(lp.root, lp.entry, lp.root.args[0]).n
            return out + [("raw size", n.raw.size <= o.raw.size), ("between", And(n.n <= e, n.n >= z3.If(m < e, m, e))), ("new items are empty", forall(o.n, n.n, lambda i: n.len(i) == 0)), ("variant", n.n)]
        return [grow, shrink]


@contract
class flex_clear(FC):
    name = "flex_clear"
    raw = pairs = "size"

    def post2(self, c, o, n):
        return [("no items", n.n == 0)]


@contract
class flex_shrink_to_fit(FC):
    name = "flex_shrink_to_fit"
    pairs = "grow"

    def post2(self, c, o, n):
        return [("same number of items", n.n == o.n)] + self.items(c, o, n, I(0), o.n)


@contract
class flex_remove(FC):
    name = "flex_remove"
    pairs = "write"

    def more(self, c, st, p):
        return [fresh_n(c, st, "idx")]

    def pre2(self, c, f):
        return [("index of an item", arg_n(c, 1) < f.n)]

    def post2(self, c, o, n):
        i = arg_n(c, 1)
        return [("one item fewer", n.n == o.n - 1)] + self.items(c, o, n, I(0), i, 0, "items before keep their bytes and lengths") \
            + self.items(c, o, n, i, o.n - 1, -1, "items after keep their bytes and lengths")
