"""Contracts for the bit sequence in util/vec.c (a vec of 32-bit words).

Bit j of the sequence is bit j%32 of word j/32.  Representation invariant: data
is a live heap block of at least _alloc words and size <= (_alloc - 1) * 32.
"""
from contract import *
from contract import And, Or, Not, Imp, forall
from vec import Vec, mk_arr, capof, arg_n, fresh_n, replace_data, havoc_contents

FILE = "util/vec.c"
DEPS = ["vec"]
FULL = 2 ** 32

sh = lambda v, o: uf("shl32", INT, INT, INT)(v, o)
bitw = lambda w, p: uf("lshr32", INT, INT, INT)(w, p) % 2
op = lambda n, a, b: uf(n + "32", INT, INT, INT)(a, b)


def word_axioms():
    """what or / and / shift do to single bits of a word (proved by the lemma below)"""
    w, o, p, v, x = z3.Ints("w o p v x")
    r = And(0 <= o, o < 32, 0 <= p, p < 32, 0 <= v, v <= 1, 0 <= w, w < FULL)
    lp = lambda n: uf("lshr32", INT, INT, INT)(op(n, w, x), p)
    A = lambda vs, body, *pats: z3.ForAll(vs, body, patterns=list(pats))
    s = sh(v, o)
    return [
        A([w, o, p, v, x], Imp(And(r, x == s), bitw(op("or", w, x), p) == z3.If(And(p == o, v == 1), I(1), bitw(w, p))), z3.MultiPattern(lp("or"), s)),
        A([w, o, p, v, x], Imp(And(r, x == FULL - 1 - s), bitw(op("and", w, x), p) == z3.If(And(p == o, v == 1), I(0), bitw(w, p))), z3.MultiPattern(lp("and"), s)),
        A([w, o, p, v, x], Imp(And(r, x == s), bitw(op("xor", w, x), p) == z3.If(And(p == o, v == 1), 1 - bitw(w, p), bitw(w, p))), z3.MultiPattern(lp("xor"), s)),
        A([w, o, x], Imp(And(0 <= o, o < 32, 0 <= w, w < FULL, x == sh(I(1), o)), op("and", w, x) == z3.If(bitw(w, o) == 1, x, I(0))), z3.MultiPattern(op("and", w, x), sh(I(1), o))),
        A([p], Imp(And(0 <= p, p < 32), bitw(I(0), p) == 0), uf("lshr32", INT, INT, INT)(I(0), p)),
    ]


@lemma
def bits_of_a_word():
    """the five facts of word_axioms, over machine words"""
    w, o, p, v = z3.BitVecs("w o p v", 32)
    one = z3.BitVecVal(1, 32)
    B = lambda x, k: z3.LShR(x, k) & one
    h = [z3.ULT(o, 32), z3.ULT(p, 32), z3.ULE(v, 1)]
    hit = And(p == o, v == 1)
    return [("or sets exactly that bit", h, B(w | (v << o), p) == z3.If(hit, one, B(w, p))),
            ("and with the complement clears exactly that bit", h, B(w & ~(v << o), p) == z3.If(hit, one - one, B(w, p))),
            ("xor flips exactly that bit", h, B(w ^ (v << o), p) == z3.If(hit, one - B(w, p), B(w, p))),
            ("and with the bit's mask selects it", h, (w & (one << o)) == z3.If(B(w, o) == 1, one << o, one - one)),
            ("zero has no bits", h, B(one - one, p) == 0)]


class Bits(Vec):
    def bit(self, j):
        return bitw(self.at(j / 32), j % 32)

    def okw(self, tag=""):
        """ok, but the size may exceed the words (while growing)"""
        return [(nm, f) if not nm.endswith("to spare") else (nm, self.alloc >= 1) for nm, f in self.ok(tag)]

    def ok(self, tag=""):
        out = [(nm, f) for nm, f in Vec.ok(self, tag) if not nm.endswith("size < capacity")]
        if len(out) < 3:
            return out
        return out + [(tag + "size within the words, one to spare", And(self.alloc >= 1, self.size <= (self.alloc - 1) * 32))]


def mk_bits(c, st, name="bv"):
    n, al = z3.Int(fresh_name(name + "_size")), z3.Int(fresh_name(name + "_alloc"))
    d = mk_arr(c, st, name + "_data", 4, z3.Int(fresh_name(name + "_block")), fields={0: 4})
    r = c.ex.new_region(st, "cell", name, size=c.ex.prog.sizeof("vec"))
    for m, v in (("data", PV(d.rid)), ("size", IV(64, n, u=True)), ("_alloc", IV(64, al, u=True)), ("_elem_size", IV(64, 4))):
        o, sz = c.fo("vec", m)
        r.cells[o] = (sz, v)
    st.assume(And(n >= 0, al >= 1, n <= (al - 1) * 32, al <= d.count))
    return PV(r.rid)


class BC(Contract):
    props = ("C15",)
    lemmas = ("bits_of_a_word",)
    grows = sizes = writes = False

    def setup(self, c, st):
        p = mk_bits(c, st)
        st.assume(*word_axioms())
        return [p] + self.more(c, st, p)

    def more(self, c, st, p):
        return []

    def pre(self, c):
        v = Bits(c, c.old, c.args[0])
        return v.ok("bit sequence: ") + self.pre2(c, v)

    def pre2(self, c, v):
        return []

    def effect(self, c):
        st, p = c.new, c.args[0]
        if self.grows:
            havoc_contents(c, st, p)
            replace_data(c, st, p)
            c.havoc_int(st, p, "vec", "_alloc")
        elif self.writes:
            havoc_contents(c, st, p)
        if self.sizes:
            c.havoc_int(st, p, "vec", "size")
        return self.ret(c)

    def ret(self, c):
        return None

    def post(self, c):
        o, n = Bits(c, c.old, c.args[0]), Bits(c, c.new, c.args[0])
        return n.ok("still valid: ") + self.post2(c, o, n)

    def same(self, o, n, lo, hi, name="other bits unchanged"):
        return (name, forall(lo, hi, lambda j: n.bit(j) == o.bit(j)))


@contract
class bitvec_construct(Contract):
    name = "bitvec_construct"
    props = ("C15",)
    lemmas = ("bits_of_a_word",)

    def setup(self, c, st):
        r = c.ex.new_region(st, "cell", "bv", size=c.ex.prog.sizeof("vec"))
        st.assume(*word_axioms())
        return [PV(r.rid)]

    def effect(self, c):
        st, p = c.new, c.args[0]
        cnt = fint("alloc")
        r = c.ex.new_region(st, "arr", "bits", stride=4, count=cnt, heap=True)
        st.assume(And(cnt >= 1, cnt <= capof(4)))
        r.fields[0] = (4, "int", Base("bits"))
        c.set(st, p, "vec", "data", PV(r.rid))
        c.set(st, p, "vec", "size", IV(64, 0))
        c.set(st, p, "vec", "_alloc", IV(64, cnt, u=True))
        c.set(st, p, "vec", "_elem_size", IV(64, 4))
        return p

    def post(self, c):
        n = Bits(c, c.new, c.args[0])
        return n.ok("constructed: ") + [("no bits", n.size == 0), ("returns self", c.peq(c.ret, c.args[0])),
                                        ("the space reads as zero", forall(0, n.alloc * 32, lambda j: n.bit(j) == 0))]


@contract
class bitvec_destroy(BC):
    name = "bitvec_destroy"

    def effect(self, c):
        d = c.get(c.new, c.args[0], "vec", "data")
        c.new.regions[d.rid].alive = False
        c.set(c.new, c.args[0], "vec", "data", NULL)

    def post(self, c):
        o = Bits(c, c.old, c.args[0])
        return [("block freed", c.deadp(c.new, o.data)), ("data NULL", c.peq(c.get(c.new, c.args[0], "vec", "data"), NULL))]


@contract
class bitvec_at(BC):
    name = "bitvec_at"

    def more(self, c, st, p):
        return [fresh_n(c, st, "idx")]

    def pre2(self, c, v):
        return [("index within the words", arg_n(c, 1) < v.alloc * 32)]

    def ret(self, c):
        return z3.Bool(fresh_name("bit"))

    def post2(self, c, o, n):
        return [("the bit at that index", c.ret == (o.bit(arg_n(c, 1)) == 1))]


@contract
class bitvec_set(BC):
    name = "bitvec_set"
    writes = True

    def more(self, c, st, p):
        return [fresh_n(c, st, "idx"), z3.Bool(fresh_name("newval"))]

    def pre2(self, c, v):
        return [("index within the words", arg_n(c, 1) < v.alloc * 32)]

    def post2(self, c, o, n):
        i = arg_n(c, 1)
        return [("that bit reads back as set", n.bit(i) == z3.If(c.args[2], I(1), I(0))),
                ("every other bit unchanged", forall(0, o.alloc * 32, lambda j: Imp(j != i, n.bit(j) == o.bit(j))))]


@contract
class bitvec_reserve(BC):
    name = "bitvec_reserve"
    grows = True

    def pre(self, c):
        v = Bits(c, c.old, c.args[0])
        return v.okw("bit sequence: ") + self.pre2(c, v)

    def post(self, c):
        o, n = Bits(c, c.old, c.args[0]), Bits(c, c.new, c.args[0])
        return n.okw("still valid: ") + self.post2(c, o, n)

    def more(self, c, st, p):
        return [fresh_n(c, st, "size")]

    def pre2(self, c, v):
        return [("size representable", arg_n(c, 1) < 2 ** 50)]

    def post2(self, c, o, n):
        return [("room", (n.alloc - 1) * 32 >= arg_n(c, 1)), ("never shrinks", n.alloc >= o.alloc),
                ("words kept", forall(0, o.alloc, lambda i: n.at(i) == o.at(i))),
                self.same(o, n, 0, o.alloc * 32)]


@contract
class bitvec_resize(BC):
    name = "bitvec_resize"
    grows = sizes = True

    def more(self, c, st, p):
        return [fresh_n(c, st, "size")]

    def pre2(self, c, v):
        return [("size representable", arg_n(c, 1) < 2 ** 50)]

    def post2(self, c, o, n):
        m = arg_n(c, 1)
        return [("size is as asked", n.size == m),
                self.same(o, n, 0, z3.If(m < o.size, m, o.size), "remaining bits kept"),
                ("new bits read as zero", forall(o.size, m, lambda j: n.bit(j) == 0))]

    @property
    def loops(self):
        def inv(lp):
            c = lp.root
            o, n = Bits(c, c.old, c.args[0]), Bits(c, lp.st, c.args[0])
            m = arg_n(c, 1)
            i = lp.u("i")
            top = z3.If(m < o.size, m, o.size)
            return n.ok("still valid: ") + [("size is as asked", n.size == m), ("position", And(i >= o.size, Or(i <= m, i == o.size))),
                                            ("remaining bits kept", forall(0, top, lambda j: n.bit(j) == o.bit(j))),
                                            ("bits so far zero", forall(o.size, i, lambda j: n.bit(j) == 0)),
                                            ("variant", z3.If(i < m, m - i, I(0)))]
        return [inv]


@contract
class bitvec_push_back(BC):
    name = "bitvec_push_back"
    grows = sizes = True

    def more(self, c, st, p):
        return [z3.Bool(fresh_name("val"))]

    def pre2(self, c, v):
        return [("size representable", v.size < 2 ** 48)]

    def post2(self, c, o, n):
        return [("one bit more", n.size == o.size + 1), ("it reads as pushed", n.bit(o.size) == z3.If(c.args[1], I(1), I(0))),
                self.same(o, n, 0, o.size, "earlier bits unchanged")]
