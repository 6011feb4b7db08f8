"""Contracts for the composite-key map of util/hashmap.c (GROUP BY, DISTINCT).

A composite key is a sequence of byte sequences.  Each stored component has a place
(start, length) in the key buffer; the places of all keys lie one after the other in the
vector _keys, and a table entry names the run of places that make up its key.

Abstract values: BV(bytes, start, length) identifies a byte sequence (two are equal exactly
when the sequences are: `seqeq`), CV(starts, lengths, bytes, first, n) a sequence of them,
built with the free constructor CONS from NIL.  The hash of a key is a function of that value.
"""
import z3
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import vec as V
import hashmap as H
from hashmap import all1, all2, SEQEQ, Hb, inpath, home, MODES

FILE = H.FILE
DEPS = ["hashmap"]

INTS = z3.IntSort()
BV = uf("BV", IA, INTS, INTS, INTS)
HV = uf("HV", INTS, INTS)
CV = uf("CV", IA, IA, IA, INTS, INTS, INTS)
CONS = uf("CONS", INTS, INTS, INTS)
CAR, CDR = uf("CAR", INTS, INTS), uf("CDR", INTS, INTS)
CLEN = uf("CLEN", INTS, INTS)
HC = uf("HC", INTS, INTS)
NIL = z3.Int("NIL")
SUM = uf("SUMLEN", IA, INTS, INTS)
TLA = uf("TRIMLENS", IA, IA, IA, IA)
sel = z3.Select
LOCSZ = 16


def cons_axioms():
    c, b = z3.Ints("cx_c cx_b")
    x = CONS(c, b)
    return [z3.ForAll([c, b], And(CDR(x) == c, CAR(x) == b, CLEN(x) == CLEN(c) + 1,
                                  HC(x) == bitop("wmul", 64, HC(c), bitop("wmul", 64, CLEN(c) + 1, HV(b)))), patterns=[x]),
            CLEN(NIL) == 0, HC(NIL) == 1]


def bv_axioms():
    a, b = z3.Const("ax_a", IA), z3.Const("ax_b", IA)
    o, n, p, m = z3.Ints("ax_o ax_n ax_p ax_m")
    E = SEQEQ(a, o, n, b, p, m)
    return [z3.ForAll([a, o, n, b, p, m], Imp(And(n >= 0, m >= 0), E == (BV(a, o, n) == BV(b, p, m))), patterns=[E]),
            z3.ForAll([a, o, n], Imp(n >= 0, Hb(a, o, n) == HV(BV(a, o, n))), patterns=[BV(a, o, n)])]


def cv_unfold(x, k):
    """definition of CV at one point; x = (starts, lengths, bytes, first)"""
    I_, L_, B_, o = x
    return [CV(I_, L_, B_, o, I(0)) == NIL,
            Imp(k >= 0, CV(I_, L_, B_, o, k + 1) == CONS(CV(I_, L_, B_, o, k), BV(B_, sel(I_, o + k), sel(L_, o + k))))]


def part(x, i):
    I_, L_, B_, o = x
    return BV(B_, sel(I_, o + i), sel(L_, o + i))


def cv(x, n):
    return CV(x[0], x[1], x[2], x[3], n)


def two():
    cs = [z3.Const("cv_" + s, IA) for s in "ILBJMC"]
    o, p = z3.Ints("cv_o cv_p")
    return (cs[0], cs[1], cs[2], o), (cs[3], cs[4], cs[5], p)


@lemma
def composite_values():
    """equal composite values have equal parts, and conversely; the value determines the number of parts"""
    x, y = two()
    n, i = z3.Ints("n i")
    d = cons_axioms() + cv_unfold(x, n) + cv_unfold(y, n)
    P = lambda n: Imp(cv(x, n) == cv(y, n), part(x, i) == part(y, i))
    Q = lambda n: Imp(forall(0, n, lambda j: part(x, j) == part(y, j)), cv(x, n) == cv(y, n))
    return [("parts of equal values, step", d + [n >= 0, i >= 0, i < n + 1, Imp(i < n, P(n))], P(n + 1)),
            ("equal parts, base", d, Q(I(0))),
            ("equal parts, step", d + [n >= 0, Q(n)], Q(n + 1)),
            ("number of parts, base", d, CLEN(cv(x, I(0))) == 0),
            ("number of parts, step", d + [n >= 0, CLEN(cv(x, n)) == n], CLEN(cv(x, n + 1)) == n + 1)]


def ext_lemma(x, y, n):
    """the lemma's second part, at one pair"""
    w = fint("part")
    return Or(cv(x, n) == cv(y, n), And(w >= 0, w < n, part(x, w) != part(y, w)), n < 0)


def part_lemma(x, y, n, i):
    return Imp(And(cv(x, n) == cv(y, n), i >= 0, i < n), part(x, i) == part(y, i))


def len_axiom():
    x, _ = two()
    n = z3.Int("cv_n")
    return z3.ForAll([x[0], x[1], x[2], x[3], n], Imp(n >= 0, CLEN(cv(x, n)) == n), patterns=[cv(x, n)])


def ext_axioms():
    """the lemma's second part, for places at the same position and for a key that starts at 0"""
    x, y = two()
    n = z3.Int("cv_n")
    W = uf("kswit", IA, IA, IA, INTS, IA, IA, IA, INTS, INTS, INTS)
    r = []
    for p in (x[3], I(0)):
        y2 = y[:3] + (p,)
        w = W(*(x + y2 + (n,)))
        a, b = cv(x, n), cv(y2, n)
        r.append(z3.ForAll(list(x) + list(y[:3]) + [n], Or(a == b, And(w >= 0, w < n, part(x, w) != part(y2, w)), n < 0), patterns=[z3.MultiPattern(a, b)]))
    return r


def zarr(st, f):
    hy = []
    a = f.z3(hy)
    for h in hy:
        if not any(h is q for q in st.hyps):
            st.hyps.append(h)
    return a


class Locs:
    """a vec of key places"""
    def __init__(self, c, st, p):
        self.v = V.Vec(c, st, p)
        self.p, self.size = p, self.v.size
        g = H.builtins_c.getfield
        r = self.v.r
        self.IX = g(c.ex, r, 0, 8, "int")[2]
        self.LN = g(c.ex, r, 8, 4, "int")[2]
        self.st = st

    def arrs(self):
        return zarr(self.st, self.IX), zarr(self.st, self.LN)

    def below(self, hi, n=None, lo=0):
        return all1(0, self.size if n is None else n, lambda j: And(self.IX.get(j) >= lo, self.LN.get(j) >= 0, self.LN.get(j) < 2 ** 32, self.IX.get(j) + self.LN.get(j) <= hi),
                    lambda j: [self.IX.get(j), self.LN.get(j)])


class CM(H.HM):
    def __init__(self, c, st, p):
        H.HM.__init__(self, c, st, p, False)
        self.keys = Locs(c, st, c.get(st, p, "hashmap", "_keys"))
        t = c.get(st, p, "hashmap", "_key_temp")
        self.tempp = t
        self.temp = Locs(c, st, t) if isinstance(t, PV) and t.rid is not None else None

    def run(self, s):
        """the places of the key in slot s"""
        KI = self.t.KI.get(s)
        return self.keys.arrs() + (self.buf(), KI)

    def sv(self, s):
        """value of the key in slot s"""
        return cv(self.run(s), self.t.KL.get(s))

    def kv(self, v):
        """value of the key with id v"""
        return self.sv(self.t.S.get(v))

    def argtemp(self):
        return self.temp.arrs() + (self.buf(), I(0))

    def tab(self, full=False):
        t, L, n = self.t, self.L, self.n
        vp = lambda s: [t.V.get(s), t.KI.get(s)]
        return [
            ("table: live slots carry their own id", all1(0, L, lambda s: Imp(t.live(s), And(t.G.get(s) >= 0, t.G.get(s) < n, t.S.get(t.G.get(s)) == s)), vp)),
            ("table: every id has its slot", all1(0, n, lambda v: And(t.S.get(v) >= 0, t.S.get(v) < L, t.live(t.S.get(v)), t.G.get(t.S.get(v)) == v), lambda v: [t.S.get(v)])),
            ("table: the parts of every key are listed", all1(0, L, lambda s: Imp(t.live(s), And(t.KI.get(s) >= 0, t.KL.get(s) >= 0, t.KI.get(s) + t.KL.get(s) <= self.keys.size)), vp)),
            ("table: stored hash is the hash of the stored key", all1(0, L, lambda s: Imp(t.live(s), t.H.get(s) == HC(self.sv(s))), vp)),
            ("table: probe paths have no holes", all2(0, L, lambda s, u: Imp(And(t.live(s), inpath(home(t.H.get(s), L), u, s)), t.live(u)),
                                                      lambda s, u: [z3.MultiPattern(t.V.get(s), t.V.get(u))])),
            ("table: keys are distinct", all2(0, L, lambda s, u: Imp(And(t.live(s), t.live(u), s != u), self.sv(s) != self.sv(u)),
                                              lambda s, u: [z3.MultiPattern(t.V.get(s), t.V.get(u))])),
            ("free slot left", n <= L if full else n < L),
        ]

    def wf(self, full=False):
        r = self.mem()
        if self.t is None or self.br is None:
            return r
        r += self.tab(full) + self.vals.ok("values: ") + self.keys.v.ok("key parts: ")
        r.append(("every key part lies in the used part of the key buffer", self.keys.below(self.head)))
        if self.temp is not None:
            r += self.temp.v.ok("key being looked up: ")
        return r


def mk_cm(c, st, mode, temp):
    p = H.mk_map(c, st, False, mode)
    k, _ = V.mk_vec(c, st, "keys", S=LOCSZ, fields={0: 8, 8: 4}, heap=True)
    t = V.mk_vec(c, st, "temp", S=LOCSZ, fields={0: 8, 8: 4}, heap=True)[0] if temp else NULL
    c.set(st, p, "hashmap", "_keys", k)
    c.set(st, p, "hashmap", "_key_temp", t)
    st.assume(*bv_axioms())
    st.assume(*cons_axioms())
    st.assume(len_axiom())
    st.assume(*ext_axioms())
    return p


class Arg:
    """the key argument: a vec of views of text"""
    def __init__(self, c, st, p, mode):
        self.v = V.Vec(c, st, p)
        self.n = self.v.size
        r = self.v.r
        self.F, self.LF = r.fields[0], r.fields[8]
        self.text = c.old.regions[self.F[1][1]]
        tf = H.builtins_c.getfield(c.ex, self.text, 0, 1, "int")[2]
        self.A, self.L = zarr(st, self.F[2]), zarr(st, self.LF[2])
        self.tf, self.mode = tf, mode
        self.T = H.canonarr(mode, tf.a)
        self.TL = TLA(tf.a, self.A, self.L) if "rtrim" in mode else self.L
        self.x = (self.A, self.TL, self.T, I(0))

    def axioms(self):
        i = z3.Int("tl_i")
        r = [SUM(self.TL, I(0)) == 0, z3.ForAll([i], Imp(i >= 0, SUM(self.TL, i + 1) == SUM(self.TL, i) + sel(self.TL, i)), patterns=[SUM(self.TL, i + 1)])]
        if "rtrim" in self.mode:
            r.append(z3.ForAll([i], sel(self.TL, i) == H.trimlen(self.mode, self.tf, sel(self.A, i), sel(self.L, i)), patterns=[sel(self.TL, i)]))
        return r

    def unsum(self, k):
        """the definition of the sum at one point"""
        return Imp(k >= 0, SUM(self.TL, k + 1) == SUM(self.TL, k) + sel(self.TL, k))

    def ok(self):
        A, L = self.F[2], self.LF[2]
        return self.v.ok("key: ") + [
            ("key: fewer than 2^32 parts", self.n < 2 ** 32),
            ("key: parts readable", all1(0, self.n, lambda i: And(L.get(i) >= 0, L.get(i) < 2 ** 32, Or(L.get(i) == 0, And(A.get(i) >= 0, A.get(i) + L.get(i) <= self.text.count))), lambda i: [A.get(i), L.get(i)])),
            ("key: less than 4 GB", all1(0, self.n + 1, lambda i: And(SUM(self.TL, i) >= 0, SUM(self.TL, i) < 2 ** 32), lambda i: [SUM(self.TL, i)]))]

    def val(self):
        return cv(self.x, self.n)


def mk_arg(c, st):
    cnt = fint("text_cap")
    st.assume(And(cnt >= 0, cnt <= 2 ** 47))
    t = c.ex.new_region(st, "arr", "text", stride=1, count=cnt, ro=True)
    t.fields[0] = (1, "int", Base("text"))
    b = t.fields[0][2]
    i = z3.Int(fresh_name("i"))
    st.assume(z3.ForAll([i], And(b.get(i) >= 0, b.get(i) < 256), patterns=[b.get(i)]))
    k, _ = V.mk_vec(c, st, "key", S=c.ex.prog.sizeof("stringview"), fields={8: 4}, ro=True)
    d = c.get(st, k, "vec", "data")
    r = st.regions[d.rid]
    r.ro = True
    r.fields[0] = (8, ("ptr", t.rid), Base("key_data"))
    return k


def keymode(c, st):
    return H.mode_of(c.get(st, c.args[0], "hashmap", "get_hash__"))


class Comp(Contract):
    props = ("C05",)
    lemmas = ("composite_values", "hash_depends_on_bytes_only", "pigeonhole")

    def hm(self, c, st):
        return CM(c, st, c.args[0])

    def lv(self, lp):
        return Ctx(lp.ex, self, lp.root.old, lp.st, lp.args, "loop")


def stable(o, m, hd):
    """byte sequences below hd keep their value"""
    A, B = o.buf(), m.buf()
    p, n = z3.Ints("sb_p sb_n")
    return [("bytes of the stored keys kept", forall(0, hd, lambda j: m.bufA.get(j) == o.bufA.get(j))),
            ("stored keys keep their value", z3.ForAll([p, n], Imp(And(p >= 0, n >= 0, p + n <= hd), BV(B, p, n) == BV(A, p, n)), patterns=[BV(B, p, n), BV(A, p, n)]))]


def keys_stable(o, m):
    """every run of listed parts keeps its value, the list being the same"""
    oa, ma = o.keys.arrs() + (o.buf(),), m.keys.arrs() + (m.buf(),)
    p, n = z3.Ints("ks_p ks_n")
    a, b = cv(ma + (p,), n), cv(oa + (p,), n)
    return ("every listed key keeps its value", z3.ForAll([p, n], Imp(And(p >= 0, n >= 0, p + n <= o.keys.size), a == b), patterns=[a, b]))


# ------------------------------------------------------------------ comparing
@contract
class _composite_eq(Comp):
    """whether the entry's key is the key being looked up"""
    name = "_composite_eq"
    cases = [("", {"mode": "exact"})]

    def setup(self, c, st):
        p = mk_cm(c, st, "exact", True)
        e = c.get(st, p, "hashmap", "_entries")
        k = fint("slot")
        st.assume(And(k >= 0, k < st.regions[e.rid].count))
        return [p, PV(e.rid, Off(0, {st.regions[e.rid].stride: k}))]

    def pre(self, c):
        m = self.hm(c, c.old)
        e = H.slot_index(c, c.old, m, c.args[1])
        if m.temp is None:
            return [("a key is being looked up", z3.BoolVal(False))]
        return m.mem() + m.keys.v.ok("key parts: ") + m.temp.v.ok("key being looked up: ") + [
            ("entry of the table", And(e >= 0, e < m.L)),
            ("its parts are listed", And(m.t.KI.get(e) >= 0, m.t.KL.get(e) >= 0, m.t.KI.get(e) + m.t.KL.get(e) <= m.keys.size)),
            ("the key looked up has as many parts", m.t.KL.get(e) <= m.temp.size),
            ("key parts lie in the buffer", m.keys.below(m.buflen)), ("parts looked up lie in the buffer", m.temp.below(m.buflen))]

    def effect(self, c):
        return z3.Bool(fresh_name("eq"))

    def post(self, c):
        m = self.hm(c, c.new)
        e = H.slot_index(c, c.new, m, c.args[1])
        n = m.t.KL.get(e)
        x, y = m.run(e), m.argtemp()
        t = H.truth(c, c.ret)
        if c.mode == "verify":
            c.new.assume(ext_lemma(x, y, n))
        return [("true exactly when the keys are the same", t == (cv(x, n) == cv(y, n)))]

    @property
    def loops(self):
        def inv(lp):
            c = self.lv(lp)
            m = self.hm(c, c.new)
            e = H.slot_index(c, c.new, m, c.args[1])
            n = m.t.KL.get(e)
            x, y = m.run(e), m.argtemp()
            K = lp.K
            lp.lemma(part_lemma(x, y, n, K))
            B = m.buf()
            # names the comparison of the parts at K
            lp.lemma(Imp(And(sel(x[1], x[3] + K) >= 0, sel(y[1], K) >= 0), SEQEQ(B, sel(x[0], x[3] + K), sel(x[1], x[3] + K), B, sel(y[0], K), sel(y[1], K)) == (part(x, K) == part(y, K))))
            return [("parts compared so far are equal", all1(0, K, lambda j: part(x, j) == part(y, j))), ("no further than the key", K <= n), ("variant", n - K)]
        return [inv]


# ------------------------------------------------------------------ lookup
@contract
class _composite_get_entry(Comp):
    """the entry holding the key, or the free entry where it belongs"""
    name = "_composite_get_entry"
    cases = [(m, {"mode": m}) for m in MODES]

    def setup(self, c, st):
        p = mk_cm(c, st, c.case["mode"], True)
        k = mk_arg(c, st)
        nr = c.ex.new_region(st, "cell", "len", size=4)
        hr = c.ex.new_region(st, "cell", "hash", size=8)
        return [p, k, PV(nr.rid), PV(hr.rid)]

    def arg(self, c, st):
        return Arg(c, st, c.args[1], keymode(c, c.old))

    def pre(self, c):
        m, a = self.hm(c, c.old), self.arg(c, c.old)
        if m.temp is None:
            return [("a key is being looked up", z3.BoolVal(False))]
        return m.wf() + a.ok() + [("a place for every part", m.temp.size == a.n)]

    def assume_only(self, c):
        return self.arg(c, c.old).axioms()

    def out(self, c, st):
        ld = lambda p, t: c.ex.U(st, c.ex.load(st, p, t, c.ex.prog.mods[0]))
        return ld(c.args[2], "i32"), ld(c.args[3], "i64")

    def effect(self, c):
        st, p = c.new, c.args[0]
        m = self.hm(c, c.old)
        H.replace_keybuf(c, st, p)
        V.havoc_contents(c, st, m.tempp)
        for q, n, nm in ((c.args[2], 4, "klen"), (c.args[3], 8, "hash")):
            c.ex.store_cell(st, st.regions[q.rid], q.off.c, n, c.ex.fresh_iv(st, 8 * n, nm))
        return PV(m.t.r.rid, Off(0, {m.t.r.stride: fint("entry")}))

    def post(self, c):
        o, m, a = self.hm(c, c.old), self.hm(c, c.new), self.arg(c, c.new)
        klen, hash_ = self.out(c, c.new)
        e = H.slot_index(c, c.new, m, c.ret)
        T, hd = m.t, m.head
        h = home(hash_, m.L)
        vp = lambda s: [T.V.get(s), T.KI.get(s)]
        if c.mode == "verify":
            c.new.assume(ext_lemma(m.argtemp(), a.x, a.n))
        return [x for x in m.mem() + m.temp.v.ok("key being looked up: ") if not x[0].startswith("entry")] + [
            ("buffer use unchanged", hd == o.head),
            ("parts looked up lie in the buffer behind the stored keys", m.temp.below(hd + klen, a.n, hd)), ("room for the key", And(klen >= 0, hd + klen <= m.buflen)),
            ("parts looked up are those of the key", all1(0, a.n, lambda j: part(m.argtemp(), j) == part(a.x, j))),
            ("key looked up is the key", cv(m.argtemp(), a.n) == a.val()),
            ("hash of the key", hash_ == HC(a.val())),
            ("an entry of the table", And(e >= 0, e < m.L)),
            keys_stable(o, m),
            ("entry in use holds this key", Imp(T.live(e), m.sv(e) == a.val())),
            ("entry free only if no entry holds the key", Imp(Not(T.live(e)), all1(0, m.L, lambda s: Imp(T.live(s), m.sv(s) != a.val()), vp))),
            ("free entry is where a lookup ends", Imp(Not(T.live(e)), all1(0, m.L, lambda s: Imp(inpath(h, s, e), T.live(s)), vp))),
        ] + stable(o, m, hd)

    @property
    def loops(self):
        return [self.parts, self.grow, self.probe]

    def parts(self, lp):
        c = self.lv(lp)
        o, m, a = self.hm(c, c.old), self.hm(c, c.new), self.arg(c, c.new)
        K = lp.K
        klen, hash_ = self.out(c, lp.st)
        for f in cv_unfold(a.x, K) + cv_unfold(a.x, K - 1) + [a.unsum(K), a.unsum(K - 1)]:
            lp.lemma(f)
        out = []
        ps = lp.ptrs(a.v.r.rid)
        if ps:
            out.append(("position in the key", V.posidx(c, lp.st, a.v, ps[0]) == K))
        for lb, x in lp.intphis():
            out.append(("maybe", "%s counts the parts" % lb, c.ex.U(lp.st, x) == K))
        out += [x for x in m.mem() if not x[0].startswith("entry") and not x[0].startswith("used")] + [
            ("parts left", K <= a.n), ("parts have places", m.temp.size == a.n), ("key: temp", And(*[f for _, f in m.temp.v.ok()])),
            ("length so far", klen == SUM(a.TL, K)), ("buffer use so far", And(m.head == o.head + SUM(a.TL, K), m.head <= m.buflen)),
            ("hash so far", hash_ == HC(cv(a.x, K))),
            ("parts placed behind the stored keys", m.temp.below(m.head, K, o.head)),
            ("parts placed are those of the key", all1(0, K, lambda j: part(m.argtemp(), j) == part(a.x, j), lambda j: [part(m.argtemp(), j)])),
            ("variant", a.n - K)]
        return out + stable(o, m, o.head)

    def grow(self, lp):
        c = self.lv(lp)
        m = self.hm(c, c.new)
        o = CM(c, lp.entry if lp.entry is not None else lp.st, c.args[0])
        return [x for x in m.mem() if not x[0].startswith("entry")] + [("buffer only grows", m.buflen >= o.buflen), ("variant", 2 ** 48 - m.buflen)] + stable(o, m, m.head)

    def probe(self, lp):
        c = self.lv(lp)
        o, m, a = self.hm(c, c.old), self.hm(c, c.new), self.arg(c, c.new)
        T = m.t
        e, idx = H.probed(c, lp, m)
        _, hash_ = self.out(c, lp.st)
        h = home(hash_, m.L)
        f, fl = H.free_slot(T.V.a, T.G.a, T.S.a, m.L, m.n)
        lp.lemma(fl)
        lp.lemma(ext_lemma(m.argtemp(), a.x, a.n))
        q = z3.If(e == 0, m.L - 1, e - 1)
        vp = lambda s: [T.V.get(s), T.KI.get(s)]
        return [("key looked up is the key", cv(m.argtemp(), a.n) == a.val()), keys_stable(o, m),
                ("index is the entry's", And(idx == e, e >= 0, e < m.L)),
                ("the entry just passed holds another key", Or(lp.K == 0, m.sv(q) != a.val())),
                ("entries passed are in use", all1(0, m.L, lambda s: Imp(inpath(h, s, e), T.live(s)), vp)),
                ("entries passed hold other keys", all1(0, m.L, lambda s: Imp(inpath(h, s, e), m.sv(s) != a.val()), vp)),
                ("variant", z3.If(e <= f, f - e, f - e + m.L))]


# ------------------------------------------------------------------ growth
class Increase(type(REG["_increase_size"])):
    """the same contract, for tables of composite keys too"""
    cases = [("composite", {"comp": True, "isset": False, "mode": "exact"})]
    props = ("C05",)

    def setup(self, c, st):
        return [mk_cm(c, st, "exact", False)]

    def comp(self, c, st):
        k = c.get(st, c.args[0], "hashmap", "_keys")
        return isinstance(k, PV) and k.rid is not None

    def hm(self, c, st):
        return CM(c, st, c.args[0]) if self.comp(c, st) else super().hm(c, st)

    def post(self, c):
        r = super().post(c)
        return r


REG["_increase_size"] = Increase()
ORDER.append("_increase_size")


# ------------------------------------------------------------------ operations
class CompOp(Comp):
    cases = [("%s%s" % (m, " first" if not t else ""), {"mode": m, "temp": t}) for m in MODES for t in (True, False)]
    changes = True

    def setup(self, c, st):
        p = mk_cm(c, st, c.case["mode"], c.case["temp"])
        k = mk_arg(c, st)
        return [p, k] + self.more(c, st)

    def more(self, c, st):
        return []

    def alloc_hook(self, c):
        return H.entry_hook(c)

    def arg(self, c, st):
        return Arg(c, st, c.args[1], keymode(c, c.old))

    def pre(self, c):
        m, a = self.hm(c, c.old), self.arg(c, c.old)
        return m.wf() + a.ok()

    def assume_only(self, c):
        return self.arg(c, c.old).axioms()

    def effect(self, c):
        st, p = c.new, c.args[0]
        H.replace_keybuf(c, st, p)
        t = c.get(st, p, "hashmap", "_key_temp")
        if isinstance(t, PV) and t.rid is not None:
            self.havoc_vec(c, st, t)
        else:
            q, _ = V.mk_vec(c, st, "temp", S=LOCSZ, fields={0: 8, 8: 4}, heap=True)
            c.set(st, p, "hashmap", "_key_temp", q)
        if self.changes:
            H.replace_entries(c, st, p)
            c.havoc_int(st, p, "hashmap", "_keybuf_head")
            self.havoc_vec(c, st, c.get(st, p, "hashmap", "values"))
            self.havoc_vec(c, st, c.get(st, p, "hashmap", "_keys"))
        return self.ret(c)

    def ret(self, c):
        return None

    def havoc_vec(self, c, st, v):
        V.havoc_contents(c, st, v)
        V.replace_data(c, st, v)
        c.havoc_int(st, v, "vec", "_alloc")
        c.havoc_int(st, v, "vec", "size")

    def same_keys(self, o, m):
        return ("every stored key is kept", all1(0, o.n, lambda v: m.kv(v) == o.kv(v), lambda v: [o.t.S.get(v), m.t.S.get(v)]))

    def nohit(self, o, key):
        return all1(0, o.n, lambda v: o.kv(v) != key, lambda v: [o.t.S.get(v)])


@contract
class compositemap_set(CompOp):
    name = "compositemap_set"

    def more(self, c, st):
        S = c.aux["S"]
        d = V.mk_arr(c, st, "data", S, fint("data_n"), ro=True)
        st.assume(d.count >= 1)
        return [PV(d.rid)]

    def pre(self, c):
        b = V.Buf(c, c.old, c.args[2])
        return CompOp.pre(self, c) + [("data is one element", And(b.k >= 0, b.k < b.r.count) if not b.cell else z3.BoolVal(True))]

    def post(self, c):
        o, m, a = self.hm(c, c.old), self.hm(c, c.new), self.arg(c, c.new)
        key = a.val()
        d = V.Buf(c, c.old, c.args[2])
        return m.wf() + [
            self.same_keys(o, m),
            ("at most one key is added", Or(m.n == o.n, m.n == o.n + 1)),
            ("a key is added only if it was absent", Imp(m.n == o.n + 1, And(self.nohit(o, key), m.kv(o.n) == key))),
            ("no key is added only if it was present", Imp(m.n == o.n, Not(self.nohit(o, key)))),
            ("the key's value is the data", all1(0, m.n, lambda v: Imp(m.kv(v) == key, V.eqel(m.vals, v, d, 0)), lambda v: [m.t.S.get(v)])),
            ("other keys keep their values", all1(0, o.n, lambda v: Imp(o.kv(v) != key, V.eqel(m.vals, v, o.vals, v)), lambda v: [o.t.S.get(v), m.t.S.get(v)]))]


@contract
class compositemap_get(CompOp):
    name = "compositemap_get"
    changes = False

    def effect(self, c):
        CompOp.effect(self, c)
        o = self.hm(c, c.old)
        s2 = c.new.copy()
        return [(c.new, NULL), (s2, PV(o.vals.data.rid, Off(0, {o.vals.r.stride: fint("at")})))]

    def post(self, c):
        o, m, a = self.hm(c, c.old), self.hm(c, c.new), self.arg(c, c.new)
        key = a.val()
        r = m.wf() + [self.same_keys(o, m), ("same number of keys", m.n == o.n)]
        if isinstance(c.ret, PV) and c.ret.rid is None:
            return r + [("NULL only if the key was never stored", self.nohit(o, key))]
        i = V.posidx(c, c.new, m.vals, c.ret)
        if i is None:
            return r + [("returns NULL or a stored value", z3.BoolVal(False))]
        return r + [("the value returned belongs to the key", And(i >= 0, i < o.n, o.kv(i) == key))]


@contract
class compositemap_clear(Comp):
    name = "compositemap_clear"
    cases = [("", {"mode": "exact"})]

    def setup(self, c, st):
        return [mk_cm(c, st, "exact", True)]

    def pre(self, c):
        return self.hm(c, c.old).wf()

    def effect(self, c):
        REG["hashmap_clear"].effect(c)
        c.set(c.new, c.get(c.new, c.args[0], "hashmap", "_keys"), "vec", "size", IV(64, 0))

    def post(self, c):
        m = self.hm(c, c.new)
        return m.wf() + [("no keys", m.n == 0)]


@contract
class compositemap_construct(type(REG["hashmap_construct"])):
    name = "compositemap_construct"
    props = ("C05",)

    def effect(self, c):
        outs = super().effect(c)
        for s, p in outs:
            k, _ = V.mk_vec(c, s, "keys", S=LOCSZ, fields={0: 8, 8: 4}, heap=True)
            c.set(s, p, "hashmap", "_keys", k)
            c.set(s, p, "hashmap", "_key_temp", NULL)
        return outs

    def post(self, c):
        c.new.assume(*bv_axioms())
        m = CM(c, c.new, c.args[0])
        return m.wf() + [("no keys", m.n == 0), ("returns self", c.peq(c.ret, c.args[0])), ("no key looked up yet", z3.BoolVal(m.temp is None)),
                         ("keys compared as the properties ask", H.is_mode(c, m.fn, c.ex.U(c.old, c.args[3])))]


@contract
class compositemap_destroy(Comp):
    name = "compositemap_destroy"
    cases = [("used", {"temp": True}), ("never used", {"temp": False})]
    drop_self = False

    def setup(self, c, st):
        p = mk_cm(c, st, "exact", c.case["temp"])
        if self.drop_self:
            st.regions[p.rid].heap = True
        return [p]

    def pre(self, c):
        return self.hm(c, c.old).wf()

    def blocks(self, c):
        o = self.hm(c, c.old)
        return [("entries freed", [o.entries]), ("key buffer freed", [o.keybuf]), ("value vector freed", [o.vp, o.vals.data]),
                ("key parts freed", [o.keys.p, o.keys.v.data])] + ([("key looked up freed", [o.tempp, o.temp.v.data])] if o.temp else []) + (
                [("map freed", [c.args[0]])] if self.drop_self else [])

    def effect(self, c):
        for _, ps in self.blocks(c):
            for q in ps:
                c.new.regions[q.rid].alive = False
        for nm in ("_entries", "_keybuf", "values", "_keys", "_key_temp"):
            c.set(c.new, c.args[0], "hashmap", nm, NULL)

    def post(self, c):
        return [(nm, And(*[c.deadp(c.new, q) for q in ps])) for nm, ps in self.blocks(c)]


@contract
class compositemap_free(type(REG["compositemap_destroy"])):
    name = "compositemap_free"
    drop_self = True
    frame_check = False
