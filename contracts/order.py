"""Contracts for lib/order.c: ORDER BY.

An order keeps, for every record, an entry (where its keys start in the packed store, where
the record's output starts and how long it is) and in the packed store one item per ORDER BY
expression: the 8 bytes of a number or the bytes of a text.
Abstract value of a key: key(i) of an entry = the number or text its i-th item holds.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
import sx
from strs import *
from vec import Vec, mk_vec
from flex import Flex, mk_flex
from stringview import cmpf
from stringy import MAXS
from logic import pool_key
from expression import STAT, IVAL, FVAL, TARR, TLEN, FAIL, NULL_, GOOD, EXPR_CONST, NULLEX, T_INT, T_FLOAT, T_STRING, mk_exprs

FILE = ["lib/order.c", "util/flex.c", "util/vec.c", "util/stringview.c", "util/stringy.c", "util/util.c"]
DEPS = ["flex", "expression", "stringview"]
INT = z3.IntSort()
BITS, UNBITS = uf("f2bits", FS, INT), uf("bits2f", INT, FS)


def mk_order(c, st, ro=True, items=True):
    """an order: expressions, entries, packed keys"""
    m = lambda x: c.ex.prog.member("order", x)[0]
    r = c.ex.new_region(st, "cell", "order", size=c.ex.prog.sizeof("order"))
    X = mk_exprs(c, st)
    do = c.ex.prog.member("expression", "descending")[0]
    X.fields[do] = (1, "int", Base("descending"))
    desc, ft = X.fields[do][2].get, X.fields[c.fo("expression", "field_type")[0]][2].get
    st.assume(forall(0, X.count, lambda i: And(desc(i) >= 0, desc(i) <= 1), pats=lambda i: desc(i)))

    def embed(name, S, fields, heap):
        vp, _ = mk_vec(c, st, name, S=S, fields=fields)
        d = st.regions[c.get(st, vp, "vec", "data").rid]
        d.heap = heap
        for o, v in st.regions[vp.rid].cells.items():
            r.cells[m(name) + o] = v
        del st.regions[vp.rid]
        return d, c.u(st, PV(r.rid, Off(m(name))), "vec", "size")
    d, n = embed("expressions", 8, {0: 8}, True)
    d.fields[0] = (8, ("ptr", X.rid), d.fields[0][2])
    d.ro = True
    e, live = d.fields[0][2].get, X.ghost["live"].get
    st.assume(forall(0, n, lambda i: And(e(i) >= 1, e(i) < X.count, live(e(i)) != 0), pats=lambda i: e(i)), n < 2 ** 15)
    E = [c.fo("_entry", x) for x in ("idx", "offset", "len")]
    ed, en = embed("entries", c.ex.prog.sizeof("_entry"), dict(E), True)
    off, ln = ed.fields[E[1][0]][2].get, ed.fields[E[2][0]][2].get
    idx = ed.fields[E[0][0]][2].get
    st.assume(en < 2 ** 40, forall(0, en, lambda i: And(idx(i) >= 0, idx(i) < 2 ** 64), pats=lambda i: idx(i)),
              forall(0, en, lambda i: And(off(i) >= 0, off(i) < 2 ** 64), pats=lambda i: off(i)), forall(0, en, lambda i: And(ln(i) >= 0, ln(i) < 2 ** 32), pats=lambda i: ln(i)))
    if items:
        fp = mk_flex(c, st, "order_data")
        for o, v in st.regions[fp.rid].cells.items():
            r.cells[m("order_data") + o] = v
        del st.regions[fp.rid]
    c.aux.update(X=X.rid, e=e, n=n, ft=lambda i: ft(e(i)), desc=lambda i: desc(e(i)) != 0, en=en, ed=ed.rid, E=[x[0] for x in E])
    return PV(r.rid)


def keys(c, st, p):
    return Flex(c, st, PV(p.rid, Off(c.ex.prog.member("order", "order_data")[0])))


def entries(c, st, p):
    return Vec(c, st, PV(p.rid, Off(c.ex.prog.member("order", "entries")[0])))


def word8(f, i):
    """the 8 bytes of item i as a number without sign"""
    return sx.word([f.byte(f.idx(i) + j) for j in range(8)])


def signed(x):
    return z3.If(x >= 2 ** 63, x - 2 ** 64, x)


def key_bits(c, j):
    """the bits of the number that ORDER BY expression number j yields for the row at hand, 0 for NULL"""
    k = c.aux["e"](j)
    i = z3.If(STAT["i"](k) == GOOD, IVAL(k), I(0))
    f = z3.If(STAT["f"](k) == GOOD, BITS(FVAL(k)), BITS(c.ex.fconst(0.0)))
    return z3.If(c.aux["ft"](j) == T_INT, z3.If(i < 0, i + 2 ** 64, i), f)


def key_bytes(c, f, lo, hi, d):
    """items d + lo .. d + hi hold the values the ORDER BY expressions yield for the row at hand"""
    j, b = z3.Int(fresh_name("j")), z3.Int(fresh_name("b"))
    k, ft = c.aux["e"](j), c.aux["ft"](j)
    num = Or(ft == T_INT, ft == T_FLOAT)
    at = And(lo <= j, j < hi)
    return [("length", z3.ForAll([j], Imp(at, And(Imp(num, f.len(d + j) == 8), Imp(ft == T_STRING, f.len(d + j) == z3.If(STAT["s"](k) == GOOD, TLEN(k), I(0))))), patterns=[k])),
            ("number", forall_m([j, b], Imp(And(at, num, 0 <= b, b < 8), f.byte(f.idx(d + j) + b) == sx.byte(key_bits(c, j), b)), k, f.byte(f.idx(d + j) + b))),
            ("text", forall_m([j, b], Imp(And(at, ft == T_STRING, STAT["s"](k) == GOOD, 0 <= b, b < TLEN(k)), f.byte(f.idx(d + j) + b) == TARR(k)[b]), k, f.byte(f.idx(d + j) + b)))]


@lemma
def bytes_of_a_number_give_it_back():
    """dividing by 256 again and again yields bytes that make up the number: what the spec function BYTE stands for"""
    x, q, r = z3.Int("x"), z3.Ints("q0 q1 q2 q3 q4 q5 q6 q7 q8"), z3.Ints("r0 r1 r2 r3 r4 r5 r6 r7")
    h = [x >= 0, x < 2 ** 64, q[0] == x] + [And(q[j] == 256 * q[j + 1] + r[j], r[j] >= 0, r[j] < 256) for j in range(8)]
    y = z3.Int("y")
    step = [y == 256 * (y / 256) + y % 256, y % 256 >= 0, y % 256 < 256]
    return [("each step", [], And(*step)), ("8 bytes", h, And(q[8] == 0, sx.word(r) == x))]


def evaluated(c, j):
    """expression number j does not fail on the row at hand"""
    k, ft = c.aux["e"](j), c.aux["ft"](j)
    ok = lambda t: Or(STAT[t](k) == GOOD, STAT[t](k) == NULL_)
    return And(Imp(ft == T_INT, ok("i")), Imp(ft == T_FLOAT, ok("f")), Imp(ft == T_STRING, ok("s")), Or(ft == T_INT, ft == T_FLOAT, ft == T_STRING))


@contract
class order_add_record(Contract):
    """remembers the record with the value of every ORDER BY expression"""
    name = "order_add_record"
    props = ("C28",)
    lemmas = ("bytes_of_a_number_give_it_back",)

    def setup(self, c, st):
        p = mk_order(c, st)
        f = keys(c, st, p)
        st.assume(f.raw.size < 2 ** 40, f.n < 2 ** 40)
        rec = c.ex.new_region(st, "cell", "record", size=c.ex.prog.sizeof("record"), ro=True)
        for x in ("offset", "select_len"):
            o, sz = c.fo("record", x)
            rec.cells[o] = (sz, c.ex.fresh_iv(st, 8 * sz, x))
        rg = c.ex.new_region(st, "cell", "rg", size=c.ex.prog.sizeof("node"), ro=True)
        rg.cells[c.fo("node", "data")[0]] = (8, PV(rec.rid))
        st.ghost["row"] = PV(rg.rid)
        c.aux["rec"] = PV(rec.rid)
        return [p, PV(rg.rid)]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            p = c.args[0]
            o, n, K = keys(c, c.old, p), keys(c, lp.st, p), lp.K
            out = [("keys so far", And(K >= 0, K <= c.aux["n"])), ("variant", c.aux["n"] - K)]
            for nm, v in lp.intphis():
                if v.bits == 32:
                    out.append(("maybe", "counter (%s)" % nm, c.ex.U(lp.st, v) == K))
            D = lp.st.regions[c.aux["ed"]]
            i, b = z3.Int(fresh_name("i")), z3.Int(fresh_name("b"))
            return out + n.ok("still valid: ") + [
                ("an item per key", n.n == o.n + K), ("bytes so far", n.raw.size <= o.raw.size + K * 2 ** 31),
                ("items before: length", forall(0, o.n, lambda k: n.len(k) == o.len(k))), ("items before: place", forall(0, o.n, lambda k: n.idx(k) == o.idx(k))),
                ("items before: bytes", forall(0, o.raw.size, lambda k: n.byte(k) == o.byte(k))), ("bytes", n.raw.size >= o.raw.size),
                ("none failed", forall(0, K, lambda j: evaluated(c, j), pats=lambda j: c.aux["e"](j))),
                ] + [("the keys: " + nm, f) for nm, f in key_bytes(c, n, I(0), K, o.n)]
        return [l0]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("adding a record seen from a caller")
        st, p = c.new, c.args[0]
        from vec import havoc_contents, replace_data
        f = keys(c, st, p)
        for v in (f.rp, f.pp, PV(p.rid, Off(c.ex.prog.member("order", "entries")[0]))):
            havoc_contents(c, st, v)
            replace_data(c, st, v)
            c.havoc_int(st, v, "vec", "_alloc")
            c.havoc_int(st, v, "vec", "size")
        return c.ex.fresh_iv(st, 32, "status", True)

    def post(self, c):
        p = c.args[0]
        rc = c.ex.S(c.new, c.ret)
        o, n = keys(c, c.old, p), keys(c, c.new, p)
        oe, ne = entries(c, c.old, p), entries(c, c.new, p)
        N, i, b = c.aux["n"], z3.Int(fresh_name("i")), z3.Int(fresh_name("b"))
        fi, fo, fl = c.aux["E"]
        rec = c.aux["rec"]
        j = z3.Int("ob_j")
        good = rc == GOOD
        return [("good or an error", Or(good, rc == FAIL)),
                ("an error only for a key that fails", Imp(rc == FAIL, z3.Exists([j], And(j >= 0, j < N, Not(evaluated(c, j)))))),
                ("no key failed", Imp(good, forall(0, N, lambda j: evaluated(c, j), pats=lambda j: c.aux["e"](j)))),
                ("one record more", ne.size == oe.size + z3.If(good, I(1), I(0))),
                ("earlier records kept", forall(0, oe.size, lambda i: And(*[ne.at(i, x) == oe.at(i, x) for x in c.aux["E"]]))),
                ("earlier keys kept", And(n.n >= o.n, n.raw.size >= o.raw.size, forall(0, o.n, lambda k: And(n.len(k) == o.len(k), n.idx(k) == o.idx(k))), forall(0, o.raw.size, lambda k: n.byte(k) == o.byte(k)))),
                ("its keys start at the first new item", Imp(good, And(ne.at(oe.size, fi) == o.n, n.n == o.n + N))),
                ("its output", Imp(good, And(ne.at(oe.size, fo) == c.u(c.old, rec, "record", "offset"), ne.at(oe.size, fl) == c.u(c.old, rec, "record", "select_len")))),
                ] + [("its keys are the values of the expressions, 0 or empty for NULL: " + nm, Imp(good, f)) for nm, f in key_bytes(c, n, I(0), N, o.n)]


def sign(x):
    return z3.If(x > 0, I(1), z3.If(x < 0, I(-1), I(0)))


def key_order(c, f, a, b, j):
    """-1, 0, 1: how key j of the entry whose keys start at item a compares with that of the entry at b"""
    ft = c.aux["ft"](j)
    x, y = signed(word8(f, a + j)), signed(word8(f, b + j))
    fx, fy = UNBITS(word8(f, a + j)), UNBITS(word8(f, b + j))
    lt = uf("f_lt", FS, FS, z3.BoolSort())
    A = f.raw.r.fields[0][2].z3(c.old.hyps)
    t = cmpf(A, f.idx(a + j), f.len(a + j), A, f.idx(b + j), f.len(b + j))
    s = z3.If(ft == T_INT, z3.If(x > y, I(1), z3.If(x < y, I(-1), I(0))),
              z3.If(ft == T_FLOAT, z3.If(lt(fy, fx), I(1), z3.If(lt(fx, fy), I(-1), I(0))), z3.If(ft == T_STRING, sign(t), I(0))))
    return z3.If(c.aux["desc"](j), -s, s)


@contract
class _compare(Contract):
    """compares two records key by key; the first difference decides"""
    name = "_compare"
    props = ("C28",)

    def setup(self, c, st):
        p = mk_order(c, st)
        D = st.regions[c.aux["ed"]]
        fi = c.aux["E"][0]
        i, j = fint("first"), fint("second")
        f = keys(c, st, p)
        N = c.aux["n"]
        a, b = D.fields[fi][2].get(i), D.fields[fi][2].get(j)
        st.assume(i >= 0, i < c.aux["en"], j >= 0, j < c.aux["en"], a >= 0, b >= 0, a + N <= f.n, b + N <= f.n)
        for x in (a, b):
            st.assume(forall(0, N, lambda k: And(Imp(Or(c.aux["ft"](k) == T_INT, c.aux["ft"](k) == T_FLOAT), f.len(x + k) == 8), Imp(c.aux["ft"](k) == T_STRING, f.len(x + k) < MAXS)), pats=lambda k: f.len(x + k)),
                      forall(0, N, lambda k: And(Imp(Or(c.aux["ft"](k) == T_INT, c.aux["ft"](k) == T_FLOAT), f.len(x + k) == 8)), pats=lambda k: c.aux["e"](k)))
        c.aux["ab"] = (a, b)
        # a name for how the records' k-th keys compare
        o = c.aux["ord"] = z3.Function(fresh_name("ORDER_OF_KEYS"), z3.IntSort(), z3.IntSort())
        c.old = st
        st.assume(forall(0, N, lambda k: o(k) == key_order(c, f, a, b, k), pats=lambda k: o(k)))
        return [PV(D.rid, Off(0, {D.stride: i})), PV(D.rid, Off(0, {D.stride: j})), p]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            f, K = keys(c, c.old, c.args[2]), lp.K
            a, b = c.aux["ab"]
            N, o = c.aux["n"], c.aux["ord"]
            lp.lemma(Imp(K < N, o(K) == key_order(c, f, a, b, K)))
            out = [("keys compared", And(K >= 0, K <= N)), ("variant", N - K), ("maybe", "every key compared is equal", forall(0, K, lambda j: o(j) == 0, pats=lambda j: o(j)))]
            for nm, v in lp.intphis():
                if v.bits == 64:
                    x = c.ex.U(lp.st, v)
                    out += [("maybe", "first record's key (%s)" % nm, x == a + K), ("maybe", "second record's key (%s)" % nm, x == b + K), ("maybe", "counter (%s)" % nm, x == K)]
                if v.bits == 32:
                    s = c.ex.S(lp.st, v)
                    out += [("maybe", "equal so far (%s)" % nm, Imp(s == 0, forall(0, K, lambda j: o(j) == 0, pats=lambda j: o(j)))),
                            ("maybe", "the first difference (%s)" % nm, Imp(s != 0, And(K >= 1, sign(s) == o(K - 1), forall(0, K - 1, lambda j: o(j) == 0, pats=lambda j: o(j)))))]
            ev = c.old.regions[entries_rid(c)]
            for p in lp.ptrs(ev.rid):
                out.append(("expression reached", c.peq(p, PV(ev.rid, Off(0, {ev.stride: K})), lp.st)))
            return out
        return [l0]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("the comparison seen from a caller")
        return c.ex.fresh_iv(c.new, 32, "order", True)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        f = keys(c, c.old, c.args[2])
        a, b = c.aux["ab"]
        N = c.aux["n"]
        o = c.aux["ord"]
        eq = lambda k: forall(0, k, lambda j: o(j) == 0, pats=lambda j: o(j))
        j = z3.Int("oc_j")
        return [("equal records only when all keys are", Imp(rc == 0, eq(N))),
                ("otherwise the first key that differs decides", Imp(rc != 0, z3.Exists([j], And(j >= 0, j < N, eq(j), o(j) == sign(rc)))))]


def entries_rid(c):
    p = c.args[2] if len(c.args) > 2 else c.args[0]
    return c.get(c.old, PV(p.rid, Off(c.ex.prog.member("order", "expressions")[0])), "vec", "data").rid


# ------------------------------------------------------------ what comes out
def mk_file(c, st, p):
    """the mapped output of the records: every entry's bytes lie inside"""
    t, a = mk_bytes(c, st, "mapped")
    t.heap = False
    r = st.regions[p.rid]
    o, sz = c.fo("order", "mmap")
    r.cells[o] = (sz, PV(t.rid))
    o, sz = c.fo("order", "file_size")
    r.cells[o] = (sz, IV(64, t.count, u=True))
    o, sz = c.fo("order", "top_count")
    r.cells[o] = (sz, c.ex.fresh_iv(st, 64, "top_count"))
    c.aux.update(map=t.rid, file=a)
    return t, a


def mk_proc(c, st):
    r = c.ex.new_region(st, "cell", "proc", size=c.ex.prog.sizeof("process"))
    o, sz = c.fo("process", "rows_affected")
    r.cells[o] = (sz, c.ex.fresh_iv(st, 64, "rows_affected"))
    st.assume(c.ex.U(st, r.cells[o][1]) < 2 ** 62)
    return PV(r.rid)


@contract
class _order_select(Contract):
    """writes the output of the sorted records, no more than TOP asks for"""
    name = "_order_select"
    props = ("C28",)

    def setup(self, c, st):
        p = mk_order(c, st, items=False)
        t, a = mk_file(c, st, p)
        fi, fo, fl = c.aux["E"]
        D = st.regions[c.aux["ed"]]
        D.ro = True
        off, ln = D.fields[fo][2].get, D.fields[fl][2].get
        st.assume(forall(0, c.aux["en"], lambda i: off(i) + ln(i) <= t.count, pats=lambda i: off(i)))
        f = c.ex.new_region(st, "cell", "out_file", size=216)
        o, sz = c.fo("order", "out_file")
        st.regions[p.rid].cells[o] = (sz, PV(f.rid))
        log = c.ex.new_region(st, "arr", "written", stride=24, count=I(2 ** 50))
        for x in (0, 8, 16):
            log.fields[x] = (8, "int", Base("written%d" % x))
        log.ghost["source"] = t.rid
        cnt = c.ex.new_region(st, "cell", "writes", size=8)
        cnt.cells[0] = (8, IV(64, 0))
        st.ghost["written"] = (PV(f.rid), log.rid, cnt.rid)
        return [p, mk_proc(c, st)]

    def log(self, c, st):
        f, l, n = c.old.ghost["written"]
        R = st.regions[l]
        return c.ex.U(st, st.regions[n].cells[0][1]), [R.fields[x][2].get for x in (0, 8, 16)]

    def written(self, c, st, n):
        """the first n writes are the outputs of the first n records"""
        fi, fo, fl = c.aux["E"]
        D = c.old.regions[c.aux["ed"]]
        cnt, (off, ln, src) = self.log(c, st)
        wo, wl = D.fields[fo][2].get, D.fields[fl][2].get
        return [("a write per record", cnt == n), ("each its output", forall(0, n, lambda i: And(ln(i) == wl(i), src(i) == 1, off(i) == wo(i)), pats=lambda i: ln(i)))]

    def room(self, c):
        top, rows = c.u(c.old, c.args[0], "order", "top_count"), c.u(c.old, c.args[1], "process", "rows_affected")
        return z3.If(top > rows, top - rows, I(0)), rows

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            K = lp.K
            room, rows = self.room(c)
            out = [("records written", And(K >= 0, K <= c.aux["en"], K <= room)), ("counted", c.u(lp.st, c.args[1], "process", "rows_affected") == rows + K), ("variant", c.aux["en"] - K)]
            D = c.old.regions[c.aux["ed"]]
            for p in lp.ptrs(D.rid):
                out.append(("record reached", c.peq(p, PV(D.rid, Off(0, {D.stride: K})), lp.st)))
            for nm, v in lp.intphis():
                out.append(("maybe", "counter (%s)" % nm, c.ex.U(lp.st, v) == K))
            return out + self.written(c, lp.st, K)
        return [l0]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("the output seen from a caller")
        st = c.new
        c.havoc_int(st, c.args[1], "process", "rows_affected")
        f, l, n = c.old.ghost["written"]
        for x, v in list(st.regions[l].fields.items()):
            st.regions[l].fields[x] = (v[0], v[1], Base("written%d" % x))
        st.regions[n].cells[0] = (8, c.ex.fresh_iv(st, 64, "writes"))
        return c.ex.fresh_iv(st, 32, "status", True)

    def post(self, c):
        room, rows = self.room(c)
        en = c.aux["en"]
        n = z3.If(en < room, en, room)
        return self.written(c, c.new, n) + [("rows counted", c.u(c.new, c.args[1], "process", "rows_affected") == rows + n), ("done", c.ex.S(c.new, c.ret) == 0)]


def file_word(c, at, n):
    return sx.word([c.aux["file"].get(at + j) for j in range(n)])


@contract
class _order_select_to_const(Contract):
    """the value of a subquery with ORDER BY: that of its first record"""
    name = "_order_select_to_const"
    props = ("C28",)

    def setup(self, c, st):
        p = mk_order(c, st, items=False)
        t, a = mk_file(c, st, p)
        fi, fo, fl = c.aux["E"]
        D = st.regions[c.aux["ed"]]
        D.ro = True
        r = c.ex.new_region(st, "cell", "const", size=c.ex.prog.sizeof("expression"))
        for x in ("expr", "field_type"):
            o, sz = c.fo("expression", x)
            r.cells[o] = (sz, c.ex.fresh_iv(st, 32, x))
        o, sz = c.fo("expression", "field")
        r.cells[o] = (sz, c.ex.fresh_iv(st, 64, "field"))
        b = mk_str(c, st, "buf", text=True)
        bo = c.fo("expression", "buf")[0]
        for o, v in st.regions[b.rid].cells.items():
            r.cells[bo + o] = v
        st.regions[c.get(st, b, "vec", "data").rid].heap = True
        del st.regions[b.rid]
        o, sz = c.fo("order", "const_dest")
        st.regions[p.rid].cells[o] = (sz, PV(r.rid))
        c.aux["dest"] = PV(r.rid)
        first = D.fields[fo][2].get(I(0))
        ft = c.u(st, PV(r.rid), "expression", "field_type")
        n = file_word(c, first, 4)
        bytes_ok = And(*[And(a.get(first + j) >= 0, a.get(first + j) < 256) for j in range(8)])
        # what the SELECT wrote for the record: a number, or a length and a text
        st.assume(Imp(c.aux["en"] > 0, And(Imp(Or(ft == T_INT, ft == T_FLOAT), first + 8 <= t.count),
                                           Imp(ft == T_STRING, And(first + 4 <= t.count, first + 4 + n <= t.count, n < 2 ** 31,
                                                                   forall(first + 4, first + 4 + n, lambda i: a.get(i) != 0, pats=lambda i: a.get(i)))))))
        return [p, mk_proc(c, st)]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("the value of a subquery seen from a caller")
        from vec import havoc_contents, replace_data
        st, d = c.new, c.aux["dest"]
        c.havoc_int(st, d, "expression", "expr")
        c.havoc_int(st, d, "expression", "field_type")
        c.ex.store_cell(st, st.regions[d.rid], c.fo("expression", "field")[0], 8, c.ex.fresh_iv(st, 64, "field"))
        b = PV(d.rid, Off(c.fo("expression", "buf")[0]))
        havoc_contents(c, st, b)
        replace_data(c, st, b)
        c.havoc_int(st, b, "vec", "_alloc")
        c.havoc_int(st, b, "vec", "size")
        return c.ex.fresh_iv(st, 32, "status", True)

    def post(self, c):
        d = c.aux["dest"]
        rc = c.ex.S(c.new, c.ret)
        en, top = c.aux["en"], c.u(c.old, c.args[0], "order", "top_count")
        ft = c.u(c.old, d, "expression", "field_type")
        kind = c.u(c.new, d, "expression", "expr")
        fi, fo, fl = c.aux["E"]
        first = c.old.regions[c.aux["ed"]].fields[fo][2].get(I(0))
        none, many = Or(en == 0, top == 0), And(en > 1, top > 1)
        typed = Or(ft == T_INT, ft == T_FLOAT, ft == T_STRING)
        one = And(Not(none), Not(many), typed)
        out = [("NULL when there is no record", Imp(none, And(rc == GOOD, kind == NULLEX))), ("an error when there is more than one", Imp(And(Not(none), many), rc == FAIL)),
               ("a value otherwise", Imp(one, And(rc == GOOD, kind == EXPR_CONST, c.u(c.new, d, "expression", "field_type") == ft)))]
        v = c.new.regions[d.rid].cells[c.fo("expression", "field")[0]][1]
        if isinstance(v, FV):
            val = And(ft == T_FLOAT, v.t == UNBITS(file_word(c, first, 8)))
        elif isinstance(v, PV):
            b = PV(d.rid, Off(c.fo("expression", "buf")[0]))
            s = Str(c, c.new, b)
            n = file_word(c, first, 4)
            val = And(ft == T_STRING, c.peq(v, b), s.size == n, forall(0, n, lambda i: s.at(i) == c.aux["file"].get(first + 4 + i)))
        else:
            w = file_word(c, first, 8)
            val = And(ft == T_INT, c.ex.U(c.new, v) == w)
        return out + [("the value of the first record", Imp(one, val))]


# ------------------------------------------------------------ rows handed out through the API
AT = z3.Function("API_FIELD_STARTS", INT, INT, INT)       # where column j of the record at an offset starts
CSTR = z3.Function("C_STRING_OF", INT, INT)
FQL_INT, FQL_FLOAT, FQL_STRING = 0, 1, 2


def is_pooled(st, p):
    r = st.regions.get(p.rid) if isinstance(p, PV) else None
    return r is not None and r.ghost.get("strings")


class CopyText(type(REG["string_copy_from_stringview"])):
    """one of several strings takes a text out of the mapped file: what it then holds is kept as the place and length"""

    def pre(self, c):
        if not is_pooled(c.old, c.args[0]):
            return super().pre(c)
        r = c.old.regions[c.args[0].rid]
        k, o = c.ex.resolve(c.old, r, c.args[0].off)
        d, n = c.get(c.old, c.args[1], "stringview", "data"), c.u(c.old, c.args[1], "stringview", "len")
        t = Txt(c, c.old, d)
        return [("a string", And(o == 0, k >= 1, k < r.count, r.ghost["live"].get(k) != 0)), ("a text of the file", And(z3.BoolVal(d.rid == c.ex.root.aux["map"]), t.k >= 0, t.k + n <= t.r.count))]

    def effect(self, c):
        if not is_pooled(c.old, c.args[0]):
            return super().effect(c)
        st = c.new
        r = st.regions[c.args[0].rid]
        k, o = c.ex.resolve(st, r, c.args[0].off)
        d, n = c.get(c.old, c.args[1], "stringview", "data"), c.u(c.old, c.args[1], "stringview", "len")
        t = Txt(c, c.old, d)
        for x, v in ((0, t.k), (8, n)):
            f = r.fields[x]
            r.fields[x] = (f[0], f[1], St(f[2], k, v))
        return None

    def post(self, c):
        return [] if is_pooled(c.old, c.args[0]) else super().post(c)


class TheText(type(REG["string_c_str"])):
    def pre(self, c):
        return [] if is_pooled(c.old, c.args[0]) else super().pre(c)

    def effect(self, c):
        if not is_pooled(c.old, c.args[0]):
            return super().effect(c)
        k, o = c.ex.resolve(c.new, c.new.regions[c.args[0].rid], c.args[0].off)
        return PV(c.ex.opq(c.new), Off(0, {1: CSTR(k)}))

    def post(self, c):
        return [] if is_pooled(c.old, c.args[0]) else super().post(c)


REG["string_copy_from_stringview"] = CopyText()
REG["string_c_str"] = TheText()


@contract
class _order_select_api(Contract):
    """hands out the next sorted record column by column"""
    name = "_order_select_api"
    props = ("C28",)

    def setup(self, c, st):
        p = mk_order(c, st, items=False)
        t, a = mk_file(c, st, p)
        fi, fo, fl = c.aux["E"]
        D = st.regions[c.aux["ed"]]
        D.ro = True
        T = builtins_c.mk_pool(c.ex, st, "strings", c.ex.prog.sizeof("vec"), {0: (8, "int"), 8: (8, "int")})
        T.ghost["strings"] = True
        c.ex.pools.clear()
        S = c.ex.prog.sizeof("fql_field")
        ft, fd, fs = (c.fo("fql_field", x) for x in ("type", "data", "_in"))
        vp, _ = mk_vec(c, st, "api", S=S, fields={ft[0]: ft[1], fd[0]: 8, fs[0]: 8})
        A = st.regions[c.get(st, vp, "vec", "data").rid]
        A.fields[fs[0]] = (8, ("ptr", T.rid), A.fields[fs[0]][2])
        st.regions[vp.rid].ro = True
        n = c.u(st, vp, "vec", "size")
        typ, own, live = A.fields[ft[0]][2].get, A.fields[fs[0]][2].get, T.ghost["live"].get
        i, j = z3.Int("oa_i"), z3.Int("oa_j")
        st.assume(n < 2 ** 15, forall(0, n, lambda i: And(typ(i) >= 0, typ(i) < 2 ** 32, Imp(typ(i) == FQL_STRING, And(own(i) >= 1, own(i) < T.count, live(own(i)) != 0))), pats=lambda i: typ(i)),
                  z3.ForAll([i, j], Imp(And(0 <= i, i < j, j < n, typ(i) == FQL_STRING, typ(j) == FQL_STRING), own(i) != own(j)), patterns=[z3.MultiPattern(typ(i), typ(j))]))
        o, sz = c.fo("order", "api")
        st.regions[p.rid].cells[o] = (sz, vp)
        k = fint("next")
        st.assume(k >= 0, k <= c.aux["en"])
        o, sz = c.fo("order", "entry_iter")
        st.regions[p.rid].cells[o] = (sz, PV(D.rid, Off(0, {D.stride: k})))
        s = D.fields[fo][2].get(k)
        at = lambda j: AT(s, j)
        c.aux.update(api=A.rid, an=n, typ=typ, own=own, k=k, at=at, T=T.rid, fd=fd[0])
        w = lambda j: file_word(c, at(j), 4)
        # what the SELECT wrote for the record: a number, or a length and a text, per column
        st.assume(Imp(k < c.aux["en"], And(at(I(0)) == s, s >= 0, forall(0, n, lambda j: And(at(j) >= 0, Imp(Or(typ(j) == FQL_INT, typ(j) == FQL_FLOAT), And(at(j + 1) == at(j) + 8, at(j) + 8 <= t.count)),
                  Imp(typ(j) == FQL_STRING, And(at(j + 1) == at(j) + 4 + w(j), w(j) >= 0, at(j) + 4 + w(j) <= t.count))), pats=lambda j: typ(j)))))
        return [p, mk_proc(c, st)]

    def columns(self, c, st, hi):
        """columns 0..hi have their values"""
        A, T = st.regions[c.aux["api"]], st.regions[c.aux["T"]]
        val = A.fields[c.aux["fd"]][2].get
        typ, own, at = c.aux["typ"], c.aux["own"], c.aux["at"]
        to, tl = T.fields[0][2].get, T.fields[8][2].get
        return [("integers", forall(0, hi, lambda j: Imp(typ(j) == FQL_INT, val(j) == file_word(c, at(j), 8)), pats=lambda j: typ(j))),
                ("floats", forall(0, hi, lambda j: Imp(typ(j) == FQL_FLOAT, UNBITS(val(j)) == UNBITS(file_word(c, at(j), 8))), pats=lambda j: typ(j))),
                ("texts", forall(0, hi, lambda j: Imp(typ(j) == FQL_STRING, And(val(j) == CSTR(own(j)), to(own(j)) == at(j) + 4, tl(own(j)) == file_word(c, at(j), 4))), pats=lambda j: typ(j)))]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            K = lp.K
            A = lp.st.regions[c.aux["api"]]
            at, typ = c.aux["at"], c.aux["typ"]
            t = c.old.regions[c.aux["map"]].count
            out = [("columns read", And(K >= 0, K <= c.aux["an"])), ("variant", c.aux["an"] - K)]
            for p in lp.ptrs(A.rid):
                out.append(("column reached", c.peq(p, PV(A.rid, Off(0, {A.stride: K})), lp.st)))
            for nm, v in lp.intphis():
                x = c.ex.U(lp.st, v)
                out += [("maybe", "place reached (%s)" % nm, x == at(K)), ("maybe", "counter (%s)" % nm, x == K)]
            return out + [("of a known type", forall(0, K, lambda j: And(typ(j) <= FQL_STRING), pats=lambda j: typ(j)))] + self.columns(c, lp.st, K)
        return [l0]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("a row handed out seen from a caller")
        st = c.new
        for rid, fs in ((c.aux["api"], (c.aux["fd"],)), (c.aux["T"], (0, 8))):
            r = st.regions[rid]
            for x in fs:
                f = r.fields[x]
                r.fields[x] = (f[0], f[1], Base("out"))
        c.havoc_int(st, c.args[1], "process", "rows_affected")
        o, sz = c.fo("order", "entry_iter")
        D = st.regions[c.aux["ed"]]
        st.regions[c.args[0].rid].cells[o] = (sz, PV(D.rid, Off(0, {D.stride: fint("next")})))
        return c.ex.fresh_iv(st, 32, "status", True)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        k, en, n, typ = c.aux["k"], c.aux["en"], c.aux["an"], c.aux["typ"]
        top, rows = c.u(c.old, c.args[0], "order", "top_count"), c.u(c.old, c.args[1], "process", "rows_affected")
        D = c.new.regions[c.aux["ed"]]
        end = Or(k == en, rows >= top)
        nxt = c.get(c.new, c.args[0], "order", "entry_iter")
        cnt = c.u(c.new, c.args[1], "process", "rows_affected")
        to = lambda i: c.peq(nxt, PV(D.rid, Off(0, {D.stride: i})))
        j = z3.Int("oa_k")
        return [("nothing left exactly at the end or when TOP rows were handed out", (rc == 0) == end), ("one row otherwise, or an error", Imp(Not(end), Or(rc == 1, rc == FAIL))),
                ("an error only for a column of unknown type", Imp(rc == FAIL, z3.Exists([j], And(j >= 0, j < n, typ(j) > FQL_STRING)))),
                ("then counted", cnt == z3.If(rc == 1, rows + 1, rows)), ("then passed", And(Imp(rc == 1, to(k + 1)), Imp(rc != 1, to(k))))] + \
            [("its values: " + nm, Imp(rc == 1, f)) for nm, f in self.columns(c, c.new, n)]


@contract
class order_sort(Contract):
    """sorts the records by their keys and opens their output; the rows are handed out from the first"""
    name = "order_sort"
    props = ("C28",)

    def setup(self, c, st):
        p = mk_order(c, st, items=False)
        r = st.regions[p.rid]
        for x in ("mmap", "entry_iter"):
            o, sz = c.fo("order", x)
            # left from an earlier sort, or NULL
            r.cells[o] = (sz, PV(c.ex.opq(st), Off(0, {1: fint("entry_iter")})) if x == "entry_iter" else NULL)
        for x in ("file_size", "fd", "sorted"):
            o, sz = c.fo("order", x)
            r.cells[o] = (sz, c.ex.fresh_iv(st, 8 * sz, x) if x != "sorted" else IV(8, 0))
        b = mk_str(c, st, "in_filename", ro=False, text=True)
        bo = c.fo("order", "in_filename")[0]
        for o, v in st.regions[b.rid].cells.items():
            r.cells[bo + o] = v
        st.regions[c.get(st, b, "vec", "data").rid].heap = True
        del st.regions[b.rid]
        return [p]

    frame_check = False

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("the sort seen from a caller")
        return c.ex.fresh_iv(c.new, 32, "status", True)

    def post(self, c):
        p = c.args[0]
        rc = c.ex.S(c.new, c.ret)
        g = c.new.ghost.get("sorted")
        oe = entries(c, c.old, p)
        # one record or none is in order as it is
        rid, k, m, f, x = g if g is not None else (None,) * 5
        e = c.new.regions[c.aux["ed"]]
        it = c.get(c.new, p, "order", "entry_iter")
        mm = c.get(c.new, p, "order", "mmap")
        sz = c.new.ghost.get("st_size")
        mapped = z3.BoolVal(isinstance(mm, PV) and mm.rid not in (None, "opq"))
        size = c.u(c.new, p, "order", "file_size")
        return [("all records are sorted", And(z3.BoolVal(rid == oe.data.rid), k == 0, m == oe.size) if g is not None else oe.size <= 1),
                ("by their keys", And(z3.BoolVal(isinstance(f, FnP) and f.name == "_compare"), c.peq(x, p)) if g is not None else z3.BoolVal(True)),
                ("a status", Or(rc == GOOD, rc == FAIL)),
                ("sorted once", c.u(c.new, p, "order", "sorted") == 1),
                ("the first record is the next one", Imp(rc == GOOD, c.peq(it, PV(e.rid)))),
                ("the whole output is at hand", Imp(rc == GOOD, And(sz == 0, z3.BoolVal(mm is NULL or (isinstance(mm, PV) and mm.rid is None))) if sz is not None and not z3.is_true(mapped) else And(mapped, c.new.regions[mm.rid].count == size, size == sz) if sz is not None else z3.BoolVal(False)))]
