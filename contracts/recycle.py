"""Contracts for giving rows back (lib/fqlprocesses.c, lib/record.c): a record goes back to
the ring it came from once nothing refers to it any more, and keeps the record its text
lies in until then.

A record is known by its number, and its node has the same number.  own(x) = 1 while x is in
a row or free; COPIES(x) is the number of records whose text lies in x.  The reference count
is their sum.  A record's own copies come later in RANK, so the chain of copies ends.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import z3
import builtins_c
import sx

FILE = ["lib/fqlprocesses.c", "lib/record.c"]
DEPS = []
INT = z3.IntSort()
RANK = uf("RANK", INT, INT)
ROW, AT = uf("ROW", INT, INT), uf("PLACE_IN_ROW", INT, INT)
ROOT = uf("ROOT_RING", INT, INT)
COPIES = z3.Function("COPIES", IA, INT, INT)


def rule(a, k, v, x):
    return COPIES(z3.Store(a, k, v), x) == COPIES(a, x) - z3.If(z3.Select(a, k) == x, 1, 0) + z3.If(v == x, 1, 0)


def counting():
    """what a count of the entries of an array is (proved as a lemma below)"""
    a, k, v, x = z3.Const("ca", IA), z3.Int("ck"), z3.Int("cv"), z3.Int("cx")
    return [z3.ForAll([a, k, v, x], z3.Implies(k >= 1, rule(a, k, v, x)), patterns=[COPIES(z3.Store(a, k, v), x)]),
            z3.ForAll([a, x], COPIES(a, x) >= 0, patterns=[COPIES(a, x)])]


@lemma
def a_store_changes_the_count_of_two_values():
    """COPIES(a, x) is C(a, x, n): how many of a[1..n) are x"""
    C = z3.Function("C", IA, INT, INT, INT)
    a, b = z3.Const("a", IA), z3.Const("b", IA)
    k, v, x, m = z3.Ints("k v x m")
    step = lambda s: C(s, x, m + 1) == C(s, x, m) + z3.If(z3.Select(s, m) == x, 1, 0)
    base = [C(a, x, 1) == 0, C(z3.Store(a, k, v), x, 1) == 0]
    st = z3.Store(a, k, v)
    d = z3.If(z3.Select(a, k) == x, 1, 0)
    e = z3.If(v == x, 1, 0)
    claim = lambda m: C(st, x, m) == C(a, x, m) + z3.If(k < m, e - d, 0)
    return [("none of none", base + [k >= 1], claim(I(1))), ("one more", [k >= 1, m >= 1, step(a), step(st), claim(m)], claim(m + 1)),
            ("never negative", [C(a, x, m) >= 0, step(a)], C(a, x, m + 1) >= 0)]


class S:
    """the records as they are in a state"""
    def __init__(self, c, st, copy=None, own=None, ref=None):
        a = (c.ex.root or c).aux
        R = st.regions[a["recs"]]
        self.copies = copy if copy is not None else R.fields[a["copy"]][2]
        self.refs = ref if ref is not None else R.fields[a["ref"]][2]
        self.owns = own if own is not None else st.ghost["own"]
        self.backs = st.ghost["back"]
        self.n = R.count
        arr = self.copies.z3(st.hyps)
        self.card = lambda x: COPIES(arr, x)
        self.copy, self.ref, self.own, self.back = self.copies.get, self.refs.get, self.owns.get, self.backs.get


def wf(s, top, tag="", ranks=True):
    """the books are right for all records up to a rank"""
    up = lambda x: RANK(x) <= top
    return [("references counted" + tag, forall(1, s.n, lambda x: Imp(up(x), And(s.ref(x) == s.own(x) + s.card(x), s.ref(x) >= 1, s.ref(x) <= 2 ** 31)), pats=lambda x: RANK(x))),
            ("in a row or free once" + tag, forall(1, s.n, lambda x: Imp(up(x), And(s.own(x) >= 0, s.own(x) <= 1)), pats=lambda x: RANK(x))),
            ("copies come after what they copy" + tag, forall(1, s.n, lambda x: Imp(up(x), And(s.copy(x) >= 0, s.copy(x) < s.n, Imp(s.copy(x) != 0, RANK(s.copy(x)) < RANK(x)))), pats=lambda x: RANK(x)))]


def kept(s0, s, top, inrow):
    return [("records of a higher rank stay as they are", forall(1, s.n, lambda x: Imp(RANK(x) > top, And(s.ref(x) == s0.ref(x), s.copy(x) == s0.copy(x), s.own(x) == s0.own(x), s.card(x) == s0.card(x), s.back(x) == s0.back(x))), pats=lambda x: RANK(x))),
            ("a record not given back keeps what its text lies in", forall(1, s.n, lambda x: Imp(And(RANK(x) >= 0, s.back(x) == 0), And(s0.back(x) == 0, s.copy(x) == s0.copy(x))), pats=lambda x: RANK(x))),
            ("what is in another row or free stays there", forall(1, s.n, lambda x: Imp(And(RANK(x) >= 0, s0.own(x) == 1, Not(inrow(x))), s.own(x) == 1), pats=lambda x: RANK(x)))]


def mk(c, st):
    ex = c.ex
    n = fint("records")
    R = ex.new_region(st, "arr", "record", stride=ex.prog.sizeof("record"), count=n, nullable=True, heap=True)
    N = ex.new_region(st, "arr", "node", stride=ex.prog.sizeof("node"), count=n, nullable=True, heap=True)
    F = ex.new_region(st, "arr", "ring", stride=ex.prog.sizeof("fifo"), count=fint("rings"), nullable=True, heap=True)
    T = ex.new_region(st, "arr", "roots", stride=8, count=fint("roots"), ro=True)
    st.assume(n >= 1, n < 2 ** 30, F.count >= 1, F.count < 2 ** 20, T.count >= 0, T.count < 2 ** 20)
    T.fields[0] = (8, ("ptr", F.rid), Base("roots"))
    fo = lambda x: c.fo("record", x)[0]
    R.fields[fo("ref_count")] = (4, "int", Base("ref_count"))
    R.fields[fo("rec_copy_node")] = (8, ("ptr", N.rid), Base("rec_copy_node"))
    R.fields[fo("root_fifo_idx")] = (4, "int", Base("root_fifo_idx"))
    data = c.fo("node", "data")[0]
    N.fields[data] = (8, ("ptr", R.rid), Base("data"))
    st.assume(forall(1, n, lambda x: N.fields[data][2].get(x) == x, pats=lambda x: N.fields[data][2].get(x)))
    c.aux.update(recs=R.rid, nodes=N.rid, rings=F.rid, roots=T.rid, n=n, copy=fo("rec_copy_node"), ref=fo("ref_count"), home=R.fields[fo("root_fifo_idx")][2].get, ring=T.fields[0][2].get)
    st.ghost["own"], st.ghost["back"] = Base("own"), Base("back")
    st.assume(*counting())
    rx = R.fields[fo("root_fifo_idx")][2].get
    st.assume(forall(1, n, lambda x: And(rx(x) >= 0, rx(x) < T.count), pats=lambda x: rx(x)))
    st.assume(forall(1, n, lambda x: RANK(x) >= 0, pats=lambda x: RANK(x)))
    return R, N


def number(c, st, p):
    """the number of the node or record p points to, or None"""
    if not isinstance(p, PV):
        return None
    if p.rid is None:
        return I(0)
    if p.rid not in (c.ex.root.aux["nodes"], c.ex.root.aux["recs"]):
        return None
    k, o = c.ex.resolve(st, st.regions[p.rid], p.off)
    return k if o == 0 else None


def content(c, st, p):
    """the number of the node a pointer variable holds"""
    r = st.regions.get(p.rid) if isinstance(p, PV) else None
    if r is None or r.kind != "cell":
        raise Unsupported("a row held in another kind of place")
    k = number(c, st, r.cells.get(p.off.const(), (0, None))[1])
    if k is None:
        raise Unsupported("a row held in another kind of place")
    return k


# ------------------------------------------------------------ what is called
@contract
class node_pop_export(Contract):
    """takes the first node off a row (property C11)"""
    name = "node_pop_export"
    trusted = True
    spec_only = True

    def pre(self, c):
        a = c.ex.root.aux
        return [("the row's first node is taken", And(c.peq(c.args[0], c.ex.root.args[1]), c.old.ghost["pos"] < a["len"]))]

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        p = st.ghost["pos"]
        st.ghost["pos"] = p + 1
        st.ghost["own"] = sx.St(st.ghost["own"], ROW(p), I(0))
        k = fint("next")
        st.assume(k == z3.If(p + 1 < a["len"], ROW(p + 1), I(0)))
        N = st.regions[a["nodes"]]
        c.ex.store_cell(st, st.regions[c.args[0].rid], c.args[0].off.const(), 8, PV(N.rid, Off(0, {N.stride: k})))
        return PV(N.rid, Off(0, {N.stride: ROW(p)}))


@contract
class vec_at(Contract):
    """the ring of a root (property C06)"""
    name = "vec_at"
    trusted = True
    spec_only = True

    def pre(self, c):
        a = c.ex.root.aux
        return [("of the roots", c.peq(c.args[0], a["rootvec"])), ("there is such a root", c.ex.U(c.old, c.args[1]) < c.old.regions[a["roots"]].count)]

    def effect(self, c):
        return PV(c.ex.root.aux["roots"], Off(0, {8: c.ex.U(c.new, c.args[1])}))


@contract
class fifo_add(Contract):
    """puts a record back into a ring (property C12)"""
    name = "fifo_add"
    trusted = True
    spec_only = True

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        k = content(c, st, c.args[1])
        F = st.regions[a["rings"]]
        s = S(c, st)
        ob = lambda nm, f: c.ex.oblige(st, f, "pre", nm + " {C31}")
        ob("a record is given back once, by whom its row was given to", And(k >= 1, k < s.n, RANK(k) <= a["top"], s.own(k) == 0))
        ob("to the ring it came from", c.peq(c.args[0], PV(F.rid, Off(0, {F.stride: a["ring"](a["home"](k))}))))
        ob("when no record's text lies in it", s.card(k) == 0)
        ob("with one reference for its next use", s.ref(k) == 1)
        ob("and without a record its text lies in", s.copy(k) == 0)
        st.ghost["own"] = sx.St(st.ghost["own"], k, I(1))
        st.ghost["back"] = sx.St(st.ghost["back"], k, I(1))
        return None


# ------------------------------------------------------------ giving a row back
@contract
class fqlprocess_recycle(Contract):
    """every record of the row is given up; the ones nothing refers to any more are given back, and only they lose what their text lies in"""
    name = "fqlprocess_recycle"
    props = ("C32",)
    frame_check = False
    leak_check = False
    lemmas = ("a_store_changes_the_count_of_two_values",)
    cases = [("", {})]

    def setup(self, c, st):
        ex = c.ex
        R, N = mk(c, st)
        pr = ex.new_region(st, "cell", "process", size=ex.prog.sizeof("process"), ro=True)
        v = ex.new_region(st, "cell", "rootvec", size=ex.prog.sizeof("vec"), ro=True)
        o, w = c.fo("process", "rootvec_ref")
        pr.cells[o] = (w, PV(v.rid))
        ln, top = fint("length"), fint("top")
        rg = ex.new_region(st, "cell", "row", size=8)
        k = fint("first")
        st.assume(ln >= 0, k == z3.If(ln > 0, ROW(I(0)), I(0)))
        rg.cells[0] = (8, PV(N.rid, Off(0, {N.stride: k})))
        st.ghost["pos"] = I(0)
        c.aux.update(len=ln, top=top, rootvec=PV(v.rid))
        own = st.ghost["own"].get
        st.assume(forall(0, ln, lambda j: And(ROW(j) >= 1, ROW(j) < c.aux["n"], RANK(ROW(j)) <= top, AT(ROW(j)) == j, own(ROW(j)) == 1), pats=lambda j: ROW(j)))
        st.assume(*[f for _, f in wf(S(c, st), top)])
        return [PV(pr.rid), PV(rg.rid)]

    def inrow(self, c, x, lo=None):
        j = AT(x)
        return And(j >= 0, j < (c.aux["len"] if lo is None else lo), ROW(j) == x)

    # as called for the record a text lies in
    def call_state(self, c, st):
        k = content(c, st, c.args[1])
        a = c.ex.root.aux
        s = S(c, st)
        return k, S(c, st, own=sx.St(s.owns, k, I(1)))

    def pre(self, c):
        if c.mode == "verify":
            return []
        st, a = c.old, c.ex.root.aux
        k, s = self.call_state(c, st)
        c.aux["k"] = k
        return [("by this process", c.peq(c.args[0], c.ex.root.args[0])), ("a record in no row, below this one's rank", And(k >= 1, k < s.n, s.card(k) >= 0, S(c, st).own(k) == 0, RANK(k) < a["top"]))] + wf(s, RANK(k))

    def measure(self, c):
        return c.aux["top"] if c.mode == "verify" else RANK(content(c, c.old, c.args[1]))

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        k, s = self.call_state(c, st)
        st.ghost["own"] = s.owns
        s0 = S(c, st)
        R = st.regions[a["recs"]]
        for x in (a["ref"], a["copy"]):
            f = R.fields[x]
            R.fields[x] = (f[0], f[1], Base("after"))
        st.ghost["own"], st.ghost["back"] = Base("own"), Base("back")
        s1 = S(c, st)
        for nm, f in wf(s1, RANK(k)) + kept(s0, s1, RANK(k), lambda x: x == k):
            st.assume(f)
        c.ex.store_cell(st, st.regions[c.args[1].rid], c.args[1].off.const(), 8, NULL)
        return None

    @property
    def loops(self):
        def l0(lp):
            c, st, a = lp.root, lp.st, lp.root.aux
            p, ln, n = st.ghost["pos"], a["len"], a["n"]
            s, s0 = S(c, st), S(c, c.entry if hasattr(c, "entry") else c.old)
            cell = lp.root.args[1]
            k = content(c, st, cell)
            return [("records taken", And(p >= 0, p <= ln)), ("the row begins at the next one", k == z3.If(p < ln, ROW(p), I(0))), ("variant", ln - p),
                    ("the rest of the row is as it was", forall(p, ln, lambda j: s.own(ROW(j)) == 1, pats=lambda j: ROW(j)))] + \
                wf(s, a["top"]) + kept(s0, s, a["top"], lambda x: self.inrow(c, x, p))
        return [l0]

    def post(self, c):
        if c.mode != "verify":
            return []
        a = c.aux
        s0, s = S(c, c.old), S(c, c.new)
        return [("the whole row is taken", And(c.new.ghost["pos"] == a["len"], content(c, c.new, c.args[1]) == 0))] + wf(s, a["top"]) + kept(s0, s, a["top"], lambda x: self.inrow(c, x))


# ------------------------------------------------------------ a copy
class Fields(Contract):
    """(property C06)"""
    trusted = True
    spec_only = True

    def effect(self, c):
        c.new.ghost["fields"] = c.new.ghost.get("fields", ()) + ((self.name,) + tuple(c.args),)
        return None


@contract
class vec_clear(Fields):
    """empties a list of fields"""
    name = "vec_clear"


@contract
class vec_extend(Fields):
    """appends the fields of another list"""
    name = "vec_extend"


@contract
class record_copy(Contract):
    """the copy has the fields and the numbers of the record it is of, refers to it, and counts there once more"""
    name = "record_copy"
    props = ("C32",)
    frame_check = False
    leak_check = False
    cases = [("", {"chain": False}), ("of a copy", {"chain": True})]

    def setup(self, c, st):
        ex = c.ex
        cell = lambda nm, ty: ex.new_region(st, "cell", nm, size=ex.prog.sizeof(ty))
        me, src, nd = cell("copy", "record"), cell("source", "record"), cell("source_node", "node")
        o, w = c.fo("node", "data")
        nd.cells[o] = (w, PV(src.rid))
        for r in (me, src):
            for x, b in (("src_idx", 32), ("rec_idx", 32), ("ref_count", 32), ("node_idx", 32), ("root_fifo_idx", 32)):
                o, w = c.fo("record", x)
                r.cells[o] = (w, ex.fresh_iv(st, b, x))
            o, w = c.fo("record", "rec_ref")
            t = ex.new_region(st, "arr", "text", stride=1, count=fint("len"), ro=True)
            r.cells[o] = (8, PV(t.rid))
            r.cells[o + 8] = (4, ex.fresh_iv(st, 32, "len"))
            o, w = c.fo("record", "rec_copy_node")
            r.cells[o] = (w, NULL)
        if c.case["chain"]:
            other = cell("copied", "node")
            src.cells[c.fo("record", "rec_copy_node")[0]] = (8, PV(other.rid))
        st.assume(c.u(st, PV(src.rid), "record", "ref_count") < 2 ** 31)
        c.aux.update(src=PV(src.rid), node=PV(nd.rid))
        return [PV(me.rid), PV(nd.rid)]

    def post(self, c):
        if c.mode != "verify":
            return []
        me, src = c.args[0], c.aux["src"]
        u = lambda st, p, x: c.u(st, p, "record", x)
        f = c.fo("record", "fields")[0]
        rr = c.fo("record", "rec_ref")[0]
        at = lambda p, o: c.new.regions[p.rid].cells[o][1]
        fields = lambda p: PV(p.rid, p.off + Off(f))
        ev = c.new.ghost.get("fields", ())
        ok = len(ev) == 2 and ev[0][0] == "vec_clear" and ev[1][0] == "vec_extend"
        return [("refers to the record it is of", c.peq(c.get(c.new, me, "record", "rec_copy_node"), c.aux["node"])),
                ("which counts it", u(c.new, src, "ref_count") == u(c.old, src, "ref_count") + 1),
                ("which refers to what it did", And(c.peq(c.get(c.new, src, "record", "rec_copy_node"), c.get(c.old, src, "record", "rec_copy_node")), u(c.new, src, "root_fifo_idx") == u(c.old, src, "root_fifo_idx"))),
                ("its own references stay", u(c.new, me, "ref_count") == u(c.old, me, "ref_count")),
                ("it goes back to its own root", And(u(c.new, me, "root_fifo_idx") == u(c.old, me, "root_fifo_idx"), u(c.new, me, "node_idx") == u(c.old, me, "node_idx"))),
                ("the same source and row", And(u(c.new, me, "src_idx") == u(c.old, src, "src_idx"), u(c.new, me, "rec_idx") == u(c.old, src, "rec_idx"))),
                ("the same text", And(c.peq(at(me, rr), c.old.regions[src.rid].cells[rr][1]), c.ex.U(c.new, at(me, rr + 8)) == c.ex.U(c.old, c.old.regions[src.rid].cells[rr + 8][1]))),
                ("the same fields", And(z3.BoolVal(ok), c.peq(ev[0][1], fields(me)), c.peq(ev[1][1], fields(me)), c.peq(ev[1][2], fields(src))) if ok else z3.BoolVal(False))]
