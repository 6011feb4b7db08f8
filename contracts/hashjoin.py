"""Contracts for the hash join (lib/fqlprocesses.c, lib/table.c).

The rows a process reads are a sequence: begin, iter and end walk it (property C12 is the
ring they lie in).  Row j is a node; an expression's value on it is given by spec functions
of the node (property C25 says what it is).  The multimap is a log of what is put in
(property C04: it hands back per key what was put in under it, in order).
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
import sx
from strs import *
from vec import mk_vec, replace_data

FILE = ["lib/fqlprocesses.c", "lib/table.c", "util/vec.c", "util/stringview.c"]
DEPS = ["vec", "stringview"]
INT = z3.IntSort()
BITS = uf("f2bits", FS, INT)
NAN = uf("f_nan", FS, BOOL)
TEXT = z3.Function("TEXT_OF", IA, INT, INT, INT)
FAIL, NULL_, GOOD = -5, -1, 0
T_INT, T_FLOAT, T_STRING = 0, 1, 2
KIND = {T_INT: "i", T_FLOAT: "f", T_STRING: "s"}
ROWST = {x: uf("KEY_STATUS_" + x, INT, INT) for x in "ifs"}       # of the row's node
ROWI, ROWF, ROWT, ROWL = uf("KEY_INT", INT, INT), uf("KEY_FLOAT", INT, FS), uf("KEY_TEXT", INT, IA), uf("KEY_LENGTH", INT, INT)
CNT = uf("ROWS_WITH_KEYS_BEFORE", INT, INT)
MATCHES, BADKEY, PLACE = uf("MATCHES", INT, INT), uf("KEY_FAILS", INT, BOOL), uf("PLACE_OF_MATCH", INT, INT, INT)
LEFT_TO_DO = uf("LEFT_TO_SEND", INT, INT)
LENGTH, BACK = uf("SOURCES_OF", INT, INT), uf("SOURCE_FROM_BACK", INT, INT, INT)     # of the row a node starts
RIGHT, LEFT = 2, 1
CASES = [(x, {"t": t}) for t, x in ((T_INT, "integers"), (T_FLOAT, "floats"), (T_STRING, "texts"))]


def n_of(c, st, x):
    return c.ex.U(st, st.regions[c.ex.root.aux[x]].cells[0][1])


def set_n(st, root, x, v):
    st.regions[root.aux[x]].cells[0] = (8, IV(64, v, u=True))


def u64(x):
    return z3.If(x < 0, x + 2 ** 64, x)


def canon(c, x):
    """the same bits for equal floats: -0 + 0 = 0"""
    return BITS(uf("fadd", FS, FS, FS)(x, c.ex.fconst(0.0)))


def keyval(c, t, k):
    """what stands for the key of the row with node k in the multimap"""
    return u64(ROWI(k)) if t == T_INT else canon(c, ROWF(k)) if t == T_FLOAT else TEXT(ROWT(k), I(0), ROWL(k))


def has_key(t, k):
    """the row has a key that can be equal to another"""
    g = ROWST[KIND[t]](k) == GOOD
    return And(g, Not(NAN(ROWF(k)))) if t == T_FLOAT else g


# ------------------------------------------------------------ what is called
class Eval(Contract):
    """the value of the join's key on a row (property C25)"""
    trusted = True
    spec_only = True
    kind = "i"

    def pre(self, c):
        r = c.ex.getr(c.old, c.args[0], "value")
        o = c.args[0].off.const()
        n = c.args[2]
        ok = isinstance(n, PV) and n.rid == c.ex.root.aux["nodes"]
        return [("the key of this side", c.peq(c.args[1], c.ex.root.aux["key"])), ("on a row", z3.BoolVal(ok)),
                ("room for the value", z3.BoolVal(r.kind == "cell" and not r.ro and o is not None and 0 <= o and o + (16 if self.kind == "s" else 8) <= r.size))]

    def effect(self, c):
        st = c.new
        k, _ = c.ex.resolve(st, st.regions[c.args[2].rid], c.args[2].off)
        rc = c.ex.fresh_iv(st, 32, "status", True)
        s = c.ex.S(st, rc)
        st.assume(s == ROWST[self.kind](k), Or(s == GOOD, s == NULL_, s == FAIL))
        self.store(c, st, k, s)
        st.ghost["evaluated"] = st.ghost.get("evaluated", 0) + 1
        return rc


@contract
class expression_get_int(Eval):
    name = "expression_get_int"

    def store(self, c, st, k, s):
        v = c.ex.fresh_iv(st, 64, "key", True)
        st.assume(Imp(s == GOOD, c.ex.S(st, v) == ROWI(k)))
        c.ex.store_cell(st, st.regions[c.args[0].rid], c.args[0].off.const(), 8, v)


@contract
class expression_get_float(Eval):
    name = "expression_get_float"
    kind = "f"

    def store(self, c, st, k, s):
        v = FV(z3.Const(fresh_name("key"), FS))
        st.assume(Imp(s == GOOD, v.t == ROWF(k)))
        c.ex.store_cell(st, st.regions[c.args[0].rid], c.args[0].off.const(), 8, v)


@contract
class expression_get_stringview(Eval):
    name = "expression_get_stringview"
    kind = "s"

    def store(self, c, st, k, s):
        n = ROWL(k)
        r = c.ex.new_region(st, "arr", "text", stride=1, count=n, ro=True)
        a = Base("text")
        a.a = ROWT(k)
        r.fields[0] = (1, "int", a)
        st.assume(n >= 0, n < 2 ** 31)
        l = c.ex.fresh_iv(st, 32, "len")
        st.assume(c.ex.U(st, l) == n)
        # without a value the view is left as it is
        sv = c.args[0]
        for good in (True,):
            c.set(st, sv, "stringview", "data", PV(r.rid))
            c.set(st, sv, "stringview", "len", l)


def key_of(c, st, p, n):
    """(value standing for the n bytes at p, obligations)"""
    r = c.ex.getr(st, p, "key")
    if r.kind == "cell":
        v = r.cells.get(p.off.const(), (0, None))
        if v[0] != 8 or isinstance(v[1], PV) or v[1] is None:
            raise Unsupported("key of another kind")
        return (BITS(v[1].t) if isinstance(v[1], FV) else c.ex.U(st, v[1])), [("a number's bytes", n == 8)]
    k, _ = c.ex.resolve(st, r, p.off)
    return TEXT(r.fields[0][2].z3(st.hyps), k, n), [("key: bytes", And(k >= 0, k + n <= r.count))]


@contract
class multimap_nset(Contract):
    """puts an item in under a key (property C04)"""
    name = "multimap_nset"
    trusted = True
    spec_only = True

    def pre(self, c):
        key, ob = key_of(c, c.old, c.args[1], c.ex.U(c.old, c.args[3]))
        self.item(c, c.old)
        return [("the join's map", c.peq(c.args[0], c.ex.root.aux["map"]))] + ob

    def item(self, c, st):
        """the number the item points to"""
        r = c.ex.getr(st, c.args[2], "item")
        if r.kind == "cell":
            v = r.cells.get(c.args[2].off.const(), (0, None))
            if v[0] != 8 or not isinstance(v[1], IV):
                raise Unsupported("item of another kind")
            return c.ex.U(st, v[1])
        k, o = c.ex.resolve(st, r, c.args[2].off)
        if o not in r.fields or r.fields[o][0] != 8:
            raise Unsupported("item of another kind")
        return r.fields[o][2].get(k)

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        key, _ = key_of(c, st, c.args[1], c.ex.U(st, c.args[3]))
        L, N = st.regions[a["log"]], st.regions[a["logn"]]
        n = c.ex.U(st, N.cells[0][1])
        for x, v in ((0, key), (8, self.item(c, st))):
            f = L.fields[x]
            L.fields[x] = (f[0], f[1], St(f[2], n, v))
        N.cells[0] = (8, IV(64, n + 1, u=True))
        return None


class Walk(Contract):
    trusted = True
    spec_only = True

    def sfx(self, c):
        """of which of two inputs, where both are walked"""
        a = c.ex.root.aux
        return "1" if a.get("two") and c.args[0].rid == a["in1"].rid else ""

    def pre(self, c):
        return [("the rows of this side", c.peq(c.args[0], c.ex.root.aux["in" + self.sfx(c)])), ("not before they are read", z3.BoolVal(c.ex.root.aux.get("side") in (None, LEFT)))]

    def at(self, c, st, k):
        return PV(c.ex.root.aux["rows" + self.sfx(c)], Off(0, {8: k}))

    def pos(self, c, st):
        return n_of(c, st, "pos" + self.sfx(c))


@contract
class fifo_begin(Walk):
    """the first row that waits (property C12)"""
    name = "fifo_begin"

    def effect(self, c):
        set_n(c.new, c.ex.root, "pos" + self.sfx(c), I(0))
        if c.ex.root.aux.get("two"):
            c.new.ghost["walk"] = self.sfx(c)
        return self.at(c, c.new, I(0))


@contract
class fifo_iter(Walk):
    """the next row"""
    name = "fifo_iter"

    def pre(self, c):
        out = super().pre(c) + [("not past the last row", self.pos(c, c.old) < c.ex.root.aux["n" + self.sfx(c)])]
        con = c.ex.root.con
        if hasattr(con, "row_done"):
            out += [(nm + " {%s}" % con.props[0], f) for nm, f in con.row_done(c)]
        elif "handed" in c.ex.root.aux:
            m, o = MATCHES(c.ex.root.aux["nd"](self.pos(c, c.old))), n_of(c, c.old, "out")
            out += [("a row is left when it has gone out with every match, or once without {C26}", z3.If(m > 0, o == m, o == 1))]
        return out

    def effect(self, c):
        p = self.pos(c, c.new) + 1
        for x in ("handed", "out"):
            if x in c.ex.root.aux:
                set_n(c.new, c.ex.root, x + self.sfx(c), I(0))
        set_n(c.new, c.ex.root, "pos" + self.sfx(c), p)
        return self.at(c, c.new, p)


@contract
class fifo_end(Walk):
    """behind the last row"""
    name = "fifo_end"

    def effect(self, c):
        return self.at(c, c.new, c.ex.root.aux["n" + self.sfx(c)])


@contract
class fifo_update(Walk):
    """the rows walked over are done"""
    name = "fifo_update"

    def effect(self, c):
        x = "updated" + self.sfx(c)
        c.new.ghost[x] = c.new.ghost.get(x, ()) + (self.pos(c, c.new),)
        return None


@contract
class fqlprocess_recycle(Contract):
    """gives a row back to where rows come from"""
    name = "fqlprocess_recycle"
    trusted = True
    spec_only = True

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        if hasattr(c.ex.root.con, "recycled"):
            c.ex.oblige(st, c.peq(c.args[0], c.ex.root.args[0]), "pre", "this process gives rows back")
            return c.ex.root.con.recycled(c)
        if "handed" in a:
            p = n_of(c, st, "pos")
            c.ex.oblige(st, And(c.peq(c.args[1], PV(a["rows"], Off(0, {8: p}))), c.peq(c.args[0], c.ex.root.args[0]), MATCHES(a["nd"](p)) == 0, z3.BoolVal(not a["false"]), a["jt"] != JOIN_LEFT, n_of(c, st, "out") == 0),
                        "pre", "only a row without a match that nobody waits for is given back {C26}")
            set_n(st, c.ex.root, "out", I(1))
            return None
        N = st.regions[a["recn"]]
        n = c.ex.U(st, N.cells[0][1])
        c.ex.oblige(st, And(c.peq(c.args[1], PV(a["rows"], Off(0, {8: n}))), c.peq(c.args[0], c.ex.root.args[0])), "pre", "every row is given back once, in turn {C26}")
        N.cells[0] = (8, IV(64, n + 1, u=True))
        return None


# ------------------------------------------------------------ the join
class Join(Contract):
    props = ("C26",)
    frame_check = False

    def mk(self, c, st, t, continuing=False):
        ex = c.ex
        cell = lambda nm, ty, ro=True: ex.new_region(st, "cell", nm, size=ex.prog.sizeof(ty) if isinstance(ty, str) else ty, ro=ro)

        def put(r, ty, x, v):
            o, sz = c.fo(ty, x)
            r.cells[o] = (sz, v)
        R = builtins_c.mk_pool(ex, st, "records", ex.prog.sizeof("record"), {c.fo("record", "offset")[0]: (8, "int")})
        N = builtins_c.mk_pool(ex, st, "nodes", ex.prog.sizeof("node"), {c.fo("node", "data")[0]: (8, ("ptr", R.rid))})
        ex.pools.clear()
        hj, tb, pr, mp = cell("join", "hashjoin", False), cell("table", "table"), cell("process", "process"), cell("map", "hashmap")
        le, re_ = cell("left_key", "expression"), cell("right_key", "expression")
        put(tb, "table", "join_data", PV(hj.rid))
        for x, v in (("left_expr", PV(le.rid)), ("right_expr", PV(re_.rid)), ("hash_data", PV(mp.rid)), ("comp_type", IV(32, t, u=True)), ("recs", NULL),
                     ("rec_idx", ex.fresh_iv(st, 32, "rec_idx")), ("state", ex.fresh_iv(st, 32, "state"))):
            put(hj, "hashjoin", x, v)
        ex_, nd = N.fields[c.fo("node", "data")[0]][2].get, N.ghost["live"].get
        rl = R.ghost["live"].get
        c.aux.update(nodes=N.rid, recs=R.rid, nstride=N.stride, rstride=R.stride, map=PV(mp.rid), join=PV(hj.rid), table=PV(tb.rid), left=PV(le.rid), right=PV(re_.rid), rec=ex_,
                     off=R.fields[c.fo("record", "offset")[0]][2].get)
        return pr, tb, hj, N, R


@contract
class _hash_join_right_side(Join):
    """keeps the place of every row of the joined table under its key; a row without a key is equal to nothing"""
    name = "_hash_join_right_side"
    cases = CASES

    def setup(self, c, st):
        t = c.case["t"]
        ex = c.ex
        pr, tb, hj, N, R = self.mk(c, st, t)
        fi = ex.new_region(st, "cell", "in", size=ex.prog.sizeof("fifo"))
        n = fint("rows")
        rows = ex.new_region(st, "arr", "rows", stride=8, count=n, ro=True)
        rows.fields[0] = (8, ("ptr", N.rid), Base("rows"))
        nd = rows.fields[0][2].get
        rec = c.aux["rec"]
        nl, rl = N.ghost["live"].get, R.ghost["live"].get
        st.assume(n >= 0, n < 2 ** 31, forall(0, n, lambda j: And(nd(j) >= 1, nd(j) < N.count, nl(nd(j)) != 0, rec(nd(j)) >= 1, rec(nd(j)) < R.count, rl(rec(nd(j))) != 0), pats=lambda j: nd(j)))
        st.assume(CNT(I(0)) == 0, forall(0, n, lambda j: CNT(j + 1) == CNT(j) + z3.If(has_key(t, nd(j)), I(1), I(0)), pats=lambda j: nd(j)))
        log = ex.new_region(st, "arr", "kept", stride=16, count=I(2 ** 40))
        for o in (0, 8):
            log.fields[o] = (8, "int", Base("kept%d" % o))
        for nm in ("logn", "pos", "recn"):
            r = ex.new_region(st, "cell", nm, size=8)
            r.cells[0] = (8, IV(64, 0, u=True))
            c.aux[nm] = r.rid
        c.aux.update(rows=rows.rid, n=n, nd=nd, log=log.rid, key=c.aux["right"])
        c.aux["in"] = PV(fi.rid)
        return [PV(pr.rid), PV(tb.rid), PV(fi.rid)]

    def kept(self, c, st, hi):
        t, a = c.case["t"], c.aux
        L = st.regions[a["log"]]
        key, off = L.fields[0][2].get, L.fields[8][2].get
        nd = a["nd"]
        n = lambda x: c.ex.U(st, st.regions[a[x]].cells[0][1])
        return [("only rows with keys are kept", n("logn") == CNT(hi)), ("counted up", forall(0, hi, lambda j: And(CNT(j) >= 0, CNT(j) + z3.If(has_key(t, nd(j)), I(1), I(0)) <= CNT(hi)), pats=lambda j: nd(j))),
                ("every row with a key is kept in turn, its place under its key", forall(0, hi, lambda j: Imp(has_key(t, nd(j)), And(key(CNT(j)) == keyval(c, t, nd(j)), off(CNT(j)) == a["off"](a["rec"](nd(j))))), pats=lambda j: nd(j))),
                ("no key failed", forall(0, hi, lambda j: ROWST[KIND[t]](nd(j)) != FAIL, pats=lambda j: nd(j))),
                ("every row is given back", n("recn") == hi), ("count", CNT(hi) >= 0)]

    @property
    def loops(self):
        def l0(lp):
            c, K = lp.root, lp.K
            st = lp.st
            n = c.aux["n"]
            out = [("rows read", And(K >= 0, K <= n, c.ex.U(st, st.regions[c.aux["pos"]].cells[0][1]) == K)), ("variant", n - K)]
            for p in lp.ptrs(c.aux["rows"]):
                out.append(("maybe", "row reached", c.peq(p, PV(c.aux["rows"], Off(0, {8: K})), st)))
            return out + self.kept(c, st, K)
        return [l0]

    def pre(self, c):
        if c.mode == "verify":
            return []
        a = c.ex.root.aux
        return [("this join's joined table", And(c.peq(c.args[1], a["table"]), c.peq(c.args[2], a["in1"]), c.peq(c.args[0], c.ex.root.args[0]))), ("while it is read", z3.BoolVal(a["side"] == RIGHT))]

    def effect(self, c):
        if c.mode == "call":
            c.new.ghost["read_right"] = c.new.ghost.get("read_right", 0) + 1
        return c.ex.fresh_iv(c.new, 32, "result", True)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        if c.mode != "verify":
            return [("waits for more rows, or an error", Or(rc == 3, rc == FAIL))]
        t, n, nd = c.case["t"], c.aux["n"], c.aux["nd"]
        j = z3.Int("hj_j")
        up = c.new.ghost.get("updated", ())
        return [("waits for more rows, or an error", Or(rc == 3, rc == FAIL)), ("an error only for a key that fails", Imp(rc == FAIL, z3.Exists([j], And(j >= 0, j < n, ROWST[KIND[t]](nd(j)) == FAIL)))),
                ("the rows are done", Imp(rc == 3, And(z3.BoolVal(len(up) == 1), up[0] == n if up else z3.BoolVal(False))))] + \
            [(nm, Imp(rc == 3, f)) for nm, f in self.kept(c, c.new, n)]


@contract
class hashmap_nget(Contract):
    """what was put in under a key, or NULL (property C04)"""
    name = "hashmap_nget"
    trusted = True
    spec_only = True

    def pre(self, c):
        _, ob = key_of(c, c.old, c.args[1], c.ex.U(c.old, c.args[2]))
        return [("the join's map", c.peq(c.args[0], c.ex.root.aux["map"]))] + ob

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        key, _ = key_of(c, st, c.args[1], c.ex.U(st, c.args[2]))
        has = z3.Bool(fresh_name("found"))
        s2 = st.copy()
        for s, p, h in ((st, a["vec"], True), (s2, NULL, False)):
            s.ghost["asked"] = s.ghost.get("asked", ()) + ((key, h),)
        return [(st, a["vec"]), (s2, NULL)]


@contract
class _hash_join_left_side(Join):
    """the place of the next row of the joined table with this row's key, or -1"""
    name = "_hash_join_left_side"
    cases = [(x + y, dict(d, more=m)) for x, d in CASES for y, m in (("", False), (", more matches", True))]

    def setup(self, c, st):
        t = c.case["t"]
        ex = c.ex
        pr, tb, hj, N, R = self.mk(c, st, t)
        vp, _ = mk_vec(c, st, "matches", S=8, fields={0: 8}, ro=True)
        d = st.regions[c.get(st, vp, "vec", "data").rid]
        sz = c.u(st, vp, "vec", "size")
        st.assume(sz >= 1, sz < 2 ** 32, forall(0, sz, lambda i: d.fields[0][2].get(i) < 2 ** 63, pats=lambda i: d.fields[0][2].get(i)))
        k = fint("row")
        st.assume(And(k >= 1, k < N.count, N.ghost["live"].get(k) != 0))
        c.aux.update(vec=vp, size=sz, item=d.fields[0][2].get, k=k, key=c.aux["left"])
        if c.case["more"]:
            o, w = c.fo("hashjoin", "recs")
            hj.cells[o] = (w, vp)
            st.assume(c.u(st, PV(hj.rid), "hashjoin", "rec_idx") < sz)
        return [PV(pr.rid), PV(tb.rid), PV(N.rid, Off(0, {N.stride: k}))]

    def recs(self, c, st):
        return c.get(st, c.ex.root.aux["join"], "hashjoin", "recs")

    def step(self, c, failed, m, place, i):
        """a row with m matches of which i are handed over: the next one"""
        rc, idx = c.ex.S(c.new, c.ret), c.u(c.new, c.ex.root.aux["join"], "hashjoin", "rec_idx")
        recs = self.recs(c, c.new)
        return [("a key that fails is an error", (rc == FAIL) == failed), ("no match", Imp(And(Not(failed), m == 0), And(rc == -1, c.peq(recs, NULL)))),
                ("the place of the match", Imp(And(Not(failed), m > 0), rc == place(i))), ("then the next match", Imp(And(Not(failed), m > 0, i + 1 < m), And(c.peq(recs, c.ex.root.aux["vec"]), idx == i + 1))),
                ("or no more", Imp(And(Not(failed), m > 0, i + 1 >= m), c.peq(recs, NULL)))]

    def pre(self, c):
        if c.mode == "verify":
            return []
        a, st = c.ex.root.aux, c.old
        p, i = n_of(c, st, "pos"), n_of(c, st, "handed")
        return [("this join", And(c.peq(c.args[1], a["table"]), c.peq(c.args[0], c.ex.root.args[0]))), ("a row that waits", p < a["n"]), ("the row in turn", c.peq(c.args[2], PV(a["nodes"], Off(0, {a["nstride"]: a["nd"](p)})))),
                ("what was handed over has gone out", i == n_of(c, st, "out")),
                ("where the matches have come to", And(c.peq(self.recs(c, st), NULL) == (i == 0), Imp(i > 0, And(c.peq(self.recs(c, st), a["vec"]), c.u(st, a["join"], "hashjoin", "rec_idx") == i))))]

    def effect(self, c):
        if c.mode != "call":
            return c.ex.fresh_iv(c.new, 64, "result", True)
        a, st = c.ex.root.aux, c.new
        p, i = n_of(c, st, "pos"), n_of(c, st, "handed")
        m, bad = MATCHES(a["nd"](p)), BADKEY(a["nd"](p))
        out = []
        for nm, cond, recs, j in (("fails", bad, None, i), ("none", And(Not(bad), m == 0), NULL, i), ("last", And(Not(bad), m > 0, i + 1 >= m), NULL, i + 1), ("more", And(Not(bad), m > 0, i + 1 < m), a["vec"], i + 1)):
            s = st.copy()
            s.assume(cond)
            if recs is not None:
                c.set(s, a["join"], "hashjoin", "recs", recs)
                v = c.ex.fresh_iv(s, 32, "rec_idx")
                c.set(s, a["join"], "hashjoin", "rec_idx", v)
                s.assume(Imp(z3.BoolVal(nm == "more"), c.ex.U(s, v) == i + 1))
            set_n(s, c.ex.root, "handed", j)
            s.ghost["match"] = I(-1) if nm in ("fails", "none") else PLACE(a["nd"](p), i)
            rc = c.ex.fresh_iv(s, 64, "place", True)
            s.assume(c.ex.S(s, rc) == (FAIL if nm == "fails" else -1 if nm == "none" else PLACE(a["nd"](p), i)))
            out.append((s, rc))
        return out

    def post(self, c):
        if c.mode != "verify":
            a = c.ex.root.aux
            p, i = n_of(c, c.old, "pos"), n_of(c, c.old, "handed")
            return self.step(c, BADKEY(a["nd"](p)), MATCHES(a["nd"](p)), lambda i: PLACE(a["nd"](p), i), i)
        t, k, sz, item = c.case["t"], c.aux["k"], c.aux["size"], c.aux["item"]
        st, hj = c.new, c.aux["join"]
        asked = st.ghost.get("asked", ())
        if c.case["more"]:
            return self.step(c, z3.BoolVal(False), sz, item, c.u(c.old, hj, "hashjoin", "rec_idx")) + [("the key is not looked at again", z3.BoolVal(not asked and not st.ghost.get("evaluated")))]
        s = ROWST[KIND[t]](k)
        if not asked:
            return self.step(c, s == FAIL, I(0), item, I(0)) + [("NULL equals nothing", s != GOOD)]
        key, has = asked[0]
        return self.step(c, s == FAIL, sz if has else I(0), item, I(0)) + [("asked once", z3.BoolVal(len(asked) == 1)), ("NULL equals nothing", s == GOOD), ("the row's key is looked up", key == keyval(c, t, k))]


ROOM, FULL = I(1), I(2)     # what an output answered since something was last sent to it (0: not asked)


class Fifo(Contract):
    trusted = True
    spec_only = True


@contract
class fifo_is_empty(Fifo):
    """no rows wait"""
    name = "fifo_is_empty"

    def effect(self, c):
        a = c.ex.root.aux
        if a.get("queried") is not None:
            return c.ex.root.con.is_empty(c)
        c.ex.oblige(c.new, c.peq(c.args[0], a["in1"] if a["side"] == RIGHT else a["in"]), "pre", "the side that is read is asked {C26}")
        v = c.ex.fresh_iv(c.new, 1, "empty")
        c.new.assume((c.ex.U(c.new, v) != 0) == (a["n"] == 0))
        return v


@contract
class fifo_receivable(Fifo):
    """how many rows an output can take"""
    name = "fifo_receivable"

    def effect(self, c):
        a = c.ex.root.aux
        v = c.ex.fresh_iv(c.new, 32, "receivable")
        one = c.peq(c.args[0], a["out_true"])
        c.ex.oblige(c.new, Or(one, c.peq(c.args[0], a["out_false"])), "pre", "an output is asked")
        for x, is_ in (("room_true", one), ("room_false", Not(one))):
            set_n(c.new, c.ex.root, x, z3.If(is_, z3.If(c.ex.U(c.new, v) > 0, ROOM, FULL), n_of(c, c.new, x)))
        return v


@contract
class fifo_get_or_wait(Fifo):
    """a spare row, no part of any other"""
    name = "fifo_get_or_wait"

    def pre(self, c):
        return [("the process's own spare rows", c.peq(c.args[0], c.ex.root.aux["aux"]))]

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        k = fint("spare")
        N = st.regions[a["nodes"]]
        st.assume(k >= 0, k < 2 ** 31, a["sp"](k) >= 1, a["sp"](k) < N.count, N.ghost["live"].get(a["sp"](k)) != 0)
        if st.ghost.get("right") is None:
            st.ghost["right"] = {"at": k, "place": None, "side": None}
        else:
            c.ex.oblige(st, z3.BoolVal(st.ghost.get("fresh") is None), "pre", "every spare row is used {C26}")
            st.ghost["fresh"] = {"at": k, "of": None}
        return PV(a["spare"], Off(0, {8: k}))


@contract
class get_record_at(Fifo):
    """reads the row at a place"""
    name = "get_record_at"

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        r, m = st.ghost.get("right"), st.ghost.get("match")
        if r is None or m is None:
            c.ex.oblige(st, z3.BoolVal(False), "pre", "a row is read for a match only {C26}")
            return c.ex.fresh_iv(st, 32, "read", True)
        c.ex.oblige(st, And(c.peq(c.args[0], a["reader"]), c.peq(c.args[1], PV(a["nodes"], Off(0, {a["nstride"]: a["sp"](r["at"])}))), c.ex.U(st, c.args[2]) == m, z3.BoolVal(r["place"] is None)), "pre", "the match's row is read {C26}")
        rc = c.ex.fresh_iv(st, 32, "read", True)
        st.ghost["right"] = dict(r, place=m)
        st.ghost["read"] = c.ex.S(st, rc)
        return rc


@contract
class node_enqueue_import(Fifo):
    """hangs a source on a row (property C14)"""
    name = "node_enqueue_import"

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        r = st.ghost.get("right")
        if r is None:
            raise Unsupported("node_enqueue_import without a row")
        c.ex.oblige(st, And(c.peq(c.args[0], PV(a["rows"], Off(0, {8: n_of(c, st, "pos")}))), c.peq(c.args[1], PV(a["nodes"], Off(0, {a["nstride"]: a["sp"](r["at"])}))), z3.BoolVal(r["side"] is None)), "pre", "the match's row is put behind this row {C26}")
        st.ghost["right"] = dict(r, side="left")
        return c.args[1]


@contract
class node_back(Fifo):
    """the last source of a row"""
    name = "node_back"

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        k = a["nd"](n_of(c, st, "pos"))
        c.ex.oblige(st, c.peq(c.args[0], PV(a["nodes"], Off(0, {a["nstride"]: k}))), "pre", "of this row {C26}")
        return PV(a["nodes"], Off(0, {a["nstride"]: BACK(k, I(0))}))


@contract
class record_copy(Fifo):
    """makes a record another's copy"""
    name = "record_copy"

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        if hasattr(c.ex.root.con, "copied"):
            return c.ex.root.con.copied(c)
        f = st.ghost.get("fresh")
        if f is None:
            raise Unsupported("record_copy without a spare row")
        k, i = a["nd"](n_of(c, st, "pos")), n_of(c, st, "copies")
        c.ex.oblige(st, And(c.peq(c.args[0], PV(a["recs"], Off(0, {a["rstride"]: a["rec"](a["sp"](f["at"]))}))), c.peq(c.args[1], PV(a["nodes"], Off(0, {a["nstride"]: BACK(k, i)}))), i < LENGTH(k)), "pre", "the next source of this row is copied {C26}")
        st.ghost["fresh"] = dict(f, of=True)
        return None


@contract
class node_push_import(Fifo):
    """puts a source before a row (property C14)"""
    name = "node_push_import"

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        if hasattr(c.ex.root.con, "pushed"):
            return c.ex.root.con.pushed(c)
        f, r = st.ghost.get("fresh"), st.ghost.get("right")
        if f is None or r is None:
            raise Unsupported("node_push_import without a copy")
        c.ex.oblige(st, And(c.peq(c.args[0], PV(a["spare"], Off(0, {8: r["at"]}))), c.peq(c.args[1], PV(a["nodes"], Off(0, {a["nstride"]: a["sp"](f["at"])}))), z3.BoolVal(f["of"] is not None)), "pre", "the copy is put before the match's row {C26}")
        st.ghost["fresh"] = None
        set_n(st, c.ex.root, "copies", n_of(c, st, "copies") + 1)
        return c.args[1]


@contract
class fifo_add(Fifo):
    """sends a row on (property C12)"""
    name = "fifo_add"

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        r = st.ghost.get("right")
        p, o, i = n_of(c, st, "pos"), n_of(c, st, "out"), n_of(c, st, "handed")
        one = c.peq(c.args[0], a["out_true"])
        c.ex.oblige(st, z3.If(one, n_of(c, st, "room_true"), n_of(c, st, "room_false")) == ROOM, "pre", "a row is sent only where there is room for it: a full ring would lose its rows {C26}")
        for x, is_ in (("room_true", one), ("room_false", Not(one))):
            set_n(st, c.ex.root, x, z3.If(is_, I(0), n_of(c, st, x)))
        if hasattr(c.ex.root.con, "sent"):
            return c.ex.root.con.sent(c)
        k = a["nd"](p)
        m = MATCHES(k)
        left = c.peq(c.args[1], PV(a["rows"], Off(0, {8: p})))
        if r is None:
            c.ex.oblige(st, And(left, m == 0, o == 0, z3.If(a["jt"] == JOIN_LEFT, c.peq(c.args[0], a["out_true"]), c.peq(c.args[0], a["out_false"]))), "pre",
                        "a row without a match goes on once: with the others of a LEFT JOIN, else with what failed {C26}")
        else:
            R = st.regions[a["recs"]]
            f = R.fields[a["src"]]
            src = f[2].get(a["rec"](a["sp"](r["at"])))
            good = And(c.peq(c.args[0], a["out_true"]), z3.BoolVal(r["place"] is not None), o + 1 == i, z3.BoolVal(st.ghost.get("fresh") is None), st.ghost.get("read", I(FAIL)) != FAIL,
                       src == z3.If(a["srcs"] == 0, I(2 ** 32 - 1), a["srcs"] - 1))
            if r["side"] == "left":
                good = And(good, left, i == m)
            else:
                good = And(good, c.peq(c.args[1], PV(a["spare"], Off(0, {8: r["at"]}))), n_of(c, st, "copies") == LENGTH(k), i < m)
            c.ex.oblige(st, good, "pre", "a match goes on with all of its row {C26}")
            st.ghost["right"] = None
            set_n(st, c.ex.root, "copies", I(0))
        set_n(st, c.ex.root, "out", o + 1)
        return None


@contract
class join_reset(Fifo):
    """the reader starts over"""
    name = "join_reset"

    def effect(self, c):
        c.ex.oblige(c.new, c.peq(c.args[0], c.ex.root.aux["reader"]), "pre", "the joined table's reader")
        c.new.ghost["reset"] = c.new.ghost.get("reset", 0) + 1
        return c.ex.fresh_iv(c.new, 32, "reset", True)


JOIN_LEFT = 2


class Pipe(Join):
    """a process between rings: rows wait in one (or two), others take rows that leave"""
    def pipe(self, c, st, false=True, true=True):
        ex = c.ex
        pr, tb, hj, N, R = self.mk(c, st, T_INT)
        src, w = c.fo("record", "src_idx")
        R.fields[src] = (w, "int", Base("src_idx"))
        pv, w = c.fo("node", "prev")
        N.fields[pv] = (w, ("ptr", N.rid), Base("prev"))
        rec, nl, rl = c.aux["rec"], N.ghost["live"].get, R.ghost["live"].get
        n = fint("rows")
        arrs = {}
        for nm, cnt in (("rows", n), ("spare", I(2 ** 31))):
            r = ex.new_region(st, "arr", nm, stride=8, count=cnt, ro=True)
            r.fields[0] = (8, ("ptr", N.rid), Base(nm))
            arrs[nm] = r
        nd, sp = arrs["rows"].fields[0][2].get, arrs["spare"].fields[0][2].get
        has_rec = lambda k: And(rec(k) >= 1, rec(k) < R.count, rl(rec(k)) != 0)
        prev = N.fields[pv][2].get
        row = lambda k: And(k >= 1, k < N.count, nl(k) != 0, LENGTH(k) >= 1, MATCHES(k) >= 0, MATCHES(k) < 2 ** 31)
        st.assume(n >= 0, n < 2 ** 31, forall(0, n, lambda j: row(nd(j)), pats=lambda j: nd(j)), forall(1, N.count, lambda k: Imp(nl(k) != 0, has_rec(k)), pats=lambda k: rec(k)))
        j, i = z3.Ints("hj_j hj_i")
        st.assume(z3.ForAll([j, i], Imp(And(j >= 0, j < n, i >= 0, i < LENGTH(nd(j))), And(BACK(nd(j), i) >= 1, BACK(nd(j), i) < N.count, nl(BACK(nd(j), i)) != 0, prev(BACK(nd(j), i)) == z3.If(i + 1 < LENGTH(nd(j)), BACK(nd(j), i + 1), I(0)))), patterns=[BACK(nd(j), i)]))
        st.assume(z3.ForAll([j, i], Imp(And(j >= 0, j < n, i >= 0, i < MATCHES(nd(j))), And(PLACE(nd(j), i) >= 0, PLACE(nd(j), i) < 2 ** 63)), patterns=[PLACE(nd(j), i)]))
        fs = {}
        for nm in ("in0", "in1", "out_true", "out_false", "aux"):
            f = ex.new_region(st, "cell", nm, size=ex.prog.sizeof("fifo"))
            o, w = c.fo("fifo", "is_open")
            f.cells[o] = (w, ex.fresh_iv(st, 8 * w, nm + "_open"))
            st.assume(ex.U(st, f.cells[o][1]) <= 1)
            fs[nm] = PV(f.rid)
        if not false:
            fs["out_false"] = NULL
        if not true:
            fs["out_true"] = NULL
        rd = ex.new_region(st, "cell", "reader", size=ex.prog.sizeof("reader"), ro=True)
        for x, v in (("reset__", FnP(contract="join_reset")), ("get_record_at__", FnP(contract="get_record_at")), ("get_record__", FnP(contract="get_record"))):
            o, w = c.fo("reader", x)
            rd.cells[o] = (w, v)
        o, _ = c.fo("process", "fifo_in")
        pr.cells[o], pr.cells[o + 8] = (8, fs["in0"]), (8, fs["in1"])
        o, _ = c.fo("process", "fifo_out")
        pr.cells[o], pr.cells[o + 8] = (8, fs["out_false"]), (8, fs["out_true"])
        jt = ex.fresh_iv(st, 32, "join_type")
        srcs = ex.fresh_iv(st, 16, "out_src_count")
        tidx = ex.fresh_iv(st, 32, "table_idx")
        for x, v in (("fifo_aux_root", fs["aux"]), ("proc_data", PV(tb.rid)), ("out_src_count", srcs)):
            o, w = c.fo("process", x)
            pr.cells[o] = (w, v)
        for x, v in (("reader", PV(rd.rid)), ("join_type", jt), ("idx", tidx)):
            o, w = c.fo("table", x)
            tb.cells[o] = (w, v)
        for nm in ("pos", "handed", "out", "copies", "room_true", "room_false"):
            r = ex.new_region(st, "cell", nm, size=8)
            r.cells[0] = (8, IV(64, 0, u=True))
            c.aux[nm] = r.rid
        c.aux.update(rows=arrs["rows"].rid, spare=arrs["spare"].rid, n=n, nd=nd, sp=sp, jt=ex.U(st, jt), srcs=ex.U(st, srcs), src=src, reader=PV(rd.rid), idx=ex.U(st, tidx), **fs)
        c.aux["in"] = fs["in0"]
        c.aux["false"] = false
        c.aux["all"] = (pr, tb, hj, N, R)
        return pr

    def slot(self, c, j):
        return PV(c.ex.root.aux["rows"], Off(0, {8: j}))

    def node(self, c, k):
        return PV(c.ex.root.aux["nodes"], Off(0, {c.ex.root.aux["nstride"]: k}))

    def open(self, c, f):
        return c.u(c.old, f, "fifo", "is_open") != 0

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "result", True)


@contract
class fql_hash_join(Pipe):
    """the joined table is read first; then every row goes on with each of its matches, in turn, and a row without a match once"""
    name = "fql_hash_join"
    cases = [(s + f, {"side": v, "false": b, "t": T_INT}) for s, v in (("joined table", RIGHT), ("rows", LEFT)) for f, b in (("", False), (", rows that fail are wanted", True))]

    def setup(self, c, st):
        self.pipe(c, st, c.case["false"])
        pr, tb, hj, N, R = c.aux["all"]
        ex, n, nd = c.ex, c.aux["n"], c.aux["nd"]
        V = builtins_c.mk_pool(ex, st, "matches", ex.prog.sizeof("vec"), {0: (8, "int")})
        ex.pools.clear()
        vp = PV(V.rid, Off(0, {V.stride: I(1)}))
        # what is left to send, from row p on
        st.assume(forall(0, n, lambda j: And(LEFT_TO_DO(j + 1) >= 0, LEFT_TO_DO(j) == LEFT_TO_DO(j + 1) + z3.If(MATCHES(nd(j)) > 0, MATCHES(nd(j)), I(1))), pats=lambda j: nd(j)), LEFT_TO_DO(n) == 0)
        o, w = c.fo("hashjoin", "state")
        side = c.case["side"]
        hj.cells[o] = (w, IV(32, side, u=True))
        # a row some of whose matches have gone out already waits
        i = fint("handed")
        st.assume(i >= 0, Imp(i > 0, And(n > 0, i < MATCHES(nd(I(0))), Not(BADKEY(nd(I(0)))))))
        for nm in ("handed", "out"):
            st.regions[c.aux[nm]].cells[0] = (8, IV(64, i, u=True))
        o, w = c.fo("hashjoin", "recs")
        c.aux.update(vec=vp, side=side)
        v = c.u(st, PV(hj.rid), "hashjoin", "rec_idx")
        hj.cells[o] = (w, PV(V.rid, Off(0, {V.stride: z3.If(i == 0, I(0), I(1))})))
        st.assume(Imp(i > 0, v == i))
        return [PV(pr.rid)]

    @property
    def loops(self):
        def l0(lp):
            c, st, a = lp.root, lp.st, lp.root.aux
            p, i, o = (n_of(c, st, x) for x in ("pos", "handed", "out"))
            recs = c.get(st, a["join"], "hashjoin", "recs")
            out = [("variant", LEFT_TO_DO(p) - i), ("rows left", LEFT_TO_DO(p) >= i), ("rows joined", And(p >= 0, p <= a["n"])), ("matches handed over have gone out", And(i == o, i >= 0)), ("of the row in turn", Imp(i > 0, And(p < a["n"], i < MATCHES(a["nd"](p)), Not(BADKEY(a["nd"](p)))))),
                   ("where the matches have come to", And(c.peq(recs, NULL, st) == (i == 0), Imp(i > 0, And(c.peq(recs, a["vec"], st), c.u(st, a["join"], "hashjoin", "rec_idx") == i)))),
                   ("nothing half done", And(z3.BoolVal(st.ghost.get("right") is None and st.ghost.get("fresh") is None), n_of(c, st, "copies") == 0)),
                   ("there is room", And(n_of(c, st, "room_true") == ROOM, n_of(c, st, "room_false") == (ROOM if a["false"] else 0)))]
            for q in lp.ptrs(a["rows"]):
                out.append(("maybe", "row reached", c.peq(q, PV(a["rows"], Off(0, {8: p})), st)))
            return out

        def l1(lp):
            c, st, a, K = lp.root, lp.st, lp.root.aux, lp.K
            k = a["nd"](n_of(c, st, "pos"))
            r = st.ghost.get("right")
            out = [("sources copied", And(K >= 0, K <= LENGTH(k), n_of(c, st, "copies") == K)), ("variant", LENGTH(k) - K), ("the copies are in place", z3.BoolVal(st.ghost.get("fresh") is None and r is not None))]
            for q in lp.ptrs(a["nodes"]):
                out.append(("maybe", "source reached", z3.If(K < LENGTH(k), c.peq(q, PV(a["nodes"], Off(0, {a["nstride"]: BACK(k, K)})), st), c.peq(q, NULL, st))))
            return out
        return [l0, l1]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        g = st.ghost
        side = c.u(st, a["join"], "hashjoin", "state")
        op = lambda f: c.u(c.old, f, "fifo", "is_open") != 0
        stop = Or(Not(op(a["out_true"])), And(z3.BoolVal(a["false"]), Not(op(a["out_false"])) if a["false"] else z3.BoolVal(False)))
        p = n_of(c, st, "pos")
        room = lambda tr: n_of(c, st, "room_true" if tr else "room_false") == FULL
        up = g.get("updated", ())
        out = [("nobody waits for rows: done", Imp(stop, And(rc == 0, side == a["side"], p == 0))), ("nothing half done", Imp(rc != FAIL, z3.BoolVal(g.get("right") is None and g.get("fresh") is None)))]
        if a["side"] == RIGHT:
            empty = a["n"] == 0
            return out + [("then the rows are joined", Imp(And(Not(stop), empty, Not(op(a["in1"]))), And(side == LEFT, rc == 1, z3.BoolVal(g.get("reset", 0) == 1)))),
                          ("more of the joined table comes", Imp(And(Not(stop), empty, op(a["in1"])), And(side == RIGHT, rc == 3))),
                          ("the joined table is read", Imp(And(Not(stop), Not(empty)), And(side == RIGHT, Or(rc == 3, rc == FAIL), z3.BoolVal(g.get("read_right", 0) == 1)))), ("no row is joined", p == 0)]
        return out + [("stays so", side == LEFT), ("done when no row waits and none can come", Imp(And(Not(stop), rc == 0), And(a["n"] == 0, Not(op(a["in"]))))),
                      ("waits for rows when all are joined", Imp(rc == 2, And(p == a["n"], n_of(c, st, "out") == 0))), ("waits for an output that is full", And(Imp(rc == 7, room(True)), Imp(rc == 6, room(False)))),
                      ("no other answer", Or(rc == 0, rc == 2, rc == 6, rc == 7, rc == FAIL)), ("the rows joined are done", Imp(p > 0, Or(rc == FAIL, And(z3.BoolVal(len(up) == 1), up[0] == p if up else z3.BoolVal(False)))))]


@contract
class fifo_peek(Walk):
    """the row in turn"""
    name = "fifo_peek"

    def effect(self, c):
        return self.at(c, c.new, self.pos(c, c.new))


@contract
class fifo_consume(fifo_iter):
    """takes the row in turn out"""
    name = "fifo_consume"

    def effect(self, c):
        super().effect(c)


@contract
class fifo_nget(Fifo):
    """takes rows out, a number of blocks of them (property C12)"""
    name = "fifo_nget"

    def pre(self, c):
        a = c.ex.root.aux
        return [("the spare rows", c.peq(c.args[0], a["in1"])), ("into the process's buffer", c.peq(c.args[1], a["inbuf"])), ("as many as a row has sources", c.ex.U(c.old, c.args[2]) == a["srcs"]),
                ("the buffer is empty", c.u(c.old, c.args[1], "vec", "size") == 0)]

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        b = fint("blocks")
        c.havoc_int(st, a["inbuf"], "vec", "size")
        c.havoc_int(st, a["inbuf"], "vec", "_alloc")
        r = replace_data(c, st, a["inbuf"])
        sz, al = c.u(st, a["inbuf"], "vec", "size"), c.u(st, a["inbuf"], "vec", "_alloc")
        c.ex.root.con.spares(c, st, r, sz)
        st.assume(b >= 0, sz == MUL(b, a["srcs"]), sz < 2 ** 31, sz < al, al <= r.count)
        set_n(st, c.ex.root, "block", I(0))
        st.ghost["filled"] = st.ghost.get("filled", 0) + 1
        return c.ex.fresh_iv(st, 32, "got", True)


@contract
class get_record(Fifo):
    """reads the next row"""
    name = "get_record"

    def effect(self, c):
        return c.ex.root.con.read(c)


MUL = uf("ROWS_OF", INT, INT, INT)      # blocks times sources


@contract
class fql_cartesian_join(Pipe):
    """every row goes on with every row of the joined table; a left row is done when the table has been read to its end"""
    name = "fql_cartesian_join"
    cases = [("buffer in use", {"fill": False}), ("buffer used up", {"fill": True})]

    def spares(self, c, st, r, sz):
        a = (c.ex.root or c).aux
        N = st.regions[a["nodes"]]
        g = r.fields[0][2].get
        st.assume(forall(0, sz, lambda j: And(g(j) >= 1, g(j) < N.count, N.ghost["live"].get(g(j)) != 0), pats=lambda j: g(j)))

    def buf(self, c, st):
        """(node at a place of the buffer, where the process is in it, how many, slot)"""
        a = c.ex.root.aux
        d = c.get(st, a["inbuf"], "vec", "data")
        r = st.regions[d.rid]
        it = c.get(st, c.ex.root.args[0], "process", "inbuf_iter")
        return r.fields[0][2].get, it, c.u(st, a["inbuf"], "vec", "size"), lambda j: PV(d.rid, Off(0, {8: j}))

    def setup(self, c, st):
        pr = self.pipe(c, st)
        ex, a = c.ex, c.aux
        vp, _ = mk_vec(c, st, "inbuf", S=8, fields={0: 8})
        d = st.regions[c.get(st, vp, "vec", "data").rid]
        d.fields[0] = (8, ("ptr", a["nodes"]), Base("inbuf"))
        sz = c.u(st, vp, "vec", "size")
        q, b0, b = fint("at"), fint("block"), fint("blocks")
        o, w = c.fo("process", "inbuf")
        pr.cells[o] = (w, vp)
        o, w = c.fo("process", "inbuf_iter")
        pr.cells[o] = (w, PV(d.rid, Off(0, {8: q})))
        o, w = c.fo("process", "fifo_base_size")
        pr.cells[o] = (w, ex.fresh_iv(st, 8 * w, "fifo_base_size"))
        r = ex.new_region(st, "cell", "at", size=8)
        r.cells[0] = (8, IV(64, b0, u=True))
        r2 = ex.new_region(st, "cell", "read_to_end", size=8)
        r2.cells[0] = (8, IV(64, 0, u=True))
        a.update(inbuf=vp, queried=True, block=r.rid, size0=sz, b=b, ended=r2.rid)
        self.spares(c, st, d, sz)
        # where the process is in its buffer: at the beginning of a block
        st.assume(a["srcs"] >= 1, sz < 2 ** 31, q >= 0, q <= sz, b0 >= 0, b >= 0, sz == MUL(b, a["srcs"]), q == MUL(b0, a["srcs"]), b0 <= b, (q == sz) if c.case["fill"] else (q < sz))
        j = z3.Int("hj_j")
        st.assume(z3.ForAll([j], Imp(j >= 0, And(MUL(j, a["srcs"]) >= j, MUL(j + 1, a["srcs"]) == MUL(j, a["srcs"]) + a["srcs"])), patterns=[MUL(j, a["srcs"])]), MUL(I(0), a["srcs"]) == 0)
        i = z3.Int("hj_i")
        st.assume(z3.ForAll([i, j], Imp(And(i >= 0, j >= 0, MUL(i, a["srcs"]) < MUL(j, a["srcs"])), MUL(i, a["srcs"]) + a["srcs"] <= MUL(j, a["srcs"])), patterns=[z3.MultiPattern(MUL(i, a["srcs"]), MUL(j, a["srcs"]))]))
        pr.ro = False
        # a row of the process before has one source less (fqlplan: a join adds one)
        n, nd = a["n"], a["nd"]
        st.assume(forall(0, n, lambda j: LENGTH(nd(j)) == a["srcs"] - 1, pats=lambda j: nd(j)), Imp(n > 0, a["srcs"] >= 2))
        return [PV(pr.rid)]

    def is_empty(self, c):
        a = c.ex.root.aux
        c.ex.oblige(c.new, c.peq(c.args[0], a["in"]), "pre", "the rows to join are asked for {C26}")
        v = c.ex.fresh_iv(c.new, 1, "empty")
        c.new.assume((c.ex.U(c.new, v) != 0) == (a["n"] == 0))
        return v

    def read(self, c):
        st, a = c.new, c.ex.root.aux
        g, it, sz, slot = self.buf(c, st)
        p = fint("place")
        st.assume(p == c.ex.resolve(st, st.regions[it.rid], it.off)[0])
        r = st.ghost.get("right")
        c.ex.oblige(st, And(c.peq(c.args[0], a["reader"]), p < sz, p + a["srcs"] <= sz, z3.BoolVal(r is None), n_of(c, st, "ended") == 0, c.peq(c.args[1], self.node(c, g(p)))), "pre", "the next row of the joined table is read, with spare rows enough {C26}")
        rc = c.ex.fresh_iv(st, 32, "read", True)
        s = c.ex.S(st, rc)
        s2, s3 = st.copy(), st.copy()
        st.assume(s == 0)
        st.ghost["right"] = {"at": p}
        s2.assume(s == FAIL)
        s3.assume(s != 0, s != FAIL)
        set_n(s3, c.ex.root, "ended", I(1))
        s2.ghost["failed"] = True
        return [(st, rc), (s2, rc), (s3, rc)]

    def copied(self, c):
        st, a = c.new, c.ex.root.aux
        r = st.ghost.get("right")
        if r is None:
            raise Unsupported("record_copy without a row")
        g = self.buf(c, st)[0]
        k, i = a["nd"](n_of(c, st, "pos")), n_of(c, st, "copies")
        c.ex.oblige(st, And(c.peq(c.args[0], PV(a["recs"], Off(0, {a["rstride"]: a["rec"](g(r["at"] + 1 + i))}))), c.peq(c.args[1], self.node(c, BACK(k, i))), i < LENGTH(k), z3.BoolVal(not st.ghost.get("of"))), "pre", "the next source of this row is copied {C26}")
        st.ghost["of"] = True
        return None

    def pushed(self, c):
        st, a = c.new, c.ex.root.aux
        r = st.ghost.get("right")
        if r is None:
            raise Unsupported("node_push_import without a row")
        g, it, sz, slot = self.buf(c, st)
        i = n_of(c, st, "copies")
        c.ex.oblige(st, And(c.peq(c.args[0], slot(r["at"])), c.peq(c.args[1], self.node(c, g(r["at"] + 1 + i))), z3.BoolVal(bool(st.ghost.get("of")))), "pre", "the copy is put before the joined row {C26}")
        st.ghost["of"] = None
        set_n(st, c.ex.root, "copies", i + 1)
        return c.args[1]

    def sent(self, c):
        st, a = c.new, c.ex.root.aux
        r = st.ghost.get("right")
        if r is None:
            raise Unsupported("fifo_add without a row")
        g, it, sz, slot = self.buf(c, st)
        k = a["nd"](n_of(c, st, "pos"))
        src = st.regions[a["recs"]].fields[a["src"]][2].get(a["rec"](g(r["at"])))
        c.ex.oblige(st, And(c.peq(c.args[0], a["out_false"]), c.peq(c.args[1], slot(r["at"])), n_of(c, st, "copies") == LENGTH(k), z3.BoolVal(not st.ghost.get("of")), src == a["idx"]), "pre", "a pair goes on with all of its row {C26}")
        st.ghost["right"] = None
        set_n(st, c.ex.root, "copies", I(0))
        set_n(st, c.ex.root, "block", n_of(c, st, "block") + 1)
        return None

    def row_done(self, c):
        return [("a row is left when the joined table has been read to its end", n_of(c, c.old, "ended") == 1)]

    def recycled(self, c):
        st, a = c.new, c.ex.root.aux
        p = n_of(c, st, "pos")
        c.ex.oblige(st, And(n_of(c, st, "ended") == 1, p >= 1, c.peq(c.args[1], self.slot(c, p - 1)), z3.BoolVal(not st.ghost.get("back"))), "pre", "the row that is done is given back {C26}")
        st.ghost["back"] = True
        return None

    @property
    def loops(self):
        def l0(lp):
            c, st, a = lp.root, lp.st, lp.root.aux
            g, it, sz, slot = self.buf(c, st)
            b = n_of(c, st, "block")
            q = MUL(b, a["srcs"])
            out = [("at a block", And(c.peq(it, slot(q), st), q <= sz, b >= 0)), ("nothing half done", And(z3.BoolVal(st.ghost.get("right") is None and not st.ghost.get("of") and not st.ghost.get("back")), n_of(c, st, "copies") == 0, n_of(c, st, "ended") == 0, n_of(c, st, "pos") == 0)),
                   ("there is room", n_of(c, st, "room_false") == ROOM), ("variant", sz - q)]
            return out

        def l1(lp):
            c, st, a, K = lp.root, lp.st, lp.root.aux, lp.K
            k = a["nd"](I(0))
            g, it, sz, slot = self.buf(c, st)
            r = st.ghost.get("right")
            if r is None:
                return [("a row has been read", z3.BoolVal(False))]
            out = [("sources copied", And(K >= 0, K <= LENGTH(k), n_of(c, st, "copies") == K)), ("variant", LENGTH(k) - K), ("the copies are in place", z3.BoolVal(not st.ghost.get("of"))), ("where the buffer has come to", c.peq(it, slot(r["at"] + K), st))]
            for x in lp.ptrs(a["nodes"]):
                out.append(("maybe", "source reached", z3.If(K < LENGTH(k), c.peq(x, self.node(c, BACK(k, K)), st), c.peq(x, NULL, st))))
            return out
        return [l0, l1]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        g = st.ghost
        p = n_of(c, st, "pos")
        op = self.open(c, a["out_false"])
        g_, it, sz, slot = self.buf(c, st)
        done = lambda x: z3.BoolVal(g.get("reset", 0) == x)
        out = [("nobody waits for rows: done", Imp(Not(op), And(rc == 0, p == 0))), ("nothing half done", Imp(rc != FAIL, And(z3.BoolVal(g.get("right") is None), c.peq(it, slot(MUL(n_of(c, st, "block"), a["srcs"])))))),
               ("done when no row waits and none can come", Imp(And(op, rc == 0), And(a["n"] == 0, Not(self.open(c, a["in"]))))), ("an error only of the reader", (rc == FAIL) == z3.BoolVal(bool(g.get("failed")))),
               ("a row that is done is given back, and the table is read from its beginning", z3.If(n_of(c, st, "ended") == 1, And(p == 1, done(1), z3.BoolVal(bool(g.get("back")))), And(p == 0, done(0), z3.BoolVal(not g.get("back"))))),
               ("waits for rows when none is left", Imp(rc == 2, p == a["n"])), ("waits for an output that is full", Imp(rc == 6, n_of(c, st, "room_false") == FULL)), ("no other answer", Or(rc == 0, rc == 1, rc == 2, rc == 6, rc == FAIL)),
               ("goes on when it can", Imp(And(op, a["n"] == 0, self.open(c, a["in"])), rc == 2))]
        if not c.case["fill"]:
            out.append(("spare rows are not thrown away", z3.BoolVal(not g.get("filled"))))
        return out


HAS, HOLDS = uf("HAS_SOURCE", INT, INT, BOOL), uf("CONDITION_ON", INT, INT)     # of the row a node starts


@contract
class record_at(Fifo):
    """the record of a source of a row, or NULL"""
    name = "record_at"

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        if hasattr(c.ex.root.con, "record_of"):
            return c.ex.root.con.record_of(c)
        k = a["nd"](n_of(c, st, "pos"))
        idx = c.ex.S(st, c.args[1])
        c.ex.oblige(st, c.peq(c.args[0], PV(a["nodes"], Off(0, {a["nstride"]: k}))), "pre", "of this row")
        r = fint("record")
        R = st.regions[a["recs"]]
        st.assume(r >= 0, r < R.count, (r != 0) == HAS(k, idx), Imp(r != 0, R.ghost["live"].get(r) != 0))
        return PV(a["recs"], Off(0, {a["rstride"]: r}))


@contract
class logicgroup_eval(Fifo):
    """the condition on a row (property C18)"""
    name = "logicgroup_eval"

    def effect(self, c):
        st, a = c.new, c.ex.root.aux
        k = a["nd"](n_of(c, st, "pos"))
        c.ex.oblige(st, And(c.peq(c.args[0], a["condition"]), c.peq(c.args[1], PV(a["nodes"], Off(0, {a["nstride"]: k}))), c.peq(c.args[2], a["joined"])), "pre", "the condition of this process on this row, without what the join has seen to")
        rc = c.ex.fresh_iv(st, 32, "holds", True)
        st.assume(c.ex.S(st, rc) == HOLDS(k))
        return rc


class Filter(Pipe):
    """a process with a condition"""
    def mk_filter(self, c, st, false=True, true=True):
        pr = self.pipe(c, st, false, true)
        lg = c.ex.new_region(st, "cell", "condition", size=c.ex.prog.sizeof("logicgroup"), ro=True)
        jl = PV(c.ex.new_region(st, "cell", "join_logic", size=8).rid)
        o, w = c.fo("logicgroup", "join_logic")
        lg.cells[o] = (w, jl)
        o, w = c.fo("process", "proc_data")
        pr.cells[o] = (w, PV(lg.rid))
        c.aux.update(condition=PV(lg.rid), joined=jl, queried=True)
        return pr

    def is_empty(self, c):
        a = c.ex.root.aux
        c.ex.oblige(c.new, c.peq(c.args[0], a["in"]), "pre", "the rows that wait are asked for")
        v = c.ex.fresh_iv(c.new, 1, "empty")
        c.new.assume((c.ex.U(c.new, v) != 0) == (a["n"] == 0))
        return v

    def invariant(self, lp):
        c, st, a = lp.root, lp.st, lp.root.aux
        p = n_of(c, st, "pos")
        out = [("rows done", And(p >= 0, p <= a["n"])), ("the row in turn is new", n_of(c, st, "out") == 0), ("variant", a["n"] - p)]
        for q in lp.ptrs(a["rows"]):
            out.append(("maybe", "row reached", c.peq(q, PV(a["rows"], Off(0, {8: p})), st)))
        return out


@contract
class fql_left_join_logic(Filter):
    """every row goes on; one that fails the condition without its joined row"""
    name = "fql_left_join_logic"

    def setup(self, c, st):
        pr = self.mk_filter(c, st)
        c.aux["without"] = c.ex.new_region(st, "cell", "without", size=8).rid
        set_n(st, c, "without", I(0))
        return [PV(pr.rid)]

    def recycled(self, c):
        st, a = c.new, c.ex.root.aux
        k = a["nd"](n_of(c, st, "pos"))
        r = c.ex.getr(st, c.args[1], "row")
        v = r.cells.get(c.args[1].off.const(), (0, None))[1] if r.kind == "cell" else None
        c.ex.oblige(st, And(c.peq(v, self.node(c, BACK(k, I(0)))) if isinstance(v, PV) else z3.BoolVal(False), n_of(c, st, "without") == 0, n_of(c, st, "out") == 0), "pre", "the joined row alone is given back {C26}")
        set_n(st, c.ex.root, "without", I(1))
        return None

    def sent(self, c):
        st, a = c.new, c.ex.root.aux
        p = n_of(c, st, "pos")
        k = a["nd"](p)
        has = HAS(k, a["srcs"] - 1)
        c.ex.oblige(st, And(c.peq(c.args[0], a["out_true"]), c.peq(c.args[1], self.slot(c, p)), n_of(c, st, "out") == 0, (n_of(c, st, "without") == 1) == And(has, HOLDS(k) == 0)), "pre",
                    "a row goes on: without its joined row exactly when it has one and the condition does not hold {C26}")
        set_n(st, c.ex.root, "out", I(1))
        set_n(st, c.ex.root, "without", I(0))
        return None

    def row_done(self, c):
        return [("a row is left when it has gone on", n_of(c, c.old, "out") == 1)]

    @property
    def loops(self):
        return [lambda lp: self.invariant(lp) + [("there is room", n_of(lp.root, lp.st, "room_true") == ROOM), ("nothing half done", n_of(lp.root, lp.st, "without") == 0)]]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        p, up = n_of(c, st, "pos"), c.new.ghost.get("updated", ())
        op = self.open(c, a["out_true"])
        return [("nobody waits for rows: done", Imp(Not(op), And(rc == 0, p == 0))), ("done when no row waits and none can come", Imp(And(op, rc == 0), And(a["n"] == 0, Not(self.open(c, a["in"]))))),
                ("waits for rows when all are done", Imp(rc == 2, p == a["n"])), ("waits for an output that is full", Imp(rc == 7, n_of(c, st, "room_true") == FULL)),
                ("an error only of the condition", Imp(rc == FAIL, And(p < a["n"], HOLDS(a["nd"](p)) == FAIL))), ("no other answer", Or(rc == 0, rc == 2, rc == 7, rc == FAIL)),
                ("the rows done are taken out", Imp(p > 0, Or(rc == FAIL, And(z3.BoolVal(len(up) == 1), up[0] == p if up else z3.BoolVal(False)))))]


# ------------------------------------------------------------ beginning, and beginning again
@contract
class multimap_clear(Contract):
    """empties a multimap (property C04)"""
    name = "multimap_clear"
    trusted = True
    spec_only = True

    def effect(self, c):
        c.new.ghost["cleared"] = c.new.ghost.get("cleared", ()) + (c.args[0],)
        return None


@contract
class hashjoin_reset(Join):
    """the join starts over: nothing kept, no match under way"""
    name = "hashjoin_reset"
    cases = [("", {"none": False}), ("no join", {"none": True})]

    def setup(self, c, st):
        pr, tb, hj, N, R = self.mk(c, st, T_INT)
        vp, _ = mk_vec(c, st, "matches", S=8, fields={0: 8}, ro=True)
        o, w = c.fo("hashjoin", "recs")
        hj.cells[o] = (w, vp)
        return [NULL if c.case["none"] else PV(hj.rid)]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("hash join seen from a caller")
        return None

    def post(self, c):
        cl = c.new.ghost.get("cleared", ())
        if c.case["none"]:
            return [("nothing to do", z3.BoolVal(not cl))]
        hj = c.aux["join"]
        return [("the map is emptied", And(z3.BoolVal(len(cl) == 1), c.peq(cl[0], c.aux["map"]) if cl else z3.BoolVal(False))),
                ("the joined table is read first", c.u(c.new, hj, "hashjoin", "state") == RIGHT), ("no match is under way", c.peq(c.get(c.new, hj, "hashjoin", "recs"), NULL))]


@contract
class _guess_row_count(Contract):
    """a guess how many rows a table has (only a hint)"""
    name = "_guess_row_count"
    trusted = True
    spec_only = True

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 64, "guess")


@contract
class multimap_construct(Contract):
    """makes a multimap (property C04)"""
    name = "multimap_construct"
    trusted = True
    spec_only = True

    def effect(self, c):
        c.new.ghost["made"] = c.new.ghost.get("made", ()) + ((c.args[0], c.ex.U(c.new, c.args[1]), c.ex.U(c.new, c.args[3])),)
        return c.args[0]


@contract
class table_hash_join_init(Join):
    """texts are kept without regard to case and trailing blanks, numbers exactly"""
    name = "table_hash_join_init"
    cases = CASES

    def setup(self, c, st):
        pr, tb, hj, N, R = self.mk(c, st, c.case["t"])
        o, w = c.fo("hashjoin", "hash_data")
        hj.cells[o] = (w, NULL)
        tb.cells[c.fo("table", "subquery")[0]] = (8, PV(c.ex.new_region(st, "cell", "query", size=8).rid) if c.case["t"] == T_FLOAT else NULL)
        o, w = c.fo("table", "is_stdin")
        tb.cells[o] = (w, c.ex.fresh_iv(st, 8 * w, "is_stdin"))
        return [PV(tb.rid)]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("hash join seen from a caller")
        return None

    def post(self, c):
        m = c.new.ghost.get("made", ())
        if len(m) != 1:
            return [("one multimap", z3.BoolVal(False))]
        p, w, props = m[0]
        return [("the join's map", c.peq(c.get(c.new, c.aux["join"], "hashjoin", "hash_data"), p)), ("it keeps places", w == 8), ("compares as the type does", props == (3 if c.case["t"] == T_STRING else 0))]
