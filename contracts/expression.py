"""Contracts for lib/expression.c: the value of an expression.

Evaluating expression e yields a status (good, NULL, failed) and, when good, its
value: spec functions of e.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
from strs import *
from stringy import SV
from vec import Vec, mk_vec, havoc_contents, replace_data
from logic import mk_groups, mk_row, about_row, EVAL
from builtins_c import num_end, num_val, num_inrange, flt_val

FILE = ["lib/expression.c", "lib/switchcase.c", "lib/record.c", "lib/field.c", "util/util.c", "util/stringview.c", "util/stringy.c", "util/vec.c"]
DEPS = ["logic", "field", "util", "stringview", "stringy"]
FAIL, NULL_, GOOD = -5, -1, 0
INT = z3.IntSort()
UNDEFINED, COLUMN, SWITCH, ROWNUM, REC, REF, VARIABLE, GROUPING, EXPR_CONST, NULLEX, ASTERISK, FUNCTION, AGGREGATE, SUBQUERY = range(14)
T_INT, T_FLOAT, T_STRING = 0, 1, 2
STAT = {k: z3.Function("EXPR_STATUS_" + k, INT, INT) for k in "ifs"}
IVAL = z3.Function("EXPR_INT", INT, INT)
FVAL = z3.Function("EXPR_FLOAT", INT, FS)
TARR = z3.Function("EXPR_TEXT", INT, IA)
TLEN = z3.Function("EXPR_TEXT_LENGTH", INT, INT)


def mk_exprs(c, st):
    """a pool of expressions of which only kind and type are known"""
    m = c.ex.prog.member
    e = builtins_c.mk_pool(c.ex, st, "exprs", c.ex.prog.sizeof("expression"), {m("expression", x)[0]: (m("expression", x)[1], "int") for x in ("expr", "field_type")})
    for x in ("expr", "field_type"):
        f = e.fields[m("expression", x)[0]][2]
        st.assume(forall(0, e.count, lambda i: And(f.get(i) >= 0, f.get(i) < 2 ** 32), pats=lambda i: f.get(i)))
    return e



# ------------------------------------------------------------ the records of a row
@contract
class record_at(Contract):
    """the first record of a row that comes from the given source; NULL when there is none"""
    name = "record_at"
    props = ("C25",)

    def setup(self, c, st):
        m = c.ex.prog.member
        R = builtins_c.mk_pool(c.ex, st, "records", c.ex.prog.sizeof("record"), {m("record", "src_idx")[0]: (4, "int")})
        N = builtins_c.mk_pool(c.ex, st, "nodes", c.ex.prog.sizeof("node"), {m("node", "next")[0]: (8, "self"), m("node", "data")[0]: (8, ("ptr", R.rid))})
        c.aux["R"], c.aux["N"] = R.rid, N.rid
        h = fint("head")
        c.aux["h"] = h
        nx, da, src = self.f(c, st)
        al, rl = N.ghost["live"], R.ghost["live"]
        at = uf("NODE_AT", z3.IntSort(), z3.IntSort())      # the K-th node of the row
        n = fint("row_n")
        c.aux["n"] = n
        st.assume(And(n >= 0, at(0) == h, at(n) == 0),
                  forall(0, n, lambda i: And(at(i) >= 1, at(i) < N.count, al.get(at(i)) != 0, nx(at(i)) == at(i + 1), da(at(i)) >= 1, da(at(i)) < R.count, rl.get(da(at(i))) != 0), pats=lambda i: at(i)))
        st.assume(Imp(n > 0, h != 0), forall(0, R.count, lambda i: And(src(i) >= 0, src(i) < 2 ** 32), pats=lambda i: src(i)))
        return [PV(N.rid, Off(0, {N.stride: h})), c.ex.fresh_iv(st, 32, "idx", True)]

    def f(self, c, st):
        m = c.ex.prog.member
        R, N = st.regions[c.aux["R"]], st.regions[c.aux["N"]]
        return N.fields[m("node", "next")[0]][2].get, N.fields[m("node", "data")[0]][2].get, R.fields[m("record", "src_idx")[0]][2].get

    def hit(self, c, i):
        """the i-th node's record comes from the source asked for"""
        nx, da, src = self.f(c, c.old)
        at = uf("NODE_AT", z3.IntSort(), z3.IntSort())
        return src(da(at(i))) == c.ex.U(c.old, c.args[1])

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            at = uf("NODE_AT", z3.IntSort(), z3.IntSort())
            h = lp.val("head")
            N = lp.st.regions[c.aux["N"]]
            return [("node reached", And(lp.K >= 0, lp.K <= c.aux["n"], c.peq(h, PV(N.rid, Off(0, {N.stride: at(lp.K)}))))),
                    ("none so far", forall(0, lp.K, lambda i: Not(self.hit(c, i)), pats=lambda i: at(i))), ("variant", c.aux["n"] - lp.K)]
        return [l0]

    def pre(self, c):
        return about_row(c, 0)

    def effect(self, c):
        if c.mode != "call":
            if c.mode == "frame":
                return NULL
            R = c.new.regions[c.aux["R"]]
            return PV(R.rid, Off(0, {R.stride: fint("rec")}))
        st = c.new
        none = st.copy()
        rec = mk_record(c, st)
        st.ghost["record"] = (c.args[1], rec)
        none.ghost["record"] = (c.args[1], None)
        return [(st, rec), (none, NULL)]

    def post(self, c):
        if c.mode == "call":
            return []
        nx, da, src = self.f(c, c.old)
        at = uf("NODE_AT", z3.IntSort(), z3.IntSort())
        n = c.aux["n"]
        i = z3.Int("ra_i")
        R = c.old.regions[c.aux["R"]]
        isn = c.peq(c.ret, NULL)
        return [("no record only when the row has none from that source", Imp(isn, forall(0, n, lambda i: Not(self.hit(c, i)), pats=lambda i: at(i)))),
                ("otherwise the first one", Imp(Not(isn), z3.Exists([i], And(i >= 0, i < n, self.hit(c, i), c.peq(c.ret, PV(R.rid, Off(0, {R.stride: da(at(i))}))),
                                                                                  forall(0, i, lambda j: Not(self.hit(c, j)), pats=lambda j: at(j))))))]


def embed(c, st, r, off, p):
    """move the cells of the vec p into region r at off"""
    for o, v in st.regions[p.rid].cells.items():
        r.cells[off + o] = v
    del st.regions[p.rid]


def mk_record(c, st):
    """a record: its fields are views of one text memory"""
    m = c.ex.prog.member
    r = c.ex.new_region(st, "cell", "record", size=c.ex.prog.sizeof("record"), ro=True)
    t, a = mk_bytes(c, st, "csvtext")
    vp, _ = mk_vec(c, st, "fields", S=16, fields={0: 8, 8: 4}, ro=True)
    d = st.regions[c.get(st, vp, "vec", "data").rid]
    d.fields[0] = (8, ("ptr", t.rid), d.fields[0][2])
    d.heap = False
    of, ln = d.fields[0][2].get, d.fields[8][2].get
    n = c.u(st, vp, "vec", "size")
    ok = lambda k, l: And(k >= 0, l >= 0, l < 2 ** 31, k + l <= t.count)
    j = z3.Int("rc_j")
    st.assume(forall(0, n, lambda i: And(ok(of(i), ln(i))), pats=lambda i: of(i)), forall(0, n, lambda i: And(ok(of(i), ln(i))), pats=lambda i: ln(i)))
    i = z3.Int("rc_i")
    st.assume(z3.ForAll([i, j], Imp(And(i >= 0, i < n, j >= of(i), j < of(i) + ln(i)), a.get(j) != 0), patterns=[z3.MultiPattern(of(i), a.get(j))]))
    embed(c, st, r, m("record", "fields")[0], vp)
    k, l = fint("rec_at"), c.ex.fresh_iv(st, 32, "rec_len")
    st.assume(ok(k, c.ex.U(st, l)), forall(k, k + c.ex.U(st, l), lambda j: a.get(j) != 0, pats=lambda j: a.get(j)))
    o = m("record", "rec_ref")[0]
    r.cells[o + m("stringview", "data")[0]] = (8, PV(t.rid, Off(0, {1: k})))
    r.cells[o + m("stringview", "len")[0]] = (4, l)
    return PV(r.rid)


@contract
class scalar_call(Contract):
    """a scalar function called through its expression: a status and, when good, a value of the expression's type"""
    name = "scalar_call"
    trusted = True
    spec_only = True

    def effect(self, c):
        st = c.new
        s = c.ex.fresh_iv(st, 32, "status", True)
        x = c.ex.S(st, s)
        st.assume(Or(x == GOOD, x == NULL_, x == FAIL))
        ft = c.ex.root.case.get("ft")
        p = c.args[1]
        v = None
        if ft == T_STRING:
            d = st.regions[p.rid].cells.get(p.off.const(), (0, None))[1]
            if not isinstance(d, PV) or d.rid is None:
                raise Unsupported("a function returning text gets no string")
            havoc_contents(c, st, d)
            replace_data(c, st, d)
            c.havoc_int(st, d, "vec", "_alloc")
            c.havoc_int(st, d, "vec", "size")
            n = Str(c, st, d)
            st.assume(*[f for _, f in n.oks()])
            st.assume(And(n.size < 2 ** 31), forall(0, n.r.count, lambda i: And(n.at(i) >= 0, n.at(i) < 256), pats=lambda i: n.at(i)), forall(0, n.size, lambda i: n.at(i) != 0, pats=lambda i: n.at(i)))
            v = n
        else:
            v = c.ex.fresh_iv(st, 64, "value", True) if ft == T_INT else FV(z3.Const(fresh_name("value"), FS))
            c.ex.store_cell(st, st.regions[p.rid], p.off.const(), 8, v)
        st.ghost["called"] = (c.args[0], c.args[2], x, v)
        return s


def ret_place(c, st, kind):
    """where a value is to be returned, with whatever is there before"""
    r = c.ex.new_region(st, "cell", "ret", size=16 if kind == "s" else 8)
    if kind != "s":
        r.cells[0] = (8, c.ex.fresh_iv(st, 64, "before", True) if kind == "i" else FV(z3.Const(fresh_name("before"), FS)))
    return PV(r.rid)


def null_result(c, p, kind, s, v):
    """a NULL number is returned as 0, or the result is left alone"""
    old = c.old.regions[p.rid].cells.get(p.off.const()) if p.off.const() is not None else None
    if kind == "s" or old is None:
        return z3.BoolVal(True)
    if kind == "f":
        zero, was = c.ex.fconst(0.0), old[1].t if isinstance(old[1], FV) else None
        v = v.t if isinstance(v, FV) else v
    else:
        zero, was = I(0), c.ex.S(c.old, old[1]) if isinstance(old[1], IV) and old[1].bits == 64 else None
        v = c.ex.S(c.new, v) if isinstance(v, IV) else v
    return z3.BoolVal(True) if was is None else Imp(s == NULL_, Or(v == zero, v == was))


def put_num(c, st, p, v):
    """the number is stored at p"""
    r = st.regions[p.rid]
    if r.kind == "cell":
        return c.ex.store_cell(st, r, p.off.const(), 8, v)
    k, o = c.ex.resolve(st, r, p.off)
    c.ex.store_arr(st, r, k, o, 8, v)


def put_value(c, st, p, kind, s):
    """an unknown value of the kind is stored at p"""
    r = st.regions[p.rid]
    if kind == "s":
        t, a = mk_bytes(c, st, "text")
        l = c.ex.fresh_iv(st, 32, "len")
        st.assume(And(c.ex.U(st, l) <= t.count, c.ex.U(st, l) < 2 ** 31))
        c.set(st, p, "stringview", "data", PV(t.rid))
        c.set(st, p, "stringview", "len", l)
        return (PV(t.rid), l)
    v = c.ex.fresh_iv(st, 64, "value", True) if kind == "i" else FV(z3.Const(fresh_name("value"), FS))
    c.ex.store_cell(st, r, p.off.const(), 8, v)
    return v


# ------------------------------------------------------------ CASE
def mk_case(c, st):
    """a CASE: conditions and as many values, one more if there is an ELSE"""
    G, L, g = mk_groups(c, st)
    e = mk_exprs(c, st)
    r = c.ex.new_region(st, "cell", "switchcase", size=c.ex.prog.sizeof("switchcase"), ro=True)
    for mm, pool in (("tests", G), ("values", e)):
        vp, _ = mk_vec(c, st, mm, S=8, fields={0: 8}, ro=True)
        d = st.regions[c.get(st, vp, "vec", "data").rid]
        d.fields[0] = (8, ("ptr", pool.rid), d.fields[0][2])
        d.heap = False
        a, n, live = d.fields[0][2], c.u(st, vp, "vec", "size"), pool.ghost["live"]
        st.assume(forall(0, n, lambda i: And(a.get(i) >= 1, a.get(i) < pool.count, live.get(a.get(i)) != 0), pats=lambda i: a.get(i)), n < 2 ** 31 - 1)
        embed(c, st, r, c.ex.prog.member("switchcase", mm)[0], vp)
        c.aux[mm] = (a, n)
    t, v = c.aux["tests"], c.aux["values"]
    st.assume(v[1] >= t[1])
    rg = mk_row(c, st)
    return PV(r.rid), PV(rg.rid)


def chosen(c, r):
    """r is the index of the value a CASE has: that of its first true WHEN, else of ELSE, -1 if there is none, FAIL if a WHEN before it fails"""
    (t, n), (v, m) = c.aux["tests"], c.aux["values"]
    ev = lambda i: EVAL(t.get(i), I(0))
    none = lambda k: forall(0, k, lambda i: ev(i) == 0, pats=lambda i: t.get(i))
    i = z3.Int("case_i")
    return [("a WHEN fails before any is true: an error", (r == FAIL) == z3.Exists([i], And(i >= 0, i < n, ev(i) == FAIL, none(i)))),
            ("the first WHEN that is true", Imp(And(r >= 0, r < n), And(ev(r) == 1, none(r)))),
            ("ELSE only when no WHEN is true", Imp(r >= n, And(none(n), m > n, r == m - 1))),
            ("no value only when no WHEN is true and there is no ELSE", Imp(r == -1, And(none(n), m == n))),
            ("nothing else", And(Or(r == FAIL, r >= -1), r < m))]


@contract
class _logic_eval_idx(Contract):
    """which value a CASE has"""
    name = "_logic_eval_idx"
    props = ("C25",)

    def setup(self, c, st):
        return list(mk_case(c, st))

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            t, n = c.aux["tests"]
            K = lp.K
            vals = [lp.val(nm) for nm in ("i",) if lp.has(nm)] or lp.ints(32)[:1]
            if not vals:
                raise Unsupported("no counter")
            return [("WHENs looked at", And(K >= 0, K <= n)), ("counted", c.ex.U(lp.st, vals[0]) == K), ("none was true", forall(0, K, lambda i: EVAL(t.get(i), I(0)) == 0, pats=lambda i: t.get(i))), ("variant", n - K)]
        return [l0]

    def pre(self, c):
        return about_row(c, 1)

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "index", True)

    def post(self, c):
        if "tests" not in c.aux:
            c.aux.update({k: v for k, v in c.ex.root.aux.items() if k in ("tests", "values")})
        if "tests" not in c.aux:
            raise Unsupported("no CASE at hand")
        return chosen(c, c.ex.S(c.new, c.ret))


class CaseVal(Contract):
    """the value of a CASE is that of its first true WHEN, else of ELSE, else NULL"""
    props = ("C25",)
    kind = "i"

    def setup(self, c, st):
        sc, rg = mk_case(c, st)
        return [sc, ret_place(c, st, self.kind), rg]

    def pre(self, c):
        return about_row(c, 2)

    def effect(self, c):
        st = c.new
        s = c.ex.fresh_iv(st, 32, "status", True)
        x = c.ex.S(st, s)
        v = put_value(c, st, c.args[1], self.kind, x)
        if c.mode == "call":
            st.assume(Or(x == GOOD, x == NULL_, x == FAIL))
            if self.kind != "s":
                st.assume(null_result(c, c.args[1], self.kind, x, v))
            st.ghost["evaluated"] = (c.args[0], x, v)
        return s

    def post(self, c):
        if c.mode == "call":
            return []
        (t, n), (v, m) = c.aux["tests"], c.aux["values"]
        rc = c.ex.S(c.new, c.ret)
        ev = lambda i: EVAL(t.get(i), I(0))
        none = lambda k: forall(0, k, lambda i: ev(i) == 0, pats=lambda i: t.get(i))
        i = z3.Int("case_j")
        hit = lambda i: And(i >= 0, i < n, ev(i) == 1, none(i))
        isv = lambda k: And(rc == STAT[self.kind](v.get(k)), Imp(rc == GOOD, self.same(c, v.get(k))))
        return [("the value of the first WHEN that is true", forall(0, n, lambda i: Imp(And(ev(i) == 1, none(i)), isv(i)), pats=lambda i: t.get(i))),
                ("a WHEN that fails before it is an error", forall(0, n, lambda i: Imp(And(ev(i) == FAIL, none(i)), rc == FAIL), pats=lambda i: t.get(i))),
                ("ELSE when none is true", Imp(And(none(n), m > n), isv(m - 1))), ("NULL when there is no ELSE either", Imp(And(none(n), m == n), rc == NULL_))] + self.nulls(c, rc)

    def nulls(self, c, rc):
        if self.kind == "s":
            return []
        v = c.new.regions[c.args[1].rid].cells.get(0)
        return [("a NULL number is 0 or left alone", null_result(c, c.args[1], self.kind, rc, v[1]))]

    def same(self, c, k):
        o = c.new.regions[c.args[1].rid].cells.get(0)
        if self.kind == "s":
            d = c.get(c.new, c.args[1], "stringview", "data")
            if not isinstance(d, PV) or d.rid is None:
                return z3.BoolVal(False)
            l = c.u(c.new, c.args[1], "stringview", "len")
            t = Txt(c, c.new, d)
            return And(l == TLEN(k), forall(0, l, lambda j: t.at(j) == TARR(k)[j]))
        if self.kind == "f":
            return o[1].t == FVAL(k) if o and isinstance(o[1], FV) else z3.BoolVal(False)
        return c.ex.S(c.new, o[1]) == IVAL(k) if o and isinstance(o[1], IV) else z3.BoolVal(False)


for _n, _k in (("int", "i"), ("float", "f"), ("stringview", "s")):
    contract(type("switchcase_eval_to_" + _n, (CaseVal,), {"name": "switchcase_eval_to_" + _n, "kind": _k, "__doc__": CaseVal.__doc__}))


# ------------------------------------------------------------ the value of an expression
KINDS = [("NULL", {"k": (NULLEX, SUBQUERY)}), ("CASE", {"k": (SWITCH,)}), ("row number", {"k": (ROWNUM,)}), ("whole record", {"k": (REC,)}), ("reference", {"k": (REF,)}),
         ("column", {"k": (COLUMN,)}), ("group", {"k": (GROUPING, AGGREGATE)}), ("none of these", {"k": (UNDEFINED, VARIABLE, ASTERISK)})] + \
        [("function " + n, {"k": (FUNCTION,), "ft": t}) for n, t in (("int", T_INT), ("float", T_FLOAT), ("text", T_STRING))] + \
        [("constant " + n, {"k": (EXPR_CONST,), "ft": t}) for n, t in (("int", T_INT), ("float", T_FLOAT), ("text", T_STRING))]


class Eval(Contract):
    """evaluating an expression yields its status and, when good, its value"""
    kind = "i"
    props = ("C25",)
    cases = KINDS

    # -- the expression itself
    def setup(self, c, st):
        m = c.ex.prog.member
        r = c.ex.new_region(st, "cell", "self", size=c.ex.prog.sizeof("expression"))
        me = PV(r.rid)
        k, ft = c.case["k"], c.case.get("ft")
        e = IV(32, k[0]) if len(k) == 1 else c.ex.fresh_iv(st, 32, "expr")
        if len(k) > 1:
            st.assume(Or(*[c.ex.U(st, e) == x for x in k]))
        put = lambda mm, v: r.cells.__setitem__(m("expression", mm)[0], (m("expression", mm)[1], v))
        put("expr", e)
        put("field_type", IV(32, ft) if ft is not None else c.ex.fresh_iv(st, 32, "field_type"))
        for mm in ("index", "src_idx", "subquery_src_idx"):
            put(mm, c.ex.fresh_iv(st, 32, mm))
        b = mk_str(c, st, "buf", text=True)
        st.assume(Str(c, st, b).size < 2 ** 31)
        embed(c, st, r, m("expression", "buf")[0], b)
        src = c.ex.new_region(st, "cell", "source", size=c.ex.prog.sizeof("expression"), ro=k[0] != REF)
        for mm in ("index", "src_idx", "field_type"):
            src.cells[m("expression", mm)[0]] = (4, c.ex.fresh_iv(st, 32, "source_" + mm))
        put("data_source", PV(src.rid))
        if k[0] == ROWNUM:
            q = c.ex.new_region(st, "cell", "rownum", size=4, ro=True)
            q.cells[0] = (4, c.ex.fresh_iv(st, 32, "rownum"))
            put("rownum_ref", PV(q.rid))
        if k[0] in (SWITCH, FUNCTION):
            q = c.ex.new_region(st, "cell", "code", size=c.ex.prog.sizeof("function" if k[0] == FUNCTION else "switchcase"), ro=True)
            put("field", PV(q.rid))
            if k[0] == FUNCTION:
                q.cells[m("function", "call__")[0]] = (8, FnP(contract="scalar_call"))
        if k[0] == EXPR_CONST:
            put("field", {T_INT: lambda: c.ex.fresh_iv(st, 64, "const", True), T_FLOAT: lambda: FV(z3.Const(fresh_name("const"), FS)), T_STRING: lambda: self.buf(c, me)}[ft]())
        o = ret_place(c, st, self.kind)
        rg = mk_row(c, st)
        return [o, me, PV(rg.rid)]

    def buf(self, c, me):
        return PV(me.rid, Off(c.ex.prog.member("expression", "buf")[0]))

    # -- what a caller sees
    def effect(self, c):
        st = c.new
        p = c.args[1]
        r = st.regions[p.rid]
        if c.mode != "call":
            b = self.buf(c, p)
            havoc_contents(c, st, b)
            replace_data(c, st, b)
            c.havoc_int(st, b, "vec", "_alloc")
            c.havoc_int(st, b, "vec", "size")
            c.ex.store_cell(st, r, c.ex.prog.member("expression", "field")[0], 8, c.ex.fresh_iv(st, 64, "field"))
            c.havoc_int(st, p, "expression", "field_type")
            put_value(c, st, c.args[0], self.kind, None)
            return c.ex.fresh_iv(st, 32, "status", True)
        rc = c.ex.fresh_iv(st, 32, "status", True)
        s = c.ex.S(st, rc)
        st.assume(Or(s == GOOD, s == NULL_, s == FAIL))
        if r.kind == "cell":
            v = put_value(c, st, c.args[0], self.kind, s)
            st.ghost["evaluated"] = (p, s, v)
            if self.kind != "s":
                st.assume(null_result(c, c.args[0], self.kind, s, v))
            return rc
        k, cc = c.ex.resolve(st, r, p.off)
        st.assume(s == STAT[self.kind](k))
        self.store(c, st, k, s)
        return rc

    def pre(self, c):
        if c.mode != "call":
            return []
        r = c.old.regions.get(c.args[1].rid) if isinstance(c.args[1], PV) else None
        if r is None:
            return [("evaluates an expression", z3.BoolVal(False))]
        if r.kind == "cell":
            return [("evaluates an expression", z3.BoolVal(r.size == c.ex.prog.sizeof("expression") and c.args[1].off.const() == 0))] + about_row(c, 2)
        if "live" not in r.ghost:
            return [("evaluates an expression", z3.BoolVal(False))]
        k, cc = c.ex.resolve(c.old, r, c.args[1].off)
        return [("evaluates an expression", And(cc == 0, k >= 1, k < r.count)), ("room for the value", self.room(c))] + about_row(c, 2)

    def room(self, c):
        r = c.old.regions.get(c.args[0].rid) if isinstance(c.args[0], PV) else None
        n = 16 if self.kind == "s" else 8
        if r is None or r.ro or r.opaque or not r.alive:
            return z3.BoolVal(False)
        if r.kind == "cell":
            o = c.args[0].off.const()
            return z3.BoolVal(o is not None and 0 <= o and o + n <= r.size)
        k, o = c.ex.resolve(c.old, r, c.args[0].off)
        return And(k >= 0, k < r.count, z3.BoolVal(self.kind != "s" and o in r.fields and r.fields[o][0] == n))

    # -- what the kinds of expression mean
    def post(self, c):
        if c.mode == "call":
            return []
        k = c.case["k"]
        rc = c.ex.S(c.new, c.ret)
        out = self.out(c)
        fn = {NULLEX: self.isnull, SWITCH: self.delegated, ROWNUM: self.rownum, REC: self.fromrec, REF: self.delegated, COLUMN: self.fromrec, GROUPING: self.fromrec,
              FUNCTION: self.fromfn, EXPR_CONST: self.fromconst, UNDEFINED: lambda c, rc: [("fails", rc == FAIL)]}[k[0]]
        nul = [] if self.kind == "s" else [("a NULL number is 0 or left alone", null_result(c, c.args[0], self.kind, rc, out))]
        return [("a status", Or(rc == GOOD, rc == NULL_, rc == FAIL))] + fn(c, rc) + nul

    def out(self, c):
        if self.kind == "s":
            return None
        v = c.new.regions[c.args[0].rid].cells.get(c.args[0].off.const())
        return v[1] if v else None

    def isnull(self, c, rc):
        return [("NULL", rc == NULL_)]

    def same(self, c, v):
        """the value returned is v"""
        o = self.out(c)
        if self.kind == "i":
            return c.ex.S(c.new, o) == (v if isinstance(v, z3.ExprRef) else c.ex.S(c.new, v)) if isinstance(o, IV) else z3.BoolVal(False)
        if self.kind == "f":
            return o.t == (v if isinstance(v, z3.ExprRef) else v.t) if isinstance(o, FV) else z3.BoolVal(False)
        d, l = v
        if isinstance(l, IV):
            l = c.ex.U(c.new, l)
        sv = c.args[0]
        return And(c.peq(c.get(c.new, sv, "stringview", "data"), d), c.u(c.new, sv, "stringview", "len") == l)

    def delegated(self, c, rc):
        g = c.new.ghost.get("evaluated")
        if g is None:
            return [("evaluates what it stands for", z3.BoolVal(False))]
        p, s, v = g
        want = c.get(c.old, c.args[1], "expression", "field" if c.case["k"][0] == SWITCH else "data_source")
        return [("evaluates what it stands for", c.peq(p, want)), ("has its status", rc == s), ("has its value", Imp(s == GOOD, self.same(c, v)))]

    def rownum(self, c, rc):
        q = c.get(c.old, c.args[1], "expression", "rownum_ref")
        n = c.ex.U(c.old, c.old.regions[q.rid].cells[0][1])
        return [("succeeds", rc == GOOD), ("the row number", self.of_int(c, n))]

    def fmt(self, c, n):
        """the text is n in decimal"""
        L = txt = args = None
        for k, v in c.new.ghost.items():
            if isinstance(k, tuple) and k[0] == "fmt":
                L, txt, args = v
        if args is None or args[0] not in ("%u", "%lu", "%ld", "%d") or len(args) != 2:
            return z3.BoolVal(False)
        b = Str(c, c.new, self.buf(c, c.args[1]))
        val = c.ex.U(c.new, args[1]) if "u" in args[0] else c.ex.S(c.new, args[1])
        return And(val == n, b.size == L, forall(0, L, lambda j: b.at(j) == txt.get(j)), self.same(c, (b.data, b.size)))

    def fromrec(self, c, rc):
        """a field of the record the row has from the right source"""
        g = c.new.ghost.get("record")
        if g is None:
            return [("looks the record up", z3.BoolVal(False))]
        idx, rec = g
        me = c.args[1]
        src = c.get(c.old, me, "expression", "data_source")
        sub = c.s(c.old, me, "expression", "subquery_src_idx")
        k = c.case["k"][0]
        own = c.s(c.old, src, "expression", "src_idx")
        want = c.s(c.old, me, "expression", "src_idx") if k == REC else z3.If(sub == -1, own, sub) if k == COLUMN or self.kind != "s" else own
        out = [("of the right source", c.ex.S(c.new, idx) == want)]
        if rec is None:
            return out + [("NULL when the row has no record of that source", rc == NULL_)]
        if k == REC:
            d = c.ex.prog.member("record", "rec_ref")[0]
            p = PV(rec.rid, Off(d))
            return out + self.of_text(c, rc, c.get(c.new, p, "stringview", "data"), c.u(c.new, p, "stringview", "len"))
        f = Vec(c, c.new, PV(rec.rid, Off(c.ex.prog.member("record", "fields")[0])))
        i = c.u(c.old, src, "expression", "index")
        q = f.r.fields
        t = q[0][1][1]
        there = i < f.size
        missing = Imp(Not(there), rc == NULL_) if not (k == GROUPING and self.kind == "s") else Imp(Not(there), And(rc == GOOD, c.u(c.new, c.args[0], "stringview", "len") == 0))
        return out + [("a field the record lacks is " + ("NULL" if k == COLUMN or self.kind != "s" else "empty"), missing)] + \
            [(nm, Imp(there, x)) for nm, x in self.of_text(c, rc, PV(t, Off(0, {1: q[0][2].get(i)})), q[8][2].get(i))]

    def fromfn(self, c, rc):
        g = c.new.ghost.get("called")
        if g is None:
            return [("calls the function", z3.BoolVal(False))]
        fn, rg, s, v = g
        out = [("calls the function on the same row", And(c.peq(fn, c.get(c.old, c.args[1], "expression", "field")), c.peq(rg, c.args[2]))),
               ("NULL and errors of the function", Imp(s != GOOD, rc == s))]
        return out + [(nm, Imp(s == GOOD, x)) for nm, x in self.convert(c, rc, c.case["ft"], v)]

    def fromconst(self, c, rc):
        ft = c.case["ft"]
        v = Str(c, c.old, self.buf(c, c.args[1])) if ft == T_STRING else c.get(c.old, c.args[1], "expression", "field")
        st, me = c.new, c.args[1]
        out = []
        # whatever it was converted to, the constant still has its value
        t, f = c.s(st, me, "expression", "field_type"), c.get(st, me, "expression", "field")
        return self.convert(c, rc, ft, v)

    def convert(self, c, rc, ft, v):
        if ft == T_INT:
            return [("succeeds", rc == GOOD), ("the number", self.of_int(c, c.ex.S(c.new, v)))]
        if ft == T_FLOAT:
            return [("succeeds", rc == GOOD), ("the number", self.of_float(c, v))]
        return self.of_str(c, rc, v)


class Num:
    def of_text(self, c, rc, d, l):
        """the text at d, of length l, as a number: it is converted as a whole, from the buffer"""
        b = Str(c, c.new, self.buf(c, c.args[1]))
        t = Txt(c, c.new, d)
        return [("the whole text is converted", And(b.size == l, forall(0, l, lambda j: b.at(j) == t.at(j))))] + self.of_str(c, rc, b)

    def of_str(self, c, rc, b):
        A = b.r.fields[0][2].z3(c.new.hyps)
        base = self.base(b)
        ok = And(num_end(A, I(0), base) == b.size, num_inrange(A, I(0), base))
        return [("good exactly when all of it is a number", rc == z3.If(ok, I(GOOD), I(FAIL))), ("that number", Imp(ok, self.same(c, self.val(A, base))))]


@contract
class expression_get_int(Num, Eval):
    """the value of an expression as an integer"""
    name = "expression_get_int"

    def store(self, c, st, k, s):
        v = c.ex.fresh_iv(st, 64, "ival", True)
        st.assume(Imp(s == GOOD, c.ex.S(st, v) == IVAL(k)), null_result(c, c.args[0], "i", s, v))
        put_num(c, st, c.args[0], v)

    def base(self, s):
        return z3.If(And(s.at(0) == 48, s.at(1) == 120), I(16), I(10))

    def val(self, A, b):
        return num_val(A, I(0), b)

    def of_int(self, c, n):
        return self.same(c, n)

    def of_float(self, c, v):
        return self.same(c, uf("f2i_s64", FS, INT)(v.t))


@contract
class expression_get_float(Num, Eval):
    """the value of an expression as a float"""
    name = "expression_get_float"
    kind = "f"

    def store(self, c, st, k, s):
        v = FV(z3.Const(fresh_name("fval"), FS))
        st.assume(Imp(s == GOOD, v.t == FVAL(k)), null_result(c, c.args[0], "f", s, v))
        put_num(c, st, c.args[0], v)

    def base(self, s):
        return I(-1)

    def val(self, A, b):
        return flt_val(A, I(0))

    def of_int(self, c, n):
        return self.same(c, uf("i2f", INT, FS)(n))

    def of_float(self, c, v):
        return self.same(c, v)


@contract
class expression_get_stringview(Eval):
    """the value of an expression as a text"""
    name = "expression_get_stringview"
    kind = "s"

    def of_int(self, c, n):
        return self.fmt(c, n)

    def of_float(self, c, v):
        L = txt = args = None
        for k, x in c.new.ghost.items():
            if isinstance(k, tuple) and k[0] == "fmt":
                L, txt, args = x
        if args is None or args[0] not in ("%lf", "%f") or len(args) != 2 or not isinstance(args[1], FV):
            return z3.BoolVal(False)
        b = Str(c, c.new, self.buf(c, c.args[1]))
        return And(args[1].t == v.t, b.size == L, forall(0, L, lambda j: b.at(j) == txt.get(j)), self.same(c, (b.data, b.size)))

    def of_text(self, c, rc, d, l):
        return [("the text itself", And(rc == GOOD, self.same(c, (d, l))))]

    def of_str(self, c, rc, b):
        n = Str(c, c.new, self.buf(c, c.args[1]))
        return [("the text", And(rc == GOOD, n.size == b.size, forall(0, b.size, lambda j: n.at(j) == b.at(j)), self.same(c, (n.data, n.size))))]

    def store(self, c, st, k, s):
        cnt, n = fint("text_n"), TLEN(k)
        r = c.ex.new_region(st, "arr", "text", stride=1, count=cnt, ro=True)
        a = Base("text")
        a.a = TARR(k)
        r.fields[0] = (1, "int", a)
        r.ghost["nul"] = [n]
        r.ghost["cstr"] = n
        po = c.ex.prog.member("expression", "expr")[0]
        isconst = st.regions[c.args[1].rid].fields[po][2].get(k) == EXPR_CONST
        st.assume(And(n >= 0, n < 2 ** 31, cnt == n + z3.If(isconst, I(1), I(0)), Imp(isconst, a.get(n) == 0)),
                  forall(0, cnt, lambda i: And(a.get(i) >= 0, a.get(i) < 256), pats=lambda i: a.get(i)), forall(0, n, lambda i: a.get(i) != 0, pats=lambda i: a.get(i)))
        c.set(st, c.args[0], "stringview", "data", PV(r.rid))
        l = c.ex.fresh_iv(st, 32, "len")
        st.assume(Imp(s == GOOD, c.ex.U(st, l) == n))
        c.set(st, c.args[0], "stringview", "len", l)
