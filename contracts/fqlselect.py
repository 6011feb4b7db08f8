"""Contracts for lib/fqlselect.c: what a SELECT does with a row.

A row's columns are expressions of one pool (see expression.py).  Handing a row out gives
every API field its column's value; before an ORDER BY the values are appended to a file,
a number as its 8 bytes, a text as its length and its bytes; a subquery used as a value
takes the first column; one used as an IN list adds the value to a set.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
import sx
from strs import *
from vec import Vec, mk_vec
from stringy import MAXS
from expression import STAT, IVAL, FVAL, TARR, TLEN, FAIL, NULL_, GOOD, EXPR_CONST, NULLEX, T_INT, T_FLOAT, T_STRING, mk_exprs

FILE = ["lib/fqlselect.c", "lib/inlist.c", "lib/field.c", "util/vec.c", "util/stringview.c", "util/stringy.c", "util/util.c"]
DEPS = ["expression", "stringview", "stringy", "vec"]
INT = z3.IntSort()
BITS, UNBITS = uf("f2bits", FS, INT), uf("bits2f", INT, FS)
TEXT = z3.Function("TEXT_OF", IA, INT, INT, INT)          # a text: these bytes, from here, so many
AT = z3.Function("COLUMN_STARTS", INT, INT)               # where column j of the row starts in the file
KIND = {T_INT: "i", T_FLOAT: "f", T_STRING: "s"}
LEAST_NULLS = (NULLEX, EXPR_CONST)


def u64(x):
    return z3.If(x < 0, x + 2 ** 64, x)


class Select(Contract):
    """a SELECT: columns (expressions), and where their values go"""
    props = ("C30",)
    frame_check = False

    def mk(self, c, st):
        X = mk_exprs(c, st)
        e, live = None, X.ghost["live"].get
        vp, _ = mk_vec(c, st, "columns", S=8, fields={0: 8}, ro=True)
        d = st.regions[c.get(st, vp, "vec", "data").rid]
        d.fields[0] = (8, ("ptr", X.rid), d.fields[0][2])
        e = d.fields[0][2].get
        n = c.u(st, vp, "vec", "size")
        ft = X.fields[c.fo("expression", "field_type")[0]][2].get
        st.assume(n >= 1, n < 2 ** 31, forall(0, n, lambda i: And(e(i) >= 1, e(i) < X.count, live(e(i)) != 0), pats=lambda i: e(i)))
        cell = lambda nm, ty, ro=True: c.ex.new_region(st, "cell", nm, size=c.ex.prog.sizeof(ty), ro=ro)
        sc = cell("schema", "schema")
        o, sz = c.fo("schema", "expressions")
        sc.cells[o] = (sz, vp)
        cur = cell("current", "fqlselect")
        o, sz = c.fo("fqlselect", "schema")
        cur.cells[o] = (sz, PV(sc.rid))
        s = cell("select", "fqlselect", False)
        for x, v in (("current_select", PV(cur.rid)), ("rownum", c.ex.fresh_iv(st, 32, "rownum")), ("offset", c.ex.fresh_iv(st, 64, "offset"))):
            o, sz = c.fo("fqlselect", x)
            s.cells[o] = (sz, v)
        c.aux.update(X=X.rid, e=e, n=n, ft=lambda i: ft(e(i)), cols=d.rid)
        return s

    def put(self, c, s, x, v):
        o, sz = c.fo("fqlselect", x)
        s.cells[o] = (sz, v)

    def row(self, c, st):
        rec = c.ex.new_region(st, "cell", "record", size=c.ex.prog.sizeof("record"))
        for x in ("offset", "select_len"):
            o, sz = c.fo("record", x)
            rec.cells[o] = (sz, c.ex.fresh_iv(st, 8 * sz, x))
        rg = c.ex.new_region(st, "cell", "rg", size=c.ex.prog.sizeof("node"), ro=True)
        rg.cells[c.fo("node", "data")[0]] = (8, PV(rec.rid))
        st.ghost["row"] = PV(rg.rid)
        c.aux["rec"] = PV(rec.rid)
        return PV(rg.rid)

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("a SELECT seen from a caller")
        return c.ex.fresh_iv(c.new, 32, "status", True)

    def counted(self, c):
        """the row number counts up"""
        o, n = c.u(c.old, c.args[0], "fqlselect", "rownum"), c.u(c.new, c.args[0], "fqlselect", "rownum")
        return ("the row is numbered", n == z3.If(o == 2 ** 32 - 1, I(0), o + 1))


def dest(c, st, s):
    """the expression a subquery's value goes to"""
    r = c.ex.new_region(st, "cell", "const", size=c.ex.prog.sizeof("expression"))
    for x in ("expr", "field_type"):
        o, sz = c.fo("expression", x)
        r.cells[o] = (sz, c.ex.fresh_iv(st, 32, x))
    o, sz = c.fo("expression", "field")
    r.cells[o] = (sz, c.ex.fresh_iv(st, 64, "field"))
    b = mk_str(c, st, "buf", text=True)
    bo = c.fo("expression", "buf")[0]
    for o, v in st.regions[b.rid].cells.items():
        r.cells[bo + o] = v
    st.regions[c.get(st, b, "vec", "data").rid].heap = True
    del st.regions[b.rid]
    o, sz = c.fo("fqlselect", "const_dest")
    s.cells[o] = (sz, PV(r.rid))
    c.aux["dest"] = PV(r.rid)
    return PV(r.rid)


# ------------------------------------------------------------ a subquery as a value
@contract
class _select_record_to_const(Select):
    """the value of a subquery: its only row's; a second row is an error"""
    name = "_select_record_to_const"

    def setup(self, c, st):
        s = self.mk(c, st)
        dest(c, st, s)
        return [PV(s.rid), self.row(c, st)]

    def post(self, c):
        d = c.aux["dest"]
        rc = c.ex.S(c.new, c.ret)
        k, ft = c.aux["e"](I(0)), c.aux["ft"](I(0))
        had = c.u(c.old, d, "expression", "expr")
        kind, typ = c.u(c.new, d, "expression", "expr"), c.u(c.new, d, "expression", "field_type")
        second = Or(had == EXPR_CONST, had == NULLEX)
        out = [self.counted(c), ("a status", Or(rc == 1, rc == FAIL)), ("a second row is an error", Imp(second, rc == FAIL))]
        v = c.new.regions[d.rid].cells[c.fo("expression", "field")[0]][1]
        for t, x in KIND.items():
            st_ = STAT[x](k)
            at = And(Not(second), ft == t)
            if t == T_FLOAT:
                val = v.t == FVAL(k) if isinstance(v, FV) else z3.BoolVal(False)
            elif t == T_INT:
                val = z3.BoolVal(False) if isinstance(v, (FV, PV)) else c.ex.S(c.new, v) == IVAL(k)
            else:
                b = PV(d.rid, Off(c.fo("expression", "buf")[0]))
                s = Str(c, c.new, b)
                val = And(c.peq(v, b), s.size == TLEN(k), forall(0, TLEN(k), lambda i: s.at(i) == TARR(k)[i])) if isinstance(v, PV) else z3.BoolVal(False)
            w = {"i": "an integer", "f": "a float", "s": "a text"}[x]
            out += [("%s: an error exactly when it fails" % w, Imp(at, (rc == FAIL) == (st_ == FAIL))),
                    ("%s: the type" % w, Imp(And(at, rc == 1), typ == t)),
                    ("%s: NULL" % w, Imp(And(at, st_ == NULL_), kind == NULLEX)),
                    ("%s: the value" % w, Imp(And(at, st_ == GOOD), And(kind == EXPR_CONST, val)))]
        return out + [("an unknown type is an error", Imp(Not(Or(*[ft == t for t in KIND])), rc == FAIL))]


# ------------------------------------------------------------ rows through the API
def is_pooled(st, p):
    r = st.regions.get(p.rid) if isinstance(p, PV) else None
    return r is not None and r.ghost.get("strings")


class Pooled:
    """one of several strings: its text is kept as length (field 8) and TEXT_OF value (field 40)"""

    def text(self, c):
        raise NotImplementedError

    def pre(self, c):
        if not is_pooled(c.old, c.args[0]):
            return super().pre(c)
        r = c.old.regions[c.args[0].rid]
        k, o = c.ex.resolve(c.old, r, c.args[0].off)
        return [("a string", And(o == 0, k >= 1, k < r.count, r.ghost["live"].get(k) != 0))] + self.more_pre(c)

    def more_pre(self, c):
        return []

    def effect(self, c):
        if not is_pooled(c.old, c.args[0]):
            return super().effect(c)
        st = c.new
        r = st.regions[c.args[0].rid]
        k, o = c.ex.resolve(st, r, c.args[0].off)
        n, t = self.text(c)
        a = fint("block")
        st.assume(a > 0, a < 2 ** 64)
        for x, v in ((0, a), (8, n), (40, t)):
            f = r.fields[x]
            r.fields[x] = (f[0], f[1], St(f[2], k, v))
        return None

    def post(self, c):
        return [] if is_pooled(c.old, c.args[0]) else super().post(c)


class CopyText(Pooled, type(REG["string_copy_from_stringview"])):
    def view(self, c):
        d, n = c.get(c.old, c.args[1], "stringview", "data"), c.u(c.old, c.args[1], "stringview", "len")
        return d, n, Txt(c, c.old, d)

    def more_pre(self, c):
        d, n, t = self.view(c)
        return [("view: bytes", And(t.k >= 0, t.k + n <= t.r.count))]

    def text(self, c):
        d, n, t = self.view(c)
        return n, TEXT(t.r.fields[0][2].z3(c.old.hyps), t.k, n)


class ClearText(Pooled, type(REG["string_clear"])):
    def text(self, c):
        return I(0), I(0)


REG["string_copy_from_stringview"] = CopyText()
REG["string_clear"] = ClearText()


@contract
class _select_record_api(Select):
    """gives every API field the value of its column"""
    name = "_select_record_api"

    def setup(self, c, st):
        s = self.mk(c, st)
        T = builtins_c.mk_pool(c.ex, st, "strings", 48, {0: (8, "int"), 8: (8, "int"), 40: (8, "int")})
        T.ghost["strings"] = True
        c.ex.pools.clear()
        S = c.ex.prog.sizeof("fql_field")
        F = {x: c.fo("fql_field", x) for x in ("type", "data", "_in", "is_null")}
        vp, _ = mk_vec(c, st, "api", S=S, fields=dict(F.values()))
        A = st.regions[c.get(st, vp, "vec", "data").rid]
        io = F["_in"][0]
        A.fields[io] = (8, ("ptr", T.rid), A.fields[io][2])
        st.regions[vp.rid].ro = True
        own, live = A.fields[io][2].get, T.ghost["live"].get
        n, ft = c.aux["n"], c.aux["ft"]
        i, j = z3.Int("fa_i"), z3.Int("fa_j")
        st.assume(c.u(st, vp, "vec", "size") == n, forall(0, n, lambda i: Imp(ft(i) == T_STRING, And(own(i) >= 1, own(i) < T.count, live(own(i)) != 0)), pats=lambda i: c.aux["e"](i)),
                  z3.ForAll([i, j], Imp(And(0 <= i, i < j, j < n, ft(i) == T_STRING, ft(j) == T_STRING), own(i) != own(j)), patterns=[z3.MultiPattern(c.aux["e"](i), c.aux["e"](j))]))
        self.put(c, s, "api", vp)
        c.aux.update(api=A.rid, T=T.rid, own=own, F={k: v[0] for k, v in F.items()})
        return [PV(s.rid), self.row(c, st)]

    def columns(self, c, st, hi):
        A, T = st.regions[c.aux["api"]], st.regions[c.aux["T"]]
        F, e, ft, own = c.aux["F"], c.aux["e"], c.aux["ft"], c.aux["own"]
        val, nul = A.fields[F["data"]][2].get, A.fields[F["is_null"]][2].get
        ta, tl, tt = (T.fields[x][2].get for x in (0, 8, 40))
        zero = BITS(c.ex.fconst(0.0))
        out = []
        for t, x in KIND.items():
            k, w = STAT[x], {"i": "integers", "f": "floats", "s": "texts"}[x]
            good = {"i": lambda j: val(j) == u64(IVAL(e(j))), "f": lambda j: val(j) == BITS(FVAL(e(j))),
                    "s": lambda j: And(val(j) == ta(own(j)), tl(own(j)) == TLEN(e(j)), tt(own(j)) == TEXT(TARR(e(j)), I(0), TLEN(e(j))))}[x]
            none = {"i": lambda j: val(j) == 0, "f": lambda j: val(j) == zero, "s": lambda j: And(val(j) == ta(own(j)), tl(own(j)) == 0)}[x]
            out += [("%s: values" % w, forall(0, hi, lambda j: Imp(And(ft(j) == t, k(e(j)) == GOOD), And(nul(j) == 0, good(j))), pats=lambda j: e(j))),
                    ("%s: NULLs" % w, forall(0, hi, lambda j: Imp(And(ft(j) == t, k(e(j)) == NULL_), And(nul(j) == 1, none(j))), pats=lambda j: e(j))),
                    ("%s: none failed" % w, forall(0, hi, lambda j: Imp(ft(j) == t, k(e(j)) != FAIL), pats=lambda j: e(j)))]
        return out

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            K = lp.K
            out = [("columns done", And(K >= 0, K <= c.aux["n"])), ("variant", c.aux["n"] - K)]
            for nm, v in lp.intphis():
                out.append(("maybe", "counter (%s)" % nm, c.ex.U(lp.st, v) == K))
            for rid in (c.aux["api"], c.aux["cols"]):
                R = lp.st.regions[rid]
                for p in lp.ptrs(rid):
                    out.append(("maybe", "column reached", c.peq(p, PV(rid, Off(0, {R.stride: K})), lp.st)))
            return out + self.columns(c, lp.st, K)
        return [l0]

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        n, e, ft = c.aux["n"], c.aux["e"], c.aux["ft"]
        j = z3.Int("fa_k")
        return [self.counted(c), ("one row or an error", Or(rc == 1, rc == FAIL)),
                ("an error only for a column that fails", Imp(rc == FAIL, z3.Exists([j], And(j >= 0, j < n, Or(*[And(ft(j) == t, STAT[x](e(j)) == FAIL) for t, x in KIND.items()])))))] + \
            [(nm, Imp(rc == 1, f)) for nm, f in self.columns(c, c.new, n)]


# ------------------------------------------------------------ rows kept for ORDER BY
@contract
class writer_get_file(Contract):
    """the file a writer writes to"""
    name = "writer_get_file"
    trusted = True
    spec_only = True

    def effect(self, c):
        return c.new.ghost["outfile"][0]


@contract
class _select_record_order_api(Select):
    """appends the row's values to the file the ORDER BY reads back"""
    name = "_select_record_order_api"
    cases = [("", {"const": False}), ("subquery", {"const": True})]

    def setup(self, c, st):
        s = self.mk(c, st)
        if c.case["const"]:
            dest(c, st, s)
        else:
            self.put(c, s, "const_dest", NULL)
        f = c.ex.new_region(st, "cell", "file", size=216)
        b = c.ex.new_region(st, "arr", "file_bytes", stride=1, count=I(2 ** 60))
        b.fields[0] = (1, "int", Base("file_bytes"))
        p = c.ex.new_region(st, "cell", "file_pos", size=8)
        w = c.ex.new_region(st, "cell", "writer", size=c.ex.prog.sizeof("writer"), ro=True)
        self.put(c, s, "writer", PV(w.rid))
        off = c.u(st, PV(s.rid), "fqlselect", "offset")
        p.cells[0] = (8, IV(64, off, u=True))          # the SELECT knows where the file ends
        st.ghost["outfile"] = (PV(f.rid), b.rid, p.rid)
        n, ft, e = c.aux["n"], c.aux["ft"], c.aux["e"]
        st.assume(off < 2 ** 50, AT(I(0)) == off, forall(0, n, lambda j: And(AT(j + 1) == AT(j) + self.width(c, j), AT(j + 1) - off < 2 ** 32), pats=lambda j: e(j)),
                  forall(0, n, lambda j: And(TLEN(e(j)) >= 0, TLEN(e(j)) < 2 ** 31), pats=lambda j: e(j)))
        return [PV(s.rid), self.row(c, st)]

    def width(self, c, j):
        k, ft = c.aux["e"](j), c.aux["ft"](j)
        return z3.If(Or(ft == T_INT, ft == T_FLOAT), I(8), z3.If(ft == T_STRING, 4 + z3.If(STAT["s"](k) == GOOD, TLEN(k), I(0)), I(0)))

    def content(self, c, st, hi):
        f, b_, p_ = st.ghost["outfile"]
        pos = c.ex.U(st, st.regions[p_].cells[0][1])
        F, F0 = st.regions[b_].fields[0][2].get, c.old.regions[b_].fields[0][2].get
        e, ft = c.aux["e"], c.aux["ft"]
        off = c.u(c.old, c.args[0], "fqlselect", "offset")
        j, b = z3.Int(fresh_name("j")), z3.Int(fresh_name("b"))
        bits = lambda j: z3.If(ft(j) == T_INT, z3.If(STAT["i"](e(j)) == GOOD, u64(IVAL(e(j))), I(0)), z3.If(STAT["f"](e(j)) == GOOD, BITS(FVAL(e(j))), BITS(c.ex.fconst(0.0))))
        size = lambda j: z3.If(STAT["s"](e(j)) == GOOD, TLEN(e(j)), I(0))
        in_ = lambda j, b, w: And(0 <= j, j < hi, 0 <= b, b < w)
        num = lambda j: Or(ft(j) == T_INT, ft(j) == T_FLOAT)
        return [("the file ends after them", pos == AT(hi)), ("they follow each other", forall(0, hi, lambda j: And(AT(j) >= off, AT(j) + self.width(c, j) <= pos), pats=lambda j: e(j))),
                ("what was there stays", forall(0, off, lambda i: F(i) == F0(i))),
                ("numbers", forall_m([j, b], Imp(And(in_(j, b, 8), num(j)), F(AT(j) + b) == sx.byte(bits(j), b)), e(j), F(AT(j) + b))),
                ("lengths", forall_m([j, b], Imp(And(in_(j, b, 4), ft(j) == T_STRING), F(AT(j) + b) == sx.byte(size(j), b)), e(j), F(AT(j) + b))),
                ("texts", forall_m([j, b], Imp(And(in_(j, b, TLEN(e(j))), ft(j) == T_STRING, STAT["s"](e(j)) == GOOD), F(AT(j) + 4 + b) == TARR(e(j))[b]), TARR(e(j))[b])),
                ("none failed", forall(0, hi, lambda j: And(*[Imp(ft(j) == t, STAT[x](e(j)) != FAIL) for t, x in KIND.items()]), pats=lambda j: e(j)))]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            K = lp.K
            off = c.u(c.old, c.args[0], "fqlselect", "offset")
            out = [("columns done", And(K >= 0, K <= c.aux["n"], AT(K) >= off, AT(K) - off < 2 ** 32)), ("variant", c.aux["n"] - K)]
            for nm, v in lp.intphis():
                x = c.ex.U(lp.st, v)
                out += [("maybe", "counter (%s)" % nm, x == K), ("maybe", "length so far (%s)" % nm, x == AT(K) - off), ("maybe", "place (%s)" % nm, x == AT(K))]
            R = lp.st.regions[c.aux["cols"]]
            for p in lp.ptrs(R.rid):
                out.append(("maybe", "column reached", c.peq(p, PV(R.rid, Off(0, {R.stride: K})), lp.st)))
            return out + self.content(c, lp.st, K)
        return [l0]

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        n, e, ft = c.aux["n"], c.aux["e"], c.aux["ft"]
        j = z3.Int("fo_k")
        s, rec = c.args[0], c.aux["rec"]
        off = c.u(c.old, s, "fqlselect", "offset")
        out = [self.counted(c), ("one row or an error", Or(rc == 1, rc == FAIL)),
               ("an error only for a column that fails", Imp(rc == FAIL, z3.Exists([j], And(j >= 0, j < n, Or(*[And(ft(j) == t, STAT[x](e(j)) == FAIL) for t, x in KIND.items()]))))),
               ("the record knows where its values start", Imp(rc == 1, c.u(c.new, rec, "record", "offset") == off)),
               ("the next row goes behind", Imp(rc == 1, c.u(c.new, s, "fqlselect", "offset") == AT(n)))] + \
            [(nm, Imp(rc == 1, f)) for nm, f in self.content(c, c.new, n)]
        if c.case["const"]:
            out.append(("the ORDER BY is told the type", Imp(rc == 1, c.u(c.new, c.aux["dest"], "expression", "field_type") == ft(I(0)))))
        return out


# ------------------------------------------------------------ a subquery as an IN list
@contract
class set_nadd(Contract):
    """adds a value to a set (property C03)"""
    name = "set_nadd"
    trusted = True
    spec_only = True

    def pre(self, c):
        p, n = c.args[1], c.ex.U(c.old, c.args[2])
        r = c.ex.getr(c.old, p, "value added to a set")
        out = [("the set of the list", c.peq(c.args[0], c.ex.root.aux["set"]))]
        if r.kind == "cell":
            return out + [("value: bytes", And(p.off.z() >= 0, p.off.z() + n <= r.size))]
        k, _ = c.ex.resolve(c.old, r, p.off)
        return out + [("value: bytes", And(k >= 0, k + n <= r.count))]

    def effect(self, c):
        p, n = c.args[1], c.ex.U(c.old, c.args[2])
        r = c.old.regions[p.rid]
        if r.kind == "cell":
            v = r.cells.get(p.off.const(), (0, None))
            x = ("num", v[0], v[1], n)
        else:
            x = ("text", r.fields[0][2], c.ex.resolve(c.old, r, p.off)[0], n)
        c.new.ghost["added"] = c.new.ghost.get("added", ()) + (x,)
        return c.ex.fresh_iv(c.new, 32, "rc", True)


def canon(c, x):
    """the same bits for equal floats: -0 + 0 = 0"""
    return uf("fadd", FS, FS, FS)(x, c.ex.fconst(0.0))


@contract
class _select_record_to_list(Select):
    """adds the row's value to the list, as the type the list is compared with; NULL is equal to nothing and left out"""
    name = "_select_record_to_list"

    def setup(self, c, st):
        s = self.mk(c, st)
        t = c.ex.new_region(st, "cell", "set", size=c.ex.prog.sizeof("hashmap"))
        self.put(c, s, "list_data", PV(t.rid))
        self.put(c, s, "list_type", c.ex.fresh_iv(st, 32, "list_type"))
        c.aux["set"] = PV(t.rid)
        return [PV(s.rid), self.row(c, st)]

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        k = c.aux["e"](I(0))
        t = c.u(c.old, c.args[0], "fqlselect", "list_type")
        a = c.new.ghost.get("added", ())
        out = [self.counted(c), ("a status", Or(rc == 1, rc == FAIL)), ("no more than one value is added", z3.BoolVal(len(a) <= 1)),
               ("an unknown type is an error", Imp(Not(Or(*[t == y for y in KIND])), rc == FAIL))]
        nan = uf("f_nan", FS, BOOL)(FVAL(k))
        for ty, x in KIND.items():
            s, w = STAT[x](k), {"i": "an integer", "f": "a float", "s": "a text"}[x]
            out += [("%s: an error exactly when it fails" % w, Imp(t == ty, (rc == FAIL) == (s == FAIL)))]
            skip = Or(s == NULL_, nan) if x == "f" else s == NULL_
            if len(a) == 1:
                kind, p, q, n = a[0]
                if kind == "num":
                    v = z3.BoolVal(False)
                    if p == 8 and x == "f" and isinstance(q, FV):
                        v = And(n == 8, q.t == canon(c, FVAL(k)))
                    if p == 8 and x == "i" and isinstance(q, IV):
                        v = And(n == 8, c.ex.S(c.new, q) == IVAL(k))
                else:
                    v = And(n == TLEN(k), forall(0, n, lambda i: p.get(q + i) == TARR(k)[i])) if x == "s" else z3.BoolVal(False)
                out += [("%s: NULL is left out" % w, Imp(t == ty, Not(skip))), ("%s: the value" % w, Imp(t == ty, And(s == GOOD, v)))]
            else:
                out += [("%s: every other value is added" % w, Imp(And(t == ty, s == GOOD), skip))]
        return out


@contract
class write_record(Contract):
    """writes a row: the number of bytes written, or an error"""
    name = "write_record"
    trusted = True
    spec_only = True

    def pre(self, c):
        r = c.ex.root
        return [("the SELECT's writer", c.peq(c.args[0], r.aux["writer"])), ("its columns", c.peq(c.args[1], r.aux["columns"])), ("this row", c.peq(c.args[2], r.args[1])), ("to the writer's own file", c.peq(c.args[3], NULL))]

    def effect(self, c):
        n = c.ex.fresh_iv(c.new, 32, "written", True)
        c.new.assume(Or(c.ex.S(c.new, n) >= 0, c.ex.S(c.new, n) == FAIL))
        c.new.ghost["row_written"] = c.new.ghost.get("row_written", ()) + (c.ex.S(c.new, n),)
        return n


@contract
class _select_record(Select):
    """writes the row; its record then knows where in the output it is"""
    name = "_select_record"
    cases = [("", {"row": True}), ("no row", {"row": False})]

    def setup(self, c, st):
        s = self.mk(c, st)
        w = c.ex.new_region(st, "cell", "writer", size=c.ex.prog.sizeof("writer"), ro=True)
        o, sz = c.fo("writer", "write_record__")
        w.cells[o] = (sz, FnP(contract="write_record"))
        self.put(c, s, "writer", PV(w.rid))
        sc = c.get(st, c.get(st, PV(s.rid), "fqlselect", "current_select"), "fqlselect", "schema")
        st.assume(c.u(st, PV(s.rid), "fqlselect", "offset") < 2 ** 62)
        c.aux.update(writer=PV(w.rid), columns=c.get(st, sc, "schema", "expressions"))
        return [PV(s.rid), self.row(c, st) if c.case["row"] else NULL]

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        w = c.new.ghost.get("row_written", ())
        s = c.args[0]
        off, new = c.u(c.old, s, "fqlselect", "offset"), c.u(c.new, s, "fqlselect", "offset")
        if len(w) != 1:
            return [("written once", z3.BoolVal(False))]
        out = [self.counted(c), ("written once", z3.BoolVal(True)), ("what the writer says", rc == w[0])]
        if c.case["row"]:
            rec = c.aux["rec"]
            out += [("the record knows its place", Imp(rc != FAIL, And(c.u(c.new, rec, "record", "offset") == off, c.u(c.new, rec, "record", "select_len") == rc))),
                    ("the next row goes behind", Imp(rc != FAIL, new == off + rc)), ("an error leaves the place", Imp(rc == FAIL, new == off))]
        return out


# ------------------------------------------------------------ preparing an IN list
ASTERISK, NOCASE_RTRIM = 10, 3
FOLD = uf("TYPE_SO_FAR", INT, INT)      # the type of the comparison after the left side and k columns


def both(a, b):
    """the type two types are compared as: a text gives way to a number, mixed numbers are floats"""
    return z3.If(a == b, a, z3.If(a == T_STRING, b, z3.If(b == T_STRING, a, I(T_FLOAT))))


def columns_of(c, st):
    return c.u(st, c.aux["cv"], "vec", "size"), st.regions[c.aux["cols"]].fields[0][2].get


@contract
class inlist_determine_type(Select):
    """the type an IN is compared as"""
    name = "inlist_determine_type"
    cases = [("", {"sub": False}), ("subquery", {"sub": True})]
    inlist_ro = True

    def inlist(self, c, st, s, sub):
        il = c.ex.new_region(st, "cell", "inlist", size=c.ex.prog.sizeof("inlist"), ro=self.inlist_ro)
        q = c.ex.new_region(st, "cell", "query", size=c.ex.prog.sizeof("query"), ro=True)
        o, sz = c.fo("query", "op")
        q.cells[o] = (sz, PV(s.rid))
        for x, v in (("subquery", PV(q.rid) if sub else NULL), ("expressions", NULL)):
            o, sz = c.fo("inlist", x)
            il.cells[o] = (sz, v)
        sc = c.get(st, c.get(st, PV(s.rid), "fqlselect", "current_select"), "fqlselect", "schema")
        if not sub:
            o, sz = c.fo("inlist", "expressions")
            il.cells[o] = (sz, c.get(st, sc, "schema", "expressions"))
        self.put(c, s, "schema", sc)
        X = st.regions[c.aux["X"]]
        k = fint("left")
        st.assume(And(k >= 1, k < X.count, X.ghost["live"].get(k) != 0))
        left = PV(X.rid, Off(0, {X.stride: k}))
        ft = X.fields[c.fo("expression", "field_type")[0]][2].get
        c.aux.update(left=left, leftk=k, fte=ft)
        st.assume(ft(k) < 3, forall(0, c.aux["n"], lambda i: ft(c.aux["e"](i)) < 3, pats=lambda i: c.aux["e"](i)))
        self.define(c, st, lambda i: ft(c.aux["e"](i)), ft(k), c.aux["n"], c.aux["e"])
        return PV(il.rid), left

    def define(self, c, st, ft, left, n, e):
        st.assume(FOLD(I(0)) == left, forall(0, n, lambda i: FOLD(i + 1) == both(FOLD(i), ft(i)), pats=lambda i: e(i)))

    def setup(self, c, st):
        s = self.mk(c, st)
        il, left = self.inlist(c, st, s, c.case["sub"])
        return [il, left]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            K = lp.K
            out = [("columns done", And(K >= 0, K <= c.aux["n"])), ("variant", c.aux["n"] - K), ("a type", And(FOLD(K) >= 0, FOLD(K) < 3))]
            for nm, v in lp.intphis():
                out.append(("maybe", "type so far (%s)" % nm, c.ex.U(lp.st, v) == FOLD(K)))
            R = lp.st.regions[c.aux["cols"]]
            for p in lp.ptrs(R.rid):
                out.append(("maybe", "column reached", c.peq(p, PV(R.rid, Off(0, {R.stride: K})), lp.st)))
            return out
        return [l0]

    def pre(self, c):
        if c.mode != "call":
            return []
        r = c.ex.root.aux
        n, e = columns_of(c.ex.root, c.old)
        return [("the list of this SELECT", c.peq(c.args[0], r["il"])), ("the left side", c.peq(c.args[1], r["left"])), ("types", And(r["fte"](r["leftk"]) < 3, forall(0, n, lambda i: r["fte"](e(i)) < 3, pats=lambda i: e(i))))]

    def effect(self, c):
        if c.mode != "call":
            return c.ex.fresh_iv(c.new, 32, "type")
        v = c.ex.fresh_iv(c.new, 32, "type")
        n, e = columns_of(c.ex.root, c.new)
        c.new.assume(Imp(n == 0, c.ex.U(c.new, v) == c.ex.root.aux["fte"](c.ex.root.aux["leftk"])),
                     Imp(n == 1, c.ex.U(c.new, v) == both(c.ex.root.aux["fte"](c.ex.root.aux["leftk"]), c.ex.root.aux["fte"](e(I(0))))))
        return v

    def post(self, c):
        if c.mode == "call":
            return []
        return [("the type of all of them", c.ex.U(c.new, c.ret) == FOLD(c.aux["n"]))]


@contract
class op_expand_asterisks(Contract):
    """puts the source's columns in the place of an asterisk"""
    name = "op_expand_asterisks"
    trusted = True
    spec_only = True

    def pre(self, c):
        return [("this subquery", c.peq(c.args[0], c.ex.root.aux["query"]))]

    def effect(self, c):
        r, st = c.ex.root, c.new
        n = c.ex.fresh_iv(st, 32, "columns")
        c.set(st, r.aux["cv"], "vec", "size", n)
        d = st.regions[r.aux["cols"]]
        d.fields[0] = (8, d.fields[0][1], Base("expanded"))
        e, X = d.fields[0][2].get, st.regions[r.aux["X"]]
        N = c.ex.U(st, n)
        st.assume(N < 2 ** 31, N <= d.count, forall(0, N, lambda i: And(e(i) >= 1, e(i) < X.count, r.aux["fte"](e(i)) < 3), pats=lambda i: e(i)))
        st.ghost["expanded"] = True
        return c.ex.fresh_iv(st, 32, "rc", True)


@contract
class set_construct(Contract):
    """makes a set (property C03)"""
    name = "set_construct"
    trusted = True
    spec_only = True

    def effect(self, c):
        c.new.ghost["sets"] = c.new.ghost.get("sets", ()) + ((c.args[0], c.ex.U(c.new, c.args[2])),)
        return c.args[0]


@contract
class fqlselect_set_as_inlist(inlist_determine_type):
    """makes a subquery collect the values of an IN list; numbers are kept in binary, texts without regard to case and trailing blanks"""
    name = "fqlselect_set_as_inlist"
    cases = [("", {})]
    inlist_ro = False
    loops = []

    def setup(self, c, st):
        s = self.mk(c, st)
        il, left = self.inlist(c, st, s, True)
        sc = c.get(st, PV(s.rid), "fqlselect", "schema")
        cv = c.get(st, sc, "schema", "expressions")
        st.regions[cv.rid].ro = st.regions[c.aux["cols"]].ro = False
        c.aux.update(il=il, cv=cv, query=c.get(st, il, "inlist", "subquery"))
        return [PV(s.rid), il, left]

    def define(self, *a):
        pass

    def pre(self, c):
        return []

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("a SELECT seen from a caller")
        return c.ex.fresh_iv(c.new, 32, "status", True)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        n, e = columns_of(c, c.new)
        s, il = c.args[0], c.args[1]
        n0 = c.aux["n"]
        kind = c.old.regions[c.aux["X"]].fields[c.fo("expression", "expr")[0]][2].get(c.aux["e"](I(0)))
        out = [("one column", rc == z3.If(n == 1, I(GOOD), I(FAIL))),
               ("an asterisk stands for its columns", z3.BoolVal(bool(c.new.ghost.get("expanded"))) == And(n0 == 1, kind == ASTERISK))]
        t = c.u(c.new, s, "fqlselect", "list_type")
        w = both(c.aux["fte"](c.aux["leftk"]), c.aux["fte"](e(I(0))))
        sets = c.new.ghost.get("sets", ())
        ok = n == 1
        if len(sets) != 1:
            return out + [("a set for the values", Not(ok))]
        p, pr = sets[0]
        fn = c.get(c.new, s, "fqlselect", "select__")
        return out + [("the type of the comparison", Imp(ok, t == w)), ("the set: list", Imp(ok, c.peq(c.get(c.new, il, "inlist", "list_data"), p))), ("the set: SELECT", Imp(ok, c.peq(c.get(c.new, s, "fqlselect", "list_data"), p))),
                      ("texts without regard to case and trailing blanks, numbers exactly", Imp(ok, pr == z3.If(w == T_STRING, I(NOCASE_RTRIM), I(0)))),
                      ("its rows go into the set", Imp(ok, z3.BoolVal(isinstance(fn, FnP) and "_select_record_to_list" in (getattr(fn, "name", None), getattr(fn, "contract", None)))))]
