"""Contracts for the operators between the rings (lib/fqlprocesses.c): reading, WHERE,
DISTINCT, GROUP BY, SELECT, ORDER BY, DELETE.

As for the joins, the rows that wait are a sequence that begin, iter and end walk; a row
that has been handled is sent on or given back once, and only then the next one is taken.
"""
from hashjoin import *
from hashjoin import Filter, Fifo, Walk, Pipe, HOLDS, ROOM, FULL, FAIL, n_of, set_n, u64, I, INT
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
from vec import mk_vec

FILE = ["lib/fqlprocesses.c", "util/vec.c"]
DEPS = ["hashjoin", "vec"]
ANSWER = uf("ANSWER_FOR_ROW", INT, INT)      # of what is called with the row at a place: kept, new, ...
MAX = 2 ** 64 - 1


# ------------------------------------------------------------ what is called
class Called(Contract):
    trusted = True
    spec_only = True

    def effect(self, c):
        return c.ex.root.con.called(c, self.name)


@contract
class group_record(Called):
    """puts a row in its group: 1 for a group's first row (property C27)"""
    name = "group_record"


@contract
class group_dump_record(Called):
    """the next group's row (property C27)"""
    name = "group_dump_record"


@contract
class select_row(Called):
    """hands a row to its destination (property C30)"""
    name = "select_row"


@contract
class order_add_record(Called):
    """keeps a row's keys (property C28)"""
    name = "order_add_record"


@contract
class order_sort(Called):
    """sorts (property C28)"""
    name = "order_sort"


@contract
class order_out(Called):
    """hands sorted rows out (property C28)"""
    name = "order_out"


@contract
class undelete(Called):
    """writes a row that stays"""
    name = "undelete"


@contract
class update_row(Called):
    """writes a row with its new values"""
    name = "update_row"


@contract
class noupdate_row(Called):
    """writes a row as it is"""
    name = "noupdate_row"


@contract
class fqlselect_next_union(Called):
    """turns to the next SELECT of a UNION: 0 if there is none"""
    name = "fqlselect_next_union"


@contract
class writer_close(Called):
    """ends the output"""
    name = "writer_close"


@contract
class fifo_set_open(Called):
    """opens or closes a ring (property C12)"""
    name = "fifo_set_open"


class Op(Filter):
    """an operator with one input; what it has to do with a row in `answers`"""
    props = ("C31",)
    seen = True             # something is called with the row, once

    def begin(self, c, st, false=True, true=True, queried=True):
        pr = self.mk_filter(c, st, false, true)
        if not queried:
            c.aux["queried"] = None
        pr.ro = False
        return pr

    def cell(self, c, st, r, ty, x, v):
        o, w = c.fo(ty, x)
        r.cells[o] = (w, v)

    def fresh(self, c, st, r, ty, x):
        o, w = c.fo(ty, x)
        v = c.ex.fresh_iv(st, 8 * w, x)
        r.cells[o] = (w, v)
        return c.ex.U(st, v)

    def turn(self, c, st):
        """place, node of the row in turn"""
        p = n_of(c, st, "pos")
        return p, c.ex.root.aux["nd"](p)

    def asked(self, c, args, also=(), name="the row in turn is handled, once {C31}"):
        """something is called with the row in turn"""
        st, a = c.new, c.ex.root.aux
        p, k = self.turn(c, st)
        c.ex.oblige(st, And(p < a["n"], n_of(c, st, "handed") == 0, n_of(c, st, "out") == 0, c.peq(args, self.node(c, k)), *also), "pre", name)
        set_n(st, c.ex.root, "handed", I(1))
        rc = c.ex.fresh_iv(st, 32, "answer", True)
        st.assume(c.ex.S(st, rc) == ANSWER(p))
        return rc

    def gone(self, c, cond, name):
        st = c.new
        c.ex.oblige(st, And(n_of(c, st, "out") == 0, n_of(c, st, "handed") == 1 if self.seen else z3.BoolVal(True), cond), "pre", name + " {C31}")
        set_n(st, c.ex.root, "out", I(1))
        return None

    def slot_now(self, c, p):
        return c.peq(p, self.slot(c, n_of(c, c.new, "pos")))

    def row_done(self, c):
        return [("a row is left when it has been handled and has gone on or back", And(n_of(c, c.old, "out") == 1, n_of(c, c.old, "handed") == (1 if self.seen else 0)))]

    def invariant(self, lp):
        return super().invariant(lp) + [("the row in turn is not handled", n_of(lp.root, lp.st, "handed") == 0)]

    def taken(self, c, p, but=()):
        """the rows done leave the ring"""
        rc, up = c.ex.S(c.new, c.ret), c.new.ghost.get("updated", ())
        return ("the rows done are taken out", Imp(p > 0, Or(rc == FAIL, *but, And(z3.BoolVal(len(up) == 1), up[0] == p if up else z3.BoolVal(False)))))


def full(c, true=False):
    return n_of(c, c.new, "room_true" if true else "room_false") == FULL


@contract
class fql_read(Op):
    """every spare row is filled with the next row of the table and goes on"""
    name = "fql_read"

    def setup(self, c, st):
        pr = self.begin(c, st)
        self.cell(c, st, pr, "process", "proc_data", c.aux["table"])
        c.aux["root"] = self.fresh(c, st, pr, "process", "root_fifo")
        return [PV(pr.rid)]

    def read(self, c):
        return self.asked(c, c.args[1], [c.peq(c.args[0], c.ex.root.aux["reader"])])

    def sent(self, c):
        a = c.ex.root.aux
        p, k = self.turn(c, c.new)
        src = c.new.regions[a["recs"]].fields[a["src"]][2].get(a["rec"](k))
        return self.gone(c, And(ANSWER(p) == 0, c.peq(c.args[0], a["out_false"]), self.slot_now(c, c.args[1]), src == a["idx"]), "a row that was read goes on, as this table's")

    def recycled(self, c):
        return self.gone(c, z3.BoolVal(False), "no row is given back")

    @property
    def loops(self):
        def l0(lp):
            c, n = lp.root, lp.root.aux["n"]
            p = n_of(c, lp.st, "pos")
            return self.invariant(lp) + [("there is room", n_of(c, lp.st, "room_false") == ROOM), ("rows were read", forall(0, p, lambda j: ANSWER(j) == 0, pats=lambda j: ANSWER(j)))]
        return [l0]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        p, op = n_of(c, st, "pos"), self.open(c, a["out_false"])
        eof = And(p < a["n"], n_of(c, st, "handed") == 1, ANSWER(p) != 0, ANSWER(p) != FAIL)
        return [("nobody waits for rows: done", Imp(Not(op), And(rc == 0, p == 0))), ("done at the end of the table, or when there are no spare rows and none can come", Imp(And(op, rc == 0), Or(eof, And(a["n"] == 0, Not(self.open(c, a["in"])))))),
                ("the end of the table is the end", Imp(eof, rc == 0)), ("an error exactly of the reader", (rc == FAIL) == And(p < a["n"], n_of(c, st, "handed") == 1, ANSWER(p) == FAIL)),
                ("goes on, or waits for spare rows, when all are used", Imp(Or(rc == 1, rc == 2), p == a["n"])), ("waits for an output that is full", Imp(rc == 6, full(c))), ("no other answer", Or(rc == 0, rc == 1, rc == 2, rc == 6, rc == FAIL)),
                ("nothing half done", Imp(And(rc != FAIL, Not(eof)), And(n_of(c, st, "handed") == 0, n_of(c, st, "out") == 0))), self.taken(c, p, [eof])]


@contract
class fql_logic(Op):
    """a row goes where the rows go for which the condition holds, or does not; or back if nobody wants them"""
    name = "fql_logic"
    seen = False
    cases = [(n1 + n2 + n3, {"t": t, "f": f, "const": k}) for n1, t in (("", True), ("true rows not wanted", False)) for n2, f in ((", false rows wanted", True), ("", False)) for n3, k in (("", False), (", once", True))]

    def setup(self, c, st):
        pr = self.begin(c, st, c.case["f"], c.case["t"])
        self.cell(c, st, pr, "process", "is_const", IV(8, int(c.case["const"]), u=True))
        return [PV(pr.rid)]

    def sent(self, c):
        a = c.ex.root.aux
        p, k = self.turn(c, c.new)
        h = HOLDS(k)
        t = And(z3.BoolVal(c.ex.root.case["t"]), c.peq(c.args[0], a["out_true"]), h != 0)
        f = And(z3.BoolVal(c.ex.root.case["f"]), c.peq(c.args[0], a["out_false"]), h == 0)
        return self.gone(c, And(h != FAIL, Or(t, f), self.slot_now(c, c.args[1])), "a row goes on by its condition")

    def recycled(self, c):
        h = HOLDS(self.turn(c, c.new)[1])
        return self.gone(c, And(self.slot_now(c, c.args[1]), h != FAIL, z3.If(h != 0, z3.BoolVal(not c.ex.root.case["t"]), z3.BoolVal(not c.ex.root.case["f"]))), "only a row nobody wants is given back")

    @property
    def loops(self):
        return [lambda lp: self.invariant(lp) + [("there is room", And(*[n_of(lp.root, lp.st, "room_" + x) == ROOM for x, y in (("true", "t"), ("false", "f")) if lp.root.case[y]] or [z3.BoolVal(True)]))]]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        p = n_of(c, st, "pos")
        stop = Or(*[Not(self.open(c, a["out_" + x])) for x, y in (("true", "t"), ("false", "f")) if c.case[y]] or [z3.BoolVal(False)])
        o = n_of(c, st, "out")
        const = z3.BoolVal(c.case["const"])
        out = [("nobody waits for rows: done", Imp(stop, And(rc == 0, p == 0, o == 0))), ("done when no row waits and none can come, or after the only row", Imp(And(Not(stop), rc == 0), Or(And(const, p == 0, o == 1), And(a["n"] == 0, Not(self.open(c, a["in"])))))),
               ("waits for rows when all are done", Imp(rc == 2, p == a["n"])), ("an error exactly of the condition", (rc == FAIL) == And(p < a["n"], HOLDS(a["nd"](p)) == FAIL, Not(stop), rc != 6, rc != 7)),
               ("the only row is handled once", Imp(const, p == 0)),
               ("no other answer", Or(rc == 0, rc == 2, rc == 6, rc == 7, rc == FAIL)), ("nothing half done", Imp(Or(rc == 2, rc == 6, rc == 7), o == 0)), self.taken(c, p)]
        out.append(("waits for an output that is full", And(Imp(rc == 7, full(c, True) if c.case["t"] else z3.BoolVal(False)), Imp(rc == 6, full(c) if c.case["f"] else z3.BoolVal(False)))))
        return out


@contract
class fql_distinct(Op):
    """the first row of each group goes on, the others back"""
    name = "fql_distinct"

    def setup(self, c, st):
        pr = self.begin(c, st)
        self.cell(c, st, pr, "process", "wait_for_in0", IV(8, 1, u=True))
        return [PV(pr.rid)]

    def called(self, c, name):
        return self.asked(c, c.args[1], [c.peq(c.args[0], c.ex.root.aux["condition"]), z3.BoolVal(name == "group_record")])

    def sent(self, c):
        a = c.ex.root.aux
        p, k = self.turn(c, c.new)
        return self.gone(c, And(ANSWER(p) == 1, c.peq(c.args[0], a["out_false"]), self.slot_now(c, c.args[1])), "a row unlike all before goes on")

    def recycled(self, c):
        a = ANSWER(self.turn(c, c.new)[0])
        return self.gone(c, And(self.slot_now(c, c.args[1]), a != 1, a != FAIL), "only a row like one before is given back")

    @property
    def loops(self):
        return [lambda lp: self.invariant(lp) + [("there is room", n_of(lp.root, lp.st, "room_false") == ROOM)]]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        p, op = n_of(c, st, "pos"), self.open(c, a["out_false"])
        return [("nobody waits for rows: done", Imp(Not(op), And(rc == 0, p == 0))), ("done when no row waits and none can come", Imp(And(op, rc == 0), And(a["n"] == 0, Not(self.open(c, a["in"]))))),
                ("waits for rows when all are done", Imp(rc == 2, And(p == a["n"], Or(a["n"] > 0, self.open(c, a["in"]))))), ("an error exactly of a row", (rc == FAIL) == And(p < a["n"], n_of(c, st, "handed") == 1, ANSWER(p) == FAIL)),
                ("waits for an output that is full", Imp(rc == 6, full(c))), ("no other answer", Or(rc == 0, rc == 2, rc == 6, rc == FAIL)),
                ("nothing half done", Imp(rc != FAIL, And(n_of(c, st, "handed") == 0, n_of(c, st, "out") == 0))), self.taken(c, p)]


@contract
class _group_dump(Op):
    """every spare row gets the next group and goes on"""
    name = "_group_dump"

    def setup(self, c, st):
        pr = self.begin(c, st)
        return [PV(pr.rid), c.aux["in"], c.aux["out_false"]]

    def pre(self, c):
        if c.mode == "verify":
            return []
        a = c.ex.root.aux
        return [("every row has been grouped", And(a["n"] == 0, Not(self.open(c, a["in"])))), ("this process's spare rows and output", And(c.peq(c.args[0], c.ex.root.args[0]), c.peq(c.args[1], a["in1"]), c.peq(c.args[2], a["out_false"])))]

    def effect(self, c):
        if c.mode == "call":
            c.new.ghost["dumped"] = c.new.ghost.get("dumped", 0) + 1
            rc = c.ex.fresh_iv(c.new, 32, "dumped", True)
            c.new.assume(c.ex.S(c.new, rc) == ANSWER(I(-1)))
            return rc
        return super().effect(c)

    def called(self, c, name):
        a = c.ex.root.aux
        st = c.new
        p, k = self.turn(c, st)
        c.ex.oblige(st, And(p < a["n"], n_of(c, st, "handed") == 0, n_of(c, st, "out") == 0, c.peq(c.args[0], a["condition"]), c.peq(c.args[1], PV(a["recs"], Off(0, {a["rstride"]: a["rec"](k)}))), z3.BoolVal(name == "group_dump_record")), "pre", "the row in turn gets the next group, once {C31}")
        set_n(st, c.ex.root, "handed", I(1))
        rc = c.ex.fresh_iv(st, 32, "answer", True)
        st.assume(c.ex.S(st, rc) == ANSWER(p))
        return rc

    def sent(self, c):
        a = c.ex.root.aux
        p, k = self.turn(c, c.new)
        src = c.new.regions[a["recs"]].fields[a["src"]][2].get(a["rec"](k))
        return self.gone(c, And(ANSWER(p) == 0, c.peq(c.args[0], a["out_false"]), self.slot_now(c, c.args[1]), src == 0), "a group's row goes on as the only source")

    def recycled(self, c):
        return self.gone(c, z3.BoolVal(False), "no row is given back")

    @property
    def loops(self):
        return [lambda lp: self.invariant(lp) + [("there is room", n_of(lp.root, lp.st, "room_false") == ROOM)]]

    def post(self, c):
        if c.mode != "verify":
            return []
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        p = n_of(c, st, "pos")
        end = And(p < a["n"], n_of(c, st, "handed") == 1, ANSWER(p) != 0, ANSWER(p) != FAIL)
        return [("done when every group has gone on", (rc == 0) == end), ("an error exactly of a group", (rc == FAIL) == And(p < a["n"], n_of(c, st, "handed") == 1, ANSWER(p) == FAIL)), ("waits for spare rows when all are used", Imp(Or(rc == 2, rc == 3), p == a["n"])),
                ("waits for an output that is full", Imp(rc == 6, full(c))), ("no other answer", Or(rc == 0, rc == 2, rc == 3, rc == 6, rc == FAIL)), self.taken(c, p, [end])]


@contract
class fql_groupby(Op):
    """every row is put in its group and given back; then the groups go on"""
    name = "fql_groupby"
    cases = [("groups", {"const": False}), ("one row, no table", {"const": True})]

    def setup(self, c, st):
        pr = self.begin(c, st)
        ex = c.ex
        g = ex.new_region(st, "cell", "group", size=ex.prog.sizeof("group"))
        off, _ = c.fo("group", "expressions")
        v, _ = mk_vec(c, st, "expressions", S=8, fields={0: 8}, ro=True)
        r = st.regions[v.rid]
        for o, x in r.cells.items():
            g.cells[off + o] = x
        del st.regions[v.rid]
        c.aux["exprs"] = ex.U(st, g.cells[off + c.fo("vec", "size")[0]][1])
        c.aux["group"] = PV(g.rid)
        c.aux["aux"] = c.aux["in1"]
        self.cell(c, st, pr, "process", "proc_data", PV(g.rid))
        self.cell(c, st, pr, "process", "is_const", IV(8, int(c.case["const"]), u=True))
        set_n(st, c, "room_false", ROOM)    # one row always fits the empty output of a statement without a table
        return [PV(pr.rid)]

    def called(self, c, name):
        a = c.ex.root.aux
        st = c.new
        if name == "group_record":
            return self.asked(c, c.args[1], [c.peq(c.args[0], a["group"]), a["exprs"] > 0])
        r = st.ghost.get("right")
        c.ex.oblige(st, And(z3.BoolVal(c.ex.root.case["const"] and name == "group_dump_record" and r is not None and "dumped" not in r), c.peq(c.args[0], a["group"]), n_of(c, st, "handed") == z3.If(a["exprs"] > 0, I(1), I(0)),
                            c.peq(c.args[1], PV(a["recs"], Off(0, {a["rstride"]: a["rec"](a["sp"](r["at"]))})) if r else NULL)), "pre", "the only group's row {C31}")
        rc = c.ex.fresh_iv(st, 32, "answer", True)
        if r:
            st.ghost["right"] = dict(r, dumped=True)
        st.ghost["dump"] = c.ex.S(st, rc)
        return rc

    def sent(self, c):
        a, st = c.ex.root.aux, c.new
        r = st.ghost.get("right")
        if r is None:
            raise Unsupported("fifo_add without a row")
        src = st.regions[a["recs"]].fields[a["src"]][2].get(a["rec"](a["sp"](r["at"])))
        c.ex.oblige(st, And(z3.BoolVal(bool(r.get("dumped")) and not r.get("sent")), c.peq(c.args[0], a["out_false"]), c.peq(c.args[1], PV(a["spare"], Off(0, {8: r["at"]}))), src == 0), "pre", "the only group's row goes on {C31}")
        st.ghost["right"] = dict(r, sent=True)
        return None

    def recycled(self, c):
        a = c.ex.root.aux
        st = c.new
        p = n_of(c, st, "pos")
        c.ex.oblige(st, And(n_of(c, st, "out") == 0, n_of(c, st, "handed") == z3.If(a["exprs"] > 0, I(1), I(0)), self.slot_now(c, c.args[1]), Imp(a["exprs"] > 0, ANSWER(p) != FAIL), z3.BoolVal(not c.ex.root.case["const"])), "pre", "a row in its group is given back {C31}")
        set_n(st, c.ex.root, "out", I(1))
        return None

    def row_done(self, c):
        return [("a row is left when it is in its group and given back", n_of(c, c.old, "out") == 1)]

    @property
    def loops(self):
        return [lambda lp: self.invariant(lp) + [("nothing half done", z3.BoolVal(lp.st.ghost.get("right") is None))]]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        p, op = n_of(c, st, "pos"), self.open(c, a["out_false"])
        d = st.ghost.get("dumped", 0)
        r = st.ghost.get("right")
        over = And(op, a["n"] == 0, Not(self.open(c, a["in"])))
        out = [("nobody waits for rows: done", Imp(Not(op), And(rc == 0, p == 0, z3.BoolVal(d == 0 and r is None)))), ("the groups go on when every row is in its group", z3.BoolVal(d == 1) == over), ("as that does", Imp(over, rc == ANSWER(I(-1)))),
               ("waits for rows when all are grouped", Imp(And(op, Not(over), rc != FAIL, z3.BoolVal(not c.case["const"] or r is None)), And(rc == 2, p == a["n"]))), self.taken(c, p)]
        if c.case["const"]:
            out += [("the only row makes the only group", Imp(And(op, a["n"] > 0, rc != FAIL), And(rc == 0, z3.BoolVal(bool(r and r.get("sent"))), p == 0))),
                    ("an error of the row or its group", Imp(And(Not(over), rc == FAIL), Or(And(a["exprs"] > 0, ANSWER(I(0)) == FAIL), st.ghost.get("dump", I(0)) == FAIL)))]
        else:
            out += [("an error exactly of a row", Imp(Not(over), (rc == FAIL) == And(p < a["n"], a["exprs"] > 0, n_of(c, st, "handed") == 1, ANSWER(p) == FAIL)))]
        return out


@contract
class fql_select(Op):
    """every row is handed to the SELECT until it has as many as it wants, and goes on or back"""
    name = "fql_select"
    cases = [(n1 + n2 + n3, {"out": o, "const": k, "ended": e}) for n1, o in (("last", False), ("into an operator", True)) for n2, k in (("", False), (", once", True)) for n3, e in (("", False), (", rows ended", True))]

    def setup(self, c, st):
        pr = self.begin(c, st, c.case["out"], True)
        ex, a = c.ex, c.aux
        sel = ex.new_region(st, "cell", "select", size=ex.prog.sizeof("fqlselect"))
        cur = ex.new_region(st, "cell", "current", size=ex.prog.sizeof("fqlselect"), ro=True)
        wr = ex.new_region(st, "cell", "writer", size=8)
        self.cell(c, st, sel, "fqlselect", "current_select", PV(cur.rid))
        self.cell(c, st, sel, "fqlselect", "select__", FnP(contract="select_row"))
        self.cell(c, st, sel, "fqlselect", "writer", PV(wr.rid))
        a["once"] = self.fresh(c, st, sel, "fqlselect", "must_run_once")
        a["rows0"] = self.fresh(c, st, sel, "fqlselect", "rows_affected")
        a["top"] = self.fresh(c, st, cur, "fqlselect", "top_count")
        self.cell(c, st, cur, "fqlselect", "is_const", IV(8, int(c.case["const"]), u=True))
        self.cell(c, st, pr, "process", "proc_data", PV(sel.rid))
        a["prows0"] = self.fresh(c, st, pr, "process", "rows_affected")
        a["max"] = self.fresh(c, st, pr, "process", "max_recs_iter")
        self.cell(c, st, pr, "process", "wait_for_in0", IV(8, int(not c.case["ended"]), u=True))
        st.assume(a["once"] <= 1, a["rows0"] < 2 ** 62, a["prows0"] < 2 ** 62, a["max"] >= 1)
        # the other inputs, one for each SELECT of a UNION
        q = builtins_c.mk_pool(ex, st, "queue", ex.prog.sizeof("node"), {c.fo("node", "data")[0]: (8, "int"), c.fo("node", "next")[0]: (8, "self")})
        ex.pools.clear()
        nq = fint("queued")
        st.assume(nq >= 1, nq < q.count, q.ghost["live"].get(nq) != 0)
        nx = c.fo("node", "next")[0]
        f2 = PV(ex.new_region(st, "cell", "queued_in", size=8).rid)
        qr = ex.new_region(st, "cell", "queue_head", size=ex.prog.sizeof("node"), ro=True)
        qn = ex.new_region(st, "cell", "queue_next", size=ex.prog.sizeof("node"), ro=True)
        more = z3.Bool(fresh_name("more_queued"))
        self.cell(c, st, qr, "node", "data", f2)
        self.cell(c, st, qr, "node", "next", PV(q.rid, Off(0, {q.stride: z3.If(more, nq, I(0))})))
        self.cell(c, st, pr, "process", "queued_results", PV(qr.rid))
        a.update(select=PV(sel.rid), current=PV(cur.rid), writer=PV(wr.rid), queued=f2, qhead=PV(qr.rid), qnext=PV(q.rid, Off(0, {q.stride: nq})), more=more, proc=PV(pr.rid))
        # the ends of the SELECTs before this one
        F = builtins_c.mk_pool(ex, st, "fifos", ex.prog.sizeof("fifo"), {c.fo("fifo", "head")[0]: (4, "int")})
        ex.pools.clear()
        P = builtins_c.mk_pool(ex, st, "procs", ex.prog.sizeof("process"), {c.fo("process", "fifo_out")[0]: (8, ("ptr", F.rid))})
        ex.pools.clear()
        D = builtins_c.mk_pool(ex, st, "dnodes", ex.prog.sizeof("dnode"), {c.fo("dnode", "data")[0]: (8, ("ptr", P.rid))})
        ex.pools.clear()
        v, _ = mk_vec(c, st, "union_ends", S=8, fields={0: 8}, ro=True)
        d = st.regions[c.get(st, v, "vec", "data").rid]
        d.fields[0] = (8, ("ptr", D.rid), Base("union_ends"))
        g, dp, pf = d.fields[0][2].get, D.fields[c.fo("dnode", "data")[0]][2].get, P.fields[c.fo("process", "fifo_out")[0]][2].get
        dl, pl, fl = (x.ghost["live"].get for x in (D, P, F))
        sz = c.u(st, v, "vec", "size")
        st.assume(sz < 2 ** 31, forall(0, sz, lambda j: And(g(j) >= 1, g(j) < D.count, dl(g(j)) != 0, dp(g(j)) >= 1, dp(g(j)) < P.count, pl(dp(g(j))) != 0, pf(dp(g(j))) >= 1, pf(dp(g(j))) < F.count, fl(pf(dp(g(j)))) != 0), pats=lambda j: g(j)))
        self.cell(c, st, pr, "process", "union_end_nodes", v)
        r = ex.new_region(st, "cell", "closed", size=8)
        r.cells[0] = (8, IV(64, 0, u=True))
        a.update(closed=r.rid, ends=sz, end_at=lambda j: PV(F.rid, Off(0, {F.stride: pf(dp(g(j)))})), endslot=lambda j: PV(d.rid, Off(0, {8: j})), enddata=d.rid)
        return [PV(pr.rid)]

    def is_empty(self, c):
        a = c.ex.root.aux
        if not c.ex.root.case["out"]:
            return super().is_empty(c)
        v = c.ex.fresh_iv(c.new, 1, "empty")
        e = c.ex.U(c.new, v) != 0
        one = c.peq(c.args[0], a["in"])
        c.ex.oblige(c.new, Or(one, c.peq(c.args[0], a["out_false"])), "pre", "the rows that wait are asked for")
        c.new.assume(Imp(one, e == (a["n"] == 0)), Imp(Not(one), e == a.setdefault("out_empty", z3.Bool(fresh_name("out_empty")))))
        return v

    def called(self, c, name):
        a, st = c.ex.root.aux, c.new
        if name == "select_row":
            n = c.args[1]
            if isinstance(n, PV) and n.rid is not None and not z3.is_true(z3.simplify(c.peq(n, NULL))):
                return self.asked(c, n, [c.peq(c.args[0], a["select"]), c.u(st, a["select"], "fqlselect", "rows_affected") < a["top"]], "the row in turn is selected, once, while more are wanted {C31}")
            c.ex.oblige(st, And(a["once"] != 0, a["rows0"] == 0, z3.BoolVal(c.ex.root.case["ended"] and "forced" not in st.ghost)), "pre", "a SELECT that must run once runs once {C31}")
            rc = c.ex.fresh_iv(st, 32, "answer", True)
            st.ghost["forced"] = c.ex.S(st, rc)
            return rc
        if name == "fifo_set_open":
            j = n_of(c, st, "closed")
            inp = st.ghost.get("next") is not None
            c.ex.oblige(st, And(c.ex.S(st, c.args[1]) == 0, c.peq(c.args[0], a["in"]) if inp else And(j < a["ends"], c.peq(c.args[0], a["end_at"](j)))), "pre", "what nobody reads any more is closed {C31}")
            if inp:
                st.ghost["in_closed"] = True
            else:
                set_n(st, c.ex.root, "closed", j + 1)
            return None
        if name == "fqlselect_next_union":
            c.ex.oblige(st, And(z3.BoolVal(c.ex.root.case["ended"] and st.ghost.get("next") is None and st.ghost.get("none") is None), c.peq(c.args[0], a["select"])), "pre", "the next SELECT when this one has ended {C31}")
            s2 = st.copy()
            v, w = c.ex.fresh_iv(st, 32, "next"), c.ex.fresh_iv(s2, 32, "next")
            st.assume(c.ex.U(st, v) == 1)
            s2.assume(c.ex.U(s2, w) == 0)
            st.ghost["next"] = True
            s2.ghost["none"] = True
            return [(st, v), (s2, w)]
        if name == "writer_close":
            c.ex.oblige(st, And(c.peq(c.args[0], a["writer"]), z3.BoolVal(bool(st.ghost.get("none")) and "end" not in st.ghost)), "pre", "the output ends after the last SELECT, once {C31}")
            rc = c.ex.fresh_iv(st, 32, "closed", True)
            st.ghost["end"] = c.ex.S(st, rc)
            return rc
        raise Unsupported(name)

    def sent(self, c):
        a = c.ex.root.aux
        return self.gone(c, And(z3.BoolVal(c.ex.root.case["out"]), c.peq(c.args[0], a["out_false"]), self.slot_now(c, c.args[1]), ANSWER(self.turn(c, c.new)[0]) != FAIL), "a selected row goes on")

    def recycled(self, c):
        return self.gone(c, And(z3.BoolVal(not c.ex.root.case["out"] and not c.ex.root.case["const"]), self.slot_now(c, c.args[1]), ANSWER(self.turn(c, c.new)[0]) != FAIL), "a selected row is given back when it is the last to use it")

    def counts(self, c, st, p):
        a = c.aux
        return And(c.u(st, a["select"], "fqlselect", "rows_affected") == a["rows0"] + p, c.u(st, a["proc"], "process", "rows_affected") == a["prows0"] + p)

    @property
    def loops(self):
        def l0(lp):
            c, st, a, K = lp.root, lp.st, lp.root.aux, lp.K
            out = [("ends closed", And(K >= 0, K <= a["ends"], n_of(c, st, "closed") == K)), ("variant", a["ends"] - K)]
            for x in lp.ptrs(a["enddata"]):
                out.append(("maybe", "end reached", c.peq(x, a["endslot"](K), st)))
            return out

        def l1(lp):
            c, st, a, K = lp.root, lp.st, lp.root.aux, lp.K
            p = n_of(c, st, "pos")
            out = self.invariant(lp) + [("counted", And(p == K, self.counts(c, st, p))), ("not more rows than are wanted", Imp(p > 0, a["rows0"] + p <= a["top"])), ("nor than in one go", p <= a["max"])]
            if c.case["out"]:
                out.append(("there is room", n_of(c, st, "room_false") == ROOM))
            if c.case["const"]:
                out.append(("the only row", p == 0))
            return out
        return [l0, l1]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        g = st.ghost
        p, o, h = (n_of(c, st, x) for x in ("pos", "out", "handed"))
        w = c.u(st, a["proc"], "process", "wait_for_in0") != 0
        B = z3.BoolVal
        op = self.open(c, a["out_false"]) if c.case["out"] else B(True)
        none = And(p == 0, h == 0, B("forced" not in g and not g.get("next") and not g.get("none")))
        sel = c.u(st, a["select"], "fqlselect", "rows_affected")
        rows = c.u(st, a["proc"], "process", "rows_affected")
        closed = n_of(c, st, "closed")
        out = [("nobody waits for rows: done, and so are the SELECTs before", Imp(Not(op), And(rc == 0, none, closed == a["ends"]))), ("else those go on", Imp(op, closed == 0))]
        in_now = c.get(st, a["proc"], "process", "fifo_in")
        q_now = c.get(st, a["proc"], "process", "queued_results")
        if c.case["ended"]:
            force = And(op, a["once"] != 0, a["rows0"] == 0)
            fr = g.get("forced")
            out += [("a SELECT that must run once does", force == B(fr is not None)), ("no row is taken", And(p == 0, h == 0))]
            if fr is not None:
                return out + [("an error of it is one", (rc == FAIL) == (fr == FAIL)), ("it counts as a row", Imp(fr != FAIL, And(rc == 1, sel == 1, rows == a["prows0"] + 1)))]
            held = And(B(c.case["out"]), Not(a.get("out_empty", B(True))))
            out += [("the next SELECT is turned to when the rows before have gone", Imp(And(op, Not(force)), B(bool(g.get("next") or g.get("none"))) == Not(held))), ("until then it waits", Imp(And(op, Not(force), held), rc == 1))]
            if g.get("next"):
                out += [("the next SELECT's rows come", And(rc == 1, w, c.peq(in_now, a["queued"]), B(bool(g.get("in_closed"))), z3.If(a["more"], c.peq(q_now, a["qnext"]), c.peq(q_now, a["qhead"]))))]
            else:
                out += [("the input stays", And(c.peq(in_now, a["in"]), c.peq(q_now, a["qhead"]), B(not g.get("in_closed"))))]
            if g.get("none"):
                out += [("done when there is none", And(B(g.get("end") is not None), rc == (z3.If(g["end"] == FAIL, I(FAIL), I(0)) if g.get("end") is not None else I(0))))]
            return out + [("no other end", Imp(And(op, rc == 0), B(bool(g.get("none"))))), ("nothing is counted", And(Or(B(bool(g.get("next"))), sel == a["rows0"]), rows == a["prows0"]))]
        left = self.open(c, a["in"])
        enough = sel >= a["top"]
        out += [("nothing else", B("forced" not in g and not g.get("next") and not g.get("none") and "end" not in g)), ("the input stays", And(c.peq(in_now, a["in"]), c.peq(q_now, a["qhead"]))),
                ("the rows selected are counted", Imp(rc != FAIL, And(sel == a["rows0"] + p + (h if c.case["const"] else 0), rows == a["prows0"] + p + (h if c.case["const"] else 0)))),
                ("not more than are wanted", Imp(And(op, p + h > 0, rc != FAIL), sel <= a["top"])), ("an error exactly of a row", (rc == FAIL) == And(p < a["n"], h == 1, ANSWER(p) == FAIL)),
                ("waits for rows when all are selected", Imp(rc == 2, p == a["n"])),
                ("ends when no row waits and none can come, or there are enough, or after the only row", Imp(And(op, Not(w)), Or(And(a["n"] == 0, Not(left)), enough, B(c.case["const"])))),
                ("and then only", Imp(And(op, w, rc != FAIL), And(Or(a["n"] > 0, left), Imp(p + h > 0, Not(enough))))),
                ("no other answer", Or(rc == 1, rc == 2, rc == 6, rc == FAIL, Not(op))), ("goes on when it can", Imp(And(op, a["n"] > 0, rc == 1), Or(p + h > 0, enough))), self.taken(c, p)]
        if c.case["out"]:
            out.append(("waits for an output that is full", Imp(rc == 6, full(c))))
        if c.case["const"]:
            out.append(("the only row is selected once", And(p == 0, Imp(And(op, a["n"] > 0, rc == 1, Not(enough)), And(h == 1, o == (1 if c.case["out"] else 0))))))
        else:
            out.append(("nothing half done", Imp(rc != FAIL, And(o == 0, h == 0))))
        return out


@contract
class fql_orderby(Op):
    """every row's keys are kept and the row given back; when all are, they are sorted once and handed out"""
    name = "fql_orderby"

    def setup(self, c, st):
        pr = self.begin(c, st)
        ex, a = c.ex, c.aux
        od = ex.new_region(st, "cell", "order", size=ex.prog.sizeof("order"))
        self.cell(c, st, od, "order", "select__", FnP(contract="order_out"))
        a["sorted"] = self.fresh(c, st, od, "order", "sorted")
        a["top"] = self.fresh(c, st, od, "order", "top_count")
        self.cell(c, st, pr, "process", "proc_data", PV(od.rid))
        self.fresh(c, st, pr, "process", "rows_affected")
        a["max"] = self.fresh(c, st, pr, "process", "max_recs_iter")
        st.assume(a["max"] >= 1, a["sorted"] <= 1)
        a.update(order=PV(od.rid), proc=PV(pr.rid))
        return [PV(pr.rid)]

    def called(self, c, name):
        a, st = c.ex.root.aux, c.new
        g = st.ghost
        if name == "order_add_record":
            return self.asked(c, c.args[1], [c.peq(c.args[0], a["order"])])
        over = And(a["n"] == 0, Not(self.open_now(c, a["in"])))
        rc = c.ex.fresh_iv(st, 32, name, True)
        if name == "order_sort":
            c.ex.oblige(st, And(over, a["sorted"] == 0, c.peq(c.args[0], a["order"]), z3.BoolVal("sorted" not in g and "handed_out" not in g)), "pre", "the rows are sorted when all have come, once {C31}")
            g["sorted"] = c.ex.S(st, rc)
        elif name == "order_out":
            c.ex.oblige(st, And(over, c.peq(c.args[0], a["order"]), c.peq(c.args[1], a["proc"]), z3.BoolVal("handed_out" not in g), Or(a["sorted"] != 0, z3.BoolVal("sorted" in g))), "pre", "sorted rows are handed out {C31}")
            g["handed_out"] = c.ex.S(st, rc)
            c.havoc_int(st, a["proc"], "process", "rows_affected")
            st.assume(Or(c.ex.S(st, rc) == FAIL, c.ex.S(st, rc) == 0, c.ex.S(st, rc) == 1))
        else:
            raise Unsupported(name)
        return rc

    def open_now(self, c, f):
        return c.u(c.new, f, "fifo", "is_open") != 0

    def sent(self, c):
        return self.gone(c, z3.BoolVal(False), "no row goes on")

    def recycled(self, c):
        return self.gone(c, And(self.slot_now(c, c.args[1]), ANSWER(self.turn(c, c.new)[0]) != FAIL), "a row whose keys are kept is given back")

    @property
    def loops(self):
        def l0(lp):
            p = n_of(lp.root, lp.st, "pos")
            return self.invariant(lp) + [("rows in one go", And(p == lp.K, p <= lp.root.aux["max"]))]
        return [l0]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        g = st.ghost
        p = n_of(c, st, "pos")
        over = And(a["n"] == 0, Not(self.open(c, a["in"])))
        s, h = g.get("sorted"), g.get("handed_out")
        B = z3.BoolVal
        rows = c.u(st, a["proc"], "process", "rows_affected")
        return [("sorted first, if not yet", Imp(over, B(s is not None) == (a["sorted"] == 0))), ("then handed out, when all rows have come", B(h is not None) == And(over, (s != FAIL) if s is not None else B(True))),
                ("an error is one", Imp(over, (rc == FAIL) == Or(s == FAIL if s is not None else B(False), h == FAIL if h is not None else B(False)))),
                ("done when all that are wanted are handed out", Imp(And(over, rc != FAIL), (And(rc == z3.If(Or(h == 0, rows >= a["top"]), I(0), I(1)))) if h is not None else B(False))),
                ("else waits for rows", Imp(And(Not(over), rc != FAIL), And(rc == 2, p == z3.If(a["n"] < a["max"], a["n"], a["max"])))), ("an error exactly of a row", Imp(Not(over), (rc == FAIL) == And(p < a["n"], n_of(c, st, "handed") == 1, ANSWER(p) == FAIL))),
                ("nothing half done", Imp(rc != FAIL, And(n_of(c, st, "handed") == 0, n_of(c, st, "out") == 0))), self.taken(c, p)]


@contract
class fql_delete(Op):
    """every row that does not match is written and given back; the file ends when all are"""
    name = "fql_delete"
    cases = [("", {"ended": False}), ("no condition", {"ended": True})]

    def setup(self, c, st):
        pr = self.begin(c, st)
        ex, a = c.ex, c.aux
        d = ex.new_region(st, "cell", "delete", size=ex.prog.sizeof("fqldelete"))
        wr = ex.new_region(st, "cell", "writer", size=8)
        self.cell(c, st, d, "fqldelete", "undelete__", FnP(contract="undelete"))
        self.cell(c, st, d, "fqldelete", "writer", PV(wr.rid))
        self.cell(c, st, d, "fqldelete", "top_count", IV(64, MAX, u=True))     # TOP is not covered
        rows = self.fresh(c, st, d, "fqldelete", "rows_affected")
        st.assume(rows < 2 ** 62)
        self.fresh(c, st, pr, "process", "rows_affected")
        self.cell(c, st, pr, "process", "proc_data", PV(d.rid))
        self.cell(c, st, pr, "process", "wait_for_in0", IV(8, int(not c.case["ended"]), u=True))
        a.update(delete=PV(d.rid), writer=PV(wr.rid), proc=PV(pr.rid))
        return [PV(pr.rid)]

    def called(self, c, name):
        a, st = c.ex.root.aux, c.new
        if name == "undelete":
            return self.asked(c, c.args[1], [c.peq(c.args[0], a["delete"])])
        if name != "writer_close":
            raise Unsupported(name)
        c.ex.oblige(st, And(c.peq(c.args[0], a["writer"]), Or(z3.BoolVal(c.ex.root.case["ended"]), And(a["n"] == 0, c.u(st, a["in"], "fifo", "is_open") == 0)), z3.BoolVal("end" not in st.ghost)), "pre", "the file ends when every row has come {C31}")
        rc = c.ex.fresh_iv(st, 32, "closed", True)
        st.ghost["end"] = c.ex.S(st, rc)
        return rc

    def sent(self, c):
        return self.gone(c, z3.BoolVal(False), "no row goes on")

    def recycled(self, c):
        return self.gone(c, And(self.slot_now(c, c.args[1]), ANSWER(self.turn(c, c.new)[0]) != FAIL), "a row that is written is given back")

    @property
    def loops(self):
        return [lambda lp: self.invariant(lp)]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        p, e = n_of(c, st, "pos"), st.ghost.get("end")
        over = Or(z3.BoolVal(c.case["ended"]), And(a["n"] == 0, Not(self.open(c, a["in"]))))
        return [("the file ends when all rows are written, or none are kept", z3.BoolVal(e is not None) == over), ("then it is done, unless that fails", Imp(over, rc == z3.If(e == FAIL, I(FAIL), I(0)) if e is not None else z3.BoolVal(False))),
                ("else waits for rows", Imp(And(Not(over), rc != FAIL), And(rc == 2, p == a["n"]))), ("an error exactly of a row", Imp(Not(over), (rc == FAIL) == And(p < a["n"], n_of(c, st, "handed") == 1, ANSWER(p) == FAIL))),
                ("nothing half done", Imp(rc != FAIL, And(n_of(c, st, "handed") == 0, n_of(c, st, "out") == 0))), self.taken(c, p)]


IDF, IDT = uf("ID_OF_ROW_THAT_STAYS", INT, INT), uf("ID_OF_ROW_THAT_CHANGES", INT, INT)


@contract
class fql_update(Op):
    """the rows that match and those that do not are written in the order of the table, the first with new values"""
    name = "fql_update"
    cases = [("", {"ended": False})]

    def setup(self, c, st):
        pr = self.begin(c, st)
        ex, a = c.ex, c.aux
        u = ex.new_region(st, "cell", "update", size=ex.prog.sizeof("fqlupdate"))
        wr = ex.new_region(st, "cell", "writer", size=8)
        for x in ("update", "noupdate"):
            self.cell(c, st, u, "fqlupdate", x + "__", FnP(contract=x + "_row"))
        self.cell(c, st, u, "fqlupdate", "writer", PV(wr.rid))
        self.cell(c, st, u, "fqlupdate", "top_count", IV(64, MAX, u=True))     # TOP is not covered
        st.assume(self.fresh(c, st, u, "fqlupdate", "rows_affected") < 2 ** 62)
        self.fresh(c, st, pr, "process", "rows_affected")
        a["tidx"] = self.fresh(c, st, u, "fqlupdate", "table_idx")
        a["u0"] = self.fresh(c, st, u, "fqlupdate", "update_idx")
        self.cell(c, st, pr, "process", "proc_data", PV(u.rid))
        self.cell(c, st, pr, "process", "wait_for_in0", IV(8, 1, u=True))
        N, R = st.regions[a["nodes"]], st.regions[a["recs"]]
        n1 = fint("rows1")
        r = ex.new_region(st, "arr", "rows1", stride=8, count=n1, ro=True)
        r.fields[0] = (8, ("ptr", N.rid), Base("rows1"))
        nd1 = r.fields[0][2].get
        nl = N.ghost["live"].get
        st.assume(n1 >= 0, n1 < 2 ** 31, forall(0, n1, lambda j: And(nd1(j) >= 1, nd1(j) < N.count, nl(nd1(j)) != 0), pats=lambda j: nd1(j)))
        for nm in ("pos1", "handed1", "out1"):
            x = ex.new_region(st, "cell", nm, size=8)
            x.cells[0] = (8, IV(64, 0, u=True))
            a[nm] = x.rid
        o, w = c.fo("record", "rec_idx")
        R.fields[o] = (w, "int", Base("rec_idx"))
        a.update(update=PV(u.rid), writer=PV(wr.rid), proc=PV(pr.rid), two=True, rows1=r.rid, n1=n1, nd1=nd1, recidx=R.fields[o][2].get)
        i, j = z3.Ints("up_i up_j")
        n = a["n"]
        # the rows of a table are numbered one by one, and each comes to one of the inputs, in order
        for f, m in ((IDF, n), (IDT, n1)):
            st.assume(z3.ForAll([i, j], Imp(And(i >= 0, i < j, j < m), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]), forall(0, m, lambda i, f=f: And(f(i) >= a["u0"], f(i) < 2 ** 32 - 1), pats=lambda i, f=f: f(i)))
        st.assume(z3.ForAll([i, j], Imp(And(i >= 0, i < n, j >= 0, j < n1), IDF(i) != IDT(j)), patterns=[z3.MultiPattern(IDF(i), IDT(j))]), a["u0"] < 2 ** 32)
        return [PV(pr.rid)]

    def is_empty(self, c):
        a = c.ex.root.aux
        v = c.ex.fresh_iv(c.new, 1, "empty")
        t = c.args[0].rid == a["in1"].rid
        c.ex.oblige(c.new, c.peq(c.args[0], a["in1"] if t else a["in"]), "pre", "the rows that wait are asked for")
        c.new.assume((c.ex.U(c.new, v) != 0) == ((a["n1"] if t else a["n"]) == 0))
        return v

    def which(self, c, n):
        """the side a row is on: the one that is walked"""
        a, st = c.ex.root.aux, c.new
        return st.ghost.get("walk", "")

    def here(self, c):
        a = c.ex.root.aux
        s = self.which(c, None)
        p = n_of(c, c.new, "pos" + s)
        return s, p, a["nd" + s](p), a["n" + s]

    def record_of(self, c):
        st, a = c.new, c.ex.root.aux
        s, p, k, n = self.here(c)
        c.ex.oblige(st, And(p < n, c.peq(c.args[0], self.node(c, k)), c.ex.U(st, c.args[1]) == a["tidx"]), "pre", "the table's record of the row in turn {C31}")
        r = fint("record")
        R = st.regions[a["recs"]]
        st.assume(r >= 1, r < R.count, R.ghost["live"].get(r) != 0, a["recidx"](r) == (IDT if s else IDF)(p))
        return PV(a["recs"], Off(0, {a["rstride"]: r}))

    def called(self, c, name):
        a, st = c.ex.root.aux, c.new
        if name == "writer_close":
            c.ex.oblige(st, And(c.peq(c.args[0], a["writer"]), a["n"] == 0, a["n1"] == 0, *[c.u(st, a[x], "fifo", "is_open") == 0 for x in ("in", "in1")], z3.BoolVal("end" not in st.ghost)), "pre", "the file ends when every row has come {C31}")
            rc = c.ex.fresh_iv(st, 32, "closed", True)
            st.ghost["end"] = c.ex.S(st, rc)
            return rc
        s, p, k, n = self.here(c)
        c.ex.oblige(st, And(z3.BoolVal(name == ("update_row" if s else "noupdate_row")), p < n, c.peq(c.args[0], a["update"]), c.peq(c.args[1], self.node(c, k)), n_of(c, st, "handed" + s) == 0, n_of(c, st, "out" + s) == 0,
                            (IDT if s else IDF)(p) == a["u0"] + n_of(c, st, "pos") + n_of(c, st, "pos1")), "pre", "the table's next row is written, once, with new values exactly if it matches {C31}")
        set_n(st, c.ex.root, "handed" + s, I(1))
        rc = c.ex.fresh_iv(st, 32, "answer", True)
        st.assume(c.ex.S(st, rc) == ANSWER(p + (I(0) if not s else I(2 ** 40))))
        return rc

    def sent(self, c):
        return self.gone(c, z3.BoolVal(False), "no row goes on")

    def recycled(self, c):
        st, a = c.new, c.ex.root.aux
        s, p, k, n = self.here(c)
        c.ex.oblige(st, And(n_of(c, st, "handed" + s) == 1, n_of(c, st, "out" + s) == 0, c.peq(c.args[1], PV(a["rows" + s], Off(0, {8: p})))), "pre", "a row that is written is given back {C31}")
        set_n(st, c.ex.root, "out" + s, I(1))
        return None

    def row_done(self, c):
        s = c.old.ghost.get("walk", "")
        return [("a row is left when it is written and given back", n_of(c, c.old, "out" + s) == 1)]

    def both(self, c, st):
        a = c.aux
        p, q = n_of(c, st, "pos"), n_of(c, st, "pos1")
        u = c.u(st, a["update"], "fqlupdate", "update_idx")
        out = [("rows done", And(p >= 0, p <= a["n"], q >= 0, q <= a["n1"])), ("the next row's number", u == a["u0"] + p + q), ("rows in turn are not handled", And(*[n_of(c, st, x + y) == 0 for x in ("handed", "out") for y in ("", "1")])), ("numbers", a["u0"] + p + q < 2 ** 33)]
        for f, m, x in ((IDF, a["n"], p), (IDT, a["n1"], q)):
            out.append(("no row is passed over", forall(x, m, lambda i, f=f: f(i) >= a["u0"] + p + q, pats=lambda i, f=f: f(i))))
        return out

    @property
    def loops(self):
        def loop(s):
            def l(lp):
                c, st, a = lp.root, lp.st, lp.root.aux
                x = n_of(c, st, "pos" + s)
                out = self.both(c, st) + [("variant", a["n" + s] - x), ("the side that is walked", z3.BoolVal(st.ghost.get("walk", "") == s))]
                if not s:
                    out.append(("not yet the rows that match", n_of(c, st, "pos1") == 0))
                for y in lp.ptrs(a["rows" + s]):
                    out.append(("maybe", "row reached", c.peq(y, PV(a["rows" + s], Off(0, {8: x})), st)))
                return out
            return l
        return [loop(""), loop("1")]

    def post(self, c):
        rc, a, st = c.ex.S(c.new, c.ret), c.aux, c.new
        p, q, e = n_of(c, st, "pos"), n_of(c, st, "pos1"), st.ghost.get("end")
        u1, u2 = st.ghost.get("updated", ()), st.ghost.get("updated1", ())
        over = And(a["n"] == 0, a["n1"] == 0, *[Not(self.open(c, a[x])) for x in ("in", "in1")])
        u0 = a["u0"]
        out = [("the file ends when all rows are written", z3.BoolVal(e is not None) == over), ("then it is done, unless that fails", Imp(over, rc == z3.If(e == FAIL, I(FAIL), I(0)) if e is not None else z3.BoolVal(False))),
               ("else waits for rows", Imp(And(Not(over), rc != FAIL), rc == 4)), ("the next row is written if it has come", Imp(And(rc != FAIL, Or(And(a["n"] > 0, IDF(I(0)) == u0), And(a["n1"] > 0, IDT(I(0)) == u0))), p + q > 0)),
               ("an error exactly of a row", Imp(Not(over), (rc == FAIL) == Or(And(p < a["n"], n_of(c, st, "handed") == 1, ANSWER(p) == FAIL), And(q < a["n1"], n_of(c, st, "handed1") == 1, ANSWER(q + 2 ** 40) == FAIL)))),
               ("the rows done are taken out", Imp(rc != FAIL, And(Or(p == 0, And(z3.BoolVal(len(u1) == 1), u1[0] == p if u1 else z3.BoolVal(False))), Or(q == 0, And(z3.BoolVal(len(u2) == 1), u2[0] == q if u2 else z3.BoolVal(False))))))]
        return out + [(nm, Imp(rc != FAIL, f)) for nm, f in self.both(c, st)]
