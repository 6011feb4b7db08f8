"""Contract base class and the state-access helpers contracts are written with."""
import z3
from val import *
from sx import *
from sx import And, Or, Not, Imp, forall, uf
import sx


class Ctx:
    def __init__(self, ex, con, old, new, args, mode, ret=None, case=None):
        self.ex, self.con, self.old, self.new, self.args, self.mode, self.ret = ex, con, old, new, args, mode, ret
        self.case = case or {}
        self.tag = None
        self.aux = {}

    # --- struct access
    def fo(self, struct, member):
        return self.ex.prog.member(struct, member)

    def get(self, st, p, struct, member):
        """value of p->member in state st"""
        o, n = self.fo(struct, member)
        r = st.regions[p.rid]
        mod = self.ex.prog.mods[0]
        if r.kind == "cell":
            oo = p.off.const() + o
            if oo in r.cells:
                return r.cells[oo][1]
            return self.ex.load_cell(st, r, oo, n, "i%d" % (8 * n))
        k, c = self.ex.resolve(st, r, p.off)
        f = r.fields.get(c + o)
        if f is None:
            f = (n, "int", Base(r.name + "_f%s" % (c + o,)))
            r.fields[c + o] = f
        if f[1] == "int":
            return IV(8 * n, f[2].get(k), u=True)
        return PV(f[1][1], Off(0, {st.regions[f[1][1]].stride: f[2].get(k)}))

    def u(self, st, p, struct, member):
        return self.ex.U(st, self.get(st, p, struct, member))

    def s(self, st, p, struct, member):
        return self.ex.S(st, self.get(st, p, struct, member))

    def set(self, st, p, struct, member, v):
        o, n = self.fo(struct, member)
        r = st.regions[p.rid]
        if r.kind == "cell":
            self.ex.store_cell(st, r, p.off.const() + o, n, v)
        else:
            k, c = self.ex.resolve(st, r, p.off)
            self.ex.store_arr(st, r, k, c + o, n, v)

    def havoc_int(self, st, p, struct, member, signed=False):
        o, n = self.fo(struct, member)
        v = self.ex.fresh_iv(st, 8 * n, member, signed)
        self.set(st, p, struct, member, v)
        return v

    # --- regions
    def region(self, st, p):
        return st.regions[p.rid]

    def deadp(self, st, p):
        r = st.regions.get(p.rid)
        return z3.BoolVal(r is not None and not r.alive)

    def peq(self, a, b, st=None):
        """pointer equality as a formula"""
        st = st or self.new
        if isinstance(a, FnP) or isinstance(b, FnP):
            return z3.BoolVal(isinstance(a, FnP) and isinstance(b, FnP) and a.name == b.name)
        if not isinstance(a, PV) or not isinstance(b, PV):
            return z3.BoolVal(False)
        if a.rid is None or b.rid is None or a.rid != b.rid:
            if a.rid is None and b.rid is None:
                return z3.BoolVal(a.off.const() == b.off.const())
            x = a if b.rid is None else b
            if (a.rid is None or b.rid is None) and st.regions[x.rid].nullable:
                return x.off.z() == 0
            return z3.BoolVal(False)
        d = a.off - b.off
        if not d.ts:
            return z3.BoolVal(d.c == 0)
        if len(d.ts) == 1 and d.c == 0:
            return list(d.ts.values())[0] == 0
        return d.z() == 0

    def nfields(self, r):
        return {o: f for o, f in r.fields.items() if isinstance(o, int)}


class Contract:
    name = None
    inline = False
    loops = None
    cases = [("", {})]
    props = ()
    frame_check = True
    leak_check = True
    no_oom = False
    exact_mul = False    # wrapping products get their exact (non-linear) meaning
    lemmas = ()
    trusted = False      # not verified (external); contract is an assumption

    def setup(self, c):
        raise NotImplementedError

    def pre(self, c):
        return []

    def assume_only(self, c):
        return []

    def effect(self, c):
        return None

    def post(self, c):
        return []

    def measure(self, c):
        """a number that every recursive call decreases"""
        return None

    def bind(self, data):
        return self


REG = {}
ORDER = []
LEMMAS = {}     # name -> function returning [(label, hypotheses, goal)]


def lemma(f):
    """a mathematical fact proved (by the solver, from the listed hypotheses) on
    every run; the induction principle over the naturals is the only thing trusted"""
    LEMMAS[f.__name__] = f
    return f


def contract(cls):
    o = cls()
    assert o.name, cls
    REG[o.name] = o
    ORDER.append(o.name)
    return cls
