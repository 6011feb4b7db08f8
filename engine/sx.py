"""Path-wise symbolic executor / verification-condition generator over LLVM IR."""
import re, z3, struct
from val import *
import val
from ll import Instr

QRL = 400000   # rlimit for quick queries


def word(bs):
    """the number whose little-endian bytes are bs"""
    v = bs[0]
    for j, b in enumerate(bs[1:], 1):
        v = v + b * 2 ** (8 * j)
    return v


BYTE = z3.Function("BYTE", z3.IntSort(), z3.IntSort(), z3.IntSort())


def byte(x, j):
    """byte j of the number x (unsigned), little endian: word([byte(x, 0) .. byte(x, 7)]) = x for 0 <= x < 2^64"""
    return BYTE(x, I(j))


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Frame:
    __slots__ = ("fn", "env", "blk", "prev", "idx", "ret_to", "ctx", "alloc", "mod", "unroll")

    def __init__(self, fn, mod, ret_to):
        self.fn, self.mod, self.ret_to = fn, mod, ret_to
        self.env, self.ctx, self.unroll = {}, {}, {}
        self.blk, self.prev, self.idx = fn.order[0], None, 0
        self.alloc = []

    def copy(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        f.env, f.ctx, f.alloc, f.unroll = dict(self.env), dict(self.ctx), list(self.alloc), dict(self.unroll)
        return f


class State:
    def __init__(self):
        self.regions, self.hyps, self.frames, self.norm = {}, [], [], {}
        self.ghost = {}
        self.events = []      # trace of externally visible calls (trusted stubs)
        self.path = []

    def copy(self):
        s = State.__new__(State)
        s.regions = {k: r.copy() for k, r in self.regions.items()}
        s.hyps = list(self.hyps)
        s.frames = [f.copy() for f in self.frames]
        s.norm = dict(self.norm)
        s.ghost = dict(self.ghost)
        s.events = list(self.events)
        s.path = list(self.path)
        return s

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
            elif isinstance(f, bool):
                if not f:
                    self.hyps.append(z3.BoolVal(False))
            else:
                self.hyps.append(f)


class LoopCtx:
    pass


class Ob:
    def __init__(self, name, kind, hyps, goal, line):
        self.name, self.kind, self.hyps, self.goal, self.line = name, kind, hyps, goal, line
        self.status = None
        self.hints = []


_qcache = {}


def has_q(f):
    k = f.get_id()
    r = _qcache.get(k)
    if r is None or not z3.eq(r[0], f):
        st, seen, q = [f], set(), False
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                q = True
                break
            st += x.children()
        r = (f, q)
        _qcache[k] = r
    return r[1]


def fvars(f, seen=None):
    out, st, seen = set(), [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        else:
            st += x.children()
    return out


def And(*a):
    a = [x if not isinstance(x, bool) else z3.BoolVal(x) for x in a]
    return z3.And(*a) if a else z3.BoolVal(True)


def Or(*a):
    a = [x if not isinstance(x, bool) else z3.BoolVal(x) for x in a]
    return z3.Or(*a)


def Not(a):
    return z3.Not(a) if not isinstance(a, bool) else z3.BoolVal(not a)


def Imp(a, b):
    return Or(Not(a), b)


def forall(lo, hi, f, name="q", pats=None):
    i = z3.Int(fresh_name(name))
    b = f(i)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    body = z3.Implies(z3.And(lo <= i, i < hi), b) if lo is not None else b
    if pats:
        p = pats(i)
        p = [x for x in (p if isinstance(p, list) else [p]) if okpat(x)]
        if p:
            return z3.ForAll([i], body, patterns=p)
    return z3.ForAll([i], body)


def forall_m(vs, body, *pats):
    """a universal formula with one multi-pattern (dropped when a term cannot be a trigger)"""
    if pats and all(okpat(x) for x in pats):
        try:
            return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]])
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def okpat(x):
    """usable as a trigger: no logical connective inside"""
    if not z3.is_expr(x):
        return True
    todo = [x]
    while todo:
        e = todo.pop()
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return False
        todo += e.children()
    return True


UF = {}


def uf(name, *sorts):
    if name not in UF:
        UF[name] = z3.Function(name, *sorts)
    return UF[name]


INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
fre = uf("f_re", FS, REAL)
ffin = uf("f_fin", FS, BOOL)


def number_ghost(v):
    """a ghost that a loop may change: the loop's head takes an arbitrary value for it"""
    return isinstance(v, (z3.ExprRef, Arr, int)) and not isinstance(v, bool)


def same_ghost(v, w):
    if v is w:
        return True
    if isinstance(v, z3.ExprRef) or isinstance(w, z3.ExprRef):
        return isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef) and z3.eq(v, w)
    if isinstance(v, (tuple, list)) and isinstance(w, (tuple, list)):
        return len(v) == len(w) and all(same_ghost(x, y) for x, y in zip(v, w))
    if isinstance(v, dict) and isinstance(w, dict):
        return v.keys() == w.keys() and all(same_ghost(v[k], w[k]) for k in v)
    return type(v) is type(w) and isinstance(v, (bool, int, str, frozenset, set)) and v == w


class Exec:
    def __init__(self, prog, contracts, fname):
        self.prog, self.contracts, self.fname = prog, contracts, fname
        self.obs = []
        self.silent = 0
        self.guard = None
        self.quick = z3.Solver()
        self.quick.set("rlimit", QRL)
        self.qstack = []
        self.nq = 0
        self.finals = []
        self.notes = set()
        self.called = set()
        self.inlined = set()
        self.externs = set()
        self.case = ""
        self.depth_cap = 8
        self.steps = 0
        self.strides = {}
        self.quick_n = 0
        self.loops_seen = {}
        self.loop_perm = None       # which loop spec belongs to which loop (retries only)
        self.loop_fn = None
        self.step_cap = 60000
        self.bootstrap = None
        self.alloc_hook = None
        self.pools = {}             # allocation size -> pool that serves it
        self.handles = {}           # region of a block that moved into an array -> its handle
        self.pool_of = {}           # name -> pool

    # ------------------------------------------------------------ quick solver
    def _sync(self, hyps):
        n = 0
        qs = self.qstack
        m = min(len(qs), len(hyps))
        while n < m and qs[n] is hyps[n]:
            n += 1
        if len(qs) > n:
            self.quick.pop(len(qs) - n)
            del qs[n:]
        for h in hyps[n:]:
            self.quick.push()
            if not has_q(h):
                self.quick.add(h)
            qs.append(h)

    def implied(self, st, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return self.infeasible(st)
        if has_q(f):
            return False
        self._sync(st.hyps)
        self.nq += 1
        self.quick.push()
        self.quick.add(z3.Not(f))
        r = self.quick.check()
        self.quick.pop()
        return r == z3.unsat

    def infeasible(self, st, f=None):
        self._sync(st.hyps)
        self.nq += 1
        self.quick.push()
        if f is not None:
            self.quick.add(f)
        r = self.quick.check()
        self.quick.pop()
        return r == z3.unsat

    # ------------------------------------------------------------ obligations
    def line(self, st, ins=None):
        f = st.frames[-1]
        if ins is None and f.blk in f.fn.blocks:
            b = f.fn.blocks[f.blk].ins
            ins = b[min(f.idx, len(b) - 1)]
        return f.mod.line(ins.dbg) if ins is not None else 0

    def oblige(self, st, goal, kind, label="", line=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.silent:
            st.assume(goal)
            return
        g = z3.simplify(goal) if not has_q(goal) else goal
        if line is None:
            line = self.line(st) if st.frames else 0
        fn = st.frames[-1].fn.name if st.frames else self.fname
        name = "%s%s/%s:%s" % (self.fname, ("[%s]" % self.case) if self.case else "", kind, label)
        ob = Ob(name, kind, None, None, line)
        if fn != self.fname:
            ob.name += " (in %s)" % fn
        if z3.is_true(g) or self.implied(st, g):
            ob.status = "quick"
        else:
            ob.hyps, ob.goal = list(st.hyps), goal
        self.obs.append(ob)
        if not z3.is_true(g):
            st.assume(goal)

    # ------------------------------------------------------------ int views
    def lin_bounded(self, st, lin, lo_ok=False):
        """0 <= lin < 2^60 for an offset with one symbolic stride"""
        ss = [(k, t) for k, t in lin.ts.items() if not isinstance(k, int)]
        if len(ss) != 1 or len(lin.ts) != 1 or abs(lin.c) > 2 ** 20:
            return False
        k, t = ss[0]
        lo = t >= 0 if lin.c >= 0 else t >= 1 and lin.c >= 0
        return self.implied(st, And(t >= 0, t <= 4096 * (k.cap + 1)))

    def U(self, st, v):
        if isinstance(v, z3.BoolRef):
            return z3.If(v, I(1), I(0))
        if v.u:
            return v.t
        key = ("u", id(v))
        if key in st.norm:
            return st.norm[key][0]
        b = v.bits
        if v.lin is not None and any(not isinstance(k, int) for k in v.lin.ts):
            if self.lin_bounded(st, v.lin):
                st.norm[key] = (v.t, v)
                return v.t
            raise Unsupported("possible wrap-around of a size computation (element count times element size)")
        t = v.t
        c = zc(t)
        if c is not None:
            r = I(c % 2 ** b)
        elif self.implied(st, And(t >= 0, t < 2 ** b)):
            r = t
        elif v.s or self.implied(st, And(t >= -2 ** b, t < 2 ** b)):
            r = z3.If(t < 0, t + 2 ** b, t)
        elif self.implied(st, And(t >= 0, t < 2 ** (b + 1))):
            r = z3.If(t >= 2 ** b, t - 2 ** b, t)
        else:
            r = t % (2 ** b)
        st.norm[key] = (r, v)
        return r

    def S(self, st, v):
        if isinstance(v, z3.BoolRef):
            return z3.If(v, I(-1), I(0))
        if v.s:
            return v.t
        key = ("s", id(v))
        if key in st.norm:
            return st.norm[key][0]
        b = v.bits
        if v.lin is not None and any(not isinstance(k, int) for k in v.lin.ts):
            if self.lin_bounded(st, v.lin):
                return v.t
            raise Unsupported("possible wrap-around of a size computation")
        t = v.t
        c = zc(t)
        if c is not None:
            c %= 2 ** b
            r = I(c - 2 ** b if c >= 2 ** (b - 1) else c)
        elif self.implied(st, And(t >= -2 ** (b - 1), t < 2 ** (b - 1))):
            r = t
        else:
            u = self.U(st, v)
            r = z3.If(u >= 2 ** (b - 1), u - 2 ** b, u)
        st.norm[key] = (r, v)
        return r

    def inrange(self, st, v, signed):
        b = v.bits
        if signed:
            return self.implied(st, And(v.t >= -2 ** (b - 1), v.t < 2 ** (b - 1)))
        return self.implied(st, And(v.t >= 0, v.t < 2 ** b))

    def nonzero(self, st, v):
        """z3 Bool: v != 0"""
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, IV):
            if v.u or v.s:
                return v.t != 0
            return self.U(st, v) != 0
        if isinstance(v, PV):
            return Not(self.isnull(st, v))
        raise Unsupported("truth of %r" % (v,))

    def isnull(self, st, p):
        if isinstance(p, FnP):
            return z3.BoolVal(False)
        if p.rid is None:
            if p.off.const() == 0:
                return z3.BoolVal(True)
            return z3.BoolVal(False)
        r = st.regions[p.rid]
        if r.nullable:
            return simp(p.off.z() == 0)
        return z3.BoolVal(False)

    # ------------------------------------------------------------ regions
    def new_region(self, st, kind, name, **kw):
        rid = fresh_name(name)
        r = Region(rid, kind, name, **kw)
        st.regions[rid] = r
        return r

    def fresh_iv(self, st, bits, name, signed=False):
        t = fint(name)
        if signed:
            st.assume(And(t >= -2 ** (bits - 1), t < 2 ** (bits - 1)))
            return IV(bits, t, s=True)
        st.assume(And(t >= 0, t < 2 ** bits))
        return IV(bits, t, u=True)

    def resolve(self, st, r, off):
        """(element index term, constant byte offset within element)"""
        S = r.stride
        if isinstance(S, int):
            k = I(off.c // S)
            c = off.c % S
            left = []
            for s, t in off.ts.items():
                if isinstance(s, int) and s % S == 0:
                    k = k + (s // S) * t
                else:
                    left.append((s, t))
            if left:
                if S == 1:
                    for s, t in left:
                        k = k + (t * s if isinstance(s, int) else s.t * t)
                else:
                    L = I(c)
                    for s, t in left:
                        L = L + (t * s if isinstance(s, int) else s.t * t)
                    done = False
                    for cc in [c] + [x for x in sorted(r.fields) if isinstance(x, int)]:
                        if self.implied(st, L % S == cc % S):
                            k = k + L / S
                            c = cc
                            done = True
                            break
                    if not done:
                        raise Unsupported("byte-level access into %s" % r.name)
            return simp(k), c
        k, c = I(0), off.c
        for s, t in off.ts.items():
            if s is S:
                k = k + t
            elif not isinstance(s, int) or zc(t) is None:
                raise Unsupported("offset not a multiple of the element size in %s" % r.name)
        return simp(k), c

    def getr(self, st, p, what):
        if isinstance(p, FnP):
            raise Unsupported("data access through function pointer")
        if not isinstance(p, PV):
            raise Unsupported("access through non-pointer %r" % (p,))
        if p.rid is None:
            self.oblige(st, z3.BoolVal(False), "memory", "%s through NULL pointer" % what)
            raise PathEnd()
        r = st.regions.get(p.rid)
        if r is None:
            raise Unsupported("unknown region")
        if not r.alive:
            self.oblige(st, z3.BoolVal(False), "memory", "%s through dangling pointer into %s" % (what, r.name))
            raise PathEnd()
        return r

    def load(self, st, p, ty, mod):
        r = self.getr(st, p, "read")
        if r.opaque:
            self.oblige(st, z3.BoolVal(False), "memory", "read through opaque/unknown pointer (%s)" % r.name)
            raise PathEnd()
        n = mod.sizeof(ty)
        if r.kind == "cell":
            o = p.off.const()
            if o is None:
                raise Unsupported("variable offset into %s" % r.name)
            self.oblige(st, z3.BoolVal(o >= 0 and o + n <= r.size), "memory", "read of %s within its allocation" % r.name)
            return self.load_cell(st, r, o, n, ty)
        k, c = self.resolve(st, r, p.off)
        self.oblige(st, And(k >= 0, k < r.count), "memory", "read of %s in bounds" % r.name)
        if r.nullable:
            self.oblige(st, k != 0, "memory", "read of %s not through NULL" % r.name)
        if r.ghost.get("live") is not None:
            self.oblige(st, r.ghost["live"].get(k) != 0, "memory", "read of live %s" % r.name)
        return self.load_arr(st, r, k, c, n, ty)

    def load_arr(self, st, r, k, c, n, ty):
        f = r.fields.get(c)
        if f is None:
            if r.fields and isinstance(r.stride, int) and any(isinstance(o, int) and o < c + n and c < o + r.fields[o][0] for o in r.fields):
                raise Unsupported("overlapping access in %s at +%d" % (r.name, c))
            if ty == "ptr":
                raise Unsupported("untyped pointer field in %s at +%d" % (r.name, c))
            f = (n, "int", Base(r.name + "_f%d" % c))
            r.fields[c] = f
        if f[0] != n:
            if f[0] == 1 and f[1] == "int" and r.stride == 1 and c == 0 and n in (2, 4, 8) and ty != "ptr":
                # a number kept in a buffer of bytes (little endian)
                self.oblige(st, k + n <= r.count, "memory", "read of %s in bounds" % r.name)
                bs = [f[2].get(k + j) for j in range(n)]
                st.assume(And(*[And(b >= 0, b < 256) for b in bs]))
                v = word(bs)
                return FV(uf("bits2f", INT, FS)(v)) if ty == "double" else IV(8 * n, v, u=True)
            raise Unsupported("access width %d != field width %d in %s+%d" % (n, f[0], r.name, c))
        v = f[2].get(k)
        return self.dec(st, f, v, ty, n)

    def dec(self, st, f, v, ty, n):
        if f[1] == "int":
            if ty == "ptr":
                return PV(self.opq(st), Off(0, {1: v}))
            if ty == "double":
                return FV(uf("bits2f", INT, FS)(v))
            st.assume(And(v >= 0, v < 2 ** (8 * n)))
            return IV(8 * n, v, u=True)
        tgt = f[1][1]
        if f[1][0] == "fn":         # every element holds a function that keeps the named contract
            return FnP(contract=tgt)
        S = st.regions[tgt].stride
        if ty != "ptr":
            return IV(64, None, lin=None, ptr=PV(tgt, Off(0, {S: v})), t=uf("addr_" + str(tgt), INT, INT)(v))
        return PV(tgt, Off(0, {S: v}))

    def opq(self, st):
        if "opq" not in st.regions:
            r = Region("opq", "arr", "opaque", stride=1, count=I(0), nullable=True, opaque=True)
            st.regions["opq"] = r
        return "opq"

    def enc(self, st, f, v, r):
        """encode value for storing into array field f"""
        if f[1] == "int":
            if isinstance(v, PV):
                if v.rid == "opq":
                    return v.off.z()
                if v.rid is None:
                    return I(0)
                raise Unsupported("pointer stored into integer field of %s" % r.name)
            if isinstance(v, FV):
                w = uf("f2bits", FS, INT)(v.t)
                st.assume(uf("bits2f", INT, FS)(w) == v.t)
                return w
            return self.U(st, v)
        tgt = f[1][1]
        if isinstance(v, IV) and v.const() == 0:
            v = NULL
        if not isinstance(v, PV):
            raise Unsupported("non-pointer stored into pointer field")
        if v.rid is None:
            if st.regions[tgt].nullable:
                return I(0)
            raise Unsupported("NULL stored into non-null pointer field of %s" % r.name)
        if v.rid != tgt:
            raise Unsupported("pointer into %s stored where a pointer into %s is expected" % (st.regions[v.rid].name, st.regions[tgt].name))
        k, c = self.resolve(st, st.regions[tgt], v.off)
        if c:
            raise Unsupported("interior pointer stored")
        return k

    def load_cell(self, st, r, o, n, ty):
        if o in r.cells:
            sz, v = r.cells[o]
            if sz == n:
                if ty == "ptr" and isinstance(v, IV):
                    if v.ptr is not None:
                        return v.ptr
                    if v.const() == 0:
                        return NULL
                    return PV(self.opq(st), Off(0, {1: self.U(st, v)}))
                if ty == "double" and isinstance(v, IV):
                    if v.const() == 0:
                        return FV(self.fconst(0.0))
                    return FV(uf("bits2f", INT, FS)(self.U(st, v)))
                if ty not in ("ptr", "double") and isinstance(v, FV):
                    u = uf("f2bits", FS, INT)(v.t)
                    st.assume(And(u >= 0, u < 2 ** 64))
                    return IV(64, u, u=True)
                if ty not in ("ptr", "double") and isinstance(v, PV):
                    return self.ptr2int(st, v)
                if isinstance(v, z3.BoolRef):
                    return IV(8 * n, z3.If(v, I(1), I(0)), u=True)
                if isinstance(v, IV) and v.bits < 8 * n:   # i1 stored as byte
                    return IV(8 * n, self.U(st, v), u=True)
                return v
            if n < sz and isinstance(v, IV):
                u = self.U(st, v)
                return IV(8 * n, u, u=False)   # low bytes (little endian), mod view
        for o2, (sz, v) in r.cells.items():
            if o2 < o + n and o < o2 + sz:
                if isinstance(v, IV) and o2 <= o and o + n <= o2 + sz:
                    u = self.U(st, v) / (2 ** (8 * (o - o2)))
                    return IV(8 * n, u)
                # read spanning several constant cells
                if isinstance(v, IV) and all(isinstance(vv, IV) for oo, (ss, vv) in r.cells.items() if oo >= o and oo < o + n):
                    tot, pos, ok = I(0), o, True
                    while pos < o + n:
                        if pos not in r.cells or pos + r.cells[pos][0] > o + n:
                            ok = False
                            break
                        tot = tot + self.U(st, r.cells[pos][1]) * 2 ** (8 * (pos - o))
                        pos += r.cells[pos][0]
                    if ok:
                        return IV(8 * n, simp(tot), u=True)
                raise Unsupported("partial read of %s+%d" % (r.name, o))
        for lo, hi in r.zero:
            if lo <= o and o + n <= hi:
                if ty == "ptr":
                    return NULL
                if ty == "double":
                    return FV(self.fconst(0.0))
                return IV(8 * n, 0)
        if r.ghost.get("lazy"):
            v = r.ghost["lazy"](self, st, r, o, n, ty)
        elif ty == "ptr":
            v = POISON
        elif ty == "double":
            v = FV(z3.Const(fresh_name(r.name + "_d%d" % o), FS))
        else:
            v = self.fresh_iv(st, 8 * n, r.name + "_c%d" % o)
        if v is POISON:
            raise Unsupported("read of uninitialised pointer %s+%d" % (r.name, o))
        r.cells[o] = (n, v)
        return v

    def store_cell(self, st, r, o, n, v):
        for o2 in [x for x, (sz, _) in r.cells.items() if x < o + n and o < x + sz and (x, sz) != (o, n)]:
            sz, old = r.cells.pop(o2)
            # keep the non-overwritten part if integer
            if isinstance(old, IV):
                u = self.U(st, old)
                if o2 < o:
                    r.cells[o2] = (o - o2, IV(8 * (o - o2), u % 2 ** (8 * (o - o2)), u=True))
                if o2 + sz > o + n:
                    w = o2 + sz - o - n
                    r.cells[o + n] = (w, IV(8 * w, u / 2 ** (8 * (o + n - o2)), u=True))
        r.cells[o] = (n, v)

    def store(self, st, p, v, ty, mod):
        r = self.getr(st, p, "write")
        n = mod.sizeof(ty)
        if r.ro or r.opaque:
            self.oblige(st, z3.BoolVal(False), "memory", "write to %s, which is not writable here" % r.name)
            raise PathEnd()
        if r.kind == "cell":
            o = p.off.const()
            if o is None:
                raise Unsupported("variable offset into %s" % r.name)
            self.oblige(st, z3.BoolVal(o >= 0 and o + n <= r.size), "memory", "write of %s within its allocation" % r.name)
            self.store_cell(st, r, o, n, v)
            return
        k, c = self.resolve(st, r, p.off)
        self.oblige(st, And(k >= 0, k < r.count), "memory", "write of %s in bounds" % r.name)
        if r.nullable:
            self.oblige(st, k != 0, "memory", "write of %s not through NULL" % r.name)
        if r.ghost.get("live") is not None:
            self.oblige(st, r.ghost["live"].get(k) != 0, "memory", "write of live %s" % r.name)
        self.store_arr(st, r, k, c, n, v, ty)

    def store_arr(self, st, r, k, c, n, v, ty=None):
        f = r.fields.get(c)
        if f is None:
            if isinstance(r.stride, int) and any(isinstance(o, int) and o < c + n and c < o + r.fields[o][0] for o in r.fields):
                raise Unsupported("overlapping write in %s at +%d" % (r.name, c))
            ft = "int"
            if isinstance(v, PV) and v.rid not in (None, "opq"):
                ft = ("ptr", v.rid)
            f = (n, ft, Base(r.name + "_f%d" % c))
        if f[0] != n:
            raise Unsupported("write width %d != field width %d in %s+%d" % (n, f[0], r.name, c))
        e = self.enc(st, f, v, r)
        r.fields[c] = (f[0], f[1], St(f[2], k, e))
        if r.hooks:
            r.hooks(self, st, r, c, k, e)

    # ------------------------------------------------------------ arithmetic
    def fconst(self, x):
        b = struct.unpack("<Q", struct.pack("<d", x))[0]
        return z3.Const("fc_%016x" % b, FS)

    def faxiom_const(self, st, x):
        t = self.fconst(x)
        if x == x and abs(x) != float("inf"):
            from fractions import Fraction
            fr = Fraction(x)
            st.assume(And(fre(t) == z3.RealVal(str(fr)), ffin(t)))
        return FV(t)

    def val(self, st, tv, fr=None):
        ty, s = tv
        fr = fr or st.frames[-1]
        if s.startswith("%"):
            v = fr.env.get(s)
            if v is None:
                raise Unsupported("no value for %s" % s)
            if v is POISON:
                raise Unsupported("poison value %s" % s)
            return v
        if ty == "i1":
            if s in ("true", "false"):
                return z3.BoolVal(s == "true")
            return z3.BoolVal(int(s) % 2 == 1) if re.fullmatch(r"-?\d+", s) else fbool("undef")
        if s == "null":
            return NULL
        if s in ("undef", "poison"):
            if ty == "ptr":
                return POISON
            if ty.startswith("i"):
                return self.fresh_iv(st, int(ty[1:]), "undef")
            if ty.startswith("{") or ty.startswith("%"):
                return Agg([None] * len(fr.mod.fields(ty)))
            return FV(z3.Const(fresh_name("undef"), FS))
        if s == "zeroinitializer":
            raise Unsupported("zeroinitializer")
        if ty == "double":
            if s.startswith("0x"):
                x = struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]
            else:
                x = float(s)
            return self.faxiom_const(st, x)
        if re.fullmatch(r"-?\d+", s):
            return IV(int(ty[1:]), int(s))
        if s.startswith("@"):
            return self.glob(st, s, fr.mod)
        g = re.fullmatch(r"inttoptr \(i64 (-?\d+) to ptr\)", s)
        if g:
            return PV(self.opq(st), Off(int(g.group(1)) % (1 << 64)))
        if s.startswith("getelementptr"):
            g = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", s)
            import ll
            p = ll.split_commas(g.group(1))
            return self.gep(st, p[0].split()[0] if False else ll.take_type(p[0])[0], [ll.tyval(x) for x in p[1:]], fr)
        raise Unsupported("operand %s %s" % (ty, s))

    def glob(self, st, s, mod):
        name = s[1:]
        if name in mod.funcs or name in mod.decls:
            return FnP(name)
        rid = "g:" + mod.name + ":" + name
        if rid not in st.regions:
            d = mod.globals.get(s)
            if d is None:
                raise Unsupported("global " + s)
            g = re.match(r"(.*?)\b(constant|global) (.*)", d)
            if not g:
                raise Unsupported("global " + d)
            const = g.group(2) == "constant"
            import ll
            rest = re.sub(r", (align|comdat|section|!dbg).*$", "", g.group(3))
            ty, init = ll.take_type(rest)
            n = mod.sizeof(ty)
            if ty.startswith("["):
                m2 = re.match(r"\[(\d+) x i8\]", ty)
                r = Region(rid, "arr", name, stride=1, count=I(n), ro=const)
                if m2 and init.startswith('c"') and const:
                    b = bytes_of(init[2:init.rindex('"')])
                    base = Base("g_" + name)
                    st.assume(*[base.get(i) == c for i, c in enumerate(b)])
                    r.fields[0] = (1, "int", base)
                    if 0 in b:
                        r.ghost["nul"] = [I(b.index(0))]
                        r.ghost["lit"] = bytes(b[:b.index(0)]).decode("latin1")
                elif m2 and init.startswith("zeroinitializer") and const:
                    base = Base("g_" + name)
                    st.assume(*([base.get(i) == 0 for i in range(n)] if n <= 16 else [forall(0, n, lambda i: base.get(i) == 0)]))
                    r.fields[0] = (1, "int", base)
                    r.ghost["nul"] = [I(0)]
                elif m2:
                    r.fields[0] = (1, "int", Base("g_" + name))
                else:
                    m3 = re.match(r"\[(\d+) x (.*)\]$", ty)
                    r.stride = mod.sizeof(m3.group(2))
                    r.count = I(int(m3.group(1)))
                    if m3.group(2) == "ptr":
                        r.ghost["fnptrs"] = re.findall(r"ptr (@[\w.]+|null)", init)
            else:
                r = Region(rid, "cell", name, size=n, ro=const)
                if re.fullmatch(r"i\d+", ty) and re.fullmatch(r"-?\d+", init):
                    if const or self.globals_init(name):
                        r.cells[0] = (n, IV(8 * n, int(init) % 2 ** (8 * n)))
                elif ty == "double":
                    x = float(init) if not init.startswith("0x") else struct.unpack("<d", struct.pack("<Q", int(init, 16)))[0]
                    r.cells[0] = (8, self.faxiom_const(st, x))
                elif ty == "ptr" and re.search(r"\bexternal\b", g.group(1)):
                    r.cells[0] = (8, PV(self.opq(st), Off(0, {1: z3.Int("ext_" + name)})))
                elif init.startswith("@"):
                    st.regions[rid] = r
                    r.cells[0] = (8, self.glob(st, init, mod))
            st.regions[rid] = r
        return PV(rid)

    def globals_init(self, name):
        return False

    def gep(self, st, ty, args, fr):
        mod = fr.mod
        p = self.val(st, args[0], fr)
        if not isinstance(p, PV):
            raise Unsupported("gep on %r" % (p,))
        off = p.off
        cur = ty
        for n, a in enumerate(args[1:]):
            iv = self.val(st, a, fr)
            if n == 0:
                off = off + self.idx_off(st, iv, mod.sizeof(cur))
            elif cur.startswith("["):
                g = re.match(r"\[(\d+) x (.*)\]$", cur)
                cur = g.group(2)
                off = off + self.idx_off(st, iv, mod.sizeof(cur))
            else:
                o, cur = mod.offset(cur, iv.const())
                off = off + Off(o)
        return PV(p.rid, off)

    def idx_off(self, st, iv, size):
        c = iv.const()
        if c is not None:
            c %= 2 ** iv.bits
            if c >= 2 ** (iv.bits - 1):
                c -= 2 ** iv.bits
            return Off(c * size)
        if iv.lin is not None:
            if all(isinstance(k, int) for k in iv.lin.ts) or size == 1:
                if all(isinstance(k, int) for k in iv.lin.ts):
                    self.S(st, iv)   # may normalise; if wrap not excluded use plain view
                    if self.implied(st, And(iv.t >= -2 ** (iv.bits - 1), iv.t < 2 ** (iv.bits - 1))):
                        return iv.lin.scale(size)
                    return Off(0, {size: self.S(st, iv)})
                return iv.lin.scale(size)
        if iv.ptr is not None:
            raise Unsupported("pointer-valued index")
        return Off(0, {size: self.S(st, iv)})

    def ptr2int(self, st, v):
        if isinstance(v, FnP):
            raise Unsupported("ptrtoint of function")
        if v.rid is None:
            c = v.off.const()
            if c is not None:
                return IV(64, c)
            raise Unsupported("ptrtoint of null+x")
        r = st.regions[v.rid]
        if v.rid == "opq":
            return IV(64, v.off.z(), u=True, ptr=v)
        base = z3.Int("base_" + str(v.rid))
        st.assume(And(base >= 4096, base < 2 ** 47))
        x = IV(64, simp(base + v.off.z()) if all(isinstance(k, int) for k in v.off.ts) else None, ptr=v)
        if x._t is None:
            x._t = base + v.off.z()
        return x

    def binop(self, st, ins, a, b):
        op = ins.op
        ty = ins.ty
        if op.startswith("f"):
            return self.fbin(st, op, a, b)
        if ty == "i1":
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
            if op in ("xor", "add", "sub"):
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        n = int(ty[1:])
        flags = ins.extra or []
        ca, cb = a.const(), b.const()
        if op in ("add", "sub"):
            # pointer differences
            if op == "sub" and a.ptr is not None and b.ptr is not None:
                if a.ptr.rid == b.ptr.rid:
                    d = a.ptr.off - b.ptr.off
                    return IV(n, None if d.ts and any(not isinstance(k, int) for k in d.ts) else d.z(), lin=d)
                raise Unsupported("difference of pointers into different objects")
            if a.ptr is not None and a.ptr.rid != "opq" and b.lin is not None:
                off = a.ptr.off + b.lin if op == "add" else a.ptr.off - b.lin
                return self.ptr2int(st, PV(a.ptr.rid, off))
            if a.ptr is not None and a.ptr.rid != "opq" and cb is not None:
                k = cb if cb < 2 ** 63 else cb - 2 ** 64
                off = a.ptr.off + Off(k if op == "add" else -k)
                return self.ptr2int(st, PV(a.ptr.rid, off))
            la, lb = self.linof(a), self.linof(b)
            if la is not None and lb is not None and (la.ts or lb.ts):
                sym = any(not isinstance(k, int) for k in list(la.ts) + list(lb.ts))
                d = la + lb if op == "add" else la - lb
                if sym:
                    if d.const() is not None:
                        return IV(n, d.c)
                    return IV(n, None, lin=d)
                r = IV(n, simp(a.t + b.t if op == "add" else a.t - b.t), lin=d)
                if "nsw" in flags:
                    return self.nsw(st, n, r, a, b, op, lin=d)
                return r
            if "nsw" in flags:
                return self.nsw(st, n, None, a, b, op)
            kb = cb
            tb = b.t
            if cb is not None:
                cb %= 2 ** n
                tb = I(cb - 2 ** n if cb >= 2 ** (n - 1) else cb)
            # choose representatives to stay small
            ta = a.t
            return IV(n, simp(ta + tb if op == "add" else ta - tb))
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if x.lin is not None and any(not isinstance(k, int) for k in x.lin.ts):
                    cy = y.const()
                    if cy is not None:
                        return IV(n, None, lin=x.lin.scale(cy if cy < 2 ** (n - 1) else cy - 2 ** n))
                    if len(x.lin.ts) == 1 and x.lin.c == 0 and y.lin is None:
                        k, t = list(x.lin.ts.items())[0]
                        if zc(t) == 1:
                            return IV(n, None, lin=Off(0, {k: self.U(st, y)}))
                    if len(x.lin.ts) == 1 and x.lin.c == 0:
                        k, t = list(x.lin.ts.items())[0]
                        if zc(t) == 1 and all(isinstance(kk, int) for kk in y.lin.ts):
                            return IV(n, None, lin=Off(0, {k: self.U(st, y)}))
                    raise Unsupported("non-linear size computation")
            if "nsw" in flags:
                return self.nsw(st, n, None, a, b, op)
            if ca is not None and cb is not None:
                return IV(n, (ca * cb) % 2 ** n)
            for x, c in ((a, cb), (b, ca)):
                if c is not None and abs(c) < 2 ** 40:
                    if c >= 2 ** (n - 1):
                        c -= 2 ** n
                    l = self.linof(x)
                    if l is None or not l.ts:
                        l = Off(0, {1: x.t})
                    # keep the stride structure for small positive constants
                    return IV(n, simp(x.t * c), lin=Off(0, {c: x.t}) if c > 1 and not (x.lin and x.lin.ts) else (l.scale(c) if c > 0 else None))
            ua, ub = self.U(st, a), self.U(st, b)
            c = ca if ca is not None else cb
            if c is None and self.implied(st, And(ua < 2 ** (n // 2), ub < 2 ** (n // 2))):
                p = ua * ub
                st.assume(And(p >= 0, p < 2 ** n))
                return IV(n, p, u=True)
            if c is None and ca is None and self.implied(st, And(ua >= 0, ua <= 1)):
                return IV(n, z3.If(ua == 0, I(0), ub), u=True)
            if self.exact_mul:
                p, k = fint("prod"), fint("wraps")
                st.assume(And(p == ua * ub, k >= 0, p - k * 2 ** n >= 0, p - k * 2 ** n < 2 ** n))
                r = simp(p - k * 2 ** n)
                st.ghost[("products", n)] = st.ghost.get(("products", n), ()) + ((r, ua, ub, p),)
                return IV(n, r, u=True)
            r = bitop("wmul", n, ua, ub)
            st.assume(r == bitop("wmul", n, ub, ua))
            st.assume(And(r >= 0, r < 2 ** n))
            return IV(n, r, u=True)
        if op in ("udiv", "sdiv", "urem", "srem"):
            return self.divrem(st, op, n, a, b)
        if op == "shl":
            if cb is not None:
                if ca is not None:
                    return IV(n, (ca << cb) % 2 ** n)
                return IV(n, simp(a.t * 2 ** cb))
            r = self.fresh_iv(st, n, "shl")
            f = uf("shl%d" % n, INT, INT, INT)
            st.assume(r.t == f(self.U(st, a), self.U(st, b)))
            self.oblige(st, self.U(st, b) < n, "arith", "shift amount < width")
            if ca == 1:
                st.assume(r.t >= 1)
            return r
        if op == "lshr":
            if cb is not None:
                return IV(n, simp(self.U(st, a) / 2 ** cb), u=True)
            r = uf("lshr%d" % n, INT, INT, INT)(self.U(st, a), self.U(st, b))
            self.oblige(st, self.U(st, b) < n, "arith", "shift amount < width")
            st.assume(And(r >= 0, r <= self.U(st, a)))
            return IV(n, r, u=True)
        if op == "ashr":
            if cb is not None:
                return IV(n, simp(self.S(st, a) / 2 ** cb), s=True)
            r = uf("ashr%d" % n, INT, INT, INT)(self.S(st, a), self.U(st, b))
            st.assume(And(r >= -2 ** (n - 1), r < 2 ** (n - 1)))
            return IV(n, r, s=True)
        if op in ("and", "or", "xor"):
            if ca is not None and cb is None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                cb %= 2 ** n
                if ca is not None:
                    ca %= 2 ** n
                    return IV(n, {"and": ca & cb, "or": ca | cb, "xor": ca ^ cb}[op])
                ua = None
                if op == "and":
                    if cb == 0:
                        return IV(n, 0)
                    if cb == 2 ** n - 1:
                        return a
                    ua = self.U(st, a)
                    if (cb & (cb + 1)) == 0:
                        return IV(n, simp(ua % (cb + 1)), u=True)
                    nb = (2 ** n - 1) ^ cb
                    # sum of the selected (or cleared) bits when few runs
                    if bin(cb).count("1") <= 2:
                        return IV(n, simp(sum([bit(ua, k) * 2 ** k for k in range(n) if cb >> k & 1], I(0))), u=True)
                    if bin(nb).count("1") <= 2:
                        return IV(n, simp(ua - sum([bit(ua, k) * 2 ** k for k in range(n) if nb >> k & 1], I(0))), u=True)
                    # contiguous run of ones
                    s = bin(cb)[2:]
                    lo = len(s) - len(s.rstrip("0"))
                    if "0" not in s.rstrip("0"):
                        hi = len(s)
                        return IV(n, simp((ua % 2 ** hi) - (ua % 2 ** lo)), u=True)
                elif op == "or":
                    if cb == 0:
                        return a
                    ua = self.U(st, a)
                    if bin(cb).count("1") <= 2:
                        return IV(n, simp(ua + sum([(1 - bit(ua, k)) * 2 ** k for k in range(n) if cb >> k & 1], I(0))), u=True)
                else:
                    if cb == 0:
                        return a
                    if cb == 2 ** n - 1:
                        return IV(n, simp(-1 - a.t))
                    ua = self.U(st, a)
                    if bin(cb).count("1") == 1:
                        k = cb.bit_length() - 1
                        return IV(n, simp(ua + (1 - 2 * bit(ua, k)) * 2 ** k), u=True)
            if "disjoint" in flags:
                return IV(n, simp(a.t + b.t))
            ua, ub = self.U(st, a), self.U(st, b)
            if op in ("and", "or", "xor") and self.implied(st, And(ua >= 0, ua <= 1, ub >= 0, ub <= 1)):
                A, B = ua == 1, ub == 1
                f = {"and": And(A, B), "or": Or(A, B), "xor": z3.Xor(A, B)}[op]
                return IV(n, z3.If(f, I(1), I(0)), u=True)
            r = bitop(op, n, ua, ub)
            st.assume(r == bitop(op, n, ub, ua))
            if op == "and":
                st.assume(And(r >= 0, r <= ua, r <= ub))
            elif op == "or":
                st.assume(And(r >= ua, r >= ub, r <= ua + ub, r < 2 ** n))
            else:
                st.assume(And(r >= 0, r < 2 ** n, r <= ua + ub))
            return IV(n, r, u=True)
        raise Unsupported(op)

    def linof(self, v):
        if v.lin is not None:
            return v.lin
        c = v.const()
        if c is not None:
            if c >= 2 ** (v.bits - 1):
                c -= 2 ** v.bits
            return Off(c)
        return None

    def chosen(self, st, ins, fr):
        """an operation the compiler moved ahead of a choice (select) counts only where its
        value is chosen: the condition for that, or None"""
        fn = fr.fn
        if not hasattr(fn, "guards"):
            fn.guards = spec_guards(fn)
        g = fn.guards.get(ins.res)
        if not g:
            return None
        out = []
        for tv, pol in g:
            if tv[1].startswith("%") and fr.env.get(tv[1]) is None:
                return None
            c = self.val(st, tv)
            if not isinstance(c, z3.BoolRef):
                return None
            out.append(c if pol else Not(c))
        return And(*out)

    def nsw(self, st, n, r, a, b, op, lin=None):
        sa, sb = self.S(st, a), self.S(st, b)
        t = {"add": lambda: sa + sb, "sub": lambda: sa - sb, "mul": lambda: sa * sb}[op]()
        t = simp(t)
        ok = And(t >= -2 ** (n - 1), t < 2 ** (n - 1))
        self.oblige(st, ok if self.guard is None else Imp(self.guard, ok), "arith", "no signed overflow in %s" % op)
        return IV(n, t, s=True, lin=lin)

    def divrem(self, st, op, n, a, b):
        cb = b.const()
        if cb is not None:
            cb %= 2 ** n
        # exact division of a structured size
        if op in ("udiv", "sdiv") and a.lin is not None and a.lin.ts:
            bl = b.lin
            if bl is not None and len(bl.ts) == 1 and bl.c == 0:
                k, t = list(bl.ts.items())[0]
                if not isinstance(k, int) and zc(t) == 1 and a.lin.c == 0 and list(a.lin.ts) == [k]:
                    q = a.lin.ts[k]
                    if op == "udiv":
                        self.oblige(st, q >= 0, "arith", "non-negative element count in division")
                    return IV(n, q)
            if cb is not None and cb > 0 and all(isinstance(k, int) and k % cb == 0 for k in a.lin.ts) and a.lin.c % cb == 0:
                d = Off(a.lin.c // cb, {k // cb: t for k, t in a.lin.ts.items()})
                if self.inrange(st, IV(n, a.t), op == "sdiv"):
                    return IV(n, d.z(), lin=d if any(k != 1 for k in d.ts) else None)
        signed = op[0] == "s"
        ta, tb = (self.S(st, a), self.S(st, b)) if signed else (self.U(st, a), self.U(st, b))
        self.oblige(st, tb != 0, "arith", "division by zero")
        if signed:
            if not (cb is not None and cb != 2 ** n - 1):
                self.oblige(st, Not(And(ta == -2 ** (n - 1), tb == -1)), "arith", "signed division overflow")
        sb = zc(simp(tb))
        if signed and sb is not None and sb < 0 or (signed and sb is None):
            if self.implied(st, And(ta >= 0, tb > 0)):
                q, r = ta / tb, ta % tb
                if sb is None:
                    q, r = fint("q"), fint("r")
                    st.assume(And(ta == q * tb + r, r >= 0, r < tb, q >= 0, q <= ta))
                return IV(n, q if op[1] == "d" else r, s=True)
            f = uf("sdiv", INT, INT, INT)
            q = f(ta, tb)
            r = uf("srem", INT, INT, INT)(ta, tb)
            absb = z3.If(tb < 0, -tb, tb)
            st.assume(And(ta == q * tb + r, r < absb, r > -absb, z3.Implies(ta >= 0, r >= 0), z3.Implies(ta <= 0, r <= 0),
                          q <= z3.If(ta < 0, -ta, ta), q >= -z3.If(ta < 0, -ta, ta)))
            return IV(n, q if op[1:] == "div" else r, s=True)
        if signed:
            q = z3.If(ta >= 0, ta / tb, -((-ta) / tb))
            r = z3.If(ta >= 0, ta % tb, -((-ta) % tb))
            return IV(n, simp(q if op == "sdiv" else r), s=True)
        if sb is not None:
            return IV(n, simp(ta / tb if op == "udiv" else ta % tb), u=True)
        if op == "udiv" and self.exact_mul:
            # quotient of a (wrapped) product by one of its factors: facts of integer division
            q = fint("quot")
            for rr, x, y, p in st.ghost.get(("products", n), ()):
                for f, g in ((x, y), (y, x)):
                    st.assume(Imp(And(f == tb, rr == ta, tb > 0), And((q == g) == (p < 2 ** n))))
            st.assume(And(q >= 0, q <= ta))
            return IV(n, q, u=True)
        if op == "urem":
            if self.implied(st, ta < tb):
                return IV(n, ta, u=True)
            if self.implied(st, ta <= tb):
                return IV(n, z3.If(ta == tb, I(0), ta), u=True)
            if self.implied(st, ta < 2 * tb):
                return IV(n, z3.If(ta >= tb, ta - tb, ta), u=True)
            r = uf("urem", INT, INT, INT)(ta, tb)
            st.assume(And(r >= 0, r < tb, r <= ta, z3.Implies(ta < tb, r == ta)))
            return IV(n, r, u=True)
        q = uf("udiv", INT, INT, INT)(ta, tb)
        st.assume(And(q >= 0, q <= ta, z3.Implies(ta < tb, q == 0), z3.Implies(tb == 1, q == ta)))
        return IV(n, q, u=True)

    def fbin(self, st, op, a, b):
        r = uf(op, FS, FS, FS)(a.t, b.t)
        eps = z3.Q(1, 2 ** 52)
        if op == "fmul":
            ex = fre(a.t) * fre(b.t)
        elif op == "fadd":
            ex = fre(a.t) + fre(b.t)
        elif op == "fsub":
            ex = fre(a.t) - fre(b.t)
        else:
            ex = None
        if ex is not None and op == "fmul" and (is_fc(a.t) or is_fc(b.t)):
            # relative rounding error bound in the normal range
            lo, hi = ex * (1 - eps), ex * (1 + eps)
            st.assume(z3.Implies(And(ffin(a.t), ffin(b.t), ex >= z3.Q(1, 2), ex <= 2 ** 70),
                                 And(ffin(r), fre(r) >= lo, fre(r) <= hi)))
            st.assume(z3.Implies(And(ffin(a.t), ffin(b.t), ex == 0), And(ffin(r), fre(r) == 0)))
        return FV(r)

    def fcmp(self, st, pred, a, b):
        lt, eq, un = uf("f_lt", FS, FS, BOOL), uf("f_eq", FS, FS, BOOL), uf("f_nan", FS, BOOL)
        A, B = a.t, b.t
        u = Or(un(A), un(B))
        L, G, E = lt(A, B), lt(B, A), eq(A, B)
        st.assume(z3.Implies(And(ffin(A), ffin(B)),
                             And(Not(u), L == (fre(A) < fre(B)), G == (fre(A) > fre(B)), E == (fre(A) == fre(B)))))
        st.assume(z3.Implies(u, And(Not(L), Not(G), Not(E))))
        st.assume(z3.Implies(Not(u), z3.PbEq([(L, 1), (G, 1), (E, 1)], 1)))
        st.assume(z3.Implies(ffin(A), Not(un(A))), z3.Implies(ffin(B), Not(un(B))))
        st.assume(E == eq(B, A))
        base = {"oeq": E, "one": And(Not(u), Not(E)), "olt": L, "ogt": G, "ole": Or(L, E), "oge": Or(G, E),
                "ueq": Or(u, E), "une": Not(E), "ult": Or(u, L), "ugt": Or(u, G), "ule": Or(u, L, E), "uge": Or(u, G, E),
                "uno": u, "ord": Not(u)}
        return base[pred]

    def icmp(self, st, pred, a, b):
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if pred == "eq":
                return a == b
            if pred == "ne":
                return a != b
            a2, b2 = self.U(st, a), self.U(st, b)
            return cmpz(pred, a2, b2)
        if isinstance(a, PV) or isinstance(b, PV) or isinstance(a, FnP) or isinstance(b, FnP):
            return self.pcmp(st, pred, a, b)
        n = a.bits
        if a.lin is not None and b.lin is not None and a.ptr is None:
            d = a.lin - b.lin
            if pred in ("eq", "ne") and (len(d.ts) == 1 and d.c == 0):
                k, t = list(d.ts.items())[0]
                if not isinstance(k, int):
                    return t == 0 if pred == "eq" else t != 0
        if pred in ("eq", "ne"):
            if a.u and b.u or a.s and b.s:
                x, y = a.t, b.t
            elif a.const() is not None and b.u:
                x, y = self.U(st, a), b.t
            elif b.const() is not None and a.u:
                x, y = a.t, self.U(st, b)
            elif (a.s and b.const() is not None) or (b.s and a.const() is not None):
                x, y = self.S(st, a), self.S(st, b)
            elif a.lin is not None and b.const() == 0 and len(a.lin.ts) == 1 and a.lin.c == 0 and not isinstance(list(a.lin.ts)[0], int):
                x, y = list(a.lin.ts.values())[0], I(0)
            else:
                x, y = self.U(st, a), self.U(st, b)
            return x == y if pred == "eq" else x != y
        if pred[0] == "u":
            return cmpz(pred, self.U(st, a), self.U(st, b))
        return cmpz(pred, self.S(st, a), self.S(st, b))

    def pcmp(self, st, pred, a, b):
        for x in (a, b):
            if isinstance(x, IV):
                raise Unsupported("pointer/int compare")
        if isinstance(a, FnP) or isinstance(b, FnP):
            if isinstance(a, FnP) and isinstance(b, FnP) and a.name and b.name:
                e = z3.BoolVal(a.name == b.name)
            elif (isinstance(a, PV) and a.rid is None) or (isinstance(b, PV) and b.rid is None):
                e = z3.BoolVal(False)
            else:
                raise Unsupported("function pointer compare")
            return e if pred == "eq" else Not(e)
        if a.rid is None and b.rid is None:
            if a.off.const() == 0 and b.off.const() == 0:
                e = z3.BoolVal(True)
                return {"eq": e, "ne": Not(e)}.get(pred, z3.BoolVal(pred in ("ule", "uge")))
            raise Unsupported("null arithmetic compare")
        if a.rid is None or b.rid is None:
            x = a if b.rid is None else b
            nl = b if b.rid is None else a
            if nl.off.const() != 0:
                raise Unsupported("null arithmetic compare")
            e = self.isnull(st, x)
            if pred in ("eq", "ne"):
                return e if pred == "eq" else Not(e)
            if pred == "ugt" and b.rid is None:
                return Not(e)
            raise Unsupported("ordering with NULL")
        if a.rid == b.rid:
            d = a.off - b.off
            if not d.ts:
                x = I(d.c)
            elif d.c == 0 and len(d.ts) == 1:
                x = list(d.ts.values())[0]
            else:
                x = d.z()
            m = {"eq": x == 0, "ne": x != 0, "ult": x < 0, "ugt": x > 0, "ule": x <= 0, "uge": x >= 0}
            return m[pred]
        if pred == "eq":
            return self.both_null(st, a, b)
        if pred == "ne":
            return Not(self.both_null(st, a, b))
        raise Unsupported("ordering of pointers into different objects")

    def both_null(self, st, a, b):
        ra, rb = st.regions[a.rid], st.regions[b.rid]
        if a.rid == "opq" or b.rid == "opq":
            o = a if a.rid == "opq" else b
            if not o.off.ts and o.off.c == (1 << 64) - 1:
                return z3.BoolVal(False)          # MAP_FAILED, which no object starts at
            raise Unsupported("comparison of an opaque pointer with a typed one")
        return And(self.isnull(st, a), self.isnull(st, b))

    # ------------------------------------------------------------ main loop
    def push_frame(self, st, mod, fn, args, ret_to):
        if len(st.frames) > self.depth_cap:
            raise Unsupported("call depth / recursion through %s" % fn.name)
        f = Frame(fn, mod, ret_to)
        for (ty, n), a in zip(fn.params, args):
            f.env[n] = a
        st.frames.append(f)

    def run(self, work):
        while work:
            st = work.pop()
            try:
                while True:
                    self.steps += 1
                    if self.steps > self.step_cap:
                        raise Unsupported("path explosion")
                    nxt = self.step(st)
                    if nxt is None:
                        continue
                    work.extend(nxt)
                    break
            except PathEnd:
                pass
            except Unsupported as e:
                self.unsupported(st, e)
            except (z3.Z3Exception, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
                import traceback
                if self.bootstrap:
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                self.unsupported(st, "engine: %s: %s at %s" % (type(e).__name__, e, "; ".join("%s:%d" % (t.name, t.lineno) for t in tb[-3:])))

    def unsupported(self, st, e):
        if self.silent:
            return
        if self.infeasible(st):
            return
        self.oblige(st, z3.BoolVal(False), "unsupported", str(e)[:300])

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk].ins[fr.idx]
        op = ins.op
        if op == "phi":
            raise Unsupported("phi out of order")
        if op == "jmp":
            return self.jump(st, ins.extra[0])
        if op == "br":
            c = self.val(st, ins.args[0])
            if not isinstance(c, z3.BoolRef):
                c = self.nonzero(st, c)
            c = z3.simplify(c)
            if z3.is_true(c):
                return self.jump(st, ins.extra[0])
            if z3.is_false(c):
                return self.jump(st, ins.extra[1])
            out = []
            t_inf = self.infeasible(st, c)
            f_inf = self.infeasible(st, Not(c)) if not t_inf else False
            if not f_inf:
                s2 = st.copy() if not t_inf else st
                s2.assume(Not(c))
                s2.path.append((self.line(s2, ins), "F"))
                out.append((s2, ins.extra[1]))
            if not t_inf:
                st.assume(c)
                st.path.append((self.line(st, ins), "T"))
                out.append((st, ins.extra[0]))
            res = []
            for s, tgt in out:
                res += self.jump_safe(s, tgt)
            return res
        if op == "switch":
            v = self.val(st, ins.args[0])
            res = []
            dflt, cases = ins.extra
            if isinstance(v, z3.BoolRef):
                v = IV(8, z3.If(v, I(1), I(0)), u=True)
            rest = []
            for n, tgt in cases:
                e = self.icmp(st, "eq", v, IV(v.bits, n))
                if not self.infeasible(st, e):
                    s2 = st.copy()
                    s2.assume(e)
                    res += self.jump_safe(s2, tgt)
                rest.append(Not(e))
            if not self.infeasible(st, And(*rest)):
                st.assume(*rest)
                res += self.jump_safe(st, dflt)
            return res
        if op == "ret":
            v = self.val(st, ins.args[0]) if ins.args else None
            return self.do_ret(st, v)
        if op == "unreachable":
            raise PathEnd()
        if op == "call":
            r = self.call(st, ins)
            return r
        if op in ("getelementptr", "load", "store", "ptrtoint", "atomicrmw"):
            for a in ins.args:
                if a[1].startswith("%") and isinstance(fr.env.get(a[1]), Choice):
                    return self.split_val(st, a[1])
        if op in ("load", "store", "atomicrmw"):
            a = ins.args[-1 if op == "store" else 0]
            if a[1].startswith("%") and isinstance(fr.env.get(a[1]), PV):
                out = self.split_index(st, fr, a[1])
                if out is not None:
                    return out
        v = self.pure(st, ins, fr)
        if ins.res is not None:
            fr.env[ins.res] = v
        fr.idx += 1
        return None

    def split_val(self, st, k):
        """one state per alternative of the value named k"""
        a = st.frames[-1].env[k]
        out = []
        for c, x in ((a.c, a.a), (Not(a.c), a.b)):
            if not self.infeasible(st, c):
                s2 = st.copy()
                s2.assume(c)
                s2.frames[-1].env[k] = x
                out.append(s2)
        return out

    def split_index(self, st, fr, k):
        """a small table inside an object, indexed by a variable: one state per entry"""
        p = fr.env[k]
        r = st.regions.get(p.rid)
        if r is None or r.opaque or not r.alive or not p.off.ts:
            return None
        if r.kind == "cell":
            size, small = r.size, list(p.off.ts.items())
        elif isinstance(r.stride, int) and r.stride > 1 and r.ghost.get("live") is not None:
            size, small = r.stride, [(s, t) for s, t in p.off.ts.items() if not (isinstance(s, int) and s % r.stride == 0)]
        else:
            return None
        if len(small) != 1 or not isinstance(small[0][0], int) or not isinstance(size, int) or size // small[0][0] > 64:
            return None
        s, t = small[0]
        c0 = p.off.c % size if r.kind != "cell" else p.off.c
        lo, hi = -(c0 // s), (size - 1 - c0) // s
        self.oblige(st, And(t >= lo, t <= hi), "memory", "index within %s" % r.name)
        out = []
        for v in range(lo, hi + 1):
            if not self.infeasible(st, t == v):
                s2 = st.copy()
                s2.assume(t == v)
                ts = {a: b for a, b in p.off.ts.items() if a is not s and a != s} if True else None
                s2.frames[-1].env[k] = PV(p.rid, Off(p.off.c + s * v, ts))
                out.append(s2)
        return out

    def jump_safe(self, st, tgt):
        try:
            r = self.jump(st, tgt)
            return r if r is not None else [st]
        except PathEnd:
            return []
        except Unsupported as e:
            self.unsupported(st, e)
            return []

    def pure(self, st, ins, fr):
        op = ins.op
        if op == "load":
            p = self.val(st, ins.args[0])
            if ins.ty.startswith("{") or ins.ty.startswith("%"):
                return Agg([self.load(st, PV(p.rid, p.off + Off(fr.mod.offset(ins.ty, i)[0])), t, fr.mod) for i, t in enumerate(fr.mod.fields(ins.ty))])
            if ins.ty.startswith("["):
                raise Unsupported("aggregate load")
            return self.load(st, p, ins.ty, fr.mod)
        if op == "store":
            v = self.val(st, ins.args[0])
            p = self.val(st, ins.args[1])
            ty = ins.args[0][0]
            if isinstance(v, Agg):
                for i, t in enumerate(fr.mod.fields(ty)):
                    if v.v[i] is not None:
                        self.store(st, PV(p.rid, p.off + Off(fr.mod.offset(ty, i)[0])), v.v[i], t, fr.mod)
                return None
            self.store(st, p, v, ty, fr.mod)
            return None
        if op == "atomicrmw":
            # one step as seen from this thread; what others do in between is not modelled
            p, ty = self.val(st, ins.args[0]), ins.args[1][0]
            old, v = self.load(st, p, ty, fr.mod), self.val(st, ins.args[1])
            if ins.extra in ("add", "sub", "and", "or", "xor"):
                v = self.binop(st, Instr(ins.extra, ins.res, ty, [(ty, ""), (ty, "")], [], ins.dbg, ins.text), old, v)
            elif ins.extra != "xchg":
                raise Unsupported("atomicrmw " + ins.extra)
            self.store(st, p, v, ty, fr.mod)
            return old
        if op == "getelementptr":
            return self.gep(st, ins.extra, ins.args, fr)
        if op == "icmp":
            return self.icmp(st, ins.extra, self.val(st, ins.args[0]), self.val(st, ins.args[1]))
        if op == "fcmp":
            return self.fcmp(st, ins.extra, self.val(st, ins.args[0]), self.val(st, ins.args[1]))
        if op == "fneg":
            return FV(uf("fneg", FS, FS)(self.val(st, ins.args[0]).t))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.val(st, ins.args[0]), self.val(st, ins.args[1])
            self.guard = self.chosen(st, ins, fr) if ins.extra and "nsw" in ins.extra and op in ("add", "sub", "mul") else None
            try:
                return self.binop(st, ins, a, b)
            finally:
                self.guard = None
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            return self.cast(st, op, ins.args[0][0], ins.ty, self.val(st, ins.args[0]))
        if op == "freeze":
            return self.val(st, ins.args[0])
        if op == "select":
            c = self.val(st, ins.args[0])
            a, b = self.val(st, ins.args[1]), self.val(st, ins.args[2])
            return self.ite(st, c, a, b)
        if op == "alloca":
            ty, n = ins.extra
            if n is not None and self.val(st, n).const() is None:
                cnt = self.U(st, self.val(st, n))
                r = self.new_region(st, "arr", "stack_" + ins.res.strip("%"), stride=fr.mod.sizeof(ty), count=cnt)
            else:
                m = re.match(r"\[(\d+) x i8\]", ty)
                if m:
                    r = self.new_region(st, "arr", "local_" + ins.res.strip("%"), stride=1, count=I(int(m.group(1))))
                    r.fields[0] = (1, "int", Base("local"))
                else:
                    nm = (fr.fn.dbgvars.get(ins.res) or [ins.res.strip("%")])[0]
                    r = self.new_region(st, "cell", "local_" + nm, size=fr.mod.sizeof(ty) * (n and self.val(st, n).const() or 1))
            fr.alloc.append(r.rid)
            return PV(r.rid)
        if op == "extractvalue":
            a = self.val(st, ins.args[0])
            for i in ins.extra:
                a = a.v[i]
            return a
        if op == "insertvalue":
            a = self.val(st, ins.args[0])
            v = self.val(st, ins.args[1])
            n = list(a.v)
            n[ins.extra[0]] = v
            return Agg(n)
        raise Unsupported("instruction %s" % ins.text[:100])

    def ite(self, st, c, a, b):
        c = z3.simplify(c) if isinstance(c, z3.ExprRef) else z3.BoolVal(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, z3.BoolRef):
            return z3.If(c, a, b)
        if isinstance(a, IV):
            if a.ptr is not None or b.ptr is not None:
                raise Unsupported("select of pointer ints")
            if (a.lin is not None and any(not isinstance(k, int) for k in a.lin.ts)) or (b.lin is not None and any(not isinstance(k, int) for k in b.lin.ts)):
                la, lb = self.linof(a), self.linof(b)
                if la is not None and lb is not None and la.c == lb.c:
                    ks = set(la.ts) | set(lb.ts)
                    return IV(a.bits, None, lin=Off(la.c, {k: z3.If(c, la.ts.get(k, I(0)), lb.ts.get(k, I(0))) for k in ks}))
                raise Unsupported("select of sizes")
            if a.u and b.u:
                return IV(a.bits, z3.If(c, a.t, b.t), u=True)
            if a.s and b.s:
                return IV(a.bits, z3.If(c, a.t, b.t), s=True)
            return IV(a.bits, z3.If(c, self.U(st, a), self.U(st, b)), u=True)
        if isinstance(a, FV):
            return FV(z3.If(c, a.t, b.t))
        if isinstance(a, PV) and isinstance(b, PV):
            if a.rid == b.rid:
                ks = set(a.off.ts) | set(b.off.ts)
                if a.off.c == b.off.c or a.rid is None:
                    return PV(a.rid, Off(a.off.c, {k: z3.If(c, a.off.ts.get(k, I(0)), b.off.ts.get(k, I(0))) for k in ks}))
                S = st.regions[a.rid].stride
                ka, ca = self.resolve(st, st.regions[a.rid], a.off)
                kb, cb_ = self.resolve(st, st.regions[b.rid], b.off)
                if ca == cb_:
                    return PV(a.rid, Off(ca, {S: z3.If(c, ka, kb)}))
            for x, y, cc in ((a, b, c), (b, a, Not(c))):
                if y.rid is None and st.regions[x.rid].nullable:
                    return PV(x.rid, Off(0, {1: z3.If(cc, x.off.z(), I(0))}))
        return Choice(c, a, b)

    def cast(self, st, op, sty, dty, v):
        if op in ("zext", "sext"):
            n = int(dty[1:])
            if isinstance(v, z3.BoolRef):
                return IV(n, z3.If(v, I(1 if op == "zext" else -1), I(0)), u=(op == "zext"), s=True)
            t = self.U(st, v) if op == "zext" else self.S(st, v)
            lin = v.lin
            if lin is not None and not z3.eq(simp(lin.z()), simp(t)):
                lin = None
            return IV(n, t, u=(op == "zext"), s=True, lin=lin)
        if op == "trunc":
            if dty == "i1":
                return (self.U(st, v) % 2) == 1
            n = int(dty[1:])
            c = v.const()
            if c is not None:
                return IV(n, c % 2 ** n)
            if v.lin is not None and any(not isinstance(k, int) for k in v.lin.ts):
                return IV(n, self.U(st, v))
            return IV(n, v.t)
        if op == "ptrtoint":
            return v if v is POISON else self.ptr2int(st, v)
        if op == "inttoptr":
            if v.ptr is not None:
                return v.ptr
            if v.const() == 0:
                return NULL
            return PV(self.opq(st), Off(0, {1: self.U(st, v)}))
        if op == "bitcast":
            if sty == dty:
                return v
            raise Unsupported("bitcast")
        if op in ("uitofp", "sitofp"):
            t = self.U(st, v) if op == "uitofp" else self.S(st, v)
            f = uf("i2f", INT, FS)(t)
            st.assume(z3.Implies(And(t <= 2 ** 53, t >= -2 ** 53), And(ffin(f), fre(f) == z3.ToReal(t))))
            st.assume(ffin(f))
            return FV(f)
        if op in ("fptosi", "fptoui"):
            n = int(dty[1:])
            r = uf("f2i_%s%d" % (op[4], n), FS, INT)(v.t)
            if op == "fptosi":
                st.assume(And(r >= -2 ** (n - 1), r < 2 ** (n - 1)))
                return IV(n, r, s=True)
            st.assume(And(r >= 0, r < 2 ** n))
            return IV(n, r, u=True)
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ control
    def do_ret(self, st, v):
        fr = st.frames.pop()
        for rid in fr.alloc:
            if rid in st.regions:
                st.regions[rid].alive = False
        if not st.frames:
            if not self.silent or self.collect_silent:
                self.finals.append((st, v, fr))
            raise PathEnd()
        if fr.ret_to == "stop":
            raise PathEnd()
        top = st.frames[-1]
        if fr.ret_to is not None and v is not None:
            v = self.unchoice(st, v)
            if isinstance(v, list):
                out = []
                for s2, vv in v:
                    s2.frames[-1].env[fr.ret_to] = vv
                    s2.frames[-1].idx += 1
                    out.append(s2)
                return out
            top.env[fr.ret_to] = v
        top.idx += 1
        return None

    collect_silent = False

    def unchoice(self, st, v):
        if isinstance(v, Choice):
            out = []
            for c, x in ((v.c, v.a), (Not(v.c), v.b)):
                if not self.infeasible(st, c):
                    s2 = st.copy()
                    s2.assume(c)
                    r = self.unchoice(s2, x)
                    out += r if isinstance(r, list) else [(s2, x)]
            return out
        return v

    def jump(self, st, tgt):
        fr = st.frames[-1]
        fn = fr.fn
        cur = fr.blk
        # leaving loops?
        for h in list(fr.ctx):
            if tgt not in fn.loops[h]:
                if fr.ctx[h].discover:
                    raise PathEnd()
                del fr.ctx[h]
        for h in list(fr.unroll):
            if tgt not in fn.loops[h]:
                del fr.unroll[h]
        if tgt in fn.loops and (tgt in fr.unroll or (tgt not in fr.ctx and self.counted(fn, tgt) and self.loop_spec(st, fr, tgt) is None)):
            # a loop with a fixed small number of rounds is executed round by round
            n = fr.unroll[tgt] = fr.unroll.get(tgt, 0) + 1
            if n > 34:
                raise Unsupported("a loop that counts to a constant does not end")
        elif tgt in fn.loops:
            if tgt in fr.ctx and cur in fn.loops[tgt]:
                return self.latch(st, tgt)
            return self.enter_loop(st, tgt)
        vals = self.phis(st, tgt, cur)
        ch = [(k, v) for k, v in vals.items() if isinstance(v, Choice)]
        if ch:
            return self.split_choice(st, tgt, vals)
        fr.prev, fr.blk = cur, tgt
        fr.env.update(vals)
        fr.idx = len(vals)
        return None

    def counted(self, fn, h):
        """does the loop's head count from a constant in constant steps to a small constant?"""
        if not hasattr(fn, "counted"):
            fn.counted = {}
        if h in fn.counted:
            return fn.counted[h]
        body = fn.loops[h]
        const = lambda a: a[1].lstrip("-").isdigit()
        phi, defs = {}, {}
        for b in body:
            for i in fn.blocks[b].ins:
                if i.res:
                    defs[i.res] = i
        for i in fn.blocks[h].ins:
            if i.op != "phi":
                break
            outer = [a for a, frm in zip(i.args, i.extra) if frm not in body]
            inner = [a for a, frm in zip(i.args, i.extra) if frm in body]
            if all(const(a) for a in outer) and inner and all(a[1] in defs and defs[a[1]].op in ("add", "sub") and defs[a[1]].args[0][1] == i.res and const(defs[a[1]].args[1]) for a in inner):
                phi[i.res] = i
        out = False
        for i in fn.blocks[h].ins:
            if i.op == "icmp" and const(i.args[1]) and abs(int(i.args[1][1])) <= 32 and i.args[0][1] in phi and fn.blocks[h].ins[-1].op == "br" and fn.blocks[h].ins[-1].args[0][1] == i.res:
                out = True
        fn.counted[h] = out
        return out

    def split_choice(self, st, tgt, vals):
        todo = [(st, vals)]
        out = []
        while todo:
            s, vs = todo.pop()
            k = next((k for k, v in vs.items() if isinstance(v, Choice)), None)
            if k is None:
                f = s.frames[-1]
                f.prev, f.blk = f.blk, tgt
                f.env.update(vs)
                f.idx = len(vs)
                out.append(s)
                continue
            v = vs[k]
            for c, x in ((v.c, v.a), (Not(v.c), v.b)):
                if not self.infeasible(s, c):
                    s2 = s.copy()
                    s2.assume(c)
                    v2 = dict(vs)
                    v2[k] = x
                    todo.append((s2, v2))
        return out

    def phis(self, st, tgt, frm):
        fr = st.frames[-1]
        vals = {}
        for i in fr.fn.blocks[tgt].ins:
            if i.op != "phi":
                break
            n = i.extra.index(frm)
            a = i.args[n]
            if a[1] in ("undef", "poison") and a[0] == "ptr":
                vals[i.res] = POISON
            elif a[1].startswith("%"):
                vals[i.res] = fr.env.get(a[1], POISON)
            else:
                vals[i.res] = self.val(st, a)
        return vals

    # ------------------------------------------------------------ loops
    def loop_spec(self, st, fr, h):
        """user invariant function for this loop or None"""
        c = self.contracts.get(fr.fn.name)
        ls = getattr(c, "loops", None) if c else None
        if ls is None:
            return None
        ls = ls() if callable(ls) else ls
        i = fr.fn.loop_order.index(h)
        if self.loop_perm is not None and fr.fn.name == self.loop_fn:
            i = self.loop_perm[i] if i < len(self.loop_perm) else None
        if i is not None and i < len(ls):
            return ls[i]
        return None

    def enter_loop(self, st, h):
        fr = st.frames[-1]
        fn = fr.fn
        entry = self.phis(st, h, fr.blk)
        for k, v in entry.items():
            # one fixed reading of every loop-carried integer
            if isinstance(v, IV) and not v.u and not v.s and v.bits > 1:
                entry[k] = IV(v.bits, self.U(st, v), u=True)
        if any(isinstance(v, Choice) for v in entry.values()):
            # split first
            k, v = next((k, v) for k, v in entry.items() if isinstance(v, Choice))
            i = next(i for i in fn.blocks[h].ins if i.res == k)
            src = i.args[i.extra.index(fr.blk)][1]
            out = []
            for c, x in ((v.c, v.a), (Not(v.c), v.b)):
                if not self.infeasible(st, c):
                    s2 = st.copy()
                    s2.assume(c)
                    s2.frames[-1].env[src] = x
                    out += self.jump_safe(s2, h)
            return out
        spec = self.loop_spec(st, fr, h)
        H = Havoc()
        for k in entry:
            H.phi[k] = ("fresh",)
        self.silent += 1
        try:
            for it in range(24):
                head, ctx = self.make_head(st, h, entry, H, spec, True)
                self.run([head])
                if not self.update_havoc(st, head, ctx, H, entry):
                    break
            else:
                raise Unsupported("loop analysis does not converge")
        finally:
            self.silent -= 1
        # entry obligations
        lp = LoopView(self, st, h, entry, I(0), st, fr, None)
        if spec and not self.silent:
            for nm, f in self.invs(spec, lp, True, H):
                self.oblige(st, f, "loop-entry", "%s loop%d %s" % (fn.name, fn.loop_order.index(h), nm))
        head, ctx = self.make_head(st, h, entry, H, spec, False)
        if not self.silent:
            self.loops_seen.setdefault((fn.name, h), {"variant": ctx.variant is not None or ctx.auto_variant is not None,
                                                     "inv": bool(spec), "auto": len(H.cands)})
        return [head]

    def invs(self, spec, lp, strict, H):
        """invariants of a loop specification.  ("maybe", name, formula): kept when it holds at
        entry and is inductive together with the rest; ("variant?", name, term): the variant is
        one that decreases on every way round"""
        lp.H = H
        try:
            r = spec(lp)
        except Unsupported:
            if strict:
                raise
            return []
        out = []
        lp.maybe, lp.variants = {}, {}
        for x in r or []:
            if x is None:
                continue
            if x[0] == "variant":
                lp.variant = x[1]
            elif x[0] == "maybe":
                lp.maybe[x[1]] = x[2]
                if H.maybe is not None and x[1] in H.maybe:
                    out.append((x[1], x[2]))
            elif x[0] == "variant?":
                lp.variants[x[1]] = x[2]
            else:
                out.append(x)
        if lp.variant is None:
            for nm, t in lp.variants.items():
                if H.vbad is not None and nm not in H.vbad:
                    lp.variant = t
                    break
        return out

    def holds(self, st, f):
        """does f follow, quantifiers included (within a resource limit)?"""
        if not has_q(f) and self.implied(st, f):
            return True
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        s = z3.Solver()
        s.set("rlimit", 2000000)
        s.set("smt.mbqi", False)
        s.set("smt.random_seed", 1)
        for h in st.hyps:
            s.add(h)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def make_head(self, st, h, entry, H, spec, discover):
        s = st.copy()
        fr = s.frames[-1]
        fn = fr.fn
        K = fint("K")
        s.assume(K >= 0)
        ctx = LoopCtx()
        ctx.discover, ctx.h, ctx.K, ctx.spec, ctx.entry_state, ctx.entry = discover, h, K, spec, st, entry
        ctx.latch = []
        ctx.newregs = set()
        ctx.havoc = H
        vals = {}
        ctx.tokens = []
        # memory
        for (rid, off), info in H.cells.items():
            r = s.regions.get(rid)
            if r is None:
                continue
            v = r.cells.get(off)
            sz = v[0] if v else info["size"]
            nv = self.havoc_val(s, v[1] if v else info["sample"], info, ctx, r.name + "_h%s" % (off,))
            r.cells[off] = (sz, nv)
        for (rid, off), ft in H.fields.items():
            r = s.regions.get(rid)
            if r is None:
                continue
            r.fields[off] = (ft[0], ft[1], Base(r.name + "_h%s" % (off,)))
        for (rid, g), sample in H.ghosts.items():
            r = s.regions.get(rid)
            if r is None:
                continue
            r.ghost[g] = Base(r.name + "_g") if isinstance(sample, Arr) else fint(r.name + "_g")
        for g, sample in H.sghosts.items():
            s.ghost[g] = Base("gh") if isinstance(sample, Arr) else fint("gh_" + str(g))
        for rid in H.dead:
            if rid in s.regions:
                s.regions[rid].alive = False
        # phis
        for k, e in entry.items():
            m = H.phi[k]
            if m[0] == "same":
                vals[k] = e
            elif m[0] == "step":
                vals[k] = self.step_val(s, e, m[1], K)
            elif m[0] == "poison":
                vals[k] = POISON
            else:
                vals[k] = self.havoc_val(s, e, m[1] if len(m) > 1 else {}, ctx, "phi")
        ctx.vals = vals
        fr.env.update(vals)
        fr.prev, fr.blk = fr.blk, h
        fr.idx = len(entry)
        for c in H.cands:
            f = c.at(self, s, vals, ctx)
            if f is not None:
                s.assume(f)
        lp = LoopView(self, s, h, vals, K, st, fr, ctx)
        ctx.variant = None
        ctx.auto_variant = None
        if spec:
            for nm, f in self.invs(spec, lp, not discover, H):
                s.assume(f)
            ctx.variant = lp.variant
            ctx.variants = getattr(lp, "variants", {})
        for c in H.cands:
            if ctx.variant is None and c.kind == "bound":
                ctx.auto_variant = c.measure(self, s, vals, ctx)
                break
        fr.ctx[h] = ctx
        ctx.head = s.copy()
        return s, ctx

    def step_val(self, s, e, d, K):
        if isinstance(e, IV):
            t = simp(e.t + d * K)
            b = e.bits
            if e.s and not e.u:
                s.assume(And(t >= -2 ** (b - 1), t < 2 ** (b - 1)))
                return IV(b, t, s=True)
            s.assume(And(t >= 0, t < 2 ** b))
            return IV(b, t, u=True)
        if isinstance(e, PV):
            if isinstance(d, int):
                return PV(e.rid, e.off + Off(0, {abs(d): K if d > 0 else -K}))
            k, n = d
            return PV(e.rid, e.off + Off(0, {k: K * n}))
        raise Unsupported("step")

    def havoc_val(self, s, e, info, ctx, nm):
        if e is None or e is POISON:
            e = info.get("sample")
            if e is None:
                return POISON
        if isinstance(e, z3.BoolRef):
            return fbool(nm)
        if isinstance(e, IV):
            return self.fresh_iv(s, e.bits, nm)
        if isinstance(e, FV):
            return FV(z3.Const(fresh_name(nm), FS))
        if isinstance(e, PV):
            rep = info.get("replace")
            if rep is not None:
                r0 = rep
                r = Region(fresh_name(r0.name), r0.kind, r0.name, stride=r0.stride, count=fint("n"), heap=r0.heap, size=r0.size,
                           nullable=r0.nullable, hooks=r0.hooks)
                s.assume(And(r.count >= 0, r.count <= 2 ** 47))
                if r0.kind != "arr":
                    return POISON
                for o, f in r0.fields.items():
                    r.fields[o] = (f[0], f[1], Base(r.name + "_f"))
                for g, v in r0.ghost.items():
                    r.ghost[g] = Base(r.name + "_g") if isinstance(v, Arr) else v
                s.regions[r.rid] = r
                ctx.newregs.add(r.rid)
                if isinstance(e, PV) and e.rid in s.regions:
                    s.regions[e.rid].alive = False
                return PV(r.rid)
            if info.get("poison"):
                return POISON
            if e.rid is None:
                smp = info.get("sample")
                if isinstance(smp, PV) and smp.rid in s.regions and s.regions[smp.rid].nullable:
                    e = smp
                else:
                    return e if not info.get("sample") else POISON
            r = s.regions[e.rid]
            if r.kind == "cell":
                return POISON
            S = r.stride
            k, c = self.resolve(s, r, e.off)
            return PV(e.rid, Off(c, {S: fint(nm + "_k")}))
        if isinstance(e, FnP):
            return POISON
        raise Unsupported("havoc of %r" % (e,))

    def sameval(self, a, b):
        if a is b:
            return True
        if type(a) != type(b):
            if isinstance(a, PV) or isinstance(b, PV):
                return False
            return False
        if isinstance(a, IV):
            if a._t is not None and b._t is not None:
                return z3.eq(a._t, b._t) or zc(simp(a._t - b._t)) == 0
            return z3.eq(a.t, b.t)
        if isinstance(a, FV):
            return z3.eq(a.t, b.t)
        if isinstance(a, PV):
            if a.rid != b.rid:
                return False
            d = a.off - b.off
            return d.c == 0 and not d.ts
        if isinstance(a, z3.ExprRef):
            return z3.eq(a, b)
        if isinstance(a, FnP):
            return a.name == b.name and a.contract == b.contract
        return False

    def update_havoc(self, st, head, ctx, H, entry):
        ch = False
        hd = ctx.head
        for ls, lv in ctx.latch:
            for rid, r in hd.regions.items():
                r2 = ls.regions.get(rid)
                if r2 is None:
                    continue
                if rid in ctx.newregs:
                    continue
                if r.alive and not r2.alive and rid not in H.dead:
                    # freed or replaced inside the loop
                    H.dead.add(rid); ch = True
                for o, (sz, v) in r2.cells.items():
                    v1 = r.cells.get(o)
                    if v1 is None and rid in st.regions and o in st.regions[rid].cells:
                        v1 = st.regions[rid].cells[o]
                    if v1 is not None and v1[0] == sz and self.sameval(v1[1], v):
                        continue
                    if (v1 is None) and self.lazy_same(rid, o, hd, ls, v):
                        continue
                    info = H.cells.get((rid, o))
                    if info is None:
                        info = {"size": sz, "sample": v}
                        H.cells[(rid, o)] = info
                        ch = True
                    if isinstance(v, PV):
                        e0 = v1[1] if v1 else None
                        if v.rid is not None and v.rid not in hd.regions and not info.get("replace"):
                            r0 = ls.regions[v.rid]
                            if r0.kind == "arr":
                                info["replace"] = r0
                            else:
                                info["poison"] = True
                            ch = True
                        elif isinstance(e0, PV) and e0.rid is None and v.rid is not None and not isinstance(info.get("sample"), PV):
                            info["sample"] = v; ch = True
                for o, f in r2.fields.items():
                    f1 = r.fields.get(o)
                    if f1 is not None and f1[2] is f[2]:
                        continue
                    if f1 is None and rid in st.regions and o not in st.regions[rid].fields and isinstance(f[2], Base):
                        # lazily typed on first read: make it part of the entry state
                        st.regions[rid].fields[o] = f; ch = True
                        continue
                    if (rid, o) not in H.fields:
                        H.fields[(rid, o)] = f; ch = True
                for g, v in r2.ghost.items():
                    if v is not r.ghost.get(g) and not callable(v):
                        if isinstance(v, z3.ExprRef) and isinstance(r.ghost.get(g), z3.ExprRef) and z3.eq(v, r.ghost[g]):
                            continue
                        if (rid, g) not in H.ghosts:
                            H.ghosts[(rid, g)] = v; ch = True
            for g, v in ls.ghost.items():
                v1 = hd.ghost.get(g)
                if same_ghost(v, v1) or not number_ghost(v):
                    continue
                if g not in H.sghosts:
                    H.sghosts[g] = v; ch = True
        # phis
        for k in entry:
            m = H.phi[k]
            e = entry[k]
            hv = ctx.vals[k]
            if not ctx.latch:
                continue
            if m[0] == "fresh" and hv is POISON:
                smp = next((lv[k] for _, lv in ctx.latch if lv[k] is not POISON), None)
                if len(m) == 1 and smp is not None and e is POISON:
                    continue   # uninitialised at entry: stays poison unless assigned before use
                continue
            if m[0] in ("fresh",) and len(m) == 1:
                if all(self.sameval(lv[k], hv) for _, lv in ctx.latch):
                    H.phi[k] = ("same",); ch = True
                    continue
                d = self.step_of(ctx, k, hv)
                if d is not None and k not in H.nostep:
                    H.phi[k] = ("step", d); ch = True
                    continue
                if isinstance(e, PV):
                    info = {}
                    for ls, lv in ctx.latch:
                        v = lv[k]
                        if isinstance(v, PV) and v.rid != hv.rid and v.rid is not None:
                            if v.rid not in hd.regions:
                                r0 = ls.regions[v.rid]
                                info["replace" if r0.kind == "arr" else "poison"] = r0
                            elif hv.rid is None and hd.regions[v.rid].nullable:
                                info["sample"] = v
                            else:
                                info["poison"] = True
                    if info:
                        H.phi[k] = ("fresh", info); ch = True
            elif m[0] == "same":
                if not all(self.sameval(lv[k], hv) for _, lv in ctx.latch):
                    H.phi[k] = ("fresh",); ch = True
            elif m[0] == "step":
                ok = self.step_of(ctx, k, hv) == m[1]
                if ok and isinstance(e, IV):
                    b = e.bits
                    for ls, lv in ctx.latch:
                        t = lv[k].t
                        rng = And(t >= -2 ** (b - 1), t < 2 ** (b - 1)) if (e.s and not e.u) else And(t >= 0, t < 2 ** b)
                        if not self.implied(ls, rng):
                            ok = False
                    if not ok and not H.tried_cands:
                        ok = True   # give candidate bounds a chance first
                        H.rangefail.add(k)
                if not ok:
                    H.phi[k] = ("fresh",); H.nostep.add(k); ch = True
        # candidate invariants
        if not ch and not H.tried_cands:
            H.tried_cands = True
            H.cands = self.gen_cands(st, ctx, H, entry)
            if H.cands or H.rangefail:
                ch = True
            if ctx.spec:
                lp = LoopView(self, st, ctx.h, entry, I(0), st, st.frames[-1], None)
                self.invs(ctx.spec, lp, False, H)
                may = getattr(lp, "maybe", {})
                if may or getattr(lp, "variants", {}):
                    H.maybe = {n for n, f in may.items() if self.holds(st, f)}
                    H.vbad = set()
                    ch = True
        elif H.tried_cands:
            keep = []
            for c in H.cands:
                good = True
                for ls, lv in ctx.latch:
                    f = c.at(self, ls, lv, ctx)
                    if f is None or not self.implied(ls, f):
                        good = False
                        break
                if good:
                    keep.append(c)
            if len(keep) != len(H.cands):
                H.cands = keep
                ch = True
            if H.maybe is not None:
                views = []
                for ls, lv in ctx.latch:
                    fr = next(f for f in reversed(ls.frames) if f.fn is st.frames[-1].fn)
                    ls = ls.copy()
                    lp = LoopView(self, ls, ctx.h, lv, ctx.K + 1, st, fr, ctx)
                    for nm, f in self.invs(ctx.spec, lp, False, H):
                        if nm not in H.maybe:
                            ls.assume(f)
                    views.append((ls, lp))
                bad = {n for n in sorted(H.maybe) for ls, lp in views if n not in lp.maybe or not self.holds(ls, lp.maybe[n])}
                if bad:
                    H.maybe -= bad
                    ch = True
                elif not ch:
                    bad = {n for n, t0 in ctx.variants.items() if n not in H.vbad and
                           not all(n in lp.variants and self.holds(ls, And(t0 >= 0, lp.variants[n] < t0)) for ls, lp in views)}
                    if bad:
                        H.vbad |= bad
                        ch = True
        return ch

    def lazy_same(self, rid, o, hd, ls, v):
        return rid not in hd.regions

    def step_of(self, ctx, k, hv):
        d = None
        for ls, lv in ctx.latch:
            v = lv[k]
            if isinstance(v, IV) and isinstance(hv, IV):
                if v._t is None or hv._t is None:
                    return None
                x = zc(simp(v.t - hv.t))
                if x is not None and abs(x) >= 2 ** (v.bits - 1):
                    x = x - 2 ** v.bits if x > 0 else x + 2 ** v.bits
            elif isinstance(v, PV) and isinstance(hv, PV) and v.rid == hv.rid and v.rid is not None:
                o = v.off - hv.off
                if not o.ts:
                    x = o.c
                elif len(o.ts) == 1 and o.c == 0:
                    kk, tt = list(o.ts.items())[0]
                    n = zc(tt)
                    x = (kk, n) if n is not None and not isinstance(kk, int) else None
                else:
                    x = None
            else:
                return None
            if x is None or x == 0:
                return None
            if d is not None and d != x:
                return None
            d = x
        return d

    def gen_cands(self, st, ctx, H, entry):
        """bounds 'phi <= X' for loop-invariant comparison operands, and equalities
        between pointer and integer phis; kept only if inductive (Houdini)."""
        out = []
        hd = ctx.head
        fr = hd.frames[-1]
        fn = fr.fn
        base = set()
        for hname in ():
            pass
        # symbols allowed in a loop-invariant bound: not created by make_head
        headsyms = set()
        for k, v in ctx.vals.items():
            if isinstance(v, IV) and v._t is not None:
                headsyms |= fvars(v.t)
            elif isinstance(v, PV):
                for t in v.off.ts.values():
                    headsyms |= fvars(t)
        entrysyms = set()
        for v in entry.values():
            if isinstance(v, IV) and v._t is not None:
                entrysyms |= fvars(v.t)
            elif isinstance(v, PV):
                for t in v.off.ts.values():
                    entrysyms |= fvars(t)
        bad = (headsyms - entrysyms) | {str(ctx.K)}
        cutoff = int(str(ctx.K).split("!")[1])
        phis = [(k, ctx.vals[k]) for k in entry if H.phi[k][0] in ("step", "fresh") and ctx.vals[k] is not POISON]

        def ok_term(t):
            for nme in fvars(t):
                if nme in bad:
                    return False
                if "!" in nme and nme.split("!")[-1].isdigit() and int(nme.split("!")[-1]) > cutoff:
                    return False
            return True
        seen = set()
        for ls, lv in ctx.latch:
            lfr = next((f for f in ls.frames if f.fn is fn), None)
            if lfr is None:
                continue
            for b in fn.loops[ctx.h]:
                for ins in fn.blocks[b].ins:
                    if ins.op != "icmp":
                        continue
                    for x in ins.args:
                        v = None
                        try:
                            v = self.val(ls, x, lfr)
                        except Unsupported:
                            continue
                        if isinstance(v, IV) and v._t is not None and ok_term(v.t):
                            try:
                                views = {str(simp(v.t)): v.t}
                                if not v.u:
                                    views[str(simp(self.S(ls, v)))] = self.S(ls, v)
                                else:
                                    pass
                            except Unsupported:
                                continue
                            for tt in views.values():
                                for k, pv in phis:
                                    if isinstance(pv, IV) and pv.bits == v.bits or (isinstance(pv, IV)):
                                        for rel in ("le", "ge"):
                                            key = (k, rel, str(tt))
                                            if key not in seen:
                                                seen.add(key)
                                                out.append(Cand("bound", k, rel, tt, None))
                        elif isinstance(v, PV) and v.rid is not None and all(ok_term(t) for t in v.off.ts.values()):
                            for k, pv in phis:
                                if isinstance(pv, PV) and pv.rid == v.rid:
                                    for rel in ("le", "ge"):
                                        key = (k, rel, str(v))
                                        if key not in seen:
                                            seen.add(key)
                                            out.append(Cand("bound", k, rel, None, v))
        # monotonicity / initial value bounds
        for k, pv in phis:
            e = entry[k]
            if isinstance(pv, IV) and isinstance(e, IV) and e._t is not None:
                out.append(Cand("ibound", k, "ge", e.t, None))
                out.append(Cand("ibound", k, "le", e.t, None))
            elif isinstance(pv, PV) and isinstance(e, PV) and pv.rid == e.rid:
                out.append(Cand("ibound", k, "ge", None, e))
        # equalities pointer index == int
        for k, pv in phis:
            if isinstance(pv, PV) and pv.rid in hd.regions and hd.regions[pv.rid].kind == "arr":
                for k2, iv in phis:
                    if isinstance(iv, IV) and (H.phi[k][0] == "fresh" or H.phi[k2][0] == "fresh"):
                        out.append(Cand("eqidx", k, k2, None, None))
        for c in list(out):
            if c.kind in ("bound", "ibound") and c.t_ is not None and H.phi[c.k][0] == "fresh":
                d = Cand(c.kind, c.k, c.rel, c.t_, c.p)
                d.sg = True
                out.append(d)
        keep = []
        for c in out:
            f = c.at(self, st, entry, ctx)
            if f is not None and self.implied(st, f):
                keep.append(c)
        return keep

    def latch(self, st, h):
        fr = st.frames[-1]
        ctx = fr.ctx[h]
        vals = self.phis(st, h, fr.blk)
        if any(isinstance(v, Choice) for v in vals.values()):
            k, v = next((k, v) for k, v in vals.items() if isinstance(v, Choice))
            i = next(i for i in fr.fn.blocks[h].ins if i.res == k)
            src = i.args[i.extra.index(fr.blk)][1]
            out = []
            for c, x in ((v.c, v.a), (Not(v.c), v.b)):
                if not self.infeasible(st, c):
                    s2 = st.copy()
                    s2.assume(c)
                    s2.frames[-1].env[src] = x
                    out += self.jump_safe(s2, h)
            return out
        if ctx.discover:
            ctx.latch.append((st, vals))
            raise PathEnd()
        if self.silent:
            raise PathEnd()
        # shape + phi-form checks (the loop analysis must have been right)
        H = ctx.havoc
        fn = fr.fn
        li = fn.loop_order.index(h)
        for k, v in vals.items():
            m = H.phi[k]
            hv = ctx.vals[k]
            lab = "%s loop%d phi %s" % (fn.name, li, (fn.dbgvars.get(k) or [k])[0])
            if m[0] == "same":
                self.oblige(st, self.sameval(v, hv), "loop-analysis", lab + " unchanged")
            elif m[0] == "step":
                nv = self.step_val(st.copy(), ctx.entry[k], m[1], ctx.K + 1)
                if isinstance(v, IV):
                    self.oblige(st, v.t == nv.t, "loop-analysis", lab + " step")
                    b = v.bits
                    e = ctx.entry[k]
                    rng = And(v.t >= -2 ** (b - 1), v.t < 2 ** (b - 1)) if (e.s and not e.u) else And(v.t >= 0, v.t < 2 ** b)
                    self.oblige(st, rng, "loop-analysis", lab + " does not wrap")
                else:
                    self.oblige(st, self.sameval(v, nv), "loop-analysis", lab + " step")
            elif hv is not POISON and isinstance(hv, PV):
                ok = isinstance(v, PV) and v.rid == hv.rid
                if not ok and isinstance(v, PV) and v.rid is None and hv.rid in st.regions and st.regions[hv.rid].nullable:
                    ok = True
                rep = len(m) > 1 and "replace" in m[1]
                self.oblige(st, z3.BoolVal(bool(ok or rep)), "loop-analysis", lab + " stays in its object")
        # memory modified must be in the havoc set: check vs ctx.head
        hd = ctx.head
        for rid, r in hd.regions.items():
            r2 = st.regions.get(rid)
            if rid in ctx.newregs:
                continue
            if r.alive and not r2.alive:
                self.oblige(st, z3.BoolVal(False), "loop-analysis", "free in loop not anticipated")
            for o, (sz, v) in r2.cells.items():
                v1 = r.cells.get(o)
                if (rid, o) in H.cells or (v1 is not None and self.sameval(v1[1], v)):
                    continue
                if v1 is None and o not in ctx.entry_state.regions.get(rid, r).cells and rid in ctx.entry_state.regions:
                    continue  # first lazily typed read inside the loop
                self.oblige(st, z3.BoolVal(False), "loop-analysis", "write to %s+%d in loop not anticipated" % (r.name, o))
            for o, f in r2.fields.items():
                f1 = r.fields.get(o)
                if (rid, o) in H.fields or (f1 is not None and f1[2] is f[2]) or (f1 is None and isinstance(f[2], Base)):
                    continue
                self.oblige(st, z3.BoolVal(False), "loop-analysis", "write to %s in loop not anticipated" % r.name)
        for g, v in st.ghost.items():
            v1 = hd.ghost.get(g)
            if (g in H.sghosts and number_ghost(v)) or same_ghost(v, v1) or (isinstance(g, tuple) and g[0] == "products"):
                continue
            self.oblige(st, z3.BoolVal(False), "loop-analysis", "ghost %s" % g)
        for n, c in enumerate(H.cands):
            f = c.at(self, st, vals, ctx)
            self.oblige(st, f if f is not None else z3.BoolVal(False), "loop-auto", "%s loop%d %s" % (fn.name, li, c.describe(fn)))
        lp = LoopView(self, st, h, vals, ctx.K + 1, ctx.entry_state, fr, ctx)
        if ctx.spec:
            for nm, f in self.invs(ctx.spec, lp, True, H):
                self.oblige(st, f, "loop-preserve", "%s loop%d %s" % (fn.name, li, nm))
        if ctx.variant is not None and lp.variant is not None:
            self.oblige(st, And(ctx.variant >= 0, lp.variant < ctx.variant), "termination", "%s loop%d variant" % (fn.name, li))
        elif ctx.auto_variant is not None:
            for c in H.cands:
                if c.kind == "bound":
                    m2 = c.measure(self, st, vals, ctx)
                    if m2 is not None:
                        ok = self.implied(st, And(ctx.auto_variant >= 0, m2 < ctx.auto_variant))
                        if ok:
                            break
            else:
                self.notes.add("termination of loop %d of %s not proved" % (li, fn.name))
        else:
            self.notes.add("termination of loop %d of %s not proved" % (li, fn.name))
        raise PathEnd()

    # ------------------------------------------------------------ calls
    def call(self, st, ins):
        import builtins_c
        fr = st.frames[-1]
        callee = ins.extra
        args = []
        for a in ins.args:
            if a[0] == "metadata":
                args.append(None)
                continue
            if a[1] in ("undef", "poison"):
                args.append(POISON)
                continue
            args.append(self.val(st, a))
        for i, a in enumerate(args):
            if isinstance(a, Choice):
                out = []
                for c, x in ((a.c, a.a), (Not(a.c), a.b)):
                    if not self.infeasible(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        s2.frames[-1].env[ins.args[i][1]] = x
                        out.append(s2)
                return out
        if callee.startswith("@"):
            name = callee[1:].strip('"')
            con = self.contracts.get(name)
        else:
            f = self.val(st, ("ptr", callee))
            if isinstance(f, Choice):
                raise Unsupported("choice of function pointers")
            if not isinstance(f, FnP):
                raise Unsupported("call through %r" % (f,))
            if f.contract:
                name = f.contract
                con = self.contracts[f.contract]
                if f.data is not None:
                    con = con.bind(f.data)
            else:
                name = f.name
                con = self.contracts.get(name)
                if con is not None and f.data is not None:
                    con = con.bind(f.data)
        b = builtins_c.TABLE.get(name)
        if name.startswith("llvm."):
            b = builtins_c.intrinsic(name)
        if con is not None and not con.inline:
            self.called.add(name)
            return self.finish_call(st, ins, self.apply_contract(st, con, args, ins))
        if con is None and b is not None:
            if not name.startswith("llvm."):
                self.externs.add(name)
            return self.finish_call(st, ins, b(self, st, args, ins))
        mf = self.prog.lookup(name, fr.mod)
        if mf is not None:
            mod, fn = mf
            self.inlined.add(name)
            if any(f.fn is fn for f in st.frames):
                raise Unsupported("recursive call of %s without contract" % name)
            self.push_frame(st, mod, fn, args, ins.res or None)
            return None
        raise Unsupported("call of %s: no contract, no body, no library model" % name)

    def finish_call(self, st, ins, res):
        """res: None | value | list of (state, value)"""
        if isinstance(res, list):
            out = []
            for s, v in res:
                vv = self.unchoice(s, v) if isinstance(v, Choice) else [(s, v)]
                for s2, v2 in vv:
                    f = s2.frames[-1]
                    if ins.res:
                        f.env[ins.res] = v2
                    f.idx += 1
                    out.append(s2)
            return out
        if isinstance(res, Choice):
            return self.finish_call(st, ins, [(st, res)])
        f = st.frames[-1]
        if ins.res:
            f.env[ins.res] = res
        f.idx += 1
        return None

    def apply_contract(self, st, con, args, ins):
        from contract import Ctx
        old = st.copy()
        c = Ctx(self, con, st, st, args, "call")
        for nm, f in con.pre(c) or []:
            self.oblige(st, f, "pre", "precondition of %s: %s" % (con.name, nm))
        if con is self.root.con:
            m0, m1 = con.measure(self.root), con.measure(c)
            if m0 is None:
                self.notes.add("recursion of %s: termination is not shown" % con.name)
            else:
                self.oblige(st, And(m1 >= 0, m1 < m0), "variant", "recursion of %s ends" % con.name)
        for f in con.assume_only(c) or []:
            st.assume(f)
        old = st.copy()
        aux = c.aux
        c = Ctx(self, con, old, st, args, "call")
        c.aux = aux
        r = con.effect(c)
        outs = r if isinstance(r, list) else [(st, r)]
        res = []
        for s, v in outs:
            c2 = Ctx(self, con, old, s, args, "call", ret=v)
            c2.tag = c.tag
            c2.aux = c.aux
            for x in con.post(c2) or []:
                if x is not None:
                    s.assume(x[1])
            res.append((s, v))
        if all(self.infeasible(s) for s, _ in res) and not self.infeasible(old):
            raise Unsupported("the contract of %s contradicts itself here" % con.name)
        if len(res) == 1 and res[0][0] is st:
            return res[0][1] if not isinstance(res[0][1], Choice) else res
        return res


class Choice:
    """a value that differs in kind between two cases; split at the next use"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Havoc:
    def __init__(self):
        self.cells, self.fields, self.ghosts, self.sghosts = {}, {}, {}, {}
        self.dead = set()
        self.phi = {}
        self.nostep = set()
        self.rangefail = set()
        self.cands = []
        self.tried_cands = False
        self.maybe = None           # optional invariants of the loop's specification still in the race
        self.vbad = None            # variants found not to decrease


class Cand:
    def __init__(self, kind, k, rel, t, p):
        self.kind, self.k, self.rel, self.t_, self.p = kind, k, rel, t, p
        self.sg = False

    def at(self, ex, st, vals, ctx):
        v = vals.get(self.k)
        if v is None or v is POISON:
            return None
        if self.kind == "eqidx":
            i = vals.get(self.rel)
            if not isinstance(v, PV) or not isinstance(i, IV) or v.rid not in st.regions:
                return None
            r = st.regions[v.rid]
            if r.kind != "arr":
                return None
            try:
                k, c = ex.resolve(st, r, v.off)
            except Unsupported:
                return None
            x = self.view(ex, st, self.rel, i, ctx)
            return k == x if x is not None else None
        if isinstance(v, IV):
            x = self.view(ex, st, self.k, v, ctx)
            if self.t_ is None or x is None:
                return None
            return x <= self.t_ if self.rel == "le" else x >= self.t_
        if isinstance(v, PV):
            if self.p is None or self.p.rid != v.rid:
                return None
            d = v.off - self.p.off
            if len(d.ts) == 1 and d.c == 0 and not isinstance(list(d.ts)[0], int):
                t = list(d.ts.values())[0]
            else:
                try:
                    t = d.z()
                except Exception:
                    return None
            return t <= 0 if self.rel == "le" else t >= 0
        return None

    def view(self, ex, st, k, v, ctx):
        """loop-carried integer k as the mathematical integer its bounds speak of: stepping
        phis keep their entry value's reading (range-checked at the latch), others are read
        as unsigned, or as signed for the signed twin of a candidate"""
        try:
            if ctx.havoc.phi[k][0] in ("step", "same"):
                return v.t if v._t is not None else None
            return ex.S(st, v) if self.sg else ex.U(st, v)
        except Unsupported:
            return None

    def measure(self, ex, st, vals, ctx):
        f = self.at(ex, st, vals, ctx)
        if f is None or self.kind != "bound":
            return None
        v = vals[self.k]
        if isinstance(v, IV):
            x = self.view(ex, st, self.k, v, ctx)
            return self.t_ - x if self.rel == "le" else x - self.t_
        d = v.off - self.p.off
        if len(d.ts) == 1 and d.c == 0:
            t = list(d.ts.values())[0]
        else:
            t = d.z()
        return -t if self.rel == "le" else t

    def describe(self, fn):
        n = (fn.dbgvars.get(self.k) or [self.k])[0]
        if self.kind == "eqidx":
            return "index(%s) == %s" % (n, (fn.dbgvars.get(self.rel) or [self.rel])[0])
        return "%s %s %s" % (n, "<=" if self.rel == "le" else ">=", self.t_ if self.t_ is not None else self.p)


class LoopView:
    """what an invariant may talk about"""
    def __init__(self, ex, st, h, vals, K, entry_state, fr, ctx):
        self.ex, self.st, self.h, self.vals, self.K, self.entry, self.fr, self.ctx = ex, st, h, vals, K, entry_state, fr, ctx
        self.variant = None
        self.H = None
        self.root = ex.root
        self.old = ex.root.old
        self.args = ex.root.args

    def lemma(self, f):
        """use an instance of a lemma (proved separately) in this state"""
        self.st.assume(f)

    def ptrs(self, rid):
        """loop-carried pointers into a block"""
        return [v for v in self.vals.values() if isinstance(v, PV) and v.rid == rid]

    def intphis(self):
        """loop-carried integers: (label that stays the same in every view, value)"""
        out = [("%s (%s)" % ((self.fr.fn.dbgvars.get(k) or ["?"])[0], k), v) for k, v in self.vals.items() if isinstance(v, IV) and v.bits >= 32]
        for rid, o in (self.H.cells if self.H is not None else ()):
            r = self.st.regions.get(rid)
            v = r.cells.get(o) if r is not None and r.kind == "cell" else None
            if v is not None and isinstance(v[1], IV) and v[1].bits >= 32:
                out.append(("%s (cell %s+%d)" % (r.name, rid, o), v[1]))
        return out

    def ints(self, bits=64):
        return [v for v in self.vals.values() if isinstance(v, IV) and v.bits == bits]

    def outer(self, i):
        """the i-th loop of the function, which must enclose this one"""
        if self.ex.loop_perm is not None and self.fr.fn.name == self.ex.loop_fn:
            i = self.ex.loop_perm.index(i)
        h = self.fr.fn.loop_order[i]
        if h not in self.fr.ctx:
            raise Unsupported("loop %d does not enclose this loop" % i)
        return self.fr.ctx[h]

    def _find(self, name):
        for k in self.vals:
            if name in (self.fr.fn.dbgvars.get(k) or []):
                return self.vals[k]
        return None

    def first(self, name):
        """the value a loop-carried variable (C name, or label of intphis) had when the loop was entered"""
        for k in self.vals:
            if name.endswith("(%s)" % k):
                return self.ctx.entry[k] if self.ctx is not None else self.vals[k]
        for rid, o in (self.H.cells if self.H is not None else ()):
            if name.endswith("(cell %s+%d)" % (rid, o)):
                return self.entry.regions[rid].cells[o][1]
            if name in (self.fr.fn.dbgvars.get(k) or []):
                return self.ctx.entry[k] if self.ctx is not None else self.vals[k]
        raise Unsupported("no variable '%s' at loop %s of %s" % (name, self.h, self.fr.fn.name))

    def has(self, name):
        return self._find(name) is not None

    def val(self, name):
        v = self._find(name)
        if v is None:
            # not loop-carried: a plain value computed before the loop
            for k, ns in self.fr.fn.dbgvars.items():
                if name in ns and k in self.fr.env:
                    return self.fr.env[k]
            raise Unsupported("no variable '%s' at loop %s of %s" % (name, self.h, self.fr.fn.name))
        return v

    def t(self, name):
        v = self.val(name)
        if isinstance(v, z3.BoolRef):
            return v
        return v.t

    def u(self, name):
        return self.ex.U(self.st, self.val(name))

    def s(self, name):
        return self.ex.S(self.st, self.val(name))

    def phis(self, cls=None, bits=None):
        H = self.ctx.havoc if self.ctx else None
        out = []
        for k, v in self.vals.items():
            if cls and not isinstance(v, cls):
                continue
            if bits and not (isinstance(v, IV) and v.bits == bits):
                continue
            out.append((k, v))
        return out


def spec_guards(fn):
    """value name -> [(condition, polarity)] for values used only by one select (directly or
    through operations that merely pass an undefined value on)"""
    uses, ins_of, blk = {}, {}, {}
    for b in fn.blocks.values():
        for i in b.ins:
            if i.res:
                ins_of[i.res] = i
                blk[i.res] = b.name
            t = i.text.split(" = ", 1)[-1] if i.res else i.text
            for v in set(re.findall(r"%[\w.$\-]+", t.split(", !dbg")[0])):
                uses.setdefault(v, []).append((i, b.name))
    out = {}

    def guard(v, depth=0):
        if v in out:
            return out[v]
        us = uses.get(v, [])
        r = None
        if len(us) == 1 and depth < 8:
            u, b = us[0]
            if b == blk.get(v):
                if u.op == "select" and u.args[0][1] != v and (u.args[1][1] == v) != (u.args[2][1] == v):
                    r = [(u.args[0], u.args[1][1] == v)]
                    r += guard(u.res, depth + 1) or []
                elif u.op in ("add", "sub", "mul", "icmp", "sext", "zext", "trunc", "xor", "and", "or") and u.res:
                    r = guard(u.res, depth + 1)
        out[v] = r
        return r
    for v in ins_of:
        guard(v)
    return {k: g for k, g in out.items() if g}


def bitop(op, n, a, b):
    """the operation as an uninterpreted function (its commutativity is asserted where it is executed)"""
    a, b = simp(I(a)), simp(I(b))
    return uf("%s%d" % (op, n), INT, INT, INT)(a, b)


def bit(u, k):
    return (u / (2 ** k)) % 2


def is_fc(t):
    return z3.is_const(t) and t.decl().name().startswith("fc_")


def cmpz(pred, a, b):
    p = pred[1:]
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p] if pred not in ("eq", "ne") else (a == b if pred == "eq" else a != b)


def bytes_of(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out
