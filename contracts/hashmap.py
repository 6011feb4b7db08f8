"""Contracts for util/hashmap.c.

Abstract value of a map with n entries: for every v in [0,n) a canonical key
(bytes keybuf[kidx(v) .. kidx(v)+klen(v))) and, for maps, the value values[v].
The table stores the entries in slots; ghost `slot` maps v to its slot.
"""
import z3
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
from builtins_c import low
import vec as V

FILE = ["util/hashmap.c", "util/vec.c"]
DEPS = ["vec"]

NONE = 2 ** 64 - 1
PRIME = 1099511628211
INIT = 14695981039346656037
MODES = ("exact", "nocase", "rtrim", "nocase_rtrim")
INTS = z3.IntSort()
BOOLS = z3.BoolSort()
SEQEQ = uf("seqeq", IA, INTS, INTS, IA, INTS, INTS, BOOLS)
Hb = uf("Hb", IA, INTS, INTS, INTS)
SW = uf("seqw", IA, INTS, INTS, IA, INTS, INTS, INTS)
FREE = uf("freeslot", IA, IA, IA, INTS, INTS, INTS)


def canonarr(mode, a):
    """the key bytes as they are compared: lower-cased in the no-case modes"""
    return uf("CANON_lower", IA, IA)(a) if "nocase" in mode else a


def schar(b):
    return z3.If(b >= 128, b - 256, b)


def u64(x):
    return z3.If(x < 0, x + 2 ** 64, x)


def hstep(h, b):
    return bitop("xor", 64, bitop("wmul", 64, h, I(PRIME)), u64(schar(b)))


def canon(mode, b):
    """byte stored for key byte b"""
    return low(b) if "nocase" in mode else b


def axioms_seq():
    a, b = z3.Const("ax_a", IA), z3.Const("ax_b", IA)
    o, n, p, m, j = z3.Ints("ax_o ax_n ax_p ax_m ax_j")
    E = SEQEQ(a, o, n, b, p, m)
    w = SW(a, o, n, b, p, m)
    sel = z3.Select
    return [
        z3.ForAll([a, o, n, b, p, m], Imp(E, n == m), patterns=[E]),
        z3.ForAll([a, o, n, b, p, m, j], Imp(And(E, o <= j, j < o + n), sel(a, j) == sel(b, j - o + p)), patterns=[z3.MultiPattern(E, sel(a, j))]),
        z3.ForAll([a, o, n, b, p, m, j], Imp(And(E, p <= j, j < p + n), sel(b, j) == sel(a, j - p + o)), patterns=[z3.MultiPattern(E, sel(b, j))]),
        z3.ForAll([a, o, n, b, p, m], Imp(And(Not(E), n == m), And(w >= 0, w < n, sel(a, o + w) != sel(b, p + w))), patterns=[E]),
    ]


def axioms_hash():
    a, b = z3.Const("ax_a", IA), z3.Const("ax_b", IA)
    o, n, p, m = z3.Ints("ax_o ax_n ax_p ax_m")
    E = SEQEQ(a, o, n, b, p, m)
    return [z3.ForAll([a, o, n, b, p, m], Imp(And(E, n >= 0), Hb(a, o, n) == Hb(b, p, m)), patterns=[E])]


def axioms_canon():
    a = z3.Const("ax_a", IA)
    i = z3.Int("ax_i")
    C = canonarr("nocase", a)
    return [z3.ForAll([a, i], z3.Select(C, i) == low(z3.Select(a, i)), patterns=[z3.Select(C, i)])]


def hb_unfold(arr, o, k):
    """definition of the hash at one point: Hb(arr,o,0) = INIT, Hb(arr,o,k+1) = step"""
    return [Hb(arr, o, I(0)) == INIT, Imp(k >= 0, Hb(arr, o, k + 1) == hstep(Hb(arr, o, k), z3.Select(arr, o + k)))]


@lemma
def hash_depends_on_bytes_only():
    """SEQEQ(a,o,n,b,p,n) -> Hb(a,o,n) == Hb(b,p,n), by induction on n"""
    a, b = z3.Const("a", IA), z3.Const("b", IA)
    o, n, p = z3.Ints("o n p")
    same = lambda k: forall(0, k, lambda i: z3.Select(a, o + i) == z3.Select(b, p + i))
    defs = hb_unfold(a, o, n) + hb_unfold(b, p, n)
    ih = Imp(same(n), Hb(a, o, n) == Hb(b, p, n))
    k = z3.Int("k")
    E = SEQEQ(a, o, n, b, p, n)
    return [("base", defs, Hb(a, o, I(0)) == Hb(b, p, I(0))),
            ("step", defs + [n >= 0, ih, same(n + 1)], Hb(a, o, n + 1) == Hb(b, p, n + 1)),
            ("equality predicate gives bytes", axioms_seq() + [E, k >= 0, k < n], z3.Select(a, o + k) == z3.Select(b, p + k))]


@lemma
def pigeonhole():
    """an injective map from [0,L) into [0,n) needs L <= n; by induction on n"""
    A = z3.ArraySort(INTS, INTS)
    f, g, f2, g2 = [z3.Const(x, A) for x in ("f", "g", "f2", "g2")]
    n, L, L2, s = z3.Ints("n L L2 s")
    inj = lambda f, g, L, n: forall(0, L, lambda s: And(f[s] >= 0, f[s] < n, g[f[s]] == s))
    P = lambda f, g, L, n: Imp(And(n >= 0, inj(f, g, L, n)), L <= n)
    star = g[n]
    hit = And(star >= 0, star < L, f[star] == n)
    fs = z3.Store(f, star, f[L - 1])
    gs = z3.Store(g, f[L - 1], star)
    return [("base", [inj(f, g, L, I(0))], L <= 0),
            ("step, n not hit", [n >= 0, Not(hit), inj(f, g, L, n + 1), P(f, g, L, n)], L <= n + 1),
            ("step, n hit", [n >= 0, hit, inj(f, g, L, n + 1), P(fs, gs, L - 1, n)], L <= n + 1)]


def free_slot(Va, ga, sa, L, n, gidof=None):
    """pigeonhole instance: if every live slot has its own id in [0,n) and n < L, then slot FREE is not live"""
    f = FREE(Va, ga, sa, L, n)
    s = z3.Int(fresh_name("s"))
    prem = z3.ForAll([s], Imp(And(0 <= s, s < L, z3.Select(Va, s) != NONE),
                              And(z3.Select(ga, s) >= 0, z3.Select(ga, s) < n, z3.Select(sa, z3.Select(ga, s)) == s)))
    return f, Imp(And(prem, n < L, n >= 0), And(f >= 0, f < L, z3.Select(Va, f) == NONE))


def inpath(h, t, s):
    """t lies on the cyclic probe path from h up to (excluding) s"""
    return z3.If(h <= s, And(h <= t, t < s), Or(t >= h, t < s))


def home(h, L):
    return bitop("and", 64, h, L - 1)


def home_axiom(L):
    h = z3.Int("ax_h")
    return z3.ForAll([h], And(home(h, L) >= 0, home(h, L) <= L - 1), patterns=[home(h, L)])


def all1(lo, hi, f, pat=None):
    i = z3.Int(fresh_name("s"))
    body = Imp(And(lo <= i, i < hi), f(i))
    return z3.ForAll([i], body, patterns=pat(i)) if pat and okpat(pat(i)) else z3.ForAll([i], body)


def okpat(ps):
    for p in ps:
        st = [p]
        while st:
            x = st.pop()
            if z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT)):
                return False
            st += x.children()
    return True


def all2(lo, hi, f, pat=None):
    i, j = z3.Int(fresh_name("s")), z3.Int(fresh_name("t"))
    body = Imp(And(lo <= i, i < hi, lo <= j, j < hi), f(i, j))
    return z3.ForAll([i, j], body, patterns=pat(i, j)) if pat and okpat(pat(i, j)) else z3.ForAll([i, j], body)


class Table:
    """the slots of one entries block"""
    def __init__(self, c, st, r, L, isset):
        self.c, self.st, self.r, self.L, self.isset = c, st, r, L, isset
        ex = c.ex
        g = builtins_c.getfield
        self.H = g(ex, r, 0, 8, "int")[2]
        self.V = g(ex, r, 8, 8, "int")[2]
        self.KI = g(ex, r, 16, 8, "int")[2]
        self.KL = g(ex, r, 24, 4, "int")[2]
        self.G = g(ex, r, "gid", 8, "int")[2] if isset else self.V
        if "slot" not in r.ghost:
            r.ghost["slot"] = Base("slot")
        self.S = r.ghost["slot"]

    def live(self, s):
        return self.V.get(s) != NONE

    def wf(self, n, head, buf):
        """table invariant (n ids in use, keys below head in buf)"""
        L = self.L
        H, KI, KL, G, S = self.H, self.KI, self.KL, self.G, self.S
        vp = lambda s: [self.V.get(s), self.KI.get(s)]
        return [
            ("table: live slots carry their own id", all1(0, L, lambda s: Imp(self.live(s), And(G.get(s) >= 0, G.get(s) < n, S.get(G.get(s)) == s)), vp)),
            ("table: every id has its slot", all1(0, n, lambda v: And(S.get(v) >= 0, S.get(v) < L, self.live(S.get(v)), G.get(S.get(v)) == v), lambda v: [S.get(v)])),
            ("table: keys lie in the used part of the key buffer", all1(0, L, lambda s: Imp(self.live(s), And(KI.get(s) >= 0, KL.get(s) >= 0, KI.get(s) + KL.get(s) <= head)), vp)),
            ("table: stored hash is the hash of the stored key", all1(0, L, lambda s: Imp(self.live(s), H.get(s) == Hb(buf, KI.get(s), KL.get(s))), vp)),
            ("table: probe paths have no holes", all2(0, L, lambda s, t: Imp(And(self.live(s), inpath(home(H.get(s), L), t, s)), self.live(t)),
                                                      lambda s, t: [z3.MultiPattern(self.V.get(s), self.V.get(t))])),
            ("table: keys are distinct", all2(0, L, lambda s, t: Imp(And(self.live(s), self.live(t), s != t),
                                                                     Not(SEQEQ(buf, KI.get(s), KL.get(s), buf, KI.get(t), KL.get(t)))),
                                              lambda s, t: [z3.MultiPattern(self.V.get(s), self.V.get(t))])),
        ]


class HM:
    def __init__(self, c, st, p, isset):
        self.c, self.st, self.p, self.isset = c, st, p, isset
        g = lambda m: c.get(st, p, "hashmap", m)
        self.entries = g("_entries")
        self.L = c.ex.U(st, g("_limit"))
        self.keybuf = g("_keybuf")
        self.head = c.ex.U(st, g("_keybuf_head"))
        self.buflen = c.ex.U(st, g("_keybuf_len"))
        self.fn = g("get_hash__")
        v = g("values")
        if isset:
            if isinstance(v, PV):
                v = c.ex.ptr2int(st, v)
            self.n = c.ex.U(st, v)
            self.vals = None
        else:
            self.vals = V.Vec(c, st, v)
            self.n = self.vals.size
            self.vp = v
        self.t = Table(c, st, st.regions[self.entries.rid], self.L, isset) if isinstance(self.entries, PV) and self.entries.rid in st.regions else None
        self.br = st.regions.get(self.keybuf.rid) if isinstance(self.keybuf, PV) else None
        self.bufA = builtins_c.getfield(c.ex, self.br, 0, 1, "int")[2] if self.br is not None else None

    def buf(self):
        hy = []
        a = self.bufA.z3(hy)
        for h in hy:
            if not any(h is x for x in self.st.hyps):
                self.st.hyps.append(h)
        return a

    def mem(self):
        """shape of the memory"""
        if self.t is None or self.br is None:
            return [("entry table and key buffer are blocks", z3.BoolVal(False))]
        tr = self.t.r
        return [("entry table is a live block of `limit` entries", And(z3.BoolVal(bool(tr.alive and tr.heap and self.entries.off.const() == 0)), tr.count == self.L)),
                ("key buffer is a live block of its recorded length", And(z3.BoolVal(bool(self.br.alive and self.br.heap and self.keybuf.off.const() == 0)), self.br.count == self.buflen)),
                ("limit >= 1", self.L >= 1), ("buffer not empty", self.buflen >= 1), ("used part of the buffer", And(self.head >= 0, self.head <= self.buflen)), ("limit fits the address space", self.L <= 2 ** 42)]

    def wf(self, full=False):
        r = self.mem()
        if self.t is None or self.br is None:
            return r
        r += self.t.wf(self.n, self.head, self.buf())
        r.append(("free slot left", self.n <= self.L if full else self.n < self.L))
        if not self.isset:
            r += self.vals.ok("values: ")
        return r

    # abstract key of id v
    def kidx(self, v):
        return self.t.KI.get(self.t.S.get(v))

    def klen(self, v):
        return self.t.KL.get(self.t.S.get(v))

    def keyis(self, v, arr, o, n):
        """id v's key is the byte sequence arr[o..o+n)"""
        return SEQEQ(self.buf(), self.kidx(v), self.klen(v), arr, o, n)


def mk_hook(p, isset, c0):
    def hook(ex, st, r, c, k, e):
        if "slot" not in r.ghost:
            r.ghost["slot"] = Base("slot")
        if c == 8:
            if isset:
                o, _ = c0.fo("hashmap", "values")
                v = st.regions[p.rid].cells[o][1]
                n = ex.U(st, v if isinstance(v, IV) else ex.ptr2int(st, v))
                f = r.fields["gid"]
                r.fields["gid"] = (f[0], f[1], St(f[2], k, n))
                r.ghost["slot"] = St(r.ghost["slot"], n, k)
            else:
                r.ghost["slot"] = St(r.ghost["slot"], e, k)
        elif c == "gid":
            r.ghost["slot"] = St(r.ghost["slot"], e, k)
    return hook


def dress(r, p, isset, c):
    """give an entries block its fields and ghost state"""
    g = builtins_c.getfield
    for o, n in ((0, 8), (8, 8), (16, 8), (24, 4)) + ((("gid", 8),) if isset else ()):
        g(c.ex, r, o, n, "int")
    r.ghost["slot"] = Base("slot")
    r.hooks = mk_hook(p, isset, c)


def mk_map(c, st, isset, mode, comp=False, empty=False, elem=None):
    ex = c.ex
    m = ex.new_region(st, "cell", "map", size=ex.prog.sizeof("hashmap"))
    p = PV(m.rid)
    L, bl, hd = fint("limit"), fint("buflen"), fint("head")
    st.assume(And(L >= 1, L <= 2 ** 42, bl >= 1, bl <= 2 ** 47, hd >= 0, hd <= bl))
    er = ex.new_region(st, "arr", "entries", stride=ex.prog.sizeof("hm_entry"), count=L, heap=True)
    br = ex.new_region(st, "arr", "keybuf", stride=1, count=bl, heap=True)
    br.fields[0] = (1, "int", Base("keybuf"))
    dress(er, p, isset, c)
    if isset:
        n = fint("n")
        st.assume(n >= 0)
        v = IV(64, n, u=True)
    else:
        v, S = V.mk_vec(c, st, "vals", S=elem, heap=True)
        c.aux["S"] = S
    for nm, x in (("values", v), ("_entries", PV(er.rid)), ("_keys", NULL), ("_key_temp", NULL), ("get_hash__", FnP(contract="hash_fn", data=mode)),
                  ("_limit", IV(64, L, u=True)), ("_keybuf", PV(br.rid)), ("_keybuf_head", IV(64, hd, u=True)), ("_keybuf_len", IV(64, bl, u=True))):
        o, sz = c.fo("hashmap", nm)
        m.cells[o] = (sz, x)
    st.assume(home_axiom(L))
    st.assume(*axioms_seq())
    st.assume(*axioms_hash())
    st.assume(*axioms_canon())
    return p


def mk_key(c, st, name="key"):
    """a read-only byte buffer and a length that fits it"""
    n, cnt = fint(name + "_n"), fint(name + "_cap")
    st.assume(And(n >= 0, n < 2 ** 32, cnt >= n, cnt <= 2 ** 47))
    r = c.ex.new_region(st, "arr", name, stride=1, count=cnt, ro=True)
    r.fields[0] = (1, "int", Base(name))
    i = z3.Int(fresh_name("i"))
    b = r.fields[0][2]
    st.assume(z3.ForAll([i], And(b.get(i) >= 0, b.get(i) < 256), patterns=[b.get(i)]))
    return PV(r.rid), IV(32, n, u=True)


def keyarr(c, st, p):
    r = st.regions[p.rid]
    k, _ = c.ex.resolve(st, r, p.off)
    return builtins_c.getfield(c.ex, r, 0, 1, "int")[2], k, r


def trimmed(mode, a, k, n, t):
    """t is the compared length of key a[k..k+n)"""
    if "rtrim" not in mode:
        return t == n
    return And(t >= 0, t <= n, Or(t == 0, a.get(k + t - 1) != 32), forall(k + t, k + n, lambda j: a.get(j) == 32))


TRIM = uf("trimlen", IA, INTS, INTS, INTS)


def trimlen(mode, a, k, n):
    """compared length of key a[k..k+n): trim_def is its definition (the t that `trimmed` describes is unique)"""
    return TRIM(a.a, k, n) if "rtrim" in mode else n


def trim_def(mode, a, k, n):
    return trimmed(mode, a, k, n, trimlen(mode, a, k, n))


# ------------------------------------------------------------------ hash functions
class HashFn(Contract):
    """writes the canonical key behind the stored keys, sets *n to the compared length, returns its hash"""
    props = ("C01", "C02", "C03", "C04", "C05")
    lemmas = ("hash_depends_on_bytes_only", "pigeonhole")
    mode = None

    def bind(self, mode):
        x = HashFn()
        x.name, x.mode = "hash_fn", mode
        return x

    def setup(self, c, st):
        p = mk_map(c, st, True, self.mode)
        k, n = mk_key(c, st)
        nr = c.ex.new_region(st, "cell", "len", size=4)
        nr.cells[0] = (4, n)
        return [p, k, PV(nr.rid)]

    def vals(self, c, st):
        m = st.regions[c.args[0].rid]
        g = lambda f: c.get(st, c.args[0], "hashmap", f)
        kb = g("_keybuf")
        br = st.regions[kb.rid]
        return c.ex.U(st, g("_keybuf_head")), br, builtins_c.getfield(c.ex, br, 0, 1, "int")[2]

    def nlen(self, c, st):
        return c.ex.U(st, c.ex.load(st, c.args[2], "i32", c.ex.prog.mods[0]))

    def pre(self, c):
        hd, br, _ = self.vals(c, c.old)
        n = self.nlen(c, c.old)
        a, k, r = keyarr(c, c.old, c.args[1])
        return [("room in the key buffer", And(hd >= 0, hd + n <= br.count)), ("key readable", Or(n == 0, And(k >= 0, k + n <= r.count)))]

    def assume_only(self, c):
        a, k, r = keyarr(c, c.old, c.args[1])
        return [trim_def(self.mode, a, k, self.nlen(c, c.old))]

    def effect(self, c):
        st = c.new
        _, br, _ = self.vals(c, st)
        br.fields[0] = (1, "int", Base("keybuf"))
        n = c.ex.fresh_iv(st, 32, "klen")
        r = st.regions[c.args[2].rid]
        c.ex.store_cell(st, r, c.args[2].off.c, 4, n)
        return c.ex.fresh_iv(st, 64, "hash")

    def post(self, c):
        hd, br, A = self.vals(c, c.old)
        _, _, B = self.vals(c, c.new)
        a, k, r = keyarr(c, c.old, c.args[1])
        n, t = self.nlen(c, c.old), self.nlen(c, c.new)
        hy = []
        Bz, Az = B.z3(hy), A.z3(hy)
        c.new.hyps += [h for h in hy if not any(h is x for x in c.new.hyps)]
        return [("compared length", trimmed(self.mode, a, k, n, t)), ("compared length is that of the key", t == trimlen(self.mode, a, k, n)),
                ("canonical key bytes written", forall(hd, hd + n, lambda j: B.get(j) == canon(self.mode, a.get(j - hd + k)))),
                ("canonical key bytes written (from the key's side)", forall(k, k + n, lambda j: B.get(j - k + hd) == canon(self.mode, a.get(j)))),
                ("key is the canonical key", SEQEQ(Bz, hd, t, canonarr(self.mode, a.a), k, t)),
                ("stored keys kept", forall(0, hd, lambda j: B.get(j) == A.get(j))),
                ("hash is a function of the canonical key", c.ex.U(c.new, c.ret) == Hb(Bz, hd, t))] + stable_keys(Az, Bz, hd)

    @property
    def loops(self):
        def inv(lp):
            c = Ctx(lp.ex, self, lp.root.old, lp.st, lp.args, "loop")
            hd, br, A = self.vals(c, c.old)
            _, _, B = self.vals(c, c.new)
            a, k, r = keyarr(c, c.old, c.args[1])
            K = lp.K
            C = canonarr(self.mode, a.a)
            for f in hb_unfold(C, k, K) + hb_unfold(C, k, K - 1):
                lp.lemma(f)      # the definition of Hb at two points
            out = [("bytes written so far", forall(hd, hd + K, lambda j: B.get(j) == canon(self.mode, a.get(j - hd + k)))),
                   ("stored keys kept", forall(0, hd, lambda j: B.get(j) == A.get(j))),
                   ("running hash", lp.ex.U(lp.st, pick(lp, "hash", 64, 0)) == Hb(C, k, K))]
            if "rtrim" in self.mode:
                t = lp.ex.U(lp.st, pick(lp, "last_not_space_n", 32, 0))
                lh = lp.ex.U(lp.st, pick(lp, "last_not_space_hash", 64, 1))
                out += [("trimmed length", And(t >= 0, t <= K, Or(t == 0, a.get(k + t - 1) != 32))),
                        ("only blanks after it", forall(k + t, k + K, lambda j: a.get(j) == 32)),
                        ("hash up to it", lh == Hb(C, k, t))]
            return out
        return [inv]


def pick(lp, name, bits, i):
    """the loop-carried integer called `name` (or, should it have been renamed, the i-th of its width)"""
    if lp.has(name):
        return lp.val(name)
    xs = lp.ints(bits)
    if i >= len(xs):
        raise Unsupported("no loop-carried %s" % name)
    return xs[i]


for _m in MODES:
    _x = HashFn()
    _x.mode = _m
    _x.name = {"exact": "_hash", "nocase": "_hash_nocase", "rtrim": "_hash_rtrim", "nocase_rtrim": "_hash_nocase_rtrim"}[_m]
    REG[_x.name] = _x
    ORDER.append(_x.name)
REG["hash_fn"] = HashFn()
REG["hash_fn"].name, REG["hash_fn"].props, REG["hash_fn"].spec_only = "hash_fn", (), True
REG["hash_fn"].implemented_by = ("_hash", "_hash_nocase", "_hash_rtrim", "_hash_nocase_rtrim")


def stable_keys(Az, Bz, hd):
    """keys below hd mean the same in both buffers"""
    o, n, p, m = z3.Ints("st_o st_n st_p st_m")
    b = z3.Const("st_b", IA)
    dom = And(o >= 0, n >= 0, o + n <= hd)
    E1, E0 = SEQEQ(Bz, o, n, b, p, m), SEQEQ(Az, o, n, b, p, m)
    F1, F0 = SEQEQ(Bz, o, n, Bz, p, m), SEQEQ(Az, o, n, Az, p, m)
    return [("stored keys compare as before", z3.ForAll([o, n, b, p, m], Imp(dom, E1 == E0), patterns=[E1, E0])),
            ("stored keys compare with each other as before", z3.ForAll([o, n, p, m], Imp(And(dom, p >= 0, m >= 0, p + m <= hd), F1 == F0), patterns=[F1, F0])),
            ("stored keys keep their hash", z3.ForAll([o, n], Imp(dom, And(SEQEQ(Bz, o, n, Az, o, n), Hb(Bz, o, n) == Hb(Az, o, n))), patterns=[Hb(Bz, o, n), Hb(Az, o, n)]))]


# ------------------------------------------------------------------ lookup
def mode_of(f):
    if isinstance(f, FnP):
        if f.data in MODES:
            return f.data
        m = {"_hash": "exact", "_hash_nocase": "nocase", "_hash_rtrim": "rtrim", "_hash_nocase_rtrim": "nocase_rtrim"}.get(f.name)
        if m:
            return m
    raise Unsupported("map without a known hash function")


def replace_keybuf(c, st, p):
    """effect: the key buffer is replaced by a block of unknown contents and capacity"""
    b = c.get(st, p, "hashmap", "_keybuf")
    r = st.regions[b.rid]
    r2 = r.copy()
    r2.rid = fresh_name(r.name)
    r2.count = fint("buflen")
    r2.fields = {0: (1, "int", Base("keybuf"))}
    st.regions[r2.rid] = r2
    st.assume(And(r2.count >= 1, r2.count <= 2 ** 47))
    r.alive = False
    c.set(st, p, "hashmap", "_keybuf", PV(r2.rid))
    c.set(st, p, "hashmap", "_keybuf_len", IV(64, r2.count, u=True))
    return r2


def istable(c, st, p):
    """is it a set (its counter lives where a map keeps its value vector)"""
    v = c.get(st, p, "hashmap", "values")
    return not isinstance(v, PV) or v.rid is None


def slot_index(c, st, m, e):
    """index of the entry a pointer points at"""
    if not isinstance(e, PV) or e.rid != m.t.r.rid:
        raise Unsupported("not a pointer into the entry table")
    k, o = c.ex.resolve(st, m.t.r, e.off)
    if o != 0:
        raise Unsupported("not the start of an entry")
    return k


def dead_buf(st, rid, keep):
    pass


MAPCASES = [("%s %s" % (t, m), {"isset": t == "set", "mode": m}) for t in ("set", "map") for m in MODES]


def probed(c, lp, m):
    """slot the probe loop looks at: from its entry pointer or its index (or both)"""
    ps = lp.ptrs(m.t.r.rid)
    if len(ps) > 1:
        raise Unsupported("the probe loop carries several entry pointers")
    if not ps:
        e = lp.ex.U(lp.st, pick(lp, "idx", 64, 0))
        return e, e
    e = slot_index(c, lp.st, m, ps[0])
    return e, lp.ex.U(lp.st, pick(lp, "idx", 64, 0)) if lp.ints() else e


@contract
class _get_entry(Contract):
    """the entry holding the key, or the free entry where it belongs"""
    name = "_get_entry"
    props = ("C01", "C02", "C03", "C04")
    cases = MAPCASES
    lemmas = ("hash_depends_on_bytes_only", "pigeonhole")

    def setup(self, c, st):
        p = mk_map(c, st, c.case["isset"], c.case["mode"])
        k, n = mk_key(c, st)
        nr = c.ex.new_region(st, "cell", "len", size=4)
        nr.cells[0] = (4, n)
        hr = c.ex.new_region(st, "cell", "hash", size=8)
        return [p, k, PV(nr.rid), PV(hr.rid)]

    def nlen(self, c, st):
        return c.ex.U(st, c.ex.load(st, c.args[2], "i32", c.ex.prog.mods[0]))

    def hm(self, c, st):
        return HM(c, st, c.args[0], istable(c, st, c.args[0]))

    def pre(self, c):
        m = self.hm(c, c.old)
        a, k, r = keyarr(c, c.old, c.args[1])
        n = self.nlen(c, c.old)
        return m.wf() + [("key readable", Or(n == 0, And(k >= 0, k + n <= r.count)))]

    def effect(self, c):
        st = c.new
        m = self.hm(c, c.old)
        replace_keybuf(c, st, c.args[0])
        n = c.ex.fresh_iv(st, 32, "klen")
        r = st.regions[c.args[2].rid]
        c.ex.store_cell(st, r, c.args[2].off.c, 4, n)
        h = c.ex.fresh_iv(st, 64, "hash")
        r = st.regions[c.args[3].rid]
        c.ex.store_cell(st, r, c.args[3].off.c, 8, h)
        e = fint("entry")
        return PV(m.t.r.rid, Off(0, {m.t.r.stride: e}))

    def post(self, c):
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        mode = mode_of(o.fn)
        a, k, r = keyarr(c, c.old, c.args[1])
        n, t = self.nlen(c, c.old), self.nlen(c, c.new)
        hash_ = c.ex.U(c.new, c.ex.load(c.new, c.args[3], "i64", c.ex.prog.mods[0]))
        e = slot_index(c, c.new, m, c.ret)
        T, B, hd = m.t, m.buf(), m.head
        h = home(hash_, m.L)
        vp = lambda s: [T.V.get(s), T.KI.get(s)]
        return [x for x in m.wf() if not x[0].startswith("values")] + [
            ("compared length", t == trimlen(mode, a, k, n)),
            ("compared length fits", And(t >= 0, t <= n)),
            ("room for the key", hd + n <= m.buflen),
            ("canonical key at the head of the buffer", SEQEQ(B, hd, t, canonarr(mode, a.a), k, t)),
            ("hash of the canonical key", hash_ == Hb(B, hd, t)),
            ("an entry of the table", And(e >= 0, e < m.L)),
            ("entry in use holds this key", Imp(T.live(e), SEQEQ(B, T.KI.get(e), T.KL.get(e), B, hd, t))),
            ("entry free only if no entry holds the key", Imp(Not(T.live(e)), all1(0, m.L, lambda s: Imp(T.live(s), Not(SEQEQ(B, T.KI.get(s), T.KL.get(s), B, hd, t))), vp))),
            ("free entry is where a lookup ends", Imp(Not(T.live(e)), all1(0, m.L, lambda s: Imp(inpath(h, s, e), T.live(s)), vp))),
        ] + stable_keys(o.buf(), B, hd)

    @property
    def loops(self):
        return [self.grow, self.probe]

    def lv(self, lp):
        return Ctx(lp.ex, self, lp.root.old, lp.st, lp.args, "loop")

    def grow(self, lp):
        c = self.lv(lp)
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        A, B = o.bufA, m.bufA
        return [x for x in m.mem() if "entry" not in x[0]] + [
            ("buffer only grows", m.buflen >= o.buflen),
            ("stored keys kept", forall(0, o.head, lambda j: B.get(j) == A.get(j))),
            ("variant", 2 ** 48 - m.buflen)] + stable_keys(o.buf(), m.buf(), o.head)

    def probe(self, lp):
        c = self.lv(lp)
        m = self.hm(c, c.new)
        T, B, hd = m.t, m.buf(), m.head
        e, idx = probed(c, lp, m)
        hash_ = lp.ex.U(lp.st, lp.ex.load(lp.st, c.args[3], "i64", lp.ex.prog.mods[0]))
        t = self.nlen(c, lp.st)
        h = home(hash_, m.L)
        f, fl = free_slot(T.V.a, T.G.a, T.S.a, m.L, m.n)
        lp.lemma(fl)
        q = z3.If(e == 0, m.L - 1, e - 1)
        vp = lambda s: [T.V.get(s), T.KI.get(s)]
        return [("index is the entry's", And(idx == e, e >= 0, e < m.L)),
                ("the entry just passed holds another key", Or(lp.K == 0, Not(SEQEQ(B, T.KI.get(q), T.KL.get(q), B, hd, t)))),
                ("entries passed are in use", all1(0, m.L, lambda s: Imp(inpath(h, s, e), T.live(s)), vp)),
                ("entries passed hold other keys", all1(0, m.L, lambda s: Imp(inpath(h, s, e), Not(SEQEQ(B, T.KI.get(s), T.KL.get(s), B, hd, t))), vp)),
                ("variant", z3.If(e <= f, f - e, f - e + m.L))]


# ------------------------------------------------------------------ growth
@contract
class _next_power_of_2(Contract):
    name = "_next_power_of_2"
    props = ("C01", "C03", "C04", "C05")

    def setup(self, c, st):
        return [c.ex.fresh_iv(st, 64, "n")]

    def pre(self, c):
        return [("argument at most 2^62", c.ex.U(c.old, c.args[0]) <= 2 ** 62)]

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 64, "pow")

    def post(self, c):
        n, r = c.ex.U(c.old, c.args[0]), c.ex.U(c.new, c.ret)
        return [("at least n", r >= n), ("at least one", r >= 1), ("below twice n", Or(r == 1, r < 2 * n))]

    @property
    def loops(self):
        def inv(lp):
            n = lp.ex.U(lp.old, lp.args[0])
            v = lp.ex.U(lp.st, pick(lp, "value", 64, 0))
            return [("positive", v >= 1), ("below twice n", Or(v == 1, v < 2 * n)), ("variant", 2 ** 64 - v)]
        return [inv]


def entry_hook(c):
    """give freshly allocated entry tables their ghost state"""
    p = c.args[0]
    isset = istable(c, c.old, p)

    def f(ex, st, r):
        if r.stride == ex.prog.sizeof("hm_entry"):
            dress(r, p, isset, c)
    return f


@contract
class _increase_size(Contract):
    """moves all entries to a larger table; the keys and ids are unchanged"""
    name = "_increase_size"
    props = ("C01", "C03", "C04", "C05")
    cases = [("set", {"isset": True, "mode": "exact"}), ("map", {"isset": False, "mode": "exact"})]
    lemmas = ("pigeonhole",)

    def alloc_hook(self, c):
        return entry_hook(c)

    def setup(self, c, st):
        return [mk_map(c, st, c.case["isset"], c.case["mode"])]

    def hm(self, c, st):
        return HM(c, st, c.args[0], istable(c, st, c.args[0]))

    def pre(self, c):
        m = self.hm(c, c.old)
        return [x for x in m.wf(full=True) if not x[0].startswith("values")]

    def effect(self, c):
        st, p = c.new, c.args[0]
        m = self.hm(c, st)
        r = m.t.r
        r2 = c.ex.new_region(st, "arr", "entries", stride=r.stride, count=fint("limit"), heap=True)
        dress(r2, p, m.isset, c)
        r.alive = False
        st.assume(And(r2.count >= 1, r2.count <= 2 ** 42))
        c.set(st, p, "hashmap", "_entries", PV(r2.rid))
        c.set(st, p, "hashmap", "_limit", IV(64, r2.count, u=True))
        st.assume(home_axiom(r2.count))

    def post(self, c):
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        return [x for x in m.wf() if not x[0].startswith("values")] + [
            ("more room", m.L > o.L),
            ("every id keeps its key", all1(0, o.n, lambda v: And(m.kidx(v) == o.kidx(v), m.klen(v) == o.klen(v)), lambda v: [m.t.S.get(v), o.t.S.get(v)]))]

    @property
    def loops(self):
        return [self.copy, self.probe]

    def lv(self, lp):
        return Ctx(lp.ex, self, lp.root.old, lp.st, lp.args, "loop")

    def copy(self, lp):
        c = self.lv(lp)
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        O, T, L, n = o.t, m.t, m.L, o.n
        i = lp.K
        lp.lemma(home_axiom(L))
        vp = lambda s: [T.V.get(s), T.KI.get(s)]
        return [
            ("entries placed so far carry moved ids", all1(0, L, lambda s: Imp(T.live(s), And(T.G.get(s) >= 0, T.G.get(s) < n, O.S.get(T.G.get(s)) < i, T.S.get(T.G.get(s)) == s)), vp)),
            ("every id moved so far has its slot", all1(0, n, lambda v: Imp(O.S.get(v) < i, And(T.S.get(v) >= 0, T.S.get(v) < L, T.live(T.S.get(v)), T.G.get(T.S.get(v)) == v)), lambda v: [T.S.get(v), O.S.get(v)])),
            ("moved entries are copies", all1(0, n, lambda v: Imp(O.S.get(v) < i, And(T.KI.get(T.S.get(v)) == O.KI.get(O.S.get(v)), T.KL.get(T.S.get(v)) == O.KL.get(O.S.get(v)), T.H.get(T.S.get(v)) == O.H.get(O.S.get(v)))), lambda v: [T.S.get(v), O.S.get(v)])),
            ("probe paths have no holes", all2(0, L, lambda s, t: Imp(And(T.live(s), inpath(home(T.H.get(s), L), t, s)), T.live(t)), lambda s, t: [z3.MultiPattern(T.V.get(s), T.V.get(t))])),
            ("variant", o.L - i),
        ]

    def probe(self, lp):
        c = self.lv(lp)
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        T = m.t
        e, idx = probed(c, lp, m)
        i = lp.outer(0).K
        h = home(o.t.H.get(i), m.L)
        f, fl = free_slot(T.V.z3(lp.st.hyps), T.G.z3(lp.st.hyps), T.S.z3(lp.st.hyps), m.L, m.n)
        lp.lemma(fl)
        vp = lambda s: [T.V.get(s), T.KI.get(s)]
        return [("index is the entry's", And(idx == e, e >= 0, e < m.L)),
                ("entries passed are in use", all1(0, m.L, lambda s: Imp(inpath(h, s, e), T.live(s)), vp)),
                ("variant", z3.If(e <= f, f - e, f - e + m.L))]


# ------------------------------------------------------------------ the map and set operations
def replace_entries(c, st, p):
    m = HM(c, st, p, istable(c, st, p))
    r = m.t.r
    for o, f in list(r.fields.items()):
        r.fields[o] = (f[0], f[1], Base(r.name + "_n"))
    r.ghost["slot"] = Base("slot")
    r2 = c.ex.new_region(st, "arr", "entries", stride=r.stride, count=fint("limit"), heap=True)
    dress(r2, p, m.isset, c)
    r.alive = False
    st.assume(And(r2.count >= 1, r2.count <= 2 ** 42))
    c.set(st, p, "hashmap", "_entries", PV(r2.rid))
    c.set(st, p, "hashmap", "_limit", IV(64, r2.count, u=True))
    st.assume(home_axiom(r2.count))


class MapOp(Contract):
    """an operation on (map, key, ..., length)"""
    isset = False
    props = ("C01",)
    nkey = 3                 # index of the length argument
    changes = True
    lemmas = ("hash_depends_on_bytes_only", "pigeonhole")
    cases = [(m, {"mode": m}) for m in MODES]

    def alloc_hook(self, c):
        return entry_hook(c)

    def setup(self, c, st):
        p = mk_map(c, st, self.isset, c.case["mode"])
        k, n = mk_key(c, st)
        return self.order(p, k, n, c, st)

    def order(self, p, k, n, c, st):
        return [p, k, n]

    def hm(self, c, st):
        return HM(c, st, c.args[0], self.isset)

    def key(self, c):
        """(compared bytes, start, compared length) of the key argument"""
        a, k, r = keyarr(c, c.old, c.args[1])
        mode = mode_of(c.get(c.old, c.args[0], "hashmap", "get_hash__"))
        n = c.ex.U(c.old, c.args[self.nkey])
        return canonarr(mode, a.a), k, trimlen(mode, a, k, n)

    def pre(self, c):
        m = self.hm(c, c.old)
        a, k, r = keyarr(c, c.old, c.args[1])
        n = c.ex.U(c.old, c.args[self.nkey])
        return m.wf() + [("key readable", Or(n == 0, And(k >= 0, k + n <= r.count)))]

    def assume_only(self, c):
        a, k, r = keyarr(c, c.old, c.args[1])
        return [trim_def(mode_of(c.get(c.old, c.args[0], "hashmap", "get_hash__")), a, k, c.ex.U(c.old, c.args[self.nkey]))]

    def effect(self, c):
        st, p = c.new, c.args[0]
        replace_keybuf(c, st, p)
        if self.changes:
            replace_entries(c, st, p)
            c.havoc_int(st, p, "hashmap", "_keybuf_head")
            if self.isset:
                c.havoc_int(st, p, "hashmap", "values")
            else:
                v = c.get(st, p, "hashmap", "values")
                V.havoc_contents(c, st, v)
                V.replace_data(c, st, v)
                c.havoc_int(st, v, "vec", "_alloc")
                c.havoc_int(st, v, "vec", "size")
        return self.ret(c)

    def ret(self, c):
        return None

    def same_keys(self, o, m):
        """every old id has the same key bytes"""
        A, B = o.buf(), m.buf()
        return ("every stored key is kept", all1(0, o.n, lambda v: And(o.kidx(v) == m.kidx(v), o.klen(v) == m.klen(v), SEQEQ(B, m.kidx(v), m.klen(v), A, o.kidx(v), o.klen(v))),
                                                 lambda v: [o.t.S.get(v), m.t.S.get(v)]))

    def has(self, m, key):
        return lambda v: SEQEQ(m.buf(), m.kidx(v), m.klen(v), *key)


def nohit(o, has):
    return all1(0, o.n, lambda v: Not(has(v)), lambda v: [o.t.S.get(v)])


class Adds(MapOp):
    def added(self, c, o, m):
        key = self.key(c)
        oh = self.has(o, key)
        return [self.same_keys(o, m),
                ("at most one entry is added", Or(m.n == o.n, m.n == o.n + 1)),
                ("an entry is added only if the key was absent", Imp(m.n == o.n + 1, And(nohit(o, oh), self.has(m, key)(o.n)))),
                ("no entry is added only if the key was present", Imp(m.n == o.n, Not(nohit(o, oh))))]


@contract
class set_nadd(Adds):
    name = "set_nadd"
    isset = True
    nkey = 2
    props = ("C03",)

    def post(self, c):
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        return m.wf() + self.added(c, o, m)


@contract
class set_nhas(MapOp):
    name = "set_nhas"
    isset = True
    nkey = 2
    changes = False
    props = ("C03",)

    def ret(self, c):
        return c.ex.fresh_bool_ret(c) if hasattr(c.ex, "fresh_bool_ret") else z3.Bool(fresh_name("has"))

    def post(self, c):
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        oh = self.has(o, self.key(c))
        r = truth(c, c.ret)
        return m.wf() + [self.same_keys(o, m), ("same number of entries", m.n == o.n),
                         ("false only if no stored key equals the key", Imp(Not(r), nohit(o, oh))),
                         ("true only if a stored key equals the key", Imp(r, Not(nohit(o, oh))))]


def truth(c, v):
    return v if isinstance(v, z3.BoolRef) else c.ex.U(c.new, v) != 0


@contract
class hashmap_nset(Adds):
    name = "hashmap_nset"
    props = ("C01",)

    def order(self, p, k, n, c, st):
        S = c.aux["S"]
        d = V.mk_arr(c, st, "data", S, fint("data_n"), ro=True)
        st.assume(d.count >= 1)
        return [p, k, PV(d.rid), n]

    def pre(self, c):
        m = self.hm(c, c.old)
        b = V.Buf(c, c.old, c.args[2])
        return MapOp.pre(self, c) + [("data is one element", And(b.k >= 0, b.k < b.r.count) if not b.cell else z3.BoolVal(True))]

    def post(self, c):
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        key = self.key(c)
        oh, mh = self.has(o, key), self.has(m, key)
        d = V.Buf(c, c.old, c.args[2])
        return m.wf() + self.added(c, o, m) + [
            ("the key's value is the data", all1(0, m.n, lambda v: Imp(mh(v), V.eqel(m.vals, v, d, 0)), lambda v: [m.t.S.get(v)])),
            ("other keys keep their values", all1(0, o.n, lambda v: Imp(Not(oh(v)), V.eqel(m.vals, v, o.vals, v)), lambda v: [o.t.S.get(v), m.t.S.get(v)]))]


@contract
class hashmap_nget(MapOp):
    name = "hashmap_nget"
    nkey = 2
    changes = False
    props = ("C01", "C04")

    def effect(self, c):
        MapOp.effect(self, c)
        o = self.hm(c, c.old)
        s2 = c.new.copy()
        i = fint("at")
        return [(c.new, NULL), (s2, PV(o.vals.data.rid, Off(0, {o.vals.r.stride: i})))]

    def post(self, c):
        o, m = self.hm(c, c.old), self.hm(c, c.new)
        oh = self.has(o, self.key(c))
        r = m.wf() + [self.same_keys(o, m), ("same number of entries", m.n == o.n)]
        if isinstance(c.ret, PV) and c.ret.rid is None:
            return r + [("NULL only if no stored key equals the key", nohit(o, oh))]
        i = V.posidx(c, c.new, m.vals, c.ret)
        if i is None:
            return r + [("returns NULL or a stored value", z3.BoolVal(False))]
        return r + [("the value returned belongs to the key", And(i >= 0, i < o.n, oh(i)))]


class Clear(Contract):
    isset = False
    props = ("C01",)
    cases = [("", {"mode": "exact"})]

    def setup(self, c, st):
        return [mk_map(c, st, self.isset, c.case["mode"])]

    def hm(self, c, st):
        return HM(c, st, c.args[0], self.isset)

    def pre(self, c):
        return self.hm(c, c.old).wf()

    def effect(self, c):
        st, p = c.new, c.args[0]
        m = self.hm(c, st)
        r = m.t.r
        for o, f in list(r.fields.items()):
            r.fields[o] = (f[0], f[1], Base(r.name + "_n"))
        r.ghost["slot"] = Base("slot")
        c.set(st, p, "hashmap", "_keybuf_head", IV(64, 0))
        if self.isset:
            c.set(st, p, "hashmap", "values", NULL)
        else:
            c.set(st, c.get(st, p, "hashmap", "values"), "vec", "size", IV(64, 0))

    def post(self, c):
        m = self.hm(c, c.new)
        return m.wf() + [("no entries", m.n == 0)]


@contract
class set_clear(Clear):
    props = ("C03",)
    name = "set_clear"
    isset = True


@contract
class hashmap_clear(Clear):
    name = "hashmap_clear"


def is_mode(c, f, props):
    m = mode_of(f)
    return {"exact": And(props != 1, props != 2, props != 3), "nocase": props == 1, "rtrim": props == 2, "nocase_rtrim": props == 3}[m]


class Construct(Contract):
    props = ("C01", "C02", "C03", "C04", "C05")
    leak_check = True

    def alloc_hook(self, c):
        return entry_hook2(c)

    def obj(self, c, st):
        m = c.ex.new_region(st, "cell", "map", size=c.ex.prog.sizeof("hashmap"))
        return PV(m.rid)

    def bare(self, c, st, p, limit, props):
        """effect of set_construct: an empty table of fresh blocks, one outcome per key mode"""
        outs = []
        for mode in MODES:
            s = st.copy()
            er = c.ex.new_region(s, "arr", "entries", stride=c.ex.prog.sizeof("hm_entry"), count=fint("limit"), heap=True)
            br = c.ex.new_region(s, "arr", "keybuf", stride=1, count=er.count, heap=True)
            br.fields[0] = (1, "int", Base("keybuf"))
            dress(er, p, True, c)
            s.assume(And(er.count >= 1, er.count <= 2 ** 42))
            s.assume(home_axiom(er.count))
            for nm, x in (("values", NULL), ("_entries", PV(er.rid)), ("_keys", NULL), ("_key_temp", NULL), ("get_hash__", FnP(contract="hash_fn", data=mode)),
                          ("_limit", IV(64, er.count, u=True)), ("_keybuf", PV(br.rid)), ("_keybuf_head", IV(64, 0)), ("_keybuf_len", IV(64, er.count, u=True)),
                          ("elem_size", IV(32, 0)), ("props", props)):
                o, sz = c.fo("hashmap", nm)
                s.regions[p.rid].cells[o] = (sz, x)
            outs.append((s, p))
        return outs


def entry_hook2(c):
    p = c.args[0]

    def f(ex, st, r):
        if r.stride == ex.prog.sizeof("hm_entry"):
            dress(r, p, True, c)
    return f


@contract
class set_construct(Construct):
    name = "set_construct"

    def setup(self, c, st):
        st.assume(*axioms_seq())
        return [self.obj(c, st), c.ex.fresh_iv(st, 64, "limit"), c.ex.fresh_iv(st, 32, "props")]

    def pre(self, c):
        return [("limit at most 2^41", c.ex.U(c.old, c.args[1]) <= 2 ** 41)]

    def effect(self, c):
        return self.bare(c, c.new, c.args[0], c.args[1], c.args[2])

    def post(self, c):
        m = HM(c, c.new, c.args[0], True)
        return m.wf() + [("no entries", m.n == 0), ("returns self", c.peq(c.ret, c.args[0])), ("room asked for", m.L >= c.ex.U(c.old, c.args[1])),
                         ("keys compared as the properties ask", is_mode(c, m.fn, c.ex.U(c.old, c.args[2])))]


@contract
class hashmap_construct(Construct):
    props = ("C01", "C02", "C04", "C05")
    name = "hashmap_construct"

    def setup(self, c, st):
        st.assume(*axioms_seq())
        S = V.mk_stride(c, st)
        st.assume(And(S.t < 2 ** 32, S.cap >= 2 ** 15))    # cap = floor(2^47 / S)
        c.aux["S"] = S
        return [self.obj(c, st), IV(32, None, lin=Off(0, {S: I(1)})), c.ex.fresh_iv(st, 64, "limit"), c.ex.fresh_iv(st, 32, "props")]

    def pre(self, c):
        n = c.ex.U(c.old, c.args[2])
        return [("limit at most 2^26", n <= 2 ** 26)]

    def effect(self, c):
        e = c.args[1]
        S = list(e.lin.ts)[0] if e.lin is not None and e.lin.ts else e.const()
        if S is None:
            raise Unsupported("map of unknown element size")
        outs = self.bare(c, c.new, c.args[0], c.args[2], c.args[3])
        for s, p in outs:
            v, _ = V.mk_vec(c, s, "vals", S=S, heap=True)
            for nm, x in (("values", v), ("elem_size", e)):
                o, sz = c.fo("hashmap", nm)
                s.regions[p.rid].cells[o] = (sz, x)
            en = c.get(s, p, "hashmap", "_entries")
            dress(s.regions[en.rid], p, False, c)
        return outs

    def post(self, c):
        m = HM(c, c.new, c.args[0], False)
        return m.wf() + [("no entries", m.n == 0), ("returns self", c.peq(c.ret, c.args[0])),
                         ("keys compared as the properties ask", is_mode(c, m.fn, c.ex.U(c.old, c.args[3])))]


class Destroy(Clear):
    props = ("C01",)

    def pre(self, c):
        m = self.hm(c, c.old)
        blk = lambda p: z3.BoolVal(isinstance(p, PV) and p.rid in c.old.regions and c.old.regions[p.rid].alive and c.old.regions[p.rid].heap and p.off.const() == 0)
        return [("entry table is a live block", blk(m.entries)), ("key buffer is a live block", blk(m.keybuf))] + ([] if self.isset else m.vals.ok("values: "))

    def effect(self, c):
        st, p = c.new, c.args[0]
        for nm in ("_entries", "_keybuf"):
            x = c.get(st, p, "hashmap", nm)
            st.regions[x.rid].alive = False
            c.set(st, p, "hashmap", nm, NULL)
        if not self.isset:
            v = c.get(st, p, "hashmap", "values")
            d = c.get(st, v, "vec", "data")
            st.regions[d.rid].alive = False
            st.regions[v.rid].alive = False
            c.set(st, p, "hashmap", "values", NULL)

    def post(self, c):
        o = self.hm(c, c.old)
        r = [("entries freed", c.deadp(c.new, o.entries)), ("key buffer freed", c.deadp(c.new, o.keybuf))]
        if not self.isset:
            r += [("value vector freed", And(c.deadp(c.new, o.vp), c.deadp(c.new, o.vals.data)))]
        return r


@contract
class set_destroy(Destroy):
    props = ("C01", "C03")
    name = "set_destroy"
    isset = True


@contract
class hashmap_destroy(Destroy):
    name = "hashmap_destroy"
