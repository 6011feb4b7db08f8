"""Contracts for util/stringy.c: a string is a byte vec whose end slot holds NUL."""
from contract import *
from contract import And, Or, Not, Imp, forall
import vec as V
from vec import Vec, replace_data, havoc_contents, fits
from strs import *

FILE = ["util/stringy.c", "util/vec.c"]
DEPS = ["vec"]
MAXS = 2 ** 31


class SC(Contract):
    """first argument is a valid string"""
    props = ("C08",)
    grows = True
    ro = False
    preterm = True

    def setup(self, c, st):
        p = mk_str(c, st, "s", ro=self.ro)
        return [p] + self.more(c, st, p)

    def more(self, c, st, p):
        return []

    def pre(self, c):
        s = Str(c, c.old, c.args[0])
        return (s.oks if self.preterm else s.ok)("string: ") + self.pre2(c, s)

    def pre2(self, c, s):
        return []

    def effect(self, c):
        st, p = c.new, c.args[0]
        if self.grows:
            havoc_contents(c, st, p)
            replace_data(c, st, p)
            c.havoc_int(st, p, "vec", "_alloc")
            c.havoc_int(st, p, "vec", "size")
        return self.ret(c)

    def ret(self, c):
        return None

    def post(self, c):
        o, n = Str(c, c.old, c.args[0]), Str(c, c.new, c.args[0])
        return n.oks("string still valid: ") + [x for x in self.post2(c, o, n) if x]


def keep(c, o, n, upto, name="existing bytes kept"):
    return (name, forall(0, upto, lambda i: n.at(i) == o.at(i), pats=lambda i: [n.at(i), o.at(i)]))


def bytes_from(n, off, t, m, name="bytes are those given"):
    return (name, forall(off, off + m, lambda i: n.at(i) == t.at(i - off)))


# ------------------------------------------------------------ constructors
class Make(Contract):
    """construct into given (or fresh) storage, holding what `src` describes"""
    props = ("C08",)
    alloc = False

    def setup(self, c, st):
        a = []
        if not self.alloc:
            r = c.ex.new_region(st, "cell", "s", size=c.ex.prog.sizeof("vec"))
            a = [PV(r.rid)]
        return a + self.more(c, st)

    def more(self, c, st):
        return []

    def effect(self, c):
        st = c.new
        if self.alloc:
            r = c.ex.new_region(st, "cell", "newstr", size=c.ex.prog.sizeof("vec"), heap=True)
            p = PV(r.rid)
        else:
            p = c.args[0]
        cnt = fint("alloc")
        d = c.ex.new_region(st, "arr", "sdata", stride=1, count=cnt, heap=True)
        st.assume(And(cnt >= 1, cnt <= 2 ** 47))
        d.fields[0] = (1, "int", Base("sdata"))
        c.set(st, p, "vec", "data", PV(d.rid))
        for m in ("size", "_alloc"):
            c.set(st, p, "vec", m, c.ex.fresh_iv(st, 64, m))
        c.set(st, p, "vec", "_elem_size", IV(64, 1))
        self.more_effect(c)
        return p

    def more_effect(self, c):
        pass

    def content(self, c):
        """(length, at(i)) the new string must hold"""
        raise NotImplementedError

    def post(self, c):
        n = Str(c, c.new, c.ret if self.alloc else c.args[0])
        L, at = self.content(c)
        return n.oks("constructed string: ") + [("length", n.size == L), ("bytes are those given", forall(0, L, lambda i: n.at(i) == at(i))),
                                                ("returns the string", z3.BoolVal(True) if self.alloc else c.peq(c.ret, c.args[0]))] + self.fresh(c, n)

    def fresh(self, c, n):
        return [("has its own storage", z3.BoolVal(n.data.rid not in c.old.regions))]

    # argument helpers
    def src(self, c):
        return c.args[-1]


@contract
class string_construct(Make):
    name = "string_construct"

    def content(self, c):
        return I(0), lambda i: I(0)


class FromString(Make):
    def more(self, c, st):
        return [mk_str(c, st, "src", ro=True)]

    def pre(self, c):
        return Str(c, c.old, self.src(c)).oks("source: ")

    def content(self, c):
        s = Str(c, c.old, self.src(c))
        return s.size, s.at


@contract
class string_from_string(FromString):
    name = "string_from_string"
    alloc = True


@contract
class string_construct_from_string(FromString):
    name = "string_construct_from_string"


def mk_sv(c, st, name="sv", ro=True):
    """a stringview of exactly len readable bytes"""
    n = z3.Int(fresh_name(name + "_len"))
    st.assume(And(n >= 0, n < MAXS))
    r, a = mk_bytes(c, st, name + "_data", n)
    q = c.ex.new_region(st, "cell", name, size=c.ex.prog.sizeof("stringview"), ro=ro)
    for m, v in (("data", PV(r.rid)), ("len", IV(32, n, u=True))):
        o, sz = c.fo("stringview", m)
        q.cells[o] = (sz, v)
    return PV(q.rid)


class SV:
    def __init__(self, c, st, p):
        d = c.get(st, p, "stringview", "data")
        self.data = d
        self.len = c.u(st, p, "stringview", "len")
        self.null = isinstance(d, PV) and d.rid is None
        self.t = None if self.null else Txt(c, st, d)

    def at(self, i):
        return I(0) if self.null else self.t.at(i)

    def ok(self, tag):
        if self.null:
            return [(tag + "bytes readable", self.len == 0)]
        return [(tag + "bytes readable", Or(self.len == 0, And(self.t.k >= 0, self.t.k + self.len <= self.t.r.count)))]

    def len_at(self, m):
        """length of the text within the first m bytes: up to the first NUL"""


class FromSv(Make):
    def more(self, c, st):
        p = mk_sv(c, st)
        return [p]

    def pre(self, c):
        v = SV(c, c.old, self.src(c))
        return v.ok("view: ") + [("view holds text (no NUL byte)", forall(0, v.len, lambda i: v.at(i) != 0))]

    def content(self, c):
        v = SV(c, c.old, self.src(c))
        return v.len, v.at


@contract
class string_from_stringview(FromSv):
    name = "string_from_stringview"
    alloc = True


@contract
class string_construct_from_stringview(FromSv):
    name = "string_construct_from_stringview"


def cs_arg(c, st, name="src", exact=False):
    return mk_cstr(c, st, name, exact=exact)[0]


class CS:
    """a C-string argument"""
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.t = Txt(c, c.old, p)
        self.at, self.arr, self.k, self.r = self.t.at, self.t.arr, self.t.k, self.t.r
        L = self.t.r.ghost.get("cstr")
        k = zc(simp(self.t.k))
        aux = c.aux.setdefault("clen", {})
        if L is not None and k == 0:
            self.len = L
        else:
            key = (p.rid, str(p.off))
            if key not in aux:
                aux[key] = fint("clen")
            self.len = aux[key]

    def ok(self, tag):
        ex, t = self.c.ex, self.t
        return [(tag + "NUL-terminated", And(t.k >= 0, builtins_c.nul_exists(ex, self.c.old, t.r, t.arr, t.k)))]

    def define(self):
        """the defining property of len"""
        return And(self.len >= 0, self.t.k + self.len < self.t.r.count, self.at(self.len) == 0, forall(0, self.len, lambda j: self.at(j) != 0))


class FromCs(Make):
    def more(self, c, st):
        return [cs_arg(c, st)]

    def pre(self, c):
        return CS(c, self.src(c)).ok("source: ")

    def content(self, c):
        s = CS(c, self.src(c))
        if c.mode == "call":
            c.new.assume(s.define())
        return s.len, s.at


@contract
class string_from_char_ptr(FromCs):
    name = "string_from_char_ptr"
    alloc = True


@contract
class string_construct_from_char_ptr(FromCs):
    name = "string_construct_from_char_ptr"


class Take(Make):
    """takes over a heap text"""
    def more(self, c, st):
        return [mk_cstr(c, st, "src", ro=False, heap=True)[0]]

    def pre(self, c):
        p = self.src(c)
        return CS(c, p).ok("source: ") + [("source is a heap block", z3.BoolVal(c.old.regions[p.rid].heap)), ("from its start", simp(Txt(c, c.old, p).k) == 0)]

    def effect(self, c):
        p = Make.effect(self, c)
        st = c.new
        st.regions[c.get(st, p, "vec", "data").rid].alive = False
        c.set(st, p, "vec", "data", self.src(c))
        return p

    def content(self, c):
        return FromCs.content(self, c)

    def fresh(self, c, n):
        return [("owns the given block", c.peq(n.data, self.src(c)))]


@contract
class string_take(Take):
    name = "string_take"
    alloc = True


@contract
class string_construct_take(Take):
    name = "string_construct_take"


# ------------------------------------------------------------ operations
class Assign(SC):
    """the string becomes exactly the given text"""
    def content(self, c, o):
        raise NotImplementedError

    def post2(self, c, o, n):
        L, at = self.content(c, o)
        return [("length", n.size == L), ("bytes are those given", forall(0, L, lambda i: n.at(i) == at(i)))]


class Append(SC):
    def content(self, c, o):
        raise NotImplementedError

    def post2(self, c, o, n):
        L, at = self.content(c, o)
        return [("length grows by the appended length", n.size == o.size + L), keep(c, o, n, o.size),
                ("appended bytes follow", forall(o.size, o.size + L, lambda i: n.at(i) == at(i - o.size)))] + self.post3(c, o, n, L)

    def post3(self, c, o, n, L):
        return []


class SvArg:
    text = True

    def more(self, c, st, p):
        return [mk_sv(c, st)]

    def pre2(self, c, s):
        v = SV(c, c.old, c.args[1])
        return v.ok("view: ") + ([("view holds text (no NUL byte)", forall(0, v.len, lambda i: v.at(i) != 0))] if self.text else []) + \
            [("view is another block", z3.BoolVal(v.null or v.t.r.rid != s.r.rid))]

    def content(self, c, o):
        v = SV(c, c.old, c.args[1])
        return v.len, v.at


@contract
class string_copy_from_stringview(SvArg, Assign):
    name = "string_copy_from_stringview"
    preterm = False


@contract
class string_append_stringview(SvArg, Append):
    name = "string_append_stringview"
    text = False


@contract
class string_get_stringview(SC):
    name = "string_get_stringview"
    grows = False
    ro = True

    def ret(self, c):
        s = Str(c, c.old, c.args[0])
        return Agg([s.data, c.ex.fresh_iv(c.new, 32, "len")])

    def pre2(self, c, s):
        return [("length below 4 GB", s.size < 2 ** 32)]

    def post2(self, c, o, n):
        d, l = c.ret.v[0], c.ret.v[1]
        return [("view starts at the text", c.peq(d, o.data)), ("view has the text's length", c.ex.U(c.new, l) == o.size)]


@contract
class string_push_back(SC):
    name = "string_push_back"

    def more(self, c, st, p):
        return [c.ex.fresh_iv(st, 8, "ch")]

    def post2(self, c, o, n):
        return [("one byte longer", n.size == o.size + 1), keep(c, o, n, o.size), ("last byte is the given one", n.at(o.size) == c.ex.U(c.old, c.args[1]))]


class CsArg:
    def more(self, c, st, p):
        return [cs_arg(c, st)]

    def pre2(self, c, s):
        t = CS(c, c.args[1])
        return t.ok("source: ") + [("source is another block", z3.BoolVal(t.t.r.rid != s.r.rid))]

    def content(self, c, o):
        t = CS(c, c.args[1])
        if c.mode == "call":
            c.new.assume(t.define())
        return t.len, t.at


class RetLen:
    def ret(self, c):
        return c.ex.fresh_iv(c.new, 64, "len")


@contract
class string_strcat(CsArg, RetLen, Append):
    name = "string_strcat"

    def post3(self, c, o, n, L):
        return [("returns the appended length", c.ex.U(c.new, c.ret) == L)]


@contract
class string_strcpy(CsArg, RetLen, Assign):
    name = "string_strcpy"
    preterm = False

    def post2(self, c, o, n):
        return Assign.post2(self, c, o, n) + [("returns the length", c.ex.U(c.new, c.ret) == n.size)]


class Bounded:
    """source text limited to n bytes: ends at the first NUL or after n bytes"""
    def more(self, c, st, p):
        r, a = mk_bytes(c, st, "src")
        lim = c.ex.fresh_iv(st, 64, "n")
        m = z3.Int(fresh_name("tlen"))
        c.aux["tlen"] = m
        u = c.ex.U(st, lim)
        # the text's length m: first NUL within the first n bytes, else n; only that much is readable
        st.assume(And(m >= 0, m <= u, m <= r.count, Or(m == u, And(m < r.count, a.get(m) == 0))), forall(0, m, lambda i: a.get(i) != 0))
        r.ghost["nul"] = [m]
        return [PV(r.rid), lim]

    def pre2(self, c, s):
        t, lim = self.parts(c)
        if t is None:
            return [("source readable", lim == 0)]
        k = t.k
        return [("source readable up to the limit or its terminator", Or(lim == 0, And(k >= 0, Or(k + lim <= t.r.count, builtins_c.nul_exists(c.ex, c.old, t.r, t.arr, k))))),
                ("limit representable", lim <= 2 ** 46), ("source is another block", z3.BoolVal(t.r.rid != s.r.rid))]

    def parts(self, c):
        p = c.args[1]
        return (None if p.rid is None else Txt(c, c.old, p)), c.ex.U(c.old, c.args[2])

    def content(self, c, o):
        t, lim = self.parts(c)
        if t is None:
            return I(0), lambda i: I(0)
        if c.mode == "call":
            m = c.aux.get("tlen")
            if m is None:
                m = c.aux["tlen"] = fint("tlen")
                c.new.assume(And(m >= 0, m <= lim, Or(m == lim, And(t.k + m < t.r.count, t.at(m) == 0))), forall(0, m, lambda i: t.at(i) != 0))
        else:
            m = c.aux["tlen"]
        return m, t.at


@contract
class string_strncat(Bounded, RetLen, Append):
    name = "string_strncat"

    def post3(self, c, o, n, L):
        return [("returns the appended length", c.ex.U(c.new, c.ret) == L)]


@contract
class string_strncpy(Bounded, RetLen, Assign):
    name = "string_strncpy"
    preterm = False

    @property
    def loops(self):
        def l0(lp):
            s = Str(lp.root, lp.st, lp.args[0])
            t = Txt(lp.root, lp.old, lp.args[1])
            i = lp.u("i")
            m = lp.root.aux["tlen"]
            return [("copied so far is the text", forall(0, i, lambda j: And(s.at(j) == t.at(j)))), ("within the text", And(i >= 0, i <= m))]
        return [l0]


@contract
class string_sprintf(SC):
    name = "string_sprintf"
    preterm = False
    fmt_ok = True

    def more(self, c, st, p):
        return [cs_arg(c, st, "fmt")]

    def ret(self, c):
        if c.mode == "call":
            g = c.new.ghost
            L, txt = fint("fmtlen"), Base("fmttxt")
            c.new.assume(And(L >= 0, L < 2 ** 31), forall(0, L, lambda j: And(txt.get(j) >= 0, txt.get(j) < 256)))
            for k in ("fmtlen", "fmttxt", "fmt"):
                g.pop((k, "call"), None)
            g[("fmtlen", "call")], g[("fmttxt", "call")] = L, txt
            f = c.args[1]
            r = c.old.regions.get(f.rid) if isinstance(f, PV) else None
            lit = r.ghost.get("lit") if r is not None and f.off.const() == 0 else None
            g[("fmt", "call")] = (L, txt, [lit] + list(c.args[2:]))
        return c.ex.fresh_iv(c.new, 64, "len")

    def post2(self, c, o, n):
        L, txt = None, None
        for k, v in c.new.ghost.items():
            if isinstance(k, tuple) and k[0] == "fmtlen":
                L = v
            if isinstance(k, tuple) and k[0] == "fmttxt":
                txt = v
        if L is None:
            return [("a length is returned", n.size == c.ex.U(c.new, c.ret))]
        return [("length is that of the formatted text", n.size == L), ("bytes are those formatted", forall(0, L, lambda i: n.at(i) == txt.get(i))),
                ("returns the length", c.ex.U(c.new, c.ret) == L)]


@contract
class string_c_str(SC):
    name = "string_c_str"
    grows = False
    ro = True

    def ret(self, c):
        return Str(c, c.old, c.args[0]).data

    def post2(self, c, o, n):
        return [("the text itself", c.peq(c.ret, o.data))]


@contract
class string_export(SC):
    name = "string_export"

    def effect(self, c):
        st, p = c.new, c.args[0]
        d = c.get(st, p, "vec", "data")
        cnt = fint("alloc")
        nd = c.ex.new_region(st, "arr", "sdata", stride=1, count=cnt, heap=True)
        st.assume(And(cnt >= 1, cnt <= 2 ** 47))
        nd.fields[0] = (1, "int", Base("sdata"))
        c.set(st, p, "vec", "data", PV(nd.rid))
        c.havoc_int(st, p, "vec", "size")
        c.havoc_int(st, p, "vec", "_alloc")
        c.set(st, p, "vec", "_elem_size", IV(64, 1))
        return d

    def post2(self, c, o, n):
        r = c.new.regions[o.data.rid]
        return [("string is empty afterwards", n.size == 0), ("returns the old text", c.peq(c.ret, o.data)), ("old text alive", z3.BoolVal(r.alive)),
                ("string has its own storage", z3.BoolVal(n.data.rid != o.data.rid)),
                ("old text unchanged", forall(0, o.size + 1, lambda i: r.fields[0][2].get(i) == o.at(i)))]


@contract
class string_clear(SC):
    name = "string_clear"
    preterm = False

    def post2(self, c, o, n):
        return [("empty", n.size == 0)]


class StrArg:
    def more(self, c, st, p):
        return [mk_str(c, st, "src", ro=True)]

    def pre2(self, c, s):
        v = Str(c, c.old, c.args[1])
        return v.oks("source: ") + [("different strings", z3.BoolVal(v.r.rid != s.r.rid))]

    def content(self, c, o):
        v = Str(c, c.old, c.args[1])
        return v.size, v.at


@contract
class string_copy(StrArg, Assign):
    name = "string_copy"
    preterm = False


@contract
class string_append(StrArg, Append):
    name = "string_append"


@contract
class string_resize(SC):
    name = "string_resize"
    preterm = False

    def more(self, c, st, p):
        return [c.ex.fresh_iv(st, 64, "n")]

    def pre2(self, c, s):
        return [("requested size representable", fits(1, c.ex.U(c.old, c.args[1])))]

    def post2(self, c, o, n):
        m = c.ex.U(c.old, c.args[1])
        return [("length is n", n.size == m), keep(c, o, n, z3.If(m < o.size, m, o.size))]


# ------------------------------------------------------------ find and replace
def U(c, i):
    return c.ex.U(c.old, c.args[i])


class Search:
    """what a search-and-replace call is about, in the state before the call"""
    def __init__(self, c, con):
        self.c, self.nc = c, con.nc
        self.o = Str(c, c.old, c.args[0])
        self.d = CS(c, c.args[1])
        self.m = self.d.len
        self.t = None if c.args[2].rid is None else Txt(c, c.old, c.args[2])
        if con.newlen is None:
            self.k = CS(c, c.args[2]).len
        else:
            self.k = U(c, con.newlen)
        f = builtins_c.getfield(c.ex, self.o.r, 0, 1, "int")[2]
        self.A = f.z3(c.old.hyps)
        self.D = self.d.t.arr.z3(c.old.hyps)
        if c.new is not c.old:
            f.z3(c.new.hyps)
            self.d.t.arr.z3(c.new.hyps)
        self.N = self.o.size
        self.dk = self.d.t.k

    def occ(self, q):
        return OCC(self.nc)(self.A, I(q), self.D, self.dk, self.m)

    def key(self):
        return (self.A, self.N, self.D, self.dk, self.m)

    def fn(self, name, *extra):
        a = list(self.key()) + list(extra)
        return uf("%s_%d" % (name, self.nc), *([x.sort() for x in a] + [INTS]))(*a)

    def nx(self, x):
        """first occurrence at or after x; N when there is none"""
        return self.fn("next", I(x))

    def cc(self, K):
        """scan position in the old text after K matches"""
        return self.fn("scanpos", I(K))

    def oo(self, K):
        """output length after K matches"""
        return self.fn("outpos", self.k, I(K))

    def mm(self):
        return self.fn("matches")

    def next_axioms(self):
        x, q = z3.Ints("ax_x ax_q")
        n = self.nx(x)
        rng = And(0 <= x, x <= self.N)
        return [z3.ForAll([x], Imp(rng, And(x <= n, n <= self.N, Imp(n < self.N, And(self.m > 0, n + self.m <= self.N, self.occ(n))), Imp(self.m == 0, n == self.N))), patterns=[n]),
                z3.ForAll([x, q], Imp(And(rng, x <= q, q < n, self.m > 0, q + self.m <= self.N), Not(self.occ(q))), patterns=[z3.MultiPattern(n, self.occ(q))])]

    def scan_def(self, K):
        """one step of the scan (definition)"""
        a, b = self.cc(K), self.nx(self.cc(K))
        return [Imp(And(K >= 0, a >= 0, a <= self.N), And(self.cc(K + 1) == z3.If(b < self.N, b + self.m, self.N),
                                           self.oo(K + 1) == self.oo(K) + (b - a) + z3.If(b < self.N, self.k, I(0))))]

    def scan_axioms(self):
        M = self.mm()
        K = z3.Int("ax_K")
        return [self.cc(0) == 0, self.oo(0) == 0, M >= 0, self.cc(M) == self.N,
                z3.ForAll([K], Imp(And(0 <= K, K < M), And(self.cc(K) >= 0, self.cc(K) < self.N)), patterns=[self.cc(K)])]

    def con_segs(self, n, M):
        return FRAll.segs(self, n, M)

    def small(self):
        """every intermediate text is shorter than 4 GB"""
        K = z3.Int("ax_K")
        return z3.ForAll([K], Imp(And(0 <= K, K <= self.mm()), And(self.oo(K) >= 0, self.oo(K) + self.N - self.cc(K) < 2 ** 32)), patterns=[self.oo(K)])


class FR(SC):
    props = ("C09",)
    nc = False
    newlen = None

    def setup_search(self, c, st, args, k=None):
        pass

    def more(self, c, st, p):
        a = [mk_cstr(c, st, "oldstr")[0]]
        if self.newlen is None:
            a.append(mk_cstr(c, st, "newstr")[0])
        else:
            r, _ = mk_bytes(c, st, "newstr")
            a.append(PV(r.rid))
        return a

    def pre2(self, c, s):
        use_occ(c.old, self.nc)
        S = Search(c, self)
        if c.mode == "call":
            c.old.assume(S.d.define(), *( [CS(c, c.args[2]).define()] if self.newlen is None else []))
        out = S.d.ok("needle: ") + [("needle is another block", z3.BoolVal(S.d.t.r.rid != s.r.rid)), ("needle below 4 GB", S.m < 2 ** 32), ("text below 4 GB", S.N < 2 ** 32)]
        if self.newlen is None:
            out += CS(c, c.args[2]).ok("replacement: ")
        elif S.t is not None:
            out += [("replacement readable", Or(S.k == 0, And(S.t.k >= 0, S.t.k + S.k <= S.t.r.count)))]
        else:
            out += [("replacement readable", S.k == 0)]
        if S.t is not None:
            out += [("replacement is another block", z3.BoolVal(S.t.r.rid != s.r.rid))]
        out += [("replacement below 4 GB", S.k < 2 ** 32)]
        if self.nc:
            out += [("text has no NUL byte", forall(0, S.N, lambda i: s.at(i) != 0))]
        return out + self.pre3(c, S)

    def pre3(self, c, S):
        return []

    def define(self, c, S):
        """definitional facts about the ghost search functions"""
        c.new.assume(*S.next_axioms())

    def assume_only(self, c):
        if c.mode == "call":
            return []
        S = Search(c, self)
        use_occ(c.new, self.nc)
        self.define(c, S)
        return []


class FROne(FR):
    def ret(self, c):
        n = Str(c, c.new, c.args[0])
        j = fint("retidx")
        return PV(n.data.rid, Off(0, {1: j}))

    def more(self, c, st, p):
        a = FR.more(self, c, st, p) + [c.ex.fresh_iv(st, 64, "begin")]
        return a + ([c.ex.fresh_iv(st, 32, "newlen")] if self.newlen is not None else [])

    def pre3(self, c, S):
        return [("start within the text", U(c, 3) <= S.N)]

    def post2(self, c, o, n):
        use_occ(c.new, self.nc)
        S = Search(c, self)
        if c.mode == "call":
            self.define(c, S)
        p = S.nx(U(c, 3))
        hit = p < S.N
        i = V.posidx(c, c.new, n, c.ret)
        m, k = S.m, S.k
        return [("next occurrence is where the specification says", And(p >= U(c, 3), p <= S.N)),
                ("length after the replacement", n.size == z3.If(hit, S.N - m + k, S.N)),
                ("text before kept", forall(0, z3.If(hit, p, S.N), lambda j: n.at(j) == o.at(j))),
                ("replacement in place", Imp(hit, forall(p, p + k, lambda j: n.at(j) == S.t.at(j - p))) if S.t is not None else z3.BoolVal(True)),
                ("text after kept", Imp(hit, forall(p + k, S.N - m + k, lambda j: n.at(j) == o.at(j - k + m)))),
                ("returns the position after the replacement, or the end", (i == z3.If(hit, p + k, n.size)) if i is not None else z3.BoolVal(False))]


class FRAll(FR):
    def ret(self, c):
        if c.mode == "call":
            c.new.ghost["replaced"] = Search(c, self)
        return None

    def more(self, c, st, p):
        a = FR.more(self, c, st, p)
        return a + ([c.ex.fresh_iv(st, 32, "newlen")] if self.newlen is not None else [])

    def define(self, c, S):
        FR.define(self, c, S)
        c.new.assume(*S.scan_axioms())

    def pre3(self, c, S):
        if c.mode == "call":
            self.define(c, S)
        return [("every intermediate text below 4 GB", S.small())] + ([("replacement has no NUL byte", forall(0, S.k, lambda i: S.t.at(i) != 0))] if self.nc and S.t is not None else [])

    def post2(self, c, o, n):
        use_occ(c.new, self.nc)
        S = Search(c, self)
        if c.mode == "call":
            self.define(c, S)
        M = S.mm()
        return [("length after all replacements", n.size == S.oo(M))] + self.segs(S, n, M)

    @staticmethod
    def segs(S, n, M):
        K, j = z3.Ints("sg_K sg_j")
        a, q, o = S.cc(K), S.nx(S.cc(K)), S.oo(K)
        return [("text between matches kept", z3.ForAll([K, j], Imp(And(0 <= K, K < M, a <= j, j < q), n.at(o + j - a) == S.o.at(j)), patterns=[z3.MultiPattern(S.cc(K), S.o.at(j))])),
                ("every match replaced", z3.ForAll([K, j], Imp(And(0 <= K, K < M, q < S.N, 0 <= j, j < S.k), n.at(o + (q - a) + j) == S.t.at(j)), patterns=[z3.MultiPattern(S.cc(K), S.t.at(j))]) if S.t is not None else z3.BoolVal(True))]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            S = Search(c, self)
            n = Str(c, lp.st, lp.args[0])
            K = lp.K
            i = pick32(lp, "i")
            lp.st.assume(*S.scan_def(K))
            lp.lemma(And(S.cc(K) == S.cc(K), S.oo(K) == S.oo(K)))
            a = S.cc(K)
            z = z3.Int("z_K")
            x = z3.Int("z_x")
            C = Search(c, self)
            C.A = builtins_c.getfield(c.ex, n.r, 0, 1, "int")[2].z3(lp.st.hyps)
            C.N = n.size
            lp.st.assume(*C.next_axioms())
            out = [("string valid: " + nm, f) for nm, f in n.oks()]
            out += [("at most all matches done", K <= S.mm()), ("scan position", And(a >= 0, a <= S.N)), ("output position", i == S.oo(K)), ("rest length", n.size == S.oo(K) + S.N - a),
                    ("rest is the old text", forall(i, n.size, lambda j: n.at(j) == S.o.at(j - i + a))),
                    ("rest is the old text (old positions)", forall(a, S.N, lambda j: n.at(j - a + i) == S.o.at(j))),
                    ("occurrences in the rest are those in the old text", z3.ForAll([x], Imp(And(S.m > 0, a <= x, x + S.m <= S.N), S.occ(x) == C.occ(x - a + i)), patterns=[S.occ(x)])),
                    ("occurrences in the old text are those in the rest", z3.ForAll([x], Imp(And(S.m > 0, i <= x, x + S.m <= n.size), C.occ(x) == S.occ(x - i + a)), patterns=[C.occ(x)])),
                    ("next occurrence is the old text's", C.nx(i) == S.nx(a) - a + i),
                    ("earlier segments lie before", z3.ForAll([z], Imp(And(0 <= z, z < K), And(S.cc(z) >= 0, S.cc(z) < S.N, S.nx(S.cc(z)) <= S.N, S.cc(z) <= S.nx(S.cc(z)),
                                                                                   S.oo(z) + (S.nx(S.cc(z)) - S.cc(z)) + z3.If(S.nx(S.cc(z)) < S.N, S.k, I(0)) <= i, S.oo(z) >= 0)), patterns=[S.cc(z)]))]
            out += [(nm + " so far", f) for nm, f in self.segs(S, n, K)]
            if self.nc:
                out += [("no NUL byte", forall(0, n.size, lambda j: n.at(j) != 0))]
            out.append(("variant", S.N - a))
            return out
        return [l0]


def pick32(lp, name):
    if lp.has(name):
        return lp.u(name)
    v = lp.ints(32) or lp.ints(64)
    return lp.ex.U(lp.st, v[0])


def _fr(nm, base, nc_, newlen_):
    @contract
    class X(base):
        name = nm
        nc = nc_
        newlen = newlen_
    return X


_fr("string_find_replace_one_limited", FROne, False, 4)
_fr("string_find_replace_one", FROne, False, None)
_fr("string_find_replace_limited", FRAll, False, 3)
_fr("string_find_replace", FRAll, False, None)
_fr("string_find_replace_one_nocase_limited", FROne, True, 4)
_fr("string_find_replace_one_nocase", FROne, True, None)
_fr("string_find_replace_nocase_limited", FRAll, True, 3)
_fr("string_find_replace_nocase", FRAll, True, None)
