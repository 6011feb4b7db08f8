"""Contracts for lib/scalarfn.c: operators and scalar functions of SQL expressions.

Argument expressions are objects of one pool; evaluating expression e yields a
status (good, NULL, failed) and, when good, its value: spec functions of e.  A
text lies in read-only memory of exactly its length (constants: followed by NUL).

Characters: CPOS(A, k) is the byte position of the k-th character of text A, CNUM
their number (definitional, for valid UTF-8); in byte mode characters are bytes.
"""
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
from strs import *
from stringy import SV
from expression import mk_row, STAT, IVAL, FVAL, TARR, TLEN, EXPR_CONST, mk_exprs
from vec import Vec, mk_vec, havoc_contents, replace_data
import stringy

FILE = ["lib/scalarfn.c", "util/stringy.c", "util/vec.c"]
DEPS = ["stringy", "expression"]
FAIL, NULL_, GOOD = -5, -1, 0
INT = z3.IntSort()
LMIN, LMAX = -2 ** 63, 2 ** 63 - 1

CPOS = z3.Function("CHAR_POSITION", IA, INT, INT)
CNUM = z3.Function("CHAR_COUNT", IA, INT)
Sel = z3.Select


def lead(b):
    """number of bytes of a character by its first byte; 0 when it is none"""
    return z3.If(b < 128, I(1), z3.If(And(b >= 192, b < 224), I(2), z3.If(And(b >= 224, b < 240), I(3), z3.If(And(b >= 240, b < 248), I(4), I(0)))))


def cont(b):
    return And(b >= 128, b < 192)


def utf8(A, N):
    """A[0..N) is a sequence of CNUM(A) characters"""
    k = z3.Int("u_k")
    M = CNUM(A)
    return [And(M >= 0, M <= N, CPOS(A, I(0)) == 0, CPOS(A, M) == N), z3.ForAll([k], Imp(And(k >= 0, k < M), And(CPOS(A, k) >= k, CPOS(A, k) <= N - (M - k))), patterns=[CPOS(A, k)])]


def utf8_step(A, N, k):
    """the character at index k (definition of valid UTF-8, instantiated)"""
    p, q = CPOS(A, k), CPOS(A, k + 1)
    b = Sel(A, p)
    return Imp(And(k >= 0, k < CNUM(A)), And(lead(b) > 0, q == p + lead(b), q <= N, *[Imp(lead(b) > j, cont(Sel(A, p + j))) for j in (1, 2, 3)]))


@lemma
def a_character_takes_at_least_a_byte():
    """positions grow with the character number and stay below the end (by induction from the definition)"""
    A = z3.Const("A", IA)
    N, k = z3.Ints("N k")
    M = CNUM(A)
    d = [M >= 0, CPOS(A, I(0)) == 0, CPOS(A, M) == N, utf8_step(A, N, k)]
    return [("base", d, CPOS(A, I(0)) >= 0), ("step", d + [k >= 0, k < M, CPOS(A, k) >= k], CPOS(A, k + 1) >= k + 1),
            ("from the end: base", d, CPOS(A, M) <= N), ("from the end: step", d + [k >= 0, k < M, CPOS(A, k + 1) <= N - (M - k - 1)], CPOS(A, k) <= N - (M - k))]


# ------------------------------------------------------------ the functions
class Fn(Contract):
    kinds = "i"          # what the arguments are evaluated as
    ret = "i"            # what is returned
    props = ("C24",)
    nargs = None
    any_mode = True

    def setup(self, c, st):
        m = c.ex.prog.member
        e = mk_exprs(c, st)
        ap, _ = mk_vec(c, st, "args", S=8, fields={0: 8}, ro=True)
        d = st.regions[c.get(st, ap, "vec", "data").rid]
        d.fields[0] = (8, ("ptr", e.rid), d.fields[0][2])
        n = c.u(st, ap, "vec", "size")
        self.size(c, st, n)
        a = d.fields[0][2]
        for i in range(4):
            st.assume(Imp(i < n, And(a.get(i) >= 1, a.get(i) < e.count, e.ghost["live"].get(a.get(i)) != 0)))
        fr = c.ex.new_region(st, "cell", "fn", size=c.ex.prog.sizeof("function"), ro=True)
        fp = PV(fr.rid)
        cab = c.case.get("bytes")
        b = c.ex.fresh_iv(st, 8, "char_as_byte") if cab is None else IV(8, cab)
        if cab is None:
            st.assume(Or(c.ex.U(st, b) == 0, c.ex.U(st, b) == 1))
        for mm, v in (("args", ap), ("char_as_byte", b)):
            o, sz = m("function", mm)
            fr.cells[o] = (sz, v)
        r = c.ex.new_region(st, "cell", "ret", size=8)
        if self.ret == "s":
            r.cells[0] = (8, mk_str(c, st, "rs", heap=True))
            r.ghost["s"] = True
        rg = mk_row(c, st)
        return [fp, PV(r.rid), PV(rg.rid)]

    def size(self, c, st, n):
        st.assume(n == len(self.kinds))

    # -- what the call is about
    def e(self, c, i):
        """index of the i-th argument expression"""
        d = c.get(c.old, c.get(c.old, c.args[0], "function", "args"), "vec", "data")
        return c.old.regions[d.rid].fields[0][2].get(i)

    def stat(self, c, i):
        return STAT[self.kinds[i]](self.e(c, i))

    def ival(self, c, i):
        return IVAL(self.e(c, i))

    def text(self, c, i):
        e = self.e(c, i)
        return TARR(e), TLEN(e)

    def fe(self, c, st, i, member):
        p = c.old.regions[c.ex.pool_of["exprs"]]
        return p.fields[c.ex.prog.member("expression", member)[0]][2].get(self.e(c, i))

    def bytemode(self, c):
        return c.u(c.old, c.args[0], "function", "char_as_byte") != 0

    def rets(self, c, st):
        return st.regions[c.args[1].rid].cells[0][1]

    def effect(self, c):
        if c.mode == "call":
            raise Unsupported("scalar functions are called through expressions")
        st = c.new
        r = st.regions[c.args[1].rid]
        if self.ret == "s":
            p = r.cells[0][1]
            havoc_contents(c, st, p)
            replace_data(c, st, p)
            c.havoc_int(st, p, "vec", "_alloc")
            c.havoc_int(st, p, "vec", "size")
        else:
            r.cells[0] = (8, c.ex.fresh_iv(st, 64, "result"))
        return c.ex.fresh_iv(st, 32, "rc", True)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        st = self.status(c)
        good = And(*[s == GOOD for s in st])
        out = [("{C24} a NULL or failed argument makes the result NULL or failed", Imp(Not(good), Or(*[And(s != GOOD, rc == s) for s in st])))]
        out += [("{C24} otherwise the result is good or an error", Imp(good, Or(rc == GOOD, rc == FAIL)))]
        if self.ret == "s":
            n = Str(c, c.new, self.rets(c, c.new))
            out += n.oks("result text valid: ")
        return out + [(nm, Imp(good, f)) for nm, f in self.result(c, rc)]

    def status(self, c):
        return [self.stat(c, i) for i in range(len(self.kinds))]

    def out(self, c):
        v = self.rets(c, c.new) if 0 in c.new.regions[c.args[1].rid].cells else None
        return v

    def result(self, c, rc):
        return []


class Arith(Fn):
    kinds = "ii"
    props = ("C19", "C24")
    exact_mul = True
    lemmas = ("quotient_and_remainder_are_unique", "division_detects_a_wrapped_product")

    def result(self, c, rc):
        a = [self.ival(c, i) for i in range(len(self.kinds))]
        ok, v = self.exact(*a)
        if len(a) == 2:
            c.new.assume(div_def(*a))
        hyp = And(*[And(x >= LMIN, x <= LMAX) for x in a])
        o = self.out(c)
        got = c.ex.S(c.new, o) if isinstance(o, IV) else None
        return [("{C19} succeeds exactly when the result is a 64-bit integer", Imp(hyp, (rc == GOOD) == ok)),
                ("{C19} the result is exact", Imp(And(hyp, rc == GOOD), got == v) if got is not None else rc != GOOD)]


def rng(v):
    return And(v >= LMIN, v <= LMAX)


def quot(a, b):
    return uf("sdiv", INT, INT, INT)(a, b)


def rem(a, b):
    return uf("srem", INT, INT, INT)(a, b)


def div_def(a, b):
    """quotient truncated toward zero and remainder with the sign of the dividend (definition)"""
    ab = lambda x: z3.If(x < 0, -x, x)
    q, r = quot(a, b), rem(a, b)
    return Imp(b != 0, And(a == q * b + r, ab(r) < ab(b), Imp(a >= 0, r >= 0), Imp(a <= 0, r <= 0)))


@lemma
def quotient_and_remainder_are_unique():
    a, b, q, r, q2, r2 = z3.Ints("a b q r q2 r2")
    ab = lambda x: z3.If(x < 0, -x, x)
    D = lambda q, r: [a == q * b + r, ab(r) < ab(b), Imp(a >= 0, r >= 0), Imp(a <= 0, r <= 0)]
    h = [b != 0] + D(q, r) + D(q2, r2)
    t = z3.Int("t")
    return [("difference of the remainders is a multiple", h + [t == q - q2], t * b == r2 - r), ("a small multiple is zero", [b != 0, ab(t * b) < ab(b)], t == 0)]


@lemma
def division_detects_a_wrapped_product():
    """(f * g mod 2^64) / f is g exactly when the product did not wrap"""
    r, p, k, f, g, q, m = z3.Ints("r p k f g q m")
    W = 2 ** 64
    h = [p == f * g, r == p - k * W, r >= 0, r < W, k >= 0, f > 0, g >= 0, r == q * f + m, m >= 0, m < f]
    t = z3.Int("t")
    return [("equal quotient: not wrapped", h + [q == g], p < W), ("not wrapped: no wraps", h + [p < W], k == 0),
            ("then the quotient is the factor", [f > 0, m >= 0, m < f, t * f == m], t == 0)]


def _arith(nm, kinds_, f):
    @contract
    class X(Arith):
        name = nm
        kinds = kinds_
        exact = staticmethod(f)


_arith("fql_op_plus_i", "ii", lambda a, b: (rng(a + b), a + b))
_arith("fql_op_minus_i", "ii", lambda a, b: (rng(a - b), a - b))
_arith("fql_op_mult_i", "ii", lambda a, b: (rng(a * b), a * b))
_arith("fql_op_divi_i", "ii", lambda a, b: (And(b != 0, rng(quot(a, b))), quot(a, b)))
_arith("fql_op_mod_i", "ii", lambda a, b: (b != 0, rem(a, b)))
_arith("fql_op_unary_minus_i", "i", lambda a: (rng(-a), -a))


class Plain(Fn):
    """the value is the machine's operation on the bits, or IEEE arithmetic"""
    props = ("C19", "C24")
    fails = None         # when it is an error
    vals = None          # the value: any of these terms

    def result(self, c, rc):
        K = {"i": IVAL, "f": FVAL}
        a = [K[k](self.e(c, i)) for i, k in enumerate(self.kinds)]
        o = self.out(c)
        bad = self.fails(*a) if self.fails else z3.BoolVal(False)
        out = [("{C19} an error only for a zero divisor", (rc == FAIL) == bad)]
        if self.ret == "f":
            v = Or(*[o.t == w for w in self.vals(*a)]) if isinstance(o, FV) else z3.BoolVal(False)
        else:
            U = lambda x: z3.If(x < 0, x + 2 ** 64, x)
            v = Or(*[c.ex.U(c.new, o) == w for w in self.vals(*[U(x) for x in a])]) if isinstance(o, IV) else z3.BoolVal(False)
        return out + [("{C19} the value of the operation", Imp(And(rc == GOOD, *[And(x >= LMIN, x <= LMAX) for x, k in zip(a, self.kinds) if k == "i"]), v))]


def _plain(nm, kinds_, ret_, vals_, fails_=None):
    @contract
    class X(Plain):
        name = nm
        kinds = kinds_
        ret = ret_
        vals = staticmethod(vals_)
        fails = staticmethod(fails_) if fails_ else None


def _bits(op):
    from sx import bitop
    _plain("fql_op_bit_" + op, "ii", "i", lambda a, b: [bitop(op, 64, a, b), bitop(op, 64, b, a)])


def _float(nm, op, com=False, fails=None):
    f = lambda a, b: uf(op, FS, FS, FS)(a, b)
    _plain("fql_op_%s_f" % nm, "ff", "f", lambda a, b: [f(a, b)] + ([f(b, a)] if com else []), fails)


for _n in ("or", "and", "xor"):
    _bits(_n)
_plain("fql_op_bit_not", "i", "i", lambda a: [2 ** 64 - 1 - a])
_float("plus", "fadd", True)
_float("minus", "fsub")
_float("mult", "fmul", True)
_float("divi", "fdiv", fails=lambda a, b: Or(uf("f_eq", FS, FS, BOOL)(b, z3.Const("fc_0000000000000000", FS)), uf("f_eq", FS, FS, BOOL)(z3.Const("fc_0000000000000000", FS), b)))
_plain("fql_op_unary_minus_f", "f", "f", lambda a: [uf("fneg", FS, FS)(a)])


# -- casts and ISNULL
class Copy(Fn):
    """returns the value of its argument"""
    def result(self, c, rc):
        o = self.out(c)
        if self.ret == "i":
            return [("the value of the argument", And(rc == GOOD, c.ex.S(c.new, o) == self.value(c)))]
        if self.ret == "f":
            return [("the value of the argument", And(rc == GOOD, o.t == self.value(c)) if isinstance(o, FV) else z3.BoolVal(False))]
        A, N = self.value(c)
        n = Str(c, c.new, self.rets(c, c.new))
        return [("the value of the argument", And(rc == GOOD, n.size == N, forall(0, N, lambda j: n.at(j) == Sel(A, j))))]

    def value(self, c):
        return {"i": IVAL, "f": FVAL, "s": lambda e: (TARR(e), TLEN(e))}[self.ret](self.e(c, 0))


@contract
class fql_cast_int(Copy):
    name = "fql_cast_int"


@contract
class fql_cast_bit(Copy):
    name = "fql_cast_bit"

    def value(self, c):
        return z3.If(IVAL(self.e(c, 0)) == 0, I(0), I(1))


@contract
class fql_cast_float(Copy):
    name = "fql_cast_float"
    kinds, ret = "f", "f"


@contract
class fql_cast_string(Copy):
    name = "fql_cast_string"
    kinds, ret = "s", "s"


class IsNull(Copy):
    """the first argument that is not NULL"""
    def size(self, c, st, n):
        st.assume(n == 2)

    def post(self, c):
        rc = c.ex.S(c.new, c.ret)
        K = STAT[self.kinds[0]]
        s0, s1 = K(self.e(c, 0)), K(self.e(c, 1))
        out = [("{C24} status of the first argument that is not NULL", rc == z3.If(s0 == NULL_, s1, s0))]
        if self.ret == "s":
            out += Str(c, c.new, self.rets(c, c.new)).oks("result text valid: ")
        for i, h in ((0, s0 == GOOD), (1, And(s0 == NULL_, s1 == GOOD))):
            self.which = i
            o = self.out(c)
            if self.ret == "i":
                f = c.ex.S(c.new, o) == IVAL(self.e(c, i)) if isinstance(o, IV) else z3.BoolVal(False)
            elif self.ret == "f":
                f = o.t == FVAL(self.e(c, i)) if isinstance(o, FV) else z3.BoolVal(False)
            else:
                A, N = self.text(c, i)
                n = Str(c, c.new, self.rets(c, c.new))
                f = And(n.size == N, forall(0, N, lambda j: n.at(j) == Sel(A, j)))
            out += [("{C24} the value of argument %d" % (i + 1), Imp(h, f))]
        return out


for _k in "ifs":
    def _mk(k):
        @contract
        class X(IsNull):
            name = "fql_isnull_" + k
            kinds = ret = k
    _mk(_k)


# -- texts
class TextFn(Fn):
    props = ("C20", "C24")
    lemmas = ("a_character_takes_at_least_a_byte",)
    kinds, ret = "s", "s"
    cases = [("bytes", {"bytes": 1}), ("UTF-8", {"bytes": 0, "valid": 1}), ("any bytes", {"bytes": 0})]

    def assume_only(self, c):
        A, N = self.text(c, 0)
        return utf8(A, N) if c.case.get("valid") else []

    def chars(self, c):
        """(number of characters, position of the k-th)"""
        A, N = self.text(c, 0)
        if c.case.get("valid"):
            return CNUM(A), lambda k: CPOS(A, k)
        return N, lambda k: k

    def exact(self, c):
        return "valid" in c.case or c.case.get("bytes") == 1 or "bytes" not in c.case

    def piece(self, c, rc, lo, hi):
        """the result is the characters lo .. hi"""
        A, N = self.text(c, 0)
        n = Str(c, c.new, self.rets(c, c.new))
        if not self.exact(c):
            return [("{C20} invalid text: an error, or no longer than the text", Or(rc == FAIL, And(rc == GOOD, n.size <= N)))]
        M, pos = self.chars(c)
        p, q = pos(lo), pos(hi)
        return [("{C20} succeeds", rc == GOOD), ("{C20} whole characters only: length", n.size == q - p), ("{C20} the characters asked for", forall(0, q - p, lambda j: n.at(j) == Sel(A, p + j)))]


def mn(a, b):
    return z3.If(a < b, a, b)


def mx(a, b):
    return z3.If(a > b, a, b)


@contract
class _get_byte_count(Contract):
    name = "_get_byte_count"
    props = ("C20",)

    def setup(self, c, st):
        return [c.ex.fresh_iv(st, 8, "ch"), c.ex.fresh_iv(st, 32, "limit")]

    def pre(self, c):
        return [("something is left", c.ex.U(c.old, c.args[1]) >= 1)]

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "bytes", True)

    def post(self, c):
        b, lim = c.ex.U(c.old, c.args[0]), c.ex.U(c.old, c.args[1])
        r = c.ex.S(c.new, c.ret)
        return [("length of the character that starts here, or an error", r == z3.If(And(lead(b) > 0, lead(b) <= lim), lead(b), I(FAIL)))]


@contract
class _get_rev_byte_count(Contract):
    name = "_get_rev_byte_count"
    props = ("C20",)

    def setup(self, c, st):
        r, a = mk_bytes(c, st, "text")
        k = fint("at")
        lim = c.ex.fresh_iv(st, 32, "limit")
        st.assume(And(k >= 0, k < r.count))
        return [PV(r.rid, Off(0, {1: k})), lim]

    def pre(self, c):
        t, lim = Txt(c, c.old, c.args[0]), c.ex.U(c.old, c.args[1])
        return [("at least one byte may be read", And(lim >= 1, lim < 2 ** 31)), ("the bytes before lie in the text", And(t.k >= lim - 1, t.k < t.r.count))]

    def effect(self, c):
        return c.ex.fresh_iv(c.new, 32, "bytes", True)

    def is_(self, t, lim, r):
        return And(r <= lim, lead(t.at(1 - r)) == r, *[cont(t.at(-j)) for j in range(r - 1)])

    def post(self, c):
        t, lim = Txt(c, c.old, c.args[0]), c.ex.U(c.old, c.args[1])
        r = c.ex.S(c.new, c.ret)
        ok = [self.is_(t, lim, k) for k in (1, 2, 3, 4)]
        return [("length of the character that ends here", And(*[Imp(ok[k - 1], r == k) for k in (1, 2, 3, 4)])), ("an error when none ends here", Imp(Not(Or(*ok)), r == FAIL))]

    @property
    def loops(self):
        def l0(lp):
            t = Txt(lp.root, lp.old, lp.args[0])
            i = lp.s("i") if lp.has("i") else None
            lim = lp.ex.U(lp.old, lp.args[1])
            if i is None:
                i = -lp.K
            return [("counts down", i == -lp.K), ("not beyond the limit", lp.K <= lim), ("continuation bytes so far", z3.ForAll([J], Imp(And(J >= 0, J < lp.K), cont(t.at(-J))), patterns=[t.at(-J)])),
                    ("the first ones", And(*[Imp(j < lp.K, cont(t.at(-j))) for j in range(4)])), ("variant", lim - lp.K)]
        J = z3.Int("rb_j")
        return [l0]


def scan_loop(fn, which=0, extra=None):
    """a loop over the characters of the text from character `start`: whatever integers the code carries
    along, those that count the characters or bytes passed, up or down, are found out"""
    def l0(lp):
        c = lp.root
        A, N = fn.text(c, 0)
        K = lp.K
        base = fn.start(c, which)
        out = []
        ns = [IVAL(fn.e(c, i)) for i in range(len(fn.kinds)) if fn.kinds[i] == "i"]
        exact = fn.exact(c)
        if c.case.get("valid"):
            lp.st.assume(utf8_step(A, N, base + K))
        if exact:
            M, pos = fn.chars(c)
            out += [("characters of the text", And(base >= 0, base + K <= M)), ("a byte each at least", And(K <= pos(base + K), pos(base + K) <= N)), ("variant", M - base - K)]
        ps = lp.intphis()
        for k, v in ps:
            u, s = lp.ex.U(lp.st, v), lp.ex.S(lp.st, v)
            may = [("counts the characters passed", u == K), ("counts up from the first", u == base + K)]
            for i, n in enumerate(ns):
                may += [("counts down from argument %d" % i, s == n - K)]
            if exact:
                may += [("position of the next character", u == pos(base + K)), ("bytes passed", u == pos(base + K) - pos(base))]
            else:
                f = lp.first(k) if lp.ctx is not None else v
                may += [("within the text", And(u <= N)), ("a byte each at least", u >= K), ("rises", u >= lp.ex.U(lp.st, f)) if isinstance(f, IV) else None, ("not negative", s >= 0)]
                out += [("variant?", k, N - u)]
            out += [("maybe", "%s %s" % (k, m[0]), m[1]) for m in may if m]
        if not exact:
            for k, v in ps:
                for k2, v2 in ps:
                    if k < k2 and v.bits == v2.bits:
                        f, f2 = (lp.first(x) if lp.ctx is not None else y for x, y in ((k, v), (k2, v2)))
                        if isinstance(f, IV) and isinstance(f2, IV):
                            U = lambda x: lp.ex.U(lp.st, x)
                            out += [("maybe", "%s moves with %s" % (k, k2), U(v) - U(f) == U(v2) - U(f2)), ("maybe", "%s is not above %s" % (k, k2), U(v) <= U(v2)), ("maybe", "%s is not below %s" % (k, k2), U(v) >= U(v2))]
        return out + (extra(lp) if extra else [])
    return l0


@contract
class fql_len(TextFn):
    name = "fql_len"
    ret = "i"

    def start(self, c, which):
        return I(0)

    def spaces(self, c):
        A, N = self.text(c, 0)
        M, pos = self.chars(c)
        return lambda k: builtins_c.is_space(Sel(A, pos(k)))

    @property
    def loops(self):
        def more(lp):
            c = lp.root
            A, N = self.text(c, 0)
            K = lp.K
            out = []
            for k, x in lp.intphis():
                v = lp.ex.S(lp.st, x)
                if self.exact(c):
                    M, pos = self.chars(c)
                    q = z3.Int("ln_k")
                    sp = self.spaces(c)
                    out += [("maybe", k + " count without trailing blanks", And(v >= 0, v <= K, Or(v == 0, Not(sp(v - 1))), z3.ForAll([q], Imp(And(q >= v, q < K), sp(q)), patterns=[Sel(A, pos(q))] if "valid" in c.case else [Sel(A, q)])))]
                else:
                    out += [("maybe", k + " at most the characters passed", And(v >= 0, v <= K))]
            return out
        return [scan_loop(self, extra=more)]

    def result(self, c, rc):
        A, N = self.text(c, 0)
        o = self.out(c)
        L = c.ex.S(c.new, o) if isinstance(o, IV) else None
        if not self.exact(c):
            return [("{C20} an error or a length", Or(rc == FAIL, And(L >= 0, L <= N) if L is not None else z3.BoolVal(False)))]
        if L is None:
            return [("{C20} a length", z3.BoolVal(False))]
        M, pos = self.chars(c)
        k = z3.Int("ln_k")
        sp = self.spaces(c)
        return [("{C20} succeeds", rc == GOOD), ("{C20} counts characters", And(L >= 0, L <= M)), ("{C20} the last one counted is not blank", Or(L == 0, Not(sp(L - 1)))),
                ("{C20} only blanks follow", z3.ForAll([k], Imp(And(k >= L, k < M), sp(k))))]


@contract
class fql_datalength(TextFn):
    name = "fql_datalength"
    ret = "i"
    cases = [("", {})]

    def status(self, c):
        t = self.fe(c, c.old, 0, "field_type")
        return [z3.If(t == 2, self.stat(c, 0), I(GOOD))]

    def result(self, c, rc):
        A, N = self.text(c, 0)
        o = self.out(c)
        L = c.ex.S(c.new, o) if isinstance(o, IV) else None
        t = self.fe(c, c.old, 0, "field_type")
        ok = Or(t == 0, t == 1, t == 2)
        return [("{C20} good for values of a type", (rc == GOOD) == ok), ("{C20} the bytes of the value", Imp(ok, L == z3.If(t == 2, N, I(8))) if L is not None else Not(ok))]


@contract
class fql_left(TextFn):
    name = "fql_left"
    kinds = "si"

    def start(self, c, which):
        return I(0)

    @property
    def loops(self):
        return [scan_loop(self, extra=lambda lp: [("as many as asked", lp.K <= IVAL(self.e(lp.root, 1)))])]

    def result(self, c, rc):
        n = self.ival(c, 1)
        M, pos = self.chars(c)
        neg = [("{C20} a negative count is an error", Imp(n < 0, rc == FAIL))]
        return neg + [(a, Imp(n >= 0, b)) for a, b in self.piece(c, rc, I(0), mn(n, M))]


@contract
class fql_right(TextFn):
    name = "fql_right"
    kinds = "si"

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            A, N = self.text(c, 0)
            n = IVAL(self.e(c, 1))
            K = lp.K
            out = [("as many as asked", K <= n)]
            exact = self.exact(c)
            if c.case.get("valid"):
                M = CNUM(A)
                lp.st.assume(utf8_step(A, N, M - K - 1))
            if exact:
                M, pos = self.chars(c)
                out += [("characters of the text", K <= M), ("variant", M - K)]
            ps = lp.intphis()
            for k, v in ps:
                u, s = lp.ex.U(lp.st, v), lp.ex.S(lp.st, v)
                may = [("counts the characters passed", u == K), ("counts down from the number asked", s == n - K), ("within the text", And(s >= -1, s <= N)), ("below the end", s < N)]
                if exact:
                    may += [("before a character", s + 1 == pos(M - K)), ("position of a character", s == pos(M - K)), ("bytes passed", u == N - pos(M - K))]
                else:
                    may += [("a byte each at least", s + K < N)]
                    out += [("variant?", k, s + 1)]
                out += [("maybe", "%s %s" % (k, m[0]), m[1]) for m in may]
                for k2, v2 in ps:
                    out += [("maybe", "%s and %s share the text" % (k, k2), s + lp.ex.U(lp.st, v2) == N - 1), ("maybe", "%s and %s cover the text" % (k, k2), s + lp.ex.U(lp.st, v2) == N)] if k != k2 else []
            return out
        return [l0]

    def result(self, c, rc):
        n = self.ival(c, 1)
        M, pos = self.chars(c)
        neg = [("{C20} a negative count is an error", Imp(n < 0, rc == FAIL))]
        return neg + [(a, Imp(n >= 0, b)) for a, b in self.piece(c, rc, M - mn(n, M), M)]


@contract
class fql_substring(TextFn):
    name = "fql_substring"
    kinds = "sii"

    def lo(self, c):
        M, _ = self.chars(c)
        return mn(mx(self.ival(c, 1) - 1, I(0)), M)

    def start(self, c, which):
        return I(0) if which == 0 else self.lo(c)

    @property
    def loops(self):
        def first(lp):
            return [("before the start", Imp(lp.K > 0, lp.K <= self.ival(lp.root, 1) - 1)), ("maybe", "start", lp.K <= self.ival(lp.root, 1) - 1)]

        def second(lp):
            c = lp.root
            hi = mx(self.ival(c, 1) - 1 + self.ival(c, 2), I(0))
            return [("as many as asked", Imp(lp.K > 0, mx(self.ival(c, 1) - 1, I(0)) + lp.K <= hi))]
        return [scan_loop(self, 0, first), scan_loop(self, 1, second)]

    def result(self, c, rc):
        s, n = self.ival(c, 1), self.ival(c, 2)
        M, pos = self.chars(c)
        neg = [("{C20} a negative length is an error", Imp(n < 0, rc == FAIL))]
        lo = self.lo(c)
        hi = mx(mn(mx(s - 1 + n, I(0)), M), lo)
        return neg + [(a, Imp(n >= 0, b)) for a, b in self.piece(c, rc, lo, hi)]


@contract
class fql_cast_char(TextFn):
    name = "fql_cast_char"
    kinds = "si"
    cases = [("with length", {"n": 2}), ("no length", {"n": 1})]

    def size(self, c, st, n):
        st.assume(n == c.case["n"])

    def assume_only(self, c):
        return [IVAL(self.e(c, 1)) < 2 ** 40]

    def status(self, c):
        return [self.stat(c, i) for i in range(c.case["n"])]

    @property
    def loops(self):
        def l0(lp):
            c = lp.root
            A, N = self.text(c, 0)
            s = Str(c, lp.st, self.rets(c, lp.st))
            return [("text so far valid: " + a, f) for a, f in s.oks()] + [("padded so far", s.size == N + lp.K), ("not longer than asked", s.size <= self.ival(c, 1)),
                    ("the text", forall(0, N, lambda j: s.at(j) == Sel(A, j))), ("blanks", forall(N, s.size, lambda j: s.at(j) == 32)), ("variant", self.ival(c, 1) - s.size)]
        return [l0]

    def result(self, c, rc):
        A, N = self.text(c, 0)
        s = Str(c, c.new, self.rets(c, c.new))
        if c.case["n"] == 1:
            return [("{C20} the whole text", And(rc == GOOD, s.size == N, forall(0, N, lambda j: s.at(j) == Sel(A, j))))]
        n = self.ival(c, 1)
        return [("{C20} a negative length is an error", Imp(n < 0, rc == FAIL)), ("{C20} exactly the length asked for", Imp(n >= 0, And(rc == GOOD, s.size == n))),
                ("{C20} the start of the text", Imp(n >= 0, forall(0, mn(n, N), lambda j: s.at(j) == Sel(A, j)))), ("{C20} padded with blanks", Imp(n >= 0, forall(N, n, lambda j: s.at(j) == 32)))]


@contract
class fql_op_plus_s(TextFn):
    name = "fql_op_plus_s"
    kinds = "ss"
    cases = [("", {})]

    def result(self, c, rc):
        (A, N), (B, M) = self.text(c, 0), self.text(c, 1)
        s = Str(c, c.new, self.rets(c, c.new))
        return [("{C20} both texts in order", And(rc == GOOD, s.size == N + M, forall(0, N, lambda j: s.at(j) == Sel(A, j)), forall(N, N + M, lambda j: s.at(j) == Sel(B, j - N))))]


@contract
class fql_replace(TextFn):
    name = "fql_replace"
    kinds = "sss"
    cases = [("", {})]

    def assume_only(self, c):
        """no intermediate text reaches 4 GB"""
        A, D, K = z3.Const("rp_A", IA), z3.Const("rp_D", IA), z3.Int("rp_K")
        N, m, k = (TLEN(self.e(c, i)) for i in range(3))
        S = stringy.Search.__new__(stringy.Search)
        S.nc, S.A, S.N, S.D, S.dk, S.m, S.k = True, A, N, D, I(0), m, k
        return [z3.ForAll([A, D, K], Imp(And(0 <= K, K <= S.mm()), And(S.oo(K) >= 0, S.oo(K) + N - S.cc(K) < 2 ** 32)), patterns=[S.oo(K)])]

    def result(self, c, rc):
        n = Str(c, c.new, self.rets(c, c.new))
        S = c.new.ghost.get("replaced")
        if S is None:
            return [("{C20} replaces", rc != GOOD)]
        (A, N), (D, m), (R, k) = (self.text(c, i) for i in range(3))
        if S.t is None:
            return [("{C20} replaces", z3.BoolVal(False))]
        M = S.mm()
        return [("{C20} succeeds", rc == GOOD), ("{C20} searches the whole text", And(S.N == N, forall(0, N, lambda j: S.o.at(j) == Sel(A, j)))),
                ("{C20} text sought: end", Sel(S.D, S.dk + m) == 0), ("{C20} text sought: no end before", forall(0, m, lambda j: Sel(S.D, S.dk + j) != 0, pats=lambda j: Sel(S.D, S.dk + j))),
                ("{C20} text searched for: end", And(S.m >= 0, Sel(S.D, S.dk + S.m) == 0)), ("{C20} text searched for: no end before", forall(0, S.m, lambda j: Sel(S.D, S.dk + j) != 0, pats=lambda j: Sel(S.D, S.dk + j))),
                ("{C20} text sought: length", S.m == m), ("{C20} for the text sought", And(S.m == m, forall(0, m, lambda j: Sel(S.D, S.dk + j) == Sel(D, j)))),
                ("{C20} puts in the replacement", And(S.k == k, forall(0, k, lambda j: S.t.at(j) == Sel(R, j)))),
                ("{C20} length of the result", n.size == S.oo(M))] + [("{C20} " + a, f) for a, f in S.con_segs(n, M)]
