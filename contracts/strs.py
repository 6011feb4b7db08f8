"""Texts: C strings, counted strings, occurrences of a needle."""
import z3
from contract import *
from contract import And, Or, Not, Imp, forall, uf
import builtins_c
from builtins_c import low
import vec as V
from vec import Vec, mk_vec

INTS, BOOLS = z3.IntSort(), z3.BoolSort()


def OCC(nc):
    """OCC(nc)(h, i, nd, k, m): the m bytes at nd[k..] occur in h at position i (ignoring case when nc)"""
    return uf("occ_nc" if nc else "occ", IA, INTS, IA, INTS, INTS, BOOLS)


def occ_axioms(nc):
    h, d = z3.Const("ax_h", IA), z3.Const("ax_d", IA)
    i, k, m, j = z3.Ints("ax_i ax_k ax_m ax_j")
    c = low if nc else (lambda x: x)
    P = OCC(nc)(h, i, d, k, m)
    w = uf("occw_nc" if nc else "occw", IA, INTS, IA, INTS, INTS, INTS)(h, i, d, k, m)
    S = z3.Select
    return [z3.ForAll([h, i, d, k, m, j], Imp(And(P, 0 <= j, j < m), c(S(h, i + j)) == c(S(d, k + j))), patterns=[z3.MultiPattern(P, S(d, k + j))]),
            z3.ForAll([h, i, d, k, m, j], Imp(And(P, i <= j, j < i + m), c(S(h, j)) == c(S(d, k + j - i))), patterns=[z3.MultiPattern(P, S(h, j))]),
            z3.ForAll([h, i, d, k, m], Imp(Not(P), And(0 <= w, w < m, c(S(h, i + w)) != c(S(d, k + w)))), patterns=[P])]


def use_occ(st, nc):
    key = "occ_ax%d" % bool(nc)
    if key not in st.ghost:
        st.ghost[key] = z3.BoolVal(True)
        st.assume(*occ_axioms(nc))


@lemma
def occurrence_definition():
    """the occurrence predicate and its witness are a definitional extension: the
    axioms follow from OCC <=> forall j<m. h[i+j] ~ d[k+j]"""
    out = []
    for nc in (0, 1):
        h, d = z3.Const("h", IA), z3.Const("d", IA)
        i, k, m, j, w = z3.Ints("i k m j w")
        c = low if nc else (lambda x: x)
        S = z3.Select
        eq = lambda x: c(S(h, i + x)) == c(S(d, k + x))
        all_ = z3.ForAll([w], Imp(And(0 <= w, w < m), eq(w)))
        out += [("elimination %d" % nc, [all_, 0 <= j, j < m], eq(j)),
                ("elimination at text position %d" % nc, [all_, i <= j, j < i + m], c(S(h, j)) == c(S(d, k + j - i))),
                ("witness %d" % nc, [Not(all_)], z3.Exists([w], And(0 <= w, w < m, Not(eq(w)))))]
    return out


class Str(Vec):
    """a vec of bytes; the byte after the last is NUL"""
    def term(self):
        return self.at(self.size) == 0

    def oks(self, tag=""):
        return self.ok(tag) + [(tag + "NUL-terminated", self.term())]


def mk_str(c, st, name, ro=False, heap=False, text=False):
    p, _ = mk_vec(c, st, name, S=1, fields={0: 1}, ro=ro, heap=heap)
    s = Str(c, st, p)
    st.assume(s.term())
    st.assume(forall(0, s.r.count, lambda i: And(s.at(i) >= 0, s.at(i) < 256), pats=lambda i: s.at(i)))
    if text:
        st.assume(forall(0, s.size, lambda i: s.at(i) != 0))
    return p


def mk_bytes(c, st, name, n=None, ro=True, heap=False):
    """a byte buffer of at least n bytes (exactly n when given)"""
    cnt = z3.Int(fresh_name(name + "_n")) if n is None else n
    r = c.ex.new_region(st, "arr", name, stride=1, count=cnt, heap=heap, ro=ro)
    st.assume(And(cnt >= 0, cnt <= 2 ** 47))
    a = Base(name)
    r.fields[0] = (1, "int", a)
    st.assume(forall(0, cnt, lambda i: And(a.get(i) >= 0, a.get(i) < 256), pats=lambda i: a.get(i)))
    return r, a


def mk_cstr(c, st, name, ro=True, heap=False, exact=False):
    """a NUL-terminated C string; returns (pointer, array, length)"""
    r, a = mk_bytes(c, st, name, ro=ro, heap=heap)
    L = z3.Int(fresh_name(name + "_len"))
    st.assume(And(L >= 0, L < r.count if not exact else L + 1 == r.count, a.get(L) == 0), forall(0, L, lambda i: a.get(i) != 0, pats=lambda i: a.get(i)))
    r.ghost["nul"] = [L]
    r.ghost["cstr"] = L
    return PV(r.rid), a, L


class Txt:
    """a byte buffer argument: .at(i), .k, .r"""
    def __init__(self, c, st, p):
        self.r = st.regions[p.rid]
        self.k, cc = c.ex.resolve(st, self.r, p.off)
        if self.r.kind != "arr" or self.r.stride != 1:
            raise Unsupported("text is not a byte buffer")
        self.arr = builtins_c.getfield(c.ex, self.r, 0, 1, "int")[2]

    def at(self, i):
        return self.arr.get(self.k + i)


def clen(c, st, t, name="len"):
    """length of the C string at t in state st (definition); and the condition that it exists"""
    L = t.r.ghost.get("cstr")
    if L is not None and zc(simp(t.k)) == 0:
        return L, And(t.at(L) == 0, L < t.r.count, forall(0, L, lambda j: t.at(j) != 0))
    return None, None
