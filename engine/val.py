"""Symbolic values: mathematical-integer terms with explicit machine width,
structured pointer offsets, region-based memory."""
import z3, itertools

_ctr = itertools.count()


def reset():
    global _ctr
    _ctr = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_ctr))


def fint(p):
    return z3.Int(fresh_name(p))


def fbool(p):
    return z3.Bool(fresh_name(p))


IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
FS = z3.DeclareSort("F64")


def I(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zc(x):
    """python int if the z3 term is a literal, else None"""
    if isinstance(x, int):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    return None


def simp(x):
    if isinstance(x, int):
        return x
    r = z3.simplify(x)
    return r


class Stride:
    """A symbolic element size E >= 1; CAP = floor(2^47 / E): the largest number
    of elements any live allocation can have on x86-64 Linux."""
    def __init__(self, name):
        self.name = name
        self.t = z3.Int(name)
        self.cap = z3.Int(name + "_cap")

    def axioms(self):
        return [self.t >= 1, self.t <= 2 ** 47, self.cap >= 1, self.cap <= 2 ** 47]

    def __repr__(self):
        return "<%s>" % self.name


class Off:
    """c + sum(stride * term)"""
    __slots__ = ("c", "ts")

    def __init__(self, c=0, ts=None):
        self.c = c
        self.ts = ts or {}

    def __add__(a, b):
        ts = dict(a.ts)
        for k, t in b.ts.items():
            if k in ts:
                n = simp(ts[k] + t)
                if zc(n) == 0:
                    del ts[k]
                else:
                    ts[k] = n
            else:
                ts[k] = t
        c = a.c + b.c
        # fold literal int-stride terms
        for k in list(ts):
            if isinstance(k, int) and zc(ts[k]) is not None:
                c += k * zc(ts[k])
                del ts[k]
            elif not isinstance(k, int) and zc(ts[k]) == 0:
                del ts[k]
        return Off(c, ts)

    def scale(a, n):
        if n == 0:
            return Off()
        ts = {}
        for k, t in a.ts.items():
            if n > 0 and isinstance(k, int):
                ts[k * n] = t
            else:
                ts[k] = simp(t * n)
        return Off(a.c * n, ts)

    def __sub__(a, b):
        nb = Off(-b.c, {k: simp(-t) for k, t in b.ts.items()})
        return a + nb

    def z(self):
        r = I(self.c)
        for k, t in self.ts.items():
            r = r + (t * k if isinstance(k, int) else k.t * t)
        return simp(r)

    def const(self):
        return self.c if not self.ts else None

    def __repr__(self):
        return "Off(%s,%s)" % (self.c, self.ts)


class IV:
    """integer value of `bits` bits. t: a mathematical integer congruent to it
    modulo 2^bits.  u / s: t is known to be the unsigned / signed value."""
    __slots__ = ("bits", "_t", "u", "s", "lin", "ptr")

    def __init__(self, bits, t=None, u=False, s=False, lin=None, ptr=None):
        self.bits = bits
        self._t = I(t) if t is not None else None
        self.u, self.s, self.lin, self.ptr = u, s, lin, ptr
        if t is not None:
            c = zc(self._t)
            if c is not None:
                self.u = 0 <= c < 2 ** bits
                self.s = -2 ** (bits - 1) <= c < 2 ** (bits - 1)

    @property
    def t(self):
        if self._t is None:
            self._t = self.lin.z()
        return self._t

    def const(self):
        if self._t is None:
            return None
        return zc(self._t)

    def __repr__(self):
        return "i%d(%s)" % (self.bits, self._t if self._t is not None else self.lin)


class FV:
    """a double: an uninterpreted value"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "f(%s)" % self.t


class PV:
    """pointer: region id + structured byte offset; rid None = NULL"""
    __slots__ = ("rid", "off")

    def __init__(self, rid, off=None):
        self.rid = rid
        self.off = off or Off()

    def __repr__(self):
        return "&%s+%s" % (self.rid, self.off)


NULL = PV(None)


class FnP:
    """function pointer: a named function, or (contract=...) any function
    satisfying the named contract"""
    __slots__ = ("name", "contract", "data")

    def __init__(self, name=None, contract=None, data=None):
        self.name, self.contract, self.data = name, contract, data

    def __repr__(self):
        return "fn:%s" % (self.name or self.contract)


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Poison:
    def __repr__(self):
        return "poison"


POISON = Poison()


# ------------------------------------------------------------------ arrays
class Arr:
    """finite-map content of an array field, as a closure over base arrays"""
    def get(self, i):
        raise NotImplementedError

    def z3(self, hyps):
        raise NotImplementedError


class Base(Arr):
    def __init__(self, name=None, a=None):
        self.a = a if a is not None else z3.Const(fresh_name(name), IA)

    def get(self, i):
        return z3.Select(self.a, I(i))

    def z3(self, hyps):
        return self.a


class St(Arr):
    def __init__(self, a, i, v):
        self.p, self.i, self.v = a, I(i), I(v)

    def get(self, j):
        j = I(j)
        d = zc(simp(j - self.i))
        if d == 0:
            return self.v
        if d is not None:
            return self.p.get(j)
        return z3.If(j == self.i, self.v, self.p.get(j))

    def z3(self, hyps):
        return z3.Store(self.p.z3(hyps), self.i, self.v)


class Cp(Arr):
    """p with [lo,lo+n) replaced by src[slo..]"""
    def __init__(self, p, lo, n, src, slo):
        self.p, self.lo, self.n, self.src, self.slo = p, I(lo), I(n), src, I(slo)
        self._z = None

    def get(self, j):
        j = I(j)
        c = simp(z3.And(self.lo <= j, j < self.lo + self.n))
        s = simp(j - self.lo + self.slo)
        if z3.is_true(c):
            return self.src.get(s)
        if z3.is_false(c):
            return self.p.get(j)
        return z3.If(c, self.src.get(s), self.p.get(j))

    def z3(self, hyps):
        if self._z is None:
            a = z3.Const(fresh_name("cp"), IA)
            j = z3.Int(fresh_name("j"))
            self._z = (a, z3.ForAll([j], z3.Select(a, j) == self.get(j), patterns=[z3.Select(a, j)]))
        if not any(h is self._z[1] for h in hyps):
            hyps.append(self._z[1])
        return self._z[0]


class Fl(Cp):
    def __init__(self, p, lo, n, v):
        self.p, self.lo, self.n, self.v = p, I(lo), I(n), I(v)
        self._z = None

    def get(self, j):
        j = I(j)
        c = simp(z3.And(self.lo <= j, j < self.lo + self.n))
        if z3.is_true(c):
            return self.v
        if z3.is_false(c):
            return self.p.get(j)
        return z3.If(c, self.v, self.p.get(j))


class Region:
    """memory of one allocation.
    kind 'cell': const-size struct, cells {off: (size, value)}
    kind 'arr' : `count` elements of `stride` bytes, fields {off: [size, ftype, Arr]}
    ftype: 'int' | ('ptr', region id): pointer fields are stored as offsets/target-stride
    nullable: offset 0 of this region stands for the NULL pointer (pools, flat memory)
    """
    __slots__ = ("rid", "kind", "name", "size", "stride", "count", "cells", "fields", "alive", "heap",
                 "ro", "nullable", "zero", "ghost", "hooks", "opaque", "free_ok", "lenaware")

    def __init__(self, rid, kind, name, **kw):
        self.rid, self.kind, self.name = rid, kind, name
        self.size = kw.get("size")
        self.stride = kw.get("stride")
        self.count = kw.get("count")
        self.cells = {}
        self.fields = {}
        self.alive = True
        self.heap = kw.get("heap", False)
        self.ro = kw.get("ro", False)
        self.nullable = kw.get("nullable", False)
        self.zero = []
        self.ghost = {}
        self.hooks = kw.get("hooks")
        self.opaque = kw.get("opaque", False)
        self.free_ok = kw.get("free_ok", False)

    def copy(self):
        r = Region.__new__(Region)
        for s in Region.__slots__:
            if hasattr(self, s):
                setattr(r, s, getattr(self, s))
        r.cells = dict(self.cells)
        r.fields = dict(self.fields)
        r.ghost = dict(self.ghost)
        r.zero = list(self.zero)
        return r
