"""Trusted models (contracts) of the C library functions the code calls."""
import z3
from val import *
from sx import *
from sx import And, Or, Not, Imp, forall, uf
import sx

TABLE = {}
TRUST = {}


def model(*names, note=""):
    def d(f):
        for n in names:
            TABLE[n] = f
            TRUST[n] = note or (f.__doc__ or "").strip().split("\n")[0]
        return f
    return d


MAXA = 2 ** 47


def intrinsic(name):
    if name.startswith("llvm.memcpy"):
        return lambda ex, st, a, i: copy(ex, st, a[0], a[1], a[2], False)
    if name.startswith("llvm.memmove"):
        return lambda ex, st, a, i: copy(ex, st, a[0], a[1], a[2], True)
    if name.startswith("llvm.memset"):
        return lambda ex, st, a, i: fill(ex, st, a[0], a[1], a[2])
    if name.startswith("llvm.stacksave"):
        return lambda ex, st, a, i: PV(ex.opq(st), Off(0, {1: fint("stack")}))
    if name.startswith("llvm.stackrestore"):
        return lambda ex, st, a, i: None
    if name.startswith("llvm.expect"):
        return lambda ex, st, a, i: a[0]
    if name.startswith("llvm.assume"):
        return lambda ex, st, a, i: None
    for nm, f in (("smax", lambda x, y: z3.If(x > y, x, y)), ("smin", lambda x, y: z3.If(x < y, x, y))):
        if name.startswith("llvm." + nm):
            return lambda ex, st, a, i, f=f: IV(a[0].bits, f(ex.S(st, a[0]), ex.S(st, a[1])), s=True)
    for nm, f in (("umax", lambda x, y: z3.If(x > y, x, y)), ("umin", lambda x, y: z3.If(x < y, x, y))):
        if name.startswith("llvm." + nm):
            return lambda ex, st, a, i, f=f: IV(a[0].bits, f(ex.U(st, a[0]), ex.U(st, a[1])), u=True)
    if name.startswith("llvm.abs"):
        return lambda ex, st, a, i: IV(a[0].bits, z3.If(ex.S(st, a[0]) < 0, -ex.S(st, a[0]), ex.S(st, a[0])))
    if name.startswith("llvm.va_"):
        return lambda ex, st, a, i: None
    if name.startswith("llvm.fmuladd") or name.startswith("llvm.trap"):
        def f(ex, st, a, i):
            raise Unsupported(name)
        return f
    for op, signed in (("sadd", True), ("uadd", False), ("ssub", True), ("usub", False), ("smul", True), ("umul", False)):
        if name.startswith("llvm.%s.with.overflow" % op):
            return lambda ex, st, a, i, op=op, sg=signed: with_overflow(ex, st, a, op[1:], sg)
    return None


def with_overflow(ex, st, a, op, signed):
    n = a[0].bits
    x, y = (ex.S(st, a[0]), ex.S(st, a[1])) if signed else (ex.U(st, a[0]), ex.U(st, a[1]))
    t = {"add": x + y, "sub": x - y, "mul": x * y}[op]
    lo, hi = (-2 ** (n - 1), 2 ** (n - 1)) if signed else (0, 2 ** n)
    ov = Not(And(t >= lo, t < hi))
    r = fint("wov")
    st.assume(And(r >= lo, r < hi, Imp(Not(ov), r == t)))
    if op != "mul":
        st.assume(Imp(And(ov, t >= hi), r == t - 2 ** n), Imp(And(ov, t < lo), r == t + 2 ** n))
    return Agg([IV(n, r, u=not signed, s=signed), z3.simplify(ov)])


# ---------------------------------------------------------------- allocation
def size_elems(ex, st, n):
    """(stride, count) described by a byte-size value"""
    if n.lin is not None and n.lin.ts:
        ks = list(n.lin.ts)
        sym = [k for k in ks if not isinstance(k, int)]
        if sym:
            if len(ks) == 1 and n.lin.c == 0:
                ex.U(st, n)
                return sym[0], n.lin.ts[sym[0]]
            raise Unsupported("allocation size")
        if len(ks) == 1 and ks[0] > 1 and n.lin.c % ks[0] == 0 and ex.inrange(st, IV(64, n.t), False):
            return ks[0], simp(n.lin.ts[ks[0]] + n.lin.c // ks[0])
    return 1, ex.U(st, n)


def alloc_ok(st, stride, count):
    if isinstance(stride, int):
        st.assume(And(count >= 0, count * stride <= MAXA))
    else:
        st.assume(And(count >= 0, count <= stride.cap))


def mk_pool(ex, st, name, stride, fields):
    """all structs of one type as one region: object k lies at k * stride, k = 0 is NULL;
    the ghost array `live` tells which are allocated. fields {offset: (size, 'int' or 'self')}"""
    r = ex.new_region(st, "arr", name, stride=stride, count=fint(name + "_n"), nullable=True, heap=True)
    st.assume(And(r.count >= 1, r.count <= 2 ** 47))
    for o, (n, t) in fields.items():
        r.fields[o] = (n, ("ptr", r.rid) if t == "self" else t, Base(name + "_f%d" % o))
    r.ghost["live"] = Base(name + "_live")
    r.ghost["pool_free"] = pool_free
    ex.pools[stride] = ex.pool_of[name] = r.rid
    return r


def pool_alloc(ex, st, rid, zero):
    r = st.regions[rid]
    k = fint("obj")
    st.assume(And(k >= 1, k < r.count, r.ghost["live"].get(k) == 0))
    r.ghost["live"] = St(r.ghost["live"], k, I(1))
    if zero:
        for o, f in r.fields.items():
            r.fields[o] = (f[0], f[1], St(f[2], k, I(0)))
    return PV(rid, Off(0, {r.stride: k}))


def pool_free(ex, st, r, p):
    k, c = ex.resolve(st, r, p.off)
    ex.oblige(st, And(c == 0, k >= 0, k < r.count, Or(k == 0, r.ghost["live"].get(k) != 0)), "memory", "free of an allocated %s" % r.name)
    r.ghost["live"] = St(r.ghost["live"], k, I(0))


@model("malloc")
def malloc(ex, st, a, ins, zero=False):
    """malloc: NULL or a fresh block of the requested size (never larger than 2^47 bytes)"""
    n = a[0]
    s2 = st.copy()
    c = n.const()
    if c is not None and c in ex.pools:
        p = pool_alloc(ex, st, ex.pools[c], zero)
        return p if ex.no_oom else [(st, p), (s2, NULL)]
    if c is not None:
        r = ex.new_region(st, "cell", "heap", size=c, heap=True)
        if zero:
            r.zero.append((0, c))
    else:
        stride, cnt = size_elems(ex, st, n)
        r = ex.new_region(st, "arr", "heap", stride=stride, count=cnt, heap=True)
        alloc_ok(st, stride, cnt)
        if zero:
            r.zero.append(("fill", I(0), cnt, I(0)))
    if ex.alloc_hook:
        ex.alloc_hook(ex, st, r)
    if ex.no_oom:
        return PV(r.rid)
    return [(st, PV(r.rid)), (s2, NULL)]


@model("calloc")
def calloc(ex, st, a, ins):
    """calloc: as malloc, zero filled"""
    c0, c1 = a[0].const(), a[1].const()
    if c0 is not None and c1 is not None:
        return malloc(ex, st, [IV(64, c0 * c1)], ins, True)
    if c1 is not None:
        return malloc(ex, st, [IV(64, simp(a[0].t * c1), lin=Off(0, {c1: ex.U(st, a[0])}))], ins, True)
    if c0 is not None:
        return malloc(ex, st, [IV(64, simp(a[1].t * c0), lin=Off(0, {c0: ex.U(st, a[1])}))], ins, True)
    raise Unsupported("calloc")


@model("realloc")
def realloc(ex, st, a, ins):
    """realloc: NULL (old block kept) or a block with the old contents; the old block dies"""
    p, n = a
    if isinstance(p, PV) and p.rid is None:
        return malloc(ex, st, [n], ins)
    r = ex.getr(st, p, "realloc")
    ex.oblige(st, r.heap, "memory", "realloc of a heap block")
    if p.off.const() != 0:
        ex.oblige(st, p.off.z() == 0, "memory", "realloc of the start of a block")
    s2 = st.copy()
    if r.kind == "cell":
        raise Unsupported("realloc of struct")
    S = r.stride
    if isinstance(S, int):
        stride, cnt = size_elems(ex, st, n)
        if stride == S:
            pass
        elif isinstance(stride, int) and stride % S == 0:
            cnt = cnt * (stride // S)
        elif n.const() is not None:
            cnt = I(n.const() // S)
        elif isinstance(stride, int):
            cnt = simp(ex.U(st, n) / S)
        else:
            raise Unsupported("realloc size")
    else:
        ex.U(st, n) if n.lin is not None else None
        if n.lin is None or list(n.lin.ts) != [S] or n.lin.c != 0:
            raise Unsupported("realloc size is not a multiple of the element size")
        cnt = n.lin.ts[S]
    r2 = r.copy()
    r2.rid = fresh_name(r.name)
    r2.count = simp(cnt)
    st.regions[r2.rid] = r2
    r.alive = False
    alloc_ok(st, S, cnt)
    ex.oblige(st, cnt >= 0, "memory", "realloc size")
    if ex.no_oom:
        return PV(r2.rid)
    return [(st, PV(r2.rid)), (s2, NULL)]


@model("free")
def free(ex, st, a, ins):
    """free"""
    p = a[0]
    if isinstance(p, PV) and p.rid is None:
        return None
    if isinstance(p, PV) and p.rid == "opq":
        st.events.append(("free", p))
        return None
    r = ex.getr(st, p, "free")
    if r.ghost.get("pool_free"):
        r.ghost["pool_free"](ex, st, r, p)
        return None
    ex.oblige(st, bool(r.heap), "memory", "free of a heap block (%s)" % r.name)
    if p.off.const() != 0:
        ex.oblige(st, p.off.z() == 0, "memory", "free of the start of a block")
    r.alive = False
    return None


@model("exit", "abort", "_exit")
def exit_(ex, st, a, ins):
    """exit/abort: does not return"""
    raise PathEnd()


@model("__assert_fail")
def assert_fail(ex, st, a, ins):
    """assert: must be unreachable"""
    ex.oblige(st, z3.BoolVal(False), "assert", "assertion in the code")
    raise PathEnd()


@model("perror", "fputs", "puts", "fprintf", "fputc", "putchar", "printf", "fflush", "putc", note="diagnostic output only")
def noeff(ex, st, a, ins):
    st.events.append((ins.extra, a))
    if ins.ty and ins.ty != "void":
        return ex.fresh_iv(st, 32, "io", True)
    return None


# ---------------------------------------------------------------- files
@model("fwrite")
def fwrite(ex, st, a, ins):
    """fwrite: reads the bytes it is given; they are what is written"""
    p, w, n, f = a
    b = ex.U(st, w) * ex.U(st, n)
    log = st.ghost.get("written")           # (file, log region, counter region): what the contract watches
    watched = log is not None and isinstance(f, PV) and f.rid == log[0].rid and f.off.const() == log[0].off.const()
    r = None
    if isinstance(p, PV) and (p.rid is None or p.rid == "opq"):
        ex.oblige(st, b == 0, "memory", "write through NULL has length 0")
        k = I(0)
    else:
        r = ex.getr(st, p, "write to a file")
        if r.kind == "cell":
            o = p.off.const()
            ex.oblige(st, And(o + b <= r.size, o >= 0), "memory", "bytes written to a file lie in %s" % r.name)
            k = None
        else:
            k, c = ex.resolve(st, r, p.off)
            if r.stride != 1:
                raise Unsupported("file output of typed objects")
            ex.oblige(st, Or(b == 0, And(k >= 0, k + b <= r.count)), "memory", "bytes written to a file lie in %s" % r.name)
    of = st.ghost.get("outfile")            # (file, bytes region, position region): a file whose bytes the contract follows
    if of is not None and isinstance(f, PV) and f.rid == of[0].rid and f.off.const() == of[0].off.const():
        br, pr = st.regions[of[1]], st.regions[of[2]]
        pos = ex.U(st, pr.cells[0][1])
        fl = br.fields[0]
        if r is None:
            arr = fl[2]
        elif k is None:
            cn = simp(b)
            if not z3.is_int_value(cn):
                raise Unsupported("file output of part of an object")
            v = r.cells.get(o)
            if v is None or v[0] != cn.as_long():
                raise Unsupported("file output of part of an object")
            x = uf("f2bits", FS, z3.IntSort())(v[1].t) if isinstance(v[1], FV) else ex.U(st, v[1])
            arr = fl[2]
            for j in range(cn.as_long()):
                arr = St(arr, pos + j, sx.byte(x, j))
        else:
            arr = Cp(fl[2], pos, b, r.fields[0][2], k)
        br.fields[0] = (fl[0], fl[1], arr)
        pr.cells[0] = (8, IV(64, pos + b, u=True))
    if watched:
        lr, cr = st.regions[log[1]], st.regions[log[2]]
        if k is None:
            raise Unsupported("file output of typed objects")
        n0 = ex.U(st, cr.cells[0][1])
        src = lr.ghost["source"]            # the block the texts written are expected to come from
        ok = I(1) if r is not None and r.rid == src else z3.If(b == 0, I(1), I(0))
        for o, v in ((0, k), (8, b), (16, ok)):
            fl = lr.fields[o]
            lr.fields[o] = (fl[0], fl[1], St(fl[2], n0, v))
        cr.cells[0] = (8, IV(64, n0 + 1, u=True))
    return IV(64, ex.U(st, n), u=True)


@model("open")
def open_(ex, st, a, ins):
    """open: a descriptor or -1"""
    r = ex.fresh_iv(st, 32, "fd", True)
    st.assume(ex.S(st, r) >= -1)
    return r


@model("fstat")
def fstat(ex, st, a, ins):
    """fstat: fills in the size of the file (never negative), or fails with -1"""
    r = ex.getr(st, a[1], "fstat")
    r.cells.clear()
    sz = ex.fresh_iv(st, 64, "st_size", True)
    st.assume(ex.S(st, sz) >= 0, ex.S(st, sz) < MAXA)
    r.cells[48] = (8, sz)
    rc = ex.fresh_iv(st, 32, "fstat", True)
    st.assume(Or(ex.S(st, rc) == 0, ex.S(st, rc) == -1))
    st.ghost["st_size"] = ex.S(st, sz)
    return rc


@model("mmap")
def mmap(ex, st, a, ins):
    """mmap of a file for reading: as many bytes as asked for, or MAP_FAILED"""
    n = ex.U(st, a[1])
    bad = st.copy()
    r = ex.new_region(st, "arr", "mapped", stride=1, count=n, ro=True)
    b = Base("mapped")
    r.fields[0] = (1, "int", b)
    st.assume(n > 0, forall(0, n, lambda i: And(b.get(i) >= 0, b.get(i) < 256), pats=lambda i: b.get(i)))
    return [(st, PV(r.rid)), (bad, PV(ex.opq(bad), Off(0, {1: I(2 ** 64 - 1)})))]


@model("madvise", "munmap", "close")
def fdcall(ex, st, a, ins):
    """madvise, munmap, close: no effect on the memory the code uses afterwards"""
    return ex.fresh_iv(st, 32, "rc", True)


# ---------------------------------------------------------------- blocks
def elems(ex, st, r, n):
    """number of elements of region r that n bytes make"""
    S = r.stride
    c = n.const()
    if isinstance(S, int):
        if S == 1:
            return ex.U(st, n)
        if c is not None:
            if c % S == 0:
                return I(c // S)
            raise Unsupported("byte count %d is not a multiple of the element size of %s" % (c, r.name))
        if n.lin is not None and all(isinstance(k, int) and k % S == 0 for k in n.lin.ts) and n.lin.c % S == 0:
            if ex.inrange(st, IV(64, n.t), False):
                return simp(sum([t * (k // S) for k, t in n.lin.ts.items()], I(n.lin.c // S)))
        u = ex.U(st, n)
        if ex.implied(st, u % S == 0):
            return simp(u / S)
        raise Unsupported("byte count is not a multiple of the element size of %s" % r.name)
    if c == 0:
        return I(0)
    if n.lin is None or list(n.lin.ts) != [S] or n.lin.c != 0:
        raise Unsupported("byte count is not a multiple of the element size of %s" % r.name)
    k = n.lin.ts[S]
    ex.oblige(st, k >= 0, "memory", "non-negative block length")
    return k


def getfield(ex, r, o, n, ft):
    f = r.fields.get(o)
    if f is None:
        b = Base(r.name + "_f%s" % (o,))
        for z in r.zero:
            if z[0] == "fill":
                b = Fl(b, z[1], z[2], pat(z[3], n))
        if r.ghost.get("sealed"):
            raise Unsupported("late-typed field of %s" % r.name)
        f = (n, ft, b)
        r.fields[o] = f
    return f


def pat(byte, n):
    c = zc(byte)
    if c is None:
        if n == 1:
            return byte
        raise Unsupported("memset pattern")
    c &= 255
    return I(int.from_bytes(bytes([c]) * n, "little"))


# make load/store use the same lazily-typed-field rule
_orig_load_arr = Exec.load_arr
_orig_store_arr = Exec.store_arr


def _chk(r, c, n):
    if isinstance(r.stride, int) and any(isinstance(o, int) and o != c and o < c + n and c < o + r.fields[o][0] for o in r.fields):
        raise Unsupported("overlapping access in %s at +%d" % (r.name, c))


def load_arr(self, st, r, k, c, n, ty):
    if c not in r.fields:
        _chk(r, c, n)
        if ty == "ptr":
            if r.ghost.get("fnptrs"):
                # an entry of a table of addresses: an address nothing is known of (it cannot be called or read through)
                self.oblige(st, And(k >= 0, k < r.count), "memory", "entry of %s" % r.name)
                return PV(self.opq(st), Off(0, {1: fint("entry")}))
            if any(z[0] == "fill" and zc(z[3]) == 0 for z in r.zero):
                raise Unsupported("untyped zeroed pointers")
            raise Unsupported("untyped pointer field in %s at +%d" % (r.name, c))
        getfield(self, r, c, n, "int")
    return _orig_load_arr(self, st, r, k, c, n, ty)


def store_arr(self, st, r, k, c, n, v, ty=None):
    if c not in r.fields:
        _chk(r, c, n)
        ft = "int"
        if isinstance(v, PV) and v.rid not in (None, "opq"):
            ft = ("ptr", v.rid)
        getfield(self, r, c, n, ft)
    return _orig_store_arr(self, st, r, k, c, n, v, ty)


Exec.load_arr = load_arr
Exec.store_arr = store_arr


def copy(ex, st, d, s, n, move):
    if n.const() == 0:
        return d
    for p in (d, s):
        if isinstance(p, PV) and (p.rid is None or p.rid == "opq"):
            # only a zero-length copy may use it
            if n.lin is not None and n.ptr is None and n._t is None:
                z = And(*[t == 0 for t in n.lin.ts.values()]) if n.lin.c == 0 else z3.BoolVal(False)
            else:
                z = ex.U(st, n) == 0
            ex.oblige(st, z, "memory", "block copy through NULL/unknown pointer has length 0")
            return d
    rd = ex.getr(st, d, "block write")
    rs = ex.getr(st, s, "block read")
    if rd.ro or rd.opaque:
        ex.oblige(st, z3.BoolVal(False), "memory", "block write to read-only %s" % rd.name)
        raise PathEnd()
    if rs.opaque:
        ex.oblige(st, z3.BoolVal(False), "memory", "block read through opaque pointer")
        raise PathEnd()
    if rd.kind == "arr" and rs.kind == "arr":
        if rd.stride is not rs.stride and rd.stride != rs.stride:
            if rd.heap and not rd.fields and not rd.zero and isinstance(rd.stride, int) and isinstance(rs.stride, int):
                # untyped fresh block takes the layout of what is copied into it
                cnt = rd.count * rd.stride
                rd.count = simp(cnt / rs.stride) if rs.stride > rd.stride else simp(cnt)
                rd.stride = rs.stride
            else:
                raise Unsupported("copy between %s and %s of different element size" % (rs.name, rd.name))
        kd, cd = ex.resolve(st, rd, d.off)
        ks, cs = ex.resolve(st, rs, s.off)
        S = rd.stride
        if cd or cs:
            c = n.const()
            if c is None or cd + c > S or cs + c > S:
                raise Unsupported("partial element copy")
            ex.oblige(st, And(kd >= 0, kd < rd.count), "memory", "block write of %s in bounds" % rd.name)
            ex.oblige(st, And(ks >= 0, ks < rs.count), "memory", "block read of %s in bounds" % rs.name)
            for o, f in list(rs.fields.items()):
                if cs <= o < cs + c:
                    g = getfield(ex, rd, o - cs + cd, f[0], f[1])
                    rd.fields[o - cs + cd] = (g[0], g[1], St(g[2], kd, f[2].get(ks)))
            return d
        m = elems(ex, st, rd, n)
        ex.oblige(st, Or(m == 0, And(kd >= 0, kd + m <= rd.count)), "memory", "block write of %s in bounds" % rd.name)
        ex.oblige(st, Or(m == 0, And(ks >= 0, ks + m <= rs.count)), "memory", "block read of %s in bounds" % rs.name)
        if not move and rd is rs:
            ex.oblige(st, Or(m == 0, kd + m <= ks, ks + m <= kd, kd == ks), "memory", "memcpy blocks do not overlap in %s" % rd.name)
        if not rd.fields and not rs.fields and not isinstance(S, int):
            getfield(ex, rs, 0, S, "int")
        mc = zc(m)
        for o in sorted(set(rs.fields) | set(rd.fields), key=str):
            f = rs.fields.get(o) or getfield(ex, rs, o, rd.fields[o][0], rd.fields[o][1])
            g = rd.fields.get(o) or getfield(ex, rd, o, f[0], f[1])
            if g[1] != f[1]:
                if g[1] == "int" and isinstance(g[2], Base):
                    g = (f[0], f[1], g[2])
                else:
                    raise Unsupported("copy between differently typed fields")
            if mc is not None and mc <= 4:
                new = g[2]
                vals = [f[2].get(simp(ks + i)) for i in range(mc)]
                for i in range(mc):
                    new = St(new, simp(kd + i), vals[i])
                    if rd.hooks:
                        rd.fields[o] = (g[0], g[1], new)
                        rd.hooks(ex, st, rd, o, simp(kd + i), vals[i])
            else:
                new = Cp(g[2], kd, m, f[2], ks)
                if rd.hooks and not ex.implied(st, m == 0):
                    ex.notes.add("block copy over hooked region")
                    raise Unsupported("block copy over hooked region")
            rd.fields[o] = (g[0], g[1], new)
        if isinstance(S, int) and S > 1:
            rd.ghost["sealed"] = True
        return d
    c = n.const()
    if c is None:
        if rs.kind == "cell" and rd.kind == "arr" and not isinstance(rd.stride, int):
            pass
        raise Unsupported("variable-size struct copy (%s <- %s)" % (rd.name, rs.name))
    if rd.kind == "arr" and rs.kind == "cell":
        kd, cd = ex.resolve(st, rd, d.off)
        o = s.off.const()
        if o is None or not isinstance(rd.stride, int) or cd + c > rd.stride:
            raise Unsupported("struct-to-array copy")
        ex.oblige(st, And(kd >= 0, kd < rd.count), "memory", "block write of %s in bounds" % rd.name)
        ex.oblige(st, z3.BoolVal(o >= 0 and o + c <= rs.size), "memory", "block read of %s in bounds" % rs.name)
        vals = {}
        for fo in list(rd.fields):
            if cd <= fo and fo + rd.fields[fo][0] <= cd + c and (fo - cd + o) not in rs.cells:
                vals[fo] = ex.load_cell(st, rs, fo - cd + o, rd.fields[fo][0], "ptr" if rd.fields[fo][1] != "int" else "i64")
        for co, (sz, v) in sorted(rs.cells.items()):
            if o <= co and co + sz <= o + c:
                vals.pop(co - o + cd, None)
                ex.store_arr(st, rd, kd, co - o + cd, sz, v)
        for fo, v in vals.items():
            ex.store_arr(st, rd, kd, fo, rd.fields[fo][0], v)
        return d
    if rd.kind == "cell" and rs.kind == "arr":
        ks, cs = ex.resolve(st, rs, s.off)
        o = d.off.const()
        if o is None or not isinstance(rs.stride, int):
            raise Unsupported("array-to-struct copy")
        ex.oblige(st, z3.BoolVal(o >= 0 and o + c <= rd.size), "memory", "block write of %s in bounds" % rd.name)
        if rs.stride == 1 and 1 < c <= 16:
            ex.oblige(st, And(ks >= 0, ks + c <= rs.count), "memory", "block read of %s in bounds" % rs.name)
            f = getfield(ex, rs, 0, 1, "int")
            for i in range(c):
                ex.store_cell(st, rd, o + i, 1, ex.dec(st, f, f[2].get(simp(ks + i)), "i8", 1))
            return d
        if cs + c > rs.stride:
            raise Unsupported("array-to-struct copy of several elements")
        ex.oblige(st, And(ks >= 0, ks < rs.count), "memory", "block read of %s in bounds" % rs.name)
        for fo, f in list(rs.fields.items()):
            if cs <= fo and fo + f[0] <= cs + c:
                v = ex.dec(st, f, f[2].get(ks), "ptr" if f[1] != "int" else "i%d" % (8 * f[0]), f[0])
                ex.store_cell(st, rd, o + fo - cs, f[0], v)
        return d
    od, os_ = d.off.const(), s.off.const()
    if od is None or os_ is None:
        raise Unsupported("struct copy at variable offset")
    ex.oblige(st, z3.BoolVal(od >= 0 and od + c <= rd.size), "memory", "block write of %s in bounds" % rd.name)
    ex.oblige(st, z3.BoolVal(os_ >= 0 and os_ + c <= rs.size), "memory", "block read of %s in bounds" % rs.name)
    cells = [(co - os_ + od, sz, v) for co, (sz, v) in rs.cells.items() if os_ <= co and co + sz <= os_ + c]
    for x in [x for x, (sz, _) in rd.cells.items() if od <= x and x + sz <= od + c]:
        del rd.cells[x]
    for x, sz, v in cells:
        ex.store_cell(st, rd, x, sz, v)
    for z in rs.zero:
        if z[0] != "fill":
            lo, hi = max(z[0], os_), min(z[1], os_ + c)
            if lo < hi:
                rd.zero.append((lo - os_ + od, hi - os_ + od))
    return d


def fill(ex, st, d, b, n):
    if n.const() == 0:
        return d
    rd = ex.getr(st, d, "block write")
    if rd.ro or rd.opaque:
        ex.oblige(st, z3.BoolVal(False), "memory", "block write to read-only %s" % rd.name)
        raise PathEnd()
    byte = simp(ex.U(st, b) % 256)
    if rd.kind == "arr":
        k, c = ex.resolve(st, rd, d.off)
        if c:
            raise Unsupported("memset inside an element")
        m = elems(ex, st, rd, n)
        ex.oblige(st, Or(m == 0, And(k >= 0, k + m <= rd.count)), "memory", "block fill of %s in bounds" % rd.name)
        if not isinstance(rd.stride, int):
            f = getfield(ex, rd, 0, rd.stride, "int")
            z = uf("elem_of_byte", INT, INT)(byte) if zc(byte) != 0 else I(0)
            rd.fields[0] = (f[0], f[1], Fl(f[2], k, m, z))
            return d
        for o, f in list(rd.fields.items()):
            if not isinstance(o, int):
                continue
            if f[1] != "int" and not (zc(byte) == 0 and st.regions[f[1][1]].nullable):
                raise Unsupported("memset over pointers")
            rd.fields[o] = (f[0], f[1], Fl(f[2], k, m, pat(byte, f[0])))
        rd.zero.append(("fill", k, m, byte))
        if rd.hooks:
            rd.hooks(ex, st, rd, "fill", (k, m), byte)
        return d
    o, c = d.off.const(), n.const()
    if o is None or c is None:
        raise Unsupported("memset of struct at variable offset/size")
    ex.oblige(st, z3.BoolVal(o >= 0 and o + c <= rd.size), "memory", "block fill of %s in bounds" % rd.name)
    if zc(byte) == 0:
        for x in [x for x, (sz, _) in rd.cells.items() if o <= x and x + sz <= o + c]:
            del rd.cells[x]
        if any(x < o + c and o < x + sz for x, (sz, _) in rd.cells.items()):
            raise Unsupported("memset over part of a member")
        rd.zero.append((o, o + c))
        return d
    for x, (sz, v) in list(rd.cells.items()):
        if o <= x and x + sz <= o + c:
            rd.cells[x] = (sz, IV(8 * sz, pat(byte, sz), u=True))
        elif x < o + c and o < x + sz:
            raise Unsupported("memset over part of a member")
    return d


@model("memcpy")
def memcpy(ex, st, a, ins):
    """memcpy: byte copy, blocks must not overlap"""
    return copy(ex, st, a[0], a[1], a[2], False) or a[0]


@model("memmove")
def memmove(ex, st, a, ins):
    """memmove: byte copy"""
    return copy(ex, st, a[0], a[1], a[2], True) or a[0]


@model("memset")
def memset(ex, st, a, ins):
    """memset: byte fill"""
    return fill(ex, st, a[0], a[1], a[2]) or a[0]


# ---------------------------------------------------------------- bytes
def bytes_at(ex, st, p, what, n=None):
    """(region, array, start) of a byte buffer; obliges n bytes readable"""
    if isinstance(p, PV) and (p.rid is None or p.rid == "opq") and n is not None:
        ex.oblige(st, n == 0, "memory", "%s through NULL/unknown pointer has length 0" % what)
        return None, Base("nobytes"), I(0)
    r = ex.getr(st, p, what)
    if r.opaque:
        ex.oblige(st, z3.BoolVal(False), "memory", "%s through opaque pointer" % what)
        raise PathEnd()
    if r.kind != "arr" or r.stride != 1:
        raise Unsupported("%s: %s is not a byte buffer" % (what, r.name))
    k, c = ex.resolve(st, r, p.off)
    f = getfield(ex, r, 0, 1, "int")
    if n is not None:
        ex.oblige(st, Or(n == 0, And(k >= 0, k + n <= r.count)), "memory", "%s of %s in bounds" % (what, r.name))
    return r, f[2], k


def rng8(st, a, i):
    v = a.get(i)
    st.assume(And(v >= 0, v < 256))
    return v


def cmp_model(ex, st, a, ka, b, kb, n, canon=None):
    """fresh result of comparing bytes a[ka..ka+n) with b[kb..kb+n)"""
    canon = canon or (lambda x: x)
    r, w = fint("cmp"), fint("cw")
    st.assume(And(r >= -2 ** 31, r < 2 ** 31))
    # the equality direction is stated over positions of either buffer, so that terms of both trigger it
    st.assume(Imp(r == 0, forall(0, n, lambda j: canon(a.get(ka + j)) == canon(b.get(kb + j)))))
    if zc(simp(ka)) != 0:
        st.assume(Imp(r == 0, forall(ka, ka + n, lambda j: canon(a.get(j)) == canon(b.get(j - ka + kb)))))
    if zc(simp(kb)) != 0:
        st.assume(Imp(r == 0, forall(kb, kb + n, lambda j: canon(b.get(j)) == canon(a.get(j - kb + ka)))))
    st.assume(Imp(r != 0, And(w >= 0, w < n, canon(a.get(ka + w)) != canon(b.get(kb + w)),
                              (r < 0) == (canon(a.get(ka + w)) < canon(b.get(kb + w))),
                              forall(0, w, lambda j: canon(a.get(ka + j)) == canon(b.get(kb + j))))))
    for i, x in ((ka + w, a), (kb + w, b)):
        v = x.get(i)
        st.assume(And(v >= 0, v < 256))
    return r, w


@model("memcmp", "bcmp")
def memcmp(ex, st, a, ins):
    """memcmp: 0 iff equal, else ordered by the first differing unsigned byte"""
    if a[0].rid is not None and a[1].rid is not None:
        ra, rb = st.regions[a[0].rid], st.regions[a[1].rid]
        if ra.stride != 1 and ra.kind == "arr":
            return elem_cmp(ex, st, a)
    n = ex.U(st, a[2])
    _, x, kx = bytes_at(ex, st, a[0], "memcmp read", n)
    _, y, ky = bytes_at(ex, st, a[1], "memcmp read", n)
    r, w = cmp_model(ex, st, x, kx, y, ky, n)
    st.ghost["cmpw"] = w
    return IV(32, r, s=True)


def elem_cmp(ex, st, a):
    raise Unsupported("memcmp of structured data")


def low(c):
    return z3.If(And(c >= 65, c <= 90), c + 32, c)


def up(c):
    return z3.If(And(c >= 97, c <= 122), c - 32, c)


@model("tolower")
def tolower(ex, st, a, ins):
    """tolower in the C locale"""
    c = ex.S(st, a[0])
    return IV(32, simp(low(c)), s=True)


@model("toupper")
def toupper(ex, st, a, ins):
    """toupper in the C locale"""
    c = ex.S(st, a[0])
    return IV(32, simp(up(c)), s=True)


def is_space(c):
    return Or(c == 32, And(c >= 9, c <= 13))


@model("isspace")
def isspace(ex, st, a, ins):
    """isspace in the C locale"""
    c = ex.S(st, a[0])
    r = fint("isspace")
    st.assume(And(r >= 0, r < 2 ** 31, (r != 0) == is_space(c)))
    return IV(32, r, s=True)


@model("isdigit")
def isdigit(ex, st, a, ins):
    """isdigit"""
    c = ex.S(st, a[0])
    r = fint("isdigit")
    st.assume(And(r >= 0, r < 2 ** 31, (r != 0) == And(c >= 48, c <= 57)))
    return IV(32, r, s=True)


def nul_witnesses(r):
    return r.ghost.get("nul") or []


def nul_exists(ex, st, r, arr, k, lim=None):
    """formula: some NUL at or after k (and before k+lim) inside the region"""
    ws = list(nul_witnesses(r))
    alts = [And(arr.get(w) == 0, w >= k, w < r.count) for w in ws]
    j = z3.Int(fresh_name("nul"))
    if not alts:
        alts = [z3.Exists([j], And(j >= k, j < r.count, arr.get(j) == 0))]
    return Or(*alts)


@model("strlen")
def strlen(ex, st, a, ins):
    """strlen: distance to the first NUL, which must exist inside the block"""
    r, x, k = bytes_at(ex, st, a[0], "strlen read")
    ex.oblige(st, And(k >= 0, nul_exists(ex, st, r, x, k)), "memory", "strlen: %s is NUL-terminated" % r.name)
    n = fint("len")
    st.assume(And(n >= 0, k + n < r.count, x.get(k + n) == 0))
    st.assume(forall(k, k + n, lambda j: x.get(j) != 0))
    for w in nul_witnesses(r):
        st.assume(Imp(And(x.get(w) == 0, w >= k), k + n <= w))
    if r.ghost.get("cstr") is not None:   # first NUL known
        L = r.ghost["cstr"]
        st.assume(Imp(And(forall(0, L, lambda j: x.get(j) != 0), x.get(L) == 0, k <= L), k + n == L))
    return IV(64, n, u=True)


@model("strnlen")
def strnlen(ex, st, a, ins):
    """strnlen"""
    m = ex.U(st, a[1])
    r, x, k = bytes_at(ex, st, a[0], "strnlen read")
    ex.oblige(st, And(k >= 0, Or(k + m <= r.count, nul_exists(ex, st, r, x, k))), "memory", "strnlen: %s long enough or terminated" % r.name)
    n = fint("len")
    st.assume(And(n >= 0, n <= m, Or(n == m, x.get(k + n) == 0), Or(k + n <= r.count)))
    st.assume(forall(k, k + n, lambda j: x.get(j) != 0))
    return IV(64, n, u=True)


# ---------------------------------------------------------------- searching
def find_first(ex, st, h, k, n, d, dk, m, nc):
    """(found position relative to k) or none: two outcomes of a first-occurrence search"""
    import strs
    strs.use_occ(st, nc)
    O = strs.OCC(nc)
    H, D = h.z3(st.hyps), d.z3(st.hyps)
    none = st.copy()
    q = z3.Int(fresh_name("q"))
    none.assume(z3.ForAll([q], Imp(And(k <= q, q + m <= k + n), Not(O(H, q, D, dk, m))), patterns=[O(H, q, D, dk, m)]))
    p = fint("hit")
    st.assume(And(p >= 0, p + m <= n, O(H, k + p, D, dk, m)))
    st.assume(z3.ForAll([q], Imp(And(k <= q, q < k + p), Not(O(H, q, D, dk, m))), patterns=[O(H, q, D, dk, m)]))
    return p, none


@model("memmem")
def memmem(ex, st, a, ins):
    """memmem: the first occurrence of the needle's bytes in the haystack's bytes, or NULL"""
    n, m = ex.U(st, a[1]), ex.U(st, a[3])
    rh, h, k = bytes_at(ex, st, a[0], "memmem haystack", n)
    rd, d, dk = bytes_at(ex, st, a[2], "memmem needle", m)
    p, none = find_first(ex, st, h, k, n, d, dk, m, False)
    return [(st, PV(rh.rid, Off(0, {1: simp(k + p)}))), (none, NULL)]


@model("strcasestr")
def strcasestr(ex, st, a, ins):
    """strcasestr: the first occurrence of the needle text in the haystack text ignoring ASCII case, or NULL"""
    n = ex.U(st, strlen(ex, st, [a[0]], ins))
    m = ex.U(st, strlen(ex, st, [a[1]], ins))
    rh, h, k = bytes_at(ex, st, a[0], "strcasestr haystack")
    rd, d, dk = bytes_at(ex, st, a[1], "strcasestr needle")
    p, none = find_first(ex, st, h, k, n, d, dk, m, True)
    return [(st, PV(rh.rid, Off(0, {1: simp(k + p)}))), (none, NULL)]


@model("strncmp", "strncasecmp", "strcmp", "strcasecmp")
def strncmp(ex, st, a, ins):
    """str(n)(case)cmp: ordered by the first differing (case-folded) byte up to the first NUL / n bytes"""
    nc = "case" in ins.extra
    f = low if nc else (lambda x: x)
    rx, x, kx = bytes_at(ex, st, a[0], "%s read" % ins.extra[1:])
    ry, y, ky = bytes_at(ex, st, a[1], "%s read" % ins.extra[1:])
    r, w = fint("scmp"), fint("sw")
    lim = ex.U(st, a[2]) if len(a) > 2 else None
    # readable: each buffer holds lim bytes or a NUL
    for rr, arr, k in ((rx, x, kx), (ry, y, ky)):
        g = nul_exists(ex, st, rr, arr, k)
        if lim is not None:
            g = Or(lim == 0, k + lim <= rr.count, g)
        ex.oblige(st, And(k >= 0, g), "memory", "%s: %s long enough or terminated" % (ins.extra[1:], rr.name))
    st.assume(And(r >= -2 ** 31, r < 2 ** 31, w >= 0, kx + w <= rx.count, ky + w <= ry.count))
    if lim is not None:
        st.assume(w <= lim)
    st.assume(forall(0, w, lambda j: And(f(x.get(kx + j)) == f(y.get(ky + j)), x.get(kx + j) != 0), pats=lambda j: [x.get(kx + j), y.get(ky + j)]))
    if zc(simp(kx)) != 0:
        st.assume(forall(kx, kx + w, lambda j: And(f(x.get(j)) == f(y.get(j - kx + ky)), x.get(j) != 0)))
    if zc(simp(ky)) != 0:
        st.assume(forall(ky, ky + w, lambda j: And(f(y.get(j)) == f(x.get(j - ky + kx)))))
    xa, ya = x.get(kx + w), y.get(ky + w)
    stop = [And(f(xa) == f(ya), xa == 0)]
    if lim is not None:
        stop.append(w == lim)
    st.assume(Imp(r == 0, Or(*stop)))
    st.assume(Imp(r != 0, And(f(xa) != f(ya), (r < 0) == (f(xa) < f(ya)), kx + w < rx.count, ky + w < ry.count, *([w < lim] if lim is not None else []))))
    for v in (xa, ya):
        st.assume(Imp(Or(r != 0, w < (lim if lim is not None else w + 1)), And(v >= 0, v < 256)))
    return IV(32, r, s=True)


@model("vsnprintf")
def vsnprintf(ex, st, a, ins):
    """vsnprintf: writes at most n bytes including the terminator; returns the full length (no encoding error)"""
    key = ("fmtlen", str(a[2]))
    L = st.ghost.get(key)
    if L is None:
        L = fint("fmtlen")
        st.assume(And(L >= 0, L < 2 ** 31))
        st.ghost[key] = L
        st.ghost[("fmttxt", str(a[2]))] = Base("fmttxt")
    txt = st.ghost[("fmttxt", str(a[2]))]
    return put_formatted(ex, st, a, L, txt, "vsnprintf")


def put_formatted(ex, st, a, L, txt, what):
    n = ex.U(st, a[1])
    if not (isinstance(a[0], PV) and a[0].rid is None):
        r, x, k = bytes_at(ex, st, a[0], what + " write", n)
        w = simp(z3.If(n == 0, I(0), z3.If(L < n, L, n - 1)))
        arr = Cp(x, k, w, txt, I(0))
        if not ex.implied(st, n > 0):
            raise Unsupported(what + " with possibly zero size")
        r.fields[0] = (1, "int", St(arr, simp(k + w), I(0)))
        st.assume(forall(0, L, lambda j: And(txt.get(j) >= 0, txt.get(j) < 256)))
    else:
        ex.oblige(st, n == 0, "memory", what + "(NULL) has size 0")
    return IV(32, L, s=True)


@model("snprintf")
def snprintf(ex, st, a, ins):
    """snprintf: the formatted text is determined by the format and the arguments; writes at most n bytes including the terminator; returns the full length (no encoding error)"""
    f = a[2]
    r = st.regions.get(f.rid) if isinstance(f, PV) else None
    lit = r.ghost.get("lit") if r is not None and f.off.const() == 0 else None
    if lit is None:
        raise Unsupported("snprintf with a format that is not a literal")
    key = ("fmt", lit, tuple(fmt_arg(ex, st, x) for x in a[3:]))
    if key not in st.ghost:
        L = fint("fmtlen")
        st.assume(And(L >= 0, L < 2 ** 31))
        st.ghost[key] = (L, Base("fmttxt"))
    L, txt = st.ghost[key]
    return put_formatted(ex, st, a, L, txt, "snprintf")


def fmt_arg(ex, st, x):
    if isinstance(x, IV):
        return str(simp(ex.S(st, x)))
    if isinstance(x, FV):
        return str(x.t)
    raise Unsupported("snprintf argument")


# ---------------------------------------------------------------- threads
def lock_key(ex, st, p):
    r = ex.getr(st, p, "lock")
    o = p.off.const()
    if o is None:
        raise Unsupported("lock at a variable place")
    return ("mutex", r.rid, o)


@model("pthread_mutex_lock")
def pthread_mutex_lock(ex, st, a, ins):
    """pthread_mutex_lock: acquires; no other effect (the caller must not hold it already)"""
    k = lock_key(ex, st, a[0])
    ex.oblige(st, z3.BoolVal(not st.ghost.get(k)), "memory", "lock not already held")
    st.ghost[k] = True
    return IV(32, 0)


@model("pthread_mutex_trylock")
def pthread_mutex_trylock(ex, st, a, ins):
    """pthread_mutex_trylock: acquires and returns 0, or returns an error code"""
    k = lock_key(ex, st, a[0])
    s2 = st.copy()
    st.ghost[k] = True
    e = ex.fresh_iv(s2, 32, "err", True)
    s2.assume(ex.S(s2, e) > 0)
    return [(st, IV(32, 0)), (s2, e)]


@model("pthread_mutex_unlock")
def pthread_mutex_unlock(ex, st, a, ins):
    """pthread_mutex_unlock: releases a held lock"""
    k = lock_key(ex, st, a[0])
    ex.oblige(st, z3.BoolVal(bool(st.ghost.get(k))), "memory", "unlock of a held lock")
    st.ghost[k] = False
    return IV(32, 0)


@model("pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast")
def pthread_noop(ex, st, a, ins):
    """pthread mutex and condition set-up and signalling: no effect on other memory"""
    ex.getr(st, a[0], "synchronisation object")
    return IV(32, 0)


@model("pthread_cond_wait")
def pthread_cond_wait(ex, st, a, ins):
    raise Unsupported("waiting for another thread")


# ---------------------------------------------------------------- numbers in text
def num_end(A, k, base):
    """how many bytes of the text at A[k..] the number (with optional leading space and sign) takes; 0 if there is none"""
    return uf("num_end", IA, INT, INT, INT)(A, k, base)


def num_val(A, k, base):
    return uf("num_val", IA, INT, INT, INT)(A, k, base)


def num_inrange(A, k, base):
    return uf("num_inrange", IA, INT, INT, z3.BoolSort())(A, k, base)


def flt_val(A, k):
    return uf("flt_val", IA, INT, FS)(A, k)


def errno_reg(ex, st):
    p = st.ghost.get("errno")
    if p is None:
        r = ex.new_region(st, "cell", "errno", size=4)
        r.cells[0] = (4, ex.fresh_iv(st, 32, "errno", True))
        p = st.ghost["errno"] = PV(r.rid)
    return p


@model("__errno_location")
def errno_location(ex, st, a, ins):
    """errno: one int object per thread"""
    return errno_reg(ex, st)


def number(ex, st, a, base, what):
    r, x, k = bytes_at(ex, st, a[0], what)
    ex.oblige(st, And(k >= 0, nul_exists(ex, st, r, x, k)), "memory", "%s: %s is NUL-terminated" % (what, r.name))
    A = x.z3(st.hyps)
    e = num_end(A, k, base)
    st.assume(And(e >= 0, k + e < r.count))
    for w in nul_witnesses(r):
        st.assume(Imp(And(x.get(w) == 0, w >= k), k + e <= w))
    for w in nul_witnesses(r):      # an empty text holds no number
        pass
    ok = num_inrange(A, k, base)
    er = errno_reg(ex, st)
    o = st.regions[er.rid]
    o.cells[0] = (4, IV(32, z3.If(ok, ex.S(st, o.cells[0][1]), I(34)), s=True))
    if isinstance(a[1], PV) and a[1].rid is not None:
        q = st.regions[a[1].rid]
        ex.store_cell(st, q, a[1].off.const(), 8, PV(r.rid, Off(0, {1: simp(k + e)})))
    return A, k


@model("strtol", "__isoc23_strtol")
def strtol(ex, st, a, ins):
    """strtol: value, end and range verdict of the number at the start of the text (these define what a number is); ERANGE sets errno"""
    b = ex.S(st, a[2])
    A, k = number(ex, st, a, b, "strtol")
    v = num_val(A, k, b)
    st.assume(And(v >= -2 ** 63, v < 2 ** 63, Imp(num_end(A, k, b) == 0, v == 0)))
    return IV(64, v, s=True)


@model("strtod")
def strtod(ex, st, a, ins):
    """strtod: value, end and range verdict of the number at the start of the text; ERANGE sets errno"""
    A, k = number(ex, st, a, I(-1), "strtod")
    return FV(flt_val(A, k))


@model("rand")
def rand_(ex, st, a, ins):
    """rand: any value in 0..RAND_MAX"""
    r = fint("rand")
    st.assume(And(r >= 0, r < 2 ** 31))
    return IV(32, r, s=True)


@model("strcpy")
def strcpy(ex, st, a, ins):
    """strcpy: copies the text and its terminator"""
    n = strlen(ex, st, [a[1]], ins)
    copy(ex, st, a[0], a[1], IV(64, ex.U(st, n) + 1, u=True), False)
    r, x, k = bytes_at(ex, st, a[0], "strcpy write")
    r.ghost["nul"] = list(nul_witnesses(r)) + [simp(k + ex.U(st, n))]
    return a[0]


@model("strncat")
def strncat(ex, st, a, ins):
    """strncat: appends the text, at most n bytes of it, and a terminator"""
    n = strnlen(ex, st, [a[1], a[2]], ins)
    d = strlen(ex, st, [a[0]], ins)
    at = PV(a[0].rid, a[0].off + Off(0, {1: ex.U(st, d)}))
    copy(ex, st, at, a[1], n, False)
    r, x, k = bytes_at(ex, st, at, "strncat write")
    e = simp(k + ex.U(st, n))
    ex.oblige(st, And(e >= 0, e < r.count), "memory", "strncat: room for the terminator")
    o = [o for o in r.fields][0]
    r.fields[o] = (1, "int", St(r.fields[o][2], e, I(0)))
    r.ghost["nul"] = list(nul_witnesses(r)) + [e]
    r.ghost.pop("cstr", None)
    return a[0]


@model("strrchr")
def strrchr(ex, st, a, ins):
    """strrchr: the last occurrence of the character (not NUL) in the text, or NULL"""
    n = ex.U(st, strlen(ex, st, [a[0]], ins))
    r, x, k = bytes_at(ex, st, a[0], "strrchr")
    ch = ex.U(st, a[1])
    ch = simp(ch % 256)
    if zc(ch) is None or zc(ch) == 0:
        raise Unsupported("strrchr of a variable character")
    none = st.copy()
    none.assume(forall(k, k + n, lambda j: x.get(j) != ch))
    p = fint("last")
    st.assume(And(p >= k, p < k + n, x.get(p) == ch), forall(p + 1, k + n, lambda j: x.get(j) != ch))
    return [(st, PV(r.rid, Off(0, {1: p}))), (none, NULL)]


@model("__xpg_basename")
def xpg_basename(ex, st, a, ins):
    """basename of a path that does not end in '/': the part after its last '/' (the path itself if it has none)"""
    n = ex.U(st, strlen(ex, st, [a[0]], ins))
    r, x, k = bytes_at(ex, st, a[0], "basename")
    ex.oblige(st, And(n > 0, x.get(k + n - 1) != 47), "memory", "basename: path not empty and not ending in '/'")
    b = fint("base")
    st.assume(And(b >= k, b < k + n, Or(b == k, x.get(b - 1) == 47)), forall(b, k + n, lambda j: x.get(j) != 47))
    return PV(r.rid, Off(0, {1: b}))


# ---------------------------------------------------------------- sorting
SORTED = lambda A, k, n, o: uf("qsorted", IA, INT, INT, INT, IA)(A, k, n, o)


@model("qsort_r")
def qsort_r(ex, st, a, ins):
    """qsort_r: rearranges the given elements into the order of the comparator and touches nothing else"""
    r = ex.getr(st, a[0], "sort array")
    if r.kind != "arr":
        raise Unsupported("sort of a non-array")
    k, c = ex.resolve(st, r, a[0].off)
    n = ex.U(st, a[1])
    S = r.stride
    w = a[2]
    if isinstance(S, Stride):
        same = z3.BoolVal(w.lin is not None and list(w.lin.ts) == [S] and zc(w.lin.ts[S]) == 1 and w.lin.c == 0)
    else:
        same = ex.U(st, w) == S
    ex.oblige(st, And(z3.BoolVal(c == 0), same), "memory", "sort works on whole elements")
    ex.oblige(st, And(k >= 0, k + n <= r.count), "memory", "sorted elements within the block")
    st.ghost["sorted"] = (r.rid, k, n, a[3], a[4])
    hy = []
    perm = uf("qperm", INT, INT, INT)
    tag = fint("sort")
    for o, f in list(r.fields.items()):
        A = f[2]
        B = Base(r.name + "_srt")
        r.fields[o] = (f[0], f[1], B)
        # one permutation of the positions, the same for every member of an element
        st.assume(forall(0, n, lambda i: And(perm(tag, i) >= 0, perm(tag, i) < n, B.get(k + i) == A.get(k + perm(tag, i)))))
        j = z3.Int(fresh_name("j"))
        st.assume(z3.ForAll([j], Imp(Or(j < k, j >= k + n), B.get(j) == A.get(j)), patterns=[B.get(j)]))
    return None
