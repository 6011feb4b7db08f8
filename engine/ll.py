"""Parser for the textual LLVM IR (clang/opt 18) that the verifier works on.

Only the constructs clang emits for C at -O0 (after sroa, simplifycfg,
loop-simplify) are understood; anything else is kept as an 'unknown'
instruction and makes the symbolic executor give up on the path that reaches
it (which is reported, never ignored).
"""
import re, functools


class Instr:
    __slots__ = ("op", "res", "ty", "args", "extra", "dbg", "text")

    def __init__(self, op, res, ty, args, extra, dbg, text):
        self.op, self.res, self.ty, self.args = op, res, ty, args
        self.extra, self.dbg, self.text = extra, dbg, text

    def __repr__(self):
        return self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params  # params: [(ty,name)]
        self.blocks = {}
        self.order = []
        self.dbgvars = {}     # ssa name -> set of C variable names
        self.loops = {}       # header -> set(blocks)
        self.sub = None


class Module:
    def __init__(self):
        self.types, self.funcs, self.globals, self.meta = {}, {}, {}, {}
        self.decls = {}

    # ---- debug info
    def line(self, ref):
        seen = 0
        while ref and seen < 20:
            m = self.meta.get(ref, "")
            g = re.search(r"\bline: (\d+)", m)
            if g and int(g.group(1)):
                return int(g.group(1))
            g = re.search(r"inlinedAt: (!\d+)", m) or re.search(r"scope: (!\d+)", m)
            ref = g.group(1) if g else None
            seen += 1
        return 0

    @functools.lru_cache(None)
    def struct(self, name):
        """C struct `name` -> {member: (offset bytes, size bytes)} from DWARF."""
        for k, m in self.meta.items():
            if "DW_TAG_structure_type" in m and ('name: "%s"' % name) in m:
                return self._members(m)
        # typedef'd anonymous struct
        for k, m in self.meta.items():
            if "DW_TAG_typedef" in m and ('name: "%s"' % name) in m:
                b = re.search(r"baseType: (!\d+)", m)
                if b:
                    mm = self.meta.get(b.group(1), "")
                    if "DW_TAG_structure_type" in mm:
                        return self._members(mm)
        return None

    def _members(self, m):
        out = {}
        e = re.search(r"elements: (!\d+)", m)
        if not e:
            return None
        for r in re.findall(r"!\d+", self.meta[e.group(1)]):
            mm = self.meta[r]
            if "DW_TAG_member" not in mm:
                continue
            n = re.search(r'name: "([^"]*)"', mm)
            off = re.search(r"offset: (\d+)", mm)
            size = re.search(r"size: (\d+)", mm)
            if n:
                out[n.group(1)] = (int(off.group(1)) // 8 if off else 0,
                                   int(size.group(1)) // 8 if size else 0)
        return out

    @functools.lru_cache(None)
    def struct_size(self, name):
        for k, m in self.meta.items():
            if "DW_TAG_structure_type" in m and ('name: "%s"' % name) in m and "elements:" in m:
                g = re.search(r"size: (\d+)", m)
                return int(g.group(1)) // 8
        return None

    # ---- type layout
    def sizeof(self, ty):
        return self._lay(ty)[0]

    @functools.lru_cache(None)
    def _lay(self, ty):
        ty = ty.strip()
        if ty == "ptr":
            return 8, 8
        if ty == "double":
            return 8, 8
        if ty == "float":
            return 4, 4
        if ty == "x86_fp80":
            return 16, 16
        g = re.fullmatch(r"i(\d+)", ty)
        if g:
            n = (int(g.group(1)) + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return a, min(a, 16)
        if ty.startswith("["):
            g = re.fullmatch(r"\[(\d+) x (.*)\]", ty)
            s, a = self._lay(g.group(2))
            return s * int(g.group(1)), a
        f = self.fields(ty)
        off, al = 0, 1
        for t in f:
            s, a = self._lay(t)
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al

    def fields(self, ty):
        if ty.startswith("%"):
            ty = self.types[ty]
        assert ty.startswith("{") or ty.startswith("<{"), ty
        return split_commas(ty.strip("<>").strip()[1:-1])

    def offset(self, ty, idx):
        off = 0
        for i, t in enumerate(self.fields(ty)):
            s, a = self._lay(t)
            off = (off + a - 1) // a * a
            if i == idx:
                return off, t
            off += s
        raise IndexError


def split_commas(s):
    out, d, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            elif ch == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


ATTR = re.compile(r"\b(noalias|nocapture|noundef|nonnull|readonly|readnone|writeonly|immarg|signext|zeroext|"
                  r"inreg|returned|nofree|allocptr|noalias|nest|swiftself|align \d+|"
                  r"dereferenceable(_or_null)?\(\d+\)|byval\([^)]*\)|sret\([^)]*\))(?![\w.])")

TYRE = re.compile(r'^(\{[^{}]*(?:\{[^{}]*\}[^{}]*)*\}|<\{.*?\}>|\[\d+ x .*?\]+|%"?[\w.:]+"?|ptr|i\d+|double|float|x86_fp80|void|label|metadata)(?=[\s,)]|$)')


def take_type(s):
    s = s.strip()
    if s.startswith("[") or s.startswith("{"):
        op, cl = s[0], {"[": "]", "{": "}"}[s[0]]
        d = 0
        for i, ch in enumerate(s):
            if ch in "[{":
                d += 1
            if ch in "]}":
                d -= 1
                if d == 0:
                    return s[:i + 1], s[i + 1:].strip()
    m = TYRE.match(s)
    if not m:
        raise ValueError("type? " + s)
    return m.group(1), s[m.end():].strip()


def tyval(s):
    s = ATTR.sub("", s).strip()
    # byval/sret remove may leave double blanks
    t, rest = take_type(re.sub(r"\s+", " ", s))
    return t, rest.strip()


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptosi", "fptoui",
         "fpext", "fptrunc"}


def parse_instr(line):
    text = line.strip()
    dbg = None
    g = re.search(r", !dbg (!\d+)", text)
    if g:
        dbg = g.group(1)
    body = re.sub(r", ![\w.]+ ![\w]+", "", text)
    body = re.sub(r"\s*;.*$", "", body) if '"' not in body else body
    res = None
    g = re.match(r'(%"?[\w.$-]+"?) = (.*)', body)
    if g:
        res, body = g.group(1), g.group(2)
    body = body.strip()
    w = body.split(None, 1)
    op = w[0]
    rest = w[1] if len(w) > 1 else ""
    mk = lambda op, ty, args, extra=None: Instr(op, res, ty, args, extra, dbg, text)
    try:
        if op in ("tail", "notail", "musttail"):
            w = rest.split(None, 1)
            op, rest = w[0], w[1]
        if op in BINOPS:
            flags = []
            while True:
                f = rest.split(None, 1)
                if f[0] in ("nsw", "nuw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                    flags.append(f[0]); rest = f[1]
                else:
                    break
            t, r = take_type(rest)
            a, b = split_commas(r)
            return mk(op, t, [(t, a), (t, b)], flags)
        if op == "fneg":
            t, r = take_type(rest)
            return mk(op, t, [(t, r)])
        if op in ("icmp", "fcmp"):
            f = rest.split()
            while f[0] in ("fast", "nnan", "ninf", "nsz"):
                rest = rest.split(None, 1)[1]; f = rest.split()
            pred = f[0]
            t, r = take_type(rest.split(None, 1)[1])
            a, b = split_commas(r)
            return mk(op, "i1", [(t, a), (t, b)], pred)
        if op in CASTS:
            rest = re.sub(r"^(nneg|nuw|nsw)\s+", "", rest)
            src, dst = rest.rsplit(" to ", 1)
            t, v = tyval(src)
            return mk(op, dst.strip(), [(t, v)])
        if op == "freeze":
            t, v = tyval(rest)
            return mk(op, t, [(t, v)])
        if op == "alloca":
            p = split_commas(rest)
            t, _ = take_type(p[0])
            n = None
            for q in p[1:]:
                if not q.startswith("align"):
                    n = tyval(q)
            return mk(op, "ptr", [], (t, n))
        if op in ("load", "store"):
            rest = re.sub(r"\s+(seq_cst|acquire|release|monotonic|unordered)(?=,|$)", "", rest)
        if op == "atomicrmw":
            f = re.sub(r"^volatile\s+", "", rest).split(None, 1)
            p = split_commas(re.sub(r"\s+(seq_cst|acq_rel|acquire|release|monotonic)(?=,|$)", "", f[1]))
            t, _ = take_type(p[1])
            return mk(op, t, [tyval(p[0]), tyval(p[1])], f[0])
        if op == "load":
            rest = re.sub(r"^(volatile|atomic)\s+", "", rest)
            p = split_commas(rest)
            t, _ = take_type(p[0])
            return mk(op, t, [tyval(p[1])])
        if op == "store":
            rest = re.sub(r"^(volatile|atomic)\s+", "", rest)
            p = split_commas(rest)
            return mk(op, None, [tyval(p[0]), tyval(p[1])])
        if op == "getelementptr":
            rest = re.sub(r"^(inbounds|nuw|nusw)\s+", "", rest)
            p = split_commas(rest)
            return mk(op, "ptr", [tyval(x) for x in p[1:]], take_type(p[0])[0])
        if op == "br":
            p = split_commas(rest)
            if len(p) == 1:
                return mk("jmp", None, [], [p[0].split()[1]])
            return mk("br", None, [tyval(p[0])], [p[1].split()[1], p[2].split()[1]])
        if op == "switch":
            g = re.match(r"(.*?), label (\S+) \[(.*)\]", rest)
            v = tyval(g.group(1))
            cases = re.findall(r"i\d+ (-?\d+), label (\S+)", g.group(3))
            return mk("switch", None, [v], (g.group(2), [(int(a), b) for a, b in cases]))
        if op == "phi":
            t, r = take_type(rest)
            inc = re.findall(r"\[ (.*?), (%[^\s\]]+) \]", r)
            return mk("phi", t, [(t, a) for a, _ in inc], [b for _, b in inc])
        if op == "select":
            p = split_commas(rest)
            a = [tyval(x) for x in p]
            return mk("select", a[1][0], a)
        if op == "ret":
            if rest.strip() == "void":
                return mk("ret", None, [])
            return mk("ret", None, [tyval(rest)])
        if op == "unreachable":
            return mk("unreachable", None, [])
        if op == "extractvalue":
            p = split_commas(rest)
            return mk(op, None, [tyval(p[0])], [int(x) for x in p[1:]])
        if op == "insertvalue":
            p = split_commas(rest)
            return mk(op, tyval(p[0])[0], [tyval(p[0]), tyval(p[1])], [int(x) for x in p[2:]])
        if op == "call":
            rest = re.sub(r"^(fastcc|ccc|fast|nnan|ninf|nsz)\s+", "", rest)
            r = ATTR.sub("", rest)
            r = re.sub(r"\s+", " ", r).strip()
            t, r2 = take_type(r)
            if r2.startswith("("):     # varargs function type
                d = 0
                for i, ch in enumerate(r2):
                    d += ch == "("
                    d -= ch == ")"
                    if d == 0:
                        r2 = r2[i + 1:].strip()
                        break
            g = re.match(r'([%@]"?[\w.$-]+"?)\((.*)\)[^)]*$', r2)
            callee = g.group(1)
            args = []
            for x in split_commas(g.group(2)):
                if x.startswith("metadata"):
                    args.append(("metadata", x[8:].strip()))
                else:
                    args.append(tyval(x))
            return mk("call", t, args, callee)
    except Exception as e:  # noqa
        return Instr("unknown", res, None, [], repr(e), dbg, text)
    return Instr("unknown", res, None, [], None, dbg, text)


def parse(path):
    m = Module()
    cur = blk = None
    pend = None
    for line in open(path):
        line = line.rstrip("\n")
        if pend is not None:
            pend += " " + line.strip()
            if line.strip().startswith("]"):
                i = parse_instr(pend)
                i.text = pend
                blk.ins.append(i)
                pend = None
            continue
        if cur is None:
            g = re.match(r'(%"?[\w.:]+"?) = type (.*)', line)
            if g:
                m.types[g.group(1)] = g.group(2)
                continue
            g = re.match(r"(!\d+) = (?:distinct )?(.*)", line)
            if g:
                m.meta[g.group(1)] = g.group(2)
                continue
            g = re.match(r'(@"?[\w.$]+"?) = (.*)', line)
            if g:
                m.globals[g.group(1)] = g.group(2)
                continue
            g = re.match(r'define .*?((?:\{.*?\}|\S+)) (@"?[\w.$]+"?)\((.*)\)([^)]*)\{', line)
            if g:
                params = []
                ps = ATTR.sub("", g.group(3))
                for p in split_commas(ps):
                    p = p.strip()
                    if p == "...":
                        continue
                    t, r = take_type(re.sub(r"\s+", " ", p))
                    params.append((t, r.strip()))
                cur = Func(g.group(2)[1:], g.group(1), params)
                gg = re.search(r"!dbg (!\d+)", line)
                cur.sub = gg.group(1) if gg else None
                continue
            g = re.match(r'declare .*?(@"?[\w.$]+"?)\(', line)
            if g:
                m.decls[g.group(1)[1:]] = line
            continue
        if line == "}":
            m.funcs[cur.name] = cur
            cur = blk = None
            continue
        if not line.strip():
            continue
        g = re.match(r'("?[\w.$-]+"?):', line)
        if g:
            blk = Block("%" + g.group(1))
            cur.blocks[blk.name] = blk
            cur.order.append(blk.name)
            continue
        if re.match(r"\s*switch .*\[\s*$", line):
            pend = line.strip()
            continue
        if blk is None:
            blk = Block("%entry")
            cur.blocks[blk.name] = blk
            cur.order.append(blk.name)
        blk.ins.append(parse_instr(line))
    for f in m.funcs.values():
        finish(f, m)
    return m


def finish(f, m):
    for b in f.blocks.values():
        keep = []
        for i in b.ins:
            if i.op == "call" and i.extra.startswith("@llvm.dbg."):
                if i.extra == "@llvm.dbg.value":
                    v, var = i.args[0][1], i.args[1][1]
                    g = re.search(r'name: "([^"]*)"', m.meta.get(var, ""))
                    ex = i.args[2][1] if len(i.args) > 2 else ""
                    if g:
                        t = v.split()
                        if len(t) == 2 and t[1].startswith("%") and ex == "!DIExpression()":
                            f.dbgvars.setdefault(t[1], []).append(g.group(1))
                elif i.extra == "@llvm.dbg.declare":
                    v, var = i.args[0][1], i.args[1][1]
                    g = re.search(r'name: "([^"]*)"', m.meta.get(var, ""))
                    t = v.split()
                    if g and len(t) == 2:
                        f.dbgvars.setdefault(t[1], []).append(g.group(1))
                continue
            if i.op == "call" and i.extra.startswith(("@llvm.lifetime", "@llvm.experimental.noalias")):
                continue
            keep.append(i)
        b.ins = keep
        t = keep[-1]
        if t.op == "jmp":
            b.succ = list(t.extra)
        elif t.op == "br":
            b.succ = list(t.extra)
        elif t.op == "switch":
            b.succ = [t.extra[0]] + [x for _, x in t.extra[1]]
    for b in f.blocks.values():
        for s in b.succ:
            f.blocks[s].pred.append(b.name)
    # natural loops
    entry = f.order[0]
    dom = {n: set(f.order) for n in f.order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for n in f.order:
            if n == entry:
                continue
            ps = [dom[p] for p in f.blocks[n].pred]
            d = (set.intersection(*ps) if ps else set()) | {n}
            if d != dom[n]:
                dom[n] = d
                ch = True
    reach = {entry}
    st = [entry]
    while st:
        for s in f.blocks[st.pop()].succ:
            if s not in reach:
                reach.add(s); st.append(s)
    f.irreducible = False
    for n in reach:
        for s in f.blocks[n].succ:
            if s in dom[n]:
                body = f.loops.setdefault(s, {s})
                w = [n]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w += f.blocks[x].pred
    f.loop_order = sorted(f.loops, key=lambda h: (f.order.index(h)))
