"""Compiling /repo's sources to LLVM IR and looking functions up."""
import os, re, subprocess, tempfile, ll

CLANG, OPT = "/usr/bin/clang-18", "/usr/bin/opt-18"
REPO = os.environ.get("FQL_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PASSES = "always-inline,function(loop-simplify,sroa,simplifycfg,loop-simplify)"


class BuildError(Exception):
    pass


def inline_rest(path, keep):
    """functions without a contract of their own become part of the functions that call them
    (only the attribute is set here; the compiler's inliner does the work)"""
    t = open(path).read()
    t = re.sub(r"(?m)^(attributes #\d+ = \{ )noinline ", r"\1", t)

    def sub(m):
        return m.group(0) if m.group(2).strip('"') in keep else m.group(1) + " alwaysinline" + m.group(3)
    t = re.sub(r"(?m)^(define [^\n]*?@([\w.$\"]+)\([^\n]*?\))((?: unnamed_addr| local_unnamed_addr)? #\d+[^\n]*\{)$", sub, t)
    open(path, "w").write(t)


def compile_ll(src, out, extra=(), keep=None):
    o0 = out + ".o0"
    cmd = [CLANG, "-S", "-emit-llvm", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
           "-D__NO_CTYPE", "-D_GNU_SOURCE", "-w", "-I", VERIF + "/stubs", "-I", REPO, "-I", REPO + "/util", "-I", REPO + "/lib",
           "-I", REPO + "/lib/include", *extra, src, "-o", o0]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-2000:])
    if keep is not None:
        inline_rest(o0, keep)
    p = subprocess.run([OPT, "-S", "-passes=" + PASSES, o0, "-o", out], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-2000:])
    return out


class Prog:
    def __init__(self, files, workdir):
        from contract import REG
        import builtins_c
        keep = set(REG) | {c.fn for c in REG.values() if getattr(c, "fn", None)} | set(builtins_c.TABLE)
        self.mods = []
        for f in files:
            src = os.path.join(REPO, f)
            out = os.path.join(workdir, f.replace("/", "_") + ".ll")
            compile_ll(src, out, keep=keep)
            m = ll.parse(out)
            m.name = f
            m.text_sha = None
            self.mods.append(m)

    def lookup(self, name, mod=None):
        if mod is not None and name in mod.funcs:
            return mod, mod.funcs[name]
        for m in self.mods:
            if name in m.funcs:
                return m, m.funcs[name]
        return None

    def member(self, struct, member):
        for m in self.mods:
            s = m.struct(struct)
            if s and member in s:
                return s[member]
        raise KeyError("%s.%s" % (struct, member))

    def sizeof(self, struct):
        for m in self.mods:
            s = m.struct_size(struct)
            if s:
                return s
        raise KeyError(struct)
