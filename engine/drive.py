"""Verify functions against their contracts: generate obligations, discharge them."""
import itertools, sys, os, time, traceback
import procs
sys.setrecursionlimit(20000)
import z3
from val import *
import val
from sx import *
import sx, builtins_c
from contract import *

sx.Exec.no_oom = False
sx.Exec.exact_mul = False

PROG = None


def verify_case(con, ci, perm=None):
    cname, cdata = con.cases[ci]
    val.reset()
    sx.Exec.globals_init = lambda self, name: con.global_initial(name) if hasattr(con, "global_initial") else False
    ex = Exec(PROG, REG, con.name)
    ex.case = cname
    ex.no_oom = con.no_oom
    ex.exact_mul = con.exact_mul
    ex.loop_perm, ex.loop_fn = perm, con.fn if getattr(con, "fn", None) else con.name
    ex.bootstrap = os.environ.get("VDEBUG")
    st = State()
    ex.root = None
    c = Ctx(ex, con, st, st, [], "verify", case=cdata)
    res = {"fn": con.name, "case": cname, "obs": [], "notes": [], "error": None, "paths": 0, "called": [], "inlined": [], "externs": []}
    mf = PROG.lookup(con.fn if getattr(con, "fn", None) else con.name)
    if mf is None:
        res["error"] = "function %s not found in the sources" % con.name
        return res, ex
    mod, fn = mf
    try:
        args = con.setup(c, st)
        c.args = args
        for nm, f in con.pre(c) or []:
            st.assume(f)
        for f in con.assume_only(c) or []:
            st.assume(f)
    except Exception as e:
        if os.environ.get("VDEBUG"):
            traceback.print_exc()
        res["error"] = "contract setup failed: %s: %s" % (type(e).__name__, e)
        return res, ex
    init = st.copy()
    init.norm = {}
    root = Ctx(ex, con, init, st, args, "verify", case=cdata)
    root.aux = c.aux
    if hasattr(con, "alloc_hook"):
        ex.alloc_hook = con.alloc_hook(root)
    ex.root = root
    if len(fn.params) != len(args):
        res["error"] = "function %s takes %d parameters, contract has %d" % (con.name, len(fn.params), len(args))
        return res, ex
    # vacuity: preconditions satisfiable (refuted only by unsat)
    s = z3.Solver()
    s.set("rlimit", 3000000)
    for h in init.hyps:
        s.add(h)
    r = s.check()
    res["pre_sat"] = str(r)
    if r == z3.unsat:
        res["error"] = "vacuous: precondition unsatisfiable"
        return res, ex
    st.frames = []
    ex.push_frame(st, mod, fn, args, None)
    ex.run([st])
    res["paths"] = len(ex.finals)
    # allowed modifications
    allowed = set()
    eff_ok = True
    if con.frame_check:
        es = init.copy()
        ec = Ctx(ex, con, init.copy(), es, args, "frame", case=cdata)
        ec.aux = dict(c.aux)
        ex.silent += 1
        try:
            rr = con.effect(ec)
            outs = [s_ for s_, _ in rr] if isinstance(rr, list) else [es]
        except Exception as e:
            if os.environ.get("VDEBUG"):
                traceback.print_exc()
            res["error"] = "effect clause failed: %s" % e
            return res, ex
        ex.silent -= 1
        for o in outs:
            for rid, r0 in init.regions.items():
                r1 = o.regions.get(rid)
                if r1 is None:
                    continue
                if r0.alive and not r1.alive:
                    allowed.add((rid, "alive"))
                for off, (sz, v) in r1.cells.items():
                    v0 = r0.cells.get(off)
                    if v0 is None or not ex.sameval(v0[1], v):
                        allowed.add((rid, "c", off))
                for off, f in r1.fields.items():
                    f0 = r0.fields.get(off)
                    if f0 is None or f0[2] is not f[2]:
                        allowed.add((rid, "f", off))
    reach = []
    for n, (fs, v, fr) in enumerate(ex.finals):
        fs.frames = []
        lab = "path%d" % n
        cc = Ctx(ex, con, init, fs, args, "verify", ret=v, case=cdata)
        cc.aux = dict(c.aux)
        vs = ex.unchoice(fs, v) if isinstance(v, Choice) else [(fs, v)]
        for fs2, v2 in vs:
            cc = Ctx(ex, con, init, fs2, args, "verify", ret=v2, case=cdata)
            cc.aux = dict(c.aux)
            cc.new = fs2
            reach.append(list(fs2.hyps))
            line = mod.line(fr.fn.blocks[fr.blk].ins[-1].dbg)
            try:
                base = list(fs2.hyps)
                for x in con.post(cc) or []:
                    if x is None:
                        continue
                    nm, f = x[0], x[1]
                    before = len(ex.obs)
                    ex.oblige(fs2, f, "ensures", nm, line)
                    # ensures are proved independently of each other unless marked
                    if len(x) < 3:
                        pass
                if con.frame_check:
                    frame_obs(ex, con, init, fs2, allowed, line)
                if con.leak_check:
                    leak_obs(ex, con, init, fs2, v2, args, line)
            except Unsupported as e:
                ex.oblige(fs2, z3.BoolVal(False), "ensures", "postcondition not expressible on this path: %s" % e, line)
            except Exception as e:
                if os.environ.get("VDEBUG"):
                    traceback.print_exc()
                ex.oblige(fs2, z3.BoolVal(False), "ensures", "postcondition not expressible on this path: %s: %s" % (type(e).__name__, e), line)
    # reachability: at least one return path must not be provably dead
    alive = 0
    for h in reach[:6]:
        s = z3.Solver()
        s.set("rlimit", 2000000)
        for f in h:
            s.add(f)
        if s.check() != z3.unsat:
            alive += 1
            break
    if not alive and not getattr(con, "noreturn", False):
        res["error"] = "vacuous: no return path of %s is reachable under its contract" % con.name
        if os.environ.get("VDEBUG") and reach:
            s = z3.Solver()
            s.set("unsat_core", True)
            for i, f in enumerate(reach[0]):
                s.assert_and_track(f, "h%d" % i)
            print("vacuous:", s.check())
            for x in s.unsat_core():
                print("  CORE", reach[0][int(str(x)[1:])])
    seen = {}
    for o in ex.obs:
        d = {"name": o.name, "kind": o.kind, "line": o.line, "status": o.status}
        if o.status is None:
            s = z3.Solver()
            for h in o.hyps:
                s.add(h)
            s.add(z3.Not(o.goal))
            d["smt"] = s.to_smt2()
        res["obs"].append(d)
    res["notes"] = sorted(ex.notes)
    res["called"] = sorted(ex.called)
    res["inlined"] = sorted(ex.inlined)
    res["externs"] = sorted(ex.externs)
    res["loops"] = {"%s/%d" % (k[0], 0): v for k, v in ex.loops_seen.items()}
    res["quick_queries"] = ex.nq
    return res, ex


def frame_obs(ex, con, init, fs, allowed, line):
    for rid, r0 in init.regions.items():
        r1 = fs.regions.get(rid)
        if r1 is None or rid == "opq" or rid.startswith("g:") and r0.ro:
            continue
        if r0.alive and not r1.alive:
            if (rid, "alive") not in allowed:
                ex.oblige(fs, z3.BoolVal(False), "frame", "%s is not freed" % r0.name, line)
            continue
        for off, (sz, v) in r1.cells.items():
            v0 = r0.cells.get(off)
            if v0 is None or (rid, "c", off) in allowed:
                continue
            if not ex.sameval(v0[1], v):
                a, b = v0[1], v
                if isinstance(a, IV) and isinstance(b, IV) and v0[0] == sz:
                    g = ex.U(fs, a) == ex.U(fs, b)
                elif isinstance(a, FV) and isinstance(b, FV):
                    g = a.t == b.t
                elif isinstance(a, PV) and isinstance(b, PV) and a.rid == b.rid:
                    g = (a.off - b.off).z() == 0
                else:
                    g = z3.BoolVal(False)
                ex.oblige(fs, g, "frame", "%s+%d unchanged" % (r0.name, off), line)
        for off, f in r1.fields.items():
            f0 = r0.fields.get(off)
            if f0 is None or (rid, "f", off) in allowed or f0[2] is f[2]:
                continue
            lo = I(1) if r0.nullable else I(0)
            ex.oblige(fs, forall(lo, r0.count, lambda i: f[2].get(i) == f0[2].get(i)), "frame", "contents of %s unchanged" % r0.name, line)


def leak_obs(ex, con, init, fs, ret, args, line):
    new = [r for rid, r in fs.regions.items() if rid not in init.regions and r.heap and r.alive]
    if not new:
        return
    reach, todo = set(), []

    def add(v):
        if isinstance(v, PV) and v.rid is not None and v.rid not in reach and v.rid in fs.regions:
            reach.add(v.rid)
            todo.append(v.rid)
        if isinstance(v, Agg):
            for x in v.v:
                add(x)
    add(ret)
    for a in args:
        add(a)
    for rid, r in init.regions.items():
        if rid in fs.regions and fs.regions[rid].alive:
            add(PV(rid))
    while todo:
        r = fs.regions[todo.pop()]
        for _, v in r.cells.values():
            add(v)
        for f in r.fields.values():
            if f[1] != "int":
                add(PV(f[1][1]))
        for g in r.ghost.values():
            add(g)
    for g in fs.ghost.values():
        add(g)
    for r in new:
        if r.rid not in reach:
            ex.oblige(fs, z3.BoolVal(False), "leak", "block %s allocated by %s is neither stored, returned nor freed" % (r.name, con.name), line)


# ---------------------------------------------------------------- discharge
STRATEGIES = (("ematch", 0), ("default", 0), ("cvc5", 0), ("ematch", 1), ("ematch", 2), ("ematch", 3), ("default", 1))


EXTRA_S = 60        # seconds after which no further attempt is begun


def solve(job):
    """each attempt in a context of its own: the outcome does not depend on what was solved before"""
    name, smt, rl, tmo = job
    t0 = time.time()
    last = "unknown"
    reason = ""
    model = ""
    for strat, seed in STRATEGIES:
        if seed and time.time() - t0 > EXTRA_S:
            break
        try:
            if strat == "cvc5":
                r = cvc5_check(smt, tmo)
                if r == "unsat":
                    return name, "unsat", "cvc5", time.time() - t0, ""
                continue
            ctx = z3.Context()
            s = z3.Solver(ctx=ctx) if strat == "default" else z3.SimpleSolver(ctx=ctx)
            s.set("rlimit", rl if strat == "default" else rl // 2)
            s.set("timeout", (2 if strat == "ematch" else 1) * tmo * 1000)
            if strat == "ematch":
                s.set("smt.mbqi", False)
                s.set("smt.auto_config", False)
            if seed:
                s.set("random_seed", seed)
                s.set("smt.phase_selection", 5) if seed == 2 else None
            s.from_string(smt)
            r = s.check()
            if r == z3.unsat:
                return name, "unsat", "z3/" + strat, time.time() - t0, ""
            if r == z3.sat:
                last = "sat"
                m = s.model()
                model = "; ".join("%s = %s" % (d, m[d]) for d in m.decls() if d.arity() == 0 and d.range().kind() == z3.Z3_INT_SORT)[:1500]
                return name, "sat", "z3/" + strat, time.time() - t0, model
            reason = s.reason_unknown()
        except Exception as e:  # noqa
            reason = str(e)
    return name, last, "z3+cvc5", time.time() - t0, model or reason


def cvc5_check(smt, tmo):
    import subprocess, tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (tmo * 1000), f.name], capture_output=True, text=True, timeout=tmo + 5)
        return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


def _lemma(name):
    val.reset()
    res = {"fn": "lemma:" + name, "case": "", "obs": [], "notes": [], "error": None, "paths": 0, "called": [], "inlined": [], "externs": []}
    try:
        for lab, hyps, goal in LEMMAS[name]():
            s = z3.Solver()
            for h in hyps:
                s.add(h)
            s.add(z3.Not(goal))
            res["obs"].append({"name": "lemma:%s/%s" % (name, lab), "kind": "lemma", "line": 0, "status": None, "smt": s.to_smt2()})
    except Exception as e:
        res["error"] = "lemma: %s: %s" % (type(e).__name__, e)
    return res


def _gen(task):
    name, ci, perm = task
    if name.startswith("lemma:"):
        return _lemma(name[6:])
    try:
        r, _ = verify_case(REG[name], ci, perm)
        return r
    except Exception as e:
        if os.environ.get("VDEBUG"):
            traceback.print_exc()
        return {"fn": name, "case": REG[name].cases[ci][0], "obs": [], "error": "engine: %s: %s" % (type(e).__name__, e), "paths": 0,
                "notes": [], "called": [], "inlined": [], "externs": []}


LEMMAS_DONE = set()


def run(names, jobs=8, rl=30000000, tmo=20, verbose=False):
    """verify the named contracts; returns list of per-case results with every
    obligation's status filled in"""
    lem = []
    for n in names:
        for l in REG[n].lemmas:
            if l not in lem and l not in LEMMAS_DONE:
                lem.append(l)
                LEMMAS_DONE.add(l)
    names = list(names) + ["lemma:" + l for l in lem]
    tasks = [(n, ci, None) for n in names for ci in (range(len(REG[n].cases)) if n in REG else [0])]
    out = []
    with procs.Pool(jobs) as pool:
        gen = {pool.submit(_gen, t, GEN_S): t for t in tasks}
        pend = []
        while gen:
            i, (ok, r) = pool.any(list(gen))
            t = gen.pop(i)
            if not ok:
                r = nogen(t, r)
            out.append(r)
            pend += send(pool, r, rl, tmo)
        collect(pool, pend)
        rematch(pool, out, rl, tmo)
    out.sort(key=lambda r: (names.index(r["fn"]), r["case"]))
    return out


GEN_S = 420         # seconds to generate one function's obligations


def nogen(t, why):
    return {"fn": t[0], "case": REG[t[0]].cases[t[1]][0] if t[0] in REG else "", "obs": [], "error": "engine: " + why, "paths": 0,
            "notes": [], "called": [], "inlined": [], "externs": []}


def send(pool, r, rl, tmo):
    return [(o, pool.submit(solve, (o["name"], o["smt"], rl, tmo), 8 * tmo + 60)) for o in r["obs"] if o["status"] is None]


def collect(pool, pend):
    for o, i in pend:
        ok, v = pool.wait(i)
        _, stt, be, t, info = v if ok else (None, "unknown", "z3", 0.0, v)
        o["status"] = "proved" if stt == "unsat" else stt
        o["backend"], o["time"], o["info"] = be, t, info


RETRY_S = 100       # seconds spent on re-matching loops to loop specifications


def bad(r):
    return r["error"] or any(o["status"] not in ("quick", "proved") for o in r["obs"])


def rematch(pool, out, rl, tmo):
    """A function whose loops were reordered, merged or split meets its contract under another
    assignment of the loop specifications to its loops: any assignment that verifies will do."""
    t0 = time.time()
    for k, r in enumerate(out):
        con = REG.get(r["fn"])
        if con is None or not bad(r):
            continue
        mf = PROG.lookup(con.fn if getattr(con, "fn", None) else con.name)
        ls = con.loops
        ls = ls() if callable(ls) else ls
        if mf is None or not ls:
            continue
        m, n = len(mf[1].loop_order), len(ls)
        if m == 0 or max(m, n) < 2 or max(m, n) > 4:
            continue
        ids = list(range(n)) + [None] * max(0, m - n)
        perms = []
        for q in itertools.permutations(ids, m):
            if q not in perms and q != tuple(range(m)):
                perms.append(q)
        ci = [c[0] for c in con.cases].index(r["case"])
        for q in perms[:12]:
            if time.time() - t0 > RETRY_S:
                return
            ok, r2 = pool.wait(pool.submit(_gen, (r["fn"], ci, q), RETRY_S))
            if not ok or r2["error"] or any(o["status"] not in (None, "quick", "proved") for o in r2["obs"]):
                continue
            collect(pool, send(pool, r2, rl, tmo))
            if not bad(r2):
                r2["notes"] = r2["notes"] + ["loop specifications matched to loops in the order %s" % (q,)]
                out[k] = r2
                break


def failed(res):
    bad = []
    for r in res:
        if r["error"]:
            bad.append({"name": "%s[%s]/contract" % (r["fn"], r["case"]), "status": "error", "info": r["error"], "line": 0, "kind": "error"})
        for o in r["obs"]:
            if o["status"] not in ("quick", "proved"):
                bad.append(o)
    return bad
