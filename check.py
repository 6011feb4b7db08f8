#!/usr/bin/env python3
"""check.py <property>: verify every contract the property rests on against
/repo's current sources, then report.  Exit 0 / 1 (VIOLATION line)."""
import os, sys, json, time, shutil, tempfile, importlib, subprocess, glob, re

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF + "/engine", VERIF + "/contracts", VERIF]
PY = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(PY) and not os.environ.get("FQL_VT") and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.environ["FQL_VT"] = "1"
    os.execv(PY, [PY] + sys.argv)

import props                                                      # noqa: E402
import drive, prog, builtins_c                                    # noqa: E402
from contract import REG                                          # noqa: E402

JOBS = int(os.environ.get("FQL_JOBS", "8"))


def load(modnames):
    files = []
    todo, seen = list(modnames), []
    while todo:
        m = todo.pop(0)
        if m in seen:
            continue
        seen.append(m)
        M = importlib.import_module(m)
        for f in ([M.FILE] if isinstance(M.FILE, str) else M.FILE):
            if f not in files:
                files.append(f)
        todo += getattr(M, "DEPS", [])
    return files, seen


def replay(pid, P, work, seconds, seed):
    """run the native harness: the real code under ASan/UBSan against a reference.
    Returns (status, text, stats)"""
    src = os.path.join(VERIF, "replay", P["harness"])
    exe = os.path.join(work, "replay")
    R = prog.REPO
    srcs = [os.path.join(R, s) for s in P["srcs"]]
    cmd = ["gcc", "-g", "-O1", "-std=gnu11", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
           "-fno-sanitize=%s" % P.get("nosan", "alignment,shift,pointer-overflow"), "-D_GNU_SOURCE", "-DREPLAY_ID=\"%s\"" % pid, "-I", VERIF + "/stubs", "-I", VERIF + "/replay",
           "-I", R, "-I", R + "/util", "-I", R + "/lib", "-I", R + "/lib/include", *P.get("cflags", []), src, *srcs, "-o", exe, *P.get("ldflags", []), "-lm"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        return "nobuild", "harness does not build:\n" + p.stderr[-3000:], {}
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0" % P.get("leaks", 1),
               UBSAN_OPTIONS="print_stacktrace=1", TMPDIR=scratch, LC_ALL="C")
    try:
        p = subprocess.run([exe, str(seed), str(seconds)], capture_output=True, text=True, errors="replace", cwd=scratch, env=env, timeout=seconds * 4 + 60)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
        return "fail", "the code did not terminate on:\n" + out[-3000:], {}
    stats = {}
    m = re.search(r"STATS (\{.*\})", p.stdout)
    if m:
        stats = json.loads(m.group(1))
    if p.returncode == 0 and m:
        return "ok", p.stdout[-2000:], stats
    return "fail", (p.stdout[-6000:] + "\n" + p.stderr[-6000:]), stats


def main():
    pid = sys.argv[1]
    P = props.PROPS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    work = tempfile.mkdtemp(prefix="fql-%s-" % pid)
    try:
        return run(pid, P, t0, seed, tier, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, P, t0, seed, tier, work):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/out", exist_ok=True)
    files, mods = load(P["mods"])
    files += [f for f in P.get("files", []) if f not in files]
    drive.PROG = prog.Prog(files, work)
    own = [n for n, c in REG.items() if pid in c.props and not c.trusted]
    done, todo, res = set(), list(own), []
    rl, tmo = (30000000, 20) if tier == "quick" else (200000000, 120)
    trusted_used = set()
    while todo:
        res += drive.run(todo, jobs=JOBS, rl=rl, tmo=tmo)
        done |= set(todo)
        nxt = []
        for r in res:
            for c in r["called"]:
                if c in REG and c not in done and c not in nxt:
                    if REG[c].trusted:
                        trusted_used.add(c)
                    elif getattr(REG[c], "implemented_by", None):
                        done.add(c)
                        nxt += [x for x in REG[c].implemented_by if x not in done and x not in nxt]
                    elif not getattr(REG[c], "spec_only", False):
                        nxt.append(c)
                    else:
                        trusted_used.add(c)
        todo = nxt
    # retry undecided obligations serially with more resources
    bad = [o for o in drive.failed(res)]
    def mine(o):
        m = re.search(r"\{([C0-9,]+)\}", o["name"])      # clause that only some properties rest on
        return pid in m.group(1).split(",") if m else fn_of(o["name"]) in own
    own_bad = [o for o in bad if mine(o)]
    dep_bad = [o for o in bad if not mine(o)]
    # a dependency that no other property's check reports is ours to report
    orphan = [o for o in dep_bad if "{C" not in o["name"] and not (fn_of(o["name"]) in REG and REG[fn_of(o["name"])].props)]
    own_bad += orphan
    dep_bad = [o for o in dep_bad if o not in orphan]

    known = json.load(open(VERIF + "/known_findings.json")) if os.path.exists(VERIF + "/known_findings.json") else []
    kf = [k for k in known if k["property"] == pid and k["status"] == "known"]
    listed = []
    rest = []
    for o in own_bad:
        k = next((k for k in kf if k.get("obligation") and re.fullmatch(k["obligation"], o["name"])), None)
        (listed if k else rest).append((o, k) if k else o)
    for k in {id(k): k for _, k in listed}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    own_bad = rest

    # native cross-check / replay
    st, text, stats = "none", "", {}
    if P.get("harness"):
        secs = (60 if own_bad or dep_bad else P.get("xsecs", 6)) if tier == "quick" else 300
        st, text, stats = replay(pid, P, work, secs, seed)
        if st == "nobuild" and not own_bad:
            print("note: replay harness did not build: " + text[:500])
    rc = 0
    rp = os.path.join(VERIF, "out", pid + ".replay.txt")
    if own_bad or st == "fail":
        with open(rp, "w") as f:
            f.write("property %s\n" % pid)
            if st == "fail":
                f.write("\n== failing run of the real code (seed %d): %s replayed with gcc -fsanitize=address,undefined\n%s\n" % (seed, P["harness"], text))
            f.write("\n== failed obligations\n")
            for o in own_bad + dep_bad:
                f.write("%s [line %s] %s\n    %s\n" % (o["name"], o.get("line"), o["status"], o.get("info") or ""))
            if st not in ("fail", "none"):
                f.write("\n== replay harness: %s\n%s\n" % (st, text))
        rc = 1
        for o in own_bad[:12]:
            print("failed obligation: %s (line %s): %s %s" % (o["name"], o.get("line"), o["status"], (o.get("info") or "")[:200]))
        if st == "fail":
            print(text[:1500])
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if st == "fail" else " no-failing-input-found"))
    elif os.path.exists(rp):
        os.unlink(rp)
    for o in dep_bad[:10]:
        print("note: undischarged in a dependency (reported by its own property's check): %s" % o["name"])

    obs = [o for r in res for o in r["obs"]]
    disc = [o for o in obs if o["status"] in ("quick", "proved")]
    backs = {}
    for o in disc:
        b = o.get("backend", "z3/quick") if o["status"] == "proved" else "z3/quick"
        backs[b] = backs.get(b, 0) + 1
    kinds = {}
    for o in obs:
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    ext = sorted({e for r in res for e in r["externs"]})
    trusted = ["extern %s: %s" % (e, builtins_c.TRUST.get(e, "modelled")) for e in ext]
    trusted += ["contract of %s is assumed, not verified: %s" % (n, (REG[n].__doc__ or "see contracts/").strip().split("\n")[0]) for n in sorted(trusted_used)]
    trusted += props.BASE_TRUST + P.get("trust", [])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "proof"),
        "coverage": {
            "obligations": len(obs), "discharged": len(disc), "checker_cmd": "python3 check.py %s %s" % (pid, tier),
            "trusted_base": trusted,
            "functions_under_contract": sorted({r["fn"] for r in res}),
            "functions_of_this_property": sorted(own),
            "contract_cases": len(res), "paths": sum(r["paths"] for r in res),
            "inlined_functions": sorted({i for r in res for i in r["inlined"]} - {r["fn"] for r in res}),
            "obligations_by_kind": kinds, "discharged_by_backend": backs,
            "solver_seconds": round(sum(o.get("time") or 0 for o in obs), 2),
            "undischarged": [o["name"] for o in bad][:50],
            "notes": sorted({n for r in res for n in r["notes"]}),
            "sources": files,
            "samples": [o["name"] for o in obs[:: max(1, len(obs) // 6)]][:6],
            "replay_crosscheck": {"label": "bounded cross-check of the trusted models on the real code; not counted as proof", "status": st, **stats},
        },
        "assumptions": trusted,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if rc else 0,
    }
    if not obs:
        print("no obligations were generated")
        rc = 2
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged over %d functions, %.1fs; cross-check %s %s" % (
        pid, len(disc), len(obs), len({r["fn"] for r in res}), time.time() - t0, st, stats or ""))
    return rc


def fn_of(name):
    return re.split(r"[\[/]", name)[0]


if __name__ == "__main__":
    sys.exit(main())
