import sys, os, tempfile, time, importlib
sys.path.insert(0, "/verif/engine"); sys.path.insert(0, "/verif/contracts")
import drive, prog
from contract import REG, ORDER
mods = sys.argv[1].split(",")
files = []
own = []
todo = list(mods); seen = []
while todo:
    m = todo.pop(0)
    if m in seen: continue
    seen.append(m)
    M = importlib.import_module(m)
    if m in mods: own += [n for n in ORDER if REG[n].__class__.__module__ == m]
    for f in ([M.FILE] if isinstance(M.FILE, str) else M.FILE):
        if f not in files: files.append(f)
    todo += getattr(M, "DEPS", [])
d = tempfile.mkdtemp()
drive.PROG = prog.Prog(files, d)
names = sys.argv[2].split(",") if len(sys.argv) > 2 else own
t = time.time()
if os.environ.get("VDEBUG"):
    lem = sorted({l for n in names for l in REG[n].lemmas})
    res = [drive._gen((n, ci, None)) for n in names for ci in range(len(REG[n].cases))] + [drive._gen(("lemma:" + l, 0, None)) for l in lem]
    for r in res:
        for o in r["obs"]:
            if o["status"] is None:
                _, s, be, tt, info = drive.solve((o["name"], o["smt"], 30000000, 20))
                o["status"] = "proved" if s == "unsat" else s; o["backend"], o["time"], o["info"] = be, tt, info
                if s != "unsat" and os.environ.get("DUMP"):
                    open("/tmp/w/fail.smt2", "w").write(o["smt"])
else:
    if os.environ.get("VFAST"):
        drive.RETRY_S, drive.EXTRA_S = 0, 3
    res = drive.run(names, tmo=7 if os.environ.get("VFAST") else 20)
tot = 0
for r in res:
    bad = [o for o in r["obs"] if o["status"] not in ("quick", "proved")]
    tot += len(r["obs"])
    mx = max([o.get("time", 0) for o in r["obs"]] or [0])
    print("%-4s %s[%s] obs=%d paths=%d maxt=%.1f %s %s" % ("ok" if not bad and not r["error"] else "FAIL", r["fn"], r["case"], len(r["obs"]), r["paths"], mx, r["error"] or "", "; ".join(r["notes"])))
    for o in bad:
        print("      ", o["status"], "L%d" % o["line"], o["name"], (o.get("info") or "")[:int(os.environ.get("INFO","150"))])
print("total", tot, "%.1fs" % (time.time() - t))
