"""development: python3 vc/dev.py PROFILE [function ...]   (uses a cached AST unless -r)"""
import sys, os, pickle, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))
sys.setrecursionlimit(100000)
os.environ.setdefault("VC_DEBUG", "1")
import cxx, prove
args = sys.argv[1:]
fresh = "-r" in args
quiet = "-q" in args
show = "-s" in args
deep = "-d" in args
args = [a for a in args if not a.startswith("-")]
os.makedirs("/tmp/w/d", exist_ok=True)
pk = "/tmp/w/docs.pkl"
if fresh or not os.path.exists(pk):
    docs = cxx.dump_ast("/tmp/w/d")[0]
    pickle.dump(docs, open(pk, "wb"))
P = cxx.Program(pickle.load(open(pk, "rb")))
mod, _, pname = args[0].partition(":")
prof = getattr(importlib.import_module(mod), pname or "profile")
import shutil
wd = f"/tmp/w/d/{prof.name}"
shutil.rmtree(wd, ignore_errors=True)
R = prove.ProfileRun(P, prof, wd)
only = [n for n in prof.byname if any(a in n for a in args[1:])] if len(args) > 1 else None
R.generate(only)
for s in R.skipped:
    print("SKIP", *s)
if only and "theory" not in args[1:]:
    pass
us = R.units if not only or "theory" in args[1:] else R.units[1:]
R.units = us
t = time.time()
prove.split_all(R)
print(f"split {time.time()-t:.1f}s")
seen = set()
for u in us:
    if show:
        print(u.text)
    if u.error:
        if u.error not in seen: print("ERROR", u.name, u.error)
        else: print("ERROR (same)", u.name)
        seen.add(u.error)
obls = [o for u in us for o in u.obls]
D = prove.Discharger(8, 900)
D.run(obls, prove.DEEPSTAGES if deep else prove.STAGES)
for u in us:
    if u.error: continue
    n = [o for o in u.obls if not o.canary]
    bad = [o for o in n if o.status != "proved"]
    van = [o for o in u.obls if o.canary and o.status == "proved"]
    slow = max([o.time for o in n], default=0)
    print(f"{u.name}: {len(n)-len(bad)}/{len(n)} canaries {sum(o.canary for o in u.obls)} vacuous {len(van)} slowest {slow:.1f}s  {os.path.join(R.dir,u.fname)}.mlw")
    for o in bad:
        print("   UNDECIDED", o.i, o.goal, "|", o.expl, "|", (o.loc or {}).get("start-line"), "->", (o.loc or {}).get("end-line"), o.answers if not quiet else "", os.path.basename(o.files["c"]))
    for o in van:
        print("   VACUOUS", o.expl, o.tried[-1:] if hasattr(o,"tried") else "", list(o.files.values())[:1])
    if deep or "-t" in sys.argv:
        for o in sorted(n, key=lambda o: -o.time)[:5]:
            if o.time > 2: print("   slow", round(o.time, 1), o.expl, o.prover, o.answers)
print(f"total {time.time()-t:.1f}s solver {D.solver_time:.0f}s")
