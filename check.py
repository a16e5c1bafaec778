#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree.

1. /repo's sources -> clang AST -> WhyML (mechanical, every run), contracts attached, why3 generates the
   obligations, a portfolio of SMT solvers discharges them.
2. In parallel the library is built from the same sources and a bounded oracle is run on it: it replays the
   property on concrete inputs (counterexample search for failed obligations, and the bounded stand-in for the
   functions that are not under contract).
Exit 0 / 1 as required by the task."""
import sys, os, json, time, tempfile, shutil, subprocess, threading, importlib, hashlib, signal, re

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "vc"))
sys.path.insert(0, os.path.join(ROOT, "contracts"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import build, cxx, prove
from registry import CHECKS

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
PY = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PY):
    PY = shutil.which("python3-vt") or sys.executable
ORACLE_S = int(os.environ.get("ORACLE_S", "0")) or (240 if THOROUGH else 25)
PROVE_S = 600 if THOROUGH else 330


def say(*a):
    print(*a, flush=True)


def unit_hash(u, ttext):
    return hashlib.sha256((u.text + "\0" + ttext).encode()).hexdigest()[:20]


class Proofs:
    def __init__(self, pid, spec, work):
        self.pid, self.spec, self.work = pid, spec, work
        self.error = None
        self.runs = []
        self.obls, self.units = [], []
        self.cmd = ""
        self.baseline = {}
        p = os.path.join(ROOT, "baseline", pid + ".json")
        if os.path.exists(p):
            self.baseline = json.load(open(p))

    def generate(self):
        d = os.path.join(self.work, "ast")
        os.makedirs(d)
        docs, errs, self.cmd = cxx.dump_ast(d)
        if errs or not docs:
            self.error = "clang: " + "; ".join(errs[:3])
            return
        prog = cxx.Program(docs)
        for spec in self.spec["profiles"]:
            mod, _, pname = spec.partition(":")
            prof = getattr(importlib.import_module(mod), pname or "profile")
            R = prove.ProfileRun(prog, prof, os.path.join(self.work, "p_" + prof.name))
            R.generate()
            prove.split_all(R, 8)
            self.runs.append(R)

    def run(self):
        try:
            self.generate()
            if self.error:
                return
            for R in self.runs:
                for u in R.units:
                    u.run = R
                    u.hash = unit_hash(u, R.ttext)
                    base = self.baseline.get(u.name, {})
                    u.known = base.get("hash") == u.hash
                    hints = base.get("provers", []) if u.known else []
                    for i, o in enumerate(u.obls):
                        if i < len(hints) and hints[i] and len(hints) == len(u.obls):
                            o.hint = hints[i]
                    self.units.append(u)
                    self.obls += u.obls
            self.D = prove.Discharger(8, PROVE_S)
            stages = prove.DEEPSTAGES if THOROUGH else prove.STAGES
            self.D.run(self.obls, stages)
            # units unchanged since they were last proved: only solver luck or load can differ
            again = [o for u in self.units if u.known for o in u.obls if not o.canary and o.status != "proved"]
            if again:
                self.D.budget += 240
                self.D.run_more(again, [[("cvc5", 40), ("z3-new", 40)], [("z3", 40), ("cvc5-enum", 40), ("z3-nomacro", 40)]])
        except Exception as e:
            import traceback
            self.error = "prover pipeline: " + traceback.format_exc()[-1500:]

    def summary(self):
        real = [o for o in self.obls if not o.canary]
        s = {
            "obligations": len(real),
            "discharged": sum(o.status == "proved" for o in real),
            "functions_under_contract": [],
            "functions_not_reached": [],
            "backends": {},
            "solver_time_s": round(getattr(getattr(self, "D", None), "solver_time", 0), 1),
            "canaries": {"placed": sum(o.canary for o in self.obls),
                         "provable_meaning_vacuous": sum(o.canary and o.status == "proved" for o in self.obls)},
        }
        for o in real:
            if o.status == "proved":
                s["backends"][o.prover] = s["backends"].get(o.prover, 0) + 1
        tb = set()
        for u in self.units:
            n = [o for o in u.obls if not o.canary]
            e = {"unit": u.name, "kind": u.kind, "obligations": len(n), "discharged": sum(o.status == "proved" for o in n)}
            if u.inlined:
                e["bodies_inlined"] = u.inlined
            if u.error:
                e["error"] = u.error[-300:]
            if getattr(u, "diverges", False):
                e["termination"] = "not proved"
            s["functions_under_contract"].append(e)
            tb |= set(u.trusted)
        for R in self.runs:
            for n, why in R.skipped:
                s["functions_not_reached"].append({"function": n, "reason": why[:300]})
            for n, c in R.C.byname.items():
                if c.trusted:
                    w = proved_in(n)
                    tb.add(f"assumed contract: {n}" + (f" (proved in this form or a stronger one by the check of {', '.join(w)})" if w else ""))
        s["trusted"] = sorted(tb)
        return s


def proved_in(name):
    """checks with a profile in which the function has a contract that is proved, not assumed"""
    out = []
    for cid, c in CHECKS.items():
        for spec in c["profiles"]:
            m, _, a = spec.partition(":")
            try:
                q = getattr(importlib.import_module(m), a or "profile").byname.get(name)
            except Exception:
                continue
            if q is not None and not q.trusted and cid not in out:
                out.append(cid)
    return out


def run_oracle(pid, spec, pkg, have, work, budget, res, focus=""):
    out = os.path.join(work, f"oracle_{len(res)}.json")
    env = dict(os.environ, PYTHONPATH=pkg, VERIF_SEED=str(SEED), VERIF_TIER=TIER, ORACLE_BUDGET=str(budget),
               VH_MODS=",".join(have), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", FOCUS=focus, PYTHONHASHSEED="0")
    cmd = [PY, os.path.join(ROOT, "oracles", spec["oracle"] + ".py"), out]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=budget * 3 + 150, cwd=work)
        rc, txt = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, txt = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    r = {"rc": rc, "log": txt[-3000:], "wall": round(time.time() - t, 1), "failures": [], "evaluations": 0,
         "distinct_nontrivial": 0, "rule": "", "samples": []}
    if os.path.exists(out):
        try:
            r.update(json.load(open(out)))
        except ValueError:
            pass
    last = ""
    if os.path.exists(out + ".last"):
        last = open(out + ".last", "rb").read().split(b"\0")[0].decode(errors="replace")
    if rc == "timeout" and last:
        r["failures"].append({"what": "call does not return", "input": last, "expected": "termination", "got": f"no return within {budget*3+150}s"})
    elif isinstance(rc, int) and (rc < 0 or rc in (134, 139)) and last:
        r["failures"].append({"what": f"process died with signal {-rc}", "input": last, "expected": "a result or an exception", "got": txt[-500:]})
    elif rc not in (0, "timeout") and not r["failures"]:
        r["broken"] = f"oracle ended with {rc}: {txt[-1500:]}"
    res.append(r)
    return r


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "open"]


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vc_{pid}_")
    rc = 1
    try:
        rc = decide(pid, spec, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, spec, work, t0):
    pr = Proofs(pid, spec, work)
    th = threading.Thread(target=pr.run)
    if spec["profiles"]:
        th.start()
    res = []
    pkg, have, blog = None, [], ""
    if spec.get("oracle"):
        pkg, have, blog = build.build(os.path.join(work, "b"), extra=spec.get("extra", []), flags_more=spec.get("cflags"))
        if pkg is None:
            say("ERROR: /repo does not build:", blog[-2000:])
            if spec["profiles"]:
                th.join()
            return 2
        run_oracle(pid, spec, pkg, have, work, ORACLE_S, res)
    if spec["profiles"]:
        th.join()
    failures = [f for r in res for f in r["failures"]]
    # ---- obligations that were not discharged
    failed, undecided = [], []
    if pr.error:
        undecided.append(("pipeline", pr.error))
    for u in pr.units:
        if u.error:
            undecided.append((u.name, u.error))
        for o in u.obls:
            if o.canary:
                if o.status == "proved":
                    undecided.append((u.name, "precondition or invariant is contradictory at " + o.expl))
                continue
            if o.status == "proved":
                continue
            if u.known:
                undecided.append((u.name, f"unchanged unit, obligation '{o.expl}' not discharged in the time given"))
            elif u.kind == "theory":
                undecided.append((u.name, f"lemma '{o.expl}' not discharged"))
            else:
                failed.append((u, o))
    for R in pr.runs:
        for n, why in R.skipped:
            undecided.append((n, "not under contract on this tree: " + why))
    if failed and not failures and spec.get("oracle"):
        # search harder for a failing input
        say(f"{len(failed)} obligation(s) not discharged on changed code; searching for a failing input")
        run_oracle(pid, spec, pkg, have, work, min(150, ORACLE_S * 4), res, focus=",".join(sorted({u.name for u, _ in failed})))
        failures = [f for r in res for f in r["failures"]]
    # ---- known findings
    kf = known_findings(pid)
    fresh = []
    seen = {}
    for f in failures:
        m = [k for k in kf if k["match"] == f.get("id")]
        if m and f.get("id"):
            seen[m[0]["match"]] = m[0]
        else:
            fresh.append(f)
    for k in kf:
        say(f"KNOWN-FINDING: property={pid} {k['what']}")
    s = pr.summary()
    evals = sum(r["evaluations"] for r in res)
    cov = {
        "obligations": s["obligations"], "discharged": s["discharged"],
        "checker_cmd": "clang++ -Xclang -ast-dump=json (AST of /repo) | vc/ (AST->WhyML) | why3 prove -a split_vc | cvc5, z3, z3-new",
        "trusted_base": TRUSTED + s["trusted"],
        "functions_under_contract": s["functions_under_contract"],
        "functions_not_reached": s["functions_not_reached"],
        "backends": s["backends"], "solver_time_s": s["solver_time_s"], "canaries": s["canaries"],
        "evaluations": evals, "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in res),
        "rule": "BOUNDED part (replay oracle, not counted as proved): " + (res[0]["rule"] if res else "none"),
        "samples": [x for r in res for x in r["samples"]][:12],
        "oracle_wall_s": [r["wall"] for r in res],
        "undecided": [f"{a}: {b}"[:400] for a, b in undecided],
        "explanation": spec.get("explanation", "contracts on the functions of /repo discharged by SMT solvers; concrete oracle on the built library for counterexamples and for the functions without contract"),
    }
    nviol = len(fresh) + (1 if failed and not fresh else 0)
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []) + s["trusted"], "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for a, b in undecided:
        say(f"undecided: {a}: {b}"[:600])
    for r in res:
        if r.get("broken"):
            say("oracle problem:", r["broken"])
    say(f"{pid}: {s['discharged']}/{s['obligations']} obligations discharged ({s['solver_time_s']} s solver), "
        f"{evals} concrete cases, {len(fresh)} failing inputs, {time.time()-t0:.0f} s")
    if os.environ.get("WRITE_BASELINE"):
        os.makedirs(os.path.join(ROOT, "baseline"), exist_ok=True)
        b = {u.name: {"hash": u.hash, "provers": [o.prover for o in u.obls]} for u in pr.units}
        json.dump(b, open(os.path.join(ROOT, "baseline", pid + ".json"), "w"), indent=0, sort_keys=True)
    if not nviol:
        return 0
    rp = os.path.join(ROOT, "evidence", f"{pid}.replay.json")
    rep = {"property": pid, "failing_inputs": fresh[:20],
           "failed_obligations": [{"function": u.name, "obligation": o.expl, "line_in_generated_file": o.loc,
                                   "solver_answers": o.answers, "solver_output": getattr(o, "output", "")[-300:]} for u, o in failed[:40]],
           "generated_whyml": {u.name: u.text for u, _ in failed[:6]},
           "how_to_replay": f"ORACLE_S=60 VERIF_SEED={SEED} python3 check.py {pid}; each failing input is written as the calls made on the library"}
    with open(rp, "w") as f:
        json.dump(rep, f, indent=1)
    for u, o in failed[:20]:
        say(f"failed obligation: {u.name}: {o.expl}")
    for f in fresh[:5]:
        say(f"failing input: {f.get('what')}: {str(f.get('input'))[:300]} expected {str(f.get('expected'))[:200]} got {str(f.get('got'))[:200]}")
    say(f"VIOLATION property={pid} replay={rp}" + ("" if fresh else " no-failing-input-found"))
    return 1


TRUSTED = [
    "clang 18 front end (AST of the same sources g++ compiles)",
    "the translation vc/cxx.py + vc/why.py from the AST to WhyML",
    "why3 1.6 VC generation and its cvc5/z3 drivers; cvc5 1.1.2, z3",
    "standard library containers and algorithms behave as specified in theories/wk.mlw",
    "objects copied or moved keep their value; distinct references passed to a function do not alias unless stated",
]

if __name__ == "__main__":
    main()
