"""Shared part of the bounded oracles: case counting, failures, crash notes, time budget."""
import sys, os, json, time, random, mmap, math
from fractions import Fraction as Q

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
BUDGET = float(os.environ.get("ORACLE_BUDGET", "25"))
MODS = [m for m in os.environ.get("VH_MODS", "vh_core,vh_diag,vh_wick").split(",") if m]
FOCUS = os.environ.get("FOCUS", "")
rng = random.Random(SEED * 1000003 + (17 if FOCUS else 0))
T0 = time.time()
OUT = sys.argv[1] if len(sys.argv) > 1 else "/tmp/w/oracle.json"

state = {"evaluations": 0, "rule": "", "samples": [], "failures": []}
_seen = set()
_last = None
MAXFAIL = 25


def _open_last():
    global _last
    with open(OUT + ".last", "wb") as f:
        f.write(b"\0" * 65536)
    f = open(OUT + ".last", "r+b")
    _last = mmap.mmap(f.fileno(), 65536)


def left():
    return BUDGET - (time.time() - T0)


def have(m):
    if m not in MODS:
        return None
    try:
        return __import__(m)
    except Exception as e:
        print("no", m, e)
        return None


def note(s):
    """what is about to be run (survives a crash)"""
    if _last is None:
        _open_last()
    b = str(s).encode()[:60000]
    _last[0:len(b) + 1] = b + b"\0"


def case(key, nontrivial=True):
    state["evaluations"] += 1
    if nontrivial and len(_seen) < 2000000:
        _seen.add(hash(key))
    if len(state["samples"]) < 3 or (len(state["samples"]) < 10 and rng.random() < 0.002):
        state["samples"].append(str(key)[:300])


def fail(what, inp, expected, got, id=None):
    if len(state["failures"]) < MAXFAIL:
        state["failures"].append({"what": what, "input": str(inp)[:4000], "expected": str(expected)[:2000], "got": str(got)[:2000], "id": id})
    if len(state["failures"]) >= MAXFAIL:
        done()
        sys.exit(0)


def check(what, inp, expected, got):
    if expected != got:
        fail(what, inp, expected, got)
        return False
    return True


def done(rule=None):
    if rule:
        state["rule"] = rule
    state["distinct_nontrivial"] = len(_seen)
    with open(OUT, "w") as f:
        json.dump(state, f)


def main(fn, rule):
    state["rule"] = rule
    import signal
    try:
        fn()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        state["error"] = traceback.format_exc()[-3000:]
        print(state["error"])
        done()
        sys.stdout.flush()
        os._exit(3)
    done()
    sys.stdout.flush()
    os._exit(0)
