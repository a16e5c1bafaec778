from ocommon import *
from wickref import *
import subprocess
vw = have("vh_wick")
vd = have("vh_diag")


def lib(p):
    return [(l, [list(x) for x in g]) for l, g in p]


def one(sp, p, lo, hi, mc, graph, f):
    el = elementary(p, [k for _, _, k in sp], mc)
    cs = composites(p, el, lo, hi, 1500)
    if cs is None or not cs or len(cs) > 400 or max(map(len, cs)) > 4 or len(p) > 4:
        return
    inp = f"{showp(p, sp)} ranks {lo}..{hi} max cumulant {mc} factor {f} graph canonicalization {graph}"
    res = []
    for single in (True, False, False):
        wt = w.WickTheorem()
        wt.set_max_cumulant(mc)
        wt.do_canonicalize_graph(graph)
        wt.set_single_threaded(single)
        note(f"contract {inp} single threaded {single}")
        res.append(dict(expr_of(vw.contract_product(wt, (str(f.numerator), str(f.denominator)), lib(p), lo, hi))))
    if res[0] != res[1] or res[0] != res[2]:
        bad = res[1] if res[0] != res[1] else res[2]
        d = {t: bad.get(t, Q(0)) - res[0].get(t, Q(0)) for t in set(bad) | set(res[0])}
        fail("threaded result", inp, showe(list(res[0].items()))[:1500], "threaded minus single: " + showe([(t, c) for t, c in d.items() if c])[:1500])
    # one engine used in both modes in turn
    wt = w.WickTheorem()
    wt.set_max_cumulant(mc)
    wt.do_canonicalize_graph(graph)
    for single in (False, True, False):
        wt.set_single_threaded(single)
        note(f"contract {inp} same engine, single threaded {single}")
        r = dict(expr_of(vw.contract_product(wt, (str(f.numerator), str(f.denominator)), lib(p), lo, hi)))
        if r != res[0]:
            fail("repeated use of one engine", inp, showe(list(res[0].items()))[:1500], showe(list(r.items()))[:1500])
    case((tuple(p), lo, hi, mc, graph), len(cs) > 1)


def many():
    """more contractions than any reasonable batch of tasks"""
    sp = setup([("a", "fermion", "general")])
    for p, mc, lo, hi in [([("A", ((2, 2),))] * 4, 1, 0, 10)]:
        for graph in (False,):
            res = []
            for single in (True, False):
                wt = w.WickTheorem()
                wt.set_max_cumulant(mc)
                wt.do_canonicalize_graph(graph)
                wt.set_single_threaded(single)
                note(f"contract {showp(p, sp)} ranks {lo}..{hi} single threaded {single}")
                res.append(dict(expr_of(vw.contract_product(wt, ("1", "1"), lib(p), lo, hi))))
            if res[0] != res[1]:
                d = {t: res[1].get(t, Q(0)) - res[0].get(t, Q(0)) for t in set(res[1]) | set(res[0])}
                fail("threaded result", f"{showp(p, sp)} ranks {lo}..{hi} max cumulant {mc} graph canonicalization {graph}", f"{len(res[0])} terms", "threaded minus single: " + showe([(t, c) for t, c in d.items() if c])[:1500])
            case((tuple(p), lo, hi, mc, graph))


def run():
    if not vw:
        return
    many()
    while left() > 1:
        sp = setup(rng.choice(WSETS))
        for _ in range(4):
            p = random_product(rng, sp, maxops=4, maxper=2, maxlegs=12)
            tot = sum(x for _, g in p for y in g for x in y)
            lo = rng.randint(0, tot)
            one(sp, p, lo, rng.choice([lo, lo + 2, tot]), rng.choice([100, 100, 1, 2]), rng.random() < .6, Q(rng.choice([1, -1, 2, 3]), rng.choice([1, 2])))


main(run, "random products of up to 4 operators and 12 legs over five registries with up to 400 contractions, contracted single threaded once and with threads several times, by fresh and by reused engines; non-trivial when more than one contraction exists")
