from ocommon import *
from wickref import *
vw = have("vh_wick")


def lib(p):
    return [(l, [list(x) for x in g]) for l, g in p]


def one(sp, p, lo, hi, mc):
    el = elementary(p, [k for _, _, k in sp], mc)
    cs = composites(p, el, lo, hi, 1500)
    if cs is None or not cs or len(cs) > 150 or max(map(len, cs)) > 4 or len(p) > 4:
        return
    res = []
    inp = f"{showp(p, sp)} ranks {lo}..{hi} max cumulant {mc}"
    for g in (True, False):
        wt = w.WickTheorem()
        wt.set_max_cumulant(mc)
        wt.set_single_threaded(True)
        wt.do_canonicalize_graph(g)
        note(f"contract {inp} do_canonicalize_graph({g})")
        res.append(expr_of(vw.contract_product(wt, ("1", "1"), lib(p), lo, hi)))
    a, b = dict(res[0]), dict(res[1])
    same = a == b
    if not same:
        # same operator written differently is allowed: compare the values of the difference
        diff = {t: a.get(t, Q(0)) - b.get(t, Q(0)) for t in set(a) | set(b)}
        diff = [(t, c) for t, c in diff.items() if c]
        if dims(diff) > 8:
            case((tuple(p), lo, hi), False)
            return
        for dim, seed in ((2, 5), (3, 7)):
            if dim ** dims(diff) > 7000:
                continue
            if Model(sp, seed + rng.randrange(1 << 20), dim).value(diff, set()):
                fail("result with graph canonicalization on and off", inp, "equal values",
                     "difference " + showe(diff)[:1500])
                break
    case((tuple(p), lo, hi, mc), len(cs) > 1)


def run():
    if not vw:
        return
    while left() > 1:
        sp = setup(rng.choice(WSETS))
        for _ in range(5):
            # repeated operators are what makes graphs equivalent
            base = random_product(rng, sp, maxops=2, maxper=2, maxlegs=6)
            p = [rng.choice(base) for _ in range(rng.randint(2, 4))]
            if sum(x for _, g in p for y in g for x in y) > 10:
                continue
            tot = sum(x for _, g in p for y in g for x in y)
            lo = rng.randint(0, tot)
            one(sp, p, lo, rng.choice([lo, lo, lo + 2]), rng.choice([100, 100, 1, 2]))


main(run, "random products of 2 to 4 operators drawn from at most 2 distinct ones, up to 10 legs, over five registries: contract() with do_canonicalize_graph on and off, equality of the expressions or else of their values on random tensors with 2 and 3 orbitals per space; non-trivial when more than one contraction exists")
