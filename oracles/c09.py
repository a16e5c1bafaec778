from ocommon import *
from wickref import *
vw = have("vh_wick")
vd = have("vh_diag")


def comp(sp, p, mc, lo, hi):
    el = [tuple(tuple(map(tuple, g)) for g in e) for e in vw.elementary(p, mc)]
    exp = composites(p, el, lo, hi)
    if exp is None or len(exp) > 6000:
        return
    what = f"{showp(p, sp)} ranks {lo}..{hi} max cumulant {mc}"
    note("composite contractions of " + what)
    got = [tuple(sorted(c)) for c in vw.composite(p, mc, lo, hi)]
    # the same elementary contraction generated twice would be a different index: compare by content
    f = lambda c: tuple(sorted(el[i] for i in c))
    if Counter(map(f, got)) != Counter(map(f, exp)):
        c1, c2 = Counter(got), Counter(exp)
        fail("composite contractions", what, f"missing {list((c2 - c1).elements())[:3]}", f"extra {list((c1 - c2).elements())[:3]}")
    case((tuple(p), mc, lo, hi), len(exp) > 1)


def dct(e):
    return {t: c for t, c in e}


def lincomb(l):
    r = {}
    for d, c in l:
        for t, v in d.items():
            r[t] = r.get(t, Q(0)) + v * c
    return {t: v for t, v in r.items() if v}


def lib(p):
    return [(l, [list(x) for x in g]) for l, g in p]


def qs(c):
    return (str(c.numerator), str(c.denominator))


def expr(d):
    return vd.expr([(lib(p), qs(c)) for p, c in d])


def public(sp):
    """rank windows add up, contraction is linear"""
    wt = w.WickTheorem()
    mc = rng.choice([1, 2, 100])
    wt.set_max_cumulant(mc)
    wt.set_single_threaded(rng.random() < .8)
    ps = [random_product(rng, sp, maxops=3, maxlegs=8) for _ in range(2)]
    tot = sum(x for _, g in ps[0] for y in g for x in y)
    lo = rng.randint(0, 3)
    hi = rng.randint(lo, max(lo, tot))
    d = [(ps[0], Q(rng.randint(1, 5), rng.randint(1, 3))), (ps[1], Q(rng.randint(-5, -1), 2))]
    f = Q(rng.choice([-3, -1, 2, 5]), rng.randint(1, 4))
    # too many contractions make the factorial graph canonicalization slow
    for p in ps:
        el = elementary(p, [k for _, _, k in sp], mc)
        c = composites(p, el, 0, 99, 400)
        if c is None or max(map(len, c)) > 4:
            return
    inp = f"{[(showp(p), str(c)) for p, c in d]} factor {f} ranks {lo}..{hi} max cumulant {mc} spaces {sp}"
    note("contract " + inp)
    E = expr(d)
    whole = dct(expr_of(vw.contract_expr(wt, qs(f), E, lo, hi)))
    parts = lincomb([(dct(expr_of(vw.contract_expr(wt, qs(f), E, r, r))), Q(1)) for r in range(lo, hi + 1)])
    check("contract over a window = sum over its ranks", inp, parts, whole)
    lin = lincomb([(dct(expr_of(vw.contract_product(wt, ("1", "1"), lib(p), lo, hi))), f * c)
                   for p, c in [(q, c) for q, c in {tuple(p): 0 for p, _ in d}.items()] for c in [sum(x for y, x in d if tuple(y) == tuple(p))]])
    check("contraction is linear in the expression and the factor", inp, lin, whole)
    for t in whole:
        if not (lo <= len(t[0]) <= hi):
            fail("rank of a contracted term", inp, f"{lo}..{hi} operators", show(t))
    case(("pub", tuple(map(tuple, ps)), lo, hi, f), len(whole) > 0)


def run():
    if not vw:
        return
    setup(WSETS[0])
    # a long chain of identical contractions (more than 100)
    p = [("A", ((102, 0), (0, 0))), ("B", ((0, 102), (0, 0)))]
    comp(WSETS[0], p, 100, 0, 0)
    k = 0
    while left() > 1:
        k += 1
        sp = setup(rng.choice(WSETS))
        for _ in range(6):
            p = random_product(rng, sp, maxops=4, maxper=rng.choice([1, 2, 2, 3]), maxlegs=12)
            tot = sum(x for _, g in p for y in g for x in y)
            lo = rng.choice([0, 0, 1, 2, tot])
            hi = rng.choice([lo, lo + 2, tot, tot + 3, lo - 1])
            comp(sp, p, rng.choice([100, 100, 1, 2]), lo, hi)
        if k % 2 and vd:
            public(sp)


main(run, "random products of up to 4 operators and 12 legs over five registries, rank windows of every shape: the list of composite contractions compared as a multiset with an independent enumeration; plus windows-add-up, linearity and rank of the result through contract() on products with at most 4 contractions per term; non-trivial when more than one contraction exists")
