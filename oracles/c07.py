from ocommon import *
from model import *
vd = have("vh_diag")
SETS = [
    [("o", "fermion", "occupied"), ("v", "fermion", "unoccupied")],
    [("c", "fermion", "occupied"), ("a", "fermion", "general"), ("v", "fermion", "unoccupied")],
    [("a", "fermion", "general")],
]


def commute(a, b):
    return all(not (x[1] and y[0]) and not (x[0] and y[1]) for x, y in zip(a[1], b[1]))


def nops(a):
    return sum(x + y for x, y in a[1])


def kk(o):
    return (o[0], tuple(map(tuple, o[1])))


def expect_ok(p, r, sign, lt):
    """r obtained from p by exchanges of neighbours that commute, with the right sign, none left"""
    from collections import Counter
    if Counter(p) != Counter(r):
        return "an operator was lost or changed"
    def occ(v):
        c, out = Counter(), []
        for x in v:
            out.append((x, c[x]))
            c[x] += 1
        return out
    a, b = occ(p), occ(r)
    pos = {x: i for i, x in enumerate(b)}
    s = 0
    for i in range(len(a)):
        for j in range(i + 1, len(a)):
            if pos[a[i]] > pos[a[j]]:
                if not commute(a[i][0], a[j][0]):
                    return f"non-commuting operators exchanged: {a[i][0]} {a[j][0]}"
                s += nops(a[i][0]) * nops(a[j][0])
    if sign != (-1) ** (s % 2):
        return f"sign {sign} instead of {(-1) ** (s % 2)}"
    for x, y in zip(r, r[1:]):
        if commute(x, y) and lt(y, x):
            return f"an allowed exchange remains: {x} {y}"
    return None


def run():
    if not vd:
        return
    k = 0
    while left() > 1:
        sp = setup(SETS[k % len(SETS)])
        k += 1
        pool = [(rng.choice("ABT"), tuple((rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2])) for _ in sp)) for _ in range(6)]
        for a in pool:
            for b in pool:
                note(f"commute {a} {b}")
                check("do_operators_commute", f"{a} {b}", commute(a, b), vd.do_operators_commute(a, b))
                less = kk(a) < kk(b)
                check("operator <", f"{a} < {b}", less, vd.op_lt(a, b))
                check("operator_noncommuting_less", f"{a} {b}", commute(a, b) and less, vd.operator_noncommuting_less(a, b))
        for _ in range(80):
            p = [rng.choice(pool) for _ in range(rng.randint(0, 8))]
            note(f"canonicalize {p}")
            s, r = vd.prod_canonicalize(p)
            r = [kk(o) for o in r]
            m = expect_ok(p, r, int(s[0]), lambda x, y: kk(x) < kk(y))
            if m:
                fail("canonical operator product", p, m, f"{s} {r}")
            case(tuple(p), len(p) > 1)
        # expressions: coefficients of products that become identical are added
        terms = []
        for _ in range(rng.randint(1, 4)):
            terms.append(([rng.choice(pool[:3]) for _ in range(rng.randint(0, 4))], Q(rng.choice([-2, -1, 1, 3]), rng.randint(1, 3))))
        E = vd.expr([(p, (str(c.numerator), str(c.denominator))) for p, c in terms])
        exp = {}
        for p, c in vd.terms(E):
            s, r = vd.prod_canonicalize(p)
            r = tuple(kk(o) for o in r)
            exp[r] = exp.get(r, Q(0)) + Q(int(c[0]), int(c[1])) * int(s[0])
        exp = {x: c for x, c in exp.items() if c}
        note(f"expression canonicalize {terms}")
        E.canonicalize()
        got = {tuple(kk(o) for o in p): Q(int(c[0]), int(c[1])) for p, c in vd.terms(E)}
        check("operator expression canonicalize", terms, exp, got)


main(run, "random products of up to 8 operators drawn from pools of 6 over three registries: result checked to be reachable by exchanges of commuting neighbours, sign recomputed from the inverted pairs, no allowed exchange left; all pairs of the pool for the commutation test; non-trivial when there are at least two operators")
