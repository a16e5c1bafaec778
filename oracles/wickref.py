"""Reference for the Wick contraction of diagram operators, written at the level of single second-quantized
operators (legs) and independent of the library: every set of disjoint elementary contractions of single legs is
enumerated, each with the sign of moving its legs together; the weighted sum of the resulting terms is evaluated
numerically over F_p with random antisymmetric tensors.

A product is [(label, ((cre, ann) per space))]."""
import itertools
from collections import Counter
from fractions import Fraction as Q
from math import factorial, comb
from model import *


def legs_of(prod):
    """-> legs [(op, cre?, space, index)], tensors [(label, 'a', lower, upper)], factor"""
    legs, tens, cnt, fac = [], [], Counter(), Q(1)
    for o, (lab, g) in enumerate(prod):
        lo, up = [], []
        for s, (c, a) in enumerate(g):
            for _ in range(c):
                i = (s, cnt[s])
                cnt[s] += 1
                legs.append((o, True, s, i))
                lo.append(i)
            fac /= factorial(c) * factorial(a)
        for s in range(len(g) - 1, -1, -1):
            for _ in range(g[s][1]):
                i = (s, cnt[s])
                cnt[s] += 1
                legs.append((o, False, s, i))
                up.append(i)
        tens.append((lab, "a", tuple(lo), tuple(reversed(up))))
    return legs, tens, fac


def leg_groups(legs, kinds, maxcum):
    """all elementary contractions of single legs: tuples of positions"""
    out = []
    n = len(legs)
    for i in range(n):
        for j in range(i + 1, n):
            a, b = legs[i], legs[j]
            if a[0] == b[0] or a[2] != b[2] or a[1] == b[1]:
                continue
            k = kinds[a[2]]
            if (k == "occupied" and a[1]) or (k == "unoccupied" and b[1]):
                out.append((i, j))
    for s, k in enumerate(kinds):
        if k != "general":
            continue
        C = [i for i in range(n) if legs[i][2] == s and legs[i][1]]
        A = [i for i in range(n) if legs[i][2] == s and not legs[i][1]]
        for m in range(1, min(len(C), len(A), maxcum) + 1):
            for c in itertools.combinations(C, m):
                for a in itertools.combinations(A, m):
                    if len({legs[i][0] for i in c + a}) > 1:
                        out.append(tuple(sorted(c + a)))
    return out


def leg_contractions(groups, n):
    """all sets of disjoint groups"""
    def rec(i, used, cur):
        yield list(cur)
        for k in range(i, len(groups)):
            if not any(used[x] for x in groups[k]):
                for x in groups[k]:
                    used[x] = True
                cur.append(groups[k])
                yield from rec(k + 1, used, cur)
                cur.pop()
                for x in groups[k]:
                    used[x] = False
    yield from rec(0, [False] * n, [])


def wick_terms(prod, spaces, minr, maxr, maxcum=100, limit=4000):
    """[(term, Q)] in the representation of model.py; None when there are more than `limit` leg contractions"""
    kinds = [k for _, _, k in spaces]
    legs, tens, fac = legs_of(prod)
    n = len(legs)
    groups = leg_groups(legs, kinds, maxcum)
    out = []
    cnt = 0
    for con in leg_contractions(groups, n):
        cnt += 1
        if cnt > 60 * limit:
            return None
        r = n - sum(map(len, con))
        if not (minr <= r <= maxr):
            continue
        if len(out) >= limit:
            return None
        used = {x for g in con for x in g}
        free = [i for i in range(n) if i not in used]
        # residual operators in normal order: creation operators first (their order within is antisymmetric)
        res = [i for i in free if legs[i][1]] + [i for i in free if not legs[i][1]]
        order = []
        newt, ren = [], {}
        sg = 1
        for g in con:
            c = [i for i in g if legs[i][1]]
            a = [i for i in g if not legs[i][1]]
            k = kinds[legs[g[0]][2]]
            if k == "general":
                if len(g) == 2:
                    # <a+ a> = gamma1, <a a+> = eta1
                    order += list(g)
                    newt.append(("gamma1" if legs[g[0]][1] else "eta1", "a", (legs[a[0]][3],), (legs[c[0]][3],)))
                else:
                    order += c + a
                    newt.append((f"lambda{len(g) // 2}", "a", tuple(legs[i][3] for i in reversed(a)), tuple(legs[i][3] for i in c)))
            else:
                order += list(g)
                ren[legs[g[1]][3]] = legs[g[0]][3]
        order += res
        sg = parity(order)
        f = lambda i: ren.get(i, i)
        t = (tuple((legs[i][1], f(legs[i][3])) for i in res),
             tuple((l, y, tuple(map(f, lo)), tuple(map(f, up))) for l, y, lo, up in tens + newt))
        out.append((t, sg * fac))
    return out


# ---------------------------------------------------------------- operator-level reference
def elementary(prod, kinds, maxcum=100):
    """multiset-free reference list of the elementary contractions of operators"""
    n = len(prod)
    out = []
    ns = len(kinds)

    def vec(s, c, a):
        return tuple(tuple((c[o], a[o]) if t == s else (0, 0) for t in range(ns)) for o in range(n))
    for s, k in enumerate(kinds):
        C = [p[1][s][0] for p in prod]
        A = [p[1][s][1] for p in prod]
        if k in ("occupied", "unoccupied"):
            L, R = (C, A) if k == "occupied" else (A, C)
            for l in range(n):
                for r in range(l + 1, n):
                    if L[l] > 0 and R[r] > 0:
                        x, y = [0] * n, [0] * n
                        x[l] = 1
                        y[r] = 1
                        out.append(vec(s, x, y) if k == "occupied" else vec(s, y, x))
        else:
            for m in range(1, min(sum(C), sum(A), maxcum) + 1):
                for c in itertools.product(*[range(x + 1) for x in C]):
                    if sum(c) != m:
                        continue
                    for a in itertools.product(*[range(x + 1) for x in A]):
                        if sum(a) == m and sum(x + y > 0 for x, y in zip(c, a)) > 1:
                            out.append(vec(s, c, a))
    return out


def composites(prod, el, minr, maxr, limit=20000):
    """all multisets (as sorted index tuples into el) that fit, with rank in the window; None if too many"""
    n = len(prod)
    free = [[list(x) for x in p[1]] for p in prod]
    tot = sum(x for p in prod for y in p[1] for x in y)
    size = [sum(x for o in e for y in o for x in y) for e in el]
    out = []
    steps = [0]

    def fits(e):
        return all(free[o][s][t] >= e[o][s][t] for o in range(n) for s in range(len(e[o])) for t in (0, 1))

    def move(e, d):
        for o in range(n):
            for s in range(len(e[o])):
                for t in (0, 1):
                    free[o][s][t] += d * e[o][s][t]

    def rec(i, cur, rank):
        steps[0] += 1
        if steps[0] > limit:
            raise OverflowError
        if minr <= rank <= maxr:
            out.append(tuple(cur))
        for k in range(i, len(el)):
            if fits(el[k]):
                move(el[k], -1)
                rec(k, cur + [k], rank - size[k])
                move(el[k], 1)
    try:
        rec(0, [], tot)
    except OverflowError:
        return None
    return out


# ---------------------------------------------------------------- products to test
WSETS = [
    [("o", "fermion", "occupied"), ("v", "fermion", "unoccupied")],
    [("c", "fermion", "occupied"), ("a", "fermion", "general"), ("v", "fermion", "unoccupied")],
    [("a", "fermion", "general")],
    [("a", "fermion", "general"), ("b", "fermion", "general")],
    [("v", "fermion", "unoccupied"), ("o", "fermion", "occupied")],
]


def random_product(rng, sp, maxops=4, maxper=2, maxlegs=10, labels="ABT", pool=None):
    for _ in range(300):
        n = rng.randint(1, maxops)
        if pool is None or rng.random() < .6:
            base = [(rng.choice(labels), tuple((rng.choice([0, 0, 1, 1, maxper]), rng.choice([0, 0, 1, 1, maxper])) for _ in sp)) for _ in range(rng.randint(1, n))]
        else:
            base = pool
        p = [rng.choice(base) for _ in range(n)]
        if sum(x for _, g in p for y in g for x in y) <= maxlegs and (len(p) < 2 or any(x for _, g in p for y in g for x in y)):
            return p
    return [("A", tuple((1, 1) for _ in sp))]


def showp(p, sp=None):
    return " ".join(f"{l}{list(map(list, g))}" for l, g in p) + (f"  spaces {[(s[0], s[2]) for s in sp]}" if sp else "")


def dims(terms):
    return max([len({o[1] for o in t[0]} | {i for x in t[1] for i in x[2] + x[3]}) for t, _ in terms] or [0])
