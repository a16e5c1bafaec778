from ocommon import *
from model import *
vd = have("vh_diag")
SP = [("o", "fermion", "occupied"), ("v", "fermion", "unoccupied"), ("a", "fermion", "general")]


def add(d, k, c):
    v = d.get(k, Q(0)) + c
    if v:
        d[k] = v
    else:
        d.pop(k, None)


def lin(a, b, s):
    r = dict(a)
    for k, v in b.items():
        add(r, k, s * v)
    return r


def mul(a, b):
    r = {}
    for k, v in a.items():
        for l, u in b.items():
            add(r, k + l, v * u)
    return r


def scale(a, c):
    return {k: v * c for k, v in a.items() if c}


def comm(a, b):
    return lin(mul(a, b), mul(b, a), -1)


def key(p):
    return tuple((l, tuple(map(tuple, g))) for l, g in p)


def read(e):
    return {key(p): Q(int(c[0]), int(c[1])) for p, c in vd.terms(e)}


def build(d):
    return vd.expr([([(l, [list(x) for x in g]) for l, g in k], (str(v.numerator), str(v.denominator))) for k, v in d.items()])


def rnd(maxterms=3, maxlen=2):
    d = {}
    for _ in range(rng.randint(0, maxterms)):
        k = tuple((rng.choice("ABT"), tuple((rng.randint(0, 1), rng.randint(0, 2)) for _ in SP)) for _ in range(rng.randint(0, maxlen)))
        add(d, k, Q(rng.randint(-4, 4), rng.randint(1, 3)))
    return d


def sh(d):
    return " + ".join(f"({c}) " + " ".join(f"{l}{list(g)}" for l, g in k) for k, c in d.items()) or "0"


def deep():
    """high orders: A and B single operators, so the k-fold commutator has k+1 different terms"""
    a = {(("A", ((1, 0), (0, 1), (0, 0))),): Q(2, 3)}
    for b, top in (({(("B", ((0, 1), (1, 0), (0, 0))),): Q(1)}, 22), ({(("A", ((1, 0), (0, 1), (0, 0))),): Q(-1, 2)}, 15),
                   ({(("B", ((0, 1), (1, 0), (0, 0))),): Q(-1, 7)}, 14)):
        A, Bx = build(a), build(b)
        r, t = dict(a), dict(a)
        for n in range(1, top + 1):
            t = comm(t, b)
            r = lin(r, t, Q(1, math.factorial(n)))
            if n > 4:
                inp = f"bch_series({sh(a)}, {sh(b)}, {n})"
                note(inp)
                check("bch_series", inp, r, read(w.bch_series(A, Bx, n)))
                case(inp)


def run():
    setup(SP)
    if not vd:
        return
    deep()
    while left() > 1:
        a, b, c = rnd(), rnd(), rnd(2, 1)
        A, Bx, C = build(a), build(b), build(c)
        inp = f"A={sh(a)} B={sh(b)} C={sh(c)}"
        note(inp)
        check("A built", inp, a, read(A))
        check("A @ B", inp, mul(a, b), read(A @ Bx))
        check("A * B", inp, mul(a, b), read(vd.mul(A, Bx)))
        check("commutator(A,B)", inp, comm(a, b), read(w.commutator(A, Bx)))
        check("commutator (C++)", inp, comm(a, b), read(vd.commutator(A, Bx)))
        if len(a) * len(b) * len(c) < 20:
            check("(A B) C", inp, mul(mul(a, b), c), read((A @ Bx) @ C))
            check("A (B C)", inp, mul(a, mul(b, c)), read(A @ (Bx @ C)))
            check("commutator(A,B,C)", inp, comm(comm(a, b), c), read(w.commutator(A, Bx, C)))
            try:
                check("commutator(A,B,C,B)", inp, comm(comm(comm(a, b), c), b), read(w.commutator(A, Bx, C, Bx)))
            except TypeError:
                pass
        for n in range(0, 5 if len(a) * len(b) <= 4 else 3):
            note(f"bch {n} {inp}")
            r, t = dict(a), dict(a)
            for k in range(1, n + 1):
                t = comm(t, b)
                r = lin(r, t, Q(1, math.factorial(k)))
            check(f"bch_series(A,B,{n})", inp, r, read(w.bch_series(A, Bx, n)))
        n = rng.randint(-3, 5)
        q_ = Q(n, rng.randint(1, 4))
        check(f"{q_} * A", inp, scale(a, q_), read(R(q_) * A))
        check("A unchanged", inp, a, read(A))
        check("B unchanged", inp, b, read(Bx))
        case(inp, len(a) and len(b))
        # operator construction from components
        comps, exp = [], {}
        lab = rng.choice("THW")
        for _ in range(rng.randint(1, 4)):
            s, g = [], [[0, 0] for _ in SP]
            for _ in range(rng.randint(0, 4)):
                i = rng.randrange(len(SP))
                cr = rng.random() < .5
                g[i][0 if cr else 1] += 1
                s.append(SP[i][0] + ("+" if cr else ""))
            comps.append(" ".join(s))
            add(exp, ((lab, tuple(map(tuple, g))),), Q(1))
        note(f"op({lab},{comps})")
        check("op()", f"op({lab!r},{comps})", exp, read(w.op(lab, comps)))
        u = {k: Q(1) for k in exp}
        check("op(unique)", f"op({lab!r},{comps},unique=True)", u, read(w.op(lab, comps, unique=True)))
        # 1/(prod n!) weight of an operator
        g = [(rng.randint(0, 6), rng.randint(0, 6)) for _ in SP]
        f = vd.op_factor((lab, g))
        e = Q(1)
        for x, y in g:
            e /= math.factorial(x) * math.factorial(y)
        check("operator factor", g, e, Q(int(f[0]), int(f[1])))
        # many legs / cumulative sums
        p = [(rng.randint(0, 5), rng.randint(0, 5)) for _ in SP]
        check("graph matrix +", (g, p), [(x + z, y + t_) for (x, y), (z, t_) in zip(g, p)], [tuple(v) for v in vd.gm_add(g, p)])
        check("graph matrix -", (g, p), [(x - z, y - t_) for (x, y), (z, t_) in zip(g, p)], [tuple(v) for v in vd.gm_sub(g, p)])
        check("num_ops", g, sum(x + y for x, y in g), vd.gm_num_ops(g))


main(run, "random operator expressions (<=3 terms of <=2 operators over three spaces): products, nested commutators, BCH orders 0-4, scalar multiples, operator construction; compared with free-algebra arithmetic over exact fractions; non-trivial when both operands are non-zero")
