from ocommon import *
from model import *
vh = have("vh_core")
vd = have("vh_diag")


def T(i):
    """a family of distinct symbolic terms"""
    ops = ((True, (0, i % 3)), (False, (1, (i // 3) % 3)))[: i % 3]
    return (ops, (("tfV"[i % 3], "a", ((0, i % 2),), ((1, i // 2),)),) if i % 4 else ())


def mt(t):
    return mk_term(t)


def dic(e):
    d = {}
    for t, c in e:
        t = term_of(t)
        c = rat(c)
        if t in d:
            fail("same term stored twice", "expression", "one entry per term", show(t))
        if c == 0:
            fail("zero coefficient stored", "expression", "no zero terms", show(t))
        d[t] = c
    return d


def add(d, t, c):
    v = d.get(t, Q(0)) + c
    if v:
        d[t] = v
    else:
        d.pop(t, None)


def big(c):
    return (str(c.numerator), str(c.denominator))


class Pair:
    """library expression and its model"""

    def __init__(self):
        self.e, self.d, self.h = w.Expression(), {}, []


def rq(zero=True):
    n = rng.randint(-6, 6)
    if not zero and n == 0:
        n = 1
    return Q(n, rng.choice([1, 1, 2, 3, 5, -2]))


def same(p, what):
    got = dic(p.e)
    if got != p.d:
        fail(what, "; ".join(p.h), {show(k): str(v) for k, v in p.d.items()}, {show(k): str(v) for k, v in got.items()})
        return False
    if len(p.e) != len(p.d):
        fail("len", "; ".join(p.h), len(p.d), len(p.e))
    return True


def mulm(a, b):
    r = {}
    for (o1, t1), c1 in a.items():
        for (o2, t2), c2 in b.items():
            add(r, (o1 + o2, t1 + t2), c1 * c2)
    return r


def history():
    ps = [Pair() for _ in range(3)]
    for _ in range(rng.randint(3, 14)):
        p, q = rng.choice(ps), rng.choice(ps)
        op = rng.choice(["term", "term", "term", "add", "sub", "neg", "scale", "iadd", "mul", "bigadd", "bigscale", "div", "dot", "eq"])
        t, c = T(rng.randrange(12)), rq()
        if rng.random() < .3 and p.d:
            t = rng.choice(list(p.d))
            if rng.random() < .5:
                c = -p.d[t]
        note("; ".join(p.h[-8:]) + " then " + op + f" {c} {show(t)}")
        if op == "term":
            p.h.append(f"+= ({c}) {show(t)}")
            p.e += (mt(t), R(c))
            add(p.d, t, c)
        elif op == "iadd":
            p.h.append(f"+= {show(t)}")
            if rng.random() < .5:
                p.e += mt(t)
                add(p.d, t, Q(1))
            else:
                x = w.Term(mt(t))
                x.set(R(c))
                p.e += x
                add(p.d, t, c)
                p.h[-1] = f"+= Term({c}) {show(t)}"
        elif op in ("add", "sub") and p is not q:
            s = 1 if op == "add" else -1
            p.h.append(f"{op} [{'; '.join(q.h)}]")
            p.e = p.e + q.e if s == 1 else p.e - q.e
            for k, v in q.d.items():
                add(p.d, k, s * v)
            same(q, "operand changed by " + op)
        elif op == "neg":
            p.h.append("negate")
            p.e = -p.e
            p.d = {k: -v for k, v in p.d.items()}
        elif op == "scale":
            p.h.append(f"* {c}")
            p.e = p.e * R(c)
            p.d = {k: v * c for k, v in p.d.items() if c}
        elif op == "bigscale" and vh:
            c = rng.choice([Q(0), Q(rng.randint(-10**30, 10**30), rng.randint(1, 10**30))])
            if max([abs(v.numerator) + v.denominator for v in p.d.values()] + [0]) > 10**40:
                continue
            p.h.append(f"*= {c}")
            p.e = vh.expr_scale(p.e, big(c))
            p.d = {k: v * c for k, v in p.d.items() if c}
            got = {term_of(t): Q(int(x[0]), int(x[1])) for t, x in vh.expr_terms(p.e)}
            check("scalar multiple", "; ".join(p.h), p.d, got)
            p.e, p.d = w.Expression(), {}
            p.h = []
        elif op == "div" and vh and c:
            p.h.append(f"/= {c}")
            p.e = vh.expr_div(p.e, big(c))
            p.d = {k: v / c for k, v in p.d.items()}
        elif op == "mul" and len(p.d) * len(q.d) <= 40 and max([len(k[0]) + len(k[1]) for k in p.d] + [0]) < 6:
            p.h.append(f"@ [{'; '.join(q.h)}]")
            qd = dict(q.d)
            p.e = p.e @ q.e
            p.d = mulm(p.d, qd)
            if p is not q:
                same(q, "operand changed by product")
        elif op == "dot":
            exp = sum((v * q.d[k] for k, v in p.d.items() if k in q.d), Q(0))
            if max(exp.numerator, exp.denominator, -exp.numerator) < 2**60:
                check("dot", f"[{'; '.join(p.h)}] . [{'; '.join(q.h)}]", exp, rat(p.e.dot(q.e)))
            n2 = float(sum(v * v for v in p.d.values())) ** .5
            g = p.e.norm()
            if abs(g - n2) > 1e-9 * (1 + n2):
                fail("norm", "; ".join(p.h), n2, g)
        elif op == "eq":
            check("==", f"[{'; '.join(p.h)}] == [{'; '.join(q.h)}]", p.d == q.d, bool(p.e == q.e))
            if vh:
                check("contains", f"[{'; '.join(p.h)}] contains {show(t)}", t in p.d, vh.expr_contains(p.e, mt(t)))
                check("is_equal", f"[{'; '.join(p.h)}] is [{'; '.join(q.h)}]", p.d == q.d, vh.expr_is_equal(p.e, q.e))
        if max([abs(v.numerator) + v.denominator for v in p.d.values()] + [0]) > 2**55:
            p.e, p.d, p.h = w.Expression(), {}, []
        if not same(p, "coefficients"):
            return
    case(tuple(map(lambda p: tuple(p.h), ps)), any(len(p.d) > 1 for p in ps))


def diag_history():
    """the same for operator expressions"""
    pool = [[("A", [(1, 0), (0, 1)])], [("B", [(0, 1), (1, 0)])], [("A", [(1, 0), (0, 1)]), ("B", [(0, 1), (1, 0)])], [], [("A", [(1, 1), (0, 0)])], [("A", [(1, 0), (0, 1)]), ("A", [(1, 0), (0, 1)])]]
    key = lambda p: tuple((l, tuple(map(tuple, g))) for l, g in p)

    def read(e):
        d = {}
        for p, c in vd.terms(e):
            c = Q(int(c[0]), int(c[1]))
            if c == 0:
                fail("zero coefficient stored", h, "no zero terms", p)
            d[key(p)] = c
        return d
    ab = []
    for _ in range(2):
        d = {}
        v = []
        for _ in range(rng.randint(0, 5)):
            p, c = rng.choice(pool), rq()
            v.append((p, big(c)))
            add(d, key(p), c)
        ab.append((v, d))
    (va, da), (vb, db) = ab
    h = f"A={va} B={vb}"
    note(h)
    A, Bx = vd.expr(va), vd.expr(vb)
    check("operator expression", h, da, read(A))

    def comb(s):
        r = dict(da)
        for k, v in db.items():
            add(r, k, s * v)
        return r
    check("A + B", h, comb(1), read(vd.plus(A, Bx)))
    check("A - B", h, comb(-1), read(vd.minus(A, Bx)))
    check("A + B (Python)", h, comb(1), read(A + Bx))
    check("A - B (Python)", h, comb(-1), read(A - Bx))
    c = rq()
    check(f"A + {c} B", h, comb(c), read(vd.add2(A, Bx, big(c))))
    check(f"A * {c}", h, {k: v * c for k, v in da.items() if c}, read(vd.scale(A, big(c))))
    if c:
        check(f"A / {c}", h, {k: v / c for k, v in da.items()}, read(vd.div(A, big(c))))
    check("-A", h, {k: -v for k, v in da.items()}, read(vd.neg(A)))
    m = {}
    for k, v in da.items():
        for k2, v2 in db.items():
            add(m, k + k2, v * v2)
    check("A * B", h, m, read(vd.mul(A, Bx)))
    check("A *= B", h, m, read(vd.muleq(A, Bx)))
    e = sum((v * db[k] for k, v in da.items() if k in db), Q(0))
    g = vd.dot(A, Bx)
    check("dot", h, e, Q(int(g[0]), int(g[1])))
    check("A == B", h, da == db, bool(A == Bx))
    check("A unchanged", h, da, read(A))
    case(h, len(da) > 1)


def run():
    setup(SPACESETS[0])
    while left() > 1:
        for _ in range(60):
            history()
        if vd:
            for _ in range(40):
                diag_history()


main(run, "random histories of += (term, pair, Term), +, -, unary -, * scalar (incl. 0), / scalar, @, dot, norm, == on three expressions over a pool of 12 terms, compared entry by entry with a dictionary model after every step; the same for operator expressions; non-trivial when some expression has several terms")
