from ocommon import *
from model import *
import itertools
vh = have("vh_core")
vd = have("vh_diag")


def laws(name, objs, lt, eq, show_, real_same=None):
    n = len(objs)
    L = [[bool(lt(a, b)) for b in objs] for a in objs]
    E = [[bool(eq(a, b)) for b in objs] for a in objs]
    for i in range(n):
        if L[i][i]:
            fail(name + ": not irreflexive", show_(objs[i]), "x < x is false", "true")
        for j in range(n):
            s = f"{show_(objs[i])} , {show_(objs[j])}"
            if L[i][j] and L[j][i]:
                fail(name + ": not antisymmetric", s, "not both x<y and y<x", "both")
            if (not L[i][j] and not L[j][i]) != E[i][j]:
                fail(name + ": unordered and equal disagree", s, f"unordered == {not L[i][j] and not L[j][i]}", f"equal == {E[i][j]}")
            if real_same and real_same(objs[i], objs[j]) != E[i][j]:
                fail(name + ": wrong equality", s, real_same(objs[i], objs[j]), E[i][j])
            if E[i][j] != E[j][i]:
                fail(name + ": equality not symmetric", s, E[i][j], E[j][i])
            case((name, s), i != j)
    # a strict weak order on n objects is the order of a ranking: count predecessors
    B = [sum(1 << j for j in range(n) if L[j][i]) for i in range(n)]
    for i in range(n):
        for j in range(n):
            if L[i][j] and B[i] & ~B[j]:
                k = next(k for k in range(n) if B[i] >> k & 1 and not B[j] >> k & 1)
                fail(name + ": not transitive", f"{show_(objs[k])} < {show_(objs[i])} < {show_(objs[j])}", "first < third", "false")
                return
            if E[i][j] and B[i] != B[j]:
                fail(name + ": equal objects order differently", f"{show_(objs[i])} , {show_(objs[j])}", "same predecessors", "different")
                return


def rounds(sp):
    ns = len(sp)
    P3 = [0, 1, 2] if rng.random() < .5 else sorted(rng.sample(BIGPOS, 3))
    I = [(s, p) for s in range(ns) for p in P3]
    obj = [IX(i) for i in I]
    laws("Index", obj, lambda a, b: a < b, lambda a, b: a == b, str, lambda a, b: idx(a) == idx(b))
    ops = [mk_op((c, i)) for c in (True, False) for i in I[: 3 * min(ns, 3)]]
    so = lambda o: (o.type() == CRE, idx(o.index()))
    laws("SQOperator", ops, lambda a, b: a < b, lambda a, b: a == b, str, lambda a, b: so(a) == so(b))
    laws("SQOperator normal_ordered_less", ops, lambda a, b: a.normal_ordered_less(b), lambda a, b: a == b, str)
    for a in ops:
        for b in ops:
            x, y = so(a), so(b)
            e = x[0] if x[0] != y[0] else (x[1] < y[1] if x[0] else y[1] < x[1])
            check("SQOperator <", f"{a} < {b}", e, bool(a < b))
            q_ = lambda z: (not z[0]) if sp[z[1][0]][2] == "occupied" else z[0]
            e = q_(x) if q_(x) != q_(y) else (x[1] < y[1] if q_(x) else y[1] < x[1])
            check("normal_ordered_less", f"{a} , {b}", e, bool(a.normal_ordered_less(b)))
    if vh:
        laws("Index (C++)", obj, vh.index_lt, vh.index_eq, str)
        def rl(m):
            return tuple(rng.choice(I[:4]) for _ in range(rng.randint(0, m)))
        T = [(rng.choice(["t", "f", "tt", "V"]), rng.choice("asn"), rl(2), rl(2)) for _ in range(40)]
        T += [(a, "a", lo, up) for a in ("t", "f") for lo in ((), ((0, 0),), ((0, 1),)) for up in ((), ((0, 0),), ((0, 1),))]
        st = lambda t: show(((), (t,)))
        o = [(t, mk_tensor(t)) for t in T]
        laws("Tensor", o, lambda a, b: vh.tensor_lt(a[1], b[1]), lambda a, b: vh.tensor_eq(a[1], b[1]), lambda a: st(a[0]), lambda a, b: (a[0][0], a[0][2:]) == (b[0][0], b[0][2:]))
        small = [T[rng.randrange(len(T))] for _ in range(3)]
        S = [(tuple((rng.random() < .5, rng.choice(I[:3])) for _ in range(rng.randint(0, 2))), tuple(rng.choice(small) for _ in range(rng.randint(0, 2)))) for _ in range(60)]
        o = [(t, mk_term(t, rng.random() < .0)) for t in S]
        ksym = lambda t: (t[0], tuple((x[0], x[2], x[3]) for x in t[1]))
        laws("SymbolicTerm", o, lambda a, b: vh.term_lt(a[1], b[1]), lambda a, b: vh.term_eq(a[1], b[1]), lambda a: show(a[0]), lambda a, b: ksym(a[0]) == ksym(b[0]))
    if vd:
        G = [[(rng.randint(0, 1), rng.randint(0, 2)) for _ in sp] for _ in range(40)]
        laws("GraphMatrix", G, vd.gm_lt, vd.gm_eq, str, lambda a, b: a == b)
        for a in G[:12]:
            for b in G[:12]:
                check("GraphMatrix !=", (a, b), a != b, vd.gm_ne(a, b))
        O = [(rng.choice(["A", "B", "AB"]), rng.choice(G[:8])) for _ in range(40)]
        laws("Operator", O, vd.op_lt, vd.op_eq, str, lambda a, b: a == b)
        for a in O[:12]:
            for b in O[:12]:
                check("Operator !=", (a, b), a != b, vd.op_ne(a, b))
        Pd = [[rng.choice(O[:4]) for _ in range(rng.randint(0, 3))] for _ in range(40)]
        laws("OperatorProduct", Pd, vd.prod_lt, vd.prod_eq, str, lambda a, b: a == b)


def merge(sp):
    """a sum never stores equal keys twice and finds every key"""
    ts = [(random_term(rng, sp, ntens=2, nops=2, maxlabels=2, maxrank=2), Q(1)) for _ in range(25)]
    e = mk_expr(ts)
    d = {}
    for t, c in ts:
        d[t] = d.get(t, 0) + c
    check("sum of terms", showe(ts), d, dict(expr_of(e)))


MANY = [(l, "fermion" if l != "c" else "boson", k) for l, k in zip("abcdefgh", ["occupied", "unoccupied", "general"] * 3)]


def run():
    k = 0
    while left() > 1:
        sp = setup((SPACESETS + [MANY])[k % (len(SPACESETS) + 1)])
        k += 1
        rounds(sp)
        for _ in range(10):
            merge(sp)


main(run, "all pairs/triples (by predecessor sets) of 40-60 random objects per kind and round over five registries: irreflexive, antisymmetric, transitive, unordered iff equal, equality as documented; non-trivial for pairs of different objects")
