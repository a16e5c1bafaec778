from ocommon import *
from model import *
vh = have("vh_core")
vd = have("vh_diag")


def adj(t):
    return (tuple((not c, i) for c, i in reversed(t[0])), t[1])


def run():
    k = 0
    while left() > 1:
        sp = setup(SPACESETS[k % len(SPACESETS)])
        k += 1
        for _ in range(60):
            ts = [(random_term(rng, sp, syms="asn"), Q(rng.choice([-2, -1, 1, 3]), rng.randint(1, 4))) for _ in range(rng.randint(1, 4))]
            e = mk_expr(ts)
            before = dict(expr_of(e))
            inp = showe(ts)
            note("adjoint " + inp)
            a = e.adjoint()
            exp = {}
            for t, c in before.items():
                exp[adj(t)] = exp.get(adj(t), 0) + c
            exp = {x: c for x, c in exp.items() if c}
            check("adjoint", inp, exp, dict(expr_of(a)))
            check("operand changed by adjoint", inp, before, dict(expr_of(e)))
            check("adjoint twice", inp, before, dict(expr_of(a.adjoint())))
            if len(ts) > 1:
                x, y = mk_expr(ts[:1]), mk_expr(ts[1:2])
                note(f"adjoint of product {showe(ts[:2])}")
                l = {}
                for t, c in expr_of((x @ y).adjoint()):
                    l[(t[0], tuple(sorted(t[1])))] = c
                r = {}
                for t, c in expr_of(y.adjoint() @ x.adjoint()):
                    r[(t[0], tuple(sorted(t[1])))] = c
                check("(A B)+ = B+ A+", showe(ts[:2]), r, l)
            if vh:
                t = ts[0][0]
                for i, tn in enumerate(t[1]):
                    T = mk_tensor(tn)
                    A = vh.tensor_adjoint(T)
                    B = vh.tensor_adjoint(A)
                    f = lambda z: (z.label(), SYM[z.symmetry()], tuple(map(idx, z.lower())), tuple(map(idx, z.upper())), vh.tensor_cc(z))
                    check("tensor adjoint", show(((), (tn,))), tn + (True,), f(A))
                    check("tensor adjoint twice", show(((), (tn,))), tn + (False,), f(B))
                for o in t[0]:
                    g = vh.sqop_adjoint(mk_op(o))
                    check("operator adjoint", opstr(o), (not o[0], o[1]), (g.type() == CRE, idx(g.index())))
                for no in (False, True):
                    m = mk_term(t, no)
                    n = vh.term_adjoint(m)
                    check("term adjoint", f"{show(t)} normal_ordered={no}", (adj(t), no), (term_of(n), vh.term_normal(n)))
                    ccs = [vh.tensor_cc(z) for z in n.tensors()]
                    check("tensors of an adjoint term are conjugated", show(t), [True] * len(t[1]), ccs)
            case(inp, any(t[0] for t, _ in ts))
            if vd:
                ns = len(sp)
                g = [(rng.randint(0, 4), rng.randint(0, 4)) for _ in range(ns)]
                gs = [(b, a_) for a_, b in g]
                note(f"diagram adjoint {g}")
                check("graph matrix adjoint", g, gs, [tuple(x) for x in vd.gm_adjoint(g)])
                ops = [(rng.choice("ABT"), [(rng.randint(0, 2), rng.randint(0, 2)) for _ in range(ns)]) for _ in range(rng.randint(0, 4))]
                exp = [(l, [(b, a_) for a_, b in m]) for l, m in reversed(ops)]
                got = [(l, [tuple(x) for x in m]) for l, m in vd.prod_adjoint(ops)]
                check("operator product adjoint", ops, exp, got)
                h = [(ops, (str(rng.randint(1, 5)), "3")), ([("Z", g)], ("-1", "2"))]
                E = vd.expr(h)
                ky = lambda v: {tuple((l, tuple(map(tuple, m))) for l, m in p): c for p, c in v}
                got = ky(vd.terms(E.adjoint()))
                ex = ky([([(l, [(b, a_) for a_, b in m]) for l, m in reversed(p)], c) for p, c in vd.terms(E)])
                check("operator expression adjoint", h, ex, got)


main(run, "random sums of 1-4 terms with 0-3 tensors and 0-4 operators over five registries; random diagram operators, products and expressions; each adjoint compared with the reversed/conjugated model, applied twice, and on products; non-trivial when the term carries operators")
