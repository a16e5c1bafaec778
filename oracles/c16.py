from ocommon import *
from model import *


def run():
    k = 0
    while left() > 1:
        sp = setup(SPACESETS[k % len(SPACESETS)])
        k += 1
        for _ in range(60):
            ts = []
            for _ in range(rng.randint(0, 5)):
                t = random_term(rng, sp, nops=rng.choice([0, 1, 2, 4, 6]), syms="asn")
                ops = tuple(sorted(t[0], key=lambda o: not o[0]))
                ts.append(((ops, t[1]), Q(rng.choice([-5, -2, -1, 1, 3]), rng.randint(1, 6))))
            e = mk_expr(ts)
            terms = expr_of(e)
            inp = showe(ts)
            lab = rng.choice(["R", "H", "res"])
            note(f"to_manybody_equation({lab}) {inp}")
            eqs = e.to_manybody_equation(lab)
            exp = {}
            for t, c in terms:
                lo = tuple(i for cr, i in t[0] if cr)
                up = tuple(i for cr, i in reversed(t[0]) if not cr)
                key = "".join(s[0] * sum(1 for i in up if i[0] == n) for n, s in enumerate(sp)) + "|" + \
                      "".join(reversed("".join(s[0] * sum(1 for i in lo if i[0] == n) for n, s in enumerate(sp))))
                exp.setdefault(key, []).append(((((), ((lab, "a", lo, up),))), ((), t[1]), c))
            got = {}
            for kx, v in eqs.items():
                for q in v:
                    got.setdefault(kx, []).append((term_of(q.lhs()), term_of(q.rhs()), rat(q.rhs_factor())))
                    r = expr_of(q.rhs_expression())
                    check("rhs_expression", inp, [(term_of(q.rhs()), rat(q.rhs_factor()))], r)
                if not v:
                    fail("empty group", inp, "no empty group", kx)
            f = lambda d: {a: sorted(map(repr, b)) for a, b in d.items()}
            check("many-body equations", inp, f(exp), f(got))
            check("operand changed", inp, terms, expr_of(e))
            case(inp, len(ts) > 1)


main(run, "random sums of 0-5 terms in creation-then-annihilation order over five registries: groups, left-hand tensors, right-hand tensors and factors compared with the term list (nothing dropped or duplicated); non-trivial with at least two terms")
