from ocommon import *
from model import *
vh = have("vh_core")


def relabel_ok(a, b):
    """b's tensors/ops are a's with indices relabelled one-to-one within spaces (up to order)"""
    la = {o[1] for o in a[0]} | {i for x in a[1] for i in x[2] + x[3]}
    lb = {o[1] for o in b[0]} | {i for x in b[1] for i in x[2] + x[3]}
    from collections import Counter
    return Counter(i[0] for i in la) == Counter(i[0] for i in lb)


def distinct_ids(t):
    """no antisymmetric tensor with a repeated index in one list, no repeated operator: sorting has a defined sign"""
    for l, y, lo, up in t[1]:
        if len(set(lo)) != len(lo) or len(set(up)) != len(up):
            return False
    return len(set(t[0])) == len(t[0])


def one(terms, spaces, dim=2):
    inp = showe(terms)
    note(inp)
    e = mk_expr(terms)
    before = expr_of(e)
    r = e.canonicalize()
    after = expr_of(r)
    M = Model(spaces, rng.randrange(1 << 30), dim)
    va, vb = M.value(before), M.value(after)
    if va != vb:
        fail("value changed by canonicalize", inp, f"the same operator as the input", showe(after))
        return
    for t, c in after:
        if c == 0:
            fail("zero term stored", inp, "no zero coefficient", showe(after))
    if vh:
        for t, c in terms:
            s, u = vh.term_canonicalize(mk_term(t))
            u = term_of(u)
            if not relabel_ok(t, u):
                fail("distinct indices became equal (or changed space)", show(t), "one-to-one relabelling inside each space", show(u))
                return
            sg = Q(int(s[0]), int(s[1]))
            if abs(sg) != 1:
                fail("factor is not a sign", show(t), "+1 or -1", sg)
            if M.value([(t, Q(1))]) != M.value([(u, sg)]):
                fail("SymbolicTerm::canonicalize changed the value", show(t), "equal operator", f"({sg}) {show(u)}")
                return


def reindex(spaces):
    """reindexing an expression renames indices everywhere and nothing else"""
    ts = [(random_term(rng, spaces), Q(rng.randint(1, 5), rng.randint(1, 4))) for _ in range(rng.randint(1, 3))]
    labels = sorted({o[1] for t, _ in ts for o in t[0]} | {i for t, _ in ts for x in t[1] for i in x[2] + x[3]})
    # simultaneous renaming inside each space
    mp = {}
    for l in labels:
        if rng.random() < .8:
            mp[l] = (l[0], rng.randint(0, 9))
    f = lambda i: mp.get(i, i)
    e = mk_expr(ts)
    note(f"reindex {showe(ts)} {mp}")
    got = expr_of(vh.expr_reindex(e, [(IX(a), IX(b)) for a, b in mp.items()]))
    exp = {}
    for t, c in expr_of(e):
        u = (tuple((o[0], f(o[1])) for o in t[0]), tuple((x[0], x[1], tuple(map(f, x[2])), tuple(map(f, x[3]))) for x in t[1]))
        exp[u] = exp.get(u, 0) + c
    exp = {k: v for k, v in exp.items() if v}
    check("Expression::reindex", f"{showe(ts)} with {mp}", exp, dict(got))


def directed():
    sp = setup(SPACESETS[0])
    o = lambda p: (0, p)
    v = lambda p: (1, p)
    for t in [
        (((True, o(0)), (False, v(1))), (("f", "a", (v(0),), (v(0),)),)),
        (((True, v(0)), (True, v(1)), (False, o(1)), (False, o(0))), (("t", "a", (o(0), o(1)), (v(0), v(1))),)),
        (((True, v(0)), (True, o(0)), (False, o(1)), (False, v(1))), (("t", "a", (o(5),), (v(5),)), ("V", "a", (v(1), o(1)), (o(5), v(5))))),
        ((), (("V", "a", (o(0), o(1)), (v(0), v(1))), ("t", "a", (v(1),), (o(1),)), ("t", "a", (v(0),), (o(0),)))),
        ((), (("V", "a", (o(0), o(1)), (v(0), v(1))), ("t", "a", (v(0), v(1)), (o(1), o(0))))),
        (((True, o(3)), (False, o(3))), ()),
        (((False, o(3)), (True, o(3))), ()),
        (((True, o(1)), (False, o(0))), (("f", "a", (o(1),), (o(2),)), ("f", "a", (o(2),), (o(7),)))),
    ]:
        one([(t, Q(1))], sp)
        case(show(t))


def long_terms():
    """more than 64 indices in one space: too many to sum over; the relabelling and the sign are checked directly"""
    sp = setup(SPACESETS[0])
    for n in (40, 63, 64, 65, 66, 70, 129, 200):
        ps = [rng.randrange(10**6) for _ in range(n)]
        t = ((), tuple(("t", "a", ((0, 0),), ((1, p),)) for p in ps))
        note(f"canonicalize a term with {n} tensors t^{{v_p}}_{{o0}}")
        if not vh:
            return
        s, u = vh.term_canonicalize(mk_term(t))
        u = term_of(u)
        exp = sorted(range(len(set(ps))))
        got = sorted({x[3][0][1] for x in u[1]})
        check("relabelling of many indices", f"{n} tensors", (exp, "1/1", n), (got, f"{s[0]}/{s[1]}", len(u[1])))
        big = ((), (("T", "a", (), tuple((1, p) for p in ps)),))
        if len(set(ps)) == n:
            s, u = vh.term_canonicalize(mk_term(big))
            check("relabelling of one big tensor", f"rank {n}", ([(1, i) for i in range(n)], "1/1"), (list(term_of(u)[1][0][3]), f"{s[0]}/{s[1]}"))
        case(("long", n))


def run():
    directed()
    long_terms()
    k = 0
    while left() > 1:
        sp = setup(SPACESETS[k % len(SPACESETS)])
        k += 1
        for _ in range(30):
            n = rng.choice([1, 1, 1, 2, 3])
            same = rng.random() < .3
            ts = []
            ml = 4 if rng.random() < .5 else 6
            symof = {l: rng.choice("as") for l in "tfVT"} if rng.random() < .4 else "a"
            for _ in range(n):
                t = random_term(rng, sp, maxlabels=ml, tlabels=rng.choice(["t", "tf", "tfVT"]), syms=symof)
                if rng.random() < .8 and not distinct_ids(t):
                    continue
                ts.append((t, Q(rng.choice([-1, 1]) * rng.randint(1, 4), rng.randint(1, 3))))
            if not ts:
                continue
            if same:  # a relabelled copy: must merge or cancel
                t, c = ts[0]
                p = {}
                def f(i):
                    if i not in p:
                        p[i] = (i[0], rng.choice([x for x in range(12) if (i[0], x) not in p.values()]))
                    return p[i]
                tl = {i for x in t[1] for i in x[2] + x[3]}
                g = lambda i: f(i) if i in tl else i
                for o in t[0]:
                    if o[1] not in tl:
                        p[o[1]] = o[1]
                ts.append(((tuple((o[0], g(o[1])) for o in t[0]), tuple((x[0], x[1], tuple(map(g, x[2])), tuple(map(g, x[3]))) for x in t[1])), -c))
            one(ts, sp, 2 if max(nlabels(t) for t, _ in ts) > 5 else rng.choice([2, 2, 3]))
            case(showe(ts), any(t[1] for t, _ in ts))
            if vh and rng.random() < .2:
                reindex(sp)
            if left() < 1:
                break


main(run, "random sums of 1-4 terms (0-3 tensors of rank<=4, 0-4 operators, <=6 index labels, fermion/boson spaces, external operator indices) evaluated before/after canonicalization at random tensors mod 2^61-1, dimension 2-3; non-trivial when a tensor is present")
