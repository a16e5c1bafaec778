from ocommon import *
from wickref import *
vw = have("vh_wick")


def lib(p):
    return [(l, [list(x) for x in g]) for l, g in p]


def compare(sp, p, lo, hi, mc, seed, graph):
    """contracted expression against the sum over leg-level contractions"""
    ref = wick_terms(p, sp, lo, hi, mc, 250)
    if ref is None or not ref:
        return False
    wt = w.WickTheorem()
    wt.set_max_cumulant(mc)
    wt.set_single_threaded(True)
    wt.do_canonicalize_graph(graph)
    inp = f"{showp(p, sp)} ranks {lo}..{hi} max cumulant {mc} graph canonicalization {graph}"
    note("contract " + inp)
    got = expr_of(vw.contract_product(wt, ("1", "1"), lib(p), lo, hi))
    if max(dims(ref), dims(got)) > 7:
        return False
    M = Model(sp, seed, 2)
    # residual operators carry summed indices
    a, b = M.value(ref, set()), M.value(got, set())
    if a != b:
        fail("value of the contracted product", inp, showe(ref)[:1500], showe(got)[:1500])
    # the sum may agree while single terms of rank r do not: split by pattern of residual operators
    case((tuple(p), lo, hi, mc, graph), len(ref) > 1)
    return True


# ---- vacuum expectation values in a determinant space (occupied/unoccupied registries only)
def fock_value(p, sp, T, dim):
    """<Phi| product |Phi> with every operator a sum over orbitals of tensor * normal ordered string"""
    ns = len(sp)
    modes = [(s, k) for s in range(ns) for k in range(dim)]
    bit = {m: 1 << i for i, m in enumerate(modes)}
    phi = sum(bit[m] for m in modes if sp[m[0]][2] == "occupied")
    state = {phi: 1}

    def apply(st, cre, m):
        b = bit[m]
        out = {}
        for d, v in st.items():
            if bool(d & b) == cre:
                continue
            if bin(d & (b - 1)).count("1") % 2:
                v = -v
            out[d ^ b] = v
        return out

    for lab, g in reversed(p):
        new = {}
        clegs = [s for s in range(ns) for _ in range(g[s][0])]
        alegs = [s for s in range(ns) for _ in range(g[s][1])]
        fac = Q(1)
        for c, a in g:
            fac /= factorial(c) * factorial(a)
        fm = (fac.numerator * pow(fac.denominator, -1, Pm)) % Pm
        for cs in itertools.product(range(dim), repeat=len(clegs)):
            lo = tuple((s, k) for s, k in zip(clegs, cs))
            for as_ in itertools.product(range(dim), repeat=len(alegs)):
                up = tuple((s, k) for s, k in zip(alegs, as_))
                t = T.get(lab, "a", lo, up)
                if not t:
                    continue
                string = [(True, m) for m in lo] + [(False, m) for m in reversed(up)]
                # normal order with respect to Phi: quasi-creators (cre virt, ann occ) to the left
                q = [(c == (sp[m[0]][2] != "occupied")) for c, m in string]
                perm = [i for i in range(len(string)) if q[i]] + [i for i in range(len(string)) if not q[i]]
                sg = parity(perm)
                st = state
                for i in reversed(perm):
                    st = apply(st, *string[i])
                    if not st:
                        break
                for d, v in st.items():
                    new[d] = (new.get(d, 0) + sg * t * fm * v) % Pm
        state = new
    return state.get(phi, 0) % Pm


def fock(sp, p, seed):
    wt = w.WickTheorem()
    wt.set_single_threaded(True)
    inp = f"{showp(p, sp)} full contraction, determinant reference"
    note("contract " + inp)
    got = expr_of(vw.contract_product(wt, ("1", "1"), lib(p), 0, 0))
    if dims(got) > 7:
        return
    M = Model(sp, seed, 2)
    b = M.value(got, set())
    a = fock_value(p, sp, M.T, 2)
    if a != b:
        fail("vacuum expectation value", inp, a, f"{b}: {showe(got)[:1500]}")
    case(("fock", tuple(p)), len(got) > 0)


def comb_ref(p, con):
    n = len(p)
    free = [[list(x) for x in q[1]] for q in p]
    f = Q(1)
    for e in con:
        for o in range(n):
            for s in range(len(e[o])):
                for t in (0, 1):
                    f *= comb(free[o][s][t], e[o][s][t])
                    free[o][s][t] -= e[o][s][t]
    for k in Counter(con).values():
        f /= factorial(k)
    return f


def combo(sp, p):
    el = [tuple(tuple(map(tuple, g)) for g in e) for e in vw.elementary(p, 100)]
    cs = composites(p, el, 0, 999, 3000) or []
    for c in rng.sample(cs, min(8, len(cs))):
        con = [el[i] for i in c]
        note(f"combinatorial_factor {showp(p, sp)} contractions {c}")
        r = vw.combinatorial_factor(lib(p), con)
        check("combinatorial factor", f"{showp(p, sp)} contractions {con}", comb_ref(p, con), Q(int(r[0]), int(r[1])))
        case(("comb", tuple(p), c), len(c) > 0)


def weights():
    """closed forms for large operators: a single operator carries 1/prod(n!), k of the n equivalent legs contracted
    between A (n+) and B (n-) give comb(n,k)^2 k!/(n!)^2 up to sign"""
    sp = setup(WSETS[0])
    ns = len(sp)
    for n, m in [(2, 3), (6, 6), (9, 9), (12, 5), (12, 13), (15, 3), (20, 20)]:
        g = [(0, 0)] * ns
        g[0], g[1] = (n, 0), (0, m)
        wt = w.WickTheorem()
        wt.set_single_threaded(True)
        p = [("A", tuple(g))]
        note(f"contract {showp(p, sp)}")
        r = expr_of(vw.contract_product(wt, ("1", "1"), lib(p), n + m, n + m))
        check("coefficient of a single operator", showp(p, sp), [Q(1, factorial(n) * factorial(m))], [abs(c) for _, c in r])
        case(("single", n, m))
    for n in (1, 2, 5, 9, 13, 17, 20):
        g, h = [(0, 0)] * ns, [(0, 0)] * ns
        g[0], h[0] = (n, 0), (0, n)
        p = [("A", tuple(g)), ("B", tuple(h))]
        for k in sorted({n, n - 1, n // 2, 1} - {0}):
            wt = w.WickTheorem()
            wt.set_single_threaded(True)
            wt.do_canonicalize_graph(k <= 6)  # merging looks at all orders of the contractions
            inp = f"{showp(p, sp)} uncontracted rank {2 * (n - k)}"
            note("contract " + inp)
            r = expr_of(vw.contract_product(wt, ("1", "1"), lib(p), 2 * (n - k), 2 * (n - k)))
            check("weight of k equivalent contractions", inp, [Q(comb(n, k) ** 2 * factorial(k), factorial(n) ** 2)], [abs(c) for _, c in r])
            case(("pair", n, k))


def run():
    if not vw:
        return
    weights()
    setup(WSETS[0])
    for n in (3, 4, 5, 6, 9, 12, 20):
        p = [("A", ((n, 0), (0, 0))), ("B", ((0, n), (0, 0)))]
        combo(WSETS[0], p)
    FIX = [
        (1, [("A", ((1, 0), (1, 1), (0, 1))), ("T", ((0, 1), (1, 1), (1, 0)))]),
        (2, [("A", ((2, 2),)), ("B", ((1, 1),))]),
        (2, [("A", ((1, 1),)), ("B", ((1, 1),)), ("C", ((1, 1),))]),
        (3, [("A", ((1, 1), (1, 1))), ("B", ((1, 1), (1, 1)))]),
        (0, [("V", ((2, 0), (0, 2))), ("T", ((0, 2), (2, 0)))]),
        (0, [("V", ((2, 0), (0, 2))), ("T", ((0, 1), (1, 0))), ("T", ((0, 1), (1, 0)))]),
    ]
    for k, p in FIX:
        sp = setup(WSETS[k])
        tot = sum(x for _, g in p for y in g for x in y)
        for r in range(0, tot + 1):
            if left() < BUDGET * .4:
                break
            compare(sp, p, r, r, 100, rng.randrange(1 << 30), True)
    n = 0
    while left() > 1:
        n += 1
        sp = setup(rng.choice(WSETS))
        combo(sp, random_product(rng, sp, maxops=4, maxper=3, maxlegs=14))
        p = random_product(rng, sp, maxops=3, maxper=2, maxlegs=rng.choice([5, 6, 7]))
        tot = sum(x for _, g in p for y in g for x in y)
        r = rng.randint(0, tot)
        compare(sp, p, r, r, rng.choice([100, 100, 1, 2]), rng.randrange(1 << 30), rng.random() < .5)
        s2 = rng.choice([WSETS[0], WSETS[4]])
        setup(s2)
        # fully contractible products
        for _ in range(3):
            p = random_product(rng, s2, maxops=3, maxper=2, maxlegs=8)
            bal = all(sum(g[s][0] for _, g in p) == sum(g[s][1] for _, g in p) for s in range(len(s2)))
            if bal:
                fock(s2, p, rng.randrange(1 << 30))


main(run, "products of up to 3 operators and 7 legs over five registries: library result against the explicit sum over all sets of single-leg contractions (sign by permutation parity), both evaluated on random antisymmetric tensors modulo 2^61-1 with 2 orbitals per space; full contractions of up to 8 legs against vacuum expectation values computed in a determinant space; combinatorial factors up to 20 identical contractions; non-trivial when more than one contraction contributes")
