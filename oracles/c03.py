from ocommon import *
from model import *
import itertools
vh = have("vh_core")
SETS = [
    [("o", "fermion", "occupied"), ("v", "fermion", "unoccupied")],
    [("g", "fermion", "general"), ("P", "boson", "unoccupied")],
    [("P", "boson", "unoccupied"), ("o", "fermion", "occupied"), ("Q", "boson", "general")],
    [("c", "fermion", "occupied"), ("a", "fermion", "general"), ("v", "fermion", "unoccupied")],
]


def act(ops, bos, state):
    """apply an operator string (rightmost first) to (fermion occupations, boson exponents): coefficient, state.
    Fermions by Jordan-Wigner on a sorted mode list; bosons as d/dx and x on monomials."""
    f, b = set(state[0]), dict(state[1])
    c = 1
    for cre, m in reversed(ops):
        if m[0] in bos:
            n = b.get(m, 0)
            if cre:
                b[m] = n + 1
            else:
                if n == 0:
                    return 0, None
                c *= n
                b[m] = n - 1
        else:
            s = sum(1 for x in f if x < m)
            if cre:
                if m in f:
                    return 0, None
                f.add(m)
            else:
                if m not in f:
                    return 0, None
                f.discard(m)
            if s % 2:
                c = -c
    return c, (frozenset(f), tuple(sorted((k, v) for k, v in b.items() if v)))


def states(modes, bos, nb):
    fm = sorted(m for m in modes if m[0] not in bos)
    bm = sorted(m for m in modes if m[0] in bos)
    for r in range(len(fm) + 1):
        for f in itertools.combinations(fm, r):
            for n in itertools.product(range(nb + 1), repeat=len(bm)):
                yield frozenset(f), tuple((m, k) for m, k in zip(bm, n) if k)


def opkey(o):
    c, i = o
    return (0, i[0], i[1]) if c else (1, -i[0], -i[1])


def same_operator(a, b, labels, bos, injective, dim, Ts, inp, what):
    """a, b: [(term, coefficient)]; compare as operators for assignments of orbitals to labels"""
    sp = {}
    for l in labels:
        sp.setdefault(l[0], []).append(l)
    for orb in itertools.product(range(dim), repeat=len(labels)):
        m = {l: (l[0], o) for l, o in zip(labels, orb)}
        if injective and len(set(m.values())) != len(m):
            continue
        A, Bv = {}, {}
        for d, ts in ((A, a), (Bv, b)):
            for t, c in ts:
                v = c
                for l, y, lo, up in t[1]:
                    v = v * Ts.get(l, y, tuple(m[i] for i in lo), tuple(m[i] for i in up))
                if v:
                    k = tuple((cr, m[i]) for cr, i in t[0])
                    d[k] = d.get(k, 0) + v
        A = {k: v for k, v in A.items() if v}
        Bv = {k: v for k, v in Bv.items() if v}
        if A == Bv:
            continue
        modes = {x[1] for k in list(A) + list(Bv) for x in k}
        nb = max([sum(1 for x in k if not x[0] and x[1][0] in bos) for k in list(A) + list(Bv)] + [0])
        for st in states(modes, bos, nb):
            ra, rb = {}, {}
            for d, r in ((A, ra), (Bv, rb)):
                for k, v in d.items():
                    c, s = act(k, bos, st)
                    if c:
                        r[s] = r.get(s, 0) + c * v
            ra = {k: v for k, v in ra.items() if v}
            rb = {k: v for k, v in rb.items() if v}
            if ra != rb:
                fail(what, inp, f"same operator (labels assigned {dict((ix(l), m[l]) for l in labels)}, state {st})", showe(b))
                return False
    return True


def one(terms, sp, dim=2):
    bos = {i for i, s in enumerate(sp) if s[1] == "boson"}
    inp = showe(terms)
    e = mk_expr(terms)
    before = expr_of(e)
    labels = sorted({o[1] for t, _ in terms for o in t[0]} | {i for t, _ in terms for x in t[1] for i in x[2] + x[3]})
    Ts = Tensors(rng.randrange(1 << 30))
    srt = all(list(t[0]) == sorted(t[0], key=opkey) for t, _ in before)
    check("is_vacuum_normal_ordered", inp, srt, bool(e.is_vacuum_normal_ordered()))
    for mode in (False, True):
        note(f"vacuum_normal_ordered({mode}) of {inp}")
        r = e.vacuum_normal_ordered(mode)
        after = expr_of(r)
        for t, c in after:
            if list(t[0]) != sorted(t[0], key=opkey):
                fail("result not in normal order", f"{inp} only_same_index={mode}", "creation before annihilation, sorted", show(t))
            if c == 0:
                fail("zero term", inp, "no zero term", show(t))
            if mode and sum(x[0] == "delta" for x in t[1]) > max(sum(x[0] == "delta" for x in u[1]) for u, _ in before):
                fail("a delta tensor appears although only equal indices may be contracted", inp, "no new delta", show(t))
        if not r.is_vacuum_normal_ordered():
            fail("result not reported as normal ordered", inp, True, False)
        if not same_operator(before, after, labels, bos, mode, max(dim, 3 if mode and len(labels) < 4 else dim), Ts, f"{inp} only_same_index={mode}", "vacuum normal ordering changed the operator"):
            return
        if mode is False:
            check("operand changed", inp, before, expr_of(e))
    if vh and len(terms) == 1:
        t = terms[0][0]
        for mode in (False, True):
            rs = [(term_of(x), Q(int(c[0]), int(c[1]))) for x, c in vh.term_vno(mk_term(t), mode)]
            for x, c in rs:
                if list(x[0]) != sorted(x[0], key=opkey):
                    fail("result not in normal order", f"{show(t)} only_same_index={mode}", "sorted", show(x))
            same_operator([(t, Q(1))], rs, labels, bos, mode, dim, Ts, f"{show(t)} only_same_index={mode}", "SymbolicTerm normal ordering changed the operator")


def run():
    # all operator strings of length <= 3 (4 when thorough) over a small alphabet, per registry
    for sp in SETS[:3]:
        setup(sp)
        alpha = [(c, i) for i in [(0, 0), (0, 1), (1, 0)] for c in (True, False)]
        for n in range(0, 4 if not THOROUGH else 5):
            for ops in itertools.product(alpha, repeat=n):
                if left() < BUDGET * .4:
                    break
                t = (ops, ())
                one([(t, Q(1))], sp)
                case(show(t), n > 1)
    k = 0
    while left() > 1:
        sp = setup(SETS[k % len(SETS)])
        k += 1
        for _ in range(8):
            ts = []
            symof = {l: rng.choice("asn") for l in "tfVT"}  # one symmetry per label: it is not part of a tensor's identity
            for _ in range(rng.choice([1, 1, 2])):
                t = random_term(rng, sp, ntens=2, nops=rng.choice([2, 3, 4, 5, 6]), maxlabels=rng.choice([2, 3, 4]), maxrank=2, syms=symof)
                ts.append((t, Q(rng.choice([-2, -1, 1, 3]), rng.randint(1, 3))))
            one(ts, sp)
            case(showe(ts), any(len(t[0]) > 1 for t, _ in ts))
    # labelled normal ordered input is rejected
    sp = setup(SETS[0])
    e = mk_expr([((((True, (0, 0)), (False, (0, 1))), ()), Q(1))], normal=True)
    try:
        e.vacuum_normal_ordered()
        fail("normal-ordered input accepted", "{a+(o0) a-(o1)}", "exception", "no exception")
    except RuntimeError:
        pass


main(run, "every operator string of length <=3 (<=4 thorough) over 6 operators in three registries, random sums with up to 6 operators and tensors; compared as operators on every Fock state (bosons on monomials) for every assignment of orbitals to labels (injective assignments in equal-index mode); non-trivial when there are at least two operators")
