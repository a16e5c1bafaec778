from ocommon import *
from model import *
import itertools
vh = have("vh_core")
SP = [("o", "fermion", "occupied"), ("v", "fermion", "unoccupied"), ("P", "boson", "unoccupied"), ("g", "fermion", "general")]
BOS = {2}


def opkey(o):
    c, i = o
    return (0, i[0], i[1]) if c else (1, -i[0], -i[1])


def one_idx(ids):
    for rev in (False, True):
        note(f"canonicalize_indices {ids} reversed={rev}")
        exp = sorted(ids, reverse=rev)
        sg = parity([exp.index(i) for i in ids])
        if vh:
            s, v = vh.canonicalize_indices([IX(i) for i in ids], rev)
            s = Q(int(s[0]), int(s[1]))
        else:
            s, v = w.canonicalize_indices([IX(i) for i in ids], rev)
            s = rat(s)
        v = [idx(i) for i in v]
        check("canonicalize_indices order", f"{ids} reversed={rev}", exp, v)
        check("canonicalize_indices sign", f"{ids} reversed={rev}", Q(sg), s)
    case(("i", tuple(ids)), len(ids) > 1)


def one_ops(ops):
    for rev in (False, True):
        note(f"canonicalize_sqops {ops} reversed={rev}")
        exp = sorted(ops, key=opkey, reverse=rev)
        f = [o for o in ops if o[1][0] not in BOS]
        sg = parity([exp.index(o) for o in f])
        s, v = vh.canonicalize_sqops([mk_op(o) for o in ops], rev)
        v = [(o.type() == CRE, idx(o.index())) for o in v]
        check("canonicalize_sqops order", f"{[opstr(o) for o in ops]} reversed={rev}", exp, v)
        check("canonicalize_sqops sign", f"{[opstr(o) for o in ops]} reversed={rev}", Q(sg), Q(int(s[0]), int(s[1])))
    case(("o", tuple(ops)), len(ops) > 1)


def one_tensor(lo, up, y):
    t = ("t", y, tuple(lo), tuple(up))
    note(f"tensor canonicalize {t}")
    inp = show(((), (t,)))
    if y == "n":
        try:
            vh.tensor_canonicalize(mk_tensor(t))
            fail("nonsymmetric tensor canonicalized", inp, "exception", "no exception")
        except RuntimeError:
            pass
        return
    s, r = vh.tensor_canonicalize(mk_tensor(t))
    got = ("t", SYM[r.symmetry()], tuple(map(idx, r.lower())), tuple(map(idx, r.upper())))
    check("tensor canonical form", inp, ("t", y, tuple(sorted(lo)), tuple(sorted(up))), got)
    sg = 1 if y == "s" else parity([sorted(lo).index(i) for i in lo]) * parity([sorted(up).index(i) for i in up])
    check("tensor factor", inp, Q(sg), Q(int(s[0]), int(s[1])))
    case(("t", t), len(lo) + len(up) > 1)


def run():
    setup(SP)
    pool = [(s, p) for s in range(3) for p in range(2)]
    for n in range(0, 5):
        for ids in itertools.permutations(pool, n):
            one_idx(list(ids))
    ops = [(c, i) for c in (True, False) for i in [(0, 0), (0, 1), (1, 0), (2, 0), (2, 1)]]
    if vh:
        for n in range(0, 4 if not THOROUGH else 5):
            for o in itertools.permutations(ops, n):
                one_ops(list(o))
    while left() > 1:
        ids = rng.sample([(s, p) for s in range(4) for p in range(12)], rng.randint(0, 20))
        one_idx(ids)
        if vh:
            one_ops([(rng.random() < .5, i) for i in ids])
            k = rng.randint(0, len(ids))
            one_tensor(ids[:k], ids[k:], rng.choice("aasn"))
        # sorted terms through the public API
        if rng.random() < .2:
            t = (tuple((rng.random() < .5, i) for i in ids[:8]), ())
            note("canonicalize " + show(t))
            r = expr_of(mk_expr([(t, Q(1))]).canonicalize())
            o = sorted(t[0], key=opkey)
            f = [x for x in t[0] if x[1][0] not in BOS]
            check("operator string canonicalized", show(t), [((tuple(o), ()), Q(parity([o.index(x) for x in f])))], r)


main(run, "all lists of <=4 of 6 indices and <=3 of 10 operators (fermion and boson), random lists up to 20 elements, both directions, tensors of all three symmetries; non-trivial when there are at least two elements")
