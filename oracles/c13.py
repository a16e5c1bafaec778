from ocommon import *
import wicked as w
vh = have("vh_core")
KIND = {"occupied": 0, "unoccupied": 1, "general": 2}
FIELD = {"fermion": 0, "boson": 1}


class Reg:
    def __init__(self):
        self.s = []

    def add(self, l, f, k, idx, el):
        """True when accepted"""
        if f not in FIELD or k not in KIND:
            return False
        if any(x[0] == l for x in self.s):
            return False
        used = {i for x in self.s for i in x[3]}
        for i in idx:
            if i in used:
                return False
            used.add(i)
        pos = []
        for e in el:
            if e == l:
                pos.append(len(self.s))
                continue
            m = [n for n, x in enumerate(self.s) if x[0] == e]
            if not m:
                return False
            pos.append(m[0])
        self.s.append((l, FIELD[f], KIND[k], list(idx), pos))
        return True


def same(R, h):
    n = w.num_spaces()
    o = w.osi()
    inp = "; ".join(h)
    check("number of spaces", inp, len(R.s), n)
    check("to_dict", inp, {x[0]: x[3] for x in R.s}, o.to_dict())
    for i, x in enumerate(R.s):
        check("label", inp, x[0], o.label(i))
        check("indices", inp, x[3], o.indices(i))
        try:
            ix = w.index(f"{x[0]}_3")
            check("label lookup", inp, (i, 3), (ix.space(), ix.pos()))
        except RuntimeError as e:
            if x[0].isalpha():
                fail("label lookup", inp, i, e)
        check("field type", inp, x[1], int(w.SQOperator(w.type.cre, w.Index(i, 0)).field_type()))
        for p in range(3):
            ex = x[3][p] if p < len(x[3]) else f"{x[0]}_{{{p}}}"
            check("index name", inp, ex, w.Index(i, p).latex())
    used = {x[0] for x in R.s}
    for l in "oavcg":
        if l not in used:
            try:
                w.index(l + "_0")
                fail("label lookup", inp, f"'{l}' unknown", "accepted")
            except RuntimeError:
                pass
    if vh:
        st = [(a, b, c, list(d), list(e)) for a, b, c, d, e in vh.osi_state(o)]
        st = [(a, b, c, d, e) for a, b, c, d, e in st]
        check("stored spaces", inp, R.s, st)
        lm, im = vh.osi_maps(o)
        check("label map", inp, {x[0]: i for i, x in enumerate(R.s)}, dict(lm))
        check("index map", inp, {j: i for i, x in enumerate(R.s) for j in x[3]}, dict(im))


def run():
    while left() > 1:
        w.reset_space()
        R, h = Reg(), ["reset"]
        for _ in range(rng.randint(1, 12)):
            if rng.random() < .08:
                w.reset_space()
                R = Reg()
                h.append("reset")
            else:
                l = rng.choice("oavcgxy")
                f = rng.choice(["fermion"] * 6 + ["boson"] * 3 + ["ferm"])
                k = rng.choice(["occupied", "unoccupied", "general"] * 4 + ["gen", ""])
                pool = list("ijklabuvw") + ["p1", "p2"]
                idx = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))] if rng.random() < .4 else rng.sample(pool, rng.choice([0, 1, 1, 2]))
                el = [rng.choice("oavcgxy") for _ in range(rng.choice([0, 0, 0, 0, 1, 2]))]
                h.append(f"add_space({l!r},{f!r},{k!r},{idx},{el})")
                note("; ".join(h))
                acc = R.add(l, f, k, idx, el)
                try:
                    w.add_space(l, f, k, idx, el)
                    got = True
                except RuntimeError:
                    got = False
                check("accepted", "; ".join(h), acc, got)
                if acc != got:
                    break
            same(R, h)
        case(tuple(h), len(R.s) > 1)
    w.reset_space()


main(run, "random sequences of up to 12 add_space/reset calls with colliding labels, colliding or repeated indices, unknown types and unknown elementary spaces; registry compared with a model after every call (public lookups and stored maps); non-trivial when at least two spaces end up registered")
