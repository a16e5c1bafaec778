"""Reference meaning of wicked objects, written independently of the library.

A term is (ops, tensors): ops = [(cre?, (space,pos))], tensors = [(label, sym, lower, upper, cc)].
value(...) evaluates a weighted sum of terms at random tensors over F_p:
 - every index label of a term is summed over `dim` orbitals, labels listed as external carry a random weight
 - tensors are random with the declared symmetry
 - a product of fermionic operators in normal order is an antisymmetric function of its modes (a determinant of
   random vectors), bosonic operators a product of random numbers."""
import random, itertools
from fractions import Fraction as Q
import wicked as w

Pm = (1 << 61) - 1
CRE = w.type.cre
SYM = {w.sym.symm: "s", w.sym.anti: "a", w.sym.none: "n"}
RSYM = {v: k for k, v in SYM.items()}


class Space:
    def __init__(self, label, field, kind, indices, elem=()):
        self.label, self.field, self.kind, self.indices, self.elem = label, field, kind, indices, elem


def setup(spaces):
    """spaces: [(label, field, kind)]"""
    w.reset_space()
    names = iter("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
    for l, f, k in spaces:
        w.add_space(l, f, k, [next(names) for _ in range(4)])
    return spaces


def idx(i):
    return (i.space(), i.pos())


def IX(t):
    return w.Index(t[0], t[1])


def rat(r):
    return Q(r.numerator(), r.denominator())


def R(q):
    return w.rational(q.numerator, q.denominator)


def term_of(t):
    ops = tuple((o.type() == CRE, idx(o.index())) for o in t.ops())
    tens = tuple((x.label(), SYM[x.symmetry()], tuple(map(idx, x.lower())), tuple(map(idx, x.upper()))) for x in t.tensors())
    return ops, tens


def mk_op(o):
    return w.SQOperator(w.type.cre if o[0] else w.type.ann, IX(o[1]))


def mk_tensor(t):
    return w.Tensor(t[0], [IX(i) for i in t[2]], [IX(i) for i in t[3]], RSYM[t[1]])


def mk_term(t, normal=False):
    s = w.SymbolicTerm()
    s.set_normal_ordered(normal)
    for x in t[1]:
        s.add(mk_tensor(x))
    s.set([mk_op(o) for o in t[0]])
    return s


def mk_expr(terms, normal=False):
    """[(term, Q)] -> Expression"""
    e = w.Expression()
    for t, c in terms:
        e += (mk_term(t, normal), R(c))
    return e


def expr_of(e):
    return [(term_of(t), rat(c)) for t, c in e]


def opstr(o):
    return ("+" if o[0] else "-") + ix(o[1])


def ix(i):
    return f"{w.osi().label(i[0])}{i[1]}"


def show(t):
    return " ".join([f"{l}[{y}]^{{{','.join(map(ix, u))}}}_{{{','.join(map(ix, lo))}}}" for l, y, lo, u in t[1]] + [f"a{opstr(o)}" for o in t[0]])


def showe(e):
    return "  +  ".join(f"({c}) {show(t)}" for t, c in e) or "0"


def parity(p):
    p = list(p)
    return -1 if sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2 else 1


def sort_sign(v):
    """(sorted tuple, sign or 0 when a value repeats)"""
    o = sorted(range(len(v)), key=lambda i: v[i])
    s = tuple(v[i] for i in o)
    for i in range(len(s) - 1):
        if s[i] == s[i + 1]:
            return s, 0
    return s, parity(o)


class Tensors:
    """random tensors over F_p with declared symmetry"""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.d = {}

    def raw(self, key):
        v = self.d.get(key)
        if v is None:
            v = self.d[key] = self.rng.randrange(1, Pm)
        return v

    def get(self, label, sym, lo, up):
        """lo, up: tuples of modes"""
        if label == "delta":
            return 1 if lo == up else 0
        if sym == "n":
            return self.raw((label, sym, lo, up))
        a, s1 = sort_sign(lo)
        b, s2 = sort_sign(up)
        if sym == "s":
            return self.raw((label, sym, a, b))
        s = s1 * s2
        return s * self.raw((label, sym, a, b)) if s else 0


class Model:
    def __init__(self, spaces, seed=1, dim=2):
        self.boson = [f == "boson" for _, f, _ in spaces]
        self.T = Tensors(seed)
        self.dim = dim
        self.det = {}

    def opval(self, modes):
        """modes: [(cre, (space, orb))] in order; antisymmetric in the fermions"""
        if not modes:
            return 1
        f = [m for m in modes if not self.boson[m[1][0]]]
        b = sorted(m for m in modes if self.boson[m[1][0]])
        s, sg = sort_sign(f)
        if not sg:
            return 0
        return sg * self.T.raw(("op", s, tuple(b)))

    def term(self, t, external=()):
        """sum over all assignments of orbitals to the labels of the term"""
        ops, tens = t
        labels = []
        for o in ops:
            if o[1] not in labels:
                labels.append(o[1])
        for x in tens:
            for i in x[2] + x[3]:
                if i not in labels:
                    labels.append(i)
        tot = 0
        for orb in itertools.product(range(self.dim), repeat=len(labels)):
            m = {l: (l[0], o) for l, o in zip(labels, orb)}
            v = 1
            for l, y, lo, up in tens:
                v = v * self.T.get(l, y, tuple(m[i] for i in lo), tuple(m[i] for i in up)) % Pm
                if not v:
                    break
            if not v:
                continue
            for e in labels:
                if e in external:
                    v = v * self.T.raw(("ext", e, m[e])) % Pm
            v = v * self.opval([(c, m[i]) for c, i in ops]) % Pm
            tot += v
        return tot % Pm

    def value(self, terms, external=None):
        """external: set of labels with weights; None: labels carried by operators but by no tensor of the same term"""
        s = 0
        for t, c in terms:
            ext = external
            if ext is None:
                tl = {i for x in t[1] for i in x[2] + x[3]}
                ext = {o[1] for o in t[0]} - tl
            s += self.term(t, ext) * (c.numerator % Pm) * pow(c.denominator, -1, Pm)
        return s % Pm


def nlabels(t):
    return len({o[1] for o in t[0]} | {i for x in t[1] for i in x[2] + x[3]})


# ------------------------------------------------------------------ random terms
BIGPOS = [0, 1, 2, 9, 10, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 4096, 32768, 65535, 65536, 10**6, 2**31 - 1]
SPACESETS = [
    [("o", "fermion", "occupied"), ("v", "fermion", "unoccupied")],
    [("c", "fermion", "occupied"), ("a", "fermion", "general"), ("v", "fermion", "unoccupied")],
    [("g", "fermion", "general")],
    [("o", "fermion", "occupied"), ("v", "fermion", "unoccupied"), ("P", "boson", "unoccupied")],
    [("B", "boson", "unoccupied"), ("x", "fermion", "unoccupied"), ("C", "boson", "unoccupied")],
]


def random_term(rng, spaces, ntens=3, nops=4, maxpos=3, maxrank=4, tlabels="tfVT", maxlabels=6, syms="a", boson_sym="s"):
    ns = len(spaces)
    symof = {}
    for _ in range(200):
        far = rng.random() < .1
        pool = [(rng.randrange(ns), rng.choice(BIGPOS if far else [0, 1, 2, 3, 5, 7][:maxpos + 1])) for _ in range(rng.randint(1, maxlabels))]
        ops = [(rng.random() < .5, rng.choice(pool)) for _ in range(rng.randint(0, nops))]
        if rng.random() < 0.7:
            seen, o2 = set(), []
            for o in ops:
                if o not in seen:
                    o2.append(o)
                    seen.add(o)
            ops = o2
        tens = []
        for _ in range(rng.randint(0, ntens)):
            l = rng.choice(tlabels)
            r = rng.randint(0, maxrank)
            ids = [rng.choice(pool) for _ in range(r)]
            k = rng.randint(0, r)
            y = syms[l] if isinstance(syms, dict) else syms if len(syms) == 1 else symof.setdefault(l, rng.choice(syms))
            lo, up = tuple(ids[:k]), tuple(ids[k:])
            tens.append((l, y, lo, up))
        t = (tuple(ops), tuple(tens))
        if nlabels(t) <= maxlabels:
            return t
    return ((), ())
