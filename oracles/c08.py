from ocommon import *
from wickref import *
vw = have("vh_wick")


def one(sp, p, mc):
    kinds = [k for _, _, k in sp]
    note(f"elementary contractions of {showp(p, sp)} max cumulant {mc}")
    got = [tuple(tuple(map(tuple, g)) for g in e) for e in vw.elementary(p, mc)]
    exp = elementary(p, kinds, mc)
    c1, c2 = Counter(got), Counter(exp)
    if c1 != c2:
        fail("elementary contractions", f"{showp(p, sp)} max cumulant {mc}", f"missing {list((c2 - c1).elements())[:3]}", f"extra {list((c1 - c2).elements())[:3]}")
    case((tuple(p), mc, tuple(sp)), len(exp) > 0)


def api(sp, p):
    """the same through the public interface: one product, contraction count by rank in a space of one kind"""


def run():
    if not vw:
        return
    # small exhaustive part
    for sp in WSETS[2], WSETS[0]:
        setup(sp)
        vals = list(itertools.product(range(3), repeat=2 * len(sp)))
        if len(sp) > 1:
            vals = [v for v in vals if sum(v) <= 2]
        ops = [("A", tuple((v[2 * i], v[2 * i + 1]) for i in range(len(sp)))) for v in vals]
        for a in ops:
            for b in ops:
                one(sp, [a, b], 100)
    k = 0
    while left() > 1:
        sp = setup(rng.choice(WSETS))
        for _ in range(25):
            p = random_product(rng, sp, maxops=5, maxper=rng.choice([1, 2, 3]), maxlegs=16)
            one(sp, p, rng.choice([100, 100, 0, 1, 2, 3]))


main(run, "all pairs of operators with up to 2+2 legs in one general space and up to 2 legs in occ/virt registries, then random products of up to 5 operators with up to 3+3 legs per space over five registries, cumulant bounds 0-3 and unbounded; compared as multisets with an independent enumeration; non-trivial when at least one contraction is allowed")
