from ocommon import *
import wicked as w
vh = have("vh_core")


def parts(n, m, mx=None):
    """non-increasing positive sequences of sum n, at most m parts"""
    if n == 0:
        yield ()
        return
    if m == 0:
        return
    for a in range(min(n, mx or n), 0, -1):
        for r in parts(n - a, m - 1, a):
            yield (a,) + r


def run():
    ip = vh.integer_partitions if vh else w.integer_partitions
    for n in range(0, 13 if not THOROUGH else 24):
        for m in range(0 if n != 1 else 1, n + 3):
            note(f"integer_partitions({n},{m})")
            got = [tuple(p) for p in ip(n, m)]
            exp = sorted(parts(n, m))
            if n == 0 and got == [()]:
                continue
            check("integer_partitions", f"integer_partitions({n},{m})", exp, sorted(got))
            case(("ip", n, m), n > 1)
    for n in range(0, 26 if not THOROUGH else 40):
        note(f"integer_partitions({n})")
        got = [tuple(p) for p in (vh.integer_partitions1(n) if vh else ip(n, 1024))]
        check("integer_partitions", f"integer_partitions({n})", sorted(parts(n, 1024)), sorted(got))
        case(("ip", n))
    if vh:
        for n in range(0, 21):
            note(f"factorial({n})")
            check("factorial", f"factorial({n})", math.factorial(n), vh.factorial(n))
            case(("f", n))
        for n in range(0, 59):
            for k in range(0, n + 3):
                note(f"binomial({n},{k})")
                check("binomial", f"binomial({n},{k})", math.comb(n, k), vh.binomial(n, k))
                case(("b", n, k))
        import itertools

        def sgn(v):
            return -1 if sum(v[i] > v[j] for i in range(len(v)) for j in range(i + 1, len(v))) % 2 else 1
        for n in range(0, 7 if not THOROUGH else 9):
            for p in itertools.permutations(range(n)):
                check("permutation_sign", f"permutation_sign({list(p)})", sgn(p), vh.permutation_sign(list(p)))
                case(("s", p), n > 1)
        while left() > 2 and state["evaluations"] < 500000:
            n = rng.randint(0, 40)
            v = [rng.randint(-10**9, 10**9) if rng.random() < .5 else rng.randint(0, 5) for _ in range(n)]
            note(f"permutation_sign({v})")
            check("permutation_sign", f"permutation_sign({v})", sgn(v), vh.permutation_sign(v))
            case(tuple(v), n > 1)


main(run, "all n<=20 factorials, n<=58 binomials, partitions n<=25 (all length bounds n<=12), all permutations of <=6 elements and random lists; a case is non-trivial when n>1")
