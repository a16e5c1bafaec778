from ocommon import *
import wicked as w
vh = have("vh_core")


def q(s):
    return Q(int(s[0]), int(s[1]))


def st(x):
    return (str(x[0]), str(x[1]))


def lowest(got, exp, what, inp):
    n, d = int(got[0]), int(got[1])
    if d <= 0 or math.gcd(n, d) != 1 or Q(n, d) != exp if d else True:
        fail(what, inp, f"{exp} in lowest terms with positive denominator", f"{n}/{d}")
        return False
    return True


def apply(op, a, b):
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()


def pick():
    r = rng.random()
    m = 12 if r < 0.5 else 10**6 if r < 0.7 else 2**70 if r < 0.9 else 2**200
    n, d = rng.randint(-m, m), rng.choice([-1, 1]) * rng.randint(1, m)
    if rng.random() < 0.2:
        g = rng.randint(1, m)
        n, d = n * g, d * g
    return n, d


def pub(n, d):
    """through the public bindings (machine ints only)"""
    r = w.rational(n, d)
    return (r.numerator(), r.denominator())


def run():
    R = range(-7, 8)
    for n in R:
        note(f"rational({n})")
        r = w.rational(n)
        lowest((r.numerator(), r.denominator()), Q(n), "rational(int)", f"rational({n})")
        for d in R:
            if d:
                note(f"rational({n},{d})")
                lowest(pub(n, d), Q(n, d), "rational(int,int)", f"rational({n},{d})")
                case((n, d))
    # growth beyond machine integers, read through Python
    for base in ((3, 7), (-10, 9), (65537, 1000003), (1, 2147483647)):
        x, e = w.rational(1), Q(1)
        for k in range(1, 24):
            x, e = x * w.rational(*base), e * Q(*base)
            if e.numerator.bit_length() < 500 and e.denominator.bit_length() < 500:
                lowest((x.numerator(), x.denominator()), e, "power", f"rational{base} multiplied {k} times")
                case((base, k))
    z = w.rational()
    lowest((z.numerator(), z.denominator()), Q(0), "rational()", "rational()")
    small = [(n, d) for n in range(-4, 5) for d in range(-4, 5) if d]
    for a in small:
        for b in small:
            x, y = w.rational(*a), w.rational(*b)
            qa, qb = Q(*a), Q(*b)
            for op in "+-*/":
                if op == "/" and not qb:
                    continue
                inp = f"rational{a} {op} rational{b}"
                note(inp)
                r = apply(op, x, y)
                lowest((r.numerator(), r.denominator()), apply(op, qa, qb), "arithmetic", inp)
                case((a, op, b))
            check("==", f"rational{a} == rational{b}", qa == qb, bool(x == y))
            if (x.numerator(), x.denominator()) != (qa.numerator, qa.denominator):
                fail("operand changed", f"rational{a} after arithmetic with rational{b}", qa, (x.numerator(), x.denominator()))
        f = float(w.rational(*a))
        if abs(f - float(Q(*a))) > 1e-12:
            fail("float()", f"float(rational{a})", float(Q(*a)), f)
    for s, e in [("", Q(1)), ("-", Q(-1)), ("+3", Q(3)), ("2/4", Q(1, 2)), ("-6/4", Q(-3, 2)), ("7", Q(7)), ("+1/3", Q(1, 3)), ("0", Q(0)), (" -5/10 ", Q(-1, 2))]:
        note(f"make_rational({s!r})")
        r = w.make_rational(s)
        lowest((r.numerator(), r.denominator()), e, "make_rational", f"make_rational({s!r})")
        case(("str", s))
    for s in ["/3", "3/", "a", "1/2/3", "1.5", "--1"]:
        try:
            r = w.make_rational(s)
            fail("make_rational accepts malformed text", repr(s), "exception", str(r))
        except RuntimeError:
            pass
    for n in range(-30, 31):
        for d in range(1, 31):
            e = Q(n, d)
            r = w.make_rational(f"{n}/{d}")
            lowest((r.numerator(), r.denominator()), e, "make_rational", f"{n}/{d}")
    if vh:
        unary = [("u-", lambda a: -a), ("u+", lambda a: a), ("a+=a", lambda a: a + a), ("a-=a", lambda a: a - a), ("a*=a", lambda a: a * a), ("a/=a", lambda a: a / a)]
        while left() > 3 and state["evaluations"] < (3000000 if THOROUGH else 400000):
            a, b = pick(), pick()
            qa, qb = Q(*a), Q(*b)
            if rng.random() < 0.1:
                b = a if rng.random() < 0.5 else (-a[0], -a[1])
                qb = Q(*b)
            sa, sb = st(a), st(b)
            note(f"{a} {b}")
            lowest(vh.rat(sa), qa, "rational(big,big)", f"rational{a}")
            lowest(vh.rat_big(sa[0]), Q(a[0]), "rational(big)", f"rational({a[0]})")
            for op in ("+", "-", "*", "/", "+=", "-=", "*=", "/="):
                if op[0] == "/" and not qb:
                    continue
                lowest(vh.rat_op(op, sa, sb), apply(op[0], qa, qb), "arithmetic", f"rational{a} {op} rational{b}")
            for op, f in unary:
                if op == "a/=a" and not qa:
                    continue
                lowest(vh.rat_op(op, sa, sa), f(qa), "arithmetic", f"{op} with a = rational{a}")
            check("==", f"rational{a} == rational{b}", qa == qb, vh.rat_eq(sa, sb))
            check("!=", f"rational{a} != rational{b}", qa != qb, vh.rat_ne(sa, sb))
            case((a, b))
    # chains of operations through the public type
    while left() > 1 and state["evaluations"] < 2000000:
        v, e, tr = w.rational(0), Q(0), []
        for _ in range(rng.randint(2, 12)):
            n, d, op = rng.randint(-9, 9), rng.choice([-3, -2, -1, 1, 2, 3, 5, 7]), rng.choice("+-*/")
            if op == "/" and n == 0:
                continue
            tr.append((op, n, d))
            e2 = apply(op, e, Q(n, d))
            if abs(e2.numerator) > 2**60 or e2.denominator > 2**60:
                break
            e = e2
            v = apply(op, v, w.rational(n, d))
        lowest((v.numerator(), v.denominator()), e, "chain", tr)
        case(tuple(tr))


main(run, "small fractions exhaustively through the public API; random fractions up to 200 bits through every operator (also r op= r); random operation chains; distinct operand pairs/chains counted")
