from contracts import Profile

profile = P = Profile("C01", ["Base", "Str", "GcdFacts"], mode={"rational": "record"}, types=["rational"], defs=r"""
  (* lowest terms with a strictly positive denominator *)
  predicate canon (r: t_rational) = r.denominator_ > 0 /\ coprime r.numerator_ r.denominator_
  (* the stored fraction denotes n/d *)
  predicate is_frac (r: t_rational) (n d: int) = r.numerator_ * d = n * r.denominator_
  (* two stored fractions denote the same number *)
  predicate same (a b: t_rational) = a.numerator_ * b.denominator_ = b.numerator_ * a.denominator_

  let lemma cancel (g x y: int) requires { g > 0 } requires { g * x = g * y } ensures { x = y }
  = assert { g * (x - y) = 0 }; assert { x - y >= 1 -> g * (x - y) >= g }; assert { x - y <= -1 -> g * (x - y) <= -g }

  (* two ways to write one quotient *)
  let lemma frac_scale (g n d n1 d1: int)
    requires { n = g * n1 } requires { d = g * d1 } ensures { n * d1 = n1 * d }
  = assert { (g * n1) * d1 = n1 * (g * d1) }

  let lemma neg_mul (x y: int) ensures { x * (- y) = - (x * y) } ensures { (- x) * y = - (x * y) } = ()

  (* dividing both parts by their gcd *)
  let lemma cd_div_exact (g x: int) requires { g > 0 } ensures { div (g * x) g = x }
  = let d = div (g * x) g in let m = mod (g * x) g in
    assert { g * x = g * d + m };
    assert { -g < m < g };
    let e = x - d in
    assert { g * e = m };
    assert { e >= 1 -> g * e >= g }; assert { e <= -1 -> g * e <= -g }

  let lemma pos_factor (g d1: int) requires { g > 0 } requires { g * d1 > 0 } ensures { d1 > 0 }
  = assert { d1 <= 0 -> g * d1 <= 0 }

  let lemma reduce_lemma (n d: int)
    requires { d > 0 }
    ensures { gcd n d > 0 }
    ensures { n = gcd n d * div n (gcd n d) } ensures { d = gcd n d * div d (gcd n d) }
    ensures { div d (gcd n d) > 0 } ensures { n * div d (gcd n d) = div n (gcd n d) * d }
    ensures { coprime (div n (gcd n d)) (div d (gcd n d)) }
  = let ghost g = pure { gcd n d } in
    let ghost n1, d1 = gcd_factor n d in
    cd_div_exact g n1; cd_div_exact g d1;
    assert { div n g = n1 }; assert { div d g = d1 };
    pos_factor g d1;
    gcd_scale g n1 d1;
    frac_scale g n d n1 d1;
    assert { g * 1 = g * gcd n1 d1 };
    cancel g 1 (pure { gcd n1 d1 });
    assert { coprime n1 d1 }

  let lemma dvd_antisym (a b q r: int) requires { a > 0 } requires { b > 0 } requires { b = a * q } requires { a = b * r } ensures { a = b }
  = pos_factor a q; pos_factor b r;
    assert { q >= 1 -> a * q >= a }; assert { r >= 1 -> b * r >= b }

  let lemma canon_unique_int (na da nb db: int)
    requires { da > 0 } requires { db > 0 } requires { coprime na da } requires { coprime nb db } requires { na * db = nb * da }
    ensures { na = nb } ensures { da = db }
  = coprime_sym na da; coprime_sym nb db;
    assert { na * db = da * nb }; assert { nb * da = db * na };
    let ghost r = gauss da na db nb in
    let ghost q = gauss db nb da na in
    dvd_antisym da db r q;
    assert { da * na = da * nb };
    cancel da na nb

  (* canonical fractions denoting the same number are stored identically *)
  let lemma canon_unique (a b: t_rational)
    requires { canon a } requires { canon b } requires { same a b }
    ensures { a.numerator_ = b.numerator_ } ensures { a.denominator_ = b.denominator_ }
  = canon_unique_int a.numerator_ a.denominator_ b.numerator_ b.denominator_

  (* what canonical storage means to a caller: equality of numbers is equality of the stored parts *)
  lemma same_iff_eq : forall a b: t_rational. canon a -> canon b -> (same a b <-> a = b)
  lemma same_zero : forall a b: t_rational. canon a -> canon b -> a.numerator_ = 0 -> b.numerator_ = 0 -> a = b
""")

CAN = ("canonical", "canon result")


def val(n, d):
    return ("exact value", f"is_frac result ({n}) ({d})")


P.fn("rational::rational()", "", ens=[CAN, val("0", "1")])
P.fn("rational::rational(int)", "n", ens=[CAN, val("n", "1")])
P.fn("rational::rational(big)", "n", ens=[CAN, val("n", "1")])
P.fn("rational::rational(big, big)", "n d", req=["d <> 0"], ens=[CAN, val("n", "d")],
     ghost={"exit": "assert { d < 0 -> this.numerator_ * (- d) = (- n) * this.denominator_ }; "
            "assert { d > 0 -> this.numerator_ * d = n * this.denominator_ }; neg_mul this.numerator_ d; neg_mul n this.denominator_;"})
P.fn("rational::numerator()", "this", pure="this.numerator_")
P.fn("rational::denominator()", "this", pure="this.denominator_")
P.fn("rational::reduce()", "this", req=["this.denominator_ > 0"],
     ens=[("canonical", "canon this"), ("same number", "same this (old this)")],
     ghost={"entry": "reduce_lemma this.numerator_ this.denominator_;"})
RR = ["canon this", "canon rhs"]
V = "(old this)"


def upd(n, d):
    return [("canonical", "canon this"), ("exact value", f"is_frac this ({n}) ({d})")]


P.fn("rational::operator+=(rational&)", "this rhs", req=RR,
     ens=upd(f"{V}.numerator_ * rhs.denominator_ + rhs.numerator_ * {V}.denominator_", f"{V}.denominator_ * rhs.denominator_"))
P.fn("rational::operator-=(rational&)", "this rhs", req=RR,
     ens=upd(f"{V}.numerator_ * rhs.denominator_ - rhs.numerator_ * {V}.denominator_", f"{V}.denominator_ * rhs.denominator_"))
P.fn("rational::operator*=(rational&)", "this rhs", req=RR,
     ens=upd(f"{V}.numerator_ * rhs.numerator_", f"{V}.denominator_ * rhs.denominator_"))
P.fn("rational::operator/=(rational&)", "this rhs", req=RR + ["rhs.numerator_ <> 0"],
     ens=upd(f"{V}.numerator_ * rhs.denominator_", f"{V}.denominator_ * rhs.numerator_"))
AB = ["canon a", "canon b"]
P.fn("operator+(rational)", "a", req=["canon a"], ens=[CAN, val("a.numerator_", "a.denominator_")])
P.fn("operator-(rational)", "a", req=["canon a"], ens=[CAN, val("- a.numerator_", "a.denominator_")])
P.fn("operator+(rational, rational&)", "a b", req=AB, ens=[CAN, val("a.numerator_ * b.denominator_ + b.numerator_ * a.denominator_", "a.denominator_ * b.denominator_")])
P.fn("operator-(rational, rational&)", "a b", req=AB, ens=[CAN, val("a.numerator_ * b.denominator_ - b.numerator_ * a.denominator_", "a.denominator_ * b.denominator_")])
P.fn("operator*(rational, rational&)", "a b", req=AB, ens=[CAN, val("a.numerator_ * b.numerator_", "a.denominator_ * b.denominator_")])
P.fn("operator/(rational, rational&)", "a b", req=AB + ["b.numerator_ <> 0"], ens=[CAN, val("a.numerator_ * b.denominator_", "a.denominator_ * b.numerator_")])
P.fn("operator==(rational&, rational&)", "a b", req=AB, ens=[("equal numbers", "result <-> same a b")])
P.fn("operator!=(rational&, rational&)", "a b", req=AB, ens=[("different numbers", "result <-> not (same a b)")])
