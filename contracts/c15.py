from contracts import Profile

profile = P = Profile("C15", ["Base", "Str", "CMap"], types=[], defs=r"""

  (* n! *)
  let rec function fact (n: int) : int
    requires { n >= 0 } variant { n } ensures { result >= 1 }
  = if n = 0 then 1 else n * fact (n - 1)

  let rec lemma fact_mono (a b: int)
    requires { 0 <= a <= b } ensures { fact a <= fact b } variant { b }
  = if a < b then begin fact_mono a (b - 1); assert { fact b >= fact (b - 1) } end

  let lemma fact_20 (n: int)
    requires { 0 <= n <= 20 } ensures { 1 <= fact n <= 0x7fffffffffffffff }
  = assert { fact 5 = 120 };
    assert { fact 10 = 3628800 };
    assert { fact 15 = 1307674368000 };
    assert { fact 20 = 2432902008176640000 };
    fact_mono n 20

  (* binomial coefficient, by Pascal's rule *)
  let rec function binom (n k: int) : int
    requires { n >= 0 } variant { n }
    ensures { result >= 0 }
  = if k < 0 || k > n then 0 else if k = 0 then 1 else binom (n - 1) (k - 1) + binom (n - 1) k

  let rec lemma binom_n_n (n: int)
    requires { n >= 0 } ensures { binom n n = 1 } variant { n }
  = if n > 0 then binom_n_n (n - 1)

  let rec lemma binom_sym (n k: int)
    requires { 0 <= k <= n } ensures { binom n (n - k) = binom n k } variant { n }
  = if 0 < k < n then begin
      binom_sym (n - 1) (k - 1); binom_sym (n - 1) k;
      assert { binom n (n - k) = binom (n - 1) (n - k - 1) + binom (n - 1) (n - k) } end
    else begin binom_n_n n; assert { binom n 0 = 1 } end

  let lemma mul_cong (x y z: int) requires { y = z } ensures { x * y = x * z } = ()

  (* the recurrence used by the multiplicative formula: i C(n,i) = (n-i+1) C(n,i-1) *)
  let rec lemma binom_step (n i: int)
    requires { 1 <= i <= n } ensures { i * binom n i = (n - i + 1) * binom n (i - 1) } variant { n }
  = if i = 1 then begin
      if n > 1 then begin binom_step (n - 1) 1; assert { binom (n - 1) 1 = (n - 1) }; assert { binom n 1 = n } end;
      assert { binom n 0 = 1 }; assert { binom n 1 = n }
    end else if i < n then begin
      binom_step (n - 1) i; binom_step (n - 1) (i - 1);
      assert { binom n i = binom (n - 1) (i - 1) + binom (n - 1) i };
      assert { binom n (i - 1) = binom (n - 1) (i - 2) + binom (n - 1) (i - 1) };
      assert { (n - 1) - i + 1 = n - i }; assert { (n - 1) - (i - 1) + 1 = n - i + 1 }; assert { i - 1 - 1 = i - 2 };
      assert { i * binom (n - 1) i = (n - i) * binom (n - 1) (i - 1) };
      assert { (i - 1) * binom (n - 1) (i - 1) = (n - i + 1) * binom (n - 1) (i - 2) };
      let a = binom (n - 1) (i - 1) in let b = binom (n - 1) i in let c = binom (n - 1) (i - 2) in
      mul_cong i (binom n i) (a + b); mul_cong (n - i + 1) (binom n (i - 1)) (c + a);
      assert { i * binom n i = i * (a + b) }; assert { (n - i + 1) * binom n (i - 1) = (n - i + 1) * (c + a) };
      assert { i * (a + b) = i * a + i * b };
      assert { i * a + (n - i) * a = n * a };
      assert { (n - i + 1) * (c + a) = (n - i + 1) * c + (n - i + 1) * a };
      assert { (i - 1) * a + (n - i + 1) * a = n * a };
      assert { i * binom n i = n * a };
      assert { (n - i + 1) * binom n (i - 1) = n * a }
    end else begin
      assert { i = n };
      binom_step (n - 1) (n - 1); binom_n_n n; binom_n_n (n - 1);
      assert { binom n (n - 1) = binom (n - 1) (n - 2) + binom (n - 1) (n - 1) };
      assert { binom (n - 1) (n - 2) = n - 1 };
      assert { binom n (n - 1) = n }; assert { binom n n = 1 };
      assert { i * binom n i = n * 1 }; assert { (n - i + 1) * binom n (i - 1) = 1 * n }
    end

  let rec function p2 (n: int) : int variant { if n <= 0 then 0 else n } ensures { result >= 1 }
  = if n <= 0 then 1 else 2 * p2 (n - 1)

  let rec lemma binom_bound (n k: int)
    requires { n >= 0 } ensures { binom n k <= p2 n } variant { n }
  = if 0 < k <= n then begin binom_bound (n - 1) (k - 1); binom_bound (n - 1) k end
    else if n > 0 then binom_bound (n - 1) k

  let rec lemma p2_mono (a b: int)
    requires { 0 <= a <= b } ensures { p2 a <= p2 b } variant { b }
  = if a < b then p2_mono a (b - 1)

  let lemma p2_8 (n: int) requires { n >= 0 } ensures { p2 (n + 8) = 256 * p2 n }
  = assert { p2 (n + 2) = 4 * p2 n }; assert { p2 (n + 4) = 16 * p2 n }; assert { p2 (n + 6) = 64 * p2 n }

  let lemma p2_58 (n: int)
    requires { 0 <= n <= 58 } ensures { 0 <= p2 n <= 288230376151711744 }
  = p2_mono n 58; assert { p2 2 = 4 }; 
    p2_8 2; p2_8 10; p2_8 18; p2_8 26; p2_8 34; p2_8 42; p2_8 50

  let lemma div_exact (x y: int) requires { y > 0 } requires { x >= 0 } ensures { div (y * x) y = x }
  = assert { y * x >= 0 };
    assert { y * x = y * div (y * x) y + mod (y * x) y };
    assert { 0 <= mod (y * x) y < y };
    let d = x - div (y * x) y in
    assert { y * d = mod (y * x) y };
    assert { d >= 1 -> y * d >= y }; assert { d <= -1 -> y * d <= - y }

  let lemma binom_fits (n i: int)
    requires { 0 <= n <= 58 } requires { 0 <= i <= 29 }
    ensures { 0 <= i * binom n i <= 0x7fffffffffffffff } ensures { binom n i <= 288230376151711744 }
  = binom_bound n i; p2_58 n;
    assert { i * binom n i <= 29 * binom n i }

  (* number of pairs i < j < n with s[i] > s[j], counted row by row *)
  let rec function row (s: seq int) (i j: int) : int
    variant { if j <= i + 1 then 0 else j - i } ensures { result >= 0 }
  = if j <= i + 1 then 0 else row s i (j - 1) + (if vgetu s i > vgetu s (j - 1) then 1 else 0)
  let rec function inv (s: seq int) (i: int) : int
    variant { if i <= 0 then 0 else i } ensures { result >= 0 }
  = if i <= 0 then 0 else inv s (i - 1) + row s (i - 1) (length s)
""")

P.fn("factorial(int)", "n", req=["0 <= n <= 20"], ens=[("exact factorial", "result = fact n")], overflow=True,
     loops={1: [("product so far", "1 <= i <= n + 1 \\/ (i = 2 /\\ n <= 1)"), ("partial product", "result_ = fact (i - 1)")]},
     ghost={"begin1": "fact_20 i;", "before1": "fact_20 n; assert { fact 1 = 1 };"})

P.fn("binomial(int, int)", "n k", req=["0 <= n <= 58", "0 <= k"], ens=[("exact binomial coefficient", "result = binom n k")],
     overflow=True,
     loops={1: [("counter", "2 <= i <= k_v + 1"), ("partial product", "result_ = binom n (i - 1)")]},
     ghost={"entry": "if k <= n then begin binom_sym n k; if n >= 1 then begin binom_step n 1; assert { binom n 0 = 1 }; assert { binom n 1 = n } end end;",
            "begin1": "binom_step n i; binom_fits n i; assert { result_ * (n - i + 1) = i * binom n i }; div_exact (binom n i) i;"})

P.fn("permutation_sign(vec<int>&)", "s", req=["length s <= 0x7fff"],
     ens=[("parity of the number of inversions", "result = (if mod (inv s (length s)) 2 = 0 then 1 else -1)")],
     loops={1: [("inversions of the rows done", "sign = inv s i")],
            2: [("inversions so far", "sign = inv s i + row s i j")]})
