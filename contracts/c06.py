import lin
from contracts import Profile

NEST = r"""
  (* scaling one factor scales the product *)
  let rec lemma rowsum_scale_c (k: term) (c0 c: real) (b: comb) (t: term) (j: int)
    requires { 0 <= j } ensures { rowsum k (rmul c0 c) b t j = rmul (rowsum k c0 b t j) c } variant { j }
  = if j > 0 then begin rowsum_scale_c k c0 c b t (j - 1);
      let x = any real ensures { result = cget b (ckey b (j - 1)) } in
      assert { rmul (rmul c0 c) x = rmul (rmul c0 x) c };
      assert { distr (rowsum k c0 b t (j - 1)) (rmul c0 x) c } end
  let rec lemma rowsum_scale_b (k: term) (c0 c: real) (x y: comb) (t: term) (j: int)
    requires { ckeys x = ckeys y } requires { forall t. cmem y t -> cget x t = rmul (cget y t) c }
    requires { 0 <= j <= csize y } ensures { rowsum k c0 x t j = rmul (rowsum k c0 y t j) c } variant { j }
  = if j > 0 then begin rowsum_scale_b k c0 c x y t (j - 1);
      assert { ckey x (j - 1) = ckey y (j - 1) };
      let u = any real ensures { result = cget y (ckey y (j - 1)) } in
      assert { cget x (ckey x (j - 1)) = rmul u c };
      assert { rmul c0 (rmul u c) = rmul (rmul c0 u) c };
      assert { distr (rowsum k c0 y t (j - 1)) (rmul c0 u) c } end
  let rec lemma rows_scale_a (x y b: comb) (c: real) (t: term) (i: int)
    requires { ckeys x = ckeys y } requires { forall t. cmem y t -> cget x t = rmul (cget y t) c }
    requires { 0 <= i <= csize y } ensures { rows x b t i = rmul (rows y b t i) c } variant { i }
  = if i > 0 then begin rows_scale_a x y b c t (i - 1);
      assert { ckey x (i - 1) = ckey y (i - 1) };
      assert { cget x (ckey x (i - 1)) = rmul (cget y (ckey y (i - 1))) c };
      rowsum_scale_c (any term ensures { result = ckey y (i - 1) }) (any real ensures { result = cget y (ckey y (i - 1)) }) c b t (csize b);
      assert { distr (rows y b t (i - 1)) (rowsum (ckey y (i - 1)) (cget y (ckey y (i - 1))) b t (csize b)) c } end
  let rec lemma rows_scale_b (a x y: comb) (c: real) (t: term) (i: int)
    requires { ckeys x = ckeys y } requires { forall t. cmem y t -> cget x t = rmul (cget y t) c }
    requires { 0 <= i <= csize a } ensures { rows a x t i = rmul (rows a y t i) c } variant { i }
  = if i > 0 then begin rows_scale_b a x y c t (i - 1);
      rowsum_scale_b (any term ensures { result = ckey a (i - 1) }) (any real ensures { result = cget a (ckey a (i - 1)) }) c x y t (csize y);
      assert { distr (rows a y t (i - 1)) (rowsum (ckey a (i - 1)) (cget a (ckey a (i - 1))) y t (csize y)) c } end
  predicate scaled (x y: comb) (c: real) = nz x /\ nz y /\ c <> 0.0 /\ forall t. coef x t = rmul (coef y t) c
  let lemma scaled_members (x y: comb) (c: real) requires { scaled x y c }
    ensures { forall t. cmem x t <-> cmem y t } ensures { forall t. cmem y t -> cget x t = rmul (cget y t) c } ensures { ckeys x = ckeys y }
  = assert { forall t. cmem x t -> coef x t <> 0.0 }; assert { forall t. cmem y t -> coef y t <> 0.0 };
    assert { forall t. cmem y t -> rmul (coef y t) c <> 0.0 }; assert { forall t. coef y t = 0.0 -> rmul (coef y t) c = 0.0 };
    assert { forall t. cmem x t <-> coef x t <> 0.0 }; assert { forall t. cmem y t <-> coef y t <> 0.0 };
    assert { forall t. cmem x t <-> cmem y t };
    assert { forall t. cmem y t -> coef x t = cget x t /\ coef y t = cget y t }
  let lemma product_scaled (x y b: comb) (c: real) (t: term) requires { scaled x y c }
    ensures { pcoef x b t = rmul (pcoef y b t) c } ensures { pcoef b x t = rmul (pcoef b y t) c }
  = scaled_members x y c; rows_scale_a x y b c t (csize y); rows_scale_b b x y c t (csize b)

  let lemma product_scaled_all (x y b: comb) (c: real) requires { scaled x y c }
    ensures { forall t. pcoef x b t = rmul (pcoef y b t) c } ensures { forall t. pcoef b x t = rmul (pcoef b y t) c }
  = scaled_members x y c;
    assert { forall t. rows x b t (csize y) = rmul (rows y b t (csize y)) c };
    assert { forall t. rows b x t (csize b) = rmul (rows b y t (csize b)) c }

  (* [a, b] = a b - b a *)
  predicate is_comm (r a b: comb) = nz r /\ forall t. coef r t = pcoef a b t -. pcoef b a t
  (* the commutator as a function: exists because commutator() below returns it for all arguments, unique by same_comb *)
  function comm (a b: comb) : comb
  axiom comm_def : forall a b [comm a b]. is_comm (comm a b) a b
  (* k-fold nested commutator, nested from the left *)
  function nest (a b: comb) (k: int) : comb
  axiom nest_0 : forall a b. nest a b 0 = a
  axiom nest_s : forall a b k [nest a b k]. 0 < k -> nest a b k = comm (nest a b (k - 1)) b
  function fact (k: int) : real
  axiom fact_0 : fact 0 = 1.0
  axiom fact_s : forall k [fact k]. 0 < k -> fact k = rmul (from_int k) (fact (k - 1))
  function ifact (k: int) : real
  axiom ifact_0 : ifact 0 = 1.0
  axiom ifact_s : forall k [ifact k]. 0 < k -> ifact k = rmul (ifact (k - 1)) (1.0 /. from_int k)
  (* ifact k = 1/k! *)
  let rec lemma ifact_is_inverse_factorial (k: int) requires { 0 <= k } ensures { rmul (ifact k) (fact k) = 1.0 } ensures { ifact k <> 0.0 } variant { k }
  = if k > 0 then begin ifact_is_inverse_factorial (k - 1); assert { from_int k <> 0.0 };
      let i = any real ensures { result = ifact (k - 1) } in let f = any real ensures { result = fact (k - 1) } in
      let u = any real ensures { result = 1.0 /. from_int k } in let v = any real ensures { result = from_int k } in
      assert { rmul v u = 1.0 }; assert { rmul u v = 1.0 };
      assert { rmul (rmul i u) (rmul v f) = rmul i (rmul u (rmul v f)) };
      assert { rmul u (rmul v f) = rmul (rmul u v) f };
      assert { rmul (ifact k) (fact k) = rmul i f } end
  (* the series: sum of the nested commutators divided by k! *)
  function series (a b: comb) (t: term) (n: int) : real
  axiom series_0 : forall a b t. series a b t 0 = coef a t
  axiom series_s : forall a b t n [series a b t n]. 0 < n -> series a b t n = series a b t (n - 1) +. rmul (coef (nest a b n) t) (ifact n)
  let lemma nest_nz (a b: comb) (k: int) requires { nz a } requires { 0 <= k } ensures { nz (nest a b k) }
  = if k > 0 then assert { is_comm (nest a b k) (nest a b (k - 1)) b }
  (* one step of the series *)
  let lemma step (a b x c: comb) (k: int) requires { nz a } requires { 0 < k }
    requires { nz x } requires { forall t. coef x t = rmul (coef (nest a b (k - 1)) t) (ifact (k - 1)) } requires { is_comm c x b }
    ensures { forall t. coef c t = rmul (coef (nest a b k) t) (ifact (k - 1)) }
  = ifact_is_inverse_factorial (k - 1); nest_nz a b (k - 1);
    let y = any comb ensures { result = nest a b (k - 1) } in
    let f = any real ensures { result = ifact (k - 1) } in
    assert { scaled x y f };
    product_scaled_all x y b f;
    assert { is_comm (nest a b k) y b };
    assert { forall t. coef c t = pcoef x b t -. pcoef b x t };
    assert { forall t. coef c t = rmul (pcoef y b t) f -. rmul (pcoef b y t) f };
    assert { forall t. dists (pcoef y b t) (pcoef b y t) f };
    assert { forall t. coef (nest a b k) t = pcoef y b t -. pcoef b y t }
"""
series = lin.linear("C06", "op", ["plus", "scale", "mul"], defs=NEST)
series.fn("commutator(OperatorExpression&, OperatorExpression&)", "a b", ens=[("the commutator AB - BA", "is_comm result a b")])
series.fn("bch_series(OperatorExpression&, OperatorExpression&, int)", "a b n", req=["nz a", "0 <= n"],
          ens=[("no zero coefficient", "nz result"), ("sum of nested commutators over k!", "forall t. coef result t = series a b t n")],
          loops={1: [("range", "1 <= k <= n + 1"), ("no zero", "nz result_ /\\ nz temp"),
                     ("term so far", "forall t. coef temp t = rmul (coef (nest a b (k - 1)) t) (ifact (k - 1))"),
                     ("sum so far", "forall t. coef result_ t = series a b t (k - 1)")]})

prod = P = Profile("C06S", ["Base", "Str", "Arr8", "SeqLem"], libs=["SeqLemProof"], types=["Index", "SQOperator", "Tensor", "SymbolicTerm", "GraphMatrix", "Operator"])
P.fn("operator*(OperatorProduct&, OperatorProduct&)", "l r", ens=[("left factors then right factors", "result = l ++ r")],
     loops={1: [("left so far", "result_ = l[0..it1]")], 2: [("right so far", "result_ = l ++ r[0..it2]")]})
P.fn("Product<SQOperator>::operator*=(Product<SQOperator>&)", "this rhs", ens=[("appended", "this = old this ++ rhs")])
NO = "normal_ordered_SymbolicTerm"
OPS = "operators_SymbolicTerm"
TEN = "tensors_SymbolicTerm"
P.fn("operator_product_4(SymbolicTerm&, SymbolicTerm&)", "l r", ens=[("left operators then right operators", f"fst result = l.{OPS} ++ r.{OPS}")],
     loops={1: [("left so far", f"result_ = l.{OPS}[0..it1]")], 2: [("right so far", f"result_ = l.{OPS} ++ r.{OPS}[0..it2]")]})
P.fn("operator_product(SymbolicTerm&, SymbolicTerm&)", "l r", ens=[("left operators then right operators", f"fst result = l.{OPS} ++ r.{OPS}")],
     raises=f"l.{NO} \\/ r.{NO}")
P.fn("SymbolicTerm::operator*=(SymbolicTerm&)", "this rhs",
     ens=[("left operators then right operators", f"this.{OPS} = (old this).{OPS} ++ rhs.{OPS}"),
          ("left tensors then right tensors", f"this.{TEN} = (old this).{TEN} ++ rhs.{TEN}")],
     raises=f"this = old this /\\ (this.{NO} \\/ rhs.{NO})",
     loops={1: [("tensors so far", f"this.{TEN} = (old this).{TEN} ++ rhs.{TEN}[0..it1]")]})
P.fn("operator*(SymbolicTerm, SymbolicTerm&)", "l r",
     ens=[("left operators then right operators", f"result.{OPS} = l.{OPS} ++ r.{OPS}"), ("left tensors then right tensors", f"result.{TEN} = l.{TEN} ++ r.{TEN}")],
     raises=f"(old l).{NO} \\/ r.{NO}")
