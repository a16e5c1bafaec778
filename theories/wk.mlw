(* Mathematical vocabulary shared by all contracts.  `val` declarations here are the
   models of C++ built-in operations and of the standard library (trusted base). *)

module Base
  use export int.Int
  use int.ComputerDivision as CD
  use export int.Abs
  use export bool.Bool
  use export ref.Ref
  use export seq.Seq
  use export option.Option

  exception Throw

  let constant vempty : seq 'a = empty

  let function min (x y: int) : int = if x <= y then x else y
  let function max (x y: int) : int = if x <= y then y else x

  function div (x y: int) : int = CD.div x y
  function mod (x y: int) : int = CD.mod x y
  val div (x y: int) : int
    requires { [@expl:division by zero] y <> 0 } ensures { result = div x y }
  val mod (x y: int) : int
    requires { [@expl:division by zero] y <> 0 } ensures { result = mod x y }

  (* element access of std::vector / C array: in bounds *)
  let function vget (s: seq 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < length s } = s[i]
  let function vgetu (s: seq 'a) (i: int) : 'a = s[i]
  let function vset (s: seq 'a) (i: int) (x: 'a) : seq 'a
    requires { [@expl:index in bounds] 0 <= i < length s } = set s i x

  type pair 'a 'b = { fst: 'a; snd: 'b }
  type tup3 'a 'b 'c = { t3_0: 'a; t3_1: 'b; t3_2: 'c }
  type tup4 'a 'b 'c 'd = { t4_0: 'a; t4_1: 'b; t4_2: 'c; t4_3: 'd }
  type tup5 'a 'b 'c 'd 'e = { t5_0: 'a; t5_1: 'b; t5_2: 'c; t5_3: 'd; t5_4: 'e }

  val eqb (a b: bool) : bool ensures { result <-> (a <-> b) }
  val eqp (a b: 'a) : bool ensures { result <-> a = b }
  val cond_ (_u: unit) : bool

  let function opt_is (o: option 'a) : bool = match o with None -> false | Some _ -> true end
  val function opt_get (o: option 'a) : 'a
    requires { [@expl:optional has a value] o <> None }
  axiom opt_get_def : forall x: 'a. opt_get (Some x) = x

  function vsub (s: seq 'a) (i j: int) : seq 'a = s[i..j]
  val vsub (s: seq 'a) (i j: int) : seq 'a
    requires { [@expl:iterator range] 0 <= i <= j <= length s } ensures { result = s[i..j] }

  val function vmake (n: int) (x: 'a) : seq 'a
  axiom vmake_def : forall n: int, x: 'a. n >= 0 ->
    length (vmake n x) = n /\ (forall i. 0 <= i < n -> (vmake n x)[i] = x)
  val function vreverse (s: seq 'a) : seq 'a
  axiom vreverse_def : forall s: seq 'a. length (vreverse s) = length s /\
    (forall i. 0 <= i < length s -> (vreverse s)[i] = s[length s - 1 - i])
  val function viota (n v: int) : seq int
  axiom viota_def : forall n v. n >= 0 -> length (viota n v) = n /\
    (forall i. 0 <= i < n -> (viota n v)[i] = v + i)

  (* r is s with its elements permuted: a bijection on positions *)
  predicate permutation (s r: seq 'a) =
    length s = length r /\
    exists p: seq int. length p = length s /\
      (forall i. 0 <= i < length s -> 0 <= p[i] < length s) /\
      (forall i j. 0 <= i < j < length s -> p[i] <> p[j]) /\
      (forall i. 0 <= i < length s -> r[i] = s[p[i]])
end

module Reals
  use export real.RealInfix
  use real.FromInt as FI
  function from_int (x: int) : real = FI.from_int x
  val from_int (x: int) : real ensures { result = from_int x }
end

(* std::map with a total order on keys in which equivalent keys are equal *)
module CMap
  use Base
  type cmap 'k 'v
  val function cget (m: cmap 'k 'v) (k: 'k) : 'v
  val predicate cmem (m: cmap 'k 'v) (k: 'k)
  val function ckeys (m: cmap 'k 'v) : seq 'k
  val function cset (m: cmap 'k 'v) (k: 'k) (v: 'v) : cmap 'k 'v
  val function cremove (m: cmap 'k 'v) (k: 'k) : cmap 'k 'v
  val constant cempty : cmap 'k 'v
  let function csize (m: cmap 'k 'v) : int = length (ckeys m)
  let function ckey (m: cmap 'k 'v) (i: int) : 'k
    requires { [@expl:map iterator in range] 0 <= i < csize m } = (ckeys m)[i]
  function cidx (m: cmap 'k 'v) (k: 'k) : int

  axiom ckey_mem : forall m: cmap 'k 'v, i [ckey m i]. 0 <= i < csize m -> cmem m (ckey m i)
  axiom ckeys_mem : forall m: cmap 'k 'v, i [(ckeys m)[i]]. 0 <= i < csize m -> cmem m (ckeys m)[i]
  axiom ckey_distinct : forall m: cmap 'k 'v, i j.
    0 <= i < csize m -> 0 <= j < csize m -> ckey m i = ckey m j -> i = j
  axiom cidx_def : forall m: cmap 'k 'v, k [cmem m k]. cmem m k ->
    0 <= cidx m k < csize m /\ ckey m (cidx m k) = k
  axiom cmem_empty : forall k: 'k. not cmem (cempty: cmap 'k 'v) k
  axiom csize_empty : csize (cempty: cmap 'k 'v) = 0
  axiom cmem_set : forall m: cmap 'k 'v, k l, v [cmem (cset m k v) l]. cmem (cset m k v) l <-> (l = k \/ cmem m l)
  axiom cget_set : forall m: cmap 'k 'v, k l, v [cget (cset m k v) l].
    cget (cset m k v) l = (if l = k then v else cget m l)
  axiom ckeys_set : forall m: cmap 'k 'v, k, v [cset m k v]. cmem m k -> ckeys (cset m k v) = ckeys m
  axiom csize_set : forall m: cmap 'k 'v, k, v [cset m k v]. not cmem m k -> csize (cset m k v) = csize m + 1
  axiom cmem_remove : forall m: cmap 'k 'v, k l [cmem (cremove m k) l]. cmem (cremove m k) l <-> (l <> k /\ cmem m l)
  axiom cget_remove : forall m: cmap 'k 'v, k l [cget (cremove m k) l].
    l <> k -> cget (cremove m k) l = cget m l
  axiom csize_remove : forall m: cmap 'k 'v, k [cremove m k]. cmem m k -> csize (cremove m k) = csize m - 1
  predicate ceq (a b: cmap 'k 'v) =
    (forall k. cmem a k <-> cmem b k) /\ (forall k. cmem a k -> cget a k = cget b k)
  (* std::map iterates in the order of the keys *)
  axiom ckeys_ext : forall a: cmap 'k 'v, b: cmap 'k 'w [ckeys a, ckeys b]. (forall k. cmem a k <-> cmem b k) -> ckeys a = ckeys b
  axiom cmap_ext : forall a b: cmap 'k 'v. ceq a b -> a = b
end

(* std::string: only identity, the total order, and opaque construction *)
module Str
  use Base
  type str
  val predicate str_lt (a b: str)
  axiom str_lt_irrefl : forall a. not str_lt a a
  axiom str_lt_trans : forall a b c. str_lt a b -> str_lt b c -> str_lt a c
  axiom str_lt_total : forall a b. str_lt a b \/ a = b \/ str_lt b a
  val constant str_empty : str
  val function str_cat (a b: str) : str
  val function str_len (a: str) : int
  axiom str_len_nonneg : forall a. str_len a >= 0
  val function str_at (a: str) (i: int) : int
  val function str_rep (n: int) (c: int) : str
    requires { [@expl:string length is not negative] n >= 0 }
  val function str_rev (a: str) : str
end

(* std::array<T,8> *)
module Arr8
  use Base
  type arr8 'a
  val function aget (_a: arr8 'a) (i: int) : 'a
    requires { [@expl:array index in bounds] 0 <= i < 8 }
  val function aset (_a: arr8 'a) (i: int) (x: 'a) : arr8 'a
    requires { [@expl:array index in bounds] 0 <= i < 8 }
  val function aconst (x: 'a) : arr8 'a
  axiom aget_set : forall a: arr8 'a, i j, x [aget (aset a i x) j]. 0 <= i < 8 -> 0 <= j < 8 ->
    aget (aset a i x) j = (if j = i then x else aget a j)
  axiom aget_const : forall x: 'a, i [aget (aconst x) i]. 0 <= i < 8 -> aget (aconst x) i = x
  axiom arr8_ext : forall a b: arr8 'a. (forall i. 0 <= i < 8 -> aget a i = aget b i) -> a = b
end

(* greatest common divisor: the facts below are those of number.Gcd and number.Coprime in
   Why3's standard library (gcd_def1/2, gcd_mult, Gauss), restated so that they are used only
   where a proof asks for them; `coprime` is an opaque name for "gcd = 1". *)
module GcdFacts
  use Base
  function gcd (x y: int) : int
  val gcd (x y: int) : int ensures { result = gcd x y }
  predicate coprime (x y: int)
  predicate divides (x y: int)
  axiom coprime_def : forall x y [coprime x y]. coprime x y <-> gcd x y = 1
  axiom coprime_1 : forall x. coprime x 1
  val lemma coprime_sym (x y: int) : unit requires { coprime x y } ensures { coprime y x }
  val lemma gcd_factor (n d: int) : (n1: int, d1: int)
    requires { d > 0 } ensures { gcd n d > 0 /\ n = gcd n d * n1 /\ d = gcd n d * d1 }
  val lemma gcd_scale (c a b: int) : unit requires { c >= 0 } ensures { gcd (c * a) (c * b) = c * gcd a b }
  (* Gauss: a | b c and gcd a b = 1 imply a | c; the quotient is returned *)
  val lemma gauss (a b c q: int) : (r: int)
    requires { b * c = a * q } requires { coprime a b } ensures { c = a * r }
end

(* a strict weak order whose equivalence is `eq`, and its lexicographic extension to sequences
   (std::vector's operator< as the standard defines it); everything about it is proved below *)
module LexWeak
  use Base
  type t
  predicate eq t t
  predicate lt t t
  axiom eq_refl : forall a. eq a a
  axiom eq_sym : forall a b. eq a b -> eq b a
  axiom eq_trans : forall a b c. eq a b -> eq b c -> eq a c
  axiom lt_irr : forall a b. eq a b -> not lt a b
  axiom lt_trans : forall a b c. lt a b -> lt b c -> lt a c
  axiom lt_total : forall a b. lt a b \/ eq a b \/ lt b a

  predicate eqv (a b: seq t) = length a = length b /\ forall i. 0 <= i < length a -> eq a[i] b[i]
  predicate ltat (a b: seq t) (k: int) = 0 <= k <= length a /\ k <= length b /\
    (forall i. 0 <= i < k -> not (lt a[i] b[i]) /\ not (lt b[i] a[i])) /\
    ((k = length a /\ k < length b) \/ (k < length a /\ k < length b /\ (lt a[k] b[k])))
  predicate ltv (a b: seq t) = exists k. ltat a b k

  lemma unordered_eq : forall a b. not lt a b -> not lt b a -> eq a b
  lemma eq_unordered : forall a b. eq a b -> not lt a b /\ not lt b a
  lemma lt_eq_r : forall a b c. lt a b -> eq b c -> lt a c
  lemma lt_eq_l : forall a b c. eq a b -> lt b c -> lt a c
  lemma v_eq_refl : forall a. eqv a a
  lemma v_eq_sym : forall a b. eqv a b -> eqv b a
  lemma v_eq_trans : forall a b c. eqv a b -> eqv b c -> eqv a c
  lemma v_lt_irr : forall a b. eqv a b -> not ltv a b
  let lemma trans_at (a b c: seq t) (i j: int)
    requires { ltat a b i } requires { ltat b c j } ensures { ltv a c }
  = assert { forall m. 0 <= m < i -> eq a[m] b[m] };
    assert { forall m. 0 <= m < j -> eq b[m] c[m] };
    if i < j then begin
      assert { forall m. 0 <= m < i -> eq a[m] c[m] };
      assert { ltat a c i } end
    else if j < i then begin
      assert { forall m. 0 <= m < j -> eq a[m] c[m] };
      assert { ltat a c j } end
    else begin
      assert { forall m. 0 <= m < i -> eq a[m] c[m] };
      assert { ltat a c i } end
  lemma v_lt_trans : forall a b c. ltv a b -> ltv b c -> ltv a c
  let rec lemma total_from (a b: seq t) (k: int)
    requires { 0 <= k <= length a } requires { k <= length b }
    requires { forall i. 0 <= i < k -> eq a[i] b[i] }
    ensures { ltv a b \/ eqv a b \/ ltv b a } variant { length a - k }
  = if k < length a && k < length b then begin
      if any bool ensures { result <-> lt a[k] b[k] } then assert { ltat a b k }
      else if any bool ensures { result <-> lt b[k] a[k] } then assert { ltat b a k }
      else total_from a b (k + 1) end
    else if k < length b then assert { ltat a b k }
    else if k < length a then assert { ltat b a k }
  let lemma total_all (a b: seq t) ensures { ltv a b \/ eqv a b \/ ltv b a } = total_from a b 0
  lemma v_lt_total : forall a b. ltv a b \/ eqv a b \/ ltv b a
end

(* multiplication of exact rationals, known through its algebraic laws only; the laws are proved for
   real multiplication in RMulProof (congruence then needs no nonlinear reasoning) *)
module RMul
  use Base
  use Reals
  val function rmul (x y: real) : real
  axiom rmul_comm : forall x y [rmul x y]. rmul x y = rmul y x
  axiom rmul_assoc : forall x y z [rmul (rmul x y) z]. rmul (rmul x y) z = rmul x (rmul y z)
  axiom rmul_neg_l : forall x z [rmul (-. x) z]. rmul (-. x) z = -. rmul x z
  axiom rmul_0 : forall x [rmul x 0.0]. rmul x 0.0 = 0.0
  axiom rmul_0l : forall x [rmul 0.0 x]. rmul 0.0 x = 0.0
  axiom rmul_1 : forall x [rmul x 1.0]. rmul x 1.0 = x
  axiom rmul_1l : forall x [rmul 1.0 x]. rmul 1.0 x = x
  axiom rmul_nz : forall x y [rmul x y]. rmul x y = 0.0 -> x = 0.0 \/ y = 0.0
  axiom rmul_inv : forall x. x <> 0.0 -> rmul x (1.0 /. x) = 1.0
  val function rdiv (x y: real) : real
  axiom rdiv_mul : forall x y [rdiv x y]. y <> 0.0 -> rmul (rdiv x y) y = x
  axiom rdiv_0 : forall y [rdiv 0.0 y]. y <> 0.0 -> rdiv 0.0 y = 0.0
  axiom rdiv_nz : forall x y [rdiv x y]. y <> 0.0 -> rdiv x y = 0.0 -> x = 0.0
  (* distribution, to be asked for with `distr x y z` / `dists x y z` *)
  predicate distr (x y z: real)
  axiom distr_def : forall x y z [distr x y z]. distr x y z <-> rmul (x +. y) z = rmul x z +. rmul y z
  axiom distr_all : forall x y z [distr x y z]. distr x y z
  predicate dists (x y z: real)
  axiom dists_def : forall x y z [dists x y z]. dists x y z <-> rmul (x -. y) z = rmul x z -. rmul y z
  axiom dists_all : forall x y z [dists x y z]. dists x y z
end
module RMulProof
  use Base
  use Reals
  let function rmul (x y: real) : real = x *. y
  goal rmul_comm : forall x y . rmul x y = rmul y x
  goal rmul_assoc : forall x y z . rmul (rmul x y) z = rmul x (rmul y z)
  goal rmul_add_l : forall x y z . rmul (x +. y) z = rmul x z +. rmul y z
  goal rmul_sub_l : forall x y z . rmul (x -. y) z = rmul x z -. rmul y z
  goal rmul_neg_l : forall x z . rmul (-. x) z = -. rmul x z
  goal rmul_0 : forall x . rmul x 0.0 = 0.0
  goal rmul_0l : forall x . rmul 0.0 x = 0.0
  goal rmul_1 : forall x . rmul x 1.0 = x
  goal rmul_1l : forall x . rmul 1.0 x = x
  goal rmul_nz : forall x y . rmul x y = 0.0 -> x = 0.0 \/ y = 0.0
  function rdiv (x y: real) : real = if y = 0.0 then 0.0 else x /. y
  goal rdiv_mul : forall x y. y <> 0.0 -> rmul (rdiv x y) y = x
  goal rdiv_0 : forall y. y <> 0.0 -> rdiv 0.0 y = 0.0
  goal rdiv_nz : forall x y. y <> 0.0 -> rdiv x y = 0.0 -> x = 0.0
  goal rmul_inv : forall x . x <> 0.0 -> rmul x (1.0 /. x) = 1.0
end

(* copying a sequence element by element *)
module SeqLem
  use Base
  axiom sub_snoc : forall s: seq 'a, i [snoc s[0..i] s[i]]. 0 <= i < length s -> snoc s[0..i] s[i] = s[0..i + 1]
  axiom append_snoc : forall a b: seq 'a, x [snoc (a ++ b) x]. snoc (a ++ b) x = a ++ snoc b x
  axiom sub_all : forall s: seq 'a, n [s[0..n]]. n = length s -> s[0..n] = s
  axiom sub_none : forall s: seq 'a [s[0..0]]. s[0..0] = empty
  axiom append_empty : forall s: seq 'a [s ++ empty]. s ++ empty = s
  axiom empty_append : forall s: seq 'a [empty ++ s]. empty ++ s = s
end
module SeqLemProof
  use Base
  let lemma sub_snoc (s: seq 'a) (i: int) requires { 0 <= i < length s } ensures { snoc s[0..i] s[i] = s[0..i + 1] } = assert { snoc s[0..i] s[i] == s[0..i + 1] }
  let lemma append_snoc (a b: seq 'a) (x: 'a) ensures { snoc (a ++ b) x = a ++ snoc b x } = assert { snoc (a ++ b) x == a ++ snoc b x }
  let lemma sub_all (s: seq 'a) (n: int) requires { n = length s } ensures { s[0..n] = s } = assert { s[0..n] == s }
  let lemma sub_none (s: seq 'a) ensures { s[0..0] = empty } = assert { s[0..0] == empty }
  let lemma append_empty (s: seq 'a) ensures { s ++ empty = s } = assert { s ++ empty == s }
  let lemma empty_append (s: seq 'a) ensures { empty ++ s = s } = assert { empty ++ s == s }
end

(* sequences with the same elements *)
module Perm
  use Base

  (* the exchange of two positions *)
  function exc (s: seq 'a) (i j: int) : seq 'a = set (set s i s[j]) j s[i]
  (* r holds exactly the elements of s: a bijection p between positions *)
  predicate kept_by (s r: seq 'a) (p: seq int) = length s = length r /\ length p = length s /\
      (forall i. 0 <= i < length s -> 0 <= p[i] < length s) /\
      (forall i j. 0 <= i < length s -> 0 <= j < length s -> i <> j -> p[i] <> p[j]) /\
      (forall i. 0 <= i < length s -> r[i] = s[p[i]])
  predicate kept (s r: seq 'a) = exists p. kept_by s r p
  function exi (i j k: int) : int = if k = i then j else if k = j then i else k

  axiom exc_length : forall s: seq 'a, i j: int [exc s i j]. 0 <= i < length s -> 0 <= j < length s -> length (exc s i j) = length s
  axiom exc_get : forall s: seq 'a, i j k: int [(exc s i j)[k]]. 0 <= i < length s -> 0 <= j < length s -> 0 <= k < length s -> (exc s i j)[k] = s[exi i j k]
  axiom kept_refl : forall s: seq 'a [kept s s]. kept s s
  axiom kept_exc : forall s0 s: seq 'a, i j: int [kept s0 (exc s i j)]. kept s0 s -> 0 <= i < length s -> 0 <= j < length s -> kept s0 (exc s i j)
  axiom kept_length : forall s r: seq 'a [kept s r]. kept s r -> length r = length s
end
module PermProof
  use Base

  (* the exchange of two positions *)
  function exc (s: seq 'a) (i j: int) : seq 'a = set (set s i s[j]) j s[i]
  (* r holds exactly the elements of s: a bijection p between positions *)
  predicate kept_by (s r: seq 'a) (p: seq int) = length s = length r /\ length p = length s /\
      (forall i. 0 <= i < length s -> 0 <= p[i] < length s) /\
      (forall i j. 0 <= i < length s -> 0 <= j < length s -> i <> j -> p[i] <> p[j]) /\
      (forall i. 0 <= i < length s -> r[i] = s[p[i]])
  predicate kept (s r: seq 'a) = exists p. kept_by s r p
  function exi (i j k: int) : int = if k = i then j else if k = j then i else k

  let lemma exc_length (s: seq 'a) (i j: int) requires { 0 <= i < length s } requires { 0 <= j < length s } ensures { length (exc s i j) = length s }
  = let a = set s i s[j] in assert { length a = length s }; let b = set a j s[i] in assert { length b = length a }
  let lemma exc_get (s: seq 'a) (i j k: int) requires { 0 <= i < length s } requires { 0 <= j < length s } requires { 0 <= k < length s } ensures { (exc s i j)[k] = s[exi i j k] }
  = let a = set s i s[j] in let b = set a j s[i] in assert { b[j] = s[i] }; assert { i <> j -> b[i] = s[j] }; assert { k <> i -> k <> j -> b[k] = s[k] }
  let lemma kept_refl (s: seq 'a)  ensures { kept s s }
  = let p = viota (length s) 0 in assert { forall i. 0 <= i < length s -> p[i] = i }; assert { kept_by s s p }
  let lemma kept_exc (s0 s: seq 'a) (i j: int) requires { kept s0 s } requires { 0 <= i < length s } requires { 0 <= j < length s } ensures { kept s0 (exc s i j) }
  = let p = any seq int ensures { kept_by s0 s result } in
    let q = exc p i j in exc_length p i j; exc_length s i j;
    assert { forall k. 0 <= k < length s -> 0 <= exi i j k < length s };
    assert { forall k. 0 <= k < length s -> q[k] = p[exi i j k] by (exc p i j)[k] = p[exi i j k] };
    assert { forall k. 0 <= k < length s -> (exc s i j)[k] = s[exi i j k] };
    assert { forall k. 0 <= k < length s -> s[exi i j k] = s0[p[exi i j k]] };
    assert { forall k l. 0 <= k < length s -> 0 <= l < length s -> k <> l -> exi i j k <> exi i j l };
    assert { forall k l. 0 <= k < length s -> 0 <= l < length s -> k <> l -> p[exi i j k] <> p[exi i j l] };
    assert { kept_by s0 (exc s i j) q }
  let lemma kept_length (s r: seq 'a) requires { kept s r } ensures { length r = length s }
  = ()
end

(* product of integers known through the laws below only, which IMulProof derives from its definition *)
module IMul
  use Base
  val function imul (x y: int) : int
  axiom imul_comm : forall x y [imul x y]. imul x y = imul y x
  axiom imul_one : forall x. imul x 1 = x
  axiom imul_sign : forall x y [imul x y]. 0 <= x -> 0 <= y -> 0 <= imul x y /\ (imul x y = 0 <-> (x = 0 \/ y = 0))
end
module IMulProof
  use Base
  let function imul (x y: int) : int = x * y
  goal imul_comm : forall x y. imul x y = imul y x
  goal imul_one : forall x. imul x 1 = x
  let lemma imul_sign (x y: int) requires { 0 <= x } requires { 0 <= y } ensures { 0 <= imul x y } ensures { imul x y = 0 <-> (x = 0 \/ y = 0) } = ()
end
