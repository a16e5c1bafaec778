from contracts import Profile

GM = "(arr8 (pair int int))"
EC = f"(seq {GM})"
PRE = """
  val constant osi : t_OrbitalSpaceInfo
  function nsp : int = length osi.space_info_
"""
MODE = {"erase": ("label_to_pos_", "indices_to_pos_", "timers_", "timers_mutex_")}
FACT = r"""
  (* n! and the binomial coefficient (C15) *)
  function fact (n: int) : int
  axiom fact_0 : fact 0 = 1
  axiom fact_s : forall n [fact n]. 0 < n -> fact n = n * fact (n - 1)
  let rec lemma fact_pos (n: int) requires { 0 <= n } ensures { fact n >= 1 } variant { n } = if n > 0 then fact_pos (n - 1)
  function binom (n k: int) : int
  axiom binom_out : forall n k [binom n k]. n >= 0 -> k < 0 \/ k > n -> binom n k = 0
  axiom binom_0 : forall n [binom n 0]. n >= 0 -> binom n 0 = 1
  axiom binom_s : forall n k [binom n k]. 0 < k <= n -> binom n k = binom (n - 1) (k - 1) + binom (n - 1) k
"""


def maths(P):
    P.fn("factorial(int)", "n", req=["0 <= n <= 20"], ens=[("exact factorial (C15)", "result = fact n")], trusted=True)
    P.fn("binomial(int, int)", "n k", req=["0 <= n <= 58", "0 <= k"], ens=[("exact binomial coefficient (C15)", "result = binom n k")], trusted=True)


weight = W = Profile("C10W", ["Base", "Str", "Reals", "RMul", "Arr8", "CMap"], libs=["RMulProof"], mode=MODE, pre=PRE,
    types=["GraphMatrix", "Operator", "ElementaryContraction", "OrbitalSpaceInfo", "WickTheorem"],
    preds={"ElementaryContraction": {"eq": "logical"}}, defs=FACT + rf"""
  function cr (g: {GM}) (s: int) : int = (aget g s).fst
  function an (g: {GM}) (s: int) : int = (aget g s).snd
  (* the factor of an operator: 1 over the factorials of its leg counts *)
  function overc (x: real) (g: {GM}) (n: int) : real
  axiom overc_0 : forall x g. overc x g 0 = x
  axiom overc_s : forall x g n [overc x g n]. 0 < n -> overc x g n = rdiv (overc x g (n - 1)) (from_int (fact (cr g (n - 1))))
  function overa (x: real) (g: {GM}) (n: int) : real
  axiom overa_0 : forall x g. overa x g 0 = x
  axiom overa_s : forall x g n [overa x g n]. 0 < n -> overa x g n = rdiv (overa x g (n - 1)) (from_int (fact (an g (n - 1))))
  predicate small (g: {GM}) = forall s. 0 <= s < 8 -> 0 <= cr g s <= 20 /\ 0 <= an g s <= 20
  (* legs left on operator v after the first k contractions *)
  function gsub (a b: {GM}) : {GM}
  axiom gsub_def : forall g h s [aget (gsub g h) s]. 0 <= s < 8 ->
    (aget (gsub g h) s).fst = (if s < nsp then (aget g s).fst - (aget h s).fst else (aget g s).fst) /\
    (aget (gsub g h) s).snd = (if s < nsp then (aget g s).snd - (aget h s).snd else (aget g s).snd)
  function left (ops: seq t_Operator) (cs: seq {EC}) (k v: int) : {GM}
  axiom left_0 : forall ops cs v. left ops cs 0 v = ops[v].graph_matrix_
  axiom left_s : forall ops cs k v [left ops cs k v]. 0 < k -> left ops cs k v = gsub (left ops cs (k - 1) v) cs[k - 1][v]
  predicate taken (a b: {GM}) = forall s. 0 <= s < 8 -> 0 <= cr b s <= cr a s /\ 0 <= an b s <= an a s
  let lemma gm_ext (a b: {GM}) requires {{ forall s. 0 <= s < 8 -> (aget a s).fst = (aget b s).fst /\ (aget a s).snd = (aget b s).snd }} ensures {{ a = b }}
  = assert {{ forall s. 0 <= s < 8 -> aget a s = aget b s }}
  (* the contractions take legs that are there *)
  predicate fits (ops: seq t_Operator) (cs: seq {EC}) = nsp <= 8 /\ (forall v. 0 <= v < length ops -> small ops[v].graph_matrix_) /\
    forall k. 0 <= k < length cs -> length cs[k] = length ops /\ forall v. 0 <= v < length ops -> taken (left ops cs k v) cs[k][v]
  let lemma sub_small (a b: {GM}) requires {{ small a }} requires {{ taken a b }} ensures {{ small (gsub a b) }}
  = assert {{ forall s. 0 <= s < 8 -> (aget (gsub a b) s).fst <= (aget a s).fst /\ (aget (gsub a b) s).snd <= (aget a s).snd }};
    assert {{ forall s. 0 <= s < 8 -> (aget (gsub a b) s).fst >= 0 }}; assert {{ forall s. 0 <= s < 8 -> (aget (gsub a b) s).snd >= 0 }}
  let lemma fits_at (ops: seq t_Operator) (cs: seq {EC}) (k v: int) requires {{ fits ops cs }} requires {{ 0 <= k < length cs }} requires {{ 0 <= v < length ops }}
    ensures {{ taken (left ops cs k v) cs[k][v] }} = ()
  let rec lemma left_small (ops: seq t_Operator) (cs: seq {EC}) (k v: int) requires {{ fits ops cs }} requires {{ 0 <= k <= length cs }} requires {{ 0 <= v < length ops }}
    ensures {{ small (left ops cs k v) }} variant {{ k }}
  = if k > 0 then begin left_small ops cs (k - 1) v; let a = pure {{ left ops cs (k - 1) v }} in let b = pure {{ cs[k - 1][v] }} in
      assert {{ small a }}; fits_at ops cs (k - 1) v; assert {{ taken a b }};
      let c = pure {{ gsub a b }} in
      sub_small a b;
      assert {{ left ops cs k v = c }} end
  (* ways to choose the legs: for every contraction, operator and space, the binomials (legs left, legs taken) *)
  function ways_s (x: real) (f g: {GM}) (n: int) : real
  axiom ways_s_0 : forall x f g. ways_s x f g 0 = x
  axiom ways_s_s : forall x f g n [ways_s x f g n]. 0 < n -> ways_s x f g n =
    rmul (rmul (ways_s x f g (n - 1)) (from_int (binom (cr f (n - 1)) (cr g (n - 1))))) (from_int (binom (an f (n - 1)) (an g (n - 1))))
  function ways_v (x: real) (ops: seq t_Operator) (cs: seq {EC}) (k n: int) : real
  axiom ways_v_0 : forall x ops cs k. ways_v x ops cs k 0 = x
  axiom ways_v_s : forall x ops cs k n [ways_v x ops cs k n]. 0 < n -> ways_v x ops cs k n = ways_s (ways_v x ops cs k (n - 1)) (left ops cs k (n - 1)) cs[k][n - 1] nsp
  function ways (ops: seq t_Operator) (cs: seq {EC}) (k: int) : real
  axiom ways_0 : forall ops cs. ways ops cs 0 = 1.0
  axiom ways_n : forall ops cs k [ways ops cs k]. 0 < k -> ways ops cs k = ways_v (ways ops cs (k - 1)) ops cs (k - 1) (length ops)
  (* how often e is among the first n contractions *)
  function mult (cs: seq {EC}) (e: {EC}) (n: int) : int
  axiom mult_0 : forall cs e. mult cs e 0 = 0
  axiom mult_s : forall cs e n [mult cs e n]. 0 < n -> mult cs e n = mult cs e (n - 1) + (if cs[n - 1] = e then 1 else 0)
  predicate counted (cs: seq {EC}) (n: int) (m: cmap {EC} int) = forall e. (cmem m e <-> mult cs e n > 0) /\ (cmem m e -> cget m e = mult cs e n)
  let rec lemma mult_nonneg (cs: seq {EC}) (e: {EC}) (n: int) requires {{ 0 <= n }} ensures {{ 0 <= mult cs e n }} variant {{ n }} = if n > 0 then mult_nonneg cs e (n - 1)
  (* identical contractions are interchangeable: divide by the factorial of every multiplicity *)
  function overm (x: real) (m: cmap {EC} int) (n: int) : real
  axiom overm_0 : forall x m. overm x m 0 = x
  axiom overm_s : forall x m n [overm x m n]. 0 < n -> overm x m n = rdiv (overm x m (n - 1)) (from_int (fact (cget m (ckey m (n - 1)))))
  predicate weight_of (ops: seq t_Operator) (cs: seq {EC}) (r: real) = exists m. counted cs (length cs) m /\ r = overm (ways ops cs (length cs)) m (csize m)
  (* the multiplicities determine the map: the weight is unique *)
  let lemma weight_unique (ops: seq t_Operator) (cs: seq {EC}) (r q: real) requires {{ weight_of ops cs r }} requires {{ weight_of ops cs q }} ensures {{ r = q }}
  = assert {{ forall m w. counted cs (length cs) m -> counted cs (length cs) w -> ceq m w }}
""")
maths(W)
W.fn("Operator::factor()", "this", req=["nsp <= 8", "small this.graph_matrix_"],
     ens=[("1 over the factorials of the leg counts", "result = overa (overc 1.0 this.graph_matrix_ nsp) this.graph_matrix_ nsp")],
     loops={1: [("range", "0 <= s <= nsp"), ("so far", "result_ = overc 1.0 this.graph_matrix_ s")], 2: [("range", "0 <= s <= nsp"), ("so far", "result_ = overa (overc 1.0 this.graph_matrix_ nsp) this.graph_matrix_ s")]})
W.fn("GraphMatrix::operator-=(GraphMatrix&)", "this rhs", req=["nsp <= 8"], ens=[("counts subtracted", "this = gsub (old this) rhs")],
     ghost={"entry": "let ghost t0_ = this in", "exit": "gm_ext this (pure { gsub t0_ rhs });"},
     loops={1: [("so far", "forall t. 0 <= t < 8 -> (aget this t).fst = (if t < s then (aget (old this) t).fst - (aget rhs t).fst else (aget (old this) t).fst) /\\ (aget this t).snd = (if t < s then (aget (old this) t).snd - (aget rhs t).snd else (aget (old this) t).snd)"), ("range", "0 <= s <= nsp")]})
FREE = [("operators", "length free_graph_matrix = length ops")]
W.fn("WickTheorem::combinatorial_factor(OperatorProduct&, CompositeContraction&)", "this ops cs", req=["fits ops cs", "forall e. mult cs e (length cs) <= 20"],
     ens=[("binomials of the legs left over the factorials of the multiplicities", "weight_of ops cs result"), ("solver untouched", "this = old this")],
     loops={1: [("copied", "length free_graph_matrix = it1 /\\ forall u. 0 <= u < it1 -> free_graph_matrix[u] = left ops cs 0 u")],
            2: FREE + [("legs left", "forall u. 0 <= u < length ops -> free_graph_matrix[u] = left ops cs it2 u"), ("ways so far", "factor = ways ops cs it2")],
            3: [("range", "0 <= v <= length ops")] + FREE + [("legs left", "forall u. 0 <= u < length ops -> free_graph_matrix[u] = left ops cs (if u < v then it2 + 1 else it2) u"), ("ways so far", "factor = ways_v (ways ops cs it2) ops cs it2 v")],
            4: [("range", "0 <= s <= nsp"), ("ways so far", "factor = ways_s (ways_v (ways ops cs it2) ops cs it2 v) (left ops cs it2 v) cs[it2][v] s")],
            5: [("multiplicities so far", "counted cs it5 contraction_count")],
            6: [("divided so far", "factor = overm (ways ops cs (length cs)) contraction_count it6")]},
     ghost={"begin3": "left_small ops cs it2 v;", "begin6": "assert { cmem contraction_count key6 };"})

KEY = "(tup4 int int bool int)"
I, S, T = "(pair int int)", "(pair e_SQOperatorType (pair int int))", "t_Tensor"
LEGS = rf"""
  function cr (g: {GM}) (s: int) : int = (aget g s).fst
  function an (g: {GM}) (s: int) : int = (aget g s).snd
  predicate counts (ops: seq t_Operator) = nsp <= 8 /\ forall v s. 0 <= v < length ops -> 0 <= s < 8 -> cr ops[v].graph_matrix_ s >= 0 /\ an ops[v].graph_matrix_ s >= 0
  (* creators, annihilators of the first n spaces *)
  function crs (g: {GM}) (n: int) : int
  axiom crs_0 : forall g. crs g 0 = 0
  axiom crs_s : forall g n [crs g n]. 0 < n -> crs g n = crs g (n - 1) + cr g (n - 1)
  function ans (g: {GM}) (n: int) : int
  axiom ans_0 : forall g. ans g 0 = 0
  axiom ans_s : forall g n [ans g n]. 0 < n -> ans g n = ans g (n - 1) + an g (n - 1)
  (* legs of the first o operators *)
  function start (ops: seq t_Operator) (o: int) : int
  axiom start_0 : forall ops. start ops 0 = 0
  axiom start_s : forall ops o [start ops o]. 0 < o -> start ops o = start ops (o - 1) + crs ops[o - 1].graph_matrix_ nsp + ans ops[o - 1].graph_matrix_ nsp
  type key = {KEY}
  (* the leg (operator, space, creator?, number) exists *)
  predicate leg (ops: seq t_Operator) (k: key) = 0 <= k.t4_0 < length ops /\ 0 <= k.t4_1 < nsp /\ 0 <= k.t4_3 < (if k.t4_2 then cr ops[k.t4_0].graph_matrix_ k.t4_1 else an ops[k.t4_0].graph_matrix_ k.t4_1)
  (* its position: operators from left to right, the creators of an operator by space and number, then its annihilators in the reverse order *)
  function posn (ops: seq t_Operator) (k: key) : int = let g = ops[k.t4_0].graph_matrix_ in
    if k.t4_2 then start ops k.t4_0 + crs g k.t4_1 + k.t4_3
    else start ops k.t4_0 + crs g nsp + (ans g nsp - ans g k.t4_1 - 1 - k.t4_3)
  predicate nonneg (g: {GM}) = forall s. 0 <= s < 8 -> cr g s >= 0 /\ an g s >= 0
  let rec lemma crs_mono (g: {GM}) (a b: int) requires {{ nonneg g }} requires {{ 0 <= a <= b <= 8 }} ensures {{ 0 <= crs g a <= crs g b }} variant {{ b }}
  = if 0 < b then (if a < b then crs_mono g a (b - 1) else crs_mono g (b - 1) (b - 1))
  let rec lemma ans_mono (g: {GM}) (a b: int) requires {{ nonneg g }} requires {{ 0 <= a <= b <= 8 }} ensures {{ 0 <= ans g a <= ans g b }} variant {{ b }}
  = if 0 < b then (if a < b then ans_mono g a (b - 1) else ans_mono g (b - 1) (b - 1))
  let lemma counts_at (ops: seq t_Operator) (v: int) requires {{ counts ops }} requires {{ 0 <= v < length ops }} ensures {{ nonneg ops[v].graph_matrix_ }} = ()
  let rec lemma start_mono (ops: seq t_Operator) (a b: int) requires {{ counts ops }} requires {{ 0 <= a <= b <= length ops }} ensures {{ 0 <= start ops a <= start ops b }} variant {{ b }}
  = if 0 < b then begin counts_at ops (b - 1); crs_mono ops[b - 1].graph_matrix_ 0 nsp; ans_mono ops[b - 1].graph_matrix_ 0 nsp; if a < b then start_mono ops a (b - 1) else start_mono ops (b - 1) (b - 1) end
  (* a leg lies within its operator, the creators of a space within its block *)
  let lemma posn_cre (ops: seq t_Operator) (k: key) requires {{ counts ops }} requires {{ leg ops k }} requires {{ k.t4_2 }}
    ensures {{ start ops k.t4_0 <= posn ops k < start ops k.t4_0 + crs ops[k.t4_0].graph_matrix_ nsp }}
    ensures {{ start ops k.t4_0 + crs ops[k.t4_0].graph_matrix_ k.t4_1 <= posn ops k < start ops k.t4_0 + crs ops[k.t4_0].graph_matrix_ (k.t4_1 + 1) }}
  = counts_at ops k.t4_0; let g = pure {{ ops[k.t4_0].graph_matrix_ }} in crs_mono g 0 k.t4_1; crs_mono g (k.t4_1 + 1) nsp; assert {{ crs g (k.t4_1 + 1) = crs g k.t4_1 + cr g k.t4_1 }}
  let lemma posn_ann (ops: seq t_Operator) (k: key) requires {{ counts ops }} requires {{ leg ops k }} requires {{ not k.t4_2 }}
    ensures {{ start ops k.t4_0 + crs ops[k.t4_0].graph_matrix_ nsp <= posn ops k < start ops (k.t4_0 + 1) }}
    ensures {{ start ops (k.t4_0 + 1) - ans ops[k.t4_0].graph_matrix_ (k.t4_1 + 1) <= posn ops k < start ops (k.t4_0 + 1) - ans ops[k.t4_0].graph_matrix_ k.t4_1 }}
  = counts_at ops k.t4_0; let g = pure {{ ops[k.t4_0].graph_matrix_ }} in ans_mono g 0 k.t4_1; ans_mono g (k.t4_1 + 1) nsp; assert {{ ans g (k.t4_1 + 1) = ans g k.t4_1 + an g k.t4_1 }};
    assert {{ start ops (k.t4_0 + 1) = start ops k.t4_0 + crs g nsp + ans g nsp }}
  let lemma posn_in (ops: seq t_Operator) (k: key) requires {{ counts ops }} requires {{ leg ops k }}
    ensures {{ start ops k.t4_0 <= posn ops k < start ops (k.t4_0 + 1) }} ensures {{ 0 <= posn ops k < start ops (length ops) }}
  = counts_at ops k.t4_0; let g = pure {{ ops[k.t4_0].graph_matrix_ }} in crs_mono g 0 nsp; ans_mono g 0 nsp; start_mono ops 0 k.t4_0; start_mono ops (k.t4_0 + 1) (length ops);
    assert {{ start ops (k.t4_0 + 1) = start ops k.t4_0 + crs g nsp + ans g nsp }}; if k.t4_2 then posn_cre ops k else posn_ann ops k
  (* different legs have different positions *)
  let lemma posn_inj (ops: seq t_Operator) (k l: key) requires {{ counts ops }} requires {{ leg ops k }} requires {{ leg ops l }} requires {{ posn ops k = posn ops l }} ensures {{ k = l }}
  = posn_in ops k; posn_in ops l; counts_at ops k.t4_0;
    if k.t4_0 < l.t4_0 then start_mono ops (k.t4_0 + 1) l.t4_0 else if l.t4_0 < k.t4_0 then start_mono ops (l.t4_0 + 1) k.t4_0
    else begin let g = pure {{ ops[k.t4_0].graph_matrix_ }} in
      if k.t4_2 then posn_cre ops k else posn_ann ops k; if l.t4_2 then posn_cre ops l else posn_ann ops l;
      if k.t4_2 && l.t4_2 then (if k.t4_1 < l.t4_1 then crs_mono g (k.t4_1 + 1) l.t4_1 else if l.t4_1 < k.t4_1 then crs_mono g (l.t4_1 + 1) k.t4_1);
      if not k.t4_2 && not l.t4_2 then (if k.t4_1 < l.t4_1 then ans_mono g (k.t4_1 + 1) l.t4_1 else if l.t4_1 < k.t4_1 then ans_mono g (l.t4_1 + 1) k.t4_1) end
  (* the legs at positions below n are listed: their second-quantized operators and the map from legs to positions *)
  predicate is_leg (k: key) (a: {S}) = a.fst = (if k.t4_2 then SQOperatorType_Creation else SQOperatorType_Annihilation) /\ a.snd.fst = k.t4_1
  predicate listed (ops: seq t_Operator) (n: int) (q: seq {S}) (m: cmap key int) = length q = n /\ (forall k. cmem m k <-> leg ops k /\ posn ops k < n) /\
    (forall k. leg ops k -> posn ops k < n -> cget m k = posn ops k /\ is_leg k q[posn ops k])
  (* no index occurs twice *)
  predicate distinct (q: seq {S}) = forall i j. 0 <= i < j < length q -> (q[i]).snd <> (q[j]).snd
  predicate below (q: seq {S}) (c: seq int) = forall i. 0 <= i < length q -> 0 <= (q[i]).snd.fst < length c /\ 0 <= (q[i]).snd.snd < c[(q[i]).snd.fst]
  (* the tensor of operator o carries the indices of its legs *)
  predicate ten_of (ops: seq t_Operator) (o: int) (q: seq {S}) (t: {T}) = t.label_Tensor = ops[o].label_Operator /\ t.symmetry_ = SymmetryType_Antisymmetric /\ not t.is_complex_conjugate_ /\
    length t.lower_ = crs ops[o].graph_matrix_ nsp /\ length t.upper_ = ans ops[o].graph_matrix_ nsp /\
    (forall i. 0 <= i < length t.lower_ -> t.lower_[i] = (q[start ops o + i]).snd) /\
    (forall i. 0 <= i < length t.upper_ -> t.upper_[i] = (q[start ops (o + 1) - 1 - i]).snd)
  let lemma listed_next (ops: seq t_Operator) (n: int) (q: seq {S}) (m: cmap key int) (k: key) requires {{ counts ops }} requires {{ listed ops n q m }} requires {{ leg ops k }} requires {{ posn ops k = n }}
    ensures {{ forall a. is_leg k a -> listed ops (n + 1) (snoc q a) (cset m k n) }}
  = assert {{ forall l. leg ops l -> posn ops l = n -> l = k }}; posn_in ops k;
    assert {{ forall l. leg ops l -> 0 <= posn ops l }}
  predicate tens (ops: seq t_Operator) (o: int) (q: seq {S}) (t: seq {T}) = length t = o /\ forall u. 0 <= u < o -> ten_of ops u q t[u]
  predicate laid (ops: seq t_Operator) (r: tup3 (seq {T}) (seq {S}) (cmap key int)) = listed ops (start ops (length ops)) r.t3_1 r.t3_2 /\ distinct r.t3_1 /\
    tens ops (length ops) r.t3_1 r.t3_0
  let lemma ten_keep (ops: seq t_Operator) (u: int) (q: seq {S}) (t: {T}) (a: {S}) requires {{ counts ops }} requires {{ 0 <= u < length ops }} requires {{ start ops (u + 1) <= length q }} requires {{ ten_of ops u q t }}
    ensures {{ ten_of ops u (snoc q a) t }}
  = start_mono ops u (u + 1); start_mono ops 0 u; counts_at ops u; assert {{ start ops (u + 1) = start ops u + crs ops[u].graph_matrix_ nsp + ans ops[u].graph_matrix_ nsp }}
  let lemma tens_next (ops: seq t_Operator) (o: int) (q: seq {S}) (t: seq {T}) requires {{ counts ops }} requires {{ 0 <= o <= length ops }} requires {{ start ops o <= length q }} requires {{ tens ops o q t }}
    ensures {{ forall a. tens ops o (snoc q a) t }}
  = assert {{ forall u. 0 <= u < o -> start ops (u + 1) <= start ops o }}; assert {{ forall u a. 0 <= u < o -> ten_of ops u q t[u] -> ten_of ops u (snoc q a) t[u] }}
  (* the indices l are those of the operators of q from position b on *)
  predicate carries (q: seq {S}) (l: seq {I}) (b: int) = forall i. 0 <= i < length l -> l[i] = (q[b + i]).snd
  let lemma carries_next (q: seq {S}) (l: seq {I}) (b: int) requires {{ carries q l b }} requires {{ 0 <= b }} requires {{ b + length l = length q }}
    ensures {{ forall a c. carries (snoc q {{ fst = c; snd = a }}) (snoc l a) b }} = ()
  let lemma carries_keep (q: seq {S}) (l: seq {I}) (b: int) requires {{ carries q l b }} requires {{ 0 <= b }} requires {{ b + length l <= length q }} ensures {{ forall a. carries (snoc q a) l b }} = ()
  predicate fresh (q: seq {S}) (c: seq int) = distinct q /\ below q c /\ length c = nsp /\ forall x. 0 <= x < nsp -> c[x] >= 0
  let lemma fresh_next (q: seq {S}) (c: seq int) (s: int) requires {{ fresh q c }} requires {{ 0 <= s < nsp }}
    ensures {{ forall t. fresh (snoc q {{ fst = t; snd = {{ fst = s; snd = c[s] }} }}) (set c s (c[s] + 1)) }}
  = assert {{ forall t. distinct (snoc q {{ fst = t; snd = {{ fst = s; snd = c[s] }} }}) }}
"""
POSS = rf"""
  (* all legs of the elementary contraction are in space s *)
  predicate onespace (e: {EC}) (s: int) = 0 <= s < nsp /\ (exists v. 0 <= v < length e /\ cr e[v] s + an e[v] s > 0) /\ forall v t. 0 <= v < length e -> 0 <= t < nsp -> t <> s -> cr e[v] t + an e[v] t <= 0
  predicate single (e: {EC}) = exists s. onespace e s
  (* that space *)
  function sp (e: {EC}) : int
  axiom sp_def : forall e s. onespace e s -> sp e = s
  let lemma onespace_unique (e: {EC}) (s t: int) requires {{ onespace e s }} requires {{ onespace e t }} ensures {{ s = t }} = ()
  function legc (b: bool) (g: {GM}) (s: int) : int = if b then cr g s else an g s
  function addleg (b: bool) (s k: int) (g: {GM}) : {GM} = aset g s (if b then {{ fst = cr g s + k; snd = an g s }} else {{ fst = cr g s; snd = an g s + k }})
  (* the positions of the legs (v, s, b, off .. off + n - 1) taken by a contraction, operator by operator *)
  function run (acc: seq int) (m: cmap key int) (v s: int) (b: bool) (off n: int) : seq int
  axiom run_0 : forall acc m v s b off. run acc m v s b off 0 = acc
  axiom run_s : forall acc m v s b off n [run acc m v s b off n]. 0 < n -> run acc m v s b off n = snoc (run acc m v s b off (n - 1)) (cget m {{ t4_0 = v; t4_1 = s; t4_2 = b; t4_3 = off + n - 1 }})
  function poss (m: cmap key int) (e: {EC}) (f: seq {GM}) (b: bool) (v: int) : seq int
  axiom poss_0 : forall m e f b. poss m e f b 0 = empty
  axiom poss_s : forall m e f b v [poss m e f b v]. 0 < v -> poss m e f b v = run (poss m e f b (v - 1)) m (v - 1) (sp e) b (legc b f[v - 1] (sp e)) (legc b e[v - 1] (sp e))
  (* the legs exist *)
  predicate room (m: cmap key int) (e: {EC}) (f: seq {GM}) (b: bool) = length f = length e /\
    forall v i. 0 <= v < length e -> 0 <= i < legc b e[v] (sp e) -> cmem m {{ t4_0 = v; t4_1 = sp e; t4_2 = b; t4_3 = legc b f[v] (sp e) + i }}
  predicate advanced (e: {EC}) (f0 f: seq {GM}) (b: bool) (n: int) = length f = length f0 /\
    forall v. 0 <= v < length f -> f[v] = (if v < n then addleg b (sp e) (legc b e[v] (sp e)) f0[v] else f0[v])
  predicate legal (e: {EC}) = forall v s. 0 <= v < length e -> 0 <= s < 8 -> 0 <= cr e[v] s /\ 0 <= an e[v] s
"""
legs = L = Profile("C10L", ["Base", "SeqLem", "Str", "Arr8", "CMap"], libs=["SeqLemProof"], mode=MODE, pre=PRE,
    types=["GraphMatrix", "Operator", "ElementaryContraction", "OrbitalSpaceInfo", "WickTheorem", "SQOperator", "Tensor", "index_counter"], defs=LEGS + POSS)
NEW = "forall x. 0 <= x < length c_ -> c_[x] >= 0"
SAME = [("legs listed", "listed ops n sqops op_map"), ("indices differ", "fresh sqops ic")]
TENS = [("tensors", "tens ops o sqops tensors")]
LOW = [("lower indices", "length lower = n - start ops o /\\ carries sqops lower (start ops o)")]
UPP = [("lower indices", "length lower = crs ops[o].graph_matrix_ nsp /\\ carries sqops lower (start ops o)"),
       ("upper indices", "length upper = n - start ops o - length lower /\\ carries sqops upper (start ops o + length lower)")]
L.fn("WickTheorem::contraction_tensors_sqops(OperatorProduct&)", "this ops", req=["counts ops"], ens=[("all legs with their positions, tensors carrying their indices", "laid ops result"), ("solver untouched", "this = old this")],
     loops={1: [("range", "0 <= o <= maxo"), ("position", "n = start ops o")] + SAME + TENS,
            2: [("range", "0 <= s <= nsp"), ("position", "n = start ops o + crs ops[o].graph_matrix_ s")] + SAME + TENS + LOW,
            3: [("range", "0 <= c <= cr ops[o].graph_matrix_ s"), ("position", "n = start ops o + crs ops[o].graph_matrix_ s + c")] + SAME + TENS + LOW,
            4: [("range", "-1 <= s < nsp"), ("position", "n = start ops (o + 1) - ans ops[o].graph_matrix_ (s + 1)")] + SAME + TENS + UPP,
            5: [("range", "-1 <= a < an ops[o].graph_matrix_ s"), ("position", "n = start ops (o + 1) - ans ops[o].graph_matrix_ s - 1 - a")] + SAME + TENS + UPP},
     ghost={"begin3": "start_mono ops o o; counts_at ops o; crs_mono ops[o].graph_matrix_ 0 s; tens_next ops o sqops tensors; start_mono ops 0 o; carries_next sqops lower (start ops o); listed_next ops n sqops op_map (pure { { t4_0 = o; t4_1 = s; t4_2 = True; t4_3 = c } }); fresh_next sqops ic s;", "after4": "assert { start ops (o + 1) = start ops o + crs ops[o].graph_matrix_ nsp + ans ops[o].graph_matrix_ nsp }; assert { length upper = ans ops[o].graph_matrix_ nsp };",
            "end1": "assert { forall i. 0 <= i < length (tensors[o]).upper_ -> (tensors[o]).upper_[i] = (sqops[start ops (o + 1) - 1 - i]).snd }; assert { ten_of ops o sqops tensors[o] };",
            "begin5": "start_mono ops o (o + 1); start_mono ops 0 o; tens_next ops o sqops tensors; carries_keep sqops lower (start ops o); carries_next sqops upper (start ops o + length lower); listed_next ops n sqops op_map (pure { { t4_0 = o; t4_1 = s; t4_2 = False; t4_3 = a } }); fresh_next sqops ic s;"})

L.fn("ElementaryContraction::spaces_in_elementary_contraction()", "this", req=["nsp <= 8"],
     ens=[("every listed space has a leg", "forall i. 0 <= i < length result -> 0 <= result[i] < nsp /\\ exists v. 0 <= v < length this /\\ cr this[v] result[i] + an this[v] result[i] > 0"),
          ("nothing is missed", "forall v t. 0 <= v < length this -> 0 <= t < nsp -> cr this[v] t + an this[v] t > 0 -> length result > 0")],
     loops={1: [("listed", "forall i. 0 <= i < length vec -> 0 <= vec[i] < nsp /\\ exists v. 0 <= v < length this /\\ cr this[v] vec[i] + an this[v] vec[i] > 0"),
                ("so far", "forall v t. 0 <= v < it1 -> 0 <= t < nsp -> cr this[v] t + an this[v] t > 0 -> length vec > 0")],
            2: [("range", "0 <= s <= nsp"), ("listed", "forall i. 0 <= i < length vec -> 0 <= vec[i] < nsp /\\ exists v. 0 <= v < length this /\\ cr this[v] vec[i] + an this[v] vec[i] > 0"),
                ("so far", "forall v t. 0 <= v <= it1 -> 0 <= t < nsp -> (v < it1 \\/ t < s) -> cr this[v] t + an this[v] t > 0 -> length vec > 0")]})

L.fn("WickTheorem::elements_vec_to_pos(ElementaryContraction&, vec<GraphMatrix>&, map<tuple<int, int, bool, int>, int>&, bool)", "this e f m b",
     req=["nsp <= 8", "single e", "legal e", "room m e f b"],
     ens=[("positions of the legs taken", "result = poss m e (old f) b (length e)"), ("legs taken are not taken again", "advanced e (old f) f b (length e)"), ("map untouched", "m = old m"), ("solver untouched", "this = old this")],
     loops={1: [("range", "0 <= v <= length e"), ("positions so far", "result_ = poss m e (old f) b v"), ("offsets so far", "advanced e (old f) f b v"), ("map", "m = old m")],
            2: [("range", "0 <= i <= nops"), ("positions so far", "result_ = run (poss m e (old f) b v) m v s b ops_off i"), ("map", "m = old m")]},
     ghost={"entry": "let ghost f0_ = f in", "before1": "assert { s = sp e };", "begin2": "assert { ops_off = legc b f0_[v] (sp e) }; assert { nops = legc b e[v] (sp e) }; assert { cmem m { t4_0 = v; t4_1 = sp e; t4_2 = b; t4_3 = ops_off + i } };"})
