from contracts import Profile

GM = "(arr8 (pair int int))"
EC = f"(seq {GM})"
P = enum = Profile("C09", ["Base", "SeqLem", "Str", "Arr8", "CMap"], libs=["SeqLemProof"],
    types=["GraphMatrix", "Operator", "ElementaryContraction", "OrbitalSpaceInfo", "WickTheorem"],
    mode={"erase": ("label_to_pos_", "indices_to_pos_", "timers_", "timers_mutex_")}, pre=rf"""
  val constant osi : t_OrbitalSpaceInfo
""", defs=rf"""
  function nspc : int = length osi.space_info_
  (* legs of a graph matrix in the spaces 0..n-1, of a list of graph matrices *)
  function legs (g: {GM}) (n: int) : int
  axiom legs_0 : forall g. legs g 0 = 0
  axiom legs_s : forall g n [legs g n]. 0 < n -> legs g n = legs g (n - 1) + (aget g (n - 1)).fst + (aget g (n - 1)).snd
  function legsv (f: {EC}) (w n: int) : int
  axiom legsv_0 : forall f w. legsv f w 0 = 0
  axiom legsv_s : forall f w n [legsv f w n]. 0 < n -> legsv f w n = legsv f w (n - 1) + legs f[n - 1] w
  (* all legs not contracted *)
  function rank (f: {EC}) : int = legsv f 8 (length f)
  (* removing / adding the legs of h *)
  function gsub (g h: {GM}) : {GM}
  axiom gsub_def : forall g h s [aget (gsub g h) s]. 0 <= s < 8 ->
    (aget (gsub g h) s).fst = (if s < nspc then (aget g s).fst - (aget h s).fst else (aget g s).fst) /\
    (aget (gsub g h) s).snd = (if s < nspc then (aget g s).snd - (aget h s).snd else (aget g s).snd)
  function gadd (g h: {GM}) : {GM}
  axiom gadd_def : forall g h s [aget (gadd g h) s]. 0 <= s < 8 ->
    (aget (gadd g h) s).fst = (if s < nspc then (aget g s).fst + (aget h s).fst else (aget g s).fst) /\
    (aget (gadd g h) s).snd = (if s < nspc then (aget g s).snd + (aget h s).snd else (aget g s).snd)
  function vsubg (f e: {EC}) : {EC}
  axiom vsubg_len : forall f e [vsubg f e]. length (vsubg f e) = length f
  axiom vsubg_def : forall f e i [(vsubg f e)[i]]. 0 <= i < length f -> (vsubg f e)[i] = gsub f[i] e[i]
  predicate nonneg (f: {EC}) = nspc <= 8 /\ forall i s. 0 <= i < length f -> 0 <= s < 8 -> (aget f[i] s).fst >= 0 /\ (aget f[i] s).snd >= 0
  (* enough free legs for contraction e *)
  predicate fits (f e: {EC}) = forall i s. 0 <= i < length f -> 0 <= s < nspc -> (aget e[i] s).fst <= (aget f[i] s).fst /\ (aget e[i] s).snd <= (aget f[i] s).snd
  predicate contr_ok (n: int) (e: {EC}) = length e = n /\ nonneg e /\ legsv e nspc n >= 2
  predicate all_ok (n: int) (el: seq {EC}) = nspc <= 8 /\ forall c. 0 <= c < length el -> contr_ok n el[c]

  let lemma pair_ext (a b: pair int int) requires {{ a.fst = b.fst }} requires {{ a.snd = b.snd }} ensures {{ a = b }}
  = match a, b with | {{ fst = x; snd = y }}, {{ fst = z; snd = t }} -> assert {{ x = z /\ y = t }} end
  let lemma gm_ext (a b: {GM}) requires {{ forall s. 0 <= s < 8 -> (aget a s).fst = (aget b s).fst /\ (aget a s).snd = (aget b s).snd }} ensures {{ a = b }}
  = assert {{ forall s. 0 <= s < 8 -> aget a s = aget b s }}
  let lemma gadd_gsub (g h: {GM}) ensures {{ gadd (gsub g h) h = g }}
  = assert {{ forall s. 0 <= s < 8 -> (aget (gadd (gsub g h) h) s).fst = (aget g s).fst /\ (aget (gadd (gsub g h) h) s).snd = (aget g s).snd }};
    gm_ext (pure {{ gadd (gsub g h) h }}) g
  let rec lemma legs_gsub (g h: {GM}) (n: int) requires {{ 0 <= n <= 8 }} requires {{ 0 <= nspc }} ensures {{ legs (gsub g h) n = legs g n - legs h (min n nspc) }} variant {{ n }}
  = if n > 0 then begin legs_gsub g h (n - 1); assert {{ min n nspc = (if n <= nspc then 1 + min (n - 1) nspc else min (n - 1) nspc) }};
      assert {{ n <= nspc -> legs h (min n nspc) = legs h (n - 1) + (aget h (n - 1)).fst + (aget h (n - 1)).snd }} end
  let rec lemma legs_nonneg (g: {GM}) (n: int) requires {{ 0 <= n <= 8 }} requires {{ forall s. 0 <= s < 8 -> (aget g s).fst >= 0 /\ (aget g s).snd >= 0 }}
    ensures {{ legs g n >= 0 }} variant {{ n }} = if n > 0 then legs_nonneg g (n - 1)
  let rec lemma legsv_vsub (f e: {EC}) (n: int) requires {{ 0 <= n <= length f }} requires {{ 0 <= nspc <= 8 }} requires {{ n <= length e }}
    ensures {{ legsv (vsubg f e) 8 n = legsv f 8 n - legsv e nspc n }} variant {{ n }}
  = if n > 0 then begin legsv_vsub f e (n - 1); legs_gsub f[n - 1] e[n - 1] 8; assert {{ (vsubg f e)[n - 1] = gsub f[n - 1] e[n - 1] }} end
  let rec lemma legsv_nonneg (f: {EC}) (n: int) requires {{ 0 <= n <= length f }} requires {{ nonneg f }} ensures {{ legsv f 8 n >= 0 }} variant {{ n }}
  = if n > 0 then begin legsv_nonneg f (n - 1); legs_nonneg f[n - 1] 8 end
  let lemma rank_nonneg (f: {EC}) requires {{ nonneg f }} ensures {{ rank f >= 0 }} = legsv_nonneg f (length f)
  let lemma fit_step (f e: {EC}) requires {{ nonneg f }} requires {{ fits f e }} requires {{ contr_ok (length f) e }}
    ensures {{ nonneg (vsubg f e) }} ensures {{ rank (vsubg f e) <= rank f - 2 }} ensures {{ 0 <= rank (vsubg f e) }}
  = assert {{ forall i s. 0 <= i < length f -> 0 <= s < 8 -> (aget (vsubg f e)[i] s).fst >= 0 /\ (aget (vsubg f e)[i] s).snd >= 0 }};
    legsv_vsub f e (length f); rank_nonneg (vsubg f e)

  (* a combination x, from position k on, of elementary contractions in non-decreasing order, each fitting the legs left free,
     ends with a rank in the window *)
  predicate feas (el: seq {EC}) (lo hi: int) (f: {EC}) (x: seq int) (k: int)
  axiom feas_def : forall el lo hi f x k [feas el lo hi f x k]. 0 <= k -> (feas el lo hi f x k <->
    (k = length x /\ lo <= rank f <= hi) \/
    (k < length x /\ 0 <= x[k] < length el /\ (0 < k -> x[k - 1] <= x[k]) /\ fits f el[x[k]] /\ feas el lo hi (vsubg f el[x[k]]) x (k + 1)))
  predicate starts (a x: seq int) (k: int) = k <= length a /\ k <= length x /\ forall i. 0 <= i < k -> x[i] = a[i]
  (* c1 is c0 followed by exactly the combinations that extend a[0..k), each once *)
  predicate ext_by (el: seq {EC}) (lo hi: int) (f: {EC}) (a: seq int) (k: int) (c0 c1 w: seq (seq int)) =
    c1 = c0 ++ w /\ (forall i. 0 <= i < length w -> starts a w[i] k /\ feas el lo hi f w[i] k) /\
    (forall x. starts a x k -> feas el lo hi f x k -> exists i. 0 <= i < length w /\ w[i] = x) /\
    (forall i j. 0 <= i < j < length w -> w[i] <> w[j])
  predicate exact (el: seq {EC}) (lo hi: int) (f: {EC}) (a: seq int) (k: int) (c0 c1: seq (seq int)) = exists w. ext_by el lo hi f a k c0 c1 w

  predicate starts_ok (a: seq int) (k: int) = 0 <= k <= length a
  function vaddg (f e: {EC}) : {EC}
  axiom vaddg_len : forall f e [vaddg f e]. length (vaddg f e) = length f
  axiom vaddg_def : forall f e i [(vaddg f e)[i]]. 0 <= i < length f -> (vaddg f e)[i] = gadd f[i] e[i]
  let lemma vadd_vsub (f e: {EC}) ensures {{ vaddg (vsubg f e) e = f }}
  = assert {{ forall i. 0 <= i < length f -> (vaddg (vsubg f e) e)[i] = f[i] by (vaddg (vsubg f e) e)[i] = gadd (gsub f[i] e[i]) e[i] }};
    assert {{ vaddg (vsubg f e) e == f }}
  (* what the search leaves alone *)
  predicate same_cfg (a b: t_WickTheorem) = a.elementary_contractions_ = b.elementary_contractions_ /\ a.maxcumulant_ = b.maxcumulant_ /\
    a.do_canonicalize_graph_ = b.do_canonicalize_graph_ /\ a.single_threaded_ = b.single_threaded_ /\ a.print_ = b.print_
  (* the combinations found once the first m candidates have been tried *)
  predicate tried (cand: seq int) (m: int) (x: seq int) (k: int) = length x = k \/ (k < length x /\ exists j. 0 <= j < m /\ x[k] = cand[j])
  predicate part_by (el: seq {EC}) (lo hi: int) (f: {EC}) (a: seq int) (k: int) (cand: seq int) (m: int) (c0 c1 w: seq (seq int)) =
    c1 = c0 ++ w /\ (forall i. 0 <= i < length w -> starts a w[i] k /\ feas el lo hi f w[i] k /\ tried cand m w[i] k) /\
    (forall x. starts a x k -> feas el lo hi f x k -> tried cand m x k -> exists i. 0 <= i < length w /\ w[i] = x) /\
    (forall i j. 0 <= i < j < length w -> w[i] <> w[j])
  predicate part (el: seq {EC}) (lo hi: int) (f: {EC}) (a: seq int) (k: int) (cand: seq int) (m: int) (c0 c1: seq (seq int)) =
    exists w. part_by el lo hi f a k cand m c0 c1 w
  let lemma starts_whole (a x: seq int) (k: int) requires {{ 0 <= k <= length a }} requires {{ starts a x k }} requires {{ length x = k }} ensures {{ x = a[0..k] }}
  = assert {{ x == a[0..k] }}
  let lemma part_first (el: seq {EC}) (lo hi: int) (f: {EC}) (a: seq int) (k: int) (cand: seq int) (c0 c1: seq (seq int))
    requires {{ 0 <= k <= length a }} requires {{ c1 = (if lo <= rank f <= hi then snoc c0 a[0..k] else c0) }} ensures {{ part el lo hi f a k cand 0 c0 c1 }}
  = let x = pure {{ a[0..k] }} in assert {{ length x = k }}; assert {{ starts a x k }}; assert {{ lo <= rank f <= hi <-> feas el lo hi f x k }};
    if lo <= rank f && rank f <= hi then begin
      let w = pure {{ snoc empty x }} in assert {{ c1 == c0 ++ w }};
      assert {{ length w = 1 /\ w[0] = x }};
      assert {{ forall y. starts a y k -> tried cand 0 y k -> y = x }};
      assert {{ part_by el lo hi f a k cand 0 c0 c1 w }} end
    else begin assert {{ c1 == c0 ++ empty }};
      assert {{ forall y. starts a y k -> tried cand 0 y k -> y = x }};
      assert {{ part_by el lo hi f a k cand 0 c0 c1 empty }} end
  let lemma extends (el: seq {EC}) (lo hi: int) (f: {EC}) (a: seq int) (k d: int) (x: seq int)
    requires {{ 0 <= k < length a }} requires {{ 0 <= d < length el }} requires {{ 0 < k -> a[k - 1] <= d }} requires {{ fits f el[d] }}
    ensures {{ (starts (set a k d) x (k + 1) /\ feas el lo hi (vsubg f el[d]) x (k + 1)) <-> (starts a x k /\ feas el lo hi f x k /\ k < length x /\ x[k] = d) }}
  = assert {{ forall i. 0 <= i <= k -> (set a k d)[i] = (if i = k then d else a[i]) }};
    assert {{ starts (set a k d) x (k + 1) <-> (starts a x k /\ k < length x /\ x[k] = d) }}
  let lemma part_next (el: seq {EC}) (lo hi: int) (f: {EC}) (a: seq int) (k: int) (cand: seq int) (m: int) (c0 c1 c2: seq (seq int))
    requires {{ 0 <= k < length a }} requires {{ 0 <= m < length cand }} requires {{ 0 <= cand[m] < length el }} requires {{ 0 < k -> a[k - 1] <= cand[m] }}
    requires {{ fits f el[cand[m]] }} requires {{ forall j. 0 <= j < m -> cand[j] <> cand[m] }}
    requires {{ part el lo hi f a k cand m c0 c1 }} requires {{ exact el lo hi (vsubg f el[cand[m]]) (set a k cand[m]) (k + 1) c1 c2 }}
    ensures {{ part el lo hi f a k cand (m + 1) c0 c2 }}
  = let d = cand[m] in
    let w1 = any seq (seq int) ensures {{ part_by el lo hi f a k cand m c0 c1 result }} in
    let w2 = any seq (seq int) ensures {{ ext_by el lo hi (vsubg f el[d]) (set a k d) (k + 1) c1 c2 result }} in
    let w = w1 ++ w2 in
    assert {{ c2 == c0 ++ w }};
    assert {{ forall x. (starts (set a k d) x (k + 1) /\ feas el lo hi (vsubg f el[d]) x (k + 1)) <-> (starts a x k /\ feas el lo hi f x k /\ k < length x /\ x[k] = d) }};
    assert {{ forall i. 0 <= i < length w1 -> w[i] = w1[i] }}; assert {{ forall i. 0 <= i < length w2 -> w[length w1 + i] = w2[i] }};
    assert {{ forall i. length w1 <= i < length w -> w[i] = w2[i - length w1] }};
    assert {{ forall i. 0 <= i < length w2 -> k < length w2[i] /\ (w2[i])[k] = d }};
    assert {{ forall i. 0 <= i < length w1 -> not (k < length w1[i] /\ (w1[i])[k] = d) }};
    assert {{ forall i. 0 <= i < length w -> starts a w[i] k /\ feas el lo hi f w[i] k /\ tried cand (m + 1) w[i] k }};
    assert {{ forall i j. 0 <= i < j < length w1 -> w[i] <> w[j] }};
    assert {{ forall i j. length w1 <= i < j < length w -> w[i] <> w[j] }};
    assert {{ forall i j. 0 <= i < length w1 -> length w1 <= j < length w -> w[i] <> w[j] }};
    assert {{ forall i j. 0 <= i < j < length w -> w[i] <> w[j] }};
    assert {{ forall x. starts a x k -> feas el lo hi f x k -> tried cand (m + 1) x k -> tried cand m x k \/ (k < length x /\ x[k] = d) }};
    assert {{ forall x. starts a x k -> feas el lo hi f x k -> tried cand m x k -> exists i. 0 <= i < length w /\ w[i] = x }};
    assert {{ forall x. starts a x k -> feas el lo hi f x k -> k < length x -> x[k] = d -> exists i. 0 <= i < length w /\ w[i] = x
      by exists i. 0 <= i < length w2 /\ w2[i] = x }};
    assert {{ part_by el lo hi f a k cand (m + 1) c0 c2 w }}
  let lemma part_all (el: seq {EC}) (lo hi: int) (f: {EC}) (a: seq int) (k: int) (cand: seq int) (c0 c1: seq (seq int))
    requires {{ 0 <= k <= length a }} requires {{ part el lo hi f a k cand (length cand) c0 c1 }}
    requires {{ forall c. 0 <= c < length el -> (0 < k -> a[k - 1] <= c) -> fits f el[c] -> exists i. 0 <= i < length cand /\ cand[i] = c }}
    ensures {{ exact el lo hi f a k c0 c1 }}
  = let w = any seq (seq int) ensures {{ part_by el lo hi f a k cand (length cand) c0 c1 result }} in
    assert {{ forall x. starts a x k -> feas el lo hi f x k -> tried cand (length cand) x k }};
    assert {{ ext_by el lo hi f a k c0 c1 w }}
  let lemma exact_prefix (el: seq {EC}) (lo hi: int) (f: {EC}) (a b: seq int) (k: int) (c0 c1: seq (seq int))
    requires {{ length a = length b }} requires {{ forall i. 0 <= i < k -> a[i] = b[i] }} requires {{ exact el lo hi f a k c0 c1 }} ensures {{ exact el lo hi f b k c0 c1 }}
  = let w = any seq (seq int) ensures {{ ext_by el lo hi f a k c0 c1 result }} in
    assert {{ forall x. starts a x k <-> starts b x k }}; assert {{ ext_by el lo hi f b k c0 c1 w }}
  (* the legs of a product of operators *)
  function rank_ops (ops: seq t_Operator) (n: int) : int
  axiom rank_ops_0 : forall ops. rank_ops ops 0 = 0
  axiom rank_ops_s : forall ops n [rank_ops ops n]. 0 < n -> rank_ops ops n = rank_ops ops (n - 1) + legs (ops[n - 1]).graph_matrix_ 8
  predicate legs_of (ops: seq t_Operator) (f: {EC}) = length f = length ops /\ forall i. 0 <= i < length ops -> f[i] = (ops[i]).graph_matrix_
  let rec lemma rank_ops_nonneg (ops: seq t_Operator) (n: int) requires {{ 0 <= n <= length ops }}
    requires {{ forall i s. 0 <= i < length ops -> 0 <= s < 8 -> (aget (ops[i]).graph_matrix_ s).fst >= 0 /\ (aget (ops[i]).graph_matrix_ s).snd >= 0 }}
    ensures {{ rank_ops ops n >= 0 }} variant {{ n }} = if n > 0 then begin rank_ops_nonneg ops (n - 1); legs_nonneg (ops[n - 1]).graph_matrix_ 8 end
  let rec lemma rank_ops_eq (ops: seq t_Operator) (f: {EC}) (n: int) requires {{ legs_of ops f }} requires {{ 0 <= n <= length ops }}
    ensures {{ rank_ops ops n = legsv f 8 n }} variant {{ n }} = if n > 0 then rank_ops_eq ops f (n - 1)
  (* the combinations of a product: those that start from nothing and use at most the legs of the operators *)
  predicate composite (el: seq {EC}) (lo hi: int) (ops: seq t_Operator) (x: seq int) = forall f. legs_of ops f -> feas el lo hi f x 0
  predicate enumerates (el: seq {EC}) (lo hi: int) (ops: seq t_Operator) (c0 c1: seq (seq int)) = exists w. c1 = c0 ++ w /\
    (forall i. 0 <= i < length w -> composite el lo hi ops w[i]) /\ (forall x. composite el lo hi ops x -> exists i. 0 <= i < length w /\ w[i] = x) /\
    (forall i j. 0 <= i < j < length w -> w[i] <> w[j])
  let lemma legs_of_one (ops: seq t_Operator) (f g: {EC}) requires {{ legs_of ops f }} requires {{ legs_of ops g }} ensures {{ f = g }}
  = assert {{ forall i. 0 <= i < length f -> f[i] = g[i] }}; assert {{ f == g }}
  let lemma enumerates_all (el: seq {EC}) (lo hi: int) (ops: seq t_Operator) (f: {EC}) (a: seq int) (c0 c1: seq (seq int)) requires {{ legs_of ops f }}
    requires {{ exact el lo hi f a 0 c0 c1 }} ensures {{ enumerates el lo hi ops c0 c1 }}
  = let w = any seq (seq int) ensures {{ ext_by el lo hi f a 0 c0 c1 result }} in
    assert {{ forall g. legs_of ops g -> g = f }};
    assert {{ forall x. starts a x 0 }}; assert {{ forall x. composite el lo hi ops x <-> feas el lo hi f x 0 }}
""")
P.fn("GraphMatrix::num_ops()", "this", pure="legs this 8", loops={1: [("so far", "r = legs this it1")]})
P.fn("GraphMatrix::operator-=(GraphMatrix&)", "this rhs", req=["nspc <= 8"], ens=[("counts subtracted", "this = gsub (old this) rhs")],
     ghost={"entry": "let ghost t0_ = this in", "exit": "gm_ext this (pure { gsub t0_ rhs });"},
     loops={1: [("range", "0 <= s <= nspc"), ("so far", "forall i. 0 <= i < 8 -> (aget this i).fst = (if i < s then (aget (old this) i).fst - (aget rhs i).fst else (aget (old this) i).fst) /\\ (aget this i).snd = (if i < s then (aget (old this) i).snd - (aget rhs i).snd else (aget (old this) i).snd)")]})
P.fn("GraphMatrix::operator+=(GraphMatrix&)", "this rhs", req=["nspc <= 8"], ens=[("counts added", "this = gadd (old this) rhs")],
     ghost={"entry": "let ghost t0_ = this in", "exit": "gm_ext this (pure { gadd t0_ rhs });"},
     loops={1: [("range", "0 <= s <= nspc"), ("so far", "forall i. 0 <= i < 8 -> (aget this i).fst = (if i < s then (aget (old this) i).fst + (aget rhs i).fst else (aget (old this) i).fst) /\\ (aget this i).snd = (if i < s then (aget (old this) i).snd + (aget rhs i).snd else (aget (old this) i).snd)")]})
P.fn("sum_num_ops(vec<GraphMatrix>&)", "g", ens=[("legs of all", "result = rank g")], ghost={"fold1": "acc_ = legsv g 8 n_"})
P.fn("WickTheorem::construct_candidates(vec<int>&, int, vec<ElementaryContraction>&, vec<GraphMatrix>&)", "this a k el f",
     req=["nspc <= 8", "all_ok (length f) el", "1 <= k <= length a + 1", "k > 1 -> 0 <= a[k - 2]"],
     ens=[("solver and solution untouched", "this = old this /\\ a = old a"),
          ("candidates are valid", "forall i. 0 <= i < length result -> 0 <= result[i] < length el /\\ (k > 1 -> a[k - 2] <= result[i]) /\\ fits f el[result[i]]"),
          ("every valid candidate", "forall c. 0 <= c < length el -> (k > 1 -> a[k - 2] <= c) -> fits f el[c] -> exists i. 0 <= i < length result /\\ result[i] = c"),
          ("each once", "forall i j. 0 <= i < j < length result -> result[i] <> result[j]")],
     loops={1: [("range", "minc <= c /\\ (c <= maxc \\/ c = minc)"), ("valid", "forall i. 0 <= i < length candidates -> minc <= candidates[i] < c /\\ candidates[i] < length el /\\ fits f el[candidates[i]]"),
                ("complete", "forall d. minc <= d < c -> d < length el -> fits f el[d] -> exists i. 0 <= i < length candidates /\\ candidates[i] = d"),
                ("once", "forall i j. 0 <= i < j < length candidates -> candidates[i] <> candidates[j]")],
            2: [("range", "0 <= v_A <= nops"), ("checked", "is_valid_contraction <-> forall i s. 0 <= i < v_A -> 0 <= s < nspc -> (aget el[c][i] s).fst <= (aget f[i] s).fst /\\ (aget el[c][i] s).snd <= (aget f[i] s).snd")],
            3: [("range", "0 <= s <= nspc"), ("checked", "is_valid_contraction <-> (forall i s. 0 <= i < v_A -> 0 <= s < nspc -> (aget el[c][i] s).fst <= (aget f[i] s).fst /\\ (aget el[c][i] s).snd <= (aget f[i] s).snd) /\\ (forall t. 0 <= t < s -> (aget el[c][v_A] t).fst <= (aget f[v_A] t).fst /\\ (aget el[c][v_A] t).snd <= (aget f[v_A] t).snd)")]})

P.fn("WickTheorem::make_move(vec<int>&, int, int, vec<ElementaryContraction>&, vec<GraphMatrix>&)", "this a k c el f",
     req=["nspc <= 8", "0 <= c < length el", "length el[c] = length f", "1 <= k <= length a"],
     ens=[("solver untouched", "this = old this"), ("contraction recorded", "a = set (old a) (k - 1) c"), ("its legs removed", "f = vsubg (old f) el[c]")],
     ghost={"entry": "let ghost f0_ = f in", "exit": "assert { f == vsubg f0_ el[c] };"},
     loops={1: [("range", "0 <= v_A <= nops"), ("length kept", "length f = length (old f)"), ("so far", "forall i. 0 <= i < length f -> f[i] = (if i < v_A then gsub (old f)[i] el[c][i] else (old f)[i])")]})
P.fn("WickTheorem::unmake_move(vec<int>&, int, int, vec<ElementaryContraction>&, vec<GraphMatrix>&)", "this a k c el f",
     req=["nspc <= 8", "0 <= c < length el", "length el[c] = length f", "1 <= k <= length a"],
     ens=[("solver untouched", "this = old this"), ("contraction removed", "a = set (old a) (k - 1) (-1)"), ("its legs put back", "f = vaddg (old f) el[c]")],
     ghost={"entry": "let ghost f0_ = f in", "exit": "assert { f == vaddg f0_ el[c] };"},
     loops={1: [("range", "0 <= v_A <= nops"), ("length kept", "length f = length (old f)"), ("so far", "forall i. 0 <= i < length f -> f[i] = (if i < v_A then gadd (old f)[i] el[c][i] else (old f)[i])")]})
P.fn("WickTheorem::process_contraction(vec<int>&, int, vec<GraphMatrix>&, int, int)", "this a k f lo hi",
     req=["0 <= k <= length a"],
     ens=[("kept iff its rank is in the window", "this.contractions_ = (if lo <= rank f <= hi then snoc (old this).contractions_ a[0..k] else (old this).contractions_)"), ("configuration kept", "same_cfg this (old this)")])
P.fn("WickTheorem::generate_contractions_backtrack(vec<int>, int, vec<ElementaryContraction>&, vec<GraphMatrix>&, int, int)", "this a k el f lo hi",
     req=["all_ok (length f) el", "nonneg f", "0 <= k", "2 * k + rank f <= 2 * length a - 1", "k > 0 -> 0 <= a[k - 1]"],
     ens=[("exactly the valid extensions with a rank in the window, each once", "exact el lo hi f (old a) (old k) (old this).contractions_ this.contractions_"),
          ("free legs restored", "f = old f"), ("configuration kept", "same_cfg this (old this)")], recursive=True, variant="rank f",
     loops={1: [("found so far", "part el lo hi f a k rng1 it1 (old this).contractions_ this.contractions_"), ("free legs restored", "f = old f"), ("configuration kept", "same_cfg this (old this)"),
                ("solution prefix", "length a_v = length a /\\ forall i. 0 <= i < k -> a_v[i] = a[i]")]},
     ghost={"entry": "let ghost t0_ = this in let ghost f0_ = f in",
            "before1": "part_first el lo hi f a k candidates t0_.contractions_ this.contractions_; rank_nonneg f;",
            "begin1": "let ghost c1_ = this.contractions_ in let ghost a1_ = a_v in assert { candidates[it1] = c }; fit_step f0_ el[c];",
            "end1": "vadd_vsub f0_ el[c]; exact_prefix el lo hi (pure { vsubg f0_ el[c] }) (pure { set a1_ k c }) (pure { set a k c }) (k + 1) c1_ this.contractions_;"
                    "part_next el lo hi f0_ a k candidates it1 t0_.contractions_ c1_ this.contractions_;",
            "after1": "part_all el lo hi f0_ a k candidates t0_.contractions_ this.contractions_;"})
P.fn("OperatorProduct::num_ops()", "this", ens=[("legs of all", "result = rank_ops this (length this)")], loops={1: [("so far", "r = rank_ops this it1")]})
P.fn("Operator::num_ops()", "this", ens=[("legs", "result = legs this.graph_matrix_ 8")])
P.fn("WickTheorem::generate_composite_contractions(OperatorProduct&, int, int)", "this ops lo hi",
     req=["all_ok (length ops) this.elementary_contractions_", "forall i s. 0 <= i < length ops -> 0 <= s < 8 -> (aget (ops[i]).graph_matrix_ s).fst >= 0 /\\ (aget (ops[i]).graph_matrix_ s).snd >= 0"],
     ens=[("exactly the combinations with a rank in the window, each once", "enumerates this.elementary_contractions_ lo hi ops (old this).contractions_ this.contractions_"), ("configuration kept", "same_cfg this (old this)")],
     loops={1: [("copied", "length free_graph_matrix_vec = it1 /\\ forall i. 0 <= i < it1 -> free_graph_matrix_vec[i] = (ops[i]).graph_matrix_")]},
     ghost={"entry": "let ghost t0_ = this in", "after1": "rank_ops_nonneg ops (length ops); rank_ops_eq ops free_graph_matrix_vec (length ops); assert { rank_ops ops (length ops) = rank free_graph_matrix_vec };",
            "exit": "enumerates_all t0_.elementary_contractions_ lo hi ops free_graph_matrix_vec a t0_.contractions_ this.contractions_;"})
# the protocol by which range-for loops over range(...) are translated
P.fn("range::range(u64)", "end_", ens=[("from zero", "result.iterrange = 0 /\\ result.lastrange = end_")])
P.fn("range::range(u64, u64)", "begin_ end_", ens=[("from begin", "result.iterrange = begin_ /\\ result.lastrange = end_")])
P.fn("range::begin()", "this", ens=[("itself", "result = this")])
P.fn("range::end()", "this", ens=[("itself", "result = this")])
P.fn("range::operator!=(range&)", "this o", ens=[("numbers left", "result <-> this.iterrange < this.lastrange")])
P.fn("range::operator++()", "this", ens=[("next", "this.iterrange = (old this).iterrange + 1 /\\ this.lastrange = (old this).lastrange")])
P.fn("range::operator*()", "this", ens=[("current", "result = this.iterrange")])
