from contracts import Profile
import c14, lin

I, S, T, TM = c14.I, c14.S, c14.T, c14.TM
TS, OS, NO = "tensors_SymbolicTerm", "operators_SymbolicTerm", "normal_ordered_SymbolicTerm"
PRE = rf"""
  val constant osi : t_OrbitalSpaceInfo
  (* the orders of C14 *)
  predicate lt_index (a b: {I}) = a.fst < b.fst \/ (a.fst = b.fst /\ a.snd < b.snd)
  predicate is_cre (a: {S}) = a.fst = SQOperatorType_Creation
  predicate lt_sqop (a b: {S}) = (is_cre a /\ not is_cre b) \/ (is_cre a /\ is_cre b /\ lt_index a.snd b.snd)
    \/ (not is_cre a /\ not is_cre b /\ lt_index b.snd a.snd)
  predicate known (s: int) = 0 <= s < length osi.space_info_
  function field (o: {S}) : e_FieldType = (osi.space_info_[o.snd.fst]).field_type_
  predicate fermion (o: {S}) = field o = FieldType_Fermion
  predicate ops_ok (o: seq {S}) = length o <= 0x7fffffff /\ forall k. 0 <= k < length o -> known (o[k]).snd.fst
  (* exchanging two neighbours: -1 for two fermions, 1 otherwise *)
  function sg (a b: {S}) : real = if fermion a && fermion b then -. 1.0 else 1.0
  (* x is o with neighbours p, p + 1 exchanged; y is o without them *)
  predicate swap_at (o x: seq {S}) (p: int) = 0 <= p < length o - 1 /\ length x = length o /\ x[p] = o[p + 1] /\ x[p + 1] = o[p] /\ forall k. 0 <= k < length o -> k <> p -> k <> p + 1 -> x[k] = o[k]
  predicate drop_at (o y: seq {S}) (p: int) = 0 <= p < length o - 1 /\ length y = length o - 2 /\ (forall k. 0 <= k < p -> y[k] = o[k]) /\ (forall k. p <= k < length y -> y[k] = o[k + 2])
  predicate delta (d: {T}) (i j: {I}) = d.label_Tensor = str_lit_0 /\ length d.lower_ = 1 /\ (d.lower_)[0] = i /\ length d.upper_ = 1 /\ (d.upper_)[0] = j /\ d.symmetry_ = SymmetryType_Nonsymmetric /\ not d.is_complex_conjugate_
  (* an element of any linear representation of the operator algebra: v r o t is the matrix element of the product of the
     operators o with the tensors t.  In some representations different labels denote different orbitals. *)
  type rep
  predicate distinct rep
  function v (r: rep) (o: seq {S}) (t: seq {T}) : real
  (* the canonical (anti)commutation relations: neighbours of the same kind, or in different spaces, are exchanged at their sign *)
  axiom exchange : forall r o x t p q [v r o t, v r x t, o[p], o[q]]. q = p + 1 -> swap_at o x p -> (is_cre o[p] <-> is_cre o[q]) \/ (o[p]).snd.fst <> (o[q]).snd.fst ->
    v r o t = rmul (sg o[p] o[q]) (v r x t)
  (* an annihilator moves right through a creator of its space leaving a delta of their indices *)
  axiom contract_same : forall r o x y t p q [v r o t, v r x t, v r y t, o[p], o[q]]. q = p + 1 -> swap_at o x p -> drop_at o y p -> not is_cre o[p] -> is_cre o[q] -> (o[p]).snd = (o[q]).snd ->
    v r o t = rmul (sg o[p] o[q]) (v r x t) +. v r y t
  axiom contract_delta : forall r o x y t d p q [v r o t, v r x t, v r y (snoc t d), o[p], o[q]]. q = p + 1 -> swap_at o x p -> drop_at o y p -> not is_cre o[p] -> is_cre o[q] -> (o[p]).snd.fst = (o[q]).snd.fst -> (o[p]).snd <> (o[q]).snd ->
    delta d (o[p]).snd (o[q]).snd -> v r o t = rmul (sg o[p] o[q]) (v r x t) +. v r y (snoc t d)
  (* the square of a fermionic operator is zero *)
  axiom square : forall r o t p q [v r o t, o[p], o[q]]. 0 <= p < q -> q = p + 1 -> q < length o -> o[p] = o[q] -> fermion o[p] -> v r o t = 0.0
  (* different orbitals *)
  axiom orthogonal : forall r o t d i j [v r o (snoc t d), delta d i j]. distinct r -> i <> j -> delta d i j -> v r o (snoc t d) = 0.0
"""
DEFS = rf"""
  function value (r: rep) (t: {TM}) : real = v r t.{OS} t.{TS}
  function sumv (r: rep) (n: seq (pair {TM} real)) (k: int) : real
  axiom sumv_0 : forall r n. sumv r n 0 = 0.0
  axiom sumv_s : forall r n k [sumv r n k]. 0 < k -> sumv r n k = sumv r n (k - 1) +. rmul (n[k - 1]).snd (value r (n[k - 1]).fst)
  let rec lemma sumv_same (r: rep) (a b: seq (pair {TM} real)) (k: int) requires {{ 0 <= k <= length a }} requires {{ 0 <= k <= length b }} requires {{ forall i. 0 <= i < k -> a[i] = b[i] }}
    ensures {{ sumv r a k = sumv r b k }} variant {{ k }}
  = if k > 0 then sumv_same r a b (k - 1)
  let lemma sumv_snoc (a: seq (pair {TM} real)) (x: pair {TM} real) ensures {{ forall r. sumv r (snoc a x) (length a + 1) = sumv r a (length a) +. rmul x.snd (value r x.fst) }}
  = assert {{ forall r. sumv r (snoc a x) (length a) = sumv r a (length a) }}; assert {{ (snoc a x)[length a] = x }}
  predicate ordered (o: seq {S}) = forall i j. 0 <= i < length o - 1 -> j = i + 1 -> not lt_sqop o[j] o[i]
  predicate is_delta (d: {T}) = delta d (d.lower_)[0] (d.upper_)[0] /\ (d.lower_)[0] <> (d.upper_)[0]
  (* the tensors of a resulting term: those of the given one, followed by deltas of different indices *)
  predicate with_deltas (t u: seq {T}) = length t <= length u /\ (forall k. 0 <= k < length t -> u[k] = t[k]) /\
    forall k. length t <= k < length u -> is_delta u[k]
  predicate outcome (only: bool) (t: {TM}) (x: pair {TM} real) = ordered x.fst.{OS} /\ with_deltas t.{TS} x.fst.{TS} /\ (only -> x.fst.{TS} = t.{TS}) /\ ops_ok x.fst.{OS}
    /\ (not t.{NO} -> not x.fst.{NO})
  lemma one_delta : forall only t r x d [outcome only r x, snoc t.{TS} d]. not only -> r.{TS} = snoc t.{TS} d -> is_delta d -> not r.{NO} -> outcome only r x -> outcome only t x
  predicate appended (only: bool) (t: {TM}) (a b: seq (pair {TM} real)) = length a <= length b /\ (forall k. 0 <= k < length a -> b[k] = a[k]) /\
    (forall k. length a <= k < length b -> outcome only t b[k])
  predicate adds (only: bool) (t: {TM}) (c: real) (a b: seq (pair {TM} real)) =
    forall r. (only -> distinct r) -> sumv r b (length b) = sumv r a (length a) +. rmul c (value r t)
  (* number of neighbours exchanged by sorting: pairs out of order *)
  function above (o: seq {S}) (x: {S}) (n: int) : int
  axiom above_0 : forall o x. above o x 0 = 0
  axiom above_s : forall o x n [above o x n]. 0 < n -> above o x n = above o x (n - 1) + (if lt_sqop x o[n - 1] then 1 else 0)
  function inv (o: seq {S}) (n: int) : int
  axiom inv_0 : forall o. inv o 0 = 0
  axiom inv_s : forall o n [inv o n]. 0 < n -> inv o n = inv o (n - 1) + above o o[n - 1] (n - 1)
  let rec lemma above_nonneg (o: seq {S}) (x: {S}) (n: int) requires {{ 0 <= n }} ensures {{ 0 <= above o x n }} variant {{ n }} = if n > 0 then above_nonneg o x (n - 1)
  let rec lemma inv_nonneg (o: seq {S}) (n: int) requires {{ 0 <= n }} ensures {{ 0 <= inv o n }} variant {{ n }} = if n > 0 then inv_nonneg o (n - 1)
  let rec ghost above_swap (o x: seq {S}) (p: int) (e: {S}) (n: int) : unit requires {{ swap_at o x p }} requires {{ 0 <= n <= length o }} requires {{ n <> p + 1 }}
    ensures {{ above x e n = above o e n }} variant {{ n }}
  = if n = p + 2 then begin above_swap o x p e p; assert {{ above o e (p + 1) = above o e p + (if lt_sqop e o[p] then 1 else 0) }}; assert {{ above x e (p + 1) = above x e p + (if lt_sqop e x[p] then 1 else 0) }} end
    else if n > 0 then above_swap o x p e (n - 1)
  let rec ghost inv_swap (o x: seq {S}) (p n: int) : unit requires {{ swap_at o x p }} requires {{ 0 <= n <= length o }} requires {{ n <> p + 1 }} requires {{ lt_sqop o[p + 1] o[p] }}
    ensures {{ inv x n = inv o n - (if n > p then 1 else 0) }} variant {{ n }}
  = if n = p + 2 then begin inv_swap o x p p; above_swap o x p o[p] p; above_swap o x p o[p + 1] p;
      assert {{ inv o (p + 1) = inv o p + above o o[p] p }}; assert {{ inv o (p + 2) = inv o (p + 1) + above o o[p + 1] (p + 1) }}; assert {{ above o o[p + 1] (p + 1) = above o o[p + 1] p + 1 }};
      assert {{ inv x (p + 1) = inv x p + above x o[p + 1] p }}; assert {{ inv x (p + 2) = inv x (p + 1) + above x o[p] (p + 1) }}; assert {{ above x o[p] (p + 1) = above x o[p] p }} end
    else if n > 0 then begin inv_swap o x p (n - 1); above_swap o x p o[n - 1] (n - 1); assert {{ x[n - 1] = o[n - 1] }}; assert {{ inv x n = inv x (n - 1) + above x o[n - 1] (n - 1) }} end
  let lemma fewer_ (o x: seq {S}) (p: int) requires {{ swap_at o x p }} requires {{ lt_sqop o[p + 1] o[p] }} ensures {{ inv x (length x) < inv o (length o) }} = inv_swap o x p (length o)
  lemma fewer : forall o x p q [inv o (length o), inv x (length x), o[p], o[q]]. q = p + 1 -> swap_at o x p -> lt_sqop o[q] o[p] -> inv x (length x) < inv o (length o)
  lemma drop_ : forall o p i j k [((empty: seq {S}) ++ o[i..p]) ++ o[j..k]]. i = 0 -> 0 <= p < length o - 1 -> j = p + 2 -> k = length o -> drop_at o ((empty ++ o[i..p]) ++ o[j..k]) p
  lemma swap_value : forall c r o x t p q [rmul c (v r o t), v r x t, o[p], o[q]]. q = p + 1 -> swap_at o x p -> (is_cre o[p] <-> is_cre o[q]) \/ (o[p]).snd.fst <> (o[q]).snd.fst ->
    rmul c (v r o t) = rmul (rmul c (sg o[p] o[q])) (v r x t)
  lemma scale : forall c s x y [rmul c (rmul s x +. y)]. distr (rmul s x) y c -> rmul c (rmul s x +. y) = rmul (rmul c s) x +. rmul c y
  let lemma same_value_ (c: real) (r: rep) (o x y: seq {S}) (t: seq {T}) (p q: int) requires {{ q = p + 1 }} requires {{ swap_at o x p }} requires {{ drop_at o y p }} requires {{ not is_cre o[p] /\ is_cre o[q] /\ (o[p]).snd = (o[q]).snd }}
    ensures {{ rmul c (v r o t) = rmul (rmul c (sg o[p] o[q])) (v r x t) +. rmul c (v r y t) }} = assert {{ distr (rmul (sg o[p] o[q]) (v r x t)) (v r y t) c }}
  lemma same_value : forall c r o x y t p q [rmul c (v r o t), v r x t, v r y t, o[p], o[q]]. q = p + 1 -> swap_at o x p -> drop_at o y p -> not is_cre o[p] -> is_cre o[q] -> (o[p]).snd = (o[q]).snd ->
    rmul c (v r o t) = rmul (rmul c (sg o[p] o[q])) (v r x t) +. rmul c (v r y t)
  let lemma delta_value_ (c: real) (r: rep) (o x y: seq {S}) (t: seq {T}) (d: {T}) (p q: int) requires {{ q = p + 1 }} requires {{ swap_at o x p }} requires {{ drop_at o y p }} requires {{ delta d (o[p]).snd (o[q]).snd }} requires {{ not is_cre o[p] /\ is_cre o[q] /\ (o[p]).snd.fst = (o[q]).snd.fst /\ (o[p]).snd <> (o[q]).snd }}
    ensures {{ rmul c (v r o t) = rmul (rmul c (sg o[p] o[q])) (v r x t) +. rmul c (v r y (snoc t d)) }}
  = assert {{ distr (rmul (sg o[p] o[q]) (v r x t)) (v r y (snoc t d)) c }}
  lemma delta_value : forall c r o x y t d p q [rmul c (v r o t), v r x t, v r y (snoc t d), o[p], o[q]]. q = p + 1 -> swap_at o x p -> drop_at o y p -> not is_cre o[p] -> is_cre o[q] -> (o[p]).snd.fst = (o[q]).snd.fst -> (o[p]).snd <> (o[q]).snd ->
    delta d (o[p]).snd (o[q]).snd -> rmul c (v r o t) = rmul (rmul c (sg o[p] o[q])) (v r x t) +. rmul c (v r y (snoc t d))
  let ghost function dropped (o: seq {S}) (p: int) : seq {S} requires {{ 0 <= p < length o - 1 }} ensures {{ drop_at o result p }} = o[0..p] ++ o[p + 2..length o]
  let lemma distinct_value_ (c: real) (r: rep) (o x: seq {S}) (t: seq {T}) (p q: int) requires {{ q = p + 1 }} requires {{ swap_at o x p }} requires {{ distinct r }} requires {{ not is_cre o[p] /\ is_cre o[q] /\ (o[p]).snd.fst = (o[q]).snd.fst /\ (o[p]).snd <> (o[q]).snd }}
    ensures {{ rmul c (v r o t) = rmul (rmul c (sg o[p] o[q])) (v r x t) }}
  = let y = dropped o p in let d = pure {{ {{ label_Tensor = str_lit_0; lower_ = cons (o[p]).snd empty; upper_ = cons (o[q]).snd empty; symmetry_ = SymmetryType_Nonsymmetric; is_complex_conjugate_ = False }} }} in
    assert {{ delta d (o[p]).snd (o[q]).snd }}; delta_value_ c r o x y t d p q; assert {{ v r y (snoc t d) = 0.0 }}
  lemma distinct_value : forall c r o x t p q [rmul c (v r o t), v r x t, o[p], o[q]]. q = p + 1 -> swap_at o x p -> distinct r -> not is_cre o[p] -> is_cre o[q] -> (o[p]).snd.fst = (o[q]).snd.fst -> (o[p]).snd <> (o[q]).snd ->
    rmul c (v r o t) = rmul (rmul c (sg o[p] o[q])) (v r x t)
  predicate splits (only: bool) (t: {TM}) (c: real) (x: {TM}) (cx: real) (y: {TM}) (cy: real) = forall r. (only -> distinct r) -> rmul c (value r t) = rmul cx (value r x) +. rmul cy (value r y)
  lemma adds_two : forall only t x y c cx cy a b d [adds only t c a d, adds only x cx a b, adds only y cy b d]. splits only t c x cx y cy \/ splits only t c y cy x cx -> adds only x cx a b -> adds only y cy b d -> adds only t c a d
  lemma splits_same : forall only t c x cx y p q [splits only t c x cx y c, vget t.{OS} p, vget t.{OS} q]. 0 <= p < length t.{OS} - 1 -> q = p + 1 -> swap_at t.{OS} x.{OS} p -> drop_at t.{OS} y.{OS} p -> x.{TS} = t.{TS} -> y.{TS} = t.{TS} ->
    not is_cre (vget t.{OS} p) -> is_cre (vget t.{OS} q) -> (vget t.{OS} p).snd = (vget t.{OS} q).snd -> cx = rmul c (sg (vget t.{OS} p) (vget t.{OS} q)) -> splits only t c x cx y c
  lemma splits_delta : forall only t c x cx y p q d [splits only t c x cx y c, vget t.{OS} p, vget t.{OS} q, snoc t.{TS} d]. 0 <= p < length t.{OS} - 1 -> q = p + 1 -> swap_at t.{OS} x.{OS} p -> drop_at t.{OS} y.{OS} p -> x.{TS} = t.{TS} -> y.{TS} = snoc t.{TS} d ->
    not is_cre (vget t.{OS} p) -> is_cre (vget t.{OS} q) -> (vget t.{OS} p).snd.fst = (vget t.{OS} q).snd.fst -> (vget t.{OS} p).snd <> (vget t.{OS} q).snd -> delta d (vget t.{OS} p).snd (vget t.{OS} q).snd ->
    cx = rmul c (sg (vget t.{OS} p) (vget t.{OS} q)) -> splits only t c x cx y c
  lemma swap_ : forall o p q [vset (vset o p (vget o q)) q (vget o p)]. 0 <= p < length o - 1 -> q = p + 1 -> swap_at o (vset (vset o p (vget o q)) q (vget o p)) p
"""
vac = P = Profile("C03", ["Base", "Str", "Reals", "RMul", "CMap"], libs=["RMulProof"], types=["Index", "SQOperator", "Tensor", "SymbolicTerm", "OrbitalSpaceInfo"], mode={"erase": ("label_to_pos_", "indices_to_pos_")},
    preds={"Index": {"eq": "logical", "lt": "lt_index"}, "SQOperator": {"eq": "logical", "lt": "lt_sqop"}}, pre=PRE, defs=DEFS, strs=('"delta"',))
P.fn("SQOperator::operator<(SQOperator&)", "this o", pure="lt_sqop this o")
P.fn("SQOperator::is_creation()", "this", pure="is_cre this")
P.fn("SQOperator::field_type()", "this", req=["known this.snd.fst"], pure="field this")
P.fn("SQOperator::commutator_factor(SQOperator&)", "this o", req=["known this.snd.fst", "known o.snd.fst"], ens=[("sign of an exchange", "result = sg this o")])
P.fn("SymbolicTerm::SymbolicTerm(bool, vec<SQOperator>&, vec<Tensor>&)", "n o t", ens=[("fields stored", f"result.{NO} = n /\\ result.{OS} = o /\\ result.{TS} = t")])
P.fn("Tensor::Tensor(string&, vec<Index>&, vec<Index>&, SymmetryType)", "l lo up s", ens=[("fields stored", "result.is_complex_conjugate_ = False /\\ result.label_Tensor = l /\\ result.lower_ = lo /\\ result.upper_ = up /\\ result.symmetry_ = s")])
P.fn("SymbolicTerm::add(Tensor&)", "this t", ens=[("tensor appended", f"this.{TS} = snoc (old this).{TS} t /\\ this.{OS} = (old this).{OS} /\\ this.{NO} = (old this).{NO}")])
P.fn("SymbolicTerm::is_vacuum_normal_ordered()", "this", ens=[("no neighbours out of order", f"result <-> ordered this.{OS}")])
P.fn("recursive_vacuum_normal_order(SymbolicTerm&, rational, vec<pair<SymbolicTerm, rational>>&, bool)", "t c res only", req=[f"ops_ok t.{OS}"], recursive=True,
     ghost={"entry": "let ghost ref seen_ = false in let ghost ref x1_ = t in let ghost ref c1_ = c in",
            "call recursive_vacuum_normal_order": f"(if seen_ then begin assert {{ swap_at t.{OS} x1_.{OS} pos /\\ drop_at t.{OS} $0.{OS} pos }}; assert {{ not is_cre (vget t.{OS} pos) /\\ is_cre (vget t.{OS} (pos + 1)) }}; assert {{ (vget t.{OS} pos).snd.fst = (vget t.{OS} (pos + 1)).snd.fst }}; "
            "assert { splits only t c x1_ c1_ $0 $1 \\/ splits only t c $0 $1 x1_ c1_ } end); seen_ <- true; x1_ <- $0; c1_ <- $1;"},
     variant=f"length t.{OS}, inv t.{OS} (length t.{OS})",
     ens=[("terms in normal order, with the given tensors and deltas", "appended only t (old res) res"), ("the same operator", "adds only t c (old res) res")])
P.fn("SymbolicTerm::vacuum_normal_order(bool)", "this only", req=[f"ops_ok this.{OS}"],
     ens=[("terms in normal order", "forall k. 0 <= k < length result -> outcome only this result[k]"),
          ("the same operator", "forall r. (only -> distinct r) -> sumv r result (length result) = value r this")])

# whole expressions: every term is replaced by its normal ordered terms, at the product of the coefficients
XPRE = """
  predicate labeled term
  predicate in_order term
  (* the result of SymbolicTerm::vacuum_normal_order, whose contract is proved above *)
  function vno term bool : seq (pair term real)
"""
XDEFS = """
  (* sum of c * f over the first j terms (u, f) of n with u = t *)
  function rowsum (n: seq (pair term real)) (c: real) (t: term) (j: int) : real
  axiom rowsum_0 : forall n c t. rowsum n c t 0 = 0.0
  axiom rowsum_s : forall n c t j [rowsum n c t j]. 0 < j -> rowsum n c t j = rowsum n c t (j - 1) +. (if (n[j - 1]).fst = t then rmul c (n[j - 1]).snd else 0.0)
  function rows (m: comb) (only: bool) (t: term) (i: int) : real
  axiom rows_0 : forall m only t. rows m only t 0 = 0.0
  axiom rows_s : forall m only t i [rows m only t i]. 0 < i -> rows m only t i =
    rows m only t (i - 1) +. rowsum (vno (ckey m (i - 1)) only) (cget m (ckey m (i - 1))) t (length (vno (ckey m (i - 1)) only))
"""
expr = E = lin.linear("C03X", "expr", ["add"], pre=XPRE, defs=XDEFS)
E.fn("SymbolicTerm::is_labeled_normal_ordered()", "this", pure="labeled this", trusted=True)
E.fn("SymbolicTerm::is_vacuum_normal_ordered()", "this", pure="in_order this", trusted=True)
E.fn("SymbolicTerm::vacuum_normal_order(bool)", "this only", pure="vno this only", trusted=True)
E.fn("Expression::is_vacuum_normal_ordered()", "this", ens=[("every term in order", "result <-> forall t. cmem this t -> in_order t")],
     loops={1: [("in order so far", "forall t. cmem this t -> cidx this t < it1 -> in_order t")]})
E.fn("Expression::vacuum_normal_ordered(bool)", "this only", raises="exists t. cmem this t /\\ labeled t",
     ens=[("no zero coefficient", "nz result"), ("every term replaced by its normal ordered terms", "forall t. coef result t = rows this only t (csize this)")],
     loops={1: [("none labelled so far", "forall t. cmem this t -> cidx this t < it1 -> not labeled t")],
            2: [("no zero", "nz new_expr"), ("rows so far", "forall t. coef new_expr t = rows this only t it2")],
            3: [("no zero", "nz new_expr"), ("row so far", "forall t. coef new_expr t = rows this only t it2 +. rowsum new_terms c t it3")]})
