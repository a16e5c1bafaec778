from contracts import Profile

PREDS = {
    "Index": {"eq": "logical", "lt": "lt_index"},
    "SQOperator": {"eq": "logical", "lt": "lt_sqop"},
    "Tensor": {"eq": "eq_tensor", "lt": "lt_tensor"},
    "SymbolicTerm": {"eq": "eq_term", "lt": "lt_term"},
    "GraphMatrix": {"eq": "logical", "lt": "lt_gm"},
    "Operator": {"eq": "logical", "lt": "lt_operator"},
}


def clone(name, t, eq, lt):
    return (f"  clone wk.LexWeak as {name} with type t = {t}, predicate eq = {eq}, predicate lt = {lt}, "
            "goal eq_refl, goal eq_sym, goal eq_trans, goal lt_irr, goal lt_trans, goal lt_total\n")


def laws(n, t, eq, lt):
    return f"""
  lemma {n}_equality_is_an_equivalence : forall a b c: {t}. {eq} a a /\\ ({eq} a b -> {eq} b a) /\\ ({eq} a b -> {eq} b c -> {eq} a c)
  lemma {n}_irreflexive : forall a b: {t}. {eq} a b -> not {lt} a b
  lemma {n}_transitive : forall a b c: {t}. {lt} a b -> {lt} b c -> {lt} a c
  lemma {n}_total : forall a b: {t}. {lt} a b \\/ {eq} a b \\/ {lt} b a
  lemma {n}_unordered_iff_equal : forall a b: {t}. (not {lt} a b /\\ not {lt} b a) <-> {eq} a b
"""


I, S, T, TM, GM, OP = "(pair int int)", "(pair e_SQOperatorType (pair int int))", "t_Tensor", "t_SymbolicTerm", "(arr8 (pair int int))", "t_Operator"
profile = P = Profile("C14", ["Base", "Str", "Arr8", "CMap"], types=["Index", "SQOperator", "Tensor", "SymbolicTerm", "GraphMatrix", "Operator", "OrbitalSpaceInfo"], mode={"erase": ("label_to_pos_", "indices_to_pos_")}, preds=PREDS, libs=["LexWeak"], pre=rf"""
  (* the registry of orbital spaces during a call *)
  val constant osi : t_OrbitalSpaceInfo
  let lemma pair_ext (a b: {I}) requires {{ a.fst = b.fst /\ a.snd = b.snd }} ensures {{ a = b }}
  = match a, b with | {{ fst = x; snd = y }}, {{ fst = z; snd = t }} -> assert {{ x = z /\ y = t }} end
  let lemma pair_ext_op (a b: {S}) requires {{ a.fst = b.fst /\ a.snd = b.snd }} ensures {{ a = b }}
  = match a, b with | {{ fst = x; snd = y }}, {{ fst = z; snd = t }} -> assert {{ x = z /\ y = t }} end
  predicate eq_index (a b: {I}) = a = b
  predicate lt_index (a b: {I}) = a.fst < b.fst \/ (a.fst = b.fst /\ a.snd < b.snd)
{laws("index", I, "eq_index", "lt_index")}
{clone("LI", I, "eq_index", "lt_index")}
  predicate eq_indices (a b: seq {I}) = a = b
  predicate lt_indices (a b: seq {I}) = LI.ltv a b
  lemma eqv_indices : forall a b: seq {I}. LI.eqv a b <-> a == b
{laws("indices", f"seq {I}", "eq_indices", "lt_indices")}
  (* creation before annihilation; creators ascending, annihilators descending *)
  predicate is_cre (a: {S}) = a.fst = SQOperatorType_Creation
  predicate eq_sqop (a b: {S}) = a = b
  predicate lt_sqop (a b: {S}) = (is_cre a /\ not is_cre b) \/ (is_cre a /\ is_cre b /\ lt_index a.snd b.snd)
    \/ (not is_cre a /\ not is_cre b /\ lt_index b.snd a.snd)
{laws("sqoperator", S, "eq_sqop", "lt_sqop")}
{clone("LS", S, "eq_sqop", "lt_sqop")}
  lemma eqv_sqops : forall a b: seq {S}. LS.eqv a b <-> a == b
  (* quasiparticle order, given which operators are quasiparticle creators *)
  predicate known (s: int) = 0 <= s < length osi.space_info_
  predicate occupied (s: int) = (osi.space_info_[s]).space_type_ = SpaceType_Occupied
  predicate qp_cre (a: {S}) = if occupied a.snd.fst then not is_cre a else is_cre a
  predicate lt_nord (qa qb: bool) (a b: {S}) = (qa /\ not qb) \/ (qa /\ qb /\ lt_index a.snd b.snd) \/ (not qa /\ not qb /\ lt_index b.snd a.snd)
  predicate lt_no (a b: {S}) = lt_nord (qp_cre a) (qp_cre b) a b
{laws("normal_ordered_less", S, "eq_sqop", "lt_no")}
  (* label, then lower, then upper indices; symmetry and conjugation take no part *)
  predicate eq_tensor (a b: {T}) = a.label_Tensor = b.label_Tensor /\ a.lower_ = b.lower_ /\ a.upper_ = b.upper_
  predicate lt_tensor (a b: {T}) = str_lt a.label_Tensor b.label_Tensor \/ (a.label_Tensor = b.label_Tensor /\
    (lt_indices a.lower_ b.lower_ \/ (a.lower_ = b.lower_ /\ lt_indices a.upper_ b.upper_)))
{laws("tensor", T, "eq_tensor", "lt_tensor")}
{clone("LT", T, "eq_tensor", "lt_tensor")}
  predicate eq_tensors (a b: seq {T}) = LT.eqv a b
  predicate eq_sqops (a b: seq {S}) = a = b
  predicate eq_term (a b: {TM}) = eq_tensors a.tensors_SymbolicTerm b.tensors_SymbolicTerm /\ a.operators_SymbolicTerm = b.operators_SymbolicTerm
  predicate lt_term (a b: {TM}) = LT.ltv a.tensors_SymbolicTerm b.tensors_SymbolicTerm \/
    (eq_tensors a.tensors_SymbolicTerm b.tensors_SymbolicTerm /\ LS.ltv a.operators_SymbolicTerm b.operators_SymbolicTerm)
{laws("sqop_list", f"seq {S}", "eq_sqops", "LS.ltv")}
{laws("tensor_list", f"seq {T}", "eq_tensors", "LT.ltv")}
{laws("symbolic_term", TM, "eq_term", "lt_term")}
  (* graph matrices: the first differing space decides *)
  predicate eq_gm (a b: {GM}) = a = b
  predicate gm_at (a b: {GM}) (k: int) = 0 <= k < 8 /\ (forall i. 0 <= i < k -> aget a i = aget b i) /\ lt_index (aget a k) (aget b k)
  predicate lt_gm (a b: {GM}) = exists k. gm_at a b k
  lemma gm_trans_at : forall a b c: {GM}, i j. gm_at a b i -> gm_at b c j -> gm_at a c (min i j)
  let rec lemma gm_total (a b: {GM}) (k: int)
    requires {{ 0 <= k <= 8 }} requires {{ forall i. 0 <= i < k -> aget a i = aget b i }}
    ensures {{ lt_gm a b \/ a = b \/ lt_gm b a }} variant {{ 8 - k }}
  = if k < 8 then begin
      if any bool ensures {{ result <-> lt_index (aget a k) (aget b k) }} then assert {{ gm_at a b k }}
      else if any bool ensures {{ result <-> lt_index (aget b k) (aget a k) }} then assert {{ gm_at b a k }}
      else gm_total a b (k + 1) end
  let lemma gm_total0 (a b: {GM}) ensures {{ lt_gm a b \/ a = b \/ lt_gm b a }} = gm_total a b 0
{laws("graph_matrix", GM, "eq_gm", "lt_gm")}
  predicate eq_operator (a b: {OP}) = a = b
  predicate lt_operator (a b: {OP}) = str_lt a.label_Operator b.label_Operator \/
    (a.label_Operator = b.label_Operator /\ lt_gm a.graph_matrix_ b.graph_matrix_)
{laws("operator", OP, "eq_operator", "lt_operator")}
{clone("LO", OP, "eq_operator", "lt_operator")}
  lemma eqv_operators : forall a b: seq {OP}. LO.eqv a b <-> a == b
  predicate eq_operators (a b: seq {OP}) = a = b
{laws("operator_product", f"seq {OP}", "eq_operators", "LO.ltv")}
""", defs=r"""
  (* the standard library's lexicographic order on vectors of these types is the proved one *)
  lemma vec_index : forall a b. lt_vec_Index a b <-> LI.ltv a b
  lemma vec_sqop : forall a b. lt_vec_SQOperator a b <-> LS.ltv a b
  lemma vec_tensor : forall a b. lt_vec_Tensor a b <-> LT.ltv a b
  lemma vec_tensor_eq : forall a b. eq_vec_Tensor a b <-> LT.eqv a b
  lemma vec_operator : forall a b. lt_vec_Operator a b <-> LO.ltv a b
  lemma pair_index : forall a b: pair int int. lt_tup_int_int a b <-> lt_index a b
  lemma arr_gm : forall a b. lt_arr_tup_int_int a b <-> lt_gm a b
""", orders=["std::vector<Index>", "std::vector<SQOperator>", "std::vector<Tensor>", "std::vector<Operator>", "std::pair<int,int>", "std::array<std::pair<int,int>,8>"])


def lt(name, pred):
    P.fn(name, "this other", ens=[("order", f"result <-> {pred}")])


def eq(name, pred):
    P.fn(name, "this other", ens=[("equality", f"result <-> {pred}")])


lt("Index::operator<(Index&)", "lt_index this other")
eq("Index::operator==(Index&)", "this = other")
lt("SQOperator::operator<(SQOperator&)", "lt_sqop this other")
eq("SQOperator::operator==(SQOperator&)", "this = other")
lt("Tensor::operator<(Tensor&)", "lt_tensor this other")
eq("Tensor::operator==(Tensor&)", "eq_tensor this other")
lt("SymbolicTerm::operator<(SymbolicTerm&)", "lt_term this other")
eq("SymbolicTerm::operator==(SymbolicTerm&)", "eq_term this other")
lt("GraphMatrix::operator<(GraphMatrix&)", "lt_gm this other")
eq("GraphMatrix::operator==(GraphMatrix&)", "this = other")
eq("GraphMatrix::operator!=(GraphMatrix&)", "this <> other")
lt("Operator::operator<(Operator&)", "lt_operator this other")
eq("Operator::operator==(Operator&)", "this = other")
eq("Operator::operator!=(Operator&)", "this <> other")
for T_, v in (("Operator", "LO"), ("SQOperator", "LS")):
    lt(f"Product<{T_}>::operator<(Product<{T_}>&)", f"{v}.ltv this other")
    eq(f"Product<{T_}>::is_equal(Product<{T_}>&)", "this = other")
    P.fn(f"bool operator==<{T_}>(Product<{T_}>&, Product<{T_}>&)", "a b", ens=[("equality", "result <-> a = b")])
P.fn("SQOperator::is_creation()", "this", ens=[("creation", "result <-> is_cre this")])
P.fn("SQOperator::normal_ordered_less(SQOperator&)", "this other", req=["known this.snd.fst", "known other.snd.fst"], ens=[("order", "result <-> lt_no this other")])
P.fn("SQOperator::is_quasiparticle_creation()", "this", req=["known this.snd.fst"], ens=[("quasiparticle creator", "result <-> qp_cre this")])
P.fn("OrbitalSpaceInfo::space_type(int)", "this pos", req=["0 <= pos < length this.space_info_"], ens=[("space type", "result = (this.space_info_[pos]).space_type_")])
P.fn("OrbitalSpace::space_type()", "this", ens=[("space type", "result = this.space_type_")])
P.fn("Index::space()", "this", ens=[("first", "result = this.fst")])
P.fn("Index::pos()", "this", ens=[("second", "result = this.snd")])
