from contracts import Profile

S = "(pair e_SQOperatorType (pair int int))"
OP = "t_Operator"
GM = "(arr8 (pair int int))"
profile = P = Profile("C17", ["Base", "Str", "Arr8", "CMap"], types=["Index", "SQOperator", "Tensor", "SymbolicTerm", "GraphMatrix", "Operator", "OrbitalSpaceInfo"],
                      preds={"Index": {"eq": "logical"}, "SQOperator": {"eq": "logical"}},
                      mode={"erase": ("label_to_pos_", "indices_to_pos_")}, pre=rf"""
  val constant osi : t_OrbitalSpaceInfo
  function nsp : int = length osi.space_info_
  function flip (y: e_SQOperatorType) : e_SQOperatorType =
    match y with SQOperatorType_Creation -> SQOperatorType_Annihilation | SQOperatorType_Annihilation -> SQOperatorType_Creation end
  (* creation <-> annihilation, same index *)
  function sqadj (o: {S}) : {S} = {{ fst = flip o.fst; snd = o.snd }}
  (* conjugated in place: label, indices and symmetry kept *)
  function tadj (t: t_Tensor) : t_Tensor =
    {{ label_Tensor = t.label_Tensor; lower_ = t.lower_; upper_ = t.upper_; symmetry_ = t.symmetry_;
       is_complex_conjugate_ = not t.is_complex_conjugate_ }}
  (* the adjoint of a product: every factor replaced by its adjoint, order reversed *)
  predicate sqprod_adj (r s: seq {S}) = length r = length s /\ forall i. 0 <= i < length s -> r[i] = sqadj s[length s - 1 - i]
  predicate tens_adj (r s: seq t_Tensor) = length r = length s /\ forall i. 0 <= i < length s -> r[i] = tadj s[i]
  predicate term_adj (r s: t_SymbolicTerm) =
    sqprod_adj r.operators_SymbolicTerm s.operators_SymbolicTerm /\ tens_adj r.tensors_SymbolicTerm s.tensors_SymbolicTerm
  (* the counts of every space are exchanged *)
  predicate gm_adj (r g: {GM}) = forall s. 0 <= s < nsp -> (aget r s).fst = (aget g s).snd /\ (aget r s).snd = (aget g s).fst
  (* positions beyond the registered spaces are not used *)
  predicate gm_ok (g: {GM}) = nsp <= 8 /\ forall s. nsp <= s < 8 -> (aget g s).fst = 0 /\ (aget g s).snd = 0
  predicate op_adj (r o: {OP}) = r.label_Operator = o.label_Operator /\ gm_adj r.graph_matrix_ o.graph_matrix_ /\ gm_ok r.graph_matrix_
  predicate ops_adj (r s: seq {OP}) = length r = length s /\ forall i. 0 <= i < length s -> op_adj r[i] s[length s - 1 - i]
  predicate ops_ok (s: seq {OP}) = forall i. 0 <= i < length s -> gm_ok (s[i]).graph_matrix_

  let lemma pair_ext (a b: pair int int) requires {{ a.fst = b.fst /\ a.snd = b.snd }} ensures {{ a = b }}
  = match a, b with | {{ fst = x; snd = y }}, {{ fst = z; snd = t }} -> assert {{ x = z /\ y = t }} end
  lemma flip_twice : forall y. flip (flip y) = y
  (* applying it twice gives back the original *)
  let lemma sq_involution (o: {S}) ensures {{ sqadj (sqadj o) = o }} = assert {{ (sqadj (sqadj o)).fst = o.fst }}
  lemma tensor_involution : forall t. tadj (tadj t) = t
  let lemma product_involution (r s t: seq {S}) requires {{ sqprod_adj r s }} requires {{ sqprod_adj t r }} ensures {{ t = s }}
  = assert {{ forall i. 0 <= i < length s -> t[i] = s[i] }}; assert {{ t == s }}
  let lemma tensors_involution (r s t: seq t_Tensor) requires {{ tens_adj r s }} requires {{ tens_adj t r }} ensures {{ t = s }}
  = assert {{ forall i. 0 <= i < length s -> t[i] = s[i] }}; assert {{ t == s }}
  let lemma term_involution (r s t: t_SymbolicTerm) requires {{ term_adj r s }} requires {{ term_adj t r }}
    ensures {{ t.operators_SymbolicTerm = s.operators_SymbolicTerm }} ensures {{ t.tensors_SymbolicTerm = s.tensors_SymbolicTerm }}
  = product_involution r.operators_SymbolicTerm s.operators_SymbolicTerm t.operators_SymbolicTerm;
    tensors_involution r.tensors_SymbolicTerm s.tensors_SymbolicTerm t.tensors_SymbolicTerm
  let lemma gm_ext (a b: {GM}) requires {{ forall i. 0 <= i < 8 -> (aget a i).fst = (aget b i).fst /\ (aget a i).snd = (aget b i).snd }} ensures {{ a = b }}
  = assert {{ forall i. 0 <= i < 8 -> aget a i = aget b i }}
  let lemma gm_involution (r g t: {GM}) requires {{ gm_adj r g }} requires {{ gm_ok g }} requires {{ gm_adj t r }} requires {{ gm_ok t }} ensures {{ t = g }}
  = assert {{ forall s. 0 <= s < 8 -> (aget t s).fst = (aget g s).fst /\ (aget t s).snd = (aget g s).snd }};
    gm_ext t g
  let lemma op_involution (r o t: {OP}) requires {{ gm_ok o.graph_matrix_ }} requires {{ op_adj r o }} requires {{ op_adj t r }} ensures {{ t = o }}
  = gm_involution r.graph_matrix_ o.graph_matrix_ t.graph_matrix_
  let lemma ops_involution (r s t: seq {OP}) requires {{ ops_ok s }} requires {{ ops_adj r s }} requires {{ ops_adj t r }} ensures {{ t = s }}
  = assert {{ forall i. 0 <= i < length s -> op_adj r[length s - 1 - i] s[i] /\ op_adj t[i] r[length s - 1 - i] }};
    assert {{ forall i. 0 <= i < length s -> t[i] = s[i] }}; assert {{ t == s }}
  (* the adjoint of a product of two is the product of the adjoints in reverse order *)
  let lemma product_reversed (a b ra rb r: seq {S}) requires {{ sqprod_adj ra a }} requires {{ sqprod_adj rb b }} requires {{ sqprod_adj r (a ++ b) }}
    ensures {{ r = rb ++ ra }}
  = assert {{ forall i. 0 <= i < length r -> r[i] = (rb ++ ra)[i] }}; assert {{ r == rb ++ ra }}
""", defs=r"""
""")

P.fn("SQOperator::adjoint()", "this", ens=[("creation <-> annihilation, same index", "result = sqadj this")])
P.fn("Tensor::adjoint()", "this", ens=[("conjugated in place", "result = tadj this")])
P.fn("Product<SQOperator>::adjoint()", "this", ens=[("adjoints in reverse order", "sqprod_adj result this")],
     loops={1: [("adjoints so far", "length d = it1 /\\ forall i. 0 <= i < it1 -> d[i] = sqadj this[i]")]})
P.fn("Product<Operator>::adjoint()", "this", req=["ops_ok this"], ens=[("adjoints in reverse order", "ops_adj result this")],
     loops={1: [("adjoints so far", "length d = it1 /\\ forall i. 0 <= i < it1 -> op_adj d[i] this[i]")]})
P.fn("SymbolicTerm::add(Product<SQOperator>&)", "this ops", ens=[
     ("appended", "this.operators_SymbolicTerm = (old this).operators_SymbolicTerm ++ ops"),
     ("rest", "this.tensors_SymbolicTerm = (old this).tensors_SymbolicTerm /\\ this.normal_ordered_SymbolicTerm = (old this).normal_ordered_SymbolicTerm")],
     loops={1: [("appended so far", "this.operators_SymbolicTerm == (old this).operators_SymbolicTerm ++ ops[0..it1]"),
                ("rest", "this.tensors_SymbolicTerm = (old this).tensors_SymbolicTerm /\\ this.normal_ordered_SymbolicTerm = (old this).normal_ordered_SymbolicTerm")]},
     ghost={"exit": "assert { this.operators_SymbolicTerm == (old this).operators_SymbolicTerm ++ ops };"})
P.fn("SymbolicTerm::adjoint()", "this", ens=[("adjoint operators and tensors", "sqprod_adj result.operators_SymbolicTerm this.operators_SymbolicTerm /\\ tens_adj result.tensors_SymbolicTerm this.tensors_SymbolicTerm")],
     loops={1: [("conjugated so far", "result_.operators_SymbolicTerm = empty /\\ length result_.tensors_SymbolicTerm = it1 /\\ forall i. 0 <= i < it1 -> (result_.tensors_SymbolicTerm)[i] = tadj this.tensors_SymbolicTerm[i]")]})
P.fn("GraphMatrix::adjoint()", "this", req=["gm_ok this"], ens=[("counts exchanged", "gm_adj result this"), ("nothing elsewhere", "gm_ok result")],
     loops={1: [("sizes", "length cre_v = nsp /\\ length ann_v = nsp /\\ 0 <= s <= nsp"),
                ("exchanged so far", "forall i. 0 <= i < s -> cre_v[i] = (aget this i).snd /\\ ann_v[i] = (aget this i).fst")]},
     variant=None)
P.fn("GraphMatrix::GraphMatrix(vec<int>&, vec<int>&)", "cre ann", req=["nsp <= 8", "length cre >= nsp /\\ length ann >= nsp"],
     ens=[("given counts", "forall s. 0 <= s < nsp -> (aget result s).fst = cre[s] /\\ (aget result s).snd = ann[s]"),
          ("nothing elsewhere", "forall s. nsp <= s < 8 -> (aget result s).fst = 0 /\\ (aget result s).snd = 0")],
     loops={1: [("set so far", "forall s. 0 <= s < i -> (aget this s).fst = cre[s] /\\ (aget this s).snd = ann[s]"),
                ("rest zero", "forall s. i <= s < 8 -> (aget this s).fst = 0 /\\ (aget this s).snd = 0"), ("range", "0 <= i <= nsp")]})
P.fn("Operator::adjoint()", "this", req=["gm_ok this.graph_matrix_"], ens=[("adjoint operator", "op_adj result this")])



# expressions and operator expressions: linear extension (see lin.py)
import lin
ADJ = """
  (* the adjoint of a term, proved above for the concrete term and product types: an involution on valid terms
     (operator products: graph matrices that respect the registered spaces) *)
  function tadj term : term
  predicate okt term
  axiom tadj_involution : forall t. okt t -> okt (tadj t) /\\ tadj (tadj t) = t
"""
ADJD = r"""
  predicate okc (a: comb) = forall t. cmem a t -> okt t
  predicate comb_adj (r a: comb) = nz r /\ okc r /\ forall t. okt t -> coef r (tadj t) = coef a t
  (* applying it twice gives back the original expression *)
  let lemma comb_involution (r a s: comb) requires { nz a } requires { okc a } requires { comb_adj r a } requires { comb_adj s r } ensures { s = a }
  = assert { forall t. okt t -> coef s t = coef s (tadj (tadj t)) }; assert { forall t. okt t -> coef s t = coef a t };
    assert { forall t. not okt t -> coef s t = 0.0 /\ coef a t = 0.0 }; same_comb s a
"""
def lift(name, kind):
    Q = lin.linear(name, kind, ["add"], pre=ADJ, defs=ADJD)
    cls, term, alg = lin.KINDS[kind]
    # the concrete adjoint is under contract in profile C17
    Q.fn({"expr": "SymbolicTerm::adjoint()", "op": "Product<Operator>::adjoint()"}[kind], "this", pure="tadj this", trusted=True)
    Q.fn(f"{cls}::adjoint()", "this", req=["nz this", "okc this"], ens=[("adjoint of every term, same coefficient", "comb_adj result this")],
         loops={1: [("no zero", "nz expr /\\ okc expr"), ("done so far", "forall t. okt t -> coef expr (tadj t) = (if cmem this t && cidx this t < it1 then coef this t else 0.0)")]})
    return Q
expr = lift("C17X", "expr")
opexpr = lift("C17P", "op")
