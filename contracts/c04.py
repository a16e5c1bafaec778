from contracts import Profile
import c14

I, S, T = c14.I, c14.S, c14.T


def kind(n, el, lt):
    return rf"""
  (* r is s rearranged by p, ascending (descending) in the order of the elements *)
  predicate {n}_rearranged (s r: seq {el}) (p: seq int) = length r = length s /\ length p = length s /\
    (forall i. 0 <= i < length s -> 0 <= p[i] < length s /\ r[i] = s[p[i]]) /\ (forall i j. 0 <= i < j < length s -> p[i] <> p[j])
  predicate {n}_sorted (r: seq {el}) (down: bool) = forall i j. 0 <= i < j < length r -> if down then not {lt} r[i] r[j] else not {lt} r[j] r[i]
  (* the elements paired with their positions *)
  predicate {n}_paired (s: seq {el}) (w: seq (pair {el} int)) = length w = length s /\ forall i. 0 <= i < length s -> (w[i]).fst = s[i] /\ (w[i]).snd = i
  function {n}_poss (v: seq (pair {el} int)) : seq int
  axiom {n}_poss_def : forall v. length ({n}_poss v) = length v /\ forall i. 0 <= i < length v -> ({n}_poss v)[i] = (v[i]).snd
  let lemma {n}_sort (s: seq {el}) (v: seq (pair {el} int)) (r: seq {el})
    requires {{ exists w. {n}_paired s w /\ permutation w v }} requires {{ length r = length v /\ forall i. 0 <= i < length v -> r[i] = (v[i]).fst }}
    ensures {{ {n}_rearranged s r ({n}_poss v) }}
  = let w = any seq (pair {el} int) ensures {{ {n}_paired s result /\ permutation result v }} in
    let p = any seq int ensures {{ length result = length w /\ (forall i. 0 <= i < length w -> 0 <= result[i] < length w) /\
        (forall i j. 0 <= i < j < length w -> result[i] <> result[j]) /\ (forall i. 0 <= i < length w -> v[i] = w[result[i]]) }} in
    assert {{ forall i. 0 <= i < length s -> ({n}_poss v)[i] = p[i] }}; assert {{ {n}_poss v == p }}
"""


sort = P = Profile("C04", ["Base", "Str", "Reals", "CMap", "SeqLem"], libs=["SeqLemProof"], types=["Index", "SQOperator", "Tensor", "OrbitalSpaceInfo"], mode={"erase": ("label_to_pos_", "indices_to_pos_")},
    preds={"Index": {"eq": "logical", "lt": "lt_index"}, "SQOperator": {"eq": "logical", "lt": "lt_sqop"}}, pre=rf"""
  val constant osi : t_OrbitalSpaceInfo
  (* the orders of C14 *)
  predicate lt_index (a b: {I}) = a.fst < b.fst \/ (a.fst = b.fst /\ a.snd < b.snd)
  predicate is_cre (a: {S}) = a.fst = SQOperatorType_Creation
  predicate lt_sqop (a b: {S}) = (is_cre a /\ not is_cre b) \/ (is_cre a /\ is_cre b /\ lt_index a.snd b.snd)
    \/ (not is_cre a /\ not is_cre b /\ lt_index b.snd a.snd)
  predicate known (s: int) = 0 <= s < length osi.space_info_
  predicate fermion (o: {S}) = (osi.space_info_[o.snd.fst]).field_type_ = FieldType_Fermion
  (* pairs i < j < n with s[i] > s[j] (C15) *)
  function inv (s: seq int) (i: int) : int
  function sgn (p: seq int) : real = if mod (inv p (length p)) 2 = 0 then 1.0 else -. 1.0
{kind("ind", I, "lt_index")}
{kind("op", S, "lt_sqop")}
  (* the sign of a rearrangement of operators counts the fermions only *)
  function ferm (s: seq {S}) (p: seq int) (n: int) : seq int
  axiom ferm_0 : forall s p. ferm s p 0 = empty
  axiom ferm_s : forall s p n [ferm s p n]. 0 < n -> ferm s p n = (if fermion s[p[n - 1]] then snoc (ferm s p (n - 1)) p[n - 1] else ferm s p (n - 1))
  let rec lemma ferm_len (s: seq {S}) (p: seq int) (n: int) requires {{ 0 <= n }} ensures {{ length (ferm s p n) <= n }} variant {{ n }}
  = if n > 0 then begin ferm_len s p (n - 1); assert {{ ferm s p n = (if fermion s[p[n - 1]] then snoc (ferm s p (n - 1)) p[n - 1] else ferm s p (n - 1)) }}; assert {{ length (snoc (ferm s p (n - 1)) p[n - 1]) = length (ferm s p (n - 1)) + 1 }} end else begin assert {{ n = 0 }}; assert {{ length (ferm s p 0) = 0 }} end
  let lemma op_poss_at (s: seq {S}) (v: seq (pair {S} int)) requires {{ exists w. op_paired s w /\ permutation w v }}
    ensures {{ length v = length s }} ensures {{ forall i. 0 <= i < length s -> 0 <= (op_poss v)[i] < length s /\ s[(op_poss v)[i]] = (v[i]).fst }}
  = let w = any seq (pair {S} int) ensures {{ op_paired s result /\ permutation result v }} in
    let p = any seq int ensures {{ length result = length w /\ (forall i. 0 <= i < length w -> 0 <= result[i] < length w) /\
        (forall i. 0 <= i < length w -> v[i] = w[result[i]]) }} in
    assert {{ forall i. 0 <= i < length s -> (op_poss v)[i] = p[i] }}
  (* for distinct elements there is only one such rearrangement *)
  let lemma ind_unique (s r: seq {I}) (p q: seq int) requires {{ forall i j. 0 <= i < j < length s -> s[i] <> s[j] }}
    requires {{ ind_rearranged s r p }} requires {{ ind_rearranged s r q }} ensures {{ p = q }}
  = assert {{ forall i. 0 <= i < length p -> s[p[i]] = s[q[i]] }}; assert {{ forall i. 0 <= i < length p -> p[i] = q[i] }}; assert {{ p == q }}
  predicate indices_sorted (s r: seq {I}) (down: bool) (f: real) = ind_sorted r down /\ exists p. ind_rearranged s r p /\ f = sgn p
  predicate sqops_sorted (s r: seq {S}) (down: bool) (f: real) = op_sorted r down /\ exists p. op_rearranged s r p /\ f = sgn (ferm s p (length p))
""")
P.fn("permutation_sign(vec<int>&)", "s", req=["length s <= 0x7fff"], ens=[("parity (C15)", "result = (if mod (inv s (length s)) 2 = 0 then 1 else -1)")], trusted=True)
P.fn("canonicalize_indices(vec<Index>&, bool)", "s down", req=["length s <= 0x7fff"],
     ens=[("same indices in order, with the sign of the rearrangement", "indices_sorted (old s) s down result")],
     loops={1: [("paired", "length idx_pos = it1 /\\ forall i. 0 <= i < it1 -> (idx_pos[i]).fst = s[i] /\\ (idx_pos[i]).snd = i")],
            2: [("unpacked", "length s = it2 /\\ length perm = it2 /\\ forall i. 0 <= i < it2 -> s[i] = (idx_pos[i]).fst /\\ perm[i] = (idx_pos[i]).snd")]},
     ghost={"entry": "let ghost s0_ = s in", "after1": "assert { ind_paired s0_ idx_pos };",
            "exit": "ind_sort s0_ idx_pos s; assert { perm == ind_poss idx_pos };"})
P.fn("canonicalize_sqops(Product<SQOperator>&, bool)", "s down", req=["length s <= 0x7fff", "forall i. 0 <= i < length s -> known (s[i]).snd.fst"],
     ens=[("same operators in order, with the sign of the rearrangement of the fermions", "sqops_sorted (old s) s down result")],
     loops={1: [("paired", "length sqop_pos = it1 /\\ forall i. 0 <= i < it1 -> (sqop_pos[i]).fst = s[i] /\\ (sqop_pos[i]).snd = i")],
            2: [("unpacked", "length s = it2 /\\ forall i. 0 <= i < it2 -> s[i] = (sqop_pos[i]).fst"), ("fermions so far", "perm = ferm s0_ (op_poss sqop_pos) it2"), ("rearranged", "exists w. op_paired s0_ w /\\ permutation w sqop_pos")]},
     ghost={"entry": "let ghost s0_ = s in", "after1": "assert { op_paired s0_ sqop_pos };", "before2": "op_poss_at s0_ sqop_pos;", "begin2": "ferm_len s0_ (op_poss sqop_pos) it2;",
            "exit": "op_sort s0_ sqop_pos s; ferm_len s0_ (op_poss sqop_pos) (length s0_);"})
P.fn("Tensor::canonicalize()", "this", raises="this.symmetry_ = SymmetryType_Nonsymmetric /\\ this = old this",
     ens=[("only symmetric and antisymmetric tensors", "this.symmetry_ <> SymmetryType_Nonsymmetric"),
          ("same label, symmetry and conjugation", "this.label_Tensor = (old this).label_Tensor /\\ this.symmetry_ = (old this).symmetry_ /\\ this.is_complex_conjugate_ = (old this).is_complex_conjugate_"),
          ("upper and lower indices ascending, with the sign of both rearrangements if antisymmetric",
           "exists f g. indices_sorted (old this).upper_ this.upper_ False f /\\ indices_sorted (old this).lower_ this.lower_ False g /\\ result = (if this.symmetry_ = SymmetryType_Antisymmetric then f *. g else 1.0)")],
     req=["length this.upper_ <= 0x7fff /\\ length this.lower_ <= 0x7fff"])
for X in ("Index", "SQOperator"):
    E, x = f"enumerate_class<{X}>", f"enumerate_class_{X}_std_allocator_{X}"
    P.fn(f"{E}::enumerate_class(vec<{X}>&)", "v", ens=[("starts at the first element", f"result.iter{x} = 0 /\\ result.last{x} = length v /\\ result.vec_{x} = v")])
    P.fn(f"{E} enumerate<{X}>(vec<{X}>&)", "v", ens=[("starts at the first element", f"result.iter{x} = 0 /\\ result.last{x} = length v /\\ result.vec_{x} = v")])
    P.fn(f"{E}::begin()", "this", ens=[("itself", "result = this")])
    P.fn(f"{E}::end()", "this", ens=[("itself", "result = this")])
    P.fn(f"{E}::operator!=({E}&)", "this o", ens=[("elements left", f"result <-> this.iter{x} < this.last{x}")])
    P.fn(f"{E}::operator++()", "this", ens=[("next", f"this.iter{x} = (old this).iter{x} + 1 /\\ this.last{x} = (old this).last{x} /\\ this.vec_{x} = (old this).vec_{x}")])
    P.fn(f"{E}::operator*()", "this", req=[f"0 <= this.iter{x} < length this.vec_{x}"], ens=[("position and element", f"result.fst = this.iter{x} /\\ result.snd = (this.vec_{x})[this.iter{x}]")])
