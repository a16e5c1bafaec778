from contracts import Profile
import c14

I, S, T, TM = c14.I, c14.S, c14.T, c14.TM
eqs = P = Profile("C16", ["Base", "Str", "Reals", "CMap", "SeqLem"], libs=["SeqLemProof"], strs=('"|"',), types=["Index", "SQOperator", "Tensor", "SymbolicTerm", "Equation", "OrbitalSpaceInfo"], mode={"erase": ("label_to_pos_", "indices_to_pos_")},
    preds={"Index": {"eq": "logical"}, "SQOperator": {"eq": "logical"}, "SymbolicTerm": {"eq": "logical"}}, defs=rf"""
  val constant osi : t_OrbitalSpaceInfo
  function nsp : int = length osi.space_info_
  predicate known (s: int) = 0 <= s < nsp
  predicate is_cre (a: {S}) = a.fst = SQOperatorType_Creation
  (* the indices of the creators in order, and of the annihilators in reverse order *)
  function lows (o: seq {S}) (n: int) : seq {I}
  axiom lows_0 : forall o. lows o 0 = empty
  axiom lows_s : forall o n [lows o n]. 0 < n -> lows o n = (if is_cre o[n - 1] then snoc (lows o (n - 1)) (o[n - 1]).snd else lows o (n - 1))
  function upps (o: seq {S}) (n: int) : seq {I}
  axiom upps_0 : forall o. upps o 0 = empty
  axiom upps_s : forall o n [upps o n]. 0 < n -> upps o n = (if is_cre o[n - 1] then upps o (n - 1) else cons (o[n - 1]).snd (upps o (n - 1)))
  predicate in_spaces (v: seq {I}) = forall i. 0 <= i < length v -> known (v[i]).fst
  predicate ops_known (o: seq {S}) = forall i. 0 <= i < length o -> known (o[i]).snd.fst
  (* number of indices of v in space s *)
  function cnt (v: seq {I}) (s n: int) : int
  axiom cnt_0 : forall v s. cnt v s 0 = 0
  axiom cnt_s : forall v s n [cnt v s n]. 0 < n -> cnt v s n = cnt v s (n - 1) + (if (v[n - 1]).fst = s then 1 else 0)
  predicate sig_of (g: seq (pair int int)) (up lo: seq {I}) = length g = nsp /\
    forall s. 0 <= s < nsp -> (g[s]).fst = cnt up s (length up) /\ (g[s]).snd = cnt lo s (length lo)
  function sigf (up lo: seq {I}) : seq (pair int int)
  (* the open-index pattern as text: for every space its label once per upper index, |, the same for the lower indices in reverse *)
  function spc (s: int) : int = (osi.space_info_[s]).label_OrbitalSpace
  function ups_txt (g: seq (pair int int)) (n: int) : str
  axiom ups_txt_0 : forall g. ups_txt g 0 = str_empty
  axiom ups_txt_s : forall g n [ups_txt g n]. 0 < n -> ups_txt g n = str_cat (ups_txt g (n - 1)) (str_rep (g[n - 1]).fst (spc (n - 1)))
  function los_txt (g: seq (pair int int)) (n: int) : str
  axiom los_txt_0 : forall g. los_txt g 0 = str_empty
  axiom los_txt_s : forall g n [los_txt g n]. 0 < n -> los_txt g n = str_cat (los_txt g (n - 1)) (str_rep (g[n - 1]).snd (spc (n - 1)))
  function txt (g: seq (pair int int)) : str = str_cat (str_cat (ups_txt g nsp) str_lit_0) (str_rev (los_txt g nsp))
  axiom sigf_def : forall up lo. sig_of (sigf up lo) up lo
  let lemma sig_unique (g: seq (pair int int)) (up lo: seq {I}) requires {{ sig_of g up lo }} ensures {{ g = sigf up lo }}
  = assert {{ forall s. 0 <= s < nsp -> g[s] = (sigf up lo)[s] }}; assert {{ g == sigf up lo }}
  function t_upps (t: {TM}) : seq {I} = upps t.operators_SymbolicTerm (length t.operators_SymbolicTerm)
  function t_lows (t: {TM}) : seq {I} = lows t.operators_SymbolicTerm (length t.operators_SymbolicTerm)
  function key (t: {TM}) : str = txt (sigf (t_upps t) (t_lows t))
  (* the equation of a term: the operators' indices on the left, the tensors on the right, the coefficient as factor *)
  function eqn (lbl: str) (t: {TM}) (c: real) : t_Equation =
    {{ lhs_ = {{ normal_ordered_SymbolicTerm = False; operators_SymbolicTerm = empty; tensors_SymbolicTerm = snoc empty
          {{ label_Tensor = lbl; lower_ = t_lows t; upper_ = t_upps t; symmetry_ = SymmetryType_Antisymmetric; is_complex_conjugate_ = False }} }};
       rhs_ = {{ normal_ordered_SymbolicTerm = False; operators_SymbolicTerm = empty; tensors_SymbolicTerm = t.tensors_SymbolicTerm }}; factor_ = c }}
  type ex = cmap {TM} real
  (* the equations of the first n terms with key k *)
  function grp (lbl: str) (m: ex) (k: str) (n: int) : seq t_Equation
  axiom grp_0 : forall lbl m k. grp lbl m k 0 = empty
  axiom grp_s : forall lbl m k n [grp lbl m k n]. 0 < n -> grp lbl m k n =
    (if key (ckey m (n - 1)) = k then snoc (grp lbl m k (n - 1)) (eqn lbl (ckey m (n - 1)) (cget m (ckey m (n - 1)))) else grp lbl m k (n - 1))
  predicate grouped (lbl: str) (m: ex) (n: int) (r: cmap str (seq t_Equation)) =
    forall k. (cmem r k <-> length (grp lbl m k n) > 0) /\ (cmem r k -> cget r k = grp lbl m k n)
  (* nothing is dropped: the equation of term i is in the group of its key ... *)
  let rec lemma in_group (lbl: str) (m: ex) (i n: int) requires {{ 0 <= i < n <= csize m }}
    ensures {{ exists j. 0 <= j < length (grp lbl m (key (ckey m i)) n) /\ (grp lbl m (key (ckey m i)) n)[j] = eqn lbl (ckey m i) (cget m (ckey m i)) }} variant {{ n }}
  = let k = pure {{ key (ckey m i) }} in
    if i < n - 1 then begin in_group lbl m i (n - 1);
      let j = any int ensures {{ 0 <= result < length (grp lbl m k (n - 1)) /\ (grp lbl m k (n - 1))[result] = eqn lbl (ckey m i) (cget m (ckey m i)) }} in
      assert {{ (grp lbl m k n)[j] = eqn lbl (ckey m i) (cget m (ckey m i)) }} end
    else assert {{ (grp lbl m k n)[length (grp lbl m k (n - 1))] = eqn lbl (ckey m i) (cget m (ckey m i)) }}
  (* ... and nothing is duplicated: as many equations as terms *)
  function nkey (m: ex) (k: str) (n: int) : int
  axiom nkey_0 : forall m k. nkey m k 0 = 0
  axiom nkey_s : forall m k n [nkey m k n]. 0 < n -> nkey m k n = nkey m k (n - 1) + (if key (ckey m (n - 1)) = k then 1 else 0)
  let rec lemma no_more (lbl: str) (m: ex) (k: str) (n: int) requires {{ 0 <= n <= csize m }} ensures {{ length (grp lbl m k n) = nkey m k n }} variant {{ n }}
  = if n > 0 then no_more lbl m k (n - 1)
  (* the left-hand side carries every operator index, in known spaces *)
  let rec lemma lows_known (o: seq {S}) (n: int) requires {{ ops_known o }} requires {{ 0 <= n <= length o }} ensures {{ in_spaces (lows o n) }} variant {{ n }}
  = if n > 0 then lows_known o (n - 1)
  let rec lemma upps_known (o: seq {S}) (n: int) requires {{ ops_known o }} requires {{ 0 <= n <= length o }} ensures {{ in_spaces (upps o n) }} variant {{ n }}
  = if n > 0 then begin upps_known o (n - 1); assert {{ forall i. 0 < i < length (cons (o[n - 1]).snd (upps o (n - 1))) -> (cons (o[n - 1]).snd (upps o (n - 1)))[i] = (upps o (n - 1))[i - 1] }};
      assert {{ in_spaces (cons (o[n - 1]).snd (upps o (n - 1))) }} end
  let rec lemma cnt_nonneg (v: seq {I}) (s n: int) requires {{ 0 <= n }} ensures {{ cnt v s n >= 0 }} variant {{ n }} = if n > 0 then cnt_nonneg v s (n - 1)
  (* the symmetry factor of a tensor: the permutations of its equivalent indices *)
  function fact (n: int) : int
  function sym (v: seq {I}) (n: int) : int
  axiom sym_0 : forall v. sym v 0 = 1
  axiom sym_s : forall v n [sym v n]. 0 < n -> sym v n = sym v (n - 1) * fact (cnt v (n - 1) (length v))
""")
P.fn("Tensor::Tensor(string&, vec<Index>&, vec<Index>&, SymmetryType)", "l lo up s", ens=[("fields stored", "result.is_complex_conjugate_ = False /\\ result.label_Tensor = l /\\ result.lower_ = lo /\\ result.upper_ = up /\\ result.symmetry_ = s")])
P.fn("Equation::Equation(SymbolicTerm&, SymbolicTerm&, rational)", "l r f", ens=[("fields stored", "result.lhs_ = l /\\ result.rhs_ = r /\\ result.factor_ = f")])
P.fn("Equation::lhs()", "this", ens=[("left-hand side", "result = this.lhs_")])
P.fn("Equation::rhs()", "this", ens=[("right-hand side", "result = this.rhs_")])
P.fn("Equation::rhs_factor()", "this", ens=[("factor", "result = this.factor_")])
P.fn("SymbolicTerm::SymbolicTerm()", "", ens=[("empty term", "result.normal_ordered_SymbolicTerm = False /\\ result.operators_SymbolicTerm = empty /\\ result.tensors_SymbolicTerm = empty")])
P.fn("SymbolicTerm::add(Tensor&)", "this t", ens=[("tensor appended", "this.tensors_SymbolicTerm = snoc (old this).tensors_SymbolicTerm t /\\ this.operators_SymbolicTerm = (old this).operators_SymbolicTerm /\\ this.normal_ordered_SymbolicTerm = (old this).normal_ordered_SymbolicTerm")])
P.fn("Tensor::signature()", "this", req=["in_spaces this.upper_ /\\ in_spaces this.lower_"],
     ens=[("number of upper and lower indices per space", "sig_of result this.upper_ this.lower_")],
     loops={1: [("upper counted", "length result_ = nsp /\\ forall s. 0 <= s < nsp -> (result_[s]).fst = cnt this.upper_ s it1 /\\ (result_[s]).snd = 0")],
            2: [("lower counted", "length result_ = nsp /\\ forall s. 0 <= s < nsp -> (result_[s]).fst = cnt this.upper_ s (length this.upper_) /\\ (result_[s]).snd = cnt this.lower_ s it2")]})
P.fn("OrbitalSpaceInfo::label(int)", "this p", req=["0 <= p < length this.space_info_"], ens=[("label", "result = (this.space_info_[p]).label_OrbitalSpace")])
P.fn("Expression::to_manybody_equation(string&)", "this lbl", req=["forall i. 0 <= i < csize this -> ops_known (ckey this i).operators_SymbolicTerm"],
     ens=[("every term in the group of its open indices, as its equation, once", "grouped lbl this (csize this) result")],
     loops={1: [("terms so far", "grouped lbl this it1 result_")],
            2: [("operators so far", "lower = lows term.operators_SymbolicTerm it2 /\\ upper = upps term.operators_SymbolicTerm it2")],
            3: [("text so far", "signature_str_upper = ups_txt signature it3 /\\ signature_str_lower = los_txt signature it3 /\\ pos = it3")],
            4: [("tensors so far", "rhs.operators_SymbolicTerm = empty /\\ rhs.normal_ordered_SymbolicTerm = False /\\ rhs.tensors_SymbolicTerm = term.tensors_SymbolicTerm[0..it4]")]},
     ghost={"after2": "assert { lower = t_lows term }; assert { upper = t_upps term }; lows_known term.operators_SymbolicTerm (length term.operators_SymbolicTerm); upps_known term.operators_SymbolicTerm (length term.operators_SymbolicTerm);",
            "begin2": "assert { term.operators_SymbolicTerm[it2] = op };",
            "before3": "sig_unique signature upper lower;",
            "begin3": "cnt_nonneg upper it3 (length upper); cnt_nonneg lower it3 (length lower);",
            "begin1": "let ghost r0_ = result_ in",
            "after3": "assert { txt signature = key term };",
            "after4": "assert { rhs.tensors_SymbolicTerm == term.tensors_SymbolicTerm };",
            "end1": "let ghost e_ = pure { eqn lbl key1 (cget this key1) } in assert { forall k. cmem result_ k <-> (k = key key1 \\/ cmem r0_ k) };"
                    "assert { forall k. cmem result_ k -> cget result_ k = (if k = key key1 then snoc (if cmem r0_ k then cget r0_ k else empty) e_ else cget r0_ k) };"
                    "assert { let e = eqn lbl key1 (cget this key1) in forall k. grp lbl this k (it1 + 1) = (if key key1 = k then snoc (grp lbl this k it1) e else grp lbl this k it1) };"})
P.fn("factorial(int)", "n", req=["0 <= n <= 20"], ens=[("factorial (C15)", "result = fact n")], trusted=True)
few = "forall s. 0 <= s < nsp -> cnt {0} s (length {0}) <= 20"
P.fn("num_indices_per_space(vec<Index>&)", "v", req=["in_spaces v"], ens=[("count of every space", "length result = nsp /\\ forall s. 0 <= s < nsp -> result[s] = cnt v s (length v)")],
     loops={1: [("counted", "length counter = nsp /\\ forall s. 0 <= s < nsp -> counter[s] = cnt v s it1")]})
P.fn("symmetry_factor(vec<Index>&)", "v", req=["in_spaces v", few.format("v")], ens=[("product of the factorials of the counts", "result = sym v nsp")],
     loops={1: [("range", "0 <= s <= nsp"), ("so far", "result_ = sym v s")]}, ghost={"begin1": "cnt_nonneg v s (length v);"})
P.fn("Tensor::symmetry_factor()", "this", req=["in_spaces this.upper_ /\\ in_spaces this.lower_", few.format("this.upper_"), few.format("this.lower_")],
     ens=[("product of the factorials of both", "result = sym this.upper_ nsp * sym this.lower_ nsp")])
