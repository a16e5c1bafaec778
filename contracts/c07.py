from contracts import Profile

GM = "(arr8 (pair int int))"
comm = P = Profile("C07", ["Base", "Str", "Arr8", "CMap", "IMul"], libs=["IMulProof"], types=["GraphMatrix", "Operator", "OrbitalSpaceInfo"], mode={"erase": ("label_to_pos_", "indices_to_pos_")}, pre=rf"""
  val constant osi : t_OrbitalSpaceInfo
  function nsp : int = length osi.space_info_
  predicate counts (g: {GM}) = nsp <= 8 /\ forall s. 0 <= s < 8 -> (aget g s).fst >= 0 /\ (aget g s).snd >= 0
  (* a contraction between the two is possible in space s: a creator of one and an annihilator of the other *)
  predicate contractible (a b: {GM}) (s: int) = ((aget a s).snd > 0 /\ (aget b s).fst > 0) \/ ((aget a s).fst > 0 /\ (aget b s).snd > 0)
  predicate commute (a b: t_Operator) = forall s. 0 <= s < nsp -> not contractible a.graph_matrix_ b.graph_matrix_ s
  (* the order of C14 on operators *)
  val predicate olt (a b: t_Operator)
  function legs (g: {GM}) (n: int) : int
  axiom legs_0 : forall g. legs g 0 = 0
  axiom legs_s : forall g n [legs g n]. 0 < n -> legs g n = legs g (n - 1) + (aget g (n - 1)).fst + (aget g (n - 1)).snd
  lemma commute_sym : forall a b. commute a b <-> commute b a
""")
P.fn("Operator::operator<(Operator&)", "this other", ens=[("order", "result <-> olt this other")], trusted=True)
P.fn("do_operators_commute(Operator&, Operator&)", "a b", req=["counts a.graph_matrix_ /\\ counts b.graph_matrix_"],
     ens=[("commute iff no contraction is possible", "result <-> commute a b")],
     loops={1: [("range", "0 <= s <= nsp /\\ noncommuting >= 0"), ("zero iff none so far", "noncommuting = 0 <-> forall i. 0 <= i < s -> not contractible a.graph_matrix_ b.graph_matrix_ i")]})
P.fn("operator_noncommuting_less(Operator&, Operator&)", "a b", req=["counts a.graph_matrix_ /\\ counts b.graph_matrix_"],
     ens=[("an exchange is allowed only for commuting operators out of order", "result <-> commute a b /\\ olt a b")])
P.fn("GraphMatrix::num_ops()", "this", ens=[("number of legs", "result = legs this 8")],
     loops={1: [("so far", "r = legs this it1")]})
P.fn("Operator::num_ops()", "this", ens=[("number of legs", "result = legs this.graph_matrix_ 8")])

prod = Q = Profile("C07P", ["Base", "SeqLem", "Reals", "Perm", "IMul"], libs=["SeqLemProof", "PermProof", "IMulProof"], mode={"abstract": {"Operator": "op"}, "theory_types": ("op",)}, pre=r"""
  (* diagram operators; commute, olt (C14) and the number of legs are those of profile C07 *)
  type op
  val predicate commute (a b: op)
  val predicate olt (a b: op)
  axiom olt_asym : forall a b. olt a b -> not olt b a
  axiom commute_sym : forall a b. commute a b <-> commute b a
  val function nops (a: op) : int
  axiom nops_nonneg : forall a. nops a >= 0
  (* x directly before y: they may be exchanged *)
  predicate exch (x y: op) = commute y x /\ olt y x
  function swp (s: seq op) (j: int) : seq op = exc s j (j + 1)
""", defs=r"""
  (* s is obtained from s0 by exchanging neighbours that commute; k counts one sign for every pair of legs exchanged *)
  inductive reach (s0 s: seq op) (k: int) =
    | reach_refl : forall s. reach s s 0
    | reach_step : forall s0 s k j. reach s0 s k -> 0 <= j < length s - 1 -> commute s[j + 1] s[j] ->
        reach s0 (swp s j) (k + imul (nops s[j]) (nops s[j + 1]))
  (* from p to q there is a chain of pairs that may not be exchanged *)
  predicate chainn (s: seq op) (p q n: int)
  axiom chainn_def : forall s p q n [chainn s p q n]. chainn s p q n <->
    0 < n /\ ((p < q /\ not exch s[p] s[q]) \/ exists r. chainn s p r (n - 1) /\ r < q /\ not exch s[r] s[q])
  predicate chain (s: seq op) (p q: int) = exists n. chainn s p q n
  let rec lemma chainn_lt (s: seq op) (p q n: int) requires { chainn s p q n } ensures { p < q } variant { n }
  = if any bool ensures { result <-> (p < q /\ not exch s[p] s[q]) } then () else
    let r = any int ensures { chainn s p result (n - 1) /\ result < q /\ not exch s[result] s[q] } in chainn_lt s p r (n - 1)
  let lemma chain_one (s: seq op) (p q: int) requires { p < q } requires { not exch s[p] s[q] } ensures { chain s p q } = assert { chainn s p q 1 }
  let lemma chain_more (s: seq op) (p r q: int) requires { chain s p r } requires { r < q } requires { not exch s[r] s[q] } ensures { chain s p q }
  = let n = any int ensures { chainn s p r result } in assert { 0 < n }; assert { chainn s p q (n + 1) }
  let lemma chain_next (s: seq op) (p: int) requires { chain s p (p + 1) } ensures { not exch s[p] s[p + 1] }
  = let n = any int ensures { chainn s p (p + 1) result } in
    if any bool ensures { result <-> not exch s[p] s[p + 1] } then () else
    let r = any int ensures { chainn s p result (n - 1) /\ result < p + 1 } in chainn_lt s p r (n - 1)
  function pos (j p: int) : int = if p = j then j + 1 else if p = j + 1 then j else p
  let lemma swp_def (s: seq op) (j: int) requires { 0 <= j < length s - 1 } ensures { length (swp s j) = length s }
    ensures { forall i [(swp s j)[i]]. 0 <= i < length s -> (swp s j)[i] = (if i = j then s[j + 1] else if i = j + 1 then s[j] else s[i]) } = ()
  let lemma reach_one (s0 s: seq op) (k j: int) requires { reach s0 s k } requires { 0 <= j < length s - 1 } requires { commute s[j + 1] s[j] }
    ensures { reach s0 (swp s j) (k + imul (nops s[j]) (nops s[j + 1])) } = ()
  let lemma swp_at (s: seq op) (j p: int) requires { 0 <= j < length s - 1 } requires { 0 <= p < length s } ensures { (swp s j)[pos j p] = s[p] } = swp_def s j
  let rec lemma chainn_swp (s: seq op) (p q j n: int) requires { chainn s p q n } requires { 0 <= j < length s - 1 } requires { exch s[j] s[j + 1] }
    requires { 0 <= p } requires { q < length s } ensures { chainn (swp s j) (pos j p) (pos j q) n } variant { n }
  = chainn_lt s p q n; swp_at s j p; swp_at s j q;
    if any bool ensures { result <-> not exch s[p] s[q] } then assert { pos j p < pos j q } else begin
      let r = any int ensures { chainn s p result (n - 1) /\ result < q /\ not exch s[result] s[q] } in
      chainn_lt s p r (n - 1); chainn_swp s p r j (n - 1); swp_at s j r; assert { pos j r < pos j q } end
  let lemma chain_swp (s: seq op) (p q j: int) requires { chain s p q } requires { 0 <= j < length s - 1 } requires { exch s[j] s[j + 1] }
    requires { 0 <= p } requires { q < length s } ensures { chain (swp s j) (pos j p) (pos j q) }
  = let n = any int ensures { chainn s p q result } in chainn_swp s p q j n
  (* every operator is kept *)
  predicate settled (s: seq op) (from: int) = forall p q. 0 <= p < q < length s -> from <= q -> chain s p q
  predicate carried (s: seq op) (j: int) = forall p. 0 <= p < j -> chain s p j
  let lemma settled_swp_at (s: seq op) (j from p q: int) requires { settled s from } requires { 0 <= j < length s - 1 } requires { j + 1 < from }
    requires { exch s[j] s[j + 1] } requires { 0 <= p < q < length s } requires { from <= q } ensures { chain (swp s j) p q }
  = assert { pos j (pos j p) = p }; assert { pos j q = q }; chain_swp s (pos j p) q j
  let lemma settled_swp (s: seq op) (j from: int) requires { settled s from } requires { 0 <= j < length s - 1 } requires { j + 1 < from }
    requires { exch s[j] s[j + 1] } ensures { settled (swp s j) from } = ()
  let lemma carried_swp_at (s: seq op) (j p: int) requires { carried s j } requires { 0 <= j < length s - 1 } requires { exch s[j] s[j + 1] }
    requires { 0 <= p < j + 1 } ensures { chain (swp s j) p (j + 1) }
  = swp_def s j; if p < j then begin assert { pos j p = p /\ pos j j = j + 1 }; chain_swp s p j j end else chain_one (swp s j) j (j + 1)
  let lemma carried_swp (s: seq op) (j: int) requires { carried s j } requires { 0 <= j < length s - 1 } requires { exch s[j] s[j + 1] }
    ensures { carried (swp s j) (j + 1) } = ()
  let lemma carried_next_at (s: seq op) (j p: int) requires { carried s j } requires { 0 <= j < length s - 1 } requires { not exch s[j] s[j + 1] }
    requires { 0 <= p < j + 1 } ensures { chain s p (j + 1) }
  = if p < j then chain_more s p j (j + 1) else chain_one s j (j + 1)
  let lemma carried_next (s: seq op) (j: int) requires { carried s j } requires { 0 <= j < length s - 1 } requires { not exch s[j] s[j + 1] }
    ensures { carried s (j + 1) } = ()
  let lemma settled_next (s: seq op) (from: int) requires { settled s from } requires { 0 <= from - 1 } requires { carried s (from - 1) } ensures { settled s (from - 1) }
  = assert { forall p q. 0 <= p < q < length s -> from - 1 <= q -> if q = from - 1 then chain s p q else chain s p q }
""")
Q.fn("operator_noncommuting_less(Operator&, Operator&)", "a b", ens=[("allowed exchange", "result <-> commute a b /\\ olt a b")], trusted=True)
Q.fn("Operator::num_ops()", "this", ens=[("number of legs", "result = nops this")], trusted=True)
Q.fn("OperatorProduct::canonicalize()", "this",
     ens=[("reached by allowed exchanges, with their sign", "exists k. reach (old this) this k /\\ result = (if mod k 2 = 0 then 1.0 else -. 1.0)"),
          ("every operator kept", "kept (old this) this"),
          ("no allowed exchange remains", "forall j. 0 <= j < length this - 1 -> not exch this[j] this[j + 1]")],
     loops={1: [("range", "0 <= i /\\ (i <= n - 1 \\/ n <= 1)"), ("size", "n = length this"), ("exchanges so far", "reach (old this) this nperm"), ("operators kept", "kept (old this) this"), ("last i are in place", "settled this (n - i)")],
            2: [("range", "0 <= j <= n - i - 1"), ("size", "n = length this"), ("exchanges so far", "reach (old this) this nperm"), ("operators kept", "kept (old this) this"), ("last i are in place", "settled this (n - i)"), ("carried operator", "carried this j")]},
     ghost={"entry": "let ghost s00_ = this in", "begin2": "let ghost s0_ = this in let ghost k0_ = nperm in swp_def s0_ j;",
            "end2":                     "assert { not exch s0_[j] s0_[j + 1] -> this = s0_ }; assert { exch s0_[j] s0_[j + 1] -> length this = length s0_ };"
                    "assert { exch s0_[j] s0_[j + 1] -> this[j] = s0_[j + 1] /\\ this[j + 1] = s0_[j] }; assert { exch s0_[j] s0_[j + 1] -> forall k. 0 <= k < n -> k <> j -> k <> j + 1 -> this[k] = s0_[k] };"
                    "assert { exch s0_[j] s0_[j + 1] -> length (swp s0_ j) = n /\\ forall k. 0 <= k < n -> this[k] = (swp s0_ j)[k] };"
                    "assert { exch s0_[j] s0_[j + 1] -> this == swp s0_ j };"
                    "if any bool ensures { result <-> exch s0_[j] s0_[j + 1] } then begin reach_one s00_ s0_ k0_ j; assert { nperm = k0_ + imul (nops s0_[j]) (nops s0_[j + 1]) }; settled_swp s0_ j (n - i); carried_swp s0_ j end else carried_next s0_ j;",
            "after2": "settled_next this (n - i);"})
