from contracts import Profile

GM = "(arr8 (pair int int))"
EC = f"(seq {GM})"
PRE = rf"""
  val constant osi : t_OrbitalSpaceInfo
  function nsp : int = length osi.space_info_
"""
DEFS = rf"""
  (* legs of a graph matrix, of an elementary contraction *)
  function legs (g: {GM}) (n: int) : int
  axiom legs_0 : forall g. legs g 0 = 0
  axiom legs_s : forall g n [legs g n]. 0 < n -> legs g n = legs g (n - 1) + (aget g (n - 1)).fst + (aget g (n - 1)).snd
  function legsv (f: {EC}) (n: int) : int
  axiom legsv_0 : forall f. legsv f 0 = 0
  axiom legsv_s : forall f n [legsv f n]. 0 < n -> legsv f n = legsv f (n - 1) + legs f[n - 1] 8
  predicate counts (e: {EC}) = forall i s. 0 <= i < length e -> 0 <= s < 8 -> (aget e[i] s).fst >= 0 /\ (aget e[i] s).snd >= 0
  (* the pair contraction e joins a creator of one of the operators i, j to an annihilator of the other in space s *)
  predicate joins (e: {EC}) (i j s: int) = ((aget e[i] s).fst > 0 /\ (aget e[j] s).snd > 0) \/ ((aget e[i] s).snd > 0 /\ (aget e[j] s).fst > 0)
  (* no pair contraction joins operators i and j (they may be exchanged); larger contractions are antisymmetric cumulants *)
  predicate unjoined (c: seq {EC}) (i j k: int) = forall m s. 0 <= m < k -> legsv c[m] (length c[m]) = 2 -> 0 <= s < nsp -> not joins c[m] i j s
  predicate wellformed (n: int) (c: seq {EC}) = nsp <= 8 /\ forall m. 0 <= m < length c -> length c[m] = n /\ counts c[m]
"""
T = ["GraphMatrix", "Operator", "ElementaryContraction", "OrbitalSpaceInfo", "WickTheorem"]
MODE = {"erase": ("label_to_pos_", "indices_to_pos_", "timers_", "timers_mutex_")}
comm = P = Profile("C11", ["Base", "Str", "Arr8", "CMap", "IMul"], libs=["IMulProof"], types=T, mode=MODE, pre=PRE, defs=DEFS)
P.fn("GraphMatrix::num_ops()", "this", pure="legs this 8", loops={1: [("so far", "r = legs this it1")]})
P.fn("ElementaryContraction::num_ops()", "this", ens=[("number of legs", "result = legsv this (length this)")], ghost={"fold1": "acc_ = legsv this n_"})
P.fn("do_contractions_commute(int, int, OperatorProduct&, CompositeContraction&)", "i j ops contractions", req=["wellformed (length ops) contractions", "0 <= i < length ops", "0 <= j < length ops"],
     ens=[("no pair contraction joins the two", "result <-> unjoined contractions i j (length contractions)")],
     loops={1: [("so far", "do_commute <-> unjoined contractions i j it1")],
            2: [("range", "0 <= s <= nsp"), ("so far", "do_commute <-> unjoined contractions i j it1 /\\ (legsv el_contr (length el_contr) = 2 -> forall t. 0 <= t < s -> not joins el_contr i j t)")]},
     ghost={"begin1": "assert { el_contr = contractions[it1] };"})

graph = G = Profile("C11G", ["Base", "SeqLem", "Str", "Reals", "RMul", "Perm", "CMap", "IMul"], libs=["SeqLemProof", "PermProof", "IMulProof", "RMulProof"],
    mode={"abstract": {"Operator": "op", "GraphMatrix": "gm"}, "theory_types": ("op", "gm"), "erase": MODE["erase"]}, pre=r"""
  (* operators and graph matrices; their orders are those of C14, the legs those of profile C11 *)
  type op
  type gm
  val predicate olt (a b: op)
  val predicate glt (a b: gm)
  axiom olt_irrefl : forall a. not olt a a
  axiom olt_trans : forall a b c. olt a b -> olt b c -> olt a c
  axiom olt_total : forall a b. olt a b \/ a = b \/ olt b a
  axiom glt_irrefl : forall a. not glt a a
  axiom glt_trans : forall a b c. glt a b -> glt b c -> glt a c
  axiom glt_total : forall a b. glt a b \/ a = b \/ glt b a
  val function nops (a: op) : int
  axiom nops_nonneg : forall a. nops a >= 0
  (* no pair contraction of c joins operators i and j (profile C11) *)
  val predicate unjoined (c: seq (seq gm)) (i j: int)
""", defs=r"""
  function sgn (k: int) : real = if mod k 2 = 0 then 1.0 else -. 1.0
  let lemma sgn_add (k n: int) requires { 0 <= k } requires { 0 <= n } ensures { rmul (sgn k) (from_int (1 - imul 2 (mod n 2))) = sgn (k + n) }
  = assert { mod (k + n) 2 = (if mod k 2 = mod n 2 then 0 else 1) }; assert { rmul 1.0 1.0 = 1.0 /\ rmul 1.0 (-. 1.0) = -. 1.0 /\ rmul (-. 1.0) 1.0 = -. 1.0 /\ rmul (-. 1.0) (-. 1.0) = 1.0 };
    assert { mod n 2 = 0 \/ mod n 2 = 1 }; assert { imul 2 1 = 2 }; assert { imul 2 0 = 0 };
    assert { from_int (1 - imul 2 (mod n 2)) = (if mod n 2 = 0 then 1.0 else -. 1.0) }
  type mat = seq (seq bool)
  predicate square (m: mat) (n: int) = length m = n /\ forall i. 0 <= i < n -> length m[i] = n
  predicate commutation (c: seq (seq gm)) (n: int) (m: mat) = square m n /\ forall i j. 0 <= i < n -> 0 <= j < n -> (m[i][j] <-> unjoined c i j)
  (* an arrangement of 0..n-1 *)
  predicate rearr (n: int) (p: seq int) = length p = n /\ (forall i. 0 <= i < n -> 0 <= p[i] < n) /\ (forall i j. 0 <= i < n -> 0 <= j < n -> i <> j -> p[i] <> p[j])
  predicate inrange (n: int) (p: seq int) = forall i. 0 <= i < length p -> 0 <= p[i] < n
  (* p is obtained from p0 by exchanging neighbouring operators that may be exchanged; k counts the exchanges of legs *)
  inductive reach (ops: seq op) (m: mat) (p0 p: seq int) (k: int) =
    | reach_refl : forall ops m p. reach ops m p p 0
    | reach_step : forall ops m p0 p k j. reach ops m p0 p k -> 0 <= j < length p - 1 -> m[p[j + 1]][p[j]] ->
        reach ops m p0 (exc p j (j + 1)) (k + imul (nops ops[p[j + 1]]) (nops ops[p[j]]))
  let lemma reach_one (ops: seq op) (m: mat) (p0 p: seq int) (k j: int) requires { reach ops m p0 p k } requires { 0 <= j < length p - 1 } requires { m[p[j + 1]][p[j]] }
    ensures { reach ops m p0 (exc p j (j + 1)) (k + imul (nops ops[p[j + 1]]) (nops ops[p[j]])) } = ()
  predicate sorted (p: seq int) = forall i j. 0 <= i < j < length p -> p[i] <= p[j]
  (* the arrangement p may be brought into increasing order by exchanges, at the sign f *)
  predicate allowed (ops: seq op) (m: mat) (p: seq int) (f: real) = exists q k. reach ops m p q k /\ 0 <= k /\ sorted q /\ kept p q /\ f = sgn k
  (* bubble sort: the last positions are in place; position j holds the largest of the first ones *)
  predicate settled (p: seq int) (from: int) = forall i j. 0 <= i < j < length p -> from <= j -> p[i] <= p[j]
  predicate carried (p: seq int) (j: int) = forall i. 0 <= i < j -> p[i] <= p[j]
  let lemma settled_exc (p: seq int) (j from: int) requires { settled p from } requires { 0 <= j < length p - 1 } requires { j + 1 < from }
    ensures { settled (exc p j (j + 1)) from }
  = let q = pure { exc p j (j + 1) } in assert { length q = length p }; assert { forall i. 0 <= i < length p -> q[i] = p[exi j (j + 1) i] }
  let lemma carried_exc (p: seq int) (j: int) requires { carried p j } requires { 0 <= j < length p - 1 } requires { p[j + 1] < p[j] } ensures { carried (exc p j (j + 1)) (j + 1) }
  = let q = pure { exc p j (j + 1) } in assert { forall i. 0 <= i < length p -> q[i] = p[exi j (j + 1) i] }
  (* the order in which the arrangements of a graph are compared: operators first, then the contractions (descending) *)
  predicate opseq (ops: seq op) (l r: seq int) (n: int) = forall i. 0 <= i < n -> ops[l[i]] = ops[r[i]]
  predicate opslt (ops: seq op) (l r: seq int) = exists i. 0 <= i < length l /\ opseq ops l r i /\ olt ops[l[i]] ops[r[i]]
  predicate roweq (a b: seq gm) (l r: seq int) (n: int) = forall i. 0 <= i < n -> a[l[i]] = b[r[i]]
  predicate rowlt (a b: seq gm) (l r: seq int) = exists i. 0 <= i < length l /\ roweq a b l r i /\ glt b[r[i]] a[l[i]]
  predicate conseq (c: seq (seq gm)) (l r lo ro: seq int) (n: int) = forall j. 0 <= j < n -> roweq c[l[j]] c[r[j]] lo ro (length lo)
  predicate conslt (c: seq (seq gm)) (l r lo ro: seq int) = exists j. 0 <= j < length l /\ conseq c l r lo ro j /\ rowlt c[l[j]] c[r[j]] lo ro
  predicate gless (a b: pair int int) (po pc: seq (seq int)) (ops: seq op) (c: seq (seq gm)) =
    opslt ops po[a.fst] po[b.fst] \/ (opseq ops po[a.fst] po[b.fst] (length po[a.fst]) /\ conslt c pc[a.snd] pc[b.snd] po[a.fst] po[b.fst])
  let lemma not_opslt (ops: seq op) (l r: seq int) requires { opseq ops l r (length l) } ensures { not opslt ops l r } = ()
  let lemma not_rowlt (a b: seq gm) (l r: seq int) (i: int) requires { 0 <= i < length l } requires { roweq a b l r i } requires { glt a[l[i]] b[r[i]] } ensures { not rowlt a b l r }
  = assert { forall k. 0 <= k < length l -> roweq a b l r k -> glt b[r[k]] a[l[k]] -> k < i /\ false }
  let lemma not_rowlt_eq (a b: seq gm) (l r: seq int) requires { roweq a b l r (length l) } ensures { not rowlt a b l r } = ()
  let lemma not_conslt (c: seq (seq gm)) (l r lo ro: seq int) (j i: int) requires { 0 <= j < length l } requires { conseq c l r lo ro j } requires { 0 <= i < length lo }
    requires { roweq c[l[j]] c[r[j]] lo ro i } requires { glt c[l[j]][lo[i]] c[r[j]][ro[i]] } ensures { not conslt c l r lo ro }
  = not_rowlt c[l[j]] c[r[j]] lo ro i; assert { not roweq c[l[j]] c[r[j]] lo ro (length lo) };
    assert { forall k. 0 <= k < length l -> conseq c l r lo ro k -> rowlt c[l[k]] c[r[k]] lo ro -> if k < j then roweq c[l[k]] c[r[k]] lo ro (length lo) && false else if k = j then false else roweq c[l[j]] c[r[j]] lo ro (length lo) && false }
  (* the tables of arrangements *)
  predicate table (t: seq (seq int)) (n: int) = forall i. 0 <= i < length t -> rearr n t[i]
  predicate shape (c: seq (seq gm)) (n: int) = forall i. 0 <= i < length c -> length c[i] = n
  predicate listed (g: pair int int) (po pc: seq (seq int)) = 0 <= g.fst < length po /\ 0 <= g.snd < length pc
  let lemma perm_iota (n: int) (p: seq int) requires { 0 <= n } requires { permutation (viota n 0) p } ensures { rearr n p }
  = let w = any seq int ensures { length result = n /\ (forall i. 0 <= i < n -> 0 <= result[i] < n) /\ (forall i j. 0 <= i < j < n -> result[i] <> result[j]) /\ (forall i. 0 <= i < n -> p[i] = (viota n 0)[result[i]]) } in
    assert { forall i. 0 <= i < n -> p[i] = w[i] }; assert { forall i j. 0 <= i < n -> 0 <= j < n -> i <> j -> if i < j then w[i] <> w[j] else w[j] <> w[i] }
  let lemma rearr_iota (n: int) requires { 0 <= n } ensures { rearr n (viota n 0) } = ()
  let lemma perm_rearr (n: int) (p q: seq int) requires { rearr n p } requires { permutation p q } ensures { rearr n q }
  = let w = any seq int ensures { length result = n /\ (forall i. 0 <= i < n -> 0 <= result[i] < n) /\ (forall i j. 0 <= i < j < n -> result[i] <> result[j]) /\ (forall i. 0 <= i < n -> q[i] = p[result[i]]) } in
    assert { forall i j. 0 <= i < n -> 0 <= j < n -> i <> j -> if i < j then w[i] <> w[j] else w[j] <> w[i] };
    assert { forall i j. 0 <= i < n -> 0 <= j < n -> i <> j -> p[w[i]] <> p[w[j]] }
  (* the graph r is the graph (ops, c) with its operators arranged as p, its contractions as q, at the sign of p *)
  predicate opsof (ops: seq op) (p: seq int) (n: int) (r: seq op) = length r = n /\ forall i. 0 <= i < n -> r[i] = ops[p[i]]
  predicate legsof (c: seq (seq gm)) (p: seq int) (k n: int) (r: seq gm) = length r = n /\ (forall i. 0 <= i < n -> r[i] = c[k][p[i]])
  predicate controf (c: seq (seq gm)) (p q: seq int) (n: int) (r: seq (seq gm)) = length r = n /\ forall j. 0 <= j < n -> legsof c p q[j] (length p) r[j]
  let lemma opsof_next (ops: seq op) (p: seq int) (n: int) (r: seq op) requires { 0 <= n < length p } requires { opsof ops p n r } ensures { opsof ops p (n + 1) (snoc r ops[p[n]]) } = ()
  let lemma legsof_next (c: seq (seq gm)) (p: seq int) (k n: int) (r: seq gm) requires { 0 <= n < length p } requires { legsof c p k n r } ensures { legsof c p k (n + 1) (snoc r c[k][p[n]]) } = ()
  let lemma controf_next (c: seq (seq gm)) (p q: seq int) (n: int) (r: seq (seq gm)) (w: seq gm) requires { 0 <= n < length q } requires { controf c p q n r } requires { legsof c p q[n] (length p) w }
    ensures { controf c p q (n + 1) (snoc r w) } = ()
  predicate arranged (ops: seq op) (c: seq (seq gm)) (p q: seq int) (r: tup3 (seq op) (seq (seq gm)) real) = opsof ops p (length ops) r.t3_0 /\ controf c p q (length c) r.t3_1
  predicate same_graph (ops: seq op) (c: seq (seq gm)) (r: tup3 (seq op) (seq (seq gm)) real) =
    exists m p q. commutation c (length ops) m /\ rearr (length ops) p /\ rearr (length c) q /\ allowed ops m p r.t3_2 /\ arranged ops c p q r
  predicate listed_all (g: seq (pair int int)) (po pc: seq (seq int)) = forall i. 0 <= i < length g -> listed g[i] po pc
  let lemma settled_next (p: seq int) (from: int) requires { settled p from } requires { 1 <= from } requires { carried p (from - 1) } ensures { settled p (from - 1) } = ()
  let lemma range_exc (n: int) (p: seq int) (j: int) requires { inrange n p } requires { 0 <= j < length p - 1 } ensures { inrange n (exc p j (j + 1)) }
  = let q = pure { exc p j (j + 1) } in assert { length q = length p }; assert { forall i. 0 <= i < length p -> q[i] = p[exi j (j + 1) i] }
""")
G.fn("Operator::num_ops()", "this", ens=[("number of legs", "result = nops this")], trusted=True)
G.fn("Operator::operator<(Operator&)", "this other", pure="olt this other", trusted=True)
G.fn("GraphMatrix::operator<(GraphMatrix&)", "this other", pure="glt this other", trusted=True)
INV = [("size", "n = length p_v /\\ inrange (length ops) p_v /\\ length p_v = length p"), ("exchanges so far", "reach ops permutable p p_v k_ /\\ sign = sgn k_ /\\ k_ >= 0"),
       ("same numbers", "kept p p_v"), ("last i are in place", "settled p_v (n - i)"), ("nothing to do when increasing", "sorted p -> p_v = p")]
G.fn("is_ops_permutation_valid(OperatorProduct&, vec<int>, vec<vec<bool>>&)", "ops p permutable", req=["inrange (length ops) p", "square permutable (length ops)"],
     ens=[("reached by allowed exchanges, with their sign", "result.fst -> allowed ops permutable p result.snd"), ("the given order is allowed", "sorted p -> result.fst")],
     loops={1: [("range", "0 <= i /\\ (i <= n - 1 \\/ n <= 1)")] + INV, 2: [("range", "0 <= j <= n - i - 1")] + INV + [("carried", "carried p_v j")]},
     ghost={"entry": "let ghost ref k_ = 0 in",
            "begin2": "let ghost q_ = p_v in let ghost s_ = sign in let ghost l_ = (pure { imul (nops ops[p_v[j + 1]]) (nops ops[p_v[j]]) }) in",
            "end2": "if any bool ensures { result <-> p_v = q_ } then () else begin "
                    "assert { length p_v = length q_ }; assert { forall x. 0 <= x < length q_ -> p_v[x] = q_[exi j (j + 1) x] }; assert { p_v == exc q_ j (j + 1) };"
                    "reach_one ops permutable p q_ k_ j; sgn_add k_ l_; settled_exc q_ j (n - i); carried_exc q_ j; range_exc (length ops) q_ j; k_ <- k_ + l_ end;",
            "after2": "settled_next p_v (n - i);"})
G.fn("graph_less(pair<int, int>&, pair<int, int>&, vec<vec<int>>&, vec<vec<int>>&, OperatorProduct&, CompositeContraction&)", "l r po pc ops c",
     req=["listed l po pc", "listed r po pc", "table po (length ops)", "table pc (length c)", "shape c (length ops)"], pure="gless l r po pc ops c",
     loops={1: [("range", "0 <= i <= no"), ("same operators so far", "opseq ops l_ops_perm r_ops_perm i")],
            2: [("range", "0 <= j <= nc"), ("same contractions so far", "conseq c l_con_perm r_con_perm l_ops_perm r_ops_perm j")],
            3: [("range", "0 <= i <= no"), ("same legs so far", "roweq l_con r_con l_ops_perm r_ops_perm i"), ("lengths", "length l_con = length ops /\\ length r_con = length ops")]},
     ghost={"entry": "assert { rearr (length ops) po[l.fst] /\\ rearr (length ops) po[r.fst] /\\ rearr (length c) pc[l.snd] /\\ rearr (length c) pc[r.snd] };",
            "begin2": "assert { 0 <= l_con_perm[j] < length c /\\ 0 <= r_con_perm[j] < length c }; assert { length c[l_con_perm[j]] = length ops /\\ length c[r_con_perm[j]] = length ops };",
            "begin3": "assert { 0 <= l_ops_perm[i] < length ops /\\ 0 <= r_ops_perm[i] < length ops };"
                      "if any bool ensures { result <-> glt l_con[l_ops_perm[i]] r_con[r_ops_perm[i]] } then begin not_opslt ops l_ops_perm r_ops_perm; not_conslt c l_con_perm r_con_perm l_ops_perm r_ops_perm j i end;"})
G.fn("do_contractions_commute(int, int, OperatorProduct&, CompositeContraction&)", "i j ops c", ens=[("no pair contraction joins the two (profile C11)", "result <-> unjoined c i j")], trusted=True)
OPS = [("arrangements", "table ops_perms nops /\\ length ops_perms_sign = length ops_perms"), ("allowed at their sign", "forall x. 0 <= x < length ops_perms -> allowed ops commutable ops_perms[x] ops_perms_sign[x]")]
G.fn("WickTheorem::canonicalize_contraction_graph(OperatorProduct&, CompositeContraction&)", "this ops cs", req=["shape cs (length ops)"],
     ens=[("the same graph up to exchanges of operators no contraction joins", "same_graph ops cs result"), ("solver untouched", "this = old this")],
     loops={1: [("range", "0 <= i <= nops"), ("square", "square commutable nops"), ("so far", "forall x y. 0 <= x < i -> 0 <= y < nops -> (commutable[x][y] <-> unjoined cs x y)"), ("rest", "forall x y. i <= x < nops -> 0 <= y < nops -> not commutable[x][y]")],
            2: [("range", "0 <= j <= nops"), ("square", "square commutable nops"), ("so far", "forall x y. 0 <= x < i -> 0 <= y < nops -> (commutable[x][y] <-> unjoined cs x y)"), ("row", "forall y. 0 <= y < j -> (commutable[i][y] <-> unjoined cs i y)"),
                ("rest", "forall x y. i <= x < nops -> 0 <= y < nops -> x > i \\/ y >= j -> not commutable[x][y]")],
            3: OPS + [("current", "rearr nops ops_perm"), ("the given order is found", "(it3 = 0 /\\ ops_perm = viota nops 0) \\/ length ops_perms > 0")],
            4: [("arrangements", "table con_perms (length cs)"), ("current", "rearr (length cs) con_perm"), ("one at least", "it4 = 0 \\/ length con_perms > 0")],
            5: [("pairs", "listed_all graphs ops_perms con_perms"), ("one at least", "it5 = 0 \\/ length graphs > 0")],
            6: [("pairs", "listed_all graphs ops_perms con_perms"), ("one at least", "it5 + it6 = 0 \\/ length graphs > 0")],
            7: [("operators so far", "opsof ops ops_perms[canonical_ops_perm_idx] it7 canonical_ops")],
            8: [("contractions so far", "controf cs ops_perms[canonical_ops_perm_idx] con_perms[canonical_contr_perm_idx] it8 canonical_contr")],
            9: [("legs so far", "legsof cs ops_perms[canonical_ops_perm_idx] c it9 permuted_contr")]},
     ghost={"after1": "assert { commutation cs nops commutable };",
            "before7": "assert { listed graphs[0] ops_perms con_perms }; assert { rearr nops ops_perms[canonical_ops_perm_idx] }; assert { rearr (length cs) con_perms[canonical_contr_perm_idx] }; assert { allowed ops commutable ops_perms[canonical_ops_perm_idx] canonical_sign };",
            "begin7": "assert { 0 <= ops_perms[canonical_ops_perm_idx][it7] < nops }; opsof_next ops ops_perms[canonical_ops_perm_idx] it7 canonical_ops;",
            "begin8": "assert { 0 <= con_perms[canonical_contr_perm_idx][it8] < length cs };",
            "begin9": "assert { 0 <= ops_perms[canonical_ops_perm_idx][it9] < nops }; assert { 0 <= c < length cs }; assert { length cs[c] = nops }; legsof_next cs ops_perms[canonical_ops_perm_idx] c it9 permuted_contr;",
            "after9": "assert { legsof cs ops_perms[canonical_ops_perm_idx] c (length ops_perms[canonical_ops_perm_idx]) permuted_contr }; controf_next cs ops_perms[canonical_ops_perm_idx] con_perms[canonical_contr_perm_idx] it8 canonical_contr permuted_contr;",
            "exit": "assert { commutation cs nops commutable };"
                    "assert { arranged ops cs ops_perms[canonical_ops_perm_idx] con_perms[canonical_contr_perm_idx] { t3_0 = canonical_ops; t3_1 = canonical_contr; t3_2 = canonical_sign } };"
            })
