from contracts import Profile

GM = "(arr8 (pair int int))"
EC = f"(seq {GM})"
P = pair_ = Profile("C08", ["Base", "SeqLem", "Str", "Arr8", "CMap", "IMul"], libs=["SeqLemProof", "IMulProof"],
    types=["GraphMatrix", "Operator", "ElementaryContraction", "OrbitalSpaceInfo", "WickTheorem"],
    mode={"erase": ("label_to_pos_", "indices_to_pos_", "timers_", "timers_mutex_")}, pre=rf"""
  val constant osi : t_OrbitalSpaceInfo
""", defs=rf"""
  function nspc : int = length osi.space_info_
  predicate counts (ops: seq t_Operator) = nspc <= 8 /\ forall i s. 0 <= i < length ops -> 0 <= s < 8 ->
    (aget (ops[i]).graph_matrix_ s).fst >= 0 /\ (aget (ops[i]).graph_matrix_ s).snd >= 0
  predicate has_cre (ops: seq t_Operator) (i s: int) = (aget (ops[i]).graph_matrix_ s).fst > 0
  predicate has_ann (ops: seq t_Operator) (i s: int) = (aget (ops[i]).graph_matrix_ s).snd > 0
  (* occ: creation on the left, annihilation on the right; otherwise annihilation left, creation right *)
  predicate allowed (occ: bool) (ops: seq t_Operator) (s l r: int) = 0 <= l < r < length ops /\
    if occ then has_cre ops l s /\ has_ann ops r s else has_ann ops l s /\ has_cre ops r s
  function none : {GM} = aconst {{ fst = 0; snd = 0 }}
  function one_cre (s: int) : {GM} = aset none s {{ fst = 1; snd = 0 }}
  function one_ann (s: int) : {GM} = aset none s {{ fst = 0; snd = 1 }}
  (* the contraction of one leg of operator l with one leg of operator r in space s *)
  function pairc (occ: bool) (n s l r: int) : {EC} =
    set (set (vmake n none) l (if occ then one_cre s else one_ann s)) r (if occ then one_ann s else one_cre s)
  (* c1 is c0 followed by exactly the allowed pair contractions of space s, each once (w lists the pairs) *)
  predicate appended_by (occ: bool) (ops: seq t_Operator) (s: int) (c0 c1: seq {EC}) (w: seq (pair int int)) =
    length c1 = length c0 + length w /\ (forall i. 0 <= i < length c0 -> c1[i] = c0[i]) /\
    (forall i. 0 <= i < length w -> allowed occ ops s w[i].fst w[i].snd) /\
    (forall i. 0 <= i < length w -> c1[length c0 + i] = pairc occ (length ops) s w[i].fst w[i].snd) /\
    (forall l r. allowed occ ops s l r -> exists i. 0 <= i < length w /\ w[i].fst = l /\ w[i].snd = r) /\
    (forall i j. 0 <= i < j < length w -> w[i].fst <> w[j].fst \/ w[i].snd <> w[j].snd)
  predicate appended (occ: bool) (ops: seq t_Operator) (s: int) (c0 c1: seq {EC}) = exists w. appended_by occ ops s c0 c1 w
  (* general spaces: c creation and a annihilation legs of every operator, as many of each, 1..maxc of them, on at least two operators *)
  function total (c: seq int) (n: int) : int
  axiom total_0 : forall c. total c 0 = 0
  axiom total_s : forall c n [total c n]. 0 < n -> total c n = total c (n - 1) + c[n - 1]
  predicate legs_of (ops: seq t_Operator) (s: int) (cre: bool) (c: seq int) = length c = length ops /\
    forall i. 0 <= i < length ops -> 0 <= c[i] <= (if cre then (aget (ops[i]).graph_matrix_ s).fst else (aget (ops[i]).graph_matrix_ s).snd)
  predicate allowedg (ops: seq t_Operator) (s maxc: int) (c a: seq int) = legs_of ops s true c /\ legs_of ops s false a /\
    total c (length ops) = total a (length ops) /\ 1 <= total c (length ops) <= maxc /\
    exists i j. 0 <= i < j < length ops /\ c[i] + a[i] > 0 /\ c[j] + a[j] > 0
  predicate is_genc (n s: int) (c a: seq int) (e: {EC}) = length e = n /\ forall i. 0 <= i < n -> e[i] = aset none s {{ fst = c[i]; snd = a[i] }}
  predicate appendedg_by (ops: seq t_Operator) (s maxc: int) (c0 c1: seq {EC}) (w: seq (pair (seq int) (seq int))) =
    length c1 = length c0 + length w /\ (forall i. 0 <= i < length c0 -> c1[i] = c0[i]) /\
    (forall i. 0 <= i < length w -> allowedg ops s maxc w[i].fst w[i].snd) /\
    (forall i. 0 <= i < length w -> is_genc (length ops) s w[i].fst w[i].snd c1[length c0 + i]) /\
    (forall c a. allowedg ops s maxc c a -> exists i. 0 <= i < length w /\ w[i].fst = c /\ w[i].snd = a) /\
    (forall i j. 0 <= i < j < length w -> w[i].fst <> w[j].fst \/ w[i].snd <> w[j].snd)
  predicate appendedg (ops: seq t_Operator) (s maxc: int) (c0 c1: seq {EC}) = exists w. appendedg_by ops s maxc c0 c1 w
  (* what space s adds *)
  predicate space_step (ops: seq t_Operator) (s maxc: int) (c0 c1: seq {EC}) =
    match (osi.space_info_[s]).space_type_ with
    | SpaceType_Occupied -> appended true ops s c0 c1
    | SpaceType_Unoccupied -> appended false ops s c0 c1
    | SpaceType_General -> appendedg ops s maxc c0 c1
    | _ -> c1 = c0 end
  (* the contractions of the spaces 0..n-1 *)
  inductive gensteps (ops: seq t_Operator) (maxc n: int) (c: seq {EC}) =
    | gs_0 : forall ops maxc. gensteps ops maxc 0 empty
    | gs_s : forall ops maxc n c d. gensteps ops maxc n c -> space_step ops n maxc c d -> gensteps ops maxc (n + 1) d
  (* two different pairs give two different contractions *)
  let lemma pairc_inj (occ: bool) (n s l r l' r': int) requires {{ 0 <= s < 8 }} requires {{ 0 <= l < r < n }} requires {{ 0 <= l' < r' < n }}
    requires {{ pairc occ n s l r = pairc occ n s l' r' }} ensures {{ l = l' /\ r = r' }}
  = let c = pure {{ pairc occ n s l r }} in let d = pure {{ pairc occ n s l' r' }} in
    assert {{ aget none s = {{ fst = 0; snd = 0 }} }}; assert {{ aget (one_cre s) s = {{ fst = 1; snd = 0 }} }}; assert {{ aget (one_ann s) s = {{ fst = 0; snd = 1 }} }};
    assert {{ one_cre s <> none }}; assert {{ one_ann s <> none }}; assert {{ one_cre s <> one_ann s }};
    assert {{ c[l] = (if occ then one_cre s else one_ann s) /\ c[r] = (if occ then one_ann s else one_cre s) }};
    assert {{ forall i. 0 <= i < n -> i <> l' -> i <> r' -> d[i] = none }};
    assert {{ d[l'] = (if occ then one_cre s else one_ann s) /\ d[r'] = (if occ then one_ann s else one_cre s) }};
    assert {{ l = l' \/ l = r' }}; assert {{ r = l' \/ r = r' }}

  (* the pairs (l, r) in the order (l, r) < (bl, br) *)
  function upto (occ: bool) (ops: seq t_Operator) (s bl br: int) : seq (pair int int)
  axiom upto_0 : forall occ ops s br [upto occ ops s 0 br]. br <= 1 -> upto occ ops s 0 br = empty
  axiom upto_row : forall occ ops s bl br [upto occ ops s bl br]. 0 < bl -> br <= bl + 1 -> upto occ ops s bl br = upto occ ops s (bl - 1) (length ops)
  axiom upto_s : forall occ ops s bl br [upto occ ops s bl br]. 0 <= bl -> bl + 1 < br ->
    upto occ ops s bl br = (if allowed occ ops s bl (br - 1) then snoc (upto occ ops s bl (br - 1)) {{ fst = bl; snd = br - 1 }} else upto occ ops s bl (br - 1))
  predicate before (l r bl br: int) = l < bl \/ (l = bl /\ r < br)
  predicate upto_ok (occ: bool) (ops: seq t_Operator) (s bl br: int) =
    let w = upto occ ops s bl br in
    (forall i. 0 <= i < length w -> allowed occ ops s w[i].fst w[i].snd /\ before w[i].fst w[i].snd bl br) /\
    (forall l r. allowed occ ops s l r -> before l r bl br -> exists i. 0 <= i < length w /\ w[i].fst = l /\ w[i].snd = r) /\
    (forall i j. 0 <= i < j < length w -> w[i].fst <> w[j].fst \/ w[i].snd <> w[j].snd)
  let rec lemma upto_all (occ: bool) (ops: seq t_Operator) (s bl br: int) requires {{ 0 <= bl < length ops }} requires {{ br <= length ops }}
    ensures {{ upto_ok occ ops s bl br }} variant {{ bl, max 0 (br - bl) }}
  = if br <= bl + 1 then begin if 0 < bl then begin upto_all occ ops s (bl - 1) (length ops);
        assert {{ forall l r. allowed occ ops s l r -> before l r bl br -> before l r (bl - 1) (length ops) }};
        assert {{ upto occ ops s bl br = upto occ ops s (bl - 1) (length ops) }} end
      else begin assert {{ upto occ ops s bl br = empty }}; assert {{ forall l r. allowed occ ops s l r -> not before l r bl br }} end end
    else begin upto_all occ ops s bl (br - 1);
      let w0 = pure {{ upto occ ops s bl (br - 1) }} in let w = pure {{ upto occ ops s bl br }} in
      assert {{ forall i. 0 <= i < length w0 -> w[i] = w0[i] }};
      assert {{ allowed occ ops s bl (br - 1) -> length w = length w0 + 1 /\ w[length w0].fst = bl /\ w[length w0].snd = br - 1 }};
      assert {{ forall l r. allowed occ ops s l r -> before l r bl br -> before l r bl (br - 1) \/ (l = bl /\ r = br - 1) }};
      assert {{ forall l r. allowed occ ops s l r -> before l r bl (br - 1) -> exists i. 0 <= i < length w /\ w[i].fst = l /\ w[i].snd = r }};
      assert {{ forall i. 0 <= i < length w -> i = length w0 \/ (0 <= i < length w0 /\ w[i] = w0[i]) }};
      assert {{ forall i. 0 <= i < length w -> allowed occ ops s w[i].fst w[i].snd /\ before w[i].fst w[i].snd bl br }};
      assert {{ forall i j. 0 <= i < j < length w0 -> w[i].fst <> w[j].fst \/ w[i].snd <> w[j].snd }};
      assert {{ forall i. 0 <= i < length w0 -> before w[i].fst w[i].snd bl (br - 1) }};
      assert {{ forall i j. 0 <= i < j < length w -> w[i].fst <> w[j].fst \/ w[i].snd <> w[j].snd }};
      assert {{ forall l r. allowed occ ops s l r -> before l r bl br -> exists i. 0 <= i < length w /\ w[i].fst = l /\ w[i].snd = r }} end
  predicate listed (occ: bool) (ops: seq t_Operator) (s bl br: int) (c0 c1: seq {EC}) =
    let w = upto occ ops s bl br in
    length c1 = length c0 + length w /\ (forall i. 0 <= i < length c0 -> c1[i] = c0[i]) /\
    (forall i. 0 <= i < length w -> c1[length c0 + i] = pairc occ (length ops) s w[i].fst w[i].snd)
  let lemma listed_row (occ: bool) (ops: seq t_Operator) (s bl: int) (c0 c1: seq {EC}) requires {{ 0 <= bl }}
    requires {{ listed occ ops s bl (length ops) c0 c1 }} requires {{ bl < length ops }} ensures {{ listed occ ops s (bl + 1) (bl + 2) c0 c1 }} = ()
  let lemma listed_next (occ: bool) (ops: seq t_Operator) (s bl br: int) (c0 c1 c2: seq {EC}) requires {{ 0 <= bl < br }}
    requires {{ listed occ ops s bl br c0 c1 }} requires {{ c2 = (if allowed occ ops s bl br then snoc c1 (pairc occ (length ops) s bl br) else c1) }}
    ensures {{ listed occ ops s bl (br + 1) c0 c2 }}
  = let w0 = pure {{ upto occ ops s bl br }} in let w = pure {{ upto occ ops s bl (br + 1) }} in
    assert {{ forall i. 0 <= i < length w0 -> w[i] = w0[i] }};
    assert {{ allowed occ ops s bl br -> length w = length w0 + 1 /\ w[length w0].fst = bl /\ w[length w0].snd = br }}
  let lemma listed_all (occ: bool) (ops: seq t_Operator) (s bl: int) (c0 c1: seq {EC}) requires {{ 0 <= bl }} requires {{ bl = length ops }}
    requires {{ listed occ ops s bl (bl + 1) c0 c1 }} ensures {{ appended occ ops s c0 c1 }}
  = if bl > 0 then begin upto_all occ ops s (bl - 1) bl;
      assert {{ forall l r. allowed occ ops s l r -> before l r (bl - 1) bl }} end;
    let w = pure {{ upto occ ops s bl (bl + 1) }} in assert {{ appended_by occ ops s c0 c1 w }}
""")
for nm, occ in (("occupied", "true"), ("unoccupied", "false")):
    P.fn(f"WickTheorem::elementary_contractions_{nm}(OperatorProduct&, int, vec<ElementaryContraction>&)", "this ops s contr_vec",
         req=["counts ops", "0 <= s < 8"],
         ens=[("exactly the allowed pairs, each once", f"appended {occ} ops s (old contr_vec) contr_vec"), ("solver untouched", "this = old this")],
         loops={1: [("range", "0 <= l /\\ (l <= nops)"), ("rows so far", f"listed {occ} ops s l (l + 1) (old contr_vec) contr_vec"), ("solver untouched", "this = old this")],
                2: [("range", "l < r /\\ r <= nops"), ("pairs so far", f"listed {occ} ops s l r (old contr_vec) contr_vec"), ("solver untouched", "this = old this")]},
         ghost={"entry": "let ghost c00_ = contr_vec in", "begin2": "let ghost c1_ = contr_vec in",
                "end2": f"assert {{ allowed {occ} ops s l r -> contr_vec = snoc c1_ (pairc {occ} (length ops) s l r) }}; assert {{ not allowed {occ} ops s l r -> contr_vec = c1_ }}; listed_next {occ} ops s l r c00_ c1_ contr_vec;",
                "after2": f"listed_row {occ} ops s l c00_ contr_vec;", "exit": f"listed_all {occ} ops s nops c00_ contr_vec;"})

P.fn("WickTheorem::elementary_contractions_general(OperatorProduct&, int, vec<ElementaryContraction>&)", "this ops s contr_vec",
         req=["counts ops", "0 <= s < 8"],
         ens=[("exactly the allowed cumulants, each once", "appendedg ops s this.maxcumulant_ (old contr_vec) contr_vec"), ("solver untouched", "this = old this")], trusted=True)
P.fn("WickTheorem::generate_elementary_contractions(OperatorProduct&)", "this ops",
         req=["counts ops"], ens=[("the contractions of every space", "gensteps ops this.maxcumulant_ nspc result"), ("solver untouched", "this = old this")],
         loops={1: [("range", "0 <= s <= nspc"), ("spaces so far", "gensteps ops this.maxcumulant_ s contr_vec"), ("solver untouched", "this = old this")]},
         ghost={"begin1": "let ghost c0_ = contr_vec in", "end1": "assert { space_step ops s this.maxcumulant_ c0_ contr_vec };"})
