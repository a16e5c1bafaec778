from contracts import Profile
import c14, c04

I, S, T, TM = c14.I, c14.S, c14.T, c14.TM
MODE = {"erase": ("label_to_pos_", "indices_to_pos_")}
CM = f"(cmap {I} {I})"
PRE = rf"""
  val constant osi : t_OrbitalSpaceInfo
  function nsp : int = length osi.space_info_
  predicate known (s: int) = 0 <= s < nsp
  predicate lt_index (a b: {I}) = a.fst < b.fst \/ (a.fst = b.fst /\ a.snd < b.snd)
"""
REL = rf"""
  (* an index under a map of indices: itself when the map does not mention it *)
  function ri (m: {CM}) (i: {I}) : {I} = if cmem m i then cget m i else i
  predicate inds_re (m: {CM}) (s r: seq {I}) = length r = length s /\ forall k. 0 <= k < length s -> r[k] = ri m s[k]
  predicate tensor_re (m: {CM}) (s r: {T}) = r.label_Tensor = s.label_Tensor /\ r.symmetry_ = s.symmetry_ /\ r.is_complex_conjugate_ = s.is_complex_conjugate_
    /\ inds_re m s.upper_ r.upper_ /\ inds_re m s.lower_ r.lower_
  predicate op_re (m: {CM}) (s r: {S}) = r.fst = s.fst /\ r.snd = ri m s.snd
  predicate tensors_re (m: {CM}) (s r: seq {T}) = length r = length s /\ forall k. 0 <= k < length s -> tensor_re m s[k] r[k]
  predicate ops_re (m: {CM}) (s r: seq {S}) = length r = length s /\ forall k. 0 <= k < length s -> op_re m s[k] r[k]
"""


def reindexing(P):
    same = "this.label_Tensor = (old this).label_Tensor /\\ this.symmetry_ = (old this).symmetry_ /\\ this.is_complex_conjugate_ = (old this).is_complex_conjugate_"
    P.fn("SQOperator::reindex(map<Index, Index>&)", "this m", ens=[("index replaced", "op_re m (old this) this"), ("map unchanged", "m = old m")])
    P.fn("Tensor::reindex(map<Index, Index>&)", "this m", ens=[("every index replaced, nothing else", "tensor_re m (old this) this"), ("map unchanged", "m = old m")],
         loops={1: [("rest", same + " /\\ this.lower_ = (old this).lower_ /\\ m = old m"), ("upper replaced so far", "length this.upper_ = length (old this).upper_ /\\ (forall k. 0 <= k < it1 -> (this.upper_)[k] = ri m ((old this).upper_)[k]) /\\ (forall k. it1 <= k < length this.upper_ -> (this.upper_)[k] = ((old this).upper_)[k])")],
                2: [("rest", same + " /\\ inds_re m (old this).upper_ this.upper_ /\\ m = old m"), ("lower replaced so far", "length this.lower_ = length (old this).lower_ /\\ (forall k. 0 <= k < it2 -> (this.lower_)[k] = ri m ((old this).lower_)[k]) /\\ (forall k. it2 <= k < length this.lower_ -> (this.lower_)[k] = ((old this).lower_)[k])")]})
    TS, OS = "tensors_SymbolicTerm", "operators_SymbolicTerm"
    NO = "this.normal_ordered_SymbolicTerm = (old this).normal_ordered_SymbolicTerm"
    P.fn("SymbolicTerm::reindex(map<Index, Index>&)", "this m", ens=[("every tensor and operator reindexed", f"tensors_re m (old this).{TS} this.{TS} /\\ ops_re m (old this).{OS} this.{OS}"), ("rest", NO), ("map unchanged", "m = old m")],
         loops={1: [("rest", f"{NO} /\\ this.{OS} = (old this).{OS} /\\ m = old m"), ("tensors so far", f"length this.{TS} = length (old this).{TS} /\\ (forall k. 0 <= k < it1 -> tensor_re m ((old this).{TS})[k] (this.{TS})[k]) /\\ (forall k. it1 <= k < length this.{TS} -> (this.{TS})[k] = ((old this).{TS})[k])")],
                2: [("rest", f"{NO} /\\ tensors_re m (old this).{TS} this.{TS} /\\ m = old m"), ("operators so far", f"length this.{OS} = length (old this).{OS} /\\ (forall k. 0 <= k < it2 -> op_re m ((old this).{OS})[k] (this.{OS})[k]) /\\ (forall k. it2 <= k < length this.{OS} -> (this.{OS})[k] = ((old this).{OS})[k])")]})


reidx = R = Profile("C05R", ["Base", "Str", "Reals", "CMap"], types=["Index", "SQOperator", "Tensor", "SymbolicTerm", "OrbitalSpaceInfo"], mode=MODE,
    preds={"Index": {"eq": "logical", "lt": "lt_index"}, "SQOperator": {"eq": "logical"}}, pre=PRE, defs=REL)
reindexing(R)


TS, OS, NO = "tensors_SymbolicTerm", "operators_SymbolicTerm", "normal_ordered_SymbolicTerm"
FX = f"(cmap {I} bool)"
CANON = rf"""
  predicate inq (i: {I}) (q: seq {I}) = exists k. 0 <= k < length q /\ q[k] = i
  predicate inq_to (i: {I}) (q: seq {I}) (n: int) = exists k. 0 <= k < n /\ q[k] = i
  predicate in_tensor (t: {T}) (i: {I}) = inq i t.lower_ \/ inq i t.upper_
  predicate in_tensors (ts: seq {T}) (n: int) (i: {I}) = exists k. 0 <= k < n /\ in_tensor ts[k] i
  predicate occT (ts: seq {T}) (i: {I}) = in_tensors ts (length ts) i
  predicate on_op (o: seq {S}) (n: int) (i: {I}) = exists k. 0 <= k < n /\ (o[k]).snd = i
  predicate occO (o: seq {S}) (i: {I}) = on_op o (length o) i
  (* the indices of the term are relabelled one-to-one inside their spaces *)
  predicate relabels (m: {CM}) (ts: seq {T}) (o: seq {S}) =
    (forall i. occT ts i \/ occO o i -> (ri m i).fst = i.fst) /\
    (forall i j. occT ts i \/ occO o i -> occT ts j \/ occO o j -> ri m i = ri m j -> i = j)
  (* sorted in canonical order, with the sign of the rearrangement (defined and proved in C04) *)
  predicate indices_sorted (s r: seq {I}) (down: bool) (f: real)
  predicate sqops_sorted (s r: seq {S}) (down: bool) (f: real)
  predicate tensor_canon (s r: {T}) (f: real) = r.label_Tensor = s.label_Tensor /\ r.symmetry_ = s.symmetry_ /\ r.is_complex_conjugate_ = s.is_complex_conjugate_
    /\ s.symmetry_ <> SymmetryType_Nonsymmetric /\
    exists g h. indices_sorted s.upper_ r.upper_ False g /\ indices_sorted s.lower_ r.lower_ False h /\ f = (if s.symmetry_ = SymmetryType_Antisymmetric then g *. h else 1.0)
  function prod (f: seq real) (n: int) : real
  axiom prod_0 : forall f. prod f 0 = 1.0
  axiom prod_s : forall f n [prod f n]. 0 < n -> prod f n = prod f (n - 1) *. f[n - 1]
  predicate tensors_canon (s r: seq {T}) (f: seq real) = length r = length s /\ length f = length s /\ forall k. 0 <= k < length s -> tensor_canon s[k] r[k] f[k]
  (* the canonical form r of a term t and its factor: tensors reordered, indices relabelled, tensor indices and operators sorted at their sign *)
  predicate canon_via (t r: {TM}) (f: real) (ts us: seq {T}) (o: seq {S}) (m: {CM}) (fs: seq real) (g: real) =
    permutation t.{TS} ts /\ relabels m ts t.{OS} /\ tensors_re m ts us /\ ops_re m t.{OS} o /\ tensors_canon us r.{TS} fs /\
    sqops_sorted o r.{OS} False g /\ f = prod fs (length fs) *. g
  predicate canon (t r: {TM}) (f: real) = exists ts us o m fs g. canon_via t r f ts us o m fs g
  (* what the sorts need: registered spaces, at most 32767 elements *)
  predicate inds_ok (v: seq {I}) = length v <= 0x7fff /\ forall k. 0 <= k < length v -> known (v[k]).fst
  predicate tensor_ok (t: {T}) = inds_ok t.lower_ /\ inds_ok t.upper_
  predicate tensors_ok (ts: seq {T}) = forall k. 0 <= k < length ts -> tensor_ok ts[k]
  predicate ops_ok (o: seq {S}) = length o <= 0x7fff /\ forall k. 0 <= k < length o -> known (o[k]).snd.fst
"""
STATE = rf"""
  let lemma permuted_ok (a b: seq {T}) requires {{ permutation a b }} requires {{ tensors_ok a }} ensures {{ tensors_ok b }} ensures {{ forall k. 0 <= k < length b -> exists j. 0 <= j < length a /\ b[k] = a[j] }} = ()
  let lemma reindexed_ok (m: {CM}) (ts us: seq {T}) (o p: seq {S}) requires {{ relabels m ts o }} requires {{ tensors_re m ts us }} requires {{ ops_re m o p }}
    requires {{ tensors_ok ts }} requires {{ ops_ok o }} ensures {{ tensors_ok us }} ensures {{ ops_ok p }}
  = assert {{ forall k j. 0 <= k < length ts -> 0 <= j < length (ts[k]).lower_ -> occT ts ((ts[k]).lower_)[j] }};
    assert {{ forall k j. 0 <= k < length ts -> 0 <= j < length (ts[k]).upper_ -> occT ts ((ts[k]).upper_)[j] }};
    assert {{ forall k. 0 <= k < length o -> occO o (o[k]).snd }};
    assert {{ forall k. 0 <= k < length us -> inds_ok (us[k]).lower_ /\ inds_ok (us[k]).upper_ }}
  let rec lemma prod_same (f g: seq real) (n: int) requires {{ 0 <= n }} requires {{ forall k. 0 <= k < n -> f[k] = g[k] }} ensures {{ prod f n = prod g n }} variant {{ n }}
  = if n > 0 then prod_same f g (n - 1)
  let lemma prod_snoc (f: seq real) (x: real) ensures {{ prod (snoc f x) (length f + 1) = prod f (length f) *. x }}
  = prod_same f (snoc f x) (length f); assert {{ (snoc f x)[length f] = x }}
  (* operators whose index lies in space s *)
  function nop (o: seq {S}) (n s: int) : int
  axiom nop_0 : forall o s. nop o 0 s = 0
  axiom nop_s : forall o n s [nop o n s]. 0 < n -> nop o n s = nop o (n - 1) s + (if (o[n - 1]).snd.fst = s then 1 else 0)
  predicate nops (o: seq {S}) (n: int) (c: seq int) = length c = nsp /\ forall s. 0 <= s < nsp -> c[s] = nop o n s
  (* the next free label of space s *)
  predicate nxt (f: {FX}) (s: int) (c0 c: seq int) (r: {I}) = length c = length c0 /\ r.fst = s /\ c0[s] <= r.snd /\ c[s] = r.snd + 1 /\
    (forall x. 0 <= x < length c -> x <> s -> c[x] = c0[x]) /\ not cmem f r /\ (forall i. i.fst = s -> c0[s] <= i.snd < r.snd -> cmem f i)
  predicate added (m0 m: {CM}) (l: {I}) = cmem m l /\ (forall i. cmem m i <-> (i = l \/ cmem m0 i)) /\ (forall i. i <> l -> cget m i = cget m0 i)
  (* some operator index uses label i: it is kept there or moved there *)
  predicate used (o: seq {S}) (f: {FX}) (m: {CM}) (i x: {I}) = x.fst = i.fst /\ occO o x /\ ((cmem f x /\ x = i) \/ (not cmem f x /\ cmem m x /\ cget m x = i))
  predicate fixed_are (f: {FX}) (ts: seq {T}) (o: seq {S}) = forall i. cmem f i <-> (occO o i /\ not occT ts i)
  predicate state (ts: seq {T}) (o: seq {S}) (f: {FX}) (m: {CM}) (sc tc: seq int) =
    length sc = nsp /\ length tc = nsp /\ (forall s. 0 <= s < nsp -> tc[s] >= nop o (length o) s /\ sc[s] >= 0) /\
    (forall i. cmem m i -> known i.fst /\ occT ts i /\ (cget m i).fst = i.fst /\ not cmem f (cget m i)) /\
    (forall i. cmem m i -> occO o i -> (cget m i).snd < sc[i.fst]) /\
    (forall i. cmem m i -> not occO o i -> nop o (length o) i.fst <= (cget m i).snd < tc[i.fst]) /\
    (forall i j. cmem m i -> cmem m j -> (occO o i <-> occO o j) -> cget m i = cget m j -> i = j) /\
    (forall i. known i.fst -> 0 <= i.snd < sc[i.fst] -> exists x. used o f m i x)
  predicate stepped (o: seq {S}) (f: {FX}) (m0 m: {CM}) (sc0 tc0 sc tc: seq int) (l: {I}) =
    (m = m0 /\ sc = sc0 /\ tc = tc0 /\ cmem m l) \/
    (not cmem m0 l /\ added m0 m l /\ ((not occO o l /\ sc = sc0 /\ nxt f l.fst tc0 tc (cget m l)) \/ (occO o l /\ tc = tc0 /\ nxt f l.fst sc0 sc (cget m l))))
  let rec ghost function bound (f: {FX}) (n: int) : int requires {{ 0 <= n <= csize f }} ensures {{ forall k. 0 <= k < n -> ((ckeys f)[k]).snd < result }} variant {{ n }}
  = if n = 0 then 0 else let b = bound f (n - 1) in let x = pure {{ ((ckeys f)[n - 1]).snd }} in if x < b then b else x + 1
  let ghost function limit (f: {FX}) : int ensures {{ forall i. cmem f i -> i.snd < result }}
  = let b = bound f (csize f) in assert {{ forall i. cmem f i -> (ckeys f)[cidx f i] = i }}; b
  let lemma step (ts: seq {T}) (o: seq {S}) (f: {FX}) (m0 m: {CM}) (sc0 tc0 sc tc: seq int) (l: {I})
    requires {{ fixed_are f ts o }} requires {{ state ts o f m0 sc0 tc0 }} requires {{ occT ts l /\ known l.fst }} requires {{ stepped o f m0 m sc0 tc0 sc tc l }}
    ensures {{ state ts o f m sc tc }} ensures {{ cmem m l }} ensures {{ forall i. cmem m0 i -> cmem m i }}
  = if pure {{ m = m0 /\ sc = sc0 /\ tc = tc0 }} then () else begin
      assert {{ not cmem f l }};
      assert {{ length sc = nsp /\ length tc = nsp /\ (forall s. 0 <= s < nsp -> tc[s] >= tc0[s] /\ sc[s] >= sc0[s]) }};
      assert {{ forall i. cmem m i -> known i.fst /\ occT ts i /\ (cget m i).fst = i.fst /\ not cmem f (cget m i) }};
      assert {{ forall i. cmem m i -> occO o i -> (cget m i).snd < sc[i.fst] }};
      assert {{ forall i. cmem m i -> not occO o i -> nop o (length o) i.fst <= (cget m i).snd < tc[i.fst] }};
      assert {{ forall i. cmem m0 i -> (occO o i <-> occO o l) -> cget m0 i <> cget m l }};
      assert {{ forall i j. cmem m i -> cmem m j -> (occO o i <-> occO o j) -> cget m i = cget m j -> i = j }};
      assert {{ forall i x. used o f m0 i x -> used o f m i x }};
      if pure {{ occO o l }} then begin
        assert {{ forall i. i.fst = l.fst -> sc0[l.fst] <= i.snd < (cget m l).snd -> used o f m i i }};
        assert {{ used o f m (cget m l) l }};
        assert {{ forall i. known i.fst -> 0 <= i.snd < sc[i.fst] -> (0 <= i.snd < sc0[i.fst] \/ (i.fst = l.fst /\ sc0[l.fst] <= i.snd < (cget m l).snd) \/ i = cget m l) }}
      end else assert {{ sc = sc0 }}
    end
"""
FINAL = rf"""
  (* distinct positions of operators in space s are at most as many as there are *)
  predicate at_ops (o: seq {S}) (n s: int) (q: seq int) = (forall i. 0 <= i < length q -> 0 <= q[i] < n /\ (o[q[i]]).snd.fst = s) /\
    (forall i j. 0 <= i < j < length q -> q[i] <> q[j])
  let rec lemma pigeon (o: seq {S}) (n s: int) (q: seq int) requires {{ 0 <= n <= length o }} requires {{ at_ops o n s q }} ensures {{ length q <= nop o n s }} variant {{ n }}
  = if n = 0 then assert {{ length q = 0 }} else
    if pure {{ exists i. 0 <= i < length q /\ q[i] = n - 1 }} then begin
      let i = any int ensures {{ 0 <= result < length q /\ q[result] = n - 1 }} in
      let r = pure {{ q[0..i] ++ q[i + 1..length q] }} in
      assert {{ length r = length q - 1 }}; assert {{ forall k. 0 <= k < i -> r[k] = q[k] }}; assert {{ forall k. i <= k < length q - 1 -> r[k] = q[k + 1] }};
      assert {{ forall k. 0 <= k < length q -> k <> i -> q[k] <> n - 1 }};
      assert {{ forall k. 0 <= k < length r -> r[k] = q[if k < i then k else k + 1] }};
      assert {{ forall k. 0 <= k < length r -> 0 <= r[k] < n - 1 /\ (o[r[k]]).snd.fst = s }};
      assert {{ forall a b. 0 <= a < b < length r -> r[a] <> r[b] }};
      assert {{ at_ops o (n - 1) s r }}; pigeon o (n - 1) s r
    end else begin assert {{ at_ops o (n - 1) s q }}; pigeon o (n - 1) s q end
  predicate place (o: seq {S}) (f: {FX}) (m: {CM}) (i: {I}) (p: int) = 0 <= p < length o /\ used o f m i (o[p]).snd
  let ghost function user (ts: seq {T}) (o: seq {S}) (f: {FX}) (m: {CM}) (sc tc: seq int) (i: {I}) : {I}
    requires {{ state ts o f m sc tc }} requires {{ known i.fst }} requires {{ 0 <= i.snd < sc[i.fst] }} ensures {{ used o f m i result }}
  = any {I} ensures {{ used o f m i result }}
  let rec ghost function places (ts: seq {T}) (o: seq {S}) (f: {FX}) (m: {CM}) (sc tc: seq int) (s n: int) : seq int
    requires {{ state ts o f m sc tc }} requires {{ 0 <= s < nsp }} requires {{ 0 <= n <= sc[s] }}
    ensures {{ length result = n }} ensures {{ forall k. 0 <= k < n -> place o f m {{ fst = s; snd = k }} result[k] }} variant {{ n }}
  = if n = 0 then empty else
    let q = places ts o f m sc tc s (n - 1) in
    let i = pure {{ {{ fst = s; snd = n - 1 }} }} in
    assert {{ known i.fst /\ 0 <= i.snd < sc[i.fst] }};
    let x = user ts o f m sc tc i in
    assert {{ on_op o (length o) x }};
    let p = any int ensures {{ 0 <= result < length o /\ (o[result]).snd = x }} in
    snoc q p
  let lemma enough (ts: seq {T}) (o: seq {S}) (f: {FX}) (m: {CM}) (sc tc: seq int) (s: int)
    requires {{ state ts o f m sc tc }} requires {{ 0 <= s < nsp }} ensures {{ sc[s] <= nop o (length o) s }}
  = let q = places ts o f m sc tc s (pure {{ sc[s] }}) in
    assert {{ forall i j p. used o f m i p -> used o f m j p -> i = j }};
    assert {{ at_ops o (length o) s q }}; pigeon o (length o) s q
  let lemma finished (ts: seq {T}) (o: seq {S}) (f: {FX}) (m: {CM}) (sc tc: seq int)
    requires {{ fixed_are f ts o }} requires {{ state ts o f m sc tc }} requires {{ forall i. occT ts i -> cmem m i }} ensures {{ relabels m ts o }}
  = assert {{ forall s. 0 <= s < nsp -> sc[s] <= nop o (length o) s }};
    assert {{ forall i j. cmem m i -> cmem m j -> cget m i = cget m j -> i = j }};
    assert {{ forall i. (occT ts i \/ occO o i) -> not cmem m i -> cmem f i }}
"""
canon = P = Profile("C05C", ["Base", "Str", "Reals", "CMap", "SeqLem"], libs=["SeqLemProof"], types=["Index", "SQOperator", "Tensor", "SymbolicTerm", "OrbitalSpaceInfo"], mode=MODE,
    preds={"Index": {"eq": "logical", "lt": "lt_index"}, "SQOperator": {"eq": "logical"}, "Tensor": {"eq": "logical", "lt": "lt_tensor"}}, pre=PRE + f"  predicate lt_tensor (a b: {T})\n",
    defs=REL + CANON + STATE + FINAL)
P.fn("SymbolicTerm::canonicalize()::$_0::operator()(int, vec<int>&)", "f s count", req=["0 <= s < length count"],
     ens=[("the next label that is not fixed", "nxt f s (old count) count result")],
     ghost={"entry": "let ghost lim_ = limit f in"},
     loops={1: {"invariant": [("skipped labels are fixed", "length count = length (old count) /\\ (old count)[s] <= count[s] /\\ (forall i. i.fst = s -> (old count)[s] <= i.snd < count[s] -> cmem f i)"),
                              ("rest", "forall x. 0 <= x < length count -> x <> s -> count[x] = (old count)[x]")], "variant": "lim_ - count[s]"}})
reindexing(P)
for n in ("SQOperator::reindex(map<Index, Index>&)", "Tensor::reindex(map<Index, Index>&)", "SymbolicTerm::reindex(map<Index, Index>&)"):
    P.byname[n].trusted = True           # proved in profile C05R
P.fn("num_indices_per_space(vec<Index>&)", "v", req=["forall k. 0 <= k < length v -> known (v[k]).fst"], ens=[("one count per space", "length result = nsp")],
     loops={1: [("sizes", "length counter = nsp")]})
P.fn("SymbolicTerm::tensor_connectivity(Tensor&, bool)", "this t upper", req=[f"tensors_ok this.{TS} /\\ tensor_ok t"], ens=[("a score (any)", "length result >= 0")], trusted=True)
P.fn("SymbolicTerm::simplify()", "this", ens=[("nothing changed", "this = old this")], loops={1: [("nothing changed", "this = old this")]})
P.fn("Tensor::canonicalize()", "this", trusted=True, req=["length this.upper_ <= 0x7fff /\\ length this.lower_ <= 0x7fff"], raises="this.symmetry_ = SymmetryType_Nonsymmetric /\\ this = old this",
     ens=[("sorted, with its sign (C04)", "tensor_canon (old this) this result")])
P.fn("canonicalize_sqops(Product<SQOperator>&, bool)", "s down", trusted=True, req=["ops_ok s"], ens=[("sorted, with its sign (C04)", "sqops_sorted (old s) s down result")])
KEEP = f"this.{OS} = (old this).{OS} /\\ this.{NO} = (old this).{NO}"
FIXED = f"forall i. cmem is_fixed_index i <-> (occO this.{OS} i /\\ not in_tensors this.{TS} it4 i"
ST = [("relabelling so far", f"state this.{TS} this.{OS} is_fixed_index index_map sqop_index_count tens_index_count")]
COPY = "let ghost m0_ = index_map in let ghost sc0_ = sqop_index_count in let ghost tc0_ = tens_index_count in "
STEP = lambda v: f"step this.{TS} this.{OS} is_fixed_index m0_ index_map sc0_ tc0_ sqop_index_count tens_index_count {v};"
P.fn("SymbolicTerm::canonicalize()", "this", req=[f"tensors_ok this.{TS}", f"ops_ok this.{OS}"],
     raises=f"exists k. 0 <= k < length (old this).{TS} /\\ ((old this).{TS}[k]).symmetry_ = SymmetryType_Nonsymmetric",
     ens=[("tensors reordered, indices relabelled one-to-one inside their spaces, everything sorted at its sign", "canon (old this) this result"),
          ("same kind of term", f"this.{NO} = (old this).{NO}")],
     loops={1: [("scored so far", f"length scores = it1 /\\ forall k. 0 <= k < it1 -> (scores[k]).t7_6 = ((old this).{TS})[k]")],
            2: [("rest", KEEP), ("rebuilt so far", f"length this.{TS} = it2 /\\ forall k. 0 <= k < it2 -> (this.{TS})[k] = (scores[k]).t7_6")],
            3: [("operators counted", f"nops this.{OS} it3 tens_index_count"), ("operator indices", f"forall i. cmem is_operator_index i <-> on_op this.{OS} it3 i")],
            4: [("fixed so far", FIXED + ")")],
            5: [("fixed so far", FIXED + " /\\ not inq_to i tensor.lower_ it5)")],
            6: [("fixed so far", FIXED + " /\\ not inq i tensor.lower_ /\\ not inq_to i tensor.upper_ it6)")],
            7: ST + [("seen", f"forall i. in_tensors this.{TS} it7 i -> cmem index_map i")],
            8: ST + [("seen", f"forall i. in_tensors this.{TS} it7 i \\/ inq_to i tensor.lower_ it8 -> cmem index_map i")],
            9: ST + [("seen", f"forall i. in_tensors this.{TS} it7 i \\/ inq i tensor.lower_ \\/ inq_to i tensor.upper_ it9 -> cmem index_map i")],
            10: [("rest", f"this.{OS} = o_ /\\ this.{NO} = (old this).{NO}"), ("signs", "length fs_ = it10 /\\ factor = prod fs_ it10"),
                 ("sorted so far", f"length this.{TS} = length us_ /\\ (forall k. 0 <= k < it10 -> tensor_canon us_[k] this.{TS}[k] fs_[k]) /\\ (forall k. it10 <= k < length us_ -> this.{TS}[k] = us_[k])")]},
     ghost={"entry": f"let ghost t0_ = this in let ghost ref ts_ = this.{TS} in let ghost ref us_ = this.{TS} in let ghost ref o_ = this.{OS} in let ghost ref fs_: seq real = empty in",
            "before3": f"ts_ <- this.{TS}; let ghost p_ = any seq int ensures {{ length result = length ts_ /\\ (forall i. 0 <= i < length ts_ -> 0 <= result[i] < length ts_) /\\ "
                       f"(forall i j. 0 <= i < j < length ts_ -> result[i] <> result[j]) /\\ (forall i. 0 <= i < length ts_ -> ts_[i] = (t0_.{TS})[result[i]]) }} in assert {{ permutation t0_.{TS} ts_ }}; permuted_ok t0_.{TS} ts_;",
            "begin8": COPY, "end8": STEP("l"), "begin9": COPY, "end9": STEP("u"),
            "after7": f"finished this.{TS} this.{OS} is_fixed_index index_map sqop_index_count tens_index_count;",
            "before10": f"us_ <- this.{TS}; o_ <- this.{OS}; reindexed_ok index_map ts_ us_ t0_.{OS} o_;",
            "begin10": f"let ghost f0_ = factor in let ghost q0_ = this.{TS} in assert {{ exists j. 0 <= j < length t0_.{TS} /\\ (t0_.{TS}[j]).symmetry_ = (q0_[it10]).symmetry_ }};",
            "end10": f"let ghost f_ = any real ensures {{ tensor_canon q0_[it10] this.{TS}[it10] result /\\ factor = f0_ *. result }} in prod_snoc fs_ f_; fs_ <- snoc fs_ f_;",
            "after10": f"assert {{ tensors_canon us_ this.{TS} fs_ }};",
            "exit": f"let ghost g_ = any real ensures {{ sqops_sorted o_ this.{OS} False result /\\ factor = prod fs_ (length fs_) *. result }} in assert {{ canon_via t0_ this factor ts_ us_ o_ index_map fs_ g_ }};"})


# expressions: every term replaced by its canonical (reindexed) form, coefficients of equal terms added
import lin
LIFT = r"""
  (* u is the new form of t with factor f (canon of profile C05C; reindexing, with factor 1, of C05R) *)
  predicate form (t u: term) (f: real)
  predicate fine term
"""
LIFTD = r"""
  (* sum over the first n terms of m of the coefficients that go to t *)
  function total (m: comb) (us: seq term) (fs: seq real) (t: term) (n: int) : real
  axiom total_0 : forall m us fs t. total m us fs t 0 = 0.0
  axiom total_s : forall m us fs t n [total m us fs t n]. 0 < n -> total m us fs t n =
    total m us fs t (n - 1) +. (if us[n - 1] = t then rmul fs[n - 1] (cget m (ckey m (n - 1))) else 0.0)
  predicate forms (m: comb) (us: seq term) (fs: seq real) (n: int) = length us = n /\ length fs = n /\ forall k. 0 <= k < n -> form (ckey m k) us[k] fs[k]
  predicate replaced (m r: comb) = nz r /\ exists us fs. forms m us fs (csize m) /\ forall t. coef r t = total m us fs t (csize m)
  let rec lemma total_same (m: comb) (us vs: seq term) (fs gs: seq real) (t: term) (n: int) requires { 0 <= n }
    requires { forall k. 0 <= k < n -> us[k] = vs[k] /\ fs[k] = gs[k] } ensures { total m us fs t n = total m vs gs t n } variant { n }
  = if n > 0 then total_same m us vs fs gs t (n - 1)
  let lemma total_snoc (m: comb) (us: seq term) (fs: seq real) (u: term) (f: real) requires { length us = length fs }
    ensures { forall t. total m (snoc us u) (snoc fs f) t (length us + 1) = total m us fs t (length us) +. (if u = t then rmul f (cget m (ckey m (length us))) else 0.0) }
  = assert { forall t. total m (snoc us u) (snoc fs f) t (length us) = total m us fs t (length us) };
    assert { (snoc us u)[length us] = u /\ (snoc fs f)[length us] = f }
  let lemma forms_snoc (m: comb) (us: seq term) (fs: seq real) (n: int) (u: term) (f: real) requires { forms m us fs n } requires { 0 <= n } requires { form (ckey m n) u f } ensures { forms m (snoc us u) (snoc fs f) (n + 1) } = ()
"""


def lifted(name, fn, params, callee, cparams, new, spec, mp="", **kw):
    """mp: the extra argument of `form` (the index map)"""
    a = f" {mp}" if mp else ""
    b = f" ({mp}: imap)" if mp else ""
    pre, defs = LIFT, LIFTD
    if mp:
        pre = "  type imap = cmap (pair int int) (pair int int)\n" + pre.replace("predicate form (", f"predicate form{b} (")
        defs = defs.replace("predicate forms (", f"predicate forms{b} (").replace("predicate replaced (", f"predicate replaced{b} (").replace("let lemma forms_snoc (", f"let lemma forms_snoc{b} (")
        for w in ("form (", "form ckey", "forms m"):
            defs = defs.replace(" " + w, " " + w.replace(" ", a + " ", 1))
        defs = defs.replace(f"predicate forms{a}", "predicate forms").replace("{ form (", "{ form" + a + " (")
    Q = lin.linear(name, "expr", ["add"], pre=pre, defs=defs)
    Q.fn(callee, cparams, trusted=True, **spec)
    Q.fn(fn, params, req=["nz this", "forall t. cmem this t -> fine t"], ens=[("every term replaced, coefficients of equal terms added", f"replaced{a} (old this) this")],
         loops={1: [("no zero", f"nz {new}"), ("rest", "this = old this" + (f" /\\ {mp} = old {mp}" if mp else "")), ("replaced so far", f"forms{a} this us_ fs_ it1"), ("added so far", f"forall t. coef {new} t = total this us_ fs_ t it1")]},
         ghost={"entry": "let ghost ref us_ : seq term = empty in let ghost ref fs_ : seq real = empty in",
                "begin1": f"let ghost m_ = {new} in",
                "end1": f"let ghost u_ = any term ensures {{ exists f. form{a} key1 result f /\\ forall t. coef {new} t = coef m_ t +. (if t = result then rmul f (cget this key1) else 0.0) }} in "
                        f"let ghost f_ = any real ensures {{ form{a} key1 u_ result /\\ forall t. coef {new} t = coef m_ t +. (if t = u_ then rmul result (cget this key1) else 0.0) }} in "
                        f"total_snoc this us_ fs_ u_ f_; forms_snoc{a} this us_ fs_ it1 u_ f_; us_ <- snoc us_ u_; fs_ <- snoc fs_ f_;"}, **kw)
    return Q


expr = lifted("C05X", "Expression::canonicalize()", "this", "SymbolicTerm::canonicalize()", "this", "canonical_terms",
              dict(req=["fine this"], raises="True", ens=[("canonical form and factor", "form (old this) this result")]), raises="this = old this")
exre = lifted("C05E", "Expression::reindex(map<Index, Index>&)", "this mp", "SymbolicTerm::reindex(map<Index, Index>&)", "this mp", "reindexed_terms",
              dict(ens=[("reindexed", "form mp (old this) this 1.0"), ("map unchanged", "mp = old mp")]), mp="mp")
