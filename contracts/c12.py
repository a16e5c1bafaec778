from contracts import Profile
import lin

PRE = lin.PRE + r"""
  (* operator products and elementary contractions; canonicalization and evaluation of one contraction are functions of
     their arguments and of the configuration (their frames: this = old this, proved or checked in C10, C11) *)


  type graph = tup3 opr (seq el) real
  val function legs_el el : int
  val function legs_op opr : int
  function canon_graph opr (seq el) : graph
  function eval_contr opr (seq el) real : pair term real
  function canon_term term : pair term real
  function gen_els int opr : seq el
  function combos (seq el) opr int int : seq (seq int)
"""
DEFS = lin.DEFS + r"""
  predicate valid (els: seq el) (c: seq int) = forall i. 0 <= i < length c -> 0 <= c[i] < length els
  predicate all_valid (els: seq el) (cs: seq (seq int)) = forall j. 0 <= j < length cs -> valid els cs[j]
  function crank (els: seq el) (c: seq int) (n: int) : int
  axiom crank_0 : forall els c. crank els c 0 = 0
  axiom crank_s : forall els c n [crank els c n]. 0 < n -> crank els c n = crank els c (n - 1) + legs_el els[c[n - 1]]
  function picked (els: seq el) (c: seq int) : seq el
  axiom picked_def : forall els c. length (picked els c) = length c /\ forall i. 0 <= i < length c -> (picked els c)[i] = els[c[i]]
  function graph_of (canonicalize: bool) (o: opr) (c: seq el) : graph = if canonicalize then canon_graph o c else { t3_0 = o; t3_1 = c; t3_2 = 1.0 }
  (* the term and coefficient of one contraction *)
  function evaluated (cano: bool) (els: seq el) (o: opr) (c: seq int) (f: real) : pair term real =
    let g = graph_of cano o (picked els c) in eval_contr g.t3_0 g.t3_1 (rmul f g.t3_2)
  predicate in_window (els: seq el) (o: opr) (c: seq int) (lo hi: int) = lo <= legs_op o - crank els c (length c) <= hi
  function one (cano: bool) (els: seq el) (o: opr) (c: seq int) (lo hi: int) (f: real) (t: term) : real =
    let e = evaluated cano els o c f in let k = canon_term e.fst in
    if in_window els o c lo hi && k.fst = t then rmul k.snd e.snd else 0.0
  (* the sum over the first n contractions *)
  function total (cano: bool) (els: seq el) (cs: seq (seq int)) (o: opr) (lo hi: int) (f: real) (t: term) (n: int) : real
  axiom total_0 : forall b w cs o lo hi f t. total b w cs o lo hi f t 0 = 0.0
  axiom total_s : forall b w cs o lo hi f t n [total b w cs o lo hi f t n]. 0 < n -> total b w cs o lo hi f t n = total b w cs o lo hi f t (n - 1) +. one b w o cs[n - 1] lo hi f t
  let lemma total_next (cano: bool) (els: seq el) (cs: seq (seq int)) (o: opr) (lo hi: int) (f: real) (n: int) (a b: comb)
    requires { 0 <= n } requires { forall t. coef a t = total cano els cs o lo hi f t n } requires { forall t. coef b t = coef a t +. one cano els o cs[n] lo hi f t }
    ensures { forall t. coef b t = total cano els cs o lo hi f t (n + 1) }
  = assert { forall t. total cano els cs o lo hi f t (n + 1) = total cano els cs o lo hi f t n +. one cano els o cs[n] lo hi f t }
  (* the value of a contraction: every evaluated combination in the window, coefficients added *)
  predicate contracted (w: t_WickTheorem) (o: opr) (lo hi: int) (f: real) (r: comb) = nz r /\
    forall t. coef r t = total w.do_canonicalize_graph_ w.elementary_contractions_ w.contractions_ o lo hi f t (length w.contractions_)
  (* hence the mode makes no difference *)
  let lemma modes_agree (w: t_WickTheorem) (o: opr) (lo hi: int) (f: real) (a b: comb) requires { contracted w o lo hi f a } requires { contracted w o lo hi f b }
    ensures { a = b } = same_comb a b
  (* the contraction of a product depends on the product, the factor, the window, the canonicalization switch and the largest
     cumulant: not on the mode, the print level or anything an earlier contraction left behind *)
  function value (cano: bool) (mc: int) (o: opr) (lo hi: int) (f: real) (t: term) : real
  axiom value_def : forall cano mc o lo hi f t [value cano mc o lo hi f t]. value cano mc o lo hi f t =
    total cano (gen_els mc o) (combos (gen_els mc o) o lo hi) o lo hi f t (length (combos (gen_els mc o) o lo hi))
  predicate same_cfg (a b: t_WickTheorem) = a.do_canonicalize_graph_ = b.do_canonicalize_graph_ /\ a.maxcumulant_ = b.maxcumulant_ /\ a.print_ = b.print_ /\ a.single_threaded_ = b.single_threaded_
  (* a linear combination of products: the combination of their contractions *)
  type ocomb = cmap opr real
  function lincomb (cano: bool) (mc: int) (e: ocomb) (lo hi: int) (f: real) (t: term) (n: int) : real
  axiom lincomb_0 : forall b mc e lo hi f t. lincomb b mc e lo hi f t 0 = 0.0
  axiom lincomb_s : forall b mc e lo hi f t n [lincomb b mc e lo hi f t n]. 0 < n -> lincomb b mc e lo hi f t n =
    lincomb b mc e lo hi f t (n - 1) +. value b mc (ckey e (n - 1)) lo hi (rmul f (cget e (ckey e (n - 1)))) t
  let lemma lincomb_next (cano: bool) (mc: int) (e: ocomb) (lo hi: int) (f: real) (n: int) (a b: comb)
    requires { 0 <= n } requires { forall t. coef a t = lincomb cano mc e lo hi f t n } requires { forall t. coef b t = coef a t +. value cano mc (ckey e n) lo hi (rmul f (cget e (ckey e n))) t }
    ensures { forall t. coef b t = lincomb cano mc e lo hi f t (n + 1) }
  = assert { forall t. lincomb cano mc e lo hi f t (n + 1) = lincomb cano mc e lo hi f t n +. value cano mc (ckey e n) lo hi (rmul f (cget e (ckey e n))) t }
"""
proc = P = Profile("C12", ["Base", "Str", "Reals", "RMul", "CMap", "SeqLem"], libs=["RMulProof", "SeqLemProof"], pre=PRE, defs=DEFS, types=["WickTheorem", "OperatorProduct"],
    mode={"abstract": {"SymbolicTerm": "term", "OperatorProduct": "opr", "Product<Operator>": "opr", "ElementaryContraction": "el"}, "theory_types": ("term",), "erase": ("timers_", "timers_mutex_")})
NZ = ("no zero coefficient", "nz this")
P.fn("ExprAlg::operator+=(pair<SymbolicTerm, rational>&)", "this rhs", req=["nz this"], ens=[NZ, ("coefficient added (C02)", "forall t. coef this t = coef (old this) t +. (if t = rhs.fst then rhs.snd else 0.0)")], trusted=True)
P.fn("ExprAlg::operator+=(ExprAlg&)", "this rhs", req=["nz this"], ens=[NZ, ("coefficients added (C02)", "forall t. coef this t = coef (old this) t +. coef rhs t")], trusted=True)
P.fn("ElementaryContraction::num_ops()", "this", pure="legs_el this", trusted=True)
P.fn("OperatorProduct::num_ops()", "this", pure="legs_op this", trusted=True)
P.fn("SymbolicTerm::canonicalize()", "this", ens=[("a function of the term", "this = (canon_term (old this)).fst /\\ result = (canon_term (old this)).snd")], trusted=True)
P.fn("WickTheorem::canonicalize_contraction_graph(OperatorProduct&, CompositeContraction&)", "this o c", ens=[("a function of its arguments", "result = canon_graph o c"), ("solver untouched", "this = old this")], trusted=True)
P.fn("WickTheorem::evaluate_contraction(OperatorProduct&, CompositeContraction&, rational)", "this o c f", ens=[("a function of its arguments", "result = eval_contr o c f"), ("solver untouched", "this = old this")], trusted=True)
W = "this.do_canonicalize_graph_ this.elementary_contractions_"
req = ["all_valid this.elementary_contractions_ this.contractions_"]
P.fn("WickTheorem::process_contractions(rational, OperatorProduct&, int, int)", "this f o lo hi", req=req,
     ens=[("sum of the evaluated contractions", "contracted this o lo hi f result"), ("solver untouched", "this = old this")],
     loops={1: [("sum so far", "nz result_ /\\ forall t. coef result_ t = total this.do_canonicalize_graph_ this.elementary_contractions_ this.contractions_ o lo hi f t it1"), ("solver untouched", "this = old this")],
            2: [("rank so far", "contr_rank = crank this.elementary_contractions_ contraction_vec it2")],
            3: [("contraction so far", "length contraction = it3 /\\ forall i. 0 <= i < it3 -> contraction[i] = this.elementary_contractions_[contraction_vec[i]]")]},
     ghost={"begin1": "let ghost c1_ = result_ in",
            "end1": f"assert {{ forall t. coef result_ t = coef c1_ t +. one {W} o contraction_vec lo hi f t }}; total_next {W} this.contractions_ o lo hi f it1 c1_ result_;"})
P.fn("WickTheorem::process_single_contraction(OperatorProduct&, vec<int>&, int, int, rational, int)", "this o c lo hi f rk", mode={"guarded": "timers_mutex_"}, req=["valid this.elementary_contractions_ c", "rk = legs_op o"],
     ens=[("the contribution of one contraction", "nz result /\\ forall t. coef result t = one this.do_canonicalize_graph_ this.elementary_contractions_ o c lo hi f t"), ("solver untouched", "this = old this")],
     loops={1: [("rank so far", "contr_rank = crank this.elementary_contractions_ c it1")],
            2: [("contraction so far", "length contraction = it2 /\\ forall i. 0 <= i < it2 -> contraction[i] = this.elementary_contractions_[c[i]]")]})
P.fn("WickTheorem::process_contractions_threads(rational, OperatorProduct&, int, int)", "this f o lo hi", req=req,
     ens=[("sum of the evaluated contractions", "contracted this o lo hi f result"), ("solver untouched", "this = old this")],
     loops={1: [("solver untouched", "this = old this"), ("tasks so far", "length futures = it1 /\\ forall i. 0 <= i < it1 -> nz futures[i] /\\ forall t. coef futures[i] t = one this.do_canonicalize_graph_ this.elementary_contractions_ o this.contractions_[i] lo hi f t")],
            2: [("sum so far", "nz result_ /\\ forall t. coef result_ t = total this.do_canonicalize_graph_ this.elementary_contractions_ this.contractions_ o lo hi f t it2")]})
P.fn("WickTheorem::generate_elementary_contractions(OperatorProduct&)", "this o", ens=[("a function of the largest cumulant and the product (C08)", "result = gen_els this.maxcumulant_ o"), ("solver untouched", "this = old this")], trusted=True)
P.fn("WickTheorem::generate_composite_contractions(OperatorProduct&, int, int)", "this o lo hi",
     ens=[("a function of the elementary contractions, the product and the window (C09)", "length (old this).contractions_ = 0 -> this.contractions_ = combos this.elementary_contractions_ o lo hi /\\ all_valid this.elementary_contractions_ this.contractions_"),
          ("configuration kept", "same_cfg this (old this) /\\ this.elementary_contractions_ = (old this).elementary_contractions_")], trusted=True)
P.fn("WickTheorem::contract(rational, OperatorProduct&, int, int)", "this f o lo hi",
     ens=[("independent of the mode and of earlier contractions", "nz result /\\ forall t. coef result t = value this.do_canonicalize_graph_ this.maxcumulant_ o lo hi f t"), ("configuration kept", "same_cfg this (old this)")])
P.fn("WickTheorem::contract(rational, OperatorExpression&, int, int)", "this fac e lo hi",
     ens=[("linear combination of the contractions of its products", "nz result /\\ forall t. coef result t = lincomb this.do_canonicalize_graph_ this.maxcumulant_ e lo hi fac t (csize e)"), ("configuration kept", "same_cfg this (old this)")],
     loops={1: [("so far", "nz result_ /\\ forall t. coef result_ t = lincomb this.do_canonicalize_graph_ this.maxcumulant_ e lo hi fac t it1"), ("configuration kept", "same_cfg this (old this)")]},
     ghost={"begin1": "let ghost c1_ = result_ in", "end1": "assert { forall t. coef result_ t = coef c1_ t +. value this.do_canonicalize_graph_ this.maxcumulant_ (ckey e it1) lo hi (rmul fac (cget e (ckey e it1))) t }; lincomb_next this.do_canonicalize_graph_ this.maxcumulant_ e lo hi fac it1 c1_ result_;"})
for fn, fld, val in (("do_canonicalize_graph(bool)", "do_canonicalize_graph_", "v"), ("set_single_threaded(bool)", "single_threaded_", "v"), ("set_max_cumulant(int)", "maxcumulant_", "v")):
    P.fn(f"WickTheorem::{fn}", "this v", ens=[("set", f"this = {{ (old this) with {fld} = v }}")])
P.frame("WickTheorem::process_single_contraction(OperatorProduct&, vec<int>&, int, int, rational, int)", ("WickTheorem", "OrbitalSpaceInfo"), {"timers_": "timers_mutex_"})
