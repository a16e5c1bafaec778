"""linear combinations over a map of terms: shared by C02, C06, C10, C17"""
from contracts import Profile

KINDS = {"expr": ("Expression", "SymbolicTerm", "ExprAlg"), "op": ("OperatorExpression", "OperatorProduct", "OpAlg")}
PRE = """
  (* terms, identified when == says so; the map stores each once *)
  type term
"""
DEFS = r"""
  type comb = cmap term real
  (* coefficient of a term: 0 when absent *)
  function coef (m: comb) (t: term) : real = if cmem m t then cget m t else 0.0
  (* no zero coefficient is stored *)
  predicate nz (m: comb) = forall t. cmem m t -> cget m t <> 0.0
  (* two combinations with the same coefficients are the same object *)
  let lemma same_comb (a b: comb) requires { nz a } requires { nz b } requires { forall t. coef a t = coef b t } ensures { a = b }
  = assert { forall t. cmem a t -> coef a t <> 0.0 }; assert { forall t. cmem b t -> coef b t <> 0.0 };
    assert { forall t. cmem a t <-> cmem b t }; assert { ceq a b }
"""
MUL = r"""
  (* product of two terms *)
  function mul term term : term
  (* sum over the first j terms of b of the products k * b_j equal to t *)
  function rowsum (k: term) (c: real) (b: comb) (t: term) (j: int) : real
  axiom rowsum_0 : forall k c b t. rowsum k c b t 0 = 0.0
  axiom rowsum_s : forall k c b t j [rowsum k c b t j]. 0 < j -> rowsum k c b t j =
    rowsum k c b t (j - 1) +. (if mul k (ckey b (j - 1)) = t then rmul c (cget b (ckey b (j - 1))) else 0.0)
  (* sum over the first i terms of a *)
  function rows (a b: comb) (t: term) (i: int) : real
  axiom rows_0 : forall a b t. rows a b t 0 = 0.0
  axiom rows_s : forall a b t i [rows a b t i]. 0 < i -> rows a b t i =
    rows a b t (i - 1) +. rowsum (ckey a (i - 1)) (cget a (ckey a (i - 1))) b t (csize b)
  (* coefficient of t in the product: all pairwise products *)
  function pcoef (a b: comb) (t: term) : real = rows a b t (csize a)
"""
DOT = r"""
  (* sum of products of matching coefficients over the first i terms of a *)
  function dotsum (a b: comb) (i: int) : real
  axiom dotsum_0 : forall a b. dotsum a b 0 = 0.0
  axiom dotsum_s : forall a b i [dotsum a b i]. 0 < i -> dotsum a b i =
    dotsum a b (i - 1) +. (if cmem b (ckey a (i - 1)) then rmul (cget a (ckey a (i - 1))) (cget b (ckey a (i - 1))) else 0.0)
"""


def linear(name, kind, what, pre="", defs="", **kw):
    cls, term, alg = KINDS[kind]
    ab = {term: "term"}
    if kind == "op":
        ab["Product<Operator>"] = "term"     # the base class, same representation
    Q = Profile(name, ["Base", "Reals", "RMul", "CMap"], libs=["RMulProof"], mode={"abstract": ab, "theory_types": ("term",)}, pre=PRE + pre,
                defs=DEFS + (MUL if "mul" in what else "") + (DOT if "dot" in what else "") + defs, **kw)
    NZ, NT = ("no zero coefficient", "nz this"), "nz this"
    Q.fn(f"void add_to_map<{term}, rational>(map<{term}, rational>&, {term}&, rational&)", "m key value", req=["nz m"],
         ens=[("no zero coefficient", "nz m"), ("coefficient added to this term only", "forall t. coef m t = coef (old m) t +. (if t = key then value else 0.0)")])
    Q.fn(f"{alg}::add({term}&, rational)", "this e c", req=[NT], ens=[NZ, ("coefficient added to this term only", "forall t. coef this t = coef (old this) t +. (if t = e then c else 0.0)")])
    part = lambda src, sign="": f"(if cmem {src} t && cidx {src} t < it1 then {sign}(cget {src} t) else 0.0)"
    if "plus" in what or "all" in what:
        for op, sg in (("+", "+."), ("-", "-.")):
            Q.fn(f"{alg}::operator{op}=({alg}&)", "this rhs", req=[NT], ens=[NZ, ("coefficients combined", f"forall t. coef this t = coef (old this) t {sg} coef rhs t")],
                 loops={1: [("no zero", "nz this"), ("done so far", f"forall t. coef this t = coef (old this) t {sg} {part('rhs')}")]})
            if kind == "op": Q.fn(f"operator{op}({cls}, {cls}&)", "lhs rhs", req=["nz lhs"], ens=[("no zero coefficient", "nz result"), ("coefficients combined", f"forall t. coef result t = coef lhs t {sg} coef rhs t")])
    if "scale" in what or "all" in what:
        sc = lambda x: {"invariant": [("keys", "ckeys this = ckeys (old this)"), ("members", "forall t. cmem this t <-> cmem (old this) t"),
                              ("done so far", f"forall t. cmem (old this) t -> cget this t = (if cidx (old this) t < it1 then {x} else cget (old this) t)")]}
        Q.fn(f"{alg}::operator*=(rational)", "this factor", req=[NT],
             ens=[NZ, ("coefficients scaled", "forall t. coef this t = rmul (coef (old this) t) factor")], loops={1: sc("rmul (cget (old this) t) factor")})
        Q.fn(f"{alg}::operator/=(rational)", "this factor", req=[NT], raises="factor = 0.0",
             ens=[NZ, ("coefficients divided", "factor <> 0.0 /\\ forall t. coef this t = rdiv (coef (old this) t) factor")], loops={1: sc("rdiv (cget (old this) t) factor")})
    if "all" in what:
        Q.fn(f"{alg}::operator-()", "this", req=[NT], ens=[("no zero coefficient", "nz result"), ("coefficients negated", "forall t. coef result t = -. coef this t")],
             loops={1: [("no zero", "nz result_"), ("done so far", f"forall t. coef result_ t = {part('this', '-. ')}")]})
        Q.fn(f"{alg}::operator+=(pair<{term}, rational>&)", "this rhs", req=[NT], ens=[NZ, ("coefficient added", "forall t. coef this t = coef (old this) t +. (if t = rhs.fst then rhs.snd else 0.0)")])
        Q.fn(f"{alg}::contains({term}&)", "this e", ens=[("stored", "result <-> cmem this e")])
        Q.fn(f"{alg}::size()", "this", ens=[("number of stored terms", "result = csize this")])
        Q.fn(f"{alg}::is_equal({alg}&)", "this rhs", req=["nz this", "nz rhs"], ens=[("equal iff all coefficients agree", "result <-> forall t. coef this t = coef rhs t")])
    if "dot" in what:
        Q.fn(f"{alg}::dot({cls}&)", "this rhs", ens=[("sum of products of matching coefficients", "result = dotsum this rhs (csize this)")],
             loops={1: [("so far", "result_ = dotsum this rhs it1")]})
    if "mul" in what:
        n = {"expr": "operator*(SymbolicTerm, SymbolicTerm&)", "op": "operator*(OperatorProduct&, OperatorProduct&)"}[kind]
        Q.fn(n, "l r", pure="mul l r", trusted=True)
        Q.fn(f"{alg}::operator*=({alg}&)", "this rhs", req=[], ens=[NZ, ("all pairwise products", "forall t. coef this t = pcoef (old this) rhs t")],
             loops={1: [("no zero", "nz result_"), ("rows so far", "forall t. coef result_ t = rows this rhs t it1")],
                    2: [("no zero", "nz result_"), ("row so far", "forall t. coef result_ t = rows this rhs t it1 +. rowsum e c rhs t it2")]})
        if kind == "op": Q.fn(f"operator*({cls}, {cls}&)", "lhs rhs", ens=[("no zero coefficient", "nz result"), ("all pairwise products", "forall t. coef result t = pcoef lhs rhs t")])
    return Q
