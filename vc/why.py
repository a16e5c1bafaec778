"""IR of the C++ code (cxx.py) -> WhyML programs with contracts.

Every statement of the function body is translated; what is dropped is only
 (a) output statements whose root is std::cout and timing statements, after
     checking that they contain no mutating call, and
 (b) copy/move construction (objects are pure values here).
Anything else that has no translation raises Unsupported: the function is then
NOT counted as proved.
"""
import re
from cxx import E, S, Unsupported, strip, is_mut_ref, fun_name

KEYWORDS = set("""abstract absurd alias any as assert assume at axiom begin break by check clone coinductive constant
continue diverges do done downto else end ensures epsilon exception exists export false float for forall fun function
ghost goal if import in inductive invariant label lemma let match meta module mutable not old partial predicate private
pure raise raises reads rec ref requires result return returns scope so then theory to true try type use val variant
while with writes range fst snd length empty singleton set get cons snoc mem create""".split())


def ident(n, upper="v_"):
    n = re.sub(r"[^A-Za-z0-9_']", "_", n or "anon")
    if n[0].isupper():
        n = upper + n
    if n[0].isdigit():
        n = "n" + n
    if n in KEYWORDS:
        n += "_"
    if n == "_":
        n = "_u"
    return n


def san(s):
    s = s.replace("operator", "op")
    for a, b in (("+=", "_pluseq"), ("-=", "_minuseq"), ("*=", "_muleq"), ("/=", "_diveq"), ("==", "_eq"),
                 ("!=", "_ne"), ("<=", "_le"), (">=", "_ge"), ("<<", "_shl"), ("+", "_plus"), ("-", "_minus"),
                 ("*", "_mul"), ("/", "_div"), ("[]", "_at"), ("()", "_call"), ("=", "_assign")):
        s = s.replace("op" + a, "op" + b)
    s = re.sub(r"\bop<", "op_lt", s)
    s = re.sub(r"\bop>", "op_gt", s)
    return re.sub(r"[^A-Za-z0-9_]+", "_", s).strip("_")


class Path:
    """an l-value: root WhyML variable (ref or value) and accessors"""

    def __init__(self, root, accs=(), mut=True, ty=None):
        self.root, self.accs, self.mut, self.ty = root, list(accs), mut, ty

    def ext(self, *accs):
        return Path(self.root, self.accs + list(accs), self.mut)

    def __repr__(self):
        return f"Path({self.root},{self.accs})"


class IT:
    """vector iterator: container path, integer position, reversed?"""

    def __init__(self, path, idx, rev=False, isend=False, elem=None):
        self.path, self.idx, self.rev, self.isend, self.elem = path, idx, rev, isend, elem


class MIT:
    """map iterator: container path, key, found flag"""

    def __init__(self, path, key, found, isend=False, ty=None):
        self.path, self.key, self.found, self.isend, self.ty = path, key, found, isend, ty


class B:
    """block builder"""

    def __init__(self):
        self.lines = []

    def add(self, s):
        self.lines.append(s)

    def text(self, final):
        return "\n".join(self.lines + [final])


class Module:
    """one WhyML module verifying one function (or used for lemma statements)"""

    def __init__(self, prog, contracts, mode):
        self.P = prog
        self.C = contracts          # contract database
        prog.closure_hook = lambda f: mutated(self, f, f.body)
        self.mode = mode            # {'rational': 'real'|'record', 'overflow': bool}
        self.typedecls = {}         # name -> text (ordered)
        self.preds = {}
        self.vals = {}
        self.used_funs = set()
        self.inlined = set()
        self.trusted = set()
        self.strs = {}
        self.fresh = 0

    # ---------------- types
    def fields(self, cls):
        """[(name, type)] of all non-static data members, bases first"""
        rec = self.P.records.get(cls)
        if rec is None:
            raise Unsupported(f"class {cls}")
        out = []
        for b in rec.get("bases", []):
            bt = strip(self.P.T.parse(b["type"].get("desugaredQualType") or b["type"]["qualType"]))
            if bt[0] != "cls":
                if bt[0] in ("tcls", "other"):
                    bt = self.resolve_cls(b["type"])
                else:
                    raise Unsupported("base " + str(bt))
            if bt[0] == "cls":
                out += self.fields(bt[1])
        for c in rec.get("inner", []):
            if c.get("kind") == "FieldDecl":
                out.append((c["name"], strip(self.P.T.of(c))))
        return out

    def bases_of(self, cls):
        """the class itself, then its base classes"""
        out = [cls]
        for b in (self.P.records.get(cls) or {}).get("bases", []):
            bt = strip(self.P.T.parse(b["type"].get("desugaredQualType") or b["type"]["qualType"]))
            if bt[0] in ("tcls", "other"):
                bt = self.resolve_cls(b["type"])
            if bt[0] == "cls":
                out += self.bases_of(bt[1])
        return out

    def resolve_cls(self, ty):
        q = ty.get("desugaredQualType") or ty["qualType"]
        q = q.replace("wickedns::", "")
        for c in self.P.records:
            if c == q:
                return ("cls", c)
        # template arguments spelled through type aliases
        base, _, rest = q.partition("<")
        if rest:
            from cxx import _split_args
            args = tuple(strip(self.P.T.parse(a)) for a in _split_args(rest[:-1]))
            for c in self.P.records:
                if c.startswith(base + "<") and tuple(strip(self.P.T.parse(a)) for a in _split_args(c[len(base) + 1:-1])) == args:
                    return ("cls", c)
        raise Unsupported("base class " + q)

    def cls_of_tcls(self, t):
        """template class type given by (name, args): find the specialization (allocators are not looked at)"""
        t = t[:2] + (tuple(a for a in t[2] if a[:2] != ("tcls", "allocator")),)
        for c in self.P.records:
            if c.startswith(t[1] + "<"):
                tt = self.P.T.parse(c)
                if tt[0] == "tcls" and tt[2] == t[2]:
                    return c
                from cxx import _split_args
                args = tuple(strip(self.P.T.parse(a)) for a in _split_args(c[len(t[1]) + 1:-1]) if not a.strip().startswith("std::allocator<"))
                if args == t[2]:
                    return c
        raise Unsupported(f"type {t}")

    def norm(self, t):
        t = strip(t)
        if t[0] == "tcls" and t[1] == "future":      # the value the task returns
            return self.norm(t[2][0])
        if t[0] == "tcls":
            return ("cls", self.cls_of_tcls(t))
        if t[0] == "sptr" or t[0] == "ptr":
            return self.norm(t[1])
        return t

    def newtype(self, cls):
        """classes with exactly one data member are represented by that member"""
        fs = self.fields(cls)
        return fs[0][1] if len(fs) == 1 else None

    def ty(self, t):
        t = self.norm(t)
        k = t[0]
        if k in ("int", "char", "big"):
            return "int"
        if k == "bool":
            return "bool"
        if k == "double":
            return "real"
        if k == "void":
            return "unit"
        if k == "str":
            return "str"
        if k == "vec":
            return f"(seq {self.ty(t[1])})"
        if k == "map":
            return f"(cmap {self.ty(t[1])} {self.ty(t[2])})"
        if k == "set":
            return f"(cmap {self.ty(t[1])} unit)"
        if k == "tup":
            if len(t[1]) == 2:
                return f"(pair {self.ty(t[1][0])} {self.ty(t[1][1])})"
            m = len(t[1])
            if m > 5:
                self.typedecls.setdefault(f"tup{m}", f"type tup{m} " + " ".join(f"'a{i}" for i in range(m)) + " = { " + "; ".join(f"t{m}_{i}: 'a{i}" for i in range(m)) + " }")
            return f"(tup{len(t[1])} {' '.join(self.ty(x) for x in t[1])})"
        if k == "opt":
            return f"(option {self.ty(t[1])})"
        if k == "arr":
            return f"(arr8 {self.ty(t[1])})"
        if k == "enum":
            return self.enum(t[1])
        if k == "cls":
            c = t[1]
            if c == "rational" and self.mode.get("rational", "real") == "real":
                return "real"
            if c in self.mode.get("abstract", {}):
                n = self.mode["abstract"][c]
                if n not in self.typedecls and n not in self.mode.get("theory_types", ()):
                    self.typedecls[n] = f"type {n}"
                return n
            nt = self.newtype(c)
            if nt is not None:
                return self.ty(nt)
            n = "t_" + san(c)
            if n not in self.typedecls:
                if n in self.mode.get("theory_types", ()):
                    return n
                self.typedecls[n] = None
                body = "; ".join(f"{self.fld(c, f)} : {self.ty(ft)}" for f, ft in self.fields(c) if self.keepfield(c, f, ft))
                del self.typedecls[n]
                self.typedecls[n] = f"type {n} = {{ {body} }}"
            return n
        if k == "fn":
            raise Unsupported("function object")
        raise Unsupported(f"type {t}")

    ERASED_FIELDS = {"timers_"}

    def keepfield(self, c, f, ft):
        if f in self.ERASED_FIELDS or f in self.mode.get("erase", ()):
            return False
        return True

    DUP = {"label_": None}

    def fld(self, cls, f):
        return ident(f) if f not in self.dupfields() else ident(san(cls)) + "_" + f if False else self._fld(cls, f)

    def dupfields(self):
        if not hasattr(self.P, "_dup"):
            seen = {}
            for c in self.P.records:
                try:
                    fs = self.fields(c)
                except Unsupported:
                    continue
                if len(fs) < 2:
                    continue
                own = [x.get("name") for x in self.P.records[c].get("inner", []) if x.get("kind") == "FieldDecl"]
                for f, _ in fs:
                    seen.setdefault(f, set()).add(c)
            self.P._dup = {f for f, cs in seen.items() if len(cs) > 1}
        return self.P._dup

    def _fld(self, cls, f):
        if f in self.dupfields():
            return f"{f}{san(cls)}"
        return ident(f)

    def enum(self, name):
        n = "e_" + san(name)
        if n not in self.typedecls and n not in self.mode.get("theory_types", ()):
            vals = self.P.T.enums[name]
            self.typedecls[n] = f"type {n} = " + " | ".join(self.enumc(name, v) for v in vals)
        return n

    def enumc(self, name, v):
        return san(name)[0].upper() + san(name)[1:] + "_" + v

    # ---------------- equality and order of values (C++ operator== and <)
    def eq(self, t, a, b):
        """formula: a == b in C++"""
        t = self.norm(t)
        k = t[0]
        if k in ("int", "char", "big", "bool", "str", "enum", "double"):
            return f"({a} = {b})"
        if self.logical_eq(t):
            if k in ("vec",):
                return f"({a} == {b})"
            return f"({a} = {b})"
        if k == "cls":
            n = self.C.type_pred(t[1], "eq")
            if n:
                return f"({n} {a} {b})"
            raise Unsupported(f"no eq predicate for {t[1]}")
        n = "eq_" + self.tyname(t)
        if n not in self.preds:
            T = self.ty(t)
            if k == "vec":
                self.preds[n] = None
                f = self.eq(t[1], "a[i]", "b[i]")
                del self.preds[n]
                self.preds[n] = f"predicate {n} (a b: {T}) = length a = length b /\\ forall i. 0 <= i < length a -> {f}"
            elif k == "tup":
                fs = [self.eq(x, self.tget("a", i, len(t[1])), self.tget("b", i, len(t[1]))) for i, x in enumerate(t[1])]
                self.preds[n] = f"predicate {n} (a b: {T}) = " + " /\\ ".join(fs)
            else:
                raise Unsupported(f"== on {t}")
        return f"({n} {a} {b})"

    def logical_eq(self, t):
        t = self.norm(t)
        k = t[0]
        if k in ("int", "char", "big", "bool", "str", "enum", "double"):
            return True
        if k in ("vec", "arr", "opt", "set"):
            return self.logical_eq(t[1])
        if k == "map":
            return self.logical_eq(t[1]) and self.logical_eq(t[2])
        if k == "tup":
            return all(self.logical_eq(x) for x in t[1])
        if k == "cls":
            if t[1] == "rational" and self.mode.get("rational", "real") == "real":
                return True
            if t[1] in self.mode.get("abstract", {}):
                return True
            return self.C.type_pred(t[1], "eq") == "logical"
        return False

    def lt(self, t, a, b):
        t = self.norm(t)
        k = t[0]
        if k in ("int", "char", "big"):
            return f"({a} < {b})"
        if k == "bool":
            return f"(not {a} /\\ {b})"
        if k == "str":
            return f"(str_lt {a} {b})"
        if k == "enum":
            n = "lt_" + self.enum(t[1])
            if n not in self.preds and n not in self.mode.get("theory_preds", ()):
                vals = self.P.T.enums[t[1]]
                f = "function ord_" + self.enum(t[1]) + f" (a: {self.enum(t[1])}) : int = match a with " + \
                    " | ".join(f"{self.enumc(t[1], v)} -> {i}" for i, v in enumerate(vals)) + " end\n"
                self.preds[n] = f + f"predicate {n} (a b: {self.enum(t[1])}) = ord_{self.enum(t[1])} a < ord_{self.enum(t[1])} b"
            return f"({n} {a} {b})"
        if k == "cls":
            n = self.C.type_pred(t[1], "lt")
            if n:
                return f"({n} {a} {b})"
            raise Unsupported(f"no lt predicate for {t[1]}")
        n = "lt_" + self.tyname(t)
        if n not in self.preds and n not in self.mode.get("theory_preds", ()):
            T = self.ty(t)
            if k == "tup":
                m = len(t[1])
                f = None
                for i in reversed(range(m)):
                    x, y = self.tget("a", i, m), self.tget("b", i, m)
                    l = self.lt(t[1][i], x, y)
                    if f is None:
                        f = l
                    else:
                        f = f"({l} \\/ (not {self.lt(t[1][i], y, x)} /\\ {f}))"
                self.preds[n] = f"predicate {n} (a b: {T}) = {f}"
            elif k == "vec":
                l1 = self.lt(t[1], "a[i]", "b[i]")
                l2 = self.lt(t[1], "b[i]", "a[i]")
                l3 = self.lt(t[1], "a[k]", "b[k]")
                self.preds[n] = (f"predicate {n} (a b: {T}) = exists k. 0 <= k <= length a /\\ k <= length b /\\ "
                                 f"(forall i. 0 <= i < k -> not {l1} /\\ not {l2}) /\\ "
                                 f"((k = length a /\\ k < length b) \\/ (k < length a /\\ k < length b /\\ {l3}))")
            elif k == "arr":
                n8 = int(t[2])
                l1 = self.lt(t[1], "(aget a i)", "(aget b i)")
                l2 = self.lt(t[1], "(aget b i)", "(aget a i)")
                l3 = self.lt(t[1], "(aget a k)", "(aget b k)")
                self.preds[n] = (f"predicate {n} (a b: {T}) = exists k. 0 <= k < {n8} /\\ "
                                 f"(forall i. 0 <= i < k -> not {l1} /\\ not {l2}) /\\ {l3}")
            else:
                raise Unsupported(f"< on {t}")
        return f"({n} {a} {b})"

    def tyname(self, t):
        t = self.norm(t)
        if t[0] == "tup":
            return "tup_" + "_".join(self.tyname(x) for x in t[1])
        if t[0] in ("vec", "opt", "arr", "set"):
            return t[0] + "_" + self.tyname(t[1])
        if t[0] == "map":
            return "map_" + self.tyname(t[1]) + "_" + self.tyname(t[2])
        if t[0] in ("cls", "enum"):
            return san(t[1])
        return t[0]

    def tget(self, a, i, n):
        if n == 2:
            return f"{a}.{'fst' if i == 0 else 'snd'}"
        return f"{a}.t{n}_{i}"

    def tfield(self, i, n):
        if n == 2:
            return "fst" if i == 0 else "snd"
        return f"t{n}_{i}"

    def strlit(self, v):
        if v not in self.strs:
            self.strs[v] = f"str_lit_{len(self.strs)}"
        return self.strs[v]

    # ---------------- text
    def prelude_text(self):
        out = []
        for n, s in self.strs.items():
            out.append(f"val constant {s} : str  (* {n.replace('*', '.')} *)")
        l = list(self.strs.items())
        if len(l) > 1:
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    if l[i][0] != l[j][0]:
                        out.append(f"axiom {l[i][1]}_{l[j][1]}_distinct : {l[i][1]} <> {l[j][1]}")
        return out


# =====================================================================
ASSIGN_OPS = {"+=", "-=", "*=", "/="}
MUT_METHODS = {"push_back", "emplace_back", "clear", "insert", "erase", "pop_back", "resize", "operator=",
               "assign", "swap", "emplace"}
DROP_STREAMS = {"cout", "cerr", "clog"}


def walk_e(x):
    """all E and S nodes below x"""
    if x is None:
        return
    yield x
    if isinstance(x, (E, S)):
        for c in x.a:
            if isinstance(c, (E, S)):
                yield from walk_e(c)
        if isinstance(x, E) and x.op == "lambda":
            yield from walk_e(x.x["body"])


def root_of(e):
    """variable id (or 'this') an l-value expression is rooted in, or None"""
    while True:
        if e.op == "var":
            return e.x["id"]
        if e.op == "this":
            return "this"
        if e.op in ("field", "upcast", "downcast", "deref", "idx", "addr", "icast", "cast"):
            e = e.a[0]
            continue
        if e.op == "call" and e.a:
            if e.x["kind"] == "method" or e.x["name"] in ("operator[]", "operator*", "operator->", "get", "next", "prev", "operator+", "operator-", "operator++"):
                e = e.a[0]
                continue
            if e.x["name"] in ("begin", "end", "move", "forward", "find", "find_if"):
                e = e.a[0]
                continue
            return None
        if e.op == "ctor" and len(e.a) == 1:
            e = e.a[0]
            continue
        return None


def is_iter_ty(t):
    t = strip(t)
    return t[0] in ("iter", "riter") or (t[0] == "other" and "iterator" in str(t[1]))


def reseated(body):
    """ids of variables that are themselves assigned, incremented or decremented (iterators made to point elsewhere)"""
    out = set()
    for n in walk_e(body):
        if isinstance(n, E) and n.a:
            if n.op in ("assign", "opassign", "incdec") and n.a[0].op == "var":
                out.add(n.a[0].x["id"])
            if n.op == "call" and n.x.get("key") is None and n.x["name"] in ("operator=", "operator++", "operator--", "operator+=", "operator-=", "advance") and n.a[0].op == "var":
                out.add(n.a[0].x["id"])
    return out


def mutated(M, fun, body, aliases=None):
    """ids of variables (and 'this') whose content may change in `body`"""
    mut = set()
    alias = {} if aliases is None else aliases

    def mark(e):
        r = root_of(e)
        if r is not None:
            mut.add(r)

    for n in walk_e(body):
        if isinstance(n, S):
            if n.op == "decl" and n.a[0] is not None and n.x["ty"][0] in ("ref",) and is_mut_ref(n.x["ty"]):
                r = root_of(n.a[0])
                if r:
                    alias.setdefault(n.x["vid"], set()).add(r)
            elif n.op == "decl" and n.a[0] is not None and is_iter_ty(n.x["ty"]):
                r = root_of(n.a[0])
                if r:
                    alias.setdefault(n.x["vid"], set()).add(r)
            elif n.op == "decomp" and n.a[0] is not None and is_mut_ref(n.x["ty"]):
                r = root_of(n.a[0])
                if r:
                    for ids, _, _ in n.x["binds"]:
                        for i in ids:
                            alias.setdefault(i, set()).add(r)
            elif n.op == "forrange":
                d = n.a[0]
                r = root_of(n.a[1])
                if n.a[1].op == "call" and n.a[1].x["name"] == "enumerate":
                    r = root_of(n.a[1].a[0])
                if r:
                    if d.op == "decl" and is_mut_ref(d.x["ty"]):
                        alias.setdefault(d.x["vid"], set()).add(r)
                    if d.op == "decomp" and (is_mut_ref(d.x["ty"]) or n.a[1].op == "call" and n.a[1].x["name"] == "enumerate"):
                        for ids, _, _ in d.x["binds"]:
                            for i in ids:
                                alias.setdefault(i, set()).add(r)
            continue
        if n.op in ("assign", "opassign", "incdec"):
            mark(n.a[0])
        elif n.op == "call":
            nm, key = n.x["name"], n.x.get("key")
            if key is not None and key in M.P.funs:
                f = M.P.fun(key)
                args = n.a
                if n.x["kind"] == "method" and not f.static:
                    if not f.const and f.kind == "CXXMethodDecl" and not M.is_accessor(f):
                        mark(args[0])
                    args = args[1:]
                for (pid, pn, pt), a in zip(f.params, args):
                    if is_mut_ref(pt) or (pt[0] == "ptr" and pt[1][0] != "const"):
                        mark(a)
            else:
                if n.x["kind"] == "method" and (nm in MUT_METHODS or nm[8:] in ASSIGN_OPS or nm in ("operator=", "operator++", "operator--")):
                    mark(n.a[0])
                if nm in ("operator[]",) and n.a and M.safe_norm(n.a[0].ty)[0] == "map":
                    mark(n.a[0])   # inserts a default value
                if n.x["kind"] == "fun" and nm in ("sort", "reverse", "swap", "iota", "next_permutation", "transform", "fill", "stable_sort", "partial_sort", "rotate", "copy", "iter_swap"):
                    for a in n.a:
                        mark(a)
                if n.x["kind"] == "fun" and nm.startswith("operator") and nm[8:] in ASSIGN_OPS and n.a:
                    mark(n.a[0])
    # close under aliases
    ch = True
    while ch:
        ch = False
        for v, rs in alias.items():
            if v in mut:
                for r in rs:
                    if r not in mut:
                        mut.add(r)
                        ch = True
    return mut


def has_ret(s):
    return any(isinstance(n, S) and n.op == "return" for n in walk_s(s))


def walk_s(s):
    """statements below s, not entering lambdas"""
    if not isinstance(s, S):
        return
    yield s
    for c in s.a:
        if isinstance(c, S):
            yield from walk_s(c)


def loop_has(s, op):
    """break/continue belonging to the loop whose body is s"""
    if not isinstance(s, S):
        return False
    if s.op == op:
        return True
    if s.op in ("for", "forrange", "while", "do"):
        return False
    return any(loop_has(c, op) for c in s.a if isinstance(c, S))


def flat(s):
    """list of statements with DeclStmt groups spliced"""
    out = []
    for c in (s.a if s.op == "block" else [s]):
        if c.op == "block" and c.x.get("flat"):
            out += flat(c)
        elif c.op == "nop":
            pass
        else:
            out.append(c)
    return out


def _is_accessor(self, f):
    if getattr(f, "_acc", None) is not None:
        return f._acc
    r = False
    st = flat(f.body)
    if len(st) == 1 and st[0].op == "return" and st[0].a[0] is not None and not self.C.find(f.key):
        e = st[0].a[0]
        if f.ret[0] in ("ref", "rref") and root_of(e) is not None:
            r = True
    f._acc = r
    return r


def _safe_norm(self, t):
    try:
        return self.norm(t)
    except Unsupported:
        return strip(t)


Module.is_accessor = _is_accessor
Module.safe_norm = _safe_norm


class FunEmit:
    MAXINLINE = 12

    def __init__(self, M, fun, contract, rename=None):
        self.M, self.f, self.c = M, fun, contract
        self.env = {}
        self.this = None
        self.tmp = 0
        self.nloop = 0
        self.logic = False
        self.rdlogic = False
        self.depth = 0
        self.stack = [fun.key]
        self.names = set()
        self.locals = []          # (name, whytype, scope loop path)
        self.rename = rename or {}
        self.loops = []
        self.canaries = 0
        self.overflow = bool(contract and contract.overflow)
        self.mutset = set()
        self.raises = False
        self.diverges = False
        self.exc = 0
        self.loopvars = {}

    # ------------------------------------------------------------ helpers
    def fresh(self, base="t"):
        self.tmp += 1
        return f"{base}'{self.tmp}" if False else f"{base}_{self.tmp}_"

    def bindname(self, name):
        n = ident(name)
        if self.depth > 0 and n in self.names:
            n = f"{n}_i{self.depth}_{self.tmp}"
            self.tmp += 1
        self.names.add(n)
        return n

    def let(self, b, rhs, base="t"):
        """bind an arbitrary expression to a fresh constant unless it is atomic"""
        if re.fullmatch(r"-?\w+|\(- \d+\)", rhs):
            return rhs if not rhs.startswith("-") else f"({rhs})"
        if self.logic:
            return rhs
        n = self.fresh(base)
        b.add(f"let {n} = {rhs} in")
        return n

    def ty(self, t):
        return self.M.ty(t)

    # ------------------------------------------------------------ paths
    def read(self, p):
        t = p.root
        for a in p.accs:
            t = self.read1(t, a)
        return t

    def read1(self, t, a):
        if a[0] == "f":
            return f"{t}.{a[1]}"
        if a[0] == "i":
            if self.logic or self.rdlogic:
                return f"{t}[{a[1]}]" if not t.startswith("{") else f"({t})[{a[1]}]"
            return f"(vget {t} {a[1]})"
        if a[0] == "a":
            return f"(aget {t} {a[1]})"
        if a[0] == "m":
            return f"(cget {t} {a[1]})"
        if a[0] == "o":
            return f"(opt_get {t})"
        raise Unsupported("acc")

    def upd(self, t, accs, v):
        if not accs:
            return v
        a = accs[0]
        inner = self.upd(self.read1(t, a), accs[1:], v)
        if a[0] == "f":
            return f"{{ {t} with {a[1]} = {inner} }}"
        if a[0] == "i":
            return f"(vset {t} {a[1]} {inner})"
        if a[0] == "a":
            return f"(aset {t} {a[1]} {inner})"
        if a[0] == "m":
            return f"(cset {t} {a[1]} {inner})"
        raise Unsupported("update")

    def write(self, b, p, v):
        if not p.mut:
            raise Unsupported(f"write to immutable {p}")
        if self.logic:
            raise Unsupported("assignment in logic")
        if not p.accs:
            b.add(f"{p.root} <- {v};")
        else:
            b.add(f"{p.root} <- {self.upd(p.root, p.accs, v)};")

    def isbuiltin_container(self, t):
        return self.M.safe_norm(t)[0] in ("vec", "map", "str", "arr", "opt", "set")

    def path(self, e, b, forwrite=False):
        """l-value expression -> Path, or None if e is not an l-value"""
        if e.op == "var":
            bd = self.env.get(e.x["id"])
            if bd is None:
                if e.x["name"] == "orbital_subspaces":
                    return Path("osi", [], False)
                g = self.global_var(e)
                return g
            if isinstance(bd, Path):
                return bd
            return None
        if e.op == "this":
            if self.this is None:
                raise Unsupported("this")
            return self.this
        if e.op == "addr":
            return self.path(e.a[0], b)
        if e.op in ("upcast", "downcast"):
            return self.path(e.a[0], b)
        if e.op == "deref":
            it = self.iter(e.a[0], b)
            if isinstance(it, IT):
                return self.it_path(it)
            return self.path(e.a[0], b)
        if e.op == "field":
            base = e.a[0]
            bt = self.M.norm(base.ty)
            if base.op == "call" and base.x["name"] == "operator->" or (bt[0] == "iter"):
                src = base.a[0] if base.op == "call" else base
                it = self.iter(src, b)
                if isinstance(it, MIT):
                    if it.found is not None and it.found != "true" and not self.logic:
                        b.add(f"assert {{ [@expl:iterator dereferenced only when found] {it.found} = true }};")
                    if e.x["name"] == "second":
                        return it.path.ext(("m", it.key))
                    return Path(it.key, [], False)
                if isinstance(it, IT):
                    p = self.it_path(it)
                    return self.fieldacc(p, it.elem, e)
            p = self.path(base, b)
            if p is None:
                v = self.let(b, self.ex(base, b))
                p = Path(v, [], False)
            return self.fieldacc(p, bt, e)
        if e.op == "idx":
            p = self.path(e.a[0], b)
            if p is None:
                return None
            i = self.let(b, self.ex(e.a[1], b))
            return p.ext(("i", i))
        if e.op == "call":
            nm = e.x["name"]
            key = e.x.get("key")
            if nm == "operator[]" and key is None or nm == "at" and key is None:
                t = self.M.norm(e.a[0].ty)
                p = self.path(e.a[0], b)
                if p is None:
                    v = self.let(b, self.ex(e.a[0], b))
                    p = Path(v, [], False)
                i = self.let(b, self.ex(e.a[1], b), "i")
                if t[0] == "vec":
                    return p.ext(("i", i))
                if t[0] == "arr":
                    return p.ext(("a", i))
                if t[0] == "str":
                    return None
                if t[0] == "map":
                    q = p.ext(("m", i))
                    if not forwrite and nm == "operator[]":
                        d = self.default(t[2], b)
                        b.add(f"if not (cmem {self.read(p)} {i}) then begin")
                        self.write(b, q, d)
                        b.add("() end;")
                    return q
                raise Unsupported(f"[] on {t}")
            if nm == "operator*" and key is None and len(e.a) == 1:
                t = self.M.safe_norm(e.a[0].ty)
                if t[0] == "opt":
                    p = self.path(e.a[0], b)
                    return p.ext(("o",)) if p else None
                it = self.iter(e.a[0], b)
                if isinstance(it, IT):
                    return self.it_path(it)
                return None
            if nm == "operator->" and key is None:
                return self.path(e.a[0], b)
            if nm == "get" and key is None and e.x["kind"] == "fun":
                p = self.path(e.a[0], b)
                if p is None:
                    return None
                t = self.M.norm(e.a[0].ty)
                i = self.tuple_index(e, t)
                return p.ext(("f", self.M.tfield(i, len(t[1]))))
            if nm in ("back", "front") and key is None:
                p = self.path(e.a[0], b)
                if p is None:
                    v = self.let(b, self.ex(e.a[0], b))
                    p = Path(v, [], False)
                if nm == "front":
                    return p.ext(("i", "0"))
                i = self.let(b, f"(length {self.read(p)} - 1)", "i")
                return p.ext(("i", i))
            if nm in ("move", "forward") and key is None:
                return self.path(e.a[0], b)
            if key is not None and key in self.M.P.funs:
                f = self.M.P.fun(key)
                if self.M.is_accessor(f):
                    return self.inline_path(f, e, b)
            return None
        if e.op == "ctor" and len(e.a) == 1 and self.same(e.ty, e.a[0].ty):
            return None
        return None

    def same(self, a, b):
        try:
            return self.M.norm(a) == self.M.norm(b)
        except Unsupported:
            return False

    def tuple_index(self, e, t):
        """std::get<I>: the index is recovered from the template argument of the resolved overload"""
        i = e.x.get("tidx")
        if i is not None:
            return i
        n = self.M.P.byid.get(e.x.get("id"))
        raise Unsupported("std::get index")

    def fieldacc(self, p, bt, e):
        bt = self.M.norm(bt)
        nm = e.x["name"]
        if bt[0] == "tup":
            i = {"first": 0, "second": 1}[nm]
            return p.ext(("f", self.M.tfield(i, len(bt[1]))))
        if bt[0] == "cls":
            if self.M.newtype(bt[1]) is not None and bt[1] not in self.M.mode.get("abstract", {}):
                return p
            if bt[1] == "rational" and self.M.mode.get("rational", "real") == "real":
                raise Unsupported("representation of rational")
            self.ty(bt)
            owner = self.owner(bt[1], nm)
            return p.ext(("f", self.M._fld(bt[1], nm)))
        raise Unsupported(f"field {nm} of {bt}")

    def owner(self, cls, f):
        return cls

    def it_path(self, it):
        if it.rev:
            return it.path.ext(("i", f"(length {self.read(it.path)} - 1 - {it.idx})"))
        return it.path.ext(("i", it.idx))

    def reseated(self):
        out = set()
        for k in self.stack:
            out |= reseated(self.M.P.fun(k).body)
        return out

    def const_global(self, e):
        """the registry object, in profiles where it is a constant during the call"""
        return e.x.get("name") == "orbital_subspaces" and "val constant osi" in getattr(self.M.C, "pre", "")

    def global_var(self, e):
        n = self.M.P.vars.get(e.x["name"])
        if n is None:
            return None
        # constant with an initializer: translate the initializer
        inner = [c for c in n.get("inner", []) if c.get("kind") and not c["kind"].endswith(("Comment", "Attr"))]
        if inner and (n.get("type", {}).get("qualType", "").startswith("const ") or n.get("constexpr") or "lambda" in n.get("type", {}).get("qualType", "")):
            return None
        return None

    # ------------------------------------------------------------ iterators
    def iter(self, e, b):
        if e.op == "var":
            bd = self.env.get(e.x["id"])
            if isinstance(bd, (IT, MIT)):
                return bd
            return None
        if e.op == "ctor" and len(e.a) == 1:
            return self.iter(e.a[0], b)
        if e.op == "addr":
            return None
        if e.op == "call" and e.x.get("key") is None:
            nm = e.x["name"]
            if nm in ("begin", "end", "rbegin", "rend", "cbegin", "cend"):
                c = e.a[0]
                t = self.M.norm(c.ty)
                p = self.path(c, b)
                if p is None:
                    v = self.let(b, self.ex(c, b))
                    p = Path(v, [], False)
                if t[0] == "map":
                    return MIT(p, None, None, isend=nm.endswith("end"), ty=t)
                if t[0] != "vec":
                    raise Unsupported(f"iterator of {t}")
                rev = nm.startswith("r")
                if nm.endswith("end"):
                    return IT(p, f"(length {self.read(p)})", rev, True, t[1])
                return IT(p, "0", rev, False, t[1])
            if nm == "find" and e.x["kind"] == "method":
                t = self.M.norm(e.a[0].ty)
                if t[0] != "map":
                    raise Unsupported("find")
                p = self.path(e.a[0], b)
                if p is None:
                    p = Path(self.let(b, self.ex(e.a[0], b)), [], False)
                k = self.let(b, self.ex(e.a[1], b), "key")
                f = self.let(b, f"(cmem {self.read(p)} {k})", "found")
                return MIT(p, k, f, ty=t)
            if nm in ("operator+", "operator-") and len(e.a) == 2:
                it = self.iter(e.a[0], b)
                if isinstance(it, IT):
                    d = self.ex(e.a[1], b)
                    i = self.let(b, f"({it.idx} {nm[-1]} {d})", "i")
                    return IT(it.path, i, it.rev, False, it.elem)
            if nm in ("next", "prev"):
                it = self.iter(e.a[0], b)
                if isinstance(it, IT):
                    d = self.ex(e.a[1], b) if len(e.a) > 1 and e.a[1].op != "defaultarg" else "1"
                    i = self.let(b, f"({it.idx} {'+' if nm == 'next' else '-'} {d})", "i")
                    return IT(it.path, i, it.rev, False, it.elem)
            if nm == "adjacent_find":
                i1, i2 = self.iter(e.a[0], b), self.iter(e.a[1], b)
                self.whole(i1, i2)
                pred = self.pred2(e.a[2] if len(e.a) > 2 else None, i1.elem, "eq")
                s = self.let(b, self.read(i1.path), "s")
                i = self.anyval(b, "int", f"0 <= result <= length {s} /\\ (result < length {s} -> result + 1 < length {s} /\\ "
                                f"{pred(s + '[result]', s + '[result+1]')}) /\\ (forall k_ j_. 0 <= k_ < result -> j_ = k_ + 1 -> j_ < length {s} -> "
                                f"not {pred(s + '[k_]', s + '[j_]')})", "std::adjacent_find", [(s, self.ty(("vec", i1.elem)))])
                return IT(i1.path, i, False, False, i1.elem)
            if nm in ("find", "find_if") and e.x["kind"] == "fun":
                i1, i2 = self.iter(e.a[0], b), self.iter(e.a[1], b)
                self.whole(i1, i2)
                s = self.let(b, self.read(i1.path), "s")
                if nm == "find":
                    v = self.let(b, self.ex(e.a[2], b), "v")
                    pr = lambda x: self.M.eq(i1.elem, x, v)
                    extra = [(v, self.ty(e.a[2].ty))]
                else:
                    lam = self.lam(e.a[2])
                    pr = lambda x: self.lam_formula(lam, [x])
                    extra = []
                i = self.anyval(b, "int", f"0 <= result <= length {s} /\\ (result < length {s} -> {pr(s + '[result]')}) /\\ "
                                f"(forall k_. 0 <= k_ < result -> not {pr(s + '[k_]')})", "std::" + nm,
                                [(s, self.ty(("vec", i1.elem)))] + extra)
                return IT(i1.path, i, False, False, i1.elem)
        if e.op == "call" and e.x.get("key") in self.M.P.funs:
            f = self.M.P.fun(e.x["key"])
            st = flat(f.body)
            if len(st) == 1 and st[0].op == "return" and (self.M.safe_norm(f.ret)[0] in ("iter", "riter") or "iterator" in str(strip(f.ret)[1])):
                saved = self.enter(f, e, b)
                r = self.iter(st[0].a[0], b)
                self.leave(saved)
                return r
        return None

    def whole(self, i1, i2):
        if not (isinstance(i1, IT) and isinstance(i2, IT) and i1.idx == "0" and i2.isend and i1.path.root == i2.path.root
                and i1.path.accs == i2.path.accs and i1.rev == i2.rev):
            raise Unsupported("partial iterator range")

    def anyval(self, b, ty, post, what, params):
        """a trusted specification of a standard-library function"""
        self.M.trusted.add(what)
        caps = self.captures(post, [p for p, _ in params])
        ps = list(params) + caps
        n = f"std_{len(self.M.vals)}_" + san(what)
        sig = " ".join(f"({p}: {t})" for p, t in ps) or "(_u: unit)"
        self.M.vals[n] = f"val {n} {sig} : {ty}\n  ensures {{ {post} }}"
        return self.let(b, f"({n} {' '.join(p for p, _ in ps) or '()'})", "i")

    def captures(self, post, have):
        """WhyML variables of the current scope that occur in a formula"""
        out = []
        for w in sorted(set(re.findall(r"[a-z_][\w']*", post))):
            if w in have or w not in self.scope_types():
                continue
            out.append((w, self.scope_types()[w]))
        return out

    def scope_types(self):
        return self._scope

    # ------------------------------------------------------------ predicates from lambdas
    def lam(self, e):
        if e.op == "lambda":
            return e
        if e.op == "var":
            bd = self.env.get(e.x["id"])
            if isinstance(bd, tuple) and bd[0] == "lam":
                return bd[1]
            # global lambda constant
            n = self.M.P.vars.get(e.x["name"])
            if n is not None:
                from cxx import Lower
                inner = [c for c in n.get("inner", []) if c.get("kind") and not c["kind"].endswith(("Comment", "Attr"))]
                if inner:
                    le = Lower(self.M.P).ex(inner[0])
                    while le.op in ("ctor", "cast") and len(le.a) == 1:
                        le = le.a[0]
                    if le.op == "lambda":
                        return le
        if e.op in ("ctor", "cast") and len(e.a) == 1:
            return self.lam(e.a[0])
        raise Unsupported("function object")

    def pred2(self, e, elem, default):
        if e is None or e.op == "defaultarg":
            return (lambda x, y: self.M.eq(elem, x, y)) if default == "eq" else (lambda x, y: self.M.lt(elem, x, y))
        if e.op == "fref" and e.x.get("id") in self.M.P.id2key:
            key = self.M.P.id2key[e.x["id"]]

            def fp(x, y):
                sub = E("call", [], ("bool",), key=key, name=fun_name(key), kind="fun", id=e.x["id"])
                return self.logic_call(key, [x, y])
            return fp
        lam = self.lam(e)
        return lambda x, y: self.lam_formula(lam, [x, y])

    def lam_formula(self, lam, args):
        saved = dict(self.env)
        sl = self.logic
        self.logic = True
        try:
            for (pid, pn, pt), a in zip(lam.x["params"], args):
                self.env[pid] = Path(a, [], False)
            st = flat(lam.x["body"])
            return self.logic_stmts(st)
        finally:
            self.env = saved
            self.logic = sl

    def logic_stmts(self, st):
        """body of a pure function as a formula/term: returns, if/else, const decls"""
        if not st:
            raise Unsupported("lambda body")
        s = st[0]
        bb = B()
        if s.op == "return":
            r = self.ex(s.a[0], bb)
            if bb.lines:
                raise Unsupported("effect in logic")
            return f"({r})"
        if s.op == "decl":
            v = self.ex(s.a[0], bb)
            if bb.lines:
                raise Unsupported("effect in logic")
            self.env[s.x["vid"]] = Path(f"({v})", [], False)
            return self.logic_stmts(st[1:])
        if s.op == "if":
            c = self.ex(s.a[0], bb)
            t = self.logic_stmts(flat(s.a[1]))
            e = self.logic_stmts(flat(s.a[2])) if s.a[2].op != "nop" else self.logic_stmts(st[1:])
            if bb.lines:
                raise Unsupported("effect in logic")
            return f"(if {c} then {t} else {e})"
        raise Unsupported("lambda body")

    def logic_call(self, key, args):
        c = self.M.C.find(key)
        if c is not None:
            if c.pure is None:
                raise Unsupported(f"call of {key} in logic")
            self.M.used_funs.add(key)
            lets = "".join(f"let {p} = {a} in " for p, a in zip(c.params, args))
            return f"({lets}{c.pure})"
        f = self.M.P.fun(key)
        if key in self.stack:
            raise Unsupported("recursion in logic")
        self.stack.append(key)
        saved, st = dict(self.env), self.this
        try:
            al = list(args)
            if f.cls and not f.static and f.kind == "CXXMethodDecl":
                self.this = Path(al.pop(0), [], False)
            for (pid, pn, pt), a in zip(f.params, al):
                self.env[pid] = Path(a, [], False)
            return self.logic_stmts(flat(f.body))
        finally:
            self.stack.pop()
            self.env, self.this = saved, st

    # ------------------------------------------------------------ inlining
    def enter(self, f, e, b):
        """bind `this` and parameters of f for an inlined call e; returns saved state"""
        if f.key in self.stack or len(self.stack) > self.MAXINLINE:
            raise Unsupported(f"recursive call of {f.key} without contract")
        args = list(e.a)
        saved = (self.this, dict(self.env), list(self.stack), self.depth)
        newthis = self.this
        if f.cls and not f.static and f.kind == "CXXMethodDecl":
            r = args.pop(0)
            p = self.path(r, b)
            if p is None:
                p = Path(self.let(b, self.ex(r, b)), [], False)
            newthis = p
        binds = []
        mut = mutated(self.M, f, f.body)
        for i, (pid, pn, pt) in enumerate(f.params):
            if i >= len(args):
                raise Unsupported("default argument")
            a = args[i]
            if a.op == "defaultarg":
                raise Unsupported("default argument")
            if self.M.safe_norm(pt)[0] == "fn" or a.op == "lambda" or self.M.safe_norm(pt)[0] == "lam":
                binds.append((pid, ("lam", self.lam(a))))
                continue
            if self.M.safe_norm(pt)[0] in ("iter", "riter"):
                binds.append((pid, self.iter(a, b)))
                continue
            if is_mut_ref(pt) or pt[0] == "ptr":
                p = self.path(a, b)
                if p is None:
                    raise Unsupported("non-const reference to a temporary")
                binds.append((pid, p))
            else:
                if pt[0] == "ref":
                    p = self.path(a, b)
                    if p is not None:
                        binds.append((pid, p))
                        continue
                v = self.ex(a, b)
                if pid in mut:
                    n = self.fresh(ident(pn))
                    b.add(f"let ref {n} = {v} in")
                    self.declare(n, pt)
                    binds.append((pid, Path(n, [], True)))
                else:
                    binds.append((pid, Path(self.let(b, v, ident(pn)), [], False)))
        self.this = newthis
        for pid, v in binds:
            self.env[pid] = v
        self.stack.append(f.key)
        self.depth += 1
        self.M.inlined.add(f.key)
        return saved

    def leave(self, saved):
        this, env, stack, depth = saved
        self.this = this
        self.stack = stack
        self.depth = depth
        # keep bindings of the caller
        self.env = env

    def inline_path(self, f, e, b):
        st = flat(f.body)
        saved = self.enter(f, e, b)
        try:
            p = self.path(st[0].a[0], b)
        finally:
            self.leave(saved)
        return p

    def inline_call(self, f, e, b):
        st = flat(f.body)
        saved = self.enter(f, e, b)
        try:
            if f.kind == "CXXConstructorDecl":
                raise Unsupported("constructor")
            if st and st[-1].op == "return" and not any(has_ret(s) for s in st[:-1]):
                # straight-line: splice statements into the current block
                for s in st[:-1]:
                    self.stmt(s, b, ("none",))
                r = st[-1].a[0]
                if r is None:
                    return "()"
                if f.ret[0] == "ref" and not f.ret[2] and r.op == "deref" and r.a[0].op == "this":
                    return self.read(self.this)
                return self.let(b, self.ex(r, b), "r")
            if not any(has_ret(s) for s in st):
                for s in st:
                    self.stmt(s, b, ("none",))
                return "()"
            # general case
            self.exc += 1
            exc = f"Ret{self.exc}"
            rt = self.ty(f.ret)
            txt = self.block(st, tail=True, ret=("inl", exc))
            if f"raise ({exc}" in txt:
                txt = f"(begin exception {exc} {rt} in try\n{txt}\nwith {exc} r_ -> r_ end end)"
            else:
                txt = f"(begin\n{txt}\nend)"
            return self.let(b, txt, "r") if rt != "unit" else (b.add(txt + ";") or "()")
        finally:
            self.leave(saved)

    def declare(self, name, t):
        try:
            w = self.ty(t)
        except Unsupported:
            return
        self._scope[name] = w
        if not re.search(r"_\d+_$", name):
            self.locals.append((name, w))

    # ------------------------------------------------------------ expressions
    def sub(self, e):
        """expression in its own builder -> text usable anywhere"""
        bb = B()
        r = self.ex(e, bb)
        if bb.lines:
            return "(begin\n" + bb.text(r) + "\nend)"
        return r

    def isbool(self, t):
        return self.M.safe_norm(t)[0] == "bool"

    def arith(self, b, op, x, y, ty):
        t = self.M.safe_norm(ty)
        kind = t[1] if t[0] == "int" else None
        if op in ("/", "%"):
            if not self.logic:
                if re.fullmatch(r"[1-9]\d*", y):
                    pass
                else:
                    b.add(f"assert {{ [@expl:division by zero] {y} <> 0 }};")
            return f"({'div' if op == '/' else 'mod'} {x} {y})"
        r = f"({x} {op} {y})"
        if op == "*" and "IMul" in self.M.C.uses and kind is not None:
            r = f"(imul {x} {y})"      # product of integers known through its laws only (module IMul)
        if self.logic:
            return r
        if kind == "u64" or kind == "u32":
            if op == "-":
                b.add(f"assert {{ [@expl:unsigned subtraction does not wrap] {x} >= {y} }};")
        if self.overflow and kind in ("i32", "i64", "u64"):
            r = self.let(b, r, "a")
            lo, hi = {"i32": ("-0x80000000", "0x7fffffff"), "i64": ("-0x8000000000000000", "0x7fffffffffffffff"),
                      "u64": ("0", "0xffffffffffffffff")}[kind]
            b.add(f"assert {{ [@expl:no {kind} overflow] ({lo}) <= {r} <= {hi} }};")
        return r

    def ex(self, e, b):
        op = e.op
        m = getattr(self, "ex_" + op, None)
        if m is None:
            raise Unsupported("expression " + op)
        return m(e, b)

    def ex_lit(self, e, b):
        v = e.x["v"]
        if isinstance(v, bool):
            return "true" if v else "false"
        return str(v) if v >= 0 else f"(- {-v})"

    def ex_str(self, e, b):
        return self.M.strlit(e.x["v"])

    def ex_enumc(self, e, b):
        t = self.M.norm(e.ty)
        self.ty(t)
        return self.M.enumc(t[1], e.x["v"])

    def ex_var(self, e, b):
        p = self.path(e, b)
        if p is not None:
            return self.read(p)
        # global constants
        n = self.M.P.vars.get(e.x["name"])
        if n is not None and e.x["id"] not in self.env:
            from cxx import Lower
            inner = [c for c in n.get("inner", []) if c.get("kind") and not c["kind"].endswith(("Comment", "Attr"))]
            q = n.get("type", {}).get("qualType", "")
            if inner and (q.startswith("const ") or n.get("constexpr")):
                return self.ex(Lower(self.M.P).ex(inner[0]), b)
        raise Unsupported(f"variable {e.x['name']}")

    def ex_this(self, e, b):
        return self.read(self.path(e, b))

    def ex_lv(self, e, b):
        p = self.path(e, b)
        if p is None:
            raise Unsupported("l-value " + e.op)
        return self.read(p)

    ex_field = ex_idx = ex_lv

    def ex_deref(self, e, b):
        p = self.path(e, b)
        if p is None:
            return self.ex(e.a[0], b)
        return self.read(p)

    def ex_addr(self, e, b):
        return self.ex(e.a[0], b)

    def ex_upcast(self, e, b):
        return self.ex(e.a[0], b)

    ex_downcast = ex_upcast

    def ex_icast(self, e, b):
        v = self.ex(e.a[0], b)
        t, s = self.M.norm(e.ty), self.M.norm(e.a[0].ty)
        if s[0] == "bool":
            return f"(if {v} then 1 else 0)"
        if not self.logic and t[0] == "int" and t[1].startswith("u") and s[0] == "int" and s[1].startswith("i") and not re.fullmatch(r"\d+", v):
            v = self.let(b, v, "u")
            b.add(f"assert {{ [@expl:conversion to unsigned of a non-negative value] {v} >= 0 }};")
        if not self.logic and self.overflow and t[0] == "int" and s[0] == "int" and t[1] == "i32" and s[1] != "i32" and not re.fullmatch(r"\d+", v):
            v = self.let(b, v, "n")
            b.add(f"assert {{ [@expl:narrowing conversion keeps the value] -0x80000000 <= {v} <= 0x7fffffff }};")
        return v

    def ex_i2b(self, e, b):
        return f"({self.ex(e.a[0], b)} <> 0)"

    def ex_i2d(self, e, b):
        return f"(from_int {self.ex(e.a[0], b)})"

    def ex_cast(self, e, b):
        if e.x.get("ck") == "FloatingCast":
            return self.ex(e.a[0], b)
        raise Unsupported("cast " + str(e.x.get("ck")))

    def ex_neg(self, e, b):
        t = self.M.norm(e.ty)
        v = self.ex(e.a[0], b)
        if t[0] == "double":
            return f"(-. {v})"
        return f"(- {v})"

    def ex_not(self, e, b):
        return f"(not {self.ex(e.a[0], b)})"

    def ex_cond(self, e, b):
        c = self.ex(e.a[0], b)
        return f"(if {c} then {self.sub(e.a[1])} else {self.sub(e.a[2])})"

    def ex_comma(self, e, b):
        self.effect(e.a[0], b)
        return self.ex(e.a[1], b)

    def ex_bin(self, e, b):
        op = e.x["op"]
        if op in ("&&", "||"):
            l = self.ex(e.a[0], b)
            if self.logic:
                r = self.ex(e.a[1], b)
                return f"({l} {'/' + chr(92) if op == '&&' else chr(92) + '/'} {r})"
            return f"({l} {op} {self.sub(e.a[1])})"
        x = self.ex(e.a[0], b)
        y = self.ex(e.a[1], b)
        t = self.M.safe_norm(e.a[0].ty)
        if op in ("+", "-", "*", "/", "%"):
            if t[0] == "double":
                return f"({x} {op}. {y})"
            return self.arith(b, op, x, y, e.ty)
        return self.compare(op, t, x, y, b)

    def compare(self, op, t, x, y, b):
        """built-in or structural comparison of two values of type t"""
        t = self.M.norm(t)
        k = t[0]
        if k in ("int", "big", "char"):
            return f"({x} {'=' if op == '==' else '<>' if op == '!=' else op} {y})"
        if op in ("==", "!="):
            if self.logic:
                r = f"({x} <-> {y})" if k == "bool" else self.M.eq(t, x, y)
            elif k == "bool":
                r = f"(eqb {x} {y})"
            elif self.M.logical_eq(t):
                self.M.trusted.add("operator== of " + self.M.tyname(t) + " (structural)") if k not in ("str", "enum", "cls") else None
                r = f"(eqp {x} {y})"
            else:
                r = self.cmpval("eq", t, x, y)
            return r if op == "==" else f"(not {r})"
        a, c = (x, y) if op in ("<", ">=") else (y, x)
        if self.logic:
            r = self.M.lt(t, a, c)
        elif k == "bool":
            r = f"((not {a}) && {c})"
        elif k == "double":
            r = f"({a} <. {c})"
        else:
            r = self.cmpval("lt", t, a, c)
        return r if op in ("<", ">") else f"(not {r})"

    def cmpval(self, what, t, x, y):
        n = f"{what}v_" + self.M.tyname(t)
        if n not in self.M.vals:
            f = self.M.eq(t, "a", "b") if what == "eq" else self.M.lt(t, "a", "b")
            T = self.ty(t)
            self.M.trusted.add(f"std operator{'==' if what == 'eq' else '<'} on {self.M.tyname(t)} (lexicographic/element-wise from the element's own operator)")
            self.M.vals[n] = f"val {n} (a b: {T}) : bool\n  ensures {{ result <-> {f} }}"
        return f"({n} {x} {y})"

    # ---- assignments
    def ex_assign(self, e, b):
        v = self.ex(e.a[1], b)
        if e.a[0].op != "var":
            v = self.let(b, v, "v")
        p = self.path(e.a[0], b, forwrite=True)
        if p is None:
            raise Unsupported("assignment target")
        self.write(b, p, v)
        return "()"

    def ex_opassign(self, e, b):
        y = self.ex(e.a[1], b)
        p = self.path(e.a[0], b)
        if p is None:
            raise Unsupported("assignment target")
        t = self.M.norm(e.a[0].ty)
        x = self.read(p)
        if t[0] == "double":
            self.write(b, p, f"({x} {e.x['op']}. {y})")
        else:
            self.write(b, p, self.arith(b, e.x["op"], x, y, e.a[0].ty))
        return "()"

    def ex_incdec(self, e, b):
        p = self.path(e.a[0], b)
        if p is None:
            raise Unsupported("++")
        x = self.read(p)
        old = None
        if e.x["post"]:
            old = self.fresh("old")
            b.add(f"let {old} = {x} in")
        self.write(b, p, self.arith(b, "+" if e.x["op"] == "++" else "-", x, "1", e.a[0].ty))
        return old if old else self.read(p)

    def ex_lambda(self, e, b):
        raise Unsupported("lambda value")

    def ex_throw(self, e, b):
        self.raises = True
        return "(raise Throw)"

    def ex_default(self, e, b):
        return self.default(e.ty, b)

    def ex_defaultarg(self, e, b):
        raise Unsupported("default argument")

    def default(self, t, b):
        t = self.M.norm(t)
        k = t[0]
        if k in ("int", "char", "big"):
            return "0"
        if k == "bool":
            return "false"
        if k == "double":
            return "0.0"
        if k == "str":
            return "str_empty"
        if k == "vec":
            return f"(vempty: {self.ty(t)})"
        if k in ("map", "set"):
            return f"(cempty: {self.ty(t)})"
        if k == "opt":
            return "None"
        if k == "tup":
            n = len(t[1])
            fs = "; ".join(f"{self.M.tfield(i, n)} = {self.default(x, b)}" for i, x in enumerate(t[1]))
            return f"{{ {fs} }}"
        if k == "arr":
            return f"(aconst {self.default(t[1], b)})"
        if k == "cls":
            if t[1] == "rational" and self.M.mode.get("rational", "real") == "real":
                return "0.0"
            return self.construct(t[1], [], "void ()", b)
        raise Unsupported(f"default {t}")

    def ex_initlist(self, e, b):
        t = self.M.norm(e.ty)
        if t[0] == "other" and e.x.get("v") is None:
            # array literal for an initializer_list
            m = re.match(r"(?:const )?(.*)\[(\d+)\]$", t[1])
            if m:
                t = ("vec", strip(self.M.P.T.parse(m.group(1))))
        if t[0] == "vec":
            r = f"(vempty: {self.ty(t)})"
            for a in e.a:
                v = self.let(b, self.ex(a, b))
                r = f"(snoc {r} {v})"
            return r
        if t[0] == "tup":
            n = len(t[1])
            return "{ " + "; ".join(f"{self.M.tfield(i, n)} = {self.ex(a, b)}" for i, a in enumerate(e.a)) + " }"
        if t[0] == "arr":
            def empty(x):
                return x.op in ("initlist", "default") and all(empty(y) for y in x.a)
            if not all(empty(x) for x in e.a):
                raise Unsupported("initializer list of an array")
            return self.default(t, b)
        if len(e.a) == 0:
            return self.default(t, b)
        if len(e.a) == 1:
            return self.ex(e.a[0], b)
        raise Unsupported(f"initializer list of {t}")

    def ex_ctor(self, e, b):
        t = self.M.norm(e.ty)
        args = [a for a in e.a if a.op != "defaultarg"]
        k = t[0]
        if len(args) == 1 and (self.same(t, args[0].ty) or args[0].op in ("initlist",) and k in ("vec",)):
            return self.ex(args[0], b)
        if k in ("iter", "riter"):
            raise Unsupported("iterator value")
        if k == "vec":
            if not args:
                return f"(vempty: {self.ty(t)})"
            i1 = self.iter_or_none(args[0], b)
            if i1 is not None:
                i2 = self.iter(args[1], b)
                return self.subrange(i1, i2, b)
            if len(args) == 1:
                if self.M.norm(args[0].ty)[0] == "vec":
                    return self.ex(args[0], b)
                n = self.let(b, self.ex(args[0], b))
                d = self.default(t[1], b)
                return f"(vmake {n} {d})"
            n = self.let(b, self.ex(args[0], b))
            v = self.let(b, self.ex(args[1], b))
            return f"(vmake {n} {v})"
        if k == "tup":
            if not args:
                return self.default(t, b)
            n = len(t[1])
            if len(args) == n:
                vs = [self.conv(self.ex(a, b), a.ty, x, b) for a, x in zip(args, t[1])]
                return "{ " + "; ".join(f"{self.M.tfield(i, n)} = {v}" for i, v in enumerate(vs)) + " }"
            if len(args) == 1:
                return self.conv(self.ex(args[0], b), args[0].ty, t, b)
        if k in ("map", "set"):
            if not args:
                return f"(cempty: {self.ty(t)})"
            if args[0].op == "initlist" and not args[0].a:
                return f"(cempty: {self.ty(t)})"
        if k == "str":
            if not args:
                return "str_empty"
            if len(args) == 1 and args[0].op == "str":
                return self.ex(args[0], b)
            if len(args) == 2 and [self.M.safe_norm(x.ty)[0] for x in args] == ["int", "char"]:
                return f"(str_rep {self.ex(args[0], b)} {self.ex(args[1], b)})"
        if k == "opt":
            if not args:
                return "None"
            at = self.M.safe_norm(args[0].ty)
            if at[0] == "other" and "nullopt" in str(at[1]):
                return "None"
            return f"(Some {self.ex(args[0], b)})"
        if k == "big":
            if not args:
                return "0"
            if len(args) == 1 and self.M.norm(args[0].ty)[0] in ("int", "big"):
                return self.ex(args[0], b)
        if k == "arr" and not args:
            return self.default(t, b)
        if k == "cls":
            if t[1] == "rational" and self.M.mode.get("rational", "real") == "real":
                vs = [self.ex(a, b) for a in args]
                if len(vs) == 0:
                    return "0.0"
                if len(vs) == 1:
                    return self.toreal(vs[0])
                d = self.let(b, vs[1])
                if not self.logic and not re.fullmatch(r"[1-9]\d*", d):
                    b.add(f"assert {{ [@expl:denominator is not zero] {d} <> 0 }};")
                return f"({self.toreal(vs[0])} /. {self.toreal(d)})"
            return self.construct(t[1], args, e.x.get("ctype", ""), b)
        raise Unsupported(f"construction of {t} from {len(args)} arguments")

    def toreal(self, v):
        if re.fullmatch(r"\d+", v):
            return f"{v}.0"
        m = re.fullmatch(r"\(- (\d+)\)", v)
        if m:
            return f"(-. {m.group(1)}.0)"
        return f"(from_int {v})"

    def conv(self, v, frm, to, b):
        """implicit element conversion inside pair/tuple constructors"""
        f, t = self.M.safe_norm(frm), self.M.norm(to)
        if f == t:
            return v
        if t[0] == "cls" and t[1] == "rational" and f[0] in ("int", "big") and self.M.mode.get("rational", "real") == "real":
            return self.toreal(v)
        if self.ty(t) == (self.ty(f) if f[0] not in ("other",) else None):
            return v
        raise Unsupported(f"conversion {f} -> {t}")

    def iter_or_none(self, e, b):
        t = self.M.safe_norm(e.ty)
        if t[0] in ("iter", "riter") or (t[0] == "other" and "iterator" in str(t[1])):
            return self.iter(e, b)
        if e.op == "call" and e.x["name"] in ("begin", "operator+") and t[0] not in ("int", "str", "cls", "big"):
            return self.iter(e, b)
        return None

    def subrange(self, i1, i2, b):
        if not (isinstance(i1, IT) and isinstance(i2, IT)) or i1.path.root != i2.path.root or i1.rev or i2.rev:
            raise Unsupported("iterator range")
        return f"(vsub {self.read(i1.path)} {i1.idx} {i2.idx})"

    # ---- object construction
    def construct(self, cls, args, ctype, b):
        P = self.M.P
        base = cls.split("<")[0].split("::")[-1]
        cands = [k for k, n in P.funs.items() if n["kind"] == "CXXConstructorDecl" and n.get("_cls") == cls]
        cands = [k for k in cands if len(P.params(k)) >= len(args)]
        sel = None
        for k in cands:
            if P.funs[k]["type"]["qualType"].replace(" noexcept", "") == ctype.replace(" noexcept", ""):
                sel = k
        if sel is None:
            ex = [k for k in cands if len(P.params(k)) == len(args)]
            ex = [k for k in ex if not self.copyctor(k, cls)] or ex
            if len(ex) == 1:
                sel = ex[0]
        if sel is None and len(args) == 1 and self.copyish(args[0], cls):
            return self.ex(args[0], b)
        if sel is None and not args:
            # implicit default constructor: default members
            return self.memberwise(cls, {}, b)
        if sel is None:
            raise Unsupported(f"constructor of {cls} {ctype}")
        if self.copyctor(sel, cls) and len(args) == 1:
            return self.ex(args[0], b)
        c = self.M.C.find(sel)
        f = P.fun(sel)
        if c is not None:
            vs = [self.let(b, self.argval(a, pt, b)) for a, (_, _, pt) in zip(args, f.params)]
            if self.logic:
                return self.logic_call(sel, vs)
            n = self.M.declare_val(sel)
            return self.let(b, f"({n} {' '.join(vs) if vs else '()'})", "obj")
        return self.inline_ctor(f, args, cls, b)

    def copyish(self, a, cls):
        t = self.M.safe_norm(a.ty)
        return t == ("cls", cls) or (t[0] == "cls" and self.ty(t) == self.ty(("cls", cls)))

    def copyctor(self, key, cls):
        ps = self.M.P.params(key)
        return len(ps) == 1 and self.M.safe_norm(self.M.P.T.of(ps[0])) == ("cls", cls)

    def memberwise(self, cls, given, b):
        fs = self.M.fields(cls)
        vals = []
        for f, ft in fs:
            if not self.M.keepfield(cls, f, ft):
                continue
            if f in given:
                vals.append((f, given[f]))
            else:
                vals.append((f, self.default_field(cls, f, ft, b)))
        if self.M.newtype(cls) is not None:
            return vals[0][1]
        self.ty(("cls", cls))
        return "{ " + "; ".join(f"{self.M._fld(cls, f)} = {v}" for f, v in vals) + " }"

    def default_field(self, cls, f, ft, b):
        rec = self.M.P.records[cls]
        from cxx import Lower
        for c in rec.get("inner", []):
            if c.get("kind") == "FieldDecl" and c.get("name") == f:
                sub = [x for x in c.get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                if sub:
                    return self.ex(Lower(self.M.P).ex(sub[0]), b)
        t = self.M.norm(ft)
        if t[0] in ("int", "bool", "double", "enum"):
            # indeterminate value
            n = "indet_" + self.M.tyname(t)
            self.M.vals.setdefault(n, f"val {n} (_u: unit) : {self.ty(t)}")
            return f"({n} ())"
        return self.default(t, b)

    def inline_ctor(self, f, args, cls, b):
        e = E("call", args, ("cls", cls), key=f.key, name=f.name, kind="ctor")
        saved = self.enter(f, e, b)
        try:
            given = {}
            for it in f.inits:
                if it[0] == "field":
                    if it[2] is not None:
                        ft = dict(self.M.fields(cls)).get(it[1])
                        if not self.M.keepfield(cls, it[1], ft):
                            continue
                        v = self.ex(it[2], b)
                        given[it[1]] = self.let(b, self.convq(v, it[2].ty, ft, b), "m")
                elif it[0] == "base":
                    bf = self.M.fields(cls)
                    if it[2] is not None:
                        v = self.ex(it[2], b)
                        bt = self.M.norm(it[2].ty)
                        own = [x for x in self.M.P.records[cls].get("inner", []) if x.get("kind") == "FieldDecl"]
                        if not own and self.M.newtype(cls) is not None:
                            given[bf[0][0]] = v
                        elif not own:
                            given = None
                            whole = v
                        else:
                            raise Unsupported("base initializer")
            obj = self.memberwise(cls, given, b)
            n = self.fresh("self")
            st = flat(f.body)
            if st:
                b.add(f"let ref {n} = {obj} in")
                self.declare(n, ("cls", cls))
                self.this = Path(n, [], True)
                if any(has_ret(s) for s in st):
                    raise Unsupported("return in constructor")
                for s in st:
                    self.stmt(s, b, ("none",))
                r = n
            else:
                r = obj if self.logic else self.let(b, obj, "obj")
            return r
        finally:
            self.leave(saved)

    def convq(self, v, frm, to, b):
        try:
            return self.conv(v, frm, to, b)
        except Unsupported:
            return v

    def argval(self, a, pt, b):
        return self.ex(a, b)

    # ---- calls
    def ex_call(self, e, b):
        key = e.x.get("key")
        nm = e.x["name"]
        if key is not None and key in self.M.P.funs or (key is not None and self.M.C.find(key)):
            if self.M.mode.get("rational", "real") == "real" and self.is_rational_fun(e, key):
                return self.rational_call(e, b)
            if self.logic and not (self.M.C.find(key) is None and self.M.is_accessor(self.M.P.fun(key))):
                return self.logic_call(key, [self.ex(a, b) for a in e.a])
            c = self.M.C.find(key)
            if c is not None:
                return self.contract_call(key, c, e, b)
            p = self.path(e, b)
            if p is not None:
                return self.read(p)
            return self.inline_call(self.M.P.fun(key), e, b)
        if key is not None:
            # declared in /repo, but no body: implicit or defaulted member
            if nm == "operator=" and len(e.a) == 2:
                v = self.let(b, self.ex(e.a[1], b), "v")
                p = self.path(e.a[0], b, forwrite=True)
                if p is None:
                    raise Unsupported("assignment target")
                self.write(b, p, v)
                return "()"
            raise Unsupported(f"no body for {key}")
        return self.builtin(e, b)

    def is_rational_fun(self, e, key):
        if key.startswith("rational::"):
            return True
        return e.x["name"].startswith("operator") and "rational" in key and re.search(r"^operator[-+*/=!]+\(rational( const&)?(, rational( const&)?)?\)$", key) is not None

    def realop(self, op, x, y):
        """product of exact rationals: `rmul` in profiles that reason about products through its algebraic laws only"""
        if op == "*" and "RMul" in self.M.C.uses:
            return f"(rmul {x} {y})"
        if op == "/" and "RMul" in self.M.C.uses:
            return f"(rdiv {x} {y})"
        return f"({x} {op}. {y})"

    def rational_call(self, e, b):
        nm = e.x["name"]
        if nm in ("operator+=", "operator-=", "operator*=", "operator/="):
            y = self.let(b, self.ex(e.a[1], b), "y")
            p = self.path(e.a[0], b)
            if p is None:
                raise Unsupported("rational target")
            if nm == "operator/=":
                b.add(f"assert {{ [@expl:rational division by zero] {y} <> 0.0 }};")
            self.write(b, p, self.realop(nm[8], self.read(p), y))
            return self.read(p)
        if nm == "operator=":
            v = self.let(b, self.ex(e.a[1], b), "v")
            p = self.path(e.a[0], b, forwrite=True)
            self.write(b, p, v)
            return "()"
        if nm in ("operator+", "operator-") and len(e.a) == 1:
            v = self.ex(e.a[0], b)
            return f"(-. {v})" if nm == "operator-" else v
        if nm in ("operator+", "operator-", "operator*", "operator/"):
            x = self.ex(e.a[0], b)
            y = self.ex(e.a[1], b)
            if nm == "operator/" and not self.logic:
                y = self.let(b, y, "y")
                b.add(f"assert {{ [@expl:rational division by zero] {y} <> 0.0 }};")
            return self.realop(nm[8], x, y)
        if nm in ("operator==", "operator!="):
            x = self.ex(e.a[0], b)
            y = self.ex(e.a[1], b)
            if self.logic:
                return f"({x} {'=' if nm == 'operator==' else '<>'} {y})"
            r = f"(eqp {x} {y})"
            return r if nm == "operator==" else f"(not {r})"
        if nm == "to_double":
            return self.ex(e.a[0], b)
        raise Unsupported("rational::" + nm)

    def contract_call(self, key, c, e, b):
        f = self.M.P.fun(key)
        n = self.M.declare_val(key)
        if self.stack[0] == key and len(self.stack) == 1 and c.recursive:
            n = self.M.valname(key) + "_impl"
        elif c.recursive and self.stack[0] == key:
            n = self.M.valname(key) + "_impl"
        if self.depth == 0 and False:
            pass
        args = list(e.a)
        terms, post = [], []
        ps = []
        if f.cls and not f.static and f.kind == "CXXMethodDecl":
            r = args.pop(0)
            ps.append((r, ("ref", ("cls", f.cls), f.const)))
        for i, (pid, pn, pt) in enumerate(f.params):
            if i >= len(args):
                raise Unsupported("default argument")
            ps.append((args[i], pt))
        for a, pt in ps:
            if self.M.safe_norm(pt)[0] == "fn" or a.op == "defaultarg" and self.M.safe_norm(pt)[0] == "fn":
                raise Unsupported("function argument to a contracted function")
            if a.op == "defaultarg":
                raise Unsupported("default argument")
            if is_mut_ref(pt):
                p = self.path(a, b)
                if p is None:
                    # temporary object
                    v = self.ex(a, b)
                    t = self.fresh("tmp")
                    b.add(f"let ref {t} = {v} in")
                    terms.append(t)
                    continue
                if not p.accs and p.mut:
                    if p.root in terms:
                        raise Unsupported("aliased arguments")
                    terms.append(p.root)
                elif not p.mut:
                    t = self.fresh("tmp")
                    b.add(f"let ref {t} = {self.read(p)} in")
                    terms.append(t)
                else:
                    t = self.fresh("tmp")
                    b.add(f"let ref {t} = {self.read(p)} in")
                    self.declare(t, pt)
                    terms.append(t)
                    post.append((p, t))
            else:
                v = self.convq(self.ex(a, b), a.ty, strip(pt), b)
                terms.append(self.let(b, v, "a"))
        g = self.ghost("call " + key.split("(")[0])
        if g:
            b.add(re.sub(r"\$(\d)", lambda m: terms[int(m.group(1))], g))
        call = f"({n} {' '.join(terms) if terms else '()'})"
        if c.raises is not None:
            self.raises = True
        rt = self.M.rettype(key)
        if rt == "unit":
            b.add(call + ";")
            r = "()"
        else:
            r = self.fresh("r")
            b.add(f"let {r} = {call} in")
        for p, t in post:
            self.write(b, p, t)
        if rt == "unit" and self.M.returns_this(f):
            p = self.path(e.a[0], b)
            return self.read(p) if p is not None else terms[0]
        return r

    # ---- standard library
    def builtin(self, e, b):
        nm, a = e.x["name"], e.a
        if nm.startswith("operator"):
            op = nm[8:]
            if op in ("==", "!=", "<", ">", "<=", ">=") and len(a) == 2:
                t = self.M.safe_norm(a[0].ty)
                i1 = None
                if t[0] in ("iter", "riter") or t[0] == "other":
                    i1 = self.iter(a[0], b)
                if i1 is not None:
                    i2 = self.iter(a[1], b)
                    if isinstance(i1, MIT) and isinstance(i2, MIT) and i2.isend and i1.found and op in ("==", "!="):
                        return f"(not {i1.found})" if op == "==" else i1.found
                    if isinstance(i1, IT) and isinstance(i2, IT) and i1.path.root == i2.path.root:
                        o = {"==": "=", "!=": "<>"}.get(op, op)
                        return f"({i1.idx} {o} {i2.idx})"
                    raise Unsupported("iterator comparison")
                x = self.ex(a[0], b)
                y = self.ex(a[1], b)
                return self.compare(op, a[0].ty if t[0] != "other" else a[1].ty, x, y, b)
            if op == "=" and len(a) == 2:
                v = self.let(b, self.convq(self.ex(a[1], b), a[1].ty, strip(a[0].ty), b), "v")
                p = self.path(a[0], b, forwrite=True)
                if p is None:
                    raise Unsupported("assignment target")
                self.write(b, p, v)
                return "()"
            if op in ("+", "-", "*", "/", "%") and len(a) == 2:
                t = self.M.safe_norm(a[0].ty)
                t2 = self.M.safe_norm(a[1].ty)
                if t[0] in ("big", "other") and t2[0] in ("big", "int", "other") or t2[0] == "big":
                    return self.bigarith(op, a, b)
                if t[0] == "str" or t2[0] == "str":
                    x, y = self.ex(a[0], b), self.ex(a[1], b)
                    return f"(str_cat {x} {y})"
                i1 = self.iter(a[0], b)
                if i1 is not None and op == "-":
                    i2 = self.iter(a[1], b)
                    return f"({i1.idx} - {i2.idx})"
            if op == "-" and len(a) == 1:
                return f"(- {self.ex(a[0], b)})"
            if op in ("+=", "-=", "*=", "/="):
                t = self.M.safe_norm(a[0].ty)
                y = self.let(b, self.ex(a[1], b), "y")
                p = self.path(a[0], b)
                if p is None:
                    raise Unsupported("assignment target")
                if t[0] == "big":
                    if op == "/=":
                        b.add(f"assert {{ [@expl:division by zero] {y} <> 0 }};")
                        self.write(b, p, f"(div {self.read(p)} {y})")
                    else:
                        self.write(b, p, f"({self.read(p)} {op[0]} {y})")
                    return self.read(p)
                if t[0] == "str" and op == "+=":
                    self.write(b, p, f"(str_cat {self.read(p)} {y})")
                    return self.read(p)
                raise Unsupported(f"{nm} on {t}")
            if op in ("[]", "*", "->", "++", "--"):
                if op in ("++", "--"):
                    raise Unsupported("iterator increment")
                p = self.path(e, b)
                if p is not None:
                    return self.read(p)
                if op == "[]" and self.M.safe_norm(a[0].ty)[0] == "str":
                    x, y = self.ex(a[0], b), self.ex(a[1], b)
                    return f"(str_at {x} {y})"
                if op == "*":
                    return self.ex(a[0], b)
            if op == "()":
                lam = self.lam(a[0])
                return self.call_lambda(lam, a[1:], b)
            raise Unsupported(f"{nm} on {self.M.safe_norm(a[0].ty)}")
        kind = e.x["kind"]
        if kind == "method":
            return self.std_method(e, nm, a, b)
        return self.std_fun(e, nm, a, b)

    def bigarith(self, op, a, b):
        x = self.ex(a[0], b)
        y = self.ex(a[1], b)
        if op in ("/", "%"):
            y = self.let(b, y, "y")
            if not self.logic:
                b.add(f"assert {{ [@expl:division by zero] {y} <> 0 }};")
            return f"({'div' if op == '/' else 'mod'} {x} {y})"
        return f"({x} {op} {y})"

    def call_lambda(self, lam, args, b):
        if self.logic:
            return self.lam_formula(lam, [self.ex(x, b) for x in args])
        st = flat(lam.x["body"])
        saved = dict(self.env)
        try:
            for (pid, pn, pt), x in zip(lam.x["params"], args):
                p = self.path(x, b) if pt[0] == "ref" else None
                self.env[pid] = p if p is not None else Path(self.let(b, self.ex(x, b)), [], False)
            if len(st) == 1 and st[0].op == "return":
                return self.ex(st[0].a[0], b)
            raise Unsupported("lambda call")
        finally:
            self.env = saved

    def async_task(self, e, lam, b):
        """std::async(policy, lambda): the value of the task.  The task is run where it is created; it reads nothing that
        is written afterwards (checked here for local variables and, for members, by the frame of the called function)."""
        st = flat(lam.x["body"])
        if not (len(st) == 1 and st[0].op == "return"):
            raise Unsupported("task body")
        tops = {d.x["vid"] for st in flat(self.f.body) for d in flat(st) if isinstance(d, S) and d.op == "decl"}
        pars = {q[0] for q in self.f.params}
        ok = True
        for vid, byref, isref in lam.x.get("caps", ()):
            if byref and vid not in tops and vid not in pars and not isref:
                ok = False
        b.add(f"assert {{ [@expl:a variable captured by reference outlives the task] {'true' if ok else 'false'} }};")
        ids = {n.x["id"] for n in walk_e(st[0]) if not isinstance(n, S) and n.op == "var"}
        for n in walk_e(self.f.body):
            if isinstance(n, S):
                continue
            tgt = None
            if n.op in ("assign", "opassign", "incdec"):
                tgt = n.a[0]
            elif n.op == "call" and n.x["kind"] == "method" and n.x["name"] in MUT_METHODS and n.a:
                tgt = n.a[0]
            if tgt is not None and any(x.op == "var" and x.x["id"] in ids for x in walk_e(tgt) if not isinstance(x, S)):
                b.add("assert { [@expl:a variable read by a task is not written while it runs] false };")
        self.M.trusted.add("std::async(launch::async, f): future.get() returns the value of f(); the task and its creator do not interfere (a task writes no member but those guarded by a mutex: its frame is an obligation)")
        return self.ex(st[0].a[0], b)

    def std_method(self, e, nm, a, b):
        if strip(a[0].ty)[:2] == ("tcls", "future"):
            if nm != "get":
                raise Unsupported("future::" + nm)
            return self.ex(a[0], b)
        t = self.M.norm(a[0].ty)
        k = t[0]
        if k in ("vec", "str", "map", "arr", "set") and nm in ("size", "length", "empty"):
            p = self.path(a[0], b)
            c = self.read(p) if p is not None else self.ex(a[0], b)
            ln = {"vec": f"(length {c})", "str": f"(str_len {c})", "map": f"(csize {c})", "arr": "8", "set": f"(csize {c})"}[k]
            return ln if nm != "empty" else f"({ln} = 0)"
        if k == "vec":
            if nm in ("push_back", "emplace_back"):
                if nm == "emplace_back" and not (len(a) == 2 and self.same(a[1].ty, t[1])):
                    v = self.ex(E("ctor", a[1:], t[1], ctype=""), b)
                else:
                    v = self.convq(self.ex(a[1], b), a[1].ty, t[1], b)
                v = self.let(b, v, "v")
                p = self.path(a[0], b)
                self.write(b, p, f"(snoc {self.read(p)} {v})")
                return "()"
            if nm == "clear":
                p = self.path(a[0], b)
                self.write(b, p, f"(vempty: {self.ty(t)})")
                return "()"
            if nm == "pop_back":
                p = self.path(a[0], b)
                c = self.read(p)
                self.write(b, p, f"(vsub {c} 0 (length {c} - 1))")
                return "()"
            if nm in ("back", "front", "at"):
                return self.read(self.path(e, b))
            if nm == "insert" and len(a) == 4:
                at = self.iter(a[1], b)
                i1, i2 = self.iter(a[2], b), self.iter(a[3], b)
                p = self.path(a[0], b)
                if not (at.isend and at.path.root == p.root and at.path.accs == p.accs):
                    raise Unsupported("insert position")
                s = self.let(b, self.subrange(i1, i2, b) if not (i1.idx == "0" and i2.isend) else self.read(i1.path), "s")
                self.write(b, p, f"({self.read(p)} ++ {s})")
                return "()"
            if nm == "insert" and len(a) == 3:
                at = self.iter(a[1], b)
                p = self.path(a[0], b)
                if not (isinstance(at, IT) and at.path.root == p.root and at.path.accs == p.accs and not at.rev):
                    raise Unsupported("insert position")
                v = self.let(b, self.convq(self.ex(a[2], b), a[2].ty, t[1], b), "v")
                c = self.read(p)
                self.write(b, p, f"(cons {v} {c})" if at.idx == "0" else f"(snoc {c} {v})" if at.isend else f"((vsub {c} 0 {at.idx}) ++ (cons {v} (vsub {c} {at.idx} (length {c}))))")
                return "()"
            if nm == "erase" and len(a) == 3:
                i1, i2 = self.iter(a[1], b), self.iter(a[2], b)
                p = self.path(a[0], b)
                c = self.read(p)
                self.write(b, p, f"((vsub {c} 0 {i1.idx}) ++ (vsub {c} {i2.idx} (length {c})))")
                return "()"
            if nm in ("begin", "end"):
                raise Unsupported("iterator value")
            if nm == "operator=":
                v = self.let(b, self.ex(a[1], b), "v")
                p = self.path(a[0], b, forwrite=True)
                self.write(b, p, v)
                return "()"
        if k == "set" and nm == "insert" and len(a) == 2:
            v = self.let(b, self.convq(self.ex(a[1], b), a[1].ty, t[1], b), "v")
            p = self.path(a[0], b)
            self.write(b, p, f"(cset {self.read(p)} {v} ())")
            return "()"
        if k in ("map", "set"):
            if nm in ("count", "contains"):
                key = self.let(b, self.ex(a[1], b), "key")
                p = self.path(a[0], b)
                c = self.read(p) if p is not None else self.ex(a[0], b)
                r = f"(cmem {c} {key})"
                return f"(if {r} then 1 else 0)" if nm == "count" else r
            if nm == "clear":
                p = self.path(a[0], b)
                self.write(b, p, f"(cempty: {self.ty(t)})")
                return "()"
            if nm == "erase":
                it = self.iter(a[1], b) if self.M.safe_norm(a[1].ty)[0] in ("iter", "other") else None
                p = self.path(a[0], b)
                if isinstance(it, MIT):
                    b.add(f"assert {{ [@expl:erase of a valid iterator] {it.found} = true }};")
                    self.write(b, p, f"(cremove {self.read(p)} {it.key})")
                else:
                    key = self.let(b, self.ex(a[1], b), "key")
                    self.write(b, p, f"(cremove {self.read(p)} {key})")
                return "()"
            if nm == "operator=":
                v = self.let(b, self.ex(a[1], b), "v")
                p = self.path(a[0], b, forwrite=True)
                self.write(b, p, v)
                return "()"
            if nm == "at":
                raise Unsupported("map::at")
        if k == "opt":
            if nm in ("has_value", "operator bool"):
                return f"(opt_is {self.ex(a[0], b)})"
            if nm == "value":
                return f"(opt_get {self.ex(a[0], b)})"
        if k == "str" and nm.startswith("operator basic_string"):
            return self.ex(a[0], b)
        if k == "big" and nm == "operator=":
            v = self.let(b, self.ex(a[1], b), "v")
            self.write(b, self.path(a[0], b, forwrite=True), v)
            return "()"
        raise Unsupported(f"method {nm} on {t}")

    def std_fun(self, e, nm, a, b):
        if nm == "async" and len(a) == 2 and a[0].op == "enumc" and a[1].op == "lambda":
            return self.async_task(e, a[1], b)
        if nm == "make_pair" or nm == "make_tuple" or nm == "tie":
            n = len(a)
            ret = self.M.safe_norm(e.ty)
            ets = ret[1] if ret[0] == "tup" else [x.ty for x in a]
            vs = []
            for x, et in zip(a, ets):
                v = self.ex(x, b)
                vs.append(v if self.logic else self.let(b, v))
            return "{ " + "; ".join(f"{self.M.tfield(i, n)} = {v}" for i, v in enumerate(vs)) + " }"
        if nm in ("move", "forward", "as_const"):
            return self.ex(a[0], b)
        if nm == "get":
            p = self.path(e, b)
            if p is not None:
                return self.read(p)
            t = self.M.norm(a[0].ty)
            v = self.let(b, self.ex(a[0], b))
            return f"{v}.{self.M.tfield(self.tuple_index(e, t), len(t[1]))}"
        if nm in ("gcd", "__gcd"):
            self.M.trusted.add("boost::gcd / std::gcd returns the non-negative greatest common divisor")
            x, y = self.ex(a[0], b), self.ex(a[1], b)
            return f"(gcd {x} {y})"
        if nm in ("max", "min") and len(a) == 2:
            x, y = self.let(b, self.ex(a[0], b)), self.let(b, self.ex(a[1], b))
            return f"({nm} {x} {y})"
        if nm in ("abs", "labs", "llabs"):
            return f"(abs {self.ex(a[0], b)})"
        if nm == "sort":
            i1, i2 = self.iter(a[0], b), self.iter(a[1], b)
            self.whole(i1, i2)
            T = self.ty(("vec", i1.elem))
            lt = self.pred2(a[2] if len(a) > 2 else None, i1.elem, "lt")
            cmp = lt("result[j_]", "result[i_]") if not i1.rev else lt("result[i_]", "result[j_]")
            s = self.let(b, self.read(i1.path), "s")
            post = f"permutation {s} result /\\ (forall i_ j_. 0 <= i_ < j_ < length {s} -> not {cmp})"
            r = self.anyval(b, T, post, "std::sort (result is a permutation, no inversion under the given order; needs a strict weak order)", [(s, T)])
            self.write(b, i1.path, r)
            return "()"
        if nm == "reverse" and all(x.op == "call" and x.x["name"] == y and self.M.safe_norm(x.a[0].ty)[0] == "str" for x, y in zip(a, ("begin", "end"))):
            p = self.path(a[0].a[0], b)
            if p != self.path(a[1].a[0], b) and repr(a[0].a[0]) != repr(a[1].a[0]):
                raise Unsupported("reverse")
            self.write(b, p, f"(str_rev {self.read(p)})")
            return "()"
        if nm == "reverse":
            i1, i2 = self.iter(a[0], b), self.iter(a[1], b)
            self.whole(i1, i2)
            self.write(b, i1.path, f"(vreverse {self.read(i1.path)})")
            return "()"
        if nm == "is_sorted":
            i1, i2 = self.iter(a[0], b), self.iter(a[1], b)
            self.whole(i1, i2)
            lt = self.pred2(a[2] if len(a) > 2 else None, i1.elem, "lt")
            s = self.let(b, self.read(i1.path), "s")
            T = self.ty(("vec", i1.elem))
            post = f"result <-> (forall i_. 0 <= i_ -> i_ + 1 < length {s} -> not {lt(s + '[i_+1]', s + '[i_]')})"
            return self.anyval(b, "bool", post, "std::is_sorted (no adjacent inversion)", [(s, T)])
        if nm == "distance":
            i1, i2 = self.iter(a[0], b), self.iter(a[1], b)
            if isinstance(i1, IT) and isinstance(i2, IT):
                return f"({i2.idx} - {i1.idx})"
        if nm == "swap" and len(a) == 2:
            p, q = self.path(a[0], b), self.path(a[1], b)
            if p is None or q is None:
                raise Unsupported("swap")
            x = self.fresh("x")
            y = self.fresh("y")
            b.add(f"let {x} = {self.read(p)} in let {y} = {self.read(q)} in")
            self.write(b, p, y)
            self.write(b, q, x)
            return "()"
        if nm == "iota":
            i1, i2 = self.iter(a[0], b), self.iter(a[1], b)
            self.whole(i1, i2)
            v = self.let(b, self.ex(a[2], b), "v")
            self.write(b, i1.path, f"(viota (length {self.read(i1.path)}) {v})")
            return "()"
        if nm in ("exit", "abort", "terminate", "_Exit", "quick_exit"):
            b.add("assert { [@expl:the program is not ended here] false };")
            return "()"
        if nm == "next_permutation":
            i1, i2 = self.iter(a[0], b), self.iter(a[1], b)
            self.whole(i1, i2)
            if len(a) > 2 or i1.rev:
                raise Unsupported("next_permutation")
            T = self.ty(("vec", i1.elem))
            s = self.let(b, self.read(i1.path), "s")
            r = self.anyval(b, T, f"permutation {s} result", "std::next_permutation (a rearrangement of the range)", [(s, T)])
            self.write(b, i1.path, r)
            return self.let(b, self.anyval(b, "bool", "true", "std::next_permutation (result: whether the order wrapped around, unspecified)", []), "more")
        if nm == "accumulate":
            i1, i2 = self.iter(a[0], b), self.iter(a[1], b)
            self.whole(i1, i2)
            if len(a) == 3 and self.M.norm(a[2].ty)[0] == "int":
                z = self.ex(a[2], b)
                return f"({z} + vsum {self.read(i1.path)})"
            if len(a) == 4 and not self.logic:
                # a left fold: the contract gives its invariant over acc_ (value so far) and n_ (elements folded)
                self.nfold = getattr(self, "nfold", 0) + 1
                inv = self.ghost(f"fold{self.nfold}")
                if not inv:
                    raise Unsupported("std::accumulate without invariant")
                lam = self.lam(a[3])
                T, zt = self.ty(("vec", i1.elem)), self.ty(e.ty)
                z = self.let(b, self.ex(a[2], b), "z")
                s = self.let(b, self.read(i1.path), "s")
                step = self.lam_formula(lam, ["acc_", f"{s}[n_]"])
                at = lambda v, n: f"let acc_ = {v} in let n_ = {n} in ({inv})"
                b.add(f"assert {{ [@expl:fold {self.nfold} invariant holds at the start] {at(z, '0')} }};")
                b.add(f"assert {{ [@expl:fold {self.nfold} invariant preserved] forall acc_: {zt}, n_: int. 0 <= n_ < length {s} -> ({inv}) -> ({at(step, 'n_ + 1')}) }};")
                return self.anyval(b, zt, at("result", f"length {s}"), "std::accumulate (left fold)", [(s, T)])
        raise Unsupported(f"std function {nm}")

    def ex_callvar(self, e, b):
        lam = self.lam(e.a[0])
        return self.call_lambda(lam, e.a[1:], b)

    def ex_fref(self, e, b):
        raise Unsupported("function value")

    def ex_flit(self, e, b):
        v = str(e.x["v"])
        return v if "." in v else v + ".0"

    # ------------------------------------------------------------ statements
    def droppable(self, s):
        """output / timing statements without other effects"""
        if isinstance(s, E):
            if s.op == "call" and s.x["name"] == "operator<<":
                r = s
                while r.op == "call" and r.x["name"] == "operator<<":
                    r = r.a[0]
                if r.op == "var" and r.x["name"] in DROP_STREAMS:
                    return not self.has_effect(s, stream=True)
            if s.op == "call" and s.x["name"] in ("PRINT_ELEMENTS",):
                return True
            if s.op == "call" and s.x["name"] == "operator+=" or s.op in ("opassign", "assign"):
                tgt = s.a[0]
                if any(x.op == "field" and x.x["name"] in Module.ERASED_FIELDS for x in walk_e(tgt)):
                    return not any(self.has_effect(y) for y in s.a[1:])
            return False
        if s.op == "expr":
            return self.droppable(s.a[0])
        if s.op == "nop":
            return True
        if s.op == "block":
            return all(self.droppable(c) for c in s.a)
        if s.op == "if":
            return self.droppable(s.a[1]) and self.droppable(s.a[2]) and not self.has_effect(s.a[0])
        if s.op in ("forrange",):
            return self.droppable(s.a[2]) and not self.has_effect(s.a[1])
        if s.op == "for":
            return self.droppable(s.a[3])and s.a[0].op in ("block", "decl") and self.pure_for(s)
        if s.op == "decl":
            t = self.M.safe_norm(s.x["ty"])
            if t == ("cls", "timer") or self.is_lock(s):
                return True
        return False

    def pure_for(self, s):
        if not (s.a[2] is not None and s.a[2].op == "incdec"):
            return False
        return not self.has_effect(s.a[1])

    def has_effect(self, e, stream=False):
        for n in walk_e(e):
            if isinstance(n, S):
                continue
            if n.op in ("assign", "opassign", "incdec", "throw"):
                return True
            if n.op == "call":
                if n.x["name"] == "operator<<" and stream:
                    continue
                key = n.x.get("key")
                if key and key in self.M.P.funs:
                    f = self.M.P.fun(key)
                    if any(is_mut_ref(pt) and self.M.safe_norm(pt)[0] not in ("other",) for _, _, pt in f.params):
                        return True
                    if n.x["kind"] == "method" and not f.const and not f.static and f.cls != "timer" and not self.M.is_accessor(f):
                        return True
                elif n.x["name"] in MUT_METHODS and n.x["kind"] == "method":
                    return True
        return False

    def effect(self, e, b):
        """expression statement"""
        if self.droppable(e):
            return self.drop(e, b)
        r = self.ex(e, b)
        if r.startswith("(raise"):
            b.add(r + ";")
        # values of calls are already bound

    def block(self, sts, tail, ret, ghost_exit=None):
        held = getattr(self, "_held", frozenset())
        self._held = held
        try:
            return self.block_(sts, tail, ret, ghost_exit)
        finally:
            self._held = held

    def erased_write(self, s):
        """members without a counterpart in the logic (timers) that the dropped statement writes"""
        out = set()
        for n in walk_e(s):
            if not isinstance(n, S) and (n.op in ("opassign", "assign") or n.op == "call" and n.x["name"] in ("operator+=", "operator=")):
                out |= {x.x["name"] for x in walk_e(n.a[0]) if not isinstance(x, S) and x.op == "field" and x.x["name"] in Module.ERASED_FIELDS}
        return out

    def drop(self, s, b):
        """a dropped statement; in a function run by tasks its writes to shared members need the mutex"""
        if isinstance(s, S) and s.op == "decl" and self.is_lock(s):
            self._held = self._held | {x.x["name"] for a in s.a if a is not None for x in walk_e(a) if not isinstance(x, S) and x.op == "field"}
        m = self.guarded()
        if m:
            for w in sorted(self.erased_write(s)):
                if isinstance(s, S) and s.op in ("block", "if", "forrange", "for"):
                    raise Unsupported("guarded write in a dropped block")
                b.add(f"assert {{ [@expl:{m} is held when {w} is written] {'true' if m in self._held else 'false'} }};")

    def guarded(self):
        return (self.c.mode or {}).get("guarded") if self.c is not None and isinstance(self.c.mode, (dict, type(None))) else None

    def is_lock(self, s):
        t = strip(s.x["ty"])
        return t[0] == "tcls" and t[1] in ("lock_guard", "scoped_lock", "unique_lock") and len(s.a) == 1 and s.a[0] is not None and s.a[0].op == "ctor" and len(s.a[0].a) == 1

    def block_(self, sts, tail, ret, ghost_exit=None):
        """statement list -> WhyML expression text"""
        b = B()
        saved_env = dict(self.env)
        saved_scope = dict(self._scope)
        final = "()"
        done = False
        for i, s in enumerate(sts):
            last = i == len(sts) - 1
            if tail and s.op == "return":
                final = self.retval(s, b, ret, tail=True)
                done = True
                break
            if tail and s.op == "if" and (has_ret(s.a[1]) or has_ret(s.a[2])) and (last or self.always_returns(s.a[1]) and s.a[2].op == "nop"):
                if self.droppable(s):
                    continue
                c = self.let(b, self.ex(s.a[0], b), "c")
                t = self.block(flat(s.a[1]), True, ret)
                if last:
                    el = self.block(flat(s.a[2]), True, ret)
                else:
                    el = self.block(sts[i + 1:], True, ret)
                b.add(f"if {c} then begin\n{t}\nend else begin\n{el}\nend")
                self.env = saved_env
                self._scope = saved_scope
                return "\n".join(b.lines)
            self.stmt(s, b, ret)
            if s.op == "throw" or s.op == "expr" and s.a[0].op == "throw":
                if tail:
                    # unreachable afterwards
                    final = "absurd_value ()" if False else None
                    break
        self.env = saved_env
        self._scope = saved_scope
        if final is None:
            # the last line is `(raise Throw);`
            l = b.lines.pop()
            b.add(l.rstrip(";"))
            return "\n".join(b.lines)
        if not done and tail and ret[0] == "fun":
            final = self.exit_ghost(b, final)
        return b.text(final)

    def always_returns(self, s):
        if s.op == "return":
            return True
        if s.op == "expr" and s.a[0].op == "throw":
            return True
        if s.op == "block":
            f = flat(s)
            return bool(f) and self.always_returns(f[-1])
        if s.op == "if":
            return self.always_returns(s.a[1]) and self.always_returns(s.a[2])
        return False

    def exit_ghost(self, b, r):
        g = self.ghost("exit")
        if g:
            if r != "()":
                b.add(f"let res_ = {r} in")
                r = "res_"
            b.add(g)
        return r

    def ghost(self, where):
        if self.c is None:
            return None
        g = self.c.ghost.get(where)
        if not g:
            return None
        return self.subst(g)

    def subst(self, text):
        for a, c in self.rename.items():
            text = re.sub(rf"(?<![\w'.]){re.escape(a)}(?![\w'])", c, text)
        return text

    def retval(self, s, b, ret, tail):
        e = s.a[0]
        if ret[0] == "none":
            raise Unsupported("return in spliced code")
        if e is None:
            r = "()"
        elif self.M.returns_this_expr(self.curfun(), e):
            r = "()"
        else:
            r = self.ex(e, b)
            rt = self.curfun().ret
            r = self.convq(r, e.ty, strip(rt), b)
        if ret[0] == "fun":
            if self.canary_on:
                r2 = self.let(b, r, "res") if r != "()" else r
                r = r2
                b.add(self.canary("exit"))
            r = self.exit_ghost(b, r)
            if self.isctor:
                r = "this"
            return r if tail else f"return {r}"
        if tail:
            return r
        return f"raise ({ret[1]} {r})"

    def curfun(self):
        return self.M.P.fun(self.stack[-1])

    def canary(self, what):
        self.canaries += 1
        return f"if cond_ () then assert {{ [@expl:CANARY {self.canaries} {what}] false }};"

    def stmt(self, s, b, ret):
        op = s.op
        if op == "nop":
            return
        if self.droppable(s) and not (op in ("block", "if", "for", "forrange") and self.guarded() and self.erased_write(s)):
            return self.drop(s, b)
        if op == "block":
            if s.x.get("flat"):
                for c in flat(s):
                    self.stmt(c, b, ret)
                return
            t = self.block(flat(s), False, ret)
            b.add("begin\n" + t + "\nend;")
            return
        if op == "expr":
            self.effect(s.a[0], b)
            return
        if op == "decl":
            return self.st_decl(s, b)
        if op == "decomp":
            return self.st_decomp(s, b)
        if op == "if":
            c = self.ex(s.a[0], b)
            t = self.block(flat(s.a[1]), False, ret)
            if s.a[2].op == "nop":
                b.add(f"if {c} then begin\n{t}\nend;")
            else:
                e = self.block(flat(s.a[2]), False, ret)
                b.add(f"if {c} then begin\n{t}\nend else begin\n{e}\nend;")
            return
        if op == "return":
            r = self.retval(s, b, ret, tail=False)
            b.add(r + ";")
            return
        if op == "break":
            b.add("raise (" + self.brk[-1] + ");")
            return
        if op == "continue":
            b.add("raise (" + self.cnt[-1] + ");")
            return
        if op in ("for", "forrange", "while", "do"):
            return self.st_loop(s, b, ret)
        raise Unsupported("statement " + op)

    def st_decl(self, s, b):
        vid, name, ty, init = s.x["vid"], s.x["name"], s.x["ty"], s.a[0]
        t = self.M.safe_norm(ty)
        if s.x.get("static"):
            raise Unsupported("static local variable")
        if init is not None and (init.op == "lambda" or t[0] == "lam"):
            i2 = init
            while i2.op in ("ctor", "cast") and len(i2.a) == 1:
                i2 = i2.a[0]
            self.env[vid] = ("lam", i2)
            return
        if t[0] == "fn":
            self.env[vid] = ("lam", self.lam(init))
            return
        if t[0] in ("iter", "riter") or (t[0] == "other" and "iterator" in str(t[1])):
            it = self.iter(init, b)
            if it is None:
                raise Unsupported(f"iterator {name}")
            if vid in self.mutset and vid in self.reseated():
                raise Unsupported("mutable iterator")
            if isinstance(it, IT) and not re.fullmatch(r"\w+", it.idx):
                it = IT(it.path, self.let(b, it.idx, "i"), it.rev, it.isend, it.elem)
            if isinstance(it, IT):
                n = self.bindname(name)
                b.add(f"let {n} = {it.idx} in")
                self.declare(n, ("int", "i64"))
                it = IT(it.path, n, it.rev, it.isend, it.elem)
            self.env[vid] = it
            return
        n0 = name
        if ty[0] in ("ref", "rref") and init is not None:
            p = self.path(init, b)
            if p is not None:
                if is_mut_ref(ty) and vid in self.mutset:
                    p = self.freeze(p, b)
                    self.env[vid] = p
                    return
                r = root_of(init)
                if (r in self.mutset or (r == "this" and "this" in self.mutset)) and p.mut:
                    p = self.freeze(p, b)
                    self.env[vid] = p
                    return
                n = self.bindname(n0)
                b.add(f"let {n} = {self.read(p)} in")
                self.declare(n, ty)
                self.env[vid] = Path(n, [], False)
                return
            if is_mut_ref(ty):
                raise Unsupported("reference to a temporary")
        if init is None or (init.op == "ctor" and False):
            if t[0] in ("int", "bool", "double", "enum"):
                v = None
            else:
                v = self.default(t, b)
        else:
            v = self.convq(self.ex(init, b), init.ty, t, b)
        n = self.bindname(n0)
        if v is None:
            an = "indet_" + self.M.tyname(t)
            self.M.vals.setdefault(an, f"val {an} (_u: unit) : {self.ty(t)}")
            v = f"({an} ())"
        if vid in self.mutset:
            b.add(f"let ref {n} = {v} in")
            self.env[vid] = Path(n, [], True)
        else:
            b.add(f"let {n} = {v} in")
            self.env[vid] = Path(n, [], False)
        self.declare(n, t)

    def freeze(self, p, b):
        """bind index terms so that the path denotes a fixed location"""
        accs = []
        for a in p.accs:
            if a[0] in ("i", "a", "m") and not re.fullmatch(r"\d+", a[1]):
                n = self.fresh("loc")
                b.add(f"let {n} = {a[1]} in")
                accs.append((a[0], n))
            else:
                accs.append(a)
        return Path(p.root, accs, p.mut)

    def st_decomp(self, s, b):
        init = s.a[0]
        p = self.path(init, b) if s.x["ty"][0] in ("ref", "rref") else None
        self.bind_decomp(s, p, None if p is not None else self.ex(init, b), init.ty, b, root_of(init))

    def comps(self, t):
        t = self.M.norm(t)
        if t[0] == "tup":
            n = len(t[1])
            return [(("f", self.M.tfield(i, n)), x) for i, x in enumerate(t[1])]
        if t[0] == "cls":
            fs = self.M.fields(t[1])
            self.ty(t)
            return [(("f", self.M._fld(t[1], f)), ft) for f, ft in fs]
        raise Unsupported(f"structured binding of {t}")

    def bind_decomp(self, s, p, val, t, b, root):
        cs = self.comps(t)
        if p is None:
            v = self.let(b, val, "d")
            p = Path(v, [], False)
        else:
            ismut = is_mut_ref(s.x["ty"]) and any(i in self.mutset for ids, _, _ in s.x["binds"] for i in ids)
            if ismut or (root in self.mutset and p.mut):
                p = self.freeze(p, b)
                for (ids, nm, bt), (acc, ct) in zip(s.x["binds"], cs):
                    q = p.ext(acc)
                    for i in ids:
                        self.env[i] = q
                return
        for (ids, nm, bt), (acc, ct) in zip(s.x["binds"], cs):
            n = self.bindname(nm)
            if any(i in self.mutset for i in ids):
                b.add(f"let ref {n} = {self.read(p.ext(acc))} in")
                q = Path(n, [], True)
            else:
                b.add(f"let {n} = {self.read(p.ext(acc))} in")
                q = Path(n, [], False)
            self.declare(n, ct)
            for i in ids:
                self.env[i] = q

    # ------------------------------------------------------------ loops
    def loop_mut(self, s):
        """WhyML roots that may be written in the loop"""
        mv = mutated(self.M, self.f, s, getattr(self, "_alias", None))
        roots = set()
        for v in mv:
            if v == "this":
                if self.this is not None and self.this.mut:
                    roots.add(self.this.root)
            else:
                bd = self.env.get(v)
                if isinstance(bd, Path) and bd.mut:
                    roots.add(bd.root)
                elif isinstance(bd, (IT, MIT)) and bd.path.mut:
                    roots.add(bd.path.root)
        return roots

    def st_loop(self, s, b, ret):
        if s.op == "do" and s.a[1].op == "lit" and s.a[1].x["v"] is False and not loop_has(s.a[0], "break") and not loop_has(s.a[0], "continue"):
            self.stmt(s.a[0], b, ret)
            return
        self.nloop += 1
        k = self.nloop
        it = f"it{k}"
        body = s.a[{"for": 3, "forrange": 2, "while": 1, "do": 0}[s.op]]
        spec = (self.c.loops.get(k) if self.c else None) or {}
        inv = [(n, self.subst(f)) for n, f in spec.get("invariant", [])]
        variant = spec.get("variant")
        variant = self.subst(variant) if variant else None
        b.add("begin")
        saved_env, saved_scope = dict(self.env), dict(self._scope)
        auto = []
        pre = B()
        bodyb = B()
        condtxt = "true"
        inc = B()
        # -- header
        if s.op == "for":
            for c in flat(s.a[0]):
                self.stmt(c, b, ret)
        rootmut = self.loop_mut(s)
        g = self.ghost(f"before{k}")
        if g:
            b.add(g)
        for r in sorted(rootmut):
            b.add(f"let ghost pre{k}_{r} = {r} in")
        b.add(f"let ref {it} = 0 in")
        self._scope[it] = "int"
        if s.op == "for":
            v = self.for_header(s, b, k, it, auto)
            if v and not variant:
                variant = v
            cb = B()
            c = self.ex(s.a[1], cb)
            condtxt = c if not cb.lines else "(begin\n" + cb.text(c) + "\nend)"
            if s.a[2] is not None:
                self.effect(s.a[2], inc)
        elif s.op == "while":
            cb = B()
            c = self.ex(s.a[0], cb)
            condtxt = c if not cb.lines else "(begin\n" + cb.text(c) + "\nend)"
            auto.append(f"{it} >= 0")
        elif s.op == "do":
            auto.append(f"{it} >= 0")
        elif s.op == "forrange":
            condtxt, v = self.range_header(s, b, bodyb, k, it, auto)
            if not variant:
                variant = v
        # -- frame: fields of records not written in the loop keep their value
        for r in sorted(rootmut):
            auto += self.frame_inv(s, r, f"pre{k}_{r}")
        self.exc += 1
        Br, Ct = f"Brk{self.exc}", f"Cnt{self.exc}"
        hb, hc = loop_has(body, "break"), loop_has(body, "continue")
        self.brk.append(Br)
        self.cnt.append(Ct)
        if self.canary_on:
            bodyb.add(self.canary(f"loop {k}"))
        g = self.ghost(f"begin{k}")
        if g:
            bodyb.add(g)
        txt = self.block(flat(body), False, ret)
        bodyb.add("begin\n" + txt + "\nend;" if not hc else f"begin exception {Ct} in try\n{txt}\nwith {Ct} -> () end end;")
        g = self.ghost(f"end{k}")
        if g:
            bodyb.add(g)
        bodyb.lines += inc.lines
        bodyb.add(f"{it} <- {it} + 1;")
        if s.op == "do":
            cb = B()
            c = self.ex(s.a[1], cb)
            bodyb.lines += cb.lines
            bodyb.add(f"if not {c} then raise {Br};")
            hb = True
        self.brk.pop()
        self.cnt.pop()
        w = []
        if hb:
            w.append(f"begin exception {Br} in try")
        w.append(f"while {condtxt} do")
        for a in auto:
            w.append(f"  invariant {{ [@expl:loop {k} counter] {a} }}")
        for n, f in inv:
            w.append(f"  invariant {{ [@expl:loop {k} {n}] {f} }}")
        if variant:
            w.append(f"  variant {{ {variant} }}")
        else:
            self.diverges = True
        w.append(bodyb.text("()"))
        w.append("done")
        if hb:
            w.append(f"with {Br} -> () end end")
        b.add("\n".join(w) + ";")
        g = self.ghost(f"after{k}")
        if g:
            b.add(g)
        b.add("() end;")
        self.env, self._scope = saved_env, saved_scope

    def frame_inv(self, s, r, pre):
        """top-level record fields of root r that no l-value in the loop touches"""
        w = self._scope.get(r)
        if w is None or not w.startswith("t_"):
            return []
        cls = [c for c in self.M.P.records if "t_" + san(c) == w]
        if not cls:
            return []
        fs = [self.M._fld(cls[0], f) for f, ft in self.M.fields(cls[0]) if self.M.keepfield(cls[0], f, ft)]
        touched = set()
        for n in walk_e(s):
            if isinstance(n, E) and n.op == "field":
                touched.add(n.x["name"])
            if isinstance(n, E) and n.op == "call" and n.x.get("key") in self.M.P.funs and n.x["kind"] == "method":
                f = self.M.P.fun(n.x["key"])
                if not f.const:
                    for m in walk_e(f.body):
                        if isinstance(m, E) and m.op == "field":
                            touched.add(m.x["name"])
                        if isinstance(m, E) and m.op == "call" and m.x.get("key") is not None and m.x["kind"] == "method":
                            return []
                    if self.M.C.find(n.x["key"]):
                        return []
        return [f"{r}.{f} = {pre}.{f}" for f in fs if not any(f == self.M._fld(cls[0], t) for t in touched)]

    def for_header(self, s, b, k, it, auto):
        """automatic invariants of `for (T v = a; v < n; ++v)`"""
        variant = None
        decls = [c for c in flat(s.a[0]) if c.op == "decl"]
        inc = s.a[2]
        auto.append(f"{it} >= 0")
        if inc is not None and inc.op == "incdec" and inc.a[0].op == "var":
            vid = inc.a[0].x["id"]
            bd = self.env.get(vid)
            bodymut = mutated(self.M, self.f, s.a[3])
            if isinstance(bd, Path) and not bd.accs and vid not in bodymut:
                v = bd.root
                b.add(f"let init{k} = {v} in")
                self._scope[f"init{k}"] = "int"
                up = inc.x["op"] == "++"
                auto.append(f"{v} = init{k} {'+' if up else '-'} {it}")
                c = s.a[1]
                conj = [c]
                while conj and conj[0].op == "bin" and conj[0].x["op"] == "&&":
                    x = conj.pop(0)
                    conj = [x.a[0], x.a[1]] + conj
                for c in conj:
                    if c.op != "bin":
                        continue
                    l, r = c.a
                    o = c.x["op"]

                    def isv(e):
                        while e.op in ("icast",):
                            e = e.a[0]
                        return e.op == "var" and e.x["id"] == vid
                    if isv(r) and not isv(l):
                        l, r = r, l
                        o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
                    if not isv(l):
                        continue
                    rm = mutated(self.M, self.f, s)
                    if any(isinstance(x, E) and x.op == "var" and x.x["id"] in rm and not self.const_global(x) for x in walk_e(r)):
                        continue
                    if any(isinstance(x, E) and x.op == "this" for x in walk_e(r)) and "this" in rm:
                        continue
                    bb = B()
                    sv = self.overflow
                    self.overflow = False
                    try:
                        n = self.ex(r, bb)
                    except Unsupported:
                        continue
                    finally:
                        self.overflow = sv
                    if any("assert" in x for x in bb.lines):
                        bb.lines = [x for x in bb.lines if not x.startswith("assert")]
                    if any(not x.startswith("let ") for x in bb.lines):
                        continue
                    for x in bb.lines:
                        b.add(x)
                    b.add(f"let bound{k} = {n} in")
                    self._scope[f"bound{k}"] = "int"
                    if up and o in ("<", "!="):
                        auto.append(f"{v} <= bound{k} \\/ {it} = 0")
                        variant = f"bound{k} - {v}"
                    elif up and o == "<=":
                        auto.append(f"{v} <= bound{k} + 1 \\/ {it} = 0")
                        variant = f"bound{k} - {v}"
                    elif not up and o in (">", "!="):
                        auto.append(f"{v} >= bound{k} \\/ {it} = 0")
                        variant = f"{v} - bound{k}"
                    elif not up and o == ">=":
                        auto.append(f"{v} >= bound{k} - 1 \\/ {it} = 0")
                        variant = f"{v} - bound{k}"
                    break
        return variant

    def range_header(self, s, b, bodyb, k, it, auto):
        d, r = s.a[0], s.a[1]
        rng = f"rng{k}"
        if r.op == "var" and r.ty[0] in ("ref",) and False:
            pass
        # enumerate(v)
        enum = False
        if r.op == "call" and r.x["name"] == "enumerate":
            enum = True
            self.M.trusted.add("enumerate(v) iterates (i, v[i]) for i = 0..size-1 (its members are checked against this protocol in C04)")
            r = r.a[0]
        t = self.M.norm(r.ty)
        if t == ("cls", "range"):
            if not (r.op == "ctor"):
                raise Unsupported("range object")
            vs = [self.ex(a, b) for a in r.a]
            lo, hi = ("0", vs[0]) if len(vs) == 1 else (vs[0], vs[1])
            b.add(f"let init{k} = {lo} in let bound{k} = {hi} in")
            self._scope[f"init{k}"] = self._scope[f"bound{k}"] = "int"
            auto.append(f"0 <= {it} /\\ (init{k} + {it} <= bound{k} \\/ {it} = 0)")
            self.M.trusted.add("range(a,b) iterates a..b-1 (its members are checked against this protocol in C09)")
            n = self.bindname(d.x["name"])
            bodyb.add(f"let {n} = init{k} + {it} in")
            self.env[d.x["vid"]] = Path(n, [], False)
            self.declare(n, ("int", "u64"))
            return f"(init{k} + {it} < bound{k})", f"bound{k} - init{k} - {it}"
        p = self.path(r, b)
        root = root_of(r)
        rm = self.loop_mut(s)
        if t[0] == "cls":
            # user class with begin()/end() over one member
            keys = []
            for c in self.M.bases_of(t[1]):
                keys += [kk for kk, n in self.M.P.funs.items() if n.get("_cls") == c and n.get("name") == "begin"]
            if not keys:
                raise Unsupported(f"iteration over {t}")
            f = self.M.P.fun(keys[0])
            st = flat(f.body)
            if not (len(st) == 1 and st[0].op == "return"):
                raise Unsupported("begin()")
            inner = st[0].a[0]
            while inner.op == "ctor":
                inner = inner.a[0]
            if inner.op != "call" or inner.x["name"] not in ("begin", "cbegin"):
                raise Unsupported("begin()")
            if p is None:
                p = Path(self.let(b, self.ex(r, b)), [], False)
            sv = self.this
            self.this = p
            p = self.path(inner.a[0], b)
            t = self.M.norm(inner.a[0].ty)
            self.this = sv
        live = p is not None and p.mut and p.root in rm
        if t[0] not in ("vec", "map", "arr"):
            raise Unsupported(f"iteration over {t}")
        if p is None:
            v = self.ex(r, b)
            b.add(f"let {rng} = {v} in")
            p = Path(rng, [], False)
            self._scope[rng] = self.ty(t)
        elif not live:
            b.add(f"let {rng} = {self.read(p)} in")
            p = Path(rng, [], False)
            self._scope[rng] = self.ty(t)
        else:
            p = self.freeze(p, b)
            # the element sequence may only be updated in place
            for n in walk_e(s.a[2]):
                if isinstance(n, E) and n.op == "call" and n.x.get("key") is None and n.x["kind"] == "method" \
                        and n.x["name"] in MUT_METHODS - {"operator="} and n.a and root_of(n.a[0]) == root:
                    q = self.path_quiet(n.a[0])
                    if q is None or (q.root == p.root and (q.accs[:len(p.accs)] == p.accs[:len(q.accs)]) and len(q.accs) <= len(p.accs)):
                        raise Unsupported("container modified while iterated")
            b.add(f"let ghost {rng} = {self.read(p)} in")
            self._scope[rng] = self.ty(t)
        c = self.read(p)
        ln = {"vec": f"length {c}", "map": f"csize {c}", "arr": "8"}[t[0]]
        ln0 = {"vec": f"length {rng}", "map": f"csize {rng}", "arr": "8"}[t[0]]
        auto.append(f"0 <= {it} <= {ln0}")
        if live:
            auto.append(f"{ln} = {ln0}")
            if t[0] == "map":
                auto.append(f"ckeys {c} = ckeys {rng}")
                auto.append(f"forall j_. {it} <= j_ < csize {rng} -> cget {c} (ckey {rng} j_) = cget {rng} (ckey {rng} j_)")
            elif t[0] == "arr":
                auto.append(f"forall j_. {it} <= j_ < 8 -> aget {c} j_ = aget {rng} j_")
            else:
                auto.append(f"forall j_. {it} <= j_ < length {rng} -> {c}[j_] = {rng}[j_]")
        if t[0] in ("vec", "arr"):
            el = p.ext(("i" if t[0] == "vec" else "a", it))
            if enum:
                # pair (index, reference to element)
                (ids1, n1, t1), (ids2, n2, t2) = d.x["binds"]
                a = self.bindname(n1)
                bodyb.add(f"let {a} = {it} in")
                self.declare(a, ("int", "i32"))
                for i in ids1:
                    self.env[i] = Path(a, [], False)
                if live and any(i in self.mutset for i in ids2):
                    for i in ids2:
                        self.env[i] = el
                else:
                    c2 = self.bindname(n2)
                    bodyb.add(f"let {c2} = {self.read(el)} in")
                    self.declare(c2, t[1])
                    for i in ids2:
                        self.env[i] = Path(c2, [], False)
            elif d.op == "decl":
                mutel = is_mut_ref(d.x["ty"]) and d.x["vid"] in self.mutset
                if mutel:
                    self.env[d.x["vid"]] = el
                else:
                    n = self.bindname(d.x["name"])
                    kw = "let ref" if d.x["vid"] in self.mutset else "let"
                    bodyb.add(f"{kw} {n} = {self.read(el)} in")
                    self.declare(n, t[1])
                    self.env[d.x["vid"]] = Path(n, [], d.x["vid"] in self.mutset)
            else:
                self.bind_decomp(d, el, None, t[1], bodyb, root if live else None)
        else:
            key = f"key{k}"
            bodyb.add(f"let {key} = ckey {c} {it} in")
            self._scope[key] = self.ty(t[1])
            kp = Path(key, [], False)
            vp = p.ext(("m", key))
            if d.op == "decl":
                mutel = is_mut_ref(d.x["ty"]) and d.x["vid"] in self.mutset
                if mutel:
                    self.env[d.x["vid"]] = MIT(p, key, "true", ty=t)
                    self.mapelem = getattr(self, "mapelem", {})
                    self.mapelem[d.x["vid"]] = (kp, vp)
                    raise Unsupported("mutable map element without structured binding")
                n = self.bindname(d.x["name"])
                bodyb.add(f"let {n} = {{ fst = {key}; snd = {self.read(vp)} }} in")
                self._scope[n] = f"(pair {self.ty(t[1])} {self.ty(t[2])})"
                self.env[d.x["vid"]] = Path(n, [], False)
            else:
                (ids1, n1, t1), (ids2, n2, t2) = d.x["binds"]
                a = self.bindname(n1)
                bodyb.add(f"let {a} = {key} in")
                self._scope[a] = self.ty(t[1])
                self.locals.append((a, self.ty(t[1])))
                for i in ids1:
                    self.env[i] = Path(a, [], False)
                if live:
                    for i in ids2:
                        self.env[i] = vp
                else:
                    c2 = self.bindname(n2)
                    kw = "let ref" if any(i in self.mutset for i in ids2) else "let"
                    bodyb.add(f"{kw} {c2} = {self.read(vp)} in")
                    self._scope[c2] = self.ty(t[2])
                    self.locals.append((c2, self.ty(t[2])))
                    for i in ids2:
                        self.env[i] = Path(c2, [], kw != "let")
        return f"({it} < {ln})", f"{ln0} - {it}"

    def path_quiet(self, e):
        try:
            bb = B()
            return self.path(e, bb)
        except Unsupported:
            return None

    # ------------------------------------------------------------ whole function
    def emit(self, canary=True):
        f, c, M = self.f, self.c, self.M
        self.canary_on = canary
        self.brk, self.cnt = [], []
        self._scope = {}
        self.isctor = f.kind == "CXXConstructorDecl"
        self._alias = {}
        # aliases of the whole body, used by loop_mut for parts of it
        self.mutset = mutated(M, f, f.body, self._alias)
        # inlined helpers may write through references: collect theirs lazily (params are bound as paths)
        self.mutset |= self.inlined_mut(f)
        hdr, pre = [], []
        names = list(c.params)
        i = 0
        if self.isctor:
            pass
        elif f.cls and not f.static:
            nm = names[0]
            i = 1
            if not f.const:
                hdr.append(f"(ref {nm}: {self.ty(('cls', f.cls))})")
                self.this = Path(nm, [], True)
            else:
                hdr.append(f"({nm}: {self.ty(('cls', f.cls))})")
                self.this = Path(nm, [], False)
            self.names.add(nm)
            self._scope[nm] = self.ty(("cls", f.cls))
        if len(names) - i != len(f.params):
            raise Unsupported(f"contract of {f.key} has {len(names)} parameters")
        for (pid, pn, pt), nm in zip(f.params, names[i:]):
            self.names.add(nm)
            if M.safe_norm(pt)[0] == "fn":
                raise Unsupported("function parameter")
            self._scope[nm] = self.ty(pt)
            if is_mut_ref(pt):
                hdr.append(f"(ref {nm}: {self.ty(pt)})")
                self.env[pid] = Path(nm, [], True)
            else:
                hdr.append(f"({nm}: {self.ty(pt)})")
                if pid in self.mutset and pt[0] != "ref":
                    pre.append(f"let ref {nm}' = {nm} in".replace("'", "_v"))
                    self._scope[nm + "_v"] = self.ty(pt)
                    self.env[pid] = Path(nm + "_v", [], True)
                else:
                    self.env[pid] = Path(nm, [], False)
        b = B()
        b.lines += pre
        if canary:
            b.add(self.canary("entry"))
        g = self.ghost("entry")
        if g:
            b.add(g)
        if self.isctor:
            given = {}
            for itx in f.inits:
                if itx[0] == "field" and itx[2] is not None:
                    ft = dict(M.fields(f.cls)).get(itx[1])
                    if M.keepfield(f.cls, itx[1], ft):
                        given[itx[1]] = self.let(b, self.convq(self.ex(itx[2], b), itx[2].ty, ft, b), "m")
                elif itx[0] == "base" and itx[2] is not None:
                    given[M.fields(f.cls)[0][0]] = self.ex(itx[2], b)
            b.add(f"let ref this = {self.memberwise(f.cls, given, b)} in")
            self._scope["this"] = self.ty(("cls", f.cls))
            self.names.add("this")
            self.this = Path("this", [], True)
            if any(has_ret(s) for s in flat(f.body)):
                raise Unsupported("return in constructor")
            for s in flat(f.body):
                self.stmt(s, b, ("fun",))
            if canary:
                b.add(self.canary("exit"))
            fin = self.exit_ghost(b, "this")
            body = b.text(fin)
        else:
            t = self.block(flat(f.body), True, ("fun",))
            body = b.text(t)
        M.used_funs.discard(f.key) if not c.recursive else None
        rt = M.rettype(f.key)
        out = [f"let {'rec ' if c.recursive else ''}{M.valname(f.key)}_impl {' '.join(hdr) or '()'} : {rt}"]
        for n, r in c.requires:
            out.append(f"  requires {{ [@expl:precondition {n}] {r} }}")
        for n, e in c.ensures_all():
            out.append(f"  ensures {{ [@expl:{n}] {self.old(e)} }}")
        if self.raises or c.raises is not None:
            out.append(f"  raises {{ Throw -> [@expl:exceptional postcondition] {c.raises or 'false'} }}")
        if c.variant:
            out.append(f"  variant {{ {c.variant} }}")
        if self.diverges or c.diverges:
            out.append("  diverges")
            self.diverges = True
        out.append("=")
        out.append(body)
        return "\n".join(out)

    def old(self, e):
        return e

    def inlined_mut(self, f):
        return set()


def _valname(self, key):
    return san(fun_name(key)).lower() + "_" + format(abs(hash_(key)) % 0xfff, "x")


def hash_(s):
    h = 5381
    for ch in s:
        h = (h * 33 + ord(ch)) & 0xffffffff
    return h


def _returns_this(self, f):
    return f.cls is not None and f.ret[0] == "ref" and not f.ret[2] and self.safe_norm(f.ret)[0] == "cls" and not self.is_accessor(f)


def _returns_this_expr(self, f, e):
    return self.returns_this(f) and e.op == "deref" and e.a[0].op == "this"


def _rettype(self, key):
    f = self.P.fun(key)
    if f.kind == "CXXConstructorDecl":
        return self.ty(("cls", f.cls))
    if self.returns_this(f):
        return "unit"
    return self.ty(f.ret)


def _declare_val(self, key):
    n = self.valname(key)
    self.used_funs.add(key)
    if n in self.vals:
        return n
    c = self.C.find(key)
    f = self.P.fun(key)
    self.vals[n] = None
    hdr, writes = [], []
    names = list(c.params)
    i = 0
    if f.kind == "CXXConstructorDecl":
        pass
    elif f.cls and not f.static:
        i = 1
        if not f.const:
            hdr.append(f"(ref {names[0]}: {self.ty(('cls', f.cls))})")
            writes.append(names[0])
        else:
            hdr.append(f"({names[0]}: {self.ty(('cls', f.cls))})")
    if len(names) - i != len(f.params):
        raise Unsupported(f"contract of {key} does not bind")
    for (pid, pn, pt), nm in zip(f.params, names[i:]):
        if is_mut_ref(pt):
            hdr.append(f"(ref {nm}: {self.ty(pt)})")
            writes.append(nm)
        else:
            hdr.append(f"({nm}: {self.ty(pt)})")
    out = [f"val {n} {' '.join(hdr) or '()'} : {self.rettype(key)}"]
    for nn, r in c.requires:
        out.append(f"  requires {{ [@expl:precondition {nn} of {fun_name(key)}] {r} }}")
    if writes:
        out.append(f"  writes {{ {', '.join(writes)} }}")
    for nn, e in c.ensures_all():
        out.append(f"  ensures {{ {e} }}")
    if c.raises is not None:
        out.append(f"  raises {{ Throw -> {c.raises} }}")
    if c.diverges:
        out.append("  diverges")
    del self.vals[n]
    self.vals[n] = "\n".join(out)
    return n


Module.valname = _valname
Module.returns_this = _returns_this
Module.returns_this_expr = _returns_this_expr
Module.rettype = _rettype
Module.declare_val = _declare_val
