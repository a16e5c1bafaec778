"""Clang JSON AST of /repo -> small IR.

One translation unit is generated that includes every .cc file of
/repo/wicked/{helpers,algebra,diagrams} inside `inline namespace wickedns`,
so that clang's -ast-dump-filter prints exactly the repository's own code
(with all template instantiations and resolved overloads) and nothing of the
standard library.  The IR below keeps every statement of a function body.
"""
import json, os, re, subprocess, hashlib

REPO = os.environ.get("WICKED_REPO", "/repo")
CLANG = "/usr/bin/clang++"
FLAGS = ["-std=gnu++20", "-DUSE_BOOST_1024_INT", "-D_wicked_EXPORTS", "-O3", "-DNDEBUG",
         "-Wno-everything"]
NS = "wickedns"
# class templates whose members are used only by the Python bindings
INSTANTIATE = ["Algebra<Expression, SymbolicTerm, scalar_t>",
               "Algebra<OperatorExpression, OperatorProduct, scalar_t>",
               "Product<SQOperator>", "Product<Operator>"]


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ AST dump
def write_tu(path, repo=REPO):
    R = f"{repo}/wicked"
    ccs, sysinc = [], set()
    for d in ("helpers", "algebra", "diagrams"):
        for f in sorted(os.listdir(f"{R}/{d}")):
            if f.endswith(".cc"):
                ccs.append(f"{R}/{d}/{f}")
    for d in ("", "helpers", "algebra", "diagrams"):
        for f in sorted(os.listdir(f"{R}/{d}")):
            if f.endswith((".h", ".hpp", ".cc")):
                for l in open(f"{R}/{d}/{f}", errors="replace"):
                    m = re.match(r'\s*#\s*include\s*(<([^>]+)>|"(boost/[^"]+)")', l)
                    if m:
                        sysinc.add(m.group(2) or m.group(3))
    out = "".join(f"#if __has_include(<{h}>)\n#include <{h}>\n#endif\n" for h in sorted(sysinc))
    out += f"inline namespace {NS} {{\nusing std::to_string;\n"
    out += "".join(f'#include "{c}"\n' for c in ccs)
    out += "".join(f"template class {t};\n" for t in INSTANTIATE) + "}\n"
    open(path, "w").write(out)
    return ccs


def dump_ast(workdir, repo=REPO):
    tu = f"{workdir}/tu.cc"
    write_tu(tu, repo)
    R = f"{repo}/wicked"
    inc = [f"-I{R}/.", f"-I{R}/algebra", f"-I{R}/diagrams"]
    cmd = [CLANG] + FLAGS + inc + ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang",
                                   f"-ast-dump-filter={NS}", tu]
    out = f"{workdir}/ast.json"
    with open(out, "w") as f, open(f"{workdir}/ast.err", "w") as g:
        subprocess.run(cmd, stdout=f, stderr=g, timeout=300)
    errs = [l for l in open(f"{workdir}/ast.err") if "error:" in l]
    # -ast-dump-filter may print several documents; they are concatenated
    txt = open(out).read()
    dec = json.JSONDecoder()
    docs, i = [], 0
    while i < len(txt):
        while i < len(txt) and txt[i] in " \n\r\t":
            i += 1
        if i >= len(txt):
            break
        d, i = dec.raw_decode(txt, i)
        docs.append(d)
    return docs, errs, " ".join(cmd)


# ------------------------------------------------------------------ types
def _split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


class Types:
    def __init__(self):
        self.typedefs = {}
        self.classes = {}
        self.enums = {}

    INTS = {"int": "i32", "long": "i64", "long long": "i64", "long long int": "i64",
            "unsigned int": "u32", "unsigned": "u32", "unsigned long": "u64", "size_t": "u64",
            "std::size_t": "u64", "size_type": "u64", "unsigned long long": "u64",
            "ptrdiff_t": "i64", "difference_type": "i64", "short": "i16", "unsigned char": "u8",
            "__difference_type": "i64", "ssize_t": "i64", "uint64_t": "u64", "int64_t": "i64"}

    def parse(self, s, depth=0):
        s = s.strip()
        if depth > 40:
            raise Unsupported("type " + s)
        for kw in ("class ", "struct ", "typename ", "enum "):
            if s.startswith(kw):
                s = s[len(kw):].strip()
        const = False
        ref = None
        # trailing & / && / *
        while True:
            if s.endswith("&&"):
                ref = ref or "rref"
                s = s[:-2].strip()
            elif s.endswith("&"):
                ref = "ref"
                s = s[:-1].strip()
            elif s.endswith(" const"):
                const = True
                s = s[:-6].strip()
            elif s.startswith("const "):
                const = True
                s = s[6:].strip()
            else:
                break
        if s.endswith("*"):
            t = ("ptr", self.parse(s[:-1], depth + 1))
        else:
            t = self.base(s, depth)
        if ref:
            return (ref, t, const)
        if const:
            return ("const", t)
        return t

    def base(self, s, depth):
        s = s.strip()
        for pre in (NS + "::", "std::__cxx11::", "std::", "::", "__gnu_cxx::"):
            while s.startswith(pre):
                s = s[len(pre):]
        if s in self.INTS:
            return ("int", self.INTS[s])
        if s == "bool" or s == "_Bit_reference":
            return ("bool",)
        if s in ("double", "float"):
            return ("double",)
        if s == "void":
            return ("void",)
        if s in ("char",):
            return ("char",)
        if s in ("string", "basic_string<char>"):
            return ("str",)
        if s in self.typedefs and depth < 30:
            return strip(self.parse(self.typedefs[s], depth + 1))
        if s in self.enums:
            return ("enum", s)
        m = re.match(r"^([\w:]+)<(.*)>$", s, re.S)
        if m:
            name = m.group(1)
            name = name.split("::")[-1] if name.startswith(("std::", "boost::")) else name
            args = _split_args(m.group(2))
            if name in ("vector", "deque"):
                return ("vec", strip(self.parse(args[0], depth + 1)))
            if name in ("initializer_list",):
                return ("vec", strip(self.parse(args[0], depth + 1)))
            if name in ("map",):
                return ("map", strip(self.parse(args[0], depth + 1)), strip(self.parse(args[1], depth + 1)))
            if name in ("set",):
                return ("set", strip(self.parse(args[0], depth + 1)))
            if name in ("pair", "tuple"):
                return ("tup", tuple(strip(self.parse(a, depth + 1)) for a in args))
            if name == "optional":
                return ("opt", strip(self.parse(args[0], depth + 1)))
            if name == "array":
                return ("arr", strip(self.parse(args[0], depth + 1)), args[1].strip())
            if name == "function":
                return ("fn",)
            if name == "shared_ptr":
                return ("sptr", strip(self.parse(args[0], depth + 1)))
            if name == "bitset":
                return ("bitset",)
            if name.endswith("number") or name == "number":
                return ("big",)
            if name in ("__normal_iterator",):
                return ("iter", "vec", strip(self.parse(args[1], depth + 1)))
            if name in ("_Rb_tree_iterator", "_Rb_tree_const_iterator"):
                return ("iter", "map", strip(self.parse(args[0], depth + 1)))
            if name in ("reverse_iterator",):
                return ("riter", strip(self.parse(args[0], depth + 1)))
            if name in ("remove_reference", "remove_reference_t", "__remove_reference"):
                return strip(self.parse(args[0], depth + 1))
            if s in self.classes:
                return ("cls", s)
            return ("tcls", name, tuple(strip(self.parse(a, depth + 1)) for a in args))
        if s in self.classes:
            return ("cls", s)
        if s.startswith("(lambda"):
            return ("lam", s)
        return ("other", s)

    def of(self, node):
        ty = node.get("type", {})
        d = ty.get("desugaredQualType")
        q = ty.get("qualType", "")
        try:
            t = self.parse(d or q)
        except RecursionError:
            t = ("other", q)
        if d and strip(t)[0] in ("other", "tcls"):
            t2 = self.parse(q)
            if strip(t2)[0] not in ("other",):
                return t2
        if strip(t)[0] == "iter" and strip(t)[-1][0] == "other":
            return t
        return t


def strip(t):
    while t[0] in ("ref", "rref", "const"):
        t = t[1]
    return t


def is_mut_ref(t):
    """non-const lvalue reference"""
    return t[0] == "ref" and not t[2] and t[1][0] != "const"


# ------------------------------------------------------------------ IR
class E:
    __slots__ = ("op", "a", "ty", "x", "loc")

    def __init__(self, op_, a=(), ty=None, **x):
        self.op, self.a, self.ty, self.x = op_, list(a), ty, x

    def __repr__(self):
        return f"({self.op} {self.x or ''} {' '.join(map(repr, self.a))})"


class S:
    __slots__ = ("op", "a", "x", "loc")

    def __init__(self, op_, *a, **x):
        self.op, self.a, self.x = op_, list(a), x
        self.loc = None

    def __repr__(self):
        return f"[{self.op} {self.x or ''} {self.a}]"


class Fun:
    pass


SKIP = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
        "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultInitExpr"}


class Program:
    """All declarations of the repository's TU."""

    def __init__(self, docs):
        self.T = Types()
        self.byid = {}
        self.funs = {}        # key -> list of decl nodes with bodies
        self.id2key = {}
        self.records = {}     # class name -> record decl
        self.vars = {}
        self._parent = {}
        self.decls = []
        for d in docs:
            self._index(d, "", None)
        self._demangle()
        self._cache = {}
        self.closure_hook = None      # variables a lambda writes

    # -- indexing
    def _index(self, n, scope, cls):
        stack = [(n, scope, cls, None)]
        self.fundecls = []
        while stack:
            n, scope, cls, par = stack.pop()
            k = n.get("kind")
            if "id" in n:
                self.byid[n["id"]] = n
                self._parent[n["id"]] = par
            nscope, ncls = scope, cls
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
                name = n.get("name", "")
                if k == "ClassTemplateSpecializationDecl":
                    args = []
                    for c in n.get("inner", []):
                        if c.get("kind") == "TemplateArgument":
                            args.append(c.get("type", {}).get("qualType", c.get("value", "?")) if not isinstance(c.get("value"), dict) else "?")
                    name = f"{name}<{', '.join(map(str, args))}>"
                if name:
                    n["_qname"] = name
                    if n.get("completeDefinition") or k == "ClassTemplateSpecializationDecl":
                        if k == "CXXRecordDecl" and par and par.get("kind") == "ClassTemplateDecl":
                            pass
                        else:
                            self.records.setdefault(name, n)
                            self.T.classes[name] = n
                ncls = name
            elif k in ("TypedefDecl", "TypeAliasDecl"):
                if not cls or "<" not in str(cls):
                    q = n.get("type", {})
                    self.T.typedefs.setdefault(n["name"], q.get("desugaredQualType") or q.get("qualType"))
            elif k == "EnumDecl":
                self.T.enums[n.get("name")] = [c["name"] for c in n.get("inner", []) if c.get("kind") == "EnumConstantDecl"]
            elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
                n["_cls"] = cls
                self.fundecls_append(n)
            elif k == "VarDecl":
                self.vars.setdefault(n.get("name"), n)
            for c in reversed(n.get("inner", [])):
                if isinstance(c, dict):
                    stack.append((c, nscope, ncls, n))

    def fundecls_append(self, n):
        self.decls.append(n)

    def _demangle(self):
        names = sorted({n["mangledName"] for n in self.decls if n.get("mangledName")})
        if names:
            r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
            dm = dict(zip(names, r.stdout.split("\n")))
        else:
            dm = {}
        for n in self.decls:
            m = n.get("mangledName")
            if not m:
                continue
            key = dm.get(m, m).replace(NS + "::", "")
            n["_key"] = key
            self.id2key[n["id"]] = key
            if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
                self.funs.setdefault(key, n)
            elif n["kind"] == "CXXConstructorDecl" and any(c.get("kind") == "CXXCtorInitializer" for c in n.get("inner", [])):
                self.funs.setdefault(key, n)
        # class of out-of-line definitions
        for n in self.decls:
            pid = n.get("parentDeclContextId")
            if pid and pid in self.byid and self.byid[pid].get("_qname"):
                n["_cls"] = self.byid[pid]["_qname"]

    def find(self, pattern, nparams=None):
        """function keys matching a name such as `rational::operator+=`"""
        out = []
        for k in self.funs:
            nm = fun_name(k)
            if nm == pattern and (nparams is None or len(self.params(k)) == nparams):
                out.append(k)
        return sorted(out)

    def params(self, key):
        n = self.funs[key]
        return [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]

    def is_global(self, vid):
        i = self._parent.get(vid)
        n = self.byid.get(vid, {})
        return n.get("storageClass") in ("static", "extern") or (i is not None and i.get("kind") in ("TranslationUnitDecl", "NamespaceDecl"))

    def fun(self, key):
        if key not in self._cache:
            self._cache[key] = Lower(self).fun(key)
        return self._cache[key]


def fun_name(key):
    """strip return type, template args of the function itself and parameter list of a demangled name"""
    # cut the parameter list: last top-level '('
    d = 0
    pos = None
    i = 0
    s = key
    if "{lambda" in s or "'lambda" in s:
        return "<lambda>"
    s = re.sub(r"\[abi:\w+\]", "", s)
    s = s.replace("operator()", "operator@call")
    s = s.replace("(anonymous namespace)::", "")
    depth = 0
    for i, ch in enumerate(s):
        if ch == "<" and not re.search(r"operator<?<?=?$", s[:i]) and not s[:i].endswith("operator"):
            depth += 1
        elif ch == ">" and depth > 0 and not s[:i].endswith(("operator", "operator-", "operator>")):
            depth -= 1
        elif ch == "(" and depth == 0:
            pos = i
            break
    if pos is not None:
        s = s[:pos]
    # template function: "ret name<args>"
    # remove a leading return type (top-level space not inside <> and not after 'operator')
    depth = 0
    cut = 0
    for i, ch in enumerate(s):
        if ch == "<" and not s[:i].endswith(("operator", "operator<")):
            depth += 1
        elif ch == ">" and depth > 0 and not s[:i].endswith(("operator", "operator-")):
            depth -= 1
        elif ch == " " and depth == 0 and not s[:i].endswith("operator"):
            cut = i + 1
    s = s[cut:]
    # strip trailing template args of the function name
    if s.endswith(">") and not s.endswith(("operator>", "operator->", "operator>>", "operator<=>")):
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ">":
                depth += 1
            elif s[i] == "<":
                depth -= 1
                if depth == 0:
                    s = s[:i]
                    break
    return s.replace("operator@call", "operator()")


def _walk(n):
    yield n
    for c in n.get("inner", []):
        yield from _walk(c)


class Lower:
    def __init__(self, P):
        self.P = P
        self.T = P.T

    def fun(self, key):
        n = self.P.funs.get(key)
        if n is None:
            raise Unsupported(f"no body for {key}")
        f = Fun()
        f.key = key
        f.node = n
        f.name = n.get("name")
        f.kind = n["kind"]
        f.cls = n.get("_cls") if n["kind"] != "FunctionDecl" else None
        q = n["type"]["qualType"]
        f.static = n.get("storageClass") == "static" and f.cls is not None
        # static may be only on the in-class declaration
        prev = n.get("previousDecl")
        if prev and prev in self.P.byid and self.P.byid[prev].get("storageClass") == "static":
            f.static = f.cls is not None
        f.const = bool(re.search(r"\)\s*const\b", q))
        f.ret = self.T.parse(self._ret(n)) if n["kind"] != "CXXConstructorDecl" else ("void",)
        f.params = []
        for p in self.P.params(key):
            f.params.append((p["id"], p.get("name", "_"), self.T.of(p)))
        f.inits = []
        f.body = S("block")
        for c in n.get("inner", []):
            if c.get("kind") == "CXXCtorInitializer":
                f.inits.append(self.ctor_init(c))
            elif c.get("kind") == "CompoundStmt":
                f.body = self.stmt(c)
        if f.name == "operator()" and ("::$_" in key or "{lambda" in key or "'lambda" in key):
            self.closure(f)
        loc = n.get("loc", {})
        f.loc = f"{loc.get('file', '')}:{loc.get('line', '')}"
        return f

    def closure(self, f):
        """a lambda as a function of its captured variables and its parameters"""
        bound = {p[0] for p in f.params}
        caps = []

        def walk(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
                return
            if not isinstance(x, (S, E)):
                return
            if x.op == "decl":
                bound.add(x.x["vid"])
            if x.op == "lambda":
                bound.update(p[0] for p in x.x["params"])
                walk(x.x["body"])
            if x.op == "var" and x.x["id"] not in bound and x.x["name"] != "orbital_subspaces" and x.x.get("kind") in ("VarDecl", "ParmVarDecl"):
                d = self.P.byid.get(x.x["id"])
                if x.x["id"] not in [c[0] for c in caps] and d is not None and not self.P.is_global(x.x["id"]):
                    caps.append((x.x["id"], x.x["name"], x.ty))
            for y in x.a:
                walk(y)
        walk(f.body)
        f.closure = caps
        f.cls = None
        mut = self.P.closure_hook(f) if self.P.closure_hook else {c[0] for c in caps}
        f.params = [(i, n, ("ref", strip(t), i not in mut)) for i, n, t in caps] + f.params

    def _ret(self, n):
        q = n["type"].get("qualType", "")
        # return type = up to the matching '(' of the parameter list
        depth = 0
        # parameter list is the last top-level (...) group
        groups = []
        start = None
        d = 0
        for i, ch in enumerate(q):
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif ch == "(":
                if d == 0:
                    start = i
                    groups.append(i)
                d += 1
            elif ch == ")":
                d -= 1
        r = q[:groups[0]].strip() if groups else q
        if "->" in q[groups[0]:] if groups else False:
            r = q.split("->")[-1].strip()
        return r

    def ctor_init(self, c):
        inner = [x for x in c.get("inner", []) if x]
        a = c.get("anyInit")
        b = c.get("baseInit")
        if a and inner and inner[0].get("kind") == "CXXDefaultInitExpr" and not inner[0].get("inner"):
            fd = self.P.byid.get(a["id"])
            sub = [x for x in (fd or {}).get("inner", []) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
            if not sub:
                raise Unsupported("default member initializer of " + a["name"])
            return ("field", a["name"], self.ex(sub[0]))
        if a:
            return ("field", a["name"], self.ex(inner[0]) if inner else None)
        if b:
            return ("base", b.get("qualType"), self.ex(inner[0]) if inner else None)
        raise Unsupported("ctor initializer")

    # -- statements
    def stmt(self, n):
        if not n or "kind" not in n:
            return S("nop")
        s = self._stmt(n)
        return s

    def _stmt(self, n):
        k = n["kind"]
        I = n.get("inner", [])
        if k == "CompoundStmt":
            return S("block", *[self.stmt(c) for c in I])
        if k == "NullStmt":
            return S("nop")
        if k == "DeclStmt":
            return S("block", *[self.decl(c) for c in I], flat=True)
        if k == "IfStmt":
            parts = list(I)
            init = None
            if n.get("hasInit"):
                init = self.stmt(parts.pop(0))
            if n.get("hasVar"):
                raise Unsupported("if with declaration")
            if not n.get("hasElse") and self.diagnostic(parts[0], parts[1]):
                return S("nop")
            c = self.ex(parts[0])
            t = self.stmt(parts[1])
            e = self.stmt(parts[2]) if n.get("hasElse") else S("nop")
            s = S("if", c, t, e)
            return S("block", init, s) if init else s
        if k == "ForStmt":
            # inner: init, (cond var), cond, inc, body
            init, cv, cond, inc, body = (list(I) + [None] * 5)[:5]
            if cv and cv.get("kind"):
                raise Unsupported("for with condition variable")
            return S("for", self.stmt(init), self.ex(cond) if cond and cond.get("kind") else E("lit", ty=("bool",), v=True),
                     self.ex(inc) if inc and inc.get("kind") else None, self.stmt(body))
        if k == "CXXForRangeStmt":
            # inner: init?, range decl, begin, end, cond, inc, loopvar, body
            rng = I[1]["inner"][0]
            rexpr = [c for c in rng.get("inner", []) if c.get("kind")][0]
            lv = I[6]["inner"][0]
            d = self.decl(lv, noinit=True)
            return S("forrange", d, self.ex(rexpr), self.stmt(I[7]))
        if k == "WhileStmt":
            if n.get("hasVar"):
                raise Unsupported("while with declaration")
            return S("while", self.ex(I[0]), self.stmt(I[1]))
        if k == "DoStmt":
            return S("do", self.stmt(I[0]), self.ex(I[1]))
        if k == "ReturnStmt":
            return S("return", self.ex(I[0]) if I and I[0].get("kind") else None)
        if k == "BreakStmt":
            return S("break")
        if k == "ContinueStmt":
            return S("continue")
        if k == "CXXTryStmt":
            raise Unsupported("try")
        if k == "SwitchStmt":
            raise Unsupported("switch")
        return S("expr", self.ex(n))

    def diagnostic(self, cond, body):
        """`if (print_ >= level) { ... }` whose body only writes to output streams and its own locals: dropped"""
        lv = [x for x in _walk(cond) if x.get("kind") == "MemberExpr" and x.get("name") == "print_"]
        en = [x for x in _walk(cond) if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("kind") == "EnumConstantDecl"]
        bad = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CompoundAssignOperator")
        if len(lv) != 1 or len(en) != 1 or any(x.get("kind") in bad or x.get("opcode") == "=" for x in _walk(cond)):
            return False
        own = {x["id"] for x in _walk(body) if x.get("kind") in ("VarDecl", "BindingDecl")}

        def root(e):
            while True:
                k = e.get("kind")
                if k == "DeclRefExpr":
                    return e.get("referencedDecl", {}).get("id")
                I = [c for c in e.get("inner", []) if c.get("kind")]
                if not I or k == "CXXThisExpr":
                    return None
                e = I[1] if k == "CXXOperatorCallExpr" and len(I) > 1 else I[0]

        for x in _walk(body):
            k = x.get("kind")
            I = [c for c in x.get("inner", []) if c.get("kind")]
            if k in ("ReturnStmt", "CXXThrowExpr", "GotoStmt", "CXXTryStmt", "CXXNewExpr", "CXXDeleteExpr", "LambdaExpr"):
                return False
            if k in ("BreakStmt", "ContinueStmt"):
                return False
            if (k == "BinaryOperator" and x["opcode"].endswith("=") and x["opcode"] not in ("==", "<=", ">=", "!=")) or k == "CompoundAssignOperator" or \
                    (k == "UnaryOperator" and x["opcode"] in ("++", "--")):
                if root(I[0]) not in own:
                    return False
            if k in ("CallExpr", "CXXOperatorCallExpr"):
                # every argument bound to a non-constant reference must be a stream or a local
                op = next((y["referencedDecl"].get("name") for y in _walk(I[0]) if "referencedDecl" in y), "")
                if op == "operator[]" and k == "CXXOperatorCallExpr" and I[1].get("type", {}).get("qualType", "").startswith(("std::vector<", "vector<")):
                    continue        # element access; what is done with the element is judged where it is used
                for a in I[1:]:
                    t = a.get("type", {}).get("qualType", "")
                    if a.get("valueCategory") == "lvalue" and not t.startswith("const ") and "stream" not in t and root(a) not in own:
                        return False
            if k == "CXXMemberCallExpr":
                m = I[0]
                while m.get("kind") != "MemberExpr" and m.get("inner"):
                    m = m["inner"][0]
                o = m["inner"][0]
                t = o.get("type", {}).get("qualType", "")
                d = self.P.byid.get(m.get("referencedMemberDecl"), {})
                const = t.startswith("const ") or re.search(r"\)\s*const\b", d.get("type", {}).get("qualType", "")) or m.get("name") in ("size", "num_spaces", "label")
                if not const and "stream" not in t and root(o) not in own:
                    return False
        return True

    def decl(self, n, noinit=False):
        k = n["kind"]
        if k == "VarDecl":
            inner = [c for c in n.get("inner", []) if c.get("kind") and not c["kind"].endswith(("Attr", "Comment"))]
            init = None if noinit else (self.ex(inner[0]) if inner else None)
            return S("decl", init, vid=n["id"], name=n.get("name"), ty=self.T.of(n),
                     static=n.get("storageClass") == "static")
        if k == "DecompositionDecl":
            binds = []
            init = None
            for c in n.get("inner", []):
                if c.get("kind") == "BindingDecl":
                    # bound expression gives the type
                    ty = self.T.of(c) if c.get("type") else None
                    sub = c.get("inner", [])
                    hv = [x for x in sub if x.get("kind") == "VarDecl"]
                    if hv:
                        t = hv[0].get("type", {})
                        t2 = None
                        for x in hv[0].get("inner", []):
                            if x.get("kind"):
                                t2 = self.T.of(x)
                        ty = t2 or self.T.of(hv[0])
                    elif sub:
                        ty = self.T.of(sub[0])
                    ids = [c["id"]] + [x["id"] for x in hv]
                    binds.append((ids, c.get("name"), ty))
                elif c.get("kind") and not c["kind"].endswith(("Attr", "Comment")):
                    init = self.ex(c) if not noinit else None
            return S("decomp", init, vid=n["id"], binds=binds, ty=self.T.of(n))
        if k in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "EmptyDecl", "FullComment"):
            return S("nop")
        raise Unsupported("declaration " + k)

    # -- expressions
    def ex(self, n):
        e = self._ex(n)
        if e.ty is None:
            e.ty = self.T.of(n)
        return e

    def args(self, I):
        out = []
        for c in I:
            out.append(self.ex(c))
        return out

    def callee(self, n):
        """resolve the function expression of a CallExpr"""
        while n["kind"] in SKIP:
            n = n["inner"][0]
        return n

    def _ex(self, n):
        k = n["kind"]
        I = n.get("inner", [])
        ty = self.T.of(n)
        if k == "ImplicitCastExpr" or k in ("CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr"):
            ck = n.get("castKind")
            sub = self.ex(I[0])
            if ck in ("IntegralCast",):
                return E("icast", [sub], ty)
            if ck in ("IntegralToBoolean",):
                return E("i2b", [sub], ty)
            if ck == "IntegralToFloating":
                return E("i2d", [sub], ty)
            if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
                sub2 = E("upcast", [sub], ty)
                return sub2
            if ck in ("BaseToDerived",):
                return E("downcast", [sub], ty)
            if ck in ("FloatingCast", "FloatingToIntegral", "BitCast", "PointerToBoolean", "IntegralToPointer", "NullToPointer"):
                return E("cast", [sub], ty, ck=ck)
            return sub
        if k in SKIP:
            if not I:
                raise Unsupported("empty " + k)
            return self.ex(I[0])
        if k == "IntegerLiteral":
            return E("lit", ty=ty, v=int(n["value"]))
        if k == "CXXBoolLiteralExpr":
            return E("lit", ty=("bool",), v=bool(n["value"]))
        if k == "StringLiteral":
            return E("str", ty=("str",), v=n["value"])
        if k == "CharacterLiteral":
            return E("lit", ty=("char",), v=int(n["value"]))
        if k == "FloatingLiteral":
            return E("flit", ty=("double",), v=n["value"])
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            if r["kind"] == "EnumConstantDecl":
                return E("enumc", ty=ty, v=r["name"])
            if r["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return E("fref", ty=ty, id=r["id"], name=r["name"])
            return E("var", ty=ty, id=r["id"], name=r.get("name"), kind=r["kind"])
        if k == "CXXThisExpr":
            return E("this", ty=ty)
        if k == "MemberExpr":
            base = self.ex(I[0])
            mid = n.get("referencedMemberDecl")
            return E("field", [base], ty, name=n.get("name"), id=mid, arrow=n.get("isArrow"))
        if k == "UnaryOperator":
            op = n["opcode"]
            sub = self.ex(I[0])
            if op == "*":
                return E("deref", [sub], ty)
            if op == "&":
                return E("addr", [sub], ty)
            if op in ("++", "--"):
                return E("incdec", [sub], ty, op=op, post=n.get("isPostfix"))
            if op == "!":
                return E("not", [sub], ty)
            if op == "-":
                return E("neg", [sub], ty)
            if op == "+":
                return sub
            raise Unsupported("unary " + op)
        if k == "BinaryOperator":
            op = n["opcode"]
            a, b = self.ex(I[0]), self.ex(I[1])
            if op == "=":
                return E("assign", [a, b], ty)
            if op == ",":
                return E("comma", [a, b], ty)
            return E("bin", [a, b], ty, op=op)
        if k == "CompoundAssignOperator":
            return E("opassign", [self.ex(I[0]), self.ex(I[1])], ty, op=n["opcode"][:-1])
        if k == "ConditionalOperator":
            return E("cond", self.args(I), ty)
        if k == "CXXRewrittenBinaryOperator":
            return self.rewritten(n, ty)
        if k == "CallExpr":
            c = self.callee(I[0])
            args = self.args(I[1:])
            if c["kind"] == "DeclRefExpr":
                r = c["referencedDecl"]
                if r["kind"] in ("VarDecl", "ParmVarDecl"):
                    return E("callvar", [E("var", ty=self.T.of(c), id=r["id"], name=r.get("name"))] + args, ty)
                key = self.P.id2key.get(r["id"])
                m = re.search(r"tuple_element(?:_t)?<(\d+)", c.get("type", {}).get("qualType", "")) if r["name"] == "get" else None
                return E("call", args, ty, key=key, name=r["name"], kind="fun", id=r["id"],
                         tidx=int(m.group(1)) if m else None)
            raise Unsupported("call of " + c["kind"])
        if k == "CXXMemberCallExpr":
            c = self.callee(I[0])
            args = self.args(I[1:])
            if c["kind"] != "MemberExpr":
                raise Unsupported("member call of " + c["kind"])
            recv = self.ex(c["inner"][0])
            mid = c.get("referencedMemberDecl")
            key = self.P.id2key.get(mid)
            return E("call", [recv] + args, ty, key=key, name=c["name"], kind="method", id=mid, arrow=c.get("isArrow"))
        if k == "CXXOperatorCallExpr":
            c = self.callee(I[0])
            args = self.args(I[1:])
            r = c["referencedDecl"]
            key = self.P.id2key.get(r["id"])
            kind = "method" if r["kind"] == "CXXMethodDecl" else "fun"
            if r["name"] == "operator()" and key in self.P.funs and args and args[0].op == "var":
                f = self.P.fun(key)
                if getattr(f, "closure", None) is not None and not (len(f.body.a) == 1 and f.body.a[0].op == "return"):
                    kind, args = "fun", [E("var", [], t, id=i, name=v, kind="VarDecl") for i, v, t in f.closure] + args[1:]
            return E("call", args, ty, key=key, name=r["name"], kind=kind, id=r["id"])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = [self.ex(c) for c in I if c.get("kind")]
            args = [a for a in args if a.op != "defaultarg"]
            return E("ctor", args, ty, ctype=n.get("ctorType", {}).get("qualType", ""), elid=n.get("elidable"),
                     listinit=n.get("list"))
        if k == "CXXDefaultArgExpr":
            return E("defaultarg", [], ty) if not I else self.ex(I[0])
        if k == "InitListExpr":
            return E("initlist", [self.ex(c) for c in I if c.get("kind")], ty)
        if k == "CXXStdInitializerListExpr":
            return self.ex(I[0])
        if k == "LambdaExpr":
            meth = None
            for c in I:
                if c.get("kind") == "CXXRecordDecl":
                    for m in c.get("inner", []):
                        if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                            meth = m
            if meth is None:
                # generic lambda: its only instantiation
                ms = [m for c in I if c.get("kind") == "CXXRecordDecl" for t in c.get("inner", []) if t.get("kind") == "FunctionTemplateDecl"
                      for m in t.get("inner", []) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"]
                ms = [m for m in ms[1:] if any(c.get("kind") == "CompoundStmt" for c in m.get("inner", []))]
                if len(ms) != 1:
                    raise Unsupported("lambda")
                meth = ms[0]
            ps = [(p["id"], p.get("name", "_"), self.T.of(p)) for p in meth.get("inner", []) if p.get("kind") == "ParmVarDecl"]
            body = [c for c in meth["inner"] if c.get("kind") == "CompoundStmt"][0]
            # captured local variables: (id, by reference?, itself a reference?)
            rec = [c for c in I if c.get("kind") == "CXXRecordDecl"]
            flds = [x for c in rec for x in c.get("inner", []) if x.get("kind") == "FieldDecl"]
            inits = [c for c in I if c.get("kind") not in ("CXXRecordDecl", "CompoundStmt")]
            caps = []
            if len(flds) == len(inits):
                for fd, ini in zip(flds, inits):
                    while ini.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "ParenExpr") and len(ini.get("inner", [])) == 1:
                        ini = ini["inner"][0]
                    rd = ini.get("referencedDecl")
                    if rd:
                        caps.append((rd["id"], fd["type"]["qualType"].rstrip().endswith("&"), rd.get("type", {}).get("qualType", "").rstrip().endswith("&")))
            return E("lambda", [], ("fn",), params=ps, body=self.stmt(body), caps=caps)
        if k == "CXXThrowExpr":
            return E("throw", [], ("void",))
        if k == "ImplicitValueInitExpr" or k == "CXXScalarValueInitExpr":
            return E("default", [], ty)
        if k == "ArraySubscriptExpr":
            return E("idx", self.args(I), ty)
        if k == "UnresolvedLookupExpr":
            raise Unsupported("dependent code")
        raise Unsupported("expression " + k)

    def rewritten(self, n, ty):
        # `a != b` as !(a == b); `a < b` as (a <=> b) < 0
        inner = n["inner"][0]
        e = inner
        while e["kind"] in SKIP:
            e = e["inner"][0]
        if e["kind"] == "UnaryOperator" and e["opcode"] == "!":
            return self.ex(e)
        if e["kind"] in ("CXXOperatorCallExpr", "BinaryOperator"):
            # (x <=> y) op 0
            sub = e["inner"][1:] if e["kind"] == "CXXOperatorCallExpr" else e["inner"]
            op = None
            if e["kind"] == "CXXOperatorCallExpr":
                op = self.callee(e["inner"][0])["referencedDecl"]["name"].replace("operator", "")
            else:
                op = e["opcode"]
            a = self.ex(sub[0])
            b = sub[1]
            if a.op == "call" and a.x.get("name") == "operator<=>":
                return E("call", a.a, ty, key=None, name="operator" + op, kind="fun", id=None)
            a2 = self.ex(sub[1])
            if a2.op == "call" and a2.x.get("name") == "operator<=>":
                flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                return E("call", a2.a, ty, key=None, name="operator" + flip, kind="fun", id=None)
        raise Unsupported("rewritten operator")
