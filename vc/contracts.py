"""Contract database: contracts attached to functions of /repo by (shortened) signature."""
import re


def short(key):
    """C++ demangled key -> short stable form used in contract files"""
    s = key
    s = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string", s)
    s = s.replace("[abi:cxx11]", "")
    # boost number
    while True:
        i = s.find("boost::multiprecision::number<")
        if i < 0:
            break
        j = _close(s, i + len("boost::multiprecision::number"))
        s = s[:i] + "big" + s[j:]
    # allocators, comparators
    s = re.sub(r", std::allocator<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*>\s*(?=>)", "", s)
    s = re.sub(r", std::less<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>\s*(?=[>,])", "", s)
    s = s.replace("std::", "").replace("vector<", "vec<").replace(" >", ">")
    s = s.replace(" const&", "&").replace(" const", "").replace("Algebra<Expression, SymbolicTerm, rational>", "ExprAlg")
    s = s.replace("Algebra<OperatorExpression, OperatorProduct, rational>", "OpAlg")
    s = s.replace("unsigned long", "u64").replace("map<Operator", "map<Operator")
    return s


def _close(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "<":
            d += 1
        elif s[j] == ">":
            d -= 1
            if d == 0:
                return j + 1
    return len(s)


class Contract:
    def __init__(self, name, params, req=(), ens=(), pure=None, loops=None, ghost=None, raises=None, variant=None,
                 recursive=False, diverges=False, overflow=False, trusted=False, mode=None, timeout=None, note=None,
                 hints=None):
        self.name = name
        self.params = params.split() if isinstance(params, str) else list(params)
        self.requires = _named(req, "pre")
        self.ensures = _named(ens, "post")
        self.pure = pure
        self.loops = {}
        for k, v in (loops or {}).items():
            if isinstance(v, (list, tuple)):
                v = {"invariant": v}
            v = dict(v)
            v["invariant"] = _named(v.get("invariant", ()), "inv")
            self.loops[k] = v
        self.ghost = ghost or {}
        self.raises = raises
        self.variant = variant
        self.recursive = recursive
        self.diverges = diverges
        self.overflow = overflow
        self.trusted = trusted      # assumed, not proved (listed as an assumption)
        self.mode = mode
        self.timeout = timeout
        self.note = note

    def ensures_all(self):
        r = list(self.ensures)
        if self.pure is not None:
            r.append(("result", f"result = {self.pure}"))
        return r


def _named(xs, base):
    out = []
    for i, x in enumerate(xs):
        if isinstance(x, (tuple, list)):
            out.append((x[0], x[1]))
        else:
            out.append((f"{base}{i + 1}", x))
    return out


class Profile:
    """a consistent set of contracts, type representations and theory"""

    def __init__(self, name, uses, mode=None, types=(), defs="", preds=None, strs=(), pre="", orders=(), libs=()):
        self.name, self.uses, self.mode = name, uses, dict(mode or {})
        self.types, self.defs, self.preds = list(types), defs, preds or {}
        self.byname = {}
        self.keys = {}
        self.missing = []
        self.strs = strs
        self.frames = []            # (root function, shared classes, {member: mutex}): see frame.py
        self.libs = list(libs)      # modules of theories/wk.mlw whose lemmas this profile relies on (proved each run)
        self.pre, self.orders = pre, list(orders)   # text before, and types of, the order predicates of the theory

    def fn(self, name, params, **kw):
        self.byname[name] = Contract(name, params, **kw)

    def frame(self, root, shared, guards):
        self.frames.append((root, shared, guards))

    def bind(self, prog):
        """attach contracts to the functions of the program"""
        self.keys = {}
        idx = {}
        for k in prog.funs:
            idx.setdefault(short(k), k)
        self.missing = []
        for n, c in self.byname.items():
            k = idx.get(n)
            if k is None:
                self.missing.append(n)
            else:
                self.keys[k] = c

    def find(self, key):
        return self.keys.get(key)

    def type_pred(self, cls, what):
        return self.preds.get(cls, {}).get(what)
