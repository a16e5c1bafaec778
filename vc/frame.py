"""Frame of the code that runs concurrently: what the functions reachable from a root may write.

The obligation is syntactic and conservative.  For every function of /repo reachable (through the call graph, constructors,
comparison operators used by containers) from the root:
  - it declares no mutable variable with static storage and uses no mutable global, except through const member functions;
  - it casts no const away, and no class has a mutable data member;
  - it writes no data member of the shared objects (their classes are given), except members guarded by a mutex that is
    held in the same block."""
import re
from cxx import _walk

CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr")
STREAMS = {"cout", "cerr", "clog", "endl"}
CTX = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


def _qt(n):
    t = n.get("type", {})
    return (t.get("desugaredQualType") or t.get("qualType") or "").strip()


def _const(q):
    q = q.strip()
    if q.endswith("&"):
        q = q[:-1].strip()
    return q.startswith("const ") or q.endswith("const")


def _children(n):
    for c in n.get("inner", []):
        if isinstance(c, dict) and c.get("kind"):
            yield c


class Frame:
    def __init__(self, P, shared, guards):
        self.P, self.shared, self.guards = P, set(shared), guards      # guards: member -> mutex member
        self.ctors = {}
        self.cmp = []
        for k, n in P.funs.items():
            if n["kind"] in ("CXXConstructorDecl", "CXXDestructorDecl"):
                self.ctors.setdefault(n.get("_cls"), []).append(k)
            elif n.get("name") in ("operator<", "operator==", "operator()", "operator<=>"):
                self.cmp.append(k)

    def reach(self, roots):
        seen, todo = {}, list(roots) + [k for k in self.cmp]
        while todo:
            k = todo.pop()
            if k in seen or k not in self.P.funs:
                continue
            seen[k] = True
            for n in _walk(self.P.funs[k]):
                for i in self.refs(n):
                    kk = self.P.id2key.get(i)
                    if kk and kk not in seen:
                        todo.append(kk)
                if n.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    q = re.sub(r"^const ", "", _qt(n)).replace("wickedns::", "")
                    for c in self.ctors.get(q, []):
                        todo.append(c)
        return sorted(seen)

    def refs(self, n):
        if "referencedDecl" in n:
            yield n["referencedDecl"].get("id")
        if n.get("referencedMemberDecl"):
            yield n["referencedMemberDecl"]
        if n.get("kind") == "CXXCtorInitializer":
            pass

    def problems(self, key):
        f = self.P.funs[key]
        out = []
        shared = f.get("_cls") in self.shared

        def held(path):
            h = set()
            for p, c in path:
                if p.get("kind") != "CompoundStmt":
                    continue
                for s in p.get("inner", []):
                    if s is c:
                        break
                    if s.get("kind") == "DeclStmt" and any(re.search(r"\b(lock_guard|unique_lock|scoped_lock)\b", _qt(v)) for v in s.get("inner", [])):
                        h |= {m.get("name") for m in _walk(s) if m.get("kind") == "MemberExpr"}
            return h

        def reads_only(path):
            """the member at the end of the path is only read"""
            i = len(path) - 1
            while i >= 0:
                p, c = path[i]
                k = p.get("kind")
                if k == "ImplicitCastExpr" and (p.get("castKind") == "LValueToRValue" or p.get("castKind") == "NoOp" and _const(_qt(p))):
                    return True
                if k == "ParenExpr" or k == "ImplicitCastExpr" or k == "MaterializeTemporaryExpr":
                    i -= 1
                    continue
                if k == "MemberExpr":
                    mid = p.get("referencedMemberDecl")
                    d = self.P.byid.get(mid, {})
                    if d.get("kind") == "FieldDecl":
                        i -= 1
                        continue
                    if p.get("name") in ("begin", "end", "size", "empty", "at", "front", "back", "find", "count"):
                        return p.get("name") in ("size", "empty", "count")
                    return False
                if k == "CXXOperatorCallExpr":
                    ch = list(_children(p))
                    opn = next((m["referencedDecl"].get("name") for m in _walk(ch[0]) if "referencedDecl" in m), "")
                    if opn == "operator[]" and len(ch) > 1 and ch[1] is c and "map<" not in _qt(c):
                        i -= 1
                        continue
                    return False
                if k == "VarDecl":
                    if p.get("name", "").startswith("__range"):
                        # the loop variable decides
                        for pp, _ in reversed(path[:i]):
                            if pp.get("kind") == "CXXForRangeStmt":
                                vs = [v for s in pp.get("inner", []) if s.get("kind") == "DeclStmt" for v in s.get("inner", []) if v.get("kind") == "VarDecl" and not v.get("name", "").startswith("__")]
                                return all(_const(_qt(v)) or not _qt(v).endswith("&") for v in vs)
                    return _const(_qt(p))
                return False
            return False

        def walk(n, path):
            k = n.get("kind")
            if k == "VarDecl" and n.get("storageClass") == "static" and not _const(_qt(n)) and not n.get("constexpr"):
                out.append(f"static variable {n.get('name')}")
            if k == "CXXConstCastExpr":
                out.append("const_cast")
            if k == "DeclRefExpr":
                r = n["referencedDecl"]
                if r.get("kind") == "VarDecl" and self.is_global(r["id"]) and r.get("name") not in STREAMS and not _const(r.get("type", {}).get("qualType", "")):
                    if not self.global_ok(r, path):
                        out.append(f"mutable global {r.get('name')}")
            if shared and k == "MemberExpr" and any(c.get("kind") == "CXXThisExpr" for c in _children(n)):
                d = self.P.byid.get(n.get("referencedMemberDecl"), {})
                if d.get("kind") == "FieldDecl" or not d:
                    nm = n.get("name")
                    g = self.guards.get(nm)
                    if g and g in held(path):
                        pass
                    elif nm in self.guards.values() and any(c.get("kind") == "DeclStmt" for _, c in path):    # the lock itself
                        pass
                    elif not _const(_qt(n)) and not reads_only(path):
                        out.append(f"writes member {nm}")
            for c in _children(n):
                walk(c, path + [(n, c)])
        for c in _children(f):
            walk(c, [(f, c)])
        return sorted(set(out))

    def is_global(self, i):
        """declared outside every function; static members included"""
        n = self.P._parent.get(i)
        while n is not None:
            if n.get("kind") in CTX:
                return False
            n = self.P._parent.get(n.get("id"))
        return True

    def global_ok(self, r, path):
        """a global reached only through -> and const member functions"""
        for p, c in reversed(path):
            k = p.get("kind")
            if k in ("ImplicitCastExpr", "ParenExpr"):
                if p.get("castKind") == "LValueToRValue" or (p.get("castKind") == "NoOp" and not "shared_ptr" in _qt(p) and _const(_qt(p))):
                    return True
                continue
            if k == "CXXOperatorCallExpr":
                ch = list(_children(p))
                opn = next((m["referencedDecl"].get("name") for m in _walk(ch[0]) if "referencedDecl" in m), "")
                if opn not in ("operator->", "operator*", "operator[]"):
                    return False
                continue
            if k == "MemberExpr":
                d = self.P.byid.get(p.get("referencedMemberDecl"), {})
                return d.get("_cls") in self.shared or bool(re.search(r"\)\s*const\b", d.get("type", {}).get("qualType", "")))
            return False
        return False

    def mutable_members(self):
        return sorted({f"{c}::{m.get('name')}" for c, n in self.P.records.items() for m in n.get("inner", []) if m.get("kind") == "FieldDecl" and m.get("mutable")})

    def obligations(self, roots):
        """[(description, holds, why not)]"""
        out = []
        m = self.mutable_members()
        out.append(("no class has a mutable member", not m, ", ".join(m)))
        for k in self.reach(roots):
            p = self.problems(k)
            out.append((k, not p, ", ".join(p)))
        return out
