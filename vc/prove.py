"""Contracts + extracted WhyML -> proof obligations -> solver portfolio."""
import os, re, subprocess, json, time, concurrent.futures as cf, hashlib, shutil
import cxx
from cxx import Unsupported, fun_name
from why import Module, FunEmit, san
from contracts import short

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TH = os.path.join(ROOT, "theories")
CONF = """[main]
magic = 14
memlimit = 4000
running_provers_max = 8
timelimit = 10.0

[partial_prover]
name = "CVC5"
path = "{d}/fakec"
version = "1.1.2"

[partial_prover]
name = "Z3"
path = "{d}/fakez"
version = "4.8.12"

[prover]
command = "/bin/true %f"
driver = "{d}/cvc5_flat.drv"
name = "CVC5flat"
version = "1"

[prover]
command = "/bin/true %f"
driver = "{d}/z3_flat.drv"
name = "Z3flat"
version = "1"
"""

SOLVERS = {
    "cvc5": (["cvc5", "--lang=smt2", "--tlimit-per={ms}"], "c"),
    "cvc5-mbqi": (["cvc5", "--lang=smt2", "--finite-model-find", "--tlimit-per={ms}"], "c"),
    "cvc5-enum": (["cvc5", "--lang=smt2", "--enum-inst", "--tlimit-per={ms}"], "c"),
    "z3": (["z3", "-smt2", "-T:{s}"], "z"),
    "z3-new": (["z3-new", "-smt2", "-T:{s}"], "z"),
    "z3-nomacro": (["z3", "-smt2", "-T:{s}", "smt.mbqi=false", "smt.auto_config=false"], "z"),
}
for _n in ("cvc5", "z3", "z3-new", "z3-nomacro"):
    SOLVERS[_n + "+prune"] = (SOLVERS[_n][0], SOLVERS[_n][1] + "p")
QUICK = [("cvc5", 2), ("z3", 2), ("z3-nomacro", 3), ("cvc5", 10), ("z3-new", 10), ("z3", 10), ("cvc5-enum", 10)]
DEEP = [("cvc5", 40), ("z3", 30), ("z3-new", 30), ("cvc5-enum", 30), ("z3-nomacro", 30)]


def sh(cmd, timeout, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")


class Obl:
    def __init__(self, unit, goal, expl, loc, i):
        self.unit, self.goal, self.expl, self.loc, self.i = unit, goal, expl, loc, i
        self.files = {}
        self.status = None     # 'proved', 'undecided', 'refuted'
        self.prover = None
        self.time = 0.0
        self.answers = []

    @property
    def canary(self):
        return "CANARY" in self.expl

    def name(self):
        return f"{self.unit}: {self.expl}"


class Unit:
    """one WhyML file: a function of /repo under contract, or a theory with lemmas"""

    def __init__(self, name, text, kind, key=None):
        self.name, self.text, self.kind, self.key = name, text, kind, key
        self.fname = "u_" + san(name).lower()[:60] + "_" + hashlib.md5(name.encode()).hexdigest()[:6]
        self.obls = []
        self.error = None
        self.inlined = []
        self.used = []
        self.trusted = []
        self.contract = None
        self.irhash = None


class ProfileRun:
    def __init__(self, prog, profile, workdir):
        self.P, self.C, self.dir = prog, profile, workdir
        os.makedirs(workdir, exist_ok=True)
        profile.bind(prog)
        self.units = []
        self.skipped = []          # (function, reason): contract does not bind
        self.tname = "t_" + profile.name.lower()

    def uses(self):
        return "\n".join(f"  use wk.{u}" for u in self.C.uses)

    def theory(self):
        M = Module(self.P, self.C, self.C.mode)
        for s in self.C.strs:
            M.strlit(s)
        for t in self.C.types:
            if isinstance(t, str):
                t = self.P.T.parse(t)
            M.ty(t)
        self.M0 = M
        for t in self.C.orders:
            t = self.P.T.parse(t)
            M.lt(t, "a", "b")
            M.eq(t, "a", "b")
        body = list(M.typedecls.values()) + M.prelude_text() + [self.C.pre] + [p for p in M.preds.values() if p]
        d = self.C.defs
        d = re.sub(r"@str\(([^)]*)\)", lambda m: M.strlit(m.group(1)), d)
        text = f"module T\n{self.uses()}\n" + "\n".join(body) + "\n" + d + "\nend\n"
        self.ttext = text
        u = Unit(self.C.name + " theory", text, "theory")
        u.fname = self.tname
        return u

    def function(self, key):
        c = self.C.find(key)
        f = self.P.fun(key)
        mode = dict(self.C.mode)
        if c.mode:
            mode.update(c.mode)
        mode["theory_types"] = set(self.M0.typedecls) | set(mode.get("theory_types", ()))
        mode["theory_preds"] = set(self.M0.preds)
        M = Module(self.P, self.C, mode)
        M.strs = dict(self.M0.strs)
        em = FunEmit(M, f, c, {})
        em.solver = self
        txt = em.emit()
        newstr = {k: v for k, v in M.strs.items() if k not in self.M0.strs}
        strs = []
        l = list(M.strs.values())
        for v in newstr.values():
            strs.append(f"constant {v} : str")
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                if l[i] in newstr.values() or l[j] in newstr.values():
                    strs.append(f"axiom {l[i]}_{l[j]}_distinct : {l[i]} <> {l[j]}")
        for k, v in newstr.items():
            strs.append(f"axiom {v}_len : str_len {v} = {len(k)}")
            strs.append(f"val {v} (_u: unit) : str ensures {{ result = {v} }}" if False else "")
        strs = [s.replace("constant ", "val constant ") for s in strs if s]
        parts = [v for k, v in M.typedecls.items() if v] + strs + [v for v in M.preds.values() if v] + \
                [v for v in M.vals.values() if v] + [txt]
        text = f"module F\n{self.uses()}\n  use {self.tname}.T\n" + "\n".join(parts) + "\nend\n"
        u = Unit(short(key), text, "function", key)
        u.inlined = sorted(short(k) for k in M.inlined)
        u.used = sorted(k for k in M.used_funs)
        u.trusted = sorted(M.trusted)
        u.contract = c
        u.locals = em.locals
        u.diverges = em.diverges
        return u

    def generate(self, only=None):
        t = self.theory()
        self.units = [t]
        wk = open(os.path.join(TH, "wk.mlw")).read()
        for lib in self.C.libs:
            u = Unit("lemma library " + lib, wk, "theory")
            u.fname, u.module, u.dir = "wk", lib, TH
            self.units.append(u)
        for key, c in self.C.keys.items():
            if only and c.name not in only:
                continue
            if c.trusted:
                continue
            try:
                self.units.append(self.function(key))
            except Unsupported as e:
                self.skipped.append((c.name, f"unsupported: {e}"))
            except Exception as e:      # a construct the extractor does not know
                import traceback
                self.skipped.append((c.name, f"extraction: {type(e).__name__}: {e}"))
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exc()
        for root, shared, guards in self.C.frames:
            if only:
                continue
            import frame
            F = frame.Frame(self.P, shared, guards)
            ks = [k for k in self.P.funs if short(k) == root]
            if not ks:
                self.skipped.append((root, "no such function in /repo"))
                continue
            lines = []
            for what, ok, why in F.obligations(ks):
                n = re.sub(r"[\[\]@\"\\\\]", "_", short(what) if "(" in what else what) + (": " + re.sub(r"[\[\]@\"]", "_", why) if not ok else "")
                lines.append(f"  goal g{len(lines)} : [@expl:frame of {n}] ({'1 = 1' if ok else '1 = 2'})")
            u = Unit("frame of " + root, "module F\n  use int.Int\n" + "\n".join(lines) + "\nend\n", "frame")
            self.units.append(u)
        for n in self.C.missing:
            if not only or n in only:
                self.skipped.append((n, "no such function in /repo"))
        for u in self.units:
            if getattr(u, "dir", None):
                continue
            with open(os.path.join(self.dir, u.fname + ".mlw"), "w") as f:
                f.write(u.text)


def datadir():
    return subprocess.run(["why3", "--print-datadir"], stdout=subprocess.PIPE, text=True).stdout.strip()


_conf = None


def conf(workdir):
    global _conf
    if _conf and os.path.exists(_conf):
        return _conf
    p = os.path.join(workdir, "why3.conf")
    for n in ("fakec", "fakez"):
        q = os.path.join(workdir, n)
        if not os.path.lexists(q):
            os.symlink("/bin/true", q)
    # the same drivers with every algebraic type axiomatised: used where why3's mixed encoding fails ("is not yet declared")
    dd = os.path.join(datadir(), "drivers")
    for src, dst in (("cvc5.drv", "cvc5_flat.drv"), ("z3_471_nobv.drv", "z3_flat.drv")):
        txt = open(os.path.join(dd, src)).read()
        txt = re.sub(r'meta "eliminate_algebraic" "[^"]*"', "", txt)
        txt = re.sub(r'^import "([^"]*)"', lambda m: f'import "{dd}/{m.group(1)}"', txt, flags=re.M)
        with open(os.path.join(workdir, dst), "w") as f:
            f.write(txt)
    with open(p, "w") as f:
        f.write(CONF.format(d=workdir))
    _conf = p
    return p


def why3_split(u, d, cf_):
    """run why3: list of obligations with explanations, and their SMT files"""
    base = ["why3", "-C", cf_, "prove", "-L", TH, "-L", d, os.path.join(getattr(u, "dir", d), u.fname + ".mlw"), "-T",
            getattr(u, "module", "T" if u.kind == "theory" else "F"), "-a", "split_vc"]
    provers = (("c", "CVC5,1.1.2,"), ("z", "Z3,4.8.12,noBV"))
    rc, out = sh(base + ["-P", provers[0][1], "--json"], 120)
    if "is not yet declared" in out:
        provers = (("c", "CVC5flat,1,"), ("z", "Z3flat,1,"))
        rc, out = sh(base + ["-P", provers[0][1], "--json"], 120)
    obls = []
    dec = json.JSONDecoder()
    i, n = 0, len(out)
    objs = []
    while True:
        j = out.find("{", i)
        if j < 0:
            break
        try:
            o, k = dec.raw_decode(out, j)
        except ValueError:
            i = j + 1
            continue
        objs.append(o)
        i = k
    for o in objs:
        if "term" in o:
            t = o["term"]
            obls.append(Obl(u.name, t.get("goal_name", ""), "; ".join(t.get("explanations", [])) or t.get("goal_name", ""),
                            t.get("loc"), len(obls)))
    if rc not in (0, 2) or (not obls and u.kind == "function"):
        u.error = "why3: " + "\n".join(l for l in out.splitlines() if not l.startswith(("{", "Warning")))[-1500:]
        return
    for tag, prover in provers:
        od = os.path.join(d, u.fname + getattr(u, "module", "") + "_" + tag)
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)
        rc, out2 = sh(base + ["-P", prover, "-o", od], 120)
        fs = sorted(os.listdir(od), key=lambda x: None or natural(x))
        if len(fs) != len(obls):
            # order by modification if several goals; names are grouped per goal
            u.error = f"why3 wrote {len(fs)} files for {len(obls)} obligations"
            return
        order_files(obls, fs, od, tag)
    u.obls = obls


def natural(x):
    return [int(t) if t.isdigit() else t for t in re.split(r"(\d+)", x)]


def order_files(obls, fs, od, tag):
    """files are written in order of obligations; recover the order from creation counters"""
    st = sorted(fs, key=lambda x: (os.stat(os.path.join(od, x)).st_mtime_ns, natural(x)))
    for o, f in zip(obls, st):
        o.files[tag] = os.path.join(od, f)


_TOK = re.compile(r';[^\n]*|"(?:[^"]|"")*"|\|[^|]*\||[()]|[^\s()";|]+')
_LOCAL = ("H", "Assert", "Requires", "LoopInvariant", "Ensures", "Check", "LoopInit", "Assume", "Hyp", "Init")


def patterns(f):
    """the tokens of each pattern of a formula"""
    for m in re.finditer(r":pattern\s+(?=\()", f):
        d, out = 0, []
        for t in _TOK.finditer(f, m.end()):
            w = t.group()
            d += (w == "(") - (w == ")")
            if d == 0:
                break
            out.append(w)
        yield out


def prune(src, dst):
    """drop axioms about symbols the goal does not reach (dropping assumptions is always sound)"""
    txt = open(src).read()
    forms, depth, start, label = [], 0, 0, None
    toks = []
    for m in _TOK.finditer(txt):
        w = m.group()
        if w[0] == ";":
            if depth == 0:
                q = re.match(r';; "([^"]*)"', w)
                label = q.group(1) if q else ("Goal" if w.startswith(";; Goal") else label)
            continue
        if w == "(":
            if depth == 0:
                start, toks = m.start(), []
            depth += 1
        elif w == ")":
            depth -= 1
            if depth == 0:
                forms.append((txt[start:m.end()], toks, label))
        else:
            toks.append(w)
    decl = set()
    for f, tk, lb in forms:
        if tk[0] in ("declare-fun", "declare-const", "define-fun", "define-fun-rec"):
            g = f.rstrip(")").split()
            if g[-1] != "ty" and tk[1] not in ("sort", "witness"):
                decl.add(tk[1])
        elif tk[0] in ("declare-datatypes", "declare-datatype"):
            decl.update(tk[1:])
    decl -= {"Int", "Bool", "Real", "uni", "ty", "par"}
    first = next((i for i, x in enumerate(forms) if x[1][0] == "assert" and x[2] and x[2].rstrip("0123456789") in _LOCAL), None)
    last = max(i for i, x in enumerate(forms) if x[1][0] == "assert")
    first = last if first is None else min(first, last)
    R, keep, rest = set(), set(), []
    for i, (f, tk, lb) in enumerate(forms):
        if tk[0] != "assert":
            if tk[0] in ("define-fun", "define-fun-rec"):
                rest.append((i, {tk[1]}, set(tk) & decl, False))
            continue
        sy = set(tk) & decl
        if i >= first:
            keep.add(i)
            R |= sy
            continue
        d = re.match(r"(.*)'(def|spec)$", lb or "")
        pats = [set(x) & decl for x in patterns(f)]
        trig = pats[0] if pats and pats[0] else None
        if d:
            names = {x for x in sy if re.sub(r"\d+$", "", x) == re.sub(r"\W", "_", d.group(1))} or None
            if names is None and not trig:
                # operators have mangled names: the symbol in the first equation
                h = next((x for x in tk if x in decl), None)
                names = {h} if h else set()
            rest.append((i, names or trig, sy, False))
        else:
            rest.append((i, trig if trig is not None else sy, sy, False))
    change = True
    while change:
        change = False
        new = []
        for i, need, sy, _ in rest:
            if need <= R:
                keep.add(i)
                if not sy <= R:
                    R |= sy
                change = True
            else:
                new.append((i, need, sy, _))
        rest = new
    with open(dst, "w") as o:
        for i, (f, tk, lb) in enumerate(forms):
            if tk[0] != "assert" or i in keep:
                if lb == "CompatOrderMult":
                    continue
                o.write(f + "\n")


def run_solver(path, solver, secs):
    cmd, tag = SOLVERS[solver]
    cmd = [c.replace("{ms}", str(int(secs * 1000))).replace("{s}", str(int(secs) + 1)) for c in cmd] + [path]
    t = time.time()
    rc, out = sh(cmd, secs + 5)
    dt = time.time() - t
    a = "timeout"
    for l in out.splitlines():
        l = l.strip()
        if l in ("unsat", "sat", "unknown"):
            a = l
            break
    return a, dt, out


class Discharger:
    """runs obligations on all cores with a solver portfolio, escalating"""

    def __init__(self, workers=8, budget=600, only_fast=lambda: False):
        self.workers, self.t0, self.budget = workers, time.time(), budget
        self.only_fast = only_fast
        self.solver_time = 0.0
        self.runs = 0

    def left(self):
        return self.budget - (time.time() - self.t0)

    def one(self, o, plan):
        for solver, secs in plan:
            if self.left() < 1:
                o.answers.append((solver, "no time left", 0))
                break
            tag = SOLVERS[solver][1]
            if tag.endswith("p") and tag not in o.files and tag[0] in o.files:
                try:
                    prune(o.files[tag[0]], o.files[tag[0]][:-5] + "_p.smt2")
                    o.files[tag] = o.files[tag[0]][:-5] + "_p.smt2"
                except Exception as x:
                    if os.environ.get("VC_DEBUG"):
                        print("prune:", repr(x))
                    o.files[tag] = o.files[tag[0]]
            if tag not in o.files:
                continue
            a, dt, out = run_solver(o.files[tag], solver, min(secs, max(1, self.left())))
            o.time += dt
            o.answers.append((solver, a, round(dt, 2)))
            if a == "unsat":
                o.status, o.prover = "proved", solver
                return
            o.output = out[-400:]
        o.status = "undecided"

    def run(self, obls, stages, ex=None):
        todo = [o for o in obls if not o.canary]
        can = [o for o in obls if o.canary]
        with cf.ThreadPoolExecutor(self.workers) as ex:
            list(ex.map(lambda o: self.one(o, [("cvc5", 0.4)]), can))
            hinted = [o for o in todo if getattr(o, "hint", None) in SOLVERS]
            list(ex.map(lambda o: self.one(o, [(o.hint, 12)]), hinted))
            for i, plan in enumerate(stages):
                todo = [o for o in todo if o.status != "proved"]
                if not todo or (i and self.only_fast()):
                    break
                list(ex.map(lambda o: self.one(o, plan), todo))
        self.all = obls
        self.solver_time = sum(o.time for o in obls)
        self.runs = sum(len(o.answers) for o in obls)


def _run_more(self, obls, stages):
    with cf.ThreadPoolExecutor(max(2, self.workers // 2)) as ex:
        for plan in stages:
            todo = [o for o in obls if o.status != "proved"]
            list(ex.map(lambda o: self.one(o, plan), todo))
    self.solver_time = sum(o.time for o in self.all)


Discharger.run_more = _run_more

STAGES = [[("cvc5", 1), ("z3", 1), ("z3+prune", 1), ("z3-nomacro", 1), ("cvc5+prune", 2), ("z3-new+prune", 2), ("z3-nomacro+prune", 2)], [("z3+prune", 5), ("z3-nomacro+prune", 5), ("z3-nomacro", 4), ("cvc5", 8), ("z3-new", 8)], [("z3", 10), ("cvc5-enum", 10)]]
DEEPSTAGES = STAGES + [[("z3+prune", 45), ("cvc5+prune", 45), ("cvc5", 60), ("z3-new", 45), ("z3", 45), ("z3-nomacro", 45)]]


def split_all(pr, workers=8):
    cf_ = conf(pr.dir)
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(lambda u: why3_split(u, pr.dir, cf_), pr.units))
