"""Builds the extension module from /repo's working tree in a scratch directory (unity build,
own flags), plus the optional test-side bindings.  Nothing is written to /repo."""
import os, subprocess, glob, shutil, concurrent.futures as cf, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("WICKED_REPO", "/repo")
PY_INC = "/usr/include/python3.12"


def flags():
    w = REPO + "/wicked"
    f = ["-std=gnu++20", "-D_wicked_EXPORTS", "-O1", "-DNDEBUG", "-fPIC", "-w", "-fvisibility=default", "-pthread"]
    if os.path.exists("/usr/include/boost/multiprecision/cpp_int.hpp"):
        f.append("-DUSE_BOOST_1024_INT")
    f += [f"-I{w}/.", f"-I{w}/algebra", f"-I{w}/diagrams", f"-I{w}/helpers", f"-I{w}/api", "-isystem", PY_INC]
    return f


def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def sources():
    w = REPO + "/wicked"
    out = []
    for d in (".", "algebra", "diagrams", "helpers", "api", "fmt"):
        out += sorted(glob.glob(f"{w}/{d}/*.cc") + glob.glob(f"{w}/{d}/*.cpp") + glob.glob(f"{w}/{d}/*.cxx"))
    return [os.path.normpath(s) for s in out]


def build(dest, extra=("vh_core", "vh_diag", "vh_wick"), sanitize=None, flags_more=None):
    """-> (package root, list of available extra modules, log)"""
    t0 = time.time()
    od = os.path.join(dest, "o")
    os.makedirs(od, exist_ok=True)
    pkg = os.path.join(dest, "py", "wicked")
    os.makedirs(pkg, exist_ok=True)
    src = sources()
    api = [s for s in src if "/api/" in s]
    rest = [s for s in src if "/api/" not in s]
    diag = [s for s in rest if "/diagrams/" in s]
    core = [s for s in rest if "/diagrams/" not in s]
    fl = flags() + (sanitize or []) + (flags_more or [])
    groups = [("core", core), ("diag", diag), ("api0", api[0::3]), ("api1", api[1::3]), ("api2", api[2::3])]
    jobs = []
    for n, fs in groups:
        if fs:
            p = os.path.join(od, n + ".cc")
            with open(p, "w") as f:
                f.write("".join(f'#include "{x}"\n' for x in fs))
            jobs.append((n, p, os.path.join(od, n + ".o"), fs))
    for n in extra:
        jobs.append((n, os.path.join(ROOT, "harness", n + ".cc"), os.path.join(od, n + ".o"), None))
    log = []

    def comp(j):
        n, s, o, fs = j
        r = run(["g++"] + fl + ["-c", s, "-o", o])
        if r.returncode == 0:
            return n, [o]
        if fs is None:
            log.append(f"{n}: {r.stdout[-800:]}")
            return n, None
        # unity group does not compile together: one by one
        objs = []
        log.append(f"{n}: unity build failed, compiling separately")
        for x in fs:
            oo = o[:-2] + "_" + os.path.basename(x) + ".o"
            r = run(["g++"] + fl + ["-c", x, "-o", oo])
            if r.returncode:
                log.append(r.stdout[-3000:])
                return n, None
            objs.append(oo)
        return n, objs

    with cf.ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(comp, jobs))
    objs = []
    for n, _, _, fs in jobs:
        if fs is not None:
            if res[n] is None:
                return None, [], "\n".join(log)
            objs += res[n]
    have = [n for n in extra if res[n]]
    so = os.path.join(pkg, "_wicked.cpython-312-x86_64-linux-gnu.so")

    def link(with_extra):
        o = list(objs)
        for n in with_extra:
            o += res[n]
        return run(["g++", "-shared", "-pthread"] + (sanitize or []) + o + ["-o", so])
    r = link(have)
    if r.returncode:
        log.append(r.stdout[-2000:])
        have = []
        r = link([])
        if r.returncode:
            return None, [], "\n".join(log) + r.stdout[-2000:]
    for n in have:
        os.symlink(so, os.path.join(dest, "py", n + ".so"))
    for f in glob.glob(REPO + "/wicked/*.py"):
        shutil.copy(f, pkg)
    shutil.rmtree(od, ignore_errors=True)
    log.append(f"built in {time.time()-t0:.1f}s")
    return os.path.join(dest, "py"), have, "\n".join(log)


if __name__ == "__main__":
    import sys
    d = sys.argv[1]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    print(build(d, sanitize=sys.argv[2:]))
