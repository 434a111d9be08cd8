#!/opt/venv/bin/python
"""Mutation analysis of the checks, by hand: syntactic mutations of /repo in scratch copies.

    tools/mutate.py OUT.jsonl [--per-file N] [--seed S] [--files REGEX] [--workers W] [--guard]

With --guard a mutant acts in some calls only: when an argument (or an attribute of the object) is long, strided, of integers,
large, small, negative, ..., or in every fifth call.  "fired" tells whether that happened during the checks.
Every mutant that passes the stable tests is shown to the checks of its file until one reports a violation.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO, VERIF, ROOT = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/tmp/w/mut"
ODE = ["C02", "C03", "C04", "C12"]
CHECKS = {
    "src/numerics/euler.py": ODE, "src/numerics/heun.py": ODE, "src/numerics/runge_kutta2.py": ODE, "src/numerics/runge_kutta4.py": ODE,
    "src/numerics/ode_solver.py": ODE, "src/var_bayes/fwd_ode.py": ["C02", "C04"], "src/var_bayes/bwd_ode.py": ["C03", "C04"],
    "src/numerics/optim_scg.py": ["C14", "C23", "C19"], "src/numerics/utilities.py": ["C22", "C24", "C23", "C08", "C12"],
    "src/var_bayes/gaussian_like.py": ["C06", "C12", "C04", "C25"], "src/var_bayes/likelihood.py": ["C06", "C12", "C25"],
    "src/var_bayes/gaussian_moments.py": ["C01", "C08"], "src/var_bayes/prior_kl0.py": ["C05", "C12", "C04", "C25"],
    "src/var_bayes/simulation.py": ["C20", "C19", "C21"], "src/var_bayes/variational.py": ["C12", "C11", "C18", "C25", "C19"],
    "src/dynamics/stochastic_process.py": ["C16", "C15", "C17", "C19"],
    "src/dynamics/double_well.py": ["C08", "C09", "C10", "C07", "C15", "C17", "C25"],
    "src/dynamics/ornstein_uhlenbeck.py": ["C08", "C09", "C10", "C07", "C15", "C17", "C25"],
    "src/dynamics/lorenz_63.py": ["C08", "C09", "C10", "C07", "C15", "C17", "C25"],
    "src/dynamics/lorenz_96.py": ["C08", "C09", "C10", "C07", "C15", "C17", "C25"],
    "vgpa_main.py": ["C21"],
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}


def mutants(src):
    """(line, what, new source)"""
    tree = ast.parse(src)
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l))

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return src[a:b]
    doc = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    instr = {id(c) for n in ast.walk(tree) if isinstance(n, (ast.JoinedStr, ast.Raise)) for c in ast.walk(n)}
    prints = {id(c) for n in ast.walk(tree) if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print" for c in ast.walk(n)}
    out = []

    def put(n, text, what):
        a, b = span(n)
        if src[a:b] != text:
            out.append((n.lineno, f"{what}: {src[a:b][:70]!r} -> {text[:70]!r}", src[:a] + text + src[b:]))
    for n in ast.walk(tree):
        if id(n) in doc or id(n) in instr or id(n) in prints:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "op")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, f"({seg(n.operand)})", "unary")
        if isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            put(n, f" {op} ".join(f"({seg(v)})" for v in n.values), "bool")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            put(n, repr(v + 1) if isinstance(v, int) else repr(v * 1.5 if v else 0.5), "const")
        if isinstance(n, ast.Attribute) and n.attr == "T":
            put(n, seg(n.value), "transpose")
        if isinstance(n, ast.Call) and n.keywords and len(n.args) + len(n.keywords) > 1:
            k = n.keywords[-1]
            a, b = span(n)
            ka = starts[k.lineno - 1] + k.col_offset
            kb = starts[k.end_lineno - 1] + k.end_col_offset
            text = src[a:ka].rstrip().rstrip(",") + src[kb:b]
            put(n, text, "keyword")
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            i = 0
            a0, a1 = seg(n.args[i]), seg(n.args[i + 1])
            sa, _ = span(n.args[i])
            _, sb = span(n.args[i + 1])
            mid = src[span(n.args[i])[1]:span(n.args[i + 1])[0]]
            if a0 != a1:
                out.append((n.lineno, f"swap: {a0[:30]!r}, {a1[:30]!r}", src[:sa] + a1 + mid + a0 + src[sb:]))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and
                                                                    getattr(n.value.func, "id", "") != "print"):
            simple = isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Name, ast.Tuple))
            if not simple:
                put(n, "pass", "delete")
        if isinstance(n, ast.If):
            put(n.test, "True", "if")
            put(n.test, "False", "if")
    res = []
    for line, what, text in out:
        try:
            compile(text, "x", "exec")
        except SyntaxError:
            continue
        res.append((line, what, text))
    return res


GUARDS = ["calls", "long", "verylong", "wide", "negative", "zero", "large", "small", "strided", "integers", "odd", "equal", "step", "ends", "few"]
HELPER = '''

def _vp(k, arr, num, n):
    import numpy as np
    p = [float(v) for v in k[1:]]
    ints = [a for a in arr if a.dtype.kind == "i" and a.ndim == 1]
    flo = [a for a in arr if a.dtype.kind == "f"]
    return {"call": lambda: n % p[0] == p[1],
            "later": lambda: n > p[0],
            "size": lambda: any(a.shape[0] == p[0] for a in arr),
            "mod": lambda: any(a.shape[0] > 2 and a.shape[0] % p[0] == p[1] for a in arr),
            "range": lambda: any(p[0] < np.abs(a).max() < p[1] for a in flo),
            "num": lambda: any(p[0] < abs(v) < p[1] for v in num),
            "digit": lambda: any(v == v and abs(v) < 1e9 and v != int(v) and int(abs(v) * 1000) % p[0] == p[1] for v in num),
            "digits": lambda: any(np.isfinite(a).all() and int(abs(a.ravel()[0]) * 1000 % 1e6) % p[0] == p[1] for a in flo),
            "signs": lambda: any(a.size > 1 and a.ravel()[0] < 0 < a.ravel()[-1] for a in flo),
            "rising": lambda: any(a.ndim and a.shape[0] > 2 and np.all(np.diff(a, axis=0) >= 0) for a in flo),
            "off": lambda: any(a.ndim > 1 and a.shape[-1] == a.shape[-2] > 1 and a[..., 0, 1].min() < 0 for a in flo),
            "nobs": lambda: any(a.size == p[0] for a in ints),
            "gap": lambda: any(a.size > 1 and np.diff(a).max() == p[0] for a in ints),
            "start": lambda: any(a.size and a[0] == p[0] for a in ints),
            }[k[0]]()


def _vg(kind, loc, _n=[0]):
    import os
    import numpy as np
    pool = [v for k, v in loc.items() if k != "self"]
    me = loc.get("self")
    for c in type(me).__mro__ if me is not None else ():
        for s in getattr(c, "__slots__", ()):
            try:
                pool.append(getattr(me, s))
            except AttributeError:
                pass
    more = []
    for v in pool:
        if isinstance(v, dict):
            more += list(v.values())
        elif isinstance(v, tuple):
            more += list(v)
    pool += more
    arr = [v for v in pool if isinstance(v, np.ndarray) and v.size and v.dtype.kind in "fi" and v.ndim] + \\
        [np.asarray(v) for v in pool if isinstance(v, list) and v and isinstance(v[0], (int, float, np.integer))]
    num = [float(v) for v in pool if isinstance(v, (int, float, np.number)) and not isinstance(v, bool)] + \\
        [float(v) for v in pool if isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype.kind in "fi"]
    _n[0] += 1
    r = {"calls": lambda: _n[0] % 5 == 0,
         "long": lambda: any(a.shape[0] > 50 for a in arr),
         "verylong": lambda: any(a.shape[0] > 150 for a in arr),
         "wide": lambda: any(a.ndim > 1 and a.shape[-1] >= 4 for a in arr),
         "negative": lambda: any(a.ravel()[0] < 0 for a in arr) or any(v < 0 for v in num),
         "zero": lambda: any(a.ravel()[-1] == 0 for a in arr) or any(v == 0 for v in num),
         "large": lambda: any(np.abs(a).max() > 20 for a in arr if a.dtype.kind == "f") or any(abs(v) > 20 for v in num),
         "small": lambda: any(0 < np.abs(a).max() < 0.05 for a in arr),
         "strided": lambda: any(not a.flags.c_contiguous for a in arr),
         "integers": lambda: any(a.dtype.kind == "i" for a in arr),
         "odd": lambda: any(a.shape[0] % 2 for a in arr),
         "equal": lambda: any(a.shape[0] > 1 and np.array_equal(a[0], a[1]) for a in arr),
         "step": lambda: any(0 < v < 0.003 for v in num),
         "ends": lambda: any(a.dtype.kind == "i" and a.ndim == 1 and a[0] == 0 for a in arr),
         "few": lambda: any(a.shape[0] <= 2 for a in arr)}
    r = r[kind]() if kind in r else _vp(kind.split(":"), arr, num, _n[0])
    if r and os.environ.get("VG_FLAG"):
        open(os.environ["VG_FLAG"], "a").close()
    return bool(r)
'''


def special(rnd):
    """A guard with parameters."""
    m = rnd.randint(3, 9)
    u = rnd.uniform(-3, 3)
    return rnd.choice([f"call:{m + 4}:{rnd.randrange(m)}", f"later:{rnd.choice([1, 3, 10, 50])}", f"size:{rnd.randint(1, 12)}",
                       f"mod:{m}:{rnd.randrange(m)}", f"range:{10 ** u:.4g}:{10 ** (u + 0.5):.4g}", f"num:{10 ** u:.4g}:{10 ** (u + 0.4):.4g}",
                       f"digit:{m}:{rnd.randrange(m)}", f"digits:{m}:{rnd.randrange(m)}", "signs", "rising", "off",
                       f"nobs:{rnd.randint(1, 6)}", f"gap:{rnd.randint(1, 5)}", f"start:{rnd.randint(0, 3)}"])


def guarded(src, text, line, kind):
    """The original source with the mutant's function in it, under a condition; None where that cannot be."""
    a, b = ast.parse(src), ast.parse(text)
    fa = [n for n in ast.walk(a) if isinstance(n, ast.FunctionDef) and n.lineno <= line <= n.end_lineno]
    fb = [n for n in ast.walk(b) if isinstance(n, ast.FunctionDef)]
    if not fa:
        return None
    fa = max(fa, key=lambda n: n.lineno)
    fb = [n for n in fb if n.name == fa.name and n.lineno == fa.lineno]
    if not fb or any("njit" in ast.dump(d) for d in fa.decorator_list):
        return None
    test = ast.parse(f"_vg({kind!r}, locals())").body[0].value
    fa.body = [ast.If(test=test, body=fb[0].body, orelse=fa.body)]
    out = ast.unparse(ast.fix_missing_locations(a))
    return out + HELPER if "__main__" not in out else HELPER + out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--per-file", type=int, default=20)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--files", default=".")
    ap.add_argument("--checks", default="")
    ap.add_argument("--workers", type=int, default=7)
    ap.add_argument("--guard", action="store_true")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    todo = []
    for f in CHECKS:
        if not re.search(a.files, f):
            continue
        src = open(f"{REPO}/{f}").read()
        ms = mutants(src)
        rnd.shuffle(ms)
        if a.guard:
            gs = []
            for line, what, text in ms:
                k = rnd.choice(GUARDS) if rnd.random() < 0.2 else special(rnd)
                t = guarded(src, text, line, k)
                if t:
                    gs.append((line, f"[{k}] {what}", t))
                if len(gs) >= a.per_file:
                    break
            ms = gs
        todo += [(f, *m) for m in ms[:a.per_file]]
    rnd.shuffle(todo)
    slots = Queue()
    for w in range(a.workers):
        d = f"{ROOT}/{w}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", REPO, f"{d}/repo"])
        subprocess.check_call(["cp", "-a", VERIF, f"{d}/verif"])
        slots.put(d)

    def one(job):
        f, line, what, text = job
        d = slots.get()
        try:
            env = dict(os.environ, VGPA_REPO=f"{d}/repo", VP_JOBS="2", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                       OPENBLAS_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
            flag = f"{d}/fired"
            if os.path.exists(flag):
                os.remove(flag)
            path = f"{d}/repo/{f}"
            keep = open(path).read()
            with open(path, "w") as h:
                h.write(text)
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "src/tests"], cwd=f"{d}/repo",
                                   env=env, capture_output=True, text=True, timeout=200)
                m = re.search(r"(\d+) passed", t.stdout)
                if not m or int(m.group(1)) < 8:
                    return {"file": f, "line": line, "what": what, "status": "tests"}
                codes = {}
                env["VG_FLAG"] = flag
                for c in a.checks.split(",") if a.checks else CHECKS[f]:
                    r = subprocess.run([f"{d}/verif/check", c], env=env, capture_output=True, text=True, timeout=900)
                    codes[c] = r.returncode
                    if r.returncode == 1:
                        msg = [l for l in r.stdout.splitlines() if l.startswith(c + "/")]
                        return {"file": f, "line": line, "what": what, "status": "killed", "by": c, "codes": codes,
                                "msg": msg[0][:150] if msg else ""}
                return {"file": f, "line": line, "what": what, "status": "survived", "codes": codes,
                        "fired": os.path.exists(flag)}
            finally:
                with open(path, "w") as h:
                    h.write(keep)
        except subprocess.TimeoutExpired:
            return {"file": f, "line": line, "what": what, "status": "timeout"}
        finally:
            slots.put(d)
    with ThreadPoolExecutor(a.workers) as ex, open(a.out, "w") as out:
        for r in ex.map(one, todo):
            out.write(json.dumps(r) + "\n")
            out.flush()
    shutil.rmtree(ROOT, ignore_errors=True)


main()
