#!/opt/venv/bin/python
"""Make /verif/seeded/<id>/ from a specification file and confirm it, in scratch copies of /repo.

    tools/plant.py SPEC.py [--ids A,B] [--all] [--again]

SPEC.py defines BUGS: a list of dict(id, property, edits=[(file, old, new)...], needs, breaks, demo=<python source>).
A change is kept when every line it removes is original, the stable tests pass, and the demonstration passes without and
fails with it; one without a demonstration is only tried, not kept.  The property's check (with --all: every check) is then run on the changed copy, and its answer printed.
"""
import argparse
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED, ROOT, BASE = os.path.join(VERIF, "seeded"), "/tmp/w/plant", "2d8d663"
SH = '#!/bin/sh\n# Run with cwd /repo: exit 0 when the property holds in the demonstrated case.\n' \
     'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def original(repo, path):
    out = subprocess.run(["git", "blame", "-s", path], cwd=repo, capture_output=True, text=True).stdout.splitlines()
    return [l.startswith("^" + BASE) or l.startswith(BASE) for l in out]


def plant(bug, everything):
    name, work = bug["id"], f"{ROOT}/{bug['id']}"
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
    try:
        for path, old, new in bug["edits"]:
            p = os.path.join(work, path)
            src = open(p).read()
            if src.count(old) != 1:
                return name, f"edit matches {src.count(old)} times in {path}: {old!r}"
            open(p, "w").write(src.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True).stdout
        path, ln, orig, touched = None, 0, [], 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                path = l[6:]
                orig = original("/repo", path)
            elif l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                if not orig[ln - 1] and "demo" in bug:
                    return name, f"{path}:{ln} is not an original line"
                touched += 1
                ln += 1
            elif l.startswith(" "):
                ln += 1
        if not touched and "demo" in bug:
            return name, "the change removes no original line"
        d = f"{ROOT}/{name}.d"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(bug.get("demo", "raise SystemExit(__import__('os').getcwd() != '/repo')\n").lstrip())
        rc, out = run([d + "/demo.sh"], "/repo")
        if rc:
            return name, "demo fails on the unchanged tree:\n" + out[-1500:]
        rc, out = run([d + "/demo.sh"], work)
        if not rc:
            return name, "demo passes with the change:\n" + out[-500:]
        tail = out.strip().splitlines()[-1:]
        rc, out = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "src/tests", "-p", "no:cacheprovider"], work,
                      {"PYTHONDONTWRITEBYTECODE": "1"})
        n = re.search(r"(\d+) passed", out)
        if not n or int(n.group(1)) < 8:  # the stable ones
            return name, "tests fail:\n" + out[-800:]
        open(d + "/patch.diff", "w").write(diff)
        if "demo" in bug:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            dst = os.path.join(SEEDED, name)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        ids = [bug["property"]]
        if everything:
            ids += [f"C{i:02d}" for i in range(1, 100) if os.path.exists(f"{VERIF}/pbt/props/c{i:02d}.py")
                    and f"C{i:02d}" != bug["property"]]
        codes = {}
        for i in ids:
            rc, out = run([VERIF + "/check", i], VERIF, {"VGPA_REPO": work, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            codes[i] = rc
            if i == bug["property"]:
                first = [l for l in out.splitlines() if "VIOLATION" in l or "error" in l.lower()][:1]
        own = codes[bug["property"]]
        return name, ("CAUGHT" if own == 1 else f"MISSED rc={own}") + f" by {bug['property']}; also " + \
            " ".join(f"{k}" + ("" if v == 1 else f"(rc {v})") for k, v in codes.items() if v and k != bug["property"]) + \
            f"  demo: {tail}  {first}"
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(f"{ROOT}/{name}.d", ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("spec")
    ap.add_argument("--ids", default="")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--again", action="store_true")
    a = ap.parse_args()
    bugs = runpy.run_path(a.spec)["BUGS"]
    pick = set(a.ids.split(",")) - {""}
    bugs = [b for b in bugs if not pick or b["id"] in pick]
    bugs = [b for b in bugs if a.again or pick or not os.path.exists(os.path.join(SEEDED, b["id"]))]
    os.makedirs(ROOT, exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        for name, res in ex.map(lambda b: plant(b, a.all), bugs):
            print(f"[{name}] {res}", flush=True)
