import os
import sys

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VGPA_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
# Hypothesis comes from the tools' environment; everything that /repo imports
# (numpy, scipy, numba, ...) comes from its own environment, which is first.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main(argv):
    import src.numerics.utilities as u
    if not os.path.abspath(u.__file__).startswith(os.path.abspath(REPO) + "/"):
        print(f"src was imported from {u.__file__}, not from {REPO}", file=sys.stderr)
        return 3
    from pbt import core
    if argv[:1] == ["--self-test"]:
        import hypothesis
        names = sorted(f[:3] for f in os.listdir(os.path.join(HERE, "pbt", "props")) if f.startswith("c"))
        subs = sum(len(core.load(n).SUBS) for n in names)
        print(f"{len(names)} properties, {subs} checks, hypothesis {hypothesis.__version__}")
        return 0
    if argv[:1] == ["--replay"]:
        return core.replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
        argv = [a for a in argv if a != "--thorough"]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return core.run(argv[0], tier, seed)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
