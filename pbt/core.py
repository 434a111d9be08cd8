"""Driver shared by all the checks.

A property module defines PROPERTY (its id), TITLE, RULE (what a case is and
when it counts as non-trivial), ASSUMPTIONS and SUBS (a list of Sub).  A Sub
pairs a Hypothesis strategy that builds *plain-data* cases with a function that
evaluates one case against its oracle.  Cases are JSON, so that a shrunk failure
becomes a replay file which is evaluated again without Hypothesis.
"""
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VGPA_REPO", "/repo")


MORE = 5        # the quick tier runs this many times the number of cases of a Sub


class Violation(Exception):
    """The code under test broke the property."""


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, shards=1,
                 tshards=None, regress=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough
        self.shards = shards
        self.tshards = tshards or max(shards, 4)
        self.regress = list(regress)


class Ctx:
    """What a case tells about itself: labels, and whether it is non-trivial."""

    def __init__(self):
        self.labels, self.nontrivial, self.excluded, self.known = [], False, 0, []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def hit(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    def finding(self, key, text):
        self.known.append((key, text))


@contextlib.contextmanager
def sut(what):
    """Any exception out of the code under test, on an input that it has to
    accept, is a violation.  (Violations and harness errors pass through.)"""
    try:
        yield
    except Violation:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # SystemExit included
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(REPO) for f in tb) and tb and \
                all(f.filename.startswith(os.path.join(VERIF, "pbt")) for f in tb[1:]):
            # Raised by the harness itself (nothing of /repo, or below it).
            if isinstance(e, (NameError, ImportError, SyntaxError)):
                raise
        raise Violation(f"{what}: unexpected {type(e).__name__}: {str(e)[:300]}") from e


def evaluate_case(sub, case, ctx):
    """One case.  An exception that comes out of the code under test is a
    violation, wherever it was called from; one of the harness itself is not."""
    try:
        sub.check(case, ctx)
    except (Violation, MemoryError):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if any(f.filename.startswith(REPO) for f in traceback.extract_tb(e.__traceback__)):
            raise Violation(f"unexpected {type(e).__name__}: {str(e)[:300]}") from e
        raise


def expect(exc, what, fun, *args, **kw):
    """The call has to be rejected with (one of) these exceptions."""
    try:
        fun(*args, **kw)
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: rejected with {type(e).__name__} ({str(e)[:200]}) in place of {exc}") from e
    raise Violation(f"{what}: was accepted")


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(got, ref, scale, what, rtol=1e-9):
    """|got - ref| <= rtol * scale elementwise, shapes equal, no NaN allowed
    where the reference is finite."""
    import numpy as np
    got, ref = np.asarray(got, dtype=float), np.asarray(ref, dtype=float)
    if got.shape != ref.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {ref.shape}")
    tol = rtol * (np.abs(np.asarray(scale, dtype=float)) + 1e-300)
    bad = ~(np.abs(got - ref) <= tol)
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(np.atleast_1d(bad))[0])
        g, r = np.atleast_1d(got)[i], np.atleast_1d(ref)[i]
        raise Violation(f"{what}: at {i} got {g!r}, expected {r!r} "
                        f"(allowed {np.atleast_1d(np.broadcast_to(tol, ref.shape))[i]:.3g}; "
                        f"{int(bad.sum())} of {bad.size} differ)")


def unchanged(before, after, what):
    import numpy as np
    for k, (b, a) in enumerate(zip(before, after)):
        if not np.array_equal(np.asarray(b), np.asarray(a), equal_nan=True):
            raise Violation(f"{what}: argument {k} was modified")


# --------------------------------------------------------------------------
def load(pid):
    return importlib.import_module(f"pbt.props.{pid.lower()}")


def _digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _shorten(obj, n=160):
    if isinstance(obj, str):
        return obj if len(obj) <= n else obj[:n] + f"...({len(obj)} chars)"
    if isinstance(obj, dict):
        return {k: _shorten(v, n) for k, v in obj.items()}
    if isinstance(obj, list):
        out = [_shorten(v, n) for v in obj[:12]]
        return out if len(obj) <= 12 else out + [f"...({len(obj)} items)"]
    return obj


def _shard(pid, si, shard, nshards, seed, tier, budget, queue):
    """Runs in its own process: one shard of one Sub."""
    out = {"sub": si, "shard": shard, "status": "ok"}
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("VP_DEBUG"):
            os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, "w")
        out.update(_run_shard(pid, si, shard, nshards, seed, tier, budget))
    except BaseException as e:
        out["status"] = "error"
        out["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    queue.put(out)
    queue.close()
    queue.join_thread()
    os._exit(0)


def _run_shard(pid, si, shard, nshards, seed, tier, budget):
    import warnings
    import numpy as np
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    try:
        from hypothesis.internal.conjecture import engine
        engine.MAX_SHRINKING_SECONDS = 40
    except Exception:
        pass
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")

    sub = load(pid).SUBS[si]
    total = (sub.quick * MORE if sub.quick > 1 else 1) if tier == "quick" else sub.thorough
    n = max(1, total // nshards)
    state = {"evals": 0, "skipped": 0, "labels": {}, "hashes": set(), "all": set(),
             "samples": [], "fail": None, "history": [], "known": {}}
    start = time.monotonic()

    def evaluate(case, record=True):
        ctx = Ctx()
        try:
            evaluate_case(sub, case, ctx)
        except Violation as e:
            state["fail"] = {"case": case, "message": str(e)}
            raise
        finally:
            state["evals"] += 1
        if record and state["fail"] is None:
            h = _digest(case)
            state["all"].add(h)
            state["history"].append(case)
            if len(state["history"]) > 400:
                del state["history"][:200]
            for l in set(ctx.labels):
                state["labels"][l] = state["labels"].get(l, 0) + 1
            for k, t in ctx.known:
                state["known"].setdefault(k, t)
            if ctx.nontrivial:
                state["hashes"].add(h)
                if len(state["samples"]) < 2:
                    state["samples"].append(_shorten(case))

    # Explicit regression cases first (a seconds-long replay tier).
    if shard == 0:
        for case in sub.regress:
            try:
                evaluate(case)
            except Violation:
                return _result(state, None)

    h = hashlib.sha256(f"{seed}/{pid}/{sub.name}/{shard}/{tier}".encode()).digest()

    @hypothesis.seed(int.from_bytes(h[:8], "big"))
    @settings(max_examples=n, database=None, deadline=None, print_blob=False,
              report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.shrink))
    @given(sub.strategy)
    def test(case):
        if state["fail"] is None and time.monotonic() - start > budget:
            state["skipped"] += 1
            return
        evaluate(case)

    extra = None
    try:
        test()
    except Violation:
        pass
    except BaseException as e:
        if state["fail"] is None:
            raise
        # A failure was seen but did not reproduce on its own: it depends on
        # the calls before it, so the replay carries the history.
        extra = f"{type(e).__name__}"
    return _result(state, extra)


def _result(state, extra):
    r = {k: state[k] for k in ("evals", "skipped", "labels", "samples", "fail", "known")}
    r["hashes"] = sorted(state["hashes"])
    r["distinct"] = len(state["all"])
    if extra and state["fail"]:
        r["fail"] = dict(state["fail"], history=state["history"][-200:], flaky=extra)
    return r


def findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": []}


def run(pid, tier, seed):
    t0 = time.monotonic()
    prop = load(pid)
    if hasattr(prop, "warm"):
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
            try:
                prop.warm()
            except Exception:
                pass   # whatever is wrong will show up in the cases
    budget = 360 if tier == "quick" else 640
    hard = 600 if tier == "quick" else 860
    jobs = []
    for si, sub in enumerate(prop.SUBS):
        nsh = (min(8, 2 * sub.shards) if sub.quick > 1 else 1) if tier == "quick" else sub.tshards
        jobs += [(si, sh, nsh) for sh in range(nsh)]
    jobs.sort(key=lambda j: j[1])
    ctx = mp.get_context("fork")
    width = int(os.environ.get("VP_JOBS", "8"))
    results, running, failed = [], {}, False
    # Keep the whole run inside `hard`: the waves share the budget.
    waves = -(-len(jobs) // width)
    budget = max(60, budget // waves)
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < width and not failed:
            si, sh, nsh = pending.pop(0)
            q = ctx.SimpleQueue() if False else ctx.Queue()
            p = ctx.Process(target=_shard, args=(pid, si, sh, nsh, seed, tier, budget, q))
            p.start()
            running[p.pid] = (p, q, si, sh)
        if failed:
            pending = []
        for key, (p, q, si, sh) in list(running.items()):
            try:
                res = q.get(timeout=0.02)
            except Exception:
                if not p.is_alive():
                    try:
                        res = q.get(timeout=1.0)
                    except Exception:
                        res = {"sub": si, "shard": sh, "status": "error",
                               "error": f"worker died with exit code {p.exitcode}"}
                elif time.monotonic() - t0 > hard:
                    p.kill()
                    res = {"sub": si, "shard": sh, "status": "error", "error": "time limit"}
                else:
                    continue
            p.join(5)
            if p.is_alive():
                p.kill()
            del running[key]
            results.append(res)
            if res.get("fail"):
                failed = True
    return report(prop, pid, tier, seed, results, time.monotonic() - t0)


def report(prop, pid, tier, seed, results, wall):
    known = {f["key"]: f for f in findings()["findings"] if f["property"] == pid}
    fails = sorted((r for r in results if r.get("fail")), key=lambda r: (r["sub"], r["shard"]))
    errors = [r for r in results if r["status"] == "error"]
    labels, hashes, samples, evals, persub, seen, skipped = {}, set(), [], 0, {}, {}, 0
    for r in sorted(results, key=lambda r: (r["sub"], r["shard"])):
        if r["status"] == "error":
            continue
        name = prop.SUBS[r["sub"]].name
        d = persub.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0})
        d["evaluations"] += r["evals"]
        new = {f"{name}:{h}" for h in r["hashes"]} - hashes
        d["distinct_nontrivial"] += len(new)
        hashes |= new
        evals += r["evals"]
        skipped += r["skipped"]
        for k, v in r["labels"].items():
            labels[f"{name}/{k}"] = labels.get(f"{name}/{k}", 0) + v
        if len([s for s in samples if s["check"] == name]) < 2:
            samples += [{"check": name, "case": s} for s in r["samples"][:1]]
        seen.update(r["known"])
    violations = 0
    lines = []
    for key, text in sorted(seen.items()):
        if key in known:
            lines.append(f"KNOWN-FINDING: property={pid} {known[key]['what']}")
        else:
            raise RuntimeError(f"a finding that is not listed: {key}")
    if fails:
        r = fails[0]
        violations = len(fails)
        name = prop.SUBS[r["sub"]].name
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{pid}-{name}-{_digest(r['fail']['case'])}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "check": name, "seed": seed, "tier": tier,
                       **r["fail"]}, f, indent=1)
        lines.append(f"{pid}/{name}: {r['fail']['message']}")
        lines.append(f"VIOLATION property={pid} replay={path}")
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes),
            "rule": prop.RULE, "samples": samples, "per_check": persub,
            "labels": dict(sorted(labels.items())),
            "not_run_for_lack_of_time": skipped,
            "known_findings_seen": sorted(seen),
        },
        "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for l in lines:
        print(l)
    print(f"{pid} {tier}: {evals} cases, {len(hashes)} distinct non-trivial, "
          f"{wall:.1f} s, {violations} violation(s)")
    if fails:
        return 1
    if errors:
        for r in errors[:1]:
            print(f"ERROR {pid}/{prop.SUBS[r['sub']].name}#{r['shard']} ({len(errors)} of {len(results)} shards): {r['error']}",
                  file=sys.stderr)
        return 2
    return 0


def replay(path):
    import warnings
    import numpy as np
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    with open(path) as f:
        rep = json.load(f)
    prop = load(rep["property"])
    sub = next(s for s in prop.SUBS if s.name == rep["check"])
    for case in rep.get("history", []):
        try:
            evaluate_case(sub, case, Ctx())
        except Violation as e:
            print(f"{sub.name} (history): {e}")
            print(f"VIOLATION property={rep['property']} replay={path}")
            return 1
    try:
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
            evaluate_case(sub, rep["case"], Ctx())
    except Violation as e:
        print(f"{rep['property']}/{sub.name}: {e}")
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    print(f"{rep['property']}/{sub.name}: the case passes")
    return 0
