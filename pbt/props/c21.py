import copy
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st
from src.var_bayes.simulation import Simulation, load
from pbt import gen as g
from pbt.core import REPO, Sub, require, sut
from pbt.props.c19 import FIELDS, case as simcase, params
from pbt.props.c20 import expected_file, same, scratch

PROPERTY = "C21"
TITLE = "The command line program writes the right results, or fails and writes nothing"
RULE = ("valid: a case is a parameters file (DW, OU, L63; with or without a name, extra keys, keys in any order); main() leaves "
        "exactly one file, <name>.h5 (an earlier one is replaced), whose fields equal, bit for bit, those of the Simulation class for the same parameters. "
        "invalid: one required key or value is missing, malformed or out of range, or the file is absent or not JSON: main() "
        "does not return normally (or exits with an error code) and no file is written, an earlier result is kept. process: "
        "the same for the script in a process of its own (exit codes). Non-trivial: every case.")
ASSUMPTIONS = ["every case runs in a scratch directory", "--data is a known finding (the program cannot use a data file)"]
REQUIRED = ["Output_Name", "Model", "Ode-method", "Time-window", "Noise", "Observations", "Drift", "Prior", "Random-Seed"]


def call(*args):
    """main() in this process: how it ended."""
    import vgpa_main
    with g.quiet() as out:
        try:
            vgpa_main.main(*args)
        except SystemExit as e:
            return ("exit", e.code), out.getvalue()
        except Exception as e:
            return ("raised", type(e).__name__), out.getvalue()
    return ("returned", 0), out.getvalue()


def failed(how):
    return how[0] == "raised" or (how[0] == "exit" and how[1] not in (None, 0))


def write(path, P, order, indent):
    keys = sorted(P, key=lambda k: order * hash_(k))
    with open(path, "w") as f:
        json.dump({k: P[k] for k in keys}, f, indent=indent, default=np.ndarray.tolist)


def hash_(k):
    return sum(ord(ch) * 31 ** i for i, ch in enumerate(k)) % 1009


def check_valid(c, ctx):
    P = params(c)
    P["Output_Name"] = c["out"]
    if c["extra"]:
        P.update({"Info": "text", "Author": None, "Date": "2022-05-09"})
    with sut("the Simulation class"), g.quiet():
        s = Simulation("ref")
        s.setup(copy.deepcopy(P), None)
        s.run()
    want = {k: np.array(v, float) for k, v in s.output.items()}
    with scratch() as d:
        write("params.json", P, c["order"], c["indent"])
        f = expected_file(c["out"] if c["out"] is not None else "Sim_00")
        if c["earlier"]:
            # The result of an earlier run is replaced.
            with sut("save"), g.quiet():
                s.name = f[:-3]
                s.output["old"] = np.ones(3)
                s.save()
        how, text = call("params.json", None)
        require(how[0] == "returned" or how == ("exit", 0), f"{c['kind']}: valid parameters, but the program {how}: {text[-200:]}")
        have = set(os.listdir(d)) - {"params.json"}
        require(have == {f}, f"files {sorted(have)}, expected {f}")
        with sut("load"):
            got = load(f)
        require(FIELDS <= set(got) and set(got) == set(want), f"fields {sorted(got)}, not {sorted(want)}")
        for k, v in want.items():
            same(v, got[k], k)
    ctx.label(c["kind"], "no-name" if c["out"] is None else "", "extra" if c["extra"] else "",
              "earlier" if c["earlier"] else "")
    ctx.hit()


def broken(c, d):
    """Make the parameters file invalid; returns what was done."""
    P = params(c)
    P["Output_Name"] = "Sim"
    if c["seed0"] and c["how"][1] != "Random-Seed":
        P["Random-Seed"] = None
    kind, k, v = c["how"]
    args = "params.json"
    if kind == "drop":
        del P[k]
    elif kind == "set":
        a, b = k
        if v == "dense":
            v = int(round(1 / c["dt"])) + 1
        if v == "before":
            v = c["t0"] - 1.0
        if b is None:
            P[a] = v
        else:
            P[a][b] = v
    elif kind == "drop2":
        a, b = k
        del P[a][b]
    write("params.json", P, 1, None)
    if kind == "text":
        with open("params.json") as f:
            t = f.read()
        with open("params.json", "w") as f:
            f.write({"empty": "", "cut": t[: len(t) // 2], "comma": t[:-1] + ",}", "list": "[1, 2]", "noise": "\x00\x01"}[v])
    if kind == "path":
        args = {"absent": "absent.json", "none": None, "directory": d}[v]
    return args


def check_invalid(c, ctx):
    with scratch() as d:
        if c["earlier"]:
            with open("Sim.h5", "w") as f:
                f.write("earlier")
        args = broken(c, d)
        before = set(os.listdir(d))
        how, text = call(args, None)
        require(failed(how), f"{c['how']}: the program {how}")
        have = set(os.listdir(d))
        require(have == before, f"{c['how']}: the program left {sorted(have - before)} (and removed {sorted(before - have)})")
        if c["earlier"]:
            with open("Sim.h5") as f:
                require(f.read() == "earlier", f"{c['how']}: an earlier result was overwritten")
    ctx.label(c["how"][0], str(c["how"][1]))
    ctx.hit()


def check_process(c, ctx):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg")
    with scratch() as d:
        good = c["how"][0] == "valid"
        if good:
            P = params(c)
            P["Output_Name"] = c["out"]
            write("params.json", P, 1, None)
            args = "params.json"
        else:
            args = broken(c, d)
        before = set(os.listdir(d))
        cmd = [sys.executable, "-W", "ignore", os.path.join(REPO, "vgpa_main.py")]
        if c["how"][0] == "bare":
            pass
        elif args is not None:
            cmd += ["--params", args]
        else:
            cmd += ["--data", "data.csv"]
        r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=300)
        have = set(os.listdir(d)) - before
        if good:
            require(r.returncode == 0, f"valid parameters: exit code {r.returncode}: {(r.stdout + r.stderr)[-300:]}")
            require(have == {expected_file(c["out"] or "Sim_00")}, f"valid parameters: the program left {sorted(have)}")
            with sut("load"):
                got = load(os.path.join(d, next(iter(have))))
            require(FIELDS <= set(got), f"fields {sorted(got)}")
        else:
            require(r.returncode != 0, f"{c['how']}: exit code 0")
            require(not have, f"{c['how']}: the program left {sorted(have)}")
    ctx.label(c["how"][0])
    ctx.hit()


def check_finding(c, ctx):
    with scratch() as d:
        P = params(dict(c, kind="DW", name="DW", dens=4, n=50, dt=0.02, sys=0.8))
        P["Output_Name"] = "Sim"
        write("params.json", P, 1, None)
        with open("data.csv", "w") as f:
            f.write("10,1.0\n20,0.9\n30,1.1\n40,1.0\n")
        how, text = call("params.json", "data.csv")
        if failed(how):
            require(not os.path.exists("Sim.h5"), "a failed run with a data file left a result")
            ctx.finding("C21-data-file", text[-100:])
        else:
            require(os.path.exists("Sim.h5"), "no result with a data file")
    ctx.hit()


SETS = [("Model", None, "L64"), ("Model", None, ""), ("Model", None, None), ("Ode-method", None, "rk5"), ("Ode-method", None, None),
        ("Noise", "sys", 0.0), ("Noise", "sys", -1.0), ("Noise", "sys", None), ("Noise", "obs", 0.0), ("Noise", "obs", -1.0),
        ("Noise", "obs", None), ("Prior", "tau0", 0.0), ("Prior", "tau0", -1.0), ("Prior", "tau0", None), ("Time-window", "dt", 0.0),
        ("Time-window", "dt", -0.01), ("Time-window", "tf", "before"), ("Observations", "density", "dense"),
        ("Observations", "density", 0), ("Drift", "theta", None), ("Noise", None, None), ("Time-window", None, None), ("Prior", None, 1.0)]
SUBKEYS = [("Noise", "sys"), ("Noise", "obs"), ("Prior", "tau0"), ("Prior", "mu0"), ("Time-window", "t0"), ("Time-window", "tf"),
           ("Time-window", "dt"), ("Observations", "density"), ("Observations", "operator"), ("Drift", "theta")]
HOW = st.one_of(st.sampled_from([["drop", k, None] for k in REQUIRED]),
                st.sampled_from([["set", [a, b], v] for a, b, v in SETS]),
                st.sampled_from([["drop2", list(k), None] for k in SUBKEYS]),
                st.sampled_from([["text", None, v] for v in ("empty", "cut", "comma", "list", "noise")]),
                st.sampled_from([["path", None, v] for v in ("absent", "none", "directory")]))
PROC = st.sampled_from([["valid", None, None], ["drop", "Noise", None], ["set", ["Model", None], "XX"], ["text", None, "cut"],
                        ["path", None, "absent"], ["path", None, "none"], ["bare", None, None], ["set", ["Noise", "sys"], -1.0]])
OUT = st.sampled_from(["Sim", "My Sim 01", " a ", None, "7", "Exp.v1", "run-2.h5", "sim", 12])
NS = st.integers(20, 30)


def warm():
    g.warm_l63()


SUBS = [Sub("valid", simcase(["DW", "OU", "L63"], {"out": OUT, "extra": st.booleans(), "earlier": st.booleans(), "order": st.sampled_from([1, -1]),
                                                   "indent": st.sampled_from([None, 2])}, NS), check_valid, 40, 500, shards=3),
        Sub("invalid", simcase(["DW", "OU", "L63"], {"how": HOW, "earlier": st.booleans(), "seed0": st.sampled_from([False, False, True])}, NS), check_invalid, 200, 3000, shards=3),
        Sub("process", simcase(["DW", "OU"], {"how": PROC, "out": OUT, "seed0": st.just(False)}, NS), check_process, 12, 80, shards=3),
        Sub("finding", simcase(["DW"]), check_finding, 1, 1, tshards=1)]
