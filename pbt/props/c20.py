import contextlib
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from src.var_bayes.simulation import Simulation, load
from pbt import gen as g
from pbt.core import Sub, expect, require, sut

PROPERTY = "C20"
TITLE = "What is saved is what is loaded"
RULE = ("A case is a history of saves in a scratch directory: names (with spaces around and inside, dots, unicode, none), "
        "dictionaries of arrays (0 to 4 dimensions, floats with NaN, infinities and -0.0, float32, integers, other types, no entries) and "
        "numbers, perhaps empty, the same name again with other fields. load() gives exactly the fields of the last save, bit "
        "for bit (numbers become arrays of one entry), in the one file <name>.h5 with underscores for spaces; an empty output "
        "writes nothing and keeps an earlier file. Non-trivial: at least one array with two entries, or a second save.")
ASSUMPTIONS = ["names and keys hold no slash", "loaded arrays are compared by value and bits in the type that was saved"]


@contextlib.contextmanager
def scratch():
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="vgpa-c20-")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def value(kind, h, shape):
    a = g.dec(h, shape, 10.0)
    if kind == "special":
        a = a.ravel().copy()
        a[:: 3] = np.resize([np.nan, np.inf, -0.0, -np.inf, 1e-310, 1.7e308], a[:: 3].size)
        return a.reshape(shape)
    if kind == "float32":
        return a.astype(np.float32)
    if kind == "int":
        return (a * 1e6).astype(np.int64)
    if kind == "mixed":     # other types, among them arrays without entries
        t = ["int32", "uint8", "uint64", "int8", "bool", "float16", "complex128", ">f8", "empty", "empties"][int(h[:2], 16) % 10]
        if t.startswith("empt"):
            return np.zeros(0) if t == "empty" else np.zeros(tuple(shape) + (0,))
        return (a * 12.0).astype(t) if t in ("int32", "int8", ">f8", "float16") else np.abs(a * 12.0).astype(t)
    if kind == "number":
        return float(a.ravel()[0])
    if kind == "whole":
        return int(a.ravel()[0])
    if kind == "0-d":
        return np.array(a.ravel()[0])
    if kind == "numpy":
        return np.float64(a.ravel()[0])
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "big":
        return np.sin(np.arange(int(np.prod(shape)) * 1000.0)).reshape(shape[0] * 50, -1)
    if kind == "long":
        return np.cos(np.arange(int(np.prod(shape)) * 500 + 1.0))
    if kind == "strided":
        return g.layout("strided", a)
    return a


def expected_file(name):
    return (str(name) if name else "ID_None").strip().replace(" ", "_") + ".h5"


def same(a, b, what):
    """`a` was stored, `b` was loaded."""
    a = np.atleast_1d(np.asarray(a))
    require(b.shape == a.shape, f"{what}: shape {a.shape} was saved, {b.shape} loaded")
    require(b.dtype == a.dtype, f"{what}: {a.dtype} was saved, {b.dtype} loaded")
    c = b
    ok = np.array_equal(a, c, equal_nan=a.dtype.kind == "f")
    if ok and a.dtype.kind == "f":
        ok = np.array_equal(np.signbit(a), np.signbit(c))
    require(ok, lambda: f"{what}: {a.ravel()[:5]} was saved, {c.ravel()[:5]} loaded")
    if a.dtype.kind == "f":
        require(all(isinstance(v, (float, np.floating)) for v in b.ravel()[:3]), f"{what}: loaded {[type(v) for v in b.ravel()[:3]]}")


def check(c, ctx):
    with scratch() as d:
        disk = {}
        for k, (name, fields) in enumerate(c["saves"]):
            out = {key: value(kind, h, tuple(sh)) for key, (kind, h, sh) in fields.items()}
            if k == 0 and c["fill"]:
                out.update({f"k{j}": np.full(j % 3 + 1, 0.1 * j) for j in range(c["fill"])})
            if k and c["again"]:        # as before, but for one small difference
                name = c["saves"][0][0]
                out = {q: np.array(v, copy=True) for q, v in first.items()}
                for q, v in out.items():
                    if v.dtype.kind == "f" and v.ndim and v.size:
                        v.flat[-1] *= 1.0 + c["again"] * k
                        break
            first = out if k == 0 else first
            keep = {key: np.array(v, copy=True) for key, v in out.items()}
            with sut(f"save of {name!r}"), g.quiet() as txt:
                s = Simulation(name)
                s.output.update(out)
                s.save()
            for key, v in out.items():
                require(np.array_equal(np.asarray(v), keep[key], equal_nan=keep[key].dtype.kind == "f"), f"save modified {key}")
            f = expected_file(name)
            if out:
                disk[f] = keep
            else:
                require(txt.getvalue().strip(), "nothing is said about an empty output")
            have = set(os.listdir(d))
            require(have == set(disk), lambda: f"files {sorted(have)}, expected {sorted(disk)}, after {name!r}")
            for f, want in disk.items():
                with sut(f"load({f!r})"):
                    got = load(f if c["rel"] else os.path.join(d, f))
                require(isinstance(got, dict) and set(got) == set(want), lambda: f"{f}: {sorted(want)} was saved, {sorted(got)} loaded")
                for key in want:
                    same(want[key], got[key], f"{f}: {key}")
            ctx.label("empty" if not out else "", *(kind for kind, _, _ in fields.values()))
        expect(RuntimeError, "load without a file", load)
        expect(OSError, "load of a file that is not there", load, "not-there.h5")
        require(set(os.listdir(d)) == set(disk), "load created a file")
        ctx.label(f"saves{len(c['saves'])}", "overwrite" if len(disk) < sum(bool(f) for _, f in c["saves"]) else "")
        ctx.hit(len(c["saves"]) > 1 or any(v.size > 1 for k in disk.values() for v in k.values()))


def check_run(c, ctx):
    """The output of a real simulation."""
    from pbt.props.c19 import params, simulate
    with scratch():
        P = params(c)
        s = simulate(P)
        s.name = c["out"]
        want = {k: np.array(v, float) for k, v in s.output.items()}
        with sut("save"), g.quiet():
            s.save()
        with sut("load"):
            got = load(expected_file(c["out"]))
        require(set(got) == set(want), f"fields {sorted(got)}, not {sorted(want)}")
        for k, v in want.items():
            same(v, got[k], k)
        with sut("save, again"), g.quiet():
            s.save()
        with sut("load"):
            got = load(expected_file(c["out"]))
        for k, v in want.items():
            same(v, got[k], f"second save: {k}")
        ctx.label(c["kind"])
        ctx.hit()


CH = "abcXYZ019._-é "
NAME = st.one_of(st.text(CH, min_size=1, max_size=10).filter(lambda s: s.strip(" ").strip(".") != ""),
                 st.sampled_from([None, "", "Sim 01", " Sim_DW ", "a b  c", 7, "a", "a.h5", "a.H5", "Sim 01.h5", "b.hdf5", "b.h5.h5", "b.json", "b"]))
VAL = st.tuples(st.sampled_from(["float", "float", "special", "float32", "int", "mixed", "number", "whole", "0-d", "numpy",
                                 "fortran", "strided", "big", "long"]),
                g.hexs(40), st.lists(st.integers(1, 6), min_size=1, max_size=4))
KEY = st.one_of(st.sampled_from(["at", "bt", "fx", "m0", "s0", "mt", "st"]), st.sampled_from(["At", "AT", "a", "A", "a0", "A0", "Fx"]), st.text("abcdefXYZ_0 é", min_size=1, max_size=6))
SAVE = st.tuples(NAME, st.dictionaries(KEY, VAL, min_size=0, max_size=5))


def runs():
    from pbt.props.c19 import case
    return case(["DW", "OU", "L63"], {"out": st.sampled_from(["Sim", "My Simulation", " a b "])}, st.integers(20, 30))


def warm():
    g.warm_l63()


SUBS = [Sub("history", st.fixed_dictionaries({"saves": st.lists(SAVE, min_size=1, max_size=5), "rel": st.booleans(), "fill": st.sampled_from([0] * 15 + [70]), "again": st.sampled_from([0, 0, 0, 1e-9, 1e-6])}), check,
            300, 5000, shards=4),
        Sub("run", runs(), check_run, 24, 300, shards=3)]
