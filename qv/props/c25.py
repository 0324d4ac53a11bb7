"""C25: benchmark files."""
import contextlib
import io
import os
import random
import tempfile

import numpy as np
from hypothesis import strategies as st
from qiskit import QuantumCircuit
from qtcodes import RepetitionDecoder, RotatedDecoder, TopologicalAnalysis, TopologicalBatchAnalysis, TopologicalBenchmark

from qv import lib
from qv.core import Part, require

ID = "C25"
RULE = (
    "files: a history of appended points, sweeps and single measurements (saved or not), new benchmark objects and loads over "
    "1-4 distances/rounds in a scratch directory, against a model that keeps every point. batch: a directory of data files "
    "(written in any order, next to other files) read by a batch analysis. Non-trivial = a file with at least three points "
    "appended by two or more operations, or a batch of at least two files."
)
ASSUMPTIONS = ["the scratch directory's file system stores files; equal physical rates have no defined order, so ties are compared as sets"]

FLOATS = st.one_of(
    st.floats(0, 1, allow_nan=False, width=64),
    st.sampled_from([0.0, 0.04, 0.1, 0.1, 0.25, 0.5, 1.0, 1e-12]),
)


class Stub:
    """Stands for a decoder: the benchmark only needs its parameters and its verdicts."""

    def __init__(self, params):
        self.params = params

    def correct_readout(self, readout, kind, err_prob=None):
        return int(readout[0])


def coin_noise(rate):
    return None


def _specs():
    return [{"code": "XXZZ", "d": [h, w]} for h, w in ((3, 3), (5, 5), (3, 5), (5, 3), (7, 3), (11, 3), (1, 3))] + [
        {"code": "Repetition", "d": [h, w]} for h, w in ((3, 1), (1, 3), (9, 1), (13, 1))]


@st.composite
def cases(draw, tier):
    n = draw(st.integers(1, 4))
    benches = [dict(draw(st.sampled_from(_specs())), T=draw(st.sampled_from([1, 2, 10])), scalar=draw(st.booleans()),
                    box=draw(st.sampled_from(["tuple", "tuple", "list", "numpy", "float"]))) for _ in range(n)]
    for b in benches:  # the user may choose the file (then each benchmark its own)
        b["file"] = draw(st.sampled_from([None, None, None, "run", "points.npz", "a.b", "sub/points.npz", "d_(3, 3)_T_1", "data.npy"]))
    i = st.integers(0, n - 1)
    op = st.one_of(
        st.tuples(st.just("append"), i, FLOATS, FLOATS),
        st.tuples(st.just("append"), i, FLOATS, FLOATS),
        st.tuples(st.just("append"), i, FLOATS, FLOATS),
        st.tuples(st.just("append"), i, FLOATS, FLOATS),
        st.tuples(st.just("fresh"), i),
        st.tuples(st.just("load"), i),
        st.tuples(st.just("load"), i),
        st.tuples(st.just("sweep"), i, st.lists(st.sampled_from([0.05, 0.1, 0.2, 0.3]), min_size=1, max_size=3), st.booleans()),
        st.tuples(st.just("single"), i, st.sampled_from([0.05, 0.1, 0.2]), st.booleans()),
    ).map(list)
    if draw(st.integers(0, 4)) == 0:  # a long campaign
        op = st.one_of(op, st.tuples(st.just("many"), i, st.sampled_from([20, 40, 70]), st.integers(0, 999)).map(list))
    k = draw(st.sampled_from([4, 10, 20]))
    return {"benches": benches, "ops": draw(st.lists(op, min_size=k // 2, max_size=k))}


def make_bench(s):
    p = lib.params_of(s)
    p["T"] = s["T"]
    if isinstance(p["d"], tuple):  # however the distance is written, it is the same one
        box = s["box"] if s["code"] != "Repetition" or s["box"] != "list" else "tuple"
        p["d"] = {"tuple": tuple, "list": list, "numpy": lambda d: tuple(np.int64(x) for x in d), "float": lambda d: tuple(map(float, d))}[box](p["d"])
    dec = RepetitionDecoder(p) if s["code"] == "Repetition" else RotatedDecoder(p)
    circ = QuantumCircuit(1, 1)
    circ.h(0)
    circ.measure(0, 0)
    b = TopologicalBenchmark(Stub(dec.params), circ, coin_noise)
    return b


def same_points(data, points, what):
    p, l = [float(x) for x in data["physical_error_rates"]], [float(x) for x in data["logical_error_rates"]]
    require(len(p) == len(l), "%s: %d physical and %d logical rates", what, len(p), len(l))
    require(p == sorted(p), "%s: physical rates are not in increasing order: %s", what, p)
    require(sorted(zip(p, l)) == sorted(points), "%s: holds %s, appended were %s", what, sorted(zip(p, l)), sorted(points))


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="qv-c25-") as tmp:
        os.chdir(tmp)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                yield tmp
        finally:
            os.chdir(old)


def load(filename):
    a = TopologicalAnalysis(filename)
    a.load_data()
    return a


def check_loaded(a, dims, T, points, what):
    require(tuple(int(x) for x in a.params["d"]) == dims and len(a.params["d"]) == 2, "%s: distance %s, expected %s", what, a.params["d"], dims)
    require(int(a.params["T"]) == T, "%s: %s rounds, expected %s", what, a.params["T"], T)
    same_points(a.data, points, what)


def check(case):
    model, writes, names, held = {}, {}, {}, {}
    with scratch() as tmp:
        os.mkdir("sub")

        def build(j):
            s = case["benches"][j]
            b = make_bench(s)
            if s.get("file"):
                head, _, tail = s["file"].rpartition("/")
                b.filename = os.path.join(head, "%d-%s" % (j, tail))
            return b

        def listing():
            return sorted(os.path.normpath(os.path.join(r, f)) for r, _, fs in os.walk(".") for f in fs)

        benches = [build(j) for j in range(len(case["benches"]))]
        keys = [(lib.dims(s), s["T"], benches[j].filename if s.get("file") else None) for j, s in enumerate(case["benches"])]
        for k, b in zip(keys, benches):
            require(names.setdefault(k, b.filename) == b.filename, "two file names for the same distance and rounds")
        require(len(set(names.values())) == len(names), "one file name for different distances or rounds: %s", names)
        for step, op in enumerate(case["ops"]):
            i = op[1]
            k, b = keys[i], benches[i]
            what = "step %d %s" % (step, op)
            before = {f: os.stat(f).st_mtime_ns for f in listing()}
            content = {f: open(f, "rb").read() for f in before}
            added = []
            if op[0] == "append":
                b.append_data(op[2], op[3])
                added = [(op[2], op[3])]
            elif op[0] == "many":
                rnd = random.Random(op[3])
                for _ in range(op[2]):
                    added.append((rnd.choice([0.0, 0.1, 0.5, rnd.random()]), rnd.random()))
                    b.append_data(*added[-1])
            elif op[0] == "fresh":
                benches[i] = build(i)
            elif op[0] == "sweep":
                b.sweep(list(op[2]), save_data=op[3], shots=7)
                if op[3]:
                    added = [(float(x), float(y)) for x, y in zip(b.data["physical_error_rates"], b.data["logical_error_rates"])]
                    require(len(added) == len(op[2]), "%s: %d points", what, len(added))
            elif op[0] == "single":
                r = b.single(op[2], save_data=op[3], shots=7)
                if op[3]:
                    added = [(op[2], float(r))]
            elif op[0] == "load":
                if k in model:
                    check_loaded(load(b.filename), k[0], k[1], model[k], what)
                    if k in held:  # an analysis that is open since an earlier time
                        a, was = held[k]
                        check_loaded(a, k[0], k[1], was, "%s: analysis loaded earlier" % what)
                        a.load_data()
                        check_loaded(a, k[0], k[1], model[k], "%s: analysis loaded again" % what)
                    else:
                        a = load(b.filename)
                    held[k] = a, list(model[k])
            if added:
                model.setdefault(k, []).extend(added)
                writes[k] = writes.get(k, 0) + 1
            for f in set(before) | set(listing()):
                if not (added and f == names[k]):
                    require(f in before and os.path.exists(f) and open(f, "rb").read() == content[f],
                            "%s: touched the file %s", what, f)
        require(set(listing()) == {names[k] for k in model}, "files %s, expected %s", listing(), sorted(names[k] for k in model))
        for k, (a, was) in held.items():
            check_loaded(a, k[0], k[1], was, "finally, analysis loaded earlier")
        for k, pts in model.items():
            check_loaded(load(os.path.join(tmp, names[k])), k[0], k[1], pts, "finally %s" % names[k])
    return any(len(v) >= 3 and writes[k] >= 2 for k, v in model.items()), ["files=%d" % len(model)] + (["chosen file"] if any(k[2] for k in model) else []) + sorted({o[0] for o in case["ops"]})


@st.composite
def batch_cases(draw, tier):
    lo = draw(st.sampled_from([1, 1, 3, 3, 9, 18]))
    files = draw(st.lists(st.tuples(st.sampled_from([1, 3, 5, 7, 9, 11, 13, 21]), st.sampled_from([1, 3, 5, 7]), st.sampled_from([1, 2, 7]),
                                    st.lists(st.tuples(FLOATS, FLOATS).map(list), min_size=1, max_size=4)).map(list),
                          min_size=lo, max_size=max(8, lo + 4), unique_by=lambda t: (t[0], t[1], t[2])).filter(
        lambda l: all((a, b) != (1, 1) for a, b, _, _ in l)))
    return {"files": files, "junk": draw(st.booleans()), "relative": draw(st.sampled_from([False, True, "here"])), "sub": draw(st.sampled_from(["data", "runs 2021", "a.b", "d=[3, 5]", "sweep*"])),
            "rename": draw(st.booleans()), "salt": draw(st.integers(0, 1000))}


def check_batch(case):
    with scratch() as tmp:
        d = os.path.join(tmp, case["sub"])
        os.mkdir(d)
        os.chdir(d)
        want = {}
        rnd = random.Random(case["salt"])
        for j, (h, w, T, pts) in enumerate(case["files"]):
            b = TopologicalBenchmark(Stub({"d": (h, w), "T": T}), QuantumCircuit(1, 1), coin_noise)
            for x, y in pts:
                b.append_data(x, y)
            require(os.path.exists(b.filename), "appending did not write %s", b.filename)
            name = b.filename
            if case["rename"]:  # the user may rename files: what counts is their content
                name = "%03d-%d.npz" % (rnd.randrange(1000), j)
                os.rename(b.filename, name)
            want[(h, w), T] = [tuple(p) for p in pts]
        if case["junk"]:
            open("comparison.png", "w").close()
            open("notes.txt", "w").close()
            os.mkdir("old")
            open(os.path.join(tmp, "elsewhere.npz"), "w").close()
        if case["relative"] == "here":
            a = TopologicalBatchAnalysis("")
        else:
            os.chdir(tmp)
            a = TopologicalBatchAnalysis((case["sub"] if case["relative"] else d) + "/")
        got = [(tuple(int(x) for x in x.params["d"]), int(x.params["T"])) for x in a.analyses]
        require(sorted(got) == sorted(want), "batch analysis holds %s, files are %s", got, sorted(want))
        hs = [g[0][0] for g in got]
        require(hs == sorted(hs), "analyses are not ordered by distance: %s", got)
        for k, x in zip(got, a.analyses):
            check_loaded(x, k[0], k[1], want[k], "batch %s" % (k,))
    return len(want) >= 2, ["files=%d" % min(len(want), 5), "renamed" if case["rename"] else "as saved"]


PARTS = [
    Part("files", lambda tier: cases(tier), check, 1000, 10000),
    Part("batch", lambda tier: batch_cases(tier), check_batch, 600, 6000),
]
