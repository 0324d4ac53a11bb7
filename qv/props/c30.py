"""C30: plots show exactly the recorded points."""
import contextlib
import io
import os
import tempfile

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from qiskit import QuantumCircuit
from qtcodes import TopologicalAnalysis, TopologicalBatchAnalysis, TopologicalBenchmark

from qv.core import Part, require
from qv.props.c25 import Stub, coin_noise

ID = "C30"
RULE = (
    "single: 1-3 analyses with generated points are plotted one to five times in total, on no, the current, another open or a shared axes, or a given "
    "figure, with generated options; every line of every open axes is compared with the points. batch: a directory of "
    "generated data files plotted twice (log and linear); figures and files are inspected. Non-trivial = at least two curves."
)
ASSUMPTIONS = ["matplotlib draws the line objects its axes hold"]

RATES = st.one_of(st.floats(1e-6, 1, allow_nan=False), st.sampled_from([0.01, 0.04, 0.1, 0.1, 0.5]))
PT = st.tuples(RATES, RATES).map(list)
POINTS = st.one_of(*[st.lists(PT, min_size=1, max_size=5)] * 5, st.lists(PT, min_size=15, max_size=40))


@st.composite
def cases(draw, tier):
    lo = draw(st.sampled_from([1] * 7 + [20]))
    pool = draw(st.lists(
        st.fixed_dictionaries({
            "d": st.tuples(st.sampled_from([1, 3, 5, 11]), st.sampled_from([3, 5, 7])).map(list), "T": st.sampled_from([1, 2, 3, 10]), "points": POINTS,
            "file": st.booleans(), "array": st.booleans()}), min_size=1, max_size=3))
    plots = draw(st.lists(
        st.fixed_dictionaries({
            "of": st.integers(0, len(pool) - 1),
            "log": st.sampled_from([None, True, False]), "per_round": st.sampled_from([None, True, False]),
            "label": st.sampled_from([None, "mine", "d=3"]),
            "where": st.sampled_from(["nowhere", "figure", "inset", "axes 0", "axes 0", "axes 1", "axes 1", "both 0", "both 1"]),
        }), min_size=lo, max_size=max(5, lo + 3)))
    return {"pool": pool, "plots": plots, "current": draw(st.integers(0, 1))}


def lines_of(ax):
    return [(list(map(float, l.get_xdata())), list(map(float, l.get_ydata())), l.get_label()) for l in ax.lines]


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-12 * max(1.0, abs(y)) for x, y in zip(a, b))


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    plt.close("all")
    with tempfile.TemporaryDirectory(prefix="qv-c30-") as tmp:
        os.chdir(tmp)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                yield tmp
        finally:
            os.chdir(old)
            plt.close("all")


def write(d, T, points):
    b = TopologicalBenchmark(Stub({"d": tuple(d), "T": T}), QuantumCircuit(1, 1), coin_noise)
    for x, y in points:
        b.append_data(x, y)
    return b.filename


def check(case):
    with scratch():
        figs = [plt.figure() for _ in range(2)]
        axes = [f.subplots() for f in figs]
        want = {0: [], 1: []}
        scale = {0: "linear", 1: "linear"}
        made = []
        for p in case["pool"]:
            pts = [tuple(x) for x in p["points"]]
            if p["file"]:
                a = TopologicalAnalysis(write(p["d"], p["T"], pts))
                a.load_data()
                os.remove(a.filename)
                pts = list(zip(a.data["physical_error_rates"], a.data["logical_error_rates"]))
            else:
                a = TopologicalAnalysis()
                a.params = {"d": tuple(p["d"]), "T": p["T"]}
                mk = np.array if p["array"] else list
                a.data = {"physical_error_rates": mk([x for x, _ in pts]), "logical_error_rates": mk([y for _, y in pts])}
            made.append((a, p, [(float(x), float(y)) for x, y in pts]))
        for k, q in enumerate(case["plots"]):
            a, p, pts = made[q["of"]]
            p = dict(p, **q)
            kw = {x: p[x] for x in ("log", "per_round", "label") if p[x] is not None}
            plt.figure(figs[case["current"]].number)  # where pyplot would draw
            plt.sca(axes[case["current"]])
            n0 = set(plt.get_fignums())
            where, own = p["where"].split()[0], None
            if where in ("figure", "inset"):
                own = plt.figure()
                mine = []
                if where == "inset":  # a figure with axes of the user's own
                    mine = [own.add_axes([0.1 + 0.2 * j, 0.6, 0.15, 0.3]) for j in range(1 + k % 3)]
                    for j, ax in enumerate(mine):
                        ax.plot([1.0, 2.0 + j], [3.0, 4.0 + k], label="inset")
                plt.figure(figs[case["current"]].number)
                n0.add(own.number)
                a.plot(fig=own, **kw)
                require(own.axes[:-1] == mine, "plot %d: the given figure had %d axes, now it has %s", k, len(mine), own.axes)
                for j, ax in enumerate(mine):
                    check_axes(ax, [([1.0, 2.0 + j], [3.0, 4.0 + k], "inset")], "linear", "plot %d: axes %d that the given figure already had" % (k, j))
                target = own.axes[-1]
            elif where == "nowhere":
                a.plot(**kw)
                new = set(plt.get_fignums()) - n0
                require(len(new) == 1, "plot %d without figure or axes made %d figures", k, len(new))
                own = plt.figure(new.pop())
                target = own.axes[0]
                n0.add(own.number)
            else:
                i = int(p["where"].split()[1])
                target = axes[i]
                if where == "both":
                    a.plot(fig=figs[i], ax=target, **kw)
                else:
                    a.plot(ax=target, **kw)
            require(set(plt.get_fignums()) == n0, "plot %d made another figure", k)
            line = ([float(x) for x, _ in pts], [float(y) / (p["T"] if p["per_round"] else 1) for _, y in pts], p["label"])
            log = p["log"] is not False
            if own is not None:
                check_axes(target, [line], "log" if log else "linear", "plot %d (%s)" % (k, p["where"]))
                plt.close(own)
            else:
                want[i].append(line)
                if log:
                    scale[i] = "log"
            for b, bp, bpts in made:
                now = list(zip(map(float, b.data["physical_error_rates"]), map(float, b.data["logical_error_rates"])))
                require(now == bpts and b.params["T"] == bp["T"] and tuple(b.params["d"]) == tuple(bp["d"]), "plot %d changed the recorded data to %s, %s", k, now, b.params)
            for j in (0, 1):
                require(figs[j].axes == [axes[j]], "plot %d changed the axes of figure %d", k, j)
                check_axes(axes[j], want[j], scale[j], "plot %d (%s): figure %d" % (k, p["where"], j))
    return len(case["plots"]) >= 2, sorted({p["where"].split()[0] for p in case["plots"]})


def check_axes(ax, want, scale, what):
    got = lines_of(ax)
    require(len(got) == len(want), "%s holds %d curves, expected %d", what, len(got), len(want))
    for (x, y, l), (wx, wy, wl) in zip(got, want):
        require(same(x, wx) and same(y, wy), "%s: curve %s, recorded points are %s", what, list(zip(x, y)), list(zip(wx, wy)))
        require(wl is None or l == wl, "%s: label %r, given %r", what, l, wl)
    if want or scale == "linear":
        require(ax.get_xscale() == scale and ax.get_yscale() == scale, "%s has scales %s and %s, expected %s", what, ax.get_xscale(), ax.get_yscale(), scale)


@st.composite
def batch_cases(draw, tier):
    lo = draw(st.sampled_from([1, 1, 1, 10, 27]))
    return {"files": draw(st.lists(st.tuples(st.sampled_from([1, 3, 5, 7, 11]), st.sampled_from([3, 5, 7]), st.sampled_from([1, 2, 7]), POINTS).map(list),
                                   min_size=lo, max_size=max(5, lo + 2), unique_by=lambda t: (t[0], t[1], t[2]))),
            "relative": draw(st.booleans()), "open": draw(st.booleans())}


def check_batch(case):
    with scratch() as tmp:
        d = os.path.join(tmp, "runs")
        os.mkdir(d)
        os.chdir(d)
        for h, w, T, pts in case["files"]:
            write((h, w), T, pts)
        os.chdir(tmp)
        a = TopologicalBatchAnalysis("runs/" if case["relative"] else d + "/")
        if case["open"]:
            mine = plt.figure()
            mine_ax = mine.subplots()
        n0 = set(plt.get_fignums())
        a.plot()
        require(sorted(f for f in os.listdir(d) if not f.endswith(".npz")) == ["comparison.png", "comparison_log.png"],
                "files written: %s", sorted(os.listdir(d)))
        require(os.listdir(tmp) == ["runs"], "files written elsewhere: %s", os.listdir(tmp))
        for f in ("comparison.png", "comparison_log.png"):
            img = plt.imread(os.path.join(d, f))
            require(img.ndim == 3 and img[..., :3].min() < img[..., :3].max(), "%s is blank", f)
        if case["open"]:
            require(not mine_ax.lines and mine.axes == [mine_ax], "the user's own figure was drawn on")
        new = sorted(set(plt.get_fignums()) - n0)
        seen = []
        for k in new:
            fig = plt.figure(k)
            require(len(fig.axes) == 1, "%d axes on a comparison", len(fig.axes))
            ax = fig.axes[0]
            seen.append(ax.get_xscale())
            require("physical" in ax.get_xlabel().lower() and "logical" in ax.get_ylabel().lower(), "the axes of a comparison are named %r and %r", ax.get_xlabel(), ax.get_ylabel())
            got = lines_of(ax)
            require(len(got) == len(case["files"]) + 1, "%d curves for %d files", len(got), len(case["files"]))
            names = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
            for h, w, T, pts in case["files"]:
                label = "d=(%d, %d),T=%d" % (h, w, T)
                mine = [g for g in got if g[2] == label]
                require(len(mine) == 1, "%d curves are labelled %r; labels: %s", len(mine), label, [g[2] for g in got])
                x, y, _ = mine[0]
                require(x == sorted(x) and sorted(zip(x, y)) == sorted(tuple(map(float, p)) for p in pts), "curve %s holds %s, the file %s", label, list(zip(x, y)), pts)
                require(label in names, "%r is not in the legend", label)
            even = [g for g in got if g[2] == "breakeven"]
            require(len(even) == 1 and even[0][0] == even[0][1] and len(even[0][0]) > 0, "no break-even line")
        if new:  # a backend that shows figures may also close them
            require(sorted(seen) == ["linear", "log"], "comparisons have scales %s", seen)
    return len(case["files"]) >= 2, ["files=%d" % len(case["files"])]


PARTS = [
    Part("single", lambda tier: cases(tier), check, 400, 4000),
    Part("batch", lambda tier: batch_cases(tier), check_batch, 40, 400),
]
