"""C31: interrupted saves lose nothing."""
import contextlib
import io
import os
import random
import resource
import shutil
import signal
import sys

from hypothesis import strategies as st
from qtcodes import TopologicalAnalysis, TopologicalBatchAnalysis

from qv import lib
from qv.core import Part, require
from qv.props import c25

ID = "C31"
RULE = (
    "A history of appended points and sweeps in a scratch directory, in which any save may be cut short: the process is killed "
    "at a chosen Python line of the save (in a forked child), the disk takes no more than a chosen number of bytes of a file "
    "(RLIMIT_FSIZE, in a forked child), or a KeyboardInterrupt arrives at a chosen line (same process, which goes on); sweeps are "
    "interrupted before a chosen rate. After every step the file is loaded directly and by a batch analysis. Non-trivial = a save cut short of "
    "a file that already held points, followed by a further complete save."
)
ASSUMPTIONS = [
    "an interrupted save may or may not have stored its own point; what is asserted is that every earlier point is still there",
    "crash points are process deaths between Python lines and writes cut short; loss of power (unflushed pages) is not modelled",
]

FAULT = st.one_of(
    st.none(), st.none(),
    st.tuples(st.sampled_from(["kill", "limit", "interrupt"]), st.integers(0, 1000)).map(list),
    st.tuples(st.sampled_from(["kill", "limit", "interrupt"]), st.integers(0, 1000)).map(list),
)


@st.composite
def cases(draw, tier):
    n = draw(st.integers(1, 2))
    benches = [dict(draw(st.sampled_from(c25._specs())), T=draw(st.sampled_from([1, 2, 10])), scalar=draw(st.booleans()), box="tuple") for _ in range(n)]
    i = st.integers(0, n - 1)
    append = st.tuples(st.just("append"), i, c25.FLOATS, c25.FLOATS, FAULT)
    op = st.one_of(
        append, append, append,
        st.tuples(st.just("fresh"), i),
        st.tuples(st.just("many"), i, st.sampled_from([3, 12, 30]), st.integers(0, 999)),
        st.tuples(st.just("sweep"), i, st.lists(st.sampled_from([0.05, 0.1, 0.2, 0.3]), min_size=1, max_size=4, unique=True), st.integers(0, 4)),
    ).map(list)
    k = draw(st.sampled_from([4, 8, 14]))
    return {"benches": benches, "ops": draw(st.lists(op, min_size=k // 2, max_size=k))}


class Interrupted(Exception):
    pass


def at_line(n, action):
    """A trace function that calls action at the n-th Python line from now (n counts from 0); counts in its first element."""
    count = [0]

    def trace(frame, event, arg):
        if event == "line":
            if count[0] == n:
                count[0] += 1
                sys.settrace(None)
                action()
            count[0] += 1
        return trace

    return trace, count


def die():
    os.kill(os.getpid(), signal.SIGKILL)


def interrupt():
    raise KeyboardInterrupt("injected")


def measure(b, x, y):
    """Python lines and file size of this save when nothing goes wrong (done in a child, on a copy of the directory)."""

    def f():
        here = os.getcwd()
        copy = here + "-copy"
        shutil.copytree(here, copy)
        os.chdir(copy)
        trace, count = at_line(-1, die)
        sys.settrace(trace)
        try:
            b.append_data(x, y)
        finally:
            sys.settrace(None)
        return count[0], max(os.path.getsize(p) for p in os.listdir("."))

    here = os.getcwd()
    code, out = lib.child(f)
    shutil.rmtree(here + "-copy", ignore_errors=True)
    require(code == 0, "appending a point fails")
    return tuple(int(v) for v in out.strip("()").split(","))


def faulty_append(b, x, y, fault):
    """-> whether the save was really cut short."""
    kind, frac = fault
    lines, size = measure(b, x, y)
    if kind == "kill":
        def f():
            trace, _ = at_line(frac * lines // 1000, die)
            sys.settrace(trace)
            b.append_data(x, y)
            sys.settrace(None)
        code, _ = lib.child(f)
        require(code in (0, -signal.SIGKILL), "saving raises in a child process (%s)", code)
        return code != 0
    if kind == "limit":
        def f():
            limit = frac * (size + 1) // 1000
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            b.append_data(x, y)
        code, _ = lib.child(f)
        return code != 0
    trace, count = at_line(frac * lines // 1000, interrupt)
    old = sys.gettrace()
    try:
        sys.settrace(trace)
        try:
            b.append_data(x, y)
        finally:
            sys.settrace(old)
    except BaseException:  # zipfile may raise another error while it handles the interrupt
        if count[0] <= frac * lines // 1000:
            raise  # the interrupt has not come yet
        return True
    return False


def read(filename, k, definite, maybe, what):
    """Loads the file: all definite points, and possibly some of the others. -> the points it holds."""
    if not os.path.exists(filename):
        require(not definite, "%s: the file with %d points is gone", what, len(definite))
        return []
    a = TopologicalAnalysis(filename)
    try:
        a.load_data()
    except Exception as e:
        require(False, "%s: the file that held %d points cannot be loaded any more (%s)", what, len(definite), type(e).__name__)
    p = [float(v) for v in a.data["physical_error_rates"]]
    l = [float(v) for v in a.data["logical_error_rates"]]
    require(len(p) == len(l) and p == sorted(p), "%s: physical rates %s, logical rates %s", what, p, l)
    got = list(zip(p, l))
    rest = list(got)
    for pt in definite:
        require(pt in rest, "%s: the earlier point %s is lost; the file holds %s", what, pt, got)
        rest.remove(pt)
    may = list(maybe)
    for pt in rest:
        require(pt in may, "%s: the file holds %s, which was never measured", what, pt)
        may.remove(pt)
    require(tuple(int(v) for v in a.params["d"]) == k[0] and int(a.params["T"]) == k[1], "%s: loaded as d=%s, T=%s", what, a.params["d"], a.params["T"])
    return got


def check(case):
    model, nontrivial, hit, kinds = {}, False, set(), set()
    with c25.scratch() as tmp:
        os.mkdir("work")
        os.chdir("work")
        benches = [c25.make_bench(s) for s in case["benches"]]
        keys = [(lib.dims(s), s["T"]) for s in case["benches"]]
        for step, op in enumerate(case["ops"]):
            i, what = op[1], "step %d %s" % (step, op)
            k, b = keys[i], benches[i]
            sure, maybe = list(model.get(k, [])), []
            if op[0] == "append":
                pt = (op[2], op[3])
                if op[4] is not None:
                    cut = faulty_append(b, op[2], op[3], op[4])
                    if cut:
                        kinds.add(op[4][0])
                        maybe.append(pt)
                        if sure:
                            hit.add(k)
                    elif op[4][0] == "interrupt":
                        maybe.append(pt)  # arrived where Python ignores it (a destructor)
                    else:
                        sure.append(pt)
                else:
                    b.append_data(*pt)
                    sure.append(pt)
                    nontrivial = nontrivial or k in hit
            elif op[0] == "many":
                rnd = random.Random(op[3])
                for _ in range(op[2]):
                    sure.append((rnd.choice([0.1, rnd.random()]), rnd.random()))
                    b.append_data(*sure[-1])
                nontrivial = nontrivial or k in hit
            elif op[0] == "fresh":
                benches[i] = c25.make_bench(case["benches"][i])
            elif op[0] == "sweep":
                calls = [0]

                def noise(rate):
                    calls[0] += 1
                    if calls[0] > op[3]:
                        raise Interrupted()

                b.noise_model_func = noise
                try:
                    b.sweep(list(op[2]), save_data=True, shots=7)
                except Interrupted:
                    kinds.add("sweep")
                done = list(zip([float(v) for v in b.data["physical_error_rates"]], [float(v) for v in b.data["logical_error_rates"]]))
                if len(done) == len(op[2]) and op[3] >= len(op[2]):
                    sure += done
                    nontrivial = nontrivial or k in hit
                else:
                    maybe += done
            for kk in set(keys):
                s, m = (sure, maybe) if kk == k else (model.get(kk, []), [])
                got = read(benches[keys.index(kk)].filename, kk, s, m, what)
                if got:
                    model[kk] = got
            if model:
                try:
                    batch = TopologicalBatchAnalysis(os.getcwd() + "/")
                except Exception as e:
                    require(False, "%s: the batch analysis of the directory %s fails (%s)", what, sorted(os.listdir(".")), type(e).__name__)
                all_ = sorted((tuple(map(int, a.params["d"])), int(a.params["T"]), len(a.data["physical_error_rates"])) for a in batch.analyses)
                require(all_ == sorted((d, T, len(v)) for (d, T), v in model.items()), "%s: batch analysis of %s holds %s", what, sorted(os.listdir(".")), all_)
    return nontrivial, sorted(kinds)


PARTS = [Part("interrupted", lambda tier: cases(tier), check, 1000, 12000)]
