"""C24: sweeps."""
import contextlib
import io
import itertools
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from qiskit_aer.noise import NoiseModel, pauli_error
from qtcodes import RepetitionDecoder, RotatedDecoder, TopologicalAnalysis, TopologicalBenchmark

from qv import lib, model
from qv.core import Part, require

ID = "C24"
RULE = (
    "Case = memory circuit of one of the three codes (distances 3 and 5), one or two successive sweeps (sequential, multi-process or point by point) over "
    "0-26 rates in any order, each with its own noise: none, a certain Pauli on chosen data qubits (the logical rate is then exactly 0 or 1), or "
    "one with some probability (the rate is a multiple of 1/shots, and is compared with the exactly enumerated one at a false-alarm "
    "probability below 1e-12). Non-trivial = at least two rates with different noise."
)
ASSUMPTIONS = ["Aer simulates Pauli noise on identities of a Clifford circuit correctly", "Bernstein's inequality at 1e-12 for the sampled rates"]

DEFAULT = [0.04, 0.07, 0.10, 0.13, 0.16]
L = math.log(2e12)


class Noise:
    """Noise model for a rate, from a table (picklable, as multi-process sweeps need)."""

    def __init__(self, table, letter):
        self.letter = letter
        self.table = dict(table)

    def __call__(self, rate):
        mask, p = self.table[rate]
        m = NoiseModel()
        if p > 0:
            letter = self.letter
            for k, q in enumerate(mask):
                if q is not None:
                    m.add_quantum_error(pauli_error([(letter, p), ("I", 1 - p)]) if p < 1 else pauli_error([(letter, 1.0)]), "id", [q])
        return m


SPECS = [{"code": "Repetition", "d": [3, 1], "scalar": True}] * 3 + [
    {"code": "Repetition", "d": [5, 1], "scalar": False},
    {"code": "XXZZ", "d": [3, 3], "scalar": True},
    {"code": "XXZZ", "d": [3, 5], "scalar": False},
    {"code": "XXZZ", "d": [5, 1], "scalar": False},
    {"code": "XZZX", "d": [3, 3], "scalar": True},
    {"code": "XZZX", "d": [5, 3], "scalar": False},
]


class Logged:
    """The real decoder, writing down what it is asked."""

    def correct_readout(self, *a, **k):
        if hasattr(self, "log"):
            self.log.append((a[0] if a else k.get("syndromes"), k.get("err_prob", a[3] if len(a) > 3 else None)))
        return super().correct_readout(*a, **k)


class LoggedRepetition(Logged, RepetitionDecoder):
    pass


class LoggedRotated(Logged, RotatedDecoder):
    pass


@st.composite
def cases(draw, tier, kind):
    spec = draw(st.sampled_from(SPECS))
    n = lib.ndata(spec)
    most = list(range(n)) if n <= 5 else sorted(draw(st.lists(st.integers(0, n - 1), min_size=4, max_size=6, unique=True)))
    sweeps = []
    for _ in range(draw(st.integers(1, 2) if kind == "mp" else st.sampled_from([1, 2, 2, 3]))):
        default = draw(st.integers(0, 5)) == 0
        lo = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 12, 12, 24]))
        extra = [k / 200 for k in range(1, 90)] if lo == 24 else []
        if spec["code"] == "Repetition" and draw(st.integers(0, 3)) == 0:
            extra = extra + [0.55, 0.65, 0.75, 0.85, 0.95]  # as the script that comes with the repetition code's data
        rates = list(DEFAULT) if default else draw(
            st.lists(st.sampled_from(extra + [0.0, 0.01, 0.02, 0.03, 0.05, 0.08, 0.12, 0.2, 0.201, 0.2015, 0.0101, 0.011, 1e-4, 1e-5, 0.25, 0.3, 0.35, 0.4, 0.45]), min_size=lo, max_size=max(6, lo + 2) if lo else 1, unique=draw(st.integers(0, 3)) > 0))
        noise = {}
        for r in sorted(set(rates)):
            how = draw(st.sampled_from(["none", "all", "some", "some", "half", "rate", "rate"]))
            noise[str(r)] = {
                "none": [[], 0], "all": [list(range(n)), 1.0], "half": [most, 0.5], "rate": [most, r],
                "some": [sorted(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))), 1.0],
            }[how]
        how = draw(st.sampled_from(["mp", "mp", "sweep", "single"])) if kind == "mp" else draw(st.sampled_from([kind, "sweep", "single"]))
        sweeps.append({"kind": how, "rates": rates, "default": default, "noise": noise, "shots": 101 if lo == 24 else draw(st.sampled_from([101, 499, 997, 3001, None])),
                       "save": draw(st.sampled_from([False, False, True, "default"]))})
    sweeps[-1]["kind"] = kind  # after any other simulation in this process
    return {"kind": kind, "spec": spec, "letter": draw(st.sampled_from(["X", "X", "X", "Y", "Z"])), "sweeps": sweeps, "expect": draw(st.integers(0, 1)), "final": draw(st.sampled_from(["readout", "lattice"])),
            "deg": draw(st.sampled_from([True, True, False])), "as": draw(st.sampled_from(["list", "list", "tuple", "array"]))}


def check(case):
    spec, letter = case["spec"], case["letter"]
    h, w = lib.dims(spec)
    q = lib.make_qubit(spec)
    q.reset_z()
    q.stabilize()
    q.id_data()
    if case["final"] == "readout":
        q.stabilize()
        q.readout_z()
    else:
        q.lattice_readout_z()
    ref = lib.make_decoder(spec, 1)
    cls = LoggedRepetition if spec["code"] == "Repetition" else LoggedRotated
    data = [q.circ.qubits.index(b) for b in lib.data_qubits(q)]

    nx, nz = lib.nsyn(spec)
    code = "XXZZ" if spec["code"] == "Repetition" else spec["code"]
    flip = [set(model.flips(code, h, w, i, letter)["Z"]) for i in range(h * w)]
    line = {i for i, p in model.logical(code, "Z", h, w) if p != letter}

    def outcome(idxs):
        """What a run with errors on these data qubits is parsed to (of the Z type)."""
        hits, v = set(), 0
        for i in idxs:
            hits ^= flip[i]
            v ^= i in line
        return int(v), sorted((0.0,) + c for c in hits)

    def decoded(idxs, err):
        v, hits = outcome(idxs)
        zeros = lib.join_round([0] * nx, [0] * nz)
        if case["final"] == "readout":
            rounds = [zeros, lib.join_round([0] * nx, [int((0.0,) + c in hits) for c in model.plaquettes(h, w)["Z"]])]
            s = lib.readout_string(rounds, [v])
        else:
            s = lib.readout_string([zeros], [int(i in idxs and model.typed(code, "Z", [i])[0][1] != letter) for i in range(h * w)])
        return ref.correct_readout(s, "Z", err_prob=err)

    def measured(s):
        v, hits = ref.parse_readout(s, "Z")
        return v, sorted(map(tuple, hits["Z"]))

    dec = cls(dict(lib.params_of(spec), T=1))
    bench = TopologicalBenchmark(dec, q.circ, noise_model_func=None, correct_logical_value=case["expect"])
    distinct = 0
    saved = []
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="qv-c24-") as tmp:
        os.chdir(tmp)
        try:
            for sw in case["sweeps"]:
                table = {float(r): ([data[i] for i in m], p) for r, (m, p) in sw["noise"].items()}
                bench.noise_model_func = Noise(table, letter)
                keep = list(sw["rates"])
                rates = {"list": list, "tuple": tuple, "array": np.array}[case["as"]](sw["rates"])
                kw = {} if sw["save"] == "default" else {"save_data": sw["save"]}
                before = {f: open(f, "rb").read() for f in os.listdir(tmp)}
                shots = 2048
                if sw["shots"] is not None:
                    kw["shots"] = shots = sw["shots"]
                dec.log = []
                deg = True
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    if sw["kind"] == "single":
                        got = [(r, bench.single(r, **kw)) for r in keep]
                    else:
                        if sw["kind"] == "sweep" and not case["deg"]:
                            kw["deg_weight"] = deg = False
                        if not sw["default"]:
                            kw["physical_error_rates"] = rates
                        (bench.sweep if sw["kind"] == "sweep" else bench.sweep_mp)(**kw)
                        pr, lr = list(bench.data["physical_error_rates"]), list(bench.data["logical_error_rates"])
                        require([float(x) for x in pr] == sorted(keep), "recorded physical rates are %s, requested %s", pr, keep)
                        require(len(lr) == len(pr), "%d logical rates next to %d physical ones", len(lr), len(pr))
                        got = list(zip(pr, lr))
                require(list(rates) == keep, "the caller's list became %s", rates)
                if sw["save"]:
                    saved += [(float(r), float(v)) for r, v in got]
                if sw["save"] and saved:
                    require(len(os.listdir(tmp)) == 1, "files after a saved sweep: %s", os.listdir(tmp))
                    a = TopologicalAnalysis(bench.filename)
                    a.load_data()
                    file = [(float(x), float(y)) for x, y in zip(a.data["physical_error_rates"], a.data["logical_error_rates"])]
                    require(sorted(file) == sorted(saved), "the file holds %s, measured were %s", file, saved)
                else:
                    require({f: open(f, "rb").read() for f in os.listdir(tmp)} == before,
                            "data were saved although saving was turned off: %s", os.listdir(tmp))
                for r, v in got:
                    r, v = float(r), float(v)
                    mask, p = sw["noise"][str(r)]
                    exact = 0.0
                    err = r if deg else None
                    for hit in itertools.product((0, 1), repeat=len(mask)):
                        k = sum(hit)
                        pr = p ** k * (1 - p) ** (len(mask) - k)
                        if pr and decoded([i for i, x in zip(mask, hit) if x], err) != case["expect"]:
                            exact += pr
                    require(abs(v * shots - round(v * shots)) < 1e-6, "rate %s at %s is not a fraction of %d shots", v, r, shots)
                    if p in (0, 1.0):
                        require(abs(v - exact) < 1e-12, "at physical rate %s the logical rate is %s, recorded %s", r, exact, v)
                    else:
                        var = shots * exact * (1 - exact)
                        t = L / 3 + math.sqrt(L * L / 9 + 2 * var * L)
                        require(abs(v - exact) * shots <= t, "at physical rate %s the logical rate is %s, recorded %s from %d shots", r, exact, v, shots)
                if sw["kind"] != "mp":
                    asked = {e or 0.0 for _, e in dec.log}  # none and rate 0 both mean no weights
                    require(asked == (set(keep) if deg or not keep else {0.0}), "decoded with error probabilities %s for rates %s (degeneracy weights %s)", asked, keep, deg)
                    for s, e in dec.log:
                        ok = False
                        for r in keep:
                            mask, p = sw["noise"][str(r)]
                            if (e is None or e == r) and (0 < p < 1 or measured(s) == outcome(mask if p else [])):
                                ok = True
                        require(ok, "readout %r was decoded with error probability %s, at which it cannot have been measured", s, e)
                distinct = max(distinct, len({str(x) for x in sw["noise"].values()}))
        finally:
            os.chdir(old)
    return distinct >= 2, ["+".join(s["kind"] for s in case["sweeps"]), "sweeps=%d" % len(case["sweeps"]), case["final"]] + [spec["code"]] + ["saved"] * bool(saved)


PARTS = [
    Part("sweep", lambda tier: cases(tier, "sweep"), check, 120, 1500),
    Part("single", lambda tier: cases(tier, "single"), check, 80, 1000),
    Part("mp", lambda tier: cases(tier, "mp"), check, 40, 300),
]
