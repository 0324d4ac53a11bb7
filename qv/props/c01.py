"""C01: stabilize() is the ideal projective plaquette measurement, on every input state."""
from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require
from qv.sim import Pauli

ID = "C01"
RULE = (
    "Case = lattice (code, height, width), other qubits on the circuit, 1-12 (long: up to 70) rounds with Clifford "
    "disturbances of the data and reference qubits, or any other calls of the qubit, in between. The data qubits start maximally entangled with reference "
    "qubits, so each case covers every input state and every outcome branch. Non-trivial = at least two "
    "rounds, or a disturbance, or a non-square lattice."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    spec = draw(lib.specs(9 if big else 7, 63 if big else 35))
    small = lib.ndata(spec) <= 15
    rounds = draw(st.sampled_from([1, 2, 3, 4, 5] + ([7, 12] if small else []) + ([12, 24] if big and small else [])))
    return {
        "spec": spec,
        "neighbour": draw(st.booleans()),
        "first": draw(st.booleans()),
        "disturb": [draw(lib.clifford_ops(10)) if k < 5 or draw(st.booleans()) else [] for k in range(rounds)],
        "calls": [draw(lib.calls(draw(st.sampled_from([0, 1, 3])))) for _ in range(rounds)] if draw(st.booleans()) else [],
    }


@st.composite
def large_cases(draw, tier):
    spec = draw(lib.large_specs(169 if tier == "thorough" else 121))
    return {"spec": spec, "neighbour": draw(st.booleans()), "first": draw(st.booleans()),
            "disturb": [draw(lib.clifford_ops(10)) for _ in range(draw(st.sampled_from([1, 1, 2])))]}


@st.composite
def long_cases(draw, tier):
    spec = draw(lib.specs(5, 9, long=0))
    n = draw(st.integers(13, 70 if lib.ndata(spec) <= 5 else 35))
    at = draw(st.sets(st.integers(0, n - 1), max_size=6))
    return {"spec": spec, "neighbour": draw(st.booleans()), "first": draw(st.booleans()),
            "disturb": [draw(lib.clifford_ops(6)) if k in at else [] for k in range(n)]}


def check(case):
    spec = case["spec"]
    n = lib.ndata(spec)
    h, w = lib.dims(spec)
    rig = lib.Rig(extra=n)
    small = {"code": "XXZZ", "d": [3, 1]}
    if case["neighbour"] and case["first"]:
        other = rig.add(small, "other")
    q = rig.add(spec, "tq")
    if case["neighbour"] and not case["first"]:
        other = rig.add(small, "other")
    data = lib.data_qubits(q)
    require(len(data) == n, "%d data qubits on a %dx%d lattice", len(data), h, w)
    lib.bell(rig, data)
    other_calls = lib.Past(rig, q)
    ideal = rig.tab.copy()
    nx, nz = lib.nsyn(spec)
    stabs = model.stabilizers(spec["code"], h, w)
    order = [("Z", k) for k in range(nz)] + [("X", k) for k in range(nx)]
    touch = list(range(n)) + rig.idx(data)
    pl = model.plaquettes(h, w)
    past = []
    calls = case.get("calls") or []
    for r, ops in enumerate(case["disturb"]):
        if r < len(calls) and calls[r]:
            past += other_calls.do(calls[r])
            ideal = rig.tab.copy()
        if ops:
            lib.cliffords(rig.tab, touch, ops)
            lib.cliffords(ideal, touch, ops)
        zero = [b for b in lib.own_qubits(q) if b not in data and rig.tab.expectation(Pauli(rig.tab.n, [(rig.m.q(b), "Z")])) == 0]
        require(len(zero) >= nx + nz, "round %d: syndrome qubits are not in |0> before it", r)
        reg = rig.one_creg(nx + nz, q.stabilize)
        bits = rig.bits(reg)
        fresh = []
        for (k, i), b in zip(order, bits):
            p = rig.pauli(q, stabs[k][i])
            e = ideal.expectation(p)
            if e is None:
                ideal.measure(p, force=b)
                fresh.append(b)
            else:
                require(
                    e == b,
                    "round %d: bit of %s plaquette at %s is %s, its value is %s",
                    r, k, pl[k][i], lib.describe(b), lib.describe(e),
                )
        # outcomes the state leaves open must be fair coins, independent of each other and of the past
        hist = lib.Span()
        for row in past:
            hist.add(row)
        for b in fresh:
            require(hist.reduce(b) != 0, "round %d: a random plaquette outcome is not a fresh coin", r)
            hist.add(b)
        past += list(bits)
        for b in zero:
            require(
                rig.tab.expectation(Pauli(rig.tab.n, [(rig.m.q(b), "Z")])) == 0,
                "round %d: %s is not returned to |0>", r, b,
            )
        lib.same_state(rig.tab, ideal, "round %d: state after stabilize() differs from the ideal projection" % r)
    nontrivial = len(case["disturb"]) > 1 or any(case["disturb"]) or h != w
    labels = [spec["code"], "%dx%d" % (h, w), "rounds=%d" % len(case["disturb"])]
    if h > w > 1:
        labels.append("tall")
    return nontrivial, labels




PARTS = [
    Part("rounds", lambda tier: cases(tier), check, 1200, 12000,
         fixed=[
             {"spec": {"code": c, "d": list(d), "scalar": False}, "neighbour": True, "first": False, "disturb": [[], []]}
             for c in ("XXZZ", "XZZX") for d in ((3, 3), (5, 3), (3, 5), (1, 3), (3, 1), (5, 5), (7, 5), (5, 7))
         ]),
    Part("large", lambda tier: large_cases(tier), check, 64, 600),
    Part("long", lambda tier: long_cases(tier), check, 64, 1000),
]
