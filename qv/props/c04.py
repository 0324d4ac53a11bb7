"""C04: logical readouts are exact, non-destructive measurements of the logical operator."""
from hypothesis import strategies as st
from qiskit import ClassicalRegister

from qv import lib, model
from qv.core import Part, require

ID = "C04"
RULE = (
    "Case = lattice, Clifford scramble, sequence of readouts (either basis, own or supplied register), rounds and any other calls. "
    "Data qubits start maximally entangled with references, so all input states and outcomes are covered, and the "
    "state left behind is compared with the ideal projection after every readout. Non-trivial = two or more calls."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    spec = draw(lib.specs(9 if big else 7, 63 if big else 35))
    op = st.one_of(
        st.tuples(st.just("read"), st.sampled_from("XZ"), st.integers(-1, 1)),
        st.tuples(st.just("read"), st.sampled_from("XZ"), st.integers(-1, 1)),
        st.tuples(st.just("stab")),
        st.tuples(st.just("scramble"), lib.clifford_ops(6)),
        st.tuples(st.just("calls"), lib.calls(2)),
    ).map(list)
    return {"spec": spec, "scramble": draw(lib.clifford_ops(10)),
            "ops": draw(st.lists(op, min_size=draw(st.sampled_from([1, 3])), max_size=draw(st.sampled_from([6, 6, 14])))),
            "neighbour": draw(st.booleans())}


@st.composite
def past_cases(draw, tier):
    """One small qubit, a few other calls, one readout: many different pasts."""
    some = st.tuples(st.just("calls"), lib.calls(draw(st.sampled_from([1, 2, 2, 3, 3]))))
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops += [list(draw(some)), ["read", draw(st.sampled_from("XZ")), draw(st.sampled_from([-1, -1, 0]))]]
    return {"spec": draw(lib.specs(3, 9, long=3)), "scramble": [], "ops": ops, "neighbour": False}


@st.composite
def long_cases(draw, tier):
    """Many readouts of one small qubit."""
    spec = draw(lib.specs(3, 9))
    op = st.one_of(
        st.tuples(st.just("read"), st.sampled_from("XZ"), st.integers(-1, 0)),
        st.tuples(st.just("read"), st.sampled_from("XZ"), st.just(-1)),
        st.tuples(st.just("read"), st.sampled_from("XZ"), st.just(-1)),
        st.tuples(st.just("stab")),
        st.tuples(st.just("scramble"), lib.clifford_ops(3)),
    ).map(list)
    return {"spec": spec, "scramble": draw(lib.clifford_ops(10)), "ops": draw(st.lists(op, min_size=16, max_size=40)), "neighbour": draw(st.booleans())}


@st.composite
def large_cases(draw, tier):
    op = st.one_of(
        st.tuples(st.just("read"), st.sampled_from("XZ"), st.integers(-1, 1)),
        st.tuples(st.just("read"), st.sampled_from("XZ"), st.integers(-1, 1)),
        st.tuples(st.just("scramble"), lib.clifford_ops(6)),
    ).map(list)
    return {"spec": draw(lib.large_specs(169 if tier == "thorough" else 121)), "scramble": draw(lib.clifford_ops(10)),
            "ops": [["read", draw(st.sampled_from("XZ")), -1]] + draw(st.lists(op, max_size=2)), "neighbour": draw(st.booleans())}


def check(case):
    spec = case["spec"]
    n = lib.ndata(spec)
    h, w = lib.dims(spec)
    rig = lib.Rig(extra=n)
    if case["neighbour"]:
        rig.add({"code": "XZZX", "d": [3, 1]}, "other")
    q = rig.add(spec)
    mine = [ClassicalRegister(1, "mine0"), ClassicalRegister(1, "mine1")]
    rig.circ.add_register(*mine)
    data = lib.data_qubits(q)
    lib.bell(rig, data)
    other_calls = lib.Past(rig, q)
    touch = list(range(n)) + rig.idx(data)
    lib.cliffords(rig.tab, touch, case["scramble"])
    ideal = rig.tab.copy()
    rest = [rig.m.q(b) for b in lib.own_qubits(q) if b not in data]
    nx, nz = lib.nsyn(spec)
    stabs = model.stabilizers(spec["code"], h, w)
    past = lib.Span()
    for step, op in enumerate(case["ops"]):
        what = "call %d %s" % (step, op)
        if op[0] == "scramble":
            lib.cliffords(rig.tab, touch, op[1])
            lib.cliffords(ideal, touch, op[1])
            continue
        if op[0] == "calls":
            for b in other_calls.do(op[1]):
                past.add(b)
            ideal = rig.tab.copy()
            continue
        if op[0] == "stab":
            bits = rig.bits(rig.one_creg(nx + nz, q.stabilize))
            obs = [(rig.pauli(q, t), b) for t, b in zip(stabs["Z"] + stabs["X"], bits)]
        else:
            f = q.readout_x if op[1] == "X" else q.readout_z
            if op[2] < 0:
                reg = rig.one_creg(1, f)
            else:
                reg = mine[op[2]]
                require(not rig.call(f, readout_creg=reg), "%s added a register although one was given", what)
            obs = [(rig.pauli(q, model.logical(spec["code"], op[1], h, w)), rig.bits(reg)[0])]
        for p, b in obs:
            e = ideal.expectation(p)
            if e is None:
                require(past.reduce(b) != 0, "%s: an open outcome is not a fresh coin", what)
                ideal.measure(p, force=b)
            else:
                require(b == e, "%s: recorded %s, the operator's value is %s", what, lib.describe(b), lib.describe(e))
            past.add(b)
        a = rig.tab.copy()
        lib.clear(a, rest)
        c = ideal.copy()
        lib.clear(c, rest)
        lib.same_state(a, c, "%s: state left behind differs from the ideal projection" % what)
    return len(case["ops"]) > 1, [spec["code"], "%dx%d" % (h, w), "calls=%d" % len(case["ops"])]


PARTS = [Part("readouts", lambda tier: cases(tier), check, 3000, 30000),
         Part("large", lambda tier: large_cases(tier), check, 48, 500),
         Part("pasts", lambda tier: past_cases(tier), check, 8000, 60000),
         Part("many", lambda tier: long_cases(tier), check, 240, 3000)]
