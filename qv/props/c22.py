"""C22: classically conditioned and physically coupled logical gates."""
from hypothesis import strategies as st
from qiskit import ClassicalRegister, QuantumRegister

from qv import lib, model
from qv.core import Part, Violation, require
from qv.sim import Pauli

ID = "C22"
RULE = (
    "conditioned: lattice with arbitrary (reference-entangled, scrambled) data, a register of 1-12 bits with arbitrary content "
    "(fresh measured coins for width 1), a value to compare with, chained conditioned gates with any other calls in between; the whole state is compared. "
    "coupled: the same with a physical qubit entangled with everything, as control or target. Non-trivial = conditioned on a "
    "register of more than one bit or on a coin; coupled with a scrambled joint state."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cond_cases(draw, tier, large=False, small=False):
    big = tier == "thorough"
    w = draw(st.sampled_from([1, 1, 2, 3, 6, 9, 12]))
    content = draw(st.one_of(st.just("coin"), st.integers(0, (1 << w) - 1))) if w == 1 else draw(st.integers(0, (1 << w) - 1))
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        near = st.integers(0, (1 << w) - 1)
        if content != "coin":
            near = st.one_of(st.just(content), st.just(content), near, st.integers(0, w - 1).map(lambda k: content ^ (1 << k)))
        steps.append([draw(st.sampled_from("XZ")), draw(near)])
    return {"spec": draw(SMALL if small else lib.large_specs(121) if large else lib.specs(7 if big else 5, 49 if big else 25)), "width": w, "content": content, "steps": steps,
            "mix": [] if small else draw(lib.clifford_ops(8)), "between": draw(st.booleans()), "calls": [draw(lib.calls(draw(st.sampled_from([0, 1, 2, 2, 3])))) for _ in steps]}


def scrambled(case, extra_phys):
    """-> rig, qubit, extra register, touched tableau indices; everything entangled with references."""
    n = lib.ndata(case["spec"])
    rig = lib.Rig(extra=n + extra_phys)
    q = rig.add(case["spec"])
    phys = QuantumRegister(max(extra_phys, 1), "phys")
    rig.circ.add_register(phys)
    rig.m.run()
    data = lib.data_qubits(q)
    lib.bell(rig, data)
    if extra_phys:
        lib.bell(rig, list(phys), offset=n)
    idx = list(range(n + extra_phys)) + rig.idx(data) + (rig.idx(list(phys)) if extra_phys else [])
    lib.cliffords(rig.tab, idx, case["mix"])
    return rig, q, phys, data


def check_cond(case):
    spec = case["spec"]
    h, w = lib.dims(spec)
    rig, q, phys, data = scrambled(case, 0)
    reg, other = ClassicalRegister(case["width"], "cond"), ClassicalRegister(3, "noise")
    rig.circ.add_register(other, reg)
    rig.circ.x(phys[0])
    rig.circ.measure(phys[0], other[0])
    rig.circ.measure(phys[0], other[2])
    if case["content"] == "coin":
        rig.circ.h(phys[0])
        rig.circ.measure(phys[0], reg[0])
    else:
        for k in range(case["width"]):
            rig.circ.reset(phys[0])
            if (case["content"] >> k) & 1:
                rig.circ.x(phys[0])
            rig.circ.measure(phys[0], reg[k])
    rig.m.run()
    bits = rig.bits(reg)
    other_calls = lib.Past(rig, q)
    for k, (kind, val) in enumerate(case["steps"]):
        other_calls.do(case["calls"][k] if case.get("calls") else [])
        ideal = rig.tab.copy()
        if case["between"]:
            require(not rig.call(q.id), "id added a register")
        require(not rig.call(q.x_c_if if kind == "X" else q.z_c_if, reg, val), "a conditioned gate added a register")
        if case["content"] == "coin":
            expr = bits[0] if val == 1 else bits[0] ^ 1
        else:
            expr = int(case["content"] == val)
        L = model.logical(spec["code"], kind, h, w)
        d = rig.idx(data)
        ideal.apply_pauli(Pauli(ideal.n, [(d[i], p) for i, p in L]), expr)
        lib.same_state(rig.tab, ideal, "logical %s if register(%d bits)=%s equals %d: state is not that of the %s gate" % (
            kind, case["width"], case["content"], val, "unconditioned" if expr == 1 else "absent" if expr == 0 else "conditioned"))
        require(rig.bits(reg) == bits, "a conditioned gate changed its register")
    return case["width"] > 1 or case["content"] == "coin", [spec["code"], "width=%d" % case["width"], "coin" if case["content"] == "coin" else "fixed"]


@st.composite
def cx_cases(draw, tier, large=False, small=False):
    big = tier == "thorough"
    return {"spec": draw(SMALL if small else lib.large_specs(121) if large else lib.specs(7 if big else 5, 49 if big else 25)), "mix": [] if small else draw(lib.clifford_ops(10)),
            "calls": draw(st.lists(st.tuples(st.sampled_from(["control", "target"]), st.integers(0, 1)).map(list), min_size=1, max_size=4)),
            "bad": draw(st.sampled_from(["both", "neither", "same"])), "neighbour": draw(st.booleans()), "past": [draw(lib.calls(draw(st.sampled_from([0, 1, 2, 2, 3])))) for _ in range(4)]}


def check_cx(case):
    spec = case["spec"]
    h, w = lib.dims(spec)
    rig, q, phys, data = scrambled(case, 2)
    if case["neighbour"]:
        rig.add({"code": "XXZZ", "d": [3, 1]}, "other")
    n0, c0, q0 = len(rig.circ.data), rig.circ.num_clbits, rig.circ.num_qubits
    kw = {"both": dict(control=phys[0], target=phys[1]), "neither": {}, "same": dict(control=phys[1], target=phys[1])}[case["bad"]]
    try:
        q.cx(**kw)
    except ValueError:
        pass
    else:
        raise Violation("cx with %s partner(s) was accepted" % case["bad"])
    require((len(rig.circ.data), rig.circ.num_clbits, rig.circ.num_qubits) == (n0, c0, q0), "a rejected cx left something on the circuit")
    d = rig.idx(data)
    other_calls = lib.Past(rig, q)
    for k, (kind, which) in enumerate(case["calls"]):
        other_calls.do(case["past"][k] if case.get("past") else [])
        ideal = rig.tab.copy()
        p = rig.m.q(phys[which])
        require(not rig.call(q.cx, **{kind: phys[which]}), "cx added a classical register")
        if kind == "control":
            for i, letter in model.logical(spec["code"], "X", h, w):
                (ideal.cx if letter == "X" else ideal.cz)(p, d[i])
        else:
            for i, letter in model.logical(spec["code"], "Z", h, w):
                if letter == "X":
                    ideal.h(d[i])
                ideal.cx(d[i], p)
                if letter == "X":
                    ideal.h(d[i])
        lib.same_state(rig.tab, ideal, "cx(%s=physical qubit) is not the exact coherent gate" % kind)
    return bool(case["mix"] or any(case.get("past") or [])), [spec["code"], "%dx%d" % (h, w), "calls=%d" % len(case["calls"])] + sorted({k for k, _ in case["calls"]})


SMALL = lib.specs(3, 9, long=3)
PARTS = [
    Part("conditioned pasts", lambda tier: cond_cases(tier, small=True), check_cond, 5000, 30000),
    Part("coupled pasts", lambda tier: cx_cases(tier, small=True), check_cx, 5000, 30000),
    Part("conditioned", lambda tier: cond_cases(tier), check_cond, 1500, 10000),
    Part("coupled", lambda tier: cx_cases(tier), check_cx, 1200, 10000),
    Part("conditioned large", lambda tier: cond_cases(tier, True), check_cond, 40, 400),
    Part("coupled large", lambda tier: cx_cases(tier, True), check_cx, 40, 400),
]
