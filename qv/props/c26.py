"""C26: identity slots."""
from collections import Counter

from hypothesis import strategies as st
from qiskit import QuantumCircuit
from qtcodes import TopologicalCircuit, TopologicalRegister

from qv import lib, model
from qv.core import Part, require
from qv.sim import evaluate

ID = "C26"
RULE = (
    "Case = 1-3 (crowd: 10-14) lattices on one circuit and a program with id / id_data slots called on the qubits or through the topological "
    "circuit. Placement is counted slot by slot; the records are compared with the program without slots; X, Y or Z faults "
    "attached to identities alone are compared with the same faults inserted at those places by hand. Non-trivial = both "
    "variants occur with a round after one of them."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]

NAMES = ["q", "q1", "q10", "q1_data", "q_c", "qq", "Q", "tq", "tq_m"]
OPS = ["stabilize", "stabilize", "x", "z", "reset_x", "reset_z", "readout_x", "readout_z", "id", "id_data", "id", "id_data"]
MORE = [o for o in lib.CALLS if o not in OPS]  # conditioned gates, CX with a physical qubit, full-lattice readouts


@st.composite
def cases(draw, tier):
    n = draw(st.integers(1, 3))
    spec = lib.specs(7, 35) if n == 1 else lib.specs(5, 15)
    k = draw(st.sampled_from([4, 8, 14]))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS + OPS + MORE if draw(st.booleans()) else OPS), st.integers(0, n - 1)).map(list), min_size=k // 2, max_size=k))
    if draw(st.integers(0, 3)):  # both variants, somewhere
        for name in ("id", "id_data", "stabilize"):
            ops.insert(draw(st.integers(0, len(ops))), [name, draw(st.integers(0, n - 1))])
    for _ in range(draw(st.integers(0, 2))):  # a slot right after any other call
        at, i = draw(st.integers(0, len(ops))), draw(st.integers(0, n - 1))
        ops[at:at] = [[draw(st.sampled_from(lib.CALLS)), i], [draw(st.sampled_from(["id", "id_data"])), i]]
    names = None
    if draw(st.booleans()):
        names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    return {
        "specs": [draw(spec) for _ in range(n)],
        "ops": ops, "names": names,
        "through": draw(st.booleans()), "pauli": draw(st.sampled_from("XYZ")), "tail": draw(st.sampled_from([True, True, False])),
    }


@st.composite
def crowd_cases(draw, tier):
    """Ten to fourteen small qubits, few calls."""
    n = draw(st.integers(10, 14))
    specs = [draw(lib.specs(3, 3)) for _ in range(n)]
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.one_of(st.integers(0, n - 1), st.sampled_from([0, 1, n - 1]))).map(list), min_size=3, max_size=8))
    ops.insert(draw(st.integers(0, len(ops))), ["id", 1])
    ops.insert(draw(st.integers(0, len(ops))), ["id_data", draw(st.sampled_from([0, 1, n - 1]))])
    return {"specs": specs, "ops": ops, "names": None, "through": draw(st.booleans()), "pauli": draw(st.sampled_from("XYZ")), "tail": True, "crowd": True}


@st.composite
def many_cases(draw, tier):
    """Many slots on one or two lattices, mostly of one kind."""
    n = draw(st.integers(1, 2))
    main = draw(st.sampled_from(["id", "id_data"]))
    ops = draw(st.lists(st.tuples(st.sampled_from([main] * 6 + OPS), st.integers(0, n - 1)).map(list), min_size=20, max_size=60))
    for name in ("id", "id_data", "stabilize"):
        ops.insert(draw(st.integers(0, len(ops))), [name, 0])
    return {"specs": [draw(lib.specs(3, 9)) for _ in range(n)], "ops": ops, "names": None, "through": draw(st.booleans()),
            "pauli": draw(st.sampled_from("XYZ")), "tail": True}


@st.composite
def large_cases(draw, tier):
    ops = draw(st.permutations(["id", "id_data", "stabilize", draw(st.sampled_from(OPS))]))
    return {"specs": [draw(lib.large_specs(121))], "ops": [[o, 0] for o in ops], "names": None, "through": draw(st.booleans()),
            "pauli": draw(st.sampled_from("XYZ")), "tail": True}


def run(case, mode):
    """mode: 'ids' slots present; 'none' left out; 'noise' faults by an identity-only noise model;
    'hand' faults put by hand on the slots' qubits."""
    specs = case["specs"]
    if case["names"]:
        circ = QuantumCircuit()
        qs = [lib.CLS[s["code"]](lib.params_of(s), name=x, circ=circ) for s, x in zip(specs, case["names"])]
        treg = TopologicalRegister(circ=circ)
    else:
        treg = TopologicalRegister(ctypes=[s["code"] for s in specs], params=[lib.params_of(s) for s in specs])
        qs = [treg[i] for i in range(len(specs))]
    tc = TopologicalCircuit(treg)
    rig = lib.Rig(circ=tc.circ)
    rig.m.run()
    syms = []
    past = {i: lib.Past(rig, qs[i]) for i in sorted({i for o, i in case["ops"] if o in MORE})}
    if mode == "noise":
        def on_id(m, q, qubit):
            s = m.tab.new_symbol()
            syms.append((s, q))
            m.tab.pauli1(q, case["pauli"], s)
        rig.m.on_id = on_id
    exprs = []
    ops = [["stabilize", i] for i in range(len(specs))] + case["ops"]
    if case["tail"]:
        ops += [[o, i] for i in range(len(specs)) for o in ("stabilize", "readout_x", "readout_z")]
    for step, (op, i) in enumerate(ops):
        q = qs[i]
        if op in ("id", "id_data"):
            want = lib.data_qubits(q) if op == "id_data" else lib.own_qubits(q)
            if mode == "none":
                continue
            if mode == "hand":
                for b in want:
                    s = rig.tab.new_symbol()
                    syms.append((s, rig.m.q(b)))
                    rig.tab.pauli1(rig.m.q(b), case["pauli"], s)
                continue
            n0, k0 = len(rig.circ.data), len(syms)
            before = None if mode == "noise" else rig.tab.copy()
            # the noise model must meet each wanted qubit exactly once
            regs = rig.call(getattr(tc if case["through"] else q, op), *([qs[i] if case["names"] else i] if case["through"] else []))
            require(not regs, "step %d: %s added registers", step, op)
            placed = Counter()
            for inst in list(rig.circ.data)[n0:]:
                if inst.operation.name == "barrier":
                    continue
                require(inst.operation.name == "id", "step %d: %s inserted %s", step, op, inst.operation.name)
                placed.update(inst.qubits)
            require(placed == Counter(want), "step %d: %s on qubit %d put identities on %s, expected one on each of %s", step, op, i,
                    sorted(map(repr, placed.elements()))[:20], sorted(map(repr, want))[:20])
            if mode == "noise":
                # order of the slots within one call does not matter
                got = syms[k0:]
                order = [rig.m.q(b) for b in want]
                syms[k0:] = sorted(got, key=lambda t: order.index(t[1]))
            else:
                lib.same_state(rig.tab, before, "step %d: %s changed the state" % (step, op))
        elif op in MORE:
            exprs += past[i].do([[op, step % 2]])
        else:
            name = op
            if case["through"] and op.startswith("readout"):
                name = op.replace("readout", "measure")
            for r in rig.call(getattr(tc if case["through"] else q, name), *([qs[i] if case["names"] else i] if case["through"] else [])):
                exprs += rig.bits(r)
    return exprs, syms


def check(case):
    with_ids, _ = run(case, "ids")
    without, _ = run(case, "none")
    require(lib.signature(with_ids) == lib.signature(without), "identities changed the distribution of the records")
    e1, s1 = run(case, "noise")
    e2, s2 = run(case, "hand")
    a = lib.signature([s for s, _ in s1] + e1)
    b = lib.signature([s for s, _ in s2] + e2)
    require([q for _, q in s1] == [q for _, q in s2], "the noise model met other qubits than the slots'")
    require(a == b, "%s noise on identities alone does not act as faults at the requested places and times", case["pauli"])
    names = [o for o, _ in case["ops"]]
    nt = "id" in names and "id_data" in names and case["tail"]
    return nt, ["n=%d" % len(case["specs"])] + sorted({s["code"] for s in case["specs"]}) + ["circuit" if case["through"] else "qubit"]


PARTS = [
    Part("slots", lambda tier: cases(tier), check, 700, 8000),
    Part("crowd", lambda tier: crowd_cases(tier), check, 60, 600),
    Part("many", lambda tier: many_cases(tier), check, 64, 800),
    Part("large", lambda tier: large_cases(tier), check, 40, 400),
]
