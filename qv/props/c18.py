"""C18: independence of the qubits on one circuit."""
import copy

from hypothesis import strategies as st
from qiskit import ClassicalRegister

from qv import lib, model
from qv.core import Part, require

ID = "C18"
RULE = (
    "Case = 2-4 topological qubits on one circuit (some made from the same parameter dictionary object) and an interleaved "
    "program of calls on them. Non-trivial = at least two qubits have two or more stabilization rounds or readouts each and "
    "their calls interleave."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]

OPS = ["reset_x", "reset_z", "x", "z", "stabilize", "stabilize", "stabilize", "readout_x", "readout_z", "readout_x", "readout_z",
       "lattice_readout_x", "lattice_readout_z", "id", "id_data", "x_c_if", "z_c_if", "mine_x", "mine_z"]

NAMES = ["q", "q1", "q10", "q1_data", "q_c", "qq", "Q", "tq", "tq_m", "a b"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    n = draw(st.integers(2, 4))
    specs = []
    for _ in range(n):
        if specs and draw(st.integers(0, 2)) == 0:
            s = dict(draw(st.sampled_from(specs)), shared=True)  # same dictionary object as that one
        else:
            s = dict(draw(lib.specs(5, 25 if big else 15)), shared=False)
        specs.append(s)
    # XXZZ and XZZX accept the same dictionaries
    for s in specs:
        if s["code"] != "Repetition" and draw(st.booleans()):
            s["code"] = draw(st.sampled_from(["XXZZ", "XZZX"]))
    k = draw(st.sampled_from([4, 10, 20, 40]))
    ops = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(OPS)).map(list), min_size=k, max_size=2 * k))
    # qubits may be created between calls
    born = [0] + [draw(st.integers(0, k // 2)) for _ in range(n - 1)]
    names = draw(st.one_of(st.none(), st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True)))
    return {"specs": specs, "ops": ops, "born": born, "names": names}


def apply(rig, q, op, own, val):
    """One call; returns the registers written by it."""
    if op.startswith("mine_"):
        rig.call(q.readout_x if op == "mine_x" else q.readout_z, readout_creg=own)
        return [own]
    if op.endswith("_c_if"):
        rig.call(getattr(q, op), own, val)
        return []
    return rig.call(getattr(q, op))


def run(case, only=None):
    """-> per qubit the expressions recorded, and the rig; checks the locality of every call."""
    dicts = {}
    rig = lib.Rig()
    qs, own, recs, given, kept = {}, {}, {}, [], []

    def create(i):
        s = case["specs"][i]
        key = (s["code"] == "Repetition", str(s["d"]), bool(s.get("scalar")))
        if s["shared"] and key in dicts:
            p = dicts[key]
        else:
            p = lib.params_of(s)
            dicts[key] = p
        given.append(p)
        kept.append(copy.deepcopy(p))
        # the caller's own register
        own[i] = ClassicalRegister(1, "own%d" % i)
        qs[i] = lib.CLS[s["code"]](p, name=case["names"][i] if case["names"] else "q%d" % i, circ=rig.circ)
        rig.circ.add_register(own[i])
        rig.m.run()
        recs[i] = []

    steps = [(b, -1, i) for i, b in enumerate(case["born"])] + [(k, 0, k) for k in range(len(case["ops"]))]
    steps.sort(key=lambda t: (t[0], t[1]))
    for _, what, k in steps:
        if what == -1:
            if only is None or k == only:
                create(k)
            continue
        i, op = case["ops"][k]
        if i not in qs:
            continue
        others = {j: (copy.deepcopy(qs[j].lattice.params), {n: list(r) for n, r in qs[j].lattice.cregisters.items()},
                      {n: list(r) for n, r in qs[j].lattice.qregisters.items()}) for j in qs if j != i}
        n0, q0 = len(rig.circ.data), rig.circ.num_qubits
        regs = apply(rig, qs[i], op, own[i], k % 2)
        mine = set(lib.own_qubits(qs[i]))
        bits = {b for r in regs for b in r} | set(own[i])
        require(rig.circ.num_qubits == q0, "call %d: %s on qubit %d added qubits", k, op, i)
        for inst in list(rig.circ.data)[n0:]:
            if inst.operation.name == "barrier":  # orders the whole circuit, acts on nothing
                continue
            for b in inst.qubits:
                require(b in mine, "call %d: %s on qubit %d operates on %s, which is not its own", k, op, i, b)
            for b in inst.clbits:
                require(b in bits, "call %d: %s on qubit %d writes %s", k, op, i, b)
        for j, (a, b, c) in others.items():
            lat = qs[j].lattice
            require(lat.params == a, "call %d: %s on qubit %d changed the parameters of qubit %d: %s -> %s", k, op, i, j, a, lat.params)
            require({n: list(r) for n, r in lat.cregisters.items()} == b and {n: list(r) for n, r in lat.qregisters.items()} == c,
                    "call %d: %s on qubit %d changed the registers of qubit %d", k, op, i, j)
        for r in regs:
            recs[i] += rig.bits(r)
    for p, old in zip(given, kept):
        require(p == old, "the caller's dictionary %s became %s", old, p)
    return recs, rig, qs


def check(case):
    recs, rig, qs = run(case)
    alone_total = []
    for i in qs:
        alone, arig, aqs = run(case, only=i)
        a, b = lib.signature(recs[i]), lib.signature(alone[i])
        require(a == b, "records of qubit %d differ from those of the same calls on it alone", i)
        # and jointly with the state it is left in
        alone_total.append(a)
        for basis in "XZ":
            h, w = lib.dims(case["specs"][i])
            L = model.logical(case["specs"][i]["code"], basis, h, w)
            e1 = rig.tab.expectation(rig.pauli(qs[i], L))
            e2 = arig.tab.expectation(arig.pauli(aqs[i], L))
            require((e1 is None) == (e2 is None), "final logical %s of qubit %d differs from the run alone", basis, i)
            if e1 is not None:
                s1, s2 = lib.signature(recs[i] + [e1])[-1], lib.signature(alone[i] + [e2])[-1]
                require(s1 == s2, "final logical %s of qubit %d differs from the run alone", basis, i)
    # the records of different qubits are independent of each other
    joint = lib.signature([e for i in sorted(qs) for e in recs[i]])
    fresh = sum(1 for s in joint if s == "fresh")
    require(fresh == sum(sum(1 for s in sig if s == "fresh") for sig in alone_total),
            "records of different qubits are correlated")
    seq = [i for i, _ in case["ops"]]
    busy = [i for i in qs if sum(1 for j, o in case["ops"] if j == i and (o == "stabilize" or "readout" in o)) >= 2]
    switches = sum(1 for a, b in zip(seq, seq[1:]) if a != b)
    labels = ["n=%d" % len(qs), "shared" if any(s["shared"] for s in case["specs"]) else "separate"]
    return len(busy) >= 2 and switches >= 3, labels


PARTS = [Part("programs", lambda tier: cases(tier), check, 1600, 12000)]
