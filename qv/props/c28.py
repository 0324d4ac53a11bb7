"""C28: entangling one plaquette type."""
from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require
from qv.sim import Pauli

ID = "C28"
RULE = (
    "Case = lattice, Clifford scrambling of the reference-entangled data, a sequence of entangle_x / entangle_z calls and entangle calls on all or on chosen plaquettes, with "
    "syndrome qubits optionally measured and reset in between; the whole state is compared with the ideal coherent parity "
    "copies. Non-trivial = both types exist and the data are scrambled, or two calls."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    return {"spec": draw(lib.specs(9 if big else 7, 63 if big else 35)), "mix": draw(lib.clifford_ops(10)),
            "calls": draw(st.lists(st.one_of(
                st.tuples(st.sampled_from("XZ"), st.booleans()), st.tuples(st.sampled_from("XZ"), st.booleans()),
                # a list of plaquettes chosen by the caller (none: all of the lattice)
                st.tuples(st.just("some"), st.booleans(), st.lists(st.integers(0, 98), max_size=6, unique=True)),
                st.tuples(st.just("all"), st.booleans())).map(list), min_size=1, max_size=draw(st.sampled_from([3, 3, 3, 8])))),
            "rounds": draw(st.sampled_from([0, 0, 0, 1, 2, 6])), "past": draw(lib.calls(3)) if draw(st.booleans()) else [],
            "neighbour": draw(st.booleans())}


def check(case):
    spec = case["spec"]
    n = lib.ndata(spec)
    h, w = lib.dims(spec)
    rig = lib.Rig(extra=n)
    if case["neighbour"]:
        rig.add({"code": "XXZZ", "d": [3, 3]}, "other")
    q = rig.add(spec)
    for _ in range(case["rounds"]):
        rig.call(q.stabilize)
    if case["rounds"]:
        rig.call(q.reset_z)
        if spec["code"] == "XZZX":
            for i in range(0, n, 2):
                rig.tab.h(rig.idx(lib.data_qubits(q))[i])
    data = lib.data_qubits(q)
    lib.bell(rig, data)
    d = rig.idx(data)
    lib.cliffords(rig.tab, list(range(n)) + d, case["mix"])
    stabs = model.stabilizers(spec["code"], h, w)
    regname = {"X": "mx", "Z": "mz"}
    syn = {k: rig.idx(list(q.lattice.qregisters[regname[k]])) if stabs[k] else [] for k in "XZ"}
    for k in "XZ":
        require(len(syn[k]) == len(stabs[k]), "%d syndrome qubits of type %s, expected %d", len(syn[k]), k, len(stabs[k]))
    if case.get("past"):
        lib.Past(rig, q).do(case["past"])
    ideal = rig.tab.copy()
    clean = {"X": True, "Z": True}  # syndrome qubits in |0>?
    known = {s: (k, t) for k in "XZ" for t, s in zip(stabs[k], syn[k])}
    for kind, clear, *rest in case["calls"]:
        if kind in "XZ":
            todo = list(zip(stabs[kind], syn[kind]))
            call = q.lattice.entangle_x if kind == "X" else q.lattice.entangle_z
        elif kind == "all":
            todo = [(t, s) for s, (_, t) in known.items()]
            call = q.lattice.entangle
        else:
            rows = list(zip(q.lattice.qubit_indices, q.lattice.stabilizers))
            rows = [rows[k] for k in dict.fromkeys(k % len(rows) for k in rest[0])]
            idx, cls = [r[0] for r in rows], [r[1] for r in rows]
            mine = [s for r in idx for s in rig.idx([r[0]])]
            todo = [(known[s][1], s) for s in mine]
            call = lambda: q.lattice.entangle(idx, cls)
        require(not rig.call(call), "entangle added a register")
        kinds = sorted({known[s][0] for _, s in todo})
        for terms, s in todo:
            ideal.h(s)
            for i, p in terms:
                (ideal.cx if p == "X" else ideal.cz)(s, d[i])
            ideal.h(s)
        lib.same_state(rig.tab, ideal, "entangling %s is not exactly the coherent measurement of the plaquettes %s" % (kind, [t for t, _ in todo]))
        if clear:
            for t, s in todo:
                kind = known[s][0]
                m1, rnd1 = rig.tab.measure(Pauli(rig.tab.n, [(s, "Z")]))
                m2, rnd2 = ideal.measure(Pauli(ideal.n, [(s, "Z")]), force=m1)
                require(m1 == m2 and rnd1 == rnd2, "measured plaquette value differs")
                rig.tab.pauli1(s, "X", m1)
                ideal.pauli1(s, "X", m2)
                ideal.nsym = max(ideal.nsym, rig.tab.nsym)
                if clean[kind]:
                    require(rig.tab.expectation(rig.pauli(q, t)) == m1, "syndrome bit is not the plaquette's value")
            for k in kinds:
                clean[k] = clean[k] or len(todo) >= len(syn[k]) and all(s in [x for _, x in todo] for s in syn[k])
        else:
            for k in kinds:
                clean[k] = False
    both = bool(stabs["X"] and stabs["Z"])
    return (both and bool(case["mix"])) or len(case["calls"]) > 1, [spec["code"], "%dx%d" % (h, w)] + sorted({c[0] for c in case["calls"]})


@st.composite
def large_cases(draw, tier):
    return {"spec": draw(lib.large_specs(169 if tier == "thorough" else 121)), "mix": draw(lib.clifford_ops(10)),
            "calls": draw(st.lists(st.tuples(st.sampled_from("XZ"), st.booleans()).map(list), min_size=1, max_size=2)),
            "rounds": draw(st.sampled_from([0, 0, 1])), "neighbour": draw(st.booleans())}


PARTS = [Part("entangle", lambda tier: cases(tier), check, 1600, 10000),
         Part("large", lambda tier: large_cases(tier), check, 48, 500)]
