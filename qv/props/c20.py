"""C20: a topological circuit refines the ideal circuit on its logical qubits."""
from hypothesis import strategies as st
from qiskit import ClassicalRegister
from qtcodes import TopologicalCircuit, TopologicalRegister

from qv import lib, model
from qv.core import Part, require
from qv.sim import evaluate

ID = "C20"
RULE = (
    "Case = 1-3 logical qubits of any code and shape and a program of resets, X, Z, CX (default or chosen ancilla), "
    "stabilization rounds, identities and measurements. All random outcomes are symbolic, so each case covers every branch. "
    "Non-trivial = at least one CX between qubits and two measurements."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier, long=False):
    big = tier == "thorough"
    n = draw(st.sampled_from([2, 3] if long else [1, 2, 2, 3]))
    spec = lib.specs(3, 9, long=0) if long else lib.specs(5 if big else 3, 15) if n < 3 else lib.specs(3, 9)
    specs = [draw(spec) for _ in range(n)]
    b = st.sampled_from("XZ")
    i = st.integers(0, n - 1)
    op = st.one_of(
        st.tuples(st.just("reset"), i, b),
        st.tuples(st.just("gate"), i, b),
        st.tuples(st.just("stab"), i),
        st.tuples(st.just("id"), i),
        st.tuples(st.just("cx"), i, st.integers(0, 1)),
        st.tuples(st.just("cx"), i, st.integers(0, 1)),
        st.tuples(st.just("cx"), i, st.integers(0, 1)),
        st.tuples(st.just("read"), i, b, st.booleans()),
        st.tuples(st.just("read"), i, b, st.booleans()),
        st.tuples(st.just("lattice"), i, b),
    ).map(list)
    k = draw(st.sampled_from([60, 100])) if long else draw(st.sampled_from([6, 12, 20] if not big else [8, 16, 32]))
    return {
        "specs": specs, "start": [draw(b) for _ in range(n)], "ops": draw(st.lists(op, min_size=k // 2, max_size=k)),
        "ancilla": draw(st.one_of(st.none(), lib.specs(3, 9))), "pre": draw(st.booleans()), "obj": draw(st.booleans()),
        "wraps": draw(st.sampled_from([1, 1, 2, 3])), "rival": draw(st.integers(0, 2)) == 0,
        "split": draw(st.integers(0, n)), "asg": draw(lib.assignments(2)),
    }


def check(case):
    specs = case["specs"]
    n = len(specs)
    k = case["split"]
    treg = TopologicalRegister(ctypes=[s["code"] for s in specs[:k]], params=[lib.params_of(s) for s in specs[:k]])
    anc = case["ancilla"]
    pre = case["pre"] and anc is not None
    if pre:  # the user's own ancilla, in the middle: indices follow the order of addition
        treg.add_tqubits("ancilla", [anc["code"]], [lib.params_of(anc)])
    if k < n:
        treg.add_tqubits("more", [s["code"] for s in specs[k:]], [lib.params_of(s) for s in specs[k:]])
    index = [i if i < k or not pre else i + 1 for i in range(n)]
    tcs = [TopologicalCircuit(treg) for _ in range(case["wraps"])]
    rival = None
    if case["rival"]:  # another register on the same circuit, used in between
        other = TopologicalRegister(circ=treg.circ, name="rival", ctypes=["Repetition"] * 2, params=[{"d": 3}, {"d": 3}])
        rival = TopologicalCircuit(other)
    tc = tcs[0]
    rig = lib.Rig(circ=tc.circ)
    mine = ClassicalRegister(1, "mine")
    rig.circ.add_register(mine)
    rig.m.run()
    ideal, seen = lib.Ideal(n), lib.Span()
    arg = [treg[j] if case["obj"] else j for j in index]
    dead, last = [False] * n, [None] * n
    todo = [["reset", i, b] for i, b in enumerate(case["start"])] + case["ops"]
    cxs = reads = 0
    for step, op in enumerate(todo):
        i = op[1]
        what = "call %d %s" % (step, op)
        tc = tcs[step % len(tcs)]
        if rival is not None and step % 4 == 3:
            rig.call(rival.cx, 0, 1)
        kind = op[0]
        partner = None
        if kind == "cx":
            if n < 2:
                continue
            partner = (i + 1 + op[2] % (n - 1)) % n
        for j in (i, partner):
            if j is not None and dead[j] and kind != "reset":  # a full-lattice readout consumes the qubit
                rig.call(tc.reset_z, arg[j])
                ideal.reset(j, "Z")
                dead[j] = False
        if kind == "reset":
            rig.call(tc.reset_x if op[2] == "X" else tc.reset_z, arg[i])
            ideal.reset(i, op[2])
            dead[i] = False
        elif kind == "gate":
            rig.call(tc.x if op[2] == "X" else tc.z, arg[i])
            ideal.gate(op[2], i)
        elif kind == "stab":
            reg = rig.one_creg(sum(lib.nsyn(specs[i])), tc.stabilize, arg[i])
            last[i] = rig.bits(reg)
            for e in last[i]:
                seen.add(e)
        elif kind == "id":
            rig.call(tc.id if step % 2 else tc.id_data, arg[i])
        elif kind == "cx":
            cxs += 1
            if anc is not None and not pre:
                rig.call(tc.cx, arg[i], arg[partner], ancilla_ctype=anc["code"], ancilla_params=lib.params_of(anc))
            else:
                rig.call(tc.cx, arg[i], arg[partner])
            ideal.gate("cx", i, partner)
            for r in rig.circ.cregs:  # whatever was recorded on the way
                for e in rig.bits(r):
                    seen.add(e)
        elif kind == "read":
            f = tc.measure_x if op[2] == "X" else tc.measure_z
            if op[3]:
                require(not rig.call(f, arg[i], readout_creg=mine), "%s into a given register added another", what)
                e = rig.bits(mine)[0]
            else:
                e = rig.bits(rig.one_creg(1, f, arg[i]))[0]
            ideal.observe([(i, op[2])], e, seen, what)
            reads += 1
        elif kind == "lattice":
            h, w = lib.dims(specs[i])
            reg = rig.one_creg(h * w, tc.measure_lattice_x if op[2] == "X" else tc.measure_lattice_z, arg[i])
            bits = rig.bits(reg)
            e = 0
            for d, _ in model.logical(specs[i]["code"], op[2], h, w):
                e ^= bits[d]
            for a in case["asg"]:
                m = sum(lib.nsyn(specs[i]))
                prev = lib.eval_bits(last[i], a) if last[i] is not None else [0] * m
                v, _ = tc.parse_readout(arg[i], lib.readout_string([prev], lib.eval_bits(bits, a)), op[2])
                require(v == evaluate(e, a), "%s: parsed logical value %s, expected %s", what, v, evaluate(e, a))
            ideal.observe([(i, op[2])], e, seen, what)
            for x in bits:
                seen.add(x)
            dead[i], last[i] = True, None
            reads += 1
    for i in range(n):
        if not dead[i]:
            h, w = lib.dims(specs[i])
            for b in "XZ":
                e = ideal.t.expectation(ideal.pauli([(i, b)]))
                f = rig.tab.expectation(rig.pauli(treg[index[i]], model.logical(specs[i]["code"], b, h, w)))
                if e is None and f is not None:
                    # the real run is one unravelling: what a reset of an entangled partner discarded may fix it,
                    # but nothing recorded may
                    require(seen.reduce(f) != 0, "final logical %s of qubit %d is fixed to %s, ideal random", b, i, f)
                else:
                    require(e == f, "final logical %s of qubit %d is %s, ideal %s", b, i, f, e)
    labels = ["wraps=%d" % case["wraps"], "rival" if rival else "alone", "n=%d" % n, "cx=%d" % min(cxs, 4), "ancilla:" + ("own" if pre else "chosen" if anc else "default")]
    return cxs >= 1 and reads >= 2, labels


PARTS = [Part("programs", lambda tier: cases(tier), check, 2000, 16000),
         Part("long", lambda tier: cases(tier, True), check, 48, 800)]
