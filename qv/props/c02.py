"""C02: any call history on one topological qubit refines one ideal qubit."""
from hypothesis import strategies as st
from qiskit import ClassicalRegister, QuantumRegister

from qv import lib, model
from qv.core import Part, require
from qv.sim import evaluate

ID = "C02"
RULE = (
    "Case = lattice plus a sequence of calls (logical resets, X, Z, conditioned X/Z, CX with a physical qubit, stabilize, id, "
    "id_data, readouts into own or supplied registers, full-lattice readouts). All random outcomes are symbolic, "
    "so each case covers every branch of its history. Non-trivial = at least two readouts with a gate, round or "
    "reset between them."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


def ops(min_size, max_size):
    b = st.sampled_from("XZ")
    op = st.one_of(
        st.tuples(st.just("reset"), b),
        st.tuples(st.just("gate"), b),
        st.tuples(st.just("gate"), b),
        st.tuples(st.just("stab")),
        st.tuples(st.just("id")),
        st.tuples(st.just("id_data")),
        st.tuples(st.just("read"), b, st.integers(-1, 2)),
        st.tuples(st.just("read"), b, st.integers(-1, 2)),
        st.tuples(st.just("cond"), b, st.integers(0, 5), st.integers(0, 1)),
        st.tuples(st.just("read"), b, st.integers(-1, 2)),
        st.tuples(st.just("gate"), b),
        st.tuples(st.just("stab")),
        st.tuples(st.just("lattice"), b),
        st.tuples(st.just("cx"), st.sampled_from(["control", "target"]), st.sampled_from(["", "h", "x", "reset"])),
    ).map(list)
    return st.lists(op, min_size=min_size, max_size=max_size)


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    spec = draw(lib.specs(9 if big else 7, 63 if big else 35))
    # long histories on purpose: hypothesis favours short lists
    k = draw(st.sampled_from([6, 12, 20, 40 if lib.ndata(spec) <= 25 else 20] + ([80] if big else [])))
    return {"spec": spec, "ops": draw(ops(k // 2, k)), "asg": draw(lib.assignments(3))}


@st.composite
def short_cases(draw, tier):
    """Every few calls in a row on a small qubit, then a readout."""
    b = st.sampled_from("XZ")
    past = draw(ops(3, 4))
    return {"spec": draw(lib.specs(3, 9, long=3)), "ops": [["reset", draw(b)]] * draw(st.integers(0, 1)) + past + [["read", draw(b), -1]] * draw(st.sampled_from([1, 1, 2])),
            "asg": draw(lib.assignments(1))}


@st.composite
def long_cases(draw, tier):
    """Many rounds and many readouts of one small qubit, mostly into registers of its own."""
    spec = draw(lib.specs(3, 9))
    b = st.sampled_from("XZ")
    op = st.one_of(
        st.tuples(st.just("stab")), st.tuples(st.just("stab")),
        st.tuples(st.just("read"), b, st.just(-1)), st.tuples(st.just("read"), b, st.just(-1)),
        st.tuples(st.just("gate"), b), st.tuples(st.just("reset"), b),
        st.tuples(st.just("cond"), b, st.integers(0, 30), st.integers(0, 1)),
        st.tuples(st.just("lattice"), b),
    ).map(list)
    n = draw(st.sampled_from([40, 60, 90]))
    return {"spec": spec, "ops": draw(st.lists(op, min_size=n - 10, max_size=n)), "asg": draw(lib.assignments(1))}


@st.composite
def again_cases(draw, tier):
    """A few kinds of calls, each very often."""
    spec = draw(lib.specs(3, 9, long=0))
    b = st.sampled_from("XZ")
    kinds = draw(st.lists(st.sampled_from([["gate", "X"], ["gate", "Z"], ["cond", "X"], ["cond", "Z"], ["reset", "X"], ["reset", "Z"], ["stab"], ["id"], ["id_data"],
                                           ["read", "X", -1], ["read", "Z", -1], ["read", "X", 0], ["read", "Z", 0]]), min_size=1, max_size=3))
    n = draw(st.sampled_from([30, 60, 100]))
    out = [["reset", draw(b)], ["read", draw(b), draw(st.integers(-1, 0))]]
    for k in draw(st.lists(st.integers(0, len(kinds) - 1), min_size=n, max_size=n)):
        op = list(kinds[k])
        out.append(op + [draw(st.integers(0, 3)), draw(st.integers(0, 1))] if op[0] == "cond" else op)
    return {"spec": spec, "ops": out + [["read", draw(b), -1]], "asg": draw(lib.assignments(1))}


@st.composite
def large_cases(draw, tier):
    return {"spec": draw(lib.large_specs(169 if tier == "thorough" else 121)), "ops": draw(ops(4, 10)), "asg": draw(lib.assignments(2))}


def check(case):
    spec = case["spec"]
    code = spec["code"]
    h, w = lib.dims(spec)
    rig = lib.Rig()
    shared = ClassicalRegister(1, "mine0"), ClassicalRegister(1, "mine1"), ClassicalRegister(1, "mine2")
    q = rig.add(spec)
    rig.circ.add_register(*shared)
    nx, nz = lib.nsyn(spec)
    ideal = lib.Ideal(2)  # with a physical qubit
    partner = QuantumRegister(1, "partner")
    rig.circ.add_register(partner)
    rig.m.run()
    # a fresh circuit has all data qubits in |0>; only after a reset is the logical state the code's
    # own |0_L> for every code, so histories start with one
    todo = [["reset", "Z"]] + case["ops"] if case["ops"][0][0] != "reset" else case["ops"]
    seen = lib.Span()
    reads, dead, last = [], False, None
    readouts, between, nontrivial = 0, False, False
    for step, op in enumerate(todo):
        what = "call %d %s" % (step, op)
        kind = op[0]
        if dead and kind != "reset":  # a full-lattice readout consumes the qubit
            b = "XZ"[step % 2]
            rig.call(q.reset_x if b == "X" else q.reset_z)
            ideal.reset(0, b)
            dead = False
        if kind == "reset":
            require(not rig.call(q.reset_x if op[1] == "X" else q.reset_z), "%s added a register", what)
            ideal.reset(0, op[1])
            dead = False
        elif kind == "gate":
            require(not rig.call(q.x if op[1] == "X" else q.z), "%s added a register", what)
            ideal.gate(op[1], 0)
        elif kind == "cond":
            if not reads:
                continue
            reg, val = reads[op[2] % len(reads)], op[3]
            e = rig.bits(reg)[0]
            rig.call(q.x_c_if if op[1] == "X" else q.z_c_if, reg, val)
            ideal.gate(op[1], 0, expr=e ^ val ^ 1)
        elif kind == "cx":
            if op[2] == "reset":
                ideal.reset(1)
            elif op[2]:
                ideal.gate({"h": "h", "x": "X"}[op[2]], 1)
            if op[2]:
                rig.call(getattr(rig.circ, op[2]), partner[0])
            require(not rig.call(q.cx, **{op[1]: partner[0]}), "%s added a register", what)
            ideal.gate("cx", *((1, 0) if op[1] == "control" else (0, 1)))
        elif kind == "stab":
            reg = rig.one_creg(nx + nz, q.stabilize)
            last = rig.bits(reg)
            for e in last:
                seen.add(e)
        elif kind in ("id", "id_data"):
            require(not rig.call(getattr(q, kind)), "%s added a register", what)
        elif kind == "read":
            f = q.readout_x if op[1] == "X" else q.readout_z
            if op[2] < 0:
                reg = rig.one_creg(1, f)
            else:
                reg = shared[op[2]]
                require(not rig.call(f, readout_creg=reg), "%s into a given register added another", what)
            ideal.observe([(0, op[1])], rig.bits(reg)[0], seen, what)
            if reg not in reads:
                reads.append(reg)
            readouts += 1
            nontrivial = nontrivial or (readouts > 1 and between)
            between = False
            continue
        elif kind == "lattice":
            reg = rig.one_creg(h * w, q.lattice_readout_x if op[1] == "X" else q.lattice_readout_z)
            bits = rig.bits(reg)
            e = 0
            for i, _ in model.logical(code, op[1], h, w):
                e ^= bits[i]
            for a in case["asg"]:
                prev = lib.eval_bits(last, a) if last is not None else [0] * (nx + nz)
                s = lib.readout_string([prev], lib.eval_bits(bits, a))
                v, _ = q.parse_readout(s, op[1])
                require(
                    v == evaluate(e, a),
                    "%s: parsed logical value %s, the data bits along the logical operator give %s",
                    what, v, evaluate(e, a),
                )
            ideal.observe([(0, op[1])], e, seen, what)
            for x in bits:
                seen.add(x)
            dead, last = True, None
            readouts += 1
            nontrivial = nontrivial or (readouts > 1 and between)
        between = True
    # the logical state at the end, too
    if not dead:
        for b in "XZ":
            p = ideal.pauli([(0, b)])
            e = ideal.t.expectation(p)
            f = rig.tab.expectation(rig.pauli(q, model.logical(code, b, h, w)))
            # a reset in the machine leaves a hidden coin where the ideal qubit is simply open
            require(e == f or e is None and f is not None and seen.reduce(f) != 0, "final logical %s is %s, ideal %s", b, f, e)
    labels = [code, "%dx%d" % (h, w), "readouts=%d" % min(readouts, 4), "len>=10" if len(todo) >= 10 else "len<10"]
    return nontrivial, labels


PARTS = [Part("histories", lambda tier: cases(tier), check, 6000, 60000),
         Part("short", lambda tier: short_cases(tier), check, 8000, 60000),
         Part("large", lambda tier: large_cases(tier), check, 64, 600),
         Part("long", lambda tier: long_cases(tier), check, 240, 4000),
         Part("again", lambda tier: again_cases(tier), check, 300, 4000)]
