"""C19: registers and circuits address the requested qubit."""
import copy

from hypothesis import strategies as st
from qiskit import ClassicalRegister, QuantumCircuit
from qtcodes import TopologicalCircuit, TopologicalRegister, XXZZQubit, XZZXQubit, RepetitionQubit

from qv import lib, model
from qv.core import Part, Violation, require

ID = "C19"
RULE = (
    "Case = a register built by a sequence of additions to sub-registers (some of them illegal) and a program on the circuit's "
    "qubits by index or object, compared with a twin circuit on which the same calls are made on the qubits themselves. "
    "Non-trivial = at least three qubits, in at least two sub-registers or with a rejected addition."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]

NAMES = ["data", "ancilla", "extra", "a", "b"]
TYPES = {"XXZZ": XXZZQubit, "XZZX": XZZXQubit, "Repetition": RepetitionQubit}
OPS = ["reset_x", "reset_z", "x", "z", "stabilize", "stabilize", "id", "id_data", "measure_x", "measure_z",
       "measure_lattice_x", "measure_lattice_z", "measure_x_into", "measure_z_into"]
TWIN = {"measure_x": "readout_x", "measure_z": "readout_z", "measure_lattice_x": "lattice_readout_x",
        "measure_lattice_z": "lattice_readout_z"}


@st.composite
def cases(draw, tier):
    spec = lib.specs(5, 15)
    first = draw(st.lists(spec, max_size=3))
    adds = []
    for _ in range(draw(st.integers(0, 5))):
        kind = draw(st.sampled_from(["add", "add", "one", "short", "long", "unknown", "nothing", "one unknown", "one bad"]))
        lst = draw(st.lists(spec, min_size=0 if kind == "nothing" else 1, max_size=1 if kind.startswith("one") else 3))
        if kind == "nothing":
            lst = []
        adds.append([kind, draw(st.sampled_from(NAMES)), lst, draw(st.integers(0, 2)),
                     draw(st.sampled_from(["xxzz", "Surface", "XXZZQubit", "", "Rep"]))])
    n = draw(st.sampled_from([3, 8, 16]))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 30), st.booleans()).map(list), min_size=n // 2, max_size=n))
    probes = draw(st.lists(st.tuples(st.sampled_from(["int", "str"]), st.integers(-4, 30)).map(list), max_size=4))
    return {"first": first, "adds": adds, "ops": ops, "probes": probes, "given": draw(st.booleans()),
            "name": draw(st.sampled_from(["treg", "alice"])), "rival": draw(st.booleans()), "s": draw(st.integers(0, 1 << 120))}


@st.composite
def crowd_cases(draw, tier):
    """More than ten small qubits in several additions."""
    tiny = lib.specs(3, 3)
    chunk = lambda k: [draw(tiny) for _ in range(k)]
    adds = []
    for _ in range(draw(st.integers(2, 4))):
        adds.append(["add", draw(st.sampled_from(NAMES)), chunk(draw(st.integers(2, 4))), 0, ""])
    n = draw(st.integers(3, 8))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.one_of(st.integers(0, 19), st.sampled_from([1, 10, 11])), st.booleans()).map(list), min_size=3, max_size=n))
    probes = draw(st.lists(st.tuples(st.sampled_from(["int", "str"]), st.integers(-4, 4)).map(list), max_size=2))
    return {"first": chunk(draw(st.integers(3, 6))), "adds": adds, "ops": ops, "probes": probes, "given": draw(st.booleans()), "name": "treg",
            "rival": False, "s": draw(st.integers(0, 1 << 120))}


def snapshot(treg):
    c = treg.circ
    return (
        {k: {i: id(q) for i, q in v.items()} for k, v in treg.tqubits.items()}, treg.n, copy.deepcopy(treg.params),
        list(c.qregs), list(c.cregs), len(c.data), c.num_qubits, c.num_clbits,
    )


def rejected(treg, what, fn, kind=Exception):
    before = snapshot(treg)
    try:
        fn()
    except kind:
        pass
    except Exception as e:
        raise Violation("%s raised %r" % (what, e))
    else:
        raise Violation("%s was accepted" % what)
    require(snapshot(treg) == before, "%s changed the register or its circuit", what)


def build(case, twin):
    circ = QuantumCircuit() if case["given"] else None
    kw = {} if case["name"] == "treg" else {"name": case["name"]}
    if circ is not None:
        kw["circ"] = circ
    first = case["first"]
    if first:
        treg = TopologicalRegister(ctypes=[s["code"] for s in first], params=[lib.params_of(s) for s in first], **kw)
    else:
        treg = TopologicalRegister(**kw)
    if circ is not None:
        require(treg.circ is circ, "the register does not use the circuit it was given")
    members = [("data", s) for s in first]
    bad = 0
    for kind, sub, lst, k, wrong in case["adds"]:
        types, params = [s["code"] for s in lst], [lib.params_of(s) for s in lst]
        if kind in ("add", "nothing"):
            if kind == "nothing":
                treg.add_tqubits(sub)
            else:
                treg.add_tqubits(sub, types, params)
            members += [(sub, s) for s in lst]
        elif kind == "one":
            treg.add_tqubit(sub, types[0], params[0])
            members.append((sub, lst[0]))
        elif twin:
            continue
        else:
            bad += 1
            if kind == "short":
                rejected(treg, "add_tqubits with too few parameters", lambda: treg.add_tqubits(sub, types, params[:-1] or None), ValueError)
            elif kind == "long":
                rejected(treg, "add_tqubits with too few types", lambda: treg.add_tqubits(sub, types[:-1], params), ValueError)
            elif kind == "one unknown":
                rejected(treg, "add_tqubit with type %r" % wrong, lambda: treg.add_tqubit(sub, wrong, params[0]))
            elif kind == "one bad":
                d = [2, (3, 4), -1][k]
                rejected(treg, "add_tqubit with distance %s" % (d,), lambda: treg.add_tqubit(sub, types[0], {"d": d}))
            else:
                t = list(types)
                t[k % len(t)] = wrong
                rejected(treg, "add_tqubits with type %r" % wrong, lambda: treg.add_tqubits(sub, t, params), ValueError)
    return treg, members, bad


def check(case):
    treg, members, bad = build(case, False)
    ref, ref_members, _ = build(case, True)
    if case["rival"]:  # another register on the same circuit, filled and used in between
        rivals = []
        for r in (treg, ref):
            other = TopologicalRegister(circ=r.circ, name="rival")
            other.add_tqubits("data", ["XXZZ", "Repetition"], [{"d": (1, 3)}, {"d": 3}])
            rivals.append(other)
        require(rivals[0].n == 2 and treg.n == len(members), "registers on one circuit count %d and %d qubits", treg.n, rivals[0].n)
    n = len(members)
    require(treg.n == n, "register counts %s qubits, %d were added", treg.n, n)
    objs = [treg[i] for i in range(n)]
    require(len({id(o) for o in objs}) == n, "two indices give the same qubit")
    for i, (sub, s) in enumerate(members):
        require(type(objs[i]) is TYPES[s["code"]], "qubit %d is a %s, a %s was added", i, type(objs[i]).__name__, s["code"])
        require(tuple(objs[i].lattice.params["d"]) == lib.dims(s), "qubit %d has shape %s, %s was added", i, objs[i].lattice.params["d"], lib.dims(s))
        require(objs[i].circ is treg.circ, "qubit %d is not on the register's circuit", i)
        require(len(lib.data_qubits(objs[i])) == lib.ndata(s), "qubit %d has %d data qubits", i, len(lib.data_qubits(objs[i])))
    for sub in sorted({m[0] for m in members}):
        got = treg[sub]
        want = [i for i, m in enumerate(members) if m[0] == sub]
        require(sorted(got) == want and all(got[i] is objs[i] for i in want), "sub-register %r holds %s, expected %s", sub, sorted(got), want)
    seen = [b for o in objs for b in lib.own_qubits(o)]
    if case["rival"]:
        seen += [b for i in range(2) for b in lib.own_qubits(rivals[0][i])]
    require(len(set(seen)) == len(seen) == treg.circ.num_qubits, "the qubits' physical qubits are not disjoint")
    # keys that do not exist
    subs = {m[0] for m in members}
    for kind, k in case["probes"]:
        if kind == "int":
            key = k if k < 0 else n + k
        else:
            key = ["nope", "dat", "Data", "0"][k % 4]
            if key in subs:
                continue
        rejected(treg, "index %r" % (key,), lambda: treg[key])
        tc0 = TopologicalCircuit(treg)
        if kind == "int":
            rejected(treg, "an operation on qubit %r" % (key,), lambda: tc0.x(key))
    if not n:
        return False, ["n=0"]
    # operations, against the twin
    tc = TopologicalCircuit(treg)
    require(tc.circ is treg.circ, "the topological circuit is not on its register's circuit")
    a = lib.Rig(circ=treg.circ)
    b = lib.Rig(circ=ref.circ)
    mine_a, mine_b = ClassicalRegister(1, "mine"), ClassicalRegister(1, "mine")
    a.circ.add_register(mine_a)
    b.circ.add_register(mine_b)
    a.m.run()
    b.m.run()
    ea, eb = [], []
    for step, (op, i, by_obj) in enumerate(case["ops"]):
        i %= n
        if case["rival"] and step % 3 == 1:  # same index, other register
            k = i % 2
            a.call(getattr(TopologicalCircuit(rivals[0]), "stabilize"), k)
            b.call(rivals[1][k].stabilize)
        before = [copy.deepcopy(o.lattice.params) for o in objs]
        arg = objs[i] if by_obj else i
        q = ref[i]
        if op.endswith("_into"):
            a.call(getattr(tc, op[:-5]), arg, readout_creg=mine_a)
            b.call(getattr(q, TWIN[op[:-5]]), readout_creg=mine_b)
            ra, rb = [mine_a], [mine_b]
        else:
            ra = a.call(getattr(tc, op), arg)
            rb = b.call(getattr(q, TWIN.get(op, op)))
        require([(r.name, r.size) for r in ra] == [(r.name, r.size) for r in rb], "step %d: %s(%d) added registers %s, the qubit's own call adds %s", step, op, i, ra, rb)
        for x, y in zip(ra, rb):
            ea += a.bits(x)
            eb += b.bits(y)
        for j, o in enumerate(objs):
            if j != i:
                require(o.lattice.params == before[j], "step %d: %s(%d) changed the parameters of qubit %d", step, op, i, j)
        count = lambda rig: sorted((x.operation.name, tuple(sorted(rig.m.q(z) for z in x.qubits))) for x in rig.circ.data if x.operation.name == "id")
        if op.startswith("id"):
            require(count(a) == count(b), "step %d: %s(%d) marks other qubits than the qubit's own call", step, op, i)
    require(lib.signature(ea) == lib.signature(eb), "the records differ from those of the calls on the qubits themselves")
    lib.same_state(a.tab, b.tab, "the final state differs from that of the calls on the qubits themselves")
    # parsing
    s = case["s"]
    for i, o in enumerate(objs):
        h, w = lib.dims(members[i][1])
        m = sum(lib.nsyn(members[i][1]))
        bits = [(s >> (k * 7 % 120)) & 1 for k in range(m * 3 + h * w)]
        rounds = [bits[:m], bits[m:2 * m], bits[2 * m:3 * m]]
        for text, types in ((lib.readout_string(rounds, bits[:1]), "XZ"), (lib.readout_string(rounds, bits[3 * m:]), "XZ")):
            for t in types:
                want = o.parse_readout(text, t)
                for arg in (i, o):
                    got = tc.parse_readout(arg, text, t)
                    require(got[0] == want[0] and lib.norm_hits(got[1]) == lib.norm_hits(want[1]), "parse_readout(%d, %r, %s) differs from the qubit's", i, text, t)
    return n >= 3 and (len(subs) > 1 or bad > 0), ["n=%d" % min(n, 12), "subs=%d" % len(subs), "rejected" if bad else "legal"]


@st.composite
def reg_cases(draw, tier):
    call = st.fixed_dictionaries({
        "kind": st.sampled_from(["creg", "qreg"]), "size": st.integers(1, 5), "name": st.sampled_from(["m1", "c", "mine", "cnot_readout", "treg_0_data", "x1"]),
        "override": st.sampled_from([None, False, False, True]), "tc": st.integers(0, 2), "bits": st.sampled_from([False, False, False, True]),
    })
    return {"calls": draw(st.lists(call, min_size=1, max_size=8)), "cx": draw(st.integers(0, 3))}


def check_regs(case):
    """add_creg / add_qreg of topological circuits that share one quantum circuit."""
    circ = QuantumCircuit()
    tregs = [TopologicalRegister(circ=circ, name=x, ctypes=["XXZZ", "XXZZ"], params=[{"d": (3, 1)}, {"d": (3, 1)}]) for x in ("treg", "bob")]
    tcs = [TopologicalCircuit(tregs[0]), TopologicalCircuit(tregs[0]), TopologicalCircuit(tregs[1])]
    held = [{}, {}, {}]
    clash = 0
    for k, c in enumerate(case["calls"]):
        if case["cx"] & 1 and k % 3 == 1:
            t = tcs[c["tc"]]
            before = {kind: dict(getattr(t, kind)) for kind in ("creg", "qreg")}
            t.cx(0, 1)
            for kind, was in before.items():
                now = getattr(t, kind)
                require(all(now.get(n) is r for n, r in was.items()), "call %d: a gate replaced registers of its circuit", k)
                held[c["tc"]].update({(kind, n): r for n, r in now.items()})
        t, kind, name = tcs[c["tc"]], c["kind"], c["name"]
        q0, c0 = list(circ.qregs), list(circ.cregs)
        pool = circ.clbits if kind == "creg" else circ.qubits
        kw = {} if c["override"] is None else {"override": c["override"]}
        bits = None
        # (not for the name the gate uses for its own scratch qubit: that would hand it a qubit of one of its operands)
        if c["bits"] and name != "cnot_readout" and len(pool) >= c["size"]:
            bits = list(pool[-c["size"]:])
            kw["bits"] = bits
        else:
            kw["size"] = c["size"]
        n0 = len(pool)
        taken = name in [r.name for r in q0 + c0]
        getattr(t, "add_" + kind)(name=name, **kw)
        q1, c1 = list(circ.qregs), list(circ.cregs)
        new = [r for r in q1 if r not in q0] + [r for r in c1 if r not in c0]
        key = (kind, name)
        if key in held[c["tc"]] and not c["override"]:
            require(not new and getattr(t, kind)[name] is held[c["tc"]][key], "call %d: adding %s %r again changed it", k, kind, name)
        else:
            require(len(new) == 1 and (q1[len(q0):] if kind == "qreg" else c1[len(c0):]) == new, "call %d: adding %s %r added registers %s", k, kind, name, new)
            reg = new[0]
            require(getattr(t, kind)[name] is reg and reg.size == c["size"], "call %d: %s[%r] is %s", k, kind, name, getattr(t, kind).get(name))
            require(taken or reg.name == name, "call %d: the register is named %r, not %r", k, reg.name, name)
            require(bits is None or list(reg) == bits, "call %d: the register does not hold the given bits", k)
            require(len(circ.clbits if kind == "creg" else circ.qubits) == n0 + (0 if bits is not None else c["size"]), "call %d: bits added", k)
            held[c["tc"]][key] = reg
            clash += taken
        for t2, h in zip(tcs, held):
            require({("creg", n): id(r) for n, r in t2.creg.items()} | {("qreg", n): id(r) for n, r in t2.qreg.items()} == {x: id(r) for x, r in h.items()},
                    "call %d: registers of another topological circuit changed", k)
    return len(case["calls"]) >= 3 and clash > 0, ["clash" if clash else "free"]


PARTS = [
    Part("register", lambda tier: cases(tier), check, 1000, 8000),
    Part("crowd", lambda tier: crowd_cases(tier), check, 120, 1000),
    Part("named", lambda tier: reg_cases(tier), check_regs, 300, 2000),
]
