"""C21: logical CX is an exact CNOT (complete, on Bell-referenced logical inputs)."""
from hypothesis import strategies as st
from qtcodes import TopologicalCircuit, TopologicalRegister

from qv import lib, model
from qv.core import Part, Violation, require
from qv.sim import Pauli

ID = "C21"
RULE = (
    "Case = 2-3 logical qubits of any code and shape, each maximally entangled with a reference qubit (so that every input "
    "state is covered), ancilla choice, and 1-5 consecutive CX gates with optional rounds and gates in between; random "
    "outcomes are symbolic. Non-trivial = different codes or shapes take part, or at least two CX gates."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier, long=False):
    big = tier == "thorough"
    n = draw(st.sampled_from([2, 2, 2, 3])) if not long else draw(st.integers(2, 4))
    spec = lib.specs(3, 3) if long else lib.specs(7 if big else 5, 25 if big else 15) if n == 2 else lib.specs(3, 9)
    return {
        "specs": [draw(spec) for _ in range(n)],
        "ancilla": draw(st.one_of(st.none(), lib.specs(5, 15))),
        "where": draw(st.sampled_from(["argument", "register"])),
        "obj": draw(st.booleans()),
        "gates": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 1), st.sampled_from(["", "", "stab", "X", "Z", "id", "id_data", "readout_x", "readout_z"]), st.integers(0, n - 1)).map(list),
                               min_size=8 if long else 1, max_size=16 if long else 5)),
        "rounds": draw(st.integers(1, 2)),
        "earlier": draw(st.lists(st.tuples(st.integers(0, n - 1), lib.calls(2)).map(list), max_size=2)),
        "bad": draw(st.lists(st.tuples(st.integers(0, 4), st.sampled_from(["type", "even", "negative", "type only", "params only", "index", "index"])).map(list), max_size=2)),
    }


@st.composite
def large_cases(draw, tier):
    """One CX between qubits of which at least one is large."""
    specs = [draw(lib.large_specs(121)), draw(st.one_of(lib.specs(3, 9), lib.large_specs(63)))]
    if draw(st.booleans()):
        specs.reverse()
    return {"specs": specs, "ancilla": draw(st.one_of(st.none(), lib.specs(3, 9), lib.large_specs(63))), "where": draw(st.sampled_from(["argument", "register"])),
            "obj": draw(st.booleans()), "gates": [[draw(st.integers(0, 1)), 0, "", 0]], "rounds": 1}


def check(case):
    specs = case["specs"]
    n = len(specs)
    treg = TopologicalRegister(ctypes=[s["code"] for s in specs], params=[lib.params_of(s) for s in specs])
    anc = case["ancilla"]
    if anc is not None and case["where"] == "register":
        treg.add_tqubits("ancilla", [anc["code"]], [lib.params_of(anc)])
    tc = TopologicalCircuit(treg)
    rig = lib.Rig(circ=tc.circ, extra=n)
    rig.m.run()
    qs = [treg[i] for i in range(n)]
    past = {i: lib.Past(rig, qs[i]) for i in sorted({i for i, _ in case.get("earlier", [])})}
    for i, ops in case.get("earlier", []):
        past[i].do(ops)
    for i, s in enumerate(specs):
        rig.call(tc.reset_z, i)
        for _ in range(case["rounds"]):
            rig.call(tc.stabilize, i)
    L = [{b: model.logical(s["code"], b, *lib.dims(s)) for b in "XZ"} for s in specs]

    def joint(terms):
        """Pauli on references (index < n) and logical qubits (n + i); one letter at a time."""
        out = []
        for k, b in terms:
            if k < n:
                out.append((k, b))
            else:
                d = rig.idx(lib.data_qubits(qs[k - n]))
                out += [(d[j], p) for j, p in L[k - n][b]]
        return Pauli(rig.tab.n, out)

    # Bell pairs between reference i and logical qubit i
    ideal = lib.Ideal(2 * n)
    for i in range(n):
        e, _ = rig.tab.measure(joint([(i, "X"), (n + i, "X")]))
        ideal.t.measure(ideal.pauli([(i, "X"), (n + i, "X")]), force=e)
        require(rig.tab.expectation(joint([(i, "Z"), (n + i, "Z")])) == 0, "reset_z does not give logical 0")

    def plaquettes():
        out = []
        for q, s in zip(qs, specs):
            st_ = model.stabilizers(s["code"], *lib.dims(s))
            out.append([rig.tab.expectation(rig.pauli(q, t)) for k in "XZ" for t in st_[k]])
        return out

    def same(what):
        for x, z, e in ideal.t.canonical():
            terms_x = [(k, "X") for k in range(2 * n) if (x >> (ideal.t.n - 1 - k)) & 1]
            terms_z = [(k, "Z") for k in range(2 * n) if (z >> (ideal.t.n - 1 - k)) & 1]
            if terms_x and terms_z:
                raise AssertionError("expected a CSS state")
            got = rig.tab.expectation(joint(terms_x or terms_z))
            require(got == e, "%s: %s is %s, after an exact CNOT it is %s", what,
                    [("ref" if k < n else "log") + str(k % n) + b for k, b in terms_x or terms_z],
                    "random" if got is None else lib.describe(got), lib.describe(e))

    def rejected(what, *args, **kw):
        state = lambda: (len(tc.circ.data), list(tc.circ.qregs), list(tc.circ.cregs), treg.n, {k: list(v) for k, v in treg.tqubits.items()}, sorted(tc.qreg), sorted(tc.creg))
        was = state()
        try:
            tc.cx(*args, **kw)
        except Exception:
            require(state() == was, "a rejected CX (%s) changed the circuit or register", what)
        else:
            raise Violation("a CX with %s was accepted" % what)

    before, seen = plaquettes(), lib.Span()
    require(all(v is not None for p in before for v in p), "plaquettes not projected by a round")
    same("before any CX")
    for step, (c, t, extra, who) in enumerate(case["gates"]):
        t = (c + 1 + t % (n - 1)) % n
        a = (qs[c], qs[t]) if case["obj"] else (c, t)
        for at, what in case.get("bad", []):
            if at != step or (what in ("type", "even", "negative") and "ancilla" in treg.tqubits):
                continue  # an ancilla that is there already is used, whatever is asked for
            kw = {"type": {"ancilla_ctype": "xxzz", "ancilla_params": {"d": 3}}, "even": {"ancilla_ctype": "XXZZ", "ancilla_params": {"d": (3, 4)}},
                  "negative": {"ancilla_ctype": "XZZX", "ancilla_params": {"d": -3}}, "type only": {"ancilla_ctype": "XXZZ"},
                  "params only": {"ancilla_params": {"d": 3}}}.get(what, {})
            rejected(what, *((c, treg.n + 1) if what == "index" and step % 2 else (treg.n, t) if what == "index" else a), **kw)
        if anc is not None and case["where"] == "argument":
            rig.call(tc.cx, *a, ancilla_ctype=anc["code"], ancilla_params=lib.params_of(anc))
        else:
            rig.call(tc.cx, control=a[0], target=a[1])
        ideal.gate("cx", n + c, n + t)
        same("CX number %d (%d -> %d)" % (step + 1, c, t))
        require(plaquettes() == before, "CX number %d changed plaquette values", step + 1)
        if extra == "stab":
            reg = rig.one_creg(sum(lib.nsyn(specs[who])), tc.stabilize, who)
            vals = dict(zip("XZ", (before[who][: lib.nsyn(specs[who])[0]], before[who][lib.nsyn(specs[who])[0] :])))
            require(rig.bits(reg) == vals["Z"] + vals["X"], "round after CX number %d reports changed plaquettes", step + 1)
        elif extra in ("X", "Z"):
            rig.call(tc.x if extra == "X" else tc.z, who)
            ideal.gate(extra, n + who)
        elif extra.startswith("id"):
            rig.call(getattr(tc, extra), who)
        elif extra.startswith("readout"):
            b = extra[-1].upper()
            e = rig.bits(rig.one_creg(1, getattr(tc, "measure_" + extra[-1]), who))[0]
            ideal.observe([(n + who, b)], e, seen, "readout after CX number %d" % (step + 1))
    same("at the end")
    kinds = {(s["code"], tuple(s["d"])) for s in specs}
    labels = ["+".join(sorted(s["code"] for s in specs)), "ancilla:" + (anc["code"] if anc else "default"), "cx=%d" % len(case["gates"])]
    return len(kinds) > 1 or len(case["gates"]) > 1, labels


def _fixed():
    for a in lib.CODES:
        for b in lib.CODES:
            da = [3, 1] if a == "Repetition" else [3, 3]
            db = [1, 3] if b == "Repetition" else [3, 3]
            yield {"specs": [{"code": a, "d": da}, {"code": b, "d": db}], "ancilla": None, "where": "argument", "obj": False,
                   "gates": [[0, 0, "stab", 0], [1, 0, "", 0], [0, 0, "stab", 1]], "rounds": 1}


PARTS = [Part("tomography", lambda tier: cases(tier), check, 1200, 10000, fixed=list(_fixed())),
         Part("large", lambda tier: large_cases(tier), check, 40, 400),
         Part("long", lambda tier: cases(tier, long=True), check, 120, 2000)]
