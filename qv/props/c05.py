"""C05: a full-lattice readout parses to the logical value plus one more perfect round of its type."""
from hypothesis import strategies as st
from qtcodes import TopologicalRegister, TopologicalCircuit

from qv import lib, model
from qv.core import Part, require
from qv.sim import evaluate

ID = "C05"
RULE = (
    "Case = lattice, basis, start (prepared state or completely unknown state), 1-5 rounds with data-qubit Pauli "
    "errors before each and before the readout, coin assignments. Non-trivial = at least one error and two rounds, "
    "or an unknown input state."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier, large=False, long=False, short=False):
    big = tier == "thorough"
    spec = draw(lib.large_specs(169 if big else 121) if large else lib.specs(3, 9, long=3) if short else lib.specs(5, 9, long=0) if long else lib.specs(9 if big else 7, 63 if big else 35))
    n = lib.ndata(spec)
    rounds = draw(st.integers(12, 70)) if long else draw(st.sampled_from([1, 2] if large or short else [1, 2, 3, 4] + ([6, 11] if n <= 21 else []) + ([6, 8] if big else [])))
    err = st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from("XYZ")).map(list), max_size=3)
    return {
        "spec": spec, "basis": draw(st.sampled_from("XZ")),
        "start": draw(st.sampled_from(["X", "Z", "unknown"])),
        "errors": [draw(err) for _ in range(rounds + 1)],
        "via": draw(st.sampled_from(["qubit", "circuit"])),
        "asg": draw(lib.assignments(3)),
        "calls": draw(lib.calls(draw(st.sampled_from([1, 2, 3])), ["stabilize"])) if short or draw(st.booleans()) else [],
        # full-lattice readouts of the same qubit before it is prepared (anew) for this run
        "earlier": draw(st.lists(st.tuples(st.sampled_from("XZ"), st.booleans()).map(list), max_size=0 if large else 4)),
    }


def check(case):
    spec, basis = case["spec"], case["basis"]
    other = "Z" if basis == "X" else "X"
    code = spec["code"]
    n = lib.ndata(spec)
    h, w = lib.dims(spec)
    tc = None
    if case["via"] == "circuit":
        treg = TopologicalRegister(ctypes=[code], params=[lib.params_of(spec)])
        tc = TopologicalCircuit(treg)
        q = treg[0]
        rig = lib.Rig(extra=n, circ=tc.circ)
        rig.m.run()
    else:
        rig = lib.Rig(extra=n)
        q = rig.add(spec)
    if case["start"] != "unknown":
        for b, stab in case["earlier"]:
            rig.call(q.reset_x if b == "Z" else q.reset_z)
            if stab:
                rig.call(q.id_data)
            rig.call(q.lattice_readout_x if b == "X" else q.lattice_readout_z)
    if case["start"] == "unknown":
        lib.bell(rig, lib.data_qubits(q))
    else:
        rig.call(q.reset_x if case["start"] == "X" else q.reset_z)
    other_calls = lib.Past(rig, q)
    nx, nz = lib.nsyn(spec)
    rounds = []
    for k, errs in enumerate(case["errors"]):
        for i, p in errs:
            rig.apply(q, [(i, p)])
        if k < len(case["errors"]) - 1:
            if tc is not None:
                rounds.append(rig.bits(rig.one_creg(nx + nz, tc.stabilize, 0)))
            else:
                rounds.append(rig.bits(rig.one_creg(nx + nz, q.stabilize)))
    extra = other_calls.do(case.get("calls") or [])  # any other calls since the last round
    before = rig.tab.copy()
    if tc is not None:
        fn = tc.measure_lattice_x if basis == "X" else tc.measure_lattice_z
        reg = rig.one_creg(n, fn, 0)
    else:
        reg = rig.one_creg(n, q.lattice_readout_x if basis == "X" else q.lattice_readout_z)
    bits = rig.bits(reg)
    # the data bits carry the plaquette values of this basis and the logical value
    final = []
    extra_ok = any(c[0].startswith(("reset", "lattice", "cx")) for c in case.get("calls") or [])  # leave plaquettes open
    for c, terms in zip(model.plaquettes(h, w)[basis], model.stabilizers(code, h, w)[basis]):
        par = 0
        for i, _ in terms:
            par ^= bits[i]
        e = before.expectation(rig.pauli(q, terms))
        require(e == par or e is None and extra_ok, "final %s plaquette at %s read as %s, its value is %s", basis, c,
                lib.describe(par), "random" if e is None else lib.describe(e))
        final.append(par)
    logical = 0
    for i, _ in model.logical(code, basis, h, w):
        logical ^= bits[i]
    e = before.expectation(rig.pauli(q, model.logical(code, basis, h, w)))
    if e is not None:
        require(e == logical, "logical %s read as %s, its value is %s", basis, lib.describe(logical), lib.describe(e))
    elif not extra_ok:
        past = lib.Span()
        for r in rounds:
            for x in r:
                past.add(x)
        for x in final + extra:
            past.add(x)
        require(past.reduce(logical) != 0, "an open logical outcome is not a fresh coin")
    dec = None
    if spec["d"] != [1, 1]:
        dec = lib.make_decoder(spec, len(rounds))
    for a in case["asg"]:
        rr = [lib.eval_bits(r, a) for r in rounds]
        s = lib.readout_string(rr, lib.eval_bits(bits, a))
        hist = [lib.split_round(spec, r) for r in rr]
        fin = {basis: [evaluate(x, a) for x in final], other: hist[-1][other]}
        want = (evaluate(logical, a), lib.ref_hits(spec, hist + [fin]))
        last = lib.join_round(fin["X"], fin["Z"])
        s2 = lib.readout_string(rr + [last], [want[0]])
        parsers = [("qubit", q.parse_readout), ("decoder", dec.parse_readout)]
        if tc is not None:
            parsers.append(("circuit", lambda x, t: tc.parse_readout(0, x, t)))
            if basis == "Z":
                parsers.append(("circuit (default type)", lambda x, t: tc.parse_readout(0, x)))
        for name, f in parsers:
            for text in (s, s2):
                v, hits = f(text, basis)
                got = (v, lib.norm_hits(hits))
                require(got == want, "%s parses %r to %s, expected %s", name, text, got, want)
    nerr = sum(map(len, case["errors"]))
    return (nerr > 0 and len(rounds) > 1) or case["start"] == "unknown", [
        code, "%dx%d" % (h, w), basis, "rounds=%d" % len(rounds), "start=" + case["start"], case["via"]]


PARTS = [Part("lattice", lambda tier: cases(tier), check, 3000, 40000),
         Part("pasts", lambda tier: cases(tier, short=True), check, 12000, 60000),
         Part("large", lambda tier: cases(tier, True), check, 64, 600),
         Part("long", lambda tier: cases(tier, long=True), check, 160, 2500)]
