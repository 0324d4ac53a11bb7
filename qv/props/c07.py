"""C07: fault-free histories have no hits and decode to the prepared value."""
from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require

ID = "C07"
RULE = (
    "Case = lattice, prepared basis (or completely unknown input), a fault-free call sequence with rounds, logical gates, "
    "identities and readouts, final readout kind, coin assignments. Non-trivial = two or more rounds with a gate or readout "
    "between them."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    spec = draw(lib.specs(9 if big else 7, 63 if big else 35))
    lo = draw(st.sampled_from([1, 4, 8, 20 if lib.ndata(spec) <= 21 else 8]))
    ops = st.lists(
        st.sampled_from(["stabilize", "stabilize", "stabilize", "x", "z", "id", "id_data", "readout_x", "readout_z"]),
        min_size=lo, max_size=lo + 6,
    )
    return {
        "spec": spec,
        "start": draw(st.sampled_from(["X", "Z", "X", "Z", "unknown"])),
        "ops": draw(ops),
        "final": draw(st.sampled_from(["readout", "lattice"])),
        "finalbasis": draw(st.sampled_from("XZ")),
        "p": draw(st.sampled_from([None, 0.0, 0.01, 0.1, 0.3])),
        "asg": draw(lib.assignments(3)),
        "earlier": draw(lib.calls(4)) if draw(st.booleans()) else [],
    }


@st.composite
def large_cases(draw, tier):
    b = draw(st.sampled_from("XZ"))
    ops = draw(st.lists(st.sampled_from(["x", "z", "id", "stabilize", "readout_x", "readout_z"]), min_size=1, max_size=3))
    return {"spec": draw(lib.large_specs(169 if tier == "thorough" else 121)), "start": b, "ops": ["stabilize"] + ops + ["stabilize"],
            "final": draw(st.sampled_from(["readout", "lattice"])), "finalbasis": b, "p": draw(st.sampled_from([None, 0.0, 0.1])), "asg": draw(lib.assignments(2))}


def check(case):
    spec = case["spec"]
    n = lib.ndata(spec)
    h, w = lib.dims(spec)
    rig = lib.Rig(extra=n if case["start"] == "unknown" else 0)
    q = rig.add(spec)
    value = {"X": None, "Z": None}
    if case["start"] != "unknown" and case.get("earlier"):
        lib.Past(rig, q).do(case["earlier"])  # whatever was done before the preparation
    if case["start"] == "unknown":
        lib.bell(rig, lib.data_qubits(q))
    else:
        rig.call(q.reset_x if case["start"] == "X" else q.reset_z)
        value[case["start"]] = 0
    nx, nz = lib.nsyn(spec)
    rounds, between, nontrivial = [], False, False
    ops = list(case["ops"])
    if "stabilize" not in ops:
        ops.append("stabilize")
    for op in ops:
        if op == "stabilize":
            rounds.append(rig.bits(rig.one_creg(nx + nz, q.stabilize)))
            nontrivial = nontrivial or (len(rounds) > 1 and between)
            between = False
            continue
        between = between or op in ("x", "z", "readout_x", "readout_z")
        regs = rig.call(getattr(q, op))
        if op in ("x", "z"):
            o = "Z" if op == "x" else "X"
            if value[o] is not None:
                value[o] ^= 1
        elif op in ("readout_x", "readout_z"):
            b = op[-1].upper()
            e = rig.bits(regs[0])[0]
            require(value[b] is None or value[b] == e, "readout %s gives %s, expected %s", b, e, value[b])
            value[b] = e
            value["Z" if b == "X" else "X"] = None
    fb = case["finalbasis"] if case["start"] == "unknown" else case["start"]
    if case["final"] == "readout":
        reg = rig.one_creg(1, q.readout_x if fb == "X" else q.readout_z)
        steps = len(rounds) - 1
    else:
        reg = rig.one_creg(n, q.lattice_readout_x if fb == "X" else q.lattice_readout_z)
        steps = len(rounds)
    final = rig.bits(reg)
    dec = lib.make_decoder(spec, max(1, steps))
    protected = fb in lib.bases(spec)
    for a in case["asg"]:
        text = lib.readout_string([lib.eval_bits(r, a) for r in rounds], lib.eval_bits(final, a))
        if not case.get("earlier") and not any(o.startswith("readout") for o in ops):
            # what a simulator's counts are keyed by: all registers, the latest first
            real = " ".join("".join(str(b) for b in lib.eval_bits(rig.bits(r), a)[::-1]) for r in rig.circ.cregs[::-1])
            require(real == text, "the run is recorded as %r, not as %r", real, text)
        v, hits = q.parse_readout(text, fb)
        hits2 = lib.norm_hits(hits)
        require(hits2 == {"X": [], "Z": []}, "hits %s in a fault-free run (%r)", hits2, text)
        want = None
        if value[fb] is not None:
            want = lib.evaluate(value[fb], a)
            require(v == want, "logical value %s, prepared %s", v, want)
        if protected:
            for args in ((text, fb), (hits, fb, v)):
                kw = {} if case["p"] is None else {"err_prob": case["p"]}
                got = dec.correct_readout(*args, **kw)
                require(got == v, "decoder changes a fault-free value %s to %s (%r)", v, got, text)
    return nontrivial, [spec["code"], "%dx%d" % (h, w), case["start"], case["final"], "rounds=%d" % len(rounds) if len(rounds) < 6 else "rounds>=6"]


PARTS = [Part("histories", lambda tier: cases(tier), check, 4000, 50000),
         Part("large", lambda tier: large_cases(tier), check, 48, 500)]
