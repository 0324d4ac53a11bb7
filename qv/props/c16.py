"""C16: the repetition code is the one-dimensional XXZZ code."""
from hypothesis import strategies as st
from qiskit import QuantumCircuit
from qtcodes import RepetitionQubit, XXZZQubit, RotatedDecoder, RepetitionDecoder

from qv import lib, model
from qv.core import Part, require

ID = "C16"
RULE = (
    "Case = odd distance, protection flag, way of stating the distance, sequence of calls and physical faults applied to both "
    "the repetition qubit and the one-dimensional XXZZ qubit; joint distribution of all records, parsed hits and decoded "
    "values are compared (strings: any readout string). Non-trivial = at least one fault and two rounds (strings: two or more hits)."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier):
    d = draw(st.sampled_from(list(range(1, 9)) * 3 + [10, 15, 20] if tier == "quick" else list(range(1, 13)) * 2 + [15, 20, 25, 30])) * 2 + 1
    op = st.one_of(
        st.tuples(st.sampled_from(["stabilize", "stabilize", "stabilize", "x", "z", "id", "id_data", "readout_x", "readout_z", "reset_x", "reset_z"])),
        st.tuples(st.sampled_from(["x_c_if", "z_c_if", "cx_control", "cx_target", "lattice_readout_x", "lattice_readout_z"]), st.integers(0, 1)),
        st.tuples(st.just("fault"), st.integers(0, d - 1), st.sampled_from("xyz")),
        st.tuples(st.just("fault"), st.integers(0, d - 1), st.sampled_from("xyz")),
    ).map(list)
    return {"d": d, "phase": draw(st.booleans()), "form": draw(st.sampled_from(["number", "float", "tuple", "none"])) ,
            "flag": draw(st.booleans()),
            "start": draw(st.sampled_from("XZ")), "ops": draw(st.lists(op, min_size=draw(st.sampled_from([1, 6])), max_size=draw(st.sampled_from([14, 30])))),
            "final": (final := draw(st.sampled_from(["readout", "lattice"]))), "last": int(final == "readout") or draw(st.integers(0, 1)), "p": draw(st.sampled_from([None, 0.1])),
            "asg": draw(lib.assignments(3))}


def rep_params(case):
    d, ph = case["d"], case["phase"]
    p = {}
    if ph:
        p["phase-flip-protected"] = True
    elif case["flag"]:
        p["phase-flip-protected"] = False
    if case["form"] == "none" and d == 3:
        pass
    elif case["form"] == "tuple":
        p["d"] = (1, d) if ph else (d, 1)
    elif case["form"] == "float":
        p["d"] = float(d)
    else:
        p["d"] = d
    return p


def run(q, case):
    rig = lib.Rig(circ=q.circ)
    rig.m.run()
    basis = "X" if case["phase"] else "Z"
    exprs, rounds = [], []
    past = lib.Past(rig, q)
    rig.call(q.reset_x if case["start"] == "X" else q.reset_z)
    for op in [["stabilize"]] + case["ops"] + [["stabilize"]] * case.get("last", 1):
        if op[0] != "fault" and len(op) > 1:
            exprs += past.do([op])
            continue
        if op[0] == "fault":
            regs = rig.call(getattr(rig.circ, op[2]), q.lattice.qregisters["data"][op[1]])
        else:
            regs = rig.call(getattr(q, op[0]))
        for r in regs:
            exprs += rig.bits(r)
            if op[0] == "stabilize":
                rounds.append(rig.bits(r))
    f = getattr(q, ("readout_" if case["final"] == "readout" else "lattice_readout_") + basis.lower())
    regs = rig.call(f)
    require(len(regs) == 1, "readout added %d registers", len(regs))
    final = rig.bits(regs[0])
    return exprs + final, rounds, final


def check(case):
    d, ph = case["d"], case["phase"]
    shape = (1, d) if ph else (d, 1)
    key = "X" if ph else "Z"
    rq = RepetitionQubit(rep_params(case) or None)
    xq = XXZZQubit({"d": shape})
    for name in ("data",):
        require(len(lib.data_qubits(rq)) == d, "repetition qubit of distance %d has %d data qubits", d, len(lib.data_qubits(rq)))
    e1, r1, f1 = run(rq, case)
    e2, r2, f2 = run(xq, case)
    require([len(r) for r in r1] == [len(r) for r in r2], "different syndrome registers")
    require(lib.signature(e1) == lib.signature(e2), "records of the repetition qubit are distributed differently")
    steps = len(r1) - 1 if case["final"] == "readout" else len(r1)
    rd = RepetitionDecoder(dict(rep_params(case), T=steps))
    xd = RotatedDecoder({"d": shape, "T": steps})
    require([sorted(map(tuple, rd.S[key].nodes()))] == [sorted(map(tuple, xd.S[key].nodes()))], "decoder graphs have different nodes")
    ed = lambda D: {frozenset((tuple(D.S[key][a]), tuple(D.S[key][b]))) for a, b in D.S[key].edge_list()}
    require(ed(rd) == ed(xd), "decoder graphs have different edges")
    for a in case["asg"]:
        text = lib.readout_string([lib.eval_bits(r, a) for r in r1], lib.eval_bits(f1, a))
        outs = []
        for o in (rq, xq, rd, xd):
            v, hits = o.parse_readout(text, key)
            outs.append((v, lib.norm_hits(hits)))
        require(all(o == outs[0] for o in outs), "parsers disagree on %r: %s", text, outs)
        kw = {} if case["p"] is None else {"err_prob": case["p"]}
        hits = outs[0][1][key]
        c = lib.class_costs({"code": "XXZZ", "d": list(shape)}, steps, key, hits, case["p"]) if len(hits) <= 7 else None
        got = rd.correct_readout(text, key, **kw), xd.correct_readout(text, key, **kw)
        # same hits in the same order, same graph: only equally good explanations may differ
        if c is not None and abs(c[0] - c[1]) > 1e-2:
            require(got[0] == got[1], "decoders disagree on %r: %s", text, got)
            want = outs[0][0] ^ int(c[1] < c[0])
            require(got[0] == want, "%r decodes to %s, the likeliest class gives %s", text, got[0], want)
        else:
            require(got[0] in (0, 1), "decoded value %r", got[0])
    return any(o[0] == "fault" for o in case["ops"]) and len(r1) > 2, ["phase" if ph else "bit", "d=%d" % d, case["final"], case["form"]]


@st.composite
def string_cases(draw, tier):
    """Any string both decoders accept, also where the first round is not quiet."""
    d = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6])) * 2 + 1
    T = draw(st.sampled_from([1, 1, 2, 3, 4]))
    n = d - 1
    bits = lambda m: st.one_of(st.integers(0, 2 ** m - 1), st.sampled_from([0, 2 ** m - 1]), st.integers(0, m - 1).map(lambda k: 1 << k))
    return {"d": d, "phase": draw(st.booleans()), "form": draw(st.sampled_from(["number", "float", "tuple"])), "flag": draw(st.booleans()), "T": T,
            "final": draw(bits(d)) if (lat := draw(st.booleans())) else draw(st.integers(0, 1)), "lattice": lat,
            "rounds": [draw(bits(n)) for _ in range(T if lat else T + 1)], "repeat": draw(st.booleans()), "p": draw(st.sampled_from([None, 0.01, 0.1, 0.3]))}


def check_strings(case):
    d, ph, T = case["d"], case["phase"], case["T"]
    shape, key = ((1, d), "X") if ph else ((d, 1), "Z")
    rounds = case["rounds"][:1] * len(case["rounds"]) if case["repeat"] else case["rounds"]
    chunks = ["{:0{}b}".format(x, d - 1) for x in rounds]
    text = " ".join(["{:0{}b}".format(case["final"], d if case["lattice"] else 1)] + chunks[::-1])
    rd = RepetitionDecoder(dict(rep_params(case), T=T))
    xd = RotatedDecoder({"d": shape, "T": T})
    outs = []
    for o in (rd, xd):
        v, hits = o.parse_readout(text, key)
        outs.append((v, lib.norm_hits(hits)))
    require(outs[0] == outs[1], "parsers disagree on %r: %s", text, outs)
    v, hits = outs[0][0], outs[0][1][key]
    kw = {} if case["p"] is None else {"err_prob": case["p"]}
    got = rd.correct_readout(text, key, **kw), xd.correct_readout(text, key, **kw)
    c = lib.class_costs({"code": "XXZZ", "d": list(shape)}, T, key, hits, case["p"]) if len(hits) <= 9 else None
    if c is not None and abs(c[0] - c[1]) > 1e-2:
        require(got[0] == got[1], "decoders disagree on %r: %s", text, got)
        require(got[0] == v ^ int(c[1] < c[0]), "%r decodes to %s, the likeliest class gives %s", text, got[0], v ^ int(c[1] < c[0]))
    else:
        require(got[0] in (0, 1), "decoded value %r", got[0])
    return len(hits) >= 2, ["phase" if ph else "bit", "d=%d" % d, "T=%d" % T, "lattice" if case["lattice"] else "readout"]


PARTS = [Part("differential", lambda tier: cases(tier), check, 2000, 25000),
         Part("strings", lambda tier: string_cases(tier), check_strings, 1500, 20000)]
