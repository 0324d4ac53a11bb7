"""C08: fault signatures."""
from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require
from qv.sim import evaluate

ID = "C08"
RULE = (
    "Case = lattice, start (X, Z or unknown), 2-11 rounds, final readout; every Pauli on every data qubit before every round "
    "and before the readout gets its own symbol, so the recorded bits are checked as functions of all fault sets at once; "
    "then 4 concrete fault sets (with measurement flips) are parsed as strings. Non-trivial = a concrete fault set with at "
    "least two faults at different times or of different kinds."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier, large=False, long=False):
    big = tier == "thorough"
    spec = draw(lib.large_specs(121 if big else 99) if large else lib.specs(5, 5, long=0) if long else lib.specs(7, 49 if big else 35))
    n = lib.ndata(spec)
    rounds = draw(st.integers(12, 40)) if long else draw(st.sampled_from([2] if large else [2, 3, 4] + ([6, 11] if n <= 9 else []) + ([5] if big else [])))
    nx, nz = lib.nsyn(spec)
    data = st.tuples(st.just("data"), st.integers(0, rounds), st.integers(0, n - 1), st.sampled_from("XYZ"))
    meas = st.tuples(st.just("meas"), st.integers(0, rounds - 1), st.integers(0, nx + nz - 1))
    sets = st.lists(st.one_of(data, data, meas).map(list), min_size=1, max_size=5)
    return {
        "spec": spec, "start": draw(st.sampled_from(["X", "Z", "unknown"])), "rounds": rounds,
        "final": draw(st.sampled_from(["readout", "lattice"])), "basis": draw(st.sampled_from("XZ")),
        "flip": draw(st.sampled_from(["", "x", "z"])), "flipat": draw(st.integers(0, rounds)),
        "earlier": [] if large or draw(st.booleans()) else draw(lib.calls(4)),
        "sets": [draw(sets) for _ in range(4)], "asg": draw(lib.assignments(4)),
    }


def check(case):
    spec, basis = case["spec"], case["basis"]
    code = spec["code"]
    n = lib.ndata(spec)
    h, w = lib.dims(spec)
    R = case["rounds"]
    rig = lib.Rig(extra=n if case["start"] == "unknown" else 0)
    q = rig.add(spec)
    if case["start"] != "unknown" and case.get("earlier"):
        lib.Past(rig, q).do(case["earlier"])  # whatever was done before the preparation
    if case["start"] == "unknown":
        lib.bell(rig, lib.data_qubits(q))
    else:
        rig.call(q.reset_x if case["start"] == "X" else q.reset_z)
    nx, nz = lib.nsyn(spec)
    e0 = rig.bits(rig.one_creg(1, q.readout_x if basis == "X" else q.readout_z))[0]
    stabs = model.stabilizers(code, h, w)
    pl = model.plaquettes(h, w)
    sym = {}
    rounds = []
    for t in range(R + 1):
        if case["flip"] and case["flipat"] == t:
            rig.call(getattr(q, case["flip"]))
        for i in range(n):
            for p in "XZ":
                s = rig.tab.new_symbol()
                sym[t, i, p] = s
                rig.apply(q, [(i, p)], s)
        if t < R:
            rounds.append(rig.bits(rig.one_creg(nx + nz, q.stabilize)))
    allsym = 0
    for s in sym.values():
        allsym |= s

    def faults_on(terms, ts):
        e = 0
        for i, p in terms:
            for t in ts:
                e ^= sym[t, i, "Z" if p == "X" else "X"]
        return e

    for t in range(1, R):
        a, b = lib.split_round(spec, rounds[t - 1]), lib.split_round(spec, rounds[t])
        for k in "XZ":
            for c, terms, u, v in zip(pl[k], stabs[k], a[k], b[k]):
                want = faults_on(terms, [t])
                require(u ^ v == want, "change of %s plaquette %s at time %d: %s, expected %s (symbol = time, data qubit, Pauli)",
                        k, c, t - 1, names(u ^ v, sym), names(want, sym))
    fn = getattr(q, ("readout_" if case["final"] == "readout" else "lattice_readout_") + basis.lower())
    final = rig.bits(rig.one_creg(1 if case["final"] == "readout" else n, fn))
    logical = 0
    lt = model.logical(code, basis, h, w)
    if case["final"] == "readout":
        logical = final[0]
    else:
        for i, _ in lt:
            logical ^= final[i]
        last = lib.split_round(spec, rounds[-1])
        for c, terms, u in zip(pl[basis], stabs[basis], last[basis]):
            par = 0
            for i, _ in terms:
                par ^= final[i]
            require(par ^ u == faults_on(terms, [R]), "final change of %s plaquette %s: %s, expected %s", basis, c,
                    names(par ^ u, sym), names(faults_on(terms, [R]), sym))
    # relative to the readout before all faults
    want = e0 ^ faults_on(lt, range(R + 1))
    f = 1 if case["flip"] and case["flip"].upper() != basis else 0
    require(logical == want ^ f, "logical %s readout is %s, expected %s", basis, names(logical, sym), names(want, sym))
    # concrete fault sets through the parser
    nontrivial = False
    for faults, a in zip(case["sets"], case["asg"]):
        a &= ~allsym
        on = a
        meas = set()
        for f in faults:
            if f[0] == "data":
                for p in "XZ":
                    if f[3] in (p, "Y"):
                        on ^= sym[f[1], f[2], p]
            else:
                meas ^= {(f[1], f[2])}
        rr = [[evaluate(e, on) ^ int((t, j) in meas) for j, e in enumerate(r)] for t, r in enumerate(rounds)]
        text = lib.readout_string(rr, lib.eval_bits(final, on))
        ref = lib.readout_string([lib.eval_bits(r, a) for r in rounds], lib.eval_bits(final, a))
        v, hits = q.parse_readout(text, basis)
        v0, hits0 = q.parse_readout(ref, basis)
        require(lib.norm_hits(hits0) == {"X": [], "Z": []}, "hits without faults")
        want = {"X": set(), "Z": set()}
        flip = 0
        for f in faults:
            if f[0] == "data":
                _, t, i, p = f
                for k in "XZ":
                    if 1 <= t and (t < R or (case["final"] == "lattice" and k == basis)):
                        for c in model.flips(code, h, w, i, p)[k]:
                            want[k] ^= {(t - 1,) + c}
                flip ^= int(model.flips_logical(code, h, w, basis, i, p))
            else:
                _, t, j = f
                k, c = ("Z", pl["Z"][j]) if j < nz else ("X", pl["X"][j - nz])
                if t - 1 >= 0:
                    want[k] ^= {(t - 1,) + c}
                if t < R - 1 or (case["final"] == "lattice" and k == basis):
                    want[k] ^= {(t,) + c}
        got = lib.norm_hits(hits)
        want = {k: sorted(x) for k, x in want.items()}
        require(got == want, "faults %s give hits %s, expected %s", faults, got, want)
        require(v ^ v0 == flip, "faults %s %s the logical readout", faults, "flip" if v ^ v0 else "do not flip")
        nontrivial = nontrivial or len({(f[0], f[1]) for f in faults}) > 1
    return nontrivial, [code, "%dx%d" % (h, w), "rounds=%d" % R, case["final"] + case["basis"], "start=" + case["start"]]


def names(e, sym):
    inv = {v: k for k, v in sym.items()}
    out = []
    for k in range(1, e.bit_length()):
        if (e >> k) & 1:
            out.append(str(inv.get(1 << k, "coin")))
    if e & 1:
        out.append("1")
    return "+".join(out) or "0"


PARTS = [Part("signatures", lambda tier: cases(tier), check, 2500, 25000),
         Part("large", lambda tier: cases(tier, True), check, 64, 600),
         Part("long", lambda tier: cases(tier, long=True), check, 96, 1200)]
