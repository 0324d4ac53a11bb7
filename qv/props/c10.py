"""C10: every set of at most (d-1)/2 faults is corrected."""
from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require
from qv.sim import evaluate

ID = "C10"
RULE = (
    "Case = lattice, basis, number of rounds, final readout, and 8 fault sets of up to (d-1)/2 data Paulis and intermediate "
    "measurement flips, plus any number of errors the readout is insensitive to; records come from the real circuit, "
    "simulated once with a symbol per fault. Non-trivial = a fault set of full size (d-1)/2 with d >= 5, or d = 3 with a "
    "measurement flip or a later round. The exhaustive part enumerates all fault sets of full size on small lattices."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier, late=False):
    big = tier == "thorough"
    spec = draw(lib.specs(9 if big else 7, 63 if big else 49) if not late else lib.specs(5, 15))
    basis = draw(st.sampled_from(lib.bases(spec)))
    final = draw(st.sampled_from(["readout", "lattice"]))
    n = lib.ndata(spec)
    steps = draw(st.integers(1, 3 if n > 30 else 5) if not late else st.integers(6, 24))
    rounds = steps + (1 if final == "readout" else 0)
    t = (lib.dist(spec, basis) - 1) // 2
    nk = lib.nsyn(spec)[0 if basis == "X" else 1]
    opts = [st.tuples(st.just("data"), st.integers(1, steps), st.integers(0, n - 1), st.sampled_from("XYZ"))] * 2
    lastm = rounds - 2 if final == "readout" else rounds - 1
    if lastm >= 1:
        opts.append(st.tuples(st.just("meas"), st.integers(1, lastm), st.integers(0, nk - 1)))
    one = st.one_of(*opts).map(list)
    # clustered faults: neighbouring data qubits at neighbouring times are the hard cases
    sets = []
    h, w = lib.dims(spec)
    for _ in range(8):
        k = draw(st.sampled_from([t, t, t, max(t - 1, 1), 1])) if t else 0
        fs = [draw(one) for _ in range(min(k, t))]
        if draw(st.booleans()):
            mode = draw(st.sampled_from("lsr"))
            line = draw(st.integers(0, (w if basis == "Z" else h) - 1))
            off = draw(st.integers(0, (h if basis == "Z" else w) - 1))
            for j, f in enumerate(fs):
                if f[0] != "data":
                    continue
                if mode == "l":  # along a shortest logical error
                    c = (off + j) % (h if basis == "Z" else w)
                    f[2] = c * w + line if basis == "Z" else line * w + c
                else:  # spread along the edge that is read out, or the opposite one
                    m, e = (w, h) if basis == "Z" else (h, w)
                    c = (line + 2 * j * draw(st.integers(1, 2))) % m
                    r = 0 if mode == "r" else draw(st.sampled_from([0, 0, e - 1]))
                    f[2] = r * w + c if basis == "Z" else c * w + r
        sets.append(fs)
    free = [[draw(st.integers(1, steps)), draw(st.integers(0, n - 1))] for _ in range(draw(st.integers(0, 3)))]
    return {
        "spec": spec, "basis": basis, "final": final, "rounds": rounds, "sets": sets, "free": free,
        "flips": draw(st.lists(st.integers(0, rounds), max_size=2)),
        "earlier": [] if draw(st.booleans()) else draw(lib.calls(3)),
        "asg": draw(lib.assignments(2)),
    }


@st.composite
def chain_cases(draw, tier):
    """Fault sets of full size that form one connected chain in space and time: two hits, far apart."""
    spec = draw(lib.specs(9, 45 if tier == "quick" else 63))
    basis = draw(st.sampled_from(lib.bases(spec)))
    final = draw(st.sampled_from(["readout", "lattice"]))
    h, w = lib.dims(spec)
    n = lib.ndata(spec)
    steps = draw(st.integers(1, 9 if n < 30 else 5))
    rounds = steps + (1 if final == "readout" else 0)
    t = (lib.dist(spec, basis) - 1) // 2
    pl = model.plaquettes(h, w)[basis]
    on = [[j for j, c in enumerate(pl) if i in model.support(h, w, c)] for i in range(n)]
    lastm = rounds - 2 if final == "readout" else rounds - 1
    sets = []
    for _ in range(8):
        cur, s, fs, seen = draw(st.integers(0, len(pl) - 1)), draw(st.integers(1, steps)), [], set()
        lean = draw(st.sampled_from([1, 2, 6]))  # how often the chain goes on in time
        for _ in range(t):
            if draw(st.integers(0, 6)) < lean and s <= lastm:
                fs.append(["meas", s, cur])
                s += 1
            else:
                qs = [i for i in model.support(h, w, pl[cur]) if (s, i) not in seen]
                if not qs:
                    break
                i = draw(st.sampled_from(qs))
                seen.add((s, i))
                p = {"X": "Z", "Z": "X"}[model.typed(spec["code"], basis, [i])[0][1]]
                fs.append(["data", s, i, draw(st.sampled_from([p, "Y"]))])
                nxt = [j for j in on[i] if j != cur]
                if not nxt:
                    break
                cur = nxt[0]
        sets.append(fs)
    return {"spec": spec, "basis": basis, "final": final, "rounds": rounds, "sets": sets, "free": [],
            "flips": draw(st.lists(st.integers(0, rounds), max_size=1)), "asg": draw(lib.assignments(2))}


def build(case):
    """Run the circuit with a symbol for every single-letter data fault; return record and symbols."""
    spec, basis = case["spec"], case["basis"]
    n = lib.ndata(spec)
    rig = lib.Rig()
    q = rig.add(spec)
    if case.get("earlier"):
        lib.Past(rig, q).do(case["earlier"])  # whatever was done before the preparation
    rig.call(q.reset_x if basis == "X" else q.reset_z)
    nx, nz = lib.nsyn(spec)
    sym, rounds = {}, []
    R = case["rounds"]
    value = 0
    for t in range(R + 1):
        if t >= 1 and (t < R or case["final"] == "lattice"):
            for i in range(n):
                for p in "XZ":
                    sym[t, i, p] = s = rig.tab.new_symbol()
                    rig.apply(q, [(i, p)], s)
        for f in case.get("flips", ()):
            if f == t:
                rig.call(q.z if basis == "X" else q.x)
                value ^= 1
        if t < R:
            rounds.append(rig.bits(rig.one_creg(nx + nz, q.stabilize)))
    fn = getattr(q, ("readout_" if case["final"] == "readout" else "lattice_readout_") + basis.lower())
    final = rig.bits(rig.one_creg(1 if case["final"] == "readout" else n, fn))
    dec = lib.make_decoder(spec, R - 1 if case["final"] == "readout" else R)
    mask = 0
    for s in sym.values():
        mask |= s
    return q, dec, sym, rounds, final, value, mask


def record(spec, basis, faults, free, sym, rounds, final, a):
    nx, nz = lib.nsyn(spec)
    meas = set()
    for f in faults:
        if f[0] == "data":
            for p in "XZ":
                if f[3] in (p, "Y"):
                    a ^= sym[f[1], f[2], p]
        else:
            meas ^= {(f[1], f[2] + (nz if basis == "X" else 0))}
    for t, i in free:
        # the letter this readout and its plaquettes are insensitive to
        p = model.typed(spec["code"], basis, [i])[0][1]
        a ^= sym[t, i, p]
    rr = [[evaluate(e, a) ^ int((t, j) in meas) for j, e in enumerate(r)] for t, r in enumerate(rounds)]
    return lib.readout_string(rr, lib.eval_bits(final, a))


def check(case):
    spec, basis = case["spec"], case["basis"]
    q, dec, sym, rounds, final, value, mask = build(case)
    d = lib.dist(spec, basis)
    nontrivial = False
    for k, faults in enumerate(case["sets"]):
        assert len(faults) <= (d - 1) // 2
        text = record(spec, basis, faults, case["free"] if k % 2 else [], sym, rounds, final, case["asg"][k % 2] & ~mask)
        got = dec.correct_readout(text, basis)
        require(got == value, "d=%d: faults %s decode to %s instead of %s (%r)", d, faults, got, value, text)
        if k < 2:
            v, hits = q.parse_readout(text, basis)
            got = dec.correct_readout(hits, basis, v)
            require(got == value, "d=%d: parsed faults %s decode to %s instead of %s", d, faults, got, value)
        if k == 2:
            got = dec.correct_readout(text, basis, err_prob=1e-9)
            require(got == value, "d=%d: faults %s decode to %s instead of %s with err_prob=1e-9 (%r)", d, faults, got, value, text)
        if faults and len(faults) == (d - 1) // 2:
            if d >= 5 or faults[0][0] == "meas" or faults[0][1] > 1:
                nontrivial = True
    labels = [spec["code"], basis, case["final"], "d=%d" % d, "rounds=%d" % case["rounds"]]
    if any(f[0] == "meas" for s in case["sets"] for f in s):
        labels.append("measurement faults")
    return nontrivial, labels


# -- exhaustive: all fault sets of full size on small lattices; a case is one slice of the enumeration


def check_all(case):
    from itertools import combinations

    spec, basis = case["spec"], case["basis"]
    q, dec, sym, rounds, final, value, mask = build(case)
    t = (lib.dist(spec, basis) - 1) // 2
    R = case["rounds"]
    pool = []
    flipping = {"X": "Z", "Z": "X"}
    last = R if case["final"] == "lattice" else R - 1
    for tt in range(1, last + 1):
        for i in range(lib.ndata(spec)):
            p = flipping[model.typed(spec["code"], basis, [i])[0][1]]
            pool.append(["data", tt, i, p])
    for tt in range(1, (R - 1 if case["final"] == "readout" else R)):
        for j in range(lib.nsyn(spec)[0 if basis == "X" else 1]):
            pool.append(["meas", tt, j])
    count = 0
    for k, faults in enumerate(combinations(pool, t)):
        if k % case["slices"] != case["slice"]:
            continue
        text = record(spec, basis, faults, [], sym, rounds, final, 0)
        got = dec.correct_readout(text, basis)
        require(got == value, "faults %s decode to %s instead of %s (%r)", list(faults), got, value, text)
        count += 1
    return count > 0, ["%s-%s-%dx%d-%s-R%d" % (spec["code"], basis, spec["d"][0], spec["d"][1], case["final"], R)]


def exhaustive(tier):
    pool = []
    shapes = [("XXZZ", 3, 3), ("XZZX", 3, 3), ("XXZZ", 5, 3), ("XZZX", 3, 5), ("Repetition", 5, 1), ("Repetition", 1, 5)]
    if tier == "thorough":
        shapes += [("XXZZ", 5, 5), ("XZZX", 5, 5), ("Repetition", 7, 1), ("Repetition", 1, 7), ("XXZZ", 7, 3), ("XXZZ", 3, 7), ("XZZX", 7, 3)]
    for code, h, w in shapes:
        spec = {"code": code, "d": [h, w], "scalar": False}
        for basis in lib.bases(spec):
            for final, R in (("readout", 2), ("readout", 3), ("lattice", 1), ("lattice", 2)):
                t = (lib.dist(spec, basis) - 1) // 2
                nf = lib.ndata(spec) * 2 + 10
                slices = max(1, nf ** t // (1500 if t > 1 else 100) // (1 if tier == "thorough" else 1))
                for s in range(slices):
                    pool.append({"spec": spec, "basis": basis, "final": final, "rounds": R, "slices": slices, "slice": s})
    return st.sampled_from(pool)


PARTS = [
    Part("random", lambda tier: cases(tier), check, 2500, 25000),
    Part("late", lambda tier: cases(tier, late=True), check, 200, 2500),
    Part("chains", lambda tier: chain_cases(tier), check, 600, 6000),
    Part("exhaustive", exhaustive, check_all, 160, 2500),
]
