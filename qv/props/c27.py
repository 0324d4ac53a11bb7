"""C27: single-fault tolerance of the XXZZ measurement circuit."""
from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require
from qv.sim import evaluate

ID = "C27"
RULE = (
    "Case = XXZZ lattice with both distances at least 3, basis, logical or full-lattice readout, number of rounds, the faulty "
    "round, logical gates, random outcomes. A symbol is injected for X and Z after every operation of that round on every qubit "
    "it acts on, and each of the X, Y, Z faults is decoded (once per distinct record). Non-trivial = all; the number of faults "
    "covered is in the class counts of the case size."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    spec = draw(lib.specs(9 if big else 7, 63 if big else 35, codes=("XXZZ",), minh=3, minw=3))
    final = draw(st.sampled_from(["readout", "lattice"]))
    last = draw(st.integers(1, 3))  # the faulty round, not the first
    after = draw(st.integers(0 if final == "lattice" else 2, 3))
    return {
        "spec": spec, "basis": draw(st.sampled_from("XZ")), "final": final, "faulty": last, "rounds": last + 1 + after,
        "flips": draw(st.lists(st.integers(0, last + 1 + after), max_size=2)), "asg": draw(lib.assignments(1)),
        "p": draw(st.sampled_from([None, None, 1e-6])),
    }


def check(case):
    spec, basis = case["spec"], case["basis"]
    rig = lib.Rig()
    q = rig.add(spec)
    nx, nz = lib.nsyn(spec)
    rig.call(q.reset_x if basis == "X" else q.reset_z)
    value, rounds, sites = 0, [], []
    for r in range(case["rounds"] + 1):
        for f in case["flips"]:
            if f == r:
                rig.call(q.z if basis == "X" else q.x)
                value ^= 1
        if r == case["rounds"]:
            break
        if r != case["faulty"]:
            rounds.append(rig.bits(rig.one_creg(nx + nz, q.stabilize)))
            continue
        n0, c0 = len(rig.circ.data), len(rig.circ.cregs)
        q.stabilize()
        for k in range(n0, len(rig.circ.data)):
            rig.m.run(upto=k + 1)
            inst = rig.circ.data[k]
            if inst.operation.name == "barrier":
                continue
            for b in inst.qubits:
                i = rig.m.q(b)
                sx, sz = rig.tab.new_symbol(), rig.tab.new_symbol()
                rig.tab.pauli1(i, "X", sx)
                rig.tab.pauli1(i, "Z", sz)
                sites.append((k - n0, inst.operation.name, repr(b), sx, sz))
        new = rig.circ.cregs[c0:]
        require(len(new) == 1 and new[0].size == nx + nz, "stabilize added registers %s", new)
        rounds.append(rig.bits(new[0]))
    lattice = case["final"] == "lattice"
    fn = getattr(q, ("lattice_readout_" if lattice else "readout_") + basis.lower())
    final = rig.bits(rig.one_creg(lib.ndata(spec) if lattice else 1, fn))
    steps = len(rounds) if lattice else len(rounds) - 1
    dec = lib.make_decoder(spec, steps)
    d = lib.dist(spec, basis)
    kw = {} if case["p"] is None or d == 3 else {"err_prob": case["p"]}
    mask = 0
    for s in sites:
        mask |= s[3] | s[4]
    base = case["asg"][0] & ~mask
    b0 = [lib.eval_bits(r, base) for r in rounds], lib.eval_bits(final, base)

    def flips(sym):
        return tuple(bool(e & sym) for r in rounds for e in r), tuple(bool(e & sym) for e in final)

    done, faults, ties = {}, 0, 0
    for k, name, b, sx, sz in sites:
        for p, a in (("X", sx), ("Z", sz), ("Y", sx | sz)):
            faults += 1
            fx = flips(sx) if p != "Z" else None
            fz = flips(sz) if p != "X" else None
            if fx is None:
                f = fz
            elif fz is None:
                f = fx
            else:
                f = tuple(tuple(u ^ v for u, v in zip(m, n)) for m, n in zip(fx, fz))
            if f in done:
                continue
            done[f] = True
            rr, pos = [], 0
            for r in b0[0]:
                rr.append([int(v) ^ int(x) for v, x in zip(r, f[0][pos:])])
                pos += len(r)
            text = lib.readout_string(rr, [int(v) ^ int(x) for v, x in zip(b0[1], f[1])])
            if d == 3:
                # a pair of hits one step apart in space and time and a pair of boundary matches weigh the same here:
                # the matching may take either, but the wrong class must never be lighter
                v, hits = dec.parse_readout(text, basis)
                c = lib.class_costs(spec, steps, basis, lib.norm_hits(hits)[basis])
                right = v ^ value
                require(c[right] <= c[1 - right], "%s after operation %d (%s) of round %d on %s: %r is explained better by a logical error",
                        p, k, name, case["faulty"], b, text)
                if c[right] == c[1 - right]:
                    ties += 1
                    continue
            got = dec.correct_readout(text, basis, **kw)
            require(got == value, "%s after operation %d (%s) of round %d on %s: %r decodes to %s instead of %s",
                    p, k, name, case["faulty"], b, text, got, value)
    require(faults >= 3 * lib.ndata(spec), "only %d fault locations in a round", faults)
    labels = ["%dx%d" % lib.dims(spec), basis, case["final"], "faults>=%d" % (faults // 250 * 250), "records>=%d" % (len(done) // 50 * 50)]
    if ties:
        labels.append("with ties")
    return True, labels


def _fixed():
    for d in ([3, 3], [5, 3], [3, 5]):
        for basis in "XZ":
            for final in ("readout", "lattice"):
                yield {"spec": {"code": "XXZZ", "d": d}, "basis": basis, "final": final, "faulty": 1, "rounds": 4, "flips": [], "asg": [0], "p": None}


PARTS = [Part("single", lambda tier: cases(tier), check, 240, 2400, fixed=list(_fixed()))]
