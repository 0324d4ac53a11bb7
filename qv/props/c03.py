"""C03: reset_x / reset_z prepare the logical +1 state from any prior state."""
from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require

ID = "C03"
RULE = (
    "Case = lattice, basis, a Clifford scramble of data and reference qubits, an optional history of rounds, "
    "readouts and gates, optionally a neighbour qubit. The data qubits start maximally entangled with references, so every "
    "prior state is covered. Non-trivial = history or scramble not empty."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    spec = draw(lib.specs(9 if big else 7, 63 if big else 35))
    hist = st.lists(
        st.sampled_from(["stab", "x", "z", "readout_x", "readout_z", "id", "reset_x", "reset_z", "lattice_readout_x", "lattice_readout_z"]),
        max_size=draw(st.sampled_from([5, 5, 12])),
    )
    return {
        "spec": spec,
        "basis": draw(st.sampled_from("XZ")),
        "scramble": draw(lib.clifford_ops(12)),
        "history": draw(hist),
        "calls": draw(lib.calls(4)) if draw(st.booleans()) else [],
        "neighbour": draw(lib.specs(3, 9)) if draw(st.booleans()) else None,
        "again": draw(st.booleans()),
    }


@st.composite
def large_cases(draw, tier):
    calls = ["stab", "x", "z", "readout_x", "readout_z", "id", "reset_x", "reset_z", "lattice_readout_x", "lattice_readout_z"]
    return {"spec": draw(lib.large_specs(169 if tier == "thorough" else 121)), "basis": draw(st.sampled_from("XZ")), "scramble": draw(lib.clifford_ops(12)),
            "history": draw(st.lists(st.sampled_from(calls), max_size=2)), "neighbour": None, "again": draw(st.booleans())}


def check(case):
    spec, basis = case["spec"], case["basis"]
    n = lib.ndata(spec)
    h, w = lib.dims(spec)
    nb = case["neighbour"]
    nref = n + (lib.ndata(nb) if nb else 0)
    rig = lib.Rig(extra=nref)
    q = rig.add(spec)
    lib.bell(rig, lib.data_qubits(q))
    touch = list(range(n)) + rig.idx(lib.data_qubits(q))
    other = None
    if nb:
        other = rig.add(nb, "other")
        lib.bell(rig, lib.data_qubits(other), n)
        touch += rig.idx(lib.data_qubits(other))
    lib.cliffords(rig.tab, touch, case["scramble"])
    for op in case["history"]:
        rig.call({"stab": q.stabilize}.get(op) or getattr(q, op))
    if case.get("calls"):
        lib.Past(rig, q).do(case["calls"])
    before = rig.tab.copy()
    reset = q.reset_x if basis == "X" else q.reset_z
    require(not rig.call(reset), "a logical reset added a classical register")
    if case["again"]:
        rig.call(reset)
    tab = rig.tab
    checks = [("logical " + basis, model.logical(spec["code"], basis, h, w))]
    for c, terms in zip(model.plaquettes(h, w)[basis], model.stabilizers(spec["code"], h, w)[basis]):
        checks.append(("%s plaquette at %s" % (basis, c), terms))
    for name, terms in checks:
        e = tab.expectation(rig.pauli(q, terms))
        require(e == 0, "after reset_%s the %s is %s, expected +1", basis.lower(), name,
                "random" if e is None else lib.describe(e))
    # product state, uncorrelated with everything else: resetting the data qubits now must leave the same
    # state as replacing the data qubits of the state before by fresh ones
    a = tab.copy()
    b = before
    d = rig.idx(lib.data_qubits(q))
    nsym = b.nsym
    # data qubits of a must be pure on their own: every data-qubit-local stabilizer rank is n
    require(local_rank(a, d) == len(d), "the data qubits are still correlated with something else after the reset")
    for i in d:
        a.reset(i)
        b.reset(i)
    # the environment of b is conditioned on hidden outcomes of the discarded qubits, as is that of a;
    # compare them as subgroups that do not involve the data qubits
    require(env_group(a, nsym) == env_group(b, nsym),
            "the reset changed the state of qubits that are not its data qubits")
    return bool(case["history"] or case["scramble"]), [spec["code"], "%dx%d" % (h, w), basis,
                                                       "neighbour" if nb else "alone"]


def local_rank(tab, idx):
    """Number of independent stabilizers supported on idx only."""
    import numpy as np

    n = tab.n
    rest = [i for i in range(n) if i not in set(idx)]
    m = np.concatenate([tab.x[n:][:, rest], tab.z[n:][:, rest]], axis=1).astype(np.uint8)
    return n - gf2_rank(m)


def gf2_rank(m):
    m = m.copy()
    r = 0
    for c in range(m.shape[1]):
        p = m[r:, c].nonzero()[0]
        if not len(p):
            continue
        p = r + int(p[0])
        if p != r:
            m[[r, p]] = m[[p, r]]
        rows = m[:, c].nonzero()[0]
        rows = rows[rows != r]
        m[rows] ^= m[r]
        r += 1
        if r == m.shape[0]:
            break
    return r


def env_group(tab, nsym):
    """Stabilizers whose sign does not involve outcomes of the reset itself (symbols >= nsym): the group
    of the environment after tracing out what the reset discarded."""
    rows = [r for r in tab.canonical()]
    # eliminate the new symbols: keep combinations without them
    keep = []
    basis = {}
    for x, z, e in rows:
        v = e >> (nsym + 1)
        rec = [x, z, e]
        while v:
            hb = v.bit_length()
            if hb not in basis:
                basis[hb] = rec
                rec = None
                break
            rec = mul(rec, basis[hb], tab.n)
            v = rec[2] >> (nsym + 1)
        if rec is not None:
            keep.append(rec)
    return span_form(keep, tab.n)


def mul(a, b, n):
    """Product of two Hermitian commuting Paulis given as (x, z, sign expr) with Y = i X Z convention."""
    (x1, z1, e1), (x2, z2, e2) = a, b
    # letters per qubit: phase of the product of Hermitian Paulis
    ph = 0
    for i in range(n):
        p = ((x1 >> i) & 1, (z1 >> i) & 1)
        q = ((x2 >> i) & 1, (z2 >> i) & 1)
        ph += PH[p, q]
    assert ph % 2 == 0
    return [x1 ^ x2, z1 ^ z2, e1 ^ e2 ^ ((ph // 2) & 1)]


_I, _X, _Y, _Z = (0, 0), (1, 0), (1, 1), (0, 1)
PH = {}
for p in (_I, _X, _Y, _Z):
    for q in (_I, _X, _Y, _Z):
        PH[p, q] = 0
PH[_X, _Y] = PH[_Y, _Z] = PH[_Z, _X] = 1
PH[_Y, _X] = PH[_Z, _Y] = PH[_X, _Z] = 3


def span_form(recs, n):
    basis = {}
    for rec in recs:
        while True:
            v = (rec[0] << n) | rec[1]
            if not v:
                break
            hb = v.bit_length()
            if hb not in basis:
                basis[hb] = rec
                break
            rec = mul(rec, basis[hb], n)
        else:
            continue
    # reduce
    keys = sorted(basis)
    for k in keys:
        for j in keys:
            if j > k:
                v = (basis[j][0] << n) | basis[j][1]
                if (v >> (k - 1)) & 1:
                    basis[j] = mul(basis[j], basis[k], n)
    return [tuple(basis[k]) for k in keys]


PARTS = [Part("resets", lambda tier: cases(tier), check, 3000, 30000),
         Part("large", lambda tier: large_cases(tier), check, 48, 500)]
