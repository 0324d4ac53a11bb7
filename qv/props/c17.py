"""C17: parameters."""
import copy

import numpy as np
from hypothesis import strategies as st
from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
from qtcodes import RepetitionDecoder, RotatedDecoder, TopologicalRegister

from qv import lib, model
from qv.core import Part, Violation, require

ID = "C17"
RULE = (
    "Case = code, odd height/width (or one number, or nothing) in one of several number types and containers, or an "
    "invalid parameter dictionary; given to the encoder (on a circuit that already holds things) and to the decoder. "
    "Non-trivial = a rejected dictionary, or an accepted one that is not the explicit int pair."
)
ASSUMPTIONS = ["qv.sim, the reference stabilizer simulator (cross-checked against Aer by the self-test)"]

NUM = {
    "int": int,
    "float": float,
    "np.int64": np.int64,
    "np.int32": np.int32,
    "np.float64": np.float64,
    "np.uint8": np.uint8,
}


@st.composite
def valid(draw, tier):
    code = draw(st.sampled_from(lib.CODES))
    shape = draw(st.sampled_from(["none", "scalar", "scalar", "pair", "pair"]))
    top = 6 if tier == "quick" else 8
    if code == "Repetition":
        phase = draw(st.booleans())
        d = draw(st.one_of(st.integers(1, 2 * top), st.integers(1, 2 * top), st.integers(1, 30))) * 2 + 1
        dd = [1, d] if phase else [d, 1]
        box = "tuple"
    else:
        phase = None
        dd = [draw(st.integers(0, top)) * 2 + 1, draw(st.integers(0, top)) * 2 + 1]
        if dd == [1, 1]:
            dd = [1, 3]
        box = draw(st.sampled_from(["tuple", "list", "array"]))
        if shape == "scalar":
            k = draw(st.integers(1, top)) * 2 + 1
            dd = [k, k]
        if dd[0] * dd[1] > 81:
            dd = [3, dd[1]]
            if shape == "scalar":
                dd = [3, 3]
    if shape == "none":
        dd = [3, 3] if code != "Repetition" else ([1, 3] if phase else [3, 1])
    return {
        "code": code, "phase": phase, "flag": draw(st.booleans()), "shape": shape, "d": dd, "box": box,
        "num": draw(st.sampled_from(sorted(NUM))), "T": draw(st.integers(1, 4)),
        "a": draw(st.integers(0, 1 << 200)),
    }


def valid_params(case):
    p = {}
    if case["code"] == "Repetition" and (case["phase"] or case["flag"]):
        p["phase-flip-protected"] = case["phase"]
    num = NUM[case["num"]]
    h, w = case["d"]
    if case["shape"] == "scalar":
        p["d"] = num(max(h, w))
    elif case["shape"] == "pair":
        v = (num(h), num(w))
        p["d"] = v if case["box"] == "tuple" else list(v) if case["box"] == "list" else np.array(v)
    return p


def same_params(a, b):
    return set(a) == set(b) and all(type(a[k]) is type(b[k]) and np.all(np.asarray(a[k]) == np.asarray(b[k])) for k in a)


def program(q):
    """A round, logical gates and both readouts: fixes the behaviour of the lattice."""
    rig = lib.Rig(circ=q.circ)
    rig.m.run()
    out = []
    for f in ("reset_x", "stabilize", "x", "stabilize", "readout_x", "readout_z", "z", "stabilize", "lattice_readout_z"):
        for r in rig.call(getattr(q, f)):
            out.append((r.size, rig.bits(r)))
    return [n for n, _ in out], lib.signature([e for _, b in out for e in b])


def check_valid(case):
    h, w = case["d"]
    code = case["code"]
    given = valid_params(case)
    keep = copy.deepcopy(given)
    q = lib.CLS[code](given) if given or case["flag"] else lib.CLS[code]()
    require(same_params(given, keep), "the encoder changed the caller's dictionary to %s", given)
    require(tuple(q.lattice.params["d"]) == (h, w), "lattice is %s, expected %s", q.lattice.params["d"], (h, w))
    require(len(lib.data_qubits(q)) == h * w, "%d data qubits on a %dx%d lattice", len(lib.data_qubits(q)), h, w)
    nx, nz = model.num_syn(h, w)
    require(tuple(q.lattice.params["num_syn"]) == (nx, nz), "num_syn %s, expected %s", q.lattice.params["num_syn"], (nx, nz))
    require(q.lattice.params["num_data"] == h * w, "num_data %s", q.lattice.params["num_data"])
    require(len(lib.own_qubits(q)) == h * w + nx + nz + 1, "%d qubits in total", len(lib.own_qubits(q)))
    explicit = {"d": (h, w)}
    if case["phase"]:
        explicit["phase-flip-protected"] = True
    ref = lib.CLS[code](explicit)
    if h * w <= 49:
        a, b = program(q), program(ref)
        require(a[0] == b[0] and a[1] == b[1], "behaves differently from the lattice given as int pair")
    # the decoder of the same parameters
    if case["shape"] != "none":
        given = dict(valid_params(case), T=case["T"])
        keep = copy.deepcopy(given)
        if code == "Repetition":
            dec = RepetitionDecoder(given)
            keys = ["X"] if case["phase"] else ["Z"]
        else:
            dec = RotatedDecoder(given)
            keys = [k for k, n in (("X", nx), ("Z", nz)) if n]
        if case["shape"] == "pair":  # a single number may be replaced by the pair it stands for
            require(same_params({k: given.get(k) for k in keep}, keep), "the decoder changed the caller's dictionary to %s", given)
        require(tuple(dec.params["d"]) == (h, w), "decoder lattice is %s, expected %s", dec.params["d"], (h, w))
        pl = model.plaquettes(h, w)
        for k in keys:
            got = sorted(tuple(map(float, n)) for n in dec.S[k].nodes() if n[0] != -1)
            want = sorted((float(t),) + c for t in range(case["T"]) for c in pl[k])
            require(got == want, "decoder's %s graph does not hold the plaquettes of the lattice", k)
        a = case["a"]
        bits = [(a >> i) & 1 for i in range(200)]
        rounds = [[bits[(r * 37 + i * 11) % 200] for i in range(nx + nz)] for r in range(case["T"] + 1)]
        s = lib.readout_string(rounds, [a & 1])
        v1, h1 = q.parse_readout(s)
        v2, h2 = dec.parse_readout(s)
        require(v1 == v2 and lib.norm_hits(h1) == lib.norm_hits(h2), "encoder and decoder parse %r differently", s)
    return not (case["shape"] == "pair" and case["num"] == "int"), [code, case["shape"], case["num"], "%dx%d" % (h, w)]


# ---- rejection -----------------------------------------------------------------------------------


@st.composite
def invalid(draw, tier):
    who = draw(st.sampled_from(["XXZZ", "XZZX", "Repetition", "RotatedDecoder", "RepetitionDecoder"]))
    odd = st.integers(0, 8).map(lambda k: 2 * k + 1)
    even = st.integers(0, 8).map(lambda k: 2 * k)
    rep = who.startswith("Rep")
    dec = who.endswith("Decoder")
    kinds = ["even scalar", "even pair", "even pair", "even pair", "negative scalar", "negative pair"]
    if rep:
        kinds += ["flavour", "flavour", "string", "list"]
    if dec:
        kinds += ["no T", "no T", "empty"] + ([] if rep else ["no d", "no d", "triple"])
    kind = draw(st.sampled_from(kinds))
    phase = draw(st.booleans()) if rep else None
    p = {}
    if rep and (phase or draw(st.booleans())):
        p["phase-flip-protected"] = phase
    num = draw(st.sampled_from(["int", "float", "np.int64"]))
    if kind == "even scalar":
        p["d"] = draw(even)
    elif kind == "even pair":
        which = draw(st.integers(0, 2))
        if rep:
            e = draw(even)
            p["d"] = [1, e] if phase else [e, 1]
        else:
            p["d"] = [draw(even if which in (0, 2) else odd), draw(even if which in (1, 2) else odd)]
    elif kind == "negative scalar":
        p["d"] = -draw(odd)
    elif kind == "negative pair":
        a, b = draw(odd), draw(odd)
        s = draw(st.integers(0, 2))
        p["d"] = ([1, -a] if phase else [-a, 1]) if rep else [a if s == 0 else -a, b if s == 1 else -b]
    elif kind == "flavour":
        a = draw(st.integers(1, 8)) * 2 + 1
        b = draw(st.sampled_from([1, 1, 3, 5, 7]))
        p["d"] = [a, b] if phase else [b, a]
    elif kind == "string":
        p["d"] = draw(st.sampled_from(["3", "31", "odd"]))
    elif kind == "list":
        p["d"] = [1, 3] if phase else [3, 1]
    elif kind in ("no T", "triple"):
        k = draw(odd) + 2
        p["d"] = k if rep or draw(st.booleans()) else [k, draw(odd)]
        if kind == "triple":
            p["d"] = [3, 5, 7]
    if dec and kind not in ("no T", "empty"):
        p["T"] = draw(st.integers(1, 5))
    return {"who": who, "kind": kind, "p": p, "num": num, "before": draw(st.booleans()), "positional": draw(st.booleans())}


def check_invalid(case):
    p = dict(case["p"])
    num = NUM[case["num"]] if not case["who"].endswith("Decoder") else int
    if "d" in p:
        if isinstance(p["d"], int):
            p["d"] = num(p["d"])
        elif isinstance(p["d"], list) and case["kind"] != "list":
            p["d"] = tuple(num(x) for x in p["d"])
    labels = [case["who"], case["kind"]]
    if case["who"].endswith("Decoder"):
        cls = RotatedDecoder if case["who"] == "RotatedDecoder" else RepetitionDecoder
        try:
            cls(dict(p))
        except Exception:
            return True, labels
        raise Violation("%s accepted %s" % (case["who"], p))
    circ = QuantumCircuit(QuantumRegister(2, "mine"), ClassicalRegister(1, "out"))
    circ.h(0)
    if case["before"]:
        lib.CLS["XXZZ"]({"d": (3, 1)}, "first", circ).stabilize()
    before = (list(circ.qregs), list(circ.cregs), len(circ.data), circ.num_qubits, circ.num_clbits)
    keep = copy.deepcopy(p)
    try:
        if case["positional"]:
            lib.CLS[case["who"]](p, "tq", circ)
        else:
            lib.CLS[case["who"]](params=p, name="tq", circ=circ)
    except Exception:
        pass
    else:
        raise Violation("%s accepted %s" % (case["who"], p))
    after = (list(circ.qregs), list(circ.cregs), len(circ.data), circ.num_qubits, circ.num_clbits)
    require(before == after, "rejecting %s left something on the caller's circuit", p)
    require(same_params(p, keep), "rejecting %s changed the caller's dictionary to %s", keep, p)
    return True, labels


# ---- one dictionary for several -----------------------------------------------------------------

USERS = ["XXZZ", "XZZX", "Repetition", "RotatedDecoder", "RepetitionDecoder", "register"]


@st.composite
def shared_cases(draw, tier):
    return {"d": draw(st.one_of(st.sampled_from([3, 5, 7, 9]), st.sampled_from([3, 5, 7]), st.tuples(st.sampled_from([1, 3, 5]), st.sampled_from([1, 3, 5])).filter(lambda t: t != (1, 1)).map(list))),
            "num": draw(st.sampled_from(["int", "int", "float", "np.int64"])), "flag": draw(st.sampled_from([None, None, False, True])),
            "users": draw(st.lists(st.sampled_from(USERS), min_size=2, max_size=6)), "T": draw(st.integers(1, 3)),
            "one": draw(st.booleans()), "then": draw(st.sampled_from([None, 11, [1, 5], [5, 1]]))}


def check_shared(case):
    num, d = NUM[case["num"]], case["d"]
    p = {"d": tuple(num(x) for x in d) if isinstance(d, list) else num(d), "T": case["T"]}
    if case["flag"] is not None:
        p["phase-flip-protected"] = case["flag"]
    circ = QuantumCircuit() if case["one"] else None
    made = []
    for k, u in enumerate(case["users"]):
        rep = u.startswith("Rep")
        keep = copy.deepcopy(p)
        flag = p.get("phase-flip-protected")
        if isinstance(p["d"], tuple):
            want = tuple(map(int, p["d"]))
            ok = not rep or want[0 if flag else 1] == 1
        else:
            want = (d, d) if not rep else (1, d) if flag else (d, 1)
            ok = True
        # a decoder may write out a single number, and the protection it implies, in the caller's
        # dictionary (the existing tests rely on it); whoever is made from it next goes by that
        allowed = [keep]
        if u.endswith("Decoder"):
            pair = keep if isinstance(keep["d"], tuple) else dict(keep, d=want)
            allowed = [keep, pair] + ([dict(x, **{"phase-flip-protected": False}) for x in (keep, pair)] if rep and flag is None else [])
        try:
            if u == "RotatedDecoder":
                o = RotatedDecoder(p)
            elif u == "RepetitionDecoder":
                o = RepetitionDecoder(p)
            elif u == "register":
                o = TopologicalRegister(ctypes=["XXZZ", "XZZX"], params=[p, p], name="reg%d" % k, **({"circ": circ} if circ is not None else {}))[1]
            else:
                o = lib.CLS[u](p, "q%d" % k, circ) if circ is not None else lib.CLS[u](p, "q%d" % k)
        except Exception:
            if ok:
                raise
            o = None
        else:
            require(ok, "%s accepted %s", u, p)
        require(any(same_params(p, a) for a in allowed), "%s (user %d of the dictionary) changed it from %s to %s", u, k, keep, p)
        made.append((u, o, want))

    def look(when):
        for k, (u, o, want) in enumerate(made):
            if o is None:
                continue
            got = o.params if u.endswith("Decoder") else o.lattice.params
            require(tuple(got["d"]) == want, "%s: user %d (%s) has shape %s, expected %s", when, k, u, got["d"], want)
            nx, nz = model.num_syn(*want)
            rounds = [[(r * 5 + i * 3) % 7 % 2 for i in range(nx + nz)] for r in range(case["T"] + 1)]
            s = lib.readout_string(rounds, [1])
            ref = lib.CLS["XXZZ"]({"d": want})
            v1, h1 = o.parse_readout(s)
            v2, h2 = ref.parse_readout(s)
            require(v1 == v2 and lib.norm_hits(h1) == lib.norm_hits(h2), "%s: user %d (%s) parses %r differently", when, k, u, s)
            if u.endswith("Decoder"):
                require(got["T"] == case["T"], "%s: user %d (%s) has T = %s", when, k, u, got["T"])
                for key, g in o.S.items():
                    require(not dict(X=nx, Z=nz)[key] or len(g.nodes()) == case["T"] * dict(X=nx, Z=nz)[key] + len(o.virtual[key]), "%s: user %d (%s) has %d nodes of type %s", when, k, u, len(g.nodes()), key)
            else:
                require(len(lib.data_qubits(o)) == want[0] * want[1], "%s: user %d (%s) has %d data qubits", when, k, u, len(lib.data_qubits(o)))

    look("after all")
    if case["then"] is not None:  # the caller goes on to use the dictionary for something else
        p["d"] = tuple(case["then"]) if isinstance(case["then"], list) else case["then"]
        p["T"] = case["T"] + 5
        p["phase-flip-protected"] = not case["flag"]
        look("after the caller changed the dictionary")
    return len({u for u, o, _ in made if o is not None}) >= 2, ["pair" if isinstance(d, list) else "scalar", "users=%d" % len(made)]


PARTS = [
    Part("shared", lambda tier: shared_cases(tier), check_shared, 500, 4000),
    Part("accepted", lambda tier: valid(tier), check_valid, 2000, 16000),
    Part("rejected", lambda tier: invalid(tier), check_invalid, 3000, 20000),
]
