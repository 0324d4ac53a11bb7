"""C06: parsing of readout strings against the documented layout."""
import random

from hypothesis import strategies as st
from qtcodes import TopologicalRegister, TopologicalCircuit

from qv import lib, model
from qv.core import Part, require

ID = "C06"
RULE = (
    "Case = lattice, 1-12 rounds of arbitrary syndrome bits, logical or full-lattice final chunk with arbitrary bits. "
    "Non-trivial = at least three rounds and at least one hit of each existing type."
)


def words(n):
    """n-bit patterns as lists, sparse and dense."""
    if n == 0:
        return st.just([])
    dense = st.integers(0, (1 << n) - 1).map(lambda v: [(v >> k) & 1 for k in range(n)])
    sparse = st.sets(st.integers(0, n - 1), max_size=3).map(lambda s: [int(k in s) for k in range(n)])
    return st.one_of(dense, sparse)


@st.composite
def cases(draw, tier):
    spec = draw(lib.specs(15, 225))
    nx, nz = lib.nsyn(spec)
    rounds = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6, 8, 12]))
    final = draw(st.sampled_from(["bit", "X", "Z"]))
    return {
        "spec": spec,
        "rounds": [{"X": draw(words(nx)), "Z": draw(words(nz))} for _ in range(rounds)],
        "final": final,
        "data": draw(words(1 if final == "bit" else lib.ndata(spec))),
        "type": draw(st.sampled_from(["X", "Z", None])),
        # rounds the parsing qubit has run itself: none, as many as the string has, or another number
        "stabilized": draw(st.sampled_from([0, 0, rounds, 1, 2, 3, 6])),
    }


@st.composite
def long_cases(draw, tier):
    """Histories far longer than the usual ones."""
    spec = draw(lib.specs(5, 15))
    nx, nz = lib.nsyn(spec)
    rounds = draw(st.sampled_from([9, 17, 33, 65, 70, 129, 260]))
    rnd = random.Random(draw(st.integers(0, 10**6)))
    density = draw(st.sampled_from([0.05, 0.3, 0.5]))
    bits = lambda n: [int(rnd.random() < density) for _ in range(n)]
    final = draw(st.sampled_from(["bit", "X", "Z"]))
    return {"spec": spec, "rounds": [{"X": bits(nx), "Z": bits(nz)} for _ in range(rounds)], "final": final,
            "data": bits(1 if final == "bit" else lib.ndata(spec)), "type": draw(st.sampled_from(["X", "Z", None])), "stabilized": draw(st.sampled_from([0, 1, 4]))}


@st.composite
def wide_cases(draw, tier):
    """Lattices with hundreds of plaquettes of each type."""
    d = draw(st.sampled_from([[17, 17], [21, 21], [23, 19], [19, 25], [3, 201], [301, 1], [1, 301], [151, 3]]))
    spec = {"code": draw(st.sampled_from(["XXZZ", "XZZX"] if 1 not in d else ["XXZZ", "Repetition"])), "d": d, "scalar": False}
    nx, nz = lib.nsyn(spec)
    rnd = random.Random(draw(st.integers(0, 10**6)))
    density = draw(st.sampled_from([0.01, 0.2, 0.5]))
    bits = lambda n: [int(rnd.random() < density) for _ in range(n)]
    final = draw(st.sampled_from(["bit", "X", "Z"]))
    return {"spec": spec, "rounds": [{"X": bits(nx), "Z": bits(nz)} for _ in range(draw(st.integers(1, 3)))], "final": final,
            "data": bits(1 if final == "bit" else lib.ndata(spec)), "type": draw(st.sampled_from(["X", "Z", None])), "stabilized": 0}


def check(case):
    spec = case["spec"]
    h, w = lib.dims(spec)
    rounds = case["rounds"]
    treg = TopologicalRegister(ctypes=["XXZZ", spec["code"]], params=[{"d": (5, 3)}, lib.params_of(spec)])
    tc = TopologicalCircuit(treg)
    q = treg[1]
    if lib.ndata(spec) < 30:
        for _ in range(int(case["stabilized"])):
            q.stabilize()
    dec = lib.make_decoder(spec, max(1, len(rounds)))
    hist = [dict(r) for r in rounds]
    if case["final"] == "bit":
        value = case["data"][0]
        typ = case["type"]
    else:
        typ = case["final"]
        d = case["data"]
        value = sum(d[i] for i, _ in model.logical("XXZZ", typ, h, w)) % 2
        fin = dict(hist[-1])
        fin[typ] = [sum(d[i] for i in model.support(h, w, c)) % 2 for c in model.plaquettes(h, w)[typ]]
        hist.append(fin)
    want = (value, lib.ref_hits(spec, hist))
    text = lib.readout_string([lib.join_round(r["X"], r["Z"]) for r in rounds], case["data"])
    parsers = [
        ("qubit", lambda: q.parse_readout(text, typ)),
        ("decoder", lambda: dec.parse_readout(text, typ)),
        ("circuit", lambda: tc.parse_readout(1, text, typ)),
        ("circuit by qubit", lambda: tc.parse_readout(q, text, typ)),
    ]
    if typ is None:
        parsers.append(("qubit without type", lambda: q.parse_readout(text)))
    if typ == "Z":
        parsers.append(("circuit default type", lambda: tc.parse_readout(1, text)))
    for name, f in parsers:
        v, hits = f()
        require(set(hits) <= {"X", "Z"}, "%s: unknown syndrome types %s", name, sorted(hits))
        got = (v, lib.norm_hits(hits))
        require(got == want, "%s parses %r (%s) to %s, expected %s", name, text, typ, got, want)
        # every reported location is a node of the decoder's graph for that many steps
        for k in dec.S:
            for node in hits[k]:
                require(tuple(node) in dec.node_map[k], "%s: hit %s is not a node of the decoder's %s graph", name, node, k)
        # round trip: the hits and the first round give back the whole history
        back = [{k: list(v) for k, v in hist[0].items()}]
        for t in range(len(hist) - 1):
            nxt = {k: list(v) for k, v in back[-1].items()}
            for k in "XZ":
                for j, c in enumerate(model.plaquettes(h, w)[k]):
                    if (t,) + c in [tuple(x) for x in hits[k]]:
                        nxt[k][j] ^= 1
            back.append(nxt)
        require(back == hist, "%s: hits do not determine the history", name)
    nt = len(hist) >= 3 and all(want[1][k] for k, n in zip("XZ", lib.nsyn(spec)) if n)
    return nt, [spec["code"], "rounds=%d" % len(rounds), case["final"], "1d" if 1 in spec["d"] else ("square" if h == w else ("tall" if h > w else "wide"))]


PARTS = [Part("strings", lambda tier: cases(tier), check, 3000, 40000),
         Part("wide", lambda tier: wide_cases(tier), check, 40, 500),
         Part("long", lambda tier: long_cases(tier), check, 250, 4000)]
