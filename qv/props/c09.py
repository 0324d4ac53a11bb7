"""C09: the decoder's syndrome graphs against the graph of elementary faults."""
from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require

ID = "C09"
RULE = (
    "Case = decoder kind, height, width, number of time steps; node sets, edges, weights and boundary are compared with "
    "the fault graph derived from the plaquette geometry. Non-trivial = two or more time steps or a non-square lattice."
)


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["Rotated", "Rotated", "Repetition"]))
    odd = st.sampled_from([1, 3, 3, 5, 5, 7, 7, 9, 11, 13, 15])
    if kind == "Repetition":
        k = draw(st.integers(1, 15)) * 2 + 1
        h, w = draw(st.sampled_from([(k, 1), (1, k)]))
    else:
        h, w = draw(odd), draw(odd)
        if (h, w) == (1, 1):
            h = 3
    top = max(1, min(120, 1200 // (h * w)))
    T = draw(st.one_of(st.integers(1, min(top, 8)), st.integers(1, top)))
    return {"kind": kind, "d": [h, w], "T": T, "scalar": draw(st.booleans())}


def check(case):
    h, w = case["d"]
    T = case["T"]
    spec = {"code": "Repetition" if case["kind"] == "Repetition" else "XXZZ", "d": [h, w], "scalar": case["scalar"]}
    dec = lib.make_decoder(spec, T)
    keys = {"X", "Z"} if case["kind"] == "Rotated" else ({"X"} if h == 1 else {"Z"})
    require(set(dec.S) == keys, "decoder has graphs %s, expected %s", sorted(dec.S), sorted(keys))
    for k in sorted(keys):
        if not model.plaquettes(h, w)[k]:
            continue
        ref = model.fault_graph(h, w, T, k)
        S = dec.S[k]
        nodes = [tuple(x) for x in S.nodes()]
        require(len(nodes) == len(set(nodes)), "%s graph has duplicate nodes", k)
        extra, missing = set(nodes) - set(ref), set(ref) - set(nodes)
        require(not extra and not missing, "%s graph: extra nodes %s, missing nodes %s", k, sorted(extra)[:4], sorted(missing)[:4])
        edges = [frozenset((tuple(S[a]), tuple(S[b]))) for a, b in S.edge_list()]
        want = {frozenset((a, b)) for a in ref for b in ref[a]}
        require(len(edges) == len(set(edges)), "%s graph has duplicate edges", k)
        e, m = set(edges) - want, want - set(edges)
        require(not e and not m, "%s graph: extra edges %s, missing edges %s", k,
                [sorted(x) for x in list(e)[:3]], [sorted(x) for x in list(m)[:3]])
        require(all(x == 1 for x in S.edges()), "%s graph has edge weights other than 1", k)
        for node, i in dec.node_map[k].items():
            require(tuple(S[i]) == tuple(node), "%s node map points from %s to %s", k, node, S[i])
        require(set(map(tuple, dec.node_map[k])) == set(ref), "%s node map is incomplete", k)
        b = model.boundary(h, w, k)
        v = [tuple(x) for x in dec.virtual[k]]
        require(sorted(v) == sorted(b["near"] + b["far"]), "%s boundary nodes are %s, expected %s", k, sorted(v), sorted(b["near"] + b["far"]))
    return T > 1 or h != w, [case["kind"], "T=%d" % T, "%dx%d" % (h, w) if h * w < 50 else "large"]


PARTS = [Part("graphs", lambda tier: cases(tier), check, 1500, 15000,
              fixed=[{"kind": "Rotated", "d": [h, w], "T": 2, "scalar": False}
                     for h in range(1, 10, 2) for w in range(1, 10, 2) if (h, w) != (1, 1)]
              + [{"kind": "Rotated", "d": [51, 51], "T": 1, "scalar": True},
                 {"kind": "Rotated", "d": [3, 61], "T": 2, "scalar": False},
                 {"kind": "Rotated", "d": [61, 3], "T": 2, "scalar": False},
                 {"kind": "Rotated", "d": [3, 3], "T": 140, "scalar": False},
                 {"kind": "Rotated", "d": [3, 1], "T": 300, "scalar": False},
                 {"kind": "Rotated", "d": [5, 3], "T": 101, "scalar": False},
                 {"kind": "Repetition", "d": [1, 3], "T": 270, "scalar": False},
                 {"kind": "Repetition", "d": [101, 1], "T": 3, "scalar": True}])]
