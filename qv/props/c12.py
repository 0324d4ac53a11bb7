"""C12: error-graph weights against breadth-first distances and path counts."""
import math

from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require

ID = "C12"
RULE = (
    "Case = one decoder object, time steps, 1-4 requests one after the other (plaquette type, 0-9 distinct hits in any order, "
    "optional error probability); every edge weight is recomputed by breadth-first search on the fault graph. Non-trivial = a "
    "request with an error probability and at least one pair with more than one shortest explanation."
)


@st.composite
def cases(draw, tier):
    spec = draw(lib.decoder_specs(9 if tier == "quick" else 11, 81))
    T = draw(st.sampled_from([1, 2, 3, 4] + ([9] if lib.ndata(spec) <= 15 else [])))
    out = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 4]))):
        key = draw(st.sampled_from(lib.bases(spec)))
        nodes = lib.hit_nodes(spec, T, key)
        hits = draw(lib.subsets(nodes, 9, min_size=draw(st.sampled_from([0, 2, 4]))))
        if draw(st.booleans()) and list(nodes[0]) not in hits:
            hits = [list(nodes[0])] + hits  # the node the decoder created first
        p = draw(st.one_of(st.floats(0.001, 0.49), st.sampled_from([None, 1e-6, 1e-12, 1e-9, 0.05, 0.1, 0.1])))
        out.append({"key": key, "hits": hits, "p": p})
    return {"spec": spec, "T": T, "requests": out}


@st.composite
def far_cases(draw, tier):
    """Hits as far apart as graphs of some size allow: very many shortest explanations."""
    kind = draw(st.sampled_from(["strip", "strip", "rep", "square", "late", "thin"] + ["huge"] * (tier == "thorough")))
    if kind == "thin":  # more than 2^64 shortest explanations
        spec, T = {"code": draw(st.sampled_from(["XXZZ", "XZZX"])), "d": draw(st.sampled_from([[101, 5], [5, 101]])), "scalar": False}, 1
    elif kind in ("strip", "rep", "late", "huge"):
        L = {"late": 5, "huge": 41}.get(kind) or draw(st.sampled_from([11, 21, 31]))
        T = {"late": 60, "huge": 34}.get(kind) or draw(st.sampled_from([12, 20]))
        d = draw(st.sampled_from([[L, 1], [1, L]]))
        spec = {"code": "Repetition" if kind == "rep" else "XXZZ", "d": d, "scalar": False}
    else:
        spec, T = {"code": draw(st.sampled_from(["XXZZ", "XZZX"])), "d": draw(st.sampled_from([[9, 9], [7, 7], [3, 15], [15, 3], [11, 7]])), "scalar": False}, draw(st.sampled_from([6, 12]))
    key = draw(st.sampled_from([k for k, n in zip("XZ", lib.nsyn(spec)) if n and k in lib.bases(spec)]))
    nodes = lib.hit_nodes(spec, T, key)
    n = len(nodes)
    ends = draw(st.lists(st.sampled_from([0, n // T - 1, n - n // T, n - 1, n // 2]), min_size=2, max_size=4, unique=True))
    more = draw(st.lists(st.integers(0, n - 1), max_size=3))
    hits = [list(nodes[k]) for k in dict.fromkeys(ends + more)]
    return {"spec": spec, "T": T, "requests": [{"key": key, "hits": hits, "p": draw(st.sampled_from([1e-9, 0.01, 0.1, 0.3]))}]}


def check(case):
    spec, T = case["spec"], case["T"]
    dec = lib.make_decoder(spec, T)
    nontrivial, labels = False, [spec["code"], "T=%d" % T, "requests=%d" % len(case["requests"])]
    for r in case["requests"]:
        nontrivial |= request(dec, spec, T, r["key"], [tuple(x) for x in r["hits"]], r["p"])
        labels.append("hits=%d" % len(r["hits"]))
        labels.append("p" if r["p"] else "plain")
    return nontrivial, sorted(set(labels))


def request(dec, spec, T, key, hits, p):
    h, w = lib.dims(spec)
    g = lib.method(dec, "_make_error_graph")(list(hits), key, err_prob=p)
    bd = model.boundary(h, w, key)
    virt = bd["near"] + bd["far"]
    nodes = [tuple(x) for x in g.nodes()]
    want = set(hits) | set(virt)
    extra = set(nodes) - want
    require(len(nodes) == len(set(nodes)), "duplicate nodes in the error graph")
    require(want <= set(nodes), "error graph lacks nodes %s", sorted(want - set(nodes)))
    # an odd number of hits gets a spare partner for a boundary node; what is needed for the matching, C11 decides
    degenerate = False
    for a_i, b_i in g.edge_list():
        a, b = tuple(g[a_i]), tuple(g[b_i])
        got = g.get_edge_data(a_i, b_i)
        if a in extra or b in extra:
            require((a in virt or a in extra) and (b in virt or b in extra) and got == 0, "spare node has edge %s - %s of weight %s", a, b, got)
            continue
        ref = -lib.pair_weight(spec, T, key, a, b, p)
        require(abs(got - ref) < 1e-9, "weight of %s - %s is %r, expected %r (err_prob=%s)", a, b, got, ref, p)
        if p and ref != int(ref):
            degenerate = True
    pairs = {frozenset((tuple(g[a]), tuple(g[b]))) for a, b in g.edge_list()}
    allp = {frozenset((a, b)) for i, a in enumerate(sorted(want)) for b in sorted(want)[:i]}
    require(allp <= pairs, "error graph lacks the edges %s", [sorted(x) for x in list(allp - pairs)[:3]])
    return bool(p) and degenerate


PARTS = [Part("weights", lambda tier: cases(tier), check, 2500, 25000),
         Part("far", lambda tier: far_cases(tier), check, 48, 400)]
