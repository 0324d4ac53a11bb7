"""C11: matchings are perfect on the hits, use each boundary node at most once, and are optimal."""
import random
from functools import lru_cache

import networkx as nx_
from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require

ID = "C11"
RULE = (
    "Case = decoder, time steps, plaquette type, a set of 0-20 (many: up to 80; sparse: 1-6 deep inside, rounds apart) distinct hits, optional error probability. The optimum is "
    "recomputed by networkx and, up to 7 hits, by dynamic programming over all pairings. Non-trivial = three or more hits."
)
ASSUMPTIONS = ["networkx's matching as second opinion above 7 hits", "float weights are compared up to the 1e-4 rounding of the matcher"]


@st.composite
def cases(draw, tier):
    spec = draw(lib.decoder_specs(7 if tier == "quick" else 9, 49))
    key = draw(st.sampled_from(lib.bases(spec)))
    T = draw(st.integers(1, 4))
    k = draw(st.sampled_from([2, 4, 7, 7, 12, 20]))
    hits = draw(lib.subsets(lib.hit_nodes(spec, T, key), k, min_size=k // 2))
    return {"spec": spec, "T": T, "key": key, "hits": hits, "p": draw(st.sampled_from([None, None, 0.01, 0.1, 0.25, 0.45]))}


@st.composite
def sparse_cases(draw, tier):
    return dict(draw(lib.sparse_hits(tier)), p=draw(st.sampled_from([None, None, 0.01, 0.1, 0.45])))


@st.composite
def many_cases(draw, tier):
    """Many hits, drawn at random from big graphs."""
    spec = draw(lib.decoder_specs(9 if tier == "quick" else 13, 81 if tier == "quick" else 169))
    key = draw(st.sampled_from(lib.bases(spec)))
    T = draw(st.sampled_from([2, 4, 8, 11] if lib.ndata(spec) < 50 else [2, 4, 6]))
    nodes = lib.hit_nodes(spec, T, key)
    k = min(draw(st.integers(16, 80)), len(nodes))
    return {"spec": spec, "T": T, "key": key, "p": draw(st.sampled_from([None, 0.01, 0.1, 0.45])),
            "hits": sorted(map(list, random.Random(draw(st.integers(0, 10**6))).sample(nodes, k)))}


def check(case):
    spec, T, key, p = case["spec"], case["T"], case["key"], case["p"]
    hits = [tuple(x) for x in case["hits"]]
    dec = lib.make_decoder(spec, T)
    make, run, draw = (lib.method(dec, m) for m in ("_make_error_graph", "_run_mwpm", "_run_mwpm_graph"))
    g = make(list(hits), key, err_prob=p) if p else make(list(hits), key)
    floats = p is not None
    matches = run(g, floats=floats) if floats else run(g)
    mg = draw(g, floats=floats) if floats else draw(g)
    # the step correct_readout uses
    steps = dec._corrections(list(hits), key, err_prob=p) if hits and hasattr(dec, "_corrections") else matches
    bd = model.boundary(*lib.dims(spec), key)
    virt = bd["near"] + bd["far"]
    index = {}
    for i in g.node_indices():
        index[tuple(g[i])] = i
    for ms in (steps, matches):
        used = []
        for a, b in ms:
            used += [tuple(a), tuple(b)]
        require(len(used) == len(set(used)), "a node is matched twice: %s", ms)
        require(set(hits) <= set(used), "unmatched hits %s", sorted(set(hits) - set(used)))
        require(set(used) <= set(hits) | set(virt), "matches contain foreign nodes: %s", ms)
        for a, b in ms:
            require(tuple(a) in hits or tuple(b) in hits, "match %s - %s has no hit", a, b)

    def weight(a, b):
        require(a in index and b in index and g.has_edge(index[a], index[b]), "error graph lacks the edge %s - %s", a, b)
        return -g.get_edge_data(index[a], index[b])

    total = sum(weight(tuple(a), tuple(b)) for a, b in matches)
    # matched graph
    pairs = {frozenset((tuple(a), tuple(b))) for a, b in matches}
    gp = {frozenset((tuple(mg[i]), tuple(mg[j]))) for i, j in mg.edge_list()}
    require(pairs == gp, "matched graph has pairs %s, matching has %s", sorted(map(sorted, gp)), sorted(map(sorted, pairs)))
    require(sorted(map(tuple, mg.nodes())) == sorted(used), "matched graph has other nodes than the matching")
    for i, j in mg.edge_list():
        require(abs(mg.get_edge_data(i, j) + weight(tuple(mg[i]), tuple(mg[j]))) < 1e-9, "matched graph changes a weight")
    # optimum
    n = len(hits)
    tol = 1e-9 if not floats else 1.01e-4 * n + 1e-7  # n edges at most, each rounded
    best = nx_min(hits, virt, weight)
    decided = sum(weight(tuple(a), tuple(b)) for a, b in steps)
    require(decided <= best + tol, "the matching decoded by weighs %.6f, minimum is %.6f", decided, best)
    require(total <= best + tol, "total weight %.6f, minimum is %.6f", total, best)
    require(total >= best - tol, "total weight %.6f is below the minimum %.6f", total, best)
    if n <= 7:
        even, odd = dp_min(hits, virt, weight)
        require(abs(min(even, odd) - best) < 1e-6, "reference algorithms disagree (%f, %f)", min(even, odd), best)
    return n >= 3, [spec["code"], "hits=%d" % n, "T=%d" % T, "weighted" if p else "plain"]


def nx_min(hits, virt, weight):
    """Minimum over perfect matchings of the hits, boundary nodes optional."""
    if not hits:
        return 0.0
    G = nx_.Graph()
    for i, a in enumerate(hits):
        for b in hits[:i]:
            G.add_edge(a, b, weight=weight(a, b))
        for v in virt:
            G.add_edge(a, v, weight=weight(a, v))
    for i, v in enumerate(virt):
        for u in virt[:i]:
            G.add_edge(u, v, weight=0.0)
    if G.number_of_nodes() % 2:
        for v in virt:
            G.add_edge("spare", v, weight=0.0)
    # hits must be matched; perfect matchings exist since the number of nodes is even
    m = nx_.min_weight_matching(G)
    return sum(G[a][b]["weight"] for a, b in m)


def dp_min(hits, virt, weight):
    n = len(hits)

    @lru_cache(None)
    def best(mask, used):
        if mask == (1 << n) - 1:
            return 0.0
        i = 0
        while (mask >> i) & 1:
            i += 1
        r = float("inf")
        for j in range(i + 1, n):
            if not (mask >> j) & 1:
                r = min(r, best(mask | (1 << i) | (1 << j), used) + weight(hits[i], hits[j]))
        for k, v in enumerate(virt):
            if not (used >> k) & 1:
                r = min(r, best(mask | (1 << i), used | (1 << k)) + weight(hits[i], v))
        return r

    return best(0, 0), float("inf")


PARTS = [Part("matchings", lambda tier: cases(tier), check, 2500, 25000),
         Part("many", lambda tier: many_cases(tier), check, 300, 4000),
         Part("sparse", lambda tier: sparse_cases(tier), check, 300, 4000)]
