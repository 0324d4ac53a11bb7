"""C13: decoding returns the class of the cheapest explanation."""
import random

from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require

ID = "C13"
RULE = (
    "Case = decoder, time steps, basis, 0-7 distinct hits, measured value, optional error probability; the cheapest "
    "explanation of either parity is recomputed from the fault graph by dynamic programming over all pairings. dense: up to 24 "
    "hits, arbitrary or left by random faults, with parity-constrained matching as the oracle; many: up to 70 hits on big graphs; sparse: 1-6 hits deep inside, rounds apart. Non-trivial = "
    "two or more hits and the two parities differ in cost (otherwise any answer is allowed)."
)
ASSUMPTIONS = ["with an error probability, costs closer than the matcher's documented 1e-4 rounding count as equal"]


@st.composite
def cases(draw, tier):
    spec = draw(lib.decoder_specs(7, 49))
    key = draw(st.sampled_from(lib.bases(spec)))
    T = draw(st.integers(1, 4))
    k = draw(st.sampled_from([1, 3, 5, 7]))
    hits = draw(lib.subsets(lib.hit_nodes(spec, T, key), k, min_size=k // 2))
    p = draw(st.one_of(st.none(), st.floats(0.001, 0.49), st.sampled_from([0.0, 0.05, 0.1, 0.3])))
    return {"spec": spec, "T": T, "key": key, "hits": hits, "p": p, "value": draw(st.integers(0, 1)),
            "other": draw(st.integers(0, 3)), "string": draw(st.booleans())}


@st.composite
def dense_cases(draw, tier):
    spec = draw(lib.decoder_specs(9 if tier == "quick" else 11, 63 if tier == "quick" else 99))
    h, w = lib.dims(spec)
    key = draw(st.sampled_from(lib.bases(spec)))
    T = draw(st.sampled_from([1, 2, 3, 5, 8] + ([16] if h * w <= 15 else []) + ([40, 110] if h * w <= 9 else [])))
    if draw(st.booleans()):
        hits = draw(lib.subsets(lib.hit_nodes(spec, T, key), 18, min_size=draw(st.sampled_from([4, 8, 14]))))
    else:
        # the trace of random elementary faults
        adj = model.fault_graph(h, w, T, key)
        nodes = lib.hit_nodes(spec, T, key)
        on = set()
        for _ in range(draw(st.integers(2, 14))):
            a = nodes[draw(st.integers(0, len(nodes) - 1))]
            nb = sorted(adj[a])
            b = nb[draw(st.integers(0, len(nb) - 1))]
            for x in (a, b):
                if x[0] >= 0:
                    on ^= {x}
        hits = [list(x) for x in sorted(on)]
    p = draw(st.one_of(st.none(), st.floats(0.001, 0.49), st.sampled_from([0.0, 0.05, 0.1, 0.3])))
    return {"spec": spec, "T": T, "key": key, "hits": hits, "p": p, "value": draw(st.integers(0, 1)),
            "other": draw(st.integers(0, 3)), "string": draw(st.booleans()), "dense": True}


@st.composite
def sparse_cases(draw, tier):
    return dict(draw(lib.sparse_hits(tier)), p=draw(st.one_of(st.none(), st.none(), st.floats(0.001, 0.49), st.sampled_from([0.05, 0.1, 0.3]))),
                value=draw(st.integers(0, 1)), other=draw(st.integers(0, 3)), string=draw(st.booleans()))


@st.composite
def many_cases(draw, tier):
    """Many hits on big graphs: the trace of random faults, or random places."""
    spec = draw(lib.decoder_specs(9 if tier == "quick" else 13, 81 if tier == "quick" else 121))
    h, w = lib.dims(spec)
    key = draw(st.sampled_from(lib.bases(spec)))
    T = draw(st.sampled_from([1, 3, 6, 12] if h * w < 50 else [1, 2, 4]))
    nodes = lib.hit_nodes(spec, T, key)
    rnd = random.Random(draw(st.integers(0, 10**6)))
    k = draw(st.integers(10, 36))
    if draw(st.integers(0, 2)) == 0:
        hits = rnd.sample(nodes, min(k, len(nodes)))
    else:
        adj = model.fault_graph(h, w, T, key)
        on = set()
        for _ in range(k):
            a = rnd.choice(nodes)
            for x in (a, rnd.choice(sorted(adj[a]))):
                if x[0] >= 0:
                    on ^= {x}
        hits = on
    p = draw(st.one_of(st.none(), st.floats(0.001, 0.49), st.sampled_from([0.05, 0.1, 0.3])))
    return {"spec": spec, "T": T, "key": key, "hits": sorted(map(list, hits)), "p": p, "value": draw(st.integers(0, 1)),
            "other": draw(st.integers(0, 3)), "string": draw(st.booleans()), "dense": True}


@st.composite
def close_cases(draw, tier):
    """Of many sets of few hits, one whose two parities differ least (but more than the tolerance)."""
    spec = draw(lib.decoder_specs(9, 81).filter(lambda s: min(s["d"]) > 1))
    key = draw(st.sampled_from(lib.bases(spec)))
    T = draw(st.integers(1, 4))
    p = draw(st.one_of(st.floats(0.001, 0.4), st.sampled_from([1e-300, 1e-100, 1e-9, 1e-5, 0.05, 0.1, 0.3])))
    nodes = lib.hit_nodes(spec, T, key)
    rnd = random.Random(draw(st.integers(0, 10**6)))
    best = None
    if draw(st.booleans()):
        # an error probability at which the two parities are about equally likely
        for _ in range(12):
            hits = rnd.sample(nodes, min(len(nodes), rnd.choice([1, 2, 3, 4])))
            least = 1.02e-4 * len(hits) + 1e-6

            def gap(q):
                c = lib.class_costs(spec, T, key, hits, q)
                return c[0] - c[1]

            grid = [(q, gap(q)) for q in (1e-200, 1e-9, 1e-3, 0.05, 0.2, 0.4, 0.49)]
            for (a, ga), (b, gb) in zip(grid, grid[1:]):
                if ga * gb >= 0:
                    continue
                for _ in range(40):
                    m = (a + b) / 2
                    gm = gap(m)
                    if least < abs(gm) < 2 * least:
                        return {"spec": spec, "T": T, "key": key, "hits": [list(x) for x in hits], "p": m, "value": draw(st.integers(0, 1)),
                                "other": draw(st.integers(0, 3)), "string": draw(st.booleans())}
                    if abs(gm) <= least:
                        gm = -ga if gm * ga > 0 and abs(gm) < least / 2 else gm
                    if ga * gm > 0:
                        a, ga = m, gm
                    else:
                        b, gb = m, gm
    for _ in range(40):
        hits = rnd.sample(nodes, min(len(nodes), rnd.choice([2, 3, 4])))
        c = lib.class_costs(spec, T, key, hits, p)
        gap = abs(c[0] - c[1])
        if gap > 1.02e-4 * len(hits) + 1e-6 and (best is None or gap < best[0]):
            best = (gap, hits)
    hits = best[1] if best else nodes[:1]
    return {"spec": spec, "T": T, "key": key, "hits": [list(x) for x in hits], "p": p, "value": draw(st.integers(0, 1)),
            "other": draw(st.integers(0, 3)), "string": draw(st.booleans())}


def check(case):
    spec, T, key, p = case["spec"], case["T"], case["key"], case["p"]
    h, w = lib.dims(spec)
    hits = [tuple(x) for x in case["hits"]]
    dec = lib.make_decoder(spec, T)
    c = (lib.class_costs_matching if case.get("dense") else lib.class_costs)(spec, T, key, hits, p)
    if case.get("dense") and len(hits) <= 6:
        d = lib.class_costs(spec, T, key, hits, p)
        assert all(abs(x - y) < 1e-6 or x == y for x, y in zip(c, d)), "reference algorithms disagree"
    n = len(hits)
    tol = 1e-6 if not p else 1.01e-4 * n + 1e-6  # n edges at most, each rounded
    other = "Z" if key == "X" else "X"
    odata = lib.hit_nodes(spec, T, other)[: case["other"]]
    kw = {} if p is None else {"err_prob": p}
    got = {"dict": dec.correct_readout({key: list(hits), other: list(odata)}, key, case["value"], **kw)}
    if case["string"]:
        # the same hits as a string
        pl = model.plaquettes(h, w)
        cur = {k: [0] * len(pl[k]) for k in "XZ"}
        rounds = [lib.join_round(cur["X"], cur["Z"])]
        for t in range(T):
            for k, i, j in [(key, x[1], x[2]) for x in hits if x[0] == t] + [(other, x[1], x[2]) for x in odata if x[0] == t]:
                cur[k][pl[k].index((i, j))] ^= 1
            rounds.append(lib.join_round(cur["X"], cur["Z"]))
        got["string"] = dec.correct_readout(lib.readout_string(rounds, [case["value"]]), key, **kw)
    for form, v in got.items():
        require(v in (0, 1), "%s decodes to %r", form, v)
        if abs(c[0] - c[1]) > tol:
            want = case["value"] ^ (1 if c[1] < c[0] else 0)
            require(v == want, "%s decodes to %s, but the cheapest explanation (%.5f, other parity %.5f) gives %s",
                    form, v, min(c), max(c), want)
    return n >= 2 and abs(c[0] - c[1]) > tol, [spec["code"], key, "hits=%d" % n, "T=%d" % T, "p" if p else "plain",
                                                "tie" if abs(c[0] - c[1]) <= tol else "decided"]


PARTS = [Part("classes", lambda tier: cases(tier), check, 2500, 25000), Part("dense", lambda tier: dense_cases(tier), check, 1200, 15000),
         Part("close", lambda tier: close_cases(tier), check, 400, 5000),
         Part("many", lambda tier: many_cases(tier), check, 160, 2400),
         Part("sparse", lambda tier: sparse_cases(tier), check, 600, 8000)]
